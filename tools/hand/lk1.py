# target: ocelot/transformations/locations/linking.py
def _log_unresolved(link):
    logger.info({
        'type': 'table element',
        'data': (link['activity link'], link['name'], link['amount'])
    })


def actualize_activity_links(data):
    by_id = toolz.groupby("id", data)
    for ds in data:
        for exc in ds['exchanges']:
            target = exc.get("activity link")
            if not target:
                continue
            matching = [other for other in by_id[target]
                        if other['reference product'] == exc['name']]
            if len(matching) == 1:
                supplier, = matching
                detailed.info({
                    'ds': ds,
                    'function': 'actualize_activity_links',
                    'message': "Linked input of '{}' to activity '{}' ({}).".format(
                        exc['name'], supplier['name'], supplier['location'])
                })
                exc['code'] = supplier['code']
            else:
                _log_unresolved(exc)
    return data


def link_consumers_to_recycled_content_activities(data):
    producers = {}
    for ds in data:
        if ds['type'] == 'transforming activity' and RC_STRING in ds['reference product']:
            producers.setdefault(ds['reference product'], []).append(ds)

    for ds in data:
        for exc in ds['exchanges']:
            if not unlinked(exc):
                continue
            contributors = producers.get(exc['name'])
            if contributors is None or len(contributors) != 1:
                continue
            sup = contributors[0]
            exc['code'] = sup['code']
            logger.info({
                'type': 'table element',
                'data': (ds['name'], exc['name'], ds['location'], sup['name'])
            })
    return data


def log_and_delete_unlinked_exchanges(data):
    for ds in data:
        keep = []
        for exc in ds['exchanges']:
            if unlinked(exc):
                logger.info({
                    'type': 'table element',
                    'data': (ds['name'], exc['name'], exc['amount'])
                })
            else:
                keep.append(exc)
        ds['exchanges'] = keep
    return data


def add_reference_product_codes(data):
    for ds in data:
        assert 'code' in ds
        get_single_reference_product(ds)['code'] = ds['code']
    return data
