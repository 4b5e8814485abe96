# target: ocelot/transformations/activity_links.py
def _linked(ds):
    return [exc for exc in ds['exchanges'] if exc.get("activity link")]


def _targets(ds, link):
    return [exc for exc in allocatable_production(ds) if exc['name'] == link['name']]


def check_activity_link_validity(data):
    mapping = {ds['id']: ds for ds in data}
    for original_ds in data:
        for link in _linked(original_ds):
            if link['activity link'] not in mapping:
                message = "Found no datasets for activity link:\n{}\nOrigin dataset:\n{}"
                raise UnresolvableActivityLink(message.format(pformat(link), original_ds['filepath']))
            ds = mapping[link['activity link']]
            found = _targets(ds, link)
            if not found:
                message = "Found no candidates for activity link:\n{}\nTarget dataset:\n{}"
                raise UnresolvableActivityLink(message.format(pformat(link), ds['filepath']))
            if len(found) > 1:
                message = "Found multiple candidates for activity link:\n{}\nTarget dataset:\n{}"
                raise UnresolvableActivityLink(message.format(pformat(link), ds['filepath']))
    return data


def _subtract_link(ds, exc, target):
    found = _targets(target, exc)
    assert len(found) == 1
    pv = found[0]['production volume']
    absolute = exc['amount'] * get_biggest_pv_to_exchange_ratio(ds)
    message = "Subtracting activity link: {:.4g} (out of {:.4g}) from {} | {}"
    detailed.info({
        'ds': target,
        'message': message.format(absolute, pv['amount'], ds['name'], ds['location']),
        'function': 'add_hard_linked_production_volumes',
    })
    already = pv.get("subtracted activity link volume", 0)
    pv["subtracted activity link volume"] = already + absolute


def add_hard_linked_production_volumes(data):
    mapping = {ds['id']: ds for ds in data}
    for ds in data:
        for exc in _linked(ds):
            link = exc['activity link']
            if link != ds['id']:
                _subtract_link(ds, exc, mapping[link])
            else:
                message = "Ignoring self-consuming activity link: {:.4g} (PV: {:.4g}"
                detailed.info({
                    'ds': ds,
                    'message': message.format(exc['amount'], production_volume(ds, 0)),
                    'function': 'add_hard_linked_production_volumes',
                })
    return data


def update_transforming_activity_production_volumes(data):
    for ds in data:
        if ds['type'] != 'transforming activity':
            continue
        for exc in allocatable_production(ds):
            pv = exc['production volume']
            if "subtracted activity link volume" in pv:
                subtracted, original = pv['subtracted activity link volume'], pv['amount']
                message = "Subtracting hard-linked production volumes: {:.4g} from {:.4g}"
                detailed.info({
                    'ds': ds,
                    'message': message.format(subtracted, original),
                    'function': 'update_transforming_activity_production_volumes',
                })
                pv['original amount'] = original
                net = original - subtracted
                pv['amount'] = net if net > 0 else 0
    return data


def update_activity_link_parent_child(data):
    for ds in data:
        if not ds['parent']:
            continue
        stale = [exc for exc in nonproduction_exchanges(ds)
                 if exc.get('activity link') == ds['parent']]
        for exc in stale:
            exc['activity link'] = ds['id']
            logger.info({
                'type': 'table element',
                'data': (ds['name'], ds['location'], exc['amount']),
            })
    return data


def fix_35_activity_links(data):
    # Was a link to RER, but in 3.5 there is only GLO
    bad_link = '25edb027-d7c0-4756-a051-cab82e4f6248'
    for ds in data:
        for exc in ds['exchanges']:
            if exc.get("activity link") == bad_link:
                del exc['activity link']
    return data
# target: ocelot/transformations/identifying.py
CODE_FIELDS = ("name", "reference product", "unit", "location", "start date", "end date")


def _describe(ds):
    return CODE_ERROR_MESSAGE.format(**{field: ds.get(field) for field in CODE_FIELDS})


def add_unique_codes(data):
    seen = {}
    for ds in data:
        code = activity_hash(ds)
        if code in seen:
            raise IdenticalDatasets(_describe(ds))
        seen[code] = True
        ds['code'] = code
    return data
# target: ocelot/transformations/production_volumes.py
def _is_allocatable_byproduct(exc):
    return (exc['type'] == 'byproduct'
            and exc['byproduct classification'] == 'allocatable product')


def add_pv_to_allocatable_byproducts(data):
    for ds in data:
        byproducts = [exc for exc in ds['exchanges'] if _is_allocatable_byproduct(exc)]
        if not byproducts:
            continue
        scale = get_biggest_pv_to_exchange_ratio(ds)
        for exc in byproducts:
            pv = exc['production volume']
            if pv['amount']:
                continue
            amount = abs(exc['amount'] * scale)
            pv['amount'] = amount
            logger.info({
                'type': 'table element',
                'data': (ds['name'], exc['name'], amount)
            })
    return data
