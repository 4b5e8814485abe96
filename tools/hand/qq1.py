# target: ocelot/transformations/consequential/constrained_markets.py
def flip_exchange(exc):
    exc['amount'] = -exc['amount']
    formula = exc.get('formula')
    if 'formula' in exc:
        exc['formula'] = '-1 * ({})'.format(formula)
    return exc


def _to_input(exc):
    exc['type'] = 'from technosphere'
    return flip_exchange(exc)


def _to_product(exc):
    exc['type'] = 'reference product'
    exc['byproduct classification'] = 'allocatable product'
    return flip_exchange(exc)


def handle_constrained_markets(data):
    by_id = {ds['id']: ds for ds in data}
    for ds in data:
        for exc in ds['exchanges']:
            if not exc.get('conditional exchange'):
                continue
            target = by_id[exc['activity link']]
            _to_input(exc)
            old_rp = get_single_reference_product(target)
            _to_input(old_rp)

            matches = [e for e in target['exchanges'] if e['name'] == exc['name']]
            assert len(matches) == 1, "Can't find corresponding input"
            new_rp = matches[0]
            assert new_rp['type'] == 'from technosphere', "Wrong type for activity link target"
            _to_product(new_rp)

            logger.info({
                'type': 'table element',
                'data': (exc['name'], target['name'], target['location'], old_rp['name']),
            })
    return data


def delete_activity_links_to_constrained_markets(data):
    constrained = set()
    for ds in data:
        for exc in ds['exchanges']:
            if exc.get('conditional exchange'):
                constrained.add(exc['activity link'])

    for ds in data:
        for exc in ds['exchanges']:
            if exc.get('conditional exchange') or exc.get('activity link') not in constrained:
                continue
            exc.pop('activity link')
            logger.info({
                'type': 'table element',
                'data': (ds['name'], ds['location'], exc['name'], exc['amount']),
            })
    return data
# target: ocelot/transformations/consequential/market_linking.py
def _best_level(suppliers):
    for level in TECHNOLOGY_LEVEL_HIERARCHY:
        found = [o for o in suppliers if o['technology level'] == level]
        if found:
            return found
    return []


def prune_suppliers_by_technology_level(data):
    for ds in data:
        if ds['type'] not in ("market activity", "market group") or not ds.get('suppliers'):
            continue
        best = _best_level(ds['suppliers'])
        assert best, "No suppliers had a suitable technology level"
        ds['suppliers'] = best
    return data
# target: ocelot/transformations/consequential/technology_levels.py
def _transforming(data):
    return [ds for ds in data if ds['type'] == 'transforming activity']


def log_conflicting_technology_levels(data):
    for rp, datasets in toolz.groupby('reference product', _transforming(data)).items():
        levels = {ds['technology level'] for ds in datasets}
        if 'undefined' in levels and 'current' in levels:
            logger.info({
                'type': 'table element',
                'data': (rp, len(datasets))
            })
    return data


def switch_undefined_to_current(data):
    undefined = [ds for ds in _transforming(data) if ds['technology level'] == 'undefined']
    for ds in undefined:
        logger.info({
            'type': 'table element',
            'data': (ds['name'], ds['reference product'], ds['location'])
        })
        ds['technology level'] = 'current'
    return data
# target: ocelot/transformations/validation.py
def ensure_ids_are_unique(data):
    seen = set()
    for ds in data:
        if ds['id'] in seen:
            raise IdenticalDatasets
        seen.add(ds['id'])
    return data


def check_single_output_activity(dataset):
    num_rp = len([exc for exc in dataset['exchanges'] if exc['type'] == 'reference product'])
    if num_rp != 1:
        raise InvalidMultioutputDataset("Found {} reference products".format(num_rp))
    for exc in dataset['exchanges']:
        if exc['type'] == 'byproduct' and exc['byproduct classification'] == 'allocatable product':
            raise InvalidMultioutputDataset("Found allocatable byproducts")
    return dataset


def _markets(data):
    return (obj for obj in data if obj['type'] == 'market activity')


def ensure_markets_only_have_one_reference_product(data):
    for ds in _markets(data):
        products = [exc for exc in ds['exchanges'] if exc['type'] == 'reference product']
        if len(products) == 1:
            continue
        raise InvalidMarket("Market dataset has zero or multiple reference products:\\{}".format(ds['filepath']))
    return data


def ensure_markets_dont_consume_their_ref_product(data):
    for ds in _markets(data):
        rp = [exc for exc in ds['exchanges'] if exc['type'] == 'reference product'][0]
        for exc in ds['exchanges']:
            if exc == rp or exc.get("activity link"):
                continue
            if exc['name'] == rp['name']:
                message = "Market dataset has exchanges which consume the ref. product:\n{}"
                raise InvalidMarketExchange(message.format(ds['filepath']))
    return data


def ensure_mandatory_properties(data):
    MANDATORY = {"dry mass", "water in wet mass", "water content", "wet mass", "carbon content fossil", "carbon content non-fossil"}
    for ds in data:
        for exc in ds['exchanges']:
            properties = exc.get("properties")
            if not properties:
                continue
            if any(p['name'] in MANDATORY and 'amount' not in p for p in properties):
                raise ValueError
            missing = MANDATORY - {p['name'] for p in properties}
            if missing:
                logger.info({
                    'type': 'table element',
                    'data': (ds['name'], exc['name'], "; ".join(sorted(missing)))
                })
    return data
