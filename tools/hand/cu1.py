# target: ocelot/transformations/cutoff/utils.py
def apply_allocation_factors(dataset, factors):
    allocated = []
    for factor in factors:
        scale, exc = factor
        allocated.append(choose_reference_product_exchange(dataset, exc, scale))
    return allocated


def _is_non_allocatable_byproduct(exc):
    return exc['type'] == 'byproduct' and not exc['byproduct classification'] == 'allocatable product'


def flip_non_allocatable_byproducts(dataset):
    for exc in filter(_is_non_allocatable_byproduct, dataset['exchanges']):
        exc.pop('byproduct classification')
        exc['type'] = 'from technosphere'
        exc['amount'] = -exc['amount']
        if 'formula' in exc:
            exc['formula'] = '-1 * (%s)' % exc['formula']
    return dataset


@single_input
def delete_allocation_method(dataset):
    dataset.pop("allocation method", None)
    return [dataset]
# target: ocelot/transformations/cutoff/markets.py
def constrained_market_allocation(dataset):
    for exc in dataset['exchanges']:
        if not (exc['type'] == 'byproduct' and exc.get('conditional exchange')):
            continue
        logger.info({
            'type': 'table element',
            'data': (dataset['name'], exc['name']),
        })
        nonreference_product(exc)
    return dataset


def _flip(ds, exchanges):
    logger.info({
        'type': 'table element',
        'data': [ds['name'], ds['location']],
    })
    for exc in exchanges:
        scale_exchange(exc, -1)


def adjust_market_signs_for_allocatable_products(data):
    for ds in data:
        if ds['type'] != 'market activity':
            continue
        rp = get_single_reference_product(ds)
        if rp['byproduct classification'] == 'waste':
            continue
        if all(exc['amount'] <= 0 for exc in ds['exchanges']):
            _flip(ds, ds['exchanges'])
        elif rp['amount'] < 0:
            _flip(ds, [exc for exc in ds['exchanges'] if exc['name'] == rp['name']])
    return data
# target: ocelot/transformations/cutoff/cleanup.py
def _drop_links(data, predicate):
    for ds in data:
        for exc in ds['exchanges']:
            if predicate(exc) and exc.get('activity link'):
                logger.info({
                    'type': 'table element',
                    'data': (ds['name'], exc['name'])
                })
                exc.pop('activity link')
    return data


def drop_zero_amount_activity_links(data):
    return _drop_links(data, lambda exc: not exc['amount'])


def drop_rp_activity_links(data):
    return _drop_links(data, lambda exc: exc['type'] in ('reference product', 'dropped product'))


def has_consequential_property(exchange):
    found = []
    for prop in exchange.get('properties', []):
        if prop['name'] == 'consequential' and prop['amount'] == 1:
            found.append(prop)
    return found


def remove_consequential_exchanges(data):
    for ds in data:
        removed = [exc for exc in ds['exchanges'] if has_consequential_property(exc)]
        kept = [exc for exc in ds['exchanges'] if not has_consequential_property(exc)]
        for exc in removed:
            logger.info({
                'type': 'table element',
                'data': (ds['name'], exc['name'], exc['amount'])
            })
        ds['exchanges'] = kept
    return data
# target: ocelot/transformations/cutoff/economic.py
def _true_value_factors(df):
    mask = df['has true value']
    true_value = df['true value'] * df['amount']
    fraction = df['revenue'][mask].sum() / df['revenue'].sum()
    return mask, true_value / true_value.sum() * fraction


@valid_economic_activity
def economic_allocation(dataset, use_true_value=True):
    df = allocatable_production_as_dataframe(dataset)
    factors = df['revenue'] / df['revenue'].sum()
    if use_true_value:
        mask, true_value = _true_value_factors(df)
        factors[mask] = true_value[mask]
    pairs = zip(factors.tolist(), allocatable_production(dataset))
    return apply_allocation_factors(dataset, pairs)
