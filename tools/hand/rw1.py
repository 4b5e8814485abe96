# target: ocelot/transformations/locations/rest_of_world.py
def _activity_key(dataset):
    products = sorted(
        exc['name'] for exc in allocatable_production(dataset) if exc['amount']
    )
    return dataset['name'], tuple(products)


def _make_row(glo, others):
    region_specific_pv = sum([original_production_volume(obj, 0) for obj in others])
    rp = get_single_reference_product(glo)
    original = production_volume(glo)
    pv = rp['production volume']
    pv['global amount'] = original
    pv['amount'] = max(pv['amount'] - region_specific_pv, 0)
    glo['location'] = 'RoW'
    return rp, original, region_specific_pv


def relabel_global_to_row(data):
    for key, group in toolz.groupby(_activity_key, data).items():
        if group[0]["type"] == "market group":
            continue
        if len(group) == 1:
            continue
        globals_ = [ds for ds in group if ds['location'] == 'GLO']
        if not globals_:
            continue
        check_single_global_dataset(group)
        glo = globals_[0]
        rp, original, region_specific_pv = _make_row(glo, [o for o in group if o != glo])

        name, products = key
        logger.info({
            'type': 'table element',
            'data': (name, "; ".join(sorted(products)))
        })
        detailed.info({
            'ds': glo,
            'message': ("Created RoW dataset '{}' with PV {:.4g} {} "
                        "(Originally: {:.4g}, minus region-specific: {:.4g})").format(
                glo['name'], rp['production volume']['amount'], rp['unit'], original, region_specific_pv),
            'function': 'relabel_global_to_row'
        })
    return data


def drop_zero_pv_row_datasets(data):
    def useless(ds):
        return ds['type'] == 'market activity' and ds['location'] == 'RoW' and production_volume(ds) == 0

    dropped = [ds for ds in data if useless(ds)]
    for ds in dropped:
        logger.info({
            'type': 'table element',
            'data': (ds['name'], reference_products_as_string(ds))
        })
    return [ds for ds in data if not useless(ds)]
