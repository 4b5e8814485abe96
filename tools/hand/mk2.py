# target: ocelot/transformations/locations/markets.py
def _market_input(supplier, amount):
    return remove_exchange_uncertainty({
        'amount': amount,
        'name': supplier['name'],
        'unit': supplier['unit'],
        'type': 'from technosphere',
        'tag': 'intermediateExchange',
        'code': supplier['code']
    })


def _consumer_input(exc, supplier, share):
    new_exc = scale_exchange(deepcopy(exc), share)
    new_exc['type'] = 'from technosphere'
    new_exc['tag'] = 'intermediateExchange'
    new_exc['code'] = supplier['code']
    return new_exc


def _log_detail(dataset, message):
    detailed.info({
        'ds': dataset,
        'message': message,
        'function': 'allocate_suppliers'
    })


def allocate_suppliers(dataset, is_market=True, exc=None):
    exc = exc or get_single_reference_product(dataset)
    suppliers = dataset['suppliers']
    total_pv = sum([o['production volume']['amount'] for o in suppliers])

    if total_pv:
        message = "Production volume of {} {} divided into {} suppliers"
        _log_detail(dataset, message.format(total_pv, exc['name'], len(suppliers)))
    elif len(suppliers) == 1:
        message = ("Assigning default production volume (single supplier, "
                   "zero PV): {} | {} | {}; supplier {} | {}")
        only = suppliers[0]
        _log_detail(dataset, message.format(dataset['name'], dataset['reference product'], dataset['location'],
                                            only['name'], only['location']))
        total_pv = 4321
        only['production volume']['amount'] = total_pv
    else:
        print("Skipping zero total PV with multiple inputs:\n\t{}/{} ({}, {} suppliers)".format(dataset['name'], exc['name'], dataset['location'], len(dataset['suppliers'])))
        return

    for supply_exc in suppliers:
        share = supply_exc['production volume']['amount'] / total_pv
        if share:
            if is_market:
                new_exc = _market_input(supply_exc, share * exc['amount'])
            else:
                new_exc = _consumer_input(exc, supply_exc, share)
            dataset['exchanges'].append(new_exc)
            message = "Create input exchange of {:.4g} {} for '{}' from '{}' ({})"
            _log_detail(dataset, message.format(share * exc['amount'], supply_exc['unit'], exc['name'],
                                                supply_exc['name'], supply_exc['location']))

    if not is_market:
        dataset['exchanges'] = list(filter(lambda x: x != exc, dataset['exchanges']))

    return dataset


def delete_whitelisted_zero_pv_market_datsets(data):
    can_delete_markets = frozenset([
        "market for heat, diffusion absorption heat pump",
        "market for heat, solar+electric, multiple-dwelling, for hot water",
        "market for heat, solar+gas, multiple-dwelling, for hot water",
        "market for heat, solar+gas, one-family house, for combined system",
        "market for heat, solar+gas, one-family house, for hot water",
        "market for heat, solar+wood, one-family house, for combined system",
        "market for nitro-compound",
        "market for petrol, 85% ethanol by volume from biomass",
        "market for refinery gas",
        "market for spent oxychlor catalyst for ethylene dichloride production",
        "market for waste emulsion paint, on wall",
    ])
    kept = []
    for ds in data:
        if ds['type'] == 'market activity' and ds['location'] == 'GLO' and ds['name'] in can_delete_markets:
            logger.info({
                'type': 'table element',
                'data': (ds['name'], ds['reference product'])
            })
        else:
            kept.append(ds)
    return kept


def add_recycled_content_suppliers_to_markets(data):
    markets_by_product = {}
    producers = {}
    for ds in data:
        if ds['type'] == "market activity":
            markets_by_product.setdefault(ds['reference product'], []).append(ds)
        elif ds['type'] == 'transforming activity' and ds['reference product'].endswith(RC_STRING):
            producers.setdefault(ds['reference product'], []).append(ds)

    for rp, markets in markets_by_product.items():
        no_overlaps(markets)
        suppliers = producers.get(rp + RC_STRING, [])
        if not suppliers:
            continue
        apportion_market_suppliers_to_consumers(markets, suppliers)
    return data
