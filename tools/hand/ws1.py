# target: ocelot/transformations/cutoff/wastes.py
def _reference_to_input(dataset):
    rp = get_single_reference_product(dataset)
    rp['type'] = 'from technosphere'
    scale_exchange(rp, -1)


@valid_recycling_activity
def recycling_allocation(dataset):
    _reference_to_input(dataset)
    return economic_allocation(dataset)


def recycling_2_allocation(dataset):
    _reference_to_input(dataset)
    for exc in dataset['exchanges']:
        if exc.get('type') == 'byproduct' and exc.get('byproduct classification') == 'recyclable':
            exc['type'] = 'reference product'
    return economic_allocation(dataset)


def _free_byproduct(dataset, exchange):
    new_one = deepcopy(dataset)
    byproduct = deepcopy(exchange)
    new_one['exchanges'] = [byproduct]
    return choose_reference_product_exchange(new_one, byproduct)


@valid_waste_treatment_activity
def waste_treatment_allocation(dataset):
    rp = get_single_reference_product(dataset)
    results = [choose_reference_product_exchange(dataset, rp)]
    for exchange in allocatable_production(dataset):
        if exchange is rp:
            continue
        results.append(_free_byproduct(dataset, exchange))
    return results


def rename_recyclable_content_exchanges(data):
    for ds in data:
        for exc in ds['exchanges']:
            if exc['type'] == 'byproduct' and exc['byproduct classification'] == 'recyclable':
                exc['name'] = exc['name'] + RC_STRING
    return data


def _log_rename(ds, name, kind):
    logger.info({
        'type': 'table element',
        'data': [ds['name'], name, kind, ds['location']],
    })


def rename_recycled_content_products_after_linking(data):
    for ds in data:
        for exc in ds['exchanges']:
            if not exc['name'].endswith(RC_STRING):
                continue
            exc['name'] = exc['name'].replace(RC_STRING, "")
            _log_rename(ds, exc['name'], exc['type'])
        product = ds.get('reference product', '')
        if product.endswith(RC_STRING):
            ds['reference product'] = product.replace(RC_STRING, "")
            _log_rename(ds, ds['reference product'], 'RP label')
    return data


COMMON_FIELDS = ('access restricted', 'economic scenario', 'end date', 'filepath', 'id', 'start date',
                 'technology level', 'dataset author', 'data entry')


def create_new_recycled_content_dataset(ds, exc):
    new = {key: deepcopy(ds[key]) for key in COMMON_FIELDS}
    new.update({
        'name': exc['name'],
        'reference product': exc['name'],
        'location': 'GLO',
        'type': "transforming activity",
        "parameters": [],
        "exchanges": [{
            'amount': 1,
            'id': exc['id'],
            'name': exc['name'],
            'unit': exc['unit'],
            'tag': 'intermediateExchange',
            'type': 'reference product',
            'production volume': {'amount': 4},
        }],
    })
    return new


def create_recycled_content_datasets(data):
    new_datasets = {}
    for ds in data:
        for exc in ds['exchanges']:
            if exc['type'] != 'byproduct' or exc['byproduct classification'] != 'recyclable':
                continue
            new_datasets[exc['name']] = create_new_recycled_content_dataset(ds, exc)
    for name in new_datasets.keys():
        logger.info({
            'type': 'table element',
            'data': (name,),
        })
    return data + [ds for ds in new_datasets.values()]
