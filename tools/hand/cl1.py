# target: ocelot/transformations/cleanup.py
def _drop(dct, *fields):
    for field in fields:
        dct.pop(field, None)


def ensure_all_datasets_have_production_volume(data):
    for ds in data:
        pv = production_volume(ds)
        assert pv, "Dataset does not have valid production volume:\n{}".format(pprint.pformat(ds))
    return data


def deparameterize(dataset):
    if 'parameters' in dataset:
        dataset['parameters'] = []
    for exc in dataset['exchanges']:
        _drop(exc, 'formula', 'variable', 'properties')
        if 'production volume' in exc:
            _drop(exc['production volume'], 'formula', 'variable')
    return dataset
# target: ocelot/transformations/locations/cleanup.py
def _is_pipeline(ds):
    return (ds['type'] == 'transforming activity'
            and ds['name'] == 'transport, pipeline, long distance, natural gas')


def correct_natural_gas_pipeline_location(data):
    for ds in filter(_is_pipeline, data):
        if ds['location'] == 'RER w/o DE+NL+NO':
            ds['location'] = 'RER w/o DE+NL+NO+RU'
    return data
# target: ocelot/transformations/cutoff/wastes.py
def _consume_reference_product(dataset):
    rp = get_single_reference_product(dataset)
    rp['type'] = 'from technosphere'
    scale_exchange(rp, -1)


@valid_recycling_activity
def recycling_allocation(dataset):
    _consume_reference_product(dataset)
    return economic_allocation(dataset)


def recycling_2_allocation(dataset):
    _consume_reference_product(dataset)
    for exc in dataset['exchanges']:
        if exc.get('type') == 'byproduct' and exc.get('byproduct classification') == 'recyclable':
            exc['type'] = 'reference product'
    return economic_allocation(dataset)


@valid_waste_treatment_activity
def waste_treatment_allocation(dataset):
    rp = get_single_reference_product(dataset)
    datasets = [choose_reference_product_exchange(dataset, rp)]
    for exchange in allocatable_production(dataset):
        if exchange is rp:
            continue
        new_one = deepcopy(dataset)
        byproduct = deepcopy(exchange)
        new_one['exchanges'] = [byproduct]
        datasets.append(choose_reference_product_exchange(new_one, byproduct))
    return datasets


def _recyclables(ds):
    for exc in ds['exchanges']:
        if exc['type'] == 'byproduct' and exc['byproduct classification'] == 'recyclable':
            yield exc


def rename_recyclable_content_exchanges(data):
    for ds in data:
        for exc in _recyclables(ds):
            exc['name'] = exc['name'] + RC_STRING
    return data


def _without_suffix(name):
    return name.replace(RC_STRING, "")


def rename_recycled_content_products_after_linking(data):
    for ds in data:
        for exc in ds['exchanges']:
            if not exc['name'].endswith(RC_STRING):
                continue
            exc['name'] = _without_suffix(exc['name'])
            logger.info({
                'type': 'table element',
                'data': [ds['name'], exc['name'], exc['type'], ds['location']],
            })
        label = ds.get('reference product', '')
        if label.endswith(RC_STRING):
            label = _without_suffix(label)
            ds['reference product'] = label
            logger.info({
                'type': 'table element',
                'data': [ds['name'], label, 'RP label', ds['location']],
            })
    return data
rename_recycled_content_products_after_linking.__table__ = {
    'title': 'Remove `Recycle Content cut-off` from flow names',
    'columns': ["Activity name", "Flow", "Type", "Location"]
}


def create_new_recycled_content_dataset(ds, exc):
    name = exc['name']
    product = {
        'amount': 1,
        'id': exc['id'],
        'name': name,
        'tag': 'intermediateExchange',
        'type': 'reference product',
        'production volume': {'amount': 4},
        'unit': exc['unit'],
    }
    obj = {
        'name': name,
        'location': 'GLO',
        'type': "transforming activity",
        'reference product': name,
        "exchanges": [product],
        "parameters": [],
    }
    for key in ('access restricted', 'economic scenario', 'end date',
                'filepath', 'id', 'start date', 'technology level',
                'dataset author', 'data entry'):
        obj[key] = deepcopy(ds[key])
    return obj


def create_recycled_content_datasets(data):
    new_datasets = {}
    for ds in data:
        for exc in _recyclables(ds):
            new_datasets[exc['name']] = create_new_recycled_content_dataset(ds, exc)
    for name in new_datasets:
        logger.info({
            'type': 'table element',
            'data': (name,),
        })
    return data + [new_datasets[name] for name in new_datasets]
create_recycled_content_datasets.__table__ = {
    'title': 'Create new datasets to consume recyclable byproducts',
    'columns': ["Activity name"]
}


def _flip(exc):
    del exc['byproduct classification']
    exc['type'] = 'from technosphere'
    exc['amount'] = -exc['amount']
    if 'formula' in exc:
        exc['formula'] = '-1 * (' + exc['formula'] + ')'


@single_input
def flip_non_allocatable_byproducts(dataset):
    for exc in dataset['exchanges']:
        if exc['type'] != 'byproduct':
            continue
        if exc['byproduct classification'] == 'allocatable product':
            continue
        logger.info({
            'type': 'table element',
            'data': (dataset['name'], exc['name'], exc['byproduct classification']),
        })
        _flip(exc)
    return [dataset]
flip_non_allocatable_byproducts.__table__ = {
    'title': 'Flip recyclable and waste outputs to inputs for cutoff or treatment',
    'columns': ["Activity name", "Flow", "Classification"]
}
