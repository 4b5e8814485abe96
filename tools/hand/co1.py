# target: ocelot/transformations/cutoff/combined.py
def nonzero_reference_product_exchanges(dataset):
    for exc in dataset['exchanges']:
        if exc['type'] == 'reference product' and exc['amount'] != 0:
            yield exc


def selected_product(exc):
    exc.pop('formula', None)
    return remove_exchange_uncertainty(exc)


def _subdivide(dataset, exc):
    new_ds = deepcopy(dataset)
    rp = deepcopy(exc)
    others, rest = [], []
    for obj in new_ds['exchanges']:
        if obj['type'] != 'reference product':
            rest.append(obj)
        elif obj != exc:
            others.append(nonreference_product(obj))
    new_ds['exchanges'] = [selected_product(rp)] + others + rest
    return recalculate(new_ds), rp


def combined_production(dataset, plain=True):
    new_datasets = []
    for exc in nonzero_reference_product_exchanges(dataset):
        new_ds, rp = _subdivide(dataset, exc)
        new_datasets.append(new_ds)
        if not plain:
            continue
        logger.info({
            'type': 'table element',
            'data': (dataset['name'], rp['name'], dataset['location']),
        })
    return new_datasets


def handle_split_dataset(ds):
    rp = get_single_reference_product(ds)
    classification = rp['byproduct classification']
    if classification not in ('waste', 'recyclable'):
        raise InvalidExchange("Invalid byproduct classification")
    if classification == 'waste':
        return waste_treatment_allocation(ds)
    ds['name'] = ds['name'] + ", from " + rp['name']
    return recycling_allocation(ds)


def combined_production_without_products(dataset):
    result = []
    for obj in combined_production(dataset, plain=False):
        result.extend(handle_split_dataset(obj))
    return result


def add_exchanges(to_dataset, from_dataset):
    lookup = {}
    for exc in from_dataset['exchanges']:
        lookup[exc['id']] = exc['amount']
    for exc in to_dataset['exchanges']:
        if exc['id'] in lookup:
            exc['amount'] = exc['amount'] + lookup[exc['id']]
        if exc['type'] == 'reference product':
            remove_exchange_uncertainty(exc)
    return to_dataset


@valid_merge_datasets
def merge_byproducts(data):
    groups = {}
    for ds in data:
        groups.setdefault(activity_grouper(ds), []).append(ds)
    for parent, *children in groups.values():
        for child in children:
            add_exchanges(parent, child)
        yield parent


def combined_production_with_byproducts(dataset):
    new_datasets = []
    for subdivided in combined_production(dataset, plain=False):
        new_datasets += economic_allocation(subdivided)
    return [ds for ds in merge_byproducts(new_datasets)]
# target: ocelot/transformations/cutoff/allocation.py
def missing_formulas(dataset):
    TYPES = ('from environment', 'to environment', 'from technosphere')
    return any(not exc.get('formula') for exc in dataset['exchanges'] if exc['type'] in TYPES)


def _multioutput_method(dataset, allocatable_products, allocatable_byproducts):
    if not allocatable_products:
        return "combined production without products"
    if allocatable_byproducts:
        return "combined production with byproducts"
    if dataset['name'] == 'rare earth oxides production from bastnäsite concentrate':
        return "economic"
    return "combined production"


def choose_allocation_method(dataset):
    reference_products = [exc for exc in dataset['exchanges'] if exc['type'] == 'reference product']
    classifications = [exc.get('byproduct classification') for exc in reference_products if exc['amount']]
    allocatable_byproducts = any(exc['type'] == 'byproduct' and exc['amount'] != 0
                                 for exc in allocatable_production(dataset))

    if len(classifications) == 1 and not allocatable_byproducts:
        return "single product"
    if dataset['type'] == 'market group':
        return "market group"
    if dataset['type'] == 'market activity':
        conditional = any(exc.get('conditional exchange') for exc in dataset['exchanges'])
        return "constrained market" if conditional else "unconstrained market"
    if len(classifications) > 1:
        allocatable_products = any(exc.get('byproduct classification') == 'allocatable product'
                                   for exc in reference_products)
        return _multioutput_method(dataset, allocatable_products, allocatable_byproducts)
    if any(exc['amount'] < 0 for exc in reference_products):
        assert len(set(classifications)) == 1
        return "waste treatment" if classifications[0] == 'waste' else "recycling"
    return "economic"
