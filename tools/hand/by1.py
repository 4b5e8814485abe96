# target: ocelot/transformations/consequential/byproducts.py
def _names_of_type(data, kind):
    names = set()
    for ds in data:
        for exc in ds['exchanges']:
            if exc['type'] == kind:
                names.add(exc['name'])
    return names


def ensure_byproducts_have_alternative_production(data):
    byproducts = _names_of_type(data, 'byproduct')
    products = _names_of_type(data, 'reference product')
    missing = byproducts - products
    if not missing:
        return data
    raise MissingAlternativeProducer(
        "Can't find alternative producers for the following:\n\t" + "\n\t".join(missing)
    )
# target: ocelot/transformations/cutoff/allocation.py
def missing_formulas(dataset):
    TYPES = ('from environment', 'to environment', 'from technosphere')
    for exc in dataset['exchanges']:
        if exc['type'] in TYPES and not exc.get('formula'):
            return True
    return False


def _is_byproduct_with_amount(exc):
    return exc['type'] == 'byproduct' and exc['amount'] != 0


def choose_allocation_method(dataset):
    exchanges = dataset['exchanges']
    products = [exc for exc in exchanges
                if exc['type'] == 'reference product' and exc['amount'] != 0]
    classifications = [exc.get('byproduct classification') for exc in products]
    consumes = any(exc['amount'] < 0 for exc in products)
    production = list(allocatable_production(dataset))
    has_byproducts = any(_is_byproduct_with_amount(exc) for exc in production)

    if len(products) == 1 and not has_byproducts:
        return "single product"
    if dataset['type'] == 'market group':
        return "market group"
    if dataset['type'] == 'market activity':
        conditional = any(exc.get('conditional exchange') for exc in exchanges)
        return "constrained market" if conditional else "unconstrained market"
    if len(products) > 1:
        has_products = any(
            exc['type'] == 'reference product'
            and exc.get('byproduct classification') == 'allocatable product'
            for exc in production
        )
        if not has_products:
            return "combined production without products"
        if has_byproducts:
            return "combined production with byproducts"
        bastnasite = 'rare earth oxides production from bastnäsite concentrate'
        return "economic" if dataset['name'] == bastnasite else "combined production"
    if consumes:
        assert len(set(classifications)) == 1
        return "waste treatment" if classifications[0] == 'waste' else "recycling"
    return "economic"


def _count_method(data, label):
    count = 0
    for ds in data:
        if ds['allocation method'] == label:
            count += 1
    return count


def label_allocation_method(data):
    for ds in data:
        method = choose_allocation_method(ds)
        ds['allocation method'] = method
        detailed.info({
            'ds': ds,
            'message': method,
            'function': 'label_allocation_method'
        })
    for label, _ in ALLOCATION_METHODS:
        logger.info({
            'type': 'table element',
            'data': (str(label), _count_method(data, label)),
        })
    return data
label_allocation_method.__table__ = {
    'title': 'Label allocation method types',
    'columns': ["Allocation", "Count"]
}


def allocate_constrained_market(dataset):
    allocated = constrained_market_allocation(dataset)
    return [allocated]


def create_allocation_filter(label):
    return lambda ds: ds['allocation method'] == label
# target: ocelot/transformations/cutoff/validation.py
def _get_dataset(args, kwargs):
    return kwargs.get('dataset') or args[0]


def _fail(message, *fields):
    raise InvalidExchange(message.format(*fields))


@wrapt.decorator
def valid_no_allocation_dataset(wrapped, instance, args, kwargs):
    check_single_output_activity(_get_dataset(args, kwargs))
    return wrapped(*args, **kwargs)


@wrapt.decorator
def valid_merge_datasets(wrapped, instance, args, kwargs):
    data = kwargs.get('data') or args[0]
    for ds in data:
        for exc in ds['exchanges']:
            if exc['type'] != 'byproduct':
                continue
            if exc['byproduct classification'] == 'allocatable product':
                raise InvalidExchange("Exchanges with byproducts passes to ``merge_byproducts``")
    return wrapped(*args, **kwargs)


@wrapt.decorator
def valid_economic_activity(wrapped, instance, args, kwargs):
    dataset = _get_dataset(args, kwargs)
    for exchange in allocatable_production(dataset):
        price = get_numerical_property(exchange, 'price')
        problem = None
        if price is None:
            problem = "No price given for exchange:\n{}\nIn dataset:\n{}"
        elif price < 0:
            problem = "Price must be greater than zero:\n{}\nIn dataset:\n{}"
        elif exchange['amount'] < 0:
            problem = "Exchange amount must be greater than zero:\n{}\nIn dataset:\n{}"
        if problem is not None:
            _fail(problem, pformat(exchange), pformat(dataset['filepath']))
    return wrapped(*args, **kwargs)


@wrapt.decorator
def valid_recycling_activity(wrapped, instance, args, kwargs):
    dataset = _get_dataset(args, kwargs)
    rp = get_single_reference_product(dataset)
    if rp['amount'] >= 0:
        _fail("Reference product exchange amount shouldn't be positive:\n{}",
              pformat(dataset['filepath']))
    found = False
    for exc in dataset['exchanges']:
        if exc['type'] == 'byproduct' and exc['byproduct classification'] == 'allocatable product':
            found = True
            break
    if not found:
        _fail("No allocatable byproducts in recycling activity:\n{}", pformat(dataset['filepath']))
    return wrapped(*args, **kwargs)


@wrapt.decorator
def valid_waste_treatment_activity(wrapped, instance, args, kwargs):
    dataset = _get_dataset(args, kwargs)
    rp = get_single_reference_product(dataset)
    is_waste = rp.get('byproduct classification') == 'waste'
    if not is_waste:
        _fail("Wrong byproduct classification for waste treatment "
              "reference product:\n{}\nIn dataset:\n{}", pformat(rp), dataset['filepath'])
    elif not rp['amount'] < 0:
        _fail("Waste treatment ref. product exchange amount must be "
              "negative:\n{}\nIn dataset:\n{}", pformat(rp), dataset['filepath'])
    return wrapped(*args, **kwargs)


@wrapt.decorator
def valid_combined_production_activity(wrapped, instance, args, kwargs):
    dataset = _get_dataset(args, kwargs)
    unnamed = [exc for exc in dataset['exchanges']
               if exc['type'] == 'reference product'
               and exc['amount']
               and not exc.get('variable')]
    if unnamed:
        message = ("Ref. product exchange in combined production must have"
            " variable name:\n{}\nIn dataset:\n{}")
        raise InvalidExchange(message.format(pformat(unnamed[0]), pformat(dataset)))
    return wrapped(*args, **kwargs)
