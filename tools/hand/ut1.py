# target: ocelot/transformations/utils.py
def copy_original_exchange_id(data):
    for exc in (exc for ds in data for exc in ds['exchanges']):
        exc['original id'] = exc['id']
    return data


HASH_FIELDS = ("name", "reference product", "unit", "location", "start date", "end date")


def activity_hash(dataset):
    parts = []
    for field in HASH_FIELDS:
        parts.append(dataset.get(field, '').lower())
    digest = hashlib.md5()
    digest.update("".join(parts).encode('utf-8'))
    return digest.hexdigest()


def _is_allocatable(exc):
    """True for reference products and allocatable byproducts"""
    if exc['type'] == 'reference product':
        return True
    return exc['type'] == 'byproduct' and exc['byproduct classification'] == 'allocatable product'


def allocatable_production(dataset):
    return (exc for exc in dataset['exchanges'] if _is_allocatable(exc))


def nonproduction_exchanges(dataset):
    return (exc for exc in dataset['exchanges'] if not _is_allocatable(exc))


def get_single_reference_product(dataset):
    products = [exc for exc in dataset['exchanges'] if exc['type'] == 'reference product']
    if len(products) == 1:
        return products[0]
    if not products:
        raise ValueError("Found no reference products in dataset:\n{}".format(dataset['filepath']))
    raise InvalidMultioutputDataset("Found multiple reference products in dataset:\n{}".format(dataset['filepath']))


def _walk(dataset):
    for exc in dataset['exchanges']:
        yield exc
        yield exc.get("production volume", {})
        for prop in exc.get('properties', []):
            yield prop
    for parameter in dataset.get('parameters', []):
        yield parameter


def iterate_all_parameters(dataset):
    for obj in _walk(dataset):
        if "variable" in obj or "formula" in obj:
            yield obj


def iterate_all_uncertainties(dataset):
    for obj in _walk(dataset):
        if "uncertainty" in obj:
            yield obj


def get_biggest_pv_to_exchange_ratio(dataset):
    ratios = [
        exc['production volume']['amount'] / exc['amount']
        for exc in dataset['exchanges']
        if exc['type'] == 'reference product' and exc['amount']
    ]
    if not ratios:
        raise ZeroProduction("No suitable reference product exchanges in {}".format(dataset['name']))
    return max(ratios, key=abs)


def get_property_by_name(exchange, name):
    return next((prop for prop in exchange.get("properties", []) if prop['name'] == name), {})


def normalize_reference_production_amount(dataset, log=True, epsilon=1e-14):
    product = get_single_reference_product(dataset)
    amount = product['amount']
    if amount == 0:
        message = "Zero production amount for dataset:\n{}"
        raise ZeroProduction(message.format(dataset['filepath']))
    factor = 1 / abs(amount)
    needs_scaling = abs(factor - 1) > epsilon
    if not needs_scaling:
        return [dataset]
    if log:
        logger.info({
            'type': 'table element',
            'data': (dataset['name'], product['name'], factor)
        })
    for exchange in dataset['exchanges']:
        scale_exchange(exchange, factor)
    return [dataset]


def nonreference_product(exchange):
    exchange.update({'type': 'dropped product', 'amount': 0.})
    for key in ('formula', 'production volume'):
        exchange.pop(key, None)
    return remove_exchange_uncertainty(exchange)


def _as_reference_product(exchange):
    rp = remove_exchange_uncertainty(deepcopy(exchange))
    rp['type'] = 'reference product'
    rp.pop('byproduct classification', None)
    return rp


def choose_reference_product_exchange(dataset, exchange, allocation_factor=1):
    if not exchange['amount']:
        message = "Zero production amount for new reference product exchange:\n{}\nIn dataset:\n{}"
        raise ZeroProduction(message.format(pformat(exchange), dataset['filepath']))

    exchanges = [_as_reference_product(exchange)]
    for exc in allocatable_production(dataset):
        if exc != exchange:
            exchanges.append(nonreference_product(deepcopy(exc)))
    for exc in nonproduction_exchanges(dataset):
        exchanges.append(scale_exchange(deepcopy(exc), allocation_factor))

    obj = deepcopy(dataset)
    obj['exchanges'] = exchanges
    normalize_reference_production_amount(obj, log=False)
    return obj


@wrapt.decorator
def single_input(wrapped, instance, args, kwargs):
    data = kwargs.get('data') or args[0]
    results = []
    for elem in data:
        results.extend(wrapped(elem))
    return results
