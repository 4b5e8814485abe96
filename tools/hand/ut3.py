# target: ocelot/transformations/utils.py
def _is_allocatable(exc):
    if exc['type'] == 'reference product':
        return True
    return (exc['type'] == 'byproduct'
            and exc['byproduct classification'] == 'allocatable product')


def allocatable_production(dataset):
    return (exc for exc in dataset['exchanges'] if _is_allocatable(exc))


def nonproduction_exchanges(dataset):
    for exc in dataset['exchanges']:
        if not _is_allocatable(exc):
            yield exc


def copy_original_exchange_id(data):
    for ds in data:
        for exc in ds['exchanges']:
            exc.update({'original id': copy.copy(exc['id'])})
    return data


def activity_hash(dataset):
    parts = []
    for field in ("name", "reference product", "unit", "location", "start date", "end date"):
        parts.append(dataset.get(field, '').lower())
    return hashlib.md5("".join(parts).encode('utf-8')).hexdigest()


def extract_products_as_tuple(dataset):
    names = [exc['name'] for exc in allocatable_production(dataset)]
    names.sort()
    return tuple(names)


def activity_grouper(dataset):
    name = dataset['name']
    products = extract_products_as_tuple(dataset)
    return name, products


def get_property_by_name(exchange, name):
    return next((prop for prop in exchange.get("properties", []) if prop['name'] == name), {})


def get_numerical_property(exchange, name):
    prop = get_property_by_name(exchange, name)
    return prop.get('amount')


def _is_parameterized(obj):
    return "variable" in obj or "formula" in obj


def iterate_all_parameters(dataset):
    for exc in dataset['exchanges']:
        candidates = [exc, exc.get("production volume", {})]
        candidates.extend(exc.get('properties', []))
        for obj in candidates:
            if _is_parameterized(obj):
                yield obj
    yield from (p for p in dataset.get('parameters', []) if _is_parameterized(p))


def iterate_all_uncertainties(dataset):
    for exc in dataset['exchanges']:
        for obj in [exc, exc.get("production volume", {})] + list(exc.get('properties', [])):
            if "uncertainty" in obj:
                yield obj
    for parameter in dataset.get('parameters', []):
        if "uncertainty" in parameter:
            yield parameter


def get_single_reference_product(dataset):
    products = [exc for exc in dataset['exchanges']
                if exc['type'] == 'reference product']
    if not products:
        raise ValueError("Found no reference products in dataset:\n{}".format(dataset['filepath']))
    if len(products) != 1:
        raise InvalidMultioutputDataset(
            "Found multiple reference products in dataset:\n{}".format(dataset['filepath']))
    return products[0]


def label_reference_product(data):
    for dataset in data:
        product = get_single_reference_product(dataset)
        dataset['reference product'] = product['name']
    return data


def _prepare_reference_product(exchange):
    rp = remove_exchange_uncertainty(deepcopy(exchange))
    rp['type'] = 'reference product'
    rp.pop('byproduct classification', None)
    return rp


def nonreference_product(exchange):
    for field in ('formula', 'production volume'):
        if field in exchange:
            del exchange[field]
    exchange['amount'] = 0.
    exchange['type'] = 'dropped product'
    return remove_exchange_uncertainty(exchange)


def choose_reference_product_exchange(dataset, exchange, allocation_factor=1):
    if not exchange['amount']:
        message = "Zero production amount for new reference product exchange:\n{}\nIn dataset:\n{}"
        raise ZeroProduction(message.format(pformat(exchange), dataset['filepath']))
    obj = deepcopy(dataset)
    exchanges = [_prepare_reference_product(exchange)]
    for exc in allocatable_production(dataset):
        if exc != exchange:
            exchanges.append(nonreference_product(deepcopy(exc)))
    for exc in nonproduction_exchanges(dataset):
        exchanges.append(scale_exchange(deepcopy(exc), allocation_factor))
    obj['exchanges'] = exchanges
    normalize_reference_production_amount(obj, log=False)
    return obj


def normalize_reference_production_amount(dataset, log=True, epsilon=1e-14):
    product = get_single_reference_product(dataset)
    amount = product['amount']
    if amount == 0:
        raise ZeroProduction("Zero production amount for dataset:\n{}".format(dataset['filepath']))
    factor = 1 / abs(amount)
    if abs(factor - 1) <= epsilon:
        return [dataset]
    if log:
        logger.info({
            'type': 'table element',
            'data': (dataset['name'], product['name'], factor)
        })
    for exchange in dataset['exchanges']:
        scale_exchange(exchange, factor)
    return [dataset]
normalize_reference_production_amount.__table__ = {
    'title': 'Normalize all exchanges to production amount of one.',
    'columns': ["Activity name", "Reference product", "Scale factor"]
}


def allocatable_production_as_dataframe(dataset):
    def row(exc):
        true_value = get_property_by_name(exc, 'true value relation')
        return {
            'name': exc['name'],
            'amount': exc['amount'],
            'type': exc['type'],
            'price': get_property_by_name(exc, 'price').get('amount', 0),
            'has true value': bool(true_value),
            'true value': true_value.get('amount', 0),
        }

    df = pd.DataFrame([row(exc) for exc in allocatable_production(dataset)])
    df['revenue'] = df['amount'] * df['price']
    return df


@wrapt.decorator
def single_input(wrapped, instance, args, kwargs):
    data = kwargs.get('data') or args[0]
    results = []
    for elem in data:
        results.extend(wrapped(elem))
    return results
# target: ocelot/transformations/validation.py
def check_single_output_activity(dataset):
    num_rp = 0
    has_byproducts = False
    for exc in dataset['exchanges']:
        if exc['type'] == 'reference product':
            num_rp += 1
        elif exc['type'] == 'byproduct' and exc['byproduct classification'] == 'allocatable product':
            has_byproducts = True
    if num_rp != 1:
        raise InvalidMultioutputDataset("Found {} reference products".format(num_rp))
    if has_byproducts:
        raise InvalidMultioutputDataset("Found allocatable byproducts")
    return dataset


def _markets(data):
    return [ds for ds in data if ds['type'] == 'market activity']


def ensure_markets_only_have_one_reference_product(data):
    for ds in _markets(data):
        products = [exc for exc in ds['exchanges'] if exc['type'] == 'reference product']
        if len(products) != 1:
            message = "Market dataset has zero or multiple reference products:\{}"
            raise InvalidMarket(message.format(ds['filepath']))
    return data


def ensure_markets_dont_consume_their_ref_product(data):
    for ds in _markets(data):
        rp = next(exc for exc in ds['exchanges'] if exc['type'] == 'reference product')
        for exc in ds['exchanges']:
            if exc == rp or exc.get("activity link"):
                continue
            if exc['name'] == rp['name']:
                message = "Market dataset has exchanges which consume the ref. product:\n{}"
                raise InvalidMarketExchange(message.format(ds['filepath']))
    return data


def ensure_production_exchanges_have_production_volume(data):
    for ds in data:
        missing = [exc for exc in allocatable_production(ds) if 'production volume' not in exc]
        for exc in missing:
            message = "No production volume in production exchange:\n{}\nIn dataset: {}"
            raise InvalidExchange(message.format(pformat(exc), ds['filepath']))
    return data
