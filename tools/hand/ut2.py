# target: ocelot/transformations/utils.py
def activity_hash(dataset):
    fields = ["name", "reference product", "unit", "location", "start date", "end date"]
    string = ""
    for field in fields:
        string += dataset.get(field, '').lower()
    return hashlib.md5(string.encode()).hexdigest()


def get_single_reference_product(dataset):
    found = None
    count = 0
    for exc in dataset['exchanges']:
        if exc['type'] == 'reference product':
            count += 1
            if found is None:
                found = exc
    if count > 1:
        message = "Found multiple reference products in dataset:\n{}"
        raise InvalidMultioutputDataset(message.format(dataset['filepath']))
    if count == 0:
        message = "Found no reference products in dataset:\n{}"
        raise ValueError(message.format(dataset['filepath']))
    return found


def allocatable_production_as_dataframe(dataset):
    def row(exc):
        true_value = get_property_by_name(exc, 'true value relation')
        return {
            'name': exc['name'],
            'amount': exc['amount'],
            'type': exc['type'],
            'price': get_property_by_name(exc, 'price').get('amount', 0),
            'has true value': bool(true_value),
            'true value': true_value.get('amount', 0),
        }
    df = pd.DataFrame([row(exc) for exc in allocatable_production(dataset)])
    df['revenue'] = df['price'] * df['amount']
    return df


def get_biggest_pv_to_exchange_ratio(dataset):
    best = None
    for exc in dataset['exchanges']:
        if exc['type'] != 'reference product' or not exc['amount']:
            continue
        ratio = exc['production volume']['amount'] / exc['amount']
        if best is None or abs(ratio) > abs(best):
            best = ratio
    if best is None:
        message = "No suitable reference product exchanges in {}"
        raise ZeroProduction(message.format(dataset['name']))
    return best


def get_property_by_name(exchange, name):
    try:
        properties = exchange['properties']
    except KeyError:
        return {}
    for prop in properties:
        if prop['name'] == name:
            return prop
    return {}


def label_reference_product(data):
    for dataset in data:
        rp = get_single_reference_product(dataset)
        dataset['reference product'] = rp['name']
    return data
