from ..errors import InvalidMultioutputDataset, ZeroProduction
from .uncertainty import scale_exchange, remove_exchange_uncertainty
from copy import deepcopy
from pprint import pformat
import copy
import hashlib
import pandas as pd
import wrapt
import logging
logger = logging.getLogger('ocelot')

def copy_original_exchange_id(data):
    for ds in data:
        for exc in ds['exchanges']:
            exc['original id'] = copy.copy(exc['id'])
    return data

def activity_hash(dataset):
    fields = ('name', 'reference product', 'unit', 'location', 'start date', 'end date')
    string = ''.join((dataset.get(field, '').lower() for field in fields))
    return hashlib.md5(string.encode('utf-8')).hexdigest()

def allocatable_production(dataset):
    for exc in dataset['exchanges']:
        if exc['type'] == 'reference product':
            yield exc
        elif exc['type'] == 'byproduct' and exc['byproduct classification'] == 'allocatable product':
            yield exc

def nonproduction_exchanges(dataset):
    for exc in dataset['exchanges']:
        if exc['type'] == 'reference product':
            continue
        elif exc['type'] == 'byproduct' and exc['byproduct classification'] == 'allocatable product':
            continue
        yield exc

def get_single_reference_product(dataset):
    products = [exc for exc in dataset['exchanges'] if exc['type'] == 'reference product']
    if len(products) > 1:
        message = 'Found multiple reference products in dataset:\n{}'
        raise InvalidMultioutputDataset(message.format(dataset['filepath']))
    elif not products:
        message = 'Found no reference products in dataset:\n{}'
        raise ValueError(message.format(dataset['filepath']))
    return products[0]

def iterate_all_parameters(dataset):
    for exc in dataset['exchanges']:
        if 'variable' in exc or 'formula' in exc:
            yield exc
        pv = exc.get('production volume', {})
        if 'variable' in pv or 'formula' in pv:
            yield pv
        for prop in exc.get('properties', []):
            if 'variable' in prop or 'formula' in prop:
                yield prop
    for parameter in dataset.get('parameters', []):
        if 'variable' in parameter or 'formula' in parameter:
            yield parameter

def iterate_all_uncertainties(dataset):
    for exc in dataset['exchanges']:
        if 'uncertainty' in exc:
            yield exc
        pv = exc.get('production volume', {})
        if 'uncertainty' in pv:
            yield pv
        for prop in exc.get('properties', []):
            if 'uncertainty' in prop:
                yield prop
    for parameter in dataset.get('parameters', []):
        if 'uncertainty' in parameter:
            yield parameter

def get_biggest_pv_to_exchange_ratio(dataset):
    production_volumes = sorted([exc['production volume']['amount'] / exc['amount'] for exc in dataset['exchanges'] if exc['type'] == 'reference product' and exc['amount']], reverse=True, key=lambda x: abs(x))
    if not production_volumes:
        message = 'No suitable reference product exchanges in {}'
        raise ZeroProduction(message.format(dataset['name']))
    return production_volumes[0]

def extract_products_as_tuple(dataset):
    return tuple(sorted([exc['name'] for exc in allocatable_production(dataset)]))

def activity_grouper(dataset):
    return (dataset['name'], extract_products_as_tuple(dataset))

def get_property_by_name(exchange, name):
    for prop in exchange.get('properties', []):
        if prop['name'] == name:
            return prop
    return {}

def get_numerical_property(exchange, name):
    return get_property_by_name(exchange, name).get('amount')

def allocatable_production_as_dataframe(dataset):
    data = []
    for exc in allocatable_production(dataset):
        data.append({'name': exc['name'], 'amount': exc['amount'], 'type': exc['type'], 'price': get_property_by_name(exc, 'price').get('amount', 0), 'has true value': bool(get_property_by_name(exc, 'true value relation')), 'true value': get_property_by_name(exc, 'true value relation').get('amount', 0)})
    df = pd.DataFrame(data)
    df['revenue'] = df['price'] * df['amount']
    return df

def normalize_reference_production_amount(dataset, log=True, epsilon=1e-14):
    product = get_single_reference_product(dataset)
    if not product['amount']:
        message = 'Zero production amount for dataset:\n{}'
        raise ZeroProduction(message.format(dataset['filepath']))
    factor = 1 / abs(product['amount'])
    if abs(factor - 1) > epsilon:
        if log:
            logger.info({'type': 'table element', 'data': (dataset['name'], product['name'], factor)})
        for exchange in dataset['exchanges']:
            scale_exchange(exchange, factor)
    return [dataset]
normalize_reference_production_amount.__table__ = {'title': 'Normalize all exchanges to production amount of one.', 'columns': ['Activity name', 'Reference product', 'Scale factor']}

def label_reference_product(data):
    for dataset in data:
        dataset['reference product'] = get_single_reference_product(dataset)['name']
    return data

def nonreference_product(exchange):
    exchange['type'] = 'dropped product'
    exchange['amount'] = 0.0
    if 'formula' in exchange:
        del exchange['formula']
    if 'production volume' in exchange:
        del exchange['production volume']
    return remove_exchange_uncertainty(exchange)

def choose_reference_product_exchange(dataset, exchange, allocation_factor=1):
    obj = deepcopy(dataset)
    if not exchange['amount']:
        message = 'Zero production amount for new reference product exchange:\n{}\nIn dataset:\n{}'
        raise ZeroProduction(message.format(pformat(exchange), dataset['filepath']))
    rp = remove_exchange_uncertainty(deepcopy(exchange))
    rp['type'] = 'reference product'
    if 'byproduct classification' in rp:
        del rp['byproduct classification']
    obj['exchanges'] = [rp] + [nonreference_product(deepcopy(exc)) for exc in allocatable_production(dataset) if exc != exchange] + [scale_exchange(deepcopy(exc), allocation_factor) for exc in nonproduction_exchanges(dataset)]
    normalize_reference_production_amount(obj, log=False)
    return obj

@wrapt.decorator
def single_input(wrapped, instance, args, kwargs):
    data = kwargs.get('data') or args[0]
    return [ds for elem in data for ds in wrapped(elem)]
