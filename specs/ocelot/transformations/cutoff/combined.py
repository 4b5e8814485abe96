from ... import toolz
from ...errors import InvalidExchange
from ..utils import activity_grouper, get_single_reference_product, nonreference_product
from ..parameterization import recalculate
from ..uncertainty import remove_exchange_uncertainty
from .economic import economic_allocation
from .validation import valid_merge_datasets
from .wastes import waste_treatment_allocation, recycling_allocation
from copy import deepcopy
import logging
logger = logging.getLogger('ocelot')

def nonzero_reference_product_exchanges(dataset):
    return (exc for exc in dataset['exchanges'] if exc['type'] == 'reference product' and exc['amount'])

def selected_product(exc):
    if 'formula' in exc:
        del exc['formula']
    return remove_exchange_uncertainty(exc)

def combined_production(dataset, plain=True):
    new_datasets = []
    for exc in nonzero_reference_product_exchanges(dataset):
        new_ds, rp = (deepcopy(dataset), deepcopy(exc))
        new_ds['exchanges'] = [selected_product(rp)] + [nonreference_product(obj) for obj in new_ds['exchanges'] if obj['type'] == 'reference product' and obj != exc] + [deepcopy(obj) for obj in dataset['exchanges'] if obj['type'] != 'reference product']
        new_datasets.append(recalculate(new_ds))
        if plain:
            logger.info({'type': 'table element', 'data': (dataset['name'], rp['name'], dataset['location'])})
    return new_datasets
combined_production.__table__ = {'title': 'Combined production datasets created', 'columns': ['Name', 'Product', 'Location']}

def handle_split_dataset(ds):
    rp = get_single_reference_product(ds)
    if rp['byproduct classification'] == 'waste':
        return waste_treatment_allocation(ds)
    elif rp['byproduct classification'] == 'recyclable':
        ds['name'] = '{}, from {}'.format(ds['name'], rp['name'])
        return recycling_allocation(ds)
    else:
        raise InvalidExchange('Invalid byproduct classification')

def combined_production_without_products(dataset):
    return [ds for obj in combined_production(dataset, plain=False) for ds in handle_split_dataset(obj)]

def add_exchanges(to_dataset, from_dataset):
    lookup = {exc['id']: exc['amount'] for exc in from_dataset['exchanges']}
    for exc in to_dataset['exchanges']:
        exc['amount'] += lookup.get(exc['id'], 0)
        if exc['type'] == 'reference product':
            remove_exchange_uncertainty(exc)
    return to_dataset

@valid_merge_datasets
def merge_byproducts(data):
    for group in toolz.groupby(activity_grouper, data).values():
        parent = group[0]
        for child in group[1:]:
            parent = add_exchanges(parent, child)
        yield parent

def combined_production_with_byproducts(dataset):
    new_datasets = [ds for subdivided in combined_production(dataset, plain=False) for ds in economic_allocation(subdivided)]
    return list(merge_byproducts(new_datasets))
