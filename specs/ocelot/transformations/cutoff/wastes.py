from ...collection import Collection
from ..utils import allocatable_production, choose_reference_product_exchange, get_single_reference_product, single_input
from ..uncertainty import scale_exchange
from .economic import economic_allocation
from .validation import valid_recycling_activity, valid_waste_treatment_activity
from . import RC_STRING
from copy import deepcopy
import logging
logger = logging.getLogger('ocelot')

@valid_recycling_activity
def recycling_allocation(dataset):
    rp = get_single_reference_product(dataset)
    rp['type'] = 'from technosphere'
    rp = scale_exchange(rp, -1)
    return economic_allocation(dataset)

def recycling_2_allocation(dataset):
    rp = get_single_reference_product(dataset)
    rp['type'] = 'from technosphere'
    rp = scale_exchange(rp, -1)
    recyclable_byproducts = (exc for exc in dataset['exchanges'] if exc.get('byproduct classification') == 'recyclable' and exc.get('type') == 'byproduct')
    for exc in recyclable_byproducts:
        exc['type'] = 'reference product'
    return economic_allocation(dataset)

@valid_waste_treatment_activity
def waste_treatment_allocation(dataset):

    def free_byproduct(dataset, exchange):
        new_one, byproduct = (deepcopy(dataset), deepcopy(exchange))
        new_one['exchanges'] = [byproduct]
        return choose_reference_product_exchange(new_one, byproduct)
    rp = get_single_reference_product(dataset)
    return [choose_reference_product_exchange(dataset, rp)] + [free_byproduct(dataset, exchange) for exchange in allocatable_production(dataset) if exchange is not rp]

def rename_recyclable_content_exchanges(data):
    found = set()
    recyclable_iterator = (exc for ds in data for exc in ds['exchanges'] if exc['type'] == 'byproduct' and exc['byproduct classification'] == 'recyclable')
    for exc in recyclable_iterator:
        found.add(exc['name'])
        exc['name'] += RC_STRING
    return data

def rename_recycled_content_products_after_linking(data):
    for ds in data:
        for exc in ds['exchanges']:
            if exc['name'].endswith(RC_STRING):
                exc['name'] = exc['name'].replace(RC_STRING, '')
                logger.info({'type': 'table element', 'data': [ds['name'], exc['name'], exc['type'], ds['location']]})
        if ds.get('reference product', '').endswith(RC_STRING):
            ds['reference product'] = ds['reference product'].replace(RC_STRING, '')
            logger.info({'type': 'table element', 'data': [ds['name'], ds['reference product'], 'RP label', ds['location']]})
    return data
rename_recycled_content_products_after_linking.__table__ = {'title': 'Remove `Recycle Content cut-off` from flow names', 'columns': ['Activity name', 'Flow', 'Type', 'Location']}

def create_new_recycled_content_dataset(ds, exc):
    common = ('access restricted', 'economic scenario', 'end date', 'filepath', 'id', 'start date', 'technology level', 'dataset author', 'data entry')
    obj = {'exchanges': [{'amount': 1, 'id': exc['id'], 'name': exc['name'], 'tag': 'intermediateExchange', 'type': 'reference product', 'production volume': {'amount': 4}, 'unit': exc['unit']}], 'parameters': [], 'name': exc['name'], 'location': 'GLO', 'type': 'transforming activity', 'reference product': exc['name']}
    obj.update({key: ds[key] for key in common})
    return deepcopy(obj)

def create_recycled_content_datasets(data):
    new_datasets = {}
    for ds in data:
        recyclables = (exc for exc in ds['exchanges'] if exc['type'] == 'byproduct' and exc['byproduct classification'] == 'recyclable')
        for exc in recyclables:
            rc = create_new_recycled_content_dataset(ds, exc)
            new_datasets[rc['name']] = rc
    for name in new_datasets:
        logger.info({'type': 'table element', 'data': (name,)})
    return data + list(new_datasets.values())
create_recycled_content_datasets.__table__ = {'title': 'Create new datasets to consume recyclable byproducts', 'columns': ['Activity name']}

@single_input
def flip_non_allocatable_byproducts(dataset):
    for exc in dataset['exchanges']:
        if exc['type'] == 'byproduct' and exc['byproduct classification'] != 'allocatable product':
            logger.info({'type': 'table element', 'data': (dataset['name'], exc['name'], exc['byproduct classification'])})
            del exc['byproduct classification']
            exc['type'] = 'from technosphere'
            exc['amount'] = -1 * exc['amount']
            if 'formula' in exc:
                exc['formula'] = '-1 * ({})'.format(exc['formula'])
    return [dataset]
flip_non_allocatable_byproducts.__table__ = {'title': 'Flip recyclable and waste outputs to inputs for cutoff or treatment', 'columns': ['Activity name', 'Flow', 'Classification']}
handle_waste_outputs = Collection('Handle waste outputs', rename_recyclable_content_exchanges, create_recycled_content_datasets)
