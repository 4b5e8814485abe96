from ..utils import nonreference_product, get_single_reference_product
from ..uncertainty import scale_exchange
import logging
logger = logging.getLogger('ocelot')

def constrained_market_allocation(dataset):
    conditional = (exc for exc in dataset['exchanges'] if exc['type'] == 'byproduct' and exc.get('conditional exchange'))
    for exc in conditional:
        logger.info({'type': 'table element', 'data': (dataset['name'], exc['name'])})
        nonreference_product(exc)
    return dataset
constrained_market_allocation.__table__ = {'title': 'Zero out conditional exchanges in cutoff model', 'columns': ['Activity name', 'Flow']}

def adjust_market_signs_for_allocatable_products(data):
    all_negative = lambda ds: all((exc['amount'] <= 0 for exc in ds['exchanges']))
    for ds in data:
        if ds['type'] == 'market activity' and get_single_reference_product(ds)['byproduct classification'] != 'waste' and all_negative(ds):
            logger.info({'type': 'table element', 'data': [ds['name'], ds['location']]})
            for exc in ds['exchanges']:
                scale_exchange(exc, -1)
        elif ds['type'] == 'market activity' and get_single_reference_product(ds)['byproduct classification'] != 'waste' and (get_single_reference_product(ds)['amount'] < 0):
            logger.info({'type': 'table element', 'data': [ds['name'], ds['location']]})
            rp = get_single_reference_product(ds)
            for exc in ds['exchanges']:
                if exc['name'] == rp['name']:
                    scale_exchange(exc, -1)
    return data
adjust_market_signs_for_allocatable_products.__table__ = {'title': 'Flip signs for negative non-waste markets', 'columns': ['Activity name', 'Location']}
