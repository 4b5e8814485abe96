from .utils import get_biggest_pv_to_exchange_ratio
import logging
logger = logging.getLogger('ocelot')

def add_pv_to_allocatable_byproducts(data):
    bp_filter = lambda x: x['type'] == 'byproduct' and x['byproduct classification'] == 'allocatable product'
    for ds in data:
        if any(filter(bp_filter, ds['exchanges'])):
            scale = get_biggest_pv_to_exchange_ratio(ds)
            for exc in filter(bp_filter, ds['exchanges']):
                if not exc['production volume']['amount']:
                    exc['production volume']['amount'] = abs(exc['amount'] * scale)
                    logger.info({'type': 'table element', 'data': (ds['name'], exc['name'], abs(exc['amount'] * scale))})
    return data
add_pv_to_allocatable_byproducts.__table__ = {'title': 'Add production volume amounts to allocatable byproducts', 'columns': ['Name', 'Flow', 'Production volume']}
