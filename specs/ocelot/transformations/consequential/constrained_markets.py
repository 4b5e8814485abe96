from ... import toolz
from ..utils import get_single_reference_product
import logging
logger = logging.getLogger('ocelot')

def flip_exchange(exc):
    exc['amount'] = -1 * exc['amount']
    if 'formula' in exc:
        exc['formula'] = '-1 * ({})'.format(exc['formula'])
    return exc

def handle_constrained_markets(data):
    id_mapping = {ds['id']: ds for ds in data}
    for ds in data:
        for exc in (e for e in ds['exchanges'] if e.get('conditional exchange')):
            target = id_mapping[exc['activity link']]
            exc['type'] = 'from technosphere'
            flip_exchange(exc)
            target_rp = get_single_reference_product(target)
            target_rp['type'] = 'from technosphere'
            flip_exchange(target_rp)
            target_excs = [e for e in target['exchanges'] if e['name'] == exc['name']]
            assert len(target_excs) == 1, "Can't find corresponding input"
            target_exc = target_excs[0]
            assert target_exc['type'] == 'from technosphere', 'Wrong type for activity link target'
            target_exc['type'] = 'reference product'
            target_exc['byproduct classification'] = 'allocatable product'
            flip_exchange(target_exc)
            logger.info({'type': 'table element', 'data': (exc['name'], target['name'], target['location'], target_rp['name'])})
    return data
handle_constrained_markets.__table__ = {'title': 'Handle constrained markets and their activity links to transforming activities.', 'columns': ['Flow', 'Target name', 'Target location', 'Replaced flow']}

def delete_activity_links_to_constrained_markets(data):
    constrained_activities = {exc['activity link'] for ds in data for exc in ds['exchanges'] if exc.get('conditional exchange')}
    for ds in data:
        exchange_iterator = (exc for exc in ds['exchanges'] if not exc.get('conditional exchange') and exc.get('activity link') in constrained_activities)
        for exc in exchange_iterator:
            del exc['activity link']
            logger.info({'type': 'table element', 'data': (ds['name'], ds['location'], exc['name'], exc['amount'])})
    return data
delete_activity_links_to_constrained_markets.__table__ = {'title': '', 'columns': ['Activity', 'Location', 'Flow', 'Amount']}
