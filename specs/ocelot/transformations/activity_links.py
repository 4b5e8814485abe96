from ..data_helpers import production_volume
from ..collection import Collection
from ..errors import UnresolvableActivityLink
from .utils import allocatable_production, get_biggest_pv_to_exchange_ratio, nonproduction_exchanges
from pprint import pformat
import logging
logger = logging.getLogger('ocelot')
detailed = logging.getLogger('ocelot-detailed')

def check_activity_link_validity(data):
    mapping = {ds['id']: ds for ds in data}
    for original_ds in data:
        for link in (o for o in original_ds['exchanges'] if o.get('activity link')):
            try:
                ds = mapping[link['activity link']]
            except KeyError:
                message = 'Found no datasets for activity link:\n{}\nOrigin dataset:\n{}'
                raise UnresolvableActivityLink(message.format(pformat(link), original_ds['filepath']))
            found = [exc for exc in allocatable_production(ds) if exc['name'] == link['name']]
            if len(found) == 1:
                continue
            elif len(found) > 1:
                message = 'Found multiple candidates for activity link:\n{}\nTarget dataset:\n{}'
                raise UnresolvableActivityLink(message.format(pformat(link), ds['filepath']))
            else:
                message = 'Found no candidates for activity link:\n{}\nTarget dataset:\n{}'
                raise UnresolvableActivityLink(message.format(pformat(link), ds['filepath']))
    return data

def add_hard_linked_production_volumes(data):
    mapping = {ds['id']: ds for ds in data}
    for ds in data:
        for exc in (e for e in ds['exchanges'] if e.get('activity link')):
            if exc['activity link'] == ds['id']:
                message = 'Ignoring self-consuming activity link: {:.4g} (PV: {:.4g}'
                detailed.info({'ds': ds, 'message': message.format(exc['amount'], production_volume(ds, 0)), 'function': 'add_hard_linked_production_volumes'})
                continue
            target = mapping[exc['activity link']]
            found = [obj for obj in allocatable_production(target) if obj['name'] == exc['name']]
            assert len(found) == 1
            hard_link = found[0]
            scale = get_biggest_pv_to_exchange_ratio(ds)
            message = 'Subtracting activity link: {:.4g} (out of {:.4g}) from {} | {}'
            detailed.info({'ds': target, 'message': message.format(exc['amount'] * scale, hard_link['production volume']['amount'], ds['name'], ds['location']), 'function': 'add_hard_linked_production_volumes'})
            hard_link['production volume']['subtracted activity link volume'] = hard_link['production volume'].get('subtracted activity link volume', 0) + exc['amount'] * scale
    return data

def update_transforming_activity_production_volumes(data):
    ta = lambda x: x['type'] == 'transforming activity'
    for ds in filter(ta, data):
        for exc in allocatable_production(ds):
            if 'subtracted activity link volume' not in exc['production volume']:
                continue
            message = 'Subtracting hard-linked production volumes: {:.4g} from {:.4g}'
            detailed.info({'ds': ds, 'message': message.format(exc['production volume']['subtracted activity link volume'], exc['production volume']['amount']), 'function': 'update_transforming_activity_production_volumes'})
            exc['production volume']['original amount'] = exc['production volume']['amount']
            exc['production volume']['amount'] = max(exc['production volume']['amount'] - exc['production volume']['subtracted activity link volume'], 0)
    return data

def update_activity_link_parent_child(data):
    for ds in data:
        parent = ds['parent']
        if not parent:
            continue
        for exc in nonproduction_exchanges(ds):
            if exc.get('activity link') == parent:
                exc['activity link'] = ds['id']
                logger.info({'type': 'table element', 'data': (ds['name'], ds['location'], exc['amount'])})
    return data
update_activity_link_parent_child.__table__ = {'title': 'Switch activity links to child dataset', 'columns': ['Name', 'Location', 'Amount']}

def fix_35_activity_links(data):
    remove_me = {'25edb027-d7c0-4756-a051-cab82e4f6248'}
    link_iterator = (exc for ds in data for exc in ds['exchanges'] if exc.get('activity link'))
    for link in link_iterator:
        if link['activity link'] in remove_me:
            del link['activity link']
    return data
manage_activity_links = Collection('Resolve hard (activity) links', fix_35_activity_links, check_activity_link_validity, add_hard_linked_production_volumes, update_transforming_activity_production_volumes)
