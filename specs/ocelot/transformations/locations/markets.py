from . import topology, RC_STRING
from ... import toolz
from ...data_helpers import original_production_volume
from ...errors import MissingSupplier
from ..utils import get_single_reference_product, remove_exchange_uncertainty
from ..uncertainty import scale_exchange
from .validation import no_overlaps, no_geo_duplicates
from copy import deepcopy
import logging
logger = logging.getLogger('ocelot')
detailed = logging.getLogger('ocelot-detailed')

def annotate_exchange(exc, ds):
    FIELDS = ('location', 'code', 'technology level')
    exc = deepcopy(exc)
    exc.update({k: ds[k] for k in FIELDS if k in ds})
    exc['activity'] = ds['name']
    return exc

@no_geo_duplicates
def apportion_market_suppliers_to_consumers(consumers, suppliers):
    consumers_row = topology.resolve_row([obj['location'] for obj in consumers])
    for consumer in consumers:
        if 'suppliers' not in consumer:
            consumer['suppliers'] = []
        location = consumer['location']
        if location == 'RoW':
            location = consumers_row
        for name, group in toolz.groupby('name', suppliers).items():
            no_overlaps(group)
            suppliers_row = topology.resolve_row([obj['location'] for obj in group])
            sd = {o['location']: o for o in group}
            contained = [sd[key] for key in sorted(topology.contained(location, resolved_row=suppliers_row).intersection(set(sd)))]
            consumer['suppliers'].extend([annotate_exchange(get_single_reference_product(obj), obj) for obj in contained])
apportion_market_suppliers_to_consumers.__table__ = {'title': 'Defaulted to ``RoW`` suppliers, even though it fails GIS test.', 'columns': ['Market name', 'Market location', 'Supplier locations', 'Supplier name']}

def add_recycled_content_suppliers_to_markets(data):
    market_filter = lambda x: x['type'] == 'market activity'
    grouped = toolz.groupby('reference product', filter(market_filter, data))
    recycled_content_datasets = [x for x in data if x['type'] == 'transforming activity' and x['reference product'].endswith(RC_STRING)]
    for rp, markets in grouped.items():
        suppliers = [ds for ds in recycled_content_datasets if ds['reference product'] == rp + RC_STRING]
        no_overlaps(markets)
        if suppliers:
            apportion_market_suppliers_to_consumers(markets, suppliers)
    return data
add_recycled_content_suppliers_to_markets.__table__ = {'title': 'Allocate recycled content suppliers exchange amounts to markets', 'columns': []}

def add_suppliers_to_markets(data, from_type='transforming activity', to_type='market activity'):
    filter_func = lambda x: x['type'] in (from_type, to_type)
    grouped = toolz.groupby('reference product', filter(filter_func, data))
    for rp, datasets in grouped.items():
        suppliers = [ds for ds in datasets if ds['type'] == from_type]
        consumers = [ds for ds in datasets if ds['type'] == to_type and (not ds.get('suppliers'))]
        if not consumers:
            continue
        if to_type == 'market activity':
            no_overlaps(consumers)
        apportion_market_suppliers_to_consumers(consumers, suppliers)
    return data
add_suppliers_to_markets.__table__ = {'title': 'Add suppliers to region-specific markets', 'columns': ['Name', 'Product', 'Market location', 'Supplier locations']}

def allocate_all_market_suppliers(data, kind='market activity'):
    for ds in (o for o in data if o['type'] == kind):
        allocate_suppliers(ds)
    return data

def allocate_suppliers(dataset, is_market=True, exc=None):
    if not exc:
        exc = get_single_reference_product(dataset)
    total_pv = sum((o['production volume']['amount'] for o in dataset['suppliers']))
    if not total_pv:
        if len(dataset['suppliers']) != 1:
            print('Skipping zero total PV with multiple inputs:\n\t{}/{} ({}, {} suppliers)'.format(dataset['name'], exc['name'], dataset['location'], len(dataset['suppliers'])))
            return
        else:
            message = 'Assigning default production volume (single supplier, zero PV): {} | {} | {}; supplier {} | {}'
            detailed.info({'ds': dataset, 'message': message.format(dataset['name'], dataset['reference product'], dataset['location'], dataset['suppliers'][0]['name'], dataset['suppliers'][0]['location']), 'function': 'allocate_suppliers'})
            total_pv = dataset['suppliers'][0]['production volume']['amount'] = 4321
    else:
        message = 'Production volume of {} {} divided into {} suppliers'
        detailed.info({'ds': dataset, 'message': message.format(total_pv, exc['name'], len(dataset['suppliers'])), 'function': 'allocate_suppliers'})
    for supply_exc in dataset['suppliers']:
        scale_factor = supply_exc['production volume']['amount'] / total_pv
        if not scale_factor:
            continue
        if is_market:
            dataset['exchanges'].append(remove_exchange_uncertainty({'amount': scale_factor * exc['amount'], 'name': supply_exc['name'], 'unit': supply_exc['unit'], 'type': 'from technosphere', 'tag': 'intermediateExchange', 'code': supply_exc['code']}))
        else:
            new_exc = scale_exchange(deepcopy(exc), scale_factor)
            new_exc.update({'type': 'from technosphere', 'tag': 'intermediateExchange', 'code': supply_exc['code']})
            dataset['exchanges'].append(new_exc)
        message = "Create input exchange of {:.4g} {} for '{}' from '{}' ({})"
        detailed.info({'ds': dataset, 'message': message.format(scale_factor * exc['amount'], supply_exc['unit'], exc['name'], supply_exc['name'], supply_exc['location']), 'function': 'allocate_suppliers'})
    if not is_market:
        dataset['exchanges'] = [x for x in dataset['exchanges'] if x != exc]
    return dataset

def update_market_production_volumes(data, kind='market activity'):

    def get_original_pv(exc):
        pv = exc['production volume']
        if 'original amount' in pv:
            return pv['original amount']
        else:
            return pv['amount']
    datasets = [o for o in data if o['type'] == kind]
    if kind == 'market group':
        flipped = lambda lst: ((y, x) for x, y in lst)
        ordered = dict(flipped(enumerate(topology.ordered_dependencies(datasets))))
        datasets.sort(key=lambda x: ordered[x['location']], reverse=True)
    for ds in datasets:
        rp = get_single_reference_product(ds)
        total_pv = sum((get_original_pv(o) for o in ds['suppliers']))
        rp['production volume']['original total'] = total_pv
        missing_market_pv = rp['production volume'].get('subtracted activity link volume', 0)
        missing_inputs_pv = sum((s['production volume'].get('subtracted activity link volume', 0) for s in ds['suppliers']))
        pv = max(sum((s['production volume']['amount'] for s in ds['suppliers'])) - missing_market_pv, 0)
        rp['production volume']['amount'] = pv
        if kind == 'market group':
            for other in datasets:
                if other == ds:
                    continue
                for supplier in other['suppliers']:
                    if supplier['code'] == ds['code']:
                        supplier['production volume'] = {'amount': pv}
        logger.info({'type': 'table element', 'data': (ds['name'], rp['name'], ds['location'], total_pv, missing_inputs_pv, missing_market_pv, pv)})
    return data
update_market_production_volumes.__table__ = {'title': 'Update market production volumes while subtracting hard links', 'columns': ['Name', 'Product', 'Location', 'Original', 'Input subtractions', 'Market subtractions', 'Net']}

def delete_suppliers_list(data):
    for ds in data:
        if 'suppliers' in ds:
            del ds['suppliers']
    return data

def delete_whitelisted_zero_pv_market_datsets(data):
    can_delete_markets = {'market for heat, diffusion absorption heat pump', 'market for heat, solar+electric, multiple-dwelling, for hot water', 'market for heat, solar+gas, multiple-dwelling, for hot water', 'market for heat, solar+gas, one-family house, for combined system', 'market for heat, solar+gas, one-family house, for hot water', 'market for heat, solar+wood, one-family house, for combined system', 'market for nitro-compound', 'market for petrol, 85% ethanol by volume from biomass', 'market for refinery gas', 'market for spent oxychlor catalyst for ethylene dichloride production', 'market for waste emulsion paint, on wall'}
    delete_me = lambda x: x['type'] == 'market activity' and x['name'] in can_delete_markets and (x['location'] == 'GLO')
    for ds in filter(delete_me, data):
        logger.info({'type': 'table element', 'data': (ds['name'], ds['reference product'])})
    return [ds for ds in data if not delete_me(ds)]
delete_whitelisted_zero_pv_market_datsets.__table__ = {'title': 'Delete some global markets with zero production volume', 'columns': ['Name', 'Product']}

def assign_fake_pv_to_confidential_datasets(data):
    confidential_names = {'anthraquinone production', 'burnt shale production', 'carboxymethyl cellulose production, powder', 'citric acid production', 'esters of versatic acid production', 'feldspar production', 'latex production', 'layered sodium silicate production, SKS-6, powder', 'particle board production, cement bonded', 'polycarboxylates production, 40% active substance', 'sodium perborate production, monohydrate, powder', 'sodium perborate production, tetrahydrate, powder', 'sodium percarbonate production, powder', 'wood wool boards production, cement bonded', 'zeolite production, powder', 'zeolite production, slurry, without water, in 50% solution state'}
    confidential_filter = lambda x: x['type'] == 'transforming activity' and x['name'] in confidential_names
    for ds in filter(confidential_filter, data):
        rp = get_single_reference_product(ds)
        logger.info({'type': 'table element', 'data': (ds['name'], rp['name'], 1)})
        rp['production volume']['amount'] = 1
    return data
assign_fake_pv_to_confidential_datasets.__table__ = {'title': 'Split inputs from confidential datasets equally because no production volume is available.', 'columns': ['Name', 'Product', 'Production volume']}

def delete_global_with_zero_pv_when_regional_present(data, kind='market activity'):
    purge = []
    act_filter = lambda x: x['type'] == kind
    grouped = toolz.groupby('reference product', filter(act_filter, data))
    for rp, group in grouped.items():
        if len(group) < 2:
            continue
        try:
            row = next((ds for ds in group if ds['location'] == 'RoW'))
            assert not original_production_volume(row)
            purge.append(row)
            logger.info({'type': 'table element', 'data': (row['name'], rp, row['location'])})
        except (StopIteration, AssertionError):
            continue
    return [ds for ds in data if ds not in purge]
delete_global_with_zero_pv_when_regional_present.__table__ = {'title': 'Delete global activities with zero production volumes when regional activities are present', 'columns': ['Name', 'Product', 'Location']}
