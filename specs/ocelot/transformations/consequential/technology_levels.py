from ... import toolz
from ...collection import Collection
import logging
logger = logging.getLogger('ocelot')

def log_conflicting_technology_levels(data):
    activity_ds_filter = lambda x: x['type'] == 'transforming activity'
    has_undefined = lambda x: any((ds for ds in x if ds['technology level'] == 'undefined'))
    has_current = lambda x: any((ds for ds in x if ds['technology level'] == 'current'))
    for rp, datasets in toolz.groupby('reference product', filter(activity_ds_filter, data)).items():
        if has_undefined(datasets) and has_current(datasets):
            logger.info({'type': 'table element', 'data': (rp, len(datasets))})
    return data
log_conflicting_technology_levels.__table__ = {'title': 'Log when both ``undefined`` and ``current`` are present in a market mix', 'columns': ['Reference product', 'Number of datasets']}

def switch_undefined_to_current(data):
    activity_ds_filter = lambda x: x['type'] == 'transforming activity'
    for ds in filter(activity_ds_filter, data):
        if ds['technology level'] == 'undefined':
            ds['technology level'] = 'current'
            logger.info({'type': 'table element', 'data': (ds['name'], ds['reference product'], ds['location'])})
    return data
switch_undefined_to_current.__table__ = {'title': 'Switch all `undefined` activity technology levels to `current`', 'columns': ['Name', 'Reference product', 'Location']}
cleanup_technology_levels = Collection('Clean up technology levels', log_conflicting_technology_levels, switch_undefined_to_current)
