from ..utils import single_input
import logging
import uuid
logger = logging.getLogger('ocelot')

@single_input
def create_pv_parameters(dataset):
    for exc in dataset['exchanges']:
        pv = exc.get('production volume')
        if not pv:
            continue
        elif 'variable' in pv:
            new_parameter = {'unit': exc['unit'], 'id': str(uuid.uuid4()), 'name': 'Shifted PV parameter: ' + pv['variable'], 'variable': pv['variable'], 'amount': pv['amount']}
            logger.info({'type': 'table element', 'data': (dataset['name'], new_parameter['name'], pv['amount'])})
            if 'formula' in pv:
                new_parameter['formula'] = pv['formula']
                del pv['formula']
            dataset['parameters'].append(new_parameter)
            del pv['variable']
        elif 'formula' in pv:
            del pv['formula']
    return [dataset]
create_pv_parameters.__table__ = {'title': 'Turn parameterized production volumes into parameters.', 'columns': ['Activity name', 'Variable name', 'Amount']}
