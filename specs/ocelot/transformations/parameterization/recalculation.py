from ..uncertainty import get_uncertainty_class
from ..utils import iterate_all_parameters, iterate_all_uncertainties
from asteval import Interpreter
from bw2parameters import ParameterSet
from bw2parameters.errors import ParameterError, DuplicateName
import logging
logger = logging.getLogger('ocelot')
detailed = logging.getLogger('ocelot-detailed')

def extract_named_parameters(dataset):
    return {exc['variable']: {key: exc[key] for key in ('amount', 'formula') if exc.get(key) is not None} for exc in iterate_all_parameters(dataset) if 'variable' in exc}

class TolerantParameterSet(ParameterSet):

    def evaluate(self):
        interpreter = Interpreter()
        result = {}
        for key in self.order:
            if self.params[key].get('formula'):
                try:
                    value = interpreter(self.params[key]['formula'])
                except ZeroDivisionError:
                    value = 0
                interpreter.symtable[key] = result[key] = value
            elif 'amount' in self.params[key]:
                interpreter.symtable[key] = result[key] = self.params[key]['amount']
            else:
                raise ValueError('No suitable formula or static amount found in {}'.format(key))
        return result

def recalculate(dataset):
    interpreter = Interpreter()
    parameter_set = TolerantParameterSet(extract_named_parameters(dataset))
    for key, value in parameter_set.evaluate().items():
        interpreter.symtable[key] = value
    for exc in iterate_all_parameters(dataset):
        if 'formula' in exc:
            try:
                exc['amount'] = interpreter(exc['formula'])
            except ZeroDivisionError:
                exc['amount'] = 0
        elif 'variable' in exc:
            exc['amount'] = interpreter.symtable[exc['variable']]
        else:
            raise ValueError
    for obj in iterate_all_uncertainties(dataset):
        if obj.get('uncertainty'):
            get_uncertainty_class(obj).repair(obj)
    return dataset

def recalculate_all_parameterized_datasets(data):
    for ds in data:
        try:
            recalculate(ds)
        except (ParameterError, ZeroDivisionError, TypeError, DuplicateName) as E:
            logger.info({'type': 'table element', 'data': (ds['name'], ds['reference product'], ds['location'])})
            detailed.info({'ds': ds, 'message': 'Parameter recalculation error: {}'.format(str(E)), 'function': 'recalculate'})
    return data
recalculate_all_parameterized_datasets.__table__ = {'title': 'Datasets with circular references which cause parameter set errors (see the detailed logs for each dataset for the specifics).', 'columns': ['Name', 'Reference product', 'Location']}
