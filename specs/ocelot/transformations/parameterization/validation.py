from ...errors import ParameterizationError
from ..utils import iterate_all_parameters

def variable_names_are_unique(data):
    has_variable = lambda x: x.get('variable')
    for ds in data:
        found = set()
        for param in filter(has_variable, iterate_all_parameters(ds)):
            if param['variable'] in found:
                message = 'Variable named {} used twice in dataset:\n{}'
                raise ParameterizationError(message.format(param['variable'], ds))
            found.add(param['variable'])
    return data
