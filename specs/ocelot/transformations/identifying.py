from ..errors import IdenticalDatasets
from .utils import activity_hash
CODE_ERROR_MESSAGE = 'Found multiple datasets with the attributes:\n    Name: {name}\n    Reference product: {reference product}\n    Unit: {unit}\n    Location: {location}\n    Start date: {start date}\n    End date: {end date}\n'

def add_unique_codes(data):
    fields = ('name', 'reference product', 'unit', 'location', 'start date', 'end date')
    seen = set()
    for ds in data:
        code = activity_hash(ds)
        if code in seen:
            processed = {field: ds.get(field) for field in fields}
            raise IdenticalDatasets(CODE_ERROR_MESSAGE.format(**processed))
        else:
            seen.add(code)
        ds['code'] = code
    return data
