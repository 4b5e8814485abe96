try:
    import brightway2 as bw2
    from bw2io.importers.base_lci import LCIImporter
except ImportError:
    bw2 = None
from ..transformations.utils import get_single_reference_product

def refinery_gas_is_the_bane_of_my_existence(exc):
    return exc['name'] != 'refinery gas' or exc.get('code')

class Brightway2Converter:

    @staticmethod
    def convert_to_brightway2(data, database_name):
        return (Brightway2Converter.translate_activity(ds, database_name) for ds in data)

    @staticmethod
    def translate_activity(ds, database_name):
        EXCHANGE_MAPPING = {'reference product': Brightway2Converter.translate_production_exchange, 'byproduct': Brightway2Converter.translate_byproduct_exchange, 'from technosphere': Brightway2Converter.translate_technosphere_exchange, 'from environment': Brightway2Converter.translate_biosphere_exchange, 'to environment': Brightway2Converter.translate_biosphere_exchange}
        FIELDS = ('code', 'economic scenario', 'end date', 'filepath', 'location', 'name', 'start date', 'technology level', 'dataset author', 'data entry')
        data = {field: ds[field] for field in FIELDS}
        data['database'] = database_name
        rp = get_single_reference_product(ds)
        data['unit'] = rp['unit']
        data['reference product'] = rp['name']
        data['production amount'] = rp['amount']
        data['exchanges'] = [EXCHANGE_MAPPING[exc['type']](exc, database_name) for exc in ds['exchanges'] if exc['amount'] and refinery_gas_is_the_bane_of_my_existence(exc)]
        return data

    @staticmethod
    def translate_biosphere_exchange(exc, database_name):
        return {'type': 'biosphere', 'amount': exc['amount'], 'name': exc['name'], 'unit': exc['unit'], 'categories': (exc['compartment'], exc['subcompartment'])}

    def translate_technosphere_exchange(exc, database_name):
        return {'type': 'technosphere', 'amount': exc['amount'], 'input': (database_name, exc['code'])}

    def translate_production_exchange(exc, database_name):
        return {'type': 'production', 'amount': exc['amount'], 'input': (database_name, exc['code'])}

    def translate_byproduct_exchange(exc, database_name):
        return {'type': 'technosphere', 'amount': -1 * exc['amount'], 'input': (database_name, exc['code'])}

def import_into_brightway2(data, database_name):
    if not bw2:
        raise ImportError('Brightway2 not found')
    assert isinstance(database_name, str), 'Database name must be a string'
    print('Creating database `{}` in project `{}`'.format(database_name, bw2.projects.current))
    assert database_name not in bw2.databases
    data[:] = list(Brightway2Converter.convert_to_brightway2(data, database_name))
    importer = LCIImporter(database_name)
    del importer.strategies[2]
    importer.data = data
    importer.apply_strategies()
    importer.match_database('biosphere3')
    stats = importer.statistics()
    if not stats[2]:
        print('Writing database')
        importer.write_database()
        return bw2.Database(database_name)
    else:
        print('Unlinked exchanges; not writing database')
        print(importer.statistics())
        return importer
