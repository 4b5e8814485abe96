from ...collection import Collection
from ...wrapper import TransformationWrapper
from ..utils import allocatable_production
from .combined import combined_production, combined_production_with_byproducts, combined_production_without_products
from .economic import economic_allocation
from .markets import constrained_market_allocation
from .utils import delete_allocation_method
from .validation import valid_no_allocation_dataset
from .wastes import waste_treatment_allocation, recycling_allocation, recycling_2_allocation
import functools
import logging
logger = logging.getLogger('ocelot')
detailed = logging.getLogger('ocelot-detailed')

@valid_no_allocation_dataset
def no_allocation(dataset):
    return [dataset]

def missing_formulas(dataset):
    TYPES = {'from environment', 'to environment', 'from technosphere'}
    return not all((exc.get('formula') for exc in dataset['exchanges'] if exc['type'] in TYPES))

def choose_allocation_method(dataset):
    reference_product_classifications = [exc.get('byproduct classification') for exc in dataset['exchanges'] if exc['type'] == 'reference product' and exc['amount'] != 0]
    number_reference_products = len(reference_product_classifications)
    negative_reference_production = any((1 for exc in dataset['exchanges'] if exc['type'] == 'reference product' and exc['amount'] < 0))
    allocatable_byproducts = any((1 for exc in allocatable_production(dataset) if exc['type'] == 'byproduct' and exc['amount'] != 0))
    allocatable_products = any((1 for exc in allocatable_production(dataset) if exc['type'] == 'reference product' and exc.get('byproduct classification') == 'allocatable product'))
    recyclable_reference_product = reference_product_classifications == ['recyclable']
    recyclable_byproduct = any((exc.get('byproduct classification') == 'recyclable' and exc.get('type') == 'byproduct' for exc in dataset['exchanges']))
    has_conditional_exchange = any((1 for exc in dataset['exchanges'] if exc.get('conditional exchange')))
    if number_reference_products == 1 and (not allocatable_byproducts):
        return 'single product'
    elif dataset['type'] == 'market group':
        return 'market group'
    elif dataset['type'] == 'market activity':
        if has_conditional_exchange:
            return 'constrained market'
        else:
            return 'unconstrained market'
    elif number_reference_products > 1:
        if not allocatable_products:
            return 'combined production without products'
        elif allocatable_byproducts:
            return 'combined production with byproducts'
        elif dataset['name'] == 'rare earth oxides production from bastnäsite concentrate':
            return 'economic'
        else:
            return 'combined production'
    elif negative_reference_production:
        assert len(set(reference_product_classifications)) == 1
        if reference_product_classifications[0] == 'waste':
            return 'waste treatment'
        else:
            return 'recycling'
    else:
        return 'economic'

@functools.wraps(constrained_market_allocation)
def allocate_constrained_market(dataset):
    return [constrained_market_allocation(dataset)]
ALLOCATION_METHODS = (('single product', no_allocation), ('market group', no_allocation), ('unconstrained market', no_allocation), ('economic', economic_allocation), ('constrained market', allocate_constrained_market), ('recycling', recycling_allocation), ('waste treatment', waste_treatment_allocation), ('combined production without products', combined_production_without_products), ('combined production', combined_production), ('combined production with byproducts', combined_production_with_byproducts))

def label_allocation_method(data):
    for ds in data:
        ds['allocation method'] = choose_allocation_method(ds)
        detailed.info({'ds': ds, 'message': ds['allocation method'], 'function': 'label_allocation_method'})
    for label, _ in ALLOCATION_METHODS:
        logger.info({'type': 'table element', 'data': (str(label), sum((1 for ds in data if ds['allocation method'] == label)))})
    return data
label_allocation_method.__table__ = {'title': 'Label allocation method types', 'columns': ['Allocation', 'Count']}

def create_allocation_filter(label):

    def allocation_method_filter(ds):
        return ds['allocation method'] == label
    return allocation_method_filter
cutoff_allocation = Collection('Cutoff allocation functions', label_allocation_method, *[TransformationWrapper(func, create_allocation_filter(label)) for label, func in ALLOCATION_METHODS[1:]], delete_allocation_method)
