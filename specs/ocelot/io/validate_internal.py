from voluptuous import Schema, Any, Optional
from .ecospold2_meta import SPECIAL_ACTIVITY_TYPE, TECHNOLOGY_LEVEL, PEDIGREE_LABELS
valid_access_restriction = Any('public', 'licensees', 'results only', 'restricted')
valid_activity_types = Any(*list(SPECIAL_ACTIVITY_TYPE.values()))
valid_allocation_method = Any('combined production with byproduct', 'combined production without byproduct', 'constrained market', 'economic allocation', 'no allocation', 'recycling activity', 'true value allocation', 'waste treatment')
valid_byproducts = Any('allocatable product', 'waste', 'recyclable')
valid_technology_levels = Any(*list(TECHNOLOGY_LEVEL.values()))
valid_pedigree_matrix = Any({lbl: int for lbl in PEDIGREE_LABELS.values()}, {})
valid_lognormal = Schema({'mean': float, 'pedigree matrix': valid_pedigree_matrix, 'type': 'lognormal', 'variance with pedigree uncertainty': float, Optional('mu'): float, Optional('variance'): float}, required=True)
valid_normal = Schema({'mean': float, 'pedigree matrix': valid_pedigree_matrix, 'type': 'normal', 'variance with pedigree uncertainty': float, Optional('variance'): float}, required=True)
valid_uniform = Schema({'maximum': float, 'minimum': float, 'pedigree matrix': valid_pedigree_matrix, 'type': 'uniform'}, required=True)
valid_triangular = Schema({'maximum': float, 'minimum': float, 'mode': float, 'pedigree matrix': valid_pedigree_matrix, 'type': 'triangular'}, required=True)
valid_binomial = Schema({'n': float, 'p': float, 'pedigree matrix': valid_pedigree_matrix, 'type': 'binomial'}, required=True)
valid_beta = Schema({'maximum': float, 'minimum': float, 'mode': float, 'pedigree matrix': valid_pedigree_matrix, 'type': 'beta'}, required=True)
valid_gamma = Schema({'pedigree matrix': valid_pedigree_matrix, 'scale': float, 'shape': float, 'type': 'gamma'}, required=True)
valid_undefined = Schema({'maximum': float, 'minimum': float, 'pedigree matrix': valid_pedigree_matrix, 'standard deviation 95%': float, 'type': 'undefined'}, required=True)
valid_uncertainty = Any(valid_beta, valid_binomial, valid_gamma, valid_lognormal, valid_normal, valid_triangular, valid_undefined, valid_uniform)
valid_production_volume = Schema({'amount': float, Optional('formula'): str, Optional('uncertainty'): valid_uncertainty, Optional('variable'): str, Optional('subtracted activity link volume'): float}, required=True)
valid_property = Schema({'amount': float, 'id': str, 'name': str, 'unit': str, Optional('formula'): str, Optional('uncertainty'): valid_uncertainty, Optional('variable'): str}, required=True)
valid_parameter = Schema({'unit': str, 'amount': float, 'id': str, 'name': str, Optional('formula'): str, Optional('uncertainty'): valid_uncertainty, Optional('variable'): str})
elementary_exchange_schema = Schema({'amount': float, 'compartment': str, 'id': str, 'name': str, 'subcompartment': str, 'tag': 'elementaryExchange', 'type': Any('from environment', 'to environment'), 'unit': str, Optional('formula'): str, Optional('properties'): [valid_property], Optional('uncertainty'): valid_uncertainty, Optional('variable'): str}, required=True)
activity_exchange_schema = Schema({'amount': float, 'id': str, 'name': str, 'tag': 'intermediateExchange', 'type': Any('from technosphere', 'reference product', 'byproduct', 'dropped product'), 'unit': str, Optional('activity link'): str, Optional('byproduct classification'): valid_byproducts, Optional('conditional exchange'): bool, Optional('formula'): str, Optional('production volume'): valid_production_volume, Optional('properties'): [valid_property], Optional('uncertainty'): valid_uncertainty, Optional('variable'): str}, required=True)
dataset_schema = Schema({'exchanges': [Any(elementary_exchange_schema, activity_exchange_schema)], 'parameters': [valid_parameter], 'access restricted': valid_access_restriction, 'economic scenario': str, 'end date': str, 'filepath': str, 'id': str, 'parent': Any(None, str), Optional('code'): str, 'location': str, 'name': str, 'start date': str, 'technology level': valid_technology_levels, 'type': valid_activity_types, 'dataset author': str, 'data entry': str, 'ISIC classification': str, Optional('allocation method'): valid_allocation_method, Optional('reference product'): str, Optional('suppliers'): list}, required=True)
