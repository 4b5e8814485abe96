from ..utils import choose_reference_product_exchange, single_input

def apply_allocation_factors(dataset, factors):
    return [choose_reference_product_exchange(dataset, exc, scale) for scale, exc in factors]

def flip_non_allocatable_byproducts(dataset):
    for exc in dataset['exchanges']:
        if exc['type'] == 'byproduct' and exc['byproduct classification'] != 'allocatable product':
            exc['type'] = 'from technosphere'
            del exc['byproduct classification']
            exc['amount'] = -1 * exc['amount']
            if 'formula' in exc:
                exc['formula'] = '-1 * ({})'.format(exc['formula'])
    return dataset

@single_input
def delete_allocation_method(dataset):
    if 'allocation method' in dataset:
        del dataset['allocation method']
    return [dataset]
