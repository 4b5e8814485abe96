from .utils import apply_allocation_factors
from .validation import valid_economic_activity
from ..utils import allocatable_production, allocatable_production_as_dataframe

@valid_economic_activity
def economic_allocation(dataset, use_true_value=True):
    df = allocatable_production_as_dataframe(dataset)
    factors = df['revenue'] / df['revenue'].sum()
    if use_true_value:
        mask = df['has true value']
        true_value = df['true value'] * df['amount']
        true_value_revenue_fraction = df['revenue'][mask].sum() / df['revenue'].sum()
        true_value = true_value / true_value.sum() * true_value_revenue_fraction
        factors[mask] = true_value[mask]
    return apply_allocation_factors(dataset, zip(factors.tolist(), allocatable_production(dataset)))
