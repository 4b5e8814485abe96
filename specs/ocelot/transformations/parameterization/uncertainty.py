from ..uncertainty import get_uncertainty_class
from ..utils import iterate_all_uncertainties
import logging

def repair_all_uncertainty_distributions(data):
    for ds in data:
        for obj in iterate_all_uncertainties(ds):
            if obj.get('uncertainty'):
                get_uncertainty_class(obj).repair(obj)
    return data
