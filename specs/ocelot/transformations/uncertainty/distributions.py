from . import remove_exchange_uncertainty
from .pedigree import get_pedigree_variance
import math
import numpy as np
import stats_arrays as sa
"Uncertainty distributions used in ecospold2.\n\nProvides a common API to useful functions for all distributions.\n\nStill TODO:\n\n* Recalculate doesn't work for normal, uniform, triangular\n* Need consistent story on whether we want to deal with pedigree matrix for uniform and triangular\n* Doesn't support all distributions in ecoinvent\n* Need decision on what 95% thing means in undefined uncertainty\n* Need common log format for changes\n\n"

class NoUncertainty:
    distribution = sa.NoUncertainty

    @staticmethod
    def repair(obj):
        return obj

    @staticmethod
    def rescale(obj, factor):
        obj['amount'] *= factor
        return obj

    @staticmethod
    def recalculate(obj):
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        return {'uncertainty type': cls.distribution.id, 'amount': obj['amount'], 'loc': obj['amount']}

    @classmethod
    def sample(cls, obj, size=1):
        return cls.distribution.bounded_random_variables(cls.distribution.from_dicts(cls.to_stats_arrays(obj)), size=size).ravel()

class Undefined(NoUncertainty):
    distribution = sa.UndefinedUncertainty

    @staticmethod
    def rescale(obj, factor):
        obj['amount'] *= factor
        obj['uncertainty']['minimum'] *= factor
        obj['uncertainty']['maximum'] *= factor
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        return {'uncertainty type': cls.distribution.id, 'amount': obj['amount'], 'loc': obj['amount']}

class Lognormal(NoUncertainty):
    distribution = sa.LognormalUncertainty

    @staticmethod
    def repair(obj, fix_extremes=True):
        if obj['amount'] == 0:
            return remove_exchange_uncertainty(obj)
        elif obj['uncertainty']['variance with pedigree uncertainty'] == 0:
            return remove_exchange_uncertainty(obj)
        obj['uncertainty']['mean'] = abs(obj['amount'])
        obj['uncertainty']['negative'] = obj['amount'] < 0
        obj['uncertainty']['mu'] = math.log(obj['uncertainty']['mean'])
        obj['uncertainty']['variance'] = obj['uncertainty']['variance with pedigree uncertainty'] - get_pedigree_variance(obj.get('pedigree matrix', {}))
        if fix_extremes and 1 <= obj['uncertainty']['variance'] <= math.e:
            obj['uncertainty']['variance'] = math.log(obj['uncertainty']['variance'])
            obj['uncertainty']['variance with pedigree uncertainty'] = obj['uncertainty']['variance'] + get_pedigree_variance(obj.get('pedigree matrix', {}))
        elif fix_extremes and obj['uncertainty']['variance'] > math.e:
            obj['uncertainty']['variance'] = 0.25
            obj['uncertainty']['variance with pedigree uncertainty'] = obj['uncertainty']['variance'] + get_pedigree_variance(obj.get('pedigree matrix', {}))
        return obj

    @staticmethod
    def rescale(obj, factor):
        if factor < 0:
            obj['amount'] = -1 * obj['amount']
            obj['uncertainty']['negative'] = not obj['uncertainty'].get('negative')
            return Lognormal.rescale(obj, abs(factor))
        elif factor == 0:
            obj['amount'] = 0
            return remove_exchange_uncertainty(obj)
        else:
            obj['amount'] *= factor
            obj['uncertainty']['mean'] = abs(obj['amount'])
            obj['uncertainty']['mu'] = math.log(obj['uncertainty']['mean'])
            return obj

    @staticmethod
    def recalculate(obj):
        obj['uncertainty']['variance with pedigree uncertainty'] = obj['uncertainty']['variance'] + get_pedigree_variance(obj.get('pedigree matrix', {}))
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        return {'uncertainty type': cls.distribution.id, 'amount': obj['amount'], 'loc': obj['uncertainty']['mu'], 'scale': math.sqrt(obj['uncertainty']['variance with pedigree uncertainty']), 'negative': obj['amount'] < 0}

class Normal(NoUncertainty):
    distribution = sa.NormalUncertainty

    @staticmethod
    def repair(obj):
        if obj['uncertainty']['variance with pedigree uncertainty'] == 0:
            return remove_exchange_uncertainty(obj)
        obj['uncertainty']['mean'] = obj['amount']
        return obj

    @staticmethod
    def rescale(obj, factor):
        if factor == 0:
            obj['amount'] = 0
            return remove_exchange_uncertainty(obj)
        obj['uncertainty']['variance'] = (obj['amount'] * factor / obj['amount']) ** 2 * obj['uncertainty']['variance']
        obj['amount'] *= factor
        return Normal.recalculate(obj)

    @staticmethod
    def recalculate(obj):
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        return {'uncertainty type': cls.distribution.id, 'amount': obj['amount'], 'loc': obj['uncertainty']['mean'], 'scale': math.sqrt(obj['uncertainty']['variance with pedigree uncertainty'])}

class Triangular(NoUncertainty):
    distribution = sa.TriangularUncertainty

    @staticmethod
    def repair(obj):
        ud = obj['uncertainty']
        ud['mode'] = obj['amount']
        if ud['minimum'] == ud['maximum'] == ud['mode']:
            return remove_exchange_uncertainty(obj)
        if ud['minimum'] > ud['maximum']:
            ud['minimum'], ud['maximum'] = (ud['maximum'], ud['minimum'])
        if ud['mode'] < ud['minimum'] or ud['mode'] > ud['maximum']:
            return remove_exchange_uncertainty(obj)
        return obj

    @staticmethod
    def rescale(obj, factor):
        obj['uncertainty']['minimum'] *= factor
        obj['uncertainty']['mode'] *= factor
        obj['amount'] *= factor
        obj['uncertainty']['maximum'] *= factor
        return Triangular.repair(obj)

    @staticmethod
    def recalculate(obj):
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        return {'uncertainty type': cls.distribution.id, 'amount': obj['amount'], 'loc': obj['uncertainty']['mode'], 'minimum': obj['uncertainty']['minimum'], 'maximum': obj['uncertainty']['maximum']}

class Uniform(NoUncertainty):
    distribution = sa.UniformUncertainty

    @staticmethod
    def repair(obj):
        ud = obj['uncertainty']
        if ud['minimum'] == ud['maximum'] == obj['amount']:
            return remove_exchange_uncertainty(obj)
        if ud['minimum'] > ud['maximum']:
            ud['minimum'], ud['maximum'] = (ud['maximum'], ud['minimum'])
        if obj['amount'] < ud['minimum'] or obj['amount'] > ud['maximum']:
            raise ValueError('Amount is outside (minimum, maximum) bound.')
        expected = (ud['minimum'] + ud['maximum']) / 2
        if not np.allclose(obj['amount'], expected):
            ud['type'] = 'triangular'
            return Triangular.repair(obj)
        return obj

    @staticmethod
    def rescale(obj, factor):
        obj['uncertainty']['minimum'] *= factor
        obj['amount'] *= factor
        obj['uncertainty']['maximum'] *= factor
        return Uniform.repair(obj)

    @staticmethod
    def recalculate(obj):
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        return {'uncertainty type': cls.distribution.id, 'amount': obj['amount'], 'minimum': obj['uncertainty']['minimum'], 'maximum': obj['uncertainty']['maximum']}
