# target: ocelot/transformations/uncertainty/__init__.py
def remove_exchange_uncertainty(exchange):
    exchange.pop('uncertainty', None)
    return exchange


def get_uncertainty_class(exchange):
    kind = exchange.get('uncertainty', {}).get('type')
    if kind not in TYPE_MAPPING:
        raise UnsupportedDistribution
    return TYPE_MAPPING[kind]


def scale_exchange(exchange, factor):
    if factor != 1:
        exchange = get_uncertainty_class(exchange).rescale(exchange, factor)
    return exchange


def adjust_pedigree_matrix_time(ds, exchange, year):
    adjusted = apmt(ds, exchange, year)
    distribution = get_uncertainty_class(adjusted)
    return distribution.recalculate(adjusted)
# target: ocelot/transformations/uncertainty/pedigree.py
def get_pedigree_variance(pm, version="original"):
    assert all(isinstance(score, int) for score in pm.values())
    table = PEDIGREE_MATRIX_VALUES[version]
    total = 0
    for indicator, score in pm.items():
        total += table[indicator][score - 1]
    return total


def _year(value):
    if isinstance(value, int):
        return value
    return datetime.strptime(value, "%Y-%m-%d").year


def get_difference_in_years(first, second):
    return abs(_year(first) - _year(second))


def _new_temporal_correlation(current, difference):
    if current == 1:
        for limit, score in ((3, 2), (7, 3), (12, 4)):
            if difference <= limit:
                return score
    elif current == 2:
        if difference < 5:
            return 3
        if difference == 5:
            return 4
    elif current == 3 and difference <= 5:
        return 4
    return 5


def adjust_pedigree_matrix_time(ds, exc, year):
    matrix = exc.get('pedigree matrix')
    if 'pedigree matrix' in exc:
        difference = get_difference_in_years(ds['end date'], year)
        current = matrix['temporal correlation']
        if difference > 0:
            matrix['temporal correlation'] = _new_temporal_correlation(current, difference)
    return exc
# target: ocelot/transformations/uncertainty/distributions.py
def _pedigree_variance(obj):
    return get_pedigree_variance(obj.get('pedigree matrix', {}))


def _scale_fields(target, fields, factor):
    for field in fields:
        target[field] *= factor


class NoUncertainty:
    @staticmethod
    def rescale(obj, factor):
        obj['amount'] = obj['amount'] * factor
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        amount = obj['amount']
        return {
            'uncertainty type': cls.distribution.id,
            'amount': amount,
            'loc': amount,
        }

    @classmethod
    def sample(cls, obj, size=1):
        params = cls.distribution.from_dicts(cls.to_stats_arrays(obj))
        samples = cls.distribution.bounded_random_variables(params, size=size)
        return samples.ravel()


class Undefined(NoUncertainty):
    @staticmethod
    def rescale(obj, factor):
        obj['amount'] *= factor
        _scale_fields(obj['uncertainty'], ('minimum', 'maximum'), factor)
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        return dict([
            ('uncertainty type', cls.distribution.id),
            ('amount', obj['amount']),
            ('loc', obj['amount']),
        ])


class Lognormal(NoUncertainty):
    @staticmethod
    def repair(obj, fix_extremes=True):
        ud = obj['uncertainty']
        if obj['amount'] == 0 or ud['variance with pedigree uncertainty'] == 0:
            return remove_exchange_uncertainty(obj)
        pedigree = get_pedigree_variance(obj.get('pedigree matrix', {}))
        ud['mean'] = abs(obj['amount'])
        ud['negative'] = obj['amount'] < 0
        ud['mu'] = math.log(ud['mean'])
        ud['variance'] = ud['variance with pedigree uncertainty'] - pedigree
        if fix_extremes and ud['variance'] >= 1:
            if ud['variance'] <= math.e:
                ud['variance'] = math.log(ud['variance'])
            else:
                ud['variance'] = 0.25
            ud['variance with pedigree uncertainty'] = ud['variance'] + pedigree
        return obj

    @staticmethod
    def rescale(obj, factor):
        if factor == 0:
            obj['amount'] = 0
            return remove_exchange_uncertainty(obj)
        if factor < 0:
            obj['amount'] = -obj['amount']
            obj['uncertainty']['negative'] = not obj['uncertainty'].get('negative')
            factor = -factor
        obj['amount'] *= factor
        mean = abs(obj['amount'])
        obj['uncertainty']['mean'] = mean
        obj['uncertainty']['mu'] = math.log(mean)
        return obj

    @staticmethod
    def recalculate(obj):
        ud = obj['uncertainty']
        ud['variance with pedigree uncertainty'] = ud['variance'] + _pedigree_variance(obj)
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        ud = obj['uncertainty']
        result = {
            'uncertainty type': cls.distribution.id,
            'amount': obj['amount'],
        }
        result['loc'] = ud['mu']
        result['scale'] = math.sqrt(ud['variance with pedigree uncertainty'])
        result['negative'] = obj['amount'] < 0
        return result


class Normal(NoUncertainty):
    @staticmethod
    def repair(obj):
        ud = obj['uncertainty']
        if ud['variance with pedigree uncertainty'] != 0:
            ud['mean'] = obj['amount']
            return obj
        return remove_exchange_uncertainty(obj)

    @staticmethod
    def rescale(obj, factor):
        if factor == 0:
            obj['amount'] = 0
            return remove_exchange_uncertainty(obj)
        old = obj['amount']
        new = old * factor
        ratio = new / old
        obj['uncertainty']['variance'] *= ratio ** 2
        obj['amount'] = new
        return Normal.recalculate(obj)


class Triangular(NoUncertainty):
    @staticmethod
    def repair(obj):
        ud = obj['uncertainty']
        ud['mode'] = obj['amount']
        low, high, mode = ud['minimum'], ud['maximum'], ud['mode']
        if low == high and high == mode:
            return remove_exchange_uncertainty(obj)
        if low > high:
            low, high = high, low
            ud['minimum'] = low
            ud['maximum'] = high
        if not (low <= mode <= high):
            return remove_exchange_uncertainty(obj)
        return obj

    @staticmethod
    def rescale(obj, factor):
        obj['amount'] *= factor
        _scale_fields(obj['uncertainty'], ('minimum', 'mode', 'maximum'), factor)
        return Triangular.repair(obj)


class Uniform(NoUncertainty):
    @classmethod
    def to_stats_arrays(cls, obj):
        stats = {key: obj['uncertainty'][key] for key in ('minimum', 'maximum')}
        stats['uncertainty type'] = cls.distribution.id
        stats['amount'] = obj['amount']
        return stats
