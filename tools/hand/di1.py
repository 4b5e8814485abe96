# target: ocelot/transformations/uncertainty/distributions.py
def _scale_fields(dct, factor, *fields):
    for field in fields:
        dct[field] *= factor


def _with_pedigree(obj, variance):
    return variance + get_pedigree_variance(obj.get('pedigree matrix', {}))


def _flip_bounds(ud):
    if ud['minimum'] > ud['maximum']:
        low, high = ud['maximum'], ud['minimum']
        ud['minimum'] = low
        ud['maximum'] = high


class NoUncertainty:
    distribution = sa.NoUncertainty

    @staticmethod
    def repair(obj):
        return obj

    @staticmethod
    def rescale(obj, factor):
        obj['amount'] = obj['amount'] * factor
        return obj

    @staticmethod
    def recalculate(obj):
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        amount = obj['amount']
        return {
            'uncertainty type': cls.distribution.id,
            'amount': amount,
            'loc': amount,
        }

    @classmethod
    def sample(cls, obj, size=1):
        params = cls.distribution.from_dicts(cls.to_stats_arrays(obj))
        return cls.distribution.bounded_random_variables(params, size=size).ravel()


class Undefined(NoUncertainty):
    distribution = sa.UndefinedUncertainty

    @staticmethod
    def rescale(obj, factor):
        _scale_fields(obj['uncertainty'], factor, 'minimum', 'maximum')
        _scale_fields(obj, factor, 'amount')
        return obj


class Lognormal(NoUncertainty):
    distribution = sa.LognormalUncertainty

    @staticmethod
    def repair(obj, fix_extremes=True):
        ud = obj['uncertainty']
        if obj['amount'] == 0 or ud['variance with pedigree uncertainty'] == 0:
            return remove_exchange_uncertainty(obj)
        pedigree_variance = get_pedigree_variance(obj.get('pedigree matrix', {}))
        ud['negative'] = obj['amount'] < 0
        ud['mean'] = abs(obj['amount'])
        ud['mu'] = math.log(ud['mean'])
        variance = ud['variance with pedigree uncertainty'] - pedigree_variance
        if fix_extremes and variance >= 1:
            variance = math.log(variance) if variance <= math.e else 0.25
            ud['variance with pedigree uncertainty'] = variance + pedigree_variance
        ud['variance'] = variance
        return obj

    @staticmethod
    def rescale(obj, factor):
        if factor == 0:
            obj['amount'] = 0
            return remove_exchange_uncertainty(obj)
        ud = obj['uncertainty']
        if factor < 0:
            ud['negative'] = not ud.get('negative')
        obj['amount'] *= factor
        ud['mean'] = abs(obj['amount'])
        ud['mu'] = math.log(ud['mean'])
        return obj

    @staticmethod
    def recalculate(obj):
        ud = obj['uncertainty']
        ud['variance with pedigree uncertainty'] = _with_pedigree(obj, ud['variance'])
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        ud = obj['uncertainty']
        return {
            'uncertainty type': cls.distribution.id,
            'amount': obj['amount'],
            'loc': ud['mu'],
            'scale': math.sqrt(ud['variance with pedigree uncertainty']),
            'negative': obj['amount'] < 0,
        }


class Normal(NoUncertainty):
    distribution = sa.NormalUncertainty

    @staticmethod
    def repair(obj):
        ud = obj['uncertainty']
        if ud['variance with pedigree uncertainty']:
            ud['mean'] = obj['amount']
            return obj
        return remove_exchange_uncertainty(obj)

    @staticmethod
    def rescale(obj, factor):
        if not factor:
            obj['amount'] = 0
            return remove_exchange_uncertainty(obj)
        new_amount = obj['amount'] * factor
        ratio = new_amount / obj['amount']
        obj['uncertainty']['variance'] *= ratio ** 2
        obj['amount'] = new_amount
        return Normal.recalculate(obj)

    @staticmethod
    def recalculate(obj):
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        ud = obj['uncertainty']
        result = {'uncertainty type': cls.distribution.id, 'amount': obj['amount']}
        result['loc'] = ud['mean']
        result['scale'] = math.sqrt(ud['variance with pedigree uncertainty'])
        return result


class Triangular(NoUncertainty):
    distribution = sa.TriangularUncertainty

    @staticmethod
    def repair(obj):
        ud = obj['uncertainty']
        mode = ud['mode'] = obj['amount']
        if ud['minimum'] == mode and ud['maximum'] == mode:
            return remove_exchange_uncertainty(obj)
        _flip_bounds(ud)
        if ud['minimum'] <= mode <= ud['maximum']:
            return obj
        return remove_exchange_uncertainty(obj)

    @staticmethod
    def rescale(obj, factor):
        _scale_fields(obj['uncertainty'], factor, 'minimum', 'mode', 'maximum')
        obj['amount'] *= factor
        return Triangular.repair(obj)

    @staticmethod
    def recalculate(obj):
        return obj

    @classmethod
    def to_stats_arrays(cls, obj):
        ud = obj['uncertainty']
        return {
            'uncertainty type': cls.distribution.id,
            'amount': obj['amount'],
            'loc': ud['mode'],
            'minimum': ud['minimum'],
            'maximum': ud['maximum'],
        }
# target: ocelot/transformations/locations/_topology.py
class Topology(object):
    compatibility = [
        # Power grids
        ('ASCC', 'US-ASCC'),
        ('CSG', 'CN-CSG'),
        ('FRCC', 'US-FRCC'),
        ('HICC', 'US-HICC'),
        ('MRO, US only', 'US-MRO'),
        ('NPCC, US only', 'US-NPCC'),
        ('RFC', 'US-RFC'),
        ('SERC', 'US-SERC'),
        ('SGCC', 'CN-SGCC'),
        ('SPP', 'US-SPP'),
        ('TRE', 'US-TRE'),
        ('WECC, US only', 'US-WECC'),
        # Aluminium
        ('IAI Area 2, North America', 'IAI Area, North America'),
        ("IAI Area 1, Africa", 'IAI Area, Africa'),
        ("IAI Area 3, South America", 'IAI Area, South America'),
        ("IAI Area 4&5 without China", 'IAI Area, Asia, without China and GCC'),
        ("IAI Area 8, Gulf", 'IAI Area, Gulf Cooperation Council'),
        ('IAI Area 1', 'IAI Area, Africa'),
        ('IAI Area 2, without Quebec', 'IAI Area, North America, without Quebec'),
        ('IAI Area 3', "IAI Area 3, South America"),
        ('IAI Area 4&5, without China', 'IAI Area, Asia, without China and GCC'),
        ('IAI Area 8', 'IAI Area, Gulf Cooperation Council'),
        ('IAI Area, Europe outside EU & EFTA', 'IAI Area, Russia & RER w/o EU27 & EFTA'),
    ]

    def __init__(self, size_proxy=None):
        if size_proxy:
            self.size_proxy = size_proxy
        else:
            self.size_proxy = self.default_size_proxy
        cg = ConstructiveGeometries()
        geometries = cg.data
        geometries['GLO'] = cg.all_faces
        for old, fixed in self.compatibility:
            geometries[old] = geometries[fixed]
        self.data = dict((k, set(v)) for k, v in geometries.items())

    def default_size_proxy(self, face_id):
        return 1

    def _faces_of(self, places):
        return set.union(*[self(place) for place in places])

    def resolve_row(self, others):
        return self("GLO") - self._faces_of(others)

    def contained(self, location, exclude_self=False, subtract=None,
            resolved_row=None):
        def frozen(x):
            return frozenset(x) if isinstance(x, set) else x

        if isinstance(subtract, list):
            subtract = tuple(subtract)
        return self._contained(frozen(location), exclude_self, subtract, frozen(resolved_row))

    @functools.lru_cache(maxsize=512)
    def _contained(self, location, exclude_self, subtract,
            resolved_row):
        if location == 'RoW':
            if resolved_row is None:
                return set()
            faces = resolved_row
        elif isinstance(location, (set, frozenset)):
            faces = location
        else:
            faces = self(location)
        if subtract:
            faces = faces.difference(self._faces_of(subtract))
        if not faces:
            return set()

        result = set()
        for key, value in self.data.items():
            if key == location and exclude_self:
                continue
            if value.issubset(faces):
                result.add(key)
        if (resolved_row not in (set(), frozenset(), None)
            and not resolved_row.difference(faces)
            and not (location == 'RoW' and exclude_self)):
            result.add("RoW")
        elif location == 'GLO' and resolved_row is None and not subtract:
            result.add("RoW")
        return result

    def contains(self, parent, child, subtract=None, resolved_row=None):
        def frozen(x):
            return frozenset(x) if isinstance(x, set) else x

        if isinstance(subtract, list):
            subtract = tuple(subtract)
        return self._contains(frozen(parent), frozen(child), subtract, frozen(resolved_row))

    def _parent_faces(self, parent, subtract, resolved_row):
        if parent == 'RoW':
            faces = resolved_row
        elif isinstance(parent, (set, frozenset)):
            faces = parent
        else:
            faces = self(parent)
        if subtract:
            faces = faces.difference(self._faces_of(subtract))
        return faces

    @functools.lru_cache(maxsize=512)
    def _contains(self, parent, child, subtract, resolved_row):
        if isinstance(child, (set, frozenset)):
            if not child:
                return False
            return self._parent_faces(parent, subtract, resolved_row or set()).issuperset(child)
        if parent == "GLO" and child == 'RoW' and not subtract:
            return True
        if child == 'RoW' or (parent == 'RoW' and not resolved_row):
            return False
        return self._parent_faces(parent, subtract, resolved_row).issuperset(self(child))

    def ordered_dependencies(self, datasets, resolved_row=None):
        locations = tuple(sorted(set(x['location'] for x in datasets)))
        if isinstance(resolved_row, set):
            resolved_row = frozenset(resolved_row)
        return self._ordered_dependencies(locations, resolved_row)

    @functools.lru_cache(maxsize=512)
    def _ordered_dependencies(self, locations, resolved_row):
        def size(loc):
            faces = resolved_row if (loc == 'RoW' and resolved_row) else self(loc)
            return sum(self.size_proxy(face) for face in faces)

        return sorted(locations, key=lambda k: (size(k), k), reverse=True)

    @functools.lru_cache(maxsize=512)
    def intersected(self, location, exclude_self=False):
        if location in ('GLO', 'RoW'):
            return set()
        faces = self(location)
        return {key
                for key, value in self.data.items()
                if value.intersection(faces)
                and not (key == location and exclude_self)}

    def intersects(self, parent, child):
        found = self.intersected(parent)
        return child in found

    def overlaps(self, group):
        if not group:
            return None
        faces = [self(obj) for obj in group]
        total = sum(map(len, faces))
        return total != len(set.union(*faces))

    def __call__(self, location):
        return set() if location == 'RoW' else self.data[location]
