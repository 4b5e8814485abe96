# target: ocelot/transformations/locations/_topology.py
class Topology(object):
    def __init__(self, size_proxy=None):
        if not size_proxy:
            size_proxy = self.default_size_proxy
        self.size_proxy = size_proxy
        cg = ConstructiveGeometries()
        faces = cg.data
        faces['GLO'] = cg.all_faces
        for alias, name in self.compatibility:
            faces[alias] = faces[name]
        self.data = dict((name, set(ids)) for name, ids in faces.items())

    def resolve_row(self, others):
        covered = set.union(*[self(place) for place in others])
        return self("GLO") - covered

    @staticmethod
    def _hashable(obj):
        if isinstance(obj, set):
            return frozenset(obj)
        if isinstance(obj, list):
            return tuple(obj)
        return obj

    def contained(self, location, exclude_self=False, subtract=None,
            resolved_row=None):
        if isinstance(location, set):
            location = frozenset(location)
        if isinstance(subtract, list):
            subtract = tuple(subtract)
        if isinstance(resolved_row, set):
            resolved_row = frozenset(resolved_row)
        return self._contained(location, exclude_self, subtract, resolved_row)

    @functools.lru_cache(maxsize=512)
    def _contained(self, location, exclude_self, subtract,
            resolved_row):
        if location == 'RoW':
            if resolved_row is None:
                return set()
            faces = resolved_row
        elif isinstance(location, (set, frozenset)):
            faces = location
        else:
            faces = self(location)

        if subtract:
            faces = faces - set.union(*[self(place) for place in subtract])
        if not faces:
            return set()

        result = set()
        for key, value in self.data.items():
            if exclude_self and key == location:
                continue
            if value.issubset(faces):
                result.add(key)

        if resolved_row and resolved_row.issubset(faces) and not (location == 'RoW' and exclude_self):
            result.add("RoW")
        elif resolved_row is None and location == 'GLO' and not subtract:
            result.add("RoW")
        return result

    def _faces(self, parent, row, subtract):
        if parent == 'RoW':
            faces = row
        elif isinstance(parent, (set, frozenset)):
            faces = parent
        else:
            faces = self(parent)
        if subtract:
            removed = set.union(*[self(place) for place in subtract])
            faces = faces.difference(removed)
        return faces

    @functools.lru_cache(maxsize=512)
    def _contains(self, parent, child, subtract, resolved_row):
        if isinstance(child, (set, frozenset)):
            if not child:
                return False
            return self._faces(parent, resolved_row or set(), subtract).issuperset(child)
        if parent == "GLO" and child == 'RoW' and not subtract:
            return True
        if child == 'RoW' or (parent == 'RoW' and not resolved_row):
            return False
        return self._faces(parent, resolved_row, subtract).issuperset(self(child))

    def ordered_dependencies(self, datasets, resolved_row=None):
        locations = tuple(sorted(set(ds['location'] for ds in datasets)))
        if isinstance(resolved_row, set):
            resolved_row = frozenset(resolved_row)
        return self._ordered_dependencies(locations, resolved_row)

    @functools.lru_cache(maxsize=512)
    def _ordered_dependencies(self, locations, resolved_row):
        def size(location):
            if location == 'RoW' and resolved_row:
                faces = resolved_row
            else:
                faces = self(location)
            return sum(self.size_proxy(face) for face in faces)

        return sorted(locations, key=lambda loc: (size(loc), loc), reverse=True)

    @functools.lru_cache(maxsize=512)
    def intersected(self, location, exclude_self=False):
        if location == 'GLO' or location == 'RoW':
            return set()
        faces = self(location)
        found = {key for key, value in self.data.items() if value & faces}
        if exclude_self:
            found.discard(location)
        return found

    def overlaps(self, group):
        if not group:
            return None
        face_sets = [self(obj) for obj in group]
        total = 0
        for faces in face_sets:
            total += len(faces)
        return total != len(set.union(*face_sets))

    def __call__(self, location):
        return set() if location == 'RoW' else self.data[location]
# target: ocelot/transformations/locations/validation.py
def check_single_global_dataset(datasets):
    count = sum(1 for ds in datasets if ds['location'] == 'GLO')
    if count > 1:
        raise MultipleGlobalDatasets


def no_overlaps(data):
    locations = [ds['location'] for ds in data]
    has_global = 'GLO' in locations and len(locations) > 1
    if topology.overlaps(locations) or has_global:
        raise OverlappingActivities
    return True


@wrapt.decorator
def no_geo_duplicates(wrapped, instance, args, kwargs):
    consumers = kwargs.get('consumers') or args[0]
    locations = [ds['location'] for ds in consumers]
    if len(set(locations)) < len(locations):
        raise ValueError("`consumers` has duplicate locations")
    return wrapped(*args, **kwargs)
# target: ocelot/transformations/locations/market_groups.py
def _check_names(groups):
    for group in groups:
        names = {ds['name'] for ds in group}
        if len(names) != 1:
            raise MarketGroupError("Inconsistent activity names in market group")


def _choose_suppliers(loc, ordered, markets, mg_by_location, supplier_row):
    found, chosen = [], []
    for candidate in ordered:
        if not topology.contains(loc, candidate, subtract=found, resolved_row=supplier_row):
            continue
        if candidate in markets:
            supplier = markets[candidate]
        elif candidate != loc:
            supplier = mg_by_location[candidate]
        else:
            continue
        found.append(candidate)
        chosen.append(supplier)
    return chosen


def link_market_group_suppliers(data):
    market_groups = dict(toolz.groupby(
        'reference product',
        [ds for ds in data if ds['type'] == "market group"]
    ))
    _check_names(market_groups.values())

    for ref_product, group in market_groups.items():
        markets = {}
        for ds in data:
            if ds['type'] == 'market activity' and ds['reference product'] == ref_product:
                markets[ds['location']] = ds
        mg_by_location = {ds['location']: ds for ds in group}
        supplier_row = topology.resolve_row(markets) if 'RoW' in markets else set()
        ordered = topology.ordered_dependencies(
            [{'location': l} for l in set(markets) | set(mg_by_location)],
            supplier_row
        )

        for loc, ds in mg_by_location.items():
            chosen = _choose_suppliers(loc, ordered, markets, mg_by_location, supplier_row)
            chosen.sort(key=lambda x: x['code'])
            if not chosen:
                ds.pop('suppliers', None)
                continue
            ds['suppliers'] = [
                annotate_exchange(get_single_reference_product(obj), obj)
                for obj in chosen
            ]
            for exc in ds['suppliers']:
                logger.info({
                    'type': 'table element',
                    'data': (ds['name'], ds['location'], exc['location'])
                })
    return data


def check_no_row_market_groups(data):
    if any(ds['type'] == "market group" and ds['location'] == "RoW" for ds in data):
        raise MarketGroupError("Market groups can't be in `RoW`")
    return data
