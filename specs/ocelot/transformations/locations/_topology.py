import functools
import json
import os
from constructive_geometries import ConstructiveGeometries

class Topology(object):
    compatibility = [('ASCC', 'US-ASCC'), ('CSG', 'CN-CSG'), ('FRCC', 'US-FRCC'), ('HICC', 'US-HICC'), ('MRO, US only', 'US-MRO'), ('NPCC, US only', 'US-NPCC'), ('RFC', 'US-RFC'), ('SERC', 'US-SERC'), ('SGCC', 'CN-SGCC'), ('SPP', 'US-SPP'), ('TRE', 'US-TRE'), ('WECC, US only', 'US-WECC'), ('IAI Area 2, North America', 'IAI Area, North America'), ('IAI Area 1, Africa', 'IAI Area, Africa'), ('IAI Area 3, South America', 'IAI Area, South America'), ('IAI Area 4&5 without China', 'IAI Area, Asia, without China and GCC'), ('IAI Area 8, Gulf', 'IAI Area, Gulf Cooperation Council'), ('IAI Area 1', 'IAI Area, Africa'), ('IAI Area 2, without Quebec', 'IAI Area, North America, without Quebec'), ('IAI Area 3', 'IAI Area 3, South America'), ('IAI Area 4&5, without China', 'IAI Area, Asia, without China and GCC'), ('IAI Area 8', 'IAI Area, Gulf Cooperation Council'), ('IAI Area, Europe outside EU & EFTA', 'IAI Area, Russia & RER w/o EU27 & EFTA')]

    def __init__(self, size_proxy=None):
        self.size_proxy = size_proxy or self.default_size_proxy
        cg = ConstructiveGeometries()
        data = cg.data
        data['GLO'] = cg.all_faces
        for old, fixed in self.compatibility:
            data[old] = data[fixed]
        self.data = {k: set(v) for k, v in data.items()}

    def default_size_proxy(self, face_id):
        return 1

    def resolve_row(self, others):
        return self('GLO').difference(set.union(*[self(place) for place in others]))

    def contained(self, location, exclude_self=False, subtract=None, resolved_row=None):
        s = lambda x: frozenset(x) if isinstance(x, set) else x
        t = lambda x: tuple(x) if isinstance(x, list) else x
        return self._contained(s(location), exclude_self, t(subtract), s(resolved_row))

    @functools.lru_cache(maxsize=512)
    def _contained(self, location, exclude_self, subtract, resolved_row):
        if location == 'RoW' and resolved_row is None:
            return set()
        elif location == 'RoW':
            faces = resolved_row
        elif isinstance(location, (set, frozenset)):
            faces = location
        else:
            faces = self(location)
        if subtract:
            faces = faces.difference(set.union(*[self(place) for place in subtract]))
        if not faces:
            return set()
        result = {key for key, value in self.data.items() if not value.difference(faces) and (not (key == location and exclude_self))}
        if resolved_row not in (set(), frozenset(), None) and (not resolved_row.difference(faces)) and (not (location == 'RoW' and exclude_self)):
            result.add('RoW')
        elif location == 'GLO' and resolved_row is None and (not subtract):
            result.add('RoW')
        return result

    def contains(self, parent, child, subtract=None, resolved_row=None):
        s = lambda x: frozenset(x) if isinstance(x, set) else x
        t = lambda x: tuple(x) if isinstance(x, list) else x
        return self._contains(s(parent), s(child), t(subtract), s(resolved_row))

    @functools.lru_cache(maxsize=512)
    def _contains(self, parent, child, subtract, resolved_row):
        if isinstance(child, (set, frozenset)):
            if not child:
                return False
            elif parent == 'RoW':
                faces = resolved_row or set()
            elif isinstance(parent, (set, frozenset)):
                faces = parent
            else:
                faces = self(parent)
            if subtract:
                faces = faces.difference(set.union(*[self(place) for place in subtract]))
            return faces.issuperset(child)
        elif parent == 'GLO' and child == 'RoW' and (not subtract):
            return True
        elif child == 'RoW' or (parent == 'RoW' and (not resolved_row)):
            return False
        if parent == 'RoW':
            faces = resolved_row
        elif isinstance(parent, (set, frozenset)):
            faces = parent
        else:
            faces = self(parent)
        if subtract:
            faces = faces.difference(set.union(*[self(place) for place in subtract]))
        return faces.issuperset(self(child))

    def ordered_dependencies(self, datasets, resolved_row=None):
        q = lambda x: tuple(sorted({x['location'] for x in datasets}))
        s = lambda x: frozenset(x) if isinstance(x, set) else x
        return self._ordered_dependencies(q(datasets), s(resolved_row))

    @functools.lru_cache(maxsize=512)
    def _ordered_dependencies(self, locations, resolved_row):
        get_faces = lambda loc: resolved_row if loc == 'RoW' and resolved_row else self(loc)
        size = lambda loc: sum((self.size_proxy(face) for face in get_faces(loc)))
        ordered = sorted(locations, key=lambda k: (size(k), k), reverse=True)
        return ordered

    @functools.lru_cache(maxsize=512)
    def intersected(self, location, exclude_self=False):
        if location in ('GLO', 'RoW'):
            return set()
        faces = self(location)
        return {key for key, value in self.data.items() if value.intersection(faces) and (not (key == location and exclude_self))}

    def intersects(self, parent, child):
        return child in self.intersected(parent)

    def overlaps(self, group):
        if not group:
            return None
        faces = [self(obj) for obj in group]
        return sum((len(o) for o in faces)) != len(set.union(*faces))

    def __call__(self, location):
        if location == 'RoW':
            return set()
        else:
            return self.data[location]
