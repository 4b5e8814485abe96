"""Are the comparisons of quantities on a path consistent with each other?

Every ``zero`` / ``neg`` test on the path is a linear (in)equality over the
monomials it mentions.  Equalities are eliminated, then the inequalities are
projected away one monomial after the other.  Answers True when in doubt.
"""
from fractions import Fraction
from .terms import is_const, to_poly

LIMIT = 150
_known = {}


def constraint(a):
    if a in _known:
        return _known[a]
    r = None
    if a.op in ('zero', 'neg'):
        r = (a.op, to_poly(a.args[0]))
    elif a.op == 'eq' and is_const(a.args[1]) and isinstance(a.args[1].args[0], (int, float)) \
            and not isinstance(a.args[1].args[0], bool):
        p = dict(to_poly(a.args[0]))
        p[()] = p.get((), Fraction(0)) - Fraction(a.args[1].args[0])
        r = ('eq', p)
    _known[a] = r
    return r


def add(p, q, c):
    r = dict(p)
    for m, k in q.items():
        r[m] = r.get(m, Fraction(0)) + c * k
    return {m: k for m, k in r.items() if k}


def reduce(p, eqs):
    for m, q in eqs:
        k = p.get(m)
        if k:
            p = add(p, q, -k / q[m])
    return p


def equalities(path):
    """triangular system of the equalities on the path, or None if they clash"""
    eqs = []
    for a, v in path.items():
        c = constraint(a)
        if c is None or not v or c[0] == 'neg':
            continue
        p = reduce(dict(c[1]), eqs)
        p = {m: k for m, k in p.items() if k}
        if not p:
            continue
        if list(p) == [()]:
            return None
        m = next(x for x in p if x != ())
        eqs = [(n, reduce(q, [(m, p)])) for n, q in eqs] + [(m, p)]
    return eqs


def constant(p):
    return all(m == () for m in p)


def feasible(ineqs):
    """ineqs: (p, strict) for p < 0 / p <= 0"""
    todo = []
    for p, s in ineqs:
        if constant(p):
            k = p.get((), 0)
            if k > 0 or k == 0 and s:
                return False
        else:
            todo.append((p, s))
    while todo:
        names = {m for p, s in todo for m in p if m != ()}
        m = min(names, key=lambda n: sum(1 for p, s in todo if p.get(n, 0) > 0) * sum(1 for p, s in todo if p.get(n, 0) < 0))
        up = [(p, s) for p, s in todo if p.get(m, 0) > 0]
        lo = [(p, s) for p, s in todo if p.get(m, 0) < 0]
        rest = [(p, s) for p, s in todo if not p.get(m)]
        for p, s in up:
            for q, t in lo:
                r = add({n: k / p[m] for n, k in p.items()}, q, -1 / q[m])
                if constant(r):
                    k = r.get((), 0)
                    if k > 0 or k == 0 and (s or t):
                        return False
                elif (r, s or t) not in rest:
                    rest.append((r, s or t))
        if len(rest) > LIMIT:
            return True
        todo = rest
    return True


def consistent(path):
    cs = [(constraint(a), v) for a, v in path.items()]
    cs = [(c, v) for c, v in cs if c is not None]
    if len(cs) < 2:
        return True
    eqs = equalities(path)
    if eqs is None:
        return False
    ineqs, ne = [], []
    names = set()
    for (op, p), v in cs:
        q = reduce(dict(p), eqs)
        names.update(m for m in q if m != ())
        if op == 'neg':
            ineqs.append((q, True) if v else ({m: -k for m, k in q.items()}, False))
        elif not v and op == 'zero':
            ne.append(q)
    for m in names:
        if len(m) == 1 and m[0][0].op in ('abs', 'count') or all(e % 2 == 0 for t, e in m):
            ineqs.append(({m: Fraction(-1)}, False))
    if any(not q for q in ne):
        return False
    if not feasible(ineqs):
        return False
    for q in ne:
        if len(ineqs) < 2 and constant(q):
            continue
        if not feasible(ineqs + [(q, True)]) and \
                not feasible(ineqs + [({m: -k for m, k in q.items()}, True)]):
            return False
    return True


def same(a, b, path):
    """equal quantities under the equalities of the path"""
    eqs = equalities(path)
    if not eqs:
        return False
    d = add(to_poly(a), to_poly(b), Fraction(-1))
    return not reduce(d, eqs)
