"""Hash-consed value graph: terms, gated values (multi-terminal decision graphs
over boolean atoms), numeric / string / sequence normal forms.

Nothing in this file (or in the analyser) executes code of the analysed
repository.  A *value* is an ``N``: either a leaf holding a term ``T`` or a gate
``(atom, hi, lo)``; gates come from the control structure of the analysed
source (gated SSA).  Two values are equal when they are the same object, which
makes the graph a global value numbering of the analysed function.
"""
import itertools
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)


class Limit(Exception):
    """Raised when the graph outgrows the analysis budget."""


# ------------------------------------------------------------------ terms

class T(object):
    __slots__ = ('op', 'args', 'id', '_free', '_sub', '_flags')
    table = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id


def _key(a):
    if isinstance(a, (T, N)):
        return a
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, bool):
        return ('b', a)
    if isinstance(a, (int, float, Fraction)):
        return ('n', a)
    return a


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(T.table)
        t._free = None
        t._sub = None
        t._flags = None
        T.table[k] = t
    return t


class N(object):
    __slots__ = ('atom', 'hi', 'lo', 'term', 'id', '_sup', '_free')
    table = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id


BUDGET = [4000000]


def leaf(t):
    assert isinstance(t, T), t
    n = N.table.get(t)
    if n is None:
        n = N()
        n.atom = None
        n.hi = n.lo = None
        n.term = t
        n.id = len(N.table)
        n._sup = None
        n._free = None
        N.table[t] = n
    return n


def gate(atom, hi, lo):
    if hi is lo:
        return hi
    k = (atom, hi, lo)
    n = N.table.get(k)
    if n is None:
        n = N()
        n.atom = atom
        n.hi = hi
        n.lo = lo
        n.term = None
        n.id = len(N.table)
        n._sup = None
        n._free = None
        N.table[k] = n
        if len(N.table) > BUDGET[0]:
            raise Limit('value graph too large')
    return n


def const(v):
    return leaf(mk('const', v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
UNDEF = leaf(mk('undef'))
ZERO = const(0)
ONE = const(1)


def sym(name):
    return leaf(mk('sym', name))


def is_const(t):
    return t.op == 'const'


_ite_cache = {}


def top_atom(*ns):
    best = None
    for n in ns:
        if n.atom is not None and (best is None or n.atom.id < best.id):
            best = n.atom
    return best


def cof(n, atom, val):
    if n.atom is atom:
        return n.hi if val else n.lo
    return n


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    if c.atom is None:
        # non boolean leaf used as a condition
        raise TypeError('non-boolean gate %r' % (c,))
    at = top_atom(c, a, b)
    hi = ite(cof(c, at, True), cof(a, at, True), cof(b, at, True))
    lo = ite(cof(c, at, False), cof(a, at, False), cof(b, at, False))
    r = gate(at, hi, lo)
    _ite_cache[k] = r
    return r


def b_and(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def b_or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def b_not(x):
    return ite(x, FALSE, TRUE)


def atomv(t):
    return gate(t, TRUE, FALSE)


def lift(fn, *vals):
    """Apply ``fn`` (terms -> N) to every combination of leaves."""
    cache = {}

    def rec(vs):
        r = cache.get(vs)
        if r is not None:
            return r
        at = top_atom(*vs)
        if at is None:
            r = fn(*[v.term for v in vs])
        else:
            hi = rec(tuple(cof(v, at, True) for v in vs))
            lo = rec(tuple(cof(v, at, False) for v in vs))
            r = ite(atomv(at), hi, lo)
        cache[vs] = r
        return r
    return rec(tuple(vals))


def leaves(v, cond=TRUE):
    """List of (guard, term) over the leaves of v; guards partition."""
    acc = {}
    order = []

    def rec(n, c):
        if n.atom is None:
            if n.term not in acc:
                acc[n.term] = FALSE
                order.append(n.term)
            acc[n.term] = b_or(acc[n.term], c)
            return
        rec(n.hi, b_and(c, atomv(n.atom)))
        rec(n.lo, b_and(c, b_not(atomv(n.atom))))
    rec(v, TRUE)
    out = []
    for t in order:
        g = b_and(acc[t], cond)
        if cond is not TRUE:
            g = prune(g)
        if g is not FALSE:
            out.append((g, t))
    return out


def leafset(v, acc=None):
    seen = set()
    out = []

    def rec(n):
        if n in seen:
            return
        seen.add(n)
        if n.atom is None:
            out.append(n.term)
        else:
            rec(n.hi)
            rec(n.lo)
    rec(v)
    return out


def support(v):
    if v._sup is not None:
        return v._sup
    if v.atom is None:
        s = frozenset()
    else:
        s = support(v.hi) | support(v.lo) | frozenset((v.atom,))
    v._sup = s
    return s


# ------------------------------------------------------------------ binders
# A bound variable is elem(S, n): a generic element of source term S,
# instance n.  Binding forms:
#   for(S, n, seq)          sum(S, n, V)       exists(S, n, V)
#   firstb(S, n, V)         lastb(S, n, V)     bestb(kind, S, n, V, keyV)
BINDERS = {'for': (0, 1), 'sum': (0, 1), 'exists': (0, 1), 'firstb': (0, 1),
           'lastb': (0, 1), 'bestb': (1, 2), 'pre': (1, 2), 'fold': (0, 1),
           'cntge': None, 'compkey': (0, 1)}


def elem(S, n):
    return mk('elem', S, n)


def binder_of(t):
    ix = BINDERS.get(t.op)
    if ix is None:
        return None
    if ix[0] < len(t.args) and isinstance(t.args[ix[0]], T):
        return elem(t.args[ix[0]], t.args[ix[1]])
    return None


def free(x):
    """Free bound-variable terms (elem / carried) occurring in x."""
    if isinstance(x, N):
        if x._free is None:
            if x.atom is None:
                x._free = free(x.term)
            else:
                x._free = free(x.atom) | free(x.hi) | free(x.lo)
        return x._free
    if isinstance(x, T):
        if x._free is None:
            s = frozenset()
            b = binder_of(x)
            if b is None:
                for a in x.args:
                    if isinstance(a, (T, N, tuple)):
                        s |= free(a)
                if x.op in ('elem', 'carried'):
                    s |= frozenset((x,))
            else:
                ix = BINDERS[x.op][0]
                for i, a in enumerate(x.args):
                    if not isinstance(a, (T, N, tuple)):
                        continue
                    if i == ix:
                        s |= free(a)
                    else:
                        s |= free(a) - frozenset((b,))
            x._free = s
        return x._free
    if isinstance(x, tuple):
        s = frozenset()
        for a in x:
            if isinstance(a, (T, N, tuple)):
                s |= free(a)
        return s
    return frozenset()


def mentions(x, var):
    return var in free(x)


def subterms(x, acc=None):
    """Set of all subterms (T) of x."""
    acc = set() if acc is None else acc
    stack = [x]
    seenN = set()
    while stack:
        y = stack.pop()
        if isinstance(y, N):
            if y in seenN:
                continue
            seenN.add(y)
            if y.atom is None:
                stack.append(y.term)
            else:
                stack.extend((y.atom, y.hi, y.lo))
        elif isinstance(y, T):
            if y in acc:
                continue
            acc.add(y)
            stack.extend(y.args)
        elif isinstance(y, tuple):
            stack.extend(y)
    return acc


# ------------------------------------------------------------------ subst

REBUILD = {}


def rebuild(op):
    def deco(fn):
        REBUILD[op] = fn
        return fn
    return deco


def subst(x, m, memo=None):
    """Substitute terms by values (N).  ``m``: dict T -> N."""
    if not m:
        return x
    keys = frozenset(m)
    if memo is None:
        if not _needs(x, keys):
            return _subst(x, m, keys, {})
        mk_ = frozenset(m.items())
        memo = _submemo.get(mk_)
        if memo is None:
            memo = _submemo[mk_] = {}
    return _subst(x, m, keys, memo)


_submemo = {}


def _needs(x, keys):
    f = free(x)
    if f & keys:
        return True
    extra = [k for k in keys if k.op not in ('elem', 'carried')]
    if extra:
        st = subterms(x)
        return any(k in st for k in extra)
    return False


def _subst(x, m, keys, memo):
    if isinstance(x, N):
        r = memo.get(x)
        if r is not None:
            return r
        if not _needs(x, keys):
            r = x
        elif x.atom is None:
            r = _subst(x.term, m, keys, memo)
            if not isinstance(r, N):
                r = leaf(r)
        else:
            c = _subst(x.atom, m, keys, memo)
            if isinstance(c, T):
                c = atomv(c)
            r = ite(c, _subst(x.hi, m, keys, memo), _subst(x.lo, m, keys, memo))
        memo[x] = r
        return r
    if isinstance(x, T):
        if x in m:
            return m[x]
        if not _needs(x, keys):
            return leaf(x) if not is_bool_atom(x) else atomv(x)
        k = (x, 't')
        r = memo.get(k)
        if r is not None:
            return r
        b = binder_of(x)
        if b is not None:
            r = _subst_binder(x, b, m, keys, memo)
        else:
            args = []
            for a in x.args:
                if isinstance(a, (T, N)):
                    s = _subst(a, m, keys, memo)
                    args.append(s)
                elif isinstance(a, tuple):
                    args.append(tuple(
                        _subst(y, m, keys, memo) if isinstance(y, (T, N)) else
                        _subst_deep(y, m, keys, memo) if isinstance(y, tuple) else y
                        for y in a))
                else:
                    args.append(a)
            r = reconstruct(x.op, args, x)
        memo[k] = r
        return r
    return x


def _subst_deep(x, m, keys, memo):
    """substitution inside (nested) tuples; positions keep their kind"""
    if isinstance(x, tuple):
        return tuple(_subst_deep(y, m, keys, memo) for y in x)
    if isinstance(x, T):
        s = _subst(x, m, keys, memo)
        return s.term if isinstance(s, N) and s.atom is None else s
    if isinstance(x, N):
        return _subst(x, m, keys, memo)
    return x


_fresh = [1000]


class Captured(Exception):
    pass


def _subst_binder(x, b, m, keys, memo):
    ix = BINDERS[x.op][0]
    nx = BINDERS[x.op][1]
    S2 = _subst(x.args[ix], m, keys, memo)
    m2 = {k: v for k, v in m.items() if k is not b}

    conflict = set()
    fx = free(x)
    inner = False       # something that mentions the bound variable is replaced
    for k, v in m2.items():
        if k in fx:
            conflict |= free(v)
        elif k.op not in ('elem', 'carried'):
            if b in free(k):
                inner = True
                conflict |= free(v) - {b}
            else:
                conflict |= free(v)
    conflict |= fx - keys

    def build(St):
        # smallest instance number that captures nothing
        bn = 0
        while elem(St, bn) in conflict:
            bn += 1
        if inner:
            if St is not b.args[0] or b in conflict:
                raise Captured()
            bn = b.args[1]
        nb = elem(St, bn)
        args = list(x.args)
        args[ix] = St
        args[nx] = bn
        if nb is b and b not in m:
            mm, keys2, memo2 = m, keys, memo
        else:
            bf = frozenset()
            for i, a in enumerate(x.args):
                if i != ix and isinstance(a, (T, N, tuple)):
                    bf |= free(a)
            mm = {k: v for k, v in m2.items() if k in bf or k.op not in ('elem', 'carried')}
            if nb is not b and b in bf:
                mm[b] = leaf(nb)
            keys2 = frozenset(mm)
            mk_ = frozenset(mm.items())
            memo2 = _submemo.get(mk_)
            if memo2 is None:
                memo2 = _submemo[mk_] = {}
        for i, a in enumerate(x.args):
            if i in (ix, nx):
                continue
            if isinstance(a, (T, N)):
                s = _subst(a, mm, keys2, memo2)
                if isinstance(a, T) and isinstance(s, N) and s.atom is None:
                    s = s.term
                args[i] = s
            elif isinstance(a, tuple):
                args[i] = _subst_deep(a, mm, keys2, memo2)
        if x.op == 'pre' and isinstance(args[0], N):
            return lift(lambda a: close(x.op, [a] + args[1:]), args[0])
        return close(x.op, args)
    return lift(build, S2)


def close(op, args, plain=False):
    """Build a binding term, renumbering its binder canonically."""
    ix, nx = BINDERS[op]
    S, n = args[ix], args[nx]
    b = elem(S, n)
    used = set()
    for i, a in enumerate(args):
        if i in (ix, nx):
            continue
        for f in free(a):
            if f is not b and f.op == 'elem' and f.args[0] is S:
                used.add(f.args[1])
    for f in free(S):
        if f.op == 'elem' and f.args[0] is S:
            used.add(f.args[1])
    k = 0
    while k in used:
        k += 1
    if k != n:
        nb = elem(S, k)
        args = list(args)
        for i, a in enumerate(args):
            if i in (ix, nx):
                continue
            if isinstance(a, (T, N)):
                s = subst(a, {b: leaf(nb)})
                if isinstance(a, T) and isinstance(s, N) and s.atom is None:
                    s = s.term
                args[i] = s
            elif isinstance(a, tuple):
                mm = {b: leaf(nb)}
                args[i] = _subst_deep(a, mm, frozenset(mm), {})
        args[nx] = k
    f = REBUILD.get(op)
    if f is not None and not plain:
        return f(*args)
    t = mk(op, *args)
    if plain:
        return t
    return atomv(t) if is_bool_atom(t) else leaf(t)


# binding forms whose term is a boolean atom
BOOL_OPS = {'eq', 'zero', 'neg', 'has', 'truthy', 'exists', 'cntge', 'is', 'in',
            'instr', 'isinst', 'valeq', 'lt', 'pre', 'pred', 'ucond', 'startswith', 'endswith'}


def is_bool_atom(t):
    return t.op in BOOL_OPS


def reconstruct(op, args, orig):
    """Rebuild a strict (non binding) term from substituted args."""
    f = REBUILD.get(op)
    # nested (lazy) positions keep N; strict positions hold T in the original
    pos = [i for i, a in enumerate(orig.args) if isinstance(a, T)]
    tup = {}
    for i, a in enumerate(orig.args):
        if isinstance(a, tuple):
            for j, y in enumerate(a):
                if isinstance(y, T):
                    tup[(i, j)] = None
    strict = [leaf(args[i]) if isinstance(args[i], T) else args[i] for i in pos]
    tpos = list(tup)
    for (i, j) in tpos:
        y = args[i][j]
        strict.append(leaf(y) if isinstance(y, T) else y)

    def fn(*ts):
        a2 = list(args)
        for p, t in zip(pos, ts):
            a2[p] = t
        tl = {i: list(a2[i]) for (i, j) in tpos}
        for (i, j), t in zip(tpos, ts[len(pos):]):
            tl[i][j] = t
        for i in tl:
            a2[i] = tuple(tl[i])
        if f is not None:
            return f(*a2)
        t = mk(op, *a2)
        return atomv(t) if is_bool_atom(t) else leaf(t)
    return lift(fn, *strict)


# ------------------------------------------------------------------ theory

def infeasible(assign, atom, val):
    """Is ``atom=val`` contradictory with the assignment (dict atom->bool)?"""
    op = atom.op
    if op == 'eq':
        x, c = atom.args
        for a, v in assign.items():
            if a.op == 'eq' and a.args[0] is x and v and val and a is not atom:
                if is_const(a.args[1]) and is_const(c):
                    return True
            if a.op == 'truthy' and a.args[0] is x and is_const(c) and val:
                if bool(c.args[0]) != v:
                    return True
            if a.op == 'zero' and a.args[0] is x and is_const(c) and val and v and \
                    (not isinstance(c.args[0], (int, float)) or c.args[0] != 0):
                return True
            if a.op == 'startswith' or a.op == 'endswith' or a.op == 'instr':
                pass
    elif op == 'truthy':
        x = atom.args[0]
        for a, v in assign.items():
            if a.op == 'eq' and a.args[0] is x and v and is_const(a.args[1]):
                if bool(a.args[1].args[0]) != val:
                    return True
    elif op == 'zero':
        if val:
            for a, v in assign.items():
                if v and a.op == 'neg' and a.args[0] is atom.args[0]:
                    return True
                if v and a.op == 'eq' and a.args[0] is atom.args[0] and is_const(a.args[1]) \
                        and (not isinstance(a.args[1].args[0], (int, float))
                             or a.args[1].args[0] != 0):
                    return True
    elif op == 'neg':
        if val:
            for a, v in assign.items():
                if v and a.op == 'zero' and a.args[0] is atom.args[0]:
                    return True
    elif op == 'cntge':
        k, s = atom.args
        for a, v in assign.items():
            if a.op == 'cntge' and a.args[1] is s:
                if v and not val and a.args[0] >= k:
                    return True
                if not v and val and a.args[0] <= k:
                    return True
            if a.op == 'exists' and k >= 2:
                ex = exists_seq_cached(s)
                if ex is not None and ex.atom is a and ex.hi is TRUE and ex.lo is FALSE:
                    if val and not v:
                        return True
    elif op == 'exists':
        S, n, g = atom.args
        for a, v in assign.items():
            if a.op == 'exists' and a is not atom and a.args[0] is S and v != val:
                if a.args[1] == n:
                    if v and implies(a.args[2], g):
                        return True
                    if val and implies(g, a.args[2]):
                        return True
            if a.op == 'cntge' and v and not val:
                ex = exists_seq_cached(a.args[1])
                if ex is not None and ex.atom is atom and ex.hi is TRUE and ex.lo is FALSE:
                    return True
        if not one_of(assign, atom, val):
            return True
    if out_of_bounds(assign, atom, val):
        return True
    # facts carried by selected elements
    d = derived(atom)
    if d is not None and d != val:
        return True
    for o, G in selected_facts(atom):
        if not may_hold(G, assign, atom, val):
            return True
    return False


_one_of = {}


def one_of(assign, atom, val):
    """the elements said to exist may have none of what is said not to"""
    S, n, g = atom.args
    yes, no = ([g], []) if val else ([], [g])
    for a, v in assign.items():
        if a.op == 'exists' and a is not atom and a.args[0] is S and a.args[1] == n:
            (yes if v else no).append(a.args[2])
    if not yes or len(no) < 2:
        return True
    for y in yes:
        k = (y, frozenset(no))
        if k not in _one_of:
            r = y
            for x in no:
                r = b_and(r, b_not(x))
            _one_of[k] = prune(r) is not FALSE
        if not _one_of[k]:
            return False
    return True


_line = {}


def line(atom):
    """(H, kind, c): the atom says H == c ('='), H < c ('<') or that H is
    something else than a number ('x'); None if it is not about a number."""
    r = _line.get(atom, 0)
    if r == 0:
        r = None
        if atom.op in ('zero', 'neg'):
            p = to_poly(atom.args[0])
            k = p.pop((), Fraction(0))
            if p:
                r = (from_poly(p), '=' if atom.op == 'zero' else '<', -k)
        elif atom.op == 'eq' and is_const(atom.args[1]):
            c = atom.args[1].args[0]
            if isinstance(c, (int, float)) and c == c and c not in (float('inf'), float('-inf')):
                r = (atom.args[0], '=', Fraction(c))
            elif c is None or isinstance(c, str):
                r = (atom.args[0], 'x', None)
        _line[atom] = r
    return r


def out_of_bounds(assign, atom, val):
    """the comparisons of one quantity with constants contradict each other"""
    me = line(atom)
    if me is None:
        return False
    hs = [me[0]]
    if atom.op == 'zero':
        for a in assign:
            l = line(a)
            if l is not None and l[0].op == 'abs' and l[0].args[0] is atom.args[0] and l[0] not in hs:
                hs.append(l[0])
    for H in hs:
        lo = hi = None          # (value, strict)
        eq, ne = [], []
        other = number = False
        n = 0
        for a in itertools.chain(assign, (atom,)):
            v = val if a is atom else assign[a]
            l = line(a)
            if l is None:
                continue
            if l[0] is H:
                n += 1
                if l[1] == 'x':
                    other = other or v
                elif l[1] == '=':
                    (eq if v else ne).append(l[2])
                elif v:
                    if hi is None or l[2] <= hi[0]:
                        hi = (l[2], True)
                else:
                    if lo is None or l[2] > lo[0]:
                        lo = (l[2], False)
            elif H.op == 'abs' and a.op == 'zero' and a.args[0] is H.args[0]:
                n += 1
                (eq if v else ne).append(Fraction(0))
        if H.op in ('abs', 'count'):
            n += 1
            if lo is None or lo[0] < 0:
                lo = (Fraction(0), False)
        if n < 2:
            continue
        if other:
            if eq:
                return True
            continue
        if eq:
            x = eq[0]
            if any(y != x for y in eq) or x in ne:
                return True
            if lo is not None and x < lo[0] or hi is not None and x >= hi[0]:
                return True
        elif lo is not None and hi is not None:
            if lo[0] >= hi[0]:
                return True
    return False


_sel_facts = {}


def selected_facts(atom):
    """[(o, G)]: selected objects the atom is about, with the guard they
    satisfy, where the atom is one of the tests of that guard."""
    r = _sel_facts.get(atom)
    if r is None:
        if _deriving:
            return ()
        r = []
        _sel_facts[atom] = ()
        if atom.op != 'pre':
            for o in subterms(atom):
                if o.op in ('firstb', 'lastb'):
                    S, n, g = o.args[0], o.args[1], o.args[2]
                elif o.op == 'bestb':
                    S, n, g = o.args[1], o.args[2], o.args[3]
                else:
                    continue
                if g.atom is None or elem(S, n) in free(atom):
                    continue
                G = subst(g, {elem(S, n): leaf(o)})
                su = support(G)
                if atom in su and len(su) > 1:
                    r.append((o, G))
        _sel_facts[atom] = r = tuple(r)
    return r


def may_hold(G, assign, atom, val):
    todo, seen = [G], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.atom is None:
            if n is TRUE:
                return True
            continue
        v = val if n.atom is atom else assign.get(n.atom)
        if v is not False:
            todo.append(n.hi)
        if v is not True:
            todo.append(n.lo)
    return False


_ex_cache = {}


def exists_seq_cached(s):
    if s not in _ex_cache:
        _ex_cache[s] = None
        try:
            _ex_cache[s] = s_exists(s)
        except Exception:
            pass
    return _ex_cache[s]


_derived = {}
_deriving = set()


def derived(atom):
    """Truth value of an atom that follows from the defining guard of a
    selected element (firstb / lastb / bestb) it mentions, or None."""
    if atom in _derived:
        return _derived[atom]
    if _deriving:
        return None
    _deriving.add(atom)
    try:
        res = None
        for o in subterms(atom):
            if o is atom:
                continue
            if o.op in ('firstb', 'lastb'):
                S, n, g = o.args[0], o.args[1], o.args[2]
            elif o.op == 'bestb':
                S, n, g = o.args[1], o.args[2], o.args[3]
            else:
                continue
            if atom.op == 'pre' or (atom.op == 'is' and o not in atom.args):
                continue
            if elem(S, n) in free(atom):
                continue
            G = subst(g, {elem(S, n): leaf(o)})
            if support(G) and atom in support(G):
                if prune(b_and(G, atomv(atom))) is FALSE:
                    res = False
                    break
                if prune(b_and(G, b_not(atomv(atom)))) is FALSE:
                    res = True
                    break
            elif any(related(atom, a) for a in support(G)):
                if prune(b_and(G, atomv(atom))) is FALSE:
                    res = False
                    break
                if prune(b_and(G, b_not(atomv(atom)))) is FALSE:
                    res = True
                    break
        _derived[atom] = res
        return res
    finally:
        _deriving.discard(atom)


def related(a, b):
    if a.op in ('eq', 'truthy', 'zero', 'neg') and b.op in ('eq', 'truthy', 'zero', 'neg'):
        return a.args[0] is b.args[0]
    return False


_gkey = {}
_groups = {}
_groups_d = {}


def gkey(a):
    """theory classes an atom belongs to (atoms of different classes are
    independent)"""
    r = _gkey.get(a)
    if r is None:
        if a.op in ('eq', 'truthy', 'zero', 'neg'):
            r = frozenset((a.args[0],))
            l = line(a)
            if l is not None:
                r |= frozenset((l[0],) if l[0].op != 'abs' else (l[0], l[0].args[0]))
        elif a.op == 'exists':
            r = frozenset((('q', a.args[0]),))
        elif a.op == 'cntge':
            r = frozenset(('q', it.args[0]) for it in a.args[1].args if it.op == 'for')
            r |= frozenset((('c', a.args[1]),))
        else:
            r = frozenset()
        if not _deriving:
            sf = selected_facts(a)
            if sf:
                r = r | frozenset(('s', o) for o, _ in sf)
            _gkey[a] = r
    return r


def groups(n):
    cache = _groups_d if _deriving else _groups
    r = cache.get(n)
    if r is None:
        if n.atom is None:
            r = frozenset()
        else:
            r = gkey(n.atom) | groups(n.hi) | groups(n.lo)
        cache[n] = r
    return r


_prune_caches = ({}, {})


def prune(v):
    """Drop gates that are contradictory with the gates above them."""
    _prune_cache = _prune_caches[1 if _deriving else 0]
    r = _prune_cache.get(v)
    if r is not None:
        return r

    memo = {}

    def rec(n, assign):
        if n.atom is None:
            return n
        a = n.atom
        k = None
        if assign:
            gs = groups(n)
            k = (n, frozenset((x, y) for x, y in assign.items() if gkey(x) & gs))
            r = memo.get(k)
            if r is not None:
                return r
        if infeasible(assign, a, True):
            r = rec(n.lo, assign)
        elif infeasible(assign, a, False):
            r = rec(n.hi, assign)
        else:
            assign[a] = True
            hi = rec(n.hi, assign)
            assign[a] = False
            lo = rec(n.lo, assign)
            r = None
            if hi is not lo and gkey(a):
                # the test is redundant if the other tests already settle it
                g = gkey(a)
                if hi.atom is not None and g & groups(hi) and rec(hi, assign) is lo:
                    r = hi
                elif lo.atom is not None and g & groups(lo):
                    assign[a] = True
                    if rec(lo, assign) is hi:
                        r = lo
            del assign[a]
            if r is None:
                r = gate(a, hi, lo)
        if k is not None:
            memo[k] = r
        return r
    r = rec(v, {})
    _prune_cache[v] = r
    _prune_cache.setdefault(r, r)
    return r


def sat(g):
    return prune(g) is not FALSE


def implies(a, b):
    return prune(b_and(a, b_not(b))) is FALSE


def under(v, pc):
    """v where pc holds, UNDEF elsewhere (canonical)."""
    return prune(ite(pc, v, UNDEF))


def simp(v, pc):
    """Some value equal to v wherever pc holds, with tests decided by pc gone."""
    if pc is TRUE or v.atom is None:
        return v
    cache = {}

    def rec(n, p):
        if n.atom is None:
            return n
        k = (n, p)
        if k in cache:
            return cache[k]
        at = top_atom(n, p)
        p1, p0 = cof(p, at, True), cof(p, at, False)
        if p1 is FALSE:
            r = rec(cof(n, at, False), p0)
        elif p0 is FALSE:
            r = rec(cof(n, at, True), p1)
        elif n.atom is at:
            r = gate(at, rec(n.hi, p1), rec(n.lo, p0))
        else:
            r = rec(n, b_or(p1, p0))
        cache[k] = r
        return r
    return rec(v, pc)


# ------------------------------------------------------------------ booleans

def v_eq_terms(a, b):
    """Equality of two leaf terms as a boolean value."""
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        x, y = a.args[0], b.args[0]
        return TRUE if x == y else FALSE
    if a.op in ('undef',) or b.op in ('undef',):
        return FALSE
    if is_const(a):
        a, b = b, a
    if a.op in ('tuple',) and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = b_and(r, v_eq(x, y))
        return r
    if is_const(b) and b.args[0] is None and not maybe_none(a):
        return FALSE
    if is_const(b) and isinstance(b.args[0], (int, float)) and not isinstance(b.args[0], bool):
        return sign_zero(num_sub(leaf(a), leaf(b)))
    if numericish(a) or numericish(b):
        if not is_const(b) and not is_const(a):
            return sign_zero(num_sub(leaf(a), leaf(b)))
    if is_const(b) and isinstance(b.args[0], bool) and is_bool_valued(a):
        return atomv(mk('truthy', a)) if b.args[0] else b_not(atomv(mk('truthy', a)))
    if is_const(b) and isinstance(b.args[0], str) and is_seqish(a):
        return FALSE
    if is_const(b) or is_const(a):
        return atomv(mk('eq', a, b))
    if a.op == 'seq' and b.op == 'seq':
        r = seq_eq(a, b)
        if r is not None:
            return r
    if a is EMPTY or b is EMPTY:
        # equal to an empty collection: an empty collection
        x = b if a is EMPTY else a
        if x.op in ('sym', 'field', 'call', 'mcall', 'setop'):
            return b_and(b_not(truthy(leaf(x))), b_not(v_eq(leaf(x), NONE)))
    if a.op == 'seq' or b.op == 'seq':
        x, y = sorted((a, b), key=lambda t: t.id)
        return atomv(mk('valeq', x, y))
    x, y = sorted((strip_copy(a), strip_copy(b)), key=skey)
    if x is y:
        return TRUE
    return atomv(mk('eq', x, y))


def skey(t):
    return t.id


def seq_eq(a, b):
    if len(a.args) == 0 or len(b.args) == 0:
        other = b if len(a.args) == 0 else a
        return b_not(s_exists(other))
    # one side a literal of length k, other side generic: count plus element tests
    la, lb = literal_items(a), literal_items(b)
    if la is not None and lb is not None:
        if len(la) != len(lb):
            return FALSE
        r = TRUE
        for x, y in zip(la, lb):
            r = b_and(r, v_eq(x, y))
        return r
    if la is None and lb is not None:
        a, b, la, lb = b, a, lb, la
    if la is not None and len(la) == 1:
        one = b_and(s_cntge(b, 1), b_not(s_cntge(b, 2)))
        return b_and(one, v_eq(s_first(b), la[0]))
    return None


def literal_items(s):
    out = []
    for it in s.args:
        if it.op != 'unit' or it.args[0] is not TRUE:
            return None
        out.append(it.args[1])
    return out


def maybe_none(t):
    if t.op in ('seq', 'tuple', 'poly', 'sum', 'alloc', 'cat', 'dictv', 'dc', 'func',
                'elem', 'firstb', 'lastb', 'class', 'path', 'fmt', 'str', 'slot'):
        return False
    return True


def is_seqish(t):
    return t.op in ('seq', 'tuple', 'alloc')


def is_bool_valued(t):
    return False


def strip_copy(t):
    while t.op == 'dc':
        t = t.args[0]
    return t


def v_eq(a, b):
    return lift(v_eq_terms, a, b)


# numeric keys known to hold numbers (schema of the data format)
NUM_KEYS = {'amount', 'mean', 'variance', 'mu', 'minimum', 'maximum', 'standard deviation 95%',
            'mode', 'original amount', 'subtracted activity link volume', 'original total',
            'variance with pedigree uncertainty', 'most likely value', 'activity link amount',
            'temporal correlation'}
NUM_SYMS = {'factor', 'allocation_factor', 'epsilon'}
LIST_KEYS = {'exchanges', 'parameters', 'properties', 'suppliers', 'production volumes'}
DICT_KEYS = {'production volume', 'uncertainty', 'pedigree matrix', 'dataset author', 'data entry'}
CONTAINER_KEYS = LIST_KEYS | DICT_KEYS


def numericish(t):
    if t.op in ('poly', 'sum', 'num', 'count', 'min', 'max', 'abs', 'numfn', 'idx'):
        return True
    if t.op == 'const':
        return isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)
    if t.op == 'field' and isinstance(t.args[1], str) and t.args[1] in NUM_KEYS:
        return True
    if t.op == 'sym' and t.args[0] in NUM_SYMS:
        return True
    return False


@rebuild('eq')
def _eq(a, b):
    return v_eq_terms(a, b)


@rebuild('valeq')
def _valeq(a, b):
    return v_eq_terms(a, b)


def peel(x):
    return x.term if isinstance(x, N) and x.atom is None else x


def truthy_term(t):
    if is_const(t):
        try:
            return TRUE if t.args[0] else FALSE
        except Exception:
            return TRUE
    if t.op == 'undef':
        return FALSE
    if t.op == 'seq':
        return s_exists(t)
    if t.op == 'tuple':
        return TRUE if t.args else FALSE
    if t.op == 'dictv':
        return TRUE if t.args else atomv(mk('truthy', t))
    if t.op in ('elem', 'func', 'class', 'module'):
        # elements of a list of datasets/exchanges: non-empty records
        return TRUE if t.op != 'elem' else atomv(mk('truthy', t))
    if t.op == 'count':
        return s_cntge(t.args[0], 1)
    if t.op == 'mcall' and t.args[0] == 'count' and len(t.args) == 3 and is_const(peel(t.args[2])) and \
            isinstance(peel(t.args[2]).args[0], str):
        return TRUE     # only used where the text occurs
    if numericish(t):
        return b_not(sign_zero(leaf(t)))
    if t.op == 'boolv':
        return t.args[0]
    if t.op == 'field' and t.args[1] in LIST_KEYS:
        return s_exists(seq_of_base(t))
    if t.op == 'cat' and any(is_const(p) and p.args[0] for p in t.args):
        return TRUE
    if t.op in ('lambda', 'partial'):
        return TRUE
    return atomv(mk('truthy', t))


def truthy(v):
    return lift(truthy_term, v)


@rebuild('truthy')
def _truthy(t):
    return truthy_term(t)


# ------------------------------------------------------------------ numbers
# poly: tuple of (mono, coef); mono: tuple of (term, exp) sorted by term id.

def to_poly(t):
    """leaf term -> dict mono->Fraction"""
    if is_const(t):
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)):
            if v != v or v in (float('inf'), float('-inf')):
                return {((t, 1),): Fraction(1)}
            return {(): Fraction(v)} if v != 0 else {}
        return {((t, 1),): Fraction(1)}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return mk('const', 0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk('const', numconst(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda kv: (tuple((t.id, e) for t, e in kv[0]), kv[1])))
    return mk('poly', items)


def numconst(c):
    if c.denominator == 1:
        return int(c)
    return float(c)


def mono_mul(a, b):
    d = {}
    for t, e in a:
        d[t] = d.get(t, 0) + e
    for t, e in b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda x: x[0].id))


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    # expand positive powers of polynomial atoms is unnecessary: atoms of op
    # 'den' only ever have negative exponents or cancel
    out = {}
    for m, c in r.items():
        out = p_add(out, expand(m, c))
    return out


def expand(m, c):
    """den-atoms with positive exponent are expanded back to polynomials."""
    base = {(): Fraction(c)}
    rest = []
    extra = []
    for t, e in m:
        if t.op == 'den' and e > 0:
            extra.append((dict(t.args[0]), e))
        else:
            rest.append((t, e))
    base = {tuple(rest): Fraction(c)}
    for p, e in extra:
        for _ in range(e):
            nb = {}
            for m1, c1 in base.items():
                for m2, c2 in p.items():
                    mm = mono_mul(m1, m2)
                    nb[mm] = nb.get(mm, 0) + c1 * c2
            base = nb
    return base


def p_inv(p):
    if not p:
        return None
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((t, -e) for t, e in m): 1 / c}
    # common monomial factor
    items = sorted(p.items(), key=lambda kv: tuple((t.id, e) for t, e in kv[0]))
    common = None
    for m, c in items:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            common = {t: min(e, d[t]) for t, e in common.items() if t in d and d[t] * e > 0}
    cm = tuple(sorted(((t, e) for t, e in common.items()), key=lambda x: x[0].id)) if common else ()
    inv = tuple((t, -e) for t, e in cm)
    q = {mono_mul(m, inv): c for m, c in items}
    lead = sorted(q.items(), key=lambda kv: tuple((t.id, e) for t, e in kv[0]))[0][1]
    q = {m: c / lead for m, c in q.items()}
    qi = tuple(sorted(q.items(), key=lambda kv: (tuple((t.id, e) for t, e in kv[0]), kv[1])))
    den = mk('den', qi)
    return {mono_mul(inv, ((den, -1),)): 1 / lead}


def num_bin(op, a, b):
    def fn(x, y):
        if x.op == 'undef' or y.op == 'undef':
            return UNDEF
        px, py = to_poly(x), to_poly(y)
        if op == '+':
            return leaf(from_poly(p_add(px, py)))
        if op == '-':
            return leaf(from_poly(p_add(px, py, -1)))
        if op == '*':
            return leaf(from_poly(p_mul(px, py)))
        if op == '/':
            inv = p_inv(py)
            if inv is None:
                return leaf(mk('numfn', 'div0', x))
            if len(py) > 1 and len(px) == len(py) and set(px) == set(py):
                ks = [px[m] / py[m] for m in px]
                if all(k == ks[0] for k in ks):
                    return leaf(from_poly({(): ks[0]}))
            return leaf(from_poly(p_mul(px, inv)))
        raise ValueError(op)
    return lift(fn, a, b)


def num_sub(a, b):
    return num_bin('-', a, b)


@rebuild('poly')
def _poly(items):
    # items: tuple of ((mono), coef) – substitution inside handled below
    return leaf(mk('poly', items))


def subst_poly(t, m, keys, memo):
    acc = ZERO
    for mono, c in t.args[0]:
        v = const(numconst(c)) if c.denominator == 1 else leaf(from_poly({(): c}))
        v = leaf(from_poly({(): c}))
        for tt, e in mono:
            s = _subst(tt, m, keys, memo)
            if isinstance(s, T):
                s = leaf(s)
            s = boolnum(s)
            for _ in range(abs(e)):
                v = num_bin('*' if e > 0 else '/', v, s)
        acc = num_bin('+', acc, v)
    return acc


def boolnum(v):
    return v


_old_subst = _subst


def _subst(x, m, keys, memo):  # noqa: F811  (polynomials need their own descent)
    if isinstance(x, T) and x.op in ('poly', 'den'):
        if x in m:
            return m[x]
        if not _needs(x, keys):
            return leaf(x)
        return subst_poly(x, m, keys, memo)
    return _old_subst(x, m, keys, memo)


def _free_poly(items):
    s = frozenset()
    for mono, c in items:
        for t, e in mono:
            s |= free(t)
    return s


def sign_norm(p):
    """canonical positive-scaled polynomial and the sign flip applied"""
    items = sorted(p.items(), key=lambda kv: tuple((t.id, e) for t, e in kv[0]))
    lead = None
    for m, c in items:
        if m != ():
            lead = c
            break
    if lead is None:
        lead = items[0][1]
    flip = lead < 0
    s = abs(lead)
    q = {m: (c / s) * (-1 if flip else 1) for m, c in items}
    return from_poly(q), flip


def sign_zero(v):
    def fn(t):
        p = to_poly(t)
        if not p:
            return TRUE
        if list(p) == [()]:
            return FALSE
        c = count_cmp(p)
        if c is not None:
            return c('==')
        if len(p) == 1:
            # product: zero iff some positive-exponent factor is zero
            (m, _c), = p.items()
            if all(e > 0 for _, e in m) and len(m) >= 1:
                r = FALSE
                for tt, _e in m:
                    if tt.op == 'abs':
                        r = b_or(r, sign_zero(leaf(tt.args[0])))
                    elif tt.op == 'const':
                        pass
                    else:
                        r = b_or(r, atomv(mk('zero', tt)))
                return r
            r = FALSE
            for tt, e in m:
                if e > 0:
                    r = b_or(r, sign_zero(leaf(tt)))
            return r
        m, rest = common_factor(p)
        if m:
            r = sign_zero(leaf(rest))
            for tt, e in m:
                if e > 0:
                    r = b_or(r, sign_zero(leaf(tt)))
            return r
        q, _f = sign_norm(p)
        return atomv(mk('zero', q))
    return lift(fn, v)


def common_factor(p):
    """(monomial, other factor) of a polynomial without constant"""
    com = None
    for m in p:
        d = dict(m)
        com = d if com is None else {t: (min(e, d[t]) if e > 0 else max(e, d[t]))
                                     for t, e in com.items() if t in d and (d[t] > 0) == (e > 0)}
        if not com:
            return (), None
    com = tuple(sorted(((t, e) for t, e in com.items() if t.op != 'const'), key=lambda x: x[0].id))
    if not com or len(p) == 1 and len(com) == 1 and abs(com[0][1]) == 1 and len(next(iter(p))) == 1:
        return (), None
    inv = tuple((t, -e) for t, e in com)
    return com, from_poly({mono_mul(m, inv): c for m, c in p.items()})


def product_sign(m, rest):
    """the product of the monomial and the rest is negative"""
    neg, pos = sign_neg(leaf(rest)), None
    pos = b_and(b_not(neg), b_not(sign_zero(leaf(rest))))
    for t, e in m:
        z = b_not(sign_zero(leaf(t)))
        if e % 2 == 0:
            neg, pos = b_and(neg, z), b_and(pos, z)
            continue
        n = sign_neg(leaf(t))
        q = b_and(b_not(n), z)
        neg, pos = b_or(b_and(neg, q), b_and(pos, n)), b_or(b_and(neg, n), b_and(pos, q))
    return prune(neg)


def sign_neg(v):
    """v < 0"""
    def fn(t):
        p = to_poly(t)
        if not p:
            return FALSE
        if list(p) == [()]:
            return TRUE if p[()] < 0 else FALSE
        c = count_cmp(p)
        if c is not None:
            return c('<')
        if t.op == 'abs':
            return FALSE
        c = deduped(p)
        if c is not None:
            # a set has at most as many elements as what it was made from
            return b_not(sign_zero(leaf(t))) if c > 0 else FALSE
        m, rest = common_factor(p)
        if m:
            return product_sign(m, rest)
        q, f = sign_norm(p)
        if q.op == 'abs':
            n = FALSE
        else:
            n = atomv(mk('neg', q))
        if not f:
            return n
        return b_and(b_not(n), b_not(sign_zero(leaf(q))))
    return lift(fn, v)


def count_cmp(p):
    """p = c*count(seq) + k  compared with 0, decided through cntge atoms."""
    cnt = None
    k = Fraction(0)
    coef = None
    for m, c in p.items():
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'count':
            if cnt is not None:
                return None
            cnt = m[0][0]
            coef = c
        else:
            return None
    if cnt is None:
        return None
    thr = -k / coef   # count == thr at zero

    def f(op):
        import math
        s = cnt.args[0]
        if op == '==':
            if thr.denominator != 1 or thr < 0:
                return FALSE
            n = int(thr)
            return b_and(s_cntge(s, n), b_not(s_cntge(s, n + 1)))
        # '<' 0
        if coef > 0:   # count < thr
            n = math.ceil(thr)
            return b_not(s_cntge(s, n))
        n = math.floor(thr) + 1   # count > thr
        return s_cntge(s, n)
    return f


def deduped(p):
    """c for c*(count(set of B) - count(B))"""
    if len(p) != 2 or any(len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'count' for m in p):
        return None
    (m1, c1), (m2, c2) = p.items()
    if c1 != -c2:
        return None
    for x, y, c in ((m1, m2, c1), (m2, m1, c2)):
        a = x[0][0].args[0]
        if len(a.args) == 1 and a.args[0].op == 'ord' and tag_dedupes(a.args[0].args[0]) and \
                a.args[0].args[1].op == 'seq' and count_canon(a.args[0].args[1]) is y[0][0].args[0]:
            return c
    return None


def v_lt(a, b):
    def fn(x, y):
        if is_const(x) and is_const(y):
            try:
                return TRUE if x.args[0] < y.args[0] else FALSE
            except TypeError:
                return atomv(mk('lt', x, y))
        if (is_const(x) and isinstance(x.args[0], str)) or (is_const(y) and isinstance(y.args[0], str)):
            return atomv(mk('lt', x, y))
        if x.op in ('seq', 'tuple', 'cat') or y.op in ('seq', 'tuple', 'cat'):
            return atomv(mk('lt', x, y))
        return sign_neg(num_bin('-', leaf(x), leaf(y)))
    return lift(fn, a, b)


@rebuild('zero')
def _zero(t):
    return sign_zero(leaf(t))


@rebuild('neg')
def _neg(t):
    return sign_neg(leaf(t))


@rebuild('lt')
def _lt(a, b):
    return v_lt(leaf(a), leaf(b))


def num_abs(v):
    def fn(t):
        if t.op == 'undef':
            return UNDEF
        p = to_poly(t)
        if not p:
            return ZERO
        if list(p) == [()]:
            return const(numconst(abs(p[()])))
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): abs(c)}
            for tt, e in m:
                r = p_mul(r, {((abs_atom(tt), e),): Fraction(1)})
            return leaf(from_poly(r))
        q, f = sign_norm(p)
        qa = mk('abs', q)
        # recover the scale
        items = sorted(p.items(), key=lambda kv: tuple((x.id, e) for x, e in kv[0]))
        lead = [c for m, c in items if m != ()]
        s = abs(lead[0]) if lead else abs(items[0][1])
        return leaf(from_poly({((qa, 1),): s}))
    return lift(fn, v)


def abs_atom(t):
    if t.op == 'abs' or t.op == 'count':
        return t
    return mk('abs', t)


@rebuild('abs')
def _abs(t):
    return num_abs(leaf(t))


def num_minmax(kind, vals):
    """vals: list of N; flattened, deduplicated"""
    def fn(*ts):
        items = []
        for t in ts:
            if t.op == kind:
                items.extend(t.args)
            else:
                items.append(t)
        cs = [t.args[0] for t in items if is_const(t) and isinstance(t.args[0], (int, float))]
        rest = []
        for t in items:
            if not (is_const(t) and isinstance(t.args[0], (int, float))) and t not in rest:
                rest.append(t)
        if cs:
            c = max(cs) if kind == 'max' else min(cs)
            rest.append(mk('const', c))
        if len(rest) == 1:
            return leaf(rest[0])
        rest.sort(key=lambda t: t.id)
        return leaf(mk(kind, *rest))
    return lift(fn, *vals)


@rebuild('max')
def _max(*ts):
    return num_minmax('max', [leaf(t) for t in ts])


@rebuild('min')
def _min(*ts):
    return num_minmax('min', [leaf(t) for t in ts])


# ------------------------------------------------------------------ strings

def str_cat(parts):
    """parts: list of N -> N"""
    def fn(*ts):
        out = []
        for t in ts:
            sub = t.args if t.op == 'cat' else (t,)
            for s in sub:
                if is_const(s) and isinstance(s.args[0], str):
                    if s.args[0] == '':
                        continue
                    if out and is_const(out[-1]) and isinstance(out[-1].args[0], str):
                        out[-1] = mk('const', out[-1].args[0] + s.args[0])
                        continue
                out.append(s)
        if not out:
            return const('')
        if len(out) == 1 and (out[0].op != 'str'):
            return leaf(out[0])
        # parts of a text are texts: str() adds nothing
        out = [s.args[0] if s.op == 'str' and len(s.args) == 1 and isinstance(s.args[0], T) else s for s in out]
        return leaf(mk('cat', *out))
    return lift(fn, *parts)


@rebuild('cat')
def _cat(*ts):
    return str_cat([leaf(t) for t in ts])


# ------------------------------------------------------------------ sequences
# seq(items...)   item := unit(guardN, eltN) | for(S, n, seqT) | ord(tag, seqT)
#                         | spread(t)  (contents of an opaque list value)

EMPTY = mk('seq')


def one_at_most(s):
    return len(s.args) == 1 and s.args[0].op == 'unit'


def seq(*items):
    out = []
    for it in items:
        if it is None:
            continue
        if it.op == 'seq':
            out.extend(it.args)
        elif it.op == 'unit':
            if it.args[0] is FALSE:
                continue
            out.append(it)
        elif it.op == 'for':
            if it.args[2] is EMPTY:
                continue
            out.append(it)
        elif it.op == 'ord':
            if it.args[1] is EMPTY:
                continue
            if one_at_most(it.args[1]) and it.args[0].op in ('sorted', 'reversed'):
                out.extend(it.args[1].args)
                continue
            out.append(it)
        elif it.op == 'spread' and it.args[0].op == 'seq':
            out.extend(seq(*it.args[0].args).args)
        else:
            out.append(it)
    if any(it.op == 'gspread' for it in out):
        # exclusive alternatives have no order: sort them
        ch = True
        while ch:
            ch = False
            for i in range(len(out) - 1):
                x, y = out[i], out[i + 1]
                if x.op in ('gspread', 'unit') and y.op in ('gspread', 'unit') and \
                        (y.op, y.args[1].id) < (x.op, x.args[1].id) and \
                        prune(b_and(x.args[0], y.args[0])) is FALSE:
                    out[i], out[i + 1] = y, x
                    ch = True
    res = []
    for it in out:
        # adjacent alternatives are one conditional element
        if it.op == 'unit' and res and res[-1].op == 'unit' and it.args[0] is not TRUE:
            g1, e1 = res[-1].args
            g2, e2 = it.args
            if g1 is not TRUE and prune(b_and(g1, g2)) is FALSE:
                res[-1] = unit(b_or(g1, g2), ite(g1, e1, e2))
                continue
        res.append(it)
    return mk('seq', *res)


def unit(g, e):
    g = prune(g)
    if g is FALSE:
        return None
    return mk('unit', g, under(e, g))


def guard_seq(s, g):
    """conjoin guard g to every unit of sequence s"""
    if g is TRUE:
        return s
    if g is FALSE:
        return EMPTY
    out = []
    for it in s.args:
        if it.op == 'unit':
            out.append(unit(b_and(it.args[0], g), it.args[1]))
        elif it.op == 'for':
            # capture: the guard must not mention the binder
            S, n, q = it.args
            b = elem(S, n)
            if b in free(g):
                _fresh[0] += 1
                nb = elem(S, _fresh[0])
                q2 = seq_subst(q, {b: leaf(nb)})
                r = close('for', [S, _fresh[0], guard_seq(q2, g)])
            else:
                r = close('for', [S, n, guard_seq(q, g)])
            out.append(r.term if isinstance(r, N) else r)
        elif it.op == 'ord':
            out.append(mk('ord', it.args[0], guard_seq(it.args[1], g)))
        else:
            out.append(mk('gspread', prune(g), it))
    return seq(*out)


def seq_ite(c, a, b):
    """the sequence a where c holds, else b"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    r = _seq_ite(c, a, b)
    if r is not None:
        return r
    parts = [(a, guard_seq(a, c)), (b, guard_seq(b, b_not(c)))]
    parts.sort(key=lambda x: x[0].id)
    return seq(*[p[1] for p in parts])


def _seq_ite(c, a, b):
    if len(a.args) != len(b.args):
        return None
    out = []
    for x, y in zip(a.args, b.args):
        if x is y:
            out.append(x)
        elif x.op != y.op:
            return None
        elif x.op == 'unit':
            g = ite(c, x.args[0], y.args[0])
            out.append(unit(g, ite(c, x.args[1], y.args[1])))
        elif x.op == 'for':
            S = x.args[0]
            if S is not y.args[0]:
                return None
            _fresh[0] += 1
            m = _fresh[0]
            q = _seq_ite(c, seq_subst(x.args[2], {elem(S, x.args[1]): leaf(elem(S, m))}),
                         seq_subst(y.args[2], {elem(S, y.args[1]): leaf(elem(S, m))}))
            if q is None:
                return None
            out.append(seq_for(S, m, q))
        elif x.op == 'ord':
            if x.args[0] is not y.args[0]:
                return None
            q = _seq_ite(c, x.args[1], y.args[1])
            if q is None:
                return None
            out.append(ordered(x.args[0], q))
        else:
            return None
    return seq(*out)


def seq_alts(alts):
    """one sequence from guarded alternatives (the guards partition)"""
    r = None
    for g, s in reversed(alts):
        r = guard_seq(s, g) if r is None and len(alts) == 1 else s if r is None else seq_ite(g, s, r)
    return r if r is not None else EMPTY


def seq_simp(s, pc):
    """the sequence where pc holds, with tests decided by pc gone"""
    out = []
    ch = False
    for it in s.args:
        r = it
        if it.op == 'unit':
            g = simp(it.args[0], pc)
            e = simp(it.args[1], pc)
            if g.atom is not None:
                m = prune(b_and(g, pc))
                if m is FALSE:
                    g = FALSE
                elif m is prune(pc):
                    g = TRUE
            if g is not it.args[0] or e is not it.args[1]:
                r = unit(g, e)
        elif it.op == 'for':
            q = seq_simp(it.args[2], pc)
            if q is not it.args[2]:
                r = seq_for(it.args[0], it.args[1], q)
        elif it.op == 'ord':
            q = seq_simp(it.args[1], pc)
            if q is not it.args[1]:
                r = ordered(it.args[0], q)
        elif it.op == 'gspread':
            g = simp(it.args[0], pc)
            if g is not it.args[0]:
                r = guard_seq(mk('seq', it.args[1]), g)
        ch = ch or r is not it
        out.append(r)
    return seq(*out) if ch else s


def seq_subst(s, m):
    r = subst(s, m)
    if isinstance(r, N):
        if r.atom is None:
            r = r.term
            return r
        # guard alternatives become guarded concatenation
        parts = []
        for g, t in leaves(r):
            parts.append(guard_seq(t, g))
        return seq(*parts)
    return r


@rebuild('for')
def _for(S, n, q):
    if isinstance(q, N):
        if q.atom is None:
            q = q.term
        else:
            q = seq(*[guard_seq(t, g) for g, t in leaves(q)])
    if q is EMPTY:
        return leaf(EMPTY)
    return leaf(mk('for', S, n, q))


@rebuild('unit')
def _unit(g, e):
    u = unit(g, e)
    return leaf(u if u is not None else mk('seq'))


@rebuild('seq')
def _seq(*items):
    return leaf(seq(*items))


def seq_of_base(t):
    """The elements of an unmodified base collection term."""
    return mk('seq', mk('for', t, 0, mk('seq', mk('unit', TRUE, leaf(elem(t, 0))))))


def witnessed(S, n, g, gone=None):
    """g for an element of S, without tests that the element itself settles:
    where g implies G(e), 'some element satisfies G' holds."""
    for a in support(g):
        if a.op == 'exists' and a.args[0] is S and elem(S, n) not in free(a):
            G = subst(a.args[2], {elem(S, a.args[1]): leaf(elem(S, n))})
            h = cofactor(g, a, True)
            none = b_not(G)
            if prune(b_and(cofactor(g, a, False), none)) is prune(b_and(h, none)):
                g = h
                if gone is not None:
                    gone.append(a)
    return g


def witnesses_itself(S, n, u):
    """'some element is like this one': this one is"""
    g, e = u.args
    b = elem(S, n)
    for a in support(g) | support(e):
        if a.op == 'exists' and a.args[0] is S and b in free(a):
            G = subst(a.args[2], {elem(S, a.args[1]): leaf(b)})
            if G is TRUE or implies(cofactor(g, a, False), G):
                g, e = cofactor(g, a, True), cofactor(e, a, True)
    return u if g is u.args[0] and e is u.args[1] else mk('unit', g, e)


def witnessed_seq(S, n, q):
    out, ch = [], False
    for it in q.args:
        if it.op == 'unit':
            it = witnesses_itself(S, n, it)
            ch = ch or it not in q.args
            gone = []
            g = witnessed(S, n, it.args[0], gone)
            if gone:
                e = it.args[1]
                for a in gone:
                    e = cofactor(e, a, True)
                it = unit(g, e)
                ch = True
                if it is None:
                    continue
        out.append(it)
    return seq(*out) if ch else q


def seq_for(S, n, q):
    q = witnessed_seq(S, n, q)
    r = close('for', [S, n, q])
    t = r.term
    return t if t.op == 'seq' else mk('seq', t)


def rekeyed(s, K):
    """s with the elements at the same places of K, or None"""
    if s is K:
        return s
    if len(s.args) == 1 and s.args[0].op == 'ord' and not (K.args and K.args[0].op == 'ord'):
        s = s.args[0].args[1]
    if len(s.args) != len(K.args):
        return None
    out = []
    for x, y in zip(s.args, K.args):
        if x.op != y.op:
            return None
        if x.op == 'unit':
            out.append(mk('unit', x.args[0], y.args[1]))
        elif x.op == 'for':
            S, n, q = x.args
            if y.args[0] is not S:
                return None
            q2 = y.args[2]
            if y.args[1] != n:
                q2 = seq_subst(q2, {elem(S, y.args[1]): leaf(elem(S, n))})
            q = rekeyed(q, q2)
            if q is None:
                return None
            out.append(seq_for(S, n, q))
        elif x.op == 'ord':
            q = rekeyed(x.args[1], y.args[1])
            if q is None:
                return None
            out.append(mk('ord', x.args[0], q))
        elif x is y:
            out.append(x)
        else:
            return None
    return seq(*out)


def same_elements(s, K):
    """the elements of s are those at the same places of K, where present"""
    if s is K:
        return True
    if len(s.args) == 1 and s.args[0].op == 'ord' and not (K.args and K.args[0].op == 'ord'):
        s = s.args[0].args[1]
    if len(s.args) != len(K.args):
        return False
    for x, y in zip(s.args, K.args):
        if x.op != y.op:
            return False
        if x.op == 'unit':
            if x.args[1] is not y.args[1] and under(x.args[1], x.args[0]) is not under(y.args[1], x.args[0]):
                return False
        elif x.op == 'for':
            S, n, q = x.args
            if y.args[0] is not S:
                return False
            q2 = y.args[2]
            if y.args[1] != n:
                q2 = seq_subst(q2, {elem(S, y.args[1]): leaf(elem(S, n))})
            if not same_elements(q, q2):
                return False
        elif x.op == 'ord':
            if not same_elements(x.args[1], y.args[1]):
                return False
        elif x is not y:
            return False
    return True


def ungated(s):
    """all elements of s, whatever their tests"""
    out = []
    for x in s.args:
        if x.op == 'unit':
            out.append(mk('unit', TRUE, simp(x.args[1], x.args[0])))
        elif x.op == 'for':
            out.append(seq_for(x.args[0], x.args[1], ungated(x.args[2])))
        elif x.op == 'ord':
            out.append(mk('ord', x.args[0], ungated(x.args[1])))
        else:
            out.append(x)
    return seq(*out)


def bound_tag(tag, s):
    """the tag of s, for sequences made from the elements of s one by one:
    the tag then remembers the elements by which it orders or dedupes"""
    if tag.op == 'set' and not tag.args:
        return mk('set', without_sets(s))
    if tag.op == 'sorted' and len(tag.args) == 2:
        return mk('sorted', tag.args[0], tag.args[1], ungated(without_sets(s)))
    return tag


def without_sets(s):
    """s, with repetitions of elements allowed"""
    if not any(x.op == 'ord' for x in s.args):
        return s
    out = []
    for x in s.args:
        if x.op == 'ord' and (x.args[0].op in ('set', 'sorted', 'reversed') or
                              x.args[0].op == 'keys' and same_elements(x.args[1], x.args[0].args[0])):
            out.extend(without_sets(x.args[1]).args)
        else:
            out.append(x)
    return seq(*out)


def ordered(tag, s):
    """apply an order tag; tags on sorted sequences of <=1 elements vanish"""
    if s is EMPTY:
        return s
    if tag.op == 'set':
        if tag.args and same_elements(s, tag.args[0]):
            tag = mk('set')
        if not tag.args:
            s = without_sets(s)
    elif tag.op == 'sorted' and len(tag.args) == 3 and same_elements(s, tag.args[2]):
        tag = mk('sorted', tag.args[0], tag.args[1])
    if tag.op in ('set', 'keys') and tag.args:
        tag = by_key(tag, s)
    if one_at_most(s) and tag.op in ('sorted', 'reversed'):
        return s
    if len(s.args) == 1 and s.args[0].op == 'ord' and s.args[0].args[0] is tag:
        return s
    return mk('seq', mk('ord', tag, s))


_by_key = {}


def by_key(tag, s):
    """the tag, without tests in K that only look at the key (the elements,
    which depend on the key, have them too)"""
    r = _by_key.get((tag, s))
    if r is None:
        K = tag.args[0]
        if len(K.args) == 1 and K.args[0].op == 'for' and len(s.args) == 1 and s.args[0].op == 'for' \
                and s.args[0].args[0] is K.args[0].args[0]:
            S, n, q = s.args[0].args
            kn, kq = K.args[0].args[1:]
            if len(q.args) == 1 and q.args[0].op == 'unit' and len(kq.args) == 1 and kq.args[0].op == 'unit':
                kg, ke = kq.args[0].args
                ke = simp(ke, kg)
                kg2 = beside_key(kg, ke, elem(S, kn))
                if kg2 is not kg or ke is not kq.args[0].args[1]:
                    K = seq_for(S, kn, seq(mk('unit', kg2, ke)))
        r = _by_key[tag, s] = mk(tag.op, K) if K is not tag.args[0] else tag
    return r


def beside_key(g, key, b):
    """g without the tests that only look at the key"""
    if g is TRUE or key.atom is not None:
        return g
    m = {key.term: leaf(mk('it'))}
    mine, others = [], []
    for a in sorted(support(g), key=lambda t: t.id):
        (others if b in free(subst(atomv(a), m)) else mine).append(a)
    if not mine:
        return g
    g1 = g2 = g
    for a in others:
        g1 = b_or(cofactor(g1, a, True), cofactor(g1, a, False))
    for a in mine:
        g2 = b_or(cofactor(g2, a, True), cofactor(g2, a, False))
    return g2 if prune(b_and(g1, g2)) is prune(g) else g


def s_exists(s, pred=None):
    """Exists element (satisfying pred: fn(eltN)->boolN)"""
    r = FALSE
    for it in s.args:
        if it.op == 'unit':
            g, e = it.args
            r = b_or(r, g if pred is None else b_and(g, pred(e)))
        elif it.op == 'for':
            S, n, q = it.args
            r = b_or(r, v_exists(S, n, s_exists(q, pred)))
        elif it.op == 'ord':
            r = b_or(r, s_exists(it.args[1], pred))
        elif it.op == 'gspread':
            r = b_or(r, b_and(it.args[0], atomv(mk('pred', 'nonempty', it.args[1]))))
        else:
            r = b_or(r, atomv(mk('pred', 'nonempty', it, )) if pred is None else
                     some_of(it, prune(pred(leaf(mk('elem', it, 0))))))
    return r


def some_of(it, g):
    if g is FALSE:
        return FALSE
    hole = mk('elem', it, 0)
    for x in sorted(support(g), key=lambda t: t.id):
        if hole not in free(x):
            return ite(atomv(x), some_of(it, cofactor(g, x, True)), some_of(it, cofactor(g, x, False)))
    return atomv(mk('pred', 'nonemptyp', it, g))


def repeated(S, n, g, b):
    """some element has an earlier one with the same key: fewer keys than elements"""
    for a in support(g):
        if a.op != 'pre' or a.args[0] is not b or a.args[1] is not S or len(a.args) > 4 or cofactor(g, a, True) is not FALSE:
            continue
        e, h = elem(S, a.args[2]), a.args[3]
        own = prune(cofactor(g, a, False))
        for x in support(h):
            if x.op not in ('eq', 'valeq') or len(x.args) != 2 or cofactor(h, x, False) is not FALSE:
                continue
            p, q = x.args
            if e in free(q):
                p, q = q, p
            if e not in free(p) or b not in free(q) or e in free(q) or b in free(p):
                continue
            h2 = cofactor(h, x, True)
            if b in free(h2) or subst(leaf(p), {e: leaf(b)}) is not leaf(q) or prune(subst(h2, {e: leaf(b)})) is not own:
                continue
            s = seq_for(S, n, seq(unit(own, leaf(q))))
            return b_not(v_eq(s_count(ordered(mk('set'), s)), s_count(s)))
    return None


def v_exists(S, n, g):
    g = witnessed(S, n, prune(g))
    if g is FALSE:
        return FALSE
    b = elem(S, n)
    if g is TRUE or b not in free(g):
        base = close_exists(S, n, TRUE)
        return b_and(base, g)
    r = repeated(S, n, g, b)
    if r is not None:
        return r
    # pull out loop-invariant atoms
    for a in sorted(support(g), key=lambda t: t.id):
        if b not in free(a):
            hi = cofactor(g, a, True)
            lo = cofactor(g, a, False)
            return ite(atomv(a), v_exists(S, n, hi), v_exists(S, n, lo))
    if S.op == 'distinct' and isinstance(S.args[0], T) and S.args[0].op == 'seq':
        x = pinned(g, b)
        if x is not None:
            g = subst(g, {b: leaf(x)})
            return prune(b_and(g, s_exists(S.args[0], lambda y: v_eq(y, leaf(x)))))
    return close_exists(S, n, g)


def cofactor(v, atom, val, memo=None):
    memo = {} if memo is None else memo
    if v.atom is None:
        return v
    if v in memo:
        return memo[v]
    if v.atom is atom:
        r = cofactor(v.hi if val else v.lo, atom, val, memo)
    elif v.atom.id > atom.id:
        r = v
    else:
        r = gate(v.atom, cofactor(v.hi, atom, val, memo), cofactor(v.lo, atom, val, memo))
    memo[v] = r
    return r


def close_exists(S, n, g):
    r = close_plain('exists', [S, n, g])
    return atomv(r)


def close_plain(op, args):
    return close(op, args, True)


@rebuild('exists')
def _exists(S, n, g):
    return v_exists(S, n, g)


def s_cntge(s, k):
    if k <= 0:
        return TRUE
    if k == 1:
        return s_exists(s)
    # literal parts: count arrays
    lits = [it for it in s.args if it.op == 'unit']
    if len(lits) == len(s.args):
        # exact
        counts = [TRUE] + [FALSE] * k
        for it in lits:
            g = it.args[0]
            for j in range(k, 0, -1):
                counts[j] = b_or(counts[j], b_and(counts[j - 1], g))
        return counts[k]
    s = count_canon(s)
    a = invariant_test(s)
    if a is not None:
        return ite(atomv(a), s_cntge(seq_cofactor(s, a, True), k),
                   s_cntge(seq_cofactor(s, a, False), k))
    return atomv(mk('cntge', k, s))


def invariant_test(s, binders=()):
    """A test in the guards of s that does not depend on the elements."""
    for it in s.args:
        if it.op == 'unit':
            for a in sorted(support(it.args[0]), key=lambda t: t.id):
                fr = free(a)
                if not any(b in fr for b in binders):
                    return a
        elif it.op == 'for':
            a = invariant_test(it.args[2], binders + (elem(it.args[0], it.args[1]),))
            if a is not None:
                return a
    return None


def seq_cofactor(s, atom, val):
    out = []
    for it in s.args:
        if it.op == 'unit':
            u = unit(prune(cofactor(it.args[0], atom, val)), it.args[1])
            if u is not None:
                out.append(u)
        elif it.op == 'for':
            q = seq_cofactor(it.args[2], atom, val)
            if q.args:
                out.append(seq_for(it.args[0], it.args[1], q))
        else:
            out.append(it)
    return seq(*out)


def count_canon(s):
    """forget the elements: only guards matter for counting"""
    out = []
    for it in s.args:
        if it.op == 'unit':
            out.append(mk('unit', it.args[0], NONE))
        elif it.op == 'for':
            out.append(seq_for(it.args[0], it.args[1], count_canon(it.args[2])))
        elif it.op == 'ord':
            if tag_dedupes(it.args[0]):
                # the repetitions are those of the keys
                q = rekeyed(it.args[1], it.args[0].args[0]) if it.args[0].args else None
                out.extend((it,) if q is None else ordered(mk('set'), q).args)
            else:
                out.append(count_canon(it.args[1]))
        else:
            out.append(it)
    return seq(*out)


def tag_dedupes(tag):
    return tag.op in ('set', 'keys')


@rebuild('cntge')
def _cntge(k, s):
    return s_cntge(s, k)


def s_count(s):
    n = ZERO
    lits = all(it.op == 'unit' for it in s.args)
    if lits:
        for it in s.args:
            n = num_bin('+', n, ite(it.args[0], ONE, ZERO))
        return n
    return leaf(mk('count', count_canon(s)))


@rebuild('count')
def _count(s):
    return s_count(s)


def s_sum(s, start=None):
    r = ZERO if start is None else start
    for it in s.args:
        if it.op == 'unit':
            g, e = it.args
            r = num_bin('+', r, ite(g, e, ZERO))
        elif it.op == 'for':
            S, n, q = it.args
            r = num_bin('+', r, v_sum(S, n, s_sum(q)))
        elif it.op == 'ord' and not tag_dedupes(it.args[0]):
            r = num_bin('+', r, s_sum(it.args[1]))
        else:
            r = num_bin('+', r, leaf(mk('numfn', 'sum', it)))
    return r


def v_sum(S, n, v):
    """Sum over the elements of S of v(elem(S,n)); linear normal form."""
    b = elem(S, n)
    v = prune(v)
    # split on invariant atoms first
    for a in sorted(support(v), key=lambda t: t.id):
        if b not in free(a):
            return ite(atomv(a), v_sum(S, n, cofactor(v, a, True)),
                       v_sum(S, n, cofactor(v, a, False)))
    table = {}
    order = []
    for g, t in leaves(v):
        if t.op == 'undef':
            continue
        for m, c in to_poly(t).items():
            inv = tuple((x, e) for x, e in m if b not in free(x))
            var = tuple((x, e) for x, e in m if b in free(x))
            k = (inv, var, c)
            if k not in table:
                table[k] = FALSE
                order.append(k)
            table[k] = b_or(table[k], g)
    out = {}
    total = ZERO
    for (inv, var, c) in order:
        g = prune(table[(inv, var, c)])
        body = ite(g, leaf(from_poly({var: Fraction(1)})), ZERO)
        if var == () and g is TRUE:
            st = mk('count', seq_of_base(S))
            st = s_count(seq_for(S, n, mk('seq', mk('unit', TRUE, NONE)))).term
        elif var == ():
            st = s_count(seq_for(S, n, seq(unit(g, NONE)))).term
        else:
            st = close_plain('sum', [S, n, body])
        total = num_bin('+', total, leaf(from_poly(p_mul({inv: c}, {((st, 1),): Fraction(1)}))))
    return total


@rebuild('sum')
def _sum(S, n, v):
    return v_sum(S, n, v)


def s_first(s, last=False):
    """First (last) element of s; UNDEF when empty."""
    items = list(s.args)
    if last:
        items.reverse()
    if not items:
        return UNDEF
    r = UNDEF
    for it in reversed(items):
        if it.op == 'unit':
            r = ite(it.args[0], it.args[1], r)
        elif it.op == 'for':
            S, n, q = it.args
            ex = s_exists(mk('seq', it))
            r = ite(ex, pick(S, n, q, last), r)
        elif it.op == 'ord':
            r = ite(s_exists(it.args[1]), pick_ord(it.args[0], it.args[1], last), r)
        else:
            r = leaf(mk('sel', 'last' if last else 'first', s))
    return prune(r)


def pick(S, n, q, last):
    inner = prune(s_exists(q))
    op = 'lastb' if last else 'firstb'
    r = UNDEF
    for g, o in leaves(select(op, S, n, inner)):
        q2 = seq_subst(q, {elem(S, n): leaf(o)})
        v = s_first(q2, last)
        r = v if g is TRUE else ite(g, v, r)
    return r


def select(op, S, n, g, make=None, tag=None):
    """The first (last, best) element of S where g holds.  Only used where
    one exists, so tests of g that do not depend on the element are gates of
    the result, and the ones that must hold are not kept at all."""
    if tag is not None and tag.op == 'reversed':
        op, tag = 'lastb' if op == 'firstb' else 'firstb', None
    more = [] if tag is None else [tag]
    make = make or (lambda g: leaf(close_plain(op, [S, n, g] + more)))
    g = prune(g)
    b = elem(S, n)
    if g.atom is None:
        return make(g)
    for a in sorted(support(g), key=lambda t: t.id):
        if b not in free(a):
            hi = prune(cofactor(g, a, True))
            lo = prune(cofactor(g, a, False))
            if lo is FALSE:
                return select(op, S, n, hi, make)
            if hi is FALSE:
                return select(op, S, n, lo, make)
            return ite(atomv(a), select(op, S, n, hi, make), select(op, S, n, lo, make))
    if S.op == 'distinct' and op != 'bestb':
        x = pinned(g, b)
        if x is not None:
            return leaf(x)
    return make(g)


def pinned(g, b):
    """x where g holds for b == x only"""
    for a in sorted(support(g), key=lambda t: t.id):
        if a.op == 'eq' and b in a.args and cofactor(g, a, False) is FALSE:
            x = a.args[1] if a.args[0] is b else a.args[0]
            if b not in free(x):
                return x
    return None


def pick_ord(tag, s, last):
    """first/last of a sorted sequence = extremum"""
    if tag.op == 'sorted' and len(s.args) == 1 and s.args[0].op == 'for':
        S, n, q = s.args[0].args
        if len(q.args) == 1 and q.args[0].op == 'unit':
            g, e = q.args[0].args
            keyv, rev = tag.args[:2]
            by = e
            if len(tag.args) == 3:
                r = rekeyed(s, tag.args[2])
                if r is None:
                    return leaf(mk('sel', 'last' if last else 'first', tag, s))
                by = r.args[0].args[2].args[0].args[1]
            # keyv is a value over the placeholder term 'it'
            k = subst(keyv, {mk('it'): by})
            kind = 'max' if bool(rev) != bool(last) else 'min'
            o = select('bestb', S, n, g, lambda g: leaf(close_plain('bestb', [kind, S, n, g, k])))
            return lift(lambda x: subst(e, {elem(S, n): leaf(x)}), o)
    if tag.op == 'reversed':
        return s_first(s, not last)
    return leaf(mk('sel', 'last' if last else 'first', tag, s))


@rebuild('firstb')
def _firstb(S, n, g, *tag):
    return select('firstb', S, n, g, lambda g: leaf(mk('firstb', S, n, g, *tag)))


@rebuild('lastb')
def _lastb(S, n, g, *tag):
    return select('lastb', S, n, g, lambda g: leaf(mk('lastb', S, n, g, *tag)))


@rebuild('bestb')
def _bestb(kind, S, n, g, k):
    return select('bestb', S, n, g, lambda g: leaf(mk('bestb', kind, S, n, g, k)))


@rebuild('pre')
def _pre(a, S, n, g, *tag):
    return v_pre(a, S, n, g, tag, lambda g: mk('pre', a, S, n, g, *tag))


def v_pre(a, S, n, g, tag=(), make=None):
    """No element of S before a satisfies g."""
    make = make or (lambda g: close_plain('pre', [a, S, n, g] + list(tag)))
    g = prune(g)
    if g is FALSE:
        return TRUE
    b = elem(S, n)
    for x in sorted(support(g), key=lambda t: t.id):
        if b not in free(x):
            return ite(atomv(x), v_pre(a, S, n, cofactor(g, x, True), tag, make),
                       v_pre(a, S, n, cofactor(g, x, False), tag, make))
    op, want = 'firstb', tuple(tag)
    if tag and tag[0].op == 'reversed':
        op, want = 'lastb', ()
    if a.op == op and a.args[0] is S and a.args[3:] == want:
        h = subst(a.args[2], {elem(S, a.args[1]): leaf(b)})
        if implies(g, h):
            return TRUE
    return atomv(make(g))


@rebuild('is')
def _is(a, b):
    return v_is_terms(a, b)


def obj_class(t):
    """The collection an object belongs to (None when unknown)."""
    if t.op == 'elem':
        return t.args[0]
    if t.op in ('firstb', 'lastb'):
        return t.args[0]
    if t.op == 'bestb':
        return t.args[1]
    return None


def v_is_terms(a, b):
    if a is b:
        return TRUE
    if is_const(a) or is_const(b):
        if is_const(a) and is_const(b):
            return TRUE if a.args[0] is b.args[0] or a.args[0] == b.args[0] else FALSE
        x, c = (b, a) if is_const(a) else (a, b)
        if c.args[0] is None:
            return v_eq_terms(x, c)
        return v_eq_terms(x, c)
    fresh = ('alloc', 'dc', 'seq', 'tuple', 'dictv')
    if a.op in fresh or b.op in fresh:
        return FALSE
    ca, cb = obj_class(a), obj_class(b)
    if ca is not None and cb is not None and ca is not cb and not free(ca) and not free(cb):
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.id)
    return atomv(mk('is', x, y))


# ------------------------------------------------------------------ display

def show(x, depth=0):
    if isinstance(x, N):
        if x.atom is None:
            return show(x.term, depth)
        if depth > 14:
            return '...'
        if x.hi is TRUE and x.lo is FALSE:
            return show(x.atom, depth + 1)
        if x.hi is FALSE and x.lo is TRUE:
            return 'not(' + show(x.atom, depth + 1) + ')'
        return 'if(%s ? %s : %s)' % (show(x.atom, depth + 1), show(x.hi, depth + 1),
                                     show(x.lo, depth + 1))
    if isinstance(x, T):
        if depth > 14:
            return '...'
        a = x.args
        d = depth + 1
        if x.op == 'const':
            return repr(a[0])
        if x.op == 'sym':
            return str(a[0])
        if x.op == 'field':
            return '%s[%r]' % (show(a[0], d), a[1] if isinstance(a[1], str) else show(a[1], d))
        if x.op == 'attr':
            return '%s.%s' % (show(a[0], d), a[1])
        if x.op == 'has':
            return '(%r in %s)' % (a[1] if isinstance(a[1], str) else show(a[1], d), show(a[0], d))
        if x.op == 'eq':
            return '%s == %s' % (show(a[0], d), show(a[1], d))
        if x.op == 'zero':
            return '%s == 0' % show(a[0], d)
        if x.op == 'neg':
            return '%s < 0' % show(a[0], d)
        if x.op == 'elem':
            return 'e%s<%s>' % ('' if a[1] == 0 else a[1], show(a[0], d))
        if x.op == 'poly' or x.op == 'den':
            ms = []
            for m, c in a[0]:
                fs = [show(t, d) + ('' if e == 1 else '^%d' % e) for t, e in m]
                cs = str(c) if c.denominator == 1 else '%.6g' % float(c)
                if fs and c == 1:
                    ms.append('*'.join(fs))
                else:
                    ms.append('*'.join([cs] + fs))
            return '(' + ' + '.join(ms) + ')'
        if x.op == 'for':
            return 'for e%s in %s: %s' % ('' if a[1] == 0 else a[1], show(a[0], d), show(a[2], d))
        if x.op == 'unit':
            return show(a[1], d) if a[0] is TRUE else '%s if %s' % (show(a[1], d), show(a[0], d))
        if x.op == 'seq':
            return '[' + '; '.join(show(i, d) for i in a) + ']'
        if x.op in ('sum', 'exists', 'firstb', 'lastb'):
            return '%s(e%s in %s: %s)' % (x.op, '' if a[1] == 0 else a[1], show(a[0], d), show(a[2], d))
        return '%s(%s)' % (x.op, ', '.join(show(i, d) for i in a))
    if isinstance(x, tuple):
        return '(' + ', '.join(show(i, depth + 1) for i in x) + ')'
    return repr(x)
