"""Builds the gated value graph of a function (predicated dataflow, one pass
over the syntax tree per loop level; no path enumeration, no execution).
"""
import ast
import math
import re
from .terms import *
from . import terms as TM


class Unmodelled(Exception):
    pass


from .normal import normal


def as_set(s):
    """the elements without repetitions"""
    if len(s.args) < 2 and not (s.args and s.args[0].op == 'for'):
        return s
    items = []
    for it in s.args:
        if it.op == 'ord' and it.args[0].op == 'set':
            items.extend(it.args[1].args)
        else:
            items.append(it)
    return ordered(mk('set'), mk('seq', *items))


_chosen = {}


def chosen_field(obj, name):
    """obj[name]; the element chosen for having X there has X there"""
    if obj.op in ('lastb', 'firstb'):
        r = _chosen.get((obj, name))
        if r is None:
            r = leaf(mk('field', obj, name))
            S, n, g = obj.args[:3]
            b = elem(S, n)
            f = mk('field', b, name)
            for a in support(g):
                if a.op == 'eq' and f in a.args and cofactor(g, a, False) is FALSE:
                    x = a.args[1] if a.args[0] is f else a.args[0]
                    if b not in free(x):
                        r = leaf(x)
                        break
            _chosen[obj, name] = r
        return r
    return leaf(mk('field', obj, name))


def plain_base(s):
    """the elements of one collection"""
    if len(s.args) != 1 or s.args[0].op != 'for':
        return False
    S, n, q = s.args[0].args
    return len(q.args) == 1 and q.args[0].op == 'unit' and q.args[0].args[1] is leaf(elem(S, n))


def bare(s):
    """in the order in which the elements were put in"""
    items = []
    for it in s.args:
        items.extend(bare(it.args[1]).args if it.op == 'ord' and it.args[0].op == 'set' else [it])
    return mk('seq', *items)


class FuncVal(object):
    def __init__(self, node, module, qual, closure=None, cls=None):
        self.node, self.module, self.qual, self.closure, self.cls = node, module, qual, closure, cls


class U(object):
    """One guarded heap update."""
    __slots__ = ('binders', 'guard', 'obj', 'key', 'val', 'kind', 'line', 'first')

    def __init__(self, binders, guard, obj, key, val, kind, line=None, first=False):
        self.first = first      # only where the key was not there: the first one counts
        self.binders, self.guard, self.obj, self.key = binders, guard, obj, key
        self.val, self.kind, self.line = val, kind, line

    def copy(self, **kw):
        d = dict(binders=self.binders, guard=self.guard, obj=self.obj, key=self.key,
                 val=self.val, kind=self.kind, line=self.line, first=self.first)
        d.update(kw)
        return U(**d)


class Ev(object):
    """A guarded event: log call, external call, raise."""
    __slots__ = ('binders', 'guard', 'name', 'data', 'line', 'where')

    def __init__(self, binders, guard, name, data, line, where=None):
        self.binders, self.guard, self.name, self.data = binders, guard, name, data
        self.line, self.where = line, where

    def copy(self, **kw):
        d = dict(binders=self.binders, guard=self.guard, name=self.name, data=self.data,
                 line=self.line, where=self.where)
        d.update(kw)
        return Ev(**d)


_uid = [0]


def new_uid():
    _uid[0] += 1
    return _uid[0]


class Frame(object):
    def __init__(self, module, qual, closure=None):
        self.uid = new_uid()
        self.env = {}
        self.module = module
        self.qual = qual
        self.closure = closure
        self.retg = FALSE
        self.retv = UNDEF
        self.yields = None
        self.loop = None


def absent_cells(v):
    """in the state of a loop an absent key is a value of its own"""
    return lift(lambda t: leaf(mk('const', '#absent')) if t.op == 'undef' else leaf(t), v)


class Loop(object):
    def __init__(self):
        self.brk = FALSE
        self.cont = FALSE


class TryCtx(object):
    def __init__(self, names, depth):
        self.names = names       # list of tuples of caught names per handler
        self.hit = [FALSE] * len(names)
        self.depth = depth       # number of open binders
        self.points = []         # calls made: what comes after happens only without exception


HIER = {
    'KeyError': ('LookupError', 'Exception', 'BaseException'),
    'IndexError': ('LookupError', 'Exception', 'BaseException'),
    'StopIteration': ('Exception', 'BaseException'),
    'AssertionError': ('Exception', 'BaseException'),
    'ZeroDivisionError': ('ArithmeticError', 'Exception', 'BaseException'),
    'ValueError': ('Exception', 'BaseException'),
    'TypeError': ('Exception', 'BaseException'),
    'AttributeError': ('Exception', 'BaseException'),
    'KeyboardInterrupt': ('BaseException',),
}

REQUIRED = {'exchanges', 'type', 'id', 'tag', 'name', 'amount'}

PURE_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'encode',
                'decode', 'title', 'capitalize', 'splitlines', 'rsplit', 'zfill', 'isdigit',
                'hexdigest', 'index', 'count', 'find', 'group', 'groups', 'match', 'search',
                'sub', 'findall', 'isoformat', 'strftime', 'total_seconds', 'join', 'format',
                'is_dir', 'exists', 'items', 'partition', 'rpartition', 'isalnum', 'isidentifier',
                'issubset', 'issuperset', 'isdisjoint', 'casefold', 'finditer', 'as_posix'}

STR_KEYS = {'name', 'location', 'unit', 'reference product', 'formula', 'type', 'variable',
            'activity link', 'id', 'code', 'filepath', 'start date', 'end date', 'technology level',
            'byproduct classification', 'economic scenario', 'compartment', 'subcompartment',
            'parent', 'activity', 'allocation method', 'access restricted'}


# parameters documented to be strings: copying them is the identity
STRING_PARAMS = {'string', 'formula', 'name', 'filepath', 'path'}
OPAQUE_GLOBAL_MODULES = {'ocelot.configuration'}


def constant_tuple(t):
    return t.op == 'tuple' and all(a.atom is None and is_const(a.term) for a in t.args)


def walked(e):
    """the collections a lazy view walks through"""
    if not isinstance(e, ast.Call):
        return
    if isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'reversed', 'iter', 'zip', 'filter', 'map'):
        cs = e.args
    elif isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args:
        cs = [e.func.value]
    else:
        return
    for c in cs:
        if isinstance(c, (ast.Name, ast.Attribute, ast.Subscript)):
            yield c
        else:
            for w in walked(c):
                yield w


RE_METHODS = {'search': 2, 'match': 2, 'fullmatch': 2, 'findall': 2, 'finditer': 2, 'split': 2, 'sub': 3}
BENIGN = {'info', 'debug', 'warning', 'error', 'append', 'add', 'extend', 'format', 'join', 'items', 'keys', 'values', 'get',
          'lower', 'upper', 'strip', 'replace', 'copy', 'startswith', 'endswith', 'setdefault', 'update'}
BENIGN_NAMES = {'len', 'isinstance', 'str', 'dict', 'list', 'tuple', 'set', 'sorted', 'enumerate', 'zip', 'print'}


def benign_call(e):
    if isinstance(e.func, ast.Attribute):
        return e.func.attr in BENIGN
    return isinstance(e.func, ast.Name) and e.func.id in BENIGN_NAMES


def ext_leaf(name):
    if name in ('math.e', 'math.pi', 'math.tau', 'numpy.e', 'numpy.pi'):
        return const(getattr(math, name.split('.')[1]))
    return leaf(mk('ext', name))


# what they return changes with use
STATEFUL = ('itertools.count', 'itertools.cycle')

# `validation.ensure_ids_are_unique` and `identifying.add_unique_codes`
IDENTITIES = ('id', 'code')


class Interp(object):
    n_inlined = 0
    unfolding = recursed = False

    MAXDEPTH = 40

    oglobals = frozenset()
    raw_fields = False
    # opaque functions that add keys to a dictionary they are given
    FILLS = ('ocelot.report:HTMLReport.handle_line',)

    def __init__(self, program, opaque=(), intrinsics=None, max_depth=None):
        self.uid = new_uid()
        self.P = program
        self.opaque = set(opaque)
        self.intrinsics = intrinsics or {}
        self.log = []
        self.logs = []      # logging events
        self.calls = []     # external calls
        self.raises = []    # uncaught raises
        self.pc = TRUE
        self.frames = []
        self.tries = []
        self.escaped = {}
        self.open = []      # open binders: list of (S, m) or ('ord', tag)
        self.kind = {}      # alloc site -> kind
        self.sites = 0
        self.apc = {}
        self.snaps = {}
        self.nsnap = 0
        self.funcs = {}
        self.stack = []
        self.nodes = []
        self.gcache = {}
        self.pure_mode = 0
        self.unmodelled = []
        self.analysed = set()
        self.reads_items = set()
        self.dyn_reads = set()
        self.suppose = None     # what a deviation is supposed not to be there
        self.left_out = set()   # where it was left out
        self.indexed = set()
        self.tested = set()
        self.memo = {}
        self.steps = 0
        self.assumed = TRUE
        self.canon = {}     # qualified name in this program -> canonical name
        self.sigs = {}      # canonical name -> parameter names in the reference

    # ---------------------------------------------------------------- utils
    def note(self, node, what):
        self.unmodelled.append((getattr(node, 'lineno', 0), what,
                                self.frames[-1].qual if self.frames else ''))

    def unk(self, what, *args):
        return leaf(mk('unk', what, *args))

    @property
    def frame(self):
        return self.frames[-1]

    def new_site(self, kind):
        self.sites += 1
        s = mk('site', kind, self.sites, self.uid)
        self.kind[s] = kind
        return s

    def open_elems(self):
        return tuple(elem(*b) for b in self.open if b[0] != 'ord')

    def alloc(self, kind):
        st = self.new_site(kind)
        if self.pc is not TRUE:
            self.apc[st] = (self.pc, self.open_elems())
        return mk('alloc', st, self.open_elems())

    def born_under(self, t):
        """condition under which the allocated object exists"""
        r = self.apc.get(t.args[0])
        if r is None:
            return TRUE
        pc, opened = r
        m = {a: leaf(b) for a, b in zip(opened, t.args[1]) if a is not b}
        return subst(pc, m) if m else pc

    def alloc_kind(self, t):
        return self.kind.get(t.args[0])

    # ---------------------------------------------------------------- heap
    def add(self, obj, key, val, kind='set', guard=None, line=None):
        g = self.pc if guard is None else guard
        g = prune(g)
        if g is FALSE:
            return
        if isinstance(val, N):
            val = simp(val, g)
        self.log.append(U((), g, obj, key, val, kind, line))

    def unify(self, p, t, pat, sig, conds):
        """match pattern term p (binders in pat) against t; True if may match"""
        if p in sig:
            q = sig[p]
            if q is t:
                return True
            if obj_class(q) is not None or obj_class(t) is not None:
                conds.append(v_is_terms(q, t))
                return True
            return False
        if p in pat:
            c = obj_class(t)
            if c is None:
                return False
            if not self.unify(p.args[0], c, pat, sig, conds):
                return False
            sig[p] = t
            return True
        if p is t and not any(b in pat for b in free(p)):
            return True
        if p.op == t.op and p.op in ('field', 'dc', 'slot', 'alloc', 'attr', 'item', 'tup'):
            if len(p.args) != len(t.args):
                return False
            for a, b in zip(p.args, t.args):
                if isinstance(a, T) and isinstance(b, T):
                    if p.op == 'slot' and a is p.args[1]:
                        # key position: decided by equality, later
                        sub = []
                        s2 = dict(sig)
                        if a in pat or not self._try_unify_key(a, b, pat, sig, conds):
                            return False
                        continue
                    if not self.unify(a, b, pat, sig, conds):
                        return False
                elif isinstance(a, tuple) and isinstance(b, tuple):
                    if len(a) != len(b):
                        return False
                    for x, y in zip(a, b):
                        if isinstance(x, T) and isinstance(y, T):
                            if not self.unify(x, y, pat, sig, conds):
                                return False
                        elif x != y:
                            return False
                elif a is not b and a != b:
                    return False
            return True
        # may alias: same collection
        cp, ct = obj_class(p), obj_class(t)
        if cp is not None and ct is not None:
            s2, c2 = dict(sig), []
            if self.unify(cp, ct, pat, s2, c2):
                if any(b in pat and b not in s2 for b in free(p)):
                    # refers to an unbound iteration: existential, keep symbolic
                    sig.update(s2)
                    conds.extend(c2)
                    conds.append(('is', p, t))
                    return True
                sig.update(s2)
                conds.extend(c2)
                pp = subst(leaf(p), {k: leaf(v) for k, v in sig.items() if k in free(p)})
                conds.append(lift(lambda x: v_is_terms(x, t), pp))
                return True
        return False

    def _try_unify_key(self, a, b, pat, sig, conds):
        conds.append(('eq', a, b))
        return True

    def match(self, u, obj, key=None):
        """-> (binders leftover, sigma, extra guard) or None"""
        pat = set(elem(*b) for b in u.binders if b[0] != 'ord')
        sig, conds = {}, []
        if not self.unify(u.obj, obj, pat, sig, conds):
            return None
        m = {k: leaf(v) for k, v in sig.items()}
        left = [b for b in u.binders if b[0] == 'ord' or elem(*b) not in sig]
        # re-instantiate leftover binders under the substitution
        left2 = []
        for b in left:
            if b[0] == 'ord':
                T2 = subst(leaf(b[1]), m) if m else leaf(b[1])
                left2.append(('ord', T2.term if T2.atom is None else b[1]))
                continue
            S2 = subst(leaf(b[0]), m)
            if S2.atom is not None:
                # pick first leaf (rare); stay sound by using an unknown
                S2 = leaf(leafset(S2)[0])
            TM._fresh[0] += 1
            nb = (S2.term, TM._fresh[0])
            m[elem(*b)] = leaf(elem(*nb))
            left2.append(nb)
        g = TRUE
        for c in conds:
            if isinstance(c, tuple):
                lhs = subst(leaf(c[1]), m)
                if c[0] == 'eq':
                    g = b_and(g, v_eq(lhs, leaf(c[2])))
                else:
                    g = b_and(g, lift(lambda x, y: v_is_terms(x, y), lhs, leaf(c[2])))
            else:
                g = b_and(g, subst(c, m))
        return left2, m, g

    def resolve(self, log, obj, key, want, base):
        """fold matching updates over ``base``; want in ('val','has')"""
        res = base
        for u in log:
            if u.kind not in ('set', 'del'):
                continue
            kk = u.key
            if kk is not key:
                if kk.op == 'const' and key.op == 'const':
                    continue
                if key.op == 'const' and isinstance(key.args[0], str) and key.args[0].startswith(('#', '.')):
                    continue
                if kk.op == 'const' and isinstance(kk.args[0], str) and kk.args[0].startswith(('#', '.')):
                    continue
            mt = self.match(u, obj)
            if mt is None:
                continue
            left, m, g = mt
            guard = b_and(g, subst(u.guard, m))
            if kk is not key:
                ke = subst(leaf(kk), m)
                guard = b_and(guard, v_eq(ke, leaf(key)))
            guard = prune(guard)
            if guard is FALSE:
                continue
            if u.kind == 'del':
                val = UNDEF if want == 'val' else FALSE
            else:
                val = TRUE if want == 'has' else subst(u.val, m)
            if [b for b in left if b[0] != 'ord']:
                s = seq(unit(guard, val))
                for b in reversed(left):
                    if b[0] != 'ord':
                        s = seq_for(b[0], b[1], s)
                    elif b[1].op == 'reversed':
                        s = ordered(b[1], s)
                ex = s_exists(s)
                v = s_first(s, last=not u.first) if want == 'val' else val
                res = ite(ex, v, res)
            else:
                res = ite(guard, val, res)
        return res

    def read(self, obj, key, log=None):
        """value of obj[key]; key is a T"""
        log = self.log if log is None else log
        return prune(self.resolve(log, obj, key, 'val', self.base_read(obj, key)))

    def base_read(self, obj, key):
        if obj.op == 'alloc' and obj in self.memo:
            return self.memo_read(obj, key)
        if obj.op == 'alloc':
            if obj in self.escaped:
                return leaf(mk('field', self.escaped[obj], key.args[0] if is_const(key) else key))
            return UNDEF
        if obj.op == 'slot':
            return UNDEF
        if obj.op == 'dc':
            return self.dc_wrap(self.dc_snap(obj, lambda o, lg: self.read(o, key, lg)), obj)
        if obj.op == 'upd':
            for k, v in obj.args[1]:
                if k is key:
                    return v
            return self.base_read(obj.args[0], key)
        if obj.op == 'dictv':
            r = UNDEF
            for k, v in obj.args[0]:
                r = ite(v_eq_terms(k, key), v, r)
            return r
        if key.op == 'const' and isinstance(key.args[0], str):
            return chosen_field(obj, key.args[0])
        return leaf(mk('field', obj, key))

    def has(self, obj, key, log=None):
        log = self.log if log is None else log
        return prune(self.resolve(log, obj, key, 'has', self.base_has(obj, key)))

    def base_has(self, obj, key):
        if obj.op == 'alloc' and obj in self.memo:
            return b_not(self.memo_absent(obj, key))
        if obj.op == 'alloc' and obj in self.escaped:
            return atomv(mk('has', self.escaped[obj], key.args[0] if is_const(key) else key))
        if obj.op in ('alloc', 'slot'):
            return FALSE
        if obj.op == 'dc':
            return self.dc_snap(obj, lambda o, lg: self.has(o, key, lg))
        if obj.op == 'dictv':
            r = FALSE
            for k, v in obj.args[0]:
                r = b_or(r, v_eq_terms(k, key))
            return r
        if key.op == 'const' and isinstance(key.args[0], str):
            if key.args[0] in REQUIRED:
                return TRUE
            return atomv(mk('has', obj, key.args[0]))
        return atomv(mk('has', obj, key))

    # deep / shallow copies -------------------------------------------------
    def make_copy(self, t, deep):
        if t.op in ('const', 'func', 'class', 'module', 'ext', 'poly', 'sum', 'cat', 'count', 'undef', 'max', 'min', 'abs'):
            return leaf(t)
        if t.op == 'field' and isinstance(t.args[1], str) and t.args[1] not in CONTAINER_KEYS:
            return leaf(t)
        if t.op == 'seq' or t.op == 'tuple':
            if not deep:
                return leaf(t)
        self.nsnap += 1
        sid = self.nsnap
        self.snaps[sid] = (list(self.log), self.open_elems())
        site = self.new_site('dc' if deep else 'sc')
        return leaf(mk('dc', t, site, self.open_elems(), sid, bool(deep)))

    def dc_snap(self, obj, fn):
        orig, site, bs, sid, deep = obj.args
        lg, opened = self.snaps[sid]
        m = {a: b for a, b in zip(opened, bs) if a is not b}
        if m:
            # evaluate on the original binders, then substitute
            back = {b: leaf(a) for a, b in m.items()}
            o2 = subst(leaf(orig), back)
            if o2.atom is None:
                r = fn(o2.term, lg)
                if isinstance(r, T):
                    return seq_subst(r, {a: leaf(b) for a, b in m.items()})
                return subst(r, {a: leaf(b) for a, b in m.items()})
        return fn(orig, lg)

    def dc_wrap(self, v, obj):
        orig, site, bs, sid, deep = obj.args
        if not deep:
            return v

        def w(t):
            return leaf(self.dc_wrap_t(t, obj))
        return lift(w, v)

    def dc_wrap_t(self, t, obj):
        orig, site, bs, sid, deep = obj.args
        if t.op in ('elem', 'firstb', 'lastb', 'bestb', 'alloc', 'dc', 'sym') or \
                (t.op == 'field' and t.args[1] in CONTAINER_KEYS):
            return mk('dc', t, site, bs, sid, deep)
        if t.op == 'seq':
            return self.seq_map(t, lambda e: self.dc_wrap(e, obj))
        return t

    def seq_map(self, s, fn):
        out = []
        for it in s.args:
            if it.op == 'unit':
                out.append(unit(it.args[0], fn(it.args[1])))
            elif it.op == 'for':
                out.append(seq_for(it.args[0], it.args[1], self.seq_map(it.args[2], fn)))
            elif it.op == 'ord':
                out.extend(ordered(bound_tag(*it.args), self.seq_map(it.args[1], fn)).args)
            else:
                out.append(it)
        return seq(*out)

    # list contents ---------------------------------------------------------
    ITEMS = mk('const', '#items')

    def items_of(self, t, log=None):
        """sequence term with the current contents of a collection term"""
        log = self.log if log is None else log
        self.reads_items.add(t)
        if t.op == 'seq':
            return t
        if t.op in ('alloc', 'slot'):
            base = EMPTY
        elif t.op == 'dc':
            base = self.dc_snap(t, lambda o, lg: self.to_seq_t(o, lg))
            if t.args[4]:
                base = self.seq_map(base, lambda e: self.dc_wrap(e, t))
        else:
            base = seq_of_base(t)
        cur = base
        for u in log:
            if u.key is not self.ITEMS:
                continue
            mt = self.match(u, t)
            if mt is None:
                continue
            left, m, g = mt
            guard = prune(b_and(g, subst(u.guard, m)))
            if guard is FALSE:
                continue
            s = u.val
            s = seq_subst(s, m) if m else s
            if u.kind == 'append':
                s = guard_seq(s, guard)
                for b in reversed(left):
                    if b[0] == 'ord':
                        s = ordered(b[1], s)
                    else:
                        s = seq_for(b[0], b[1], s)
                cur = seq(cur, s)
            else:
                if guard is TRUE:
                    cur = s
                else:
                    cur = seq_ite(guard, s, cur)
        if t.op == 'alloc':
            pc = self.born_under(t)
            if pc is not TRUE:
                cur = seq_simp(cur, pc)
        return cur

    def to_seq_t(self, t, log=None):
        if t.op == 'seq':
            return t
        if t.op == 'tuple':
            return seq(*[unit(TRUE, a) for a in t.args])
        if t.op == 'const':
            v = t.args[0]
            if isinstance(v, (str, tuple)):
                return seq(*[unit(TRUE, const(c)) for c in v])
            return EMPTY
        if t.op == 'undef':
            return EMPTY
        if t.op == 'dictv':
            return seq(*[unit(TRUE, leaf(k)) for k, v in t.args[0]])
        if t.op == 'alloc' and self.alloc_kind(t) in ('dict', 'ddlist', 'dddict', 'group', 'ddnum'):
            return self.seq_map(self.dict_items(t), lambda e: lift(lambda p: self.tup_item(p, 0), e))
        if t.op == 'dc':
            k = strip_copy(t)
            if k.op == 'alloc' and self.alloc_kind(k) in ('dict', 'ddlist', 'group'):
                return self.dc_snap(t, lambda o, lg: self.to_seq_t(o, lg))
        if t.op == 'keysv':
            return self.to_seq_t(t.args[0], log)
        if t.op == 'inst':
            m = self.class_member(t.args[0], '__iter__')
            if m is not None and t.args[0] not in self.opaque:
                return self.to_seq(self.call(m, [leaf(t)], {}, None))
        if t.op == 'sym' and ('self', t.args[0]) in self.intrinsics:
            m = self.class_member(self.intrinsics[('self', t.args[0])], '__iter__')
            if m is not None:
                return self.to_seq(self.call(m, [leaf(t)], {}, None))
        if t.op == 'alloc' and self.alloc_kind(t) == 'set':
            return as_set(self.items_of(t, log))
        return self.items_of(t, log)

    def to_seq(self, v):
        if v.atom is None:
            return self.to_seq_t(v.term)
        return seq_alts([(g, self.to_seq_t(t)) for g, t in leaves(v, self.pc)])

    def tup_item(self, p, i):
        if p.op == 'tuple' and isinstance(i, int) and -len(p.args) <= i < len(p.args):
            return p.args[i]
        if p.op == 'undef':
            return UNDEF
        if p.op == 'seq':
            lits = literal_items(p)
            if lits is not None and -len(lits) <= i < len(lits):
                return lits[i]
            if len(p.args) == 1 and p.args[0].op == 'for' and p.args[0].args[0].op == 'listset' and \
                    p is seq_of_base(p.args[0].args[0]):
                S = p.args[0].args[0]
                if S.args[1] == i:
                    return S.args[2]
                if (S.args[1] < 0) == (i < 0):
                    return self.tup_item(S.args[0], i)
            if i == 0:
                return s_first(p)
            if i == -1:
                return s_first(p, last=True)
        if p.op == 'const' and isinstance(p.args[0], (str, tuple)):
            try:
                return const(p.args[0][i])
            except Exception:
                pass
        return leaf(mk('item', p, i))

    def dict_items(self, t):
        """sequence of (key, value) tuples of a dict allocation"""
        out = []
        seen = set()
        groups = {}
        computed = sum(1 for u in self.log if u.kind == 'set' and u.key.op != 'const' and self.match(u, t))
        for u in self.log:
            if u.key is self.ITEMS and u.obj.op == 'slot' and u.obj.args[0].op == t.op:
                mt_obj = u.obj.args[0]
                if mt_obj is not t:
                    # same site, other instance
                    if not (mt_obj.op == 'alloc' and mt_obj.args[0] is t.args[0]):
                        continue
                k = u.obj.args[1]
                m = {}
                if mt_obj is not t:
                    m = {a: leaf(b) for a, b in zip(mt_obj.args[1], t.args[1]) if a is not b}
                s = seq(unit(subst(u.guard, m), subst(leaf(k), m)))
                for b in reversed(u.binders):
                    if b[0] == 'ord':
                        continue
                    if elem(*b) in m:
                        continue
                    s = seq_for(b[0], b[1], s)
                groups.setdefault('s', []).append(s)
                continue
            if u.kind != 'set':
                continue
            kk = u.key
            if kk.op == 'const' and isinstance(kk.args[0], str) and kk.args[0].startswith('#'):
                continue
            mt = self.match(u, t)
            if mt is None:
                continue
            left, m, g = mt
            if kk.op == 'const' and not [b for b in left if b[0] != 'ord']:
                if kk in seen:
                    continue
                seen.add(kk)
                out.append(unit(self.has(t, kk), leaf(mk('tuple', leaf(kk), self.read(t, kk)))))
            else:
                ke = subst(leaf(kk), m)
                guard = b_and(g, subst(u.guard, m))
                # of several values of one key the last one counts
                val = self.read(t, ke.term) if ke.atom is None and computed == 1 else subst(u.val, m)
                s = seq(unit(guard, leaf(mk('tuple', ke, simp(val, guard)))))
                ks = seq(unit(guard, ke))
                for b in reversed(left):
                    if b[0] == 'ord':
                        s = ordered(b[1], s)
                        continue
                    s = seq_for(b[0], b[1], s)
                    ks = seq_for(b[0], b[1], ks)
                out.extend(ordered(mk('keys', ks), s).args)
        if groups:
            ks = seq(*groups['s'])
            K = mk('distinct', ks)
            e = elem(K, 0)
            out.append(seq_for(K, 0, seq(unit(TRUE, leaf(
                mk('tuple', leaf(e), leaf(mk('slot', t, e))))))))
        return seq(*out)

    def dict_has(self, t, key):
        """membership of key (T) in dict-like alloc t"""
        r = self.has(t, key)
        if t.op == 'alloc' and self.alloc_kind(t) in ('ddlist', 'group'):
            for u in self.log:
                if u.key is self.ITEMS and u.obj.op == 'slot':
                    mt = self.match(u, mk('slot', t, key))
                    if mt is None:
                        continue
                    left, m, g = mt
                    guard = b_and(g, subst(u.guard, m))
                    s = seq(unit(guard, TRUE))
                    for b in reversed(left):
                        if b[0] != 'ord':
                            s = seq_for(b[0], b[1], s)
                    r = b_or(r, s_exists(s))
        return r

    # pure snapshot of a value (for opaque uses) -----------------------------
    def pure(self, v, depth=0):
        return lift(lambda t: self.pure_t(t, depth), v)

    def pure_t(self, t, depth=0):
        if depth > 6:
            return leaf(t)
        if t.op == 'alloc':
            k = self.alloc_kind(t)
            if k in ('list', 'set', 'gen'):
                s = self.seq_map(self.items_of(t), lambda e: self.pure(e, depth + 1))
                return leaf(s)
            if k == 'dict':
                ks = []
                dyn = False
                for u in self.log:
                    if u.kind in ('set',) and self.match(u, t) is not None:
                        if u.key.op != 'const':
                            dyn = True
                        elif u.key not in ks:
                            ks.append(u.key)
                if dyn:
                    s = self.seq_map(self.dict_items(t), lambda e: self.pure(e, depth + 1))
                    return leaf(mk('mapv', s))
                ks.sort(key=lambda x: str(x.args[0]))
                out = []
                for kk in ks:
                    out.append((kk, under(self.pure(self.read(t, kk), depth + 1), self.has(t, kk))))
                return leaf(mk('dictv', tuple(out)))
            if k in ('ddlist', 'group', 'ddnum'):
                s = self.seq_map(self.dict_items(t), lambda e: self.pure(e, depth + 1))
                return leaf(mk('mapv', s))
            return leaf(t)
        if t.op == 'slot':
            return leaf(self.seq_map(self.items_of(t), lambda e: self.pure(e, depth + 1)))
        if t.op == 'tuple':
            return leaf(mk('tuple', *[self.pure(a, depth + 1) for a in t.args]))
        if t.op == 'seq':
            return leaf(self.seq_map(t, lambda e: self.pure(e, depth + 1)))
        if t.op == 'dc':
            base = strip_copy(t)
            if base.op == 'alloc':
                return self.pure_t(base, depth + 1)
            ks = []
            for u in self.log:
                if u.kind in ('set', 'del') and u.key.op == 'const' and u.key is not self.ITEMS \
                        and u.key not in ks and self.match(u, t) is not None:
                    ks.append(u.key)
            if ks and depth < 3:
                ks.sort(key=lambda x: str(x.args[0]))
                out = tuple((kk, under(self.pure(self.read(t, kk), depth + 1), self.has(t, kk))) for kk in ks)
                return leaf(mk('upd', base, out))
            return leaf(base)
        if t.op == 'field' and t.args[1] in LIST_KEYS:
            s = self.items_of(t)
            if s is not seq_of_base(t):
                return leaf(s)
        return leaf(t)

    # ---------------------------------------------------------------- names
    def lookup(self, name, node=None):
        f = self.frame
        while f is not None:
            if name in f.env:
                return simp(f.env[name], self.pc)
            f = f.closure
        return self.glob(self.frame.module.name, name, node)

    def glob(self, modname, name, node=None):
        k = (modname, name)
        if k in self.gcache:
            return self.gcache[k]
        r = self.P.find(modname, name)
        if r is None:
            if name in BUILTINS or name in HIER or name in (
                    'Exception', 'BaseException', 'NotImplementedError', 'RuntimeError', 'OSError', 'IOError'):
                v = leaf(mk('builtin', name))
            else:
                v = leaf(mk('unk', 'name:' + name))
        else:
            v = self.from_def(r, name)
        self.gcache[k] = v
        return v

    def from_def(self, r, name):
        if r[0] == 'func':
            m, node = r[1], r[2]
            return self.funcval(m, node, m.name + ':' + node.name)
        if r[0] == 'class':
            return leaf(mk('class', r[1].name + ':' + r[2].name))
        if r[0] == 'module':
            return leaf(mk('module', r[1]))
        if r[0] == 'ext':
            return ext_leaf(r[1])
        if r[0] == 'unpack':
            v = self.eval_global(r[1], r[2])
            return lift(lambda t: self.tup_item(t, r[3]), v)
        if r[1].name in OPAQUE_GLOBAL_MODULES and self.frames and self.frames[-1].module.name not in OPAQUE_GLOBAL_MODULES:
            # named configurations: their contents are decided by the pipeline rules
            return leaf(mk('global', name))
        if r[1].name + ':' + name in self.oglobals:
            return leaf(mk('global', r[1].name + ':' + name))
        return self.eval_global(r[1], r[2])

    def eval_global(self, module, expr):
        k = ('expr', module.name, expr.lineno, expr.col_offset)
        if k in self.gcache:
            return self.gcache[k]
        self.gcache[k] = self.unk('recursive-global')
        fr = Frame(module, module.name + ':<module>')
        self.frames.append(fr)
        saved = (self.pc, self.open, self.tries)
        self.pc, self.open, self.tries = TRUE, [], []
        self.pure_mode += 1
        nl = len(self.log)
        try:
            v = self.eval(expr)
            v = self.pure(v)
        finally:
            self.pure_mode -= 1
            self.pc, self.open, self.tries = saved
            self.frames.pop()
            del self.log[nl:]
        self.gcache[k] = v
        return v

    def funcval(self, module, node, qual, closure=None, cls=None, decorate=True):
        if closure is None:
            key = qual
        else:
            key = '%s#%d' % (qual, closure.uid)
        t = mk('func', key, self.uid if closure is not None else 0)
        fv = FuncVal(node, module, qual, closure, cls)
        self.funcs[t] = fv
        v = leaf(t)
        if decorate and isinstance(node, ast.FunctionDef):
            for d in reversed(node.decorator_list):
                v = self.decorate(d, v, module)
        return v

    def decorate(self, d, v, module):
        name = dotted(d.func if isinstance(d, ast.Call) else d)
        last = name.split('.')[-1] if name else ''
        if last in ('staticmethod', 'classmethod', 'property', 'lru_cache', 'cache', 'wraps', 'contextmanager'):
            return v
        if name == 'wrapt.decorator' or last == 'decorator':
            return leaf(mk('wraptdec', v.term))
        fr = Frame(module, module.name + ':<module>')
        self.frames.append(fr)
        try:
            dv = self.eval(d)
        finally:
            self.frames.pop()
        if dv.atom is None and dv.term.op == 'wraptdec':
            return leaf(mk('wrapt', dv.term.args[0], v.term))
        if dv.atom is None and dv.term.op == 'func':
            return self.call(dv, [v], {}, d)
        return leaf(mk('decorated', dv.term if dv.atom is None else mk('unk', 'dec'), v.term))

    # ---------------------------------------------------------------- raise
    def catches(self, names, exc):
        for n in names:
            if n == '*' or n == exc or n in HIER.get(exc, ('Exception', 'BaseException')):
                return True
            # repo exceptions deriving from each other
            if exc not in HIER and n in self.exc_bases(exc):
                return True
        return False

    def exc_bases(self, exc):
        r = self.P.find('ocelot.errors', exc)
        out = set(('Exception', 'BaseException'))
        if r and r[0] == 'class':
            for b in r[2].bases:
                n = dotted(b).split('.')[-1]
                out.add(n)
                out |= set(self.exc_bases(n)) if n not in HIER and n != 'Exception' else set(HIER.get(n, ()))
        return out

    def do_raise(self, exc, cond, node, args=None):
        """raise exc under cond (subset of pc); removes cond from pc"""
        g = prune(b_and(self.pc, cond))
        if g is FALSE:
            return
        self.pc = prune(b_and(self.pc, b_not(cond)))
        for tr in reversed(self.tries):
            for i, names in enumerate(tr.names):
                if self.catches(names, exc):
                    opened = [b for b in self.open[tr.depth:] if b[0] != 'ord']
                    gg = g
                    for b in reversed(opened):
                        gg = v_exists(b[0], b[1], gg)
                    tr.hit[i] = b_or(tr.hit[i], gg)
                    return
        self.raises.append(Ev((), g, exc, args, getattr(node, 'lineno', 0), self.frame.qual))

    def catching(self, exc):
        return any(self.catches(n, exc) for tr in self.tries for n in tr.names)

    # ---------------------------------------------------------------- statements
    def block(self, stmts):
        for st in stmts:
            if self.pc is FALSE:
                return
            self.stmt(st)

    def stmt(self, st):
        self.steps += 1
        if self.steps > 400000:
            raise Limit('too many statements')
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            self.note(st, 'statement ' + type(st).__name__)
            return
        m(st)

    def s_Pass(self, st):
        pass

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.eval(st.value)
            return
        self.eval(st.value)

    def s_Import(self, st):
        for a in st.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            self.assign_name(nm, leaf(mk('module', full) if full in self.P.modules else mk('ext', full)))

    def s_ImportFrom(self, st):
        base = self.frame.module._base(st)
        for a in st.names:
            if base in self.P.modules:
                r = self.P.find(base, a.name)
                v = self.from_def(r, a.name) if r else self.unk('import ' + a.name)
            else:
                v = ext_leaf(base + '.' + a.name)
            self.assign_name(a.asname or a.name, v)

    def s_Global(self, st):
        self.note(st, 'global')

    def s_Nonlocal(self, st):
        self.note(st, 'nonlocal')

    def s_FunctionDef(self, st):
        v = self.funcval(self.frame.module, st, self.frame.qual + '.' + st.name, closure=self.frame)
        self.assign_name(st.name, v)

    def s_ClassDef(self, st):
        self.note(st, 'local class')

    def s_Return(self, st):
        v = self.eval(st.value) if st.value is not None else NONE
        f = self.frame
        f.retv = ite(self.pc, simp(v, self.pc), f.retv)
        f.retg = b_or(f.retg, self.pc)
        self.pc = FALSE

    def s_Raise(self, st):
        if st.exc is None:
            # re-raise
            self.do_raise(getattr(self, 'cur_exc', '*reraise*'), TRUE, st)
            return
        e = st.exc
        name = dotted(e.func if isinstance(e, ast.Call) else e)
        name = name.split('.')[-1] if name else 'Exception'
        args = None
        if isinstance(e, ast.Call):
            try:
                args = tuple(self.eval(a) for a in e.args if not isinstance(a, ast.Starred))
            except Limit:
                raise
        elif isinstance(e, ast.Name):
            v = self.lookup(e.id)
            if v.atom is None and v.term.op == 'call' and v.term.args:
                name = str(v.term.args[0]).split(':')[-1].split('.')[-1]
            elif v.atom is None and v.term.op == 'inst':
                name = v.term.args[0].split(':')[-1]
        self.do_raise(name, TRUE, st, args)

    def s_Assert(self, st):
        c = self.cond(st.test)
        self.do_raise('AssertionError', b_not(c), st)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                obj = self.eval(t.value)
                key = self.eval(t.slice)
                self.delete_item(obj, key, t)
            elif isinstance(t, ast.Name):
                self.assign_name(t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value)
                for g, o in leaves(obj, self.pc):
                    self.add(o, mk('const', '.' + t.attr), UNDEF, 'del', guard=b_and(self.pc, g), line=t.lineno)

    def delete_item(self, obj, key, node):
        for g, o in leaves(obj, self.pc):
            for g2, k in leaves(self.pure(key), b_and(self.pc, g)):
                gg = b_and(self.pc, g, g2)
                if self.catching('KeyError'):
                    h = self.has(o, k)
                    self.do_raise('KeyError', b_and(gg, b_not(h)), node)
                    gg = b_and(gg, self.pc)
                if o.op in ('alloc',) and self.alloc_kind(o) == 'list':
                    self.note(node, 'list item deletion')
                    continue
                self.add(o, k, UNDEF, 'del', guard=gg, line=getattr(node, 'lineno', None))

    def assign_name(self, name, v):
        env = self.frame.env
        old = env.get(name, UNDEF)
        env[name] = prune(ite(self.pc, simp(v, self.pc), old)) if self.pc is not TRUE else v

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    s = self.to_seq(v)
                    lits = literal_items(s)
                    if lits is not None:
                        part = lits[i:len(lits) - (n - i - 1)]
                        self.assign(e.value, self.new_list(seq(*[unit(TRUE, x) for x in part])))
                    elif i == n - 1:
                        self.assign(e.value, self.slice(v, const(i), None, None))
                    else:
                        self.assign(e.value, self.unk('starred'))
                    continue
                if star and i > star[0]:
                    self.assign(e, self.index_int(v, i - n))
                else:
                    self.assign(e, self.index_int(v, i))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    s = self.to_seq(v)
                    for g, o in leaves(obj, self.pc):
                        self.add(o, self.ITEMS, s, 'set', guard=b_and(self.pc, g), line=t.lineno)
                    return
                self.note(t, 'slice assignment')
                return
            key = self.eval(t.slice)
            self.store(obj, key, v, t)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            for g, o in leaves(obj, self.pc):
                self.add(o, mk('const', '.' + t.attr), v, guard=b_and(self.pc, g), line=t.lineno)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def store(self, obj, key, v, node):
        for g, o in leaves(obj, self.pc):
            if o.op == 'series':
                self.series_store(o, key, v, node, g)
                continue
            if o.op == 'dframe':
                self.df_store(node, o, key, v, g)
                continue
            for g2, k in leaves(self.pure(key), b_and(self.pc, g)):
                if o.op == 'alloc' and self.alloc_kind(o) == 'list':
                    if is_const(k) and isinstance(k.args[0], int):
                        s = self.items_of(o)
                        lits = literal_items(s)
                        if lits is not None and -len(lits) <= k.args[0] < len(lits):
                            lits = list(lits)
                            lits[k.args[0]] = v
                            self.add(o, self.ITEMS, seq(*[unit(TRUE, x) for x in lits]), 'set',
                                     guard=b_and(self.pc, g, g2), line=node.lineno)
                            continue
                        old = self.pure(leaf(o))
                        if old.atom is None:
                            S = mk('listset', old.term, k.args[0], self.pure(v))
                            self.add(o, self.ITEMS, seq_of_base(S), 'set', guard=b_and(self.pc, g, g2), line=node.lineno)
                            continue
                    self.note(node, 'list item store')
                    continue
                if o.op in ('undef',):
                    continue
                self.add(o, k, v, guard=b_and(self.pc, g, g2), line=getattr(node, 'lineno', None))

    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(st.value)
            if isinstance(st.op, ast.Add) and cur.atom is None and cur.term.op in ('alloc',) and \
                    self.alloc_kind(cur.term) == 'list':
                self.extend(cur, v, st)
                return
            if isinstance(st.op, ast.BitOr) and cur.atom is None and cur.term.op == 'alloc' and \
                    self.alloc_kind(cur.term) == 'set':
                self.extend(cur, v, st)
                return
            self.assign_name(t.id, self.binop(st.op, cur, v, st))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            key = self.eval(t.slice)
            v = self.eval(st.value)
            for g, o in leaves(obj, self.pc):
                if o.op == 'alloc' and self.alloc_kind(o) == 'ddlist':
                    for g2, k in leaves(self.pure(key), b_and(self.pc, g)):
                        self.extend(leaf(mk('slot', o, k)), v, st, b_and(self.pc, g, g2))
                    continue
                for g2, k in leaves(self.pure(key), b_and(self.pc, g)):
                    cur = self.getitem(leaf(o), leaf(k), st)
                    if o.op == 'alloc' and self.alloc_kind(o) == 'ddnum':
                        cur = lift(lambda x: ZERO if x.op == 'undef' else leaf(x), cur)
                    if isinstance(st.op, ast.Add) and cur.atom is None and self.listish(cur.term):
                        self.extend(cur, v, st, b_and(self.pc, g, g2))
                        continue
                    if o.op == 'alloc' and self.alloc_kind(o) == 'list':
                        p0 = self.pc
                        self.pc = prune(b_and(p0, g, g2))
                        self.store(leaf(o), leaf(k), self.binop(st.op, cur, v, st), st)
                        self.pc = p0
                        continue
                    self.add(o, k, self.binop(st.op, cur, v, st), guard=b_and(self.pc, g, g2), line=st.lineno)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            v = self.eval(st.value)
            for g, o in leaves(obj, self.pc):
                k = mk('const', '.' + t.attr)
                cur = self.read_attr(o, t.attr)
                self.add(o, k, self.binop(st.op, cur, v, st), guard=b_and(self.pc, g), line=st.lineno)

    def listish(self, t):
        return t.op in ('seq', 'tuple') or (t.op == 'alloc' and self.alloc_kind(t) == 'list') or \
            (t.op == 'field' and t.args[1] in LIST_KEYS) or (t.op == 'dc' and self.listish(strip_copy(t))) \
            or t.op == 'slot'

    def s_If(self, st):
        c = self.cond(st.test)
        p0 = self.pc
        self.pc = prune(b_and(p0, c))
        if self.pc is not FALSE:
            self.block(st.body)
        p1 = self.pc
        self.pc = prune(b_and(p0, b_not(c)))
        # raises inside cond evaluation narrowed p0 already
        if self.pc is not FALSE:
            self.block(st.orelse)
        self.pc = prune(b_or(p1, self.pc))

    def s_With(self, st):
        for it in st.items:
            v = self.eval(it.context_expr)
            name = 'with'
            self.calls.append(Ev((), self.pc, 'with', (v,), st.lineno, self.frame.qual))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, lift(lambda t: leaf(t) if t.op == 'call' and t.args[0] == 'builtins.open' else leaf(mk('ctx', t)), self.pure(v)))
        self.block(st.body)

    def exc_names(self, e, mod, depth=0):
        """names of the exceptions an except clause names"""
        if isinstance(e, (ast.Tuple, ast.List)):
            return [n for x in e.elts for n in self.exc_names(x, mod, depth)]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.exc_names(e.left, mod, depth) + self.exc_names(e.right, mod, depth)
        name = dotted(e).split('.')[-1]
        if isinstance(e, ast.Name) and depth < 4:
            r = self.P.find(mod, e.id)
            if r is not None:
                if r[0] == 'assign':
                    return self.exc_names(r[2], r[1].name, depth + 1)
                if r[0] == 'class':
                    return [r[2].name]
                if r[0] == 'ext':
                    return [r[1].split('.')[-1]]
        return [name]

    def s_Try(self, st):
        names = []
        for h in st.handlers:
            names.append(('*',) if h.type is None else tuple(sorted(set(self.exc_names(h.type, self.frame.module.name)))))
        tr = TryCtx(names, len(self.open))
        before = self.marks()
        p0 = self.pc
        nc0 = len(self.calls)
        self.tries.append(tr)
        try:
            self.block(st.body)
        finally:
            self.tries.pop()
        if self.pc is not FALSE:
            self.block(st.orelse)
        pend = self.pc
        inside = []
        for e in self.calls[nc0:]:
            d = [x for x in (e.data or ()) if isinstance(x, N)]
            if e.binders or any(t.op in ('alloc', 'dc', 'slot', 'func', 'inst') or t.op == 'carried' and t.args[0] != 'k'
                                for x in d for t in subterms(x)):
                d = []
            c = mk('call', 'try:' + e.name, *d)
            if c not in inside:
                inside.append(c)
        inside.sort(key=lambda c: c.args[0])
        inside = mk('tuple', *[leaf(c) for c in inside])
        after = self.marks()
        for h, hit, ns in zip(st.handlers, tr.hit, names):
            # handlers for exceptions that only opaque calls can raise get a
            # symbolic guard
            cond = hit
            if hit is FALSE and not self.pure_mode:
                modelled = all(n in ('KeyError', 'IndexError', 'StopIteration', 'AssertionError') or
                               (n not in HIER and n not in ('Exception', 'BaseException', '*'))
                               for n in ns)
                body_calls = any(isinstance(x, ast.Call) for b in st.body for x in ast.walk(b))
                if not modelled or body_calls and not all(
                        n in ('KeyError', 'AssertionError', 'StopIteration', 'IndexError') for n in ns):
                    cond = b_and(p0, atomv(mk('ucond', 'raises', '/'.join(sorted(ns)), inside, *self.open_elems()[-1:])))
            self.pc = prune(b_and(p0, cond)) if cond is not FALSE else FALSE
            if self.pc is FALSE:
                continue
            if cond is not hit:
                pend = prune(b_and(pend, b_not(cond)))
                risky = (ast.Subscript, ast.Div) if set(ns) & {'*', 'Exception', 'BaseException'} else \
                    (ast.Subscript,) if set(ns) & {'KeyError', 'IndexError', 'LookupError'} else \
                    (ast.Div, ast.Mod, ast.FloorDiv) if set(ns) & {'ZeroDivisionError', 'ArithmeticError'} else ()
                if not any(isinstance(x, risky) for b in st.body for x in ast.walk(b)):
                    for n, (lst, m0, m1) in enumerate(zip((self.log, self.logs, self.calls, self.raises), before, after)):
                        for i in range(m0, m1):
                            later = FALSE
                            for m, p in tr.points:
                                if m[n] > i:
                                    later = b_or(later, p)
                            if later is not TRUE:
                                g = prune(b_and(lst[i].guard, b_or(later, b_not(cond))))
                                lst[i] = lst[i].copy(guard=g)
            if h.name:
                self.assign_name(h.name, leaf(mk('exc', '/'.join(ns))))
            old = getattr(self, 'cur_exc', None)
            self.cur_exc = ns[0] if ns[0] != '*' else 'BaseException'
            self.block(h.body)
            self.cur_exc = old
            pend = prune(b_or(pend, self.pc))
        self.pc = pend
        if st.finalbody:
            p = self.pc
            self.pc = p0 if p is FALSE else p
            nc, nl = len(self.calls), len(self.logs)
            self.block(st.finalbody)
            for lst, m0 in ((self.calls, nc), (self.logs, nl)):
                for e in list(lst[m0:]):
                    if not e.name.startswith('finally '):
                        lst.append(e.copy(name='finally ' + e.name))
            self.pc = FALSE if p is FALSE else self.pc

    def s_Break(self, st):
        lp = self.frame.loop
        lp.brk = b_or(lp.brk, self.pc)
        self.pc = FALSE

    def s_Continue(self, st):
        lp = self.frame.loop
        lp.cont = b_or(lp.cont, self.pc)
        self.pc = FALSE

    def s_While(self, st):
        # generic fold: carried variables; condition and body as functions
        self.while_loop(st)

    def s_For(self, st):
        it = self.eval(st.iter)
        fr = self.frame
        outer = fr.loop
        anybrk = FALSE

        def body(v):
            lp = Loop()
            saved = fr.loop
            fr.loop = lp
            self.assign(st.target, v)
            mark, cmark = len(self.log), len(self.calls)
            self.block(st.body)
            self.pc = b_or(self.pc, lp.cont)
            for u in self.calls[cmark:]:
                if u.name == '.removeHandler' and u.data and sat(b_and(u.guard, self.pc)):
                    disturbed.extend(o for o in objs if o.op == 'attr' and o.args[1] == 'handlers' and
                                     leaf(o.args[0]) is (leaf(u.data[0]) if isinstance(u.data[0], T) else u.data[0]))
            for u in self.log[mark:]:
                if u.obj in objs and self.resizes(u) and u.obj not in disturbed and sat(b_and(u.guard, self.pc)):
                    disturbed.append(u.obj)
            fr.loop = saved
            return lp.brk
        # what is being walked through, not copied
        objs, disturbed = set(), []
        for g, t in leaves(it, self.pc):
            objs.add(t)
        for w in walked(st.iter):
            for g, t in leaves(self.eval(w), self.pc):
                objs.add(t)
        p0 = self.pc
        brk_total = self.iterate(it, body, st)
        if disturbed:
            # elements are skipped or visited twice, dictionaries raise
            self.raises.append(Ev((), p0, 'CollectionChangedWhileWalkedThrough', None, st.lineno, fr.qual))
        if st.orelse:
            p = self.pc
            self.pc = prune(b_and(p, b_not(brk_total)))
            self.block(st.orelse)
            self.pc = prune(b_or(self.pc, b_and(p, brk_total)))

    def resizes(self, u):
        if u.kind == 'del':
            return True
        if u.key is not self.ITEMS:
            return False
        return not any(t.op == 'listset' for t in subterms(u.val)) if isinstance(u.val, (N, T)) else True

    # ---------------------------------------------------------------- iteration
    def iterate(self, v, body, node):
        """run ``body(element)`` for every element of v.  body returns the
        break guard.  Returns the guard under which a break happened (outer)."""
        brk_total = FALSE
        if v.atom is None:
            alts = [(TRUE, v.term)]
        else:
            alts = leaves(v, self.pc)
        p0 = self.pc
        done = FALSE
        for g, t in alts:
            self.pc = prune(b_and(p0, g)) if len(alts) > 1 else p0
            if self.pc is FALSE:
                continue
            s = self.to_seq_t(t)
            br = self.iter_seq(s, body, node)
            brk_total = b_or(brk_total, br)
            done = b_or(done, b_or(self.pc, br))
        self.pc = prune(done)
        return brk_total

    def iter_seq(self, s, body, node):
        """returns break guard; self.pc afterwards excludes breaks"""
        brk_total = FALSE
        parts = []
        for it in s.args:
            if it.op == 'unit' and it.args[1].atom is not None:
                # alternatives of constants, one after the other
                alts = [(g, x) for g, x in leaves(it.args[1], it.args[0]) if x.op != 'undef']
                if all(constant_tuple(x) for g, x in alts):
                    parts.extend(mk('unit', prune(b_and(it.args[0], g)), leaf(x)) for g, x in alts)
                    continue
            parts.append(it)
        for it in parts:
            if self.pc is FALSE:
                break
            if it.op == 'unit':
                g, e = it.args
                p0 = self.pc
                skip = prune(b_and(p0, b_not(g)))
                self.pc = prune(b_and(p0, g))
                if self.pc is FALSE:
                    self.pc = skip
                    continue
                br = body(simp(e, g))
                brk_total = b_or(brk_total, br)
                self.pc = prune(b_or(self.pc, skip))
            elif it.op == 'for':
                br = self.binder_loop(it, body, node)
                brk_total = b_or(brk_total, br)
            elif it.op == 'ord':
                tag = bound_tag(*it.args)
                self.open.append(('ord', tag))
                marks = self.marks()
                try:
                    br = self.iter_seq(it.args[1], body, node)
                finally:
                    self.open.pop()
                self.add_binder(marks, ('ord', tag), None)
                brk_total = b_or(brk_total, br)
            else:
                t = mk('for', it, 0, mk('seq', mk('unit', TRUE, leaf(elem(it, 0)))))
                br = self.binder_loop(t, body, node)
                brk_total = b_or(brk_total, br)
        return prune(brk_total)

    def marks(self):
        return (len(self.log), len(self.logs), len(self.calls), len(self.raises))

    def add_binder(self, marks, b, conv):
        for lst, mk0 in zip((self.log, self.logs, self.calls, self.raises), marks):
            new = []
            for u in lst[mk0:]:
                r = conv(u) if conv else u
                if r is None:
                    continue
                if r.binders is not None and not getattr(r, '_nobind', False):
                    new.append(r.copy(binders=(b,) + tuple(r.binders)))
                else:
                    new.append(r)
            lst[mk0:] = new

    def snapshot(self):
        return (dict((id(f), dict(f.env)) for f in self.frames), self.pc, self.marks(),
                [(f, f.retg, f.retv) for f in self.frames],
                [(tr, list(tr.hit)) for tr in self.tries], set(self.reads_items),
                len(self.unmodelled), [(f, f.loop.brk, f.loop.cont) for f in self.frames if f.loop])

    def restore(self, s):
        envs, pc, marks, rets, trs, ri, nu, lps = s
        for f in self.frames:
            if id(f) in envs:
                f.env.clear()
                f.env.update(envs[id(f)])
        self.pc = pc
        for lst, m in zip((self.log, self.logs, self.calls, self.raises), marks):
            del lst[m:]
        for f, g, v in rets:
            f.retg, f.retv = g, v
        for tr, h in trs:
            tr.hit[:] = h
        self.reads_items = ri
        del self.unmodelled[nu:]
        for f, b, c in lps:
            f.loop.brk, f.loop.cont = b, c

    _lvl = [0]
    tag = None      # order in which the current loop goes through its elements

    def order_tag(self):
        tags = []
        for x in reversed(self.open):
            if x[0] != 'ord':
                break
            if x[1].op == 'reversed':
                if tags and tags[-1].op == 'reversed':
                    tags.pop()
                else:
                    tags.append(x[1])
            elif x[1].op not in ('set', 'keys'):
                t = x[1]
                if t.op == 'sorted' and len(t.args) == 3 and plain_base(t.args[2]):
                    t = mk('sorted', *t.args[:2])
                tags.append(t)
                break
        if not tags:
            return None
        return tags[0] if len(tags) == 1 else mk('tags', *tags)

    def binder_loop(self, item, body, node):
        S, n, q = item.args
        TM._fresh[0] += 1
        m = TM._fresh[0]
        b = elem(S, m)
        q = seq_subst(q, {elem(S, n): leaf(b)})
        fr = self.frame
        snap = self.snapshot()
        p0 = self.pc
        env0 = dict(fr.env)
        log0 = len(self.log)
        ret0 = (fr.retg, fr.retv)

        def once(carry_env, carry_cells, carry_items):
            self.open.append((S, m))
            fr.retg, fr.retv = FALSE, UNDEF
            for name, t in carry_env.items():
                fr.env[name] = leaf(t)
            for (o, k), t in carry_cells.items():
                self.log.append(U((), TRUE, o, k, leaf(t), 'set'))
            for o, t in carry_items.items():
                self.log.append(U((), TRUE, o, self.ITEMS, mk('seq', mk('spread', t)), 'set'))
            self.reads_items = set()
            try:
                br = self.iter_seq(q, body, node)
            finally:
                self.open.pop()
            return br

        # pass 1: discover what the body changes
        dr0, self.dyn_reads = self.dyn_reads, set()
        filled = {}
        once({}, {}, {})
        for u in self.log[log0:]:
            if u.kind in ('set', 'del') and u.obj in self.dyn_reads and not self.fresh_in(u.obj, b) \
                    and (u.key.op != 'const' or u.obj in filled):
                filled.setdefault(u.obj, []).append(u)
        self.dyn_reads |= dr0
        changed = [k for k, v in fr.env.items() if k in env0 and v is not env0[k]]
        changed += [k for k, v in fr.env.items() if k not in env0]
        cells = []
        for u in self.log[log0:]:
            if u.kind == 'set' and u.key is not self.ITEMS and u.key.op == 'const' and b not in free(u.obj) \
                    and not u.binders_free(b) if hasattr(u, 'binders_free') else (
                        u.kind in ('set', 'del') and u.key is not self.ITEMS and u.key.op == 'const'
                        and b not in free(u.obj)
                        and not any(bb[0] != 'ord' and elem(*bb) in free(u.obj) for bb in u.binders)):
                if (u.obj, u.key) not in cells and not self.fresh_in(u.obj, b):
                    cells.append((u.obj, u.key))
        appended = []
        for u in self.log[log0:]:
            if u.key is self.ITEMS and b not in free(u.obj) and not self.fresh_in(u.obj, b):
                if (u.kind == 'set' or u.obj in self.reads_items) and u.obj not in appended:
                    appended.append(u.obj)
        left = []
        if isinstance(self.suppose, tuple):
            left = [o for o in appended if o.op == 'alloc' and self.alloc_kind(o) == 'list' and o not in self.tested
                    and s_exists(self.items_of(o)) is not FALSE]
            at = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
            if left and self.suppose[1] in (None, at):
                self.left_out.add(at)
            if self.suppose[1] == at:
                appended = [o for o in appended if o not in left]
        self.restore(snap)
        memo = {}
        if filled:
            for o, us in filled.items():
                u = us[0]
                if len(us) == 1 and all(x[0] != 'ord' for x in u.binders) and u.kind == 'set' and o.op == 'alloc' \
                        and self.alloc_kind(o) == 'dict' and o not in self.escaped and self.order_tag() is None \
                        and not any(w.obj is o for w in self.log) and isinstance(u.val, N) and (u.first or not u.binders):
                    memo[o] = (S, b, u)
            if len(memo) != len(filled):
                self.note(node, 'dictionary filled and read in one loop')
                memo = {}
        fr.retg, fr.retv = ret0
        Interp._lvl[0] += 1
        lvl = Interp._lvl[0]
        ce = {k: mk('carried', 'v', k, lvl) for k in changed}
        cc = {c: mk('carried', 'c', c[0], c[1], lvl) for c in cells}
        ci = {o: mk('carried', 'i', o, lvl) for o in appended}
        init = {}
        emptied = set()
        for k, t in ce.items():
            init[t] = simp(env0.get(k, UNDEF), p0)
        for c, t in cc.items():
            init[t] = simp(self.read(c[0], c[1]), p0)
            # absent keys stay absent
        for o, t in ci.items():
            its = self.items_of(o)
            if its.args and implies(self.pc, b_not(s_exists(its))):
                its = EMPTY
                emptied.add(o)
            init[t] = leaf(its)
        marks = self.marks()
        hits0 = [(tr, list(tr.hit)) for tr in self.tries]
        for o, x in memo.items():
            self.memo.setdefault(o, []).append(x)
        br = once(ce, cc, ci)
        self.reads_items |= snap[5]
        self.tag = self.order_tag()
        for o, (_, _, u1) in memo.items():
            at = [i for i in range(marks[0], len(self.log)) if self.log[i].obj is o]
            u = self.log[at[0]] if len(at) == 1 else None
            ok = u is not None and u.kind == 'set' and len(u.binders) == len(u1.binders) and isinstance(u.val, N)
            if ok:
                ren = {}
                for x, y in zip(u.binders, u1.binders):
                    if x[0] == 'ord' or subst(leaf(x[0]), ren) is not leaf(y[0]):
                        ok = False
                        break
                    if x[1] != y[1]:
                        ren[elem(*x)] = leaf(elem(*y))
            if ok:
                g2 = prune(b_and(u1.guard, self.memo_absent(o, u1.key, self.memo[o][-1])))
                g = subst(u.guard, ren)
                ok = subst(leaf(u.key), ren) is leaf(u1.key) and implies(g, g2) and implies(g2, g)
            if ok and simp(subst(u.val, ren), g2) is not simp(u1.val, g2):
                # what the entry is made of is only asked for in a round that makes one
                known = {a: TRUE for a in subterms(g2) if a.op == 'pre' and implies(g2, atomv(a))}
                ok = simp(subst(subst(u.val, ren), known), g2) is simp(subst(u1.val, known), g2)
            if ok:
                self.log[at[0]] = u1.copy(first=True)
            else:
                self.note(node, 'dictionary filled and read in one loop')
        for o in memo:
            self.memo[o].pop()
            if not self.memo[o]:
                del self.memo[o]
        # collect new values
        pend = self.pc
        news = {}
        cont_live = prune(b_or(pend, br))
        for k, t in ce.items():
            news[t] = simp(fr.env[k], cont_live)
        for c, t in cc.items():
            news[t] = simp(self.read(c[0], c[1]), p0)
        for o, t in ci.items():
            news[t] = leaf(self.items_of(o))
        rg, rv = fr.retg, fr.retv
        fr.retg, fr.retv = ret0
        # drop cell bookkeeping from the log
        keep = []
        for i, u in enumerate(self.log[marks[0]:]):
            if (u.obj, u.key) in cc or (u.key is self.ITEMS and u.obj in ci):
                continue
            keep.append(u)
        self.log[marks[0]:] = keep
        carried = list(ce.values()) + list(cc.values()) + list(ci.values())
        seen = self.seen_before(ci, news, init, S, m, b, carried, marks, (br, rg, rv))
        if seen:
            seen, kept = seen
            try:
                news2 = {t: subst(kept.get(t, news[t]), seen) for t in carried}
                more = [simp(subst(x, seen), p0) for x in (br, rg, rv)]
                new = [[self.settled(u, seen) for u in lst[mk0:]]
                       for lst, mk0 in zip((self.log, self.logs, self.calls, self.raises), marks)]
            except TM.Captured:
                new = None
            if new is not None:
                news.update(news2)
                br, rg, rv = more
                for lst, mk0, us in zip((self.log, self.logs, self.calls, self.raises), marks, new):
                    lst[mk0:] = us
        X = prune(b_or(br, rg))        # leaves the loop at this element
        if X is not FALSE:
            for u in self.raises[marks[3]:]:
                gg = u.guard
                for bb in reversed(u.binders):
                    if bb[0] != 'ord':
                        gg = v_exists(bb[0], bb[1], gg)
                X = prune(b_or(X, gg))
        # a variable that only changes on the way out of the loop still has
        # its initial value in every round
        leaving = {}
        if X is not FALSE:
            for t in carried:
                region = FALSE
                for g, x in leaves(news[t]):
                    if x.op == 'seq' and x.args and x.args[0] is mk('spread', t):
                        region = b_or(region, b_and(g, s_exists(mk('seq', *x.args[1:]))))
                    elif x is not t:
                        region = b_or(region, g)
                region = prune(region)
                region = prune(b_and(region, p0))
                if region is not FALSE and implies(region, X):
                    leaving[t] = region
            if leaving:
                at0 = {t: init[t] for t in leaving}
                for t in carried:
                    grown = self.appended(t, news[t]) if t in leaving else None
                    if grown is not None:
                        news[t] = leaf(seq(mk('spread', t), *seq_subst(grown, at0).args))
                    elif t in leaving:
                        region = leaving[t]
                        news[t] = ite(prune(subst(region, at0)), subst(simp(news[t], region), at0), leaf(t))
                    else:
                        news[t] = subst(news[t], at0)
                X, rg, rv, br = [prune(subst(x, at0)) for x in (X, rg, rv, br)]
        # classify -----------------------------------------------------
        final = {}
        others = []
        for lst, mk0 in zip((self.log, self.logs, self.calls, self.raises), marks):
            for u in lst[mk0:]:
                if lst is self.logs:
                    continue
                others.append(u.guard)
                if isinstance(getattr(u, 'val', None), (N, T)):
                    others.append(u.val)
                if isinstance(u, U):
                    others.append(u.obj)
                    others.append(u.key)
                else:
                    if isinstance(u.data, tuple):
                        others.extend(x for x in u.data if isinstance(x, (N, T)))
        others += [X, rv]
        used_by_others = set()
        for o in others:
            used_by_others |= (free(o) & set(carried))
        used_by_others -= set(leaving)
        uses = {}
        for t in carried:
            uses[t] = free(news[t]) & set(carried)
        foldset = set(used_by_others)
        simple = {}
        for t in carried:
            f = self.classify(t, news[t], S, m, b, X)
            if f is None and t in leaving:
                f = self.grown_at_exit(t, news[t], S, m, b, X)
            if f is None or (uses[t] - {t}):
                foldset.add(t)
            else:
                simple[t] = f
        # variables that simple ones depend on
        ch = True
        while ch:
            ch = False
            for t in carried:
                if t not in foldset and (uses[t] & foldset):
                    foldset.add(t)
                    ch = True
                if t in foldset:
                    for w in uses[t]:
                        if w not in foldset:
                            foldset.add(w)
                            ch = True
        # unchanged carried variables are constants
        trivial = {t for t in foldset if news[t] is leaf(t)}
        sub = {t: init[t] for t in trivial}
        foldset -= trivial
        sub.update((t, init[t]) for t in leaving if t not in foldset)
        for t in carried:
            if t in foldset:
                continue
            if t in trivial:
                final[t] = init[t]
            else:
                final[t] = simple[t](init[t])
        if foldset or sub:
            X = subst(X, sub) if sub else X
        if foldset:
            # one fold per variable, over the variables it depends on
            sub2 = dict(sub)
            xs = free(X) & foldset
            made = {}
            for t in carried:
                if t not in foldset:
                    continue
                grp, work = set(), [t] + list(xs)
                while work:
                    w = work.pop()
                    if w not in grp and w in foldset:
                        grp.add(w)
                        work.extend(uses[w])
                grp = frozenset(grp)
                if grp not in made:
                    made[grp] = self.make_fold(S, m, b, grp, news, init, X, sub)
                F, order = made[grp]
                i = order.index(t)
                sub2[t] = leaf(mk('foldat', i, F, b))
                final[t] = leaf(mk('foldout', i, F))
            for t in carried:
                # a list that only grows: the elements it was given, in order
                if t in foldset and X is FALSE:
                    grown = self.appended(t, news[t])
                    if grown is not None and init[t].atom is None and init[t].term.op == 'seq':
                        final[t] = leaf(seq(*(init[t].term.args + seq_for(S, m, seq_subst(grown, sub2)).args)))
                    elif grown is None:
                        left = self.thinned(t, news[t], init[t], S, m, b)
                        if left is not None:
                            final[t] = left
        else:
            sub2 = sub

        def fixN(x):
            return subst(x, sub2) if sub2 else x
        X = fixN(X)
        rg, rv, br = fixN(rg), fixN(rv), fixN(br)
        first = None
        if X is not FALSE:
            first = select('firstb', S, m, X, tag=self.tag)
        exX = v_exists(S, m, X) if X is not FALSE else FALSE

        def conv(u):
            kw = {}
            g = fixN(u.guard)
            if sub2:
                if isinstance(u, U):
                    kw['val'] = (seq_subst(u.val, sub2) if isinstance(u.val, T) else fixN(u.val))
                else:
                    if isinstance(u.data, tuple):
                        kw['data'] = tuple(fixN(x) if isinstance(x, N) else x for x in u.data)
            if X is not FALSE:
                if implies(g, X):
                    kw['guard'] = prune(g)
                    # happens only at the exit element: keep as quantified,
                    # restricted to the first such element
                    kw['guard'] = prune(b_and(g, self.pre_atom(b, S, m, X)))
                else:
                    kw['guard'] = prune(b_and(g, self.pre_atom(b, S, m, X)))
            else:
                kw['guard'] = prune(g)
            if kw['guard'] is FALSE:
                return None
            return u.copy(**kw)
        self.add_binder(marks, (S, m), conv)
        # fix evs/updates that only happen at the exit element: instantiate
        if X is not FALSE:
            for lst, mk0 in zip((self.log, self.logs, self.calls, self.raises), marks):
                new = []
                for u in lst[mk0:]:
                    g0 = self.strip_pre(u.guard, b)
                    if implies(g0, X) and u.binders and u.binders[0] == (S, m):
                        sm = {b: first}
                        kw = dict(binders=u.binders[1:], guard=prune(b_and(exX, p0, subst(g0, sm))))
                        if isinstance(u, U):
                            kw['val'] = seq_subst(u.val, sm) if isinstance(u.val, T) else subst(u.val, sm)
                            ob = subst(leaf(u.obj), sm)
                            ky = subst(leaf(u.key), sm)
                            bs = []
                            for bb in kw['binders']:
                                bs.append(bb)
                            if ob.atom is None and ky.atom is None:
                                if kw['guard'] is not FALSE:
                                    # inner binders may mention b
                                    if all(bb[0] == 'ord' or b not in free(bb[0]) for bb in bs):
                                        new.append(u.copy(obj=ob.term, key=ky.term, **kw))
                                    else:
                                        new.append(u)
                                continue
                        else:
                            if isinstance(u.data, tuple):
                                kw['data'] = tuple(subst(x, sm) if isinstance(x, N) else x for x in u.data)
                            if kw['guard'] is not FALSE:
                                new.append(u.copy(**kw))
                            continue
                    new.append(u)
                lst[mk0:] = new
        if X is FALSE:
            self.sum_updates(marks[0], S, m, b)
        self.merge_appends(marks[0], (S, m))
        self.merge_sets(marks[0], (S, m))
        # write back carried values
        for k, t in ce.items():
            fr.env[k] = prune(ite(p0, final[t], env0.get(k, UNDEF)))
        for c, t in cc.items():
            v = final[t]
            if v is not init[t]:
                self.write_cell(c, v, node, p0)
        for o, t in ci.items():
            v = final[t]
            gw = p0 if o in emptied else TRUE
            if v.atom is None and v.term.op == 'seq':
                self.log.append(U((), gw, o, self.ITEMS, v.term, 'set'))
            else:
                self.log.append(U((), gw, o, self.ITEMS,
                                  seq_alts([(g, self.to_seq_t(tt)) for g, tt in leaves(v)]), 'set'))
        # exits ---------------------------------------------------------
        raise_g = FALSE
        for u in self.raises[marks[3]:]:
            gg = u.guard
            for bb in reversed(u.binders):
                if bb[0] != 'ord':
                    gg = v_exists(bb[0], bb[1], gg)
            raise_g = b_or(raise_g, gg)
        caught = FALSE
        for (tr, h0) in hits0:
            for i, h in enumerate(h0):
                if tr.hit[i] is not h and tr.depth <= len(self.open):
                    caught = b_or(caught, b_and(tr.hit[i], b_not(h)))
        pc = b_and(p0, b_not(raise_g), b_not(caught))
        if rg is not FALSE:
            # first exiting element returns?
            rge = b_and(exX, subst(rg, {b: first}), p0)
            rve = subst(rv, {b: first})
            rge = prune(b_and(rge, b_not(raise_g)))
            fr.retv = prune(ite(rge, rve, fr.retv))
            fr.retg = prune(b_or(fr.retg, rge))
            pc = b_and(pc, b_not(rge))
        brk_out = FALSE
        if br is not FALSE:
            brk_out = prune(b_and(exX, subst(br, {b: first}), pc))
        self.pc = prune(b_and(pc, b_not(brk_out)))
        # a break leaves the loop: control continues after it
        return brk_out

    def sum_updates(self, start, S, m, b):
        """x.k += d(element) for objects that do not depend on the element:
        one update by the sum over all elements"""
        count = {}
        for u in self.log[start:]:
            count[u.key] = count.get(u.key, 0) + 1
        for i in range(start, len(self.log)):
            u = self.log[i]
            if u.kind != 'set' or not isinstance(u.val, N) or len(u.binders) < 2 or u.binders[0] != (S, m):
                continue
            if u.key.op != 'const' or not isinstance(u.key.args[0], str) or count[u.key] != 1 or b in free(u.obj):
                continue
            if any(bb[0] == 'ord' or b in free(bb[0]) for bb in u.binders[1:]):
                continue
            f = mk('field', u.obj, u.key.args[0])
            v = simp(u.val, u.guard)
            if v.atom is None and v.term is f:
                continue
            d = num_sub(v, leaf(f))
            if any(t is f for t in subterms(d)) or any(t is f for t in subterms(u.guard)) or \
                    any(t.op == 'undef' for t in leafset(d)):
                continue
            total = v_sum(S, m, ite(u.guard, d, ZERO))
            self.log[i] = u.copy(binders=u.binders[1:], guard=TRUE, val=num_bin('+', leaf(f), total))

    def merge_appends(self, start, b):
        """several appends of one iteration to one list form one sequence"""
        groups = {}
        for i, u in enumerate(self.log[start:]):
            if u.key is self.ITEMS and u.kind == 'append' and u.binders and u.binders[0] == b:
                groups.setdefault(u.obj, []).append(i + start)
        drop = set()
        for obj, ix in groups.items():
            if len(ix) < 2:
                continue
            parts = []
            for i in ix:
                u = self.log[i]
                s = guard_seq(u.val, u.guard)
                for bb in reversed(u.binders[1:]):
                    s = ordered(bb[1], s) if bb[0] == 'ord' else seq_for(bb[0], bb[1], s)
                parts.append(s)
            self.log[ix[-1]] = self.log[ix[-1]].copy(binders=(b,), guard=TRUE, val=seq(*parts))
            drop.update(ix[:-1])
        if drop:
            self.log[start:] = [u for i, u in enumerate(self.log[start:]) if i + start not in drop]

    def merge_sets(self, start, b):
        """assignments of one iteration to one (iteration dependent) key form
        one update: the last iteration wins, whichever branch it took"""
        ix = {}
        for i, u in enumerate(self.log[start:]):
            if u.kind not in ('set', 'del', 'append') or u.key is self.ITEMS:
                continue
            ix.setdefault(u.obj, []).append(i + start)
        drop = set()
        for obj, l in ix.items():
            if len(l) < 2:
                continue
            us = [self.log[i] for i in l]
            u0 = us[0]
            if u0.key.op == 'const' or elem(*b) in free(obj):
                continue
            if all(u.kind == 'set' and u.key is u0.key and u.binders == (b,) and isinstance(u.val, N) for u in us):
                g, v = FALSE, UNDEF
                for u in us:
                    v = ite(u.guard, u.val, v)
                    g = b_or(g, u.guard)
                self.log[l[-1]] = us[-1].copy(guard=prune(g), val=simp(prune(v), g))
                drop.update(l[:-1])
        if drop:
            self.log[start:] = [u for i, u in enumerate(self.log[start:]) if i + start not in drop]

    def write_cell(self, c, v, node, p0):
        # leaves that are UNDEF mean: key absent
        for gg, t in leaves(v, p0):
            if t.op == 'undef':
                if not (c[0].op == 'alloc'):
                    self.log.append(U((), gg, c[0], c[1], UNDEF, 'del', getattr(node, 'lineno', None)))
            elif t.op == 'field' and t.args[0] is c[0] and mk('const', t.args[1] if isinstance(t.args[1], str) else None) is c[1] \
                    and self.resolve_only(c, t):
                continue
            else:
                self.log.append(U((), gg, c[0], c[1], leaf(t), 'set', getattr(node, 'lineno', None)))

    def resolve_only(self, c, t):
        v = self.read(c[0], c[1])
        return v is leaf(t)

    def fresh_in(self, obj, b):
        """object allocated during this iteration (identity mentions b)"""
        return b in free(obj)

    def memo_hit(self, x, key):
        S, b, u = x
        TM._fresh[0] += 1
        n = TM._fresh[0]
        at = {b: leaf(elem(S, n))}
        # the key asked for stays as it is
        hole = mk('sym', '#asked')
        q = seq(unit(prune(b_and(u.guard, v_eq(leaf(u.key), leaf(hole)))), simp(u.val, u.guard)))
        for y in reversed(u.binders):
            q = seq_for(y[0], y[1], q)
        q = seq_subst(seq_subst(q, at), {hole: leaf(key)})
        return n, q

    def own_entry(self, x, key):
        """the key tells the element of this round from all others: nothing
        that earlier rounds of the loop put in is found under it"""
        b, u = x[1], x[2]
        if key is not u.key or not key.args:
            return False
        if key.op == 'idof':
            return key.args[-1] is b
        # exchanges name the datasets they are linked to with theirs
        return key.op == 'field' and key.args[0] is b and key.args[1] in IDENTITIES and \
            not (isinstance(x[0], T) and x[0].op == 'field')

    def memo_absent(self, o, key, frame=None):
        """no earlier round of the loops has put the key into the dictionary"""
        r = TRUE
        for x in ([frame] if frame else self.memo[o]):
            if self.own_entry(x, key):
                continue
            n, q = self.memo_hit(x, key)
            r = b_and(r, v_pre(x[1], x[0], n, s_exists(q)))
        return r

    def memo_read(self, o, key):
        r = UNDEF
        for x in reversed(self.memo[o]):
            if self.own_entry(x, key):
                continue
            S, b, u = x
            n, q = self.memo_hit(x, key)
            v = simp(u.val, u.guard)
            hole = mk('sym', '#asked')
            by = v if u.key is b else subst(v, {u.key: leaf(hole)})
            tried = {a: atomv(mk('ucond', *a.args[:3])) for a in subterms(by)
                     if a.op == 'ucond' and a.args[0] == 'raises' and len(a.args) == 4}
            seen = subst(by, tried) if tried else by
            if not any(t in free(seen) for t in [b] + [elem(*y) for y in u.binders]):
                # what is kept is made of the key alone
                val = subst(by, {hole: leaf(key)})
            else:
                q = seq_for(S, n, q)
                val = simp(s_first(q), s_exists(q))
            r = ite(self.memo_absent(o, key, x), r, val)
        return r

    def pre_atom(self, b, S, m, X):
        more = [] if self.tag is None else [self.tag]
        TM._fresh[0] += 1
        n = TM._fresh[0]
        return v_pre(b, S, n, subst(X, {b: leaf(elem(S, n))}), tuple(more))

    def strip_pre(self, g, b):
        for a in support(g):
            if a.op == 'pre' and a.args[0] is b:
                g = cofactor(g, a, True)
        return g

    def thinned(self, t, new, init, S, m, b):
        """every element of a list is looked at, and removed or kept"""
        if init.atom is not None or init.term.op != 'seq' or new.atom is not None or new.term.op != 'seq':
            return None
        if init.term is not seq_for(S, m, mk('seq', mk('unit', TRUE, leaf(b)))):
            return None
        gone = FALSE
        for it in new.term.args:
            if it.op == 'removed':
                g, x = TRUE, it
            elif it.op == 'gspread':
                g, x = it.args
            else:
                return None
            if free(g) & {t}:
                return None
            if x is mk('spread', t):
                continue
            if x.op != 'removed' or x.args[1] is not leaf(b) or x.args[0] is not mk('seq', mk('spread', t)):
                return None
            gone = b_or(gone, g)
        return leaf(seq_for(S, m, seq(unit(b_not(gone), leaf(b)))))

    def classify(self, t, new, S, m, b, X):
        """-> function(init)->final value, or None when a fold is needed"""
        lt = leaf(t)
        if new is lt:
            return lambda init: init
        ls = leaves(new)
        region = FALSE
        fm = None
        for g, x in ls:
            if t in free(g):
                fm = self.first_match(t, new)
                if fm is None:
                    return None
                break
        # 1. overwritten (or left alone)
        if fm is None and all(x is t or t not in free(x) for g, x in ls):
            keep = FALSE
            for g, x in ls:
                if x is t:
                    keep = b_or(keep, g)
            region = prune(b_not(keep))
            val = new

            def fin(init):
                if X is not FALSE:
                    if implies(region, X):
                        f = select('firstb', S, m, X, tag=self.tag)
                        ex = v_exists(S, m, X)
                        rg = b_and(ex, subst(region, {b: f}))
                        return ite(rg, subst(ite(region, val, init), {b: f}), init)
                    reg = b_and(region, self.pre_atom(b, S, m, X))
                else:
                    reg = region
                ex = v_exists(S, m, reg)
                if b not in free(simp(val, region)):
                    return ite(ex, simp(val, region), init)
                f = select('lastb', S, m, prune(reg), tag=self.tag)
                return ite(ex, subst(simp(val, region), {b: f}), init)
            return fin
        # the first element that matches: set only while still None
        if fm is not None:
            g1, v1 = fm

            def fin(init):
                reg = prune(b_and(g1, self.pre_atom(b, S, m, X)) if X is not FALSE else g1)
                hit = select('firstb', S, m, reg, tag=self.tag)
                val = ite(v_exists(S, m, reg), subst(simp(v1, g1), {b: hit}), NONE)
                return ite(lift(lambda x: v_is_terms(x, NONE.term), init), val, init)
            return fin
        # 2. accumulated sum
        ok = True
        for g, x in ls:
            if x is t:
                continue
            p = to_poly(x)
            if p.get(((t, 1),)) != 1:
                ok = False
                break
            rest = p_add(p, {((t, 1),): 1}, -1)
            if t in free(from_poly(rest)):
                ok = False
                break
        if ok:
            inc = lift(lambda x: ZERO if x is t else leaf(from_poly(
                p_add(to_poly(x), {((t, 1),): 1}, -1))), new)
            if X is not FALSE:
                inc = ite(self.pre_atom(b, S, m, X), inc, ZERO)

            def fin(init):
                init2 = lift(lambda i: ZERO if i.op == 'undef' else leaf(i), init)
                return num_bin('+', init2, v_sum(S, m, inc))
            return fin
        # 3. list contents: spread(carried) followed by new items
        if new.atom is None and new.term.op == 'seq' and X is FALSE:
            its = new.term.args
            if its and its[0].op == 'spread' and its[0].args[0] is t and \
                    not any(t in free(i) for i in its[1:]):
                rest = mk('seq', *its[1:])

                def fin(init):
                    return leaf(seq(init.term, seq_for(S, m, rest)))
                return fin
        return None

    def seen_before(self, ci, news, init, S, m, b, carried, marks, more):
        """tests of what earlier rounds put into a collection -> tests of the earlier elements"""
        if self.tag is not None:
            return {}
        roots = list(more) + [news[t] for t in carried]
        for lst, mk0 in zip((self.log, self.logs, self.calls, self.raises), marks):
            for u in lst[mk0:]:
                roots.append(u.guard)
                if isinstance(u, U):
                    roots += [u.val, u.obj, u.key]
                else:
                    roots.append(u.data)
        roots = [r for r in roots if isinstance(r, (N, T, tuple))]
        subs = None
        out, kept = {}, {}
        for o, t in ci.items():
            i = init[t]
            if o.op != 'alloc' or i.atom is not None or i.term.op != 'seq' or self.alloc_kind(o) not in ('set', 'list'):
                continue
            if not any(t in free(r) for r in roots):
                continue
            q = self.appended(t, news[t])
            if q is None or any(x.op not in ('unit', 'for') for x in q.args):
                continue
            if subs is None:
                subs = subterms(tuple(roots))
            sp = mk('spread', t)
            hole = mk('elem', sp, 0)
            # the collection is only tested for what it contains
            atoms, ok = [], True
            for x in subs:
                if t not in free(x) or x is t or x is sp or x is hole:
                    continue
                if x.op == 'pred' and x.args[0] == 'nonemptyp' and x.args[1] is sp:
                    atoms.append(x)
            heads = set(atoms)

            def clean(x):
                # occurrences of t outside those tests
                stack, done = [x], set()
                while stack:
                    y = stack.pop()
                    if not isinstance(y, (N, T, tuple)) or isinstance(y, T) and y in heads or y in done or t not in free(y):
                        continue
                    done.add(y)
                    if y is t:
                        return False
                    if isinstance(y, tuple):
                        stack.extend(y)
                    elif isinstance(y, T):
                        stack.extend(y.args)
                    elif y.atom is None:
                        stack.append(y.term)
                    else:
                        stack.extend((y.atom, y.hi, y.lo))
                return True
            own = news[t]
            items = [x for x in q.args]
            if not ok or not atoms or not all(clean(r) for r in roots if r is not own) or \
                    not all(clean(x) for x in items):
                continue
            # what is there already is not added again
            adds = []
            for x in items:
                if x.op == 'unit':
                    g, k = x.args
                    g = prune(b_and(g, lift(lambda y: FALSE if y.op == 'undef' else TRUE, k)))
                    k = simp(k, g)
                    for a in atoms:
                        if a in support(g) or a in support(k):
                            same = self.seq_contains(mk('seq', sp), k if a not in support(k) else cofactor(k, a, False))
                            if same.atom is a and (cofactor(g, a, True) is FALSE or a not in support(k)):
                                g, k = prune(cofactor(g, a, False)), cofactor(k, a, False)
                    x = unit(g, k)
                adds.append(x)
            adds = seq(*adds)
            if t in free(adds):
                continue
            if self.alloc_kind(o) == 'set':
                kept[t] = leaf(seq(sp, *adds.args))
            for a in atoms:
                # the earlier element takes the place of b in the addition only
                TM._fresh[0] += 1
                e = elem(S, TM._fresh[0])
                hit = s_exists(seq_subst(adds, {b: leaf(e)}), lambda y, a=a: subst(a.args[2], {hole: self.pure(y)}))
                test = b_not(v_pre(b, S, e.args[1], hit))
                if i.term.args:
                    test = b_or(test, s_exists(i.term, lambda y, a=a: subst(a.args[2], {hole: self.pure(y)})))
                out[a] = test
        return out and (out, kept)

    def settled(self, u, m):
        def fx(x):
            if isinstance(x, N):
                return subst(x, m)
            if isinstance(x, T):
                r = seq_subst(x, m) if x.op == 'seq' else subst(leaf(x), m)
                return r.term if isinstance(r, N) and r.atom is None else x if isinstance(r, N) else r
            if isinstance(x, tuple):
                return tuple(fx(y) for y in x)
            return x
        kw = dict(guard=prune(subst(u.guard, m)))
        if isinstance(u, U):
            kw['val'] = fx(u.val)
        else:
            kw['data'] = fx(u.data)
        return u.copy(**kw)

    def first_match(self, t, new):
        """(guard, value) when ``new`` replaces t, while t is None, by a value that is not None"""
        at = lift(lambda x: v_is_terms(x, NONE.term), leaf(t)).atom
        if at is None or prune(cofactor(new, at, False)) is not leaf(t):
            return None
        hit = prune(cofactor(new, at, True))
        keep = FALSE
        for g, x in leaves(hit):
            if t in free(g):
                return None
            if x is t or x is NONE.term:
                keep = b_or(keep, g)
            elif t in free(x) or v_is_terms(x, NONE.term) is not FALSE:
                return None
        g = prune(b_not(keep))
        return g, simp(hit, g)

    def appended(self, t, new):
        """What one round adds to the list t (None: not only additions)."""
        parts = []
        for g, x in leaves(new):
            if x is t:
                continue
            if x.op != 'seq' or not x.args or x.args[0] is not mk('spread', t):
                return None
            parts.append(guard_seq(mk('seq', *x.args[1:]), g))
        return seq(*parts)

    def grown_at_exit(self, t, new, S, m, b, X):
        q = self.appended(t, new)
        if q is None:
            return None
        first = select('firstb', S, m, X, tag=self.tag)
        q = guard_seq(seq_subst(q, {b: first}), v_exists(S, m, X))

        def fin(init):
            return lift(lambda s: leaf(seq(*(s.args + q.args))) if s.op == 'seq' else
                        leaf(seq(mk('spread', s), *q.args)), init)
        return fin

    def make_fold(self, S, m, b, foldset, news, init, X, sub):
        lvl = 0
        for t in foldset:
            for s in subterms(news[t]):
                if s.op == 'carried' and s.args[0] == 'k':
                    lvl = max(lvl, s.args[2] + 1)

        def sk(t):
            nv = news[t]
            blank = {c: leaf(mk('sym', '_c')) for c in foldset}
            return (show(init[t])[:300], show(subst(nv, blank))[:2000])
        order = sorted(foldset, key=sk)
        ren = dict(sub)
        for i, t in enumerate(order):
            ren[t] = leaf(mk('carried', 'k', i, lvl))
        bodies = []
        for t in order:
            v = news[t]
            v = subst(v, ren)
            bodies.append(absent_cells(v) if t.args[0] == 'c' else v)
        X2 = subst(X, ren)
        inits = tuple(absent_cells(init[t]) if t.args[0] == 'c' else init[t] for t in order)
        more = [] if self.tag is None else [self.tag]
        F = close_plain('fold', [S, m, tuple(bodies), X2, inits] + more)
        return F, order

    def while_loop(self, st):
        fr = self.frame
        snap = self.snapshot()
        p0 = self.pc
        env0 = dict(fr.env)
        log0 = len(self.log)
        ret0 = (fr.retg, fr.retv)
        site0 = self.sites

        def local(o):
            return any(x.op == 'alloc' and x.args[0].args[1] > site0 for x in subterms(o))

        def once(ce, cc, ci):
            lp = Loop()
            saved = fr.loop
            fr.loop = lp
            fr.retg, fr.retv = FALSE, UNDEF
            for k, t in ce.items():
                fr.env[k] = leaf(t)
            for (o, k), t in cc.items():
                self.log.append(U((), TRUE, o, k, leaf(t), 'set'))
            for o, t in ci.items():
                self.log.append(U((), TRUE, o, self.ITEMS, mk('seq', mk('spread', t)), 'set'))
            c = self.cond(st.test)
            self.pc = prune(b_and(self.pc, c))
            if self.pc is not FALSE:
                self.block(st.body)
            self.pc = b_or(self.pc, lp.cont)
            fr.loop = saved
            return c, lp.brk
        once({}, {}, {})
        changed = [k for k, v in fr.env.items() if env0.get(k) is not v]
        cells, apps = [], []
        for u in self.log[log0:]:
            if local(u.obj):
                continue
            if u.key is self.ITEMS:
                if u.obj not in apps:
                    apps.append(u.obj)
            elif u.kind in ('set', 'del') and (u.obj, u.key) not in cells and u.key.op == 'const':
                cells.append((u.obj, u.key))
        self.restore(snap)
        fr.retg, fr.retv = ret0
        Interp._lvl[0] += 1
        lvl = Interp._lvl[0]
        ce = {k: mk('carried', 'v', k, lvl) for k in changed}
        cc = {c: mk('carried', 'c', c[0], c[1], lvl) for c in cells}
        ci = {o: mk('carried', 'i', o, lvl) for o in apps}
        init = {}
        for k, t in ce.items():
            init[t] = simp(env0.get(k, UNDEF), p0)
        for c, t in cc.items():
            init[t] = simp(self.read(*c), p0)
        for o, t in ci.items():
            init[t] = leaf(self.items_of(o))
        marks = self.marks()
        cnd, brk = once(ce, cc, ci)
        news = {}
        for k, t in ce.items():
            news[t] = fr.env[k]
        for c, t in cc.items():
            news[t] = self.read(*c)
        for o, t in ci.items():
            news[t] = leaf(self.items_of(o))
        carried = list(ce.values()) + list(cc.values()) + list(ci.values())
        rg, rv = fr.retg, fr.retv
        fr.retg, fr.retv = ret0

        def sk(t):
            blank = {c: leaf(mk('sym', '_c')) for c in carried}
            return (show(init[t])[:300], show(subst(news[t], blank))[:2000])
        for t in list(ce.values()):
            if any(x.op == 'alloc' for x in subterms(news[t])):
                news[t] = self.pure(news[t])
        live = [t for t in carried if news[t] is not leaf(t)]
        # variables that are only defined inside the body and never reach the
        # next iteration are not part of the loop state
        dead = [t for t in ce.values() if t in live and init[t] is UNDEF]
        roots = [cnd, brk, rg, rv] + [news[t] for t in carried if t not in dead]
        for lst, m0 in zip((self.log, self.logs, self.calls, self.raises), marks):
            for u in lst[m0:]:
                roots.append(u.guard)
                if isinstance(u, U):
                    roots.extend(x for x in (u.val, u.obj, u.key) if x is not None)
                else:
                    roots.extend(d for d in (u.data or ()) if isinstance(d, (N, T)))
        work = True
        while work:
            work = False
            used = set()
            for r in roots:
                used |= free(r)
            for t in list(dead):
                if t in used:
                    dead.remove(t)
                    roots.append(news[t])
                    work = True
        live = [t for t in live if t not in dead]
        unchanged = {t: init[t] for t in carried if t not in live and t not in dead}

        def closure(roots):
            grp, work = set(), list(roots)
            while work:
                w = work.pop()
                if w not in grp and w in live:
                    grp.add(w)
                    work.extend(free(news[w]))
            return grp

        def fold_of(group):
            order = sorted([t for t in live if t in group], key=sk)
            l2 = 0
            for t in order:
                for s in subterms(news[t]):
                    if s.op == 'carried' and s.args[0] == 'k':
                        l2 = max(l2, s.args[2] + 1)
            ren = dict(unchanged)
            for i, t in enumerate(order):
                ren[t] = leaf(mk('carried', 'k', i, l2))
            return mk('whilefold', subst(prune(b_and(cnd, b_not(brk))), ren), subst(rg, ren),
                      tuple(subst(news[t], ren) for t in order), tuple(init[t] for t in order)), order, ren
        ctl = free(cnd) | free(brk) | free(rg)
        seen = set(ctl)
        for lst, m0 in zip((self.log, self.logs, self.calls, self.raises), marks):
            for u in lst[m0:]:
                if isinstance(u, U) and ((u.obj, u.key) in cc or (u.key is self.ITEMS and u.obj in ci)):
                    continue
                seen |= free(u.guard)
                if isinstance(u, U):
                    for x in (u.val, u.obj, u.key):
                        if x is not None:
                            seen |= free(x)
                else:
                    for x in (u.data or ()):
                        if isinstance(x, (N, T)):
                            seen |= free(x)
        W, order, ren = fold_of(closure(seen | free(rv)))

        def out(t):
            w, o, r = fold_of(closure(set(ctl) | {t}))
            return leaf(mk('whileout', o.index(t), w))
        for lst, m0 in zip((self.log, self.logs, self.calls, self.raises), marks):
            keep = []
            for u in lst[m0:]:
                if isinstance(u, U) and ((u.obj, u.key) in cc or (u.key is self.ITEMS and u.obj in ci)):
                    continue
                g = b_and(p0, atomv(mk('ucond', 'in-while', W)), subst(u.guard, ren))
                if isinstance(u, U):
                    v = u.val
                    if u.key is self.ITEMS:
                        v = seq_subst(v, ren)
                    elif v is not None:
                        v = subst(v, ren)
                    keep.append(u.copy(guard=g, val=v))
                else:
                    keep.append(u.copy(guard=g, data=tuple(subst(d, ren) if isinstance(d, N) else d
                                                           for d in u.data) if u.data else u.data))
            lst[m0:] = keep
        for k, t in ce.items():
            if t in dead:
                w, o, r = fold_of(closure(set(ctl) | free(news[t])))
                fr.env[k] = leaf(mk('whilelast', w, subst(news[t], r)))
                continue
            fr.env[k] = ite(p0, out(t) if t in live else init[t], env0.get(k, UNDEF))
        for c, t in cc.items():
            if t in live:
                self.log.append(U((), p0, c[0], c[1], out(t), 'set'))
        for o, t in ci.items():
            if t in live:
                self.log.append(U((), p0, o, self.ITEMS, mk('seq', mk('spread', out(t).term)), 'set'))
        pc = p0
        if rg is not FALSE:
            a = atomv(mk('ucond', 'while-returns', W))
            fr.retv = ite(b_and(p0, a), leaf(mk('whileret', W, subst(rv, ren))), fr.retv)
            fr.retg = b_or(fr.retg, b_and(p0, a))
            pc = b_and(pc, b_not(a))
        if st.orelse:
            self.pc = pc
            self.block(st.orelse)
            pc = self.pc
        self.pc = prune(pc)

    # ---------------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note(e, 'expression ' + type(e).__name__)
            return self.unk(type(e).__name__)
        return m(e)

    def cond(self, e):
        """boolean value of expression e"""
        if isinstance(e, ast.BoolOp):
            p0 = self.pc
            r = None
            for x in e.values:
                if r is None:
                    r = self.cond(x)
                    p0 = self.pc
                else:
                    c = r if isinstance(e.op, ast.And) else b_not(r)
                    self.pc = prune(b_and(p0, c))
                    if self.pc is FALSE:
                        self.pc = p0
                        break
                    before = self.pc
                    x2 = self.cond(x)
                    lost = b_and(before, b_not(self.pc))
                    p0 = prune(b_and(p0, b_not(lost)))
                    r = b_and(r, x2) if isinstance(e.op, ast.And) else b_or(r, x2)
            self.pc = p0
            return prune(r)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return b_not(self.cond(e.operand))
        v = self.eval(e)
        return self.truth(v)

    def truth(self, v):
        return prune(truthy(simp(lift(self.truth_t, v), self.pc)))

    def truth_t(self, t):
        if t.op == 'alloc':
            k = self.alloc_kind(t)
            if k in ('list', 'set', 'gen'):
                return s_exists(self.items_of(t))
            if k in ('dict', 'group', 'ddlist', 'ddnum'):
                return s_exists(self.dict_items(t))
            return TRUE
        if t.op == 'slot':
            return s_exists(self.items_of(t))
        if t.op == 'dc':
            o = strip_copy(t)
            if o.op in ('elem', 'sym'):
                return self.truth_t(o)
            if o.op == 'field' and o.args[1] in LIST_KEYS:
                return s_exists(self.items_of(t))
        if t.op == 'field' and t.args[1] in LIST_KEYS:
            return s_exists(self.items_of(t))
        if t.op in ('elem', 'firstb', 'lastb', 'bestb'):
            return self.elem_truth(t)
        return truthy_term(t)

    def elem_truth(self, t):
        # elements of record collections are non-empty dicts
        c = obj_class(t)
        if c.op == 'field' and c.args[1] in LIST_KEYS or c.op == 'sym' and c.args[0] in ('data', 'datasets'):
            return TRUE
        return truthy_term(t)

    def e_Constant(self, e):
        if isinstance(e.value, (bytes, complex)) or e.value is Ellipsis:
            return leaf(mk('const', repr(e.value)))
        return const(e.value)

    def e_Name(self, e):
        if e.id in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[e.id]
        return self.lookup(e.id, e)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return leaf(seq(*self.elts(e.elts)))
        return leaf(mk('tuple', *[self.eval(x) for x in e.elts]))

    def elts(self, elts):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.to_seq(self.eval(x.value)))
            else:
                parts.append(unit(TRUE, self.eval(x)))
        return parts

    def new_list(self, s, kind='list'):
        if self.pure_mode:
            return leaf(s)
        a = self.alloc(kind)
        if s is not EMPTY:
            self.log.append(U((), TRUE, a, self.ITEMS, s, 'append'))
        return leaf(a)

    def e_List(self, e):
        return self.new_list(seq(*self.elts(e.elts)))

    def e_Set(self, e):
        s = seq(*self.elts(e.elts))
        return self.new_list(ordered(mk('set'), s), 'set')

    def e_Dict(self, e):
        if self.pure_mode:
            out = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    sub = self.eval(v)
                    if sub.atom is None and sub.term.op == 'dictv':
                        out.extend(sub.term.args[0])
                    continue
                kv = self.eval(k)
                if kv.atom is None:
                    out.append((kv.term, self.eval(v)))
            return leaf(mk('dictv', tuple(out)))
        a = self.alloc('dict')
        av = leaf(a)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(av, self.eval(v), e)
            else:
                kv = self.eval(k)
                self.store(av, kv, self.eval(v), e)
        return av

    def comp(self, generators, elt_fn, node):
        """evaluate a comprehension; returns the sequence"""
        out = self.alloc('gen')
        saved = {}

        def level(i):
            if i == len(generators):
                v = elt_fn()
                self.log.append(U((), self.pc, out, self.ITEMS, seq(unit(TRUE, v)), 'append'))
                return
            gen = generators[i]
            itv = self.eval(gen.iter)

            def body(v):
                self.assign(gen.target, v)
                p0 = self.pc
                for c in gen.ifs:
                    cv = self.cond(c)
                    self.pc = prune(b_and(self.pc, cv))
                    if self.pc is FALSE:
                        break
                p1 = self.pc
                if self.pc is not FALSE:
                    level(i + 1)
                p2 = self.pc
                # skip is still alive
                self.pc = prune(b_or(p2, b_and(p0, b_not(p1))))
                return FALSE
            self.iterate(itv, body, node)
        fr = Frame(self.frame.module, self.frame.qual + '.<comp>', closure=self.frame)
        fr.retg = FALSE
        self.frames.append(fr)
        try:
            level(0)
        finally:
            self.frames.pop()
        s = self.items_of(out)
        # forget the scratch list
        self.log[:] = [u for u in self.log if u.obj is not out]
        return s

    def e_ListComp(self, e):
        s = self.comp(e.generators, lambda: self.eval(e.elt), e)
        return self.new_list(s)

    def e_GeneratorExp(self, e):
        s = self.comp(e.generators, lambda: self.eval(e.elt), e)
        return leaf(s)

    def e_SetComp(self, e):
        s = self.comp(e.generators, lambda: self.eval(e.elt), e)
        return self.new_list(ordered(mk('set'), s), 'set')

    def e_DictComp(self, e):
        if self.pure_mode:
            s = self.comp(e.generators, lambda: leaf(mk('tuple', self.eval(e.key), self.eval(e.value))), e)
            lits = literal_items(s)
            if lits is not None and all(x.atom is None and x.term.args[0].atom is None for x in lits):
                return leaf(mk('dictv', tuple((x.term.args[0].term, x.term.args[1]) for x in lits)))
            return leaf(mk('mapv', s))
        a = self.alloc('dict')

        def level(i):
            if i == len(e.generators):
                k = self.eval(e.key)
                v = self.eval(e.value)
                self.store(leaf(a), k, v, e)
                return
            gen = e.generators[i]
            itv = self.eval(gen.iter)

            def body(v):
                self.assign(gen.target, v)
                p0 = self.pc
                for c in gen.ifs:
                    self.pc = prune(b_and(self.pc, self.cond(c)))
                    if self.pc is FALSE:
                        break
                p1 = self.pc
                if p1 is not FALSE:
                    level(i + 1)
                self.pc = prune(b_or(self.pc, b_and(p0, b_not(p1))))
                return FALSE
            self.iterate(itv, body, e)
        fr = Frame(self.frame.module, self.frame.qual + '.<comp>', closure=self.frame)
        self.frames.append(fr)
        try:
            level(0)
        finally:
            self.frames.pop()
        return leaf(a)

    def e_Lambda(self, e):
        fv = FuncVal(e, self.frame.module, self.frame.qual + '.<lambda>', self.frame)
        t = mk('func', 'lambda:%s:%d:%d' % (self.frame.module.name, e.lineno, e.col_offset), self.frame.uid)
        self.funcs[t] = fv
        return leaf(t)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        p0 = self.pc
        self.pc = prune(b_and(p0, c))
        a = self.eval(e.body) if self.pc is not FALSE else UNDEF
        p1 = self.pc
        self.pc = prune(b_and(p0, b_not(c)))
        b = self.eval(e.orelse) if self.pc is not FALSE else UNDEF
        self.pc = prune(b_or(p1, self.pc))
        r = prune(ite(c, a, b))
        return self.minmax_of_ite(c, a, b, r)

    def minmax_of_ite(self, c, a, b, r):
        # a if a > b else b  ->  max(a, b)   (numeric leaves only)
        if a.atom is None and b.atom is None and c.atom is not None:
            if numericish(a.term) or numericish(b.term):
                gt = v_lt(b, a)
                lt = v_lt(a, b)
                ge, le = b_not(lt), b_not(gt)
                if c is gt or c is ge:
                    return num_minmax('max', [a, b])
                if c is lt or c is le:
                    return num_minmax('min', [a, b])
        return r

    def e_BoolOp(self, e):
        p0 = self.pc
        r = None
        for x in e.values:
            if r is None:
                r = self.eval(x)
                p0 = self.pc
                continue
            self.pc = p0
            tr = self.truth(r)
            go = tr if isinstance(e.op, ast.And) else b_not(tr)
            self.pc = prune(b_and(p0, go))
            if self.pc is FALSE:
                self.pc = p0
                break
            before = self.pc
            v = self.eval(x)
            lost = b_and(before, b_not(self.pc))
            p0 = prune(b_and(p0, b_not(lost)))
            r = ite(tr, v, r) if isinstance(e.op, ast.And) else ite(tr, r, v)
        self.pc = p0
        return prune(r)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return b_not(self.cond(e.operand))
        v = self.eval(e.operand)
        if isinstance(e.op, ast.USub):
            return num_bin('*', const(-1), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.series_not(v)
        return self.unk('unary')

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b, e)

    def stringish(self, t):
        if t.op == 'const':
            return isinstance(t.args[0], str)
        if t.op in ('cat', 'fmt', 'str', 'joined'):
            return True
        if t.op == 'field' and t.args[1] in STR_KEYS:
            return True
        if t.op == 'mcall' and t.args[0] in ('lower', 'upper', 'strip', 'replace', 'format', 'join', 'hexdigest', 'lstrip', 'rstrip', 'casefold'):
            return True
        if t.op == 'attr' and t.args[1] in ('hex', 'text'):
            return True
        if t.op == 'sym' and t.args[0] in ('name', 'location', 'string', 'formula', 'rp', 'label'):
            return True
        return False

    def binop(self, op, a, b, node):
        o = type(op).__name__
        if any(t.op == 'series' for t in leafset(a) + leafset(b)):
            return self.series_bin(o, a, b, node)
        if o == 'Add':
            def fn(x, y):
                if self.listish(x) or self.listish(y):
                    s = seq(self.to_seq_t(x), self.to_seq_t(y))
                    if x.op == 'tuple' and y.op == 'tuple':
                        return leaf(mk('tuple', *(x.args + y.args)))
                    return leaf(s)
                if self.stringish(x) or self.stringish(y):
                    return str_cat([leaf(x), leaf(y)])
                return num_bin('+', leaf(x), leaf(y))
            r = lift(fn, a, b)
            if any(t.op == 'seq' for t in leafset(r)) and not self.pure_mode:
                r = lift(lambda t: self.new_list(t) if t.op == 'seq' else leaf(t), r)
            return r
        if o == 'Sub':
            def fn(x, y):
                if self.setish(x) or self.setish(y):
                    return self._setop('difference', x, [leaf(y)])
                return num_bin('-', leaf(x), leaf(y))
            return lift(fn, a, b)
        if o == 'Mult':
            def fn(x, y):
                if self.stringish(x) or self.stringish(y) or self.listish(x):
                    return leaf(mk('repeat', x, y))
                return num_bin('*', leaf(x), leaf(y))
            return lift(fn, a, b)
        if o == 'Div':
            if self.catching('ZeroDivisionError'):
                self.do_raise('ZeroDivisionError', sign_zero(b), node)

            def fn(x, y):
                if x.op in ('call', 'ctx', 'path') and not numericish(x) and self.stringish(y):
                    return leaf(mk('pathjoin', x, y))
                px, py = to_poly(x), to_poly(y)
                return num_bin('/', leaf(x), leaf(y))
            return lift(fn, a, b)
        if o == 'Pow':
            def fn(x, y):
                if is_const(y) and isinstance(y.args[0], int) and 0 <= y.args[0] <= 8:
                    r = ONE
                    for _ in range(y.args[0]):
                        r = num_bin('*', r, leaf(x))
                    return r
                if is_const(y) and y.args[0] == 0.5:
                    return leaf(mk('numfn', 'sqrt', x))
                if is_const(x) and is_const(y):
                    try:
                        return const(x.args[0] ** y.args[0])
                    except Exception:
                        pass
                return leaf(mk('numfn', 'pow', x, y))
            return lift(fn, a, b)
        if o == 'Mod':
            def fn(x, y):
                if is_const(x) and isinstance(x.args[0], str):
                    return self.pct_format(x.args[0], y)
                return leaf(mk('numfn', 'mod', x, y))
            return lift(fn, a, self.pure(b))
        if o in ('BitOr', 'BitAnd', 'BitXor'):
            nm = {'BitOr': 'union', 'BitAnd': 'intersection', 'BitXor': 'symmetric_difference'}[o]
            def fn(x, y):
                if self.setish(x) or self.setish(y):
                    return self._setop(nm, x, [leaf(y)])
                return lift(lambda u, v: self.set_op(nm, u, v), self.pure(leaf(x)), self.pure(leaf(y)))
            return lift(fn, a, b)
        return lift(lambda x, y: leaf(mk('numfn', o, x, y)), self.pure(a), self.pure(b))

    def pct_format(self, fmt, y):
        import re
        args = list(y.args) if y.op == 'tuple' else [leaf(y)]
        parts = []
        pos = 0
        for m in re.finditer(r'%(\.?\d*[sdrfgi%])', fmt):
            parts.append(const(fmt[pos:m.start()]))
            if m.group(1) == '%':
                parts.append(const('%'))
            elif args:
                a = args.pop(0)
                if m.group(1) in ('s', 'd'):
                    parts.append(self.to_str(a))
                else:
                    parts.append(lift(lambda t: leaf(mk('fmt', m.group(1), t)), a))
            pos = m.end()
        parts.append(const(fmt[pos:]))
        return str_cat(parts)

    def setish(self, t):
        if t.op in ('setop', 'bigset'):
            return True
        if t.op == 'alloc' and self.alloc_kind(t) == 'set':
            return True
        if t.op == 'seq' and len(t.args) == 1 and t.args[0].op == 'ord' and t.args[0].args[0].op == 'set':
            return True
        if t.op == 'call' and isinstance(t.args[0], str) and 'topology' in t.args[0].lower():
            return True
        return False

    def set_op(self, nm, x, y):
        if nm in ('union', 'intersection'):
            ops = []
            for t in (x, y):
                for o in (t.args[1:] if t.op == 'setop' and t.args[0] == nm else (t,)):
                    if o not in ops:
                        ops.append(o)
            if len(ops) == 1:
                return leaf(ops[0])
            if nm == 'intersection' and len(ops) == 2 and sum(t.op == 'seq' for t in ops) == 1:
                c, o = ops if ops[0].op == 'seq' else ops[::-1]
                r = self.keep(c, lambda e: lift(lambda t: self.contains_t(t, o), self.pure(e)))
                if r is not None:
                    return leaf(as_set(r))
            ops.sort(key=lambda t: t.id)
            return leaf(mk('setop', nm, *ops))
        if nm == 'symmetric_difference' and x.op == 'seq' and y.op == 'seq':
            p = self.keep(x, lambda e: b_not(lift(lambda t: self.contains_t(t, y), self.pure(e))))
            q = self.keep(y, lambda e: b_not(lift(lambda t: self.contains_t(t, x), self.pure(e))))
            if p is not None and q is not None:
                return leaf(as_set(seq(p, q)))
        if nm == 'difference' and x.op == 'seq':
            r = self.keep(x, lambda e: b_not(lift(lambda t: self.contains_t(t, y), self.pure(e))))
            if r is not None:
                return leaf(as_set(r))
        if nm == 'difference' and x.op == 'setop' and x.args[0] == 'difference':
            r = self.set_op('union', x.args[2], y)
            return lift(lambda u: leaf(mk('setop', nm, x.args[1], u)), r)
        return leaf(mk('setop', nm, x, y))

    def keep(self, s, pred):
        """the elements of a known sequence for which pred holds, or None"""
        out = []
        for it in s.args:
            if it.op == 'unit':
                out.append(unit(b_and(it.args[0], pred(it.args[1])), it.args[1]))
            elif it.op in ('for', 'ord'):
                q = self.keep(it.args[-1], pred)
                if q is None:
                    return None
                out.extend((seq_for if it.op == 'for' else ordered)(*it.args[:-1], q).args)
            else:
                return None
        return seq(*out)

    # comparisons --------------------------------------------------------
    def e_Compare(self, e):
        left = self.eval(e.left)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            r = b_and(r, self.compare(op, left, right, e)) if True else r
            left = right
        return r

    def compare(self, op, a, b, node):
        o = type(op).__name__
        if any(t.op == 'series' for t in leafset(a) + leafset(b)):
            return self.series_cmp(o, a, b)
        if o in ('Eq', 'NotEq'):
            r = v_eq(self.pure(a), self.pure(b))
            return r if o == 'Eq' else b_not(r)
        if o in ('Is', 'IsNot'):
            r = lift(v_is_terms, a, b)
            return r if o == 'Is' else b_not(r)
        if o == 'Lt':
            return v_lt(self.pure(a), self.pure(b))
        if o == 'Gt':
            return v_lt(self.pure(b), self.pure(a))
        if o == 'LtE':
            return b_not(v_lt(self.pure(b), self.pure(a)))
        if o == 'GtE':
            return b_not(v_lt(self.pure(a), self.pure(b)))
        if o in ('In', 'NotIn'):
            r = self.contains(a, b, node)
            return r if o == 'In' else b_not(r)
        return self.unk('cmp')

    def contains(self, a, b, node):
        def fn(x, c):
            return self.contains_t(x, c)
        return lift(fn, self.pure(a), b)

    def contains_t(self, x, c):
        xv = leaf(x)
        if c.op == 'const' and isinstance(c.args[0], str):
            if is_const(x) and isinstance(x.args[0], str):
                return TRUE if x.args[0] in c.args[0] else FALSE
            return atomv(mk('instr', x, c))
        if c.op in ('tuple',):
            r = FALSE
            for y in c.args:
                r = b_or(r, v_eq(xv, self.pure(y)))
            return r
        if c.op == 'dictv':
            return self.base_has(c, x)
        if c.op == 'mapv':
            return atomv(mk('in', x, c))
        if c.op == 'seq':
            return self.seq_contains(c, xv)
        if c.op == 'alloc':
            k = self.alloc_kind(c)
            if k in ('list', 'set', 'gen'):
                self.tested.add(c)
                return self.seq_contains(self.items_of(c), xv)
            if x.op != 'const':
                self.dyn_reads.add(c)
            return self.dict_has(c, x)
        if c.op == 'slot':
            return self.seq_contains(self.items_of(c), xv)
        if c.op == 'keysv':
            return self.contains_t(x, c.args[0])
        if c.op == 'dc':
            o = strip_copy(c)
            if o.op == 'field' and o.args[1] in LIST_KEYS:
                return self.seq_contains(self.items_of(c), xv)
            return self.has(c, x)
        if c.op == 'setop':
            if c.args[0] == 'union':
                return b_or(self.contains_t(x, c.args[1]), self.contains_t(x, c.args[2]))
            if c.args[0] == 'intersection':
                return b_and(self.contains_t(x, c.args[1]), self.contains_t(x, c.args[2]))
            if c.args[0] == 'difference':
                return b_and(self.contains_t(x, c.args[1]), b_not(self.contains_t(x, c.args[2])))
        if c.op in ('elem', 'firstb', 'lastb', 'bestb', 'sym', 'upd', 'undef'):
            if c.op == 'undef':
                return FALSE
            if is_const(x) and isinstance(x.args[0], str) or c.op != 'sym':
                return self.has(c, x)
            return atomv(mk('in', x, c))
        if c.op == 'field':
            if c.args[1] in DICT_KEYS:
                return self.has(c, x)
            if c.args[1] in LIST_KEYS:
                return self.seq_contains(self.items_of(c), xv)
            if c.args[1] not in STR_KEYS and is_const(x) and isinstance(x.args[0], str):
                return self.has(c, x)
            return atomv(mk('instr', x, c))
        if c.op in ('cat', 'str', 'mcall'):
            return atomv(mk('instr', x, c))
        return atomv(mk('in', x, c))

    def seq_contains(self, s, xv):
        return s_exists(s, lambda e: v_eq(self.pure(e), xv))

    # subscripts ---------------------------------------------------------
    def e_Subscript(self, e):
        obj = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower) if e.slice.lower else None
            hi = self.eval(e.slice.upper) if e.slice.upper else None
            st = self.eval(e.slice.step) if e.slice.step else None
            return self.slice(obj, lo, hi, st)
        key = self.eval(e.slice)
        return self.getitem(obj, key, e)

    def slice(self, obj, lo, hi, st):
        def c(v):
            if v is None:
                return None
            if v.atom is None and is_const(v.term):
                return v.term.args[0]
            return v

        lo, hi, st = c(lo), c(hi), c(st)

        def fn(t):
            if is_const(t) and isinstance(t.args[0], (str, tuple)) and not any(isinstance(x, N) for x in (lo, hi, st)):
                return const(t.args[0][lo:hi:st])
            if t.op == 'tuple' and not any(isinstance(x, N) for x in (lo, hi, st)):
                return leaf(mk('tuple', *t.args[slice(lo, hi, st)]))
            if self.stringish(t):
                return leaf(mk('strslice', t, lo, hi, st))
            s = self.to_seq_t(t)
            lits = literal_items(s)
            if lits is not None and not any(isinstance(x, N) for x in (lo, hi, st)):
                return self.new_list(seq(*[unit(TRUE, x) for x in lits[slice(lo, hi, st)]]))
            if lo is None and hi is None and st is None:
                return self.new_list(s)
            if lo is None and hi is None and st == -1:
                return self.new_list(ordered(mk('reversed'), s))
            if lo in (0, None) and hi == 1 and st is None:
                return self.new_list(seq(unit(s_exists(s), s_first(s))))
            if self.suppose == 'slice' and st in (None, 1) and not isinstance(lo, N) and not isinstance(hi, N) and \
                    (lo or hi is not None):
                self.left_out.add(s)
                return self.new_list(s)
            return leaf(mk('slice', s, lo, hi, st))
        return lift(fn, obj)

    def index_int(self, v, i):
        def fn(t):
            if t.op in ('tuple',):
                return self.tup_item(t, i)
            if t.op in ('seq',) or self.listish(t) or (t.op == 'alloc' and self.alloc_kind(t) in ('list', 'gen')):
                return self.tup_item(self.to_seq_t(t), i)
            return self.tup_item(t, i)
        return lift(fn, v)

    def getitem(self, obj, key, node):
        if any(t.op in ('series', 'dframe') for t in leafset(obj)):
            return self.pd_getitem(obj, key, node)
        key = self.pure(key)
        kcatch = self.catching('KeyError')
        icatch = self.catching('IndexError')

        def fn(o, k):
            if o.op == 'undef':
                return UNDEF
            if is_const(k) and isinstance(k.args[0], int) and not isinstance(k.args[0], bool):
                if o.op in ('tuple', 'seq', 'slot') or self.listish(o) or \
                        (o.op == 'alloc' and self.alloc_kind(o) in ('list', 'gen')) or \
                        (is_const(o)):
                    s = o if o.op == 'tuple' or is_const(o) else self.to_seq_t(o)
                    self.indexed.add(s)
                    return self.tup_item(s, k.args[0])
                if o.op in ('sym', 'call', 'mcall', 'item', 'unk', 'elem', 'slice', 'attr') and o.op != 'alloc':
                    s = self.items_of(o) if o.op in ('sym', 'slice') else None
                    if s is not None and k.args[0] in (0, -1):
                        return s_first(s, last=(k.args[0] == -1))
                    return self.tup_item(o, k.args[0])
            if o.op == 'tuple' or o.op == 'seq' or (o.op == 'alloc' and self.alloc_kind(o) == 'list'):
                return leaf(mk('nth', self.pure(leaf(o)).term, k))
            if o.op == 'alloc' and self.alloc_kind(o) in ('ddlist', 'group'):
                return leaf(mk('slot', o, k))
            if o.op == 'alloc' and self.alloc_kind(o) == 'ddnum':
                return lift(lambda x: ZERO if x.op == 'undef' else leaf(x), self.read(o, k))
            if o.op == 'mapv':
                return leaf(mk('lookup', o, k))
            if o.op == 'const':
                return leaf(mk('item', o, k))
            if o.op == 'alloc' and k.op != 'const':
                self.dyn_reads.add(o)
            return self.read(o, k)
        r = lift(fn, simp(obj, self.pc), key)
        if kcatch or icatch:
            miss = FALSE
            for g, o in leaves(obj, self.pc):
                for g2, k in leaves(key, b_and(self.pc, g)):
                    if kcatch and not (is_const(k) and isinstance(k.args[0], int) and self.listish(o)):
                        if o.op == 'alloc' and self.alloc_kind(o) in ('ddlist', 'ddnum'):
                            continue
                        if o.op in ('tuple', 'seq', 'const') or (o.op == 'alloc' and self.alloc_kind(o) == 'list'):
                            pass
                        else:
                            h = self.dict_has(o, k) if o.op == 'alloc' else self.has(o, k)
                            miss = b_or(miss, b_and(g, g2, b_not(h)))
                            continue
                    if icatch and is_const(k) and isinstance(k.args[0], int) and (
                            self.listish(o) or o.op in ('seq',)):
                        n = k.args[0]
                        need = n + 1 if n >= 0 else -n
                        self_s = self.to_seq_t(o)
                        self.do_raise('IndexError', b_and(g, g2, b_not(s_cntge(self_s, need))), node)
            if miss is not FALSE:
                self.do_raise('KeyError', miss, node)
                r = simp(r, self.pc)
        return prune(r)

    # attributes ---------------------------------------------------------
    def e_Attribute(self, e):
        # dotted external / module names
        obj = self.eval(e.value)
        return lift(lambda t: self.attr_t(t, e.attr, e), obj)

    def attr_t(self, t, name, node):
        if t.op == 'module':
            full = t.args[0] + '.' + name
            r = self.P.find(t.args[0], name)
            if r is not None:
                return self.from_def(r, name)
            if full in self.P.modules:
                return leaf(mk('module', full))
            return leaf(mk('unk', full))
        if t.op == 'ext':
            return ext_leaf(t.args[0] + '.' + name)
        if t.op == 'class':
            m = self.class_member(t.args[0], name)
            if m is not None:
                return m
            return leaf(mk('clsattr', t, name))
        if t.op == 'inst':
            v = self.read(t, mk('const', '.' + name))
            if not (v.atom is None and v.term.op == 'field'):
                return v
            m = self.class_member(t.args[0], name)
            if m is not None and m.atom is None and m.term.op in ('func', 'wrapt'):
                return leaf(mk('bound', t, m.term))
            if m is not None:
                return m
            return v
        if t.op == 'sym' and isinstance(t.args[0], str) and ('self', t.args[0]) in self.intrinsics:
            cls = self.intrinsics[('self', t.args[0])]
            m = self.class_member(cls, name)
            if m is not None and m.atom is None and m.term.op in ('func', 'wrapt'):
                return leaf(mk('bound', t, m.term))
            if m is not None:
                return m
            return self.read(t, mk('const', '.' + name))
        if t.op in ('func', 'wrapt', 'partial') and name in ('__name__', '__doc__', '__table__'):
            fv = self.funcs.get(t)
            if name == '__name__' and fv is not None and isinstance(fv.node, ast.FunctionDef):
                return const(fv.node.name)
            return leaf(mk('attr', t, name))
        if t.op == 'series' or t.op == 'dframe':
            return leaf(mk('pdattr', t, name))
        return self.read_attr(t, name)

    def read_attr(self, t, name):
        if t.op == 'undef':
            return UNDEF
        k = mk('const', '.' + name)
        return lift(lambda x: leaf(mk('attr', x.args[0], name)) if x.op == 'field' and x.args[1] == '.' + name
                    and x.args[0] is t else leaf(x), self.read(t, k))

    def class_member(self, qual, name, seen=()):
        mod, cn = qual.split(':')
        r = self.P.find(mod, cn)
        if not r or r[0] != 'class':
            return None
        for st in r[2].body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                v = self.funcval(r[1], st, qual + '.' + name, cls=qual)
                if any(dotted(d) == 'property' for d in st.decorator_list):
                    return leaf(mk('prop', v.term))
                return v
            if isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name) and tg.id == name:
                        return self.eval_global(r[1], st.value)
        for b in r[2].bases:
            bn = dotted(b)
            br = self.P.find(r[1].name, bn) if bn and '.' not in bn else None
            if br and br[0] == 'class' and qual not in seen:
                m = self.class_member(br[1].name + ':' + br[2].name, name, seen + (qual,))
                if m is not None:
                    return m
        return None

    def is_static(self, fv):
        if not isinstance(fv.node, ast.FunctionDef):
            return False
        return any(dotted(d) == 'staticmethod' for d in fv.node.decorator_list)

    def is_classm(self, fv):
        if not isinstance(fv.node, ast.FunctionDef):
            return False
        return any(dotted(d) == 'classmethod' for d in fv.node.decorator_list)

    # strings ------------------------------------------------------------
    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.eval(x.value)
                if x.format_spec is not None:
                    spec = ''.join(y.value for y in x.format_spec.values if isinstance(y, ast.Constant))
                    parts.append(lift(lambda t: leaf(mk('fmt', spec, t)), self.pure(v)))
                else:
                    parts.append(self.to_str(v))
        return str_cat(parts)

    def to_str(self, v):
        def fn(t):
            if is_const(t):
                return const(str(t.args[0]))
            if self.stringish(t):
                return leaf(t)
            return leaf(mk('str', t))
        return lift(fn, self.pure(v))

    def format(self, fmt, args, kwargs):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                parts.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto] if auto < len(args) else UNDEF
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)] if int(field) < len(args) else UNDEF
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    v = self.unk('fmtfield ' + field)
                if spec or conv:
                    parts.append(lift(lambda t: leaf(mk('fmt', (conv or '') + ':' + spec if conv else spec, t)), self.pure(v)))
                else:
                    parts.append(self.to_str(v))
        except ValueError:
            return self.unk('format')
        return str_cat(parts)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        f = self.frame
        self.log.append(U((), self.pc, f.yields, self.ITEMS, seq(unit(TRUE, v)), 'append'))
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        self.log.append(U((), self.pc, self.frame.yields, self.ITEMS, self.to_seq(v), 'append'))
        return NONE

    def e_Await(self, e):
        return self.unk('await')

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        if not self.tries or benign_call(e):
            return self.any_call(e)
        n0, p0 = self.n_inlined, self.pc
        r = self.any_call(e)
        if self.n_inlined == n0:
            for tr in self.tries:
                tr.points.append((self.marks(), p0 if len(self.open) == tr.depth else TRUE))
        return r

    def any_call(self, e):
        # method call?
        args, kwargs = None, None
        if isinstance(e.func, ast.Attribute):
            obj = self.eval(e.func.value)
            args, kwargs = self.args(e)
            alts = leaves(obj, self.pc) if obj.atom is not None else [(TRUE, obj.term)]
            return self.merge_calls(alts, lambda t: self.method(t, e.func.attr, args, kwargs, e))
        f = self.eval(e.func)
        args, kwargs = self.args(e)
        return self.call(f, args, kwargs, e)

    def args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                lits = None
                if v.atom is None:
                    s = self.to_seq_t(v.term)
                    lits = literal_items(seq_simp(s, self.pc))
                if lits is None:
                    args.append(('*', v))
                else:
                    args.extend(lits)
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if v.atom is None and v.term.op == 'alloc':
                    s = self.dict_items(v.term)
                    lits = literal_items(seq_simp(s, self.pc))
                    if lits is not None and all(x.atom is None and x.term.op == 'tuple' and
                                                x.term.args[0].atom is None and
                                                is_const(x.term.args[0].term) for x in lits):
                        for x in lits:
                            kwargs[x.term.args[0].term.args[0]] = x.term.args[1]
                        continue
                if v.atom is None and v.term.op == 'dictv':
                    for kk, vv in v.term.args[0]:
                        if is_const(kk):
                            kwargs[kk.args[0]] = vv
                    continue
                kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def merge_calls(self, alts, fn):
        if len(alts) == 1:
            return fn(alts[0][1])
        p0 = self.pc
        r = UNDEF
        out = FALSE
        for g, t in alts:
            self.pc = prune(b_and(p0, g))
            if self.pc is FALSE:
                continue
            v = fn(t)
            r = ite(g, v, r)
            out = b_or(out, self.pc)
        self.pc = prune(out)
        return prune(r)

    def call(self, f, args, kwargs, node):
        alts = leaves(f, self.pc) if f.atom is not None else [(TRUE, f.term)]
        return self.merge_calls(alts, lambda t: self.call_t(t, args, kwargs, node))

    def call_t(self, t, args, kwargs, node):
        if t.op == 'func':
            return self.call_func(t, args, kwargs, node)
        if t.op == 'wrapt':
            # wrapt decorator protocol: dec(wrapped, instance, args, kwargs)
            dec, wrapped = t.args
            wq = self.qual_of(wrapped)
            wq = self.canon.get(wq, wq)
            if self.stack and (wq in self.opaque or wq in self.intrinsics):
                return self.call_t(wrapped, args, kwargs, node)
            a = leaf(mk('tuple', *[x for x in args if isinstance(x, N)]))
            kw = leaf(mk('dictv', tuple((mk('const', k), v) for k, v in sorted(kwargs.items()))))
            return self.call_t(dec, [leaf(wrapped), NONE, a, kw], {}, node)
        if t.op == 'wraptdec' and len(args) == 1 and not kwargs and isinstance(args[0], N) and args[0].atom is None:
            return leaf(mk('wrapt', t.args[0], args[0].term))
        if t.op == 'decorated':
            self.note(node, 'unmodelled decorator')
            return self.call_t(t.args[1], args, kwargs, node)
        if t.op == 'partial':
            f, pargs, pkw = t.args
            kw = dict((k, v) for k, v in pkw)
            kw.update(kwargs)
            return self.call_t(f, list(pargs) + list(args), kw, node)
        if t.op == 'bound':
            fv = self.funcs.get(t.args[1])
            if fv is not None and self.is_static(fv):
                return self.call_t(t.args[1], args, kwargs, node)
            return self.call_t(t.args[1], [leaf(t.args[0])] + list(args), kwargs, node)
        if t.op == 'class':
            return self.instantiate(t, args, kwargs, node)
        if t.op == 'builtin':
            return self.builtin(t.args[0], args, kwargs, node)
        if t.op == 'ext':
            return self.external(t.args[0], args, kwargs, node)
        if t.op == 'inst':
            m = self.class_member(t.args[0], '__call__')
            if m is not None:
                return self.call_t(m.term, [leaf(t)] + list(args), kwargs, node)
        if t.op == 'prop':
            pass
        return self.opaque_call(show(t)[:200] if t.op not in ('sym', 'field', 'attr', 'elem', 'item') else 'dyn',
                                ([leaf(t)] if t.op in ('sym', 'field', 'attr', 'elem', 'item', 'call', 'mcall') else []) + list(args),
                                kwargs, node)

    def qual_of(self, t):
        if t.op == 'func':
            fv = self.funcs.get(t)
            return fv.qual if fv else None
        if t.op == 'wrapt':
            return self.qual_of(t.args[1])
        return None

    def instantiate(self, t, args, kwargs, node):
        qual = t.args[0]
        if qual in self.opaque:
            return self.opaque_call(qual, args, kwargs, node)
        base = self.class_bases(qual)
        if 'Exception' in base or 'BaseException' in base:
            return leaf(mk('inst', qual, 0))
        if self.pure_mode:
            inst = mk('inst', qual, mk('tuple', *[self.pure(a) for a in args if isinstance(a, N)]))
        else:
            inst = mk('inst', qual, self.new_site('inst'), self.open_elems())
        if self.pure_mode:
            return leaf(inst)
        init = self.class_member(qual, '__init__')
        if init is not None:
            self.call_t(init.term, [leaf(inst)] + list(args), kwargs, node)
        return leaf(inst)

    def class_bases(self, qual, seen=None):
        seen = seen or set()
        mod, cn = qual.split(':')
        r = self.P.find(mod, cn)
        out = set()
        if r and r[0] == 'class':
            for b in r[2].bases:
                n = dotted(b) or ''
                out.add(n)
                br = self.P.find(r[1].name, n) if '.' not in n else None
                if br and br[0] == 'class' and br[2].name not in seen:
                    out |= self.class_bases(br[1].name + ':' + br[2].name, seen | {cn})
                elif n in HIER:
                    out |= set(HIER[n])
        return out

    def opaque_call(self, name, args, kwargs, node, effect=True, fn=None):
        a = []
        if name in self.FILLS:
            for i, x in enumerate(args):
                if isinstance(x, N) and x.atom is None and x.term.op == 'alloc':
                    self.escaped[x.term] = mk('filled', name, i)
        for x in args:
            if isinstance(x, tuple):
                a.append(lift(lambda t: leaf(mk('star', t)), self.pure(x[1])))
            else:
                a.append(self.pure(x))
        ks = sorted(kwargs)
        kv = [self.pure(kwargs[k]) for k in ks]
        if effect:
            self.calls.append(Ev((), self.pc, name, tuple(a) + tuple(kv), getattr(node, 'lineno', 0), self.frame.qual))

        def build(*ts):
            pos = ts[:len(a)]
            kw = tuple((k, t) for k, t in zip(ks, ts[len(a):]))
            if kw:
                return leaf(mk('call', name, *(pos + (mk('kw', *[x for p in kw for x in p]),))))
            r = mk('call', name, *pos)
            return atomv(mk('truthy', r)) if name in self.ANSWERS else leaf(r)
        return lift(build, *(a + kv))

    # functions outside the repository that answer True or False
    ANSWERS = {'os.path.isdir', 'os.path.isfile', 'os.path.exists', 'os.path.islink', 'os.access',
               'os.path.isabs', 'math.isnan', 'math.isinf', 'math.isfinite', 'numpy.isnan', 'math.isclose'}

    def bind(self, node, args, kwargs, name):
        """bind call arguments to parameters -> dict name -> N (defaults: ('default', expr))"""
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        rest = []
        for i, v in enumerate(args):
            if isinstance(v, tuple):
                # *seq of unknown length
                for j, p in enumerate(params[i:]):
                    out[p] = self.index_int(v[1], j)
                break
            if i < len(params):
                out[params[i]] = v
            else:
                rest.append(v)
        kw_rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                out[k] = v
            else:
                kw_rest[k] = v
        nd = len(a.defaults)
        for p, d in zip(params[len(params) - nd:], a.defaults):
            if p not in out:
                out[p] = ('default', d)
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in out and d is not None:
                out[p] = ('default', d)
        if a.vararg is not None:
            out[a.vararg.arg] = leaf(mk('tuple', *rest))
        if a.kwarg is not None:
            out[a.kwarg.arg] = leaf(mk('dictv', tuple((mk('const', k), v) for k, v in sorted(kw_rest.items()))))
        return out, params + kwonly

    def call_func(self, t, args, kwargs, node):
        fv = self.funcs.get(t)
        if fv is None:
            return self.opaque_call(str(t.args[0]), args, kwargs, node)
        q = self.canon.get(fv.qual, fv.qual)
        top = len(self.stack) == 0
        if q in self.intrinsics and callable(self.intrinsics[q]) and not top:
            bound, order = self.bind(fv.node, args, kwargs, q)
            bound = self.defaults(fv, bound)
            return self.intrinsics[q](self, bound, node)
        if q in self.opaque and not top:
            bound, order = self.bind(fv.node, args, kwargs, q)
            given = set(k for k, v in bound.items() if not isinstance(v, tuple))
            bound = self.defaults(fv, bound)
            ref = self.sigs.get(q, order)
            vals = []
            for p in ref:
                if p in bound:
                    vals.append(bound[p])
                else:
                    self.note(node, 'signature of %s' % q)
                    vals.append(UNDEF)
            for p in order:
                if p not in ref and p in given:
                    self.note(node, 'signature of %s' % q)
            if ref and ref[0] == 'self' and vals and vals[0].atom is None and vals[0].term.op in ('inst', 'global'):
                vals = vals[1:]
            return self.opaque_call(q, vals, {}, node)
        active = any(n is fv.node for n in self.nodes)
        if active and not self.unfolding and not self.pure_mode and len(self.stack) <= self.MAXDEPTH:
            # a recursion that ends after one more call is unfolded
            snap = self.snapshot()
            self.unfolding, self.recursed = True, False
            try:
                bound, order = self.bind(fv.node, args, kwargs, fv.qual)
                r = self.inline(fv, bound, node)
            finally:
                self.unfolding = False
            if not self.recursed:
                return r
            self.restore(snap)
        if active or len(self.stack) > self.MAXDEPTH:
            self.recursed = True
            # the recursive call is its own summary (equal by induction)
            bound, order = self.bind(fv.node, args, kwargs, fv.qual)
            bound = self.defaults(fv, bound)
            name = 'rec:local' if fv.closure is not None else 'rec:' + q
            return self.opaque_call(name, [bound[p] for p in order if p in bound], {}, node)
        bound, order = self.bind(fv.node, args, kwargs, fv.qual)
        return self.inline(fv, bound, node)

    def defaults(self, fv, bound):
        out = {}
        for k, v in bound.items():
            if isinstance(v, tuple):
                fr = Frame(fv.module, fv.qual, fv.closure)
                self.frames.append(fr)
                try:
                    v = self.eval(v[1])
                finally:
                    self.frames.pop()
            out[k] = v
        return out

    def inline(self, fv, bound, node):
        self.n_inlined += 1
        self.analysed.add(fv.qual)
        bound = self.defaults(fv, bound)
        fr = Frame(fv.module, fv.qual, fv.closure)
        fr.env.update(bound)
        self.frames.append(fr)
        self.stack.append(fv.qual)
        self.nodes.append(fv.node)
        p0 = self.pc
        try:
            if isinstance(fv.node, ast.Lambda):
                return self.eval(fv.node.body)
            gen = is_generator(fv.node)
            if gen:
                fr.yields = self.alloc('gen')
            self.block(normal(fv.node).body)
            if gen:
                s = self.items_of(fr.yields)
                self.log[:] = [u for u in self.log if u.obj is not fr.yields]
                self.pc = prune(b_or(self.pc, fr.retg))
                return leaf(s)
            r = ite(fr.retg, fr.retv, NONE) if fr.retg is not FALSE else NONE
            self.pc = prune(b_or(self.pc, fr.retg))
            return simp(prune(r), self.pc)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.nodes.pop()

    # ---------------------------------------------------------------- methods
    def method(self, t, name, args, kwargs, node):
        # repo classes / modules / externals
        if t.op in ('module', 'class'):
            f = self.attr_t(t, name, node)
            if f.atom is None and t.op == 'class':
                fv = self.funcs.get(f.term) if f.term.op == 'func' else None
                if fv is not None and self.is_classm(fv):
                    return self.call_t(f.term, [leaf(t)] + list(args), kwargs, node)
            return self.call(f, args, kwargs, node)
        if t.op == 'ext':
            return self.external(t.args[0] + '.' + name, args, kwargs, node)
        if t.op == 'inst' or (t.op == 'sym' and ('self', t.args[0]) in self.intrinsics):
            f = self.attr_t(t, name, node)
            if f.atom is not None or f.term.op in ('bound', 'func', 'wrapt', 'partial', 'ext', 'class'):
                return self.call(f, args, kwargs, node)
            if f.term.op == 'sym' or f.term.op == 'attr':
                return self.opaque_call('dyn', [f] + list(args), kwargs, node)
        if t.op in ('series', 'dframe'):
            return self.pd_method(t, name, args, kwargs, node)
        if t.op == 'call' and t.args and t.args[0] == 'logging.getLogger' or \
                (t.op == 'ext' and t.args[0] == 'logging'):
            if name in ('info', 'warning', 'debug', 'error', 'critical', 'exception', 'log'):
                lname = t.args[1].args[0] if len(t.args) > 1 and is_const(t.args[1]) else ''
                self.add_log(lname, args, node)
                return NONE
            return self.opaque_call('logger.' + name, [leaf(t)] + list(args), kwargs, node)
        h = getattr(self, 'm_' + name, None)
        if h is not None:
            r = h(t, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if t.op in ('sym', 'elem', 'field', 'attr') and not (name in PURE_METHODS):
            v = self.read(t, mk('const', '.' + name))
            if not (v.atom is None and v.term.op in ('field', 'undef')):
                return self.call(v, args, kwargs, node)
        return self.mcall(t, name, args, kwargs, node)

    def call_method(self, obj, name, args, node):
        return self.merge_calls(leaves(obj, self.pc), lambda t: self.method(t, name, list(args), {}, node))

    def pattern_of(self, t):
        """the regular expression a match comes from, if known"""
        if t.op == 'elem':
            t = t.args[0]
            names = ('finditer',)
        else:
            names = ('search', 'match', 'fullmatch')
        if t.op == 'mcall' and t.args[0] in names and isinstance(t.args[1], N) and t.args[1].atom is None:
            r = t.args[1].term
        elif t.op == 'mcall' and t.args[0] in names and isinstance(t.args[1], T):
            r = t.args[1]
        else:
            return None
        if r.op == 'call' and r.args[0] == 're.compile' and len(r.args) == 2:
            p = r.args[1]
            p = p.term if isinstance(p, N) and p.atom is None else p
            if isinstance(p, T) and is_const(p) and isinstance(p.args[0], str):
                try:
                    return re.compile(p.args[0])
                except re.error:
                    return None
        return None

    def m_groups(self, t, args, kwargs, node):
        p = self.pattern_of(t)
        if p is None or args or kwargs:
            return NotImplemented
        return leaf(mk('tuple', *[self.mcall(t, 'group', [const(i + 1)], {}, node) for i in range(p.groups)]))

    def m_group(self, t, args, kwargs, node):
        if not args:
            return self.mcall(t, 'group', [const(0)], {}, node)
        if len(args) > 1:
            return leaf(mk('tuple', *[self.m_group(t, [a], {}, node) for a in args]))
        a = self.pure(args[0])
        if a.atom is None and is_const(a.term) and isinstance(a.term.args[0], str):
            p = self.pattern_of(t)
            if p is not None and a.term.args[0] in p.groupindex:
                a = const(p.groupindex[a.term.args[0]])
        return self.mcall(t, 'group', [a], {}, node)

    def m_count(self, t, args, kwargs, node):
        if len(args) == 1 and t.op in ('sym', 'field', 'cat', 'str', 'mcall'):
            x = self.pure(args[0])
            if x.atom is None and is_const(x.term) and isinstance(x.term.args[0], str) and x.term.args[0]:
                return ite(self.contains_t(x.term, t), self.mcall(t, 'count', args, kwargs, node), ZERO)
        return NotImplemented

    def mcall(self, t, name, args, kwargs, node):
        a = [self.pure(x if isinstance(x, N) else x[1]) for x in args]
        if name in ('encode', 'decode') and len(a) == 1 and a[0].atom is None and is_const(a[0].term) \
                and str(a[0].term.args[0]).lower().replace('_', '-') in ('utf-8', 'utf8'):
            a = []      # the default
        ks = sorted(kwargs)
        kv = [self.pure(kwargs[k]) for k in ks]
        if name not in PURE_METHODS:
            self.calls.append(Ev((), self.pc, '.' + name, (leaf(t),) + tuple(a) + tuple(kv),
                                 getattr(node, 'lineno', 0), self.frame.qual))

        def build(o, *ts):
            pos = ts[:len(a)]
            kw = [x for k, v in zip(ks, ts[len(a):]) for x in (k, v)]
            extra = (mk('kw', *kw),) if kw else ()
            return leaf(mk('mcall', name, o, *(pos + extra)))
        return lift(build, self.pure(leaf(t)), *(a + kv))

    def add_log(self, lname, args, node):
        a = tuple(lift(self.snap_t, self.pure(x)) for x in args if isinstance(x, N))
        self.logs.append(Ev((), self.pc, lname, a, getattr(node, 'lineno', 0), self.frame.qual))

    def snap_t(self, t):
        """an object that is changed before and after it is logged: its content now"""
        if t.op not in ('call', 'mcall', 'sym', 'elem', 'field'):
            return leaf(t)
        ks = []
        for u in self.log:
            if u.kind in ('set', 'del') and u.key.op == 'const' and u.key is not self.ITEMS and u.key not in ks \
                    and self.match(u, t) is not None:
                ks.append(u.key)
        if not ks:
            return leaf(t)
        ks.sort(key=lambda k: str(k.args[0]))
        return leaf(mk('snap', t, tuple((k, under(self.pure(self.read(t, k)), self.has(t, k))) for k in ks)))

    # dict methods
    def m_get(self, t, args, kwargs, node):
        if t.op in ('const', 'ctx'):
            return NotImplemented
        if not args:
            return NotImplemented
        d = args[1] if len(args) > 1 else kwargs.get('default', NONE)

        def fn(k):
            if t.op == 'undef':
                return UNDEF
            if t.op == 'alloc' and self.alloc_kind(t) in ('ddlist', 'group'):
                h = self.dict_has(t, k)
                return ite(h, leaf(mk('slot', t, k)), d)
            if t.op == 'mapv':
                return ite(atomv(mk('in', k, t)), leaf(mk('lookup', t, k)), d)
            return ite(self.has(t, k), self.read(t, k), d)
        return prune(lift(fn, self.pure(args[0])))

    def m_setdefault(self, t, args, kwargs, node):
        d = args[1] if len(args) > 1 else NONE
        if t.op == 'alloc':
            self.dyn_reads.add(t)

        if t.op == 'alloc' and self.alloc_kind(t) == 'dict' and d.atom is None and d.term.op == 'alloc' \
                and self.alloc_kind(d.term) == 'list' and self.items_of(d.term) is EMPTY and \
                self.no_plain_sets(t):
            # grouping idiom
            self.kind[t.args[0]] = 'ddlist'
        if t.op == 'alloc' and self.alloc_kind(t) == 'ddlist':
            k = self.pure(args[0])
            return lift(lambda kk: leaf(mk('slot', t, kk)), k)
        r = UNDEF
        for g, k in leaves(self.pure(args[0]), self.pc):
            h = self.has(t, k)
            old = self.read(t, k)
            self.add(t, k, d, guard=b_and(self.pc, g, b_not(h)), line=getattr(node, 'lineno', None))
            r = ite(g, ite(h, old, d), r)
        return prune(r)

    def no_plain_sets(self, t):
        return not any(u.obj is t and u.kind == 'set' and u.key is not self.ITEMS for u in self.log)

    def m_fromkeys(self, t, args, kwargs, node):
        if t.op != 'builtin' or t.args[0] != 'dict' or self.pure_mode or not args:
            return NotImplemented
        a = self.alloc('dict')
        val = args[1] if len(args) > 1 else NONE

        def body(v):
            self.store(leaf(a), v, val, node)
            return FALSE
        self.iterate(args[0], body, node)
        return leaf(a)

    def m_pop(self, t, args, kwargs, node):
        if t.op == 'alloc' and self.alloc_kind(t) in ('list', 'gen') or self.listish(t):
            s = seq_simp(self.items_of(t), self.pc)
            if not args or len(args) == 1 and args[0] is leaf(mk('const', -1)):
                v = s_first(s, last=True)
                rest = mk('seq', mk('spread', mk('call', '#init', self.pure(leaf(s)).term)))
                self.add(t, self.ITEMS, rest, 'set', line=node.lineno)
                return v
            self.note(node, 'list pop')
            return self.unk('pop', t)
        if not args and t.op == 'alloc' and self.alloc_kind(t) == 'set':
            # some element: the only one where the order does not matter
            s = seq_simp(as_set(self.items_of(t)), self.pc)
            self.add(t, self.ITEMS, mk('seq', mk('spread', mk('call', '#rest', self.pure(leaf(s)).term))), 'set', line=node.lineno)
            return s_first(bare(s))
        if not args:
            return NotImplemented
        k = self.pure(args[0])
        r = UNDEF
        for g, kk in leaves(k, self.pc):
            old, h = self.read(t, kk), self.has(t, kk)
            if len(args) > 1:
                r = ite(g, ite(h, old, args[1]), r)
            else:
                if self.catching('KeyError'):
                    self.do_raise('KeyError', b_and(g, b_not(h)), node)
                r = ite(g, old, r)
            self.add(t, kk, UNDEF, 'del', guard=b_and(self.pc, g), line=node.lineno)
        return prune(r)

    def dict_update(self, obj, other, node):
        for g, t in leaves(other, self.pc):
            if t.op == 'dictv':
                for k, v in t.args[0]:
                    self.store_guarded(obj, k, v, g, node)
            elif t.op == 'alloc' and self.alloc_kind(t) in ('dict', 'group', 'ddlist'):
                for it in self.dict_items(t).args:
                    self.update_item(obj, it, g, node, ())
            elif t.op == 'undef':
                continue
            elif t.op in ('seq',):
                for it in t.args:
                    self.update_item(obj, it, g, node, ())
            else:
                for g2, o in leaves(obj, self.pc):
                    self.log.append(U((), b_and(self.pc, g, g2), o, mk('const', '#update'), leaf(t), 'set'))
                self.note(node, 'dict update from unknown')

    def update_item(self, obj, it, g, node, binders):
        """store the (key, value) pairs described by a sequence item"""
        if it.op == 'unit':
            gg, e = it.args
            for g3, tp in leaves(e):
                if tp.op != 'tuple':
                    continue
                for g4, k in leaves(tp.args[0]):
                    for g5, o in leaves(obj, self.pc):
                        guard = prune(b_and(self.pc, g, gg, g3, g4, g5))
                        if guard is FALSE:
                            continue
                        self.log.append(U(binders, guard, o, k, tp.args[1], 'set', getattr(node, 'lineno', None)))
        elif it.op == 'for':
            S, n, q = it.args
            TM._fresh[0] += 1
            nb = (S, TM._fresh[0])
            q2 = seq_subst(q, {elem(S, n): leaf(elem(*nb))})
            for x in q2.args:
                self.update_item(obj, x, g, node, binders + (nb,))
        elif it.op == 'ord':
            for x in it.args[1].args:
                self.update_item(obj, x, g, node, binders)

    def store_guarded(self, obj, k, v, g, node):
        for g2, o in leaves(obj, self.pc):
            self.add(o, k, v, guard=b_and(self.pc, g, g2), line=getattr(node, 'lineno', None))

    def m_update(self, t, args, kwargs, node):
        if t.op == 'alloc' and self.alloc_kind(t) == 'set':
            for a in args:
                self.extend(leaf(t), a, node)
            return NONE
        if t.op in ('call', 'mcall', 'ctx', 'ext') and (args or not kwargs):
            return NotImplemented
        for a in args:
            self.dict_update(leaf(t), a, node)
        for k, v in kwargs.items():
            self.add(t, mk('const', k), v, line=node.lineno)
        return NONE

    def m_items(self, t, args, kwargs, node):
        if t.op == 'dictv':
            return leaf(seq(*[unit(TRUE, leaf(mk('tuple', leaf(k), v))) for k, v in t.args[0]]))
        if t.op == 'alloc':
            return leaf(self.dict_items(t))
        if t.op == 'mapv':
            return leaf(t.args[0])
        e = elem(t, 0)
        return leaf(seq_for(t, 0, seq(unit(TRUE, leaf(mk(
            'tuple', leaf(e), self.read(t, e)))))))

    def m_keys(self, t, args, kwargs, node):
        if t.op in ('dictv', 'alloc'):
            return leaf(self.to_seq_t(t))
        return leaf(mk('keysv', t))

    def m_values(self, t, args, kwargs, node):
        if t.op == 'dictv':
            return leaf(seq(*[unit(TRUE, v) for k, v in t.args[0]]))
        if t.op == 'alloc':
            return leaf(self.seq_map(self.dict_items(t), lambda e: lift(lambda p: self.tup_item(p, 1), e)))
        return NotImplemented

    def m_copy(self, t, args, kwargs, node):
        if t.op in ('series', 'dframe'):
            return leaf(t)
        if self.listish(t) or (t.op == 'alloc' and self.alloc_kind(t) == 'set'):
            return self.new_list(self.to_seq_t(t))
        return self.make_copy(t, False)

    # list methods
    def extend(self, obj, v, node, guard=None):
        s = self.to_seq(v)
        g0 = self.pc if guard is None else guard
        for g, o in leaves(obj, g0):
            if o.op in ('undef',) or is_const(o):
                continue
            self.log.append(U((), prune(b_and(g0, g)), o, self.ITEMS, s, 'append', getattr(node, 'lineno', None)))

    def m_append(self, t, args, kwargs, node):
        self.extend(leaf(t), leaf(seq(unit(TRUE, args[0]))), node)
        return NONE

    def m_add(self, t, args, kwargs, node):
        if t.op == 'alloc' and self.alloc_kind(t) == 'set' or t.op in ('slot',):
            self.extend(leaf(t), leaf(seq(unit(TRUE, args[0]))), node)
            return NONE
        return NotImplemented

    def m_extend(self, t, args, kwargs, node):
        self.extend(leaf(t), args[0], node)
        return NONE

    def m_insert(self, t, args, kwargs, node):
        s = self.items_of(t)
        i = args[0].term.args[0] if args[0].atom is None and is_const(args[0].term) else None
        if i == 0:
            new = seq(unit(TRUE, args[1]), s)
            self.log.append(U((), self.pc, t, self.ITEMS, new, 'set', node.lineno))
            return NONE

        lo, hi = (self.to_seq(self.pure(self.slice(leaf(s), *x, None)))
                  for x in ((None, args[0]), (args[0], None)))
        new = seq(lo, unit(TRUE, args[1]), hi)
        self.log.append(U((), self.pc, t, self.ITEMS, new, 'set', node.lineno))
        return NONE

    def m_clear(self, t, args, kwargs, node):
        if self.listish(t) or t.op == 'alloc':
            self.log.append(U((), self.pc, t, self.ITEMS, EMPTY, 'set', node.lineno))
            return NONE
        return NotImplemented

    def m_sort(self, t, args, kwargs, node):
        s = self.sorted_seq(self.items_of(t), kwargs)
        self.log.append(U((), self.pc, t, self.ITEMS, s, 'set', node.lineno))
        return NONE

    def m_reverse(self, t, args, kwargs, node):
        self.log.append(U((), self.pc, t, self.ITEMS, ordered(mk('reversed'), self.items_of(t)), 'set', node.lineno))
        return NONE

    def m_remove(self, t, args, kwargs, node):
        if t.op == 'mcall' or t.op == 'call':
            return NotImplemented
        x = self.pure(args[0])
        s = self.items_of(t)
        if t.op == 'alloc' and self.alloc_kind(t) == 'set':
            new = self.keep(s, lambda y: b_not(v_eq(y, x)))
            if new is not None:
                if self.catching('KeyError'):
                    self.do_raise('KeyError', b_not(s_exists(s, lambda y: v_eq(y, x))), node)
                self.log.append(U((), self.pc, t, self.ITEMS, new, 'set', node.lineno))
                return NONE
        new = mk('seq', mk('removed', s, x))
        self.log.append(U((), self.pc, t, self.ITEMS, new, 'set', node.lineno))
        return NONE

    def m_discard(self, t, args, kwargs, node):
        x = self.pure(args[0])
        if t.op == 'alloc' and self.alloc_kind(t) == 'set':
            new = self.keep(self.items_of(t), lambda y: b_not(v_eq(y, x)))
            if new is not None:
                self.log.append(U((), self.pc, t, self.ITEMS, new, 'set', node.lineno))
                return NONE
        return NotImplemented

    def m_issubset(self, t, args, kwargs, node):
        return b_not(truthy(self._setop('difference', t, args)))

    def m_issuperset(self, t, args, kwargs, node):
        x = self.pure(args[0])
        return lift(lambda u: b_not(truthy(self._setop('difference', u, [leaf(t)]))), x)

    def m_isdisjoint(self, t, args, kwargs, node):
        return b_not(truthy(self._setop('intersection', t, args)))

    # set algebra
    def _setop(self, nm, t, args):
        ops = list(args) if t.op == 'builtin' else [leaf(t)] + list(args)
        vals = []
        for a in ops:
            if isinstance(a, tuple):
                s = self.to_seq(self.pure(a[1]))
                vals.append(leaf(mk('bigset', nm, s)))
            else:
                vals.append(self.pure(a))
        r = vals[0]
        for v in vals[1:]:
            r = lift(lambda x, y: self.set_op(nm, self.as_set(x), self.as_set(y)), r, v)
        return r

    def as_set(self, t):
        if t.op == 'seq' and not (len(t.args) == 1 and t.args[0].op == 'ord' and t.args[0].args[0] is mk('set')):
            return ordered(mk('set'), t)
        if t.op == 'tuple':
            return ordered(mk('set'), self.to_seq_t(t))
        return t

    def m_union(self, t, args, kwargs, node):
        return self._setop('union', t, args)

    def m_intersection(self, t, args, kwargs, node):
        return self._setop('intersection', t, args)

    def m_difference(self, t, args, kwargs, node):
        return self._setop('difference', t, args)

    def m_symmetric_difference(self, t, args, kwargs, node):
        return self._setop('symmetric_difference', t, args)

    # strings
    def m_format(self, t, args, kwargs, node):
        if is_const(t) and isinstance(t.args[0], str) and not any(isinstance(a, tuple) for a in args):
            return self.format(t.args[0], args, kwargs)
        return NotImplemented

    def m_join(self, t, args, kwargs, node):
        if t.op == 'ext' or not args:
            return NotImplemented
        s = self.to_seq(args[0])
        lits = literal_items(s)
        if lits is not None:
            parts = []
            for i, x in enumerate(lits):
                if i:
                    parts.append(leaf(t))
                parts.append(x)
            return str_cat(parts)
        s = self.seq_map(s, self.pure)
        return leaf(mk('joined', t, s))

    def m_startswith(self, t, args, kwargs, node):
        return self._affix('startswith', t, args)

    def m_endswith(self, t, args, kwargs, node):
        return self._affix('endswith', t, args)

    def _affix(self, op, t, args):
        def fn(x, a):
            if is_const(x) and is_const(a) and isinstance(x.args[0], str):
                return TRUE if getattr(x.args[0], op)(a.args[0]) else FALSE
            if a.op == 'tuple':
                r = FALSE
                for y in a.args:
                    r = b_or(r, lift(fn, leaf(x), y))
                return r
            return atomv(mk(op, x, a))
        return lift(fn, leaf(t), self.pure(args[0]))

    def _strm(self, name, t, args, kwargs, node):
        if is_const(t) and isinstance(t.args[0], str) and all(
                isinstance(a, N) and a.atom is None and is_const(a.term) for a in args) and not kwargs:
            try:
                r = getattr(t.args[0], name)(*[a.term.args[0] for a in args])
                if isinstance(r, (str, bool, int)):
                    return const(r)
                if isinstance(r, list):
                    return self.new_list(seq(*[unit(TRUE, const(x)) for x in r]))
            except Exception:
                pass
        return NotImplemented

    def m_lower(self, t, args, kwargs, node):
        return self._strm('lower', t, args, kwargs, node)

    def m_upper(self, t, args, kwargs, node):
        return self._strm('upper', t, args, kwargs, node)

    def m_strip(self, t, args, kwargs, node):
        return self._strm('strip', t, args, kwargs, node)

    def m_replace(self, t, args, kwargs, node):
        return self._strm('replace', t, args, kwargs, node)

    def m_split(self, t, args, kwargs, node):
        return self._strm('split', t, args, kwargs, node)

    # ---------------------------------------------------------------- sorting
    def sorted_seq(self, s, kwargs):
        rev = kwargs.get('reverse', FALSE)
        r = bool(rev.atom is None and is_const(rev.term) and rev.term.args[0])
        if rev.atom is not None or not is_const(rev.term):
            return ordered(mk('sortedx', self.pure(rev)), s)
        if 'key' in kwargs and not (kwargs['key'] is NONE):
            kv = self.key_fn(kwargs['key'])
        else:
            kv = leaf(mk('it'))
        # -key with reverse flag normalisation
        if s.args and len(s.args) == 1 and s.args[0].op == 'ord' and s.args[0].args[0].op in ('sorted', 'set', 'keys'):
            if s.args[0].args[0].op == 'sorted':
                pass
        s2 = s
        return ordered(mk('sorted', kv, r), s2)

    def key_fn(self, f):
        """value of key function over the placeholder element 'it'"""
        p = self.pc
        return self.pure(self.call(f, [leaf(mk('it'))], {}, None))

    # ---------------------------------------------------------------- builtins
    def builtin(self, name, args, kwargs, node):
        h = getattr(self, 'b_' + name, None)
        if h is not None:
            r = h(args, kwargs, node)
            if r is not NotImplemented:
                return r
        if name in HIER or name in ('Exception', 'BaseException', 'NotImplementedError', 'RuntimeError', 'OSError'):
            return leaf(mk('inst', 'builtins:' + name, 0))
        return self.opaque_call('builtins.' + name, args, kwargs, node, effect=name in ('open', 'exec', 'eval', 'setattr', 'input'))

    def b_print(self, args, kwargs, node):
        return NONE

    def b_len(self, args, kwargs, node):
        def fn(t):
            if t.op == 'const' and isinstance(t.args[0], (str, tuple)):
                return const(len(t.args[0]))
            if self.stringish(t):
                return leaf(mk('numfn', 'strlen', t))
            if t.op == 'tuple':
                return const(len(t.args))
            if t.op == 'setop':
                return leaf(mk('numfn', 'len', t))
            return s_count(self.to_seq_t(t))
        return lift(fn, args[0])

    def b_bool(self, args, kwargs, node):
        return self.truth(args[0]) if args else FALSE

    def b_any(self, args, kwargs, node):
        return prune(s_exists(self.to_seq(args[0]), lambda e: self.truth_full(e)))

    def truth_full(self, e):
        return truthy(lift(self.truth_t, e))

    def b_all(self, args, kwargs, node):
        return prune(b_not(s_exists(self.to_seq(args[0]), lambda e: b_not(self.truth_full(e)))))

    def b_sum(self, args, kwargs, node):
        if any(t.op == 'series' for t in leafset(args[0])):
            return self.pd_method(args[0].term, 'sum', [], {}, node)
        s = self.to_seq(args[0])
        start = args[1] if len(args) > 1 else kwargs.get('start')
        if start is not None and any(self.listish(t) for t in leafset(start)):
            return self.new_list(self.flatten(s))
        if self.suppose == 'once' and isinstance(s, T):
            def all_of(x):
                if x.op == 'seq':
                    return mk('seq', *[y for z in x.args for y in (all_of(z).args if z.op == 'ord' and tag_dedupes(z.args[0]) else (z,))])
                if x.op == 'ord':
                    self.left_out.add(x)
                    return all_of(x.args[1])
                return x
            s = all_of(s)
        return prune(s_sum(s, start))

    def flatten(self, s):
        out = []
        for it in s.args:
            if it.op == 'unit':
                out.append(guard_seq(self.to_seq(it.args[1]), it.args[0]))
            elif it.op == 'for':
                out.append(seq_for(it.args[0], it.args[1], self.flatten(it.args[2])))
            elif it.op == 'ord':
                out.append(ordered(bound_tag(*it.args), self.flatten(it.args[1])))
            else:
                out.append(mk('flat', it))
        return seq(*out)

    def _minmax(self, kind, args, kwargs, node):
        if len(args) == 1 and isinstance(args[0], N):
            s = self.to_seq(args[0])
            lits = literal_items(s)
            if lits is not None and 'key' not in kwargs and lits:
                return num_minmax(kind, lits)
            kv = self.key_fn(kwargs['key']) if 'key' in kwargs else leaf(mk('it'))
            tag = mk('sorted', kv, kind == 'max')
            ex = s_exists(s)
            r = s_first(ordered(tag, s))
            if 'default' in kwargs:
                r = ite(ex, r, kwargs['default'])
            elif self.catching('ValueError'):
                self.do_raise('ValueError', b_not(ex), node)
            return r
        if 'key' in kwargs:
            s = seq(*[unit(TRUE, a) for a in args])
            return leaf(mk('sel', kind, self.key_fn(kwargs['key']), s))
        return num_minmax(kind, [self.pure(a) for a in args])

    def b_max(self, args, kwargs, node):
        return self._minmax('max', args, kwargs, node)

    def b_min(self, args, kwargs, node):
        return self._minmax('min', args, kwargs, node)

    def b_abs(self, args, kwargs, node):
        return num_abs(args[0])

    def b_list(self, args, kwargs, node):
        if not args:
            return self.new_list(EMPTY)
        return self.new_list(self.to_seq(args[0]))

    def b_tuple(self, args, kwargs, node):
        if not args:
            return leaf(mk('tuple'))
        s = self.to_seq(args[0])
        lits = literal_items(s)
        if lits is not None:
            return leaf(mk('tuple', *lits))
        return leaf(s)

    def b_set(self, args, kwargs, node):
        if not args:
            return self.new_list(EMPTY, 'set')
        s = self.to_seq(args[0])
        if len(s.args) == 1 and s.args[0].op == 'ord' and s.args[0].args[0] is mk('set'):
            return self.new_list(s, 'set')
        return self.new_list(ordered(mk('set'), s), 'set')

    b_frozenset = b_set

    def b_dict(self, args, kwargs, node):
        if self.pure_mode:
            if not args:
                return leaf(mk('dictv', tuple((mk('const', k), v) for k, v in kwargs.items())))
            v = args[0]
            if v.atom is None and v.term.op == 'dictv':
                return v
            s = self.to_seq(v)
            lits = literal_items(s)
            if lits is not None and all(x.atom is None and x.term.op == 'tuple' and x.term.args[0].atom is None for x in lits):
                return leaf(mk('dictv', tuple((x.term.args[0].term, x.term.args[1]) for x in lits)))
            return leaf(mk('mapv', s))
        if args and args[0].atom is None and args[0].term.op == 'alloc' and \
                self.alloc_kind(args[0].term) in ('group', 'ddlist') and not kwargs:
            return args[0]
        a = self.alloc('dict')
        if args:
            v = args[0]
            t = v.term if v.atom is None else None
            if t is not None and (t.op in ('seq',) or self.listish(t)):
                s = self.to_seq_t(t)
                for it in s.args:
                    self.update_item(leaf(a), it, TRUE, node, ())
            elif t is not None and t.op == 'global' and not kwargs:
                return leaf(mk('mapv', mk('spread', t)))
            elif t is not None and t.op in ('elem', 'firstb', 'lastb', 'dc', 'sym', 'field'):
                cp = self.make_copy(t, False)
                for k, vv in kwargs.items():
                    self.store(cp, const(k), vv, node)
                return cp
            else:
                self.dict_update(leaf(a), v, node)
        for k, vv in kwargs.items():
            self.add(a, mk('const', k), vv)
        return leaf(a)

    def b_iter(self, args, kwargs, node):
        return leaf(self.to_seq(args[0])) if args[0].atom is None else args[0]

    def b_next(self, args, kwargs, node):
        s = self.to_seq(args[0])
        ex = s_exists(s)
        if len(args) > 1:
            return prune(ite(ex, s_first(s), args[1]))
        if self.catching('StopIteration'):
            self.do_raise('StopIteration', b_not(ex), node)
        return prune(s_first(s))

    def b_sorted(self, args, kwargs, node):
        return self.new_list(self.sorted_seq(self.to_seq(args[0]), kwargs))

    def b_reversed(self, args, kwargs, node):
        return leaf(ordered(mk('reversed'), self.to_seq(args[0])))

    def b_filter(self, args, kwargs, node):
        f = args[0]
        out = self.alloc('gen')

        def body(v):
            c = self.truth_full(v) if f is NONE else self.truth(self.call(f, [v], {}, node))
            self.log.append(U((), prune(b_and(self.pc, c)), out, self.ITEMS, seq(unit(TRUE, v)), 'append'))
            return FALSE
        self.sub_iterate(args[1], body, node)
        s = self.items_of(out)
        self.log[:] = [u for u in self.log if u.obj is not out]
        return leaf(s)

    def b_map(self, args, kwargs, node):
        out = self.alloc('gen')
        if len(args) != 2:
            return NotImplemented

        def body(v):
            r = self.call(args[0], [v], {}, node)
            self.log.append(U((), self.pc, out, self.ITEMS, seq(unit(TRUE, r)), 'append'))
            return FALSE
        self.sub_iterate(args[1], body, node)
        s = self.items_of(out)
        self.log[:] = [u for u in self.log if u.obj is not out]
        return leaf(s)

    def sub_iterate(self, v, body, node):
        fr = Frame(self.frame.module, self.frame.qual + '.<iter>', closure=self.frame)
        self.frames.append(fr)
        try:
            self.iterate(v, body, node)
        finally:
            self.frames.pop()

    def b_enumerate(self, args, kwargs, node):
        s = self.to_seq(args[0])
        start = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
        lits = literal_items(s)
        if lits is not None:
            return leaf(seq(*[unit(TRUE, leaf(mk('tuple', num_bin('+', const(i), start), x)))
                              for i, x in enumerate(lits)]))
        return leaf(self.seq_map(s, lambda e: leaf(mk('tuple', num_bin('+', lift(
            lambda t: leaf(mk('idx', t, count_canon(s))), self.pure(e)), start), e))))

    def b_zip(self, args, kwargs, node):
        ss = [self.to_seq(a) for a in args]
        lits = [literal_items(s) for s in ss]
        if all(l is not None for l in lits):
            return leaf(seq(*[unit(TRUE, leaf(mk('tuple', *xs))) for xs in zip(*lits)]))
        r = zip_seqs(ss)
        if r is not None:
            return leaf(r)
        Z = mk('zip', *ss)
        e = elem(Z, 0)
        return leaf(seq_for(Z, 0, seq(unit(TRUE, leaf(mk('tuple', *[leaf(mk('item', e, i)) for i in range(len(ss))]))))))

    def b_range(self, args, kwargs, node):
        if any(isinstance(a, tuple) for a in args):
            args = [lift(lambda t: leaf(mk('star', t)), self.pure(a[1])) if isinstance(a, tuple) else a for a in args]
        if all(a.atom is None and is_const(a.term) for a in args):
            try:
                return leaf(seq(*[unit(TRUE, const(i)) for i in range(*[a.term.args[0] for a in args])]))
            except Exception:
                pass
        return lift(lambda *ts: leaf(mk('rangev', *ts)), *args)

    def b_str(self, args, kwargs, node):
        return self.to_str(args[0]) if args else const('')

    def b_float(self, args, kwargs, node):
        def fn(t):
            if numericish(t) and not (self.raw_fields and t.op == 'field'):
                return leaf(t)
            if is_const(t):
                try:
                    return const(float(t.args[0]))
                except Exception:
                    pass
            return leaf(mk('numfn', 'float', t))
        return lift(fn, self.pure(args[0]))

    def b_int(self, args, kwargs, node):
        return lift(lambda t: const(int(t.args[0])) if is_const(t) and isinstance(t.args[0], (int, float)) else
                    leaf(t) if t.op == 'numfn' and t.args[0] == 'int' else leaf(mk('numfn', 'int', t)), self.pure(args[0]))

    def b_isinstance(self, args, kwargs, node):
        def fn(t, c):
            if c.op == 'tuple':
                r = FALSE
                for x in c.args:
                    r = b_or(r, lift(fn, leaf(t), x))
                return r
            nm = c.args[0] if c.op in ('builtin', 'class', 'ext') else show(c)
            k = None
            if t.op == 'alloc':
                k = {'list': 'list', 'set': 'set', 'dict': 'dict', 'group': 'dict', 'ddlist': 'dict'}.get(self.alloc_kind(t))
            elif t.op == 'const':
                k = type(t.args[0]).__name__
            elif t.op == 'tuple':
                k = 'tuple'
            elif t.op in ('cat', 'fmt'):
                k = 'str'
            elif t.op == 'dictv':
                k = 'dict'
            if k is not None and nm in ('list', 'set', 'dict', 'str', 'int', 'float', 'tuple', 'bool'):
                return TRUE if k == nm or (k == 'bool' and nm == 'int') else FALSE
            if k is not None and ':' in str(nm):
                return FALSE
            if t.op == 'inst' and c.op == 'class':
                return TRUE if t.args[0] == nm or nm.split(':')[-1] in self.class_bases(t.args[0]) else FALSE
            return atomv(mk('isinst', t, str(nm).split('.')[-1]))
        return lift(fn, args[0], args[1])

    def b_hasattr(self, args, kwargs, node):
        return lift(lambda t, n: atomv(mk('pred', 'hasattr', t, n)), args[0], args[1])

    def b_getattr(self, args, kwargs, node):
        if args[1].atom is None and is_const(args[1].term):
            nm = args[1].term.args[0]
            v = lift(lambda t: self.attr_t(t, nm, node), args[0])
            if len(args) > 2:
                h = lift(lambda t: atomv(mk('pred', 'hasattr', t, mk('const', nm))), args[0])
                return ite(h, v, args[2])
            return v
        return NotImplemented

    def b_setattr(self, args, kwargs, node):
        if args[1].atom is None and is_const(args[1].term):
            for g, o in leaves(args[0], self.pc):
                self.add(o, mk('const', '.' + args[1].term.args[0]), args[2], guard=b_and(self.pc, g))
            return NONE
        return NotImplemented

    def b_callable(self, args, kwargs, node):
        return lift(lambda t: TRUE if t.op in ('func', 'wrapt', 'partial', 'class', 'bound', 'ext', 'builtin') else (
            FALSE if t.op in ('const', 'tuple', 'alloc', 'seq') else atomv(mk('pred', 'callable', t))), args[0])

    def b_id(self, args, kwargs, node):
        return lift(lambda t: leaf(mk('idof', t)), args[0])

    def b_round(self, args, kwargs, node):
        a = [self.pure(x) for x in args]
        return lift(lambda *ts: leaf(mk('numfn', 'round', *ts)), *a)

    def b_type(self, args, kwargs, node):
        return lift(lambda t: leaf(mk('typeof', t)), args[0])

    # ---------------------------------------------------------------- externals
    def external(self, name, args, kwargs, node):
        if name[:3] == 're.' and name[3:] in RE_METHODS and not kwargs and len(args) == RE_METHODS[name[3:]] and \
                all(isinstance(a, N) for a in args):
            p = self.pure(args[0])
            if p.atom is None and (is_const(p.term) or p.term.op == 'cat'):
                p = leaf(mk('call', 're.compile', p))
                return self.call_method(p, name[3:], args[1:], node)
        last = name.split('.')[-1]
        if name in ('copy.deepcopy',):
            return lift(lambda t: leaf(t) if t.op == 'sym' and t.args[0] in STRING_PARAMS else
                        self.make_copy(t, True), args[0])
        if name in ('copy.copy',):
            def cp(t):
                if self.listish(t) and t.op != 'tuple':
                    return self.new_list(self.to_seq_t(t))
                return self.make_copy(t, False)
            return lift(cp, args[0])
        if name == 'functools.reduce' and len(args) == 3 and not kwargs:
            return self.call(self.funcval(self.frame.module, REDUCE, '%s.<reduce>' % self.frame.qual), list(args), {}, node)
        if name in STAT_FIELDS and len(args) == 1:
            st = self.opaque_call('os.stat', args, kwargs, node)
            return lift(lambda t: self.attr_t(t, STAT_FIELDS[name], node), st)
        if name == 'functools.partial':
            f = args[0].term
            return leaf(mk('partial', f, tuple(args[1:]), tuple(sorted(kwargs.items()))))
        if last == 'groupby' and ('toolz' in name):
            return self.groupby(args[0], args[1], node)
        if name in ('collections.defaultdict',):
            kind = 'dict'
            if args and args[0].atom is None:
                t = args[0].term
                if t.op == 'builtin' and t.args[0] == 'list':
                    kind = 'ddlist'
                elif t.op == 'builtin' and t.args[0] in ('int', 'float'):
                    kind = 'ddnum'
                elif t.op == 'builtin' and t.args[0] == 'set':
                    kind = 'ddlist'
                elif t.op == 'func':
                    r = self.call_t(t, [], {}, node)
                    if r is ZERO:
                        kind = 'ddnum'
            return leaf(self.alloc(kind))
        if name in ('collections.OrderedDict',):
            return self.b_dict(args, kwargs, node)
        if name in ('collections.Counter',) and not args:
            return leaf(self.alloc('ddnum'))
        if name in STATEFUL:
            # one for every round of the loops around it
            rounds = tuple(leaf(elem(*b)) for b in self.open if b[0] != 'ord')
            if args and name == 'itertools.count' and args[0] is ZERO:
                args = args[1:] if len(args) == 1 else args
            t = mk('call', name, *[x.term if isinstance(x, N) and x.atom is None else x for x in args],
                   *[mk('kw', k, v) for k, v in sorted(kwargs.items())], *([mk('made', *rounds)] if rounds else []))
            return leaf(t)
        if name in ('itertools.chain',):
            parts = []
            for a in args:
                parts.append(self.to_seq(a[1]) if isinstance(a, tuple) else self.to_seq(a))
            if any(isinstance(a, tuple) for a in args):
                return leaf(self.flatten(self.to_seq(args[0][1])))
            return leaf(seq(*parts))
        if name in ('itertools.chain.from_iterable', 'toolz.concat', 'cytoolz.concat') or last == 'concat' and 'toolz' in name:
            return leaf(self.flatten(self.to_seq(args[0])))
        if name in ('operator.itemgetter',):
            return leaf(mk('itemgetter', *[a.term for a in args]))
        if name == 'math.fsum':
            return self.b_sum(args, kwargs, node)
        if name in ('math.fabs', 'numpy.abs'):
            return num_abs(args[0])
        if name in ('math.sqrt', 'numpy.sqrt'):
            return lift(lambda t: leaf(mk('numfn', 'sqrt', t)), args[0])
        if name in ('math.log', 'numpy.log', 'math.exp', 'numpy.exp') and len(args) == 1:
            return lift(lambda t: leaf(mk('numfn', last, t)), args[0])
        if name == 'logging.getLogger':
            a = self.pure(args[0]) if args else const('')
            return leaf(mk('call', 'logging.getLogger', a.term))
        if name.startswith('logging.') and last in ('info', 'warning', 'debug', 'error'):
            self.add_log('root', args, node)
            return NONE
        if name in ('pandas.DataFrame',):
            return self.pd_frame(args, kwargs, node)
        if name in ('pprint.pformat', 'pprint.pprint'):
            return self.opaque_call(name, args[:1], {}, node)
        if name in self.intrinsics and callable(self.intrinsics[name]):
            return self.intrinsics[name](self, args, kwargs, node)
        return self.opaque_call(name, args, kwargs, node)

    def groupby(self, keyf, data, node):
        a = self.alloc('group')

        def body(v):
            if keyf.atom is None and is_const(keyf.term):
                k = self.getitem(v, keyf, node)
            else:
                k = self.call(keyf, [v], {}, node)
            k = self.pure(k)
            for g, kk in leaves(k, self.pc):
                self.log.append(U((), prune(b_and(self.pc, g)), mk('slot', a, kk), self.ITEMS,
                                  seq(unit(TRUE, v)), 'append'))
            return FALSE
        self.sub_iterate(data, body, node)
        return leaf(a)

    # ---------------------------------------------------------------- pandas
    # series(seqOfValues) : column as a sequence; all columns of one frame have
    # the same shape, so element-wise work is position-wise zip.
    def pd_frame(self, args, kwargs, node):
        if not args:
            return self.unk('DataFrame')
        v = args[0]
        s = self.to_seq(v)
        site = self.alloc('df')
        t = mk('dframe', site, s)
        return leaf(t)

    def pd_getitem(self, obj, key, node):
        def fn(o, k):
            if o.op == 'dframe':
                if is_const(k):
                    ov = self.read(o, k)
                    if not (ov.atom is None and ov.term.op == 'field'):
                        return ov
                    s = self.seq_map(o.args[1], lambda e: lift(lambda x: self.read(x, k), e))
                    return leaf(mk('series', o.args[0], s))
                return self.unk('df-index')
            if o.op == 'series':
                if k.op == 'series':
                    s = self.zipmap(lambda a, b: leaf(mk('tuple', a, b)), o.args[1], k.args[1])
                    if s is not None:
                        # filtered series: guard by mask
                        return leaf(mk('series', o.args[0], self.mask_seq(s)))
                    return self.unk('mask')
                if is_const(k) and isinstance(k.args[0], int):
                    return self.tup_item(o.args[1], k.args[0])
            if o.op == 'pdattr':
                return self.unk('pd')
            return self.read(o, k)
        return lift(fn, obj, key)

    def mask_seq(self, s):
        out = []
        for it in s.args:
            if it.op == 'unit':
                g, e = it.args
                val = lift(lambda p: p.args[0] if p.op == 'tuple' else UNDEF, e)
                m = lift(lambda p: truthy(p.args[1]) if p.op == 'tuple' else FALSE, e)
                out.append(unit(b_and(g, m), val))
            elif it.op == 'for':
                out.append(seq_for(it.args[0], it.args[1], self.mask_seq(it.args[2])))
            else:
                out.append(mk('masked', it))
        return seq(*out)

    def zipmap(self, fn, *ss):
        r = zip_seqs(ss)
        if r is None:
            return None
        return self.seq_map(r, lambda e: lift(lambda p: fn(*p.args) if p.op == 'tuple' else UNDEF, e))

    def series_bin(self, o, a, b, node):
        sym_ = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/'}.get(o)

        def fn(x, y):
            if x.op == 'series' and y.op == 'series':
                if sym_ is None:
                    if o in ('BitAnd', 'BitOr'):
                        f = b_and if o == 'BitAnd' else b_or
                        s = self.zipmap(lambda p, q: f(truthy(p), truthy(q)), x.args[1], y.args[1])
                        return leaf(mk('series', x.args[0], s)) if s is not None else self.unk('series')
                    return self.unk('series-op')
                s = self.zipmap(lambda p, q: num_bin(sym_, p, q), x.args[1], y.args[1])
                if s is None:
                    return self.unk('series-op')
                return leaf(mk('series', x.args[0], s))
            if x.op == 'series' and sym_:
                return leaf(mk('series', x.args[0], self.seq_map(x.args[1], lambda p: num_bin(sym_, p, leaf(y)))))
            if y.op == 'series' and sym_:
                return leaf(mk('series', y.args[0], self.seq_map(y.args[1], lambda p: num_bin(sym_, leaf(x), p))))
            return self.unk('series-op')
        return lift(fn, a, b)

    def series_cmp(self, o, a, b):
        ops = {'Eq': ast.Eq(), 'NotEq': ast.NotEq(), 'Lt': ast.Lt(), 'Gt': ast.Gt(), 'LtE': ast.LtE(), 'GtE': ast.GtE()}
        if o not in ops:
            return FALSE

        def fn(x, y):
            if x.op == 'series' and y.op != 'series':
                return leaf(mk('series', x.args[0], self.seq_map(x.args[1], lambda p: self.compare(ops[o], p, leaf(y), None))))
            return self.unk('series-cmp')
        return lift(fn, a, b)

    def series_not(self, v):
        def fn(t):
            if t.op == 'series':
                return leaf(mk('series', t.args[0], self.seq_map(t.args[1], lambda p: b_not(truthy(p)))))
            return self.unk('invert')
        return lift(fn, v)

    def series_store(self, o, key, v, node, g):
        # factors[mask] = values[mask]
        kt = key.term if key.atom is None else None
        if kt is None or kt.op != 'series':
            self.note(node, 'series store')
            return
        name = node.value.id if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) else None
        vt = v.term if v.atom is None else None
        new = None
        if vt is not None and vt.op == 'series':
            # values were filtered by the same mask: compare unguarded positions
            full = self.unmask(vt.args[1], kt.args[1])
            if full is not None:
                new = self.zipmap(lambda old, m, nv: ite(truthy(m), nv, old), o.args[1], kt.args[1], full)
        elif vt is not None:
            new = self.zipmap(lambda old, m: ite(truthy(m), v, old), o.args[1], kt.args[1])
        if new is None or name is None:
            self.note(node, 'series store')
            if name:
                self.assign_name(name, self.unk('series'))
            return
        self.assign_name(name, leaf(mk('series', o.args[0], new)))

    def unmask(self, filtered, mask):
        """undo guard_seq(mask): valid where mask holds"""
        def rec(f, m):
            out = []
            if len(f.args) != len(m.args):
                return None
            for a, b in zip(f.args, m.args):
                if a.op == 'unit' and b.op == 'unit':
                    out.append(mk('unit', b.args[0], ite(a.args[0], a.args[1], UNDEF)))
                elif a.op == 'for' and b.op == 'for' and a.args[0] is b.args[0]:
                    q = a.args[2]
                    if a.args[1] != b.args[1]:
                        q = seq_subst(q, {elem(a.args[0], a.args[1]): leaf(elem(b.args[0], b.args[1]))})
                    r = rec(q, b.args[2])
                    if r is None:
                        return None
                    out.append(mk('for', b.args[0], b.args[1], r))
                else:
                    return None
            return mk('seq', *out)
        return rec(filtered, mask)

    def df_store(self, node, o, key, v, g):
        for g2, k in leaves(key):
            self.add(o, k, v, guard=b_and(self.pc, g, g2))

    def pd_method(self, t, name, args, kwargs, node):
        if t.op == 'series':
            if name == 'sum':
                return prune(s_sum(t.args[1]))
            if name in ('tolist', 'to_list'):
                return self.new_list(t.args[1])
            if name == 'copy' or name == 'astype':
                return leaf(t)
            if name == 'abs':
                return leaf(mk('series', t.args[0], self.seq_map(t.args[1], num_abs)))
            if name in ('any', 'all'):
                return self.b_any([leaf(t.args[1])], {}, node) if name == 'any' else self.b_all([leaf(t.args[1])], {}, node)
            if name in ('div', 'truediv', 'divide', 'mul', 'multiply', 'add', 'sub', 'subtract') and len(args) == 1 and not kwargs:
                o = {'d': 'Div', 't': 'Div', 'm': 'Mult', 'a': 'Add', 's': 'Sub'}[name[0]]
                return self.series_bin(o, leaf(t), args[0], node)
            if name in ('rdiv', 'rtruediv', 'rsub') and len(args) == 1 and not kwargs:
                return self.series_bin('Sub' if name == 'rsub' else 'Div', args[0], leaf(t), node)
            if name == 'clip':
                lo = args[0] if args else kwargs.get('lower', NONE)
                hi = args[1] if len(args) > 1 else kwargs.get('upper', NONE)
                s = t.args[1]
                if lo is not NONE:
                    s = self.seq_map(s, lambda p: num_minmax('max', [p, lo]))
                if hi is not NONE:
                    s = self.seq_map(s, lambda p: num_minmax('min', [p, hi]))
                return leaf(mk('series', t.args[0], s))
            if name in ('max', 'min') and not args and not kwargs:
                return (self.b_max if name == 'max' else self.b_min)([leaf(t.args[1])], {}, node)
            if name == 'where':
                m = args[0].term
                if m.op == 'series' and len(args) > 1:
                    other = args[1].term
                    if other.op == 'series':
                        s = self.zipmap(lambda x, mm, y: ite(truthy(mm), x, y), t.args[1], m.args[1], other.args[1])
                    else:
                        s = self.zipmap(lambda x, mm: ite(truthy(mm), x, args[1]), t.args[1], m.args[1])
                    if s is not None:
                        return leaf(mk('series', t.args[0], s))
        return self.unk('pandas.' + name, t)


def zip_seqs(ss):
    """pair up sequences that have exactly the same shape"""
    def rec(seqs):
        n = len(seqs[0].args)
        if any(len(s.args) != n for s in seqs):
            return None
        out = []
        for i in range(n):
            its = [s.args[i] for s in seqs]
            op = its[0].op
            if any(x.op != op for x in its):
                return None
            if op == 'unit':
                if any(x.args[0] is not its[0].args[0] for x in its):
                    return None
                out.append(unit(its[0].args[0], leaf(mk('tuple', *[x.args[1] for x in its]))))
            elif op == 'for':
                S, n0 = its[0].args[0], its[0].args[1]
                if any(x.args[0] is not S for x in its):
                    return None
                TM._fresh[0] += 1
                m = TM._fresh[0]
                qs = [seq_subst(x.args[2], {elem(S, x.args[1]): leaf(elem(S, m))}) for x in its]
                r = rec(qs)
                if r is None:
                    return None
                out.append(seq_for(S, m, r))
            else:
                return None
        return seq(*out)
    return rec(list(ss))


STAT_FIELDS = {'os.path.getmtime': 'st_mtime', 'os.path.getctime': 'st_ctime', 'os.path.getatime': 'st_atime',
               'os.path.getsize': 'st_size'}
REDUCE = ast.parse('def reduce(f, xs, acc):\n    for x in xs:\n        acc = f(acc, x)\n    return acc\n').body[0]


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else e.attr
    if isinstance(e, ast.Call):
        return dotted(e.func)
    return ''


def is_generator(node):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


BUILTINS = set('abs all any bool callable dict dir divmod enumerate eval exec filter float format '
               'frozenset getattr hasattr hash id input int isinstance issubclass iter len list map max min '
               'next object open ord print range repr reversed round set setattr sorted str sum super tuple '
               'type vars zip __import__ chr bytes globals locals property staticmethod classmethod '
               'NotImplemented __name__ __file__'.split())


@rebuild('item')
def _item(p, i):
    if p.op == 'tuple' and isinstance(i, int) and -len(p.args) <= i < len(p.args):
        return p.args[i]
    if p.op == 'undef':
        return UNDEF
    return leaf(mk('item', p, i))


@rebuild('numfn')
def _numfn(name, *ts):
    return leaf(mk('numfn', name, *ts))


def _field(o, k):
    if o.op == 'undef':
        return UNDEF
    return leaf(mk('field', o, k))


REBUILD['field'] = _field
