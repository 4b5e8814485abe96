"""Comparison of two value graphs (reference vs. repository)."""
from .terms import *
from fractions import Fraction
from . import terms as TM, linear
from .interp import Interp, Frame, U, HIER, REQUIRED

# operators whose meaning is fixed: a difference built only from these is a
# real difference.  Anything else that appears only on the repository side is
# an unmodelled construct and makes the comparison undecided.
KNOWN_CALLS = {
    'builtins.open', 'builtins.repr', 'builtins.hash', 'builtins.divmod',
}


class Mismatch(object):
    def __init__(self, what, a, b, path, unknown, line=None):
        self.what, self.a, self.b, self.path, self.unknown, self.line = what, a, b, path, unknown, line

    def text(self):
        cond = ' and '.join(('' if v else 'not ') + '(' + show(k) + ')' for k, v in self.path.items()
                            if len(show(k)) < 300)
        return '%s: reference %s, code %s%s' % (
            self.what, clip(show(self.a)), clip(show(self.b)), (' when ' + clip(cond)) if cond else '')


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + '...'


class Result(object):
    """analysis of one function"""
    def __init__(self, I, ret, pc):
        self.I, self.ret, self.pc = I, ret, pc


def analyse(program, qual, args, kwargs=None, opaque=(), intrinsics=None, alias=None, canon=None, sigs=None, oglobals=(), decorator=False, suppose=None):
    I = Interp(program, opaque, intrinsics)
    I.suppose = suppose
    I.canon, I.sigs = canon or {}, sigs or {}
    I.alias = alias or {}
    I.oglobals = set(oglobals)
    # attributes of XML elements are text until converted
    I.raw_fields = qual.startswith('ocelot.io.extract_ecospold2:')
    mod, name = qual.split(':')
    fr = Frame(program.modules[mod] if mod in program.modules else None, qual)
    if fr.module is None:
        raise KeyError('vanished anchor: module %s' % mod)
    I.frames.append(fr)
    if '.' in name:
        c, f = name.split('.')
        fv = I.class_member(mod + ':' + c, f)
    else:
        r = program.find(mod, name)
        if r is None:
            raise KeyError('vanished anchor: %s' % qual)
        fv = I.from_def(r, name)
    if fv is None:
        raise KeyError('vanished anchor: %s' % qual)
    avals = []
    for a in args:
        avals.append(build_arg(I, a))
    kv = {k: build_arg(I, a) for k, a in (kwargs or {}).items()}
    if fv.term.op == 'prop':
        fv = leaf(fv.term.args[0])
    if decorator:
        # what the decorated function does with its argument
        fv = I.call(fv, [sym('wrapped')], {}, None)
        avals = [sym('argument')]
    ret = I.call(fv, avals, kv, None)
    return Result(I, ret, I.pc)


def build_arg(I, a):
    if isinstance(a, N):
        return a
    if callable(a):
        return a(I)
    if isinstance(a, str):
        return sym(a)
    if isinstance(a, tuple) and a[0] == 'const':
        return const(a[1])
    if isinstance(a, tuple) and a[0] == 'tuple':
        return leaf(mk('tuple', *[build_arg(I, x) for x in a[1:]]))
    if isinstance(a, tuple) and a[0] == 'list':
        return I.new_list(seq(*[unit(TRUE, build_arg(I, x)) for x in a[1:]]))
    raise ValueError(a)


# what these compute from a list depends on its order
ORDER_OPS = {'foldout', 'foldat', 'whileout', 'whileret', 'whilelast', 'whilefold', 'firstb', 'lastb', 'sel', 'item',
             'slice', 'zip', 'nth', 'idx', 'joined', 'call', 'mcall'}


# exceptions that expressions raise by themselves
IMPLICIT = ('KeyError', 'IndexError', 'StopIteration', 'AttributeError', 'TypeError', 'ZeroDivisionError')


def item_guards(x):
    if x.op == 'unit':
        return [x.args[0]]
    if x.op == 'for':
        return [g for y in x.args[2].args for g in item_guards(y)]
    if x.op == 'ord' and x.args[1].op == 'seq':
        return [g for y in x.args[1].args for g in item_guards(y)]
    return [TRUE]


def contradicted(path):
    """one of the elements at hand is what the path says does not exist"""
    todo = [a for a, v in path.items() if a.op == 'exists' and not v]
    if not todo:
        return False
    scope = set()
    for a in path:
        scope |= set(b for b in free(a) if b.op == 'elem')
    return any(present(a, path, scope, 0) for a in todo)


def present(a, path, scope, depth):
    """one of the elements at hand has what the 'exists' atom asks for"""
    for b in scope:
        if a.args[0] is not b.args[0]:
            continue
        g = subst(a.args[2], {elem(a.args[0], a.args[1]): leaf(b)})
        for x, v in path.items():
            if g.atom is None:
                break
            g = cofactor(g, x, v)
        if g.atom is not None and depth < 3:
            for x in sorted(support(g), key=lambda t: t.id):
                if x.op == 'exists' and x not in path and present(x, path, scope, depth + 1):
                    g = cofactor(g, x, True)
        if g is TRUE:
            return True
    return False


def dedupe_key(x):
    """what the elements of an 'ord' item without repetitions differ by;
    None: by themselves"""
    tag, s = x.args
    if not tag.args or same_elements(s, tag.args[0]):
        return None
    return tag.args[0]


def sorts_fully(x):
    """the sorted sequence does not depend on the order of what is sorted"""
    tag, s = x.args
    if tag.op != 'sorted' or tag.args[0] is not leaf(mk('it')):
        return False
    return len(tag.args) == 2 or len(s.args) == 1 and s.args[0].op == 'ord' and tag_dedupes(s.args[0].args[0])


def exclusive_items(x, y):
    """the two parts of a list are never both present"""
    return all(b_and(g, h) is FALSE for g in item_guards(x) for h in item_guards(y))


# what these give is never what they were given
ALTERS = {'os.path.dirname', 'os.path.basename', 'os.path.splitext', 'os.path.split', 'os.path.realpath', 'os.path.relpath'}


# text methods no two of which agree on all texts
RECASTS = {'lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase', 'strip', 'lstrip', 'rstrip'}


def altered(a, b, path=(), depth=0):
    """b is a, with one part of it replaced by what a lossy operation makes of that part"""
    a = a.term if isinstance(a, N) and a.atom is None else a
    b = b.term if isinstance(b, N) and b.atom is None else b
    if isinstance(a, N) and isinstance(b, N) and a is not b and depth <= 12 and a.atom is not None and a.atom is b.atom:
        parts = [(x, y) for x, y in ((a.hi, b.hi), (a.lo, b.lo)) if x is not y]
        return all(altered(x, y, path, depth + 1) for x, y in parts)
    if a is b or depth > 12 or not isinstance(a, T) or not isinstance(b, T):
        return False
    if a.op == b.op == 'dictv' and [k for k, _ in a.args[0]] == [k for k, _ in b.args[0]]:
        parts = [(x, y) for (_, x), (_, y) in zip(a.args[0], b.args[0]) if x is not y]
        return len(parts) == 1 and altered(parts[0][0], parts[0][1], path, depth + 1)
    if b.op == 'call' and b.args[0] in ALTERS and len(b.args) == 2 and same_part(b.args[1], a):
        return True
    if b.op == 'item' and isinstance(b.args[0], T) and b.args[0].op == 'call' and b.args[0].args[0] in ('os.path.splitext', 'os.path.split') and \
            len(b.args[0].args) == 2 and same_part(b.args[0].args[1], a):
        return True
    if b.op == 'strslice' and same_part(b.args[0], a) and any(shortens(x) for x in b.args[1:3]):
        return True
    if a.op == 'mcall' and a.args[0] == 'replace' and len(a.args) == 4 and a.args[3] is mk('const', '') and \
            a.args[2].op == 'const' and other_cut(a.args[1], a.args[2], b, path):
        return True
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if a.op == 'mcall' and len(a.args) == 2 and a.args[1] is b.args[1] and a.args[0] != b.args[0] and \
            {a.args[0], b.args[0]} <= RECASTS:
        return True
    diff = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
    return len(diff) == 1 and a.op in ('call', 'cat', 'mcall', 'attr', 'tuple', 'pathjoin') and altered(diff[0][0], diff[0][1], path, depth + 1)


def other_cut(x, k, b, path):
    """b takes something other than every k out of the text x"""
    if b.op == 'mcall' and b.args[0] in ('strip', 'rstrip', 'lstrip') and len(b.args) == 3 and same_part(b.args[1], x):
        c = b.args[2]
        return c.op == 'const' and isinstance(c.args[0], str) and len(set(c.args[0])) > 2      # a set of characters
    if b.op == 'item' and isinstance(b.args[0], T) and b.args[0].op == 'mcall' and \
            b.args[0].args[0] in ('split', 'partition', 'rsplit', 'rpartition') and len(b.args[0].args) == 3 and \
            same_part(b.args[0].args[1], x):
        sep = b.args[0].args[2]
        if sep is not k:
            return sep.op == 'const'
        return not any(v and at.op in ('endswith', 'startswith') and same_part(at.args[0], x) for at, v in dict(path).items())
    return False


def same_part(x, t):
    return (x.term if isinstance(x, N) and x.atom is None else x) is t


def shortens(x):
    if x is None or isinstance(x, int):
        return bool(x)
    t = x.term if isinstance(x, N) and x.atom is None else x
    return isinstance(t, T) and t.op in ('const', 'poly') and t not in (mk('const', None), mk('const', 0)) and x is not ZERO


class Comparer(object):
    def __init__(self, A, B, ignore_keys=(), ordered=False, only_keys=None):
        self.A, self.B = A, B
        self.ignore = set(ignore_keys)
        self.only = set(only_keys) if only_keys else None
        self.ordered = ordered
        self.mm = []
        self.count = 0
        self.memo = {}
        self.active = set()
        self._foreign = None
        self.implicit = FALSE
        self.imp_events = []

    # -------------------------------------------------------------- foreign
    equals = in_vain = 0

    @property
    def known(self):
        if not hasattr(self, '_known'):
            self._known = {}
        return self._known

    def names(self, x):
        out = set()
        for t in subterms(x):
            if t.op == 'call':
                out.add('call:' + str(t.args[0]))
            elif t.op == 'mcall':
                out.add('mcall:' + str(t.args[0]))
            elif t.op in ('unk', 'ucond', 'fold', 'whilefold', 'zip', 'slice', 'removed', 'sel', 'nth', 'masked',
                          'gspread', 'spread', 'flat', 'star', 'rangev', 'lookup', 'mapv', 'idof', 'typeof',
                          'setop', 'pathjoin', 'strslice', 'repeat', 'exc', 'ctx', 'idx', 'keysof', 'distinct',
                          'fmt', 'joined', 'sortedx', 'decorated', 'listset'):
                out.add(t.op)
            elif t.op == 'numfn' and t.args[0] not in ('sqrt', 'log', 'exp', 'round', 'int', 'float', 'mod', 'pow', 'div0'):
                out.add('numfn:' + t.args[0])
        return out

    def spec_names(self):
        if self._foreign is None:
            s = self.names(self.A.ret)
            for u in self.A.I.log:
                s |= self.names(u.guard) | self.names(u.obj) | self.names(u.val) | self.names(u.key)
            for e in self.A.I.raises:
                s |= self.names(e.guard)
            for e in self.A.I.calls:
                s.add('call:' + e.name)
                for d in e.data or ():
                    if isinstance(d, (N, T)):
                        s |= self.names(d)
            self._foreign = s
        return self._foreign

    def unknown(self, b, path):
        n = self.names(b)
        for p in path:
            n |= self.names(p)
        return sorted(n - self.spec_names() - {'fmt'})

    def bad(self, what, a, b, path):
        u = self.unknown(b, list(path))
        if u and isinstance(a, (N, T)) and isinstance(b, (N, T)) and altered(a, b, path):
            u = [x for x in self.unknown(TRUE, list(path)) if x not in ('strslice', 'item', 'mcall:split', 'mcall:partition') and x[5:] not in ALTERS and
                 not (x.startswith('mcall:') and x[6:] in RECASTS)]
        self.mm.append(Mismatch(what, a, b, dict(path), u))

    # -------------------------------------------------------------- values
    def eq(self, a, b, pc, what, scope=(), path=None):
        """compare values wherever pc holds; records mismatches; -> bool"""
        self.count += 1
        if self.enough():
            return False
        path = {} if path is None else path
        memo = {}
        uses = [0]      # how often an answer depended on the path that led there

        def rec(x, y, p, assign):
            if p is FALSE:
                return True
            if x is y and not fresh_inside(x):
                return True
            key = (x, y, p)
            if memo.get(key):
                return True
            u0 = uses[0]
            at = top_atom(x, y, p)
            if at is None:
                n0 = len(self.mm)
                if self.leaf_eq(x.term, y.term, what, scope, assign):
                    if assign:
                        n0 = len(self.mm)
                        if not self.leaf_eq(x.term, y.term, what, scope, {}):
                            uses[0] += 1
                        del self.mm[n0:]
                    return True
                if assign and (contradicted(assign) or not linear.consistent(assign)):
                    del self.mm[n0:]
                    uses[0] += 1
                    return True
                n1 = len(self.mm)
                try:
                    if assign and self.by_equals(x, y, what, scope, assign):
                        del self.mm[n0:]
                        uses[0] += 1
                        return True
                except TM.Captured:
                    pass
                del self.mm[n1:]
                return False
            if at in assign:
                val = assign[at]
                return rec(cof(x, at, val), cof(y, at, val), cof(p, at, val), assign)
            ok = True
            for val in (True, False):
                if infeasible(assign, at, val):
                    if assign and not infeasible({}, at, val):
                        uses[0] += 1
                    continue
                assign[at] = val
                ok = rec(cof(x, at, val), cof(y, at, val), cof(p, at, val), assign) and ok
                del assign[at]
                if not ok and self.enough():
                    return False
            if ok and uses[0] == u0:
                memo[key] = True
            return ok
        return rec(a, b, prune(pc), dict(path))

    def enough(self):
        return len(self.mm) > 40 or len(self.mm) > 10 and sum(not m.unknown for m in self.mm) > 10

    def by_equals(self, x, y, what, scope, path):
        """the same, or a case that cannot be, once what the path says to be equal is written the same way"""
        m = {}
        for at, v in path.items():
            if not v:
                continue
            if at.op == 'eq':
                p, q = at.args
                if is_const(p) or not is_const(q) and p.id > q.id:
                    p, q = q, p
                if not is_const(q):
                    p, q = (p, q) if p.id > q.id else (q, p)
                    if any(t.op not in ('sym', 'field', 'attr', 'mcall') or self.kindof(I, t) in ('obj', 'list')
                           for t in (p, q) for I in (self.A.I, self.B.I)) or q in subterms(p) or p in subterms(q):
                        continue
                if is_const(p) or p in m:
                    continue
                m[p] = leaf(q)
            elif at.op == 'zero':
                p = to_poly(at.args[0])
                vs = [k for k in p if k]
                if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1 and vs[0][0][0] not in m:
                    m[vs[0][0][0]] = leaf(from_poly({(): -Fraction(p.get((), 0)) / Fraction(p[vs[0]])}))
        if not m or self.equals > 1 or self.in_vain > 4:
            return False
        pc = TRUE
        for at, v in path.items():
            r = subst(atomv(at), m)
            pc = b_and(pc, r if v else b_not(r))
        pc = prune(pc)
        if pc is FALSE:
            return True
        a, b = subst(x, m), subst(y, m)
        if a is x and b is y:
            return False
        self.equals += 1
        try:
            r = self.eq(a, b, pc, what, scope, {})
            self.in_vain += not r
            return r
        finally:
            self.equals -= 1

    def leaf_eq(self, a, b, what, scope, path):
        if a is b and not fresh_inside(a):
            return True
        key = (a, b, scope, frozenset(path.items()), self.ordered)
        if key in self.memo:
            return self.memo[key]
        akey = (a, b, scope, self.ordered)
        if akey in self.active:
            return True
        self.active.add(akey)
        try:
            n0 = len(self.mm)
            r = self._leaf_eq(a, b, what, scope, path)
            self.memo[key] = r
            return r
        finally:
            self.active.discard(akey)

    def _leaf_eq(self, a, b, what, scope, path):
        IA, IB = self.A.I, self.B.I
        # equal under the path
        for at, v in path.items():
            if v and at.op == 'eq':
                x, y = at.args
                if (x is a and y is b) or (x is b and y is a):
                    return True
            if v and at.op == 'is':
                x, y = at.args
                if (x is a and y is b) or (x is b and y is a):
                    return True
            if v and at.op == 'zero' and ((at.args[0] is a and b is mk('const', 0)) or
                                           (at.args[0] is b and a is mk('const', 0))):
                return True
        if a.op == 'undef' or b.op == 'undef':
            if a.op == b.op:
                return True
            if a.op == 'undef':
                return True     # the reference does not constrain this case
        la, lb = self.kindof(IA, a), self.kindof(IB, b)
        if la == 'list' and lb == 'list':
            n0 = len(self.mm)
            sa, sb = IA.to_seq_t(a), IB.to_seq_t(b)
            if self.seq_eq(sa, sb, what, scope, path):
                return True
            m = {k: (TRUE if v else FALSE) for k, v in path.items()}
            sa2, sb2 = seq_subst(sa, m), seq_subst(sb, m)
            if m and (sa2 is not sa or sb2 is not sb):
                n1 = len(self.mm)
                if self.seq_eq(sa2, sb2, what, scope, path):
                    del self.mm[n0:]
                    return True
                del self.mm[n1:]
            return False
        if la == 'obj' and lb == 'obj':
            return self.obj_eq(a, b, what, scope, path)
        if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
            ok = True
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                ok = self.eq(x, y, TRUE, '%s[%d]' % (what, i), scope, path) and ok
            return ok
        if a.op == 'func' and b.op == 'func' and a.args[0].split('#')[0].split('.')[-1] != '':
            return self.func_eq(a, b, what, scope, path)
        if a.op == 'inst' and b.op == 'inst':
            if a.args[0] != b.args[0]:
                self.bad(what, a, b, path)
                return False
            return self.obj_keys(a, b, what, scope, path)
        if a.op == 'dframe' and b.op == 'dframe':
            return self.frame_eq(a, b, what, scope, path)
        if la in ('obj', 'list') or lb in ('obj', 'list'):
            if la != lb:
                self.bad(what + (' (copy/identity differs)' if strip_copy(a) is strip_copy(b) else ''), a, b, path)
                return False
        if a.op == b.op and a.op in ('firstb', 'lastb', 'bestb', 'sum', 'exists', 'count', 'call', 'mcall', 'cat',
                                     'dictv', 'numfn', 'joined', 'fold', 'foldout', 'foldat', 'field', 'kw', 'elem',
                                     'series', 'slice', 'setop', 'ord', 'pre', 'abs', 'whileout', 'whilefold',
                                     'max', 'min', 'str', 'fmt', 'ctx', 'attr', 'item', 'strslice', 'spread', 'star',
                                     'rangev', 'whileret', 'mapv', 'bound', 'partial', 'wrapt', 'snap'):
            n0 = len(self.mm)
            if self.args_eq(a, b, what, scope, path):
                return True
            del self.mm[n0:]
        if linear.same(a, b, path):
            return True
        # tests decided by the path, inside the terms
        m = {k: (TRUE if v else FALSE) for k, v in path.items()}
        for at, v in path.items():
            if at.op == 'neg':
                q = leaf(at.args[0])
                m[mk('abs', at.args[0])] = num_bin('-', ZERO, q) if v else q
        if m:
            a2, b2 = subst(leaf(a), m), subst(leaf(b), m)
            if (a2 is not leaf(a) or b2 is not leaf(b)) and a2.atom is None and b2.atom is None:
                n0 = len(self.mm)
                if self.leaf_eq(a2.term, b2.term, what, scope, {}):
                    return True
                del self.mm[n0:]
        self.bad(what, a, b, path)
        return False

    def func_eq(self, a, b, what, scope, path):
        """two function values: compare what they compute on a generic argument"""
        fa, fb = self.A.I.funcs.get(a), self.B.I.funcs.get(b)
        if fa is None or fb is None or not hasattr(fa, 'node'):
            self.bad(what, a, b, path)
            return False
        n = len(fa.node.args.args)
        if len(fb.node.args.args) != n:
            self.bad(what + ' (parameters)', a, b, path)
            return False
        vals = [sym('#arg%d' % i) for i in range(n)]
        ra = self.A.I.call(leaf(a), list(vals), {}, None)
        rb = self.B.I.call(leaf(b), list(vals), {}, None)
        return self.eq(ra, rb, TRUE, what + '()', scope, path)

    def frame_eq(self, a, b, what, scope, path):
        IA, IB = self.A.I, self.B.I
        ok = self.arg_eq(a.args[1], b.args[1], what, scope, path) if len(a.args) > 1 else True
        ok = self.obj_keys(a, b, what, scope, path) and ok
        return ok

    def obj_keys(self, a, b, what, scope, path):
        IA, IB = self.A.I, self.B.I
        ok = True
        keys = []
        for k in self.touched(IA, a) + self.touched(IB, b):
            if k not in keys and k.op == 'const':
                keys.append(k)
        for k in keys:
            ok = self.eq(IA.read(a, k), IB.read(b, k), TRUE, '%s[%r]' % (what, k.args[0]), scope, path) and ok
        return ok

    def args_eq(self, a, b, what, scope, path):
        if len(a.args) != len(b.args):
            return False
        if a.op in ORDER_OPS and not self.ordered:
            self.ordered = True
            try:
                return self.args_eq(a, b, what, scope, path)
            finally:
                self.ordered = False
        ba, bb = binder_of(a), binder_of(b)
        ren = None
        if ba is not None and bb is not None and ba is not bb:
            if ba.args[0] is bb.args[0]:
                ren = {bb: leaf(ba)}
            else:
                return False
        for x, y in zip(a.args, b.args):
            if ren and isinstance(y, (N, T)) and y is not bb.args[0]:
                y2 = subst(y, ren)
                if isinstance(y, T) and isinstance(y2, N):
                    if y2.atom is not None:
                        return False
                    y2 = y2.term
                y = y2
            if ba is not None and isinstance(x, int) and isinstance(y, int):
                continue
            if not self.arg_eq(x, y, what, scope, path):
                return False
        return True

    def arg_eq(self, x, y, what, scope, path):
        if x is y:
            return True
        if isinstance(x, N) and isinstance(y, N):
            return self.eq(x, y, TRUE, what, scope, {})
        if isinstance(x, T) and isinstance(y, T):
            return self.leaf_eq(x, y, what, scope, {})
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.arg_eq(p, q, what, scope, path) for p, q in zip(x, y))
        return x == y

    def kindof(self, I, t):
        if t.op in ('seq', 'slot'):
            return 'list'
        if t.op == 'alloc':
            k = I.alloc_kind(t)
            return 'list' if k in ('list', 'set', 'gen') else 'obj'
        if t.op == 'field' and t.args[1] in LIST_KEYS:
            return 'list'
        if t.op == 'dc':
            return 'list' if self.kindof(I, strip_copy(t)) == 'list' else 'obj'
        if t.op == 'dictv':
            return 'obj'
        if t.op == 'tuple':
            return 'tuple'
        if t.op == 'sym' and t.args[0] in ('data', 'datasets'):
            return 'list'
        return 'val'

    # -------------------------------------------------------------- sequences
    def seq_eq(self, a, b, what, scope, path):
        if a is b and not fresh_inside(a):
            return True
        ia, ib = self.parts(a), self.parts(b)
        n0 = len(self.mm)
        if len(ia) == len(ib):
            ok = True
            for x, y in zip(ia, ib):
                if not self.item_eq(x, y, what, scope, path):
                    ok = False
                    break
            if ok:
                return True
        if len(ia) == len(ib) and len(ia) > 1:
            keep = self.mm[n0:]
            del self.mm[n0:]
            used = []
            ok = True
            for x in ia:
                hit = False
                for j, y in enumerate(ib):
                    if j in used:
                        continue
                    m0 = len(self.mm)
                    # where the order counts only alternatives may change places
                    if self.ordered and not all(exclusive_items(x, ia[i]) for i, k in enumerate(used) if k > j):
                        continue
                    if self.item_eq(x, y, what, scope, path):
                        used.append(j)
                        hit = True
                        break
                    del self.mm[m0:]
                if not hit:
                    ok = False
                    break
            if ok:
                return True
            self.mm[n0:] = keep
        # regroup: both as one guarded alternative list per source
        if len(self.mm) == n0:
            self.bad(what + ' (elements)', a, b, path)
        return False

    def parts(self, s):
        """items of s; where the order does not count, without sorting"""
        if self.ordered:
            return list(s.args)
        out = []
        for x in s.args:
            if x.op == 'ord' and not tag_dedupes(x.args[0]) and x.args[1].op == 'seq':
                out.extend(self.parts(x.args[1]))
            else:
                out.append(x)
        return out

    def item_eq(self, x, y, what, scope, path):
        if x.op != y.op:
            self.bad(what, mk('seq', x), mk('seq', y), path)
            return False
        if x.op == 'unit':
            n0 = len(self.mm)
            ok = self.eq(x.args[0], y.args[0], TRUE, what + ' (condition)', scope, path)
            ok = self.eq(x.args[1], y.args[1], b_and(x.args[0], y.args[0]), what, scope, path) and ok
            return ok
        if x.op == 'for':
            S, n, q = x.args
            S2, n2, q2 = y.args
            if S is not S2:
                if S.op == S2.op and S.op in ('dc', 'distinct', 'spread', 'zip', 'slice', 'call', 'setop', 'whileout',
                                              'foldout', 'slot', 'mcall', 'item', 'tuple') and self.source_eq(S, S2, what, scope, path):
                    pass
                else:
                    self.bad(what + ' (iterated collection)', S, S2, path)
                    return False
            TM._fresh[0] += 1
            m = TM._fresh[0]
            b = elem(S, m)
            qa = seq_subst(q, {elem(S, n): leaf(b)})
            qb = seq_subst(q2, {elem(S2, n2): leaf(b)})
            for e in self.imp_events:
                g = self.fact(e, scope + (b,))
                if g is not None:
                    qa, qb = guard_seq(qa, b_not(g)), guard_seq(qb, b_not(g))
            return self.seq_eq(qa, qb, what, scope + (b,), path)
        if x.op == 'ord':
            ok = True
            if x.args[0] is not y.args[0]:
                if tag_dedupes(x.args[0]) and tag_dedupes(y.args[0]):
                    kx, ky = dedupe_key(x), dedupe_key(y)
                    if (kx is None) != (ky is None):
                        self.bad(what + ' (repetitions)', x.args[0], y.args[0], path)
                        return False
                    if kx is not None and kx is not ky:
                        n0 = len(self.mm)
                        if not self.seq_eq(kx, ky, what + ' (repetitions)', scope, path):
                            if len(self.mm) == n0:
                                self.bad(what + ' (repetitions)', x.args[0], y.args[0], path)
                            return False
                if x.args[0].op != y.args[0].op:
                    if self.ordered or tag_dedupes(x.args[0]) != tag_dedupes(y.args[0]):
                        self.bad(what + ' (order)', x.args[0], y.args[0], path)
                        return False
                elif self.ordered:
                    n0 = len(self.mm)
                    if not self.args_eq(x.args[0], y.args[0], what + ' (order)', scope, path):
                        if len(self.mm) == n0:
                            self.bad(what + ' (order)', x.args[0], y.args[0], path)
                        return False
            ordered = self.ordered
            if sorts_fully(x) and sorts_fully(y):
                self.ordered = False
            try:
                return self.seq_eq(x.args[1], y.args[1], what, scope, path) and ok
            finally:
                self.ordered = ordered
        if x is y:
            return True
        n0 = len(self.mm)
        if self.args_eq(x, y, what, scope, path):
            return True
        del self.mm[n0:]
        self.bad(what, x, y, path)
        return False

    def fact(self, e, scope):
        """the guard of an event for the elements in scope"""
        m, left = {}, []
        for S, n in e.binders:
            S2 = subst(leaf(S), m)
            hit = [b for b in scope if S2.atom is None and b.args[0] is S2.term] if not left else []
            if hit:
                m[elem(S, n)] = leaf(hit[-1])
            else:
                left.append((S, n))
        if not m:
            return None
        g = e.guard
        for S, n in reversed(left):
            g = v_exists(S, n, g)
        return subst(g, m)

    def source_eq(self, a, b, what, scope, path):
        n0 = len(self.mm)
        r = self.args_eq(a, b, what, scope, path) if a.op != 'dc' else strip_copy(a) is strip_copy(b)
        if not r:
            del self.mm[n0:]
        return r

    # -------------------------------------------------------------- objects
    def touched(self, I, o):
        keys = []
        for u in I.log:
            if u.key is I.ITEMS or u.kind not in ('set', 'del'):
                continue
            if I.match(u, o) is not None:
                if u.key not in keys:
                    keys.append(u.key)
        return keys

    def nested(self, I, o):
        return list(self._nested(I, o))

    def _nested(self, I, o):
        """container keys of a copied object below which something changed"""
        out = []
        if o.op not in ('dc',):
            return out
        site = o.args[1]
        key = (I is self.A.I, site, len(I.log))
        if key in self.known:
            return self.known[key]
        self.known[key] = out
        for u in I.log:
            for t in subterms(u.obj):
                if t.op == 'dc' and t.args[1] is site:
                    for x in subterms(t.args[0]):
                        if x.op == 'field' and x.args[1] in CONTAINER_KEYS:
                            k = mk('const', x.args[1])
                            if k not in out:
                                out.append(k)
        return out

    def want(self, key):
        if key.op == 'const':
            k = key.args[0]
            if k in self.ignore:
                return False
            if self.only is not None and k not in self.only:
                return False
        return True

    def obj_eq(self, a, b, what, scope, path):
        IA, IB = self.A.I, self.B.I
        if len(scope) > 24:
            return True
        fa, fb = is_fresh(a), is_fresh(b)
        if fa != fb:
            self.bad(what + ' (copied vs shared object)', a, b, path)
            return False
        ok = True
        if fa and fb:
            sa = set(scope) & free(a)
            sb = set(scope) & free(b)
            if len(sb) < len(sa) and a.op in ('alloc', 'dc') and b.op in ('alloc', 'dc'):
                self.bad(what + ' (one object shared between elements)', a, b, path)
                ok = False
        if (a.op == 'dc') != (b.op == 'dc'):
            # a record spelled out on one side: compare on the listed keys
            pass
        elif a.op == 'dc':
            if strip_copy(a) is not strip_copy(b) and not self.kind_alloc(a, b):
                self.bad(what + ' (copied from)', strip_copy(a), strip_copy(b), path)
                return False
            if a.args[4] and not b.args[4]:
                self.bad(what + ' (shallow copy)', a, b, path)
                ok = False
        ka = self.touched(IA, a) + self.nested(IA, a)
        kb = self.touched(IB, b) + self.nested(IB, b)
        # a copy of a new record has the record's own keys
        for o, I, ks in ((a, IA, ka), (b, IB, kb)):
            while o.op == 'dc':
                o = o.args[0]
                if o.op in ('alloc', 'dc'):
                    ks.extend(self.touched(I, o))
        keys = []
        for o in (a, b):
            if o.op == 'dictv':
                ka = ka + [k for k, v in o.args[0]]
        for k in ka + kb:
            if k not in keys and k.op == 'const' and self.want(k) and not str(k.args[0]).startswith('#u'):
                keys.append(k)
        if a.op == 'alloc' and b.op == 'alloc' and (any(k.op != 'const' for k in ka + kb)
                                                    or IA.alloc_kind(a) in ('group', 'ddlist')):
            return self.seq_eq(IA.dict_items(a), IB.dict_items(b), what + ' (entries)', scope, path) and ok
        for k in keys:
            ha, hb = IA.has(a, k), IB.has(b, k)
            w = '%s[%r]' % (what, k.args[0])
            ok = self.eq(ha, hb, TRUE, w + ' (presence)', scope, path) and ok
            ok = self.eq(IA.read(a, k), IB.read(b, k), b_and(ha, hb), w, scope, path) and ok
        return ok

    def kind_alloc(self, a, b):
        return strip_copy(a).op == 'alloc' and strip_copy(b).op == 'alloc'

    # -------------------------------------------------------------- heap
    def probes(self):
        seen = []
        for I in (self.A.I, self.B.I):
            for u in I.log:
                o = generic(u.obj)
                if o is None:
                    continue
                k = u.key
                if k.op != 'const' and free(k):
                    k = mk('sym', '#key')
                if (o, k) not in seen:
                    seen.append((o, k))
        return seen

    def heap(self, live):
        IA, IB = self.A.I, self.B.I
        for o, k in self.probes():
            if k is IA.ITEMS:
                if self.only is not None and o.op == 'field' and o.args[1] not in self.only:
                    continue
                if o.op == 'field' and o.args[1] in self.ignore:
                    continue
                self.seq_eq(guard_seq(IA.items_of(o), live), guard_seq(IB.items_of(o), live),
                            'contents of ' + show(o), (), {})
                continue
            if k.op == 'const' and not self.want(k):
                continue
            if k.op == 'const' and str(k.args[0]) == '#update':
                continue
            w = '%s[%s]' % (show(o), show(k))
            ha, hb = IA.has(o, k), IB.has(o, k)
            self.eq(ha, hb, live, w + ' (presence)', (), {})
            self.eq(IA.read(o, k), IB.read(o, k), b_and(live, ha, hb), w, (), {})

    def raise_guards(self, R):
        out = {}
        for e in R.I.raises:
            g = e.guard
            for b in reversed(e.binders):
                if b[0] != 'ord':
                    g = v_exists(b[0], b[1], g)
            out[e.name] = prune(b_or(out.get(e.name, FALSE), g))
        return out

    def run(self, ret=True, heap=True, raises=True, ret_pc=None):
        ra, rb = self.raise_guards(self.A), self.raise_guards(self.B)
        # a lookup that fails raises by itself: spelling that out is no change
        for n in IMPLICIT:
            if n in rb and n not in ra and raises != 'any':
                self.implicit = b_or(self.implicit, rb.pop(n))
                self.imp_events += [e for e in self.B.I.raises if e.name == n and len(e.binders) and
                                    all(b[0] != 'ord' for b in e.binders)]
        anya = b_or(*ra.values()) if ra else FALSE
        anyb = b_or(*rb.values()) if rb else FALSE
        if raises:
            names = set(ra) | set(rb)
            if raises == 'any':
                self.eq(anya, anyb, TRUE, 'raises', (), {})
            else:
                # an error the reference documents is not replaced by a lookup that fails
                replaced = FALSE
                if self.implicit is not FALSE:
                    for e in self.A.I.raises:
                        g = e.guard
                        for b in reversed(e.binders):
                            if b[0] != 'ord':
                                g = v_exists(b[0], b[1], g)
                        if prune(b_and(g, b_not(self.implicit))) is FALSE:
                            replaced = b_or(replaced, g)
                for n in sorted(names):
                    # both raise, class differs only matters where the reference raises
                    self.eq(ra.get(n, FALSE), rb.get(n, FALSE), b_or(b_not(self.implicit), replaced), 'raises ' + n, (), {})
        live = self.live = prune(b_and(b_not(anya), b_not(anyb), b_not(self.implicit)))
        if ret:
            self.eq(self.A.ret, self.B.ret, live, 'return value', (), {})
        if heap:
            self.heap(live)
        return self.mm


def is_fresh(t):
    return t.op in ('alloc', 'dc', 'dictv', 'seq', 'slot')


_fi = {}


def fresh_inside(x):
    r = _fi.get(x)
    if r is None:
        r = any(t.op in ('alloc', 'dc', 'slot') for t in subterms(x))
        _fi[x] = r
    return r


_gen = [50]


def generic(t):
    """generic representative of the location class of object t; None for
    objects created by the analysed code itself"""
    if t.op in ('alloc', 'dc', 'slot', 'dframe', 'inst', 'undef', 'seq', 'const'):
        return None
    if t.op in ('elem', 'firstb', 'lastb', 'bestb'):
        S = obj_class(t)
        g = generic(S)
        if g is None:
            return None
        return elem(g, 0)
    if t.op == 'field':
        g = generic(t.args[0])
        if g is None:
            return None
        return mk('field', g, t.args[1])
    if t.op in ('sym', 'attr', 'item', 'call', 'ext', 'global', 'class', 'func', 'module', 'distinct', 'spread'):
        return t
    if t.op == 'carried' and fresh_inside(t):
        return None
    return t
