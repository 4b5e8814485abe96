"""Whole-program rules: module-level values, pipelines, report tables, class
structure, global state, destructive operations, ordering.

Every rule returns (findings, covered): findings are dicts with file, line and
what; covered is a list of the constructs that were inspected.
"""
import ast
import copy

from .terms import *
from . import terms as TM
from .interp import Interp, Frame
from .compare import Comparer, Result
from .contracts import actual_qual, params_of, OPAQUE, INTRINSICS, Contract, run_analysis, compare, contract, decide


def loc(P, mod, node):
    m = P.modules.get(mod) if isinstance(mod, str) else mod
    return '%s:%s' % (m.path if m else mod, getattr(node, 'lineno', 0))


# ------------------------------------------------------------------ globals
class GlobalEval(object):
    def __init__(self, P):
        self.P = P
        self.I = Interp(P, [], {})
        self.I.canon, self.I.sigs, self.I.alias = {}, {}, {}

    def get(self, mod, name):
        r = self.P.find(mod, name)
        if r is None or mod not in self.P.modules:
            return None
        m = r[1] if len(r) > 1 and hasattr(r[1], 'name') else self.P.modules[mod]
        fr = Frame(m, m.name + ':<module>')
        self.I.frames.append(fr)
        try:
            return self.I.from_def(r, name)
        finally:
            self.I.frames.pop()


COLL = 'ocelot.collection:Collection'
WRAP = 'ocelot.wrapper:TransformationWrapper'


def steps(v):
    """flattened pipeline: list of (description terms)"""
    if v.atom is not None:
        return [v]
    t = v.term
    if t.op == 'inst' and t.args[0].split(':')[1] == 'Collection':
        out = []
        for x in t.args[1].args[1:]:
            out.extend(steps(x))
        return out
    return [v]


def desc(v):
    if v.atom is not None:
        return show(v)[:80]
    t = v.term
    if t.op == 'func':
        return t.args[0].split(':')[-1].split('#')[0]
    if t.op == 'wrapt':
        return desc(leaf(t.args[1]) if isinstance(t.args[1], T) else t.args[1])
    if t.op == 'partial':
        f = t.args[0]
        return 'partial(%s)' % desc(leaf(f) if isinstance(f, T) else f)
    if t.op == 'inst':
        return '%s(%s)' % (t.args[0].split(':')[1], ', '.join(desc(x) for x in t.args[1].args))
    return show(t)[:80]


class VEq(object):
    """structural equality of module-level values"""
    def __init__(self, ga, gb):
        self.ga, self.gb = ga, gb
        A = Result(ga.I, NONE, TRUE)
        B = Result(gb.I, NONE, TRUE)
        self.cmp = Comparer(A, B, ordered=True)
        self.unknown = False

    def eq(self, a, b):
        if isinstance(a, N) and isinstance(b, N):
            if a.atom is None and b.atom is None:
                return self.teq(a.term, b.term)
            return a is b
        if isinstance(a, T) and isinstance(b, T):
            return self.teq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b and type(a) == type(b)

    def same_function(self, na, nb):
        """does the analysed nb do what the specified na does: its whole contract, not only its result"""
        P, R = self.gb.P, self.ga.P
        fa, fb = R.function(na), P.function(nb)
        if fa is None or fb is None or na.split(':')[0] not in P.modules or '.' in na.split(':')[1]:
            return None
        if any(isinstance(x, ast.Name) and x.id == na.split(':')[1] for x in ast.walk(fb[1])):
            return None                     # it calls the specified one: compared by inlining below
        key = (na, nb)
        memo = self.gb.__dict__.setdefault('_same', {})
        if key not in memo:
            Q = copy.copy(P)
            Q.modules = dict(P.modules)
            m = copy.copy(P.modules[na.split(':')[0]])
            m.defs = dict(m.defs)
            m.defs[na.split(':')[1]] = ('from', nb.split(':')[0], nb.split(':')[1])
            if nb.split(':')[0] == na.split(':')[0]:
                m.defs[na.split(':')[1]] = ('func', fb[1])
            Q.modules[m.name] = m
            memo[key] = decide(Q, R, contract(na, ordered=True), 60)['verdict']
        if memo[key] == 'ok':
            return True
        if memo[key] != 'violation':
            self.unknown = True
        return False

    def teq(self, a, b):
        if a is b:
            return True
        if a.op == 'inst' and b.op == 'inst':
            if a.args[0].split(':')[1] != b.args[0].split(':')[1]:
                return False
            if a.args[0].split(':')[1] == 'Collection':
                sa, sb = steps(leaf(a)), steps(leaf(b))
                return len(sa) == len(sb) and all(self.eq(x, y) for x, y in zip(sa, sb))
            return self.eq(a.args[1], b.args[1])
        if a.op == 'func' and b.op == 'func':
            na, nb = a.args[0], b.args[0]
            if not na.startswith('lambda:') and '#' not in na and not nb.startswith('lambda:') and '#' not in nb:
                if na == nb:
                    return True
                # the same public name, defined somewhere else now
                if actual_qual(self.gb.P, na) == nb:
                    return True
                r = self.same_function(na, nb)
                if r is not None:
                    return r
            n0 = len(self.cmp.mm)
            try:
                ok = self.cmp.func_eq(a, b, 'function', (), {})
            except Exception:
                self.unknown = True
                ok = False
            if any(m.unknown for m in self.cmp.mm[n0:]):
                self.unknown = True
            del self.cmp.mm[n0:]
            return ok
        if a.op == 'class' and b.op == 'class':
            return actual_qual(self.gb.P, a.args[0]) == b.args[0]
        if a.op == 'dictv' and b.op == 'dictv':
            ia, ib = dict_last(a), dict_last(b)
            if len(ia) != len(ib):
                return False
            for k, v in ia:
                hit = [w for k2, w in ib if self.eq(k, k2)]
                if not hit or not self.eq(v, hit[0]):
                    return False
            return True
        if a.op == 'seq' and b.op == 'seq':
            xa, xb = flat_set(a), flat_set(b)
            if xa is not None and xb is not None:
                return xa == xb
            return len(a.args) == len(b.args) and all(self.eq(x, y) for x, y in zip(a.args, b.args))
        if a.op == 'ord' and b.op == 'ord' and a.args[0] is b.args[0]:
            return self.eq(a.args[1], b.args[1])
        if a.op != b.op or len(a.args) != len(b.args):
            seqs = ('seq', 'tuple')
            if a.op in seqs and b.op in seqs:
                la, lb = lits(a), lits(b)
                return la is not None and lb is not None and len(la) == len(lb) and \
                    all(self.eq(x, y) for x, y in zip(la, lb))
            known = ('const', 'tuple', 'seq', 'dictv', 'inst', 'func', 'class', 'call', 'partial', 'wrapt', 'poly')
            if b.op not in known:
                self.unknown = True
            return False
        if a.op == 'call' and b.op == 'call':
            pa = [x for x in a.args[1:] if not is_kw(x)]
            pb = [x for x in b.args[1:] if not is_kw(x)]
            ka = sorted((kwt(x).args[0], kwt(x).args[1]) for x in a.args[1:] if is_kw(x)) if all_kw_str(a) else None
            kb = sorted((kwt(x).args[0], kwt(x).args[1]) for x in b.args[1:] if is_kw(x)) if all_kw_str(b) else None
            if a.args[0] != b.args[0] or len(pa) != len(pb) or ka is None or kb is None or len(ka) != len(kb):
                return False
            if a.args[0].split('.')[-1] in ('Any',):
                # alternatives: order does not matter for what is accepted
                return all(any(self.eq(x, y) for y in pb) for x in pa)
            return all(self.eq(x, y) for x, y in zip(pa, pb)) and \
                all(x[0] == y[0] and self.eq(x[1], y[1]) for x, y in zip(ka, kb))
        return all(self.eq(x, y) for x, y in zip(a.args, b.args))


def is_kw(x):
    t = x.term if isinstance(x, N) and x.atom is None else x
    return isinstance(t, T) and t.op == 'kw'


def kwt(x):
    return x.term if isinstance(x, N) else x


def all_kw_str(t):
    return all(isinstance(kwt(x).args[0], str) for x in t.args[1:] if is_kw(x))


def lits(t):
    if t.op == 'tuple':
        return list(t.args)
    out = []
    for it in t.args:
        if it.op != 'unit' or it.args[0] is not TRUE:
            return None
        out.append(it.args[1])
    return out


def flat_set(s):
    """elements of a (possibly sorted) set of literals, with its order tags"""
    tags, out = [], []

    def rec(q, tg):
        for it in q.args:
            if it.op == 'unit' and it.args[0] is TRUE:
                out.append((it.args[1], tg))
            elif it.op == 'ord':
                if not rec(it.args[1], tg + (it.args[0],)):
                    return False
            else:
                return False
        return True
    if not rec(s, ()):
        return None
    if not out or not all(tg and tag_dedupes(tg[-1]) for _, tg in out):
        return None
    return frozenset(out)


def dict_last(t):
    out = []
    for k, v in t.args[0]:
        out = [(a, b) for a, b in out if a is not k] + [(k, v)]
    return out


def rule_globals(P, R, names):
    ga, gb = GlobalEval(R), GlobalEval(P)
    bad, cov, und = [], [], []
    for q in names:
        mod, name = q.split(':')
        a = ga.get(mod, name)
        try:
            b = gb.get(mod, name)
        except Exception as e:
            und.append('%s: %r' % (q, e))
            continue
        if a is None:
            continue
        if b is None:
            und.append('%s: gone' % q)
            continue
        cov.append(q)
        ve = VEq(ga, gb)
        if ve.eq(a, b):
            continue
        if ve.unknown or any(t.op == 'unk' for t in subterms(b)):
            und.append('%s: value not understood' % q)
            continue
        r = P.find(mod, name)
        node = r[2] if len(r) > 2 else None
        sa, sb = steps(a), steps(b)
        if len(sa) > 1 or len(sb) > 1:
            why = 'pipeline differs from the specified one: ' + seqdiff(ve, sa, sb)
        else:
            why = 'value of %s is %s, specified %s' % (name, show(b)[:300], show(a)[:300])
        bad.append({'where': loc(P, r[1] if len(r) > 1 else mod, node), 'what': '%s: %s' % (q, why)})
    return bad, cov, und


def seqdiff(ve, sa, sb):
    i = 0
    while i < len(sa) and i < len(sb) and ve.eq(sa[i], sb[i]):
        i += 1
    return 'step %d: specified %s, found %s' % (
        i + 1, desc(sa[i]) if i < len(sa) else '(end)', desc(sb[i]) if i < len(sb) else '(end)')


# ------------------------------------------------------------------ tables
def table_of(P, ge, mod, name):
    """the __table__ metadata of a transformation: value of the attribute"""
    r = P.find(mod, name)
    if r is None or len(r) < 3 or not hasattr(r[1], 'table_attrs'):
        return None
    m = r[1]
    ex = m.table_attrs.get((name, '__table__'))
    if ex is None and r[0] == 'func':
        ex = m.table_attrs.get((r[2].name, '__table__'))
    if ex is None:
        return None
    fr = Frame(m, m.name + ':<module>')
    ge.I.frames.append(fr)
    try:
        return ge.I.eval_global(m, ex)
    finally:
        ge.I.frames.pop()


def columns(v):
    if v is None or v.atom is not None or v.term.op != 'dictv':
        return None
    for k, x in v.term.args[0]:
        if is_const(k) and k.args[0] == 'columns' and x.atom is None:
            l = lits(x.term) if x.term.op in ('seq', 'tuple') else None
            return None if l is None else len(l)
    return None


def rule_tables(P, R):
    ga, gb = GlobalEval(R), GlobalEval(P)
    bad, cov, und = [], [], []
    for mn, m in sorted(R.modules.items()):
        for (name, attr) in sorted(m.table_attrs):
            if attr != '__table__':
                continue
            a = columns(table_of(R, ga, mn, name))
            if a is None or P.find(mn, name) is None:
                continue
            tb = table_of(P, gb, mn, name)
            if tb is None:
                bad.append({'where': loc(P, mn, None), 'what': '%s:%s logs table rows but declares no table' % (mn, name)})
                continue
            b = columns(tb)
            if b is None:
                und.append('%s:%s table not understood' % (mn, name))
                continue
            cov.append('%s:%s %d columns' % (mn, name, b))
            if a != b:
                bad.append({'where': loc(P, mn, None),
                            'what': '%s:%s declares %d columns for rows of %d cells' % (mn, name, b, a)})
    return bad, cov, und


# ------------------------------------------------------------------ classes
def rule_classes(P, R, prefix='ocelot'):
    bad, cov, und = [], [], []
    for mn, m in sorted(R.modules.items()):
        if not mn.startswith(prefix):
            continue
        for n, d in m.defs.items():
            if d[0] != 'class':
                continue
            r = P.find(mn, n)
            if r is None or r[0] != 'class':
                und.append('%s:%s gone' % (mn, n))
                continue
            cov.append('%s:%s' % (mn, n))
            ba, bb = ancestors(R, m, d[1]), ancestors(P, r[1], r[2])
            missing = [x for x in ba if x not in bb]
            if missing:
                bad.append({'where': loc(P, r[1], r[2]),
                            'what': 'class %s no longer derives from %s' % (n, ', '.join(missing))})
            # a new ancestor that is itself a class of the specification makes
            # handlers of that class catch this one too
            extra = [x for x in bb if x not in ba and x != n and
                     any(x.split(':')[-1] in mm.defs and mm.defs[x.split(':')[-1]][0] == 'class' for mm in R.modules.values())]
            if extra:
                bad.append({'where': loc(P, r[1], r[2]),
                            'what': 'class %s now also derives from %s' % (n, ', '.join(extra))})
    return bad, cov, und


def ancestors(P, m, node, depth=0):
    out = []
    for b in node.bases:
        nm = ast.unparse(b)
        out.append(nm.split('.')[-1])
        if isinstance(b, ast.Name) and depth < 6:
            r = P.find(m.name, b.id)
            if r and r[0] == 'class':
                out.extend(ancestors(P, r[1], r[2], depth + 1))
    return out


# ------------------------------------------------------------------ effects lint
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'popitem', 'add',
            'discard', 'sort', 'reverse'}


def functions(P):
    for mn, m in sorted(P.modules.items()):
        for node in ast.walk(m.tree):
            if isinstance(node, ast.FunctionDef):
                yield m, node


def local_names(fn):
    out = set(a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs)
    if fn.args.vararg:
        out.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        out.add(fn.args.kwarg.arg)
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out - glob


def root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def global_writes(P):
    """(module variable) -> list of sites that mutate it from inside a function"""
    out = {}

    def resolve(m, name):
        r = P.find(m.name, name)
        if r and r[0] in ('assign', 'unpack'):
            return '%s:%s' % (r[1].name, name)
        return None
    for m, fn in functions(P):
        loc_ = local_names(fn)
        for n in ast.walk(fn):
            tgt = None
            if isinstance(n, ast.Global):
                for x in n.names:
                    out.setdefault('%s:%s' % (m.name, x), []).append((m, n, fn.name))
                continue
            if isinstance(n, (ast.Assign, ast.Delete)):
                for t in n.targets:
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        tgt = root_name(t)
                        _site(out, resolve, m, n, fn, tgt, loc_)
                continue
            if isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Subscript, ast.Attribute)):
                tgt = root_name(n.target)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                tgt = root_name(n.func.value)
            _site(out, resolve, m, n, fn, tgt, loc_)
    return out


def _site(out, resolve, m, n, fn, tgt, loc_):
    if tgt is None or tgt in loc_:
        return
    q = resolve(m, tgt)
    if q:
        out.setdefault(q, []).append((m, n, fn.name))


def default_mutations(P):
    """mutable default arguments that are mutated in the body"""
    out = []
    for m, fn in functions(P):
        args = fn.args.posonlyargs + fn.args.args
        for a, d in list(zip(args[len(args) - len(fn.args.defaults):], fn.args.defaults)) + \
                [(a, d) for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults) if d is not None]:
            if not (isinstance(d, (ast.List, ast.Dict, ast.Set)) or
                    (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set', 'defaultdict'))):
                continue
            for n in ast.walk(fn):
                hit = False
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                        and root_name(n.func.value) == a.arg:
                    hit = True
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
                    if any(isinstance(t, ast.Subscript) and root_name(t) == a.arg for t in ts):
                        hit = True
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == a.arg:
                        hit = True
                if hit:
                    out.append((m, n, fn.name, a.arg))
    return out


def rule_global_state(P, R):
    bad, und = [], []
    pa, ra = global_writes(P), global_writes(R)
    n = sum(1 for _ in functions(P))
    for q, sites in sorted(pa.items()):
        if q in ra:
            continue
        for m, node, f in sites[:3]:
            bad.append({'where': loc(P, m, node), 'what': '%s mutates module state %s, which outlives the call' % (f, q)})
    rd = set((f, a) for _, _, f, a in default_mutations(R))
    for m, node, f, a in default_mutations(P):
        if (f, a) not in rd:
            bad.append({'where': loc(P, m, node), 'what': '%s mutates its default argument %s, which outlives the call' % (f, a)})
    # memoised functions
    rc = set(cached(R))
    for f, (m, node) in sorted(cached_map(P).items()):
        if f not in rc:
            bad.append({'where': loc(P, m, node), 'what': '%s is memoised: its result outlives the call and is shared by later calls' % f})
    return bad, ['%d functions' % n] + ['%s written by %s' % (q, ','.join(sorted(set(s[2] for s in v)))) for q, v in sorted(pa.items())], und


def cached_map(P):
    out = {}
    for m, fn in functions(P):
        for d in fn.decorator_list:
            nm = ast.unparse(d)
            if 'lru_cache' in nm or nm.endswith('cache') or 'memoize' in nm:
                if len(fn.args.args) == 0:
                    continue
                out[fn.name] = (m, fn)
    return out


def cached(P):
    return list(cached_map(P))


DESTRUCTIVE = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.replace', 'os.renames', 'os.truncate',
               'shutil.rmtree', 'shutil.move', 'shutil.copytree', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2'}


def destructive(P):
    out = {}
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            name = None
            f = n.func
            if isinstance(f, ast.Attribute):
                base = ast.unparse(f.value)
                d = m.defs.get(base)
                if d and d[0] == 'import':
                    base = d[1]
                name = base + '.' + f.attr
                if name not in DESTRUCTIVE and f.attr in ('unlink', 'rmdir', 'rmtree', 'rename', 'replace') and \
                        f.attr in ('unlink', 'rmdir', 'rmtree'):
                    name = 'path.' + f.attr
            elif isinstance(f, ast.Name):
                d = m.defs.get(f.id)
                if d and d[0] == 'from':
                    name = d[1] + '.' + d[2]
            if name in DESTRUCTIVE or (name or '').startswith('path.'):
                out.setdefault(name, []).append((m, n))
    return out


def rule_destructive(P, R):
    """no new deleting/overwriting operation anywhere in the package"""
    bad = []
    a, b = destructive(R), destructive(P)
    group = lambda d, ks: sum((d.get(k, []) for k in ks), [])
    dels = ('os.remove', 'os.unlink', 'path.unlink')
    dirs = ('shutil.rmtree', 'os.rmdir', 'os.removedirs', 'path.rmdir', 'path.rmtree')
    seen = set()
    for ks in (dels, dirs) + tuple((k,) for k in sorted(DESTRUCTIVE) if k not in dels + dirs):
        x, y = group(a, ks), group(b, ks)
        if len(y) > len(x):
            amods = [m.name for m, _ in x]
            extra = [(m, n) for m, n in y if m.name not in amods] or y[-1:]
            for m, n in extra:
                bad.append({'where': loc(P, m, n), 'what': 'additional destructive operation %s' % ast.unparse(n)[:120]})
    allowed = set().union(*[handled(m, n) for m, n in group(a, dirs)])
    for m, n in group(b, dirs):
        new = handled(m, n) - allowed
        if allowed and new:
            bad.append({'where': loc(P, m, n), 'what': '%s also after %s' % (ast.unparse(n)[:120], ', '.join(sorted(new)))})
    known = {}
    for m, n in group(a, dels + dirs):
        known.setdefault(m.name, set()).update(leaving(m, n))
    for m, n in group(b, dels + dirs):
        new = leaving(m, n) - known.get(m.name, set())
        if new:
            bad.append({'where': loc(P, m, n), 'what': 'the path of %s is computed with %s, which can leave the run\'s directory' % (
                ast.unparse(n)[:120], ', '.join(sorted(new)))})
    return bad, ['%s x%d' % (k, len(v)) for k, v in sorted(b.items())], []


def handled(m, call, depth=0):
    """classes of the exceptions after which the call is made"""
    out, user = set(), None
    for f in ast.walk(m.tree):
        if isinstance(f, ast.ExceptHandler) and any(x is call for st in f.body for x in ast.walk(st)):
            t = f.type
            if isinstance(t, ast.Name) and m.defs.get(t.id, ('',))[0] == 'assign':
                t = m.defs[t.id][1]
            out.update(['BaseException'] if t is None else
                       [ast.unparse(x).split('.')[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])])
        elif isinstance(f, ast.FunctionDef) and any(x is call for x in ast.walk(f)):
            user = f
    if not out and user is not None and depth < 3:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == user.name or
                                            isinstance(n.func, ast.Attribute) and n.func.attr == user.name):
                out |= handled(m, n, depth + 1)
    return out


LEAVING = {'dirname', 'realpath', 'readlink', 'resolve', 'pardir', 'parent', 'parents', 'expanduser', 'home', 'getcwd', 'cwd',
           'gettempdir', '..', 'samefile', 'commonpath', 'relpath'}


def leaving(m, call):
    """functions leading out of a directory among what a deleted path is computed from"""
    fn = None
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(x is call for x in ast.walk(f)):
            fn = f
            if isinstance(f, ast.FunctionDef) and not any(
                    g is not f and isinstance(g, ast.FunctionDef) and any(x is call for x in ast.walk(g)) for g in ast.walk(f)):
                break
    out, names, todo = set(), set(), list(call.args) + [k.value for k in call.keywords] + [call.func]
    while todo:
        for x in ast.walk(todo.pop()):
            if isinstance(x, ast.Attribute) and x.attr in LEAVING:
                out.add(x.attr)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and '..' in x.value.split('/'):
                out.add('..')
            elif isinstance(x, ast.Name):
                if x.id in LEAVING:
                    out.add(x.id)
                if x.id in names or fn is None:
                    continue
                names.add(x.id)
                for st in ast.walk(fn):
                    has = lambda t: any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(t))
                    if isinstance(st, ast.Assign) and any(has(t) for t in st.targets):
                        todo.append(st.value)
                    elif isinstance(st, (ast.AugAssign, ast.AnnAssign)) and st.value and has(st.target):
                        todo.append(st.value)
                    elif isinstance(st, (ast.For, ast.comprehension)) and has(st.target):
                        todo.append(st.iter)
                    elif isinstance(st, ast.NamedExpr) and has(st.target):
                        todo.append(st.value)
                    elif isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and \
                            st.func.attr in ('append', 'extend', 'insert', 'add') and has(st.func.value):
                        todo.extend(st.args)
    return out


# ------------------------------------------------------------------ determinism
def unordered_iterations(P):
    """places where the order of a set or of a directory listing decides a result:
    -> list of (module, node, function, kind).  A list built from an unordered source
    stays unordered through names, comprehensions and the functions that return or
    yield it until something that does not depend on the order consumes it."""
    producers = {}
    fns = list(functions(P))
    called = set()
    for m, fn in fns:
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                called.add(call_name(n))
    while True:
        n0 = len(producers)
        out = []
        for m, fn in fns:
            w = Unordered(m, fn, producers)
            if w.produces and fn.name not in producers:
                producers[fn.name] = w.produces
            out.extend(w.out)
            if w.produces and fn.name not in called:
                out.append((m, w.where, fn.name, w.produces))
        if len(producers) == n0:
            return out


ORDER_FREE = {'sorted', 'set', 'frozenset', 'sum', 'any', 'all', 'len', 'max', 'min', 'dict', 'Counter', 'update', 'union',
              'intersection', 'difference', 'isdisjoint', 'issubset', 'issuperset', 'symmetric_difference', 'print', 'isinstance',
              'bool', 'intersection_update', 'difference_update', 'isEnabledFor', 'type', 'copy', 'deepcopy', 'discard', 'add', 'Series'}
KEEPS = {'list', 'tuple', 'filter', 'map', 'enumerate', 'iter', 'reversed', 'zip', 'copy', 'deepcopy', 'chain', 'islice', 'prog_bar'}


def call_name(e):
    f = e.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


class Unordered(object):
    def __init__(self, m, fn, producers):
        self.m, self.fn, self.producers = m, fn, producers
        self.env, self.out, self.produces, self.where = {}, [], None, None
        for _ in range(2):
            self.out = []
            self.block(fn.body, [])

    def sink(self, node, k):
        self.out.append((self.m, node, self.fn.name, k))

    def kind(self, e):
        """(what, is a sequence) for an expression whose order is arbitrary"""
        if isinstance(e, ast.Name):
            return self.env.get(e.id)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ('set', False)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.kind(e.left) or (self.kind(e.right) if not isinstance(e.op, ast.Sub) else None)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.kind(e.left) or self.kind(e.right)
        if isinstance(e, ast.IfExp):
            return self.kind(e.body) or self.kind(e.orelse)
        if isinstance(e, ast.Call):
            nm = call_name(e)
            if nm in ('set', 'frozenset') and isinstance(e.func, ast.Name):
                return ('set', False)
            if nm in ('union', 'intersection', 'difference', 'symmetric_difference') and isinstance(e.func, ast.Attribute):
                return ('set', False)
            if nm in ('listdir', 'scandir', 'glob', 'iglob', 'iterdir', 'rglob'):
                return ('directory listing', True)
            if nm in ('imap_unordered', 'as_completed'):
                return ('unordered results', True)
            if nm in KEEPS and e.args:
                for a in e.args:
                    k = self.kind(a)
                    if k and (k[1] or not isinstance(e.func, ast.Attribute)):
                        return (k[0], True)
            if nm in self.producers and (isinstance(e.func, ast.Name) or nm.startswith('_')):
                return (self.producers[nm], True)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            k = self.kind(e.generators[0].iter)
            return (k[0], True) if k else None
        if isinstance(e, ast.Starred):
            return self.kind(e.value)
        return None

    def expr(self, e):
        """sinks inside an expression"""
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                nm = call_name(n)
                if nm in ORDER_FREE or nm in KEEPS:
                    continue
                if nm in ('extend',) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    continue
                for a in n.args + [k.value for k in n.keywords]:
                    k = self.kind(a)
                    if k and (k[1] or nm == 'join'):
                        self.sink(n, k[0])
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                k = self.kind(n.value)
                if k and k[1]:
                    self.sink(n, k[0])

    def bind(self, t, v, node):
        k = self.kind(v) if v is not None else None
        if isinstance(t, ast.Name):
            if k:
                self.env[t.id] = k
            else:
                self.env.pop(t.id, None)
        elif k and k[1]:
            self.sink(node, k[0])

    def block(self, body, loops):
        for st in body:
            self.stmt(st, loops)

    def stmt(self, st, loops):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return
        for f, v in ast.iter_fields(st):
            for e in (v if isinstance(v, list) else [v]):
                if isinstance(e, ast.expr):
                    self.expr(e)
        k = loops[-1] if loops else None
        if isinstance(st, ast.Assign):
            for t in st.targets:
                self.bind(t, st.value, st)
        elif isinstance(st, ast.AnnAssign) and st.value:
            self.bind(st.target, st.value, st)
        elif isinstance(st, ast.AugAssign):
            v = self.kind(st.value)
            if isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and (v or k) and (
                    isinstance(st.value, (ast.List, ast.ListComp)) or v):
                self.env[st.target.id] = ((v or (k,))[0], True)
            elif isinstance(st.op, ast.Add) and k:
                self.sink(st, k)
        elif isinstance(st, (ast.Return, ast.Expr)):
            v = st.value
            if isinstance(st, ast.Return) and v is not None:
                w = self.kind(v)
                if w and w[1]:
                    self.produces, self.where = w[0], st
                if k:
                    self.sink(st, k)
            elif isinstance(v, (ast.Yield, ast.YieldFrom)):
                w = self.kind(v.value) if isinstance(v, ast.YieldFrom) else None
                if k or (w and w[1]):
                    self.produces, self.where = k or w[0], st
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
                nm, o = v.func.attr, v.func.value
                w = self.kind(v.args[0]) if v.args else None
                if nm == 'sort' and isinstance(o, ast.Name):
                    self.env.pop(o.id, None)
                elif nm in ('append', 'extend', 'insert') and (k or (nm == 'extend' and w)):
                    if isinstance(o, ast.Name) and o.id not in [a.arg for a in self.fn.args.args]:
                        self.env[o.id] = (k or w[0], True)
                    else:
                        self.sink(st, k or w[0])
                elif nm in ('info', 'write', 'debug', 'warning') and k:
                    self.sink(st, k)
        elif isinstance(st, ast.Break):
            if k:
                self.sink(st, k)
        elif isinstance(st, ast.For):
            w = self.kind(st.iter)
            self.block(st.body, loops + [w[0] if w else k])
            self.block(st.orelse, loops)
        elif isinstance(st, ast.While):
            self.block(st.body, loops + [k])
        else:
            for f in ('body', 'orelse', 'finalbody'):
                self.block([x for x in getattr(st, f, []) if isinstance(x, ast.stmt)], loops)
            for h in getattr(st, 'handlers', []):
                self.block(h.body, loops)


NONDET = {'random', 'uuid4', 'uuid1', 'shuffle', 'choice', 'sample', 'urandom', 'id', 'hash'}


def nondet_calls(P):
    out = {}
    for m, fn in functions(P):
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
                full = ast.unparse(f)
                if nm in ('uuid4', 'uuid1', 'shuffle', 'urandom') or full.startswith(('random.', 'np.random', 'numpy.random')) \
                        or (isinstance(f, ast.Name) and nm in ('hash', 'id')) or nm in ('imap_unordered', 'apply_async', 'as_completed'):
                    out.setdefault(nm, []).append((m, n, fn.name))
    return out


def rule_determinism(P, R):
    bad = []
    from collections import Counter
    ca = Counter((k,) for _, _, f, k in unordered_iterations(R))
    la = unordered_iterations(P)
    cb = Counter((k,) for _, _, f, k in la)
    base = Counter((f, k) for _, _, f, k in unordered_iterations(R))
    for (k,), n in cb.items():
        if n > ca[(k,)]:
            now = Counter((f, kk) for _, _, f, kk in la)
            for m, node, f, kk in la:
                if kk == k and now[(f, kk)] > base[(f, kk)]:
                    bad.append({'where': loc(P, m, node), 'what': 'order of a %s decides the result of %s: %s' % (
                        k, f, ast.unparse(node)[:120])})
    a, b = nondet_calls(R), nondet_calls(P)
    for nm, v in b.items():
        if len(v) > len(a.get(nm, [])):
            known = [f for _, _, f in a.get(nm, [])]
            for m, node, f in v:
                if f not in known:
                    bad.append({'where': loc(P, m, node), 'what': 'nondeterministic call %s in %s' % (ast.unparse(node)[:80], f)})
    nf = sum(1 for _ in functions(P))
    return bad, ['%d functions' % nf] + ['%s in %s' % (k, f) for _, _, f, k in la], []
