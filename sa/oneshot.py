"""One-shot iterators used as if they were lists.

Consumed twice: the second consumer sees nothing.  Tested for truth: always true.
Measured, indexed, concatenated or sorted: an error.  Stored in a field of the data or
returned where a list was promised: gone after the first look at it.

Forward analysis over each function: which names hold a generator, filter, map, zip,
iter … object, and which of these may already have been consumed on some path.
Consumption again, on the same path, in a later round of a loop, or inside a function
or inner comprehension that runs repeatedly, is a violation.  ``next`` and loops left
by ``break`` consume only partly and are not counted."""
import ast

MAKERS = {'map', 'filter', 'zip', 'iter', 'enumerate', 'reversed'}
LAZY = {'map', 'filter', 'zip', 'iter', 'enumerate', 'chain', 'islice', 'takewhile', 'dropwhile'}
HARMLESS = {'next', 'isinstance', 'type', 'id', 'hasattr', 'callable', 'print', 'tee', 'repr'}
ITER_METHODS = {'finditer', 'iterchildren', 'iterdescendants', 'imap', 'imap_unordered', 'iglob'}


def own(fn):
    """nodes of a function without nested functions"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def call_name(e):
    f = e.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None


class Walk(object):
    def __init__(self, fn, producers, doubles, params=False):
        self.fn, self.producers, self.doubles = fn, producers, doubles
        self.hits = []
        self.misuse = []
        self.returned = []
        self.breaks = []
        self.double_params = set()
        self.rebound = {}
        for n in own(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.rebound.setdefault(t.id, []).append(n.value)
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        env = {p: frozenset([('param', p)]) for p in names} if params else {}
        self.bodies = [n for n in own(fn) if isinstance(n, ast.FunctionDef)]
        self.block(fn.body, (env, set()))

    # state = (env, consumed)
    def copy(self, s):
        return None if s is None else (dict(s[0]), set(s[1]))

    def join(self, *states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        env, used = {}, set()
        for e, u in states:
            for k, v in e.items():
                env[k] = env.get(k, frozenset()) | v
            used |= u
        return env, used

    def made(self, e, s):
        """origins of a one-shot value, or empty"""
        if isinstance(e, ast.Name):
            return s[0].get(e.id, frozenset())
        if isinstance(e, ast.IfExp):
            return self.made(e.body, s) | self.made(e.orelse, s)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.made(x, s) for x in e.values])
        if isinstance(e, ast.GeneratorExp):
            o = (e.lineno, e.col_offset)
            s[1].discard(o)
            return frozenset([o]) | self.real(self.made(e.generators[0].iter, s))
        if isinstance(e, ast.Call):
            nm = call_name(e)
            o = (e.lineno, e.col_offset)
            is_name = isinstance(e.func, ast.Name)
            if (is_name and nm in MAKERS) or (is_name and nm in self.producers) or (not is_name and nm in ITER_METHODS) or \
                    (nm in LAZY and not is_name and isinstance(e.func.value, ast.Name) and e.func.value.id == 'itertools'):
                s[1].discard(o)
                out = frozenset([o])
                if nm in LAZY or nm in MAKERS:
                    for a in e.args:
                        out |= self.real(self.made(a, s))
                return out
        return frozenset()

    @staticmethod
    def real(os):
        return os

    def lazy(self, e, s):
        return any(o[0] != 'param' for o in self.made(e, s))

    def wrong(self, node, what):
        self.misuse.append((node, what))

    def truth(self, e, s):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.truth(e.operand, s)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.truth(x, s)
            return
        if isinstance(e, (ast.Name, ast.Call, ast.GeneratorExp)) and self.lazy(e, s):
            self.wrong(e, 'tests an iterator for truth, which is always true')

    def consume(self, e, s, node):
        for o in self.made(e, s):
            if o in s[1]:
                self.report(o, node)
            s[1].add(o)

    def report(self, o, node):
        if o[0] == 'param':
            self.double_params.add(o[1])
        else:
            self.hits.append((node, o))

    def expr(self, e, s, lazy=False):
        """consumptions inside an expression, in order"""
        if e is None:
            return
        if isinstance(e, ast.IfExp):
            self.truth(e.test, s)
        elif isinstance(e, ast.BoolOp):
            for x in e.values[:-1]:
                self.truth(x, s)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.truth(e.operand, s)
        elif isinstance(e, ast.Subscript) and self.lazy(e.value, s):
            self.wrong(e, 'indexes an iterator')
        elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and (self.lazy(e.left, s) or self.lazy(e.right, s)):
            self.wrong(e, 'concatenates an iterator')
        elif isinstance(e, ast.Attribute) and e.attr in LIST_METHODS and self.lazy(e.value, s):
            self.wrong(e, 'uses an iterator as a list')
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'reversed', 'deepcopy') and e.args \
                and self.lazy(e.args[0], s):
            self.wrong(e, 'uses an iterator as a list')
        elif isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if isinstance(k, ast.Constant) and isinstance(k.value, str) and self.lazy(v, s):
                    self.wrong(v, 'stores an iterator in the field %r' % k.value)
        if isinstance(e, ast.Lambda):
            self.closure(e.body, [a.arg for a in e.args.args], s)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            g0 = e.generators[0]
            self.expr(g0.iter, s)
            if not isinstance(e, ast.GeneratorExp):
                self.consume(g0.iter, s, e)
            bound = [n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)]
            parts = list(g0.ifs)
            for g in e.generators[1:]:
                parts += g.ifs
                self.inner(g.iter, bound, s, e, True)
            parts += [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            for p in parts:
                self.inner(p, bound, s, e, False)
            return
        if isinstance(e, ast.Call):
            nm = call_name(e)
            self.expr(e.func, s)
            for a in e.args:
                self.expr(a.value if isinstance(a, ast.Starred) else a, s)
            for k in e.keywords:
                self.expr(k.value, s)
            isn = isinstance(e.func, ast.Name)
            if nm in HARMLESS or (nm in LAZY and (isn or isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name)
                                                  and e.func.value.id == 'itertools')):
                return
            for i, a in enumerate(e.args):
                star = isinstance(a, ast.Starred)
                v = a.value if star else a
                os = self.made(v, s)
                params = self.doubles.get(nm) if isn else None
                if params and not star and i < len(params[0]) and params[0][i] in params[1]:
                    for o in os:
                        self.report(o, e)
                if any(o[0] == 'param' for o in os) and not star and not (nm in (BUILTIN_CONSUMERS if isn else METHOD_CONSUMERS)):
                    os = frozenset(o for o in os if o[0] != 'param')
                    for o in os:
                        if o in s[1]:
                            self.report(o, e)
                        s[1].add(o)
                else:
                    self.consume(v, s, e)
            return
        if isinstance(e, ast.Compare):
            self.expr(e.left, s)
            for op, c in zip(e.ops, e.comparators):
                self.expr(c, s)
                if isinstance(op, (ast.In, ast.NotIn)):
                    os = self.made(c, s)
                    if not any(o[0] == 'param' for o in os):
                        self.consume(c, s, e)
            return
        if isinstance(e, ast.YieldFrom):
            self.expr(e.value, s)
            self.consume(e.value, s, e)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, s)

    def inner(self, e, bound, s, node, iterated):
        """an expression evaluated once per element: consuming an outer iterator here repeats"""
        t = ({k: v for k, v in s[0].items() if k not in bound}, set())
        h0, d0 = len(self.hits), set(self.double_params)
        for _ in range(2):
            if iterated:
                os = self.made(e, t) if isinstance(e, ast.Name) else frozenset()
                for o in os:
                    if o in t[1]:
                        self.report(o, node)
                    t[1].add(o)
            self.expr(e, t)
        if h0 != len(self.hits):
            self.hits[h0:] = [(node, o) for _, o in self.hits[h0:]]

    def closure(self, body, bound, s):
        stable = {k: v for k, v in s[0].items() if k not in bound and all(
            isinstance(x, (ast.GeneratorExp, ast.Call)) for x in self.rebound.get(k, [None]))}
        stable = {k: frozenset(o for o in v if o[0] != 'param') for k, v in stable.items()}
        t = (stable, set())
        for _ in range(2):
            if isinstance(body, list):
                w = Walk.__new__(Walk)
                w.__dict__.update(self.__dict__)
                w.breaks = []
                w.block(body, self.copy(t), carry=t[1])
            else:
                self.expr(body, t)

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            if v:
                s[0][t.id] = v
            else:
                s[0].pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, frozenset(), s)

    def block(self, body, s, carry=None):
        for st in body:
            if s is None:
                return None
            s = self.stmt(st, s)
        if carry is not None and s is not None:
            carry |= s[1]
        return s

    def loop(self, st, s):
        """body of a loop, twice"""
        out = s
        saved = self.breaks
        self.breaks = []
        for _ in range(2):
            cur = self.copy(out)
            if isinstance(st, ast.For):
                self.bind(st.target, frozenset(), cur)
            else:
                self.expr(st.test, cur)
            self.conts = []
            end = self.block(st.body, cur)
            end = self.join(end, *self.conts)
            out = self.join(out, end)
        brk, self.breaks = self.breaks, saved
        res = self.block(st.orelse, self.copy(out)) if st.orelse else out
        return self.join(res, *brk)

    def stmt(self, st, s):
        if isinstance(st, ast.FunctionDef):
            uses = sum(isinstance(n, ast.Name) and n.id == st.name and isinstance(n.ctx, ast.Load) for n in ast.walk(self.fn))
            calls = sum(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == st.name for n in ast.walk(self.fn))
            if uses > calls or calls > 1:
                self.closure(st.body, [a.arg for a in st.args.args] + [
                    n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)], s)
            return s
        if isinstance(st, ast.ClassDef):
            return s
        if isinstance(st, ast.Assign):
            self.expr(st.value, s)
            v = self.made(st.value, s)
            for t in st.targets:
                if isinstance(t, ast.Attribute) or isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) \
                        and isinstance(t.slice.value, str):
                    if any(o[0] != 'param' for o in v):
                        self.wrong(st, 'stores an iterator in %s' % ast.unparse(t)[:60])
                if isinstance(t, ast.Name):
                    self.bind(t, v, s)
                else:
                    if isinstance(t, (ast.Tuple, ast.List)):
                        self.consume(st.value, s, st)
                    self.bind(t, frozenset(), s)
            return s
        if isinstance(st, ast.AugAssign):
            self.expr(st.value, s)
            self.consume(st.value, s, st)
            return s
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.expr(st.iter, s)
            partial = any(isinstance(n, (ast.Break, ast.Return)) for x in st.body for n in ast.walk(x))
            if partial:
                for o in self.made(st.iter, s):
                    if o in s[1]:
                        self.report(o, st)
            else:
                self.consume(st.iter, s, st)
            return self.loop(st, s)
        if isinstance(st, ast.While):
            return self.loop(st, s)
        if isinstance(st, ast.If):
            self.truth(st.test, s)
            self.expr(st.test, s)
            a = self.block(st.body, self.copy(s))
            b = self.block(st.orelse, self.copy(s))
            return self.join(a, b)
        if isinstance(st, ast.Try):
            a = self.block(st.body, self.copy(s))
            mid = self.join(s, a)
            outs = [self.block(st.orelse, a) if a is not None else None]
            for h in st.handlers:
                outs.append(self.block(h.body, self.copy(mid)))
            out = self.join(*outs)
            if st.finalbody:
                out = self.block(st.finalbody, out if out is not None else self.copy(mid)) if out is not None else None
            return out
        if isinstance(st, ast.With):
            for i in st.items:
                self.expr(i.context_expr, s)
            return self.block(st.body, s)
        if isinstance(st, ast.Return):
            self.expr(st.value, s)
            if st.value is not None and self.lazy(st.value, s):
                self.returned.append(st)
            return None
        if isinstance(st, ast.Raise):
            return None
        if isinstance(st, ast.Break):
            self.breaks.append(s)
            return None
        if isinstance(st, ast.Continue):
            self.conts = getattr(self, 'conts', []) + [s]
            return None
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                self.expr(c, s)
        return s


LIST_METHODS = {'append', 'extend', 'insert', 'sort', 'index', 'count', 'remove', 'pop', 'copy', 'items', 'keys', 'values'}
METHOD_CONSUMERS = {'groupby', 'join', 'extend', 'update', 'union', 'intersection', 'difference', 'issuperset', 'issubset'}
BUILTIN_CONSUMERS = {'groupby', 'list', 'tuple', 'set', 'sorted', 'sum', 'min', 'max', 'any', 'all', 'dict', 'frozenset', 'zip', 'enumerate'}


def names_in(fn, e):
    """names an expression depends on, through the assignments of the function"""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                for a in ast.walk(fn):
                    if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in a.targets):
                        todo.append(a.value)
    return seen


class OneShot(object):
    def __init__(self, P):
        self.fns = []
        for mn, m in sorted(P.modules.items()):
            for node in ast.walk(m.tree):
                if isinstance(node, ast.FunctionDef):
                    self.fns.append((m, node))
        # functions whose call yields a one-shot object; a name must mean that everywhere
        kinds = {}
        for m, fn in self.fns:
            rets = [n.value for n in own(fn) if isinstance(n, ast.Return) and n.value is not None]
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))
            lazy = bool(rets) and all(isinstance(r, ast.GeneratorExp) or (
                isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in MAKERS) for r in rets)
            kinds.setdefault(fn.name, []).append(gen or lazy)
        self.producers = {k for k, v in kinds.items() if all(v)}
        self.doubles = {}
        names = {}
        for m, fn in self.fns:
            names.setdefault(fn.name, []).append(fn)
        for name, fs in names.items():
            if len(fs) == 1:
                w = Walk(fs[0], self.producers, {}, params=True)
                if fs[0].args.args and any(isinstance(d, ast.Name) and any(
                        isinstance(n, ast.For) and 'args' in names_in(f, n.iter) for f in names.get(d.id, ()) for n in ast.walk(f))
                        for d in fs[0].decorator_list):
                    w.double_params.add(fs[0].args.args[0].arg)
                if w.double_params:
                    self.doubles[name] = ([a.arg for a in fs[0].args.posonlyargs + fs[0].args.args], w.double_params)
        self.bad, self.lazy = [], {}
        called, named = set(), set()
        for mn, m in P.modules.items():
            funcs = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    f = n.func
                    funcs.add(id(f))
                    called.add(f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in funcs:
                    named.add(n.id)
        for m, fn in self.fns:
            w = Walk(fn, self.producers, self.doubles)
            seen = set()
            for node, o in w.hits:
                if o not in seen:
                    seen.add(o)
                    self.bad.append((m, fn, node, '%s consumes an iterator made at line %s a second time: %s' % (
                        fn.name, o[0], ast.unparse(node)[:100].replace('\n', ' '))))
            for node, what in w.misuse:
                if (node.lineno, what) not in seen:
                    seen.add((node.lineno, what))
                    self.bad.append((m, fn, node, '%s %s: %s' % (fn.name, what, ast.unparse(node)[:100].replace('\n', ' '))))
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))
            self.lazy[(m.name, fn.name)] = bool(w.returned) or gen
            if (w.returned or gen) and (fn.name in named or fn.name not in called):
                self.lazy[(m.name, fn.name)] = 'free'
                self.free = getattr(self, 'free', []) + [(m, fn, (w.returned or [fn])[0])]


def one_shot(P, R, analysed):
    """violations in the given functions (qualified names), and the number looked at"""
    from .rules import loc
    a, known = OneShot(P), OneShot(R)
    kn = {}
    for m, fn, node, what in known.bad:
        kn[(m.name, fn.name)] = kn.get((m.name, fn.name), 0) + 1
    spans, count = {}, 0
    for m, fn in a.fns:
        spans.setdefault(m.name, []).append(fn)
    bad = []

    def wanted(m, fn):
        enclosing = {f.name for f in spans[m.name] if f.lineno <= fn.lineno and fn.end_lineno <= f.end_lineno}
        return analysed is None or any(q.startswith(m.name + ':') and set(q.split(':')[1].split('.')) & enclosing for q in analysed)
    for m, fn, node, what in a.bad:
        if kn.get((m.name, fn.name), 0) > 0:
            kn[(m.name, fn.name)] -= 1
            continue
        if wanted(m, fn):
            bad.append({'where': loc(P, m, node), 'what': what})
    for m, fn, node in getattr(a, 'free', []):
        if known.lazy.get((m.name, fn.name)) is False and wanted(m, fn):
            bad.append({'where': loc(P, m, node), 'what': '%s returns a one-shot iterator instead of a list' % fn.name})
    return bad, a
