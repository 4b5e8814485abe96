"""In-place changes of values that outlive the call: results of memoised functions
and elements of the process-wide topology data.

An intraprocedural alias analysis in statement order (branches joined, loop bodies
twice), with summaries of which parameters a function changes in place and which
functions return a shared value, iterated to a fixpoint over the package."""
import ast

SETMUT = {'update', 'add', 'discard', 'remove', 'pop', 'clear', 'append', 'extend', 'insert', 'sort', 'reverse', 'setdefault',
          'popitem', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
INPLACE = (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor, ast.Add)
HOLDERS = {'list', 'tuple', 'sorted', 'zip', 'enumerate', 'reversed', 'iter', 'dict', 'set', 'filter'}
ONE, MANY = 'value', 'container'
CONST = {'_TOPOLOGY_DATA'}


def name_of(e):
    f = e.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None


class Shared(object):
    """abstract state: name -> set of (kind, origin); origin is a text for a shared value, ('param', i) for a parameter"""

    def __init__(self, fn, cls, facts):
        self.fn, self.cls, self.facts = fn, cls, facts
        self.hits, self.changes, self.returns = [], set(), set()
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        self.params = params
        env = {p: {(ONE, ('param', p))} for p in params}
        self.block(fn.body, env)

    # -- expressions
    def val(self, e, env):
        if e is None:
            return set()
        if isinstance(e, ast.Name):
            return env.get(e.id, set())
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.IfExp):
            return self.val(e.body, env) | self.val(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.val(x, env) for x in e.values])
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return {(MANY, o) for x in e.elts for k, o in self.val(x, env)}
        if isinstance(e, ast.Dict):
            return {(MANY, o) for x in e.values for k, o in self.val(x, env)}
        if isinstance(e, ast.Starred):
            return self.val(e.value, env)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            inner = dict(env)
            for g in e.generators:
                self.bind(g.target, self.elements(self.val(g.iter, inner)), inner)
            el = e.value if isinstance(e, ast.DictComp) else e.elt
            return {(MANY, o) for k, o in self.val(el, inner)}
        if isinstance(e, ast.Subscript):
            v = self.val(e.value, env)
            return v if isinstance(e.slice, ast.Slice) else self.elements(v)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and self.cls in self.facts.data_attr \
                    and e.attr in self.facts.data_attr[self.cls]:
                return {(MANY, '%s.%s' % (self.cls, e.attr))}
            return set()
        if isinstance(e, ast.Call):
            return self.call(e, env)
        return set()

    def elements(self, v):
        """what one gets by iterating or indexing"""
        out = set()
        for k, o in v:
            if k == MANY:
                out |= {(ONE, o), (MANY, o)} if isinstance(o, str) else {(ONE, o)}
        return out

    def call(self, e, env):
        f = e.func
        nm = name_of(e)
        if isinstance(f, ast.Name) and f.id == 'self' and self.cls:
            return {(ONE, o) for o in self.facts.returns.get('%s.__call__' % self.cls, ())}
        if isinstance(f, ast.Name):
            if nm in HOLDERS:
                return {(MANY, o) for a in e.args for k, o in self.val(a, env) if k == MANY}
            if nm == 'next' and e.args:
                return self.elements(self.val(e.args[0], env))
            if nm in self.facts.instances:
                return {(ONE, o) for o in self.facts.returns.get('%s.__call__' % self.facts.instances[nm], ())}
            return {(ONE, o) for o in self.facts.returns.get(nm, ())}
        if isinstance(f, ast.Attribute):
            v = self.val(f.value, env)
            if nm in ('get', 'pop', 'setdefault', '__getitem__'):
                return self.elements(v)
            if nm in ('items', 'values', 'copy'):
                return {(k, o) for k, o in v if k == MANY}
            if isinstance(f.value, ast.Name) and f.value.id == 'self' and self.cls:
                return {(ONE, o) for o in self.facts.returns.get('%s.%s' % (self.cls, nm), ())}
            if isinstance(f.value, ast.Name) and f.value.id in self.facts.instances:
                return {(ONE, o) for o in self.facts.returns.get('%s.%s' % (self.facts.instances[f.value.id], nm), ())}
        return set()

    # -- statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.bind(x.value, {(MANY, o) for k, o in v}, env)
                else:
                    self.bind(x, self.elements(v) if any(k == MANY for k, _ in v) else set(v), env)

    def hit(self, node, v):
        for k, o in v:
            if k != ONE and not isinstance(o, str):
                continue
            if isinstance(o, str):
                if k == ONE:
                    self.hits.append((node, o))
            elif k == ONE:
                self.changes.add(o[1])

    def expr(self, e, env):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                self.val(n, env)
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in SETMUT:
                    self.hit(n, self.val(f.value, env))
                key = None
                if isinstance(f, ast.Name):
                    key, off = f.id, 0
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and self.cls:
                    key, off = '%s.%s' % (self.cls, f.attr), 1
                ch = self.facts.changes.get(key)
                if ch:
                    names, hit = ch
                    for i, a in enumerate(n.args):
                        if i + off < len(names) and names[i + off] in hit:
                            self.hit(n, self.val(a, env))
                    for kw in n.keywords:
                        if kw.arg in hit:
                            self.hit(n, self.val(kw.value, env))

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def join(self, env, envs):
        keys = set().union(*[set(x) for x in envs])
        env.clear()
        for k in keys:
            env[k] = set().union(*[x.get(k, set()) for x in envs])

    def stmt(self, st, env):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        for f, v in ast.iter_fields(st):
            for e in (v if isinstance(v, list) else [v]):
                if isinstance(e, ast.expr):
                    self.expr(e, env)
        if isinstance(st, ast.Assign):
            v = self.val(st.value, env)
            for t in st.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    if isinstance(t, ast.Subscript):
                        self.hit(st, self.val(t.value, env))
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) \
                        and len(t.elts) == len(st.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + st.value.elts):
                    vs = [self.val(x, env) for x in st.value.elts]
                    for x, y in zip(t.elts, vs):
                        self.bind(x, y, env)
                else:
                    self.bind(t, v, env)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.bind(st.target, self.val(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                v = env.get(st.target.id, set())
                # += and -= on a parameter may be arithmetic: only set operators say it is a set
                strong = isinstance(st.op, (ast.BitOr, ast.BitAnd, ast.BitXor))
                self.hit(st, {(k, o) for k, o in v if isinstance(st.op, INPLACE) and (strong or isinstance(o, str))})
            elif isinstance(st.target, ast.Subscript):
                self.hit(st, self.val(st.target.value, env))
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.hit(st, self.val(t.value, env))
        elif isinstance(st, ast.Return):
            self.returns |= {o for k, o in self.val(st.value, env) if k == ONE and isinstance(o, str)}
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            before = {k: set(v) for k, v in env.items()}
            for _ in range(2):
                self.bind(st.target, self.elements(self.val(st.iter, env)), env)
                self.block(st.body, env)
                self.join(env, [dict(env), before])
            self.block(st.orelse, env)
        elif isinstance(st, ast.While):
            before = {k: set(v) for k, v in env.items()}
            for _ in range(2):
                self.block(st.body, env)
                self.join(env, [dict(env), before])
            self.block(st.orelse, env)
        elif isinstance(st, ast.If):
            a, b = ({k: set(v) for k, v in env.items()} for _ in range(2))
            self.block(st.body, a)
            self.block(st.orelse, b)
            outs = [x for x, body in ((a, st.body), (b, st.orelse))
                    if not (body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)))]
            self.join(env, outs or [a, b])
        else:
            for f in ('body', 'orelse', 'finalbody'):
                self.block([x for x in getattr(st, f, []) if isinstance(x, ast.stmt)], env)
            for h in getattr(st, 'handlers', []):
                self.block(h.body, env)


class Facts(object):
    def __init__(self, P):
        self.returns, self.changes, self.data_attr, self.instances = {}, {}, {}, {}
        self.fns = []
        for mn, m in sorted(P.modules.items()):
            for node in ast.walk(m.tree):
                if isinstance(node, ast.ClassDef):
                    for x in node.body:
                        if isinstance(x, ast.FunctionDef):
                            self.fns.append((m, x, node.name))
                    self.data_attr.setdefault(node.name, set())
                elif isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Name) \
                        and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node in m.tree.body:
                    self.instances[node.targets[0].id] = node.value.func.id
            methods = {id(x) for _, x, _ in self.fns}
            for node in ast.walk(m.tree):
                if isinstance(node, ast.FunctionDef) and id(node) not in methods:
                    self.fns.append((m, node, None))
        classes = {c for _, _, c in self.fns if c}
        self.instances = {k: v for k, v in self.instances.items() if v in classes}
        # data of classes with one process-wide instance
        for m, fn, c in self.fns:
            if c in self.instances.values() and fn.name == '__init__':
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        self.data_attr[c].add(n.attr)
        for m, fn, c in self.fns:
            for d in fn.decorator_list:
                nm = ast.unparse(d)
                if ('lru_cache' in nm or nm.endswith('cache') or 'memoize' in nm) and fn.args.args:
                    self.returns.setdefault(self.key(fn, c), set()).add('the memoised result of %s' % fn.name)
        self.bad = []
        for _ in range(6):
            before = (repr(sorted((k, sorted(v)) for k, v in self.returns.items())), repr(sorted((k, sorted(v[1])) for k, v in self.changes.items())))
            self.bad = []
            for m, fn, c in self.fns:
                if fn.name == '__init__':
                    continue
                s = Shared(fn, c, self)
                k = self.key(fn, c)
                if s.returns:
                    self.returns.setdefault(k, set()).update(s.returns)
                if s.changes:
                    self.changes[k] = (s.params, self.changes.get(k, (None, set()))[1] | s.changes)
                self.bad += [(m, node, fn.name, o) for node, o in s.hits]
            after = (repr(sorted((k, sorted(v)) for k, v in self.returns.items())), repr(sorted((k, sorted(v[1])) for k, v in self.changes.items())))
            if before == after:
                break

    @staticmethod
    def key(fn, c):
        return '%s.%s' % (c, fn.name) if c else fn.name


def rule_shared(P, R):
    from .rules import loc
    bad, seen = [], set()
    fp = Facts(P)
    known = {(f, o) for _, _, f, o in Facts(R).bad}
    for m, node, f, o in fp.bad:
        if (f, o) in known or (m.name, node.lineno) in seen:
            continue
        seen.add((m.name, node.lineno))
        bad.append({'where': loc(P, m, node), 'what': '%s changes %s in place: %s' % (f, o, ast.unparse(node)[:100])})
    return bad, ['%d functions' % len(fp.fns), '%d functions return a value shared with later calls: %s' % (
        len(fp.returns), ', '.join(sorted(fp.returns)))], []
