"""Rewritings of function bodies that keep their meaning, applied before interpretation."""
import ast
import copy

_cache = {}


def normal(fn):
    r = _cache.get(id(fn))
    if r is None or r[0] is not fn:
        r = (fn, _normal(fn))
        _cache[id(fn)] = r
    return r[1]


def _normal(fn):
    if any(isinstance(n, ast.Attribute) and n.attr == 'update' for n in ast.walk(fn)) and \
            any(_new_hash(n) for n in ast.walk(fn)):
        fn = ast.fix_missing_locations(_Hashes().visit(copy.deepcopy(fn)))
    if any(isinstance(n, ast.While) for n in ast.walk(fn)):
        fn = ast.fix_missing_locations(_Whiles().visit(copy.deepcopy(fn)))
    names = key_only_dicts(fn)
    if names:
        fn = _Sets(names).visit(copy.deepcopy(fn))
        ast.fix_missing_locations(fn)
    return fn


def _empty_dict(v):
    return (isinstance(v, ast.Dict) and not v.keys) or \
        (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args and not v.keywords)


def key_only_dicts(fn):
    """local dictionaries of which only the keys are ever looked at: these are sets"""
    made = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            made.setdefault(n.targets[0].id, []).append(n.value)
    names = {k for k, v in made.items() if len(v) == 1 and _empty_dict(v[0])}
    if not names:
        return names
    used = {}
    for n in ast.walk(fn):
        ok = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            ok = [n.comparators[0]]
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) \
                and isinstance(n.value, (ast.Constant, ast.Name)):
            ok = [n.targets[0].value]
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names:
            ok = [n.targets[0]]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1:
            ok = [n.args[0]]
        for x in ok:
            if isinstance(x, ast.Name):
                used[x.id] = used.get(x.id, 0) + 1
    total = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            total[n.id] = total.get(n.id, 0) + 1
    params = {a.arg for a in fn.args.args} if hasattr(fn, 'args') else set()
    return {k for k in names if used.get(k, 0) == total.get(k) and k not in params}


class _Sets(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if isinstance(t, ast.Name) and t.id in self.names:
            n.value = ast.copy_location(ast.Call(ast.Name('set', ast.Load()), [], []), n.value)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in self.names:
            call = ast.Call(ast.Attribute(ast.Name(t.value.id, ast.Load()), 'add', ast.Load()), [t.slice], [])
            return ast.copy_location(ast.Expr(ast.copy_location(call, n)), n)
        return n


# ------------------------------------------------------------------ hashes
def _new_hash(n):
    """hashlib.md5() without data"""
    return isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
        isinstance(n.value, ast.Call) and not n.value.args and not n.value.keywords and \
        (ast.unparse(n.value.func).startswith('hashlib.') or ast.unparse(n.value.func) in ('md5', 'sha1', 'sha256'))


class _Hashes(ast.NodeTransformer):
    """h = hashlib.md5(); h.update(x)  ->  h = hashlib.md5(x)"""
    def block(self, body):
        out, i = [], 0
        while i < len(body):
            st = body[i]
            nxt = body[i + 1] if i + 1 < len(body) else None
            if _new_hash(st) and isinstance(nxt, ast.Expr) and isinstance(nxt.value, ast.Call) and \
                    isinstance(nxt.value.func, ast.Attribute) and nxt.value.func.attr == 'update' and \
                    isinstance(nxt.value.func.value, ast.Name) and nxt.value.func.value.id == st.targets[0].id and \
                    len(nxt.value.args) == 1:
                call = ast.Call(st.value.func, nxt.value.args, [])
                out.append(ast.copy_location(ast.Assign(st.targets, ast.copy_location(call, nxt)), nxt))
                i += 2
                continue
            out.append(st)
            i += 1
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n


# ------------------------------------------------------------------ rotated loops
def _names(e, v):
    return sum(1 for n in ast.walk(e) if isinstance(n, ast.Name) and n.id == v)


def _stores(stmts, v):
    return sum(1 for st in stmts for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == v and not isinstance(n.ctx, ast.Load))


class _Replace(ast.NodeTransformer):
    def __init__(self, v, e):
        self.v, self.e = v, e

    def visit_Name(self, n):
        if n.id == self.v and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.e)
        return n


class _Whiles(ast.NodeTransformer):
    """m = E; while m: ...; m = E  ->  while E: m = E; ...   (also with := in the test)"""
    def visit_FunctionDef(self, fn):
        self.fn = fn if getattr(self, 'fn', None) is None else self.fn
        return self.generic_visit(fn)

    def rotate(self, before, w, after):
        t = w.test
        if isinstance(t, ast.NamedExpr) and isinstance(t.target, ast.Name) and not w.orelse:
            v = t.target.id
            if any(_names(s, v) for s in after):
                return None
            asg = ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], copy.deepcopy(t.value)), w)
            return [ast.copy_location(ast.While(t.value, [asg] + w.body, []), w)]
        if not before or w.orelse or len(w.body) < 2:
            return None
        first, last = before[-1], w.body[-1]
        if not (isinstance(first, ast.Assign) and isinstance(last, ast.Assign) and ast.dump(first) == ast.dump(last) and
                len(first.targets) == 1 and isinstance(first.targets[0], ast.Name)):
            return None
        v, e = first.targets[0].id, first.value
        if not _names(w.test, v) or _names(e, v) or _stores(w.body, v) != 1 or any(_names(s, v) for s in after):
            return None
        if any(isinstance(n, ast.Continue) for s in w.body for n in ast.walk(s)):
            return None
        test = _Replace(v, e).visit(copy.deepcopy(w.test))
        return [ast.copy_location(ast.While(test, [first] + w.body[:-1], []), w)]

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out = []
                for i, st in enumerate(b):
                    if isinstance(st, ast.While):
                        r = self.rotate(out, st, b[i + 1:])
                        if r is not None:
                            if not isinstance(st.test, ast.NamedExpr):
                                out.pop()
                            out.extend(r)
                            continue
                    out.append(st)
                setattr(n, f, out)
        return n
