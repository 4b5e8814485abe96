"""Behaviour-preserving rewrites of one function (syntax tree -> syntax tree).

Used only to test the analyser for false alarms (tools/fuzz.py)."""
import ast
import copy
import itertools

COUNTER = itertools.count()


def fresh(base='v'):
    return 'zz_%s_%d' % (base, next(COUNTER))


def N(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(op=ast.Not(), operand=e)


def simple_scope(fn):
    """names assigned in fn (not in nested functions) and whether it is plain"""
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        params.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.add(fn.args.kwarg.arg)
    return params


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def has(node, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(node))


def is_gen(fn):
    for st in fn.body:
        for n in walk_noscope(st):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def walk_noscope(node):
    yield node
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield from walk_noscope(ch)


class BlockRewriter(ast.NodeTransformer):
    """calls self.block(list of statements) on each statement list, innermost first"""
    changed = 0

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v, node, f))
        return node

    def block(self, body, parent, field):
        out = []
        for i, st in enumerate(body):
            r = self.stmt(st, body, i, parent)
            if r is None:
                out.append(st)
            else:
                self.changed += 1
                out.extend(r)
        return out

    def stmt(self, st, body, i, parent):
        return None


class ExprRewriter(ast.NodeTransformer):
    changed = 0


# ---------------------------------------------------------------- transformations
def rename_locals(fn, tree):
    # comprehension/lambda variables and locals; parameters stay
    params = simple_scope(fn)
    allp = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                allp.add(a.arg)
            for a in (n.args.vararg, n.args.kwarg):
                if a:
                    allp.add(a.arg)
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    stores = names(fn, ast.Store) - allp - glob
    m = {x: 'zz_' + x for x in stores}
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and n is not fn:
            m[n.name] = 'zz_' + n.name
    if not m:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
        elif isinstance(n, ast.FunctionDef) and n is not fn and n.name in m:
            n.name = m[n.name]
        elif isinstance(n, ast.ExceptHandler) and n.name:
            pass
    return True


def invert_if(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.If):
                if st.orelse:
                    return [ast.If(test=neg(st.test), body=st.orelse, orelse=st.body)]
                return [ast.If(test=neg(st.test), body=[ast.Pass()], orelse=st.body)]
    r = R()
    r.generic_visit(fn)
    return r.changed


def comp_to_loop(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            val = None
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.value, ast.ListComp):
                val = st.value
            elif isinstance(st, ast.Return) and isinstance(st.value, ast.ListComp):
                val = st.value
            if val is None or isinstance(parent, ast.ClassDef):
                return None
            # comprehension variables must not clash with names used elsewhere
            ren = {}
            for g in val.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        ren[n.id] = fresh(n.id)
            first = val.generators[0].iter
            for part in [val.elt] + [x for g in val.generators for x in [g.target] + g.ifs + ([g.iter] if g.iter is not first else [])]:
                for n in ast.walk(part):
                    if isinstance(n, ast.Name) and n.id in ren:
                        n.id = ren[n.id]
                    if isinstance(n, ast.arg) and n.arg in ren:
                        return None
            acc = fresh('acc')
            inner = [ast.Expr(ast.Call(func=ast.Attribute(value=N(acc), attr='append', ctx=ast.Load()), args=[val.elt], keywords=[]))]
            for g in reversed(val.generators):
                for c in reversed(g.ifs):
                    inner = [ast.If(test=c, body=inner, orelse=[])]
                inner = [ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])]
            out = [ast.Assign(targets=[N(acc, ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))] + inner
            if isinstance(st, ast.Return):
                out.append(ast.Return(value=N(acc)))
            else:
                out.append(ast.Assign(targets=st.targets, value=N(acc)))
            return out
    r = R()
    r.generic_visit(fn)
    return r.changed


def temp_return(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, ast.Name):
                v = fresh('result')
                return [ast.Assign(targets=[N(v, ast.Store())], value=st.value), ast.Return(value=N(v))]
    r = R()
    r.generic_visit(fn)
    return r.changed


def temp_cond(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.If) and not (isinstance(parent, ast.If) and body is parent.orelse and len(body) == 1):
                v = fresh('flag')
                return [ast.Assign(targets=[N(v, ast.Store())], value=st.test), ast.If(test=N(v), body=st.body, orelse=st.orelse)]
    r = R()
    r.generic_visit(fn)
    return r.changed


def temp_iter(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.For) and not isinstance(st.iter, ast.Name):
                v = fresh('items')
                return [ast.Assign(targets=[N(v, ast.Store())], value=st.iter),
                        ast.For(target=st.target, iter=N(v), body=st.body, orelse=st.orelse)]
    r = R()
    r.generic_visit(fn)
    return r.changed


def early_continue(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.For) and st.body and isinstance(st.body[-1], ast.If) and not st.body[-1].orelse:
                last = st.body[-1]
                return [ast.For(target=st.target, iter=st.iter, orelse=st.orelse,
                                body=st.body[:-1] + [ast.If(test=neg(last.test), body=[ast.Continue()], orelse=[])] + last.body)]
    r = R()
    r.generic_visit(fn)
    return r.changed


def undo_continue(fn, tree):
    """if c: continue; REST  ->  if not c: REST"""
    class R(BlockRewriter):
        def block(self, body, parent, field):
            if isinstance(parent, ast.For) and field == 'body':
                for i, st in enumerate(body):
                    if isinstance(st, ast.If) and not st.orelse and len(st.body) >= 1 and isinstance(st.body[-1], ast.Continue) and i + 1 < len(body):
                        self.changed += 1
                        new = ast.If(test=st.test, body=st.body[:-1] or [ast.Pass()], orelse=body[i + 1:])
                        return body[:i] + [new]
            return body
    r = R()
    r.generic_visit(fn)
    return r.changed


def split_and(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And):
                inner = st.body
                for v in reversed(st.test.values):
                    inner = [ast.If(test=v, body=inner, orelse=[])]
                return inner
    r = R()
    r.generic_visit(fn)
    return r.changed


def expand_aug(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Subscript) and not isinstance(st.value, (ast.List, ast.ListComp)):
                t = copy.deepcopy(st.target)
                t.ctx = ast.Load()
                return [ast.Assign(targets=[st.target], value=ast.BinOp(left=t, op=st.op, right=st.value))]
    r = R()
    r.generic_visit(fn)
    return r.changed


def to_aug(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) and isinstance(st.value, ast.BinOp):
                t = copy.deepcopy(st.targets[0])
                t.ctx = ast.Load()
                if ast.dump(t) == ast.dump(st.value.left):
                    return [ast.AugAssign(target=st.targets[0], op=st.value.op, value=st.value.right)]
                if isinstance(st.value.op, (ast.Mult,)) and ast.dump(t) == ast.dump(st.value.right):
                    return [ast.AugAssign(target=st.targets[0], op=st.value.op, value=st.value.left)]
    r = R()
    r.generic_visit(fn)
    return r.changed


def extract_all(fn, tree):
    """body moved to a module level helper"""
    if any(isinstance(n, ast.Name) and n.id in ('super', 'cls') for n in ast.walk(fn)):
        return False
    if fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and n is not fn:
            pass
    if not isinstance(tree, ast.Module) or fn not in tree.body:
        return False
    if fn.decorator_list and False:
        return False
    helper = copy.deepcopy(fn)
    helper.name = fresh('helper_' + fn.name)
    helper.decorator_list = []
    helper.args.defaults = []
    call = ast.Call(func=N(helper.name), args=[N(a.arg) for a in fn.args.args], keywords=[])
    # recursion goes on through the public name
    if is_gen(fn):
        fn.body = [ast.Expr(ast.YieldFrom(value=call))]
    else:
        fn.body = [ast.Return(value=call)]
    tree.body.insert(tree.body.index(fn), helper)
    return True


def extract_loop_body(fn, tree):
    """body of a loop (no control flow out, no rebinding) becomes a helper"""
    if not isinstance(tree, ast.Module) or fn not in tree.body:
        return False
    params = simple_scope(fn)
    locs = params | names(fn, ast.Store) | {n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn}
    new = []

    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if not isinstance(st, ast.For) or st.orelse:
                return None
            for s in st.body:
                for n in walk_noscope(s):
                    if isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)):
                        return None
                    if isinstance(n, ast.Continue):
                        return None
            inner = set()
            for s in st.body:
                inner |= names(s, ast.Store) | {n.name for n in ast.walk(s) if isinstance(n, ast.FunctionDef)}
            # names rebound in the body must not be used outside of it
            used_out = set()
            inside = {id(n) for s in st.body for n in ast.walk(s)}
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and id(n) not in inside:
                    used_out.add(n.id)
            if inner & used_out:
                return None
            # and must not be carried from one iteration to the next: first use is a store; be strict
            free = set()
            for s in st.body:
                free |= names(s, ast.Load)
            args = sorted((free & locs) - inner)
            h = fresh('body')
            new.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                       body=st.body, decorator_list=[], type_params=[]))
            return [ast.For(target=st.target, iter=st.iter, orelse=[], body=[
                ast.Expr(ast.Call(func=N(h), args=[N(a) for a in args], keywords=[]))])]
    r = R()
    r.generic_visit(fn)
    for h in new:
        tree.body.insert(tree.body.index(fn), h)
    return r.changed


def extract_expr(fn, tree):
    """conditions of ifs become predicate helpers"""
    if not isinstance(tree, ast.Module) or fn not in tree.body:
        return False
    params = simple_scope(fn)
    locs = params | names(fn, ast.Store) | {n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn}
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and n is not fn:
            locs |= simple_scope(n)
    new = []

    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.If) and not has(st.test, ast.Lambda, ast.NamedExpr) and not isinstance(st.test, ast.Name):
                args = sorted(names(st.test, ast.Load) & locs)
                h = fresh('pred')
                new.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                           body=[ast.Return(value=st.test)], decorator_list=[], type_params=[]))
                return [ast.If(test=ast.Call(func=N(h), args=[N(a) for a in args], keywords=[]), body=st.body, orelse=st.orelse)]
    r = R()
    r.generic_visit(fn)
    for h in new:
        tree.body.insert(tree.body.index(fn), h)
    return r.changed


def filter_gen_loop(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.For) and isinstance(st.iter, ast.GeneratorExp) and not st.orelse and len(st.iter.generators) == 1:
                g = st.iter.generators[0]
                if not (isinstance(g.target, ast.Name) and isinstance(st.iter.elt, ast.Name) and g.target.id == st.iter.elt.id and isinstance(st.target, ast.Name)):
                    return None
                old, new = g.target.id, st.target.id
                tests = []
                for c in g.ifs:
                    c = copy.deepcopy(c)
                    for n in ast.walk(c):
                        if isinstance(n, ast.Name) and n.id == old:
                            n.id = new
                    tests.append(ast.If(test=neg(c), body=[ast.Continue()], orelse=[]))
                return [ast.For(target=st.target, iter=g.iter, orelse=[], body=tests + st.body)]
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == 'filter' \
                    and isinstance(st.target, ast.Name) and isinstance(st.iter.args[0], (ast.Name, ast.Lambda)) and not st.orelse:
                t = ast.If(test=neg(ast.Call(func=st.iter.args[0], args=[N(st.target.id)], keywords=[])), body=[ast.Continue()], orelse=[])
                return [ast.For(target=st.target, iter=st.iter.args[1], orelse=[], body=[t] + st.body)]
    r = R()
    r.generic_visit(fn)
    return r.changed


def filter_to_comp(fn, tree):
    """filter(f, S) -> generator expression"""
    class R(ExprRewriter):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'filter' and isinstance(n.args[0], ast.Name):
                self.changed += 1
                v = fresh('o')
                return ast.GeneratorExp(elt=N(v), generators=[ast.comprehension(
                    target=N(v, ast.Store()), iter=n.args[1], ifs=[ast.Call(func=n.args[0], args=[N(v)], keywords=[])], is_async=0)])
            return n
    r = R()
    r.visit(fn)
    return r.changed


def flip_compare(fn, tree):
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class R(ExprRewriter):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in SW:
                self.changed += 1
                return ast.Compare(left=n.comparators[0], ops=[SW[type(n.ops[0])]()], comparators=[n.left])
            return n
    r = R()
    r.visit(fn)
    return r.changed


def not_forms(fn, tree):
    """a != b -> not a == b ; not in -> not (in) ; and/or by De Morgan"""
    class R(ExprRewriter):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotEq):
                self.changed += 1
                return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=n.left, ops=[ast.Eq()], comparators=n.comparators))
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
                self.changed += 1
                return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=n.left, ops=[ast.In()], comparators=n.comparators))
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.LtE):
                return n
            return n
    r = R()
    r.visit(fn)

    class D(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.If) and isinstance(st.test, ast.BoolOp):
                op = ast.Or() if isinstance(st.test.op, ast.And) else ast.And()
                return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[neg(v) for v in st.test.values])),
                               body=st.body, orelse=st.orelse)]
    d = D()
    d.generic_visit(fn)
    return r.changed + d.changed


def elif_to_if(fn, tree):
    """if c: ...return; else: B  ->  if c: ...return; B"""
    def ends(b):
        return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.If) and st.orelse and ends(st.body):
                return [ast.If(test=st.test, body=st.body, orelse=[])] + st.orelse
    r = R()
    r.generic_visit(fn)
    return r.changed


def if_to_else(fn, tree):
    """if c: return x; REST -> if c: return x else: REST"""
    class R(BlockRewriter):
        def block(self, body, parent, field):
            for i, st in enumerate(body):
                if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                    self.changed += 1
                    return body[:i] + [ast.If(test=st.test, body=st.body, orelse=self.block(body[i + 1:], parent, field))]
            return body
    r = R()
    r.generic_visit(fn)
    return r.changed


def lambda_to_def(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Lambda):
                return [ast.FunctionDef(name=st.targets[0].id, args=st.value.args, body=[ast.Return(value=st.value.body)], decorator_list=[], type_params=[])]
    r = R()
    r.generic_visit(fn)
    return r.changed


def ternary_to_if(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp):
                v = st.value
                return [ast.If(test=v.test, body=[ast.Assign(targets=copy.deepcopy(st.targets), value=v.body)],
                               orelse=[ast.Assign(targets=copy.deepcopy(st.targets), value=v.orelse)])]
            if isinstance(st, ast.Return) and isinstance(st.value, ast.IfExp):
                v = st.value
                return [ast.If(test=v.test, body=[ast.Return(value=v.body)], orelse=[ast.Return(value=v.orelse)])]
    r = R()
    r.generic_visit(fn)
    return r.changed


def if_to_ternary(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.If) and len(st.body) == 1 and len(st.orelse) == 1:
                a, b = st.body[0], st.orelse[0]
                if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                    return [ast.Assign(targets=a.targets, value=ast.IfExp(test=st.test, body=a.value, orelse=b.value))]
                if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                    return [ast.Return(value=ast.IfExp(test=st.test, body=a.value, orelse=b.value))]
    r = R()
    r.generic_visit(fn)
    return r.changed


def tuple_split(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Tuple):
                if all(isinstance(t, ast.Name) for t in st.targets[0].elts) and not any(
                        t.id in names(v) for t in st.targets[0].elts for v in st.value.elts):
                    return [ast.Assign(targets=[t], value=v) for t, v in zip(st.targets[0].elts, st.value.elts)]
    r = R()
    r.generic_visit(fn)
    return r.changed


def dict_steps(fn, tree):
    """x = {...} -> x = {}; x[k] = v"""
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            tgt = None
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Dict):
                tgt = st.targets[0].id
                out = []
            elif isinstance(st, ast.Return) and isinstance(st.value, ast.Dict):
                tgt = fresh('out')
                out = [ast.Return(value=N(tgt))]
            if tgt is None or None in st.value.keys or not st.value.keys or tgt in names(st.value):
                return None
            return [ast.Assign(targets=[N(tgt, ast.Store())], value=ast.Dict(keys=[], values=[]))] + [
                ast.Assign(targets=[ast.Subscript(value=N(tgt), slice=k, ctx=ast.Store())], value=v)
                for k, v in zip(st.value.keys, st.value.values)] + out
    r = R()
    r.generic_visit(fn)
    return r.changed


def update_to_items(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'update' \
                    and len(st.value.args) == 1 and isinstance(st.value.args[0], ast.Dict) and None not in st.value.args[0].keys and not st.value.keywords:
                d = st.value.args[0]
                return [ast.Assign(targets=[ast.Subscript(value=copy.deepcopy(st.value.func.value), slice=k, ctx=ast.Store())], value=v)
                        for k, v in zip(d.keys, d.values)]
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'update' \
                    and not st.value.args and st.value.keywords and all(k.arg for k in st.value.keywords):
                return [ast.Assign(targets=[ast.Subscript(value=copy.deepcopy(st.value.func.value), slice=ast.Constant(k.arg), ctx=ast.Store())], value=k.value)
                        for k in st.value.keywords]
    r = R()
    r.generic_visit(fn)
    return r.changed


def swap_independent(fn, tree):
    def info(st):
        """(reads, writes, pure) for simple statements"""
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            t = st.targets[0]
            if has(st, ast.Call, ast.Yield, ast.Await):
                return None
            if isinstance(t, ast.Name):
                return names(st.value), {t.id}, None, has(st.value, ast.Subscript)
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.value, ast.Name):
                return names(st.value) | {t.value.id}, set(), (t.value.id, t.slice.value), has(st.value, ast.Subscript)
        return None

    class R(BlockRewriter):
        def block(self, body, parent, field):
            out = list(body)
            i = 0
            while i + 1 < len(out):
                a, b = info(out[i]), info(out[i + 1])
                if a and b and not (a[1] & (b[0] | b[1])) and not (b[1] & a[0]):
                    ok = True
                    if a[2] and b[2]:
                        ok = a[2][1] != b[2][1] and not a[3] and not b[3]
                    elif a[2]:
                        ok = not b[3]
                    elif b[2]:
                        ok = not a[3]
                    if ok:
                        out[i], out[i + 1] = out[i + 1], out[i]
                        self.changed += 1
                        i += 1
                i += 1
            return out
    r = R()
    r.generic_visit(fn)
    return r.changed


def noop(fn, tree):
    class R(BlockRewriter):
        def block(self, body, parent, field):
            self.changed += 1
            k = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            return body[:k] + [ast.Assign(targets=[N(fresh('unused'), ast.Store())], value=ast.Constant(None)), ast.Pass()] + body[k:]
    r = R()
    r.generic_visit(fn)
    return r.changed


def fstrings(fn, tree):
    import string

    class R(ExprRewriter):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    return n
                parts, idx = [], 0
                for lit, field, spec, conv in string.Formatter().parse(n.func.value.value):
                    if lit:
                        parts.append(ast.Constant(lit))
                    if field is not None:
                        if field == '':
                            v = n.args[idx]
                            idx += 1
                        elif field.isidentifier():
                            v = [k.value for k in n.keywords if k.arg == field]
                            if not v:
                                return n
                            v = v[0]
                        else:
                            return n
                        parts.append(ast.FormattedValue(value=v, conversion=-1, format_spec=ast.JoinedStr([ast.Constant(spec)]) if spec else None))
                self.changed += 1
                return ast.JoinedStr(values=parts)
            return n
    r = R()
    r.visit(fn)
    return r.changed


def while_true(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.While) and not st.orelse:
                return [ast.While(test=ast.Constant(True), body=[ast.If(test=neg(st.test), body=[ast.Break()], orelse=[])] + st.body, orelse=[])]
    r = R()
    r.generic_visit(fn)
    return r.changed


def get_to_in(fn, tree):
    """x.get(k, d) -> (x[k] if k in x else d) for simple x and constants"""
    class R(ExprRewriter):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and isinstance(n.func.value, ast.Name) and n.args \
                    and isinstance(n.args[0], ast.Constant) and not n.keywords:
                self.changed += 1
                d = n.args[1] if len(n.args) > 1 else ast.Constant(None)
                return ast.IfExp(test=ast.Compare(left=n.args[0], ops=[ast.In()], comparators=[n.func.value]),
                                 body=ast.Subscript(value=copy.deepcopy(n.func.value), slice=copy.deepcopy(n.args[0]), ctx=ast.Load()), orelse=d)
            return n
    # XML elements have .get but no item access
    if tree_is(tree, 'objectify') or tree_is(tree, 'lxml'):
        return False
    r = R()
    r.visit(fn)
    return r.changed


def tree_is(tree, name):
    return any(isinstance(n, (ast.Import, ast.ImportFrom)) and (name in (getattr(n, 'module', '') or '') or any(name in a.name for a in n.names))
               for n in ast.walk(tree))


def any_to_loop(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) \
                    and st.value.func.id == 'any' and isinstance(st.value.args[0], ast.GeneratorExp):
                g = st.value.args[0]
                if len(g.generators) != 1 or not isinstance(st.targets[0], ast.Name):
                    return None
                gen = g.generators[0]
                if not isinstance(gen.target, ast.Name):
                    return None
                v = fresh(gen.target.id)
                for part in [g.elt] + gen.ifs + [gen.target]:
                    for n in ast.walk(part):
                        if isinstance(n, ast.Name) and n.id == gen.target.id and n is not gen.target:
                            n.id = v
                gen.target.id = v
                test = ast.BoolOp(op=ast.And(), values=gen.ifs + [g.elt]) if gen.ifs else g.elt
                t = st.targets[0].id
                return [ast.Assign(targets=[N(t, ast.Store())], value=ast.Constant(False)),
                        ast.For(target=gen.target, iter=gen.iter, orelse=[], body=[
                            ast.If(test=test, body=[ast.Assign(targets=[N(t, ast.Store())], value=ast.Constant(True)), ast.Break()], orelse=[])])]
    r = R()
    r.generic_visit(fn)
    return r.changed


def sum_to_loop(fn, tree):
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Call) \
                    and isinstance(st.value.func, ast.Name) and st.value.func.id == 'sum' and len(st.value.args) == 1 \
                    and isinstance(st.value.args[0], (ast.GeneratorExp, ast.ListComp)) and len(st.value.args[0].generators) == 1:
                g = st.value.args[0]
                gen = g.generators[0]
                if not isinstance(gen.target, ast.Name):
                    return None
                old, v = gen.target.id, fresh('s')
                for part in [g.elt] + gen.ifs + [gen.target]:
                    for n in ast.walk(part):
                        if isinstance(n, ast.Name) and n.id == old:
                            n.id = v
                t = st.targets[0].id
                inner = [ast.AugAssign(target=N(t, ast.Store()), op=ast.Add(), value=g.elt)]
                for c in reversed(gen.ifs):
                    inner = [ast.If(test=c, body=inner, orelse=[])]
                return [ast.Assign(targets=[N(t, ast.Store())], value=ast.Constant(0)),
                        ast.For(target=gen.target, iter=gen.iter, orelse=[], body=inner)]
    r = R()
    r.generic_visit(fn)
    return r.changed


def count_len(fn, tree):
    """sum(1 for ...) -> len([1 for ...]) ; any(1 for...) -> bool(list)"""
    class R(ExprRewriter):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'sum' and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) \
                    and isinstance(n.args[0].elt, ast.Constant) and n.args[0].elt.value == 1:
                self.changed += 1
                return ast.Call(func=N('len'), args=[ast.ListComp(elt=ast.Constant(1), generators=n.args[0].generators)], keywords=[])
            return n
    r = R()
    r.visit(fn)
    return r.changed


def concat_to_extend(fn, tree):
    """x = A + B + C of list displays/comprehensions"""
    def parts(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = parts(e.left), parts(e.right)
            if a is None or b is None:
                return None
            return a + b
        if isinstance(e, (ast.List, ast.ListComp)):
            return [e]
        return None

    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.BinOp):
                p = parts(st.value)
                if not p:
                    return None
                v = fresh('lst')
                out = [ast.Assign(targets=[N(v, ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))]
                for x in p:
                    out.append(ast.Expr(ast.Call(func=ast.Attribute(value=N(v), attr='extend', ctx=ast.Load()), args=[x], keywords=[])))
                st.value = N(v)
                return out + [st]
    r = R()
    r.generic_visit(fn)
    return r.changed


def hoist_args(fn, tree):
    """f(EXPR, ...) as a statement: first argument to a temporary"""
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and st.value.args and not isinstance(st.value.args[0], (ast.Name, ast.Constant, ast.Starred)) \
                    and isinstance(st.value.func, (ast.Name, ast.Attribute)):
                v = fresh('arg')
                a = st.value.args[0]
                st.value.args[0] = N(v)
                return [ast.Assign(targets=[N(v, ast.Store())], value=a), st]
    r = R()
    r.generic_visit(fn)
    return r.changed


def hoist_rhs(fn, tree):
    """obj[k] = EXPR -> tmp = EXPR; obj[k] = tmp"""
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], (ast.Subscript, ast.Attribute)) \
                    and not isinstance(st.value, (ast.Constant, ast.Name)) and not isinstance(parent, (ast.ClassDef, ast.Module)):
                v = fresh('val')
                a = st.value
                st.value = N(v)
                return [ast.Assign(targets=[N(v, ast.Store())], value=a), st]
    r = R()
    r.generic_visit(fn)
    return r.changed


def inline_single(fn, tree):
    """x = E; S(x used once)  -> S(E) for adjacent simple statements"""
    class R(BlockRewriter):
        def block(self, body, parent, field):
            out = list(body)
            i = 0
            while i + 1 < len(out):
                a, b = out[i], out[i + 1]
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and \
                        isinstance(b, (ast.Assign, ast.Return, ast.Expr)) and not isinstance(a.value, ast.Lambda):
                    x = a.targets[0].id
                    uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load)]
                    stores = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store)]
                    inb = [n for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load)]
                    if len(uses) == 1 and len(stores) == 1 and len(inb) == 1 and not has(b, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp):
                        # evaluation order: only when x is the first thing evaluated with effects; accept pure E
                        if not has(a.value, ast.Call) or first_use(b, x):
                            class S(ast.NodeTransformer):
                                def visit_Name(self, n):
                                    return a.value if n is inb[0] else n
                            out[i:i + 2] = [S().visit(b)]
                            self.changed += 1
                            continue
                i += 1
            return out
    def first_use(b, x):
        return isinstance(b, ast.Return) and isinstance(b.value, ast.Name)
    r = R()
    r.generic_visit(fn)
    return r.changed


def const_to_module(fn, tree):
    """literal tuples/sets assigned to a local name move to module level"""
    if not isinstance(tree, ast.Module) or fn not in tree.body:
        return False
    moved = []

    def lit(e):
        return isinstance(e, (ast.Tuple, ast.Set, ast.Constant, ast.List, ast.Dict)) and not has(e, ast.Name, ast.Call)

    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if parent is fn and isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                    and isinstance(st.value, (ast.Tuple, ast.Set, ast.Constant)) and lit(st.value):
                x = st.targets[0].id
                if sum(1 for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store)) != 1:
                    return None
                new = fresh('CONST')
                moved.append((new, st.value))
                for n in ast.walk(fn):
                    if isinstance(n, ast.Name) and n.id == x:
                        n.id = new
                return [ast.Pass()]
    r = R()
    r.generic_visit(fn)
    for n, v in moved:
        tree.body.insert(tree.body.index(fn), ast.Assign(targets=[N(n, ast.Store())], value=v))
    return r.changed


def keywordize(fn, tree):
    """calls of functions defined in the same module: positional -> keyword"""
    defs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.args.vararg}

    class R(ExprRewriter):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in defs and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
                d = defs[n.func.id]
                if len(n.args) <= len(d.args.args):
                    self.changed += 1
                    kws = [ast.keyword(arg=p.arg, value=a) for p, a in zip(d.args.args, n.args)]
                    return ast.Call(func=n.func, args=[], keywords=kws + n.keywords)
            return n
    r = R()
    r.visit(fn)
    return r.changed


def try_else(fn, tree):
    """try: S1; return X except -> value bound in try, return after"""
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.Try) and not st.orelse and not st.finalbody and len(st.body) == 1 and isinstance(st.body[0], ast.Return) and st.body[0].value is not None:
                v = fresh('r')
                return [ast.Try(body=[ast.Assign(targets=[N(v, ast.Store())], value=st.body[0].value)], handlers=st.handlers,
                                orelse=[ast.Return(value=N(v))], finalbody=[])]
    r = R()
    r.generic_visit(fn)
    return r.changed


def loop_to_comp(fn, tree):
    """x = []; for a in S: [if c:] x.append(e)  -> comprehension"""
    class R(BlockRewriter):
        def block(self, body, parent, field):
            out = list(body)
            i = 0
            while i + 1 < len(out):
                a, b = out[i], out[i + 1]
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts \
                        and isinstance(b, ast.For) and len(b.body) == 1 and not b.orelse:
                    x = a.targets[0].id
                    ifs, st = [], b.body[0]
                    while isinstance(st, ast.If) and len(st.body) == 1 and not st.orelse:
                        ifs.append(st.test)
                        st = st.body[0]
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'append' \
                            and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == x and x not in names(st.value.args[0]):
                        out[i:i + 2] = [ast.Assign(targets=a.targets, value=ast.ListComp(elt=st.value.args[0], generators=[
                            ast.comprehension(target=b.target, iter=b.iter, ifs=ifs, is_async=0)]))]
                        self.changed += 1
                i += 1
            return out
    r = R()
    r.generic_visit(fn)
    return r.changed


def gen_to_list_arg(fn, tree):
    """sum/any/all/max/min/set/tuple/sorted/join of generator -> of list"""
    F = ('sum', 'max', 'min', 'set', 'tuple', 'sorted', 'list', 'any', 'all')

    class R(ExprRewriter):
        def visit_Call(self, n):
            self.generic_visit(n)
            if n.args and isinstance(n.args[0], ast.GeneratorExp) and (
                    (isinstance(n.func, ast.Name) and n.func.id in F) or (isinstance(n.func, ast.Attribute) and n.func.attr == 'join')):
                self.changed += 1
                n.args[0] = ast.ListComp(elt=n.args[0].elt, generators=n.args[0].generators)
            return n
    r = R()
    r.visit(fn)
    return r.changed


def alias_subscript(fn, tree):
    """for exc in ...: BODY using exc['x'] of a nested dict twice -> local alias of exc['uncertainty'] etc."""
    KEYS = ('uncertainty', 'production volume')

    class R(BlockRewriter):
        def block(self, body, parent, field):
            # alias NAME['uncertainty'] when every statement of this block comes after its first use and nothing rebinds or deletes it
            if not isinstance(parent, ast.FunctionDef):
                return body
            for k in KEYS:
                uses = {}
                bad = set()
                for n in ast.walk(parent):
                    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == k and isinstance(n.value, ast.Name):
                        if isinstance(n.ctx, ast.Load):
                            uses.setdefault(n.value.id, []).append(n)
                        else:
                            bad.add(n.value.id)
                params = simple_scope(parent)
                for x, us in uses.items():
                    if x in bad or x not in params or len(us) < 2 or x in names(parent, ast.Store):
                        continue
                    # the first statement must use it unconditionally
                    k0 = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
                    first = body[k0]
                    if not any(u in list(ast.walk(first)) for u in us) or isinstance(first, (ast.If, ast.For, ast.Try, ast.While, ast.With)):
                        continue
                    v = fresh('alias')
                    ids = {id(u) for u in us}

                    class S(ast.NodeTransformer):
                        def visit_Subscript(self, n):
                            self.generic_visit(n)
                            return N(v) if id(n) in ids else n
                    asg = ast.Assign(targets=[N(v, ast.Store())], value=copy.deepcopy(us[0]))
                    body = [S().visit(s) for s in body]
                    body = body[:k0] + [asg] + body[k0:]
                    self.changed += 1
            return body
    r = R()
    fnb = fn.body
    fn.body = r.block(fnb, fn, 'body')
    return r.changed


def else_branch_dup(fn, tree):
    """if c: A  (no else); S  at the end -> if c: A; S else: S"""
    class R(BlockRewriter):
        def block(self, body, parent, field):
            if len(body) >= 2 and isinstance(body[-2], ast.If) and not body[-2].orelse and isinstance(body[-1], (ast.Return,)) and \
                    not isinstance(body[-2].body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                self.changed += 1
                last = body[-1]
                return body[:-2] + [ast.If(test=body[-2].test, body=body[-2].body + [copy.deepcopy(last)], orelse=[last])]
            return body
    r = R()
    r.generic_visit(fn)
    return r.changed


def nested_helper(fn, tree):
    """whole body into a nested closure"""
    if is_gen(fn):
        return False
    h = fresh('inner')
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    stored = names(fn, ast.Store)
    if stored & simple_scope(fn):
        return False
    inner = ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=fn.body[k:], decorator_list=[], type_params=[])
    fn.body = fn.body[:k] + [inner, ast.Return(value=ast.Call(func=N(h), args=[], keywords=[]))]
    return True


def map_items(fn, tree):
    """for k in d -> for k, v in d.items() left alone; list(x) around iterated generator"""
    class R(BlockRewriter):
        def stmt(self, st, body, i, parent):
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Subscript) and isinstance(st.iter.slice, ast.Constant) and st.iter.slice.value == 'exchanges':
                # iterate over a snapshot: same as long as the body does not add/remove
                for s in st.body:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 'exchanges':
                            return None
                return [ast.For(target=st.target, iter=ast.Call(func=N('list'), args=[st.iter], keywords=[]), body=st.body, orelse=st.orelse)]
    r = R()
    r.generic_visit(fn)
    return r.changed


ALL = [rename_locals, invert_if, comp_to_loop, temp_return, temp_cond, temp_iter, early_continue, undo_continue, split_and, expand_aug,
       to_aug, extract_all, extract_loop_body, extract_expr, filter_gen_loop, filter_to_comp, flip_compare, not_forms, elif_to_if,
       if_to_else, lambda_to_def, ternary_to_if, if_to_ternary, tuple_split, dict_steps, update_to_items, swap_independent, noop,
       fstrings, while_true, get_to_in, any_to_loop, sum_to_loop, count_len, concat_to_extend, hoist_args, hoist_rhs, inline_single,
       const_to_module, keywordize, try_else, loop_to_comp, gen_to_list_arg, alias_subscript, else_branch_dup, nested_helper, map_items]
