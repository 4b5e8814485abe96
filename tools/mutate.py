#!/usr/bin/env python3
"""Development tool: small behaviour-changing edits, to see which the checks miss.

   tools/mutate.py run [MODULE_SUBSTRING ...] > OUT      every mutant of every function
   tools/mutate.py show QUAL N                           source of mutant N of a function, and verdicts
"""
import ast
import copy
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.setrecursionlimit(20000)
import fuzz as F
from sa import contracts as C
from sa import rules as RU
from sa import oneshot as OS
from sa.registry import PROPS
from check import RULES

CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}
UNWRAP = {'sorted', 'reversed', 'abs', 'set', 'deepcopy', 'copy', 'list', 'float', 'int', 'str', 'bool', 'len', 'sum', 'tuple', 'frozenset'}
METH = {'lower', 'strip', 'copy', 'upper', 'title', 'lstrip', 'rstrip'}


def skip_call(n):
    """calls whose argument text is not observable"""
    if not isinstance(n, ast.Call):
        return False
    f = n.func
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        if f.value.id in ('detailed', 'logger', 'logging') and f.value.id == 'detailed':
            return True
    return isinstance(f, ast.Name) and f.id in ('print',)


def sites(fn):
    """yield (description, apply) ; apply mutates the (deep-copied) tree in place; identified by walk index"""
    out = []
    nodes = []
    skip = set()

    def visit(n, parent, field, idx):
        if skip_call(n):
            return
        if isinstance(n, ast.Raise):
            nodes.append((n, parent, field, idx))
            return
        nodes.append((n, parent, field, idx))
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        visit(x, n, f, i)
            elif isinstance(v, ast.AST):
                visit(v, n, f, None)
    for f in ('body', 'decorator_list'):
        for i, st in enumerate(getattr(fn, f)):
            if i == 0 and f == 'body' and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            visit(st, fn, f, i)
    visit(fn.args, fn, 'args', None)

    def put(parent, field, idx, new):
        def do():
            if idx is None:
                setattr(parent, field, new)
            else:
                getattr(parent, field)[idx] = new
        return do
    for n, parent, field, idx in nodes:
        ln = getattr(n, 'lineno', 0)

        def add(d, do, ln=ln):
            out.append(('%d %s' % (ln, d), do))
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for alt in CMP.get(type(o), ()):
                    add('%s->%s' % (type(o).__name__, alt.__name__), (lambda n=n, i=i, alt=alt: n.ops.__setitem__(i, alt())))
        if isinstance(n, ast.BinOp):
            for alt in BIN.get(type(n.op), ()):
                if isinstance(n.op, ast.Add) and isinstance(n.right, (ast.List, ast.ListComp, ast.Tuple)):
                    continue
                add('%s->%s' % (type(n.op).__name__, alt.__name__), (lambda n=n, alt=alt: setattr(n, 'op', alt())))
            add('left operand only', put(parent, field, idx, n.left))
            add('right operand only', put(parent, field, idx, n.right))
        if isinstance(n, ast.AugAssign):
            for alt in BIN.get(type(n.op), ()):
                add('aug %s->%s' % (type(n.op).__name__, alt.__name__), (lambda n=n, alt=alt: setattr(n, 'op', alt())))
        if isinstance(n, ast.BoolOp):
            alt = ast.Or if isinstance(n.op, ast.And) else ast.And
            add('boolop swap', (lambda n=n, alt=alt: setattr(n, 'op', alt())))
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                new = rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)
                add('drop operand %d' % i, put(parent, field, idx, new))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add('drop %s' % type(n.op).__name__, put(parent, field, idx, n.operand))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add('negate test', (lambda n=n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test))))
            add('test true', (lambda n=n: setattr(n, 'test', ast.Constant(True)))) if not isinstance(n, ast.While) else None
            if isinstance(n, ast.If) and n.orelse:
                add('drop else', (lambda n=n: setattr(n, 'orelse', [])))
            if isinstance(n, ast.IfExp):
                add('test false', (lambda n=n: setattr(n, 'test', ast.Constant(False))))
        if isinstance(n, ast.comprehension):
            for i in range(len(n.ifs)):
                add('drop comp filter %d' % i, (lambda n=n, i=i: n.ifs.__delitem__(i)))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add('flip bool', put(parent, field, idx, ast.Constant(not v)))
            elif isinstance(v, (int, float)):
                add('%r+1' % v, put(parent, field, idx, ast.Constant(v + 1)))
                if v:
                    add('%r->0' % v, put(parent, field, idx, ast.Constant(0)))
            elif isinstance(v, str) and not isinstance(parent, ast.Expr):
                if not isinstance(parent, (ast.JoinedStr,)):
                    add('str %r' % v[:30], put(parent, field, idx, ast.Constant(v + 'x')))
            elif v is None and not isinstance(parent, ast.Expr):
                add('None->False', put(parent, field, idx, ast.Constant(False)))
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in NAMES:
                add('%s->%s' % (f.id, NAMES[f.id]), (lambda f=f: setattr(f, 'id', NAMES[f.id])))
            if isinstance(f, ast.Name) and f.id in UNWRAP and n.args:
                add('unwrap %s' % f.id, put(parent, field, idx, n.args[0]))
            if isinstance(f, ast.Attribute) and f.attr in METH:
                add('drop .%s()' % f.attr, put(parent, field, idx, f.value))
            if isinstance(f, ast.Attribute) and f.attr in ('deepcopy', 'copy') and n.args:
                add('drop %s' % f.attr, put(parent, field, idx, n.args[0]))
            for i, k in enumerate(n.keywords):
                add('drop keyword %s' % k.arg, (lambda n=n, i=i: n.keywords.__delitem__(i)))
            if len(n.args) > 1:
                for i in range(len(n.args) - 1):
                    def sw(n=n, i=i):
                        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                    if ast.dump(n.args[i]) != ast.dump(n.args[i + 1]) and not any(isinstance(x, ast.Starred) for x in n.args):
                        add('swap args %d' % i, sw)
                add('drop last arg', (lambda n=n: n.args.pop()))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add('whole slice', put(parent, field, idx, n.value)) if isinstance(n.ctx, ast.Load) else None
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(n.ctx if hasattr(n, 'ctx') else ast.Load(), ast.Load):
            for i in range(len(n.elts)):
                add('drop element %d' % i, (lambda n=n, i=i: n.elts.__delitem__(i)))
        if isinstance(n, ast.Dict) and n.keys:
            for i in range(len(n.keys)):
                def dd(n=n, i=i):
                    del n.keys[i]
                    del n.values[i]
                add('drop dict item %d' % i, dd)
        if isinstance(n, ast.Break):
            add('break->continue', put(parent, field, idx, ast.Continue()))
        if isinstance(n, ast.Continue):
            add('continue->break', put(parent, field, idx, ast.Break()))
            add('continue->pass', put(parent, field, idx, ast.Pass()))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add('except wider', (lambda n=n: setattr(n, 'type', ast.Name('Exception', ast.Load()))))
        if isinstance(n, ast.stmt) and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert, ast.If, ast.For, ast.With, ast.Return)) \
                and field in ('body', 'orelse', 'finalbody', 'handlers'):
            if isinstance(n, ast.Expr) and skip_call(n.value):
                continue
            if isinstance(n, ast.With):
                def unw(parent=parent, field=field, idx=idx, n=n):
                    getattr(parent, field)[idx:idx + 1] = n.body
                add('unwrap with', unw)
            elif isinstance(n, ast.Return) and parent is fn:
                pass
            else:
                add('delete %s' % type(n).__name__, put(parent, field, idx, ast.Pass()))
        if isinstance(n, ast.Raise) and n.exc is not None:
            add('other exception', (lambda n=n: setattr(n, 'exc', ast.Call(ast.Name('KeyError', ast.Load()), [], []))))
    if os.environ.get('MUT_KIND') == '2':
        return sites2(fn, nodes, put)
    for i in range(len(fn.decorator_list)):
        out.append(('drop decorator %d' % i, (lambda i=i: fn.decorator_list.__delitem__(i))))
    return out


def sites2(fn, nodes, put):
    """structural edits"""
    out = []
    names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                   {a.arg for a in fn.args.args})
    consts = sorted({n.value for n, _, _, _ in nodes if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 30})
    funcs = {n.func.id for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
    for x, (n, parent, field, idx) in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)

        def add(d, do, ln=ln):
            out.append(('%d %s' % (ln, d), do))
        if isinstance(n, ast.ListComp):
            add('lazy comp', put(parent, field, idx, ast.GeneratorExp(n.elt, n.generators)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and n.id not in funcs:
            alts = [v for v in names if v != n.id and v not in funcs]
            for j in range(min(2, len(alts))):
                v = alts[(x * 7 + j * 3) % len(alts)]
                add('name %s->%s' % (n.id, v), (lambda n=n, v=v: setattr(n, 'id', v)))
        if isinstance(n, ast.Constant) and n.value in consts and len(consts) > 1:
            alts = [v for v in consts if v != n.value]
            v = alts[x * 5 % len(alts)]
            add('str %r->%r' % (n.value, v), put(parent, field, idx, ast.Constant(v)))
        if isinstance(n, ast.For):
            add('first only', (lambda n=n: n.body.append(ast.Break())))
            if len(n.body) > 1 and field in ('body', 'orelse') and idx is not None:
                def ded(parent=parent, field=field, idx=idx, n=n):
                    getattr(parent, field).insert(idx + 1, n.body.pop())
                add('dedent last', ded)
            if idx is not None and idx + 1 < len(getattr(parent, field)):
                def ind(parent=parent, field=field, idx=idx, n=n):
                    n.body.append(getattr(parent, field).pop(idx + 1))
                add('indent next', ind)
        if isinstance(n, ast.If) and idx is not None:
            if len(n.body) > 1:
                def ded(parent=parent, field=field, idx=idx, n=n):
                    getattr(parent, field).insert(idx + 1, n.body.pop())
                add('dedent last of if', ded)
            if not n.orelse and idx + 1 < len(getattr(parent, field)):
                def ind(parent=parent, field=field, idx=idx, n=n):
                    n.body.append(getattr(parent, field).pop(idx + 1))
                add('indent next into if', ind)
        if isinstance(n, ast.stmt) and idx is not None and field in ('body', 'orelse') and idx + 1 < len(getattr(parent, field)):
            def sw(parent=parent, field=field, idx=idx):
                b = getattr(parent, field)
                b[idx], b[idx + 1] = b[idx + 1], b[idx]
            add('swap statements', sw)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 1:
            add('get->[]', put(parent, field, idx, ast.Subscript(n.func.value, n.args[0], ast.Load())))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'deepcopy':
            add('shallow', (lambda n=n: setattr(n.func, 'id', 'dict')))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            add('[]->get', put(parent, field, idx, ast.Call(ast.Attribute(n.value, 'get', ast.Load()), [n.slice], [])))
        if isinstance(n, ast.AugAssign):
            add('assign instead of augment', put(parent, field, idx, ast.Assign([n.target], n.value)))
    return out


def functions():
    out = []
    for mod, m in sorted(F.P.modules.items()):
        tree = m.tree
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                out.append(mod + ':' + n.name)
            if isinstance(n, ast.ClassDef):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        out.append(mod + ':%s.%s' % (n.name, f.name))
    return out


def mutant(qual, k):
    mod = qual.split(':')[0]
    tree = ast.parse(F.SRC[mod])
    fn = F.locate(tree, qual)
    ss = sites(fn)
    d, do = ss[k]
    do()
    ast.fix_missing_locations(tree)
    P2, src = F.with_module(mod, tree)
    return d, P2, src


VALS = sorted(set(v for p in PROPS.values() for v in p['values']))
ORD = set(v for p in PROPS.values() for v in p['ordered'])
CON = set(v for p in PROPS.values() for v in p['contracts'])


def judge(P2, qual, targets):
    und = None
    for t in targets:
        for o in ([False] if t in CON else []) + ([True] if t in ORD else []):
            r = C.decide(P2, F.R, C.contract(t, ordered=o), 60)
            if r['verdict'] == 'violation':
                return 'caught', t + (' ordered' if o else ''), r['why'][0][:200]
            if r['verdict'] != 'ok':
                und = (r['verdict'], t, str(r.get('why'))[:160] + str(r.get('notes')))
    try:
        bad, cov, u = RU.rule_globals(P2, F.R, VALS)
        if bad:
            return 'caught', 'value', str(bad[0])[:200]
        bad, _ = OS.one_shot(P2, F.R, None)
        if bad:
            return 'caught', 'one-shot', str(bad[0])[:200]
        for n, f in RULES.items():
            bad, cov, u = f(P2, F.R)
            if bad:
                return 'caught', n, str(bad[0])[:200]
    except Exception as e:
        und = ('undecided', 'rule', repr(e))
    return und or ('MISSED', '', '')


def job(x):
    qual, k, targets = x
    try:
        d, P2, src = mutant(qual, k)
    except Exception as e:
        return qual, k, '?', ('error', '', repr(e))
    try:
        compile(src, 'x', 'exec')
    except SyntaxError:
        return None
    return qual, k, d, judge(P2, qual, targets)


def main():
    mode = sys.argv[1]
    if mode == 'run':
        F.users()
        jobs = []
        for q in functions():
            if len(sys.argv) > 2 and not any(s in q for s in sys.argv[2:]):
                continue
            fn = F.locate(ast.parse(F.SRC[q.split(':')[0]]), q)
            ts = sorted(F.USES.get(q, ()), key=lambda t: t != q)
            for k in range(len(sites(fn))):
                jobs.append((q, k, ts))
        stat = {}
        rest = []
        with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=2) as pool:
            for r in pool.imap_unordered(job, jobs, 1):
                if r is None:
                    continue
                q, k, d, v = r
                s = stat.setdefault(q, {})
                s[v[0]] = s.get(v[0], 0) + 1
                if v[0] != 'caught':
                    rest.append((q, k, d, v))
        tot = {}
        for q in sorted(stat):
            print('%-90s' % q, stat[q])
            for a, b in stat[q].items():
                tot[a] = tot.get(a, 0) + b
        print('TOTAL', tot)
        for q, k, d, v in sorted(rest, key=lambda x: (x[0], x[1])):
            print('-----', v[0], q, k, '|', d, '|', v[1], v[2][:200])
    else:
        q, k = sys.argv[2], int(sys.argv[3])
        d, P2, src = mutant(q, k)
        print(d)
        print(ast.unparse(F.locate(ast.parse(src), q)))
        if len(sys.argv) > 4:
            print(judge(P2, q, sys.argv[4:]))
        else:
            print(judge(P2, q, [q]))


if __name__ == '__main__':
    main()
