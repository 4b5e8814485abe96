#!/usr/bin/env python3
"""Development tool: refactorings must stay quiet, mutations should be reported.

   tools/fuzz.py refactor [transform ...]     every transformation on every function
   tools/fuzz.py compose N SEED               N random compositions per function
   tools/fuzz.py rerun OUTPUT                 the reported cases of an earlier run again
   tools/fuzz.py dump TRANSFORM OUTDIR        writes the transformed package (to run the repository's tests on it)
"""
import ast
import copy
import multiprocessing
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.setrecursionlimit(20000)
from sa.program import Program, Module
from sa import contracts as C
from sa.registry import PROPS
import refactor as RF

REPO = os.environ.get('FUZZ_REPO', '/repo')
P = Program(REPO)
R = Program(os.path.join(HERE, 'specs'))
SRC = {n: m.src for n, m in P.modules.items()}


def quals():
    s = []
    for p in PROPS.values():
        for q in p['contracts'] + p['ordered']:
            if q not in s:
                s.append(q)
    return s


def locate(tree, qual):
    name = qual.split(':')[1]
    if '.' in name:
        c, f = name.split('.')
        for n in tree.body:
            if isinstance(n, ast.ClassDef) and n.name == c:
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and m.name == f:
                        return m
        return None
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return n


def with_module(mod, tree):
    ast.fix_missing_locations(tree)
    src = ast.unparse(tree)
    m = P.modules[mod]
    P2 = copy.copy(P)
    P2.modules = dict(P.modules)
    P2.modules[mod] = Module(mod, m.path, ast.parse(src), m.is_pkg, src)
    return P2, src


def variant(qual, transforms):
    r = P.function(qual)
    if r is None:
        return None
    mod = r[0].name
    tree = ast.parse(SRC[mod])
    name = r[1].name
    fn = locate(tree, mod + ':' + qual.split(':')[1]) or next(
        (n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.lineno == r[1].lineno), None)
    if fn is None:
        return None
    ch = 0
    for t in transforms:
        try:
            if t(fn, tree):
                ch += 1
        except Exception as e:
            print('transform error', t.__name__, qual, repr(e))
            return None
        ast.fix_missing_locations(tree)
        tree = ast.parse(ast.unparse(tree))
        fn = locate(tree, mod + ':' + qual.split(':')[1])
        if fn is None:
            return None
    if not ch:
        return None
    P2, src = with_module(mod, tree)
    return P2, src, fn


USES = {}


def users():
    """function -> contracts in whose analysis it is inlined"""
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=8) as pool:
        for q, fs in pool.imap_unordered(_use, quals(), 1):
            for f in fs:
                USES.setdefault(f, set()).add(q)
            USES.setdefault(q, set()).add(q)


def _use(q):
    r = C.decide(P, R, C.contract(q), 100)
    return q, r.get('functions') or []


def job(x):
    qual, tnames, target, ordered = x
    try:
        v = variant(qual, [getattr(RF, t) for t in tnames])
        if v is None:
            return None
        r = C.decide(v[0], R, C.contract(target, ordered=ordered), 60)
        return (qual, tnames, target, r['verdict'], r.get('why'), r.get('notes'), r.get('time'))
    except Exception as e:
        import traceback
        return (qual, tnames, target, 'ERROR', [traceback.format_exc(limit=-3)], None, 0)


def run(jobs, show=True):
    ctx = multiprocessing.get_context('fork')
    stat = {}
    bad = []
    with ctx.Pool(8, maxtasksperchild=2) as pool:
        for r in pool.imap_unordered(job, jobs, 1):
            if r is None:
                continue
            k = (r[1] if len(r[1]) == 1 else ('composed',))
            stat.setdefault(k, {}).setdefault(r[3], []).append(r)
            if r[3] not in ('ok',):
                bad.append(r)
    for k, d in sorted(stat.items()):
        print('%-24s' % '+'.join(k), {v: len(x) for v, x in d.items()})
    bad.sort(key=lambda r: (r[3] != 'violation', r[1], r[0]))
    for r in bad:
        print('-----', r[3], r[0], '+'.join(r[1]), '->', r[2], 'notes', r[5], '%.1fs' % (r[6] or 0))
        for w in (r[4] or [])[:2]:
            print('      ', str(w)[:420])


def main():
    mode = sys.argv[1]
    if mode == 'refactor':
        ts = sys.argv[2:] or [t.__name__ for t in RF.ALL]
        users()
        jobs = []
        for q in quals():
            for t in ts:
                for target in sorted(USES.get(q, {q})):
                    jobs.append((q, (t,), target, bool(os.environ.get('FUZZ_ORDERED'))))
        run(jobs)
    elif mode == 'one':
        q, ts = sys.argv[2], sys.argv[3].split('+')
        v = variant(q, [getattr(RF, t) for t in ts])
        if v is None:
            print('not applicable')
            return
        tree = ast.parse(v[1])
        print(ast.unparse(locate(tree, q)))
        target = sys.argv[4] if len(sys.argv) > 4 else q
        r = C.decide(v[0], R, C.contract(target), 100)
        print(r['verdict'], r.get('notes'))
        for w in r.get('why') or []:
            print('   ', str(w)[:1500])
    elif mode == 'compose':
        n, seed = int(sys.argv[2]), int(sys.argv[3])
        rng = random.Random(seed)
        users()
        jobs = []
        names = [t.__name__ for t in RF.ALL]
        for q in quals():
            for _ in range(n):
                ts = tuple(rng.sample(names, rng.randint(3, 8)))
                for target in sorted(USES.get(q, {q})):
                    jobs.append((q, ts, target, bool(os.environ.get('FUZZ_ORDERED'))))
        run(jobs)
    elif mode == 'rerun':
        jobs = []
        for l in open(sys.argv[2]):
            if l.startswith('-----'):
                x = l.split()
                jobs.append((x[2], tuple(x[3].split('+')), x[5], bool(os.environ.get('FUZZ_ORDERED'))))
        run(jobs)
    elif mode == 'dump':
        t, out = getattr(RF, sys.argv[2]), sys.argv[3]
        for mod, src in SRC.items():
            tree = ast.parse(src)
            for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
                # only top level functions and methods
                if any(fn in c.body for c in [tree] + [x for x in tree.body if isinstance(x, ast.ClassDef)]):
                    t(fn, tree)
            ast.fix_missing_locations(tree)
            path = os.path.join(out, os.path.relpath(P.modules[mod].path, REPO))
            with open(path, 'w') as f:
                f.write(ast.unparse(tree))


if __name__ == '__main__':
    main()
