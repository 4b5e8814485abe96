#!/usr/bin/env python3
"""Development tool: hand-written refactorings (tools/hand/*.py) on which every check must stay quiet.

   tools/hand.py check [NAME ...]   contracts and rules on each
   tools/hand.py test [NAME ...]    the repository's tests on each (in a scratch copy)

A file starts with "# target: path/below/repo.py"; its functions (and methods, in a class of the
same name) replace those of the target, other definitions are added, imports go to the top.
"""
import ast
import glob
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import fuzz as F
from sa import contracts as C
from sa import rules as RU
from sa.registry import PROPS
from check import RULES

VALS = sorted(set(v for p in PROPS.values() for v in p['values']))
ORD = set(v for p in PROPS.values() for v in p['ordered'])
CON = set(v for p in PROPS.values() for v in p['contracts'])


def parts(path):
    """[(target path, source)]"""
    out = []
    for l in open(path):
        if l.startswith('# target: '):
            out.append((l.split()[2], []))
        elif out:
            out[-1][1].append(l)
    return [(t, ''.join(ls)) for t, ls in out]


def merge(src, new):
    tree, add = ast.parse(src), ast.parse(new)
    changed = []

    def put(body, st):
        for i, o in enumerate(body):
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and isinstance(o, (ast.FunctionDef, ast.ClassDef)) and o.name == st.name:
                if isinstance(st, ast.ClassDef):
                    for x in st.body:
                        if put(o.body, x):
                            changed.append(st.name + '.' + getattr(x, 'name', '?'))
                    return False
                body[i] = st
                return True
            if isinstance(st, ast.Assign) and isinstance(o, ast.Assign) and ast.dump(st.targets[0]) == ast.dump(o.targets[0]):
                body[i] = st
                return True
        body.append(st) if not isinstance(st, ast.Pass) else None
        return False

    imports = [s for s in add.body if isinstance(s, (ast.Import, ast.ImportFrom))]
    rest = [s for s in add.body if s not in imports]
    k = max([i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [0]) + 1
    tree.body[k:k] = imports
    names = {s.name for s in tree.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
    helpers = [s for s in rest if not (isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name in names)
               and not (isinstance(s, ast.Assign) and any(isinstance(o, ast.Assign) and ast.dump(o.targets[0]) == ast.dump(s.targets[0])
                                                          for o in tree.body))]
    k = max([i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [0]) + 1
    while k < len(tree.body) and not isinstance(tree.body[k], (ast.FunctionDef, ast.ClassDef)):
        k += 1
    tree.body[k:k] = helpers
    for s in rest:
        if s not in helpers and put(tree.body, s):
            changed.append(getattr(s, 'name', '?'))
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n', changed


def build(path):
    P2, quals, files = F.P, [], {}
    import copy
    P2 = copy.copy(F.P)
    P2.modules = dict(F.P.modules)
    for target, new in parts(path):
        full = os.path.join(F.REPO, target)
        mod = next((n for n, m in F.P.modules.items() if os.path.realpath(m.path) == os.path.realpath(full)), None)
        if mod is None:
            mod = target[:-3].replace('/', '.')
            src, ch = new, []
        else:
            src, ch = merge(P2.modules[mod].src, new)
        P2.modules[mod] = F.Module(mod, full, ast.parse(src), target.endswith('__init__.py'), src)
        quals += [mod + ':' + c for c in ch]
        files[target] = src
    return P2, quals, files


def job(x):
    path, target, o = x
    P2, quals, files = build(path)
    if target is None:
        bad, cov, u = RU.rule_globals(P2, F.R, VALS)
        out = [('value', b) for b in bad] + [('value-undecided', b) for b in u]
        for n, f in RULES.items():
            bad, cov, u = f(P2, F.R)
            out += [(n, b) for b in bad] + [(n + '-undecided', b) for b in u]
        return path, 'rules', 'violation' if [x for x in out if 'undecided' not in x[0]] else 'undecided' if out else 'ok', [str(x) for x in out], None, 0
    r = C.decide(P2, F.R, C.contract(target, ordered=o), 75)
    return path, target + (' ordered' if o else ''), r['verdict'], r.get('why'), r.get('notes'), r.get('time')


def main():
    mode, names = sys.argv[1], sys.argv[2:]
    files = sorted(glob.glob(os.path.join(HERE, 'tools', 'hand', '*.py')))
    if names:
        files = [f for f in files if any(n in os.path.basename(f) for n in names)]
    if mode == 'check':
        F.users()
        jobs = []
        for f in files:
            P2, quals, _ = build(f)
            ts = set()
            for q in quals:
                if q.split('.')[-1].split(':')[-1] != '?':
                    ts |= F.USES.get(q, set())
            jobs += [(f, t, o) for t in sorted(ts) for o in ([False] if t in CON else []) + ([True] if t in ORD else [])]
            jobs.append((f, None, False))
        n = {}
        with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=2) as pool:
            for path, t, v, why, notes, tm in pool.imap_unordered(job, jobs, 1):
                n[v] = n.get(v, 0) + 1
                if v != 'ok':
                    print('-----', v, os.path.basename(path), t, notes, '%.1f' % (tm or 0))
                    for w in (why or [])[:2]:
                        print('      ', str(w)[:600])
        print(n)
    else:
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        for f in files:
            d = tempfile.mkdtemp(prefix='hand')
            try:
                shutil.copytree('/repo', d + '/repo', symlinks=True)
                for target, src in build(f)[2].items():
                    open(os.path.join(d, 'repo', target), 'w').write(src)
                env = dict(os.environ, PYTHONPATH=d + '/repo', XDG_DATA_HOME=d + '/data', TMPDIR=d, PYTHONDONTWRITEBYTECODE='1',
                           PYTHONHASHSEED='0')
                env.pop('OCELOT_OUTPUT', None)
                os.mkdir(d + '/data')
                fails = []
                for extra in ([], ['-o', 'norecursedirs=venv', 'tests/manual']):
                    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x' if 0 else '-q',
                                        '--continue-on-collection-errors', '-rfE'] + extra, cwd=d + '/repo', env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    fails += [l for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))]
                print(os.path.basename(f), 'FAILS' if fails else 'passes', len(fails))
                for l in fails[:6]:
                    print('    ', l[:200])
            finally:
                shutil.rmtree(d)


if __name__ == '__main__':
    main()
