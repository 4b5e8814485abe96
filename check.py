#!/usr/bin/env python3
"""Decide one property of /repo's current working tree by static analysis.

    python3 check.py C07 [--tier quick|thorough] [--repo /repo]

Parses /repo/ocelot (never imports or runs it), builds the value graphs of the
functions the property is anchored in and compares them with the reviewed
specification under specs/, and applies the whole-program rules of the property.
Exit 0: held on everything analysed.  Exit 1: VIOLATION line printed.
"""
import argparse
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.program import Program
from sa import contracts as C
from sa import rules as RU
from sa import shared as SH
from sa import oneshot as OS
from sa import template as TP
from sa.registry import PROPS

LEVEL = 'other'
RULES = {
    'tables': RU.rule_tables,
    'classes': RU.rule_classes,
    'global_state': RU.rule_global_state,
    'destructive': RU.rule_destructive,
    'determinism': RU.rule_determinism,
    'shared': SH.rule_shared,
    'template': TP.rule_template,
}
ASSUMPTIONS = [
    'arithmetic on amounts is exact (reals), not floating point',
    'objects reached through different collections of the input are distinct unless the code makes them shared',
    'library functions (lxml, pandas, asteval, pickle, os, logging, jinja2) behave as named; they are opaque and compared by name and arguments',
    'text of the detailed log and of exception messages is not compared',
    'the reviewed specification in specs/ states the intended behaviour',
    'a construct outside the modelled language makes its function undecided (counted below), never a violation',
]

_P = _R = None


def work(job):
    qual, ordered, limit = job
    c = C.contract(qual, ordered=ordered)
    return C.decide(_P, _R, c, limit)


def run_jobs(jobs, procs):
    """each contract in its own forked process, so that the tables stay small"""
    if not jobs:
        return []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        return pool.map(work, jobs, chunksize=1)


def known_findings():
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                out.append(line[len('finding:'):].strip())
    return out


def main():
    global _P, _R
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    spec = PROPS[pid]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    limit = 300 if tier == 'thorough' else 75
    try:
        _P = Program(a.repo)
    except SyntaxError as e:
        print('%s: source does not parse: %s' % (pid, e))
        return 2
    _R = Program(os.path.join(HERE, 'specs'))

    jobs = [(x, False, limit) for x in spec['contracts']] + [(x, True, limit) for x in spec['ordered']]
    if tier == 'thorough':
        # also compare the order of every list the functions build
        jobs += [(x, True, limit) for x in spec['contracts'] if (x, True, limit) not in jobs]
    results = run_jobs(jobs, min(8, os.cpu_count() or 2))

    violations, undecided, vanished, ok = [], [], [], []
    obligations = updates = events = 0
    analysed = set()
    for (qual, ordered, _), r in zip(jobs, results):
        obligations += r.get('obligations') or 0
        updates += r.get('updates') or 0
        events += r.get('events') or 0
        analysed |= set(r.get('functions') or ())
        v = r['verdict']
        if v == 'violation':
            fn = _P.function(qual)
            path = os.path.relpath(fn[0].path, a.repo) if fn else '?'
            line = (r.get('lines') or [fn[1].lineno if fn else 0])[0]
            for w in r['why']:
                violations.append({'function': qual, 'where': '%s:%s' % (path, line), 'lines': r.get('lines'),
                                   'rule': 'function contract%s' % (' (order)' if ordered else ''), 'what': w})
        elif v == 'undecided':
            undecided.append({'function': qual, 'why': r.get('why'), 'notes': r.get('notes')})
        elif v == 'vanished':
            vanished.append(qual)
        else:
            ok.append(qual)
    covered = {}
    if spec['values']:
        bad, cov, und = RU.rule_globals(_P, _R, spec['values'])
        covered['module values'] = len(cov)
        obligations += len(cov)
        undecided += [{'function': u} for u in und]
        violations += [{'rule': 'module value', 'where': b['where'], 'what': b['what'], 'function': b['what'].split(':')[0]} for b in bad]
    bad, one = OS.one_shot(_P, _R, analysed | set(x for x, _, _ in jobs))
    covered['one-shot iterators'] = ['%d functions; %d consume a parameter twice, %d yield one-shot iterators' % (
        len(one.fns), len(one.doubles), len(one.producers))]
    obligations += len(analysed)
    violations += [{'rule': 'one-shot iterator', 'where': b['where'], 'what': b['what'], 'function': ''} for b in bad]
    for name in spec['rules']:
        bad, cov, und = RULES[name](_P, _R)
        covered[name] = cov[:60]
        obligations += len(cov)
        undecided += [{'function': u} for u in und]
        violations += [{'rule': name, 'where': b['where'], 'what': b['what'], 'function': ''} for b in bad]

    # known findings (never written here)
    new = []
    for v in violations:
        hit = None
        for k in known_findings():
            if k.startswith('property=%s ' % pid) and all(tok in (v['function'] + ' ' + v['what']) for tok in
                                                          k.split(' | ')[0].split(' ', 1)[1].split(' && ')):
                hit = k
        if hit:
            print('KNOWN-FINDING: %s' % hit)
        else:
            new.append(v)

    wall = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': LEVEL,
        'coverage': {
            'explanation': 'Static value-graph comparison: %d function contracts (%d decided equal to the specification, '
                           '%d undecided, %d vanished, %d violated), %d comparison obligations over %d heap updates and %d '
                           'observable events in %d analysed functions; plus the rules listed.' % (
                               len(jobs), len(ok), len(undecided), len(vanished), len(set(v['function'] for v in violations)),
                               obligations, updates, events, len(analysed)),
            'obligations': obligations,
            'discharged': obligations - len(violations),
            'functions_analysed': sorted(analysed),
            'contracts': sorted(set(ok)),
            'undecided': undecided,
            'vanished': vanished,
            'rules': covered,
            'source_digest': _P.digest.hexdigest(),
            'samples': (violations or [{'function': x, 'verdict': 'equal'} for x in ok])[:5],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
    for u in undecided:
        print('undecided: %s %s' % (u['function'], str(u.get('why') or '')[:160]))
    for u in vanished:
        print('vanished: %s' % u)
    if new:
        replay = os.path.join(HERE, 'evidence', pid + '.violation.json')
        if not a.no_evidence:
            with open(replay, 'w') as f:
                json.dump({'property': pid, 'violations': new,
                           'replay': 'python3 /verif/check.py %s' % pid}, f, indent=1)
        for v in new[:10]:
            print('%s [%s] %s: %s' % (v['where'], v['rule'], v['function'], v['what'][:500]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if jobs and not ok:
        print('%s: nothing could be decided' % pid)
        return 2
    print('%s holds: %d contracts, %d obligations, %.1fs' % (pid, len(ok), obligations, wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
