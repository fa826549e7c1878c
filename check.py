#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]: decide one property from source."""
import argparse
import glob
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(8000)

import engine as E          # noqa: E402
import scen                 # noqa: E402

ASSUMPTIONS = {}
PROG = {}


def load_specs():
    for f in sorted(glob.glob(os.path.join(HERE, 'sa', 'props_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])


def program(repo, pure):
    if (repo, pure) not in PROG:
        PROG[repo, pure] = E.Program(os.path.join(repo, 'src'), pure)
    return PROG[repo, pure]


def work(job):
    i, prop, tier, repo, deadline = job
    sc = scen.REG[i]
    prog = program(repo, sc['opts'].get('pure', False))
    prog.funcs_seen = set()
    if sc['opts'].get('direct'):
        rep = scen.Report(sc['name'])
        t0 = time.time()
        try:
            sc['fn'](scen.Direct(rep, prog, repo, prop, tier))
        except E.Inconclusive as e:
            rep.undecided += 1
            rep.reasons[str(e)] = 1
        rep.wall = time.time() - t0
    else:
        rep = scen.run_scenario(prog, sc, prop, tier,
                                200000 if tier == 'thorough' else 60000, deadline)
    rep.funcs = sorted(f'{f}:{n}' for f, n in prog.funcs_seen)
    rep.load = prog.stubs.get('load', [])
    return rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--scenario', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    load_specs()
    prop = a.prop
    jobs = [(i, prop, a.tier, a.repo, t0 + (780 if a.tier == 'thorough' else 240))
            for i, sc in enumerate(scen.REG)
            if prop in sc['props'] and a.scenario in sc['name'] and
            (sc['tier'] == 'quick' or a.tier == 'thorough')]
    if not jobs:
        print(f'no rule for {prop}')
        return 2
    n = min(len(jobs), os.cpu_count() or 1)
    if n > 1:
        with multiprocessing.get_context('fork').Pool(n) as pool:
            reps = pool.map(work, jobs, 1)
    else:
        reps = [work(j) for j in jobs]

    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    viols, found = [], []
    for r in reps:
        for v in r.violations:
            k = next((k for k in known['findings'] if k['property'] == prop and
                      k['scenario'] == v['scenario'] and k['match'] in v['message']), None)
            (found if k else viols).append((v, k))
    for v, k in found:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    code = 0
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if viols:
        code = 1
        path = os.path.join(evdir, f'{prop}.replay.json')
        json.dump({'property': prop, 'tier': a.tier, 'violations': [v for v, _ in viols[:20]],
                   'rerun': f'python3 /verif/check.py {prop} --tier {a.tier} '
                            f'--scenario {viols[0][0]["scenario"]} -v'},
                  open(path, 'w'), indent=1)
        for v, _ in viols[:5]:
            print(f'{v["where"]}: [{v["scenario"]}] {v["message"]}')
        print(f'VIOLATION property={prop} replay={path}')
    dec = sum(r.decided for r in reps)
    und = sum(r.undecided for r in reps)
    broken = [r.name for r in reps if not r.decided]
    reasons = {}
    for r in reps:
        for k, n in r.reasons.items():
            reasons[f'{r.name}: {k}'] = n
    funcs = sorted({f for r in reps for f in r.funcs})
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED') or 0),
        'level': 'other',
        'coverage': {
            'explanation': 'Path-sensitive abstract interpretation of the current source: every '
                           'abstract path of every listed scenario (arbitrary consistent '
                           'pre-state, one operation or a short history) was followed and the '
                           'obligations of the property were compared with the abstract '
                           'post-state, result and effect journal. Nothing of /repo was executed.',
            'scenarios': len(reps), 'paths': sum(r.paths for r in reps), 'paths_decided': dec,
            'paths_undecided': und, 'paths_cut_at_loop_bound': sum(r.bounded for r in reps),
            'obligations': sum(r.obligations for r in reps),
            'functions_analysed': len(funcs), 'functions': funcs[:150],
            'per_scenario': [
                {'name': r.name, 'paths': r.paths, 'decided': r.decided,
                 'undecided': r.undecided, 'bounded': r.bounded, 'obligations': r.obligations,
                 'classes_split': r.splits[:10], 'seconds': round(r.wall, 2)} for r in reps],
            'undecided_reasons': dict(list(reasons.items())[:30]),
            'load_notes': sorted({x for r in reps for x in r.load})[:10],
            'extra': {k: v for r in reps for k, v in getattr(r, 'extra', {}).items()},
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
        'assumptions': ASSUMPTIONS.get(prop, []) + [
            'BTrees, Length and builtins behave as modelled in sa/lib.py',
            'floating point is treated as exact arithmetic'],
    }
    json.dump(ev, open(os.path.join(evdir, f'{prop}.json'), 'w'), indent=1)
    if a.v:
        for r in reps:
            print(f'  {r.name}: paths {r.paths} decided {r.decided} undecided {r.undecided} '
                  f'bounded {r.bounded} obligations {r.obligations} {r.wall:.1f}s {r.splits}')
        for k, n in reasons.items():
            print('   ?', n, k)
        for v, _ in viols[:4]:
            print(json.dumps(v, indent=1))
    if code == 0:
        anchors = [k for k in reasons if 'LookupError' in k]
        if dec == 0 or len(broken) == len(reps) or anchors:
            print(f'{prop}: analysis broken, no verdict: {(anchors or list(reasons))[:3]}')
            return 2
        if broken:
            print(f'{prop}: undecided: {broken}')
        print(f'{prop}: {dec} paths decided, {und} undecided, '
              f'{ev["coverage"]["obligations"]} obligations hold ({ev["wall_s"]} s)')
    return code


if __name__ == '__main__':
    sys.exit(main())
