#!/usr/bin/env python
"""usage: run.py <property id> [--tier quick|thorough]      explore, write evidence
          run.py --replay <file>                            re-run one recorded history"""
from __future__ import print_function
import os
import sys
import json
import time
import importlib
import warnings

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, VERIF]
warnings.simplefilter('ignore')

import numpy as np                                        # noqa
np.seterr(all='ignore')
from mc import engine                                     # noqa
from mc import rng                                        # noqa  (owns numpy.random before filterpy is imported)
import filterpy                                           # noqa

if not os.path.realpath(filterpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
    print('filterpy was not imported from %s but from %s' % (REPO, filterpy.__file__))
    sys.exit(2)


def load_known(pid):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def write_replay(pid, tier, v, i):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (pid, i))
    with open(p, 'w') as f:
        json.dump(dict(property=pid, tier=tier, model=v[0], history=v[1], what=v[2], expected=v[3],
                       observed=v[4],
                       replay_cmd='cd /verif && ./check --replay ' + p), f, indent=1)
    return p


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('props.' + pid.lower())
    ms = mod.models(tier)
    names = [m.name for m in ms]
    assert len(set(names)) == len(names), 'duplicate model names'
    viol, st, errs = engine.run_models(ms)
    for e in errs:
        print('HARNESS ERROR', e)
    known = load_known(pid)
    kd = mod.known() if hasattr(mod, 'known') else {}
    nviol = 0
    for k in known:
        kv, _, ke = engine.run_models([kd[k['model']]], procs=1)
        for e in ke:
            print('HARNESS ERROR', e)
            errs.append(e)
        if not kv:
            print('note: known finding no longer fails: %s' % k['model'])
        elif kv[0][2].split(' ')[0] == k['what'].split(' ')[0]:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['description']))
        else:
            viol.append(kv[0])
    for i, v in enumerate(viol[:int(os.environ.get("VERIF_SHOW", "5"))]):
        p = write_replay(pid, tier, v, i)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  ' + v[5])
        nviol += 1
    if len(viol) > 5:
        print('  (%d further violating configurations)' % (len(viol) - 5))
    level = mod.LEVEL
    if level == 'model_checking':
        # an evaluated case of a pure function is a one-step history from the initial state
        cov = dict(states=st['states'] + st['distinct'], transitions=st['transitions'] + st['evals'],
                   traces_validated_against_impl=st['traces'] + st['evals'], samples=st['samples'][:12],
                   configurations=st['models'], pure_function_cases=st['evals'],
                   exhaustive=not errs and not viol,
                   bound=mod.BOUND)
    else:
        cov = dict(evaluations=st['evals'] + st['traces'], distinct_nontrivial=st['distinct'] + st['states'],
                   rule=mod.BOUND, samples=st['samples'][:12], exhaustive=not errs and not viol)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: configurations=%d states=%d transitions=%d histories=%d cases=%d distinct=%d violations=%d wall=%.1fs'
          % (pid, tier, st['models'], st['states'], st['transitions'], st['traces'], st['evals'], st['distinct'],
             len(viol), time.time() - t0))
    if viol:
        return 1
    return 2 if errs else 0


def tup(x):
    return tuple(tup(e) for e in x) if isinstance(x, list) else x


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module('props.' + r['property'].lower())
    ms = {m.name: m for m in mod.models(r['tier'])}
    if hasattr(mod, 'known'):
        ms.update({m.name: m for m in mod.known().values()})
    m = ms[r['model']]
    if isinstance(m, engine.Grid):
        st = engine.Stats()
        v = engine.run_grid(m, st)
    else:
        R = engine.Runner(m)
        tr = tuple(tup(o) for o in r['history'])
        s = m.init()
        refs = []
        for o in tr:
            s, e = m.step(s, o)
            refs.append(engine.Expect(e, m.rtol, m.atol))
        v = R.run(tr, refs)
        v2 = R.run(tr, refs)
        if (v is None) != (v2 is None):
            print('replay is not deterministic')
    if v is None:
        print('history does not fail')
        return 0
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    print('  ' + v.text())
    return 1


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--selftest':
        print('filterpy from', filterpy.__file__)
        sys.exit(0)
    if a[0] == '--replay':
        sys.exit(replay(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    sys.exit(main(a[0], tier))
