"""Does one seed mean one execution?  `selftest [--smoke] [property...]`

Smoke: every check imports and executes its first plan twice, with the same
trace.  Full: the traces of a batch must not depend on the number of workers,
on PYTHONHASHSEED or on what the interpreter executed before.
"""
import json
import os
import subprocess
import sys

from . import core, engine

HERE = os.path.dirname(os.path.abspath(__file__))
FULL = 24


def ids():
    d = os.path.join(HERE, 'props')
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.startswith('c') and f.endswith('.py'))


def traces(pid, count, workers, seed=1):
    out = engine.run_batch(pid, seed, 'quick', count, 600, workers=workers,
                           stop_on_violation=False)
    if out['errors']:
        raise core.HarnessError(out['errors'][0][2])
    return {i: s['trace'] for i, _, s in out['runs']}


def main(argv):
    if argv and argv[0] == '--traces':
        pid, count, workers = argv[1], int(argv[2]), int(argv[3])
        print('TRACES ' + json.dumps(traces(pid, count, workers), sort_keys=True))
        return 0
    smoke = '--smoke' in argv
    wanted = [a for a in argv if not a.startswith('--')] or ids()
    bad = 0
    for pid in wanted:
        mod = engine.prop(pid)
        if smoke:
            plan = engine.make_plan(mod, 1, 0, 'quick')
            got = []
            for _ in range(2):
                summary, viol, err = engine.in_child(mod, plan)
                if err:
                    raise core.HarnessError(f'{pid}: {err}')
                got.append((summary or {}).get('trace'))
            same = got[0] == got[1]
            print(f'{pid} smoke {"ok" if same else "NOT REPEATABLE"}', flush=True)
        else:
            ref = traces(pid, FULL, 8)
            same = True
            for hashseed, workers in (('0', 1), ('1', 8), ('777', 3)):
                env = dict(os.environ, PYTHONHASHSEED=hashseed)
                p = subprocess.run(
                    [sys.executable, os.path.join(os.path.dirname(HERE), 'check.py'),
                     'selftest', '--traces', pid, str(FULL), str(workers)],
                    env=env, stdout=subprocess.PIPE, text=True)
                line = [x for x in p.stdout.splitlines() if x.startswith('TRACES ')]
                if not line:
                    raise core.HarnessError(f'{pid}: {p.stdout[-2000:]}')
                other = json.loads(line[0][7:])
                diff = [i for i, t in ref.items() if other[str(i)] != t]
                if diff:
                    same = False
                    print(f'{pid} hashseed={hashseed} workers={workers}: runs '
                          f'{diff} differ', flush=True)
            print(f'{pid} {"deterministic" if same else "NOT DETERMINISTIC"} over '
                  f'{FULL} runs x 4 batches', flush=True)
        bad += not same
    return 2 if bad else 0
