"""Batch runner, minimiser, replay and evidence for the simulated checks.

A property module (sim/props/cNN.py) provides

    ID, RULE, REAL, STUB, ASSUMPTIONS, QUICK, THOROUGH   (QUICK: run count)
    generate(rng, index, tier) -> plan      JSON value, decides everything
    run(plan, ctx)                          raises core.Violation
    shrink(plan)                            yields simpler plans

Every execution is a function of (plan, code under test) and nothing else.
"""
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import core, cli

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('BEERSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)
RUN_LIMIT = 100          # real seconds after which one run counts as hung
KNOWN = os.path.join(VERIF, 'known-findings.json')


class Violation(Exception):
    'The code under test breaks the property.'

    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind, self.detail = kind, detail


core.Violation = Violation


class expect:
    '''Context manager: any exception inside (the artefacts of the code under
    test cannot be used) is a violation of that kind.'''

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, typ, exc, tb):
        if typ is None or issubclass(typ, (Violation, core.HarnessError,
                                           KeyboardInterrupt, core.SimKilled)):
            return False
        last = traceback.extract_tb(tb)[-1]
        raise Violation(f'unusable:{self.what}', f'{typ.__name__}: {exc} '
                        f'(at {os.path.basename(last.filename)}:{last.name})')


def check(cond, kind, detail=''):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)


class Ctx:
    'Collects what one run covered.'

    def __init__(self):
        self.ops = self.switches = self.steps = self.sims = 0
        self.simtime = 0.
        self.faults, self.probes, self.commands = {}, {}, {}
        self.hashes = []
        self.traces = []
        self.nontrivial = False
        self.fault_log = []
        self.findings = []

    def absorb(self, sim):
        self.sims += 1
        self.ops += sim.ioops
        self.steps += sim.steps
        self.switches += sim.switches
        self.simtime += sim.now
        for src, dst in ((sim.fault_fired, self.faults),
                         (sim.probes, self.probes),
                         (sim.commands, self.commands)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        self.hashes.append(sim.interleaving())
        self.traces.append(sim.fingerprint())
        self.fault_log += sim.fault_log[:20]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, *what):
        'Add to the measure of distinctness of this run.'
        self.hashes.append(hashlib.sha256(repr(what).encode()).hexdigest()[:12])

    def finding(self, key, text):
        self.findings.append((key, text))

    def summary(self):
        h = hashlib.sha256('/'.join(self.hashes).encode()).hexdigest()[:16]
        t = hashlib.sha256('/'.join(self.traces + self.hashes).encode()).hexdigest()[:16]
        return {'ops': self.ops, 'steps': self.steps, 'switches': self.switches,
                'simtime': self.simtime, 'faults': self.faults, 'sims': self.sims,
                'probes': self.probes, 'commands': self.commands,
                'distinct': h, 'trace': t, 'nontrivial': bool(self.nontrivial),
                'fault_log': self.fault_log[:20], 'findings': self.findings}


def prop(pid):
    return importlib.import_module(f'sim.props.{pid.lower()}')


class Hung(Exception):
    pass


def _alarm(signum, frame):
    raise Hung()


def execute(mod, plan):
    'One run.  Returns (summary, violation or None, harness error or None).'
    ctx = Ctx()
    core.fresh_interpreter()
    try:
        mod.run(plan, ctx)
        return ctx.summary(), None, None
    except Violation as v:
        return ctx.summary(), {'kind': v.kind, 'detail': str(v.detail)[:2000]}, None
    except core.StepLimit as e:
        return ctx.summary(), {'kind': 'no-progress', 'detail': str(e)}, None
    except Exception:
        return ctx.summary(), None, traceback.format_exc()


# ---------------------------------------------------------------------------
# Workers

def _worker(pid, jobs, results, seed, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = prop(pid)
    while True:
        block = jobs.get()
        if block is None:
            break
        for index in block:
            results.put(('start', os.getpid(), index, None))
            try:
                plan = make_plan(mod, seed, index, tier)
                out = execute(mod, plan)
            except BaseException:
                out = (None, None, traceback.format_exc())
                plan = None
            results.put(('done', os.getpid(), index, (plan,) + out))
    results.put(('exit', os.getpid(), None, None))


def make_plan(mod, seed, index, tier):
    rng = core.rng_for(seed, mod.ID, index)
    rng.base = seed            # for what the runs of a block share
    plan = mod.generate(rng, index, tier)
    plan.setdefault('property', mod.ID)
    plan.setdefault('seed', rng.getrandbits(40))
    # The plan must survive the trip through its replay file.
    return json.loads(json.dumps(plan))


def run_batch(pid, seed, tier, count, budget, verbose=False, start=0,
              stop_on_violation=True, workers=None):
    '''Run `count` plans (fewer if `budget` real seconds pass) over a pool of
    forked workers.'''
    mod = prop(pid)
    t0 = time.time()
    workers = workers or WORKERS
    ctx = mp.get_context('fork')
    jobs, results = ctx.Queue(), ctx.Queue()
    bsize = getattr(mod, 'BLOCK', 1)
    blocks = [list(range(i, min(i + bsize, start + count)))
              for i in range(start, start + count, bsize)]
    it = iter(blocks)
    procs = {}

    def launch():
        p = ctx.Process(target=_worker, args=(pid, jobs, results, seed, tier),
                        daemon=True)
        p.start()
        procs[p.pid] = [p, None, time.time()]

    outstanding = 0
    pending = {}
    for _ in range(workers):
        launch()
    for _ in range(workers + 1):
        b = next(it, None)
        if b is not None:
            jobs.put(b)
            outstanding += len(b)
    runs, violations, errors, hung = [], [], [], []
    blocks_left = True
    stop = False
    while outstanding > 0:
        try:
            kind, wpid, index, data = results.get(timeout=2)
        except Exception:
            kind = None
        now = time.time()
        if kind == 'start':
            if wpid in procs:
                procs[wpid][1], procs[wpid][2] = index, now
        elif kind == 'done':
            outstanding -= 1
            if wpid in procs:
                procs[wpid][1] = None
            plan, summary, viol, err = data
            if err is not None:
                errors.append((index, plan, err))
            else:
                runs.append((index, plan if len(runs) < 4 else None, summary))
                if viol is not None:
                    violations.append((index, plan, viol))
            if (viol is not None and stop_on_violation) or len(errors) > 20 \
                    or now - t0 > budget:
                stop = True
            if not stop:
                pending[wpid] = pending.get(wpid, 0) + 1
                if pending[wpid] >= bsize:
                    pending[wpid] = 0
                    b = next(it, None)
                    if b is not None:
                        jobs.put(b)
                        outstanding += len(b)
            elif stop_on_violation and violations:
                break
        # Hung or dead workers.
        for wpid, (p, index, since) in list(procs.items()):
            if index is not None and now - since > RUN_LIMIT:
                p.kill()
                p.join()
                hung.append(index)
                del procs[wpid]
                stop = True
                outstanding = 0
            elif not p.is_alive() and index is not None and kind is None:
                errors.append((index, None, f'worker died (exit {p.exitcode})'))
                del procs[wpid]
                outstanding = 0
    for p, _, _ in procs.values():
        p.kill()
    for p, _, _ in procs.values():
        p.join()
    for pid_ in list(procs):
        core.clean_scratch(pid_)
    for index in hung:
        violations.append((index, make_plan(mod, seed, index, tier),
                           {'kind': 'hang', 'detail':
                            f'still running after {RUN_LIMIT} s of real time'}))
    return {'runs': runs, 'violations': violations, 'errors': errors,
            'wall': time.time() - t0, 'hung': hung}


def in_child(mod, plan, limit=RUN_LIMIT):
    'execute() in a forked child: isolates the minimiser from hangs.'
    ctx = mp.get_context('fork')
    r, w = ctx.Pipe(False)

    def main():
        try:
            out = execute(mod, plan)
        except BaseException:
            out = (None, None, traceback.format_exc())
        w.send(out)
        w.close()
        os._exit(0)
    p = ctx.Process(target=main, daemon=True)
    p.start()
    w.close()
    out = None
    if r.poll(limit):
        try:
            out = r.recv()
        except EOFError:
            out = (None, None, 'worker died')
    else:
        out = (None, {'kind': 'hang', 'detail': 'no result'}, None)
    p.kill()
    p.join()
    core.clean_scratch(p.pid)
    return out


# ---------------------------------------------------------------------------
# Minimisation

def generic_shrink(plan):
    faults = plan.get('faults') or []
    for i in range(len(faults)):
        q = copy.deepcopy(plan)
        del q['faults'][i]
        yield q
    if plan.get('sched', {}).get('mode', 'fifo') != 'fifo':
        q = copy.deepcopy(plan)
        q['sched'] = {'mode': 'fifo'}
        yield q


def minimise(mod, plan, viol, budget=60., log=None):
    'Greedy shrinking while the same class of violation persists.'
    kind = viol['kind'].split(' ')[0]
    t0 = time.time()
    best, bestv = plan, viol
    limit = 30 if kind != 'hang' else 60
    progress, tried = True, 0
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in list(generic_shrink(best)) + list(mod.shrink(best)):
            if time.time() - t0 > budget:
                break
            try:
                cand = json.loads(json.dumps(cand))
            except (TypeError, ValueError):
                continue
            if cand == best:
                continue
            tried += 1
            _, v, err = in_child(mod, cand, limit)
            if err is None and v is not None and v['kind'].split(' ')[0] == kind:
                best, bestv, progress = cand, v, True
                break
    return best, bestv, tried


def dump_replay(pid, seed, index, plan, viol, original=None):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    name = f'{pid}-{seed}-{index}.json'
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'verif_seed': seed, 'index': index,
                   'violation': viol, 'plan': plan, 'original_plan': original},
                  f, indent=1, sort_keys=True)
    return path


# ---------------------------------------------------------------------------
# Known findings

def known_findings(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get('findings', []) if e['property'] == pid]


# ---------------------------------------------------------------------------
# One check

def run_check(pid, tier, seed):
    t0 = time.time()
    mod = prop(pid)
    conf = mod.QUICK if tier == 'quick' else mod.THOROUGH
    count, budget = conf
    scale = float(os.environ.get('BEERSIM_SCALE', '1'))
    count = max(1, int(count * scale))
    print(f'{pid} tier={tier} seed={seed} runs={count} workers={WORKERS}',
          flush=True)
    batch = run_batch(pid, seed, tier, count, budget)
    known = known_findings(pid)
    code = 0
    nviol = 0
    if batch['errors'] and not batch['violations']:
        for index, plan, err in batch['errors'][:3]:
            print(f'HARNESS ERROR property={pid} index={index}\n{err}', flush=True)
        code = 2
    reported = set()
    for index, plan, viol in sorted(batch['violations'], key=lambda x: x[0]):
        if viol['kind'] in reported:
            continue
        reported.add(viol['kind'])
        if len(reported) > 3:
            break
        _, again, err = in_child(mod, plan)
        if again is None:
            # Not reproducible: the machinery lost control of something.
            print(f'HARNESS ERROR property={pid} index={index} the violation '
                  f'{viol} did not replay ({err})', flush=True)
            code = code or 2
            continue
        small, sviol, tried = minimise(
            mod, plan, again, 60. if not os.environ.get('BEERSIM_NOMIN') else 0.)
        path = dump_replay(pid, seed, index, small, sviol, plan)
        nviol += 1
        code = 1
        print(f'violation: {sviol["kind"]}: {sviol["detail"]} '
              f'(seed {seed} run {index}, minimised in {tried} runs)')
        print(f'VIOLATION property={pid} replay={path}', flush=True)
    if nviol:
        code = 1
    # Known findings: dedicated deterministic probes of the property module.
    for entry in known:
        probe = getattr(mod, 'known_' + entry['id'].replace('-', '_'), None)
        if probe is None:
            raise core.HarnessError(f'no probe for {entry["id"]}')
        if probe():
            print(f'KNOWN-FINDING: property={pid} {entry["what"]}', flush=True)
    write_evidence(mod, pid, tier, seed, batch, nviol, time.time() - t0)
    n = len(batch['runs'])
    print(f'{pid}: {n} runs, {nviol} violations, {time.time() - t0:.1f} s', flush=True)
    return code


def write_evidence(mod, pid, tier, seed, batch, nviol, wall):
    runs = batch['runs']
    tot = {}

    def add(key, d):
        t = tot.setdefault(key, {})
        for k, v in d.items():
            t[k] = t.get(k, 0) + v
    distinct = set()
    nums = dict.fromkeys(('ops', 'steps', 'switches', 'sims', 'simtime'), 0)
    nontrivial = 0
    for _, _, s in runs:
        for k in nums:
            nums[k] += s[k]
        for k in ('faults', 'probes', 'commands'):
            add(k, s[k])
        if s['nontrivial']:
            nontrivial += 1
            distinct.add(s['distinct'])
    samples = [{'index': i, 'plan': p, 'distinct': s['distinct'],
                'fault_log': s['fault_log'][:5]}
               for i, p, s in runs if p is not None][:2]
    hours = max(batch['wall'], 1e-6) / 3600.
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(runs),
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples,
            'nontrivial_runs': nontrivial,
            'simulations': nums['sims'],
            'intercepted_operations': nums['ops'],
            'scheduler_steps': nums['steps'],
            'context_switches': nums['switches'],
            'simulated_seconds': round(nums['simtime'], 3),
            'runs_per_hour': int(len(runs) / hours),
            'faults_fired': tot.get('faults', {}),
            'probes': tot.get('probes', {}),
            'commands_run': tot.get('commands', {}),
            'real_components': mod.REAL, 'stubbed_components': mod.STUB,
            'workers': WORKERS,
            'harness_errors': len(batch['errors']),
        },
        'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f'{pid}.json'))
