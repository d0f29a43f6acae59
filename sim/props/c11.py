"""C11: reservation of a GPU under contention."""
import logging
import os

import torch

from .. import core
from ..engine import check

ID = 'C11'
QUICK, THOROUGH = (11900, 240), (150000, 800)
RULE = ('A run is a machine with 0-5 simulated devices (any indices, exclusive '
        'or shared, broken, hidden from nvidia-smi or not), 0-4 other users '
        'taking and releasing them on a random timetable and 1-5 processes '
        'calling reserve_gpu at random times, holding the device and exiting or '
        'being killed, under a seeded schedule of all nvidia-smi calls, '
        'allocations and sleeps, with failing or slow nvidia-smi, failing '
        'allocations, stalls and kills. Non-trivial: some process had to retry, '
        'lost a race or a fault fired; distinct by interleaving and outcomes.')
REAL = ['beer.utils.reserve_gpu and its helpers', 'subprocess call sites',
        'os.environ handling']
STUB = ['nvidia-smi, CUDA devices and their compute modes, other users, clock, '
        'process scheduling (simulator)']
ASSUMPTIONS = ['CUDA_VISIBLE_DEVICES is honoured at every allocation until the '
               'first one succeeds, and then stays fixed', 'an exclusive device '
               'refuses an allocation while another process holds it']
SCHEDS = ['fifo', 'lifo', 'uniform', 'uniform', 'pct', 'pct']
FACTORIES = ('zeros', 'ones', 'empty', 'tensor', 'full', 'rand', 'randn',
             'zeros_like', 'ones_like', 'empty_like', 'arange', 'eye')


def generate(rng, index, tier):
    ndev = rng.choice([0, 1, 1, 2, 2, 3, 4, 5] if rng.random() < .95 else [8, 12])
    # nvidia-smi lists devices in its own order.
    idxs = rng.sample(range(12), ndev) if rng.random() < .6 else list(range(ndev))
    allmode = rng.choice(['exclusive', 'shared', None])
    devs = []
    for i in idxs:
        devs.append({'idx': i, 'uuid': 'GPU-%08x' % rng.getrandbits(32),
                     'mode': allmode or rng.choice(['exclusive', 'shared']),
                     'broken': rng.random() < .12})
    wait = rng.choice([0, 1, 10, 10, 10, 0.5, 60])
    retry = rng.choice([1, 1, 2, 3, 5, 12, 12, 0, 30])
    horizon = wait * retry
    users = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6]) if devs else 0):
        d = rng.choice(devs)['idx']
        start = rng.choice([0, 0, rng.uniform(0, horizon + 1)])
        users.append({'dev': d, 'start': round(start, 2),
                      'dur': round(rng.choice([rng.uniform(0, 2 * wait + .5),
                                               rng.uniform(0, horizon + 1),
                                               1e6]), 2),
                      'hidden': rng.random() < .2})
    procs = []
    same = rng.random() < .5
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5] if rng.random() < .97 else [9])):
        w, r = (wait, retry) if same else (rng.choice([0, 1, 10, 3]),
                                           rng.choice([1, 2, 3, 6, 12]))
        procs.append({'wait': w, 'retry': r,
                      'default': same and (w, r) == (10, 12) and rng.random() < .7,
                      'logger': rng.choice(['none', 'real', 'real', 'quiet']),
                      'start': rng.choice([0, 0, 0, round(rng.uniform(0, horizon + 1), 2)]),
                      'hold': round(rng.choice([0, rng.uniform(0, horizon + 1), 1e5]), 2),
                      'again': rng.random() < .1,
                      'env': rng.choice([None, None, None, '', '0', '7', '0,1'])})
    faults = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        faults.append({'proc': f'r{rng.randrange(len(procs))}',
                       'kind': rng.choice(['kill', 'stall', 'nomem', 'smi', 'smi']),
                       'n': rng.randrange(0, rng.choice([3, 6, 30])),
                       'delay': round(rng.choice([.5, wait, 5 * wait + 1]), 2)})
    return {'devs': devs, 'users': users, 'procs': procs, 'faults': faults,
            'sched': {'mode': rng.choice(SCHEDS), 'change': rng.choice([.05, .2, .5])}}


def shrink(plan):
    for key in ('users', 'devs'):
        for i in range(len(plan[key])):
            q = dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
            have = {d['idx'] for d in q['devs']}
            if all(u['dev'] in have for u in q['users']):
                yield q
    if len(plan['procs']) > 1:
        q = dict(plan, procs=plan['procs'][:-1])
        last = f'r{len(plan["procs"]) - 1}'
        q['faults'] = [f for f in plan['faults'] if f['proc'] != last]
        yield q
    for i, p in enumerate(plan['procs']):
        for k, v in (('start', 0), ('logger', 'none'), ('env', None),
                     ('again', False), ('hold', 1e5)):
            if p[k] != v:
                q = dict(plan, procs=[dict(x) for x in plan['procs']])
                q['procs'][i][k] = v
                yield q


class Refused(RuntimeError):
    pass


class Machine:
    'The devices, who holds them, and the log of everything that happened.'

    def __init__(self, sim, plan):
        self.sim = sim
        self.dev = {d['idx']: d for d in plan['devs']}
        self.order = [d['idx'] for d in plan['devs']]
        self.holders = {i: [] for i in self.order}      # (who, hidden)
        self.log = []           # (time, what, who, ...)
        self.pinned = {}
        self.smifail = {}

    def allocatable(self, idx):
        d = self.dev[idx]
        return not d['broken'] and not (d['mode'] == 'exclusive'
                                        and self.holders[idx])

    def rec(self, what, who, *rest):
        self.log.append((self.sim.now, what, who) + rest)

    def state(self):
        return {i: self.allocatable(i) for i in self.order}

    def take(self, who, idx, hidden=False):
        if not self.allocatable(idx):
            return False
        if not any(w == who for w, _ in self.holders[idx]):
            self.holders[idx].append((who, hidden))
        self.rec('take', who, idx, self.state())
        return True

    def release(self, who):
        for i, h in self.holders.items():
            h[:] = [x for x in h if x[0] != who]
        self.rec('release', who, None, self.state())

    # -- nvidia-smi ---------------------------------------------------------
    def shell(self, p, cmd):
        if 'nvidia-smi' not in cmd:
            return 127, b'', b'not found'
        f = self.smifail.get(p.name)
        for w in f or ():
            if p.opcls.get('exec', 0) - 1 >= w['n']:
                f.remove(w)
                self.sim.fault_fired['smi'] = self.sim.fault_fired.get('smi', 0) + 1
                self.rec('smifail', p.name)
                return 9, b'', b'NVIDIA-SMI has failed'
        sep = ', '
        if '--query-compute-apps' in cmd:
            fields = cmd.split('--query-compute-apps=')[1].split()[0].strip('\'"')
            rows = [(i, w) for i in self.order for w, hid in self.holders[i]
                    if not hid]
            seen = tuple(sorted({i for i, _ in rows}))
            self.rec('look', p.name, seen, self.state())
            get = lambda f, r: self.field(f, r[0])
        elif '--query-gpu' in cmd:
            fields = cmd.split('--query-gpu=')[1].split()[0].strip('\'"')
            rows = [(i, None) for i in self.order]
            self.rec('list', p.name)
            get = lambda f, r: self.field(f, r[0])
        else:
            return 6, b'', b'unknown option'
        out = []
        if 'noheader' not in cmd:
            out.append(sep.join(fields.split(',')))
        for r in rows:
            out.append(sep.join(get(f, r) for f in fields.split(',')))
        return 0, ''.join(x + '\n' for x in out).encode(), b''

    def field(self, f, i):
        d = self.dev[i]
        return {'gpu_uuid': d['uuid'], 'uuid': d['uuid'], 'index': str(i),
                'gpu_name': 'Sim GPU', 'name': 'Sim GPU', 'pid': '4242',
                'compute_mode': 'Exclusive_Process' if d['mode'] == 'exclusive'
                else 'Default'}.get(f, '[N/A]')

    # -- CUDA ---------------------------------------------------------------
    def alloc(self, ordinal):
        p = self.sim.current
        env = os.environ.get('CUDA_VISIBLE_DEVICES')
        if p.name in self.pinned:
            vis = self.pinned[p.name]
        elif env is None:
            vis = sorted(self.order)
        else:
            vis = []
            for x in env.split(','):
                x = x.strip()
                m = [i for i in self.order if str(i) == x or
                     (x.startswith('GPU-') and self.dev[i]['uuid'] == x)]
                if not m:
                    break
                vis += m
        idx = vis[ordinal] if ordinal < len(vis) else None
        try:
            self.sim.op('gpu', f'cuda:{idx}')
        except core.SimKilled:
            raise
        except BaseException:
            self.rec('alloc', p.name, idx, False, True)
            raise
        if idx is None:
            self.rec('alloc', p.name, None, False, False)
            raise Refused('no CUDA-capable device is detected')
        ok = self.take(p.name, idx)
        self.rec('alloc', p.name, idx, ok, False)
        if not ok:
            raise Refused('CUDA error: all CUDA-capable devices are busy or '
                          'unavailable')
        self.pinned[p.name] = vis


def ordinal(device):
    'Device argument -> ordinal of a CUDA device, or None.'
    if device is None:
        return None
    if isinstance(device, int) and not isinstance(device, bool):
        return device
    dev = torch.device(device)
    return (dev.index or 0) if dev.type == 'cuda' else None


class gpus:
    'Simulated devices behind the torch functions that allocate on them.'

    def __init__(self, machine):
        self.m = machine

    def __enter__(self):
        self.saved = {n: getattr(torch, n) for n in FACTORIES}
        for name, orig in self.saved.items():
            setattr(torch, name, self.wrap(orig))
        T = torch.Tensor
        self.cuda, self.to = T.cuda, T.to
        m = self.m

        def cuda(t, device=None, *args, **kw):
            m.alloc(ordinal(device) or 0)
            return t

        def to(t, *args, **kw):
            dev = kw.get('device', args[0] if args else None)
            if isinstance(dev, (str, torch.device)):
                o = ordinal(dev)
                if o is not None:
                    m.alloc(o)
                    kw.pop('device', None)
                    args = args[1:] if args and args[0] is dev else args
                    if not args and not kw:
                        return t
            return self.to(t, *args, **kw)
        T.cuda, T.to = cuda, to
        return self

    def wrap(self, orig):
        def factory(*args, **kw):
            o = ordinal(kw.get('device'))
            if o is not None:
                self.m.alloc(o)
                kw['device'] = 'cpu'
            return orig(*args, **kw)
        return factory

    def __exit__(self, *exc):
        for name, orig in self.saved.items():
            setattr(torch, name, orig)
        torch.Tensor.cuda, torch.Tensor.to = self.cuda, self.to
        return False


def run(plan, ctx):
    import beer
    faults = [f for f in plan['faults'] if f['kind'] != 'smi']
    with core.Scratch() as root, core.Sim(plan['seed'], root, plan['sched'],
                                          faults) as sim:
        m = Machine(sim, plan)
        sim.shell = m.shell
        for f in plan['faults']:
            if f['kind'] == 'smi':
                m.smifail.setdefault(f['proc'], []).append(f)
        base = {k: v for k, v in os.environ.items()
                if k != 'CUDA_VISIBLE_DEVICES'}
        results = {}

        def reserver(i, spec):
            def body():
                name = f'r{i}'
                import time
                log = None
                if spec['logger'] != 'none':
                    log = logging.getLogger('reserver')
                    log.setLevel(logging.DEBUG if spec['logger'] == 'real'
                                 else logging.WARNING)
                if spec['start']:
                    time.sleep(spec['start'])
                for k in range(2 if spec['again'] else 1):
                    m.rec('begin', name)
                    kw = {} if spec['default'] else {
                        'max_retry': spec['retry'], 'wait_time': spec['wait']}
                    if log is not None:
                        kw['logger'] = log
                    try:
                        got = beer.utils.reserve_gpu(**kw)
                    except core.SimKilled:
                        raise
                    except BaseException as e:
                        m.rec('error', name, type(e).__name__,
                              isinstance(e, beer.utils.NoGPUAvailable))
                        return None
                    held = [d for d in m.order
                            if any(w == name for w, _ in m.holders[d])]
                    m.rec('end', name, got, os.environ.get('CUDA_VISIBLE_DEVICES'),
                          held)
                    if spec['again']:
                        m.release(name)
                        m.pinned.pop(name, None)
                time.sleep(spec['hold'])
                return got
            return body

        def gone(p):
            m.release(p.name)

        def user(i, spec):
            def body():
                import time
                time.sleep(spec['start'])
                m.sim.op('gpu', f'user{i}')
                if m.take(f'u{i}', spec['dev'], spec['hidden']):
                    time.sleep(spec['dur'])
            return body

        for i, u in enumerate(plan['users']):
            sim.spawn(f'u{i}', user(i, u), env=base, on_exit=gone)
        for i, s in enumerate(plan['procs']):
            env = dict(base)
            if s['env'] is not None:
                env['CUDA_VISIBLE_DEVICES'] = s['env']
            sim.spawn(f'r{i}', reserver(i, s), env=env, on_exit=gone)
        with gpus(m):
            sim.run()
        ctx.absorb(sim)
        for i, s in enumerate(plan['procs']):
            p = next(p for p in sim.procs if p.name == f'r{i}')
            judge(plan, ctx, m, p, s, .001 * sim.ioops + .01)
        if any(p.fired for p in sim.procs) or sim.fault_fired:
            ctx.nontrivial = True
        ctx.note([(e[1], e[2]) for e in m.log if e[1] in ('end', 'error', 'take')])


def judge(plan, ctx, m, p, spec, slack):
    'slack: time all operations of the run took together.'
    name = p.name
    log = m.log
    begins = [k for k, e in enumerate(log) if e[1] == 'begin' and e[2] == name]
    killed = p.code == -9
    stalled = any(f['kind'] == 'stall' for f in p.fired)
    for b in begins:
        stop = next((k for k in range(b + 1, len(log)) if log[k][2] == name and
                     log[k][1] in ('end', 'error')), None)
        mine = [(k, e) for k, e in enumerate(log[b:stop and stop + 1], b)
                if e[2] == name]
        looks = [(k, e) for k, e in mine if e[1] == 'look']
        allocs = [(k, e) for k, e in mine if e[1] == 'alloc']
        disturbed = any(e[1] == 'smifail' for _, e in mine) or \
            any(f['kind'] == 'nomem' for f in p.fired)
        retry, wait = spec['retry'], spec['wait']
        # Never joins a device it was told is in use.
        for k, e in allocs:
            seen = [l for kk, l in looks if kk < k]
            check(seen, 'blind-allocation', lambda: f'{name} allocated on device '
                  f'{e[3]} without looking at what is in use')
            check(e[3] is None or e[3] not in seen[-1][3], 'busy-device',
                  lambda: f'{name} allocated on device {e[3]} although '
                  f'{seen[-1][3]} were reported in use')
        # Polling: the configured pause between attempts, and no more attempts
        # than configured.
        check(len(looks) <= max(retry, 0), 'too-many-attempts', lambda:
              f'{name}: {len(looks)} attempts, {retry} configured')
        for (_, a), (_, c) in zip(looks, looks[1:]):
            gap = c[0] - a[0]
            check(gap >= wait - 1e-6, 'attempts-too-fast', lambda: f'{name}: '
                  f'{gap:.3f} s between two attempts, {wait} s configured')
            if not stalled:
                check(gap <= wait + slack, 'waits-too-long', lambda:
                      f'{name}: {gap:.3f} s between two attempts, {wait} s '
                      'configured')
        if len(looks) > 1:
            ctx.nontrivial = True
            ctx.probe('retries', len(looks) - 1)
        if any(not e[4] for _, e in allocs):
            ctx.nontrivial = True
            ctx.probe('lost races')
        # A device that is reported free and stays allocatable until the
        # attempt is over must be taken in that attempt.
        ends = [k for k, _ in looks[1:]] + [stop if stop is not None else None]
        for (k, look), end in zip(looks, ends):
            if end is None:
                continue
            last = end == stop
            if last and log[end][1] == 'end':
                continue
            if last and log[end][1] == 'error' and not log[end][4]:
                continue            # the machine itself failed
            # The pause that follows the attempt is not part of it.
            tend = look[0] + slack
            failed = {e[3] for kk, e in allocs if k < kk <= end and e[5]}
            free = {i for i, ok in look[4].items() if ok} - set(look[3]) - failed
            lost = set()
            for kk in range(k, end):
                e = log[kk]
                if e[1] in ('take', 'release') and (stalled or e[0] <= tend):
                    lost |= {i for i, ok in e[4].items() if not ok}
            free -= lost
            check(not free, 'free-device-missed', lambda: f'{name}: devices '
                  f'{sorted(free)} were free during attempt at t={look[0]:.3f} '
                  'and none was reserved')
        if stop is None:
            check(killed, 'no-answer', f'{name}: {p.error}')
            continue
        e = log[stop]
        if e[1] == 'end':
            got, env, held = e[3], e[4], e[5]
            check(isinstance(got, int) and got in m.dev, 'bad-index',
                  lambda: f'{name}: returned {got!r}')
            check(env is not None and env.strip() == str(got), 'wrong-visible',
                  lambda: f'{name}: returned {got}, CUDA_VISIBLE_DEVICES={env!r}')
            check(held == [got], 'not-reserved', lambda: f'{name}: returned {got} '
                  f'but holds {held}')
            ctx.probe('reserved')
        elif e[4]:
            check(len(looks) == max(retry, 0), 'gave-up-early', lambda: f'{name}: '
                  f'failed after {len(looks)} attempts, {retry} configured')
            held = [d for d in m.order if any(w == name for w, _ in m.holders[d])]
            took = [x for _, x in allocs if x[4]]
            check(not took, 'failed-but-holds', lambda: f'{name}: reported '
                  f'failure and holds {took}')
            ctx.probe('gave up')
        else:
            check(disturbed, 'unexpected-error', lambda: f'{name}: {e[3]}')
            ctx.probe('failed loudly')

