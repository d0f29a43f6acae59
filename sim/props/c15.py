"""C15: partial objectives can be reduced in any order and any tree."""
import os
import pickle
import random
import time

import numpy as np
import torch

from .. import core, lab as L, train as T, zoo
from ..engine import check, expect

ID = 'C15'
QUICK, THOROUGH = (800, 200), (20000, 850)
RULE = ('A run trains one model of the zoo for one to three rounds on '
        'simulated nodes. In a round every node loads the serialised model, '
        'evaluates its batches and the nodes reduce their objectives along a '
        'random tree through a simulated network that delays, reorders, '
        'duplicates and loses messages (retransmitted until acknowledged) and '
        'cuts links for a while; nodes are killed and restarted with only '
        'their acknowledged messages. On each node the parts, empty '
        'objectives included, are combined in an order drawn at random. The '
        'total value, the statistics of every parameter, the operands after '
        'each combination and the update are compared with sums computed '
        'outside the code under test. Local runs do the same inside one '
        'process (variational auto-encoders and subspace models with the '
        'gradient of their other parameters) and without reconnection to the '
        'model. Non-trivial: at least two non-empty objectives combined; '
        'distinct by family, batches, tree and interleaving.')
REAL = ['beer.evidence_lower_bound and its sums, sync, backward', 'models, '
        'parameters, optimizer', 'pickle of models and objectives',
        'inbox files on a scratch directory']
STUB = ['network between nodes, scheduling, clock, process death (simulator)',
        'uuid4']
ASSUMPTIONS = ['an acknowledged message is durable on the receiver',
               'replicas are loaded from the same serialised model',
               'relative tolerance 1e-8 in double precision']
TOL = 1e-8
LOCAL = ['vae', 'vae_mix', 'gsm', 'gsm_full', 'gsm_hmm']


def gen_tree(rng, n):
    'Parent of every node but the root 0.'
    shape = rng.choice(['random', 'chain', 'star'])
    if shape == 'star':
        return [None] + [0] * (n - 1)
    if shape == 'chain':
        return [None] + list(range(n - 1))
    return [None] + [rng.randrange(i) for i in range(1, n)]


def generate(rng, index, tier):
    mode = rng.choice(['net', 'net', 'net', 'local', 'local', 'grad'])
    fams = LOCAL if mode == 'grad' else zoo.CONJUGATE
    spec = zoo.gen_spec(rng, fams, nutts=rng.randint(2, 5))
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3]) if mode == 'net' else rng.choice([1, 2])):
        n = (rng.randint(1, 5) if rng.random() < .95 else 11) \
            if mode == 'net' else 1
        batch = zoo.gen_batch(rng, spec, full=rng.random() < .6)
        if rng.random() < .2:
            batch += zoo.gen_batch(rng, spec)
        parts = T.split(rng, batch, n)
        rounds.append({'parts': parts, 'parent': gen_tree(rng, n),
                       'empties': [rng.choice([0, 0, 1, 1, 2]) for _ in range(n)],
                       'order': rng.getrandbits(30),
                       'lr': rng.choice([1., .5, .1]),
                       'datasize': rng.choice(['all', 'all', 'batch', 'big', 'one'])})
    plan = {'mode': mode, 'spec': spec, 'rounds': rounds, 'sched': T.gen_sched(rng),
            'faults': [], 'net': {}, 'two': mode == 'local' and rng.random() < .5}
    if mode == 'net':
        plan['net'] = {'loss': rng.choice([0, 0, .2, .5]),
                       'dup': rng.choice([0, .2, .5]),
                       'delay': rng.choice([.01, 1., 30.]),
                       'seed': rng.getrandbits(30),
                       'cuts': [[rng.randrange(5), round(rng.random() * 20, 1),
                                 rng.choice([1., 50., 4000.])]
                                for _ in range(rng.choice([0, 0, 1, 2]))]}
        for _ in range(rng.choice([0, 0, 1, 2])):
            r = rng.randrange(len(rounds))
            plan['faults'].append(
                {'proc': f'r{r}n{rng.randrange(len(rounds[r]["parts"]))}#0',
                 'kind': rng.choice(['kill', 'kill', 'stall']),
                 'n': rng.randint(0, 12), 'frac': round(rng.random(), 2),
                 'delay': rng.choice([1., 600.])})
    return plan


def shrink(plan):
    if plan['net'].get('cuts'):
        yield dict(plan, net=dict(plan['net'], cuts=[]))
    for k in ('loss', 'dup'):
        if plan['net'].get(k):
            yield dict(plan, net=dict(plan['net'], **{k: 0}))
    rs = plan['rounds']
    if len(rs) > 1:
        for i in range(len(rs)):
            yield dict(plan, rounds=rs[:i] + rs[i + 1:])
    for i, r in enumerate(rs):
        def put(**kw):
            return dict(plan, rounds=rs[:i] + [dict(r, **kw)] + rs[i + 1:])
        for j, part in enumerate(r['parts']):
            for k in range(len(part)):
                yield put(parts=r['parts'][:j] + [part[:k] + part[k + 1:]]
                          + r['parts'][j + 1:])
            for k, (u, kw) in enumerate(part):
                if kw:
                    yield put(parts=r['parts'][:j]
                              + [part[:k] + [[u, {}]] + part[k + 1:]]
                              + r['parts'][j + 1:])
        if any(r['empties']):
            yield put(empties=[0] * len(r['empties']))
        n = len(r['parts'])
        if n > 1:
            yield put(parts=[sum(r['parts'], [])], parent=[None],
                      empties=[sum(r['empties'])])
        if r['datasize'] != 'all':
            yield put(datasize='all')


def size_of(r, X):
    batch = sum(r['parts'], [])
    n = sum(len(X[u]) for u, _ in batch)
    full = sum(map(len, X))
    return {'all': full, 'batch': n or full, 'big': 1000 * full, 'one': 1}[r['datasize']]


# ---------------------------------------------------------------------------

def one(spec, model, X, item, N):
    'Objective of one utterance, through the public function only.'
    import beer
    u, kw = item
    return beer.evidence_lower_bound(model, X[u], datasize=N,
                                     **zoo.kwargs(spec, kw, len(X[u]), model))


def look(elbo, blank, empty=False):
    '''What an objective says, through its public interface and without
    touching it: (value, statistics of every parameter after backward).'''
    e, m = pickle.loads(pickle.dumps(elbo)), blank
    for p in m.bayesian_parameters():
        p.stats = torch.zeros_like(p.stats)
    e.sync(m)
    value = float(e)
    if empty:
        return value, None
    e.backward()
    return value, [p.stats.detach().double().numpy().copy()
                   for p in m.bayesian_parameters()]


def same(a, b, kind, what, tol=TOL):
    check(L.relerr(a[0], b[0]) <= tol, f'{kind}-value',
          lambda: f'{what}: {a[0]!r} vs {b[0]!r}')
    check((a[1] is None) == (b[1] is None), f'{kind}-statistics',
          f'{what}: only one of them is empty')
    for i, (x, y) in enumerate(zip(a[1] or [], b[1] or [])):
        e = L.relerr(x, y)
        check(e <= tol, f'{kind}-statistics',
              lambda: f'{what}: parameter {i} differs by {e:.3g}\n{x}\n{y}')


class Truth:
    '''Sums over single objectives done outside the code under test.  An
    objective is described by (value, total statistics, frames).'''

    def __init__(self, N):
        self.N = N

    def single(self, seen, frames):
        value, stats = seen
        return value, [s * frames / self.N for s in stats], frames

    def empty(self):
        return 0., None, 0

    def add(self, a, b):
        stats = a[1] if b[1] is None else b[1] if a[1] is None else \
            [x + y for x, y in zip(a[1], b[1])]
        return a[0] + b[0], stats, a[2] + b[2]

    def seen(self, t):
        if not t[2]:
            return t[0], None
        return t[0], [s * (self.N / t[2]) for s in t[1]]


class Both:
    'Two models with common parameters, optimised together.'

    def __init__(self, models):
        self.models = models

    def bayesian_parameters(self):
        seen = []
        for m in self.models:
            for p in m.bayesian_parameters():
                if not any(p is q for q in seen):
                    seen.append(p)
        return seen

    def conjugate_bayesian_parameters(self, keepgroups=False):
        return [self.bayesian_parameters()]


def second(spec, model):
    'Another model with the same emissions.'
    import beer
    fam = spec['family']
    torch.manual_seed(spec['seed'] + 1)
    if fam.startswith('mixture'):
        return beer.Mixture.create(model.modelset, prior_strength=spec['conc'])
    g, start, end, n = zoo.loop_graph(spec)
    ms = getattr(model.modelset, 'original_modelset', model.modelset)
    if fam in zoo.HMMS:
        return beer.HMM.create(g, ms)
    return beer.PhoneLoop.create(g, start, end, ms)


def blank_of(model):
    return pickle.loads(pickle.dumps(model))


def refused(f, kind, what):
    try:
        f()
    except ValueError:
        return
    except Exception as e:
        check(False, kind, f'{what}: {type(e).__name__}: {e}')
    check(False, kind, f'{what}: accepted')


def combine(parts, rng, truth, blank, what, ctx):
    '''Combine [(objective, truth)] in a random order and grouping.'''
    import beer
    parts = list(parts)
    if not parts:
        parts = [(beer.evidence_lower_bound(datasize=truth.N), truth.empty())]
    while len(parts) > 1:
        i = rng.randrange(len(parts))
        a, ta = parts.pop(i)
        j = rng.randrange(len(parts))
        b, tb = parts.pop(j)
        with expect('sum'):
            c = a + b
        for side, x, t in (('left', a, ta), ('right', b, tb)):
            same(truth.seen(t), look(x, blank, not t[2]), 'operand-changed',
                 f'{what}: {side} operand')
        if rng.random() < .2:            # both are still good for another sum
            c = b + a
        tc = truth.add(ta, tb)
        same(truth.seen(tc), look(c, blank, not tc[2]), 'sum', what)
        ctx.nontrivial |= bool(ta[2] and tb[2])
        parts.append((c, tc))
    return parts[0]


def refusals(e, N, what):
    import beer
    for other in (N + 1, 2 * N):
        o = beer.evidence_lower_bound(datasize=other)
        refused(lambda: e + o, 'mixed-data-sets', f'{what}: {N} + {other}')
        refused(lambda: o + e, 'mixed-data-sets', f'{what}: {other} + {N}')
    for o in (1., None):
        refused(lambda: e + o, 'mixed-types', f'{what} + {o!r}')


def ref_update(model, stats, N, order, lr):
    'Model updated with statistics computed outside.'
    gs = [list(g) for g in zoo.groups(model)]
    params = list(model.bayesian_parameters())
    for p in gs[order % len(gs)]:
        k = [i for i, q in enumerate(params) if q is p]
        s = torch.zeros_like(p.stats) if stats is None \
            else torch.as_tensor(stats[k[0]], dtype=p.stats.dtype)
        p.store_stats(s)
        p.natural_grad_update(lr)


def run(plan, ctx):
    with zoo.double(), core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        spec = plan['spec']
        X = zoo.data(spec)
        if plan['mode'] == 'net':
            run_net(plan, ctx, sim, root, spec, X)
        else:
            f = run_local if plan['mode'] == 'local' else run_grad
            p = sim.spawn('main', lambda: f(plan, ctx, spec, X))
            sim.run()
            if isinstance(p.exc, core.Violation):
                raise p.exc
            check(p.ok, 'operation-failed', lambda: f'{p.error}\n{p.tb}')
        ctx.probe(plan['mode'] + ' ' + spec['family'])
        ctx.note(spec['family'], plan['mode'],
                 [(r['parts'], r['parent'], r['empties'], r['order'])
                  for r in plan['rounds']])
        ctx.absorb(sim)


# ---------------------------------------------------------------------------
# Distributed

class Net:
    'Lossy network between the nodes of a round.'

    def __init__(self, sim, cfg, ctx):
        self.sim, self.cfg, self.ctx = sim, cfg, ctx
        self.rng = random.Random(cfg['seed'])
        self.boxes = {}

    def send(self, src, dst, msg):
        self.sim.op('net', f'{src}->{dst}')
        r, cfg, now = self.rng, self.cfg, self.sim.now
        n = 1 + (r.random() < cfg['dup'])
        if n > 1:
            self.sim.fault_fired['duplicate'] = self.sim.fault_fired.get('duplicate', 0) + 1
        for _ in range(n):
            cut = any(node in (src[1], dst[1]) and at <= now < at + d
                      for node, at, d in cfg['cuts'])
            if cut or r.random() < cfg['loss']:
                k = 'partition' if cut else 'message loss'
                self.sim.fault_fired[k] = self.sim.fault_fired.get(k, 0) + 1
                continue
            at = now + r.random() * cfg['delay']
            self.boxes.setdefault(dst, []).append((at, len(self.boxes), msg))

    def receive(self, dst):
        'Messages that have arrived.'
        self.sim.op('net', f'{dst}?')
        box = self.boxes.get(dst, [])
        out = sorted((m for m in box if m[0] <= self.sim.now), key=lambda m: m[:2])
        self.boxes[dst] = [m for m in box if m[0] > self.sim.now]
        return [m[2] for m in out]


def run_net(plan, ctx, sim, root, spec, X):
    import beer
    with expect('model'):
        first = zoo.build(spec)
    with open(f'{root}/m0', 'wb') as f:
        pickle.dump(first, f)
    lonely = pickle.loads(pickle.dumps(first))        # never distributed
    net = Net(sim, plan['net'], ctx)

    for r, rnd in enumerate(plan['rounds']):
        n = len(rnd['parts'])
        N = size_of(rnd, X)
        truth = Truth(N)
        kids = {i: [j for j in range(n) if rnd['parent'][j] == i] for i in range(n)}
        result = {}
        with expect('replica'), open(f'{root}/m{r}', 'rb') as f:
            blank = blank_of(pickle.load(f))

        # What each node should contribute, outside the simulated nodes.
        ref = []
        with expect('evaluation'):
            for part in rnd['parts']:
                t = truth.empty()
                for item in part:
                    e = one(spec, lonely, X, item, N)
                    t = truth.add(t, truth.single(look(e, blank), len(X[item[0]])))
                ref.append(t)
        below = {}
        for i in reversed(range(n)):
            t = ref[i]
            for j in kids[i]:
                t = truth.add(t, below[j])
            below[i] = t

        def node(i, k):
            def body():
                order = random.Random(f'{rnd["order"]}/{i}/{k}')
                me, inbox = (r, i), f'{root}/r{r}n{i}'
                os.makedirs(inbox, exist_ok=True)
                with open(f'{root}/m{r}', 'rb') as f:
                    model = pickle.load(f)
                parts = []
                for item in rnd['parts'][i]:
                    e = one(spec, model, X, item, N)
                    parts.append((e, truth.single(look(e, blank), len(X[item[0]]))))
                nothing = beer.evidence_lower_bound(datasize=N)
                for _ in range(rnd['empties'][i]):
                    parts.insert(order.randrange(len(parts) + 1),
                                 (nothing, truth.empty()))
                # Some of it before, some of it after the messages.
                cut = order.randrange(len(parts) + 1)
                if cut:
                    parts = parts[cut:] + [combine(parts[:cut], order, truth, blank,
                                                   f'node {i}', ctx)]
                missing = set(kids[i])
                while missing and not stop:
                    for src, msg in net.receive(me):
                        path = f'{inbox}/{src}'
                        if not os.path.exists(path):
                            with open(path + '.tmp', 'wb') as f:
                                f.write(msg)
                            os.replace(path + '.tmp', path)
                        net.send(me, (r, src), ('ack', i))
                    missing = {j for j in kids[i]
                               if not os.path.exists(f'{inbox}/{j}')}
                    if missing:
                        time.sleep(2.)
                if stop:
                    return
                arrived = list(kids[i])
                order.shuffle(arrived)
                for j in arrived:
                    with open(f'{inbox}/{j}', 'rb') as f:
                        e = pickle.loads(f.read())
                    same(truth.seen(below[j]), look(e, blank, not below[j][2]), 'message',
                         f'round {r}: node {i} receives {j}')
                    parts.append((e, below[j]))
                    ctx.probe('objectives received')
                order.shuffle(parts)
                total, t = combine(parts, order, truth, blank, f'node {i}', ctx)
                refusals(total, N, f'node {i}')
                same(truth.seen(below[i]), look(total, blank, not t[2]), 'subtree',
                     f'round {r}: node {i}')
                if i:
                    # Keep answering: the children may have missed the ack.
                    msg = pickle.dumps(total)
                    acked = False
                    while not acked and not stop:
                        net.send(me, (r, rnd['parent'][i]), (i, msg))
                        time.sleep(5.)
                        acked = serve(me, i)
                    # The sender's own object survived the sending.
                    same(truth.seen(below[i]), look(total, blank, not t[2]), 'sent',
                         f'round {r}: node {i}')
                    left.discard(i)
                else:
                    update(model, total)
                    left.discard(0)
                while left and not stop:                  # answers late retransmissions
                    serve(me, i)
                    time.sleep(5.)
            return body

        def serve(me, i):
            acked = False
            for m in net.receive(me):
                if m[0] == 'ack':
                    acked = True
                else:
                    net.send(me, (r, m[0]), ('ack', i))
            return acked

        def update(model, total):
            groups = zoo.groups(model)
            opt = beer.VBConjugateOptimizer(groups, lrate=rnd['lr'])
            opt.update_count = r
            total.sync(model)
            opt.init_step()
            if below[0][2]:
                total.backward()
            opt.step()
            result['model'] = model
            with open(f'{root}/m{r + 1}.tmp', 'wb') as f:
                pickle.dump(model, f)
            os.replace(f'{root}/m{r + 1}.tmp', f'{root}/m{r + 1}')
            if below[0][2]:
                same(truth.seen(below[0]), look(total, blank), 'used',
                     f'round {r}: after the update')

        # Nodes restart when they die; a node that is done stays until all are.
        left = set(range(n))
        stop, procs = [], {}

        def start(i, k):
            def again(p):
                if p.code not in (0, -9):
                    stop.append(p.name)
                if p.code == -9 or (p.tainted and not p.ok):
                    if not left:
                        return           # everybody is done
                    left.add(i)
                    if k < 4:
                        start(i, k + 1)
            procs[i] = sim.spawn(f'r{r}n{i}#{k}', node(i, k), on_exit=again)

        for i in range(n):
            start(i, 0)
        sim.run()
        for i in range(n):
            p = procs[i]
            if isinstance(p.exc, core.Violation):
                raise p.exc
            check(p.ok or stop and p.name not in stop or p.code == -9, 'operation-failed', lambda: f'{p.name}: {p.error}\n{p.tb}')
        check(not left, 'no-result', f'round {r}')

        with expect('update'):
            ref_update(lonely, truth.seen(below[0])[1], N, r, rnd['lr'])
            with open(f'{root}/m{r + 1}', 'rb') as f:
                got = pickle.load(f)
        L.compare_states(zoo.state(lonely), zoo.state(got), 1e-7, 'update',
                         f'round {r}')
        lonely = got


# ---------------------------------------------------------------------------
# One process, no serialisation: the handles are the ones of the model

def run_local(plan, ctx, spec, X):
    import beer
    model = zoo.build(spec)
    several = [model]
    if plan.get('two') and spec['family'] not in zoo.DENSITY:
        several.append(second(spec, model))
        model = Both(several)
        ctx.probe('two models with common parameters')
    for r, rnd in enumerate(plan['rounds']):
        N = size_of(rnd, X)
        truth = Truth(N)
        blank = blank_of(model)
        rng = random.Random(rnd['order'])
        lonely = pickle.loads(pickle.dumps(model))
        items = sum(rnd['parts'], [])
        parts = []
        for k, item in enumerate(items):
            e = one(spec, several[k % len(several)], X, item, N)
            parts.append((e, truth.single(look(e, blank), len(X[item[0]]))))
        flat = truth.empty()
        for _, t in parts:
            flat = truth.add(flat, t)
        nothing = beer.evidence_lower_bound(datasize=N)
        for _ in range(sum(rnd['empties'])):
            parts.insert(rng.randrange(len(parts) + 1), (nothing, truth.empty()))
        singles = [(e, t) for e, t in parts if t[2]]
        total, t = combine(parts, rng, truth, blank, 'local', ctx)
        refusals(total, N, 'local')
        if not flat[2]:
            continue
        # Without sync: every parameter of the model is reached.
        opt = beer.VBConjugateOptimizer(zoo.groups(model), lrate=rnd['lr'])
        opt.update_count = r
        for times in range(2):
            opt.init_step()
            total.backward()
            got = float(total), [p.stats.detach().double().numpy().copy()
                                 for p in model.bayesian_parameters()]
            same(truth.seen(flat), got, 'handles', f'round {r}, push {times}')
        # A copy that was stored (other handles) recovers them.
        back = pickle.loads(pickle.dumps(total))
        back.sync(model)
        opt.init_step()
        back.backward()
        got = float(back), [p.stats.detach().double().numpy().copy()
                            for p in model.bayesian_parameters()]
        same(truth.seen(flat), got, 'reconnected', f'round {r}')
        # Without reconnection it does not reach this model.
        far = pickle.loads(pickle.dumps(total))
        opt.init_step()
        far.backward()
        opt.init_step()
        total.backward()
        opt.step()
        # The parts are still there after the update.
        for e, t in singles:
            same(truth.seen(t), look(e, blank), 'operand-changed',
                 f'round {r}: after the update', 1e-12)
        ref_update(lonely, truth.seen(flat)[1], N, r, rnd['lr'])
        for a, b in zip(getattr(lonely, 'models', [lonely]), several):
            L.compare_states(zoo.state(a), zoo.state(b), 1e-7, 'update', f'round {r}')


def run_grad(plan, ctx, spec, X):
    'Models with other parameters: their gradient adds up too.'
    import beer
    sub = spec['family'].startswith('gsm')
    things = [(zoo.Subspace if sub else zoo.Vae)(spec, X) for _ in range(2)]

    def prepare(m):
        'Subspace models: statistics of the data given the current models.'
        for mod, x in zip(m.models, X):
            for p in mod.bayesian_parameters():
                p.zero_stats()
                p.pdfvec = p.pdfvec.detach()
            beer.evidence_lower_bound(mod, x).backward(std_params=False)

    def objective(m, u, N, seed):
        torch.manual_seed(seed)
        if sub:
            return beer.evidence_lower_bound(
                m.gsm, m.models, latent_posts=m.posts, datasize=N,
                latent_nsamples=1 + u % 2, params_nsamples=2, update_models=False)
        return beer.evidence_lower_bound(m.vae, X[u], datasize=N)

    def length(u):
        return len(X) if sub else len(X[u])

    for r, rnd in enumerate(plan['rounds']):
        N = size_of(rnd, X)
        items = [u for u, _ in sum(rnd['parts'], [])]
        if not items:
            continue
        ctx.nontrivial |= len(items) > 1
        seeds = [rnd['order'] + 17 * i for i in range(len(items))]
        out = []
        for m in things:
            if sub:
                prepare(m)
        for m, tree in zip(things, (False, True)):
            rng = random.Random(rnd['order'])
            m.opt.init_step()
            if not tree:
                # One objective at a time.
                value, grads, stats, frames = 0., {}, {}, 0
                for u, s in zip(items, seeds):
                    m.std.zero_grad()
                    m.cjg.init_step()
                    e = objective(m, u, N, s)
                    value += float(e)
                    e.backward()
                    frames += length(u)
                    for key, g, st in peek(m):
                        if g is not None:
                            grads[key] = grads.get(key, 0) + g
                        if st is not None:
                            stats[key] = stats.get(key, 0) + st * length(u) / N
                stats = {k: v * N / frames for k, v in stats.items()}
            else:
                parts = [objective(m, u, N, s) for u, s in zip(items, seeds)]
                for _ in range(sum(rnd['empties'])):
                    parts.insert(rng.randrange(len(parts) + 1),
                                 beer.evidence_lower_bound(datasize=N))
                while len(parts) > 1:
                    a = parts.pop(rng.randrange(len(parts)))
                    b = parts.pop(rng.randrange(len(parts)))
                    va, vb = float(a), float(b)
                    c = a + b
                    check((va, vb) == (float(a), float(b)), 'operand-changed-value')
                    parts.append(c)
                value = float(parts[0])
                parts[0].backward()
                grads = {k: g for k, g, _ in peek(m) if g is not None}
                stats = {k: s for k, _, s in peek(m) if s is not None}
            out.append((value, grads, stats))
        (va, ga, sa), (vb, gb, sb) = out
        check(L.relerr(va, vb) <= TOL, 'sum-value', f'{va} vs {vb}')
        for what, a, b in (('gradient', ga, gb), ('statistics', sa, sb)):
            check(set(a) == set(b), f'sum-{what}', lambda: f'{set(a) ^ set(b)}')
            for k in sorted(a):
                e = L.relerr(a[k], b[k])
                check(e <= 1e-7, f'sum-{what}',
                      lambda: f'{k} differs by {e:.3g}\n{a[k]}\n{b[k]}')
        # Both copies go on from the step of the second one.
        for m in things:
            m.opt.init_step()
        things[1].cjg.init_step()
        for m in things:
            tot = beer.evidence_lower_bound(datasize=N)
            for u, s in zip(items, seeds):
                tot = tot + objective(m, u, N, s)
            m.opt.init_step()
            tot.backward()
            m.opt.step()


def peek(m):
    'name, gradient, statistics of all the parameters.'
    owner = m.gsm if hasattr(m, 'gsm') else m.vae
    named = list(owner.named_parameters())
    if hasattr(m, 'posts'):
        named += [('post.' + n, p) for n, p in m.posts.named_parameters()]
    out = []
    for name, p in named:
        out.append((name, None if p.grad is None
                    else p.grad.detach().double().numpy().copy(), None))
    for i, p in enumerate(q for g in zoo.groups(owner) for q in g):
        out.append((f'stats{i}', None, p.stats.detach().double().numpy().copy()))
    return out
