"""C22: flow networks and probabilistic layers: densities match samples."""
import contextlib
import io
import math
import os
import pickle
import random

import numpy as np
import torch

from .. import core, train as T, zoo
from ..engine import check
from . import c16, c20

ID = 'C22'
QUICK, THOROUGH = (4500, 200), (40000, 850)
RULE = ('A run creates inverse auto-regressive flows (every dimension, depth, '
        'width, number of steps and context; the draws of the hidden '
        'connections behind a seam) and normal/Bernoulli layers, and drives '
        'them through a drawn history of training steps, samples, evaluations, '
        'changes of precision and checkpoints; the process is killed and '
        'restarted, evaluations are interrupted at drawn lines. Non-trivial: a '
        'sample or network was checked after a training step or restart.')
REAL = ['beer.nnet.AutoRegressiveNetwork, probabilistic layers, MergeTransform',
        'pickle/torch serialisation on scratch files']
STUB = ['process death (simulator)', 'random.choices and the Gaussian draws']
ASSUMPTIONS = ['double precision except after an operation that changes it']
D = torch.float64
LOG2PI = math.log(2 * math.pi)
LAYERS = ['diag', 'iso', 'identity', 'bernoulli']


def generate(rng, index, tier):
    kind = rng.choice(['flow', 'flow', 'flow', 'layer'])
    plan = {'kind': kind, 'dim': rng.choice([2, 2, 3, 4, 5, 7]) if kind == 'flow'
            else rng.choice([1, 2, 3]), 'din': rng.choice([1, 2, 3]),
            'layer': rng.choice(['diag', 'diag', 'iso']) if kind == 'flow'
            else rng.choice(LAYERS),
            'nonlin': rng.choice([None, None, 'exp', 'Softplus']),
            'context': rng.choice([0, 1, 2, 4]), 'steps': rng.choice([1, 1, 2, 3]),
            'depth': rng.choice([1, 1, 2, 3]), 'width': rng.choice([1, 2, 3, 6, 12]),
            'act': rng.choice(['Tanh', 'ReLU', 'Sigmoid']),
            'degrees': rng.choice(['cycle', 'cycle', 'low', 'high', 'seed', 'seed']),
            'seed0': rng.getrandbits(30), 'rows': rng.choice([1, 2, 4]),
            'noise': [round(rng.uniform(.1, 1.2), 2), round(rng.uniform(0, 3), 2),
                      round(rng.uniform(-.5, .5), 2)],
            'style': rng.choice(['pickle', 'torch', 'state']),
            's': rng.choice([.3, .05, .01]), 'optim': rng.choice(['Adam', 'SGD'])}
    ops = []
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(['step', 'step', 'sample', 'sample', 'mean', 'network',
                        'network', 'score', 'save', 'save', 'cast', 'mode'])
        op = {'op': k, 'data': rng.getrandbits(20)}
        if k == 'step':
            op['cut'] = {'line': round(rng.random(), 3), 'occ': round(rng.random(), 3),
                         'exc': rng.choice(sorted(c16.EXCS))} \
                if rng.random() < .4 else None
        ops.append(op)
    plan['ops'] = ops
    faults = []
    for k in range(rng.choice([0, 0, 1, 2])):
        faults.append({'proc': f'main#{k}', 'kind': 'kill', 'n': rng.randint(0, 14),
                       'frac': round(rng.random(), 2)})
    if rng.random() < .3:
        faults.append({'proc': 'main#0', 'kind': rng.choice(T.SOFTKINDS),
                       'n': rng.randint(0, 8), 'frac': round(rng.random(), 2),
                       'delay': 60.})
    return dict(plan, faults=faults, sched=T.gen_sched(rng))


def shrink(plan):
    for i in range(len(plan['faults'])):
        yield dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:])
    ops = plan['ops']
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for k, v in (('steps', 1), ('depth', 1), ('rows', 1), ('context', 0),
                 ('layer', 'diag'), ('width', 2)):
        if plan[k] != v and plan[k] != 'bernoulli':
            yield dict(plan, **{k: v})


# ---------------------------------------------------------------------------

@contextlib.contextmanager
def degrees(plan):
    'Connections of the hidden units: a drawn adversary.'
    old, calls = random.choices, []

    def choices(population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        calls.append(k)
        if plan['degrees'] == 'cycle':
            return [pop[i % len(pop)] for i in range(k)]
        if plan['degrees'] == 'low':
            return [pop[0]] * k
        if plan['degrees'] == 'high':
            return [pop[-1]] * k
        return old(pop, weights, cum_weights=cum_weights, k=k)
    random.seed(plan['seed0'])
    random.choices = choices
    try:
        yield calls
    finally:
        random.choices = old


class Noise:
    'The Gaussian draws as one leaf tensor, so that samples can be derived.'
    leaf = None

    @contextlib.contextmanager
    def __call__(self, plan, count):
        with c20.seam(plan['noise']):
            made = []
            inner = {n: getattr(torch, n) for n in ('randn', 'randn_like', 'normal')}

            def leaf(x):
                made.append(x.detach().clone().requires_grad_(True))
                return made[-1]

            def normal(mean=0., std=1., size=None, **kw):
                if size is None:
                    size = (mean if isinstance(mean, torch.Tensor) else std).shape
                return mean + std * leaf(inner['normal'](
                    torch.zeros(tuple(size), dtype=getattr(mean, 'dtype', None)), 1.))
            torch.randn = lambda *a, **k: leaf(inner['randn'](*a, **k))
            torch.randn_like = lambda *a, **k: leaf(inner['randn_like'](*a, **k))
            torch.normal = normal
            try:
                yield made
            finally:
                for n in inner:
                    setattr(torch, n, inner[n])


class Exp(torch.nn.Module):
    def forward(self, x):
        return x.exp()


def nonlinearity(plan):
    return {None: None, 'exp': Exp(), 'Softplus': torch.nn.Softplus()}[plan['nonlin']]


def make_layer(plan):
    import beer
    n = beer.nnet
    if plan['layer'] == 'diag':
        return n.NormalDiagonalCovarianceLayer(plan['din'], plan['dim'], nonlinearity(plan))
    if plan['layer'] == 'iso':
        return n.NormalIsotropicCovarianceLayer(plan['din'], plan['dim'],
                                                variance_nonlinearity=nonlinearity(plan))
    if plan['layer'] == 'identity':
        return n.NormalIdentityCovarianceLayer(plan['din'], plan['dim'])
    return n.BernoulliLayer(plan['din'], plan['dim'])


def build(plan):
    import beer
    torch.manual_seed(plan['seed0'])
    layer = make_layer(plan)
    if plan['kind'] == 'layer':
        return layer
    with degrees(plan) as calls:
        nets = [beer.nnet.AutoRegressiveNetwork(
            plan['dim'], plan['context'], plan['depth'], plan['width'],
            getattr(torch.nn, plan['act'])()) for _ in range(plan['steps'])]
    model = beer.nnet.InverseAutoRegressiveFlow(
        plan['din'], plan['context'], layer, torch.nn.ModuleList(nets))
    # (Whether the connections were drawn by the adversary.)
    model.followed = calls == [plan['width']] * plan['depth'] * plan['steps']
    return model


def snapshot(model):
    return {n: p.detach().numpy().copy() for n, p in model.state_dict().items()}


def lognormal(x, m, v):
    return -.5 * (((x - m) ** 2 / v + v.log()).sum(dim=-1) + x.shape[-1] * LOG2PI)


class History:
    def __init__(self, plan, ctx, root):
        self.plan, self.ctx = plan, ctx
        self.path = os.path.join(root, 'ckpt')
        self.states = {}
        self.moved = False

    def tol(self, model):
        return 1e-8 if next(model.parameters()).dtype == D else 2e-3

    def inputs(self, model, op, rows=None):
        g = np.random.RandomState(op['data'])
        x = torch.from_numpy(g.randn(rows or self.plan['rows'], self.plan['din']))
        return x.to(next(model.parameters()).dtype)

    def save(self, model, i):
        with open(self.path + '.new', 'wb') as f:
            if self.plan['style'] == 'pickle':
                pickle.dump((model, i), f)
            else:
                buf = io.BytesIO()
                torch.save((model.state_dict() if self.plan['style'] == 'state'
                            else model, i), buf)
                f.write(buf.getvalue())
        os.replace(self.path + '.new', self.path)

    def start(self):
        if not os.path.exists(self.path):
            model = build(self.plan)
            self.followed = getattr(model, 'followed', False)
            return model, 0
        with open(self.path, 'rb') as f:
            raw = f.read()
        self.ctx.probe('resumed')
        self.moved = True
        if self.plan['style'] == 'pickle':
            return pickle.loads(raw)
        model, i = torch.load(io.BytesIO(raw), weights_only=False)
        if self.plan['style'] == 'state':
            # (Another process draws other connections: the stored ones count.)
            state, model = model, build(dict(self.plan, degrees='seed',
                                             seed0=self.plan['seed0'] + 1))
            model.to(next(iter(state.values())).dtype)
            model.load_state_dict(state)
        return model, i

    def main(self):
        model, first = self.start()
        for i in range(first, len(self.plan['ops'])):
            op = self.plan['ops'][i]
            what = f'operation {i} {op}'
            now = snapshot(model)
            if i in self.states:
                self.same(self.states[i], now, 'reload-changed', what)
            self.states[i] = now
            if not all(np.isfinite(x).all() and (np.abs(x) < 1e3).all()
                       for x in now.values()):
                self.ctx.probe('diverged')
                return
            getattr(self, 'do_' + op['op'])(model, op, i, what)
            if op['op'] not in ('step', 'cast'):
                self.same(now, snapshot(model), 'evaluation-changed', what)
        self.save(model, len(self.plan['ops']))

    def same(self, a, b, kind, what):
        check(sorted(a) == sorted(b), kind, what)
        for k in a:
            check(a[k].dtype == b[k].dtype and np.array_equal(a[k], b[k]), kind,
                  lambda: f'{what}: {k}: {b[k]}, was {a[k]}')

    def close(self, a, b, model, kind, what):
        a, b = a.detach().double().numpy(), b.detach().double().numpy()
        check(a.shape == b.shape, kind, lambda: f'{what}: shape {b.shape}, not {a.shape}')
        check(c20.error(a, b) <= self.tol(model), kind,
              lambda: f'{what}: {b}, expected {a}')

    def do_save(self, model, op, i, what):
        self.save(model, i + 1)

    def do_cast(self, model, op, i, what):
        model.to(torch.float32 if op['data'] % 3 == 0 else D)

    def do_mode(self, model, op, i, what):
        model.train(op['data'] % 2 == 0)

    def bare(self):
        'Networks without context are used alone.'
        return self.plan['kind'] == 'flow' and not self.plan['context']

    def standard(self, model, x, what):
        'Mean and variance of the layer, written out.'
        layer = model.normal_layer if self.plan['kind'] == 'flow' else model
        w = dict(layer.named_parameters())
        m = x.matmul(w['mean.weight'].t()) + w['mean.bias']
        if self.plan['layer'] == 'bernoulli':
            return torch.sigmoid(m), None
        if self.plan['layer'] == 'identity':
            return m, torch.ones_like(m)
        v = x.matmul(w['logvar.weight'].t()) + w['logvar.bias']
        v = v.exp() if self.plan['nonlin'] == 'exp' else torch.nn.functional.softplus(v)
        return m, v.expand(m.shape)

    def do_sample(self, model, op, i, what):
        if self.plan['layer'] == 'bernoulli' or self.bare():
            return
        x = self.inputs(model, op)
        params = model(x)
        with Noise()(self.plan, len(x)) as made:
            samples, llh = model.samples_and_llh(params)
        if self.plan['layer'] == 'iso':
            v = (params[0] if self.plan['kind'] == 'flow' else params)[1]
            self.close(v[:, :1].expand(v.shape), v, model, 'isotropic', what)
        if len(made) != 1 or made[0].shape != samples.shape:
            self.ctx.probe('draws not followed')    # (made in some other way)
            return
        e = made[0]
        n, d = samples.shape
        J = torch.stack([torch.autograd.grad(samples[:, k].sum(), e,
                                             retain_graph=True)[0]
                         for k in range(d)], dim=1)
        J = J.double()
        want = -.5 * ((e.double() ** 2).sum(dim=-1) + d * LOG2PI) - \
            torch.linalg.slogdet(J)[1]
        self.close(want, llh, model, 'density', what)
        # Without flow the sample is that of the layer.
        if self.plan['kind'] == 'layer':
            m, v = self.standard(model, x, what)
            self.close(m + v.sqrt() * e, samples, model, 'sample', what)
            self.close(model.log_likelihood(samples, params), llh, model, 'density', what)
        else:
            self.first(model, x, params, e, samples, what)
        self.ctx.nontrivial |= self.moved

    def first(self, model, x, params, e, samples, what):
        'The steps of the flow in turn on the sample of the layer.'
        m, v = self.standard(model, x, what)
        z = m + v.sqrt() * e
        p = x.matmul(model.flow_params.weight.t()) + model.flow_params.bias
        for net in model.nnet_flow:
            a, b = net(z, p)
            z = a + b.sqrt() * z
        self.close(z, samples, model, 'sample', what)

    def do_mean(self, model, op, i, what):
        if self.plan['layer'] == 'bernoulli' or self.bare():
            return
        x = self.inputs(model, op)
        params = model(x)
        with Noise()(dict(self.plan, noise=[0., 0., 0.]), len(x)) as made:
            zero, zllh = model.samples_and_llh(params)
        samples, llh = model.samples_and_llh(params, use_mean=True)
        self.close(zero, samples, model, 'mean', what)
        self.close(zllh, llh, model, 'mean-density', what)
        self.ctx.nontrivial |= self.moved

    def do_score(self, model, op, i, what):
        if self.plan['kind'] == 'flow':
            return
        x = self.inputs(model, op)
        g = np.random.RandomState(op['data'] + 1)
        y = torch.from_numpy(g.randn(len(x), self.plan['dim'])).to(x.dtype)
        m, v = self.standard(model, x, what)
        if self.plan['layer'] == 'bernoulli':
            y = (y > 0).to(x.dtype)
            want = (y * m.clamp(min=1e-30).log()
                    + (1 - y) * (1 - m).clamp(min=1e-30).log()).sum(dim=-1)
            got = model.log_likelihood(y, model(x))
            low = torch.minimum(m, 1 - m).min()
            if low > 1e-3:
                check(bool((want - got).abs().max() < 1e-2 * self.plan['dim']), 'likelihood',
                      lambda: f'{what}: {got}, expected {want}')
        else:
            self.close(lognormal(y, m, v), model.log_likelihood(y, model(x)), model,
                       'likelihood', what)
        self.ctx.nontrivial |= self.moved

    def do_network(self, model, op, i, what):
        if self.plan['kind'] == 'layer':
            return
        d = self.plan['dim']
        g = np.random.RandomState(op['data'])
        dt = next(model.parameters()).dtype
        c = torch.from_numpy(g.randn(3, self.plan['context'])).to(dt)
        full = torch.zeros(d, d, dtype=torch.bool)
        for net in model.nnet_flow:
            for scale in (1., .3, 3.):
                z = torch.from_numpy(g.randn(3, d) * scale).to(dt).requires_grad_(True)
                outs = net(z, c) if self.plan['context'] else net(z)
                check(all(o.shape == z.shape for o in outs), 'network', what)
                check(bool((outs[1] > 0).all()), 'network',
                      lambda: f'{what}: variances {outs[1]}')
                for o in outs:
                    for k in range(d):
                        J, = torch.autograd.grad(o[:, k].sum(), z, retain_graph=True)
                        bad = J[:, k:]
                        check(not bool(bad.abs().max() > 0), 'auto-regressive',
                              lambda: f'{what}: output {k} depends on inputs {J}')
                        full[k] |= (J != 0).any(dim=0)
            if self.followed and self.plan['degrees'] == 'cycle' \
                    and self.plan['width'] >= d - 1 \
                    and self.plan['act'] != 'ReLU' and dt == D and \
                    all(float(p.abs().max()) < 5 for p in net.parameters()):
                want = torch.tril(torch.ones(d, d), -1).bool()
                check(torch.equal(full, want), 'dependence',
                      lambda: f'{what}: every connection was drawn, dependence {full}')
        self.ctx.nontrivial |= self.moved

    def do_step(self, model, op, i, what):
        plan = self.plan
        x = self.inputs(model, op)
        g = np.random.RandomState(op['data'] + 7)
        y = torch.from_numpy(g.randn(len(x), plan['dim'])).to(x.dtype)

        def loss():
            params = model(x)
            if self.bare():
                return sum((a ** 2 + b).sum() for a, b in
                           (net(y) for net in model.nnet_flow))
            if plan['layer'] == 'bernoulli':
                return -model.log_likelihood((y > 0).to(x.dtype), params).sum()
            with c20.seam(plan['noise']):
                s, llh = model.samples_and_llh(params)
            return (llh + .5 * ((s - y) ** 2).sum(dim=-1)).sum()
        now = snapshot(model)
        if op['cut']:
            _, places = c16.traced(loss)
            exc = c16.EXCS[op['cut']['exc']]('simulated')
            try:
                c16.traced(loss, c16.place(places, op['cut']), exc)
            except type(exc):
                self.ctx.probe('evaluation interrupted')
        self.same(now, snapshot(model), 'evaluation-changed', what)
        optim = getattr(torch.optim, plan['optim'])(model.parameters(), lr=plan['s'])
        optim.zero_grad()
        loss().backward()
        torch.nn.utils.clip_grad_norm_(model.parameters(), 10.)
        optim.step()
        self.moved = True


def run(plan, ctx):
    with zoo.double(), core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        h = History(plan, ctx, root)
        k = 0
        while True:
            p = sim.spawn(f'main#{k}', h.main)
            sim.run()
            if isinstance(p.exc, core.Violation):
                raise p.exc
            if p.ok or not p.tainted:
                break
            ctx.probe('process killed')
            k += 1
        check(p.ok, 'operation-failed', lambda: f'{p.error}\n{p.tb}')
        ctx.probe(plan['kind'])
        ctx.probe(plan['layer'])
        ctx.note(*[plan[x] for x in ('kind', 'layer', 'dim', 'context', 'steps', 'depth',
                                     'width', 'act', 'degrees', 'style')],
                 plan['ops'], [f['kind'] for f in plan['faults']])
        ctx.absorb(sim)
