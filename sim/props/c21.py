"""C21: training of variational auto-encoders optimises their bound."""
import copy
import io
import math
import os
import pickle

import numpy as np
import torch

from .. import core, lab as L, train as T, zoo
from ..engine import check
from . import c16, c20

ID = 'C21'
QUICK, THOROUGH = (1600, 200), (20000, 850)
RULE = ('A run trains a variational auto-encoder (residual or sequential '
        'networks, Normal/mixture/HMM/phone-loop prior over the latent space) '
        'through a drawn history: steps on mini-batches with drawn numbers of '
        'samples and weights, parts frozen, evaluations, densities of new '
        'points, checkpoints. The process is killed at drawn operations and '
        'restarted from its last checkpoint, some evaluations are interrupted '
        'at a drawn line. The Gaussian draws are behind a seam; after every '
        'operation the objective and all parameters are compared with an '
        'independent implementation. Non-trivial: at least one step; distinct '
        'by model, operations and faults.')
REAL = ['beer.VAE, beer.nnet, distributions, priors, VBOptimizer, objectives',
        'pickle/torch serialisation on scratch files']
STUB = ['process death, uuid4 (simulator)',
        'the Gaussian draws (a fixed function of the position)',
        'the log-likelihood and statistics of the latent prior given the '
        'samples (a copy of the prior; C02 decides those)']
ASSUMPTIONS = ['double precision']
PRIORS = ['normal', 'mixture', 'mixture_mixset', 'hmm', 'hmm_mix', 'ploop']
D = torch.float64
TOL = 1e-7


def generate(rng, index, tier):
    spec = zoo.gen_spec(rng, PRIORS, maxlen=8, nutts=rng.choice([1, 2, 3]))
    spec['dim'] = rng.choice([1, 2, 2, 3])
    spec['offset'] = rng.choice([0., 0., 1.])
    spec['nstates'] = [min(n, 2) for n in spec['nstates']][:3]
    spec['loops'] = [x[:2] for x in spec['loops']][:3]
    spec['listed'] = None
    spec['utts'] = [min(max(n, 2), 9) for n in spec['utts']]
    if not spec['family'].startswith(('hmm', 'ploop')) and rng.random() < .4:
        spec['utts'][0] = 1
    net = {'kind': rng.choice(['residual', 'residual', 'sequential', 'conf', 'conf']),
           'dim': rng.choice([1, 2, 3]), 'blocks': rng.choice([1, 2]),
           'dblocks': rng.choice([1, 2]), 'width': rng.choice([1, 3, 4]),
           'act': rng.choice(['Tanh', 'Tanh', 'Sigmoid', 'Softplus']),
           'skip': [rng.choice(['none', 'identity', 'linear', 'nonlinear'])
                    for _ in range(2)]}
    ops = []
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(['step'] * 6 + ['peek', 'apply', 'save', 'save'])
        op = {'op': k}
        if k in ('step', 'peek'):
            n = len(spec['utts'])
            op.update(utts=rng.sample(range(n), rng.randint(1, n)),
                      n=rng.choice([1, 1, 2, 3, 5]),
                      llh=rng.choice([1., 1., 1., .5, 0.]),
                      kl=rng.choice([1., 1., 1., .1, 2.]), default=rng.random() < .3)
        if k == 'step':
            op['size'] = rng.choice([0, 0, 1, 10])
            op['lr'] = rng.choice([1., .5, .1, 0.])
            op['cut'] = {'line': round(rng.random(), 3), 'occ': round(rng.random(), 3),
                         'exc': rng.choice(sorted(c16.EXCS))} \
                if rng.random() < .3 else None
        elif k == 'apply':
            op['data'] = rng.getrandbits(20)
        ops.append(op)
    faults = []
    for k in range(rng.choice([0, 0, 1, 2])):
        faults.append({'proc': f'main#{k}', 'kind': 'kill', 'n': rng.randint(0, 14),
                       'frac': round(rng.random(), 2)})
    if rng.random() < .3:
        faults.append({'proc': 'main#0', 'kind': rng.choice(T.SOFTKINDS),
                       'n': rng.randint(0, 8), 'frac': round(rng.random(), 2),
                       'delay': 60.})
    return {'spec': spec, 'net': net, 'ops': ops,
            'part': rng.choice(['all', 'all', 'all', 'encoder', 'decoder', 'none']),
            'prior': rng.random() < .85, 's': rng.choice([.1, .02, .001]),
            'optim': rng.choice(['Adam', 'Adam', 'SGD']),
            'style': rng.choice(['pickle', 'torch']),
            'noise': [round(rng.uniform(.1, 1.2), 2), round(rng.uniform(0, 3), 2),
                      round(rng.uniform(-.5, .5), 2)],
            'faults': faults, 'sched': T.gen_sched(rng)}


def shrink(plan):
    for i in range(len(plan['faults'])):
        yield dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:])
    ops = plan['ops']
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        for new in ({'cut': None}, {'n': 1}, {'llh': 1., 'kl': 1.}, {'utts': [0]},
                    {'size': 0}):
            if all(k in o for k in new) and dict(o, **new) != o:
                yield dict(plan, ops=ops[:i] + [dict(o, **new)] + ops[i + 1:])
    spec = plan['spec']
    if spec['family'] != 'normal':
        yield dict(plan, spec=dict(spec, family='normal'))
    if len(spec['utts']) > 1:
        yield dict(plan, spec=dict(spec, utts=spec['utts'][:1]), ops=[
            dict(o, utts=[0]) if 'utts' in o else o for o in ops])
    if plan['net']['blocks'] + plan['net']['dblocks'] > 2:
        yield dict(plan, net=dict(plan['net'], blocks=1, dblocks=1))


# ---------------------------------------------------------------------------
# The model

class Seq(torch.nn.Sequential):
    dim_in = dim_out = None


def network(net, dim, blocks):
    import beer
    act = getattr(torch.nn, net['act'])
    if net['kind'] == 'residual':
        return beer.nnet.ResidualFeedForwardNet(dim, blocks, net['width']) \
            if net['act'] == 'Tanh' else residual(dim, blocks, net['width'], act)
    if net['kind'] == 'conf':
        import beer
        out = beer.nnet.create({'nnet_structure': conf(net, dim, blocks)})
        out.dim_in, out.dim_out = dim, dim + blocks
        return out
    out = Seq(torch.nn.Linear(dim, net['width']), act())
    out.dim_in, out.dim_out = dim, net['width']
    return out


def conf(net, dim, blocks):
    'Configuration of a network whose blocks add one dimension each.'
    out = []
    for b in range(blocks):
        lin = f'Linear:in_features={dim + b};out_features={net["width"]}'
        top = f'Linear:in_features={net["width"]}; out_features={dim + b + 1}'
        side = f'Linear:in_features={dim + b};out_features={dim + b + 1};bias=False'
        skip = net['skip'][b]
        if skip == 'identity':      # (keeps the dimension: widened afterwards)
            block = {'block_structure': [
                lin, net['act'],
                f'Linear:in_features={net["width"]};out_features={dim + b}'],
                'residual': 'IdentityLayer'}
            out += [block, {'block_structure': [side]}]
            continue
        block = {'block_structure': [lin, net['act'], top]}
        if skip == 'linear':
            block['residual'] = side
        elif skip == 'nonlinear':
            block['residual'] = side
            block['block_structure'].append(net['act'])
        out.append(block)
    return out


def residual(dim, blocks, width, act):
    import beer
    from beer.nnet import residual as R
    new = beer.nnet.ResidualFeedForwardNet(dim, blocks, width)
    new.blocks = torch.nn.Sequential(*[
        R.ResidualFeedFowardBlock(dim, width, activation_fn=act)
        for _ in range(blocks)])
    return new


def build(plan):
    import beer
    spec, net = plan['spec'], plan['net']
    torch.manual_seed(spec['seed'])
    prior = zoo.build(spec)
    torch.manual_seed(spec['seed'] + 1)
    enc = network(net, net['dim'], net['blocks'])
    dec = network(net, spec['dim'], net['dblocks'])
    return beer.VAE(prior, enc, dec)


def trained(plan, vae):
    'Names of the standard parameters given to the optimizer.'
    names = [n for n, p in vae.named_parameters() if p.requires_grad]
    part = plan['part']
    if part == 'all':
        return names
    if part == 'none':
        return []
    return [n for n in names if n.startswith(part) or n.startswith(part[:3] + '_')]


def optimizers(plan, vae, state=None):
    import beer
    cjg = std = None
    if plan['prior']:
        cjg = beer.VBConjugateOptimizer(vae.mean_field_factorization(), lrate=1.)
    d = dict(vae.named_parameters())
    names = trained(plan, vae)
    if names:
        cls = getattr(torch.optim, plan['optim'])
        std = cls([d[n] for n in names], lr=plan['s'])
    opt = beer.VBOptimizer(cjg, std)
    if state is not None:
        opt.load_state_dict(state)
    return opt


def data(plan):
    g = np.random.RandomState(plan['spec']['data'] % (2 ** 32 - 1))
    return [torch.from_numpy(g.randn(n, plan['net']['dim']) * .8 + g.randn())
            for n in plan['spec']['utts']]


def snapshot(vae):
    out = {f'net.{n}': p.detach().numpy().copy() for n, p in vae.named_parameters()}
    for i, p in enumerate(vae.bayesian_parameters()):
        out[f'prior {i}'] = p.prior.natural_parameters().detach().numpy().copy()
        out[f'posterior {i}'] = p.posterior.natural_parameters().detach().numpy().copy()
    return out


# ---------------------------------------------------------------------------
# The reference: networks written out on a dictionary of tensors.

def forward(plan, w, name, blocks, x):
    act = getattr(torch.nn.functional, plan['net']['act'].lower()) \
        if plan['net']['act'] == 'Softplus' else \
        {'Tanh': torch.tanh, 'Sigmoid': torch.sigmoid}[plan['net']['act']]

    def linear(key, y):
        return y.matmul(w[f'{key}.weight'].t()) + w[f'{key}.bias']
    if plan['net']['kind'] == 'sequential':
        return act(linear(f'{name}.0', x))
    if plan['net']['kind'] == 'conf':
        k = 0
        for b in range(blocks):
            skip = plan['net']['skip'][b]
            key = f'{name}.{k}.structure'
            h = linear(f'{key}.2', act(linear(f'{key}.0', x)))
            if skip == 'identity':
                k += 1
                x = (h + x).matmul(w[f'{name}.{k}.structure.0.weight'].t())
            elif skip == 'linear':
                x = h + x.matmul(w[f'{name}.{k}.residual_connection.weight'].t())
            elif skip == 'nonlinear':
                x = act(h) + x.matmul(w[f'{name}.{k}.residual_connection.weight'].t())
            else:
                x = h
            k += 1
        return x
    for b in range(blocks):
        h = act(linear(f'{name}.blocks.{b}.layer1', x))
        x = act(linear(f'{name}.blocks.{b}.layer2', h)) + x
    return x


def linear(w, key, y):
    return y.matmul(w[f'{key}.weight'].t()) + w[f'{key}.bias']


def density(plan, w, which, x):
    'Mean and variance of the posteriors (enc) or of the densities (dec).'
    name = {'enc': 'encoder', 'dec': 'decoder'}[which]
    h = forward(plan, w, name, plan['net']['blocks' if which == 'enc' else 'dblocks'], x)
    return linear(w, f'{which}_mean_layer', h), \
        1e-5 + linear(w, f'{which}_var_layer', h).exp()


def lognormal(x, m, v):
    return -.5 * ((x - m) ** 2 / v + v.log() + math.log(2 * math.pi)).sum(dim=-1)


class Diverged(Exception):
    'The reference left the range where doubles can be compared: the history ends.'


def bound(plan, w, prior, x, op):
    '(data term, statistics of the prior) of one utterance.'
    n = 1 if op['default'] else op['n']
    a, b = (1., 1.) if op['default'] else (op['llh'], op['kl'])
    m, v = density(plan, w, 'enc', x)
    noise = c20.draws(plan['noise'], (len(x), n, m.shape[-1]))
    z = m[:, None] + v.sqrt()[:, None] * noise
    entropy = -lognormal(z, m[:, None], v[:, None]).mean(dim=1)
    flat = z.reshape(-1, z.shape[-1])
    stats = prior.sufficient_statistics(flat)
    stats = stats.reshape(len(x), n, -1).mean(dim=1)
    cross = -prior.expected_log_likelihood(stats).reshape(-1)
    assert cross.shape == (len(x),)
    dm, dv = density(plan, w, 'dec', flat)
    # (Expanded squares lose their digits when variances collapse.)
    for top, low in ((m, v), (z, v[:, None]), (dm, dv), (x.abs().max(), dv)):
        if not bool((top ** 2 / low < 1e6).all()):
            raise Diverged
    llh = lognormal(x[:, None].expand(len(x), n, -1).reshape(len(flat), -1), dm, dv)
    llh = llh.reshape(len(x), n).mean(dim=1)
    acc = prior.accumulate(stats)
    prior.clear_cache()
    return (a * llh - b * (cross - entropy)).sum(), acc


class Ref:
    def __init__(self, plan, vae, X):
        self.plan, self.X = plan, X
        self.before = snapshot(vae)
        self.prior = copy.deepcopy(vae.prior)
        self.w = {n[4:]: torch.from_numpy(v.copy()) for n, v in self.before.items()
                  if n.startswith('net.')}
        self.names = trained(plan, vae)
        # (the prior is a part of the model: its groups come first)
        self.groups = []
        index = {p: i for i, p in enumerate(vae.bayesian_parameters())}
        for g in vae.mean_field_factorization():
            self.groups.append([index[p] for p in g])

    def evaluate(self, op, size):
        total, stats, frames = 0., {}, 0
        kl = self.prior.kl_div_posterior_prior().sum()
        params = list(self.prior.bayesian_parameters())
        for u in op['utts']:
            x = self.X[u]
            value, acc = bound(self.plan, self.w, self.prior, x, op)
            total = total + (size or len(x)) / len(x) * value - kl
            frames += len(x)
            for i, p in enumerate(params):
                if p in acc:
                    stats[i] = stats.get(i, 0.) + acc[p].detach()
        if not abs(float(total)) < 1e7:
            raise Diverged
        return total, {i: (size or frames) / frames * s for i, s in stats.items()}

    def step(self, op, size, old):
        '(objective, predicted snapshot, optimizer state, loose entries)'
        plan = self.plan
        leaves = {n: self.w[n].clone().requires_grad_(True) for n in self.names}
        self.w = dict(self.w, **leaves)
        total, stats = self.evaluate(op, size)
        want, loose = dict(self.before), {}
        new = {'count': old['count'] if old else 0, 'std': {}}
        if leaves:
            (-total).backward()
            optim = getattr(torch.optim, plan['optim'])(list(leaves.values()),
                                                        lr=plan['s'])
            for n, leaf in leaves.items():
                if leaf.grad is None:
                    leaf.grad = torch.zeros_like(leaf)
                if old and n in old['std']:
                    optim.state[leaf] = {k: v.clone() if isinstance(v, torch.Tensor)
                                         else v for k, v in old['std'][n].items()}
            big = max([1.] + [float(x.grad.abs().max()) / 100 for x in leaves.values()])
            for n, leaf in leaves.items():
                if plan['optim'] == 'Adam':
                    # (Adam amplifies the rounding of a vanishing gradient.)
                    loose[f'net.{n}'] = (leaf.grad.abs() < 1e-6 * big).numpy()
            optim.step()
            for n, leaf in leaves.items():
                want[f'net.{n}'] = leaf.detach().numpy().copy()
                if leaf in optim.state:
                    new['std'][n] = optim.state[leaf]
        if plan['prior']:
            for i in self.groups[new['count'] % len(self.groups)]:
                q, p = want[f'posterior {i}'], want[f'prior {i}']
                s = stats[i].numpy() if i in stats else np.zeros_like(q)
                want[f'posterior {i}'] = q + op['lr'] * (p + s - q)
            new['count'] += 1
        return float(total), want, new, loose


def agree(want, got, tol, kind, what, loose=(), far=0.):
    check(sorted(want) == sorted(got), kind, lambda: f'{what}: {sorted(got)}')
    for k, x in want.items():
        y = got[k]
        check(x.shape == y.shape, kind, lambda: f'{what}: {k}: {y.shape}, not {x.shape}')
        if k in loose and loose[k].any():
            check(c20.error(x, y) <= far, kind, lambda: f'{what}: {k}: {y}, expected {x}')
            x, y = x[~loose[k]], y[~loose[k]]
        e = c20.error(x, y)
        check(e <= tol, kind, lambda: f'{what}: {k}: error {e:.3g}\nexpected '
              f'{want[k].reshape(-1)[:8]}\ngot {got[k].reshape(-1)[:8]}')


# ---------------------------------------------------------------------------

class History:
    def __init__(self, plan, ctx, root):
        self.plan, self.ctx = plan, ctx
        self.path = os.path.join(root, 'ckpt')
        self.X = data(plan)
        self.before = [x.clone() for x in self.X]
        self.opts = {0: None}      # reference optimizer state before op i
        self.states = {}           # snapshot before op i
        self.values = {}
        self.steps = 0

    def save(self, vae, opt, i):
        with open(self.path + '.new', 'wb') as f:
            if self.plan['style'] == 'pickle':
                pickle.dump((vae, opt.state_dict(), i), f)
            else:
                buf = io.BytesIO()
                torch.save({'vae': vae, 'opt': opt.state_dict(), 'i': i}, buf)
                f.write(buf.getvalue())
        os.replace(self.path + '.new', self.path)

    def start(self):
        if not os.path.exists(self.path):
            vae = build(self.plan)
            return vae, optimizers(self.plan, vae), 0
        with open(self.path, 'rb') as f:
            raw = f.read()
        if self.plan['style'] == 'pickle':
            vae, state, i = pickle.loads(raw)
        else:
            d = torch.load(io.BytesIO(raw), weights_only=False)
            vae, state, i = d['vae'], d['opt'], d['i']
        self.ctx.probe('resumed')
        return vae, optimizers(self.plan, vae, state), i

    def main(self):
        try:
            self.operations()
        except Diverged:
            self.ctx.probe('diverged')

    def operations(self):
        vae, opt, first = self.start()
        for i in range(first, len(self.plan['ops'])):
            op = self.plan['ops'][i]
            what = f'operation {i} {op}'
            now = snapshot(vae)
            if i in self.states:
                agree(self.states[i], now, 0., 'reload-changed', what)
            self.states[i] = now
            self.opts[i + 1] = self.opts[i]
            getattr(self, 'do_' + op['op'])(vae, opt, op, i, what)
            if op['op'] != 'step':
                agree(now, snapshot(vae), 0., 'evaluation-changed', what)
            for a, b in zip(self.before, self.X):
                check(torch.equal(a, b), 'data-changed', what)
        self.save(vae, opt, len(self.plan['ops']))

    def kwargs(self, op):
        return {} if op['default'] else {
            'nsamples': op['n'], 'llh_weight': op['llh'], 'kl_weight': op['kl']}

    def objective(self, vae, op, size):
        import beer
        kw = dict(self.kwargs(op))
        out = None
        for u in op['utts']:
            e = beer.evidence_lower_bound(vae, self.X[u], datasize=size, **kw)
            out = e if out is None else out + e
        return out

    def do_save(self, vae, opt, op, i, what):
        self.save(vae, opt, i + 1)

    def do_peek(self, vae, opt, op, i, what):
        # Different sizes cannot be added: one utterance.
        op = dict(op, utts=op['utts'][:1])
        want, _ = Ref(self.plan, vae, self.X).evaluate(op, 0)
        got = float(self.objective(vae, op, -1))
        check(c20.error(np.array(float(want)), np.array(got)) <= 1e-8, 'objective',
              lambda: f'{what}: {got}, expected {float(want)}')

    def do_apply(self, vae, opt, op, i, what):
        g = np.random.RandomState(op['data'])
        w = Ref(self.plan, vae, self.X).w
        x = torch.from_numpy(g.randn(4, self.plan['net']['dim']))
        z = torch.from_numpy(g.randn(5, self.plan['spec']['dim']))
        for which, v, got in (('enc', x, vae.posteriors(x)), ('dec', z, vae.pdfs(z))):
            m, c = density(self.plan, w, which, v)
            for a, b in ((m, got.params.mean), (c, got.params.diag_cov)):
                if not bool((a.abs() < 1e7).all()):
                    raise Diverged
                check(c20.error(a.detach().numpy(), b.detach().numpy()) <= 1e-9,
                      'density', lambda: f'{what}: {which} {b}, expected {a}')

    def do_step(self, vae, opt, op, i, what):
        frames = sum(len(self.X[u]) for u in op['utts'])
        size = op['size'] * sum(map(len, self.X)) or frames
        if opt.cjg_optim is not None:
            opt.cjg_optim.lrate = op['lr']
        ref = Ref(self.plan, vae, self.X)
        if op['cut']:
            spare = pickle.loads(pickle.dumps(vae))
            spopt = optimizers(self.plan, spare)

            def evaluate(v=spare, o=spopt):
                o.init_step()
                self.objective(v, op, size).backward()
            _, places = c16.traced(evaluate)
            at = c16.place(places, op['cut'])
            exc = c16.EXCS[op['cut']['exc']]('simulated')
            try:
                c16.traced(lambda: evaluate(vae, opt), at, exc)
            except type(exc):
                self.ctx.probe('evaluation interrupted')
        value, want, self.opts[i + 1], loose = ref.step(op, size, self.opts[i])
        if not all((np.abs(x) < 1e7).all() for x in want.values()):
            raise Diverged
        opt.init_step()
        elbo = self.objective(vae, op, size)
        elbo.backward()
        opt.step()
        check(c20.error(np.array(value), np.array(float(elbo))) <= 1e-8, 'objective',
              lambda: f'{what}: {float(elbo)}, expected {value}')
        agree(want, snapshot(vae), TOL, 'training-step', what, loose,
              1.01 * self.plan['s'])
        self.steps += 1
        self.ctx.nontrivial = True


def run(plan, ctx):
    with zoo.double(), core.Scratch() as root, c20.seam(plan['noise']), \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        h = History(plan, ctx, root)
        k = 0
        while True:
            p = sim.spawn(f'main#{k}', h.main)
            sim.run()
            if isinstance(p.exc, core.Violation):
                raise p.exc
            if p.ok or not p.tainted:
                break
            ctx.probe('process killed')
            k += 1
        check(p.ok, 'operation-failed', lambda: f'{p.error}\n{p.tb}')
        ctx.probe(plan['spec']['family'])
        ctx.probe(plan['net']['kind'])
        ctx.probe(f'trained: {plan["part"]}')
        ctx.note(plan['spec']['family'], plan['net'], plan['part'], plan['prior'],
                 plan['ops'], [f['kind'] for f in plan['faults']])
        ctx.absorb(sim)
