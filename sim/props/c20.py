"""C20: the subspace commands optimise the objective they describe."""
import contextlib
import copy
import inspect
import io
import math
import os
import pickle

import numpy as np
import torch

from .. import core, lab as L, train as T, zoo
from ..engine import check, expect
from . import c16
from .c09 import compatible

ID = 'C20'
QUICK, THOROUGH = (970, 200), (12000, 850)
RULE = ('A run makes a (class-based, hierarchical) subspace model from a '
        'phone-loop and drives it through a history of commands (training '
        'with its options and optimizer state, accumulate/update epochs, '
        'prior transfer, re-initialisation), killed and repeated, with the '
        'Gaussian draws behind a seam. After every command the stored files '
        'and the reported objective must be those an independent '
        'implementation of the model (automatic differentiation of the '
        'written-out bound) gets from the files the command was given. '
        'Non-trivial: at least one training command; distinct by model, '
        'commands, options and faults.')
REAL = ['beer shmm/hshmm commands, GSM models, distributions, VBOptimizer',
        'pickle/torch serialisation on scratch files', 'beer hmm commands']
STUB = ['process scheduling and death, uuid4, directory order (simulator)',
        'the Gaussian draws of the subspace commands (a fixed function of the '
        'position given by the plan)', 'the emissions of a state']
ASSUMPTIONS = ['the optimizer state file is restored before a killed command '
               'is run again']
D = torch.float64
LOG2PI = math.log(2 * math.pi)


# ---------------------------------------------------------------------------
# Plans

def gen_train(rng, kind):
    op = {'op': 'train', 'epochs': rng.randint(1, 4), 'k': rng.choice([1, 1, 2, 3]),
          'n': rng.choice([1, 1, 2, 3]), 's': rng.choice([.1, .05, .01]),
          'c': rng.choice([1., 1., .5, .1]), 'carry': rng.random() < .5,
          'flags': [], 'state': rng.random() < .7}
    if kind == 'hshmm':
        op['u'] = rng.choice([1, 1, 2])
        op['flags'] = [f for f in ('-p', '-a', '-b') if rng.random() < .25]
        if len(op['flags']) == 3:       # (nothing to train)
            op['flags'].pop()
        op['clip'] = rng.choice([None, None, .5, 20.])
        if rng.random() < .3:
            op['flags'].append('--sgd')
            op['clip'], op['s'] = rng.choice([.5, 2.]), .01
    elif rng.random() < .25:
        op['flags'] = ['-p']
    return op


def generate(rng, index, tier):
    if rng.random() < .35:
        return gen_library(rng)
    kind = rng.choice(['shmm', 'shmm', 'shmm', 'classes', 'classes', 'hshmm', 'hshmm'])
    scn = L.gen_scenario(rng, nutts=rng.randint(1, 3), minlen=6, maxlen=9, maxunits=4)
    if kind == 'hshmm':
        scn['groups'] = scn['groups'][:1]
        scn['units'] = [[u, scn['groups'][0]['name']] for u, _ in scn['units']]
        scn['startend'] = None
    m = max(g['nstates'] for g in scn['groups'])
    scn['utts'] = [[u, max(n, m)] for u, n in scn['utts']]
    ops = []
    for i in range(rng.randint(1, 5)):
        r = rng.random()
        if r < .6 or i == 0:
            ops.append(gen_train(rng, kind))
        elif r < .75 or kind == 'classes':
            ops.append({'op': 'em', 'lr': rng.choice([1., 1., .5])})
        elif kind == 'hshmm':
            ops.append({'op': 'hinit', 'lang': rng.randint(0, 1),
                        'adapt': rng.choice([None, 0, 1]),
                        'from': rng.choice([None, 0, 1]), 'same': rng.random() < .3,
                        'n': rng.choice([1, 2]), 'k': rng.choice([1, 2])})
        elif r < .85:
            ops.append({'op': 'init'})
        else:
            ops.append({'op': 'prior', 'var': rng.choice([None, 1., .5, 3.]),
                        'old': rng.random() < .3})
    faults = []
    for i in range(len(ops) + 1):
        if rng.random() < .3:
            faults.append({'proc': f'op{i}#0', 'kind': 'kill',
                           'pos': round(rng.random() * 1.05, 3),
                           'frac': round(rng.random(), 2)})
        if rng.random() < .15:
            faults.append({'proc': f'op{i}#0',
                           'kind': rng.choice(T.SOFTKINDS), 'n': rng.randint(0, 20),
                           'frac': round(rng.random(), 2), 'delay': 60.})
    return {'kind': kind, 'scn': scn, 'pre': rng.random() < .75,
            'group': rng.randrange(len(scn['groups'])),
            'latdim': rng.choice([1, 2, 3]), 'dim2': rng.choice([1, 2, 3]),
            'nclasses': rng.choice([1, 2, 2, 3]), 'extra': rng.randint(0, 1),
            'noise': [round(rng.uniform(.1, 1.2), 2), round(rng.uniform(0, 3), 2),
                      round(rng.uniform(-.5, .5), 2) if rng.random() < .8 else 0.],
            'single': rng.random() < .1,
            'ops': ops, 'faults': faults, 'sched': T.gen_sched(rng)}


def shrink(plan):
    ops = plan['ops']
    if plan['kind'] == 'library':
        for i in range(len(ops)):
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
        for i, o in enumerate(ops):
            for new in ({'cut': None}, {'n': 1, 'k': 1}):
                if o['op'] == 'step' and any(o[k] != v for k, v in new.items()):
                    yield dict(plan, ops=ops[:i] + [dict(o, **new)] + ops[i + 1:])
        for k, v in (('nmodels', 1), ('dim', 1), ('latdim', 1), ('ncomp', 0),
                     ('nclasses', 0), ('cov', 'diagonal'), ('post', 'diagonal'),
                     ('strength', 1.)):
            if plan['lib'][k] != v:
                yield dict(plan, lib=dict(plan['lib'], **{k: v}))
        return
    if len(ops) > 1:
        for i in range(len(ops)):
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if o['op'] == 'train':
            for new in ({'epochs': 1}, {'flags': []}, {'k': 1, 'n': 1},
                        {'carry': False, 'state': False}):
                if any(o[k] != v for k, v in new.items()):
                    yield dict(plan, ops=ops[:i] + [dict(o, **new)] + ops[i + 1:])
    if plan['pre']:
        yield dict(plan, pre=False)
    if plan['noise'][2]:
        yield dict(plan, noise=plan['noise'][:2] + [0.])
    for k in ('latdim', 'dim2', 'nclasses'):
        if plan[k] > 1:
            yield dict(plan, **{k: 1})
    if plan['extra']:
        yield dict(plan, extra=0)
    for scn in L.shrink_scenario(plan['scn']):
        if plan['group'] < len(scn['groups']):
            yield dict(plan, scn=scn)


# ---------------------------------------------------------------------------
# The seam: standard normal draws are a function of the position.

def draws(noise, shape, dtype=D):
    a, b, c = noise
    z = a * torch.cos(1.3 * torch.arange(shape[-1], dtype=D) + b)
    if len(shape) >= 2:
        s = torch.arange(shape[-2], dtype=D)
        z = z * (1 + c * s)[:, None]
    return z.expand(*shape).to(dtype).clone() if len(shape) else z[0]


@contextlib.contextmanager
def seam(noise):
    names = ['randn', 'randn_like', 'normal']
    old = {n: getattr(torch, n) for n in names}
    inplace = torch.Tensor.normal_

    def randn(*size, dtype=None, device=None, requires_grad=False, generator=None, **kw):
        if 'size' in kw:
            size = kw['size']
        if len(size) == 1 and not isinstance(size[0], int):
            size = tuple(size[0])
        return draws(noise, tuple(size),
                     dtype or torch.get_default_dtype()).requires_grad_(requires_grad)

    def randn_like(x, **kw):
        return draws(noise, tuple(x.shape), x.dtype)

    def normal(mean=0., std=1., size=None, **kw):
        if size is None:
            size = (mean if isinstance(mean, torch.Tensor) else std).shape
        return mean + std * draws(noise, tuple(size), getattr(
            mean, 'dtype', getattr(std, 'dtype', torch.get_default_dtype())))

    def normal_(self, mean=0., std=1., **kw):
        with torch.no_grad():
            return self.copy_(mean + std * draws(noise, tuple(self.shape), self.dtype))
    torch.randn, torch.randn_like, torch.normal = randn, randn_like, normal
    torch.Tensor.normal_ = normal_
    try:
        yield
    finally:
        for n in names:
            setattr(torch, n, old[n])
        torch.Tensor.normal_ = inplace


# ---------------------------------------------------------------------------
# The reference

def tens(x):
    return x.detach().to(D).clone()


def logdiag(dist):
    'Mean and log of the diagonal (and the rest) of a stored distribution.'
    p = dist.params
    if hasattr(p, 'L_offdiag'):
        return {'m': tens(p.mean), 'l': tens(p.log_diag_L), 'o': tens(p.L_offdiag)}
    return {'m': tens(p.mean), 'l': tens(p.log_diag_cov)}


def factor(q):
    'Cholesky factors of the covariance matrices.'
    if 'o' not in q:
        return torch.diag_embed(variance(q['l']).sqrt())
    d = q['l'].shape[-1]
    rows, k = [], 0
    for i in range(d):
        row = [q['o'][:, k + j] for j in range(i)] + [1e-3 + q['l'][:, i].exp()]
        k += i
        row += [torch.zeros_like(q['l'][:, 0])] * (d - 1 - i)
        rows.append(torch.stack(row, -1))
    return torch.stack(rows, -2)


def variance(l):
    return 1e-4 + l.exp()


def kl_diag(q, p):
    vq, vp = variance(q['l']), variance(p['l'])
    return .5 * (vq / vp + (q['m'] - p['m']) ** 2 / vp - 1 - (vq / vp).log()).sum()


def wishart(dist):
    p = dist.params
    return {'m': tens(p.mean).view(-1), 'k': tens(p.scale).view(()),
            'W': tens(p.scale_matrix), 'v': tens(p.dof).view(())}


def mvdigamma(v, d):
    return torch.digamma(.5 * (v + 1 - torch.arange(1, d + 1, dtype=D))).sum()


def expected_normal(p, x):
    'E[ln N(x; mean, precision)] under a Normal-Wishart.'
    d = len(p['m'])
    diff = x - p['m']
    eld = mvdigamma(p['v'], d) + d * math.log(2) + torch.logdet(p['W'])
    quad = ((diff @ p['W']) * diff).sum(-1)
    return .5 * (eld - d * LOG2PI - d / p['k'] - p['v'] * quad)


def kl_wishart(q, p):
    d = len(q['m'])
    i = torch.arange(1, d + 1, dtype=D)
    eld = mvdigamma(q['v'], d) + d * math.log(2) + torch.logdet(q['W'])
    diff = q['m'] - p['m']
    norm = .5 * d * (p['k'] / q['k'] - 1 - (p['k'] / q['k']).log()) \
        + .5 * p['k'] * q['v'] * (diff @ q['W'] @ diff)

    def lognorm(w, v):
        return .5 * v * torch.logdet(w) + .5 * v * d * math.log(2) \
            + torch.lgamma(.5 * (v + 1 - i)).sum()
    return norm + lognorm(p['W'], p['v']) - lognorm(q['W'], q['v']) \
        + .5 * (q['v'] - p['v']) * eld - .5 * q['v'] * d \
        + .5 * q['v'] * torch.trace(torch.linalg.inv(p['W']) @ q['W'])


def step_wishart(q, p, x, lr):
    'Natural gradient step with the points x (mean over the second axis).'
    def pseudo(s):
        return [s['k'] * s['m'], torch.linalg.inv(s['W'])
                + s['k'] * torch.outer(s['m'], s['m']), s['k'], s['v']]
    n = len(x)
    stats = [x.mean(1).sum(0), torch.einsum('usi,usj->uij', x, x).sum(0) / x.shape[1],
             torch.tensor(float(n), dtype=D), torch.tensor(float(n), dtype=D)]
    new = [(1 - lr) * a + lr * (b + c) for a, b, c in zip(pseudo(q), pseudo(p), stats)]
    m = new[0] / new[2]
    return {'m': m, 'k': new[2], 'v': new[3],
            'W': torch.linalg.inv(new[1] - new[2] * torch.outer(m, m))}


def kl_dirichlet(q, p):
    return torch.lgamma(q.sum()) - torch.lgamma(q).sum() \
        - torch.lgamma(p.sum()) + torch.lgamma(p).sum() \
        + ((q - p) * (torch.digamma(q) - torch.digamma(q.sum()))).sum()


class Emissions:
    'How real vectors are mapped to the emissions of a unit.'

    def __init__(self, dim, cov, ncomp, nstates, order):
        self.dim, self.cov, self.ncomp, self.nstates = dim, cov, ncomp, nstates
        self.order = order              # 'weights' and 'normals', as stored
        offdiag = dim * (dim - 1) // 2
        self.size = {'weights': (nstates, ncomp - 1), 'normals': (nstates * ncomp, {
            'full': 2 * dim + offdiag, 'diagonal': 2 * dim, 'isotropic': dim + 1}[cov])}
        self.out_dim = sum(n * d for n, d in self.size.values())

    def normals(self, r):
        d = self.dim
        mean = r[..., :d]
        if self.cov == 'isotropic':
            logp = r[..., d:d + 1]
            return torch.cat([logp.exp() * mean, logp.exp(),
                              logp.exp() * (mean ** 2).sum(-1, keepdim=True), logp], -1)
        logp = r[..., d:2 * d]
        if self.cov == 'diagonal':
            return torch.cat([logp.exp() * mean, logp.exp(),
                              (logp.exp() * mean ** 2).sum(-1, keepdim=True),
                              logp.sum(-1, keepdim=True)], -1)
        rows, k = [], 2 * d
        for i in range(d):
            row = [r[..., k + j] for j in range(i)] + [(.5 * logp[..., i]).exp()]
            k += i
            row += [torch.zeros_like(mean[..., 0])] * (d - 1 - i)
            rows.append(torch.stack(row, -1))
        low = torch.stack(rows, -2)
        prec = low @ low.transpose(-1, -2)
        pm = (prec @ mean[..., None])[..., 0]
        return torch.cat([pm, prec.reshape(*prec.shape[:-2], d * d),
                          (pm * mean).sum(-1, keepdim=True),
                          logp.sum(-1, keepdim=True)], -1)

    def weights(self, r):
        return torch.cat([r, -torch.log1p(r.exp().sum(-1, keepdim=True))], -1)

    def split(self, r):
        'name -> the emissions for vectors of the super-vector space.'
        out, i = {}, 0
        for name in self.order:
            n, d = self.size[name]
            part = r[..., i:i + n * d].reshape(*r.shape[:-1], n, d)
            out[name] = getattr(self, name)(part)
            i += n * d
        return out


def samples(q, noise, n):
    'Points drawn from Normals: [pdf, sample, dim].'
    if q['m'].dim() == 1:
        q = {k: v[None] for k, v in q.items()}
    if 'o' not in q:
        return q['m'][:, None] + variance(q['l']).sqrt()[:, None] \
            * draws(noise, (n, q['m'].shape[-1]))
    return q['m'][:, None] + draws(noise, (n, q['m'].shape[-1])) \
        @ factor(q).transpose(-1, -2)


def entropy(q, x):
    'Minus the mean log-density of the points.'
    d = q['m'].shape[-1]
    low = factor(q)
    z = torch.linalg.solve_triangular(low, (x - q['m'][:, None]).transpose(-1, -2),
                                      upper=False)
    logdet = torch.diagonal(low, dim1=-2, dim2=-1).log().sum(-1)
    return .5 * (z ** 2).sum(1).mean(-1) + logdet + .5 * d * LOG2PI


def matrix(q, noise, n, rows):
    x = samples(q, noise, n)[0]
    return x.reshape(n, rows, -1)


class Ref:
    'Learnable and fixed quantities of the stored state of a training.'

    def __init__(self, kind, files, langs, scn, group):
        self.kind, self.langs = kind, langs
        gsm, posts = L.load(files.gsm()), L.load(files.posts())
        self.meta = [pickle.dumps(x) for x in posts[2:]]
        g = scn['groups'][group]
        self.q, self.p, self.nw, self.nw0, self.dir = {}, {}, {}, {}, None
        q, p = self.q, self.p
        if kind == 'hshmm':
            root = gsm['root']
            # How often the root is drawn for each language sample.
            tr = type(gsm['langs'][langs[0]].transform)
            self.rootsamples = inspect.signature(tr.forward) \
                .parameters['params_nsamples'].default
            tr = root.shared_transform
            tpl = gsm['langs'][langs[0]].model
            for a in ('weights', 'bias'):
                q[a] = logdiag(getattr(tr, a).posterior)
                p[a] = logdiag(getattr(tr, a).prior)
            self.wishart('root', root.latent_prior)
            for lang in langs:
                lg = gsm['langs'][lang]
                q[f'lang {lang}'] = logdiag(lg.transform.latent_posterior)
                q[f'units {lang}'] = logdiag(posts[0][lang])
                self.wishart(f'unit {lang}', lg.latent_prior)
                self.wishart(f'lang {lang}', lg.transform.latent_prior)
                for a in ('weights', 'bias'):
                    self.same_root(lang, lg, tr, a)
        else:
            tpl = self.flat(gsm, posts[0], posts[4] if kind == 'classes' else None)
        self.em = Emissions(scn['dim'], g['cov'], g['ncomp'], g['nstates'], [])
        self.order(tpl)
        check(sorted(self.em.order) == ['normals', 'weights'], 'template',
              lambda: f'{self.em.order}')
        self.stats, self.pdf, self.rest = {}, {}, {}
        for lang in langs:
            mdl = L.load(files.lang(lang))
            sets = mdl.modelset.original_modelset.modelsets
            units = sets[group if kind != 'hshmm' else 0]
            pars = {'weights': units.categoricalset.weights,
                    'normals': units.modelset.means_precisions}
            n = len(units) // g['nstates']
            self.stats[lang] = {k: tens(v.stats).reshape(n, -1, v.stats.shape[-1])
                                for k, v in pars.items()}
            if hasattr(pars['weights'], 'pdfvec'):
                self.pdf[lang] = {k: tens(v.pdfvec).reshape(n, -1, v.pdfvec.shape[-1])
                                  for k, v in pars.items()}
                self.readable(lang, pars)
            # Everything else.
            mine = {id(x) for x in pars.values()}
            rest = {}
            for i, x in enumerate(mdl.bayesian_parameters()):
                if id(x) not in mine and x.posterior is not None:
                    for k, v in L.std_params(x.posterior).items():
                        rest[f'{i}.{k}'] = v
                    for k, v in L.std_params(x.prior).items():
                        rest[f'{i}.prior.{k}'] = v
            for a in ('init', 'final', 'trans'):
                rest[a] = getattr(mdl.graph, f'{a}_log_probs').double().numpy()
            self.rest[lang] = rest
        self.gsm = gsm
        self.loose = {}             # entries whose gradient vanishes

    def flat(self, gsm, posts, labels):
        'A model with one subspace; returns the template of its units.'
        q, p = self.q, self.p
        sub = gsm.modelset if self.kind == 'classes' else gsm
        for a in ('weights', 'bias'):
            q[a] = logdiag(getattr(sub.transform, a).posterior)
            p[a] = logdiag(getattr(sub.transform, a).prior)
        q['units '] = logdiag(posts)
        self.wishart('latent', sub.latent_prior)
        if self.kind == 'classes':
            w = sub.disc_transform.weights
            q['disc'], p['disc'] = logdiag(w.posterior), logdiag(w.prior)
            q['means'] = logdiag(sub.means.posterior)
            self.wishart('dlatent', sub.means.prior)
            c = gsm.categorical.weights
            self.dir = tens(c.posterior.params.concentrations)
            self.dir0 = tens(c.prior.params.concentrations)
            self.labels = labels
        return sub.model

    @classmethod
    def library(cls, kind, gsm, models, posts, labels, em):
        'The state of a model living in memory.'
        self = cls.__new__(cls)
        self.kind, self.langs, self.gsm, self.em = kind, [''], gsm, em
        self.q, self.p, self.nw, self.nw0, self.dir = {}, {}, {}, {}, None
        self.meta, self.loose = [], {}
        self.order(self.flat(gsm, posts, labels))
        parts = [self.named(m) for m in models]
        self.stats = {'': {k: torch.stack([tens(x[k].stats).reshape(
            em.size[k][0], -1) for x in parts]) for k in em.order}}
        self.pdf = {'': {k: torch.stack([tens(x[k].pdfvec).reshape(
            em.size[k][0], -1) for x in parts]) for k in em.order}}
        self.rest = {'': {}}
        return self

    @staticmethod
    def named(model):
        return {'weights' if type(x.likelihood_fn).__name__.startswith('Categ')
                else 'normals': x for x in model.bayesian_parameters()}

    def order(self, tpl):
        self.em.order = list(self.named(tpl))
        self.em.out_dim = sum(n * d for n, d in (self.em.size[k] for k in self.em.order))

    def same_root(self, lang, lg, tr, a):
        x = logdiag(getattr(lg.transform.root_transform, a).posterior)
        y = logdiag(getattr(tr, a).posterior)
        for k in x:
            if not torch.equal(x[k], y[k]):
                self.detached = True

    def readable(self, lang, pars):
        'The parameters read from a model are those of its emissions.'
        d = self.em.dim
        w = tens(pars['weights'].value())
        pdf = self.pdf[lang]['weights'].reshape(w.shape)
        want = torch.softmax(torch.cat([pdf[..., :-1], 0. * pdf[..., -1:]], -1), -1)
        check(error(want.numpy(), w.numpy()) <= 1e-4, 'values',
              lambda: f'weights {w}, expected {want}')
        mean, prec = (tens(x) for x in pars['normals'].value())
        pdf = self.pdf[lang]['normals'].reshape(-1, self.pdf[lang]['normals'].shape[-1])
        size = {'full': d * d, 'diagonal': d, 'isotropic': 1}[self.em.cov]
        p = pdf[:, d:d + size]
        check(error(p.numpy().reshape(-1), prec.numpy().reshape(-1)) <= 1e-4, 'values',
              lambda: f'precision {prec}, expected {p}')
        full = p.reshape(-1, d, d) if self.em.cov == 'full' else \
            torch.diag_embed(p.expand(-1, d))
        got = torch.einsum('kij,kj->ki', full, mean)
        check(error(pdf[:, :d].numpy(), got.numpy()) <= 1e-3, 'values',
              lambda: f'means {mean}')

    def wishart(self, name, normal):
        self.nw[name] = wishart(normal.mean_precision.posterior)
        self.nw0[name] = wishart(normal.mean_precision.prior)

    # -- the model

    def transforms(self, lang, noise, k):
        'Samples of (W, b) of the affine map to the super-vector space.'
        q = self.q
        if self.kind != 'hshmm':
            dim = q[f'units {lang}']['m'].shape[-1]
            return matrix(q['weights'], noise, k, dim), samples(q['bias'], noise, k)[0]
        g = samples(q[f'lang {lang}'], noise, k)[0]
        n = self.rootsamples
        w = matrix(q['weights'], noise, n, g.shape[-1])
        v = torch.einsum('kg,rgp->krp', g, w) + samples(q['bias'], noise, n)[0]
        v = v.reshape(k * n, -1)
        dim = q[f'units {lang}']['m'].shape[-1]
        size = dim * self.em.out_dim
        return v[:, :size].reshape(k * n, dim, -1), v[:, size:]

    def image(self, lang, noise, n, k):
        '''name -> emissions [units, rows, dim] (with a first axis of classes
        when there are some), the points drawn, their class-means.'''
        h = samples(self.q[f'units {lang}'], noise, n)
        w, b = self.transforms(lang, noise, k)
        r = torch.einsum('unl,klp->unkp', h, w) + b
        means = None
        if self.kind == 'classes':
            means = samples(self.q['means'], noise, n)
            v = matrix(self.q['disc'], noise, k, means.shape[-1])
            r = r[None] + torch.einsum('cnl,klp->cnkp', means, v)[:, None]
        return {key: x.mean((-4, -3)) for key, x in self.em.split(r).items()}, h, means

    def fit(self, lang, em, h, prior):
        'Expected log-likelihood minus KL of the latent variable, per unit.'
        llh = sum((em[key] * self.stats[lang][key]).sum((-1, -2)) for key in em)
        xent = -expected_normal(self.nw[prior], h).mean(1)
        return llh - (xent - entropy(self.q[f'units {lang}'], h))

    def bound(self, noise, op):
        'The evidence lower bound, and the emissions used.'
        q, p = self.q, self.p
        n = op['u'] if self.kind == 'hshmm' else op['n']
        ems, self.points = {}, {}
        total = -kl_diag(q['weights'], p['weights']) - kl_diag(q['bias'], p['bias'])
        for lang in self.langs:
            em, h, means = self.image(lang, noise, n, op['k'])
            if self.kind == 'hshmm':
                fit = self.fit(lang, em, h, f'unit {lang}')
                g = samples(q[f'lang {lang}'], noise, op['n'])
                local = -expected_normal(self.nw['root'], g).mean(1) \
                    - entropy(q[f'lang {lang}'], g)
                total = total + fit.sum() - local.sum() \
                    - kl_wishart(self.nw[f'unit {lang}'], self.nw0[f'unit {lang}'])
            elif self.kind == 'classes':
                fit = self.fit(lang, em, h, 'latent')       # classes x units
                if self.labels is None:
                    logw = torch.digamma(self.dir) - torch.digamma(self.dir.sum())
                    resps = torch.softmax((fit + logw[:, None]).detach(), 0)
                    total = total - (resps * (resps.log() - logw[:, None])).sum()
                else:
                    resps = torch.zeros_like(fit)
                    resps[self.labels, torch.arange(len(self.labels))] = 1.
                fit = (resps * fit).sum(0)
                em = {key: (resps[:, :, None, None] * x).sum(0) for key, x in em.items()}
                self.counts = resps.sum(1).detach()
                local = -expected_normal(self.nw['dlatent'], means).mean(1) \
                    - entropy(q['means'], means)
                total = total + fit.sum() - local.sum() - kl_diag(q['disc'], p['disc']) \
                    - kl_wishart(self.nw['latent'], self.nw0['latent']) \
                    - kl_wishart(self.nw['dlatent'], self.nw0['dlatent']) \
                    - kl_dirichlet(self.dir, self.dir0)
                self.points['dlatent'] = means.detach()
            else:
                fit = self.fit(lang, em, h, 'latent')
                total = total + fit.sum() \
                    - kl_wishart(self.nw['latent'], self.nw0['latent'])
            self.points['latent'] = h.detach()
            ems[lang] = {key: x.detach() for key, x in em.items()}
        if self.kind == 'hshmm':
            total = total - kl_wishart(self.nw['root'], self.nw0['root'])
        return total, ems

    # -- training

    def trainable(self, flags):
        out = []
        for name in self.q:
            if self.kind == 'hshmm':
                f = '-a' if name.startswith('lang ') else \
                    '-b' if name.startswith('units ') else '-p'
                if f in flags:
                    continue
            elif '-p' in flags and not name.startswith('units '):
                continue
            out.append(name)
        return out

    def groups(self):
        'Names of the conjugate parameters, in groups updated in turn.'
        if self.kind != 'classes':
            return [['latent']] if self.kind == 'shmm' else []
        sub = self.gsm.modelset
        names = {id(sub.latent_prior.mean_precision): 'latent',
                 id(sub.means.prior.mean_precision): 'dlatent',
                 id(self.gsm.categorical.weights): 'weights'}
        return [[names[id(x)] for x in g]
                for g in self.gsm.conjugate_bayesian_parameters(keepgroups=True)]

    def copy(self):
        new = copy.copy(self)
        new.q = {name: dict(x) for name, x in self.q.items()}
        new.nw = dict(self.nw)
        return new

    def train(self, noise, op, state, push=None):
        '''Train in place. state: name -> optimizer state of a previous command
        (or None). push: give this sign to the gradients that vanish. Returns
        the objectives and the new optimizer state.'''
        leaves = {}
        for name in self.trainable(op['flags']):
            for a in list(self.q[name]):
                self.q[name][a] = leaves[name, a] = \
                    self.q[name][a].clone().requires_grad_(True)
        if '--sgd' in op['flags']:
            optim = torch.optim.SGD(list(leaves.values()), lr=op['s'])
        else:
            optim = torch.optim.Adam(list(leaves.values()), lr=op['s'])
        count = 0
        keep = {}
        if state is not None:
            count = state['count']
            keep = dict(state['std'])
            for key, leaf in leaves.items():
                if key in keep:
                    optim.state[leaf] = {a: v.clone() if isinstance(v, torch.Tensor)
                                         else v for a, v in keep[key].items()}
        groups = self.groups()
        values = []
        self.loose = {}
        for _ in range(op['epochs']):
            optim.zero_grad()
            value, ems = self.bound(noise, op)
            (-value).backward()
            values.append(float(value))
            small = 1e-6 * max([1.] + [float(x.grad.abs().max()) / 100
                                       for x in leaves.values()
                                       if x.grad is not None and x.numel()])
            for (name, a), leaf in leaves.items():
                # Adam may follow the sign of what rounding left of a zero.
                null = torch.zeros_like(leaf, dtype=torch.bool) if leaf.grad is None \
                    else leaf.grad.abs() < small
                key = f'posterior {name}.{a}'
                if '--sgd' not in op['flags']:
                    self.loose[key] = self.loose.get(key, False) | null.numpy()
                if push is not None and leaf.grad is not None:
                    sign = torch.ones_like(leaf).reshape(-1)
                    sign[::2] = -1.
                    leaf.grad[null] = (sign.view_as(leaf) * push * small)[null]
            if (op.get('clip') or 0) > 0:
                torch.nn.utils.clip_grad_norm_(list(leaves.values()), op['clip'])
            optim.step()
            if groups and not ('-p' in op['flags']):
                self.conjugate(groups[count % len(groups)], op['c'])
            count += 1
            self.pdf = ems
        for name, a in leaves:
            self.q[name][a] = self.q[name][a].detach()
        for key, leaf in leaves.items():
            if leaf in optim.state:
                keep[key] = optim.state[leaf]
        return values, {'std': keep, 'count': count}

    def conjugate(self, names, lr):
        for name in names:
            if name == 'weights':
                self.dir = (1 - lr) * self.dir + lr * (self.dir0 + self.counts)
            else:
                self.nw[name] = step_wishart(self.nw[name], self.nw0[name],
                                             self.points[name], lr)

    def arrays(self):
        out = {}
        for part, d in (('posterior', self.q), ('prior', self.p), ('normal', self.nw),
                        ('normal prior', self.nw0)):
            for name, x in d.items():
                for a, v in x.items():
                    out[f'{part} {name}.{a}'] = v.detach().numpy()
        if self.dir is not None:
            out['classes'] = self.dir.numpy()
            out['classes prior'] = self.dir0.numpy()
            if self.labels is not None:
                out['labels'] = self.labels.numpy()
        for lang in self.langs:
            for key in [k for k in ('weights', 'normals') if k in self.stats[lang]]:
                out[f'statistics {lang}.{key}'] = self.stats[lang][key].numpy()
                if lang in self.pdf:
                    out[f'emissions {lang}.{key}'] = self.pdf[lang][key].numpy()
            for k, v in self.rest[lang].items():
                out[f'others {lang}.{k}'] = v
        return out


def agree(pred, got, tol, kind, what, skip=(), loose=0.,
          slack=None):
    check(pred.meta == got.meta, kind, lambda: f'{what}: {pred.meta} {got.meta}')
    a, b = pred.arrays(), got.arrays()
    check(sorted(a) == sorted(b), kind, lambda: f'{what}: entries '
          f'{sorted(set(a) ^ set(b))}')
    for k in a:
        if k.startswith(skip) if skip else False:
            continue
        check(a[k].shape == b[k].shape, kind,
              lambda: f'{what}: {k}: shape {b[k].shape} instead of {a[k].shape}')
        t = 0. if k.startswith('others') else tol + (slack or {}).get(k, 0.)
        x, y = a[k], b[k]
        if k in pred.loose and pred.loose[k].any():
            check(error(x, y) <= loose, kind,
                  lambda: f'{what}: {k}: {y}, expected {x}')
            x, y = x[~pred.loose[k]], y[~pred.loose[k]]
        e = error(x, y)
        check(e <= t, kind, lambda: f'{what}: {k}: error {e:.3g}\n'
              f'expected {a[k].reshape(-1)[:8]}\ngot {b[k].reshape(-1)[:8]}')


def error(a, b):
    if a.size == 0 or np.array_equal(a, b):
        return 0.
    if not np.isfinite(b).all():
        return float('inf')
    d = np.abs(a - b)
    return float((d / np.maximum(1., np.maximum(np.abs(a), np.abs(b)))).max())


# ---------------------------------------------------------------------------

def convert(path, dtype):
    'Store a file again with another precision.'
    obj = L.load(path)
    done = set()

    def visit(x):
        if id(x) in done:
            return
        done.add(id(x))
        if isinstance(x, torch.nn.Module):
            x.to(dtype)
            for m in x.modules():
                done.add(id(m))
                for k, v in vars(m).items():
                    if isinstance(v, torch.Tensor) and v.is_floating_point():
                        setattr(m, k, v.to(dtype))
        elif isinstance(x, dict):
            for v in x.values():
                visit(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                visit(v)
    visit(obj)
    L.write(path, pickle.dumps(obj))


class Files:
    def __init__(self, kind, lab, tag):
        self.kind, self.lab, self.tag = kind, lab, tag

    def gsm(self):
        return self.lab(f'gsm{self.tag}')

    def posts(self):
        return self.lab(f'posts{self.tag}')

    def sploop(self):
        return self.lab(f'{self.tag}.mdl')

    def lang(self, lang):
        return self.sploop() + (f'_{lang}' if self.kind == 'hshmm' else '')


class World:
    def __init__(self, plan, ctx, sim, root):
        self.plan, self.ctx, self.sim = plan, ctx, sim
        self.kind, self.scn = plan['kind'], plan['scn']
        self.hs = self.kind == 'hshmm'
        self.langs = ['l1', 'l2'] if self.hs else ['']
        self.group = 0 if self.hs else plan['group']
        self.lab = L.Lab(sim, root, self.scn, ctx)
        self.noise = plan['noise']
        self.tol = 2e-4 if plan['single'] else 1e-6
        self.seen = set()

    # -- commands

    def command(self, name, argv, restore=()):
        'A command with the seam in place, run again when it was killed.'
        keep = {f: L.read_bytes(f) if os.path.exists(f) else None for f in restore}
        for k in range(3):
            with seam(self.noise), contextlib.ExitStack() as stack:
                if not self.plan['single']:
                    stack.enter_context(zoo.double())
                p = self.lab.beer(f'{name}#{k}', argv, must=False)
            if p.ok or not p.tainted:
                break
            self.ctx.probe('command killed')
            for f, data in keep.items():
                if data is not None:
                    L.write(f, data)
                elif os.path.exists(f):
                    core._orig['remove'](f)
        self.lab.must(p)
        return p

    def ref(self, files):
        with expect(f'files of state {files.tag}'):
            return Ref(self.kind, files, self.langs, self.scn, self.group)

    def ploop(self, tag, extra):
        lab, scn = self.lab, self.scn
        sub = dict(scn)
        if extra:
            sub['units'] = scn['units'] + [
                ['xx', scn['groups'][self.group]['name']]]
        lab.scn = sub
        lab.inputs(fea=False)
        lab.model(tag)
        mdl = '0.mdl'
        if self.plan['pre']:
            lab.beer(f'pre{tag}', lab.acc_argv('0.mdl', 'pre'),
                     L.stdin_utts([u for u, _ in scn['utts']]))
            lab.beer(f'preupd{tag}', lab.upd_argv('0.mdl', '1.mdl'), lab('pre') + '\n')
            mdl = '1.mdl'
        lab.scn = scn
        out = lab(f'ploop{tag}')
        L.write(out, L.read_bytes(lab(mdl)))
        if not self.plan['single']:
            convert(out, D)
        return out

    def make(self, name, files, ploops):
        plan, lab, scn = self.plan, self.lab, self.scn
        mk = ['hshmm' if self.hs else 'shmm', 'mksphoneloop', '-g',
              scn['groups'][self.group]['name'], '-l', plan['latdim']]
        if self.hs:
            L.write(lab('map'), ''.join(f'{p} {g}\n' for p, g in zip(ploops, self.langs)))
            mk += ['-t', plan['dim2'], lab('conf.yml'), lab('map')]
        else:
            if self.kind == 'classes':
                L.write(lab('classes'), ''.join(
                    f'{u} {"cba"[i % plan["nclasses"]]}\n' for u, i in self.classes()))
                mk += ['-c', lab('classes'), '-d', plan['dim2']]
            mk += [lab('conf.yml'), ploops[0]]
        self.command(name, mk + [files.gsm(), files.posts(), files.sploop()])

    def classes(self):
        name = self.scn['groups'][self.group]['name']
        return [(u, i) for i, (u, g) in enumerate(self.scn['units']) if g == name]

    # -- what the new models must be

    def check_made(self, files, ploops):
        plan, em = self.plan, None
        got = self.ref(files)
        em = got.em
        hs, group = self.hs, self.scn['groups'][self.group]
        tol = 1e-5 if not plan['single'] else 1e-3
        counts = {}

        def same(a, b, what):
            a = torch.as_tensor(a, dtype=D)
            b = torch.as_tensor(b, dtype=D)
            check(a.shape == b.shape, 'new-model',
                  lambda: f'{what}: shape {tuple(b.shape)}, expected {tuple(a.shape)}')
            e = error(a.numpy(), b.numpy())
            check(e <= tol, 'new-model', lambda: f'{what}: {b}, expected {a}')
        latdim = plan['dim2'] if hs else plan['latdim']
        P = em.out_dim
        for lang, path in zip(self.langs, ploops):
            ploop = L.load(path)
            units = ploop.modelset.original_modelset.modelsets[self.group]
            n = counts[lang] = len(units) // group['nstates']
            # The statistics of the units: what was collected, spread evenly.
            w, x = units.categoricalset.weights, units.modelset.means_precisions
            diff = [tens(p.posterior.natural_parameters())
                    - tens(p.prior.natural_parameters()) for p in (w, x)]
            ws = diff[0].reshape(n, group['nstates'], group['ncomp'])
            xs = diff[1].reshape(n, -1, diff[1].shape[-1])
            total = ws[:, :, -1].sum(1)
            K = group['ncomp']
            new = total[:, None, None].repeat(1, group['nstates'], K) / (3 * K)
            new[:, :, -1] = total[:, None] / 3
            same(new, got.stats[lang]['weights'], f'statistics of the weights {lang}')
            mean = xs.sum(1, keepdim=True) / K
            same(mean.expand_as(xs), got.stats[lang]['normals'],
                 f'statistics of the Normals {lang}')
            same(torch.zeros(n, latdim), got.q[f'units {lang}']['m'], 'latent means')
            same(torch.zeros(n, latdim) - math.log(latdim),
                 got.q[f'units {lang}']['l'], 'latent variances')
        ins, outs = (plan['latdim'], P * (latdim + 1)) if hs else (latdim, P)
        for d in (got.q, got.p):
            for a in 'ml':
                same(torch.zeros(ins * outs), d['weights'][a], f'weights {a}')
                same(torch.zeros(outs), d['bias'][a], f'bias {a}')
        dims = {'latent': latdim, 'dlatent': plan['dim2'], 'root': plan['latdim']}
        for name, nw in list(got.nw.items()) + [(k, v) for k, v in got.nw0.items()]:
            d = dims.get(name) or (plan['latdim'] if name.startswith('lang ') else latdim)
            same(torch.zeros(d), nw['m'], f'mean of {name}')
            same(torch.eye(d), nw['v'] * nw['W'], f'precision of {name}')
        if hs:
            for lang in self.langs:
                same(torch.zeros(1, plan['latdim']), got.q[f'lang {lang}']['m'], 'language')
                same(torch.zeros(1, plan['latdim']) - math.log(plan['latdim']),
                     got.q[f'lang {lang}']['l'], 'language')
        if self.kind == 'classes':
            cls = [i % plan['nclasses'] for _, i in self.classes()]
            names = sorted({'cba'[c] for c in cls})
            unit = {u: 'cba'[i % plan['nclasses']] for u, i in self.classes()}
            order = sorted(unit, key=lambda u: ploop.start_pdf[u])
            want = [names.index(unit[u]) for u in order]
            check(got.labels.tolist() == want, 'new-model',
                  lambda: f'labels {got.labels}, expected {want} ({unit})')
            C = len(names)
            same(torch.zeros(C, plan['dim2']), got.q['means']['m'], 'class means')
            same(torch.zeros(C, plan['dim2']) - math.log(plan['dim2']),
                 got.q['means']['l'], 'class means')
            for d in (got.q, got.p):
                for a in 'ml':
                    same(torch.zeros(plan['dim2'] * P), d['disc'][a], f'disc {a}')
            same(got.dir0, got.dir, 'class weights')
            same(torch.full((C,), 1 / C), got.dir, 'class weights')
        posts = L.load(files.posts())
        if hs:
            check([len(posts[1][g]) for g in self.langs] == list(counts.values()),
                  'new-model', 'number of units')
        else:
            check(posts[1] == counts[''], 'new-model', f'{posts[1]} units')
            check(posts[3] == self.group, 'new-model', f'group {posts[3]}')
        check(posts[2] == group['nstates'], 'new-model', f'{posts[2]} states')
        self.check_image(got, 1, 1, tol, 'mksphoneloop')
        return got

    def check_image(self, got, n, k, tol, what, langs=None):
        for lang in langs or self.langs:
            want, _, _ = got.image(lang, self.noise, n, k)
            if self.kind == 'classes':
                # Every class is a valid start: the first one is taken.
                continue
            for key, v in want.items():
                e = error(v.numpy(), got.pdf[lang][key].numpy())
                check(e <= tol, 'emissions', lambda: f'{what}: {lang} {key}: '
                      f'{got.pdf[lang][key].reshape(-1)[:8]}, expected '
                      f'{v.reshape(-1)[:8]}')

    # -- operations

    def run(self):
        plan, lab, scn, ctx = self.plan, self.lab, self.scn, self.ctx
        lab.dataset()
        ploops = [self.ploop(g, i and plan['extra']) for i, g in enumerate(self.langs)]
        cur = Files(self.kind, lab, 'start')
        start = cur
        self.make('op0', cur, ploops)
        state = self.check_made(cur, ploops)
        other = None
        optim, last = None, None
        for i, op in enumerate(plan['ops'], 1):
            dst = Files(self.kind, lab, f's{i}')
            name = op['op']
            ctx.probe(name)
            if name == 'train':
                state, optim, last = self.train(f'op{i}', op, cur, dst, state, optim, last)
                ctx.nontrivial = True
            elif name == 'em':
                self.em(f'op{i}', op, cur, dst)
                new = self.ref(dst)
                keep = new.stats
                new.stats = state.stats
                agree(state, new, 0., 'em-changed', f'accumulate/update ({op})',
                      skip=('others',))
                new.stats = keep
                state = new
            elif name == 'init':
                self.command(f'op{i}', ['shmm', 'init', cur.gsm(), cur.posts(),
                                        cur.sploop(), dst.sploop()])
                for f in ('gsm', 'posts'):
                    L.write(getattr(dst, f)(), L.read_bytes(getattr(cur, f)()))
                want = state
                want.pdf = {'': want.image('', self.noise, 1, 1)[0]}
                state = self.ref(dst)
                agree(want, state, self.tol, 'init', 'init')
            elif name == 'prior':
                if other is None:
                    other = Files(self.kind, lab, 'other')
                    path = self.ploop('o', not plan['extra'])
                    self.make(f'mkother', other, [path])
                    self.check_made(other, [path])
                    ref = self.ref(other)
                    self.train('trother', dict(gen_default(), epochs=2), other,
                               Files(self.kind, lab, 'other2'), ref, None, None)
                    other = Files(self.kind, lab, 'other2')
                a, b = (other, cur) if op['old'] else (cur, other)
                self.prior(f'op{i}', op, a, b, dst)
                state = self.ref(dst)
            else:
                state = self.hinit(f'op{i}', op, cur, start, dst, state)
            if name in ('prior', 'hinit'):
                optim, last = None, None    # the optimizer belongs to the model before
            cur = dst
        ctx.probe(self.kind)
        g = scn['groups'][self.group]
        ctx.probe(g['cov'])
        ctx.note(self.kind, g['cov'], g['ncomp'], g['nstates'], plan['latdim'],
                 plan['dim2'], [sorted(o.items(), key=str) for o in plan['ops']],
                 [f['kind'] for f in plan['faults']])

    def reported(self, p):
        last, each = None, []
        for x in (p.logs if isinstance(p.logs, list) else str(p.logs).splitlines()):
            x = str(x)
            if 'finished training' in x:
                last = float(x.split('elbo=')[1].split()[0].strip("'\",)]"))
            elif 'epoch=' in x and 'elbo=' in x:
                each.append(float(x.split('elbo=')[1].split()[0].strip("'\",)]")))
        return last, each

    def train(self, name, op, src, dst, state, optim, last):
        lab, hs = self.lab, self.hs
        path = lab(f'optim.{name}')
        carry = optim is not None and op['carry'] and last is not None \
            and compatible(hs, last, op) and op['state']
        argv = ['-d', 'hshmm' if hs else 'shmm', 'train', '-e', op['epochs'],
                '-k', op['k'], '-n', op['n'], '-c', last['c'] if carry else op['c'],
                '-s', last['s'] if carry else op['s'], '-r', 1] + op['flags']
        op = dict(op)
        if carry:
            op['c'], op['s'] = last['c'], last['s']
            L.write(path, L.read_bytes(optim['path']))
            self.ctx.probe('optimizer state carried')
        if op['state']:
            argv += ['-o', path]
        sploop = src.sploop()
        if hs:
            argv += ['-u', op['u']]
            if op['clip'] is not None:
                argv += ['--clip-grad', op['clip']]
            sploop = lab('smap')
            L.write(sploop, ''.join(f'{src.lang(g)} {g}\n' for g in self.langs))
        argv += [src.gsm(), src.posts(), sploop, dst.gsm(), dst.posts(), dst.sploop()]
        before = {f: L.read_bytes(f) for f in (src.gsm(), src.posts())}
        p = self.command(name, argv, restore=[path])
        for f, data in before.items():
            check(L.read_bytes(f) == data, 'input-changed', f)
        start, old = state.copy(), optim['ref'] if carry else None
        values, new = state.train(self.noise, op, old)
        ok = all(np.isfinite(v) and abs(v) < 1e7 for v in values)
        got = self.ref(dst)
        value, each = self.reported(p)
        if not ok:
            self.ctx.probe('diverged')
            return got, None, None
        tol = self.tol
        if self.plan['single']:
            # Adam follows the sign of gradients lost in rounding.
            check(abs((each or [value])[0] - values[0])
                  <= 1e-3 * max(1., abs(values[0])), 'objective',
                  lambda: f'{each} {value} reported, {values} expected')
        else:
            far = 1.01 * op['s'] * op['epochs']

            def compare(slack, each_slack=0.):
                check(error(np.array(values[-1]), np.array(value)) <= 1e-6 + each_slack,
                      'objective', lambda: f'{value} reported, {values} expected')
                if len(each) == len(values):
                    check(error(np.array(values), np.array(each)) <= 1e-6 + each_slack,
                          'objective', lambda: f'{each} reported, {values} expected')
                    check(error(np.array(values[0]), np.array(each[0])) <= 1e-6,
                          'objective', lambda: f'{each} reported, {values} expected')
                agree(state, got, tol, 'training-step', f'{name} {op}', loose=far,
                      slack=slack)

            try:
                compare({})
            except core.Violation:
                if op['epochs'] == 1 or not any(x.any() for x in state.loose.values()):
                    raise
                # Adam moves what has no gradient along the sign of rounding
                # errors, which acts on the later epochs: measure how much.
                slack, more = {}, 0.
                for push in (1., -1.):
                    other = start.copy()
                    v, _ = other.train(self.noise, op, old, push)
                    more = max(more, 10 * error(np.array(values), np.array(v)))
                    want = state.arrays()
                    for k, x in other.arrays().items():
                        if k in want and x.dtype.kind == 'f':
                            slack[k] = max(slack.get(k, 0.), 10 * error(want[k], x))
                self.ctx.probe('rounding amplified')
                compare(slack, more)
        return got, dict(path=path, ref=new) if op['state'] else None, op

    def em(self, name, op, src, dst):
        lab = self.lab
        for f in ('gsm', 'posts'):
            L.write(getattr(dst, f)(), L.read_bytes(getattr(src, f)()))
        both = {}
        for lang in self.langs:
            mdl = lab('em.mdl')
            L.write(mdl, L.read_bytes(src.lang(lang)))
            if not self.plan['single']:
                convert(mdl, torch.float32)
            lab.beer(f'{name}acc{lang}', ['hmm', 'accumulate', mdl, lab('ds.pkl'),
                                          lab('st')],
                     L.stdin_utts([u for u, _ in self.scn['utts']]))
            lab.beer(f'{name}upd{lang}', ['hmm', 'update', '-l', op['lr'], mdl,
                                          dst.lang(lang)], lab('st') + '\n')
            if not self.plan['single']:
                convert(dst.lang(lang), D)
            # The emissions are those before (not rounded).
            a, b = L.load(src.lang(lang)), L.load(dst.lang(lang))
            for x, y in zip(self.subspace(a), self.subspace(b)):
                check(error(x.pdfvec.double().numpy(), y.pdfvec.double().numpy())
                      <= 1e-5, 'em-changed', 'emissions')
                y.pdfvec = x.pdfvec
            L.write(dst.lang(lang), pickle.dumps(b))
            both[lang] = b
        if self.hs:
            L.write(dst.sploop(), pickle.dumps(both))

    def subspace(self, mdl):
        u = mdl.modelset.original_modelset.modelsets[self.group]
        return [u.categoricalset.weights, u.modelset.means_precisions]

    def prior(self, name, op, src, init, dst):
        'The posterior of one model becomes the prior of another.'
        a, b = self.ref(src), self.ref(init)
        argv = ['shmm', 'setprior'] + ([] if op['var'] is None else ['-v', op['var']])
        self.command(name, argv + [src.gsm(), src.posts(), src.sploop(), init.gsm(),
                                   init.posts(), dst.gsm(), dst.posts(), dst.sploop()])
        var = 1. if op['var'] is None else op['var']
        for part in ('weights', 'bias'):
            new = {'m': b.q[part]['m'], 'l': torch.full_like(b.q[part]['l'], math.log(var))}
            a.p[part], a.q[part] = dict(new), dict(new)
        u, v = a.q['units '], b.q['units ']
        n = min(len(u['m']), len(v['m']))
        nw = b.nw['latent']
        cov = torch.linalg.inv(nw['v'] * nw['W']).diag()
        new = nw['m'] + cov.sqrt() * draws(self.noise, (len(u['m']) - n, len(nw['m'])))
        u['m'] = torch.cat([v['m'][:n], new])
        u['l'] = torch.cat([v['l'][:n], u['l'][n:]])
        a.nw, a.nw0 = b.nw, b.nw0
        a.pdf = {'': a.image('', self.noise, 1, 1)[0]}
        self.ctx.probe('more units' if n < len(u['m']) else 'not more units')
        agree(a, self.ref(dst), self.tol, 'set-prior', f'setprior {op}')

    def hinit(self, name, op, cur, start, dst, state):
        lab, langs = self.lab, self.langs
        lang = langs[op['lang']]
        argv = ['hshmm', 'init', '--latent-nsamples', op['n'],
                '--params-nsamples', op['k']]
        for key, flag in (('adapt', '--adapt-from'), ('from', '--init-from')):
            if op[key] is not None:
                argv += [flag, langs[op[key]]]
        if op['same']:
            argv.append('--same')
        self.command(name, argv + [lang, start.gsm(), cur.gsm(), cur.posts(),
                                   cur.sploop(), dst.sploop(), dst.gsm()])
        L.write(dst.posts(), L.read_bytes(cur.posts()))
        first = self.ref(start)
        # The language whose subspace maps the units.
        now = {g: state.q[f'lang {g}'] for g in langs}
        old = {g: first.q[f'lang {g}'] for g in langs}
        if op['adapt'] is not None:
            old[lang] = now[langs[op['adapt']]]
        used = now[langs[op['from']]] if op['from'] is not None else old[lang]
        state.q[f'lang {lang}'] = used
        em, _, _ = state.image(lang, self.noise, op['n'], op['k'])
        if op['same']:
            em = {k: v[:1].expand_as(v) for k, v in em.items()}
        state.pdf[lang] = em
        # The languages are those of the first file, the adapted one excepted.
        for g in langs:
            state.q[f'lang {g}'] = {k: v.clone() for k, v in old[g].items()}
        got = self.ref(dst)
        agree(state, got, self.tol, 'init', f'hshmm init {op}')
        return got


# ---------------------------------------------------------------------------
# The same models used as a library.

class Library:
    def __init__(self, plan):
        import beer
        self.plan, self.noise = plan, plan['noise']
        lib = plan['lib']
        self.kind = 'classes' if lib['nclasses'] else 'shmm'
        g = np.random.RandomState(lib['data'])
        self.data = [[torch.from_numpy(g.randn(lib['len'], lib['dim']) * .7
                                       + g.randn(lib['dim'])) for _ in range(3)]
                     for _ in range(lib['nmodels'])]
        torch.manual_seed(lib['data'])
        dim, K = lib['dim'], lib['ncomp']
        latent = beer.Normal.create(torch.zeros(lib['latdim']), torch.ones(lib['latdim']),
                                    prior_strength=lib['strength'], cov_type='full')
        mean, var = torch.zeros(dim), torch.ones(dim)
        if K:
            tpl = beer.Mixture.create(beer.NormalSet.create(
                mean, var, size=K, prior_strength=1., noise_std=.5, cov_type=lib['cov']))
        else:
            tpl = beer.Normal.create(mean, var, cov_type=lib['cov'])
        tpl.replace_parameters({
            p: beer.SubspaceBayesianParameter.from_parameter(p, latent)
            for p in tpl.bayesian_parameters()})
        self.em = Emissions(dim, lib['cov'], K or 1, 1, [])
        self.labels = None
        if lib['nclasses']:
            dlatent = beer.Normal.create(torch.zeros(lib['dlat']), torch.ones(lib['dlat']),
                                         cov_type='full')
            sub = beer.GSMSet.create(tpl, lib['nclasses'], lib['latdim'], lib['dlat'],
                                     latent, dlatent, prior_strength=lib['strength'])
            gsm = beer.Mixture.create(sub, prior_strength=lib['strength'])
            if lib['labels']:
                self.labels = torch.tensor([i % lib['nclasses']
                                            for i in range(lib['nmodels'])])
        else:
            sub = gsm = beer.GSM.create(tpl, lib['latdim'], latent,
                                        prior_strength=lib['strength'])
        if lib['nclasses']:
            # (new_models of a set would need a class for each model.)
            posts = sub.new_latent_posteriors(lib['nmodels'], lib['post'])
            models = [copy.deepcopy(tpl) for _ in range(lib['nmodels'])]
        else:
            models, posts = sub.new_models(lib['nmodels'], lib['post'], lib['n'], lib['k'])
        self.gsm, self.models, self.posts = gsm, models, posts
        self.optim()

    def optim(self, state=None):
        import beer
        lib = self.plan['lib']
        std = torch.optim.Adam(list(self.posts.parameters())
                               + list(self.gsm.parameters()), lr=lib['s'])
        self.opt = beer.VBOptimizer(beer.VBConjugateOptimizer(
            self.gsm.conjugate_bayesian_parameters(keepgroups=True), lrate=lib['c']), std)
        if state is not None:
            self.opt.load_state_dict(state)

    def state(self):
        return Ref.library(self.kind, self.gsm, self.models, self.posts, self.labels,
                           self.em)

    def kwargs(self, op):
        kw = {'latent_posts': self.posts, 'latent_nsamples': op['n'],
              'params_nsamples': op['k']}
        if self.labels is not None:
            kw['labels'] = self.labels
        return kw

    def history(self, ctx):
        import beer
        lib = self.plan['lib']
        state = self.state()
        check_strength(state, lib)
        if not lib['nclasses']:
            want = state.image('', self.noise, lib['n'], lib['k'])[0]
            for key, v in want.items():
                check(error(v.numpy(), state.pdf[''][key].numpy()) <= 1e-9, 'emissions',
                      lambda: f'new models: {key}: {state.pdf[""][key]}, expected {v}')
        ref = None
        for i, op in enumerate(self.plan['ops']):
            what = f'operation {i} {op}'
            if op['op'] == 'data':
                for m, x in zip(self.models, self.data):
                    beer.evidence_lower_bound(m, x[op['set']]).backward(std_params=False)
                new = self.state()
                keep, new.stats = new.stats, state.stats
                agree(state, new, 0., 'data-changed', what)
                new.stats = keep
                state = new
                ctx.probe('statistics renewed')
            elif op['op'] == 'reload':
                # Another process goes on with the stored state.
                data = pickle.dumps((self.gsm, self.models, self.posts))
                buf = io.BytesIO()
                torch.save(self.opt.state_dict(), buf)
                self.gsm, self.models, self.posts = pickle.loads(data)
                self.optim(torch.load(io.BytesIO(buf.getvalue())))
                agree(state, self.state(), 0., 'reload-changed', what)
                ctx.probe('reloaded')
            elif op['op'] == 'peek':
                # An evaluation that must leave the state alone.
                value = float(beer.evidence_lower_bound(
                    self.gsm, self.models, update_models=False, **self.kwargs(op)))
                want = float(state.bound(self.noise, op)[0])
                check(error(np.array(want), np.array(value)) <= 1e-8, 'objective',
                      lambda: f'{what}: {value}, expected {want}')
                if self.kind == 'shmm':
                    agree(state, self.state(), 0., 'evaluation-changed', what)
            else:
                self.step(op, state, what, ctx)
                values, ref = state.train(self.noise, dict(
                    op, epochs=1, flags=[], s=lib['s'], c=lib['c']), ref)
                check(error(np.array(values[0]), np.array(self.value)) <= 1e-8,
                      'objective', lambda: f'{what}: {self.value}, expected {values[0]}')
                if not (np.isfinite(values[0]) and abs(values[0]) < 1e7):
                    ctx.probe('diverged')
                    return
                new = self.state()
                agree(state, new, 1e-6, 'training-step', what, loose=1.01 * lib['s'])
                state = new
                ctx.nontrivial = True

    def step(self, op, state, what, ctx):
        import beer

        def evaluate():
            self.opt.init_step()
            elbo = beer.evidence_lower_bound(self.gsm, self.models, **self.kwargs(op))
            elbo.backward()
            return elbo

        if op['cut']:
            # Interrupted, then done again.
            spare = pickle.dumps((self.gsm, self.models, self.posts))
            mine = self.gsm, self.models, self.posts, self.opt
            self.gsm, self.models, self.posts = pickle.loads(spare)
            self.optim(copy.deepcopy(mine[3].state_dict()))
            _, places = c16.traced(evaluate)
            self.gsm, self.models, self.posts, self.opt = mine
            at = c16.place(places, op['cut'])
            exc = c16.EXCS[op['cut']['exc']]('simulated')
            try:
                c16.traced(evaluate, at, exc)
            except type(exc):
                ctx.probe('evaluation interrupted')
        elbo = evaluate()
        self.value = float(elbo)
        self.opt.step()


def check_strength(state, lib):
    want = -math.log(lib['strength'])
    for name in ('weights', 'bias', 'disc'):
        if name in state.p:
            p = state.p[name]
            check(float((p['l'] - want).abs().max()) <= 1e-6
                  and float(p['m'].abs().max()) == 0, 'new-model',
                  lambda: f'prior of {name}: {p}')


def gen_library(rng):
    K = rng.choice([0, 1, 2, 3])
    nclasses = rng.choice([0, 0, 1, 2, 3])
    lib = {'data': rng.getrandbits(30), 'dim': rng.choice([1, 2, 3]), 'ncomp': K,
           'cov': rng.choice(['full', 'diagonal', 'isotropic']),
           'len': rng.randint(3, 12), 'nmodels': rng.choice([1, 2, 3, 4]),
           'latdim': rng.choice([1, 2, 3]), 'dlat': rng.choice([1, 2, 3]),
           'nclasses': nclasses, 'labels': rng.random() < .4,
           'post': rng.choice(['full', 'diagonal']),
           'strength': rng.choice([1., 1., 2., .5]), 'n': rng.choice([1, 2]),
           'k': rng.choice([1, 2]), 's': rng.choice([.1, .05, .01]),
           'c': rng.choice([1., .5, .1])}
    ops = [{'op': 'data', 'set': 0}]
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(['step'] * 5 + ['data', 'reload', 'peek'])
        if k == 'data':
            ops.append({'op': k, 'set': rng.randrange(3)})
        elif k == 'reload':
            ops.append({'op': k})
        else:
            op = {'op': k, 'n': rng.choice([1, 1, 2, 3]), 'k': rng.choice([1, 2])}
            if k == 'step':
                op['cut'] = {'line': round(rng.random(), 3), 'occ': round(rng.random(), 3),
                             'exc': rng.choice(sorted(c16.EXCS))} \
                    if rng.random() < .3 else None
            ops.append(op)
    return {'kind': 'library', 'lib': lib, 'ops': ops,
            'noise': [round(rng.uniform(.1, 1.2), 2), round(rng.uniform(0, 3), 2),
                      round(rng.uniform(-.5, .5), 2)], 'faults': [],
            'sched': T.gen_sched(rng)}


def gen_default():
    return {'op': 'train', 'epochs': 1, 'k': 1, 'n': 1, 's': .05, 'c': 1.,
            'carry': False, 'flags': [], 'state': False}


def run_library(plan, ctx):
    lib = plan['lib']
    with zoo.double(), core.Scratch() as root, seam(plan['noise']), \
            core.Sim(plan['seed'], root, plan['sched'], []) as sim:
        p = sim.spawn('main', lambda: Library(plan).history(ctx))
        sim.run()
        if isinstance(p.exc, core.Violation):
            raise p.exc
        check(p.ok, 'operation-failed', lambda: f'{p.error}\n{p.tb}')
        ctx.probe(f'library {"classes" if lib["nclasses"] else "plain"} {lib["post"]}')
        ctx.note(lib, plan['ops'])
        ctx.absorb(sim)


def run(plan, ctx):
    if plan['kind'] == 'library':
        return run_library(plan, ctx)
    with core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        World(plan, ctx, sim, root).run()
        ctx.absorb(sim)
