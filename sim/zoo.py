"""Models of every family built through the public interface of the library,
and the operations applied to them.  A spec is a JSON value."""
import contextlib
import copy
import math

import numpy as np
import torch

from . import lab as L
from .engine import check

COVS = ['diagonal', 'isotropic', 'full']
DENSITY = ['normal', 'normal', 'cat', 'cat_sb', 'cat_sbh']
MIXTURES = ['mixture', 'mixture_sb', 'mixture_sbh', 'mixture_mixset',
            'mixture_repeated', 'mixture_joint', 'mixture_cat']
HMMS = ['hmm', 'hmm_mix', 'hmm_joint', 'hmm_cat']
LOOPS = ['ploop', 'ploop_sb', 'ploop_sbh', 'ploop2', 'ploop2_sb', 'ploop_cat']
CONJUGATE = DENSITY + MIXTURES + HMMS + LOOPS
SUBSPACE = ['gsm', 'gsm_full', 'gsm_hmm']
VAES = ['vae', 'vae_mix']


@contextlib.contextmanager
def double():
    'Everything below runs in double precision.'
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


def gen_spec(rng, families=CONJUGATE, maxlen=9, nutts=None):
    fam = rng.choice(families)
    dim = rng.choice([1, 2, 3]) if not fam.startswith('gsm') else rng.choice([1, 2])
    nunits = rng.choice([2, 3, 4])
    large = rng.random() < .04 and not fam.startswith(('gsm', 'vae'))
    if large:
        # Two-digit numbers of units, components and utterances, or an
        # utterance much longer than the others.
        nunits = rng.choice([nunits, 6, 11])
        dim = rng.choice([dim, 5])
        maxlen, nutts = rng.choice([(maxlen, nutts and max(nutts, 11)),
                                    (60, nutts)])
    nstates = [rng.choice([2, 2, 3]) for _ in range(nunits)]
    listed = list(range(nunits))
    if rng.random() < .4:
        rng.shuffle(listed)
    return {
        'listed': listed, 'family': fam, 'cov': rng.choice(COVS), 'dim': dim,
        'seed': rng.getrandbits(31), 'data': rng.getrandbits(31),
        'strength': rng.choice([1., 1., 2., 5.]),
        'noise': rng.choice([.3, 1.]),
        'ncomp': rng.choice([1, 2, 2, 3] if not large else [2, 5, 10]),
        'conc': rng.choice([.5, 1., 1., 3.]),
        'nstates': nstates,
        'loops': [[rng.choice([.5, .5, .5, .75, .75, .25, .25, .9, .99, .05])
                   for _ in range(n)]
                  for n in nstates],
        'offset': rng.choice([0., 0., 2., -7.]),
        'utts': [rng.choice([3, rng.randint(3, maxlen)])
                 for _ in range(nutts or rng.randint(1, 4))],
    }


def shrink_spec(spec):
    if len(spec['utts']) > 1:
        yield dict(spec, utts=spec['utts'][:1])
        yield dict(spec, utts=spec['utts'][:-1])
    if max(spec['utts']) > 3:
        yield dict(spec, utts=[3] * len(spec['utts']))
    if spec['dim'] > 1:
        yield dict(spec, dim=1)
    if spec['ncomp'] > 1:
        yield dict(spec, ncomp=spec['ncomp'] - 1)
    if len(spec['nstates']) > 2:
        yield dict(spec, nstates=spec['nstates'][:2], loops=spec['loops'][:2])
    if any(n > 2 for n in spec['nstates']):
        yield dict(spec, nstates=[2] * len(spec['nstates']),
                   loops=[x[:2] for x in spec['loops']])
    if spec['offset']:
        yield dict(spec, offset=0.)


def data(spec):
    'The utterances.'
    out = []
    if is_discrete(spec):
        for k, n in enumerate(spec['utts']):
            r = np.random.RandomState((spec['data'] + 104729 * k) % (2 ** 32 - 1))
            x = r.randint(0, nsymbols(spec), (n + 1) // 2).repeat(2)[:n]
            out.append(torch.eye(nsymbols(spec))[torch.tensor(x)])
        return out
    for k, n in enumerate(spec['utts']):
        r = np.random.RandomState((spec['data'] + 104729 * k) % (2 ** 32 - 1))
        x = r.randn(n, spec['dim']) + 2 * np.repeat(
            r.randn((n + 2) // 3, spec['dim']), 3, axis=0)[:n] + spec['offset']
        out.append(torch.tensor(x, dtype=torch.get_default_dtype()))
    return out


def _chain(graph_cls, first, loops):
    'Left to right unit; returns the graph.'
    g = graph_cls()
    start = g.add_state()
    prev, w = start, 1.
    for k, loop in enumerate(loops):
        s = g.add_state(pdf_id=first + k)
        g.add_arc(prev, s, w)
        g.add_arc(s, s, loop)
        prev, w = s, 1. - loop
    end = g.add_state()
    g.add_arc(prev, end, w)
    g.start_state, g.end_state = start, end
    return g


def unit_names(spec):
    return ['u%d' % i for i in range(len(spec['nstates']))]


def loop_graph(spec):
    '(compiled graph, start_pdf, end_pdf, number of states)'
    import beer
    G = beer.graph.Graph
    g = G()
    g.start_state, g.end_state = g.add_state(), g.add_state()
    pivot = g.add_state()
    g.add_arc(g.start_state, pivot)
    g.add_arc(pivot, g.end_state)
    start, end, n = {}, {}, 0
    place = {}
    for name in unit_names(spec):
        place[name] = g.add_state()
        g.add_arc(pivot, place[name])
        g.add_arc(place[name], pivot)
    g.normalize()
    for name, ns, loops in zip(unit_names(spec), spec['nstates'], spec['loops']):
        g.replace_state(place[name], _chain(G, n, loops))
        start[name], end[name] = n, n + ns - 1
        n += ns
    g.normalize()
    if spec.get('listed'):      # the units are listed in another order
        names = [u for u in (f'u{i}' for i in spec['listed']) if u in start]
        start, end = ({u: d[u] for u in names} for d in (start, end))
    return g.compile(), start, end, n


def ali_graph(spec, units):
    'Compiled graph of a sequence of unit indices.'
    import beer
    first = np.cumsum([0] + spec['nstates'])
    G = beer.graph.Graph
    g = G()
    prev = g.start_state = g.add_state()
    w = 1.
    for u in units:
        for k, loop in enumerate(spec['loops'][u]):
            s = g.add_state(pdf_id=int(first[u]) + k)
            g.add_arc(prev, s, w)
            g.add_arc(s, s, loop)
            prev, w = s, 1. - loop
    g.end_state = g.add_state()
    g.add_arc(prev, g.end_state, w)
    return g.compile()


def _emissions(spec, size, kind):
    import beer
    mean = torch.full((spec['dim'],), float(spec['offset']))
    var = torch.ones(spec['dim']) * 2.

    def normals(n):
        return beer.NormalSet.create(mean, var, n, prior_strength=spec['strength'],
                                     noise_std=spec['noise'], cov_type=spec['cov'])
    if kind == 'normal':
        return normals(size)
    if kind == 'cat':
        r = np.random.RandomState(spec['seed'] % (2 ** 32 - 1))
        w = r.dirichlet(np.ones(nsymbols(spec)), size) * .8 + .2 / nsymbols(spec)
        return beer.CategoricalSet.create(
            torch.tensor(w, dtype=torch.get_default_dtype()), spec['strength'])
    if kind == 'mix':
        return beer.MixtureSet.create(size, normals(size * spec['ncomp']),
                                      prior_strength=spec['strength'])
    a = max(1, size // 2)
    parts = [beer.MixtureSet.create(a, normals(a * spec['ncomp']))]
    if size - a:
        parts.append(beer.MixtureSet.create(
            size - a, normals((size - a) * (1 + spec['ncomp'] % 2))))
    return beer.JointModelSet(parts)


def _weights(kind, n, conc):
    import beer
    if kind == 'dir':
        return beer.Categorical.create(torch.ones(n) / n, conc)
    if kind == 'sb':
        return beer.SBCategorical.create(n, conc)
    if kind == 'sbh':
        return beer.SBCategoricalHyperPrior.create(n, conc, 1.)
    if kind == 'dir2':
        return beer.CategoricalSet.create(torch.ones(n, n) / n, conc)
    return beer.SBCategoricalSet.create(n, beer.SBCategorical.create(n, conc),
                                        prior_strength=conc)


def build(spec):
    'Model of the spec; the caller is inside double() when it wants float64.'
    import beer
    torch.manual_seed(spec['seed'])
    fam, d = spec['family'], spec['dim']
    if fam == 'normal':
        return beer.Normal.create(torch.full((d,), float(spec['offset'])),
                                  torch.ones(d), prior_strength=spec['strength'],
                                  cov_type=spec['cov'])
    if fam.startswith('cat'):
        return _weights(fam[4:] or 'dir', nsymbols(spec), spec['conc'])
    k = spec['ncomp'] + 1
    if fam.startswith('mixture'):
        cat = None
        if fam == 'mixture_mixset':
            ms = _emissions(spec, k, 'mix')
        elif fam == 'mixture_joint':
            ms = _emissions(spec, k, 'joint')
        elif fam == 'mixture_cat':
            ms = _emissions(spec, k, 'cat')
        elif fam == 'mixture_repeated':
            ms = beer.RepeatedModelSet(_emissions(spec, k, 'normal'), 2)
        else:
            ms = _emissions(spec, k, 'normal')
            if fam != 'mixture':
                cat = _weights(fam.split('_')[1], k, spec['conc'])
        return beer.Mixture.create(ms, cat, prior_strength=spec['conc'])
    graph, start, end, n = loop_graph(spec)
    if fam.startswith('hmm'):
        kind = {'hmm': 'normal', 'hmm_mix': 'mix', 'hmm_joint': 'joint',
                'hmm_cat': 'cat'}[fam]
        return beer.HMM.create(graph, _emissions(spec, n, kind))
    emissions = _emissions(spec, n, 'cat' if fam == 'ploop_cat' else
                           ['normal', 'mix', 'joint'][spec['seed'] % 3])
    kind = {'ploop': 'dir', 'ploop_cat': 'dir', 'ploop_sb': 'sb', 'ploop_sbh': 'sbh',
            'ploop2': 'dir2', 'ploop2_sb': 'sb2'}[fam]
    w = _weights(kind, len(spec['nstates']), spec['conc'])
    cls = beer.BigramPhoneLoop if fam.startswith('ploop2') else beer.PhoneLoop
    return cls.create(graph, start, end, emissions, w)


def nsymbols(spec):
    return spec['dim'] + 2


def is_discrete(spec):
    return spec['family'].startswith('cat') or spec['family'].endswith('_cat')


def is_hmm(spec):
    return spec['family'] in HMMS + LOOPS


def is_loop(spec):
    return spec['family'] in LOOPS


def gen_kwargs(rng, spec, n):
    'Extra arguments of one evaluation, as JSON.'
    kw = {}
    if is_hmm(spec):
        if rng.random() < .4:
            kw['scale'] = rng.choice([.5, 2., .1])
        if rng.random() < .4:
            seq, left = [], n
            while True:
                fit = [u for u, k in enumerate(spec['nstates']) if k <= left]
                if not fit or (seq and rng.random() < .4):
                    break
                u = rng.choice(fit)
                seq.append(u)
                left -= spec['nstates'][u]
            if seq:
                kw['ali'] = seq
    elif spec['family'].startswith('mixture') and rng.random() < .25:
        kw['labels'] = rng.getrandbits(20)
    return kw


def kwargs(spec, kw, n, model):
    out = {}
    if 'scale' in kw:
        out['scale'] = kw['scale']
    if 'ali' in kw:
        out['inference_graph'] = ali_graph(spec, kw['ali'])
    if 'labels' in kw:
        r = np.random.RandomState(kw['labels'])
        out['labels'] = torch.tensor(r.randint(0, len(model.modelset), n))
    return out


def elbo(spec, model, X, batch, datasize):
    '''Sum over a batch: [[utterance, kwargs], ...].'''
    import beer
    total = beer.evidence_lower_bound(datasize=datasize)
    for u, kw in batch:
        total += beer.evidence_lower_bound(
            model, X[u], datasize=datasize,
            **kwargs(spec, kw, len(X[u]), model))
    return total


def groups(model):
    return model.conjugate_bayesian_parameters(keepgroups=True)


def nparams_state(model):
    'Bit exact snapshot of the Bayesian parameters.'
    out = []
    for p in model.bayesian_parameters():
        out.append((p.prior.natural_parameters().detach().clone(),
                    p.posterior.natural_parameters().detach().clone()))
    return out


def state(model):
    s = L.model_state(model)
    o = getattr(getattr(model, 'categorical', None), 'ordering', None)
    if o is not None:
        s.append(('ordering', {'order': o.double().numpy().copy()}))
    return s


def gen_batch(rng, spec, full=False, labels=True):
    utts = list(range(len(spec['utts'])))
    if not full:
        utts = rng.sample(utts, rng.randint(1, len(utts)))
    return [[u, gen_kwargs(rng, spec, spec['utts'][u])] for u in utts]


# ---------------------------------------------------------------------------
# Subspace models: a GSM over a few small models.

class Subspace:
    'GSM, the models it generates and their latent posteriors.'

    def __init__(self, spec, X):
        import beer
        torch.manual_seed(spec['seed'])
        latent = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='full')
        if spec['family'] == 'gsm_hmm':
            graph, _, _, n = loop_graph(dict(spec, nstates=spec['nstates'][:1],
                                             loops=spec['loops'][:1]))
            tpl = beer.HMM.create(graph, _emissions(spec, n, 'normal'))
        else:
            tpl = build(dict(spec, family='normal'))
        new = {p: beer.SubspaceBayesianParameter.from_parameter(p, latent)
               for p in tpl.bayesian_parameters()}
        tpl.replace_parameters(new)
        self.gsm = beer.GSM.create(tpl, 2, latent)
        cov = 'full' if spec['family'] == 'gsm_full' else 'diagonal'
        self.models, self.posts = self.gsm.new_models(len(X), cov_type=cov)
        self.optim()

    def optim(self, state=None):
        import beer
        self.cjg = beer.VBConjugateOptimizer(groups(self.gsm), lrate=.5)
        self.std = torch.optim.Adam(list(self.posts.parameters())
                                    + list(self.gsm.parameters()), lr=.05)
        self.opt = beer.VBOptimizer(self.cjg, self.std)
        if state is not None:
            self.opt.load_state_dict(state)

    def pack(self):
        return (self.gsm, self.models, self.posts), self.opt.state_dict()

    @classmethod
    def unpack(cls, packed):
        self = cls.__new__(cls)
        (self.gsm, self.models, self.posts), state = packed
        self.optim(state)
        return self

    def state(self):
        out = []
        for name, p in sorted(list(self.gsm.named_parameters())
                              + [('post.' + n, q)
                                 for n, q in self.posts.named_parameters()]):
            out.append((name, {'value': p.detach().double().numpy().copy()}))
        for i, m in enumerate(self.models):
            for j, p in enumerate(m.bayesian_parameters()):
                out.append((f'model{i}.{j}', {
                    'pdfvec': p.natural_form().detach().double().numpy().copy()}))
        p = self.gsm.latent_prior.mean_precision
        out.append(('latent prior', L.std_params(p.posterior)))
        return out


class Vae:
    'Variational auto-encoder with a Normal or mixture prior.'

    def __init__(self, spec, X):
        import beer
        torch.manual_seed(spec['seed'])
        d, h, z = spec['dim'], 4, 2

        class Net(torch.nn.Sequential):
            pass
        enc = torch.nn.Sequential(torch.nn.Linear(d, h), torch.nn.Tanh())
        dec = torch.nn.Sequential(torch.nn.Linear(z, h), torch.nn.Tanh())
        enc.dim_in, enc.dim_out = d, h
        dec.dim_in, dec.dim_out = z, h
        sub = dict(spec, dim=z, offset=0.,
                   family='mixture' if spec['family'] == 'vae_mix' else 'normal')
        self.vae = beer.VAE(build(sub), enc, dec)
        self.optim()

    def optim(self, state=None):
        import beer
        self.cjg = beer.VBConjugateOptimizer(groups(self.vae), lrate=.5)
        self.std = torch.optim.Adam(self.vae.parameters(), lr=.02)
        self.opt = beer.VBOptimizer(self.cjg, self.std)
        if state is not None:
            self.opt.load_state_dict(state)

    def pack(self):
        return self.vae, self.opt.state_dict()

    @classmethod
    def unpack(cls, packed):
        self = cls.__new__(cls)
        self.vae, state = packed
        self.optim(state)
        return self

    def state(self):
        out = [(n, {'value': p.detach().double().numpy().copy()})
               for n, p in sorted(self.vae.named_parameters())]
        return out + L.model_state(self.vae.prior)
