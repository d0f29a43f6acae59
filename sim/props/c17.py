"""C17: full-data coordinate ascent never lowers the bound."""
import math
import os
import pickle
import random

import numpy as np
import torch

from .. import core, ref, train as T, zoo
from ..engine import check, expect

ID = 'C17'
QUICK, THOROUGH = (2700, 240), (20000, 850)
RULE = ('A run trains one conjugate model from a random starting point with '
        'statistics of the whole data set, cut in batches at random in each '
        'step, parameter groups updated in an order drawn at random, learning '
        'rates up to one and stored and reloaded in another process (killed '
        'and restarted by the simulator) between steps. Data sets include '
        'constant, repeated and badly scaled ones. The bound is evaluated '
        'before each step on the whole data: the reported objective for models '
        'without hidden chain; for chains, whose reported objective is an '
        'approximation, the exact bound from the expected log-likelihoods and '
        'divergence that the library gives and a forward recursion of the '
        'check (transitions are not trained in these runs). Non-trivial: at '
        'least three steps; distinct by family, data and history.')
REAL = ['models, distributions, objectives, optimizer', 'pickle of models on '
        'scratch files']
STUB = ['process death and restart, scheduling (simulator)', 'initial RNG state, '
        'uuid4', 'forward recursion for chains (check)']
ASSUMPTIONS = ['double precision, decrease tolerated up to 1e-8 (badly scaled '
               'data: 1e-5) relative to the size of the terms', 'the prior over the '
               'concentration of the sticks is out of the domain: the objective '
               'replaces it by its expected value', 'chains: emission parameters only',
               'learning rates in (0, 1] (a partial natural gradient step moves '
               'towards the optimum of the group), one for stick-breaking '
               'weights, whose updates may sort the sticks again',
               'labelled mixtures: the reported objective is conditional on the '
               'labels, the expected log-probability of the labels is added']
MIXTURES = [f for f in zoo.MIXTURES if f != 'mixture_sbh']
FAMS = [f for f in zoo.DENSITY if f != 'cat_sbh'] + MIXTURES * 2 + zoo.HMMS + zoo.LOOPS


# Rounding of second order statistics far from the prior.
TOL = {'big': 1e-5, 'outlier': 1e-5}


def generate(rng, index, tier):
    spec = zoo.gen_spec(rng, FAMS, maxlen=14, nutts=rng.randint(1, 4))
    N = sum(spec['utts'])
    steps = []
    for _ in range(rng.randint(3, 12) if rng.random() < .95 else 30):
        steps.append({'group': rng.randrange(6), 'cut': rng.getrandbits(30),
                      'batches': rng.choice([1, 1, 2, 3, N]),
                      'lr': 1. if spec['family'] in ('mixture_sb', 'cat_sb')
                      else rng.choice([1., 1., 1., .5, .1]),
                      'reload': rng.random() < .3})
    fixed = None
    if zoo.is_hmm(spec):
        fixed = [zoo.gen_kwargs(rng, spec, n) for n in spec['utts']]
    elif spec['family'] in MIXTURES and rng.random() < .15:
        fixed = rng.getrandbits(20)
    faults = [{'proc': f'p{rng.randint(0, 3)}#0', 'kind': 'kill',
               'n': rng.randint(0, 6), 'frac': round(rng.random(), 2)}
              for _ in range(rng.choice([0, 0, 1]))]
    return {'spec': spec, 'steps': steps, 'fixed': fixed, 'faults': faults,
            'shape': rng.choice(['plain', 'plain', 'plain', 'constant', 'repeated',
                                 'big', 'tiny', 'outlier']),
            'sched': T.gen_sched(rng)}


def shrink(plan):
    st = plan['steps']
    for i in range(len(st)):
        if len(st) > 1:
            yield dict(plan, steps=st[:i] + st[i + 1:])
    for i, s in enumerate(st):
        for k, v in (('batches', 1), ('reload', False), ('lr', 1.)):
            if s[k] != v:
                yield dict(plan, steps=st[:i] + [dict(s, **{k: v})] + st[i + 1:])
    if plan['shape'] != 'plain':
        yield dict(plan, shape='plain')
    if plan['fixed'] is not None and not zoo.is_hmm(plan['spec']):
        yield dict(plan, fixed=None)
    if plan['fixed'] is not None and zoo.is_hmm(plan['spec']) and any(plan['fixed']):
        yield dict(plan, fixed=[{} for _ in plan['fixed']])


def dataset(plan):
    X, shape = zoo.data(plan['spec']), plan['shape']
    if zoo.is_discrete(plan['spec']) and shape in ('big', 'tiny', 'outlier'):
        shape = 'plain'
    if shape == 'constant':
        X = [torch.zeros_like(x) + X[0][0] for x in X]
    elif shape == 'repeated':
        X = [x[torch.arange(len(x)) // 2 * 2] for x in X]
    elif shape == 'big':
        X = [x * 300. for x in X]
    elif shape == 'tiny':
        X = [x * 1e-4 for x in X]
    elif shape == 'outlier':
        X = [x.clone() for x in X]
        X[0][0] += 1e3
    return X


def bound(plan, model, X):
    '(value, size of its terms)'
    import beer
    spec = plan['spec']
    if not zoo.is_hmm(spec):
        x = torch.cat(X)
        kw = {}
        if plan['fixed'] is not None:
            kw['labels'] = labels(plan, model, len(x))
        value = float(beer.evidence_lower_bound(model, x, datasize=len(x), **kw))
        kl = float(model.kl_div_posterior_prior().sum())
        if kw:
            # The reported objective is conditional on the labels.
            cat = model.categorical
            onehot = torch.eye(len(model.modelset))[kw['labels']]
            value += float(cat.expected_log_likelihood(
                cat.sufficient_statistics(onehot)).sum())
        return value, kl
    total, size = 0., 0.
    for x, kw in zip(X, plan['fixed']):
        graph = zoo.ali_graph(spec, kw['ali']) if 'ali' in kw else model.graph
        g = ref.extract_graph(graph)
        ms = model.modelset
        llh = ms.expected_log_likelihood(ms.sufficient_statistics(x)) \
            .detach().numpy()[:, g['map']] * kw.get('scale', 1.)
        with np.errstate(all='ignore'):
            a = g['init'] + llh[0]
            for t in range(1, len(llh)):
                a = llh[t] + ref.lse(a[:, None] + g['trans'], 0)
            # Scaling acts on the likelihoods only.
            z = float(ref.lse(a + g['final'], 0))
        total += z
        size += abs(z)
    kl = float(model.kl_div_posterior_prior().sum())
    return total - kl, size + abs(kl)


def labels(plan, model, n):
    r = np.random.RandomState(plan['fixed'])
    return torch.tensor(r.randint(0, len(model.modelset), n))


def objective(plan, model, X, step):
    'Sum over a random cut of the data.'
    import beer
    rng = random.Random(step['cut'])
    N = sum(map(len, X))
    parts = []
    if zoo.is_hmm(plan['spec']):
        for x, kw in zip(X, plan['fixed']):
            parts.append((x, zoo.kwargs(plan['spec'], kw, len(x), model)))
    else:
        x = torch.cat(X)
        order = list(range(N))
        rng.shuffle(order)
        k = min(step['batches'], N)
        marks = [0] + sorted(rng.sample(range(1, N), k - 1)) + [N]
        y = None if plan['fixed'] is None else labels(plan, model, N)
        for a, b in zip(marks, marks[1:]):
            idx = order[a:b]
            parts.append((x[idx], {} if y is None else {'labels': y[idx]}))
    rng.shuffle(parts)
    total = beer.evidence_lower_bound(datasize=N)
    for x, kw in parts:
        total += beer.evidence_lower_bound(model, x, datasize=N, **kw)
    return total


def trained(spec, model):
    'The groups of parameters trained in these runs.'
    gs = [list(g) for g in zoo.groups(model)]
    if not zoo.is_hmm(spec):
        return gs
    mine = list(model.modelset.bayesian_parameters())
    gs = [[p for p in g if any(p is q for q in mine)] for g in gs]
    return [g for g in gs if g]


def run(plan, ctx):
    import beer
    spec = plan['spec']
    parts = [[]]
    for s in plan['steps']:
        if s['reload']:
            parts.append([])
        parts[-1].append(s)
    with zoo.double(), core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        X = dataset(plan)

        def main(i):
            def body():
                if i == 0:
                    model, seen, trace = zoo.build(spec), None, []
                else:
                    with open(f'{root}/ck{i - 1}', 'rb') as f:
                        model, seen, trace = pickle.load(f)
                for s in parts[i]:
                    now = look(model, seen, trace)
                    seen = now
                    gs = trained(spec, model)
                    opt = beer.VBConjugateOptimizer(gs, lrate=s['lr'])
                    opt.update_count = s['group']
                    opt.init_step()
                    objective(plan, model, X, s).backward()
                    opt.step()
                    trace = trace + [(s['group'] % len(gs), s['batches'], s['lr'])]
                look(model, seen, trace)
                with open(f'{root}/ck{i}.tmp', 'wb') as f:
                    pickle.dump((model, seen, trace), f)
                os.replace(f'{root}/ck{i}.tmp', f'{root}/ck{i}')
            return body

        def look(model, seen, trace):
            with expect('bound'):
                value, size = bound(plan, model, X)
            check(math.isfinite(value), 'not-finite', f'{value} after {trace}')
            if seen is not None:
                tol = TOL.get(plan['shape'], 1e-8) * (1. + abs(value) + abs(seen[0]) + abs(size))
                check(value >= seen[0] - tol, 'bound-decreased',
                      lambda: f'{seen[0]!r} -> {value!r} after steps (group, '
                      f'batches, rate) {trace}')
                ctx.probe('bound compared')
                ctx.probe('bound strictly higher', value > seen[0] + tol)
            return value, size

        for i in range(len(parts)):
            for k in range(4):
                p = sim.spawn(f'p{i}#{k}', main(i))
                sim.run()
                if isinstance(p.exc, core.Violation):
                    raise p.exc
                if p.ok or not p.tainted:
                    break
            check(p.ok, 'operation-failed', lambda: f'{p.error}\n{p.tb}')
        ctx.nontrivial = len(plan['steps']) >= 3
        ctx.probe(spec['family'])
        ctx.note(spec, plan['shape'], plan['steps'], plan['fixed'])
        ctx.absorb(sim)
