"""C07: unit transition probabilities always follow the current unit weights."""
import copy
import os
import pickle

import numpy as np
import torch

from .. import core, cli, lab as L, ref, train as T, zoo
from ..engine import check, expect

ID = 'C07'
QUICK, THOROUGH = (2260, 240), (20000, 850)
RULE = ('A run is either a chain of the real commands (creation, epochs of '
        'accumulate/update under the scheduler with killed and retried '
        'processes, optional conversion to a bigram phone-loop and more '
        'epochs) or a history of library operations (updates of all or part '
        'of the parameters, several loops sharing one weight model, copies, '
        'reloads, conversion) in simulated processes, with the observers of '
        'the weights notified in an order drawn by the simulator. After each '
        'step the whole compiled graph of every live model is compared with '
        'the one recomputed from the weight posterior in float64. '
        'Non-trivial: at least one weight update; distinct by kind of prior, '
        'mode and history.')
REAL = ['beer CLI commands and library', 'pickle I/O on scratch files']
STUB = ['process scheduling and death, order of observers, uuid4, initial RNG '
        'state (simulator)']
ASSUMPTIONS = ['units have at least two emitting states',
               'probabilities compared with tolerance 1e-4 (float32 graphs)']
TOL = 1e-4
KIND = {'ploop': 'dirichlet', 'ploop_sb': 'dirichlet_process',
        'ploop_sbh': 'gamma_dirichlet_process', 'ploop2': 'dirichlet2',
        'ploop2_sb': 'hierarchical_dirichlet_process'}


def generate(rng, index, tier):
    if rng.random() < .35:
        scn = T.gen_train(rng, large=rng.random() < .03)
        utts = [u for u, _ in scn['utts']]
        bigram = None
        if rng.random() < .4 and scn['weights'] not in ('dirichlet2',
                                                         'hierarchical_dirichlet_process'):
            bigram = 'dirichlet2'
            if scn['weights'] != 'dirichlet' and rng.random() < .6:
                bigram = 'hierarchical_dirichlet_process'
        epochs = []
        for e in range(rng.choice([1, 2, 3])):
            epochs.append({'jobs': T.split(rng, utts, rng.randint(1, 2)),
                           'ali': (T.gen_ali(rng, scn) or None)
                           if rng.random() < .25 else None,
                           'scale': None, 'lr': rng.choice([1., .5])})
        at = rng.randint(0, len(epochs)) if bigram else None
        faults = []
        for _ in range(rng.choice([0, 1, 2])):
            name = rng.choice(['mkphoneloop#0', 'bigram#0'] +
                              [f'upd{e}#0' for e in range(len(epochs))])
            faults.append({'proc': name, 'kind': 'kill',
                           'pos': round(rng.random() * 1.05, 3),
                           'frac': round(rng.random(), 2)})
        return {'mode': 'cli', 'scn': scn, 'epochs': epochs, 'bigram': bigram,
                'at': at, 'faults': faults, 'sched': T.gen_sched(rng)}
    spec = zoo.gen_spec(rng, zoo.LOOPS)
    ops = []
    for _ in range(rng.randint(2, 8) if rng.random() < .95 else 20):
        k = rng.choice(['train', 'train', 'weights', 'weights', 'reload', 'copy',
                        'second', 'bigram', 'emissions', 'decode'])
        op = {'op': k, 'seed': rng.getrandbits(30)}
        if k in ('train', 'emissions'):
            op['batch'] = zoo.gen_batch(rng, spec)
            op['lr'] = rng.choice([1., .5, .1])
        elif k == 'weights':
            op['lr'] = rng.choice([1., .5, .1])
            op['scale'] = rng.choice([0., 1., 10., 1000.])
            op['counts'] = rng.choice(['random', 'random', 'uniform', 'mean',
                                       'single', 'swap'])
            if rng.random() < .1:
                op['lr'] = 1e-3
        elif k == 'bigram':
            op['kind'] = rng.choice(['dir2', 'sb2'])
        op['which'] = rng.randrange(4)
        ops.append(op)
    faults = [{'proc': f'p{rng.randint(0, 2)}#0', 'kind': 'kill',
               'n': rng.randint(0, 6), 'frac': round(rng.random(), 2)}
              for _ in range(rng.choice([0, 0, 1]))]
    return {'mode': 'lib', 'spec': spec, 'ops': ops, 'faults': faults,
            'sched': T.gen_sched(rng)}


def shrink(plan):
    if plan['mode'] == 'cli':
        for q in T.shrink_training(plan):
            if q['bigram']:
                q['at'] = min(q['at'], len(q['epochs']))
                if q['scn']['weights'] == 'dirichlet':
                    q['bigram'] = 'dirichlet2'
            yield q
        if plan['bigram']:
            yield dict(plan, bigram=None, at=None)
        return
    for i in range(len(plan['ops'])):
        yield dict(plan, ops=plan['ops'][:i] + plan['ops'][i + 1:])


def weights_param(model):
    cat = getattr(model, 'categorical', None)
    if cat is None:
        cat = model.categoricalset
    return cat, cat.mean_field_factorization()[0][0]


def kind_of(model):
    cat, _ = weights_param(model)
    return {'Categorical': 'dirichlet', 'SBCategorical': 'dirichlet_process',
            'SBCategoricalHyperPrior': 'gamma_dirichlet_process',
            'CategoricalSet': 'dirichlet2',
            'SBCategoricalSet': 'hierarchical_dirichlet_process'}[type(cat).__name__]


def verify(model, base, what):
    '''The graph of `model` against the original one `base` (dict of float64
    probabilities) and the current weight posterior.'''
    cat, param = weights_param(model)
    st = ref.State()
    st.kind = kind_of(model)
    st.n = len(model.start_pdf)
    st.w = {'post': ref._std(param.posterior)}
    st.order = np.arange(st.n)
    if st.kind in ('dirichlet_process', 'gamma_dirichlet_process'):
        st.order = cat.ordering.numpy().copy()
    elif st.kind == 'hierarchical_dirichlet_process':
        st.order = cat.ordering.numpy().copy()
    st.start = np.array([int(v) for v in model.start_pdf.values()])
    st.end = np.array([int(v) for v in model.end_pdf.values()])
    st.graph = {k: v.copy() for k, v in base.items()}
    with np.errstate(all='ignore'):
        ref.refresh_transitions(st)
        real = ref.extract_graph(model.graph)
        for part in ('init', 'final', 'trans'):
            a, b = np.exp(st.graph[part]), np.exp(real[part])
            check(a.shape == b.shape, 'graph-shape', what)
            bad = ~np.isclose(a, b, rtol=TOL, atol=1e-6)
            check(not bad.any(), f'transitions-stale:{part}', lambda:
                  f'{what} ({st.kind}) at {np.argwhere(bad)[:4].tolist()}\n'
                  f'expected {a[bad][:6]}\n     got {b[bad][:6]}')


def run(plan, ctx):
    (run_cli if plan['mode'] == 'cli' else run_lib)(plan, ctx)


def run_cli(plan, ctx):
    scn = plan['scn']
    with core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        lab = L.Lab(sim, root, scn, ctx)

        def retry(name, argv, stdin='', inplace=None):
            for k in range(5):
                p = cli.beer(sim, f'{name}#{k}', argv, stdin)
                if p.ok or not p.tainted:
                    break
                ctx.probe('killed ' + p.key)
            lab.must(p)

        lab.dataset()
        for name, argv in lab.model_steps():
            retry(name, argv)
        with expect('decoding graph'):
            base = ref.extract_graph(L.load(lab('dgraph'))[0].compile())
        cur = '0.mdl'

        def look(what):
            model = L.load(lab(cur))
            with expect('model'):
                verify(model, base, what)

        look('creation')
        for e, ep in enumerate(plan['epochs'] + [None]):
            if plan['bigram'] and plan['at'] == e:
                retry('bigram', ['hmm', 'mkphoneloopbigram', '--weights-prior',
                                 plan['bigram'], lab(cur), lab('bigram.mdl')])
                cur = 'bigram.mdl'
                look('conversion to a bigram phone-loop')
                ctx.probe('bigram ' + plan['bigram'])
            if ep is None:
                break
            ali = T.ali_archive(lab, ep['ali'], f'ali{e}') if ep['ali'] else None
            ps = [cli.spawn(sim, f'acc{e}.{j}', lab.acc_argv(
                cur, f'e{e}.{j}', ali, ep['scale']), L.stdin_utts(utts))
                for j, utts in enumerate(ep['jobs'])]
            sim.run()
            for p in ps:
                lab.must(p)
            look('evaluation')
            retry(f'upd{e}', lab.upd_argv(cur, f'n{e}.mdl', ep['lr']),
                  ''.join(lab(f'e{e}.{j}') + '\n' for j in range(len(ps))))
            cur = f'n{e}.mdl'
            look(f'update {e}')
            ctx.nontrivial = True
        ctx.probe('cli ' + scn['weights'])
        ctx.note(scn['weights'], len(plan['epochs']), plan['bigram'], plan['at'],
                 scn['units'], [g['nstates'] for g in scn['groups']])
        ctx.absorb(sim)


def run_lib(plan, ctx):
    import beer
    spec, ops = plan['spec'], plan['ops']
    # Processes are separated by the "reload" operations.
    parts = [[]]
    for op in ops:
        if op['op'] == 'reload':
            parts.append([])
        else:
            parts[-1].append(op)
    with zoo.double(), core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        base = ref.extract_graph(zoo.loop_graph(spec)[0])
        X = zoo.data(spec)
        N = sum(map(len, X))

        def look(models, what):
            with expect('model'):
                for i, m in enumerate(models):
                    verify(m, base, f'model {i} after {what}')

        def main(i):
            def body():
                if i == 0:
                    models = [zoo.build(spec)]
                else:
                    with open(f'{root}/ck{i - 1}', 'rb') as f:
                        models = pickle.load(f)
                look(models, 'reload' if i else 'creation')
                for op in parts[i]:
                    step(models, op)
                    look(models, op['op'])
                with open(f'{root}/ck{i}', 'wb') as f:
                    pickle.dump(models, f)
                look(models, 'storing')
            return body

        def step(models, op):
            m = models[op['which'] % len(models)]
            k = op['op']
            cat, param = weights_param(m)
            torch.manual_seed(op['seed'])
            if k in ('train', 'emissions'):
                groups = zoo.groups(m)
                if k == 'emissions':
                    groups = [[p for p in g if p is not param] for g in groups]
                opt = beer.VBConjugateOptimizer(groups, lrate=op['lr'])
                opt.init_step()
                zoo.elbo(spec, m, X, op['batch'], N).backward()
                opt.step()
                ctx.nontrivial |= k == 'train'
            elif k == 'weights':
                n = len(m.start_pdf)
                shape = (n,) if hasattr(m, 'categorical') else (n, n)
                counts = torch.rand(*shape)
                kind = op.get('counts', 'random')
                if kind == 'uniform':
                    counts = torch.ones(*shape)
                elif kind == 'mean':             # the mean stays, roughly
                    counts = cat.mean.detach().clone()
                elif kind == 'single':
                    counts = torch.zeros(*shape)
                    counts[..., op['seed'] % n] = 1.
                elif kind == 'swap':
                    counts = cat.mean.detach().flip(dims=(-1,)).clone()
                counts = counts * op['scale']
                if type(cat).__name__.startswith('SB'):
                    stats = counts
                else:
                    stats = cat.sufficient_statistics(counts.reshape(-1, n)) \
                        .reshape(*shape[:-1], -1)
                param.store_stats(stats)
                param.natural_grad_update(op['lr'])
                ctx.nontrivial = True
            elif k == 'copy':
                models.append(copy.deepcopy(m))
            elif k == 'second':
                g, start, end, _ = zoo.loop_graph(spec)
                models.append(type(m).create(g, start, end,
                                             m.modelset.original_modelset, cat))
                ctx.probe('weights shared by several loops')
            elif k == 'bigram':
                if not hasattr(m, 'categorical'):
                    return
                n = len(m.start_pdf)
                if op['kind'] == 'sb2' and type(cat).__name__ != 'Categorical':
                    # The root is the trained unigram, as it was stored.
                    cs = beer.SBCategoricalSet.create(n, copy.deepcopy(cat),
                                                      prior_strength=n / 2)
                else:
                    cs = beer.CategoricalSet.create(torch.ones(n, n) / n, 1.)
                g, start, end, _ = zoo.loop_graph(spec)
                models.append(beer.BigramPhoneLoop.create(
                    g, start, end, m.modelset.original_modelset, cs))
                ctx.probe('bigram built from a unigram')
            elif k == 'decode':
                m.decode(X[0])

        for i in range(len(parts)):
            for k in range(4):
                p = sim.spawn(f'p{i}#{k}', main(i))
                sim.run()
                if isinstance(p.exc, core.Violation):
                    raise p.exc
                if p.ok or not p.tainted:
                    break
            check(p.ok, 'operation-failed', lambda: f'{p.error}\n{p.tb}')
        ctx.probe('lib ' + spec['family'])
        ctx.note(spec['family'], [o['op'] for o in ops], spec['nstates'])
        ctx.absorb(sim)
