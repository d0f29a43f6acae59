"""C02: every distributed training step is the closed-form variational update."""
import numpy as np

from .. import core, cli, lab as L, ref, train as T
from ..engine import check, expect

ID = 'C02'
QUICK, THOROUGH = (720, 240), (6000, 800)
RULE = ('A run is one generated experiment (data, unit inventory, covariance '
        'type, weight prior) trained for 1-3 epochs by concurrent simulated '
        'accumulate jobs and an update; after each epoch the model on disk is '
        'compared with a float64 reference step. Non-trivial: at least two '
        'utterances and one update; distinct by operation interleaving and '
        'scenario.')
REAL = ['beer CLI (features archive, dataset create, hmm mkphones, '
        'mkphoneloopgraph, mkdecodegraph, mkphoneloop, mkaligraph, accumulate, '
        'update)', 'beer models, dists, inference, graph', 'numpy/torch/pickle/'
        'zipfile I/O on real scratch files']
STUB = ['process scheduling, file system latency and faults, directory order, '
        'uuid4, initial RNG state (simulator)']
ASSUMPTIONS = ['float32 arithmetic may differ from the float64 reference by '
               '3e-3 relative', 'every utterance is long enough for one path '
               'of its graph', 'units have at least two emitting states']


def generate(rng, index, tier):
    large = rng.random() < .05
    scn = T.gen_train(rng, minstates=2, large=large)
    epochs = []
    lr0 = rng.choice([1., .5, .1])
    optim = rng.random() < .3
    for e in range(rng.choice([1, 2, 2, 3])):
        utts = [u for u, _ in scn['utts']]
        if rng.random() < .3 and len(utts) > 1:      # stochastic epoch
            utts = rng.sample(utts, rng.randint(1, len(utts)))
        epochs.append({
            'jobs': [j for j in T.split(rng, utts, rng.randint(1, 4) * (1 + 2 * large))],
            'lr': lr0 if optim else rng.choice([1., 1., .5, .1]),
            'scale': rng.choice([None, 1., .3, .1, 2.]),
            'ali': T.gen_ali(rng, scn) if rng.random() < .3 else None,
        })
    procs = [f'acc{e}.{j}' for e, ep in enumerate(epochs)
             for j in range(len(ep['jobs']))] + [f'upd{e}' for e in range(len(epochs))]
    return {'scn': scn, 'epochs': epochs, 'optim': optim,
            'sched': T.gen_sched(rng),
            'faults': T.gen_soft(rng, procs, rng.choice([0, 1, 2, 3]))}


def shrink(plan):
    for s in L.shrink_scenario(plan['scn']):
        keep = {u for u, _ in s['utts']}
        units = {u for u, _ in s['units']}
        need = max(g['nstates'] for g in s['groups'])
        if any(n < need for _, n in s['utts']):
            continue
        eps = []
        for ep in plan['epochs']:
            ep = dict(ep, jobs=[[u for u in j if u in keep] for j in ep['jobs']])
            if ep['ali']:
                ep['ali'] = {u: q for u, q in ep['ali'].items() if u in keep
                             and all(x in units for x in q)}
            if any(ep['jobs']):
                eps.append(ep)
        if eps:
            yield dict(plan, scn=s, epochs=eps)
    if len(plan['epochs']) > 1:
        for i in range(len(plan['epochs'])):
            yield dict(plan, epochs=plan['epochs'][:i] + plan['epochs'][i + 1:])
    for i, ep in enumerate(plan['epochs']):
        for key, val in (('ali', None), ('scale', None), ('lr', 1.)):
            if ep[key] != val:
                yield dict(plan, epochs=[dict(x, **{key: val}) if j == i else x
                                         for j, x in enumerate(plan['epochs'])])
        if len(ep['jobs']) > 1:
            one = [sum(ep['jobs'], [])]
            yield dict(plan, epochs=[dict(x, jobs=one) if j == i else x
                                     for j, x in enumerate(plan['epochs'])])
    if plan['optim']:
        yield dict(plan, optim=False)


def run(plan, ctx):
    scn = plan['scn']
    fea = L.features(scn)
    size = sum(len(x) for x in fea.values())
    with core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        lab = L.Lab(sim, root, scn, ctx)
        lab.dataset()
        lab.model()
        model = L.load(lab('0.mdl'))
        with expect('initial model'):
            st = ref.extract(model, scn['weights'])
        for e, ep in enumerate(plan['epochs']):
            ali = None
            if ep['ali']:
                ali = f'ali{e}.npz'
                sub = L.Lab(sim, root, scn)
                make_ali(lab, ep['ali'], e)
            ps = []
            for j, utts in enumerate(ep['jobs']):
                ps.append(cli.spawn(sim, f'acc{e}.{j}', lab.acc_argv(
                    f'{e}.mdl', f'e{e}.{j}', ali, ep['scale']),
                    L.stdin_utts(utts)))
            sim.run()
            for p in ps:
                lab.must(p)
            stats = ref.new_stats(st)
            scale = 1. if ep['scale'] is None else ep['scale']
            for p, utts in zip(ps, ep['jobs']):
                before = stats['value']
                for u in utts:
                    g = None
                    if ep['ali'] and u in ep['ali']:
                        g = T.ref_aligraph(scn, ep['ali'][u], model.start_pdf)
                        ctx.probe('aligned utterance')
                    ref.add_utterance(st, stats, np.float32(fea[u]), size,
                                      scale, g)
                value(p, (stats['value'] - before) / (max(1, len(utts)) * size),
                      f'epoch {e} job {p.name}')
                check(T.count_of(p) in (None, len(utts)), 'utterance-count',
                      f'{p.logs[-1:]} for {utts}')
            order = list(range(len(ps)))
            core.rng_for(plan['seed'], 'order', e).shuffle(order)
            p = lab.beer(f'upd{e}', lab.upd_argv(
                f'{e}.mdl', f'{e + 1}.mdl', ep['lr'],
                'optim' if plan['optim'] else None),
                ''.join(lab(f'e{e}.{j}') + '\n' for j in order))
            value(p, stats['value'] / (stats['nutts'] * size), f'epoch {e} update')
            model = L.load(lab(f'{e + 1}.mdl'))
            with expect('updated model'):
                real = ref.extract(model, scn['weights'])
            pred = ref.m_step(st, stats, size, ep['lr'], real.order)
            ref.compare(pred, real, T.TOL, 'update-differs-from-reference')
            st = real
        ctx.nontrivial = len(scn['utts']) > 1
        ctx.note(scn['weights'], scn['groups'], len(scn['utts']))
        ctx.probe('weights ' + scn['weights'])
        ctx.probe('cov ' + scn['groups'][0]['cov'])
        ctx.absorb(sim)


def make_ali(lab, ali, e):
    import os
    d = lab(f'alidir{e}')
    os.makedirs(d, exist_ok=True)
    text = ''.join(f'{u} {" ".join(seq)}\n' for u, seq in ali.items())
    lab.beer(f'mkali{e}', ['hmm', 'mkaligraph', lab('hmms'), d], stdin=text)
    lab.beer(f'aliarc{e}', ['features', 'archive', d, lab(f'ali{e}.npz')])


def value(p, expected, what):
    got = T.objective(p)
    if got is None:
        return
    tol = 2e-3 + 1e-3 * abs(expected)
    check(abs(got - expected) <= tol, 'objective-value',
          f'{what}: reported {got}, expected {expected:.4f}')
