"""C08: each optimizer step updates exactly the next group, across restarts."""
import copy
import pickle

import numpy as np
import torch

from .. import core, cli, lab as L, ref, train as T, zoo
from ..engine import check, expect

ID = 'C08'
QUICK, THOROUGH = (1720, 240), (16000, 850)
RULE = ('A run is a history of optimizer steps over one or two models whose '
        'parameters are partitioned at random into groups (possibly empty), '
        'with abandoned evaluations, steps that evaluate only one model, several '
        'steps on one evaluation, and '
        'processes that save the models and the optimizer state, are killed '
        'and retried (or epochs of the accumulate/update commands with a '
        'saved optimizer state). Each step is compared with the natural '
        'gradient formula applied to the group that the step counter '
        'designates and everything else must be bit-identical. Non-trivial: '
        'at least two groups or one restart; distinct by families, partition '
        'and history.')
REAL = ['beer.inference optimizers and objectives, models', 'beer hmm '
        'accumulate/update commands', 'torch.save/pickle on scratch files']
STUB = ['process scheduling and death, order of observers, uuid4, initial RNG '
        'state (simulator)']
ASSUMPTIONS = ['a file updated in place is restored before a killed command '
               'is run again', 'float64 tolerance 1e-9 in library histories, '
               '3e-3 for the float32 commands']
TOL = 1e-9


def generate(rng, index, tier):
    if rng.random() < .2:
        scn = T.gen_train(rng)
        utts = [u for u, _ in scn['utts']]
        return {'mode': 'cli', 'scn': scn, 'epochs': [
            {'jobs': T.split(rng, utts, rng.randint(1, 2)), 'ali': None,
             'scale': None, 'lr': rng.choice([1., .5, .1])}
            for _ in range(rng.choice([2, 2, 3] if rng.random() < .9 else [11]))],
            'optim': True, 'faults': [
                {'proc': f'upd{rng.randint(0, 2)}#0', 'kind': 'kill',
                 'pos': round(rng.random() * 1.05, 3),
                 'frac': round(rng.random(), 2)}
                for _ in range(rng.choice([0, 1, 1]))],
            'sched': T.gen_sched(rng)}
    specs = [zoo.gen_spec(rng) for _ in range(rng.choice([1, 1, 2]))]
    ngroups = rng.randint(1, 4)
    # part[i][j]: group of parameter j of model i (-1: not optimised).
    part = [[rng.choice([-1] + list(range(ngroups)) * 2) for _ in range(8)]
            for _ in specs]
    ops = []
    for _ in range(rng.randint(3, 10) if rng.random() < .95 else 28):
        k = rng.choice(['step', 'step', 'step', 'step', 'abandon', 'restart'])
        op = {'op': k}
        if k != 'restart':
            op['eval'] = [i for i in range(len(specs)) if rng.random() < .7] \
                or [rng.randrange(len(specs))]
            op['batch'] = [zoo.gen_batch(rng, s) for s in specs]
            op['more'] = rng.choice([0, 0, 0, 1, 2, 3])
        ops.append(op)
    nre = sum(o['op'] == 'restart' for o in ops)
    return {'mode': 'lib', 'specs': specs, 'ngroups': ngroups, 'part': part,
            'lr': rng.choice([1., .5, .1]), 'ops': ops,
            'faults': [{'proc': f'p{rng.randint(0, nre)}#0', 'kind': 'kill',
                        'n': rng.randint(0, 9), 'frac': round(rng.random(), 2)}
                       for _ in range(rng.choice([0, 0, 1, 2]))],
            'sched': T.gen_sched(rng)}


def shrink(plan):
    if plan['mode'] == 'cli':
        yield from T.shrink_training(plan)
        return
    for i in range(len(plan['ops'])):
        yield dict(plan, ops=plan['ops'][:i] + plan['ops'][i + 1:])
    for i, o in enumerate(plan['ops']):
        if o.get('more'):
            yield dict(plan, ops=plan['ops'][:i] + [dict(o, more=0)]
                       + plan['ops'][i + 1:])
    if len(plan['specs']) > 1:
        yield dict(plan, specs=plan['specs'][:1], part=plan['part'][:1],
                   ops=[dict(o, eval=[0], batch=o['batch'][:1])
                        if 'eval' in o else o for o in plan['ops']])
    if plan['ngroups'] > 1:
        n = plan['ngroups'] - 1
        yield dict(plan, ngroups=n,
                   part=[[min(g, n - 1) for g in p] for p in plan['part']])


def run(plan, ctx):
    (run_cli if plan['mode'] == 'cli' else run_lib)(plan, ctx)


# ---------------------------------------------------------------------------

def snap(models):
    'Bit exact copy: per model, per parameter (prior, posterior, stats).'
    return [[(p.prior.natural_parameters().detach().clone(),
              p.posterior.natural_parameters().detach().clone(),
              p.stats.detach().clone()) for p in m.bayesian_parameters()]
            for m in models]


def run_lib(plan, ctx):
    import beer
    specs, ng = plan['specs'], plan['ngroups']
    parts = [[]]
    for op in plan['ops']:
        if op['op'] == 'restart':
            parts.append([])
        else:
            parts[-1].append(op)
    with zoo.double(), core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        X = [zoo.data(s) for s in specs]
        N = [sum(map(len, x)) for x in X]

        # Parameters that no optimizer handles: the concentration of a stick
        # breaking process follows the sticks by itself.
        own, names = [], []
        for s in specs:
            m = zoo.build(s)
            of = {id(getattr(x, 'stickbreaking', None)) for x in m.modules()}
            names.append(['stickbreaking' if id(p) in of else ''
                          for p in m.bayesian_parameters()])
            listed = {id(p) for g in m.mean_field_factorization() for p in g}
            own.append([id(p) in listed for p in m.bayesian_parameters()])

        def group_of(i, j):
            return plan['part'][i][j % len(plan['part'][i])] if own[i][j] else -1

        def make_groups(models):
            groups = [[] for _ in range(ng)]
            for i, m in enumerate(models):
                for j, p in enumerate(m.bayesian_parameters()):
                    if group_of(i, j) >= 0:
                        groups[group_of(i, j)].append(p)
            return groups

        def evaluate(models, op):
            'Objectives of the step; statistics stored in the parameters.'
            for i in op['eval']:
                if i < len(models):
                    zoo.elbo(specs[i], models[i], X[i], op['batch'][i],
                             N[i]).backward()

        def step(models, opt, count, op):
            before = snap(models)
            twins = copy.deepcopy(models)
            opt.init_step()
            zeroed = snap(models)
            for i, m in enumerate(before):
                for j, (pr, po, st) in enumerate(m):
                    z = zeroed[i][j]
                    check(torch.equal(pr, z[0]) and torch.equal(po, z[1]),
                          'init-step-changed-parameter', f'model {i} param {j}')
                    if group_of(i, j) < 0:
                        check(torch.equal(st, z[2]), 'foreign-statistics-touched',
                              f'init_step, model {i} parameter {j}')
            evaluate(models, op)
            mid = snap(models)
            for i, m in enumerate(zeroed):
                for j, (pr, po, st) in enumerate(m):
                    z = mid[i][j]
                    check(torch.equal(pr, z[0]) and torch.equal(po, z[1]),
                          'evaluation-changed-parameter', f'model {i} param {j}')
                    if i not in op['eval']:
                        check(torch.equal(st, z[2]), 'foreign-statistics-touched',
                              f'evaluation, model {i} parameter {j}')
            if op['op'] == 'abandon':
                ctx.probe('abandoned evaluation')
                return count
            # What the steps must do, on untouched copies.
            for i, m in enumerate(twins):
                for p in m.bayesian_parameters():
                    p.zero_stats()
            evaluate(twins, op)
            # Further steps may follow one evaluation: the others groups'.
            for k in range(1 + op.get('more', 0)):
                if k:
                    ctx.probe('step on kept statistics')
                    before = snap(models)
                    # From the updated parameters, with fresh statistics.
                    for t, m in zip(twins, models):
                        for q, p in zip(t.bayesian_parameters(),
                                        m.bayesian_parameters()):
                            q.posterior = copy.deepcopy(p.posterior)
                opt.step()
                compare(models, twins, before, count)
                count += 1
            return count

        def compare(models, twins, before, count):
            after = snap(models)
            active = count % ng if ng else None
            for i, m in enumerate(models):
                ps = list(m.bayesian_parameters())
                qs = list(twins[i].bayesian_parameters())
                follow, moved = set(), False
                for j, (p, q) in enumerate(zip(ps, qs)):
                    b, a = before[i][j], after[i][j]
                    where = f'model {i} ({specs[i]["family"]}) parameter {j} ' \
                            f'group {group_of(i, j)} at step {count}'
                    if group_of(i, j) != active or active is None:
                        if not own[i][j]:
                            follow.add(j)
                            continue
                        check(torch.equal(b[1], a[1]), 'wrong-group-updated', where)
                        check(torch.equal(b[0], a[0]), 'prior-changed', where)
                        continue
                    # Stick-breaking weights transform the counts first (C07
                    # and C02 judge how); without counts they step as any.
                    sb = q.stats.shape != q.prior.natural_parameters().shape \
                        or (specs[i]['family'].endswith('_sbh')
                            and 'stickbreaking' in names[i][j])
                    if sb:
                        q.natural_grad_update(plan['lr'])
                        moved = True
                        want = q.posterior.natural_parameters()
                        wprior = q.prior.natural_parameters()
                    else:
                        want = b[1] + plan['lr'] * (b[0] + q.stats - b[1])
                        wprior = b[0]
                    e = L.relerr(want.numpy(), a[1].numpy())
                    check(e <= TOL, 'wrong-update', lambda: f'{where}: off by {e:.3g}')
                    e = L.relerr(wprior.numpy(), a[0].numpy())
                    check(e <= TOL, 'prior-changed', lambda: f'{where}: {e:.3g}')
                for j in follow:
                    a, q = after[i][j], qs[j]
                    want = q.posterior.natural_parameters() if moved \
                        else before[i][j][1]
                    e = L.relerr(want.numpy(), a[1].numpy())
                    check(e <= TOL if moved else e == 0, 'wrong-concentration',
                          lambda: f'model {i} step {count}: off by {e:.3g}')
                    check(torch.equal(before[i][j][0], a[0]), 'prior-changed',
                          f'concentration of model {i}')

        def main(i):
            def body():
                if i == 0:
                    models = [zoo.build(s) for s in specs]
                    for m in models:        # leftovers of earlier work
                        for p in m.bayesian_parameters():
                            p.stats = torch.ones_like(p.stats) * 7.
                    opt = beer.VBConjugateOptimizer(iter(make_groups(models)),
                                                    lrate=plan['lr'])
                    count = 0
                else:
                    with open(f'{root}/mdl{i - 1}', 'rb') as f:
                        models, count = pickle.load(f)
                    opt = beer.VBConjugateOptimizer(make_groups(models), lrate=.77)
                    opt.load_state_dict(torch.load(f'{root}/opt{i - 1}'))
                    ctx.probe('restart')
                for op in parts[i]:
                    count = step(models, opt, count, op)
                with open(f'{root}/mdl{i}', 'wb') as f:
                    pickle.dump((models, count), f)
                torch.save(opt.state_dict(), f'{root}/opt{i}')
            return body

        for i in range(len(parts)):
            for k in range(4):
                p = sim.spawn(f'p{i}#{k}', main(i))
                sim.run()
                if isinstance(p.exc, core.Violation):
                    raise p.exc
                if p.ok or not p.tainted:
                    break
            check(p.ok, 'operation-failed', lambda: f'{p.error}\n{p.tb}')
        ctx.nontrivial = ng > 1 or len(parts) > 1
        ctx.probe(f'{ng} groups')
        ctx.note([s['family'] for s in specs], plan['part'],
                 [o['op'] for o in plan['ops']])
        ctx.absorb(sim)


# ---------------------------------------------------------------------------

def run_cli(plan, ctx):
    scn = plan['scn']
    fea = L.features(scn)
    size = sum(len(x) for x in fea.values())
    lr = plan['epochs'][0]['lr']
    with core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        lab = L.Lab(sim, root, scn, ctx)
        lab.dataset()
        lab.model()
        for e, ep in enumerate(plan['epochs']):
            with expect('model'):
                st = ref.extract(L.load(lab(f'{e}.mdl')), scn['weights'])
            ps = [cli.spawn(sim, f'acc{e}.{j}', lab.acc_argv(f'{e}.mdl', f'e{e}.{j}'),
                            L.stdin_utts(job)) for j, job in enumerate(ep['jobs'])]
            sim.run()
            stats = ref.new_stats(st)
            for p, job in zip(ps, ep['jobs']):
                lab.must(p)
                for u in job:
                    ref.add_utterance(st, stats, np.float32(fea[u]), size)
            keep = L.read_bytes(lab('optim')) if e else None
            for k in range(4):
                p = cli.beer(sim, f'upd{e}#{k}', lab.upd_argv(
                    f'{e}.mdl', f'{e + 1}.mdl', ep['lr'], 'optim'),
                    ''.join(lab(f'e{e}.{j}') + '\n' for j in range(len(ps))))
                if p.ok or not p.tainted:
                    break
                ctx.probe('update killed')
                if keep is not None:
                    L.write(lab('optim'), keep)
                else:
                    import os
                    if os.path.exists(lab('optim')):
                        core._orig['remove'](lab('optim'))
            lab.must(p)
            with expect('updated model'):
                real = ref.extract(L.load(lab(f'{e + 1}.mdl')), scn['weights'])
            ref.compare(ref.m_step(st, stats, size, lr, real.order), real, T.TOL,
                        'update-differs-from-persisted-rate')
            with expect('optimizer state'):
                state = torch.load(lab('optim'))
                check(state['update_count'] == e + 1 and
                      abs(state['lrate'] - lr) < 1e-9, 'optimizer-state',
                      f'epoch {e}: {state}, first learning rate {lr}')
            ctx.nontrivial = True
        ctx.probe('cli')
        ctx.note('cli', scn['weights'], [ep['lr'] for ep in plan['epochs']])
        ctx.absorb(sim)
