"""C04: training killed at any point resumes to the same model."""
import os

from .. import core, cli, lab as L, train as T
from ..engine import check, expect

ID = 'C04'
BLOCK = 6
QUICK, THOROUGH = (600, 240), (6000, 800)
RULE = ('A run executes the whole chain of commands (archive, data set, '
        'units, graphs, model, alignments, accumulate, update, with or without '
        'a saved optimizer state) twice: undisturbed, and with 1-6 kills at '
        'random operations (half written files stay behind), each killed '
        'command being rerun from the files that preceded it. All the models '
        'and the optimizer states are compared. Non-trivial: at least one kill '
        'fired; distinct by the killed operations.')
REAL = ['beer CLI commands and library', 'numpy/torch/pickle/zipfile I/O on '
        'scratch files']
STUB = ['process scheduling and death, directory order, uuid4, initial RNG '
        'state (simulator)']
ASSUMPTIONS = ['a kill loses the user space buffers of the process and keeps '
               'every byte handed to the system', 'files modified in place '
               '(optimizer state) are restored from a copy before the rerun, '
               'as the property says', 'float32 tolerance 2e-3']
TOL = 2e-3


def generate(rng, index, tier):
    # The runs of one block share the scenario: one undisturbed chain, many
    # crash histories.
    srng = core.rng_for(rng.base, 'c04-block', index // BLOCK)
    scn = T.gen_train(srng, large=srng.random() < .04)
    utts = [u for u, _ in scn['utts']]
    optim = srng.random() < .6
    epochs = []
    for e in range(srng.choice([1, 2, 2, 3])):
        epochs.append({'jobs': T.split(srng, utts, srng.randint(1, 3)),
                       'ali': (T.gen_ali(srng, scn) or None)
                       if srng.random() < .3 else None,
                       'scale': srng.choice([None, None, .5]),
                       'lr': srng.choice([1., .5])})
    names = steps(epochs)
    kills = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        name = rng.choice(names)
        if rng.random() < .35:
            name = rng.choice([n for n in names if n.startswith('upd')])
        nth = sum(1 for k in kills if k['proc'].startswith(name + '#'))
        kills.append({'proc': f'{name}#{nth}', 'kind': 'kill',
                      'pos': round(rng.random() * 1.05, 3),
                      'frac': round(rng.random(), 2)})
    return {'scn': scn, 'epochs': epochs, 'optim': optim, 'faults': kills,
            'base': srng.getrandbits(40), 'sched': T.gen_sched(rng)}


def steps(epochs):
    out = ['archive', 'dataset', 'mkphones', 'mkgraph', 'mkdecode', 'mkphoneloop']
    for e, ep in enumerate(epochs):
        if ep['ali']:
            out += [f'mkali{e}', f'arcali{e}']
        out += [f'acc{e}.{j}' for j in range(len(ep['jobs']))]
        out += [f'upd{e}', f'upd{e}']
    return out


def shrink(plan):
    for q in T.shrink_training(plan):
        q['faults'] = [f for f in q['faults']
                       if f['proc'].split('#')[0] in steps(q['epochs'])]
        if q['faults']:
            yield q
    if plan['optim']:
        yield dict(plan, optim=False)


def chain(lab, plan, crash, ctx):
    'All the commands. Returns nothing; files are left in lab.root.'
    sim, scn = lab.sim, lab.scn

    def do(batch, inplace=()):
        'batch: [(name, argv, stdin)] run concurrently, retried when killed.'
        keep = {f: L.read_bytes(lab(f)) if os.path.exists(lab(f)) else None
                for f in inplace}
        todo = [(n, a, s, 0) for n, a, s in batch]
        while todo:
            ps = [(cli.spawn(sim, f'{n}#{k}', a, s), (n, a, s, k))
                  for n, a, s, k in todo]
            sim.run()
            todo = []
            for p, (n, a, s, k) in ps:
                if p.ok:
                    continue
                check(p.tainted, f'command-failed:{p.key}',
                      lambda: f'{" ".join(p.cmd)}: {p.error}\n{p.tb}')
                ctx.nontrivial = True
                ctx.note(p.key, p.nops)
                ctx.probe('killed ' + p.key)
                check(k < 10, 'job-never-succeeds', p.error)
                todo.append((n, a, s, k + 1))
                for f, content in keep.items():
                    if content is None:
                        if os.path.exists(lab(f)):
                            core._orig['remove'](lab(f))
                    else:
                        L.write(lab(f), content)

    lab.inputs()
    do([('archive', ['features', 'archive', lab('fea'), lab('fea.npz')], '')])
    do([('dataset', ['dataset', 'create', lab.root, lab('fea.npz'),
                     lab('ds.pkl')], '')])
    for name, argv in lab.model_steps():
        do([(name, argv, '')])
    for e, ep in enumerate(plan['epochs']):
        ali = None
        if ep['ali']:
            d = lab(f'ali{e}.dir')
            os.makedirs(d)
            text = ''.join(f'{u} {" ".join(q)}\n' for u, q in ep['ali'].items())
            do([(f'mkali{e}', ['hmm', 'mkaligraph', lab('hmms'), d], text)])
            ali = f'ali{e}.npz'
            do([(f'arcali{e}', ['features', 'archive', d, lab(ali)], '')])
        do([(f'acc{e}.{j}', lab.acc_argv(f'{e}.mdl', f'e{e}.{j}', ali, ep['scale']),
             L.stdin_utts(job)) for j, job in enumerate(ep['jobs'])])
        opt = 'optim' if plan['optim'] else None
        do([(f'upd{e}', lab.upd_argv(f'{e}.mdl', f'{e + 1}.mdl', ep['lr'], opt),
             ''.join(lab(f'e{e}.{j}') + '\n' for j in range(len(ep['jobs']))))],
           inplace=['optim'] if opt else [])


_base = {}


def run(plan, ctx):
    scn, n = plan['scn'], len(plan['epochs'])
    key = repr((scn, plan['epochs'], plan['optim'], plan['base']))
    if key not in _base:
        with core.Scratch() as root:
            with core.Sim(plan['base'], root) as sim:
                lab = L.Lab(sim, root, scn, ctx)
                chain(lab, plan, False, Quiet())
                files = {f'{i}.mdl': L.read_bytes(lab(f'{i}.mdl'))
                         for i in range(n + 1)}
                if plan['optim']:
                    files['optim'] = L.read_bytes(lab('optim'))
                _base.clear()
                _base[key] = (files, dict(sim.opcounts))
    base, opcounts = _base[key]
    with core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults'],
                     opcounts=dict(opcounts)) as sim:
        lab = L.Lab(sim, root, scn, ctx)
        chain(lab, plan, True, ctx)
        for i in range(n + 1):
            L.write(lab('base.mdl'), base[f'{i}.mdl'])
            m1, m2 = L.load(lab(f'{i}.mdl')), L.load(lab('base.mdl'))
            with expect('model'):
                if not T.same_model(m1, m2, TOL if i < 2 else 10 * TOL,
                                    'resumed-model-differs', ctx):
                    break
        if plan['optim']:
            import torch
            L.write(lab('base.optim'), base['optim'])
            with expect('optimizer state'):
                a = torch.load(lab('optim'))
                b = torch.load(lab('base.optim'))
                check(a == b, 'resumed-optimizer-differs', f'{a} vs {b}')
        ctx.absorb(sim)


class Quiet:
    nontrivial = False

    def probe(self, *a):
        pass

    note = probe
