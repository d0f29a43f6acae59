"""C01: parallel training equals training in one process."""
from .. import core, cli, lab as L, train as T
from ..engine import check, expect

ID = 'C01'
QUICK, THOROUGH = (720, 240), (6000, 800)
RULE = ('A run trains one generated phone loop for 1-3 epochs with 1-5 '
        'concurrent accumulate jobs (random split, possibly empty, random '
        'order and interleaving, short I/O and stalls) and compares every '
        'updated model and objective with one serial job and with "hmm '
        'train". Non-trivial: at least two jobs with utterances; distinct by '
        'operation interleaving.')
REAL = ['beer CLI commands and library', 'numpy/torch/pickle/zipfile I/O on '
        'scratch files']
STUB = ['process scheduling, file system latency and short transfers, '
        'directory order, uuid4, initial RNG state (simulator)']
ASSUMPTIONS = ['float32 sums in another order may differ by 2e-3 relative in '
               'one epoch', 'utterances at least as long as a unit']
TOL1, TOLN = 2e-3, 2e-2


def generate(rng, index, tier):
    large = rng.random() < .05
    scn = T.gen_train(rng, large=large)
    epochs = []
    same = rng.random() < .6          # comparable to "hmm train -e N"
    lr = rng.choice([1., 1., .5])
    for e in range(1 if large else rng.choice([1, 1, 2, 3])):
        utts = [u for u, _ in scn['utts']]
        ali = None if same or rng.random() < .6 else T.gen_ali(rng, scn)
        epochs.append({
            'jobs': T.split(rng, utts, rng.choice(
                [9, 12] if large else [2, 2, 3, 4, 5])),
            'lr': lr, 'scale': None if same else rng.choice([None, .5, 2.]),
            'ali': ali})
    procs = [f'acc{e}.{j}' for e, ep in enumerate(epochs)
             for j in range(len(ep['jobs']))] + [f'upd{e}' for e in range(len(epochs))]
    return {'scn': scn, 'epochs': epochs, 'train': same,
            'out': rng.choice(T.OUTS), 'sched': T.gen_sched(rng),
            'faults': T.gen_soft(rng, procs, rng.choice([0, 1, 2, 3]))}


def shrink(plan):
    for q in T.shrink_training(plan):
        if any(ep['ali'] or ep['scale'] for ep in q['epochs']):
            q = dict(q, train=False)
        yield q


def check_writes(sim, p, before, own):
    'The job wrote to nothing but its own output.'
    for name, cls, path, _, _ in sim.trace:
        if name == p.name and cls in ('wopen', 'remove', 'unlink', 'replace',
                                      'rename'):
            check(path == own or path not in before, 'job-writes-elsewhere',
                  f'{name} ({" ".join(p.cmd)}): {cls} {path}')


def run(plan, ctx):
    scn = plan['scn']
    with core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        lab = L.Lab(sim, root, scn, ctx)
        lab.dataset()
        lab.model()
        utts = [u for u, _ in scn['utts']]
        comparable = plan['train']
        for e, ep in enumerate(plan['epochs']):
            ali = T.ali_archive(lab, ep['ali'], f'ali{e}') if ep['ali'] else None
            names = [T.out_name(lab, plan['out'], e, j)
                     for j in range(len(ep['jobs']))]
            before = L.snapshot(root)
            ps = [cli.spawn(sim, f'acc{e}.{j}', lab.acc_argv(
                f'{e}.mdl', names[j], ali, ep['scale']), L.stdin_utts(job))
                for j, job in enumerate(ep['jobs'])]
            sim.run()
            for p in ps:
                lab.must(p)
            after = L.snapshot(root)
            for f in before:
                check(after.get(f) == before[f], 'job-changed-a-file', f)
            for p, n in zip(ps, names):
                check(n in after, 'missing-output', n)
                check_writes(sim, p, set(before) | set(names), n)
            order = list(range(len(ps)))
            core.rng_for(plan['seed'], 'order', e).shuffle(order)
            pu = lab.beer(f'upd{e}', lab.upd_argv(f'{e}.mdl', f'{e + 1}.mdl',
                                                  ep['lr']),
                          ''.join(lab(names[j]) + '\n' for j in order))
            check_writes(sim, pu, set(after), f'{e + 1}.mdl')
            # One job, all the utterances.
            ser = list(utts)
            core.rng_for(plan['seed'], 'serial', e).shuffle(ser)
            lab.beer(f'sacc{e}', lab.acc_argv(f'{e}.mdl', f's{e}', ali,
                                              ep['scale']), L.stdin_utts(ser))
            ps1 = lab.beer(f'supd{e}', lab.upd_argv(f'{e}.mdl', f's{e + 1}.mdl',
                                                    ep['lr']), lab(f's{e}') + '\n')
            a, b = T.objective(pu), T.objective(ps1)
            if a is not None and b is not None:
                check(abs(a - b) <= 2e-3 * (1 + abs(b)), 'objective-differs',
                      f'epoch {e}: {a} with {len(ps)} jobs, {b} with one')
            m1, m2 = L.load(lab(f'{e + 1}.mdl')), L.load(lab(f's{e + 1}.mdl'))
            with expect('model'):
                same = T.same_model(m1, m2, TOL1, 'parallel-differs-from-serial', ctx)
            comparable = comparable and same
            if sum(1 for j in ep['jobs'] if j) > 1:
                ctx.nontrivial = True
        if comparable:
            n = len(plan['epochs'])
            p = lab.beer('train', ['hmm', 'train', '-b', '-1', '-e', n, '-l',
                                   plan['epochs'][0]['lr'], lab('0.mdl'),
                                   lab('ds.pkl'), lab('t.mdl')])
            m1, m2 = L.load(lab(f'{n}.mdl')), L.load(lab('t.mdl'))
            with expect('model'):
                if T.same_model(m1, m2, TOL1 if n == 1 else TOLN,
                                'train-command-differs', ctx):
                    ctx.probe('compared with hmm train')
        ctx.absorb(sim)
