"""C03: every available listed utterance counts exactly once."""
import numpy as np

from .. import core, cli, lab as L, ref, train as T
from ..engine import check, expect

ID = 'C03'
QUICK, THOROUGH = (610, 240), (6000, 800)
RULE = ('A run trains one generated phone loop for 1-2 epochs with concurrent '
        'jobs whose attempts are killed, fail on I/O errors or allocation, are '
        'retried, run twice or finish after the update, with identifiers that '
        'have no features and utterances that have no alignment. Non-trivial: '
        'at least one failed or abandoned attempt, duplicate or unavailable '
        'identifier; distinct by operation interleaving and fault positions.')
REAL = ['beer CLI commands and library', 'numpy/torch/pickle/zipfile I/O on '
        'scratch files']
STUB = ['process scheduling and death, file system faults, directory order, '
        'uuid4, initial RNG state (simulator)']
ASSUMPTIONS = ['the driver retries a failed job and lists each output of a '
               'successful job once', 'float32 tolerance 3e-3']
HARD = ['kill', 'kill', 'eio_read', 'eio_open', 'enospc', 'eio_write',
        'close_err', 'nomem', 'enoent']


def generate(rng, index, tier):
    large = rng.random() < .05
    scn = T.gen_train(rng, large=large)
    utts = [u for u, _ in scn['utts']]
    epochs, faults = [], []
    for e in range(rng.choice([1, 1, 2])):
        jobs = T.split(rng, utts, rng.randint(1, 4) * (1 + 2 * large))
        if rng.random() < .6:                  # identifiers without features
            for _ in range(rng.randint(1, 3)):
                j = rng.choice(jobs)
                j.insert(rng.randint(0, len(j)),
                         rng.choice(['ghost', 'nope-7', 'utt0', 'spk1-99'])
                         + str(rng.randint(0, 9)) + 'x')
        if rng.random() < .03:                 # many of them
            j = rng.choice(jobs)
            k = rng.randint(0, len(j))
            j[k:k] = [f'absent{i}' for i in range(rng.choice([300, 1100]))]
        ali = T.gen_ali(rng, scn) if rng.random() < .5 else None
        if ali is not None and not ali:
            ali = None
        dups = [j for j in range(len(jobs)) if rng.random() < .3]
        attempts = []
        for j in range(len(jobs)):
            n = rng.choice([0, 0, 1, 1, 2, 3])
            for a in range(n):
                faults.append({'proc': f'acc{e}.{j}.{a}', 'kind': rng.choice(HARD),
                               'pos': round(rng.random(), 3),
                               'frac': round(rng.random(), 2)})
            attempts.append(n)
        for j in dups:
            faults.append({'proc': f'dup{e}.{j}', 'pos': round(rng.random(), 3),
                           'kind': rng.choice(['stall', 'kill', 'stall', 'enospc']),
                           'frac': .5, 'delay': rng.choice([5., 1e5])})
        if rng.random() < .4:
            faults.append({'proc': f'upd{e}.0', 'kind': rng.choice(HARD),
                           'pos': round(rng.random(), 3), 'frac': .5})
        epochs.append({'jobs': jobs, 'ali': ali, 'dups': dups,
                       'scale': rng.choice([None, None, .5]),
                       'lr': rng.choice([1., 1., .5])})
    return {'scn': scn, 'epochs': epochs, 'out': rng.choice(T.OUTS), 'sched': T.gen_sched(rng),
            'faults': faults}


def shrink(plan):
    yield from T.shrink_training(plan)
    for i, ep in enumerate(plan['epochs']):
        if ep['dups']:
            yield dict(plan, epochs=[dict(x, dups=[]) if j == i else x
                                     for j, x in enumerate(plan['epochs'])])


class Job:
    'Retries one command until it reports success.'

    def __init__(self, lab, ctx, name, argv, stdin, limit=8):
        self.lab, self.ctx, self.name = lab, ctx, name
        self.argv, self.stdin, self.limit = argv, stdin, limit
        self.n = 0
        self.proc = None
        self.start()

    def start(self):
        self.proc = cli.spawn(self.lab.sim, f'{self.name}.{self.n}', self.argv,
                              self.stdin, on_exit=self.ended,
                              delay=30. * self.n or None)
        self.n += 1

    def ended(self, p):
        if p.ok:
            return
        check(p.tainted, f'command-failed:{p.key}',
              lambda: f'{" ".join(p.cmd)}: {p.error}\n{p.tb}')
        self.ctx.nontrivial = True
        self.ctx.probe('failed attempt')
        if self.n < self.limit:
            self.start()


def run(plan, ctx):
    scn = plan['scn']
    fea = L.features(scn)
    size = sum(len(x) for x in fea.values())
    with core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        lab = L.Lab(sim, root, scn, ctx)
        lab.dataset()
        lab.model()
        # Learn how many operations a job takes.
        lab.beer('warm', lab.acc_argv('0.mdl', 'warm'),
                 L.stdin_utts(list(fea)[:2]))
        lab.beer('warmupd', lab.upd_argv('0.mdl', 'warm.mdl'), lab('warm') + '\n')
        model = L.load(lab('0.mdl'))
        with expect('initial model'):
            st = ref.extract(model, scn['weights'])
        for e, ep in enumerate(plan['epochs']):
            if not any(u in fea for j in ep['jobs'] for u in j):
                break
            ali = T.ali_archive(lab, ep['ali'], f'ali{e}') if ep['ali'] else None
            jobs, dups = [], []
            for j, job in enumerate(ep['jobs']):
                out = T.out_name(lab, plan['out'], e, j)
                argv = lab.acc_argv(f'{e}.mdl', out, ali, ep['scale'])
                jobs.append(Job(lab, ctx, f'acc{e}.{j}', argv, L.stdin_utts(job)))
                if j in ep['dups']:
                    argv = lab.acc_argv(f'{e}.mdl', out + '.dup', ali, ep['scale'])
                    dups.append(cli.spawn(sim, f'dup{e}.{j}', argv,
                                          L.stdin_utts(job)))
                    ctx.nontrivial = True
            sim.run()
            outs = []
            stats = ref.new_stats(st)
            scale = 1. if ep['scale'] is None else ep['scale']
            for j, (job, utts) in enumerate(zip(jobs, ep['jobs'])):
                check(job.proc.ok, 'job-never-succeeds', lambda: job.proc.error)
                outs.append(plan['out'] % (e, j))
                here = [u for u in utts if u in fea]
                logs = ' '.join(m for lev, m in job.proc.logs
                                if lev in ('WARNING', 'ERROR', 'CRITICAL'))
                for u in utts:
                    if u not in fea:
                        ctx.nontrivial = True
                        ctx.probe('unavailable utterance')
                        check(u in logs, 'missing-utterance-not-reported',
                              f'{u}: {logs}')
                check(T.count_of(job.proc) in (None, len(here)), 'utterance-count',
                      lambda: f'{job.proc.logs[-1:]} for {here}')
                for u in here:
                    g = None
                    if ep['ali'] and u in ep['ali']:
                        g = T.ref_aligraph(scn, ep['ali'][u], model.start_pdf)
                    elif ep['ali']:
                        ctx.probe('utterance without alignment')
                    ref.add_utterance(st, stats, np.float32(fea[u]), size,
                                      scale, g)
            # A duplicate that succeeded may stand for its original.
            for d in dups:
                j = int(d.name.rsplit('.', 1)[1])
                if d.ok and core.rng_for(plan['seed'], d.name).random() < .5:
                    outs[j] = plan['out'] % (e, j) + '.dup'
                    ctx.probe('duplicate listed')
            core.rng_for(plan['seed'], 'order', e).shuffle(outs)
            upd = Job(lab, ctx, f'upd{e}', lab.upd_argv(
                f'{e}.mdl', f'{e + 1}.mdl', ep['lr']),
                ''.join(lab(o) + '\n' for o in outs))
            sim.run()
            check(upd.proc.ok, 'job-never-succeeds', lambda: upd.proc.error)
            want = stats['value'] / (stats['nutts'] * size)
            got = T.objective(upd.proc)
            if got is not None:
                check(abs(got - want) <= 2e-3 + 1e-3 * abs(want),
                      'objective-value', f'reported {got}, expected {want:.4f}')
            model = L.load(lab(f'{e + 1}.mdl'))
            with expect('updated model'):
                real = ref.extract(model, scn['weights'])
            pred = ref.m_step(st, stats, size, ep['lr'], real.order)
            ref.compare(pred, real, T.TOL, 'not-exactly-once')
            st = real
        ctx.note(plan['faults'])
        ctx.absorb(sim)
