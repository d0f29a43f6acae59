"""C14: parallel decoding gives what each utterance alone gives."""
import io
import os

import numpy as np

from .. import core, cli, lab as L, ref, train as T
from ..engine import check, expect

ID = 'C14'
BLOCK = 8
QUICK, THOROUGH = (1560, 240), (16000, 800)
RULE = ('A run decodes and computes posteriors of a generated data set with a '
        'trained phone loop by 1-5 concurrent jobs per campaign, over random '
        'splits and orders of lists with repeated and unavailable utterances, '
        'with and without alignment graphs, under kills, I/O errors, short '
        'transfers and stalls with reruns. Non-trivial: a job processed two '
        'utterances, two jobs overlapped or a fault fired; distinct by '
        'interleaving and options.')
REAL = ['beer hmm decode, hmm posteriors, models and graphs',
        'numpy/pickle/zipfile I/O on scratch files']
STUB = ['process scheduling and death, file system faults, RNG state '
        '(simulator)']
ASSUMPTIONS = ['an utterance is at least as long as the shortest path of its '
               'graph', 'float32 tolerances: 1e-4 for scores and posteriors '
               'against the float64 reference, equality against the utterance '
               'alone']
HARD = ['kill', 'kill', 'eio_read', 'eio_open', 'enospc', 'eio_write',
        'close_err', 'nomem']
SOFT = ['stall', 'short_read', 'short_write']


def gen_campaign(rng, utts, ali):
    cmd = rng.choice(['decode', 'decode', 'post'])
    c = {'cmd': cmd, 'scale': rng.choice([None, None, 1., .5, .1, 2.])}
    if cmd == 'decode':
        c['frame'] = rng.random() < .6
        c['ali'] = bool(ali) and rng.random() < .5
    else:
        c['state'] = rng.random() < .5
        c['log'] = rng.random() < .4
    todo = list(utts)
    if rng.random() < .3:
        todo += [rng.choice(['ghost', 'utt0', 'zz']) + str(rng.randrange(9)) + 'x'
                 for _ in range(rng.choice([1, 2]))]
    if rng.random() < .3:
        todo += [rng.choice(todo) for _ in range(rng.choice([1, 3]))]
    jobs = [j for j in T.split(rng, todo, rng.choice([1, 1, 2, 3, 5])) if j]
    how = rng.choice(['-', '-', 'file'])
    if len(jobs) == 1 and rng.random() < .4 and set(jobs[0]) == set(utts):
        how = 'all'
    c.update(jobs=jobs, how=how)
    return c


def generate(rng, index, tier):
    srng = core.rng_for(rng.base, 'c14-block', index // BLOCK)
    scn = T.gen_train(srng, large=srng.random() < .1)
    ali = T.gen_ali(srng, scn)
    utts = [u for u, _ in scn['utts']]
    camps = [gen_campaign(rng, utts, ali) for _ in range(rng.choice([1, 1, 2]))]
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        c = rng.randrange(len(camps))
        j = rng.randrange(len(camps[c]['jobs']))
        faults.append({'proc': f'c{c}.{j}.{rng.choice([0, 0, 0, 1])}',
                       'kind': rng.choice(HARD + 2 * SOFT),
                       'pos': round(rng.random() * 1.02, 3),
                       'frac': round(rng.random(), 2), 'delay': 3600.})
    return {'scn': scn, 'ali': ali, 'base': srng.getrandbits(40),
            'epochs': srng.choice([0, 1, 2]), 'camps': camps, 'faults': faults,
            'stale': rng.random() < .2, 'sched': T.gen_sched(rng)}


def shrink(plan):
    for s in L.shrink_scenario(plan['scn']):
        keep = {u for u, _ in s['utts']}
        units = {u for u, _ in s['units']}
        need = max(g['nstates'] for g in s['groups'])
        ali = {u: q for u, q in plan['ali'].items()
               if u in keep and all(x in units for x in q)}
        if all(n >= need for _, n in s['utts']) and \
                bool(ali) == bool(plan['ali']) and \
                all(x in keep or x.endswith('x') for c in plan['camps']
                    for j in c['jobs'] for x in j):
            yield dict(plan, scn=s, ali=ali)
    if len(plan['camps']) > 1:
        yield dict(plan, camps=plan['camps'][:-1], faults=[
            f for f in plan['faults']
            if not f['proc'].startswith(f'c{len(plan["camps"]) - 1}.')])
    for c, camp in enumerate(plan['camps']):
        for j, job in enumerate(camp['jobs']):
            for k in range(len(job)):
                if len(job) > 1:
                    q = [dict(x, jobs=[list(y) for y in x['jobs']])
                         for x in plan['camps']]
                    del q[c]['jobs'][j][k]
                    if q[c]['how'] == 'all':
                        q[c]['how'] = '-'
                    yield dict(plan, camps=q)
    if plan['epochs']:
        yield dict(plan, epochs=plan['epochs'] - 1)
    if plan['stale']:
        yield dict(plan, stale=False)


_base = {}


def baseline(plan, ctx):
    'Files of the trained model, shared by the runs of a block.'
    key = repr((plan['scn'], plan['ali'], plan['base'], plan['epochs']))
    if key not in _base:
        with core.Scratch() as root, core.Sim(plan['base'], root) as sim:
            lab = L.Lab(sim, root, plan['scn'])
            lab.dataset()
            lab.model()
            if plan['ali']:
                lab.alignments(plan['ali'])
            for e in range(plan['epochs']):
                lab.beer(f'acc{e}', lab.acc_argv(f'{e}.mdl', f'e{e}'),
                         L.stdin_utts([u for u, _ in plan['scn']['utts']]))
                lab.beer(f'upd{e}', lab.upd_argv(f'{e}.mdl', f'{e + 1}.mdl'),
                         lab(f'e{e}') + '\n')
            files = L.snapshot(root)
            keep = {f'{plan["epochs"]}.mdl': 'm.mdl', 'ds.pkl': 'ds.pkl',
                    'fea.npz': 'fea.npz', 'ali.npz': 'ali.npz'}
            model = L.load(lab(f'{plan["epochs"]}.mdl'))
            with expect('trained model'):
                st = ref.extract(model, plan['scn']['weights'])
            pdfs = {k: int(v) for k, v in model.start_pdf.items()}
            ends = {k: int(v) for k, v in model.end_pdf.items()}
            _base.clear()
            _base[key] = (root, {new: files[old] for old, new in keep.items()
                                 if old in files}, st, pdfs, ends)
    return _base[key]


def argv_of(camp, lab, how, out):
    argv = ['hmm', 'decode' if camp['cmd'] == 'decode' else 'posteriors']
    if camp['scale'] is not None:
        argv += ['-s', str(camp['scale'])]
    if camp['cmd'] == 'decode':
        if camp['frame']:
            argv += ['--per-frame']
        if camp['ali']:
            argv += ['-a', lab('ali.npz')]
    else:
        argv += ['-S'] if camp['state'] else []
        argv += ['-l'] if camp['log'] else []
    if how != 'all':
        argv += ['-u', how]
    argv += [lab('m.mdl'), lab('ds.pkl')]
    return argv + ([out] if camp['cmd'] == 'post' else [])


def install_files(lab, base, root):
    root0, files = base[:2]
    for f, d in files.items():
        L.write(lab(f), L.relocate(d, root0, root))


def occurrences(path, pdfs):
    'Unit occurrences of a sequence of pdfs.'
    first = {v: k for k, v in pdfs.items()}
    out = [first[path[0]]]
    for a, b in zip(path, path[1:]):
        if b != a and b in first:
            out.append(first[b])
    return out


def constrained(graph, llh, allowed):
    'Best score of the paths whose pdf at frame t is in allowed[t].'
    m = graph['map']

    def mask(t):
        return np.array([0. if p in allowed[t] else -np.inf for p in m])
    d = graph['init'] + llh[0] + mask(0)
    for t in range(1, len(llh)):
        d = (d[:, None] + graph['trans']).max(0) + llh[t] + mask(t)
    return (d + graph['final']).max()


def best_with_units(graph, llh, seq, st, pdfs, ends):
    '''Best score of the paths that go through exactly these unit occurrences:
    the search runs over (occurrence, graph state).'''
    m = graph['map']
    n = len(m)
    first = {v: k for k, v in pdfs.items()}
    unit = {}
    for u in pdfs:
        for p in range(pdfs[u], ends[u] + 1):
            unit[p] = u
    names = [unit[int(p)] for p in m]
    K = len(seq)
    d = np.full((K, n), -np.inf)
    for s in range(n):
        if names[s] == seq[0] and m[s] == pdfs[seq[0]]:
            d[0, s] = graph['init'][s] + llh[0, s]
    tr = graph['trans']
    enter = np.array([int(p) in first for p in m])
    # A step into a unit's first state from any other state begins a new
    # occurrence; every other step stays within it.
    new = enter[None, :] & (m[:, None] != m[None, :])
    stay = np.where(new, -np.inf, tr)
    go = np.where(new, tr, -np.inf)
    okunit = np.array([[0. if names[s] == q else -np.inf for s in range(n)]
                       for q in seq])
    for t in range(1, len(llh)):
        a = (d[:, :, None] + stay[None]).max(1)
        b = np.full((K, n), -np.inf)
        if K > 1:
            b[1:] = (d[:-1, :, None] + go[None]).max(1)
        d = np.maximum(a, b) + llh[t][None] + okunit
    return (d[-1] + graph['final']).max()


def run(plan, ctx):
    base = baseline(plan, ctx)
    st, pdfs, ends = base[2:]
    scn = plan['scn']
    fea = {u: np.float32(x).astype(float) for u, x in L.features(scn).items()}
    # Each utterance alone, in a process of its own.
    alone = []
    with core.Scratch() as root, core.Sim(plan['base'], root) as sim:
        lab = L.Lab(sim, root, scn)
        install_files(lab, base, root)
        for c, camp in enumerate(plan['camps']):
            got = {}
            for u in sorted({u for j in camp['jobs'] for u in j if u in fea}):
                out = lab(f'o{c}')
                os.makedirs(out, exist_ok=True)
                p = lab.beer(f'alone{c}.{u}', argv_of(camp, lab, '-', out), u + '\n')
                if camp['cmd'] == 'decode':
                    lines = p.stdout.splitlines()
                    check(len(lines) == 1 and lines[0].split()[:1] == [u],
                          'wrong-output', lambda: repr(p.stdout))
                    got[u] = lines[0].split()[1:]
                else:
                    got[u] = stored(f'{out}/{u}.npy')
                judge(camp, u, got[u], fea[u], st, pdfs, ends, scn, plan['ali'], ctx)
            alone.append(got)
        ctx.absorb(sim)
    with core.Scratch() as root, core.Sim(plan['seed'], root, plan['sched'],
                                          plan['faults']) as sim:
        lab = L.Lab(sim, root, scn, ctx)
        install_files(lab, base, root)
        files = {f: L.read_bytes(lab(f)) for f in base[1]}
        campaign(plan, ctx, sim, lab, fea, alone)
        for f, d in files.items():
            check(L.read_bytes(lab(f)) == d, 'input-changed', f)
        ctx.absorb(sim)
        ctx.note([{k: v for k, v in c.items() if k != 'jobs'} for c in plan['camps']])


def stored(path):
    check(os.path.exists(path), 'missing-posteriors', os.path.basename(path))
    with expect('posteriors'):
        return np.load(io.BytesIO(L.read_bytes(path)))


def judge(camp, u, got, x, st, pdfs, ends, scn, ali, ctx):
    'The result of an utterance alone against the reference.'
    scale = 1. if camp['scale'] is None else camp['scale']
    graph = st.graph
    if camp.get('ali') and u in ali:
        graph = T.ref_aligraph(scn, ali[u], pdfs)
        ctx.probe('decoded with alignment')
    llh = scale * ref.pdf_llhs(st, x)[0][:, graph['map']]
    if camp['cmd'] == 'decode':
        best = ref.best_path(graph, llh)[0]
        tol = 1e-3 + 1e-4 * np.abs(llh).max(1).sum()
        check(all(s in pdfs for s in got), 'unknown-unit', lambda: f'{u}: {got}')
        if camp['frame']:
            check(len(got) == len(x), 'labels-per-frame', lambda:
                  f'{u}: {len(got)} labels for {len(x)} frames')
            allowed = [set(range(pdfs[s], ends[s] + 1)) for s in got]
            score = constrained(graph, llh, allowed)
        else:
            check(0 < len(got) <= len(x), 'labels-per-unit', lambda: f'{u}: {got}')
            score = best_with_units(graph, llh, got, st, pdfs, ends)
            if camp['ali'] and u in ali:
                check(got == ali[u], 'not-the-alignment', lambda:
                      f'{u}: {got}, aligned to {ali[u]}')
        check(score >= best - tol, 'not-the-best-path', lambda:
              f'{u}: {got} has score {score}, the best path {best}')
        return
    gamma, _ = ref.forward_backward(graph, llh)
    want = gamma if camp['state'] else np.stack(
        [gamma[:, pdfs[s]:ends[s] + 1].sum(1) for s in pdfs], 1)
    check(got.shape == want.shape, 'wrong-posteriors', lambda:
          f'{u}: shape {got.shape}, expected {want.shape}')
    g = np.exp(got.astype(float)) - 1e-5 if camp['log'] else got.astype(float)
    check(g.min() >= -1e-6 and np.abs(g.sum(1) - 1).max() <= 1e-3,
          'not-a-distribution', lambda: f'{u}: minimum {g.min()}, sums {g.sum(1)}')
    tol = 5e-4 + 2e-6 * np.abs(llh).max(1).sum()
    check(np.abs(g - want).max() <= tol, 'wrong-posteriors', lambda:
          f'{u}: differ by {np.abs(g - want).max()} with {camp}')


def same(a, b):
    return a == b if isinstance(a, list) else \
        a.shape == b.shape and np.allclose(a, b, 1e-6, 1e-7)


def campaign(plan, ctx, sim, lab, fea, alone):
    todo = {}
    for c, camp in enumerate(plan['camps']):
        if camp['cmd'] == 'post':
            os.makedirs(lab(f'o{c}'))
            if plan['stale']:
                for u in alone[c]:
                    np.save(lab(f'o{c}/{u}.npy'), np.ones((70, 9)))
        for j in range(len(camp['jobs'])):
            todo[c, j] = None
    if len(todo) > 1 or any(len(j) > 1 for c in plan['camps'] for j in c['jobs']):
        ctx.nontrivial = True
    torn = set()
    for rnd in range(10):
        if not todo:
            break
        if rnd >= 3:
            sim.faults = []
        for c, j in todo:
            camp = plan['camps'][c]
            job = camp['jobs'][j]
            how, stdin = camp['how'], ''
            if how == '-':
                stdin = L.stdin_utts(job)
            elif how == 'file':
                how = lab(f'l{c}.{j}')
                L.write(how, L.stdin_utts(job))
            name = f'c{c}.{j}.{rnd}'
            sim.opcounts[name] = 14 + (8 if camp['cmd'] == 'post' else 4) * len(job)
            todo[c, j] = cli.spawn(sim, name, argv_of(camp, lab, how, lab(f'o{c}')),
                                   stdin, key=name)
        sim.run()
        again = {}
        for (c, j), p in todo.items():
            camp = plan['camps'][c]
            job = sorted(fea) if camp['how'] == 'all' else camp['jobs'][j]
            here = [u for u in job if u in fea]
            if p.fired:
                ctx.nontrivial = True
            if not p.ok:
                check(p.tainted, 'job-fails', lambda: f'{p.cmd}: {p.error}\n{p.tb}')
                again[c, j] = None
            # What was printed is right even if the job died later on.
            if camp['cmd'] == 'decode':
                lines = p.stdout.split('\n')
                check(lines[-1] == '' or not p.ok, 'wrong-output', repr(p.stdout))
                lines = [l.split() for l in lines[:-1]]
                if p.ok:
                    check([l[0] for l in lines] == here, 'wrong-utterances',
                          lambda: f'{[l[0] for l in lines]} printed for {job}')
                else:
                    check([l[0] for l in lines] == here[:len(lines)],
                          'wrong-utterances', lambda: f'{lines} for {job}')
                for l in lines:
                    check(l[1:] == alone[c][l[0]], 'differs-from-alone', lambda:
                          f'{l[0]} in the list {job}: {l[1:]}, alone '
                          f'{alone[c][l[0]]}')
                    ctx.probe('decodings compared')
            logs = ' '.join(m for lev, m in p.logs
                            if lev in ('WARNING', 'ERROR', 'CRITICAL'))
            for u in job:
                if u not in fea and p.ok:
                    check(u in logs, 'missing-utterance-not-reported', f'{u}: {logs}')
                    ctx.probe('unavailable utterance')
        # Posterior files, once every job of the round has ended.
        writers = {}
        for (c, j), p in todo.items():
            camp = plan['camps'][c]
            if camp['cmd'] == 'post':
                for u in (sorted(fea) if camp['how'] == 'all' else camp['jobs'][j]):
                    writers.setdefault((c, u), []).append(p)
        for (c, u), ps in writers.items():
            path = lab(f'o{c}/{u}.npy')
            if u not in fea:
                check(not os.path.exists(path), 'posteriors-of-nothing', u)
                continue
            if any(not p.ok for p in ps):
                torn.add((c, u))
            else:
                torn.discard((c, u))
            if (c, u) not in torn:
                got = stored(path)
                check(same(got, alone[c][u]), 'differs-from-alone', lambda:
                      f'posteriors of {u}, {camp}: {got.shape}, alone '
                      f'{alone[c][u].shape}')
                ctx.probe('posteriors compared')
        for c, camp in enumerate(plan['camps']):
            if camp['cmd'] == 'post':
                extra = set(os.listdir(lab(f'o{c}'))) - {f'{u}.npy' for u in fea}
                check(not extra, 'extra-output', str(extra))
        todo = again
    check(not todo, 'no-progress', f'{sorted(todo)}')
