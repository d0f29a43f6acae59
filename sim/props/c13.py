"""C13: archives and data sets hold every utterance once."""
import io
import os
import pickle
import random
import zipfile

import numpy as np
import torch

from .. import core, cli, lab as L
from ..engine import check, expect, Violation

ID = 'C13'
QUICK, THOROUGH = (3200, 240), (50000, 800)
RULE = ('A run builds the archive and the data set of a directory with 1-9 '
        'feature files (any names, sizes, value types, other files around them; '
        'listed in a random order), under I/O faults and kills with reruns, in '
        '1-3 generations of the directory, and reads each data set with 1-3 '
        'concurrent processes performing random histories of sequential, '
        'random, interleaved, partial and keyed accesses, changes of what was '
        'returned and reloads, under I/O errors and short transfers. '
        'Non-trivial: two utterances at least and two readers, two generations '
        'or a fault; distinct by interleaving and histories.')
REAL = ['beer features archive, beer dataset create, beer.cli.dataset.Dataset',
        'zipfile, numpy and pickle I/O on scratch files']
STUB = ['directory order, file system errors and latency, RNG state, process '
        'scheduling (simulator)']
ASSUMPTIONS = ['the archive does not change while it is read',
               'identifiers do not end in .npy']
SCHEDS = ['fifo', 'uniform', 'uniform', 'pct', 'lifo']
HARD = ['kill', 'eio_read', 'eio_open', 'enospc', 'eio_write', 'close_err', 'nomem']
SOFT = ['stall', 'short_read', 'short_write']
NAMES = ['u%d', 'u%d', 'u%d', 'utt-%02d', '%d', 'spk.%d', 'U_%d', 'a.npy.b%d',
         'npy%d', 'x%d.fea', 'u%dnpy', 'é%d', 'a b%d', 'u%d_u', '_%d', '[%d]', '%d*']
DIRS = ['fea', 'fea', 'fea', 'fe[1]a', 'f.npy', 'a b', 'f*']


def gen_files(rng, dim, n, start=0, style=None):
    out = []
    for i in range(start, start + n):
        out.append({'id': (style or rng.choice(NAMES)) % i,
                    'n': rng.choice([1, 2, 3, 5, 10, 30, 100, 400] + [3000] * (rng.random() < .05)),
                    'seed': rng.getrandbits(30),
                    'dt': rng.choice(['<f4', '<f4', '<f8', '<f8']),
                    'loc': rng.choice([0., 0., 1., -20.]),
                    'scale': rng.choice([1., 1., .1, 5., 0.]),
                    'fortran': rng.random() < .2})
    if out and rng.random() < .15:        # identifiers that differ by case only
        f = rng.choice(out)
        if f['id'].upper() not in [x['id'] for x in out]:
            out.append(dict(f, id=f['id'].upper(), seed=f['seed'] + 1))
    return out


def gen_ops(rng, n):
    ops = []
    for _ in range(n):
        k = rng.choice(['seq', 'seq', 'rand', 'rand', 'get', 'get', 'get', 'bad',
                        'len', 'reload', 'inter', 'part', 'mutate', 'stats'])
        op = [k]
        if k in ('get', 'mutate'):
            op.append(rng.randrange(1000))
        elif k == 'bad':
            op.append(rng.choice(['nope', '', 'u', 'features', 'u1x', 'feapath']))
        elif k == 'part':
            op += [rng.random() < .5, rng.randrange(5)]
        elif k == 'inter':
            op += [rng.random() < .5, rng.random() < .5, rng.getrandbits(20)]
        ops.append(op)
    return ops


def generate(rng, index, tier):
    dim = rng.choice([1, 2, 3, 13])
    style = rng.choice(NAMES) if rng.random() < .4 else None
    n = rng.choice([1, 2, 3, 4, 6, 9] if rng.random() < .95 else [15, 40])
    gens = [gen_files(rng, dim, n, 0, style)]
    for g in range(rng.choice([0, 0, 1, 2])):
        keep = [dict(f) for f in gens[-1] if rng.random() < .6]
        for f in keep:
            if rng.random() < .4:
                f['seed'] = rng.getrandbits(30)
                f['n'] = rng.choice([f['n'], 7])
        new = gen_files(rng, dim, rng.choice([0, 1, 2]), 20 * (g + 1), style)
        gens.append(keep + new or gen_files(rng, dim, 1, 20 * (g + 1), style))
    readers = []
    for g in range(len(gens)):
        readers.append([gen_ops(rng, rng.choice([1, 2, 4, 8]))
                        for _ in range(rng.choice([1, 1, 2, 3]))])
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        g = rng.randrange(len(gens))
        who = rng.choice(['arc', 'arc', 'ds', 'rd', 'rd'])
        name = f'{who}{g}' + (f'.{rng.randrange(len(readers[g]))}' if who == 'rd'
                              else f'.{rng.choice([0, 0, 1])}')
        kinds = HARD + 2 * SOFT if who != 'rd' else \
            ['eio_read', 'eio_open', 'nomem', 'short_read', 'short_read', 'stall']
        faults.append({'proc': name, 'kind': rng.choice(kinds),
                       'pos': round(rng.random() * 1.02, 3),
                       'frac': round(rng.random(), 2), 'delay': 3600.})
    return {'dim': dim, 'gens': gens, 'readers': readers, 'faults': faults,
            'ext': rng.choice(['npy', 'npy', 'npy', 'fea', 'npy.x']),
            'dir': rng.choice(DIRS),
            'decoys': rng.random() < .4, 'relative': rng.random() < .3,
            'stale': rng.random() < .2,
            'sched': {'mode': rng.choice(SCHEDS), 'change': .2}}


def shrink(plan):
    for g in range(len(plan['gens']) - 1, 0, -1):
        if not any(f['proc'].split('.')[0][-1] == str(g) for f in plan['faults']) \
                and g == len(plan['gens']) - 1:
            yield dict(plan, gens=plan['gens'][:g], readers=plan['readers'][:g])
    for g, files in enumerate(plan['gens']):
        for i in range(len(files)):
            if len(files) > 1:
                q = [list(x) for x in plan['gens']]
                del q[g][i]
                yield dict(plan, gens=q)
    for g, rs in enumerate(plan['readers']):
        for r, ops in enumerate(rs):
            for i in range(len(ops)):
                q = [[list(x) for x in y] for y in plan['readers']]
                del q[g][r][i]
                yield dict(plan, readers=q)
    for k, v in (('decoys', False), ('relative', False), ('stale', False),
                 ('dir', 'fea'), ('ext', 'npy')):
        if plan[k] != v:
            yield dict(plan, **{k: v})


def array(f, dim):
    r = np.random.RandomState(f['seed'])
    x = (r.randn(f['n'], dim) * f['scale'] + f['loc']).astype(f['dt'])
    return np.asfortranarray(x) if f['fortran'] else x


def same(got, want, what):
    check(isinstance(got, torch.Tensor) and got.dtype == torch.float32,
          'wrong-features', lambda: f'{what}: {type(got)}')
    w = want.astype('<f4')
    check(tuple(got.shape) == w.shape and np.array_equal(got.numpy(), w),
          'wrong-features', lambda: f'{what}: shape {tuple(got.shape)}, expected '
          f'{w.shape}')


def reader(path, ops, want, mean, var, size, hurt):
    '''One process using the data set.  hurt() says whether a fault hit it; an
    access that failed for that reason is repeated.'''
    ids = sorted(want)
    log = []

    def attempt(fn):
        for k in range(6):
            try:
                return fn()
            except Violation:
                raise
            except core.SimKilled:
                raise
            except BaseException as e:
                check(hurt() and k < 5, 'read-fails', lambda:
                      f'{type(e).__name__}: {e}, after {log}')
                # Callers take a KeyError for an utterance without features.
                check(not isinstance(e, KeyError), 'failure-as-unknown', lambda:
                      f'a failed read gives {type(e).__name__}: {e}, after {log}')
                log.append('failed')

    def load():
        with open(path, 'rb') as f:
            return pickle.load(f)
    box = [attempt(load)]

    def pull(it, order):
        u = next(it)
        order.append(u.id)
        check(u.id in want, 'unknown-utterance', lambda: f'{u.id!r}')
        same(u.features, want[u.id], f'{u.id} while iterating')

    def start(rand):
        ds = box[0]
        return attempt(lambda: iter(ds.utterances(random_order=rand)))

    def judge(order, rand, what):
        if rand:
            check(sorted(order) == ids, 'not-a-permutation', lambda:
                  f'{what}: {order} of {ids}')
        else:
            check(order == ids, 'not-sorted', lambda: f'{what}: {order} of {ids}')

    for op in ops:
        ds = box[0]
        k = op[0]
        log.append(k)
        if k in ('seq', 'rand'):
            it = start(k == 'rand')
            order = []
            # StopIteration must not be taken for a failure.
            while True:
                done = []

                def step():
                    try:
                        pull(it, order)
                    except StopIteration:
                        done.append(1)
                attempt(step)
                if done:
                    break
                check(len(order) <= len(ids), 'not-a-permutation', str(order))
            judge(order, k == 'rand', f'after {log}')
        elif k == 'part':
            it = start(op[1])
            order = []
            for _ in range(min(op[2], len(ids))):
                attempt(lambda: pull(it, order))
            check(len(set(order)) == len(order), 'not-a-permutation', str(order))
            if not op[1]:
                check(order == ids[:len(order)], 'not-sorted', str(order))
        elif k == 'inter':
            its = [None, None]       # the second may start in mid course
            orders = [[], []]
            r = random.Random(op[3])
            left = [len(ids)] * 2
            while any(left):
                w = r.choice([i for i in (0, 1) if left[i]])
                if its[w] is None:
                    its[w] = start(op[1 + w])
                attempt(lambda: pull(its[w], orders[w]))
                left[w] -= 1
            judge(orders[0], op[1], 'interleaved')
            judge(orders[1], op[2], 'interleaved')
        elif k in ('get', 'mutate'):
            uid = ids[op[1] % len(ids)]
            u = attempt(lambda: ds[uid])
            check(u.id == uid, 'wrong-features', lambda: f'{u.id!r} for {uid!r}')
            same(u.features, want[uid], f'{uid} by identifier, after {log}')
            if k == 'mutate':
                u.features.mul_(-3.).add_(1.)
        elif k == 'bad':
            if op[1] in want:
                continue

            def unknown():
                try:
                    u = ds[op[1]]
                except KeyError:
                    return
                check(False, 'unknown-identifier-accepted', lambda:
                      f'{op[1]!r} gives {u.id!r}')
            attempt(unknown)
        elif k == 'len':
            n = attempt(lambda: len(ds))
            check(n == len(ids), 'wrong-length', f'{n} of {len(ids)}')
        elif k == 'stats':
            stats(ds, mean, var, size)
        elif k == 'reload':
            box[0] = attempt(lambda: pickle.loads(pickle.dumps(ds)))
            if op[-1] == 'reload' and len(log) % 2:
                stats(ds, mean, var, size)
    stats(box[0], mean, var, size)
    return log


def stats(ds, mean, var, size):
    check(ds.size == size, 'wrong-size', lambda: f'{ds.size} of {size} frames')
    for name, got, (w, tol) in (('mean', ds.mean, mean), ('var', ds.var, var)):
        g = np.asarray(got, dtype=float)
        check(g.shape == w.shape and np.all(np.abs(g - w) <= tol),
              'wrong-statistics', lambda: f'{name} {g}, expected {w}')


def run(plan, ctx):
    cwd = os.getcwd()
    with core.Scratch() as root, core.Sim(plan['seed'], root, plan['sched'],
                                          plan['faults'],
                                          opcounts={'arc': 40, 'ds': 60}) as sim:
        try:
            body(plan, ctx, sim, root)
        finally:
            os.chdir(cwd)
        ctx.absorb(sim)
        ctx.note(plan['ext'], plan['dir'], [[f['id'] for f in g] for g in plan['gens']],
                 plan['readers'])
        if len(plan['gens'][0]) > 1 and (len(plan['gens']) > 1 or any(
                len(r) > 1 for r in plan['readers']) or sim.fault_fired):
            ctx.nontrivial = True


def until(sim, name, argv, what):
    'Run a command, again if a fault hit it, until it succeeds.'
    for k in range(8):
        if k >= 3:
            sim.faults = []
        p = cli.beer(sim, f'{name}.{k}', argv, key=name[:-1])
        if p.ok:
            return p
        check(p.tainted, f'{what}-fails', lambda: f'{argv}: {p.error}\n{p.tb}')
    check(False, 'no-progress', f'{argv}')


def body(plan, ctx, sim, root):
    ext = plan['ext']
    fea = os.path.join(root, plan['dir'])
    os.makedirs(fea)
    arc, out = f'{root}/fea.npz', f'{root}/ds.pkl'
    if plan['stale']:
        L.write(arc, L.npz_bytes({f's{i}': np.zeros((50, 3)) for i in range(9)}))
        L.write(out, b'garbage' * 300)
    here = set()
    for g, files in enumerate(plan['gens']):
        blobs, want = {}, {}
        for f in files:
            x = array(f, plan['dim'])
            buf = io.BytesIO()
            np.save(buf, x)
            blobs[f['id']] = buf.getvalue()
            want[f['id']] = x
        for name in here - set(blobs):
            core._orig['remove'](f'{fea}/{name}.{ext}')
        for name, b in blobs.items():
            L.write(f'{fea}/{name}.{ext}', b)
        here = set(blobs)
        if plan['decoys']:
            L.write(f'{fea}/README.txt', 'not features')
            L.write(f'{fea}/u1.{ext}.bak', 'not features')
            L.write(f'{fea}/u1.{ext}~', 'not features')
            os.makedirs(f'{fea}/sub', exist_ok=True)
            L.write(f'{fea}/sub/v.{ext}', 'not features')
        argv = ['features', 'archive']
        if ext != 'npy':
            argv += ['-e', ext]
        until(sim, f'arc{g}', argv + [fea, arc], 'archive')
        with expect('archive'):
            with zipfile.ZipFile(io.BytesIO(L.read_bytes(arc))) as z:
                names = z.namelist()
                stored = {n: z.read(n) for n in names}
        check(sorted(names) == sorted(blobs), 'wrong-archive', lambda:
              f'{sorted(names)} instead of {sorted(blobs)}')
        for n, b in blobs.items():
            check(stored[n] == b, 'wrong-content', f'{n} in the archive')
        before = L.read_bytes(arc)
        src = arc
        if plan['relative']:
            os.chdir(root)
            src = 'fea.npz'
        until(sim, f'ds{g}', ['dataset', 'create', root, src, out], 'dataset')
        if plan['relative']:
            os.chdir('/')
        allx = np.concatenate([x.astype(float) for x in want.values()])
        m = allx.mean(0)
        sq = (allx ** 2).mean(0)
        # Single precision sums over the frames of one utterance.
        tol = 2e-7 + max([2e-6 * (1 + f['n'] / 300) for f in files
                          if f['dt'][1:] == 'f4'] + [0.])
        mean = (m, 1e-9 + tol * np.abs(allx).mean(0))
        var = (((allx - m) ** 2).mean(0), 1e-9 + tol * sq)
        procs = []
        for r, ops in enumerate(plan['readers'][g]):
            name = f'rd{g}.{r}'
            sim.opcounts[name] = 8 + 6 * sum(
                1 if o[0] in ('get', 'bad', 'mutate', 'len') else
                len(files) if o[0] != 'inter' else 2 * len(files) for o in ops)
            holder = []

            def fn(ops=ops, holder=holder, want=want, mean=mean, var=var,
                   size=len(allx)):
                return reader(out, ops, want, mean, var, size,
                              lambda: bool(holder[0].fired))
            p = sim.spawn(name, fn)
            holder.append(p)
            procs.append(p)
        sim.run()
        for p in procs:
            if isinstance(p.exc, Violation):
                raise p.exc
            check(p.ok, 'reader-fails', lambda: f'{p.error}\n{p.tb}')
        check(L.read_bytes(arc) == before, 'archive-changed',
              'reading changed the archive')
        ctx.probe('reader operations', sum(len(o) for o in plan['readers'][g]))
