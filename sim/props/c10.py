"""C10: seeded commands are reproducible whatever surrounds them."""
import io
import os
import random

import numpy as np
import torch

from .. import core, cli, companion, lab as L, train as T
from ..engine import check, expect

ID = 'C10'
QUICK, THOROUGH = (280, 200), (5000, 850)
RULE = ('A run executes a program of commands (features, data set, units, '
        'graphs, training in both forms, decoding, posteriors, subspace '
        'models; those that draw random numbers with the seed option) in a '
        'quiet world and again in a disturbed one: other initial random '
        'states, other directory orders, another hash seed (another '
        'interpreter), another clock, other commands interleaved (including '
        'the same command with another seed), outputs of earlier runs lying '
        'at the output paths. All outputs and printed results must agree; '
        'random initialisations with other seeds must differ. Non-trivial: '
        'always (the second world is always disturbed); distinct by program, '
        'scenario, seeds and disturbances.')
REAL = ['the beer commands', 'RNGs of torch, numpy and python', 'string '
        'hashing (separate interpreters)', 'file I/O on scratch files']
STUB = ['process scheduling, directory order, clock, uuid4, initial RNG states, '
        'order of observers (simulator)']
ASSUMPTIONS = ['floating point tolerance 1e-4: the order in which statistics '
               'are summed is not fixed by the seed']
TOL = 1e-4
HASHSEEDS = (101, 202)


def generate(rng, index, tier):
    scn = L.gen_scenario(rng, minlen=6, maxlen=9,
                         nutts=rng.randint(2, 5) if rng.random() < .95 else 12)
    if rng.random() < .5:
        scn['groups'][0]['noise'] = 1.
    return {
        'scn': scn, 'tail': rng.choice(['train', 'train', 'apply', 'shmm', 'hshmm']),
        'seeds': [rng.choice([0, 1, 7, rng.randint(0, 2 ** 31 - 1)])
                  for _ in range(8)],
        'batch': rng.choice([1, 1, 2]), 'epochs': rng.randint(1, 2),
        'latdim': rng.choice([1, 2]), 'sgd': rng.random() < .3,
        'hash': rng.choice([None, None] + list(HASHSEEDS)),
        'stale': rng.random() < .5, 'decoys': [rng.random() < .5 for _ in range(20)],
        'clock': rng.choice([0., 1e6, 12345.]), 'debug': rng.random() < .3,
        'seed2': rng.getrandbits(40), 'faults': [],
        'sched': {'mode': rng.choice(['random', 'random', 'pct']), 'depth': 3}
        if rng.random() < .8 else {'mode': 'fifo'}}


def shrink(plan):
    if plan['hash']:
        yield dict(plan, hash=None)
    if plan['stale']:
        yield dict(plan, stale=False)
    for i, d in enumerate(plan['decoys']):
        if d:
            yield dict(plan, decoys=plan['decoys'][:i] + [False]
                       + plan['decoys'][i + 1:])
    if plan['clock']:
        yield dict(plan, clock=0.)
    for t in ('apply', 'train'):
        if plan['tail'] != t:
            yield dict(plan, tail=t)
    for s in L.shrink_scenario(plan['scn']):
        if len(s['utts']) > 1 and all(n >= 6 for _, n in s['utts']):
            yield dict(plan, scn=s)


class Out(str):
    'An output path in the arguments of a step.'


def program(plan):
    '''[(name, arguments, stdin, outputs, seed or None)]; arguments starting
    with "@" are paths, with "!" output paths.'''
    scn, seeds = plan['scn'], plan['seeds']
    utts = [u for u, _ in scn['utts']]
    se = ['-s', scn['startend']] if scn['startend'] else []
    steps = [
        ('archive', ['features', 'archive', '@fea', '!fea.npz'], '', None),
        ('dataset', ['dataset', 'create', '@.', '@fea.npz', '!ds.pkl'], '', None),
        ('mkphones', ['hmm', 'mkphones', '-d', '@ds.pkl', '@conf.yml', '@units',
                      '!hmms'], '', seeds[0]),
        ('mkgraph', ['hmm', 'mkphoneloopgraph'] + se + ['@units', '!graph'], '', None),
        ('mkdecode', ['hmm', 'mkdecodegraph', '@graph', '@hmms', '!dgraph'], '', None),
        ('mkploop', ['hmm', 'mkphoneloop', '--weights-prior', scn['weights'],
                     '@dgraph', '@hmms', '!0.mdl'], '', None),
    ]
    if plan['tail'] in ('train', 'apply'):
        steps += [
            ('train', ['hmm', 'train', '-b', plan['batch'], '-e', plan['epochs'],
                       '-l', .5, '@0.mdl', '@ds.pkl', '!1.mdl'], '', seeds[1]),
            ('accumulate', ['hmm', 'accumulate', '@1.mdl', '@ds.pkl', '!st'],
             L.stdin_utts(utts), None),
            ('update', ['hmm', 'update', '-o', '!opt', '@1.mdl', '!2.mdl'],
             '@st\n', None),
        ]
    if plan['tail'] == 'apply':
        steps += [
            ('decode', ['hmm', 'decode', '@2.mdl', '@ds.pkl'], '', None),
            ('posteriors', ['hmm', 'posteriors', '@2.mdl', '@ds.pkl', '!dir.post'],
             '', None),
            ('phonelist', ['hmm', 'phonelist', '@hmms'], '', None),
            ('mkali', ['hmm', 'mkaligraph', '@hmms', '!dir.ali'],
             ''.join(f'{u} {" ".join(x for x, _ in scn["units"][:2])}\n'
                     for u in utts), None),
            ('aliarchive', ['features', 'archive', '@dir.ali', '!ali.npz'], '', None),
        ]
    grp = scn['groups'][-1]['name']
    if plan['tail'] == 'shmm':
        steps += [
            ('mksp', ['shmm', 'mksphoneloop', '-g', grp, '-l', plan['latdim'],
                      '@conf.yml', '@0.mdl', '!g0', '!p0', '!s0'], '', seeds[2]),
            ('sacc', ['hmm', 'accumulate', '@s0', '@ds.pkl', '!st'],
             L.stdin_utts(utts), None),
            ('supd', ['hmm', 'update', '@s0', '!s0b'], '@st\n', None),
            ('strain', ['shmm', 'train', '-e', 3, '-n', 2, '-k', 2, '-s', .05,
                        '-o', '!sopt', '@g0', '@p0', '@s0b', '!g1', '!p1', '!s1'],
             '', seeds[3]),
            ('setprior', ['shmm', 'setprior', '-v', .5, '@g0', '@p0', '@s0', '@g1',
                          '@p1', '!g2', '!p2', '!s2'], '', seeds[4]),
            ('init', ['shmm', 'init', '@g2', '@p2', '@s2', '!s3'], '', seeds[5]),
        ]
    if plan['tail'] == 'hshmm':
        steps += [
            ('mkhsp', ['hshmm', 'mksphoneloop', '-g', grp, '-l', 2, '-t',
                       plan['latdim'], '@conf.yml', '@map', '!g0', '!p0', '!s0'],
             '', seeds[2]),
            ('hstrain', ['hshmm', 'train', '-e', 2, '-n', 2, '-s', .01, '-o',
                         '!hopt', '--clip-grad', 1.] + (['--sgd'] if plan['sgd'] else [])
             + ['@g0', '@p0', '@smap', '!g1', '!p1', '!s1'], '', seeds[3]),
            ('hsinit', ['hshmm', 'init', '--init-from', 'l1', 'l2', '@g0', '@g1',
                        '@p0', '@s0', '!s3', '!g3'], '', seeds[4]),
        ]
    return steps


def world(plan, disturbed):
    '''Execute the program; [(name, printed, {output: bytes})], the outputs of
    the differently seeded decoys, and what was covered.'''
    out, other = [], {}
    seed = plan['seed2'] if disturbed else plan['seed']
    rng = random.Random(seed)
    with core.Scratch() as root, \
            core.Sim(seed, root, plan['sched'] if disturbed else None) as sim:
        lab = L.Lab(sim, root, plan['scn'])
        lab.inputs()
        os.makedirs(lab('decoy'), exist_ok=True)
        for d in ('dir.post', 'dir.ali', 'decoy/dir.post', 'decoy/dir.ali'):
            os.makedirs(lab(d), exist_ok=True)
        L.write(lab('map'), ''.join(f'{lab("0.mdl")} {g}\n' for g in ('l1', 'l2')))
        L.write(lab('smap'), ''.join(f'{lab("s0")}_{g} {g}\n' for g in ('l1', 'l2')))
        if disturbed:
            sim.now = plan['clock']

        def argv(args, sd, decoy=False):
            res = ['-s', sd] if sd is not None else []
            if plan['debug']:
                res = ['-d'] + res
            for a in args:
                if isinstance(a, str) and a[0] == '@':
                    a = lab(a[1:])
                elif isinstance(a, str) and a[0] == '!':
                    a = lab('decoy/' + a[1:] if decoy else a[1:])
                res.append(a)
            return res

        steps = program(plan)
        for i, (name, args, stdin, sd) in enumerate(steps):
            outs = [a[1:] for a in args if isinstance(a, str) and a[0] == '!']
            stdin = stdin.replace('@', lab('')) if stdin.startswith('@') else stdin
            if disturbed and plan['stale']:
                for o in outs:
                    if o.startswith('dir.'):
                        for u, _ in plan['scn']['utts']:
                            L.write(lab(f'{o}/{u}.npy'), os.urandom(0) + b'stale' * 9000)
                    elif not o.endswith('opt'):
                        L.write(lab(o), b'stale' * 9000)
            procs = []
            main = cli.spawn(sim, name, argv(args, sd), stdin, env={
                'HOME': '/x' * rng.randint(1, 3), 'LANG': rng.choice(['C', 'fr']),
                'PATH': '/bin'} if disturbed else None)
            if disturbed and plan['decoys'][i % len(plan['decoys'])]:
                sd2 = None if sd is None else sd + 1
                procs.append(cli.spawn(sim, name + '.decoy', argv(args, sd2, True), stdin))
                if i:
                    n2, a2, in2, sd3 = steps[rng.randrange(i)]
                    in2 = in2.replace('@', lab('')) if in2.startswith('@') else in2
                    if not any(x.startswith('!dir') for x in map(str, a2)):
                        procs.append(cli.spawn(
                            sim, name + '.other', argv(
                                [x + '.x' if str(x).startswith('!') else x
                                 for x in a2], sd3, True), in2))
            sim.run()
            lab.must(main)
            files = {}
            for o in outs:
                if o.startswith('dir.'):
                    for f in sorted(core._orig['listdir'](lab(o))):
                        files[f'{o}/{f}'] = L.read_bytes(lab(f'{o}/{f}'))
                else:
                    with expect(f'output {o}'):
                        files[o] = L.read_bytes(lab(o))
                    if os.path.exists(lab(o + '_l1')):
                        files[o + '_l1'] = L.read_bytes(lab(o + '_l1'))
            for k in files:
                files[k] = L.relocate(files[k], root, 'R' * len(root))
            out.append((name, main.stdout, files))
            if procs and sd is not None and procs[0].ok:
                other[name] = {o: L.relocate(L.read_bytes(lab('decoy/' + o)), root,
                                             'R' * len(root))
                               for o in outs if not o.startswith('dir.')}
        cover = (sim.steps, sim.ioops, sim.switches, sim.now, dict(sim.commands),
                 dict(sim.probes), sim.interleaving(), sim.fingerprint())
    return out, other, cover


def load(name, data):
    import pickle
    if name.endswith('opt'):
        return torch.load(io.BytesIO(data))
    if name.endswith('.npy'):
        return np.load(io.BytesIO(data), allow_pickle=True)
    return pickle.loads(data)


def run(plan, ctx):
    a, _, cover_a = world(plan, False)
    if plan['hash']:
        b, other, cover_b = companion.ask(plan['hash'], ID, plan, True)
        ctx.probe('other hash seed')
    else:
        b, other, cover_b = world(plan, True)
    for steps, ops, switches, now, commands, probes, inter, trace in (cover_a, cover_b):
        ctx.sims += 1
        ctx.steps += steps
        ctx.ops += ops
        ctx.switches += switches
        ctx.simtime += now
        for k, v in commands.items():
            ctx.commands[k] = ctx.commands.get(k, 0) + v
        for k, v in probes.items():
            ctx.probe(k, v)
        ctx.hashes.append(inter)
        ctx.traces.append(trace)
    seen = {}, {}
    for (name, text, files), (_, text2, files2) in zip(a, b):
        check(text == text2, f'printed-differs:{name}', lambda: f'{text}\n{text2}')
        check(sorted(files) == sorted(files2), f'files-differ:{name}',
              f'{sorted(files)} vs {sorted(files2)}')
        seen[0].update(files)
        seen[1].update(files2)
        for f in files:
            if f.endswith('.npz'):
                L.same_npz(files[f], files2[f], f'output-differs:{name}', f,
                           pickled=True)
                continue
            if f == 'st':
                src = {'accumulate': '1.mdl', 'sacc': 's0'}[name]
                ma, mb = seen[0][src], seen[1][src]
                va = L.elbo_stats(files[f], load(src, ma))
                vb = L.elbo_stats(files2[f], load(src, mb))
                check(va[1] == vb[1] and L.relerr(va[0], vb[0]) <= TOL,
                      f'output-differs:{name}', f'{va[:2]} vs {vb[:2]}')
                for x, y in zip(va[2], vb[2]):
                    e = L.relerr(x, y)
                    check(e <= TOL, f'output-differs:{name}', f'statistics: {e:.3g}')
                continue
            with expect(f'output {f} of {name}'):
                x, y = load(f, files[f]), load(f, files2[f])
                L.same_object(x, y, TOL, f'output-differs:{name}', f)
    # Another seed gives another initialisation.
    for name, files in other.items():
        if name not in ('mkphones', 'mksp', 'mkhsp', 'strain'):
            continue
        mine = {n: f for n, _, f in a}[name]
        differ = False
        for f, data in files.items():
            x = [v for _, v in L.leaves(load(f, mine[f])) if isinstance(v, np.ndarray)]
            y = [v for _, v in L.leaves(load(f, data)) if isinstance(v, np.ndarray)]
            differ |= len(x) != len(y) or any(
                u.shape != v.shape or not np.array_equal(u, v, equal_nan=u.dtype.kind == 'f')
                for u, v in zip(x, y))
        check(differ, f'seed-has-no-effect:{name}', 'same result with another seed')
        ctx.probe('other seed')
    ctx.nontrivial = True
    ctx.probe(plan['tail'])
    ctx.note(plan['tail'], plan['scn']['weights'], plan['seeds'], plan['decoys'],
             plan['stale'], plan['hash'])
