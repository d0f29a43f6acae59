"""C05: a command that reports success wrote complete, correct output."""
import io
import os
import pickle

import numpy as np

from .. import core, cli, lab as L, train as T
from ..engine import check, expect

ID = 'C05'
BLOCK = 24
QUICK, THOROUGH = (4800, 240), (30000, 800)
RULE = ('A run executes one command of the chain in the state an undisturbed '
        'chain left, with 1-3 I/O errors, failed allocations, short transfers '
        'or stalls at random operations, then again without faults. '
        'Non-trivial: at least one fault fired; distinct by command and fired '
        'operation.')
REAL = ['beer CLI commands and library', 'numpy/torch/pickle/zipfile/yaml I/O '
        'on scratch files']
STUB = ['file system errors, short transfers and latency, allocation failures '
        'at I/O operations, directory order, uuid4, initial RNG state '
        '(simulator)']
ASSUMPTIONS = ['faults hit the operations of the data files, not the '
               'interpreter or its modules', 'an error is reported to the '
               'caller by the operation that failed; after a failed write '
               'every later write of the process fails too']
HARD = ['eio_read', 'eio_open', 'enospc', 'enospc', 'eio_write', 'close_err',
        'nomem', 'enoent']
TARGETS = ['archive', 'dataset', 'mkphones', 'mkgraph', 'mkdecode',
           'mkphoneloop', 'mkali', 'arcali', 'acc', 'accali', 'upd', 'updopt',
           'train', 'decode', 'decodef', 'post', 'posts', 'phonelist', 'bigram']


def generate(rng, index, tier):
    srng = core.rng_for(rng.base, 'c05-block', index // BLOCK)
    scn = T.gen_train(srng, large=srng.random() < .04)
    ali = T.gen_ali(srng, scn, full=srng.random() < .5) or \
        {scn['utts'][0][0]: [scn['units'][0][0]]}
    target = rng.choice(TARGETS)
    faults = []
    soft = rng.random() < .15
    for i in range(1 if rng.random() < .7 else rng.choice([2, 3])):
        k = rng.choice(T.SOFTKINDS if soft or (i and rng.random() < .6) else HARD)
        faults.append({'proc': target, 'kind': k, 'frac': round(rng.random(), 2),
                       'delay': 3600., 'pos': round(rng.random() * 1.02, 3)})
    return {'scn': scn, 'ali': ali, 'target': target, 'faults': faults,
            'base': srng.getrandbits(40), 'stale': rng.random() < .4}


def shrink(plan):
    for s in L.shrink_scenario(plan['scn']):
        keep = {u for u, _ in s['utts']}
        units = {u for u, _ in s['units']}
        ali = {u: q for u, q in plan['ali'].items()
               if u in keep and all(x in units for x in q)}
        need = max(g['nstates'] for g in s['groups'])
        if ali and all(n >= need for _, n in s['utts']):
            yield dict(plan, scn=s, ali=ali)
    if plan['stale']:
        yield dict(plan, stale=False)


def table(lab, plan):
    'target -> (argv, stdin, outputs {file or dir: kind}, in place files)'
    scn = plan['scn']
    utts = [u for u, _ in scn['utts']]
    steps = {n: a for n, a in lab.model_steps()}
    uni = scn['weights'] in ('dirichlet_process', 'gamma_dirichlet_process')
    return {
        'archive': (['features', 'archive', lab('fea'), lab('fea.npz')], '',
                    {'fea.npz': 'npz'}),
        'dataset': (['dataset', 'create', lab.root, lab('fea.npz'),
                     lab('ds.pkl')], '', {'ds.pkl': 'dataset'}),
        'mkphones': (steps['mkphones'], '', {'hmms': 'object'}),
        'mkgraph': (steps['mkgraph'], '', {'graph': 'object'}),
        'mkdecode': (steps['mkdecode'], '', {'dgraph': 'object'}),
        'mkphoneloop': (steps['mkphoneloop'], '', {'0.mdl': 'model'}),
        'bigram': (['hmm', 'mkphoneloopbigram', '--weights-prior',
                    'hierarchical_dirichlet_process' if uni else 'dirichlet2',
                    lab('0.mdl' if 'dirichlet2' != scn['weights'] and
                        'hierarchical_dirichlet_process' != scn['weights']
                        else 'uni.mdl'), lab('bi.mdl')], '', {'bi.mdl': 'model'}),
        'mkali': (['hmm', 'mkaligraph', lab('hmms'), lab('alidir')],
                  ''.join(f'{u} {" ".join(q)}\n' for u, q in plan['ali'].items()),
                  {f'alidir/{u}.npy': 'npyobject' for u in plan['ali']}),
        'arcali': (['features', 'archive', lab('alidir'), lab('ali.npz')], '',
                   {'ali.npz': 'npzobject'}),
        'acc': (lab.acc_argv('0.mdl', 'e0'), L.stdin_utts(utts), {'e0': 'elbo'}),
        'accali': (lab.acc_argv('0.mdl', 'ea', 'ali.npz', .5), L.stdin_utts(utts),
                   {'ea': 'elbo'}),
        'upd': (lab.upd_argv('0.mdl', '1.mdl'), lab('e0') + '\n',
                {'1.mdl': 'model'}),
        'updopt': (lab.upd_argv('0.mdl', '1b.mdl', .5, 'optim'),
                   lab('ea') + '\n' + lab('e0') + '\n',
                   {'1b.mdl': 'model', 'optim': 'torch'}, ['optim']),
        'train': (['hmm', 'train', '-e', '2', lab('0.mdl'), lab('ds.pkl'),
                   lab('t.mdl')], '', {'t.mdl': 'model'}),
        'decode': (['hmm', 'decode', lab('1.mdl'), lab('ds.pkl')], '', {}),
        'decodef': (['hmm', 'decode', '--per-frame', '-a', lab('ali.npz'), '-u',
                     '-', lab('1.mdl'), lab('ds.pkl')], L.stdin_utts(utts), {}),
        'post': (['hmm', 'posteriors', lab('1.mdl'), lab('ds.pkl'), lab('post')],
                 '', {f'post/{u}.npy': 'npy' for u in utts}),
        'posts': (['hmm', 'posteriors', '-S', '-l', '-u', lab('list'),
                   lab('1.mdl'), lab('ds.pkl'), lab('posts')],
                  '', {f'posts/{u}.npy': 'npy' for u in utts}),
        'phonelist': (['hmm', 'phonelist', lab('hmms')], '', {}),
    }


_base = {}


def baseline(plan, ctx):
    key = repr((plan['scn'], plan['ali'], plan['base']))
    if key in _base:
        return _base[key]
    with core.Scratch() as root, core.Sim(plan['base'], root) as sim:
        lab = L.Lab(sim, root, plan['scn'])
        lab.inputs()
        for d in ('alidir', 'post', 'posts'):
            os.makedirs(lab(d))
        L.write(lab('list'), L.stdin_utts([u for u, _ in plan['scn']['utts']]))
        tab = table(lab, plan)
        before, stdout, ops = {}, {}, {}
        for name in ('archive', 'dataset', 'mkphones', 'mkgraph', 'mkdecode',
                     'mkphoneloop', 'bigram', 'mkali', 'arcali', 'acc', 'accali',
                     'upd', 'updopt', 'train', 'decode', 'decodef', 'post',
                     'posts', 'phonelist'):
            if name == 'bigram' and plan['scn']['weights'] in (
                    'dirichlet2', 'hierarchical_dirichlet_process'):
                lab.beer('uni', ['hmm', 'mkphoneloop', '--weights-prior',
                                 'dirichlet', lab('dgraph'), lab('hmms'),
                                 lab('uni.mdl')])
            if name == 'updopt':        # a state to be overwritten in place
                lab.beer('opt0', lab.upd_argv('0.mdl', 'x.mdl', .5, 'optim'),
                         lab('e0') + '\n')
            before[name] = L.snapshot(root)
            argv, stdin = tab[name][:2]
            p = lab.beer(name, argv, stdin, key=name)
            stdout[name] = p.stdout
            for f in tab[name][2]:
                check(os.path.exists(lab(f)), 'missing-output', f'{name}: {f}')
        after = L.snapshot(root)
        _base.clear()
        _base[key] = (root, before, after, stdout, dict(sim.opcounts))
    return _base[key]


def same_output(lab, f, kind, want, name, tag):
    'Output file f of a successful command equals the undisturbed one.'
    check(os.path.exists(lab(f)), tag, f'{name}: {f} is missing')
    got = L.read_bytes(lab(f))
    if got == want:
        return
    what = f'{name}: {f}'
    if kind == 'npz':
        L.same_npz(got, want, tag, what)
    elif kind == 'npzobject':
        L.same_npz(got, want, tag, what, pickled=True)
    elif kind in ('npy', 'npyobject'):
        with expect(tag.split(':')[0] + ':' + f):
            L.same_object(np.load(io.BytesIO(got), allow_pickle=True),
                          np.load(io.BytesIO(want), allow_pickle=True), 1e-6,
                          tag, what)
    elif kind == 'elbo':
        model = L.load(lab('0.mdl'))
        L.same_elbo(got, want, model, 1e-4, tag, what)
    elif kind == 'torch':
        import torch
        with expect(tag):
            check(torch.load(io.BytesIO(got)) == torch.load(io.BytesIO(want)), tag, what)
    else:
        with expect(tag):
            a, b = pickle.loads(got), pickle.loads(want)
            if kind == 'model':
                T.same_model(a, b, 2e-3, tag)
            else:
                L.same_object(a, b, 1e-5, tag, what)


def run(plan, ctx):
    root0, before, after, stdout, ops = baseline(plan, ctx)
    name = plan['target']
    with core.Scratch() as root, \
            core.Sim(plan['base'], root, {'mode': 'fifo'}, plan['faults'],
                     opcounts=dict(ops)) as sim:
        lab = L.Lab(sim, root, plan['scn'], ctx)
        row = table(lab, plan)[name]
        argv, stdin, outs = row[:3]
        inplace = row[3] if len(row) > 3 else []
        files = {f: L.relocate(d, root0, root) for f, d in before[name].items()}
        want = {f: L.relocate(after[f], root0, root) for f in outs}
        for d in ('alidir', 'post', 'posts', 'fea'):
            os.makedirs(lab(d), exist_ok=True)
        for f, d in files.items():
            L.write(lab(f), d)
        if plan['stale']:             # outputs of an earlier, longer run
            for f in outs:
                if f not in inplace:
                    L.write(lab(f), want[f] + b'\0' * 64)
        inputs = {f for f in files if f not in outs}

        def attempt(tag, pname):
            p = cli.beer(sim, pname, argv, stdin, key=name)
            now = L.snapshot(root)
            for f in inputs:
                check(now.get(f) == files[f], 'input-changed', f'{name}: {f}')
            if p.ok:
                for f, kind in outs.items():
                    same_output(lab, f, kind, want[f], name, tag)
                if not outs:
                    check(p.stdout == stdout[name], tag,
                          lambda: f'{name}: printed\n{p.stdout}\ninstead of\n'
                                  f'{stdout[name]}')
            return p
        # Same name as in the baseline: same initial random state.
        p = attempt('success-with-wrong-output', name)
        if p.fired:
            ctx.nontrivial = True
            ctx.note(name, [(f['kind'], f['cls'], f['op'])
                            for f in sim.fault_log])
            ctx.probe(f'{name} {"succeeded" if p.ok else "failed"} under fault')
        if not p.tainted:
            check(p.ok, f'command-failed:{p.key}', lambda:
                  f'{" ".join(p.cmd)} with {p.fired}: {p.error}\n{p.tb}')
        for f in inplace:
            if not p.ok:
                L.write(lab(f), files[f])
        if not p.ok:
            sim.faults = []
            q = attempt('rerun-with-wrong-output', name + '.again')
            check(q.ok, 'rerun-fails', lambda:
                  f'{" ".join(q.cmd)} after {sim.fault_log}: {q.error}\n{q.tb}')
        ctx.absorb(sim)
