"""Experiments: generated scenarios and the command sequences that run them.

A scenario is a JSON value; everything below is a function of it.
"""
import io
import json
import os
import pickle
import zlib

import numpy as np
import torch

from . import core, cli
from .engine import Violation, check, expect

PRIORS = ['dirichlet', 'dirichlet2', 'dirichlet_process',
          'gamma_dirichlet_process', 'hierarchical_dirichlet_process']
COVS = ['diagonal', 'isotropic', 'full']
LOOPS = [.5, .5, .75, .25]


# ---------------------------------------------------------------------------
# Scenario generation

def gen_units(rng, minstates=2, maxgroups=2, cov=None, maxunits=4):
    ng = rng.randint(1, maxgroups)
    cov = cov or rng.choice(COVS)
    groups = []
    for g in range(ng):
        groups.append({
            'name': ['non-speech-unit', 'speech-unit', 'other'][g],
            'ncomp': rng.choice([1, 1, 2, 3]),
            'strength': rng.choice([1., 1., 2., .5 if cov != 'full' else 3.]),
            'noise': rng.choice([.1, .5, 1.]),
            'cov': cov,
            'nstates': rng.randint(minstates, 3),
            'loop': rng.choice(LOOPS),
        })
        if rng.random() < .08:
            groups[-1]['nstates'] = rng.choice([4, 5])
        if rng.random() < .3:                 # one probability per state
            groups[-1]['loop'] = [rng.choice(LOOPS + [.9, .99, .05])
                                  for _ in range(groups[-1]['nstates'])]
        if groups[-1]['nstates'] > 2 and rng.random() < .2:
            groups[-1]['skip'] = rng.choice([.5, .1])
    n = rng.randint(max(2, ng), maxunits + 3 * (rng.random() < .12))
    names = ['sil', 'a', 'b', 'au2', 'x1', 'zz', 'au10', 'B', 'au1', 'é',
             'sil_', 'a0'][:n]
    units = [[name, groups[0 if i == 0 else 1 + (i - 1) % max(1, ng - 1)]['name']
              if ng > 1 else groups[0]['name']] for i, name in enumerate(names)]
    return groups, units


def gen_scenario(rng, nutts=None, minlen=1, maxlen=12, minstates=2, weights=None,
                 cov=None, dim=None, maxunits=4, large=False):
    if large:
        # More of everything: two-digit numbers of utterances and units, an
        # utterance much longer than the others, higher dimension.
        maxunits = rng.choice([maxunits, 8, 12])
        dim = dim or rng.choice([2, 3, 5])
        nutts = nutts or rng.randint(10, 16)
    groups, units = gen_units(rng, minstates, cov=cov, maxunits=maxunits)
    dim = dim or rng.choice([1, 2, 2, 3])
    nutts = nutts or rng.choice([1, 2, 3, 4, 5, 6])
    lens = []
    for _ in range(nutts):
        lens.append(rng.choice([minlen, rng.randint(minlen, maxlen),
                                rng.randint(minlen, maxlen),
                                rng.randint(minlen, maxlen)]))
    if sum(lens) < 2 * dim + 4:           # a usable variance estimate
        lens[-1] += 2 * dim + 4
    if large and rng.random() < .5:
        lens[rng.randrange(nutts)] = rng.randint(60, 130)
    ids = [rng.choice(['utt', 'spk1-', 'A_', 'x.']) + '%02d' % i for i in range(nutts)]
    if large:                             # order of numbers, prefixes, case
        ids = [rng.choice(['utt', 'Utt', 'utt1', 'é-', 'u+t=']) + '%d' % i
               for i in range(nutts)]
        if len(set(ids)) < nutts:
            ids = ['utt%d' % i for i in range(nutts)]
    return {
        'data': rng.getrandbits(31), 'dim': dim,
        'dtype': rng.choice(['float32', 'float64']),
        'offset': rng.choice([0., 0., 3., -20.]),
        'utts': [[i, n] for i, n in zip(ids, lens)],
        'groups': groups, 'units': units,
        'weights': weights or rng.choice(PRIORS),
        'conc': rng.choice([None, 1., 3.]),
        'startend': rng.choice([None, groups[0]['name']]),
        'mkseed': rng.randint(0, 1000),
    }


def shrink_scenario(scn):
    'Simpler scenarios.'
    if len(scn['utts']) > 1:
        for i in range(len(scn['utts'])):
            yield dict(scn, utts=scn['utts'][:i] + scn['utts'][i + 1:])
    for i, (u, n) in enumerate(scn['utts']):
        if n > 4:
            yield dict(scn, utts=[[v, (m // 2 if j == i else m)]
                                  for j, (v, m) in enumerate(scn['utts'])])
    if any('skip' in g for g in scn['groups']):
        yield dict(scn, groups=[{k: v for k, v in g.items() if k != 'skip'}
                                for g in scn['groups']])
    if any(isinstance(g['loop'], list) for g in scn['groups']):
        yield dict(scn, groups=[dict(g, loop=.5) for g in scn['groups']])
    if any(g['ncomp'] > 1 for g in scn['groups']):
        yield dict(scn, groups=[dict(g, ncomp=1) for g in scn['groups']])
    if any(g['nstates'] > 2 for g in scn['groups']):
        yield dict(scn, groups=[dict(g, nstates=2, loop=g['loop'][:2] if isinstance(
            g['loop'], list) else g['loop']) for g in scn['groups']])
    if len(scn['units']) > 2:
        keep = scn['units'][:-1]
        if {g for _, g in keep} >= {g['name'] for g in scn['groups']}:
            yield dict(scn, units=keep)
    if scn['dim'] > 1:
        yield dict(scn, dim=1)
    if scn['offset']:
        yield dict(scn, offset=0.)
    if scn['conc'] is not None:
        yield dict(scn, conc=None)
    if scn['startend'] is not None:
        yield dict(scn, startend=None)
    if scn['weights'] != 'dirichlet':
        yield dict(scn, weights='dirichlet')


def features(scn):
    'id -> array, in the order of the scenario.'
    out = {}
    for k, (uttid, n) in enumerate(scn['utts']):
        r = np.random.RandomState((scn['data'] + 7919 * k) % (2**32 - 1))
        x = r.randn(n, scn['dim'])
        seg = np.repeat(r.randn((n + 3) // 4, scn['dim']) * 2, 4, axis=0)[:n]
        out[uttid] = (x + seg + scn['offset']).astype(scn['dtype'])
    return out


def topology(g):
    'Arcs (from, to, probability) between the states 0 (entry) ... n + 1 (exit).'
    n = g['nstates']
    loops = g['loop'] if isinstance(g['loop'], list) else [g['loop']] * n
    arcs = [(0, 1, 1.)]
    for s, loop in enumerate(loops, 1):
        skip = g.get('skip', 0.) if s + 2 <= n else 0.
        arcs += [(s, s, loop), (s, s + 1, (1. - loop) * (1. - skip))]
        if skip:
            arcs.append((s, s + 2, (1. - loop) * skip))
    return arcs


def conf_text(scn):
    out = []
    for g in scn['groups']:
        out.append(f"- group_name: {g['name']}\n"
                   f"  n_normal_per_state: {g['ncomp']}\n"
                   f"  prior_strength: {float(g['strength'])}\n"
                   f"  noise_std: {float(g['noise'])}\n"
                   f"  cov_type: {g['cov']}\n  shared_cov: no\n  topology:\n")
        for a, b, w in topology(g):
            out.append(f'  - {{start_id: {a}, end_id: {b}, trans_prob: {w}}}\n')
    return ''.join(out)


def write(path, text):
    mode = 'wb' if isinstance(text, bytes) else 'w'
    with core._orig['open'](path, mode) as f:
        f.write(text)


def read_bytes(path):
    with core._orig['open'](path, 'rb') as f:
        return f.read()


def load(path, what=None):
    with expect(what or 'file ' + os.path.basename(path)):
        with core._orig['open'](path, 'rb') as f:
            return pickle.load(f)


def snapshot(root):
    'relative path -> bytes of all the files.'
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = read_bytes(p)
    return out


def npz_bytes(arrays):
    buf = io.BytesIO()
    np.savez(buf, **arrays)
    return buf.getvalue()


class Lab:
    'One experiment directory driven through the command line.'

    def __init__(self, sim, root, scn, ctx=None):
        self.sim, self.root, self.scn, self.ctx = sim, root, scn, ctx
        self.n = 0

    def __call__(self, name):
        return os.path.join(self.root, name)

    def beer(self, name, argv, stdin='', must=True, **kw):
        p = cli.beer(self.sim, name, argv, stdin, **kw)
        if must:
            self.must(p)
        return p

    def must(self, p):
        check(p.ok, f'command-failed:{p.key}',
              lambda: f'{" ".join(p.cmd)}: {p.error}\n{p.tb}')

    def inputs(self, fea=True):
        if fea:
            os.makedirs(self('fea'), exist_ok=True)
            for uttid, x in features(self.scn).items():
                buf = io.BytesIO()
                np.save(buf, x)
                write(self(f'fea/{uttid}.npy'), buf.getvalue())
        write(self('conf.yml'), conf_text(self.scn))
        write(self('units'), ''.join(f'{u} {g}\n' for u, g in self.scn['units']))

    def dataset(self):
        self.inputs()
        self.beer('archive', ['features', 'archive', self('fea'), self('fea.npz')])
        self.beer('dataset', ['dataset', 'create', self.root, self('fea.npz'),
                              self('ds.pkl')])

    def model_steps(self):
        scn = self.scn
        se = ['-s', scn['startend']] if scn['startend'] else []
        conc = ['-c', str(scn['conc'])] if scn['conc'] else []
        return [
            ('mkphones', ['-s', scn['mkseed'], 'hmm', 'mkphones', '-d',
                          self('ds.pkl'), self('conf.yml'), self('units'),
                          self('hmms')]),
            ('mkgraph', ['hmm', 'mkphoneloopgraph'] + se + [self('units'),
                                                            self('graph')]),
            ('mkdecode', ['hmm', 'mkdecodegraph', self('graph'), self('hmms'),
                          self('dgraph')]),
            ('mkphoneloop', ['hmm', 'mkphoneloop'] + conc +
             ['--weights-prior', scn['weights'], self('dgraph'), self('hmms'),
              self('0.mdl')]),
        ]

    def model(self, tag=''):
        for name, argv in self.model_steps():
            self.beer(name + tag, argv)

    def alignments(self, ali, name='ali.npz'):
        '''ali: {uttid: [units]} -> graphs made by mkaligraph, zipped by
        "features archive" as the recipes do.'''
        os.makedirs(self('alidir'), exist_ok=True)
        text = ''.join(f'{u} {" ".join(seq)}\n' for u, seq in ali.items())
        self.beer('mkaligraph', ['hmm', 'mkaligraph', self('hmms'),
                                 self('alidir')], stdin=text)
        self.beer('aliarchive', ['features', 'archive', self('alidir'),
                                 self(name)])

    def acc_argv(self, model, out, ali=None, scale=None, dataset='ds.pkl'):
        argv = ['hmm', 'accumulate']
        if ali:
            argv += ['-a', self(ali)]
        if scale is not None:
            argv += ['-s', str(scale)]
        return argv + [self(model), self(dataset), self(out)]

    def upd_argv(self, model, out, lr=None, optim=None):
        argv = ['hmm', 'update']
        if lr is not None:
            argv += ['-l', str(lr)]
        if optim is not None:
            argv += ['-o', self(optim)]
        return argv + [self(model), self(out)]


def stdin_utts(utts):
    style = zlib.crc32(repr(utts).encode()) % 4
    text = ''.join(('  ' * (style == 1) + f'{u}' + ' \t' * (style == 2) + '\n')
                   for u in utts)
    return text[:-1] if style == 3 else text


# ---------------------------------------------------------------------------
# Looking at models through their public interface

def std_params(dist):
    'Standard parameters of a distribution as float64 arrays.'
    out = {}
    params = dist.params
    names = list(getattr(dist, '_std_params_def', {})) or \
        list(getattr(params, '__dataclass_fields__', {}))
    for name in names:
        out[name] = getattr(params, name).detach().double().numpy().copy()
    return out


def model_state(model):
    '''Everything that defines a trained model: prior and posterior of each
    Bayesian parameter and the transitions.'''
    out = []
    for i, p in enumerate(model.bayesian_parameters()):
        out.append((f'{i}.prior', std_params(p.prior)))
        out.append((f'{i}.posterior', std_params(p.posterior)))
    g = getattr(model, 'graph', None)
    if g is not None:
        out.append(('graph', {
            'init': g.init_log_probs.double().numpy().copy(),
            'final': g.final_log_probs.double().numpy().copy(),
            'trans': g.trans_log_probs.double().numpy().copy()}))
    return out


def relerr(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.
    fin = np.isfinite(a)
    if (fin != np.isfinite(b)).any() or \
            not np.array_equal(a[~fin], b[~fin], equal_nan=True):
        return float('inf')
    if not fin.any():
        return 0.
    a, b = a[fin], b[fin]
    return float((np.abs(a - b) / (1. + np.maximum(np.abs(a), np.abs(b)))).max())


def compare_states(s1, s2, tol, kind, exact=False):
    check(len(s1) == len(s2), kind, 'different number of parameters')
    for (n1, d1), (n2, d2) in zip(s1, s2):
        check(n1 == n2 and list(d1) == list(d2), kind, f'{n1} vs {n2}')
        for k in d1:
            e = relerr(d1[k], d2[k])
            check(e <= tol, kind,
                  lambda: f'{n1}.{k}: relative difference {e:.3g} (> {tol:g})\n'
                          f'{d1[k]}\n{d2[k]}')


def finite_state(state, kind='non-finite'):
    for n, d in state:
        if n == 'graph':
            continue
        for k, v in d.items():
            check(np.isfinite(v).all(), kind, f'{n}.{k} = {v}')


# ---------------------------------------------------------------------------
# Structural comparison of two unpickled objects (same code on both sides)

def leaves(obj, path='', memo=None, out=None):
    import types
    import uuid as _uuid
    out = [] if out is None else out
    memo = {} if memo is None else memo
    if obj is None or isinstance(obj, (bool, int, float, complex, str, bytes)):
        out.append((path, obj))
        return out
    if isinstance(obj, _uuid.UUID):
        out.append((path, '<uuid>'))
        return out
    if isinstance(obj, torch.Tensor):
        out.append((path, obj.detach().cpu().numpy()))
        return out
    if isinstance(obj, (type, types.FunctionType, types.BuiltinFunctionType,
                        torch.dtype, torch.device)):
        out.append((path, str(getattr(obj, '__qualname__', obj))))
        return out
    if isinstance(obj, types.MethodType):
        out.append((path, 'method ' + obj.__func__.__qualname__))
        leaves(obj.__self__, path + '.self', memo, out)
        return out
    if id(obj) in memo:
        out.append((path, '<seen>'))
        return out
    memo[id(obj)] = obj
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            for i, v in enumerate(obj.ravel()):
                leaves(v, f'{path}[{i}]', memo, out)
        else:
            out.append((path, obj))
        return out
    if isinstance(obj, np.generic):
        out.append((path, np.asarray(obj)))
        return out
    out.append((path, type(obj).__name__))
    if isinstance(obj, dict):
        for k, v in obj.items():
            key = k if isinstance(k, (str, int, float, tuple)) else type(k).__name__
            leaves(v, f'{path}[{key!r}]', memo, out)
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            leaves(v, f'{path}[{i}]', memo, out)
    elif isinstance(obj, (set, frozenset)):
        parts = sorted(((repr([l for l in leaves(v, '', dict(memo))
                               if isinstance(l[1], (str, int, float))]), i, v)
                        for i, v in enumerate(set.__iter__(obj))),
                       key=lambda x: x[:2])
        for i, (_, _, v) in enumerate(parts):
            leaves(v, f'{path}{{{i}}}', memo, out)
    elif hasattr(obj, '__dict__'):
        for k, v in sorted(vars(obj).items()):
            leaves(v, f'{path}.{k}', memo, out)
    return out


def same_object(a, b, tol, kind, what=''):
    la, lb = leaves(a), leaves(b)
    check(len(la) == len(lb), kind,
          lambda: f'{what}: {len(la)} vs {len(lb)} leaves')
    for (pa, va), (pb, vb) in zip(la, lb):
        check(pa == pb, kind, f'{what}: {pa} vs {pb}')
        if isinstance(va, np.ndarray) and isinstance(vb, np.ndarray) \
                and va.dtype.kind in 'fiub':
            e = relerr(va, vb)
            check(e <= tol, kind, lambda: f'{what}{pa}: differ by {e:.3g}\n{va}\n{vb}')
        elif isinstance(va, float) and isinstance(vb, float):
            check(relerr(va, vb) <= tol, kind, f'{what}{pa}: {va} vs {vb}')
        else:
            check(type(va) == type(vb) and np.all(va == vb), kind,
                  f'{what}{pa}: {va!r} vs {vb!r}')


def same_npz(a, b, kind, what='', pickled=False):
    'Archives with the same members and contents (bytes on both sides).'
    import zipfile
    with expect(f'archive:{what}'):
        na = sorted(zipfile.ZipFile(io.BytesIO(a)).namelist())
        nb = sorted(zipfile.ZipFile(io.BytesIO(b)).namelist())
        za = np.load(io.BytesIO(a), allow_pickle=pickled)
        zb = np.load(io.BytesIO(b), allow_pickle=pickled)
        check(na == nb, kind, f'{what}: members {na} vs {nb}')
        for n in sorted(set(za.files)):
            same_object(za[n], zb[n], 1e-6, kind, f'{what}:{n}')


def relocate(data, old, new):
    'Rewrite the directory stored in a file (names have the same length).'
    old, new = old.encode(), new.encode()
    if len(old) != len(new):
        raise core.HarnessError('scratch names differ in length')
    return data.replace(old, new)


def elbo_stats(data, model, what='partial result'):
    '''(value, count, [statistics per parameter]) of a stored partial result,
    through its public interface: reconnect to the model and push.'''
    import copy
    with expect(what):
        elbo, count = pickle.loads(data)
        model = copy.deepcopy(model)
        for p in model.bayesian_parameters():
            p.zero_stats()
        elbo.sync(model)
        value = float(elbo)
        if count:
            elbo.backward()
        stats = [p.stats.detach().double().numpy().copy()
                 for p in model.bayesian_parameters()]
        return value, count, stats


def same_elbo(a, b, model, tol, kind, what=''):
    va, ca, sa = elbo_stats(a, model, what)
    vb, cb, sb = elbo_stats(b, model, what)
    check(ca == cb, kind, f'{what}: {ca} vs {cb} utterances')
    check(relerr(va, vb) <= tol, kind, f'{what}: value {va} vs {vb}')
    for i, (x, y) in enumerate(zip(sa, sb)):
        e = relerr(x, y)
        check(e <= tol, kind, lambda: f'{what}: statistics {i} differ by {e:.3g}\n'
                                      f'{x}\n{y}')
