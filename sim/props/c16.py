"""C16: an interrupted evaluation leaves no trace in later results."""
import os
import pickle
import sys

import numpy as np
import torch

from .. import core, lab as L, train as T, zoo
from ..engine import check, expect
from .c15 import Both, second, peek

ID = 'C16'
QUICK, THOROUGH = (2620, 240), (30000, 850)
RULE = ('A run is a history of evaluations of the objective, decodings, '
        'posterior computations, pushes of statistics, updates and reloads of '
        'one model of the zoo, or of two models with common emissions, with '
        'inputs, alignment graphs, scales and labels changing all the time. '
        'Evaluations are interrupted by the simulator at a line '
        'drawn among all those they execute in the library, with an '
        'exception drawn among a failed allocation, an interrupt from the '
        'keyboard and errors. Every operation that is not interrupted is '
        'compared with the same operation on a replica that never evaluated '
        'anything before. Non-trivial: a result was compared after an '
        'interruption; distinct by family, history and place of the '
        'interruptions.')
REAL = ['the whole library: models, objectives, distributions, graphs, '
        'parameters', 'pickle of models (in memory)']
STUB = ['exceptions at lines of the library (trace function of the '
        'interpreter)', 'initial RNG state, uuid4 (simulator)']
ASSUMPTIONS = ['updates themselves are not interrupted (they are not '
               'evaluations)', 'results compared with relative tolerance 1e-9']
TOL = 1e-9
LATENT = zoo.MIXTURES + zoo.HMMS + zoo.LOOPS


class Interruption(Exception):
    'Raised by the simulator.'


class OutOfMemory(MemoryError):
    pass


class Interrupt(KeyboardInterrupt):
    pass


class DeviceError(RuntimeError):
    pass


EXCS = {'failed allocation': OutOfMemory, 'keyboard interrupt': Interrupt,
        'device error': DeviceError, 'error': Interruption}


def generate(rng, index, tier):
    fams = zoo.VAES if rng.random() < .08 else ['gsm', 'gsm_hmm'] \
        if rng.random() < .05 else zoo.DENSITY + LATENT * 3
    spec = zoo.gen_spec(rng, fams, nutts=rng.randint(2, 4))
    lat = spec['family'] in LATENT
    ops = []
    for _ in range(rng.randint(4, 10) if rng.random() < .95 else 24):
        kinds = ['elbo'] * 5 + ['push', 'train', 'train', 'reload']
        if zoo.is_hmm(spec):
            kinds += ['decode', 'posteriors'] * 2
        elif lat:
            kinds += ['posteriors']
        if spec['family'].startswith('gsm') or spec['family'] in zoo.VAES:
            kinds = ['elbo'] * 4 + ['train']
        k = rng.choice(kinds)
        u = rng.randrange(len(spec['utts']))
        op = {'op': k, 'u': u, 'seed': rng.getrandbits(30), 'm': rng.randrange(2)}
        if k in ('elbo', 'push', 'train', 'decode', 'posteriors'):
            kw = zoo.gen_kwargs(rng, spec, spec['utts'][u])
            fits = 'ali' in kw or sum(spec['nstates']) <= spec['utts'][u]
            if zoo.is_hmm(spec) and fits and k in ('elbo', 'train') \
                    and rng.random() < .15:
                kw['viterbi'] = True
            op['kw'] = kw
        if k == 'train':
            op['lr'] = rng.choice([1., .5, .1])
            op['group'] = rng.randrange(4)
        if k in ('elbo', 'decode', 'posteriors', 'push') and rng.random() < .5:
            op['cut'] = {'line': round(rng.random(), 4), 'occ': round(rng.random(), 3),
                         'exc': rng.choice(sorted(EXCS))}
        ops.append(op)
    return {'spec': spec, 'ops': ops, 'two': lat and rng.random() < .3,
            'sched': T.gen_sched(rng)}


def shrink(plan):
    ops = plan['ops']
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    if plan['two']:
        yield dict(plan, two=False)
    for i, o in enumerate(ops):
        if o.get('kw'):
            for k in o['kw']:
                yield dict(plan, ops=ops[:i] + [dict(o, kw={
                    a: b for a, b in o['kw'].items() if a != k})] + ops[i + 1:])
        if o.get('cut'):
            yield dict(plan, ops=ops[:i] + [{k: v for k, v in o.items()
                                            if k != 'cut'}] + ops[i + 1:])


def traced(fn, at=None, exc=None):
    '''Run `fn` with every line of the library it executes
    counted; returns (result, places), raising `exc` at place number `at`.'''
    import beer
    home = os.path.dirname(os.path.abspath(beer.__file__)) + os.sep
    places, mine = [], {}

    def tick(frame):
        places.append((frame.f_code.co_name, frame.f_lineno))
        if len(places) - 1 == at:
            raise exc

    def inside(frame):
        name = frame.f_code.co_filename
        if name not in mine:
            mine[name] = os.path.abspath(name).startswith(home)
        return mine[name]

    def local(frame, event, arg):
        if event == 'line':
            tick(frame)
        return local

    def globl(frame, event, arg):
        return local if event == 'call' and inside(frame) else None

    sys.settrace(globl)
    try:
        return fn(), places
    finally:
        sys.settrace(None)


def place(places, cut):
    'Index of the place drawn: first the line, then which time it runs.'
    distinct = sorted(set(places))
    if not distinct:
        return None
    p = distinct[min(int(cut['line'] * len(distinct)), len(distinct) - 1)]
    occ = [i for i, q in enumerate(places) if q == p]
    return occ[min(int(cut['occ'] * len(occ)), len(occ) - 1)]


class Bench:
    'Models under test and the operations.'

    def __init__(self, spec, X, two):
        self.spec, self.X = spec, X
        self.kind = 'gsm' if spec['family'].startswith('gsm') else \
            'vae' if spec['family'] in zoo.VAES else 'plain'
        if self.kind == 'plain':
            first = zoo.build(spec)
            self.both = Both([first, second(spec, first)] if two else [first])
        else:
            self.both = (zoo.Subspace if self.kind == 'gsm' else zoo.Vae)(spec, X)

    def replica(self):
        'Another process that loads the models.'
        new = object.__new__(Bench)
        new.spec, new.X, new.kind = self.spec, self.X, self.kind
        if self.kind == 'plain':
            new.both = pickle.loads(pickle.dumps(self.both))
        else:
            new.both = type(self.both).unpack(
                pickle.loads(pickle.dumps(self.both.pack())))
        return new

    def model(self, op):
        ms = self.both.models
        return ms[op['m'] % len(ms)]

    def kwargs(self, op, m):
        kw = zoo.kwargs(self.spec, op['kw'], len(self.X[op['u']]), m)
        if op['kw'].get('viterbi'):
            kw['viterbi'] = True
        return kw

    def prepare(self, op):
        'What is not part of the interrupted operation.'
        import beer
        torch.manual_seed(op['seed'])
        x = self.X[op['u']]
        N = sum(map(len, self.X))
        k = op['op']
        if self.kind == 'gsm':
            s = self.both
            return lambda: beer.evidence_lower_bound(
                s.gsm, s.models, latent_posts=s.posts, latent_nsamples=2,
                params_nsamples=2, update_models=False)
        if self.kind == 'vae':
            return lambda: beer.evidence_lower_bound(self.both.vae, x, datasize=N)
        m = self.model(op)
        kw = self.kwargs(op, m)
        if k in ('elbo', 'train'):
            return lambda: beer.evidence_lower_bound(m, x, datasize=N, **kw)
        if k == 'push':
            e = beer.evidence_lower_bound(m, x, datasize=N, **kw)
            return e.backward
        kw = {a: b for a, b in kw.items() if a in ('scale', 'inference_graph')}
        if k == 'decode':
            return lambda: m.decode(x, **kw)
        return lambda: m.posteriors(x, **kw)

    def result(self, op, r):
        'Numbers of a result.'
        k = op['op']
        if k == 'push':
            return None
        if k == 'decode':
            return [r.double().numpy().copy()]
        if k == 'posteriors':
            return [r.detach().double().numpy().copy()]
        if self.kind != 'plain':
            self.both.opt.init_step()
            r.backward()
            return [float(r)] + [x for _, *gs in peek(self.both)
                                 for x in gs if x is not None]
        for p in self.both.bayesian_parameters():
            p.stats = torch.zeros_like(p.stats)
        r.backward()
        return [float(r)] + [p.stats.detach().double().numpy().copy()
                             for p in self.both.bayesian_parameters()]

    def step(self, op, r):
        'Update from an objective.'
        import beer
        if self.kind != 'plain':
            self.both.opt.init_step()
            r.backward()
            self.both.opt.step()
            if self.kind == 'gsm':
                for m in self.both.models:
                    for p in m.bayesian_parameters():
                        p.pdfvec = p.pdfvec.detach()
            return
        m = self.model(op)
        opt = beer.VBConjugateOptimizer(zoo.groups(m), lrate=op['lr'])
        opt.update_count = op['group']
        opt.init_step()
        r.backward()
        opt.step()

    def state(self):
        if self.kind != 'plain':
            return self.both.state()
        return sum((zoo.state(m) for m in self.both.models), [])


def run(plan, ctx):
    spec = plan['spec']
    with zoo.double(), core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], []) as sim:
        X = zoo.data(spec)
        p = sim.spawn('main', lambda: history(plan, ctx, sim, X))
        sim.run()
        if isinstance(p.exc, core.Violation):
            raise p.exc
        check(p.ok, 'operation-failed', lambda: f'{p.error}\n{p.tb}')
        ctx.probe(spec['family'] + (' twice' if plan['two'] else ''))
        ctx.note(spec['family'], plan['two'], plan['ops'])
        ctx.absorb(sim)


def history(plan, ctx, sim, X):
    spec = plan['spec']
    used = Bench(spec, X, plan['two'])
    clean = used.replica()             # never evaluates anything
    dirty = None
    for n, op in enumerate(plan['ops']):
        k = op['op']
        what = f'operation {n} ({k})'
        if dirty:
            what += f' after interruption at {dirty}'
        if k == 'reload':
            with expect('reload'):
                used = used.replica()
            continue
        other = clean.replica()
        call = other.prepare(op)
        if op.get('cut'):
            ref, places = traced(call)
            at = place(places, op['cut'])
            if at is None:
                continue
            exc = EXCS[op['cut']['exc']](f'injected at {places[at]}')
            try:
                traced(used.prepare(op), at, exc)
            except (Interruption, OutOfMemory, Interrupt, DeviceError) as e:
                if e is not exc:
                    raise
            dirty = places[at]
            key = op['cut']['exc']
            sim.fault_fired[key] = sim.fault_fired.get(key, 0) + 1
            ctx.note(places[at])
            ctx.probe(f'interrupted in {places[at][0]}')
            if used.kind != 'plain':
                used.both.opt.init_step()
            continue
        ref = call()
        got = used.prepare(op)()
        ctx.nontrivial |= dirty is not None
        ra, rb = other.result(op, ref), used.result(op, got)
        for i, (a, b) in enumerate(zip(ra or [], rb or [])):
            # Nothing to add up has no defined shape.
            e = L.relerr(a, b) if np.any(a) or np.any(b) else 0.
            check(e <= TOL, f'stale:{k}', lambda: f'{what}: result {i} differs by '
                  f'{e:.3g}\nexpected {a}\n     got {b}')
        if k == 'train':
            used.step(op, used.prepare(op)())
            fresh = clean.replica()
            fresh.step(op, fresh.prepare(op)())
            clean = fresh.replica()
        L.compare_states(clean.state(), used.state(), TOL, f'state-changed:{k}', what)
