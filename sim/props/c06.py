"""C06: saving and reloading at any point never changes a model."""
import os
import pickle

import numpy as np
import torch

from .. import core, lab as L, train as T, zoo
from ..engine import check, expect

ID = 'C06'
QUICK, THOROUGH = (1760, 240), (16000, 850)
RULE = ('A run draws a model family, its data and a history of operations '
        '(evaluate, store statistics, apply an update, decode, posteriors, '
        'subspace or auto-encoder gradient steps), executes it in one '
        'process, then again cut in several simulated processes that hand '
        'over checkpoints through files (one file or several, pickle or '
        'torch.save), with processes killed and retried, while other '
        'processes load and use the same checkpoints. Every observation and '
        'the parameters at each cut are compared. Non-trivial: at least one '
        'reload; distinct by family, history and cuts.')
REAL = ['beer models, graph, inference', 'pickle/torch serialisation',
        'file I/O on scratch files']
STUB = ['process scheduling and death, uuid4, initial RNG state, order in '
        'which the observers of a parameter are notified (simulator)']
ASSUMPTIONS = ['computations in double precision, tolerance 1e-7',
               'stochastic operations are seeded by the history itself']
TOL = 1e-7


def generate(rng, index, tier):
    fams = zoo.CONJUGATE if rng.random() < .75 else zoo.SUBSPACE + zoo.VAES
    spec = zoo.gen_spec(rng, fams)
    fam = spec['family']
    ops = []
    nops = rng.randint(3, 9) if rng.random() < .95 else 24
    pend = stats = False
    while len(ops) < nops:
        if fam in zoo.CONJUGATE:
            kinds = ['eval', 'begin', 'begin']
            if pend:
                kinds = ['eval', 'back', 'back', 'back', 'add']
            if stats:
                kinds = ['eval', 'apply', 'apply', 'apply']
            if fam.startswith('mixture') or zoo.is_hmm(spec):
                kinds.append('post')
            if zoo.is_hmm(spec):
                kinds.append('decode')
        elif fam in zoo.SUBSPACE:
            kinds = ['acc', 'gstep', 'gstep', 'gstep', 'geval', 'geval']
            if not ops:
                kinds = ['acc']
        else:
            kinds = ['vstep', 'vstep', 'veval']
        k = rng.choice(kinds)
        op = {'op': k, 'seed': rng.getrandbits(30)}
        if k in ('eval', 'begin', 'add'):
            op['batch'] = zoo.gen_batch(rng, spec)
        elif k in ('post', 'decode'):
            u = rng.randrange(len(spec['utts']))
            op['u'] = u
            op['kw'] = zoo.gen_kwargs(rng, spec, spec['utts'][u]) \
                if zoo.is_hmm(spec) else {}
        elif k == 'apply':
            op['lr'] = rng.choice([1., 1., .5, .1])
        elif k in ('gstep', 'geval'):
            op['ns'] = [rng.randint(1, 2), rng.randint(1, 2)]
        elif k == 'vstep':
            op['u'] = rng.randrange(len(spec['utts']))
            op['ns'] = rng.randint(1, 2)
        elif k == 'veval':
            op['u'] = rng.randrange(len(spec['utts']))
        if k == 'begin':
            pend = True
        elif k == 'back':
            pend, stats = False, True
        elif k == 'apply':
            stats = False
        ops.append(op)
    cuts = sorted(rng.sample(range(nops + 1), rng.randint(1, min(4, nops + 1) if nops < 24 else 12)))
    faults = []
    for i in range(len(cuts) + 1):
        if rng.random() < .35:
            for k in range(rng.choice([1, 1, 2])):
                faults.append({'proc': f'seg{i}#{k}', 'kind': 'kill',
                               'n': rng.randint(0, 12),
                               'frac': round(rng.random(), 2)})
        if rng.random() < .2:
            faults.append({'proc': f'seg{i}#0',
                           'kind': rng.choice(T.SOFTKINDS), 'n': rng.randint(0, 8),
                           'frac': round(rng.random(), 2), 'delay': 60.})
    return {'spec': spec, 'ops': ops, 'cuts': cuts,
            'style': rng.choice(['one', 'several', 'torch']),
            'readers': [i for i in range(len(cuts)) if rng.random() < .4],
            'faults': faults, 'sched': T.gen_sched(rng)}


def shrink(plan):
    if len(plan['cuts']) > 1:
        for c in plan['cuts']:
            yield dict(plan, cuts=[c], readers=[])
    if plan['readers']:
        yield dict(plan, readers=[])
    ops = plan['ops']
    for i in range(len(ops) - 1, -1, -1):
        new = ops[:i] + ops[i + 1:]
        if valid(new):
            yield dict(plan, ops=new,
                       cuts=sorted({min(c if c <= i else c - 1, len(new))
                                    for c in plan['cuts']}), readers=[])
    for s in zoo.shrink_spec(plan['spec']):
        n = len(s['utts'])
        if n == len(plan['spec']['utts']) and s['utts'] == plan['spec']['utts'] \
                and s['nstates'] == plan['spec']['nstates']:
            yield dict(plan, spec=s)


def valid(ops):
    pend = stats = False
    for o in ops:
        k = o['op']
        if k in ('back', 'add') and not pend or k == 'apply' and not stats \
                or k == 'begin' and pend:
            return False
        pend = k == 'begin' or (pend and k != 'back')
        stats = k == 'back' or (stats and k != 'apply')
    return True


class Actor:
    'One process applying a part of the history.'

    def __init__(self, spec):
        self.spec = spec
        self.X = zoo.data(spec)
        self.N = sum(map(len, self.X))
        self.elbo = None
        fam = spec['family']
        self.sub = self.model = None
        if fam in zoo.SUBSPACE:
            self.sub = zoo.Subspace(spec, self.X)
        elif fam in zoo.VAES:
            self.sub = zoo.Vae(spec, self.X)
        else:
            self.model = zoo.build(spec)
            self._optim()

    def _optim(self, state=None):
        import beer
        self.opt = beer.VBConjugateOptimizer(zoo.groups(self.model), lrate=1.)
        if state is not None:
            self.opt.load_state_dict(state)

    # -- checkpoints
    def save(self, path, style):
        before = None if self.model is None else zoo.nparams_state(self.model)
        if self.sub is not None:
            model, opt = self.sub.pack()
        else:
            model, opt = self.model, self.opt.state_dict()
        if style == 'one':
            with open(path + '.ckpt', 'wb') as f:
                pickle.dump((model, opt, self.elbo), f)
        else:
            with open(path + '.mdl', 'wb') as f:
                if style == 'torch':
                    torch.save(model, f)
                else:
                    pickle.dump(model, f)
            torch.save(opt, path + '.opt')
            with open(path + '.elbo', 'wb') as f:
                pickle.dump(self.elbo, f)
        self.pure(before, 'storing')

    @classmethod
    def load(cls, spec, path, style):
        self = cls.__new__(cls)
        self.spec = spec
        self.X = zoo.data(spec)
        self.N = sum(map(len, self.X))
        if style == 'one':
            with open(path + '.ckpt', 'rb') as f:
                model, opt, self.elbo = pickle.load(f)
        else:
            with open(path + '.mdl', 'rb') as f:
                if style == 'torch':
                    model = torch.load(f, weights_only=False)
                else:
                    model = pickle.load(f)
            opt = torch.load(path + '.opt')
            with open(path + '.elbo', 'rb') as f:
                self.elbo = pickle.load(f)
        self.sub = self.model = None
        if spec['family'] in zoo.SUBSPACE:
            self.sub = zoo.Subspace.unpack((model, opt))
        elif spec['family'] in zoo.VAES:
            self.sub = zoo.Vae.unpack((model, opt))
        else:
            self.model = model
            self._optim(opt)
            if self.elbo is not None:
                self.elbo.sync(self.model)
        return self

    # -- operations
    def pure(self, before, what):
        if before is None:
            return
        after = zoo.nparams_state(self.model)
        for i, (a, b) in enumerate(zip(before, after)):
            check(torch.equal(a[0], b[0]) and torch.equal(a[1], b[1]),
                  'parameters-changed', f'{what} changed parameter {i} of '
                  f'{self.spec["family"]}')

    def state(self):
        return self.sub.state() if self.sub else zoo.state(self.model)

    def full(self):
        'Objective of the whole data.'
        if self.sub:
            return None
        before = zoo.nparams_state(self.model)
        v = float(zoo.elbo(self.spec, self.model, self.X,
                           [[u, {}] for u in range(len(self.X))], self.N))
        self.pure(before, 'evaluation')
        return v

    def do(self, op):
        import beer
        torch.manual_seed(op['seed'])
        k, m = op['op'], self.model
        before = zoo.nparams_state(m) if m is not None and k != 'apply' else None
        out = None
        if k == 'eval':
            out = float(zoo.elbo(self.spec, m, self.X, op['batch'], self.N))
        elif k == 'begin':
            self.elbo = zoo.elbo(self.spec, m, self.X, op['batch'], self.N)
            out = float(self.elbo)
        elif k == 'add':
            self.elbo = self.elbo + zoo.elbo(self.spec, m, self.X, op['batch'],
                                             self.N)
            out = float(self.elbo)
        elif k == 'back':
            self.opt.init_step()
            self.elbo.backward()
            out = [p.stats.double().numpy().copy() for p in m.bayesian_parameters()]
            self.elbo = None
        elif k == 'apply':
            self.opt.lrate = op['lr']
            self.opt.step()
        elif k in ('post', 'decode'):
            kw = zoo.kwargs(self.spec, op['kw'], self.spec['utts'][op['u']], m)
            x = self.X[op['u']]
            out = (m.posteriors(x, **kw) if k == 'post' else m.decode(x, **kw))
            out = out.double().numpy().copy()
        elif k == 'acc':
            out = []
            for mod, x in zip(self.sub.models, self.X):
                e = beer.evidence_lower_bound(mod, x)
                for p in mod.bayesian_parameters():
                    p.zero_stats()
                e.backward(std_params=False)
                out.append(float(e))
        elif k in ('gstep', 'geval'):
            s = self.sub
            if k == 'gstep':
                s.opt.init_step()
            e = beer.evidence_lower_bound(
                s.gsm, s.models, latent_posts=s.posts, latent_nsamples=op['ns'][0],
                params_nsamples=op['ns'][1], update_models=k == 'gstep')
            if k == 'gstep':
                e.backward()
                s.opt.step()
                for mod in s.models:
                    for p in mod.bayesian_parameters():
                        p.pdfvec = p.pdfvec.detach()
            out = float(e)
        elif k in ('vstep', 'veval'):
            s = self.sub
            if k == 'vstep':
                s.opt.init_step()
            e = beer.evidence_lower_bound(s.vae, self.X[op['u']], datasize=self.N,
                                          nsamples=op.get('ns', 1))
            if k == 'vstep':
                e.backward()
                s.opt.step()
            out = float(e)
        self.pure(before, k)
        return out


def same(a, b, kind, what):
    if isinstance(a, list):
        check(len(a) == len(b), kind, what)
        for x, y in zip(a, b):
            same(x, y, kind, what)
        return
    if a is None and b is None:
        return
    e = L.relerr(a, b)
    check(e <= TOL, kind, lambda: f'{what}: differ by {e:.3g}\n{a}\n{b}')


def run(plan, ctx):
    spec, ops = plan['spec'], plan['ops']
    cuts = [c for c in plan['cuts'] if c <= len(ops)]
    bounds = [0] + cuts + [len(ops)]
    with zoo.double(), core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        # The history in one process.
        def straight():
            actor = Actor(spec)
            obs, states = [], {0: (actor.state(), actor.full())}
            for i, op in enumerate(ops):
                obs.append(actor.do(op))
                if i + 1 in bounds:
                    states[i + 1] = (actor.state(), actor.full())
            return obs, states

        p = sim.spawn('straight', straight)
        sim.run()
        done(p)
        obs, states = p.value

        def segment(i):
            def main():
                if i == 0:
                    actor = Actor(spec)
                else:
                    actor = Actor.load(spec, f'{root}/ck{i - 1}', plan['style'])
                first = actor.state(), actor.full()
                out = [actor.do(op) for op in ops[bounds[i]:bounds[i + 1]]]
                last = actor.state()
                if i + 1 < len(bounds) - 1:
                    actor.save(f'{root}/ck{i}', plan['style'])
                return first, out, last
            return main

        def reader(i):
            def main():
                actor = Actor.load(spec, f'{root}/ck{i}', plan['style'])
                v = actor.full()
                for op in ops[bounds[i + 1]:bounds[i + 1] + 2]:
                    actor.do(op)
                return v
            return main

        for i in range(len(bounds) - 1):
            for k in range(9):
                batch = []
                if k == 0 and i and i - 1 in plan['readers']:
                    batch.append(sim.spawn(f'read{i - 1}', reader(i - 1)))
                keep = L.snapshot(root)
                p = sim.spawn(f'seg{i}#{k}', segment(i))
                sim.run()
                for q in batch:
                    done(q)
                    same(q.value, states[bounds[i]][1], 'reloaded-objective-differs',
                         f'reader of checkpoint {i - 1}')
                    ctx.probe('concurrent reader')
                for name, old in keep.items():
                    if not name.startswith(f'ck{i}.'):
                        check(L.read_bytes(os.path.join(root, name)) == old,
                              'checkpoint-changed', name)
                if p.ok:
                    break
                if not p.tainted:
                    done(p)
                ctx.probe('segment killed')
            done(p)
            first, out, last = p.value
            what = f'{spec["family"]} segment {i}'
            with expect('state'):
                L.compare_states(states[bounds[i]][0], first[0], TOL,
                                 'reloaded-parameters-differ')
            same(states[bounds[i]][1], first[1], 'reloaded-objective-differs', what)
            for op, a, b in zip(ops[bounds[i]:], obs[bounds[i]:], out):
                same(a, b, 'later-result-differs', f'{what} {op["op"]}')
            with expect('state'):
                L.compare_states(states[bounds[i + 1]][0], last, TOL,
                                 'later-parameters-differ')
            if i:
                ctx.nontrivial = True
                ctx.probe('reload ' + spec['family'])
        ctx.note(spec['family'], [o['op'] for o in ops], cuts, plan['style'])
        ctx.absorb(sim)


def done(p):
    if isinstance(p.exc, core.Violation):
        raise p.exc
    check(p.ok, f'operation-failed:{p.name.split("#")[0].rstrip("0123456789")}',
          lambda: f'{p.error}\n{p.tb}')
