"""C19: models living in one process do not interfere."""
import copy
import io
import os
import pickle
import sys
import threading

import numpy as np
import torch

from .. import core, lab as L, train as T, zoo
from ..engine import check, expect
from . import c06, c16

ID = 'C19'
QUICK, THOROUGH = (1000, 200), (12000, 850)
RULE = ('A run is two to four users of the library in one process, each with '
        'a model of the zoo (of its own, identical to the one of another '
        'user, or copied by deepcopy or pickle from the model of another user '
        'in the middle of its history) and a history of operations: '
        'evaluations, statistics, updates, decodings, posteriors, gradient '
        'steps, some interrupted. The simulator interleaves the histories, '
        'between two operations or (threads) at any line of the library. '
        'Every observation and the final parameters are compared with those '
        'of the same history alone in a process of its own; the data they '
        'share never changes. Non-trivial: two histories overlapped; distinct '
        'by families, histories and interleaving.')
REAL = ['beer models, graphs, inference, optimisers', 'copy and pickle of '
        'models', 'Python threads']
STUB = ['choice of the thread that runs at each line of the library (trace '
        'function and hand-over)', 'exceptions at lines of the library',
        'uuid4, initial RNG state, order in which the observers of a '
        'parameter are notified (simulator)']
ASSUMPTIONS = ['computations in double precision, tolerance 1e-9',
               'operations that draw random numbers are seeded and are not '
               'run in threads (the generator belongs to the process)',
               'no object is shared on purpose, except the data']
TOL = 1e-9


def gen_ops(rng, spec, cuts, style):
    'History of one user (in the manner of C06).'
    fam, ops = spec['family'], []
    pend = stats = False
    n = rng.randint(2, 7) if rng.random() < .95 else 20
    # Some users mostly train, others mostly decode.
    style = style or rng.choice(['train', 'train', 'decode', None])
    while len(ops) < n + (5 if style == 'train' else 0):
        if fam in zoo.CONJUGATE:
            kinds = ['eval', 'begin', 'begin']
            if pend:
                kinds = ['eval', 'back', 'back', 'back', 'add']
            if stats:
                kinds = ['eval', 'apply', 'apply', 'apply', 'back'] if pend \
                    else ['eval', 'apply', 'apply', 'apply', 'begin']
            if fam.startswith('mixture') or zoo.is_hmm(spec):
                kinds.append('post')
            if zoo.is_hmm(spec):
                kinds += ['decode', 'decode']
                if style == 'decode':
                    kinds += ['decode'] * 6
            if style == 'train':
                k = [k for k in kinds if k in ('begin', 'back', 'apply')]
                kinds += k * 2
        elif fam in zoo.SUBSPACE:
            kinds = ['acc', 'gstep', 'gstep', 'geval'] if ops else ['acc']
        else:
            kinds = ['vstep', 'vstep', 'veval']
        k = rng.choice(kinds)
        op = {'op': k, 'seed': rng.getrandbits(30)}
        if k in ('eval', 'begin', 'add'):
            op['batch'] = zoo.gen_batch(rng, spec)
        elif k in ('post', 'decode'):
            u = op['u'] = rng.randrange(len(spec['utts']))
            op['kw'] = zoo.gen_kwargs(rng, spec, spec['utts'][u]) \
                if zoo.is_hmm(spec) else {}
        elif k == 'apply':
            op['lr'] = rng.choice([1., 1., .5, .1])
        elif k in ('gstep', 'geval'):
            op['ns'] = [rng.randint(1, 2), rng.randint(1, 2)]
        elif k in ('vstep', 'veval'):
            op['u'] = rng.randrange(len(spec['utts']))
            op['ns'] = rng.randint(1, 2)
        if k in ('eval', 'post', 'decode') and cuts and rng.random() < .3:
            op['cut'] = {'line': round(rng.random(), 4),
                         'occ': round(rng.random(), 3),
                         'exc': rng.choice(sorted(c16.EXCS))}
        pend = k == 'begin' or (pend and k != 'back')
        stats = k == 'back' or (stats and k != 'apply')
        ops.append(op)
    return ops


def chorus(rng):
    'Threads that do the same with models of the same shape.'
    spec = zoo.gen_spec(rng, zoo.HMMS + zoo.LOOPS, maxlen=7, nutts=3)
    spec['utts'] = [rng.randint(5, 12)] * 3
    users = []
    what = rng.choice(['decode', 'decode', 'post', 'eval'])
    for _ in range(rng.choice([2, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 4)):
            op = {'op': what, 'seed': rng.getrandbits(30)}
            if what == 'eval':
                op['batch'] = [[rng.randrange(3), {}]]
            else:
                op.update(u=rng.randrange(3), kw={})
            ops.append(op)
        users.append({'spec': dict(spec, seed=rng.getrandbits(31)),
                      'ops': ops, 'src': None})
    return {'users': users, 'threads': True, 'rate': rng.choice([.05, .1, .3]),
            'sched': T.gen_sched(rng)}


def generate(rng, index, tier):
    if rng.random() < .2:
        return chorus(rng)
    threads = rng.random() < .5
    fams = zoo.CONJUGATE if threads or rng.random() < .75 \
        else zoo.CONJUGATE + (zoo.SUBSPACE + zoo.VAES) * 3
    hmms = rng.random() < .5
    cuts = rng.random() < .3
    style = rng.choice([None, None, 'decode']) if threads and hmms else None
    users = []
    for i in range(rng.choice([2, 2, 2, 3, 4])):
        c = rng.random()
        src = None
        if i and c < .55:
            spec = dict(users[rng.randrange(i)]['spec'])
            if c < .35 and rng.random() < .7:    # same shape, other values
                spec['seed'] = rng.getrandbits(31)
        else:
            spec = zoo.gen_spec(rng, zoo.HMMS + zoo.LOOPS if hmms else fams,
                                maxlen=7, nutts=3)
            if rng.random() < .5:
                spec['utts'] = [spec['utts'][0]] * len(spec['utts'])
            if i:
                for k in ('data', 'utts', 'dim', 'offset'):
                    spec[k] = users[0]['spec'][k]
        if i and .35 < c < .55:
            j = rng.randrange(i)
            spec = dict(users[j]['spec'])
            src = {'of': j, 'at': rng.randint(0, len(users[j]['ops'])),
                   'how': rng.choice(['deepcopy', 'pickle', 'torch'])}
        ops = gen_ops(rng, spec, cuts, style)
        users.append({'spec': spec, 'ops': ops, 'src': src})
    return {'users': users, 'threads': threads,
            'rate': rng.choice([.005, .02, .1, .3]),
            'sched': T.gen_sched(rng)}


def shrink(plan):
    us = plan['users']
    if len(us) > 2:
        for i in range(len(us)):
            if not any(u['src'] and u['src']['of'] >= i for u in us):
                yield dict(plan, users=us[:i] + us[i + 1:])
    if plan['threads']:
        yield dict(plan, threads=False)
        yield dict(plan, rate=.002)
    for i, u in enumerate(us):
        ops = u['ops']
        for k in range(len(ops)):
            new = ops[:k] + ops[k + 1:]
            if not c06.valid([o for o in new]):
                continue
            out = [dict(v, src=dict(v['src'], at=min(v['src']['at'], len(new))))
                   if v['src'] and v['src']['of'] == i else v for v in us]
            out[i] = dict(out[i], ops=new)
            yield dict(plan, users=out)
        for k, o in enumerate(ops):
            if o.get('cut'):
                new = ops[:k] + [{a: b for a, b in o.items() if a != 'cut'}] \
                    + ops[k + 1:]
                yield dict(plan, users=us[:i] + [dict(u, ops=new)] + us[i + 1:])


class User(c06.Actor):
    'One user of the library.'

    def __init__(self, spec, X):
        super().__init__(spec)
        self.X = X

    def copy(self, how):
        new = object.__new__(User)
        new.spec, new.X, new.N = self.spec, self.X, self.N
        new.elbo = new.sub = new.model = None
        if self.sub is not None:
            packed = self.sub.pack()
        else:
            packed = self.model, self.opt.state_dict()
        if how == 'deepcopy':
            packed = copy.deepcopy(packed)
        elif how == 'pickle':
            packed = pickle.loads(pickle.dumps(packed))
        else:
            f = io.BytesIO()
            torch.save(packed, f)
            f.seek(0)
            packed = torch.load(f, weights_only=False)
        if self.sub is not None:
            new.sub = type(self.sub).unpack(packed)
        else:
            new.model = packed[0]
            new._optim(packed[1])
        return new

    def end(self):
        'State and objective, after the whole history.'
        return self.state(), self.full()


def shared_data(users):
    'The data, given to all the users whose model can use it.'
    out = {}
    for u in users:
        s = u['spec']
        key = (zoo.is_discrete(s), s['dim'], s['data'], str(s['utts']),
               s['offset'])
        if key not in out:
            out[key] = zoo.data(s)
        yield out[key]


class Baton:
    'Runs threads one at a time; at lines of the library another may go on.'

    def __init__(self, rng, rate):
        import beer
        self.rng, self.rate = rng, rate
        self.home = os.path.dirname(os.path.abspath(beer.__file__)) + os.sep
        self.back = threading.Semaphore(0)
        self.files = {}
        self.live = {}
        self.switches = 0
        self.trace = []
        self.hush = False

    def start(self, name, fn):
        t = self.live[name] = {'go': threading.Semaphore(0), 'error': None}

        def main():
            t['go'].acquire()
            sys.settrace(self._global)
            try:
                fn()
            except BaseException as e:      # noqa: reported by the caller
                t['error'] = e
            finally:
                sys.settrace(None)
                t['done'] = True
                self.back.release()

        t['done'] = False
        t['thread'] = threading.Thread(target=main, daemon=True)
        t['thread'].start()

    def _inside(self, name):
        if name not in self.files:
            self.files[name] = os.path.abspath(name).startswith(self.home)
        return self.files[name]

    def _global(self, frame, event, arg):
        if event == 'call' and self._inside(frame.f_code.co_filename):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' and self.rng.random() < self.rate:
            self.pause((frame.f_code.co_name, frame.f_lineno))
        return self._local

    def pause(self, where):
        self.switches += 1
        if len(self.trace) < 400:
            self.trace.append((self.now, where))
        t = self.live[self.now]
        self.back.release()
        t['go'].acquire()

    def run(self, ready=lambda name: True):
        while True:
            names = [n for n, t in self.live.items() if not t['done'] and ready(n)]
            if not names:
                break
            self.now = self.rng.choice(names)
            t = self.live[self.now]
            t['go'].release()
            self.back.acquire()
            if t['done']:
                t['thread'].join()
                if t['error'] is not None:
                    raise t['error']


def interrupted(user, op):
    'An evaluation that fails somewhere; returns the place.'
    # The place is drawn among the lines a copy of the model executes.
    twin = user.copy('pickle')
    quiet = {k: v for k, v in op.items() if k != 'cut'}
    old = sys.gettrace()
    try:
        _, places = c16.traced(lambda: twin.do(quiet))
        at = c16.place(places, op['cut'])
        if at is None:
            return None
        exc = c16.EXCS[op['cut']['exc']](f'injected at {places[at]}')
        try:
            c16.traced(lambda: user.do(quiet), at, exc)
        except tuple(c16.EXCS.values()) as e:
            if e is not exc:
                raise
        return places[at]
    finally:
        sys.settrace(old)


def alone(plan, i):
    'What user `i` sees when nobody else uses the process.'
    u = plan['users'][i]
    X = list(shared_data(plan['users']))[i]

    def main():
        if u['src']:
            chain = lineage(plan, i)
            actor = User(chain[0][0]['spec'], X)
            for v, upto in chain:
                for op in v['ops'][:upto]:
                    if not op.get('cut'):
                        actor.do(op)
                actor = actor.copy('pickle')
        else:
            actor = User(u['spec'], X)
        obs = [None if op.get('cut') else actor.do(op) for op in u['ops']]
        return obs, actor.end()
    return main


def lineage(plan, i):
    'Users a copied model comes from, oldest first, with their progress.'
    out = []
    src = plan['users'][i]['src']
    while src:
        out.append((plan['users'][src['of']], src['at']))
        src = plan['users'][src['of']]['src']
    return out[::-1]


def together(plan, ctx, sim):
    users = plan['users']
    rng = core.rng_for(plan['seed'], 'interleaving')

    def main():
        X = list(shared_data(users))
        before = [[x.clone() for x in xs] for xs in X]
        actors, obs = {}, {i: [] for i in range(len(users))}
        ends, spans, clock, copies = {}, {}, [0], {}

        def born(i):
            src = users[i]['src']
            if src is None:
                return True
            return i in copies

        def give(i):
            'Copies to make of user `i` at this point.'
            for j, v in enumerate(users):
                if v['src'] and v['src']['of'] == i and \
                        v['src']['at'] == len(obs[i]) and j not in copies:
                    with quiet():
                        copies[j] = actors[i].copy(v['src']['how'])
                    ctx.probe('copied by ' + v['src']['how'])

        def quiet():
            return Quiet()

        def step(i):
            if i not in actors:
                with quiet():
                    actors[i] = copies[i] if users[i]['src'] else \
                        User(users[i]['spec'], X[i])
                spans[i] = [clock[0], None]
                give(i)
                return True
            ops = users[i]['ops']
            k = len(obs[i])
            clock[0] += 1
            if k == len(ops):
                if i not in ends:
                    ends[i] = actors[i].end()
                    spans[i][1] = clock[0]
                return False
            op = ops[k]
            if op.get('cut'):
                at = interrupted(actors[i], op)
                if at:
                    key = op['cut']['exc']
                    sim.fault_fired[key] = sim.fault_fired.get(key, 0) + 1
                    ctx.probe('interrupted')
                obs[i].append(None)
            else:
                obs[i].append(actors[i].do(op))
            give(i)
            return True

        if plan['threads']:
            baton = Baton(rng, plan['rate'])
            for i in range(len(users)):
                def life(i=i):
                    while step(i):
                        baton.pause('operation')
                baton.start(i, life)
            baton.run(born)
            ctx.probe('threads')
            ctx.note(baton.trace)
            sim.switches += baton.switches
        else:
            while True:
                live = [i for i in range(len(users)) if i not in ends and born(i)]
                if not live:
                    break
                i = rng.choice(live)
                step(i)
                sim.switches += 1
                ctx.note(i)
        for xs, ys in zip(X, before):
            check(all(torch.equal(a, b) for a, b in zip(xs, ys)),
                  'data-changed', 'the data given to the models changed')
        ctx.nontrivial |= any(
            spans[i][0] < spans[j][1] and spans[j][0] < spans[i][1]
            for i in ends for j in ends if i < j)
        # The others are finished: this is the state that counts.
        return obs, {i: (ends[i], actors[i].end()) for i in ends}
    return main


class Quiet:
    'No thread runs meanwhile (random numbers are drawn).'

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(None)

    def __exit__(self, *exc):
        sys.settrace(self.old)


def run(plan, ctx):
    users = plan['users']
    with zoo.double(), core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], []) as sim:
        refs = []
        for i in range(len(users)):
            p = sim.spawn(f'alone{i}', alone(plan, i))
            sim.run()
            c06.done(p)
            refs.append(p.value)
        p = sim.spawn('together', together(plan, ctx, sim))
        sim.run()
        c06.done(p)
        obs, ends = p.value
        for i, (robs, rend) in enumerate(refs):
            u = users[i]
            what = f'user {i} ({u["spec"]["family"]}' + \
                (f', copy of {u["src"]["of"]})' if u['src'] else ')')
            for k, (op, a, b) in enumerate(zip(u['ops'], robs, obs[i])):
                if not op.get('cut'):
                    same(a, b, f'result-differs:{op["op"]}',
                         f'{what} operation {k}')
            for when, end in zip(('after its history', 'after the others ended'),
                                 ends[i]):
                with expect('state'):
                    L.compare_states(rend[0], end[0], TOL,
                                     'parameters-differ', f'{what} {when}')
                same(rend[1], end[1], 'objective-differs', f'{what} {when}')
            ctx.probe(u['spec']['family'])
        ctx.note([(u['spec']['family'], [o['op'] for o in u['ops']], u['src'])
                  for u in users])
        ctx.absorb(sim)


def same(a, b, kind, what):
    if isinstance(a, list):
        check(len(a) == len(b), kind, what)
        for x, y in zip(a, b):
            same(x, y, kind, what)
        return
    if a is None and b is None:
        return
    if not np.any(a) and not np.any(b):
        return
    e = L.relerr(a, b)
    check(e <= TOL, kind, lambda: f'{what}: differ by {e:.3g}\nexpected {a}\n     got {b}')
