"""C09: subspace training in several runs equals one continuous run."""
import os
import pickle

import numpy as np
import torch

from .. import core, cli, lab as L, train as T
from ..engine import check, expect

ID = 'C09'
QUICK, THOROUGH = (500, 240), (6000, 850)
RULE = ('A run builds one phone-loop (or two, one per language), optionally '
        'trains it for an epoch, makes the (hierarchical) subspace model from '
        'it and trains it through phases (with their own options and optimizer '
        'state), optionally with accumulate/update epochs in between: once '
        'with each phase in one command, once with each phase cut in several '
        'commands that hand over files and the random stream, killed and '
        'repeated. All the files, the optimizer state and the reported '
        'objective must agree; frozen parts must be bit-identical and trained '
        'ones must have moved. Non-trivial: at least one phase was cut; '
        'distinct by model, phases, cuts and faults.')
REAL = ['beer shmm/hshmm commands, GSM models, VBOptimizer, torch optimizers',
        'pickle/torch serialisation on scratch files', 'beer hmm commands']
STUB = ['process scheduling and death, uuid4, initial RNG state, directory '
        'order (simulator)']
ASSUMPTIONS = ['the random stream of a command continues that of the previous '
               'one (state handed over by the simulator)',
               'the optimizer state file is restored before a killed command '
               'is run again']
TOL = 1e-4


def gen_phase(rng, kind):
    ph = {'epochs': rng.randint(1, 5), 'k': rng.choice([1, 1, 2, 3]),
          'n': rng.choice([1, 1, 2]), 's': rng.choice([.1, .05, .01]),
          'c': rng.choice([1., 1., .5, .1]), 'em': rng.random() < .3}
    if kind == 'hshmm':
        ph['u'] = rng.choice([1, 1, 2])
        ph['flags'] = [f for f in ('-p', '-a', '-b') if rng.random() < .3]
        if rng.random() < .25:
            ph['flags'].append('--sgd')
        ph['clip'] = rng.choice([None, None, .5, 20.])
        if '--sgd' in ph['flags']:
            ph['clip'], ph['s'] = rng.choice([.5, 2.]), .01
    else:
        ph['flags'] = ['-p'] if rng.random() < .35 else []
    n = ph['epochs']
    ph['carry'] = rng.random() < .6
    ph['cuts'] = sorted(rng.sample(range(1, n), min(n - 1, rng.randint(1, 2)))) \
        if n > 1 else []
    return ph


def generate(rng, index, tier):
    kind = rng.choice(['shmm', 'shmm', 'shmm', 'classes', 'hshmm', 'hshmm'])
    scn = L.gen_scenario(rng, nutts=rng.randint(1, 3) if rng.random() < .95 else 11,
                         minlen=6, maxlen=9,
                         maxunits=4)
    if kind == 'hshmm':
        # A single group: every unit takes part.
        scn['groups'] = scn['groups'][:1]
        scn['units'] = [[u, scn['groups'][0]['name']] for u, _ in scn['units']]
        scn['startend'] = None
    m = max(g['nstates'] for g in scn['groups'])
    scn['utts'] = [[u, max(n, m)] for u, n in scn['utts']]
    phases = [gen_phase(rng, kind) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    nseg = sum(len(p['cuts']) + 1 for p in phases)
    faults = []
    for i in range(nseg):
        if rng.random() < .35:
            faults.append({'proc': f'seg{i}#0', 'kind': 'kill',
                           'pos': round(rng.random() * 1.05, 3),
                           'frac': round(rng.random(), 2)})
        if rng.random() < .15:
            faults.append({'proc': f'seg{i}#0',
                           'kind': rng.choice(T.SOFTKINDS), 'n': rng.randint(0, 20),
                           'frac': round(rng.random(), 2), 'delay': 60.})
    return {'kind': kind, 'scn': scn, 'pre': rng.random() < .5,
            'group': rng.randrange(len(scn['groups'])),
            'latdim': rng.choice([1, 2, 3]), 'dim2': rng.choice([1, 2, 3]),
            'nclasses': rng.choice([1, 2]), 'extra': rng.randint(0, 1),
            'init': rng.random() < .3, 'rng': rng.getrandbits(30),
            'phases': phases, 'faults': faults, 'sched': T.gen_sched(rng)}


def shrink(plan):
    ph = plan['phases']
    if len(ph) > 1:
        yield dict(plan, phases=ph[:1])
        yield dict(plan, phases=ph[1:])
    if any(p['em'] for p in ph):
        yield dict(plan, phases=[dict(p, em=False) for p in ph])
    for i, p in enumerate(ph):
        for c in p['cuts']:
            yield dict(plan, phases=ph[:i] + [dict(p, cuts=[x for x in p['cuts']
                                                            if x != c])] + ph[i + 1:])
        if p['epochs'] > 2 and p['cuts']:
            yield dict(plan, phases=ph[:i] + [dict(p, epochs=2, cuts=[1])] + ph[i + 1:])
        if p['flags']:
            yield dict(plan, phases=ph[:i] + [dict(p, flags=[])] + ph[i + 1:])
    for i, p in enumerate(ph):
        if p['carry']:
            yield dict(plan, phases=ph[:i] + [dict(p, carry=False)] + ph[i + 1:])
    if plan['pre']:
        yield dict(plan, pre=False)
    if plan['init']:
        yield dict(plan, init=False)


# ---------------------------------------------------------------------------

def module_state(mod):
    'Everything numeric that a stored module holds.'
    out = {k: v.detach().double().numpy().copy()
           for k, v in mod.state_dict().items()}
    for name, m in mod.named_modules():
        v = vars(m).get('pdfvec', m._buffers.get('pdfvec') if hasattr(m, '_buffers')
                        else None)
        if isinstance(v, torch.Tensor):
            out[name + '.pdfvec'] = v.detach().double().numpy().copy()
    return out


def drop_stats(state):
    return {k: v for k, v in state.items()
            if not k.endswith('stats') and 'kl_div' not in k}


def same(a, b, tol, kind, what):
    check(sorted(a) == sorted(b), kind, f'{what}: entries differ')
    for k in a:
        e = L.relerr(a[k], b[k])
        check(e <= tol, kind, lambda: f'{what}.{k}: relative difference {e:.3g}')


def moved(a, b):
    return any(L.relerr(a[k], b[k]) > 0 for k in a if k in b)


class Files:
    'Names of the files of one state of the training.'

    def __init__(self, kind, lab, tag):
        self.kind, self.lab, self.tag = kind, lab, tag

    def gsm(self):
        return self.lab(f'gsm{self.tag}')

    def posts(self):
        return self.lab(f'posts{self.tag}')

    def sploop(self):
        return self.lab(f'{self.tag}.mdl')

    def lang(self, lang):
        return self.sploop() + (f'_{lang}' if self.kind == 'hshmm' else '')

    def load(self, langs):
        'The parts of the stored state: name -> arrays.'
        out = {}
        with expect(f'files of state {self.tag}'):
            gsm = L.load(self.gsm())
            posts = L.load(self.posts())
            if self.kind == 'hshmm':
                out['root'] = module_state(gsm['root'])
                for lang in langs:
                    tr = gsm['langs'][lang].transform
                    out[f'langpost {lang}'] = module_state(tr.latent_posterior)
                    out[f'langprior {lang}'] = module_state(tr.latent_prior)
                    out[f'unitprior {lang}'] = \
                        module_state(gsm['langs'][lang].latent_prior)
                    # The transform of every language is that of the root.
                    for a in ('weights', 'bias'):
                        same(module_state(getattr(gsm['root'].shared_transform, a)),
                             module_state(getattr(tr.root_transform, a)), 0.,
                             'root-not-shared', f'{lang}.{a}')
                    out[f'posts {lang}'] = module_state(posts[0][lang])
                    out[f'mdl {lang}'] = module_state(L.load(self.lang(lang)))
                    both = L.load(self.sploop())
                    same(module_state(both[lang]), out[f'mdl {lang}'], 0.,
                         'copies-differ', f'phone-loop of {lang}')
                meta = [len(posts[1][lang]) for lang in langs] + list(posts[2:])
            else:
                out['gsm'] = module_state(gsm)
                out['posts'] = module_state(posts[0])
                out['mdl '] = module_state(L.load(self.sploop()))
                meta = list(posts[1:4])
                if len(posts) > 4:
                    meta.append(posts[4].tolist())
        return out, meta


def run(plan, ctx):
    kind, scn = plan['kind'], plan['scn']
    hs = kind == 'hshmm'
    langs = ['l1', 'l2'] if hs else ['']
    with core.Scratch() as root, \
            core.Sim(plan['seed'], root, plan['sched'], plan['faults']) as sim:
        lab = L.Lab(sim, root, scn, ctx)
        lab.dataset()
        # The starting phone-loops.
        for i, lang in enumerate(langs):
            sub = dict(scn)
            if i and plan['extra']:
                sub['units'] = scn['units'] + [['xx', scn['groups'][0]['name']]]
            lab.scn = sub
            lab.inputs(fea=False)
            lab.model(lang)
            mdl = '0.mdl'
            if plan['pre']:
                lab.beer(f'pre{lang}', lab.acc_argv('0.mdl', 'pre'),
                         L.stdin_utts([u for u, _ in scn['utts']]))
                lab.beer(f'preupd{lang}', lab.upd_argv('0.mdl', '1.mdl'),
                         lab('pre') + '\n')
                mdl = '1.mdl'
            L.write(lab(f'ploop{lang}'), L.read_bytes(lab(mdl)))
        lab.scn = scn
        start = Files(kind, lab, 'start')
        mk = [kind if hs else 'shmm', 'mksphoneloop', '-g',
              scn['groups'][plan['group'] if not hs else 0]['name'],
              '-l', plan['latdim']]
        if hs:
            L.write(lab('map'), ''.join(f'{lab("ploop" + g)} {g}\n' for g in langs))
            mk += ['-t', plan['dim2'], lab('conf.yml'), lab('map')]
        else:
            if kind == 'classes':
                L.write(lab('classes'), ''.join(
                    f'{u} c{i % plan["nclasses"]}\n' for i, (u, g) in
                    enumerate(scn['units'])
                    if g == scn['groups'][plan['group']]['name']))
                mk += ['-c', lab('classes'), '-d', plan['dim2']]
            mk += [lab('conf.yml'), lab('ploop')]
        lab.beer('mksp', mk + [start.gsm(), start.posts(), start.sploop()])
        if plan['init'] and kind == 'shmm':
            lab.beer('init', ['shmm', 'init', start.gsm(), start.posts(),
                              start.sploop(), lab('tmp')])
            L.write(start.sploop(), L.read_bytes(lab('tmp')))
        ploops = {lang: module_state(L.load(lab(f'ploop{lang}'))) for lang in langs}
        first, meta0 = start.load(langs)
        # Only the emissions of the chosen units may differ from the phone-loop.
        for lang in langs:
            sp = first[f'mdl {lang}']
            for k, v in ploops[lang].items():
                if k in sp and k.endswith('stats') is False:
                    check(L.relerr(v, sp[k]) == 0, 'foreign-part-changed',
                          f'mksphoneloop changed {k}')

        def em(src, tag, name):
            'Accumulate and update the phone-loops of a state in place.'
            for lang in langs:
                keep = L.load(src.lang(lang))
                p = lab.beer(f'{name}acc{lang}', ['hmm', 'accumulate', src.lang(lang),
                                                  lab('ds.pkl'), lab('st')],
                             L.stdin_utts([u for u, _ in scn['utts']]))
                lab.beer(f'{name}upd{lang}', ['hmm', 'update', src.lang(lang),
                                              lab(f'em{tag}{lang}')],
                         lab('st') + '\n')
            if hs:
                L.write(lab(f'em{tag}'), '')
            return lab(f'em{tag}')

        def train(name, ph, epochs, src, dst, sploop, optim, rngstate):
            'One training command, repeated when it was killed.'
            argv = ['-d', kind if hs else 'shmm', 'train', '-e', epochs,
                    '-k', ph['k'], '-n', ph['n'], '-c', ph['c'], '-s', ph['s'],
                    '-o', optim, '-r', 1] + ph['flags']
            if hs:
                argv += ['-u', ph['u']]
                if ph['clip'] is not None:
                    argv += ['--clip-grad', ph['clip']]
                smap = lab('smap')
                L.write(smap, ''.join(f'{sploop}{"" if sploop == src.sploop() else ""}'
                                      f'{"_" if sploop == src.sploop() else ""}{g} {g}\n'
                                      for g in langs))
                sploop = smap
            argv += [src.gsm(), src.posts(), sploop, dst.gsm(), dst.posts(),
                     dst.sploop()]
            keep = L.read_bytes(optim) if os.path.exists(optim) else None
            for k in range(3):
                p = lab.beer(f'{name}#{k}', argv, must=False, rngstate=rngstate)
                if p.ok or not p.tainted:
                    break
                ctx.probe('training killed')
                if keep is not None:
                    L.write(optim, keep)
                elif os.path.exists(optim):
                    core._orig['remove'](optim)
            lab.must(p)
            return p

        def reported(p):
            for x in reversed(p.logs if isinstance(p.logs, list) else
                              str(p.logs).splitlines()):
                x = str(x)
                if 'finished training' in x:
                    return float(x.split('elbo=')[1].split()[0].strip("'\",)]"))
            check(False, 'no-report', 'objective not reported')

        g = torch.Generator()
        g.manual_seed(plan['rng'])
        results = {}
        for mode in ('one', 'cut'):
            src, state = start, first
            rngstate = (g.get_state(), np.random.RandomState(1).get_state(),
                        __import__('random').Random(1).getstate())
            seg = 0
            res = []
            for i, ph in enumerate(plan['phases']):
                n = ph['epochs']
                bounds = [0] + (ph['cuts'] if mode == 'cut' else []) + [n]
                optim = lab(f'optim.{mode}{i}')
                n0 = 0
                if i and ph['carry'] and compatible(hs, plan['phases'][i - 1], ph):
                    # The phase goes on with the state of the previous one.
                    L.write(optim, L.read_bytes(lab(f'optim.{mode}{i - 1}')))
                    n0 = count
                    ctx.probe('optimizer state of the previous phase')
                sploop = None
                if ph['em']:
                    sploop = em(src, f'{mode}{i}', f'em{mode}{i}')
                begin = state
                for a, b in zip(bounds, bounds[1:]):
                    dst = Files(kind, lab, f'{mode}{i}.{b}')
                    name = f'seg{seg}' if mode == 'cut' else f'one{i}'
                    before = {f: L.read_bytes(f) for f in (src.gsm(), src.posts())}
                    p = train(name, ph, b - a, src, dst, sploop or src.sploop(),
                              optim, rngstate)
                    for f, data in before.items():
                        check(L.read_bytes(f) == data, 'input-changed', f)
                    rngstate = p.rngstate()
                    src, sploop = dst, None
                    seg += mode == 'cut'
                    ctx.nontrivial |= mode == 'cut' and len(bounds) > 2
                state, meta = src.load(langs)
                check(meta == meta0, 'meta-data', f'{meta0} became {meta}')
                bad = [f'{part}.{k}' for part, x in state.items()
                       for k, v in x.items() if np.isnan(v).any()]
                if bad:
                    ctx.probe('diverged')
                    break
                check_phase(ph, kind, langs, begin, state, ctx)
                with expect('optimizer state'):
                    opt = torch.load(optim)
                    count = opt['cjg_optim']['update_count']
                    check(count == n0 + n, 'optimizer-state',
                          f'{opt["cjg_optim"]} after {n0} + {n} epochs')
                res.append((state, opt, reported(p)))
            results[mode] = res
        for i, (x, y) in enumerate(zip(results['one'], results['cut'])):
            for part in x[0]:
                same(x[0][part], y[0][part], TOL, 'segmented-differs',
                     f'phase {i}: {part}')
            check(L.relerr(x[2], y[2]) <= TOL, 'objective-differs',
                  f'phase {i}: {x[2]} in one run, {y[2]} in pieces')
            sx, sy = flat(x[1]), flat(y[1])
            same(sx, sy, TOL, 'optimizer-state-differs', f'phase {i}')
            for part, st in x[0].items():
                for k, v in st.items():
                    if 'prior' in k and 'cov' in k:
                        check(np.isfinite(v).all(), 'non-finite', f'{part}.{k}')
        ctx.probe(kind)
        ctx.note(kind, plan['group'], plan['latdim'],
                 [(p['epochs'], p['cuts'], p['flags'], p['em'])
                  for p in plan['phases']])
        ctx.absorb(sim)


def compatible(hs, a, b):
    'The optimizer of phase b can load the state of phase a.'
    flag = '--sgd' if hs else '-p'
    return (flag in a['flags']) == (flag in b['flags'])


def flat(obj, path='', out=None):
    out = {} if out is None else out
    if isinstance(obj, dict):
        for k, v in obj.items():
            flat(v, f'{path}.{k}', out)
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            flat(v, f'{path}.{i}', out)
    elif isinstance(obj, torch.Tensor):
        out[path] = obj.detach().double().numpy()
    elif isinstance(obj, (int, float, bool)):
        out[path] = float(obj)
    return out


def check_phase(ph, kind, langs, a, b, ctx):
    'Frozen parts are untouched, the others moved.'
    frozen, trained = [], []
    if kind == 'hshmm':
        (frozen if '-p' in ph['flags'] else trained).append('root')
        for lang in langs:
            (frozen if '-a' in ph['flags'] else trained).append(f'langpost {lang}')
            (frozen if '-b' in ph['flags'] else trained).append(f'posts {lang}')
            if '-p' in ph['flags']:
                frozen.append(f'unitprior {lang}')
    else:
        (frozen if '-p' in ph['flags'] else trained).append('gsm')
        trained.append('posts')
    for part in frozen:
        x, y = drop_stats(a[part]), drop_stats(b[part])
        same(x, y, 0., 'frozen-part-changed', f'{part} with {ph["flags"]}')
        ctx.probe('frozen part')
    # The units saw data (otherwise the subspace has nothing to explain).
    seen = any(np.abs(v).max() > 1e-3 for lang in langs
               for k, v in b[f'mdl {lang}'].items() if k.endswith('.stats')
               and k[:-len('stats')] + 'pdfvec' in b[f'mdl {lang}'])
    for part in trained:
        if part in ('gsm', 'root') and not seen:
            ctx.probe('units without data')
            continue
        x = {k: v for k, v in drop_stats(a[part]).items() if 'prior' not in k}
        check(moved(x, b[part]), 'not-trained', f'{part} with {ph["flags"]}')
    for lang in langs:
        x, y = a[f'mdl {lang}'], b[f'mdl {lang}']
        check(sorted(x) == sorted(y), 'foreign-part-changed', 'entries')
        if not ph['em']:
            for k in x:
                if not k.endswith('pdfvec') and not k.endswith('stats'):
                    check(L.relerr(x[k], y[k]) == 0, 'foreign-part-changed',
                          f'training changed {k} of the phone-loop')
