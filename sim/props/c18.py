"""C18: construction commands build exactly the described model."""
import os
import re
import unicodedata

import numpy as np
import torch

from .. import core, cli, lab as L, ref, train as T
from ..engine import check, expect

ID = 'C18'
QUICK, THOROUGH = (810, 240), (12000, 800)
RULE = ('A run writes a configuration (1-3 groups, any topology with one entry '
        'and one exit state: loops, skips, backward arcs, arcs and groups in '
        'any order), a unit list (groups interleaved) and features, and '
        'performs 1-3 concurrent constructions from them in one directory, '
        'each with its own options, in 1-2 generations of the files (the '
        'second over the files of the first), with kills, I/O faults, short '
        'transfers and reruns; ready commands start in a drawn order. '
        'Non-trivial: two commands overlapped, a fault fired or a second '
        'generation; distinct by interleaving, options and faults.')
REAL = ['beer hmm mkphones, mkphoneloopgraph, mkdecodegraph, mkphoneloop, '
        'mkphoneloopbigram, mkaligraph, phonelist; features archive, dataset '
        'create', 'beer graph, HMM, mixture and weight models', 'yaml, pickle '
        'and numpy I/O on scratch files']
STUB = ['process scheduling and death, file system errors and latency, uuid4, '
        'initial RNG state, directory order, callback order (simulator)']
ASSUMPTIONS = ['each unit has one entry and one exit emitting state, two '
               'emitting states at least and no arc back from the last', 'every group has a unit',
               'one covariance type per model']
KINDS = ['kill', 'kill', 'eio_read', 'eio_open', 'enospc', 'eio_write',
         'close_err', 'nomem'] + T.SOFTKINDS
NAMES = ['sil', 'a', 'b', 'au2', 'x1', 'zz', 'au10', 'B', 'au1', 'é', 'sil_',
         'a0', 'A', '#2', 'spn', '10', '9', 'aa', 'x10', '</w>', 'ab', '0']
GROUPS = ['non-speech-unit', 'speech-unit', 'other', 'Speech-unit', 'g']


# ---------------------------------------------------------------------------
# Plans

def gen_group(rng, name, cov):
    n = rng.choice([2, 2, 3, 3, 4, 5])
    arcs = [[0, 1, 1.]]
    for s in range(1, n + 1):
        out = {s: rng.choice([.5, .5, .75, .25, .9, .05]), s + 1: 1.}
        if s + 2 <= n and rng.random() < .25:
            out[s + 2] = rng.choice([.5, .1])
        if 1 < s < n and rng.random() < .2:          # backward
            out[rng.randint(1, s - 1)] = rng.choice([.1, .25])
        rest = 1. - out[s]
        tot = sum(w for e, w in out.items() if e != s)
        unit = rng.choice([1., 1., 1., 1., 4.])      # probabilities or counts
        arcs += [[s, e, unit * (out[s] if e == s else rest * w / tot)]
                 for e, w in out.items()]
    rng.shuffle(arcs)
    return {'name': name, 'ncomp': rng.choice([1, 1, 2, 3, 4]),
            'strength': rng.choice([1., 1., 2., 7.5, .5 if cov != 'full' else 3.]),
            'noise': rng.choice([.1, .5, 1., 1., 0.]), 'cov': cov,
            'nstates': n, 'arcs': arcs, 'style': rng.randrange(4)}


def gen_variant(rng, groups, units, k):
    n = len(units)
    ali = {}
    for i in range(rng.randint(1, 3)):
        ali[f'utt{i}'] = [rng.choice(units)[0] for _ in range(rng.choice(
            [0, 1, 1, 2, 3, 6]))]
    if not any(ali.values()):
        ali['utt0'] = [units[-1][0]]
    names = [u for u, _ in units]
    twins = [(a, b) for a in names for b in names if a + b in names]
    if twins and rng.random() < .7:       # the same without spaces
        a, b = rng.choice(twins)
        ali['twin1'], ali['twin2'] = rng.sample([[a, b], [a + b]], 2)
    if rng.random() < .3:                 # the same units in another order
        q = rng.sample(names, min(3, len(names)))
        ali['back1'], ali['back2'] = q, q[::-1]
    return {'seed': rng.choice([None, rng.randint(0, 1000), rng.randint(0, 1000)]),
            'dim': rng.choice([None, None, 1, 4]), 'share': k > 0 and rng.random() < .4,
            'weights': rng.choice(L.PRIORS + [None]),
            'conc': rng.choice([None, None, 1., 3., .25]),
            'startend': rng.choice([None, rng.choice(groups)['name']]),
            'bigram': rng.choice([None, 'dirichlet2',
                                  'hierarchical_dirichlet_process']),
            'ali': ali}


def generate(rng, index, tier):
    cov = rng.choice(L.COVS)
    gens = []
    base = None
    for g in range(rng.choice([1, 1, 2])):
        if base and rng.random() < .5:
            groups = [dict(x) for x in base]
            for x in groups:
                if rng.random() < .5:
                    x.update(gen_group(rng, x['name'], cov))
        else:
            groups = [gen_group(rng, name, cov) for name in
                      rng.sample(GROUPS, rng.choice([1, 2, 2, 3]))]
        rng.shuffle(groups)
        base = groups
        n = rng.randint(max(2, len(groups)), rng.choice([4, 6, 12]))
        names = rng.sample(NAMES, n)
        units = [[u, (groups[i] if i < len(groups) else rng.choice(groups))['name']]
                 for i, u in enumerate(names)]
        rng.shuffle(units)
        gens.append({'groups': groups, 'units': units, 'lines': rng.randrange(4),
                     'variants': [gen_variant(rng, groups, units, k) for k in
                                  range(rng.choice([1, 2, 2, 3]))]})
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        g = rng.randrange(len(gens))
        v = rng.randrange(len(gens[g]['variants']))
        task = rng.choice(['phones', 'graph', 'decode', 'loop', 'bigram', 'ali', 'list'])
        faults.append({'proc': f'{task}.{g}.{v}#{rng.choice([0, 0, 0, 1])}',
                       'kind': rng.choice(KINDS), 'delay': 3600.,
                       'pos': round(rng.random() * 1.02, 3),
                       'frac': round(rng.random(), 2)})
    return {'data': rng.getrandbits(31), 'fdim': rng.choice([1, 2, 2, 3, 5]),
            'dtype': rng.choice(['float32', 'float64']),
            'offset': rng.choice([0., 0., 3., -20.]),
            'lens': [rng.randint(3, 30) for _ in range(rng.randint(1, 4))] + [12],
            'gens': gens, 'faults': faults, 'order': rng.getrandbits(30),
            'stale': rng.random() < .25, 'sched': T.gen_sched(rng)}


def shrink(plan):
    gens = plan['gens']
    if len(gens) > 1:
        yield dict(plan, gens=gens[:1])
        yield dict(plan, gens=gens[1:])
    for i, g in enumerate(gens):
        def put(**kw):
            return dict(plan, gens=[dict(x, **kw) if j == i else x
                                    for j, x in enumerate(gens)])
        if len(g['variants']) > 1:
            yield put(variants=g['variants'][:-1])
            yield put(variants=[dict(v, share=False) for v in g['variants'][1:]])
        for k, v in enumerate(g['variants']):
            def putv(**kw):
                return put(variants=[dict(x, **kw) if j == k else x
                                     for j, x in enumerate(g['variants'])])
            for key, val in (('bigram', None), ('conc', None), ('dim', None),
                             ('startend', None), ('weights', 'dirichlet')):
                if v[key] != val:
                    yield putv(**{key: val})
            if len(v['ali']) > 1:
                full = {u: q for u, q in v['ali'].items() if q}
                yield putv(ali=dict(list(full.items())[:1]))
        keep = g['units'][:-1]
        if len(keep) > 1 and {x for _, x in keep} == {x['name'] for x in g['groups']}:
            left = {u for u, _ in keep}
            yield put(units=keep, variants=[
                dict(v, ali={u: [x for x in q if x in left] or [keep[0][0]]
                             for u, q in v['ali'].items()}) for v in g['variants']])
        if any(x['ncomp'] > 1 for x in g['groups']):
            yield put(groups=[dict(x, ncomp=1) for x in g['groups']])
    if plan['stale']:
        yield dict(plan, stale=False)
    if plan['offset']:
        yield dict(plan, offset=0.)


# ---------------------------------------------------------------------------
# Inputs

def features(plan):
    out = {}
    for k, n in enumerate(plan['lens']):
        r = np.random.RandomState((plan['data'] + 7919 * k) % (2**32 - 1))
        x = r.randn(n, plan['fdim']) * (1. + np.arange(plan['fdim'])) + plan['offset']
        out[f'utt{k}'] = x.astype(plan['dtype'])
    return out


def conf_text(gen):
    out = []
    for g in gen['groups']:
        num = (lambda v: str(int(v)) if g['style'] & 1 and v == int(v) else
               repr(float(v)))
        fields = [f"group_name: {g['name']}", f"n_normal_per_state: {g['ncomp']}",
                  f"prior_strength: {num(g['strength'])}",
                  f"noise_std: {num(g['noise'])}", f"cov_type: {g['cov']}",
                  'shared_cov: no']
        arcs = 'topology:' + ''.join(
            f'\n  - {{start_id: {a}, end_id: {b}, trans_prob: {num(w)}}}'
            if g['style'] < 3 else
            f'\n  - trans_prob: {num(w)}\n    end_id: {b}\n    start_id: {a}'
            for a, b, w in g['arcs'])
        fields = [arcs] + fields if g['style'] & 2 else fields + [arcs]
        out.append('- ' + '\n  '.join(fields) + '\n')
    return ''.join(out)


def units_text(gen):
    sep = ['%s %s\n', '%s\t%s\n', '  %s   %s \n', '%s %s\n'][gen['lines']]
    text = ''.join(sep % (u, g) for u, g in gen['units'])
    return text[:-1] if gen['lines'] == 3 else text


# ---------------------------------------------------------------------------
# The described model

def group_of(gen):
    by = {g['name']: g for g in gen['groups']}
    return {u: by[g] for u, g in gen['units']}


def unit_graph(g):
    'Transition probabilities within a unit and out of its last state.'
    n = g['nstates']
    w = np.zeros((n + 2, n + 2))
    for a, b, p in g['arcs']:
        w[a, b] += p
    w[:-1] /= w[:-1].sum(1, keepdims=True)
    return w[1:-1, 1:-1], w[n, n + 1]


def close(a, b, kind, what, tol=1e-4, atol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, kind, lambda: f'{what}: shapes {a.shape}, {b.shape}')
    bad = ~np.isclose(b, a, rtol=tol, atol=atol)
    check(not bad.any(), kind, lambda: f'{what} at {np.argwhere(bad)[:4].tolist()}'
          f'\nexpected {a[bad][:6]}\n     got {b[bad][:6]}')


def probs(x):
    return np.exp(np.asarray(x, float))


def verify_aligraph(gen, start, seq, graph, what):
    kind = 'alignment-graph'
    got = ref.extract_graph(graph)
    blocks, pdfs, exits = [], [], []
    for u in seq:
        w, out = unit_graph(group_of(gen)[u])
        pdfs += [start[u] + k for k in range(len(w))]
        blocks.append(w)
        exits.append(out)
    n = len(pdfs)
    tr = np.zeros((n, n))
    init, final = np.zeros(n), np.zeros(n)
    init[0] = final[-1] = 1.
    i = 0
    for k, w in enumerate(blocks):
        m = len(w)
        tr[i:i + m, i:i + m] = w
        if k + 1 < len(blocks):
            tr[i + m - 1, i + m] = exits[k]
        i += m
    check(got['map'].tolist() == pdfs, kind, lambda:
          f'{what}: states {got["map"].tolist()}, expected {pdfs}')
    close(init, probs(got['init']), kind, what + ' init')
    close(final, probs(got['final']), kind, what + ' final')
    close(tr, probs(got['trans']), kind, what + ' transitions')


def verify_units(gen, units, emissions, truth, start=None):
    'Unit HMMs: topology, own pdfs, of the right group.  Returns unit -> first pdf.'
    kind = 'units'
    grp = group_of(gen)
    check(sorted(units) == sorted(grp), kind, lambda:
          f'units {sorted(units)}, expected {sorted(grp)}')
    first = {}
    total = sum(g['nstates'] for g in grp.values())
    check(len(emissions) == total, kind, lambda:
          f'{len(emissions)} densities for {total} states')
    seen = {}
    for u, graph in units.items():
        g = grp[u]
        with expect(kind + ':compile'):
            got = ref.extract_graph(graph.compile())
        n = g['nstates']
        check(len(got['map']) == n, kind, lambda: f'{u}: {len(got["map"])} states')
        first[u] = int(got['map'][0])
        check(got['map'].tolist() == list(range(first[u], first[u] + n)), kind,
              lambda: f'{u}: densities {got["map"].tolist()}')
        for p in got['map'].tolist():
            check(p not in seen, kind, lambda: f'density {p}: {u}, {seen[p]}')
            seen[p] = u
    check(sorted(seen) == list(range(total)), kind, lambda:
          f'densities {sorted(seen)} of {total}')
    return first


def verify_emissions(gen, first, groups, truth, dists):
    '''groups: emission groups as extracted; every density belongs to one whose
    parameters are those of the configuration of its unit.'''
    kind = 'emissions'
    grp = group_of(gen)
    mean, var = truth
    dim = len(mean)
    where = [(i, k) for i, g in enumerate(groups)
             for k in range(len(g['wpost']['concentrations']))]
    by = {}
    for u, p in first.items():
        for k in range(grp[u]['nstates']):
            by.setdefault(where[p + k][0], []).append((u, where[p + k][1]))
    for i, g in enumerate(groups):
        owners = by.get(i, [])
        confs = {grp[u]['name'] for u, _ in owners}
        check(len(confs) == 1, kind, lambda:
              f'densities of group {i} are used by the groups {sorted(confs)}')
        c = grp[owners[0][0]]
        n, s = c['ncomp'], float(c['strength'])
        rows = len(owners)
        want = np.full((rows, n), s / n)
        for part in ('wprior', 'wpost'):
            close(want, g[part]['concentrations'], kind,
                  f'{c["name"]}: mixture weights ({part})')
        fam = {'diagonal': 'NormalGamma', 'isotropic': 'IsotropicNormalGamma',
               'full': 'NormalWishart'}[c['cov']]
        check(g['family'] == fam, kind, f'{c["name"]}: {g["family"]} for {c["cov"]}')
        size = rows * n
        want = {'mean': np.tile(mean, (size, 1)), 'scale': np.full((size, 1), s)}
        if fam == 'NormalWishart':
            want['dof'] = np.full((size, 1), s + dim - 1)
            want['scale_matrix'] = np.tile(np.diag(1 / var) / (s + dim - 1),
                                           (size, 1, 1))
        else:
            want['shape'] = np.full((size, 1), s)
            if fam == 'NormalGamma':
                want['rates'] = np.tile(s * var, (size, 1))
            else:
                want['rate'] = np.full((size, 1), s * var.max())
        sd = np.sqrt(var)
        for part in ('prior', 'post'):
            check(sorted(g[part]) == sorted(want), kind, lambda: f'{sorted(g[part])}')
            for k in want:
                if k == 'mean' and part == 'post':
                    continue
                # Parameters were stored in natural form, single precision:
                # cancellation in mean ** 2 + var.
                amp = 1 + float((mean ** 2 / var).max())
                scale = max(1e-6, np.abs(want[k]).max())
                close(want[k] / scale, g[part][k] / scale, kind,
                      f'{c["name"]}: {part} {k} ({c["cov"]})',
                      1e-4 * amp, 2e-6 * amp)
        noise = (g['post']['mean'] - mean) / sd
        bound = 1e-5 * (1 + np.abs(mean / sd).max())
        if not c['noise']:
            check(np.abs(noise).max() <= bound, kind, lambda:
                  f'{c["name"]}: posterior means away from the prior without noise')
            continue
        z = noise / c['noise']
        check(np.isfinite(z).all() and np.abs(z).max() < 7.5, kind, lambda:
              f'{c["name"]}: initial means {np.abs(z).max():.1f} deviations away')
        dists.append(z.ravel())
        flat = np.sort(z.ravel())
        check((np.diff(flat) > 0).all() or bound > 1e-4 * c['noise'], kind, lambda:
              f'{c["name"]}: components start at the same place')


def stick_mean(conc, n):
    v = np.full(n, 1. / (1. + conc))
    out = v.copy()
    out[1:] *= np.cumprod(1 - v)[:-1]
    return out


def hier(n, rootconc, conc):
    m = stick_mean(rootconc, n)
    prior = np.stack([conc * m, conc * (1 - m.cumsum())], -1)
    post = np.tile([1., rootconc], (n, 1))
    return np.tile(prior, (n, 1)), np.tile(post, (n, 1))


def verify_loop(gen, v, model, kind_w, first, truth, dists, conc, root=None):
    'A phone-loop model against the description.'
    grp = group_of(gen)
    n = len(grp)
    with expect('phone-loop'):
        st = ref.extract(model, kind_w)
    names = list(model.start_pdf)
    check(sorted(names) == sorted(grp) and list(model.end_pdf) == names,
          'phone-loop', lambda: f'units {names}, {list(model.end_pdf)}')
    for u, a, b in zip(names, st.start, st.end):
        check(a == first[u] and b == first[u] + grp[u]['nstates'] - 1,
              'phone-loop', lambda: f'{u}: densities {a}..{b}, built {first[u]}')
    verify_emissions(gen, first, st.groups, truth, dists)
    # Weights.
    kind = 'unit-weights'
    cp, cq = st.w['prior']['concentrations'], st.w['post']['concentrations']
    if kind_w == 'dirichlet':
        want = wantq = np.full(n, conc / n)
    elif kind_w == 'dirichlet2':
        want = wantq = np.full((n, n), conc / n)
    elif kind_w == 'hierarchical_dirichlet_process':
        want, wantq = hier(n, conc if root is None else root, conc)
    else:
        want = wantq = np.tile([1., conc], (n, 1))
    close(want, cp, kind, f'prior ({kind_w})', 1e-3, 2e-6)
    close(wantq, cq, kind, f'posterior ({kind_w})', 1e-3)
    if kind_w == 'gamma_dirichlet_process':
        for part in ('prior', 'post'):
            close([1.], st.conc[part]['shape'].ravel(), kind, 'concentration shape')
            close([1. / conc], st.conc[part]['rate'].ravel(), kind,
                  'concentration rate')
    check(sorted(np.asarray(st.order).tolist()) == list(range(n)), kind, 'order')
    # Graph.
    kind = 'phone-loop-graph'
    total = len(st.graph['map'])
    check(sorted(st.graph['map'].tolist()) == list(range(total)), kind,
          lambda: f'states {st.graph["map"].tolist()}')
    elog = np.exp(ref.elog_weights(st))
    tr = np.zeros((total, total))
    init, final = np.zeros(total), np.zeros(total)
    exits = {}
    for u in names:
        w, out = unit_graph(grp[u])
        i, m = first[u], len(w)
        tr[i:i + m, i:i + m] = w
        exits[u] = (i + m - 1, out)
        if v['startend'] in (None, grp[u]['name']):
            init[i], final[i + m - 1] = 1., out
    for i, u in enumerate(names):
        last, out = exits[u]
        for j, to in enumerate(names):
            tr[last, first[to]] = (1. - tr[last, last]) * (elog[j] if elog.ndim == 1
                                                          else elog[i, j])
    order = st.graph['map']
    close((init / init.sum())[order], probs(st.graph['init']), kind, 'start')
    close((final / final.sum())[order], probs(st.graph['final']), kind, 'end')
    close(tr[np.ix_(order, order)], probs(st.graph['trans']), kind, 'transitions')


def natural(name):
    name = unicodedata.normalize('NFD', name.lower())
    parts = [p for p in re.split(r'(\d+)', name) if p]
    if parts and parts[0].isdigit():
        parts.insert(0, '')
    return [int(p) if p.isdigit() else p for p in parts]


# ---------------------------------------------------------------------------

def tasks(lab, gen, g, v, k):
    'name -> (needs, argv, stdin)'
    d = f'v{k}'
    src = 'v0' if v['share'] else d
    seed = ['-s', v['seed']] if v['seed'] is not None else []
    out = {}
    if not v['share']:
        data = ['-D', v['dim']] if v['dim'] else ['-d', lab('ds.pkl')]
        out['phones'] = ([], seed + ['hmm', 'mkphones'] + data +
                         [lab('conf.yml'), lab('units'), lab(f'{d}/hmms')], '')
        out['graph'] = ([], ['hmm', 'mkphoneloopgraph'] +
                        (['-s', v['startend']] if v['startend'] else []) +
                        [lab('units'), lab(f'{d}/graph')], '')
    own = [] if v['share'] else ['phones', 'graph']
    out['decode'] = (own, ['hmm', 'mkdecodegraph', lab(f'{src}/graph'),
                           lab(f'{src}/hmms'), lab(f'{d}/dgraph')], '')
    opts = (['-c', v['conc']] if v['conc'] else []) + \
        (['--weights-prior', v['weights']] if v['weights'] else [])
    out['loop'] = (['decode'], seed + ['hmm', 'mkphoneloop'] + opts +
                   [lab(f'{d}/dgraph'), lab(f'{src}/hmms'), lab(f'{d}/0.mdl')], '')
    if bigram(v):
        out['bigram'] = (['loop'], ['hmm', 'mkphoneloopbigram', '--weights-prior',
                                    v['bigram'], lab(f'{d}/0.mdl'),
                                    lab(f'{d}/bi.mdl')], '')
    out['ali'] = (own[:1], ['hmm', 'mkaligraph', lab(f'{src}/hmms'), lab(f'{d}/ali')],
                  ''.join(f'{u} {(" " * (1 + g % 2)).join(q)}\n'
                          for u, q in v['ali'].items()))
    out['list'] = (own[:1], ['hmm', 'phonelist', lab(f'{src}/hmms')], '')
    return out


def bigram(v):
    w = v['weights'] or 'gamma_dirichlet_process'
    if w == 'dirichlet':
        return v['bigram'] == 'dirichlet2'
    return v['bigram'] and w in ('dirichlet_process', 'gamma_dirichlet_process')


def run(plan, ctx):
    rng = core.rng_for(plan['order'], 'c18-start')
    with core.Scratch() as root, \
            core.Sim(plan['order'], root, plan['sched'], plan['faults']) as sim:
        lab = L.Lab(sim, root, {}, ctx)
        os.makedirs(lab('fea'))
        feats = features(plan)
        for u, x in feats.items():
            with core._orig['open'](lab(f'fea/{u}.npy'), 'wb') as f:
                np.save(f, x)
        lab.beer('archive', ['features', 'archive', lab('fea'), lab('fea.npz')])
        lab.beer('dataset', ['dataset', 'create', root, lab('fea.npz'),
                             lab('ds.pkl')])
        x = np.concatenate(list(feats.values())).astype(float)
        data = (x.mean(0), x.var(0))
        dists = []
        for g, gen in enumerate(plan['gens']):
            L.write(lab('conf.yml'), conf_text(gen))
            L.write(lab('units'), units_text(gen))
            build(plan, ctx, sim, lab, gen, g, rng)
            for k, v in enumerate(gen['variants']):
                inspect(plan, ctx, lab, gen, v, k, data, dists)
            if g:
                ctx.nontrivial = True
                ctx.probe('second generation')
        if dists:
            z = np.concatenate(dists)
            # Around 1 +- 6.5 sqrt(2 / n), with room for small samples.
            n, m = len(z), float((z ** 2).mean())
            from scipy.stats import chi2
            lo, hi = chi2.ppf([1e-11, 1 - 1e-11], n) / n
            check(lo < m < hi, 'initial-noise', lambda:
                  f'{n} draws of standard noise have a mean square of {m:.4f}')
        if any(f['kind'] for f in sim.fault_log):
            ctx.nontrivial = True
        ctx.note([(v['weights'], v['conc'], v['startend'], v['share'], v['bigram'])
                  for gen in plan['gens'] for v in gen['variants']],
                 [[(x['nstates'], x['ncomp'], x['cov']) for x in gen['groups']]
                  for gen in plan['gens']],
                 [(f['kind'], f['cls'], f['op']) for f in sim.fault_log])
        ctx.absorb(sim)


def build(plan, ctx, sim, lab, gen, g, rng):
    todo, done, tries = {}, set(), {}
    for k, v in enumerate(gen['variants']):
        os.makedirs(lab(f'v{k}/ali'), exist_ok=True)
        for u in v['ali']:
            if os.path.exists(lab(f'v{k}/ali/{u}.npy')):
                os.remove(lab(f'v{k}/ali/{u}.npy'))
        if plan['stale']:
            for name in ('hmms', 'graph', 'dgraph', '0.mdl', 'bi.mdl'):
                if not os.path.exists(lab(f'v{k}/{name}')):
                    L.write(lab(f'v{k}/{name}'), b'\x80stale' * 5000)
        for name, (needs, argv, stdin) in tasks(lab, gen, g, v, k).items():
            need = {(k, x) for x in needs}
            if v['share'] and name in ('decode', 'ali', 'list'):
                need |= {(0, 'phones'), (0, 'graph')}
            todo[k, name] = (need, argv, stdin)
    gen['printed'] = {}
    while todo:
        ready = [t for t in todo if todo[t][0] <= done]
        now = [t for t in ready if rng.random() < .7] or [rng.choice(ready)]
        rng.shuffle(now)
        procs = {}
        for t in now:
            k, name = t
            i = tries[t] = tries.get(t, -1) + 1
            procs[t] = cli.spawn(sim, f'{name}.{g}.{k}#{i}', todo[t][1], todo[t][2])
        if len(procs) > 1:
            ctx.nontrivial = True
        sim.run()
        for t, p in procs.items():
            if not p.ok and p.tainted:
                ctx.probe('repeated ' + p.key)
                continue
            lab.must(p)
            if t[1] == 'list':
                gen['printed'][t[0]] = p.stdout
            done.add(t)
            del todo[t]


def inspect(plan, ctx, lab, gen, v, k, data, dists):
    d = f'v{k}'
    src = gen['variants'][0] if v['share'] else v
    v = dict(v, dim=src['dim'], startend=src['startend'])
    hm = 'v0' if v['share'] else d
    if v['dim']:
        truth = np.zeros(v['dim']), np.ones(v['dim'])
    else:
        truth = data
    units, emissions = L.load(lab(f'{hm}/hmms'))
    first = verify_units(gen, units, emissions, truth)
    n = len(gen['units'])
    conc = v['conc'] or n / 2
    w = v['weights'] or 'gamma_dirichlet_process'
    zs = []
    verify_loop(gen, v, L.load(lab(f'{d}/0.mdl')), w, first, truth, zs, conc)
    if not v['share']:
        dists += zs
    if bigram(v):
        two = v['bigram'] == 'dirichlet2'
        verify_loop(gen, v, L.load(lab(f'{d}/bi.mdl')), v['bigram'], first, truth, [],
                    1. if two else n / 2, root=None if two else conc)
        ctx.probe('bigram')
    for u, seq in v['ali'].items():
        path = lab(f'{d}/ali/{u}.npy')
        check(os.path.exists(path) == bool(seq), 'alignment-graph',
              f'{u} with the transcription {seq}: file {os.path.exists(path)}')
        if seq:
            with expect('alignment-graph'):
                graph = np.load(path, allow_pickle=True)
                check(graph.shape == (1,), 'alignment-graph', str(graph.shape))
            verify_aligraph(gen, first, seq, graph[0], f'{u} {seq}')
    got = gen['printed'][k].splitlines()
    names = [u for u, _ in gen['units']]
    check(sorted(got) == sorted(names), 'phone-list', lambda: f'{got}')
    keys = [natural(u) for u in got]
    with expect('phone-list'):
        ok = all(a <= b for a, b in zip(keys, keys[1:]))
    check(ok, 'phone-list', lambda: f'not in natural order: {got}')
    ctx.probe('weights ' + w)
    ctx.probe('covariance ' + gen['groups'][0]['cov'])
