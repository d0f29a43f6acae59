"""Shared workload: epochs of accumulate/update jobs under the scheduler."""
import re

import numpy as np

from . import core, cli, lab as L, ref
from .engine import check

SOFTKINDS = ['short_read', 'short_write', 'stall']
TOL = 3e-3


def gen_train(rng, minstates=2, **kw):
    scn = L.gen_scenario(rng, minstates=minstates, **kw)
    need = max(g['nstates'] for g in scn['groups'])
    scn['utts'] = [[u, max(n, need)] for u, n in scn['utts']]
    return scn


def nstates(scn):
    by = {g['name']: g for g in scn['groups']}
    return {u: by[g]['nstates'] for u, g in scn['units']}


def gen_ali(rng, scn, full=False):
    'A feasible unit sequence for (some of) the utterances.'
    ns = nstates(scn)
    out = {}
    for u, n in scn['utts']:
        if not full and rng.random() < .25:
            continue
        seq, left = [], n
        while True:
            fit = [x for x in ns if ns[x] <= left]
            if not fit or (seq and rng.random() < .4):
                break
            x = rng.choice(fit)
            seq.append(x)
            left -= ns[x]
        out[u] = seq
    return out


def ref_aligraph(scn, seq, start_pdf):
    'The linear graph of a transcription, built from the scenario alone.'
    by = {g['name']: g for g in scn['groups']}
    grp = dict(map(tuple, scn['units']))
    pdfs, arcs = [], []
    for u in seq:
        g = by[grp[u]]
        arcs += [(len(pdfs) + a - 1, len(pdfs) + b - 1, w)
                 for a, b, w in L.topology(g) if a > 0]
        pdfs += [int(start_pdf[u]) + k for k in range(g['nstates'])]
    n = len(pdfs)
    with np.errstate(divide='ignore'):
        init, final = np.full(n, -np.inf), np.full(n, -np.inf)
        init[0] = final[-1] = 0.
        tr = np.full((n, n), -np.inf)
        for a, b, w in arcs:
            if b < n:
                tr[a, b] = np.log(w)
    return {'init': init, 'final': final, 'trans': tr, 'map': np.array(pdfs)}


def split(rng, items, njobs):
    'Random partition in `njobs` ordered parts, possibly empty.'
    parts = [[] for _ in range(njobs)]
    items = list(items)
    rng.shuffle(items)
    for x in items:
        parts[rng.randrange(njobs)].append(x)
    return parts


OUTS = ['e%d.%d', 'e%d.%d', 'e%d/%d/elbo', 'e%d/elbo.%d', 'acc %d.%d.pkl']


def out_name(lab, style, e, j):
    'Where job j of epoch e stores its result; the directory exists.'
    import os
    name = style % (e, j)
    os.makedirs(os.path.dirname(lab(name)), exist_ok=True)
    return name


def gen_sched(rng):
    return {'mode': rng.choice(['uniform', 'uniform', 'pct', 'lifo', 'fifo']),
            'change': rng.choice([.02, .1, .3])}


def gen_soft(rng, procs, n):
    out = []
    for _ in range(n):
        k = rng.choice(SOFTKINDS)
        f = {'proc': rng.choice(procs), 'kind': k,
             'pos': round(rng.random(), 3), 'frac': round(rng.random(), 2)}
        if k == 'stall':
            f['delay'] = rng.choice([1., 60., 86400.])
        out.append(f)
    return out


def objective(p):
    'Value printed by accumulate/update, or None.'
    for level, msg in reversed(p.logs):
        m = re.search(r'ELBO(?: over \d+ utterances: |=)(-?(?:[\d.]+|nan|inf))', msg)
        if m:
            return float(m.group(1).rstrip('.'))
    return None


def count_of(p):
    for level, msg in reversed(p.logs):
        m = re.search(r'ELBO over (\d+) utt', msg)
        if m:
            return int(m.group(1))
    return None


# ---------------------------------------------------------------------------
# Comparison of whole phone loops

def stick_order(model):
    'The ordering of a stick-breaking weight model (None: not sorted).'
    cat = getattr(model, 'categorical', None)
    order = getattr(cat, 'ordering', None)
    return None if order is None else [int(i) for i in order]


def stick_tie(model, other, tol=2e-3):
    '''The two models sort their units differently: legitimate only when the
    swapped units have the same count (up to rounding).'''
    def counts(m):
        c = m.categorical.stickbreaking
        return (c.posterior.params.concentrations[:, 0]
                - c.prior.params.concentrations[:, 0]).double().numpy()
    a, b = counts(model), counts(other)
    if L.relerr(a, b) > tol:
        return False
    for m, c in ((other, a), (model, b)):
        s = c[stick_order(m)]
        if not (s[:-1] >= s[1:] - tol * (1 + abs(s[1:]))).all():
            return False
    return True


def same_model(m1, m2, tol, kind, ctx=None):
    '''Same parameters and transitions up to `tol`.  Returns False when the
    comparison is void (two units with equal counts sorted differently).'''
    o1, o2 = stick_order(m1), stick_order(m2)
    if o1 != o2:
        check(stick_tie(m1, m2), kind, f'units sorted {o1} vs {o2}')
        if ctx is not None:
            ctx.probe('tie in the sorting of the units')
        return False
    L.compare_states(L.model_state(m1), L.model_state(m2), tol, kind)
    return True


def ali_archive(lab, ali, name):
    '''Alignment archive <name>.npz made by the command line tool.'''
    import os
    d = lab(f'{name}.dir')
    os.makedirs(d, exist_ok=True)
    lines = [f'{u} {" ".join(seq)}\n' for u, seq in ali.items()]
    for k, (u, _) in enumerate(lab.scn['utts']):
        if u not in ali and (lab.scn['data'] + k) % 3 == 0:
            lines.insert(k, f'{u}\n')        # a transcription without phones
    text = ''.join(lines)
    lab.beer(f'mk{name}', ['hmm', 'mkaligraph', lab('hmms'), d], stdin=text)
    lab.beer(f'arc{name}', ['features', 'archive', d, lab(f'{name}.npz')])
    return f'{name}.npz'


def shrink_training(plan):
    'Simpler plans with the keys scn, epochs.'
    for s in L.shrink_scenario(plan['scn']):
        keep = {u for u, _ in s['utts']}
        units = {u for u, _ in s['units']}
        need = max(g['nstates'] for g in s['groups'])
        if any(n < need for _, n in s['utts']):
            continue
        eps = []
        for ep in plan['epochs']:
            ep = dict(ep, jobs=[[u for u in j if u in keep] for j in ep['jobs']])
            if ep.get('ali'):
                ep['ali'] = {u: q for u, q in ep['ali'].items() if u in keep
                             and all(x in units for x in q)}
            if any(ep['jobs']):
                eps.append(ep)
        if eps:
            yield dict(plan, scn=s, epochs=eps)
    if len(plan['epochs']) > 1:
        for i in range(len(plan['epochs'])):
            yield dict(plan, epochs=plan['epochs'][:i] + plan['epochs'][i + 1:])
    for i, ep in enumerate(plan['epochs']):
        def put(**kw):
            return dict(plan, epochs=[dict(x, **kw) if j == i else x
                                      for j, x in enumerate(plan['epochs'])])
        for key, val in (('ali', None), ('scale', None), ('lr', 1.)):
            if key in ep and ep[key] != val:
                yield put(**{key: val})
        if len(ep['jobs']) > 1:
            yield put(jobs=[sum(ep['jobs'], [])])
