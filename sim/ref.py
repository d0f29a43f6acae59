"""Reference model: closed-form variational Bayes for phone loops (numpy,
float64), written from the equations and not from the code under test.

`State` is plain data extracted from a model through its public interface; the
functions below predict what an epoch must do to it.
"""
import copy

import numpy as np
from scipy.special import digamma, gammaln

from .engine import check

LOG2PI = np.log(2 * np.pi)


def lse(x, axis):
    m = x.max(axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.)
    with np.errstate(divide='ignore'):
        return np.squeeze(m, axis) + np.log(np.exp(x - m).sum(axis=axis))


# ---------------------------------------------------------------------------
# Distributions, standard parameters only.

class Dir:
    names = ('concentrations',)

    @staticmethod
    def elog(p):
        a = p['concentrations']
        return digamma(a) - digamma(a.sum(-1, keepdims=True))

    @staticmethod
    def kl(q, p):
        a, b = q['concentrations'], p['concentrations']
        out = gammaln(a.sum(-1)) - gammaln(b.sum(-1)) \
            + (gammaln(b) - gammaln(a)).sum(-1) + ((a - b) * Dir.elog(q)).sum(-1)
        return out.sum()

    @staticmethod
    def update(prior, post, stats, lr):
        a, b = post['concentrations'], prior['concentrations']
        return {'concentrations': a + lr * (b + stats - a)}


def gamma_kl(a, b, a0, b0):
    return (a - a0) * digamma(a) - gammaln(a) + gammaln(a0) \
        + a0 * (np.log(b) - np.log(b0)) + a * (b0 - b) / b


class NG:
    'Normal-Gamma, diagonal covariance: one shape, one rate per dimension.'

    @staticmethod
    def llh(p, x):
        m, k, a, b = p['mean'], p['scale'], p['shape'], p['rates']
        d = x[:, None, :] - m[None]
        return (.5 * (digamma(a) - np.log(b)) - .5 * LOG2PI
                - .5 * ((a / b) * d ** 2 + 1 / k)).sum(-1)

    @staticmethod
    def kl(q, p):
        k, k0 = q['scale'], p['scale']
        d = q['mean'].shape[-1]
        prec = q['shape'] / q['rates']
        norm = .5 * d * (k0 / k - 1 - np.log(k0 / k)).sum() \
            + .5 * (k0 * prec * (q['mean'] - p['mean']) ** 2).sum()
        one = np.ones_like(q['rates'])
        return norm + gamma_kl(q['shape'] * one, q['rates'],
                               p['shape'] * one, p['rates']).sum()

    @staticmethod
    def pseudo(p):
        m, k, a, b = p['mean'], p['scale'], p['shape'], p['rates']
        return [k * m, k * m ** 2 + 2 * b, k, a]

    @staticmethod
    def stats(x, r):
        n = r.sum(0)[:, None]
        return [r.T @ x, r.T @ x ** 2, n, .5 * n]

    @staticmethod
    def unpseudo(s):
        k = s[2]
        m = s[0] / k
        return {'mean': m, 'scale': k, 'shape': s[3],
                'rates': .5 * (s[1] - k * m ** 2)}


class ING:
    'Normal-Gamma, isotropic covariance.'

    @staticmethod
    def llh(p, x):
        m, k, a, b = p['mean'], p['scale'], p['shape'], p['rate']
        dim = m.shape[-1]
        d2 = ((x[:, None, :] - m[None]) ** 2).sum(-1)
        return (.5 * dim * (digamma(a) - np.log(b) - LOG2PI)
                - .5 * dim / k)[:, 0] - .5 * (a / b)[:, 0] * d2

    @staticmethod
    def kl(q, p):
        k, k0 = q['scale'], p['scale']
        d = q['mean'].shape[-1]
        prec = q['shape'] / q['rate']
        return .5 * d * (k0 / k - 1 - np.log(k0 / k)).sum() \
            + .5 * (k0 * prec * (q['mean'] - p['mean']) ** 2).sum() \
            + gamma_kl(q['shape'], q['rate'], p['shape'], p['rate']).sum()

    @staticmethod
    def pseudo(p):
        m, k, a, b = p['mean'], p['scale'], p['shape'], p['rate']
        return [k * m, k * (m ** 2).sum(-1, keepdims=True) + 2 * b, k, a]

    @staticmethod
    def stats(x, r):
        n = r.sum(0)[:, None]
        return [r.T @ x, r.T @ (x ** 2).sum(-1, keepdims=True), n,
                .5 * x.shape[-1] * n]

    @staticmethod
    def unpseudo(s):
        k = s[2]
        m = s[0] / k
        return {'mean': m, 'scale': k, 'shape': s[3],
                'rate': .5 * (s[1] - k * (m ** 2).sum(-1, keepdims=True))}


class NW:
    'Normal-Wishart, full covariance.'

    @staticmethod
    def elogdet(p):
        w, v = p['scale_matrix'], p['dof'][:, 0]
        d = w.shape[-1]
        i = np.arange(1, d + 1)
        return digamma(.5 * (v[:, None] + 1 - i)).sum(-1) + d * np.log(2) \
            + np.linalg.slogdet(w)[1]

    @staticmethod
    def llh(p, x):
        m, k, v = p['mean'], p['scale'][:, 0], p['dof'][:, 0]
        w = p['scale_matrix']
        d = m.shape[-1]
        diff = x[:, None, :] - m[None]
        quad = np.einsum('tki,kij,tkj->tk', diff, w, diff)
        return .5 * NW.elogdet(p) - .5 * d * LOG2PI - .5 * d / k - .5 * v * quad

    @staticmethod
    def kl(q, p):
        k, k0 = q['scale'][:, 0], p['scale'][:, 0]
        v, v0 = q['dof'][:, 0], p['dof'][:, 0]
        w, w0 = q['scale_matrix'], p['scale_matrix']
        d = w.shape[-1]
        i = np.arange(1, d + 1)
        diff = q['mean'] - p['mean']
        norm = .5 * d * (k0 / k - 1 - np.log(k0 / k)) \
            + .5 * k0 * v * np.einsum('ki,kij,kj->k', diff, w, diff)

        def lognorm(w, v):
            return .5 * v * np.linalg.slogdet(w)[1] + .5 * v * d * np.log(2) \
                + gammaln(.5 * (v[:, None] + 1 - i)).sum(-1)
        tr = np.einsum('kij,kji->k', np.linalg.inv(w0), w)
        wish = lognorm(w0, v0) - lognorm(w, v) + .5 * (v - v0) * NW.elogdet(q) \
            - .5 * v * d + .5 * v * tr
        return (norm + wish).sum()

    @staticmethod
    def pseudo(p):
        m, k = p['mean'], p['scale']
        mm = m[:, :, None] * m[:, None, :]
        return [k * m, np.linalg.inv(p['scale_matrix']) + k[:, :, None] * mm, k,
                p['dof']]

    @staticmethod
    def stats(x, r):
        n = r.sum(0)[:, None]
        return [r.T @ x, np.einsum('tk,ti,tj->kij', r, x, x), n, n]

    @staticmethod
    def unpseudo(s):
        k = s[2]
        m = s[0] / k
        mm = m[:, :, None] * m[:, None, :]
        return {'mean': m, 'scale': k, 'dof': s[3],
                'scale_matrix': np.linalg.inv(s[1] - k[:, :, None] * mm)}


FAMILY = {'NormalGamma': NG, 'IsotropicNormalGamma': ING, 'NormalWishart': NW}


# ---------------------------------------------------------------------------
# Extraction of the state of a real model.

def _std(dist):
    from .lab import std_params
    return std_params(dist)


class State:
    'groups, weights, graph, units of a phone loop.'

    def copy(self):
        return copy.deepcopy(self)


def extract(model, weights_kind):
    st = State()
    params = list(model.bayesian_parameters())
    st.groups = []
    i = 0
    while i < len(params) and type(params[i].posterior).__name__ in FAMILY:
        st.groups.append({
            'family': type(params[i].posterior).__name__,
            'prior': _std(params[i].prior), 'post': _std(params[i].posterior),
            'wprior': _std(params[i + 1].prior),
            'wpost': _std(params[i + 1].posterior)})
        i += 2
    check(len(params) == i + 1, 'model-structure',
          f'{len(params)} parameters, {len(st.groups)} emission groups')
    st.kind = weights_kind
    st.w = {'prior': _std(params[i].prior), 'post': _std(params[i].posterior)}
    st.n = len(model.start_pdf)
    st.order = np.arange(st.n)
    if weights_kind in ('dirichlet_process', 'gamma_dirichlet_process'):
        st.order = model.categorical.ordering.numpy().copy()
    if weights_kind == 'hierarchical_dirichlet_process':
        st.order = model.categoricalset.root_sb_categorical.ordering.numpy().copy()
    if weights_kind == 'gamma_dirichlet_process':
        c = model.categorical.concentration
        st.conc = {'prior': _std(c.prior), 'post': _std(c.posterior)}
    st.start = np.array([int(v) for v in model.start_pdf.values()])
    st.end = np.array([int(v) for v in model.end_pdf.values()])
    st.graph = extract_graph(model.graph)
    return st


def extract_graph(g):
    return {'init': g.init_log_probs.double().numpy().copy(),
            'final': g.final_log_probs.double().numpy().copy(),
            'trans': g.trans_log_probs.double().numpy().copy(),
            'map': np.array([int(i) for i in g.pdf_id_mapping])}


# ---------------------------------------------------------------------------
# E step

def pdf_llhs(st, x):
    'Per pdf log-likelihood and, per group, component responsibilities.'
    out, resps = [], []
    for g in st.groups:
        llh = FAMILY[g['family']].llh(g['post'], x)
        lw = Dir.elog(g['wpost'])
        llh = llh.reshape(len(x), *lw.shape) + lw[None]
        tot = lse(llh, -1)
        out.append(tot)
        resps.append(np.exp(llh - tot[:, :, None]))
    return np.concatenate(out, 1), resps


def forward_backward(graph, llh):
    t, k = llh.shape
    la = np.full((t, k), -np.inf)
    lb = np.full((t, k), -np.inf)
    tr = graph['trans']
    la[0] = graph['init'] + llh[0]
    for i in range(1, t):
        la[i] = llh[i] + lse(la[i - 1][:, None] + tr, 0)
    lb[-1] = graph['final']
    for i in range(t - 2, -1, -1):
        lb[i] = lse(tr + (llh[i + 1] + lb[i + 1])[None], 1)
    g = la + lb
    gamma = np.exp(g - lse(g, 1)[:, None])
    xi = np.zeros((max(0, t - 1), k, k))
    for i in range(t - 1):
        z = la[i][:, None] + tr + (llh[i + 1] + lb[i + 1])[None]
        xi[i] = np.exp(z - lse(z.reshape(-1), 0))
    return gamma, xi


def best_path(graph, llh):
    'Viterbi score of the best path and one such path.'
    t, k = llh.shape
    d = graph['init'] + llh[0]
    back = []
    for i in range(1, t):
        z = d[:, None] + graph['trans']
        back.append(z.argmax(0))
        d = z.max(0) + llh[i]
    f = d + graph['final']
    path = [int(f.argmax())]
    for b in reversed(back):
        path.insert(0, int(b[path[0]]))
    return f.max(), path


def path_score(graph, llh, path):
    s = graph['init'][path[0]] + llh[0, path[0]]
    for i in range(1, len(path)):
        s += graph['trans'][path[i - 1], path[i]] + llh[i, path[i]]
    return s + graph['final'][path[-1]]


def new_stats(st):
    return {'groups': [None] * len(st.groups), 'gw': [0.] * len(st.groups),
            'w': np.zeros(st.n) if st.kind in UNI else np.zeros((st.n, st.n)),
            'frames': 0, 'value': 0., 'nutts': 0}


UNI = ('dirichlet', 'dirichlet_process', 'gamma_dirichlet_process')


def add_utterance(st, stats, x, datasize, scale=1., ali=None):
    'Accumulate one utterance into `stats`.'
    x = np.asarray(x, dtype=float)
    graph = st.graph if ali is None else ali
    pdf, comp = pdf_llhs(st, x)
    llh = scale * pdf[:, graph['map']]
    gamma, xi = forward_backward(graph, llh)
    exp_llh = np.where(gamma > 0, llh * gamma, 0.).sum()
    stats['value'] += datasize / len(x) * exp_llh - kl(st)
    occ = np.zeros_like(pdf)
    for j, pid in enumerate(graph['map']):
        occ[:, pid] += scale * gamma[:, j]
    first = 0
    for i, (g, c) in enumerate(zip(st.groups, comp)):
        n = c.shape[1]
        joint = c * occ[:, first:first + n, None]
        first += n
        stats['gw'][i] = stats['gw'][i] + joint.sum(0)
        s = FAMILY[g['family']].stats(x, joint.reshape(len(x), -1))
        old = stats['groups'][i]
        stats['groups'][i] = s if old is None else [a + b for a, b in zip(old, s)]
    if ali is None:
        tot = xi.sum(0) if len(xi) else np.zeros((len(graph['map']),) * 2)
        pair = tot[np.ix_(st.end, st.start)]
        if st.kind in UNI:
            stats['w'] = stats['w'] + pair.sum(0) + gamma[0][st.start]
        else:
            stats['w'] = stats['w'] + pair
    stats['frames'] += len(x)
    stats['nutts'] += 1
    return gamma


def kl(st):
    tot = 0.
    for g in st.groups:
        tot += FAMILY[g['family']].kl(g['post'], g['prior'])
        tot += Dir.kl(g['wpost'], g['wprior'])
    return tot + Dir.kl(st.w['post'], st.w['prior'])


# ---------------------------------------------------------------------------
# M step

def elog_weights(st):
    'E[log weights], [n] or [n, n].'
    if st.kind in ('dirichlet', 'dirichlet2'):
        return Dir.elog(st.w['post'])
    ab = st.w['post']['concentrations']
    if st.kind == 'hierarchical_dirichlet_process':
        ab = ab.reshape(st.n, st.n, 2)
    else:
        ab = ab[None]
    e = Dir.elog({'concentrations': ab})[:, st.order]
    lp = e[..., 0].copy()
    lp[:, 1:] += np.cumsum(e[..., 1], axis=1)[:, :-1]
    out = np.zeros_like(lp)
    out[:, st.order] = lp
    return out if st.kind == 'hierarchical_dirichlet_process' else out[0]


def refresh_transitions(st):
    lw = elog_weights(st)
    tr = st.graph['trans']
    for i, e in enumerate(st.end):
        stay = np.exp(tr[e, e])
        row = lw if lw.ndim == 1 else lw[i]
        tr[e, st.start] = np.log1p(-stay) + row


def m_step(st, stats, datasize, lr, order=None):
    'State after the update. `order`: the sorting the code chose (ties).'
    new = st.copy()
    c = datasize / stats['frames']
    for g, s, gw in zip(new.groups, stats['groups'], stats['gw']):
        fam = FAMILY[g['family']]
        q, p = fam.pseudo(g['post']), fam.pseudo(g['prior'])
        g['post'] = fam.unpseudo([a + lr * (b + c * d - a)
                                  for a, b, d in zip(q, p, s)])
        g['wpost'] = Dir.update(g['wprior'], g['wpost'], c * gw, lr)
    n = c * stats['w']
    if st.kind in ('dirichlet', 'dirichlet2'):
        new.w['post'] = Dir.update(st.w['prior'], st.w['post'], n, lr)
    else:
        if st.kind == 'hierarchical_dirichlet_process':
            new.order, m = st.order, n
        else:
            new.order = np.asarray(order)
            check(sorted(new.order.tolist()) == list(range(st.n)),
                  'ordering', f'not a permutation: {order}')
            srt = n[new.order]
            check((srt[:-1] >= srt[1:] - 1e-3 * (1 + abs(srt[1:]))).all(),
                  'ordering', lambda: f'not by decreasing count: {order} {n}')
            m = n[None]
        srt = m[:, new.order]
        later = srt[:, ::-1].cumsum(1)[:, ::-1] - srt
        ab = np.zeros(m.shape + (2,))
        ab[:, new.order, 0] = srt
        ab[:, new.order, 1] = later
        new.w['post'] = Dir.update(st.w['prior'], st.w['post'],
                                   ab.reshape(-1, 2), lr)
    if st.kind == 'gamma_dirichlet_process':
        e = Dir.elog(new.w['post'])
        shape = st.conc['prior']['shape'] + st.n
        rate = st.conc['prior']['rate'] - e[:, 1].sum()
        new.conc = {'prior': st.conc['prior'],
                    'post': {'shape': shape, 'rate': rate}}
        new.w['prior'] = {'concentrations': new.w['prior']['concentrations'].copy()}
        new.w['prior']['concentrations'][:, 1] = (shape / rate).item()
    refresh_transitions(new)
    return new


def compare(pred, real, tol, kind):
    'pred, real: State.'
    from .lab import relerr

    def cmp(what, a, b):
        for k in b:
            e = relerr(a[k], b[k])
            check(e <= tol, kind, lambda: f'{what}.{k}: relative difference '
                  f'{e:.3g}\nexpected {a[k]}\n     got {b[k]}')
    worst = 0.
    for i, (g, h) in enumerate(zip(pred.groups, real.groups)):
        for part in ('prior', 'post', 'wprior', 'wpost'):
            cmp(f'group {i} {part}', g[part], h[part])
    cmp('weights prior', pred.w['prior'], real.w['prior'])
    cmp('weights posterior', pred.w['post'], real.w['post'])
    if pred.kind == 'gamma_dirichlet_process':
        cmp('concentration', pred.conc['post'], real.conc['post'])
    for part in ('init', 'final', 'trans'):
        a, b = np.exp(pred.graph[part]), np.exp(real.graph[part])
        cmp('graph', {part: a}, {part: b})
    return worst
