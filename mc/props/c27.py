"""Probability densities and their marginals agree with the stored measure."""
import itertools
import math

import numpy as np

from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('every kind of stored measure (independent variables, Gaussian mixtures, weighted kernel estimates, cell probabilities) x dimension x component weights (zero weights and empty components included) x role (initial / updated) x '
        'evaluation points as a batch, one by one, reversed, repeated, and in every array layout x process count; oracle: densities written out from the definition, integrals by quadrature on grids')
BOUNDS = {'quick': {'dims': '1..3 (selected: 4, 6)', 'components': '1..3', 'points': '1..9', 'cells': '1..5 (selected: 17, 40)', 'scales': '2**-20, 1, 2**20', 'ranks': '1..3 (selected: 8)'}, 'thorough': {'dims': '1..4', 'components': '1..4', 'points': '1..9', 'ranks': '1..5'}}

W = {1: ([1.0],), 2: ([0.5, 0.5], [1.0, 0.0], [0.0, 1.0], [0.3, 0.7]), 3: ([0.2, 0.3, 0.5], [2.0 ** -13, 1.0 - 2.0 ** -12, 2.0 ** -13], [0.5, 0.0, 0.5], [0.1, 0.8, 0.1]), 4: ([0.1, 0.2, 0.3, 0.4], [0.0, 0.5, 0.0, 0.5])}
RVS = ([['uniform', {'loc': -1.0, 'scale': 3.0}], ['norm', {'loc': 0.5, 'scale': 0.75}], ['beta', {'a': 2.0, 'b': 3.0, 'loc': -1.0, 'scale': 4.0}], ['expon', {'loc': -0.5, 'scale': 2.0}]],
       [['norm', {'loc': 0.25, 'scale': 2.0}], ['uniform', {'loc': -2.0, 'scale': 3.5}], ['norm', {}], ['uniform', {}]],
       [['gamma', {'a': 2.0}], ['norm', {'scale': 0.5}], ['uniform', {'scale': 2.0}], ['norm', {'loc': 1.0}]])
X = np.array([[0.3, 0.9, -0.2, 0.6], [-0.7, 0.1, 1.4, 0.2], [1.1, -1.3, 0.5, 0.9], [0.0, 0.0, 0.0, 0.0], [1.9, 1.3, 0.8, 0.4], [-0.9, -1.9, 2.6, 1.7], [2.5, 0.4, -0.9, -0.4], [7.0, -6.0, 5.0, 8.0], [1.0, 1.0, 1.0, 1.0]])


X = np.hstack([X, X[::-1] * 0.75, X[[3, 1, 4, 0, 2, 8, 6, 5, 7]] * 0.5])     # further coordinates for dimensions above four

X_UNIT = X


def rv_pdf(name, a, x):
    """Closed forms of the densities used here."""
    t = (x - a.get('loc', 0.0)) / a.get('scale', 1.0)
    sc = a.get('scale', 1.0)
    if name == 'uniform':
        return np.where((t >= 0) & (t <= 1), 1.0, 0.0) / sc
    if name == 'norm':
        return np.exp(-t * t / 2) / math.sqrt(2 * math.pi) / sc
    if name == 'expon':
        return np.where(t >= 0, np.exp(-np.abs(t)), 0.0) / sc
    if name == 'gamma':
        return np.where(t > 0, np.abs(t) ** (a['a'] - 1) * np.exp(-np.abs(t)) / math.gamma(a['a']), 0.0) / sc
    if name == 'beta':
        A, B = a['a'], a['b']
        c = math.gamma(A + B) / math.gamma(A) / math.gamma(B)
        u = np.clip(t, 0, 1)
        return np.where((t >= 0) & (t <= 1), c * u ** (A - 1) * (1 - u) ** (B - 1), 0.0) / sc
    raise KeyError(name)


def gmm(dim, w, empty, var=0):
    means, covs = [], []
    for c in range(len(w)):
        if empty and w[c] == 0:
            means.append(None)
            covs.append(None)
            continue
        m = np.array([0.4 * c - 0.3 * d for d in range(dim)])
        L = np.array([[(0.8 + 0.1 * c + 0.15 * i) if i == j else (0.3 - 0.1 * c) / (1 + i) if j < i else 0.0 for j in range(dim)] for i in range(dim)])
        if var == 2:      # strongly correlated, very different spreads
            L = np.array([[(0.4 + 0.2 * c) if i == j == 0 else 0.6 if i == j else (1.1 - 0.2 * c) / i if j == 0 and i else 0.0 for j in range(dim)] for i in range(dim)])
        means.append(m)
        covs.append(L.dot(L.T))
    return means, covs


def kdes(dim, w, empty, var, sc=1.0):
    from scipy.stats import gaussian_kde
    base = np.array([-0.5, 0.25, 0.6, 0.0, -0.25])
    wt = [None, np.array([1.0, 2.0, 0.5, 1.0, 1.0])][var]
    return [[None if empty and w[c] == 0 else gaussian_kde(sc * (base * (1 + 0.2 * d) + 0.7 * c - 0.3 * d), weights=wt) for c in range(len(w))] for d in range(dim)]


def kde_pdf(k, x):
    """Weighted sum of Gaussians around the data."""
    data, wt, var = k.dataset[0], k.weights, float(k.covariance[0, 0])
    return np.array([sum(b * math.exp(-(xx - a) ** 2 / (2 * var)) for a, b in zip(data, wt)) / math.sqrt(2 * math.pi * var) for xx in x])


def measure(spec):
    """(prob type, parameters, joint density, marginal density)"""
    kind, dim, w, empty, var, sc = (tuple(spec) + (1.0,))[:6]
    if kind == 'rv':
        p = [[n, dict(a) if sc == 1.0 else dict(a, loc=sc * a.get('loc', 0.0), scale=sc * a.get('scale', 1.0))] for n, a in (RVS[var] * 3)[:dim]]
        mar = lambda x, i: rv_pdf(p[i][0], p[i][1], x)
        return p, (lambda v: np.prod([mar(v[:, i], i) for i in range(dim)], axis=0)), mar
    if kind == 'gmm':
        m, C = gmm(dim, w, empty, var)
        m, C = [a if a is None else a * sc for a in m], [a if a is None else a * sc * sc for a in C]

        def joint(v):
            s = np.zeros(len(v))
            for c in range(len(w)):
                if m[c] is not None:
                    D = v - m[c]
                    q = np.sum(D * np.linalg.solve(C[c], D.T).T, axis=1)
                    s += w[c] * np.exp(-q / 2) / math.sqrt((2 * math.pi) ** dim * np.linalg.det(C[c]))
            return s

        def mar(x, i):
            s = np.zeros(len(x))
            for c in range(len(w)):
                if m[c] is not None:
                    v = C[c][i, i]
                    s += w[c] * np.exp(-(x - m[c][i]) ** 2 / (2 * v)) / math.sqrt(2 * math.pi * v)
            return s
        return (m, C, list(w)), joint, mar
    pm = kdes(dim, w, empty, var, sc)

    def mar(x, i):
        s = np.zeros(len(x))
        for c in range(len(w)):
            if pm[i][c] is not None:
                s += w[c] * kde_pdf(pm[i][c], x)
        return s
    return (pm, list(w)), (lambda v: np.prod([mar(v[:, i], i) for i in range(dim)], axis=0)), mar


def layouts(v):
    yield 'plain', v.copy()
    yield 'fortran', np.asfortranarray(v)
    big = np.zeros((2 * len(v), v.shape[1] + 2))
    big[::2, 1:-1] = v
    yield 'view', big[::2, 1:-1]
    yield 'int', np.round(v).astype(int)
    yield 'single', v.astype(np.float32).astype(float)


def p_param(rank, spec, role):
    import bet.sample as samp
    kind, dim, w, empty, var, sc = (tuple(spec) + (1.0,))[:6]
    X = sc * X_UNIT
    s = samp.sample_set(dim)
    s.set_values(X[:3, :dim].copy())
    p, joint, mar = measure(spec)
    if role == 'init':
        s.set_prob_type_init(kind)
        s.set_prob_parameters_init(p)
        f, g = s.pdf_init, s.marginal_pdf_init
    else:
        s.set_prob_type(kind)
        s.set_prob_parameters(p)
        f, g = s.pdf, s.marginal_pdf
    steps = 0
    for n in (1, 2, 5, len(X)):
        for nm, v in layouts(X[:n, :dim]):
            keep = v.copy()
            want = joint(v.astype(float))
            got = f(v)
            require_close(np.asarray(got), want, 'density at %d points (%s)' % (n, nm), 1e-9)
            require(np.array_equal(v, keep), 'the evaluation points were changed')
            for i in range(dim):
                wm = mar(v[:, i].astype(float), i)
                require_close(np.asarray(g(v[:, i], i)), wm, 'marginal %d (%s, vector)' % (i, nm), 1e-9)
                require_close(np.asarray(g(v[:, i:i + 1], i)), wm, 'marginal %d (%s, column)' % (i, nm), 1e-9)
                require_close(np.asarray(g(v, i)), wm, 'marginal %d (%s, full points)' % (i, nm), 1e-9)
                steps += 3
            require(np.array_equal(v, keep), 'the evaluation points were changed')
            steps += 1
    V = X[:, :dim].copy()
    all_ = np.asarray(f(V))
    require_close(np.asarray(f(V[::-1])), all_[::-1], 'density at the points in reverse', 1e-12)
    require_close(np.asarray(f(np.vstack([V, V[:2]]))), np.r_[all_, all_[:2]], 'density at repeated points', 1e-12)
    for k in range(len(V)):
        one = np.asarray(f(V[k:k + 1]))
        require(one.shape == (1,), 'density at one point has shape %s', one.shape)
        require_close(one[0], all_[k], 'density at point %d alone' % k, 1e-12)
    if dim == 1:
        require_close(np.asarray(f(V[:, 0])), all_, 'density at a vector of points', 1e-12)
    for bad in [d for d in (1, 2, 3, 4, 5, 9) if d != dim]:
        expect_error(lambda: f(np.zeros((3, bad))), 'points of dimension %d for dimension %d' % (bad, dim), (samp.dim_not_matching,))
    if dim > 1:
        expect_error(lambda: f(np.zeros(3)), 'vector of points for dimension %d' % dim, (samp.dim_not_matching,))
        expect_error(lambda: f(np.zeros(dim)), 'vector of points for dimension %d' % dim, (samp.dim_not_matching,))
    # integrals: total mass and marginal of the joint density
    N = 81 if var != 2 else 241
    t = sc * np.linspace(-9.0, 9.0, 1201)
    if kind != 'rv':
        for i in range(dim):
            require(abs(np.trapz(np.asarray(g(t, i)), t) - 1.0) < 1e-6, 'marginal %d integrates to %r', i, np.trapz(g(t, i), t))
        if dim == 2:
            a = sc * np.linspace(-8.0, 8.0, N)
            A, B = np.meshgrid(a, a, indexing='ij')
            J = np.asarray(f(np.column_stack([A.ravel(), B.ravel()]))).reshape(N, N)
            h = a[1] - a[0]
            require_close(J.sum(axis=1) * h, np.asarray(g(a, 0)), 'marginal 0 as integral of the density', 1e-6)
            require_close(J.sum(axis=0) * h, np.asarray(g(a, 1)), 'marginal 1 as integral of the density', 1e-6)
    return steps


def run_param(ctx, item):
    spec, role, size = item

    def go():
        for k in run_ranks(size, p_param, (spec, role)).values():
            ctx.step(k + 20)
    ctx.case('parametric', dict(spec=list(spec), role=role, ranks=size), go)


# -- cells --------------------------------------------------------------------

CELLS = {1: np.array([[-0.6], [0.9], [0.1], [1.7], [2.4]]), 2: np.array([[-0.5, 0.1], [1.0, 1.2], [0.6, -1.1], [2.0, 0.3], [-1.0, -1.6]]),
         3: np.array([[-0.5, 0.1, 0.9], [1.0, 1.2, -0.2], [0.6, -1.1, 1.7], [2.0, 0.3, 0.2], [0.1, -1.6, 2.3]])}
for _d in (1, 2, 3, 4, 6):
    _r = np.array([[((7 * i + 3 * j * i + 5 * j + i * i) % 29) / 29.0 * 4.0 - 1.9 + 0.003 * i + 0.011 * j for j in range(_d)] for i in range(40)])
    CELLS[_d] = np.vstack([CELLS[_d], _r]) if _d in CELLS else _r
PW = ([0.2, 0.3, 0.1, 0.25, 0.15], [0.0, 1.0, 0.0, 0.0, 0.0], [0.5, 0.0, 0.5, 0.0, 0.0], [0.1, 0.3, 0.3, 0.1, 0.3])
VW = ([0.1, 0.2, 0.3, 0.15, 0.25], [0.2] * 5, None, [0.5, 0.4, 0.7, 0.2, 0.3], [0.05, 0.01, 0.02, 0.07, 0.03])     # the last two are used as they are
DOMS = {1: lambda d: [-2.0, 4.0 + d], 2: lambda d: [-9.0 - d, 2.0], 3: lambda d: [-5.0, -1.0 + 0.5 * d], 4: lambda d: [1.0, 1.0 + 1e-5 * (d + 1)], 5: lambda d: [-3e7, 5e7]}


def p_cells(rank, dim, n, pi, vi, dom, local, pn):
    import bet.sample as samp
    from bet.Comm import comm
    from scipy.stats import gaussian_kde
    s = samp.sample_set(dim)
    V = CELLS[dim][:n]
    s.set_values(V.copy())
    s.set_p_norm(pn)
    P = np.array((list(PW[pi]) * 9)[:n])
    P = P / P.sum() if P.sum() else np.ones(n) / n
    vol = None if VW[vi] is None else np.array((list(VW[vi]) * 9)[:n]) / (sum((list(VW[vi]) * 9)[:n]) if vi < 3 else 1.0)
    size = 1.0
    if dom:
        s.set_domain(np.array([DOMS[int(dom)](d) for d in range(dim)]))
        size = float(np.prod([DOMS[int(dom)](d)[1] - DOMS[int(dom)](d)[0] for d in range(dim)]))
    s.set_prob_type('voronoi')
    expect_error(lambda: s.pdf(V), 'density without probabilities', (samp.wrong_input,))
    expect_error(lambda: s.marginal_pdf(V, 0), 'marginal without probabilities', (samp.wrong_input,))
    s.set_probabilities(P.copy())
    if vol is not None:
        s.set_volumes(vol.copy())
    if local:
        s.global_to_local()
        if local == 'only':
            s._probabilities = None
    den = P / ((vol if vol is not None else np.ones(n) / n) * size)
    Q = X[:, :dim]
    D = np.array([[np.linalg.norm(q - v, ord=pn) for v in V] for q in Q])
    if n > 1:
        keep = np.diff(np.sort(D, axis=1)[:, :2])[:, 0] > 1e-6      # points on cell boundaries have no unique cell
        Q, D = Q[keep], D[keep]
    c = np.argmin(D, axis=1)
    if n > 2 and np.sum(P > 0) > 1:      # the marginal as the first evaluation
        for i in range(dim):
            require_close(np.asarray(s.marginal_pdf(Q.copy(), i)), kde_pdf(gaussian_kde(V[:, i], weights=P), Q[:, i]), 'estimated marginal %d, asked first' % i, 1e-9)
    got = np.asarray(s.pdf(Q.copy()))
    require_close(got, den[c], 'density at points', 1e-12)
    require_close(np.asarray(s.pdf(Q[::-1])), den[c][::-1], 'density at the points in reverse', 1e-12)
    for k in range(len(Q)):
        require_close(np.asarray(s.pdf(Q[k:k + 1])), den[c[k:k + 1]], 'density at point %d alone' % k, 1e-12)
    require_close(s.get_probabilities(), P, 'probabilities after evaluation', 0)
    require_close(s.get_values(), V, 'values after evaluation', 0)
    if dim == 1:
        require_close(np.asarray(s.pdf(Q[:, 0])), den[c], 'density at a vector of points', 1e-12)
    expect_error(lambda: s.pdf(np.zeros((2, dim + 1))), 'points of wrong dimension', (samp.dim_not_matching,))
    if n > 2 and np.sum(P > 0) > 1:
        for i in range(dim):
            k = gaussian_kde(V[:, i], weights=P)
            for v in (Q, Q[:, i], Q[:, i:i + 1]):
                require_close(np.asarray(s.marginal_pdf(v.copy(), i)), kde_pdf(k, Q[:, i]), 'estimated marginal %d' % i, 1e-9)
    # the density follows new probabilities and volumes
    P2 = P[::-1].copy()
    v2 = np.arange(1.0, n + 1) / np.sum(np.arange(1.0, n + 1))
    s.set_probabilities(P2)
    s.set_volumes(v2)
    s._probabilities_local = s._volumes_local = None
    require_close(np.asarray(s.pdf(Q.copy())), (P2 / (v2 * size))[c], 'density after new probabilities', 1e-12)
    return 14


def run_cells(ctx, item):
    dim, n, pi, vi, dom, local, pn, size = item

    def go():
        for k in run_ranks(size, p_cells, (dim, n, pi, vi, dom, local, pn)).values():
            ctx.step(k)
    ctx.case('cells', dict(dim=dim, n=n, prob=pi, vol=vi, domain=dom, local=local, p_norm=pn, ranks=size), go)


# -- stored densities -----------------------------------------------------------

def p_stored(rank, dim, n, dom, word):
    import bet.sample as samp
    s = samp.voronoi_sample_set(dim)
    s.set_values(X[:n, :dim].copy())
    p = (np.arange(n) % 3 + 1.0) / np.sum(np.arange(n) % 3 + 1.0)
    v = (np.arange(n) % 4 + 1.0) / np.sum(np.arange(n) % 4 + 1.0)
    s.set_probabilities(p)
    s.set_volumes(v)
    tot = 1.0
    if dom:
        D = np.array([DOMS[int(dom)](i) for i in range(dim)])
        s.set_domain(D)
        tot = np.prod(D[:, 1] - D[:, 0])
    want = p / (v * tot)
    for op in word:
        if op == 'global':
            s.set_densities()
            require_close(s.get_densities(), want, 'stored densities', 1e-12)
        elif op == 'local':
            s.global_to_local()
            s.set_densities_local()
        elif op == 'given':
            s.set_densities(want.copy())
        elif op == 'split':
            s.global_to_local()
        elif op == 'gather':
            s.local_to_global()
    s.global_to_local()
    if s.get_densities_local() is None:
        s.set_densities_local()
    s.local_to_global()
    require_close(s.get_densities(), want, 'stored densities after %s' % (word,), 1e-12)
    return 1 + len(word)


def run_stored(ctx, item):
    dim, n, dom, word, size = item

    def go():
        for k in run_ranks(size, p_stored, (dim, n, dom, word)).values():
            ctx.step(k)
    ctx.case('stored', dict(dim=dim, n=n, domain=dom, word=word, ranks=size), go)


# -- refused kinds --------------------------------------------------------------

def run_bad(ctx, item):
    kind, role, dim = item

    def go():
        import bet.sample as samp
        s = samp.sample_set(dim)
        s.set_values(X[:3, :dim].copy())
        if role == 'init':
            s.set_prob_type_init(kind)
            f, g = s.pdf_init, s.marginal_pdf_init
        else:
            s.set_prob_type(kind)
            f, g = s.pdf, s.marginal_pdf
        expect_error(lambda: f(X[:2, :dim]), 'density of kind %r' % (kind,), (samp.wrong_input,))
        for i in range(dim):
            expect_error(lambda: g(X[:2, :dim], i), 'marginal of kind %r' % (kind,), (samp.wrong_input,))
        expect_error(lambda: samp.evaluate_pdf(kind, None, X[:2, :dim]), 'density of kind %r' % (kind,), (samp.wrong_input,)) if kind != 'voronoi' else None
        ctx.step(2 + dim)
    ctx.case('refused', dict(kind=kind, role=role, dim=dim), go)


def run(ctx):
    T = ctx.thorough
    items = []
    for dim in (1, 2, 3, 4) if T else (1, 2, 3):
        for role in ('init', 'updated'):
            for var in range(len(RVS)):
                for size in (1, 2):
                    items.append((('rv', dim, (), False, var), role, size))
            for nc in (1, 2, 3, 4) if T else (1, 2, 3):
                for w in W[nc]:
                    for empty in ((False, True) if 0.0 in w else (False,)):
                        for size in ((1, 2) if nc == 1 or T else (1,)):
                            items.append((('gmm', dim, tuple(w), empty, 0), role, size))
                            items.append((('gmm', dim, tuple(w), empty, 2), role, size))
                            for var in (0, 1):
                                items.append((('kde', dim, tuple(w), empty, var), role, size))
    for dim, role, sc in itertools.product((1, 2, 4, 6), ('init', 'updated'), (1.0, 2.0 ** -20, 2.0 ** 20)):
        if sc == 1.0 and dim < 4 or dim == 6 and sc != 1.0:
            continue
        for var in range(len(RVS)):
            items.append((('rv', dim, (), False, var, sc), role, 1))
        for w in ([1.0], [0.3, 0.7], [0.5, 0.0, 0.5]):
            items.append((('gmm', dim, tuple(w), 0.0 in w, 0, sc), role, 1))
            items.append((('kde', dim, tuple(w), 0.0 in w, 1, sc), role, 1))
    ctx.shards(items, run_param)
    cells = []
    for dim, n, pi, vi, dom, local in itertools.product((1, 2, 3), (1, 2, 3, 5), range(4), range(3), (False, True), ('', 'both', 'only')):
        for pn in (1.0, 2.0, np.inf) if (T or (n > 1 and dim > 1)) else (2.0,):
            for size in ((1, 2, 3, 4, 5) if T else (1, 3) if pn == 2.0 else (2,)):
                cells.append((dim, n, pi, vi, dom, local, pn, size))
    for dim, n, pi, vi, size in itertools.product((1, 2, 3, 4, 6), (17, 40), range(4), range(3), (1, 5, 8)):
        k = len(cells)
        cells.append((dim, n, pi, vi, bool(k % 2), ('', 'both', 'only')[k % 3], (1.0, 2.0, np.inf)[k // 2 % 3], size))
    for dim, n, vi, dom in itertools.product((1, 2, 3), (1, 2, 5, 17), range(5), (0, 1, 2, 3, 4, 5)):
        k = len(cells)
        cells.append((dim, n, k % 3, vi, dom, ('', 'both', 'only')[k // 3 % 3], (1.0, 2.0, np.inf)[k // 2 % 3], 1 + k % 3))
    ctx.shards(cells, run_cells)
    ctx.shards([(dim, n, dom, w, size) for dim in (1, 2, 3) for n in (1, 4, 5) for dom in (False, True) + ((2, 3, 4, 5) if n == 4 else ()) for k in range(1, 4 if T else 3) for w in itertools.product(('global', 'local', 'given', 'split', 'gather'), repeat=k) for size in (1, 2, 3)], run_stored)
    ctx.shards([(k, r, d) for k in (None, 'lhs', 'grid', 'unknown', 'RV', '', 'voronoi') for r in ('init', 'updated') for d in (1, 2)], run_bad)
