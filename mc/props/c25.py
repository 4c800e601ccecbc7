"""Density-based updates weigh samples by observed over predicted density."""
import itertools

import numpy as np

from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('every assignment of predicted and observed outputs to up to 3 clusters (clusters without observations, without predictions, label gaps and cluster maps included) x input/output dimension x initial weights x bandwidth x '
        'update method; oracle: kernel densities rebuilt with the statistics library per cluster, weights, weighted moments, component weights, pooled weights and fits recomputed from the definition')
BOUNDS = {'quick': {'predicted': '7', 'observed': '6', 'clusters': '1..3', 'input dim': '1..2', 'output dim': '1..2', 'wide': 'n 20/75/200, input dim 1..5, output dim 1..3, 4 clusters, magnitudes 1e-7..1e5', 'ranks': '1..2', 'rejection seeds': 300},
          'thorough': {'predicted': '9', 'observed': '7', 'clusters': '1..3', 'input dim': '1..3', 'output dim': '1..2', 'ranks': '1..3', 'rejection seeds': 600}}

LAM = np.array([[0.1, 2.0, -3.0], [0.5, 1.2, 4.0], [0.9, 0.3, 1.0], [0.35, 2.6, 0.5], [0.7, -0.4, 2.0], [0.2, 0.8, -1.0], [1.1, 1.9, 0.0], [0.6, 3.1, 3.0], [0.05, -0.9, -2.0]])
OBS = np.array([[0.55, 3.1], [1.4, 2.2], [0.9, 4.0], [2.1, 3.3], [1.7, 1.5], [0.3, 2.7], [1.2, 3.8]])
WI = np.array([1.0, 2.0, 0.5, 1.5, 1.0, 3.0, 0.25, 1.25, 2.5])


class Std:
    LAM, OBS, WI = LAM, OBS, WI
    X = np.array([[0.2, 1.1, 0.3], [0.8, 0.4, -1.0], [0.45, 2.2, 2.5]])

    @staticmethod
    def outputs(n, q):
        l = LAM[:n]
        return np.column_stack([l[:, 0] * 1.5 + 0.3 * l[:, 1] ** 2, 2.5 + l[:, 1] - 0.2 * l[:, 0]])[:, :q]


class Wide:
    """many samples, up to five inputs and three outputs, inputs and outputs of any magnitude"""

    def __init__(self, si, so):
        i = np.arange(1, 201)[:, None]
        g = np.sqrt(np.array([2.0, 3.0, 5.0, 7.0, 11.0]))[None]
        u = np.mod(i * g, 1.0)
        self.LAM = si * u
        self.WI = 0.5 + np.mod(np.arange(200) * 0.731, 2.0)
        self.q = so * np.column_stack([u[:, 0] * 1.5 + 0.3 * u[:, 1] ** 2, 2.5 + u[:, 1] - 0.2 * u[:, 2], u[:, 3] + u[:, 0] * u[:, 4]])
        self.OBS = so * (np.array([0.8, 2.9, 0.7]) + 0.25 * (np.mod(i * g[:, ::-1] * 0.7, 1.0)[:, :3] - 0.5))
        self.X = si * np.array([[0.2, 0.6, 0.3, 0.5, 0.4], [0.8, 0.4, 0.9, 0.3, 0.6], [0.45, 0.2, 0.5, 0.7, 0.1]])

    def outputs(self, n, q):
        return self.q[:n, :q]


class Peak(Wide):
    """observations crowded around the output of one sample: some weights are very large"""

    def __init__(self):
        Wide.__init__(self, 1.0, 1.0)
        i = np.arange(1, 201)[:, None]
        self.q[:, 0] += 30 * (i[:, 0] % 7 == 1)
        self.OBS = self.q[7] + 2e-4 * (np.mod(i * np.sqrt(np.array([[7.0, 5.0, 3.0]])), 1.0) - 0.5)
        for k in range(3, 200, 4):      # several samples next to the observations
            self.q[k] = self.q[7] + 1e-4 * (np.mod(k * np.sqrt(np.array([2.0, 3.0, 7.0])), 1.0) - 0.5)


TABS = {'std': Std, 'wide': Wide(1.0, 1.0), 'small outputs': Wide(1.0, 1e-7), 'large': Wide(1e4, 1e5), 'small': Wide(1e-4, 1e-3), 'peak': Peak()}


def quiet(f, *a, **k):
    import bet.calculateP.calculateR as cr
    cr.print = lambda *x, **y: None       # no diagnostics on the check's output
    return f(*a, **k)


def build(tab, n, k, d, q, lp, lo, wi, maps, mode, rank, size):
    t = TABS[tab]
    import bet.sample as samp
    i = samp.sample_set(d)
    o = samp.sample_set(q)
    Q = t.outputs(n, q)
    if mode == 'local':
        i.set_values_local(np.array_split(t.LAM[:n, :d], size)[rank])
        o.set_values_local(np.array_split(Q, size)[rank])
    else:
        i.set_values(t.LAM[:n, :d].copy())
        o.set_values(Q.copy())
    ob = samp.sample_set(q)
    ob.set_values(t.OBS[:k, :q].copy())
    if lp is not None:
        o.set_region(np.array(lp))
    if lo is not None:
        ob.set_region(np.array(lo))
    if wi:
        o.set_weights_init(t.WI[:n].copy())
    if maps:
        nc = max(lp) + (1 if maps is True else maps)      # trailing maps without any sample
        mp = [np.column_stack([Q[np.array(lp) == c, 0] * (2.0 + c)]) for c in range(nc)]
        mo = [np.column_stack([t.OBS[:k][np.array(lo) == c, 0] * (2.0 + c)]) for c in range(nc)]
        o.set_cluster_maps(mp)
        ob.set_cluster_maps(mo)
    return samp.discretization(i, o, output_observed_set=ob)


def oracle(tab, n, k, d, q, lp, lo, wi, maps, bw):
    t = TABS[tab]
    """Ratios per cluster, pointers, cluster weights, pooled weights; None when a density is degenerate."""
    from scipy.stats import gaussian_kde
    Q = t.outputs(n, q)
    one = lp is None or lo is None          # without labels on both sides there is one cluster
    lp = np.zeros(n, int) if one else np.array(lp)
    lo = np.zeros(k, int) if one else np.array(lo)
    nc = lp.max() + (1 if maps in (True, False) else maps)
    r, ptr, cw = [], [], []
    w = np.zeros(n)
    pool = np.zeros(n)
    for c in range(nc):
        p = np.flatnonzero(lp == c)
        b = np.flatnonzero(lo == c)
        ptr.append(p)
        cw.append(len(b) / float(k))
        if len(p) == 0 or len(b) == 0:
            if len(b) > 0:
                return None
            if maps is True and len(p) == 0 or 1 < len(p) <= q:
                return None
            r.append(None)
            continue
        x = Q[p] if not maps else Q[p][:, :1] * (2.0 + c)
        y = t.OBS[b, :q] if not maps else t.OBS[b][:, :1] * (2.0 + c)
        if len(p) <= x.shape[1] or len(b) <= x.shape[1]:
            return None
        try:
            kp = gaussian_kde(x.T, bw_method=bw, weights=t.WI[:n][p] if wi else None)
            ko = gaussian_kde(y.T, bw_method=bw)
        except Exception:
            return None
        rr = ko(x.T) / kp(x.T)
        if not np.all(np.isfinite(rr)) or rr.sum() <= 0:
            return None
        r.append(rr)
        w[p] = rr
        pool[p] = cw[c] * rr / rr.sum()
    if abs(sum(cw) - 1) > 1e-12:
        return None
    return r, ptr, cw, w, pool


def moments(x, w):
    m = (w[:, None] * x).sum(0) / w.sum()
    z = x - m
    return m, (w[:, None, None] * z[:, :, None] * z[:, None, :]).sum(0) / w.sum()


def mixture_pdf(X, m, C):
    from scipy.stats import multivariate_normal
    return multivariate_normal(m, C).pdf(X)


class Constant(object):
    """Uniform generators that always answer c; anything else is left to the real generator."""

    def __init__(self, c):
        self.c, self.asked, self.uniform = c, 0, True

    def __enter__(self):
        self.real = {nm: getattr(np.random, nm) for nm in ('uniform', 'random', 'rand', 'random_sample')}

        def const(size):
            self.asked += 1
            return self.c if size is None or size == () else np.full(size, self.c)

        def uniform(low=0.0, high=1.0, size=None):
            if np.ndim(low) or np.ndim(high):
                self.uniform = False
                return self.real['uniform'](low, high, size)
            return low + (high - low) * const(size)
        np.random.uniform = uniform
        np.random.random = np.random.random_sample = const
        np.random.rand = lambda *a: const(a)
        return self

    def __exit__(self, *a):
        for k, f in self.real.items():
            setattr(np.random, k, f)


def rows_of(new, L):
    return sorted(int(np.flatnonzero((L == row).all(1))[0]) for row in np.array(new.get_values()))


def p_case(rank, tab, n, k, d, q, lp, lo, wi, maps, bw, method, mode, size, orc):
    t = TABS[tab]
    import bet.calculateP.calculateR as cr
    r, ptr, cw, w, pool = orc
    disc = build(tab, n, k, d, q, lp, lo, wi, maps, mode, rank, size)
    L = t.LAM[:n, :d]
    X = t.X[:, :d]
    kw = {} if bw is None else {'bw_method': bw}
    nc = len(cw)
    if method == 'invert':
        rs, rr, pp = quiet(cr.invert, disc, **kw)
        require(len(rs) == len(rr) == len(pp) == nc, 'number of clusters %d, expected %d', len(rr), nc)
        for c in range(nc):
            require(list(pp[c]) == list(ptr[c]), 'samples of cluster %d: %s', c, list(pp[c]))
            if r[c] is not None:
                require_close(rr[c], r[c], 'weights of cluster %d' % c, 1e-9)
                require_close(rs[c], r[c].mean(), 'diagnostic of cluster %d' % c, 1e-9)
    elif method == 'kde':
        from scipy.stats import gaussian_kde
        pm, cwg = quiet(cr.invert_to_kde, disc, **kw)
        require_close(np.array(cwg), np.array(cw), 'component weights', 1e-12)
        require(len(pm) == d and all(len(x) == nc for x in pm), 'layout of the marginals')
        joint = np.ones(3)
        for i in range(d):
            mix = np.zeros(3)
            for c in range(nc):
                if r[c] is not None:
                    want = gaussian_kde(L[ptr[c], i], weights=r[c], bw_method=bw)(X[:, i])
                    require_close(pm[i][c](X[:, i]), want, 'marginal %d of cluster %d' % (i, c), 1e-9)
                    mix += cw[c] * want
            require_close(disc.get_input_sample_set().marginal_pdf(X, i), mix, 'marginal density %d' % i, 1e-9)
            joint *= mix
        s = disc.get_input_sample_set()
        require(s.get_prob_type() == 'kde', 'measure type %s', s.get_prob_type())
        require_close(s.pdf(X), joint, 'density', 1e-9)
    elif method in ('gmm', 'gauss'):
        f = cr.invert_to_gmm if method == 'gmm' else cr.invert_to_multivariate_gaussian
        means, covs, cwg = quiet(f, disc, **kw)
        comp = [(cw[c], L[ptr[c]], r[c]) for c in range(nc)] if method == 'gmm' else [(1.0, L, pool)]
        require_close(np.array(cwg), np.array([c[0] for c in comp]), 'component weights', 1e-12)
        require(len(means) == len(covs) == len(comp), 'number of components')
        pdf = np.zeros(3)
        ok = True
        for c, (a, x, ww) in enumerate(comp):
            if ww is None:
                continue
            m, C = moments(x, ww)
            require_close(np.asarray(means[c]), m, 'mean of component %d' % c, 1e-9)
            require_close(np.asarray(covs[c]), C, 'covariance of component %d' % c, 1e-9)
            if np.linalg.eigvalsh(C)[0] < 1e-9 * max(1.0, np.linalg.eigvalsh(C)[-1]):
                ok = False
            else:
                pdf += a * mixture_pdf(X, m, C)
        s = disc.get_input_sample_set()
        require(s.get_prob_type() == 'gmm', 'measure type %s', s.get_prob_type())
        if ok:
            require_close(s.pdf(X), pdf, 'density', 1e-9)
    elif method == 'reject':
        hits = np.zeros(n)
        reps = 300 if rank is not None else 0
        for rep in range(reps):
            np.random.seed(1000 * rep + 7 * rank + 3)
            new = quiet(cr.invert_rejection_sampling, disc, **kw)
            v = np.array(new.get_values())
            idx = [int(np.flatnonzero((L == row).all(1))[0]) if (L == row).all(1).any() else -1 for row in v]
            require(-1 not in idx and len(set(idx)) == len(idx), 'accepted %s are no distinct samples', v.tolist())
            require_close(new.get_probabilities(), np.full(len(v), 1.0 / len(v)), 'probabilities', 1e-12)
            require_close(new.get_domain(), np.column_stack([v.min(0), v.max(0)]), 'domain', 1e-12)
            require(int(np.argmax(pool)) in idx, 'the sample of highest weight was rejected')
            hits[idx] += 1
            if size > 1:
                return v
        want = pool / pool.max()
        # the criterion itself: a generator whose answers are all c accepts the samples of relative weight above c (or above 1 - c, which is as good)
        for c in sorted({min(max(x * f, 1e-300), 1 - 1e-9) for x in want if x > 1e-9 for f in (1 - 1e-5, 1 + 1e-5)}):
            with Constant(c) as g:
                new = quiet(cr.invert_rejection_sampling, disc, **kw)
            if not g.asked:
                break
            got = rows_of(new, L)
            ok = [list(np.flatnonzero(want > z)) for z in (c, 1 - c)]
            require(got in ok or not g.uniform, 'a uniform answer %r accepts the samples %s, relative weights %s', c, got, want.tolist())
        require(np.all(np.abs(hits / reps - want) < 0.19), 'acceptance frequencies %s, relative weights %s', (hits / reps).tolist(), want.tolist())
    else:      # fitted random variables
        name, form = method
        rv = {'norm': ['norm', {}], 'uniform': ['uniform', {}], 'beta': ['beta', {'fb': 3, 'floc': -9, 'fscale': 20}], 'gamma': ['gamma', {'floc': -9}], 'expon': ['expon', {}], 't': ['t', {'fdf': 5, 'floc': 0.25}], 'f': ['f', {'fdfn': 3, 'floc': -9, 'fscale': 9}],
              'exponweib': ['exponweib', {'fa': 2, 'floc': -9, 'fscale': 11}]}[name]
        arg = {'str': name, 'one': rv, 'tuple': tuple(rv), 'each': [rv] * d, 'mixed': [rv if i % 2 == 0 else ['norm', {}] for i in range(d)]}[form]
        if form == 'each' and d == 2:
            arg = [list(rv), list(rv)]
        N = 100000
        pp = quiet(cr.invert_to_random_variable, disc, arg, num_reweighted=N, **kw)
        s = disc.get_input_sample_set()
        require(s.get_prob_type() == 'rv' and len(pp) == d, 'measure %s %s', s.get_prob_type(), pp)
        import scipy.stats as stats
        pdf = np.ones(3)
        cnt = np.round(N * pool / pool.sum()).astype(int)
        for i in range(d):
            nm, par = pp[i]
            exp_name = 'norm' if form == 'mixed' and i % 2 else name
            require(nm == exp_name, 'distribution %s in dimension %d', nm, i)
            x = L[:, i]
            m, C = moments(L[:, i:i + 1], pool)
            if nm == 'norm':
                require_close(np.array([par['loc'], par['scale']]), np.array([m[0], C[0, 0] ** 0.5]), 'fit of dimension %d' % i, 1e-3)
            elif nm == 'uniform':
                u = x[cnt > 0]
                require_close(np.array([par['loc'], par['scale']]), np.array([u.min(), u.max() - u.min()]), 'fit of dimension %d' % i, 1e-9)
            elif nm == 'expon':
                u = x[cnt > 0]
                require_close(np.array([par['loc'], par['scale']]), np.array([u.min(), m[0] - u.min()]), 'fit of dimension %d' % i, 1e-3)
            elif nm == 'gamma' and form != 'str':
                y = x + 9
                lm = np.log((pool * y).sum()) - (pool * np.log(y)).sum()
                from scipy.special import digamma
                require(abs(np.log(par['a']) - digamma(par['a']) - lm) < 1e-3 * lm + 1e-6, 'gamma fit of dimension %d', i)
            for fx, nmv in (('fa', 'a'), ('fb', 'b'), ('floc', 'loc'), ('fscale', 'scale'), ('fdf', 'df'), ('fdfn', 'dfn')):
                if form != 'str' and fx in rv[1] and nm == name:
                    require(par[nmv] == rv[1][fx], 'fixed parameter %s became %r', nmv, par[nmv])
            pdf *= getattr(stats, nm).pdf(X[:, i], **par)
        require_close(s.pdf(X), pdf, 'density', 1e-9)
    require_close(disc.get_input_sample_set().get_weights(), w, 'weights of the samples', 1e-9)
    require_close(disc.get_input_sample_set().get_values(), L, 'samples', 0)
    return None


def run_case(ctx, item):
    n, k, d, q, lp, lo, wi, maps, bw, method, mode, size = item[:12]
    tab = item[12] if len(item) > 12 else 'std'
    orc = oracle(tab, n, k, d, q, lp, lo, wi, maps, bw)
    if orc is None:
        return
    if method == 'kde' and any(x is not None and ((x > 1e-12 * x.max()).sum() < 2) for x in orc[0]):
        return

    def go():
        rs = run_ranks(size, p_case, (tab, n, k, d, q, lp, lo, wi, maps, bw, method, mode, size, orc)).values()
        for v in rs[1:]:
            if v is not None:
                require_close(v, rs[0], 'processes disagree on the accepted samples', 0)
        ctx.step()
    ctx.case('update', dict(n=n, k=k, d=d, q=q, pred=lp, obs=lo, wi=wi, maps=maps, bw=bw, method=method, mode=mode, ranks=size, **({} if tab == 'std' else {'data': tab})), go)


def run_bad(ctx, item):
    def go():
        import bet.sample as samp
        import bet.calculateP.calculateR as cr
        for d in (1, 2, 3):
            disc = build('std', 7, 6, d, 1, None, None, False, False, 'global', 0, 1)
            for m in (1, 2, 3, 4):
                if m != d:
                    expect_error(lambda: quiet(cr.invert_to_random_variable, disc, [['norm', {}]] * m), '%d distributions' % m, (samp.dim_not_matching,))
                    ctx.step()
            expect_error(lambda: quiet(cr.invert_to_random_variable, disc, 3), 'distribution 3', (samp.wrong_input,))
            expect_error(lambda: quiet(cr.invert_to_random_variable, disc, [['no_such_distribution', {}]] * d), 'unknown distribution')
    ctx.case('bad', item, go)


def run(ctx):
    T = ctx.thorough
    n, k = (9, 7) if T else (7, 6)
    METH = ['invert', 'kde', 'gmm', 'gauss', ('norm', 'str'), ('uniform', 'one'), ('norm', 'each'), ('uniform', 'tuple'), ('norm', 'mixed'), ('expon', 'str')]
    items = []
    j = 0
    # one cluster: every dimension, weights, bandwidth, method
    for d in (1, 2, 3) if T else (1, 2):
        for q in (1, 2):
            for lp, lo in ((None, None), ((0,) * n, (0,) * k)):
                for wi in (False, True):
                    for bw in (None, 'silverman', 0.7):
                        for meth in METH + [('uniform', 'mixed')]:
                            for mode, size in (('global', 1), ('local', 2), ('global', 3)):
                                items.append((n, k, d, q, lp, lo, wi, False, bw, meth, mode, size))
                    for meth in (('beta', 'one'), ('gamma', 'each'), ('t', 'one'), ('f', 'one'), ('exponweib', 'each')):
                        if (meth[0] != 't' or T) and bw is not None:
                            items.append((n, k, d, q, lp, lo, wi, False, None, meth, 'global', 1))
    # one cluster with its own maps
    for d, q in ((1, 1), (2, 1), (2, 2), (1, 2)):
        for wi in (False, True):
            for meth in METH:
                for bw in (None, 0.7):
                    items.append((n, k, d, q, (0,) * n, (0,) * k, wi, True, bw, meth, 'global', 1 + wi))
    # maps for clusters that nobody belongs to
    for p, o in (((0,) * n, (0,) * k), (tuple(i % 2 for i in range(n)), tuple(i % 2 for i in range(k))), (tuple(int(i > 2) for i in range(n)), (0,) * k)):
        for d, q in ((1, 1), (2, 2)):
            for meth in METH:
                for extra in (2, 3):
                    items.append((n, k, d, q, p, o, bool(d - 1), extra, None, meth, 'global', 1 + (d == 2)))
    # clusters: every assignment with label 0 first seen anywhere
    for nc in (2, 3):
        P = [p for p in itertools.product(range(nc), repeat=n) if max(p) == nc - 1]
        O = [o for o in itertools.product(range(nc), repeat=k)]
        if nc == 3 or T:
            P = P[::(1 if nc == 2 else 37 if T else 41)]
        O = O[::(1 if nc == 2 else 7)] if not T else O[::(1 if nc == 2 else 17)]
        for p in P:
            for o in O:
                j += 1
                if j % (3 if nc == 2 and not T else 3 if T else 2):
                    continue
                d, q = ((1, 1), (2, 1), (2, 2), (1, 2))[j // 2 % 4]
                items.append((n, k, d, q, p, o, bool(j % 3 == 0), (j // 5) % 3 == 0, (None, 'silverman', 0.7)[j // 11 % 3], METH[(j // 7) % len(METH)], 'global', 1 + (j % 13 == 0)))
    # labels with gaps (a label nobody has)
    for p in itertools.product((0, 2), repeat=n):
        if 2 not in p:
            continue
        for o in ((0, 2, 0, 2, 0, 2) + (0,) * T, (0, 0, 2, 2, 2, 2) + (0,) * T, (2,) * k):
            j += 1
            d, q = ((1, 1), (2, 1), (2, 2), (1, 2))[j % 4]
            items.append((n, k, d, q, p, o, bool(j % 3 == 0), False, (None, 'silverman', 0.7)[j // 11 % 3], METH[(j // 7) % len(METH)], 'global', 1 + (j % 13 == 0)))
    # larger samples, more dimensions, other magnitudes
    for tab in sorted(TABS)[::1]:
        if tab == 'std':
            continue
        for nn, kk in ((20, 12), (75, 40), (200, 100)):
            for d in (1, 3, 5):
                for q in (1, 2, 3):
                    for nc in (1, 2, 4):
                        p = tuple(i * i % nc if i > nc else i % nc for i in range(nn))
                        o = tuple((i + i // 3) % nc for i in range(kk))
                        for m, meth in enumerate(('invert', 'kde', 'gmm', 'gauss', ('norm', 'str'))):
                            if not T and (nn + d + q + nc + m) % 3 and nn < 200:
                                continue
                            items.append((nn, kk, d, q, p if nc > 1 else None, o if nc > 1 else None, bool((d + q) % 2), False, (None, 'silverman', 0.7)[(d + nc) % 3], meth, 'global' if q < 3 else 'local', 1 + (q == 3), tab))
    # labels on one side only
    for lp, lo in ((tuple(i % 2 for i in range(n)), None), (tuple(i % 3 for i in range(n)), None), (None, tuple(i % 2 for i in range(k))), ((1,) * n, None), (None, (2,) * k)):
        for d, q in ((1, 1), (2, 2)):
            for wi in (False, True):
                for meth in ('invert', 'kde', 'gmm', 'gauss', ('norm', 'str')):
                    for size in (1, 2):
                        items.append((n, k, d, q, lp, lo, wi, False, (None, 0.7)[wi], meth, 'global', size))
    ctx.shards(items, run_case)
    rej = []
    for p, o in ((None, None), ((0, 1, 0, 1, 0, 1, 0) + (0, 1) * T, (0, 1, 0, 1, 1, 0) + (1,) * T), ((0, 0, 1, 0, 0, 1, 1) + (0, 0) * T, (1, 1, 0, 1, 1, 0) + (1,) * T), ((0, 1, 0, 2, 1, 2, 0) + (1, 2) * T, (0, 2, 0, 2, 2, 0) + (2,) * T),
                 ((1, 1, 0, 0, 1, 1, 1) + (1, 0) * T, (1, 1, 1, 1, 1, 1) + (1,) * T)):
        for d, q in ((1, 1), (2, 1), (2, 2)):
            for wi in (False, True):
                for size in (1, 2, 3):
                    rej.append((n, k, d, q, p, o, wi, False, None, 'reject', 'global', size))
    ctx.shards(rej, run_case)
    ctx.shards(range(1), run_bad)
