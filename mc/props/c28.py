"""Distances between measures equal their definition on the comparison points and forget earlier evaluations."""
import itertools
import math

import numpy as np

from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks
from mc.props.c27 import measure

RULE = ('every pair of stored measures (independent variables, mixtures, kernel estimates, cells; initial or updated; set or discretization) x metric name, alias or function x normalization, and every sequence of changing the comparison points, '
        're-evaluating and measuring up to the depth; oracle: metrics written out on densities obtained from the sample sets at the points; symmetry, identity and bounds on all pairs; marginal distances on the documented interval')
BOUNDS = {'quick': {'measures': 8, 'dims': '1..2', 'metrics': 9, 'history length': 3, 'ranks': '1..2', 'marginal points': '20..400'}, 'thorough': {'measures': 10, 'dims': '1..3', 'metrics': 9, 'history length': 4, 'ranks': '1..3', 'marginal points': '20..1000'}}

NAMES = {'tv': ('tv', 'totvar', 'total variation', 'total-variation', '1'), '2': ('euclidean', '2-norm', '2'), 'sqhell': ('sqhell', 'sqhellinger'), 'hell': ('hell', 'hellinger'),
         'kl': ('kl', 'k-l', 'kullback-leibler', 'entropy'), 'mink': ('mink', 'minkowski'), 'norm': ('norm',), 'fn': ()}


def fmax(a, b, factor=1.0):
    return factor * np.max(np.abs(a - b))


def define(met, p, q, norm, width=None, kw=None):
    """The metric on densities p, q at the points; width of the interval for marginals."""
    p, q = np.array(p, float), np.array(q, float)
    n = len(p)
    if norm:
        p, q, f = p / p.sum(), q / q.sum(), 1.0
    else:
        f = (1.0 if width is None else width) / n
    w = np.ones(n) if not (kw and 'w' in kw) else np.array(kw['w'], float)
    if met == 'tv':
        return 0.5 * f * np.sum(w * np.abs(p - q))
    if met == '2':
        return math.sqrt(f * np.sum(w * (p - q) ** 2))
    if met == 'sqhell':
        return 0.5 * f * np.sum((np.sqrt(p) - np.sqrt(q)) ** 2)
    if met == 'hell':
        return math.sqrt(0.5 * f * np.sum((np.sqrt(p) - np.sqrt(q)) ** 2))
    if met == 'kl':
        p, q = p / p.sum(), q / q.sum()
        if np.any((q == 0) & (p > 0)):
            return float('inf')
        m = p > 0
        return float(np.sum(p[m] * np.log(p[m] / q[m]))) / math.log((kw or {}).get('base', math.e))
    if met in ('mink', 'norm'):
        k = (kw or {}).get('p' if met == 'mink' else 'ord', 2)
        return (f if width is None else 1.0) * np.sum(w * np.abs(p - q) ** k) ** (1.0 / k)
    return fmax(p, q, **(kw or {}))


KWS = {'mink': [{}, {'p': 1}, {'p': 3}], 'norm': [{}, {'ord': 1}, {'ord': 3}], 'kl': [{}, {'base': 2}], 'fn': [{}, {'factor': 3.0}]}      # options of the metrics


def opts(met, n):
    """Options of a metric at n points; weights of the points where the metric takes them."""
    o = KWS.get(met, [{}])
    if met in ('tv', '2', 'mink'):
        o = o + [{'w': 0.5 + 0.25 * np.arange(n)}] + ([{'w': 1.0 + np.arange(n) % 3, 'p': 3}] if met == 'mink' else [])
    return o


KINDS = ('rv', 'rv1', 'gmm', 'gmm2', 'kde', 'kde2', 'cells', 'cells2', 'gmm3', 'rv2')
VAL = np.array([[0.31, -0.42, 0.9], [1.24, 0.77, -0.3], [-0.68, 0.15, 0.4], [0.83, 1.36, 1.1], [0.05, -1.13, -0.7], [1.91, 0.48, 0.2]])
PTS = [np.array([[0.11, 0.2, 0.3], [0.72, -0.5, 0.1], [-0.43, 0.9, 0.6], [1.37, 0.45, -0.4], [0.94, 1.05, 0.8]]), np.array([[0.5, 0.5, 0.5], [0.21, -0.3, 0.2], [1.13, 0.07, 0.9]]),
       np.array([[-0.3, 0.62, 0.1], [0.4, -0.91, 0.35], [0.87, 0.26, -0.2], [1.52, 0.78, 0.7], [0.02, 0.13, 1.0], [0.66, 1.2, 0.05], [-0.12, -0.22, 0.4]])]
PTS.append(np.random.RandomState(77).uniform(-0.9, 1.4, (60, 3)))


def mk(kind, dim, role, disc):
    import bet.sample as samp
    s = samp.sample_set(dim)
    n = 6 if kind.endswith('2') else 4
    s.set_values(VAL[:n, :dim] + (0.1 if kind.endswith('2') else 0.0))
    if kind.startswith('cells'):
        P = np.array([0.1, 0.4, 0.3, 0.2, 0.0, 0.0])[:n] if kind == 'cells' else np.array([0.3, 0.1, 0.1, 0.2, 0.2, 0.1])
        s.set_domain(np.array([[-1.0, 2.5]] * dim))
        s.set_prob_type('voronoi')
        s.set_probabilities(P)
        s.set_volumes(np.arange(2.0, n + 2) / np.sum(np.arange(2.0, n + 2)))
    else:
        spec = {'rv': ('rv', dim, (), False, 0), 'rv1': ('rv', dim, (), False, 1), 'rv2': ('rv', dim, (), False, 2), 'gmm': ('gmm', dim, (1.0,), False, 0), 'gmm2': ('gmm', dim, (0.3, 0.7), False, 0), 'gmm3': ('gmm', dim, (0.2, 0.3, 0.5), False, 0),
                'kde': ('kde', dim, (1.0,), False, 0), 'kde2': ('kde', dim, (0.5, 0.5), False, 1)}[kind]
        p = measure(spec)[0]
        if role:
            s.set_prob_type_init(spec[0])
            s.set_prob_parameters_init(p)
        else:
            s.set_prob_type(spec[0])
            s.set_prob_parameters(p)
    o = s
    if disc:
        e = samp.sample_set(dim)
        e.set_values(np.zeros((n, dim)) + np.arange(n)[:, None])
        e.set_prob_type('rv')
        e.set_prob_parameters([['norm', {'loc': 50.0}]] * dim)
        o = samp.discretization(s, e) if disc == 'in' else samp.discretization(e, s)
    return o, s


def dens(s, role, x):
    return np.asarray(s.pdf_init(x) if role else s.pdf(x), float)


def mdens(s, role, x, i):
    return np.asarray(s.marginal_pdf_init(x, i) if role else s.marginal_pdf(x, i), float)


def close(a, b, what, tol=1e-9):
    a, b = float(a), float(b)
    require((math.isinf(b) and a == b) or abs(a - b) <= tol * max(1.0, abs(b)) + 1e-300 and (b < 1e-6 or abs(a - b) <= 1e-6 * abs(b)), '%s: %r, expected %r', what, a, b)


def p_pair(rank, k1, k2, dim, r1, r2, disc):
    import bet.postProcess.compareP as cp
    import bet.sample as samp
    o1, s1 = mk(k1, dim, r1, disc)
    o2, s2 = mk(k2, dim, r2, disc)
    steps = 0
    m = cp.compare(o1, o2, inputs=disc != 'out', set1_init=bool(r1), set2_init=bool(r2))
    w = cp.compare(o2, o1, inputs=disc != 'out', set1_init=bool(r2), set2_init=bool(r1))
    same = cp.compare(o1, o1, inputs=disc != 'out', set1_init=bool(r1), set2_init=bool(r1))
    expect_error(lambda: m.distance('tv'), 'distance without comparison points', (samp.wrong_input,))
    for pi in (0, 1, 2, 3):
        x = PTS[pi][:, :dim]
        as_set = samp.sample_set(dim)
        as_set.set_values(x.copy())
        if dim > 1:       # the points are distributed as well
            as_set.global_to_local()
        for c in (m, w, same):
            c.set_compare_set(x.copy() if pi != 1 else as_set)
        a, b = dens(s1, r1, x), dens(s2, r2, x)
        require(a.sum() > 0 and b.sum() > 0, 'degenerate points')
        for met, names in NAMES.items():
            for norm in (False, True):
                for nm in names or (fmax,):
                    for kw in opts(met, len(x)):
                        d = m.distance(nm, normalize=norm, **kw)
                        want = define(met, a, b, norm, None, kw)
                        close(d, want, 'distance %s%s' % (nm, ' normalized' if norm else ''))
                        require(d >= -1e-12, 'negative distance %r', d)
                        e = same.distance(nm, normalize=norm, **kw)
                        require(abs(e) < 1e-12, 'distance %s of a measure to itself is %r', nm, e)
                        if met != 'kl':
                            close(w.distance(nm, normalize=norm, **kw), want, 'distance %s with exchanged measures' % (nm,))
                        if norm and met in ('tv', 'hell', 'sqhell') and 'w' not in kw:
                            require(d <= 1 + 1e-12, 'distance %s of %r exceeds one', nm, d)
                        require_close(np.asarray(m.pdfs1, float), a, 'densities of the first measure after distance %s' % (nm,), 1e-9)
                        require_close(np.asarray(m.pdfs2, float), b, 'densities of the second measure after distance %s' % (nm,), 1e-9)
                        steps += 3
        close(m.distance(), define('tv', a, b, False), 'default distance')
    return steps


def run_pair(ctx, item):
    k1, k2, dim, r1, r2, disc, size = item

    def go():
        for n in run_ranks(size, p_pair, (k1, k2, dim, r1, r2, disc)).values():
            ctx.step(n)
    ctx.case('pair', dict(first=k1, second=k2, dim=dim, init=[r1, r2], disc=disc, ranks=size), go)


# -- histories -------------------------------------------------------------------

PTS.append(0.7 * PTS[0][::-1] + 0.12)
OPS = ('pts0', 'pts1', 'pts4', 'moved', 'eval', 'tv', 'tv!', 'hell!', 'kl', 'new')


def run_hist(ctx, item):
    k1, k2, dim, ops = item

    def go():
        import bet.postProcess.compareP as cp
        _, s1 = mk(k1, dim, 0, '')
        _, s2 = mk(k2, dim, 0, '')
        m = cp.compare(s1, s2)
        cur, flips = None, 0
        for op in ops:
            if op.startswith('pts'):
                cur = PTS[int(op[3])][:, :dim].copy()
                m.set_compare_set(cur)
                continue
            if cur is None:
                cur = PTS[0][:, :dim].copy()
                m.set_compare_set(cur)
            if op == 'moved':       # the same array with other contents
                cur *= 0.9
                cur += 0.05
                m.set_compare_set(cur)
                continue
            if op == 'new':         # another measure
                s1.set_prob_type('rv')
                s1.set_prob_parameters([['norm', {'loc': 0.3 * flips, 'scale': 1.5}]] * dim)
                flips += 1
                continue
            if op == 'eval':
                m.evaluate_pdfs()
                continue
            met, norm = op.rstrip('!'), op.endswith('!')
            close(m.distance(met, normalize=norm), define(met, dens(s1, 0, cur), dens(s2, 0, cur), norm), 'distance %s after %s' % (op, list(ops)))
        for op in ('tv', 'hell!', 'kl'):
            if cur is not None:
                met, norm = op.rstrip('!'), op.endswith('!')
                close(m.distance(met, normalize=norm), define(met, dens(s1, 0, cur), dens(s2, 0, cur), norm), 'final distance %s after %s' % (op, list(ops)))
        ctx.step(len(ops) + 3)
    ctx.case('history', dict(first=k1, second=k2, dim=dim, ops=list(ops)), go)


# -- random comparison points ---------------------------------------------------------

def p_rand(rank, k1, k2, dim, num, fac, seed):
    import bet.postProcess.compareP as cp
    np.random.seed(100 * seed + rank)
    _, s1 = mk(k1, dim, 0, '')
    _, s2 = mk(k2, dim, 0, '')
    s1.set_values(np.array(s1.get_values()) * 10.0 ** np.arange(dim) + 100.0 * np.arange(dim))
    s2.set_values(np.array(s2.get_values()) * 10.0 ** np.arange(dim) + 100.0 * np.arange(dim))
    m = cp.compare(s1, s2)
    m.set_compare_set(num, **({} if fac is None else {'compare_factor': fac}))
    return np.array(m.compare_vals), np.vstack([s1.get_values(), s2.get_values()])


def run_rand(ctx, item):
    k1, k2, dim, num, fac, size, seed = item

    def go():
        res = run_ranks(size, p_rand, (k1, k2, dim, num, fac, seed)).values()
        x, V = res[0]
        for y, _ in res:
            require(np.array_equal(x, y), 'processes compare at different points')
        require(x.shape == (num, dim), 'comparison points of shape %s', x.shape)
        lo, hi = V.min(axis=0), V.max(axis=0)
        d = (fac or 0.0) * (hi - lo)
        require(np.all(x >= lo - d - 1e-9) and np.all(x <= hi + d + 1e-9), 'comparison points outside the domain of the samples')
        if num >= 200:
            wd = hi - lo + 2 * d
            require(np.all(x.min(axis=0) < lo - d + 0.1 * wd) and np.all(x.max(axis=0) > hi + d - 0.1 * wd), 'comparison points %s..%s do not fill %s..%s', x.min(axis=0), x.max(axis=0), lo - d, hi + d)
        ctx.step()
    ctx.case('random-points', dict(first=k1, second=k2, dim=dim, num=num, factor=fac, ranks=size, seed=seed), go)


# -- marginals ---------------------------------------------------------------------

def interval_of(s1, s2, i, fac):
    a, b = s1.get_domain(), s2.get_domain()
    if a is not None and b is not None:
        lo, hi = min(a[i, 0], b[i, 0]), max(a[i, 1], b[i, 1])
        if lo != -np.inf and hi != np.inf:
            return lo - fac * (hi - lo), hi + fac * (hi - lo)
    v = np.hstack([s1.get_values()[:, i], s2.get_values()[:, i]])
    lo, hi = v.min(), v.max()
    return lo - fac * (hi - lo), hi + fac * (hi - lo)


GIVEN = {'given': (-0.8, 1.7), 'right': (0.4, 1.3), 'left': (-1.1, -0.2)}
DOMS = (None, ((-1.0, 2.5), (-2.0, 2.0), (-1.0, 3.0)), ((-3.0, 1.5), (0.0, 4.0), (-2.0, 2.0)), ((-np.inf, np.inf),) * 3, ((0.0, np.inf),) * 3)


def run_marg(ctx, item):
    k1, k2, dim, r1, r2, d1, d2, how, npts = item

    def go():
        import bet.postProcess.compareP as cp
        _, s1 = mk(k1, dim, r1, '')
        _, s2 = mk(k2, dim, r2, '')
        for s, d in ((s1, d1), (s2, d2)):
            s._domain = None
            if DOMS[d] is not None:
                s.set_domain(np.array(DOMS[d][:dim]))
        m = cp.compare(s1, s2, set1_init=bool(r1), set2_init=bool(r2))
        w = cp.compare(s2, s1, set1_init=bool(r2), set2_init=bool(r1))
        for i in range(dim):
            if how in GIVEN:
                iv, kw = GIVEN[how], {'interval': list(GIVEN[how])}
            else:
                iv, kw = interval_of(s1, s2, i, how), ({'compare_factor': how} if how else {})
            x = np.linspace(iv[0], iv[1], npts)
            a, b = mdens(s1, r1, x, i), mdens(s2, r2, x, i)
            for met, names in NAMES.items():
                for norm in (False, True):
                    nm = names[0] if names else fmax
                    for ok in opts(met, npts):
                        want = define(met, a, b, norm, iv[1] - iv[0], ok)
                        kk = dict(kw, num_points=npts, normalize=norm, **ok)
                        close(m.distance_marginal(i, functional=nm, **kk), want, 'marginal distance %s' % (nm,))
                        if met != 'kl':
                            close(w.distance_marginal(i, functional=nm, **kk), want, 'marginal distance %s with exchanged measures' % (nm,))
                        ctx.step(2)
            for nm in NAMES['tv'] + NAMES['2'] + NAMES['sqhell'] + NAMES['hell'] + NAMES['kl']:
                met = [k for k, v in NAMES.items() if nm in v][0]
                close(m.distance_marginal(i, functional=nm, num_points=npts, **kw), define(met, a, b, False, iv[1] - iv[0]), 'marginal distance %s' % nm)
            # quadrature on the same interval; smooth integrands only
            if k1.startswith(('gmm', 'kde')) and k2.startswith(('gmm', 'kde')) and how != 1.5:
                t = np.linspace(iv[0], iv[1], 4001)
                p, q = mdens(s1, r1, t, i), mdens(s2, r2, t, i)
                for nm, want, tol in (('tv', 0.5 * np.trapz(np.abs(p - q), t), 2e-2), ('2', math.sqrt(np.trapz((p - q) ** 2, t)), 1e-3), ('hell', math.sqrt(0.5 * np.trapz((np.sqrt(p) - np.sqrt(q)) ** 2, t)), 1e-3),
                                      ('sqhell', 0.5 * np.trapz((np.sqrt(p) - np.sqrt(q)) ** 2, t), 1e-3), ('kl', np.trapz(p * np.log(p / q), t), 1e-3), ('norm', math.sqrt(np.trapz((p - q) ** 2, t)), 1e-3), ('mink', math.sqrt(np.trapz((p - q) ** 2, t)), 1e-3),
                                      (lambda u, v: np.minimum(u, v), np.trapz(np.minimum(p, q), t), 2e-2), (lambda u, v: (u - v) ** 4, np.trapz((p - q) ** 4, t), 1e-3)):
                    got = m.distance_marginal_quad(i, functional=nm, **kw)
                    require(abs(got - want) <= tol, 'integrated marginal distance %s: %r, expected %r', nm, got, want)
                    if nm != 'kl':
                        require(abs(w.distance_marginal_quad(i, functional=nm, **kw) - want) <= tol, 'integrated marginal distance %s with exchanged measures', nm)
                    ctx.step(2)
                for o in (dict(maxiter=3), dict(tol=1e-1, rtol=1e-1), dict(miniter=12, maxiter=14)):
                    close(m.distance_marginal_quad(i, functional='hell', **kw, **o) ** 2, m.distance_marginal_quad(i, functional='sqhell', **kw, **o), 'integrated squared Hellinger distance with %s' % o)
    ctx.case('marginal', dict(first=k1, second=k2, dim=dim, init=[r1, r2], domains=[d1, d2], interval=how, points=npts), go)


def run_scale(ctx, item):
    """Measures of any scale and position."""
    dim, loc, sc, ratio = item

    def go():
        import bet.postProcess.compareP as cp
        import bet.sample as samp

        def mkn(shift, r):
            s = samp.sample_set(dim)
            s.set_values(loc + sc * VAL[:4, :dim])
            s.set_prob_type('rv')
            s.set_prob_parameters([['norm', {'loc': loc + sc * shift, 'scale': sc * r}]] * dim)
            return s
        s1, s2 = mkn(0.1, 1.0), mkn(0.4, ratio)
        m = cp.compare(s1, s2)
        for x in (loc + sc * PTS[0][:, :dim], loc + sc * PTS[3][:, :dim], loc + sc * 60.0 * np.vstack((PTS[0], PTS[1]))[:, :dim]):
            m.set_compare_set(x.copy())
            a, b = dens(s1, 0, x), dens(s2, 0, x)
            for met in ('tv', '2', 'sqhell', 'hell', 'mink'):
                for norm in (False, True):
                    if norm and not (a.sum() > 0 and b.sum() > 0):
                        continue
                    want = define(met, a, b, norm)
                    got = m.distance(NAMES[met][0], normalize=norm)
                    require(abs(got - want) <= 1e-7 * abs(want), 'distance %s: %r, expected %r', met, got, want)
            require(m.pdfs_zero == int(np.sum((a == 0) & (b == 0))), 'points without density: %s of %s, %s', m.pdfs_zero, a.tolist(), b.tolist())
            ctx.step(10)
    ctx.case('scale', dict(dim=dim, loc=loc, scale=sc, ratio=ratio), go)


def run_bad(ctx, item):
    def go():
        import bet.postProcess.compareP as cp
        import bet.sample as samp
        _, s1 = mk('gmm', 1, 0, '')
        _, s2 = mk('gmm', 2, 0, '')
        r = samp.rectangle_sample_set(1)
        expect_error(lambda: cp.compare(s1, s2), 'measures of different dimension', (samp.dim_not_matching,))
        for bad in (None, 3, np.zeros((3, 1)), r):
            expect_error(lambda: cp.compare(s1, bad), 'comparing with %r' % (bad,), (samp.wrong_input,))
            expect_error(lambda: cp.compare(bad, s1), 'comparing with %r' % (bad,), (samp.wrong_input,))
        m = cp.compare(s1, s1)
        expect_error(lambda: m.set_compare_set(np.zeros((3, 2))), 'points of wrong dimension', (samp.dim_not_matching,))
        expect_error(lambda: m.set_compare_set(s2), 'points of wrong dimension', (samp.dim_not_matching,))
        for bad in ('x', None, 0.5, [1, 2]):
            expect_error(lambda: m.set_compare_set(bad), 'points %r' % (bad,), (samp.wrong_input,))
        ctx.step(15)
    ctx.case('refused', item, go)


def run(ctx):
    T = ctx.thorough
    dims = (1, 2, 3) if T else (1, 2)
    kinds = KINDS if T else KINDS[:8]
    items = []
    for dim, (a, k1), (b, k2) in itertools.product((1, 2, 3), enumerate(kinds), enumerate(kinds)):
        k = len(items)
        r1 = 0 if k1.startswith('cells') else (a + b) % 2
        r2 = 0 if k2.startswith('cells') else (a + 2 * b + dim) % 2
        items.append((k1, k2, dim, r1, r2, ('', 'in', 'out')[k % 3], 1 + (k % 4 == 0) + (k % 8 == 0 and T) + 4 * (k % 16 == 1)))
    ctx.shards(items, run_pair)
    L = 4 if T else 3
    hist = []
    for n in range(1, L + 1):
        for ops in itertools.product(OPS, repeat=n):
            hist.append((('cells', 'gmm', 'kde2')[len(hist) % 3], ('gmm2', 'cells2')[len(hist) % 2], 1 + len(hist) % 2, ops))
    ctx.shards(hist, run_hist)
    ctx.shards([(a, b, d, n, f, s, sd) for (a, b) in (('gmm', 'gmm2'), ('cells2', 'cells'), ('rv', 'rv1')) for d in dims for n in (1, 7, 200) for f in (None, 0.0, 0.25, 1.0, 3.0) for s in ((1, 2, 3) if T else (1, 3)) for sd in ((1, 2, 3, 4) if T else (ctx.seed,))], run_rand)
    marg = []
    for dim, k1, k2, (d1, d2) in itertools.product(dims, ('gmm', 'kde2', 'rv1', 'cells', 'gmm2'), ('gmm2', 'kde', 'rv', 'cells2'), ((0, 0), (1, 2), (2, 1), (1, 1), (0, 1), (3, 3), (1, 3), (4, 4))):
        if 'cells' in (k1, k2[:5]) and d1 in (3, 4):
            pass
        k = len(marg)
        r1 = 0 if k1.startswith('cells') else k % 2
        r2 = 0 if k2.startswith('cells') else (k // 2) % 2
        for how in (0.0, 0.3, 1.5, 'given', 'right', 'left') if T else ((0.0, 0.3, 'given')[k % 3], (0.3, 'right', 1.5, 'left', 0.0)[k % 5]):
            marg.append((k1, k2, dim, r1, r2, d1, d2, how, (20, 101, 400)[k % 3] if not T else (20, 101, 1000)[k % 3]))
    ctx.shards(marg, run_marg)
    ctx.shards([(d, l, s, r) for d in (1, 2, 3) for s in (1e-9, 1e-4, 1.0, 1e4, 1e8) for l in (0.0, 3.0 * s, -1e3 * s) for r in (1.0, 0.3, 4.0)], run_scale)
    ctx.shards([0], run_bad)
