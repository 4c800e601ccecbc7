"""Sampling an updated measure returns the requested number of proper samples."""
import itertools

import numpy as np

from mc.build import concat_local
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('every kind of measure (independent variables, Gaussian mixtures, weighted kernel estimates) with well separated components and coordinates x dimension x component weights (zero weights and empty components included) x '
        'requested count x process count x source object x generator seed; oracle: total count, number per component within one of its share, every coordinate within the range of its own component')
BOUNDS = {'quick': {'dims': '1..3 (selected: 8)', 'components': '1..3 (selected: 9)', 'counts': '1..8,25 (selected: 100)', 'ranks': '1..4 (selected: 8)', 'seeds': 1}, 'thorough': {'dims': '1..4', 'components': '1..4', 'counts': '1..12,25,60', 'ranks': '1..6', 'seeds': 3}}

W = {1: ([1.0],), 2: ([0.5, 0.5], [1.0, 0.0], [0.0, 1.0], [0.25, 0.75], [1 / 3, 2 / 3]), 3: ([1 / 3, 1 / 3, 1 / 3], [0.5, 0.0, 0.5], [0.2, 0.3, 0.5], [0.1, 0.8, 0.1], [0.0, 0.0, 1.0]),
     4: ([0.25] * 4, [0.1, 0.2, 0.3, 0.4], [0.0, 0.5, 0.0, 0.5]), 6: ([1 / 6] * 6, [0.05, 0.1, 0.0, 0.25, 0.3, 0.3]), 9: ([1 / 9] * 9, [0.02, 0.48] + [0.5 / 7] * 7)}


def centre(c, d):
    return 1000.0 * (c + 1) + 100.0 * d


def source(kind, dim, w, empty, disc):
    import bet.sample as samp
    from scipy.stats import gaussian_kde
    s = samp.sample_set(dim)
    s.set_values(np.arange(4.0 * dim).reshape(4, dim))
    if kind == 'rv':
        s.set_prob_type('rv')
        s.set_prob_parameters([['uniform', {'loc': centre(0, d) - 2.0, 'scale': 4.0}] if d % 2 else ['norm', {'loc': centre(0, d), 'scale': 0.25}] for d in range(dim)])
    elif kind == 'gmm':
        m = [None if empty and w[c] == 0 else np.array([centre(c, d) for d in range(dim)]) for c in range(len(w))]
        C = [None if empty and w[c] == 0 else np.diag([0.05 + 0.01 * d for d in range(dim)]) for c in range(len(w))]
        s.set_prob_type('gmm')
        s.set_prob_parameters((m, C, list(w)))
    elif kind == 'kde':
        x = np.array([-0.5, 0.25, 0.5, 0.0, -0.25])
        pm = [[None if empty and w[c] == 0 else gaussian_kde(centre(c, d) + x, weights=np.array([1.0, 2.0, 0.5, 1.0, 1.0])) for c in range(len(w))] for d in range(dim)]
        s.set_prob_type('kde')
        s.set_prob_parameters((pm, list(w)))
    if disc:
        o = samp.sample_set(1)
        o.set_values(np.zeros((4, 1)))
        return samp.discretization(s, o)
    return s


def p_draw(rank, kind, dim, w, empty, n, glob, disc, seed):
    import bet.sampling.basicSampling as bs
    np.random.seed(1000 * seed + rank)
    src = source(kind, dim, w, empty, disc)
    new = bs.sample_from_updated(src, n, globalize=glob)
    s0 = src.get_input_sample_set() if disc else src
    require(new is not s0, 'the samples replaced the operand')
    require_close(s0.get_values(), np.arange(4.0 * dim).reshape(4, dim), 'values of the operand', 0)
    require(new.get_dim() == dim, 'dimension %s', new.get_dim())
    l = np.array(new.get_values_local())
    g = new.get_values()
    pt = new.get_prob_type_init()
    require(pt == kind, 'initial measure of the samples is %s', pt)
    x = np.array([[centre(0, d) + 0.1 for d in range(dim)]])
    require_close(new.pdf_init(x), s0.pdf(x), 'initial density of the samples', 1e-12)
    if glob:
        require(new.check_num() == n, 'number of samples %s', new.check_num())
    return dict(l=l, g=None if g is None else np.array(g), nl=new.check_num_local())


def run_draw(ctx, item):
    kind, dim, w, empty, n, glob, disc, size, seed = item

    def go():
        rs = run_ranks(size, p_draw, (kind, dim, w, empty, n, glob, disc, seed)).values()
        for r in rs:
            require(r['l'].ndim == 2 and (r['l'].shape[1] == dim), 'local samples have shape %s', r['l'].shape)
            require(r['nl'] == len(r['l']), 'local count')
        v = concat_local([r['l'] for r in rs])
        require(v.shape == (n, dim), 'samples of all processes %s, requested %s', v.shape, (n, dim))
        if glob:
            for r in rs:
                require_close(r['g'], v, 'global samples', 0)
        comp = np.round(v[:, 0] / 1000.0).astype(int) - 1
        for d in range(dim):
            dist = np.abs(v[:, d] - np.array([centre(c, d) for c in comp]))
            require(np.all(dist <= (3.2 if kind == 'rv' else 4.0)), 'coordinate %d of samples of components %s: %s', d, comp.tolist(), v[:, d].tolist())
            require(n == 1 or len(np.unique(v[:, d])) > 1, 'coordinate %d is constant', d)
        for c in range(len(w)):
            k = int(np.sum(comp == c))
            require(abs(k - n * w[c]) <= 1 + 1e-9, 'component %d of weight %r got %d of %d samples', c, w[c], k, n)
            require(w[c] > 0 or k == 0, 'component %d without weight got %d samples', c, k)
        ctx.step(n)
    ctx.case('draw', dict(kind=kind, dim=dim, w=w, empty=empty, n=n, glob=glob, disc=disc, ranks=size, seed=seed), go)


def run_law(ctx, item):
    """Mean and covariance of the samples of every component, within six standard deviations."""
    kind, dim, size, seed = item

    def go():
        import bet.sample as samp
        import bet.sampling.basicSampling as bs
        from scipy.stats import gaussian_kde
        n, w = 6000, ([1.0] if kind == 'rv' else [0.25, 0.75])
        x = np.array([-0.5, 0.25, 1.5, 0.0, -0.25])
        means, covs, par = [], [], []
        for c in range(len(w)):
            m = np.array([centre(c, d) for d in range(dim)])
            A = np.array([[1.0 if i == j else 0.6 * (-1) ** (i + c) if j < i else 0.0 for j in range(dim)] for i in range(dim)]) * (0.3 + 0.2 * c)
            C = A.dot(A.T)
            if kind == 'kde':
                ks = [gaussian_kde(m[d] + x * (1 + d), weights=np.array([1.0, 2.0, 0.5, 1.0, 1.0 + c])) for d in range(dim)]
                par.append(ks)
                m = np.array([np.sum(k.weights * k.dataset[0]) for k in ks])
                C = np.diag([float(k.covariance[0, 0]) + np.sum(k.weights * (k.dataset[0] - mm) ** 2) for k, mm in zip(ks, m)])
            elif kind == 'rv':
                C = np.diag([(1.0 + d) ** 2 / 12.0 if d % 2 else (0.2 + d) ** 2 for d in range(dim)])
            means.append(m)
            covs.append(C)

        def prog(rank):
            np.random.seed(1000 * seed + rank)
            s = samp.sample_set(dim)
            s.set_values(np.zeros((2, dim)))
            s.set_prob_type(kind)
            if kind == 'rv':
                s.set_prob_parameters([['uniform', {'loc': centre(0, d) - 0.5 * (1.0 + d), 'scale': 1.0 + d}] if d % 2 else ['norm', {'loc': centre(0, d), 'scale': 0.2 + d}] for d in range(dim)])
            elif kind == 'gmm':
                s.set_prob_parameters((list(means), list(covs), list(w)))
            else:
                s.set_prob_parameters(([[par[c][d] for c in range(len(w))] for d in range(dim)], list(w)))
            return np.array(bs.sample_from_updated(s, n).get_values())
        v = run_ranks(size, prog, ()).values()[0]
        comp = np.round(v[:, 0] / 1000.0).astype(int) - 1
        for c in range(len(w)):
            y = v[comp == c] - means[c]
            k = len(y)
            require(abs(k - n * w[c]) <= 1, 'component %d got %d samples', c, k)
            sd = np.sqrt(np.diag(covs[c]))
            require(np.all(np.abs(y.mean(0)) <= 6 * sd / np.sqrt(k)), 'component %d: mean is off by %s', c, y.mean(0).tolist())
            z = y / sd
            for i in range(dim):
                for j in range(i + 1):
                    p = z[:, i] * z[:, j]
                    want = covs[c][i, j] / (sd[i] * sd[j])
                    require(abs(p.mean() - want) <= 6 * p.std() / np.sqrt(k), 'component %d: correlation of coordinates %d and %d is %r, expected %r', c, i, j, p.mean(), want)
        ctx.step(n)
    ctx.case('law', dict(kind=kind, dim=dim, ranks=size, seed=seed), go)


def run_bad(ctx, item):
    def go():
        import bet.sample as samp
        import bet.sampling.basicSampling as bs
        B = (bs.bad_object,)
        for bad in (None, 3, 'x', np.zeros((3, 2))):
            expect_error(lambda: bs.sample_from_updated(bad, 3), 'object %r' % (bad,), B)
        for disc in (False, True):
            s = source('none', 2, [1.0], False, disc)
            expect_error(lambda: bs.sample_from_updated(s, 3), 'set without a measure', B)
            i = s.get_input_sample_set() if disc else s
            for t in ('voronoi', 'lhs', 'unknown'):
                i.set_prob_type(t)
                expect_error(lambda: bs.sample_from_updated(s, 3), 'measure of type %s' % t, B)
                ctx.step()
    ctx.case('bad', item, go)


def run(ctx):
    T = ctx.thorough
    items = []
    k = 0
    for seed in range(1, 4) if T else (ctx.seed,):
        for kind in ('rv', 'gmm', 'kde'):
            for dim in (1, 2, 3, 4) if T else (1, 2, 3):
                for nc in ((1,) if kind == 'rv' else (1, 2, 3, 4) if T else (1, 2, 3)):
                    for w in W[nc]:
                        for n in (tuple(range(1, 13)) + (25, 60) if T else tuple(range(1, 9)) + (25,)):
                            for size in range(1, 7 if T else 5):
                                for empty in (False, True) if 0.0 in w else (False,):
                                    k += 1
                                    items.append((kind, dim, w, empty, n, bool(k % 3), bool(k % 2), size, seed))
    for kind, dim, nc, n, size in itertools.product(('rv', 'gmm', 'kde'), (1, 4, 6, 8), (4, 6, 9), (2, 17, 100, 2100), (1, 5, 8)):
        for w in W[nc][:1] if kind == 'rv' else W[nc]:
            k += 1
            items.append((kind, dim, [1.0] if kind == 'rv' else w, bool(k % 2) and kind != 'rv', n, bool(k % 3), bool(k // 2 % 2), size, ctx.seed))
    for kind, dim, w, n, size in itertools.product(('gmm', 'kde'), (1, 2), ([2.0 ** -11, 1.0 - 2.0 ** -11], [1.0 - 2.0 ** -11, 2.0 ** -11], [0.5, 2.0 ** -12, 0.5 - 2.0 ** -12]), (5000, 8192), (1, 3)):
        k += 1
        items.append((kind, dim, w, False, n, bool(k % 3), bool(k // 2 % 2), size, ctx.seed))
    ctx.shards(items, run_draw)
    ctx.shards([(kd, d, r, s) for kd in ('rv', 'gmm', 'kde') for d in (1, 2, 3) for r in (1, 2, 3) for s in ((1, 2, 3) if T else (ctx.seed,))], run_law)
    ctx.shards(range(1), run_bad)
