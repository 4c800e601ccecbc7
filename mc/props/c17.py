"""Stencil and cluster points have the documented layout."""
import itertools

import numpy as np

from mc.build import snap_set, diff
from mc.core import require, require_close, expect_error

RULE = ('difference stencils: every number and order of centres, dimension and combination of step sizes, with and without a domain; random clusters: the same with every norm, radius form and cluster size, '
        'under every generator state of a fixed list and under generators replaced by every sequence (bounded length) of extreme answers')
BOUNDS = {'quick': {'wide': 'dims 1..8, centres 1..25, cluster size up to 12, scales 2^-30..2^20', 'dims': '1..3', 'centres': '1..3', 'cluster size': '1..4', 'norms': '1, 1.5, 2, 3, inf', 'generator states': 6, 'extreme answers': '5^(dim)'},
          'thorough': {'dims': '1..4', 'centres': '1..4', 'cluster size': '1..6', 'norms': '1, 1.5, 2, 3, inf', 'generator states': 40, 'extreme answers': '5^(dim)'}}

CENTRES = np.array([[0.25, 0.5, 0.75, 0.5], [0.875, 0.125, 0.5, 0.25], [0.0625, 0.9375, 0.25, 1.0], [0.5, 1.0, 0.0, 0.0]])


def mk(n, dim, perm, domain, cls='sample_set', scale=1.0):
    import bet.sample as samp
    s = getattr(samp, cls)(dim)
    if n > 4 or dim > 4:
        i, j = np.arange(n)[:, None], np.arange(dim)[None]
        s.set_values(((i * 37 + j * 23 + i * j * 11) % 65) / 64.0 * scale)
    else:
        s.set_values(CENTRES[list(perm)[:n], :dim] * scale)
    if domain:
        s.set_domain(np.tile([[0.0, 1.0 * scale]], (dim, 1)))
    return s


def run_fd(ctx, item):
    kind, n, dim, perm, h, domain, form = item[:7]
    scale = item[7] if len(item) > 7 else 1.0
    dtype = item[8] if len(item) > 8 else None
    h = tuple(x * scale for x in h)

    def go():
        import bet.sensitivity.gradients as grad
        s = mk(n, dim, perm, domain, scale=scale)
        if dtype:
            s.set_values((np.arange(n * dim).reshape(n, dim) * 3 % 7).astype(dtype))
        c = np.array(s.get_values())
        before = snap_set(s)
        r = np.array(h) if form == 'array' else list(h) if form == 'list' else h[0]
        t = (grad.pick_ffd_points if kind == 'ffd' else grad.pick_cfd_points)(s, r)
        z = diff(before, snap_set(s))
        require(not z, 'changed the centres in %s', z)
        want = [c]
        for k in range(n):
            E = np.diag(np.array(h, float))
            want.append(c[k] + E)
            if kind == 'cfd':
                want.append(c[k] - E)
        require_close(np.array(t.get_values()) / scale, np.concatenate(want) / scale, 'stencil (in units of %g)' % scale, 1e-13)
        require(t.get_dim() == dim and t.check_num() == n * (1 + dim * (2 if kind == 'cfd' else 1)), 'number of points')
        if domain:
            require_close(t.get_domain(), s.get_domain(), 'domain')
        else:
            require(t.get_domain() is None, 'domain')
        # independent of the centres
        t.get_values()[...] = 7.0
        z = diff(before, snap_set(s))
        require(not z, 'the stencil shares data with the centres: %s', z)
        ctx.step(len(np.concatenate(want)))
    ctx.case('stencil', dict(kind=kind, centres=n, dim=dim, order=perm, steps=h, domain=domain, form=form, dtype=dtype), go)


def check_ball(ctx, s, call, n, dim, num, radius, p, domain):
    c = np.array(s.get_values())
    before = snap_set(s)
    t = call(s)
    z = diff(before, snap_set(s))
    require(not z, 'changed the centres in %s', z)
    v = np.array(t.get_values())
    require(v.shape == (n * (num + 1), dim), 'cluster set of shape %s, expected %s', v.shape, (n * (num + 1), dim))
    require_close(v[:n], c, 'centres first', 0)
    R = np.broadcast_to(np.array(radius, float), (dim,))
    for k in range(n):
        q = v[n + k * num: n + (k + 1) * num]
        e = np.abs(q - c[k]) / R
        nrm = e.max(1) if np.isinf(p) else (e ** p).sum(1) ** (1.0 / p)
        require(bool(np.all(nrm <= 1 + 1e-9)), 'points %s of centre %s at relative distance %s', q.tolist(), c[k].tolist(), nrm.tolist())
        if domain:
            d = s.get_domain()
            require(bool(np.all((q >= d[:, 0]) & (q <= d[:, 1]))), 'points %s outside the domain', q.tolist())
    require(t.check_num() == n * (num + 1), 'number of points %s', t.check_num())
    if domain:
        require_close(t.get_domain(), s.get_domain(), 'domain')
    for at in ('_left', '_right', '_width'):
        require(getattr(t, at, None) is None, 'temporary %s left behind', at)
    ctx.step(v.shape[0])
    return v


def calls(which, num, radius, p):
    import bet.sensitivity.gradients as grad
    if which == 'lp':
        return lambda s: grad.sample_lp_ball(s, num, radius, p)
    if which == 'default':
        return lambda s: grad.sample_lp_ball(s, num, radius)
    return lambda s: (grad.sample_l1_ball if which == 'l1' else grad.sample_linf_ball)(s, num, radius)


def run_ball(ctx, item):
    which, n, dim, perm, num, radius, p, domain, seed = item[:9]
    scale = item[9] if len(item) > 9 else 1.0
    radius = tuple(r * scale for r in radius) if isinstance(radius, tuple) else radius * scale

    def go():
        s = mk(n, dim, perm, domain, scale=scale)
        np.random.seed(seed)
        v = check_ball(ctx, s, calls(which, num, np.array(radius) if isinstance(radius, tuple) else radius, p), n, dim, num, radius, p, domain)
        pts = v[n:]
        require(len({tuple(r) for r in pts.tolist()}) == len(pts), 'repeated cluster points')
    ctx.case('ball', dict(which=which, centres=n, dim=dim, order=perm, size=num, radius=radius, p=p, domain=domain, seed=seed), go)


def run_law(ctx, item):
    """Centres in a corner of the domain, or a domain much smaller than the ball: what is left of the ball is covered evenly."""
    which, dim, p, kind, seed = item

    def go():
        import bet.sample as samp
        num = 3000 if kind == 'corner' else 40
        s = samp.sample_set(dim)
        lo = np.arange(dim) * 0.5 - 1.0
        hi = lo + (3.0 if kind == 'corner' else 0.5)
        s.set_domain(np.column_stack((lo, hi)))
        c = np.array([lo, hi]) if kind == 'corner' else np.array([0.5 * (lo + hi), lo + 0.1])
        s.set_values(c)
        R = 0.5 if kind == 'corner' else 3.0
        np.random.seed(seed)
        v = check_ball(ctx, s, calls(which, num, R, p), 2, dim, num, R, p, True)
        for k in range(2):
            q = v[2 + k * num: 2 + (k + 1) * num]
            require(bool(np.all((q > lo) & (q < hi))), 'points on the boundary of the domain')
            if kind != 'corner':
                z = (q - lo) / (hi - lo)
            else:
                e = np.abs(q - c[k]) / R
                r = e.max(1) if np.isinf(p) else (e ** p).sum(1) ** (1.0 / p)
                for m in (1, 2, 4):
                    require(abs(np.mean(r ** m) - dim / (dim + m)) <= 6 * np.std(r ** m) / np.sqrt(num), 'moment %d of the radius is %r, expected %r', m, np.mean(r ** m), dim / (dim + m))
                z = e if np.isinf(p) else None
            if z is not None:
                for m in (1, 2):
                    for d in range(dim):
                        require(abs(np.mean(z[:, d] ** m) - 1 / (m + 1)) <= 6 * np.std(z[:, d] ** m) / np.sqrt(num), 'moment %d of coordinate %d is %r', m, d, np.mean(z[:, d] ** m))
    ctx.case('law', dict(which=which, dim=dim, p=p, kind=kind, seed=seed), go)


class Answers(object):
    """Generator whose answers are dictated; falls back to the real one for other calls."""

    def __init__(self, word):
        self.word, self.k = word, 0
        self.real = {nm: getattr(np.random, nm) for nm in ('random', 'gamma', 'beta', 'randn')}

    def fill(self, size, f, real):
        """The next answers of the word, then those of the real generator (so that rejection loops end)."""
        a = np.array(real(), dtype=float)
        flat = a.reshape(-1)
        for i in range(min(flat.size, len(self.word) - self.k)):
            flat[i] = f(self.word[self.k])
            self.k += 1
        return flat.reshape(a.shape)

    def __enter__(self):
        R = self.real
        np.random.seed(11)
        np.random.random = lambda size=None: self.fill(size, lambda u: min(u, 1 - 2.0 ** -53), lambda: R['random'](size))
        np.random.gamma = lambda shape, scale=1.0, size=None: self.fill(size, lambda u: scale * (1e-12 + 3 * u), lambda: R['gamma'](shape, scale, size))
        np.random.beta = lambda a, b, size=None: self.fill(size, lambda u: u, lambda: R['beta'](a, b, size))
        np.random.randn = lambda *size: self.fill(size, lambda u: 2 * u - 1.01, lambda: R['randn'](*size))
        return self

    def __exit__(self, *a):
        for k, f in self.real.items():
            setattr(np.random, k, f)


def run_answers(ctx, item):
    n, dim, num, p, domain, word = item

    def go():
        s = mk(n, dim, tuple(range(n)), domain)
        with Answers(word) as a:
            check_ball(ctx, s, calls('lp', num, 0.25, p), n, dim, num, 0.25, p, domain)
    ctx.case('answers', dict(centres=n, dim=dim, size=num, p=p, domain=domain, answers=word), go)


def run_lp(ctx, item):
    """The building block: points within the unit ball, scaled and shifted."""
    dim, num, p, scale, loc, seed = item

    def go():
        import bet.sampling.LpGeneralizedSamples as lp
        l = None if loc is None else np.arange(dim) * 10.0 + loc
        for nm in ('Lp_generalized_uniform', 'Lp_generalized_beta', 'Lp_generalized_normal'):
            if np.isinf(p) and nm != 'Lp_generalized_uniform':
                continue
            np.random.seed(seed)
            f = getattr(lp, nm)
            v = np.array(f(dim, num, p, scale=scale, loc=l))
            require(v.shape == (num, dim), '%s returned shape %s', nm, v.shape)
            if nm == 'Lp_generalized_normal':
                continue
            e = np.abs(v - (0 if l is None else l)) / scale
            r = e.max(1) if np.isinf(p) else (e ** p).sum(1) ** (1.0 / p)
            require(bool(np.all(r <= 1 + 1e-7)), '%s outside the ball: %s', nm, r.tolist())
            np.random.seed(seed)
            base = np.array(f(dim, num, p))
            require_close(v, base * scale + (0 if l is None else l), '%s: scale and location' % nm, 1e-9)
            ctx.step()
    ctx.case('lp', dict(dim=dim, num=num, p=p, scale=scale, loc=loc, seed=seed), go)


def run_missing(ctx, item):
    def go():
        import bet.sample as samp
        import bet.sensitivity.gradients as grad
        s = samp.sample_set(2)
        f = dict(ffd=lambda: grad.pick_ffd_points(s, np.ones(2)), cfd=lambda: grad.pick_cfd_points(s, np.ones(2)), lp=lambda: grad.sample_lp_ball(s, 2, 0.1),
                 l1=lambda: grad.sample_l1_ball(s, 2, 0.1), linf=lambda: grad.sample_linf_ball(s, 2, 0.1))[item]
        expect_error(f, 'no centres', (ValueError,))
        ctx.step()
    ctx.case('missing', item, go)


def run(ctx):
    T = ctx.thorough
    D = (1, 2, 3, 4) if T else (1, 2, 3)
    N = (1, 2, 3, 4) if T else (1, 2, 3)
    H = (0.0625, 0.25, 2.0)
    items = []
    for kind in ('ffd', 'cfd'):
        for dim in D:
            for n in N:
                for perm in itertools.permutations(range(n)):
                    for h in itertools.product(H, repeat=dim):
                        for dom in (False, True):
                            for form in ('array', 'list'):
                                items.append((kind, n, dim, perm, h, dom, form))
                    if dim >= 1:
                        items.append((kind, n, dim, perm, (0.25,) * dim, True, 'scalar'))
    for kind in ('ffd', 'cfd'):
        for dim in (1, 2, 4, 5, 8):
            for n in (1, 6, 25):
                for sc in (1.0, 2.0 ** -30, 2.0 ** 20):
                    for dom in (False, True):
                        for hs in (2.0 ** -12, 0.5):
                            for form in ('array', 'list'):
                                items.append((kind, n, dim, tuple(range(n)), tuple(hs * (1 + j % 3) for j in range(dim)), dom, form, sc))
    items += [(kind, n, dim, tuple(range(n)), tuple(hs * (1 + j % 3) * (-1) ** (j % 2 if neg else 0) for j in range(dim)), dom, form, 1.0, dt)
              for kind in ('ffd', 'cfd') for n in (1, 2, 3) for dim in (1, 2, 3) for hs in (0.25, 1.0) for neg in (False, True) for dom in (False, True) for form in ('array', 'list') for dt in ('int64', 'int32', 'float32', None)]
    ctx.shards(items, run_fd)
    items = []
    for dim in D:
        for n in N:
            for num in (1, 2, 3, 4) if not T else (1, 2, 4, 6):
                for which, p in [('lp', p) for p in (1, 1.5, 2, 3, np.inf)] + [('default', 2), ('l1', 1), ('linf', np.inf)]:
                    for radius in (0.125, 1.0, tuple(0.1 + 0.15 * i for i in range(dim))):
                        for dom in (False, True):
                            for seed in range(40 if T else 6):
                                if not T and (seed + n + num) % 3:
                                    continue
                                items.append((which, n, dim, tuple(range(n))[::-1], num, radius, p, dom, seed))
    for dim in (1, 2, 4, 5, 8):
        for n in (1, 6, 25):
            for num in (1, dim + 1, 12):
                for which, p in [('lp', p) for p in (1, 1.5, 2, 3, np.inf)] + [('default', 2), ('l1', 1), ('linf', np.inf)]:
                    for radius in (0.0625, tuple(0.02 + 0.05 * (i % 3) for i in range(dim))):
                        for dom in (False, True):
                            for sc in (1.0, 2.0 ** -30, 2.0 ** 20):
                                items.append((which, n, dim, tuple(range(n)), num, radius, p, dom, 5, sc))
    ctx.shards(items, run_ball)
    ctx.shards([(w, dim, p, kind, sd) for kind in ('corner', 'small') for w, p in [('lp', p) for p in (1, 1.5, 2, 3, np.inf)] + [('default', 2), ('l1', 1), ('linf', np.inf)] for dim in ((1, 2, 3, 5) if kind == 'corner' else (1, 2))
                for sd in range(6 if T else 2)], run_law)
    U = (0.0, 0.25, 0.5, 0.75, 1.0)
    items = []
    for n in (1, 2, 3):
        for num in (1, 2):
            for dim in (1, 2) if not T else (1, 2, 3):
                for word in itertools.product(U, repeat=min(4 if not T else 5, 2 * dim)):
                    for p in (np.inf, 2, 1):
                        if p != np.inf and word[-1] == 0.0:
                            pass
                        items.append((n, dim, num, p, bool((len(items)) % 2), word))
    ctx.shards(items, run_answers)
    ctx.shards([(dim, num, p, sc, loc, seed) for dim in D for num in (1, 2, 5) for p in (0.5, 1, 1.5, 2, 3, 5, 8, np.inf) for sc in (1.0, 0.25, 3.0) for loc in (None, 2.0) for seed in range(3 if not T else 20)], run_lp)
    ctx.shards(['ffd', 'cfd', 'lp', 'l1', 'linf'], run_missing)
