"""Gradient estimates are exact on maps of the order they resolve."""
import itertools

import numpy as np

from mc.build import snap_disc, diff
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('the difference estimators are linear in the data: every monomial they resolve, placed in every output, plus every map with coefficients from a small integer alphabet, for every '
        'dimension, number of centres, order of centres and combination of step sizes (all values dyadic, so the arithmetic is exact); radial-basis estimates: every kernel, shape '
        'parameter, cluster layout and neighbour count against the derivative of the interpolant solved independently')
BOUNDS = {'quick': {'wide': 'dims 1..7, outputs 1..8, centres 1..30, steps 2^-16..2^10, scales 2^-60..2^40', 'dims': '1..3', 'outputs': '1..3', 'centres': '1..3', 'coefficients': '{-1,0,2}', 'steps': '{1/8,1/2,2}'},
          'thorough': {'dims': '1..4', 'outputs': '1..3', 'centres': '1..4', 'coefficients': '{-2,-1,0,1,2}', 'steps': '{1/8,1/2,2}'}}

CENTRES = np.array([[0.25, -1.5, 3.0, 0.5], [2.0, 0.75, -0.5, 1.25], [-1.25, 4.0, 1.0, -2.0], [5.5, -3.0, 2.25, 0.125]])


def centres(n, dim, perm):
    if n > 4 or dim > 4:      # more centres and dimensions, still dyadic
        i, j = np.arange(n)[:, None], np.arange(dim)[None]
        return ((i * 37 + j * 23 + i * j * 11) % 64 - 32) / 8.0 + i * 16.0
    return CENTRES[list(perm)[:n], :dim].copy()


def disc(x, y):
    import bet.sample as samp
    i, o = samp.sample_set(x.shape[1]), samp.sample_set(y.shape[1])
    i.set_values(x.copy())
    o.set_values(y.copy())
    return samp.discretization(i, o)


def stencil(kind, c, h):
    """The documented layout, built here (pick_*_points is checked by C17)."""
    n, d = c.shape
    E = np.diag(h)
    rows = [c]
    for k in range(n):
        rows.append(c[k] + E)
        if kind == 'cfd':
            rows.append(c[k] - E)
    return np.concatenate(rows)


def check(ctx, kind, c, h, f, jac, normalize, domain, own=True, scale=1.0):
    import bet.sensitivity.gradients as grad
    import bet.sample as samp
    if own:
        x = stencil(kind, c, h)
    else:
        s = samp.sample_set(c.shape[1])
        s.set_values(c.copy())
        x = np.array((grad.pick_ffd_points if kind == 'ffd' else grad.pick_cfd_points)(s, h.copy()).get_values())
    d = disc(x, f(x))
    if domain:
        d.get_input_sample_set().set_domain(np.array([[-20.0, 20.0 + i] for i in range(c.shape[1])]))
        d.get_output_sample_set().set_domain(np.array([[-99.0, 99.0 + i] for i in range(f(c).shape[1])]))
    before = snap_disc(d)
    g = (grad.calculate_gradients_ffd if kind == 'ffd' else grad.calculate_gradients_cfd)(d, normalize=normalize)
    ctx.step(x.shape[0])
    want = np.array([jac(r) for r in c])
    if normalize:
        s = np.abs(want).sum(-1, keepdims=True)
        want = want / np.where(s == 0, 1.0, s)
    gi, go = g.get_input_sample_set(), g.get_output_sample_set()
    sc = 1.0 if normalize else scale
    require_close(np.asarray(gi.get_jacobians()) / sc, want / sc, 'gradients (in units of %g)' % sc, 1e-9)
    require_close(gi.get_values(), c, 'centres', 0)
    require_close(go.get_values(), f(c), 'outputs at the centres', 1e-12)
    require(g.check_nums() == c.shape[0], 'number of centres')
    if domain:
        require_close(gi.get_domain(), d.get_input_sample_set().get_domain(), 'input domain')
        require_close(go.get_domain(), d.get_output_sample_set().get_domain(), 'output domain')
    z = [k for k in diff(before, snap_disc(d))]
    require(not z, 'estimating gradients changed the data in %s', z)


def run_affine(ctx, item):
    kind, dim, m, n, perm, h, A, b, normalize, dom, own = item
    A, b, h = np.array(A, float).reshape(m, dim), np.array(b, float), np.array(h, float)

    def go():
        check(ctx, kind, centres(n, dim, perm), h, lambda x: x.dot(A.T) + b, lambda r: A, normalize, dom, own)
    ctx.case('affine', dict(kind=kind, dim=dim, outputs=m, centres=n, order=perm, steps=h, A=A, b=b, normalize=normalize, domain=dom, own=own), go)


def run_wide(ctx, item):
    kind, dim, m, n, h, scale, normalize, own, quad = item[:9]
    xs = item[9] if len(item) > 9 else 1.0        # unit of the inputs
    A = scale * np.array([[(i * 5 + j * 3 + 1) % 7 - 3.0 if (i + j) % 4 else 0.0 for j in range(dim)] for i in range(m)])
    if m > 1:
        A[m // 2] = 0.0
    Q = scale * np.array([[[(i + j * 2 + k * 3) % 5 - 2.0 if quad else 0.0 for k in range(dim)] for j in range(dim)] for i in range(m)])
    h = np.array(h, float)

    def go():
        def f(x):
            x = x / xs
            return x.dot(A.T) + np.einsum('ijk,nj,nk->ni', Q, x, x) + scale

        def jac(r):
            r = r / xs
            return (A + np.einsum('ijk,j->ik', Q, r) + np.einsum('ijk,k->ij', Q, r)) / xs
        check(ctx, kind, centres(n, dim, range(n)) * xs, h * xs, f, jac, normalize, True, own, scale / xs)
    ctx.case('wide', dict(kind=kind, dim=dim, outputs=m, centres=n, steps=h, scale=scale, normalize=normalize, own=own, quadratic=quad, inputs=xs), go)


def run_quad(ctx, item):
    dim, m, n, perm, h, terms, normalize = item
    h = np.array(h, float)

    def f(x):
        y = np.zeros((x.shape[0], m))
        for (o, i, j, a) in terms:
            y[:, o] += a * x[:, i] * x[:, j]
        return y

    def jac(r):
        J = np.zeros((m, dim))
        for (o, i, j, a) in terms:
            J[o, i] += a * r[j]
            J[o, j] += a * r[i]
        return J

    def go():
        check(ctx, 'cfd', centres(n, dim, perm), h, f, jac, normalize, False)
    ctx.case('quadratic', dict(dim=dim, outputs=m, centres=n, order=perm, steps=h, terms=terms, normalize=normalize), go)


# ---- radial basis functions --------------------------------------------------------------------

def phi(kernel, r, ep):
    e = ep * r
    return {'C4Matern': lambda: (1 + e + e ** 2 / 3) * np.exp(-e), 'Gaussian': lambda: np.exp(-e ** 2),
            'Multiquadric': lambda: np.sqrt(1 + e ** 2), 'InverseMultiquadric': lambda: 1 / np.sqrt(1 + e ** 2)}[kernel]()


def dphi_over_r(kernel, r, ep):
    """phi'(r)/r, finite at 0."""
    e = ep * r
    return {'C4Matern': lambda: -ep ** 2 * (1 + e) / 3 * np.exp(-e), 'Gaussian': lambda: -2 * ep ** 2 * np.exp(-e ** 2),
            'Multiquadric': lambda: ep ** 2 / np.sqrt(1 + e ** 2), 'InverseMultiquadric': lambda: -ep ** 2 * (1 + e ** 2) ** -1.5}[kernel]()


OFFS = np.array([[0.9, 0.1, -0.2, 0.3], [-0.3, 0.8, 0.25, -0.1], [0.15, -0.35, 1.0, 0.2], [-0.7, -0.6, -0.4, 0.9], [0.5, -0.9, 0.6, -0.8], [-0.95, 0.4, -0.85, -0.55]])
KERNELS = ('C4Matern', 'Gaussian', 'Multiquadric', 'InverseMultiquadric')


def run_rbf(ctx, item):
    dim, m, n, extra, kernel, ep, normalize, pn, spell = item[:9]
    xs = item[9] if len(item) > 9 else 1.0        # unit of the inputs (the shape parameter is in the inverse unit)

    def go():
        import bet.sensitivity.gradients as grad
        import bet.sample as samp
        k = dim + 1 + max(extra, 0)
        OFF = OFFS if k <= len(OFFS) else np.concatenate([OFFS, 1.3 * OFFS[::-1, ::-1]])
        c = CENTRES[:n, :dim] + 40.0 * np.arange(n)[:, None]
        x = np.concatenate([c] + [c[i] + OFF[:k, :dim] * (1 + 0.1 * i) for i in range(n)])
        y = np.column_stack([np.sin(x[:, 0] * (o + 1)) + (o - 1) * x[:, -1] + 0.3 * x.sum(1) for o in range(m)])
        ysc = 2.0 ** -50 if ep == 1.6 else 1.0     # outputs of another magnitude
        y = y * ysc
        d = disc(x * xs, y)
        if pn:
            d.get_input_sample_set().set_p_norm(pn)
        name = kernel if spell == 'literal' else ''.join(list(kernel)) if kernel else kernel
        kw = {} if ep is None else dict(ep=ep / xs)
        if kernel is not None:
            kw['RBF'] = name
        before = snap_disc(d)
        nn = None
        if extra >= 0:
            kw.update(num_centers=n, num_neighbors=k + 1)
        elif extra == -2:       # default number of centres, fewer neighbours than a cluster has
            nn = dim + 1
            kw.update(num_neighbors=nn)
        else:       # defaults: clusters of the smallest size
            d.get_input_sample_set().set_domain(np.array([[-50.0, 200.0 + i] for i in range(dim)]))
            d.get_output_sample_set().set_domain(np.array([[-9.0, 9.0 + i] for i in range(m)]))
            before = snap_disc(d)
        g = grad.calculate_gradients_rbf(d, normalize=normalize, **kw)
        ctx.step(x.shape[0])
        ker, e = kernel or 'Gaussian', 1.0 if ep is None else ep
        want = np.zeros((n, m, dim))
        for a in range(n):
            idx = [a] + list(range(n + a * k, n + (a + 1) * k))
            if nn:
                pp = pn or 2.0
                e_ = np.abs(x[idx] - c[a])
                dist = e_.max(1) if np.isinf(pp) else (e_ ** pp).sum(1) ** (1 / pp)
                srt = np.sort(dist)
                require(srt[nn] - srt[nn - 1] > 1e-9, 'harness: equidistant points')
                idx = [idx[j] for j in np.argsort(dist)[:nn]]
            X, Y = x[idx], y[idx]
            R = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
            w = np.linalg.solve(phi(ker, R, e), Y)
            v = c[a] - X
            want[a] = (w.T).dot(v * dphi_over_r(ker, np.sqrt((v ** 2).sum(1)), e)[:, None])
        if normalize:
            s = np.abs(want).sum(-1, keepdims=True)
            want = want / np.where(s == 0, 1.0, s)
        gi, go_ = g.get_input_sample_set(), g.get_output_sample_set()
        sc = 1.0 if normalize else ysc / xs
        want = want if normalize else want / xs
        require_close(np.asarray(gi.get_jacobians()) / sc, want / sc, 'gradients', 1e-6)
        require_close(np.asarray(gi.get_values()) / xs, c, 'centres', 1e-13)
        require_close(np.asarray(go_.get_values()) / ysc, y[:n] / ysc, 'outputs at the centres', 1e-13)
        if extra == -1:
            require_close(gi.get_domain(), d.get_input_sample_set().get_domain(), 'input domain', 0)
            require_close(go_.get_domain(), d.get_output_sample_set().get_domain(), 'output domain', 0)
        z = diff(before, snap_disc(d))
        require(not z, 'estimating gradients changed the data in %s', z)
    ctx.case('rbf', dict(dim=dim, outputs=m, centres=n, extra=extra, kernel=kernel, ep=ep, normalize=normalize, p=pn, spelling=spell), go)


SCAT = np.array([[1.0, 0.05, 0.02, 0.1], [0.75, 0.7, -0.06, 0.2], [-0.62, 0.6, 0.58, -0.3], [0.07, -1.15, 0.1, 0.05], [-0.55, -0.5, -0.6, 0.52], [0.03, 0.09, 1.31, -0.04], [-1.42, 0.01, 0.06, 0.08], [0.9, -0.85, 0.8, 0.7], [0.66, 0.2, -0.9, -0.45]])


def run_near(ctx, item):
    """Scattered points whose order of distance depends on the norm of the set."""
    dim, n, nn, kernel, pn = item

    def go():
        import bet.sensitivity.gradients as grad
        c = CENTRES[:n, :dim] + 9.0 * np.arange(n)[:, None]
        x = np.concatenate([c] + [c[i] + np.roll(SCAT, i, axis=0)[:, :dim] * (1 + 0.1 * i) for i in range(n)])
        y = np.column_stack([np.sin(x[:, 0]) + 0.3 * x.sum(1), np.cos(x).sum(1)])
        d = disc(x, y)
        if pn:
            d.get_input_sample_set().set_p_norm(pn)
        g = grad.calculate_gradients_rbf(d, num_centers=n, num_neighbors=nn, RBF=kernel, ep=1.1, normalize=False)
        want = np.zeros((n, 2, dim))
        for a in range(n):
            pp = pn or 2.0
            e = np.abs(x - c[a])
            dist = e.max(1) if np.isinf(pp) else (e ** pp).sum(1) ** (1 / pp)
            srt = np.sort(dist)
            if srt[nn] - srt[nn - 1] < 1e-9:     # which neighbours are nearest is open
                return
            idx = np.argsort(dist)[:nn]
            R = np.sqrt(((x[idx][:, None] - x[idx][None]) ** 2).sum(-1))
            w = np.linalg.solve(phi(kernel, R, 1.1), y[idx])
            v = c[a] - x[idx]
            want[a] = (w.T).dot(v * dphi_over_r(kernel, np.sqrt((v ** 2).sum(1)), 1.1)[:, None])
        require_close(np.asarray(g.get_input_sample_set().get_jacobians()), want, 'gradients from %d neighbours' % nn, 1e-6)
        ctx.step(n)
    ctx.case('neighbours', dict(dim=dim, centres=n, neighbours=nn, kernel=kernel, p=pn), go)


def run_kernel(ctx, item):
    kernel, ep = item

    def go():
        import bet.sensitivity.gradients as grad
        r = np.arange(0, 25) * 0.125
        kw = {} if ep is None else dict(ep=ep)
        nm = kernel and ''.join(list(kernel))
        if kernel == 'None of these':
            expect_error(lambda: grad.radial_basis_function(r, nm), 'unknown kernel', (ValueError,))
            expect_error(lambda: grad.radial_basis_function_dxi(r, r, nm), 'unknown kernel', (ValueError,))
            return
        e = 1.0 if ep is None else ep
        k = kernel or 'C4Matern'
        require_close(grad.radial_basis_function(r, nm, **kw), phi(k, r, e), 'kernel', 1e-12)
        for xi in (r * 0.5, -r, r * 0):
            require_close(grad.radial_basis_function_dxi(r, xi, nm, **kw), xi * dphi_over_r(k, r, e), 'kernel derivative', 1e-12)
        ctx.step(r.size * 4)
    ctx.case('kernel', dict(kernel=kernel, ep=ep), go)


def run_missing(ctx, item):
    kind, which = item

    def go():
        import bet.sensitivity.gradients as grad
        import bet.sample as samp
        i, o = samp.sample_set(2), samp.sample_set(1)
        if which != 'input':
            i.set_values(np.zeros((3, 2)))
        if which != 'output':
            o.set_values(np.zeros((3, 1)))
        d = samp.discretization(i, o)
        f = dict(ffd=grad.calculate_gradients_ffd, cfd=grad.calculate_gradients_cfd, rbf=grad.calculate_gradients_rbf)[kind]
        expect_error(lambda: f(d), 'no %s values' % which, (ValueError,))
        ctx.step()
    ctx.case('missing', dict(kind=kind, which=which), go)


def run(ctx):
    T = ctx.thorough
    H = (0.125, 0.5, 2.0)
    C = (-2, -1, 0, 1, 2) if T else (-1, 0, 2)
    NC = (1, 2, 3, 4) if T else (1, 2, 3)
    D = (1, 2, 3, 4) if T else (1, 2, 3)
    items = []
    for kind in ('ffd', 'cfd'):
        for dim in D:
            for m in (1, 2, 3):
                for n in NC:
                    perms = [tuple(range(n)), tuple(range(n))[::-1]] if n > 1 else [(0,)]
                    for h in itertools.product(H, repeat=dim):
                        if dim >= 3 and not T and len(set(h)) == 2:
                            continue
                        # basis of the data space: every linear monomial in every output, and constants
                        for o in range(m):
                            for i in range(dim):
                                A = np.zeros((m, dim), int)
                                A[o, i] = 3
                                items.append((kind, dim, m, n, perms[(o + i) % len(perms)], h, A.tolist(), [1] * m, False, bool(len(items) % 2), len(items) % 3 != 0))
                        full = (np.arange(m * dim).reshape(m, dim) * 2 - 3).tolist()
                        for p in perms:
                            for nz in (False, True):
                                items.append((kind, dim, m, n, p, h, full, list(range(m)), nz, True, True))
        # all small maps
        for dim, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)):
            for A in itertools.product(C, repeat=dim * m):
                for nz in (False, True):
                    for h in ((0.5, 0.125, 2.0)[:dim],):
                        items.append((kind, dim, m, 2, (1, 0), h, np.array(A).reshape(m, dim).tolist(), [0.5] * m, nz, False, False))
    ctx.shards(items, run_affine)
    items = []
    for dim in D:
        mono = [(i, j) for i in range(dim) for j in range(i, dim)]
        for m in (1, 2, 3):
            for n in NC:
                for h in [(0.5,) * dim, tuple(H[i % 3] for i in range(dim)), tuple(H[2 - i % 3] for i in range(dim))]:
                    for (i, j) in mono:
                        for o in range(m):
                            for nz in (False, True):
                                items.append((dim, m, n, tuple(range(n))[::-1], h, [(o, i, j, 2)], nz))
                    items.append((dim, m, n, tuple(range(n)), h, [((i + j) % m, i, j, i - 2 * j + 1) for (i, j) in mono], False))
        if dim <= 2:
            for cs in itertools.product(C, repeat=len(mono)):
                for nz in (False, True):
                    items.append((dim, 1, 2, (0, 1), (0.125, 2.0)[:dim], [(0, i, j, a) for (i, j), a in zip(mono, cs)], nz))
    ctx.shards(items, run_quad)
    items = [(kind, dim, m, n, tuple(hs * 2.0 ** (j % 3) for j in range(dim)), sc, nz, own, kind == 'cfd' and m == 3)
             for kind in ('ffd', 'cfd') for dim in (1, 2, 4, 5, 7) for m in (1, 3, 8) for n in (1, 5, 30) for hs in (2.0 ** -16, 0.25, 2.0 ** 10)
             for sc in (1.0, 2.0 ** -60, 2.0 ** 40) for nz in (False, True) for own in (False, True)]
    # inputs in other units, and stencils that step backwards
    items += [(kind, dim, m, n, tuple(sg * 0.25 * 2.0 ** (j % 3) * (-1) ** (j if sg > 1 else 0) for j in range(dim)), 1.0, nz, own, kind == 'cfd' and m == 3, xs)
              for kind in ('ffd', 'cfd') for dim in (1, 2, 4) for m in (1, 3) for n in (1, 5) for sg in (1, -1, 2) for nz in (False, True) for own in (False, True)
              for xs in (1.0, 2.0 ** -50, 2.0 ** -30, 2.0 ** 30)]
    ctx.shards(items, run_wide)
    items = []
    for dim in D:
        for m in (1, 2, 3):
            for n in NC:
                for extra in (-1, 0, 1, 2) if not T else (-1, 0, 1, 2, 3):
                    if dim + 1 + max(extra, 0) > len(OFFS):
                        continue
                    for kernel in KERNELS + (None,):
                        for ep in (None, 0.7, 1.6):
                            for k, (nz, pn, sp) in enumerate(((False, None, 'literal'), (True, None, 'runtime'), (False, 1.0, 'runtime'), (False, np.inf, 'literal'))):
                                if (m + n + extra + k) % 2 and not T:
                                    continue
                                items.append((dim, m, n, extra, kernel, ep, nz, pn, sp))
    for dim in D:
        for n in (1, 3):
            for kernel in KERNELS + (None,):
                for extra, xs, ep in [(-2, 1.0, None), (-2, 1.0, 0.7), (1, 2.0 ** -45, 1.6), (0, 2.0 ** -45, 0.7), (0, 2.0 ** 30, 0.7), (7 - dim, 1.0, 1.6), (10 - dim, 1.0, 2.0)]:
                    for nz in (False, True):
                        items.append((dim, 2, n, extra, kernel, ep, nz, None, 'runtime', xs))
    ctx.shards(items, run_rbf)
    ctx.shards([(dim, n, nn, kr, pn) for dim in (2, 3, 4) for n in (1, 2, 3) for nn in range(2, 9) for kr in KERNELS for pn in (None, 1.0, 2.0, 3.0, np.inf)], run_near)
    ctx.shards([(k, ep) for k in KERNELS + (None, 'None of these') for ep in (None, 0.5, 1.0, 2.0, 3.0)], run_kernel)
    ctx.shards([(k, w) for k in ('ffd', 'cfd', 'rbf') for w in ('input', 'output')], run_missing)
