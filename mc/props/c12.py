"""Cell volumes are exact and partition the domain."""
import itertools
from fractions import Fraction as F

import numpy as np

from mc import spmd
from mc.build import concat_local
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('all orders and positions of lattice samples, domains of several positions and scales, process counts, all disjoint rectangle / ball / grid families, all '
        'assignments of emulated points; oracles: exact midpoints (1D), half-plane clipping of the domain box (2D), products of widths, closed-form ball volumes, '
        'point counts')
BOUNDS = {'quick': {'1D': '1..5 samples of 7 positions, up to 120 samples', 'dim': '1..6', '2D': '1..4 samples of 3x3, jittered 4x4', 'ranks': '1..4', 'emulated points': '1..4 over 2..3 cells'},
          'thorough': {'1D': '1..6 samples of 7 positions, up to 120 samples', 'dim': '1..6', '2D': '1..5 of 3x3, jittered 4x4 and 6x6', 'ranks': '1..6', 'emulated points': '1..6'}}

DOMS1 = ((0.0, 1.0), (-3.0, 5.0), (1e-4, 3e-4), (1e5, 5e5))


def p_1d(rank, dom, pos, g=7):
    import bet.sample as samp
    s = samp.voronoi_sample_set(1) if len(pos) % 2 else samp.sample_set(1)
    lo, hi = dom
    s.set_domain(np.array([[lo, hi]]))
    s.set_values(np.array([lo + (hi - lo) * (k + 0.5) / g for k in pos]))
    s.estimate_volume_mc()
    s.exact_volume_1D()
    return np.array(s.get_volumes()), np.array(s.get_volumes_local()), np.array(s.get_values())


def run_1d(ctx, item):
    dom, pos, size = item[:3]
    g = item[3] if len(item) > 3 else 7

    def go():
        w = run_ranks(size, p_1d, (dom, pos, g))
        ctx.step(size)
        order = sorted(range(len(pos)), key=lambda i: pos[i])
        x = [F(2 * pos[i] + 1, 2 * g) for i in order]
        edges = [F(0)] + [(a + b) / 2 for a, b in zip(x, x[1:])] + [F(1)]
        want = np.zeros(len(pos))
        for k, i in enumerate(order):
            want[i] = float(edges[k + 1] - edges[k])
        res = w.values()
        for v, l, x in res:
            require_close(v, want, 'volumes', 1e-9)
        require_close(concat_local([r[1] for r in res]), want, 'local volumes', 1e-9)
    ctx.case('exact-1d', dict(domain=dom, positions=pos, ranks=size, grid=g), go)


# ---- 2D: half-plane clipping ---------------------------------------------------------------

def clip_poly(poly, a, b):
    """Part of the polygon with a.x <= b."""
    out = []
    for i in range(len(poly)):
        p, q = poly[i], poly[(i + 1) % len(poly)]
        fp, fq = a[0] * p[0] + a[1] * p[1] - b, a[0] * q[0] + a[1] * q[1] - b
        if fp <= 0:
            out.append(p)
        if (fp < 0 < fq) or (fq < 0 < fp):
            t = fp / (fp - fq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def cell_areas(pts, dom):
    tot = (dom[0][1] - dom[0][0]) * (dom[1][1] - dom[1][0])
    res = []
    for i, p in enumerate(pts):
        poly = [(dom[0][0], dom[1][0]), (dom[0][1], dom[1][0]), (dom[0][1], dom[1][1]), (dom[0][0], dom[1][1])]
        for j, q in enumerate(pts):
            if j != i:
                a = (2 * (q[0] - p[0]), 2 * (q[1] - p[1]))
                b = q[0] ** 2 + q[1] ** 2 - p[0] ** 2 - p[1] ** 2
                poly = clip_poly(poly, a, b)
        area = 0.5 * abs(sum(poly[k][0] * poly[(k + 1) % len(poly)][1] - poly[(k + 1) % len(poly)][0] * poly[k][1] for k in range(len(poly))))
        res.append(area / tot)
    return np.array(res)


DOMS2 = (((0.0, 1.0), (0.0, 1.0)), ((-2.0, 2.0), (3.0, 5.0)), ((0.0, 1e-3), (0.0, 2e-3)))


def p_2d(rank, dom, pts, ratio):
    import bet.sample as samp
    s = samp.sample_set(2)
    s.set_domain(np.array(dom))
    s.set_values(np.array(pts))
    s.estimate_volume_mc()
    if ratio is None:
        s.exact_volume_2D()
    else:
        s.exact_volume_2D(ratio)
    return np.array(s.get_volumes()), np.array(s.get_volumes_local()), np.array(s.get_values())


def run_2d(ctx, item):
    dom, seq, ratio, size, jit = item

    def go():
        g = 3 if jit is None else jit
        pts = []
        for k, (i, j) in enumerate(seq):
            u = ((i + 0.5 + 0.11 * np.sin(3 * i + 5 * j + 1)) / g, (j + 0.5 + 0.13 * np.cos(2 * i + 7 * j)) / g)
            pts.append((dom[0][0] + (dom[0][1] - dom[0][0]) * u[0], dom[1][0] + (dom[1][1] - dom[1][0]) * u[1]))
        w = run_ranks(size, p_2d, (dom, pts, ratio))
        ctx.step(size)
        want = cell_areas(pts, dom)
        res = w.values()
        for v, l, x in res:
            require_close(v, want, 'volumes', 1e-7)
            require_close(v.sum(), 1.0, 'total volume', 1e-7)
            require_close(x, np.array(pts), 'values', 1e-14)
        require_close(concat_local([r[1] for r in res]), want, 'local volumes', 1e-7)
    ctx.case('exact-2d', dict(domain=dom, samples=seq, ratio=ratio, ranks=size, grid=jit), go)


# ---- rectangles, grids, balls -----------------------------------------------------------------

def p_rect(rank, kind, spec, dom, p):
    import bet.sample as samp
    dim = len(dom)
    if kind == 'rectangle':
        s = samp.rectangle_sample_set(dim)
        s.setup(mins=[list(a) for a, b in spec], maxes=[list(b) for a, b in spec])
    elif kind == 'cartesian':
        s = samp.cartesian_sample_set(dim)
        s.setup([np.array(a, dtype=float) for a in spec])
    else:
        s = samp.ball_sample_set(dim)
        s.set_p_norm(p)
        s.setup([list(c) for c, r in spec], [r for c, r in spec])
    s.set_domain(np.array(dom, dtype=float))
    s.estimate_volume_mc()
    (s.exact_volume if kind == 'ball' else s.exact_volume_lebesgue)()
    return np.array(s.get_volumes()), np.array(s.get_volumes_local()), np.array(s.get_values())


def ball_volume(dim, p, r):
    from math import gamma
    if np.isinf(p):
        return (2 * r) ** dim
    return (2 * r * gamma(1 + 1.0 / p)) ** dim / gamma(1 + dim / p)


def run_rect(ctx, item):
    kind, spec, dom, p, size = item

    def go():
        res = run_ranks(size, p_rect, (kind, spec, dom, p)).values()
        ctx.step(size)
        tot = float(np.prod([b - a for a, b in dom]))
        vals = res[0][2]
        if kind == 'rectangle':
            want = [np.prod([hi - lo for lo, hi in zip(a, b)]) / tot for a, b in spec]
        elif kind == 'cartesian':
            cells = {tuple(np.round([0.5 * (x + y) for x, y in c], 9)): np.prod([y - x for x, y in c]) / tot for c in itertools.product(*[list(zip(a, a[1:])) for a in spec])}
            want = [cells[tuple(np.round(v, 9))] for v in vals[:-1].tolist()]
        else:
            want = [ball_volume(len(dom), p, r) / tot for c, r in spec]
        want = np.array(want + [1.0 - sum(want)])
        for v, l, x in res:
            require_close(v, want, 'volumes', 1e-9)
        require_close(concat_local([r[1] for r in res]), want, 'local volumes', 1e-9)
    ctx.case(kind, dict(spec=spec, domain=dom, p=p, ranks=size), go)


# ---- estimates ----------------------------------------------------------------------------------

def p_mc(rank, cls, dim, n, npts, how, seed, pn=2.0):
    import bet.sample as samp
    if cls in ('rectangle', 'ball', 'cartesian'):
        s = spmd.out_partition(cls, n + 1, dim)
        s.set_domain(np.array([[-1.0, 3.0]] * dim))
    else:
        s = spmd.mk_set(n, dim, cls)
        s.set_domain(np.array([[-0.5, 1.5], [-1.0, 3.0], [0.0, 1.0], [-1.0, 1.5], [0.0, 2.0]][:dim]))
        s.set_p_norm(pn)
    seen = []
    q = s.query

    def rec(x, k=1):
        r = q(x, k)
        seen.append((np.array(x), np.array(r[1])))
        return r
    s.query = rec
    np.random.seed(seed + 17 * rank)
    if how == 'volume':
        s.estimate_volume(npts)
    elif how.startswith('only'):
        s.estimate_radii(npts, normalize=(how == 'only-normalized'))
    else:
        s.estimate_radii_and_volume(npts, normalize=(how == 'radii-normalized'))
    del s.query
    rad = [None if x is None else np.array(x) for x in (s._radii, s._normalized_radii)]
    return np.array(s.get_volumes()), np.array(s.get_volumes_local()), seen, s.check_num(), np.array(s.get_domain()), rad, np.array(s.get_values()) if how != 'volume' else None


def run_mc(ctx, item):
    cls, dim, n, npts, how, size = item[:6]
    pn = item[6] if len(item) > 6 else 2.0

    def go():
        res = run_ranks(size, p_mc, (cls, dim, n, npts, how, 1000 * ctx.seed, pn)).values()
        ctx.step(size)
        num = res[0][3]
        total = sum(len(x) for r in res for x, _ in r[2])
        if how != 'volume' and total == npts:       # radii: the largest distance of a point of the cell
            x = np.concatenate([x for r in res for x, _ in r[2]])
            i = np.concatenate([np.asarray(i).ravel() for r in res for _, i in r[2]])
            c, d = res[0][6], res[0][4]
            w = d[:, 1] - d[:, 0] if 'normalized' in how else np.ones(dim)
            want = np.array([max([np.linalg.norm((x[k] - c[j]) / w, ord=pn) for k in np.flatnonzero(i == j)], default=0.0) for j in range(num)])
            for r in res:
                got = r[5][1 if 'normalized' in how else 0]
                require(got is not None, 'no radii')
                require_close(got, want, 'radii', 1e-9)
                require(r[5][0 if 'normalized' in how else 1] is None, 'radii of the other kind')
        if how.startswith('only'):
            return
        v = res[0][0]
        for r in res:
            require_close(r[0], v, 'volumes on different ranks')
        require(v.shape == (num,) and bool(np.all(v >= 0)), 'volumes %s', v)
        require_close(v.sum(), 1.0, 'total volume')
        require_close(v * npts, np.round(v * npts), 'volumes as multiples of 1/%d' % npts, 1e-6)
        require_close(concat_local([r[1] for r in res]), v, 'local volumes')
        if total == npts:       # the points were located by query: count them
            cnt = np.zeros(num)
            for r in res:
                for x, i in r[2]:
                    np.add.at(cnt, i, 1)
                    d = r[4]
                    require(bool(np.all(x >= d[:, 0]) and np.all(x <= d[:, 1])), 'Monte Carlo point outside of the domain')
            require_close(v, cnt / npts, 'fractions of the points')
    ctx.case('monte-carlo', dict(cls=cls, dim=dim, n=n, points=npts, how=how, ranks=size, p=pn), go)


def p_emul(rank, cells, assign, dist, kind):
    import bet.sample as samp
    from mc.build import partition, points
    from bet.Comm import comm
    s = partition(kind, cells, 2)
    e = samp.sample_set(2)
    x = points(kind, cells, assign, 2)
    if dist == 'global':
        e.set_values(x)
    else:
        e.set_values_local(np.array_split(x, comm.size)[comm.rank])
    s.estimate_volume_mc()
    s.estimate_volume_emulated(e)
    d = samp.discretization(s, s.copy(), None, e)
    d.estimate_input_volume_emulated()
    o = partition(kind, cells, 2)
    d2 = samp.discretization(s.copy(), o)
    expect_error(d2.estimate_output_volume_emulated, 'no emulated output points', (AttributeError,))
    expect_error(d2.estimate_input_volume_emulated, 'no emulated input points', (AttributeError,))
    d2.set_emulated_output_sample_set(e)
    d2.estimate_output_volume_emulated()
    require_close(np.array(o.get_volumes()), np.array(s.get_volumes()), 'output volumes', 1e-12)
    f = samp.sample_set(2)      # estimates follow other points
    f.set_values(points(kind, cells, list(assign)[:1] * 3 + list(assign), 2))
    share = np.array([(list(assign).count(c) + 3 * (c == assign[0])) / float(len(assign) + 3) for c in range(o.check_num())])
    d2.set_emulated_output_sample_set(f)
    d2.estimate_output_volume_emulated()
    require_close(np.array(o.get_volumes()), share, 'output volumes with other points', 1e-12)
    d3 = samp.discretization(o, o.copy(), None, f)
    o.set_volumes(np.arange(1.0, o.check_num() + 1))
    d3.estimate_input_volume_emulated()
    require_close(np.array(o.get_volumes()), share, 'input volumes with other points', 1e-12)
    return np.array(s.get_volumes()), np.array(s.get_volumes_local())


def run_emul(ctx, item):
    cells, assign, dist, kind, size = item

    def go():
        res = run_ranks(size, p_emul, (cells, assign, dist, kind)).values()
        want = np.array([sum(1 for a in assign if a == c) / len(assign) for c in range(cells)])
        for r in res:
            require_close(r[0], want, 'volumes')
        require_close(concat_local([r[1] for r in res]), want, 'local volumes')
        ctx.step(size)
    ctx.case('emulated', dict(cells=cells, assign=assign, dist=dist, kind=kind, ranks=size), go)


def p_fine(rank, kind, dom, n, pts):
    import bet.sample as samp
    lo, hi = dom
    x = np.array([[lo + (hi - lo) * u] for u in pts])
    if kind == 'voronoi':
        s = samp.voronoi_sample_set(1)
        s.set_values(np.array([[lo + (hi - lo) * (k + 0.5) / n] for k in range(n)]))
    else:
        s = samp.rectangle_sample_set(1) if kind == 'rectangle' else samp.cartesian_sample_set(1)
        e = [lo + (hi - lo) * k / n for k in range(n + 1)]
        s.setup([[b] for b in e[1:]], [[a] for a in e[:-1]]) if kind == 'rectangle' else s.setup([np.array(e)])
    s.set_domain(np.array([dom]))
    e = samp.sample_set(1)
    e.set_values(x)
    s.estimate_volume_emulated(e)
    return np.array(s.get_volumes())


def run_fine(ctx, item):
    kind, dom, n, G, size = item

    def go():
        pts = [(j + 0.5) / G for j in range(G) if abs((j + 0.5) / G * n - round((j + 0.5) / G * n)) > 1e-3]
        want = np.bincount([int(u * n) for u in pts], minlength=n + (kind != 'voronoi')) / len(pts)
        for v in run_ranks(size, p_fine, (kind, dom, n, pts)).values():
            require_close(v, want, 'volumes', 1e-12)
        ctx.step(size)
    ctx.case('fine', dict(kind=kind, domain=dom, cells=n, points=G, ranks=size), go)


def p_equal(rank, n, dim, glob):
    s = spmd.mk_set(n, dim)
    s.global_to_local()
    s.estimate_volume_mc(globalize=glob)
    l = np.array(s.get_volumes_local())
    s.local_to_global()
    return np.array(s.get_volumes()), l


def run_equal(ctx, item):
    n, dim, glob, size = item

    def go():
        for v, l in run_ranks(size, p_equal, (n, dim, glob)).values():
            require_close(v, np.full(n, 1.0 / n), 'volumes')
            require_close(l, np.full(len(l), 1.0 / n), 'local volumes')
        ctx.step(size)
    ctx.case('equal', dict(n=n, dim=dim, globalize=glob, ranks=size), go)


def p_local(rank, n, p, seed, zero=(), dim=2):
    s = spmd.mk_set(n, dim)
    if n > 5:                   # small cells in a corner next to a large one
        x = 0.1 + 0.12 * np.array(list(itertools.product((0, 1, 2, 3, 4), repeat=dim)), dtype=float)[:n]
        x[-1] = 0.8
        s.set_values(x)
    s.set_p_norm(p)
    if zero is None:            # coinciding samples: the cell of the second one is empty
        x = np.array(s.get_values())
        x[-1] = x[0]
        s.set_values(x)
    elif zero == 'radii':       # any radii that reach around the cells
        s._normalized_radii = np.array([1.8 + 1.0 * (i % 2) for i in range(n)]) * dim ** max(0.0, 1 / p - 0.5)
    elif zero:
        s._normalized_radii = np.array([0.0 if i in zero else 1.5 for i in range(n)])
    np.random.seed(seed + rank)
    s.estimate_local_volume(num_emulate_local=4000, max_num_emulate=100000)
    return np.array(s.get_volumes()), np.array(s.get_volumes_local()), np.array(s.get_values())


def run_local(ctx, item):
    n, p, size, dim, rad = (tuple(item) + ((),))[:5]

    def go():
        res = run_ranks(size, p_local, (n, p, 100 * ctx.seed, rad, dim)).values()
        q = {1: 9000, 2: 300, 3: 45}[dim]
        g = np.stack(np.meshgrid(*([(np.arange(q) + 0.5) / q] * dim)), -1).reshape(-1, dim)
        d = np.abs(g[:, None] - res[0][2][None])
        d = d.max(-1) if np.isinf(p) else (d ** p).sum(-1)
        want = np.bincount(d.argmin(1), minlength=n) / len(g)
        for r in res:
            require_close(r[0].sum(), 1.0, 'total volume')
            require(bool(np.all(np.abs(r[0] - want) <= 0.25 * want + 0.01)), 'volumes %s, expected about %s', r[0].tolist(), want.tolist())
        require_close(concat_local([r[1] for r in res]), res[0][0], 'local volumes')
        ctx.step(size)
    ctx.case('local-estimate', dict(n=n, p=p, ranks=size, dim=dim, given=rad), go)


def p_budget(rank, xs, dom, p, budget, runs, seed):
    import bet.sample as samp
    out = []
    for k in range(runs):
        s = samp.sample_set(1)
        s.set_domain(np.array([dom]))
        s.set_p_norm(p)
        s.set_values(np.array(xs).reshape(-1, 1))
        np.random.seed(seed + 50 * k + rank)
        s.estimate_local_volume(num_emulate_local=budget[0], max_num_emulate=budget[1])
        out.append(np.array(s.get_volumes()))
    return np.array(out)


def run_budget(ctx, item):
    """The estimate agrees on average with the cells whatever the number of emulated points asked for."""
    xs, dom, p, budget, size = item

    def go():
        runs = {100: 60, 1000: 20}.get(budget[1], 4)
        x = np.array(xs) * (dom[1] - dom[0]) + dom[0]
        edges = np.concatenate(([0.0], (np.array(xs)[1:] + np.array(xs)[:-1]) / 2, [1.0]))
        want = np.diff(edges)
        for r in run_ranks(size, p_budget, (list(x), dom, p, budget, runs, 1000 * ctx.seed)).values():
            require_close(r.sum(1), np.ones(runs), 'total volume')
            require(bool(np.all(np.abs(r.mean(0) - want) <= 0.3 * want + 0.01)), 'mean of the volumes over %d runs %s, expected about %s', runs, r.mean(0).tolist(), want.tolist())
        ctx.step(size * runs)
    ctx.case('local-budget', dict(samples=xs, domain=dom, p=p, budget=budget, ranks=size), go)


def run_zero(ctx, item):
    n, p, zero, size = item

    def go():
        res = run_ranks(size, p_local, (n, p, 100 * ctx.seed, zero)).values()
        for r in res:
            require_close(r[0].sum(), 1.0, 'total volume')
            require(bool(np.all(r[0] >= 0)) and bool(np.all(np.isfinite(r[0]))), 'volumes %s', r[0].tolist())
            require_close(r[0], res[0][0], 'volumes on different processes', 0)
        require_close(concat_local([r[1] for r in res]), res[0][0], 'local volumes')
        ctx.step(size)
    ctx.case('local-zero', dict(n=n, p=p, zero=zero, ranks=size), go)


def run(ctx):
    T = ctx.thorough
    items = []
    for k in range(1, 7 if T else 6):
        for c in itertools.combinations(range(7), k):
            perms = list(itertools.permutations(c))
            if k >= 4 and not T:
                perms = perms[::5]
            if k >= 5 and T:
                perms = perms[::7]
            for j, pos in enumerate(perms):
                for di, dom in enumerate(DOMS1):
                    if k >= 3 and not T and (di + j) % 4:
                        continue
                    for size in ((1, 2, 3, 4, 6) if T else (1, 2, 3)):
                        items.append((dom, pos, size))
    for g, n in ((41, 12), (101, 40), (257, 120), (3001, 1300)):
        for a in (3, 7, 10):
            pos = tuple((a * k * (k + 1) // 2 + k) % g for k in range(n))
            pos = tuple(dict.fromkeys(pos))
            for dom in DOMS1 + ((-1e-9, 3e-9), (-4e8, 1e9)):
                for size in (1, 2, 3, 4):
                    items.append((dom, pos, size, g))
    ctx.shards(items, run_1d)
    lat = list(itertools.product(range(3), repeat=2))
    items = []
    for k in range(1, 6 if T else 5):
        for c in itertools.combinations(lat, k):
            for dom in DOMS2:
                for size in ((1, 2, 3, 4, 6) if T else (1, 3)):
                    seq = c[::-1] if len(items) % 2 else c
                    items.append((dom, seq, 1.0, size, None))
    for g in ((4, 5, 6) if T else (4,)):
        full = tuple(itertools.product(range(g), repeat=2))
        for dom in DOMS2:
            for size in (1, 2, 3, 4):
                for ratio in (None, 0.5, 1.0):
                    items.append((dom, full[3:] + full[:3], ratio, size, g))
    for g in (12, 17):           # more samples than fit into a byte
        full = tuple(itertools.product(range(g), repeat=2))
        items += [(DOMS2[k % 3], full[7:] + full[:7], None, size, g) for k, size in enumerate((1, 3) if g == 17 else (2,))]
    ctx.shards(items, run_2d)
    ctx.shards([(kind, dom, n, G, 1 + (n + G) % 3) for kind in ('voronoi', 'rectangle', 'cartesian') for dom in ((1e6, 1e6 + 1), (-1e7 - 0.5, -1e7), (1e-12, 3e-12), (-2e9, 7e9))
                for n in (2, 3, 7, 20, 150) for G in (5, 33, 400)], run_fine)
    items = []
    iv = [(a, b) for a in range(4) for b in range(a + 1, 4)]
    R2 = [((a[0], b[0]), (a[1], b[1])) for a in iv for b in iv]

    def disjoint(r, s):
        return any(r[1][j] <= s[0][j] or s[1][j] <= r[0][j] for j in range(len(r[0])))
    D2 = (((0.0, 3.0), (0.0, 3.0)), ((-1.0, 5.0), (0.0, 10.0)))
    for k in (1, 2, 3):
        for seq in (itertools.permutations(R2, k) if k < 3 else itertools.combinations(R2, 3)):
            if all(disjoint(a, b) for a, b in itertools.combinations(seq, 2)):
                for di, dom in enumerate(D2):
                    if k == 3 and not T and (len(items) + di) % 3:
                        items.append(None)
                        continue
                    items.append(('rectangle', seq, dom, 2.0, 1 + (len(items) % 3)))
    items = [i for i in items if i is not None]
    for k in (1, 2, 3):
        for seq in itertools.permutations([((a,), (b,)) for a, b in iv], k):
            if all(disjoint(a, b) for a, b in itertools.combinations(seq, 2)):
                items.append(('rectangle', seq, ((-1.0, 4.0),), 2.0, 2))
    ax = [a for k in range(2, 5) for a in itertools.combinations((0.0, 0.5, 1.5, 3.0), k)]
    for a in ax:
        for size in (1, 2, 4):
            items.append(('cartesian', (a,), ((-1.0, 4.0),), 2.0, size))
        for b in ax:
            for size in (1, 3):
                items.append(('cartesian', (a, b), ((0.0, 3.0), (-2.0, 4.0)), 2.0, size))
            for c in (ax if T else ax[::4]):
                items.append(('cartesian', (a, b, c), ((0.0, 3.0), (-2.0, 4.0), (0.0, 3.5)), 2.0, 2))
    for dim in (1, 2, 3):
        for k in (1, 2, 3):
            for r in itertools.product((0.25, 0.5, 1.0), repeat=k):
                for p in (1.0, 2.0, np.inf):
                    for size in (1, 2, 4):
                        spec = tuple(((2.5 * i,) + (0.0,) * (dim - 1), r[i]) for i in range(k))
                        items.append(('ball', spec, ((-2.0, 10.0),) + ((-1.5, 1.5),) * (dim - 1), p, size))
    # more dimensions, other norms, other magnitudes
    for dim in (2, 3, 4, 5, 6):
        for sc in (1.0, 1e-4, 1e3):
            for size in (1, 2, 3):
                spec = tuple((tuple(sc * (3.0 * i + 0.1 * j) for j in range(dim)), tuple(sc * (3.0 * i + 1.0 + 0.3 * j + 0.2 * i) for j in range(dim))) for i in range(5))
                items.append(('rectangle', spec, tuple((-sc, sc * 20.0 + j * sc) for j in range(dim)), 2.0, size))
                if dim < 6:
                    items.append(('cartesian', tuple(tuple(sc * (t + 0.1 * j) for t in ((0.0, 0.5, 1.5, 3.0), (0.0, 1.0, 1.5))[j % 2]) for j in range(dim)), ((-sc, 4.0 * sc),) * dim, 2.0, size))
                for p in (1.0, 1.5, 2.0, 3.0, np.inf):
                    spec = tuple((tuple(sc * (2.5 * i if j == 0 else 0.0) for j in range(dim)), sc * (0.4 + 0.1 * i)) for i in range(5))
                    items.append(('ball', spec, ((-2.0 * sc, 14.0 * sc),) + ((-1.5 * sc, 1.5 * sc),) * (dim - 1), p, size))
    ctx.shards(items, run_rect)
    items = [(c, dim, n, npts, 'volume', size) for c in ('sample_set', 'voronoi_sample_set', 'rectangle', 'ball', 'cartesian') for dim in (1, 2, 3)
             for n in (1, 2, 4) for npts in (1, 7, 50) for size in (1, 2, 3, 4)]
    items += [('sample_set', dim, n, npts, how, size) for dim in (1, 2, 3) for n in (1, 2, 4) for npts in (7, 50) for how in ('radii', 'radii-normalized', 'only', 'only-normalized') for size in (1, 2, 3)]
    items += [('sample_set', dim, n, npts, how, size, p) for dim in (1, 2, 3) for n in (1, 3) for npts in (2, 20) for how in ('radii', 'radii-normalized', 'only', 'only-normalized') for size in (1, 3) for p in (1.0, 3.0, np.inf)]
    items += [(c, dim, n, npts, 'volume', size) for c in ('sample_set', 'voronoi_sample_set', 'rectangle', 'ball', 'cartesian') for dim in (1, 4, 5) for n in (9, 20) for npts in (53, 400, 2100) for size in (1, 2, 3)]
    items += [('sample_set', dim, n, npts, how, size, p) for dim in (1, 4, 5) for n in (9, 20) for npts in (53, 400) for how in ('radii', 'radii-normalized', 'only', 'only-normalized') for size in (1, 2, 3) for p in (1.0, 2.0, np.inf)]
    ctx.shards(items, run_mc)
    items = [(c, a, dist, kind, size) for c in (2, 3) for k in range(1, 7 if T else 5) for a in itertools.product(range(c), repeat=k)
             for dist in ('global', 'local') for kind in ('voronoi', 'rectangle', 'ball', 'cartesian') for size in ((1, 2, 3, 4) if T else (1, 2, 3))
             if T or k < 4 or (sum(a) + size) % 3 == 0]
    items += [(c, tuple((a * j * j + j // 2) % c for j in range(k)), dist, kind, size) for c, k in ((5, 17), (9, 53), (12, 101), (12, 1500)) for a in (1, 2, 3) for dist in ('global', 'local')
              for kind in ('voronoi', 'rectangle', 'ball', 'cartesian') for size in (1, 2, 3, 4)]
    ctx.shards(items, run_emul)
    ctx.shards([(n, dim, g, size) for n in tuple(range(1, 12)) + (64, 101, 1300) for dim in (1, 2, 3, 5) for g in (True, False) for size in (1, 2, 3, 4, 5)], run_equal)
    ctx.shards([(n, p, size, dim) for n in ((2, 3, 4, 5) if T else (2, 4)) for p in (1.0, 2.0, 3.0, np.inf) for size in (1, 2) for dim in (1, 2, 3) if dim == 2 or T or (size == 1 and n == 4)]
               + [(n, p, 1, dim) for n, dim in ((7, 2), (8, 3)) for p in (1.0, 2.0)]
               + [(4, p, size, dim, 'radii') for p in (1.0, 2.0, np.inf) for size in (1, 2) for dim in (1, 2, 3)], run_local)
    ctx.shards([(xs, dom, p, b, size) for xs in ((0.05, 0.4), (0.02, 0.5, 0.6), (0.3, 0.9), (0.1, 0.2, 0.95)) for dom in ((0.0, 1.0), (-3.0, 5.0), (1e3, 1e3 + 2e-3))
                for p in (1.0, 2.0, np.inf) for b in ((10, 100), (50, 1000), (1000, 10000)) for size in (1, 2)], run_budget)
    ctx.shards([(n, p, z, size) for n in (3, 4) for p in (1.0, 2.0, np.inf) for z in [None] + [z for k in (1, 2) for z in itertools.combinations(range(n), k)] for size in (1, 2)], run_zero)
