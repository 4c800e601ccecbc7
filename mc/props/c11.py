"""Point location returns the cell that contains the point."""
import itertools

import numpy as np

from mc.core import require, require_close

RULE = ('all sequences of distinct lattice samples (every order), all sequences of lattice rectangles / balls (overlapping, nested, disjoint, repeated) and all '
        'grids, queried with every point of a finer irregular lattice, for every norm and number of neighbors; oracle: brute force from the definition')
BOUNDS = {'quick': {'samples': '1..5 in 1D (lattice of 5), 1..3 in 2D (3x3), 1..3 in 3D (2x2x2)', 'wide': 'n 3..130, dim 1..6, scales 1e-7..1e6', 'cells': '1..3 rectangles / balls', 'k': '1..n, 1..4', 'norms': '1, 2, 3, inf'},
          'thorough': {'samples': '1..5 in 1D (lattice of 6), 1..4 in 2D, 1..4 in 3D', 'wide': 'n 3..130, dim 1..6, scales 1e-7..1e6', 'cells': '1..4', 'k': '1..n, 1..5', 'norms': '1, 2, 3, inf'}}
EPS = np.array([0.137, 0.0713, 0.0291, 0.0517])


def norm(x, p):
    x = np.abs(x)
    return x.max(-1) if np.isinf(p) else (x ** p).sum(-1) ** (1.0 / p)


def queries(dim, hi):
    ax = np.arange(-1, 2 * hi + 2) / 2.0
    pts = np.array(list(itertools.product(*[ax if dim < 3 else ax[::2]] * dim)))
    return pts + EPS[:dim] * np.array([1, -1.3, 0.7, -0.9])[:dim]


def voro(ctx, item):
    seq, dim, hi, p, cls, warm = item

    def go():
        import bet.sample as samp
        s = getattr(samp, cls)(dim)
        v = np.array(seq, dtype=float) * np.array([1.0, 1.01, 0.97])[:dim]
        s.set_values(v.copy())
        s.set_p_norm(p)
        if warm:
            s.set_kdtree()
        x = queries(dim, hi)
        D = norm(x[:, None, :] - v[None], p)
        o = np.argsort(D, axis=1, kind='stable')
        S = np.sort(D, axis=1)
        for k in range(1, len(seq) + 1):
            d, i = s.query(x, k)
            d, i = np.asarray(d), np.asarray(i)
            if k == 1:
                require(d.shape == (len(x),) and i.shape == (len(x),), 'shape of one-neighbor query is %s', d.shape)
                d, i = d[:, None], i[:, None]
            require(d.shape == (len(x), k), 'shape of %d-neighbor query is %s', k, d.shape)
            require_close(d, S[:, :k], 'distances for k=%d' % k, 1e-12)
            got = np.take_along_axis(D, i.astype(int), 1)
            require_close(got, S[:, :k], 'samples %s for k=%d (distance of the returned samples)' % (i.tolist(), k), 1e-12)
            require(all(len(set(r)) == k for r in i.tolist()), 'repeated samples in %s', i.tolist())
            ctx.step()
    ctx.case('voronoi', dict(samples=seq, p=p, cls=cls, warm=warm), go)


def check_cells(s, x, inside, k, nrem, what):
    """inside[q] = set of cells that contain the q-th point."""
    d, i = s.query(x, k)
    d, i = np.asarray(d), np.asarray(i)
    if k == 1:
        require(d.shape == (len(x),) and i.shape == (len(x),), 'shape of one-cell query is %s', d.shape)
        d, i = d[:, None], i[:, None]
    require(d.shape == (len(x), k) and i.shape == (len(x), k), 'shape of %d-cell query is %s', k, i.shape)
    for q in range(len(x)):
        cells = [int(c) for c in i[q]]
        m = min(k, len(inside[q]))
        head, tail = cells[:m], cells[m:]
        require(len(set(head)) == m and set(head) <= inside[q], '%s: point %s is in cells %s, k=%d query gave %s', what, x[q].tolist(), sorted(inside[q]), k, cells)
        require(all(c == nrem for c in tail), '%s: point %s is in cells %s, k=%d query gave %s', what, x[q].tolist(), sorted(inside[q]), k, cells)
        require(all(d[q, :m] == 0.0) and all(np.isposinf(d[q, m:])), '%s: point %s has distances %s for cells %s', what, x[q].tolist(), d[q].tolist(), cells)


def rects(ctx, item):
    seq, dim, hi, ks = item

    def go():
        import bet.sample as samp
        s = samp.rectangle_sample_set(dim)
        mins = [list(map(float, r[0])) for r in seq]
        maxes = [list(map(float, r[1])) for r in seq]
        s.setup(maxes=maxes, mins=mins)
        x = queries(dim, hi)
        inside = [set(c for c in range(len(seq)) if all(mins[c][j] < t[j] < maxes[c][j] for j in range(dim))) for t in x]
        for k in ks:
            check_cells(s, x, inside, k, len(seq), 'rectangles')
            ctx.step()
    ctx.case('rectangle', dict(rectangles=seq), go)


def balls(ctx, item):
    seq, dim, hi, p, ks = item

    def go():
        import bet.sample as samp
        s = samp.ball_sample_set(dim)
        s.set_p_norm(p)
        c = np.array([b[0] for b in seq], dtype=float)
        r = np.array([b[1] for b in seq], dtype=float)
        s.setup([list(y) for y in c], list(r))
        x = queries(dim, hi)
        D = norm(x[:, None] - c[None], p)
        inside = [set(np.nonzero(row < r)[0].tolist()) for row in D]
        for k in ks:
            check_cells(s, x, inside, k, len(seq), 'balls')
            ctx.step()
    ctx.case('ball', dict(balls=seq, p=p), go)


def grids(ctx, item):
    axes, form = item

    def go():
        import bet.sample as samp
        dim = len(axes)
        s = samp.cartesian_sample_set(dim)
        s.setup([np.array(a, dtype=float) if form == 'array' else [float(t) for t in a] for a in axes])
        ncell = int(np.prod([len(a) - 1 for a in axes]))
        require(s.check_num() == ncell + 1, '%d cells, expected %d and the remainder', s.check_num(), ncell)
        v = np.array(s.get_values())
        boxes = list(itertools.product(*[list(zip(a[:-1], a[1:])) for a in axes]))
        cent = sorted(tuple(0.5 * (lo + hi) for lo, hi in b) for b in boxes)
        require_close(np.array(sorted(map(tuple, v[:-1].tolist()))), np.array(cent), 'cell centres')
        x = queries(dim, 3)
        own = {}
        inside = []
        for t in x:
            b = [b for b in boxes if all(lo < y < hi for y, (lo, hi) in zip(t, b))]
            inside.append(b[0] if b else None)
        index = {}
        d, i = s.query(x)
        for q, b in enumerate(inside):
            if b is None:
                require(i[q] == ncell and np.isposinf(d[q]), 'point %s outside of the grid is located in cell %s', x[q].tolist(), i[q])
            else:
                c = int(i[q])
                require(c < ncell and d[q] == 0.0 and np.allclose(v[c], [0.5 * (lo + hi) for lo, hi in b]),
                        'point %s of cell %s is located in cell %d centred at %s', x[q].tolist(), b, c, v[c].tolist())
                require(index.setdefault(b, c) == c and own.setdefault(c, b) == b, 'cell %s has two numbers', b)
        # points on interior faces belong to exactly one adjacent cell
        face = np.array(list(itertools.product(*[list(a[1:-1]) + [0.5 * (a[0] + a[1]) + 0.01] for a in axes])), dtype=float)
        d, i = s.query(face, 2)
        for q, t in enumerate(face):
            adj = [k for k in range(ncell) if np.all(np.abs(v[k] - t) <= np.array([0.5 * (hi - lo) for lo, hi in own_box(boxes, v[k])]) + 1e-12)]
            require(int(i[q, 0]) in adj and int(i[q, 1]) == ncell, 'point %s on a face is located in %s, adjacent cells are %s', t.tolist(), i[q].tolist(), adj)
        ctx.step(3)
    ctx.case('grid', dict(axes=axes, form=form), go)


def own_box(boxes, c):
    for b in boxes:
        if np.allclose(c, [0.5 * (lo + hi) for lo, hi in b]):
            return b


# larger patterned configurations: dimensions up to 6, many cells, all scales of coordinates ---------

def wpts(n, dim, a, scale, shift):
    i = np.arange(1, n + 1)[:, None]
    g = np.sqrt(np.array([2.0, 3.0, 5.0, 7.0, 11.0, 13.0]))[None, :dim]
    return scale * (shift + np.mod(i * g * (1 + 0.37 * a) + 0.1 * a, 1.0))


def wide(ctx, item):
    kind, n, dim, p, scale, shift, a = item

    def go():
        import bet.sample as samp
        x = np.vstack((wpts(37, dim, a + 5, scale, shift), wpts(8, dim, a + 7, 3 * scale, shift)))
        v = wpts(n, dim, a, scale, shift)
        if kind == 'voronoi':
            s = samp.voronoi_sample_set(dim)
            s.set_p_norm(p)
            s.set_values(v.copy())
            D = norm(x[:, None, :] - v[None], p)
            S = np.sort(D, axis=1)
            for k in sorted(set((1, 2, min(n, 9), n))):
                d, i = s.query(x, k)
                d, i = np.asarray(d).reshape(len(x), k), np.asarray(i).reshape(len(x), k)
                require(bool(np.all(np.abs(d - S[:, :k]) <= 1e-9 * (1 + abs(shift)) * scale)), 'distances for k=%d', k)
                got = np.take_along_axis(D, i.astype(int), 1)
                require(bool(np.all(np.abs(got - S[:, :k]) <= 1e-9 * (1 + abs(shift)) * scale)), 'samples %s for k=%d', i.tolist(), k)
                require(all(len(set(r)) == k for r in i.tolist()), 'repeated samples in %s', i.tolist())
                ctx.step()
            return
        if kind == 'rectangle':
            s = samp.rectangle_sample_set(dim)
            w = scale * (0.15 + 0.5 * np.mod(np.arange(n)[:, None] * 0.37 + np.arange(dim)[None] * 0.21, 1.0))
            lo, hi = v - w, v + w
            s.setup(maxes=[list(t) for t in hi], mins=[list(t) for t in lo])
            inside = [set(np.nonzero(np.all((lo < t) & (t < hi), axis=1))[0].tolist()) for t in x]
        else:
            s = samp.ball_sample_set(dim)
            s.set_p_norm(p)
            r = scale * np.sqrt(dim) * (0.1 + 0.3 * np.mod(np.arange(n) * 0.37, 1.0))
            s.setup([list(t) for t in v], list(r))
            D = norm(x[:, None] - v[None], p)
            inside = [set(np.nonzero(row < r)[0].tolist()) for row in D]
        for k in (1, 2, 5, 12):
            check_cells(s, x, inside, k, n, kind)
            ctx.step()
    ctx.case('wide', dict(kind=kind, n=n, dim=dim, p=p, scale=scale, shift=shift, a=a), go)


def run(ctx):
    T = ctx.thorough
    items = [(k, n, dim, p, sc, sh, a) for k in ('voronoi', 'rectangle', 'ball') for n in (3, 20, 60, 130) for dim in (1, 2, 3, 4, 5, 6) for p in (1.0, 2.0, 3.0, np.inf)
             for sc, sh in ((1.0, 0.0), (1e-7, 0.0), (1e-14, 0.0), (1e6, -2.0), (1.0, 100.0), (1.0, 1e6)) for a in ((0, 1, 2, 3) if T else (0,)) if k != 'rectangle' or p == 2.0]
    items += [(k, 1300, dim, 2.0, 1.0, 0.0, 0) for k in ('voronoi', 'rectangle', 'ball') for dim in (1, 2, 3)]
    ctx.shards(items, wide)
    items = []
    P = (1.0, 2.0, 3.0, np.inf)
    for dim, hi, top in ((1, 5 if T else 4, 5), (2, 2, 4 if T else 3), (3, 1, 4 if T else 3)):
        lat = list(itertools.product(range(hi + 1), repeat=dim))
        for k in range(1, top + 1):
            for seq in itertools.permutations(lat, k):
                if dim == 2 and k == 4 and sum(i * (a + 3 * b) for i, (a, b) in enumerate(seq)) % 3:
                    continue      # a third of the orders of four points
                for j, p in enumerate(P):
                    if dim == 1 and j and (j + sum(a[0] for a in seq)) % 3:
                        continue  # in one dimension all norms agree
                    if not T and dim == 2 and k == 3 and (j + seq[0][0]) % 2:
                        continue
                    items.append((seq, dim, hi, p, 'sample_set' if len(items) % 2 else 'voronoi_sample_set', len(items) % 3 == 0))
    ctx.shards(items, voro)
    ks = (1, 2, 3, 4, 5) if T else (1, 2, 3, 4)
    items = []
    for dim, hi, top in ((1, 3, 4 if T else 3), (2, 2, 3), (3, 1, 3)):
        iv = [(a, b) for a in range(hi + 1) for b in range(a + 1, hi + 1)]
        R = [(tuple(t[0] for t in c), tuple(t[1] for t in c)) for c in itertools.product(iv, repeat=dim)]
        for k in range(1, top + 1):
            for seq in itertools.product(R, repeat=k):
                items.append((seq, dim, hi, ks))
    ctx.shards(items, rects)
    items = []
    for dim, hi, top in ((1, 2, 4 if T else 3), (2, 1, 3), (3, 1, 2)):
        B = [(c, r) for c in itertools.product(range(hi + 1), repeat=dim) for r in (0.6, 1.45)]
        for k in range(1, top + 1):
            for seq in itertools.product(B, repeat=k):
                for p in (1.0, 2.0, np.inf):
                    if dim == 1 and p != 2.0 and k > 1:
                        continue
                    items.append((seq, dim, hi, p, ks))
    ctx.shards(items, balls)
    ax = [a for k in range(2, 5) for a in itertools.combinations(range(4), k)]
    ax += [(0.5, 1.0, 3.0), (-1.0, 0.25, 2.75)]
    items = [((a,), f) for a in ax for f in ('array', 'list')] + [((a, b), 'array') for a in ax for b in ax] + \
            [((a, b, c), 'array') for a in ax[:: 1 if T else 3] for b in ax[::2] for c in ax[:: 1 if T else 2]] + \
            [((a, b, c, e), 'array') for a in ax[::4] for b in ax[1::5] for c in ax[2::5] for e in ax[::6]]
    ctx.shards(items, grids)
