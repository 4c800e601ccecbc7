"""Array shaping utilities keep every number in its place."""
import itertools
import sys

import numpy as np

from mc.core import require, expect_error
from mc.fakempi import run_ranks

RULE = ('every layout (scalars, nested lists, tuples, arrays of every shape, memory order and stride) up to the bound for each utility; every grid of up to the bound vectors of every length; every placement of undefined and infinite entries in small arrays; '
        'every shape, type and distribution of gathered arrays; oracle: index arithmetic on labelled entries')
BOUNDS = {'quick': {'entries': '0..12 (selected: 180)', 'grid vectors': '1..10', 'grid lengths': '0..3 (selected: 100)', 'ranks': '1..3 (selected: 8)', 'special entries': 'all placements in up to 5 entries'}, 'thorough': {'entries': '0..20', 'grid vectors': '1..10', 'grid lengths': '0..4', 'ranks': '1..4', 'special entries': 'all placements in up to 6 entries'}}
ASSUMPTIONS = ['data of size (dim, dim) is read as samples in rows', 'grids of more than ten vectors are outside the documented range']

DT = ('float64', 'int64', 'float32', 'int32', 'bool')


def label(shape, dt='float64'):
    n = int(np.prod(shape, initial=1))
    x = np.arange(1, n + 1).reshape(shape)
    if dt == 'fractions':
        return 1.0 / x - 2.0
    if dt == 'large':
        return 2 ** 60 + 2 * x + 1      # not representable as floats
    return (x % 3 == 0) if dt == 'bool' else x.astype(dt)


def forms(x):
    """The same numbers in every memory layout and container."""
    yield 'array', x.copy()
    if x.ndim >= 2:
        yield 'fortran', np.asfortranarray(x)
        yield 'transposed', np.ascontiguousarray(x.T).T
    if x.ndim >= 1:
        big = np.zeros(tuple(2 * s for s in x.shape), x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        yield 'strided', v
        r = x[::-1].copy()[::-1]
        yield 'reversed', r
        if x.size:
            yield 'list', x.tolist()
            yield 'tuple', tuple(tuple(r) if isinstance(r, list) else r for r in x.tolist())
            yield 'range-like', [np.asarray(r) for r in x]
    else:
        yield 'scalar', x.item()
        yield 'numpy scalar', x[()]


def frozen(d):
    return repr(d) if not isinstance(d, np.ndarray) else (d.shape, d.tobytes(), d.dtype)


def check(name, f, d, want, src):
    before = frozen(d)
    got = f(d)
    require(isinstance(got, np.ndarray), '%s: %s instead of an array', name, type(got).__name__)
    require(got.shape == want.shape, '%s of %s: shape %s, expected %s', name, src, got.shape, want.shape)
    require(np.asarray(got).tolist() == want.tolist(), '%s of %s: %s, expected %s', name, src, got.tolist(), want.tolist())
    require(frozen(d) == before, '%s changed its argument', name)


def run_shape(ctx, item):
    shape, dt = item
    import bet.util as u
    x = label(shape, dt)
    for how, d in forms(x):
        src = '%s %s %s' % (how, shape, dt)

        def vec():
            check('fix_dimensions_vector', u.fix_dimensions_vector, d, x.reshape(-1), src)
            ctx.step()
        ctx.case('vector', [how, shape, dt], vec)
        zero = isinstance(d, np.ndarray) and d.ndim == 0

        def vec2():
            w = x.reshape(-1, 1) if x.ndim <= 1 else x
            if zero:      # an array without axes may be rejected
                try:
                    u.fix_dimensions_vector_2darray(d)
                except Exception:
                    return
            check('fix_dimensions_vector_2darray', u.fix_dimensions_vector_2darray, d, w, src)
            ctx.step()
        if x.ndim <= 2:
            ctx.case('vector_2d', [how, shape, dt], vec2)

            def data():
                if not zero:
                    check('fix_dimensions_data', u.fix_dimensions_data, d, x.reshape(-1, 1) if x.ndim <= 1 else x, src)
                ctx.step()
            ctx.case('data', [how, shape, dt], data)
            y = x.reshape(-1, 1) if x.ndim <= 1 else x
            for dim in range(1, 12):
                if zero:
                    continue
                w = y if y.shape[1] == dim else y.T if y.shape[0] == dim else None
                if w is None:
                    continue

                def datad():
                    check('fix_dimensions_data(dim=%d)' % dim, lambda z: u.fix_dimensions_data(z, dim), d, w, src)
                    ctx.step()
                ctx.case('data_dim', [how, shape, dt, dim], datad)

        def dom():
            w = None
            if x.ndim == 1 and x.shape[0] == 2:
                w = x.reshape(1, 2)
            elif x.ndim == 2 and x.shape[1] == 2:
                w = x
            elif x.ndim == 2 and x.shape[0] == 2:
                w = x.T
            if w is None:
                expect_error(lambda: u.fix_dimensions_domain(d), 'a domain given as %s' % src, (TypeError,))
            else:
                check('fix_dimensions_domain', u.fix_dimensions_domain, d, w, src)
            ctx.step()
        if not (x.ndim and 0 in x.shape and how != 'array'):
            ctx.case('domain', [how, shape, dt], dom)


def run_mesh(ctx, lens):
    import bet.util as u

    def go():
        base = [[round(10.0 * (j + 1) + ((i * 3 + j) % 4) - 1.5 * i * (j % 2), 3) for i in range(k)] for j, k in enumerate(lens)]
        want = np.array(list(itertools.product(*base)), float).reshape(-1, len(lens))
        for cast in (lambda v: np.array(v, float), list, lambda v: np.array(v, float)[::-1].copy()[::-1]):
            X = tuple(cast(v) for v in base)
            before = repr(X)
            g = u.meshgrid_ndim(X)
            require(g.shape == want.shape, 'grid of %s: shape %s, expected %s', lens, g.shape, want.shape)
            require(bool(np.all(g == want)), 'grid of %s: %s, expected %s', lens, g.tolist(), want.tolist())
            require(repr(X) == before, 'the vectors were changed')
            ctx.step()
        g = u.meshgrid_ndim([np.array(v, float) for v in base])
        require(bool(np.all(g == want)), 'grid from a list of vectors')
        if all(lens):
            ints = [np.arange(k) + 7 * j for j, k in enumerate(lens)]
            g = u.meshgrid_ndim(tuple(ints))
            require(g.tolist() == [list(t) for t in itertools.product(*[v.tolist() for v in ints])], 'grid of integers')
    ctx.case('grid', list(lens), go)


SPECIAL = (0.0, 2.5, -1.5, float('nan'), float('inf'), float('-inf'), sys.float_info.max, -sys.float_info.max, 1e-320, 1e301, -1e305)


def run_clean(ctx, item):
    vals, shape, dt = item
    import bet.util as u

    def go():
        x = np.array(vals, dtype=float).astype(dt).reshape(shape)
        if dt != 'float64':
            x[np.isinf(x) & (np.array(vals).reshape(shape) != np.array(vals).reshape(shape).astype(dt).astype(float))] = 1.0
        for y in (x, np.asfortranarray(x)):
            b = y.copy()
            g = u.clean_data(y)
            require(np.array_equal(y, b, equal_nan=True), 'clean_data changed its argument')
            require(g.shape == y.shape, 'clean_data shape %s', g.shape)
            big = np.finfo(dt).max
            want = np.array([0.0 if v != v else float(big) if v == np.inf else -float(big) if v == -np.inf else float(v) for v in b.ravel()])
            require(bool(np.all(np.asarray(g, float).ravel() == want)), 'clean_data of %s: %s', b.tolist(), g.tolist())
            require(not np.shares_memory(g, y), 'clean_data returns its argument')
            ctx.step()
    ctx.case('clean', [vals, shape, dt], go)


def d_gather(rank, counts, tail, dt, given):
    import bet.util as u
    n = sum(counts)
    x = label((n,) + tuple(tail), dt)
    o = np.cumsum((0,) + tuple(counts))
    loc = x[o[rank]:o[rank + 1]].copy()
    if given == 'fortran' and loc.ndim > 1:
        loc = np.asfortranarray(loc)
    b = loc.copy()
    y = u.get_global_values(loc, shape=x.shape if given else None)
    require(y.shape == x.shape, 'gathered shape %s, expected %s', y.shape, x.shape)
    require(bool(np.all(y == x)), 'gathered %s, expected %s', y.tolist(), x.tolist())
    require(y.dtype.kind == x.dtype.kind, 'gathered type %s from %s', y.dtype, x.dtype)
    require(np.array_equal(loc, b), 'the local array was changed')
    return 1


def run_gather(ctx, item):
    counts, tail, dt, given = item

    def go():
        ctx.step(sum(run_ranks(len(counts), d_gather, (counts, tail, dt, given)).values()))
    ctx.case('gather', [counts, tail, dt, given], go)


def run(ctx):
    T = ctx.thorough
    m = 5 if T else 4
    shapes = [()] + [(k,) for k in range(0, 13)] + [(a, b) for a in range(0, m + 1) for b in range(0, m + 1)] + [(5, 2), (2, 5), (12, 1), (1, 12), (6, 2), (2, 6)] + [(a, b, c) for a in (1, 2, 3) for b in (1, 2) for c in (1, 2, 3)] + [(2, 2, 2)]
    shapes += [(100,), (37,), (1, 50), (50, 1), (30, 6), (6, 30), (8, 9), (9, 8), (64, 2), (2, 64), (11, 7), (10, 10), (1500, 3), (2, 1200), (3000,)]
    ctx.shards([(s, d) for s in dict.fromkeys(shapes) for d in DT[:5] + ('fractions', 'large')], run_shape)
    mesh = [l for n in range(1, 4 if not T else 5) for l in itertools.product(range(0, 4 if not T else 5), repeat=n)]
    for n in range(4, 11):
        mesh += [tuple(1 + ((b >> i) & 1) for i in range(n)) for b in (range(2 ** n) if n <= 6 or T else [1 << i for i in range(n)] + [2 ** n - 1, 0, 5, 9 << (n - 4)])]
        mesh += [tuple(3 if i in (j, (j + 2) % n) else 1 for i in range(n)) for j in range(n)]
    mesh += [(100,), (17, 23), (40, 1, 12), (7, 8, 9), (2, 11, 3, 5), (6, 1, 1, 9, 2)]
    ctx.shards(mesh, run_mesh)
    clean = []
    for n in range(1, 7 if T else 6):
        alph = SPECIAL if n <= 3 else SPECIAL[1:6] if n == 4 else SPECIAL[2:6] if n == 5 else SPECIAL[3:6]
        for v in itertools.product(alph, repeat=n):
            clean.append((v, (n,), 'float64'))
            if n == 4:
                clean.append((v, (2, 2), 'float64'))
            if n <= 3:
                clean.append((v, (1, n, 1), 'float64'))
                clean.append((v, (n,), 'float32'))
    ctx.shards(clean, run_clean)
    gat = []
    for r in (1, 2, 3, 4) if T else (1, 2, 3):
        for counts in itertools.product(range(0, 4), repeat=r):
            for tail in ((), (1,), (2,), (2, 2)):
                for dt in DT:
                    for given in (False, True, 'fortran'):
                        gat.append((counts, tail, dt, given))
    for counts in ((17, 3, 0, 25), (5,) * 8, (0, 0, 40, 0, 1, 0, 0), (100, 1), (3, 0, 8, 0, 2, 7, 1, 1), (60,), (1500, 700)):
        for tail in ((), (1,), (4,), (6,), (3, 5)):
            for dt in DT:
                for given in (False, True, 'fortran'):
                    gat.append((counts, tail, dt, given))
    ctx.shards(gat, run_gather)
