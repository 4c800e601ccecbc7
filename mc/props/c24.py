"""Simple-function approximations of the output measure are probability measures."""
import itertools
import math

import numpy as np

from mc.build import snap_set, diff
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('every approximation with every kind of data set, form of the reference value, sizes/scales/domains, cell counts and process count, generator seeds from a list; oracle: exact cells and shares of the rectangle (regular), '
        'exact counts (user data, data samples), true measure of the Voronoi cells of the returned generators computed on a fine lattice (emulated measures, fixed number of emulated points)')
BOUNDS = {'quick': {'dims': '1..3, patterns 4..5', 'cells per dim': '1..3', 'cells': '1..6', 'ranks': '1..3', 'seeds': 1, 'emulated points': 4000},
          'thorough': {'dims': '1..3, patterns 4..5', 'cells per dim': '1..4', 'cells': '1..9', 'ranks': '1..5', 'seeds': 4, 'emulated points': 10000}}
ASSUMPTIONS = ['emulated measures are compared with the true measure within a tolerance of 8 standard deviations of the emulation for each enumerated seed']

REF = np.array([2.0, -1.0, 30.0, 3e-4, -4e5])
DATA = np.array([[1.0, -2.0, 20.0, 1e-4, -5e5], [3.5, -0.5, 45.0, 4e-4, -3e5], [2.25, 1.0, 33.0, 2.5e-4, 1e5], [1.5, -1.75, 28.0, 7e-4, -4.5e5], [2.0, 0.25, 60.0, 3.5e-4, 0.0]])
SZ = np.array([0.5, 2.0, 8.0, 2e-4, 6e4])


def data_of(kind, dim, ref, unit=1.0):
    """(object, output set or None)"""
    import bet.sample as samp
    if kind == 'array':
        return DATA[:, :dim] * unit
    o = samp.voronoi_sample_set(dim) if kind == 'voronoi' else samp.sample_set(dim)
    o.set_values(DATA[:, :dim] * unit)
    if ref == 'held':
        o.set_reference_value(REF[:dim] * unit)
    if ref in ('other', 'zero'):       # another reference value is held than the one asked for
        o.set_reference_value((2 * REF[:dim] + 3) * unit)
    if kind.startswith('rich'):
        o.set_domain(np.column_stack((DATA[:, :dim].min(0) - 1, DATA[:, :dim].max(0) + 1)) * unit)
        o.set_probabilities(np.array([0.0, 0.4, 0.1, 0.3, 0.2]))
        o.set_volumes(np.array([0.1, 0.3, 0.2, 0.25, 0.15]))
        o.set_error_estimates(np.arange(5.0 * dim).reshape(5, dim))
        o.set_jacobians(np.arange(10.0 * dim).reshape(5, dim, 2))
        o.set_region(np.arange(5))
        if kind == 'rich_local':
            o.global_to_local()
    if kind in ('set', 'voronoi', 'rich', 'rich_local'):
        return o
    i = samp.sample_set(1)
    i.set_values(np.arange(5.0).reshape(-1, 1))
    i.set_volumes(np.ones(5) / 5)
    d = samp.discretization(i, o)
    if kind == 'used':         # has already been inverted with another measure
        import bet.calculateP.calculateP as calcP
        s = samp.sample_set(dim)
        s.set_values((DATA[:3, :dim] + 0.1) * unit)
        s.set_probabilities(np.array([0.5, 0.25, 0.25]))
        d.set_output_probability_set(s)
        e = samp.sample_set(dim)
        e.set_values(DATA[:2, :dim] * 1.125 * unit)
        d.set_emulated_output_sample_set(e)
        d.set_io_ptr()
        d.set_emulated_oo_ptr()
        calcP.prob(d)
    return d


def ref_of(form, dim, unit=1.0):
    r = REF[:dim] * unit
    return {'held': None, 'array': r.copy(), 'list': r.tolist(), 'other': r.copy(), 'zero': np.zeros(dim), 'scalar': -1.5 * unit, 'whole': -2 if unit == 1.0 else -2.0 * unit}[form]


def cen(form, dim):
    return {'zero': np.zeros(dim), 'scalar': np.full(dim, -1.5), 'whole': np.full(dim, -2.0)}.get(form, REF[:dim])


def common(obj, s, dim, M, unit=1.0):
    """Checks for every approximation; returns what all processes have to agree on."""
    import bet.sample as samp
    p = np.array(s.get_probabilities())
    v = np.array(s.get_values())
    require(s.get_dim() == dim, 'dimension %s', s.get_dim())
    require(p.shape == (M,) and s.check_num() == M, '%s probabilities, %s cells, expected %d', p.shape, s.check_num(), M)
    require(np.all(p >= 0), 'negative probabilities %s', p.tolist())
    require(abs(p.sum() - 1) < 1e-9, 'probabilities sum to %r', p.sum())
    out = dict(p=p, v=v)
    if isinstance(obj, samp.sample_set_base):
        require(obj is not s, 'the data set itself is returned')
        require_close(obj.get_values(), DATA[:, :dim] * unit, 'data', 0)
        if obj.get_region() is not None:
            require_close(obj.get_probabilities(), [0.0, 0.4, 0.1, 0.3, 0.2], 'probabilities of the data set', 0)
            require_close(obj.get_volumes(), [0.1, 0.3, 0.2, 0.25, 0.15], 'volumes of the data set', 0)
    if isinstance(obj, samp.discretization):
        import bet.calculateP.calculateP as calcP
        require(obj.get_output_probability_set() is s, 'the discretization does not hold the new measure')
        o = obj.get_output_sample_set()
        require(o is not s and o.get_probabilities() is None, 'the output samples were given probabilities %s', o.get_probabilities())
        require_close(o.get_values(), DATA[:, :dim] * unit, 'output samples', 0)
        _, ptr = s.query(np.array(o.get_values()))
        calcP.prob(obj)
        got = np.array(obj.get_input_sample_set().get_probabilities())
        want = np.zeros(5)
        for c in range(M):
            k = np.flatnonzero(np.asarray(ptr) == c)
            want[k] = p[c] / max(1, len(k))
        require_close(got, want, 'next inversion', 1e-9)
        if obj.get_io_ptr() is None:
            obj.globalize_ptrs()
        require_close(np.array(obj.get_io_ptr(), float), np.array(ptr, float), 'output pointer after the next inversion', 0)
        e = obj.get_emulated_output_sample_set()
        if e is not None:
            if obj.get_emulated_oo_ptr() is None:
                obj.set_emulated_oo_ptr()
            require_close(np.array(obj.get_emulated_oo_ptr(), float), np.array(s.query(np.array(e.get_values()))[1], float), 'emulated output pointer', 0)
        require_close(o.get_values(), DATA[:, :dim] * unit, 'output values', 0)
    elif isinstance(obj, np.ndarray):
        require_close(obj, DATA[:, :dim] * unit, 'data', 0)
    else:
        require_close(obj.get_values(), DATA[:, :dim] * unit, 'data', 0)
        require(obj.get_region() is not None or obj.get_probabilities() is None, 'the data set got probabilities')
    return out


def agree(rs):
    for r in rs[1:]:
        for k in r:
            require_close(r[k], rs[0][k], 'processes disagree on %s' % k, 0)
    return rs[0]


# ---- regular partitions ----------------------------------------------------------------

def size_of(how, dim, unit=1.0, ref=None):
    """(argument, size) for the three ways to give a rectangle."""
    sz = SZ[:dim] * unit
    rng = (DATA[:, :dim].max(0) - DATA[:, :dim].min(0)) * unit
    if how == 'scalar':
        return 0.75 * unit, np.full(dim, 0.75 * unit)
    if how == 'int':
        return 2, np.full(dim, 2.0)
    if how == 'array':
        return sz.copy(), sz
    if how == 'list':
        return sz.tolist(), sz
    if how == 'scale':
        return 0.25, rng * 0.25
    if how == 'scale_list':
        s = [0.5, 0.25, 0.125, 0.75, 1.5][:dim]
        return s, rng * np.array(s)
    if how == 'scale_array':
        s = np.array([0.5, 0.25, 0.125, 0.75, 1.5])[:dim]
        return s, rng * s
    c = cen(ref, dim) * unit
    if how == 'domain':
        return np.vstack([c - sz / 2, c + sz / 2]), sz
    if how == 'domain_list':
        return [(c - sz / 2).tolist(), (c + sz / 2).tolist()], sz
    if how == 'domain_mixed':        # the two corners are given in no particular order
        k = np.arange(dim) % 2 == 0
        return np.vstack([np.where(k, c + sz / 2, c - sz / 2), np.where(k, c - sz / 2, c + sz / 2)]), sz
    raise ValueError(how)


SIZES = ('scalar', 'int', 'array', 'list', 'scale', 'scale_list', 'scale_array', 'domain', 'domain_list', 'domain_mixed')


def p_reg(rank, kind, dim, ref, how, cells, cform, unit=1.0):
    import bet.calculateP.simpleFunP as sf
    obj = data_of(kind, dim, ref, unit)
    arg, size = size_of(how, dim, unit, ref)
    c = {'list': list(cells), 'array': np.array(cells), 'int': cells[0]}[cform]
    if how.startswith('domain'):
        s = sf.regular_partition_uniform_distribution_rectangle_domain(obj, arg, c)
    elif how.startswith('scale'):
        s = sf.regular_partition_uniform_distribution_rectangle_scaled(obj, ref_of(ref, dim, unit), arg, c)
    else:
        s = sf.regular_partition_uniform_distribution_rectangle_size(obj, ref_of(ref, dim, unit), arg, c)
    M = int(np.prod(cells)) + 1
    out = common(obj, s, dim, M, unit)
    require(abs(out['p'][-1]) < 1e-12, 'probability %r outside the rectangle', out['p'][-1])
    require_close(out['p'][:-1], np.full(M - 1, 1.0 / (M - 1)), 'shares of the rectangle', 1e-9)
    lo = cen(ref, dim) * unit - size / 2
    ax = [lo[i] + (np.arange(cells[i]) + 0.5) * size[i] / cells[i] for i in range(dim)]
    pts = np.array(list(itertools.product(*ax)))
    _, k = s.query(pts)
    k = np.asarray(k).ravel()
    require(sorted(k.tolist()) == list(range(M - 1)), 'centres of the cells of the rectangle lie in the cells %s', k.tolist())
    # points just inside and outside of the faces of every cell
    for q, pt in zip(k, pts):
        for i in range(dim):
            h = size[i] / cells[i]
            for sgn in (-1, 1):
                a, b = pt.copy(), pt.copy()
                a[i] += sgn * 0.49 * h
                b[i] += sgn * 0.51 * h
                qa, qb = [int(np.asarray(s.query(x.reshape(1, -1))[1]).ravel()[0]) for x in (a, b)]
                require(qa == q, 'point inside cell %s is put into %s', q, qa)
                require(qb != q, 'point outside cell %s is put into it', q)
                if np.any(b < lo) or np.any(b > lo + size):
                    require(qb == M - 1, 'point outside the rectangle is put into cell %s', qb)
    return out


def run_reg(ctx, item):
    kind, dim, ref, how, cells, cform, size = item[:7]
    unit = item[7] if len(item) > 7 else 1.0

    def go():
        agree(run_ranks(size, p_reg, (kind, dim, ref, how, cells, cform, unit)).values())
        ctx.step(int(np.prod(cells)))
    ctx.case('regular', dict(kind=kind, dim=dim, ref=ref, how=how, cells=cells, cform=cform, ranks=size, unit=unit), go)


# ---- emulated measures --------------------------------------------------------------------

def lattice(which, center, size, n):
    """Points with equal mass of the uniform (on a box) or normal measure."""
    from scipy.special import ndtri
    dim = len(center)
    if dim > 3:
        u = np.mod((np.arange(20000)[:, None] + 0.5) * np.sqrt(np.array([2.0, 3.0, 5.0, 7.0, 11.0]))[None, :dim], 1.0)
        return np.asarray(center) + np.asarray(size) * (u - 0.5 if which == 'uniform' else ndtri(u))
    m = {1: n * n, 2: n, 3: max(8, int(n ** (2.0 / 3)))}[dim]
    u = (np.arange(m) + 0.5) / m
    t = u - 0.5 if which == 'uniform' else ndtri(u)
    return np.array(list(itertools.product(*[center[i] + size[i] * t for i in range(dim)])))


def p_emul(rank, kind, dim, ref, fn, how, M, N, seed):
    import bet.calculateP.simpleFunP as sf
    np.random.seed(100 * seed + rank)
    obj = data_of(kind, dim, ref)
    which = 'uniform'
    if fn == 'uniform':
        arg, size = size_of(how, dim, ref=ref)
        if how.startswith('domain'):
            s = sf.uniform_partition_uniform_distribution_rectangle_domain(obj, arg, M=M, num_d_emulate=N)
        elif how.startswith('scale'):
            s = sf.uniform_partition_uniform_distribution_rectangle_scaled(obj, ref_of(ref, dim), arg, M=M, num_d_emulate=N)
        else:
            s = sf.uniform_partition_uniform_distribution_rectangle_size(obj, ref_of(ref, dim), arg, M=M, num_d_emulate=N)
    else:
        which = 'normal'
        sz = SZ[:dim]
        arg = {'scalar': 0.75, 'int': 2, 'array': sz.copy(), 'list': sz.tolist(), 'default': None}[how]
        size = {'scalar': np.full(dim, 0.75), 'int': np.full(dim, 2.0), 'default': np.ones(dim)}.get(how, sz)
        f = sf.normal_partition_normal_distribution if fn == 'normal' else sf.uniform_partition_normal_distribution
        kw = {} if arg is None else {'std': arg}
        s = f(obj, ref_of(ref, dim), M=M, num_d_emulate=N, **kw)
    out = common(obj, s, dim, M)
    if s.get_volumes() is not None:
        vol = np.array(s.get_volumes())
        require(vol.shape == (M,) and bool(np.all(np.isfinite(vol))) and bool(np.all(vol >= 0)), 'volumes %s', vol.tolist())
        require(bool(np.all((vol > 0) == (out['p'] > 0))), 'volumes %s of cells with probabilities %s', vol.tolist(), out['p'].tolist())
        out['vol'] = vol
    # the generators of a random partition are distinct points where the approximation places them
    u = np.abs((out['v'] - cen(ref, dim)) / size)
    reach = {'uniform': 0.75, 'normal': 9.0, 'uniform_normal': 2.0}[fn]
    require(bool(np.all(u <= reach + 1e-9)), 'generators %s around %s', out['v'].tolist(), cen(ref, dim).tolist())
    require(len({tuple(x) for x in out['v'].tolist()}) == M and bool(np.any(out['v'] != 0.0)), 'generators %s', out['v'].tolist())
    out['size'] = size
    out['which'] = np.array([which == 'uniform'])
    return out


def run_emul(ctx, item):
    kind, dim, ref, fn, how, M, size, seed, N = item

    def go():
        r = agree(run_ranks(size, p_emul, (kind, dim, ref, fn, how, M, N, seed)).values())
        which = 'uniform' if r['which'][0] else 'normal'
        pts = lattice(which, cen(ref, dim), r['size'], 100)
        d2 = ((pts[:, None, :] - r['v'][None, :, :]) ** 2).sum(-1)
        true = np.bincount(d2.argmin(1), minlength=M) / len(pts)
        tol = 8 * 0.5 / math.sqrt(N) + 0.02
        require(np.max(np.abs(true - r['p'])) <= tol, 'probabilities %s, measure of the cells %s', r['p'].tolist(), true.tolist())
        k = r['p'] * N
        require(np.max(np.abs(k - np.round(k))) < 1e-6, 'probabilities are no fractions of the emulated points')
        ctx.step(M)
    ctx.case('emulated', dict(kind=kind, dim=dim, ref=ref, fn=fn, how=how, M=M, ranks=size, seed=seed, N=N), go)


# ---- data given by the user ------------------------------------------------------------------

def p_user(rank, kind, dim, pk, dk, cells, assign):
    import bet.sample as samp
    import bet.calculateP.simpleFunP as sf
    if assign[0] == 'pattern':       # many points
        assign = [(assign[2] * j * j + j // 3) % cells if j % 9 else 0 for j in range(assign[1])]
    obj = data_of(kind, dim, 'none')
    P = np.array([[4.0 * c + 0.25 * j for j in range(dim)] for c in range(cells)])
    off = (0.1, -0.3, 0.7, -1.1, 0.9)
    D = np.array([P[a] + off[i % 5] for i, a in enumerate(assign)])

    def wrap(x, k):
        if k == 'array':
            return x.copy()
        s = samp.voronoi_sample_set(dim) if k == 'voronoi' else samp.sample_set(dim)
        s.set_values(x.copy())
        if k == 'disc':
            i = samp.sample_set(1)
            i.set_values(np.arange(float(len(x))).reshape(-1, 1))
            return samp.discretization(i, s)
        if k == 'full':      # a discretization with other output sets besides the samples
            i = samp.sample_set(1)
            i.set_values(np.arange(float(len(x))).reshape(-1, 1))
            e = samp.voronoi_sample_set(dim)
            e.set_values(x[::-1][:max(1, len(x) - 1)] + 1.3)
            e.set_probabilities(np.ones(max(1, len(x) - 1)) / max(1, len(x) - 1))
            f = samp.sample_set(dim)
            f.set_values(x[:1] - 0.7)
            return samp.discretization(i, s, output_probability_set=e, emulated_output_sample_set=f, output_observed_set=f.copy())
        return s
    s = sf.user_partition_user_distribution(obj, wrap(P, pk), wrap(D, dk))
    out = common(obj, s, dim, cells)
    require_close(out['v'], P, 'cells', 0)
    require_close(out['p'], np.bincount(assign, minlength=cells) / float(len(assign)), 'fractions of the points', 1e-12)
    return out


def run_user(ctx, item):
    kind, dim, pk, dk, cells, assign, size = item

    def go():
        agree(run_ranks(size, p_user, (kind, dim, pk, dk, cells, assign)).values())
        ctx.step()
    ctx.case('user', dict(kind=kind, dim=dim, pk=pk, dk=dk, cells=cells, assign=assign, ranks=size), go)


def p_samples(rank, kind, dim):
    import bet.calculateP.simpleFunP as sf
    obj = data_of(kind, dim, 'none')
    s = sf.uniform_partition_uniform_distribution_data_samples(obj)
    out = common(obj, s, dim, 5)
    require_close(out['v'], DATA[:, :dim], 'cells', 0)
    require_close(out['p'], np.full(5, 0.2), 'probabilities', 1e-12)
    return out


def run_samples(ctx, item):
    kind, dim, size = item

    def go():
        agree(run_ranks(size, p_samples, (kind, dim)).values())
        ctx.step()
    ctx.case('samples', dict(kind=kind, dim=dim, ranks=size), go)


def run_bad(ctx, item):
    def go():
        import bet.calculateP.simpleFunP as sf
        W = (sf.wrong_argument_type,)
        a = DATA.copy()
        for f in (sf.regular_partition_uniform_distribution_rectangle_size, sf.uniform_partition_uniform_distribution_rectangle_size):
            expect_error(lambda: f(a, REF), 'no size', W)
            expect_error(lambda: f(a, None, 1.0), 'no reference', W)
            for bad in (0, -1.0, [1.0, 0.0, 1.0], np.array([1.0, 1.0, -1.0])):
                expect_error(lambda: f(a, REF, bad), 'size %r' % (bad,), W)
                ctx.step()
        for f in (sf.regular_partition_uniform_distribution_rectangle_scaled, sf.uniform_partition_uniform_distribution_rectangle_scaled):
            expect_error(lambda: f(a), 'no reference', W)
            expect_error(lambda: f(a, REF, -0.5), 'negative scale', W)
        for f in (sf.normal_partition_normal_distribution, sf.uniform_partition_normal_distribution):
            expect_error(lambda: f(data_of('set', 3, 'held'), REF, [1.0, 2.0]), 'wrong number of deviations')
            expect_error(lambda: f(a), 'no reference')
            for r, sd in (([1.0, 2.0], [1.0, 2.0]), ((1.0, 2.0), 1.0), ([1.0] * 6, [1.0] * 6), ([1.0], [1.0])):
                expect_error(lambda: f(data_of('set', 3, 'held'), r, sd), 'wrong number of reference values %r' % (r,))
        for bad in (None, 'x', [1, 2]):
            for f in (lambda: sf.uniform_partition_uniform_distribution_data_samples(bad), lambda: sf.user_partition_user_distribution(bad, a, a), lambda: sf.user_partition_user_distribution(a, bad, a),
                      lambda: sf.user_partition_user_distribution(a, a, bad), lambda: sf.regular_partition_uniform_distribution_rectangle_size(bad, REF, 1.0)):
                expect_error(f, 'data %r' % (bad,), W)
                ctx.step()
        for x, y in ((a[:, :2], a), (a, a[:, :2]), (a[:, :2], a[:, :2])):
            expect_error(lambda: sf.user_partition_user_distribution(a, x, y), 'conflicting dimensions', W)
        for kind in ('array', 'set', 'voronoi', 'disc', 'used'):
            for dim in (1, 2, 3):
                obj = data_of(kind, dim, 'none')
                for f in (lambda: sf.regular_partition_uniform_distribution_rectangle_size(obj, None, 1.0), lambda: sf.uniform_partition_uniform_distribution_rectangle_size(obj, None, 1.0),
                          lambda: sf.regular_partition_uniform_distribution_rectangle_scaled(obj), lambda: sf.uniform_partition_uniform_distribution_rectangle_scaled(obj),
                          lambda: sf.normal_partition_normal_distribution(obj), lambda: sf.uniform_partition_normal_distribution(obj)):
                    before = obj.get_output_probability_set() if hasattr(obj, 'get_output_probability_set') else None
                    expect_error(f, 'no reference value')
                    require(before is (obj.get_output_probability_set() if hasattr(obj, 'get_output_probability_set') else None), 'a refused request replaced the measure')
                    ctx.step()
                if kind != 'array':
                    n, d, v, q = sf.check_inputs(data_of(kind, dim, 'held'), None)
                    require(n == 5 and d == dim, 'size %s, dimension %s', n, d)
                    require_close(v, DATA[:, :dim], 'values', 0)
                    require_close(q, REF[:dim], 'stored reference value', 0)
        for bad in (None, 'x', [1, 2]):
            for f in (lambda: sf.regular_partition_uniform_distribution_rectangle_domain(bad, [[0.0, 1.0]]), lambda: sf.uniform_partition_uniform_distribution_rectangle_domain(bad, [[0.0, 1.0]])):
                expect_error(f, 'data %r' % (bad,), W)
    ctx.case('bad', item, go)


def run(ctx):
    T = ctx.thorough
    R = 5 if T else 3
    KINDS = ('array', 'set', 'voronoi', 'disc', 'used', 'rich', 'rich_local')
    REFS = ('held', 'array', 'list', 'other', 'zero', 'scalar', 'whole')
    items = []
    k = 0
    for dim in (1, 2, 3):
        for how in SIZES:
            for cells in itertools.product(range(1, 5 if T else 4), repeat=dim):
                for kind in KINDS:
                    for ref in REFS:
                        k += 1
                        if kind == 'array' and ref == 'held' and not how.startswith('domain'):
                            continue
                        if dim == 3 and k % (7 if T else 19) or dim == 2 and not T and k % 3:
                            continue
                        items.append((kind, dim, ref, how, cells, 'int' if len(set(cells)) == 1 and k % 2 else ('list', 'array')[k // 2 % 2], 1 + k // 5 % R))
    for dim, cells in ((4, (1, 2, 3, 2)), (4, (2, 2, 2, 2)), (5, (2, 1, 2, 3, 2)), (1, (25,)), (2, (7, 11)), (5, (1, 1, 1, 1, 1))):
        for how in SIZES:
            for kind in KINDS:
                for ref in REFS:
                    k += 1
                    if kind == 'array' and ref == 'held' and not how.startswith('domain') or (k % 3 and not T):
                        continue
                    items.append((kind, dim, ref, how, cells, 'int' if len(set(cells)) == 1 and k % 2 else ('list', 'array')[k // 2 % 2], 1 + k // 5 % R))
    for unit in (2.0 ** -60, 2.0 ** -35, 2.0 ** 30):
        for dim, cells in ((1, (3,)), (1, (7,)), (2, (2, 3)), (3, (2, 1, 2))):
            for how in ('scalar', 'array', 'list', 'scale', 'scale_list', 'domain'):
                for kind in KINDS:
                    k += 1
                    if k % 2:
                        items.append((kind, dim, 'array' if kind == 'array' else ('held', 'list')[k // 2 % 2], how, cells, 'list', 1 + k // 5 % R, unit))
    ctx.shards(items, run_reg)
    items = []
    N = 10000 if T else 4000
    for seed in range(1, 5) if T else (ctx.seed,):
        for dim in (1, 2, 3, 4, 5):
            for fn in ('uniform', 'normal', 'uniform_normal'):
                for how in SIZES if fn == 'uniform' else ('scalar', 'int', 'array', 'list', 'default'):
                    for kind in KINDS:
                        for ref in REFS:
                            for M in (1, 2, 3, 6, 20) + ((9,) if T else ()):
                                k += 1
                                if kind == 'array' and ref == 'held' and not how.startswith('domain'):
                                    continue
                                if k % (3 if dim == 1 else 5):
                                    continue
                                items.append((kind, dim, ref, fn, how, M, 1 + (k // 3) % R, seed, N + (k % 5)))
    ctx.shards(items, run_emul)
    items = []
    for dim in (1, 2, 3):
        for cells in (1, 2, 3) + ((4,) if T else ()):
            for n in range(1, 5 if T else 4):
                for assign in itertools.product(range(cells), repeat=n):
                    for kind in KINDS:
                        k += 1
                        items.append((kind, dim, ('array', 'set', 'disc', 'full', 'voronoi')[k % 5], ('set', 'array', 'full', 'voronoi', 'disc')[k // 5 % 5], cells, assign, 1 + k // 7 % R))
    for dim in (1, 2, 4, 5):
        for cells, n in ((5, 23), (12, 101)):
            for a in (1, 2, 3):
                for kind in KINDS:
                    for r in range(1, 5):
                        k += 1
                        items.append((kind, dim, ('array', 'set', 'disc', 'full', 'voronoi')[k % 5], ('set', 'array', 'full', 'voronoi', 'disc')[k // 5 % 5], cells, tuple((a * j * j + j // 2) % cells for j in range(n)), r))
    items += [('set', dim, 'array', dk, c, ('pattern', n, a), r) for dim in (1, 2) for dk in ('array', 'set') for c in (1, 2, 3) for n, a in ((300, 1), (70001, 2)) for r in (1, 3)]
    ctx.shards(items, run_user)
    ctx.shards([(kind, dim, r) for kind in KINDS for dim in (1, 2, 3, 4, 5) for r in range(1, R + 1)], run_samples)
    ctx.shards(range(1), run_bad)
