"""Marginals collect exactly the probability of each bin."""
import itertools

import numpy as np

from mc.build import snap, diff
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('every placement of up to n samples over the bins, the outer faces and the outside of 1-3 dimensional (and a family of placements over 4-5 dimensional) bin grids, with distinct dyadic probabilities, every source object (set, Voronoi set, discretization with and '
        'without emulated points, already distributed data) and process count, vs direct counting; every small marginal and smoothing width vs a direct convolution')
BOUNDS = {'quick': {'samples': '1..3 (selected: 40)', 'dims': '1..3, 4..7 (families)', 'bins': '1..4 (selected: 50)', 'ranks': '1..4 (selected: 8)', 'smoothing': 'bins 1..5, 4 widths'},
          'thorough': {'samples': '1..4', 'dims': '1..3, 4..5 (families)', 'bins': '1..5', 'ranks': '1..5', 'smoothing': 'bins 1..7, 8 widths'}}

DOM = np.array([[-1.0, 3.0], [10.0, 11.0], [0.0, 0.5], [-4.0, 8.0], [100.0, 101.5], [-2.0 ** -20, 3 * 2.0 ** -20], [-2.0 ** 20, 2.0 ** 21]])


def prs_of(n):
    return np.array([1.0, 2.0, 4.0, 8.0])[:n] / 16 if n <= 4 else (1.0 + (np.arange(n) * 7) % 13) / 1023.7


def coord(d, k, slot):
    """Coordinate of a slot of k bins in dimension d: 0..k-1 bin interiors, k..: low face, high face, below, above."""
    a, b = DOM[d]
    h = (b - a) / k
    if slot < k:
        return a + (slot + 0.375) * h, slot
    e = min(0.25, h)
    return [(a, 0), (b, k - 1), (a - e, None), (b + e, None)][slot - k]


def p_marg(rank, dim, bins, scalar, place, src):
    import bet.sample as samp
    import bet.postProcess.plotP as pp
    n = len(place)
    PR = prs_of(n)
    vals = np.zeros((n, dim))
    cell = []
    for i, pl in enumerate(place):
        c = []
        for d in range(dim):
            vals[i, d], b = coord(d, bins[d], pl[d])
            c.append(b)
        cell.append(c)
    s = samp.voronoi_sample_set(dim) if src == 'voronoi' else samp.sample_set(dim)
    s.set_domain(DOM[:dim].copy())
    s.set_values(vals.copy())
    if src == 'own':        # each process only knows its own probabilities
        from bet.Comm import comm
        s.set_probabilities_local(np.array_split(PR, comm.size)[comm.rank].copy())
    if src == 'late':       # distributed before the probabilities are known
        s.global_to_local()
    if src != 'own':
        s.set_probabilities(PR.copy())
    if src == 'local':
        s.global_to_local()
    obj = s
    if src.startswith('disc') or src == 'emulated':
        o = samp.sample_set(1)
        if src == 'emulated':
            other = samp.sample_set(dim)
            other.set_domain(DOM[:dim] + 1.0)
            other.set_values(np.full((2, dim), 0.3))
            other.set_probabilities(np.array([0.7, 0.3]))
            o.set_values(np.zeros((2, 1)))
            obj = samp.discretization(other, o, emulated_input_sample_set=s)
        else:
            o.set_values(np.zeros((n, 1)))
            obj = samp.discretization(s, o)
    nb = bins[0] if scalar else (list(bins) if src == 'voronoi' else np.array(bins))
    steps = 0
    got, marg = pp.calculate_1D_marginal_probs(obj, nb) if scalar != 'default' else pp.calculate_1D_marginal_probs(obj)
    require(len(got) == dim and sorted(marg) == list(range(dim)), 'keys %s', sorted(marg))
    for d in range(dim):
        require_close(got[d], np.linspace(DOM[d][0], DOM[d][1], bins[d] + 1), 'bin edges of dimension %d' % d, 1e-12)
        want = np.zeros(bins[d])
        for i in range(n):
            if cell[i][d] is not None:
                want[cell[i][d]] += PR[i]
        require_close(np.asarray(marg[d]), want, 'marginal %d' % d, 1e-12)
        steps += 1
    if dim >= 2:
        got, marg = pp.calculate_2D_marginal_probs(obj, nb) if scalar != 'default' else pp.calculate_2D_marginal_probs(obj)
        prs = list(itertools.combinations(range(dim), 2))
        require(len(got) == dim and sorted(marg) == prs, 'keys %s', sorted(marg))
        for d in range(dim):
            require_close(got[d], np.linspace(DOM[d][0], DOM[d][1], bins[d] + 1), 'bin edges of dimension %d' % d, 1e-12)
        for a, b in prs:
            want = np.zeros((bins[a], bins[b]))
            for i in range(n):
                if cell[i][a] is not None and cell[i][b] is not None:
                    want[cell[i][a], cell[i][b]] += PR[i]
            require_close(np.asarray(marg[(a, b)]), want, 'marginal %s' % ((a, b),), 1e-12)
            steps += 1
    else:
        expect_error(lambda: pp.calculate_2D_marginal_probs(obj, nb), '2D marginal of a 1D set', (pp.dim_not_matching,))
    require_close(s.get_values(), vals, 'values of the set', 0)
    if src != 'own':
        require_close(s.get_probabilities(), PR, 'probabilities of the set', 0)
    return steps


def run_marg(ctx, item):
    dim, bins, scalar, place, src, size = item

    def go():
        for k in run_ranks(size, p_marg, (dim, bins, scalar, place, src)).values():
            ctx.step(k)
    ctx.case('marginals', dict(bins=bins, scalar=scalar, place=place, src=src, ranks=size), go)


def smooth1(m, dx, s):
    n = len(m)
    d = (np.arange(n)[:, None] - np.arange(n)[None, :]) * dx
    return np.exp(-(d / s) ** 2) @ m


def run_smooth(ctx, item):
    n, dx, s, form, m = item

    def go():
        import bet.postProcess.plotP as pp
        mm = np.array(m, float)
        bins = [np.linspace(0, 1, 4), np.linspace(2.0, 2.0 + n * dx, n + 1)]
        sig = {'scalar': s, 'array': np.array([7.0, s]), 'list': [7.0, s]}[form]
        marg = {1: mm.copy()}
        out = pp.smooth_marginals_1D(marg, bins, sigma=sig)
        require(list(out) == [1], 'keys %s', list(out))
        want = smooth1(mm, dx, s)
        require_close(np.asarray(out[1]), want / want.sum(), 'smoothed marginal', 1e-9)
        require_close(marg[1], mm, 'the marginals passed in', 0)
        ctx.step()
    ctx.case('smooth1', dict(n=n, dx=dx, sigma=s, form=form, m=m), go)


def run_smooth2(ctx, item):
    n, k, s, t, form, m = item

    def go():
        import bet.postProcess.plotP as pp
        mm = np.array(m, float).reshape(n, k)
        dx, dy = 0.5, 0.125
        bins = [np.linspace(1, 1 + n * dx, n + 1), np.linspace(0, 9, 3), np.linspace(2.0, 2.0 + k * dy, k + 1)]
        sig = s if form == 'scalar' else np.array([s, 100.0, t])
        t_ = s if form == 'scalar' else t
        marg = {(0, 2): mm.copy()}
        out = pp.smooth_marginals_2D(marg, bins, sigma=sig)
        require(list(out) == [(0, 2)], 'keys %s', list(out))
        want = smooth1(smooth1(mm, dx, s).T, dy, t_).T
        require_close(np.asarray(out[(0, 2)]), want / want.sum(), 'smoothed marginal', 1e-9)
        require_close(marg[(0, 2)], mm, 'the marginals passed in', 0)
        ctx.step()
    ctx.case('smooth2', dict(n=n, k=k, s=s, t=t, form=form, m=m), go)


def run_bad(ctx, item):
    def go():
        import bet.sample as samp
        import bet.postProcess.plotP as pp
        s = samp.sample_set(2)
        s.set_domain(DOM[:2])
        s.set_values(np.zeros((2, 2)))
        for f in (pp.calculate_1D_marginal_probs, pp.calculate_2D_marginal_probs):
            expect_error(lambda: f(s), 'set without probabilities', (pp.missing_attribute,))
            for b in (None, 3, np.zeros((2, 2))):
                expect_error(lambda: f(b), 'no sample object', (pp.bad_object,))
                ctx.step()
    ctx.case('bad', item, go)


def run(ctx):
    T = ctx.thorough
    items = []
    SRC = ('set', 'voronoi', 'disc', 'emulated', 'local', 'late', 'own')
    k = 0

    def add(dim, bins, scalar, place):
        nonlocal k
        k += 1
        n = len(place)
        for src in SRC if n == 1 else (SRC[k % 7],):
            size = 1 + (k // 6) % (5 if T else 4) if n > 1 else 1 + (k + SRC.index(src)) % 3
            items.append((dim, bins, scalar, place, src, size))
    for b in range(1, 6 if T else 5):
        for n in (1, 2, 3, 4) if T else (1, 2, 3):
            if n == 4 and b > 4:
                continue
            for pl in itertools.product(range(b + 4), repeat=n):
                add(1, (b,), len(items) % 2 == 0, tuple((x,) for x in pl))
    for bins, scalar in (((2, 2), True), ((1, 3), False), ((3, 2), False), ((1, 1), True)) + ((((4, 3), False),) if T else ()):
        cells = list(itertools.product(range(bins[0] + 4), range(bins[1] + 4)))
        for n in (1, 2):
            for pl in itertools.product(cells, repeat=n):
                add(2, bins, scalar, pl)
    for bins, scalar in (((2, 2, 2), True), ((1, 3, 2), False)):
        cells = list(itertools.product(*[range(b + 4) for b in bins]))
        for pl in cells:
            add(3, bins, scalar, (pl,))
        for a, c in enumerate(cells):
            for e in cells[a % 11::11 if not T else 3]:
                add(3, bins, scalar, (c, e))
    for bins, scalar in (((2, 2, 2, 2), True), ((2, 3, 1, 4), False), ((1, 2, 3, 2, 2), False)):
        d = len(bins)
        cells = [tuple((a * m + b) % (bins[i] + (4 if a % 3 == 0 else 0)) for i, m in enumerate((1, 2, 3, 5, 7)[:d])) for a in range(7) for b in range(6)]
        for a, c in enumerate(cells):
            add(d, bins, scalar, (c,))
            for e in cells[::1 if T else 3]:
                add(d, bins, scalar, (c, e))
                add(d, bins, scalar, (e, cells[(a * 5) % len(cells)], c))
    for bins, scalar in (((20,), 'default'), ((20, 20), 'default'), ((20, 20, 20), 'default'), ((13, 7), False), ((50,), True), ((130,), True), ((90, 75), False), ((3, 2, 4, 5, 2, 3), False), ((2, 6, 3, 1, 5, 4, 7), False), ((4,) * 7, True)):
        d = len(bins)
        for n in (5, 17, 40, 1200) + ((100,) if T else ()):
            for a in range(5 if T else 3) if n < 1000 else (1,):
                pl = tuple(tuple((i * (j + 2 + a) + i * i + 3 * j) % (bins[j] + (4 if i % 5 == a else 0)) for j in range(d)) for i in range(n))
                for src in SRC:
                    items.append((d, bins, scalar, pl, src, (1, 2, 5, 8)[len(items) % 4]))
    ctx.shards(items, run_marg)
    sm = []
    for n in range(1, 8 if T else 6):
        for dx in (0.25, 1.0) + ((3.0,) if T else ()):
            for s in (0.05, 0.5, 2.0, 10.0) + ((1, 0.125, 4.0, 30.0) if T else ()):
                for form in ('scalar', 'array', 'list'):
                    for m in itertools.product((0, 1, 3), repeat=n):
                        if sum(m) and (n < 5 or sum(m) % 3 == 0):
                            sm.append((n, dx, s, form, m))
    for n, f in ((3, 1e-15), (6, 1e-40), (5, 1e9)):
        for m in itertools.product((0, 1, 3), repeat=n):
            if sum(m) and (n < 6 or sum(m) % 3 == 0):
                sm.append((n, 0.25, 0.3, 'array', tuple(f * x for x in m)))
    for n in (12, 20, 33, 150):
        for dx, s in ((0.25, 0.5), (2.0 ** -20, 2.0 ** -18), (2.0 ** 20, 2.0 ** 21), (1.0, 40.0), (1.0, 0.05)):
            for a in range(4):
                for form in ('scalar', 'array', 'list'):
                    sm.append((n, dx, s, form, tuple((i * (a + 2) + i * i) % (3 + a) for i in range(n))))
    ctx.shards(sm, run_smooth)
    sm = []
    for n, q in itertools.product(range(1, 5 if T else 4), repeat=2):
        for s, t in ((0.05, 0.05), (0.5, 0.1), (2.0, 0.5), (1.0, 4.0)):
            for form in ('scalar', 'array'):
                for m in itertools.product((0, 1), repeat=min(n * q, 6)):
                    if sum(m):
                        sm.append((n, q, s, t, form, (list(m) + [0.25] * 16)[:n * q]))
    for n, q in ((2, 33), (33, 2), (12, 20), (24, 7), (40, 40)):
        for s, t in ((0.05, 0.5), (2.0, 0.05), (0.5, 0.125), (0.3, 0.3), (4.0, 0.1), (0.1, 1.0)):
            for a in range(3):
                for form in ('scalar', 'array'):
                    sm.append((n, q, s, t, form, tuple((i * (a + 2) + i * i // 3) % (3 + a) for i in range(n * q))))
    ctx.shards(sm, run_smooth2)
    ctx.shards(range(1), run_bad)
