"""Error estimates: adjacency, boundary layers, sampling error bounds and model error estimates equal their definitions."""
import itertools
import math

import numpy as np

from mc import build as B
from mc.core import require, expect_error
from mc.fakempi import run_ranks

RULE = ('every assignment of samples to output events (original and shifted by the error estimates) over layouts in every sample order x output masses x volumes (stored, emulated, Monte Carlo) x regions of the same or another partition x emulated points '
        '(argument, stored, none) x processes; oracle: adjacency by the empty circumsphere test, layers and quotients from their definitions, nearest cells by brute force')
BOUNDS = {'quick': {'samples': '2..6 (selected: 40)', 'dims': '1..3 (selected: 5)', 'events': '1..3', 'ranks': '1..3 (selected: 8)', 'orders': 'all permutations of 4 samples'}, 'thorough': {'samples': '2..7', 'dims': '1..3', 'events': '1..3', 'ranks': '1..4', 'orders': 'all permutations of 5 samples'}}
ASSUMPTIONS = ['samples in general position (no degenerate Delaunay triangulation)', 'an event cell without neighbours in its event may or may not count as part of the outer layer', 'undefined quotients may be any non-finite value']

LAY = {1: [0.11, 0.32, 0.47, 0.71, 0.93, 0.05, 0.6],
       2: [[0.13, 0.21], [0.82, 0.17], [0.45, 0.52], [0.21, 0.88], [0.91, 0.79], [0.62, 0.34], [0.33, 0.66]],
       3: [[0.13, 0.21, 0.15], [0.82, 0.17, 0.2], [0.45, 0.52, 0.55], [0.21, 0.88, 0.25], [0.51, 0.49, 0.91], [0.71, 0.64, 0.4], [0.3, 0.2, 0.7]]}
EMU = {1: [0.02, 0.12, 0.2, 0.25, 0.35, 0.44, 0.5, 0.55, 0.61, 0.68, 0.76, 0.8, 0.88, 0.97, 0.99],
       2: [[0.1, 0.2], [0.2, 0.15], [0.7, 0.2], [0.9, 0.1], [0.4, 0.5], [0.5, 0.6], [0.48, 0.5], [0.2, 0.8], [0.25, 0.95], [0.9, 0.7], [0.95, 0.85], [0.6, 0.3], [0.66, 0.36], [0.35, 0.7], [0.3, 0.6], [0.05, 0.5]],
       3: [[0.1, 0.2, 0.1], [0.2, 0.15, 0.2], [0.7, 0.2, 0.15], [0.9, 0.1, 0.3], [0.4, 0.5, 0.5], [0.5, 0.6, 0.6], [0.2, 0.8, 0.2], [0.25, 0.95, 0.3], [0.5, 0.5, 0.9], [0.6, 0.4, 0.99], [0.7, 0.6, 0.4], [0.75, 0.7, 0.45], [0.3, 0.2, 0.75]]}

_far = np.random.RandomState(20240607).uniform(0.02, 0.98, (60, 5))       # fixed table of points in general position
for _d in (1, 2, 3, 4, 5):
    LAY[_d] = [list(np.atleast_1d(x)) for x in LAY.get(_d, [])] + _far[:33, :_d].tolist()
    EMU[_d] = [list(np.atleast_1d(x)) for x in EMU.get(_d, _far[40:53, 0:_d][:, ::-1] ** 1.5 if _d > 3 else [])]


def pts(tab, dim, k=None):
    return np.array(tab[dim], float).reshape(-1, dim)[:k]


def emu_pts(dim, emu):
    """The stored emulated points: a small table, or that many points."""
    if emu == 1:
        return pts(EMU, dim)
    if emu == 2:        # few points in the middle
        t = np.mod(np.arange(1, 90)[:, None] * np.sqrt(np.array([2.0, 3.0, 5.0, 7.0, 11.0]))[None, :dim], 1.0)
        for _ in range(2):
            t = 0.5 - 0.5 * np.cos(np.pi * t)
        return t
    return np.mod(np.arange(1, emu + 1)[:, None] * np.sqrt(np.array([2.0, 3.0, 5.0, 7.0, 11.0]))[None, :dim], 1.0)


def near(cells, x):
    return np.argmin(np.sum((np.asarray(x)[:, None, :] - np.asarray(cells)[None, :, :]) ** 2, axis=2), axis=1).astype(int)


def adjacent(v):
    """Pairs of adjacent Voronoi cells of points in general position."""
    key = v.tobytes(), v.shape
    if key not in ADJ:
        ADJ[key] = _adjacent(v)
    return ADJ[key]


ADJ = {}


def _adjacent(v):
    n, dim = v.shape
    out = set()
    if dim == 1:
        o = sorted(range(n), key=lambda i: v[i, 0])
        return {frozenset(p) for p in zip(o, o[1:])}
    for sim in itertools.combinations(range(n), dim + 1):
        A = 2 * (v[list(sim[1:])] - v[sim[0]])
        b = np.sum(v[list(sim[1:])] ** 2, axis=1) - np.sum(v[sim[0]] ** 2)
        if abs(np.linalg.det(A)) < 1e-12:
            continue
        c = np.linalg.solve(A, b)
        r = np.sum((v[sim[0]] - c) ** 2)
        far = np.sum((v - c) ** 2, axis=1) > r
        far[list(sim)] = True
        if far.all():
            out |= {frozenset(p) for p in itertools.combinations(sim, 2)}
    return out


def layers(v, ev):
    """neighbour events, inner layers, outer layers (and outer layers with isolated event cells)."""
    n = len(v)
    adj = adjacent(v)
    nb = [sorted({ev[j] for p in adj if i in p for j in p if j != i}) for i in range(n)]
    Bn, Cn, Ci = {}, {}, {}
    for e in set(ev):
        Bn[e] = [i for i in range(n) if nb[i] == [e] and ev[i] == e]
        Cn[e] = [i for i in range(n) if e in nb[i]]
        Ci[e] = [i for i in range(n) if e in nb[i] or ev[i] == e]
    return nb, Bn, Cn, Ci


def fin(a, b, what):
    if not math.isfinite(b):
        require(not math.isfinite(a), '%s: %r although the quotient is undefined', what, a)
    else:
        require(math.isfinite(a) and abs(a - b) <= 1e-9 * max(1.0, abs(b)), '%s: %r, expected %r', what, a, b)


def quot(a, b):
    return a / b if b else float('nan')


def oneof(a, cands, what):
    for c in cands[:-1]:
        try:
            return fin(a, c, what)
        except AssertionError:
            pass
    fin(a, cands[-1], what)


def mk(dim, order, ev, P, vol, sh=None, emu=None, ints=False, cls='voronoi_sample_set'):
    import bet.sample as samp
    v = pts(LAY, dim)[list(order)]
    n, m = len(v), len(P)
    s = getattr(samp, cls)(dim)
    s.set_domain(np.array([[0.0, 1.0]] * dim))
    s.set_values(v.copy())
    o = samp.sample_set(1)
    q = (np.array([[int(e)] for e in ev]) if ints else B.points('voronoi', m, [int(e) for e in ev]))
    o.set_values(q.copy())
    if sh is not None:
        t = (np.array([[int(e)] for e in sh]) - 0.4 if ints else B.points('voronoi', m, [int(e) for e in sh]) - 0.03)
        o.set_error_estimates(t - q)
    ops = samp.voronoi_sample_set(1)
    ops.set_values(np.arange(m, dtype=float)[:, None])
    ops.set_probabilities(np.array(P, float))
    kw = {}
    if emu:
        e = samp.sample_set(dim)
        e.set_values(emu_pts(dim, emu).copy())
        e.set_domain(np.array([[0.0, 1.0]] * dim))
        kw['emulated_input_sample_set'] = e
    d = samp.discretization(s, o, output_probability_set=ops, **kw)
    if vol == 'given':
        s.set_volumes(VOLS[:n] / VOLS[:n].sum())
    return d, v


VOLS = np.array([3.0, 1.0, 4.0, 2.0, 7.0, 5.0, 6.0] + [1.0 + (5 * i) % 9 for i in range(33)])


def volumes(d, v, vol, emu):
    n = len(v)
    if vol == 'given':
        return VOLS[:n] / VOLS[:n].sum()
    if emu:
        w = near(v, emu_pts(v.shape[1], emu))
        return np.bincount(w, minlength=n) / float(len(w))
    return np.ones(n) / n


def p_layers(rank, dim, order, ev, m):
    import bet.calculateP.calculateError as ce
    d, v = mk(dim, order, ev, [1.0 / m] * m, None)
    nb, Bn, Cn, Ci = layers(v, ev)
    nl = ce.cell_connectivity_exact(d)
    for i in range(len(v)):
        require(sorted(int(x) for x in nl[i]) == nb[i], 'cell %d of %s (events %s): neighbouring events %s, expected %s', i, v.tolist(), list(ev), sorted(nl[i]), nb[i])
    b, c = ce.boundary_sets(d, nl)
    for e in range(m):
        require(sorted(b.get(e, [])) == Bn.get(e, []), 'inner cells of event %d: %s, expected %s', e, b.get(e, []), Bn.get(e, []))
        require(sorted(c.get(e, [])) in (Cn.get(e, []), Ci.get(e, [])), 'outer cells of event %d: %s, expected %s', e, c.get(e, []), Cn.get(e, []))
    return 2 * len(v)


def p_sampling(rank, dim, order, ev, P, vol, emu, ptr):
    """Contour events, then regions of the same and of another partition, in one history on one object."""
    import bet.calculateP.calculateError as ce
    import bet.sample as samp
    d, v = mk(dim, order, ev, P, vol, emu=emu)
    n = len(v)
    nb, Bn, Cn, Ci = layers(v, ev)
    ev = np.array(ev)
    if ptr:
        d.set_io_ptr()
        if emu:
            d.set_emulated_ii_ptr(globalize=ptr == 1)
    se = ce.sampling_error(d)
    steps = 1
    V = volumes(d, v, vol, emu)
    c_now = ce.boundary_sets(d, ce.cell_connectivity_exact(d))[1]
    OUT = [Ci] if all(sorted(c_now.get(e, [])) == Ci.get(e, []) for e in range(len(P))) else [Cn]

    def bound(e, C):
        t1 = quot(V[Bn[e]].sum(), V[C[e]].sum()) - 1.0
        t2 = quot(V[[i for i in C[e] if ev[i] == e]].sum(), V[Bn[e]].sum()) - 1.0
        if not (math.isfinite(t1) and math.isfinite(t2)):
            return float('nan'), float('nan')
        return P[e] * max(t1, t2), P[e] * min(t1, t2)

    def contour():
        up, lo = se.calculate_for_contour_events()
        require(len(up) == len(P) and len(lo) == len(P), 'number of bounds')
        for e in range(len(P)):
            if P[e] == 0:
                require(up[e] == 0 and lo[e] == 0, 'bounds of an event without mass: %r', (up[e], lo[e]))
            elif e not in ev or not Bn[e]:
                require(math.isnan(up[e]) and math.isnan(lo[e]), 'bounds of event %d without inner cells: %r', e, (up[e], lo[e]))
            else:
                c = bound(e, OUT[0])
                fin(up[e], c[0], 'upper bound of event %d' % e)
                fin(lo[e], c[1], 'lower bound of event %d' % e)
    contour()
    # regions
    other = samp.voronoi_sample_set(dim)
    ov = np.array([[0.2] * dim, [0.8] * dim, [0.21] + [0.75] * (dim - 1)])[:3 if dim > 1 else 2]
    other.set_values(ov)
    other.set_region(np.array([1, 2, 1])[:len(ov)])
    same = d.get_input_sample_set().copy()
    reg = (np.arange(n) % 2) + 3
    same.set_region(reg)
    extra = samp.sample_set(dim)
    extra.set_values(pts(EMU, dim)[::-1][:7].copy())
    for s, r, sv, sr in ((same, 3, v, reg), (other, 1, ov, other.get_region()), (same, 4, v, reg), (other, 2, ov, other.get_region())):
        for given in (None, 'arg', None):
            x = pts(EMU, dim)[::-1][:7] if given else emu_pts(dim, emu) if emu else v
            cell = near(v, x)
            A = np.array(sr)[near(sv, x)] == r
            got = se.calculate_for_sample_set_region(s, r, emulated_set=extra if given else None)
            steps += 1
            res = []
            for C in OUT:
                u = l = 0.0
                for e in range(len(P)):
                    if P[e] > 0:
                        inA = np.isin(cell, np.where(ev == e)[0])
                        inB = np.isin(cell, Bn.get(e, []))
                        inC = np.isin(cell, C.get(e, []))
                        E = quot((A & inA).sum(), inA.sum())
                        t1 = quot((A & inB).sum(), inC.sum()) - E
                        t2 = quot((A & inC).sum(), inB.sum()) - E
                        if not (math.isfinite(t1) and math.isfinite(t2)):
                            u = l = float('nan')
                        u += P[e] * max(t1, t2)
                        l += P[e] * min(t1, t2)
                res.append((u, l))
            oneof(got[0], [z[0] for z in res], 'upper bound of region %s (%s)' % (r, given))
            oneof(got[1], [z[1] for z in res], 'lower bound of region %s (%s)' % (r, given))
    contour()
    return steps + 1


def p_model(rank, dim, order, ev, sh, P, vol, emu, ints, loc):
    import bet.calculateP.calculateError as ce
    import bet.sample as samp
    d, v = mk(dim, order, ev, P, vol, sh=sh, emu=emu, ints=ints, cls='sample_set' if dim == 1 else 'voronoi_sample_set')
    n = len(v)
    out0 = B.snap_set(d.get_output_sample_set())
    if loc:
        d.set_io_ptr()
        d.get_input_sample_set().global_to_local()
    ev, sh = np.array(ev), np.array(sh)
    me = ce.model_error(d)
    V = volumes(d, v, vol, emu)

    def contour():
        got = me.calculate_for_contour_events()
        require(len(got) == len(P), 'number of estimates')
        for e in range(len(P)):
            a, b = V[ev == e].sum(), V[sh == e].sum()
            w = 0.0 if P[e] == 0 else P[e] * (1.0 - quot(V[(ev == e) & (sh == e)].sum(), b)) if a else float('nan')
            fin(float(got[e]), w, 'model error of event %d (events %s, shifted %s)' % (e, ev.tolist(), sh.tolist()))
    same = samp.voronoi_sample_set(dim)
    same.set_values(v.copy())
    reg = (np.arange(n) % 2) + 3
    same.set_region(reg)
    other = samp.voronoi_sample_set(dim)
    ov = np.array([[0.3] * dim, [0.8] * dim])
    other.set_values(ov)
    other.set_region(np.array([1, 2]))
    extra = samp.sample_set(dim)
    extra.set_values(pts(EMU, dim)[::-1][:7].copy())

    def region(s, r, sv, sr, given, mc=False):
        x = v if mc else pts(EMU, dim)[::-1][:7] if given else emu_pts(dim, emu) if emu else v
        cell = near(v, x)
        A = np.array(sr)[near(sv, x)] == r
        got = me.calculate_for_sample_set_region_mc(s, r) if mc else me.calculate_for_sample_set_region(s, r, emulated_set=extra if given else None)
        w, share = 0.0, np.zeros(n)
        for e in range(len(P)):
            if P[e] > 0:
                i1, i2 = ev[cell] == e, sh[cell] == e
                c = P[e] * (quot((A & i1).sum(), i1.sum()) - quot((A & i2).sum(), i2.sum()))
                c = float('inf') if c != c else c
                w += c
                bad = (ev == e) != (sh == e)
                if bad.any() and x is v:
                    share[bad] += c / bad.sum()
        fin(float(got), w, 'model error of region %s (%s)' % (r, given))
        if mc or (not given and not emu):
            loc_ = d.get_input_sample_set().get_error_id_local()
            require(loc_ is not None, 'no error shares')
            if math.isfinite(w):
                import bet.util as util
                allid = util.get_global_values(np.asarray(loc_, float))
                require(allid.shape == (n,) and np.allclose(allid, share, atol=1e-12), 'error shares %s, expected %s', allid.tolist(), share.tolist())
    contour()
    region(other, 1, ov, [1, 2], None)
    region(same, 3, v, reg, 'arg')
    region(same, 4, v, reg, None, mc=True)
    region(other, 2, ov, [1, 2], 'arg')
    region(same, 3, v, reg, None)
    contour()
    o = d.get_output_sample_set()
    o1 = B.snap_set(o)
    for k in ('values', 'error_estimates'):
        require(o1[k] == out0[k], 'the output %s of the discretization were changed', k)
    return 8


def p_errors(rank):
    import bet.calculateP.calculateError as ce
    import bet.sample as samp
    d, v = mk(2, range(5), [0, 0, 1, 1, 0], [0.5, 0.5], 'given', sh=[0, 1, 1, 0, 0])
    W = (ce.wrong_argument_type,)
    s = d.get_input_sample_set()
    for bad in (s, None, 3, 'x', [1]):
        for f in (ce.cell_connectivity_exact, ce.sampling_error, ce.model_error, lambda b: ce.boundary_sets(b, {})):
            expect_error(lambda: f(bad), 'a %s instead of a discretization' % type(bad).__name__, W)
    r = samp.rectangle_sample_set(1)
    r.setup(maxes=[[1.0], [3.0]], mins=[[0.0], [2.0]])
    o = samp.sample_set(1)
    o.set_values(np.arange(3.0)[:, None])
    ops = samp.voronoi_sample_set(1)
    ops.set_values(np.arange(2.0)[:, None])
    ops.set_probabilities(np.array([0.5, 0.5]))
    dr = samp.discretization(r, o, output_probability_set=ops)
    for f in (ce.cell_connectivity_exact, ce.sampling_error, lambda b: ce.boundary_sets(b, {})):
        expect_error(lambda: f(dr), 'cells that are not Voronoi', W)
    expect_error(lambda: ce.model_error(dr), 'model error without error estimates', W)
    for p in (1.0, np.inf, 3.0):
        d1, _ = mk(2, range(5), [0, 0, 1, 1, 0], [0.5, 0.5], 'given')
        d1.get_input_sample_set().set_p_norm(p)
        for f in (ce.cell_connectivity_exact, ce.sampling_error, lambda b: ce.boundary_sets(b, {})):
            expect_error(lambda: f(d1), 'cells in the %s-norm' % p, W)
    expect_error(lambda: ce.sampling_error(d, exact=False), 'approximate connectivity', (NotImplementedError,))
    se, me = ce.sampling_error(d), ce.model_error(d)
    q = samp.voronoi_sample_set(2)
    q.set_values(v.copy())
    for f in (se.calculate_for_sample_set_region, me.calculate_for_sample_set_region, me.calculate_for_sample_set_region_mc):
        expect_error(lambda: f(q, 1), 'a set without regions', W)
    q.set_region(np.array([1, 2, 1, 2, 2]))
    for f in (se.calculate_for_sample_set_region, me.calculate_for_sample_set_region, me.calculate_for_sample_set_region_mc):
        expect_error(lambda: f(q, 0), 'a region that does not exist', W)
        f(q, 1)
    return 40


FN = {'layers': p_layers, 'sampling': p_sampling, 'model': p_model, 'errors': p_errors}


def run_one(ctx, item):
    part, size, args = item

    def go():
        ctx.step(sum(run_ranks(size, FN[part], args).values()))
    ctx.case(part, [size, list(args)], go)


def masses(m):
    return {1: [[1.0]], 2: [[0.25, 0.75], [1.0, 0.0]], 3: [[0.2, 0.5, 0.3], [0.0, 1e-30, 1.0]]}[m]


def run(ctx):
    T = ctx.thorough
    items = []
    rn = (1, 2, 3, 4) if T else (1, 2, 3)
    k = 0
    # adjacency: every order of the samples, every event assignment
    np_ = 5 if T else 4
    for dim in (1, 2):
        for order in itertools.permutations(range(np_)):
            for m in (2, 3) if dim == 1 else (2,):
                for ev in itertools.product(range(m), repeat=np_):
                    k += 1
                    if T or k % (3 if dim == 1 else 2) == 0 or order == tuple(sorted(order)):
                        items.append(('layers', 1, (dim, order, ev, m)))
    for dim in (1, 2, 3):
        for n in (5, 6, 7):
            for order in (range(n), [3, 0, 4, 1, 2, 5, 6][:n], range(n)[::-1]):
                for ev in itertools.product(range(3 if T and n < 7 else 2), repeat=n):
                    items.append(('layers', 1, (dim, tuple(order), ev, 3)))
    # sampling error bounds
    for dim in (1, 2, 3):
        for n in ((2, 3, 5) if dim == 1 else (5,) if dim == 2 else (6,)) + ((6, 7) if T else ()):
            for m in (1, 2, 3):
                for ev in itertools.product(range(m), repeat=n):
                    if m == 3 and not T and (len(set(ev)) < 3 or sum(ev) % 3) and n > 3:
                        continue
                    if T and n > 5 and m == 3 and sum(ev) % 2:
                        continue
                    for P in masses(m):
                        k += 1
                        order = (tuple(range(n)), tuple([3, 0, 4, 1, 2, 5, 6][:n]) if n >= 5 else tuple(range(n))[::-1])[k % 2]
                        for vol, emu in (('given', 0), (None, 1), (None, 0), ('given', 1)) if T else ((('given', 0), (None, 1), (None, 0), ('given', 1))[k % 4], (None, k // 4 % 2)):
                            k += 1
                            items.append(('sampling', rn[k // 3 % len(rn)], (dim, order, ev, tuple(P), vol, emu, k % 3)))
                        if n >= 5 and m == 2:
                            items.append(('sampling', rn[k // 3 % len(rn)], (dim, tuple(range(n)), ev, tuple(P), None, 2, k % 3)))
    # model error: every pair of assignments
    for dim in (1, 2):
        for n in ((2, 3, 4) if dim == 1 else (3,)) + ((5,) if T and dim == 1 else ()):
            for m in (2, 3):
                if m == 3 and n > 3:
                    continue
                for ev in itertools.product(range(m), repeat=n):
                    for sh in itertools.product(range(m), repeat=n):
                        if m == 3 and not T and (sum(ev) + 2 * sum(sh)) % 3:
                            continue
                        for P in masses(m):
                            k += 1
                            vol, emu = (('given', 0), (None, 1), (None, 0), ('given', 1))[k % 4]
                            order = tuple(range(n)) if k % 3 else tuple(range(n))[::-1]
                            items.append(('model', rn[k // 5 % len(rn)], (dim, order, ev, sh, tuple(P), vol, emu, int(k % 7 == 0), k // 2 % 2)))
    # more samples and dimensions than any exhaustive assignment
    def pat(n, m, a):
        return tuple((a * i + i * i // (a + 1)) % m if i >= m else i for i in range(n))

    def blocks(dim, order, m):       # events as slabs of the input space, so that events have inner cells
        return tuple(int(min(m - 1, np.floor(m * x[0]))) for x in pts(LAY, dim)[list(order)])
    for dim, n in ((1, 40), (1, 17), (2, 12), (2, 25), (2, 40), (3, 12), (3, 16), (4, 9), (4, 11), (5, 8)) + (((3, 24), (4, 14), (5, 10)) if T else ()):
        for a in range(1, 7 if T else 4):
            order = tuple((np.arange(n) * (a if n % a else 1) + a) % n) if np.gcd(a, n) == 1 else tuple(range(n))[::-1]
            for m in (1, 2, 3):
                for ev in (pat(n, m, a), blocks(dim, order, m)):
                    items.append(('layers', 1, (dim, order, ev, m)))
                    for P in masses(m):
                        k += 1
                        vol, emu = (('given', 0), (None, 1), (None, 0), ('given', 1))[k % 4]
                        items.append(('sampling', (1, 2, 5, 8)[k // 3 % 4], (dim, order, ev, tuple(P), vol, emu, k % 3)))
                        for sh in (pat(n, m, a + 1), blocks(dim, order[1:] + order[:1], m), ev):
                            k += 1
                            vol, emu = (('given', 0), (None, 1), (None, 0), ('given', 1))[k % 4]
                            items.append(('model', (1, 2, 5, 8)[k // 5 % 4], (dim, order, ev, sh, tuple(P), vol, emu, int(k % 7 == 0), k // 2 % 2)))
    # many emulated points
    for dim, n, N in ((1, 5, 700), (2, 6, 700), (3, 7, 1500), (1, 4, 70000), (2, 7, 70000)):
        for a in (1, 2):
            for m in (1, 2, 3):
                for P in masses(m):
                    for size in (1, 3):
                        order = tuple(range(n))
                        for ev in (pat(n, m, a), blocks(dim, order, m)):
                            k += 1
                            items.append(('sampling', size, (dim, order, ev, tuple(P), None, N, k % 3)))
                            items.append(('model', size, (dim, order, ev, pat(n, m, a + 1), tuple(P), None, N, int(k % 7 == 0), k // 2 % 2)))
    for size in rn:
        items.append(('errors', size, ()))
    ctx.shards(items, run_one)
