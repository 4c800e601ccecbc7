"""Optimal quantities of interest are really optimal and measured correctly."""
import itertools
import math

import numpy as np

from mc.core import require, require_close, expect_error, same_arr
from mc.fakempi import run_ranks

RULE = ('every integer Jacobian over a small alphabet (one and two centres), every selection of outputs, size of set, number of returned sets, tolerance and process count; oracle: exact integer Gram '
        'determinants; rankings compared by value (ties may be listed in any order), reciprocals compared so that singular sets (infinite value) are decidable in floating point')
BOUNDS = {'quick': {'wide': 'up to 9 outputs x 5 inputs, 20 centres; 8 outputs with 60 and 150 centres; 140 outputs; near ties of relative size 1e-7; nearly dependent gradients to 1e-11', 'outputs x inputs': '2x2, 3x2, 3x3, 1x1..1x3, 2x3', 'alphabet': '{-1,0,1} (3x3: {0,1}; 2x2: {-1,0,1,2})', 'centres': '1..2', 'ranks': '1..3', 'scales': '1, 1e-6, 1e5, 1e-9, 1e-21'},
          'thorough': {'outputs x inputs': 'also 4x2, 4x3', 'alphabet': '{-1,0,1,2} up to 6 entries, {-1,0,1} beyond', 'centres': '1..3', 'ranks': '1..4', 'scales': '1, 1e-6, 1e5, 1e-9, 1e-21'}}


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n) if M[0][j])


def gram(rows):
    return det([[sum(a * b for a, b in zip(r, s)) for s in rows] for r in rows])


def prod_sv(rows):
    return math.sqrt(gram(rows))


def inv_skew(rows):
    """1/skewness; 0 for dependent gradients."""
    g = gram(rows)
    if g == 0:
        return 0.0
    w = 0.0
    for i in range(len(rows)):
        rest = rows[:i] + rows[i + 1:]
        perp = math.sqrt(g / gram(rest))
        w = max(w, math.sqrt(sum(a * a for a in rows[i])) / perp)
    return 1.0 / w


def sel(J, q):
    return [[list(c[i]) for i in q] for c in J]


def inv_value(J, q, measure):
    C = sel(J, q)
    return sum(prod_sv(r) if measure else inv_skew(r) for r in C) / len(C)


def recip(x):
    x = float(x)
    require(x == x and x > 0, 'value %r', x)
    return 0.0 if x == float('inf') else 1.0 / x


def mkset(J, scale=1.0):
    import bet.sample as samp
    A = np.array(J, float) * scale
    s = samp.sample_set(A.shape[2])
    s.set_values(np.arange(A.shape[0] * A.shape[2], dtype=float).reshape(A.shape[0], A.shape[2]))
    s.set_jacobians(A)
    return s


# ---- values -----------------------------------------------------------------------------------

def run_value(ctx, item):
    J, q, bm, sc = item

    def go():
        import bet.sensitivity.chooseQoIs as cq
        s = mkset(J, sc)
        A = np.array(s.get_jacobians())
        m, d = A.shape[1:]
        qq = list(range(m)) if q is None else list(q)
        qarg = None if q is None else (np.array(q) if len(q) % 2 else list(q))
        fs = dict(measure=lambda: cq.calculate_avg_measure(s, qarg, *([] if bm is None else [bm])), skew=lambda: cq.calculate_avg_skewness(s, qarg), cond=lambda: cq.calculate_avg_condnum(s, qarg))
        if len(qq) > d:
            for k, f in fs.items():
                expect_error(f, '%s of %d outputs of %d inputs' % (k, len(qq), d), (ValueError,))
            return
        C = sel(J, qq)
        n = len(C)
        meas, sv = fs['measure']()
        require(abs(recip(meas) * (1.0 if bm is None else bm) / sc ** len(qq) - sum(prod_sv(r) for r in C) / n) < 1e-6, 'measure %r, expected inverse %r', meas, sum(prod_sv(r) for r in C) / n)
        ref = np.linalg.svd(np.array(C, float), compute_uv=False)
        require_close(np.array(sv) / sc, ref, 'singular values', 1e-7)
        sk, gi = fs['skew']()
        want = sum(inv_skew(r) for r in C) / n
        require(abs(recip(sk) - want) < 1e-6, 'skewness %r, expected inverse %r', sk, want)
        gi = np.array(gi)
        require(gi.shape == (n, len(qq)), 'shape of the skewness per output %s', gi.shape)
        for c in range(n):
            g = gram(C[c])
            for i in range(len(qq)):
                rest = C[c][:i] + C[c][i + 1:]
                if g > 0:
                    w = math.sqrt(sum(a * a for a in C[c][i]) * gram(rest) / g)
                    require(abs(gi[c, i] - w) < 1e-6 * (1 + w), 'skewness of output %d at centre %d is %r, expected %r', i, c, gi[c, i], w)
        cn, sv = fs['cond']()
        ics = []
        for r, v in zip(C, ref):
            ics.append(0.0 if gram(r) == 0 else v[-1] / v[0])
        require(abs(recip(cn) - sum(ics) / n) < 1e-6, 'condition number %r, expected inverse %r', cn, sum(ics) / n)
        require_close(np.array(sv) / sc, ref, 'singular values with the condition number', 1e-7)
        require(np.array_equal(s.get_jacobians(), A), 'the Jacobians were changed')
        ctx.step(3)
    ctx.case('value', dict(J=J, outputs=q, bin=bm, scale=sc), go)


# ---- unique vectors ---------------------------------------------------------------------------

def screen(J, qoi, remove):
    n, m = len(J), len(J[0])
    idx = sorted(set(range(m) if qoi is None else qoi))
    if remove:
        idx = [i for i in idx if all(any(c[i]) for c in J)]
    unit = [[[a / (math.sqrt(sum(b * b for b in c[i])) or 1.0) for a in c[i]] for i in range(m)] for c in J]
    return idx, lambda i, j: abs(sum(sum(a * b for a, b in zip(u[i], u[j])) for u in unit) / n)


def uniq(J, tol, qoi, remove):
    idx, ip = screen(J, qoi, remove)
    rep = set()
    amb = False
    for a, i in enumerate(idx):
        for j in idx[a + 1:]:
            if i not in rep and j not in rep:
                v = ip(i, j)
                if abs(v - tol) < 1e-9:
                    amb = True
                if v > tol:
                    rep.add(j)
    return [i for i in idx if i not in rep], amb


def p_uniq(rank, J, tol, qoi, remove, sc):
    import bet.sensitivity.chooseQoIs as cq
    return np.array(cq.find_unique_vecs(mkset(J, sc), tol, qoi, remove)).reshape(-1).tolist()


def run_uniq(ctx, item):
    J, tol, qoi, remove, size = item[:5]
    sc = item[5] if len(item) > 5 else 1.0
    want, amb = uniq(J, tol, qoi, remove)
    if amb:
        return

    def go():
        for r in run_ranks(size, p_uniq, (J, tol, qoi, remove, sc)).values():
            kept = sorted(int(x) for x in r)
            if kept == want:
                continue
            # another choice of the member to drop of a pair is as good when the outputs are listed in another order
            require(qoi is not None and list(qoi) != sorted(qoi), 'kept %s, expected %s', r, want)
            idx, ip = screen(J, qoi, remove)
            require(set(kept) <= set(idx) and len(set(kept)) == len(kept), 'kept %s of the admissible %s', r, idx)
            require(all(ip(i, j) <= tol for i in kept for j in kept if i < j), 'kept %s although two of them are nearly parallel', r)
            require(all(any(ip(i, j) > tol for j in kept) for i in idx if i not in kept), 'kept only %s of %s', r, idx)
        ctx.step(size)
    ctx.case('unique', dict(J=J, tol=tol, outputs=qoi, remove=remove, ranks=size, scale=sc), go)


# ---- optimal sets -----------------------------------------------------------------------------

def p_opt(rank, J, kw, verbose, sc):
    import bet.sensitivity.chooseQoIs as cq
    s = mkset(J, sc)
    before = np.array(s.get_jacobians())
    if verbose:
        m, t = cq.chooseOptQoIs_verbose(s, **kw)
        r = (np.array(m), np.array(t))
    else:
        r = (np.array(cq.chooseOptQoIs(s, **kw)), None)
    require(np.array_equal(before, s.get_jacobians()), 'the Jacobians were changed')
    return r


def check_rank(rows, J, k, num, cand, measure, tensor, what, sc=1.0):
    """rows: reported [value, indices...]; cand: all admissible sets."""
    require(rows.shape == (num, k + 1), '%s: table of shape %s, expected %s', what, rows.shape, (num, k + 1))
    vals = sorted((inv_value(J, q, measure) for q in cand), reverse=True)
    fin = [v for v in vals if v > 1e-5]
    unit = sc ** k if measure else 1.0
    seen = set()
    last = float('inf')
    for r in range(num):
        iv = recip(rows[r, 0]) / unit
        require(iv <= last + 1e-6, '%s: values not in order: %s', what, rows[:, 0].tolist())
        last = iv
        want = fin[r] if r < len(fin) else 0.0
        require(abs(iv - want) < 1e-6, '%s: place %d has value %r, expected %r', what, r + 1, rows[r, 0], (1 / want if want else float('inf')))
        if want:
            q = tuple(int(x) for x in rows[r, 1:])
            require(list(q) == [x for x in rows[r, 1:]] and tuple(sorted(q)) in cand and tuple(sorted(q)) not in seen, '%s: place %d lists %s', what, r + 1, rows[r, 1:].tolist())
            seen.add(tuple(sorted(q)))
            require(abs(inv_value(J, q, measure) - iv) < 1e-6, '%s: value %r does not belong to outputs %s', what, rows[r, 0], q)
            if tensor is not None:
                C = np.array(sel(J, q), float)
                if measure:
                    require_close(tensor[:, :, r] / sc, np.linalg.svd(C, compute_uv=False), '%s: singular values of place %d' % (what, r + 1), 1e-7)
                else:
                    for c in range(C.shape[0]):
                        g = gram(sel(J, q)[c])
                        for i in range(k):
                            if g > 0:
                                rr = sel(J, q)[c]
                                w = math.sqrt(sum(a * a for a in rr[i]) * gram(rr[:i] + rr[i + 1:]) / g)
                                require(abs(tensor[c, i, r] - w) < 1e-6 * (1 + w), '%s: skewness of place %d is %s, expected %r', what, r + 1, tensor[c, :, r].tolist(), w)


def run_opt(ctx, item):
    J, k, num, measure, tol, qoi, remove, verbose, size, sc = item
    keep, amb = uniq(J, tol, qoi, remove)
    if amb:
        return
    d = len(J[0][0])
    kw = dict(inner_prod_tol=tol, measure=measure, remove_zeros=remove)
    if k is not None:
        kw['num_qois_return'] = k
    if num is not None:
        kw['num_optsets_return'] = num
    if qoi is not None:
        kw['qoiIndices'] = np.array(qoi)

    def go():
        kk, nn = k or d, num or 10
        cand = set(itertools.combinations(keep, kk))
        for r, (rows, t) in enumerate(run_ranks(size, p_opt, (J, kw, verbose, sc)).values()):
            check_rank(rows, J, kk, nn, cand, measure, t, 'rank %d' % r, sc)
        ctx.step(size * max(1, len(cand)))
    ctx.case('optimal', dict(J=J, k=k, num=num, measure=measure, tol=tol, outputs=qoi, remove=remove, verbose=verbose, ranks=size, scale=sc), go)


def p_large(rank, J, kw, verbose):
    import bet.sensitivity.chooseQoIs as cq
    s = mkset(J)
    if verbose:
        b, t = cq.chooseOptQoIs_large_verbose(s, **kw)
        return [np.array(x) for x in b], [np.array(x) for x in t]
    return [np.array(x) for x in cq.chooseOptQoIs_large(s, **kw)], None


def run_large(ctx, item):
    J, kmax, num, measure, tol, mtol, verbose, size, qoi, remove = item
    keep, amb = uniq(J, 1.0 if tol is None else tol, qoi, remove)
    if amb:
        return
    d = len(J[0][0])
    # chain of good sets
    good = {1: [(i,) for i in keep]}
    for k in range(2, (kmax or d) + 1):
        good[k] = []
        for g in good[k - 1]:
            for i in keep:
                if i > g[-1]:
                    v = inv_value(J, g + (i,), measure)
                    if mtol is not None and abs(v - 1.0 / mtol) < 1e-6:
                        return
                    if (mtol is None and v > 1e-9) or (mtol is not None and v > 1.0 / mtol):
                        good[k].append(g + (i,))
    kw = dict(measure=measure)
    if not remove:
        kw['remove_zeros'] = False
    if qoi is not None:
        kw['qoiIndices'] = np.array(qoi)
    if kmax is not None:
        kw['max_qois_return'] = kmax
    if num is not None:
        kw['num_optsets_return'] = num
    if tol is not None:
        kw['inner_prod_tol'] = tol
    if mtol is not None:
        kw['measskew_tol'] = mtol

    def go():
        for r, (b, t) in enumerate(run_ranks(size, p_large, (J, kw, verbose)).values()):
            require(len(b) == (kmax or d) - 1, '%d tables, expected %d', len(b), (kmax or d) - 1)
            for k in range(2, (kmax or d) + 1):
                check_rank(b[k - 2], J, k, num or 10, set(good[k]), measure, None if t is None else t[k - 2], 'rank %d, sets of %d' % (r, k))
        ctx.step(size)
    ctx.case('large', dict(J=J, kmax=kmax, num=num, measure=measure, tol=tol, mtol=mtol, verbose=verbose, ranks=size, outputs=qoi, remove=remove), go)


def p_good(rank, J, prev, unique, num, mtol, measure):
    import bet.sensitivity.chooseQoIs as cq
    g, b, t = cq.find_good_sets(mkset(J), np.array(prev), np.array(unique), num, mtol, measure)
    return np.array(g), np.array(b), np.array(t)


def run_good(ctx, item):
    J, prev, unique, num, mtol, measure, size = item
    want = {}
    for g in prev:
        for i in unique:
            if i > max(g):
                v = inv_value(J, tuple(g) + (i,), measure)
                if abs(v - 1.0 / mtol) < 1e-6:
                    return
                want[tuple(g) + (i,)] = v

    def go():
        k = len(prev[0]) + 1
        ok = {q for q, v in want.items() if v > 1.0 / mtol}
        for r, (g, b, t) in enumerate(run_ranks(size, p_good, (J, prev, unique, num, mtol, measure)).values()):
            require(g.shape == (len(ok), k), 'rank %d: good sets %s, expected %s', r, g.tolist(), sorted(ok))
            require({tuple(int(x) for x in q) for q in g.tolist()} == ok, 'rank %d: good sets %s, expected %s', r, g.tolist(), sorted(ok))
            check_rank(b, J, k, num, {tuple(sorted(q)) for q in ok}, measure, t, 'rank %d' % r)
        ctx.step(size)
    ctx.case('good', dict(J=J, prev=prev, unique=unique, num=num, mtol=mtol, measure=measure, ranks=size), go)


def run_near(ctx, item):
    """Values that differ relatively by 1e-7: the best are still returned, in order."""
    order, measure, num, size, large = item

    def go():
        import bet.sensitivity.chooseQoIs as cq
        n = len(order)
        rows = [(0.0, 1.0 + k * 1e-7) if measure else (0.5 + k * 1e-7, 1.0) for k in range(n)]
        J = [[[1.0, 0.0]] + [list(rows[k]) for k in order]]
        val = {i + 1: 1.0 / rows[k][1] if measure else math.sqrt(1 + rows[k][0] ** 2) for i, k in enumerate(order)}
        best = sorted(val, key=lambda i: val[i])

        kw = dict(inner_prod_tol=2.0, measure=measure, num_optsets_return=num)
        if large:
            res = run_ranks(size, p_large, (J, kw, False))
            tables = [b[0] for b, _ in res.values()]
        else:
            tables = [rows_ for rows_, _ in run_ranks(size, p_opt, (J, dict(kw, num_qois_return=2), True, 1.0)).values()]
        for t in tables:
            require(t.shape == (num, 3), 'table of shape %s', t.shape)
            for r in range(min(num, n)):
                require(sorted(t[r, 1:].tolist()) == [0.0, float(best[r])], 'place %d is %s, expected outputs 0 and %d', r + 1, t[r].tolist(), best[r])
                require(abs(t[r, 0] / val[best[r]] - 1) < 1e-11, 'place %d has value %r, expected %r', r + 1, t[r, 0], val[best[r]])
        ctx.step(size)
    ctx.case('near', dict(order=order, measure=measure, num=num, ranks=size, large=large), go)


def run_steep(ctx, item):
    """Nearly dependent gradients: large but finite."""
    eps, d, sc, n = item

    def go():
        import bet.sensitivity.chooseQoIs as cq
        M = np.zeros((2, d))
        M[0, 0], M[1, 0], M[1, d - 1] = 1.0, 1.0, eps
        s = mkset([M.tolist()] * n, sc)
        b = math.sqrt(1 + eps * eps)
        for nm, got, want in (('measure', cq.calculate_avg_measure(s)[0] * sc ** 2, 1 / eps), ('skewness', cq.calculate_avg_skewness(s)[0], b / eps),
                              ('condition number', cq.calculate_avg_condnum(s)[0], (2 + eps * eps) / eps)):
            require(abs(float(got) / want - 1) < 1e-3, '%s %r, expected %r', nm, got, want)
        ctx.step(3)
    ctx.case('steep', dict(eps=eps, dim=d, scale=sc, centres=n), go)


def run_default(ctx, item):
    """Without tolerances every set of independent gradients is admitted, however parallel or steep."""
    kind, measure, size, verbose = item

    def go():
        rows = dict(parallel=[[1.0, 0.0], [1.0, 0.01], [1.0, 0.03]], units=[[1e-6, 0.0], [2e-6, 1e-6], [0.0, 3e-6]], mixed=[[1e-9, 0.0], [0.0, 1.0], [5e-10, 1.0]])[kind]
        cand = list(itertools.combinations(range(3), 2))
        val = {}
        for q in cand:
            a, b = (rows[i] for i in q)
            d = abs(a[0] * b[1] - a[1] * b[0])
            val[q] = 1.0 / d if measure else math.hypot(*a) * math.hypot(*b) / d
        best = sorted(cand, key=lambda q: val[q])
        for b, _ in run_ranks(size, p_large, ([rows], dict(measure=measure, num_optsets_return=3), verbose)).values():
            require(len(b) == 1 and b[0].shape == (3, 3), 'tables %s', [x.shape for x in b])
            for r, q in enumerate(best):
                require(sorted(b[0][r, 1:].tolist()) == list(q) or abs(val[q] / val[best[r - 1]] - 1) < 1e-9 or abs(val[q] / val[best[(r + 1) % 3]] - 1) < 1e-9, 'place %d is %s, expected outputs %s', r + 1, b[0][r].tolist(), q)
                require(abs(b[0][r, 0] / val[q] - 1) < 1e-6, 'place %d has value %r, expected %r', r + 1, b[0][r, 0], val[q])
        ctx.step(size)
    ctx.case('default', dict(kind=kind, measure=measure, ranks=size, verbose=verbose), go)


def run_missing(ctx, item):
    def go():
        import bet.sample as samp
        import bet.sensitivity.chooseQoIs as cq
        s = samp.sample_set(2)
        s.set_values(np.zeros((2, 2)))
        f = dict(measure=lambda: cq.calculate_avg_measure(s), skew=lambda: cq.calculate_avg_skewness(s), cond=lambda: cq.calculate_avg_condnum(s), opt=lambda: cq.chooseOptQoIs(s),
                 verbose=lambda: cq.chooseOptQoIs_verbose(s), uniq=lambda: cq.find_unique_vecs(s, 1.0), large=lambda: cq.chooseOptQoIs_large(s),
                 good=lambda: cq.find_good_sets(s, np.array([[0]]), np.array([0, 1]), 2, 9.0, False))[item]
        expect_error(f, 'no Jacobians', (ValueError,))
        ctx.step()
    ctx.case('missing', item, go)


def big(n, m, d, a):
    """larger patterned integer Jacobians (with a zero, a repeated and a dependent gradient for some patterns)"""
    J = [[[(i * 7 + j * 5 + c * 3 + a * (i + 1) * (j + 2) + i * j * (c + 1)) % 5 - 2 for j in range(d)] for i in range(m)] for c in range(n)]
    for c in range(n):
        if a % 3 == 1:
            J[c][m - 1] = [0] * d
        if a % 3 == 2:
            J[c][m - 1] = [2 * x for x in J[c][0]]
            J[c][1] = [x - y for x, y in zip(J[c][0], J[c][2])]
    return J


SCALES = (1.0, 1e-6, 1e5, 1e-9, 2.0 ** -70)     # units of the outputs


def mats(m, d, alpha):
    for e in itertools.product(alpha, repeat=m * d):
        yield [list(e[i * d:(i + 1) * d]) for i in range(m)]


MIX = {2: [[3, 1], [1, 2], [-1, 1], [2, -1]], 1: [[2], [-1], [3], [1]], 3: [[1, 2, 0], [0, 1, -1], [2, 0, 1], [1, -1, 1]]}


def run(ctx):
    T = ctx.thorough
    A3, A4, A2 = (-1, 0, 1), (-1, 0, 1, 2), (0, 1)
    items = []
    for m, d, al in [(1, 1, A4), (1, 2, A4), (1, 3, A4), (2, 2, A4), (2, 3, A3), (2, 1, A4), (3, 2, A3), (3, 3, A4 if False else (A3 if T else A2))]:
        for k, M in enumerate(mats(m, d, al)):
            second = MIX[d][:m]
            for J in ([M], [M, second], [M, M[::-1], second]) if (T or m * d <= 4) else ([M], [second, M]):
                if m <= d:
                    items.append((J, None, 0.5 if k % 3 == 0 else None))
                if m >= 2:
                    items.append((J, (m - 1, 0), None))
                    if k % 5 == 0:
                        items.append((J, (1,), 2.0))
                if m > d and k % 7 == 0:
                    items.append((J, None, None))
    for v in itertools.product((1, 2, 3, 5), repeat=3):      # dependent gradients of every rank
        for a in itertools.product((1, 2, -3), repeat=3):
            M = [[x * y for y in v] for x in a]
            items.append(([M], None, None))
            if T or a[0] == 1:
                items.append(([M, MIX[3][:3]], None, None))
    for n, m, d in ((1, 5, 4), (7, 6, 4), (3, 8, 5), (20, 5, 5), (60, 4, 3), (150, 3, 2)):
        for a in range(12):
            items.append((big(n, m, d, a), (a % m,) * 2, None))
            items.append((big(n, m, d, a), (1, a % m, 1), None))
            for q in [None] * (m <= d) + [tuple(range(d)), tuple(range(m))[::-1][:3], (m - 1, 0), tuple((i * 3 + a) % m for i in range(min(d, 2))), (a % m,)]:
                if q is None or len(set(q)) == len(q):
                    items.append((big(n, m, d, a), q, None))
    ctx.shards([i + (1.0,) for i in items] + [i + (sc,) for sc in SCALES[1:] for i in items[::1 if T else 5]], run_value)
    items = []
    for m, d, al in [(2, 2, A4), (3, 2, A3), (3, 1, A3)] + ([(4, 2, A3), (3, 3, A3)] if T else [(4, 2, (0, 1))]):
        for k, M in enumerate(mats(m, d, al)):
            for J in ([M], [M, MIX[d][:m]]):
                for tol in (0.95, 0.6, 0.2):
                    if not T and (k + int(tol * 10)) % 2 and m > 2:
                        continue
                    items.append((J, tol, None if k % 3 else tuple(range(m))[::-1][:m - 1], bool(k % 4), 1 + k % 2))
    for n, m, d in ((1, 7, 4), (7, 8, 4), (20, 9, 5)):
        for a in range(12):
            for tol in (0.95, 0.6, 0.2):
                for size in (1, 3):
                    items.append((big(n, m, d, a), tol, None if a % 2 else tuple(range(m))[::-2], bool(a % 4), size))
    ctx.shards(items + [i + (SCALES[1 + k % 4],) for k, i in enumerate(items[::4])], run_uniq)
    items = []
    for m, d, al in [(3, 2, A3), (2, 2, A4)] + ([(4, 2, A3), (4, 3, A2)] if T else [(4, 2, (1, 2)), (4, 3, (0, 1))]):
        for k, M in enumerate(mats(m, d, al)):
            if m * d == 12 and k % (1 if T else 13):
                continue
            for J in ([M], [M, MIX[d][:m]]):
                for kk in ((None, 1, 2) if T or k % 3 == 0 else (2,)):
                    num = (1, 2, 3, 5, None)[k % 5]
                    items.append((J, kk, num, bool(k % 2), 0.97 if k % 4 else 3.0, None if k % 6 else tuple(range(1, m)), k % 5 != 0, k % 3 != 2, 1 + (k // 2) % (4 if T else 3), SCALES[k % 5]))
    for n, m, d in ((1, 7, 4), (7, 8, 4), (5, 9, 5)):
        for a in range(12):
            for kk in (2, 3, None):
                for size in (1, 2, 3, 4):
                    items.append((big(n, m, d, a), kk, (5, 20, None)[a % 3], bool(a % 2), 0.97 if a % 4 else 3.0, None if a % 5 else tuple(range(1, m)), a % 6 != 0, size != 2, size, SCALES[(a + size) % 5]))
    ctx.shards(items, run_opt)
    items = []
    for m, d, al in [(3, 2, A3), (3, 3, A2), (4, 2, (1, 2))] + ([(4, 2, A3), (4, 3, A2)] if T else [(4, 3, (0, 1))]):
        for k, M in enumerate(mats(m, d, al)):
            if m * d == 12 and k % (1 if T else 13):
                continue
            for J in ([M], [M, MIX[d][:m]]):
                items.append((J, None if k % 2 else 2, (1, 2, 3, None)[k % 4], bool(k % 3), 0.97, (None, 2.3, 1.3)[k % 3], k % 5 != 0, 1 + (k // 3) % (4 if T else 3), None if k % 7 else tuple(range(1, m)), k % 4 != 1))
    for n, m, d in ((1, 7, 4), (7, 8, 4), (3, 9, 5)):
        for a in range(12):
            for size in (1, 2, 3):
                items.append((big(n, m, d, a), (None, 3)[a % 2], (3, 20, None)[a % 3], bool(a % 4 > 1), 0.97, (None, 7.3, 2.3)[(a + size) % 3], size != 2, size, None if (a + size) % 4 else tuple(range(1, m, 1 + a % 2)), a % 5 != 1))
    ctx.shards(items, run_large)
    items = []
    for k, M in enumerate(mats(4, 3, (-1, 0, 1, 2) if False else (0, 1))):
        if k % (2 if T else 11):
            continue
        for J in ([M, MIX[3]],):
            for prev in ([[0], [1], [2], [3]], [[0, 1], [1, 2], [0, 2]], [[1, 0], [0, 3]], [[2, 3]]):
                for mtol in (1.9, 4.1):
                    items.append((J, prev, (0, 1, 2, 3), 1 + k % 3, mtol, bool(k % 2), 1 + (k // 11) % 3))
    J140 = [[[(i * 7 + j * 5 + i * j) % 11 - 5 for j in range(3)] for i in range(140)]]
    for prev in ([[125], [131], [137]], [[126, 127], [128, 130]], [[3, 129], [134, 136], [130, 138]]):
        for mtol in (0.031, 4.1):
            for size in (1, 3):
                items.append((J140, prev, tuple(range(140)), 5, mtol, mtol < 1, size))
    ctx.shards(items, run_good)
    ctx.shards([(o, me, num, size, lg) for o in itertools.permutations(range(4)) for me in (False, True) for num in (1, 3) for size in (1, 2, 3) for lg in (False, True)], run_near)
    ctx.shards([(e, d, sc, n) for e in (1e-3, 1e-5, 1e-7, 1e-9, 1e-11) for d in (2, 3, 5) for sc in SCALES for n in (1, 3)], run_steep)
    ctx.shards(list(itertools.product(('parallel', 'units', 'mixed'), (False, True), (1, 2, 3), (False, True))), run_default)
    ctx.shards(['measure', 'skew', 'cond', 'opt', 'verbose', 'uniq', 'large', 'good'], run_missing)
