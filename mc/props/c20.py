"""Ranking and thresholding by probability select the right samples."""
import itertools

import numpy as np

from mc.build import snap, diff
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('every assignment of probabilities and volumes from a small dyadic alphabet (zeros included) to up to n samples, every fraction, sort flag and direction, for sample sets of every class used as '
        'input set and for discretizations; oracle: validity of the ranking (equal densities may come in any order) and exact accumulation along it')
BOUNDS = {'quick': {'samples': '1..4 (patterns: 7, 17, 40, 64)', 'probabilities': '{0,1,2,4}/8 and {0,tiny,4}/8', 'volumes': '{absent} + {0,1,2,4}/8', 'fractions': '0..1 step 1/16', 'ranks': '1..2'},
          'thorough': {'samples': '1..5 (patterns: up to 80)', 'probabilities': '{0,1,2,4}/8 and {0,tiny,4}/8', 'volumes': '{absent} + {0,1,2,4}/8', 'fractions': '0..1 step 1/16', 'ranks': '1..3'}}

V0 = [[3.0, -1.0], [0.5, 2.0], [7.0, 4.5], [-2.0, 0.25], [1.5, -6.0]]
V = np.array(V0 + [[(7 * i) % 61 + 0.25, (11 * i) % 53 - 0.5] for i in range(5, 1300)])


def mk(n, P, W, kind):
    import bet.sample as samp
    s = samp.voronoi_sample_set(2) if kind == 'voronoi' else samp.sample_set(2)
    s.set_values(V[:n].copy())
    s.set_probabilities(np.array(P, float) / 8)
    if W is not None:
        s.set_volumes(np.array(W, float) / 8)
    if kind == 'disc':
        o = samp.sample_set(1)
        o.set_values((np.arange(n) * 11.0 + 2).reshape(-1, 1))
        return samp.discretization(s, o), s
    return s, s


def density(P, W, i):
    p = P[i] / 8.0
    if p == 0:
        return 0.0
    if W is None:
        return p
    return float('inf') if W[i] == 0 else p / (W[i] / 8.0)


def check_rows(out, idx, n, P, W, kind):
    o = out.get_input_sample_set() if kind == 'disc' else out
    k = len(idx)
    require_close(o.get_values(), V[idx].reshape(k, 2), 'values of the selected samples', 0)
    require_close(o.get_probabilities(), np.array(P, float)[idx] / 8, 'probabilities of the selected samples', 0)
    if W is None:
        require(o.get_volumes() is None, 'volumes were invented')
    else:
        require_close(o.get_volumes(), np.array(W, float)[idx] / 8, 'volumes of the selected samples', 0)
    if kind == 'disc':
        require_close(out.get_output_sample_set().get_values(), (idx * 11.0 + 2).reshape(-1, 1), 'outputs of the selected samples', 0)
        require(out.check_nums() == k, 'number of samples')
    else:
        require(o.check_num() == k, 'number of samples')


def p_one(rank, n, P, W, kind, fr):
    import bet.postProcess.postTools as pt
    obj, s = mk(n, P, W, kind)
    before = snap(obj)
    out, idx = pt.sort_by_rho(obj)
    idx = np.array(idx, dtype=int)
    pos = [i for i in range(n) if P[i] > 0]
    require(sorted(idx.tolist()) == pos, 'sorting lists %s, samples with probability are %s', idx.tolist(), pos)
    d = [density(P, W, i) for i in idx]
    require(all(a >= b for a, b in zip(d, d[1:])), 'sorting lists densities %s', d)
    check_rows(out, idx, n, P, W, kind)
    z = diff(before, snap(obj))
    require(not z, 'sorting changed the operand in %s', z)
    for f in fr:
        for sort in (True, False):
            for low in (False, True):
                fn = pt.sample_lowest_prob if low else pt.sample_highest_prob
                for call in ((lambda: fn(f, obj, sort)), (lambda: pt.sample_prob(f, obj, sort, low))):
                    num, out, idx = call()
                    idx = np.array(idx, dtype=int)
                    num = int(num)
                    require(len(idx) == num, '%d samples but %d indices', num, len(idx))
                    check_rows(out, idx, n, P, W, kind)
                    require(len(set(idx.tolist())) == num, 'repeated indices %s', idx.tolist())
                    acc = sum(P[i] for i in idx) / 8.0
                    require(acc <= f, 'samples %s accumulate %r > %r', idx.tolist(), acc, f)
                    if sort:
                        require(all(P[i] > 0 for i in idx), 'selected %s without probability', idx.tolist())
                        rest = [i for i in pos if i not in idx]
                        d = [density(P, W, i) for i in idx]
                        r = [density(P, W, i) for i in rest]
                        if low:
                            require(all(a <= b for a, b in zip(d, d[1:])) and (not d or not r or max(d) <= min(r)), 'lowest %s, rest %s', d, r)
                            nxt = [i for i, x in zip(rest, r) if x == min(r)]
                        else:
                            require(all(a >= b for a, b in zip(d, d[1:])) and (not d or not r or min(d) >= max(r)), 'highest %s, rest %s', d, r)
                            nxt = [i for i, x in zip(rest, r) if x == max(r)]
                        require(not rest or any(acc + P[i] / 8.0 > f for i in nxt), 'stopped at %s with %r although the next sample fits into %r', idx.tolist(), acc, f)
                    else:
                        order = list(range(n))[::-1] if low else list(range(n))
                        c, want = 0.0, []
                        for i in order:
                            c += P[i] / 8.0
                            if c > f:
                                break
                            want.append(i)
                        require(idx.tolist() == want, 'without sorting selected %s, expected %s', idx.tolist(), want)
    z = diff(before, snap(obj))
    require(not z, 'selection changed the operand in %s', z)
    return len(fr) * 8


def run_one(ctx, item):
    n, P, W, kind, size, fr = item

    def go():
        for k in run_ranks(size, p_one, (n, P, W, kind, fr)).values():
            ctx.step(k)
    ctx.case('select', dict(n=n, P=P, W=W, kind=kind, ranks=size), go)


def run_bad(ctx, item):
    def go():
        import bet.postProcess.postTools as pt
        bad = (None, 3, np.zeros((3, 2)), [1, 2])[item]
        for f in (lambda: pt.sort_by_rho(bad), lambda: pt.sample_prob(0.5, bad), lambda: pt.sample_highest_prob(0.5, bad), lambda: pt.sample_lowest_prob(0.5, bad)):
            expect_error(f, 'object %r' % (bad,), (pt.bad_object,))
            ctx.step()
    ctx.case('bad', item, go)


def run(ctx):
    T = ctx.thorough
    A = (0, 1, 2, 4)
    items = []
    allf = [k / 16 for k in range(17)]
    for n in (1, 2, 3, 4, 5) if T else (1, 2, 3, 4):
        for a, P in enumerate(itertools.product(A, repeat=n)):
            if sum(P) > 8 or sum(P) == 0:
                continue
            if n <= 3:
                Ws = [None] + list(itertools.product(A, repeat=n))
            else:
                Ws = [None] + [w for b, w in enumerate(itertools.product(A, repeat=n)) if (a + b) % (257 if n == 5 else 17 if T else 61) == 0]
            for W in Ws:
                k = len(items)
                items.append((n, P, W, ('set', 'disc', 'voronoi')[k % 3], 1 + (k % 7 == 0), [f for j, f in enumerate(allf) if (j + k) % 3 == 0 or f in (0.0, 1.0)] if not T else allf))
    for n in (1, 2, 3):
        for P in itertools.product((0, 2.0 ** -70, 2.0 ** -40, 4), repeat=n):
            if 0 < sum(P) <= 8:
                for W in [None] + list(itertools.product((2.0 ** -60, 1), repeat=n)):
                    items.append((n, P, W, 'disc', 1, [0.0, 2.0 ** -45, 2.0 ** -42, 0.5, 1.0]))
    for n in (2, 3, 4):        # nearly equal probabilities and densities, densities of any magnitude
        for perm in itertools.permutations(range(n)):
            for e in (2.0 ** -50, 2.0 ** -30, 2.0 ** -12):
                P = tuple(1.0 + k * e for k in perm)
                for W in (None, (1.0,) * n, tuple(1.0 + k * e for k in perm[1:] + perm[:1]), tuple(2.0 ** (100 * k - 150) for k in perm), (2.0 ** -300,) * n, (2.0 ** 300,) * n):
                    items.append((n, P, W, ('set', 'disc', 'voronoi')[len(items) % 3], 1, [0.125, 0.25, 0.375, 0.5, 1.0]))
    for n in (7, 12, 17, 33, 64, 80) if T else (7, 17, 40, 64, 1300):        # more samples than any exhaustive assignment
        for a, b in itertools.product(range(1, 8 if T else 5), range(6 if T else 4)) if n < 1000 else ((2, 1), (3, 0)):
            K = [0, 1, 2, 3, 5, 8, 1, 0, 4][a:] + [0, 1, 2, 6]
            P = [K[(i * (a + 1) + i * i) % len(K)] for i in range(n)]
            q = 2.0 ** (3 - int(np.ceil(np.log2(sum(P)))))
            P = tuple(x * q for x in P)
            for W in (None, tuple(float(1 + (i * (b + 2) + a) % 7) for i in range(n)), tuple(2.0 ** (-40 + 3 * ((i * (b + 1)) % 25)) for i in range(n)), tuple(2.0 ** 30 * (1 + (i + b) % 3) for i in range(n))):
                k = len(items)
                if W is None and b:
                    continue
                items.append((n, P, W, ('set', 'disc', 'voronoi')[k % 3], 1 + k % (3 if T else 2), [0.0, 1 / 64, 0.25, 0.5, 13 / 16, 1.0]))
    ctx.shards(items, run_one)
    ctx.shards(range(4), run_bad)
