"""Transfer of probabilities between partitions: exact localization and conservation."""
import collections
import itertools

import numpy as np

from mc import build as B
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('full product of assignments of old/emulated points to old and new cells, probability vectors, kinds of the new '
        'partition and process counts; oracle sums masses from the descriptor')
BOUNDS = {'quick': {'old': '1..4, patterns 5/9', 'new': '1..3, patterns 4/5/7', 'emulated': '1..4, patterns 17/40/101', 'ranks': '1..4'},
          'thorough': {'old': '1..5', 'new': '1..4', 'emulated': '1..5', 'ranks': '1..6'}}


# geometry: old generators lie on the x axis at (i, 0), so the old cell of (x, y) depends on x
# only; the new partition varies in y only (coordinates swapped builders)

def old_set(n):
    import bet.sample as samp
    s = samp.sample_set(2)
    v = np.zeros((n, 2))
    v[:, 0] = np.arange(n)
    s.set_values(v)
    s.set_domain(np.array([[-0.5, n - 0.5], [-1.0, 10.0]]))
    return s


def new_set(kind, m):
    """m cells distinguished by y, any x in [-1, 10]."""
    import bet.sample as samp
    if kind == 'voronoi':
        s = samp.voronoi_sample_set(2)
        v = np.zeros((m, 2))
        v[:, 1] = 10.0 * np.arange(m)
        s.set_values(v)
    elif kind == 'rectangle':
        s = samp.rectangle_sample_set(2)
        s.setup(maxes=[[50.0, 10.0 * i + 5.0] for i in range(m - 1)], mins=[[-50.0, 10.0 * i - 5.0] for i in range(m - 1)])
    elif kind == 'cartesian':
        s = samp.cartesian_sample_set(2)
        s.setup([np.array([-50.0, 50.0]), 10.0 * np.arange(m) - 5.0])
    elif kind == 'ball':
        s = samp.ball_sample_set(2)
        s.setup([[0.0, 10.0 * i] for i in range(m - 1)], [4.9] * (m - 1))
    return s


def pt(i, j, v):
    off = (0.125, -0.25, 0.3, -0.0625, 0.2)[v % 5]
    return [i + off, 10.0 * j + 3 * off]


def mk(pairs, n, m):
    seen = {}
    out = []
    for ij in pairs:
        v = seen.get(ij, 0)
        seen[ij] = v + 1
        out.append(pt(ij[0], ij[1], v))
    return np.array(out, dtype=float).reshape(len(pairs), 2)


def snapshot(s):
    return (np.array(s.get_probabilities()), s.get_prob_type())


def program(rank, mode, kind, m, pairs, probs, aux):
    """pairs: (old cell, new cell) of each moved point; probs: of old cells (or of points)."""
    import bet.sample as samp
    import bet.calculateP.calculateP as calcP
    new = new_set(kind, m)
    if mode == 'sample_set':
        # old points themselves carry the mass
        old = samp.sample_set(2)
        old.set_values(mk(pairs, 0, m))
        if aux == 'early':
            old.global_to_local()
        old.set_probabilities(B.arr(probs))
        if aux == 'local':
            old.global_to_local()
        if aux == 'none-emulate':
            ret = calcP.prob_from_sample_set_with_emulated_volumes(old, new)
        else:
            ret = calcP.prob_from_sample_set(old, new)
    elif mode == 'emulated':
        n = len(probs)
        old = old_set(n)
        if aux == 'early':
            old.global_to_local()
        old.set_probabilities(B.arr(probs))
        emu = samp.sample_set(2)
        emu.set_values(mk(pairs, n, m))
        if aux in ('local', 'early'):
            emu.global_to_local()
        ret = calcP.prob_from_sample_set_with_emulated_volumes(old, new, emu)
    elif mode in ('disc', 'disc-emulated'):
        # mass carried by input samples (or the emulated input samples) of a discretization
        if mode == 'disc':
            inp = samp.sample_set(2)
            inp.set_values(mk(pairs, 0, m))
            if aux == 'early':
                inp.global_to_local()
            inp.set_probabilities(B.arr(probs))
            emu = None
            k = len(pairs)
        else:
            inp = old_set(2)
            k = 2
            emu = samp.sample_set(2)
            emu.set_values(mk(pairs, 0, m))
            if aux == 'early':
                emu.global_to_local()
            emu.set_probabilities(B.arr(probs))
        out = samp.sample_set(1)
        out.set_values(np.arange(k, dtype=float).reshape(k, 1))
        disc = samp.discretization(inp, out, emulated_input_sample_set=emu)
        if aux == 'local':
            disc.global_to_local()
        ret = calcP.prob_from_discretization_input(disc, new)
    return np.array(ret), snapshot(new)


def one(ctx, item):
    mode, kind, m, pairs, probs, ranks, aux = item
    desc = dict(mode=mode, kind=kind, m=m, pairs=pairs, probs=probs, ranks=ranks, aux=aux)

    def go():
        res = run_ranks(ranks, program, (mode, kind, m, pairs, probs, aux)).values()
        if mode == 'emulated':
            n = len(probs)
            cnt = collections.Counter(p[0] for p in pairs)
            mass = [probs[p[0]] / cnt[p[0]] for p in pairs]
            if any(probs[i] > 0 and cnt[i] == 0 for i in range(n)):
                tot = sum(mass)
                mass = [x / tot for x in mass]
        else:
            mass = list(probs)
        exp = [sum(x for x, p in zip(mass, pairs) if p[1] == j) for j in range(m)]
        for r, (ret, (pr, pt_)) in enumerate(res):
            require_close(ret, exp, 'returned probabilities on rank %d' % r, 1e-12)
            require_close(pr, exp, 'stored probabilities on rank %d' % r, 1e-12)
            for a, b, e in zip(ret, pr, exp):
                require(abs(a - e) <= 1e-9 * abs(e) and abs(b - e) <= 1e-9 * abs(e), 'cell probabilities %r and %r, expected %r', a, b, e)
            require(abs(pr.sum() - sum(exp)) < 1e-12, 'mass %r not conserved', pr.sum())
            require(pt_ == 'voronoi', 'probability type %r', pt_)
    ctx.step(2)
    ctx.case(mode, desc, go)


KINDS = ('voronoi', 'rectangle', 'cartesian', 'ball')


def items(ctx):
    th = ctx.thorough
    out = []
    # moved points carry the mass
    for k in range(1, 6 if th else 5):
        for m in (1, 2, 3):
            if k == 5 and m == 3 and not th:
                continue
            for assign in B.assignments(k, m):
                pairs = tuple((v, a) for v, a in enumerate(assign))
                pv = B.prob_vectors(k)
                # masses that do not sum to one are moved as they are
                pv = pv + [[0.25 * x for x in pv[0]]]
                if k >= 3 and not th:
                    pv = pv[:1] + pv[-3:]
                for probs in pv:
                    for kind in (('voronoi',) if m == 1 else KINDS if (k < 4 or th) else ('voronoi', 'rectangle')):
                        for mode, aux, rk in (('sample_set', 'plain', (1, 2, 3)), ('sample_set', 'local', (2,)), ('sample_set', 'early', (1, 3)), ('disc', 'early', (2,)), ('disc-emulated', 'early', (1, 2)), ('sample_set', 'none-emulate', (1,)),
                                              ('disc', 'plain', (1, 3)), ('disc-emulated', 'local', (2,)), ('disc-emulated', 'plain', (1, 4))):
                            if not th and kind != 'voronoi':
                                rk = rk[-1:]
                            for ranks in rk:
                                if mode == 'disc' and k < 1:
                                    continue
                                out.append((mode, kind, m, pairs, tuple(probs), ranks, aux))
    # emulated transfer: every assignment of emulated points to (old, new) pairs
    for n in (1, 2, 3):
        for m in (1, 2, 3) if th else (1, 2):
            cells = list(itertools.product(range(n), range(m)))
            for k in range(1, 5 if th else 4):
                if len(cells) ** k > (20000 if th else 1000):
                    continue
                for pairs in itertools.product(cells, repeat=k):
                    for probs in B.prob_vectors(n):
                        hit = sum(probs[i] for i in range(n) if any(p[0] == i for p in pairs))
                        if hit <= 0:
                            continue    # nothing carries mass: outside the property
                        for kind in (('voronoi',) if m == 1 else ('voronoi', 'rectangle')):
                            for ranks in ((1, 2, 4) if th or kind == 'voronoi' else (3,)):
                                if not th and n == 3 and m == 2 and k == 3 and ranks != 2:
                                    continue
                                out.append(('emulated', kind, m, pairs, tuple(probs), ranks, 'plain' if ranks not in (2, 3) else 'local' if ranks == 2 else 'early'))
    # larger patterns, masses of all magnitudes
    for k, n, m in ((17, 5, 4), (40, 9, 7), (101, 9, 5), (1300, 9, 6)):
        for mul in (1, 2, 3) if k < 1000 else (2,):
            new = [(mul * j * j + j // 2) % m for j in range(k)]
            for kind in KINDS:
                ncol = 4 if kind == 'ball' else 10     # the balls reach to x = 4.9
                pm = tuple((v % ncol, a) for v, a in enumerate(new))
                nn = min(n, ncol)
                pe = tuple(((mul * j + j // 3) % nn, a) for j, a in enumerate(new))
                for w in ([1.0 + j % 4 for j in range(k)], [10.0 ** -(j % 13) for j in range(k)], [1e-200 * (1 + j % 3) for j in range(k)]):
                    for ranks in (1, 2, 4):
                        for mode, aux in (('sample_set', 'plain'), ('sample_set', 'local'), ('disc', 'plain'), ('disc-emulated', 'local')):
                            out.append((mode, kind, m, pm, tuple(w), ranks, aux))
                        out.append(('emulated', kind, m, pe, tuple(w[:nn]), ranks, 'plain' if mul < 3 else 'early' if ranks > 2 else 'local'))
    # many points per cell
    for k in (300, 40000, 70000):
        pe = tuple(((j * j + j // 2) % 3, (j * 3 + 1) % 2) if j % 50 == 0 else (0, int(j % 17 == 0)) for j in range(k))
        for ranks in (1, 2):
            out.append(('emulated', 'voronoi', 2, pe, (0.5, 0.2, 0.3), ranks, 'plain'))
            out.append(('sample_set', 'voronoi', 2, tuple((j % 10, j % 2) for j in range(k)), tuple((1.0 + j % 4) / k for j in range(k)), ranks, 'plain'))
    return out


def refuse(ctx, item):
    """Transfers between spaces of different dimension and transfers of nothing are refused without touching the sets."""
    a, b, c = item

    def go():
        import bet.sample as samp
        import bet.calculateP.calculateP as calcP

        def mk(dim, n, p):
            s = samp.voronoi_sample_set(dim)
            s.set_values(np.arange(1.0, n * dim + 1).reshape(n, dim))
            if p:
                s.set_probabilities(np.ones(n) / n)
            return s
        old, new, em = mk(a, 3, True), mk(b, 2, False), mk(c, 4, False)
        D = (samp.dim_not_matching,)
        if a != b:
            expect_error(lambda: calcP.prob_from_sample_set(old, new), 'sets of dimension %d and %d' % (a, b), D)
            d = samp.discretization(mk(a, 3, True), mk(1, 3, False))
            expect_error(lambda: calcP.prob_from_discretization_input(d, new), 'sets of dimension %d and %d' % (a, b), D)
        if a != b or a != c:
            expect_error(lambda: calcP.prob_from_sample_set_with_emulated_volumes(old, new, em), 'sets of dimension %d, %d and %d' % item, D)
        if a == b:
            d = samp.discretization(mk(a, 3, False), mk(1, 3, False))
            expect_error(lambda: calcP.prob_from_discretization_input(d, new), 'no probabilities', (AttributeError,))
            # the emulated points carry the mass: where they have none there is nothing to move
            d = samp.discretization(mk(a, 3, True), mk(1, 3, False), emulated_input_sample_set=mk(a, 4, False))
            expect_error(lambda: calcP.prob_from_discretization_input(d, new), 'no emulated probabilities', (AttributeError,))
        require(a == b == c or new.get_probabilities() is None, 'a refused transfer set probabilities')
        require_close(np.array(old.get_probabilities()), np.ones(3) / 3, 'old probabilities', 0)
        ctx.step()
    ctx.case('refused', dict(dims=item), go)


def twin(ctx, item):
    """Old and new partition share their generators but not their cells (another norm, boxes or balls around the same centres)."""
    n, kind, ranks, k = item

    def go():
        gens = [((3 * i) % 7 + 0.25 * (i % 2), (5 * i) % 7 + 0.125 * i) for i in range(n)]
        em = [(0.11 + 0.83 * ((7 * j) % k) / k * 8 - 0.5, 0.07 + 0.91 * ((11 * j + 3) % k) / k * 8 - 0.5) for j in range(k)]
        probs = [(1.0 + i) / (n * (n + 1) / 2) for i in range(n)]

        def near(p, norm):
            f = {1: lambda a, b: a + b, 2: lambda a, b: (a * a + b * b) ** 0.5, 3: lambda a, b: (a ** 3 + b ** 3) ** (1 / 3.),
                 'inf': max}[norm]
            d = [f(abs(p[0] - g[0]), abs(p[1] - g[1])) for g in gens]
            o = sorted(d)
            return d.index(o[0]) if n == 1 or o[1] - o[0] > 1e-6 else None
        norms = {'p1': (2, 1), 'p3': (3, 2), 'inf': (1, 'inf'), 'boxes': (2, 'boxes'), 'from-inf': ('inf', 2)}[kind]
        half = 0.4

        def cell(p, norm):
            if norm != 'boxes':
                return near(p, norm)
            for i, g in enumerate(gens):
                e = max(abs(p[0] - g[0]), abs(p[1] - g[1])) - half
                if abs(e) < 1e-6:
                    return None
                if e < 0:
                    return i
            return n
        em = [p for p in em if cell(p, norms[0]) is not None and cell(p, norms[1]) is not None]
        cnt = collections.Counter(cell(p, norms[0]) for p in em)
        mass = [probs[cell(p, norms[0])] / cnt[cell(p, norms[0])] for p in em]
        if any(cnt[i] == 0 for i in range(n)):
            t = sum(mass)
            mass = [x / t for x in mass]
        m = n + (norms[1] == 'boxes')
        exp = [sum(x for x, p in zip(mass, em) if cell(p, norms[1]) == j) for j in range(m)]

        def prog(rank):
            import bet.sample as samp
            import bet.calculateP.calculateP as calcP

            def mkset(norm):
                if norm == 'boxes':
                    s = samp.rectangle_sample_set(2)
                    s.setup(maxes=[[g[0] + half, g[1] + half] for g in gens], mins=[[g[0] - half, g[1] - half] for g in gens])
                    return s
                s = samp.voronoi_sample_set(2)
                s.set_p_norm(np.inf if norm == 'inf' else norm)
                s.set_values(np.array(gens))
                return s
            old, new = mkset(norms[0]), mkset(norms[1])
            old.set_probabilities(B.arr(probs))
            emu = samp.sample_set(2)
            emu.set_values(np.array(em))
            ret = calcP.prob_from_sample_set_with_emulated_volumes(old, new, emu)
            return np.array(ret), np.array(new.get_probabilities())
        for ret, pr in run_ranks(ranks, prog).values():
            require_close(ret, exp, 'returned probabilities', 1e-12)
            require_close(pr, exp, 'stored probabilities', 1e-12)
        ctx.step()
    ctx.case('same generators, other cells', dict(n=n, kind=kind, ranks=ranks, k=k), go)


def run(ctx):
    ctx.shards(items(ctx), one)
    ctx.shards(list(itertools.product((1, 2, 3, 4, 5), ('p1', 'p3', 'inf', 'boxes', 'from-inf'), (1, 2, 3), (23, 60))), twin)
    ctx.shards(list(itertools.product((1, 2, 3), repeat=3)), refuse)
