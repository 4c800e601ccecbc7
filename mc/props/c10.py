"""Normalizing a domain is the exact affine map and is undone exactly."""
import itertools

import numpy as np

from mc import spmd
from mc.core import require, require_close
from mc.fakempi import run_ranks

RULE = ('product of domains (shifted, scaled, tiny, huge), dimensions, set kinds, combinations of global/local/shared arrays and optional data, '
        'words over {normalize, undo} alternating, warm or cold search tree, process counts; oracle: the affine map of the descriptor')
BOUNDS = {'quick': {'domains': 7, 'dim': '1..5', 'words': 'alternating, length <= 4', 'ranks': '1..3'},
          'thorough': {'domains': 7, 'dim': '1..5', 'words': 'alternating, length <= 6', 'ranks': '1..5'}}

DOMS = {'unit': (0.0, 1.0), 'shift': (2.0, 3.0), 'scale': (0.0, 5.0), 'neg': (-4.0, -1.0), 'sym': (-1.0, 1.0), 'tiny': (1e-6, 3e-6), 'huge': (-2e6, 6e6)}


def domain(names):
    return np.array([DOMS[n] for n in names])


def prog(rank, kind, doms, holds, opt, word, warm, n0=5):
    import bet.sample as samp
    from bet.Comm import comm
    D = domain(doms)
    dim = len(doms)
    lo, wd = D[:, 0], D[:, 1] - D[:, 0]
    u = spmd.pts(n0, dim, 0.03)
    V = lo + wd * u
    n = V.shape[0]
    given = []
    if kind == 'rectangle':
        s = samp.rectangle_sample_set(dim)
        mins, maxes = lo + wd * (u[:max(1, n0 - 1)] * 0.8), lo + wd * (u[:max(1, n0 - 1)] * 0.8 + 0.15)
        s.setup(maxes=[list(x) for x in maxes], mins=[list(x) for x in mins])
        V = np.vstack((0.5 * (mins + maxes), np.full((1, dim), np.inf)))
    elif kind == 'cartesian':
        s = samp.cartesian_sample_set(dim)
        s.setup([lo[i] + wd[i] * np.array([0.0, 0.3, 0.7] if i == 0 else [0.1, 0.9]) for i in range(dim)])
        V = np.array(s.get_values())
    else:
        s = samp.sample_set(dim) if kind == 'sample_set' else samp.voronoi_sample_set(dim)
        s.set_values(V.copy())
    n = V.shape[0]
    handed = [(D.copy(), 'domain')]
    s.set_domain(handed[0][0])
    J = spmd.jacs(n, 2, dim)
    if 'int' in opt:
        J = (np.arange(n * 2 * dim).reshape(n, 2, dim) * 5 + 2) % 9 - 4
    if 'jac' in opt:
        handed.append((J.copy(), 'Jacobians'))
        s.set_jacobians(handed[-1][0])
    if 'ref' in opt:
        handed.append((lo + wd * 0.25, 'reference value'))
        s.set_reference_value(handed[-1][0])
    handed_before = [x.copy() for x, _ in handed]
    prob = np.arange(n) + 1.0
    s.set_probabilities(prob.copy())
    vol = (np.arange(n) + 2.0) / 20
    s.set_volumes(vol.copy())
    bounds = kind in ('rectangle', 'cartesian')
    L, R = (np.array(s._left), np.array(s._right)) if bounds else (None, None)
    if 'bounds' in opt and not bounds:
        s.update_bounds()
        if holds != 'global':
            s.global_to_local()
    alias = None
    if holds == 'both':
        s.global_to_local()
    elif holds == 'gathered':      # in serial the global array is the local one
        s.global_to_local()
        s.local_to_global()
    elif holds == 'local':
        if kind == 'sample_set':
            t = samp.sample_set(dim)
            t.set_domain(D.copy())
            t.set_values_local(np.array_split(V, comm.size)[comm.rank].copy())
            if 'jac' in opt:
                t.set_jacobians_local(np.array_split(J, comm.size)[comm.rank].copy())
            if 'ref' in opt:
                t.set_reference_value(lo + wd * 0.25)
            s = t
        else:
            s.global_to_local()
    elif holds == 'same':          # the very same array object as global and local values
        if comm.size == 1 and kind == 'sample_set':
            x = V.copy()
            s.set_values(x)
            s.set_values_local(x)
    P = lo + wd * spmd.pts(6, dim, 0.5)
    only_local = holds == 'local' and kind == 'sample_set'
    if warm and not only_local:
        s.query(P)
        s.get_bounding_box()
    state = 0

    def scaled(x, st):
        return (x - lo) / wd if st else x

    def check(st, what):
        w = wd if st else np.ones(dim)
        tol = 1e-9
        sc = np.ones(dim) if st else np.maximum(np.abs(D).max(axis=1), wd)

        def cmp(a, b, nm):
            require(a is not None, '%s: %s lost', what, nm)
            a, b = np.asarray(a), np.asarray(b)
            require(a.shape == b.shape, '%s: %s has shape %s', what, nm, a.shape)
            same = (a == b)
            with np.errstate(all='ignore'):
                ok = same | (np.abs(a - b) <= tol * sc)
            require(bool(np.all(ok)), '%s: %s is %s, expected %s', what, nm, a.tolist(), b.tolist())
        want = scaled(V, st)
        if not only_local:
            cmp(s.get_values(), want, 'values')
            if holds not in ('global', 'same'):
                cmp(s.get_values_local(), np.array_split(want, comm.size)[comm.rank] if holds != 'x' else None, 'local values')
            if holds == 'same' and comm.size == 1 and kind == 'sample_set':
                cmp(s.get_values_local(), want, 'local values')
        else:
            cmp(s.get_values_local(), np.array_split(want, comm.size)[comm.rank], 'local values')
        require_close(s.get_domain(), np.array([[0.0, 1.0]] * dim) if st else D, what + ': domain', 1e-12)
        if 'jac' in opt:
            wj = J * wd if st else J
            if not only_local:
                require_close(s.get_jacobians(), wj, what + ': jacobians', 1e-9)
            if holds in ('both', 'gathered', 'local'):
                require_close(s.get_jacobians_local(), np.array_split(wj, comm.size)[comm.rank], what + ': local jacobians', 1e-9)
        if 'ref' in opt:
            cmp(s.get_reference_value(), scaled(lo + wd * 0.25, st), 'reference value')
        if bounds:
            cmp(s._left, scaled(L, st), 'lower cell bounds')
            cmp(s._right, scaled(R, st), 'upper cell bounds')
            if dim:
                cmp(s._width[:-1], (scaled(R, st) - scaled(L, st))[:-1], 'cell widths')
        elif 'bounds' in opt and not only_local:
            cmp(s._left, np.repeat([scaled(lo, st)], n, 0), 'lower bounds')
            cmp(s._right, np.repeat([scaled(lo + wd, st)], n, 0), 'upper bounds')
            cmp(s._width, np.repeat([scaled(lo + wd, st) - scaled(lo, st)], n, 0), 'widths')
        if (bounds or 'bounds' in opt) and not only_local and s._left_local is not None:
            a, b = (scaled(L, st), scaled(R, st)) if bounds else (np.repeat([scaled(lo, st)], n, 0), np.repeat([scaled(lo + wd, st)], n, 0))
            part = lambda x: np.array_split(x, comm.size)[comm.rank]
            cmp(s._left_local, part(a), 'local lower bounds')
            cmp(s._right_local, part(b), 'local upper bounds')
            fin = np.all(np.isfinite(part(b)) & np.isfinite(part(a)), axis=1)
            if s._width_local is not None:
                cmp(s._width_local[fin], (part(b) - part(a))[fin], 'local widths')
        for (x, nm), y in zip(handed, handed_before):
            require(np.array_equal(x, y), '%s: the %s handed over by the caller changed', what, nm)
        if not only_local:
            require_close(s.get_probabilities(), prob, what + ': probabilities')
            require_close(s.get_volumes(), vol, what + ': volumes')
            X = scaled(P, st)
            d, i = s.query(X)
            if bounds:
                f = [k for x in P for k in [next((c for c in range(n - 1) if np.all(x > L[c]) and np.all(x <= R[c])), n - 1)]]
                require(list(np.array(i)) == f, '%s: query gives %s, expected %s', what, list(np.array(i)), f)
            else:
                DD = np.sqrt(((X[:, None] - want[None]) ** 2).sum(2))
                require_close(np.array(d), DD.min(1), what + ': distance', 1e-7 if st else 1e-9)
                require(list(np.array(i)) == list(DD.argmin(1)), '%s: query gives %s, expected %s', what, list(np.array(i)), list(DD.argmin(1)))
                cmp(s.get_bounding_box(), np.vstack((want.min(0), want.max(0))).T, 'bounding box') if dim == 1 else require_close(
                    s.get_bounding_box(), np.vstack((want.min(0), want.max(0))).T, what + ': bounding box', 1e-9)
    check(0, 'start')
    done = ''
    for op in word:
        if op == 'n':
            s.normalize_domain()
            state = 1
        else:
            s.undo_normalize_domain()
            state = 0
        done += op
        check(state, 'after ' + done)
    return True


def p_again(rank, first, second, hold, undo, warm):
    """A normalized set gets new data on a new domain and is normalized and undone again."""
    import bet.sample as samp
    from bet.Comm import comm
    dim = len(first)
    D1, D2 = domain(first), domain(second)
    s = samp.sample_set(dim)
    s.set_domain(D1.copy())
    s.set_values(D1[:, 0] + (D1[:, 1] - D1[:, 0]) * spmd.pts(4, dim, 0.1))
    if hold:
        s.global_to_local()
    s.normalize_domain()
    if undo:
        s.undo_normalize_domain()
    if warm:
        s.query(np.full((1, dim), 0.3))
    u = spmd.pts(6, dim, 0.4)
    lo, wd = D2[:, 0], D2[:, 1] - D2[:, 0]
    s.set_domain(D2.copy())
    s.set_values(lo + wd * u)
    s.set_reference_value(lo + wd * 0.75)
    J = spmd.jacs(6, 2, dim)
    s.set_jacobians(J.copy())
    if hold:
        s.global_to_local()
    for k in range(2):
        s.normalize_domain()
        require_close(s.get_values(), u, 'normalized values', 1e-9)
        require_close(s.get_reference_value(), np.full(dim, 0.75), 'normalized reference', 1e-9)
        require_close(s.get_jacobians(), J * wd, 'scaled Jacobians', 1e-9)
        require_close(s.get_domain(), np.array([[0.0, 1.0]] * dim), 'normalized domain', 0)
        require(int(s.query(u[3:4])[1][0]) == 3, 'query after normalizing the new data')
        s.undo_normalize_domain()
        for a, b, nm in ((s.get_values(), lo + wd * u, 'values'), (s.get_reference_value(), lo + wd * 0.75, 'reference'), (s.get_domain().T, D2.T, 'domain')):
            require(np.all(np.abs(a - b) <= 1e-9 * np.maximum(np.abs(D2).max(1), wd)), '%s restored as %s, expected %s', nm, a.tolist(), b.tolist())
        require_close(s.get_jacobians(), J, 'restored Jacobians', 1e-9)
        if hold:
            require_close(s.get_jacobians_local(), np.array_split(J, comm.size)[comm.rank], 'restored local Jacobians', 1e-9)
    return True


def again(ctx, item):
    first, second, hold, undo, warm, size = item

    def go():
        w = run_ranks(size, p_again, (first, second, hold, undo, warm))
        ctx.step(5 * size)
        w.values()
    ctx.case('again', dict(first=first, second=second, local=hold, undone=undo, warm=warm, ranks=size), go)


def one(ctx, item):
    kind, doms, holds, opt, word, warm, size = item[:7]

    def go():
        w = run_ranks(size, prog, item[:6] + item[7:])
        ctx.step(len(word) * size)
        w.values()
    ctx.case('normalize', dict(kind=kind, domain=doms, holds=holds, opt=opt, word=word, warm=warm, ranks=size, n=(item[7:] or (5,))[0]), go)


def run(ctx):
    T = ctx.thorough
    names = list(DOMS)
    combos = [(a,) for a in names] + [(names[i], names[(i + k) % 7]) for i in range(7) for k in ((1, 2, 3, 4, 5, 6) if T else (1, 3))] + \
             [(names[i], names[(i + 2) % 7], names[(i + 5) % 7]) for i in range(7)]
    combos += [tuple(names[(i + k * k) % 7] for k in range(dim)) for dim in (4, 5) for i in range(0, 7, 1 if T else 3)]
    opts = [(), ('jac',), ('ref',), ('jac', 'ref'), ('bounds',), ('bounds', 'jac', 'ref')]
    words = ['', 'n', 'nu', 'nun', 'nunu'] + (['nununu'] if T else [])
    items = []
    for kind in ('sample_set', 'voronoi_sample_set', 'rectangle', 'cartesian'):
        for doms in combos:
            for holds in ('global', 'both', 'gathered', 'local', 'same'):
                if kind != 'sample_set' and holds == 'same':
                    continue
                for opt in opts:
                    if kind in ('rectangle', 'cartesian') and 'bounds' in opt:
                        continue
                    if holds == 'local' and 'bounds' in opt:
                        continue
                    for size in ((1, 2, 3, 4, 5) if T else (1, 2, 3)):
                        if holds == 'same' and size > 1:
                            continue
                        for warm in (False, True):
                            for w in ((words[-1],) if not T else words):
                                items.append((kind, doms, holds, opt, w, warm, size))
    items += [('sample_set', ('shift', 'scale'), h, (), w, True, 1) for h in ('global', 'both') for w in ('u', 'uu', 'nuu', 'nuun')]
    for kind in ('sample_set', 'rectangle', 'cartesian'):
        for doms in combos:
            for holds in ('global', 'both', 'gathered', 'local'):
                for opt in (('jac', 'int'), ('jac', 'int', 'ref'), ('jac',)):
                    for n in (1, 2, 40):
                        size = 1 + (len(doms) + n + len(holds)) % 3
                        items.append((kind, doms, holds, opt, words[-1], n == 2, size, n))
    ctx.shards(items, one)
    ctx.shards([(tuple(names[(i + k) % 7] for k in range(dim)), tuple(names[(j + 2 * k) % 7] for k in range(dim)), h, u, w, 1 + (i + j) % 3)
                for dim in (1, 2, 3) for i in range(7) for j in range(7) for h in (False, True) for u in (False, True) for w in (False, True)], again)
