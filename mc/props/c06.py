"""Distributing and re-gathering a sample set loses and reorders nothing."""
import itertools

import numpy as np

from mc import spmd
from mc.build import concat_local
from mc.core import require, same_arr
from mc.fakempi import run_ranks

RULE = ('product of sample counts, process counts, set classes, dimensions, array dtypes/layouts and subsets of the optional per-sample data; '
        'plus all operation words over {split, gather, replace-global, replace-local} for discretizations; oracle: the descriptor arrays')
BOUNDS = {'quick': {'samples': '1..6, 17, 64, 101', 'dim': '1..5', 'ranks': '1..4, 7', 'words': 'length <= 3'}, 'thorough': {'samples': '1..9, 17, 64, 101', 'dim': '1..5', 'ranks': '1..9', 'words': 'length <= 4'}}

FIELDS = ('values', 'volumes', 'probabilities', 'densities', 'jacobians', 'error_estimates', 'region', 'error_id')
EXTRA = ('right', 'left', 'width', 'radii', 'normalized_radii')


def data(n, dim, layout):
    i = np.arange(n)
    d = {'values': spmd.pts(n, dim), 'volumes': (i + 1.0) / 7, 'probabilities': np.sin(i + 1.0) ** 2, 'densities': i + 0.125,
         'jacobians': spmd.jacs(n, 2, dim), 'error_estimates': 0.1 * spmd.pts(n, dim, 0.3), 'region': (i * 3) % 5, 'error_id': i * 0.5}
    if layout == 'fortran':
        d = {k: np.asfortranarray(v) for k, v in d.items()}
    elif layout == 'float32':
        d = {k: (v.astype(np.float32) if v.dtype == float else v) for k, v in d.items()}
    elif layout == 'strided':
        d = {k: np.repeat(v, 2, axis=0)[::2] for k, v in d.items()}
    elif layout == 'int':
        d = {k: np.arange(v.size).reshape(v.shape) for k, v in d.items()}
    return d


def prog_set(rank, n, dim, cls, layout, fields):
    import bet.sample as samp
    from bet.Comm import comm
    d = data(n, dim, layout)
    s = getattr(samp, cls)(dim)
    s.set_domain(spmd.box(dim))
    for f in fields:
        getattr(s, 'set_' + f)(d[f].copy())
    s.global_to_local()
    loc = {f: np.array(getattr(s, 'get_%s_local' % f)()) for f in fields}
    nl = s.check_num_local()
    kept = {f: np.array(getattr(s, 'get_' + f)()) for f in fields}
    t = samp.sample_set(dim) if cls == 'sample_set' else getattr(samp, cls)(dim)
    for f in fields:
        getattr(t, 'set_%s_local' % f)(loc[f].copy())
    t.local_to_global()
    back = {f: np.array(getattr(t, 'get_' + f)()) for f in fields}
    s.local_to_global()
    again = {f: np.array(getattr(s, 'get_' + f)()) for f in fields}
    num = (s.check_num(), t.check_num())
    s.global_to_local()
    third = {f: np.array(getattr(s, 'get_%s_local' % f)()) for f in fields}
    idx = np.array(s._local_index)
    more = None
    if 'values' in fields and cls in ('sample_set', 'voronoi_sample_set'):
        add = data(2, dim, layout)
        for f in fields:
            if f in ('values', 'jacobians', 'error_estimates'):
                getattr(s, 'append_' + f)(add[f].copy())
            else:
                getattr(s, 'set_' + f)(np.concatenate((d[f], add[f])))
        s.local_to_global()         # nothing is lost although the earlier parts are shorter
        more = [{f: np.array(getattr(s, 'get_' + f)()) for f in fields}]
        s.global_to_local()
        more.append({f: concat_local(comm.allgather(np.array(getattr(s, 'get_%s_local' % f)()))) for f in fields})
    return loc, nl, kept, back, again, num, third, idx, more


def eq(x, y):
    return x.shape == y.shape and bool(np.all(x == y))


def case_set(ctx, item):
    n, r, dim, cls, layout, fields = item

    def go():
        d = data(n, dim, layout)
        w = run_ranks(r, prog_set, (n, dim, cls, layout, fields))
        ctx.step(w.ncoll + 1)
        res = w.values()
        off = 0
        for rk, (loc, nl, kept, back, again, num, third, idx, more) in enumerate(res):
            lens = set(x.shape[0] for x in loc.values())
            require(len(lens) == 1, 'rank %d: local parts of different lengths %s', rk, {f: x.shape[0] for f, x in loc.items()})
            k = lens.pop()
            require(nl == k, 'rank %d: check_num_local %s, local arrays have %d', rk, nl, k)
            require(idx.tolist() == list(range(off, off + k)), 'rank %d: local indices %s, local part is %d..%d', rk, idx.tolist(), off, off + k)
            if more is not None:
                add = data(2, dim, layout)
                for f in fields:
                    for m, what in zip(more, ('gathered', 'split')):
                        require(eq(m[f], np.concatenate((d[f], add[f]))), 'rank %d: %s %s after appending is %s', rk, what, f, m[f].tolist())
            for f in fields:
                require(eq(loc[f], d[f][off:off + k]), 'rank %d: local %s is %s, expected %s', rk, f, loc[f].tolist(), d[f][off:off + k].tolist())
                require(eq(kept[f], d[f]), 'rank %d: splitting changed global %s', rk, f)
                require(eq(back[f], d[f]), 'rank %d: gathered %s is %s, expected %s', rk, f, back[f].tolist(), d[f].tolist())
                require(eq(again[f], d[f]), 'rank %d: split and gathered %s is %s', rk, f, again[f].tolist())
                require(eq(third[f], loc[f]), 'rank %d: second split of %s differs', rk, f)
            require(num == (n, n), 'rank %d: check_num %s, expected %d', rk, num, n)
            off += k
        require(off == n, 'local parts hold %d of %d samples', off, n)
    ctx.case('set', dict(n=n, ranks=r, dim=dim, cls=cls, layout=layout, fields=fields), go)


# cells with bounds and radii ------------------------------------------------------------

def prog_cells(rank, kind, m, dim):
    s = spmd.out_partition(kind, m, dim)
    names = {'rectangle': ('_values', '_left', '_right', '_width', '_region'), 'cartesian': ('_values', '_left', '_right', '_width', '_region'),
             'ball': ('_values', '_radii', '_region')}[kind]
    x = 1.7 * spmd.pts(6, dim, 0.2)
    d0, p0 = s.query(x)
    before = {f: np.array(getattr(s, f)) for f in names}
    s.global_to_local()
    loc = {f: np.array(getattr(s, f + '_local')) for f in names}
    s.local_to_global()
    after = {f: np.array(getattr(s, f)) for f in names}
    d1, p1 = s.query(x)
    return before, loc, after, (np.array(d0), np.array(p0)), (np.array(d1), np.array(p1))


def case_cells(ctx, item):
    kind, m, dim, r = item

    def go():
        w = run_ranks(r, prog_cells, (kind, m, dim))
        ctx.step(w.ncoll + 1)
        res = w.values()
        for f in res[0][0]:
            cat = concat_local([x[1][f] for x in res])
            require(same_arr(cat, res[0][0][f]), 'local parts of %s do not make up the whole', f)
            for rk, x in enumerate(res):
                require(same_arr(x[2][f], res[0][0][f]), 'rank %d: gathered %s differs', rk, f)
        for rk, x in enumerate(res):
            require(same_arr(x[3][0], x[4][0]) and same_arr(x[3][1], x[4][1]), 'rank %d: query changed by splitting and gathering', rk)
    ctx.case('cells', dict(kind=kind, m=m, dim=dim, ranks=r), go)


# discretizations under operation words ---------------------------------------------------

SETS = ('input', 'output', 'emulated_input', 'emulated_output', 'output_probability', 'output_observed')


def getset(d, nm):
    return getattr(d, 'get_%s_set' % nm if nm in ('output_probability', 'output_observed') else 'get_%s_sample_set' % nm)()


def prog_disc(rank, n, present, word):
    import bet.sample as samp
    from bet.Comm import comm
    version = {nm: 0 for nm in SETS}
    probs, pv = {}, [0]
    count = {'input': n, 'output': n, 'emulated_input': n + 1, 'emulated_output': n + 1, 'output_probability': 2, 'output_observed': n + 2}

    def arr(nm):
        return spmd.pts(count[nm], 2, 0.01 * SETS.index(nm) + 0.003 * version[nm])

    def new(nm):
        s = samp.sample_set(2)
        s.set_values(arr(nm))
        return s
    kw = {}
    for nm in SETS[2:]:
        if nm in present:
            key = nm + '_set' if nm in ('output_probability', 'output_observed') else nm + '_sample_set'
            kw[key] = new(nm)
    d = samp.discretization(new('input'), new('output'), **kw)
    names = [nm for nm in SETS if nm in ('input', 'output') or nm in present]
    for op in word:
        if op == 'split':
            d.global_to_local()
            for nm in names:
                s = getset(d, nm)
                loc = s.get_values_local()
                require(loc is not None, '%s: no local values', nm)
                lens = comm.allgather(loc.shape[0])
                off = sum(lens[:comm.rank])
                require(sum(lens) == count[nm], '%s: local parts hold %s samples of %d', nm, lens, count[nm])
                want = arr(nm)[off:off + lens[comm.rank]]
                require(eq(np.array(loc), want), '%s: local values %s, expected %s', nm, loc, want)
                idx = getattr(s, '_local_index', None)
                require(idx is None or np.array_equal(idx, np.arange(off, off + lens[comm.rank])), '%s: local values %d..%d have the indices %s', nm, off, off + lens[comm.rank], idx)
        elif op == 'prob':      # new global probabilities, then split
            for nm in names:
                pv[0] += 1
                probs[nm] = (np.arange(count[nm]) + 0.5 * pv[0]) / 7.0
                getset(d, nm).set_probabilities(probs[nm].copy())
            d.global_to_local()
            for nm in names:
                got = concat_local(comm.allgather(np.array(getset(d, nm).get_probabilities_local())))
                require(eq(got, probs[nm]), '%s: local probabilities %s, expected %s', nm, got, probs[nm])
        elif op == 'more':        # further samples, then split
            for nm in names:
                count[nm] += 2
                version[nm] += 1
                getset(d, nm).set_values(arr(nm))
                if nm in probs:
                    probs[nm] = (np.arange(count[nm]) + 0.25) / 5.0
                    getset(d, nm).set_probabilities(probs[nm].copy())
            d.global_to_local()
        elif op == 'gather':
            d.local_to_global()
        elif op == 'local':       # replace all local parts
            for nm in names:
                version[nm] += 1
                getset(d, nm).set_values_local(np.array_split(arr(nm), comm.size)[comm.rank].copy())
            d.local_to_global()
        elif op == 'global':
            for nm in names:
                version[nm] += 1
                getset(d, nm).set_values(arr(nm))
            d.global_to_local()
        for nm in names:
            v = getset(d, nm).get_values()
            require(eq(np.array(v), arr(nm)), '%s after %s: global values %s, expected %s', nm, op, v.tolist(), arr(nm).tolist())
    d.local_to_global()
    for nm in names:
        v = getset(d, nm).get_values()
        require(eq(np.array(v), arr(nm)), '%s at the end: global values %s, expected %s', nm, v.tolist(), arr(nm).tolist())
        if nm in probs:
            p = np.array(getset(d, nm).get_probabilities())
            require(eq(p, probs[nm]), '%s at the end: probabilities %s, expected %s', nm, p.tolist(), probs[nm].tolist())
    return True


def case_disc(ctx, item):
    n, r, present, word = item

    def go():
        w = run_ranks(r, prog_disc, (n, present, word))
        ctx.step(len(word) * r)
        w.values()
    ctx.case('discretization', dict(n=n, ranks=r, present=present, word=word), go)


def run(ctx):
    T = ctx.thorough
    ranks = tuple(range(1, 10)) if T else (1, 2, 3, 4, 7)
    ns = range(1, 10) if T else range(1, 7)
    subsets = [('values',)] + [('values', f) for f in FIELDS[1:]] + [FIELDS, FIELDS[1:], ('jacobians',), ('probabilities', 'volumes')]
    if T:
        subsets = [c for k in range(1, 5) for c in itertools.combinations(FIELDS, k)] + [FIELDS]
    items = [(n, r, dim, cls, lay, f) for n in ns for r in ranks for dim in (1, 2, 3) for f in subsets
             for cls, lay in (('sample_set', 'c'), ('voronoi_sample_set', 'fortran'), ('rectangle_sample_set', 'strided'),
                              ('sample_set', 'float32'), ('ball_sample_set', 'int'))
             if T or lay == 'c' or len(f) > 2]
    items += [(n, r, dim, cls, lay, f) for n in (17, 64, 101, 1300) for r in ranks for dim in (1, 4, 5) for f in (('values',), FIELDS, FIELDS[1:])
              for cls, lay in (('sample_set', 'c'), ('voronoi_sample_set', 'fortran'), ('rectangle_sample_set', 'strided'), ('sample_set', 'float32'), ('ball_sample_set', 'int'))]
    ctx.shards(items, case_set)
    items = [(k, m, dim, r) for k in ('rectangle', 'ball', 'cartesian') for m in tuple(range(2, 8 if T else 6)) + (13,) for dim in (1, 2, 3, 4) for r in ranks]
    ctx.shards(items, case_cells)
    opt = SETS[2:]
    pres = [c for k in range(0, 5) for c in itertools.combinations(opt, k)]
    words = [w for k in range(1, (4 if T else 3) + 1) for w in itertools.product(('split', 'gather', 'local', 'global', 'prob'), repeat=k)]
    items = [(n, r, p, w) for n in ((1, 2, 3, 5, 19) if T else (1, 3, 19)) for r in ((1, 2, 3, 4) if T else (1, 2, 3)) for p in pres for w in words]
    items += [(n, r, p, u + ('more',) + w) for n in (1, 3) for r in (1, 2, 3) for p in (pres[0], pres[-1]) for u in [()] + [(o,) for o in ('split', 'gather', 'local', 'global', 'prob')] for w in words if len(w) < 3]
    ctx.shards(items, case_disc)
