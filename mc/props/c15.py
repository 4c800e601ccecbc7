"""Inconsistent shapes and lengths are always rejected."""
import itertools

import numpy as np

from mc.build import make_set, make_disc, snap_disc, diff
from mc.core import require, expect_error
from mc.fakempi import run_ranks

RULE = ('every pair (and triple) of per-sample arrays with every assignment of lengths, global and local, on every process count; every shape of values, domain, reference value and set-up data; '
        'every pair of set dimensions and sample counts in a discretization, every order of setting them; oracle: consistent iff all lengths / dimensions agree')
BOUNDS = {'quick': {'lengths': '1..3 (selected: 64)', 'dims': '1..3 (selected: 8)', 'ranks': '1..3 (selected: 8)', 'arrays': 'all pairs and triples of 8'},
          'thorough': {'lengths': '0..4', 'dims': '1..4', 'ranks': '1..4', 'arrays': 'all pairs, triples and quadruples of 8'}}

ARR = ('values', 'volumes', 'probabilities', 'densities', 'jacobians', 'error_estimates', 'region', 'error_id')


def data(name, k, dim):
    if name == 'values' or name == 'error_estimates':
        return np.arange(k * dim, dtype=float).reshape(k, dim) * 0.1
    if name == 'jacobians':
        return np.arange(k * 2 * dim, dtype=float).reshape(k, 2, dim)
    if name == 'region':
        return np.arange(k)
    return np.arange(k) * 0.25


def p_lens(rank, cls, dim, names, lens, form):
    import bet.sample as samp
    s = getattr(samp, cls)(dim)
    for nm, k in zip(names, lens):
        k = k[rank] if isinstance(k, tuple) else k
        getattr(s, 'set_' + nm + ('_local' if form == 'local' else ''))(data(nm, k, dim))
    own = [k[rank] if isinstance(k, tuple) else k for k in lens]
    ok = len(set(own)) == 1
    if form == 'global':
        if ok:
            require(s.check_num() == own[0], 'check_num is %s, expected %d', s.check_num(), own[0])
        else:
            expect_error(s.check_num, 'lengths %s' % (own,), (samp.length_not_matching,))
        return True
    if ok:
        require(s.check_num_local() == own[0], 'check_num_local is %s, expected %d', s.check_num_local(), own[0])
    else:
        expect_error(s.check_num_local, 'local lengths %s' % (own,), (samp.length_not_matching,))
    allok = all(len({k[r] if isinstance(k, tuple) else k for k in lens}) == 1 for r in range(run_size(lens)))
    if allok:
        tot = sum(lens[0]) if isinstance(lens[0], tuple) else lens[0]
        require(s.check_num() == tot, 'check_num of local data is %s, expected %d', s.check_num(), tot)
    return True


def run_size(lens):
    return len(lens[0]) if isinstance(lens[0], tuple) else 1


def run_lens(ctx, item):
    cls, dim, names, lens, form = item

    def go():
        run_ranks(run_size(lens), p_lens, (cls, dim, names, lens, form)).values()
        ctx.step(run_size(lens) * len(names))
    ctx.case('lengths', dict(cls=cls, dim=dim, names=names, lens=lens, form=form), go)


def run_shape(ctx, item):
    what, dim, shape, form = item

    def go():
        import bet.sample as samp
        s = samp.sample_set(dim)
        x = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
        if what in ('values', 'values_local'):
            a, b = shape if len(shape) == 2 else (shape[0], 1)
            f = lambda: getattr(s, 'set_' + what)(x.tolist() if form == 'list' else x)
            if b == dim or a == dim:
                f()
                v = np.array(getattr(s, 'get_' + what)())
                want = x.reshape(a, b) if b == dim else x.reshape(a, b).T
                require(v.shape == want.shape and np.array_equal(v, want), 'values stored as %s, given %s', v.tolist(), x.tolist())
                n = s.check_num() if what == 'values' else s.check_num_local()
                require(n == want.shape[0], 'number of samples %s', n)
            else:
                expect_error(f, '%s of shape %s in dimension %d' % (what, shape, dim), (samp.dim_not_matching,))
        elif what in ('append', 'append_local'):
            loc = '_local' if what == 'append_local' else ''
            base = np.arange(2 * dim, dtype=float).reshape(2, dim) + 50
            getattr(s, 'set_values' + loc)(base.copy())
            a, b = shape if len(shape) == 2 else (shape[0], 1)
            f = lambda: getattr(s, 'append_values' + loc)(x)
            if b == dim or a == dim:
                f()
                want = np.concatenate((base, x.reshape(a, b) if b == dim else x.reshape(a, b).T))
                v = np.array(getattr(s, 'get_values' + loc)())
                require(np.array_equal(v, want), 'appended to %s, expected %s', v.tolist(), want.tolist())
            else:
                expect_error(f, '%s of shape %s in dimension %d' % (what, shape, dim))
                v = np.array(getattr(s, 'get_values' + loc)())
                require(np.array_equal(v, base), 'a rejected append changed the values to %s', v.tolist())
        elif what == 'domain':
            f = lambda: s.set_domain(x)
            if shape == (dim, 2):
                f()
                require(np.array_equal(s.get_domain(), x), 'domain')
            else:
                expect_error(f, 'domain of shape %s in dimension %d' % (shape, dim))
                require(s.get_domain() is None, 'rejected domain was stored')
        elif what == 'reference':
            f = lambda: s.set_reference_value(x)
            if shape == (dim,):
                f()
                require(np.array_equal(s.get_reference_value(), x), 'reference')
            else:
                expect_error(f, 'reference of shape %s in dimension %d' % (shape, dim), (samp.dim_not_matching,))
                require(s.get_reference_value() is None, 'rejected reference was stored')
        ctx.step(2)
    ctx.case('shape', dict(what=what, dim=dim, shape=shape, form=form), go)


def run_setup(ctx, item):
    kind, dim, lens, dims = item

    def go():
        import bet.sample as samp
        if kind == 'rectangle':
            mx = [[1.0 + i] * d for i, d in enumerate(dims[0])]
            mn = [[0.0 + i] * d for i, d in enumerate(dims[1])]
            s = samp.rectangle_sample_set(dim)
            ok = len(mx) == len(mn) and all(d == dim for d in dims[0] + dims[1])
            f = lambda: s.setup(maxes=mx, mins=mn)
            n = len(mx) + 1
        elif kind == 'ball':
            s = samp.ball_sample_set(dim)
            ok = len(dims[0]) == lens and all(d == dim for d in dims[0])
            f = lambda: s.setup([[1.0 * i] * d for i, d in enumerate(dims[0])], [0.5] * lens)
            n = lens + 1
        else:
            s = samp.cartesian_sample_set(dim)
            ok = len(lens) == dim
            f = lambda: s.setup([np.linspace(0, 1, k) for k in lens])
            n = int(np.prod([k - 1 for k in lens])) + 1
        if ok:
            f()
            require(s.check_num() == n, '%s set-up reports %s samples, expected %d', kind, s.check_num(), n)
        else:
            expect_error(f, '%s set-up with lengths %s, %s' % (kind, lens, dims), (samp.length_not_matching, samp.dim_not_matching))
        ctx.step()
    ctx.case('setup', dict(kind=kind, dim=dim, lens=lens, dims=dims), go)


def p_build(rank, n1, n2, h1, h2):
    import bet.sample as samp

    def mk(n, h, dim):
        s = samp.sample_set(dim)
        if h == 'none':
            return s
        if h == 'global':
            s.set_values(data('values', n, dim))
        else:
            from bet.Comm import comm
            s.set_values_local(np.array_split(data('values', n, dim), comm.size)[comm.rank].copy())
            if h == 'both':
                s.local_to_global()
        return s
    f = lambda: samp.discretization(mk(n1, h1, 2), mk(n2, h2, 1))
    if n1 == n2 or 'none' in (h1, h2):
        d = f()
        if n1 == n2 and 'none' not in (h1, h2):
            require(d.check_nums() == n1, 'discretization reports %s samples, expected %d', d.check_nums(), n1)
        return True
    expect_error(f, 'discretization of %d inputs (%s) and %d outputs (%s)' % (n1, h1, n2, h2), (samp.length_not_matching,))
    return True


def run_build(ctx, item):
    n1, n2, h1, h2, size = item

    def go():
        run_ranks(size, p_build, (n1, n2, h1, h2)).values()
        ctx.step(size)
    ctx.case('build', dict(inputs=n1, outputs=n2, hold=[h1, h2], ranks=size), go)


def run_late(ctx, item):
    """Samples replaced after the discretization was built: the next check reports it."""
    which, k, n = item

    def go():
        import bet.sample as samp
        d = make_disc((), False, n=n)
        s = d.get_input_sample_set() if which == 'input' else d.get_output_sample_set()
        s.set_values(data('values', k, 2))
        if k == n:
            require(d.check_nums() == n, 'number of samples')
        else:
            expect_error(d.check_nums, '%d of %d samples' % (k, n), (samp.length_not_matching,))
        ctx.step(2)
    ctx.case('late', dict(which=which, k=k, n=n), go)


KIN = {'emulated_input': ('input',), 'output_probability': ('output', 'emulated_output'), 'emulated_output': ('output', 'output_probability')}
NAME = {'input': 'input_sample_set', 'output': 'output_sample_set', 'emulated_input': 'emulated_input_sample_set', 'emulated_output': 'emulated_output_sample_set',
        'output_probability': 'output_probability_set'}


def run_word(ctx, item):
    """Every sequence of component replacements with every dimension; model = accepted dimensions."""
    din, dout, word, loc, pre = (tuple(item) + ((),))[:5]

    def go():
        import bet.sample as samp
        try:
            d = samp.discretization(make_set('sample_set', 3, din) if din else None, make_set('sample_set', 3, dout) if dout else None,
                                    **{NAME[k]: make_set('sample_set', 3, m, ('probabilities',)) for k, m in pre})
        except samp.dim_not_matching:
            if pre:
                return       # refused from the start
            raise
        if loc:
            d.global_to_local()
        dims = {k: v for k, v in (('input', din), ('output', dout)) + tuple(pre) if v}
        for comp, dim in word:
            s = make_set('sample_set', 3, dim, ('probabilities',))
            ok = all(dims.get(k, dim) == dim for k in KIN[comp])
            before = snap_disc(d)
            f = lambda: getattr(d, 'set_' + NAME[comp])(s)
            if ok:
                f()
                require(getattr(d, 'get_' + NAME[comp])() is s, '%s not stored', comp)
                dims[comp] = dim
            else:
                expect_error(f, '%s of dimension %d next to %s' % (comp, dim, dims), (samp.dim_not_matching,))
                x = diff(before, snap_disc(d))
                require(not x, 'rejected %s changed %s', comp, x)
            ctx.step()
        for comp in NAME:
            before = snap_disc(d)
            for bad in (None, 3, np.zeros((2, 2)), 'set'):
                expect_error(lambda: getattr(d, 'set_' + NAME[comp])(bad), '%s = %r' % (comp, bad), (AttributeError, TypeError))
                x = diff(before, snap_disc(d))
                require(not x, 'rejected %s changed %s', comp, x)
                ctx.step()
    ctx.case('dims', dict(din=din, dout=dout, word=word, local=loc, given=pre), go)


def run(ctx):
    T = ctx.thorough
    L = (0, 1, 2, 3, 4) if T else (1, 2, 3)
    D = (1, 2, 3, 4) if T else (1, 2, 3)
    items = []
    for cls in ('sample_set', 'voronoi_sample_set'):
        for form in ('global', 'local'):
            for dim in D[:3]:
                for names in [(a,) for a in ARR] + list(itertools.combinations(ARR, 2)) + list(itertools.combinations(ARR, 3)) + (list(itertools.combinations(ARR, 4)) if T and dim == 2 else []):
                    for lens in itertools.product(L if len(names) < 3 else L[1:3], repeat=len(names)):
                        if dim != 2 and len(names) == 3 and not T:
                            continue
                        items.append((cls, dim, names, lens, form))
    for size in (2, 3, 4) if T else (2, 3):
        comps = list(itertools.product((0, 1, 2), repeat=size))
        for names in [(a,) for a in ARR] + [('values', b) for b in ARR[1:]] + [('probabilities', 'jacobians')]:
            for c1 in comps:
                for c2 in (comps if T and size < 4 else comps[::2]) if len(names) == 2 else [None]:
                    lens = (c1,) if c2 is None else (c1, c2)
                    items.append(('sample_set', 2, names, lens, 'local'))
    for form in ('global', 'local'):
        for dim in (2, 5, 8):
            for names in itertools.combinations(ARR, 2):
                for lens in ((17, 17), (40, 39), (12, 13), (64, 1)):
                    items.append(('sample_set', dim, names, lens, form))
            for odd in ARR:
                items.append(('sample_set', dim, ARR, tuple(25 + (a == odd) for a in ARR), form))
                items.append(('sample_set', dim, ARR, tuple(25 - (a == odd) for a in ARR), form))
            items.append(('sample_set', dim, ARR, (33,) * len(ARR), form))
    for c1, c2 in (((5,) * 8, (5,) * 8), ((0, 9, 0, 4, 1, 1, 1, 20), (0, 9, 0, 4, 1, 1, 1, 20)), ((0, 9, 0, 4, 1, 1, 1, 20), (0, 9, 0, 4, 1, 1, 1, 21)), ((3, 4, 5, 6), (4, 3, 5, 6))):
        for b in ARR[1:]:
            items.append(('sample_set', 4, ('values', b), (c1, c2), 'local'))
    ctx.shards(items, run_lens)
    items = []
    R = range(1, 6 if T else 5)
    for dim in D:
        for what in ('values', 'values_local', 'append', 'append_local', 'domain', 'reference'):
            for sh in [(a,) for a in R] + [(a, b) for a in R for b in R]:
                if what == 'reference' or what == 'domain' or True:
                    for form in ('array', 'list') if what.startswith('values') else ('array',):
                        items.append((what, dim, sh, form))
    for dim in (5, 6, 8):
        for what in ('values', 'values_local', 'append', 'append_local', 'domain', 'reference'):
            for sh in [(dim,), (dim - 1,), (dim + 1,), (17, dim), (dim, 17), (17, dim - 1), (17, dim + 1), (dim - 1, 17), (dim, 2), (dim + 1, 2), (dim - 1, 2), (1, dim), (dim, 1), (40, 3)]:
                items.append((what, dim, sh, 'array'))
    ctx.shards(items, run_shape)
    items = []
    for dim in D[:3]:
        for k1 in (1, 2, 3):
            for k2 in (1, 2, 3):
                for d1 in itertools.product(D[:3], repeat=k1):
                    for d2 in itertools.product(D[:3], repeat=k2):
                        if sum(x != dim for x in d1 + d2) <= 1:
                            items.append(('rectangle', dim, None, (d1, d2)))
                    items.append(('ball', dim, k2, (d1,)))
        for k in (1, 2, 3, 4):
            for ls in itertools.product((2, 3, 4), repeat=k):
                items.append(('cartesian', dim, ls, None))
    ctx.shards(items, run_setup)
    H = ('global', 'local', 'both', 'none')
    ctx.shards([(a, b, h1, h2, size) for a, b in ((17, 17), (17, 16), (16, 17), (40, 39), (33, 33), (1, 33)) for h1 in H for h2 in H for size in (1, 5, 8)], run_build)
    ctx.shards([(a, b, h1, h2, size) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4) for h1 in H for h2 in H for size in ((1, 2, 3, 4) if T else (1, 2, 3))], run_build)
    ctx.shards([(w, k, n) for w in ('input', 'output') for k in (1, 2, 3, 4, 5) for n in (2, 3, 4)], run_late)
    letters = [(c, d) for c in KIN for d in (1, 2, 3)]
    items = [(a, b, w, loc) for a in (1, 2) for b in (1, 2, 3) for k in range(1, 4 if T else 3) for w in itertools.product(letters, repeat=k) for loc in (False, True)]
    items += [(a, b, w, False) for a, b in ((1, None), (2, None)) for k in range(1, 4 if T else 3) for w in itertools.product(letters, repeat=k)]
    for din, dout, pre in itertools.product((1, 2), (0, 1, 2), [((a, m),) for a in KIN for m in (1, 2, 3)]):
        for comp, dim in itertools.product(KIN, (1, 2, 3)):
            items.append((din, dout, ((comp, dim),), False, pre))
    ctx.shards(items, run_word)
