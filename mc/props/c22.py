"""Sampling designs cover the domain as designed."""
import copy
import itertools

import numpy as np

from mc.build import concat_local, snap_set, diff
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('every combination of design, dimension, per-dimension count or total, kind and content of the object passed in, globalize flag, process count and generator seed from a list; oracle: grid of cell centres, '
        'one sample per slice of every coordinate, count and support of every coordinate (distinct supports per coordinate), stored initial measure')
BOUNDS = {'quick': {'dims': '1..3 (selected: 4..6)', 'counts per dim': '1..4 (selected: up to 64)', 'samples': '1..9 (selected: up to 50)', 'ranks': '1..4 (selected: 8)', 'seeds': 2},
          'thorough': {'dims': '1..4', 'counts per dim': '1..5', 'samples': '1..16', 'ranks': '1..6', 'seeds': 6}}
ASSUMPTIONS = ['the correlation criterion is excluded: the installed pyDOE returns no design for it', 'distributions: the support and location of every coordinate is checked for enumerated generator seeds, not the convergence in law']

DOM = np.array([[-3.0, -1.0], [0.5, 0.75], [10.0, 20.0], [100.0, 101.0], [-4e-6, 2e-6], [-5e4, 7e5]])


ALT = np.array([[-5e9, 7e9], [1e-12, 3e-12], [-2.5e7, -2.4e7], [0.0, 1e-15], [3e15, 4e15], [-1.0, 1e-3]])


def dom_of(dim, dom, form='set'):
    """The domain a design should use."""
    if form == 'int' or not (dom or form == 'array'):
        return np.array([[0.0, 1.0]] * dim)
    return (ALT if dom == 'alt' else DOM)[:dim]


def obj_of(form, dim, dom):
    """Object handed to a design; returns (object, domain it should use)."""
    import bet.sample as samp
    D = dom_of(dim, dom).copy() if dom else None
    if form == 'int':
        return dim, None
    if form == 'array':
        return dom_of(dim, dom, form).copy(), dom_of(dim, dom, form)
    s = samp.sample_set(dim)
    if dom:
        s.set_domain(D)
    if form == 'labelled':
        s.set_labels(['x%d' % i for i in range(dim)])
        s.set_p_norm(1.0)
        s.set_reference_value(np.arange(dim) + 0.25)
    if form == 'used':        # already holds another design, distributed
        s.set_values(np.tile(np.linspace(0.1, 0.9, 5).reshape(-1, 1), (1, dim)))
        s.global_to_local()
    return s, D


def observe(out):
    out_g = out.get_values()
    return dict(cls=type(out).__name__, dim=out.get_dim(), g=None if out_g is None else np.array(out_g), l=np.array(out.get_values_local()), dom=np.array(out.get_domain()),
                n=out.check_num() if out_g is not None else None, nl=out.check_num_local(), pt=out.get_prob_type_init(), pp=out.get_prob_parameters_init(),
                desc=(out.get_p_norm(), None if out.get_labels() is None else list(out.get_labels()), None if out.get_reference_value() is None else np.array(out.get_reference_value()).ravel().tolist()))


def merge(rs, n, dim, glob, what):
    """Checks common to all designs; returns all samples."""
    loc = concat_local([r['l'].reshape(-1, dim) for r in rs])
    require(loc.shape == (n, dim), '%s: %s samples over all processes, requested %s', what, loc.shape, (n, dim))
    ls = [len(r['l']) for r in rs]
    require(max(ls) - min(ls) <= 1 or not glob, '%s: samples per process %s', what, ls)
    for r in rs:
        require(r['dim'] == dim, '%s: dimension %s', what, r['dim'])
        require(r['nl'] == len(r['l']), '%s: local count', what)
        if glob:
            require_close(r['g'], loc, '%s: global samples vs the samples of all processes' % what, 0)
            require(r['n'] == n, '%s: count %s', what, r['n'])
        else:
            require(r['g'] is None, '%s: global samples although not asked for', what)
        require_close(r['dom'], rs[0]['dom'], what + ': domain of different processes', 0)
    return loc


# ---- regular -------------------------------------------------------------------------

def p_reg(rank, form, dim, dom, counts, how, via):
    import bet.sampling.basicSampling as bs
    obj, _ = obj_of(form, dim, dom)
    arg = {'list': list(counts), 'tuple': tuple(counts), 'array': np.array(counts), 'int': counts[0], 'float': np.array(counts, float)}[how]
    before = None if form in ('int', 'array') else snap_set(obj)
    if via == 'sampler':
        sm = bs.sampler(None)
        out = sm.regular_sample_set(obj, arg)
        require(sm.input_sample_set is out, 'the sampler does not hold the design')
    else:
        out = bs.regular_sample_set(obj, arg)
    if before is not None:
        z = diff(before, snap_set(obj))
        require(not z, 'the object handed in was changed in %s', z)
    require(out.get_prob_type_init() == 'grid', 'stored kind of the design %r', out.get_prob_type_init())
    return observe(out)


def described(r, form, dim):
    if form == 'labelled':
        want = (1.0, ['x%d' % i for i in range(dim)], [i + 0.25 for i in range(dim)])
        require(r['desc'] == want, 'norm, labels and reference value %s, expected %s', r['desc'], want)


def independent(v, what):
    z = (v - v.mean(0)) / v.std(0)
    for i in range(v.shape[1]):
        for j in range(i):
            c = float(np.mean(z[:, i] * z[:, j]))
            require(abs(c) <= 6.5 / np.sqrt(len(v)), '%s: coordinates %d and %d are correlated, %r', what, i, j, c)


def run_reg(ctx, item):
    form, dim, dom, counts, how, via, size = item

    def go():
        rs = run_ranks(size, p_reg, (form, dim, dom, counts, how, via)).values()
        n = int(np.prod(counts))
        vals = merge(rs, n, dim, True, 'regular')
        D = dom_of(dim, dom, form)
        for r in rs:
            require_close(r['dom'], D, 'domain', 0)
            require(np.array_equal(np.ravel(r['pp']) * np.ones(dim), counts), 'stored counts %s', r['pp'])
            described(r, form, dim)
        ax = [D[i, 0] + (np.arange(counts[i]) + 0.5) * (D[i, 1] - D[i, 0]) / counts[i] for i in range(dim)]
        want = np.array(list(itertools.product(*ax)))
        w = D[:, 1] - D[:, 0]
        a = np.array(sorted(map(tuple, np.round((vals - D[:, 0]) / w, 9))))
        b = np.array(sorted(map(tuple, np.round((want - D[:, 0]) / w, 9))))
        require_close(a, b, 'samples of the regular design', 1e-7)
        ctx.step(n)
    ctx.case('regular', dict(form=form, dim=dim, dom=dom, counts=counts, how=how, via=via, ranks=size), go)


# ---- Latin hypercube -----------------------------------------------------------------

def p_lhs(rank, form, dim, dom, n, crit, glob, via, seed):
    np.random.seed(1000 * seed + rank)
    import bet.sampling.basicSampling as bs
    obj, _ = obj_of(form, dim, dom)
    if via == 'sampler':
        sm = bs.sampler(None)
        out = sm.lhs_sample_set(obj, n, crit, glob)
        require(sm.input_sample_set is out, 'the sampler does not hold the design')
    elif via == 'random':
        out = bs.random_sample_set('lhs', obj, n, glob)
    else:
        out = bs.lhs_sample_set(obj, n, crit, glob)
    require(form in ('int', 'array') or out is obj, 'the set handed in does not hold the design')
    pp = out.get_prob_parameters_init()
    require(out.get_prob_type_init() == 'lhs' and pp == ('center' if via == 'random' else crit), 'stored kind of the design %r %r', out.get_prob_type_init(), pp)
    return observe(out)


def run_lhs(ctx, item):
    form, dim, dom, n, crit, glob, via, size, seed = item

    def go():
        rs = run_ranks(size, p_lhs, (form, dim, dom, n, crit, glob, via, seed)).values()
        vals = merge(rs, n, dim, glob, 'lhs')
        D = dom_of(dim, dom, form)
        for r in rs:
            require_close(r['dom'], D, 'domain', 0)
            described(r, form, dim)
        if n >= 1000 and dim > 1:
            independent(vals, 'lhs')
        for d in range(dim):
            x = (vals[:, d] - D[d, 0]) / (D[d, 1] - D[d, 0]) * n
            require(np.all(x >= -1e-9) and np.all(x <= n + 1e-9), 'coordinate %d outside the domain: %s', d, vals[:, d].tolist())
            if crit in ('center', 'centermaximin') or via == 'random':
                require_close(np.sort(x), np.arange(n) + 0.5, 'slices of coordinate %d' % d, 1e-9)
            else:
                k = np.clip(np.floor(x), 0, n - 1)
                require(sorted(k.tolist()) == list(range(n)), 'coordinate %d occupies the slices %s of %d', d, sorted(k.tolist()), n)
        ctx.step(n)
    ctx.case('lhs', dict(form=form, dim=dim, dom=dom, n=n, crit=crit, glob=glob, via=via, ranks=size, seed=seed), go)


# ---- random --------------------------------------------------------------------------

def rv_of(name, dim):
    """(rv argument, support per coordinate or None when taken from the domain)."""
    if name in ('r', 'random', 'uniform'):
        return name, None
    if name == 'one':
        return ['uniform', {'loc': 5.0, 'scale': 0.5}], [(5.0, 5.5)] * dim
    if name == 'tuple':
        return ('uniform', {'loc': 5.0, 'scale': 0.5}), [(5.0, 5.5)] * dim
    if name == 'each':
        return [['uniform', {'loc': 10.0 * i, 'scale': 1.0 + i}] for i in range(dim)], [(10.0 * i, 10.0 * i + 1 + i) for i in range(dim)]
    if name == 'mixed':
        t = [['norm', {'loc': -50.0, 'scale': 0.01}], ['beta', {'a': 2, 'b': 5, 'loc': 4.0, 'scale': 3.0}], ['uniform', {'loc': 30.0, 'scale': 2.0}], ['expon', {'loc': 60.0}], ['uniform', {'loc': -1e-5, 'scale': 2e-5}], ['triang', {'c': 0.25, 'loc': 1e4, 'scale': 5e3}]]
        return t[:dim], [(-50.2, -49.8), (4.0, 7.0), (30.0, 32.0), (60.0, 110.0), (-1e-5, 1e-5), (1e4, 1.5e4)][:dim]
    raise ValueError(name)


SUPPORT = {'mixed': [(-np.inf, np.inf), (4.0, 7.0), (30.0, 32.0), (60.0, np.inf), (-1e-5, 1e-5), (1e4, 1.5e4)]}


def p_rand(rank, name, form, dim, dom, n, glob, via, seed):
    np.random.seed(1000 * seed + rank)
    import bet.sampling.basicSampling as bs
    obj, _ = obj_of(form, dim, dom)
    rv, _ = rv_of(name, dim)
    kept = copy.deepcopy(rv)
    if via == 'sampler':
        sm = bs.sampler(None)
        out = sm.random_sample_set(rv, obj, n, glob)
        require(sm.input_sample_set is out, 'the sampler does not hold the design')
    else:
        out = bs.random_sample_set(rv, obj, n, glob)
    require(rv == kept, 'the distributions handed in were changed to %s', rv)
    require(form in ('int', 'array') or out is obj, 'the set handed in does not hold the design')
    r = observe(out)
    if via == 'sampler' and not glob:
        sm.local_to_global()
        g = out.get_values()
        require(g is not None and np.shape(g) == (n, dim), 'design gathered by the sampler: %s', np.shape(g))
        require(out.check_num() == n, 'number of gathered samples')
    r['pdf'] = np.array(out.pdf_init(np.array([[0.5 * (a + b) for a, b in r['dom']]]))) if np.all(np.isfinite(r['dom'])) else None
    return r


def run_rand(ctx, item):
    name, form, dim, dom, n, glob, via, size, seed = item

    def go():
        rs = run_ranks(size, p_rand, (name, form, dim, dom, n, glob, via, seed)).values()
        vals = merge(rs, n, dim, glob, 'random')
        sup = rv_of(name, dim)[1]
        full = SUPPORT.get(name, sup)
        if sup is None:
            D = dom_of(dim, dom, form)
            sup = full = [tuple(x) for x in D]
        require_close(rs[0]['dom'], np.array(full[:dim]), 'domain of the design', 1e-12)
        for d in range(dim):
            require(np.all(vals[:, d] >= sup[d][0]) and np.all(vals[:, d] <= sup[d][1]), 'coordinate %d outside its support %s: %s', d, sup[d], vals[:, d].tolist())
        require(len(np.unique(vals)) == vals.size, 'repeated values %s', vals.tolist())
        if n >= 1000:
            independent(vals, 'random')
            if name not in ('mixed',):
                for d in range(dim):
                    z = (vals[:, d] - sup[d][0]) / (sup[d][1] - sup[d][0])
                    for k in (1, 2, 3):
                        require(abs(np.mean(z ** k) - 1 / (k + 1)) <= 6 * np.std(z ** k) / np.sqrt(n), 'moment %d of coordinate %d is %r', k, d, np.mean(z ** k))
        for r in rs:
            described(r, form, dim)
            require(r['pt'] == 'rv' and len(r['pp']) == dim, 'stored initial measure %s %s', r['pt'], r['pp'])
            if r['pdf'] is not None and name != 'mixed':
                require_close(r['pdf'], np.array([1.0 / np.prod([b - a for a, b in sup])]), 'initial density', 1e-9)
        ctx.step(n)
    ctx.case('random', dict(rv=name, form=form, dim=dim, dom=dom, n=n, glob=glob, via=via, ranks=size, seed=seed), go)


def run_lp(ctx, item):
    dim, p, scale, loc, which, seed = item

    def go():
        import bet.sampling.LpGeneralizedSamples as lp
        np.random.seed(seed)
        n = 20000
        lo = None if loc is None else np.arange(dim) * 3.0 + loc
        P = np.inf if p == 'inf' else p
        f = lp.Lp_generalized_uniform if which == 'uniform' else lp.Lp_generalized_beta
        vec = scale == 'each'        # one radius per coordinate
        sv = 0.5 + np.arange(dim) * 2.0
        x = f(dim, n, P, scale=sv if vec else scale, loc=lo)
        require(x.shape == (n, dim), 'shape %s', x.shape)
        y = x if lo is None else x - lo
        if vec:
            y = y / sv
        unit = 1.0 if vec else scale
        r = np.linalg.norm(y, ord=P, axis=1) / unit
        require(np.all(r <= 1 + 1e-9), 'samples outside the ball: %s', r.max())
        h = np.mean(r <= 0.5)
        if which == 'uniform':
            for k in (1, 2, 4):     # the radius of a point of the ball
                require(abs(np.mean(r ** k) - dim / (dim + k)) <= 6 * np.std(r ** k) / np.sqrt(n), 'moment %d of the radius is %r, expected %r', k, np.mean(r ** k), dim / (dim + k))
            require(abs(h - 0.5 ** dim) < 0.11, 'fraction of samples in the half ball is %s, volume fraction %s', h, 0.5 ** dim)
        for d in range(dim):
            require(abs(np.mean(y[:, d] > 0) - 0.5) < 0.11, 'coordinate %d is lopsided', d)
        if p != 'inf':      # moments of the law on the ball, six standard deviations
            a = 1.0 / p
            A, B = dim * a, (1.0 if which == 'uniform' else 2.0 * a)
            for k, want in ((1, a / (A + B)), (2, a * (a + 1) / ((A + B) * (A + B + 1)))):
                for d in range(dim):
                    z = np.abs(y[:, d] / unit) ** (k * p)
                    require(abs(z.mean() - want) <= 6 * z.std() / np.sqrt(n) + 1e-12, 'moment %d of coordinate %d is %r, expected %r', k * p, d, z.mean(), want)
            if which == 'beta':
                for dd in (1.0, 3.5):
                    z = np.linalg.norm(lp.Lp_generalized_beta(dim, n, P, d=dd, scale=sv if vec else scale) / (sv if vec else scale), ord=P, axis=1) ** p
                    require(abs(z.mean() - dim / (dim + dd)) <= 6 * z.std() / np.sqrt(n), 'shape %r: mean radius %r', dd, z.mean())
            else:
                ns = sv if vec else np.ones(dim)
                z = lp.Lp_generalized_normal(dim, n, P, loc=lo, **({'scale': sv} if vec else {}))
                require(z.shape == (n, dim), 'shape %s', z.shape)
                z = z if lo is None else z - lo
                for d in range(dim):
                    t = np.abs(z[:, d]) ** p / ns[d]
                    require(abs(t.mean() - a) <= 6 * t.std() / np.sqrt(n), 'normal: moment %r of coordinate %d is %r', p, d, t.mean())
                    require(abs(np.mean(z[:, d] > 0) - 0.5) < 0.03, 'normal: coordinate %d is lopsided', d)
        ctx.step(n)
    ctx.case('lp', dict(dim=dim, p=p, scale=scale, loc=loc, which=which, seed=seed), go)


def run_bad(ctx, item):
    def go():
        import bet.sample as samp
        import bet.sampling.basicSampling as bs
        for dim in (1, 2, 3):
            s = samp.sample_set(dim)
            for k in (1, 2, 3, 4):
                if k != dim:
                    expect_error(lambda: bs.random_sample_set([['uniform', {}]] * k, s, 3), '%d distributions in dimension %d' % (k, dim), (samp.dim_not_matching,))
                    ctx.step()
            expect_error(lambda: bs.random_sample_set(3, s, 3), 'distribution 3', (samp.wrong_input,))
            for bad in ('x', None, 2.5, [1, 2]):
                expect_error(lambda: bs.random_sample_set('r', bad, 3), 'object %r' % (bad,), (samp.wrong_input,))
                expect_error(lambda: bs.regular_sample_set(bad, 3), 'object %r' % (bad,), (bs.bad_object,))
                expect_error(lambda: bs.lhs_sample_set(bad, 3, 'center'), 'object %r' % (bad,))
                ctx.step(3)
    ctx.case('bad', item, go)


def run(ctx):
    T = ctx.thorough
    R = 6 if T else 4
    seeds = range(1, 7) if T else (ctx.seed, ctx.seed + 1)
    FORMS = (('int', False), ('array', True), ('set', False), ('set', True), ('labelled', True), ('used', True))
    items = []
    k = 0
    for dim in (1, 2, 3, 4) if T else (1, 2, 3):
        for counts in itertools.product(range(1, 6 if T and dim < 3 else 5 if dim < 3 else 4), repeat=dim):
            for form, dom in FORMS:
                k += 1
                if dim >= 3 and k % (5 if dim == 3 else 17):
                    continue
                how = ('list', 'tuple', 'array', 'float')[k % 4]
                items.append((form, dim, dom, counts, how, 'sampler' if k % 3 == 0 else 'fn', 1 + (k // 3) % R))
                if len(set(counts)) == 1:
                    items.append((form, dim, dom, counts, 'int', 'fn', 1 + k % R))
    for dim, counts in ((1, (17,)), (1, (64,)), (2, (7, 11)), (2, (16, 3)), (3, (5, 2, 6)), (4, (2, 3, 1, 4)), (4, (1, 2, 5, 2)), (5, (2, 1, 3, 2, 2)), (6, (1, 2, 2, 3, 1, 2)), (6, (2, 2, 2, 2, 2, 2)), (4, (3, 3, 3, 3)), (3, (12, 10, 11)), (1, (1500,)), (2, (200, 190)), (3, (40, 33, 30))):
        for form, dom in FORMS:
            k += 1
            if dom and k % 2:
                items.append((form, dim, 'alt', counts, ('list', 'tuple', 'array', 'float')[k % 4], 'fn', 1 + k % R))
            items.append((form, dim, dom, counts, ('list', 'tuple', 'array', 'float')[k % 4], 'sampler' if k % 3 == 0 else 'fn', 1 + k % 7))
            if len(set(counts)) == 1:
                items.append((form, dim, dom, counts, 'int', 'fn', 1 + k % R))
    ctx.shards(items, run_reg)
    items = []
    for dim in (1, 2, 3):
        for n in range(1, 17 if T else 10):
            for crit in (None, 'center', 'maximin', 'centermaximin'):
                if crit in ('maximin', 'centermaximin') and n < 2:
                    continue
                for size in range(1, R + 1):
                    for seed in seeds:
                        k += 1
                        form, dom = FORMS[k % 6]
                        items.append((form, dim, dom, n, crit, bool(k % 4), ('fn', 'sampler', 'random')[k % 3] if crit == 'center' else 'fn', size, seed))
    for dim, n, size in ((4, 6, 2), (5, 9, 3), (6, 4, 1), (1, 40, 3), (2, 33, 5), (3, 50, 4), (4, 17, 8), (6, 23, 7), (2, 3, 8), (3, 1300, 3)):
        for crit in (None, 'center', 'maximin', 'centermaximin') if n < 1000 else (None, 'center'):
            for form, dom in FORMS + (('set', 'alt'), ('array', 'alt')):
                k += 1
                items.append((form, dim, dom, n, crit, bool(k % 4), ('fn', 'sampler', 'random')[k % 3] if crit == 'center' else 'fn', size, seeds[k % len(seeds)]))
    ctx.shards(items, run_lhs)
    items = []
    for name in ('r', 'random', 'uniform', 'one', 'tuple', 'each', 'mixed'):
        for dim in (1, 2, 3, 4) if T else (1, 2, 3):
            for n in range(1, 17 if T else 10):
                for size in range(1, R + 1):
                    for seed in seeds:
                        k += 1
                        form, dom = FORMS[(k + k // 7) % 6]
                        items.append((name, form, dim, dom, n, bool(k % 3), 'sampler' if k % 4 == 0 else 'fn', size, seed))
    for name in ('r', 'random', 'uniform', 'one', 'tuple', 'each', 'mixed'):
        for dim, n, size in ((4, 6, 2), (5, 9, 3), (6, 4, 1), (1, 40, 3), (2, 33, 5), (3, 50, 4), (4, 17, 8), (6, 23, 7), (2, 3, 8), (3, 2100, 3)):
            for form, dom in FORMS + ((('set', 'alt'), ('array', 'alt')) if rv_of(name, dim)[1] is None else ()):
                k += 1
                items.append((name, form, dim, dom, n, bool(k % 3), 'sampler' if k % 4 == 0 else 'fn', size, seeds[k % len(seeds)]))
    ctx.shards(items, run_rand)
    ctx.shards([(dim, p, s, loc, w, sd) for dim in (1, 2, 3, 5) for p in (0.5, 1, 1.5, 2, 3, 5, 8, 'inf') for s in (1.0, 0.25, 'each') for loc in (None, -2.0) for w in ('uniform', 'beta') for sd in seeds if not (w == 'beta' and p == 'inf')], run_lp)
    ctx.shards(range(1), run_bad)
