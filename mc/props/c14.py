"""Copies are equal and independent; equality detects every difference."""
import itertools

import numpy as np

from mc.build import CLASSES, SET_OPTS, OPT, DPRES, DSETS, GETTERS, make_set, make_disc, snap_set, snap_disc, snap, diff
from mc.core import require, same_arr

RULE = ('copy: every class x subset of optional data (bounded size), every reachable array of the copy / of the original overwritten in turn; equality: every state vs '
        'every single-item perturbation (absent, present, value in every position class, longer, shorter, broadcastable shape) in both directions, and all pairs of a small state set; '
        'oracle: identity-free snapshots')
BOUNDS = {'quick': {'subsets': 'size <= 2 and full', 'pairs': 'all pairs of 42 states per class', 'samples': '4 (selected: 60)', 'dims': '1..3 (selected: 8)'},
          'thorough': {'subsets': 'size <= 3 and full', 'pairs': 'all pairs of 150 states per class', 'samples': 4}}

FULL = OPT + ('reference', 'p_norm', 'weights', 'labels', 'prob_rv', 'clusters', 'local')


def walk(x, path='', seen=None):
    """All arrays and mutable containers reachable from a piece of data."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    if isinstance(x, np.ndarray):
        seen.add(id(x))
        yield path, x
        if x.dtype == object:
            for i, v in enumerate(x.ravel()):
                yield from walk(v, '%s[%d]' % (path, i), seen)
    elif isinstance(x, (list, tuple)):
        seen.add(id(x))
        if isinstance(x, list):
            yield path, x
        for i, v in enumerate(x):
            yield from walk(v, '%s[%d]' % (path, i), seen)
    elif isinstance(x, dict):
        seen.add(id(x))
        yield path, x
        for k, v in x.items():
            yield from walk(v, '%s[%s]' % (path, k), seen)


def reach(o):
    if hasattr(o, 'get_input_sample_set'):
        for k in DSETS:
            s = getattr(o, 'get_' + k)()
            if s is not None:
                for p, a in reach(s):
                    yield k + '.' + p, a
        for k in ('io_ptr', 'emulated_ii_ptr', 'emulated_oo_ptr'):
            yield from walk(getattr(o, 'get_' + k)(), k)
    else:
        for g in GETTERS:
            yield from walk(getattr(o, 'get_' + g)(), g)
        for at in ('_left', '_right', '_width', '_radii'):
            yield from walk(getattr(o, at, None), at)


def spoil(a):
    if isinstance(a, np.ndarray):
        if a.size == 0 or a.dtype == object:
            return False
        flat = a.reshape(-1)
        if not np.shares_memory(flat, a) or not a.flags.writeable:
            return False
        if a.dtype == bool:
            flat[:] = ~flat
        else:
            flat[:] = 99
        return True
    if isinstance(a, list):
        a.append('spoilt')
        return True
    a['spoilt'] = 1
    return True


def check_copy(ctx, make):
    s = make()
    before = snap(s)
    c = s.copy()
    require(c is not s and type(c) is type(s), 'copy returned %r', type(c))
    d = diff(before, snap(c))
    require(not d, 'the copy differs in %s', d)
    for a, b, nm in ((s, c, 'original == copy'), (c, s, 'copy == original'), (s, make(), 'independent construction')):
        r = a == b
        require(r is True or r is np.True_ or r == True, '%s is %r', nm, r)
        require(not (a != b), '%s: != answers true', nm)
        ctx.step()
    d = diff(before, snap(s))
    require(not d, 'copying or comparing changed the original in %s', d)
    mine = [(p, a) for p, a in reach(s)]
    for p, a in reach(c):
        for q, b in mine:
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
                require(not np.shares_memory(a, b), 'copy shares %s with the original', p)
            else:
                require(a is not b, 'copy shares %s with the original', p)
    for first in (True, False):
        s = make()
        c = s.copy()
        a, b = (c, s) if first else (s, c)
        n = 0
        for p, arr in list(reach(a)):
            if spoil(arr):
                n += 1
        d = diff(before, snap(b))
        require(not d, 'overwriting the %s changed the %s in %s', 'copy' if first else 'original', 'original' if first else 'copy', d)
        ctx.step(n)
    # a query builds helper structures; the copy works on its own data
    return True


def run_copy_set(ctx, item):
    cls, dim, opts, n = (tuple(item) + (4,))[:4]
    ctx.case('copy-set', dict(cls=cls, dim=dim, opts=opts, n=n), lambda: check_copy(ctx, lambda: make_set(cls, n, dim, opts)))


def run_copy_disc(ctx, item):
    present, ptrs, opts, cls, kind = item
    ctx.case('copy-disc', dict(present=present, ptrs=ptrs, opts=opts, cls=cls, outputs=kind),
             lambda: check_copy(ctx, lambda: make_disc(present, ptrs, opt=opts, cls=cls, opkind=kind)))


def run_copy_query(ctx, item):
    """A copy taken after a search keeps working on its own data."""
    cls, dim, opts = item

    def go():
        s = make_set(cls, 4, dim, opts)
        x = np.array([[0.2, 0.7, 0.3], [0.8, 0.3, 0.6]])[:, :dim]
        s.query(x)
        c = s.copy()
        require(c == s, 'a copy taken after a search differs')
        v = s.get_values().copy()
        c.set_values(v[::-1].copy())
        i = np.array(s.query(x)[1]).reshape(-1)
        j = np.array(c.query(x)[1]).reshape(-1)
        require([3 - k for k in i] == list(j), 'copy with reversed samples finds %s, original %s', j, i)
        require(not (c == s), 'copy with reversed samples still equals the original')
        require(np.array_equal(s.get_values(), v), 'original changed')
        ctx.step(4)
    ctx.case('copy-query', dict(cls=cls, dim=dim, opts=opts), go)


def run_copy_sampler(ctx, item):
    """Copies of a sampler are independent of it."""
    dim, opts, made, first = item

    def go():
        import bet.sampling.basicSampling as bs

        def make():
            sm = bs.sampler(model, error_estimates=opts[0], jacobians=opts[1])
            if made:
                s = make_set('sample_set', 4, dim, ('reference', 'labels'))
                sm.input_sample_set = s
                if made == 2:
                    sm.compute_qoi_and_create_discretization(s)
            return sm

        def model(x):
            y = 2.0 * x[:, :1]
            r = (y,) + ((0.1 * y,) if opts[0] else ()) + ((np.ones((len(x), 1, dim)),) if opts[1] else ())
            return r if len(r) > 1 else y
        sm = make()
        c = sm.copy()
        require(c is not sm and type(c) is type(sm), 'copy returned %r', type(c))
        require((c.error_estimates, c.jacobians) == opts, 'options of the copy')
        for nm in ('input_sample_set', 'discretization'):
            a, b = getattr(sm, nm), getattr(c, nm)
            require((a is None) == (b is None), '%s of the copy is %r', nm, b)
            if a is not None:
                d = diff(snap(a), snap(b))
                require(not d, '%s of the copy differs in %s', nm, d)
        a, b = (c, sm) if first else (sm, c)
        for nm in ('input_sample_set', 'discretization'):
            if getattr(b, nm) is not None:
                before = snap(getattr(b, nm))
                for p, arr in list(reach(getattr(a, nm))):
                    spoil(arr)
                d = diff(before, snap(getattr(b, nm)))
                require(not d, 'overwriting %s of one changed the other in %s', nm, d)
        ctx.step(4)
    ctx.case('copy-sampler', dict(dim=dim, opts=opts, made=made, first=first), go)


# ---- equality ---------------------------------------------------------------------------------

def variants(x, name):
    """All single-item perturbations of a stored item."""
    out = []
    if isinstance(x, np.ndarray):
        k = x.shape[0]
        for pos in sorted({0, x.size // 2, x.size - 1}):
            y = x.copy()
            f = y.reshape(-1)
            f[pos] = (not f[pos]) if y.dtype == bool else f[pos] + 1 if np.isfinite(f[pos]) else 5
            out.append(('value%d' % pos, y))
        tiny = x.copy()
        if x.dtype.kind == 'f' and np.isfinite(x.reshape(-1)[-1]):
            tiny.reshape(-1)[-1] = np.nextafter(tiny.reshape(-1)[-1], np.inf)
            out.append(('ulp', tiny))
            y = x.copy()
            y.reshape(-1)[0] = np.nan if not np.isnan(y.reshape(-1)[0]) else 1.0
            out.append(('nan', y))
        out.append(('longer', np.concatenate((x, x[-1:]))))
        if k > 1:
            out.append(('shorter', x[:-1].copy()))
            out.append(('first', x[:1].copy()))
            if not np.array_equal(x[::-1], x):
                out.append(('reversed', x[::-1].copy()))
        if x.ndim == 1:
            out.append(('column', x.reshape(-1, 1).copy()))
            out.append(('row', x.reshape(1, -1).copy()))
        out.append(('absent', None))
    elif isinstance(x, list):
        out.append(('longer', list(x) + [x[-1]]))
        out.append(('shorter', list(x)[:-1]))
        out.append(('absent', None))
        if len(x) > 1 and not all(np.array_equal(a, b) for a, b in zip(x, x[::-1])):
            out.append(('reversed', list(x)[::-1]))
        if isinstance(x[0], str):
            out.append(('value', ['other'] + x[1:]))
        if isinstance(x[0], np.ndarray):
            y = [a.copy() for a in x]
            y[-1][-1] = not y[-1][-1]
            out.append(('value', y))
        if isinstance(x[0], list):
            y = [[a[0], dict(a[1])] for a in x]
            y[-1][1][sorted(y[-1][1])[0]] += 0.25
            out.append(('value', y))
            y = [[a[0], dict(a[1])] for a in x]
            y[0][0] = 'laplace'
            z = [[a[0], dict(a[1])] for a in x]
            k = sorted(z[-1][1])[-1]
            z[-1][1][k] = float(np.nextafter(z[-1][1][k], np.inf))
            out.append(('ulp', z))
            out.append(('name', y))
            y = [[a[0], dict(a[1])] for a in x]
            y[0][1].pop(sorted(y[0][1])[0])
            out.append(('missing argument', y))
            y = [[a[0], dict(a[1])] for a in x]
            y[-1][1]['c'] = 0.5
            out.append(('further argument', y))
    elif isinstance(x, str):
        out += [('value', x + 'x'), ('absent', None)]
    elif isinstance(x, float):
        out += [('value', 2.5), ('absent', None)] + ([('ulp', float(np.nextafter(x, 0.0)))] if np.isfinite(x) else [])
    elif isinstance(x, tuple):      # gaussian mixture
        m, c, w = x
        out += [('mean', ([m[0] + 0.5], c, w)), ('cov', (m, [c[0] * 2], w)), ('ulp', ([np.nextafter(m[0], np.inf)], c, w)), ('weight', (m, c, [0.5])), ('more', (m * 2, c * 2, w * 2)), ('absent', None)]
    elif x is None:
        out.append(('present', np.array([1.0, 2.0])))
    return out


ITEMS = ('values', 'values_local', 'volumes', 'volumes_local', 'probabilities', 'probabilities_local', 'densities', 'densities_local', 'jacobians', 'jacobians_local',
         'error_estimates', 'error_estimates_local', 'region', 'region_local', 'error_id', 'error_id_local', 'domain', 'reference_value', 'p_norm', 'label', 'labels', 'cluster_maps',
         'weights', 'weights_init', 'prob_type', 'prob_type_init', 'prob_parameters', 'prob_parameters_init')


def put(s, name, value):
    """Inject a perturbed item; False when this cannot be done in the current tree."""
    setter = getattr(s, 'set_' + name, None)
    try:
        if hasattr(s, '_' + name):
            setattr(s, '_' + name, value)      # the setters refuse inconsistent data
        elif setter is not None:
            setter(value)
    except Exception:
        pass
    g = getattr(s, 'get_' + name)()
    return g is value or same_arr(g, value)


def differs(ctx, a, b, what):
    for x, y, nm in ((a, b, 'a == b'), (b, a, 'b == a')):
        try:
            r = x == y
        except Exception as e:
            require(False, '%s: %s raised %s: %s', what, nm, type(e).__name__, e)
        require(r is False or r is np.False_ or (r is not True and r == False), '%s: %s is %r', what, nm, r)
        require(x != y, '%s: != answers false', what)
        ctx.step()


def run_perturb(ctx, item):
    cls, dim, opts, name, n = (tuple(item) + (4,))[:5]

    def go():
        s = make_set(cls, n, dim, opts)
        x = getattr(s, 'get_' + name)()
        for nm, y in variants(x, name):
            t = make_set(cls, n, dim, opts)
            require(s == t, 'equal constructions differ')
            if not put(t, name, y):
                continue
            differs(ctx, s, t, '%s %s' % (name, nm))
    ctx.case('perturb', dict(cls=cls, dim=dim, opts=opts, item=name, n=n), go)


def run_perturb_disc(ctx, item):
    present, ptrs, comp, name = item

    def go():
        n = 0
        d = make_disc(present, ptrs, opt=OPT)
        if comp == 'ptr':
            x = getattr(d, 'get_' + name)()
        else:
            x = getattr(getattr(d, 'get_' + comp)(), 'get_' + name)()
        for nm, y in variants(x, name):
            e = make_disc(present, ptrs, opt=OPT)
            require(d == e, 'equal constructions differ')
            if not put(e if comp == 'ptr' else getattr(e, 'get_' + comp)(), name, y):
                continue
            differs(ctx, d, e, '%s.%s %s' % (comp, name, nm))
    ctx.case('perturb-disc', dict(present=present, ptrs=ptrs, comp=comp, item=name), go)


def run_present(ctx, item):
    p1, p2 = item

    def go():
        a, b = make_disc(p1), make_disc(p2)
        if p1 == p2:
            require(a == b, 'same components compare unequal')
        else:
            differs(ctx, a, b, 'components')
        ctx.step()
    ctx.case('components', dict(a=p1, b=p2), go)


def run_pairs(ctx, item):
    cls, states, i = item

    def go():
        mk = lambda st: make_set(cls, st[1], st[2], st[3], st[4])
        a = mk(states[i])
        sa = snap_set(a)
        for st in states:
            b = mk(st)
            want = not diff(sa, snap_set(b))
            try:
                r = a == b
            except Exception as e:
                require(False, 'comparison with %s raised %s: %s', st, type(e).__name__, e)
            require(bool(r) == want, 'comparison with %s is %r, data agree: %s', st, r, want)
            require(bool(a != b) == (not want), '!= with %s', st)
            ctx.step()
    ctx.case('pairs', dict(cls=cls, state=states[i]), go)


def run_density(ctx, item):
    """Sets that hold density objects (kernel estimates, mixtures, fitted variables)."""
    spec, comp = item
    from mc.props.c27 import measure

    def build(sp):
        s = make_set('sample_set', 4, sp[1], ())
        s.set_prob_type(sp[0])
        s.set_prob_parameters(measure(sp)[0])
        if not comp:
            return s
        d = make_disc((), False)
        d._input_sample_set = s
        return d

    def go():
        a, b = build(spec), build(spec)
        require(a == b, 'equal constructions differ')
        c = a.copy()
        require(c == a and a == c, 'copy differs')
        require(not (a != c), 'copy differs by !=')
        for other in DENS:
            if other != spec and other[1] == spec[1]:
                differs(ctx, a, build(other), 'measure %s against %s' % (spec, other))
        x = np.array([[0.3] * spec[1], [0.7] * spec[1]])
        p = (a if not comp else a.get_input_sample_set()).pdf(x)
        q = (c if not comp else c.get_input_sample_set()).pdf(x)
        require(np.array_equal(p, q), 'densities of the copy differ')
        ctx.step(3)
    ctx.case('density', dict(spec=spec, disc=comp), go)


DENS = [(k, d, w, False, j) for d in (1, 2) for k in ('rv', 'gmm', 'kde') for w, j in (((1.0,), 0), ((0.5, 0.5), 1), ((0.3, 0.7), 0)) if k != 'rv' or w == (1.0,)]
DENS += [(k, d, (1.0,), False, 0, sc) for d in (1, 2) for k in ('rv', 'gmm', 'kde') for sc in (2.0, 1.0 + 2.0 ** -40)]
DENS += [('kde', d, (1.0,), False, 1) for d in (1, 2)] + [('rv', d, (1.0,), False, j) for d in (1, 2) for j in (1, 2)]



def run_foreign(ctx, item):
    cls = item

    def go():
        s = make_set(cls, 4, 2, ()) if cls != 'discretization' else make_disc((), False)
        others = [None, 0, 'x', np.zeros(2), [s], object()] + [make_set(c, 4, 2, ()) for c in CLASSES if c != cls] + ([make_disc((), False)] if cls != 'discretization' else [])
        for o in others:
            try:
                r = bool(np.all(s == o))
            except TypeError:
                r = False
            require(not r, 'equal to an object of type %s', type(o).__name__)
            ctx.step()
    ctx.case('foreign', item, go)


def run(ctx):
    T = ctx.thorough
    ctx.shards([(sp, c) for sp in DENS for c in (False, True)], run_density)
    ctx.shards(list(CLASSES) + ['discretization'], run_foreign)
    subs = [c for k in range(4 if T else 3) for c in itertools.combinations(SET_OPTS, k)] + [FULL, FULL + ('kdtree',), tuple(o for o in FULL if o != 'prob_rv') + ('prob_gmm',)]
    ctx.shards([(cls, dim, o) for cls in CLASSES for dim in (1, 2, 3) for o in subs], run_copy_set)
    ctx.shards([(cls, dim, o, n) for cls in CLASSES for dim, n in ((4, 3), (6, 17), (8, 5), (1, 60), (2, 40)) for o in ((), FULL, FULL + ('kdtree',), tuple(o for o in FULL if o != 'prob_rv') + ('prob_gmm',))], run_copy_set)
    pres = [c for k in range(5) for c in itertools.combinations(DPRES, k)]
    ctx.shards([(p, q, o, cls, kind) for p in pres for q in (False, True) for o in ((), ('volumes', 'jacobians'), OPT, ('prob_rv', 'labels', 'local'))
                for cls in ('sample_set', 'cartesian_sample_set') for kind in ('voronoi', 'rectangle', 'ball')], run_copy_disc)
    ctx.shards([(cls, dim, o) for cls in ('sample_set', 'voronoi_sample_set') for dim in (1, 2, 3) for o in ((), OPT, ('p_norm',), ('kdtree', 'local'))], run_copy_query)
    ctx.shards(list(itertools.product((1, 2), itertools.product((False, True), repeat=2), (0, 1, 2), (False, True))), run_copy_sampler)
    bases = [(), FULL, tuple(o for o in FULL if o != 'prob_rv') + ('prob_gmm',)]
    if T:
        bases += [(o,) for o in SET_OPTS] + [('local', o) for o in OPT]
    ctx.shards([(cls, dim, o, name) for cls in CLASSES for dim in (1, 2) for o in bases for name in ITEMS], run_perturb)
    ctx.shards([(cls, dim, o, name, n) for cls in CLASSES for dim, n in ((4, 9), (6, 17), (1, 40)) for o in bases[:3] for name in ITEMS], run_perturb)
    allp = tuple(DPRES)
    items = [(allp, q, comp, name) for q in (False, True) for comp in DSETS for name in ('values', 'probabilities', 'volumes', 'domain', 'jacobians', 'weights', 'label')]
    items += [(allp, q, 'ptr', name) for q in (False, True) for name in ('io_ptr', 'io_ptr_local', 'emulated_ii_ptr', 'emulated_ii_ptr_local', 'emulated_oo_ptr', 'emulated_oo_ptr_local')
              if not name.endswith('_local')]
    ctx.shards(items, run_perturb_disc)
    ctx.shards([(a, b) for a in pres for b in pres], run_present)
    for cls in CLASSES:
        states = []
        o1 = [c for k in range(3 if T else 2) for c in itertools.combinations(OPT + ('weights', 'reference', 'local', 'nodomain', 'labels', 'clusters'), k)]
        for o in o1:
            for n, dim, ver in ((4, 2, 0), (4, 2, 1), (3, 2, 0)) if not T else ((4, 2, 0), (4, 2, 1), (3, 2, 0), (4, 1, 0)):
                states.append((cls, n, dim, o, ver))
        if T:
            states = states[::2]
        ctx.shards([(cls, states, i) for i in range(len(states))], run_pairs)
