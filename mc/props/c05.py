"""Parallel operations complete with matching communication on every process."""
import itertools

import numpy as np

from mc import spmd
from mc.build import partition, points, concat_local
from mc.core import require, require_close, Violation
from mc.fakempi import run_ranks, ProtocolError

RULE = ('(programs) every SPMD program of the package table under every fixed-priority schedule of the ranks; (distributions) every '
        'composition of the samples over the ranks, empty parts included, for each operation that takes locally set data; (rejections) '
        'invalid arguments given on all ranks; (more) random designs, draws from updated measures, rejection, comparison, figures and the LUQ hand-over under several schedules. The controlled communicator matches the k-th collective of all ranks and reports mismatch, '
        'wait-forever and one-sided exceptions; results are compared with the one-process run')
BOUNDS = {'quick': {'ranks': '1..4, 6', 'priority schedules': 'all for 2 and 3 ranks', 'samples distributed': '0..4 over 1..3 ranks, 0..3 over 4'},
          'thorough': {'ranks': '1..8', 'priority schedules': 'all for 2, 3 and 4 ranks', 'samples distributed': '0..6 over 1..4 ranks, 0..4 over 5'}}


def run_prio(size, fn, args, perm):
    from mc.fakempi import World
    w = World(size)
    order = list(perm)

    def pick(w=w):
        en = [r for r in range(w.size) if w.state[r] == 'ready']
        if not en:
            return type(w)._pick(w)
        w.nsteps += 1
        if w.nsteps > w.max_steps:
            w._abort(ProtocolError('step bound exceeded'))
            return w._pick_abort()
        r = [x for x in order if x in en][0]
        w.trace.append((tuple(en), r, ()))
        w.last = r
        return r
    w._pick = pick
    return w.run(fn, args)


def programs_part(ctx, item):
    name, fn, args, n, plans = item
    for size, perm in plans:
        def go(size=size, perm=perm):
            w = run_prio(size, fn, (n,) + args, perm)
            ctx.step(w.ncoll + w.nsteps)
            vals = w.values()
            keys = [sorted(v) for v in vals]
            require(all(k == keys[0] for k in keys), 'ranks return different results: %s', keys)
        ctx.case('programs', dict(program=name, args=args, n=n, size=size, order=perm), go)


# ---- further operations: random designs, updated measures, comparison, figures, LUQ, files ----

def m_design(rank, n, dim, which, glob):
    import bet.sampling.basicSampling as bs
    obj = spmd.mk_set(3, dim) if which.endswith('-set') else dim
    w = which.split('-')[0]
    if w == 'lhs':
        s = bs.lhs_sample_set(obj, n, 'center', glob)
    elif w == 'sampler':
        d = bs.sampler(spmd.q).create_random_discretization('uniform', obj, num_samples=n, globalize=glob)
        s = d.get_input_sample_set()
    elif w == 'grid':
        s = bs.regular_sample_set(obj, [n] + [1] * (dim - 1))
    else:
        s = bs.random_sample_set(w, obj, n, glob)
    s.local_to_global()
    require(s.check_num() == n, '%s samples drawn instead of %d', s.check_num(), n)
    return {'num': n}


def measure(dim, kind):
    from scipy.stats import gaussian_kde
    s = spmd.mk_set(4, dim)
    w = [0.75, 0.25]
    if kind == 'rv':
        s.set_prob_parameters([['norm', {'loc': float(k)}] for k in range(dim)])
    elif kind == 'kde':
        x = spmd.pts(5, dim)
        s.set_prob_parameters(([[gaussian_kde(x[:, i]), gaussian_kde(x[:, i] + 1)] for i in range(dim)], w))
    else:
        s.set_prob_parameters(([np.zeros(dim), np.ones(dim)], [np.eye(dim)] * 2, w))
    s.set_prob_type(kind)
    return s


def m_updated(rank, n, dim, kind, glob):
    import bet.sampling.basicSampling as bs
    s = bs.sample_from_updated(measure(dim, kind), n, glob)
    s.local_to_global()
    require(s.check_num() == n, '%s samples drawn instead of %d', s.check_num(), n)
    return {'num': n}


def m_reject(rank, n, dim, how, loc):
    import bet.calculateP.calculateR as cr
    import bet.sample as samp
    d = spmd.mk_disc(n + 6, dim, 'voronoi', 3, dist='local' if loc else 'global')
    obs = samp.sample_set(2)
    obs.set_values(spmd.q(spmd.pts(5, dim, 0.6)))
    d.set_output_observed_set(obs)
    cr.print = lambda *a, **k: None
    if how == 'rejection':
        r = cr.invert_rejection_sampling(d)
        return {'values': r.get_values().tolist()}
    cr.invert_to_random_variable(d, 'norm', num_reweighted=20)
    return {'done': 1}


def m_compare(rank, n, dim, what, loc):
    import bet.postProcess.compareP as cmp
    import bet.sample as samp
    from bet.Comm import comm
    a, b = measure(dim, 'rv'), measure(dim, 'gmm')
    if loc:
        a = samp.sample_set(dim)
        a.set_domain(spmd.box(dim))
        a.set_values_local(np.array_split(spmd.pts(n, dim), comm.size)[comm.rank])
        a.set_probabilities_local(np.array_split(spmd.probs(n), comm.size)[comm.rank])
        a.set_prob_type('voronoi')
    if what == 'pair':
        c = cmp.compare(a, b)
        t = samp.sample_set(dim)
        t.set_values_local(np.array_split(spmd.pts(n + 2, dim, 0.3), comm.size)[comm.rank])
        t.set_domain(spmd.box(dim))
        c.set_compare_set(t)
        return {'tv': c.distance('tv')}
    a.local_to_global()
    if loc and n < 3:
        return {}
    return {'m': cmp.compare(a, b).distance_marginal(0, num_points=20)}


def m_plot(rank, n, dim, what, loc):
    import bet.postProcess.plotP as pp
    import bet.postProcess.plotVoronoi as pv
    import bet.sample as samp
    from bet.Comm import comm
    s = samp.sample_set(dim)
    s.set_domain(spmd.box(dim))
    p = spmd.probs(n)
    if loc:
        s.set_values_local(np.array_split(spmd.pts(n, dim), comm.size)[comm.rank])
        s.set_probabilities_local(np.array_split(p, comm.size)[comm.rank])
        s.set_volumes_local(np.array_split(np.ones(n) / n, comm.size)[comm.rank])
    else:
        s.set_values(spmd.pts(n, dim))
        s.set_probabilities(p)
        s.set_volumes(np.ones(n) / n)
    if what == 'voronoi':
        if dim == 1 and loc:
            s.local_to_global()      # a 1D figure takes gathered values
        (pv.plot_1D_voronoi if dim == 1 else pv.plot_2D_voronoi)(s)
    elif what == 'densities':
        pp.plot_1d_marginal_densities([measure(dim, 'rv'), measure(dim, 'gmm')], 0, interactive=False)
    elif what == 'marginal1':
        b, m = pp.calculate_1D_marginal_probs(s, nbins=3)
        pp.plot_1D_marginal_probs(m, b, s)
    else:
        b, m = pp.calculate_2D_marginal_probs(s, nbins=3)
        if what == 'contours':
            pp.plot_2D_marginal_contours(m, b, s)
        else:
            pp.plot_2D_marginal_probs(m, b, s, plot_surface=what == 'surface')
    comm.barrier()
    return {'done': 1}


def m_luq(rank, n, dim, obs):
    import bet.sampling.useLUQ as ul
    import bet.sample as samp
    from bet.Comm import comm

    class Learnt:
        num_pcs = [2]
    a, b = np.arange(n) % 2, np.arange(3) % 2
    lo = lambda x: np.array_split(x, comm.size)[comm.rank]
    Learnt.predict_labels, Learnt.obs_labels = lo(a), lo(b)
    Learnt.predict_maps, Learnt.obs_maps = [np.ones((2, 2))], [np.zeros((2, 2))]
    u = ul.useLUQ(spmd.mk_set(n, dim), None, np.arange(3.0), spmd.mk_set(3, dim) if obs else None)
    u.learn = Learnt()
    d1, d2 = u.make_disc()
    require(list(d1.get_output_sample_set().get_region()) == list(a), 'labels %s', d1.get_output_sample_set().get_region())
    return {'labels': list(d1.get_output_sample_set().get_region()), 'two': d2 is not None}


MORE = {'design': m_design, 'updated': m_updated, 'density': m_reject, 'compare': m_compare, 'plot': m_plot, 'luq': m_luq}


def more_items(thorough):
    L = []
    for dim in (1, 2, 3):
        for glob in (True, False):
            for w in ('uniform', 'norm', 'lhs', 'sampler', 'random', 'uniform-set', 'lhs-set', 'grid-set'):
                L += [('design', (dim, w, glob), n) for n in (1, 2, 5)]
            for k in ('rv', 'kde', 'gmm'):
                L += [('updated', (dim, k, glob), n) for n in (1, 2, 5)]
            for h in ('rejection', 'rv'):
                L += [('density', (dim, h, glob), n) for n in (1, 3)]
            for w in ('pair', 'marginal'):
                L += [('compare', (dim, w, glob), n) for n in (1, 4)]
            L += [('luq', (dim, glob), n) for n in (1, 2, 5)]
    for loc in (True, False):
        L += [('plot', (1, w, loc), 4) for w in ('voronoi', 'marginal1', 'densities')]
        L += [('plot', (2, w, loc), 4) for w in ('voronoi', 'marginal1', 'marginal2', 'contours', 'surface')]
        L += [('plot', (3, w, loc), 2) for w in (('marginal1', 'marginal2') if thorough else ('marginal1',))]
    return L


def more_part(ctx, item):
    from mc import figs
    name, args, n, plans = item
    for size, perm in plans:
        def go(size=size, perm=perm):
            np.random.seed(ctx.seed)
            if name == 'plot':
                with figs.record():
                    w = run_prio(size, MORE[name], (n,) + args, perm)
            else:
                w = run_prio(size, MORE[name], (n,) + args, perm)
            ctx.step(w.ncoll + w.nsteps)
            vals = w.values()
            require(all(v == vals[0] for v in vals), 'processes return different results: %s', vals)
        ctx.case('more', dict(program=name, args=args, n=n, size=size, order=perm), go)


# ---- distributions ---------------------------------------------------------------------

def compositions(n, r):
    if r == 1:
        yield (n,)
        return
    for k in range(n + 1):
        for rest in compositions(n - k, r - 1):
            yield (k,) + rest


def parts(x, comp, rank):
    o = np.cumsum((0,) + tuple(comp))
    return x[o[rank]:o[rank + 1]]


def d_gather(rank, comp, n, cfg):
    """get_global_values of every dtype and rank of array."""
    import bet.util as util
    shape, dtype = cfg
    x = (np.arange(n * int(np.prod(shape, initial=1))).reshape((n,) + tuple(shape)) + 1)
    x = (x % 3 == 0) if dtype == 'bool' else x.astype(dtype)
    r = util.get_global_values(parts(x, comp, rank).copy())
    require(r.shape == x.shape and r.dtype == x.dtype and bool(np.all(r == x)),
            'gathered %s %s, expected %s %s', r.dtype, r.tolist(), x.dtype, x.tolist())
    return r


def d_set(rank, comp, n, cfg):
    """locally set arrays, number of samples, equal volumes, global arrays."""
    import bet.sample as samp
    dim, fields, glob = cfg
    v = spmd.pts(n, dim)
    full = {'values': v, 'probabilities': spmd.probs(max(n, 1))[:n], 'volumes': (np.arange(n) + 1.0) / 7,
            'jacobians': spmd.jacs(n, 2, dim), 'error_estimates': 0.1 * v, 'region': np.arange(n), 'error_id': np.arange(n) * 0.5,
            'densities': np.arange(n) + 0.25}
    s = samp.sample_set(dim)
    s.set_domain(spmd.box(dim))
    for f in fields:
        getattr(s, 'set_%s_local' % f)(parts(full[f], comp, rank).copy())
    num = s.check_num()
    require(num == n, 'check_num is %s for %d samples', num, n)
    require(s.check_num_local() == comp[rank], 'check_num_local is %s, expected %d', s.check_num_local(), comp[rank])
    if glob and n:
        s.estimate_volume_mc(globalize=False)
        require_close(s.get_volumes_local(), np.full(comp[rank], 1.0 / n), 'local equal volumes')
    s.local_to_global()
    for f in fields:
        if f == 'volumes' and glob and n:
            continue
        require_close(getattr(s, 'get_' + f)(), full[f], 'gathered ' + f)
    if glob and n:
        require_close(s.get_volumes(), np.full(n, 1.0 / n), 'gathered equal volumes')
    require(s.check_num() == n, 'check_num after gathering')
    return True


def d_emulated(rank, comp, n, cfg):
    """operations on an emulated set of arbitrary distribution; n emulated points."""
    import bet.sample as samp
    import bet.calculateP.calculateP as cp
    from bet.Comm import comm
    kind, op, assign = cfg
    dim = 2
    m = 3
    dv = partition('sample_set', 3, dim)
    out = samp.sample_set(2)
    out.set_values(points(kind, m, [2, 0, 0], dim))
    ops = partition(kind, m, dim)
    p = np.array([0.25, 0.5, 0.25])
    ops.set_probabilities(p)
    ev = points('sample_set', 3, [assign[i % len(assign)] for i in range(n)], dim)
    e = samp.sample_set(dim)
    e.set_values_local(parts(ev, comp, rank).copy())
    e.set_domain(dv.get_domain())
    ii = np.array([assign[i % len(assign)] for i in range(n)], dtype=int)
    ev_of = np.array([2, 0, 0])[ii]
    if op == 'volume':
        if n == 0:
            return True
        dv.estimate_volume_emulated(e)
        require_close(dv.get_volumes(), np.array([np.mean(ii == k) for k in range(3)]), 'volumes')
        return True
    if op == 'pointers':
        d = samp.discretization(dv, out, ops, e)
        d.set_emulated_ii_ptr(globalize=True)
        require(list(d.get_emulated_ii_ptr()) == list(ii), 'emulated pointer %s, expected %s', d.get_emulated_ii_ptr(), ii)
        d.set_emulated_ii_ptr(globalize=False)
        d.globalize_ptrs()
        require(list(d.get_emulated_ii_ptr()) == list(ii), 'globalized emulated pointer %s, expected %s', d.get_emulated_ii_ptr(), ii)
        eo = samp.sample_set(2)
        eo.set_values_local(parts(points(kind, m, list(ev_of), dim), comp, rank).copy())
        d.set_emulated_output_sample_set(eo)
        d.set_emulated_oo_ptr()
        require(list(d.get_emulated_oo_ptr()) == list(ev_of), 'emulated output pointer %s, expected %s', d.get_emulated_oo_ptr(), ev_of)
        return True
    d = samp.discretization(dv, out, ops, e)
    if op == 'prob_on_emulated':
        cp.prob_on_emulated_samples(d)
        want = np.array([p[k] / np.sum(ev_of == k) for k in ev_of]) if n else np.zeros(0)
        require_close(e.get_probabilities(), want, 'probabilities of emulated points')
    elif op == 'prob_with_emulated':
        if n == 0:
            return True
        cp.prob_with_emulated_volumes(d)
        vol = np.array([np.mean(ii == k) for k in range(3)])
        evc = np.array([2, 0, 0])
        want = np.array([p[evc[c]] * vol[c] / vol[evc == evc[c]].sum() if vol[evc == evc[c]].sum() > 0 else 0.0 for c in range(3)])
        require_close(dv.get_probabilities(), want, 'probabilities')
    elif op == 'transfer':
        old = samp.sample_set(dim)
        old.set_values_local(parts(ev, comp, rank).copy())
        w = (np.arange(n) + 1.0)
        old.set_probabilities_local(parts(w, comp, rank).copy())
        r = cp.prob_from_sample_set(old, dv)
        want = np.array([w[ii == k].sum() for k in range(3)])
        require_close(dv.get_probabilities(), want, 'transferred mass')
    return True


DIST = {'gather': d_gather, 'set': d_set, 'emulated': d_emulated}


def dist_part(ctx, item):
    name, comp, cfg = item
    fn = DIST[name]

    def go():
        w = run_ranks(len(comp), fn, (comp, sum(comp), cfg))
        ctx.step(w.ncoll + 1)
        w.values()
    ctx.case('distribution', dict(operation=name, composition=comp, cfg=cfg), go)


# ---- rejections: the same invalid arguments on all ranks ----------------------------------

def r_len(rank, comm_size, n):
    import bet.sample as samp
    i, o = spmd.mk_set(n + 1, 1), spmd.mk_set(n, 1)
    samp.discretization(i, o)


def r_probs_len(rank, comm_size, n):
    s = spmd.mk_set(n + 1, 1)
    s.set_probabilities(np.ones(n))
    s.check_num()


def r_probs_len_local(rank, comm_size, n):
    s = spmd.mk_set(n + 1, 2)
    s.set_volumes(np.ones(n + 2))
    s.global_to_local()


def r_merge_dim(rank, comm_size, n):
    spmd.mk_set(n, 1).merge(spmd.mk_set(n, 2))


def r_merge_dom(rank, comm_size, n):
    a, b = spmd.mk_set(n, 1), spmd.mk_set(n, 1)
    b.set_domain(np.array([[0.0, 3.0]]))
    a.merge(b)


def r_op_dim(rank, comm_size, n):
    d = spmd.mk_disc(n, 2)
    d.set_output_probability_set(spmd.mk_set(2, 3))


def r_vol_missing(rank, comm_size, n):
    d = spmd.mk_disc(n, 1)
    d.estimate_input_volume_emulated()


def r_1d(rank, comm_size, n):
    spmd.mk_set(n, 2, 'voronoi_sample_set').exact_volume_1D()


def r_region(rank, comm_size, n):
    import bet.calculateP.calculateError as ce
    d = spmd.mk_disc(n, 1)
    d.get_output_sample_set().set_error_estimates(np.zeros((n, 2)))
    e = ce.model_error(d)
    e.calculate_for_sample_set_region(spmd.out_partition('rectangle', 3, 1), 77)


def r_jac(rank, comm_size, n):
    import bet.sensitivity.chooseQoIs as cq
    cq.chooseOptQoIs(spmd.mk_set(n, 2))


def r_load(rank, comm_size, n):
    import bet.util as util
    util.load_object('/nonexistent_dir_verif/none')


REJ = {f.__name__: f for f in (r_len, r_probs_len, r_probs_len_local, r_merge_dim, r_merge_dom, r_op_dim, r_vol_missing, r_1d, r_region, r_jac, r_load)}


def rej_part(ctx, item):
    name, size, n = item

    def go():
        w = run_ranks(size, REJ[name], (size, n))
        ctx.step(w.ncoll + 1)
        out = [o[0] if o else None for o in w.outcome]
        require(w.error is None, 'processes do not agree: %s', w.error)
        require(out == ['exc'] * size, 'outcomes of the ranks: %s', out)
    ctx.case('rejection', dict(call=name, size=size, n=n), go)


def run(ctx):
    T = ctx.thorough
    plans = [(1, (0,))] + [(2, p) for p in itertools.permutations(range(2))] + [(3, p) for p in itertools.permutations(range(3))]
    sizes = (4, 5, 6, 7, 8) if T else (4, 6)
    plans += [(k, tuple(range(k))) for k in sizes] + [(k, tuple(reversed(range(k)))) for k in sizes]
    if T:
        plans += [(4, p) for p in itertools.permutations(range(4))][1:-1]
    items = []
    for name, fn, args, n0 in spmd.programs(T):
        ns = (n0, n0 + 3) if T else (n0 + 1,)
        if name in ('choose', 'choose_large'):
            ns = (2,)
        for n in ns:
            items.append((name, fn, args, n, plans))
    ctx.shards(items, programs_part)
    few = [(1, (0,)), (2, (0, 1)), (2, (1, 0)), (3, (0, 1, 2)), (3, (2, 1, 0)), (6, (3, 1, 0, 5, 4, 2))]
    ctx.shards([(name, args, n, (plans if T else few) if name != 'plot' else few[1:5] if T else [few[1], few[2], few[4]]) for name, args, n in more_items(T)], more_part)
    comps = []
    for r in range(1, 6 if T else 5):
        top = (4 if r == 5 else 6) if T else (3 if r == 4 else 4)
        for n in range(0, top + 1):
            comps += list(compositions(n, r))
    items = []
    for c in comps:
        for dt in ('float64', 'int64', 'int32', 'bool'):
            for sh in ((), (1,), (2,), (2, 3)):
                items.append(('gather', c, (sh, dt)))
        for dim in (1, 2, 3):
            for fields in (('values',), ('values', 'probabilities'), ('values', 'jacobians', 'error_estimates'),
                           ('values', 'volumes', 'region', 'error_id', 'densities', 'probabilities', 'jacobians', 'error_estimates')):
                for g in (True, False):
                    items.append(('set', c, (dim, fields, g)))
        for kind in ('voronoi', 'rectangle', 'ball', 'cartesian'):
            for op in ('volume', 'pointers', 'prob_on_emulated', 'prob_with_emulated', 'transfer'):
                for assign in ((0,), (0, 1, 2), (2, 1, 0), (1, 1, 0)):
                    items.append(('emulated', c, (kind, op, assign)))
    ctx.shards(items, dist_part)
    items = [(name, size, n) for name in sorted(REJ) for size in ((1, 2, 3, 4, 5, 6) if T else (1, 2, 3, 5)) for n in (1, 2, 4)]
    ctx.shards(items, rej_part)
