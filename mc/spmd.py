"""
Library of deterministic SPMD programs over all parallel-aware operations of BET.

Every program is ``fn(rank, n, *cfg) -> {name: array}`` of *global* results.  It runs on
every simulated rank; the results must be the same on all ranks and for every number of
ranks.  Data are irregular lattices without ties, fully determined by (n, cfg).
"""
import numpy as np

PHI = 0.6180339887498949
PSI = 0.7548776662466927
CHI = 0.8191725133961645


def pts(n, dim, shift=0.0):
    """n distinct irregular points in the unit box, in no particular order."""
    i = np.arange(n)[:, None]
    a = np.array([PHI, PSI, CHI] + [np.sqrt(k) % 1.0 for k in (2, 3, 5, 7, 11)])
    b = np.array([0.13, 0.41, 0.77, 0.29, 0.59, 0.07, 0.83, 0.37])
    return (a[None, :dim] * (i + 1) + b[None, :dim] + shift) % 1.0


def box(dim):
    return np.array([[0.0, 1.0]] * dim)


def q(x):
    """Smooth deterministic model with two outputs."""
    x = np.asarray(x, dtype=float)
    s = x.sum(axis=1)
    return np.column_stack((s + 0.3 * x[:, 0] ** 2, x[:, 0] - 0.5 * s))


def probs(n):
    w = 1.0 + (np.arange(n) * 7) % 5
    w[1::3] = 0.0
    if w.sum() == 0:
        w[:] = 1.0
    return w / w.sum()


def mk_set(n, dim, cls='sample_set', values=None, domain=True):
    import bet.sample as samp
    s = getattr(samp, cls)(dim)
    s.set_values(pts(n, dim) if values is None else values)
    if domain:
        s.set_domain(box(dim))
    return s


def out_partition(kind, m, dim):
    import bet.sample as samp
    if kind == 'voronoi':
        s = samp.voronoi_sample_set(dim)
        s.set_values(2.5 * pts(m, dim, 0.21) - 0.3)
    elif kind == 'rectangle':
        s = samp.rectangle_sample_set(dim)
        e = np.linspace(-0.4, 2.6, m)
        s.setup(mins=[[e[i]] + [-9.0] * (dim - 1) for i in range(m - 1)], maxes=[[e[i + 1]] + [9.0] * (dim - 1) for i in range(m - 1)])
    elif kind == 'cartesian':
        s = samp.cartesian_sample_set(dim)
        s.setup([np.linspace(-0.4, 2.6, m)] + [np.array([-9.0, 9.0])] * (dim - 1))
    elif kind == 'ball':
        s = samp.ball_sample_set(dim)
        e = np.linspace(0.0, 2.0, m - 1) if m > 2 else np.array([0.8])[:m - 1]
        s.setup([[x] + [0.0] * (dim - 1) for x in e], [0.45] * (m - 1))
    return s


def mk_disc(n, dim, kind='voronoi', m=3, odim=2, emu=0, dist='global'):
    import bet.sample as samp
    from bet.Comm import comm
    v = pts(n, dim)
    y = q(v)[:, :odim]
    inp = samp.sample_set(dim)
    out = samp.sample_set(odim)
    if dist == 'global':
        inp.set_values(v)
        out.set_values(y)
    else:
        inp.set_values_local(np.array_split(v, comm.size)[comm.rank])
        out.set_values_local(np.array_split(y, comm.size)[comm.rank])
        inp.local_to_global()
        out.local_to_global()
    inp.set_domain(box(dim))
    op = out_partition(kind, m, odim)
    op.set_probabilities(probs(op.check_num()))
    e = eo = None
    if emu:
        e = samp.sample_set(dim)
        eo = samp.sample_set(odim)
        ev = pts(emu, dim, 0.37)
        if dist == 'global':
            e.set_values(ev)
            eo.set_values(q(ev)[:, :odim])
        else:
            e.set_values_local(np.array_split(ev, comm.size)[comm.rank])
            eo.set_values_local(np.array_split(q(ev)[:, :odim], comm.size)[comm.rank])
        e.set_domain(box(dim))
    return samp.discretization(inp, out, op, e, eo)


def a(x):
    return None if x is None else np.array(x)


# ---- programs -----------------------------------------------------------------------

def p_volume_mc(rank, n, dim, glob):
    s = mk_set(n, dim)
    if glob:
        s.estimate_volume_mc()
    else:
        s.global_to_local()
        s.estimate_volume_mc(globalize=False)
        s.local_to_global()
    return {'volumes': a(s.get_volumes()), 'values': a(s.get_values())}


def p_volume_emulated(rank, n, dim, cls, ne):
    import bet.sample as samp
    s = out_partition(cls, n + 1, dim) if cls != 'voronoi' else mk_set(n, dim, 'voronoi_sample_set')
    e = samp.sample_set(dim)
    e.set_values(pts(ne, dim, 0.37) * (2.5 if cls != 'voronoi' else 1.0))
    s.estimate_volume_emulated(e)
    return {'volumes': a(s.get_volumes())}


def p_volume_exact(rank, n, dim, cls):
    import bet.sample as samp
    if cls == 'voronoi':
        s = mk_set(n, dim, 'voronoi_sample_set')
        (s.exact_volume_1D if dim == 1 else s.exact_volume_2D)(*(() if dim == 1 else (1.0,)))
    else:
        s = out_partition(cls, n + 1, dim)
        s.set_domain(np.array([[-1.0, 4.0]] + [[-10.0, 10.0]] * (dim - 1)))
        (s.exact_volume if cls == 'ball' else s.exact_volume_lebesgue)()
    return {'volumes': a(s.get_volumes())}


def p_pointers(rank, n, dim, kind, dist, glob):
    d = mk_disc(n, dim, kind, 3, emu=n + 2, dist=dist)
    d.set_io_ptr(globalize=glob)
    d.set_emulated_ii_ptr(globalize=glob)
    d.set_emulated_oo_ptr(globalize=glob)
    d.globalize_ptrs()
    return {'io': a(d.get_io_ptr()), 'ii': a(d.get_emulated_ii_ptr()), 'oo': a(d.get_emulated_oo_ptr())}


def p_prob(rank, n, dim, kind, dist, how):
    import bet.calculateP.calculateP as cp
    d = mk_disc(n, dim, kind, 3, emu=2 * n + 3, dist=dist)
    s = d.get_input_sample_set()
    if how == 'emulated-volumes':
        cp.prob_with_emulated_volumes(d)
    elif how == 'on-emulated':
        cp.prob_on_emulated_samples(d)
        s = d.get_emulated_input_sample_set()
    elif how == 'exact1d':
        if dim != 1:
            s.estimate_volume_mc()
        else:
            s.exact_volume_1D()
        cp.prob(d)
    elif how == 'local-then-global':
        s.estimate_volume_mc()
        cp.prob(d, globalize=False)
        s.local_to_global()
    else:
        s.estimate_volume_mc()
        cp.prob(d)
    return {'prob': a(s.get_probabilities()), 'values': a(s.get_values())}


def p_transfer(rank, n, dim, kind, how):
    import bet.calculateP.calculateP as cp
    import bet.sample as samp
    old = mk_set(n, dim)
    old.set_probabilities(probs(n))
    new = out_partition(kind, 3, dim)
    if how == 'sample':
        r = cp.prob_from_sample_set(old, new)
    elif how == 'emulated':
        e = mk_set(5 * n + 4, dim, values=pts(5 * n + 4, dim, 0.37))
        r = cp.prob_from_sample_set_with_emulated_volumes(old, new, e)
    elif how == 'emulated-empty':        # some old cells hold no emulated point
        k = max(n - 1, 1)
        e = mk_set(k, dim, values=np.repeat(np.array(old.get_values())[:1], k, axis=0) + 1e-6)
        r = cp.prob_from_sample_set_with_emulated_volumes(old, new, e)
    else:
        out = samp.sample_set(1)
        out.set_values(np.arange(n, dtype=float))
        r = cp.prob_from_discretization_input(samp.discretization(old, out), new)
    return {'ret': a(r), 'prob': a(new.get_probabilities())}


def p_marginals(rank, n, dim, dist):
    import bet.postProcess.plotP as plotP
    from bet.Comm import comm
    import bet.sample as samp
    s = samp.sample_set(dim)
    s.set_domain(box(dim))
    v, p = pts(n, dim), probs(n)
    if dist == 'global':
        s.set_values(v)
        s.set_probabilities(p)
    else:
        s.set_values_local(np.array_split(v, comm.size)[comm.rank])
        s.set_probabilities_local(np.array_split(p, comm.size)[comm.rank])
    b, m = plotP.calculate_1D_marginal_probs(s, nbins=3)
    res = {'bins%d' % i: a(x) for i, x in enumerate(b)}
    res.update({'marg%d' % i: a(m[i]) for i in m})
    if dim > 1:
        b, m = plotP.calculate_2D_marginal_probs(s, nbins=[2, 3, 2][:dim])
        res.update({'marg%d%d' % k: a(x) for k, x in m.items()})
    return res


def jacs(n, nq, dim):
    i = np.arange(n * nq * dim).reshape(n, nq, dim) + 1.0
    return np.sin(1.7 * i) + 0.3 * np.cos(0.31 * i * i)


def p_choose(rank, n, dim, nq, k, nret, measure, verbose):
    import bet.sensitivity.chooseQoIs as cq
    s = mk_set(n, dim)
    s.set_jacobians(jacs(n, nq, dim))
    if verbose:
        m, t = cq.chooseOptQoIs_verbose(s, num_qois_return=k, num_optsets_return=nret, measure=measure)
        keep = np.isfinite(m[:, 0])
        return {'best': a(m), 'sv': a(t[:, :, keep])}
    return {'best': a(cq.chooseOptQoIs(s, num_qois_return=k, num_optsets_return=nret, measure=measure))}


def p_choose_large(rank, n, dim, nq, nret, measure, tol):
    import bet.sensitivity.chooseQoIs as cq
    s = mk_set(n, dim)
    s.set_jacobians(jacs(n, nq, dim))
    best, sv = cq.chooseOptQoIs_large_verbose(s, max_qois_return=dim, num_optsets_return=nret, measure=measure, measskew_tol=tol)
    res = {}
    for i, b in enumerate(best):
        b = np.array(b)
        res['best%d' % i] = b[np.isfinite(b[:, 0])]
        res['sv%d' % i] = np.array(sv[i])[:, :, :np.isfinite(b[:, 0]).sum()]
    return res


def p_sampling_error(rank, n, dim, kind, region):
    import bet.calculateP.calculateError as ce
    d = mk_disc(n, dim, kind, 3, emu=0)
    d.get_input_sample_set().estimate_volume_mc()
    d.set_io_ptr()
    e = ce.sampling_error(d)
    up, low = e.calculate_for_contour_events()
    res = {'up': a(up), 'low': a(low)}
    s = out_partition('rectangle', 3, dim)
    em = mk_set(3 * n + 1, dim, values=pts(3 * n + 1, dim, 0.37))
    res['region'] = a(e.calculate_for_sample_set_region(s, region, em))
    res['region0'] = a(e.calculate_for_sample_set_region(s, region))
    return res


def p_model_error(rank, n, dim, kind, how):
    import bet.calculateP.calculateError as ce
    d = mk_disc(n, dim, kind, 3, emu=0 if how != 'disc-emulated' else 2 * n + 1)
    out = d.get_output_sample_set()
    out.set_error_estimates(0.9 * np.sin(3.0 * np.arange(2 * n)).reshape(n, 2))
    e = ce.model_error(d)
    res = {'contour': a(e.calculate_for_contour_events())}
    s = out_partition('rectangle', 3, dim)
    if how == 'emulated':
        em = mk_set(3 * n + 1, dim, values=pts(3 * n + 1, dim, 0.37))
        res['region'] = a(e.calculate_for_sample_set_region(s, 1, em))
    else:
        res['region'] = a(e.calculate_for_sample_set_region(s, 1))
    return res


def p_surrogate(rank, n, dim, order, dist):
    import bet.surrogates as su
    import bet.sample as samp
    from bet.Comm import comm
    d = mk_disc(n, dim, 'voronoi', 3, emu=0)
    d.get_input_sample_set().set_jacobians(jacs(n, 2, dim))
    d.get_output_sample_set().set_error_estimates(0.3 * np.sin(5.0 * np.arange(2 * n)).reshape(n, 2))
    sur = su.piecewise_polynomial_surrogate(d)
    k = 2 * n + 3
    s = samp.sample_set(dim)
    v = pts(k, dim, 0.29)
    if dist == 'global':
        s.set_values(v)
    else:
        s.set_values_local(np.array_split(v, comm.size)[comm.rank])
    sd = sur.generate_for_input_set(s, order)
    reg = out_partition('rectangle', 3, dim)
    pr, er = sur.calculate_prob_for_sample_set_region(reg, [0, 1])
    o = sd.get_output_sample_set()
    o.local_to_global()
    return {'values': a(o.get_values()), 'ee': a(o.get_error_estimates()), 'prob': a(pr), 'err': a(er),
            'inprob': a(d.get_input_sample_set().get_probabilities()), 'eid': a(d.get_input_sample_set().get_error_id())}


def p_sampler(rank, n, dim, form, glob):
    import bet.sampling.basicSampling as bs
    import bet.sample as samp

    def model(x):
        y = q(x)
        if form == 'plain':
            return y
        if form == 'vector':
            return y[:, 0]
        if form == 'errors':
            return y, 0.1 * y
        if form == 'jacobians':
            return y, np.repeat(y[:, :, None], dim, axis=2)
        return y, 0.1 * y, np.repeat(y[:, :, None], dim, axis=2)
    sam = bs.sampler(model, error_estimates=form in ('errors', 'both'), jacobians=form in ('jacobians', 'both'))
    s = mk_set(n, dim)
    d = sam.compute_qoi_and_create_discretization(s, globalize=glob)
    if not glob:
        d.local_to_global()
    i, o = d.get_input_sample_set(), d.get_output_sample_set()
    return {'in': a(i.get_values()), 'out': a(o.get_values()), 'jac': a(i.get_jacobians()), 'ee': a(o.get_error_estimates())}


def p_regular(rank, n, dim):
    import bet.sampling.basicSampling as bs
    s = bs.regular_sample_set(mk_set(1, dim), [n, 2, 3][:dim])
    s.local_to_global()
    return {'values': a(s.get_values())}


def p_simplefun(rank, n, dim, which):
    import bet.calculateP.simpleFunP as sf
    d = mk_disc(n, dim, 'voronoi', 3, emu=0)
    ref = np.array([0.7, 0.1])
    if which == 'regular-size':
        s = sf.regular_partition_uniform_distribution_rectangle_size(d, ref, rect_size=[0.5, 0.4], cells_per_dimension=[2, 1])
    elif which == 'regular-scaled':
        s = sf.regular_partition_uniform_distribution_rectangle_scaled(d, ref, rect_scale=0.5, cells_per_dimension=2)
    elif which == 'regular-domain':
        s = sf.regular_partition_uniform_distribution_rectangle_domain(d, np.array([[0.0, -0.5], [1.0, 0.75]]), cells_per_dimension=2)
    elif which == 'data':
        s = sf.uniform_partition_uniform_distribution_data_samples(d)
    else:
        s = sf.user_partition_user_distribution(d, q(pts(4, dim, 0.2)), q(pts(11, dim, 0.6)))
    d.globalize_ptrs()
    return {'prob': a(s.get_probabilities()), 'values': a(s.get_values()), 'io': a(d.get_io_ptr())}


def p_setops(rank, n, dim, cnum):
    d1 = mk_disc(n, dim, emu=2)
    d2 = mk_disc(n + 2, dim, emu=3, dist='local')
    d1.get_input_sample_set().set_jacobians(jacs(n, 2, dim))
    m = d1.merge(d2)
    m.local_to_global()
    c = d1.clip(cnum)
    c.local_to_global()
    h = d1.choose_inputs_outputs(inputs=[dim - 1], outputs=[1])
    h.local_to_global()
    r = {}
    for nm, d in (('merge', m), ('clip', c), ('choose', h)):
        r[nm + '-in'] = a(d.get_input_sample_set().get_values())
        r[nm + '-out'] = a(d.get_output_sample_set().get_values())
    r['jac'] = a(h.get_input_sample_set().get_jacobians())
    # paired after gathering: recompute the model on the merged inputs
    r['paired'] = a(np.abs(q(r['merge-in'][:n]) - r['merge-out'][:n]).max()) if m.check_nums() == 0 else a(0.0)
    return {k: (np.array(sorted(map(tuple, v.tolist()))) if k.startswith('merge') else v) for k, v in r.items()}


def p_num(rank, n, dim, loc):
    s = mk_set(n, dim)
    s.set_probabilities(probs(n))
    s.global_to_local()
    if loc:
        import bet.sample as samp
        t = samp.sample_set(dim)
        t.set_values_local(s.get_values_local())
        t.set_probabilities_local(s.get_probabilities_local())
        s = t
    num = s.check_num()
    s.local_to_global()
    return {'num': a(num), 'values': a(s.get_values()), 'prob': a(s.get_probabilities())}


def p_density(rank, n, dim, how):
    import bet.calculateP.calculateR as cr
    import bet.sample as samp
    n = n + 4
    d = mk_disc(n, dim, 'voronoi', 3, dist='local')
    obs = samp.sample_set(2)
    obs.set_values(q(pts(5, dim, 0.6)))
    d.set_output_observed_set(obs)
    cr.print = lambda *a, **k: None     # diagnostics only
    getattr(cr, how)(d)
    s = d.get_input_sample_set()
    r = {'weights': a(s.get_weights())}
    if how == 'invert_to_kde':
        r['pdf'] = a(s.pdf(pts(4, dim, 0.1)))
    elif how != 'invert':
        r['pdf'] = a(s.pdf(pts(4, dim, 0.1)))
        r['mean'] = a(s.get_prob_parameters()[0])
    return r


def p_pdf(rank, n, dim, dist):
    from bet.Comm import comm
    import bet.sample as samp
    s = samp.sample_set(dim)
    s.set_domain(box(dim))
    v, p = pts(n, dim), probs(n)
    if dist == 'global':
        s.set_values(v)
        s.set_probabilities(p)
    else:
        s.set_values_local(np.array_split(v, comm.size)[comm.rank])
        s.set_probabilities_local(np.array_split(p, comm.size)[comm.rank])
    s.set_prob_type('voronoi')
    return {'pdf': a(s.pdf(pts(5, dim, 0.1)))}


def p_sort(rank, n, dim):
    import bet.postProcess.postTools as pt
    import bet.calculateP.calculateP as cp
    d = mk_disc(n, dim, 'voronoi', 3)
    d.get_input_sample_set().set_probabilities((np.arange(n) * 3 % 7 + 1.0) / (np.arange(n) * 3 % 7 + 1.0).sum())
    d.get_input_sample_set().set_volumes(1.0 / (1.0 + np.arange(n) ** 2))
    s, i = pt.sort_by_rho(d)
    k, t, j = pt.sample_highest_prob(0.6, d)
    return {'i': a(i), 'j': a(j), 'v': a(s.get_output_sample_set().get_values())}


def programs(thorough=False):
    """(name, fn, args after n, smallest n)."""
    L = []
    K = ('voronoi', 'rectangle', 'cartesian', 'ball')
    for dim in (1, 2, 3):
        for g in (True, False):
            L.append(('volume_mc', p_volume_mc, (dim, g), 1))
        for ne in (1, 7):
            L.append(('volume_emulated', p_volume_emulated, (dim, 'voronoi', ne), 1))
        L.append(('volume_emulated', p_volume_emulated, (dim, 'rectangle', 5), 1))
        L.append(('volume_emulated', p_volume_emulated, (dim, 'ball', 5), 1))
        if dim < 3:
            L.append(('volume_exact', p_volume_exact, (dim, 'voronoi'), 1 if dim == 1 else 1))
            L.append(('volume_exact', p_volume_exact, (dim, 'cartesian'), 1))
        L.append(('volume_exact', p_volume_exact, (dim, 'ball'), 1))
        for dist in ('global', 'local'):
            for kind in K:
                L.append(('pointers', p_pointers, (dim, kind, dist, dist == 'global'), 1))
                for how in ('mc', 'emulated-volumes', 'on-emulated', 'exact1d', 'local-then-global'):
                    if dim > 1 and how == 'exact1d':
                        continue
                    L.append(('prob', p_prob, (dim, kind, dist, how), 1))
            L.append(('marginals', p_marginals, (dim, dist), 1))
            L.append(('pdf', p_pdf, (dim, dist), 1))
            for order in (0, 1):
                L.append(('surrogate', p_surrogate, (dim, order, dist), 1))
        for kind in ('voronoi', 'rectangle', 'ball'):
            for how in ('sample', 'emulated', 'emulated-empty', 'disc'):
                L.append(('transfer', p_transfer, (dim, kind, how), 3 if how == 'emulated-empty' else 1))
            for how in ('emulated', 'disc-emulated', 'mc'):
                L.append(('model_error', p_model_error, (dim, kind, how), 2))
            L.append(('sampling_error', p_sampling_error, (dim, kind, 1), 2 if dim == 1 else dim + 2))
        for form in ('plain', 'vector', 'errors', 'jacobians', 'both'):
            for g in (True, False):
                L.append(('sampler', p_sampler, (dim, form, g), 1))
        L.append(('regular', p_regular, (dim,), 1))
        for w in ('regular-size', 'regular-scaled', 'regular-domain', 'data', 'user'):
            L.append(('simplefun', p_simplefun, (dim, w), 2))
        for c in (1, 2, 9):
            L.append(('setops', p_setops, (dim, c), 1))
        for loc in (True, False):
            L.append(('num', p_num, (dim, loc), 1))
        for how in ('invert', 'invert_to_kde', 'invert_to_gmm', 'invert_to_multivariate_gaussian'):
            L.append(('density', p_density, (dim, how), 1))
        L.append(('sort', p_sort, (dim,), 1))
    for dim in (2, 3):
        for nq in (2, 3, 4, 5):
            for k in range(1, dim + 1):
                for nret in (1, 2, 4, 10):
                    for measure in (False, True):
                        if k == 1 and not measure:
                            continue   # skewness of a single quantity is always one: only ties
                        L.append(('choose', p_choose, (dim, nq, k, nret, measure, nret != 2), 1))
            for nret in (1, 3):
                for measure in (False, True):
                    for tol in (np.inf, 1.6):
                        L.append(('choose_large', p_choose_large, (dim, nq, nret, measure, tol), 1))
    return L
