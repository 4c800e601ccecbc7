"""Library calls never modify the caller's data and repeat identically."""
import os
import shutil
import tempfile

import numpy as np

from mc import build as B
from mc.core import require
from mc.fakempi import run_ranks

RULE = ('every entry of the table of public calls x representation of the caller\'s numbers (integer, float, single precision, lists, Fortran order) x processes x {one, two calls on the same arguments}; oracle: deep snapshots of every argument '
        '(items that were set keep their contents; caches may appear) and, for calls that only compute, equal results of both calls with the same generator state')
BOUNDS = {'quick': {'calls': 'about 130', 'representations': 5, 'ranks': '1..2', 'repetitions': 2}, 'thorough': {'calls': 'about 130', 'representations': 5, 'ranks': '1..3', 'repetitions': 3}}
ASSUMPTIONS = ['the object whose update is the documented purpose of a call may change in the items the call computes', 'sets passed to the random and Latin hypercube samplers are filled by them, as documented']

KINDS = ('float', 'int', 'single', 'list', 'fortran')
PTS = np.array([[1, 7, 4], [8, 3, 6], [5, 1, 9], [6, 10, 2], [3, 4, 1], [7, 0, 5], [0, 6, 8]])


def rep(x, kind):
    x = np.asarray(x)
    if kind == 'int':
        return np.array(np.rint(x), dtype=int)
    if kind == 'single':
        return x.astype('float32')
    if kind == 'list':
        return x.tolist()
    if kind == 'fortran':
        return np.asfortranarray(x.astype(float))
    return x.astype(float)


def arr(x, kind):
    return rep(x, 'float' if kind == 'list' else kind)


def shot(o):
    if hasattr(o, 'get_input_sample_set') and hasattr(o, 'get_io_ptr'):
        return B.snap_disc(o)
    if hasattr(o, 'get_values') and hasattr(o, 'get_p_norm'):
        return B.snap_set(o)
    return B.freeze(o)


class Watch(object):
    """Arguments of the call under observation."""

    def __init__(self, kind):
        self.kind = kind
        self.items = []

    def __call__(self, o, free=()):
        self.items.append((o, tuple(free)))
        return o

    def a(self, x):
        """a caller's array-like in the current representation"""
        return self(rep(x, self.kind))

    def arr(self, x):
        return self(arr(x, self.kind))

    def snap(self):
        return [shot(o) for o, _ in self.items]

    def check(self, before, when):
        for (o, free), b in zip(self.items, before):
            n = shot(o)
            if isinstance(b, dict):
                bad = self.changed(b, n, free)
                require(not bad, '%s: the %s passed by the caller changed in %s', when, type(o).__name__, bad)
            else:
                require(n == b, '%s: the caller\'s %s changed: now %s', when, type(o).__name__, str(o)[:200])

    def changed(self, b, n, free, path=''):
        bad = []
        for k in b:
            p = path + k
            if p in free or k in free or any(p.startswith(f + '.') for f in free):
                continue
            if b[k] is None:
                continue
            if isinstance(b[k], dict):
                bad += self.changed(b[k], n[k], free, p + '.') if isinstance(n[k], dict) else [p]
            elif b[k] != n[k]:
                bad.append(p)
        return bad


def mkset(w, n=5, dim=2, cls='sample_set', opt=(), shift=0, free=(), watch=True):
    """A set built from watched arrays."""
    import bet.sample as samp
    s = getattr(samp, cls)(dim)
    s.set_domain(w.arr(np.array([[-1, 11]] * dim)))
    s.set_values(w.a(PTS[:n, :dim] + shift))
    i = np.arange(1, n + 1)
    if 'prob' in opt:
        s.set_probabilities(w(i / float(i.sum())))
    if 'vol' in opt:
        s.set_volumes(w(i[::-1] / float(i.sum())))
    if 'vol0' in opt:
        s.set_volumes(w(np.where(i % 2 == 0, 0.0, i) / float(i[i % 2 == 1].sum())))
        s.set_probabilities(w(np.where(i % 2 == 0, 0.0, i) / float(i[i % 2 == 1].sum())))
    if 'jac' in opt:
        s.set_jacobians(w.arr(np.array([[[(3 * k + 2 * r + 5 * c + r * c) % 7 + 1 for c in range(dim)] for r in range(3)] for k in range(n)])))
    if 'ee' in opt:
        s.set_error_estimates(w.arr((PTS[:n, :dim] % 3) - 1))
    if 'region' in opt:
        s.set_region(w((np.arange(n) % 2) + 1))
    if 'ref' in opt:
        s.set_reference_value(w.arr([5] * dim))
    if 'weights' in opt:
        s.set_weights(w(i / float(i.sum())))
    if watch:
        w(s, free)
    return s


def mkdisc(w, n=5, dim=2, odim=2, opt=(), emu=False, ops=True, obs=False, free=(), oopt=(), cls='sample_set'):
    import bet.sample as samp
    inp = mkset(w, n, dim, cls, opt, watch=False)
    out = mkset(w, n, odim, 'sample_set', oopt, watch=False)
    kw = {}
    if emu:
        kw['emulated_input_sample_set'] = mkset(w, 7, dim, shift=0, watch=False)
    if ops:
        o = samp.voronoi_sample_set(odim)
        o.set_values(w.a(PTS[:3, :odim]))
        o.set_domain(w.arr([[-1, 11]] * odim))
        o.set_probabilities(w(np.array([0.25, 0.5, 0.25])))
        kw['output_probability_set'] = o
    d = samp.discretization(inp, out, **kw)
    if obs:
        q = mkset(w, 6, odim, shift=1, watch=False)
        d.set_output_observed_set(q)
    w(d, free)
    return d


INV = ('input_sample_set.weights', 'input_sample_set.prob_type', 'input_sample_set.prob_parameters', 'input_sample_set.cluster_maps', 'input_sample_set.probabilities', 'input_sample_set.probabilities_local', 'input_sample_set.values_local')
PROB = ('input_sample_set.probabilities', 'input_sample_set.probabilities_local', 'input_sample_set.volumes', 'input_sample_set.volumes_local', 'input_sample_set.densities', 'input_sample_set.densities_local')


def table():
    """name -> (builder(w) -> call, repeatable)."""
    E = {}

    def entry(name, repeat=True):
        def deco(f):
            assert name not in E, name
            E[name] = (f, repeat)
            return f
        return deco
    import bet.sample as samp
    import bet.util as util
    import bet.calculateP.calculateP as cp
    import bet.calculateP.calculateR as cr
    import bet.calculateP.calculateError as ce
    import bet.calculateP.simpleFunP as sf
    import bet.postProcess.postTools as pt
    import bet.postProcess.plotP as pp
    import bet.postProcess.compareP as cmp
    import bet.sensitivity.gradients as gr
    import bet.sensitivity.chooseQoIs as cq
    import bet.sampling.basicSampling as bs
    import bet.surrogates as su
    cr.print = lambda *a, **k: None

    # ---- shaping utilities
    entry('util.meshgrid_ndim')(lambda w: (lambda x=w((w.a([3, 1, 2]), w.a([5, 4]))): util.meshgrid_ndim(x)))
    for nm in ('fix_dimensions_vector', 'fix_dimensions_vector_2darray', 'fix_dimensions_data', 'get_global_values', 'clean_data'):
        entry('util.' + nm)(lambda w, nm=nm: (lambda x=w.arr(PTS[:, 0]) if nm in ('get_global_values', 'clean_data') else w.a(PTS[:, 0]): getattr(util, nm)(x)))
    entry('util.fix_dimensions_domain')(lambda w: (lambda x=w.a([[0, 1], [2, 5], [3, 4]]): util.fix_dimensions_domain(x)))
    entry('util.fix_dimensions_data(dim)')(lambda w: (lambda x=w.a(PTS.T): util.fix_dimensions_data(x, 3)))

    def nans(w):
        x = w(np.array([[1.0, np.nan], [np.inf, -np.inf]]))
        return lambda: util.clean_data(x)
    entry('util.clean_data(special)')(nans)

    # ---- densities
    rv = [['norm', {'loc': 0.5, 'scale': 2.0}], ['uniform', {'loc': 0.0, 'scale': 9.0}]]

    def params(w, t):
        if t == 'rv':
            return w([[a, dict(b)] for a, b in rv])
        if t == 'gmm':
            return w(([w.arr([1, 2]), w.arr([4, 5])], [w.arr([[2, 0], [0, 3]]), w.arr([[4, 1], [1, 4]])], [0.25, 0.75]))
        from scipy import stats
        return w((np.array([[stats.gaussian_kde(PTS[:, j].astype(float))] for j in range(2)]), [1.0]))
    for t in ('rv', 'gmm'):
        def pdf(w, t=t):
            p, x = params(w, t), w.arr(PTS[:, :2])
            return lambda: samp.evaluate_pdf(t, p, x)

        def mpdf(w, t=t):
            p, x = params(w, t), w.arr(PTS[:, 0])
            return lambda: samp.evaluate_pdf_marginal(t, p, x, 1)

        def spdf(w, t=t):
            s = mkset(w)
            s.set_prob_type(t)
            s.set_prob_parameters(params(w, t))
            s.set_prob_type_init(t)
            s.set_prob_parameters_init(params(w, t))
            x, y = w.arr(PTS[:, :2]), w.arr(PTS[:, 1])
            return lambda: [s.pdf(x), s.pdf_init(x), s.marginal_pdf(y, 0), s.marginal_pdf_init(y, 1)]

        def upd(w, t=t):
            s = mkset(w)
            s.set_prob_type(t)
            s.set_prob_parameters(params(w, t))
            return lambda: bs.sample_from_updated(s, 9)
        entry('evaluate_pdf ' + t)(pdf)
        entry('evaluate_pdf_marginal ' + t)(mpdf)
        entry('set pdf ' + t)(spdf)
        entry('sample_from_updated ' + t)(upd)

    def vpdf(w):
        s = mkset(w, opt=('prob', 'vol'))
        s.set_prob_type('voronoi')
        x = w.arr(PTS[:, :2])
        return lambda: [s.pdf(x), s.marginal_pdf(w.arr(PTS[:, 0]), 0)]
    entry('set pdf voronoi')(vpdf)

    # ---- sets
    for nm, call, free in (('normalize', lambda s: s.normalize_domain(), ('values', 'values_local', 'error_estimates', 'error_estimates_local', 'domain', 'jacobians', 'jacobians_local', 'reference_value', '_domain_original', '_left', '_right', '_width', '_left_local', '_right_local', '_width_local', '_radii')),
                           ('undo', lambda s: (s.normalize_domain(), s.undo_normalize_domain()), ('values', 'values_local', 'error_estimates', 'error_estimates_local', 'domain', 'jacobians', 'jacobians_local', 'reference_value', '_domain_original', '_left', '_right', '_width', '_left_local', '_right_local', '_width_local')),
                           ('update_bounds', lambda s: s.update_bounds(), ('_left', '_right', '_width')),
                           ('bounding_box', lambda s: (s.set_bounding_box(), s.get_bounding_box())[1], ()), ('volume_mc', lambda s: s.estimate_volume_mc(), ('volumes', 'volumes_local')),
                           ('volume', lambda s: s.estimate_volume(50), ('volumes', 'volumes_local')), ('clip', lambda s: s.clip(3), ()), ('copy', lambda s: s.copy(), ()), ('check', lambda s: (s.check_num(), s.check_num_local(), s.shape()), ()),
                           ('localize', lambda s: (s.global_to_local(), s.local_to_global()), ()), ('kdtree', lambda s: s.set_kdtree(), ()), ('densities', lambda s: s.set_densities(), ('densities', 'densities_local')),
                           ('radii', lambda s: s.estimate_radii(50), ('_radii', '_normalized_radii', '_radii_local', '_normalized_radii_local')), ('radii2', lambda s: s.estimate_radii_and_volume(50, normalize=False), ('_radii', '_normalized_radii', 'volumes', 'volumes_local', '_radii_local', '_normalized_radii_local')),
                           ('local_volume', lambda s: s.estimate_local_volume(20), ('volumes', 'volumes_local')), ('exact2d', lambda s: s.exact_volume_2D(), ('volumes', 'volumes_local'))):
        def op(w, call=call, free=free):
            s = mkset(w, 5, 2, 'voronoi_sample_set', ('prob', 'vol', 'jac', 'region', 'ref', 'ee'), free=free)
            return lambda: call(s)
        entry('set ' + nm, nm in ('bounding_box', 'clip', 'copy', 'check'))(op)

    def ex1(w):
        s = mkset(w, 5, 1, free=('volumes', 'volumes_local'))
        return lambda: s.exact_volume_1D()
    entry('set exact1d', False)(ex1)

    def query(w, cls, arrays=True):
        s = mkset(w, 5, 2, opt=('prob',)) if cls == 'sample_set' else sets(w, cls)
        x = w.arr(PTS[:, :2])
        return lambda: s.query(x)

    def sets(w, cls):
        s = getattr(samp, cls)(2)
        if cls == 'rectangle_sample_set':
            s.setup(maxes=w.a([[2, 3], [6, 9]]), mins=w.a([[0, 1], [4, 5]]))
        elif cls == 'ball_sample_set':
            s.setup(w.a([[1, 1], [6, 6]]), w.a([1, 2]))
        else:
            s.setup(w([w.arr([0, 3, 7]), w.arr([0, 5, 9])]))
        s.set_domain(w.arr([[-1, 11], [-1, 11]]))
        w(s)
        return s
    for cls in ('sample_set', 'rectangle_sample_set', 'ball_sample_set', 'cartesian_sample_set'):
        entry('query ' + cls)(lambda w, cls=cls: query(w, cls))
        if cls != 'sample_set':
            def vols(w, cls=cls):
                s = sets(w, cls)
                w.items[-1] = (s, ('volumes', 'volumes_local'))
                return lambda: s.exact_volume_lebesgue() if cls != 'ball_sample_set' else s.exact_volume()
            entry('volumes ' + cls, False)(vols)

    def emuvol(w):
        s = mkset(w, 4, 2, free=('volumes', 'volumes_local'))
        e = mkset(w, 7, 2)
        return lambda: s.estimate_volume_emulated(e)
    entry('estimate_volume_emulated', False)(emuvol)

    def merge(w):
        a, b = mkset(w, 4, 2, opt=('prob', 'vol', 'jac', 'ee', 'region')), mkset(w, 6, 2, opt=('prob', 'vol', 'jac', 'ee', 'region'))
        return lambda: a.merge(b)
    entry('merge sets')(merge)

    def append(w):
        s = mkset(w, 4, 2, watch=False)
        x = w.a(PTS[4:, :2])
        return lambda: s.append_values(x)
    entry('append_values', False)(append)

    def appendj(w):
        s = mkset(w, 4, 2, opt=('jac', 'ee'), watch=False)
        s.global_to_local()
        x, y, z = w.arr(np.ones((3, 3, 2))), w.arr(PTS[4:, :2]), w.a(PTS[4:, :2])
        return lambda: (s.append_values(z), s.append_jacobians(x), s.append_error_estimates(y))
    entry('append_others', False)(appendj)

    def appendl(w):
        s = mkset(w, 4, 2, watch=False)
        s.global_to_local()
        z = w.a(PTS[4:, :2])
        return lambda: s.append_values_local(z)
    entry('append_local', False)(appendl)
    for nm, free in (('set_io_ptr', ()), ('set_emulated_ii_ptr', ()), ('estimate_input_volume_emulated', ('input_sample_set.volumes', 'input_sample_set.volumes_local')), ('globalize_ptrs', ()), ('check_nums', ()), ('copy', ()), ('local_to_global', ()), ('global_to_local', ()), ('get_io_ptr', ())):
        def dop(w, nm=nm, free=free):
            d = mkdisc(w, emu=True, free=free, opt=('vol', 'prob'))
            return lambda: getattr(d, nm)()
        entry('disc ' + nm, nm in ('copy', 'check_nums', 'get_io_ptr'))(dop)

    def dclip(w):
        d = mkdisc(w, opt=('prob', 'vol', 'jac'), oopt=('ee',))
        return lambda: d.clip(2)
    entry('disc clip')(dclip)

    def dmerge(w):
        a, b = mkdisc(w, 4, opt=('prob', 'vol')), mkdisc(w, 6, opt=('prob', 'vol'))
        return lambda: a.merge(b)
    entry('disc merge')(dmerge)

    def dchoose(w):
        d = mkdisc(w, dim=3, odim=3, opt=('prob', 'vol', 'jac'), ops=False)
        i, o = w([2, 0]), w([1, 2])
        return lambda: d.choose_inputs_outputs(inputs=i, outputs=o)
    entry('disc choose')(dchoose)

    # ---- probabilities
    for nm in ('prob', 'prob_with_emulated_volumes', 'prob_on_emulated_samples'):
        def pr(w, nm=nm):
            d = mkdisc(w, emu=nm != 'prob', opt=('vol',), free=PROB + ('emulated_input_sample_set.probabilities', 'emulated_input_sample_set.probabilities_local'))
            return lambda: (getattr(cp, nm)(d), d.get_input_sample_set().get_probabilities())[1]
        entry('calculateP.' + nm)(pr)

    def pss(w):
        a, b = mkset(w, 6, 2, opt=('prob', 'vol')), mkset(w, 4, 2, shift=1, free=('probabilities', 'probabilities_local'))
        return lambda: cp.prob_from_sample_set(a, b)
    entry('calculateP.prob_from_sample_set')(pss)

    def pse(w):
        a, b, e = mkset(w, 6, 2, opt=('prob', 'vol')), mkset(w, 4, 2, shift=1, free=('probabilities', 'probabilities_local', 'volumes', 'volumes_local')), mkset(w, 7, 2)
        w.items = [(o, f + ('volumes', 'volumes_local') if o is a else f) for o, f in w.items]
        return lambda: cp.prob_from_sample_set_with_emulated_volumes(a, b, e)
    entry('calculateP.prob_from_sample_set_with_emulated_volumes')(pse)

    def pdi(w):
        d, b = mkdisc(w, emu=True, opt=('prob', 'vol'), free=('emulated_input_sample_set.probabilities', 'emulated_input_sample_set.probabilities_local', 'input_sample_set.volumes', 'input_sample_set.volumes_local')), mkset(w, 4, 2, shift=1, free=('probabilities', 'probabilities_local'))
        d.get_emulated_input_sample_set().set_probabilities(np.ones(7) / 7)
        return lambda: cp.prob_from_discretization_input(d, b)
    entry('calculateP.prob_from_discretization_input')(pdi)
    for nm in ('generate_output_kdes', 'invert', 'invert_to_kde', 'invert_rejection_sampling', 'invert_to_gmm', 'invert_to_multivariate_gaussian'):
        def iv(w, nm=nm):
            d = mkdisc(w, 7, ops=False, obs=True, free=INV)
            return lambda: getattr(cr, nm)(d)
        entry('calculateR.' + nm, nm != 'invert_rejection_sampling')(iv)

    def irv(w):
        d = mkdisc(w, 7, ops=False, obs=True, free=INV)
        r = w([['norm', {'floc': 0.5}], ['norm', {}]])
        return lambda: cr.invert_to_random_variable(d, r, 50)
    entry('calculateR.invert_to_random_variable')(irv)

    # ---- simple functions
    for nm in ('regular_partition_uniform_distribution_rectangle_size', 'uniform_partition_uniform_distribution_rectangle_size'):
        def fs(w, nm=nm):
            d = mkdisc(w, free=('output_probability_set', 'io_ptr', 'io_ptr_local', 'emulated_oo_ptr', 'emulated_oo_ptr_local'))
            q, r = w.arr([5, 4]), w.a([2, 3])
            kw = {'cells_per_dimension': w([2, 1])} if nm.startswith('regular') else {'M': 4, 'num_d_emulate': 40}
            return lambda: getattr(sf, nm)(d, q, rect_size=r, **kw)
        entry('simpleFunP.' + nm)(fs)
    for nm in ('regular_partition_uniform_distribution_rectangle_domain', 'uniform_partition_uniform_distribution_rectangle_domain'):
        def fd(w, nm=nm):
            d = mkdisc(w, free=('output_probability_set', 'io_ptr', 'io_ptr_local'))
            r = w.arr([[2, 3], [6, 8]])
            kw = {'cells_per_dimension': w([2, 1])} if nm.startswith('regular') else {'M': 4, 'num_d_emulate': 40}
            return lambda: getattr(sf, nm)(d, r, **kw)
        entry('simpleFunP.' + nm)(fd)
    for nm in ('regular_partition_uniform_distribution_rectangle_scaled', 'uniform_partition_uniform_distribution_rectangle_scaled'):
        def fc(w, nm=nm):
            d = mkdisc(w, free=('output_probability_set', 'io_ptr', 'io_ptr_local'))
            q = w.arr([5, 4])
            kw = {'cells_per_dimension': w([2, 1])} if nm.startswith('regular') else {'M': 4, 'num_d_emulate': 40}
            return lambda: getattr(sf, nm)(d, q, rect_scale=w([0.25, 0.5]), **kw)
        entry('simpleFunP.' + nm)(fc)
    for nm in ('normal_partition_normal_distribution', 'uniform_partition_normal_distribution'):
        def fn(w, nm=nm):
            d = mkdisc(w, free=('output_probability_set', 'io_ptr', 'io_ptr_local'))
            q, r = w.arr([5, 4]), w.a([2, 3])
            return lambda: getattr(sf, nm)(d, q, std=r, M=3, num_d_emulate=60)
        entry('simpleFunP.' + nm)(fn)

    def fdat(w):
        d = mkdisc(w, free=('output_probability_set', 'io_ptr', 'io_ptr_local'))
        return lambda: sf.uniform_partition_uniform_distribution_data_samples(d)
    entry('simpleFunP.uniform_partition_uniform_distribution_data_samples')(fdat)

    def fus(w):
        d = mkdisc(w, free=('output_probability_set', 'io_ptr', 'io_ptr_local'))
        x, y = w.arr(PTS[:3, :2]), w.arr(PTS[:, :2])
        return lambda: sf.user_partition_user_distribution(d, x, y)
    entry('simpleFunP.user_partition_user_distribution')(fus)

    def fus2(w):
        d = mkset(w)
        x, y = mkset(w, 3), mkset(w, 7)
        return lambda: sf.user_partition_user_distribution(d, x, y)
    entry('simpleFunP.user_partition_user_distribution(sets)')(fus2)

    def farr(w):
        x, q = w.arr(PTS[:, :2]), w.arr([5, 4])
        return lambda: [sf.regular_partition_uniform_distribution_rectangle_scaled(x, q, rect_scale=0.5), sf.uniform_partition_uniform_distribution_data_samples(x), sf.regular_partition_uniform_distribution_rectangle_size(x, q, rect_size=2)]
    entry('simpleFunP on arrays')(farr)

    # ---- errors, surrogates
    def se(w):
        d = mkdisc(w, 6, cls='voronoi_sample_set', opt=('vol',), emu=True)
        s, e = mkset(w, 4, 2, 'voronoi_sample_set', ('region',)), mkset(w, 7, 2)
        return lambda: (lambda o: [o.calculate_for_contour_events(), o.calculate_for_sample_set_region(s, 1, e), o.calculate_for_sample_set_region(s, 2)])(ce.sampling_error(d))
    entry('sampling_error')(se)

    def me(w):
        d = mkdisc(w, 6, cls='voronoi_sample_set', opt=('vol',), emu=True, oopt=('ee',), free=('input_sample_set.error_id_local', 'input_sample_set.error_id'))
        s, e = mkset(w, 4, 2, 'voronoi_sample_set', ('region',)), mkset(w, 7, 2)
        return lambda: (lambda o: [o.calculate_for_contour_events(), o.calculate_for_sample_set_region(s, 1, e), o.calculate_for_sample_set_region(s, 2), o.calculate_for_sample_set_region_mc(s, 2)])(ce.model_error(d))
    entry('model_error')(me)

    def conn(w):
        d = mkdisc(w, 6, cls='voronoi_sample_set')
        n = w({i: [0, 1] for i in range(6)})
        return lambda: [dict(ce.cell_connectivity_exact(d)), ce.boundary_sets(d, n)]
    entry('cell_connectivity')(conn)
    for order in (0, 1):
        def sg(w, order=order):
            d = mkdisc(w, 6, opt=('vol', 'jac2'), oopt=('ee',), free=('input_sample_set.probabilities', 'input_sample_set.error_id', 'input_sample_set.probabilities_local', 'input_sample_set.error_id_local'))
            d.get_input_sample_set().set_jacobians(w.arr(np.array([[[1, 2], [0, 3]]] * 6)))
            i = mkset(w, 7, 2, free=('probabilities', 'probabilities_local', 'volumes', 'volumes_local', 'error_id', 'error_id_local'))
            s = mkset(w, 4, 2, 'voronoi_sample_set', ('region',), free=('probabilities', 'probabilities_local'))
            r = w([1, 2])

            def call():
                o = su.piecewise_polynomial_surrogate(d)
                x = o.generate_for_input_set(i, order=order)
                return [x.get_output_sample_set().get_values_local(), o.calculate_prob_for_sample_set_region(s, r, update_input=True)]
            return call
        entry('surrogate %d' % order)(sg)

    # ---- post processing
    entry('sort_by_rho')(lambda w: (lambda s=mkset(w, opt=('prob', 'vol')): pt.sort_by_rho(s)))
    entry('sort_by_rho disc')(lambda w: (lambda d=mkdisc(w, opt=('prob', 'vol')): pt.sort_by_rho(d)))
    entry('sort_by_rho empty cells')(lambda w: (lambda s=mkset(w, opt=('vol0',)): pt.sort_by_rho(s)))
    entry('sort_by_rho empty cells disc')(lambda w: (lambda d=mkdisc(w, opt=('vol0',)): pt.sort_by_rho(d)))
    for nm in ('sample_prob', 'sample_highest_prob', 'sample_lowest_prob'):
        for sort in (True, False):
            entry('%s %s' % (nm, sort))(lambda w, nm=nm, sort=sort: (lambda s=mkset(w, opt=('prob', 'vol')): getattr(pt, nm)(0.6, s, sort=sort)))
            entry('%s %s empty cells' % (nm, sort))(lambda w, nm=nm, sort=sort: (lambda s=mkset(w, opt=('vol0',)): getattr(pt, nm)(0.6, s, sort=sort)))
            entry('%s %s disc' % (nm, sort))(lambda w, nm=nm, sort=sort: (lambda s=mkdisc(w, opt=('prob', 'vol')): getattr(pt, nm)(0.6, s, sort=sort)))

    def marg(w):
        s = mkset(w, 6, 3, opt=('prob',))
        n = w([3, 2, 4])
        return lambda: [pp.calculate_1D_marginal_probs(s, nbins=n), pp.calculate_2D_marginal_probs(s, nbins=n), pp.calculate_1D_marginal_probs(s, nbins=3)]
    entry('marginals')(marg)

    def smooth(w):
        s = mkset(w, 6, 2, opt=('prob',), watch=False)
        b, m = pp.calculate_1D_marginal_probs(s, nbins=4)
        b2, m2 = pp.calculate_2D_marginal_probs(s, nbins=4)
        for o in (b, m, b2, m2):
            w(o)
        sig = w([1.0, 2.0])
        return lambda: [pp.smooth_marginals_1D(m, b, sigma=sig), pp.smooth_marginals_2D(m2, b2, sigma=sig), pp.smooth_marginals_1D(m, b, sigma=1.0)]
    entry('smoothing')(smooth)

    def dist(w):
        a, b = mkset(w, 6, 2), mkset(w, 7, 2, shift=1)
        for s, l in ((a, 0.5), (b, 1.5)):
            s.set_prob_type('rv')
            s.set_prob_parameters([['norm', {'loc': l, 'scale': 5.0}]] * 2)
        x, iv = w.arr(PTS[:, :2]), w([0.0, 9.0])

        def call():
            m = cmp.compare(a, b)
            m.set_compare_set(x)
            r = [m.distance('tv'), m.distance('hell', normalize=True), m.distance('kl')]
            return r + [m.distance_marginal(0, interval=iv, num_points=30), m.distance_marginal_quad(1, interval=iv)]
        return call
    entry('compare')(dist)

    def plots(w):
        from mc import figs
        s = mkset(w, 6, 2, opt=('prob', 'vol', 'ref'))
        d = mkdisc(w, 6, 2, opt=('prob', 'vol', 'ref'), oopt=('ref',))
        b, m = pp.calculate_1D_marginal_probs(mkset(w, 6, 2, opt=('prob',), watch=False), nbins=4)
        b2, m2 = pp.calculate_2D_marginal_probs(mkset(w, 6, 2, opt=('prob',), watch=False), nbins=4)
        for o in (b, m, b2, m2):
            w(o)
        ref, col, nos = w.arr([4, 5]), w(np.arange(6.0)), w([0, 3, 5])
        import bet.postProcess.plotDomains as pd
        import bet.postProcess.plotVoronoi as pv

        def call():
            with figs.record() as log:
                pp.plot_1D_marginal_probs(m, b, s, filename='f', lam_ref=ref)
                pp.plot_2D_marginal_probs(m2, b2, s, filename='f', lam_ref=ref)
                pp.plot_2D_marginal_contours(m2, b2, s, filename='f')
                pd.scatter_2D(s, sample_nos=nos, color=col, ref_sample=ref, filename='f')
                pd.scatter_2D_input(d, filename='f')
                pd.scatter_2D_output(d, color=col, filename='f')
                pd.scatter_rhoD(d, ref_sample=ref, io_flag='output', rho_D=lambda x: x[:, 0])
                pd.show_data_domain_2D(d, Q_ref=w(np.array([[4.0, 5.0]])))
                pv.plot_2D_voronoi(s, filename='f')
            return len(log)
        return call
    entry('plots')(plots)

    # ---- sensitivities
    def js(w):
        return mkset(w, 6, 2, opt=('jac', 'vol'))
    entry('avg_measure')(lambda w: (lambda s=js(w), q=w([0, 2]): cq.calculate_avg_measure(s, qoi_set=q, bin_measure=2.0)))
    entry('avg_skewness')(lambda w: (lambda s=js(w), q=w([0, 2]): cq.calculate_avg_skewness(s, qoi_set=q)))
    entry('avg_condnum')(lambda w: (lambda s=js(w), q=w([0, 2]): cq.calculate_avg_condnum(s, qoi_set=q)))
    entry('chooseOptQoIs')(lambda w: (lambda s=js(w), q=w([0, 1, 2]): [cq.chooseOptQoIs(s, q, 2, 3), cq.chooseOptQoIs_verbose(s, q, 2, 2, measure=True)]))
    entry('chooseOptQoIs array')(lambda w: (lambda s=js(w), q=w(np.array([2, 0, 1])): [cq.chooseOptQoIs(s, q, 2, 3), cq.chooseOptQoIs_verbose(s, q, 2, 2, measure=True)]))
    entry('find_unique_vecs')(lambda w: (lambda s=js(w), q=w([0, 1, 2]): cq.find_unique_vecs(s, 0.9, q, remove_zeros=True)))
    entry('chooseOptQoIs_large')(lambda w: (lambda s=js(w), q=w([0, 1, 2]): [cq.chooseOptQoIs_large(s, q, 2, 3), cq.chooseOptQoIs_large_verbose(s, q, 2, 3, 0.99, np.inf)]))

    def fgs(w):
        s = js(w)
        a, b = w(np.array([[0], [1], [2]])), w(np.array([0, 1, 2]))
        return lambda: cq.find_good_sets(s, a, b, 3, 10.0, False)
    entry('find_good_sets')(fgs)

    def cen(w):
        s = samp.sample_set(2)
        s.set_domain(w.arr([[-1, 11]] * 2))
        s.set_values(w.a(PTS[:3, :2]))
        return w(s)
    entry('sample_lp_ball')(lambda w: (lambda s=cen(w), r=w.a([1, 1]): [gr.sample_lp_ball(s, 4, 0.5), gr.sample_linf_ball(s, 3, w.a([1, 2])), gr.sample_l1_ball(s, 3, w.a([1, 2]))]))
    entry('pick_points')(lambda w: (lambda s=cen(w), r=w.a([1, 2]): [gr.pick_ffd_points(s, r), gr.pick_cfd_points(s, r)]))
    entry('pick_points negative')(lambda w: (lambda s=cen(w), r=w.a([-1, 2]): [gr.pick_ffd_points(s, r), gr.pick_cfd_points(s, r)]))
    entry('radial_basis')(lambda w: (lambda r=w.arr([[0, 1], [2, 3]]), x=w.arr([[0, 1], [2, 1]]): [f(*a, **k) for k in ({'kernel': 'C4Matern'}, {'kernel': 'Gaussian', 'ep': 2.0}, {}) for f, a in ((gr.radial_basis_function, (r,)), (gr.radial_basis_function_dxi, (r, x)))]))
    for nm in ('rbf', 'ffd', 'cfd'):
        for nrm in (True, False):
            def gd(w, nm=nm, nrm=nrm):
                import bet.sample as S
                s = S.sample_set(2)
                s.set_domain(w.arr([[-1, 11]] * 2))
                s.set_values(w.a(PTS[:2, :2]))
                cl = s if nm == 'rbf' else (gr.pick_ffd_points if nm == 'ffd' else gr.pick_cfd_points)(s, np.array([1.0, 2.0]))
                if nm == 'rbf':
                    cl = mkset(w, 7, 2, watch=False)
                v = np.asarray(cl.get_values(), float)
                o = S.sample_set(2)
                o.set_values(w.arr(np.rint(np.column_stack((v[:, 0] + 2 * v[:, 1], v[:, 0] * v[:, 1])))))
                d = S.discretization(cl, o)
                w(d)
                w(np.asarray(cl.get_values()))
                if nm == 'rbf':
                    return lambda: gr.calculate_gradients_rbf(d, num_centers=2, num_neighbors=5, normalize=nrm)
                return lambda: (gr.calculate_gradients_ffd if nm == 'ffd' else gr.calculate_gradients_cfd)(d, normalize=nrm)
            entry('gradients_%s %s' % (nm, nrm))(gd)

    # ---- samplers
    entry('random array')(lambda w: (lambda x=w.arr([[0, 2], [1, 9]]), r=w([['norm', {'loc': 1.0}], ['uniform', {'loc': 2.0, 'scale': 3.0}]]): [bs.random_sample_set(r, x, 5), bs.random_sample_set('uniform', x, 5), bs.lhs_sample_set(x, 4, 'center'), bs.regular_sample_set(x, w([2, 3]))]))
    entry('regular set')(lambda w: (lambda s=mkset(w), n=w([2, 3]): bs.regular_sample_set(s, n)))

    def fill(w):
        s = samp.sample_set(2)
        x = w.arr([[0, 2], [1, 9]])
        s.set_domain(x)
        r = w(['norm', {'loc': 1.0, 'scale': 2.0}])
        return lambda: [bs.random_sample_set(r, s, 5), bs.random_sample_set('uniform', s, 5), bs.lhs_sample_set(s, 5, 'c')]
    entry('random set', False)(fill)
    for form in (0, 1, 2):
        def mod(w, form=form):
            s = mkset(w, 5, 2, opt=('ref',), free=('jacobians', 'jacobians_local'))
            ys = w.arr(PTS[:5, :2] * 2)
            ee, jj = w.arr(PTS[:5, :2]), w.arr(np.arange(20).reshape(5, 2, 2))
            seen = []

            def model(x):
                seen.append(np.array(x, copy=True))
                from bet.Comm import comm
                sp = lambda z: np.array_split(z, comm.size)[comm.rank] if len(x) != 1 or comm.size == 5 else z[:1]
                return (sp(ys), (sp(ys), sp(ee)), (sp(ys), sp(ee), sp(jj)))[form]
            o = bs.sampler(model, error_estimates=form > 0, jacobians=form > 1)
            return lambda: o.compute_qoi_and_create_discretization(s)
        entry('sampler %d' % form)(mod)

    def save(w):
        d = mkdisc(w, emu=True, opt=('prob', 'vol'))
        s = mkset(w, opt=('prob',))

        def call():
            t = tempfile.mkdtemp(prefix='verif_c30_')
            try:
                d.save(os.path.join(t, 'd'))
                s.save(os.path.join(t, 's'), globalize=False)
                util.save_object(d, os.path.join(t, 'e'), globalize=True)
            finally:
                from bet.Comm import comm
                comm.barrier()
                shutil.rmtree(t, ignore_errors=True)
        return call
    entry('save')(save)
    return E


def result(x, depth=0):
    """Comparable form of a returned value (sets and discretizations by their contents)."""
    if isinstance(x, (list, tuple)):
        return [result(v) for v in x]
    if isinstance(x, dict):
        return sorted((repr(k), result(v)) for k, v in x.items())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [result(v) for v in x.ravel()]
    if hasattr(x, 'get_input_sample_set') or hasattr(x, 'get_p_norm'):
        return nocache(shot(x))
    return B.freeze(x)


def nocache(d):
    return {k: nocache(v) if isinstance(v, dict) else v for k, v in d.items() if not k.endswith('_local') and not k.startswith('kdtree')}


def p_call(rank, name, kind, times):
    f, repeat = table()[name]
    w = Watch(kind)
    call = f(w)
    before = w.snap()
    first = None
    for t in range(times):
        np.random.seed(7 + rank)
        r = result(call())
        w.check(before, '%s (%s data, call %d)' % (name, kind, t + 1))
        if repeat:
            if t == 0:
                first = r
            else:
                require(r == first, '%s (%s data): call %d with the same arguments gives another result: %s', name, kind, t + 1, [i for i, (p, q) in enumerate(zip(r, first)) if p != q] if isinstance(r, list) else (B.diff(r, first) if isinstance(r, dict) else ''))
    return times * len(before)


def run_one(ctx, item):
    name, kind, size, times = item

    def go():
        ctx.step(sum(run_ranks(size, p_call, (name, kind, times)).values()))
    ctx.case('calls', [name, kind, size], go)


def run(ctx):
    items = []
    names = list(table())
    for name in names:
        for kind in KINDS:
            for size in (1, 2, 3) if ctx.thorough else (1, 2):
                if name == 'plots' and size > 1:
                    continue
                items.append((name, kind, size, 3 if ctx.thorough else 2))
    ctx.notes['calls'] = len(names)
    ctx.shards(items, run_one)
