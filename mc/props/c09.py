"""Derived data always reflects the current samples."""
import itertools

import numpy as np

from mc import spmd
from mc.build import snap, diff
from mc.core import require, require_close, Violation
from mc.fakempi import run_ranks

RULE = ('all words over the mutating and observing operations of a sample set / discretization up to the stated length; at the end of every word '
        'all observables are compared with those of a freshly built object with the model contents; each word also on several process counts')
BOUNDS = {'quick': {'set words': 'length <= 4 over 11 operations', 'discretization words': 'length <= 3 over 13 operations', 'ranks': '1 (set), 1 and 2 (discretization)'},
          'thorough': {'set words': 'length <= 5', 'discretization words': 'length <= 4', 'ranks': '1 and 2 (set), 1-3 (discretization)'}}

DOM = np.array([[0.0, 2.0], [-1.0, 3.0]])


def vals(ver):
    n = (4, 5, 3)[ver % 3]
    return spmd.pts(n, 2, 0.11 * ver) * np.array([1.9, 3.8]) + np.array([0.0, -1.0])


PTS = spmd.pts(6, 2, 0.05) * np.array([2.0, 4.0]) + np.array([0.0, -1.0])
SET_OPS = ('values0', 'values1', 'append', 'local', 'append_local', 'normalize', 'undo', 'warm', 'norm1', 'copy', 'clip', 'domain')


class Model(object):
    def __init__(self, sc=1.0):
        self.v = vals(2) * sc
        self.dom = DOM * sc
        self.orig = None
        self.p = 2.0


def obs_set(s, pts):
    """All derived observables of a set (order fixed)."""
    r = {}
    for k in (1, 2):
        d, i = s.query(pts, k)
        r['dist%d' % k], r['ptr%d' % k] = np.array(d, dtype=float), np.array(i)
    r['bbox'] = np.array(s.get_bounding_box())
    r['num'] = np.array(s.check_num())
    r['shape'] = np.array(s.shape())
    c = s.copy()
    c.estimate_volume_mc()
    r['volmc'] = np.array(c.get_volumes())
    if np.isclose(c.get_p_norm(), 2.0):
        c.exact_volume_2D(1.0)
        r['vol2d'] = np.array(c.get_volumes())
    import bet.sample as samp
    e = samp.sample_set(2)
    e.set_values(pts)
    c.estimate_volume_emulated(e)
    r['volem'] = np.array(c.get_volumes())
    for k in (1.0, 3.0):        # pointwise bounds follow the domain
        D = c.get_domain() * k - np.array([[0.0, k - 1.0]])
        c.set_domain(D)
        c.update_bounds()
        c.update_bounds_local()
        for a, b in (('_left', 0), ('_right', 1)):
            for loc in ('', '_local'):
                x = getattr(c, a + loc)
                require(x.shape == getattr(c, '_values' + loc).shape and np.all(x == D[:, b]), '%s is %s for the domain %s', a + loc, x.tolist(), D.tolist())
                require(np.all(getattr(c, '_width' + loc) == D[:, 1] - D[:, 0]), 'widths for the domain %s', D.tolist())
    return r


def fresh_set(m):
    import bet.sample as samp
    s = samp.sample_set(2)
    s.set_domain(m.dom.copy())
    s.set_p_norm(m.p)
    s.set_values(m.v.copy())
    return s


def prog_set(rank, word, sc=1.0):
    import bet.sample as samp
    from bet.Comm import comm
    m = Model(sc)
    s = fresh_set(m)
    ver = 0
    for op in word:
        ver += 1
        norm = (lambda x: (x - m.orig[:, 0]) / (m.orig[:, 1] - m.orig[:, 0])) if m.orig is not None else (lambda x: x)
        if op in ('values0', 'values1'):
            m.v = norm(vals(int(op[-1])) * sc)
            s.set_values(m.v.copy())
        elif op == 'append':
            x = norm((PTS[:2] + 0.013 * ver) * sc)
            m.v = np.concatenate((m.v, x))
            s.append_values(x.copy())
        elif op == 'local':
            x = norm((vals(ver) * 0.9 + 0.05) * sc)
            s.set_values_local(np.array_split(x, comm.size)[comm.rank].copy())
            s.local_to_global()
            m.v = x
        elif op == 'append_local':
            if s.get_values_local() is None:
                s.global_to_local()
            x = norm((PTS[3:4] + 0.017 * ver) * sc)
            cur = comm.allgather(s.get_values_local())
            s.append_values_local(x.copy())
            s.local_to_global()
            m.v = np.concatenate([np.concatenate((c, x)) for c in cur])
        elif op == 'normalize':
            if m.orig is None:
                s.normalize_domain()
                m.orig = m.dom
                m.v = (m.v - m.dom[:, 0]) / (m.dom[:, 1] - m.dom[:, 0])
                m.dom = np.array([[0.0, 1.0], [0.0, 1.0]])
        elif op == 'undo':
            if m.orig is not None:
                s.undo_normalize_domain()
                m.v = m.v * (m.orig[:, 1] - m.orig[:, 0]) + m.orig[:, 0]
                m.dom, m.orig = m.orig, None
        elif op == 'warm':
            s.query(PTS * sc)
            s.get_bounding_box()
        elif op == 'box':
            s.get_bounding_box()
        elif op == 'ask':
            s.query(PTS * sc)
        elif op == 'norm1':
            m.p = 1.0 if m.p == 2.0 else 2.0
            s.set_p_norm(m.p)
        elif op == 'domain':
            if m.orig is None:
                m.dom = np.array([[-1.0, 2.0 + ver], [-2.0 - ver, 5.0]]) * sc
                s.set_domain(m.dom.copy())
        elif op == 'copy':
            s = s.copy()
        elif op == 'clip':
            s = s.clip(2)
            m.v = m.v[:2]
    pts = PTS * sc if m.orig is None else (PTS * sc - m.orig[:, 0]) / (m.orig[:, 1] - m.orig[:, 0])
    a, b = obs_set(s, pts), obs_set(fresh_set(m), pts)
    for k in b:
        require_close(a[k], b[k], k, 1e-8)
    require_close(s.get_values(), m.v, 'values', 1e-9)
    held = comm.allgather(s.get_values_local())
    if any(h is not None for h in held):
        require_close(np.concatenate([h for h in held if h is not None]), m.v, 'values of all processes', 1e-9)
    s.local_to_global()
    require_close(s.get_values(), m.v, 'values after gathering', 1e-9)
    return True


def run_set(ctx, item):
    word, size, sc = item

    def go():
        w = run_ranks(size, prog_set, (word, sc))
        ctx.step(len(word) * size)
        w.values()
    ctx.case('set', dict(word=word, ranks=size, scale=sc), go)


# ---- densities and probabilities -----------------------------------------------------------

PDF_OPS = ('prob0', 'prob1', 'vol0', 'vol1', 'values', 'pdf', 'densities', 'domain')


def prog_pdf(rank, word):
    import bet.sample as samp
    n = 4
    st = {'p': np.array([0.1, 0.2, 0.3, 0.4]), 'v': np.full(n, 0.25), 'x': vals(0)[:n], 'd': DOM}

    def build():
        s = samp.voronoi_sample_set(2)
        s.set_domain(st['d'].copy())
        s.set_values(st['x'].copy())
        s.set_probabilities(st['p'].copy())
        s.set_volumes(st['v'].copy())
        s.set_prob_type('voronoi')
        return s
    s = build()
    for k, op in enumerate(word):
        if op.startswith('prob'):
            st['p'] = np.roll(np.array([0.1, 0.2, 0.3, 0.4]), 1 + int(op[-1]))
            s.set_probabilities(st['p'].copy())
        elif op.startswith('vol'):
            st['v'] = np.roll(np.array([0.1, 0.5, 0.2, 0.2]), int(op[-1]))
            s.set_volumes(st['v'].copy())
        elif op == 'values':
            st['x'] = vals(0)[:n][::-1] * 0.9 + 0.01 * k
            s.set_values(st['x'].copy())
        elif op == 'pdf':
            s.pdf(PTS)
        elif op == 'densities':
            s.set_densities()
        elif op == 'domain':
            st['d'] = np.array([[0.0, 2.0 + k], [-1.0, 3.0]])
            s.set_domain(st['d'].copy())
    got = s.pdf(PTS)
    f = build()
    want = f.pdf(PTS)
    require_close(got, want, 'pdf')
    near = np.argmin(((PTS[:, None, :] - st['x'][None]) ** 2).sum(2), axis=1)
    tot = np.prod(st['d'][:, 1] - st['d'][:, 0])
    require_close(got, st['p'][near] / (st['v'][near] * tot), 'pdf by definition')
    for i in (0, 1):
        require_close(s.marginal_pdf(PTS[:, i], i), f.marginal_pdf(PTS[:, i], i), 'marginal pdf')
    return True


def run_pdf(ctx, item):
    word, size = item

    def go():
        w = run_ranks(size, prog_pdf, (word,))
        ctx.step(len(word) * size)
        w.values()
    ctx.case('density', dict(word=word, ranks=size), go)


# ---- discretizations ------------------------------------------------------------------------

DISC_OPS = ('output', 'input', 'emin', 'emout', 'opset-v', 'opset-r', 'opprob', 'io', 'io-local', 'ii', 'oo', 'prob', 'prob-em', 'prob-emvol',
            'out-in-place', 'in-in-place', 'em-in-place', 'op-in-place')


def mkvals(ver, n):
    return spmd.pts(n, 2, 0.07 * ver) * 1.5


def prog_disc(rank, word):
    import bet.sample as samp
    import bet.calculateP.calculateP as cp
    n, ne = 4, 6
    st = {'in': 1, 'out': 2, 'ei': 3, 'eo': 4, 'op': ('v', 5), 'p': 0}

    def mkset(ver, k, dom=None):
        s = samp.sample_set(2)
        s.set_values(mkvals(ver, k))
        s.set_domain(np.array([[0.0, 1.5], [0.0, 1.5]]))
        return s

    def mkin(ver):
        s = mkset(ver, n)
        s.set_volumes(np.roll(np.array([0.1, 0.2, 0.3, 0.4]), ver))
        return s

    def mkop():
        kind, ver = st['op']
        if kind == 'v':
            s = samp.voronoi_sample_set(2)
            s.set_values(mkvals(ver, 3))
        else:
            s = samp.rectangle_sample_set(2)
            c = 0.5 + 0.05 * (ver % 5)
            s.setup(mins=[[0.0, 0.0], [c, 0.0]], maxes=[[c, 1.5], [1.2, 1.5]])
        s.set_probabilities(np.roll(np.array([0.5, 0.3, 0.2]), st['p']))
        return s

    def build():
        return samp.discretization(mkin(st['in']), mkset(st['out'], n), mkop(), mkset(st['ei'], ne), mkset(st['eo'], ne))
    d = build()
    for k, op in enumerate(word):
        ver = 6 + k
        if op == 'output':
            st['out'] = ver
            d.set_output_sample_set(mkset(ver, n))
        elif op == 'input':
            st['in'] = ver
            d.set_input_sample_set(mkin(ver))
        elif op == 'emin':
            st['ei'] = ver
            d.set_emulated_input_sample_set(mkset(ver, ne))
        elif op == 'emout':
            st['eo'] = ver
            d.set_emulated_output_sample_set(mkset(ver, ne))
        elif op in ('opset-v', 'opset-r'):
            st['op'] = (op[-1], ver)
            d.set_output_probability_set(mkop())
        elif op == 'opprob':
            st['p'] += 1
            d.get_output_probability_set().set_probabilities(np.roll(np.array([0.5, 0.3, 0.2]), st['p']))
        elif op == 'out-in-place':
            st['out'] = ver
            d.get_output_sample_set().set_values(mkvals(ver, n))
            d.set_io_ptr(globalize=bool(k % 2))
        elif op == 'in-in-place':
            st['in'] = ver
            d.get_input_sample_set().set_values(mkvals(ver, n))
            d.get_input_sample_set().set_volumes(np.roll(np.array([0.1, 0.2, 0.3, 0.4]), ver))
            d.set_emulated_ii_ptr(globalize=bool(k % 2))
        elif op == 'em-in-place':
            st['ei'] = st['eo'] = ver
            d.get_emulated_input_sample_set().set_values(mkvals(ver, ne))
            d.get_emulated_output_sample_set().set_values(mkvals(ver, ne))
            d.set_emulated_ii_ptr(globalize=bool(k % 2))
            d.set_emulated_oo_ptr(globalize=not k % 2)
        elif op == 'op-in-place':
            if st['op'][0] == 'v':
                st['op'] = ('v', ver)
                d.get_output_probability_set().set_values(mkvals(ver, 3))
            d.set_emulated_oo_ptr(globalize=bool(k % 2))
            d.set_io_ptr(globalize=not k % 2)
        elif op == 'io':
            d.set_io_ptr()
        elif op == 'io-local':
            d.set_io_ptr(globalize=False)
        elif op == 'ii':
            d.set_emulated_ii_ptr()
        elif op == 'oo':
            d.set_emulated_oo_ptr()
        elif op == 'prob':
            d.get_input_sample_set().set_volumes(np.roll(np.array([0.1, 0.2, 0.3, 0.4]), st['in']))
            cp.prob(d)
        elif op == 'prob-em':
            cp.prob_on_emulated_samples(d)
        elif op == 'prob-emvol':
            cp.prob_with_emulated_volumes(d)
    f = build()
    for x, get, what in ((f.set_io_ptr, 'get_io_ptr', 'output pointer'), (f.set_emulated_ii_ptr, 'get_emulated_ii_ptr', 'emulated input pointer'),
                         (f.set_emulated_oo_ptr, 'get_emulated_oo_ptr', 'emulated output pointer')):
        x()
    d.globalize_ptrs()
    for get, what in (('get_io_ptr', 'output pointer'), ('get_emulated_ii_ptr', 'emulated input pointer'), ('get_emulated_oo_ptr', 'emulated output pointer')):
        got, want = getattr(d, get)(), getattr(f, get)()
        if got is not None:
            require(np.array_equal(got, want), 'stored %s is %s, current data give %s', what, got, want)
    # inversions with the current contents
    for how in ('prob', 'prob_on_emulated_samples', 'prob_with_emulated_volumes'):
        for o in (d, f):
            s = o.get_input_sample_set()
            s.set_volumes(np.roll(np.array([0.1, 0.2, 0.3, 0.4]), st['in']))
            getattr(cp, how)(o)
        which = 'get_emulated_input_sample_set' if how == 'prob_on_emulated_samples' else 'get_input_sample_set'
        a, b = getattr(d, which)(), getattr(f, which)()
        a.local_to_global()
        b.local_to_global()
        require_close(a.get_probabilities(), b.get_probabilities(), 'result of ' + how)
        require_close(a.get_volumes() if how.endswith('volumes') else 0, b.get_volumes() if how.endswith('volumes') else 0, 'volumes of ' + how)
    return True


def run_disc(ctx, item):
    word, size = item

    def go():
        w = run_ranks(size, prog_disc, (word,))
        ctx.step(len(word) * size)
        w.values()
    ctx.case('discretization', dict(word=word, ranks=size), go)


# ---- volumes estimated again and again -------------------------------------------------------------

VOL_OPS = ('values', 'other', 'append', 'norm', 'domain', 'unit', 'undo', 'split', 'local', 'radii', 'radii-volume', 'mc', 'carlo', 'exact')


def vol_ops(s, op):
    np.random.seed(5)
    if op == 'local':
        s.estimate_local_volume(num_emulate_local=20, max_num_emulate=100)
    elif op == 'radii':
        s.estimate_radii(200)
    elif op == 'radii-volume':
        s.estimate_radii_and_volume(200)
    elif op == 'mc':
        s.estimate_volume_mc()
    elif op == 'carlo':
        s.estimate_volume(100)
    elif op == 'exact':
        s.exact_volume_2D(1.0)


def prog_vol(rank, word):
    m = Model()
    s = fresh_set(m)
    for k, op in enumerate(word):
        if op in ('values', 'other', 'append'):
            s.set_volumes(None)
            if op == 'append':
                x = vals(k)[:2] * 0.5 + 0.01
                if m.orig is not None:
                    x = (x - m.orig[:, 0]) / (m.orig[:, 1] - m.orig[:, 0])
                s.append_values(x.copy())
                m.v = np.concatenate((m.v, x))
            else:
                v = vals(1)[:len(m.v)] * (0.9 - 0.03 * k) if op == 'values' else vals(k + 1) * 0.8
                if m.orig is not None:
                    v = (v - m.orig[:, 0]) / (m.orig[:, 1] - m.orig[:, 0])
                s.set_values(v.copy())
                m.v = v
        elif op == 'norm':
            m.p = np.inf if m.p == 2.0 else 2.0
            s.set_p_norm(m.p)
            s._normalized_radii = None          # radii that were estimated in another norm
        elif op == 'domain':
            if m.orig is None:
                m.dom = np.array([[0.0, 2.0 + k], [-1.0 - k, 3.0]])
                s.set_domain(m.dom.copy())
                s._normalized_radii = None
        elif op == 'unit':
            if m.orig is None:
                s.normalize_domain()
                s._normalized_radii = None      # the nearest cell in the Euclidean norm depends on the scaling
                m.orig = m.dom
                m.v = (m.v - m.dom[:, 0]) / (m.dom[:, 1] - m.dom[:, 0])
                m.dom = np.array([[0.0, 1.0], [0.0, 1.0]])
        elif op == 'undo':
            if m.orig is not None:
                s.undo_normalize_domain()
                s._normalized_radii = None
                m.v = m.v * (m.orig[:, 1] - m.orig[:, 0]) + m.orig[:, 0]
                m.dom, m.orig = m.orig, None
        elif op == 'split':
            s.global_to_local()
        elif op != 'exact' or m.p == 2.0:
            vol_ops(s, op)
    for op in ('mc', 'carlo', 'exact', 'radii-volume', 'local'):
        if op == 'exact' and m.p != 2.0:
            continue
        f, c = fresh_set(m), s.copy()
        if op == 'local':
            f._normalized_radii = None if s._normalized_radii is None else np.array(s._normalized_radii)
        for x in (f, c):
            vol_ops(x, op)
        require_close(c.get_volumes(), f.get_volumes(), 'volumes by %s' % op, 1e-9)
        require_close(c.get_volumes_local(), f.get_volumes_local(), 'local volumes by %s' % op, 1e-9)
        require(c.check_num() == len(m.v), 'number of samples %s', c.check_num())
        if op == 'radii-volume':
            require_close(c._normalized_radii, f._normalized_radii, 'radii', 1e-9)
    if s._normalized_radii is not None:
        f = fresh_set(m)
        np.random.seed(5)
        f.estimate_radii(200)
        require_close(s._normalized_radii, f._normalized_radii, 'stored radii', 1e-9)
    return True


def run_vol(ctx, item):
    word, size = item

    def go():
        w = run_ranks(size, prog_vol, (word,))
        ctx.step(len(word) * size)
        w.values()
    ctx.case('volumes', dict(word=word, ranks=size), go)


# ---- per-sample data replaced between computations ---------------------------------------------

DATA_OPS = ('values', 'volumes', 'probabilities', 'jacobians', 'errors', 'split', 'gather', 'invert', 'invert-local', 'marginals', 'transfer', 'surrogate', 'model-error')


def prog_data(rank, word):
    """Setters of the global data and computations in any order; afterwards every computation sees the data set last."""
    import bet.sample as samp
    import bet.calculateP.calculateP as cp
    import bet.calculateP.calculateError as ce
    import bet.postProcess.plotP as plotP
    import bet.surrogates as sur
    n = 4
    st = {'values': 0, 'volumes': 0, 'probabilities': 0, 'jacobians': 0, 'errors': 0}

    def V(k):
        return spmd.pts(n, 2, 0.03 + 0.13 * k) * 1.4

    def put(i, o, what):
        k = st[what]
        if what == 'values':
            i.set_values(V(k))
        elif what == 'volumes':
            i.set_volumes(np.roll(np.array([0.1, 0.2, 0.3, 0.4]), k))
        elif what == 'probabilities':
            i.set_probabilities(np.roll(np.array([0.05, 0.15, 0.25, 0.55]), k))
        elif what == 'jacobians':
            i.set_jacobians((np.arange(n * 4.0).reshape(n, 2, 2) * 7 + 3 * k) % 11 - 5)
        elif what == 'errors':
            o.set_error_estimates((np.arange(n * 2.0).reshape(n, 2) * 3 + k) % 7 * 0.1)

    def build():
        i, o = samp.sample_set(2), samp.sample_set(2)
        i.set_domain(np.array([[0.0, 1.5], [0.0, 1.5]]))
        o.set_values(mkvals(2, n))
        for w in st:
            put(i, o, w)
        s = samp.voronoi_sample_set(2)
        s.set_values(mkvals(5, 3))
        s.set_probabilities(np.array([0.5, 0.3, 0.2]))
        return samp.discretization(i, o, s)
    new = mkvals(9, 3)

    def target():
        s = samp.voronoi_sample_set(2)
        s.set_values(new.copy())
        return s

    def marg(s):
        return plotP.calculate_1D_marginal_probs(s, 3)[1], plotP.calculate_2D_marginal_probs(s, 2)[1]

    def surr(d):
        e = samp.sample_set(2)
        e.set_values(PTS[:, :2] * 0.7)
        r = sur.piecewise_polynomial_surrogate(d).generate_for_input_set(e, order=1)
        r.local_to_global()
        return np.array(r.get_output_sample_set().get_values()), np.array(r.get_output_sample_set().get_error_estimates())
    d = build()
    for op in word:
        i, o = d.get_input_sample_set(), d.get_output_sample_set()
        if op in st:
            st[op] += 1
            put(i, o, op)
        elif op == 'split':
            d.global_to_local()
        elif op == 'gather':
            d.local_to_global()
        elif op == 'marginals':
            marg(i)
        elif op == 'transfer':
            cp.prob_from_sample_set(i, target())
        elif op == 'surrogate':
            surr(d)
        elif op == 'model-error':
            ce.model_error(d).calculate_for_contour_events()
        else:
            cp.prob(d, globalize=op == 'invert')
            d.local_to_global()
            put(i, o, 'probabilities')          # a new measure on the inputs
    f = build()
    for a, b in zip(surr(d), surr(f)):
        require_close(a, b, 'surrogate', 1e-12)
    a, b = [cp.prob_from_sample_set(x.get_input_sample_set(), target()) for x in (d, f)]
    require_close(a, b, 'transferred probabilities', 1e-12)
    a, b = marg(d.get_input_sample_set()), marg(f.get_input_sample_set())
    for x, y in zip(a, b):
        for k in y:
            require_close(x[k], y[k], 'marginal %s' % (k,), 1e-12)
    a, b = [ce.model_error(x).calculate_for_contour_events() for x in (d, f)]
    require_close(np.array(a), np.array(b), 'model error', 1e-10)
    for x in (d, f):
        cp.prob(x)
    require_close(d.get_input_sample_set().get_probabilities(), f.get_input_sample_set().get_probabilities(), 'inverse', 1e-12)
    for x in (d, f):
        x.global_to_local()
        x.local_to_global()
    for nm in ('values', 'volumes', 'probabilities', 'jacobians'):
        require_close(getattr(d.get_input_sample_set(), 'get_' + nm)(), getattr(f.get_input_sample_set(), 'get_' + nm)(), nm, 1e-12)
        require_close(getattr(d.get_input_sample_set(), 'get_' + nm + '_local')(), getattr(f.get_input_sample_set(), 'get_' + nm + '_local')(), 'local ' + nm, 1e-12)
    require_close(d.get_output_sample_set().get_error_estimates(), f.get_output_sample_set().get_error_estimates(), 'error estimates', 0)
    return True


def run_data(ctx, item):
    word, size = item

    def go():
        w = run_ranks(size, prog_data, (word,))
        ctx.step(len(word) * size)
        w.values()
    ctx.case('data', dict(word=word, ranks=size), go)


def words(ops, top):
    for k in range(1, top + 1):
        for w in itertools.product(ops, repeat=k):
            yield w


def run(ctx):
    T = ctx.thorough
    items = [(w, 1, 1.0) for w in words(SET_OPS, 5 if T else 3)]
    if not T:           # length 4: at most one of the operations that only re-express the set
        items += [(w, 1, 1.0) for w in itertools.product(SET_OPS, repeat=4) if sum(o in ('copy', 'clip', 'domain', 'norm1', 'values1') for o in w) <= 1]
    items += [(w, 1, 2.0 ** k) for k in (-33, 20) for w in words(SET_OPS, 4 if T else 3)]
    items += [(w, r, 1.0) for w in words(SET_OPS, 4 if T else 2) for r in (2, 3)]
    items += [((a,) + w, r, 1.0) for a in ('box', 'ask') for w in words(SET_OPS, 3 if T else 2) for r in (1, 2)]
    ctx.shards(items, run_set)
    items = [(w, 1) for w in words(PDF_OPS, 5 if T else 3)]
    items += [(w, 2) for w in words(PDF_OPS, 3 if T else 2)]
    ctx.shards(items, run_pdf)
    items = [(w, 1) for w in words(VOL_OPS, 3 if T else 2)]
    items += [(w, r) for w in words(VOL_OPS, 2 if T else 1) for r in (2, 3)]
    items += [(w, 1) for w in itertools.product(('local', 'radii', 'radii-volume', 'exact'), ('values', 'other', 'append', 'unit', 'domain', 'norm'), VOL_OPS)] if not T else []
    ctx.shards(items, run_vol)
    items = [(w, 1) for w in words(DATA_OPS, 4 if T else 3)]
    items += [(w, r) for w in words(DATA_OPS, 3 if T else 2) for r in (2, 3)]
    ctx.shards(items, run_data)
    items = [(w, 1) for w in words(DISC_OPS, 4 if T else 3)]
    items += [(w, r) for w in words(DISC_OPS, 3 if T else 2) for r in (2, 3)]
    ctx.shards(items, run_disc)
