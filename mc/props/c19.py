"""Surrogates reproduce the data and follow the piecewise polynomial rule."""
import itertools

import numpy as np

from mc.build import snap_disc, diff, concat_local
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks
from mc.props.c05 import compositions, parts

RULE = ('every number of samples, dimension, output dimension, norm, order, holding and distribution of the evaluation points over the processes; outputs and Jacobians are arbitrary per sample, so an entry '
        'taken from the wrong sample, row or column is visible; affine maps over a small coefficient alphabet are reproduced exactly; all words of repeated evaluations; regions: every assignment of '
        'evaluation points to events and of events to probabilities against counting')
BOUNDS = {'quick': {'samples': '1..4, patterns 9/25/60', 'points': '1..4, patterns 17/80', 'dims': '1..3 x 1..3, patterns up to 5 x 7', 'ranks': '1..3', 'history': 2}, 'thorough': {'samples': '1..6', 'points': '1..6', 'dims': '1..3 x 1..3', 'ranks': '1..4', 'history': 3}}

X = np.array([[0.1, 0.8, 0.3], [0.9, 0.2, 0.55], [0.45, 0.5, 0.95], [0.7, 0.05, 0.15], [0.25, 0.35, 0.65], [0.6, 0.95, 0.4]])
PTS = np.array([[0.13, 0.71, 0.37], [0.83, 0.29, 0.61], [0.47, 0.11, 0.91], [0.59, 0.97, 0.19], [0.31, 0.43, 0.07], [0.75, 0.0, 0.53]])


def more(a, n, s):
    i, j = np.arange(1, n + 1)[:, None], np.sqrt(np.array([2.0, 3.0, 5.0, 7.0, 11.0]))[None]
    b = np.mod(i * j * s, 1.0)
    b[:a.shape[0], :a.shape[1]] = a
    return b


X, PTS = more(X, 60, 1.0), more(PTS, 80, 0.37)      # larger configurations


def near(x, pts, p):
    D = np.abs(pts[:, None] - x[None])
    D = D.max(-1) if np.isinf(p) else (D ** p).sum(-1)
    i = D.argmin(1)
    s = np.sort(D, 1)
    return i, bool(x.shape[0] == 1 or np.min(s[:, 1] - s[:, 0]) > 1e-6)


def data(n, din, dout, ver=0):
    k = np.arange(n * dout * din).reshape(n, dout, din)
    J = ((k * 7 + 3 * ver) % 11 - 5) * 0.5
    Y = ((np.arange(n * dout).reshape(n, dout) * 5 + ver) % 13) * 0.75 - 3
    E = ((np.arange(n * dout).reshape(n, dout) * 3 + ver) % 7) * 0.01
    return J, Y, E


def make(n, din, dout, opt, J, Y, E, size_hold='global', xs=1.0):
    import bet.sample as samp
    i, o = samp.sample_set(din), samp.sample_set(dout)
    i.set_values(X[:n, :din] * xs)
    o.set_values(Y.copy())
    if 'jac' in opt:
        i.set_jacobians(J.copy())
    if 'ee' in opt:
        o.set_error_estimates(E.copy())
    if 'dom' in opt:
        i.set_domain(np.tile([[0.0, xs]], (din, 1)))
    if 'p1' in opt:
        i.set_p_norm(1.0)
    if 'pinf' in opt:
        i.set_p_norm(np.inf)
    d = samp.discretization(i, o)
    if size_hold != 'global':
        d.global_to_local()
        if size_hold == 'local':
            for s, fs in ((i, ('_values', '_jacobians')), (o, ('_values', '_error_estimates'))):
                for f in fs:
                    setattr(s, f, None)
    return d


OWN = np.array([[-1.0, 3.0], [-2.0, 1.5], [0.0, 4.0], [-1.0, 1.0], [-3.0, 2.0]])      # a domain of the evaluation points themselves


def evalset(pts, comp, hold, rank):
    import bet.sample as samp
    s = samp.sample_set(pts.shape[1])
    if hold == 'global':
        s.set_values(pts.copy())
    else:
        s.set_values_local(parts(pts, comp, rank).copy())
        if hold == 'both':
            s.local_to_global()
    return s


def p_eval(rank, n, din, dout, opt, word, hold, dhold, J, Y, E, xs=1.0, renew=()):
    import bet.surrogates as sur
    d = make(n, din, dout, opt, J, Y, E, dhold, xs)
    S = sur.piecewise_polynomial_surrogate(d)
    before = snap_disc(d)
    out = []
    for k, (order, pts, comp) in enumerate(word):
        if k < len(renew) and renew[k]:       # the data of the model were replaced in between
            i, o = d.get_input_sample_set(), d.get_output_sample_set()
            nJ, nY, nE, nX = renew[k]
            for st, nm, a in ((i, 'values', nX), (i, 'jacobians', nJ), (o, 'values', nY), (o, 'error_estimates', nE)):
                getattr(st, 'set_' + nm)(a.copy())
            before = snap_disc(d)
        es = evalset(pts * xs, comp, hold, rank)
        if 'own' in opt:
            es.set_domain(OWN[:din] * xs)
        own = (es.get_p_norm(), es.get_domain())
        r = S.generate_for_input_set(es, order=order)
        require(es.get_p_norm() == own[0] or own[0] is None, 'norm of the evaluation points changed from %s to %s', own[0], es.get_p_norm())
        r.local_to_global()
        i, o = r.get_input_sample_set(), r.get_output_sample_set()
        out.append(dict(x=np.array(i.get_values()), y=np.array(o.get_values()), xl=np.array(i.get_values_local()), yl=np.array(o.get_values_local()),
                        e=None if o.get_error_estimates() is None else np.array(o.get_error_estimates()), dom=i.get_domain(), n=r.check_nums()))
        z = diff(before, snap_disc(d))
        require(not z, 'evaluating the surrogate changed the data in %s', z)
    return out


def check_eval(res, n, din, dout, opt, word, J, Y, E, xs=1.0, renew=()):
    XX = X[:n, :din]
    p = 1.0 if 'p1' in opt else np.inf if 'pinf' in opt else 2.0
    for k, (order, pts, comp) in enumerate(word):
        if k < len(renew) and renew[k]:
            J, Y, E, XX = renew[k]
        idx, ok = near(XX, pts, p)
        if not ok:
            continue
        want = Y[idx]
        if order == 1:
            want = want + np.einsum('ijk,ik->ij', J[idx], (pts - XX[idx]) * xs)
        for r, o in enumerate(res):
            o = o[k]
            require_close(o['x'] / xs, pts, 'rank %d: evaluation points' % r, 1e-14)
            require_close(o['y'], want, 'rank %d: surrogate values of order %d' % (r, order), 1e-10)
            require(o['n'] == len(pts), 'number of points')
            require((o['e'] is not None) == ('ee' in opt), 'error estimates of the surrogate: %s', o['e'])
            if 'ee' in opt:
                require_close(o['e'], E[idx], 'rank %d: error estimates' % r, 1e-14)
            dom = OWN[:din] if 'own' in opt else np.tile([[0.0, 1.0]], (din, 1)) if 'dom' in opt else None
            require((o['dom'] is not None) == (dom is not None), 'domain %s', o['dom'])
            if dom is not None:
                require_close(np.array(o['dom']) / xs, dom, 'domain of the evaluation points', 1e-14)
        require_close(concat_local([o[k]['xl'] for o in res]) / xs, pts, 'local evaluation points', 1e-14)
        require_close(concat_local([o[k]['yl'] for o in res]), want, 'local surrogate values', 1e-10)


def run_eval(ctx, item):
    n, din, dout, opt, word, hold, dhold, ver, size = item[:9]
    xs = item[9] if len(item) > 9 else 1.0      # unit of the inputs
    flags = item[10] if len(item) > 10 else ()
    J, Y, E = data(n, din, dout, ver)
    J = J / xs
    renew = [data(n, din, dout, 7 + k) + (X[k + 1:k + 1 + n, :din],) if f else None for k, f in enumerate(flags)]
    unit = {5: 1e-9, 6: 1e6}.get(ver, 1.0)      # outputs of other magnitudes
    J, Y, E = J * unit, Y * unit, E * unit
    w = [(o, (PTS[a:a + k, :din] if a >= 0 else X[:n, :din].copy()), c) for (o, a, k, c) in word]

    def go():
        res = run_ranks(size, p_eval, (n, din, dout, opt, w, hold, dhold, J, Y, E, xs, renew)).values()
        check_eval(res, n, din, dout, opt, w, J, Y, E, xs, renew)
        ctx.step(size * len(w))
    ctx.case('evaluate', dict(n=n, din=din, dout=dout, opt=opt, word=word, hold=hold, data=dhold, ver=ver, ranks=size, inputs=xs, renewed=flags), go)


def run_affine(ctx, item):
    n, din, dout, A, dtype = item
    A = np.array(A, float).reshape(dout, din)

    def go():
        x = X[:n, :din]
        Y = x.dot(A.T) + np.arange(dout)
        J = np.tile(A, (n, 1, 1))
        if dtype == 'int':
            if not np.array_equal(Y, np.round(Y)):
                Y = np.round(Y).astype(int)
                base = None
        opt = ('jac', 'dom')
        pts = PTS[:4, :din]
        w = [(1, pts, (4,))]
        res = run_ranks(1, p_eval, (n, din, dout, opt, w, 'global', 'global', J, Y, None)).values()
        check_eval(res, n, din, dout, opt, w, J, np.array(Y, float), None)
        if dtype != 'int':
            require_close(res[0][0]['y'], pts.dot(A.T) + np.arange(dout), 'surrogate of an affine map', 1e-10)
        ctx.step()
    ctx.case('affine', dict(n=n, din=din, dout=dout, A=A, dtype=dtype), go)


# ---- probabilities of regions ------------------------------------------------------------------

def p_region(rank, n, assign, probs, npts, order, regs, update, comp, hold, regions, ee, vol=0):
    import bet.sample as samp
    import bet.surrogates as sur
    d, pts = region_problem(n, assign, probs, npts, ee)
    S = sur.piecewise_polynomial_surrogate(d)
    es = evalset(pts, comp, hold, rank)
    if vol:
        v = weights(npts, vol)
        if hold == 'global':
            es.set_volumes(v)
        else:
            es.set_volumes_local(parts(v, comp, rank).copy())
    S.generate_for_input_set(es, order=order)
    if update and (npts + n) % 2:      # earlier results, distributed
        d.get_input_sample_set().set_probabilities(np.linspace(2.0, 3.0, n))
        d.get_input_sample_set().set_error_id(np.linspace(-1.0, 4.0, n))
        d.get_input_sample_set().global_to_local()
    s = samp.sample_set(1)
    s.set_values(cells(len(regs)))
    s.set_domain(np.array([[0.0, 1.0]]))
    s.set_region(np.array(regs))
    P, er = S.calculate_prob_for_sample_set_region(s, list(regions), update_input=update)
    inp = d.get_input_sample_set()
    if update and (npts + n) % 2:
        inp.local_to_global()
    return [float(x) for x in P], [float(x) for x in er], None if inp.get_probabilities() is None else np.array(inp.get_probabilities()), \
        None if inp.get_error_id() is None else np.array(inp.get_error_id()), np.array(S.surrogate_discretization.get_input_sample_set().get_error_id_local())


def weights(k, vol):
    """Volumes of the evaluation points supplied by the caller."""
    v = 1.0 + (np.arange(k) * 5 + vol) % 7
    return v / v.sum()


def cells(k):
    return (np.arange(k) + 0.5).reshape(-1, 1) / k


def region_problem(n, assign, probs, npts, ee):
    """Samples at (i+.5)/n; output of sample i is 10*assign[i]; events around 10*j."""
    import bet.sample as samp
    i, o = samp.sample_set(1), samp.sample_set(1)
    i.set_values(cells(n))
    i.set_domain(np.array([[0.0, 1.0]]))
    i.set_jacobians(np.ones((n, 1, 1)))
    o.set_values(10.0 * np.array(assign).reshape(-1, 1))
    o.set_error_estimates(10.0 * np.array(ee, float).reshape(-1, 1) if isinstance(ee, tuple) else ee * np.ones((n, 1)))
    ops = samp.voronoi_sample_set(1)
    ops.set_values(10.0 * np.arange(len(probs)).reshape(-1, 1))
    ops.set_probabilities(np.array(probs, float))
    d = samp.discretization(i, o, output_probability_set=ops)
    pts = ((np.arange(npts) * 0.6180339887 + 0.05) % 1.0).reshape(-1, 1)
    return d, pts


def run_region(ctx, item):
    n, assign, probs, npts, order, regs, update, comp, hold, regions, ee = item[:11]
    vol = item[11] if len(item) > 11 else 0

    def go():
        size = len(comp)
        res = run_ranks(size, p_region, item).values()
        d, pts = region_problem(n, assign, probs, npts, ee)
        idx, ok = near(cells(n), pts, 2.0)
        reg, ok2 = near(cells(len(regs)), pts, 2.0)
        if not (ok and ok2):
            return
        ev = np.array(assign)[idx]      # a shift by |x - x_i| < 1 never changes the event
        wt = weights(npts, vol) if vol else np.ones(npts)
        w = np.array([probs[e] * x / np.sum(wt[ev == e]) for e, x in zip(ev, wt)])
        ids = concat_local([x[4] for x in res]) if update else None
        want = [float(w[np.array(regs)[reg] == r].sum()) for r in regions]
        for r, (P, er, inp, eid, _) in enumerate(res):
            require(len(P) == len(regions) and len(er) == len(regions), 'rank %d: %d probabilities', r, len(P))
            require_close(np.array(P), np.array(want), 'rank %d: probabilities of the regions' % r, 1e-9)
            if update:
                require_close(inp, np.array([w[idx == k].sum() for k in range(n)]), 'rank %d: probabilities of the samples' % r, 1e-9)
                require(eid is not None and eid.shape == (n,), 'error identifiers')
                sid = np.array([ids[idx == k].sum() for k in range(n)])
                require(np.array_equal(np.isinf(eid), np.isinf(sid)), 'rank %d: error identifiers of the samples %s, expected %s', r, eid, sid)
                require_close(eid[np.isfinite(sid)], sid[np.isfinite(sid)], 'rank %d: error identifiers of the samples' % r, 1e-12)
            else:
                require(inp is None and eid is None, 'input data updated although not requested')
            if isinstance(ee, tuple):       # errors that move outputs to other events
                ev2 = np.clip(np.array(assign) + np.array(ee), 0, len(probs) - 1)[idx]
                for q, rg in enumerate(regions):
                    inA = np.array(regs)[reg] == rg
                    want_er = 0.0
                    for e, pe in enumerate(probs):
                        if pe > 0:
                            J1, J2 = float(np.sum(ev == e)), float(np.sum(ev2 == e))
                            want_er += float('inf') if J1 * J2 == 0 else pe * (np.sum(inA & (ev == e)) / J1 - np.sum(inA & (ev2 == e)) / J2)
                    require(er[q] == want_er if want_er == float('inf') else abs(er[q] - want_er) < 1e-12, 'rank %d: error estimate of region %s is %r, expected %r', r, rg, er[q], want_er)
            if ee == 0.0 and all(np.any(ev == e) for e in range(len(probs)) if probs[e] > 0):
                require_close(np.array(er), np.zeros(len(er)), 'rank %d: error estimate without model error' % r, 1e-12)
        ctx.step(size)
    ctx.case('region', dict(n=n, assign=assign, probs=probs, points=npts, order=order, regs=regs, update=update, comp=comp, hold=hold, regions=regions, ee=ee, volumes=vol), go)


def p_story(rank, n, assign, steps, size, hold):
    """Several surrogates, measures and questions after each other on one object."""
    import bet.sample as samp
    import bet.surrogates as sur
    d, _ = region_problem(n, assign, (1.0, 0.0, 0.0), 3, 0.0)
    S = sur.piecewise_polynomial_surrogate(d)
    out = []
    for k, (op, arg) in enumerate(steps):
        if op == 'new':
            npts, pre = arg
            pts = ((np.arange(npts) * 0.6180339887 + 0.05 + 0.013 * npts) % 1.0).reshape(-1, 1)
            es = evalset(pts, tuple(len(x) for x in np.array_split(pts, size)), hold, rank)
            if pre:        # the points already carry probabilities
                if hold == 'global':
                    es.set_probabilities(np.full(npts, 0.5 / npts))
                    es.global_to_local()
                else:
                    es.set_probabilities_local(np.array_split(np.full(npts, 0.5 / npts), size)[rank])
            S.generate_for_input_set(es, order=k % 2)
        elif op == 'measure':
            d.get_output_probability_set().set_probabilities(np.array(arg, float))
        else:
            m, update = arg
            s = samp.sample_set(1)
            s.set_values(cells(m))
            s.set_domain(np.array([[0.0, 1.0]]))
            s.set_region(np.arange(m) % 3)
            P, er = S.calculate_prob_for_sample_set_region(s, [0, 2, 1], update_input=update)
            inp = d.get_input_sample_set()
            out.append(([float(x) for x in P], [float(x) for x in er], None if inp.get_probabilities() is None else np.array(inp.get_probabilities())))
    return out


def run_story(ctx, item):
    n, assign, steps, size, hold = item

    def go():
        res = run_ranks(size, p_story, item).values()
        probs, pts, held, k = (1.0, 0.0, 0.0), None, None, 0
        want = []
        for op, arg in steps:
            if op == 'new':
                pts = ((np.arange(arg[0]) * 0.6180339887 + 0.05 + 0.013 * arg[0]) % 1.0).reshape(-1, 1)
            elif op == 'measure':
                probs = arg
            else:
                m, update = arg
                idx, ok = near(cells(n), pts, 2.0)
                reg, ok2 = near(cells(m), pts, 2.0)
                if not (ok and ok2):
                    return
                ev = np.array(assign)[idx]
                w = np.array([probs[e] / np.sum(ev == e) for e in ev])
                if update:
                    held = np.array([w[idx == j].sum() for j in range(n)])
                want.append(([float(w[reg % 3 == r].sum()) for r in (0, 2, 1)], all(np.any(ev == e) for e in range(3) if probs[e] > 0), held))
        for r, x in enumerate(res):
            for q, ((P, er, inp), (wp, fine, h)) in enumerate(zip(x, want)):
                require_close(np.array(P), np.array(wp), 'rank %d, question %d: probabilities of the regions' % (r, q), 1e-9)
                if fine:
                    require_close(np.array(er), np.zeros(3), 'rank %d, question %d: errors of the regions' % (r, q), 1e-12)
                require((inp is None) == (h is None), 'rank %d, question %d: probabilities of the samples %s', r, q, inp)
                if h is not None:
                    require_close(inp, h, 'rank %d, question %d: probabilities of the samples' % (r, q), 1e-9)
        ctx.step(len(steps) * size)
    ctx.case('story', dict(n=n, assign=assign, steps=steps, ranks=size, hold=hold), go)


def run_refuse(ctx, item):
    def go():
        import bet.sample as samp
        import bet.surrogates as sur
        import bet.calculateP.calculateError as ce
        J, Y, E = data(3, 2, 2)
        d = make(3, 2, 2, ('jac',), J, Y, E)
        if item == 'type':
            for bad in (None, 3, d.get_input_sample_set(), np.zeros(3)):
                expect_error(lambda: sur.piecewise_polynomial_surrogate(bad), 'surrogate of %r' % (type(bad),), (ce.wrong_argument_type,))
        S = sur.piecewise_polynomial_surrogate(d)
        s = samp.sample_set(2)
        s.set_values(PTS[:2, :2].copy())
        if item == 'order':
            for o in (2, -1, 3, 0.5, None, '1'):
                expect_error(lambda: S.generate_for_input_set(s, order=o), 'order %r' % (o,), (ce.wrong_argument_type,))
        if item == 'dim':
            for k in (1, 3):
                t = samp.sample_set(k)
                t.set_values(PTS[:2, :k].copy())
                expect_error(lambda: S.generate_for_input_set(t), 'dimension %d' % k, (samp.dim_not_matching,))
        if item == 'jac':
            d = make(3, 2, 2, (), J, Y, E)
            expect_error(lambda: sur.piecewise_polynomial_surrogate(d).generate_for_input_set(s, order=1), 'no Jacobians', (ce.wrong_argument_type,))
        if item == 'regtype':
            S.generate_for_input_set(s)
            for bad in (None, 3, np.zeros(3), d):
                expect_error(lambda: S.calculate_prob_for_sample_set_region(bad, [0]), 'regions of %r' % (type(bad),), (ce.wrong_argument_type,))
        if item == 'norm':          # evaluation points without a norm
            for p in (1.0, 2.0, np.inf):
                d.get_input_sample_set().set_p_norm(p)
                t = samp.sample_set(2)
                t.set_values(PTS[:5, :2].copy())
                t.set_p_norm(None)
                r = sur.piecewise_polynomial_surrogate(d).generate_for_input_set(t)
                r.local_to_global()
                require_close(r.get_output_sample_set().get_values(), Y[near(X[:3, :2], PTS[:5, :2], p)[0]], 'surrogate in the %s-norm' % p, 1e-12)
                require(t.get_p_norm() in (None, p), 'norm of the evaluation points')
        if item == 'early':
            expect_error(lambda: S.calculate_prob_for_sample_set_region(s, [0]), 'no surrogate', (ce.wrong_argument_type,))
        ctx.step()
    ctx.case('refuse', item, go)


def run(ctx):
    T = ctx.thorough
    N = (1, 2, 3, 4, 6) if T else (1, 2, 4)
    opts = [('jac',), ('jac', 'ee', 'dom'), ('jac', 'p1', 'dom', 'own'), ('jac', 'pinf', 'ee'), ('ee', 'own'), ()]
    items = []
    for n in N:
        for din in (1, 2, 3):
            for dout in (1, 2, 3):
                for opt in opts:
                    for order in (0, 1):
                        if order == 1 and 'jac' not in opt:
                            continue
                        for r in (1, 2, 3, 4) if T else (1, 2, 3):
                            for k in (1, 2, 3, 4) if not T else (1, 3, 6):
                                for hold in ('global', 'local', 'both'):
                                    if hold == 'global':
                                        cs = [None]
                                    elif r <= 2 or T:
                                        cs = list(compositions(k, r))
                                    else:
                                        cs = [c for j, c in enumerate(compositions(k, r)) if (j + n + dout) % 3 == 0]
                                    if not T and r > 1 and (n + din + dout + k) % 2:
                                        continue
                                    for c in cs:
                                        items.append((n, din, dout, opt, ((order, 0, k, c),), hold, ('global', 'both', 'local')[len(items) % 3], len(items) % 4, r))
                            # the samples themselves
                            c = tuple(len(x) for x in np.array_split(np.arange(n), r))
                            items.append((n, din, dout, opt, ((order, -1, n, c),), 'local', 'global', 1, r))
    # larger patterns
    for n in (9, 25, 60):
        for din in (1, 2, 4, 5):
            for dout in (1, 4, 7):
                for opt in (opts[1], opts[3]):
                    for order in (0, 1):
                        for ver in (1, 5, 6):
                            for r in (1, 2, 4):
                                for k in (17, 80):
                                    hold = ('global', 'local', 'both')[len(items) % 3]
                                    c = None if hold == 'global' else tuple(len(x) for x in np.array_split(np.arange(k), r))
                                    items.append((n, din, dout, opt, ((order, 0, k, c),), hold, ('global', 'both', 'local')[len(items) // 3 % 3], ver, r))
    # histories of evaluations on one surrogate
    L = [(o, a, k) for o in (0, 1) for a, k in ((0, 3), (2, 2), (-1, 4))]
    for w in itertools.product(L, repeat=3 if T else 2):
        for r in (1, 2, 3):
            word = tuple((o, a, k, tuple(len(x) for x in np.array_split(np.arange(k), r))) for (o, a, k) in w)
            for hold in ('global', 'local'):
                items.append((4, 2, 2, ('jac', 'ee', 'dom'), word, hold, 'global', 2, r))
    # inputs in other units; data replaced between evaluations
    for xs in (2.0 ** -50, 2.0 ** 40):
        for n in (1, 4, 25):
            for din, dout in ((1, 1), (2, 3), (4, 2)):
                for order in (0, 1):
                    for r in (1, 3):
                        for opt in opts[:4]:
                            items.append((n, din, dout, opt, ((order, 0, 6, tuple(len(x) for x in np.array_split(np.arange(6), r))),), ('global', 'local', 'both')[len(items) % 3], ('global', 'both', 'local')[len(items) // 3 % 3], len(items) % 4, r, xs))
    for w in itertools.product(L, repeat=2):
        for fl in ((0, 1), (1, 1), (1, 0)):
            for r in (1, 2):
                word = tuple((o, max(a, 0), k, tuple(len(x) for x in np.array_split(np.arange(k), r))) for (o, a, k) in w)
                items.append((4, 2, 2, ('jac', 'ee', 'dom'), word, ('global', 'local')[len(items) % 2], 'global', 2, r, 1.0, fl))
    ctx.shards(items, run_eval)
    items = []
    for n in (1, 3):
        for din, dout in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
            for A in itertools.product((-2, 0, 1) if not T else (-2, -1, 0, 1, 3), repeat=din * dout):
                items.append((n, din, dout, A, 'int' if len(items) % 4 == 0 else 'float'))
    ctx.shards(items, run_affine)
    items = []
    for n in (2, 3):
        for assign in itertools.product(range(2), repeat=n):
            for probs in ((0.25, 0.75), (1.0, 0.0), (0.0, 1.0)):
                for npts in (1, 3, 5) if not T else (1, 2, 3, 5, 8):
                    for order in (0, 1):
                        for r in (1, 2, 3):
                            for hold in ('global', 'local', 'both'):
                                cs = [tuple(len(x) for x in np.array_split(np.arange(npts), r))]
                                if hold != 'global' and npts <= 3 and r > 1:
                                    cs = [c for c in compositions(npts, r)]
                                for c in cs:
                                    k = len(items)
                                    if not T and hold == 'both' and k % 2:
                                        pass
                                    items.append((n, assign, probs, npts, order, ((0, 1), (0, 1, 0), (1, 0, 2, 0))[k % 3], k % 4 != 3, c, hold, ((0,), (1, 0), (0, 1))[k % 3], (0.0, 0.01)[k % 2]))
    for n, m, npts in ((7, 4, 40), (15, 5, 101)):
        for a in (1, 2, 3):
            assign = tuple((a * j + j // 3) % m for j in range(n))
            for probs in (tuple((1.0 + i) / (m * (m + 1) / 2) for i in range(m)), tuple(10.0 ** -(3 * i) for i in range(m))):
                for order in (0, 1):
                    for r in (1, 2, 4):
                        for hold in ('global', 'local', 'both'):
                            k = len(items)
                            items.append((n, assign, probs, npts, order, (0, 2, 1, 0, 3, 1, 2, 2), k % 4 != 3, tuple(len(x) for x in np.array_split(np.arange(npts), r)), hold, ((0, 3), (2, 1, 0), (1, 2, 3, 0))[k % 3], (0.0, 0.01)[k % 2]))
    for n, m, npts in ((3, 2, 7), (4, 3, 11), (7, 4, 40)):
        for a in (1, 2, 3):
            assign = tuple((a * j + j // 3) % m for j in range(n))
            for ee in itertools.product((-1, 0, 1), repeat=n) if n < 5 else [tuple((b * j + j // 2) % 3 - 1 for j in range(n)) for b in range(1, 9)]:
                k = len(items)
                r = 1 + k % 3
                items.append((n, assign, tuple((1.0 + i) / (m * (m + 1) / 2) for i in range(m)), npts, k % 2, ((0, 1), (0, 1, 0), (1, 0, 2, 0))[k % 3], k % 4 != 3, tuple(len(x) for x in np.array_split(np.arange(npts), r)), ('global', 'local', 'both')[k // 2 % 3], ((0,), (1, 0), (0, 1))[k % 3], ee))
    items = [it + ((0, 0, 1, 4)[k % 4],) for k, it in enumerate(items)]
    ctx.shards(items, run_region)
    items = []
    new = [('new', (5, False)), ('new', (11, True)), ('new', (40, True))]
    ms = [('measure', (0.25, 0.5, 0.25)), ('measure', (0.0, 0.75, 0.25))]
    ask = [('ask', (3, True)), ('ask', (14, True)), ('ask', (6, False)), ('ask', (40, True))]
    for a in new:
        for w in itertools.product(new + ms + ask[:3], repeat=2):
            for z in ask:
                for n, assign in ((3, (0, 1, 2)), (6, (0, 1, 0, 2, 2, 1))):
                    k = len(items)
                    items.append((n, assign, (a,) + (ask[k % 4],) + w + (z,), 1 + k % 3, ('global', 'local')[k // 2 % 2]))
    ctx.shards(items, run_story)
    ctx.shards(['type', 'order', 'dim', 'jac', 'early', 'regtype', 'norm'], run_refuse)
