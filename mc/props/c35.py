"""The LUQ wrapper hands learned quantities over faithfully."""
import itertools
import os
import sys
import types

import numpy as np

from mc.build import snap
from mc.core import require, require_close
from mc.fakempi import run_ranks

RULE = ('every cluster assignment of small prediction and observation sets x output dimension x way of supplying the time series x presence of an observation set, with a stand-in for the external package that records '
        'what it is given and answers enumerated labels and maps; oracle: the recorded arguments, the answered labels and maps, and the update computed from a discretization built by hand')
BOUNDS = {'quick': {'predictions': '1..4 (selected: 40)', 'observations': '1..3 (selected: 30)', 'clusters': '1..2 (selected: 6)', 'dims': '1..2 (selected: 5)'}, 'thorough': {'predictions': '1..6', 'observations': '1..4', 'clusters': '1..3', 'dims': '1..3'}}
ASSUMPTIONS = ['the external package is replaced by a stand-in with its documented interface', 'one process, as the external package is serial']


class LUQ(object):
    """Stand-in for the external package: records and answers."""
    plan = None
    log = None

    def __init__(self, predicted, observed, times):
        self.log.append(('init', np.array(predicted), np.array(observed), np.array(times)))

    def clean_data(self, **kw):
        self.log.append(('clean_data', kw))

    def dynamics(self, **kw):
        self.log.append(('dynamics', kw))

    def learn_qois_and_transform(self, **kw):
        self.log.append(('learn', kw))
        for k, v in self.plan.items():
            setattr(self, k, v)


class Selkov(object):
    log = None

    def solve(self, ics, params, t_eval):
        self.log.append((np.array(ics), np.array(params), np.array(t_eval)))
        return np.asarray(params).sum(axis=1)[:, None] + np.asarray(t_eval)


class present(object):
    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in ('luq', 'luq.luq', 'luq.dynamical_systems')}
        top, a, b = types.ModuleType('luq'), types.ModuleType('luq.luq'), types.ModuleType('luq.dynamical_systems')
        a.LUQ, b.Selkov = LUQ, Selkov
        top.luq, top.dynamical_systems = a, b
        sys.modules.update({'luq': top, 'luq.luq': a, 'luq.dynamical_systems': b})
        LUQ.log, Selkov.log = [], []
        return LUQ.log

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def inputs(n, shift):
    import bet.sample as samp
    s = samp.sample_set(2)
    s.set_domain(np.array([[0.0, 9.0], [0.0, 9.0]]))
    i = np.arange(n)
    s.set_values(np.column_stack((1.0 + i + shift, 5.0 - 0.5 * i * i + shift)))
    return s


def plan(dim, lp, lo):
    k = max(max(lp), max(lo)) + 1
    lp, lo = np.array(lp), np.array(lo)

    def maps(lab, t):
        return [np.array([[10.0 * t + 3 * c + 0.5 * j * j + 0.25 * d + 0.125 * ((j * 7 + d * 3) % 5) for d in range(dim)] for j in range(int((lab == c).sum()))]).reshape(-1, dim) for c in range(k)]
    return {'num_pcs': [dim] * k, 'predict_labels': lp, 'obs_labels': lo, 'predict_maps': maps(lp, 0), 'obs_maps': maps(lo, 0.02), 'num_clusters': k}


def frz(a):
    return [np.array(x, copy=True) for x in a]


def p_wrap(rank, dim, lp, lo, route, scratch):
    import bet.sampling.useLUQ as ul
    import bet.util as util
    P, O = inputs(len(lp), 0.0), inputs(len(lo), 0.5)
    if route.startswith('own'):      # observations at the samples themselves
        O = P
    if len(lp) % 2:
        P.global_to_local()
        O.global_to_local()
    times = np.array([4.0, 0.0, 1.5, 1.5]) if route.endswith('-unsorted') else np.array([0.0, 1.5, 4.0])
    route = route.split('-')[0]
    asked = []

    def model(x, t):
        asked.append((np.array(x), np.array(t)))
        return np.asarray(x)[:, :1] * 2 + np.asarray(x)[:, 1:] + np.asarray(t)
    pl = plan(dim, lp, lo)
    keep = {k: (frz(v) if k.endswith('maps') else np.array(v)) for k, v in pl.items()}
    bp, bo = snap(P), snap(O)
    steps = 0
    with present() as log:
        LUQ.plan = pl
        w = ul.useLUQ(predict_set=P, obs_set=None if route in ('series', 'explicit', 'short') else O, lb_model=model, times=times)
        wantp = P.get_values()[:, :1] * 2 + P.get_values()[:, 1:] + times
        wanto = O.get_values()[:, :1] * 2 + O.get_values()[:, 1:] + times
        wt = times
        if route in ('setup', 'own'):
            w.setup()
        elif route == 'again':
            w.predict_set, w.obs_set = inputs(len(lp), 3.0), inputs(len(lo), 2.0)
            w.setup()
            require_close(log[0][2], w.obs_set.get_values()[:, :1] * 2 + w.obs_set.get_values()[:, 1:] + times, 'observed series', 1e-15)
            w.predict_set, w.obs_set = P, O
            w.setup()
            del log[0], asked[:2]
        elif route == 'short':
            wantp, wanto = wantp[:, :2] - 7, wanto[:, :2] + 9
            w.initialize(wantp.copy(), wanto.copy())
        elif route == 'steps':
            w.get_obs()
            w.get_predictions()
            w.initialize()
        elif route == 'override':      # what is handed over takes precedence over what is stored
            w.get_predictions()
            w.get_obs()
            wantp, wanto, wt = wantp - 3, wanto + 4, times * 2
            w.initialize(wantp.copy(), wanto.copy(), wt.copy())
        elif route == 'partial':
            w.get_predictions()
            w.get_obs()
            if len(lp) % 2:
                wanto = wanto + 4
                w.initialize(obs_time_series=wanto.copy())
            else:
                wantp, wt = wantp - 3, times * 2
                w.initialize(predicted_time_series=wantp.copy(), times=wt.copy())
        elif route == 'series':
            wanto = wanto + 100
            w.set_observed_time_series(wanto.copy())
            w.get_predictions()
            w.initialize()
        else:
            wantp, wanto, wt = wantp - 7, wanto + 9, times + 0.25
            w.initialize(wantp.copy(), wanto.copy(), wt.copy())
        want_calls = {'again': [P, O], 'override': [P, O], 'partial': [P, O], 'own': [P, P], 'short': [], 'setup': [P, O], 'steps': [O, P], 'series': [P], 'explicit': []}[route]
        require(len(asked) == len(want_calls), 'model evaluated %d times', len(asked))
        for s in want_calls:
            require(any(x.shape == s.get_values().shape and np.array_equal(x, s.get_values()) and np.array_equal(t, times) for x, t in asked), 'the model was not evaluated at the samples and times of the set')
        require(len(log) == 1 and log[0][0] == 'init', 'external package set up %s', [e[0] for e in log])
        for g, x, nm in zip(log[0][1:], (wantp, wanto, wt), ('predicted series', 'observed series', 'times')):
            require_close(g, x, nm, 1e-15)
        kw = [{'time_start_idx': 1, 'tol': 0.5}, {'cluster_method': 'kmeans', 'kwargs': {'n_clusters': 2}}, {'num_qoi': dim}]
        if len(lp) % 2 == 0:      # whatever the options are
            kw = [{'tol': None, 'method': 'splines', 'x': 0}, {'kwargs': None, 'relabel': False, 'proposals': ()}, {'num_qoi': [dim] * 2, 'variance': None}]
        elif len(lp) == 3:
            kw = [{}, {}, {}]
        w.clean_data(**kw[0])
        w.dynamics(**kw[1])
        w.learn_qois_and_transform(**kw[2])
        require([(e[0], e[1]) for e in log[1:]] == list(zip(('clean_data', 'dynamics', 'learn'), kw)), 'options handed on %s', log[1:])
        d1, d2 = w.make_disc()
        steps += 6
        check(d1, d2, P, O if route in ('setup', 'steps', 'again', 'override', 'partial', 'own') else None, keep, dim)
        if route in ('setup', 'steps'):      # again: the same objects
            e1, e2 = w.make_disc()
            check(e1, e2, P, O, keep, dim)
            steps += 1
        require(not [k for k in bp if bp[k] is not None and snap(P)[k] != bp[k]] and not [k for k in bo if bo[k] is not None and snap(O)[k] != bo[k]], 'the given sample sets changed')
        # the inversion uses every sample's own learned value
        if len(lp) >= 3 and all(lp.count(c) >= 3 for c in set(lp)) and all(list(lo).count(c) >= 3 for c in set(lp)) and dim == 1:
            compare_update(d1, P, keep, dim)
            steps += 1
        if route == 'setup' and len(lp) == 2:
            name = os.path.join(scratch, 'luq_obj')
            w.lb_model = None
            w.save(name)
            v = util.load_object(name)
            require(np.array_equal(v.predict_set.get_values(), P.get_values()) and np.array_equal(v.times, times) and np.array_equal(v.predicted_time_series, wantp) and np.array_equal(v.obs_time_series, wanto), 'saved wrapper')
            steps += 1
    return steps


def check(d1, d2, P, O, keep, dim):
    o, q = d1.get_output_sample_set(), d1.get_output_observed_set()
    require(np.array_equal(d1.get_input_sample_set().get_values(), P.get_values()), 'inputs of the predictions')
    require((d2 is None) == (O is None), 'discretization of the observations')
    pairs = [(o, 'predict'), (q, 'obs')]
    if d2 is not None:
        require(np.array_equal(d2.get_input_sample_set().get_values(), O.get_values()), 'inputs of the observations')
        pairs.append((d2.get_output_sample_set(), 'obs'))
        d2.check_nums()
        require(d2.get_output_observed_set() is None, 'the discretization of the observations has observations of its own')
    d1.check_nums()
    for s, t in pairs:
        require(s is not None and s.get_dim() == dim, 'dimension of the learned quantities')
        for nm, r in (('labels', s.get_region()), ('local labels', s.get_region_local())):
            if r is not None or nm == 'labels':
                require(r is not None and np.array_equal(np.asarray(r), keep[t + '_labels']), '%s of %s: %s, expected %s', nm, t, r, keep[t + '_labels'])
        m = s.get_cluster_maps()
        require(m is not None and len(m) == len(keep[t + '_maps']) and all(np.array_equal(a, b) for a, b in zip(m, keep[t + '_maps'])), 'learned values of %s', t)


def compare_update(d1, P, keep, dim):
    import bet.sample as samp
    import bet.calculateP.calculateR as cr
    cr.print = lambda *a, **k: None
    lp = keep['predict_labels']
    i = samp.sample_set(2)
    i.set_domain(P.get_domain().copy())
    i.set_values(P.get_values().copy())
    o, q = samp.sample_set(dim), samp.sample_set(dim)
    for s, t in ((o, 'predict'), (q, 'obs')):
        s.set_region(keep[t + '_labels'].copy())
        s.set_cluster_maps(frz(keep[t + '_maps']))
    ref = samp.discretization(i, o, output_observed_set=q)
    a, b = cr.invert(d1), cr.invert(ref)
    x = np.array([[2.0, 4.0], [1.5, 4.5]])
    cr.invert_to_gmm(d1)
    cr.invert_to_gmm(ref)
    require_close(d1.get_input_sample_set().pdf(x), ref.get_input_sample_set().pdf(x), 'updated density', 1e-12)
    require_close(np.concatenate([np.ravel(v) for v in a[0]]), np.concatenate([np.ravel(v) for v in b[0]]), 'ratios', 1e-12)


def p_model(rank, n):
    import bet.sampling.useLUQ as ul
    x, t = np.arange(2.0 * n).reshape(n, 2) + 1, np.array([0.5, 1.0])
    with present():
        r = ul.myModel(x, t)
        require(len(Selkov.log) == 1, 'one solve')
        ics, par, te = Selkov.log[0]
        require(np.array_equal(ics, np.ones((n, 2))) and np.array_equal(par, x) and np.array_equal(te, t), 'arguments of the model')
        require_close(r, x.sum(axis=1)[:, None] + t, 'result', 1e-15)
    for f in (lambda: ul.myModel(x, t), lambda: ul.useLUQ(inputs(2, 0), None, t).initialize(x, x, t)):
        try:
            f()
        except ul.missing_module:
            continue
        require(False, 'a missing external package is not reported')
    return 4


def run_one(ctx, item):
    part, args = item

    def go():
        f = {'wrap': p_wrap, 'model': p_model}[part]
        ctx.step(sum(run_ranks(1, f, tuple(args) + ((ctx.scratch,) if part == 'wrap' else ())).values()))
    ctx.case(part, list(args), go)


def run(ctx):
    out = [('model', (n,)) for n in range(1, 4)]
    np_, no, kk, dims = (6, 4, 3, (1, 2, 3)) if ctx.thorough else (4, 3, 2, (1, 2))
    for n in range(1, np_ + 1):
        for lp in itertools.product(range(kk), repeat=n):
            if sorted(set(lp)) != list(range(max(lp) + 1)) or (ctx.thorough and n == 6 and lp[0]):
                continue
            for m in range(1, no + 1):
                for lo in itertools.product(range(max(lp) + 1), repeat=m):
                    for dim in dims:
                        for route in ('setup', 'steps', 'series', 'explicit'):
                            if n >= 4 and m >= 3 and route in ('series', 'explicit') and not ctx.thorough:
                                continue
                            out.append(('wrap', (dim, lp, lo, route)))
    for lp, lo in (((0, 1, 0, 1, 1, 0), (1, 0, 1, 0, 0, 1)), ((1, 1, 0, 0, 0, 1), (1, 1, 1, 0, 0, 0)), ((0, 0, 0, 0), (0, 0, 0))):
        for route in ('setup', 'steps', 'series'):
            out.append(('wrap', (1, lp, lo, route)))
    for n, m, k, dim in ((12, 9, 3, 2), (17, 5, 4, 4), (30, 30, 2, 3), (40, 12, 6, 5)):
        for a, b in ((3, 1), (5, 2), (7, 3)):
            lp = tuple((a * i * i + i) % k if i >= k else i for i in range(n))
            lo = tuple((b * i + i // 2) % k for i in range(m))
            for route in ('setup', 'steps', 'series', 'explicit'):
                out.append(('wrap', (dim, lp, lo, route)))
                out.append(('wrap', (1, lp, lo, route)))
    for lp, lo in (((0, 1, 1), (0, 1)), ((1, 0, 1, 0), (1, 1, 0)), ((0,), (0,))):
        for dim in (1, 2):
            for route in ('setup-unsorted', 'steps-unsorted', 'series-unsorted', 'again', 'again-unsorted', 'short', 'override', 'partial', 'own'):
                if route == 'own' and len(lp) != len(lo):
                    out.append(('wrap', (dim, lp, (lo * 4)[:len(lp)], route)))
                    continue
                out.append(('wrap', (dim, lp, lo, route)))
    for lp, lo in (((0, 2, 2), (0, 2)), ((2, 0, 2, 0), (2, 1, 0)), ((1,), (1,)), ((3, 1, 3), (1, 1, 3)), ((0, 0), (0, 2)), ((2, 2), (1, 0))):      # clusters without members
        for dim in (1, 2):
            for route in ('setup', 'steps', 'series', 'explicit'):
                out.append(('wrap', (dim, lp, lo, route)))
    ctx.shards(out, run_one)
