"""Clipping, merging and selecting keep inputs and outputs in correspondence."""
import itertools

import numpy as np

from mc import spmd
from mc.build import CLASSES, OPT, make_set, make_disc, snap_set, snap_disc, diff, concat_local
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks
from mc.props.c05 import compositions, parts

RULE = ('clip: every class, subset of optional data, clip number, local/global holding and process count; merge: every pair of sizes, every composition of local '
        'parts over the ranks, every combination of present component sets; choose: every ordered selection of inputs and outputs; oracle: row-wise descriptor')
BOUNDS = {'quick': {'samples': '1..5 (selected: 40)', 'dims': '1..3 (selected: 8)', 'ranks': '1..3 (selected: 8)', 'merge compositions': 'up to 3+2 samples over 3 ranks', 'selections': 'all of 3 inputs x 3 outputs'},
          'thorough': {'samples': '1..7', 'ranks': '1..5', 'merge compositions': 'up to 4+4 samples over 3 ranks', 'selections': 'all of 3 inputs x 4 outputs'}}


def rows(x, k):
    return None if x is None else np.array(x)[:k]


# ---- clip -------------------------------------------------------------------------------------

def p_clip(rank, size, cls, n, dim, opt, cnum):
    s = make_set(cls, n, dim, [o for o in opt if o != 'partial'])
    if 'partial' in opt:       # only the probabilities are distributed
        s.set_probabilities_local(np.array_split(np.array(s.get_probabilities()), size)[rank])
    before = snap_set(s)
    c = s.clip(cnum)
    d = [k for k in diff(before, snap_set(s)) if not k.endswith('_local')]
    require(not d, 'clip changed the operand in %s', d)
    num = s.check_num()
    for f in ('values', 'volumes', 'probabilities', 'densities', 'jacobians', 'error_estimates', 'region', 'error_id', 'weights', 'weights_init'):
        o, g = getattr(s, 'get_' + f)(), getattr(c, 'get_' + f)()
        if o is None:
            require(g is None, 'clip invented %s', f)
            continue
        require(g is not None and np.array(g).shape == rows(o, cnum).shape, 'clipped %s has shape %s', f, None if g is None else np.array(g).shape)
        a, b = np.array(g), rows(o, cnum)
        require(bool(np.all((a == b) | ((a != a) & (b != b)))), 'clipped %s is %s, expected %s', f, a.tolist(), b.tolist())
    for f in ('domain', 'p_norm', 'reference_value', 'dim', 'label', 'labels'):
        o, g = getattr(s, 'get_' + f)(), getattr(c, 'get_' + f)()
        require((o is None and g is None) or np.array_equal(np.array(o), np.array(g)), 'clip changed %s', f)
    require(c.check_num() == min(cnum, num), 'clipped set reports %s samples', c.check_num())
    if cls in ('sample_set', 'voronoi_sample_set'):
        dist, i = c.query(np.array(s.get_values()))
        V, W = np.array(s.get_values()), np.array(s.get_values())[:cnum]
        p = s.get_p_norm()
        D = np.abs(V[:, None] - W[None])
        D = D.max(-1) if np.isinf(p) else (D ** p).sum(-1) ** (1 / p)
        require_close(np.array(dist), D.min(1), 'query of the clipped set')
    loc = None if c.get_values_local() is None else np.array(c.get_values_local())
    locp = None if c.get_probabilities_local() is None else np.array(c.get_probabilities_local())
    return loc, locp, np.array(c.get_values()), None if c.get_probabilities() is None else np.array(c.get_probabilities())


def run_clip(ctx, item):
    cls, n, dim, opt, cnum, size = item

    def go():
        res = run_ranks(size, p_clip, (size, cls, n, dim, opt, cnum)).values()
        if res[0][0] is not None:
            a, b = concat_local([r[0] for r in res]), res[0][2]
            require(a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b)))), 'local values of the clipped set %s, global %s', a.tolist(), b.tolist())
        if res[0][1] is not None:
            require_close(concat_local([r[1] for r in res]), res[0][3], 'local probabilities of the clipped set')
        ctx.step(size)
    ctx.case('clip', dict(cls=cls, n=n, dim=dim, opt=opt, clip=cnum, ranks=size), go)


def p_clip_disc(rank, present, n, cnum, loc):
    d = make_disc(present, True, n=n, opt=('volumes', 'jacobians'))
    if n > 10:       # several samples share an output
        o = d.get_output_sample_set()
        o.set_values(np.floor(5 * np.array(o.get_values())) / 5)
        d.set_io_ptr() if 'output_probability' in present else None
    if loc:
        d.global_to_local()
    before = snap_disc(d)
    c = d.clip(cnum)
    x = [k for k in diff(before, snap_disc(d)) if not k.endswith('_local')]
    require(not x, 'clip changed the operand in %s', x)
    i, o = d.get_input_sample_set(), d.get_output_sample_set()
    ci, co = c.get_input_sample_set(), c.get_output_sample_set()
    require_close(ci.get_values(), rows(i.get_values(), cnum), 'clipped inputs')
    require_close(co.get_values(), rows(o.get_values(), cnum), 'clipped outputs')
    require_close(ci.get_jacobians(), rows(i.get_jacobians(), cnum), 'clipped jacobians')
    require(c.check_nums() == min(cnum, n), 'number of samples')
    for k in ('emulated_input_sample_set', 'emulated_output_sample_set', 'output_probability_set', 'output_observed_set'):
        x = diff(snap_set(getattr(d, 'get_' + k)()), snap_set(getattr(c, 'get_' + k)()))
        require(not x, 'clip changed %s in %s', k, x)
    if 'output_probability' in present:
        c.set_io_ptr()
        d.set_io_ptr()
        require(list(c.get_io_ptr()) == list(d.get_io_ptr())[:cnum], 'pointer of the clipped discretization %s, of the original %s', c.get_io_ptr(), d.get_io_ptr())
    return True


def run_clip_disc(ctx, item):
    present, n, cnum, loc, size = item

    def go():
        run_ranks(size, p_clip_disc, (present, n, cnum, loc)).values()
        ctx.step(size)
    ctx.case('clip-discretization', dict(present=present, n=n, clip=cnum, local=loc, ranks=size), go)


# ---- merge -------------------------------------------------------------------------------------

def inp(ver, n, dim):
    return spmd.pts(n, dim, 0.31 * ver)


def outp(x):
    return np.column_stack((x.sum(1) * 3.0, x[:, 0] - 2.0 * x[:, -1], x[:, 0] ** 2))


def p_merge(rank, c1, c2, dim, hold, present, doms):
    import bet.sample as samp

    def mk(ver, comp, key):
        n = sum(comp)
        x = inp(ver, n, dim)

        def put(s, v):
            if hold == 'global':
                s.set_values(v.copy())
            else:
                s.set_values_local(parts(v, comp, rank).copy())
                if hold == 'both':
                    s.local_to_global()
            return s
        i = put(samp.sample_set(dim), x)
        o = put(samp.sample_set(3), outp(x))
        if key:
            i.set_domain(spmd.box(dim))
        kw = {}
        if 'emulated_input' in present:
            kw['emulated_input_sample_set'] = put(samp.sample_set(dim), x + 5.0)
        if 'emulated_output' in present:
            kw['emulated_output_sample_set'] = put(samp.sample_set(3), outp(x + 5.0))
        if 'output_probability' in present:
            p = samp.voronoi_sample_set(3)
            p.set_values(np.arange(6.0).reshape(2, 3) + 10 * ver)
            p.set_probabilities(np.array([0.5 - 0.25 * ver, 0.5 + 0.25 * ver]))
            kw['output_probability_set'] = p
        return samp.discretization(i, o, **kw)
    d1, d2 = mk(0, c1, doms & 1), mk(1, c2, doms & 2)
    b1, b2 = snap_disc(d1), snap_disc(d2)
    m = d1.merge(d2)
    for b, d, nm in ((b1, d1, 'first'), (b2, d2, 'second')):
        x = [k for k in diff(b, snap_disc(d)) if not k.endswith('_local')]
        require(not x, 'merge changed the %s operand in %s', nm, x)
    m.local_to_global()
    n = sum(c1) + sum(c2)
    require(m.check_nums() == n, 'merged discretization reports %s samples, expected %d', m.check_nums(), n)
    X, Y = np.array(m.get_input_sample_set().get_values()), np.array(m.get_output_sample_set().get_values())
    require(X.shape == (n, dim) and Y.shape == (n, 3), 'shapes %s %s', X.shape, Y.shape)
    require_close(Y, outp(X), 'outputs of the merged inputs', 1e-12)
    want = np.concatenate((inp(0, sum(c1), dim), inp(1, sum(c2), dim)))
    require_close(np.array(sorted(X.tolist())), np.array(sorted(want.tolist())), 'merged inputs', 1e-14)
    if len(c1) == 1:
        require_close(X, want, 'order of the merged inputs', 1e-14)
    xl, yl = m.get_input_sample_set().get_values_local(), m.get_output_sample_set().get_values_local()
    require_close(outp(np.array(xl)), np.array(yl), 'local outputs of the merged inputs', 1e-12)
    dom = m.get_input_sample_set().get_domain()
    require((dom is not None) == bool(doms), 'domain of the merged set is %s', dom)
    if doms:
        require_close(dom, spmd.box(dim), 'domain of the merged set')
    e = m.get_emulated_input_sample_set()
    if 'emulated_input' in present:
        e.local_to_global()
        require_close(np.array(sorted(np.array(e.get_values()).tolist())), np.array(sorted((want + 5.0).tolist())), 'merged emulated inputs')
        if 'emulated_output' in present:
            eo = m.get_emulated_output_sample_set()
            eo.local_to_global()
            require_close(np.array(eo.get_values()), outp(np.array(e.get_values())), 'merged emulated outputs')
    else:
        require(e is None, 'merge invented an emulated set')
    if 'output_probability' in present:
        x = diff(snap_set(d1.get_output_probability_set()), snap_set(m.get_output_probability_set()))
        require(not x, 'output probability set of the merged discretization differs in %s', x)
    # a discretization merged with itself lists every pair twice
    t = d1.merge(d1)
    t.local_to_global()
    X, Y = np.array(t.get_input_sample_set().get_values()), np.array(t.get_output_sample_set().get_values())
    require(X.shape == (2 * sum(c1), dim) and Y.shape == (2 * sum(c1), 3), 'merged with itself: shapes %s %s', X.shape, Y.shape)
    require_close(Y, outp(X), 'merged with itself: outputs of the inputs', 1e-12)
    w2 = np.concatenate([inp(0, sum(c1), dim)] * 2)
    require_close(np.array(sorted(X.tolist())), np.array(sorted(w2.tolist())), 'merged with itself: inputs', 1e-14)
    return True


def run_merge(ctx, item):
    c1, c2, dim, hold, present, doms = item

    def go():
        run_ranks(len(c1), p_merge, (c1, c2, dim, hold, present, doms)).values()
        ctx.step(len(c1))
    ctx.case('merge', dict(first=c1, second=c2, dim=dim, hold=hold, present=present, domains=doms), go)


# ---- choose ------------------------------------------------------------------------------------

def p_choose(rank, inputs, outputs, n, din, dout, opt, loc, form):
    import bet.sample as samp
    x, y = inp(0, n, din), spmd.pts(n, dout, 0.2)
    i, o = samp.sample_set(din), samp.sample_set(dout)
    i.set_values(x.copy())
    o.set_values(y.copy())
    J = spmd.jacs(n, dout, din)
    E = np.arange(n * dout).reshape(n, dout) * 0.1
    if 'jac' in opt:
        i.set_jacobians(J.copy())
    if 'ee' in opt:
        o.set_error_estimates(E.copy())
    if 'dom' in opt:
        i.set_domain(np.array([[-k - 1.0, k + 1.5] for k in range(din)]))
        o.set_domain(np.array([[-k - 2.0, k + 2.5] for k in range(dout)]))
    if 'ref' in opt:
        i.set_reference_value(np.arange(din) + 0.5)
        o.set_reference_value(np.arange(dout) + 0.25)
    if 'norm' in opt:
        i.set_p_norm(1.0)
        o.set_p_norm(np.inf)
    d = samp.discretization(i, o)
    if loc:
        d.global_to_local()
    before = snap_disc(d)
    ii, oo = (list(inputs), list(outputs)) if form == 'list' else (np.array(inputs), np.array(outputs))
    h = d.choose_inputs_outputs(inputs=ii, outputs=oo)
    z = diff(before, snap_disc(d))
    require(not z, 'selection changed the operand in %s', z)
    require(list(ii) == list(inputs) and list(oo) == list(outputs), 'selection changed the index lists')
    hi, ho = h.get_input_sample_set(), h.get_output_sample_set()
    L, M = list(inputs), list(outputs)
    require(hi.get_dim() == len(L) and ho.get_dim() == len(M), 'dimensions')
    require_close(hi.get_values(), x[:, L], 'selected inputs', 1e-14)
    require_close(ho.get_values(), y[:, M], 'selected outputs', 1e-14)
    if 'jac' in opt:
        require_close(hi.get_jacobians(), J[:, M][:, :, L], 'selected jacobians', 1e-14)
    if 'ee' in opt:
        require_close(ho.get_error_estimates(), E[:, M], 'selected error estimates', 1e-14)
    if 'dom' in opt:
        require_close(hi.get_domain(), i.get_domain()[L], 'input domain', 1e-14)
        require_close(ho.get_domain(), o.get_domain()[M], 'output domain', 1e-14)
    if 'ref' in opt:
        require_close(hi.get_reference_value(), i.get_reference_value()[L], 'input reference', 1e-14)
        require_close(ho.get_reference_value(), o.get_reference_value()[M], 'output reference', 1e-14)
    require(hi.get_p_norm() == i.get_p_norm() and ho.get_p_norm() == o.get_p_norm(), 'norms %s %s', hi.get_p_norm(), ho.get_p_norm())
    if loc:
        require_close(hi.get_values_local(), np.array(i.get_values_local())[:, L], 'local inputs', 1e-14)
        require_close(ho.get_values_local(), np.array(o.get_values_local())[:, M], 'local outputs', 1e-14)
        if 'jac' in opt:
            require_close(hi.get_jacobians_local(), np.array(i.get_jacobians_local())[:, M][:, :, L], 'local jacobians', 1e-14)
    require(h.check_nums() == n, 'number of samples')
    # the selection is independent of the operand
    hi.get_values()[...] = 77.0
    ho.get_values()[...] = 78.0
    z = diff(before, snap_disc(d))
    require(not z, 'selection shares data with the operand: %s', z)
    return True


def run_choose(ctx, item):
    def go():
        run_ranks(item[-1], p_choose, item[:-1]).values()
        ctx.step(item[-1])
    ctx.case('choose', dict(inputs=item[0], outputs=item[1], n=item[2], dims=item[3:5], opt=item[5], local=item[6], form=item[7], ranks=item[8]), go)


def run_refuse(ctx, item):
    kind, a, b = item

    def go():
        import bet.sample as samp
        if kind == 'dim':
            expect_error(lambda: make_set('sample_set', 3, a).merge(make_set('sample_set', 3, b)), 'merge of dimensions %d and %d' % (a, b), (samp.dim_not_matching,))
        else:
            s, t = make_set('sample_set', 3, 2), make_set('sample_set', 3, 2)
            d = np.array(t.get_domain())
            for delta in (0.5, -0.25, 1e-2, 1e-3, -2e-4):
                e = d.copy()
                e[a, b] += delta
                t.set_domain(e)
                expect_error(lambda: s.merge(t), 'merge of domains that differ by %g' % delta, (samp.domain_not_matching,))
        ctx.step()
    ctx.case('refuse', dict(kind=kind, a=a, b=b), go)


def run(ctx):
    T = ctx.thorough
    sizes = (1, 2, 3, 4, 5) if T else (1, 2, 3)
    opts = [(), OPT, OPT + ('weights', 'reference', 'labels', 'local'), ('local', 'probabilities'), ('kdtree', 'p_norm', 'volumes'), ('weights',)] + [(o,) for o in OPT]
    if T:
        opts += [c for c in itertools.combinations(OPT + ('weights', 'local', 'kdtree'), 2)]
    items = [(cls, n, dim, o, c, size) for cls in CLASSES for n in ((2, 3, 4, 5, 7) if T else (2, 3, 5)) for dim in ((1, 2, 3) if T else (1, 2)) for o in opts
             for c in range(1, n + 3) for size in sizes]
    for cls, n, dim in itertools.product(CLASSES, (12, 17, 40, 1200), (1, 2, 4, 6)):
        for o in opts[:6] if n < 1000 else (OPT, ('local', 'probabilities')):
            for c in (1, n // 2, n - 2, n - 1, n, n + 5) if n < 1000 else (n - 2,):
                items.append((cls, n, dim, o, c, (1, 4, 5, 8)[len(items) % 4]))
    items += [(cls, n, dim, ('probabilities', 'volumes', 'partial'), c, size) for cls in CLASSES for n in (2, 5) for dim in (1, 2) for c in (1, n - 1, n, n + 1) for size in (1, 2, 3)]
    ctx.shards(items, run_clip)
    pres = [c for k in range(5) for c in itertools.combinations(('emulated_input', 'emulated_output', 'output_probability', 'output_observed'), k)]
    items = [(p, n, c, l, size) for p in pres for n in (2, 4) for c in range(1, n + 2) for l in (False, True) for size in sizes]
    items += [(p, n, c, l, size) for p in pres for n in (15, 64, 300) for c in (1, n // 2, n - 1, n + 3) for l in (False, True) for size in sizes]
    ctx.shards(items, run_clip_disc)
    items = []
    a, b = (4, 4) if T else (3, 2)
    for r in (1, 2, 3):
        for n1 in range(1, a + 1):
            for n2 in range(1, b + 1):
                for c1 in compositions(n1, r):
                    for c2 in compositions(n2, r):
                        for k, hold in enumerate(('global', 'local', 'both')):
                            if hold == 'global' and (c1 != tuple(len(x) for x in np.array_split(np.arange(n1), r)) or c2 != tuple(len(x) for x in np.array_split(np.arange(n2), r))):
                                continue
                            for p in (pres[:1] + pres[1:3] + pres[5:6] + pres[11:12]) if (T or hold == 'global' or r < 3) else pres[5:6]:
                                items.append((c1, c2, 1 + (n1 + n2) % 3, hold, p, (len(items)) % 4))
    for (c1, c2), dim in itertools.product((((10,), (13,)), ((700, 601), (1, 1200)), ((17, 0, 5), (3, 9, 1)), ((4, 4, 3, 3, 3), (1, 0, 0, 11, 2)), ((0, 12, 1, 0, 6, 2, 0, 4), (5,) * 8), ((2, 2, 2, 2, 1, 1, 1, 1), (2, 1, 1, 1, 1, 1, 1, 1))), (1, 3, 4, 6, 8)):
        for hold in ('local', 'both') + (('global',) if max(c1) - min(c1) <= 1 and max(c2) - min(c2) <= 1 and list(c1) == sorted(c1)[::-1] and list(c2) == sorted(c2)[::-1] else ()):
            for p in pres[:1] + pres[1:3] + pres[5:6] + pres[11:12]:
                items.append((c1, c2, dim, hold, p, len(items) % 4))
    ctx.shards(items, run_merge)
    items = []
    dout = 4 if T else 3
    for ki in (1, 2, 3):
        for ii in itertools.permutations(range(3), ki):
            for ko in range(1, dout + 1):
                for oo in itertools.permutations(range(dout), ko):
                    for k, o in enumerate(((), ('jac',), ('jac', 'ee', 'dom', 'ref', 'norm'), ('ref',), ('dom', 'norm'))):
                        if not T and k in (1, 3, 4) and (ki + ko + k // 4) % 2:
                            continue
                        for loc in (False, True):
                            items.append((ii, oo, 4, 3, dout, o, loc, 'list' if len(items) % 2 else 'array', 1 + len(items) % 3))
    for (ii, din), (oo, dou) in itertools.product((((0, 4, 2), 5), ((5, 3, 1, 0, 2, 4), 6), ((6,), 7), (tuple(range(8)), 8), ((7, 0), 8)), (((5, 1), 6), ((4,), 5), ((7, 6, 5, 4, 3, 2, 1, 0), 8), ((2, 0, 3), 4))):
        for n in (3, 17, 40, 1200):
            for o in ((), ('jac',), ('jac', 'ee', 'dom', 'ref', 'norm')):
                k = len(items)
                items.append((ii, oo, n, din, dou, o, bool(k % 2), 'list' if k % 3 else 'array', (1, 4, 8)[k % 3]))
    ctx.shards(items, run_choose)
    items = [('dim', a, b) for a in (1, 2, 3) for b in (1, 2, 3) if a != b] + [('domain', a, b) for a in (0, 1) for b in (0, 1)]
    ctx.shards(items, run_refuse)
