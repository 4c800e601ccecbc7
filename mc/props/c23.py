"""Every model output is stored with the input that produced it."""
import itertools
import os

import numpy as np

from mc.build import concat_local
from mc.core import require, require_close, expect_error
from mc.fakempi import run_ranks

RULE = ('every combination of sample count, input and output dimension, form of the model (matrix product, column access, one-dimensional output) and of its return value (array, tuples with errors and Jacobians), '
        'origin of the samples (global, distributed, local only, designs), reference value, globalize flag, saving and process count; the model records every row it is asked for; oracle: the model formula at each row')
BOUNDS = {'quick': {'samples': '1..6 (selected: up to 40)', 'dims': '1..3 x 1..3 (selected: 6 x 5)', 'ranks': '1..4 (selected: 8)'}, 'thorough': {'samples': '1..9', 'dims': '1..3 x 1..3', 'ranks': '1..6'}}

RET = ('array', 'tuple1', 'ee', 'jac', 'both', 'both_unused', 'both_ee', 'both_jac')      # the last: more is returned than is wanted
EE, JAC = ('ee', 'both', 'both_ee'), ('jac', 'both', 'both_jac')
REFS = {1: 100.5, 2: 0.0, 3: -100.5}


def formula(x, m, style=None):
    """Injective, distinct output for every row and output component."""
    x = np.asarray(x, float)
    n, d = x.shape
    w = np.array([[1.0 + 3 * i + 0.5 * j for j in range(m)] for i in range(d)])
    y = x @ w + (x[:, :1] ** 2) * np.arange(1, m + 1)
    if style == 'special':          # a model that overflows or is undefined at some samples, tiny and huge at others
        k = np.floor(x[:, 0]).astype(int) % 5
        y[k == 0, -1] = np.nan
        y[k == 1, 0] = np.inf
        y[k == 2, -1] = -np.inf
        y[k == 3] *= 1e-280
        y[k == 4] *= 1e280
    return y


def same(a, b, what):
    """Equal, element by element, whatever the magnitude."""
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, '%s: shape %s, expected %s', what, a.shape, b.shape)
    with np.errstate(all='ignore'):
        ok = np.array_equal(np.isnan(a), np.isnan(b)) and np.all((a == b) | np.isnan(a) | (np.abs(a - b) <= 1e-12 * np.abs(b)))
    require(ok, '%s: got %s, expected %s', what, a.tolist(), b.tolist())


def errors(x, m):
    return formula(x, m) * 0.01 + 5.0


def jac(x, m):
    x = np.asarray(x, float)
    n, d = x.shape
    w = np.array([[1.0 + 3 * i + 0.5 * j for i in range(d)] for j in range(m)])
    J = np.tile(w, (n, 1, 1))
    J[:, :, 0] += 2 * x[:, :1] * np.arange(1, m + 1)
    return J


def model(m, ret, style, log):
    def f(x):
        require(isinstance(x, np.ndarray), 'the model got %r', type(x))
        if style == 'columns':
            y = np.vstack([sum(x[:, i] * (1.0 + 3 * i + 0.5 * j) for i in range(x.shape[1])) + x[:, 0] ** 2 * (j + 1) for j in range(m)]).T
        else:
            y = formula(x.reshape(-1, x.shape[-1]), m, style)
        log.extend(x.reshape(-1, x.shape[-1]).tolist())
        if style == 'flat':
            y = y[:, 0]
        xx = x.reshape(-1, x.shape[-1])
        if ret == 'array':
            return y
        if ret == 'tuple1':
            return (y,)
        if ret == 'ee':
            return (y, errors(xx, m))
        if ret == 'jac':
            return (y, jac(xx, m))
        return (y, errors(xx, m), jac(xx, m))
    return f


def values(n, d):
    return np.array([[(7 * i + 3) % 11 + 0.25 * j + 0.01 * i for j in range(d)] for i in range(n)]).reshape(n, d)


def p_model(rank, n, d, m, ret, style, origin, ref, glob, size, fname, copy):
    import bet.sample as samp
    import bet.sampling.basicSampling as bs
    log = []
    sm = bs.sampler(model(m, ret, style, log), error_estimates=ret in EE, jacobians=ret in JAC)
    if copy:
        sm = sm.copy()
    V = values(n, d)
    s = samp.sample_set(d)
    s.set_domain(np.array([[-1.0, 12.0]] * d))
    if ref:
        s.set_reference_value(np.full(d, REFS[ref]))
    arg = s
    kept = None
    if origin == 'global' and ret not in JAC:      # what else is known about the samples stays with them
        kept = dict(jacobians=np.arange(n * 3.0 * d).reshape(n, 3, d), volumes=(1.0 + np.arange(n)) / n, probabilities=np.ones(n) / n, region=np.arange(n) % 3)
    if origin == 'local':          # only distributed data
        s.set_values_local(np.array_split(V, size)[rank])
    elif origin == 'both':
        s.set_values(V.copy())
        s.global_to_local()
    elif origin == 'held':         # held by the sampler
        s.set_values(V.copy())
        sm.input_sample_set = s
        arg = None
    elif origin == 'appended':
        s.set_values(V[:1].copy())
        if n > 1:
            s.append_values(V[1:].copy())
    elif origin == 'copied':
        s.set_values(V.copy())
        arg = s = s.copy()
    elif origin == 'random':
        np.random.seed(rank + 17)
        disc = sm.create_random_discretization('uniform', s, savefile=fname, num_samples=n, globalize=glob)
    elif origin == 'regular':
        arg = sm.regular_sample_set(s, [n] + [1] * (d - 1))
        V = np.array(arg.get_values())
    else:
        s.set_values(V.copy())
        for k, x in (kept or {}).items():
            getattr(s, 'set_' + k)(x.copy())
    if origin != 'random':
        call = sm.compute_qoi_and_create_discretization if (n + d) % 3 else sm.compute_QoI_and_create_discretization
        disc = call(arg, savefile=fname, globalize=glob) if arg is not None else call(savefile=fname, globalize=glob)
    require(sm.discretization is disc, 'the sampler does not hold the discretization')
    i, o = disc.get_input_sample_set(), disc.get_output_sample_set()
    il, ol = np.array(i.get_values_local()), np.array(o.get_values_local())
    require(il.shape[1:] == (d,) and ol.shape[1:] == (m,) and len(il) == len(ol), 'local shapes %s %s', il.shape, ol.shape)
    same(ol, formula(il, m, style).reshape(ol.shape), 'outputs of the local samples')
    if ret in EE:
        require_close(o.get_error_estimates_local(), errors(il, m), 'local error estimates', 1e-9)
    if ret in JAC:
        require_close(i.get_jacobians_local(), jac(il, m), 'local Jacobians', 1e-9)
    if glob:
        ig = np.array(i.get_values())
        if origin != 'random':
            require_close(ig, V, 'input samples', 0)
        require(ig.shape == (n, d), 'input shape %s', ig.shape)
        same(o.get_values(), formula(ig, m, style), 'outputs of the samples')
        if ret in EE:
            require_close(o.get_error_estimates(), errors(ig, m), 'error estimates', 1e-9)
        else:
            require(o.get_error_estimates() is None, 'error estimates were invented')
        if ret in JAC:
            require_close(i.get_jacobians(), jac(ig, m), 'Jacobians', 1e-9)
        elif not kept:
            require(i.get_jacobians() is None, 'Jacobians were invented')
        for k, x in (kept or {}).items():
            same(getattr(i, 'get_' + k)(), x, '%s of the samples' % k)
        require(disc.check_nums() == n, 'count')
    if not glob:
        sm.local_to_global()
        ig = np.array(i.get_values())
        require(ig.shape == (n, d), 'input shape %s', ig.shape)
        same(o.get_values(), formula(ig, m, style), 'outputs of the samples after gathering')
        require(disc.check_nums() == n, 'count after gathering')
    if ref:
        same(o.get_reference_value(), formula(np.full((1, d), REFS[ref]), m, style)[0], 'output at the reference value')
    else:
        require(o.get_reference_value() is None, 'a reference value was invented')
    if fname is not None and glob:
        import bet.util as util
        new = util.load_object(fname)
        same(new.get_output_sample_set().get_values(), o.get_values(), 'saved outputs')
        require_close(new.get_input_sample_set().get_values(), i.get_values(), 'saved inputs', 0)
    return dict(il=il, log=log)


def run_model(ctx, item):
    n, d, m, ret, style, origin, ref, glob, size, save, copy = item
    desc = dict(n=n, d=d, m=m, ret=ret, style=style, origin=origin, ref=ref, glob=glob, ranks=size, save=save, copy=copy)

    def go():
        fname = os.path.join(ctx.scratch, 'model_%d' % os.getpid()) if save else None
        rs = run_ranks(size, p_model, (n, d, m, ret, style, origin, ref, glob, size, fname, copy)).values()
        rows = concat_local([r['il'] for r in rs])
        require(len(rows) == n, '%d samples over all processes', len(rows))
        if not copy:
            asked = sorted(tuple(x) for r in rs for x in r['log'] if not ref or x[0] != REFS[ref])
            require(asked == sorted(map(tuple, rows.tolist())), 'the model was asked for %s, samples are %s', asked, rows.tolist())
            if ref:
                require(any(x[0] == REFS[ref] for r in rs for x in r['log']), 'the model was never evaluated at the reference value')
        for f in os.listdir(ctx.scratch):
            os.unlink(os.path.join(ctx.scratch, f))
        ctx.step(n)
    ctx.case('model', desc, go)


# ---- one sampler used again and again --------------------------------------------------------------

def p_word(rank, word, d, m, ret, ref, glob):
    import bet.sample as samp
    import bet.sampling.basicSampling as bs
    log = []
    sm = bs.sampler(model(m, ret, 'product', log), error_estimates=ret in ('ee', 'both'), jacobians=ret in ('jac', 'both'))

    def new(n, off):
        s = samp.sample_set(d)
        s.set_values(values(n, d) + off)
        s.set_domain(np.array([[-1.0, 99.0]] * d))
        if ref:
            s.set_reference_value(np.full(d, 100.5 + off))
        return s
    A, want = new(3, 0.5), values(3, d) + 0.5
    done = []
    for k, w in enumerate(word):
        off = 20.0 * (k + 1)
        del log[:]
        if w == 'again':
            arg, exp = A, want
        elif w == 'append':
            more = values(2, d) + off
            A.append_values(more.copy())
            want = np.vstack([want, more])
            arg, exp = A, want
        elif w == 'replace':
            want = values(3 if ret in ('jac', 'both') else 4, d) + off
            A.set_values(want.copy())
            arg, exp = A, want
        elif w in ('design', 'random'):
            num = 3 if ret in ('jac', 'both') else 2 + k
            np.random.seed(rank + 7 * k)
            arg = sm.regular_sample_set(A, [num] + [1] * (d - 1)) if w == 'design' else sm.random_sample_set('uniform', A, num)
            exp = np.array(arg.get_values())
            require(exp.shape == (num, d), '%s of shape %s', w, exp.shape)
            if arg is A:
                want = exp
        elif w == 'other':
            exp = values(5, d) + off
            arg = new(5, off)
        elif w == 'copied':
            arg, exp = A.copy(), want
        elif w == 'sampler':
            sm = sm.copy()
            arg, exp = A, want
        disc = sm.compute_qoi_and_create_discretization(arg, globalize=glob)
        if not glob:
            disc.local_to_global()
        i, o = disc.get_input_sample_set(), disc.get_output_sample_set()
        require_close(i.get_values(), exp, 'inputs after %s' % (word[:k + 1],), 0)
        require_close(o.get_values(), formula(exp, m), 'outputs after %s' % (word[:k + 1],), 1e-9)
        require(disc.check_nums() == len(exp), 'number of samples after %s', word[:k + 1])
        if ret in ('ee', 'both'):
            require_close(o.get_error_estimates(), errors(exp, m), 'error estimates after %s' % (word[:k + 1],), 1e-9)
        if ret in ('jac', 'both'):
            require_close(i.get_jacobians(), jac(exp, m), 'Jacobians after %s' % (word[:k + 1],), 1e-9)
        if ref:
            r = np.full((1, d), 100.5 + (off if w == 'other' else 0.5))
            require_close(o.get_reference_value(), formula(r, m)[0], 'output at the reference value', 1e-9)
        done.append((disc, exp))
        if i is not A:
            A2 = [x for x in done if x[0].get_input_sample_set() is not A]
            for dd, ee in A2:       # earlier results stay what they were
                require_close(dd.get_output_sample_set().get_values(), formula(ee, m), 'outputs of an earlier call', 1e-9)
                require_close(dd.get_input_sample_set().get_values(), ee, 'inputs of an earlier call', 0)
    return [list(x) for x in log], exp


def run_word(ctx, item):
    word, d, m, ret, ref, glob, size = item

    def go():
        rs = run_ranks(size, p_word, (word, d, m, ret, ref, glob)).values()
        asked = sorted(tuple(x) for r in rs for x in r[0] if x[0] < 100)
        if word[-1] != 'sampler':
            require(asked == sorted(map(tuple, rs[0][1].tolist())), 'the model was asked for %s', asked)
        ctx.step(len(word))
    ctx.case('sequence', dict(word=word, d=d, m=m, ret=ret, ref=ref, glob=glob, ranks=size), go)


def run_refless(ctx, item):
    """A model that cannot be evaluated at the reference value still gives the discretization of the samples."""
    n, size = item

    def prog(rank):
        import bet.sample as samp
        import bet.sampling.basicSampling as bs

        def f(x):
            if np.any(x > 50):
                raise ValueError('outside')
            return formula(x, 2)
        s = samp.sample_set(2)
        s.set_values(values(n, 2))
        s.set_reference_value(np.full(2, 100.5))
        d = bs.sampler(f).compute_qoi_and_create_discretization(s)
        require_close(d.get_output_sample_set().get_values(), formula(values(n, 2), 2), 'outputs', 1e-9)
        require(d.get_output_sample_set().get_reference_value() is None, 'a reference value was invented')

    def go():
        run_ranks(size, prog, ()).values()
        ctx.step()
    ctx.case('no-reference', dict(n=n, ranks=size), go)


def run_bad(ctx, item):
    def go():
        import bet.sample as samp
        import bet.sampling.basicSampling as bs
        s = samp.sample_set(2)
        s.set_values(values(4, 2))
        for k, y in enumerate(([1, 2, 3, 4], None, 5.0, 'x')):
            expect_error(lambda: bs.sampler(lambda x: y).compute_qoi_and_create_discretization(s), 'model returning %r' % (y,), (bs.bad_object,))
            ctx.step()
        for k in (0, 1, 3, 5):
            expect_error(lambda: bs.sampler(lambda x: np.ones((k, 1))).compute_qoi_and_create_discretization(s.copy()), 'model returning %d outputs for 4 samples' % k)
            ctx.step()
    ctx.case('bad', item, go)


def run(ctx):
    T = ctx.thorough
    items = []
    k = 0
    for n in range(1, 10 if T else 7):
        for d, m in itertools.product((1, 2, 3), repeat=2):
            for ret in RET:
                for origin in ('global', 'local', 'both', 'held', 'appended', 'copied', 'random', 'regular'):
                    for size in range(1, 7 if T else 5):
                        k += 1
                        style = ('product', 'columns', 'flat' if m == 1 else 'special')[k % 3]
                        if not T and (k + k // 8) % 2 and n > 3:
                            continue
                        items.append((n, d, m, ret, style, origin, (k // 2) % 4, bool((k // 3) % 4), size, k % 9 == 0, k % 23 == 0))
    for n, d, m, size in ((13, 4, 2, 3), (17, 2, 4, 5), (40, 1, 3, 4), (33, 5, 1, 8), (3, 6, 5, 2), (24, 3, 3, 6), (2, 4, 4, 5), (1300, 3, 2, 3)):
        for ret in RET:
            for origin in ('global', 'local', 'both', 'held', 'appended', 'copied', 'random', 'regular'):
                k += 1
                style = ('product', 'columns', 'flat' if m == 1 else 'special')[k % 3]
                items.append((n, d, m, ret, style, origin, (k // 2) % 4, bool((k // 3) % 4), size, k % 9 == 0, k % 23 == 0))
    ctx.shards(items, run_model)
    LET = ('again', 'append', 'replace', 'other', 'copied', 'sampler', 'design', 'random')
    items = []
    for k in range(1, 5 if T else 4):
        for w in itertools.product(LET, repeat=k):
            for size in (1, 2, 3, 4) if T else (1, 3):
                j = len(items)
                ret = ('array', 'both', 'ee', 'jac')[j // 2 % 4]
                if 'append' in w and ret in ('both', 'jac'):        # Jacobians of the old samples would have to be removed first
                    ret = 'ee'
                items.append((w, 1 + j % 3, 1 + j // 3 % 2, ret, bool(j // 5 % 2), bool(j % 7), size))
    ctx.shards(items, run_word)
    ctx.shards([(n, r) for n in (1, 2, 5) for r in (1, 2, 3)], run_refless)
    ctx.shards(range(1), run_bad)
