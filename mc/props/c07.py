"""Saved objects load back unchanged whatever else is on disk."""
import itertools
import os
import shutil

import numpy as np

from mc.build import CLASSES, SET_OPTS, DPRES, make_set, make_disc, snap, diff
from mc.core import require

RULE = ('(round trip) every class x every subset (bounded size) of optional data, every discretization component subset, every file-name form; '
        '(histories) all words of save/load operations over a small set of colliding file names and objects, model = mapping name -> contents, '
        'checked after every step together with the bytes of every other file')
BOUNDS = {'quick': {'subsets': 'size <= 2 and all', 'history length': 3, 'names': 6, 'objects': 3},
          'thorough': {'subsets': 'size <= 3 and all', 'history length': 4, 'names': 7, 'objects': 3}}

FORMS = ('plain', 'with.dot', 'with space', 'a+b', 'a(1)', 'br[0]', 'star*', 'ques?', 'caf\u00e9', 'x.p', 'proc', 'proc1', 'process_1', 'data_proc0_x', '-dash', '$v', 'back\\d')


def save_load(ctx, o, path, meth):
    import bet.util as util
    before = snap(o)
    if meth == 'method':
        o.save(path)
    elif meth == 'method-local':
        o.save(path, globalize=False)
    elif meth == 'util':
        util.save_object(o, path)
    else:
        util.save_object(o, path, globalize=False)
    now = snap(o)
    with open(path + '.p', 'rb') as f:
        raw = f.read()
    r = util.load_object(path)
    with open(path + '.p', 'rb') as f:
        require(f.read() == raw, 'loading changed the file')
    require(r is not o, 'the saved object itself was returned')
    d = diff(before, snap(r))
    require(not d, 'loaded object differs from the saved one in %s', d)
    d = diff(before, now)
    require(not d, 'saving changed the object in %s', d)
    r2 = util.load_object(path, localize=True)
    d = [k for k in diff(before, snap(r2)) if not k.endswith('_local')]
    require(not d, 'object loaded with localize differs in %s', d)
    if not os.path.basename(path).startswith('proc_'):
        parts = [(nm, getattr(r2, nm)()) for nm in ('get_input_sample_set', 'get_output_sample_set')] if hasattr(r2, 'get_input_sample_set') else [('', r2)]
        for nm, s in parts:
            for f in ('values', 'volumes', 'probabilities', 'jacobians', 'error_estimates'):
                g = getattr(s, 'get_' + f)() if hasattr(s, 'get_' + f) and s.get_values() is not None else None
                if g is not None:
                    l = getattr(s, 'get_' + f + '_local')()
                    require(l is not None and l.shape == g.shape and l.tobytes() == g.tobytes(), 'loaded with localize: local %s %s', f, l)
    ctx.step(5)


def fresh(ctx):
    p = os.path.join(ctx.scratch, 'd')
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(os.path.join(p, 'sub'))
    return p


def rt_set(ctx, item):
    cls, opts, dim, meth = item

    def go():
        p = fresh(ctx)
        save_load(ctx, make_set(cls, 4, dim, opts), os.path.join(p, 'obj'), meth)
    ctx.case('set', dict(cls=cls, opts=opts, dim=dim, how=meth), go)


SPECIAL = (1e-310, -1e300, float('nan'), float('inf'), -0.0, 1.0 / 3.0, 2.0 ** 60 + 1, float('-inf'))


def rt_values(ctx, item):
    """unusual numbers, many samples and dimensions, all array types"""
    n, dim, shift, dtype, meth = item

    def go():
        import numpy as np
        import bet.sample as samp
        p = fresh(ctx)
        v = np.array([SPECIAL[(i + shift) % len(SPECIAL)] * (1 + i // 8) for i in range(n * dim)]).reshape(n, dim)
        if dtype != 'float64':
            v = np.arange(n * dim).reshape(n, dim).astype(dtype) * 3
        s = samp.sample_set(dim)
        s.set_values(v)
        s.set_probabilities(v[:, 0].copy())
        s.set_jacobians(np.repeat(v[:, None, :], 2, axis=1))
        save_load(ctx, s, os.path.join(p, 'obj'), meth)
        import bet.util as util
        w = util.load_object(os.path.join(p, 'obj')).get_values()
        require(w.dtype == v.dtype and w.tobytes() == v.tobytes(), 'values loaded as %s %s', w.dtype, w.tolist())
    ctx.case('values', dict(n=n, dim=dim, shift=shift, dtype=dtype, how=meth), go)


def rt_disc(ctx, item):
    pres, ptrs, opkind, loc, meth = item

    def go():
        p = fresh(ctx)
        d = make_disc(pres, ptrs, opkind=opkind)
        if loc:
            d.global_to_local()
        save_load(ctx, d, os.path.join(p, 'obj'), meth)
    ctx.case('discretization', dict(present=pres, ptrs=ptrs, opkind=opkind, local=loc, how=meth), go)


def rt_name(ctx, item):
    form, place, meth = item

    def go():
        p = fresh(ctx)
        cwd = os.getcwd()
        try:
            os.chdir(p)
            path = {'abs': os.path.join(p, form), 'rel': form if not form.startswith('-') else './' + form,
                    'sub': os.path.join('sub', form), 'dot': os.path.join('.', form), 'up': os.path.join('sub', '..', form)}[place]
            import bet.util as util
            # neighbours with similar names
            for k, other in enumerate((form + '2', '2' + form, form + '.p', 'proc0_' + form, 'proc1_' + form, 'proc_' + form)):
                util.save_object(make_set('sample_set', 3, 1, (), ver=k + 3), os.path.join(os.path.dirname(path), other))
            save_load(ctx, make_set('sample_set', 4, 2, ('volumes',)), path, meth)
            require(os.path.exists(os.path.join(os.path.dirname(path), form + '.p')), 'file not found under the given name')
        finally:
            os.chdir(cwd)
    ctx.case('name', dict(form=form, place=place, how=meth), go)


NAMES = ('a', 'a.p', 'proc_a', 'proc0_a', 'proc1_a', 'sub/a', 'ab')


def rt_local(ctx, item):
    """Objects that so far hold the data of this process only."""
    cls, n, opts, how, disc = item

    def go():
        import bet.sample as samp
        import bet.util as util
        s = getattr(samp, cls)(2)
        g = np.random.RandomState(n)
        v, data = g.rand(n, 2), {}
        s.set_values_local(v.copy())
        for o in opts:
            data[o] = g.rand(n)
            getattr(s, 'set_%s_local' % o)(data[o].copy())
        obj, path = s, os.path.join(fresh(ctx), 'local')
        if disc:
            y = samp.sample_set(1)
            y.set_values_local(v[:, :1] * 3)
            obj = samp.discretization(s, y)
        obj.save(path) if how == 'method' else util.save_object(obj, path)
        for loc in (False, True):
            r = util.load_object(path, localize=loc)
            t = r.get_input_sample_set() if disc else r
            require(t.get_values() is not None and np.array_equal(t.get_values(), v), 'values loaded: %s', t.get_values())
            require(np.array_equal(t.get_values_local(), v), 'local values loaded: %s', t.get_values_local())
            for o, x in data.items():
                for nm in (o, o + '_local'):
                    w = getattr(t, 'get_' + nm)()
                    require(w is not None and np.array_equal(w, x), '%s loaded: %s', nm, w)
            if disc:
                require(np.array_equal(r.get_output_sample_set().get_values(), v[:, :1] * 3), 'output values loaded: %s', r.get_output_sample_set().get_values())
            ctx.step()
    ctx.case('local-only', dict(cls=cls, samples=n, data=list(opts), how=how, disc=disc), go)


def objects():
    return [make_set('sample_set', 4, 2, ('volumes', 'jacobians')), make_set('rectangle_sample_set', 3, 2, ('probabilities',), 1),
            make_disc(('output_probability', 'emulated_input'), True, 2)]


def histories(ctx, item):
    names, word = item

    def go():
        import bet.util as util
        p = fresh(ctx)
        cwd = os.getcwd()
        try:
            os.chdir(p)
            objs = objects()
            snaps = [snap(o) for o in objs]
            model = {}
            raw = {}
            for (nm, act) in word:
                if act == 'load':
                    if nm in model:
                        d = diff(snaps[model[nm]], snap(util.load_object(nm)))
                        require(not d, 'load(%s) differs from object %d in %s', nm, model[nm], d)
                else:
                    util.save_object(objs[act], nm, globalize=bool(act % 2))
                    model[nm] = act
                    with open(nm + '.p', 'rb') as f:
                        raw[nm] = f.read()
                for k in raw:
                    with open(k + '.p', 'rb') as f:
                        require(f.read() == raw[k], 'file of %s changed by %s(%s)', k, act, nm)
                ctx.step()
            for nm in model:
                d = diff(snaps[model[nm]], snap(util.load_object(nm)))
                require(not d, 'final load(%s) differs from object %d in %s', nm, model[nm], d)
        finally:
            os.chdir(cwd)
    ctx.case('history', dict(word=word), go)


def run(ctx):
    T = ctx.thorough
    opts = [c for k in range(0, (3 if T else 2) + 1) for c in itertools.combinations(SET_OPTS, k)] + [SET_OPTS, tuple(o for o in SET_OPTS if o != 'nodomain')]
    meths = ('method', 'util-local')
    items = [(cls, o, dim, m) for cls in CLASSES for o in opts for dim in ((1, 2, 3) if T or len(o) != 2 else (2,)) for m in meths]
    ctx.shards(items, rt_set)
    items = [(n, dim, sh, dt, m) for n in (1, 2, 9, 50, 257, 3000) for dim in (1, 2, 5) for dt in ('float64', 'float32', 'int64', 'int32')
             for sh in (range(8) if dt == 'float64' else (0,)) for m in ('method', 'method-local', 'util', 'util-local')]
    ctx.shards(items, rt_values)
    pres = [c for k in range(0, 5) for c in itertools.combinations(DPRES, k)]
    items = [(p, q, ok, loc, m) for p in pres for q in (False, True) for ok in ('voronoi', 'rectangle', 'ball', 'cartesian') for loc in (False, True)
             for m in ('method', 'method-local', 'util', 'util-local')]
    ctx.shards(items, rt_disc)
    items = [(f, pl, m) for f in FORMS for pl in ('abs', 'rel', 'sub', 'dot', 'up') for m in ('method', 'util-local')]
    ctx.shards(items, rt_name)
    ctx.shards([(c, n, o, h, d) for c in ('sample_set', 'voronoi_sample_set', 'rectangle_sample_set', 'cartesian_sample_set') for n in (1, 3) for o in ((), ('volumes',), ('probabilities',), ('volumes', 'probabilities'))
                for h in ('method', 'util') for d in (False, True)], rt_local)
    names = NAMES if T else NAMES[:6]
    acts = [(nm, a) for nm in names for a in (0, 1, 2, 'load')]
    L = 4 if T else 3
    items = []
    for k in range(1, L + 1):
        for w in itertools.product(acts, repeat=k):
            if w[0][1] == 'load':
                continue
            # first object index canonical: objects differ only in content
            if k == L and len(set(a for _, a in w if a != 'load')) < 1:
                continue
            # loads of names never saved are not operations of the model
            seen = set()
            ok = True
            for nm, a in w:
                if a == 'load':
                    ok = ok and nm in seen
                else:
                    seen.add(nm)
            if ok and (k < 4 or len(seen) >= 2):
                items.append((names, w))
    ctx.shards(items, histories)
