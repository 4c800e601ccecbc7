"""Parallel save and load are correct under every interleaving."""
import itertools
import os

import numpy as np

from mc import spmd
from mc.build import snap, diff, make_disc, make_set
from mc.core import require, Violation
from mc.fakempi import run_ranks, explore_schedules
from mc.fsyield import intercept

RULE = ('stateless depth-first enumeration of all schedules of the file operations (open, each written chunk, close, read, stat, list, rename) '
        'of 2-3 ranks executing save/load programs, with partial-order reduction of rank-local steps; single operations without preemption bound '
        'for 2 ranks, composite programs up to the stated preemption bound; plus all pairs (processes saving, processes loading)')
BOUNDS = {'quick': {'ranks': '2 (unbounded single ops; 2 preemptions composite), 3 (0-1 preemptions)', 'pairs': '1..4 x 1..4, 10..12'},
          'thorough': {'ranks': '2 (unbounded single ops; 3 preemptions composite), 3 (1-2 preemptions)', 'pairs': '1..6 x 1..6, 10..12'}}


def content(kind, ver, n=3):
    """(object as seen by the current rank, snapshot of the complete object)"""
    if kind == 'set':
        s = make_set('sample_set', n, 2, ('volumes',), ver)
        s.global_to_local()
        return s
    if kind == 'local-set':
        import bet.sample as samp
        from bet.Comm import comm
        s = samp.sample_set(2)
        s.set_values_local(np.array_split(spmd.pts(n, 2, 0.01 * ver), comm.size)[comm.rank])
        return s
    d = make_disc(('output_probability',), False, ver, n=n)
    d.global_to_local()
    return d


def values(o, local):
    s = o.get_input_sample_set() if hasattr(o, 'get_input_sample_set') else o
    return s.get_values_local() if local else s.get_values()


def whole(kind, ver, n=3):
    if kind == 'local-set':
        return spmd.pts(n, 2, 0.01 * ver)
    if kind == 'set':
        return make_set('sample_set', n, 2, ('volumes',), ver).get_values()
    return make_disc(('output_probability',), False, ver, n=n).get_input_sample_set().get_values()


def do_save(root, name, kind, ver, glob):
    import bet.util as util
    o = content(kind, ver)
    util.save_object(o, os.path.join(root, name), globalize=glob)
    return o


def do_load(root, name, kind, ver, glob, localize=False):
    import bet.util as util
    from bet.Comm import comm
    r = util.load_object(os.path.join(root, name), localize)
    loc = not glob
    want = whole(kind, ver)
    part = np.array_split(want, comm.size)[comm.rank]
    if loc or localize or kind != 'local-set':
        v = values(r, True)
        require(v is not None, 'loaded object has no local part')
        if loc or localize:
            require(v.shape == part.shape and bool(np.all(v == part)), 'local part of rank %d is %s, expected %s', comm.rank, v.tolist(), part.tolist())
    if not loc or kind != 'local-set':
        v = values(r, False)
        require(v is not None and v.shape == want.shape and bool(np.all(v == want)), 'values loaded by rank %d are %s, expected %s', comm.rank,
                None if v is None else v.tolist(), want.tolist())
    return True


def prog(rank, root, ops):
    import bet.util as util
    for op in ops:
        if op[0] == 'save':
            do_save(root, *op[1:])
        elif op[0] == 'load':
            do_load(root, *op[1:])
    return True


PROGRAMS = {
    'save-global': [('save', 'a', 'set', 0, True)],
    'save-parts': [('save', 'a', 'set', 0, False)],
    'save-load-global': [('save', 'a', 'set', 0, True), ('load', 'a', 'set', 0, True)],
    'save-load-global-localize': [('save', 'a', 'local-set', 0, True), ('load', 'a', 'local-set', 0, True, True)],
    'save-load-parts': [('save', 'a', 'local-set', 0, False), ('load', 'a', 'local-set', 0, False)],
    'save-load-parts-disc': [('save', 'a', 'disc', 0, False), ('load', 'a', 'disc', 0, False)],
    'save-load-disc': [('save', 'a', 'disc', 0, True), ('load', 'a', 'disc', 0, True)],
    'overwrite-global': [('save', 'a', 'set', 0, True), ('save', 'a', 'set', 1, True), ('load', 'a', 'set', 1, True)],
    'overwrite-parts': [('save', 'a', 'local-set', 0, False), ('save', 'a', 'local-set', 1, False), ('load', 'a', 'local-set', 1, False)],
    'two-names': [('save', 'a', 'local-set', 0, False), ('save', 'ba', 'local-set', 1, False), ('load', 'a', 'local-set', 0, False), ('load', 'ba', 'local-set', 1, False)],
    'load-overwrite-global': [('save', 'a', 'set', 0, True), ('load', 'a', 'set', 0, True), ('save', 'a', 'set', 1, True), ('load', 'a', 'set', 1, True)],
    'load-overwrite-parts': [('save', 'a', 'local-set', 0, False), ('load', 'a', 'local-set', 0, False), ('save', 'a', 'local-set', 1, False),
                             ('load', 'a', 'local-set', 1, False)],
}
SETUP = {'load-parts': ('parts', [('load', 'a', 'local-set', 0, False)]), 'load-global': ('global', [('load', 'a', 'set', 0, True)]),
         'load-global-localize': ('global', [('load', 'a', 'set', 0, True, True)])}


def clear(root):
    os.makedirs(root, exist_ok=True)
    for f in os.listdir(root):
        os.remove(os.path.join(root, f))


def explore(ctx, item):
    name, size, bound, old = item
    root = os.path.join(ctx.scratch, 'x')

    def prepare():
        clear(root)
        if name in SETUP:
            kind = SETUP[name][0]
            run_ranks(size, prog, (root, [('save', 'a', 'local-set', 0, False) if kind == 'parts' else ('save', 'a', 'set', 0, True)])).values()
        elif old:      # a file of an earlier run is already there
            first = PROGRAMS[name][0]
            run_ranks(size, prog, (root, [first[:3] + (7,) + first[4:]])).values()

    ops = SETUP[name][1] if name in SETUP else PROGRAMS[name]
    if ctx.replay is not None:
        c = ctx.replay.get('case') or {}
        if c.get('program') != name or c.get('ranks') != size or c.get('old_files') != old:
            return
        with intercept(root):
            prepare()
            from mc.fakempi import World

            def again():
                w = World(size, c['schedule'])
                w.reduce = True
                w.run(prog, (root, ops))
                w.values()
            ctx.case('schedules', c, again)
        return
    n = 0
    with intercept(root):
        for sched, w in explore_schedules(size, prog, (root, ops), max_preemptions=bound, before=prepare, reduce=True):
            n += 1
            ctx.step(w.nsteps)

            def go():
                w.values()
                if name.startswith('save-'):
                    # after the last barrier all files are complete
                    check_files(root, ops, size)
            desc = dict(program=name, ranks=size, preemptions=bound, old_files=old, schedule=sched)
            ctx.case('schedules', desc, go)
    ctx.notes['schedules_%s_%d' % (name, size)] = n


def check_files(root, ops, size):
    import pickle
    for op in ops:
        if op[0] != 'save':
            continue
        _, name, kind, ver, glob = op
        want = whole(kind, ver)
        if glob:
            with open(os.path.join(root, name + '.p'), 'rb') as f:
                v = values(pickle.load(f), False)
            require(np.array_equal(v, want), 'file holds %s, expected %s', v, want)
        else:
            got = []
            for r in range(size):
                with open(os.path.join(root, ('proc%d_%s.p' % (r, name)) if size > 1 else name + '.p'), 'rb') as f:
                    got.append(values(pickle.load(f), True))
            require(np.array_equal(np.concatenate(got), want), 'files hold %s, expected %s', got, want)


def pair_prog(rank, root, name):
    import bet.util as util
    return util.load_object(os.path.join(root, name))


def pairs(ctx, item):
    r1, r2, kind, name, other = item

    def go():
        root = os.path.join(ctx.scratch, 'p')
        clear(root)
        if other:      # parts of another object with a similar name, saved by other process counts
            run_ranks(r2, prog, (root, [('save', 'x' + name, 'local-set', 5, False)])).values()
            run_ranks(2, prog, (root, [('save', name + 'x', 'local-set', 5, False)])).values()
        run_ranks(r1, prog, (root, [('save', name, kind, 0, False)])).values()
        if r1 == 1:
            # one process saves one file, which any number of processes loads completely
            w = run_ranks(r2, pair_prog, (root, name))
            for v in w.values():
                require(np.array_equal(values(v, kind == 'local-set'), whole(kind, 0)), 'loaded values differ')
        elif r1 == r2:
            run_ranks(r2, prog, (root, [('load', name, kind, 0, False)])).values()
        else:
            w = run_ranks(r2, pair_prog, (root, name))
            out = [o[0] for o in w.outcome]
            require(out == ['exc'] * r2 and w.error is None, 'loading parts of %d processes with %d: outcomes %s', r1, r2, out)
        ctx.step(3)
    ctx.case('pairs', dict(save=r1, load=r2, kind=kind, name=name, other=other), go)


def run(ctx):
    T = ctx.thorough
    items = []
    for name in sorted(PROGRAMS):
        single = len(PROGRAMS[name]) == 1
        for old in (False, True):
            items.append((name, 2, None if single else (3 if T else 2), old))
            heavy = name in ('two-names', 'overwrite-parts', 'load-overwrite-parts')
            if T or not old:
                items.append((name, 3, (1 if T else 0) if heavy else (2 if T else 1), old))
    for name in sorted(set(PROGRAMS) | set(SETUP)):
        items.append((name, 1, None, False))
    for name in sorted(SETUP):
        items.append((name, 2, None, False))
        items.append((name, 3, 3 if T else 1, False))
    items.sort(key=lambda t: -(('parts' in t[0] or 'two' in t[0]) * 10 + t[1] + (t[2] or 0)))
    ctx.shards(items, explore)
    top = 6 if T else 4
    items = [(a, b, k, nm, o) for a in range(1, top + 1) for b in range(1, top + 1) for k in ('local-set', 'set', 'disc')
             for nm in ('a', 'data.v1', 'a[1]', 'a+') for o in (False, True)]
    items += [(a, b, k, 'a', o) for a, b in ((10, 10), (11, 11), (12, 12), (11, 1), (12, 2), (2, 12), (11, 10), (10, 11), (1, 12)) for k in ('local-set', 'set', 'disc')
              for o in (False, True)]
    ctx.shards(items, pairs)
