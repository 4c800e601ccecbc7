"""Global results do not depend on the number of processes."""
import numpy as np

from mc import spmd
from mc.core import require, Violation, close
from mc.fakempi import run_ranks

RULE = ('full product of the SPMD program table (every parallel-aware operation of the package with its options), sample counts and '
        'process counts; oracle: the one-process result, which every rank must reproduce')
BOUNDS = {'quick': {'samples': 'smallest..5, 23', 'ranks': '1..4 and 7'}, 'thorough': {'samples': 'smallest..8, 23, 40', 'ranks': '1..9'}}


def compare(ref, got, what):
    require(sorted(ref) == sorted(got), '%s: different results %s / %s', what, sorted(ref), sorted(got))
    for k in ref:
        x, y = got[k], ref[k]
        if x is None or y is None:
            require(x is None and y is None, '%s: %s is %r, in serial %r', what, k, x, y)
            continue
        require(x.shape == y.shape, '%s: %s has shape %s, in serial %s', what, k, x.shape, y.shape)
        if not close(x, y, 1e-9):
            raise Violation('%s: %s = %s, in serial %s' % (what, k, x.tolist(), y.tolist()))


def one(ctx, item):
    name, fn, args, n, ranks = item
    memo = {}

    def go(r):
        def run():
            if 'ref' not in memo:
                memo['ref'] = run_ranks(1, fn, (n,) + args).values()[0]
            w = run_ranks(r, fn, (n,) + args)
            ctx.step(w.ncoll + 1)
            for k, res in enumerate(w.values()):
                compare(memo['ref'], res, 'rank %d of %d' % (k, r))
        return run
    for r in ranks:
        ctx.case(name, dict(program=name, args=args, n=n, ranks=r), go(r))


def run(ctx):
    ranks = tuple(range(1, 10)) if ctx.thorough else (1, 2, 3, 4, 7)
    items = []
    for name, fn, args, n0 in spmd.programs(ctx.thorough):
        top = 8 if ctx.thorough else 5
        ns = range(n0, max(n0 + 2, top + 1))
        if name in ('choose', 'choose_large'):
            ns = (1, 2, 3) if ctx.thorough else (1, 3)
        else:
            ns = tuple(ns) + ((23, 40) if ctx.thorough else (23,))
        for n in ns:
            items.append((name, fn, args, n, ranks))
    ctx.shards(items, one)
