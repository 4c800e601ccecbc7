"""Inverse measure on emulated points: equal split of each event among its points."""
import collections

import numpy as np

from mc import build as B
from mc.core import require, require_close
from mc.fakempi import run_ranks

RULE = ('full product of maps samples->events, emulated points->samples, probability vectors, partition kinds, '
        'process counts and call histories; oracle counts the points of each event from the descriptor')
BOUNDS = {'quick': {'samples': '1..3, patterns 5/9/17', 'events': '1..3, patterns 4/5/7', 'emulated': '1..4, patterns 17/40/101', 'ranks': '1..4', 'dimension': '1..5'},
          'thorough': {'samples': '1..4', 'events': '1..4', 'emulated': '1..5', 'ranks': '1..6'}}


def expected(assign, em, probs):
    ev = [assign[e] for e in em]
    cnt = collections.Counter(ev)
    return [probs[i] / cnt[i] if probs[i] > 0 else 0.0 for i in ev]


def program(rank, kind, m, idim, assign, em, probs, glob, hist):
    import bet.sample as samp
    import bet.calculateP.calculateP as calcP
    n = len(assign)
    inp = B.line(n, idim)
    out = samp.sample_set(1)
    out.set_values(B.points(kind, m, assign, 1))
    op = B.partition(kind, m, 1)
    op.set_probabilities(B.arr(probs))
    emu = samp.sample_set(idim)
    emu.set_domain(inp.get_domain())
    pts = B.points('voronoi', n, em, idim)
    if hist == 'emulated-local':
        emu.set_values_local(np.array_split(pts, _size())[rank])
    else:
        emu.set_values(pts)
    disc = samp.discretization(input_sample_set=inp, output_sample_set=out, output_probability_set=op,
                               emulated_input_sample_set=emu)
    if hist == 'ptr-first':
        disc.set_io_ptr()
        disc.set_emulated_ii_ptr()
    if hist == 'local-first':
        inp.global_to_local()
        out.global_to_local()
        emu.global_to_local()
    if hist == 'reprob':
        op.set_probabilities(B.arr(list(reversed(probs))))
        calcP.prob_on_emulated_samples(disc)
        op.set_probabilities(B.arr(probs))
    if hist == 'after-prob':
        inp.estimate_volume_mc()
        calcP.prob(disc)
    calcP.prob_on_emulated_samples(disc, globalize=glob)
    s = disc.get_emulated_input_sample_set()
    g = s.get_probabilities()
    return (np.array(s.get_probabilities_local()), None if g is None else np.array(g), s.get_prob_type(),
            None if s.get_values() is None else np.array(s.get_values()))


def _size():
    from bet.Comm import comm
    return comm.size


HISTS = ('plain', 'ptr-first', 'local-first', 'reprob', 'after-prob', 'emulated-local')


def one(ctx, item):
    kind, m, idim, assign, em, probs, ranks, glob, hist = item
    desc = dict(kind=kind, m=m, idim=idim, assign=assign, emulated=em, probs=probs, ranks=ranks, globalize=glob, history=hist)

    def go():
        res = run_ranks(ranks, program, (kind, m, idim, assign, em, probs, glob, hist)).values()
        exp = expected(assign, em, probs)
        loc = B.concat_local([r[0] for r in res])
        require_close(loc, exp, 'emulated probabilities (local parts)', 1e-12)
        for g, e in zip(loc.tolist(), exp):
            require(abs(g - e) <= 1e-9 * abs(e), 'point probability %r, expected %r', g, e)
        for r, x in enumerate(res):
            if glob or x[1] is not None:
                require_close(x[1], exp, 'emulated probabilities on rank %d' % r, 1e-12)
            if glob:
                require_close(x[3], B.points('voronoi', len(assign), em, idim), 'emulated values on rank %d' % r)
            require(x[2] == 'voronoi', 'probability type %r', x[2])
    ctx.step(3)
    ctx.case('prob_on_emulated_samples', desc, go)


def items(ctx):
    th = ctx.thorough
    out = []
    # space A: serial, full product
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for m in (1, 2, 3):
            for assign in B.assignments(n, m):
                for k in range(1, 5 if th else 4):
                    for em in B.assignments(k, n):
                        for probs in (B.prob_vectors(m) if n < 3 or th else B.prob_vectors(m)[-3:]):
                            out.append(('voronoi', m, 1, assign, em, tuple(probs), 1, True, 'plain'))
    # space B: kinds x ranks x histories
    for n in (1, 2, 3):
        for m in (2, 3):
            for kind in B.KINDS1:
                for assign in B.assignments(n, m):
                    for em in ((0,), tuple(range(n)), tuple(j % n for j in range(n + 2)), (n - 1,) * 5,
                               tuple((j * 2) % n for j in range(7))):
                        for probs in B.prob_vectors(m)[-1:]:
                            for ranks in ((1, 2, 3, 4, 6) if th else (1, 2, 4)):
                                for hist in HISTS:
                                    glob = not (hist == 'ptr-first')
                                    if n == 3 and m == 3 and not th and hist in ('reprob', 'local-first') and ranks > 1:
                                        continue
                                    out.append((kind, m, 2, assign, em, tuple(probs), ranks, glob, hist))
                                    if hist == 'reprob':
                                        out.append((kind, m, 2, assign, em, tuple(probs), ranks, False, hist))
    # space C: larger and higher dimensional patterns, probabilities of all magnitudes
    for n, m, k in ((5, 4, 17), (9, 5, 40), (17, 7, 101), (60, 11, 1300)):
        for kind in B.KINDS1:
            for idim in (1, 3, 5):
                for mul in (1, 2, 3, 5) if k < 1000 else (3,):
                    assign = tuple((mul * j + j // 3) % m for j in range(n))
                    em = tuple((mul * j * j + j // 2) % n for j in range(k))
                    for probs in (tuple((1.0 + i) / (m * (m + 1) / 2) for i in range(m)), tuple(10.0 ** -(3 * i) for i in range(m))):
                        for ranks in (1, 2, 4) if not th else (1, 2, 3, 4, 6):
                            for hist in HISTS if idim == 3 else ('plain', 'emulated-local'):
                                out.append((kind, m, idim, assign, em, probs, ranks, hist != 'ptr-first', hist))
    # many events and cells
    for n, m, k in ((350, 300, 900), (70000, 3, 400)):
        assign = tuple((7 * j + j // 300) % m for j in range(n))
        em = tuple((j * 37 + j // 3) % n if j % 2 else (n - 1 - j) % n for j in range(k))
        for ranks in (1, 2):
            for hist in ('plain', 'emulated-local', 'ptr-first'):
                out.append(('voronoi', m, 1, assign, em, tuple((1.0 + i) / (m * (m + 1) / 2) for i in range(m)), ranks, True, hist))
    # many points per event
    for k in (300, 40000, 70000):
        em = tuple((j * j + j // 2) % 3 if j % 50 == 0 else 0 for j in range(k))
        for ranks in (1, 2):
            for hist in ('plain', 'emulated-local'):
                out.append(('voronoi', 2, 1, (0, 1, 0), em, (0.75, 0.25), ranks, True, hist))
    return out


def run(ctx):
    ctx.shards(items(ctx), one)
