"""Inverse solution: every output event's probability is carried by exactly the input
cells that map to it, split in proportion to volume (exhaustive small configurations)."""
import itertools

import numpy as np

from mc import build as B
from mc.core import require, require_close
from mc.fakempi import run_ranks

RULE = ('all maps of n input cells to m output cells x cell volumes x output '
        'probabilities x kind of output partition x process counts; distinct = '
        'distinct configuration descriptor; oracle = closed-form split computed '
        'independently from the descriptor')
BOUNDS = {'quick': {'n': '1..3 full product, 5/8/12/33/101 patterns', 'm': '1..3, patterns 7, 12', 'ranks': '1..4', 'volumes': '{0,1,3}^n x scales 1,1e-30,1e5, mixed',
                    'histories': 'plain, pointer precomputed, localized first, re-inverted (new measure, new volumes), repeated, volumes or partition given late'},
          'thorough': {'n': '1..4 full product, up to 17 patterns', 'm': '1..4', 'ranks': '1..7', 'volumes': '{0,1,3}^n x scales 1,1e-30,1e5, mixed'}}


def expected(assign, vols, probs):
    out = [0.0] * len(assign)
    for i, p in enumerate(probs):
        tot = sum(v for a, v in zip(assign, vols) if a == i)
        if p > 0 and tot > 0:
            for j, (a, v) in enumerate(zip(assign, vols)):
                if a == i:
                    out[j] = p * (v / tot)
    return out


def program(rank, kind, m, odim, assign, vols, probs, glob, hist):
    import bet.sample as samp
    import bet.calculateP.calculateP as calcP
    n = len(assign)
    inp = B.line(n, 1)
    if hist != 'late-volumes':
        inp.set_volumes({'int-volumes': lambda v: np.array(v, dtype=int), 'float32-volumes': lambda v: np.array(v, dtype='float32')}.get(hist, B.arr)(vols))
    out = samp.sample_set(odim)
    pts = B.points(kind, m, assign, odim)
    op = B.partition(kind, m, odim)
    op.set_probabilities(B.arr(probs))
    if hist in ('late-partition', 'local-outputs'):
        # the outputs are known only in their local parts / the partition is attached afterwards
        from bet.Comm import comm
        if hist == 'local-outputs':
            out.set_values_local(np.array_split(pts, comm.size)[comm.rank])
            out.local_to_global()
            inp.global_to_local()
        else:
            out.set_values(pts)
        disc = samp.discretization(input_sample_set=inp, output_sample_set=out)
        disc.set_output_probability_set(op)
    else:
        out.set_values(pts)
        disc = samp.discretization(input_sample_set=inp, output_sample_set=out, output_probability_set=op)
    if hist == 'ptr-first':
        disc.set_io_ptr(globalize=True)
    if hist == 'local-first':
        disc._input_sample_set.global_to_local()
        disc._output_sample_set.global_to_local()
    if hist == 'late-volumes':         # distributed and counted before the volumes are known
        disc.global_to_local()
        disc.set_io_ptr(globalize=glob)
        inp.set_volumes(B.arr(vols))
    if hist == 'new-volumes':          # inverted with other volumes before
        inp.set_volumes(B.arr([v + 1.0 for v in reversed(vols)]))
        calcP.prob(disc, globalize=not glob)
        inp.set_volumes(B.arr(vols))
    if hist == 'reprob':
        # another output measure on the same partition was inverted before
        op.set_probabilities(B.arr(list(reversed(probs))))
        calcP.prob(disc)
        op.set_probabilities(B.arr(probs))
    calcP.prob(disc, globalize=glob)
    if hist == 'twice':
        calcP.prob(disc, globalize=glob)
    s = disc.get_input_sample_set()
    g = s.get_probabilities()
    return (np.array(s.get_probabilities_local()), None if g is None else np.array(g), s.get_prob_type())


def one(ctx, item):
    kind, m, odim, assign, vols, probs, ranks, glob, hist = item
    desc = dict(kind=kind, m=m, odim=odim, assign=list(assign), vols=list(vols), probs=list(probs),
                ranks=ranks, globalize=glob, history=hist)

    def go():
        w = run_ranks(ranks, program, (kind, m, odim, assign, vols, probs, glob, hist))
        res = w.values()
        exp = expected(assign, vols, probs)
        loc = B.concat_local([r[0] for r in res])
        eps = 1e-6 if hist == 'float32-volumes' else 1e-12
        require_close(loc, exp, 'cell probabilities (local parts)', eps)
        tiny(loc, exp, 1e-6 if hist == 'float32-volumes' else 1e-9)
        for r, x in enumerate(res):
            if glob:
                require(x[1] is not None, 'rank %d has no global probabilities' % r)
            if x[1] is not None:
                require_close(x[1], exp, 'cell probabilities on rank %d' % r, eps)
            require(x[2] == 'voronoi', 'probability type is %r' % (x[2],))
    ctx.step(1 + w_hist(hist))
    ctx.case('prob', desc, go)


def w_hist(h):
    return {'plain': 2, 'ptr-first': 3, 'local-first': 4, 'reprob': 4, 'twice': 3}.get(h, 2)


def tiny(got, exp, tol=1e-9):
    """relative agreement, also for very small masses"""
    for g, e in zip(np.asarray(got).tolist(), exp):
        require(abs(g - e) <= tol * abs(e), 'cell probability %r, expected %r', g, e)


# -- emulated volumes --------------------------------------------------------------

def program_em(rank, kind, m, assign, em, probs, hist):
    import bet.sample as samp
    import bet.calculateP.calculateP as calcP
    n = len(assign)
    inp = B.line(n, 2)
    out = samp.sample_set(1)
    out.set_values(B.points(kind, m, assign, 1))
    op = B.partition(kind, m, 1)
    op.set_probabilities(B.arr(probs))
    emu = samp.sample_set(2)
    emu.set_domain(inp.get_domain())
    emu.set_values(B.points('voronoi', n, em, 2))
    disc = samp.discretization(input_sample_set=inp, output_sample_set=out, output_probability_set=op,
                               emulated_input_sample_set=emu)
    if hist == 'mc-first':
        inp.estimate_volume_mc()
        calcP.prob(disc)
    calcP.prob_with_emulated_volumes(disc)
    s = disc.get_input_sample_set()
    return (np.array(s.get_probabilities_local()), np.array(s.get_probabilities()), np.array(s.get_volumes()))


def one_em(ctx, item):
    kind, m, assign, em, probs, ranks, hist = item
    desc = dict(kind=kind, m=m, assign=list(assign), emulated=list(em), probs=list(probs), ranks=ranks, history=hist)

    def go():
        res = run_ranks(ranks, program_em, (kind, m, assign, em, probs, hist)).values()
        n = len(assign)
        vols = [em.count(j) / float(len(em)) for j in range(n)]
        exp = expected(assign, vols, probs)
        require_close(B.concat_local([r[0] for r in res]), exp, 'cell probabilities (local parts)', 1e-12)
        for r, x in enumerate(res):
            require_close(x[2], vols, 'emulated volumes on rank %d' % r, 1e-12)
            require_close(x[1], exp, 'cell probabilities on rank %d' % r, 1e-12)
    ctx.step(3)
    ctx.case('prob_with_emulated_volumes', desc, go)


SCALES = (1.0, 1e-30, 1e5)


def items(ctx):
    th = ctx.thorough
    out = []
    # space A (serial, full product): maps x volumes x probabilities x volume scale
    nmax, mmax = (4, 4) if th else (3, 3)
    valph = (0, 1, 3)
    for n in range(1, nmax + 1):
        for m in range(1, mmax + 1):
            for assign in B.assignments(n, m):
                for vols in itertools.product(valph, repeat=n):
                    for probs in B.prob_vectors(m):
                        for sc in (SCALES if n < 3 else SCALES[1:2] if not th else SCALES):
                            out.append(('voronoi', m, 1, tuple(assign), tuple(v * sc for v in vols),
                                        tuple(probs), 1, True, 'plain'))
    # cells of very different size next to each other
    for n in (2, 3):
        for m in (2, 3):
            for assign in B.assignments(n, m):
                for vols in itertools.product((0.0, 1e-40, 1e-18, 1.0), repeat=n):
                    for probs in B.prob_vectors(m)[-2:]:
                        out.append(('voronoi', m, 1, tuple(assign), vols, tuple(probs), 1, True, 'plain'))
    # space B (full product): kinds x maps x ranks x histories x globalize, few volume/prob patterns
    for n in ((1, 2, 3, 4) if th else (1, 2, 3)):
        for m in (2, 3):
            for kind in B.KINDS1:
                for assign in B.assignments(n, m):
                    for vols in (tuple(0.25 * (j + 1) for j in range(n)), tuple(float(j % 2) for j in range(n))):
                        for probs in B.prob_vectors(m)[-2:]:
                            for ranks in ((1, 2, 3, 4, 5) if th else (1, 2, 4)):
                                for hist, glob in (('plain', True), ('plain', False), ('ptr-first', True),
                                                   ('local-first', True), ('reprob', True), ('twice', False),
                                                   ('late-partition', True), ('local-outputs', True), ('reprob', False), ('late-volumes', True),
                                                   ('late-volumes', False), ('new-volumes', True), ('new-volumes', False)):
                                    if n == 3 and m == 3 and not th and hist in ('ptr-first', 'twice', 'late-partition', 'new-volumes'):
                                        continue
                                    out.append((kind, m, 1 + (len(kind) % 2), tuple(assign), vols, tuple(probs),
                                                ranks, glob, hist))
    # space C: mid-size configurations, all rank counts
    for n in (5, 8, 12) if not th else (5, 7, 8, 12, 17):
        for m in (2, 3):
            for kind in B.KINDS1:
                for shift in range(m):
                    assign = tuple((j * (j + 1) // 2 + shift) % m for j in range(n))
                    vols = tuple(((j * 5 + shift) % 7) / 7.0 for j in range(n))
                    for probs in B.prob_vectors(m, False):
                        for ranks in range(1, 5 if not th else 8):
                            for hist in ('plain', 'reprob'):
                                out.append((kind, m, 1, assign, vols, tuple(probs), ranks, True, hist))
    # volumes given as whole numbers or in single precision
    for n in (1, 2, 3, 4):
        for m in (1, 2, 3):
            for assign in B.assignments(n, m):
                vols = tuple(1 + (j * 2) % 5 for j in range(n))
                for hist in ('int-volumes', 'float32-volumes'):
                    for ranks in (1, 2):
                        out.append(('voronoi', m, 1, tuple(assign), vols, tuple((1.0 + i) / (m * (m + 1) / 2) for i in range(m)), ranks, True, hist))
    # many events, many cells
    for n, m in ((350, 300), (70000, 3)):
        assign = tuple((7 * j + j // 300) % m for j in range(n))
        vols = tuple(1.0 + (j * 5 % 7) for j in range(n))
        probs = tuple((1.0 + i) / (m * (m + 1) / 2) for i in range(m))
        for kind in ('voronoi', 'rectangle') if n < 1000 else ('voronoi',):
            for ranks in (1, 3):
                for hist in ('plain', 'ptr-first'):
                    out.append((kind, m, 1, assign, vols, probs, ranks, True, hist))
    # space D: larger and higher dimensional configurations, volumes and probabilities of all magnitudes
    for n, m in ((33, 7), (101, 12), (1200, 31)):
        for kind in B.KINDS1:
            for odim in (1, 2, 4, 5) if n < 1000 else (1, 3):
                for mul in (1, 3, 7) if n < 1000 else (3,):
                    assign = tuple((mul * j * (j + 1) // 2 + j) % m for j in range(n))
                    for vols in (tuple(1.0 + (j * 5 % 7) for j in range(n)), tuple(10.0 ** -(j * 3 % 20) for j in range(n)),
                                 tuple(1e8 * (j % 3) for j in range(n)), tuple(1e-120 * (1 + j % 5) for j in range(n))):
                        for probs in (tuple((1.0 + i) / (m * (m + 1) / 2) for i in range(m)), tuple(10.0 ** -(2 * i) for i in range(m))):
                            for ranks in (1, 3) if not th else (1, 2, 3, 5):
                                out.append((kind, m, odim, assign, vols, probs, ranks, mul != 3, 'plain' if mul == 1 else 'reprob'))
    return out


def items_em(ctx):
    th = ctx.thorough
    out = []
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            for kind in ('voronoi',) if m == 1 else (B.KINDS1 if th else ('voronoi', 'ball')):
                for assign in B.assignments(n, m):
                    for k in range(1, 5 if th else 4):
                        for em in B.assignments(k, n):
                            for probs in B.prob_vectors(m)[-2:]:
                                for ranks in ((1, 2, 3, 4) if th else (1, 3)):
                                    for hist in ('plain', 'mc-first'):
                                        if not th and n == 3 and k == 3 and (hist == 'plain') != (ranks == 1):
                                            continue
                                        out.append((kind, m, tuple(assign), tuple(em), tuple(probs), ranks, hist))
    # larger patterns
    for n, m, k in ((7, 4, 33), (12, 5, 101), (40, 9, 1300)):
        for kind in B.KINDS1:
            for mul in (1, 2, 3, 5) if k < 1000 else (2,):
                assign = tuple((mul * j + j // 3) % m for j in range(n))
                em = tuple((mul * j * j + j // 2) % n for j in range(k))
                for probs in (tuple((1.0 + i) / (m * (m + 1) / 2) for i in range(m)), tuple(10.0 ** -(2 * i) for i in range(m))):
                    for ranks in (1, 2, 3, 4):
                        out.append((kind, m, assign, em, probs, ranks, 'plain' if mul % 2 else 'mc-first'))
    return out


def run(ctx):
    ctx.shards(items(ctx), one)
    ctx.shards(items_em(ctx), one_em)
