"""Figures show exactly the stored data."""
import itertools
import os

import numpy as np

from mc import figs
from mc.core import require, require_close
from mc.fakempi import run_ranks

RULE = ('every plotting call x selection, colouring, reference, saving/showing, label and file name options x small data sets (and process counts for the calls that gather data), and every ordered pair of plotting calls '
        '(also with a figure of the caller open); oracle: the contents of the artists of each figure at the moment it is saved or shown, against the stored data')
BOUNDS = {'quick': {'calls': 15, 'samples': '3..7', 'dims': '1..4', 'ranks': '1..2', 'history': 'all pairs of calls'}, 'thorough': {'calls': 15, 'samples': '3..8', 'dims': '1..4', 'ranks': '1..3', 'history': 'all pairs and triples of calls'}}
ASSUMPTIONS = ['nothing is rasterised: the contents of a figure are those of its artists when it is saved or shown', 'windows that were shown are closed by the viewer', 'colours and reference markers beyond the seven built in ones are given by the caller',
               'cells of a planar Voronoi plot are judged inside the domain away from cell boundaries']

PTS = np.array([[1.0, 7.0, 4.0, 2.5], [8.0, 3.0, 6.0, 9.0], [5.0, 1.0, 9.5, 7.5], [6.0, 10.0, 2.0, 0.5], [3.0, 4.0, 1.0, 6.5], [7.0, 0.5, 5.0, 3.0], [0.25, 6.0, 8.0, 1.5]])
DOM = np.array([[-1.0, 11.0], [0.0, 12.0], [-2.0, 10.0], [0.0, 10.0]])
REF = np.array([2.125, 9.0625, 3.375, 8.625])
PR = np.array([1.0, 6.0, 2.0, 7.0, 3.0, 5.0, 4.0]) / 28
VOL = np.array([3.0, 1.0, 5.0, 2.0, 6.0, 4.0, 7.0]) / 28


def mk(dim, n=7, ref=False, shift=0.0, cls='sample_set', unit=1.0):
    import bet.sample as samp
    s = getattr(samp, cls)(dim)
    s.set_domain(DOM[:dim] * unit)
    s.set_values((PTS[:n, :dim] + shift) * unit)
    s.set_probabilities(PR[:n] / PR[:n].sum())
    s.set_volumes(VOL[:n] / VOL[:n].sum())
    s.set_error_id(np.arange(n)[::-1] * 1.5)
    s._radii = np.arange(n) * 0.5 + 0.25
    s._normalized_radii = np.arange(n)[::-1] * 0.125
    if ref:
        s.set_reference_value((REF[:dim] + 0.5) * unit)
    return s


def one(log, kind='save'):
    r = [e for e in log if e[0] == kind]
    require(len(r) == 1, '%d figures were %s instead of one: %s', len(r), 'saved' if kind == 'save' else 'shown', [e[1] for e in r])
    return r[0]


def check_text(fig):
    require(not fig['bad_text'], 'texts that cannot be typeset: %s', fig['bad_text'])


def sig(r):
    """A row of numbers to nine significant digits."""
    return tuple(float('%.9g' % v) for v in np.asarray(r, float).ravel())


def rows(a):
    return sorted(sig(r) for r in a)


def check_scatter(fig, vals, col, ref, labels):
    require(len(fig['axes']) == 1, '%d sets of axes in the figure', len(fig['axes']))
    ax = fig['axes'][0]
    check_text(fig)
    dim = vals.shape[1]
    require(ax['is3d'] == (dim == 3), 'wrong kind of axes')
    got = [sig(r) for p in ax['points'] for r in p['xy'][:, :dim]]
    got += [sig(r) for l in ax['lines'] for r in l['xy'] if dim == 2]
    want = rows(vals) + (rows([ref]) if ref is not None else [])
    require(sorted(got) == sorted(want), 'points drawn %s, expected %s', sorted(got), sorted(want))
    if col is not None:
        cc = [sig(np.append(r, v)) for p in ax['points'] if p['c'] is not None and len(p['c']) == len(p['xy']) for r, v in zip(p['xy'][:, :dim], p['c'])]
        w = rows(np.column_stack((vals, col)))
        require(sorted(cc) == w, 'coloured points %s, expected %s', sorted(cc), w)
    if labels is not None:
        g = [ax['xlabel'], ax['ylabel']] + ([ax['zlabel']] if dim == 3 else [])
        require(g == list(labels), 'axis labels %s, expected %s', g, labels)
    for k, lim in enumerate((ax['xlim'], ax['ylim'])):
        for r in want:
            w = 1e-9 * max(abs(lim[0]), abs(lim[1]))
            require(min(lim) - w <= r[k] <= max(lim) + w, 'the point %s lies outside of the axes %s', r, lim)
    return len(got)


NAMED = {'volumes': lambda s: s.get_volumes(), 'probabilities': lambda s: s.get_probabilities(), 'radii': lambda s: s._radii, 'normalized radii': lambda s: s._normalized_radii, 'error_id': lambda s: s.get_error_id()}
NOS = {'all': None, 'list': [4, 1, 6], 'array': np.array([0, 5]), 'one': [3], 'reversed': np.arange(7)[::-1]}


def shown(log, save, inter):
    """The figures of a call that draws one figure: saved and shown as asked for."""
    s, w = [e for e in log if e[0] == 'save'], [e for e in log if e[0] == 'show']
    require(len(s) == int(save), '%d figures saved, asked for %d', len(s), int(save))
    require(len(w) == int(inter), '%d figures shown, asked for %d', len(w), int(inter))
    out = [e[2] for e in s]
    for e in w:
        require(len(e[2]) == 1, '%d windows shown for one figure', len(e[2]))
        out.append(e[2][0])
    return out, [e[1] for e in s]


def scatter_case(fn, dim, nos, colour, refk, mode, ext, unit=1.0):
    import bet.sample as samp
    import bet.postProcess.plotDomains as pd
    inp, out = mk(dim, ref=refk in ('stored', 'both'), unit=unit), mk(dim, shift=0.5, ref=refk in ('stored', 'both'), unit=unit)
    R = REF * unit
    disc = samp.discretization(inp, out)
    s = {'input': inp, 'output': out, 'set': inp}[fn]
    f = getattr(pd, 'scatter_%dD%s' % (dim, {'input': '_input', 'output': '_output', 'set': ''}[fn]))
    arr = np.array([5.0, 3.0, 6.0, 1.0, 4.0, 2.0, 7.0])
    if colour == 'const':
        arr = np.full(7, 0.375)
    elif colour == 'int':
        arr = arr.astype(int) * 100
    elif colour == 'tiny':
        arr = arr * 2.0 ** -40
    col = {'none': None, 'column': arr[:, None]}.get(colour, arr)
    passed = col
    if colour in NAMED:
        passed = ''.join(list(colour))
        col = NAMED[colour](s)
    elif col is not None:
        col = arr
    ref = R[:dim] if refk in ('arg', 'both') else (R[:dim] + 0.5 * unit if refk == 'stored' else None)
    kw = {'ref_sample': R[:dim].copy()} if refk in ('arg', 'both') else {}
    labels = ('ax one', r'$y_2$', '$z$')[:dim]
    kw.update(zip(('xlabel', 'ylabel', 'zlabel'), labels))
    save, inter = mode
    name = 'out/some_name'
    if ext == 'named':
        kw['filename'], want = 'plot.svg', 'plot.svg'
    elif ext == 'dotdir':
        kw['filename'], kw['file_extension'], want = '../a.b/plot', '.pdf', '../a.b/plot.pdf'
    else:
        kw['filename'], kw['file_extension'], want = name, ext, name + ext
    with figs.record() as log:
        f(s if fn == 'set' else disc, sample_nos=NOS[nos], color=passed, save=save, interactive=inter, cbar_label='bar' if colour == 'array' else None, **kw)
    fg, names = shown(log, save, inter)
    idx = np.arange(7) if NOS[nos] is None else np.asarray(NOS[nos])
    n = 0
    for g in fg:
        n += check_scatter(g, s.get_values()[idx], None if col is None else np.asarray(col)[idx], ref, labels)
        if colour == 'array':
            require(len(g['bars']) == 1 and g['bars'][0]['ylabel'] == 'bar', 'colour bar label %s', [b['ylabel'] for b in g['bars']])
    require(names == [want] * int(save), 'saved as %s, asked for %s', names, want)
    return n


def rhod_case(src, flag, dim, showdim, dens, refk, nos, dims, lab, unit=1.0):
    import bet.sample as samp
    import bet.postProcess.plotDomains as pd
    inp, out = mk(dim, ref=refk == 'stored', unit=unit), mk(dim, shift=0.5, ref=refk == 'stored', unit=unit)
    disc = samp.discretization(inp, out)
    s = inp if flag == 'input' else out
    rho = (lambda x: x[:, 0] * 2 + x[:, 1]) if dens else None
    kw = {}
    ref = None
    if refk == 'arg':
        ref = REF[:dim] * unit
        kw['ref_sample'] = ref.copy()
    elif refk == 'stored':
        ref = s.get_reference_value()
    if dims:
        kw['dim_nums'] = list(dims)
    if lab:
        kw['label_char'] = r'$z_'
    with figs.record() as log:
        pd.scatter_rhoD(disc if src == 'disc' else s, sample_nos=NOS[nos], io_flag=flag, rho_D=rho, showdim=showdim, file_extension='.pdf', **kw)
    nums = list(dims) if dims else list(range(1, dim + 1))
    k = showdim if dim > 2 and showdim == 2 or dim > 3 and showdim == 3 else dim
    combos = list(itertools.combinations(nums, k)) if k < dim else [tuple(range(1, dim + 1))]
    if dim > 3 and showdim not in (2, 3):
        combos = []
    ch = r'$z_' if lab else {'input': r'$\lambda_', 'output': r'$q_'}[flag]
    require(len(log) == len(combos) and all(e[0] == 'save' for e in log), '%d figures saved for %d projections', len(log), len(combos))
    require(len(set(e[1] for e in log)) == len(log) and all(e[1].endswith('.pdf') for e in log), 'file names %s', [e[1] for e in log])
    idx = np.arange(7) if NOS[nos] is None else np.asarray(NOS[nos])
    col = None
    if dens and (src == 'disc' or flag == 'output'):
        col = rho(out.get_values() if src == 'disc' else s.get_values())[idx]
    n = 0
    for e, c in zip(log, combos):
        ax = [a - 1 for a in c]
        n += check_scatter(e[2], s.get_values()[idx][:, ax], col, None if ref is None else ref[ax], ['%s{%d}$' % (ch, a) for a in (nums if k == dim else c)])
        if k < dim:
            require('x'.join([''] + [str(a) for a in c]) in e[1], 'projection on %s saved as %s', c, e[1])
    return n


def multi_case(fn, dim, colour, refd, showdim, folder, scratch):
    import bet.sample as samp
    import bet.postProcess.plotDomains as pd
    inp, out = mk(dim), mk(dim, shift=0.5)
    disc = samp.discretization(inp, out)
    s = {'input': inp, 'output': out, 'set': inp}[fn]
    f = getattr(pd, 'scatter_2D_multi' + {'input': '_input', 'output': '_output', 'set': ''}[fn])
    arr = np.array([5.0, 3.0, 6.0, 1.0, 4.0, 2.0, 7.0])
    col = {'none': None, 'array': arr}.get(colour)
    passed = col
    if colour in NAMED:
        passed, col = ''.join(list(colour)), NAMED[colour](s)
    kw = {'ref_sample': REF[:dim].copy()} if refd else {}
    d = os.path.join(scratch, folder)
    with figs.record() as log:
        f(disc if fn != 'set' else s, color=passed, img_folder=d, filename='mine', showdim=showdim, file_extension='.pdf', **kw)
    sd = 0 if showdim is None else showdim
    prs = list(itertools.combinations(range(dim), 2)) if sd in ('all', 'ALL') else [(sd, i) for i in range(dim) if i != sd]
    byname = {}
    for e in log:
        require(e[0] == 'save' and e[1] not in byname, 'figure %s saved twice', e[1])
        byname[e[1]] = e[2]
    ch = r'$\lambda' if fn != 'output' else '$q'
    n = 0
    for a, b in prs:
        nm = os.path.join(d, 'mine_d%d_d%d.pdf' % (a + 1, b + 1))
        require(nm in byname, 'no figure %s among %s', nm, sorted(byname))
        n += check_scatter(byname.pop(nm), s.get_values()[:, [a, b]], col, REF[[a, b]] if refd else None, ['%s_{%d}$' % (ch, a + 1), '%s_{%d}$' % (ch, b + 1)])
    for nm in byname:      # the given coordinate against itself
        require(not isinstance(sd, str) and nm.endswith('mine_d%d_d%d.pdf' % (sd + 1, sd + 1)), 'unexpected figure %s', nm)
        check_scatter(byname[nm], s.get_values()[:, [sd, sd]], col, REF[[sd, sd]] if refd else None, None)
    return n


def inside(path, pt):
    from matplotlib.path import Path
    return Path(path[0], path[1]).contains_point(pt)


def domain_axes(ax, vals, tri, refs):
    paths = [p for c in ax['contours'] for p in c['paths']]
    require(paths, 'no region drawn')
    ok = set(rows(vals))
    for v, c in paths:
        for k, p in enumerate(v):
            require(sig(p) in ok or (c is not None and c[k] == 79), 'the region has the corner %s that is no datum', p)
    for t in tri:
        m = vals[t].mean(axis=0)
        require(any(inside(p, m) for p in paths), 'the cell of data %s is not part of the region', t)
    got = [r for p in ax['points'] for r in p['xy']]
    require(rows(got) == rows(refs), 'reference markers at %s, expected %s', got, refs)
    return len(tri) + len(refs)


def domain_case(fn, shape, refk, showdim, nums, mode, names, unit, scratch):
    import bet.sample as samp
    import bet.postProcess.plotDomains as pd
    from matplotlib import tri as T
    dim = 2 if fn == '2D' else 4
    inp = mk(2)
    A = np.array([[2.0, 1.0], [0.5, 3.0], [-1.0, 1.0], [3.0, -1.0]])[:dim] if shape == 'linear' else np.array([[1.0, 0.0], [0.0, -1.0], [2.0, 1.0], [1.0, 1.0]])[:dim]
    out = samp.sample_set(dim)
    y = inp.get_values() @ A.T + 0.25
    if unit == 'int':
        y = np.round(4 * y).astype(int)
    else:
        y = y * unit
    out.set_values(y)
    refs = {'none': np.zeros((0, dim)), 'one': out.get_values()[:1] + 0.5, 'three': out.get_values()[[4, 1, 2]] - 0.25, 'stored': out.get_values()[3:4] + 0.125, 'vector': out.get_values()[2:3] + 1,
            'seven': out.get_values()[[4, 1, 2, 0, 6, 5, 3]] - 0.5, 'many': np.vstack((out.get_values(), out.get_values()[::-1] + 0.75))[1:]}[refk]
    kw = {}
    if refk == 'stored':
        out.set_reference_value(refs[0].copy())
    elif refk == 'vector':
        kw['Q_ref'] = refs[0].copy()
    elif refk != 'none':
        kw['Q_ref'] = refs.copy()
    if refk == 'many':
        kw['ref_markers'], kw['ref_colors'] = list('o^v<>1234sp*h'), ['r', 'g', 'b', 'k', 'c', 'm', 'y'] * 2
    disc = samp.discretization(inp, out)
    tri = T.Triangulation(inp.get_values()[:, 0], inp.get_values()[:, 1]).triangles
    n = 0
    with figs.record() as log:
        if fn == '2D':
            save, inter = mode
            fl = {'default': None, 'given': ['first', 'second'], 'dotdir': ['../a.b/first', '../a.b/second'], 'ext': ['first.svg', 'second.eps']}[names]
            pd.show_data_domain_2D(disc, save=save, interactive=inter, filenames=fl, file_extension='.pdf', xlabel='data one', ylabel='$q$', **kw)
        else:
            d = os.path.join(scratch, names)
            pd.show_data_domain_multi(disc, Q_nums=nums, img_folder=d, showdim=showdim, file_extension='.pdf', **kw)
    none = np.zeros((0, 2))
    if fn == '2D':
        sv = [e for e in log if e[0] == 'save']
        want = [f if '.' in f[2:] and not f.startswith('..') else f + '.pdf' for f in (fl or ['domain_q1_q2_cs', 'q1_q2_domain_Q_cs'])]
        require([e[1] for e in sv] == (want if save else []), 'saved as %s, asked for %s', [e[1] for e in sv], want if save else [])
        figsets = [(e[2], none if k == 0 else refs) for k, e in enumerate(sv)]
        sh = [e for e in log if e[0] == 'show']
        require(len(sh) == int(inter), 'shown %d times', len(sh))
        for e in sh:
            require(len(e[2]) == 1, '%d windows shown', len(e[2]))
            figsets.append((e[2][0], refs))
        for f, r in figsets:
            require(len(f['axes']) == 1, 'number of axes')
            check_text(f)
            require((f['axes'][0]['xlabel'], f['axes'][0]['ylabel']) == ('data one', '$q$'), 'labels')
            n += domain_axes(f['axes'][0], out.get_values(), tri, r)
        return n + 1
    nn = list(range(dim)) if nums is None else list(nums)
    sd = 0 if showdim is None else showdim
    prs = list(itertools.combinations(nn, 2)) if isinstance(sd, str) else [(sd, i) for i in nn if i != sd]
    require(len(log) == 2 * len(prs) and all(e[0] == 'save' for e in log), '%d figures for %d pairs', len(log), len(prs))
    for k, (a, b) in enumerate(prs):
        q = 'q%d_q%d' % (a + 1, b + 1)
        for e, nm, r in ((log[2 * k], 'domain_' + q, none), (log[2 * k + 1], q + '_domain_Q_cs', refs[:, [a, b]])):
            require(os.path.normpath(e[1]) == os.path.normpath(os.path.join(d, nm + '.pdf')), 'saved as %s instead of %s in %s', e[1], nm, d)
            require(len(e[2]['axes']) == 1, 'number of axes')
            check_text(e[2])
            x = e[2]['axes'][0]
            require((x['xlabel'], x['ylabel']) == ('$q_{%d}$' % (a + 1), '$q_{%d}$' % (b + 1)), 'labels %s of pair %s', (x['xlabel'], x['ylabel']), (a, b))
            n += domain_axes(x, out.get_values()[:, [a, b]], tri, r)
    return n


# ---- marginals

def p_marginal(rank, fn, dim, nb, refk, lab, inter, src, keys, unit=1.0):
    import bet.sample as samp
    import bet.postProcess.plotP as pp
    s = mk(dim, ref=refk == 'stored', unit=unit)
    obj = s
    if src == 'disc':
        o = samp.sample_set(1)
        o.set_values(np.zeros((7, 1)))
        obj = samp.discretization(s, o)
    bins, m1 = pp.calculate_1D_marginal_probs(s, list(nb))
    if dim > 1:
        _, m2 = pp.calculate_2D_marginal_probs(s, list(nb))
    kw = {'filename': 'dir/name', 'file_extension': '.pdf', 'interactive': inter}
    ref = None
    if refk == 'arg':
        ref = REF[:dim] * unit
        kw['lam_ref'] = ref.copy()
    elif refk == 'stored':
        ref = (REF[:dim] + 0.5) * unit
    lb = ['par %d' % (d + 1) for d in range(dim)] if lab else [r'$\lambda_{%d}$' % (d + 1) for d in range(dim)]
    if lab:
        kw['lambda_label'] = list(lb)
    log = []
    m = m1 if fn == '1D' else m2
    if keys:
        m = {k: m[k] for k in list(m)[::2]}

    def call():
        if fn == '1D':
            pp.plot_1D_marginal_probs(m, bins, obj, **kw)
        elif fn == 'contour':
            if keys:
                kw['lam_refs'] = np.array([REF[:dim] + 1, REF[:dim] + 2]) * unit
                kw['plot_domain'] = DOM[:dim] * 0.5 * unit
                if refk != 'none':
                    kw['contour_num'] = {'arg': 25, 'stored': 2}[refk]
            pp.plot_2D_marginal_contours(m, bins, obj, **kw)
        else:
            pp.plot_2D_marginal_probs(m, bins, obj, plot_surface=fn == 'surface', **kw)
    if rank == 0:
        with figs.record() as log:
            call()
    else:
        call()
        return 0
    n = 0
    dens = sorted(m)
    saves = [e for e in log if e[0] == 'save']
    shows = [e for e in log if e[0] == 'show']
    per = 2 if fn == 'surface' else 1
    require(len(saves) == per * len(dens), '%d figures saved for %d marginals', len(saves), len(dens))
    require(len(shows) == (per * len(dens) if inter else 0), '%d figures shown for %d marginals', len(shows), len(dens))
    for e in shows:
        require(len(e[2]) == 1, '%d windows shown', len(e[2]))
    width = [b[1] - b[0] for b in bins]
    stem = {'1D': '_1D_', '2D': '_2D_', 'surface': '_2D_', 'contour': '_2D_contours_'}[fn]
    for k, key in enumerate(dens):
        fg = [saves[k]] + ([(None, saves[k][1], shows[k][2][0])] if inter else [])
        for _, nm, f in fg:
            require(nm == 'dir/name' + stem + ('%d' % key if fn == '1D' else '%d_%d' % key) + '.pdf', 'marginal %s saved as %s', key, nm)
            require(len(f['axes']) == 1, '%d sets of axes', len(f['axes']))
            check_text(f)
            ax = f['axes'][0]
            if fn == '1D':
                n += check_1d(ax, key, bins[key], m[key] / width[key], ref, lb, unit)
            elif fn == 'contour':
                n += check_contour(ax, key, bins, m[key] / (width[key[0]] * width[key[1]]), ref, lb, kw)
            else:
                n += check_image(ax, key, bins, m[key] / (width[key[0]] * width[key[1]]), ref, lb, unit)
        if fn == 'surface':
            e = saves[len(dens) + k]
            require(e[1] == 'dir/name_surf_%d_%d.pdf' % key, 'surface saved as %s', e[1])
            check_text(e[2])
            require(len(e[2]['axes']) == 1 and len(e[2]['axes'][0]['surfaces']) == (1 if min(m[key].shape) > 1 else len(e[2]['axes'][0]['surfaces'])), 'one surface')
            cx, cy = [0.5 * (bins[d][1:] + bins[d][:-1]) for d in key]
            grid = {(round(a, 9), round(b, 9)): m[key][i, j] for i, a in enumerate(cx) for j, b in enumerate(cy)}
            seen = set()
            for sf in e[2]['axes'][0]['surfaces']:
                for p in sf:
                    q = (round(p[0], 9), round(p[1], 9))
                    require(q in grid and abs(grid[q] - p[2]) < 1e-9, 'surface point %s', p)
                    seen.add(q)
            if min(m[key].shape) > 1:
                require(len(seen) == len(grid), 'surface covers %d of %d bins', len(seen), len(grid))
            n += len(seen)
    return n


def refs_of(ax):
    return [sig(r) for l in ax['lines'] if l['marker'] not in ('None', None, '') for r in l['xy']] + [sig(r) for p in ax['points'] for r in p['xy']]


def check_1d(ax, d, bins, dens, ref, lb, unit=1.0):
    cur = [l for l in ax['lines'] if l['marker'] in ('None', None, '')]
    require(len(cur) == 1, '%d curves', len(cur))
    xy = cur[0]['xy']
    want = np.column_stack((0.5 * (bins[1:] + bins[:-1]), dens))
    require_close(xy * [1 / unit, unit], want * [1 / unit, unit], 'curve of marginal %d' % d, 1e-9)
    mk_ = refs_of(ax)
    require([r[0] for r in mk_] == ([] if ref is None else [sig([ref[d]])[0]]), 'reference markers %s, expected %s', mk_, None if ref is None else ref[d])
    require(ax['xlabel'] == lb[d], 'label %s', ax['xlabel'])
    require(ax['ylim'][0] <= 0 and ax['ylim'][1] >= dens.max(), 'the curve leaves the axes')
    return len(xy)


def check_image(ax, key, bins, dens, ref, lb, unit=1.0):
    require(len(ax['images']) == 1, '%d images', len(ax['images']))
    im = ax['images'][0]
    x0, x1, y0, y1 = im['extent']
    z = im['data'] if im['origin'] == 'lower' else im['data'][::-1]
    require(z.shape == dens.T.shape, 'image of %s for bins %s', z.shape, dens.shape)
    require_close(z * unit ** 2, dens.T * unit ** 2, 'image of marginal %s' % (key,), 1e-12)
    require_close(np.array([x0, x1, y0, y1]), np.array([bins[key[0]][0], bins[key[0]][-1], bins[key[1]][0], bins[key[1]][-1]]), 'extent', 1e-12)
    require(im['clim'][0] <= 0 and im['clim'][1] >= dens.max() * (1 - 1e-12), 'colour range %s', im['clim'])
    want = [] if ref is None else [sig([ref[key[0]], ref[key[1]]])]
    require(refs_of(ax) == want, 'reference markers %s, expected %s', refs_of(ax), want)
    require((ax['xlabel'], ax['ylabel']) == (lb[key[0]], lb[key[1]]), 'labels %s of %s', (ax['xlabel'], ax['ylabel']), key)
    require_close(np.array(ax['xlim'] + ax['ylim']), np.array([x0, x1, y0, y1]), 'axes', 1e-12)
    return z.size


def check_contour(ax, key, bins, dens, ref, lb, kw):
    require(len(ax['contours']) == 1 and ax['contours'][0]['levels'] is not None, 'one set of contours')
    c = ax['contours'][0]
    cen = [0.5 * (bins[d][1:] + bins[d][:-1]) for d in key]
    lev = c['levels']
    require(lev.max() <= dens.max() * 2 + 1e-12 and lev.max() >= 0.5 * dens.max(), 'levels %s for densities up to %s', lev, dens.max())
    require(len(lev) == len(c['paths']), 'levels and contours')
    num = kw.get('contour_num', 8)
    if dens.max() > dens.min():
        require(num / 3.0 <= len(lev) <= num + 3, '%d contours where %d are asked for', len(lev), num)
    n = 0
    for L, (v, code) in zip(lev, c['paths']):
        inner = dens.min() + 1e-9 < L < dens.max() - 1e-9
        require((len(v) > 0) or not inner, 'no contour of level %g between %g and %g', L, dens.min(), dens.max())
        for k, p in enumerate(v):
            if code is not None and code[k] == 79:
                continue
            ij = []
            for a in range(2):
                t = (p[a] - cen[a][0]) / (cen[a][1] - cen[a][0])
                require(-1e-6 <= t <= len(cen[a]) - 1 + 1e-6, 'contour point %s outside of the bin centres', p)
                ij.append([min(max(i, 0), len(cen[a]) - 1) for i in (int(np.floor(t - 1e-6)), int(np.ceil(t + 1e-6)))])
            q = dens[np.ix_(range(ij[0][0], ij[0][1] + 1), range(ij[1][0], ij[1][1] + 1))]
            require(q.min() - 1e-9 <= L <= q.max() + 1e-9, 'contour of level %g passes %s where the density is between %g and %g', L, p, q.min(), q.max())
            n += 1
    want = [] if ref is None else [sig([ref[key[0]], ref[key[1]]])]
    if 'lam_refs' in kw:
        want = want + [sig(r[list(key)]) for r in kw['lam_refs']]
    require(sorted(refs_of(ax)) == sorted(want), 'reference markers %s, expected %s', refs_of(ax), want)
    require((ax['xlabel'], ax['ylabel']) == (lb[key[0]], lb[key[1]]), 'labels')
    pdm = kw.get('plot_domain', DOM)
    require_close(np.array(ax['xlim'] + ax['ylim']), np.concatenate((pdm[key[0]], pdm[key[1]])), 'axes', 1e-12)
    return n


def p_density(rank, kinds, i, interval, inits, labels, mode, src):
    """Curves of the marginal densities."""
    import bet.sample as samp
    import bet.postProcess.plotP as pp
    sets = []
    for k, (t, t0) in enumerate(kinds):
        s = mk(2, shift=0.25 * k)
        for nm, kd, loc in (('', t, 3.0 + k), ('_init', t0, 4.0 + 2 * k)):
            if kd:
                getattr(s, 'set_prob_type' + nm)(kd)
                getattr(s, 'set_prob_parameters' + nm)([['norm', {'loc': loc, 'scale': 2.0}], ['uniform', {'loc': loc, 'scale': 3.0}]] if kd == 'rv' else
                                                       ([np.array([loc, 1.0]), np.array([2.0, loc])], [np.eye(2) * 2, np.eye(2) * 0.5], [0.25, 0.75]))
        if labels in ('set', 'both'):
            s.set_labels(['first %d' % k, 'second %d' % k])
        sets.append(s)
    objs = sets
    if src == 'disc':
        objs = [samp.discretization(s, mk(2, shift=9.0)) for s in sets]
    elif src == 'out':
        objs = [samp.discretization(mk(2, shift=9.0), s) for s in sets]
    if labels == 'both':         # what is asked for goes before what the sets carry
        labels = 'given'
    kw = {'inputs': src != 'out', 'initials': inits, 'interactive': mode[1]}
    if mode[0]:
        kw['savefile'] = 'dens.png'
    if interval:
        kw.update(interval=[-2.0, 8.0], num_points=31)
    if labels == 'given':
        kw.update(label='the axis', sets_label=['u%d' % k for k in range(len(sets))], sets_label_initial=['v%d' % k for k in range(len(sets))], title='top')
    with figs.record() as log:
        pp.plot_1d_marginal_densities(tuple(objs) if len(objs) > 1 else objs[0], i, **kw)
    fg, names = shown(log, mode[0], mode[1])
    require(names == ['dens.png'] * int(mode[0]), 'saved as %s', names)
    n = 0
    lo, hi = min(s.get_values()[:, i].min() for s in sets), max(s.get_values()[:, i].max() for s in sets)
    for f in fg:
        require(len(f['axes']) == 1, 'number of axes')
        check_text(f)
        ax = f['axes'][0]
        want = []
        for k, s in enumerate(sets):
            if s.get_prob_type_init() is not None and inits:
                want.append((s.marginal_pdf_init, ({'given': 'v%d' % k}.get(labels, ('%s %d Initial' % (['first', 'second'][i], k)) if labels == 'set' else 'Set %d Initial' % k))))
            if s.get_prob_type() is not None:
                want.append((s.marginal_pdf, ({'given': 'u%d' % k}.get(labels, ('%s %d' % (['first', 'second'][i], k)) if labels == 'set' else 'Set %d Updated' % k))))
        require(len(ax['lines']) == len(want), '%d curves for %d densities', len(ax['lines']), len(want))
        for pdf, lb in want:
            l = [q for q in ax['lines'] if q['label'] == lb]
            require(len(l) == 1, 'curve "%s" among %s', lb, [q['label'] for q in ax['lines']])
            x = l[0]['xy'][:, 0]
            require_close(l[0]['xy'][:, 1], np.asarray(pdf(x, i), float).ravel(), 'curve ' + lb, 1e-12)
            if interval:
                require_close(x, np.linspace(-2, 8, 31), 'abscissae', 1e-12)
            else:
                require(x.min() <= lo and x.max() >= hi and np.all(np.diff(x) > 0), 'the curve covers %s..%s, values %s..%s', x.min(), x.max(), lo, hi)
            n += len(x)
        require(ax['xlabel'] == {'given': 'the axis', 'set': '%s 0' % ['first', 'second'][i]}.get(labels, 'Parameter %d' % i), 'label %s', ax['xlabel'])
        require(ax['title'] == ('top' if labels == 'given' else ''), 'title')
    return n + 1


# ---- Voronoi plots

VSETS = {'spread': PTS[:, :2], 'corner': np.array([[0.5, 0.5], [1.5, 0.25], [0.75, 1.75], [1.25, 1.5]]), 'three': np.array([[2.0, 3.0], [8.0, 4.0], [5.0, 9.0]]), 'sharp': np.array([[1.0, 6.0], [9.0, 7.0], [9.5, 5.5]]),
         'five': np.array([[5.0, 6.0], [1.0, 1.0], [9.0, 1.5], [8.5, 10.0], [1.5, 9.0]])}
VUNIT = {'plain': (1.0, 1.0), 'flat': (1.0, 2.0 ** -10), 'tall': (2.0 ** -12, 1.0), 'large': (2.0 ** 20, 2.0 ** 20), 'small': (2.0 ** -20, 2.0 ** -20), 'tiny': (2.0 ** -34, 2.0 ** -34), 'beyond': (1.0, 1.0, 16.0), 'below': (1.0, 1.0, -64.0)}


def p_voronoi(rank, dim, name, density, refk, lab, inter, src, un='plain'):
    import bet.sample as samp
    import bet.postProcess.plotVoronoi as pv
    from bet.Comm import comm
    vals = VSETS[name] if dim == 2 else np.array({'three': [4.0, -0.5, 9.0], 'spread': PTS[:, 0], 'one': [3.0], 'five': [7.0, 2.0, 10.5, 0.0, 3.25]}[name])[:, None]
    n = len(vals)
    U = np.array(VUNIT[un.split('-')[0]])[:dim]
    off = (VUNIT[un.split('-')[0]] + (0.0,))[2]
    vals, D, R = vals * U + off, DOM[:dim] * U[:, None] + off, REF[:dim] * U + off
    s = samp.voronoi_sample_set(dim)
    s.set_domain(D.copy())
    s.set_values(vals.copy())
    pr, vo = PR[:n] / PR[:n].sum(), VOL[:n] / VOL[:n].sum()
    if un.endswith('-few'):      # one cell holds almost everything
        vo = vo * np.where(np.arange(n) % 2, 2.0 ** -24, 1.0)
        pr = pr * np.where(np.arange(n) % 2, 2.0 ** -24, 1.0)
    if un.endswith('-less'):
        pr = pr * 2.0 ** -20
    s.set_volumes(vo.copy())
    if src == 'local':
        s.global_to_local()
        s.set_probabilities_local(np.array_split(pr, comm.size)[comm.rank])
    else:
        s.set_probabilities(pr.copy())
    obj = s
    if src == 'disc':
        o = samp.sample_set(1)
        o.set_values(np.zeros((n, 1)))
        obj = samp.discretization(s, o)
    kw = {'filename': 'dir/vor', 'file_extension': '.pdf', 'density': density, 'interactive': inter}
    ref = None
    if refk == 'stored':
        ref = R + 0.5 * U
        s.set_reference_value(ref.copy())
    elif refk in ('arg', 'zero'):
        ref = R if refk == 'arg' else 0.0 * R
        kw['lam_ref'] = ref.copy()
    lb = [r'$\lambda_1$', r'$\lambda_2$'] if dim == 2 else [r'$\lambda$']
    if lab:
        lb = ['par a', 'par b'][:dim]
        kw['lambda_label'] = list(lb)
    f = pv.plot_2D_voronoi if dim == 2 else pv.plot_1D_voronoi
    if rank:
        f(obj, **kw)
        return 0
    with figs.record() as log:
        f(obj, **kw)
    fg, names = shown(log, True, inter)
    require(names == ['dir/vor.pdf'], 'saved as %s', names)
    steps = 0
    for g in fg:
        check_text(g)
        require(len(g['axes']) == 1, '%d sets of axes', len(g['axes']))
        ax = g['axes'][0]
        require([ax['xlabel'], ax['ylabel']][:dim] == lb, 'labels %s', [ax['xlabel'], ax['ylabel']])
        rf = refs_of(ax)
        if dim == 1:
            require([sig(r)[0] for r in rf] == ([] if ref is None else [sig(ref)[0]]), 'reference %s', rf)
            o = np.argsort(vals[:, 0])
            mid = 0.5 * (vals[o][1:, 0] + vals[o][:-1, 0])
            e = np.concatenate(([D[0, 0]], mid, [D[0, 1]]))
            h = pr[o] / np.diff(e) if density else pr[o]
            got = sorted([sig(q) for q in ax['segments']])
            want = sorted([sig([e[k], h[k], e[k + 1], h[k]]) for k in range(n)])
            require(got == want, 'cells drawn %s, expected %s', got, want)
            steps += n
        else:
            require([sig(r) for r in rf] == ([] if ref is None else [sig(ref)]), 'reference %s', rf)
            import matplotlib
            P = pr / vo if density else pr
            cm = matplotlib.colormaps['BuGn']
            want = np.array([cm(v / P.max()) for v in P])
            require_close(np.array(ax['xlim'] + ax['ylim']), D.ravel(), 'axes', 1e-12 * max(1.0, np.abs(D).max()))
            if g['bars'] and g['bars'][0]['range']:
                require_close(np.array(g['bars'][0]['range']), np.array([0.0, P.max()]), 'range of the colour bar', 1e-12 * max(1.0, P.max()))
            from matplotlib.path import Path
            polys = [(Path(q['xy']), np.array(q['color'])) for q in ax['polygons']]
            for x in np.linspace(D[0, 0], D[0, 1], 17)[1:-1]:
                for y in np.linspace(D[1, 0], D[1, 1], 17)[1:-1]:
                    d = np.sort(np.hypot(*(vals - [x, y]).T))
                    if d[1] - d[0] < 0.005 * (np.abs(x - vals[:, 0]).max() + np.abs(y - vals[:, 1]).max()):
                        continue
                    i = int(np.argmin(np.hypot(*(vals - [x, y]).T)))
                    on = [c for p, c in polys if p.contains_point((x, y))]
                    require(on, 'the point (%g, %g) of cell %d is left blank', x, y, i)
                    require(all(np.allclose(c, want[i], atol=1e-6) for c in on), 'the point (%g, %g) of cell %d has the colour %s, expected %s', x, y, i, on, want[i])
                    steps += 1
    return steps


# ---- histories of calls

def calls(scratch):
    import bet.sample as samp
    import bet.postProcess.plotDomains as pd
    import bet.postProcess.plotP as pp
    import bet.postProcess.plotVoronoi as pv
    s, s3, s1 = mk(2, ref=True), mk(3), mk(1)
    d = samp.discretization(s, mk(2, shift=0.5))
    d4 = samp.discretization(mk(2), mk(3, shift=0.5))
    b, m = pp.calculate_1D_marginal_probs(s, [3, 4])
    _, m2 = pp.calculate_2D_marginal_probs(s, [3, 4])
    b3, m3 = pp.calculate_2D_marginal_probs(s3, [2, 3, 4])
    r = mk(2)
    r.set_prob_type('rv')
    r.set_prob_parameters([['norm', {'loc': 1.0}], ['norm', {'loc': 2.0}]])
    img = os.path.join(scratch, 'img')
    return {'scatter2': lambda: pd.scatter_2D(s), 'scatter2 shown': lambda: pd.scatter_2D(s, save=False, interactive=True), 'scatter3': lambda: pd.scatter_3D(s3), 'rhoD': lambda: pd.scatter_rhoD(s3, showdim=2), 'multi': lambda: pd.scatter_2D_multi(s3, img_folder=img, showdim='all'),
            'domain': lambda: pd.show_data_domain_2D(d), 'domain multi': lambda: pd.show_data_domain_multi(d4, img_folder=img), 'marginal1': lambda: pp.plot_1D_marginal_probs(m, b, s), 'marginal2': lambda: pp.plot_2D_marginal_probs(m2, b, s),
            'marginal3': lambda: pp.plot_2D_marginal_probs(m3, b3, s3), 'surface': lambda: pp.plot_2D_marginal_probs(m3, b3, s3, plot_surface=True), 'contours': lambda: pp.plot_2D_marginal_contours(m2, b, s), 'densities': lambda: pp.plot_1d_marginal_densities(r, 0, savefile='q.png', interactive=False),
            'densities shown': lambda: pp.plot_1d_marginal_densities([r, s], 1, savefile='q.png'), 'voronoi1': lambda: pv.plot_1D_voronoi(s1), 'voronoi2': lambda: pv.plot_2D_voronoi(s), 'marginal1 shown': lambda: pp.plot_1D_marginal_probs(m, b, s, interactive=True)}


def content(o):
    """What figures show, without layout."""
    if isinstance(o, dict):
        return {k: content(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [content(v) for v in o]
    if isinstance(o, np.ndarray):
        return [str(o.shape)] + [round(float(v), 9) for v in o.ravel()]
    if isinstance(o, float):
        return round(o, 9)
    return str(o)


def run_call(f):
    with figs.record(close=False) as log:
        f()
    return [content(e) for e in log]


ALONE = {}


def history_case(seq, user, scratch):
    import matplotlib
    import matplotlib.pyplot as plt
    c = calls(scratch)
    plt.close('all')
    matplotlib.rcdefaults()
    matplotlib.use('agg')
    if (seq[-1], scratch) not in ALONE:
        ALONE[seq[-1], scratch] = run_call(c[seq[-1]])
    alone = ALONE[seq[-1], scratch]
    plt.close('all')
    matplotlib.rcdefaults()
    matplotlib.use('agg')
    mine = None
    n = 0
    try:
        if user is not None:
            mine = plt.figure(None if user < 0 else user)
            mine.add_subplot(111).plot([1.0, 2.0, 3.0], [5.0, 4.0, 6.0], label='mine')
            before = content(figs.figure(mine))
        for k in seq[:-1]:
            run_call(c[k])
            n += 1
        matplotlib.rcdefaults()
        matplotlib.use('agg')
        got = run_call(c[seq[-1]])
        for e in got:
            if user is not None and e[0] == 'show' and any(f == before for f in e[2]):
                e[2].remove(before)      # the caller's own window is shown along
        require(len(got) == len(alone), '%d figures instead of %d', len(got), len(alone))
        for g, a in zip(got, alone):
            require(g[0] == a[0] and g[1] == a[1], 'figure %s instead of %s', g[:2], a[:2])
            if g[0] == 'show' and g != a:      # windows the earlier calls left for the viewer are shown along
                require(all(f in g[2] for f in a[2]), 'after %s the figures shown by %s differ from those without', list(seq[:-1]), seq[-1])
                continue
            require(g == a, 'after %s %s the figure %s of %s differs from the one without: %s', list(seq[:-1]), '' if user is None else 'and with a figure of the caller open', g[1], seq[-1], where(g[2], a[2]))
            n += 1
        if mine is not None:
            require(content(figs.figure(mine)) == before, 'the open figure of the caller was changed')
    finally:
        plt.close('all')
    return n


def where(a, b, path=''):
    if type(a) != type(b):
        return path
    if isinstance(a, dict):
        for k in a:
            if a[k] != b.get(k):
                return where(a[k], b.get(k), path + '.' + k)
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: %d/%d entries' % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, path + '[%d]' % k)
    return '%s: %s / %s' % (path, str(a)[:80], str(b)[:80])


SINGLE = {'scatter': scatter_case, 'rhoD': rhod_case, 'multi': multi_case, 'domain': domain_case, 'history': history_case}
SPMD = {'marginal': p_marginal, 'voronoi': p_voronoi, 'density': p_density}


def run_one(ctx, item):
    part, size, args = item

    def go():
        if part in SPMD:
            ctx.step(sum(run_ranks(size, SPMD[part], tuple(args)).values()))
        else:
            extra = (ctx.scratch,) if part in ('multi', 'domain', 'history') else ()
            ctx.step(int(SINGLE[part](*(tuple(args) + extra)) or 0) + 1)
    ctx.case(part, [size, list(args)], go)


def items(thorough):
    out = []
    MODES = [(True, False), (False, True), (True, True), (False, False)]
    for fn in ('set', 'input', 'output'):
        for dim in (2, 3):
            cols = ['none', 'array', 'column'] + (list(NAMED) if fn != 'set' else [])
            for col in cols:
                for nos in NOS:
                    for refk in ('none', 'arg', 'stored', 'both'):
                        for k, mode in enumerate(MODES):
                            exts = ('.png', 'named', 'dotdir', '.eps') if thorough or (nos == 'list' and refk == 'arg') else ('.png',)
                            if not thorough and k and not (nos in ('all', 'list') and refk in ('none', 'both')):
                                continue
                            for ext in exts:
                                out.append(('scatter', 1, (fn, dim, nos, col, refk, mode, ext)))
    for fn in ('set', 'input', 'output'):
        for dim in (2, 3):
            for col in ('const', 'int', 'tiny'):
                for nos in NOS:
                    out.append(('scatter', 1, (fn, dim, nos, col, 'none', (True, False), '.png')))
            for unit in (2.0 ** 20, 2.0 ** -20, -2.0 ** 14, 12.7):
                for nos in NOS:
                    for refk in ('none', 'arg', 'stored'):
                        out.append(('scatter', 1, (fn, dim, nos, 'array', refk, (True, False), '.png', unit)))
    for unit in (2.0 ** 20, 2.0 ** -20):
        for dim, showdim in ((2, None), (3, 2), (4, 3)):
            for refk in ('none', 'arg', 'stored'):
                out.append(('rhoD', 1, ('disc', 'input', dim, showdim, True, refk, 'all', None, False, unit)))
    for src in ('disc', 'set'):
        for flag in ('input', 'output'):
            for dim, showdim in ((2, None), (2, 2), (3, None), (3, 2), (3, 3), (4, 2), (4, 3), (4, None)):
                for dens in (False, True):
                    for refk in ('none', 'arg', 'stored'):
                        for nos in ('all', 'list'):
                            for dims in [None] + ([(2, 3), (1, 3)] if showdim == 2 and dim > 2 else []) + ([(1, 2, 4), (4, 2, 1)] if (dim, showdim) == (4, 3) else []):
                                for lab in (False, True):
                                    out.append(('rhoD', 1, (src, flag, dim, showdim, dens, refk, nos, dims, lab)))
    for fn in ('set', 'input', 'output'):
        for dim in (2, 3, 4):
            for col in ['none', 'array'] + (list(NAMED) if fn != 'set' else []):
                for refd in (False, True):
                    for showdim in [None, 'all', 'ALL'] + list(range(dim)):
                        for folder in ('figs', 'figs/', 'a.b/') if showdim is None else ('figs',):
                            out.append(('multi', 1, (fn, dim, col, refd, showdim, folder)))
    for shape in ('linear', 'flip'):
        for refk in ('none', 'one', 'three', 'stored', 'vector', 'seven', 'many'):
            for mode in MODES:
                for nm in ('default', 'given', 'dotdir', 'ext'):
                    out.append(('domain', 1, ('2D', shape, refk, None, None, mode, nm, 1.0)))
            for showdim in (None, 0, 1, 3, 'all', 'ALL'):
                for nums in (None, [0, 2], [3, 1, 2]):
                    for nm in ('figs', 'figs/', 'a.b/'):
                        out.append(('domain', 1, ('multi', shape, refk, showdim, nums, None, nm, 1.0)))
            for u in (2.0 ** 20, 2.0 ** -20, -1024.0, 'int'):
                out.append(('domain', 1, ('2D', shape, refk, None, None, (True, True), 'given', u)))
                out.append(('domain', 1, ('multi', shape, refk, 'all', None, None, 'figs', u)))
    sizes = (1, 2, 3) if thorough else (1, 2)
    for size in sizes:
        for fn in ('1D', '2D', 'contour', 'surface'):
            for dim in (1, 2, 3) if fn == '1D' else (2, 3):
                for nb in itertools.product((1, 3, 4) if fn in ('1D', '2D') else (2, 3, 5), repeat=dim):
                    if dim == 3 and not thorough and len(set(nb)) < 3:
                        continue
                    for refk in ('none', 'arg', 'stored'):
                        for lab in (False, True):
                            for inter in (False, True):
                                for src in ('set', 'disc'):
                                    for keys in (False, True):
                                        if not thorough and (size > 1) + (src == 'disc') + inter + keys > 1:
                                            continue
                                        if fn == 'contour' and dim == 2 and max(nb) < 3:
                                            continue
                                        out.append(('marginal', size, (fn, dim, nb, refk, lab, inter, src, keys)))
        for fn, dim, nb, unit in (('1D', 1, (70,), 1.0), ('1D', 1, (130,), 2.0 ** -10), ('1D', 2, (64, 3), 2.0 ** 20), ('1D', 2, (3, 65), 1.0), ('2D', 2, (3, 4), 2.0 ** -10), ('2D', 2, (3, 4), 2.0 ** -30), ('2D', 2, (3, 4), 2.0 ** 20), ('2D', 2, (35, 70), 1.0), ('2D', 3, (2, 40, 3), 2.0 ** -10)):
            for refk in ('none', 'arg', 'stored'):
                out.append(('marginal', size, (fn, dim, nb, refk, False, False, 'set', False, unit)))
        for dim, names in ((1, ('one', 'three', 'five', 'spread')), (2, sorted(VSETS))):
            for name in names:
                for density in (True, False):
                    for refk in ('none', 'arg', 'stored'):
                        for lab in (False, True):
                            for inter in (False, True):
                                for src in ('set', 'disc', 'local'):
                                    if not thorough and (size > 1) + (src == 'disc') + inter > 1:
                                        continue
                                    out.append(('voronoi', size, (dim, name, density, refk, lab, inter, src)))
                    if size == 1:
                        out.append(('voronoi', size, (dim, name, density, 'zero', False, False, 'set')))
                        for un in ('plain-few', 'plain-less', 'flat', 'tall', 'large', 'small', 'flat-few', 'beyond', 'below') + (('tiny',) if dim == 1 else ()):
                            out.append(('voronoi', size, (dim, name, density, 'arg', False, False, 'set', un)))
    for kinds in [(a,) for a in itertools.product((None, 'rv', 'gmm'), repeat=2)] + [(('rv', 'gmm'), ('gmm', None)), (('rv', None), (None, 'rv'), ('gmm', 'gmm'))]:
        for i in (0, 1):
            for interval in (False, True):
                for inits in (True, False):
                    for labels in ('none', 'given', 'set', 'both'):
                        for mode in MODES if labels != 'both' else ((True, False),):
                            for src in ('set', 'disc', 'out') if mode == (True, False) or thorough else ('set',):
                                out.append(('density', 1, (kinds, i, interval, inits, labels, mode, src)))
    names = list(CALLS)
    for a in names:
        for u in (None, 0, 1, 2, -1):
            out.append(('history', 1, ((a,), u)))
    for a in names:
        for b in names:
            for u in (None, 1) if not thorough else (None, 0, 1, 2, -1):
                out.append(('history', 1, ((a, b), u)))
    if thorough:
        for t in itertools.product(names, repeat=3):
            out.append(('history', 1, (t, None)))
    return out


CALLS = ('scatter2', 'scatter2 shown', 'scatter3', 'rhoD', 'multi', 'domain', 'domain multi', 'marginal1', 'marginal2', 'marginal3', 'surface', 'contours', 'densities', 'densities shown', 'voronoi1', 'voronoi2', 'marginal1 shown')


def run(ctx):
    import matplotlib
    matplotlib.use('agg')
    ctx.shards(items(ctx.thorough), run_one)
