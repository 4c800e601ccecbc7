"""Builders of small BET objects from plain descriptors (used by all checks)."""
import itertools

import numpy as np


def S():
    import bet.sample as samp
    return samp


def arr(x):
    return np.array(x, dtype=float)


# ---- partitions with m cells and representative points ---------------------------
# every representative point is strictly inside its cell (no ties), for every kind

KINDS1 = ('voronoi', 'rectangle', 'ball', 'cartesian')


def partition(kind, m, dim=1, p_norm=None):
    """A set with exactly m cells in the given dimension (cells numbered 0..m-1)."""
    samp = S()
    if kind == 'voronoi':
        s = samp.voronoi_sample_set(dim)
        v = np.zeros((m, dim))
        v[:, 0] = np.arange(m)
        s.set_domain(np.array([[-0.5, m - 0.5]] + [[-1.0, 1.0]] * (dim - 1)))
        s.set_values(v)
    elif kind == 'sample_set':
        s = samp.sample_set(dim)
        v = np.zeros((m, dim))
        v[:, 0] = np.arange(m)
        s.set_domain(np.array([[-0.5, m - 0.5]] + [[-1.0, 1.0]] * (dim - 1)))
        s.set_values(v)
    elif kind == 'rectangle':
        s = samp.rectangle_sample_set(dim)
        mins = [[2.0 * i] + [0.0] * (dim - 1) for i in range(m - 1)]
        maxes = [[2.0 * i + 1.0] + [1.0] * (dim - 1) for i in range(m - 1)]
        s.setup(maxes=maxes, mins=mins)
        s.set_domain(np.array([[-1.0, 2.0 * m]] + [[-1.0, 2.0]] * (dim - 1)))
    elif kind == 'ball':
        s = samp.ball_sample_set(dim)
        s.setup([[2.0 * i] + [0.0] * (dim - 1) for i in range(m - 1)], [0.75] * (m - 1))
        s.set_domain(np.array([[-1.0, 2.0 * m]] + [[-1.0, 1.0]] * (dim - 1)))
    elif kind == 'cartesian':
        s = samp.cartesian_sample_set(dim)
        s.setup([np.arange(m, dtype=float)] + [np.array([0.0, 1.0])] * (dim - 1))
        s.set_domain(np.array([[-1.0, float(m)]] + [[-1.0, 2.0]] * (dim - 1)))
    else:
        raise ValueError(kind)
    if p_norm is not None:
        s.set_p_norm(p_norm)
    return s


def rep(kind, m, cell, variant=0, dim=1):
    """variant-th representative point of a cell of partition(kind, m, dim)."""
    off = (0.125, -0.25, 0.3, -0.0625, 0.2)[variant % 5]
    last = cell == m - 1
    if kind in ('voronoi', 'sample_set'):
        return [cell + off] + [off / 2] * (dim - 1)
    if kind == 'rectangle':
        if last:
            return [2.0 * (variant % max(1, m)) + 1.5] + [0.5] * (dim - 1)
        return [2.0 * cell + 0.5 + off] + [0.5 + off] * (dim - 1)
    if kind == 'ball':
        if last:
            return [2.0 * (variant % max(1, m)) + 1.0] + [0.0] * (dim - 1)
        return [2.0 * cell + off] + [off / 2] * (dim - 1)
    if kind == 'cartesian':
        if last:
            return [-0.5 + off if variant % 2 else m - 0.5 + off / 2] + [0.5] * (dim - 1)
        return [cell + 0.5 + off] + [0.5 + off] * (dim - 1)
    raise ValueError(kind)


def points(kind, m, cells, dim=1):
    """Representative points for a list of cells; repeated cells use different variants."""
    seen = {}
    out = []
    for c in cells:
        v = seen.get(c, 0)
        seen[c] = v + 1
        out.append(rep(kind, m, c, v, dim))
    return np.array(out, dtype=float).reshape(len(cells), dim)


def line(n, dim=1, kind='sample_set'):
    """n Voronoi generators at 0..n-1 on the first axis, domain tight around them."""
    return partition(kind, n, dim)


def prob_vectors(m, full=True):
    """Small alphabet of probability vectors of length m (zeros and tiny masses included)."""
    out = []
    if m == 1:
        return [[1.0]]
    base = [1.0 / m] * m
    out.append(base)
    for i in range(m):
        e = [0.0] * m
        e[i] = 1.0
        out.append(e)
    w = [2.0 ** (i + 1) for i in range(m)]
    out.append([x / sum(w) for x in w])
    out.append([x / sum(w) for x in reversed(w)])
    if m >= 2:
        t = [1e-30] * m
        t[-1] = 1.0
        out.append(t)
    if m >= 3:
        z = [0.5, 0.0, 0.5] + [0.0] * (m - 3)
        out.append(z)
    return out if full else out[:1] + out[-3:]


def assignments(n, m):
    return itertools.product(range(m), repeat=n)


def concat_local(vals):
    """Concatenate per-rank local arrays in rank order."""
    vals = [np.asarray(v) for v in vals]
    return np.concatenate(vals, axis=0)


# ---- observable contents of objects --------------------------------------------------

GETTERS = ('values', 'values_local', 'volumes', 'volumes_local', 'probabilities', 'probabilities_local', 'densities', 'densities_local',
           'jacobians', 'jacobians_local', 'error_estimates', 'error_estimates_local', 'region', 'region_local', 'error_id', 'error_id_local',
           'domain', 'reference_value', 'p_norm', 'dim', 'label', 'labels', 'cluster_maps', 'weights', 'weights_init', 'prob_type', 'prob_type_init',
           'prob_parameters', 'prob_parameters_init')
ATTRS = ('_left', '_right', '_width', '_radii', '_normalized_radii', '_left_local', '_right_local', '_width_local', '_radii_local',
         '_normalized_radii_local', '_domain_original')


def freeze(x):
    """Deep, comparable copy of a piece of data (identity-free)."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('objarray', x.shape, [freeze(v) for v in x.ravel()])
        return ('array', x.shape, x.dtype.kind, x.tobytes() if x.dtype.kind != 'f' else np.where(x == x, x + 0.0, np.nan).astype(float).tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, dict):
        return ('dict', sorted(((repr(k), freeze(v)) for k, v in x.items()), key=lambda t: t[0]))
    if isinstance(x, (np.generic,)):
        return freeze(x.item())
    if isinstance(x, float):
        return ('f', repr(x))
    if x is None or isinstance(x, (int, str, bool)):
        return x
    if hasattr(x, 'dataset') and hasattr(x, 'covariance'):      # gaussian_kde
        return ('kde', freeze(np.asarray(x.dataset)), freeze(np.asarray(x.weights)), freeze(np.asarray(x.covariance)))
    if hasattr(x, '__dict__'):
        return (type(x).__name__, freeze(vars(x)))
    return repr(x)


def snap_set(s):
    """Observable contents of a sample set."""
    if s is None:
        return None
    d = {'class': type(s).__name__}
    for g in GETTERS:
        d[g] = freeze(getattr(s, 'get_' + g)())
    for at in ATTRS:
        d[at] = freeze(getattr(s, at, None))
    return d


DSETS = ('input_sample_set', 'output_sample_set', 'emulated_input_sample_set', 'emulated_output_sample_set', 'output_probability_set', 'output_observed_set')
DPTRS = ('io_ptr', 'emulated_ii_ptr', 'emulated_oo_ptr')


def snap_disc(d, ptrs=True):
    r = {k: snap_set(getattr(d, 'get_' + k)()) for k in DSETS}
    r['class'] = type(d).__name__
    if ptrs:
        for k in DPTRS:
            r[k] = freeze(getattr(d, 'get_' + k)())
            r[k + '_local'] = freeze(getattr(d, '_%s_local' % k, None))
    return r


def snap(o):
    return snap_disc(o) if hasattr(o, 'get_input_sample_set') else snap_set(o)


def diff(a, b, path=''):
    """Names of the items in which two snapshots differ."""
    if a is None or b is None:
        return [] if a is None and b is None else [path or 'presence']
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, dict) and isinstance(y, dict):
            out += diff(x, y, path + k + '.')
        elif x != y:
            out.append(path + k)
    return out


# ---- a zoo of objects covering every kind and optional item ------------------------------

OPT = ('volumes', 'probabilities', 'densities', 'jacobians', 'error_estimates', 'region', 'error_id')


def make_set(cls, n=4, dim=2, opt=(), ver=0, local=False):
    """A set of the given class with optional data; ``ver`` varies the numbers."""
    samp = S()
    base = np.array([[0.13, 0.71, 0.37], [0.83, 0.29, 0.61], [0.47, 0.11, 0.91], [0.59, 0.97, 0.19], [0.31, 0.43, 0.07], [0.73, 0.05, 0.53], [0.03, 0.67, 0.79]])
    if n > len(base) or dim > 3:
        i, j = np.arange(n)[:, None], np.arange(dim)[None, :]
        v = ((i + 1) * np.sqrt(np.array([2, 3, 5, 7, 11, 13, 17, 19]))[None, :dim] + 0.37 * j) % 1.0 + 0.01 * ver
    else:
        v = base[:n, :dim] + 0.01 * ver
    s = getattr(samp, cls)(dim)
    if cls == 'rectangle_sample_set':
        s.setup(maxes=[list(r + 0.04) for r in v[:n - 1]], mins=[list(r - 0.04) for r in v[:n - 1]])
    elif cls == 'ball_sample_set':
        s.setup([list(r) for r in v[:n - 1]], [0.03 + 0.01 * i for i in range(n - 1)])
    elif cls == 'cartesian_sample_set':
        s.setup([np.linspace(0.1 + 0.01 * ver, 0.9, n)] + [np.array([0.2, 0.8])] * (dim - 1))
    else:
        s.set_values(v)
    k = s.check_num()
    i = np.arange(k) + 1.0 + ver
    if 'nodomain' not in opt:
        s.set_domain(np.array([[0.0, 1.0], [-1.0, 2.0], [0.0, 4.0], [-3.0, 1.5], [0.0, 2.0], [-7.0, 9.0], [-0.5, 1.25], [0.0, 1.0]])[:dim])
    if 'volumes' in opt:
        s.set_volumes(i / i.sum())
    if 'probabilities' in opt:
        s.set_probabilities(i[::-1] / i.sum())
    if 'densities' in opt:
        s.set_densities(i * 0.5)
    if 'jacobians' in opt:
        s.set_jacobians(np.arange(k * 2 * dim, dtype=float).reshape(k, 2, dim) + ver)
    if 'error_estimates' in opt:
        s.set_error_estimates(0.1 * np.arange(k * dim).reshape(k, dim) + ver)
    if 'region' in opt:
        s.set_region((np.arange(k) * 2 + ver) % 3)
    if 'error_id' in opt:
        s.set_error_id(i * 0.25)
    if 'reference' in opt:
        s.set_reference_value(np.full(dim, 0.5 + ver))
    if 'p_norm' in opt:
        s.set_p_norm(1.0 if ver % 2 == 0 else np.inf)
    if 'weights' in opt:
        s.set_weights(i / 3)
        s.set_weights_init(i / 5)
    if 'labels' in opt:
        s.set_label('set%d' % ver)
        s.set_labels(['x%d_%d' % (j, ver) for j in range(dim)])
    if 'prob_rv' in opt:
        s.set_prob_type('rv')
        s.set_prob_parameters([['norm', {'loc': 0.5 + j, 'scale': 1.0 + ver}] for j in range(dim)])
        s.set_prob_type_init('rv')
        s.set_prob_parameters_init([['uniform', {'loc': 0.0, 'scale': 2.0 + ver}] for j in range(dim)])
    if 'prob_gmm' in opt:
        s.set_prob_type('gmm')
        s.set_prob_parameters(([np.arange(dim) + 0.5 + ver], [np.eye(dim) * (1.0 + ver)], [1.0]))
    if 'clusters' in opt:
        s.set_cluster_maps([np.arange(k) < k // 2, np.arange(k) >= k // 2])
    if 'kdtree' in opt and hasattr(s, 'set_kdtree') and cls not in ('rectangle_sample_set', 'ball_sample_set', 'cartesian_sample_set'):
        s.query(v[:2])
    if 'local' in opt or local:
        s.global_to_local()
    return s


SET_OPTS = OPT + ('nodomain', 'reference', 'p_norm', 'weights', 'labels', 'prob_rv', 'prob_gmm', 'clusters', 'kdtree', 'local')
CLASSES = ('sample_set', 'voronoi_sample_set', 'rectangle_sample_set', 'ball_sample_set', 'cartesian_sample_set')


def make_disc(present=(), ptrs=False, ver=0, n=4, opt=(), cls='sample_set', opkind='voronoi'):
    """A discretization holding the named optional component sets."""
    samp = S()
    inp = make_set(cls, n, 2, opt, ver)
    k = inp.check_num()
    out = make_set('sample_set', k, 2, ('nodomain',), ver + 1)
    kw = {}
    if 'emulated_input' in present:
        kw['emulated_input_sample_set'] = make_set('sample_set', 5, 2, (), ver + 2)
    if 'emulated_output' in present:
        kw['emulated_output_sample_set'] = make_set('sample_set', 5, 2, ('nodomain',), ver + 3)
    if 'output_probability' in present:
        ops = make_set('sample_set' if opkind == 'voronoi' else opkind + '_sample_set', 3, 2, ('probabilities',), ver + 4)
        kw['output_probability_set'] = ops
    if 'output_observed' in present:
        kw['output_observed_set'] = make_set('sample_set', 6, 2, ('weights',), ver + 5)
    d = samp.discretization(inp, out, **kw)
    if ptrs:
        if 'output_probability' in present:
            d.set_io_ptr()
            if 'emulated_output' in present:
                d.set_emulated_oo_ptr()
        if 'emulated_input' in present:
            d.set_emulated_ii_ptr()
    return d


DPRES = ('emulated_input', 'emulated_output', 'output_probability', 'output_observed')
