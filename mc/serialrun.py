"""
Runs the communicator operations and the program library in one process with a chosen
message passing layer and writes the results:  serialrun.py <none|fake|real> <slice> <of> <tier> <out>

none: importing mpi4py fails, as on a machine without it;  fake: the controlled world with
one rank;  real: the installed mpi4py.
"""
import os
import pickle
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


class Block(object):
    def find_spec(self, name, path=None, target=None):
        if name == 'mpi4py' or name.startswith('mpi4py.'):
            raise ImportError('No module named ' + name)
        return None


def payloads():
    import numpy as np
    return [3, -2.5, True, None, 'text', b'raw', (1, 2), [1, [2, 3]], {'a': [1.0]}, [], np.array(4.0), np.arange(3), np.arange(6.0).reshape(2, 3), np.zeros((0, 2)), np.array([True, False]), np.array([1 + 2j]),
            [np.arange(2), np.arange(3)], float('nan'), 10 ** 40, np.float64(0.1), np.int64(7), [4], [[5, 6]], np.array([[1, 2]])]


def numbers():
    import numpy as np
    return [0, 3, -2.5, True, 10 ** 30, np.float64(0.1), np.int64(-7), np.arange(3), np.array([[0.5, -1.0]]), np.zeros((0,)), float('inf')]


def comm_ops(C, M):
    """name -> result of every operation of the communicator."""
    import numpy as np
    r = {}

    def put(k, f):
        try:
            r[k] = f()
        except Exception as e:
            r[k] = ('error', type(e).__name__)
    put('size', lambda: (C.size, C.rank, C.Get_size(), C.Get_rank()))
    put('barrier', lambda: (C.barrier(), C.Barrier()))
    for i, p in enumerate(payloads()):
        put(('allgather', i), lambda: C.allgather(p))
        put(('gather', i), lambda: C.gather(p))
        put(('gather-root', i), lambda: C.gather(p, root=0))
        put(('bcast', i), lambda: C.bcast(p))
        put(('bcast-root', i), lambda: C.bcast(p, root=0))
        put(('scatter', i), lambda: C.scatter([p]))
        put(('scatter-tuple', i), lambda: C.scatter((p,), root=0))
    put('scatter-array', lambda: C.scatter(np.array([[1.0, 2.0]])))
    for i, p in enumerate(numbers()):
        for op in ('SUM', 'MAX'):
            put(('allreduce', i, op), lambda: C.allreduce(p, op=getattr(M, op)))
        put(('allreduce', i), lambda: C.allreduce(p))
    for ty, dt in (('DOUBLE', float), ('INT', np.int32), (None, float), (None, np.int64)):
        for shape in ((0,), (1,), (4,), (2, 3)):
            x = (np.arange(int(np.prod(shape))).reshape(shape) * 3 - 4).astype(dt)
            b = (lambda z: [z, getattr(M, ty)]) if ty else (lambda z: z)
            tb = (lambda z: (z, getattr(M, ty))) if ty else b
            for op in ('SUM', 'MAX'):
                def f():
                    y = np.full(shape, 9).astype(dt)
                    s = x.copy()
                    C.Allreduce(b(s), b(y), op=getattr(M, op))
                    return s, y
                put(('Allreduce', ty, np.dtype(dt).name, shape, op), f)

                def f2():
                    y = np.full(shape, 9).astype(dt)
                    C.Allreduce(tb(x.copy()), tb(y), op=getattr(M, op))
                    return y
                put(('Allreduce', ty, np.dtype(dt).name, shape, op, 'tuple'), f2)

            def g2():
                y = np.full((1,) + shape, 9).astype(dt)
                C.Allgather(tb(x.copy()), tb(y))
                return y

            def k2():
                y = np.full(shape, 9).astype(dt)
                C.Scatter(tb(x.copy()), b(y), root=0)
                return y
            put(('Allgather', ty, np.dtype(dt).name, shape, 'tuple'), g2)
            put(('Scatter', ty, np.dtype(dt).name, shape, 'tuple'), k2)

            def g():
                y = np.full((1,) + shape, 9).astype(dt)
                C.Allgather(b(x.copy()), b(y))
                return y

            def h():
                y = x.copy()
                C.Bcast(b(y), root=0)
                return y

            def k():
                y = np.full(shape, 9).astype(dt)
                C.Scatter(b(x.copy()), b(y), root=0)
                return y
            put(('Allgather', ty, np.dtype(dt).name, shape), g)

            def g3():        # buffers of another shape with the same number of entries
                y = np.full(shape, 9).astype(dt)
                C.Allgather(b(x.ravel()), b(y))
                return y

            def f3():
                y = np.full(shape[::-1], 9).astype(dt)
                C.Allreduce(b(x.copy()), b(y), op=M.SUM)
                return y
            put(('Allgather', ty, np.dtype(dt).name, shape, 'reshaped'), g3)
            put(('Allreduce', ty, np.dtype(dt).name, shape, 'reshaped'), f3)
            put(('Bcast', ty, np.dtype(dt).name, shape), h)
            put(('Scatter', ty, np.dtype(dt).name, shape), k)
    return r


def seeded_programs():
    """Randomised operations, deterministic for a fixed seed in one process."""
    import numpy as np
    from mc import spmd

    def volume(rank, n, dim):
        s = spmd.mk_set(n, dim)
        s.estimate_volume(500)
        return {'v': s.get_volumes()}

    def local_volume(rank, n, dim):
        s = spmd.mk_set(n, dim, 'voronoi_sample_set')
        s.estimate_local_volume(50)
        return {'v': s.get_volumes()}

    def radii(rank, n, dim, vol):
        s = spmd.mk_set(n, dim, 'voronoi_sample_set')
        if vol:
            s.estimate_radii_and_volume(500)
        else:
            s.estimate_radii(500)
        return {'r': s._normalized_radii, 'v': s.get_volumes()}

    def random(rank, n, dim, rv):
        import bet.sampling.basicSampling as bs
        s = bs.random_sample_set(rv, spmd.mk_set(1, dim), n)
        s.local_to_global()
        return {'x': s.get_values()}

    def lhs(rank, n, dim):
        import bet.sampling.basicSampling as bs
        s = bs.lhs_sample_set(spmd.mk_set(1, dim), n, criterion='center')
        s.local_to_global()
        return {'x': s.get_values()}

    def simple(rank, n, dim, which):
        import bet.calculateP.simpleFunP as sf
        d = spmd.mk_disc(n, dim, 'voronoi', 3, emu=0)
        ref = np.array([0.7, 0.1])
        if which == 0:
            s = sf.uniform_partition_uniform_distribution_rectangle_size(d, ref, rect_size=0.5, M=6, num_d_emulate=200)
        elif which == 1:
            s = sf.uniform_partition_uniform_distribution_rectangle_scaled(d, ref, rect_scale=0.4, M=6, num_d_emulate=200)
        elif which == 2:
            s = sf.normal_partition_normal_distribution(d, ref, std=[0.3, 0.2], M=5, num_d_emulate=200)
        else:
            s = sf.uniform_partition_normal_distribution(d, ref, std=[0.3, 0.2], M=5, num_d_emulate=200)
        return {'p': s.get_probabilities(), 'v': s.get_values()}

    def updated(rank, n, dim):
        from bet.sampling import basicSampling as bs
        import bet.sample as samp
        s = samp.sample_set(dim)
        s.set_prob_type('gmm')
        s.set_prob_parameters(([np.zeros(dim), np.ones(dim)], [np.eye(dim), 2 * np.eye(dim)], [0.3, 0.7]))
        s.set_values(spmd.pts(n, dim))
        d = samp.discretization(s, s.copy())
        f = getattr(bs, 'sample_from_updated', None)
        return {'x': f(d, n).get_values()} if f else {}

    def files(rank, n, dim, glob):
        import shutil
        import tempfile
        import bet.util as util
        t = tempfile.mkdtemp(prefix='verif_ser_')
        try:
            d = spmd.mk_disc(n, dim, 'voronoi', 3, emu=2)
            d.set_io_ptr()
            util.save_object(d, os.path.join(t, 'f'), globalize=glob)
            e = util.load_object(os.path.join(t, 'f'))
            g = util.load_object(os.path.join(t, 'f'), localize=True)
            return {'files': sorted(os.listdir(t)), 'v': e.get_input_sample_set().get_values(), 'l': g.get_input_sample_set().get_values_local(), 'io': e.get_io_ptr()}
        finally:
            shutil.rmtree(t)

    def gather(rank, n, dim, dt, shp):
        import bet.util as util
        x = np.arange(n * dim).reshape((n, dim)).astype(dt)
        y = util.get_global_values(x, shape=x.shape if shp else None)
        return {'y': y, 'd': str(y.dtype)}
    L = []
    for dim in (1, 2, 3):
        L += [('volume', volume, (dim,)), ('local_volume', local_volume, (dim,)), ('radii', radii, (dim, 0)), ('radii', radii, (dim, 1)), ('lhs', lhs, (dim,)), ('updated', updated, (dim,))]
        L += [('random', random, (dim, rv)) for rv in ('uniform', ['beta', {'a': 2.0, 'b': 3.0}], ['norm', {'loc': 1.0, 'scale': 2.0}])]
        L += [('simple', simple, (dim, w)) for w in range(4)]
        L += [('files', files, (dim, g)) for g in (True, False)]
        L += [('gather', gather, (dim, dt, sh)) for dt in ('int64', 'int32', 'float64', 'float32', 'bool') for sh in (0, 1)]
    return L


def table(tier):
    from mc import spmd
    out = []
    for name, fn, args, nmin in spmd.programs(tier == 'thorough'):
        for n in sorted({nmin, max(nmin, 5)} | ({2, 3, 8} if tier == 'thorough' else set())):
            if n >= nmin:
                out.append((name, fn, (n,) + tuple(args)))
    for name, fn, args in seeded_programs():
        for n in (1, 4) + ((2, 7) if tier == 'thorough' else ()):
            out.append(('seeded-' + name, fn, (n,) + tuple(args)))
    return out


def execute(entry):
    import random
    import numpy as np
    name, fn, args = entry
    np.random.seed(20)
    random.seed(20)
    try:
        return ('ok', fn(0, *args))
    except Exception as e:
        return ('error', type(e).__name__, str(e)[:300])


def main():
    env, k, of, tier, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    if env == 'none':
        sys.meta_path.insert(0, Block())
    elif env == 'fake':
        from mc import fakempi
        fakempi.install()
    sys.path.insert(0, os.environ.get('BET_REPO', '/repo'))
    import numpy as np
    np.seterr(all='ignore')
    import bet.Comm as BC
    res = {'env': (type(BC.comm).__module__, BC.size, BC.rank)}

    def body(rank=0):
        import io
        stdout, sys.stdout = sys.stdout, io.StringIO()
        try:
            if k == 0:
                res['comm'] = comm_ops(BC.comm, BC.MPI)
                res['class'] = comm_ops(BC.comm_for_no_mpi4py(), BC.MPI_for_no_mpi4py())
            res['programs'] = {repr((e[0],) + e[2]): execute(e) for e in table(tier)[k::of]}
        finally:
            sys.stdout = stdout
    if env == 'fake':
        fakempi.World(1).run(body).values()
    else:
        body()
    with open(out, 'wb') as f:
        pickle.dump(res, f)
    os._exit(0)      # no MPI shutdown


if __name__ == '__main__':
    main()
