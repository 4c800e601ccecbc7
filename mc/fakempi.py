"""
Controlled message-passing world for model checking the real BET code.

A stand-in for the ``mpi4py`` package is placed in ``sys.modules`` before BET is
imported, so BET's own ``from mpi4py import MPI`` picks it up: no change to /repo is
needed.  ``COMM_WORLD`` answers ``size``/``rank`` per *simulated rank*.  Each rank is a
thread, but only the rank holding the baton runs; the baton moves only at
communication calls and (optionally) at intercepted file-system operations, and which
rank gets it next is decided by an explicit schedule.  Thus every execution is
determined by (program, size, schedule) and all schedules can be enumerated.

Collectives follow MPI semantics: every rank of the world must call the same
collective with the same root / op; the k-th collective of each rank is matched with
the k-th of the others.  A mismatch, or a rank leaving while others wait, is reported
as a protocol error (what a real MPI program would show as deadlock or corruption).
Payloads are serialised (pickle) so ranks never share memory through messages.

The global NumPy random state is saved/restored per rank: separate processes have
separate generators.
"""
import ctypes
import os
import pickle
import sys
import threading
import types

import numpy as np


class ProtocolError(Exception):
    """Collective mismatch / deadlock detected by the controlled world."""


class _Abort(BaseException):
    """Unwinds a rank thread when the execution is torn down."""


class _Op(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'MPI.' + self.name

    def __call__(self, a, b):
        return self.fn(a, b)


class _Type(object):
    def __init__(self, name, np_type):
        self.name = name
        self.np = np.dtype(np_type) if np_type is not None else None

    def __repr__(self):
        return 'MPI.' + self.name

    def Get_size(self):
        return self.np.itemsize


SUM = _Op('SUM', lambda a, b: a + b)
PROD = _Op('PROD', lambda a, b: a * b)
MAX = _Op('MAX', lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = _Op('MIN', lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
LOR = _Op('LOR', lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray) else bool(a or b))
LAND = _Op('LAND', lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray) else bool(a and b))
BOR = _Op('BOR', lambda a, b: a | b)
BAND = _Op('BAND', lambda a, b: a & b)

INT = _Type('INT', np.intc)
DOUBLE = _Type('DOUBLE', np.float64)
FLOAT = _Type('FLOAT', np.float32)
BOOL = _Type('BOOL', np.bool_)
LONG = _Type('LONG', np.int64)
INT64_T = _Type('INT64_T', np.int64)
INT32_T = _Type('INT32_T', np.int32)
LONG_LONG = _Type('LONG_LONG', np.int64)
BYTE = _Type('BYTE', np.uint8)
C_BOOL = _Type('C_BOOL', np.bool_)

_NPTYPES = {np.dtype(np.float64): DOUBLE, np.dtype(np.float32): FLOAT,
            np.dtype(np.intc): INT, np.dtype(np.int64): LONG, np.dtype(np.bool_): BOOL}


_RNG_MEM = [None, None]


def _rng_fingerprint():
    """Position and first key words of NumPy's global generator, read in place."""
    bg = np.random.mtrand._rand._bit_generator
    if _RNG_MEM[0] is not bg:
        _RNG_MEM[0] = bg
        _RNG_MEM[1] = (ctypes.c_uint32 * 625).from_address(bg.ctypes.state_address)
    m = _RNG_MEM[1]
    return (m[624], m[0], m[300])


class _Worker(threading.Thread):
    """Reusable thread executing rank programs (one at a time)."""

    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.go = threading.Lock()
        self.go.acquire()
        self.job = None
        self.start()

    def run(self):
        while True:
            self.go.acquire()
            job = self.job
            self.job = None
            job()


_POOL = []
_POOL_PID = [None]


def _get_worker():
    if _POOL_PID[0] != os.getpid():      # threads do not survive fork
        del _POOL[:]
        _POOL_PID[0] = os.getpid()
    return _POOL.pop() if _POOL else _Worker()


class World(object):
    """One execution of ``size`` ranks."""

    def __init__(self, size, schedule=None, max_steps=200000):
        self.size = size
        self.choices = list(schedule or [])   # prescribed rank choices
        self.trace = []                        # (enabled ranks, chosen, labels)
        self.max_steps = max_steps
        self.locks = []
        self.final = threading.Lock()
        self.final.acquire()
        self.state = ['ready'] * size          # ready | wait | done
        self.pending = [None] * size           # collective call of each waiting rank
        self.reply = [None] * size
        self.labels = ['start'] * size
        self.rng = [None] * size
        self.outcome = [None] * size
        self.error = None
        self.aborting = False
        self.ncoll = 0
        self.nsteps = 0
        self.coll_log = []
        self.last = None
        self.reduce = False
        self.at_yield = [False] * size

    # ---- scheduling: only the baton holder executes these -------------------
    def _pick(self):
        """Choose the next rank; returns it, or None when the run is over."""
        en = [r for r in range(self.size) if self.state[r] == 'ready']
        if not en:
            if all(s == 'done' for s in self.state):
                return None
            waiting = [r for r in range(self.size) if self.state[r] == 'wait']
            self._abort(ProtocolError('deadlock: rank(s) %s wait in %s while rank(s) %s left' % (
                waiting, sorted(set(self.pending[r][0] for r in waiting)),
                [r for r in range(self.size) if self.state[r] == 'done'])))
            return self._pick_abort()
        self.nsteps += 1
        if self.nsteps > self.max_steps:
            self._abort(ProtocolError('step bound exceeded'))
            return self._pick_abort()
        if self.reduce:
            # partial-order reduction: a rank that is not about to perform a file operation
            # only touches its own state until its next scheduling point, which commutes
            # with every step of the other ranks - run it first, no branching
            loc = [r for r in en if not self.at_yield[r]]
            if loc:
                self.last = loc[0]
                return loc[0]
        k = len(self.trace)
        if len(en) == 1:
            r = en[0]
        elif k < len(self.choices) and self.choices[k] in en:
            r = self.choices[k]
        elif k < len(self.choices):
            r = en[0]
        else:
            # default: keep the running rank if possible (fewest preemptions)
            r = self.last if self.last in en else en[0]
        self.trace.append((tuple(en), r, tuple(self.labels)))
        self.last = r
        return r

    def _pick_abort(self):
        for r in range(self.size):
            if self.state[r] != 'done':
                return r
        return None

    def _abort(self, err):
        if self.error is None:
            self.error = err
        self.aborting = True

    def _switch(self, rank):
        """Hand the baton on from a live rank and wait until it comes back."""
        nxt = self._pick_abort() if self.aborting else self._pick()
        if nxt != rank:
            self._save_rng(rank)
            self.locks[nxt].release()
            self.locks[rank].acquire()
            self._load_rng(rank)
        if self.aborting:
            raise _Abort()

    def _save_rng(self, rank):
        # cheap test first: nothing drew random numbers so far -> all ranks still share
        # the initial state and nothing needs saving
        if not self.rng_used and _rng_fingerprint() != self.rng_fp:
            self.rng_used = True
        if self.rng_used:
            self.rng[rank] = np.random.get_state()

    def _load_rng(self, rank):
        if self.rng_used:
            np.random.set_state(self.rng[rank])

    def yield_point(self, rank, label):
        """A scheduling point inside rank code (file operation)."""
        if self.aborting:
            raise _Abort()
        self.labels[rank] = label
        self.at_yield[rank] = True
        self._switch(rank)
        self.at_yield[rank] = False

    # ---- collectives ------------------------------------------------------
    def collective(self, rank, name, key, payload):
        if self.aborting:
            raise _Abort()
        self.pending[rank] = (name, key, payload)
        self.state[rank] = 'wait'
        self.labels[rank] = name
        if all(s == 'wait' for s in self.state):
            self._complete()
        self._switch(rank)
        rep = self.reply[rank]
        self.reply[rank] = None
        return rep

    def _complete(self):
        names = [p[0] for p in self.pending]
        keys = [p[1] for p in self.pending]
        if len(set(names)) != 1 or len(set(keys)) != 1:
            self._abort(ProtocolError('collective mismatch: %s' % (
                ['rank %d: %s%s' % (i, p[0], p[1]) for i, p in enumerate(self.pending)])))
            return
        payloads = [p[2] for p in self.pending]
        self.ncoll += 1
        self.coll_log.append(names[0])
        try:
            self.reply = _COMPLETE[names[0]](keys[0], payloads, self.size)
        except ProtocolError as e:
            self._abort(e)
            return
        except Exception as e:
            self._abort(ProtocolError('%s failed: %s: %s' % (names[0], type(e).__name__, e)))
            return
        self.pending = [None] * self.size
        self.state = ['ready'] * self.size

    # ---- execution --------------------------------------------------------
    def run(self, fn, args=(), rank_seed=None, timeout=300.0):
        """Run fn(rank, *args) on every rank; returns self."""
        st0 = np.random.get_state()
        if st0[3]:
            np.random.seed(0)
            st0 = np.random.get_state()
        for r in range(self.size):
            if rank_seed is not None:
                np.random.seed(rank_seed(r) % (2 ** 32))
                self.rng[r] = np.random.get_state()
            else:
                self.rng[r] = st0
        self.rng_used = rank_seed is not None
        self.rng_fp = _rng_fingerprint()
        self.locks = [threading.Lock() for _ in range(self.size)]
        for lk in self.locks:
            lk.acquire()
        workers = [_get_worker() for _ in range(self.size)]

        def body(rank):
            self.locks[rank].acquire()
            _TLS.world, _TLS.rank = self, rank
            try:
                if self.aborting:
                    raise _Abort()
                self._load_rng(rank)
                out = ('ok', fn(rank, *args))
            except _Abort:
                out = ('aborted', None)
            except BaseException as e:  # noqa
                out = ('exc', e)
            _TLS.world, _TLS.rank = None, 0
            self.outcome[rank] = out
            self.state[rank] = 'done'
            self.labels[rank] = 'done'
            self._save_rng(rank)
            nxt = self._pick_abort() if self.aborting else self._pick()
            _POOL.append(workers[rank])
            if nxt is None:
                self.final.release()
            else:
                self.locks[nxt].release()

        for r in range(self.size):
            workers[r].job = (lambda r=r: body(r))
            workers[r].go.release()
        self.locks[self._pick()].release()
        if not self.final.acquire(timeout=timeout):
            raise ProtocolError('ranks did not finish within %g s' % timeout)
        if self.rng_used:
            np.random.set_state(st0)
        return self

    # ---- result helpers ---------------------------------------------------
    def values(self):
        """All per-rank results; raises if the execution was not clean."""
        excs = [o[1] for o in self.outcome if o is not None and o[0] == 'exc']
        if len(excs) == self.size:
            raise excs[0]
        if self.error is not None:
            if excs:
                raise ProtocolError('%s; exceptions: %r' % (self.error, excs))
            raise self.error
        if excs:
            raise ProtocolError('only some ranks raised: %r' % ([o if o and o[0] == 'exc' else 'ok' for o in self.outcome],))
        return [o[1] for o in self.outcome]


def _cp(x):
    if x is None or isinstance(x, (int, float, str, np.generic)):
        return x
    if type(x) is np.ndarray and x.dtype != object:
        return x.copy()
    return pickle.loads(pickle.dumps(x, protocol=4))


def _reduce(vals, op):
    acc = vals[0]
    for v in vals[1:]:
        acc = op(acc, v)
    return acc


def _buf(spec):
    """Decode an mpi4py buffer specification -> (ndarray, declared type)."""
    if isinstance(spec, (list, tuple)):
        arr = spec[0]
        typ = spec[-1] if len(spec) > 1 and not isinstance(spec[-1], (int, np.integer)) else None
    else:
        arr, typ = spec, None
    if not isinstance(arr, np.ndarray):
        raise TypeError('expecting a buffer object, got %r' % type(arr))
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise ValueError('buffer is not contiguous')
    if isinstance(typ, type) or isinstance(typ, str):
        raise TypeError('not an MPI datatype: %r' % (typ,))
    if typ is None:
        typ = _NPTYPES.get(arr.dtype)
        if typ is None:
            raise KeyError(arr.dtype)
    return arr, typ


def _as_type(arr, typ):
    """Raw view of the buffer memory as the declared MPI type (what MPI really does)."""
    flat = arr.ravel(order='K')
    raw = np.frombuffer(flat.tobytes(), dtype=np.uint8)
    n = raw.size // typ.np.itemsize * typ.np.itemsize
    return np.frombuffer(raw[:n].tobytes(), dtype=typ.np).copy()


def _write(arr, data):
    raw = np.frombuffer(data.tobytes(), dtype=np.uint8)
    out = arr.ravel(order='K')
    mem = np.frombuffer(out.tobytes(), dtype=np.uint8).copy()
    if raw.size > mem.size:
        raise ProtocolError('receive buffer too small (message truncated)')
    mem[:raw.size] = raw
    new = np.frombuffer(mem.tobytes(), dtype=arr.dtype)
    arr[...] = new.reshape(arr.shape, order='F' if (arr.flags.f_contiguous and not arr.flags.c_contiguous) else 'C')


def _c_barrier(key, p, n):
    return [None] * n


def _c_allgather(key, p, n):
    return [[_cp(x) for x in p] for _ in range(n)]


def _c_gather(key, p, n):
    root = key[0]
    return [[_cp(x) for x in p] if r == root else None for r in range(n)]


def _c_allreduce(key, p, n):
    op = p[0][1]
    vals = [_cp(x[0]) for x in p]
    out = []
    for _ in range(n):
        out.append(_cp(_reduce([_cp(v) for v in vals], op)))
    return out


def _c_reduce(key, p, n):
    root = key[0]
    op = p[0][1]
    return [_cp(_reduce([_cp(x[0]) for x in p], op)) if r == root else None for r in range(n)]


def _c_bcast(key, p, n):
    root = key[0]
    return [_cp(p[root]) for _ in range(n)]


def _c_scatter(key, p, n):
    root = key[0]
    items = p[root]
    if items is None or len(items) != n:
        raise ProtocolError('scatter: expecting %d items at root, got %r' % (n, None if items is None else len(items)))
    return [_cp(x) for x in items]


def _c_Allreduce(key, p, n):
    op = p[0][1]
    vals = [x[0] for x in p]
    if len(set(v.size for v in vals)) != 1:
        raise ProtocolError('Allreduce: ranks contribute different counts %s' % [v.size for v in vals])
    res = _reduce([v.copy() for v in vals], op)
    return [np.asarray(res).astype(vals[0].dtype).copy() for _ in range(n)]


def _c_Allgather(key, p, n):
    if len(set(v.size for v in p)) != 1:
        raise ProtocolError('Allgather: ranks contribute different counts %s' % [v.size for v in p])
    res = np.concatenate([v for v in p])
    return [res.copy() for _ in range(n)]


def _c_Bcast(key, p, n):
    root = key[0]
    if len(set(v.size for v in p)) != 1:
        raise ProtocolError('Bcast: ranks give different counts %s' % [v.size for v in p])
    return [p[root].copy() for _ in range(n)]


def _c_Scatter(key, p, n):
    root = key[0]
    data = p[root]
    k = data.size // n
    return [data[r * k:(r + 1) * k].copy() for r in range(n)]


_COMPLETE = {'Barrier': _c_barrier, 'allgather': _c_allgather, 'gather': _c_gather,
             'allreduce': _c_allreduce, 'reduce': _c_reduce, 'bcast': _c_bcast,
             'scatter': _c_scatter, 'Allreduce': _c_Allreduce, 'Allgather': _c_Allgather,
             'Bcast': _c_Bcast, 'Scatter': _c_Scatter}


class _TLSType(threading.local):
    world = None
    rank = 0


_TLS = _TLSType()


def current():
    return _TLS.world, _TLS.rank


class Comm(object):
    """``COMM_WORLD`` of the controlled world (size 1 outside of any World)."""

    @property
    def size(self):
        w = _TLS.world
        return w.size if w is not None else 1

    @property
    def rank(self):
        return _TLS.rank if _TLS.world is not None else 0

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def _coll(self, name, key, payload):
        w = _TLS.world
        if w is None:
            return _COMPLETE[name](key, [payload], 1)[0]
        return w.collective(_TLS.rank, name, key, payload)

    # lower case: pickled objects
    def barrier(self):
        return self._coll('Barrier', (), None)

    Barrier = barrier

    def allgather(self, sendobj):
        return self._coll('allgather', (), _cp(sendobj))

    def gather(self, sendobj, root=0):
        return self._coll('gather', (root,), _cp(sendobj))

    def allreduce(self, sendobj, op=SUM):
        self._op(op)
        return self._coll('allreduce', (op.name,), (_cp(sendobj), op))

    def reduce(self, sendobj, op=SUM, root=0):
        self._op(op)
        return self._coll('reduce', (root, op.name), (_cp(sendobj), op))

    def bcast(self, obj, root=0):
        return self._coll('bcast', (root,), _cp(obj) if self.rank == root else None)

    def scatter(self, sendobj, root=0):
        return self._coll('scatter', (root,), _cp(sendobj) if self.rank == root else None)

    @staticmethod
    def _op(op):
        if not isinstance(op, _Op):
            raise TypeError('not an MPI operation: %r' % (op,))

    # upper case: buffers
    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        self._op(op)
        s, st = _buf(sendbuf)
        r, rt = _buf(recvbuf)
        res = self._coll('Allreduce', (op.name, st.name), (_as_type(s, st), op))
        _write(r, res)

    def Allgather(self, sendbuf, recvbuf):
        s, st = _buf(sendbuf)
        r, rt = _buf(recvbuf)
        res = self._coll('Allgather', (st.name,), _as_type(s, st))
        _write(r, res)

    def Bcast(self, buf, root=0):
        b, bt = _buf(buf)
        res = self._coll('Bcast', (root, bt.name), _as_type(b, bt))
        if self.rank != root:
            _write(b, res)

    def Scatter(self, sendbuf, recvbuf, root=0):
        r, rt = _buf(recvbuf)
        data = None
        if self.rank == root:
            s, st = _buf(sendbuf)
            data = _as_type(s, st)
        res = self._coll('Scatter', (root, rt.name), data)
        _write(r, res)

    def Abort(self, errorcode=1):
        raise RuntimeError('MPI_Abort(%d)' % errorcode)


COMM_WORLD = Comm()


def install():
    """Install the stand-in ``mpi4py`` (must precede the import of BET)."""
    if 'mpi4py' in sys.modules and getattr(sys.modules['mpi4py'], '__verif__', False):
        return
    if any(m == 'bet' or m.startswith('bet.') for m in sys.modules):
        raise RuntimeError('install() must run before BET is imported')
    pkg = types.ModuleType('mpi4py')
    mpi = types.ModuleType('mpi4py.MPI')
    for name, val in list(globals().items()):
        if isinstance(val, (_Op, _Type)):
            setattr(mpi, name, val)
    mpi.COMM_WORLD = COMM_WORLD
    mpi.COMM_SELF = COMM_WORLD
    mpi.Comm = Comm
    mpi.Op = _Op
    mpi.Datatype = _Type
    pkg.MPI = mpi
    pkg.__verif__ = True
    pkg.__path__ = []
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mpi


def run_ranks(size, fn, args=(), schedule=None, rank_seed=None, timeout=300.0):
    return World(size, schedule).run(fn, args, rank_seed=rank_seed, timeout=timeout)


def explore_schedules(size, fn, args=(), max_preemptions=None, limit=None, before=None, reduce=False):
    """
    Stateless depth-first enumeration of all schedules of ``fn`` (rank programs with
    yield points).  ``max_preemptions`` bounds switches away from an enabled rank.
    Yields (schedule, world).
    """
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        if before is not None:
            before()
        w = World(size, prefix)
        w.reduce = reduce
        w.run(fn, args)
        n += 1
        yield [t[1] for t in w.trace], w
        if limit is not None and n >= limit:
            return
        # branch on every choice point at or after the end of the prefix
        tr = w.trace
        pre = 0
        counts = []
        for k in range(len(tr)):
            counts.append(pre)
            prev = tr[k - 1][1] if k else None
            if prev is not None and prev in tr[k][0] and tr[k][1] != prev:
                pre += 1
        for k in range(len(tr) - 1, len(prefix) - 1, -1):
            en, chosen, _ = tr[k]
            if len(en) < 2:
                continue
            prev = tr[k - 1][1] if k else None
            for r in en:
                if r == chosen:
                    continue
                cost = 1 if (prev is not None and prev in en and r != prev) else 0
                if max_preemptions is not None and counts[k] + cost > max_preemptions:
                    continue
                stack.append(tuple(t[1] for t in tr[:k]) + (r,))
