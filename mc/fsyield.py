"""
Scheduling points at file-system operations: every open, chunk written, close, read,
stat, listing, rename and removal of a file below a chosen root becomes a step of the
controlled scheduler (outside of a simulated rank nothing changes).  Writes reach the
file chunk by chunk, so that partially written files are visible to other ranks.
"""
import builtins
import contextlib
import io
import os

from mc.fakempi import current


class _Writer(object):
    def __init__(self, f, path, step):
        self._f, self._path, self._step = f, path, step

    def write(self, data):
        b = data if isinstance(data, str) else bytes(data)
        h = len(b) // 2
        for chunk in (b[:h], b[h:]):
            if chunk:
                self._step('write ' + self._path)
                self._f.write(chunk)
                self._f.flush()
        return len(b)

    def flush(self):
        self._f.flush()

    def close(self):
        if not self._f.closed:
            self._step('close ' + self._path)
            self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __del__(self):
        try:
            self._f.close()
        except Exception:
            pass


class _Reader(object):
    """Reads everything at the first read."""

    def __init__(self, f, path, step):
        self._f, self._path, self._step, self._b = f, path, step, None

    def _buf(self):
        if self._b is None:
            self._step('read ' + self._path)
            d = self._f.read()
            self._b = io.StringIO(d) if isinstance(d, str) else io.BytesIO(d)
        return self._b

    def read(self, *a):
        return self._buf().read(*a)

    def readline(self, *a):
        return self._buf().readline(*a)

    def readinto(self, b):
        return self._buf().readinto(b)

    def __iter__(self):
        return iter(self._buf())

    def close(self):
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)


@contextlib.contextmanager
def intercept(root):
    root = os.path.realpath(root)
    real_open = io.open
    names = ('stat', 'lstat', 'listdir', 'scandir', 'rename', 'replace', 'remove', 'unlink', 'access', 'mkdir', 'link')
    saved = {n: getattr(os, n) for n in names}
    realpath = os.path.realpath
    busy = [False]

    def inside(path):
        if not isinstance(path, (str, bytes, os.PathLike)):
            return False
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        return p == root or p.startswith(root + os.sep)

    def step(label):
        w, r = current()
        if w is not None:
            w.yield_point(r, label)

    def my_open(file, mode='r', *a, **k):
        w, r = current()
        if w is None or not inside(file):
            return real_open(file, mode, *a, **k)
        p = os.path.basename(os.fspath(file))
        step('open(%s) %s' % (mode, p))
        f = real_open(file, mode, *a, **k)
        return (_Reader if mode.startswith('r') and '+' not in mode else _Writer)(f, p, step)

    def wrap(name):
        fn = saved[name]

        def g(*a, **k):
            w, r = current()
            if w is not None and a and inside(a[0]):
                step('%s %s' % (name, os.path.basename(os.fspath(a[0]))))
            return fn(*a, **k)
        return g
    builtins.open = my_open
    io.open = my_open
    for n in names:
        setattr(os, n, wrap(n))
    try:
        yield
    finally:
        builtins.open = real_open
        io.open = real_open
        for n in names:
            setattr(os, n, saved[n])
