"""
Explorer core shared by all checks: case execution, counting of states and
transitions, violation reporting with replayable artefacts, known findings, evidence.
"""
import hashlib
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BET_REPO', '/repo')


class Violation(AssertionError):
    """Raised by an oracle when the property is broken on the current case."""


class Stop(Exception):
    """Enough violations collected."""


class CaseTimeout(BaseException):
    pass


def boot():
    """Install the controlled MPI world and import BET from /repo's working tree."""
    import logging
    import warnings
    try:      # runaway allocations of changed code become a MemoryError of the case
        import resource
        lim = 8 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from mc import fakempi
    fakempi.install()
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import bet
    got = os.path.realpath(bet.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('imported BET from %s, not from %s' % (got, REPO))
    import bet.sample  # noqa
    import bet.util  # noqa
    return bet


def jsonable(x, depth=0):
    import numpy as np
    from fractions import Fraction
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def digest(obj):
    return hashlib.sha1(json.dumps(jsonable(obj), sort_keys=True).encode()).hexdigest()


def _alarm(signum, frame):
    raise CaseTimeout()


class Ctx(object):
    """One run of one check."""

    def __init__(self, prop, tier, seed, replay=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.replay = replay           # descriptor (json) of the single case to run
        self.t0 = time.time()
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.by_part = {}
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.notes = {}
        self.assumptions = []
        self.max_viol = int(os.environ.get('VERIF_MAXVIOL', '3'))
        self.case_timeout = 60
        self._scratch = None
        self.known = load_known(prop)

    # -- exploration accounting ------------------------------------------------
    def state(self, desc):
        """Register an explored state (canonical descriptor); True if new."""
        h = desc if isinstance(desc, str) and len(desc) == 40 else digest(desc)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='verif_mc_')
        return self._scratch

    def cleanup(self):
        if self._scratch and self._scratch.startswith(tempfile.gettempdir() + os.sep + 'verif_mc_'):
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    # -- cases -----------------------------------------------------------------
    def case(self, part, desc, fn, key=None):
        """
        Explore one case: run fn() on the real code; any Violation or unexpected
        exception breaks the property.  ``desc`` is the replayable descriptor.
        ``key`` identifies the history for the known-findings file.
        """
        desc = jsonable(desc)
        if self.replay is not None:
            if self.replay.get('part') != part or self.replay.get('case') != desc:
                return
        self.executions += 1
        d = self.by_part.setdefault(part, [0, 0])
        d[0] += 1
        if self.state([part, desc]):
            d[1] += 1
        if d[0] in (1, 7):
            self.samples.append({'part': part, 'case': desc})
        old = None
        use_alarm = (self.case_timeout and hasattr(signal, 'setitimer'))
        err = None
        try:
            if use_alarm:
                old = signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, self.case_timeout)
            try:
                fn()
            finally:
                if use_alarm:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    signal.signal(signal.SIGALRM, old)
        except Violation as e:
            err = ('oracle', str(e), None)
        except CaseTimeout:
            err = ('timeout', 'case did not finish within %d s' % self.case_timeout, None)
        except Exception as e:
            err = ('exception', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
        if err is not None:
            self._report(part, desc, err, key)

    def _report(self, part, desc, err, key):
        kind, msg, tb = err
        if key is not None:
            for k in self.known:
                if k['key'] == key:
                    if key not in self.known_hit:
                        self.known_hit.append(key)
                    return
        self.violations.append({'part': part, 'case': desc, 'kind': kind, 'message': msg, 'traceback': tb, 'key': key})
        if len(self.violations) >= self.max_viol:
            raise Stop()

    # -- sharding --------------------------------------------------------------
    def shards(self, items, fn, jobs=None):
        """
        Run fn(ctx, item) for all items, sharded over forked workers.  Counters, state
        hashes and violations are merged.  Items are handed out in order; every item is
        explored exactly once.
        """
        items = list(items)
        jobs = min(jobs or njobs(), max(1, len(items)))
        if jobs <= 1 or self.replay is not None or os.environ.get('VERIF_SERIAL'):
            for it in items:
                fn(self, it)
            return
        import pickle
        import multiprocessing
        counter = multiprocessing.Value('i', 0)
        chunk = max(1, min(64, len(items) // (jobs * 16)))
        pipes = []
        sys.stdout.flush()
        for w in range(jobs):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    sub = Ctx(self.prop, self.tier, self.seed)
                    sub.max_viol = self.max_viol
                    sub.case_timeout = self.case_timeout
                    try:
                        while True:
                            with counter.get_lock():
                                i = counter.value
                                counter.value += chunk
                            if i >= len(items):
                                break
                            for it in items[i:i + chunk]:
                                fn(sub, it)
                    except Stop:
                        pass
                    data = ('ok', dict(states=sub.states, transitions=sub.transitions,
                                       executions=sub.executions, by_part=sub.by_part,
                                       samples=sub.samples[:3], violations=sub.violations,
                                       known_hit=sub.known_hit, notes=sub.notes))
                    sub.cleanup()
                except BaseException:
                    data = ('error', traceback.format_exc())
                try:
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump(data, f)
                except BaseException:
                    code = 3
                os._exit(code)
            os.close(wr)
            pipes.append((pid, r))
        errors = []
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                raw = f.read()
            os.waitpid(pid, 0)
            if not raw:
                errors.append('worker %d died' % pid)
                continue
            status, d = pickle.loads(raw)
            if status == 'error':
                errors.append(d)
                continue
            self.states |= d['states']
            self.transitions += d['transitions']
            self.executions += d['executions']
            for k, (a, b) in d['by_part'].items():
                c = self.by_part.setdefault(k, [0, 0])
                c[0] += a
                c[1] += b
            if len(self.samples) < 12:
                self.samples += d['samples']
            self.violations += d['violations']
            for k in d['known_hit']:
                if k not in self.known_hit:
                    self.known_hit.append(k)
            for k, v in d['notes'].items():
                if isinstance(v, (int, float)):
                    self.notes[k] = self.notes.get(k, 0) + v
                else:
                    self.notes[k] = v
        if errors:
            raise RuntimeError('worker failure:\n' + '\n'.join(errors))
        if len(self.violations) >= self.max_viol:
            raise Stop()


def njobs():
    try:
        n = len(os.sched_getaffinity(0))
    except Exception:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


# -- known findings -----------------------------------------------------------------

def load_known(prop):
    """Entries 'KNOWN property=<id> key=<key> :: <what fails>' of known_findings.txt."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('KNOWN property=%s ' % prop):
                    head, _, what = line.partition(' :: ')
                    key = head.split(' key=', 1)[1].strip()
                    out.append({'key': key, 'what': what})
    return out


# -- oracles helpers ------------------------------------------------------------------

def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol=1e-9):
    """Elementwise agreement up to rounding, relative to the entry and to the size of the whole expected array
    (arrays that are all below 1e-13 count as rounding noise around numbers of size one)."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(all='ignore'):
        m = np.abs(b[np.isfinite(b)])
        unit = float(m.max()) if m.size else 1.0
        unit = min(1.0, unit) if unit >= 1e-13 else 1.0
        ok = np.abs(a - b) <= tol * (unit + np.maximum(np.abs(a), np.abs(b)))
    return bool(np.all(same | ok))


def require_close(a, b, what, tol=1e-9):
    import numpy as np
    if a is None or b is None:
        raise Violation('%s: got %r, expected %r' % (what, a, b))
    aa, bb = np.asarray(a), np.asarray(b)
    if aa.shape != bb.shape:
        raise Violation('%s: shape %s, expected %s' % (what, aa.shape, bb.shape))
    if not close(aa, bb, tol):
        raise Violation('%s: got %s, expected %s' % (what, aa.tolist(), bb.tolist()))


def expect_error(fn, what, types=(Exception,)):
    """fn must raise one of the exception types."""
    try:
        r = fn()
    except types as e:
        return e
    except Exception as e:
        raise Violation('%s: raised %s(%s) instead of %s' % (what, type(e).__name__, e, [t.__name__ for t in types]))
    raise Violation('%s: accepted (returned %r)' % (what, r))


def same_arr(a, b, tol=0.0):
    """None-aware, NaN-aware, shape-exact comparison."""
    import numpy as np
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return a.tolist() == b.tolist()
    return close(a, b, tol) if tol else bool(np.all((a == b) | ((a != a) & (b != b))))
