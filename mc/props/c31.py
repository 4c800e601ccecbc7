"""The built-in serial communicator behaves like one-process MPI."""
import os
import pickle
import subprocess
import sys

import numpy as np

from mc.core import require, njobs, REPO, VERIF

RULE = ('every operation of the communicator x payload alphabet (object operations by value, buffer operations by the received contents), and every program of the parallel program library and of the seeded random operations, executed in a fresh '
        'interpreter in which mpi4py cannot be imported; reference: the same executions in a world of one process and, where the installed mpi4py starts, under it; states are the executions, transitions the compared results')
BOUNDS = {'quick': {'payloads': 24, 'numbers': 11, 'buffers': 16, 'samples': '1..5', 'dims': '1..3'}, 'thorough': {'payloads': 24, 'numbers': 11, 'buffers': 16, 'samples': '1..8', 'dims': '1..3'}}
ASSUMPTIONS = ['scatter of a sequence whose length is not one is an error of the caller', 'the randomised operations are compared for a fixed seed of the generators']


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {repr(k): norm(v) for k, v in x.items()}
    return x


def same(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind in 'fc':
            return bool(np.all((a == b) | ((a != a) & (b != b)) | (np.abs(a - b) <= 1e-12 * (1 + np.abs(b)))))
        return a.tolist() == b.tolist()
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * (1 + abs(b))
    return type(a) == type(b) and a == b


def launch(ctx, env, of, only=None):
    ps = []
    e = dict(os.environ, BET_REPO=REPO)
    for k in range(of):
        out = os.path.join(ctx.scratch, '%s_%d.pkl' % (env, k))
        err = open(out + '.err', 'w')
        ps.append((k, out, subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(VERIF, 'mc', 'serialrun.py'), env, str(k), str(of), ctx.tier, out], env=e, stdout=subprocess.DEVNULL, stderr=err, cwd=ctx.scratch)))
    return ps


def collect(ps, limit=600):
    res = []
    for k, out, p in ps:
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            with open(out, 'rb') as f:
                res.append(pickle.load(f))
        except Exception:
            with open(out + '.err') as f:
                res.append({'dead': f.read()[-1500:]})
    return res


def run(ctx):
    of = max(2, njobs() // 2)
    none, fake = launch(ctx, 'none', of), launch(ctx, 'fake', of)
    none, fake = collect(none), collect(fake)
    real = collect(launch(ctx, 'real', of), 120)
    ok = not any('dead' in r for r in real)
    ctx.notes['results under the installed mpi4py'] = sum(len(r.get('programs', ())) for r in real) if ok else 0

    def start():
        for r in none:
            require('dead' not in r, 'the package does not work without mpi4py: %s', r.get('dead'))
            require(r['env'][1:] == (1, 0), 'without mpi4py: size and rank %s', r['env'])
            require(r['env'][0] not in ('mpi4py.MPI', 'mc.fakempi'), 'the built-in communicator was not used: %s', r['env'])
        for r in fake:
            require('dead' not in r, 'reference run failed: %s', r.get('dead'))
    ctx.case('start', [], start)
    if any('dead' in r for r in none + fake):
        return
    for name, refs in (('one-process world', fake), ('mpi4py', real if ok else ())):
        for a, b in zip(none, refs):
            for sec in ('comm', 'class'):
                for k in b.get('comm', ()):
                    def go():
                        x = a[sec].get(k)
                        require(same(x, b['comm'][k]), '%s without MPI gives %r, %s gives %r', k, x, name, b['comm'][k])
                        ctx.step()
                    ctx.case('operations', [name, sec, str(k)], go)
            for k in b['programs']:
                def go():
                    x = a['programs'].get(k)
                    require(x is not None and same(x, b['programs'][k]), '%s without MPI gives %s, %s gives %s', k, str(x)[:300], name, str(b['programs'][k])[:300])
                    ctx.step(len(x[1]) if x[0] == 'ok' else 1)
                ctx.case('programs', [name, k], go)
