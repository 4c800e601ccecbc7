#!/opt/venv/bin/python
"""
Entry point of all checks:   run.py <property> [quick|thorough] [--replay FILE]

exit 0: property held on everything explored
exit 1: violated; a line  VIOLATION property=<id> replay=<path>  per violation
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'MPLBACKEND': 'agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'OMPI_MCA_btl': 'self', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_plm': 'isolated',
       'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1'}


def main():
    if os.environ.get('VERIF_BOOTED') != '1':
        env = dict(os.environ, **ENV)
        env['VERIF_BOOTED'] = '1'
        env.pop('PYTHONPATH', None)
        import tempfile
        env.setdefault('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), 'verif_mplconfig'))
        os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
        os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from mc import core
    args = [a for a in sys.argv[1:]]
    replay = None
    if '--replay' in args:
        i = args.index('--replay')
        with open(args[i + 1]) as f:
            replay = json.load(f)
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = core.Ctx(prop, tier, seed, replay)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking'}
    rc = 0
    boot_error = None
    try:
        try:
            core.boot()
        except Exception as e:   # the tree does not even import
            import traceback
            boot_error = traceback.format_exc()
            raise
        mod = importlib.import_module('mc.props.%s' % prop.lower())
        try:
            mod.run(ctx)
        except core.Stop:
            pass
    finally:
        ctx.cleanup()
    ev['coverage'] = {
        'states': len(ctx.states), 'transitions': ctx.transitions,
        'traces_validated_against_impl': ctx.executions,
        'rule': getattr(mod, 'RULE', (mod.__doc__ or '').strip()),
        'samples': ctx.samples[:8],
        'parts': {k: {'executions': a, 'distinct': b} for k, (a, b) in sorted(ctx.by_part.items())},
        'bounds': getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {})),
        'exhaustive_within_bounds': True,
    }
    ev['coverage'].update(core.jsonable(ctx.notes))
    ev['assumptions'] = getattr(mod, 'ASSUMPTIONS', []) + ctx.assumptions
    ev['known_findings'] = ctx.known_hit
    ev['wall_s'] = round(time.time() - ctx.t0, 3)
    ev['violations'] = len(ctx.violations)
    if ctx.replay is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k in ctx.known_hit:
        what = [x['what'] for x in ctx.known if x['key'] == k][0]
        print('KNOWN-FINDING: property=%s key=%s %s' % (prop, k, what))
    if ctx.violations:
        rc = 1
        rdir = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        if os.environ.get('VERIF_SUMMARY'):
            groups = {}
            for v in ctx.violations:
                groups.setdefault((v['part'], v['kind'], v['message'][:60]), []).append(v)
            for k, vs in sorted(groups.items(), key=lambda t: -len(t[1])):
                print('%5d %s | %s' % (len(vs), k, json.dumps(vs[0]['case'])[:260]))
                print('      ' + vs[0]['message'][:300])
            ctx.violations = ctx.violations[:1]
        for n, v in enumerate(ctx.violations[:ctx.max_viol]):
            path = os.path.join(rdir, '%s_%d.json' % (prop, n))
            if ctx.replay is None:
                with open(path, 'w') as f:
                    json.dump(dict(v, property=prop, tier=tier, seed=seed,
                                   replay_cmd='%s %s %s --replay %s' % (os.path.abspath(__file__), prop, tier, path)), f, indent=1)
            print('  %s [%s] %s: %s' % (v['part'], v['kind'], json.dumps(v['case'])[:400], v['message'][:600]))
            if v['traceback']:
                print('    ' + '\n    '.join(v['traceback'].strip().splitlines()[-6:]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s: %d states, %d transitions, %d executions, %d violation(s), %.1f s' % (
        prop, tier, len(ctx.states), ctx.transitions, ctx.executions, len(ctx.violations), time.time() - ctx.t0))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
