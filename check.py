#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] | --replay <file> | --all"""
import argparse
import importlib
import json
import logging
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')

from mc import core, registry  # noqa: E402


def load(pid):
    return importlib.import_module('mc.checks.' + registry.MODULES[pid])


def run(pid, tier):
    ctx = core.Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '0') or 0))
    note, assumptions = '', ()
    try:
        mod = load(pid)
        spec = mod.CHECKS[pid]
        note, assumptions = spec.__doc__ or '', getattr(mod, 'ASSUMPTIONS', ())
        spec(ctx)
        from mc.checks import faults, scale  # noqa: F401
        boxed = getattr(mod, 'boxed', None) if pid == 'C17' else None
        scale.run(ctx, boxed)
        sizes = scale.KINDS.get(pid)
        if sizes:
            note += ' Every size up to a bound: ' + ', '.join(
                name for name, *_ in sizes) + '.'
    except core.Enough:
        pass
    except Exception:
        ctx.violations.append({'space': 'run', 'history': [], 'key': None,
                               'what': traceback.format_exc()})
    return core.finish(ctx, ' '.join(note.split()), assumptions)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    mod = load(v['property'])
    import ast
    space, hist = v['space'], v['history']
    print(f'{v["property"]} {space}: {hist}')
    print('recorded:', v['what'])
    if space in getattr(mod, 'DRIVERS', {}):
        cfg = ast.literal_eval(hist[0])
        ops = tuple(ast.literal_eval(o) for o in hist[1])
        for between in (False, True):
            _, err, at = core.run_history(mod.DRIVERS[space](), cfg, ops,
                                          between)
            if err:
                break
        print('now:', err, f'(at step {at})' if err else '')
        return 1 if err else 0
    from mc.checks import faults, scale, wide  # noqa: F401
    known = {**scale.CASES, **wide.CASES, **getattr(mod, 'CASES', {})}
    if space in known:
        err = known[space](ast.literal_eval(hist[0]))
        err = err[0] if isinstance(err, tuple) else err
        print('now:', err)
        return 1 if err else 0
    print('this space has no single-history replay; running the check')
    return run(v['property'], 'quick')


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--replay')
    p.add_argument('--selftest', action='store_true')
    a = p.parse_args()
    if a.selftest:
        for pid in registry.MODULES:
            assert pid in load(pid).CHECKS, pid
        print('ok')
        return 0
    if a.replay:
        return replay(a.replay)
    return run(a.property, a.tier)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    os._exit(code)      # daemon threads of storages must not delay the end
