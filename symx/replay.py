"""Concrete replay of solver witnesses against the real, un-instrumented package.

usage: replay.py <property module> <batch.json> [<out.json>]      (batch: list of {unit, witness, trace})
       replay.py <replay file of a violation>
Runs in the repository's own interpreter; imports no solver.
"""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from symx import universe as U  # noqa: E402
from symx.ctx import CCtx, Stop  # noqa: E402


def load_with_points():
    """The package with preemption points between its statements, and nothing else changed."""
    from symx import instrument
    if not _finder:
        _finder.append(instrument.Finder(instrument.Source(repo=REPO, points=True, rewrite=False), instrument.POINTS))
    R = instrument.fresh(_finder[0])
    sys.meta_path.remove(_finder[0])
    return R


_finder = []


def load_real():
    for m in [m for m in sys.modules if m == 'records' or m.startswith('records.')]:
        del sys.modules[m]
    R = importlib.import_module('records')
    assert os.path.realpath(R.__file__).startswith(os.path.realpath(REPO)), R.__file__
    return R


def replay(unit, witness):
    U.SYMBOLIC[0] = False
    warnings.simplefilter('ignore')
    c = CCtx(load_with_points() if unit.params.get('threads') else load_real(), witness, unit.params)
    stopped = None
    try:
        unit.fn(c)
    except Stop as e:
        stopped = str(e)
    except (Exception, SystemExit, GeneratorExit) as e:
        c.check('harness runs to completion (%s: %s)' % (type(e).__name__, str(e)[:120]), False)
        c.crash = traceback.format_exc()
    finally:
        c.close()
    return c, stopped


def units_of(module):
    m = importlib.import_module('props.' + module)
    return {u.name: u for u in m.UNITS}


def main():
    if len(sys.argv) == 2:
        with open(sys.argv[1]) as f:
            d = json.load(f)
        u = units_of(d['module'])[d['unit']]
        c, stopped = replay(u, d['witness'])
        print('property', d['property'], 'unit', d['unit'], u.params)
        for n, v in d['witness']['vars'].items():
            print('   %-24s = %s' % (n, v))
        for label, ok in c.notes:
            if ok is False:
                print('   FAILS:', label)
        if getattr(c, 'crash', None):
            print(c.crash)
        if c.failed:
            print('VIOLATION reproduced: ' + '; '.join(c.failed))
            sys.exit(1)
        print('not reproduced' + (' (trace ended: %s)' % stopped if stopped else ''))
        sys.exit(0)
    units = units_of(sys.argv[1])
    with open(sys.argv[2]) as f:
        batch = json.load(f)
    out = []
    for item in batch:
        c, stopped = replay(units[item['unit']], item['witness'])
        out.append({'failed': c.failed, 'stopped': stopped, 'notes': c.notes, 'crash': getattr(c, 'crash', None),
                    'vars': c.w if 'fill' in item['witness'] else None})
    with open(sys.argv[3], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
