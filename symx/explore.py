"""Symbolic exploration of one unit (runs in a worker process)."""
import gc
import random
import sys
import time
import traceback

import z3

from . import instrument
from . import proxies as P
from . import universe as U
from .engine import Control, Engine, EngineError, OutOfBudget, PathAbort, Unsupported
from .symctx import Ctx

_source = {}


def source(points=False):
    if points not in _source:
        _source[points] = instrument.Source(points=points)
    return _source[points]


def explore_unit(unit, deadline, seed=1, keep=200, dump=False, max_paths=200_000):
    t0 = time.time()
    src = source(bool(unit.params.get('threads')))
    finder = instrument.Finder(src, dict(P.PRIMITIVES, **instrument.POINTS))
    dumped = [] if dump else None
    eng = Engine(deadline=deadline, max_paths=max_paths, dump=dumped)
    U.SYMBOLIC[0] = True
    P.ENG = eng
    P.CTX = None
    entered = set()
    reached = {}
    paths = []
    rng = random.Random('%s|%s' % (seed, unit.name))
    state = {'n': 0, 'ctx': None}
    crashes = []

    def run():
        U.EPOCH[0] = 0
        P.CTX = None
        R = instrument.fresh(finder)
        state['n'] += 1
        if state['n'] % 40 == 0:
            gc.collect()
        ctx = Ctx(eng, R, state['n'], unit.params, unit.int_bits, unit.float_bits)
        P.CTX = ctx
        state['ctx'] = ctx
        try:
            unit.fn(ctx)
        except Control:
            raise
        except (Exception, SystemExit, GeneratorExit) as e:
            # the harness itself failed: the code under test did something it does not expect
            crashes.append(traceback.format_exc())
            ctx.check('harness runs to completion (%s: %s)' % (type(e).__name__, str(e)[:120]), False)
        finally:
            entered.update(ctx.entered)

    def on_path(eng):
        ctx = state['ctx']
        for label, v in ctx.notes:
            reached[label] = reached.get(label, 0) + 1
        i = eng.paths
        if len(paths) < keep:
            slot = len(paths)
            paths.append(None)
        else:
            slot = rng.randrange(i)
            if slot >= keep:
                return
        m = eng.get_model()
        paths[slot] = (ctx.witness(m), ctx.trace(m))

    lost = []

    def on_lost(eng):
        """A path that leaves what is modelled: the solver still tells which inputs lead there; those are tried on the real code."""
        if len(lost) >= 60:
            return
        ctx = state['ctx']
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*eng.solver.assertions())
        exprs = []
        for kind, p in list(ctx.decls.values()):
            exprs.extend(p if isinstance(p, tuple) else [p])
        try:
            if s.check() != z3.sat:
                return
            m = s.model()
            for i in range(1 + min(6, 2 * len(exprs)) if len(lost) < 30 else 1):
                lost.append(dict(ctx.witness(m), fill='%s/%d' % (seed, len(lost))))
                if not exprs:
                    continue
                e = exprs[i % len(exprs)]
                s.push()
                s.add(e != m.eval(e, model_completion=True))
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
        except (z3.Z3Exception, Control):
            eng.broken = eng.aborting = None

    error = None
    partial = None
    gc.collect()
    gc.disable()
    try:
        eng.explore(run, on_path, on_lost)
    except OutOfBudget as e:
        partial = str(e)
        on_lost(eng)
    except EngineError as e:
        error = '%s: %s' % (type(e).__name__, e)
    except Exception:
        error = traceback.format_exc()
    finally:
        P.CTX = None
    gc.enable()
    gc.collect()
    return {
        'unit': unit.name, 'paths': eng.paths, 'aborted': eng.aborted, 'branches': eng.branches, 'forks': eng.forks,
        'queries': eng.queries, 'solver_s': eng.solver_s, 'checks': eng.checks, 'discharged': eng.discharged,
        'trivial': eng.trivial, 'realised': eng.realised, 'truncated': eng.truncated,
        'inconclusive': eng.inconclusive, 'inconclusive_why': sorted(set(eng.inconclusive_why))[:5],
        'violations': eng.violations, 'entered': sorted(entered), 'reached': reached, 'samples': paths,
        'error': error, 'wall': time.time() - t0, 'crashes': crashes[:3], 'dump': dumped,
        'retries': eng.retries, 'cvc5': eng.cvc5_wins, 'lost': lost, 'partial': partial, 'functions': src.functions, 'sites': src.sites,
    }
