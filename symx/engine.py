"""Path exploration by re-execution, decided by z3."""
import shutil
import subprocess
import time

import z3


class Control(BaseException):
    """Steering exceptions: BaseException, so that `except Exception` in the code under test never swallows them."""


class PathAbort(Control):
    """The current path cannot continue (infeasible assumption, or cut)."""

    def __init__(self, *a):
        super().__init__(*a)
        if Engine.current is not None:
            Engine.current.aborting = self


def second_opinion(s, ms):
    """cvc5 on the same assertions.  If it finds a model, that model is put to z3 again, which has to agree."""
    exe = shutil.which('cvc5')
    if exe is None:
        return z3.unknown
    names = set()

    def consts(e, seen):
        todo = [e]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(e)
            todo.extend(e.children())
    seen = set()
    for a in s.assertions():
        consts(a, seen)
    names = sorted(names, key=str)
    text = '(set-option :produce-models true)\n(set-logic ALL)\n' + s.to_smt2()
    if names:
        text += '(get-value (%s))\n' % ' '.join(n.sexpr() for n in names)
    try:
        out = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' % ms], input=text, capture_output=True, text=True, timeout=ms / 1000 + 5).stdout
    except (subprocess.SubprocessError, OSError):
        return z3.unknown
    verdict, _, values = out.partition('\n')
    if verdict.strip() == 'unsat':
        return z3.unsat
    if verdict.strip() != 'sat':
        return z3.unknown
    try:
        decls = {n.sexpr().strip('|'): n for n in names}
        eqs = z3.parse_smt2_string('(assert (and true %s))' % ' '.join('(=' + p + ')' for p in pairs(values)), decls=decls)
    except z3.Z3Exception:
        return z3.unknown
    s.add(*eqs)
    return z3.sat if s.check() == z3.sat else z3.unknown


def pairs(text):
    """The bodies of ((name value) (name value) ...)."""
    depth, cur = 0, ''
    for ch in text:
        if ch == '(':
            depth += 1
            if depth == 2:
                cur = ' '
                continue
        elif ch == ')':
            depth -= 1
            if depth == 1:
                yield cur
                continue
        if depth >= 2:
            cur += ch


class EngineError(Control):
    """The executor cannot treat this path: dropped, counted and reported as inconclusive."""


class Unsupported(PathAbort):
    """The path leaves what the executor models: dropped, counted and reported as inconclusive."""


class OutOfBudget(Control):
    pass


class Ev:
    __slots__ = ('cond', 'value', 'open', 'pushed', 'kind', 'tag')

    def __init__(self, kind, cond, value=None, open_=False, pushed=False, tag=None):
        self.tag = tag
        self.kind = kind
        self.cond = cond
        self.value = value
        self.open = open_
        self.pushed = pushed


class Engine:
    current = None

    def __init__(self, deadline=None, solver_timeout_ms=5_000, max_paths=200_000, dump=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_timeout_ms)
        self.events = []
        self.pos = 0
        self.model = None
        self.deadline = deadline
        self.max_paths = max_paths
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.timeout_ms = solver_timeout_ms
        self.answered = self.solver
        self.retries = 0
        self.cvc5_wins = 0
        self.forks = 0
        self.checks = 0
        self.discharged = 0
        self.trivial = 0
        self.realised = 0
        self.truncated = 0
        self.inconclusive = 0
        self.inconclusive_why = []
        self.path_realised = 0
        self.nondeterministic = 0
        self.unknowns = 0
        self.on_lost = None
        self.violations = []
        self.dump = dump  # list collecting unsat obligations as smt2 text (second-solver check)
        self.domains = {}   # conditions on declared objects, by name
        self.here = {}      # conditions on schedules, by position
        self.broken = None
        self.aborting = None  # the path is over, even if the code under test swallowed the exception that said so

    # -- solver ------------------------------------------------------------------------------------------
    def _check(self, *extra, unknown_ok=False):
        if self.deadline is not None and time.time() > self.deadline:
            raise self._fail(OutOfBudget('time budget exhausted'))
        self.queries += 1
        t = time.time()
        self.answered = self.solver
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self._again(extra)
        self.solver_s += time.time() - t
        if r == z3.unknown:
            self.unknowns += 1
            why = 'solver answered unknown: %s' % self.solver.reason_unknown()
            if not unknown_ok:
                raise self._fail(EngineError(why))
            self.inconclusive += 1
            self.inconclusive_why.append(why)
        return r

    def _again(self, extra):
        """The incremental solver gave up: ask fresh ones, which may take another way."""
        r = z3.unknown
        rounds = [(0, self.timeout_ms), ('cvc5', 8 * self.timeout_ms), (7, 4 * self.timeout_ms), (23, 12 * self.timeout_ms)]
        if self.cvc5_wins:
            rounds[:2] = rounds[1::-1]
        if self.unknowns >= 2:
            rounds = rounds[:1]     # no point in spending the whole budget here
        for seed, ms in rounds:
            if self.deadline is not None:
                ms = max(1, min(ms, int(1000 * (self.deadline - time.time()))))
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(*self.solver.assertions())
            s.add(*extra)
            self.retries += 1
            if seed == 'cvc5':
                r = second_opinion(s, ms)
                if r != z3.unknown:
                    self.cvc5_wins += 1
                    self.solver.set('timeout', self.timeout_ms // 10)     # this unit's queries suit it better
            else:
                s.set('random_seed', seed)
                r = s.check()
            if r != z3.unknown:
                self.answered = s
                break
        return r

    def _fail(self, exc):
        self.broken = exc
        return exc

    def _resync(self, what):
        """The code under test took its decisions in another order than on the run before (an iteration over a set, say): what was
        known beyond this point is forgotten and explored anew.  Counted; the exploration no longer counts as exhaustive."""
        self.nondeterministic += 1
        if self.nondeterministic > 300:
            raise self._fail(OutOfBudget('non-deterministic re-execution: %s' % what))
        self.inconclusive += 1
        self.inconclusive_why.append('decisions in another order on re-execution')
        while len(self.events) > self.pos:
            ev = self.events.pop()
            if ev.pushed:
                self.solver.pop()
        self.model = None

    def alive(self):
        if self.broken is not None:
            raise self.broken
        if self.aborting is not None:
            raise self.aborting

    def get_model(self):
        if self.model is None:
            if self._check() != z3.sat:
                if self.nondeterministic:
                    raise PathAbort('path condition became unsatisfiable')
                raise self._fail(EngineError('path condition became unsatisfiable'))
            self.model = self.answered.model()
        return self.model

    # -- path events -------------------------------------------------------------------------------------
    def branch(self, cond, tag=None):
        """Decide a symbolic condition; both sides get explored if both are satisfiable."""
        self.alive()
        if isinstance(cond, bool):
            return cond
        if self.pos < len(self.events) and self.events[self.pos].cond is cond and self.events[self.pos].kind == 'D':
            self.branches += 1
            self.pos += 1
            return self.events[self.pos - 1].value
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.branches += 1
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev.kind == 'D' and (ev.cond is cond or ev.cond.eq(cond)):
                self.pos += 1
                return ev.value
            self._resync('%s vs %s' % (ev.cond, cond))
        m = self.get_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        r = self._check(other, unknown_ok=True)
        if r == z3.unsat:
            self.events.append(Ev('D', cond, side, tag=tag))
            self.pos += 1
            return side
        if r == z3.unknown:     # whether the other side exists is left open
            self.solver.push()
            self.solver.add(cond if side else z3.Not(cond))
            self.events.append(Ev('D', cond, side, pushed=True, tag=tag))
            self.pos += 1
            return side
        self.forks += 1
        self.solver.push()
        self.solver.add(cond if side else z3.Not(cond))
        self.events.append(Ev('D', cond, side, open_=True, pushed=True, tag=tag))
        self.pos += 1
        return side

    def assume(self, cond, tag=None):
        self.alive()
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort('assumption')
            return
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev.kind == 'A' and (ev.cond is cond or ev.cond.eq(cond)):
                self.pos += 1
                return
            self._resync('%s vs %s' % (ev.cond, cond))
        self.solver.add(cond)
        self.events.append(Ev('A', cond, tag=tag))
        self.pos += 1
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            return
        self.model = None
        if self._check() == z3.unsat:
            raise PathAbort('assumption')
        self.model = self.answered.model()

    def fork_value(self, expr, limit=64):
        """Exhaustive case split over the feasible values of an integer expression."""
        e = z3.simplify(expr)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            val = self.events[self.pos].tag if self.pos < len(self.events) else None
            if not isinstance(val, int):
                val = self.get_model().eval(expr, model_completion=True).as_long()
            c = e == z3.IntVal(val)
            if z3.is_true(z3.simplify(c)) or self.branch(c, tag=val):
                return val
        self.truncated += 1
        raise PathAbort('too many values')

    def pin_value(self, expr, several=4):
        """Under-approximation: continue with a few feasible values only; counted, and reported in the evidence."""
        self.path_realised += 1
        for _ in range(several):
            val = self.events[self.pos].tag if self.pos < len(self.events) else self.get_model().eval(expr, model_completion=True)
            if val is None:
                break       # only after decisions in another order
            c = z3.simplify(expr == val)
            if z3.is_true(c) or self.branch(c, tag=val):
                return val
        if self.pos < len(self.events) and self.events[self.pos].tag is not None:
            val = self.events[self.pos].tag
        else:
            self.realised += 1
            val = self.get_model().eval(expr, model_completion=True)
        self.assume(expr == val, tag=val)
        return val

    # -- assertions --------------------------------------------------------------------------------------
    def check(self, label, cond, witness):
        self.alive()
        if self.pos < len(self.events):
            return  # this very assertion was decided on an earlier path with the same prefix
        self.checks += 1
        if isinstance(cond, bool):
            if cond:
                self.trivial += 1
                self.discharged += 1
                return
            self._violation(label, self.get_model(), witness)
            raise PathAbort('violated')
        neg = z3.Not(cond)
        r = self._check(neg, unknown_ok=True)
        if r == z3.unknown:     # not decided here
            if self.on_lost is not None:
                self.on_lost(self)
            return
        if r == z3.unsat:
            self.discharged += 1
            if self.dump is not None and len(self.dump) < 400:
                self.solver.push()
                self.solver.add(neg)
                self.dump.append(self.solver.to_smt2())
                self.solver.pop()
            return
        self._violation(label, self.answered.model(), witness)
        self.model = None
        self.assume(cond)

    def _violation(self, label, model, witness):
        if sum(1 for v in self.violations if v[0] == label) < 3:
            self.violations.append((label, witness(model)))

    # -- exploration -------------------------------------------------------------------------------------
    def backtrack(self):
        while self.events:
            ev = self.events.pop()
            if ev.kind == 'D' and ev.pushed:
                self.solver.pop()
                if ev.open:
                    ev.open = False
                    ev.value = not ev.value
                    self.solver.push()
                    self.solver.add(ev.cond if ev.value else z3.Not(ev.cond))
                    self.events.append(ev)
                    self.model = None
                    return True
        return False

    def explore(self, run, on_path=None, on_lost=None):
        """run() executes the harness once along the current decision prefix."""
        self.on_lost = on_lost
        while True:
            self.pos = 0
            self.path_realised = 0
            self.aborting = None
            Engine.current = self
            try:
                run()
                if self.aborting is not None:
                    raise self.aborting
                self.paths += 1
                done = True
            except (Unsupported, EngineError) as e:
                self.broken = None
                self.inconclusive += 1
                self.inconclusive_why.append(str(e))
                done = False
                if on_lost is not None:
                    on_lost(self)
            except PathAbort:
                self.aborted += 1
                done = False
            self.aborting = None
            self.alive()
            if done and on_path is not None:
                try:
                    on_path(self)
                except EngineError as e:
                    self.broken = None
                    self.inconclusive += 1
                    self.inconclusive_why.append(str(e))
            if self.paths + self.aborted + self.inconclusive >= self.max_paths:
                raise OutOfBudget('path budget exhausted')
            if not self.backtrack():
                return


def _guard(fn):
    """An ordinary exception inside the engine is a defect of the engine: it must not look like behaviour of the code."""
    def g(self, *a, **k):
        try:
            return fn(self, *a, **k)
        except Control:
            raise
        except Exception as e:
            raise self._fail(EngineError('internal: %s: %s' % (type(e).__name__, e))) from e
    g.__name__ = fn.__name__
    return g


for _n in ('branch', 'assume', 'fork_value', 'pin_value', 'check'):
    setattr(Engine, _n, _guard(getattr(Engine, _n)))
