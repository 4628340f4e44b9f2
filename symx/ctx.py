"""The two contexts a harness runs in: Ctx (symbolic, z3) lives in symctx.py; here is what both share, and CCtx (concrete replay).

No z3 in this module: the concrete replayer imports it in the repository's own interpreter.
"""
import types as _types

from . import scratch
from . import universe as U


class Stop(BaseException):
    """The concrete trace ends here (the witness says nothing about what comes next)."""


class Outcome:
    """What a call did."""
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    def raised(self, *classes):
        return (not self.ok) and isinstance(self.exc, classes or (Exception,))

    def describe(self):
        return 'ok' if self.ok else type(self.exc).__name__


class TwoArgs(Exception):
    """An exception type that cannot be built from a message alone."""

    def __init__(self, a, b):
        super().__init__(a, b)


class Plain(Exception):
    pass


class Base:
    """API common to both modes.  Boolean-valued helpers return a bool or a symbolic bool: combine them with
    And/Or/Not/Implies, decide them with fork(), assert them with check()."""

    R = None

    # -- classes -----------------------------------------------------------------------------------------
    def record(self, name, fields, bases=None, ns=None, **kw):
        """A record class: fields maps names to hints, or to (hint, default)."""
        bases = tuple(bases) if bases else (self.R.RecordBase,)

        def body(d):
            ann = {}
            for k, h in fields.items():
                if isinstance(h, Dflt):
                    d[k] = h.value
                    h = h.hint
                ann[k] = h
            d['__annotations__'] = ann
            d['__module__'] = 'symx.scratch'
            d['__qualname__'] = name
            d.update(ns or {})
        cls = _types.new_class(name, bases, kw, body)
        setattr(scratch, name, cls)
        return cls

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(True, fn(*a, **k))
        except Exception as e:
            return Outcome(False, exc=e)

    def stub(self, name, outcomes=('obj', 'raise'), types=None, excs=(TypeError,), kmax=None):
        """A callback whose every call has an arbitrary outcome: 'same' (returns its first argument), 'obj' (any object of `types`),
        'none', 'raise' (an arbitrary one of excs).  Calls are logged in .calls as (args, kwargs, kind, value-or-exception)."""
        ctx = self
        types = types or U.SIMPLE

        def f(*a, **k):
            i = len(f.calls)
            if len(f.calls) >= 40:
                ctx.cut('callback called too often')
            kind = ctx.choice('%s.%d' % (name, i), outcomes)
            if kind == 'same':
                v = a[0]
            elif kind == 'obj':
                v = ctx.obj('%s.%d.v' % (name, i), types, kmax=kmax)
            elif kind == 'none':
                v = None
            elif kind == 'raise':
                e = ctx.choice('%s.%d.e' % (name, i), excs)
                v = e('x', 'y') if e is TwoArgs else e('stub %s' % name)
                f.calls.append((a, k, kind, v))
                raise v
            elif callable(kind):
                v = kind(*a, **k)
            f.calls.append((a, k, kind, v))
            return v
        f.calls = []
        f.__name__ = name
        f.__qualname__ = name
        return f

    def race(self, fa, fb, back=False):
        """Runs two functions as two threads: the first is interrupted by the second at one point of the package's code, or nowhere
        (back: the second is interrupted by the rest of the first).  Where, is part of the inputs."""
        from .points import Race
        where = {'switch': self.int('switch at', 0)}
        if back:
            where['back'] = self.int('back at', 0)
        out = [None, None]

        def a():
            out[0] = self.attempt(fa)

        def b():
            out[1] = self.attempt(fb)
        Race(lambda what, key: self.here(where[what], key), back, self.swap()).run(a, b)
        self.check('both threads end', None not in out)
        return out

    def swap(self):
        return lambda: None

    def here(self, where, key):
        return where == key

    # -- derived -----------------------------------------------------------------------------------------
    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))

    def all_same(self, xs, ys):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return False
        return self.And(*[self.same(a, b) for a, b in zip(xs, ys)])

    def all_eq(self, xs, ys):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return False
        return self.And(*[self.eq(a, b) for a, b in zip(xs, ys)])

    def fail(self, label):
        self.check(label, False)


class Dflt:
    def __init__(self, hint, value):
        self.hint = hint
        self.value = value


class CCtx(Base):
    """Concrete replay of one witness against the real, un-instrumented package."""
    symbolic = False

    def __init__(self, R, witness, params=None):
        U.EPOCH[0] = 0
        U.VHASH.clear()
        for ep, k, h in witness.get('vhash', ()):
            U.VHASH[(ep, k)] = h
        self.R = R
        self.w = witness['vars']
        self.cache = {}
        self.notes = []
        self.failed = []
        self.undo = []
        self.P = params or {}
        self.rng = None
        if 'fill' in witness:
            import random
            self.rng = random.Random(witness['fill'])

    def hook(self, name, fn):
        """Calls of eval or literal_eval that the package makes go to fn."""
        import ast
        import builtins
        import sys
        real = {'eval': eval, 'literal_eval': ast.literal_eval}[name]

        def standin(*a, **k):
            if sys._getframe(1).f_globals.get('__name__', '').split('.')[0] == 'records':
                return fn(*a, **k)
            return real(*a, **k)
        home = {'eval': builtins, 'literal_eval': ast}[name]
        setattr(home, name, standin)
        self.undo.append(lambda: setattr(home, name, real))
        for m, mod in list(sys.modules.items()):
            if m.split('.')[0] == 'records':
                for k, v in list(vars(mod).items()):
                    if v is real:
                        setattr(mod, k, standin)

    def close(self):
        for f in self.undo:
            f()

    def _get(self, name, fill=None):
        if name not in self.w:
            # the witness of a path that was not followed to its end: what it does not determine is filled in
            if self.rng is None or fill is None:
                raise Stop(name)
            self.w[name] = fill(self.rng)
        return self.w[name]

    def flag(self, name):
        return bool(self._get(name, lambda r: r.random() < .5))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self._get(name, lambda r: r.randrange(len(options)))
        if not 0 <= i < len(options):
            raise Stop(name)
        return options[i]

    def int(self, name, lo=None, hi=None):
        def fill(r):
            a, b = (lo if lo is not None else min(-3, hi or 0)), (hi if hi is not None else max(3, lo or 0))
            return r.randint(a, min(b, a + 6)) if r.random() < .8 else r.randint(a, b)
        return int(self._get(name, fill))

    def rat(self, name, lo=-1000, hi=1000, dens=(1, 2, 3)):
        import fractions
        n, d = self._get(name, lambda r: [r.randint(max(lo, -5), min(hi, 5)), r.choice(list(dens))])
        return fractions.Fraction(n, d)

    def flt(self, name, lo=None, hi=None, finite=False):
        def fill(r):
            a, b = (-4.0 if lo is None else lo), (4.0 if hi is None else hi)
            wild = ['inf', '-inf', 'nan'] if not finite and lo is None and hi is None else []
            return r.choice(wild) if wild and r.random() < .2 else float(a + (b - a) * r.randint(0, 16) / 16).hex()
        v = self._get(name, fill)
        return float.fromhex(v) if v != 'nan' else float('nan')

    def cplx(self, name):
        return complex(self.flt(name + '.re'), self.flt(name + '.im'))

    def string(self, name, maxlen=6):
        s = self._get(name, lambda r: ''.join(r.choice('ab 0') for _ in range(r.randint(0, min(maxlen, 4)))))
        return ''.join([s[:1], s[1:]]) if len(s) > 1 else s

    def obj(self, name, types=None, kmax=None):
        def fill(r):
            t = U.BY_NAME[r.choice(list(types or U.SIMPLE))]
            k = r.randint(0, min(9, t.kmax if kmax is None else min(t.kmax, kmax)))
            return [t.name, k, r.random() < .5, 10 ** 6 + 100 * len(self.w)]
        t, k, truth, ident = self._get(name, fill)
        return U.make(t, k, truth, self.cache, ident)

    fresh_obj = obj

    def check(self, label, cond):
        ok = bool(cond)
        self.notes.append((label, ok))
        if not ok:
            self.failed.append(label)

    def assume(self, cond):
        if not cond:
            raise Stop('assumption')

    def cut(self, why):
        raise Stop(why)

    def reach(self, label):
        self.notes.append(('@' + label, True))

    def note(self, label, value):
        self.notes.append((label, value))

    def fork(self, cond):
        return bool(cond)

    def same(self, a, b):
        return a is b

    def eq(self, a, b):
        return bool(a == b)

    def is_type(self, o, cls):
        return type(o) is cls

    def is_inst(self, o, cls):
        return isinstance(o, cls)

    def type_eq(self, a, b):
        return type(a) is type(b)

    def truth(self, o):
        return bool(o)

    def callable(self, o):
        return callable(o)

    def hash(self, o):
        return hash(o)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def new_process(self):
        U.EPOCH[0] += 1

    def decode(self, text):
        import json
        return json.loads(text)

    def encode(self, obj):
        import json
        return json.dumps(obj)

    def rebuild(self, text, names):
        return eval(text, dict(names, **{t.cls.__name__: t.cls for t in U.TYPES}))

    def fullmatch(self, pattern, s):
        return pattern.fullmatch(s) is not None
