"""C11: parse succeeds only if exactly one registered parser does."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('0..4 parsers (class methods, static methods, selectable factories, inherited, overridden) with arbitrary outcomes each (any object, None, the argument, '
          'exceptions incl. ParseFailure); any argument; built-in parsers with mapping, JSON, instance arguments')
OUTSIDE = 'parsers that raise BaseException'
V = ('V0', 'W', 'NoneType')


class Odd(Exception):
    def __init__(self):
        super().__init__('odd')


def outcome(c, R, A, ps, v, o, builtin_ok=0):
    good = []
    for p in ps:
        c.check('every parser is tried once', len(p.calls) == 1)
        c.check('on the argument', len(p.calls[0][0]) == 1 and not p.calls[0][1] and c.same(p.calls[0][0][0], v))
        if p.calls[0][2] != 'raise':
            good.append(p.calls[0][3])
    n = len(good) + builtin_ok
    PF = R.record.ParseFailure
    if n == 0:
        c.check('none: ParseFailure', o.raised(PF))
        c.reach('none')
    elif n > 1:
        c.check('several: TypeError, not ParseFailure', o.raised(TypeError) and not o.raised(PF))
        c.reach('several')
    else:
        c.check('one: succeeds', o.ok)
        if good:
            c.check('with its result', c.same(o.value, good[0]))
        c.reach('one')


def stubs(c, n, kinds=('obj', 'none', 'same', 'raise'), types=V):
    R = c.R
    return [c.stub('p%d' % i, kinds, types, (Plain, TypeError, R.record.ParseFailure, ValueError)[:c.P.get('excs', 3)]) for i in range(n)]


def as_parser(R, p, how):
    if how == 'class':
        return R.parser(classmethod(lambda cls, v: p(v)))
    if how == 'static':
        return R.parser(staticmethod(lambda v: p(v)))
    if how == 'plain class':
        @R.parser
        @classmethod
        def par(cls, *args):
            return p(*args)
        return par
    raise AssertionError(how)


def parsers(c):
    R = c.R
    n = c.P['n']
    ps = stubs(c, n, c.P.get('kinds', ('obj', 'none', 'same', 'raise')))
    hows = c.choice('hows', (('class',) * n, ('static', 'plain class', 'class', 'static')[:n]))
    ns = {'par%d' % i: as_parser(R, p, h) for i, (p, h) in enumerate(zip(ps, hows))}
    A = c.record('A', {'x': int, 'y': int}, ns=ns, frozen=c.P.get('frozen', False))
    v = c.obj('v', ('V0', 'W'))
    outcome(c, R, A, ps, v, c.attempt(A.parse, v))


UNITS.add('no parsers', parsers, n=0, reach=('none',))
UNITS.add('one', parsers, n=1, reach=('none', 'one'))
UNITS.add('two', parsers, n=2, reach=('none', 'one', 'several'), weight=4)
UNITS.add('two/frozen', parsers, n=2, frozen=True, excs=2, reach=('none', 'one', 'several'), weight=4)
UNITS.add('three', parsers, n=3, excs=2, reach=('none', 'one', 'several'), weight=20)
UNITS.add('four', parsers, n=4, excs=2, kinds=('none', 'obj', 'raise'), reach=('none', 'one', 'several'), weight=60, tier='thorough')


@UNITS.unit(reach=('none', 'one', 'several'), weight=6)
def inherited(c):
    """parsers of any base run for the subclass, bound to it; overriding one by name replaces it, unregistered ones do not run"""
    R = c.R
    p, q, r = c.stub('p', ('obj', 'raise'), V, (Plain,)), c.stub('q', ('none', 'raise'), V, (R.record.ParseFailure,)), c.stub('r', ('obj', 'raise'), V, (KeyError,))
    seen = []

    def mk(f):
        def par(cls, v):
            seen.append(cls)
            return f(v)
        return R.parser(classmethod(par))
    where = c.choice('where', ('base', 'grandparent', 'mixin', 'two bases', 'override', 'override unregistered'))
    fx, fy = {'x': int, 'y': int}, {'z': int}
    live = [p, q]
    if where == 'base':
        B = c.record('B', fx, ns={'p': mk(p), 'q': mk(q)})
        A = c.record('A', fy, (B,))
    elif where == 'grandparent':
        G = c.record('G', fx, ns={'p': mk(p)})
        B = c.record('B', fy, (G,), ns={'q': mk(q)})
        A = c.record('A', {'w': int}, (B,))
    elif where == 'mixin':
        M = type('M', (), {'p': mk(p)})
        A = c.record('A', fx, (c.R.RecordBase, M), ns={'q': mk(q)})
        B = None
    elif where == 'two bases':
        B = c.record('B', fx, ns={'p': mk(p)})
        B2 = c.record('B2', {'u': int}, ns={'q': mk(q)})
        A = c.record('A', fy, (B, B2), ns={'r': mk(r)})
        live = [p, q, r]
    elif where == 'override':
        B = c.record('B', fx, ns={'p': mk(p), 'q': mk(q)})
        A = c.record('A', fy, (B,), ns={'q': mk(r)})
        live = [p, r]
    else:
        B = c.record('B', fx, ns={'p': mk(p), 'q': mk(q)})
        A = c.record('A', fy, (B,), ns={'q': classmethod(lambda cls, v: r(v))})
        live = [p]
    v = c.obj('v', ('V0', 'W'))
    o = c.attempt(A.parse, v)
    c.check('bound to the class that parses', all(k is A for k in seen))
    c.check('unregistered ones do not run', all(not f.calls for f in (p, q, r) if f not in live))
    outcome(c, R, A, live, v, o)
    n = len(p.calls)
    if B is not None and where in ('base', 'override'):
        c.attempt(B.parse, v)
        c.check('the base keeps its own', len(p.calls) == n + 1 and seen[-1] is B)


@UNITS.unit(reach=('none', 'one', 'several'), weight=4)
def no_record_state(c):
    """one parse does not depend on earlier ones"""
    R = c.R
    ps = stubs(c, 2, ('obj', 'raise'), ('V0',))
    A = c.record('A', {'x': int, 'y': int}, ns={'a': as_parser(R, ps[0], 'class'), 'b': as_parser(R, ps[1], 'static')})
    for i in range(2):
        v = c.obj('v%d' % i, ('V0', 'W'))
        o = c.attempt(A.parse, v)
        c.check('all tried', all(len(p.calls) == i + 1 for p in ps))
        good = [p.calls[-1][3] for p in ps if p.calls[-1][2] != 'raise']
        if len(good) == 1:
            c.check('result', o.ok and c.same(o.value, good[0]))
            c.reach('one')
        elif good:
            c.check('TypeError', o.raised(TypeError) and not o.raised(R.record.ParseFailure))
            c.reach('several')
        else:
            c.check('ParseFailure', o.raised(R.record.ParseFailure))
            c.reach('none')


@UNITS.unit(reach=('none', 'one', 'several'), weight=5)
def builtin(c):
    """the built-in parsers count like any other: mapping, instance and JSON"""
    R = c.R
    q = c.stub('q', ('none', 'raise'), ('V0',), (Plain, RecursionError))
    frozen = c.choice('frozen', (False, True))
    A = c.record('A', {'x': R.Annotated[int, R.check], 'y': Dflt(int, 0)}, ns={'q': as_parser(R, q, 'class')}, frozen=frozen)
    a = c.obj('a', ('int', 'str'))
    kind = c.choice('kind', ('dict', 'bad dict', 'json', 'bad json', 'bytes json', 'object', 'bad object', 'both'))
    ok = c.fork(c.is_inst(a, int))

    class Obj(dict):
        pass
    if kind == 'dict':
        v, n = {'x': a}, int(ok)
    elif kind == 'bad dict':
        v, n = {'x': a, 'w': 1}, 0
    elif kind == 'json':
        v, n, a = '{"x": 3, "y": 4}', 1, 3
    elif kind == 'bad json':
        v, n = '{"x": 3,}', 0
    elif kind == 'bytes json':
        v, n, a = b'{"x": 3}', 1, 3
    elif kind == 'object':
        v, n = type('O', (), {})(), int(ok)
        v.x = a
    elif kind == 'bad object':
        v, n = type('O', (), {})(), 0
        v.y = a
    else:
        v = Obj(x=a)
        v.x = a
        n = 2 * int(ok)
    o = c.attempt(A.parse, v)
    q_ok = q.calls and q.calls[0][2] != 'raise'
    if n == 1 and not q_ok:
        c.check('a record with the parsed value', o.ok and type(o.value) is A and c.eq(o.value.x, a))
    outcome(c, R, A, [q], v, o, n)


@UNITS.unit(reach=('one',))
def every_exception(c):
    """no exception of a parser escapes, whatever its type"""
    R = c.R
    e = c.choice('exc', (Plain, TypeError, KeyError, RecursionError, StopIteration, AttributeError, AssertionError, OSError, MemoryError, GeneratorExit, TwoArgs, Odd, UserWarning, UnicodeError))
    if not issubclass(e, Exception):
        c.reach('one')
        return
    good = c.obj('good', V)
    order = c.choice('order', (0, 1))

    def bad(cls, v):
        raise (e('a', 'b') if e is TwoArgs else e())
    fs = [('a', R.parser(classmethod(bad))), ('b', R.parser(classmethod(lambda cls, v: good)))]
    ns = {'ab'[i ^ order]: f for i, (_, f) in enumerate(fs)}
    A = c.record('A', {'x': int, 'y': int}, ns=ns)
    o = c.attempt(A.parse, c.obj('v', ('V0',)))
    c.check('the result of the other one', o.ok and c.same(o.value, good))
    c.reach('one')


@UNITS.unit(reach=('none', 'one'), weight=2)
def selectable_parsers(c):
    """a selectable factory can be a parser; it fails if the record cannot be built"""
    R = c.R
    p = c.stub('p', ('obj', 'raise'), ('V0', 'int'), (Plain,))

    @R.parser
    @R.SelectableFactory
    @classmethod
    def from_it(cls, v):
        return {'x': p(v)}
    A = c.record('A', {'x': R.Annotated[U.V0, R.check], 'y': Dflt(int, 1)}, ns={'from_it': from_it})
    v = c.obj('v', ('W',))
    o = c.attempt(A.parse, v)
    k = p.calls[0]
    if k[2] != 'raise' and c.fork(c.is_inst(k[3], U.V0)):
        c.check('record', o.ok and type(o.value) is A and c.same(o.value.x, k[3]) and o.value.y == 1)
        c.reach('one')
    else:
        c.check('ParseFailure', o.raised(R.record.ParseFailure))
        c.reach('none')


def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    ps = [c.stub('p%d' % i, ('obj', 'raise'), ('V0',), (Plain,)) for i in range(2)]
    ns = {'par%d' % i: as_parser(R, p, 'class') for i, p in enumerate(ps)}
    S = shaped(c, {'x': annot(R, U.V0, R.check), 'y': U.V0}, ns=ns)
    if c.P['sub']:
        S.cls = c.record('Sub', {'more': Dflt(int, 0)}, (S.cls,), frozen=S.frozen)
    v = c.obj('v', ('V0', 'NoneType'))
    outcome(c, R, S.cls, ps, v, c.attempt(S.cls.parse, v))


for sub in (False, True):
    UNITS.add('shapes/%s' % ('sub' if sub else 'own'), shapes, sub=sub, reach=('none', 'one', 'several'), weight=6)


class FalsyError(Exception):
    """an exception that is false, equal to everything and has no message"""

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


@UNITS.unit(reach=('none', 'one', 'several'), weight=4)
def odd_results(c):
    """whatever the results, the argument and the exceptions say of themselves"""
    R = c.R
    _, v = odd(c, 'v')
    outs = [c.choice('p%d' % i, ('raise', 'nan', 'always equal falsy', '== raises', 'no truth value', 'NotImplemented', 'same', 'shared')) for i in range(2)]
    exc = c.choice('exc', (FalsyError, TypeError))
    shared = ODD['== has no truth value'][0]()
    res = []

    def mk(i):
        def p(x):
            if x is not v:
                raise ZeroDivisionError
            if outs[i] == 'raise':
                raise exc()
            r = v if outs[i] == 'same' else shared if outs[i] == 'shared' else ODD[outs[i]][0]()
            res.append(r)
            return r
        p.__name__ = 'p%d' % i
        return R.parser(staticmethod(p))
    A = c.record('A', {'x': object, 'y': object}, ns={'p0': mk(0), 'p1': mk(1)}, unary_parse=True)
    o = c.attempt(lambda: A.parse(v) if c.choice('how', ('parse', 'call')) == 'parse' else A(v))
    n = sum(x != 'raise' for x in outs)
    if n == 0:
        c.check('refused', o.raised(TypeError))
        c.reach('none')
    elif n == 1:
        c.check('the result', o.ok and o.value is res[0])
        c.reach('one')
    else:
        c.check('ambiguous', o.raised(TypeError) and not isinstance(o.exc, R.record.ParseFailure))
        c.reach('several')
