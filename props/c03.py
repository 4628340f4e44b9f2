"""C03: coercers run in order on the original argument; the first good result wins."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = 'up to 4 coercers with arbitrary results or exceptions, 13 declared types, both checking styles; tokens in the annotation or added in pre_bind; up to 2 constructions in a row'
OUTSIDE = 'coercers that raise BaseException; more than 4 coercers'

# field type -> argument types and coercer result types that make the branches interesting
TYPES = {
    'V1': ('V0', 'V1', 'V2', 'W', 'NoneType'), 'int': ('int', 'bool', 'ISub', 'str', 'NoneType'), 'str': ('str', 'SSub', 'int', 'NoneType'),
    'bool': ('bool', 'int', 'str', 'NoneType'), 'None': ('NoneType', 'int', 'V0'), 'Ellipsis': ('ellipsis', 'NoneType', 'int'),
    'Callable': ('function', 'type', 'NoneType', 'int'), 'list': ('list', 'tuple', 'NoneType', 'int'), 'object': ('int', 'V0'),
    'Any': ('int', 'V0'), 'Integral': ('int', 'bool', 'ISub', 'str', 'V0'), 'Virt': ('W', 'V0', 'int'), 'NewType': ('int', 'bool', 'V0'),
}
EXCS = (TypeError, ValueError, KeyError, Plain, TwoArgs, AttributeError, AssertionError, StopIteration, RecursionError, OSError, SyntaxError, NotImplementedError,
        ZeroDivisionError, NameError, ImportError, MemoryError, EOFError)
CUSTOM = (TypeError, Plain)


def run_once(c, A, h, strict, fs, types, tag):
    v = c.obj('v' + tag, types)
    for f in fs:
        del f.calls[:]
    o = c.attempt(A, x=v)
    if c.fork(h.accepts(c, v, strict)):
        c.check('an argument of the type is stored as it is', o.ok and c.same(o.value.x, v))
        c.check('no coercer runs on it', all(not f.calls for f in fs))
        c.reach('uncoerced' + tag)
        return
    done = False
    for f in fs:
        if done:
            c.check('coercers after the first good one do not run', not f.calls)
            continue
        c.check('the coercer runs exactly once', len(f.calls) == 1)
        a, k, kind, val = f.calls[0]
        c.check('the coercer gets the original argument', len(a) == 1 and not k and c.same(a[0], v))
        if kind == 'raise':
            continue
        if c.fork(h.accepts(c, val, strict)):
            c.check('the first good result is stored', o.ok and c.same(o.value.x, val))
            done = True
    if not done:
        c.check('construction raises if no coercer gives a good result', o.raised(Exception))
        c.reach('all failed' + tag)
    else:
        c.reach('coerced' + tag)


def coerce(c):
    R = c.R
    h = BY_HINT[c.P['hint']]
    strict = c.choice('strict', (False, True)) if h.exact is not None else False
    types = TYPES[c.P['hint']]
    fs = [c.stub('f%d' % i, ('obj', 'raise', 'same'), types, CUSTOM if c.P['n'] > 1 else EXCS) for i in range(c.P['n'])]
    tok = R.check_strict if strict else R.check
    hint = h.make(R)
    how = c.P['how']
    if how == 'tokens':
        A = c.record('A', {'x': annot(R, hint, tok, *[R.CallCoercion(f) for f in fs])})
    elif how == 'first':
        A = c.record('A', {'x': annot(R, hint, *[R.CallCoercion(f) for f in fs], tok)})
    elif how == 'default':
        A = c.record('A', {'x': annot(R, hint, *[R.CallCoercion(f) for f in fs])}, default_type_check=tok)
    else:
        def pre_bind(cls):
            super(scratch_cls(cls), cls).pre_bind()
            for f in fs:
                cls.x.add_coercer(f)
        A = c.record('A', {'x': annot(R, hint, tok)}, ns={'pre_bind': classmethod(pre_bind)})
    for t in c.P['rounds']:
        run_once(c, A, h, strict, fs, types, t)


def scratch_cls(cls):
    return cls


for name in TYPES:
    UNITS.add('one/' + name, coerce, hint=name, n=1, how='tokens', rounds=('',),
              reach=('uncoerced', 'coerced', 'all failed') if name not in ('object', 'Any') else ('uncoerced',))
for name in ('V1', 'int', 'None', 'Callable', 'bool', 'Integral', 'str'):
    UNITS.add('two/' + name, coerce, hint=name, n=2, how='first', rounds=('',), reach=('uncoerced', 'coerced', 'all failed'), weight=2)
for how in ('default', 'pre_bind'):
    UNITS.add('two/V1/' + how, coerce, hint='V1', n=2, how=how, rounds=('',), reach=('uncoerced', 'coerced', 'all failed'), weight=2)
    UNITS.add('two/Ellipsis/' + how, coerce, hint='Ellipsis', n=2, how=how, rounds=('',), reach=('uncoerced', 'coerced', 'all failed'), weight=2)
UNITS.add('three/Virt', coerce, hint='Virt', n=3, how='tokens', rounds=('',), reach=('uncoerced', 'coerced', 'all failed'), weight=5)
UNITS.add('three/NewType', coerce, hint='NewType', n=3, how='tokens', rounds=('',), tier='thorough', weight=5)
UNITS.add('four/Virt', coerce, hint='Virt', n=4, how='tokens', rounds=('',), tier='thorough', weight=9)


def history(c):
    """a second construction behaves as if it were the first"""
    R = c.R
    h = BY_HINT[c.P['hint']]
    types = TYPES[c.P['hint']]
    strict = c.choice('strict', (False, True))
    n = [0]

    class Log:
        def __init__(self, name):
            self.name, self.calls = name, []
            self.__name__ = name

        def __call__(self, *a, **k):
            n[0] += 1
            kind = c.choice('%s.%d' % (self.name, n[0]), ('obj', 'raise'))
            val = c.obj('%s.%d.v' % (self.name, n[0]), types) if kind == 'obj' else None
            self.calls.append((a, k, kind, val))
            if kind == 'raise':
                raise Plain('stub')
            return val
    fs = [Log('f'), Log('g')]
    A = c.record('A', {'x': annot(R, h.make(R), R.check_strict if strict else R.check, *[R.CallCoercion(f) for f in fs])})
    for t in ('', '2'):
        run_once(c, A, h, strict, fs, types, t)


UNITS.add('history/V1', history, hint='V1', reach=('coerced2', 'uncoerced2', 'all failed2'), weight=6, tier='thorough')
UNITS.add('history/NewType', history, hint='NewType', reach=('coerced2', 'uncoerced2', 'all failed2'), weight=6)


@UNITS.unit(reach=('members', 'refused'))
def invariant_inside(c):
    """coercers on element types: no element that its type check would refuse is ever stored"""
    R = c.R
    f = DetFn(c, 'f', ('obj', 'raise', 'same'), ('V0', 'V1', 'int'))
    A = c.record('A', {'x': R.Annotated[List[R.Annotated[U.V0, R.check, R.CallCoercion(f)]], R.check]})
    xs = [c.obj('a', ('V0', 'V1', 'int')), c.obj('b', ('V0', 'int'))]
    o = c.attempt(A, x=xs)
    if o.ok:
        c.check('every element stored passes the check', c.And(*[c.is_inst(e, U.V0) for e in o.value.x]))
        c.reach('members')
    else:
        c.reach('refused')


@UNITS.unit(reach=('uncoerced', 'coerced', 'all failed'), weight=6)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    h = BY_HINT['V1']
    types = ('V0', 'V1')
    fs = [c.stub('f%d' % i, ('obj', 'raise'), types, (Plain,)) for i in range(2)]
    S = shaped(c, {'x': annot(R, U.V1, R.check, *[R.CallCoercion(f) for f in fs]), 'y': Dflt(annot(R, str, R.check, R.CallCoercion(str)), None)})
    run_once(c, S.cls, h, False, fs, types, '')


@UNITS.unit(reach=('wins', 'kept'), weight=3)
def odd_results(c):
    """a result of the declared type is a good one, whatever else can be said of it"""
    R = c.R
    kind, r = odd(c, 'r')
    first = c.choice('first', ('raises', 'bad', None))
    seen = []

    def f(v):
        seen.append('f')
        if first == 'raises':
            raise Plain('no')
        return U.W(0)

    def g(v):
        seen.append('g')
        return r

    def h(v):
        seen.append('h')
        return r
    T = type(r)
    strict = c.choice('strict', (False, True))
    toks = [R.CallCoercion(g), R.CallCoercion(h)]
    if first:
        toks = [R.CallCoercion(f)] + toks
    A = c.record('A', {'x': annot(R, T, R.check_strict if strict else R.check, *toks)})
    v = c.obj('v', ('V0', 'W'))
    given = c.choice('given', ('other', 'same'))
    o = c.attempt(A, x=v if given == 'other' else r)
    if given == 'same':
        c.check('a value of the type is kept', o.ok and o.value.x is r and not seen)
        c.reach('kept')
        return
    c.check('the first result of the type wins', o.ok and o.value.x is r)
    c.check('and ends it', seen == (['f', 'g'] if first else ['g']))
    c.reach('wins')


@UNITS.unit(reach=('wins', 'refused'))
def in_place(c):
    """a coercer may make its argument pass and return it"""
    R = c.R

    class X:
        pass

    class Y:
        pass

    class Z(X):
        pass
    st = c.choice('style', ('check', 'strict'))
    to = c.choice('becomes', ('X', 'Z', 'Y'))
    first = c.choice('first', (None, 'raises', 'leaves it'))
    seen = []

    def g(v):
        seen.append('g')
        if first == 'raises':
            raise Plain('no')
        return v

    def f(v):
        seen.append('f')
        v.__class__ = {'X': X, 'Y': Y, 'Z': Z}[to]
        return v

    def h(v):
        seen.append('h')
        raise Plain('no')
    A = c.record('A', {'x': annot(R, X, style(R, st), *([R.CallCoercion(g)] if first else []), R.CallCoercion(f), R.CallCoercion(h))})
    v = Y()
    o = c.attempt(A, x=v)
    if to == 'X' or (to == 'Z' and st == 'check'):
        c.check('what it made of its argument is stored', o.ok and o.value.x is v)
        c.check('in order, and no other runs', seen == (['g'] if first else []) + ['f'])
        c.reach('wins')
    else:
        c.check('refused', not o.ok and seen == (['g'] if first else []) + ['f', 'h'])
        c.reach('refused')
    w = Y()
    n = len(seen)
    o2 = c.attempt(A, x=w)
    c.check('and again', o2.ok == o.ok and len(seen) == 2 * n and (not o2.ok or o2.value.x is w))


@UNITS.unit(reach=('wins', 'kept', 'refused'), weight=3)
def listed_again(c):
    """a coercer listed twice has two turns"""
    R = c.R
    pattern = c.choice('listed', ('aa', 'aba', 'aab', 'baa', 'abab', 'abba', 'bab'))
    tokens = c.choice('tokens', ('same', 'equal', 'compose'))
    seen, outs = [], []
    good, other = object.__new__(U.V1), object.__new__(U.V0)

    def turn(name, v):
        i = len(seen)
        seen.append((name, v))
        outs.append(c.choice('turn %d' % i, ('passes', 'raises', 'other') if i == 0 else ('passes', 'raises')))
        if outs[i] == 'raises':
            raise Plain('no')
        return good if outs[i] == 'passes' else other

    def a(v, *_):
        return turn('a', v)

    def b(v, *_):
        return turn('b', v)
    fs = {'a': a, 'b': b}
    once = {n: R.CallCoercion(f) for n, f in fs.items()}
    mk = {'same': lambda n: once[n], 'equal': lambda n: R.CallCoercion(fs[n], 1), 'compose': lambda n: R.ComposeCoercer(once[n])}[tokens]
    A = c.record('A', {'x': annot(R, U.V1, R.check, *[mk(n) for n in pattern])})
    v = c.obj('v', ('V0', 'int', 'V1'))
    if c.fork(c.is_inst(v, U.V1)):
        o = c.attempt(A, x=v)
        c.check('kept', o.ok and c.same(o.value.x, v) and not seen)
        c.reach('kept')
        return
    o = c.attempt(A, x=v)
    n = len(outs) if 'passes' in outs else len(pattern)
    c.check('each has its turns, in order', ''.join(x for x, _ in seen) == pattern[:n])
    c.check('on the original argument', c.all_same([x for _, x in seen], [v] * n))
    if 'passes' in outs:
        c.check('the first that passes', o.ok and o.value.x is good)
        c.reach('wins')
    else:
        c.check('refused', not o.ok)
        c.reach('refused')
