"""C24: call-through coercers call their target exactly as declared."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('arguments of every type of the universe (lists, tuples, generators and dictionaries of up to 3 arbitrary elements for the unpacking forms); 0-2 extra positional and 0-2 extra keyword arguments; targets that construct, raise or produce another type; '
          'type constraints that are a type, a tuple of types, empty, a fixed sequence of up to 3 or a repeated type; maps of up to 3 entries; compositions of up to 3 coercers with arbitrary outcomes; each coercion run twice')
OUTSIDE = 'targets whose constructor depends on global state; argument objects that lie about their own type'


def targets(c, raises=True):
    """A class that records how it is called, and does something arbitrary."""
    calls = []

    class T:
        what = 'build'

        def __new__(cls, *a, **k):
            calls.append((a, k))
            if T.what == 'raise':
                raise Plain('target')
            if T.what == 'other':
                return 17
            if T.what == 'sub':
                return object.__new__(S)
            return object.__new__(cls)

        def __init__(self, *a, **k):
            pass

        @classmethod
        def alt(cls, *a, **k):
            calls.append((cls,) + ((a, k),))
            if T.what == 'raise':
                raise Plain('target')
            return 17 if T.what == 'other' else object.__new__(S if T.what == 'sub' else cls)

        @staticmethod
        def free(*a, **k):
            calls.append(('free',) + ((a, k),))
            return object.__new__(T)

    class S(T):
        pass
    T.what = c.choice('target does', c.P.get('does', ('build', 'raise', 'other', 'sub')))
    return T, S, calls


def extras(c):
    """extra arguments given at declaration"""
    n = c.choice('extras', c.P.get('extras', (0, 1, 2, 3)))
    a = (c.obj('ex0', ('V0', 'int')), c.obj('ex1', ('V0', 'NoneType')))[:n % 2 + (n == 3)] if n else ()
    k = {'p': c.obj('exp', ('V0', 'NoneType'))} if n >= 2 else {}
    return a, k


def called(c, got, args, kw, label):
    a, k = got
    c.check(label + ': positional arguments', c.all_same(a, args))
    c.check(label + ': keyword arguments', sorted(k) == sorted(kw) and c.And(*[c.same(k[n], kw[n]) for n in kw]))


def stored(c, o, T, S, strict, label, exc=None):
    """what becomes of the target's result"""
    if T.what == 'raise':
        c.check(label + ': the error of the target', o.raised(Plain))
    elif T.what == 'other' or (T.what == 'sub' and strict):
        c.check(label + ': a wrong type is refused', o.raised(TypeError))
    else:
        c.check(label + ': the new object is stored', o.ok and type(o.value.x) is (S if T.what == 'sub' else T))
    c.reach('called')


def refused(c, o, calls, label):
    c.check(label + ': refused', o.raised())
    c.check(label + ': the target is not called', not calls)
    c.reach('refused')


def run(c, T, token, v, R):
    strict = c.choice('strict', (False, True)) if c.P.get('strict', True) else False
    A = c.record('A', {'n': Dflt(object, 0), 'x': annot(R, T, R.check_strict if strict else R.check, token)}, unary_parse=False)
    if callable(v):
        c.attempt(lambda: A(x=v()))
        n = 2
    else:
        n = 1
    return strict, c.attempt(lambda: A(x=v() if callable(v) else v))


def twice(c, calls):
    """how many calls a single coercion made, when it was run twice"""
    c.check('called once each time', len(calls) in (0, 2))
    return calls[1:]


CONSTRAINTS = ('none', 'int', 'tuple', 'V1', 'empty', 'nested', 'abstract')


def constraint(name):
    """(constraint, predicate)"""
    if name == 'int':
        return int, lambda c, v: c.is_inst(v, int)
    if name == 'tuple':
        return (str, U.V1), lambda c, v: c.Or(c.is_inst(v, str), c.is_inst(v, U.V1))
    if name == 'V1':
        return U.V1, lambda c, v: c.is_inst(v, U.V1)
    if name == 'empty':
        return (), lambda c, v: False
    if name == 'nested':
        return (bytes, (bool, type(None))), lambda c, v: c.Or(c.is_inst(v, bytes), c.is_inst(v, bool), c.is_inst(v, type(None)))
    if name == 'abstract':
        return numbers.Number, lambda c, v: c.is_inst(v, numbers.Number)
    if name == 'str':
        return str, lambda c, v: c.is_inst(v, str)


def loose(c):
    R = c.R
    T, S, calls = targets(c)
    a, k = extras(c)
    con = c.choice('constraint', c.P.get('constraints', CONSTRAINTS))
    if con == 'none':
        tok = R.Loose(*a, **k)
        fits = lambda c, v: True
    else:
        ty, fits = constraint(con)
        tok = R.Loose.constrain(ty)(*a, **k)
    v = c.obj('v', c.P.get('types', ALL))
    strict, o = run(c, T, tok, lambda: v, R)
    calls = twice(c, calls)
    if not c.fork(fits(c, v)):
        refused(c, o, calls, 'Loose')
        return
    c.check('called', len(calls) == 1)
    called(c, calls[0], (v,) + a, k, 'Loose')
    stored(c, o, T, S, strict, 'Loose')


UNITS.add('Loose', loose, extras=(0, 3), reach=('called', 'refused'), weight=6)
UNITS.add('Loose extras', loose, constraints=('none', 'tuple'), types=('V1', 'int', 'list', 'str'), does=('build', 'raise'), reach=('called', 'refused'), weight=4)


def elements(c, n):
    return [c.obj('e%d' % i, c.P.get('types', ('V1', 'int', 'bool', 'str', 'NoneType'))) for i in range(n)]


def loose_unpack(c):
    R = c.R
    T, S, calls = targets(c)
    a, k = extras(c)
    n = c.choice('length', range(c.P.get('maxlen', 2) + 1))
    es = elements(c, n)
    shape = c.choice('shape', c.P.get('shapes', ('list', 'tuple', 'generator', 'iterator', 'deque')))
    make = {'list': lambda: list(es), 'tuple': lambda: tuple(es), 'generator': lambda: (e for e in es), 'iterator': lambda: iter(es),
            'deque': lambda: collections.deque(es)}[shape]
    con = c.choice('constraint', c.P['constraints'])
    if con == 'none':
        tok, fits = R.LooseUnpack(*a, **k), True
    elif con and con[-1] == '...':
        ty, f = constraint(con[0])
        tok, fits = R.LooseUnpack.constrain(ty, ...)(*a, **k), c.And(*[f(c, e) for e in es])
    else:
        cs = [constraint(x) for x in con]
        tok = R.LooseUnpack.constrain(*[t for t, _ in cs])(*a, **k)
        fits = len(cs) == n and c.And(*[f(c, e) for (_, f), e in zip(cs, es)])
    strict, o = run(c, T, tok, make, R)
    calls = twice(c, calls)
    if not c.fork(fits):
        refused(c, o, calls, 'LooseUnpack')
        return
    c.check('called', len(calls) == 1)
    called(c, calls[0], tuple(es) + a, k, 'LooseUnpack')
    stored(c, o, T, S, strict, 'LooseUnpack')


UNITS.add('LooseUnpack', loose_unpack, constraints=('none',), extras=(0, 1, 3), does=('build', 'raise', 'sub'), types=('V1', 'int'), reach=('called',), weight=5)
UNITS.add('LooseUnpack constrained', loose_unpack, constraints=(('int', 'tuple'), ('tuple', '...'), (), ('V1',), ('nested', '...'), ('int', 'int', 'str'), ('empty', '...')), extras=(0, 3), shapes=('list', 'generator'),
          does=('build',), maxlen=3, strict=False, reach=('called', 'refused'), weight=25)
UNITS.add('LooseUnpack more', loose_unpack, constraints=('none', ('int', 'tuple'), ('tuple', '...'), (), ('V1',), ('nested', 'abstract'), ('abstract', '...'), ('int', 'int', 'str')), types=('V1', 'int', 'bool', 'str', 'NoneType', 'list'),
          maxlen=3, reach=('called', 'refused'), weight=90, tier='thorough')


@UNITS.unit(reach=('done',), weight=4)
def not_iterable(c):
    """what cannot be unpacked is refused, without a call"""
    R = c.R
    T, S, calls = targets(c)
    which = c.choice('coercer', ('LooseUnpack', 'LooseUnpack constrained', 'LooseUnpackMap', 'LooseUnpackMap constrained'))
    mk = getattr(R, which.split()[0])
    tok = mk() if ' ' not in which else mk.constrain(object, ...)() if 'Map' not in which else mk.constrain(x=object)()
    v = c.obj('v', ('V0', 'W', 'int', 'bool', 'NoneType', 'ellipsis', 'function', 'float') + (('list', 'str', 'tuple') if 'Map' in which else ()))
    if 'Map' in which:
        c.assume(c.Or(c.Not(c.is_inst(v, (list, str, tuple))), c.truth(v)))
    strict, o = run(c, T, tok, lambda: v, R)
    refused(c, o, calls, which)
    c.reach('done')


def loose_unpack_map(c):
    R = c.R
    T, S, calls = targets(c)
    a, k = extras(c)
    keys = c.choice('keys', c.P.get('keys', ((), ('x',), ('x', 'y'), ('y', 'z'), ('p',))))
    es = elements(c, len(keys))
    d = dict(zip(keys, es))
    shape = c.choice('shape', ('dict', 'OrderedDict', 'proxy'))
    import types
    make = {'dict': lambda: d, 'OrderedDict': lambda: collections.OrderedDict(d), 'proxy': lambda: types.MappingProxyType(d)}[shape]
    con = c.choice('constraint', c.P['constraints'])
    if con == 'none':
        tok, fits = R.LooseUnpackMap(*a, **k), True
    else:
        cs = {n: constraint(x) for n, x in con}
        tok = R.LooseUnpackMap.constrain(**{n: t for n, (t, _) in cs.items()})(*a, **k)
        fits = c.And(*[n in cs and cs[n][1](c, e) for n, e in d.items()])
    strict, o = run(c, T, tok, make, R)
    calls = twice(c, calls)
    if not c.fork(fits) or set(k) & set(d):
        refused(c, o, calls, 'LooseUnpackMap')
        return
    c.check('called', len(calls) == 1)
    called(c, calls[0], a, {**d, **k}, 'LooseUnpackMap')
    c.check('the argument is left alone', list(d) == list(keys) and c.all_same(d.values(), es))
    stored(c, o, T, S, strict, 'LooseUnpackMap')


UNITS.add('LooseUnpackMap', loose_unpack_map, constraints=('none',), types=('V1', 'int'), reach=('called', 'refused'), weight=8)
UNITS.add('LooseUnpackMap constrained', loose_unpack_map, constraints=((('x', 'int'), ('y', 'tuple')), (('y', 'nested'), ('z', 'abstract')), (), (('x', 'V1'),), (('x', 'empty'),)), extras=(0, 3), does=('build',), strict=False,
          reach=('called', 'refused'), weight=12)


@UNITS.unit(reach=('done',), weight=1)
def bad_constraints(c):
    """constraints that cannot be used are refused at declaration"""
    R = c.R
    bad = c.choice('bad', (3, 'int', None, [int], (int, 3), List[int], ...))
    c.check('Loose', c.attempt(lambda: R.Loose.constrain(bad)).raised(TypeError))
    c.check('LooseUnpack', c.attempt(lambda: R.LooseUnpack.constrain(int, bad, int)).raised(TypeError))
    c.check('LooseUnpack repeated', c.attempt(lambda: R.LooseUnpack.constrain(bad, ...)).raised(TypeError))
    c.check('LooseUnpackMap', c.attempt(lambda: R.LooseUnpackMap.constrain(x=int, y=bad)).raised(TypeError))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=4)
def constrained_apart(c):
    """constraining does not affect other tokens of the class, nor the class"""
    R = c.R
    T, S, calls = targets(c)
    v = c.obj('v', ('V1', 'int', 'str'))
    which = c.choice('coercer', ('Loose', 'LooseUnpack', 'LooseUnpackMap'))
    cls = getattr(R, which)
    wrap = {'Loose': lambda: v, 'LooseUnpack': lambda: [v], 'LooseUnpackMap': lambda: {'x': v}}[which]
    con = lambda t: cls.constrain(x=t) if 'Map' in which else cls.constrain(t)
    f, g = con(int), con(str)
    ft, gt, plain_ = f(), g(), cls()
    tok, ok = c.choice('which', ((0, int), (1, str), (2, object)))
    tok = (ft, gt, plain_)[tok]
    A = c.record('A', {'x': annot(R, T, R.check, tok)}, unary_parse=False)
    o = c.attempt(lambda: A(x=wrap()))
    if c.fork(c.is_inst(v, ok)):
        c.check('called', len(calls) == 1)
    else:
        c.check('refused', o.raised() and not calls)
    c.reach('done')


def call_coercion(c):
    """CallCoercion and ClassMethodCoercion"""
    R = c.R
    T, S, calls = targets(c)
    a, k = extras(c)
    how = c.choice('how', ('call', 'class method', 'inherited class method', 'static method', 'the class'))
    v = c.obj('v', c.P.get('types', ('V0', 'int', 'NoneType', 'list', 'str', 'function')))
    if how == 'call':
        made = object.__new__(S if T.what == 'sub' else T)

        def f(*a, **k):
            calls.append((a, k))
            if T.what == 'raise':
                raise Plain('target')
            return 17 if T.what == 'other' else made
        tok = R.CallCoercion(f, *a, **k)
    elif how == 'the class':
        tok = R.CallCoercion(T, *a, **k)
    elif how == 'static method':
        T.what = 'build'
        tok = R.ClassMethodCoercion('free', *a, **k)
    else:
        tok = R.ClassMethodCoercion('alt', *a, **k)
    target_ = S if how == 'inherited class method' else T
    if target_ is S:
        T.what = 'build'
    strict, o = run(c, target_, tok, lambda: v, R)
    calls = twice(c, calls)
    c.check('called', len(calls) == 1)
    got = calls[0]
    if how in ('class method', 'inherited class method'):
        c.check('on the field type', got[0] is target_)
        got = got[1]
    elif how == 'static method':
        got = got[1]
    called(c, got, (v,) + a, k, how)
    if target_ is S:
        c.check('stored', o.ok and type(o.value.x) is S)
        c.reach('called')
    else:
        stored(c, o, T, S, strict, how)
    if how == 'call' and o.ok:
        c.check('the very result', o.value.x is made)


UNITS.add('CallCoercion', call_coercion, reach=('called',), weight=8)
UNITS.add('CallCoercion all types', call_coercion, types=ALL, extras=(0, 3), reach=('called',), weight=30, tier='thorough')


@UNITS.unit(reach=('value', 'factory', 'refused'), weight=8)
def map_coercion(c):
    R = c.R
    T, S, calls = targets(c, False)
    n, m = c.choice('sizes', ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)))
    kt = ('int', 'bool', 'str', 'NoneType', 'V0')
    vk = [c.obj('vk%d' % i, kt) for i in range(n)]
    fk = [c.obj('fk%d' % i, kt) for i in range(m)]
    for ks in (vk, fk):
        for i in range(len(ks)):
            for j in range(i):
                c.assume(c.Not(c.eq(ks[i], ks[j])))
    T.what = 'build'
    vals = [object.__new__(T) for _ in vk]
    made = []

    def fac(i):
        def f():
            made.append((i, T()))
            return made[-1][1]
        return f
    value_map, factory_map = dict(zip(vk, vals)), {x: fac(i) for i, x in enumerate(fk)}
    form = c.choice('given', ('positional', 'keyword', 'only'))
    if form == 'positional':
        tok = R.MapCoercion(value_map, factory_map)
    elif form == 'keyword':
        tok = R.MapCoercion(factory_map=factory_map, value_map=value_map)
    else:
        c.assume(not (n and m))
        tok = R.MapCoercion(value_map) if n else R.MapCoercion(factory_map=factory_map) if m else R.MapCoercion()
    v = c.obj('v', kt)
    A = c.record('A', {'x': annot(R, T, R.check, tok)}, unary_parse=False)
    o = c.attempt(lambda: A(x=v))
    for key, val in zip(vk, vals):
        if c.fork(c.eq(key, v)):
            c.check('the value of the key', o.ok and o.value.x is val and not made)
            c.reach('value')
            return
    for i, key in enumerate(fk):
        if c.fork(c.eq(key, v)):
            c.check('a product of the factory of the key', o.ok and len(made) == 1 and made[0][0] == i and o.value.x is made[0][1])
            o2 = c.attempt(lambda: A(x=v))
            c.check('a new one each time', o2.ok and len(made) == 2 and o2.value.x is made[1][1])
            c.reach('factory')
            return
    c.check('others are refused', o.raised(TypeError) and not made)
    c.reach('refused')


@UNITS.unit(reach=('done',), weight=2)
def map_results(c):
    """falsy values count, unhashable arguments and wrong results are refused, factories may raise"""
    R = c.R
    k, v = c.obj('k', ('int', 'str', 'V0')), c.obj('v', ('int', 'str', 'V0'))
    val = c.obj('val', ('NoneType', 'bool', 'bytes', 'float'))
    B = c.record('B', {'x': annot(R, bool, R.check, R.MapCoercion({k: val}, {k: lambda: True}))}, unary_parse=False)
    o = c.attempt(lambda: B(x=v))
    if c.fork(c.eq(k, v)):
        if c.fork(c.is_type(val, bool)):
            c.check('the value, even if falsy', o.ok and c.same(o.value.x, val))
        else:
            c.check('a value of a wrong type is refused', o.raised(TypeError))
    else:
        c.check('refused', o.raised(TypeError))
    c.check('unhashable', c.attempt(lambda: B(x=[1])).raised(TypeError))
    c.reach('done')


@UNITS.unit(reach=('value', 'factory'), weight=4)
def map_values(c):
    """whatever a key stands for is what is stored"""
    R = c.R
    kind = c.choice('kind', ('NoneType', 'ellipsis', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'type', 'V0'))
    val = c.obj('val', (kind,))
    hint = {'NoneType': None, 'ellipsis': type(...)}.get(kind, U.BY_NAME[kind].cls)
    key = c.choice('key', ('k', ('k', 1), frozenset(), b'')) if kind not in ('str', 'bytes', 'tuple') else 3
    by_factory = c.choice('by', ('value', 'factory')) == 'factory'
    made = []
    A = c.record('A', {'x': annot(R, hint, R.check, R.MapCoercion({} if by_factory else {key: val}, {key: lambda: (made.append(1), val)[1]}))}, unary_parse=False)
    for i in range(2):
        o = c.attempt(lambda: A(x=key))
        c.check('stored', o.ok and c.same(o.value.x, val))
        c.check('factory', len(made) == (i + 1 if by_factory else 0))
    c.reach('factory' if by_factory else 'value')


@UNITS.unit(reach=('called', 'refused'), weight=5)
def falsish(c):
    R = c.R
    T, S, calls = targets(c)
    a, k = extras(c)
    v = c.obj('v', ALL)
    strict, o = run(c, T, R.Falsish(*a, **k), lambda: v, R)
    calls = twice(c, calls)
    if c.fork(c.truth(v)):
        refused(c, o, calls, 'Falsish')
        return
    c.check('called', len(calls) == 1)
    called(c, calls[0], a, k, 'Falsish')
    stored(c, o, T, S, strict, 'Falsish')


def compose(c):
    """ComposeCoercer: last to first, each with what the one after it gave"""
    R = c.R
    n = c.choice('inner', c.P.get('inner', (0, 1, 2, 3)))
    v = c.obj('v', ('V0', 'int'))
    order = []
    fs = [DetFn(c, 'f%d' % i, kinds=('same', 'obj', 'raise'), types=('NoneType', 'W') if n > 1 else ('V0', 'W', 'NoneType', 'bool'), excs=(TypeError, Plain)) for i in range(n)]

    def mk(i):
        def f(x, *a, **k):
            order.append((i, x, a, k))
            return fs[i](x)
        return f
    strict = c.choice('strict', (False, True))
    hint = annot(R, U.W, style(R, 'strict' if strict else 'check'), R.ComposeCoercer(*[R.CallCoercion(mk(i), i, k=i) for i in range(n)]))
    A = c.record('A', {'x': hint}, unary_parse=False)
    o = c.attempt(lambda: A(x=v))
    exp, cur, exc = [], v, None
    for i in reversed(range(n)):
        exp.append((i, cur))
        kind, r = fs[i].ask(cur)
        if kind == 'raise':
            exc = r
            break
        cur = r
    c.check('called in order', len(order) == len(exp) and c.And(*[g[0] == e[0] and g[2] == (e[0],) and g[3] == {'k': e[0]} and c.same(g[1], e[1]) for g, e in zip(order, exp)]))
    if exc is not None:
        c.check('the error of the inner coercer', o.raised(exc))
        c.reach('raised')
    elif c.fork(c.is_inst(cur, U.W)):
        c.check('the last result is stored', o.ok and c.same(o.value.x, cur))
        c.reach('stored')
    else:
        c.check('a wrong type is refused', o.raised(TypeError))


UNITS.add('ComposeCoercer', compose, inner=(0, 1, 2), reach=('raised', 'stored'), weight=5)
UNITS.add('ComposeCoercer of three', compose, inner=(3,), reach=('raised', 'stored'), weight=30, tier='thorough')


@UNITS.unit(reach=('done',), weight=5)
def compose_tokens(c):
    """compositions of tokens that are classes, that depend on the field type, and of compositions"""
    R = c.R
    T, S, calls = targets(c)
    T.what = 'build'
    v = c.obj('v', ('V0', 'int', 'str'))
    order = []

    def f(x):
        order.append(x)
        return (x, x)
    form = c.choice('form', ('class', 'unpack', 'nested', 'method', 'map'))
    if form == 'class':
        tok, exp = R.ComposeCoercer(R.Loose, R.CallCoercion(f)), lambda x: (((x, x),), {})
    elif form == 'unpack':
        tok, exp = R.ComposeCoercer(R.LooseUnpack(1, q=2), R.CallCoercion(f)), lambda x: ((x, x, 1), {'q': 2})
    elif form == 'nested':
        tok, exp = R.ComposeCoercer(R.ComposeCoercer(R.Loose(5), R.CallCoercion(lambda p: p[0])), R.ComposeCoercer(R.CallCoercion(f))), lambda x: ((x, 5), {})
    elif form == 'method':
        tok, exp = R.ComposeCoercer(R.ClassMethodCoercion('alt', 3), R.CallCoercion(f)), None
    else:
        tok, exp = R.ComposeCoercer(R.LooseUnpackMap(z=1), R.CallCoercion(lambda x: (order.append(x), {'w': x})[1])), lambda x: ((), {'w': x, 'z': 1})
    A = c.record('A', {'x': annot(R, T, R.check, tok), 'y': Dflt(annot(R, T, R.check, tok), None)}, unary_parse=False)
    for i in range(2):
        del calls[:], order[:]
        o = c.attempt(lambda: A(x=v))
        c.check('stored', o.ok and type(o.value.x) is T)
        c.check('inner first', len(order) == 1 and c.same(order[0], v) and len(calls) == 1)
        if form == 'method':
            (cls, ((p, three), k)), = calls
            c.check('class method of the field type', cls is T and three == 3 and not k and c.all_same(p, (v, v)))
        else:
            (a, k), (ea, ek) = calls[0], exp(v)
            if form == 'class':
                c.check('arguments', len(a) == 1 and not k and c.all_same(a[0], (v, v)))
            else:
                c.check('arguments', c.all_same(a, ea) and sorted(k) == sorted(ek) and c.And(*[c.same(k[n], ek[n]) for n in ek]))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=5)
def builtin_targets(c):
    """loose coercers on built-in types, in containers, and with several fields sharing a token"""
    R = c.R
    es = [c.obj('e%d' % i, ('V0', 'int', 'str')) for i in range(c.choice('n', (0, 1, 2)))]
    tok = R.Loose()
    A = c.record('A', {'a': annot(R, list, R.check, tok), 'b': annot(R, tuple, R.check, tok), 'd': annot(R, List[annot(R, list, R.check, tok)], R.check),
                       'e': annot(R, Optional[annot(R, tuple, R.check, R.Loose)], R.check)}, unary_parse=False)
    r = A(a=tuple(es), b=list(es), d=[tuple(es), list(es)], e=list(es))
    c.check('list', type(r.a) is list and c.all_same(r.a, es))
    c.check('tuple', type(r.b) is tuple and c.all_same(r.b, es))
    c.check('in a list', len(r.d) == 2 and all(type(x) is list for x in r.d) and c.And(*[c.all_same(x, es) for x in r.d]))
    c.check('in a union', type(r.e) is tuple and c.all_same(r.e, es))
    c.reach('done')


@UNITS.unit(reach=('called', 'refused'), weight=3)
def odd_arguments(c):
    """what the argument says of itself matters to Falsish (its truth) and MapCoercion (its hash and ==) only"""
    R = c.R
    T, S, calls = targets(c)
    T.what = 'build'
    how = c.choice('coercer', ('Loose', 'constrained', 'CallCoercion', 'ClassMethodCoercion', 'Falsish', 'LooseUnpack', 'LooseUnpackMap', 'ComposeCoercer', 'MapCoercion', 'map of other keys'))
    kind, v = odd(c)
    truth, hashable, eq = ODD[kind][1:]
    val = T()
    del calls[:]
    seen = []
    tok = {'Loose': lambda: R.Loose(1), 'constrained': lambda: R.Loose.constrain(object)(1), 'CallCoercion': lambda: R.CallCoercion(T, 1), 'ClassMethodCoercion': lambda: R.ClassMethodCoercion('alt', 1),
           'Falsish': lambda: R.Falsish(1), 'LooseUnpack': lambda: R.LooseUnpack(1), 'LooseUnpackMap': lambda: R.LooseUnpackMap(1),
           'ComposeCoercer': lambda: R.ComposeCoercer(R.Loose(1), R.CallCoercion(lambda x: (seen.append(x), x)[1])),
           'MapCoercion': lambda: R.MapCoercion({v: val} if hashable else None, {'k': T}), 'map of other keys': lambda: R.MapCoercion({'k': val}, {('k', 1): T, 3: T})}[how]()
    A = c.record('A', {'n': Dflt(object, 0), 'x': annot(R, T, R.check, tok)}, unary_parse=False)
    arg = {'LooseUnpack': lambda: [v], 'LooseUnpackMap': lambda: {'k': v}}.get(how, lambda: v)()
    o = c.attempt(lambda: A(x=arg))
    if how == 'MapCoercion' and hashable:
        c.check('found, being the key', o.ok and o.value.x is val)
        c.reach('called')
    elif 'map' in how.lower() and how != 'LooseUnpackMap' or (how == 'Falsish' and truth is not False):
        c.check('refused', o.raised())
        c.check('without a call', not calls)
        c.reach('refused')
    else:
        c.check('called', o.ok and type(o.value.x) is T and len(calls) == 1)
        a, k = calls[0][1] if how == 'ClassMethodCoercion' else calls[0]
        if how == 'LooseUnpackMap':
            c.check('arguments', a == (1,) and list(k) == ['k'] and k['k'] is v)
        elif how == 'Falsish':
            c.check('arguments', a == (1,) and not k)
        else:
            c.check('arguments', len(a) == 2 and a[0] is v and a[1] == 1 and not k)
        c.check('inner first', len(seen) == (how == 'ComposeCoercer') and all(x is v for x in seen))
        c.reach('called')


class Folding(collections.UserDict):
    """a mapping with a lookup of its own"""

    def __contains__(self, k):
        return isinstance(k, str) and k.upper() in self.data

    def __getitem__(self, k):
        return self.data[k.upper()]


class Made(dict):
    """a dict that makes missing entries"""

    def __missing__(self, k):
        return ('made', k)


@UNITS.unit(reach=('value', 'factory', 'refused'), weight=4)
def map_kinds(c):
    """whatever mapping it is given: its own lookups decide"""
    import types
    R = c.R
    which = c.choice('mapping', ('folding', 'folding factories', 'missing', 'defaultdict', 'chain', 'proxy', 'ordered', 'user'))
    v = c.obj('v', ('str', 'int', 'NoneType', 'V0'))
    k = c.obj('k', ('str', 'int', 'V0'))
    A = lambda tok: c.record('A', {'x': annot(R, object, R.check_strict, tok)}, unary_parse=False)
    made = []

    def fac():
        made.append(object())
        return made[-1]
    real = object()
    if which.startswith('folding'):
        arg = c.choice('spelling', ('k', 'K', 'j', 5))
        fold = Folding()
        fold.data['K'] = real if which == 'folding' else fac
        o = c.attempt(lambda: A(R.MapCoercion(fold) if which == 'folding' else R.MapCoercion({}, fold))(x=arg))
        if arg in ('k', 'K'):
            c.check('found by its own lookup', o.ok and o.value.x is (real if which == 'folding' else made[0]))
            c.reach('value' if which == 'folding' else 'factory')
        else:
            c.check('refused', o.raised(TypeError))
            c.reach('refused')
        return
    m = {'missing': lambda: Made({k: real}), 'defaultdict': lambda: collections.defaultdict(lambda: real, {k: real}), 'chain': lambda: collections.ChainMap({}, {k: real}),
         'proxy': lambda: types.MappingProxyType({k: real}), 'ordered': lambda: collections.OrderedDict([(k, real)]), 'user': lambda: collections.UserDict({k: real})}[which]()
    o = c.attempt(lambda: A(R.MapCoercion(value_map=m))(x=v))
    if c.fork(c.eq(k, v)):
        c.check('found', o.ok and o.value.x is real)
        c.reach('value')
    else:
        c.check('a key it does not have is refused', o.raised(TypeError) and len(m) == 1)
        c.reach('refused')


@UNITS.unit(reach=('called', 'whole'), weight=3)
def related(c):
    """an argument that has to do with the target (its class, a subclass, their instances) is an argument like any other"""
    R = c.R
    T, S, calls = targets(c)
    T.what = 'build'
    how = c.choice('coercer', ('Loose', 'CallCoercion', 'ClassMethodCoercion', 'inherited', 'LooseUnpack', 'LooseUnpackMap', 'constrained'))
    kind = c.choice('argument', ('target', 'subclass', 'type', 'bound method', 'the record', 'instance'))
    cls = S if how == 'inherited' else T
    other = c.record('A', {'x': object})
    v = {'target': T, 'subclass': S, 'type': type, 'bound method': T.alt, 'the record': other, 'instance': object.__new__(T)}[kind]
    tok = {'Loose': R.Loose, 'CallCoercion': lambda n: R.CallCoercion(cls, n), 'ClassMethodCoercion': lambda n: R.ClassMethodCoercion('alt', n), 'inherited': lambda n: R.ClassMethodCoercion('alt', n),
           'LooseUnpack': R.LooseUnpack, 'LooseUnpackMap': R.LooseUnpackMap, 'constrained': R.Loose.constrain((type, T, type(T.alt)))}[how](1)
    A = c.record('A', {'x': annot(R, cls, R.check, tok)}, unary_parse=False)
    arg = {'LooseUnpack': lambda: [v], 'LooseUnpackMap': lambda: {'k': v}}.get(how, lambda: v)()
    o = c.attempt(lambda: A(x=arg))
    if kind == 'instance' and how not in ('LooseUnpack', 'LooseUnpackMap', 'inherited'):
        c.check('as it is', o.ok and o.value.x is v and not calls)
        c.reach('whole')
        return
    by_method = how in ('ClassMethodCoercion', 'inherited')
    c.check('called once', o.ok and len(calls) == 1)
    c.check('on the field type', not by_method or calls[0][0] is cls)
    a, k = calls[0][1] if by_method else calls[0]
    if how == 'LooseUnpackMap':
        c.check('arguments', a == (1,) and list(k) == ['k'] and k['k'] is v)
    else:
        c.check('arguments', len(a) == 2 and a[0] is v and a[1] == 1 and not k)
    c.check('the result is stored', type(o.value.x) is cls)
    c.reach('called')


@UNITS.unit(reach=('called',), weight=3)
def names_of_extras(c):
    """an extra keyword argument may have any name, and stays what it was over several calls"""
    R = c.R
    T, S, calls = targets(c, False)
    T.what = 'build'
    name = c.choice('name', ('v', 'value', 'arg', 'origin', 'args', 'kwargs', 'method', 'filler', 'f'))
    how = c.choice('how', ('loose', 'constrained', 'unpack', 'map', 'falsish', 'call', 'class method'))
    ex = c.obj('ex', ('V0', 'NoneType'))
    k = {name: ex}
    if how in ('call', 'class method') and name in ('method', 'f'):
        c.reach('called')
        return
    v1, v2 = c.obj('v1', ('V1', 'int')), c.obj('v2', ('V1', 'str'))
    tok = {'loose': lambda: R.Loose(**k), 'constrained': lambda: R.Loose.constrain(object)(**k), 'unpack': lambda: R.LooseUnpack(**k), 'map': lambda: R.LooseUnpackMap(**k),
           'falsish': lambda: R.Falsish(**k), 'call': lambda: R.CallCoercion(T, **k), 'class method': lambda: R.ClassMethodCoercion('alt', **k)}[how]()
    A = c.record('A', {'n': Dflt(object, 0), 'x': annot(R, T, R.check, tok)}, unary_parse=False)
    for v in (v1, v2):
        del calls[:]
        given = [v] if how == 'unpack' else {'one': v} if how == 'map' else 0 if how == 'falsish' else v
        o = c.attempt(lambda: A(x=given))
        c.check('called once', o.ok and len(calls) == 1)
        got = calls[0][1] if how == 'class method' else calls[0]
        want = dict(k, one=v) if how == 'map' else k
        called(c, got, () if how in ('map', 'falsish') else (v,), want, how)
    c.reach('called')
