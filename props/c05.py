"""C05: Literal and Type[...] fields accept exactly the declared values and classes."""
from .common import *
from symx.unit import Registry
import enum

UNITS = Registry()
BOUNDS = '9 Literal value lists, 9 base classes of Type[...]; arguments: any object of the universe (numbers -3..3 and |n| <= 10^6), 16 classes including metaclass instances and virtual subclasses; up to 3 constructions in a row'
OUTSIDE = 'Type[...] of unions, type variables or Any'


class Color(enum.Enum):
    red = 1
    blue = 2


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class MetaSub(WithMeta, U.V0):
    pass


class VirtSub(Virt):
    def f(self):
        pass


class AbsSub(Virt):
    pass


LITS = {'ints': (0, 1, 2), 'bools': (True,), 'mixed': (1, 'str1', False, None), 'strs': ('str1', 'str2', ''), 'bytes': (b'by1', 2), 'none': (None,),
        'same': (1, True), 'nested': None, 'enum': (Color.red, 3)}


def lit(c, R):
    name = c.choice('literal', list(LITS))
    if name == 'nested':
        return Literal[Literal[1, 'str1'], 3], (1, 'str1', 3)
    return Literal[LITS[name]], LITS[name]


LT = ('int', 'bool', 'float', 'ISub', 'str', 'SSub', 'bytes', 'NoneType', 'V0', 'list', 'tuple', 'ellipsis')


def lit_ok(c, v, vals):
    return c.Or(*[c.And(c.is_type(v, type(x)), c.eq(v, x)) for x in vals])


@UNITS.unit(reach=('accepted', 'refused'))
def literal(c):
    R = c.R
    hint, vals = lit(c, R)
    st = c.choice('style', ('check', 'strict', 'default'))
    A = c.record('A', {'x': hint}, default_type_check=R.check) if st == 'default' else c.record('A', {'x': R.Annotated[hint, style(R, st)]})
    if c.choice('native', (False, True)):
        v = c.choice('value', (Color.red, Color.blue, 1.5, {}, {1}, frozenset([1]), 1 + 0j, float('nan'), '1', 'red', 3))
        ok = any(type(v) is type(x) and v == x for x in vals)
    else:
        v = c.obj('v', LT)
        ok = lit_ok(c, v, vals)
    o = c.attempt(A, x=v)
    if c.fork(ok):
        c.check('a listed value is accepted and stored as it is', o.ok and c.same(o.value.x, v))
        c.reach('accepted')
    else:
        c.check('any other value is refused', not o.ok)
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused', 'again'), weight=3)
def literal_history(c):
    R = c.R
    vals = c.choice('values', ((1, 'str1'), (True, 2), (None, 1)))
    st = c.choice('style', ('check', 'strict'))
    A = c.record('A', {'x': R.Annotated[Literal[vals], style(R, st)]})
    types = ('int', 'bool', 'ISub', 'str', 'NoneType', 'float')
    for n in range(3 if c.P.get('deep') else 2):
        v = c.obj('v%d' % n, types)
        o = c.attempt(A, x=v)
        if c.fork(lit_ok(c, v, vals)):
            c.check('a listed value is accepted and stored as it is', o.ok and c.same(o.value.x, v))
            c.reach('accepted')
        else:
            c.check('any other value is refused', not o.ok)
            c.reach('refused')
        if n:
            c.reach('again')


UNITS.add('literal_history3', literal_history, tier='thorough', deep=True, weight=9)


@UNITS.unit(reach=('accepted', 'coerced', 'refused'))
def literal_coercer(c):
    """coerced values have to be listed ones too"""
    R = c.R
    vals = c.choice('values', ((1, 'str1'), (True, None)))
    st = c.choice('style', ('check', 'strict'))
    types = ('int', 'bool', 'str', 'NoneType', 'V0', 'ISub')
    f = c.stub('f', ('obj', 'raise'), types)
    A = c.record('A', {'x': R.Annotated[Literal[vals], style(R, st), R.CallCoercion(f)]})
    v = c.obj('v', types)
    o = c.attempt(A, x=v)
    if o.ok:
        c.check('only listed values are ever stored', lit_ok(c, o.value.x, vals))
    if c.fork(lit_ok(c, v, vals)):
        c.check('a listed value is stored as it is', o.ok and c.same(o.value.x, v) and not f.calls)
        c.reach('accepted')
    elif f.calls and f.calls[0][2] == 'obj' and c.fork(lit_ok(c, f.calls[0][3], vals)):
        c.check('a coerced listed value is stored', o.ok and c.same(o.value.x, f.calls[0][3]))
        c.reach('coerced')
    else:
        c.check('anything else is refused', not o.ok)
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'))
def literal_inside(c):
    """literals as elements and as union members"""
    R = c.R
    kind = c.choice('kind', ('list', 'union', 'dict key'))
    L = R.Annotated[Literal[1, 'str2'], R.check]
    v = c.obj('v', ('int', 'bool', 'str', 'NoneType', 'ISub'))
    ok = lit_ok(c, v, (1, 'str2'))
    if kind == 'list':
        hint, arg = R.Annotated[List[L], R.check], [1, v]
    elif kind == 'union':
        hint, arg = Union[L, R.Annotated[None, R.check]], v
        ok = c.Or(ok, c.same(v, None))
    else:
        hint, arg = R.Annotated[Dict[L, int], R.check], {v: 1}
    A = c.record('A', {'x': hint})
    o = c.attempt(A, x=arg)
    if c.fork(ok):
        c.check('accepted and stored as it is', o.ok and c.same(o.value.x, arg))
        c.reach('accepted')
    else:
        c.check('refused', not o.ok)
        c.reach('refused')


CLASSES = (U.V0, U.V1, U.V2, U.W, int, bool, U.ISub, str, object, type, Virt, VirtSub, AbsSub, WithMeta, MetaSub, Meta)
BASES = (U.V0, U.V1, int, object, Virt, WithMeta, numbers.Integral, type, str)


@UNITS.unit(reach=('accepted', 'refused', 'not a class'))
def type_field(c):
    R = c.R
    base = c.choice('base', BASES)
    st = c.choice('style', ('check', 'strict', 'default'))
    hint = Type[base] if c.choice('spelling', (True, False)) else type[base]
    A = c.record('A', {'x': hint}, default_type_check=R.check) if st == 'default' else c.record('A', {'x': R.Annotated[hint, style(R, st)]})
    if c.choice('class', (True, False)):
        v = c.choice('which', CLASSES)
        ok = issubclass(v, base) and (st != 'strict' or type(v) is type)
    else:
        v = c.obj('v', tuple(n for n in ALL if n != 'type'))
        ok = False
        c.reach('not a class')
    o = c.attempt(A, x=v)
    if ok:
        c.check('the class is accepted and stored as it is', o.ok and o.value.x is v)
        c.reach('accepted')
    else:
        c.check('refused', not o.ok)
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'))
def type_history(c):
    """two constructions, and two fields with different bases"""
    R = c.R
    b0, b1 = c.choice('b0', (U.V0, U.V1, object)), c.choice('b1', (U.V1, int))
    A = c.record('A', {'x': R.Annotated[Type[b0], R.check], 'y': Dflt(R.Annotated[Type[b1], R.check], None)})
    for n in range(2):
        v, w = c.choice('v%d' % n, (U.V0, U.V2, int, bool)), c.choice('w%d' % n, (U.V1, U.V0, bool))
        o = c.attempt(A, x=v, y=w)
        if issubclass(v, b0) and issubclass(w, b1):
            c.check('accepted and stored', o.ok and o.value.x is v and o.value.y is w)
            c.reach('accepted')
        else:
            c.check('refused', not o.ok)
            c.reach('refused')


@UNITS.unit(reach=('accepted', 'coerced', 'refused'))
def type_coercer(c):
    """a coerced class must be a subclass too, and inner validators see classes only"""
    R = c.R
    out = c.choice('out', (U.V1, U.W, int, MetaSub, 5))
    seen = []

    def f(v):
        seen.append(v)
        return out
    st = c.choice('style', ('check', 'strict'))
    A = c.record('A', {'x': R.Annotated[Type[U.V0], style(R, st), R.CallCoercion(f)]})
    v = c.choice('v', (U.V2, U.W, int, 7, 'name', MetaSub))
    o = c.attempt(A, x=v)
    meta = lambda x: isinstance(x, type) if st == 'check' else type(x) is type
    good = lambda x: meta(x) and issubclass(x, U.V0)
    if meta(v):
        c.check('a class is not coerced', not seen)
        c.check('exactly subclasses are accepted', (o.ok and o.value.x is v) if good(v) else not o.ok)
        c.reach('accepted')
    elif good(out):
        c.check('the coerced class is stored', o.ok and o.value.x is out)
        c.reach('coerced')
    else:
        c.check('refused', not o.ok)
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'), weight=4)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    st = style(R, c.choice('style', ('check', 'strict')))
    S = shaped(c, {'x': annot(R, Literal[1, 'a', None], st), 'y': Dflt(annot(R, Type[U.V1], st), None)})
    x = c.obj('x', ('int', 'bool', 'str', 'NoneType'))
    y = c.choice('y', (U.V0, U.V2, 'no class'))
    for i in range(2):
        o = c.attempt(S.cls, x=x, y=y)
        ok = c.Or(c.And(c.is_type(x, int), c.eq(x, 1)), c.And(c.is_type(x, str), c.eq(x, 'a')), c.same(x, None))
        if c.fork(ok) and y in (U.V1, U.V2):
            c.check('accepted and stored', o.ok and c.same(o.value.x, x) and o.value.y is y)
            c.reach('accepted')
        else:
            c.check('refused', not o.ok)
            c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'), weight=2)
def odd_values(c):
    """what an argument says of itself does not let it in: it has to be of the type of the listed value as well"""
    R = c.R
    kind, v = odd(c)
    which = c.choice('hint', ('literal', 'literal with None', 'one', 'union', 'list', 'type', 'strict type'))
    hint = {'literal': lambda: annot(R, Literal[0, 'text', True, b'x'], R.check), 'literal with None': lambda: annot(R, Literal[None, 0, 1], R.check_strict), 'one': lambda: annot(R, Literal[0], R.check),
            'union': lambda: Union[annot(R, Literal['text', 0], R.check), annot(R, bytes, R.check)], 'list': lambda: annot(R, List[annot(R, Literal[0, 1], R.check)], R.check),
            'type': lambda: annot(R, Type[object], R.check), 'strict type': lambda: annot(R, Type[object], R.check_strict)}[which]()
    A = c.record('A', {'x': hint}, unary_parse=False)
    wrap = (lambda x: [x]) if which == 'list' else lambda x: x
    c.check('refused', c.attempt(lambda: A(x=wrap(v))).raised())
    c.reach('refused')
    good = {'type': int, 'strict type': object}.get(which, 0)
    o = c.attempt(lambda: A(x=wrap(good)))
    c.check('a good one', o.ok and (o.value.x if which != 'list' else o.value.x[0]) is good)
    c.check('still refused', c.attempt(lambda: A(x=wrap(v))).raised())
    if 'type' in which:
        o = c.attempt(lambda: A(x=type(v)))
        c.check('its class is a class', o.ok and o.value.x is type(v))
    c.reach('accepted')


@UNITS.unit(reach=('accepted', 'refused'), weight=2)
def namesakes(c):
    """types of one name, whose values equal one another, are still different types"""
    R = c.R
    base = c.choice('base', ('IntEnum', 'int', 'str', 'bytes', 'StrEnum'))
    if base == 'IntEnum':
        P, Q = enum.IntEnum('E', 'a b'), enum.IntEnum('E', 'c d')
        ps, qs, raw = list(P), list(Q), (1, 2)
    elif base == 'StrEnum':
        P, Q = enum.Enum('E', {'a': 'a', 'b': 'b'}, type=str), enum.Enum('E', {'c': 'a', 'd': 'b'}, type=str)
        ps, qs, raw = list(P), list(Q), ('a', 'b')
    else:
        b = {'int': int, 'str': str, 'bytes': bytes}[base]
        raw = {'int': (1, 2), 'str': ('a', 'b'), 'bytes': (b'a', b'b')}[base]
        P, Q = type('E', (b,), {}), type('E', (b,), {})
        ps, qs = [P(x) for x in raw], [Q(x) for x in raw]
    pool = ps + qs + list(raw)
    listed = c.choice('listed', ((0, 3), (0,), (0, 1), (2, 1), (4, 3), (0, 2, 4), (5, 0), (5,)))
    vals = [pool[i] for i in listed]
    A = c.record('A', {'x': annot(R, Literal[tuple(vals)], style(R, c.choice('style', ('check', 'strict'))))})
    first = c.choice('first', tuple(range(6)))
    for n in [first] + [i for i in range(6) if i != first]:
        v = pool[n]
        ok = any(type(v) is type(x) and v == x for x in vals)
        o = c.attempt(A, x=v)
        c.check('accepted exactly if listed (%d)' % n, o.ok == ok and (not ok or o.value.x is v))
        c.reach('accepted' if ok else 'refused')
