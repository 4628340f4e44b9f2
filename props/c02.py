"""C02: type checking accepts exactly the declared type."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = '34 declared types (concrete, abstract, None, Ellipsis, Callable, NewType, bare generics, records), up to 3 constructions in a row; any argument of the 18-type universe'
OUTSIDE = 'classes that lie about __class__; types not in the list'


def styled(c, R, h, how, strict):
    tok = R.check_strict if strict else R.check
    hint = h.make(R)
    if how == 'token':
        return c.record('A', {'x': R.Annotated[hint, tok]})
    if how == 'default':
        return c.record('A', {'x': hint}, default_type_check=tok)
    if how == 'override':
        return c.record('A', {'x': R.Annotated[hint, tok]}, default_type_check=R.check if strict else R.check_strict)
    if how == 'tagged':
        return c.record('A', {'x': R.Annotated[hint, R.Tag(1), 'doc', tok]})
    assert how == 'inherited'
    B = c.record('B', {'x': hint}, default_type_check=tok)
    other = c.choice('child style', ('hollow', 'check', 'strict'))
    return c.record('A', {'y': Dflt(int, 0)}, (B,), default_type_check=style(R, other))


def one(c, names, strict, hows=('token', 'default', 'override', 'tagged', 'inherited')):
    R = c.R
    h = BY_HINT[c.choice('hint', names)]
    A = styled(c, R, h, c.choice('how', hows), strict)
    v = c.obj('v', ALL)
    o = c.attempt(A, x=v)
    if c.fork(h.accepts(c, v, strict)):
        c.check('an argument of the type is accepted', o.ok)
        c.check('and stored as it is', c.same(o.value.x, v))
        c.reach('accepted')
    else:
        c.check('any other argument raises TypeError', o.raised(TypeError))
        c.reach('refused')


CONC = [h.name for h in HINTS if h.exact is not None]
EVERY = [h.name for h in HINTS]
for i in range(0, len(EVERY), 6):
    UNITS.add('check/%d' % i, lambda c: one(c, c.P['names'], False), reach=('accepted', 'refused'), names=EVERY[i:i + 6])
for i in range(0, len(CONC), 6):
    UNITS.add('strict/%d' % i, lambda c: one(c, c.P['names'], True), reach=('accepted', 'refused'), names=CONC[i:i + 6])


@UNITS.unit(reach=('accepted', 'refused', 'second accepted', 'second refused'))
def history(c):
    """the decision on an argument does not depend on the arguments before"""
    R = c.R
    strict = c.choice('strict', (False, True))
    h = BY_HINT[c.choice('hint', ('V1', 'int', 'object', 'None', 'Callable'))]
    A = styled(c, R, h, 'token', strict)
    for n in ('accepted', 'second accepted'):
        v = c.obj(n, ('V0', 'V1', 'V2', 'int', 'bool', 'NoneType', 'function', 'str'))
        o = c.attempt(A, x=v)
        if c.fork(h.accepts(c, v, strict)):
            c.check('an argument of the type is accepted and stored', o.ok and c.same(o.value.x, v))
            c.reach(n)
        else:
            c.check('any other argument raises TypeError', o.raised(TypeError))
            c.reach(n.replace('accepted', 'refused'))


@UNITS.unit(reach=('both', 'refused'))
def two_fields(c):
    """each field is checked by its own declaration, whatever the order of the keywords; a refusal leaves no record"""
    R = c.R
    A = c.record('A', {'x': R.Annotated[U.V0, R.check], 'y': R.Annotated[int, R.check_strict], 'z': Dflt(str, 7)},
                 default_type_check=R.check)
    x, y = c.obj('x', ('V0', 'V1', 'W', 'int', 'bool')), c.obj('y', ('V0', 'int', 'bool', 'ISub'))
    kw = {'x': x, 'y': y}
    if c.choice('z given', (False, True)):
        kw['z'] = c.obj('z', ('str', 'SSub', 'int'))
    if c.choice('order', (False, True)):
        kw = dict(reversed(list(kw.items())))
    o = c.attempt(A, **kw)
    ok = c.And(c.is_inst(x, U.V0), c.is_type(y, int), c.is_inst(kw['z'], str) if 'z' in kw else True)
    if c.fork(ok):
        c.check('accepted', o.ok)
        c.check('stored as they are', c.And(c.same(o.value.x, x), c.same(o.value.y, y)))
        c.check('optional argument or unchecked default', c.same(o.value.z, kw['z']) if 'z' in kw else o.value.z == 7)
        c.reach('both')
    else:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'))
def record_types(c):
    """fields whose type is a record class"""
    R = c.R
    Inner = c.record('Inner', {'a': int})
    Sub = c.record('Sub', {'b': Dflt(int, 1)}, (Inner,))
    Other = c.record('Other', {'a': int})
    strict = c.choice('strict', (False, True))
    A = c.record('A', {'x': R.Annotated[Inner, R.check_strict if strict else R.check], 'w': Dflt(int, 0)}, unary_parse=False)
    kind = c.choice('kind', ('inner', 'sub', 'other', 'dict', 'class', 'obj'))
    v = {'inner': lambda: Inner(a=1), 'sub': lambda: Sub(a=1), 'other': lambda: Other(a=1), 'dict': lambda: {'a': 1},
         'class': lambda: Inner, 'obj': lambda: c.obj('v', ALL)}[kind]()
    o = c.attempt(A, x=v)
    if kind == 'inner' or (kind == 'sub' and not strict):
        c.check('instance accepted and stored', o.ok and o.value.x is v)
        c.reach('accepted')
    else:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('refused')




@UNITS.unit(reach=('accepted', 'refused'))
def default_styles(c):
    """several fields in one class: only those without a style of their own follow the default"""
    R = c.R
    dflt = c.choice('default', ('hollow', 'check', 'strict'))
    own = c.choice('own', (None, 'hollow', 'check', 'strict'))
    toks = () if own is None else (style(R, own),)
    first = c.choice('first', (False, True))
    fields = {'x': annot(R, U.V1, *toks), 'y': U.V1}
    if first:
        fields = dict(reversed(list(fields.items())))
    A = c.record('A', fields, default_type_check=style(R, dflt))
    x, y = c.obj('x', ('V0', 'V1', 'V2', 'int')), c.obj('y', ('V0', 'V1', 'V2', 'int'))
    o = c.attempt(A, x=x, y=y)

    def ok(v, s):
        return {'hollow': True, 'check': c.is_inst(v, U.V1), 'strict': c.is_type(v, U.V1)}[s]
    if c.fork(c.And(ok(x, own or dflt), ok(y, dflt))):
        c.check('accepted and stored', o.ok and c.And(c.same(o.value.x, x), c.same(o.value.y, y)))
        c.reach('accepted')
    else:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('refused')


class AlwaysEq:
    """Claims to be equal to everything."""

    def __init__(self, truth=True):
        self.truth = truth

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 0

    def __bool__(self):
        return self.truth

    def __len__(self):
        return 1 if self.truth else 0

    def __iter__(self):
        return iter(())


class NeverEq:
    """Not equal to anything, not even to itself; no truth value."""

    def __eq__(self, other):
        return False

    def __hash__(self):
        raise ValueError('no hash')

    def __bool__(self):
        raise ValueError('no truth value')


class NeverInt(int):
    def __eq__(self, other):
        return False

    def __hash__(self):
        raise ValueError('no hash')

    def __bool__(self):
        raise ValueError('no truth value')


def awkward(c):
    """arguments whose == and truth value mislead or raise"""
    R = c.R
    h = BY_HINT[c.choice('hint', c.P['names'])]
    strict = c.choice('strict', (False, True)) if h.exact is not None else False
    A = styled(c, R, h, c.choice('how', ('token', 'default')), strict)
    v = c.choice('v', (AlwaysEq(), AlwaysEq(False), NeverEq(), NeverInt(0), NeverInt(3), AlwaysEq, V2Sub(1, False), [], (), {}, 0.0, '', b''))
    o = c.attempt(A, x=v)
    if c.fork(h.accepts(c, v, strict)):
        c.check('an argument of the type is accepted and stored', o.ok and c.same(o.value.x, v))
        c.reach('accepted')
    else:
        c.check('any other argument raises TypeError', o.raised(TypeError))
        c.reach('refused')


class V2Sub(U.V2):
    pass


for i in range(0, len(EVERY), 12):
    UNITS.add('awkward/%d' % i, awkward, reach=('accepted', 'refused'), names=EVERY[i:i + 12])


@UNITS.unit(reach=('accepted', 'refused'), weight=4)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    S = shaped(c, {'x': annot(R, U.V1, R.check), 'y': annot(R, int, R.check_strict), 'z': Dflt(annot(R, Callable, R.check), None)})
    x, y = c.obj('x', ('V0', 'V1', 'V2')), c.obj('y', ('int', 'bool', 'V0'))
    kw = {'z': c.obj('z', ('function', 'int'))} if c.choice('z given', (False, True)) else {}
    o = c.attempt(S.cls, x=x, y=y, **kw)
    if c.fork(c.And(c.is_inst(x, U.V1), c.is_type(y, int), c.callable(kw['z']) if kw else True)):
        c.check('accepted and stored', o.ok and c.And(c.same(o.value.x, x), c.same(o.value.y, y), c.same(o.value.z, kw.get('z'))))
        c.reach('accepted')
    else:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'), weight=4)
def shapes_default_style(c):
    R = c.R
    st = c.choice('style', ('hollow', 'check', 'strict'))
    S = shaped(c, {'x': U.V1, 'y': annot(R, U.V1, R.check_strict), 'z': Dflt(annot(R, U.V1, R.hollow), 0)}, default_type_check=style(R, st), shapes=[s for s in SHAPES if not s.startswith('extra')])
    x, y, z = c.obj('x', ('V0', 'V1', 'V2')), c.obj('y', ('V1', 'V2')), c.obj('z', ('V0', 'int'))
    o = c.attempt(S.cls, x=x, y=y, z=z)
    okx = {'hollow': True, 'check': c.is_inst(x, U.V1), 'strict': c.is_type(x, U.V1)}[st]
    if c.fork(c.And(okx, c.is_type(y, U.V1))):
        c.check('accepted and stored', o.ok and c.And(c.same(o.value.x, x), c.same(o.value.y, y), c.same(o.value.z, z)))
        c.reach('accepted')
    else:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'), weight=2)
def namesakes(c):
    """classes of the same name are different classes"""
    R = c.R

    X, Y = type('X', (), {}), type('X', (), {})
    Z = type(X)('X', (X,), {})
    a, b = c.choice('order', ((0, 1), (1, 0)))
    st = c.choice('style', ('check', 'strict'))
    A = c.record('A', {'x': annot(R, (X, Y)[a], style(R, st)), 'y': Dflt(annot(R, (X, Y)[b], style(R, st)), None)})
    v = c.choice('value', ('X', 'Y', 'Z'))
    arg = {'X': X, 'Y': Y, 'Z': Z}[v]()
    where = c.choice('where', ('x', 'y'))
    declared = (X, Y)[(a, b)['xy'.index(where)]]
    o = c.attempt(lambda: A(**dict({'x': (X, Y)[a]()}, **{where: arg})))
    if type(arg) is declared or (st == 'check' and isinstance(arg, declared)):
        c.check('accepted and stored', o.ok and getattr(o.value, where) is arg)
        c.reach('accepted')
    else:
        c.check('refused', o.raised(TypeError))
        c.reach('refused')
