"""C01: a hollow field stores exactly the object it is given."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('26 annotations, classes of 1 and 3 hollow fields; arguments: any object of the 18-type universe with any identity and value, and '
          'objects every operation of which raises')
OUTSIDE = 'annotations not in the list; arguments passed positionally to classes that parse'

ANN = {
    'int': lambda R: int, 'V0': lambda R: U.V0, 'str': lambda R: str, 'List[int]': lambda R: List[int], 'list': lambda R: list,
    'Dict[str, int]': lambda R: Dict[str, int], 'Union': lambda R: Union[int, str], 'Optional': lambda R: Optional[U.V0],
    'Literal': lambda R: Literal[1, 'a'], 'Type[int]': lambda R: Type[int], 'Tuple[int, str]': lambda R: Tuple[int, str],
    'Tuple[int, ...]': lambda R: Tuple[int, ...], 'Tuple[()]': lambda R: Tuple[()], 'Callable': lambda R: Callable, 'Any': lambda R: Any, 'None': lambda R: None,
    'NewType': lambda R: NewInt, 'Integral': lambda R: numbers.Integral, 'Iterable[int]': lambda R: typing.Iterable[int],
    'Set': lambda R: Set[int], 'deque': lambda R: typing.Deque[int], 'TypeVar': lambda R: T_, 'List[T]': lambda R: List[T_],
    'object 5': lambda R: 5, 'tagged': lambda R: R.Annotated[int, R.Tag(1)], 'commented': lambda R: R.Annotated[str, 'text'],
    'Optional[List]': lambda R: Optional[List[str]], 'nested hollow': lambda R: R.Annotated[List[R.Annotated[int, R.hollow]], R.hollow],
    'bool': lambda R: bool, 'record': lambda R: R.RecordBase,
}


@UNITS.unit(reach=('stored', 'hostile'), types=ALL)
def single_field(c):
    R = c.R
    name = c.choice('annotation', list(ANN))
    frozen = c.flag('frozen')
    A = c.record('A', {'x': ANN[name](R)}, frozen=c.fork(frozen))
    if c.choice('hostile', (False, True)):
        v, touched = hostile()
        o = c.attempt(A, x=v)
        c.check('construction succeeds', o.ok)
        c.check('the object itself is stored', o.value.x is v)
        c.check('the object is not inspected', not touched)
        c.reach('hostile')
        return
    v = c.obj('v', c.P['types'])
    o = c.attempt(A, x=v)
    c.check('construction succeeds', o.ok)
    c.check('the object itself is stored', c.same(o.value.x, v))
    p = c.attempt(A, v)
    c.check('positional construction succeeds', p.ok)
    c.check('the object itself is stored (positional)', c.same(p.value.x, v))
    c.reach('stored')


@UNITS.unit(reach=('stored',))
def token_hollow(c):
    """hollow stated in the annotation, in a class whose default is stricter; containers of hollow elements"""
    R = c.R
    dflt = c.choice('default', ('check', 'strict', 'hollow'))
    kind = c.choice('kind', ('int', 'V0', 'str', 'Type', 'Literal', 'list', 'Any', 'Callable', 'None', 'bool', 'Union'))
    h = {'int': int, 'V0': U.V0, 'str': str, 'Type': Type[int], 'Literal': Literal[1, 2], 'list': list, 'Any': Any, 'Callable': Callable,
         'None': None, 'bool': bool, 'Union': Union[int, str]}[kind]
    A = c.record('A', {'x': R.Annotated[h, R.hollow]}, default_type_check=style(R, dflt))
    v = c.obj('v', ALL)
    o = c.attempt(A, x=v)
    c.check('construction succeeds', o.ok)
    c.check('the object itself is stored', c.same(o.value.x, v))
    c.reach('stored')


@UNITS.unit(reach=('stored',))
def several_fields(c):
    """hollow fields next to each other and next to a checked one, values aliasing or equal to each other"""
    R = c.R
    d = c.obj('default', ALL)
    A = c.record('A', {'x': int, 'y': List[str], 'z': Dflt(Union[int, str], d), 'n': R.Annotated[int, R.check]})
    x, y = c.obj('x', ALL), c.obj('y', ALL)
    kw = {'x': x, 'y': y, 'n': 3}
    give = c.fork(c.flag('give z'))
    if give:
        kw['z'] = z = c.obj('z', ALL)
    if c.fork(c.flag('other order')):
        kw = dict(reversed(list(kw.items())))
    o = c.attempt(A, **kw)
    c.check('construction succeeds', o.ok)
    r = o.value
    c.check('every object itself is stored', c.And(c.same(r.x, x), c.same(r.y, y), c.same(r.z, z if give else d), r.n == 3))
    c.reach('stored')


@UNITS.unit(reach=('stored',))
def containers_kept(c):
    """parameterised containers without checks: neither replaced nor modified"""
    R = c.R
    kind = c.choice('kind', ('list', 'tuple', 'set', 'dict', 'deque', 'nested'))
    e0, e1 = c.obj('e0', VTYPES), c.obj('e1', ('int', 'str', 'NoneType', 'V0'))
    v, h = {'list': ([e0, e1], List[int]), 'tuple': ((e0, e1), Tuple[int, ...]), 'set': ([e0, e1], Set[int]),
            'dict': ({'a': e0, 'b': e1}, Dict[int, int]), 'deque': (collections.deque([e0, e1]), typing.Deque[int]),
            'nested': ([[e0], [e1]], List[List[str]])}[kind]
    dflt = c.choice('default', ('check', 'hollow'))
    if dflt == 'check':
        # the outer type may be checked while the elements are explicitly not
        h = {'list': lambda: List[R.Annotated[int, R.hollow]], 'tuple': lambda: Tuple[R.Annotated[int, R.hollow], ...],
             'set': lambda: R.Annotated[Set[R.Annotated[int, R.hollow]], R.hollow],
             'dict': lambda: Dict[R.Annotated[int, R.hollow], R.Annotated[int, R.hollow]],
             'deque': lambda: typing.Deque[R.Annotated[str, R.hollow]],
             'nested': lambda: List[R.Annotated[List[R.Annotated[int, R.hollow]], R.hollow]]}[kind]()
    A = c.record('A', {'x': h}, default_type_check=style(R, dflt))
    o = c.attempt(A, x=v)
    c.check('construction succeeds', o.ok)
    c.check('the object itself is stored', o.value.x is v)
    if kind == 'dict':
        c.check('its content is untouched', c.And(c.same(v['a'], e0), c.same(v['b'], e1), len(v) == 2))
    elif kind == 'nested':
        c.check('its content is untouched', c.And(c.same(v[0][0], e0), c.same(v[1][0], e1)))
    else:
        c.check('its content is untouched', c.all_same(v, [e0, e1]))
    c.reach('stored')


@UNITS.unit(reach=('stored',), weight=4)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    hint = c.choice('hint', (int, List[U.V0], Optional[str], Literal[1, 2], Callable, Any))
    S = shaped(c, {'x': hint, 'y': Dflt(annot(R, hint, R.hollow), 0), 'w': annot(R, hint, R.Tag('t'))})
    vals = {n: c.obj(n, ('V0', 'int', 'NoneType', 'list')) for n in 'xyw'}
    o = c.attempt(S.cls, **vals)
    c.check('construction succeeds', o.ok)
    c.check('every object itself is stored', c.And(*[c.same(getattr(o.value, n), v) for n, v in vals.items()]))
    c.reach('stored')


@UNITS.unit(reach=('stored',), weight=4)
def odd_values(c):
    """whatever the object says of itself, and even if it means something else where fields are declared"""
    R = c.R
    _, v = odd(c, 'v')
    hint = c.choice('hint', (int, object, Any, List[int], Dict[str, int], Optional[int], Literal[1], Callable, None, Tuple[int, ...], Type[int], 'not a type'))
    if hint == 'not a type':
        hint = typing.TypeVar('X')
    d = c.choice('default', ('no', 'value', 'factory'))
    A = c.record('A', {'x': hint if d == 'no' else Dflt(hint, 0 if d == 'value' else R.Factory(list)), 'y': Dflt(annot(R, int, R.hollow), 0)}, unary_parse=False, frozen=c.choice('frozen', (False, True)))
    o = c.attempt(lambda: A(y=v, x=v) if d != 'no' or c.choice('positional', (False, True)) is False else A(v, y=v))
    c.check('construction succeeds', o.ok)
    c.check('the object itself is stored', o.value.x is v and o.value.y is v)
    c.reach('stored')
