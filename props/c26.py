"""C26: a declaration that could not be enforced is refused at class creation."""
import inspect
import typing

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('one field per class; container kinds: every parameterisable one of typing and collections, unions, NewTypes, type aliases of generic classes, nested up to 2 deep (3 in the thorough tier), with a style, or none, at every level, '
          'and at the leaf a concrete or abstract class with or without an arbitrary coercer or validator; class default style any; what is accepted is then given containers of up to 2 arbitrary objects')
OUTSIDE = 'PEP 604 unions, PEP 695 aliases, parameters of Callable and Type, type variables with bounds; metadata whose attribute access raises anything but AttributeError; changes made to fillers other than through apply, the add_ methods and sub_filler'

STYLES = (None, 'check', 'strict', 'hollow')


class Leaf:
    def __init__(self, st, hinted, coercer=None, validator=None):
        self.st, self.h, self.coercer, self.validator = st, hinted, coercer, validator

    def hint(self, R):
        return annot(R, self.h.make(R), *([style(R, self.st)] if self.st else []), *([R.CallCoercion(self.coercer)] if self.coercer else []),
                     *([R.CallValidation(self.validator)] if self.validator else []))

    def conflict(self, d):
        e = self.st or d
        return (e == 'hollow' and self.coercer is not None) or (e == 'strict' and self.h.exact is None)

    def trivial(self, d):
        return (self.st or d) == 'hollow' and self.validator is None

    def fill(self, c, v, d):
        return Spec(self.h, self.st or d, (self.coercer,) if self.coercer else (), (self.validator,) if self.validator else ()).fill(c, v)

    def good(self, c, name):
        return c.obj(name, c.P.get('types', ('V1', 'V2', 'W', 'int')))


class Box:
    """kind: (make hint, concrete container class or None if any instance will do, abstract?, how children are used)"""

    def __init__(self, kind, st, inner):
        self.kind, self.st, self.inner = kind, st, inner
        self.make, self.cls, self.build, self.role = KINDS[kind]

    def hint(self, R):
        return annot(R, self.make(R, self.inner.hint(R)), *([style(R, self.st)] if self.st else []))

    def conflict(self, d):
        e = self.st or d
        if self.inner.conflict(d):
            return True
        if e == 'strict' and inspect.isabstract(self.cls):
            return True
        if not self.inner.trivial(d) and (e == 'hollow' or self.role == 'none'):
            return True
        return False

    def trivial(self, d):
        return (self.st or d) == 'hollow'

    def fill(self, c, v, d):
        e = self.st or d
        if e == 'hollow':
            return Filled(v, HOLLOW)
        if isinstance(v, Wrong) or not isinstance(v, self.cls) or (e == 'strict' and type(v) is not self.cls):
            return None
        if self.role == 'none' or self.inner.trivial(d):
            return Filled(v)
        if self.role == 'values':
            parts = [self.inner.fill(c, x, d) for x in v.values()]
        elif self.role == 'keys':
            parts = [self.inner.fill(c, x, d) for x in v.keys()]
        else:
            parts = [self.inner.fill(c, x, d) for x in v]
        if any(p is None for p in parts):
            return None
        return Filled(v) if all(not p.new and c.fork(c.same(p.value, x)) for p, x in zip(parts, v if self.role == 'each' else v.values() if self.role == 'values' else v)) else Filled(v, children=parts, like=v)

    def good(self, c, name):
        form = c.choice(name + '.form', ('right', 'wrong'))
        if form == 'wrong':
            return Wrong()
        return self.build([self.inner.good(c, '%s.%d' % (name, i)) for i in range(c.P.get('n', 1))])


class Wrong:
    """No container at all."""


T1 = typing.TypeVar('T1')


class Gen(typing.Generic[T1]):
    pass


def anything(R):
    return annot(R, typing.Any, R.hollow)


KINDS = {
    'list': (lambda R, h: List[h], list, list, 'each'),
    'list[]': (lambda R, h: list[h], list, list, 'each'),
    'set': (lambda R, h: Set[h], set, set, 'each'),
    'frozenset': (lambda R, h: FrozenSet[h], frozenset, frozenset, 'each'),
    'deque': (lambda R, h: typing.Deque[h], collections.deque, collections.deque, 'each'),
    'tuple': (lambda R, h: Tuple[(h,)], tuple, tuple, 'each'),
    'tuple...': (lambda R, h: Tuple[h, ...], tuple, tuple, 'each'),
    'Sequence': (lambda R, h: Sequence[h], collections.abc.Sequence, list, 'each'),
    'MutableSequence': (lambda R, h: typing.MutableSequence[h], collections.abc.MutableSequence, list, 'each'),
    'AbstractSet': (lambda R, h: typing.AbstractSet[h], collections.abc.Set, frozenset, 'each'),
    'dict values': (lambda R, h: Dict[anything(R), h], dict, lambda xs: {'k%d' % i: x for i, x in enumerate(xs)}, 'values'),
    'dict keys': (lambda R, h: Dict[h, anything(R)], dict, lambda xs: {x: i for i, x in enumerate(xs)}, 'keys'),
    'Mapping values': (lambda R, h: Mapping[anything(R), h], collections.abc.Mapping, lambda xs: {'k%d' % i: x for i, x in enumerate(xs)}, 'values'),
    'defaultdict values': (lambda R, h: typing.DefaultDict[anything(R), h], collections.defaultdict, lambda xs: collections.defaultdict(list, {'k%d' % i: x for i, x in enumerate(xs)}), 'values'),
    'Iterable': (lambda R, h: typing.Iterable[h], collections.abc.Iterable, list, 'none'),
    'Collection': (lambda R, h: typing.Collection[h], collections.abc.Collection, list, 'none'),
    'Container': (lambda R, h: typing.Container[h], collections.abc.Container, list, 'none'),
    'Reversible': (lambda R, h: typing.Reversible[h], collections.abc.Reversible, list, 'none'),
    'Iterator': (lambda R, h: typing.Iterator[h], collections.abc.Iterator, iter, 'none'),
}


def leaf(c, kinds):
    st = c.choice('leaf style', c.P.get('leaf_styles', STYLES))
    kind = c.choice('leaf', kinds)
    h = abstract(Virt) if kind == 'abstract' else plain(object) if kind == 'object' else plain(U.V1)
    f = DetFn(c, 'f', kinds=('obj', 'raise'), types=('V1', 'W')) if kind == 'coercer' else None
    g = DetFn(c, 'g', kinds=('same', 'raise')) if kind in ('validator', 'object') else None
    return Leaf(st, h, f, g)


def decide(c, node, d):
    """declares a field of the given shape, compares with the reference, and uses it"""
    R = c.R
    hint = node.hint(R)
    o = c.attempt(lambda: c.record('A', {'x': hint}, default_type_check=style(R, d)))
    if node.conflict(d):
        c.check('refused at class creation', o.raised())
        c.reach('refused')
        return
    c.check('accepted', o.ok)
    c.reach('accepted')
    v = node.good(c, 'v')
    exp = node.fill(c, v, d)
    r = c.attempt(lambda: o.value(x=v))
    c.check('the checks take effect', r.ok == (exp is not None))
    if r.ok and not exp.new:
        c.check('the value itself', c.same(r.value.x, exp.value))
    c.reach('enforced' if exp is None else 'passed')


def matrix(c):
    d = c.choice('default', ('check', 'strict', 'hollow'))
    node = leaf(c, c.P['leaves'])
    for i in range(c.P.get('depth', 1)):
        kind = c.choice('kind%d' % i, c.P['kinds'] if i == 0 else c.P['outer'])
        node = Box(kind, c.choice('style%d' % i, STYLES), node)
    decide(c, node, d)


LEAVES = ('plain', 'abstract', 'coercer', 'validator')
ALLR = ('refused', 'accepted', 'enforced', 'passed')
GROUPS = (('list', 'tuple'), ('tuple...', 'set'), ('Sequence', 'deque'), ('dict values', 'dict keys'), ('Mapping values', 'Iterable'), ('Collection', 'Iterator'),
          ('list[]', 'frozenset'), ('MutableSequence', 'AbstractSet'), ('defaultdict values', 'Reversible'), ('Container',))
for g in GROUPS:
    UNITS.add('matrix ' + ' '.join(g), matrix, kinds=g, leaves=LEAVES, types=('V1', 'int'), reach=ALLR, weight=20)
UNITS.add('nested', matrix, kinds=('list',), outer=('dict values', 'tuple', 'Iterable'), leaves=('plain', 'validator'), types=('V1', 'int'), depth=2, leaf_styles=(None, 'check', 'hollow'), reach=ALLR, weight=25)
for k in ('list', 'tuple', 'dict values', 'Iterable'):
    UNITS.add('nested deeper ' + k, matrix, kinds=(k,), outer=('list', 'tuple...', 'Mapping values', 'Sequence'), leaves=LEAVES, types=('V1', 'V2', 'W', 'int'), depth=2, n=1, reach=ALLR, weight=99, tier='thorough')
UNITS.add('three deep', matrix, kinds=('list',), outer=('tuple', 'dict values'), leaves=('plain', 'validator', 'coercer'), types=('V1', 'int'), depth=3, leaf_styles=('check', 'hollow'), reach=ALLR, weight=99, tier='thorough')


@UNITS.unit(reach=('refused', 'accepted', 'enforced', 'passed'), weight=5)
def single(c):
    """no container around"""
    decide(c, leaf(c, LEAVES + ('object',)), c.choice('default', ('check', 'strict', 'hollow')))


@UNITS.unit(reach=('refused', 'accepted', 'enforced', 'passed'), weight=10)
def where(c):
    """tokens take effect wherever they are written: around, inside, in pre_bind, within Final and NewType"""
    R = c.R
    d = c.choice('default', ('check', 'hollow'))
    st = c.choice('style', STYLES)
    kind = c.choice('leaf', ('plain', 'abstract', 'coercer', 'validator'))
    h = abstract(Virt) if kind == 'abstract' else plain(U.V1)
    f = DetFn(c, 'f', kinds=('obj', 'raise'), types=('V1', 'W')) if kind == 'coercer' else None
    g = DetFn(c, 'g', kinds=('same', 'raise')) if kind == 'validator' else None
    stt = [style(R, st)] if st else []
    fn = [R.CallCoercion(f)] if f else [R.CallValidation(g)] if g else []
    T = h.make(R)
    place = c.choice('place', ('one', 'reversed', 'nested', 'nested other way', 'Final outside', 'Final inside', 'Final between', 'NewType', 'NewType of annotated', 'NewType of NewType', 'union member', 'around union', 'split over union', 'pre_bind', 'pre_bind apply'))
    ns = {}
    if place == 'one':
        hint = annot(R, T, *stt, *fn)
    elif place == 'reversed':
        hint = annot(R, T, *fn, *stt)
    elif place == 'nested':
        hint = annot(R, annot(R, T, *stt), *fn)
    elif place == 'nested other way':
        hint = annot(R, annot(R, T, *fn), *stt)
    elif place == 'Final outside':
        hint = typing.Final[annot(R, T, *stt, *fn)]
    elif place == 'Final inside':
        hint = annot(R, typing.Final[T], *stt, *fn)
    elif place == 'Final between':
        hint = annot(R, typing.Final[annot(R, T, *stt)], *fn)
    elif place == 'NewType':
        hint = annot(R, NewType('N', T), *stt, *fn)
    elif place == 'NewType of annotated':
        hint = annot(R, NewType('N', annot(R, T, *fn)), *stt)
    elif place == 'NewType of NewType':
        hint = annot(R, NewType('M', NewType('N', annot(R, T, *fn, *stt))))
    elif place == 'union member':
        hint = Union[annot(R, T, *stt, *fn), annot(R, U.SSub, R.check)]
    elif place == 'around union':
        hint = annot(R, Union[T, annot(R, U.SSub, R.check)], *stt, *fn)
    elif place == 'split over union':
        hint = annot(R, Union[annot(R, T, *fn), annot(R, U.SSub, R.check)], *stt)
    else:
        hint = T

        def pre(cls):
            for t in stt:
                cls.x.filler.apply(t)
            if place == 'pre_bind apply':
                for t in fn:
                    cls.x.filler.apply(t)
            else:
                if f:
                    cls.x.add_coercer(f)
                if g:
                    cls.x.add_validator(g)
        ns = {'pre_bind': classmethod(pre)}
    node = Leaf(st, h, f, g)
    o = c.attempt(lambda: c.record('A', {'x': hint}, ns=ns, default_type_check=style(R, d), frozen='Final' in place))
    if node.conflict(d):
        c.check('refused at class creation', o.raised())
        c.reach('refused')
        return
    c.check('accepted', o.ok)
    c.reach('accepted')
    v = c.obj('v', ('V1', 'V2', 'W', 'int'))
    r = c.attempt(lambda: o.value(x=v))
    exp = node.fill(c, v, d)
    if 'union' in place and 'union member' != place and f and exp is None:
        # the other member has the coercer as well
        k, y = f.ask(v)
        if k != 'raise' and not c.fork(c.is_inst(y, U.V1)) and c.fork(c.is_inst(y, str)):
            return
    c.check('the checks take effect', r.ok == (exp is not None))
    if r.ok:
        c.check('the value', c.same(r.value.x, exp.value))
    c.reach('enforced' if exp is None else 'passed')


SUBS = {
    'list': (lambda R, h: List[h], 0, lambda v: [v], lambda x: x[0]),
    'tuple0': (lambda R, h: Tuple[h, anything(R)], 0, lambda v: (v, 7), lambda x: x[0]),
    'tuple1': (lambda R, h: Tuple[anything(R), h], 1, lambda v: (7, v), lambda x: x[1]),
    'tuple...': (lambda R, h: Tuple[h, ...], 0, lambda v: (v,), lambda x: x[0]),
    'dict key': (lambda R, h: Dict[h, anything(R)], 0, lambda v: {v: 7}, lambda x: list(x)[0]),
    'dict value': (lambda R, h: Dict[anything(R), h], 1, lambda v: {7: v}, lambda x: x[7]),
    'union': (lambda R, h: Union[h, None], 0, lambda v: v, lambda x: x),
    'itself': (lambda R, h: h, None, lambda v: v, lambda x: x),
}


@UNITS.unit(reach=('refused', 'accepted', 'enforced', 'passed'), weight=10)
def sub_keys(c):
    """tokens given to parts of a field in pre_bind are enforced there, or refused"""
    R = c.R
    d = c.choice('default', ('check', 'strict', 'hollow'))
    kind = c.choice('kind', tuple(SUBS))
    make, key, build, get = SUBS[kind]
    what = c.choice('what', ('validator', 'assertion', 'coercer'))
    f = DetFn(c, 'f', kinds=('obj', 'raise') if what == 'coercer' else ('same', 'raise'), types=('V1', 'W'))
    how = c.choice('how', ('add', 'apply'))

    def pre(cls):
        tok = {'validator': R.CallValidation, 'coercer': R.CallCoercion, 'assertion': lambda f: R.AssertCallValidation(holds)}[what](f)
        if how == 'apply':
            cls.x.filler.sub_filler(key).apply(tok)
        elif what == 'validator':
            cls.x.add_validator(f, sub_key=key)
        elif what == 'coercer':
            cls.x.add_coercer(f, sub_key=key)
        else:
            cls.x.add_assert_validator(holds, sub_key=key)

    def holds(v):
        f(v)
        return True
    o = c.attempt(lambda: c.record('A', {'x': make(R, U.V1)}, ns={'pre_bind': classmethod(pre)}, default_type_check=style(R, d)))
    node = Leaf(None, plain(U.V1), f if what == 'coercer' else None, None if what == 'coercer' else f)
    if node.conflict(d) or (d == 'hollow' and kind not in ('union', 'itself')):
        c.check('refused at class creation', o.raised())
        c.reach('refused')
        return
    c.check('accepted', o.ok)
    c.reach('accepted')
    v = c.obj('v', ('V1', 'V2', 'W', 'int'))
    exp = node.fill(c, v, d)
    r = c.attempt(lambda: o.value(x=build(v)))
    if kind == 'union' and d == 'hollow' and exp is None:
        # the hollow None member takes it
        c.check('the other member', r.ok and c.same(r.value.x, v))
        return
    c.check('the check takes effect', r.ok == (exp is not None))
    if r.ok:
        c.check('the value', c.same(get(r.value.x), exp.value))
    c.reach('enforced' if exp is None else 'passed')


@UNITS.unit(reach=('refused',), weight=3)
def no_such_part(c):
    """tokens for parts a field does not have are refused"""
    R = c.R
    hint, key = c.choice('which', ((int, 0), (List[int], 1), (List[int], 'x'), (Tuple[int, int], 2), (Tuple[int, ...], 1), (Dict[int, int], 2), (Union[int, str], 2), (typing.Iterable[int], 0), (Gen[int], 0),
                                   (Literal[1], 0), (Callable, 0)))
    what = c.choice('what', ('add_validator', 'add_coercer', 'add_assert_validator'))

    def pre(cls):
        getattr(cls.x, what)(lambda v: v, sub_key=key)
    o = c.attempt(lambda: c.record('A', {'x': hint}, ns={'pre_bind': classmethod(pre)}, default_type_check=R.hollow if hint is Gen[int] else R.check))
    c.check('refused', o.raised())
    c.reach('refused')


@UNITS.unit(reach=('refused', 'accepted'), weight=6)
def not_types(c):
    """hints that are no types can have neither tokens nor checking"""
    R = c.R
    tv = typing.TypeVar('tv')
    which = c.choice('which', ('number', 'instance', 'type variable', 'generic', 'generic nested', 'generic checked', 'generic validated', 'generic with checked list', 'NoReturn', 'function', 'unhashable', 'generic with unhashable'))
    hint, bad = {'number': (5, 0), 'instance': (U.V1(3), 0), 'type variable': (tv, 0), 'generic': (Gen[U.V1], 0), 'generic nested': (Gen[List[U.V1]], 0), 'generic checked': (Gen[annot(R, U.V1, R.check)], 1),
                 'generic validated': (Gen[annot(R, U.V1, R.CallValidation(lambda v: v))], 1), 'generic with checked list': (Gen[annot(R, List[annot(R, U.V1, R.check)], R.check)], 1), 'NoReturn': (typing.NoReturn, 0),
                 'function': (U._func(1), 0), 'unhashable': ([3], 0), 'generic with unhashable': (Gen[List[R.Annotated[int, [1], R.check]]], 1)}[which]
    d = c.choice('default', ('check', 'strict', 'hollow'))
    how = c.choice('how', ('bare', 'style', 'validator', 'coercer', 'tag', 'pre_bind'))
    ns = {}
    if how != 'bare' and how != 'pre_bind':
        hint = c.attempt(lambda: annot(R, hint, {'style': R.check, 'validator': R.CallValidation(lambda v: v), 'coercer': R.CallCoercion(lambda v: v), 'tag': R.Tag(1)}[how]))
        if not hint.ok:
            c.cut('typing refuses it')
        hint = hint.value
    if how == 'pre_bind':
        def pre(cls):
            cls.x.add_validator(lambda v: v)
        ns = {'pre_bind': classmethod(pre)}
    o = c.attempt(lambda: c.record('A', {'x': hint}, ns=ns, default_type_check=style(R, d)))
    if bad or d != 'hollow' or how in ('style', 'validator', 'coercer', 'pre_bind'):
        c.check('refused', o.raised())
        c.reach('refused')
    elif how == 'bare':
        c.check('accepted', o.ok)
        v = c.obj('v', ('V0', 'int', 'NoneType', 'list'))
        c.check('anything goes', c.same(o.value(x=v).x, v))
        c.reach('accepted')


class Concrete(Virt):
    def __init__(self, *a, **k):
        self.a = a

    def f(self):
        pass


@UNITS.unit(reach=('refused', 'accepted'), weight=6)
def loose(c):
    """loose coercers need a class that can be called"""
    R = c.R
    tok = c.choice('token', ('Loose', 'LooseUnpack', 'LooseUnpackMap'))
    form = c.choice('form', ('class', 'instance', 'constrained', 'composed', 'pre_bind'))
    T = getattr(R, tok)
    which = c.choice('which', ('concrete', 'V1', 'abstract', 'Sized', 'Mapping', 'Integral', 'Sequence[V1]', 'list[V1]', 'Callable', 'Literal', 'union with abstract', 'union', 'abstract in list', 'abstract in checked list'))
    con = {'Loose': lambda: T.constrain(list)(), 'LooseUnpack': lambda: T.constrain(list, ...)(), 'LooseUnpackMap': lambda: T.constrain(a=list)()}[tok]
    t = {'class': lambda: T, 'instance': lambda: T(), 'constrained': con, 'composed': lambda: R.ComposeCoercer(T, R.CallCoercion(lambda v: v)), 'pre_bind': lambda: T}[form]()
    toks = (R.check,) if form == 'pre_bind' else (R.check, t)
    inner = {'concrete': Concrete, 'V1': U.V1, 'abstract': Virt, 'Sized': collections.abc.Sized, 'Mapping': Mapping, 'Integral': numbers.Integral, 'Sequence[V1]': Sequence[U.V1], 'list[V1]': List[U.V1],
             'Callable': Callable, 'Literal': Literal[1, 2], 'union with abstract': Union[U.V1, Virt], 'union': Union[U.V1, None], 'abstract in list': List[annot(R, Virt, *toks)], 'abstract in checked list': List[annot(R, Virt, *toks)]}[which]
    hint = annot(R, inner, *(toks if 'in list' not in which and 'checked list' not in which else (R.check,)))

    def pre(cls):
        (cls.x.filler.sub_filler(0) if 'list' in which and 'abstract' in which else cls.x.filler).apply(t)
    o = c.attempt(lambda: c.record('A', {'x': hint}, ns={'pre_bind': classmethod(pre)} if form == 'pre_bind' else {}))
    if which in ('concrete', 'V1', 'list[V1]', 'union'):
        c.check('accepted', o.ok)
        if which == 'concrete' and tok == 'Loose':
            v = c.obj('v', ('list', 'NoneType') if form != 'constrained' else ('list',))
            r = c.attempt(lambda: o.value(x=v))
            c.check('coerced', r.ok and type(r.value.x) is Concrete and c.all_same(r.value.x.a, (v,)))
        c.reach('accepted')
    else:
        c.check('refused', o.raised())
        c.reach('refused')


@UNITS.unit(reach=('refused', 'accepted'), weight=6)
def finals(c):
    """Final only in frozen classes, never bare"""
    R = c.R
    frozen = c.choice('frozen', (None, False, True))
    kw = {} if frozen is None else {'frozen': frozen}
    form = c.choice('form', ('Final[T]', 'annotated', 'around annotated', 'bare', 'bare annotated', 'string', 'with default', 'second field', 'no Final'))
    parent = c.choice('parent', ('none', 'frozen', 'mutable'))
    bases = None if parent == 'none' else (c.record('P', {'p': Dflt(object, 1)}, frozen=parent == 'frozen'),)
    F = typing.Final
    hint = {'Final[T]': F[U.V1], 'annotated': annot(R, F[U.V1], R.check), 'around annotated': F[annot(R, U.V1, R.check)], 'bare': F, 'string': 'typing.Final[int]', 'no Final': annot(R, U.V1, R.check),
            'bare annotated': annot(R, F, R.check)}.get(form, F[annot(R, U.V1, R.check)])
    if form == 'string':
        import symx.scratch
        symx.scratch.typing = typing
    fields = {'x': Dflt(hint, U.V1(1))} if form == 'with default' else {'x': object, 'z': hint} if form == 'second field' else {'x': hint}
    o = c.attempt(lambda: c.record('A', fields, bases=bases, **kw))
    if 'bare' in form or (not frozen and form != 'no Final'):
        c.check('refused', o.raised())
        c.reach('refused')
        return
    c.check('accepted', o.ok)
    c.reach('accepted')
    v = c.obj('v', ('V1', 'V2', 'W', 'int'))
    r = c.attempt(lambda: o.value(x=1, z=v) if form == 'second field' else o.value(x=v))
    checked = form not in ('Final[T]', 'string')
    c.check('the checks take effect', c.Iff(r.ok, c.Or(not checked, c.is_inst(v, U.V1))))
    if r.ok and frozen:
        c.check('immutable', c.attempt(lambda: setattr(r.value, 'x', 1)).raised(TypeError))


@UNITS.unit(reach=('refused', 'accepted'), weight=3)
def no_fields(c):
    """classes without fields are refused"""
    R = c.R
    import symx.scratch
    symx.scratch.typing = typing
    form = c.choice('form', ('empty', 'ClassVar', 'bare ClassVar', 'annotated ClassVar', 'ClassVar string', 'ClassVar and default', 'only values', 'methods', 'one', 'ClassVar and one', 'mixin annotations'))
    CV = typing.ClassVar
    fields = {'empty': {}, 'ClassVar': {'k': CV[int]}, 'bare ClassVar': {'k': CV}, 'annotated ClassVar': {'k': annot(R, CV[int], R.check)}, 'ClassVar string': {'k': 'typing.ClassVar[int]'}, 'ClassVar and default': {'k': Dflt(CV[int], 4)},
              'only values': {}, 'methods': {}, 'one': {'x': object}, 'ClassVar and one': {'k': Dflt(CV, 4), 'x': object}, 'mixin annotations': {}}[form]
    ns = {'only values': {'a': 5}, 'methods': {'m': lambda self: 1}}.get(form, {})

    class Mixin:
        __annotations__ = {'note': int}
    parent = c.choice('parent', ('none', 'record'))
    bases = () if parent == 'none' else (c.record('P', {'p': Dflt(object, 1)}),)
    if form == 'mixin annotations':
        bases = (Mixin,) + (bases or (R.RecordBase,))
    o = c.attempt(lambda: c.record('A', fields, bases=bases or None, ns=ns, frozen=c.choice('frozen', (False, True))))
    if parent == 'none' and 'one' not in form:
        c.check('refused', o.raised(ValueError))
        c.reach('refused')
        return
    c.check('accepted', o.ok)
    c.check('no field but the declared', list(o.value._fields) == (['p'] if parent == 'record' else []) + (['x'] if 'one' in form else []))
    v = c.obj('v', ('V0', 'int'))
    if 'one' in form:
        c.check('field works', c.same(o.value(x=v).x, v))
    c.check('class variables are no arguments', c.attempt(lambda: o.value(k=v)).raised(TypeError))
    if form in ('ClassVar and default', 'ClassVar and one'):
        c.check('class variables stay', o.value.k == 4)
    c.reach('accepted')


LATE = {
    'int': (int, (None,)), 'abstract': (Virt, (None,)), 'list': (List[U.V1], (None, 0)), 'tuple': (Tuple[U.V1, int], (None, 0, 1)), 'tuple...': (Tuple[U.V1, ...], (None, 0)), 'dict': (Dict[U.V1, int], (None, 0, 1)),
    'union': (Union[U.V1, None], (None, 0, 1)), 'deep': (List[Tuple[U.V1, ...]], (None, 0)), 'Literal': (Literal[1], (None,)), 'Iterable': (typing.Iterable[int], (None,)), 'Type': (Type[U.V1], (None,)),
    'Callable': (Callable, (None,)), 'bool': (bool, (None,)), 'None': (None, (None,)), 'generic': (Gen[int], (None,)), 'deque': (typing.Deque[U.V1], (None, 0)), 'object': (object, (None,)), 'NewType': (NewInt, (None,)),
}


@UNITS.unit(reach=('refused',), weight=10)
def afterwards(c):
    """fields cannot be changed once their class exists, and attempts leave no trace"""
    R = c.R
    kind = c.choice('kind', tuple(LATE))
    hint, keys = LATE[kind]
    if kind == 'Iterable':
        hint = typing.Iterable[annot(R, int, R.hollow)]
    d = c.choice('default', ('check', 'hollow')) if kind != 'generic' else 'hollow'
    A = c.record('A', {'x': hint}, default_type_check=style(R, d))
    where = c.choice('where', ('class', 'subclass'))
    cls = A if where == 'class' else c.record('B', {'y': Dflt(object, 1)}, bases=(A,))
    key = c.choice('key', keys)
    what = c.choice('what', ('add_validator', 'add_coercer', 'add_assert_validator', 'style', 'token', 'tag', 'foreign'))
    hit = []

    def bomb(v):
        hit.append(v)
        raise ValueError

    def change():
        if what.startswith('add_'):
            kw = {} if key is None else {'sub_key': key}
            getattr(cls.x, what)(bomb, **kw)
        else:
            cls.x.filler.sub_filler(key).apply({'style': R.check_strict, 'token': R.CallValidation(bomb), 'tag': R.Tag(2), 'foreign': 'note'}[what])
    good = {'int': 1, 'abstract': U.W(1), 'list': [], 'tuple': (U.V1(1), 1), 'tuple...': (), 'dict': {}, 'union': None, 'deep': [()], 'Literal': 1, 'Iterable': [], 'Type': U.V1, 'Callable': int, 'bool': True,
            'None': None, 'generic': 1, 'deque': collections.deque(), 'object': 4, 'NewType': 1}[kind]
    if c.choice('used before', (False, True)):
        A(x=good)
    o = c.attempt(change)
    c.check('refused', o.raised())
    v = c.obj('v', ('V1', 'V2', 'int', 'NoneType'))
    accepted = {'int': lambda: c.is_inst(v, int), 'abstract': lambda: c.is_inst(v, Virt), 'union': lambda: c.Or(c.is_inst(v, U.V1), c.same(v, None)), 'None': lambda: c.same(v, None), 'object': lambda: True,
                'NewType': lambda: c.is_inst(v, int), 'bool': lambda: c.is_inst(v, bool), 'Callable': lambda: False, 'Literal': lambda: c.And(c.is_inst(v, int), c.eq(v, 1)), 'generic': lambda: True}
    r = c.attempt(lambda: A(x=v))
    c.check('it acts as declared', c.Iff(r.ok, True if d == 'hollow' else accepted.get(kind, lambda: False)()))
    c.check('still', c.attempt(lambda: cls(x=good)).ok)
    if kind in ('list', 'deep', 'tuple...', 'deque'):
        e = c.obj('e', ('V1', 'int'))
        r = c.attempt(lambda: A(x={'list': [e], 'deep': [(e,)], 'tuple...': (e,), 'deque': collections.deque([e])}[kind]))
        c.check('elements act as declared', c.Iff(r.ok, c.Or(d == 'hollow', c.is_inst(e, U.V1))))
    c.check('never called', not hit)
    c.reach('refused')


class Meta:
    """Metadata of someone else's."""

    def __init__(self, **k):
        self.__dict__.update(k)


class NoEq:
    __hash__ = None

    def __eq__(self, other):
        raise RuntimeError('compared')


class NoBool:
    def __bool__(self):
        raise RuntimeError('asked')


@UNITS.unit(reach=('enforced', 'passed'), weight=6)
def foreign(c):
    """metadata that is no token is ignored, and does not get in the way"""
    R = c.R

    def fn(v):
        raise RuntimeError('called')
    import functools

    @functools.wraps(int)
    def wrapping(v):
        raise RuntimeError('called')

    k = c.choice('what', ('string', 'number', 'None', 'function', 'type', 'wrapping function', 'wrapped token', 'unhashable', 'hostile eq', 'hostile truth', 'dict', 'Annotated', 'own attribute', 'tag', 'Ellipsis'))
    m = {'string': 'doc', 'number': 5, 'None': None, 'function': fn, 'type': int, 'wrapping function': wrapping, 'wrapped token': Meta(__wrapped__=Meta()), 'unhashable': [1], 'hostile eq': NoEq(),
         'hostile truth': NoBool(), 'dict': {'a': 1}, 'Annotated': List[int], 'own attribute': Meta(inner=3, func=fn), 'tag': R.Tag(1), 'Ellipsis': ...}[k]
    pos = c.choice('position', ('before', 'after', 'between'))
    g = DetFn(c, 'g', kinds=('same', 'raise'))
    toks = [R.check, R.CallValidation(g)]
    toks.insert({'before': 0, 'between': 1, 'after': 2}[pos], m)
    form = c.choice('form', ('field', 'element', 'union', 'value', 'Final', 'key and value'))
    h = annot(R, U.V1, *toks)
    v = c.obj('v', ('V1', 'V2', 'W', 'int'))
    hint, val = {'field': (h, v), 'element': (annot(R, List[h], m, R.check), [v]), 'union': (annot(R, Union[h, None], m), v), 'value': (annot(R, Dict[str, h], R.check), {'k': v}), 'Final': (annot(R, typing.Final[h], m), v),
                 'key and value': (annot(R, Dict[h, h], R.check, m), {v: v})}[form]
    o = c.attempt(lambda: c.record('A', {'x': hint}, frozen=form == 'Final'))
    c.check('accepted', o.ok)
    exp = Leaf('check', plain(U.V1), None, g).fill(c, v, 'hollow')
    r = c.attempt(lambda: o.value(x=val))
    if form == 'union' and exp is None:
        # the other member is unchecked
        c.check('the other member', r.ok and c.same(r.value.x, v))
        return
    c.check('the checks take effect', r.ok == (exp is not None))
    if r.ok:
        c.check('the value itself', r.value.x is val or c.same(r.value.x, val))
    c.reach('enforced' if exp is None else 'passed')


COMBOS = ((1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 1), (1, 2))
OPTIONS = ({}, {'frozen': True}, {'ordered': True}, {'unary_parse': True}, {'unary_parse': False}, {'frozen': True, 'ordered': True})


def combos(c):
    """however many coercers and validators there are, of whichever kind, next to whatever else"""
    R = c.R
    d = c.choice('default', ('check', 'hollow'))
    st = c.choice('style', STYLES)
    n, m = c.choice('tokens', c.P.get('combos', COMBOS))
    h = abstract(Virt) if c.choice('abstract', (False, True)) else plain(U.V1)
    fs = [DetFn(c, 'f%d' % i, kinds=('obj', 'raise'), types=('V1',)) for i in range(n)]
    gs = [DetFn(c, 'g%d' % i, kinds=('same', 'raise')) for i in range(m)]
    more = {'nothing': (), 'tag': (R.Tag('t'),), 'doc': ('doc', 5), 'excluded': (R.exclude_from_ordering,)}[c.choice('more', c.P.get('more', ('nothing', 'tag', 'doc')))]
    stt = [style(R, st)] if st else []
    place = c.choice('place', c.P['places'])
    order = c.choice('order', c.P['orders'])
    cs, vs = [R.CallCoercion(f) for f in fs], [R.CallValidation(g) for g in gs]
    toks = {'style first': stt + list(more) + cs + vs, 'style last': cs + vs + list(more) + stt, 'validators first': vs + stt + cs + list(more)}[order]
    hint = annot(R, h.make(R), *toks)
    hint = {'plain': lambda: hint, 'list': lambda: annot(R, List[hint], R.check), 'union': lambda: Union[hint, annot(R, str, R.check)]}[place]()
    o = c.attempt(lambda: c.record('A', {'x': hint}, default_type_check=style(R, d)))
    e = st or d
    if (e == 'hollow' and n) or (e == 'strict' and h.exact is None):
        c.check('refused at class creation', o.raised())
        c.reach('refused')
        return
    c.check('accepted', o.ok)
    c.reach('accepted')
    v = c.obj('v', ('V1', 'int'))
    exp = Spec(h, e, fs, gs).fill(c, v)
    r = c.attempt(lambda: o.value(x=[v] if place == 'list' else v))
    c.check('the checks take effect', r.ok == (exp is not None))
    if r.ok:
        c.check('the value', c.same(r.value.x[0] if place == 'list' else r.value.x, exp.value))
    c.reach('enforced' if exp is None else 'passed')


ORDERS = ('style first', 'style last', 'validators first')
UNITS.add('combos of coercers', combos, places=('plain',), orders=ORDERS, combos=((1, 0), (2, 0), (3, 0)), reach=ALLR, weight=12)
UNITS.add('combos of coercers and validators', combos, places=('plain',), orders=('style last',), combos=((1, 1), (0, 1), (0, 2)), reach=ALLR, weight=12)
UNITS.add('combos in containers', combos, places=('list', 'union'), orders=('style last',), more=('nothing',), combos=((2, 0), (0, 1), (1, 1)), reach=ALLR, weight=12)
UNITS.add('combos everywhere', combos, places=('plain', 'list', 'union'), orders=ORDERS, reach=ALLR, weight=130, tier='thorough')


BAD = ('coercer unchecked', 'strict abstract', 'checked in unchecked', 'unenforceable', 'not a type', 'loose abstract', 'Final', 'bare Final', 'validator in unchecked', 'coercer in unchecked list', 'literal coercer')
GOOD = ('coercer checked', 'strict', 'checked list', 'loose', 'validator unchecked')


def options(c):
    """whatever options, hooks, defaults, bases and other fields the class has"""
    R = c.R
    which = c.choice('which', c.P['which'])
    f = lambda v: v
    hint = {'coercer unchecked': annot(R, U.V1, R.hollow, R.CallCoercion(f)), 'strict abstract': annot(R, Virt, R.check_strict), 'checked in unchecked': annot(R, List[annot(R, U.V1, R.check)], R.hollow),
            'unenforceable': annot(R, typing.Iterable[annot(R, U.V1, R.check)], R.check), 'not a type': annot(R, 5, R.check), 'loose abstract': annot(R, Virt, R.check, R.Loose),
            'Final': typing.Final[annot(R, U.V1, R.check)], 'bare Final': typing.Final, 'validator in unchecked': annot(R, List[annot(R, U.V1, R.hollow, R.CallValidation(f))], R.hollow),
            'coercer in unchecked list': annot(R, List[annot(R, U.V1, R.check, R.CallCoercion(f))], R.hollow), 'literal coercer': annot(R, Literal[1], R.hollow, R.CallCoercion(f)),
            'coercer checked': annot(R, U.V1, R.check, R.CallCoercion(f)), 'strict': annot(R, U.V1, R.check_strict), 'checked list': annot(R, List[annot(R, U.V1, R.check)], R.check), 'loose': annot(R, U.V1, R.check, R.Loose),
            'validator unchecked': annot(R, U.V1, R.hollow, R.CallValidation(f))}[which]
    kw = dict(c.choice('options', c.P.get('options', OPTIONS)))
    d = c.choice('default', c.P.get('defaults', (None, 'check')))
    if d:
        kw['default_type_check'] = style(R, d)
    around = c.choice('around', ('alone', 'first', 'last', 'middle', 'default', 'factory', 'hook', 'pre_bind', 'parser', 'child', 'grandchild', 'frozen parent', 'mixin', 'class variable', 'tagged'))
    fields, ns, bases = {'x': hint}, {}, None
    if around in ('first', 'middle'):
        fields['y'] = Dflt(object, 1)
    if around in ('last', 'middle'):
        fields = {'w': object, **fields}
    if around == 'default':
        fields = {'x': Dflt(hint, U.V1(1))}
    if around == 'factory':
        fields = {'x': Dflt(hint, R.Factory(lambda: U.V1(1)))}
    if around == 'tagged' and which != 'bare Final':
        fields = {'x': annot(R, hint, R.Tag(2))}
    if around == 'hook':
        ns['post_new'] = lambda self: None
    if around == 'pre_bind':
        ns['pre_bind'] = classmethod(lambda cls: None)
    if around == 'parser':
        ns['p'] = R.parser(staticmethod(lambda v: v))
    if around in ('child', 'grandchild', 'frozen parent'):
        bases = (c.record('P', {'p': Dflt(object, 1)}, frozen=around == 'frozen parent', ordered=True),)
    if around == 'grandchild':
        bases = (c.record('Q', {'q': Dflt(object, 1)}, bases, frozen=True),)
    if around == 'mixin':
        bases = (R.RecordBase, PlainMixin)
    if around == 'class variable':
        fields = {'k': Dflt(typing.ClassVar[int], 2), **fields}
    o = c.attempt(lambda: c.record('A', fields, bases, ns, **kw))
    if which in BAD and not (which == 'Final' and kw.get('frozen')):
        c.check('refused at class creation', o.raised())
        c.reach('refused')
        return
    c.check('accepted', o.ok)
    c.reach('accepted')
    v = c.obj('v', ('V1', 'int'))
    val = [v] if which == 'checked list' else v
    r = c.attempt(lambda: o.value(x=val, **({'w': 1} if 'w' in fields else {})))
    if which == 'validator unchecked':
        c.check('accepted', r.ok)
    elif which not in ('loose', 'coercer checked'):
        c.check('enforced', c.Iff(r.ok, c.is_type(v, U.V1)))


UNITS.add('options and conflicts', options, which=BAD[:6], reach=('refused',), weight=12)
UNITS.add('options and more conflicts', options, which=BAD[6:], reach=('refused', 'accepted'), weight=12)
UNITS.add('options without conflict', options, which=GOOD, options=OPTIONS[:4], reach=('accepted',), weight=12)
UNITS.add('options everywhere', options, which=BAD + GOOD, defaults=(None, 'hollow', 'check'), reach=('refused', 'accepted'), weight=60, tier='thorough')
