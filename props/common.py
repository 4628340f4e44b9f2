"""Reference pieces shared by the harnesses."""
import collections
import collections.abc
import functools
import numbers
import typing
from typing import Any, Callable, Dict, FrozenSet, List, Literal, Mapping, NewType, Optional, Sequence, Set, Tuple, Type, Union

from symx import universe as U
from symx.ctx import Dflt, Plain, TwoArgs

ALL = U.ALL
SIMPLE = U.SIMPLE
VTYPES = ('V0', 'V1', 'V2', 'W')
NewInt = NewType('NewInt', int)


class Proto(typing.Protocol):
    pass


import abc  # noqa: E402


class Virt(abc.ABC):
    """An abstract class with a virtual subclass."""

    @abc.abstractmethod
    def f(self):
        pass


Virt.register(U.W)


class Hinted:
    """A hint with its reference acceptance predicates."""

    def __init__(self, name, make, inst, exact=None, cls=None):
        self.name = name
        self.make = make      # R -> the hint
        self.inst = inst      # (c, v) -> bool-ish: instance of the declared type
        self.exact = exact    # (c, v) -> bool-ish: exactly of the declared type; None: cannot be declared strict
        self.cls = cls

    def __repr__(self):
        return self.name

    def accepts(self, c, v, strict):
        return self.exact(c, v) if strict else self.inst(c, v)


def plain(cls, name=None, hint=None):
    h = cls if hint is None else hint
    return Hinted(name or cls.__name__, lambda R: h, lambda c, v: c.is_inst(v, cls), lambda c, v: c.is_type(v, cls), cls)


def abstract(cls, name=None, hint=None):
    h = cls if hint is None else hint
    return Hinted(name or cls.__name__, lambda R: h, lambda c, v: c.is_inst(v, cls), None, cls)


def const(name, hint, value):
    f = lambda c, v: c.same(v, value)
    return Hinted(name, lambda R: hint, f, f)


T_ = typing.TypeVar('T_')

HINTS = [
    plain(int), plain(bool), plain(float), plain(str), plain(bytes), plain(object), plain(U.V0), plain(U.V1), plain(U.V2), plain(U.W),
    plain(U.ISub), plain(list), plain(tuple), plain(dict), plain(type),
    Hinted('Any', lambda R: Any, lambda c, v: True, lambda c, v: c.is_type(v, object), object),
    plain(list, 'List', List), plain(dict, 'Dict[T,T]', Dict[T_, T_]), plain(tuple, 'Tuple', Tuple), plain(type, 'Type', Type),
    plain(int, 'NewType', NewInt),
    const('None', None, None), const('NoneType', type(None), None), const('Ellipsis', type(...), ...),
    Hinted('Callable', lambda R: Callable, lambda c, v: c.callable(v), lambda c, v: c.callable(v)),
    Hinted('Callable[..., int]', lambda R: Callable[..., int], lambda c, v: c.callable(v), lambda c, v: c.callable(v)),
    abstract(numbers.Integral), abstract(numbers.Number), abstract(collections.abc.Sized), abstract(collections.abc.Hashable),
    abstract(collections.abc.Mapping, 'Mapping', Mapping), abstract(collections.abc.Sequence, 'Sequence', Sequence), abstract(Virt),
    abstract(collections.abc.Iterable, 'Iterable', typing.Iterable),
]
BY_HINT = {h.name: h for h in HINTS}


class DetFn:
    """An arbitrary deterministic function of the identity of its argument, declared lazily: .ask() gives (kind, value) without calling."""

    def __init__(self, c, name, kinds=('same', 'obj', 'raise'), types=VTYPES, excs=(Plain,), kmax=None):
        self.c, self.name, self.kinds, self.types, self.excs, self.kmax = c, name, kinds, types, excs, kmax
        self.memo = []
        self.calls = []
        self.__name__ = name

    def ask(self, arg):
        c = self.c
        for a, kind, v in self.memo:
            if c.fork(c.same(a, arg)):
                return kind, v
        i = len(self.memo)
        if i >= 12:
            c.cut('function applied to too many arguments')
        kind = c.choice('%s.%d' % (self.name, i), self.kinds)
        v = None
        if kind == 'same':
            v = arg
        elif kind == 'obj':
            v = c.obj('%s.%d.v' % (self.name, i), self.types, kmax=self.kmax)
        elif kind == 'raise':
            v = c.choice('%s.%d.e' % (self.name, i), self.excs)
        self.memo.append((arg, kind, v))
        return kind, v

    def __call__(self, arg):
        self.calls.append(arg)
        kind, v = self.ask(arg)
        if kind == 'raise':
            raise (v('x', 'y') if v is TwoArgs else v('stub %s' % self.name))
        return v


def style(R, name):
    return {'check': R.check, 'strict': R.check_strict, 'hollow': R.hollow}[name]


def annot(R, hint, *tokens):
    if not tokens:
        return hint
    return R.Annotated[(hint,) + tuple(tokens)]


class Hostile:
    """Every way of looking at it raises and is recorded."""
    seen = None


def hostile():
    touched = []

    def trap(name):
        def f(self, *a, **k):
            touched.append(name)
            raise RuntimeError('touched ' + name)
        return f
    ns = {n: trap(n) for n in ('__eq__', '__ne__', '__bool__', '__len__', '__iter__', '__getitem__', '__contains__', '__hash__',
                               '__call__', '__getattribute__', '__repr__', '__str__', '__lt__', '__copy__', '__deepcopy__',
                               '__index__', '__int__', '__float__', '__format__', '__enter__', '__exit__')}
    return type('Hostile', (), ns)(), touched


# ---------------------------------------------------------------- reference filling
EXACT, INEXACT, COERCED, HOLLOW = 0, 1, 2, 3


class Filled:
    """Reference result: the value itself (new=False) or a container rebuilt from children."""

    def __init__(self, value, level=EXACT, children=None, pairs=None, like=None):
        self.value, self.level, self.children, self.pairs, self.like = value, level, children, pairs, like

    @property
    def new(self):
        return self.children is not None or self.pairs is not None


class Spec:
    """A type of the universe with a style, coercers and validators: hint(R) and the reference fill(c, v) -> Filled or None."""

    def __init__(self, hinted, st='check', coercers=(), validators=()):
        self.h, self.st, self.coercers, self.validators = hinted, st, tuple(coercers), tuple(validators)

    def hint(self, R):
        return annot(R, self.h.make(R), style(R, self.st), *self.tokens(R))

    def tokens(self, R):
        return [R.CallCoercion(f) for f in self.coercers] + [R.CallValidation(g) for g in self.validators]

    def fill(self, c, v):
        if self.st == 'hollow':
            level = HOLLOW
        elif c.fork(self.h.exact(c, v) if self.h.exact else False):
            level = EXACT
        elif self.st == 'check' and c.fork(self.h.inst(c, v)):
            level = INEXACT
        else:
            for f in self.coercers:
                kind, r = f.ask(v)
                if kind != 'raise' and c.fork(self.h.accepts(c, r, self.st == 'strict')):
                    v = r
                    break
            else:
                return None
            level = COERCED
        for g in self.validators:
            kind, r = g.ask(v)
            if kind == 'raise':
                return None
            v = r
        return Filled(v, level)


def matches(c, got, exp, label):
    """Asserts that got is what the reference says."""
    if not exp.new:
        c.check(label + ': the value itself', c.same(got, exp.value))
        return
    c.check(label + ': rebuilt, not the argument', got is not exp.value)
    c.check(label + ': of the same type', type(got) is type(exp.like))
    if exp.pairs is not None:
        items = list(got.items())
        c.check(label + ': number of pairs', len(items) == len(exp.pairs))
        for i, ((k, v), (ek, ev)) in enumerate(zip(items, exp.pairs)):
            matches(c, k, ek, '%s key %d' % (label, i))
            matches(c, v, ev, '%s value %d' % (label, i))
        if isinstance(got, collections.defaultdict):
            c.check(label + ': default factory kept', got.default_factory is exp.like.default_factory)
        return
    xs = list(got)
    if isinstance(got, (set, frozenset)):
        es = [e.value for e in exp.children]
        c.check(label + ': no element lost', c.And(*[c.Or(*[c.eq(e, x) for x in xs]) for e in es]))
        c.check(label + ': no element invented', c.And(*[c.Or(*[c.same(e, x) for e in es]) for x in xs]))
        return
    c.check(label + ': number of elements', len(xs) == len(exp.children))
    for i, (x, e) in enumerate(zip(xs, exp.children)):
        matches(c, x, e, '%s element %d' % (label, i))
    if isinstance(got, collections.deque):
        c.check(label + ': maxlen kept', got.maxlen == exp.like.maxlen)


class SeqSpec:
    """A parameterised sequence, set or variadic tuple."""

    def __init__(self, make_hint, elem, accepts, st='check'):
        self.make_hint, self.elem, self.accepts, self.st = make_hint, elem, accepts, st

    def hint(self, R):
        return annot(R, self.make_hint(self.elem.hint(R)), style(R, self.st))

    def fill(self, c, v):
        if not self.accepts(v):
            return None
        parts = [self.elem.fill(c, e) for e in v]
        if any(p is None for p in parts):
            return None
        if all(not p.new and c.fork(c.same(p.value, e)) for p, e in zip(parts, v)):
            return Filled(v)
        return Filled(v, children=parts, like=v)


class TupSpec:
    """A fixed-length tuple."""

    def __init__(self, elems, st='check'):
        self.elems, self.st = elems, st

    def hint(self, R):
        return annot(R, Tuple[tuple(e.hint(R) for e in self.elems)] if self.elems else Tuple[()], style(R, self.st))

    def fill(self, c, v):
        if not isinstance(v, tuple) or (self.st == 'strict' and type(v) is not tuple) or len(v) != len(self.elems):
            return None
        parts = [s.fill(c, e) for s, e in zip(self.elems, v)]
        if any(p is None for p in parts):
            return None
        if all(not p.new and c.fork(c.same(p.value, e)) for p, e in zip(parts, v)):
            return Filled(v)
        return Filled(v, children=parts, like=v)


class MapSpec:
    def __init__(self, make_hint, key, value, accepts, st='check'):
        self.make_hint, self.key, self.val, self.accepts, self.st = make_hint, key, value, accepts, st

    def hint(self, R):
        return annot(R, self.make_hint(self.key.hint(R), self.val.hint(R)), style(R, self.st))

    def fill(self, c, v):
        if not self.accepts(v):
            return None
        pairs = [(self.key.fill(c, k), self.val.fill(c, x)) for k, x in v.items()]
        if any(k is None or x is None for k, x in pairs):
            return None
        if all(not k.new and not x.new and c.fork(c.And(c.same(k.value, k0), c.same(x.value, x0)))
               for (k, x), (k0, x0) in zip(pairs, v.items())):
            return Filled(v)
        out = []
        for k, x in pairs:
            for e in out:
                if c.fork(c.eq(e[0].value, k.value)):
                    e[1] = x      # equal keys: the first key stays, the last value wins, as in any mapping
                    break
            else:
                out.append([k, x])
        return Filled(v, pairs=out, like=v)


def snapshot(v):
    """Structure of nested native containers, with the very leaves."""
    if isinstance(v, collections.abc.Mapping):
        return ('map', v, [(snapshot(k), snapshot(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        return ('seq', v, [snapshot(x) for x in v])
    return ('leaf', v, None)


def unchanged(c, v, snap):
    kind, v0, parts = snap
    if kind == 'leaf':
        return c.same(v, v0)
    if v is not v0:
        return False
    if kind == 'map':
        items = list(v.items())
        return len(items) == len(parts) and c.And(*[c.And(unchanged(c, k, sk), unchanged(c, x, sx))
                                                   for (k, x), (sk, sx) in zip(items, parts)])
    xs = list(v)
    return len(xs) == len(parts) and c.And(*[unchanged(c, x, s) for x, s in zip(xs, parts)])


class LSub(list):
    pass


class TSub(tuple):
    pass


class DSub(dict):
    pass


# ---------------------------------------------------------------- one class, declared in many ways
class Shape:
    """cls: the class; extra: names of further (optional) fields; frozen, ordered: of the class itself"""

    def __init__(self, cls, extra, frozen, ordered):
        self.cls, self.extra, self.frozen, self.ordered = cls, extra, frozen, ordered


class PlainMixin:
    """not a record"""
    mixed_in = 1

    def helper(self):
        return 2


SAME_FIELDS = ('plain', 'frozen', 'ordered', 'inherited', 'first inherited', 'last own', 'two bases', 'grandparent', 'frozen sub of mutable', 'mutable sub of frozen',
               'frozen sub of frozen', 'ordered sub', 'tagged', 'documented', 'hook', 'mixin', 'mixin first', 'annotated mixin', 'class variable', 'parser', 'pre_bind', 'final', 'methods', 'sibling')
MORE_FIELDS = ('extra default', 'extra factory', 'extra inherited', 'extra inherited factory', 'extra first')
SHAPES = SAME_FIELDS + MORE_FIELDS


def tagged_hint(R, h, *tokens):
    return Dflt(R.Annotated[(h.hint,) + tokens], h.value) if isinstance(h, Dflt) else R.Annotated[(h,) + tokens]


def shaped(c, fields, shapes=SHAPES, frozen=None, ordered=None, ns=None, name='A', **kw):
    """A record class with these fields (more optional ones in MORE_FIELDS), declared in one of many equivalent ways.
    frozen/ordered: what the class has to be (None: whatever the shape says); kw: for every class of the hierarchy."""
    R = c.R
    shape = c.choice('shape', shapes)
    ns = dict(ns or {})
    names = list(fields)
    fr = {'frozen': True, 'frozen sub of mutable': True, 'frozen sub of frozen': True, 'final': True}.get(shape, False) if frozen is None else frozen
    od = shape in ('ordered', 'ordered sub') if ordered is None else ordered
    own = dict(frozen=fr, ordered=od, **kw)
    par = dict(kw, frozen=fr)
    if shape in ('frozen sub of mutable', 'mutable sub of frozen'):
        par['frozen'] = not fr
    pick = lambda ks: {k: fields[k] for k in ks}
    extra = ()
    if shape in ('inherited', 'frozen sub of mutable', 'mutable sub of frozen', 'frozen sub of frozen', 'ordered sub'):
        A = c.record(name, {}, (c.record('Base', fields, **par),), ns=ns, **own)
    elif shape == 'sibling':
        B = c.record('Base', fields, **par)
        c.record('Sibling', {'other': Dflt(R.Annotated[int, R.check_strict], 0)}, (B,), ns={'post_new': lambda self: 7}, ordered=not od, **par)
        A = c.record(name, {}, (B,), ns=ns, **own)
    elif shape in ('first inherited', 'last own', 'two bases') and len(names) > 1:
        cut = len(names) - 1 if shape == 'last own' else 1
        B = c.record('Base', pick(names[:cut]), **par)
        if shape == 'two bases':
            A = c.record(name, pick(names[2:]), (B, c.record('Base2', pick(names[1:2]), **par)), ns=ns, **own)
        else:
            A = c.record(name, pick(names[cut:]), (B,), ns=ns, **own)
    elif shape == 'grandparent':
        A = c.record(name, {}, (c.record('Middle', {}, (c.record('Base', fields, **par),), **par),), ns=ns, **own)
    elif shape == 'tagged':
        A = c.record(name, {k: tagged_hint(R, h, R.Tag('tag'), R.Tag(1)) for k, h in fields.items()}, ns=ns, **own)
    elif shape == 'documented':
        A = c.record(name, {k: tagged_hint(R, h, 'documentation', 12, None) for k, h in fields.items()}, ns=dict({'__doc__': 'doc'}, **ns), **own)
    elif shape == 'hook':
        ns.setdefault('post_new', lambda self: None)
        A = c.record(name, fields, ns=ns, **own)
    elif shape == 'mixin':
        A = c.record(name, fields, (R.RecordBase, PlainMixin), ns=ns, **own)
    elif shape == 'mixin first':
        A = c.record(name, fields, (PlainMixin, R.RecordBase), ns=ns, **own)
    elif shape == 'annotated mixin':
        # a class that says something of the same names, in another order (as do class variables of a parent)
        M = type('Annotated_', (), {'__annotations__': {k: int for k in ['unrelated'] + names[::-1]}})
        A = c.record(name, fields, (M, R.RecordBase), ns=ns, **own)
    elif shape == 'class variable':
        A = c.record(name, dict({'CV': Dflt(typing.ClassVar[int], 3)}, **fields), ns=ns, **own)
    elif shape == 'parser':
        def parse_nothing(cls, v):
            raise TypeError('not this one')
        ns.setdefault('parse_nothing', R.parser(classmethod(parse_nothing)))
        A = c.record(name, fields, ns=ns, **own)
    elif shape == 'pre_bind':
        ns.setdefault('pre_bind', classmethod(lambda cls: None))
        A = c.record(name, fields, ns=ns, **own)
    elif shape == 'final' and fr:
        A = c.record(name, {k: Dflt(typing.Final[h.hint], h.value) if isinstance(h, Dflt) else typing.Final[h] for k, h in fields.items()}, ns=ns, **own)
    elif shape == 'methods':
        A = c.record(name, fields, ns=dict({'method': lambda self: 1, 'prop': property(lambda self: 2), '_private': 3}, **ns), **own)
    elif shape == 'extra default':
        extra = ('zz',)
        A = c.record(name, dict(fields, zz=Dflt(int, 0)), ns=ns, **own)
    elif shape == 'extra first':
        extra = ('zz',)
        A = c.record(name, dict({'zz': Dflt(object, None)}, **fields), ns=ns, **own)
    elif shape == 'extra factory':
        extra = ('zz',)
        A = c.record(name, dict(fields, zz=Dflt(int, R.Factory(lambda: 0))), ns=ns, **own)
    elif shape == 'extra inherited':
        extra = ('zz',)
        A = c.record(name, fields, (c.record('Base', {'zz': Dflt(int, 0)}, **par),), ns=ns, **own)
    elif shape == 'extra inherited factory':
        extra = ('zz',)
        A = c.record(name, fields, (c.record('Base', {'zz': Dflt(int, R.Factory(lambda: 0))}, **par),), ns=ns, **own)
    else:
        A = c.record(name, fields, ns=ns, **own)
    return Shape(A, extra, fr, od)


# ---------------------------------------------------------------- values that mislead whoever compares them, hashes them or takes their truth
class Touched(Exception):
    """raised by odd values"""


def _odd_class(name, base=object, **ns):
    def trap(self, *a):
        raise Touched(name)
    return type(name, (base,), {k: trap if v == 'raise' else (lambda self, *a, _v=v: _v) for k, v in ns.items()})


class NoTruth:
    """what comparisons of arrays give"""

    def __bool__(self):
        raise Touched('no truth value')


_R = [None]
ODD = {     # kind -> (maker, truth value or None, hashable, == usable)
    'nan': (lambda: float('nan'), True, True, True),
    'never equal': (_odd_class('NeverEqual', __eq__=False, __hash__=7), True, True, True),
    'never equal falsy': (_odd_class('NeverEqualFalsy', __eq__=False, __hash__=7, __bool__=False), False, True, True),
    'always equal': (_odd_class('AlwaysEqual', __eq__=True, __hash__=7), True, True, True),
    'always equal falsy': (_odd_class('AlwaysEqualFalsy', __eq__=True, __hash__=7, __len__=0), False, True, True),
    '== raises': (_odd_class('EqRaises', __eq__='raise', __hash__=7), True, True, False),
    '== has no truth value': (_odd_class('ArrayLike', __eq__=NoTruth(), __hash__='raise'), True, False, False),
    'no truth value': (_odd_class('BoolRaises', __bool__='raise', __hash__=7), None, True, True),
    'int never equal': (lambda: _odd_class('IntNeverEqual', int, __eq__=False, __hash__=7, __bool__=True)(0), True, True, True),
    'str always equal': (lambda: _odd_class('StrAlwaysEqual', str, __eq__=True, __hash__=7, __bool__=False)('text'), False, True, True),
    'unhashable': (_odd_class('Unhashable', __hash__='raise'), True, False, True),
    'NotImplemented': (lambda: NotImplemented, None, True, True),     # what methods return to mean something else
    'Ellipsis': (lambda: Ellipsis, True, True, True),
    'exception': (lambda: ValueError('a value'), True, True, True),
    'callable': (lambda: functools.partial(list), True, True, True),
    'factory': (lambda: _R[0].Factory(list), True, True, True),        # what means something else where a default is declared
    'tag': (lambda: _R[0].Tag('a value'), True, True, True),
}
ODD_ALL = tuple(ODD)
ODD_EQ = tuple(k for k, (m, t, h, e) in ODD.items() if e)
ODD_DEFAULT = tuple(k for k in ODD_EQ if k != 'factory')
ODD_TRUTH = tuple(k for k, (m, t, h, e) in ODD.items() if t is not None)
ODD_HASH = tuple(k for k, (m, t, h, e) in ODD.items() if h)


def odd(c, name='odd', kinds=ODD_ALL):
    """(kind, a new value of that kind)"""
    kind = c.choice(name, kinds)
    return kind, odd_of(c, kind)


def odd_of(c, kind):
    _R[0] = c.R
    return ODD[kind][0]()
