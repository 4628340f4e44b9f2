"""C07: sequence, set and tuple fields fill every element in place."""
from .common import *
from symx.unit import Registry
deque = collections.deque

UNITS = Registry()
BOUNDS = ('containers of 0..4 elements (thorough 5), every element an arbitrary object, identical or equal ones included; element types with 0..1 '
          'coercer and 0..1 validator of arbitrary outcome; list, list subclass, tuple, tuple subclass, deque (with and without maxlen), set, frozenset, str; nesting depth 2')
OUTSIDE = 'containers that cannot be rebuilt from an iterable of their elements (named tuples); longer containers; deeper nesting'
ASSUMPTIONS = ['coercers and validators of elements are deterministic functions of the identity of their argument']


def islist(v):
    return isinstance(v, list)


def isseq(v):
    return isinstance(v, collections.abc.Sequence)


KINDS = {
    'List': (lambda h: List[h], islist, list), 'list': (lambda h: list[h], islist, LSub), 'Sequence/list': (lambda h: Sequence[h], isseq, list),
    'Sequence/tuple': (lambda h: Sequence[h], isseq, tuple), 'Sequence/deque': (lambda h: Sequence[h], isseq, deque),
    'Sequence/tsub': (lambda h: Sequence[h], isseq, TSub),
    'MutableSequence': (lambda h: typing.MutableSequence[h], lambda v: isinstance(v, collections.abc.MutableSequence), list),
    'Deque': (lambda h: typing.Deque[h], lambda v: isinstance(v, deque), deque),
    'Deque/maxlen': (lambda h: typing.Deque[h], lambda v: isinstance(v, deque), lambda xs: deque(xs, 7)),
    'Tuple...': (lambda h: Tuple[h, ...], lambda v: isinstance(v, tuple), tuple), 'tuple.../sub': (lambda h: tuple[h, ...], lambda v: isinstance(v, tuple), TSub),
    'Set': (lambda h: Set[h], lambda v: isinstance(v, set), set), 'FrozenSet': (lambda h: FrozenSet[h], lambda v: isinstance(v, frozenset), frozenset),
    'AbstractSet': (lambda h: typing.AbstractSet[h], lambda v: isinstance(v, collections.abc.Set), frozenset),
    'MutableSet': (lambda h: typing.MutableSet[h], lambda v: isinstance(v, collections.abc.MutableSet), set),
}


def elem(c, how, types=('V0', 'W'), excs=(Plain,)):
    """the element type: V0 with a coercer and/or a validator"""
    f = DetFn(c, 'f', ('obj', 'raise'), types, excs)
    g = DetFn(c, 'g', ('same', 'obj', 'raise') if how != 'both' else ('same', 'obj'), types, excs)
    return Spec(BY_HINT['V0'], 'check', [f] if how in ('coerce', 'both') else (), [g] if how in ('validate', 'both') else ())


def go(c, spec, v, field='x'):
    R = c.R
    A = c.record('A', {field: spec.hint(R)})
    snap = snapshot(v)
    exp = spec.fill(c, v)
    o = c.attempt(A, **{field: v})
    c.check('the container passed in is not modified', unchanged(c, v, snap))
    if exp is None:
        c.check('construction fails if the container, its length or any element fails', not o.ok)
        c.reach('failed')
        return
    c.check('construction succeeds if every element does', o.ok)
    matches(c, getattr(o.value, field), exp, 'x')
    c.reach('rebuilt' if exp.new else 'kept')


def sequence(c):
    make, accepts, build = KINDS[c.P['kind']]
    n = c.choice('n', c.P['ns'])
    types = c.P.get('types', ('V0', 'W'))
    xs = [c.obj('e%d' % i, types) for i in range(n)]
    el = elem(c, c.P['how'], excs=c.P.get('excs', (Plain,)))
    if 'Set' in c.P['kind']:
        for x in xs:
            el.fill(c, x)      # sets are iterated in no particular order: fix the outcomes per element first
    go(c, SeqSpec(make, el, accepts), build(xs))


REACH = ('failed', 'rebuilt', 'kept')
for kind in KINDS:
    isset = 'Set' in kind
    UNITS.add('coerce/' + kind, sequence, kind=kind, how='coerce', ns=(0, 1, 2, 3), reach=REACH, weight=3)
    UNITS.add('validate/' + kind, sequence, kind=kind, how='validate', types=('V0',), ns=(2, 3) if not isset else (1, 2), reach=REACH, weight=3)
    # what ends a loop must not end the filling
    UNITS.add('stop/' + kind, sequence, kind=kind, how='validate' if kind in ('list', 'Deque', 'Set', 'tuple.../sub') else 'coerce', excs=(StopIteration, IndexError, StopAsyncIteration),
              types=('V0',) if kind in ('list', 'Deque', 'Set', 'tuple.../sub') else ('V0', 'W'), ns=(1, 2), reach=REACH, weight=2)
for kind in ('List', 'Tuple...', 'Deque/maxlen', 'Sequence/tuple'):
    UNITS.add('long/' + kind, sequence, kind=kind, how='coerce', ns=(4,), reach=REACH, weight=6)
    UNITS.add('both/' + kind, sequence, kind=kind, how='both', ns=(2,), reach=REACH, weight=4)
    UNITS.add('longer/' + kind, sequence, kind=kind, how='coerce', ns=(5,), tier='thorough', reach=REACH, weight=9)


@UNITS.unit(reach=REACH, weight=4)
def fixed_tuple(c):
    """per position; the length must match"""
    R = c.R
    n = c.choice('n', (3, 2, 1, 0))
    m = c.choice('given', tuple(range(0, 4)))
    f0, f1 = DetFn(c, 'f0', ('obj', 'raise'), ('V0', 'int'), (StopIteration, Plain)), DetFn(c, 'f1', ('obj', 'raise'), ('int', 'V0'), (StopIteration,))
    specs = [Spec(BY_HINT['V0'], 'check', [f0]), Spec(BY_HINT['int'], 'check', [f1]), Spec(BY_HINT['V0'], 'strict')][:n]
    v = (tuple, TSub)[c.choice('sub', (0, 1))]([c.obj('e%d' % i, ('V0', 'int')) for i in range(m)])
    go(c, TupSpec(specs), v)


@UNITS.unit(reach=REACH)
def tuple_positions(c):
    """unchecked positions next to checked ones; strict outer style refuses subclasses"""
    hollow = Spec(BY_HINT['int'], 'hollow')
    f = DetFn(c, 'f', ('obj', 'raise'), ('V0',))
    checked = Spec(BY_HINT['V0'], 'check', [f])
    order = c.choice('order', ((0, 1), (1, 0), (0, 1, 0), (1, 0, 1)))
    specs = [(hollow, checked)[i] for i in order]
    st = c.choice('style', ('check', 'strict'))
    v = (tuple, TSub)[c.choice('sub', (0, 1))]([c.obj('e%d' % i, ('V0', 'int')) for i in range(len(order))])
    go(c, TupSpec(specs, st), v)


@UNITS.unit(reach=('kept', 'failed'))
def hollow_elements_length(c):
    """fixed-length tuples of unchecked elements still have a length"""
    n = c.choice('n', (0, 1, 2))
    m = c.choice('m', (0, 1, 2, 3))
    go(c, TupSpec([Spec(BY_HINT['int'], 'hollow')] * n), tuple(c.obj('e%d' % i, ('V0', 'int', 'NoneType')) for i in range(m)))


@UNITS.unit(reach=REACH, weight=5)
def nested(c):
    """containers in containers: only what changes is rebuilt"""
    kind = c.choice('kind', ('list of list', 'list of tuple', 'tuple of list', 'deque of set'))
    el = elem(c, 'coerce')
    a, b = c.obj('a', ('V0', 'W')), c.obj('b', ('V0', 'W'))
    el.fill(c, a), el.fill(c, b)
    L = lambda e: SeqSpec(lambda h: List[h], e, islist)
    if kind == 'list of list':
        spec, v = L(L(el)), [[a], [b, a]]
    elif kind == 'list of tuple':
        spec, v = L(TupSpec([el, el])), [(a, b), (b, a)]
    elif kind == 'tuple of list':
        spec, v = TupSpec([L(el), L(el)]), ([a], [b])
    else:
        spec, v = SeqSpec(lambda h: typing.Deque[h], SeqSpec(lambda h: FrozenSet[h], el, lambda x: isinstance(x, frozenset)), lambda x: isinstance(x, deque)), deque([frozenset([a]), frozenset([b])])
    go(c, spec, v)


@UNITS.unit(reach=('failed', 'kept'))
def wrong_container(c):
    """the container itself is type checked as any other argument"""
    R = c.R
    kind = c.choice('kind', ('List', 'list', 'Tuple', 'Tuple...', 'Set', 'FrozenSet', 'Deque', 'Sequence', 'MutableSequence'))
    st = c.choice('style', ('check', 'strict')) if kind not in ('Sequence', 'MutableSequence') else 'check'
    e = R.Annotated[U.V0, R.check]
    hint, cls = {'List': (List[e], list), 'list': (list[e], list), 'Tuple': (Tuple[e, e], tuple), 'Tuple...': (Tuple[e, ...], tuple), 'Set': (Set[e], set),
                 'FrozenSet': (FrozenSet[e], frozenset), 'Deque': (typing.Deque[e], deque), 'Sequence': (Sequence[e], collections.abc.Sequence),
                 'MutableSequence': (typing.MutableSequence[e], collections.abc.MutableSequence)}[kind]
    A = c.record('A', {'x': R.Annotated[hint, style(R, st)]})
    a, b = c.obj('a', ('V0',)), c.obj('b', ('V0',))
    v = c.choice('arg', (list, LSub, tuple, TSub, set, frozenset, deque))([a, b])
    o = c.attempt(A, x=v)
    ok = type(v) is cls if st == 'strict' else isinstance(v, cls)
    if kind == 'Tuple':
        ok = ok and len(v) == 2
    if ok:
        c.check('accepted and kept', o.ok and o.value.x is v)
        c.reach('kept')
    else:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('failed')


@UNITS.unit(reach=REACH, weight=2)
def coerced_container(c):
    """the elements of a coerced container are filled too"""
    R = c.R
    el = elem(c, 'coerce')
    made = []

    def co(v):
        made.append(list(v))
        return made[-1]
    v = (c.obj('a', ('V0', 'W')), c.obj('b', ('V0', 'W')))
    A = c.record('A', {'x': R.Annotated[List[el.hint(R)], R.check, R.CallCoercion(co)]})
    parts = [el.fill(c, e) for e in v]
    o = c.attempt(A, x=v)
    c.check('the argument is not modified', c.same(v[0], v[0]) and len(v) == 2)
    if any(p is None for p in parts):
        c.check('fails if an element fails', not o.ok)
        c.reach('failed')
        return
    c.check('succeeds', o.ok)
    got = o.value.x
    c.check('a list of the filled elements', type(got) is list and len(got) == 2 and c.And(*[c.same(g, p.value) for g, p in zip(got, parts)]))
    if c.fork(c.And(*[c.same(p.value, e) for p, e in zip(parts, v)])):
        c.check('the coerced list itself if nothing changed', got is made[0])
        c.reach('kept')
    else:
        c.check('the coerced list is not modified', c.all_same(made[0], v))
        c.reach('rebuilt')


@UNITS.unit(reach=('rebuilt', 'kept'))
def strings(c):
    """a str is a sequence of str: rebuilt as a str"""
    R = c.R
    up = [c.flag('up%d' % i) for i in range(3)]
    ch = [c.fork(u) for u in up]

    def g(s):
        i = 'abc'.index(s)
        return s.upper() * c.choice('times', (1, 2)) if ch[i] and not g.seen else (s.upper() if ch[i] else s)
    g.seen = True
    A = c.record('A', {'x': R.Annotated[Sequence[R.Annotated[str, R.check, R.CallValidation(g)]], R.check]})
    o = c.attempt(A, x='abc')
    want = ''.join(x.upper() if f else x for x, f in zip('abc', ch))
    c.check('succeeds', o.ok)
    c.check('a str with every element filled', type(o.value.x) is str and o.value.x == want)
    c.reach('rebuilt' if any(ch) else 'kept')


@UNITS.unit(reach=('done',), weight=2)
def shared_and_repeated(c):
    """the same object several times in one container, and the same container in two constructions"""
    el = elem(c, 'both')
    a, b = c.obj('a', ('V0', 'W')), c.obj('b', ('V0', 'W'))
    spec = SeqSpec(lambda h: List[h], el, islist)
    R = c.R
    A = c.record('A', {'x': spec.hint(R), 'y': Dflt(spec.hint(R), ())})
    v = [a, b, a]
    snap = snapshot(v)
    exp = spec.fill(c, v)
    for i in range(2):
        o = c.attempt(A, x=v, y=v)
        c.check('the container is not modified', unchanged(c, v, snap))
        if exp is None:
            c.check('fails every time', not o.ok)
        else:
            c.check('succeeds every time', o.ok)
            matches(c, o.value.x, exp, 'x')
            matches(c, o.value.y, exp, 'y')
    c.reach('done')


def fixed_long(c):
    """every position has its own filler, wherever the first change is"""
    n = c.P['n']
    specs, v = [], []
    bits = []
    for i in range(n):
        if c.choice('style %d' % i, c.P['styles']) == 'hollow':
            specs.append(Spec(BY_HINT['V0'], 'hollow'))
            v.append(c.obj('e%d' % i, ('V0',)))
        else:
            specs.append(Spec(BY_HINT['V0'], 'check', [DetFn(c, 'f%d' % i, ('obj',), ('V0',))]))
            v.append(c.obj('e%d' % i, ('V0', 'W')))
    go(c, TupSpec(specs), tuple(v))


UNITS.add('fixed tuple of 5', fixed_long, n=5, styles=('check',), reach=('rebuilt', 'kept'), weight=6)
UNITS.add('fixed tuple of 4', fixed_long, n=4, styles=('check', 'hollow'), reach=('rebuilt', 'kept'), weight=6)
UNITS.add('fixed tuple of 7', fixed_long, n=7, styles=('check',), reach=('rebuilt', 'kept'), weight=30, tier='thorough')


@UNITS.unit(reach=REACH, weight=6)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    el = elem(c, 'coerce')
    kind = c.choice('kind', ('list', 'tuple'))
    spec = SeqSpec(lambda h: List[h], el, islist) if kind == 'list' else TupSpec([el, el])
    S = shaped(c, {'w': Dflt(List[int], None), 'x': spec.hint(R)})
    v = (list if kind == 'list' else tuple)([c.obj('a', ('V0', 'W')), c.obj('b', ('V0', 'W'))])
    snap = snapshot(v)
    exp = spec.fill(c, v)
    o = c.attempt(S.cls, x=v)
    c.check('the container passed in is not modified', unchanged(c, v, snap))
    if exp is None:
        c.check('fails', not o.ok)
        c.reach('failed')
        return
    c.check('succeeds', o.ok)
    matches(c, o.value.x, exp, 'x')
    c.reach('rebuilt' if exp.new else 'kept')


@UNITS.unit(reach=('kept', 'rebuilt', 'refused'), weight=4)
def odd_elements(c):
    """elements are compared with what they were by identity: not by ==, truth or hash"""
    R = c.R
    kind, v = odd(c)
    shape = c.choice('shape', ('list', 'tuple...', 'tuple', 'deque', 'set', 'frozenset', 'list of lists'))
    if 'set' in shape:
        c.assume(ODD[kind][2] and kind in ('nan', 'never equal', 'no truth value'))
    change = c.choice('change', ('nothing', 'second', 'first', 'refuse'))
    new = ODD[kind][0]() if c.choice('w', (False, True)) else float('nan')
    if 'set' in shape and change != 'nothing':
        new = 5
    c.assume(new is not v)

    def f(x):
        if change == 'refuse' and x is v:
            raise TypeError
        if (change == 'second' and x is v) or (change == 'first' and type(x) is int and x == 1):
            return new
        return x
    e = annot(R, object, R.hollow, R.CallValidation(f))
    hint, build = {'list': (List[e], lambda: [1, v]), 'tuple...': (Tuple[e, ...], lambda: (1, v)), 'tuple': (Tuple[e, e], lambda: (1, v)), 'deque': (typing.Deque[e], lambda: collections.deque([1, v])),
                   'set': (Set[e], lambda: {1, v}), 'frozenset': (FrozenSet[e], lambda: frozenset([1, v])), 'list of lists': (List[annot(R, List[e], R.check)], lambda: [[1, v]])}[shape]
    A = c.record('A', {'x': annot(R, hint, R.check)}, unary_parse=False)
    arg = build()
    o = c.attempt(lambda: A(x=arg))
    inner = (lambda x: x[0]) if shape == 'list of lists' else lambda x: x
    old = list(inner(arg))
    c.check('the container passed in is as it was', len(old) == 2 and (any(x is v for x in old)))
    if change == 'refuse':
        c.check('refused', o.raised())
        c.reach('refused')
    elif change == 'nothing':
        c.check('the very container', o.ok and o.value.x is arg)
        c.reach('kept')
    else:
        c.check('rebuilt', o.ok and o.value.x is not arg and type(o.value.x) is type(arg))
        got = list(inner(o.value.x))
        exp = [1, new] if change == 'second' else [new, v]
        if 'set' in shape:
            c.check('elements', len(got) == 2 and all(any(x is y or (type(x) is int and x == y) for y in got) for x in exp))
        else:
            c.check('elements', len(got) == 2 and all(x is y for x, y in zip(got, exp)))
        c.reach('rebuilt')


@UNITS.unit(reach=('rebuilt', 'failed'), weight=4)
def fresh(c):
    """a filler that never gives the same object twice: every place is filled on its own, in order, exactly once"""
    R = c.R
    kind = c.choice('kind', ('list', 'tuple', 'fixed', 'deque', 'sequence', 'nested', 'twice'))
    calls, made = [], []
    stop = c.choice('fails at', (None, 0, 1, 2))
    keep = c.choice('keeps', ((), (0,), (0, 1), (1,), (2,)))

    def f(v):
        i = len(calls)
        calls.append(v)
        if i == stop:
            raise ValueError('stop')
        made.append(v if i in keep else (v, i))
        return made[-1]
    E = annot(R, object, R.CallValidation(f))
    a = c.obj('a', ('V0', 'int', 'NoneType'))
    b = c.obj('b', ('V0',))
    xs = [a, b, a] if c.choice('places', ('aba', 'aaa')) == 'aba' else [a, a, a]
    if kind == 'nested':
        hint, v = annot(R, List[annot(R, List[E], R.check)], R.check), [xs[:2], xs[2:]]
    elif kind == 'twice':     # the same list twice
        xs = xs[:1]
        inner = list(xs)
        hint, v = annot(R, List[annot(R, List[E], R.check)], R.check), [inner, inner, inner]
    else:
        H, mk = {'list': (List[E], list), 'tuple': (Tuple[E, ...], tuple), 'fixed': (Tuple[E, E, E], tuple), 'deque': (typing.Deque[E], collections.deque), 'sequence': (Sequence[E], list)}[kind]
        hint, v = annot(R, H, R.check), mk(xs)
    A = c.record('A', {'x': hint}, unary_parse=False)
    o = c.attempt(lambda: A(x=v))
    want = list(xs) * 3 if kind == 'twice' else xs
    if stop is not None:
        c.check('fails', o.raised(ValueError))
        c.check('in order, up to the failure', len(calls) == stop + 1 and c.And(*[c.same(x, w) for x, w in zip(calls, want)]))
        c.reach('failed')
        return
    c.check('built', o.ok)
    c.check('every place once, in order', len(calls) == 3 and c.And(*[c.same(x, w) for x, w in zip(calls, want)]))
    got = [y for x in o.value.x for y in x] if kind in ('nested', 'twice') else list(o.value.x)
    c.check('what the filler gave for each place', len(got) == 3 and c.And(*[c.same(x, m) for x, m in zip(got, made)]))
    c.reach('rebuilt')


@UNITS.unit(reach=('kept', 'rebuilt', 'refused'), weight=6)
def many(c):
    """long containers: any two of their places"""
    R = c.R
    N = 40
    kind = c.choice('kind', ('list', 'tuple...', 'tuple', 'deque', 'set', 'sequence', 'nested'))
    i = c.choice('first', tuple(range(N)) + (None,))
    j = c.choice('second', (None, 0, 1, N // 2, N - 1))
    what = c.choice('what', ('coerced', 'refused', 'other')) if i is not None and j is not None else 'coerced'
    calls = []

    def f(v):
        calls.append(v)
        if type(v) is not str:
            raise TypeError('no')
        return int(v)
    e = annot(R, int, R.check, R.CallCoercion(f))
    hint, build = {'list': (List[e], list), 'tuple...': (Tuple[e, ...], tuple), 'tuple': (Tuple[(e,) * N], tuple), 'deque': (typing.Deque[e], deque), 'set': (Set[e], set), 'sequence': (Sequence[e], tuple),
                   'nested': (List[annot(R, List[e], R.check)], lambda xs: [list(xs[k:k + 8]) for k in range(0, N, 8)])}[kind]
    xs = list(range(N))
    if i is not None:
        xs[i] = str(i + 100)
    if j is not None and j != i:
        xs[j] = str(j + 100) if what == 'coerced' else 2.5 if what == 'refused' else True
    bad = what == 'refused' and j != i
    exp = [int(x) if type(x) is str else x for x in xs]
    A = c.record('A', {'x': annot(R, hint, R.check)}, unary_parse=False)
    arg = build(xs)
    o = c.attempt(lambda: A(x=arg))
    if bad:
        c.check('refused', not o.ok)
        c.reach('refused')
        return
    c.check('built', o.ok)
    got = o.value.x
    if not calls:
        c.check('the very container', got is arg)
        c.reach('kept')
    else:
        c.check('coerced once each', len(calls) == sum(type(x) is str for x in xs))
    flat = [y for x in got for y in x] if kind == 'nested' else list(got)
    if kind == 'set':
        c.check('filled elements', set(flat) == set(exp) and all(type(x) in (int, bool) for x in flat))
    else:
        c.check('filled elements in order', flat == exp and all(type(x) in (int, bool) for x in flat))
    c.check('same type', type(got) is type(arg))
    if calls:
        c.reach('rebuilt')


class QSub(deque):
    pass


class ZSub(set):
    pass


class FSub(frozenset):
    pass


@UNITS.unit(reach=('rebuilt', 'kept', 'failed'), weight=4)
def subclasses(c):
    """whatever accepted container is passed, the new one is of its very type"""
    R = c.R
    seqs = {'LSub': LSub, 'TSub': TSub, 'QSub': QSub, 'QSub/maxlen': lambda xs: QSub(xs, 5), 'list': list, 'tuple': tuple, 'deque': deque, 'deque/maxlen': lambda xs: deque(xs, 2)}
    sets = {'ZSub': ZSub, 'FSub': FSub, 'set': set, 'frozenset': frozenset}
    by = {'Sequence': (Sequence, tuple(seqs)), 'MutableSequence': (typing.MutableSequence, ('LSub', 'QSub', 'QSub/maxlen', 'list', 'deque/maxlen')), 'List': (List, ('LSub', 'list')),
          'Deque': (typing.Deque, ('QSub', 'QSub/maxlen', 'deque/maxlen')), 'AbstractSet': (typing.AbstractSet, tuple(sets)), 'MutableSet': (typing.MutableSet, ('ZSub', 'set')),
          'Set': (Set, ('ZSub',)), 'FrozenSet': (FrozenSet, ('FSub',)), 'Tuple...': (None, ('TSub', 'tuple')), 'Tuple': (None, ('TSub', 'tuple'))}
    hint = c.choice('hint', tuple(by))
    H, names = by[hint]
    name = c.choice('given', names)
    mk = dict(seqs, **sets)[name]
    a, b = c.obj('a', ('V0', 'V1')), c.obj('b', ('V0', 'V1'))
    c.assume(c.And(c.Not(c.same(a, b)), c.Not(c.eq(a, b))))
    out = object()
    what = c.choice('element processing', ('replaces', 'raises', 'keeps'))
    at = c.choice('for', ('a', 'b'))

    def g(x):
        if c.same(x, a if at == 'a' else b):
            if what == 'raises':
                raise Plain('no')
            if what == 'replaces':
                return out
        return x
    e = annot(R, object, R.CallValidation(g))
    T_ = Tuple[e, ...] if hint == 'Tuple...' else Tuple[e, e] if hint == 'Tuple' else H[e]
    nested = c.choice('inside', ('alone', 'union', 'list'))
    T_ = annot(R, T_, R.check)
    full = T_ if nested == 'alone' else annot(R, Optional[T_], R.check) if nested == 'union' else annot(R, List[T_], R.check)
    A = c.record('A', {'x': full})
    v = mk([a, b])
    n = getattr(v, 'maxlen', None)
    before = list(v)
    o = c.attempt(A, x=[v] if nested == 'list' else v)
    c.check('the one passed is as it was', len(v) == 2 and c.all_same(list(v), before))
    if what == 'raises':
        c.check('fails', not o.ok)
        c.reach('failed')
        return
    c.check('succeeds', o.ok)
    got = o.value.x[0] if nested == 'list' else o.value.x
    if what == 'keeps':
        c.check('the very one', got is v)
        c.reach('kept')
        return
    c.check('of the same type', got is not v and type(got) is type(v) and getattr(got, 'maxlen', None) == n)
    want = [out if c.same(x, a if at == 'a' else b) else x for x in before]
    if isinstance(v, collections.abc.Set):
        c.check('elements', len(got) == 2 and all(any(c.same(x, y) for y in got) for x in want))
    else:
        c.check('elements', c.all_same(list(got), want))
    c.reach('rebuilt')
