"""C15: ordering is lexicographic over the non-excluded fields."""
import operator

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('ordered classes of 1..4 fields (thorough 5), any subset excluded, inherited, defaults; field values all integers and booleans (unbounded), strings of up to 4 characters, rationals; '
          'values whose ==, <, <=, > and >= answer arbitrarily (but consistently), NaN, sets; frozen and mutable; foreign operands of every kind')
OUTSIDE = 'field values whose comparisons raise or do not give a bool'
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def lex(c, xs, ys, strict):
    """formula: xs < ys (or <= if not strict), lexicographically"""
    if not xs:
        return not strict
    a, b = xs[0], ys[0]
    return c.Or(a < b, c.And(a == b, lex(c, xs[1:], ys[1:], strict)))


def check_all(c, a, b, xs, ys, tag=''):
    got = {}
    for n, f in OPS.items():
        o = c.attempt(lambda: f(a, b))
        c.check(tag + n + ' does not raise', o.ok)
        got[n] = o.value
    c.check(tag + '<', c.Iff(got['<'], lex(c, xs, ys, True)))
    c.check(tag + '<=', c.Iff(got['<='], lex(c, xs, ys, False)))
    c.check(tag + '>', c.Iff(got['>'], lex(c, ys, xs, True)))
    c.check(tag + '>=', c.Iff(got['>='], lex(c, ys, xs, False)))


def value(c, kind, name):
    if kind == 'int':
        return c.int(name)
    if kind == 'str':
        return c.string(name, 3)
    if kind == 'rat':
        return c.rat(name, dens=(1, 2))
    if kind == 'num':
        return c.obj(name, ('int', 'bool'))
    raise AssertionError(kind)


def ordered(c):
    R = c.R
    kinds = c.P['kinds']
    n = len(kinds)
    frozen = c.choice('frozen', (False, True))
    excluded = c.choice('excluded', c.P.get('excluded') or [tuple(i for i in range(n) if m >> i & 1) for m in range(2 ** n)])
    split = c.choice('own from', c.P.get('splits', (0,)))
    fields = {}
    for i in range(n):
        hint = R.Annotated[object, R.exclude_from_ordering] if i in excluded else (R.Annotated[object, R.Tag(i)] if i % 2 else object)
        fields['zyxwv'[i]] = Dflt(hint, 5) if i and i % 2 == 0 else hint
    names = list(fields)
    if split:
        B = c.record('B', {k: fields[k] for k in names[:split]}, frozen=frozen, ordered=c.choice('base ordered', (False, True)))
        A = c.record('A', {k: fields[k] for k in names[split:]}, (B,), frozen=frozen, ordered=True)
    else:
        A = c.record('A', fields, frozen=frozen, ordered=True)
    xs, ys = [value(c, k, 'x%d' % i) for i, k in enumerate(kinds)], [value(c, k, 'y%d' % i) for i, k in enumerate(kinds)]
    # given in another order than declared
    a, b = A(**dict(reversed(list(zip(names, xs))))), A(**dict(zip(names, ys)))
    keep = [i for i in range(n) if i not in excluded]
    check_all(c, a, b, [xs[i] for i in keep], [ys[i] for i in keep])
    c.check('reflexive', c.And(a <= a, a >= a, c.Not(a < a), c.Not(a > a)))
    c.reach('compared')


UNITS.add('ints/1', ordered, kinds=('int',), reach=('compared',))
UNITS.add('ints/2', ordered, kinds=('int', 'int'), splits=(0, 1), reach=('compared',), weight=3)
UNITS.add('ints/3', ordered, kinds=('int',) * 3, reach=('compared',), weight=5)
UNITS.add('ints/3 inherited', ordered, kinds=('int',) * 3, excluded=((), (0,), (1,), (2,)), splits=(1, 2), reach=('compared',), weight=9)
UNITS.add('strings', ordered, kinds=('str', 'int'), excluded=((), (1,)), reach=('compared',), weight=5)
UNITS.add('rationals', ordered, kinds=('rat', 'int'), excluded=((), (0,)), reach=('compared',), weight=3)
UNITS.add('numbers', ordered, kinds=('num', 'num'), excluded=((),), reach=('compared',), weight=3)
UNITS.add('ints/4', ordered, kinds=('int',) * 4, excluded=((), (1,), (0, 3)), reach=('compared',), weight=6)
UNITS.add('ints/5', ordered, kinds=('int',) * 5, excluded=((), (2,)), reach=('compared',), weight=20, tier='thorough')


@UNITS.unit(reach=('done',), weight=3)
def transitive(c):
    """the four operators are a total preorder on three records"""
    R = c.R
    A = c.record('A', {'x': int, 'y': R.Annotated[int, R.exclude_from_ordering], 'z': int}, ordered=True)
    rs = [A(x=c.int('x%d' % i), y=c.int('y%d' % i), z=c.int('z%d' % i)) for i in range(3)]
    a, b, d = rs
    ab, bd, ad = a <= b, b <= d, a <= d
    c.check('transitive', c.Implies(c.And(ab, bd), ad))
    c.check('total', c.Or(ab, b <= a))
    c.check('< is the complement of >=', c.And(c.Iff(a < b, c.Not(a >= b)), c.Iff(a > b, c.Not(a <= b))))
    c.check('== implies <= and >=', c.Implies(a == b, c.And(ab, a >= b)))
    c.reach('done')


@UNITS.unit(reach=('refused', 'subclass'), weight=3)
def foreign(c):
    """only instances of the class compare; anything else raises TypeError, in both directions"""
    R = c.R
    frozen = c.choice('frozen', (False, True))
    A = c.record('A', {'x': int}, ordered=True, frozen=frozen)
    S = c.record('S', {'y': Dflt(int, 0)}, (A,), ordered=True, frozen=frozen)
    O = c.record('O', {'x': int}, ordered=True, frozen=frozen)
    a = A(x=c.int('x'))
    kind = c.choice('kind', ('object', 'twin', 'number', 'sub', 'none', 'tuple', 'list', 'dict', 'class'))
    op = OPS[c.choice('op', tuple(OPS))]
    if kind == 'sub':
        s = S(x=c.int('x2'))
        o = c.attempt(lambda: op(a, s))
        c.check('an instance of the class: compared', o.ok)
        c.reach('subclass')
        return
    b = {'object': lambda: c.obj('o', ('V0', 'str', 'NoneType')), 'twin': lambda: O(x=a.x), 'number': lambda: a.x, 'none': lambda: None, 'tuple': lambda: (a.x,), 'list': lambda: [a.x],
         'dict': lambda: {'x': a.x}, 'class': lambda: A}[kind]()
    c.check('TypeError', c.attempt(lambda: op(a, b)).raised(TypeError))
    c.check('TypeError the other way round', c.attempt(lambda: op(b, a)).raised(TypeError))
    c.reach('refused')


@UNITS.unit(reach=('refused', 'ordered'), weight=3)
def not_ordered(c):
    """only classes declared ordered themselves are"""
    R = c.R
    chain = c.choice('chain', ((False,), (True,), (True, False), (False, True), (True, False, True), (True, True, False)))
    base = None
    for i, o in enumerate(chain):
        base = c.record('C%d' % i, {'f%d' % i: object} if i == 0 else {'f%d' % i: Dflt(object, 0)}, (base,) if base else None, ordered=o, frozen=c.choice('frozen', (False, True)) if i == len(chain) - 1 else False)
    a, b = base(f0=c.int('x')), base(f0=c.int('y'))
    for n, op in OPS.items():
        o = c.attempt(lambda: op(a, b))
        if chain[-1]:
            c.check('compares', o.ok and c.Iff(o.value, op(a.f0, b.f0)))
            c.reach('ordered')
        else:
            c.check('TypeError', o.raised(TypeError))
            c.check('also with itself', c.attempt(lambda: op(a, a)).raised(TypeError))
            c.reach('refused')


@UNITS.unit(reach=('done',), weight=3)
def current_values(c):
    """mutable ordered records compare by their current values; the excluded ones never matter"""
    R = c.R
    A = c.record('A', {'x': int, 'skip': Dflt(R.Annotated[object, R.exclude_from_ordering], None), 'y': Dflt(int, 0)}, ordered=True)
    a, b = A(x=c.int('x1'), skip=object()), A(x=c.int('x2'), skip='s')
    check_all(c, a, b, [a.x, 0], [b.x, 0], 'before: ')
    a.y = c.int('y1')
    a.x = c.int('x3')
    b.skip = c.obj('skip', ('V0',))
    check_all(c, a, b, [a.x, a.y], [b.x, 0], 'after: ')
    c.reach('done')


@UNITS.unit(reach=('compared',), weight=6)
def shapes(c):
    """whatever else the class declares, and in whichever way: defaults, factories, tags, hooks"""
    R = c.R
    S = shaped(c, {'x': int, 'y': Dflt(annot(R, int, R.Tag('t')), 5), 'e': Dflt(annot(R, int, R.exclude_from_ordering), 0), 'z': Dflt(annot(R, int, R.check), R.Factory(lambda: 3))},
               ordered=True, shapes=SAME_FIELDS)
    names = ['x', 'y', 'z']
    omit = c.choice('omit', ((), ('y',), ('z',)))
    xs, ys = {n: c.int('x.' + n) for n in names}, {n: c.int('y.' + n) for n in names}
    for n in omit:
        xs[n] = {'y': 5, 'z': 3}[n]
    a = S.cls(**{n: v for n, v in xs.items() if n not in omit}, e=c.int('e1'))
    b = S.cls(**ys, e=c.int('e2'))
    check_all(c, a, b, list(xs.values()), list(ys.values()))
    c.reach('compared')


class Partial:
    """== and the four comparisons of two of these answer anything (the same when asked again, or asked the other way round)"""
    __hash__ = None

    def __init__(self, c, name):
        self.c, self.name, self.memo = c, name, {}

    def ask(self, op, other):
        if self is other:
            return op in ('eq', 'le', 'ge')
        if type(other) is not Partial:
            return NotImplemented
        a, b = self, other
        if b.name < a.name:
            a, b, op = b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(op, op)
        if (op, b.name) not in a.memo:
            a.memo[op, b.name] = self.c.choice('%s %s %s' % (a.name, op, b.name), (False, True))
        return a.memo[op, b.name]

    def __eq__(self, other):
        return self.ask('eq', other)

    def __lt__(self, other):
        return self.ask('lt', other)

    def __le__(self, other):
        return self.ask('le', other)

    def __gt__(self, other):
        return self.ask('gt', other)

    def __ge__(self, other):
        return self.ask('ge', other)


@UNITS.unit(reach=('compared',), weight=5)
def partial(c):
    """values without a total order: what the tuples of the values give, for each of the four operators"""
    R = c.R
    kind = c.choice('kind', ('nan', 'same nan', 'sets', 'arbitrary', 'two arbitrary', 'excluded'))
    frozen = c.choice('frozen', (False, True))
    op = OPS[c.choice('op', tuple(OPS))]
    nan = float('nan')
    n1, n2 = c.int('n1'), c.int('n2')
    if kind == 'nan':
        xs, ys = [nan, n1], [c.choice('y', (1.0, float('nan'), float('-inf'), 3)), n2]
    elif kind == 'same nan':
        xs, ys = [nan, n1], [nan, n2]
    elif kind == 'sets':
        sets = (frozenset(), frozenset([1]), frozenset([2]), frozenset([1, 2]))
        xs, ys = [c.choice('x', sets), n1], [c.choice('y', sets), n2]
    else:
        xs, ys = [Partial(c, 'a'), n1], [Partial(c, 'b'), n2]
        if kind == 'two arbitrary':
            xs[1], ys[1] = Partial(c, 'd'), Partial(c, 'e')
    A = c.record('A', {'x': object, 'y': object, 'e': Dflt(annot(R, object, R.exclude_from_ordering), None)}, ordered=True, frozen=frozen)
    if kind == 'excluded':
        A = c.record('A', {'x': annot(R, object, R.exclude_from_ordering), 'y': object, 'e': Dflt(annot(R, object, R.exclude_from_ordering), None)}, ordered=True, frozen=frozen)
        exp = op((n1,), (n2,))
    else:
        exp = op(tuple(xs), tuple(ys))
    o = c.attempt(lambda: op(A(x=xs[0], y=xs[1], e=n2), A(x=ys[0], y=ys[1], e=n1)))
    c.check('as the tuples compare', o.ok and c.Iff(o.value, exp))
    c.reach('compared')


@UNITS.unit(reach=('done',), weight=4)
def many(c):
    """records of many fields that differ in any two of them"""
    R = c.R
    N = 20
    excl = c.choice('excluded', ((), (0, 5, 12), tuple(range(0, N, 2))))
    fields = {'%s%d' % ('zyx'[k % 3], k): annot(R, object, R.exclude_from_ordering) if k in excl else object for k in range(N)}
    A = c.record('A', fields, ordered=True, frozen=c.choice('frozen', (False, True)))
    i = c.choice('i', tuple(range(N)))
    j = c.choice('j', (0, 7, N - 1))
    xi, yi = c.int('xi'), c.int('yi')
    xj, yj = (xi, yi) if i == j else (c.int('xj'), c.int('yj'))
    names = list(fields)
    a = A(**{n: xi if k == i else xj if k == j else 1 for k, n in enumerate(names)})
    b = A(**{n: yi if k == i else yj if k == j else 1 for k, n in enumerate(names)})
    seq = [(xi, yi, i)] + ([(xj, yj, j)] if j != i else [])
    seq = sorted((t for t in seq if t[2] not in excl), key=lambda t: t[2])
    check_all(c, a, b, [t[0] for t in seq], [t[1] for t in seq])
    c.reach('done')


@UNITS.unit(reach=('done', 'incomparable'), weight=4)
def native(c):
    """values compare as they do outside of records"""
    R = c.R
    kind = c.choice('kind', ('str', 'bytes', 'list', 'tuple', 'float', 'set', 'date', 'mixed'))
    import datetime
    pool = {'str': ('a', 'B', 'A', '', 'aa', '10', '9', '\u00e9', 'z', ' a'), 'bytes': (b'a', b'B', b'', b'aa'), 'list': ([], [1], [1, 2], [0, 9], [2]), 'tuple': ((), (1,), (1, 'a'), (0, 9), (1, 'B')),
            'float': (1.5, -0.0, 0.0, float('inf'), -float('inf'), 2, True, 1e300), 'set': (frozenset(), frozenset((1,)), frozenset((1, 2)), frozenset((2,))),
            'date': (datetime.date(2020, 1, 1), datetime.date(2020, 1, 2), datetime.date(1999, 12, 31)), 'mixed': (1, 'a', None, (1,), b'a')}[kind]
    x, y = c.choice('x', pool), c.choice('y', pool)
    p, q = c.choice('first', ((0, 0), (0, 1), ('b', 'A')))
    A = c.record('A', {'p': object, 'x': object}, ordered=True, frozen=c.choice('frozen', (False, True)))
    a, b = A(p=p, x=x), A(p=q, x=y)
    for n, f in OPS.items():
        try:
            exp = f((p, x), (q, y))
        except TypeError:
            c.check(n + ' cannot say', c.attempt(lambda: f(a, b)).raised(TypeError))
            c.reach('incomparable')
            continue
        o = c.attempt(lambda: f(a, b))
        c.check(n + ' as of the values', o.ok and bool(o.value) == exp)
        c.reach('done')
