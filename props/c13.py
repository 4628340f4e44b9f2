"""C13: equality is exact-type, field-wise; equal frozen records hash alike."""
import copy
import pickle

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('classes of 1..4 fields (with defaults, factories, tags, inherited), mutable, frozen, ordered; field values arbitrary objects incl. unhashable ones, any aliasing; '
          'histories of 2..3 operations (thorough: 3..4) out of hash, compare, copy, deepcopy, pickle, to another process, rebuild, assign')
OUTSIDE = 'field values whose == is not symmetric or disagrees with their !=, or whose hash disagrees with their equality'
ASSUMPTIONS = ['hashes of user-defined values and strings are an arbitrary function of their value and of the process (hash seed)']
H = ('V0', 'V1', 'W', 'int', 'bool', 'str', 'NoneType')
UNH = ('V0', 'int', 'list', 'tuple', 'dict')


def eq_sides(c, a, b, want, label):
    for x, y, n in ((a, b, ''), (b, a, ' (swapped)')):
        o = c.attempt(lambda: x == y)
        c.check(label + n + ': does not raise', o.ok)
        c.check(label + n, c.Iff(o.value, want))
        o = c.attempt(lambda: x != y)
        c.check(label + n + ': != is the opposite', o.ok and c.Iff(o.value, c.Not(want)))


def classes(c, R, frozen, fields, which):
    A = c.record('A', fields, frozen=frozen, ordered=c.P.get('ordered', False))
    if which == 'same':
        return A, A
    if which == 'twin':
        return A, c.record('A', fields, frozen=frozen)
    if which == 'sub':
        return A, c.record('S', {'extra': Dflt(int, 0)}, (A,), frozen=frozen)
    if which == 'sub other frozenness':
        return A, c.record('S', {}, (A,), frozen=not frozen)
    if which == 'plain sub':
        return A, c.record('S', {}, (A,), frozen=frozen)
    raise AssertionError(which)


def compare(c):
    R = c.R
    frozen = c.P['frozen']
    n = c.P['n']
    types = c.P['types']
    fields = {}
    d = c.obj('d', types) if c.P.get('default') else None
    for i in range(n):
        fields['f%d' % i] = Dflt(object, d) if i and c.P.get('default') else (R.Annotated[object, R.exclude_from_ordering, R.Tag('t')] if i == 1 else object)
    which = c.choice('which', c.P.get('which', ('same', 'twin', 'sub', 'sub other frozenness', 'plain sub')))
    A, B = classes(c, R, frozen, fields, which)
    xs, ys = [c.obj('x%d' % i, types) for i in range(n)], [c.obj('y%d' % i, types) for i in range(n)]
    a, b = A(**{'f%d' % i: x for i, x in enumerate(xs)}), B(**{'f%d' % i: y for i, y in enumerate(ys)})
    if which != 'same':
        eq_sides(c, a, b, False, 'records of different classes are never equal')
        c.reach('different classes')
        return
    hashed = c.choice('hashed', ('none', 'a', 'both')) if frozen else 'none'
    if hashed != 'none':
        c.attempt(c.hash, a)
    if hashed == 'both':
        c.attempt(c.hash, b)
    want = c.And(*[c.eq(x, y) for x, y in zip(xs, ys)])
    eq_sides(c, a, b, want, 'equal exactly if all fields are')
    c.reach('same class')


for frozen in (False, True):
    f = 'frozen' if frozen else 'mutable'
    UNITS.add('compare/' + f, compare, frozen=frozen, n=2, types=H, reach=('same class', 'different classes'), weight=4)
    UNITS.add('compare unhashable/' + f, compare, frozen=frozen, n=2, types=UNH, reach=('same class', 'different classes'), weight=4)
    UNITS.add('compare defaults/' + f, compare, frozen=frozen, n=3, types=('V0', 'int'), default=True, which=('same',), ordered=True, reach=('same class',), weight=4)
    UNITS.add('compare one/' + f, compare, frozen=frozen, n=1, types=ALL, which=('same', 'sub'), reach=('same class', 'different classes'), weight=4)
UNITS.add('compare four/frozen', compare, frozen=True, n=4, types=('V0', 'list'), which=('same',), reach=('same class',), weight=9)
UNITS.add('compare four/mutable', compare, frozen=False, n=4, types=('V0', 'list'), which=('same',), reach=('same class',), weight=9)


def safe_hash(c, r):
    """hash of a record, or 'unhashable'"""
    o = c.attempt(c.hash, r)
    if o.ok:
        return o.value
    c.check('only unhashable values make it unhashable', o.raised(TypeError))
    return None


def hashes(c):
    R = c.R
    types = c.P['types']
    n = c.P['n']
    d = c.obj('d', types)
    fields = {'f%d' % i: Dflt(object, d) if i else object for i in range(n)}
    how = c.choice('class', ('own', 'inherited', 'frozen sub of mutable'))
    if how == 'own':
        A = c.record('A', fields, frozen=True)
    else:
        names = list(fields)
        B = c.record('B', {k: fields[k] for k in names[:1]}, frozen=how == 'inherited')
        A = c.record('A', {k: fields[k] for k in names[1:]}, (B,), frozen=True)
    xs, ys = [c.obj('x%d' % i, types) for i in range(n)], [c.obj('y%d' % i, types) for i in range(n)]
    a, b = A(**{'f%d' % i: x for i, x in enumerate(xs)}), A(**{'f%d' % i: y for i, y in enumerate(ys)})
    ha, hb = c.hash(a), c.hash(b)
    want = c.And(*[c.eq(x, y) for x, y in zip(xs, ys)])
    c.check('equal records have equal hashes', c.Implies(want, c.eq(ha, hb)))
    c.check('and are equal still', c.Iff(a == b, want))
    c.check('the hash stays', c.And(c.eq(c.hash(a), ha), c.eq(c.hash(b), hb)))
    c.reach('hashed')


UNITS.add('hash/one', hashes, n=1, types=('V0', 'V1', 'int', 'bool', 'float', 'str', 'SSub', 'NoneType', 'tuple', 'function', 'type'), reach=('hashed',))
UNITS.add('hash/two', hashes, n=2, types=H, reach=('hashed',), weight=3)
UNITS.add('hash/three', hashes, n=3, types=('V0', 'V1', 'W'), reach=('hashed',), weight=3)
UNITS.add('hash/four', hashes, n=4, types=('V0', 'V1', 'int'), reach=('hashed',), weight=9, tier='thorough')


@UNITS.unit(reach=('hashable', 'unhashable'), weight=2)
def unhashable_values(c):
    """a frozen record is hashable exactly if its values are; comparing works all the same"""
    R = c.R
    A = c.record('A', {'x': object, 'y': object}, frozen=True)
    x, y = c.obj('x', UNH), c.obj('y', ('V0', 'list'))
    a, b = A(x=x, y=y), A(x=c.obj('x2', UNH), y=y)
    hx = c.And(*[c.Not(c.Or(c.is_type(v, list), c.is_type(v, dict))) for v in (x, y)])
    o = c.attempt(c.hash, a)
    if c.fork(hx):
        c.check('hashable', o.ok)
        c.reach('hashable')
    else:
        c.check('TypeError', o.raised(TypeError))
        c.reach('unhashable')
    eq_sides(c, a, b, c.eq(x, b.x), 'equal if the fields are')
    c.check('again', c.attempt(c.hash, a).ok == o.ok)


@UNITS.unit(reach=('hashable', 'unhashable'), weight=2)
def mutable_unhashable(c):
    """hashability follows the frozenness of the class itself"""
    R = c.R
    chain = c.choice('chain', ((False,), (True,), (False, True), (True, False), (True, False, True), (False, True, False), (True, True), (False, False)))
    base = None
    for i, fr in enumerate(chain):
        base = c.record('C%d' % i, {'x': object} if i == 0 else {'y%d' % i: Dflt(int, 0)}, (base,) if base else None, frozen=fr, ordered=c.choice('ordered%d' % i, (False, True)))
    v = c.obj('v', ('V0', 'int'))
    a = base(x=v)
    o = c.attempt(c.hash, a)
    if chain[-1]:
        c.check('frozen records are hashable', o.ok)
        c.check('equal ones alike', c.eq(o.value, c.hash(base(x=v))))
        c.reach('hashable')
    else:
        c.check('mutable records are not', o.raised(TypeError))
        c.reach('unhashable')


def history(c):
    """equal records stay equal and keep equal hashes through any history, in this process and the next one"""
    R = c.R
    types = c.P.get('types', ('V0', 'W'))
    d = c.obj('d', types) if c.P.get('default') else None
    A = c.record('A', {'x': object, 'y': Dflt(object, d) if d is not None else object}, frozen=True)
    x, y = c.obj('x', types), c.obj('y', types)
    x2, y2 = c.obj('x2', types), c.obj('y2', types)
    c.assume(c.And(c.eq(x, x2), c.eq(y, y2)))
    rs = [A(x=x, y=y), A(x=x2, y=y2)]
    moved = False
    for i in range(c.P['steps']):
        op = c.choice('op%d' % i, c.P.get('ops', ('hash', 'pickle', 'copy', 'deepcopy', 'compare', 'move', 'rebuild')))
        if op == 'hash':
            c.hash(rs[0])
        elif op == 'pickle':
            rs[0] = pickle.loads(pickle.dumps(rs[0]))
        elif op == 'to_pickle':
            rs[0] = A.from_pickle(rs[0].to_pickle())
        elif op == 'copy':
            rs[0] = copy.copy(rs[0])
        elif op == 'deepcopy':
            rs[0] = copy.deepcopy(rs[0])
        elif op == 'rebuild':
            rs[0] = A.from_mapping(rs[0].to_dict())
        elif op == 'compare':
            c.check('equal all the time', rs[0] == rs[1])
        elif op == 'move':
            # everything goes to another process by pickle: what was hashed there is hashed with another seed
            if moved:
                c.assume(False)
            moved = True
            proto = c.choice('proto', c.P.get('protos', (2, 5)))
            data = [pickle.dumps(r, proto) for r in rs]
            c.new_process()
            rs = [pickle.loads(s) for s in data]
        rs.append(rs.pop(0))
    a, b = rs
    c.check('records of the class', type(a) is A and type(b) is A)
    c.check('equal', c.And(a == b, b == a))
    fresh = A(x=a.x, y=a.y)
    c.check('equal hashes', c.And(c.eq(c.hash(a), c.hash(b)), c.eq(c.hash(a), c.hash(fresh))))
    c.check('still equal', c.And(a == b, a == fresh))
    c.check('values kept', c.And(c.eq(a.x, x), c.eq(a.y, y)))
    c.reach('moved' if moved else 'stayed')


UNITS.add('history/2', history, steps=2, reach=('moved', 'stayed'), weight=6)
UNITS.add('history/3', history, steps=3, ops=('hash', 'move', 'copy', 'compare'), types=('V0',), reach=('moved', 'stayed'), weight=9)
UNITS.add('history/default', history, steps=2, ops=('hash', 'move', 'pickle', 'rebuild', 'deepcopy'), default=True, types=('V0', 'int'), reach=('moved', 'stayed'), weight=5)
UNITS.add('history/to_pickle', history, steps=2, ops=('hash', 'to_pickle', 'move'), types=('V0',), reach=('moved', 'stayed'), weight=5)
UNITS.add('history/3 all', history, steps=3, reach=('moved', 'stayed'), weight=30, tier='thorough')
UNITS.add('history/4', history, steps=4, types=('V0',), reach=('moved', 'stayed'), weight=30, tier='thorough')


@UNITS.unit(reach=('done',), weight=3)
def mutable_histories(c):
    """equality follows the current values of mutable records"""
    R = c.R
    A = c.record('A', {'x': object, 'y': Dflt(object, 0)})
    T = ('V0', 'list')
    a, b = A(x=c.obj('x', T), y=c.obj('y', T)), A(x=c.obj('x2', T), y=c.obj('y2', T))
    for i in range(2):
        eq_sides(c, a, b, c.And(c.eq(a.x, b.x), c.eq(a.y, b.y)), 'equal exactly if the current values are')
        setattr(c.choice('who%d' % i, (a, b)) if i == 0 else b, c.choice('field%d' % i, ('x', 'y')), c.obj('n%d' % i, T))
    eq_sides(c, a, b, c.And(c.eq(a.x, b.x), c.eq(a.y, b.y)), 'equal exactly if the current values are')
    c.reach('done')


@UNITS.unit(reach=('in', 'out'), weight=3)
def in_containers(c):
    """frozen records work as keys: found exactly if an equal one was put in"""
    R = c.R
    A = c.record('A', {'x': object}, frozen=True)
    B = c.record('B', {'x': object}, frozen=True)
    x, y = c.obj('x', ('V0', 'int', 'bool')), c.obj('y', ('V0', 'int', 'bool'))
    a, b = A(x=x), A(x=y)
    if c.fork(c.eq(x, y)):
        c.check('equal: same hash', c.And(c.eq(c.hash(a), c.hash(b)), a == b))
        c.reach('in')
    else:
        c.check('different', c.Not(a == b))
        c.reach('out')
    o = c.choice('other', (None, 5, 'x', (1,), {'x': 1}))
    c.check('not equal to other things', c.attempt(lambda: a == o).ok and c.Not(a == o) and c.Not(a == B(x=x)))


@UNITS.unit(reach=('hashed', 'unhashable'), weight=9)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    S = shaped(c, {'x': object, 'y': Dflt(object, 7), 'z': Dflt(annot(R, object, R.exclude_from_ordering), R.Factory(lambda: 1))})
    A = S.cls
    xs = [c.obj('x%d' % i, ('V0', 'V1', 'int')) for i in range(2)]
    y = c.obj('y', ('V0', 'int'))
    kz = {'z': c.obj('z', ('V0', 'int'))} if c.choice('z given', (False, True)) else {}
    a, b = A(x=xs[0], y=y), A(x=xs[1], **kz)
    if S.frozen and c.choice('hash first', (False, True)):
        c.hash(a)
    want = c.And(c.eq(xs[0], xs[1]), c.eq(y, 7), c.eq(kz['z'], 1) if kz else True)
    eq_sides(c, a, b, want, 'equal exactly if all fields are')
    T = c.record('Sub', {}, (A,), frozen=S.frozen)
    eq_sides(c, T(x=xs[0], y=y), a, False, 'never equal to a record of another class')
    if S.frozen:
        c.check('equal ones hash alike', c.Implies(want, c.eq(c.hash(a), c.hash(b))))
        eq_sides(c, a, b, want, 'and after hashing')
        c.reach('hashed')
    else:
        c.check('unhashable', c.attempt(c.hash, a).raised(TypeError))
        c.reach('unhashable')


@UNITS.unit(reach=('equal', 'different'), weight=3)
def odd_values(c):
    """fields are equal exactly if == says so: not by identity, type, truth or hash"""
    R = c.R
    kinds = ('nan', 'never equal', 'always equal', 'always equal falsy', 'int never equal', 'unhashable', 'no truth value')
    _, v = odd(c, 'v', kinds)
    w = {'same': lambda: v, 'other': lambda: odd(c, 'w', kinds)[1], 'object': lambda: c.obj('o', ('int', 'NoneType', 'V0'))}[c.choice('against', ('same', 'other', 'object'))]()
    frozen = c.choice('frozen', (False, True))
    A = c.record('A', {'x': object, 'y': Dflt(object, 0)}, frozen=frozen, unary_parse=False)
    a, b = A(x=v), A(x=w)
    e = c.fork(v == w)
    c.assume(e == c.fork(w == v) and e != c.fork(v != w) and e != c.fork(w != v))    # == and != have to agree with each other
    if frozen and type(v) is type(w) and c.choice('hashed', (False, True)):
        c.attempt(lambda: (hash(a), hash(b)))
    eq_sides(c, a, b, e, 'equal exactly if the fields are')
    eq_sides(c, A(x=0, y=v), A(x=0, y=w), e, 'and for a later field')
    c.reach('equal' if e else 'different')


@UNITS.unit(reach=('equal', 'different'), weight=4)
def many(c):
    """records of many fields that differ in any one of them"""
    R = c.R
    N = 24
    fr = c.choice('frozen', (False, True))
    fields = {'f%d' % k: (object if k % 3 else annot(R, object, R.exclude_from_ordering)) if k % 2 else Dflt(object, 0) for k in range(N)}
    if c.choice('inherit', (False, True)):
        names = list(fields)
        B = c.record('B', {n: fields[n] for n in names[:9]}, frozen=fr)
        A = c.record('A', {n: fields[n] for n in names[9:]}, (B,), frozen=fr)
    else:
        A = c.record('A', fields, frozen=fr)
    at = c.choice('at', tuple(range(N)))
    same = c.choice('common', (0, 1))
    x, y = c.int('x'), c.int('y')
    a = A(**{'f%d' % k: x if k == at else same for k in range(N)})
    b = A(**{'f%d' % k: y if k == at else same for k in range(N)})
    hashed = fr and c.choice('hashed', (False, True))
    if hashed:
        c.check('hash of one', c.eq(c.hash(a), c.hash(a)))
        c.hash(b)
    eq = c.truth(a == b)
    c.check('equal exactly if the fields are', c.Iff(eq, x == y))
    c.check('and != accordingly', c.Iff(c.truth(a != b), c.Not(x == y)))
    if c.fork(x == y):
        if fr:
            c.check('hash alike', c.eq(c.hash(a), c.hash(b)))
        c.reach('equal')
    else:
        c.reach('different')
