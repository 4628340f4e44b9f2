"""C14: a frozen record never changes; assigning to a mutable one changes that field of that record only."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('frozen/mutable chains of depth 1..3 and two bases; histories of 3 set/delete attempts (setattr, del, object syntax, augmented) on fields, class attributes, new names, '
          'interleaved with hash and comparison; arbitrary values')
OUTSIDE = 'the private hash cache; object.__setattr__ and direct access to __dict__'
T = ('V0', 'int', 'NoneType')


def snap(r, names):
    return {n: getattr(r, n) for n in names}


def same_fields(c, r, s):
    return c.And(*[c.same(getattr(r, n), v) for n, v in s.items()])


def attempts(c):
    R = c.R
    fac = [[], []]
    A = c.record('A', {'x': object, 'y': Dflt(object, 5), 'z': Dflt(object, R.Factory(lambda: fac[0]))}, ns={'attr': 7, 'prop': property(lambda self: 1)}, frozen=True, ordered=c.choice('ordered', (False, True)))
    if c.P['cls'] == 'sub':
        A = c.record('S', {'w': Dflt(object, 1)}, (A,), frozen=True)
    r = A(x=c.obj('x', T), y=c.obj('y', T))
    names = list(A._fields)
    s = snap(r, names)
    s['attr'] = 7
    for i in range(c.P['steps']):
        op = c.choice('op%d' % i, c.P['ops'])
        if op == 'hash':
            c.attempt(c.hash, r)
        elif op == 'eq':
            c.check('equal to itself', r == A(x=r.x, y=r.y))
        else:
            name = c.choice('name%d' % i, c.P['names'])
            v = c.obj('v%d' % i, T) if op in ('set', 'setattr') else None
            if op == 'set':
                o = c.attempt(lambda: setattr(r, name, v))
            elif op == 'del':
                o = c.attempt(lambda: delattr(r, name))
            elif op == 'same':
                o = c.attempt(lambda: setattr(r, name, getattr(r, name, None)))
            c.check('the attempt raises TypeError', o.raised(TypeError))
            c.reach(op)
        c.check('every field keeps its value', same_fields(c, r, s))
        c.check('no new attribute', not hasattr(r, 'new'))
    c.check('the class is as it was', A(x=1).attr == 7 and A(x=1).y == 5 and A(x=1).prop == 1)


UNITS.add('attempts', attempts, cls='own', steps=2, ops=('set', 'del', 'same', 'hash', 'eq'), names=('x', 'y', 'z', 'new', 'attr'), reach=('set', 'del', 'same'), weight=5)
UNITS.add('attempts/inherited', attempts, cls='sub', steps=2, ops=('set', 'del', 'hash'), names=('x', 'w', 'new', 'prop', '__dict__', '__class__'), reach=('set', 'del'), weight=5)
UNITS.add('attempts/3', attempts, cls='own', steps=3, ops=('set', 'del', 'hash'), names=('x', 'z', 'new'), reach=('set', 'del'), weight=9, tier='thorough')
UNITS.add('attempts/names', attempts, cls='own', steps=1, ops=('set', 'del'),
          names=('_x', 'X', '__init__', '__hash__', '__doc__', '_fields', '_frozen', 'to_dict', 'x ', '', 'select', '__setattr__', '__slots__', '_RecordBase__x', '__weakref__', 'field', '_hash_', 'hash'), reach=('set', 'del'))


@UNITS.unit(reach=('frozen', 'mutable'), weight=4)
def chains(c):
    """frozenness is that of the class itself, whatever its parents are"""
    R = c.R
    chain = c.choice('chain', ((False,), (True,), (False, True), (True, False), (True, True), (True, False, True), (False, True, False), (True, True, False), (False, False, True)))
    base = None
    classes = []
    for i, fr in enumerate(chain):
        base = c.record('C%d' % i, {'f%d' % i: object} if i == 0 else {'f%d' % i: Dflt(object, i)}, (base,) if base else None, frozen=fr)
        classes.append(base)
    for i, (cls, fr) in enumerate(zip(classes, chain)):
        c.check('is_frozen says so', cls.is_frozen() is fr)
        r = cls(f0=c.obj('a%d' % i, T))
        o2 = cls(f0=r.f0)
        name = c.choice('name%d' % i, ['f%d' % k for k in range(i + 1)] + ['new'])
        s = snap(r, cls._fields)
        v = c.obj('v%d' % i, T)
        o = c.attempt(lambda: setattr(r, name, v))
        if fr:
            c.check('refused', o.raised(TypeError) and not hasattr(r, 'new'))
            c.check('unchanged', same_fields(c, r, s))
            c.check('deleting refused', c.attempt(lambda: delattr(r, name)).raised(TypeError))
            c.check('unchanged', same_fields(c, r, s))
            c.reach('frozen')
        else:
            c.check('assigned', o.ok and c.same(getattr(r, name), v))
            s.pop(name, None)
            c.check('other fields unchanged', same_fields(c, r, s))
            c.check('other records unchanged', c.same(o2.f0, s.get('f0', o2.f0)) and not hasattr(o2, 'new'))
            c.check('deleted', c.attempt(lambda: delattr(r, name)).ok and name not in vars(r))
            c.reach('mutable')


@UNITS.unit(reach=('frozen', 'mutable'), weight=3)
def two_bases(c):
    """several bases, mixins with __setattr__ and __delattr__ of their own"""
    R = c.R
    fb1, fb2, fr = c.choice('b1', (False, True)), c.choice('b2', (False, True)), c.choice('frozen', (False, True))
    B1, B2 = c.record('B1', {'x': object}, frozen=fb1), c.record('B2', {'y': object}, frozen=fb2)
    A = c.record('A', c.choice('own', ({}, {'z': Dflt(object, 0)})), c.choice('order', ((B1, B2), (B2, B1))), frozen=fr)
    r = A(x=c.obj('x', T), y=c.obj('y', T))
    name = c.choice('name', ('x', 'y'))
    s = snap(r, ('x', 'y'))
    v = c.obj('v', T)
    op = c.choice('op', ('set', 'del'))
    o = c.attempt(lambda: setattr(r, name, v) if op == 'set' else delattr(r, name))
    if fr:
        c.check('refused', o.raised(TypeError))
        c.check('unchanged', same_fields(c, r, s))
        c.reach('frozen')
    else:
        c.check('done', o.ok and (c.same(getattr(r, name), v) if op == 'set' else name not in vars(r)))
        s.pop(name)
        c.check('the other field unchanged', same_fields(c, r, s))
        c.reach('mutable')
    for B, fb, k in ((B1, fb1, 'x'), (B2, fb2, 'y')):
        q = B(**{k: s.get(k, v)})
        o = c.attempt(lambda: setattr(q, k, v))
        c.check('the bases are as they were', o.raised(TypeError) if fb else o.ok)


@UNITS.unit(reach=('overridden',), weight=2)
def own_setattr(c):
    """a class body cannot turn the guard off"""
    R = c.R
    import warnings
    log = []
    ns = {c.choice('which', ('__setattr__', '__delattr__', '__hash__')): lambda self, *a: log.append(a)}
    where = c.choice('where', ('own', 'frozen base', 'mutable base', 'mixin'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if where == 'own':
            A = c.record('A', {'x': object}, ns=ns, frozen=True)
        elif where == 'mixin':
            M = type('M', (), ns)
            A = c.record('A', {'x': object}, (M, R.RecordBase), frozen=True)
        else:
            B = c.record('B', {'x': object}, ns=ns, frozen=where == 'frozen base')
            A = c.record('A', {'y': Dflt(object, 0)}, (B,), frozen=True)
    v = c.obj('v', T)
    r = A(x=v)
    c.check('assigning is refused', c.attempt(lambda: setattr(r, 'x', 5)).raised(TypeError))
    c.check('deleting is refused', c.attempt(lambda: delattr(r, 'x')).raised(TypeError))
    c.check('unchanged', c.same(r.x, v))
    c.reach('overridden')


@UNITS.unit(reach=('done',), weight=4)
def mutable_isolated(c):
    """assigning a field of a mutable record changes that field of that record only"""
    R = c.R
    d = c.obj('d', T)
    B = c.record('B', {'x': object, 'y': Dflt(object, d)}, frozen=c.choice('base frozen', (False, True)))
    A = c.record('A', {'z': Dflt(object, 3)}, (B,))
    a, b, p = A(x=c.obj('x', T)), A(x=c.obj('x2', T)), B(x=c.obj('x3', T))
    names = ('x', 'y', 'z')
    for i in range(2):
        sa, sb, sp = snap(a, names), snap(b, names), snap(p, ('x', 'y'))
        name = c.choice('name%d' % i, names)
        v = c.obj('v%d' % i, T)
        setattr(a, name, v)
        c.check('assigned', c.same(getattr(a, name), v))
        sa.pop(name)
        c.check('its other fields keep their values', same_fields(c, a, sa))
        c.check('other records keep theirs', c.And(same_fields(c, b, sb), same_fields(c, p, sp)))
        n = A(x=1)
        c.check('new records get the declared defaults', c.same(n.y, d) and n.z == 3)
        c.check('export shows the current value', c.same(a.to_dict(include_defaults=True)[name], v))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=4)
def operations_do_not_change(c):
    """no operation of the API changes a frozen record"""
    R = c.R
    import copy
    import pickle
    A = c.record('A', {'x': object, 'y': Dflt(object, None), 'z': Dflt(object, R.Factory(int))}, frozen=True, ordered=True)
    r = A(x=c.obj('x', T), y=c.obj('y', T), z=c.obj('z', T))
    s = snap(r, 'xyz')
    for i in range(c.P.get('steps', 2)):
        op = c.choice('op%d' % i, ('to_dict', 'export', 'select', 'from_instance', 'from_instance override', 'copy', 'deepcopy', 'pickle', 'hash', 'repr', 'eq', 'parse', 'change the dict'))
        o = c.attempt({
            'to_dict': lambda: r.to_dict(), 'export': lambda: r.to_dict.export_with(include_defaults=True)(), 'select': lambda: r.to_dict.select(keys_to_maybe_remove=('x', 'y'), keys_to_add={'q': 1})(),
            'from_instance': lambda: A.from_instance(r), 'from_instance override': lambda: A.from_instance(r, {'x': 9}, y=8), 'copy': lambda: copy.copy(r), 'deepcopy': lambda: copy.deepcopy(r),
            'pickle': lambda: pickle.loads(pickle.dumps(r)), 'hash': lambda: c.hash(r), 'repr': lambda: A.__repr__ and 1, 'eq': lambda: r == A(x=1), 'parse': lambda: A.parse(r),
            'change the dict': lambda: r.to_dict(include_defaults=True).update(x=1, y=2, z=3)}[op])
        c.check('works', o.ok or op == 'parse')
        c.check('every field keeps its value', same_fields(c, r, s))
    c.reach('done')


@UNITS.unit(reach=('frozen', 'mutable'), weight=6)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    S = shaped(c, {'x': object, '_y': Dflt(object, 7), 'z': Dflt(object, R.Factory(lambda: 1))})
    names = ['x', '_y', 'z'] + list(S.extra)
    r, other = S.cls(x=c.obj('x', T)), S.cls(x=c.obj('x2', T))
    s, so = snap(r, names), snap(other, names)
    name = c.choice('name', names + ['new', '_new'])
    v = c.obj('v', T)
    op = c.choice('op', ('set', 'del'))
    if S.frozen and c.choice('hash first', (False, True)):
        c.hash(r)
    c.check('is_frozen', S.cls.is_frozen() is S.frozen)
    o = c.attempt(lambda: setattr(r, name, v) if op == 'set' else delattr(r, name))
    if S.frozen:
        c.check('TypeError', o.raised(TypeError))
        c.check('every field keeps its value', same_fields(c, r, s) and name not in ('new', '_new') or not hasattr(r, name))
        c.reach('frozen')
    else:
        c.check('done', o.ok or (op == 'del' and name in ('new', '_new')))
        c.check('that attribute only', c.And(*[c.same(getattr(r, n), x) for n, x in s.items() if n != name]))
        c.check('as asked', c.same(getattr(r, name), v) if op == 'set' else not hasattr(r, name) or name not in vars(r))
        c.reach('mutable')
    c.check('other records are as they were', same_fields(c, other, so))
