"""C27: field metadata reports tags and defaults truthfully."""
import typing

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('up to 4 fields with up to 3 tags each and 4 tags in all, whose contents are arbitrary hashable objects (equal, identical or different), given in any place of the annotation a tag can be in; classes and subclasses of two parents; '
          'defaults and compared values are arbitrary objects')
OUTSIDE = 'contents that are not equal to themselves; subclasses of Tag; tags inside NewTypes and of the parameters of containers; default values whose == does not return a bool'

HASHABLE = ('V0', 'V1', 'int', 'bool', 'str', 'NoneType', 'tuple', 'float', 'bytes', 'ellipsis')


@UNITS.unit(reach=('equal', 'different'), weight=3)
def equality(c):
    """tags are equal exactly if their contents are, and then hash alike"""
    R = c.R
    x, y = c.obj('x', HASHABLE), c.obj('y', HASHABLE)
    form = c.choice('form', ('plain', 'pair', 'tag in tag', 'frozenset'))
    wrap = {'plain': lambda v: v, 'pair': lambda v: (v, 1), 'tag in tag': R.Tag, 'frozenset': lambda v: frozenset([v])}[form]
    a, b = R.Tag(wrap(x)), R.Tag(wrap(y))
    e = c.eq(x, y)
    c.check('equal contents', c.Iff(a == b, e))
    c.check('symmetric', c.Iff(b == a, e))
    c.check('unequal', c.Iff(a != b, c.Not(e)))
    c.check('to itself', c.And(a == a, c.Not(a != a)))
    c.check('hash', c.Implies(e, c.eq(c.hash(a), c.hash(b))))
    c.check('hash is stable', c.eq(c.hash(a), c.hash(a)))
    for other in (wrap(x), None, (wrap(x),), object()) + ((1,) if form != 'plain' else ()):
        if form != 'tag in tag':
            c.check('only to tags', c.Not(a == other))
    c.reach('equal' if c.fork(e) else 'different')


def has(c, contents, x):
    return c.Or(*[c.eq(t, x) for t in contents]) if contents else False


def place(c, R, hint, toks, name, frozen):
    """tokens around a hint, somewhere"""
    where = c.choice(name, c.P.get('places', ('one',)))
    if where == 'one' or not toks:
        return annot(R, hint, *toks)
    if where == 'reversed with others':
        return annot(R, hint, 'doc', *reversed(toks), R.hollow)
    if where == 'split':
        return annot(R, annot(R, hint, *toks[:1]), *toks[1:])
    if where == 'union':
        return annot(R, typing.Optional[hint], *toks)
    if where == 'list':
        return annot(R, List[hint], *toks)
    if where == 'final':
        return annot(R, typing.Final[annot(R, hint, *toks[:1])], *toks[1:])
    if where == 'final inside':
        return typing.Final[annot(R, hint, *toks)]
    if where == 'unhashable neighbour':
        return annot(R, hint, [1], *toks, {})
    if where == 'twice':
        return annot(R, hint, *toks, *toks)


def filtering(c):
    """every field carries exactly its tags; filtering by a tag gives the fields that carry an equal one, in order"""
    R = c.R
    nt = c.P.get('tags', 2)
    xs = [c.obj('x%d' % i, c.P.get('types', ('V0', 'int', 'bool', 'str'))) for i in range(nt)]
    q = c.obj('q', c.P.get('types', ('V0', 'int', 'bool', 'str')))
    sets = c.P.get('sets', ((), (0,), (1,), (0, 1), (1, 0)))
    n = c.P.get('fields', 3)
    own = [c.choice('set%d' % i, sets) for i in range(n)]
    places = c.P.get('places', ('one',))
    frozen = any('final' in p for p in places)
    hints = {}
    for i, s in enumerate(own):
        h = place(c, R, object if i != 1 else int, [R.Tag(xs[t]) for t in s], 'place%d' % i, frozen)
        hints['f%d' % i] = Dflt(h, i) if c.P.get('defaults') and i % 2 == 0 else h
    names = list(hints)
    shape = c.choice('shape', c.P.get('shapes', ('one class', 'subclass', 'two parents', 'deep and shallow')))
    if shape == 'one class':
        cls = c.record('A', hints, frozen=frozen)
        classes = [(cls, names)]
    elif shape == 'subclass':
        P = c.record('P', {k: hints[k] for k in names[:2]}, frozen=frozen)
        cls = c.record('A', {k: hints[k] for k in names[2:]}, bases=(P,), frozen=frozen)
        classes = [(cls, names), (P, names[:2])]
    elif shape == 'deep and shallow':
        P = c.record('P', {names[0]: hints[names[0]]}, frozen=frozen)
        Q = c.record('Q', {names[1]: hints[names[1]]}, bases=(P,), frozen=frozen)
        M = c.record('M', {k: hints[k] for k in names[2:3]}, frozen=frozen)
        cls = c.record('A', {k: hints[k] for k in names[3:]}, bases=(Q, M), frozen=frozen)
        classes = [(cls, names), (Q, names[:2])]
    else:
        P = c.record('P', {names[0]: hints[names[0]]}, frozen=frozen)
        Q = c.record('Q', {names[1]: hints[names[1]]}, frozen=frozen)
        cls = c.record('A', {k: hints[k] for k in names[2:]}, bases=(Q, P), frozen=frozen)
        names = [names[1], names[0]] + names[2:]
        classes = [(cls, names), (P, ['f0']), (Q, ['f1'])]
    for k, ns in classes:
        before = list(k._fields.items())
        got = k._fields.filter_by_tag(R.Tag(q))
        want = [x for x in ns if c.fork(has(c, [xs[t] for t in own[int(x[1])]], q))]
        c.check('exactly those, in order', list(got) == want)
        c.check('the very fields', all(got[x] is k._fields[x] for x in want))
        c.check('the class is as it was', list(k._fields.items()) == before)
        again = got.filter_by_tag(R.Tag(xs[0]))
        want2 = [x for x in want if c.fork(has(c, [xs[t] for t in own[int(x[1])]], xs[0]))]
        c.check('filters in a row', list(again) == want2)
        c.check('nothing carries a tag nobody gave', not k._fields.filter_by_tag(R.Tag(('other', 1))))
        for x in ns:
            f = k._fields[x]
            ts = list(f.tags)
            mine = [xs[t] for t in own[int(x[1])]]
            c.check('all its tags', c.And(*[has(c, [t.inner for t in ts], m) for m in mine]))
            c.check('only its tags', c.And(*[c.Or(*[c.same(t.inner, m) for m in mine]) for t in ts]))
            c.check('membership', c.Iff(R.Tag(q) in f.tags, has(c, mine, q)))
            c.check('through the class', getattr(k, x) is f)
        c.reach('some' if want else 'none')


R2 = ('some', 'none')
UNITS.add('filtering', filtering, reach=R2, weight=30, sets=((), (0,), (0, 1)), fields=3)
UNITS.add('filtering by any content', filtering, reach=R2, weight=12, sets=((), (0,)), fields=2, types=HASHABLE, shapes=('one class',))
PLACES = ('reversed with others', 'split', 'union', 'list', 'unhashable neighbour', 'twice')
UNITS.add('places', filtering, reach=R2, weight=12, sets=((0, 1),), fields=2, places=PLACES, shapes=('one class',), defaults=True)
UNITS.add('places of Final', filtering, reach=R2, weight=6, sets=((), (0, 1),), fields=2, places=('final', 'final inside', 'one'), shapes=('one class',))
UNITS.add('many', filtering, reach=R2, weight=99, tier='thorough', tags=3, sets=((), (0,), (1, 2), (0, 1, 2)), fields=4, types=('V0', 'int', 'bool'))
UNITS.add('any content thoroughly', filtering, reach=R2, weight=60, tier='thorough', sets=((), (0,), (1,), (1, 0)), fields=2, types=HASHABLE, shapes=('one class', 'subclass'))


@UNITS.unit(reach=('done',), weight=4)
def special(c):
    """the tags the package itself uses; tags do not travel between fields, classes or threads of inheritance"""
    R = c.R
    x = c.obj('x', HASHABLE)
    t = R.Tag(x)
    form = c.choice('form', ('both', 'excluded', 'tagged', 'neither'))
    toks = {'both': (R.exclude_from_ordering, t), 'excluded': (R.exclude_from_ordering,), 'tagged': (t,), 'neither': ()}[form]
    P = c.record('P', {'a': annot(R, object, *toks), 'b': object})
    A = c.record('A', {'d': annot(R, object, t)}, bases=(P,))
    B = c.record('B', {'d': object, 'e': Dflt(annot(R, object, R.exclude_from_ordering), 1)}, bases=(P,))
    tagged, excl = form in ('both', 'tagged'), form in ('both', 'excluded')
    c.check('A by tag', list(A._fields.filter_by_tag(t)) == (['a'] if tagged else []) + ['d'])
    c.check('B by tag', list(B._fields.filter_by_tag(t)) == (['a'] if tagged else []))
    c.check('P by tag', list(P._fields.filter_by_tag(t)) == (['a'] if tagged else []))
    for cls, more in ((P, []), (A, []), (B, ['e'])):
        c.check(cls.__name__ + ' excluded', list(cls._fields.filter_by_tag(R.exclude_from_ordering)) == (['a'] if excl else []) + more)
    c.check('no content equals it', c.Not(R.exclude_from_ordering == t))
    c.check('number of tags', len(P.a.tags) == len(toks) and not P.b.tags and len(A.d.tags) == 1 and not B.d.tags)
    c.check('metadata', A.a is P.a and A.a.owner is P and A.d.owner is A and B.d.owner is B and A.d.name == 'd' and P.a.name == 'a')
    c.reach('done')


@UNITS.unit(reach=('default', 'not default', 'no default', 'factory'), weight=6)
def defaults(c):
    """has_default and is_default"""
    R = c.R
    d = c.obj('d', ('V0', 'V1', 'int', 'bool', 'float', 'str', 'NoneType', 'list', 'dict', 'tuple', 'ellipsis', 'type'))
    v = c.obj('v', ('V0', 'V1', 'int', 'bool', 'float', 'str', 'NoneType', 'list', 'dict', 'tuple', 'ellipsis', 'type'))
    kind = c.choice('kind', ('value', 'none', 'factory', 'pair', 'record class'))
    made = []

    def fac():
        made.append(v)
        return v
    dflt = {'value': lambda: d, 'factory': lambda: R.Factory(fac), 'pair': lambda: [d, 1]}.get(kind)
    hint = annot(R, object, *([R.Tag(1)] if c.choice('tagged', (False, True)) else []))
    if kind == 'record class':
        O = c.record('O', {'o': object})
        dflt = lambda: O
    A = c.record('A', {'x': hint if kind == 'none' else Dflt(hint, dflt()), 'y': object}, unary_parse=False)
    cls = A if c.choice('inherited', (False, True)) else c.record('B', {'z': Dflt(object, d)}, bases=(A,))
    f = cls._fields['x']
    c.check('has_default exactly if declared', f.has_default is (kind != 'none') and cls._fields['y'].has_default is False)
    w = [v, 1] if kind == 'pair' else v
    is_d = f.is_default(w)
    if kind in ('value', 'pair'):
        c.check('is_default exactly if equal', c.Iff(c.truth(is_d), c.eq(d, v)))
        c.check('default kept', c.same(f.default, d) if kind == 'value' else c.same(f.default[0], d))
        c.check('the default is a default', c.truth(f.is_default(f.default)))
        c.check('not a factory', not f.default_is_factory)
        c.check('made', c.same(f.make_default(), f.default))
        c.reach('default' if c.fork(c.eq(d, v)) else 'not default')
    elif kind == 'record class':
        c.check('a class is its own default', c.truth(f.is_default(O)) and not c.truth(is_d) if not c.fork(c.same(v, O)) else True)
    else:
        c.check('never', c.Not(c.truth(is_d)))
        if kind == 'factory':
            c.check('not asked for', not made)
            c.check('is a factory', f.default_is_factory)
            c.check('made', c.same(f.make_default(), v) and len(made) == 1)
            c.check('nor its product', c.Not(c.truth(f.is_default(v))))
            c.check('nor the factory', c.Not(c.truth(f.is_default(fac))))
            c.reach('factory')
        else:
            c.reach('no default')
    c.check('agrees with the constructor', c.attempt(lambda: cls(y=1)).ok == (kind != 'none'))


@UNITS.unit(reach=('done',), weight=3)
def factories(c):
    """no value is the default of a factory: neither what it makes, nor the factory, nor what equals either"""
    R = c.R
    import functools
    plain_factories = {'list': list, 'dict': dict, 'int': int, 'str': str, 'tuple': tuple, 'object': object, 'bool': bool, 'set': set, 'lambda': lambda: [], 'none': lambda: None,
                       'partial': functools.partial(int, 0), 'bound': {}.copy, 'static': staticmethod(list).__func__}
    name = c.choice('factory', tuple(plain_factories))
    f = plain_factories[name]
    v = c.obj('v', ('NoneType', 'bool', 'int', 'str', 'float', 'tuple', 'list', 'dict', 'V0'))
    hint = annot(R, object, *([R.Tag(1)] if c.choice('tagged', (False, True)) else []))
    A = c.record('A', {'x': Dflt(hint, R.Factory(f)), 'y': object}, unary_parse=False)
    for cls in (A, c.record('B', {}, bases=(A,), unary_parse=False)):
        fld = cls._fields['x']
        c.check('has one', fld.has_default is True and fld.default_is_factory is True)
        for w in (v, f(), f, fld.make_default(), R.Factory(f), fld.default):
            c.check('never the default', c.Not(c.truth(fld.is_default(w))))
        p = f()
        c.check('made by it', type(fld.make_default()) is type(p))
        r = cls(y=v)
        c.check('used', type(r.x) is type(p) and 'x' in r.to_dict())
    c.reach('done')


@UNITS.unit(reach=('default', 'not default'), weight=3)
def odd_defaults(c):
    """a value is the default exactly if == says so: not by identity, truth or type"""
    R = c.R
    kd, d = odd(c, 'd', ODD_DEFAULT)
    v = {'same': lambda: d, 'other': lambda: odd(c, 'v', ODD_EQ)[1], 'object': lambda: c.obj('o', ('int', 'NoneType', 'str', 'V0'))}[c.choice('against', ('same', 'other', 'object'))]()
    A = c.record('A', {'x': Dflt(annot(R, object, *([R.Tag(1)] if c.choice('tagged', (False, True)) else [])), d)})
    f = A._fields['x']
    c.check('has one', f.has_default is True and not f.default_is_factory)
    c.check('it is the very object', f.default is d and f.make_default() is d)
    e = c.fork(d == v)
    c.assume(e == c.fork(v == d))       # == has to say the same both ways
    o = c.attempt(lambda: bool(f.is_default(v)))
    c.check('is_default exactly if equal', o.ok and c.Iff(o.value, e))
    c.reach('default' if e else 'not default')


@UNITS.unit(reach=('some', 'none', 'default', 'not default'), weight=6)
def shapes(c):
    """wherever the fields are declared: tags, defaults, names, order"""
    R = c.R
    t, q = c.obj('t', ('V0', 'int', 'str')), c.obj('q', ('V0', 'int'))
    d, v = c.obj('d', ('V0', 'NoneType')), c.obj('v', ('V0', 'NoneType'))
    made = []
    fields = {'x': annot(R, object, R.Tag(t)), 'y': Dflt(annot(R, object, R.Tag(('pair', 1))), d), 'w': Dflt(object, R.Factory(lambda: made.append(1)))}
    sh = shaped(c, fields, shapes=tuple(s for s in SHAPES if s != 'tagged'))
    F = sh.cls._fields
    c.check('the fields', set(F) == {'x', 'y', 'w', *sh.extra})
    hit = c.fork(c.eq(t, q))
    c.check('by tag', list(F.filter_by_tag(R.Tag(q))) == (['x'] if hit else []))
    c.check('by another', list(F.filter_by_tag(R.Tag(('pair', 1)))) == ['y'] and not F.filter_by_tag(R.Tag(('pair', 2))))
    c.reach('some' if hit else 'none')
    for n, f in F.items():
        c.check('names', f.name == n and getattr(sh.cls, n) is f)
        c.check('tags', len(f.tags) == (n in ('x', 'y')))
        c.check('has_default', f.has_default is (n != 'x'))
        c.check('factories', bool(f.has_default and f.default_is_factory) is (n == 'w' or n == 'zz' and not f.default_is_factory is False))
    same = c.fork(c.eq(d, v))
    c.check('is_default', c.Iff(c.truth(F['y'].is_default(v)), same) and not F['x'].is_default(v) and not F['w'].is_default(v) and not F['w'].is_default(None))
    c.check('nothing made', not made)
    c.check('default', c.same(F['y'].default, d) and c.same(F['y'].make_default(), d))
    c.reach('default' if same else 'not default')
    r = sh.cls(x=1)
    c.check('used', c.same(r.y, d) and r.w is None and made == [1])
