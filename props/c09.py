"""C09: construction binds each field exactly once or fails."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('classes of 1..5 fields (required, default, factory, inherited) with hollow and checked fields; any subset of the names given, with up to 2 '
          'unknown names; arguments, defaults and factory results arbitrary objects; two constructions')
OUTSIDE = 'fields named like attributes of RecordBase; classes of more fields'
T3 = ('V0', 'int', 'NoneType')


def field_specs(c, kinds, types=T3):
    """kinds per field: req, def, fac (each hollow), +c: checked V0"""
    R = c.R
    fields, info = {}, {}
    for i, kind in enumerate(kinds):
        name = 'f%d' % i if not kind.startswith('arg:') else 'arg'
        k = kind.split(':')[-1]
        hint = R.Annotated[U.V0, R.check] if k.endswith('+c') else U.V0
        k = k.replace('+c', '')
        d = fac = None
        if k == 'def':
            d = c.obj('d%d' % i, types)
            fields[name] = Dflt(hint, d)
        elif k == 'fac':
            fac = c.stub('fac%d' % i, ('obj',), types)
            fields[name] = Dflt(hint, R.Factory(fac))
        else:
            fields[name] = hint
        info[name] = (k, kind.endswith('+c'), d, fac)
    return fields, info


def construct_and_check(c, A, info, given, extra, tag):
    """given: dict of present arguments; asserts the outcome against the accounting rules"""
    before = {n: len(i[3].calls) for n, i in info.items() if i[3]}
    kw = dict(given)
    kw.update(extra)
    o = c.attempt(A, **kw)
    missing = [n for n, i in info.items() if i[0] == 'req' and n not in given]
    bad = [n for n in given if info[n][1] and not c.fork(c.is_inst(given[n], U.V0))]
    if extra or missing or bad:
        c.check(tag + 'refused with TypeError', o.raised(TypeError))
        c.check(tag + 'no factory is called twice', all(len(i[3].calls) - before[n] <= 1 for n, i in info.items() if i[3]))
        c.check(tag + 'no factory of a given field is called', all(len(i[3].calls) == before[n] for n, i in info.items() if i[3] and n in given))
        c.reach('refused')
        return None
    c.check(tag + 'succeeds', o.ok)
    r = o.value
    for n, (k, _, d, fac) in info.items():
        v = getattr(r, n)
        if fac is not None:
            c.check(tag + 'factory called once for an omitted field, else never', len(fac.calls) - before[n] == (0 if n in given else 1))
        if n in given:
            c.check(tag + 'given field holds its argument', c.same(v, given[n]))
        elif k == 'def':
            c.check(tag + 'omitted field holds the very default', c.same(v, d))
        else:
            c.check(tag + 'omitted field holds the fresh result of its factory', c.same(v, fac.calls[-1][3]))
            c.check(tag + 'factory called without arguments', fac.calls[-1][0] == () and fac.calls[-1][1] == {})
    c.check(tag + 'a record of the class', type(r) is A)
    c.check(tag + 'nothing but the fields', set(r.to_dict(include_defaults=True)) == set(info))
    c.reach('built')
    return r


def present(c, names, tag='', types=T3):
    return {n: c.obj(tag + 'a.' + n, types) for n in names if c.choice(tag + 'given.' + n, (True, False))}


def keywords(c):
    kinds = c.P['kinds']
    fields, info = field_specs(c, kinds)
    A = c.record('A', fields, frozen=c.P.get('frozen', False))
    given = present(c, info)
    extra = {n: c.obj('x.' + n, ('V0',)) for n in c.choice('unknown', ((), ('zz',), ('F0', 'f')) + c.P.get('unknown', ()))}
    if c.choice('reversed', (False, True)):
        given = dict(reversed(list(given.items())))
    construct_and_check(c, A, info, given, extra, '')


for kinds in (('req',), ('def',), ('fac',), ('req+c', 'def+c'), ('req', 'fac', 'def'), ('def', 'fac+c', 'req'), ('req', 'req', 'def+c'), ('fac', 'fac')):
    UNITS.add('keywords/' + ','.join(kinds), keywords, kinds=kinds, reach=('built', 'refused'), weight=len(kinds) ** 2)
UNITS.add('keywords/names of attributes', keywords, kinds=('req', 'def'), unknown=(('is_frozen',), ('to_dict', 'zz'), ('_hash',), ('__dict__',), ('__class__',), ('__doc__',)), reach=('built', 'refused'), weight=8)
UNITS.add('keywords/arg', keywords, kinds=('arg:req', 'def', 'req'), reach=('built', 'refused'), weight=8)
UNITS.add('keywords/frozen', keywords, kinds=('req', 'fac', 'def'), frozen=True, reach=('built', 'refused'), weight=8)
UNITS.add('keywords/four', keywords, kinds=('req', 'def', 'fac', 'req+c'), reach=('built', 'refused'), weight=30)
UNITS.add('keywords/five', keywords, kinds=('req', 'def', 'fac', 'req', 'def+c'), reach=('built', 'refused'), weight=60, tier='thorough')


@UNITS.unit(reach=('built', 'refused'), weight=9)
def twice(c):
    """a construction does not depend on earlier ones, failed ones included"""
    fields, info = field_specs(c, ('req+c', 'def', 'fac'), ('V0', 'NoneType'))
    A = c.record('A', fields)
    r1 = construct_and_check(c, A, info, present(c, info, '1.', ('V0', 'NoneType')), {}, 'first: ')
    keep = {n: getattr(r1, n) for n in info} if r1 is not None else {}
    construct_and_check(c, A, info, present(c, info, '2.', ('V0', 'NoneType')), {}, 'second: ')
    for n, v in keep.items():
        c.check('the first record is as it was', c.same(getattr(r1, n), v))


@UNITS.unit(reach=('built', 'refused'), weight=9)
def inherited(c):
    """fields of a base class count as the class's own"""
    R = c.R
    fields, info = field_specs(c, ('req', 'fac', 'def+c', 'req+c'), ('V0', 'NoneType'))
    names = list(fields)
    B = c.record('B', {n: fields[n] for n in names[:2]})
    A = c.record('A', {n: fields[n] for n in names[2:]}, (B,))
    given = present(c, info, types=('V0', 'NoneType'))
    r = construct_and_check(c, A, info, given, {}, '')
    if r is None:
        return
    b = c.attempt(B, f0=given['f0'])
    c.check('the base class still has its own fields only', b.ok and set(b.value.to_dict(include_defaults=True)) == {'f0', 'f1'})


@UNITS.unit(reach=('built', 'refused'), weight=6)
def defaults_not_filled(c):
    """a default is stored as it is, whatever the field's checks say, and values equal to the default are still the given ones"""
    R = c.R
    d = c.obj('d', ('V0', 'int', 'NoneType', 'bool', 'str'))
    g = c.stub('g', ('same', 'obj'), ('V0',))
    A = c.record('A', {'x': Dflt(R.Annotated[U.V0, R.check, R.CallValidation(g)], d)})
    o = c.attempt(A)
    c.check('default stored', o.ok and c.same(o.value.x, d))
    c.check('not validated', not g.calls)
    v = c.obj('v', ('V0', 'int', 'bool', 'NoneType'))
    o = c.attempt(A, x=v)
    if c.fork(c.is_inst(v, U.V0)):
        c.check('given value filled and stored', o.ok and len(g.calls) == 1 and c.same(g.calls[0][0][0], v) and c.same(o.value.x, g.calls[0][3]))
        c.reach('built')
    else:
        c.check('refused', o.raised(TypeError))
        c.reach('refused')
    o = c.attempt(A)
    c.check('default stored again', o.ok and c.same(o.value.x, d))


@UNITS.unit(reach=('built', 'refused'), weight=4)
def failing_factory(c):
    """a factory that raises makes the construction fail, with its exception; later constructions call it again"""
    R = c.R
    fac = c.stub('fac', ('obj', 'raise', 'none'), ('V0', 'int'), (Plain, KeyError))
    A = c.record('A', {'x': int, 'y': Dflt(R.Annotated[U.V0, R.check], R.Factory(fac)), 'z': Dflt(int, 5)})
    v = c.obj('v', ('int',))
    for i in range(2):
        o = c.attempt(A, x=v)
        c.check('factory called once per construction', len(fac.calls) == i + 1)
        a, k, kind, val = fac.calls[-1]
        if kind == 'raise':
            c.check('no record', not o.ok)
            c.check('its exception', o.exc is val or o.exc.__cause__ is val)
            c.reach('refused')
        else:
            c.check('stored as it is', o.ok and c.same(o.value.y, val) and c.same(o.value.x, v) and o.value.z == 5)
            c.reach('built')


@UNITS.unit(reach=('built', 'refused'), weight=5)
def special_values(c):
    """None, NO_DEFAULT-like sentinels, falsy and missing values are ordinary"""
    R = c.R
    A = c.record('A', {'x': object, 'y': Dflt(object, None), 'z': Dflt(object, 0)})
    vals = {n: c.choice(n, (None, False, 0, '', (), ..., NotImplemented, 'absent')) for n in 'xyz'}
    kw = {n: v for n, v in vals.items() if not (isinstance(v, str) and v == 'absent')}
    o = c.attempt(A, **kw)
    if 'x' not in kw:
        c.check('missing', o.raised(TypeError))
        c.reach('refused')
        return
    c.check('built', o.ok)
    for n, d in (('x', None), ('y', None), ('z', 0)):
        c.check('value', getattr(o.value, n) is kw.get(n, d))
    c.reach('built')


@UNITS.unit(reach=('built',), weight=2)
def mutable_defaults(c):
    """the very default object is shared, factory results are fresh"""
    R = c.R
    d = []
    A = c.record('A', {'x': Dflt(list, d), 'y': Dflt(R.Annotated[List[R.Annotated[int, R.check]], R.check], R.Factory(list))})
    n = c.choice('n', (1, 2, 3))
    rs = [A() for _ in range(n)]
    c.check('the default is the very object', all(r.x is d for r in rs))
    c.check('factories are called per construction', all(a.y is not b.y for a in rs for b in rs if a is not b))
    rs[0].y.append(1)
    c.check('later ones are unaffected', A().y == [] and A().x is d)
    c.reach('built')


@UNITS.unit(reach=('refused',))
def positional(c):
    """more than one positional argument is always refused"""
    R = c.R
    kinds = c.choice('kinds', (('req',), ('req', 'def'), ('req', 'req'), ('def',)))
    fields, info = field_specs(c, kinds, ('V0',))
    A = c.record('A', fields)
    n = c.choice('n', (2, 3))
    kw = {k: c.obj('k.' + k, ('V0',)) for k in c.choice('kw', ((), ('f0',), ('zz',)))}
    o = c.attempt(A, *[c.obj('p%d' % i, ('V0',)) for i in range(n)], **kw)
    c.check('refused with TypeError', o.raised(TypeError))
    c.check('no factory called', all(not i[3].calls for i in info.values() if i[3]))
    c.reach('refused')


@UNITS.unit(reach=('built',), weight=3)
def shared_factory(c):
    """one factory for several fields: a call per omitted field and construction, each field its own result"""
    R = c.R
    n = c.choice('n', (2, 3))
    fac = c.stub('fac', ('obj',), ('V0', 'NoneType'))
    one = R.Factory(fac)
    same = c.choice('the same Factory object', (True, False))
    names = ['f%d' % i for i in range(n)]
    A = c.record('A', {k: Dflt(object, one if same else R.Factory(fac)) for k in names}, frozen=c.choice('frozen', (False, True)))
    given = {k: c.obj('a.' + k, ('V0',)) for k in names if c.choice('given ' + k, (False, True))}
    for i in range(2):
        before = len(fac.calls)
        o = c.attempt(A, **given)
        c.check('succeeds', o.ok)
        left = [k for k in names if k not in given]
        made = [k[3] for k in fac.calls[before:]]
        c.check('a call per omitted field', len(made) == len(left))
        got = [getattr(o.value, k) for k in left]
        ok = [c.And(*[c.same(g, made[p]) for g, p in zip(got, perm)]) for perm in __import__('itertools').permutations(range(len(left)))]
        c.check('each omitted field holds a result of its own', c.Or(*ok))
        c.check('given ones their arguments', c.And(*[c.same(getattr(o.value, k), v) for k, v in given.items()]))
    c.reach('built')


@UNITS.unit(reach=('built',))
def shared_containers(c):
    """the containers that factories make are not shared between fields or records"""
    R = c.R
    kind = c.choice('kind', (list, dict, set))
    fac = R.Factory(kind)
    A = c.record('A', {k: Dflt(kind, fac) for k in 'xyz'})
    rs = [A(), A(), A.from_mapping({})]
    vs = [getattr(r, k) for r in rs for k in 'xyz']
    c.check('all distinct', len({id(v) for v in vs}) == len(vs) and all(type(v) is kind and not v for v in vs))
    c.reach('built')


@UNITS.unit(reach=('built',))
def shared_default(c):
    """one default object for several fields"""
    d, e = c.obj('d', ('V0', 'list', 'int')), c.obj('e', ('V0', 'list', 'int'))
    A = c.record('A', {'x': Dflt(object, d), 'y': Dflt(object, d), 'z': Dflt(object, e)})
    given = {k: c.obj('a.' + k, ('V0', 'int')) for k in 'xyz' if c.choice('given ' + k, (False, True))}
    for i in range(2):
        o = c.attempt(A, **given)
        c.check('succeeds', o.ok)
        c.check('argument or the very default', c.And(*[c.same(getattr(o.value, k), given.get(k, v)) for k, v in (('x', d), ('y', d), ('z', e))]))
    c.reach('built')


@UNITS.unit(reach=('built', 'refused'), weight=9)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    fields, info = field_specs(c, ('req', 'def', 'fac'), ('V0', 'NoneType'))
    S = shaped(c, fields, shapes=SAME_FIELDS, ns={'K': 3, 'helper': lambda self: None})
    given = present(c, info, types=('V0', 'NoneType'))
    extra = {n: c.obj('x.' + n, ('V0',)) for n in c.choice('unknown', ((), ('zz',), ('K',), ('helper', 'zz'), ('to_dict',), ('_fields',), ('__init__',), ('post_new', 'parse')))}
    construct_and_check(c, S.cls, info, given, extra, '')


@UNITS.unit(reach=('built', 'refused'), weight=9)
def shapes_more_fields(c):
    R = c.R
    S = shaped(c, {'x': object, 'y': Dflt(object, 7)}, shapes=MORE_FIELDS)
    kw = {n: c.obj(n, ('V0', 'int')) for n in ('x', 'y', 'zz', 'q') if c.choice('given ' + n, (False, True))}
    o = c.attempt(S.cls, **kw)
    if 'x' not in kw or 'q' in kw:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('refused')
        return
    c.check('built', o.ok)
    c.check('arguments and defaults', c.And(*[c.same(getattr(o.value, n), v) for n, v in kw.items()]) and ('y' in kw or o.value.y == 7) and ('zz' in kw or o.value.zz in (0, None)))
    c.reach('built')


@UNITS.unit(reach=('built', 'refused'), weight=4)
def odd_values(c):
    """whatever the defaults, the products of factories and the arguments say of themselves"""
    R = c.R
    d = odd(c, 'd', ('nan', '== raises', 'always equal falsy', '== has no truth value', 'no truth value', 'NotImplemented', 'Ellipsis'))[1]
    _, v = odd(c, 'v')
    made = []

    def fac():
        made.append(ODD_MAKE())
        return made[-1]
    k = c.choice('product', ('no truth value', 'NotImplemented'))
    ODD_MAKE = ODD[k][0]
    order = ['r', 'd', 'f'] if c.choice('order', (0, 1)) else ['f', 'd', 'r']
    A = c.record('A', {n: {'r': object, 'd': Dflt(object, d), 'f': Dflt(annot(R, object, R.Tag(1)), R.Factory(fac))}[n] for n in order}, unary_parse=False, frozen=order[0] == 'f')
    given = c.choice('given', ((), ('r',), ('r', 'd'), ('r', 'f'), ('d', 'r', 'f'), ('d', 'f')))
    o = c.attempt(lambda: A(**dict.fromkeys(given, v)))
    if 'r' not in given:
        c.check('refused', o.raised(TypeError))
        c.reach('refused')
        return
    c.check('built', o.ok)
    r = o.value
    c.check('the argument', r.r is v)
    c.check('the argument or the default', r.d is (v if 'd' in given else d))
    c.check('the argument or a product', r.f is v and not made if 'f' in given else len(made) == 1 and r.f is made[0])
    c.check('an unknown name is refused', c.attempt(lambda: A(r=v, q=v)).raised(TypeError))
    c.reach('built')


@UNITS.unit(reach=('built', 'refused'), weight=4)
def many(c):
    """classes of many fields: any of them left out, any of them given"""
    R = c.R
    N = 24
    made = {}

    def fac(k):
        def f():
            made[k] = made.get(k, 0) + 1
            return [k]
        return f
    fields = {}
    for k in range(N):
        fields['f%d' % k] = annot(R, object, R.Tag(k)) if k % 3 == 0 else Dflt(object, ('d', k)) if k % 3 == 1 else Dflt(object, R.Factory(fac(k)))
    if c.choice('inherit', (False, True)):
        names = list(fields)
        B = c.record('B', {n: fields[n] for n in names[:10]})
        A = c.record('A', {n: fields[n] for n in names[10:]}, (B,))
    else:
        A = c.record('A', fields)
    out = c.choice('left out', tuple(range(N)) + (None,))
    others = c.choice('of the others', ('all', 'required'))
    extra = c.choice('extra', (None, 'f24', 'F0')) if out is None else None
    given = {'f%d' % k: ('a', k) for k in range(N) if k != out and (others == 'all' or k % 3 == 0)}
    if c.choice('backwards', (False, True)):
        given = dict(reversed(list(given.items())))
    if out is not None and out % 3 and others == 'required':
        given['f%d' % out] = ('a', out)      # the only optional one that is given
    kw = dict(given, **({extra: 1} if extra else {}))
    o = c.attempt(lambda: A(**kw))
    if extra or (out is not None and out % 3 == 0):
        c.check('refused', o.raised(TypeError))
        c.reach('refused')
        return
    c.check('built', o.ok)
    for k in range(N):
        n = 'f%d' % k
        v = getattr(o.value, n)
        if n in given:
            c.check('the argument', v is given[n] and k not in made)
        else:
            c.check('the default', v == ('d', k) if k % 3 == 1 else v == [k] and made[k] == 1)
    c.reach('built')
