"""C25: subclasses extend records without disturbing their parents."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('chains of up to 3 classes and classes with 2 record parents and mixins; every combination of checking style, frozenness, ordering and unary parsing given to parent and child; inherited fields with arbitrary arguments, arbitrary validators and coercers, '
          'plain defaults and factories; parents observed before and after the subclass is defined, after a refused one, and while its instances are used')
OUTSIDE = 'pre_bind functions that alter inherited fields (that raises, as the project\'s tests require); metaclasses; class-level attributes other than fields'

KW = ('default_type_check', 'frozen', 'ordered', 'unary_parse')


def kwargs(c, name):
    """class keywords, each possibly not given; and what they amount to"""
    kw = {}
    st = c.choice(name + '.style', c.P.get('styles', (None, 'check', 'strict', 'hollow')))
    if st:
        kw['default_type_check'] = style(c.R, st)
    for k in ('frozen', 'ordered'):
        x = c.choice(name + '.' + k, c.P.get(k, (None, True)))
        if x is not None:
            kw[k] = x
    u = c.choice(name + '.unary', c.P.get('unary', (None,)))
    if u is not None:
        kw['unary_parse'] = u
    return kw, st or 'hollow'


def kept(c, cls, v, ok, label):
    """the field x of cls takes v iff ok"""
    o = c.attempt(lambda: cls(x=v, **{k: U.V1(3, True) for k in cls._required_keys if k != 'x'}))
    c.check(label + ': accepted as declared', c.Iff(ok, o.ok))
    if o.ok:
        c.check(label + ': stored', c.same(o.value.x, v))
    return o


def accepts(c, st, v):
    return True if st == 'hollow' else c.is_type(v, U.V1) if st == 'strict' else c.is_inst(v, U.V1)


def snapshot_cls(cls):
    import inspect
    return {'fields': list(cls._fields.items()), 'required': set(cls._required_keys), 'optional': set(cls._optional_keys), 'frozen': cls.is_frozen(), 'style': cls.default_type_check_style(),
            'ordered': cls._ordered, 'unary': cls._unary_parse, 'parsers': [getattr(p, '__name__', None) for p in cls._parsers], 'n_parsers': len(cls._parsers),
            'hash': cls.__hash__, 'setattr': cls.__setattr__, 'delattr': cls.__delattr__, 'owners': [f.owner for f in cls._fields.values()],
            'statics': {k: inspect.getattr_static(cls, k) for k in cls._fields}}


def styles(c):
    """style, frozenness, ordering and unary parsing are those each class states; inherited fields keep theirs"""
    R = c.R
    pk, pst = kwargs(c, 'p')
    P = c.record('P', {'x': U.V1, 'd': Dflt(annot(R, object, R.hollow), 5)}, **pk)
    before = snapshot_cls(P)
    ck, cst = kwargs(c, 'c')
    own = c.choice('own', c.P.get('own', ('typed', 'optional', 'none')))
    fields = {'typed': {'y': U.V1}, 'optional': {'y': Dflt(U.V1, None)}, 'none': {}}[own]
    C = c.record('C', fields, bases=(P,), **ck)
    c.check('the parent is as it was', snapshot_cls(P) == before)
    c.check('fields: the parent\'s, then its own', list(C._fields) == ['x', 'd'] + list(fields))
    c.check('the very fields', all(C._fields[k] is P._fields[k] for k in P._fields) and C.x is P.x)
    c.check('statement: frozen', C.is_frozen() == bool(ck.get('frozen')) and P.is_frozen() == bool(pk.get('frozen')))
    c.check('statement: style', C.default_type_check_style() is ck.get('default_type_check', R.hollow))
    v = c.obj('v', ('V1', 'V2', 'W', 'int'))
    for cls in (P, C) if c.choice('first', (0, 1)) else (C, P):
        kept(c, cls, v, accepts(c, pst, v), cls.__name__ + '.x')
    if own == 'typed':
        w = U.V1(3, True)
        o = c.attempt(lambda: C(x=w, y=v))
        c.check('its own field: its own style', c.Iff(accepts(c, cst, v), o.ok))
    # frozenness in use
    w = U.V1(3, True)
    r, p = C(x=w, **({'y': w} if own == 'typed' else {})), P(x=w)
    for cls, i, k in ((C, r, ck), (P, p, pk)):
        o = c.attempt(lambda: setattr(i, 'x', 7))
        c.check(cls.__name__ + ': assignment as stated', o.raised(TypeError) and i.x is w if k.get('frozen') else o.ok and i.x == 7)
        o = c.attempt(lambda: hash(i))
        c.check(cls.__name__ + ': hashing as stated', o.ok == bool(k.get('frozen')))
        o = c.attempt(lambda: delattr(i, 'd'))
        c.check(cls.__name__ + ': deletion as stated', o.ok != bool(k.get('frozen')))
    c.check('never equal', c.And(c.Not(P(x=w) == C(x=w, **({'y': w} if own == 'typed' else {})))))
    for cls, k in ((C, ck), (P, pk)):
        more = {'y': w} if cls is C and own == 'typed' else {}
        a, b = cls(x=w, d=0, **more), cls(x=w, d=1, **more)
        o = c.attempt(lambda: a < b)
        c.check(cls.__name__ + ': ordering as stated', o.ok and o.value is True if k.get('ordered') else o.raised(TypeError))
    c.reach('frozen child' if ck.get('frozen') else 'mutable child')


UNITS.add('styles', styles, frozen=(None,), ordered=(None,), reach=('mutable child',), weight=10)
UNITS.add('frozenness', styles, styles=(None,), own=('typed', 'none'), reach=('frozen child', 'mutable child'), weight=10)
UNITS.add('everything stated', styles, frozen=(None, True, False), reach=('frozen child', 'mutable child'), weight=90, tier='thorough')


@UNITS.unit(reach=('parsed', 'plain', 'refused'), weight=6)
def unary(c):
    """unary parsing: what each class states, else whether it has exactly one required field"""
    pu, cu = c.choice('pu', (None, True, False)), c.choice('cu', (None, True, False))
    kw = lambda u: {} if u is None else {'unary_parse': u}
    n = c.choice('parent requires', (1, 2))
    P = c.record('P', {'x': object, **({'w': object} if n == 2 else {})}, **kw(pu))
    before = snapshot_cls(P)
    own = c.choice('own', ('required', 'optional', 'none'))
    C = c.record('C', {'required': {'y': object}, 'optional': {'y': Dflt(object, 0)}, 'none': {}}[own], bases=(P,), **kw(cu))
    c.check('the parent is as it was', snapshot_cls(P) == before)
    for cls, u, req in ((C, cu, n + (own == 'required')), (P, pu, n)):
        on = (req != 1) if u is None else u
        full = {k: k for k in cls._required_keys}
        arg = c.choice(cls.__name__ + ' arg', ('mapping', 'object'))
        v = full if arg == 'mapping' else c.obj(cls.__name__ + '.v', ('V0', 'int', 'NoneType'))
        o = c.attempt(lambda: cls(v))
        if req == 1 and (not on or arg == 'object'):
            c.check(cls.__name__ + ': the one required field', o.ok and c.same(o.value.x, v))
            c.reach('plain')
        elif req == 1:
            c.check(cls.__name__ + ': ambiguous', o.raised(TypeError))
            c.reach('refused')
        elif on and arg == 'mapping':
            c.check(cls.__name__ + ': parsed', o.ok and all(getattr(o.value, k) == k for k in full))
            c.reach('parsed')
        else:
            c.check(cls.__name__ + ': refused', o.raised(TypeError))
            c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'), weight=8)
def fillers(c):
    """coercers and validators of inherited fields act in the subclass as in the parent, each once"""
    R = c.R
    f = DetFn(c, 'f', kinds=('obj', 'raise'), types=('V1', 'W'))
    g = DetFn(c, 'g', kinds=('same', 'obj', 'raise'), types=('V0', 'NoneType'))
    depth = c.choice('depth', (1, 2))
    P = c.record('P', {'x': annot(R, U.V1, R.check, R.CallCoercion(f), R.CallValidation(g)), 'k': Dflt(object, 1)})
    C = c.record('C', {'y': annot(R, object, R.CallValidation(lambda v: ('y', v)))}, bases=(P,))
    if depth == 2:
        C = c.record('D', {'z': Dflt(object, 2)}, bases=(C,), frozen=True)
    v = c.obj('v', ('V1', 'W', 'int'))
    y = c.obj('y', ('V0', 'int'))
    spec = Spec(plain(U.V1), 'check', (f,), (g,))
    exp = spec.fill(c, v)
    del f.calls[:], g.calls[:]
    o = c.attempt(lambda: C(y=y, x=v))
    once = len(f.calls) <= 1 and len(g.calls) <= 1
    c.check('each at most once', once)
    op = c.attempt(lambda: P(x=v))
    if exp is None:
        c.check('refused in both', o.raised() and op.raised())
        c.reach('refused')
    else:
        c.check('accepted in both', o.ok and op.ok)
        c.check('the same value in both', c.And(c.same(o.value.x, exp.value), c.same(op.value.x, exp.value)))
        c.check('its own field', o.value.y[0] == 'y' and c.same(o.value.y[1], y))
        c.check('only the fields declared', set(vars(o.value)) - {'_hash'} == set(C._fields) and set(vars(op.value)) - {'_hash'} == {'x', 'k'})
        c.reach('accepted')


@UNITS.unit(reach=('done',), weight=6)
def defaults(c):
    """inherited defaults and factories"""
    R = c.R
    dv = c.obj('dv', ('V0', 'NoneType', 'int', 'list'))
    made = []

    def fac():
        made.append([])
        return made[-1]
    P = c.record('P', {'a': Dflt(object, dv), 'b': Dflt(annot(R, list, R.check), R.Factory(fac)), 'x': object}, unary_parse=False)
    C = c.record('C', {'y': Dflt(object, 4), 'z': object}, bases=(P,), unary_parse=False)
    D = c.record('D', {'q': Dflt(object, R.Factory(dict))}, bases=(C,), unary_parse=False)
    c.check('order', list(D._fields) == ['a', 'b', 'x', 'y', 'z', 'q'] and list(C._fields) == ['a', 'b', 'x', 'y', 'z'] and list(P._fields) == ['a', 'b', 'x'])
    v = c.obj('v', ('V0', 'int'))
    given = c.choice('given', ('neither', 'a', 'b'))
    lst = [v]
    kw = {'neither': {}, 'a': {'a': v}, 'b': {'b': lst}}[given]
    for cls, more in ((P, {}), (C, {'z': 1}), (D, {'z': 1})):
        n = len(made)
        r = cls(x=v, **more, **kw)
        c.check('plain default', c.same(r.a, v if given == 'a' else dv))
        c.check('factory', r.b is lst if given == 'b' else len(made) == n + 1 and r.b is made[-1])
        c.check('own', not more or r.y == 4)
        c.check('required', c.attempt(lambda: cls(**more, **kw)).raised(TypeError))
        c.check('no other fields', not hasattr(r, 'q') or cls is D or isinstance(getattr(r, 'q', None), type(None)))
    c.check('parents take no fields of children', c.attempt(lambda: P(x=v, y=1)).raised(TypeError) and c.attempt(lambda: C(x=v, z=1, q=1)).raised(TypeError))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=6)
def two_parents(c):
    """fields in base order, each with the style of its parent"""
    R = c.R
    s1, s2 = c.choice('s1', ('check', 'hollow')), c.choice('s2', ('check', 'strict', 'hollow'))
    P = c.record('P', {'x': U.V1}, default_type_check=style(R, s1), frozen=c.choice('frozen', (False, True)))
    Q = c.record('Q', {'y': U.V1, 'd': Dflt(object, 3)}, default_type_check=style(R, s2))
    before = snapshot_cls(P), snapshot_cls(Q)

    class Mixin:
        note = 5
        __annotations__ = {'note': int}

        def twice(self):
            return (self.x, self.x)
    swap = c.choice('swap', (False, True))
    mix = c.choice('mixin', ('none', 'before', 'after'))
    bases = (Q, P) if swap else (P, Q)
    if mix != 'none':
        bases = (Mixin,) + bases if mix == 'before' else bases + (Mixin,)
    C = c.record('C', {'z': object}, bases=bases)
    c.check('parents as they were', (snapshot_cls(P), snapshot_cls(Q)) == before)
    c.check('base order', list(C._fields) == (['y', 'd', 'x', 'z'] if swap else ['x', 'y', 'd', 'z']))
    v, w, z = c.obj('v', ('V1', 'V2', 'int')), c.obj('w', ('V1', 'V2', 'int')), c.obj('z', ('V0', 'NoneType'))
    o = c.attempt(lambda: C(x=v, y=w, z=z))
    c.check('each as where it was declared', c.Iff(o.ok, c.And(accepts(c, s1, v), accepts(c, s2, w))))
    if o.ok:
        c.check('stored', c.And(c.same(o.value.x, v), c.same(o.value.y, w), c.same(o.value.z, z), o.value.d == 3))
        c.check('exported in order', list(o.value.to_dict(include_defaults=True)) == list(C._fields))
        if mix != 'none':
            c.check('mixin methods', c.all_same(o.value.twice(), (v, v)))
    c.reach('done')


@UNITS.unit(reach=('refused', 'accepted'), weight=5)
def conflicts(c):
    """redeclaring an inherited field or inheriting a name twice is refused, and leaves no trace"""
    R = c.R
    form = c.choice('form', ('redeclare', 'redeclare with default', 'redeclare grandparent', 'two parents', 'diamond', 'two and own', 'fine'))
    P = c.record('P', {'x': annot(R, U.V1, R.check), 'd': Dflt(object, 1)})
    Q = c.record('Q', {'x' if form == 'two parents' else 'y': object}, bases=None)
    G = c.record('G', {'g': object}, bases=(P,))
    H = c.record('H', {'h': object}, bases=(P,))
    all_ = (P, Q, G, H)
    before = [snapshot_cls(k) for k in all_]
    fields, bases = {'redeclare': ({'x': object}, (P,)), 'redeclare with default': ({'n': object, 'x': Dflt(object, 3)}, (P,)), 'redeclare grandparent': ({'d': Dflt(object, 1)}, (G,)),
                     'two parents': ({'n': object}, (P, Q)), 'diamond': ({'n': object}, (G, H)), 'two and own': ({'y': object}, (P, Q)), 'fine': ({'n': object}, (G, Q))}[form]
    o = c.attempt(lambda: c.record('C', fields, bases=bases, frozen=c.choice('frozen', (False, True))))
    if form == 'fine':
        c.check('accepted', o.ok and list(o.value._fields) == ['x', 'd', 'g', 'y', 'n'])
        c.reach('accepted')
    else:
        c.check('refused', o.raised(ValueError))
        c.reach('refused')
    c.check('parents as they were', [snapshot_cls(k) for k in all_] == before)
    v = c.obj('v', ('V1', 'V2', 'int', 'W'))
    kept(c, P, v, c.is_inst(v, U.V1), 'P.x')
    kept(c, G, v, c.is_inst(v, U.V1), 'G.x')
    c.check('later subclasses work', list(c.record('Z', {'z': object}, bases=(G,))._fields) == ['x', 'd', 'g', 'z'])


@UNITS.unit(reach=('done',), weight=6)
def pre_bind(c):
    """what a subclass does to its own fields in pre_bind stays there; altering inherited ones is refused without trace"""
    R = c.R
    g = DetFn(c, 'g', kinds=('same', 'raise'))
    ran = []

    def p_pre(cls):
        if cls.__name__ == 'P':
            cls.x.add_validator(g)
        ran.append(cls.__name__)
    P = c.record('P', {'x': object}, ns={'pre_bind': classmethod(p_pre)}, unary_parse=False)
    h = DetFn(c, 'h', kinds=('obj', 'raise'), types=('W',))
    what = c.choice('what', ('own', 'inherited validator', 'inherited coercer', 'inherited assertion', 'inherit pre_bind'))

    def c_pre(cls):
        if what == 'own':
            cls.y.add_validator(h)
        elif what == 'inherited validator':
            cls.x.add_validator(h)
        elif what == 'inherited coercer':
            cls.x.add_coercer(h)
        else:
            cls.x.add_assert_validator(h)
    before = snapshot_cls(P)
    o = c.attempt(lambda: c.record('C', {'y': object}, bases=(P,), ns={} if what == 'inherit pre_bind' else {'pre_bind': classmethod(c_pre)}))
    c.check('the parent is as it was', snapshot_cls(P) == before)
    v, y = c.obj('v', ('V0', 'int')), c.obj('y', ('V0', 'int'))
    gk, gv = g.ask(v)
    op = c.attempt(lambda: P(x=v))
    c.check('the parent acts as it did', op.ok == (gk != 'raise') and (not op.ok or c.same(op.value.x, v)))
    c.check('no foreign call', not h.calls)
    if what.startswith('inherited'):
        c.check('refused', o.raised(RuntimeError))
    else:
        c.check('accepted', o.ok)
        del g.calls[:]
        oc = c.attempt(lambda: o.value(x=v, y=y))
        hk, hv = h.ask(y) if what == 'own' else ('same', y)
        c.check('accepted by both validators', oc.ok == (gk != 'raise' and hk != 'raise'))
        if oc.ok:
            c.check('values', c.And(c.same(oc.value.x, v), c.same(oc.value.y, hv)))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=6)
def siblings(c):
    """two subclasses of one parent do not see each other; parsers are inherited, not shared"""
    R = c.R
    P = c.record('P', {'x': object}, unary_parse=True)
    before = snapshot_cls(P)
    key = c.obj('key', ('V0', 'int'))

    def own(cls, v):
        if not c.fork(c.same(v, key)):
            raise TypeError
        return cls(x=1, y=2)
    own_ = R.parser(classmethod(own))
    first = c.choice('first', ('with', 'without'))
    mk = {'with': lambda: c.record('B', {'y': object}, bases=(P,), ns={'from_key': own_}, unary_parse=True),
          'without': lambda: c.record('C', {'y': Dflt(object, 0), 'w': object}, bases=(P,), default_type_check=R.check, unary_parse=True)}
    B, C = (mk[k]() for k in ('with', 'without')) if first == 'with' else reversed([mk[k]() for k in ('without', 'with')])
    c.check('the parent is as it was', snapshot_cls(P) == before)
    c.check('fields apart', list(B._fields) == ['x', 'y'] and list(C._fields) == ['x', 'y', 'w'] and B.y is not C.y)
    v = c.obj('v', ('V0', 'int'))
    o = c.attempt(lambda: B.parse(v))
    c.check('its own parser', c.Iff(o.ok, c.same(v, key)))
    c.check('not the sibling\'s, nor the parent\'s', c.attempt(lambda: C.parse(v)).raised(TypeError) and c.attempt(lambda: P.parse(v)).raised(TypeError))
    E = c.record('E', {'e': Dflt(object, 3)}, bases=(B,), unary_parse=True)
    o = c.attempt(lambda: E.parse(v))
    c.check('inherited parser', c.Iff(o.ok, c.same(v, key)))
    if o.ok:
        c.check('makes the subclass', type(o.value) is E and o.value.e == 3)
    c.reach('done')


@UNITS.unit(reach=('typed', 'untyped'), weight=6)
def inherited_style(c):
    """however many fields, classes and styles came before: a class that states no style checks nothing of its own, one that does checks its own fields with it"""
    R = c.R
    n = c.choice('parent fields', (1, 3, 5))
    sts = [c.choice('style%d' % i, (None, 'check', 'strict')) for i in range(3)]
    kw = lambda s: {} if s is None else {'default_type_check': style(R, s)}
    pf = {'p%d' % i: Dflt(U.V1, None) for i in range(n)}
    pf['p0'] = U.V1
    P = c.record('P', pf, unary_parse=False, **kw(sts[0]))
    order = c.choice('order', ('chain', 'siblings'))
    C = c.record('C', {'c': Dflt(U.V1, None), 'c2': Dflt(U.V1, None), 'c3': Dflt(U.V1, None)}, bases=(P,), unary_parse=False, **kw(sts[1]))
    D = c.record('D', {'d': Dflt(U.V1, None)}, bases=(C if order == 'chain' else P,), unary_parse=False, **kw(sts[2]))
    v = c.obj('v', ('V1', 'V2', 'int'))
    w = U.V1(3, True)
    for cls, field, st in ((P, 'p0', sts[0]), (C, 'c', sts[1]), (D, 'd', sts[2]), (D, 'p0', sts[0]), (D, 'c3', sts[1]), (C, 'c2', sts[1]), (C, 'p%d' % (n - 1), sts[0])):
        if field not in cls._fields:
            continue
        o = c.attempt(lambda: cls(**{'p0': w, field: v}))
        c.check('%s.%s' % (cls.__name__, field), c.Iff(accepts(c, st or 'hollow', v), o.ok))
    c.check('stated', D.default_type_check_style() is kw(sts[2]).get('default_type_check', R.hollow) and P.default_type_check_style() is kw(sts[0]).get('default_type_check', R.hollow))
    c.reach('untyped' if sts[2] is None else 'typed')


@UNITS.unit(reach=('done',), weight=5)
def shapes(c):
    """whatever the parent is like, and however it was put together: the child has its fields, the parent stays as it was"""
    R = c.R
    S = shaped(c, {'x': annot(R, U.V1, R.check), 'f': Dflt(annot(R, list, R.check), R.Factory(list)), 'd': Dflt(annot(R, int, R.check_strict), 4)})
    P = S.cls
    before = snapshot_cls(P)
    cf = c.choice('frozen', (None, True))
    C = c.record('C', {'y': Dflt(annot(R, int, R.check_strict), 0), 'z': U.V1}, bases=(P,), frozen=bool(cf), unary_parse=False)
    c.check('the parent is as it was', snapshot_cls(P) == before)
    c.check('fields', list(C._fields) == list(P._fields) + ['y', 'z'] and all(C._fields[k] is P._fields[k] for k in P._fields))
    v = c.obj('v', ('V1', 'V2', 'int'))
    ok = c.is_inst(v, U.V1)
    o = c.attempt(lambda: C(x=v, z=v))
    c.check('inherited checks', c.Iff(ok, o.ok))
    if o.ok:
        r = o.value
        c.check('values', c.And(c.same(r.x, v), r.f == [], type(r.f) is list, r.d == 4, r.y == 0, c.same(r.z, v)))
        c.check('a list each', C(x=v, z=v).f is not r.f)
        c.check('own checks', c.attempt(lambda: C(x=v, z=v, y=True)).raised(TypeError) and c.attempt(lambda: C(x=v, z=v, d=True)).raised(TypeError))
        c.check('frozenness', c.attempt(lambda: setattr(r, 'y', 5)).ok != bool(cf) and c.attempt(lambda: setattr(P(x=v), 'd', 5)).ok != S.frozen)
        c.check('ordering', c.attempt(lambda: r < r).raised(TypeError))
    c.check('parent\'s checks', c.Iff(ok, c.attempt(lambda: P(x=v)).ok))
    c.check('required', c.attempt(lambda: C(z=v)).raised(TypeError))
    c.check('the parent is still as it was', snapshot_cls(P) == before)
    c.reach('done')


@UNITS.unit(reach=('refused',), weight=4)
def one_name_twice(c):
    """a field reached along two paths, or declared by two parents, is refused whatever the field is like and whichever path is named first"""
    R = c.R
    kind = c.choice('field', ('required', 'value', 'None', 'factory', 'validated', 'plain', 'optional'))
    mk = lambda: {'required': annot(R, U.V1, R.check), 'value': Dflt(int, 3), 'None': Dflt(object, None), 'factory': Dflt(list, R.Factory(list)),
                  'validated': Dflt(annot(R, int, R.check, R.CallValidation(lambda x: x)), 1), 'plain': object, 'optional': Dflt(Optional[int], None)}[kind]
    gf = c.choice('frozen', (False, True))
    G = c.record('G', {'g': mk()}, frozen=gf)
    B = c.record('B', {'b': object}, bases=(G,))
    N = c.record('N', {}, bases=(G,), frozen=gf)
    K = c.record('K', {'k': Dflt(object, 0)}, bases=(B,))
    O = c.record('O', {'g': mk()}) if kind != 'required' else c.record('O', {'g': object})
    I = c.record('I', {'i': object})
    all_ = (G, B, N, K, O, I)
    before = [snapshot_cls(x) for x in all_]
    bases = {'siblings': (B, N), 'siblings back': (N, B), 'child, parent': (B, G), 'grandchild, parent': (K, G), 'grandchild, sibling': (K, N), 'unrelated': (G, O), 'unrelated back': (O, K), 'with another': (I, B, N),
             'apart': (B, I, O), 'own': (N,), 'own, deep': (K, I)}
    which = c.choice('bases', tuple(bases))
    fields = {'g': mk()} if which.startswith('own') else {}
    if c.choice('more', (False, True)):
        fields['z'] = Dflt(object, 1)
    o = c.attempt(lambda: c.record('D', fields, bases=bases[which], frozen=c.choice('child frozen', (False, True))))
    c.check('refused', o.raised(ValueError))
    c.check('parents as they were', [snapshot_cls(x) for x in all_] == before)
    c.reach('refused')


@UNITS.unit(reach=('done',), weight=3)
def shadowed(c):
    """own fields come in the order of their declaration, whatever else says something of their names"""
    R = c.R
    by = c.choice('said by', ('mixin', 'mixin of a parent', 'class variables of a parent', 'class variables of a grandparent', 'annotated class variables'))
    order = c.choice('order', (('x', 'y', 'w'), ('w', 'y', 'x'), ('y', 'w', 'x')))
    own = c.choice('own', (('x', 'y', 'w'), ('y', 'x', 'w'), ('w', 'x', 'y')))
    cf = c.choice('frozen', (False, True))
    if 'mixin' in by:
        M = type('M', (), {'__annotations__': dict.fromkeys(order, int)})
        P = c.record('P', {'p': object}, bases=(M, R.RecordBase) if by == 'mixin of a parent' else None)
        bases = (P,) if by == 'mixin of a parent' else (M, P)
    else:
        P = c.record('P', dict({k: typing.ClassVar[int] if 'annotated' not in by else annot(R, typing.ClassVar[int], R.Tag('t')) for k in order}, p=object))
        bases = (P,)
        if by.endswith('grandparent'):
            bases = (c.record('Q', {}, bases=(P,)),)
    vs = {k: c.obj(k, ('V1', 'V2', 'int')) for k in own}
    C = c.record('C', {k: annot(R, U.V1, R.check) if k != 'w' else Dflt(object, None) for k in own}, bases=bases, frozen=cf)
    c.check('fields', list(C._fields) == ['p'] + list(own))
    ok = c.And(c.is_inst(vs['x'], U.V1), c.is_inst(vs['y'], U.V1))
    o = c.attempt(lambda: C(p=1, **vs))
    c.check('checked by its own types', c.Iff(ok, o.ok))
    if o.ok:
        d = o.value.to_dict(include_defaults=True)
        c.check('exported in order', list(d) == ['p'] + list(own) and c.And(*[c.same(d[k], vs[k]) for k in own]))
    c.check('the parent keeps its fields', list(P._fields) == ['p'])
    c.reach('done')
