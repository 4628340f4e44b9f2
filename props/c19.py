"""C19: import factories build from exactly the given data and never alter it."""
import io
import pickle
import types

from .c17 import LISTS, ref
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('classes of 3 fields (required, default, factory), mutable and frozen; up to 3 mappings (dictionaries, proxies, chains, user mappings) plus keyword arguments, each with any subset of the names and an unknown one, '
          'arbitrary values; objects with any subset of the attributes; JSON texts, bytes and files; pickles of records, subclass records, mappings and other objects; Selects of up to two steps')
OUTSIDE = 'whether an attribute equal to the (non-factory) default or that very default is stored; missing required attributes that a mapping supplies may be refused'
T = ('V0', 'NoneType')
FIELDS = ('x', 'y', 'z')


def cls(c, frozen=False, **kw):
    """x required, y with a default, z with a factory"""
    d, f = c.obj('default', T), c.obj('made', T)
    A = c.record('A', {'x': object, 'y': Dflt(object, d), 'z': Dflt(object, c.R.Factory(lambda: f))}, frozen=frozen, **kw)
    return A, {'y': d, 'z': f}


def some(c, prefix, names, force=()):
    return {n: c.obj('%s.%s' % (prefix, n), T) for n in names if n in force or c.choice('%s has %s' % (prefix, n), (True, False))}


def wrap(c, name, d, kinds):
    kind = c.choice(name + ' kind', kinds)
    return {'dict': lambda: d, 'proxy': lambda: types.MappingProxyType(d), 'ordered': lambda: collections.OrderedDict(d), 'user': lambda: collections.UserDict(d),
            'chain': lambda: collections.ChainMap(d)}[kind]()


def built(c, label, o, A, data, dflt, loose=()):
    """the construction from the keyword arguments `data`"""
    if 'x' not in data or not set(data) <= set(FIELDS):
        c.check(label + ': refused like the same keyword arguments', o.raised(TypeError))
        c.reach('refused')
        return
    c.check(label + ': built', o.ok and type(o.value) is A)
    for n in FIELDS:
        want = data.get(n, dflt.get(n)) if n not in data else data[n]
        got = getattr(o.value, n)
        if n in loose and c.fork(c.eq(dflt['y'], want)):
            c.check(label + ': an equal value', c.eq(got, want))
        else:
            c.check(label + ': ' + n + ' as given', c.same(got, want))
    c.reach('built')


def from_mapping(c):
    A, dflt = cls(c, c.P.get('frozen', False))
    n = c.choice('mappings', c.P['counts'])
    maps, data = [], {}
    for i in range(n):
        m = some(c, 'm%d' % i, c.P['names'])
        maps.append((wrap(c, 'm%d' % i, m, c.P['kinds']), dict(m)))
        for k, v in m.items():
            data.setdefault(k, v)
    kw = some(c, 'kw', c.P['kwnames'])
    for k, v in kw.items():
        data.setdefault(k, v)
    how = c.choice('how', c.P.get('hows', ('factory',)))
    if how == 'factory':
        o = c.attempt(lambda: A.from_mapping(*[m for m, _ in maps], **kw))
    else:
        o = c.attempt(lambda: A.from_mapping.select(c.R.select.Select())(*[m for m, _ in maps], **kw))
    built(c, 'from_mapping', o, A, data, dflt)
    c.check('the mappings are as they were', c.And(*[c.And(list(m) == list(m0), *[c.same(m[k], v) for k, v in m0.items()]) for m, m0 in maps]))


UNITS.add('one mapping', from_mapping, counts=(0, 1), names=('y', 'x', 'q', 'z'), kwnames=('x', 'z', 'q'), kinds=('dict', 'proxy', 'user'), reach=('built', 'refused'), weight=4)
UNITS.add('two mappings', from_mapping, counts=(2,), names=('x', 'y', 'q'), kwnames=('x', 'y'), kinds=('dict',), hows=('factory', 'select'), reach=('built', 'refused'), weight=6)
UNITS.add('three mappings', from_mapping, counts=(3,), names=('x', 'z'), kwnames=('x',), kinds=('dict', 'chain'), reach=('built', 'refused'), weight=8)
UNITS.add('frozen', from_mapping, counts=(1, 2), names=('x', 'y'), kwnames=('y',), kinds=('dict', 'ordered'), frozen=True, reach=('built', 'refused'), weight=4)
UNITS.add('three mappings, all names', from_mapping, counts=(3,), names=('x', 'y', 'z', 'q'), kwnames=('x', 'q'), kinds=('dict',), reach=('built', 'refused'), weight=60, tier='thorough')


def mk_obj(c, attrs, kind):
    if kind == 'attributes':
        v = type('O', (), {'other': 1})()
        for n, x in attrs.items():
            setattr(v, n, x)
        return v
    if kind == 'class':
        return type('O', (), dict(attrs))
    if kind == 'namespace':
        return types.SimpleNamespace(**attrs)
    return type('O', (), {n: property(lambda s, x=x: x) for n, x in attrs.items()})()


def from_instance(c):
    A, dflt = cls(c, c.P.get('frozen', False))
    attrs = some(c, 'v', FIELDS)
    v = mk_obj(c, attrs, c.choice('object', c.P.get('objects', ('attributes',))))
    maps = [some(c, 'm%d' % i, c.P['names']) for i in range(c.choice('mappings', c.P['counts']))]
    kw = some(c, 'kw', c.P['kwnames'])
    data = dict(attrs)
    for m in maps:
        data.update(m)
    data.update(kw)
    copies = [dict(m) for m in maps]
    state = dict(vars(v))
    o = c.attempt(lambda: A.from_instance(v, *maps, **kw))
    if 'x' not in attrs and o.raised(AttributeError):
        c.reach('no attribute')
    else:
        c.check('a missing required attribute is refused unless supplied', 'x' in data or o.raised(AttributeError))
        if 'x' in data:
            built(c, 'from_instance', o, A, data, dflt, loose=('y',))
    c.check('the mappings are as they were', c.And(*[c.And(list(m) == list(m0), *[c.same(m[k], m0[k]) for k in m0]) for m, m0 in zip(maps, copies)]))
    c.check('the object is as it was', dict(vars(v)).keys() == state.keys() and c.And(*[c.same(getattr(v, n), x) for n, x in attrs.items()]))


UNITS.add('instance', from_instance, counts=(0, 1), names=('y', 'x', 'q'), kwnames=('x',), objects=('attributes', 'namespace', 'properties', 'class'), reach=('built', 'refused', 'no attribute'), weight=6)
UNITS.add('instance, two mappings', from_instance, counts=(2,), names=('y', 'x'), kwnames=('y', 'z'), reach=('built', 'no attribute'), weight=8)
UNITS.add('frozen from instance', from_instance, counts=(0, 1, 2), names=('y',), kwnames=('x', 'q'), frozen=True, reach=('built', 'refused', 'no attribute'), weight=6)


@UNITS.unit(reach=('itself', 'new'), weight=5)
def own_instance(c):
    """from an instance of the class itself, with or without something to change"""
    frozen = c.choice('frozen', (True, False))
    A, dflt = cls(c, frozen)
    vals = {n: c.obj('v.' + n, T) for n in FIELDS}
    r = A(**vals)
    maps = [some(c, 'm%d' % i, ('y',)) for i in range(c.choice('mappings', (0, 1)))]
    kw = some(c, 'kw', ('x', 'z'))
    f = c.choice('factory', ('plain', 'empty select', 'merged'))
    S = c.R.select.Select
    fac = {'plain': lambda: A.from_instance, 'empty select': lambda: A.from_instance.select(S.empty), 'merged': lambda: A.from_instance.select(S(), keys_to_maybe_remove=())}[f]()
    o = c.attempt(lambda: fac(r, *maps, **kw))
    data = dict(vals)
    for m in maps:
        data.update(m)
    data.update(kw)
    if frozen and not any(maps) and not kw:
        if not maps:
            c.check('the very instance', o.ok and o.value is r)
        else:
            c.check('an equal instance', o.ok and c.eq(o.value, r))
        c.reach('itself')
    else:
        built(c, 'from_instance', o, A, data, dflt, loose=('y',))
        c.check('another record', o.value is not r)
        c.reach('new')
    c.check('the record is as it was', c.And(*[c.same(getattr(r, n), v) for n, v in vals.items()]))


@UNITS.unit(reach=('done',), weight=3)
def related_instance(c):
    """from records of parents, subclasses and unrelated classes"""
    R = c.R
    frozen = c.choice('frozen', (True, False))
    P_ = c.record('P', {'x': object, 'y': Dflt(object, None)}, frozen=frozen)
    S_ = c.record('S', {'w': Dflt(object, 0)}, (P_,), frozen=c.choice('frozen sub', (True, False)))
    O_ = c.record('O', {'y': Dflt(object, 1), 'x': object}, frozen=frozen)
    x, y = c.obj('x', T), c.obj('y', T)
    src, dst = c.choice('case', (('P', 'S'), ('S', 'P'), ('O', 'P'), ('O', 'S')))
    K = {'P': P_, 'S': S_, 'O': O_}
    r = K[src](x=x, y=y)
    o = c.attempt(lambda: K[dst].from_instance(r))
    c.check('a record of the class with the same fields', o.ok and isinstance(o.value, K[dst]) and c.And(c.eq(o.value.x, x), c.eq(o.value.y, y)))
    if not (frozen and (src, dst) == ('S', 'P')):
        c.check('of exactly the class', type(o.value) is K[dst] and o.value is not r)
        c.check('a field of its own has its default', dst != 'S' or o.value.w == 0)
    c.reach('done')


@UNITS.unit(reach=('built', 'refused', 'selected'), weight=8)
def selects(c):
    """the selected keys become the keyword arguments; the data stays as it is"""
    A, dflt = cls(c)
    m = some(c, 'm', ('x', 'y', 'X', 'q'))
    kw = some(c, 'kw', ('x',))
    data = dict(kw, **m)
    k = c.choice('select', ('remove q', 'rename X->x', 'maybe rename X->x', 'add z', 'maybe add x', 'maybe remove q, remove y', 'swap'))
    v = c.obj('added', T)
    spec = {n: [] for n in LISTS}
    spec.update({'remove q': {'remove': ['q']}, 'rename X->x': {'rename': [('X', 'x')]}, 'maybe rename X->x': {'maybe_rename': [('X', 'x')]}, 'add z': {'add': [('z', v)]},
                 'maybe add x': {'maybe_add': [('x', v)]}, 'maybe remove q, remove y': {'maybe_remove': ['q'], 'remove': ['y']},
                 'swap': {'rename': [('x', 'q2'), ('y', 'x'), ('q2', 'y')]}}[k])
    f = A.from_mapping.select(**{'keys_to_' + n: es for n, es in spec.items() if es})
    d = dict(m)
    exp, exc = ref(c, list(data.items()), spec)
    o = c.attempt(lambda: f(d, **kw))
    if exc:
        c.check('refused', o.raised(*exc))
        c.reach('refused')
    else:
        built(c, 'from_mapping', o, A, dict(exp), dflt)
        c.reach('selected')
    c.check('the mapping is as it was', list(d) == list(m) and c.And(*[c.same(d[n], x) for n, x in m.items()]))


@UNITS.unit(reach=('built', 'refused', 'selected'), weight=8)
def instance_selects(c):
    A, dflt = cls(c)
    attrs = some(c, 'v', ('x', 'y', 'X'))
    v = mk_obj(c, attrs, 'attributes')
    m = some(c, 'm', ('y', 'X'))
    added = c.obj('added', T)
    k = c.choice('select', ('rename X->x', 'maybe rename X->x', 'remove X', 'remove y', 'replace y', 'add x', 'maybe add x', 'maybe add y'))
    spec = {n: [] for n in LISTS}
    spec.update({'rename X->x': {'rename': [('X', 'x')]}, 'maybe rename X->x': {'maybe_rename': [('X', 'x')]}, 'remove X': {'remove': ['X']}, 'remove y': {'remove': ['y']},
                 'replace y': {'remove': ['y'], 'add': [('y', added)]}, 'add x': {'add': [('x', added)]}, 'maybe add x': {'maybe_add': [('x', added)]}, 'maybe add y': {'maybe_add': [('y', added)]}}[k])
    f = A.from_instance.select(**{'keys_to_' + n: es for n, es in spec.items() if es})
    # the attributes the fields and the Select name; an attribute of a key that is added is not looked at
    names = {'rename X->x': ('x', 'y', 'X'), 'maybe rename X->x': ('x', 'y', 'X'), 'remove X': ('x', 'y', 'X'), 'add x': ('y',)}.get(k, ('x', 'y'))
    need = {'rename X->x': ('X',), 'maybe rename X->x': (), 'remove X': ('x', 'X'), 'remove y': ('x', 'y'), 'replace y': ('x', 'y'), 'add x': (), 'maybe add x': (), 'maybe add y': ('x',)}[k]
    data = {n: attrs[n] for n in names if n in attrs}
    if k in ('maybe add y',) and 'y' in data and 'y' not in m and c.fork(c.eq(dflt['y'], data['y'])):
        c.reach('built')
        c.assume(False)    # an attribute equal to the default may count as absent
    d = dict(m)
    data.update(m)
    o = c.attempt(lambda: f(v, d))
    if not all(n in attrs for n in need):
        if any(n not in attrs and n not in m for n in need):
            c.check('refused', o.raised(AttributeError, KeyError, TypeError, ValueError))
            c.reach('refused')
    else:
        exp, exc = ref(c, list(data.items()), spec)
        if exc:
            c.check('refused', o.raised(*exc))
            c.reach('refused')
        else:
            built(c, 'from_instance', o, A, dict(exp), dflt, loose=('y',))
            c.reach('selected')
    c.check('the mapping is as it was', list(d) == list(m) and c.And(*[c.same(d[n], x) for n, x in m.items()]))
    c.check('the object is as it was', list(vars(v)) == list(attrs) and c.And(*[c.same(getattr(v, n), x) for n, x in attrs.items()]))


@UNITS.unit(reach=('built', 'refused'), weight=5)
def from_json(c):
    J = ('int', 'str', 'NoneType', 'bool')
    A, dflt = cls(c)
    data = {n: c.obj('j.' + n, J) for n in ('z', 'x', 'y', 'q') if c.choice('has ' + n, (True, False))}
    text = c.encode(data)
    how = c.choice('how', ('text', 'bytes', 'file', 'select'))
    o = c.attempt(lambda: {'text': lambda: A.from_json(text), 'bytes': lambda: A.from_json(text.encode()), 'file': lambda: A.from_json_io(io.StringIO(text)),
                           'select': lambda: A.from_json.select(c.R.select.Select.empty)(text)}[how]())
    if 'x' not in data or 'q' in data:
        c.check('refused like the same keyword arguments', o.raised(TypeError))
        c.reach('refused')
        return
    c.check('built', o.ok and type(o.value) is A)
    c.check('from the decoded object', c.And(*[c.And(c.eq(getattr(o.value, n), data[n]), c.type_eq(getattr(o.value, n), data[n])) if n in data else c.same(getattr(o.value, n), dflt[n]) for n in FIELDS]))
    c.reach('built')


@UNITS.unit(reach=('done',), weight=2)
def not_json_objects(c):
    A, dflt = cls(c)
    text = c.choice('text', ('[1, 2]', '3', '"x"', 'null', '{"x": ', '', '[["x", 1]]', '{"x": 1} 2', 'true'))
    how = c.choice('how', (lambda: A.from_json(text), lambda: A.from_json_io(io.StringIO(text))))
    c.check('refused', c.attempt(how).raised(TypeError, ValueError))
    c.check('other objects are refused', c.attempt(lambda: A.from_json(c.obj('o', ('V0', 'int', 'NoneType', 'list')))).raised(TypeError))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=2)
def nested_json(c):
    """nested values arrive as decoded; two imports share nothing"""
    A = c.record('A', {'x': object, 'y': Dflt(object, None)})
    text = '{"x": {"a": [1, {"y": 2}], "x": "x"}, "y": [[], {}]}'
    hook = c.choice('hook', (False, True))
    f = (lambda: A.from_json(text, parse_int=float)) if hook else (lambda: A.from_json(text))
    a, b = f(), f()
    c.check('as decoded', a.x == {'a': [1, {'y': 2}], 'x': 'x'} and a.y == [[], {}] and type(a.x['a'][0]) is (float if hook else int))
    c.check('nothing shared', a.x is not b.x and a.y is not b.y and a.y[0] is not b.y[0])
    c.reach('done')


@UNITS.unit(reach=('instance', 'parsed', 'refused'), weight=5)
def from_pickle(c):
    R = c.R
    frozen = c.choice('frozen', (False, True))
    A = c.record('A', {'x': object, 'y': Dflt(object, None)}, frozen=frozen)
    S_ = c.record('S', {'w': Dflt(object, 0)}, (A,), frozen=frozen)
    B_ = c.record('B', {'x': object, 'y': Dflt(object, 5), 'junk': Dflt(object, 6)}, frozen=frozen)
    x, y = c.obj('x', ('int', 'NoneType')), c.obj('y', ('int', 'NoneType'))
    what = c.choice('what', ('own', 'subclass', 'other record', 'mapping', 'mapping without x', 'number'))
    if what in ('own', 'subclass', 'other record'):
        r = {'own': A, 'subclass': S_, 'other record': B_}[what](x=x, y=y)
        data = r.to_pickle()
    else:
        data = pickle.dumps({'mapping': {'y': y, 'x': x}, 'mapping without x': {'y': y}, 'number': 3}[what])
    o = c.attempt((lambda: A.from_pickle_io(io.BytesIO(data))) if c.choice('file', (False, True)) else (lambda: A.from_pickle(data)))
    if what in ('own', 'subclass'):
        c.check('an equal record of the same class', o.ok and type(o.value) is type(r) and c.eq(o.value, r))
        c.reach('instance')
    elif what in ('mapping', 'other record'):
        c.check('parsed', o.ok and type(o.value) is A and c.And(c.eq(o.value.x, x), c.eq(o.value.y, y)))
        c.reach('parsed')
    else:
        c.check('refused', o.raised(R.record.ParseFailure))
        c.reach('refused')


@UNITS.unit(reach=('done', 'refused'), weight=4)
def custom(c):
    """user-written factories: the mapping they return becomes the keyword arguments, and stays as it is unless selected"""
    R = c.R
    A0 = []
    a = c.obj('a', T)
    given = some(c, 'g', ('x', 'y', 'q'))
    d = dict(given)
    calls = []

    def make(cls, *args, **kwargs):
        calls.append((cls, args, kwargs))
        return d
    deco = c.choice('factory', (lambda f: R.SelectableFactory(classmethod(f)), R.SelectableFactory, lambda f: R.parser(R.SelectableFactory(classmethod(f)))))
    d0, f0 = c.obj('default', T), c.obj('made', T)
    A = c.record('A', {'x': object, 'y': Dflt(object, d0), 'z': Dflt(object, R.Factory(lambda: f0))}, ns={'make': deco(make)})
    S_ = c.record('S', {'w': Dflt(object, 0)}, (A,))
    K = c.choice('class', (A, S_))
    calls.clear()
    o = c.attempt(lambda: K.make(a, 1, k=a))
    c.check('called once with the class and the arguments', len(calls) == 1 and calls[0][0] is K and len(calls[0][1]) == 2 and list(calls[0][2]) == ['k'] and c.And(c.same(calls[0][1][0], a), c.same(calls[0][2]['k'], a)))
    c.check('its mapping is as it was', list(d) == list(given) and c.And(*[c.same(d[n], v) for n, v in given.items()]))
    if 'x' not in given or 'q' in given:
        c.check('refused like the same keyword arguments', o.raised(TypeError))
        c.reach('refused')
        return
    c.check('built', o.ok and type(o.value) is K and c.And(*[c.same(getattr(o.value, n), given.get(n, {'y': d0, 'z': f0}.get(n)) if n not in given else given[n]) for n in FIELDS]))
    c.reach('done')


@UNITS.unit(reach=('used', 'fell back', 'selected'), weight=4)
def shortcuts(c):
    """a shortcut is used only without a Select, and only if it does not decline"""
    R = c.R
    SF = R.select.SelectableShortcutFactory
    kind = c.choice('outcome', ('record', 'declines', 'none'))
    ret = []

    def make(cls, v, **kw):
        return {'x': v}

    def short(cls, v, **kw):
        ret.append(v)
        return {'record': None, 'declines': NotImplemented, 'none': None}[kind] if kind != 'record' else cls(x=v, y=2)
    A = c.record('A', {'x': object, 'y': Dflt(object, 1)}, ns={'make': SF(classmethod(make)).shortcut(classmethod(short))})
    v = c.obj('v', T)
    sel = c.choice('select', ('none', 'empty', 'y'))
    f = {'none': lambda: A.make, 'empty': lambda: A.make.select(R.select.Select()), 'y': lambda: A.make.select(keys_to_add={'y': 3})}[sel]()
    o = c.attempt(lambda: f(v))
    if sel == 'y':
        c.check('not used with a Select', o.ok and not ret and o.value.y == 3 and c.same(o.value.x, v))
        c.reach('selected')
    elif kind == 'declines':
        c.check('built as usual', o.ok and len(ret) == 1 and o.value.y == 1 and c.same(o.value.x, v))
        c.reach('fell back')
    elif kind == 'record':
        c.check('the shortcut decides', o.ok and len(ret) == 1 and o.value.y == 2 and c.same(o.value.x, v))
        c.reach('used')


@UNITS.unit(reach=('built',), weight=6)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    S = shaped(c, {'x': object, 'y': Dflt(object, 7)})
    A = S.cls
    vals = {n: c.obj(n, T) for n in 'xy'}
    given = dict(vals) if c.choice('y given', (False, True)) else {'x': vals['x']}
    keep = dict(given)
    way = c.choice('way', ('mapping', 'mapping and keywords', 'select', 'object', 'object and mapping', 'own record', 'parent record', 'sub record'))
    if way == 'mapping':
        o = c.attempt(A.from_mapping, given)
    elif way == 'mapping and keywords':
        o = c.attempt(lambda: A.from_mapping({'x': 1}, given) if 0 else A.from_mapping(given, x=1))
    elif way == 'select':
        given = {'q': given.pop('x'), **given}
        keep = dict(given)
        o = c.attempt(A.from_mapping.select(keys_to_rename={'q': 'x'}), given)
    elif way == 'object':
        o = c.attempt(A.from_instance, types.SimpleNamespace(**given))
    elif way == 'object and mapping':
        o = c.attempt(A.from_instance, types.SimpleNamespace(x=1), given)
    elif way == 'own record':
        r = A(**given)
        o = c.attempt(A.from_instance, r)
        c.check('a frozen one itself, else another', (o.value is r) == S.frozen)
    elif way == 'sub record':
        r = c.record('Sub', {'more': Dflt(int, 0)}, (A,), frozen=S.frozen)(**given)
        o = c.attempt(A.from_instance, r)
        c.check('built', o.ok and isinstance(o.value, A))
    else:
        P_ = c.record('P', {'x': object, 'y': Dflt(object, 7)}, frozen=S.frozen)
        o = c.attempt(A.from_instance, P_(**given))
    c.check('built', o.ok and (type(o.value) is A or way == 'sub record'))
    got = o.value
    c.check('x', c.same(got.x, vals['x']))
    c.check('y', c.eq(got.y, vals['y'] if 'y' in keep else 7))
    c.check('the mapping is as it was', list(given) == list(keep) and c.And(*[c.same(given[n], v) for n, v in keep.items()]))
    c.reach('built')


@UNITS.unit(reach=('built', 'another'), weight=6)
def frozen_relatives(c):
    """a frozen record is taken as it is only if it is one of the class itself"""
    R = c.R
    A = c.record('A', {'x': object, 'y': Dflt(object, 7)}, frozen=True)
    S = c.record('S', {}, (A,), frozen=True)
    S2 = c.record('S2', {'z': Dflt(object, 0)}, (A,), frozen=True)
    B = c.record('B', {'x': object, 'y': Dflt(object, 7)}, frozen=True)
    M = c.record('M', {}, (A,))
    classes = {'A': A, 'S': S, 'S2': S2, 'B': B, 'M': M}
    src, dst = classes[c.choice('of', tuple(classes))], classes[c.choice('to', tuple(classes))]
    x, y = c.obj('x', T), c.obj('y', T)
    r = src(x=x, y=y)
    way = c.choice('way', ('from_instance', 'empty select', 'empty mapping', 'parse'))
    o = c.attempt({'from_instance': lambda: dst.from_instance(r), 'empty select': lambda: dst.from_instance.select(R.select.Select())(r), 'empty mapping': lambda: dst.from_instance(r, {}),
                   'parse': lambda: dst.parse(r)}[way])
    c.check('built', o.ok)
    if src is dst:
        c.check('of the class', type(o.value) is dst)
        c.check('itself if frozen', way == 'empty mapping' or (o.value is r) == (dst is not M))
    else:
        c.check('an instance of the class', isinstance(o.value, dst))
    c.check('the values', c.And(c.same(o.value.x, x), c.eq(o.value.y, y)))
    c.check('the original is as it was', type(r) is src and c.And(c.same(r.x, x), c.same(r.y, y)))
    c.reach('built' if src is dst else 'another')


@UNITS.unit(reach=('built',), weight=4)
def odd_values(c):
    """whatever the values say of themselves: first come, first taken; nothing is taken for absent"""
    R = c.R
    (_, v), (_, w) = odd(c, 'v'), odd(c, 'w', ('nan', 'never equal falsy', 'no truth value'))
    (_, d) = odd(c, 'd', ('nan', 'always equal', '== raises'))
    A = c.record('A', {'x': object, 'y': Dflt(object, None)}, frozen=c.choice('frozen', (False, True)))
    how = c.choice('how', ('mapping', 'mapping and keywords', 'two mappings', 'instance', 'instance and mapping', 'instance and keywords', 'rename', 'maybe add'))
    ns = type('O', (), {'x': v, 'y': w})()
    o = c.attempt({'mapping': lambda: A.from_mapping({'x': v, 'y': w}), 'mapping and keywords': lambda: A.from_mapping({'x': v}, y=w), 'two mappings': lambda: A.from_mapping({'x': v}, {'x': d, 'y': w}),
                   'instance': lambda: A.from_instance(ns), 'instance and mapping': lambda: A.from_instance(type('O', (), {'x': d, 'y': w})(), {'x': v}),
                   'instance and keywords': lambda: A.from_instance(type('O', (), {'x': d, 'y': w})(), x=v), 'rename': lambda: A.from_mapping.select(keys_to_rename={'X': 'x'})({'X': v, 'y': w}),
                   'maybe add': lambda: A.from_mapping.select(keys_to_maybe_add={'x': d, 'y': w})({'x': v})}[how])
    c.check('built', o.ok and type(o.value) is A)
    c.check('the very values', o.value.x is v and o.value.y is w)
    c.reach('built')
