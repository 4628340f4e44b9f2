"""C17: a Select applies removals, renames and additions exactly as specified."""
import types

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('mappings of 0..3 arbitrary distinct string keys (any strings of up to 4 characters) with arbitrary values; Selects listing up to 3 keys over the six lists, each key an arbitrary string that may coincide with any other; '
          'lists given as tuples, lists, one-shot iterators, generators, sets, views, mappings or a single string; dictionaries and other mappings; applied up to three times, truth tested or not')
OUTSIDE = 'keys that are not strings; lists that are modified by others after the Select was made; the state of a dictionary after a failed application'
LISTS = ('remove', 'maybe_remove', 'rename', 'maybe_rename', 'add', 'maybe_add')
PAIRS = ('rename', 'maybe_rename', 'add', 'maybe_add')
T = ('V0', 'NoneType')


def mk_map(c, n):
    keys = [c.string('m%d' % i, 4) for i in range(n)]
    for i in range(n):
        for j in range(i):
            c.assume(c.Not(c.eq(keys[i], keys[j])))
    return [(k, c.obj('v%d' % i, T)) for i, k in enumerate(keys)]


def mk_spec(c, shape, prefix=''):
    """shape: {list name: length} -> {list name: entries}"""
    spec = {}
    for name in LISTS:
        out = []
        for i in range(shape.get(name, 0)):
            k = c.string('%s%s%d' % (prefix, name, i), 4)
            if name in ('rename', 'maybe_rename'):
                out.append((k, c.string('%s%s%d.to' % (prefix, name, i), 4)))
            elif name in ('add', 'maybe_add'):
                out.append((k, c.obj('%s%s%d.v' % (prefix, name, i), T)))
            else:
                out.append(k)
        spec[name] = out
    return spec


def present(c, name, entries, kinds):
    """The entries in the shape of the chosen kind."""
    kind = c.choice('kind.' + name, kinds)
    if kind == 'iter':
        return iter(list(entries))
    if kind == 'gen':
        return (e for e in list(entries))
    if kind == 'list':
        return list(entries)
    if kind == 'map':
        if name in PAIRS:
            return dict(entries)
        return {e: None for e in entries}.keys()
    if kind == 'str' and len(entries) == 1 and name not in PAIRS:
        return entries[0]
    if kind == 'proxy' and name in PAIRS:
        return types.MappingProxyType(dict(entries))
    if kind == 'ordered' and name in PAIRS:
        return collections.OrderedDict(entries)
    if kind == 'zip' and name in PAIRS:
        return zip([k for k, _ in entries], [v for _, v in entries])
    return tuple(entries)


def ref(c, items, spec):
    """Reference: (items, None) or (None, exceptions allowed)"""
    items = list(items)

    def find(k):
        for i, (k2, _) in enumerate(items):
            if c.fork(c.eq(k2, k)):
                return i
    for k in spec['remove']:
        i = find(k)
        if i is None:
            return None, (KeyError,)
        del items[i]
    for k in spec['maybe_remove']:
        i = find(k)
        if i is not None:
            del items[i]
    for k, to in spec['rename']:
        i, j = find(k), find(to)
        if i is None or j is not None:
            return None, tuple(e for e, b in ((KeyError, i is None), (ValueError, j is not None)) if b)
        items[i] = (to, items[i][1])
    for k, to in spec['maybe_rename']:
        i = find(k)
        if i is None:
            continue
        if find(to) is not None:
            return None, (ValueError,)
        items[i] = (to, items[i][1])
    for k, v in spec['add']:
        if find(k) is not None:
            return None, (ValueError,)
        items.append((k, v))
    for k, v in spec['maybe_add']:
        if find(k) is None:
            items.append((k, v))
    return items, None


def same_map(c, got, items):
    got = list(got.items())
    return len(got) == len(items) and c.And(*[c.Or(*[c.And(c.eq(k, k2), c.same(v, v2)) for k2, v2 in got]) for k, v in items])


def build(c, spec, kinds=('tuple',), prefix=''):
    kw = {}
    for name in LISTS:
        if spec[name]:
            kw['keys_to_' + name] = present(c, prefix + name if prefix else name, spec[name], kinds)
    return c.R.select.Select(**kw)


def apply(c):
    items = mk_map(c, c.choice('size', c.P['sizes']))
    shape = c.choice('shape', c.P['shapes'])
    spec = mk_spec(c, shape)
    kinds = c.P.get('kinds', ('tuple',))
    if set(kinds) & {'map', 'proxy', 'ordered'}:
        for name in LISTS:
            es = [e[0] if name in PAIRS else e for e in spec[name]]
            for i in range(len(es)):
                for j in range(i):
                    c.assume(c.Not(c.eq(es[i], es[j])))
    s = build(c, spec, kinds)
    if c.choice('truth tested', c.P.get('tested', (False,))):
        c.check('truthy exactly if it lists a key', bool(s) is any(spec.values()))
    for n in range(c.P.get('times', 1)):
        exp, exc = ref(c, items, spec)
        m = dict(items)
        o = c.attempt(lambda: s(m))
        if exc:
            c.check('refused', o.raised(*exc))
            c.reach('refused')
        else:
            c.check('accepted', o.ok)
            c.check('exactly the specified mapping', same_map(c, o.value, exp))
            c.reach('applied')


def one(*names):
    return [{n: 1} for n in names]


ALL1 = one(*LISTS)
UNITS.add('each list', apply, sizes=(0, 1, 2, 3), shapes=ALL1 + [{}], tested=(False, True), times=2, reach=('refused', 'applied'), weight=4)
UNITS.add('two keys', apply, sizes=(1, 2), shapes=[{n: 2} for n in LISTS], tested=(True,), reach=('refused', 'applied'), weight=6)
PAIRSHAPES = [{a: 1, b: 1} for i, a in enumerate(LISTS) for b in LISTS[i + 1:]]
UNITS.add('two lists', apply, sizes=(2,), shapes=PAIRSHAPES, reach=('refused', 'applied'), weight=8)
UNITS.add('two lists, small', apply, sizes=(0, 1), shapes=PAIRSHAPES, reach=('refused', 'applied'), weight=6)
UNITS.add('three lists', apply, sizes=(1, 2), shapes=[dict.fromkeys(s, 1) for s in (('remove', 'rename', 'add'), ('maybe_remove', 'maybe_rename', 'maybe_add'), ('remove', 'maybe_rename', 'add'),
                                                                               ('rename', 'maybe_rename', 'maybe_add'), ('maybe_remove', 'rename', 'maybe_rename'), ('rename', 'add', 'maybe_add'))],
          reach=('refused', 'applied'), weight=12)
UNITS.add('kinds of iterables', apply, sizes=(2,), shapes=ALL1, kinds=('tuple', 'list', 'iter', 'gen', 'map', 'str', 'proxy', 'zip'), tested=(False, True), times=3, reach=('refused', 'applied'), weight=8)
UNITS.add('one-shot iterators', apply, sizes=(2,), shapes=[{n: 2} for n in LISTS], kinds=('iter', 'gen'), tested=(True, False), times=2, reach=('refused', 'applied'), weight=10)
UNITS.add('mappings of two keys', apply, sizes=(1, 2), shapes=[{n: 2} for n in PAIRS], kinds=('map', 'proxy', 'ordered'), reach=('refused', 'applied'), weight=10)
UNITS.add('all lists', apply, sizes=(1, 2), shapes=[dict.fromkeys(LISTS, 1)], tested=(True,), reach=('refused', 'applied'), weight=14)
UNITS.add('all lists, larger', apply, sizes=(3,), shapes=[dict.fromkeys(LISTS, 1)], reach=('refused', 'applied'), weight=60, tier='thorough')
UNITS.add('three keys', apply, sizes=(2, 3), shapes=[{n: 3} for n in LISTS], kinds=('tuple', 'gen'), reach=('refused', 'applied'), weight=60, tier='thorough')
UNITS.add('two lists, two keys', apply, sizes=(2, 3), shapes=[{a: 2, b: 1} for a in LISTS for b in LISTS if a != b], reach=('refused', 'applied'), weight=60, tier='thorough')


@UNITS.unit(reach=('refused', 'applied'), weight=5)
def other_mappings(c):
    """mappings that are not dictionaries: same result, and they stay as they are"""
    items = mk_map(c, 2)
    spec = mk_spec(c, c.choice('shape', ALL1 + [{'remove': 1, 'add': 1}, {'rename': 1, 'maybe_add': 1}]))
    s = build(c, spec)
    kind = c.choice('mapping', ('proxy', 'ChainMap', 'UserDict', 'OrderedDict'))
    base = dict(items)
    m = {'proxy': lambda: types.MappingProxyType(base), 'ChainMap': lambda: collections.ChainMap(base), 'UserDict': lambda: collections.UserDict(base),
         'OrderedDict': lambda: collections.OrderedDict(base)}[kind]()
    exp, exc = ref(c, items, spec)
    o = c.attempt(lambda: s(m))
    if exc:
        c.check('refused', o.raised(*exc))
        c.reach('refused')
    else:
        c.check('exactly the specified mapping', o.ok and same_map(c, o.value, exp))
        c.reach('applied')
    if kind != 'OrderedDict':
        c.check('the mapping passed in is as it was', same_map(c, m, items))


@UNITS.unit(reach=('done',), weight=2)
def empty(c):
    """a Select that lists nothing changes nothing, however its lists are given"""
    items = mk_map(c, 2)
    kw = {}
    for n in LISTS:
        k = c.choice('kind.' + n, ('absent', 'tuple', 'iter'))
        if k != 'absent':
            kw['keys_to_' + n] = () if k == 'tuple' else iter([])
    s = c.R.select.Select(**kw)
    c.check('falsy', not s)
    c.check('changes nothing', same_map(c, s(dict(items)), items) and same_map(c, c.R.select.Select.empty(dict(items)), items))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=2)
def independent(c):
    """the result depends on nothing but the mapping: applying to one mapping does not influence another; the lists are those given at creation"""
    items, spec = mk_map(c, 1), mk_spec(c, c.choice('shape', one('remove', 'maybe_remove', 'rename', 'maybe_rename', 'add', 'maybe_add')))
    lists = {n: list(es) for n, es in spec.items()}
    s = c.R.select.Select(**{'keys_to_' + n: es for n, es in lists.items() if es})
    other = [(c.string('o0', 4), c.obj('ov0', T))]
    c.attempt(lambda: s(dict(other)))
    if c.choice('failed before', (False, True)):
        c.attempt(lambda: s(None))
    exp, exc = ref(c, items, spec)
    o = c.attempt(lambda: s(dict(items)))
    if exc:
        c.check('refused', o.raised(*exc))
    else:
        c.check('exactly the specified mapping', o.ok and same_map(c, o.value, exp))
    c.reach('done')


@UNITS.unit(reach=('refused', 'applied'), weight=5)
def odd_values(c):
    """whatever the values say of themselves, they are moved, kept, dropped and added alike"""
    R = c.R
    (_, v), (_, w) = odd(c, 'v'), odd(c, 'w', ('nan', '== has no truth value', 'always equal falsy'))
    what = c.choice('what', LISTS)
    k = c.string('k', 4)
    spec = {n: [] for n in LISTS}
    spec[what] = [(k, 'to') if 'rename' in what else (k, w) if 'add' in what else k]
    items = [('a', v), ('b', None)]
    s = build(c, spec)
    exp, exc = ref(c, items, spec)
    o = c.attempt(lambda: s(dict(items)))
    if exc:
        c.check('refused', o.raised(*exc))
        c.reach('refused')
    else:
        c.check('exactly the specified mapping', o.ok and same_map(c, o.value, exp))
        c.reach('applied')


@UNITS.unit(reach=('applied', 'refused'), weight=4)
def many(c):
    """many keys and long lists: any of them missing or taken"""
    R = c.R
    N = 16
    keys = ['k%d' % k for k in range(N)]
    name = c.choice('list', LISTS)
    at = c.choice('at', tuple(range(N)) + (None,))
    m = {k: (k, 'v') for k in keys}
    m['rest'] = 0
    if name in ('remove', 'maybe_remove'):
        entries = list(keys)
    elif 'rename' in name:
        entries = [(k, 'to ' + k) for k in keys]
    else:
        entries = [('new ' + k, k) for k in keys]
    if at is not None:
        if 'add' in name:
            m['new ' + keys[at]] = 'taken'
        elif name in ('rename', 'maybe_rename') and c.choice('taken', (False, True)):
            m['to ' + keys[at]] = 'taken'
        else:
            del m[keys[at]]
    s = R.select.Select(**{'keys_to_' + name: entries if c.choice('given as', ('list', 'parts')) == 'list' else iter(entries)})
    src = dict(m)
    o = c.attempt(lambda: s(src))
    taken = [k for k in m if m[k] == 'taken']
    if name == 'remove':
        exp = None if at is not None else {'rest': 0}
    elif name == 'maybe_remove':
        exp = {'rest': 0}
    elif name == 'rename':
        exp = None if at is not None else {**{'to ' + k: (k, 'v') for k in keys}, 'rest': 0}
    elif name == 'maybe_rename':
        exp = None if taken else {**{'to ' + k: (k, 'v') for k in keys if k in m}, 'rest': 0}
    elif name == 'add':
        exp = None if taken else {**m, **dict(entries)}
    else:
        exp = {**dict(entries), **m}
    if exp is None:
        c.check('refused', o.raised((KeyError, ValueError)))
        c.reach('refused')
    else:
        c.check('applied', o.ok and dict(o.value) == exp)
        c.reach('applied')
