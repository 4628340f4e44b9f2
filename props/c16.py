"""C16: export contains exactly the fields the options select."""
import json

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('records of 1..4 fields, each required / default / factory, each with any subset of two tags, inherited or own; arbitrary values (equal to the default, identical to it, or not); every combination of '
          'include_defaults, blacklist (tag, set, frozenset), whitelist (name, set, list) and sort (off, on, -1, key function); records and foreign objects with any subset of the attributes')
OUTSIDE = 'blacklists that are neither a Tag nor a set; field values whose equality with the default is not a boolean'
T = ('V0', 'int', 'NoneType')


def declare(c, spec, frozen=False, split=None, types=T):
    """spec: list of (name, kind, tag subset); returns class, info"""
    R = c.R
    tags = {'s': R.Tag('s'), 't': R.Tag(('t', 1))}
    fields, info = {}, {}
    for name, kind, ts in spec:
        hint = annot(R, object, *[tags[t] for t in ts])
        d = fac = None
        if kind == 'def':
            d = c.obj('d.' + name, types)
            fields[name] = Dflt(hint, d)
        elif kind == 'fac':
            fac = c.obj('fac.' + name, types)
            fields[name] = Dflt(hint, R.Factory(lambda fac=fac: fac))
        else:
            fields[name] = hint
        info[name] = (kind, ts, d, fac)
    if split:
        names = list(fields)
        B = c.record('B', {n: fields[n] for n in names[:split]}, frozen=frozen)
        return c.record('A', {n: fields[n] for n in names[split:]}, (B,), frozen=frozen), info, tags
    return c.record('A', fields, frozen=frozen), info, tags


BLACK = ('none', 's', '{s}', '{t}', '{s,t}', '{other}', 'fs{s}')


def options(c, info, tags, sorts=(None,), whites=None, blacks=BLACK, prefix=''):
    R = c.R
    kw = {}
    inc = c.choice(prefix + 'include_defaults', (False, True))
    if inc or c.choice(prefix + 'say so', (False, True)):
        kw['include_defaults'] = inc
    b = c.choice(prefix + 'blacklist', blacks)
    if b != 'none':
        kw['blacklist_tags'] = {'s': R.Tag('s'), '{s}': {tags['s']}, '{t}': {R.Tag(('t', 1))}, '{s,t}': {tags['s'], tags['t']}, '{other}': {R.Tag('other')}, 'fs{s}': frozenset([tags['s']])}[b]
    black = {'none': (), 's': ('s',), '{s}': ('s',), '{t}': ('t',), '{s,t}': ('s', 't'), '{other}': (), 'fs{s}': ('s',)}[b]
    names = list(info)
    w = c.choice(prefix + 'whitelist', whites or ('none', 'str', 'set', 'list'))
    white = {'none': (), 'str': (names[-1],), 'set': (names[0], names[-1]), 'list': tuple(names[1:]), 'unknown': ('zz',)}[w]
    if w != 'none':
        kw['whitelist_keys'] = {'str': names[-1], 'set': set(white), 'list': list(white), 'unknown': ('zz',)}[w]
    s = c.choice(prefix + 'sort', sorts)
    if s is not None:
        kw['sort'] = {'on': True, 'off': False, 'rev': -1, 'key': lambda n: n[-1:] + n, 'len': len, 'tie': lambda n: 0}.get(s)
    return kw, inc, black, white, s


def order(names, s):
    if s == 'on':
        return sorted(names)
    if s == 'rev':
        return sorted(names, reverse=True)
    if s == 'key':
        return sorted(names, key=lambda n: n[-1:] + n)
    return list(names)


def expected(c, info, values, inc, black, white):
    """[(name, value)] in declaration order, deciding the comparisons with the defaults"""
    out = []
    for n, (kind, ts, d, fac) in info.items():
        if n not in white:
            if any(t in black for t in ts):
                continue
            if not inc and kind == 'def' and c.fork(c.eq(d, values[n])):
                continue
        out.append((n, values[n]))
    return out


def same_items(c, got, exp, s, label):
    names = [n for n, _ in exp]
    if s in ('len', 'tie'):   # names with equal keys may come in either order
        c.check(label + ': the selected names in order', sorted(got) == sorted(names) and (s == 'tie' or [len(n) for n in got] == sorted(len(n) for n in names)))
    else:
        c.check(label + ': the selected names in order', list(got) == order(names, s))
    c.check(label + ': each with its current value', c.And(*[c.same(got[n], v) for n, v in exp]))


def export(c):
    A, info, tags = declare(c, c.choice('spec', c.P['specs']), c.P.get('frozen', False), c.P.get('split'))
    vals = {n: c.obj('v.' + n, T) for n in info}
    r = A(**vals)
    kw, inc, black, white, s = options(c, info, tags, c.P.get('sorts', (None,)), c.P.get('whites'), c.P.get('blacks', BLACK))
    how = c.choice('how', c.P.get('hows', ('call', 'export_with', 'class', 'both')))
    if how == 'call':
        o = c.attempt(lambda: r.to_dict(**kw))
    elif how == 'export_with':
        o = c.attempt(lambda: r.to_dict.export_with(**kw)())
    elif how == 'class':
        o = c.attempt(lambda: A.to_dict.export_with(**kw)(r))
    else:
        ks = list(kw)
        o = c.attempt(lambda: r.to_dict.export_with(**{k: kw[k] for k in ks[1:]})(**{k: kw[k] for k in ks[:1]}))
    c.check('exporting works', o.ok)
    exp = expected(c, info, vals, inc, black, white)
    same_items(c, o.value, exp, s, 'export')
    c.check('the record is as it was', c.And(*[c.same(getattr(r, n), v) for n, v in vals.items()]))
    c.check('a mapping of its own', o.value is not vars(r) and o.value is not r.to_dict(**kw))
    c.reach('partial' if len(exp) < len(info) else 'all')


R1 = [[('x', 'req', ''), ('y', 'def', 's'), ('z', 'fac', 'st')], [('b', 'def', ''), ('a', 'def', 't')], [('m', 'fac', 's'), ('c', 'req', 't')]]
UNITS.add('options', export, specs=R1[:2], reach=('partial', 'all'), hows=('call', 'export_with'), weight=9)
UNITS.add('options/2', export, specs=R1[2:], reach=('partial', 'all'), hows=('class', 'both'), weight=5)
UNITS.add('sort', export, specs=[[('yc', 'req', ''), ('xb', 'def', 's'), ('za', 'fac', '')]], sorts=('on', 'off', 'rev', 'key', 'len', 'tie'), whites=('none', 'str'), blacks=('none', 's'), hows=('call', 'class'),
          reach=('partial', 'all'), weight=5)
UNITS.add('names within names', export, specs=[[('x', 'def', 's'), ('y', 'req', 's'), ('xy', 'def', 't')], [('_', 'def', ''), ('a_', 'fac', 's'), ('a', 'req', 's'), ('_a_b', 'def', 's')]],
          whites=('str', 'list'), blacks=('none', '{s,t}'), hows=('call',), reach=('partial', 'all'), weight=6)
UNITS.add('inherited', export, specs=[[('x', 'def', 's'), ('w', 'req', ''), ('a', 'def', 't')]], split=2, whites=('none', 'str', 'unknown'), blacks=('none', '{t}', '{s,t}'), hows=('call',), reach=('partial', 'all'), weight=5)
UNITS.add('frozen', export, specs=[[('x', 'req', 's'), ('y', 'def', '')]], frozen=True, whites=('none', 'set'), hows=('call', 'class'), reach=('partial', 'all'), weight=5)
UNITS.add('four fields', export, specs=[[('d', 'def', ''), ('c', 'def', 's'), ('b', 'def', 't'), ('a', 'req', 'st')]], whites=('none', 'list'), sorts=(None, 'rev'), hows=('call',), reach=('partial', 'all'), weight=9)
UNITS.add('everything', export, specs=R1 + [[('d', 'def', ''), ('c', 'fac', 's'), ('b', 'def', 't'), ('a', 'req', 'st')]], sorts=(None, 'on', 'rev', 'key'), reach=('partial', 'all'), weight=40, tier='thorough')


@UNITS.unit(reach=('missing required', 'absent', 'defaulted'), weight=8)
def foreign(c):
    """exporting any object through the class"""
    spec = c.choice('spec', ([('x', 'req', 's'), ('y', 'def', ''), ('z', 'fac', 't')], [('b', 'req', ''), ('a', 'req', 't')]))
    A, info, tags = declare(c, spec)

    class Obj:
        other = 1
    v = Obj()
    vals = {}
    for n in info:
        if c.choice('has ' + n, (True, False)):
            vals[n] = c.obj('v.' + n, T)
            setattr(v, n, vals[n])
    kw, inc, black, white, s = options(c, info, tags, (None, 'rev'), ('none', 'str'), ('none', 's', '{t}'))
    before = dict(vars(v))
    o = c.attempt(lambda: A.to_dict(v, **kw))
    exp = []
    for n, (kind, ts, d, fac) in info.items():
        if n not in white and any(t in black for t in ts):
            continue
        if n not in vals:
            if kind == 'req':
                c.check('AttributeError for a missing required attribute', o.raised(AttributeError))
                c.reach('missing required')
                return
            if inc:
                exp.append((n, d if kind == 'def' else fac))
                c.reach('defaulted')
            else:
                c.reach('absent')
            continue
        if not (n in white or inc) and kind == 'def' and c.fork(c.eq(d, vals[n])):
            continue
        exp.append((n, vals[n]))
    c.check('exporting works', o.ok)
    same_items(c, o.value, exp, s, 'export')
    c.check('the object is as it was', list(vars(v)) == list(before) and c.And(*[c.same(getattr(v, n), x) for n, x in before.items()]))


@UNITS.unit(reach=('done',), weight=3)
def foreign_kinds(c):
    """properties, class attributes, slots, dynamic attributes and records of other classes are read like any attribute"""
    R = c.R
    A = c.record('A', {'x': object, 'y': Dflt(object, 1)})
    a = c.obj('a', T)
    b = c.obj('b', ('V0',))
    kind = c.choice('kind', ('property', 'class attribute', 'slots', 'getattr', 'record', 'class', 'raising', 'instance', 'hidden', 'getattribute', 'data descriptor', 'shadowed'))
    if kind == 'property':
        v = type('P', (), {'x': property(lambda s: a), 'y': property(lambda s: b)})()
    elif kind == 'class attribute':
        v = type('P', (), {'x': a, 'y': b})()
    elif kind == 'instance':
        v = type('P', (), {})()
        vars(v).update(y=b, x=a, z=3)
    elif kind == 'hidden':
        # what the object holds under a name is not what the attribute gives
        v = type('P', (), {'x': property(lambda s: a), 'y': b})()
        vars(v).update(x=17)
    elif kind == 'data descriptor':
        class D:
            def __get__(self, obj, owner=None):
                return a if obj is v else None

            def __set__(self, obj, value):
                raise Plain('no')
        v = type('P', (), {'x': D(), 'y': b})()
        vars(v).update(x=17)
    elif kind == 'getattribute':
        v = type('P', (), {'x': 1, '__getattribute__': lambda s, n: {'x': a, 'y': b}[n] if n in ('x', 'y') else object.__getattribute__(s, n)})()
        vars(v).update(y=18)
    elif kind == 'shadowed':
        v = type('P', (), {'x': 1, 'y': 2})()
        vars(v).update(x=a, y=b)
    elif kind == 'slots':
        v = type('P', (), {'__slots__': ('x', 'y')})()
        v.x, v.y = a, b
    elif kind == 'getattr':
        v = type('P', (), {'__getattr__': lambda s, n: {'x': a, 'y': b}[n]})()
    elif kind == 'record':
        v = c.record('O', {'z': Dflt(object, 0), 'y': object, 'x': object})(x=a, y=b)
    elif kind == 'class':
        v = type('P', (), {'x': a, 'y': b})
    else:
        def boom(s):
            raise Plain('no')
        v = type('P', (), {'x': a, 'y': property(boom)})()
        c.check('other errors of attributes are not swallowed', c.attempt(lambda: A.to_dict(v)).raised(Plain))
        c.reach('done')
        return
    o = c.attempt(lambda: A.to_dict(v))
    c.check('the fields of the class, from the attributes', o.ok and list(o.value) == ['x', 'y'] and c.same(o.value['x'], a) and c.same(o.value['y'], b))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=4)
def json_and_repr(c):
    """to_json and repr take the same options and show the same fields"""
    R = c.R
    A, info, tags = declare(c, [('b', 'def', 's'), ('a', 'req', ''), ('c', 'fac', 't')], types=('int',))
    vals = {n: c.obj('v.' + n, ('int', 'NoneType', 'str')) for n in info}
    r = A(**vals)
    kw, inc, black, white, s = options(c, info, tags, (None, 'on'), ('none', 'str'), ('none', 's'))
    exp = expected(c, info, vals, inc, black, white)
    o = c.attempt(lambda: r.to_json.export_with(**kw)())
    c.check('to_json works', o.ok)
    d = c.attempt(lambda: c.decode(o.value))
    c.check('the selected names in order', d.ok and list(d.value) == order([n for n, _ in exp], s))
    c.check('with their values', c.And(*[c.eq(d.value[n], v) for n, v in exp]))
    rep = c.attempt(lambda: r.__repr__(**kw))
    c.check('repr works and names exactly these fields', rep.ok and [n for n in ('a=', 'b=', 'c=') if n in rep.value] == sorted(n + '=' for n, _ in exp))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=3)
def current_values(c):
    """exports show the current values of a mutable record, and do not influence later ones"""
    R = c.R
    A, info, tags = declare(c, [('x', 'def', 's'), ('y', 'def', '')])
    r = A()
    bound = r.to_dict
    for i in range(3):
        vals = {n: getattr(r, n) for n in info}
        kw, inc, black, white, s = options(c, info, tags, (None,), ('none',), ('none', 's'), '%d.' % i) if i != 1 else ({}, False, (), (), None)
        got = (bound if i % 2 else r.to_dict)(**kw)
        same_items(c, got, expected(c, info, vals, inc, black, white), s, 'export')
        got['x'] = got['zz'] = 0
        setattr(r, c.choice('set%d' % i, ('x', 'y')), c.obj('n%d' % i, ('V0', 'int')))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=9)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    d, f = c.obj('d', ('V0', 'int')), c.obj('f', ('V0', 'int'))
    t = R.Tag('black')
    S = shaped(c, {'x': object, 'y': Dflt(annot(R, object, t), d), 'z': Dflt(annot(R, object, R.Tag('white')), R.Factory(lambda: f))}, shapes=SAME_FIELDS)
    vals = {'x': c.obj('v.x', ('V0', 'int')), 'y': c.obj('v.y', ('V0', 'int'))}
    r = S.cls(**vals)
    vals['z'] = f
    inc, black, white = c.choice('include', (False, True)), c.choice('black', (False, True)), c.choice('white', ((), ('y',), ('z',)))
    kw = {'include_defaults': inc}
    if black:
        kw['blacklist_tags'] = t
    if white:
        kw['whitelist_keys'] = white[0]
    keep = ['x']
    if 'y' in white or (not black and (inc or not c.fork(c.eq(d, vals['y'])))):
        keep.append('y')
    keep.append('z')
    if c.choice('through', (False, True)):
        got = S.cls.to_dict.export_with(**kw)(r)
    else:
        got = r.to_dict(**kw)
    # declaration order is that of the bases, then the class
    order_ = [n for n in S.cls._fields if n in keep]
    c.check('declaration order', list(S.cls._fields) == ['x', 'y', 'z'])
    c.check('exactly those', list(got) == order_)
    c.check('with their values', c.And(*[c.same(got[n], vals[n]) for n in keep]))
    c.reach('done')


@UNITS.unit(reach=('exported',), weight=4)
def odd_values(c):
    """a field is left out because its value equals its default, for no other reason"""
    R = c.R
    kd, d = odd(c, 'd', ODD_DEFAULT)
    same = c.choice('value', ('default', 'other', 'plain'))
    v = d if same == 'default' else odd(c, 'v', ('nan', 'always equal', 'never equal falsy', 'str always equal'))[1] if same == 'other' else c.choice('plain', (None, 0, 'text'))
    eq = bool(d == v)
    c.assume(eq == bool(v == d))
    _, r = odd(c, 'r', ('== raises', '== has no truth value'))
    A = c.record('A', {'r': object, 'd': Dflt(annot(R, object, R.Tag('s')), d), 'f': Dflt(object, R.Factory(lambda: v))}, frozen=True)
    rec = A(r=r, d=v, f=v)
    opts = c.choice('options', ({}, {'include_defaults': True}, {'whitelist_keys': 'd'}, {'blacklist_tags': 's'}, {'sort': -1}))
    kw = {k: R.Tag(x) if k == 'blacklist_tags' else x for k, x in opts.items()}
    got = (rec.to_dict if c.choice('bound to', ('record', 'class')) == 'record' else lambda: A.to_dict(rec))() if not opts else rec.to_dict.export_with(**kw)()
    names = ['r'] + (['d'] if ('include_defaults' in opts or 'whitelist_keys' in opts or not eq) and 'blacklist_tags' not in opts else []) + ['f']
    if 'sort' in opts:
        names = sorted(names, reverse=True)
    c.check('the selected names in order', list(got) == names)
    c.check('the very values', all(got[n] is {'r': r, 'd': v, 'f': v}[n] for n in names))
    c.reach('exported')


@UNITS.unit(reach=('exported',), weight=4)
def many(c):
    """records of many fields: any of them at its default, tagged or listed"""
    R = c.R
    N = 24
    t, u = R.Tag('t'), R.Tag('u')
    tagged = c.choice('tagged', tuple(range(0, N, 5)) + (None,))
    at = c.choice('at default', tuple(range(N)) + (None,))
    white = c.choice('white', (None, 0, 3, N - 1))
    fields = {'f%d' % k: annot(R, object, *([t] if k == tagged else [u] if k % 4 == 0 else [])) for k in range(N)}
    fields = {n: h if k % 2 else Dflt(h, -1) for k, (n, h) in enumerate(fields.items())}
    A = c.record('A', fields)
    r = A(**{'f%d' % k: -1 if k == at else k for k in range(N)})
    kw = {'blacklist_tags': {t}}
    if white is not None:
        kw['whitelist_keys'] = 'f%d' % white
    how = c.choice('how', ('call', 'export_with', 'class'))
    o = c.attempt(lambda: r.to_dict(**kw) if how == 'call' else r.to_dict.export_with(**kw)() if how == 'export_with' else A.to_dict(r, **kw))
    exp = [('f%d' % k, -1 if k == at else k) for k in range(N) if k == white or not (k == tagged or (k == at and k % 2 == 0))]
    c.check('exactly the selected ones, in order', o.ok and list(o.value.items()) == exp)
    c.reach('exported')
