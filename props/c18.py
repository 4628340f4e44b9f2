"""C18: Selects and bound factories/exporters compose without side effects."""
import json

from .c17 import LISTS, PAIRS, mk_spec, ref, same_map
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('up to four Selects of up to two keys per list, merged in any grouping, with arbitrary string keys; factories (from_mapping, from_instance, from_json, user-written, with shortcuts) and exporters (to_dict, to_json, '
          'user-written; bound to a record or to the class) derived by up to four select/export_with steps in tree-shaped histories, every node called, before and after further derivations')
OUTSIDE = 'merging a Select with something that is not one'
T = ('V0', 'NoneType')


def mk(c, prefix, shape):
    spec = mk_spec(c, shape, prefix)
    kind = c.choice(prefix + 'kind', (list, iter) if shape else (list,))
    return c.R.select.Select(**{'keys_to_' + n: kind(es) for n, es in spec.items() if es}), spec


def lists(s):
    return {n: list(getattr(s, 'keys_to_' + n)) for n in LISTS}


def same_lists(c, s, spec):
    got = lists(s)
    out = []
    for n in LISTS:
        if len(got[n]) != len(spec[n]):
            return False
        for a, b in zip(got[n], spec[n]):
            out.append(c.And(len(a) == 2, c.same(a[0], b[0]), c.same(a[1], b[1])) if n in PAIRS else c.same(a, b))
    return c.And(*out)


def plus(*specs):
    return {n: [e for s in specs for e in s[n]] for n in LISTS}


SHAPES = [{}] + [{n: 1} for n in LISTS] + [{'remove': 2, 'rename': 1}, dict.fromkeys(LISTS, 1)]


@UNITS.unit(reach=('done',), weight=6)
def merging(c):
    a, sa = mk(c, 'a', c.choice('a.shape', SHAPES))
    b, sb = mk(c, 'b', c.choice('b.shape', SHAPES))
    tested = c.choice('truth tested', (False, True))
    if tested:
        bool(a), bool(b)
    m = a.merge(b)
    c.check('the concatenation of the operands', same_lists(c, m, plus(sa, sb)))
    c.check('truthy exactly if it lists a key', bool(m) is (any(sa.values()) or any(sb.values())))
    c.check('the operands as they were', c.And(same_lists(c, a, sa), same_lists(c, b, sb)))
    c.check('the empty Select is an identity', c.And(*[same_lists(c, x, sa) for x in (a.merge(c.R.select.Select.empty), c.R.select.Select.empty.merge(a), a.merge(c.R.select.Select()))]))
    c.check('the empty Select stays empty', not c.R.select.Select.empty and not any(lists(c.R.select.Select.empty).values()))
    c.check('the operands keep their truth', bool(a) is any(sa.values()) and bool(b) is any(sb.values()))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=6)
def associative(c):
    S3 = [{}, {'remove': 1, 'rename': 1, 'add': 1}, {'maybe_remove': 1, 'maybe_add': 1, 'maybe_rename': 1}]
    (a, sa), (b, sb), (d, sd) = [mk(c, n, c.choice(n + '.shape', S3)) for n in 'abd']
    how = c.choice('grouping', ('left', 'right', 'variadic', 'kwargs', 'mixed'))
    kw = {'keys_to_' + n: es for n, es in sd.items() if es}
    if how == 'kwargs' and not kw:
        c.assume(False)
    m = {'left': lambda: a.merge(b).merge(d), 'right': lambda: a.merge(b.merge(d)), 'variadic': lambda: a.merge(b, d),
         'kwargs': lambda: a.merge(b, **kw), 'mixed': lambda: a.merge(b, **kw) if kw else a.merge(b, c.R.select.Select.empty)}[how]()
    c.check('the concatenation of the operands', same_lists(c, m, plus(sa, sb, sd)))
    c.check('the operands as they were', c.And(same_lists(c, a, sa), same_lists(c, b, sb), same_lists(c, d, sd)))
    c.reach('done')


@UNITS.unit(reach=('applied', 'refused'), weight=6)
def effect(c):
    """a merged Select does what its lists say, phase by phase"""
    S2 = [{'remove': 1}, {'rename': 1}, {'add': 1}, {'maybe_add': 1}]
    (a, sa), (b, sb) = [mk(c, n, c.choice(n + '.shape', S2)) for n in 'ab']
    items = [(c.string('m0', 4), c.obj('v0', T))]
    m = a.merge(b)
    exp, exc = ref(c, items, plus(sa, sb))
    o = c.attempt(lambda: m(dict(items)))
    c.check('as specified', o.raised(*exc) if exc else o.ok and same_map(c, o.value, exp))
    c.reach('refused' if exc else 'applied')


# ---- bound objects: native keys, arbitrary values
def steps(c, prefix):
    """One select step: (keyword arguments, spec)"""
    k = c.choice(prefix, ('add z', 'remove x', 'rename X->x', 'maybe_add y', 'maybe_rename x->q', 'maybe_remove y'))
    v = lambda: c.obj(prefix + '.v', T)
    spec = {n: [] for n in LISTS}
    if k == 'add z':
        spec['add'] = [('z', v())]
    elif k == 'remove x':
        spec['remove'] = ['x']
    elif k == 'rename X->x':
        spec['rename'] = [('X', 'x')]
    elif k == 'maybe_add y':
        spec['maybe_add'] = [('y', v())]
    elif k == 'maybe_rename x->q':
        spec['maybe_rename'] = [('x', 'q')]
    else:
        spec['maybe_remove'] = ['y']
    kw = {'keys_to_' + n: tuple(es) for n, es in spec.items() if es}
    form = c.choice(prefix + '.form', c.P.get('forms', ('keywords', 'select')))
    S = c.R.select.Select
    return ((), kw, spec) if form == 'keywords' else ((S(**kw),), {}, spec)


NONE = {n: [] for n in LISTS}


def run_factory(c, label, f, data, spec, A, fields, call):
    exp, exc = ref(c, data, spec)
    if exc is None:
        names = [k for k, _ in exp]
        if not set(names) <= set(fields) or 'x' not in names:
            exc = (TypeError,)
    o = c.attempt(lambda: call(f))
    if exc:
        c.check(label + ': refused', o.raised(*exc))
        c.reach('refused')
        return
    c.check(label + ': built', o.ok and type(o.value) is A)
    vals = dict(exp)
    c.check(label + ': from the selected data', c.And(*[c.eq(getattr(o.value, n), vals[n]) if n in vals else getattr(o.value, n) is fields[n] for n in fields]))
    c.reach('built')


def factories(c):
    R = c.R
    fields = {'x': None, 'y': ..., 'z': int}
    kind = c.P['kind']

    def own(cls, *args, **kwargs):
        return dict(*args, **kwargs)
    ns = {}
    if kind == 'custom':
        ns['make'] = R.SelectableFactory(classmethod(own))
    elif kind == 'shortcut':
        # a user-written factory with a shortcut that is never usable
        ns['make'] = R.select.SelectableShortcutFactory(classmethod(own)).shortcut(classmethod(lambda cls, *a, **k: NotImplemented))
    A = c.record('A', {'x': object, 'y': Dflt(object, ...), 'z': Dflt(object, int)}, ns=ns)
    data = [(n, c.obj('d.' + n, ('V0',))) for n in c.choice('data', (('x',), ('X', 'y')))]
    if kind == 'instance':
        v = type('O', (), {})()
        for n, x in data:
            setattr(v, n, x)
        call = lambda f: f(v)
    elif kind == 'json':
        data = [(n, i) for i, (n, _) in enumerate(data)]
        call = lambda f: f(json.dumps(dict(data)))
    else:
        call = lambda f: f(dict(data))
    name = {'mapping': 'from_mapping', 'instance': 'from_instance', 'json': 'from_json', 'custom': 'make', 'shortcut': 'make'}[kind]
    f0 = getattr(A, name)
    nodes = [(f0, NONE, 'f0')]
    shape = c.choice('tree', c.P['trees'])
    for i, parent in enumerate(shape):
        f, spec, lbl = nodes[parent]
        if c.choice('call first %d' % i, c.P.get('first', (False,))):
            c.attempt(lambda: call(f))
        a, kw, s = steps(c, 's%d' % i)
        g = f.select(*a, **kw)
        nodes.append((g, plus(spec, s), 'f%d' % (i + 1)))
        c.check('a new bound object', g is not f)
    for f, spec, lbl in nodes + [(getattr(A, name), NONE, 'again')]:
        run_factory(c, lbl, f, data, spec, A, fields, call)


for k in ('mapping', 'json', 'custom', 'shortcut'):
    UNITS.add('factory ' + k, factories, kind=k, trees=((), (0,), (0, 0), (0, 1)), first=(False,), reach=('built', 'refused'), forms=('keywords',) if k != 'mapping' else ('keywords', 'select'), weight=8)
UNITS.add('factory trees', factories, kind='mapping', trees=((0, 0, 1), (0, 1, 1)), first=(False, True), forms=('keywords',), reach=('built', 'refused'), weight=20, tier='thorough')
UNITS.add('factory chains', factories, kind='custom', trees=((0, 1, 2),), first=(False,), reach=('built', 'refused'), weight=20, tier='thorough')


@UNITS.unit(reach=('done',), weight=4)
def instance_factory(c):
    """from_instance, whose Select is also used to find the attributes"""
    A = c.record('A', {'x': object, 'y': Dflt(object, ...)})
    a, b, e = (c.obj(n, ('V0',)) for n in ('a', 'b', 'e'))
    v = type('O', (), {})()
    v.x, v.y, v.X, v.junk = a, b, e, 1
    f0 = A.from_instance
    ren = f0.select(keys_to_remove='y')
    ren2 = ren.select(keys_to_add={'y': e})
    over = f0.select(keys_to_maybe_add={'x': e, 'y': e})
    w = type('O', (), {})()
    w.X = e
    alias = f0.select(keys_to_rename=[('X', 'x')])
    maybe = f0.select(keys_to_maybe_rename={'X': 'x'})
    add = f0.select(keys_to_add={'x': a})
    order = c.choice('order', (0, 1))

    def is_(o, x, y):
        return o.ok and type(o.value) is A and c.And(c.same(o.value.x, x), c.same(o.value.y, y))
    tests = [(f0, v, a, b), (ren, v, a, ...), (ren2, v, a, e), (over, v, a, b), (alias, w, e, ...), (maybe, w, e, ...), (maybe, type('O', (), {'x': a})(), a, ...), (add, w, a, ...), (over, w, e, e)]
    for n, (f, o, x, y) in enumerate(tests if order == 0 else tests[::-1]):
        c.check('bound factory %d of order %d' % (n, order), is_(c.attempt(lambda: f(o)), x, y))
    c.check('the original needs the attribute', c.attempt(lambda: f0(w)).raised(AttributeError))
    c.check('the object is as it was', list(vars(v)) == ['x', 'y', 'X', 'junk'] and c.And(c.same(v.x, a), c.same(v.y, b), c.same(v.X, e)) and list(vars(w)) == ['X'])
    c.reach('done')


# ---- exporters
OPTS = {'none': {}, 'defaults': {'include_defaults': True}, 'sort': {'sort': True}, 'unsort': {'sort': False}, 'black': {'blacklist_tags': 's'}, 'white': {'whitelist_keys': 'y'}, 'positional': (True,),
        'two': {'include_defaults': True, 'sort': True}, 'three': {'include_defaults': True, 'sort': True, 'whitelist_keys': 'y'}}


def exp_items(c, vals, opts, tags):
    out = []
    for n, v in vals.items():
        if not (n == 'y' and opts.get('whitelist_keys') == 'y'):
            if n == 'w' and opts.get('blacklist_tags') is not None:
                continue
            if n == 'y' and not opts.get('include_defaults') and c.fork(c.same(v, None)):
                continue
        out.append((n, v))
    if opts.get('sort'):
        out.sort(key=lambda t: t[0])
    return out


def exporters(c):
    R = c.R
    kind = c.P['kind']
    S = R.select.Select

    def own(m, *a, **k):
        return dict(m, tail=(a, tuple(k)))
    tag = R.Tag('s')
    ns = {'export': R.select.Exporter(staticmethod(own))} if kind == 'custom' else {}
    A = c.record('A', {'x': object, 'w': annot(R, object, tag), 'y': Dflt(object, None)}, ns=ns)
    T2 = ('int', 'NoneType') if kind == 'json' else T
    vals = {'x': c.obj('x', T2), 'w': c.obj('w', T2), 'y': c.obj('y', T2)}
    r = A(**vals)
    on_class = c.choice('bound to the class', (False, True))
    e0 = getattr(A if on_class else r, {'dict': 'to_dict', 'json': 'to_json', 'custom': 'export'}[kind])
    pre = (r,) if on_class else ()
    nodes = [(e0, NONE, {}, 'e0')]
    for i, (parent, what) in enumerate(c.choice('tree', c.P['trees'])):
        e, spec, opts, _ = nodes[parent]
        if what == 'select':
            k = c.choice('s%d' % i, c.P.get('steps', ('add', 'remove', 'rename', 'maybe')))
            s = {'add': {'add': [('z%d' % i, c.obj('z%d' % i, T2))]}, 'remove': {'remove': ['x']}, 'rename': {'rename': [('x', 'X')]},
                 'maybe': {'maybe_remove': ['y'], 'maybe_rename': [('q', 'p')]}}[k]
            kw = {'keys_to_' + n: es for n, es in s.items()}
            e2 = e.select(**kw) if c.choice('f%d' % i, (0, 1)) else e.select(S(**kw))
            nodes.append((e2, plus(spec, dict(NONE, **s)), opts, 'e%d' % (i + 1)))
        else:
            o = c.choice('o%d' % i, c.P.get('opts', ('defaults', 'sort', 'black', 'white')))
            if o == 'positional':
                e2, new = e.export_with(True), {'include_defaults': True}
            else:
                new = dict(OPTS[o])
                e2 = e.export_with(**{k: (tag if k == 'blacklist_tags' else v) for k, v in new.items()})
            nodes.append((e2, spec, {**opts, **new}, 'e%d' % (i + 1)))
        c.check('a new bound object', e2 is not e)
    again = getattr(A if on_class else r, {'dict': 'to_dict', 'json': 'to_json', 'custom': 'export'}[kind])
    for e, spec, opts, lbl in nodes + [(again, NONE, {}, 'again'), nodes[-1][:3] + ('twice',)]:
        items, exc = ref(c, exp_items(c, vals, opts, tag), spec)
        o = c.attempt(lambda: e(*pre))
        if exc:
            c.check(lbl + ': refused', o.raised(*exc))
            c.reach('refused')
            continue
        c.check(lbl + ': exports', o.ok)
        if kind == 'json':
            got = c.decode(o.value)
            c.check(lbl + ': the selected fields', len(got) == len(items) and c.And(*[n in got and c.eq(got[n], v) for n, v in items]))
        else:
            got = dict(o.value)
            if kind == 'custom':
                c.check(lbl + ': no arguments', got.pop('tail') == ((), ()))
            c.check(lbl + ': the selected fields', same_map(c, got, items))
            if not spec['rename']:
                c.check(lbl + ': in order', list(got) == [n for n, _ in items])
    c.check('the record is as it was', c.And(*[c.same(getattr(r, n), v) for n, v in vals.items()]))
    c.reach('done')


SEL, EXP = 'select', 'export'
UNITS.add('exporter dict', exporters, kind='dict', trees=([(0, SEL)], [(0, EXP)], [(0, SEL), (1, EXP)], [(0, EXP), (0, SEL)]), reach=('done',), steps=('add', 'remove', 'rename', 'maybe'), weight=10)
UNITS.add('exporter options', exporters, kind='dict', trees=([(0, EXP), (1, EXP)], [(0, EXP), (0, EXP)]), opts=('defaults', 'sort', 'unsort', 'black', 'white'), reach=('done',), weight=10)
UNITS.add('exporter several options', exporters, kind='dict', trees=([(0, EXP), (1, EXP)], [(0, EXP), (1, EXP), (1, EXP)]), opts=('two', 'three', 'unsort', 'black'), reach=('done',), weight=10)
UNITS.add('exporter positional', exporters, kind='dict', trees=([(0, EXP)], [(0, SEL), (1, EXP)]), opts=('positional',), reach=('done',), weight=4)
UNITS.add('exporter selects', exporters, kind='dict', trees=([(0, SEL), (1, SEL)], [(0, SEL), (0, SEL)]), reach=('done', 'refused'), weight=10)
UNITS.add('exporter json', exporters, kind='json', trees=([(0, SEL), (1, EXP)], [(0, EXP), (1, SEL)]), steps=('add', 'rename'), opts=('defaults', 'sort'), reach=('done',), weight=10)
UNITS.add('exporter custom', exporters, kind='custom', trees=([(0, SEL), (1, EXP)], [(0, EXP), (0, SEL)]), steps=('add', 'remove'), opts=('defaults', 'black'), reach=('done',), weight=10)
UNITS.add('exporter trees', exporters, kind='dict', trees=([(0, SEL), (1, EXP), (1, SEL)], [(0, EXP), (1, SEL), (1, EXP)], [(0, SEL), (0, EXP), (2, SEL)]), reach=('done', 'refused'), weight=40, tier='thorough')


@UNITS.unit(reach=('done',), weight=3)
def caller_objects(c):
    """the Selects and option objects the caller holds stay as they are, and what is returned may be modified freely"""
    R = c.R
    A = c.record('A', {'x': object, 'y': Dflt(object, None)})
    v = c.obj('v', T)
    r = A(x=v, y=1)
    add = {'z': c.obj('z', T)}
    opts = {'include_defaults': True, 'whitelist_keys': {'x'}}
    s = R.select.Select(keys_to_add=add)
    e = r.to_dict.export_with(**opts).select(s)
    first = e()
    first['x'] = first['more'] = 0
    first.pop('z')
    c.check('the next export is unaffected', same_map(c, e(), [('x', v), ('y', 1), ('z', add['z'])]))
    c.check('the Select and the options are as they were', same_lists(c, s, dict(NONE, add=[('z', add['z'])])) and list(add) == ['z'] and opts == {'include_defaults': True, 'whitelist_keys': {'x'}})
    f = A.from_mapping.select(s, keys_to_remove=['z'])
    c.check('its own factory', c.attempt(lambda: f({'x': v, 'z': 1})).raised(TypeError))
    c.check('the Select is as it was', same_lists(c, s, dict(NONE, add=[('z', add['z'])])))
    c.check('other records too', same_map(c, A(x=1).to_dict(), [('x', 1)]) and same_map(c, A.to_dict(r), [('x', v), ('y', 1)]))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=3)
def other_classes(c):
    """bound objects belong to one class: parents, subclasses and other classes go on as before"""
    R = c.R
    P_ = c.record('P', {'x': object})
    A = c.record('A', {'y': Dflt(object, None)}, (P_,))
    B_ = c.record('B', {'x': object})
    x, y = c.obj('x', T), c.obj('y', T)
    f = A.from_mapping.select(keys_to_add={'y': y})
    p = P_.from_mapping.select(keys_to_rename={'q': 'x'})
    c.check('the subclass', c.And(type(f({'x': x})) is A, c.same(f({'x': x}).y, y), c.same(f({'x': x}).x, x)))
    c.check('the parent', type(p({'q': x})) is P_ and c.same(p({'q': x}).x, x) and P_.from_mapping({'x': x}) is not None and c.attempt(lambda: P_.from_mapping({'q': x})).raised(TypeError))
    c.check('the parent does not know the field', c.attempt(lambda: P_.from_mapping({'x': x, 'y': y})).raised(TypeError))
    c.check('the class itself', A.from_mapping({'x': x}).y is None and c.attempt(lambda: A.from_mapping({'q': x})).raised(TypeError))
    c.check('another class', type(B_.from_mapping({'x': x})) is B_ and c.attempt(lambda: B_.from_mapping({'q': x})).raised(TypeError))
    a = A(x=x, y=y)
    e = P_.to_dict.select(keys_to_add={'k': 1})
    c.check('exporting through the parent', same_map(c, e(a), [('x', x), ('k', 1)]) and 'k' not in a.to_dict() and same_map(c, P_.to_dict(a), [('x', x)]))
    c.reach('done')


@UNITS.unit(reach=('built', 'refused', 'done'), weight=8)
def shapes(c):
    """factories and exporters of classes of every shape"""
    R = c.R
    fields = {'x': object, 'y': Dflt(object, None)}
    sh = shaped(c, fields, ns={'export': R.select.Exporter(staticmethod(lambda m: list(m.items()))), 'make': R.SelectableFactory(classmethod(lambda cls, d: dict(d)))}, unary_parse=False)
    A = sh.cls
    x, y, z = c.obj('x', T), c.obj('y', ('V0',)), c.obj('z', T)
    which = c.choice('factory', ('from_mapping', 'make'))
    f0 = getattr(A, which)
    f1 = f0.select(keys_to_rename=[('X', 'x')])
    f2 = f1.select(keys_to_maybe_add={'y': y})
    f3 = f1.select(keys_to_remove='junk')
    same = lambda o, vx, vy: o.ok and type(o.value) is A and c.And(c.same(o.value.x, vx), c.same(o.value.y, vy))
    for n in range(2):
        c.check('itself', same(c.attempt(lambda: f0({'x': x})), x, None))
        c.check('renamed', same(c.attempt(lambda: f1({'X': x, 'y': z})), x, z))
        c.check('and added', same(c.attempt(lambda: f2({'X': x})), x, y) and same(c.attempt(lambda: f2({'X': x, 'y': z})), x, z))
        c.check('and removed', same(c.attempt(lambda: f3({'X': x, 'junk': 1})), x, None))
        c.reach('built')
        for f, d in ((f0, {'X': x}), (f1, {'x': x}), (f3, {'X': x})):
            c.check('refused', c.attempt(lambda: f(d)).raised())
        c.reach('refused')
    r = A(x=x, y=y)
    strip = lambda m: {k: v for k, v in dict(m).items() if k not in sh.extra}
    for name in ('to_dict', 'export'):
        e0 = getattr(r, name)
        e1 = e0.select(keys_to_rename=[('x', 'X')])
        e2 = e1.export_with(include_defaults=True)
        e3 = e1.export_with(whitelist_keys=sh.extra)
        for n in range(2):
            c.check(name, same_map(c, strip(e0()), [('x', x), ('y', y)]))
            c.check(name + ' renamed', same_map(c, strip(e1()), [('X', x), ('y', y)]))
            d = dict(e2())
            extra = [d.pop(k, None) for k in sh.extra]
            c.check(name + ' with defaults', same_map(c, d, [('X', x), ('y', y)]) and not any(extra))
            d = dict(e3())
            c.check(name + ' with lists', same_map(c, strip(d), [('X', x), ('y', y)]) and all(k in d for k in sh.extra))
    c.reach('done')
