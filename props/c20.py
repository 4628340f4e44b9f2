"""C20: copies and serialised forms reproduce an equal record."""
import copy
import io
import json
import pickle
from fractions import Fraction

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('classes of 1..4 fields (required, default, factory; hollow, checked, clamped, nested records and containers), mutable, frozen and ordered, inherited or not, with an idempotent post_new; arbitrary values, also equal or identical '
          'to the default and shared between fields; dict, JSON (text and file), pickle (all protocols, text and file, another process), repr, copy, deepcopy, each applied up to twice and in combination; deepcopies of structures holding the '
          'record more than once')
OUTSIDE = 'fields whose filling changes values that were stored; values that contain the record itself (cycles); fields named cls; pickling classes that cannot be imported'
V = ('V0', 'V1', 'int', 'NoneType', 'str')
PLAIN = ('int', 'str', 'NoneType', 'bool')


def klass(c, kinds, frozen, inherit=False, types=V, **kw):
    """fields f0, f1... of the given kinds; returns class and the defaults"""
    R = c.R
    fields, dfl = {}, {}
    for i, k in enumerate(kinds):
        n = 'f%d' % i
        if k == 'def':
            dfl[n] = c.obj('d.' + n, types)
            fields[n] = Dflt(object, dfl[n])
        elif k == 'fac':
            fields[n] = Dflt(annot(R, object), R.Factory(list))
        elif k == 'tag':
            dfl[n] = c.obj('d.' + n, types)
            fields[n] = Dflt(annot(R, object, R.Tag('s'), R.exclude_from_ordering), dfl[n])
        else:
            fields[n] = object
    if inherit:
        names = list(fields)
        P_ = c.record('P', {n: fields[n] for n in names[:1]}, frozen=frozen and inherit != 'mixed')
        return c.record('A', {n: fields[n] for n in names[1:]}, (P_,), frozen=frozen, **kw), list(fields)
    return c.record('A', fields, frozen=frozen, **kw), list(fields)


def routes(c, A, r, names):
    """the ways to rebuild: name -> (function, keeps the values themselves)"""
    return {
        'dict': (lambda: A.from_mapping(r.to_dict()), None),
        'full dict': (lambda: A.from_mapping(r.to_dict(include_defaults=True)), True),
        'keywords': (lambda: A(**r.to_dict(sort=True)), None),
        'instance': (lambda: A.from_instance(r), None),
        'kwargs': (lambda: A.from_mapping({}, **r.to_dict.export_with(include_defaults=True)()), True),
        'copy': (lambda: copy.copy(r), True),
        'deepcopy': (lambda: copy.deepcopy(r), False),
        'pickle': (lambda: A.from_pickle(r.to_pickle()), False),
        'pickle file': (lambda: A.from_pickle_io(through(lambda f: r.to_pickle(io=f))), False),
        'pickle.dumps': (lambda: pickle.loads(pickle.dumps(r, c.choice('protocol', range(6)))), False),
        'repr': (lambda: c.rebuild(repr(r), {'A': A, 'Fraction': Fraction}), False),
        'repr full': (lambda: c.rebuild(r.__repr__(include_defaults=True, sort=-1), {'A': A, 'Fraction': Fraction}), False),
        'copy method': (lambda: r.__copy__(), True),
        'deepcopy method': (lambda: r.__deepcopy__(), False),
        'json': (lambda: A.from_json(r.to_json()), False),
        'json file': (lambda: A.from_json_io(io.StringIO(textio(lambda f: r.to_json(io=f)))), False),
        'json full': (lambda: A.from_json(r.to_json.export_with(include_defaults=True, sort=True)()), False),
    }


def through(write):
    f = io.BytesIO()
    write(f)
    f.seek(0)
    return f


def textio(write):
    f = io.StringIO()
    write(f)
    return f.getvalue()


def verdict(c, label, o, A, r, names, vals, way, frozen, keeps):
    c.check(label + ': works', o.ok)
    n = o.value
    c.check(label + ': the same class', type(n) is A)
    c.check(label + ': equal fields', c.And(*[c.eq(getattr(n, f), v) for f, v in zip(names, vals)]))
    c.check(label + ': an equal record', c.eq(n, r))
    if not frozen:
        c.check(label + ': a record of its own', n is not r)
    if keeps:
        c.check(label + ': the very values', c.And(*[c.same(getattr(n, f), v) for f, v in zip(names, vals)]))
    c.check(label + ': the original is as it was', c.And(*[c.same(getattr(r, f), v) for f, v in zip(names, vals)]))


def rebuild(c):
    frozen = c.choice('frozen', c.P.get('frozens', (False, True)))
    types = c.P.get('types', V)
    A, names = klass(c, c.choice('fields', c.P['kinds']), frozen, c.P.get('inherit', False), types, **c.P.get('kw', {}))
    vals = [c.obj('v.' + n, types) for n in names]
    if c.P.get('shared') and len(vals) > 1 and c.choice('shared', (False, True)):
        vals[-1] = vals[0]
    r = A(**dict(zip(names, vals)))
    if frozen and c.choice('hashed', c.P.get('hashed', (False,))):
        c.attempt(lambda: hash(r))
    way = c.choice('way', c.P['ways'])
    fn, keeps = routes(c, A, r, names)[way]
    o = c.attempt(fn)
    verdict(c, way, o, A, r, names, vals, way, frozen, keeps)
    if c.P.get('twice'):
        r2 = o.value
        way2 = c.choice('way2', c.P['ways2'])
        o2 = c.attempt(lambda: routes(c, A, r2, names)[way2][0]())
        verdict(c, way + ' ' + way2, o2, A, r2, names, [getattr(r2, n) for n in names], way2, frozen, None)
        c.check('still equal to the first', c.eq(o2.value, r))
    c.reach('done')


KINDS = [['req', 'def'], ['def'], ['req'], ['def', 'fac', 'tag']]
UNITS.add('mappings', rebuild, kinds=KINDS, ways=('dict', 'full dict', 'keywords', 'instance', 'kwargs'), reach=('done',), weight=6)
UNITS.add('copy', rebuild, kinds=KINDS, ways=('copy', 'copy method', 'deepcopy', 'deepcopy method'), hashed=(False, True), shared=True, types=('V0', 'int', 'NoneType'), reach=('done',), weight=8)
UNITS.add('pickle', rebuild, kinds=KINDS[:2], ways=('pickle', 'pickle file', 'pickle.dumps'), reach=('done',), hashed=(False, True), types=('V0', 'int', 'NoneType'), weight=6)
UNITS.add('repr', rebuild, kinds=KINDS, ways=('repr', 'repr full'), reach=('done',), weight=5)
UNITS.add('json', rebuild, kinds=KINDS, ways=('json', 'json file', 'json full'), types=PLAIN, reach=('done',), weight=5)
UNITS.add('inherited', rebuild, kinds=[['req', 'def', 'req'], ['def', 'def']], inherit=True, ways=('dict', 'copy', 'deepcopy', 'pickle', 'repr'), types=('V0', 'NoneType'), reach=('done',), weight=6)
UNITS.add('mixed frozenness', rebuild, kinds=[['def', 'req']], inherit='mixed', frozens=(True,), ways=('dict', 'copy', 'deepcopy', 'pickle', 'instance'), types=('V0', 'NoneType'), reach=('done',), weight=4)
UNITS.add('class options', rebuild, kinds=[['req'], ['tag', 'req']], kw={'unary_parse': True, 'ordered': True}, ways=('dict', 'copy', 'deepcopy', 'pickle', 'repr', 'instance'), types=('V0', 'int'), reach=('done',), weight=5)
UNITS.add('twice', rebuild, kinds=[['def', 'req']], types=('V0', 'int'), ways=('dict', 'copy', 'deepcopy', 'pickle', 'repr'), ways2=('copy', 'deepcopy', 'pickle', 'instance'), twice=True, reach=('done',), weight=8)
UNITS.add('everything', rebuild, kinds=KINDS + [['def', 'tag', 'req', 'def']], ways=('dict', 'full dict', 'keywords', 'instance', 'kwargs', 'copy', 'deepcopy', 'pickle', 'pickle.dumps', 'repr', 'repr full'), hashed=(False, True), shared=True,
          reach=('done',), weight=60, tier='thorough')


def deep_values(c, kind, tag=''):
    """A value with mutable parts: (value, list of mutable parts)"""
    if kind == 'list':
        x = [c.obj(tag + 'e0', ('V0',)), [c.obj(tag + 'e1', ('int',))]]
        return x, [x, x[1], x[0]]
    if kind == 'dict':
        x = {'a': c.obj(tag + 'e0', ('V0',)), 'b': {'c': []}}
        return x, [x, x['b'], x['b']['c'], x['a']]
    if kind == 'tuple':
        x = (c.obj(tag + 'e0', ('V0',)), [])
        return x, [x[0], x[1]]
    x = c.obj(tag + 'e0', ('V0',))
    return x, [x]


def parts_of(kind, x):
    if kind == 'list':
        return [x, x[1], x[0]]
    if kind == 'dict':
        return [x, x['b'], x['b']['c'], x['a']]
    if kind == 'tuple':
        return [x[0], x[1]]
    return [x]


@UNITS.unit(reach=('done',), weight=4)
def deep_independence(c):
    """deepcopy shares no mutable value; copy shares the very values"""
    frozen = c.choice('frozen', (False, True))
    kx, ky = c.choice('x', ('list', 'dict', 'tuple', 'obj')), c.choice('y', ('list', 'obj', 'same'))
    x, px = deep_values(c, kx)
    y, py = (x, px) if ky == 'same' else deep_values(c, ky, 'y')
    # mutable defaults are values like any others
    default = c.choice('y is', ('given', 'the default', 'given the default'))
    A = c.record('A', {'x': object, 'y': Dflt(object, None if default == 'given' else y)}, frozen=frozen)
    r = A(x=x) if default == 'the default' else A(x=x, y=y)
    if frozen:
        c.attempt(lambda: hash(r))
    s = copy.copy(r)
    c.check('copy shares the values', s.x is x and s.y is y or c.And(c.same(s.x, x), c.same(s.y, y)))
    d = copy.deepcopy(r)
    new = parts_of(kx, d.x) + parts_of(kx if ky == 'same' else ky, d.y)
    c.check('deepcopy shares nothing mutable', c.And(*[c.Not(c.same(a, b)) for a in px + py for b in new]))
    c.check('deepcopy is equal', type(d) is A and d is not r and c.eq(d.x, x) and c.eq(d.y, y))
    if ky == 'same':
        c.check('what was shared still is', c.same(d.x, d.y) if kx == 'obj' else d.x is d.y)
    c.check('the original is as it was', c.And(c.same(r.x, x), c.same(r.y, y)))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=5)
def deep_structures(c):
    """records inside the structure that is copied: sharing is kept"""
    frozen = c.choice('frozen', (False, True))
    A = c.record('A', {'x': object, 'y': Dflt(object, None)}, frozen=frozen)
    B_ = c.record('B', {'a': object, 'b': Dflt(object, 0)}, frozen=c.choice('outer frozen', (False, True)))
    lst = [c.obj('e', ('V0',))]
    v = c.obj('v', ('V0', 'NoneType'))
    r = A(x=lst, y=v)
    shape = c.choice('shape', ('[r, r]', '[lst, r]', '[r, lst]', 'B(r, r)', 'B(r, lst)', 'B([r], {k: r})', '(r, v)', '{r: r}', '[A, A sharing]'))
    copier = c.choice('copier', (copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))))
    if shape == '[A, A sharing]':
        q = A(x=lst, y=r)
        n, m = copier([r, q])
        c.check('copies', type(n) is A and type(m) is A and n is not r and m is not q)
        c.check('sharing kept', n.x is m.x and m.y is n and n.x is not lst)
        c.check('equal', c.And(c.eq(n.x[0], lst[0]), c.eq(n.y, v)))
    elif shape == '{r: r}':
        n, = copier({'k': r}).values()
        c.check('equal', type(n) is A and c.And(c.eq(n.x[0], lst[0]), c.eq(n.y, v)) and n.x is not lst)
    elif shape == '(r, v)':
        n, w = copier((r, v))
        c.check('sharing kept', c.same(n.y, w))
        c.check('equal', n.x is not lst and c.And(c.eq(n.x[0], lst[0]), c.eq(w, v)))
    else:
        val = {'[r, r]': lambda: [r, r], '[lst, r]': lambda: [lst, r], '[r, lst]': lambda: [r, lst], 'B(r, r)': lambda: B_(a=r, b=r), 'B(r, lst)': lambda: B_(a=r, b=lst), 'B([r], {k: r})': lambda: B_(a=[r], b={'k': r})}[shape]()
        n = copier(val)
        if shape[0] == 'B':
            c.check('the outer record', type(n) is B_ and n is not val)
            p, q = n.a, n.b
            if shape == 'B([r], {k: r})':
                p, q = p[0], q['k']
        else:
            p, q = n
        if 'lst' in shape:
            if shape[1] == 'l':
                p, q = q, p
            c.check('sharing kept', p.x is q)
        else:
            c.check('sharing kept', p is q)
        c.check('a copy', type(p) is A and p is not r and p.x is not lst and c.And(c.Not(c.same(p.x[0], lst[0])), c.eq(p.x[0], lst[0]), c.eq(p.y, v)))
    c.check('the original is as it was', r.x is lst and len(lst) == 1 and c.same(r.y, v))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=4)
def independent_copies(c):
    """after copying, assigning one record leaves the other alone"""
    A = c.record('A', {'x': object, 'y': Dflt(object, None)})
    x, y, w = c.obj('x', ('V0',)), c.obj('y', ('V0', 'NoneType')), c.obj('w', ('V0',))
    r = A(x=x, y=y)
    way = c.choice('way', ('copy', 'deepcopy', 'pickle', 'dict', 'instance', 'kwargs', 'repr'))
    n = routes(c, A, r, ['x', 'y'])[way][0]()
    nx, ny = n.x, n.y
    if c.choice('assigned', ('copy', 'original')) == 'copy':
        n.x = w
        c.check('the original is as it was', c.And(c.same(r.x, x), c.same(r.y, y)))
    else:
        r.y = w
        c.check('the copy is as it was', c.And(c.same(n.x, nx), c.same(n.y, ny), c.eq(ny, y)))
    again = A(x=x)
    c.check('new records have the default', again.y is None)
    c.reach('done')


@UNITS.unit(reach=('done',), weight=6)
def typed(c):
    """fields with checks, idempotent validators and coercers, containers and nested records"""
    R = c.R
    frozen = c.choice('frozen', (False, True))
    I_ = c.record('I', {'v': annot(R, int, R.check)}, frozen=frozen)
    A = c.record('A', {'n': annot(R, int, R.check, R.Clamp(0, 10)), 'l': Dflt(annot(R, List[annot(R, int, R.check)], R.check), R.Factory(list)), 's': Dflt(annot(R, Optional[annot(R, str, R.check)], R.check), None),
                       'i': Dflt(annot(R, object), None)}, frozen=frozen)
    n = c.int('n', -20, 20)
    l = [c.obj('l0', ('int', 'bool'))]
    s = c.obj('s', ('str', 'NoneType'))
    i = c.choice('nested', (None, 'record'))
    r = A(n=n, l=l, s=s, i=I_(v=3) if i else None)
    way = c.choice('way', ('dict', 'full dict', 'instance', 'copy', 'deepcopy', 'pickle', 'repr', 'json'))
    if way == 'json' and i:
        c.assume(False)
    o = c.attempt(lambda: c.rebuild(repr(r), {'A': A, 'I': I_}) if way == 'repr' else routes(c, A, r, ())[way][0]())
    c.check('works', o.ok)
    m = o.value
    c.check('equal', type(m) is A and c.And(c.eq(m.n, r.n), len(m.l) == 1 and c.eq(m.l[0], l[0]), c.eq(m.s, s), c.eq(m.i, r.i) if i else m.i is None))
    if way in ('copy', 'full dict'):
        c.check('the very values', m.l is l and c.same(m.s, s) and m.i is r.i)
    if way in ('deepcopy', 'pickle'):
        c.check('values of its own', m.l is not l and (not i or m.i is not r.i))
    c.reach('done')


@UNITS.unit(reach=('done',), weight=3)
def hooks(c):
    """post_new runs for copies too; parsers are not consulted"""
    R = c.R
    log = []

    def post_new(self):
        log.append(self)

    @R.parser
    def hungry(v):
        log.append('parsed')
        return None
    frozen = c.choice('frozen', (False, True))
    A = c.record('A', {'x': object, 'y': Dflt(object, None)}, ns={'post_new': post_new, 'hungry': staticmethod(hungry)}, frozen=frozen, unary_parse=c.choice('unary', (None, True, False)))
    x, y = c.obj('x', ('V0', 'int')), c.obj('y', ('V0', 'NoneType'))
    r = A(x=x, y=y)
    way = c.choice('way', ('copy', 'deepcopy', 'pickle', 'dict', 'repr'))
    o = c.attempt(lambda: routes(c, A, r, ('x', 'y'))[way][0]())
    verdict(c, way, o, A, r, ('x', 'y'), (x, y), way, frozen, None)
    c.check('no parser ran', 'parsed' not in log)
    c.reach('done')


@UNITS.unit(reach=('done',), weight=4)
def other_process(c):
    """pickles made before the hash seed changed; hashes computed or not"""
    frozen = c.choice('frozen', (False, True))
    A = c.record('A', {'x': object, 'y': Dflt(object, None)}, frozen=frozen)
    x, y = c.obj('x', ('V0', 'NoneType')), c.obj('y', ('V0', 'NoneType'))
    r = A(x=x, y=y)
    if frozen and c.choice('hashed', (False, True)):
        hash(r)
    data = r.to_pickle()
    c.new_process()
    n = A.from_pickle(data)
    f = A(x=n.x, y=n.y)
    c.check('equal to a record built there', type(n) is A and c.And(c.eq(n, f), c.eq(f, n), c.eq(n.x, x), c.eq(n.y, y)))
    if frozen:
        c.check('with its hash', c.eq(c.hash(n), c.hash(f)))
    c.reach('done')


def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    d = c.obj('d', ('V0', 'int'))
    S = shaped(c, {'x': object, 'y': Dflt(object, d), 'z': Dflt(annot(R, object, R.Tag('s')), R.Factory(list))})
    names = ['x', 'y', 'z']
    vals = [c.obj('v.' + n, ('V0', 'int')) for n in names]
    r = S.cls(**dict(zip(names, vals)))
    way = c.choice('way', c.P['ways'])
    if way == 'json':
        vals = [c.int('i.' + n) for n in names]
        r = S.cls(**dict(zip(names, vals)))
    if S.frozen and c.choice('hashed', (False, True)):
        c.hash(r)
    fn, keeps = routes(c, S.cls, r, names)[way]
    verdict(c, way, c.attempt(fn), S.cls, r, names, vals, way, S.frozen, keeps)
    c.reach('done')


for i, ways in enumerate((('dict', 'instance'), ('copy', 'full dict', 'json'), ('deepcopy', 'repr'), ('pickle',))):
    UNITS.add('shapes/%d' % i, shapes, ways=ways, reach=('done',), weight=12)
UNITS.add('shapes/protocols', shapes, ways=('pickle.dumps',), reach=('done',), weight=30, tier='thorough')


def texts(c):
    """values of any text; also next to each other"""
    R = c.R
    A = c.record('A', {'x': object, 'y': Dflt(object, 'd{}'), 'z': Dflt(object, None)}, frozen=c.choice('frozen', (False, True)))
    x = c.string('x', c.P['length'])
    vals = [x, c.choice('y', ('d{}', x, '{{', 'a\n')), None]
    r = A(x=vals[0], y=vals[1])
    way = c.choice('way', c.P['ways'])
    fn, keeps = routes(c, A, r, 'xyz')[way]
    verdict(c, way, c.attempt(fn), A, r, 'xyz', vals, way, A.is_frozen(), keeps)
    c.reach('done')


UNITS.add('texts', texts, length=3, ways=('repr', 'repr full', 'json', 'pickle', 'dict', 'copy'), reach=('done',), weight=5)


def numbers_(c):
    """values of any size and sign"""
    A = c.record('A', {'x': object, 'y': Dflt(object, 0.0), 'z': Dflt(object, False)}, frozen=c.choice('frozen', (False, True)))
    kind = c.choice('kind', c.P['kinds'])
    x = {'int': lambda: c.int('x'), 'float': lambda: c.flt('x'), 'complex': lambda: c.cplx('x'), 'fraction': lambda: c.rat('x', dens=(1, 2, 3, 7))}[kind]()
    way = c.choice('way', c.P['ways'])
    c.assume(x == x)
    if kind in ('float', 'complex') and 'repr' in way:      # inf is not an expression
        inf = float('inf')
        for part in (x,) if kind == 'float' else (x.real, x.imag):
            c.assume(c.And(part < inf, part > -inf))
    vals = [x, c.choice('y', ('x', 0.0, -1))]
    vals[1] = x if vals[1] == 'x' else vals[1]
    vals.append(c.choice('z', (False, 0, True)))
    r = A(x=vals[0], y=vals[1], z=vals[2])
    fn, keeps = routes(c, A, r, 'xyz')[way]
    verdict(c, way, c.attempt(fn), A, r, 'xyz', vals, way, A.is_frozen(), keeps)
    c.reach('done')


UNITS.add('numbers', numbers_, kinds=('int', 'float', 'complex', 'fraction'), ways=('repr full', 'repr', 'pickle', 'dict', 'copy', 'deepcopy', 'instance'), reach=('done',), weight=5)
UNITS.add('numbers in JSON', numbers_, kinds=('int', 'float'), ways=('json', 'json file', 'json full'), reach=('done',), weight=3)
