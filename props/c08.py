"""C08: mapping fields fill every key and every value."""
from .common import *
from symx.unit import Registry
from collections import OrderedDict, defaultdict, UserDict

UNITS = Registry()
BOUNDS = ('mappings of 0..3 pairs (thorough 4), keys and values arbitrary objects (equal filled keys included); key and value types with 0..1 coercer and validator of '
          'arbitrary outcome; dict, subclass, OrderedDict, defaultdict, Counter-like, MappingProxyType, UserDict; values that are lists or mappings themselves')
OUTSIDE = 'mappings whose type cannot be built from a dict; larger mappings'
ASSUMPTIONS = ['coercers and validators are deterministic functions of the identity of their argument']


def isdict(v):
    return isinstance(v, dict)


def ismap(v):
    return isinstance(v, collections.abc.Mapping)


def factory():
    return 'made'


def dd(p):
    return defaultdict(factory, p)


class DD(defaultdict):
    pass


def proxy(p):
    return types_.MappingProxyType(dict(p))


import types as types_  # noqa: E402

KINDS = {
    'Dict': (lambda k, v: Dict[k, v], isdict, dict), 'dict': (lambda k, v: dict[k, v], isdict, DSub), 'Dict/ordered': (lambda k, v: Dict[k, v], isdict, OrderedDict),
    'Mapping': (lambda k, v: Mapping[k, v], ismap, dict), 'Mapping/proxy': (lambda k, v: Mapping[k, v], ismap, proxy), 'Mapping/user': (lambda k, v: Mapping[k, v], ismap, lambda p: UserDict(dict(p))),
    'MutableMapping': (lambda k, v: typing.MutableMapping[k, v], lambda v: isinstance(v, collections.abc.MutableMapping), OrderedDict),
    'DefaultDict': (lambda k, v: typing.DefaultDict[k, v], lambda v: isinstance(v, defaultdict), dd),
    'DefaultDict/sub': (lambda k, v: typing.DefaultDict[k, v], lambda v: isinstance(v, defaultdict), lambda p: DD(factory, p)),
    'Dict/default': (lambda k, v: Dict[k, v], isdict, dd), 'Mapping/default': (lambda k, v: Mapping[k, v], ismap, dd),
}


def go(c, spec, v):
    R = c.R
    A = c.record('A', {'x': spec.hint(R)})
    snap = snapshot(v)
    exp = spec.fill(c, v)
    o = c.attempt(A, x=v)
    c.check('the mapping passed in is not modified', unchanged(c, v, snap))
    if exp is None:
        c.check('construction fails if the mapping, a key or a value fails', not o.ok)
        c.reach('failed')
        return
    c.check('construction succeeds if every key and value does', o.ok)
    matches(c, o.value.x, exp, 'x')
    c.reach('rebuilt' if exp.new else 'kept')


def spec_of(c, name, how, types, kinds=('obj', 'raise')):
    excs = c.P.get('excs', (Plain,))
    f = DetFn(c, 'f' + name, kinds, types, excs)
    g = DetFn(c, 'g' + name, ('same', 'obj', 'raise'), types, excs)
    return Spec(BY_HINT['V0'], 'hollow' if how == 'hollow' else 'check', [f] if how == 'coerce' else (), [g] if how == 'validate' else ())


def mapping(c):
    make, accepts, build = KINDS[c.P['kind']]
    n = c.choice('n', c.P['ns'])
    kt = c.P.get('ktypes', ('V0', 'W'))
    vt = c.P.get('vtypes', ('V0', 'W'))
    ks = [c.obj('k%d' % i, kt) for i in range(n)] if c.P['khow'] != 'native' else ['kd', 'kb', 'kc', 'ka'][:n]
    vs = [c.obj('v%d' % i, vt) for i in range(n)]
    v = build(list(zip(ks, vs)))
    if c.P['khow'] != 'native' and n > 1:
        c.assume(len(v) == n)   # distinct keys, otherwise it is a smaller mapping
    key = spec_of(c, 'k', c.P['khow'], kt) if c.P['khow'] != 'native' else Spec(BY_HINT['str'], 'check')
    go(c, MapSpec(make, key, spec_of(c, 'v', c.P['vhow'], vt), accepts), v)


REACH = ('failed', 'rebuilt', 'kept')
for kind in KINDS:
    UNITS.add('values/' + kind, mapping, kind=kind, khow='native', vhow='coerce', ns=(0, 1, 2), reach=REACH, weight=2)
    UNITS.add('both/' + kind, mapping, kind=kind, khow='coerce', vhow='validate', vtypes=('V0',), ns=(0, 1), reach=REACH, weight=2)
    # what ends a loop must not end the filling
    UNITS.add('stop values/' + kind, mapping, kind=kind, khow='native', vhow='coerce', excs=(StopIteration, KeyError, StopAsyncIteration), ns=(1, 2), reach=REACH, weight=2)
    UNITS.add('stop keys/' + kind, mapping, kind=kind, khow='validate', vhow='hollow', ktypes=('V0',), vtypes=('int',), excs=(StopIteration, KeyError, StopAsyncIteration), ns=(1, 2), reach=REACH, weight=2)
    UNITS.add('keys/' + kind, mapping, kind=kind, khow='coerce', vhow='hollow', vtypes=('int',), ns=(2,), reach=REACH, weight=4)
for kind in ('Dict', 'Mapping/default', 'Mapping/proxy'):
    UNITS.add('values3/' + kind, mapping, kind=kind, khow='native', vhow='coerce', ns=(3,), reach=REACH, weight=4)
    UNITS.add('values4/' + kind, mapping, kind=kind, khow='native', vhow='coerce', ns=(4,), reach=REACH, weight=8, tier='thorough')
    UNITS.add('validated keys/' + kind, mapping, kind=kind, khow='validate', ktypes=('V0',), vhow='coerce', ns=(2,), reach=REACH, weight=9)
    UNITS.add('keys3/' + kind, mapping, kind=kind, khow='coerce', vhow='hollow', vtypes=('int',), ns=(3,), reach=REACH, weight=9, tier='thorough')


@UNITS.unit(reach=REACH, weight=3)
def nested(c):
    """mappings of lists, of mappings, lists of mappings"""
    kind = c.choice('kind', ('dict of list', 'dict of dict', 'list of dict', 'tuple keys'))
    el = spec_of(c, 'e', 'coerce', ('V0', 'W'))
    S = Spec(BY_HINT['str'], 'check')
    a, b = c.obj('a', ('V0', 'W')), c.obj('b', ('V0', 'W'))
    L = lambda e: SeqSpec(lambda h: List[h], e, lambda x: isinstance(x, list))
    D = lambda k, e: MapSpec(lambda k_, h: Dict[k_, h], k, e, isdict)
    if kind == 'dict of list':
        spec, v = D(S, L(el)), {'p': [a], 'q': [b, a]}
    elif kind == 'dict of dict':
        spec, v = D(S, D(S, el)), {'p': {'x': a}, 'q': {'y': b}}
    elif kind == 'list of dict':
        spec, v = L(D(S, el)), [{'p': a}, {'p': b}]
    else:
        spec, v = D(S, TupSpec([el, S])), {'p': (a, 's'), 'q': (b, 't')}
    R = c.R
    A = c.record('A', {'x': spec.hint(R)})
    snap = snapshot(v)
    exp = spec.fill(c, v)
    o = c.attempt(A, x=v)
    c.check('the argument is not modified', unchanged(c, v, snap))
    if exp is None:
        c.check('fails if anything inside fails', not o.ok)
        c.reach('failed')
    else:
        c.check('succeeds', o.ok)
        matches(c, o.value.x, exp, 'x')
        c.reach('rebuilt' if exp.new else 'kept')


@UNITS.unit(reach=('failed', 'kept'))
def wrong_mapping(c):
    R = c.R
    kind = c.choice('kind', ('Dict', 'Mapping', 'DefaultDict', 'MutableMapping'))
    st = c.choice('style', ('check', 'strict')) if kind in ('Dict', 'DefaultDict') else 'check'
    e = R.Annotated[U.V0, R.check]
    s = R.Annotated[str, R.check]
    hint, cls = {'Dict': (Dict[s, e], dict), 'Mapping': (Mapping[s, e], collections.abc.Mapping), 'DefaultDict': (typing.DefaultDict[s, e], defaultdict),
                 'MutableMapping': (typing.MutableMapping[s, e], collections.abc.MutableMapping)}[kind]
    A = c.record('A', {'x': R.Annotated[hint, style(R, st)]})
    a = c.obj('a', ('V0',))
    v = c.choice('arg', (dict, DSub, OrderedDict, dd, proxy, list, UserDict))({'p': a}.items() if False else [('p', a)])
    o = c.attempt(A, x=v)
    if type(v) is cls if st == 'strict' else isinstance(v, cls):
        c.check('accepted and kept', o.ok and o.value.x is v)
        c.reach('kept')
    else:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('failed')


@UNITS.unit(reach=('done',))
def default_factory_works(c):
    """a rebuilt defaultdict still makes defaults, and looking at the original adds nothing"""
    R = c.R
    f = DetFn(c, 'f', ('obj',), ('V0',))
    kind = c.choice('hint', ('DefaultDict', 'Dict'))
    H = typing.DefaultDict if kind == 'DefaultDict' else Dict
    A = c.record('A', {'x': R.Annotated[H[str, R.Annotated[U.V0, R.check, R.CallCoercion(f)]], R.check]})
    v = dd([('p', c.obj('a', ('V0', 'W')))])
    o = c.attempt(A, x=v)
    c.check('succeeds', o.ok)
    c.check('the original has its one key', list(v) == ['p'])
    c.check('missing keys are made by the factory', o.value.x['new'] == 'made')
    c.reach('done')


@UNITS.unit(reach=('done',))
def counters(c):
    """mappings that treat an iterable of pairs differently are still rebuilt from the pairs"""
    R = c.R
    bump = c.fork(c.flag('bump'))
    A = c.record('A', {'x': R.Annotated[Dict[str, R.Annotated[int, R.check, R.CallValidation(lambda n: n + 1 if bump else n)]], R.check]})
    v = collections.Counter('aab')
    o = c.attempt(A, x=v)
    c.check('succeeds', o.ok)
    c.check('same type', type(o.value.x) is collections.Counter)
    c.check('the filled pairs', dict(o.value.x) == ({'a': 3, 'b': 2} if bump else {'a': 2, 'b': 1}))
    c.check('kept if unchanged', (o.value.x is v) == (not bump))
    c.check('the original is unchanged', dict(v) == {'a': 2, 'b': 1})
    c.reach('done')


@UNITS.unit(reach=('kept', 'rebuilt', 'refused'), weight=4)
def odd_values(c):
    """keys and values are compared with what they were by identity"""
    R = c.R
    kind, v = odd(c)
    kk = c.choice('key', ('k', 'nan', 'never equal', 'no truth value'))
    k = kk if kk == 'k' else ODD[kk][0]()
    change = c.choice('change', ('nothing', 'value', 'key', 'refuse value', 'refuse key'))
    new = ODD[kind][0]() if c.choice('alike', (False, True)) else float('nan')
    c.assume(new is not v)
    nk = c.choice('new key', ('n', 'nan', 'never equal')) if change == 'key' else None
    nk = nk if nk in ('n', None) else ODD[nk][0]()

    def fv(x):
        if change == 'refuse value':
            raise TypeError
        return new if change == 'value' else x

    def fk(x):
        if change == 'refuse key':
            raise TypeError
        return nk if change == 'key' else x
    shape = c.choice('shape', ('dict', 'defaultdict', 'ordered', 'mapping'))
    K, V = annot(R, object, R.hollow, R.CallValidation(fk)), annot(R, object, R.hollow, R.CallValidation(fv))
    hint, build = {'dict': (Dict[K, V], dict), 'defaultdict': (typing.DefaultDict[K, V], lambda d: collections.defaultdict(list, d)), 'ordered': (Dict[K, V], collections.OrderedDict), 'mapping': (Mapping[K, V], dict)}[shape]
    A = c.record('A', {'x': annot(R, hint, R.check)}, unary_parse=False)
    arg = build({k: v})
    o = c.attempt(lambda: A(x=arg))
    (k0, v0), = arg.items()
    c.check('the mapping passed in is as it was', k0 is k and v0 is v)
    if 'refuse' in change:
        c.check('refused', o.raised())
        c.reach('refused')
    elif change == 'nothing':
        c.check('the very mapping', o.ok and o.value.x is arg)
        c.reach('kept')
    else:
        c.check('rebuilt', o.ok and o.value.x is not arg and type(o.value.x) is type(arg))
        (k1, v1), = o.value.x.items()
        c.check('the filled pair', k1 is (nk if change == 'key' else k) and v1 is (new if change == 'value' else v))
        c.reach('rebuilt')


@UNITS.unit(reach=('failed', 'rebuilt', 'kept'), weight=8)
def shapes(c):
    """wherever the field is declared and however the record is built"""
    R = c.R
    kind = c.choice('kind', ('dict', 'default', 'mapping', 'optional'))
    key = Spec(BY_HINT['str'], 'check')
    val = spec_of(c, 'v', 'coerce', ('V0', 'W'))
    make, accepts, build = {'dict': KINDS['Dict'], 'default': KINDS['DefaultDict'], 'mapping': KINDS['Mapping/proxy'], 'optional': (lambda k, v: Dict[k, v], isdict, OrderedDict)}[kind]
    spec = MapSpec(make, key, val, accepts)
    hint = spec.hint(R)
    sh = shaped(c, {'x': annot(R, Union[hint, annot(R, None, R.check)], R.check) if kind == 'optional' else hint, 'y': object}, unary_parse=False)
    v = build([('p', c.obj('a', ('V0', 'W'))), ('q', c.obj('b', ('V0',)))])
    snap = snapshot(v)
    exp = spec.fill(c, v)
    how = c.choice('how', ('keywords', 'mapping'))
    o = c.attempt(lambda: sh.cls(x=v, y=1) if how == 'keywords' else sh.cls.from_mapping({'y': 1, 'x': v}))
    c.check('the mapping passed in is not modified', unchanged(c, v, snap))
    if exp is None:
        c.check('fails if a value does', not o.ok)
        c.reach('failed')
        return
    c.check('succeeds if every value does', o.ok)
    matches(c, o.value.x, exp, 'x')
    c.reach('rebuilt' if exp.new else 'kept')


@UNITS.unit(reach=('rebuilt', 'failed'), weight=4)
def fresh(c):
    """fillers that never give the same object twice: every key and every value is filled on its own, exactly once, and the pairs stay together and in order"""
    R = c.R
    kind = c.choice('kind', ('dict', 'default', 'mapping', 'ordered', 'nested'))
    kcalls, vcalls, out = [], [], {}
    stop = c.choice('fails at', (None, 'k0', 'k2', 'v1', 'v2'))

    class Made:
        def __init__(self, of):
            self.of = of

    def filler(calls, tag):
        def f(v):
            i = len(calls)
            calls.append(v)
            if stop == '%s%d' % (tag, i):
                raise ValueError('stop')
            return Made(v)
        return f
    which = c.choice('which', ('keys', 'values', 'both'))
    K = annot(R, object, *([R.CallValidation(filler(kcalls, 'k'))] if which != 'values' else []))
    V = annot(R, object, *([R.CallValidation(filler(vcalls, 'v'))] if which != 'keys' else []))
    a, b = c.obj('a', ('V0', 'int', 'NoneType')), c.obj('b', ('V0',))
    vals = [a, b, a] if c.choice('places', ('aba', 'aaa')) == 'aba' else [a, a, a]
    keys = c.choice('keys', (('c', 'a', 'b'), (3, 1, 2), (None, 'x', 0)))
    H = {'dict': Dict, 'default': Dict, 'mapping': Mapping, 'ordered': Dict, 'nested': Dict}[kind]
    mk = {'default': dd, 'mapping': proxy, 'ordered': OrderedDict}.get(kind, dict)
    v = mk(list(zip(keys, vals)))
    hint = annot(R, H[K, V], R.check)
    arg = {'z': v} if kind == 'nested' else v
    A = c.record('A', {'x': annot(R, Dict[str, hint], R.check) if kind == 'nested' else hint}, unary_parse=False)
    o = c.attempt(lambda: A(x=arg))
    c.check('the mapping passed in is as it was', list(v) == list(keys) and c.And(*[c.same(v[k], x) for k, x in zip(keys, vals)]))
    if stop is not None and not (stop[0] == 'k' and which == 'values' or stop[0] == 'v' and which == 'keys'):
        c.check('fails', o.raised(ValueError))
        c.reach('failed')
        return
    c.check('built', o.ok)
    got = list((o.value.x['z'] if kind == 'nested' else o.value.x).items())
    c.check('all pairs', len(got) == 3)
    for i, (k, x) in enumerate(got):
        c.check('key %d' % i, type(k) is Made and k.of == keys[i] if which != 'values' else k == keys[i])
        c.check('value %d' % i, type(x) is Made and c.same(x.of, vals[i]) if which != 'keys' else c.same(x, vals[i]))
    c.check('every key once', which == 'values' or len(kcalls) == 3)
    c.check('every value once', which == 'keys' or len(vcalls) == 3)
    c.reach('rebuilt')


@UNITS.unit(reach=('kept', 'rebuilt', 'refused'), weight=5)
def many(c):
    """large mappings: any two of their places"""
    R = c.R
    N = 40
    kind = c.choice('kind', ('dict', 'mapping', 'defaultdict', 'keys'))
    i = c.choice('first', tuple(range(N)) + (None,))
    j = c.choice('second', (None, 0, 1, N // 2, N - 1))
    what = c.choice('what', ('coerced', 'refused')) if i is not None and j is not None else 'coerced'
    calls = []

    def f(v):
        calls.append(v)
        if type(v) is not str:
            raise TypeError('no')
        return int(v)
    e = annot(R, int, R.check, R.CallCoercion(f))
    xs = list(range(N))
    if i is not None:
        xs[i] = str(i)
    if j is not None and j != i:
        xs[j] = str(j) if what == 'coerced' else j + .25
    bad = what == 'refused' and j != i
    if kind == 'keys':
        pairs = [(x, 'v%d' % k) for k, x in enumerate(xs)]
        exp = [(int(x) if type(x) is str else x, v) for x, v in pairs]
        hint = Dict[e, str]
    else:
        pairs = [('k%d' % k, x) for k, x in enumerate(xs)]
        exp = [(k, int(x) if type(x) is str else x) for k, x in pairs]
        hint = {'dict': Dict, 'mapping': Mapping, 'defaultdict': typing.DefaultDict}[kind][str, e]
    arg = collections.defaultdict(list, pairs) if kind == 'defaultdict' else dict(pairs)
    A = c.record('A', {'x': annot(R, hint, R.check)}, unary_parse=False)
    o = c.attempt(lambda: A(x=arg))
    c.check('the mapping passed in is as it was', list(arg.items()) == pairs)
    if bad:
        c.check('refused', not o.ok)
        c.reach('refused')
        return
    c.check('built', o.ok and type(o.value.x) is type(arg))
    c.check('filled pairs in order', list(o.value.x.items()) == exp and len(calls) == sum(type(x) is str for x in xs))
    c.check('all of their types', all(type(a) is type(b) for p, q in zip(o.value.x.items(), exp) for a, b in zip(p, q)))
    c.check('the very mapping if nothing changed', (o.value.x is arg) == (not calls))
    c.reach('rebuilt' if calls else 'kept')
