"""C30: threads using the same classes, records, factories and exporters at the same time do not disturb each other."""
import copy
import pickle

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('two threads, each performing one operation out of 31 (constructions that succeed or fail, parses, factories, exporters, comparisons, hashes, copies, pickles, subclass definitions, uses of the tokens and containers, ...) on the same '
          'classes, records, factories, exporters and tokens: every ordered pair of 26 of them (the first of them not always a subclass definition in the quick tier), and of the 5 filling ones with each other and two more; the first is preempted once, at any '
          'point of the package (between statements; between the evaluation of a value and its being stored, returned, tested or passed on; where nothing touches what is written outside constructors, the last point stands for the next ones), and the '
          'second runs to its end, or (a few small pairs, more in the thorough tier) back to any such point, where the rest of the first runs; arguments are arbitrary objects that may be shared between the threads')
OUTSIDE = ('preemption inside single C functions of the interpreter (taken as atomic, as the interpreter lock makes them) and inside expressions at other places than those named; more than two threads; more than three switches; '
           'free-threaded interpreters; callbacks of the user that are not thread safe; mutable records or containers that both threads change; state written by what only runs while classes and tokens are made')


class Box:
    """What the coercer of the classes makes of a value: recognised without comparing the arguments of the threads with each other."""

    def __init__(self, inner):
        self.inner = inner

    def __eq__(self, other):
        return self.inner == other.inner if isinstance(other, Box) else NotImplemented

    def __hash__(self):
        return 7

    def __deepcopy__(self, memo):
        return self


class Pt:
    def __init__(self, a, b=0, c=0):
        self.all = (a, b, c)

    @classmethod
    def of(cls, v, b):
        return cls(v, b)


class Text:
    """Something that the parsers of the classes parse."""

    def __init__(self, *parts):
        self.parts = parts


class World:
    """What the threads share."""

    def __init__(self, c):
        R = self.R = c.R
        self.c = c
        self.made = []
        w = self

        def coerce(v):
            if not c.fork(c.is_inst(v, U.V0)):
                raise Plain('not this')
            return Box(v)

        def parse_pair(cls, v):
            if not (isinstance(v, Text) and len(v.parts) == 2):
                raise Plain('no pair')
            return cls(a=v.parts[0], x=v.parts[1])

        def parse_one(cls, v):
            if not (isinstance(v, Text) and len(v.parts) == 1):
                raise Plain('no single')
            return cls(a=v.parts[0], x=v.parts[0])
        elem = annot(R, Box, R.check, R.CallCoercion(coerce))

        def product():
            w.made.append(U.V2(len(w.made)))
            return w.made[-1]
        self.tag = R.Tag('t')
        self.P = c.record('P', {'a': annot(R, object, self.tag)}, frozen=True)
        self.A = c.record('A', {'x': elem, 'y': Dflt(annot(R, Tuple[elem, ...], R.check), ()), 'd': Dflt(annot(R, object, R.Tag('u')), None), 'z': Dflt(annot(R, object, R.exclude_from_ordering), R.Factory(product))},
                          (self.P,), ns={'parse_pair': R.parser(classmethod(parse_pair)), 'parse_one': R.parser(classmethod(parse_one))}, frozen=True, ordered=True)
        self.factory = self.A.from_mapping.select(keys_to_rename=[('b', 'a')], keys_to_maybe_remove=['junk'])
        self.exporter = self.A.to_dict.export_with(include_defaults=True).select(keys_to_remove=['z', 'y'], keys_to_add=[('more', 1)])


    def __getattr__(self, name):
        """the classes that few operations need"""
        c, R, w = self.c, self.R, self
        if name == 'M':
            self.hooked = []

            def post_new(s):
                w.hooked.append(s)
                if type(s.x) is int and s.x < 0:
                    raise ValueError('negative')
            self.M = c.record('M', {'x': annot(R, int, R.check, R.Whole, R.Clamp(-5, 5)), 'm': Dflt(annot(R, Dict[str, annot(R, int, R.check)], R.check), R.Factory(dict)),
                                    'u': Dflt(annot(R, Union[annot(R, int, R.check), annot(R, str, R.check)], R.check), 0)}, ns={'post_new': post_new}, unary_parse=False)
        elif name == 'E':
            self.E = c.record('E', {'x': annot(R, int, R.check, R.Eval(n=40)), 'l': Dflt(annot(R, tuple, R.check, R.LiteralEval), ()), 'k': Dflt(annot(R, Literal[1, 'q', 2.5], R.check), 1),
                                    't': Dflt(annot(R, Type[int], R.check), int), 'q': Dflt(annot(R, str, R.check, R.FullMatch('[a-z]+')), 'q')}, unary_parse=False)
        elif name == 'O':
            self.O = c.record('O', {'p': int, 'q': int}, ordered=True)
        elif name == 'L':
            self.L = c.record('L', {'p': annot(R, Pt, R.check, R.Loose(c=7)), 'q': Dflt(annot(R, Pt, R.check, R.LooseUnpackMap(c=9), R.LooseUnpack()), Pt(0)), 'i': Dflt(annot(R, int, R.check, R.Loose.constrain(str)(base=16)), 0),
                                    'b': Dflt(annot(R, bytes, R.check, R.fillers.builtin_fillers.std_fillers.ToBytes(byteorder='big')), b''), 'f': Dflt(annot(R, list, R.check, R.Falsish), R.Factory(list))}, unary_parse=False)
        elif name == 'N':
            self.N = c.record('N', {'x': annot(R, int, R.check, R.MapCoercion({'two': 2}, {'five': lambda: 5}), R.ComposeCoercer(R.CallCoercion(lambda v, n: v + n, 1), R.CallCoercion(len)), R.Cyclic(0, 10)),
                                    'w': Dflt(annot(R, int, R.check, R.Within(0, 9), R.Truth()), 3), 'm': Dflt(annot(R, Pt, R.check, R.ClassMethodCoercion('of', 3)), Pt(0)),
                                    'v': Dflt(annot(R, int, R.check, R.CallValidation(lambda v: v * 2), R.AssertCallValidation(lambda v: v < 50)), 0)}, unary_parse=False)
        elif name == 'C':
            n = annot(R, int, R.check, R.CallCoercion(int), R.Clamp(0, 99))
            self.C = c.record('C', {'l': annot(R, List[n], R.check), 's': Dflt(annot(R, FrozenSet[n], R.check), frozenset()), 'd': Dflt(annot(R, Dict[str, annot(R, Tuple[n, annot(R, str, R.check)], R.check)], R.check), R.Factory(dict)),
                                    'u': Dflt(annot(R, Union[annot(R, int, R.check_strict), annot(R, str, R.check, R.FullMatch('[a-z]')), annot(R, Pt, R.check, R.LooseUnpack)], R.check), 0),
                                    'o': Dflt(annot(R, Optional[annot(R, int, R.check, R.Whole)], R.check), None)}, unary_parse=False)
        else:
            raise AttributeError(name)
        return self.__dict__[name]


def shared_record(c, w):
    if 'r' not in vars(w):
        w.ra, w.rx = c.obj('shared.a', ('V0',)), Box(c.obj('shared.x', ('V0',)))
        w.r = w.A(a=w.ra, x=w.rx, z=3)
        w.twin = w.A(a=w.ra, x=w.rx, z=3)
        w.other = w.A(a=w.ra, x=w.rx, d=w.ra, z=3)
        w.again = w.A(a=w.ra, x=w.rx, z=3)       # hashed by nobody before the end
    return w.r


def arg(c, name, types=('V0',)):
    return c.obj(name, types)


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


def boxed(c, got, v):
    """the coerced value of v, or v itself, when it needs no coercion"""
    return got is v if isinstance(v, Box) else type(got) is Box and c.same(got.inner, v)


def built(c, w, o, name, a, x, y=None, given=True):
    c.check(name + ': succeeds', o.ok)
    r = o.value
    c.check(name + ': class', type(r) is w.A)
    c.check(name + ': fields', c.And(c.same(r.a, a), boxed(c, r.x, x)))
    c.check(name + ': product of its own', isinstance(r.z, U.V2) and any(r.z is m for m in w.made))
    if y is None:
        c.check(name + ': default', r.y == ())
    return r


# every operation: (c, w, name) -> (what the thread does, what must be true of its outcome)
@op
def new(c, w, n):
    a, x, d = arg(c, n + '.a'), arg(c, n + '.x'), arg(c, n + '.d')

    def verify(o):
        r = built(c, w, o, n, a, x)
        c.check(n + ': optional', c.same(r.d, d))
        w.records.append(r)
    return lambda: w.A(a=a, x=x, d=d), verify


@op
def new_elements(c, w, n):
    a, x, e = arg(c, n + '.a'), Box(arg(c, n + '.x')), arg(c, n + '.e')
    y = (e, x, e) if n == 'one' else (x, e)       # of their own lengths, coerced at different places

    def verify(o):
        r = built(c, w, o, n, a, x, y)
        c.check(n + ': elements', type(r.y) is tuple and len(r.y) == len(y) and c.And(*[boxed(c, g, v) for g, v in zip(r.y, y)]))
        w.records.append(r)
    return lambda: w.A(x=x, y=y, a=a), verify


@op
def new_refused(c, w, n):
    a, x = arg(c, n + '.a'), arg(c, n + '.x', ('W',))

    def verify(o):
        c.check(n + ': refused', o.raised(Plain) and 'x' in str(o.exc) and isinstance(o.exc.__cause__, Plain))
    return lambda: w.A(a=a, x=x), verify


@op
def new_missing(c, w, n):
    a = arg(c, n + '.a')

    def verify(o):
        c.check(n + ': refused', o.raised(TypeError) and 'x' in str(o.exc))
    return lambda: w.A(a=a), verify


@op
def parse(c, w, n):
    a, x = arg(c, n + '.a'), arg(c, n + '.x')
    return lambda: w.A(Text(a, x)), lambda o: w.records.append(built(c, w, o, n, a, x))


@op
def parse_other(c, w, n):
    a = arg(c, n + '.a')
    return lambda: w.A.parse(Text(a)), lambda o: w.records.append(built(c, w, o, n, a, a))


@op
def parse_nothing(c, w, n):
    a = arg(c, n + '.a')
    return lambda: w.A.parse(Text(a, a, a)), lambda o: c.check(n + ': nothing parses it', o.raised(w.R.record.ParseFailure))


@op
def mapping(c, w, n):
    a, x, junk = arg(c, n + '.a'), arg(c, n + '.x'), arg(c, n + '.junk')
    m = {'x': x, 'b': a, 'junk': junk}

    def verify(o):
        w.records.append(built(c, w, o, n, a, x))
        c.check(n + ': mapping as it was', list(m) == ['x', 'b', 'junk'] and c.And(c.same(m['x'], x), c.same(m['b'], a)))
    return lambda: w.factory(m), verify


@op
def instance(c, w, n):
    r = shared_record(c, w)
    a = arg(c, n + '.a')

    def verify(o):
        c.check(n + ': succeeds', o.ok and type(o.value) is w.A)
        c.check(n + ': fields', c.And(c.same(o.value.a, a), c.same(o.value.x, w.rx)) and o.value.z == 3)
    return lambda: w.A.from_instance(r, a=a), verify


@op
def derive(c, w, n):
    """further derivations of the shared factory and exporter"""
    r = shared_record(c, w)
    a, x = arg(c, n + '.a'), arg(c, n + '.x')

    def run():
        f = w.factory.select(keys_to_add=[('d', n)])
        e = w.exporter.select(keys_to_add=[(n, 2)]).export_with(sort=-1)
        return f({'b': a, 'x': x}), e(r)

    def verify(o):
        c.check(n + ': succeeds', o.ok)
        rec, d = o.value
        c.check(n + ': record', c.same(rec.a, a) and rec.d == n)
        c.check(n + ': exported', list(d) == ['x', 'd', 'a', 'more', n] and d[n] == 2 and c.And(c.same(d['a'], w.ra), c.same(d['x'], w.rx)))
    return run, verify


@op
def export(c, w, n):
    r = shared_record(c, w)

    def verify(o):
        c.check(n + ': exported', o.ok and list(o.value) == ['a', 'x', 'd', 'more'] and c.And(c.same(o.value['a'], w.ra), c.same(o.value['x'], w.rx)))
    return lambda: w.exporter(r), verify


@op
def export_options(c, w, n):
    r = shared_record(c, w)
    return lambda: r.to_dict(blacklist_tags=w.tag, sort=True, whitelist_keys='y'), lambda o: c.check(n + ': exported', o.ok and list(o.value) == ['x', 'y', 'z'] and c.same(o.value['x'], w.rx))


@op
def json(c, w, n):
    m = w.M(2, m={'k': 1})

    def verify(o):
        c.check(n + ': round trip', o.ok and type(o.value) is w.M and o.value == m and o.value is not m)
    return lambda: w.M.from_json(m.to_json()), verify


@op
def represent(c, w, n):
    r = w.M(2, m={'k': 1})
    return lambda: repr(r), lambda o: c.check(n + ': repr', o.ok and o.value == "M(x=2, m={'k': 1})")


@op
def hashed(c, w, n):
    r = shared_record(c, w)
    return lambda: c.hash(r), lambda o: c.check(n + ': hash', o.ok and c.eq(o.value, c.hash(w.again)))


@op
def equal(c, w, n):
    r = shared_record(c, w)
    return lambda: (r == w.twin, w.twin == r, r != w.twin), lambda o: c.check(n + ': equal', o.ok and c.And(o.value[0], o.value[1], c.Not(o.value[2])))


@op
def different(c, w, n):
    r = shared_record(c, w)
    return lambda: (r == w.other, w.other == r), lambda o: c.check(n + ': different', o.ok and c.Not(o.value[0]) and c.Not(o.value[1]))


@op
def ordered(c, w, n):
    O = w.O
    i, j = c.int(n + '.i'), c.int(n + '.j')
    l, r = O(p=1, q=i), O(p=1, q=j)
    return lambda: l < r, lambda o: c.check(n + ': less', o.ok and c.Iff(o.value, i < j))


@op
def copied(c, w, n):
    r = shared_record(c, w)

    def verify(o):
        c.check(n + ': copies', o.ok and all(type(x) is w.A for x in o.value))
        c.check(n + ': equal', c.And(*[c.And(c.eq(x.a, w.ra), c.eq(x.x, w.rx)) for x in o.value]) and all(x.z == 3 for x in o.value))
        w.records.extend(o.value)
    return lambda: (copy.copy(r), copy.deepcopy(r)), verify


@op
def pickled(c, w, n):
    r = shared_record(c, w)

    def verify(o):
        c.check(n + ': pickles', o.ok and type(o.value) is w.A and c.And(c.eq(o.value.a, w.ra), c.eq(o.value.x, w.rx)) and o.value.z == 3)
        w.records.append(o.value)
    return lambda: pickle.loads(pickle.dumps(r)), verify


@op
def frozen(c, w, n):
    r = shared_record(c, w)
    return lambda: setattr(r, 'x', 1), lambda o: c.check(n + ': refused', o.raised(TypeError))


@op
def subclass(c, w, n):
    """a subclass with a field, a validator and a parser of its own"""
    R = w.R
    a, x, e = arg(c, n + '.a'), arg(c, n + '.x'), arg(c, n + '.e', ('V0', 'W'))

    def run():
        S = c.record('S' + n, {'extra': annot(R, U.V0, R.check)}, (w.A,), ns={'parse_text': R.parser(classmethod(lambda cls, v: v + ''))}, frozen=True)
        return S, S(a=a, x=x, extra=e) if c.fork(c.is_inst(e, U.V0)) else S.parse('text')

    def verify(o):
        c.check(n + ': defined', o.ok)
        S, r = o.value
        c.check(n + ': fields', list(S._fields) == ['a', 'x', 'y', 'd', 'z', 'extra'])
        if c.fork(c.is_inst(e, U.V0)):
            c.check(n + ': record', type(r) is S and c.And(c.same(r.a, a), boxed(c, r.x, x), c.same(r.extra, e)))
        else:
            c.check(n + ': parsed', r == 'text')
    return run, verify


@op
def hook(c, w, n):
    k = c.choice(n + '.k', (3, -3, 8))
    w.M

    def verify(o):
        if k < 0:
            c.check(n + ': vetoed', o.raised(ValueError))
        else:
            c.check(n + ': clamped', o.ok and o.value.x == min(k, 5) and sum(h is o.value for h in w.hooked) == 1)
            c.check(n + ': a dictionary of its own', o.value.m == {} and o.value.u == n)
            o.value.m[n] = 1
    return lambda: w.M(k + .0, u=n), verify


@op
def pairs(c, w, n):
    m = {n: 7, 'k': True}
    w.M

    def verify(o):
        c.check(n + ': pairs', o.ok and o.value.x == 1 and o.value.m is m and o.value.u == 2 and list(m.items()) == [(n, 7), ('k', True)])
    return lambda: w.M(1, m=m, u=2), verify


@op
def evaluated(c, w, n):
    k = c.choice(n + '.k', (2, 5))
    w.E

    def verify(o):
        c.check(n + ': evaluated', o.ok and o.value.x == 40 + k and o.value.l == (k,) and o.value.k == 'q' and o.value.t is bool and o.value.q == 'q' * k)
    return lambda: w.E(x='n + %d' % k, l='(%d,)' % k, k='q', t=bool, q='q' * k), verify


@op
def not_evaluated(c, w, n):
    bad = c.choice(n + '.bad', ('x', 'l', 'k', 't', 'q'))
    w.E
    kw = {'x': 1, bad: {'x': 'm', 'l': '[1]', 'k': 'x', 't': str, 'q': '1'}[bad]}
    return lambda: w.E(**kw), lambda o: c.check(n + ': refused', o.raised() and bad in str(o.exc))


@op
def filtered(c, w, n):
    def verify(o):
        c.check(n + ': filtered', o.ok and [list(x) for x in o.value] == [['a'], ['d'], ['z'], []])
    return lambda: [w.A._fields.filter_by_tag(t) for t in (w.R.Tag('t'), w.R.Tag('u'), w.R.exclude_from_ordering, w.R.Tag(n))], verify


@op
def loosened(c, w, n):
    k = c.choice(n + '.k', (2, 5))
    w.L

    def verify(o):
        c.check(n + ': made', o.ok and o.value.p.all == (k, 0, 7) and o.value.q.all == (k, k + 1, 0) and o.value.i == 160 + k and o.value.b == bytes([k]) and o.value.f == [])
        c.check(n + ': by name', o.value.again.all == (0, k, 9))
        o.value.f.append(n)

    def run():
        r = w.L(p=k, q=(k, k + 1), i='a%d' % k, b=k, f=None)
        r.again = w.L(p=k, q={'a': 0, 'b': k}).q
        return r
    return run, verify


@op
def mapped(c, w, n):
    k = c.choice(n + '.k', (12, 4))
    w.N

    def verify(o):
        c.check(n + ': made', o.ok and [r.x for r in o.value] == [2, 5, (k + 1) % 10, k % 10] and all(r.m.all == (n, 3, 0) and r.v == 2 * k and r.w == k % 9 for r in o.value))
    return lambda: [w.N(x=x, w=k % 9, m=n, v=k) for x in ('two', 'five', 'a' * k, k)], verify


@op
def unmapped(c, w, n):
    bad = c.choice(n + '.bad', ('x', 'w', 'v'))
    w.N
    kw = dict({'x': 1}, **{bad: {'x': None, 'w': 0, 'v': 26}[bad]})
    return lambda: w.N(**kw), lambda o: c.check(n + ': refused', o.raised() and bad in str(o.exc))


@op
def contained(c, w, n):
    k = c.choice(n + '.k', (3, 200))
    w.C
    j = min(k, 99)

    def verify(o):
        c.check(n + ': made', o.ok and o.value.l == [j, 1, j] and o.value.s == frozenset((j, 2)) and o.value.d == {n: (j, n), 'z': (0, 'z')} and list(o.value.d) == [n, 'z'])
        c.check(n + ': alternatives', (o.value.u == 'q' if k == 3 else o.value.u.all == (k, n, 0)) and o.value.o == k)
    return lambda: w.C(l=[str(k), 1, k], s=frozenset((str(k), 2)), d={n: (k, n), 'z': (-4, 'z')}, u='q' if k == 3 else (k, n), o=k + .0), verify


@op
def uncontained(c, w, n):
    bad = c.choice(n + '.bad', ('l', 's', 'd', 'u', 'o'))
    w.C
    kw = dict({'l': []}, **{bad: {'l': [1, 'x'], 's': frozenset('x'), 'd': {n: (1, 2)}, 'u': 2.5, 'o': 2.5}[bad]})
    return lambda: w.C(**kw), lambda o: c.check(n + ': refused', o.raised() and bad in str(o.exc))


def pair(c):
    w = World(c)
    w.records = []
    first = c.P['first']
    second = c.choice('second', c.P.get('seconds') or tuple(OPS))
    fa, va = OPS[first](c, w, 'one')
    fb, vb = OPS[second](c, w, 'two')
    oa, ob = c.race(fa, fb, c.P.get('back', False))
    va(oa)
    vb(ob)
    # and nothing is left behind
    for i, r in enumerate(w.records):
        c.check('products are not shared', r.z == 3 or not any(s is not r and s.z is r.z for s in w.records))
    if 'r' in vars(w):
        r = w.r
        c.check('the shared record is as it was', c.And(c.same(r.a, w.ra), c.same(r.x, w.rx)) and r.z == 3 and r.y == () and r.d is None)
        c.check('and hashes so', c.eq(c.hash(r), c.hash(w.again)))
    v = c.obj('after', ('V0',))
    o = c.attempt(lambda: w.A(a=v, x=v))
    c.check('the class is as good as new', o.ok and c.And(c.same(o.value.a, v), boxed(c, o.value.x, v)))
    c.check('its fields', list(w.A._fields) == ['a', 'x', 'y', 'd', 'z'] and list(w.P._fields) == ['a'])
    c.reach('done')


FILLING = ('loosened', 'mapped', 'unmapped', 'contained', 'uncontained')
for _n in FILLING:
    UNITS.add('first ' + _n, pair, threads=True, first=_n, seconds=('new', 'hook') + FILLING, reach=('done',), weight=9)
ALL = tuple(n for n in OPS if n not in FILLING)
for _n, _parts in [(_n, 4 if _n == 'subclass' else 2 if _n in ('derive', 'pickled', 'instance', 'copied') else 1) for _n in ALL]:
    for _i in range(_parts):
        UNITS.add('first %s%s' % (_n, ' (%d)' % _i if _parts > 1 else ''), pair, threads=True, first=_n, seconds=ALL[_i::_parts], reach=('done',), weight=9,
                  tier='thorough' if _n == 'subclass' and _i % 2 else 'quick')
_seen = set()
# the second thread may be preempted, too: in the quick tier where the two share more than a class with each other
for _g, _tier in ((('hashed', 'equal', 'different', 'frozen'), 'quick'), (('new', 'new_refused', 'parse_nothing'), 'quick'), (('new', 'new_elements', 'parse', 'parse_nothing', 'instance'), 'thorough'), (('mapping', 'parse_other', 'copied', 'pickled'), 'thorough'),
                  (('export', 'export_options', 'filtered'), 'thorough'), (('hook', 'pairs', 'evaluated', 'not_evaluated', 'ordered', 'represent', 'json'), 'thorough'), (('new', 'subclass'), 'thorough'), (FILLING, 'thorough')):
    for _n in _g:
        for _m in _g:
            if (_m, _n) in _seen:
                continue
            _seen.add((_m, _n))
            UNITS.add('%s, back to %s' % (_m, _n), pair, threads=True, back=True, first=_n, seconds=(_m,), reach=('done',), weight=9, tier=_tier)
