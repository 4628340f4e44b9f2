"""C22: Clamp and Cyclic bring every value into their interval."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('Clamp with both, one or no bound, and Cyclic, over arbitrary integers (any size), rationals (denominators 1-3, numerators within +-1000) and doubles, and integer bounds with values of the other kinds; '
          'tokens given positionally or by keyword, on checked and unchecked fields, inside lists, shared between fields and applied twice; decimals, timedeltas and numbers whose remainder has the sign of the dividend (from a listed family); thorough: every kind of bound with every kind of value')
OUTSIDE = 'NaN and infinite bounds or values; Cyclic with an empty or inverted interval; for doubles Cyclic is only required to land inside the interval (the remainder is rounded)'


def num(c, name, kind):
    if kind == 'int':
        return c.int(name)
    if kind == 'rat':
        return c.rat(name, dens=c.P.get('dens', (1, 2, 3)))
    if kind == 'flt':
        return c.flt(name, finite=True)
    if kind == 'bool':
        return c.obj(name, ('bool',))


HINT = {'int': int, 'flt': float, 'bool': bool}


def fill(c, R, tok, v, kv, label):
    """the stored value of a field with the token"""
    where = c.choice('where', c.P.get('where', ('plain', 'typed', 'list', 'optional')))
    if where == 'plain' or (where == 'typed' and kv not in HINT):
        hint = annot(R, object, tok)
    elif where == 'typed':
        hint = annot(R, HINT[kv], R.check, tok)
    elif where == 'list':
        A = c.record('A', {'x': annot(R, List[annot(R, object, R.check, tok)], R.check)}, unary_parse=False)
        o = c.attempt(lambda: A(x=[v, v]))
        c.check(label + ': accepted', o.ok)
        c.check(label + ': every element', len(o.value.x) == 2 and c.eq(o.value.x[0], o.value.x[1]))
        return o.value.x[1]
    else:
        hint = annot(R, Optional[annot(R, object, tok)], R.check)
    A = c.record('A', {'n': Dflt(object, 0), 'x': hint}, unary_parse=False)
    o = c.attempt(lambda: A(x=v))
    c.check(label + ': accepted', o.ok)
    return o.value.x


def clamp(c):
    R = c.R
    kb, kv = c.choice('kinds', c.P['kinds'])
    given = c.choice('bounds', c.P.get('bounds', ('both', 'lower', 'upper', 'none')))
    kw = {}
    lo = hi = None
    if given in ('both', 'lower'):
        lo = kw['ge'] = num(c, 'lo', kb)
    if given in ('both', 'upper'):
        hi = kw['le'] = num(c, 'hi', kb)
    pos = given in ('both', 'lower') and c.choice('positional', (False, True))
    make = (lambda: R.Clamp(*kw.values())) if pos else (lambda: R.Clamp(**kw))
    t = c.attempt(make)
    if given == 'both' and c.fork(lo > hi):
        c.check('bounds in the wrong order are refused', t.raised(ValueError))
        c.reach('bad bounds')
        return
    c.check('bounds in order are accepted', t.ok)
    v = num(c, 'v', kv)
    got = fill(c, R, t.value, v, kv, 'Clamp')
    if lo is not None and c.fork(v < lo):
        c.check('the lower bound', c.same(got, lo))
        c.reach('below')
    elif hi is not None and c.fork(hi < v):
        c.check('the upper bound', c.same(got, hi))
        c.reach('above')
    else:
        c.check('the value itself', c.same(got, v))
        c.reach('inside')


CLAMPED = ('below', 'inside', 'above', 'bad bounds')
UNITS.add('Clamp ints', clamp, kinds=(('int', 'int'),), reach=CLAMPED, weight=4)
UNITS.add('Clamp rationals', clamp, kinds=(('rat', 'rat'),), dens=(1, 2), where=('plain', 'list'), reach=CLAMPED, weight=8)
UNITS.add('Clamp doubles', clamp, kinds=(('flt', 'flt'),), reach=CLAMPED, weight=8)
UNITS.add('Clamp mixed', clamp, kinds=(('int', 'rat'), ('rat', 'int'), ('int', 'bool')), bounds=('both', 'lower', 'upper'), where=('plain',), reach=CLAMPED, weight=8)
UNITS.add('Clamp all kinds', clamp, kinds=tuple((a, b) for a in ('int', 'rat') for b in ('int', 'rat', 'bool')) + (('flt', 'flt'),), dens=(1, 2, 3, 7), reach=CLAMPED, weight=60, tier='thorough')


PERIODS = (1, 2, 7, 360, 10 ** 18)
ANGLES = ((0.0, 360.0), (-180.0, 180.0), (0.1, 0.3), (-3.141592653589793, 3.141592653589793), (1e16, 1e16 + 2), (-1e-300, 0.0), (0.0, 24.0), (5e-324, 1e308))


def cyclic(c):
    R = c.R
    kb, kv = c.choice('kinds', c.P['kinds'])
    if kb == 'flt':
        lo, hi = c.choice('interval', c.P['intervals'])
    else:
        lo = num(c, 'lo', kb)
        hi = lo + c.choice('period', c.P.get('periods', PERIODS)) if kb == 'int' else num(c, 'hi', kb)
    c.assume(lo < hi)
    how = c.choice('how', ('positional', 'keyword') if kb != 'flt' else ('positional',))
    tok = R.Cyclic(lo, hi) if how == 'positional' else R.Cyclic(maximum=hi, minimum=lo)
    v = num(c, 'v', kv)
    got = fill(c, R, tok, v, kv, 'Cyclic')
    c.check('inside the interval', c.And(lo <= got, got < hi))
    if c.fork(c.And(lo <= v, v < hi)):
        c.check('the value itself', c.same(got, v))
        c.reach('inside')
        return
    c.reach('below' if c.fork(v < lo) else 'above')
    if 'flt' not in (kb, kv):
        c.check('a whole number of periods away', c.eq((v - got) % (hi - lo), 0))


UNITS.add('Cyclic ints', cyclic, kinds=(('int', 'int'),), reach=('below', 'inside', 'above'), weight=8)
UNITS.add('Cyclic rationals', cyclic, kinds=(('rat', 'rat'),), dens=(1, 2), where=('plain', 'typed'), reach=('below', 'inside', 'above'), weight=20)
UNITS.add('Cyclic mixed', cyclic, kinds=(('int', 'rat'), ('rat', 'int')), dens=(1, 3), periods=(1, 7, 360), where=('plain',), reach=('below', 'inside', 'above'), weight=15)
UNITS.add('Cyclic doubles', cyclic, kinds=(('flt', 'flt'),), where=('plain',), intervals=ANGLES[:2] + ANGLES[3:4], reach=('below', 'inside', 'above'), weight=30)
UNITS.add('Cyclic more doubles', cyclic, kinds=(('flt', 'flt'),), where=('plain', 'typed'), intervals=ANGLES, reach=('below', 'inside', 'above'), weight=80, tier='thorough')
UNITS.add('Cyclic all kinds', cyclic, kinds=(('int', 'int'), ('rat', 'rat')), dens=(1, 2, 3), reach=('below', 'inside', 'above'), weight=80, tier='thorough')


@UNITS.unit(reach=('done',), weight=8)
def shared(c):
    """one token on several fields and two tokens on one field"""
    R = c.R
    lo, hi = c.int('lo'), c.int('hi')
    mid = lo + c.choice('period', PERIODS[1:4])
    c.assume(mid < hi)
    k, z = R.Clamp(lo, hi), R.Cyclic(lo, mid)
    first = c.choice('first', ('Clamp', 'Cyclic'))
    A = c.record('A', {'a': annot(R, object, *((k, z) if first == 'Clamp' else (z, k))), 'b': annot(R, int, R.check, k), 'd': Dflt(annot(R, int, R.check, z), None)}, unary_parse=False)
    a, b, d = c.int('a'), c.int('b'), c.int('d')
    r = A(a=a, b=b, d=d)
    cl = lambda v: lo if c.fork(v < lo) else hi if c.fork(v > hi) else v
    m = cl(a) if first == 'Clamp' else a
    c.check('a inside both', c.And(lo <= r.a, r.a < mid, c.eq((r.a - m) % (mid - lo), 0)))
    c.check('b clamped', c.same(r.b, cl(b)))
    c.check('d brought inside', c.And(lo <= r.d, r.d < mid, c.eq((r.d - d) % (mid - lo), 0)))
    c.check('defaults are left alone', A(a=a, b=b).d is None)
    c.reach('done')


@UNITS.unit(reach=('done',), weight=5)
def filled_twice(c):
    """filling again (a copy, a second construction) changes nothing more"""
    R = c.R
    kind = c.choice('kind', ('int', 'rat'))
    lo = num(c, 'lo', kind)
    hi = lo + 7 if kind == 'int' else num(c, 'hi', kind)
    c.assume(lo < hi)
    tok = c.choice('token', ('Clamp', 'Cyclic'))
    A = c.record('A', {'x': annot(R, object, getattr(R, tok)(lo, hi))}, unary_parse=False, frozen=c.choice('frozen', (False, True)))
    v = num(c, 'v', kind)
    r = A(x=v)
    c.check('the same again', c.same(A(x=r.x).x, r.x))
    c.check('in a changed copy', c.same(A.from_instance(r).x, r.x))
    c.reach('done')


class Towards:
    """a number whose remainder has the sign of the dividend, like that of decimals"""

    def __init__(self, c, v):
        self.c, self.v = c, v

    def _of(self, o):
        return o.v if isinstance(o, Towards) else o

    def __add__(self, o):
        return Towards(self.c, self.v + self._of(o))

    def __sub__(self, o):
        return Towards(self.c, self.v - self._of(o))

    def __mod__(self, o):
        p = self._of(o)
        m = self.v % p
        return Towards(self.c, m - p if self.c.fork(self.c.And(self.v < 0, m > 0)) else m)

    def __lt__(self, o):
        return self.v < self._of(o)

    def __le__(self, o):
        return self.v <= self._of(o)

    def __gt__(self, o):
        return self.v > self._of(o)

    def __ge__(self, o):
        return self.v >= self._of(o)

    def __eq__(self, o):
        return self.v == self._of(o)

    __radd__ = __add__

    def __rsub__(self, o):
        return Towards(self.c, self._of(o) - self.v)

    def __rmod__(self, o):
        return Towards(self.c, self._of(o)) % self

    __hash__ = None


@UNITS.unit(reach=('below', 'inside', 'above'), weight=4)
def remainder(c):
    """Cyclic does not rely on which sign the remainder has"""
    R = c.R
    lo, n = c.int('lo'), c.int('v')
    p = c.choice('period', (1, 2, 7, 360))
    which = c.choice('wrapped', ('bounds', 'value', 'both'))
    w = lambda x: Towards(c, x)
    tok = R.Cyclic(w(lo), w(lo + p)) if which != 'value' else R.Cyclic(lo, lo + p)
    v = w(n) if which != 'bounds' else n
    A = c.record('A', {'x': annot(R, object, tok)}, unary_parse=False)
    o = c.attempt(lambda: A(x=v))
    c.check('stored', o.ok)
    got = o.value.x
    g = got.v if isinstance(got, Towards) else got
    c.check('inside the interval', c.And(lo <= g, g < lo + p))
    c.check('a whole number of periods away', c.eq((n - g) % p, 0))
    if c.fork(c.And(lo <= n, n < lo + p)):
        c.check('the value itself', got is v if isinstance(v, Towards) else c.same(got, v))
        c.reach('inside')
    else:
        c.reach('below' if c.fork(n < lo) else 'above')


@UNITS.unit(reach=('below', 'inside', 'above'), weight=3)
def other_numbers(c):
    """decimals and time spans"""
    import datetime
    from decimal import Decimal as D
    R = c.R
    kind = c.choice('kind', ('decimal', 'span', 'decimal value', 'decimal bounds'))
    mk = {'decimal': (lambda x: D(x) / 4,) * 2, 'span': (lambda x: datetime.timedelta(seconds=x * 15),) * 2, 'decimal value': (lambda x: x, lambda x: D(x)), 'decimal bounds': (lambda x: D(x), lambda x: x)}[kind]
    lo, hi = c.choice('interval', ((0, 360), (-180, 180), (7, 9), (-10, -3), (0, 1)))
    n = c.choice('value', (-10 ** 6, -541, -540, -361, -360, -359, -191, -181, -180, -179, -11, -10, -9, -3, -2, -1, 0, 1, 6, 7, 8, 9, 10, 179, 180, 181, 359, 360, 361, 719, 720, 10 ** 6))
    b, m = mk
    v = m(n)
    A = c.record('A', {'x': annot(R, object, R.Cyclic(b(lo), b(hi))), 'y': Dflt(annot(R, object, R.Clamp(b(lo), b(hi))), None)}, unary_parse=False)
    o = c.attempt(lambda: A(x=v, y=v))
    c.check('stored', o.ok)
    r = o.value
    c.check('inside the interval', b(lo) <= r.x < b(hi))
    want = lo + (n - lo) % (hi - lo)
    c.check('a whole number of periods away', r.x == m(want))
    if lo <= n < hi:
        c.check('the value itself', r.x is v)
    c.check('clamped', r.y == m(min(max(n, lo), hi)) and (not lo <= n <= hi or r.y is v))
    c.reach('below' if n < lo else 'above' if n >= hi else 'inside')
