"""C23: numeric coercers convert without losing or inventing value."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('Whole on arbitrary integers, rationals (denominators 1-7; denominators up to 10**18 next to integers), doubles (|v| < 2**52, NaN, infinities), complex numbers, booleans, integer subclasses and objects of every other type of the universe; '
          'FromInteger on the same; ToBytes on integers below 2**40 in absolute value with every length 0-6 (or none), byte order and signedness; fields checked and strictly checked')
OUTSIDE = 'doubles within rounding distance of an integer (2e-9 on either side) may be accepted or refused by Whole, but if accepted become that integer; -1 as a signed integer of length 0 (int.to_bytes itself gives the empty string); numbers that are not ints, floats, Fractions or complex; Whole on fields whose type is not an integer type'


def field(c, R, hint, tok, *extra):
    where = c.choice('where', c.P.get('where', ('plain', 'list', 'second', 'twice')))
    h = annot(R, hint, *extra, tok)
    if where == 'list':
        A = c.record('A', {'x': annot(R, List[h], R.check)}, unary_parse=False)
        return lambda v: A(x=[v]).x[0]
    if where == 'second':
        def no(v):
            raise TypeError
        h = annot(R, hint, *extra, R.CallCoercion(no), tok)
    A = c.record('A', {'x': h}, unary_parse=False)
    if where == 'twice':
        return lambda v: (A(x=v), A(x=v).x)[1]
    return lambda v: A(x=v).x


def target(c, R):
    t = c.choice('target', c.P.get('targets', ('int', 'strict int', 'ISub')))
    cls = U.ISub if t == 'ISub' else int
    return cls, (R.check_strict if t == 'strict int' else R.check)


def whole(c):
    R = c.R
    cls, st = target(c, R)
    mk = field(c, R, cls, c.choice('token', (R.Whole, R.Whole())), st)
    kind = c.choice('kind', c.P['kinds'])
    if kind == 'int':
        v = c.int('v')
    elif kind == 'rat':
        v = c.rat('v', dens=c.P.get('dens', (1, 2, 3, 7)))
    elif kind == 'obj':
        v = c.obj('v', ('bool', 'ISub', 'int'))
    o = c.attempt(lambda: mk(v))
    if kind == 'rat' and not c.fork(c.eq(v.denominator, 1)):
        c.check('not whole: refused', o.raised(TypeError))
        c.reach('refused')
        return
    c.check('accepted', o.ok)
    c.check('the integer it is equal to', c.eq(o.value, v))
    c.check('of the type', c.is_inst(o.value, cls) if st is R.check else c.is_type(o.value, cls))
    c.reach('accepted')


UNITS.add('Whole ints', whole, kinds=('int',), targets=('int', 'strict int'), reach=('accepted',), weight=3)
UNITS.add('Whole rationals', whole, kinds=('rat',), targets=('int', 'strict int'), reach=('accepted', 'refused'), weight=3)


def close_rational(c):
    """exact numbers next to an integer, but not equal to it"""
    R = c.R
    mk = field(c, R, int, R.Whole, R.check)
    den = c.choice('den', (10 ** 9 + 7, 10 ** 12, 2 ** 60, 10 ** 18))
    k = c.int('k', -10 ** 6, 10 ** 6)
    v = c.rat('v', lo=-10 ** 30, hi=10 ** 30, dens=(den,))
    c.assume(c.Or(c.eq(v.numerator, k * den + 1), c.eq(v.numerator, k * den - 1)))
    c.check('refused', c.attempt(lambda: mk(v)).raised(TypeError))
    c.reach('refused')


UNITS.add('Whole rationals next to integers', close_rational, where=('plain',), reach=('refused',), weight=3)
UNITS.add('Whole objects', whole, kinds=('obj',), reach=('accepted',), weight=5)


def near(c, v, label, o, cls):
    """v: a finite double"""
    n = round_(c, v)
    if c.fork(c.eq(v, n)):
        c.check(label + ': equal to an integer: accepted', o.ok)
        c.check(label + ': that integer', c.And(c.eq(o.value, v), c.is_type(o.value, cls)))
        c.reach('accepted')
        return
    d = v - n
    if c.fork(c.Or(d > 2e-9, d < -2e-9)):
        c.check(label + ': not near an integer: refused', o.raised(TypeError))
        c.reach('refused')
        return
    c.reach('near')
    if o.ok:
        c.check(label + ': the nearest integer', c.And(c.eq(o.value, n), c.is_type(o.value, cls)))


def round_(c, v):
    return v.__round__()


LIM = 2.0 ** 52


def whole_float(c):
    R = c.R
    cls, st = int, c.choice('style', c.P.get('styles', ('check', 'strict')))
    st = style(R, st)
    mk = field(c, R, cls, R.Whole, st)
    special = c.choice('special', (None, float('nan'), float('inf'), float('-inf'), 1e300, -1e22, 0.5, -0.0))
    if special is not None:
        o = c.attempt(lambda: mk(special))
        if special != special or special in (float('inf'), float('-inf'), 0.5):
            c.check('refused', o.raised(TypeError))
        else:
            c.check('the integer', o.ok and type(o.value) is int and o.value == special)
        return
    v = c.flt('v', lo=-LIM, hi=LIM)
    near(c, v, 'Whole', c.attempt(lambda: mk(v)), cls)


UNITS.add('Whole doubles', whole_float, where=('plain',), styles=('check',), reach=('accepted', 'refused', 'near'), weight=20)
UNITS.add('Whole doubles everywhere', whole_float, reach=('accepted', 'refused', 'near'), weight=60, tier='thorough')


def whole_complex(c):
    R = c.R
    mk = field(c, R, int, R.Whole, R.check)
    v = c.cplx('v')
    re, im = v.real, v.imag
    c.assume(c.And(re >= -LIM, re <= LIM))
    o = c.attempt(lambda: mk(v))
    if c.fork(c.Not(c.eq(im, 0))):
        c.check('an imaginary part: refused', o.raised(TypeError))
        c.reach('imaginary')
        return
    near(c, re, 'Whole', o, int)


UNITS.add('Whole complex', whole_complex, where=('plain',), reach=('accepted', 'refused', 'imaginary'), weight=20)

NOT_NUMBERS = tuple(t for t in ALL if t not in ('int', 'bool', 'ISub', 'float'))


@UNITS.unit(reach=('done',), weight=5)
def not_numbers(c):
    R = c.R
    which = c.choice('coercer', ('Whole', 'FromInteger', 'ToBytes', 'ToBytes(2)'))
    v = c.obj('v', NOT_NUMBERS)
    if which == 'Whole':
        h = annot(R, int, R.check, R.Whole)
    elif which == 'FromInteger':
        h = annot(R, bool, R.check, R.FromInteger())
    else:
        c.assume(c.Not(c.is_type(v, bytes)))
        h = annot(R, bytes, R.check, to_bytes_token(R)(**({} if which == 'ToBytes' else {'length': 2, 'byteorder': 'big'})))
    A = c.record('A', {'x': h}, unary_parse=False)
    c.check('refused', c.attempt(lambda: A(x=v)).raised())
    c.reach('done')


def from_integer(c):
    R = c.R
    kind = c.choice('kind', c.P['kinds'])
    mk = field(c, R, bool, c.choice('token', (R.FromInteger, R.FromInteger())), c.choice('style', (R.check, R.check_strict)))
    v = c.int('v') if kind == 'int' else c.rat('v', dens=(1, 2)) if kind == 'rat' else c.flt('v') if kind == 'flt' else c.cplx('v') if kind == 'cplx' else c.obj('v', ('int', 'bool', 'ISub', 'float'))
    o = c.attempt(lambda: mk(v))
    if c.fork(c.eq(v, 0)):
        c.check('0: False', o.ok and c.same(o.value, False))
        c.reach('zero')
    elif c.fork(c.eq(v, 1)):
        c.check('1: True', o.ok and c.same(o.value, True))
        c.reach('one')
    else:
        c.check('others are refused', o.raised(TypeError))
        c.reach('other')


UNITS.add('FromInteger', from_integer, kinds=('int', 'rat', 'flt', 'cplx', 'obj'), where=('plain', 'twice'), reach=('zero', 'one', 'other'), weight=10)
UNITS.add('FromInteger placed', from_integer, kinds=('int', 'obj'), reach=('zero', 'one', 'other'), weight=6)


def to_bytes_token(R):
    return R.fillers.builtin_fillers.std_fillers.ToBytes


def to_bytes(c):
    R = c.R
    cls = c.choice('target', c.P.get('targets', (bytes, bytearray)))
    length = c.choice('length', c.P['lengths'])
    order = c.choice('order', (None, 'big', 'little'))
    signed = c.choice('signed', (None, False, True))
    kw, args = {}, ()
    if signed is not None:
        kw['signed'] = signed
    if length is not None and c.choice('positional', (False, True)):
        args = (length,) if order is None else (length, order)
    else:
        if order is not None:
            kw['byteorder'] = order
        if length is not None:
            kw['length'] = length
    mk = field(c, R, cls, to_bytes_token(R)(*args, **kw), R.check)
    v = c.int('v', lo=-(2 ** c.P['bits']) + 1, hi=2 ** c.P['bits'] - 1)
    o = c.attempt(lambda: mk(v))
    if not signed and c.fork(v < 0):
        c.check('a negative integer without sign is refused', o.raised())
        c.reach('negative')
        return
    if signed and length == 0:
        c.assume(c.Not(c.eq(v, -1)))     # CPython itself encodes -1 in no bytes
    if length is not None:
        top = 2 ** (8 * length)
        fits = c.And(v >= -top // 2, v < top // 2) if signed and length else c.And(v >= 0, v < top)
        if not c.fork(fits):
            c.check('what does not fit is refused', o.raised())
            c.reach('too big')
            return
    c.check('accepted', o.ok)
    bs = list(o.value)
    c.check('of the type', c.is_type(o.value, cls))
    c.check('of the length', length is None or len(bs) == length)
    if order == 'little':
        bs.reverse()
    n = 0
    for b in bs:
        n = n * 256 + b
    if signed and bs and c.fork(bs[0] >= 128):
        n = n - 256 ** len(bs)
    c.check('decodes to the integer', c.eq(n, v))
    c.reach('encoded')


UNITS.add('ToBytes', to_bytes, lengths=(None,), bits=24, where=('plain',), reach=('encoded', 'negative'), weight=20)
UNITS.add('ToBytes with a length', to_bytes, lengths=(0, 1, 2, 4), bits=40, where=('plain',), reach=('encoded', 'negative', 'too big'), weight=20)
UNITS.add('ToBytes placed', to_bytes, lengths=(None, 1), bits=10, reach=('encoded', 'negative', 'too big'), weight=20)
UNITS.add('ToBytes deep', to_bytes, lengths=(None, 0, 1, 2, 3, 4, 5, 6), bits=39, reach=('encoded', 'negative', 'too big'), weight=90, tier='thorough')


@UNITS.unit(reach=('refused', 'encoded'), weight=5)
def to_bytes_others(c):
    """numbers that are not integers are refused, even if whole; booleans are integers"""
    R = c.R
    kind = c.choice('kind', ('rat', 'flt', 'cplx', 'bool'))
    kw = c.choice('kw', ({}, {'length': 2, 'byteorder': 'big'}, {'signed': True}))
    A = c.record('A', {'x': annot(R, bytes, R.check, to_bytes_token(R)(**kw))}, unary_parse=False)
    if kind == 'bool':
        v = c.choice('b', (False, True))
        n = 2 if 'length' in kw else 1 if v else (1 if 'signed' in kw else 0)
        r = A(x=v).x
        c.check('encoded', int.from_bytes(r, 'big') == v and (len(r) == n or 'length' not in kw))
        c.reach('encoded')
        return
    v = c.rat('v', dens=(1, 2)) if kind == 'rat' else c.flt('v') if kind == 'flt' else c.cplx('v')
    c.check('refused', c.attempt(lambda: A(x=v)).raised())
    c.reach('refused')
