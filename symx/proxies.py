"""Symbolic values and the primitives the instrumented code uses on them."""
import ast as _ast
import builtins
import fractions
import json as _json
import math
import pickle as _pickle
import re as _re
import types
from collections import ChainMap, OrderedDict, defaultdict, deque

import z3

from . import universe as U
from .engine import EngineError, Unsupported

ENG = None      # the running Engine
CTX = None      # the running Ctx
VID_TID = z3.Function('tid', z3.IntSort(), z3.IntSort())
VID_EQC = z3.Function('eqc', z3.IntSort(), z3.IntSort())
VID_TRUTH = z3.Function('truth', z3.IntSort(), z3.BoolSort())
HASH = z3.Function('hash', z3.IntSort(), z3.IntSort(), z3.IntSort())  # (process epoch, eqc)
HASHC = [z3.Function('hashc%d' % n, *([z3.IntSort()] * (n + 2))) for n in range(33)]  # (shape, parts...) -> hash

F64 = z3.Float64()
RNE = z3.RNE()


def B(x):
    """z3 Bool of a bool / SymBool."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise TypeError(x)


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class Sym:
    __slots__ = ('run',)
    __hash__ = None

    def __init__(self):
        self.run = CTX.run_id

    def _live(self):
        if self.run != CTX.run_id:
            raise ENG._fail(EngineError('a symbolic value leaked from an earlier path'))

    def __reduce_ex__(self, p):
        return CTX.pickle_token(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ('e',)
    pytype = bool

    def __init__(self, e):
        super().__init__()
        self.e = e

    def __bool__(self):
        self._live()
        return ENG.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == B(o))
        if isinstance(o, (int, SymInt)):
            return SymInt(self.as_int()) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return z3.If(self.e, z3.IntVal(1), z3.IntVal(0))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, B(o)))
        return SymInt(self.as_int()) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, B(o)))
        return SymInt(self.as_int()) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, B(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __repr__(self):
        return CTX.repr_token(self)

    def __reduce_ex__(self, p):
        return (bool, (bool(self),))

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(SymInt(self.as_int()), n)


def _b_arith(name):
    def f(self, o):
        return getattr(SymInt(self.as_int()), name)(o)
    f.__name__ = name
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__', '__ge__',
           '__mod__', '__rmod__', '__floordiv__', '__rfloordiv__'):
    setattr(SymBool, _n, _b_arith(_n))


def neg(x):
    if isinstance(x, bool):
        return not x
    return mkbool(z3.Not(B(x)))


def conj(*xs):
    xs = [B(x) for x in xs]
    return mkbool(z3.simplify(z3.And(*xs))) if xs else True


def disj(*xs):
    xs = [B(x) for x in xs]
    return mkbool(z3.simplify(z3.Or(*xs))) if xs else False


# ---------------------------------------------------------------------------------------------------- numbers
def _num(o):
    """(kind, expr) of a number operand, kind in 'i', 'r', 'f'; None if it is not a number."""
    if isinstance(o, SymInt):
        return 'i', o.e
    if isinstance(o, SymBool):
        return 'i', o.as_int()
    if isinstance(o, SymRat):
        return 'r', o.e
    if isinstance(o, SymFloat):
        return 'f', o.e
    if isinstance(o, bool):
        return 'i', z3.IntVal(int(o))
    if isinstance(o, int):
        return 'i', z3.IntVal(int(o))
    if isinstance(o, fractions.Fraction):
        return 'r', z3.Q(o.numerator, o.denominator)
    if isinstance(o, float):
        return 'f', z3.FPVal(o, F64)
    return None


def _to_fp(kind, e):
    if kind == 'f':
        return e
    k, c = _as_fp((kind, e))
    if k == 'f':
        return c
    if kind == 'i':
        # int -> double conversion, round to nearest even (exact below 2**53, where our bounds are)
        return z3.fpToFP(RNE, z3.ToReal(e), F64)
    return z3.fpToFP(RNE, e, F64)


def _join(a, b):
    ka, ea = a
    kb, eb = b
    if ka == kb:
        return ka, ea, eb
    if 'f' in (ka, kb):
        return 'f', _to_fp(ka, ea), _to_fp(kb, eb)
    return 'r', (z3.ToReal(ea) if ka == 'i' else ea), (z3.ToReal(eb) if kb == 'i' else eb)


def _as_fp(side):
    """A constant number that a double represents exactly, as that double."""
    k, e = side
    if k == 'i' and z3.is_int_value(e):
        n = e.as_long()
    elif k == 'r' and z3.is_rational_value(e):
        n = e.as_fraction()
    else:
        return side
    try:
        f = float(n)
    except OverflowError:
        return side
    return ('f', z3.FPVal(f, F64)) if f == n else side


def _cmp_exact(a, b, op):
    """Comparison; int/rational against double is exact in Python, so compare in the reals (NaN/inf apart)."""
    if 'f' in (a[0], b[0]):
        a, b = _as_fp(a), _as_fp(b)
    ka, ea = a
    kb, eb = b
    if ka == kb == 'f':
        return {'lt': z3.fpLT, 'le': z3.fpLEQ, 'eq': z3.fpEQ}[op](ea, eb)
    if 'f' in (ka, kb):
        f = ea if ka == 'f' else eb
        ra = z3.fpToReal(ea) if ka == 'f' else (z3.ToReal(ea) if ka == 'i' else ea)
        rb = z3.fpToReal(eb) if kb == 'f' else (z3.ToReal(eb) if kb == 'i' else eb)
        core = {'lt': ra < rb, 'le': ra <= rb, 'eq': ra == rb}[op]
        posinf = z3.And(z3.fpIsInf(f), z3.fpIsPositive(f))
        neginf = z3.And(z3.fpIsInf(f), z3.fpIsNegative(f))
        if op == 'eq':
            inf = z3.BoolVal(False)
        else:  # a < b with the infinite one on either side
            inf = neginf if ka == 'f' else posinf
        return z3.And(z3.Not(z3.fpIsNaN(f)), z3.If(z3.fpIsInf(f), inf, core))
    k, x, y = _join(a, b)
    return {'lt': x < y, 'le': x <= y, 'eq': x == y}[op]


def _wrap(kind, e):
    if kind == 'i':
        return SymInt(e)
    if kind == 'r':
        return SymRat(e)
    return SymFloat(e)


def _arith(op, a, b):
    """Python's a op b for two number operands (kind, expr)."""
    k, x, y = _join(a, b)
    if op == 'add':
        return _wrap(k, z3.fpAdd(RNE, x, y) if k == 'f' else x + y)
    if op == 'sub':
        return _wrap(k, z3.fpSub(RNE, x, y) if k == 'f' else x - y)
    if op == 'mul':
        return _wrap(k, z3.fpMul(RNE, x, y) if k == 'f' else x * y)
    if op == 'truediv':
        if k == 'f':
            if ENG.branch(z3.fpIsZero(y)):
                raise ZeroDivisionError('float division by zero')
            return _wrap('f', z3.fpDiv(RNE, x, y))
        if ENG.branch(y == 0):
            raise ZeroDivisionError('division by zero')
        if k == 'i':
            return _wrap('f', _to_fp('r', z3.ToReal(x) / z3.ToReal(y)))
        return _wrap('r', x / y)
    if op in ('mod', 'floordiv'):
        if k == 'f':
            if ENG.branch(z3.fpIsZero(y)):
                raise ZeroDivisionError('float modulo')
            return _fmod(x, y) if op == 'mod' else _unsupported('float floor division')
        if ENG.branch(y == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if k == 'i':
            if z3.is_int_value(z3.simplify(y)):
                n = z3.simplify(y).as_long()
                if n > 0:
                    return _wrap('i', x % n if op == 'mod' else x / n)
                # floor semantics for negative divisors
                m = -((-x) % (-n))
                return _wrap('i', m if op == 'mod' else (x - m) / n)
        return _mod_by_symbol(k, x, y, op)
    raise EngineError(op)


def _mod_by_symbol(k, x, y, op):
    """q = floor(x / y), r = x - y*q by their defining property (q fresh)."""
    q = CTX.fresh_int('q')
    yq = y * (q if k == 'i' else z3.ToReal(q))
    r = x - yq
    ENG.assume(z3.If(y > 0, z3.And(r >= 0, r < y), z3.And(r <= 0, r > y)))
    return _wrap(k, r) if op == 'mod' else _wrap('i', q)


def _fmod(x, y):
    """Python's float modulo.  Exact for a constant divisor of 1; otherwise by its contract:
    nan for nan/inf operands; else a double r with sign of y (or zero) and 0 <= |r| <= |y|: CPython computes
    fmod(x, y) exactly and adds y when the signs differ, and that addition may round up to y itself."""
    ys = z3.simplify(y)
    nan = z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x), z3.fpIsNaN(y))
    if z3.is_fp_value(ys) and not (ys.isNaN() or ys.isInf()) and _fp_py(ys) == 1.0:
        whole = z3.fpRoundToIntegral(z3.RTZ(), x)
        m = z3.fpSub(RNE, x, whole)  # exact
        one = z3.FPVal(1.0, F64)
        r = z3.If(z3.fpLT(m, z3.FPVal(0.0, F64)), z3.fpAdd(RNE, m, one),
                  z3.If(z3.fpIsZero(m), z3.FPVal(0.0, F64), m))
        return SymFloat(z3.If(nan, z3.fpNaN(F64), r))
    # exact through integer multiples is out of reach of the solver: use CPython's own definition with an
    # uninterpreted exact remainder m, |m| < |y|, sign of x, m == x when |x| < |y|
    m = CTX.fresh_fp('fmod')
    zero = z3.FPVal(0.0, F64)
    ax, ay, am = z3.fpAbs(x), z3.fpAbs(y), z3.fpAbs(m)
    ENG.assume(z3.And(z3.Not(z3.fpIsNaN(m)), z3.fpLT(am, ay),
                      z3.Implies(z3.fpLT(ax, ay), z3.fpEQ(m, x)),
                      z3.Implies(z3.Not(z3.fpIsZero(m)), z3.fpIsNegative(m) == z3.fpIsNegative(x)),
                      z3.fpLEQ(am, ax)) if True else True)
    diff = z3.And(z3.Not(z3.fpIsZero(m)), z3.fpIsNegative(m) != z3.fpIsNegative(y))
    r = z3.If(diff, z3.fpAdd(RNE, m, y), z3.If(z3.fpIsZero(m), z3.If(z3.fpIsNegative(y), z3.FPVal(-0.0, F64), zero), m))
    return SymFloat(z3.If(nan, z3.fpNaN(F64), z3.If(z3.fpIsInf(y), z3.fpNaN(F64), r)))


def _unsupported(what):
    raise Unsupported('not modelled: ' + what)


def _fp_py(v):
    """Python float of a z3 FP value."""
    import struct
    v = z3.simplify(v)
    if v.isNaN():
        return float('nan')
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack('<d', struct.pack('<Q', bv.as_long()))[0]


def _pair(a, b):
    """Two number operands; an int that came from a double meets doubles (and its like) as the double it equals."""
    na, nb = _num(a), _num(b)
    if nb is None:
        return na, None
    fa, fb = getattr(a, 'fp', None) if isinstance_n(a, SymIntBV) else None, b.fp if isinstance_n(b, SymIntBV) else None
    if fa is not None and (fb is not None or nb[0] == 'f'):
        na = 'f', fa
    if fb is not None and (fa is not None or na[0] == 'f'):
        nb = 'f', fb
    return na, nb


class SymNum(Sym):
    __slots__ = ('e',)
    kind = None

    def __init__(self, e):
        super().__init__()
        self.e = e

    def _n(self):
        return self.kind, self.e

    def _op(self, o, op, swap=False):
        self._live()
        me, n = _pair(self, o)
        if n is None:
            return NotImplemented
        if me[0] == n[0] == 'f' and isinstance_n(self, SymIntBV) and isinstance_n(o, SymIntBV):
            me, n = self._n(), _num(o)
        return _arith(op, n, me) if swap else _arith(op, me, n)

    def __add__(self, o): return self._op(o, 'add')
    def __radd__(self, o): return self._op(o, 'add', True)
    def __sub__(self, o): return self._op(o, 'sub')
    def __rsub__(self, o): return self._op(o, 'sub', True)
    def __mul__(self, o): return self._op(o, 'mul')
    def __rmul__(self, o): return self._op(o, 'mul', True)
    def __truediv__(self, o): return self._op(o, 'truediv')
    def __rtruediv__(self, o): return self._op(o, 'truediv', True)
    def __mod__(self, o): return self._op(o, 'mod')
    def __rmod__(self, o): return self._op(o, 'mod', True)
    def __floordiv__(self, o): return self._op(o, 'floordiv')
    def __rfloordiv__(self, o): return self._op(o, 'floordiv', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return _wrap(self.kind, z3.fpNeg(self.e) if self.kind == 'f' else -self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind == 'f':
            return SymFloat(z3.fpAbs(self.e))
        return _wrap(self.kind, z3.If(self.e < 0, -self.e, self.e))

    def _c(self, o, op, swap=False):
        self._live()
        me, n = _pair(self, o)
        if n is None:
            return NotImplemented
        return mkbool(z3.simplify(_cmp_exact(n, me, op) if swap else _cmp_exact(me, n, op)))

    def __lt__(self, o): return self._c(o, 'lt')
    def __le__(self, o): return self._c(o, 'le')
    def __gt__(self, o): return self._c(o, 'lt', True)
    def __ge__(self, o): return self._c(o, 'le', True)

    def __eq__(self, o):
        if o is self and self.kind != 'f':
            return True
        return self._c(o, 'eq')

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __bool__(self):
        self._live()
        if self.kind == 'f':
            return ENG.branch(z3.Not(z3.fpIsZero(self.e)))
        return ENG.branch(self.e != 0)

    def __hash__(self):
        return 0x5E  # native containers compare by ==, which forks

    def __repr__(self):
        return CTX.repr_token(self)

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        return CTX.pickle_token(self)

    # numbers.* protocol pieces
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self


class SymInt(SymNum):
    __slots__ = ()
    kind = 'i'
    pytype = int
    denominator = 1

    @property
    def numerator(self):
        return self

    def __index__(self):
        return ENG.fork_value(self.e)

    def __int__(self):
        return ENG.fork_value(self.e)

    def __float__(self):
        return float(ENG.fork_value(self.e))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        a = z3.If(self.e < 0, -self.e, self.e)
        K = CTX.int_bits
        if ENG.branch(a >= 2 ** K):
            _unsupported('bit_length beyond %d bits' % K)
        return SymInt(z3.Sum([z3.If(a >= 2 ** i, 1, 0) for i in range(K)]))

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        n = length.__index__()
        if isinstance(byteorder, Sym):
            _unsupported('symbolic byte order')
        if n < 0:
            raise ValueError('length argument must be non-negative')
        if byteorder not in ('big', 'little'):
            raise ValueError("byteorder must be either 'little' or 'big'")
        if not bool(signed):
            if ENG.branch(self.e < 0):
                raise OverflowError("can't convert negative int to unsigned")
            fits = self.e < 2 ** (8 * n)
        elif n == 0:
            fits = z3.Or(self.e == 0, self.e == -1)      # what CPython accepts
        else:
            fits = z3.And(self.e >= -(2 ** (8 * n - 1)), self.e < 2 ** (8 * n - 1))
        if not ENG.branch(fits):
            raise OverflowError('int too big to convert')
        v = z3.If(self.e < 0, self.e + 2 ** (8 * n), self.e)
        parts = [SymInt((v / (2 ** (8 * i))) % 256) for i in range(n)]
        if byteorder == 'big':
            parts.reverse()
        return SymBytes(parts)

    def __and__(self, o):
        return ENG.fork_value(self.e) & o

    __rand__ = __and__

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 3 and m is None:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return SymInt(r)
        return pow(ENG.fork_value(self.e), o, m)


class SymRat(SymNum):
    """A rational.  num/den (coprime ints) are known only for declared ones."""
    __slots__ = ('num', 'den')
    kind = 'r'
    pytype = fractions.Fraction

    def __init__(self, e, num=None, den=None):
        super().__init__(e)
        self.num = num
        self.den = den

    @property
    def numerator(self):
        if self.num is None:
            _unsupported('numerator of a computed rational')
        return self.num

    @property
    def denominator(self):
        if self.den is None:
            _unsupported('denominator of a computed rational')
        return self.den

    def __trunc__(self):
        t = z3.ToInt(self.e)
        return SymInt(z3.If(z3.And(self.e < 0, z3.ToReal(t) != self.e), t + 1, t))

    __int__ = None

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __round__(self, n=None):
        if n is not None:
            _unsupported('round to digits')
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        up = z3.Or(d > z3.Q(1, 2), z3.And(d == z3.Q(1, 2), f % 2 == 1))
        return SymInt(z3.If(up, f + 1, f))

    def limit_denominator(self, *a):
        _unsupported('limit_denominator')

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


class SymFloat(SymNum):
    __slots__ = ()
    kind = 'f'
    pytype = float

    def _finite_or_raise(self):
        if ENG.branch(z3.fpIsNaN(self.e)):
            raise ValueError('cannot convert float NaN to integer')
        if ENG.branch(z3.fpIsInf(self.e)):
            raise OverflowError('cannot convert float infinity to integer')

    def _rounded(self, rm):
        """Integer value of the double rounded with rm, as SymInt (the double is bounded by CTX.float_bound)."""
        self._finite_or_raise()
        r = z3.fpRoundToIntegral(rm, self.e)
        bits = CTX.float_bits
        lim = z3.FPVal(float(2 ** (bits - 2)), F64)
        if not ENG.branch(z3.fpLEQ(z3.fpAbs(self.e), lim)):
            _unsupported('integer part of a double beyond the stated bound')
        bv = z3.fpToSBV(rm, r, z3.BitVecSort(bits))
        return SymIntBV(z3.BV2Int(bv, is_signed=True), bv, r)

    def __trunc__(self):
        return self._rounded(z3.RTZ())

    def __floor__(self):
        return self._rounded(z3.RTN())

    def __ceil__(self):
        return self._rounded(z3.RTP())

    def __round__(self, n=None):
        if n is not None:
            _unsupported('round to digits')
        return self._rounded(z3.RNE())

    def is_integer(self):
        return mkbool(z3.And(z3.Not(z3.fpIsNaN(self.e)), z3.Not(z3.fpIsInf(self.e)),
                             z3.fpEQ(self.e, z3.fpRoundToIntegral(z3.RTZ(), self.e))))

    def __float__(self):
        return _fp_py(ENG.pin_value(self.e))


class SymIntBV(SymInt):
    """An int that came from a double: keeps the integral double it equals, so comparisons stay in floating point."""
    __slots__ = ('bv', 'fp')

    def __init__(self, e, bv, fp):
        super().__init__(e)
        self.bv = bv
        self.fp = fp


class SymComplex(Sym):
    __slots__ = ('re_', 'im_')
    pytype = complex

    def __init__(self, re_, im_):
        super().__init__()
        self.re_ = re_
        self.im_ = im_

    @property
    def real(self):
        return self.re_

    @property
    def imag(self):
        return self.im_

    def __eq__(self, o):
        if isinstance(o, (complex, SymComplex)):
            return conj(self.re_ == o.real, self.im_ == o.imag)
        if _num(o) is not None:
            return conj(self.im_ == 0, self.re_ == o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __bool__(self):
        return bool(disj(self.re_ != 0, self.im_ != 0))

    def __hash__(self):
        return 0x5E

    def __repr__(self):
        return CTX.repr_token(self)

    def __mod__(self, o):
        raise TypeError('unsupported operand type(s) for %')

    def __getattr__(self, n):
        raise AttributeError(n)


class SymBytes(Sym):
    """A byte string of known length with symbolic bytes."""
    __slots__ = ('parts',)
    pytype = bytes

    def __init__(self, parts):
        super().__init__()
        self.parts = list(parts)

    def __len__(self):
        return len(self.parts)

    def __iter__(self):
        return iter(self.parts)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.parts[i])
        return self.parts[i]

    def __hash__(self):
        return 0x5E

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            if len(o) != len(self.parts):
                return False
            return conj(*[a == b for a, b in zip(self.parts, o)])
        return NotImplemented

    def __repr__(self):
        return CTX.repr_token(self)


class SymByteArray(SymBytes):
    __slots__ = ()
    pytype = bytearray


# ---------------------------------------------------------------------------------------------------- strings
class SymStr(Sym):
    __slots__ = ('e', 'maxlen')
    pytype = str

    def __init__(self, e, maxlen=8):
        super().__init__()
        self.e = e
        self.maxlen = maxlen

    @staticmethod
    def _lt(a, b, n):
        """a < b for strings of which the shorter has up to n characters (unrolled: z3's own order on strings gives
        models that do not satisfy it)"""
        code = lambda s, i: z3.StrToCode(z3.SubString(s, z3.IntVal(i), z3.IntVal(1)))
        res = z3.BoolVal(False)
        for i in reversed(range(n + 1)):
            x, y = code(a, i), code(b, i)
            res = z3.Or(x < y, z3.And(x == y, x >= 0, res))
        return res

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return mkbool(self.e == o.e)
        if isinstance(o, str):
            return mkbool(self.e == z3.StringVal(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def _order(self, o, strict, swap):
        if isinstance(o, SymStr):
            e, n = o.e, min(self.maxlen, o.maxlen)
        elif isinstance(o, str):
            e, n = z3.StringVal(o), min(self.maxlen, len(o))
        else:
            return NotImplemented
        a, b = (e, self.e) if swap else (self.e, e)
        return mkbool(self._lt(a, b, n) if strict else z3.Not(self._lt(b, a, n)))

    def __lt__(self, o):
        return self._order(o, True, False)

    def __le__(self, o):
        return self._order(o, False, False)

    def __gt__(self, o):
        return self._order(o, True, True)

    def __ge__(self, o):
        return self._order(o, False, True)

    def __hash__(self):
        return 0x5E

    def __bool__(self):
        return ENG.branch(z3.Length(self.e) != 0)

    def __len__(self):
        return ENG.fork_value(z3.Length(self.e))

    def __repr__(self):
        return CTX.repr_token(self)

    def __str__(self):
        return '<sym str>'

    def __format__(self, spec):
        return '<sym str>'

    def __deepcopy__(self, memo):
        return self

    def realise(self):
        return CTX.str_value(ENG.pin_value(self.e))

    def startswith(self, p, *a):
        if a or not isinstance(p, str):
            return self.realise().startswith(p, *a)
        return mkbool(z3.PrefixOf(z3.StringVal(p), self.e))

    def endswith(self, p, *a):
        if a or not isinstance(p, str):
            return self.realise().endswith(p, *a)
        return mkbool(z3.SuffixOf(z3.StringVal(p), self.e))

    def __contains__(self, p):
        return ENG.branch(z3.Contains(self.e, z3.StringVal(p)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.realise(), n)

    def __getitem__(self, i):
        return self.realise()[i]

    def __iter__(self):
        return iter(self.realise())


class _Regex:
    """Python regular expressions as z3 regular expressions (the subset the harness patterns use)."""

    def __init__(self, pattern):
        self.pat = pattern
        self.ok = True
        try:
            from re import _parser as sre
        except ImportError:  # pragma: no cover
            import sre_parse as sre
        self.ci = bool(pattern.flags & _re.IGNORECASE)
        self.dotall = bool(pattern.flags & _re.DOTALL)
        self.anchor_end = None
        try:
            if pattern.flags & (_re.MULTILINE | _re.VERBOSE | _re.LOCALE) or isinstance(pattern.pattern, bytes):
                raise NotImplementedError('flags')
            seq = list(sre.parse(pattern.pattern, pattern.flags & ~_re.UNICODE))
            if seq and str(seq[0][0]) == 'AT' and str(seq[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                seq = seq[1:]
                self.anchor_start = True
            else:
                self.anchor_start = False
            if seq and str(seq[-1][0]) == 'AT' and str(seq[-1][1]) in ('AT_END', 'AT_END_STRING'):
                self.anchor_end = str(seq[-1][1])
                seq = seq[:-1]
            self.re = self.seq(seq)
        except NotImplementedError:
            self.ok = False

    S = z3.StringSort()

    def eps(self):
        return z3.Re(z3.StringVal(''))

    def anychar(self):
        return z3.AllChar(z3.ReSort(self.S))

    def chars(self, lo, hi):
        r = z3.Range(z3.StringVal(chr(lo)), z3.StringVal(chr(hi)))
        if self.ci:
            extra = [c for c in range(lo, hi + 1) if chr(c).swapcase() != chr(c)]
            if hi - lo < 300:
                for c in extra:
                    r = z3.Union(r, z3.Re(z3.StringVal(chr(c).swapcase())))
        return r

    def seq(self, items):
        parts = [self.item(op, av) for op, av in items]
        if not parts:
            return self.eps()
        if len(parts) == 1:
            return parts[0]
        return z3.Concat(*parts)

    def union(self, rs):
        return rs[0] if len(rs) == 1 else z3.Union(*rs)

    def category(self, cat):
        cat = str(cat)
        # ASCII part of the categories; the symbolic alphabet is ASCII
        table = {'CATEGORY_DIGIT': [(48, 57)], 'CATEGORY_SPACE': [(9, 13), (28, 32)],
                 'CATEGORY_WORD': [(48, 57), (65, 90), (97, 122), (95, 95)]}
        if cat in table:
            return self.union([self.chars(a, b) for a, b in table[cat]])
        for k, v in table.items():
            if cat == k.replace('CATEGORY_', 'CATEGORY_NOT_'):
                return z3.Intersect(self.anychar(), z3.Complement(self.union([self.chars(a, b) for a, b in v])))
        raise NotImplementedError(cat)

    def item(self, op, av):
        op = str(op)
        if op == 'LITERAL':
            return self.chars(av, av)
        if op == 'NOT_LITERAL':
            return z3.Intersect(self.anychar(), z3.Complement(self.chars(av, av)))
        if op == 'ANY':
            if self.dotall:
                return self.anychar()
            return z3.Intersect(self.anychar(), z3.Complement(z3.Re(z3.StringVal('\n'))))
        if op == 'IN':
            negated = False
            rs = []
            for o, a in av:
                o = str(o)
                if o == 'NEGATE':
                    negated = True
                elif o == 'LITERAL':
                    rs.append(self.chars(a, a))
                elif o == 'RANGE':
                    rs.append(self.chars(a[0], a[1]))
                elif o == 'CATEGORY':
                    rs.append(self.category(a))
                else:
                    raise NotImplementedError(o)
            r = self.union(rs)
            return z3.Intersect(self.anychar(), z3.Complement(r)) if negated else r
        if op in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = av
            r = self.seq(sub)
            if str(hi) == 'MAXREPEAT':
                star = z3.Star(r)
                return star if lo == 0 else z3.Concat(*([r] * lo + [star]))
            return z3.Loop(r, lo, hi) if hi > 0 else self.eps()
        if op == 'BRANCH':
            return self.union([self.seq(b) for b in av[1]])
        if op == 'SUBPATTERN':
            if av[1] or av[2]:
                raise NotImplementedError('inline flags')
            return self.seq(av[3])
        raise NotImplementedError(op)

    def formula(self, s, method):
        anything = z3.Star(self.anychar())
        end = {None: None, 'AT_END': z3.Option(z3.Re(z3.StringVal('\n'))), 'AT_END_STRING': self.eps()}[self.anchor_end]
        if method == 'fullmatch':
            # fullmatch needs the match itself to end at the end of the string
            r = self.re
        elif method in ('match', 'search'):
            tail = anything if end is None else end
            r = z3.Concat(self.re, tail)
            if method == 'search' and not self.anchor_start:
                r = z3.Concat(anything, r)
        else:
            raise NotImplementedError(method)
        return z3.InRe(s, r)


_regex_cache = {}


def regex_match(pattern, method, s):
    key = (pattern.pattern, pattern.flags)
    if key not in _regex_cache:
        _regex_cache[key] = _Regex(pattern)
    rx = _regex_cache[key]
    if not rx.ok:
        return getattr(pattern, method)(s.realise())
    if ENG.branch(rx.formula(s.e, method)):
        return SymMatch(pattern, method, s)
    return None


class SymMatch:
    """A successful match; what it consists of depends on the text, which is then pinned."""

    def __init__(self, pattern, method, s):
        self._m = (pattern, method, s)

    def __bool__(self):
        return True

    def __getattr__(self, n):
        pattern, method, s = self._m
        return getattr(getattr(pattern, method)(s.realise()), n)


# ---------------------------------------------------------------------------------------------------- objects
def _specs(names):
    return [U.BY_NAME[n] for n in names]


def domain(vid, names, kmax=None):
    """Which objects a declared variable may be: type among names, k and identity as the type demands."""
    tid, eqc, truth = VID_TID(vid), VID_EQC(vid), VID_TRUTH(vid)
    alts = []
    for t in _specs(names):
        base = U.GROUP_BASE[t.group]
        top = t.kmax if kmax is None else min(t.kmax, kmax)
        cs = [tid == t.idx]
        if t.group == 'num' and t.kmax > 1:
            cs += [eqc >= -top, eqc <= top]
        else:
            cs += [eqc >= base, eqc <= base + top]
        interned_id = -(eqc + 10 ** 9 * (t.idx + 1))
        if t.interned == 'always':
            cs.append(vid == interned_id)
        elif t.interned == 'small':
            cs.append(z3.If(z3.And(eqc >= -5, eqc <= 256), vid == interned_id, vid >= 1))
        elif t.interned == 'zero':
            cs.append(z3.If(eqc == base, vid == interned_id, vid >= 1))
        else:
            cs.append(vid >= 1)
        if t.truth == 'k':
            cs.append(truth == (eqc != base))
        elif t.truth != 'own':
            cs.append(truth == z3.BoolVal(t.truth))
        alts.append(z3.And(*cs))
    return z3.Or(*alts) if len(alts) > 1 else alts[0]


def native_desc(o):
    """(vid, tid, eqc) constants of a native object of the universe that is identified by its value, else None."""
    t = U.BY_CLS.get(type(o))
    if t is None or t.interned == 'never':
        return None
    base = U.GROUP_BASE[t.group]
    if t.name in ('int', 'bool'):
        eqc = int(o)
        if t.name == 'int' and not -5 <= o <= 256:
            return None
    elif t.name in ('NoneType', 'ellipsis'):
        eqc = base
    elif t.interned == 'zero' and not o:
        eqc = base
    else:
        return None
    return -(eqc + 10 ** 9 * (t.idx + 1)), t.idx, eqc


def native_eqc(o):
    """Equality class of a native object within the universe, or None if no symbolic object can equal it."""
    if isinstance(o, U.V):
        return U.GROUP_BASE['V'] + o.k
    if isinstance(o, (bool, int)):
        return int(o) if abs(o) <= 1_000_000 else None
    if isinstance(o, float):
        return int(o) if o == o and abs(o) <= 1_000_000 and o == int(o) else None
    t = U.BY_CLS.get(type(o))
    if t is None:
        return None
    base = U.GROUP_BASE[t.group]
    if t.interned == 'always' and t.kmax == 0:
        return base
    for k in range(0, 10):
        try:
            if t.maker(k, True) == o:
                return base + k
        except Exception:
            pass
    return None


class SymObj(Sym):
    """An arbitrary object: symbolic type, identity, equality class and truth value."""
    __slots__ = ('vid', 'names', 'real')

    def __init__(self, vid, names):
        super().__init__()
        self.vid = vid
        self.names = tuple(names)
        self.real = None

    # formulas
    @property
    def tid(self):
        return VID_TID(self.vid)

    @property
    def eqc(self):
        return VID_EQC(self.vid)

    @property
    def truth(self):
        return VID_TRUTH(self.vid)

    def f_type_in(self, idxs):
        idxs = set(idxs)
        mine = [U.BY_NAME[n].idx for n in self.names]
        if all(i in idxs for i in mine):
            return True
        sel = [i for i in mine if i in idxs]
        if not sel:
            return False
        return z3.Or(*[self.tid == i for i in sel]) if len(sel) > 1 else self.tid == sel[0]

    def f_isinstance(self, cls):
        hits = []
        for n in self.names:
            t = U.BY_NAME[n]
            if isinstance(U.sample(t), cls):
                hits.append(t.idx)
        return self.f_type_in(hits)

    def f_exact(self, cls):
        t = U.BY_CLS.get(cls)
        return False if t is None else self.f_type_in([t.idx])

    def f_same(self, o):
        if o is self:
            return True
        if isinstance(o, SymObj):
            return self.vid == o.vid
        if isinstance(o, Sym):
            return False
        s = CTX.realised_of(o)
        if s is not None:
            return self.f_same(s)
        d = native_desc(o)
        if d is not None:
            if U.TYPES[d[1]].name not in self.names:
                return False
            return self.vid == d[0]
        return False

    def f_eq(self, o):
        """Python equality as a formula (None: defer to the other operand)."""
        if o is self:
            return True
        if isinstance(o, SymObj):
            return self.eqc == o.eqc
        if isinstance(o, SymInt):
            return z3.And(self.f_num(), self.eqc == o.e)
        if isinstance(o, SymBool):
            return z3.And(self.f_num(), self.eqc == o.as_int())
        if isinstance(o, Sym):
            return None
        s = CTX.realised_of(o)
        if s is not None:
            return self.f_eq(s)
        c = native_eqc(o)
        if c is None:
            return None
        return self.eqc == c

    def f_num(self):
        return B(self.f_type_in([t.idx for t in U.TYPES if t.group == 'num']))

    # behaviour
    def __eq__(self, o):
        self._live()
        f = self.f_eq(o)
        if f is None:
            return NotImplemented
        return mkbool(f)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __bool__(self):
        self._live()
        return ENG.branch(self.truth)

    def __hash__(self):
        self._live()
        f = self.f_type_in([t.idx for t in U.TYPES if t.hashable])
        if not ENG.branch(B(f)):
            raise TypeError('unhashable type')
        return 0x5E

    def __repr__(self):
        return CTX.repr_token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym object>'

    def __deepcopy__(self, memo):
        self._live()
        atomic = self.f_type_in([t.idx for t in U.TYPES if t.atomic])
        if ENG.branch(B(atomic)):
            return self
        if memo is None:
            CTX.begin_op()
            return CTX.clone(self)
        # sharing is preserved through the memo of the running deepcopy
        store = memo.setdefault('__sx__', [])
        CTX.op_clones = store
        return CTX.clone(self)

    def __copy__(self):
        return self.__deepcopy__(None)

    def __reduce_ex__(self, p):
        return CTX.pickle_token(self)

    @property
    def __class__(self):
        return self.concrete_type()

    def concrete_type(self):
        """Exhaustive case split over the possible types."""
        self._live()
        mine = [U.BY_NAME[n] for n in self.names]
        for t in mine[:-1]:
            if ENG.branch(self.tid == t.idx):
                return t.cls
        ENG.assume(self.tid == mine[-1].idx)
        return mine[-1].cls

    def realise(self):
        """A real object standing for this one; its value is pinned (counted as under-approximation)."""
        self._live()
        if self.real is not None:
            return self.real
        cls = self.concrete_type()
        t = U.BY_CLS[cls]
        base = U.GROUP_BASE[t.group]
        if t.kmax == 0:
            k = 0
        else:
            k = ENG.pin_value(self.eqc).as_long() - base
        truth = True
        if t.truth == 'own':
            truth = ENG.branch(self.truth)
        self.real = CTX.realised_object(self, t, k, truth)
        return self.real

    def __getattr__(self, n):
        if n in ('vid', 'names', 'real', 'run'):
            raise AttributeError(n)
        if n.startswith('__') and n.endswith('__') and n not in ('__name__', '__qualname__', '__mro__', '__wrapped__',
                                                                 '__dict__', '__len__', '__iter__', '__call__'):
            # protocol probes: answer by type only
            for nm in self.names:
                if hasattr(U.BY_NAME[nm].cls, n):
                    break
            else:
                raise AttributeError(n)
        if self.real is None:
            cls = self.concrete_type()
            if not hasattr(cls, n) and not (issubclass(cls, U.V) and n in ('k', 'truth')):
                if U.BY_CLS[cls].name not in ('function', 'type'):
                    raise AttributeError('%r object has no attribute %r' % (cls.__name__, n))
        return getattr(self.realise(), n)

    def __lt__(self, o):
        return self._ord(o, 'lt')

    def __le__(self, o):
        return self._ord(o, 'le')

    def __gt__(self, o):
        return self._ord(o, 'gt')

    def __ge__(self, o):
        return self._ord(o, 'ge')

    def _ord(self, o, op):
        import operator
        a = self.as_number()
        if a is None:
            return getattr(operator, op)(self.realise(), real(o))
        if isinstance(o, SymObj):
            b = o.as_number()
            if b is None:
                return getattr(operator, op)(real(self), real(o))
        else:
            b = o
        return getattr(operator, op)(a, b)

    def as_number(self):
        """SymInt of the value if this is a number (decided by a branch), else None."""
        if ENG.branch(self.f_num()):
            return SymInt(self.eqc)
        return None


def real(x):
    if isinstance(x, (SymObj, SymStr)):
        return x.realise()
    if isinstance(x, SymType):
        return x.obj.concrete_type()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return ENG.pin_value(x.e).as_long()
    if isinstance(x, SymFloat):
        return float(x)
    if isinstance(x, Sym):
        _unsupported('realising %s' % type(x).__name__)
    return x


def _fwd(name):
    def f(self, /, *a, **k):
        import operator
        m = getattr(self.concrete_type() if self.real is None else type(self.real), name, None)
        if m is None and name in ('__len__', '__iter__', '__getitem__', '__call__', '__enter__', '__exit__'):
            r = self     # refused whatever the value is
        else:
            r = self.realise()
        if m is None:
            if name == '__len__':
                raise TypeError('object of type %r has no len()' % type(r).__name__)
            if name == '__iter__':
                raise TypeError('%r object is not iterable' % type(r).__name__)
            if name == '__getitem__':
                raise TypeError('%r object is not subscriptable' % type(r).__name__)
            if name == '__call__':
                raise TypeError('%r object is not callable' % type(r).__name__)
            if name in ('__int__', '__float__', '__index__'):
                if name == '__int__':
                    return int(r)
                if name == '__float__':
                    return float(r)
                return operator.index(r)
            if name == '__contains__':
                return a[0] in r
            if name == '__enter__' or name == '__exit__':
                raise AttributeError(name)
            return NotImplemented
        return m(r, *[real(x) for x in a], **k)
    f.__name__ = name
    return f


for _n in ('__len__', '__iter__', '__getitem__', '__call__', '__int__', '__float__', '__index__', '__contains__',
           '__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__mod__', '__rmod__', '__floordiv__',
           '__rfloordiv__', '__truediv__', '__rtruediv__', '__and__', '__rand__', '__or__', '__ror__', '__neg__',
           '__abs__', '__pow__', '__rpow__', '__invert__', '__complex__', '__round__', '__trunc__'):
    setattr(SymObj, _n, _fwd(_n))


class SymType(Sym):
    """type(x) of a symbolic object."""
    __slots__ = ('obj',)
    pytype = type

    def __init__(self, obj):
        super().__init__()
        self.obj = obj

    def f_eq(self, o):
        if isinstance(o, SymType):
            return self.obj.tid == o.obj.tid
        if isinstance(o, type):
            return self.obj.f_exact(o)
        return False

    def __eq__(self, o):
        if isinstance(o, (type, SymType)):
            return mkbool(self.f_eq(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __hash__(self):
        return hash(self.obj.concrete_type())

    def __repr__(self):
        return '<sym type>'

    def __format__(self, spec):
        return '<sym type>'

    def __getattr__(self, n):
        if n in ('__name__', '__qualname__', '__module__'):
            return '<sym type>'
        return getattr(self.obj.concrete_type(), n)

    def __call__(self, /, *a, **k):
        return call(self.obj.concrete_type(), *a, **k)


# ---------------------------------------------------------------------------------------------------- primitives
def f_same(a, b):
    """Identity as a formula or bool."""
    if isinstance(a, SymObj):
        return a.f_same(b)
    if isinstance(b, SymObj):
        return b.f_same(a)
    if a is b:
        return True
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return B(a) == B(b)
        return False
    if isinstance(a, SymType) or isinstance(b, SymType):
        s, o = (a, b) if isinstance(a, SymType) else (b, a)
        return s.f_eq(o)
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) \
                and not isinstance(a, bool) and not isinstance(b, bool):
            ea, eb = _num(a)[1], _num(b)[1]
            return z3.And(ea == eb, ea >= -5, ea <= 256)
        return False
    return False


def sx_is(a, b):
    if not isinstance_n(a, Sym) and not isinstance_n(b, Sym):
        if a is b:
            return True
        return False
    r = f_same(a, b)
    return ENG.branch(r)


def isinstance_n(o, cls):
    # native isinstance on the proxies' own classes (never through __class__)
    return issubclass(type(o), cls)


def sx_type(*a):
    if len(a) == 1:
        o = a[0]
        if isinstance_n(o, Sym):
            return type1(o)
        return type(o) if not isinstance_n(o, type) else type(o)
    return type(*a)


def type1(o):
    if isinstance_n(o, SymObj):
        if len(o.names) == 1:
            return U.BY_NAME[o.names[0]].cls
        return SymType(o)
    if isinstance_n(o, Sym):
        return o.pytype
    return type(o)


def h_type(f, /, *a, **k):
    if len(a) == 1 and not k and isinstance_n(a[0], Sym):
        return type1(a[0])
    return type(*a, **k)


def _flatten(cls):
    if isinstance(cls, tuple):
        for c in cls:
            yield from _flatten(c)
    else:
        yield cls


def h_isinstance(f, o, cls):
    if isinstance_n(o, SymObj):
        if isinstance_n(cls, Sym) or (isinstance(cls, tuple) and any(isinstance_n(c, Sym) for c in cls)):
            cls = tuple(real(c) for c in _flatten(cls))
        return ENG.branch(o.f_isinstance(cls))
    if isinstance_n(o, Sym):
        return issubclass(o.pytype, cls) if not isinstance(cls, tuple) or cls else False
    if isinstance_n(cls, Sym):
        cls = real(cls)
    return isinstance(o, cls)


def h_issubclass(f, c, cls):
    if isinstance_n(c, SymType):
        hits = [U.BY_NAME[n].idx for n in c.obj.names if issubclass(U.BY_NAME[n].cls, cls)]
        return ENG.branch(c.obj.f_type_in(hits))
    if isinstance_n(c, SymObj):
        # a symbolic object used as a class: only 'type' objects qualify
        return issubclass(c.realise(), cls)
    if isinstance_n(c, Sym):
        raise TypeError('issubclass() arg 1 must be a class')
    return issubclass(c, cls)


def h_callable(f, o):
    if isinstance_n(o, SymObj):
        return ENG.branch(o.f_type_in([t.idx for t in U.TYPES if t.callable]))
    if isinstance_n(o, Sym):
        return False
    return callable(o)


def _atom_hash(eqc, group):
    """Model of CPython's hash of a universe member: exact for small ints, free per (process, value) for V objects
    (arbitrary user-defined hash, collisions included), injective for everything else."""
    if group == 'num':
        return z3.If(eqc == -1, z3.IntVal(-2), eqc)
    if group == 'V':
        t = HASH(z3.IntVal(U.EPOCH[0]), eqc)
        key = (U.EPOCH[0], z3.simplify(eqc), t)
        if not any(k[0] == key[0] and k[1].eq(key[1]) for k in CTX.vhash_terms):
            ENG.assume(z3.And(t >= 0, t < 2 ** 31))
            CTX.vhash_terms.append(key)
        return t
    ep = 7 * U.EPOCH[0] if group in ('str', 'bytes') else 0
    return eqc * 1000 + 10 ** 12 + ep


def hash_expr(o):
    """Python's hash(o) as an int term; raises TypeError for unhashable values."""
    if isinstance_n(o, SymObj):
        if not ENG.branch(B(o.f_type_in([t.idx for t in U.TYPES if t.hashable]))):
            raise TypeError('unhashable type')
        groups = {}
        for n in o.names:
            t = U.BY_NAME[n]
            if t.hashable:
                groups.setdefault(t.group, []).append(t.idx)
        items = list(groups.items())
        r = _atom_hash(o.eqc, items[-1][0])
        for g, idxs in reversed(items[:-1]):
            r = z3.If(B(o.f_type_in(idxs)), _atom_hash(o.eqc, g), r)
        return r
    if isinstance_n(o, SymBool):
        return o.as_int()
    if isinstance_n(o, SymInt):
        return _atom_hash(o.e, 'num')
    if isinstance_n(o, SymNum):
        _unsupported('hash of a symbolic %s' % o.kind)
    if isinstance_n(o, SymType):
        return hash_expr(o.obj.concrete_type())
    if isinstance_n(o, Sym):
        _unsupported('hash')
    t = type(o)
    if t is tuple:
        return _compound_hash(0, [hash_expr(x) for x in o])
    if t is frozenset:
        # order independent
        return _compound_hash(1, [z3.Sum([hash_expr(x) for x in o]) if o else z3.IntVal(0)])
    raw = getattr(t.__hash__, 'sx_raw', None)
    if raw is not None:
        r = raw(o)
        if isinstance_n(r, SymInt):
            return r.e
        return z3.IntVal(r)
    if t.__hash__ is None:
        raise TypeError('unhashable type: %r' % t.__name__)
    if isinstance(o, (bool, int)) and abs(o) <= 1_000_000:
        return z3.IntVal(hash(o))
    c = native_eqc(o)
    if c is not None:
        g = U.BY_CLS[type(o)].group if type(o) in U.BY_CLS else 'V'
        return _atom_hash(z3.IntVal(c), g)
    return z3.IntVal(hash(o))


def _compound_hash(shape, parts):
    """Hash of a tuple or frozenset of hashes: deterministic and, by assumption, free of collisions."""
    if len(parts) > 32:
        _unsupported('hash of a long tuple')
    t = HASHC[len(parts)](z3.IntVal(shape), *parts)
    for sh, ps, other in CTX.tuple_hashes:
        if len(ps) == len(parts):
            if sh == shape:
                same = z3.And(*[a == b for a, b in zip(ps, parts)]) if parts else z3.BoolVal(True)
                ENG.assume(z3.Implies(t == other, same))
            else:
                ENG.assume(t != other)
    CTX.tuple_hashes.append((shape, parts, t))
    return t


def has_sym(o, depth=3):
    if isinstance_n(o, Sym):
        return True
    if depth:
        if type(o) in (tuple, list, frozenset, set):
            return any(has_sym(x, depth - 1) for x in o)
        if isinstance(o, dict):
            return any(has_sym(x, depth - 1) for kv in o.items() for x in kv)
        if CTX is not None and isinstance(o, CTX.record_base()):
            return any(has_sym(x, depth - 1) for x in vars(o).values())
    return False


def h_hash(f, o):
    if has_sym(o) or getattr(type(o).__hash__, 'sx_raw', None) is not None:
        return SymInt(hash_expr(o))
    return hash(o)


def sx_hashdef(fn):
    """Wraps every __hash__ the repository defines: native containers get a constant for a symbolic hash, and so fall
    back on ==, which the executor decides."""
    def __hash__(self):
        r = fn(self)
        if isinstance_n(r, Sym):
            return 0x5E
        return r
    __hash__.sx_raw = fn
    __hash__.__qualname__ = fn.__qualname__
    __hash__.__doc__ = fn.__doc__
    return __hash__


def h_int(f, /, *a, **k):
    if len(a) == 1 and not k and isinstance_n(a[0], Sym):
        o = a[0]
        if isinstance_n(o, SymBool):
            return SymInt(o.as_int())
        if isinstance_n(o, SymInt):
            return o
        if isinstance_n(o, (SymFloat, SymRat)):
            return o.__trunc__()
        if isinstance_n(o, SymComplex):
            raise TypeError('int() argument must not be complex')
        return int(real(o))
    return int(*[real(x) for x in a], **k)


def h_float(f, *a):
    if len(a) == 1 and isinstance_n(a[0], Sym):
        o = a[0]
        if isinstance_n(o, SymFloat):
            return o
        n = _num(o)
        if n is not None:
            return SymFloat(_to_fp(*n))
        return float(real(o))
    return float(*a)


def h_bytes(f, /, *a, **k):
    if len(a) == 1 and not k and isinstance_n(a[0], SymBytes):
        return (SymByteArray if f is bytearray else SymBytes)(a[0].parts)
    return f(*[real(x) for x in a], **k)


def h_bool(f, *a):
    return bool(*a)


def h_round(f, x, *a):
    if isinstance_n(x, SymNum):
        return x.__round__(*a)
    return round(x, *a)


def h_trunc(f, x):
    if isinstance_n(x, SymNum):
        return x.__trunc__()
    return f(x)


def h_floor(f, x):
    if isinstance_n(x, SymFloat):
        return x.__floor__()
    if isinstance_n(x, SymNum):
        return x.__floor__()
    return math.floor(x)


def h_isclose(f, a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not (isinstance_n(a, Sym) or isinstance_n(b, Sym)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    x, y = _to_fp(*_num(a)), _to_fp(*_num(b))
    rel, at = z3.FPVal(rel_tol, F64), z3.FPVal(abs_tol, F64)
    d = z3.fpAbs(z3.fpSub(RNE, y, x))
    if abs_tol == 0 and 0 <= rel_tol < 0.5 and any(z3.is_fp_value(v) and v.isZero() for v in (x, y)):
        return mkbool(z3.fpEQ(x, y))     # nothing but 0 is relatively close to 0
    close = z3.Or(z3.fpLEQ(d, z3.simplify(z3.fpAbs(z3.fpMul(RNE, rel, y)))), z3.fpLEQ(d, z3.simplify(z3.fpAbs(z3.fpMul(RNE, rel, x)))),
                  z3.fpLEQ(d, at))
    f = z3.If(z3.fpEQ(x, y), True, z3.If(z3.Or(z3.fpIsInf(x), z3.fpIsInf(y)), False, close))
    return mkbool(f)


def h_isnan(f, a):
    if isinstance_n(a, SymFloat):
        return mkbool(z3.fpIsNaN(a.e))
    if isinstance_n(a, SymNum):
        return False
    return f(a)


def h_isinf(f, a):
    if isinstance_n(a, SymFloat):
        return mkbool(z3.fpIsInf(a.e))
    if isinstance_n(a, SymNum):
        return False
    return f(a)


def h_eval(f, src, *env):
    hook = CTX.hooks.get('eval')
    if hook is not None:
        return hook(src, *env)
    return f(real(src), *env)


def h_literal_eval(f, node_or_string):
    hook = CTX.hooks.get('literal_eval')
    if hook is not None:
        return hook(node_or_string)
    return f(real(node_or_string))


def h_dumps(f, obj, *a, **k):
    return CTX.json_dumps(f, obj, *a, **k)


def h_dump(f, obj, fp, *a, **k):
    fp.write(CTX.json_dumps(_json.dumps, obj, *a, **k))


def h_loads(f, s, *a, **k):
    return CTX.json_loads(f, s, *a, **k)


def h_ploads(f, /, *a, **k):
    CTX.begin_op()
    return f(*a, **k)


def h_load(f, fp, *a, **k):
    return CTX.json_loads(_json.loads, fp.read(), *a, **k)


def h_str(f, /, *a, **k):
    if len(a) == 1 and not k and isinstance_n(a[0], SymStr):
        return a[0]
    if len(a) == 1 and not k and isinstance_n(a[0], SymObj):
        # str(x) of a str is x itself; of anything else some text
        o = a[0]
        if ENG.branch(B(o.f_exact(str))):
            return o
        return str(o.realise())
    return str(*a, **k)


def h_len(f, o):
    return len(o)


def h_super(*a):
    return super(*a)


HANDLERS = {}


def _h(fn, handler):
    HANDLERS[id(fn)] = (fn, handler)


_h(type, h_type)
_h(isinstance, h_isinstance)
_h(issubclass, h_issubclass)
_h(callable, h_callable)
_h(hash, h_hash)
_h(int, h_int)
_h(float, h_float)
_h(bytes, h_bytes)
_h(bytearray, h_bytes)
_h(round, h_round)
_h(str, h_str)
_h(math.trunc, h_trunc)
_h(math.floor, h_floor)
_h(math.isclose, h_isclose)
_h(math.isnan, h_isnan)
_h(math.isinf, h_isinf)
_h(eval, h_eval)
_h(_ast.literal_eval, h_literal_eval)
_h(_json.dumps, h_dumps)
_h(_json.dump, h_dump)
_h(_json.loads, h_loads)
_h(_json.load, h_load)
_h(_pickle.loads, h_ploads)
_h(_pickle.load, h_ploads)

# C functions that only store, pass on, iterate over or compare what they are given: safe on proxies
PASS_TYPES = {tuple, list, dict, set, frozenset, deque, zip, enumerate, object, map, filter, slice, reversed, super,
              property, staticmethod, classmethod, OrderedDict, defaultdict, bool, types.MappingProxyType,
              types.SimpleNamespace, range}
PASS_FUNCS = {id(f) for f in (getattr, setattr, hasattr, delattr, id, iter, next, min, max, any, all, sorted, repr,
                              sum, len, abs, divmod, print, vars, format, ascii, pow, object.__setattr__,
                              object.__getattribute__, object.__new__, object.__delattr__)}
PASS_METHODS = {'append', 'appendleft', 'extend', 'insert', 'update', 'setdefault', 'get', 'pop', 'add', 'discard',
                'remove', 'items', 'keys', 'values', 'copy', 'clear', 'index', 'count', '__setitem__', '__getitem__',
                '__contains__', '__setattr__', '__getattribute__', '__delattr__', '__new__', '__init__', '__eq__',
                '__ne__', '__hash__', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'popitem',
                '__or__', '__and__', 'fromkeys', '__lt__', '__le__', '__gt__', '__ge__', 'move_to_end', 'partial',
                'from_iterable', 'chain', 'islice', 'fullmatch', 'match', 'search', '__call__', '__get__', 'send', 'format',
                'accumulate', 'starmap', 'tee', 'repeat', 'itemgetter', 'attrgetter', 'eq', 'ne', 'lt', 'le', 'gt', 'ge',
                'is_', 'is_not', 'not_', 'truth', 'contains', 'dumps', 'dump', 'loads', 'load', '__class_getitem__',
                '__reduce_ex__', '__instancecheck__', '__subclasscheck__', 'count', 'cycle', 'groupby', 'reduce',
                'zip_longest', 'product', 'takewhile', 'dropwhile', 'filterfalse', 'compress', 'is_integer', 'warn',
                'warning'}
_C_KINDS = (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
            types.MethodWrapperType, types.ClassMethodDescriptorType)


def is_c(f):
    t = type(f)
    if issubclass(t, _C_KINDS):
        return True
    if isinstance(f, type):
        # a class implemented in C (not a heap class defined by Python code)
        return not (f.__flags__ & (1 << 9)) and f.__module__ in ('builtins', 'itertools', 'functools', '_collections')
    return False


def op_is(f, a, b):
    return sx_is(a, b)


def call(f, /, *args, **kwargs):
    if ENG is not None and ENG.broken is not None:
        raise ENG.broken
    h = HANDLERS.get(id(f))
    if h is not None and h[0] is f:
        return h[1](f, *args, **kwargs)
    if isinstance_n(f, (SymObj,)):
        f = f.realise()
    any_sym = False
    for a in args:
        if isinstance_n(a, Sym):
            any_sym = True
            break
    else:
        if kwargs:
            for a in kwargs.values():
                if isinstance_n(a, Sym):
                    any_sym = True
                    break
    if any_sym and is_c(f):
        slf = getattr(f, '__self__', None)
        name = getattr(f, '__name__', '')
        if slf is not None and isinstance(slf, _re.Pattern) and name in ('fullmatch', 'match', 'search') \
                and len(args) == 1 and not kwargs:
            if isinstance_n(args[0], SymStr):
                return regex_match(slf, name, args[0])
            return f(*[real(a) for a in args])
        if slf is not None and isinstance(slf, (dict, set, frozenset)) and args and isinstance_n(args[0], Sym) \
                and name in ('get', 'pop', 'setdefault', '__contains__', '__getitem__', 'discard', 'remove', 'add'):
            key = resolve_key(slf, args[0])
            return f(key, *args[1:], **kwargs)
        if not (isinstance(f, type) and f in PASS_TYPES) and id(f) not in PASS_FUNCS and name not in PASS_METHODS:
            args = [real(a) for a in args]
            kwargs = {k: real(v) for k, v in kwargs.items()}
    elif f is map or f is filter:
        fn = args[0]
        if id(fn) in HANDLERS:
            return f(lambda *x: call(fn, *x), *args[1:], **kwargs)
    return f(*args, **kwargs)


def resolve_key(container, key):
    """The stored key equal to `key` (decided by branching), or `key` itself if there is none."""
    if isinstance_n(key, SymObj):
        hashable = key.f_type_in([t.idx for t in U.TYPES if t.hashable])
        if not ENG.branch(B(hashable)):
            raise TypeError('unhashable type')
    for k in list(container):
        if k is key:
            return k
        if isinstance_n(k, Sym) or isinstance_n(key, Sym):
            if ENG.branch(B(disj(f_same_b(k, key), eq_b(k, key)))):
                return k
    return key


def f_same_b(a, b):
    return mkbool(f_same(a, b))


def eq_b(a, b):
    """a == b as bool/SymBool without deciding it."""
    r = a == b
    if isinstance_n(r, SymBool) or isinstance(r, bool):
        return r
    return bool(r)


def _syms_inside(c):
    try:
        if len(c) > 64:
            return False
    except TypeError:
        return False
    return any(isinstance_n(k, Sym) for k in c)


def sx_in(x, c):
    if isinstance_n(c, Sym):
        if isinstance_n(c, SymBytes):
            return bool(disj(*[x == p for p in c.parts]))
        return x in c
    t = type(c)
    hashed = isinstance(c, (dict, set, frozenset, types.MappingProxyType)) or t in (type({}.keys()),)
    if hashed and (isinstance_n(x, Sym) or _syms_inside(c)):
        if t.__contains__ in (dict.__contains__, set.__contains__, frozenset.__contains__) or t is type({}.keys()) \
                or t is types.MappingProxyType:
            if isinstance_n(x, Sym):
                if isinstance_n(x, SymObj):
                    if not ENG.branch(B(x.f_type_in([s.idx for s in U.TYPES if s.hashable]))):
                        raise TypeError('unhashable type')
            else:
                hash(x)
            return bool(disj(*[disj(f_same_b(k, x), eq_b(k, x)) for k in c])) if len(c) else False
    if t in (list, tuple) and (isinstance_n(x, Sym) or _syms_inside(c)):
        return bool(disj(*[disj(f_same_b(k, x), eq_b(k, x)) for k in c])) if len(c) else False
    return x in c


def sx_getitem(o, k):
    if isinstance_n(k, Sym):
        if isinstance_n(k, SymType):
            return o[k.obj.concrete_type()]
        if isinstance(o, dict) or isinstance(o, types.MappingProxyType):
            key = resolve_key(o, k)
            return o[key]
        if isinstance(o, (list, tuple, deque)) and isinstance_n(k, (SymInt, SymBool)):
            return o[k.__index__()]
        if isinstance(o, (str, bytes)):
            return o[real(k)]
    elif isinstance(o, dict) and o and _syms_inside(o):
        key = resolve_key(o, k)
        return o[key]
    return o[k]


def sx_setitem(v, o, k):
    if isinstance(o, (dict,)) and (isinstance_n(k, Sym) or _syms_inside(o)):
        if isinstance_n(k, SymType):
            k = k.obj.concrete_type()
        o[resolve_key(o, k)] = v
        return
    o[k] = v


def sx_delitem(o, k):
    if isinstance(o, (dict,)) and (isinstance_n(k, Sym) or _syms_inside(o)):
        del o[resolve_key(o, k)]
        return
    del o[k]


def sx_enter(name):
    if CTX is not None:
        CTX.entered.add(name)


PRIMITIVES = {'_sx_call': call, '_sx_is': sx_is, '_sx_in': sx_in, '_sx_getitem': sx_getitem,
              '_sx_setitem': sx_setitem, '_sx_delitem': sx_delitem, '_sx_type': sx_type, '_sx_enter': sx_enter, '_sx_hashdef': sx_hashdef}
