"""Symbolic context: declares variables, asserts, extracts witnesses, models the process boundary (json, pickle, copy)."""
import json as _json
import pickle as _pickle

import z3

from . import proxies as P
from . import universe as U
from .ctx import Base
from .engine import Control, EngineError, PathAbort


class Ctx(Base):
    symbolic = True

    def __init__(self, eng, R, run_id, params=None, int_bits=40, float_bits=64):
        self.eng = eng
        self.R = R
        self.run_id = run_id
        self.P = params or {}
        self.int_bits = int_bits
        self.float_bits = float_bits
        self.decls = {}      # name -> (kind, payload)
        self.vids = []       # identities of all objects so far
        self.reals = []      # (sym, native)
        self.tokens = []
        self.counters = {}
        self.hooks = {}
        self.entered = set()
        self.notes = []
        self.op = 0
        self.op_clones = []
        self.vhash_terms = []
        self.tuple_hashes = []
        self.maxlen = 6

    # -- declarations ------------------------------------------------------------------------------------
    def _new(self, name, kind, payload):
        if name in self.decls:
            raise self.eng._fail(EngineError('variable %s declared twice' % name))
        self.decls[name] = (kind, payload)

    def _n(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh_int(self, base):
        return z3.Int('aux.' + self._n(base))

    def fresh_fp(self, base):
        return z3.FP('aux.' + self._n(base), P.F64)

    def flag(self, name):
        e = z3.Bool(name)
        self._new(name, 'flag', e)
        return P.SymBool(e)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        e = z3.Int(name)
        self._new(name, 'choice', e)
        self.eng.assume(z3.And(e >= 0, e < len(options)))
        return options[self.eng.fork_value(e)]

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self._new(name, 'int', e)
        cs = ([e >= lo] if lo is not None else []) + ([e <= hi] if hi is not None else [])
        if cs:
            self.eng.assume(z3.And(*cs))
        return P.SymInt(e)

    def rat(self, name, lo=-1000, hi=1000, dens=(1, 2, 3)):
        n = z3.Int(name + '.num')
        d = z3.Int(name + '.den')
        self._new(name, 'rat', (n, d))
        self.eng.assume(z3.And(n >= lo, n <= hi, z3.Or(*[d == x for x in dens])))
        dv = self.eng.fork_value(d)
        for p in (2, 3, 5, 7, 11):
            if dv % p == 0:
                self.eng.assume(n % p != 0)
        return P.SymRat(z3.ToReal(n) / dv, P.SymInt(n), dv)

    def flt(self, name, lo=None, hi=None, finite=False):
        e = z3.FP(name, P.F64)
        self._new(name, 'flt', e)
        cs = []
        if finite or lo is not None or hi is not None:
            cs.append(z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))))
        if lo is not None:
            cs.append(z3.fpGEQ(e, z3.FPVal(lo, P.F64)))
        if hi is not None:
            cs.append(z3.fpLEQ(e, z3.FPVal(hi, P.F64)))
        if cs:
            self.eng.assume(z3.And(*cs))
        return P.SymFloat(e)

    def cplx(self, name):
        return P.SymComplex(self.flt(name + '.re'), self.flt(name + '.im'))

    def string(self, name, maxlen=6):
        e = z3.String(name)
        self._new(name, 'str', e)
        ascii_ = z3.Star(z3.Range(z3.StringVal('\t'), z3.StringVal('~')))
        self.eng.assume(z3.And(z3.Length(e) <= maxlen, z3.InRe(e, ascii_)))
        return P.SymStr(e, maxlen)

    def obj(self, name, types=None, kmax=None):
        types = tuple(types or U.SIMPLE)
        v = z3.Int(name)
        self._new(name, 'obj', v)
        key = (name, types, kmax)
        dom = self.eng.domains.get(key)
        if dom is None:
            dom = self.eng.domains[key] = P.domain(v, types, kmax)
        self.eng.assume(dom)
        self.vids.append(v)
        return P.SymObj(v, types)

    def fresh_obj(self, name, types=None, kmax=None):
        """An object that did not exist before (only interned values may coincide with earlier objects)."""
        types = tuple(types or U.SIMPLE)
        v = z3.Int(name)
        self._new(name, 'obj', v)
        self.eng.assume(z3.And(P.domain(v, types, kmax), self._distinct(v)))
        self.vids.append(v)
        return P.SymObj(v, types)

    def _distinct(self, v):
        return z3.And(*[z3.Or(v < 0, v != w) for w in self.vids]) if self.vids else z3.BoolVal(True)

    # -- assertions --------------------------------------------------------------------------------------
    def check(self, label, cond):
        e = cond if isinstance(cond, bool) else P.B(cond)
        self.notes.append((label, e))
        self.eng.check(label, e if not isinstance(e, bool) else e, self.witness)

    def assume(self, cond):
        self.eng.assume(cond if isinstance(cond, bool) else P.B(cond))

    def cut(self, why):
        self.eng.truncated += 1
        raise PathAbort(why)

    def reach(self, label):
        self.notes.append(('@' + label, True))

    def note(self, label, value):
        if P.isinstance_n(value, P.SymBool):
            value = value.e
        elif P.isinstance_n(value, P.SymInt):
            value = value.e
        self.notes.append((label, value))

    def fork(self, cond):
        return bool(cond)

    def same(self, a, b):
        return P.mkbool(P.f_same(a, b))

    def eq(self, a, b):
        return P.eq_b(a, b)

    def is_type(self, o, cls):
        if P.isinstance_n(o, P.SymObj):
            return P.mkbool(o.f_exact(cls))
        return P.type1(o) is cls

    def is_inst(self, o, cls):
        if P.isinstance_n(o, P.SymObj):
            return P.mkbool(o.f_isinstance(cls))
        return issubclass(P.type1(o), cls)

    def type_eq(self, a, b):
        ta, tb = P.type1(a), P.type1(b)
        r = ta == tb
        return r

    def truth(self, o):
        if P.isinstance_n(o, P.SymObj):
            return P.mkbool(o.truth)
        return bool(o)

    def callable(self, o):
        if P.isinstance_n(o, P.SymObj):
            return P.mkbool(o.f_type_in([t.idx for t in U.TYPES if t.callable]))
        return callable(o)

    def hash(self, o):
        return P.SymInt(P.hash_expr(o))

    def And(self, *xs):
        return P.conj(*xs)

    def Or(self, *xs):
        return P.disj(*xs)

    def Not(self, x):
        return P.neg(x)

    def new_process(self):
        U.EPOCH[0] += 1

    def fullmatch(self, pattern, s):
        """Whether the whole string matches (bool or symbolic bool); pattern: a compiled one."""
        if P.isinstance_n(s, P.SymStr):
            rx = P._Regex(pattern)
            if not rx.ok:
                raise self.eng._fail(EngineError('pattern not modelled: %r' % pattern.pattern))
            return P.mkbool(rx.formula(s.e, 'fullmatch'))
        return pattern.fullmatch(s) is not None

    def encode(self, obj):
        import json
        return self.json_dumps(json.dumps, obj)

    def decode(self, text):
        import json
        return self.json_loads(json.loads, text)

    # -- witnesses ---------------------------------------------------------------------------------------
    def witness(self, model):
        out = {}

        def ev(e):
            return model.eval(e, model_completion=True)
        for name, (kind, p) in self.decls.items():
            if kind == 'flag':
                out[name] = z3.is_true(ev(p))
            elif kind in ('int', 'choice'):
                out[name] = ev(p).as_long()
            elif kind == 'rat':
                out[name] = [ev(p[0]).as_long(), ev(p[1]).as_long()]
            elif kind == 'flt':
                f = P._fp_py(ev(p))
                out[name] = 'nan' if f != f else f.hex()
            elif kind == 'str':
                out[name] = decode_str(ev(p))
            elif kind == 'obj':
                out[name] = self.obj_witness(ev, p)
        vh = []
        for ep, eqc, term in self.vhash_terms:
            vh.append([ep, ev(eqc).as_long() - U.GROUP_BASE['V'], ev(term).as_long()])
        return {'vars': out, 'vhash': vh}

    @staticmethod
    def obj_witness(ev, v):
        t = U.TYPES[ev(P.VID_TID(v)).as_long()]
        k = ev(P.VID_EQC(v)).as_long() - U.GROUP_BASE[t.group]
        return [t.name, k, z3.is_true(ev(P.VID_TRUTH(v))), ev(v).as_long()]

    def trace(self, model):
        out = []
        for label, v in self.notes:
            if z3.is_expr(v):
                r = z3.simplify(model.eval(v, model_completion=True))
                v = z3.is_true(r) if z3.is_bool(r) else r.as_long()
            out.append([label, v])
        return out

    # -- services the proxies ask for ------------------------------------------------------------------------
    def str_value(self, v):
        return decode_str(v)

    def repr_token(self, sym):
        self.tokens.append(sym)
        return '_sx_token(%d)' % (len(self.tokens) - 1)

    def rebuild(self, text, names):
        """Evaluates a repr: every symbolic value in it denotes an equal object of its own."""
        def token(i):
            self.op_clones = []
            return self.load(i)
        return eval(text, dict(names, _sx_token=token))

    def hook(self, name, fn):
        self.hooks[name] = fn

    def record_base(self):
        return self.R.RecordBase if self.R is not None else ()

    def realised_of(self, o):
        for s, r in self.reals:
            if r is o:
                return s
        return None

    def realised_object(self, sym, spec, k, truth):
        for s, r in self.reals:
            if s is sym:
                return r
            if type(r) is spec.cls and spec.interned == 'never' and self.eng.branch(z3.simplify(s.vid == sym.vid)):
                return r
        r = U.make(spec.name, k, truth)
        if spec.interned == 'never':
            self.reals.append((sym, r))
        return r

    def clone(self, sym, memo=None):
        """A copy of the object: equal, same type, new identity (unless the value is interned)."""
        store = self.op_clones
        for s, c in store:
            if s is sym or self.eng.branch(z3.simplify(s.vid == sym.vid)):
                return c
        v = self.fresh_int('clone')
        self.eng.assume(z3.And(P.domain(v, sym.names), P.VID_TID(v) == sym.tid, P.VID_EQC(v) == sym.eqc,
                               P.VID_TRUTH(v) == sym.truth, self._distinct(v)))
        self.vids.append(v)
        c = P.SymObj(v, sym.names)
        store.append((sym, c))
        return c

    def swap(self):
        others = [[]]

        def f():
            others[0], self.op_clones = self.op_clones, others[0]
        return f

    def here(self, where, key):
        memo = self.eng.here
        c = memo.get((where.e.get_id(), key))
        if c is None:
            c = memo[where.e.get_id(), key] = where.e == key
        return self.eng.branch(c)

    def begin_op(self):
        self.op_clones = []

    def pickle_token(self, sym):
        self.tokens.append(sym)
        return (_load_token, (self.run_id, len(self.tokens) - 1))

    def load(self, i):
        s = self.tokens[i]
        if P.isinstance_n(s, P.SymObj):
            return self.clone(s)
        return s

    def json_dumps(self, f, obj, *a, **k):
        user = k.pop('default', None)

        def default(o):
            if P.isinstance_n(o, P.SymObj):
                if not self.eng.branch(P.B(o.f_type_in([U.BY_NAME[n].idx for n in U.JSONABLE]))):
                    # other members of the universe: the real encoder decides
                    r = o.realise()
                    if type(r) in (list, tuple, dict, U.ISub, U.SSub):
                        return r
                    if user is not None:
                        return user(o)
                    raise TypeError('Object of type X is not JSON serializable')
            elif not P.isinstance_n(o, (P.SymStr, P.SymInt, P.SymBool, P.SymFloat)):
                if user is not None:
                    return user(o)
                raise TypeError('Object of type %s is not JSON serializable' % type(o).__name__)
            self.tokens.append(o)
            return {'__sx__': len(self.tokens) - 1}
        return f(obj, *a, default=default, **k)

    def json_loads(self, f, s, *a, **k):
        if P.isinstance_n(s, P.SymObj) and not issubclass(s.concrete_type(), (str, bytes)):
            raise TypeError('the JSON object must be str, bytes or bytearray, not %s' % s.concrete_type().__name__)
        s = P.real(s) if P.isinstance_n(s, P.Sym) else s
        self.begin_op()
        hook = k.pop('object_hook', None)
        pairs = k.pop('object_pairs_hook', None)

        def conv(ps):
            if len(ps) == 1 and ps[0][0] == '__sx__':
                o = self.tokens[ps[0][1]]
                if P.isinstance_n(o, P.SymObj):
                    self.op_clones = []  # json does not preserve sharing
                    return self.clone(o)
                return o
            if pairs is not None:
                return pairs(ps)
            d = dict(ps)
            return hook(d) if hook is not None else d
        return f(s, *a, object_pairs_hook=conv, **k)


def _load_token(run, i):
    if run != P.CTX.run_id:
        raise P.ENG._fail(EngineError('pickle of an earlier path'))
    return P.CTX.load(i)


def decode_str(v):
    s = v.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def _guard(fn):
    def g(self, *a, **k):
        try:
            return fn(self, *a, **k)
        except Control:
            raise
        except Exception as e:
            import traceback
            raise self.eng._fail(EngineError('internal: ' + traceback.format_exc()[-1500:])) from e
    g.__name__ = fn.__name__
    return g


for _n in ('flag', 'choice', 'int', 'rat', 'flt', 'cplx', 'string', 'obj', 'fresh_obj', 'check', 'assume', 'same', 'is_type',
           'is_inst', 'type_eq', 'truth', 'And', 'Or', 'Not', 'witness', 'trace', 'clone', 'realised_object', 'note'):
    setattr(Ctx, _n, _guard(getattr(Ctx, _n)))
