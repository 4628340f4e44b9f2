"""C28: evaluating coercers only see the declared names and only evaluate strings."""
import builtins

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('eval and literal_eval are replaced by arbitrary evaluators: every call gives any object of any type of the universe or raises any of 8 exception types, and may spoil the namespace it was given; arguments of every type of the universe, '
          'declared names any subset of 3 with arbitrary values; up to 2 constructions in a row, up to 3 nested literals; the real evaluators are run on a fixed list of expressions over arbitrary declared values')
OUTSIDE = 'what eval and literal_eval of the interpreter do; the name __builtins__ itself; exceptions that are no Exception (KeyboardInterrupt and the like)'

EXCS = (TypeError, ValueError, SyntaxError, NameError, ZeroDivisionError, RecursionError, AttributeError, Plain)


def visible(c, env):
    """the names an evaluation in env can see, with their values"""
    g = env[0] if env else None
    if g is None:
        return None
    out = {}
    b = g.get('__builtins__', builtins)
    out.update(b if isinstance(b, dict) else vars(b))
    out.update((k, v) for k, v in g.items() if k != '__builtins__')
    if len(env) > 1 and env[1] is not None:
        out.update(env[1])
    return out


def spoil(env):
    for d in env:
        d['leak'] = 1
        b = d.get('__builtins__')
        if isinstance(b, dict):
            b['leak'] = 2
            b.pop('a', None)


class Evaluator:
    def __init__(self, c, name, types, excs=EXCS, limit=4):
        self.c, self.name, self.types, self.excs, self.calls, self.limit = c, name, types, excs, [], limit

    def __call__(self, src, *env):
        c = self.c
        i = len(self.calls)
        if i >= self.limit:
            c.cut('evaluated often')
        seen = visible(c, env) if env else None
        kind = c.choice('%s.%d' % (self.name, i), ('value', 'raise'))
        v = c.choice('%s.%d.e' % (self.name, i), self.excs) if kind == 'raise' else c.obj('%s.%d.v' % (self.name, i), self.types)
        self.calls.append((src, seen, kind, v))
        spoil(env)
        if kind == 'raise':
            raise v('x')
        return v


def func(v):
    return v


def token(c, R):
    """an Eval token and the names it declares"""
    form = c.choice('form', c.P.get('forms', ('class', 'none', 'names', 'objects', 'target', 'target and all')))
    a = c.obj('a', ('V0', 'int', 'NoneType'))
    names = {}
    if form == 'class':
        return R.Eval, names, False
    if form in ('names', 'target and all'):
        names['a'] = a
        names['b'] = 5
    if form in ('objects', 'target and all'):
        names['func'] = func
        names['W'] = U.W
    t = form.startswith('target')
    args = ([...] if t else []) + [names[k] for k in ('func', 'W') if k in names]
    return R.Eval(*args, **{k: names[k] for k in ('a', 'b') if k in names}), names, t


def same_names(c, seen, names):
    return seen is not None and seen.keys() == names.keys() and c.And(*[c.same(seen[k], names[k]) for k in names])


def evals(c):
    """Eval: what is evaluated, how often, with which names, and what becomes of the outcome"""
    R = c.R
    tok, names, target = token(c, R)
    if target:
        names = dict(names, V1=U.V1)
    ev = Evaluator(c, 'ev', c.P.get('results', ('V1', 'V2', 'W', 'str', 'NoneType', 'int')), c.P.get('excs', EXCS))
    lit = []
    c.hook('eval', ev)
    c.hook('literal_eval', lambda s: lit.append(s))
    st = c.choice('style', ('check', 'strict'))
    A = c.record('A', {'x': annot(R, U.V1, style(R, st), tok), 'y': Dflt(object, 0)}, unary_parse=False)
    ok = lambda v: c.is_inst(v, U.V1) if st == 'check' else c.is_type(v, U.V1)
    for n in range(c.P.get('rounds', 1)):
        v = c.obj('v%d' % n, c.P.get('types', ALL))
        del ev.calls[:]
        ev.name = 'ev%d' % n
        o = c.attempt(lambda: A(x=v))
        if c.fork(ok(v)):
            c.check('of the type: not evaluated', not ev.calls and o.ok and c.same(o.value.x, v))
            c.reach('as is')
        elif not c.fork(c.is_inst(v, str)):
            c.check('no string: not evaluated', not ev.calls)
            c.check('no string: refused', o.raised())
            c.reach('no string')
        else:
            c.check('evaluated once', len(ev.calls) == 1)
            if not ev.calls:
                return
            src, seen, kind, r = ev.calls[0]
            c.check('the argument itself is evaluated', c.same(src, v))
            c.check('only the declared names', same_names(c, seen, names))
            if kind == 'raise':
                c.check('failure: refused', o.raised())
                c.reach('failed')
            else:
                good = ok(r)
                c.check('outcome of the type: accepted', c.Iff(o.ok, good))
                if o.ok:
                    c.check('the outcome itself', c.same(o.value.x, r))
                c.reach('accepted' if o.ok else 'wrong type')
        c.check('not the literal evaluator', not lit)


RE = ('as is', 'no string', 'failed', 'accepted', 'wrong type')
UNITS.add('eval', evals, reach=RE, weight=15)
UNITS.add('eval twice', evals, reach=RE, rounds=2, types=('V1', 'str', 'SSub', 'int'), results=('V1', 'W', 'str'), excs=(TypeError, SyntaxError), forms=('class', 'names', 'target and all'), weight=20)
UNITS.add('eval three times', evals, reach=RE, rounds=3, types=('V1', 'V2', 'str', 'bytes'), results=('V1', 'V2', 'str'), excs=(TypeError, NameError), weight=99, tier='thorough')
UNITS.add('eval any result', evals, reach=RE, rounds=1, results=ALL, weight=40, tier='thorough')


@UNITS.unit(reach=('accepted', 'refused'), weight=10)
def shared(c):
    """one token in several fields and classes: every field sees its own target type only; namespaces are not shared"""
    R = c.R
    a = c.obj('a', ('V0', 'int'))
    tok = R.Eval(..., func, a=a)
    ev = Evaluator(c, 'ev', ('V1', 'W', 'NoneType'), (SyntaxError,), limit=8)
    c.hook('eval', ev)
    A = c.record('A', {'x': annot(R, U.V1, R.check, tok), 'y': Dflt(annot(R, U.W, R.check, tok), None)}, unary_parse=False)
    B = c.record('B', {'z': annot(R, U.V2, R.check, tok)}, unary_parse=False)
    L = c.record('L', {'l': annot(R, List[annot(R, U.V1, R.check, tok)], R.check), 'u': Dflt(annot(R, Union[U.V1, U.W], R.check, tok), None)}, unary_parse=False)
    s = c.obj('s', ('str', 'SSub'))
    base = {'func': func, 'a': a}
    order = c.choice('order', ('ABL', 'LBA', 'BAL'))
    for k in order:
        del ev.calls[:]
        ev.name = 'ev' + k
        if k == 'A':
            o = c.attempt(lambda: A(x=s, y=s))
            want = [dict(base, V1=U.V1), dict(base, W=U.W)]
        elif k == 'B':
            o = c.attempt(lambda: B(z=s))
            want = [dict(base, V2=U.V2)]
        else:
            o = c.attempt(lambda: L(l=[s]))
            want = [dict(base, V1=U.V1)]
        c.check('no more evaluations than fields', 1 <= len(ev.calls) <= len(want))
        for (src, seen, kind, r), w in zip(ev.calls, want):
            c.check('the declared names and the target', same_names(c, seen, w))
            c.check('the argument', c.same(src, s))
        good = len(ev.calls) == len(want) and all(kind == 'value' for _, _, kind, _ in ev.calls) and c.And(*[c.is_inst(r, t) for (_, _, _, r), t in zip(ev.calls, {'A': (U.V1, U.W), 'B': (U.V2,), 'L': (U.V1,)}[k])])
        c.check('accepted exactly if every outcome is of its type', c.Iff(o.ok, good))
        c.reach('accepted' if o.ok else 'refused')


@UNITS.unit(reach=('evaluated', 'fallback', 'refused'), weight=8)
def among_coercers(c):
    """a failed evaluation leaves the argument to the next coercer; a composed one passes its outcome on"""
    R = c.R
    tok, names, target = token(c, R)
    ev = Evaluator(c, 'ev', ('V1', 'W', 'str'), (SyntaxError, ZeroDivisionError))
    c.hook('eval', ev)
    f = DetFn(c, 'f', kinds=('obj', 'raise'), types=('V1', 'W'))
    form = c.choice('order', ('eval first', 'eval last', 'composed', 'literal after'))
    if form == 'composed':
        toks = [R.ComposeCoercer(R.CallCoercion(f), tok)]
    else:
        toks = [tok, R.CallCoercion(f)] if form != 'eval last' else [R.CallCoercion(f), tok]
    A = c.record('A', {'x': annot(R, U.V1, R.check, *toks)}, unary_parse=False)
    v = c.obj('v', ('str', 'SSub', 'W', 'NoneType', 'bytes'))
    o = c.attempt(lambda: A(x=v))
    s = c.fork(c.is_inst(v, str))
    calls = list(ev.calls)
    c.check('strings only, once', len(calls) <= (1 if s else 0))
    kind, r = (calls[0][2], calls[0][3]) if calls else ('raise', None)
    good = lambda x: c.fork(c.is_inst(x, U.V1))
    res = None
    if form == 'composed':
        c.check('evaluated', len(calls) == (1 if s else 0))
        if kind != 'raise':
            k, y = f.ask(r)
            res = (y,) if k != 'raise' and good(y) else None
        else:
            c.check('the rest is not called', not f.calls)
    elif form == 'eval last':
        k, y = f.ask(v)
        if k != 'raise' and good(y):
            res = (y,)
            c.check('not needed', not calls)
        elif kind != 'raise' and good(r):
            res = (r,)
    else:
        if kind != 'raise' and good(r):
            res = (r,)
            c.check('not needed', not f.calls)
        else:
            k, y = f.ask(v)
            res = (y,) if k != 'raise' and good(y) else None
    c.check('outcome', o.ok == (res is not None))
    if o.ok:
        c.check('value', c.same(o.value.x, res[0]))
        c.reach('evaluated' if c.fork(c.same(res[0], r)) and kind != 'raise' else 'fallback')
    else:
        c.reach('refused')


def literals(c):
    """LiteralEval: strings only, with the literal evaluator only, until there is no string left"""
    R = c.R
    T = c.choice('T', c.P.get('targets', (int, float, bool, tuple, list, dict)))
    ev = Evaluator(c, 'lit', c.P.get('results', ('int', 'bool', 'float', 'str', 'SSub', 'tuple', 'list', 'dict', 'NoneType')), c.P.get('excs', EXCS), limit=c.P.get('limit', 3))
    other = []
    c.hook('literal_eval', ev)
    c.hook('eval', lambda *a: other.append(a))
    st = c.choice('style', ('check', 'strict'))
    A = c.record('A', {'x': annot(R, T, style(R, st), R.LiteralEval if c.choice('token', ('class', 'instance')) == 'class' else R.LiteralEval())}, unary_parse=False)
    ok = lambda v: c.is_inst(v, T) if st == 'check' else c.is_type(v, T)
    v = c.obj('v', c.P.get('types', ALL))
    o = c.attempt(lambda: A(x=v))
    c.check('not eval', not other)
    if c.fork(ok(v)):
        c.check('of the type: not evaluated', not ev.calls and o.ok and c.same(o.value.x, v))
        c.reach('as is')
        return
    if not c.fork(c.is_inst(v, str)):
        c.check('no string: not evaluated', not ev.calls)
        c.check('no string: refused', o.raised())
        c.reach('no string')
        return
    c.check('evaluated', len(ev.calls) >= 1)
    cur = v
    for i, (src, seen, kind, r) in enumerate(ev.calls):
        c.check('each string once, in turn', c.same(src, cur))
        c.check('a string', c.is_inst(src, str))
        last = i + 1 == len(ev.calls)
        if kind == 'raise':
            c.check('a failure is the end', last)
            c.check('failure: refused', o.raised())
            c.reach('failed')
            return
        cur = r
    c.check('until it is none', c.Not(c.is_inst(cur, str)))
    c.check('outcome of the type: accepted', c.Iff(o.ok, ok(cur)))
    if o.ok:
        c.check('the outcome itself', c.same(o.value.x, cur))
    c.reach('accepted' if o.ok else 'wrong type')


UNITS.add('literals', literals, reach=RE, weight=30, results=('int', 'bool', 'str', 'SSub', 'tuple', 'NoneType'), targets=(int, bool, tuple), types=('int', 'bool', 'ISub', 'str', 'SSub', 'bytes', 'NoneType', 'tuple', 'list'), excs=(ValueError, SyntaxError, Plain))
UNITS.add('literals of any exception', literals, reach=RE, weight=15, limit=2, targets=(float, list, dict), results=('float', 'list', 'dict', 'str'), types=('float', 'str', 'SSub', 'dict', 'bytes'))
UNITS.add('literals thoroughly', literals, reach=RE, weight=99, tier='thorough', limit=4, targets=(int, complex, set, dict, str))


EXPRS = {
    'a': lambda n: n['a'], '[a, b][0]': lambda n: n['a'], '(lambda: a)()': lambda n: n['a'], 'b if 1 else a': lambda n: n['b'], '(lambda a: a)(b)': lambda n: n['b'], '[x for x in (a, b)][1]': lambda n: n['b'], 'ident(a)': lambda n: n['a'],
    '(b := a)': lambda n: n['a'], '[y := a][0]': lambda n: n['a'],
    # failing ones
    'nope': None, '': None, 'a +': None, '1/0': None, 'len(a)': None, 'open("x")': None, '__import__("os")': None, 'print(a)': None, 'R': None, 'eval("a")': None, 'self': None, 'v': None, 'ns': None, 'origin': None, 'Exception': None,
    'a; b': None, 'import os': None, 'x = a': None, 'V1': None, '\0': None, 'locals()': None, 'globals()': None, 'isinstance(a, int)': None, 'filler': None, 'kwargs': None, 'records': None, '__name__': None, '__file__': None,
}


@UNITS.unit(reach=('evaluated', 'failed'), weight=6)
def real_names(c):
    """the real evaluator with arbitrary declared values: declared names give their values, others fail"""
    R = c.R
    names = {'a': c.obj('a', ('V1', 'W')), 'b': c.obj('b', ('V1', 'V2')), 'ident': lambda v: v}
    A = c.record('A', {'x': annot(R, U.V1, R.check, R.Eval(**names))}, unary_parse=False)
    e = c.choice('expression', tuple(EXPRS))
    first = c.choice('before', ('nothing', '[a := 5]', '__builtins__.clear()', '(leak := a)', 'leak'))
    if first != 'nothing':
        c.attempt(lambda: A(x=first))
        c.check('no leak', c.attempt(lambda: A(x='leak')).raised())
    o = c.attempt(lambda: A(x=e))
    f = EXPRS[e]
    if f is None:
        c.check('refused', o.raised())
        c.reach('failed')
        return
    want = f(names)
    c.check('accepted exactly if of the type', c.Iff(o.ok, c.is_inst(want, U.V1)))
    if o.ok:
        c.check('the value', c.same(o.value.x, want))
        c.reach('evaluated')


@UNITS.unit(reach=('done',), weight=2)
def real_builtins(c):
    """no builtin is visible unless declared"""
    R = c.R
    v = c.obj('v', ('V0', 'int', 'NoneType'))
    tok = c.choice('token', ('class', 'plain', 'target'))
    A = c.record('A', {'x': annot(R, U.V1, R.check, {'class': R.Eval, 'plain': R.Eval(v=v), 'target': R.Eval(..., v=v)}[tok], R.CallCoercion(lambda s: U.V1(0)))}, unary_parse=False)
    got = []
    B = c.record('B', {'x': annot(R, U.V1, R.check, R.Eval(..., len, note=got.append, v=v))}, unary_parse=False)
    for name in dir(builtins):
        if name.isidentifier() and name not in ('None', 'True', 'False', '__debug__', 'len'):
            c.attempt(lambda: B(x='note(%s)' % name))
            c.check('invisible: ' + name, not got)
    c.check('target visible', c.attempt(lambda: B(x='V1(3)')).ok and c.attempt(lambda: B(x='V1(len([0, 0]))')).value.x.k == 2)
    c.check('declared visible', c.attempt(lambda: B(x='note(v)')).raised() and len(got) == 1 and c.same(got[0], v))
    c.reach('done')


@UNITS.unit(reach=('accepted', 'refused'), weight=3)
def real_literals(c):
    """the real literal evaluator"""
    R = c.R
    s, r = c.choice('s', (('5', 5), ("'5'", 5), ('"\'5\'"', 5), ('(1, 2)', (1, 2)), ('[1]', [1]), ('abc', None), ("'abc'", None), ('1 + 1', None), ('int("5")', None), ('', None), ('(', None), ('None', None), ('{1: 2}', {1: 2}), ('True', True),
                          ('__import__("os")', None), ('b"x"', b'x'), ('5.5', 5.5), ('lambda: 5', None)))
    T = c.choice('T', (int, tuple, list, dict, bool, float))
    A = c.record('A', {'x': annot(R, T, R.check, R.LiteralEval)}, unary_parse=False)
    o = c.attempt(lambda: A(x=s))
    good = isinstance(r, T)
    c.check('accepted', o.ok == good)
    if o.ok:
        c.check('value', o.value.x == r and type(o.value.x) is type(r))
    c.reach('accepted' if o.ok else 'refused')


@UNITS.unit(reach=('evaluated', 'no string'), weight=4)
def odd_values(c):
    """whatever a value says of itself: only strings are evaluated; a declared value may be anything; so may the outcome"""
    R = c.R
    kind, v = odd(c, 'v')
    where = c.choice('where', ('argument', 'name', 'outcome'))
    calls = []
    T = U.V1
    if where == 'argument':
        which = c.choice('token', ('eval', 'eval names', 'literal'))
        good = U.V1(3) if which != 'literal' else 12
        T = U.V1 if which != 'literal' else int

        def ev(src, *env):
            calls.append((src, visible(c, env) if env else None))
            return good
        c.hook('eval' if which != 'literal' else 'literal_eval', ev)
        A = c.record('A', {'x': annot(R, T, R.check_strict, {'eval': R.Eval, 'eval names': R.Eval(..., a=v), 'literal': R.LiteralEval}[which])}, unary_parse=False)
        o = c.attempt(lambda: A(x=v))
        if isinstance(v, str):
            c.check('evaluated', len(calls) == 1 and calls[0][0] is v and o.ok and o.value.x is good)
            if which == 'eval names':
                c.check('the names', set(calls[0][1]) == {'a', 'V1'} and calls[0][1]['a'] is v)
            c.reach('evaluated')
        else:
            c.check('not evaluated, refused', not calls and o.raised())
            c.reach('no string')
    elif where == 'name':
        A = c.record('A', {'x': annot(R, object, R.check_strict, R.Eval(a=v, b=2), R.CallCoercion(lambda s: object()))}, unary_parse=False)
        B = c.record('B', {'x': annot(R, list, R.check, R.Eval(a=v, b=2))}, unary_parse=False)
        for i in range(2):
            o = c.attempt(lambda: B(x='[a, b]'))
            c.check('the declared value itself', o.ok and o.value.x[0] is v and o.value.x[1] == 2)
        c.check('nothing else', c.attempt(lambda: B(x='[a, b, c]')).raised())
        c.reach('evaluated')
    else:
        c.hook('eval', lambda src, *env: calls.append(src) or v)
        A = c.record('A', {'x': annot(R, object, R.CallValidation(lambda x: x)), 'y': annot(R, type(v), R.check_strict, R.Eval)}, unary_parse=False)
        s = c.choice('s', ('a', 'b'))
        if type(v) is str:
            return
        o = c.attempt(lambda: A(x=0, y=s))
        c.check('the outcome itself', len(calls) == 1 and calls[0] is s and o.ok and o.value.y is v)
        c.reach('evaluated')


@UNITS.unit(reach=('evaluated', 'as is', 'refused'), weight=6)
def shapes(c):
    """wherever the fields are declared"""
    R = c.R
    a = c.obj('a', ('V0', 'int'))
    ev = Evaluator(c, 'ev', ('V1', 'W'), (SyntaxError,))
    lit = Evaluator(c, 'lit', ('int', 'list'), (ValueError,))
    c.hook('eval', ev)
    c.hook('literal_eval', lit)
    sh = shaped(c, {'x': annot(R, U.V1, R.check, R.Eval(..., a=a)), 'y': annot(R, int, R.check, R.LiteralEval)}, unary_parse=False)
    v, w = c.obj('v', ('str', 'V2')), c.obj('w', ('SSub', 'bool', 'bytes'))
    o = c.attempt(lambda: sh.cls(x=v, y=w))
    vs, ws = c.fork(c.is_inst(v, str)), c.fork(c.is_inst(w, str))
    c.check('strings only, once', len(ev.calls) <= vs and len(lit.calls) <= ws)
    for calls, arg, names in ((ev.calls, v, {'a': a, 'V1': U.V1}), (lit.calls, w, None)):
        for src, seen, kind, r in calls:
            c.check('the argument, with the names', c.same(src, arg) and (names is None or same_names(c, seen, names)))
    good = c.And(c.Or(not vs, *[c.is_inst(r, U.V1) for _, _, k, r in ev.calls if k == 'value']),
                 c.Or(c.is_inst(w, int), *[c.is_inst(r, int) for _, _, k, r in lit.calls if k == 'value']))
    c.check('accepted exactly if all is of its type', c.Iff(o.ok, good))
    if o.ok:
        c.check('the values', c.And(c.same(o.value.x, ev.calls[0][3] if vs else v), c.same(o.value.y, lit.calls[0][3] if ws else w)))
    c.reach('evaluated' if o.ok and vs else 'as is' if o.ok else 'refused')
