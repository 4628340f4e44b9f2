"""C21: assertion validators accept exactly the values that meet the condition."""
import logging
import re
import warnings

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('Within with every combination of inclusivity and of given/absent bounds over arbitrary integers (any size), rationals, doubles (NaN and infinities included) and strings, and mixtures of them; Truth on every type of the universe; '
          'FullMatch for a family of patterns and flags on all ASCII strings of up to 6 characters; custom assertions with arbitrary outcomes; every err form (default, text, exception, warning instance) and warn form (off, warnings, logger)')
OUTSIDE = 'bounds that are not comparable with the values; warning filters that turn warnings into errors; patterns with look-around or back references'


class Log:
    """A stand-in for a logger that records what it is told."""

    def __init__(self):
        self.seen = []

    def warning(self, msg, *a, **k):
        self.seen.append(('warning', msg, a, k))

    def _other(self, *a, **k):
        self.seen.append(('other',))
    debug = info = error = critical = exception = log = _other


class Custom(ValueError):
    pass


MODES = ('default', 'text', 'exception', 'plain exception', 'warn', 'warn text', 'warn category', 'logger', 'logger text', 'real logger')


def mode_kw(c, mode):
    """(keyword arguments, what to expect)"""
    if mode == 'default':
        return {}, ('raise', ValueError, None)
    if mode == 'text':
        return {'err': 'not this'}, ('raise', ValueError, None)
    if mode == 'exception':
        e = Custom('custom')
        return {'err': e}, ('raise', Custom, e)
    if mode == 'plain exception':
        e = KeyError('k')
        return {'err': e, 'warn': False}, ('raise', KeyError, e)
    if mode == 'warn':
        return {'warn': True}, ('warn', UserWarning, 'validation failed')
    if mode == 'warn text':
        return {'warn': True, 'err': 'careful'}, ('warn', UserWarning, 'careful')
    if mode == 'warn category':
        return {'warn': True, 'err': DeprecationWarning('old')}, ('warn', DeprecationWarning, 'old')
    if mode == 'real logger':
        log = logging.Logger('symx')
        h = logging.Handler()
        log.addHandler(h)
        log.seen = []
        h.emit = lambda record: log.seen.append((record.levelname.lower(), record.msg, (), {}))
        return {'warn': log, 'err': 'to the log'}, ('log', log, 'to the log')
    log = Log()
    return ({'warn': log}, ('log', log, 'validation failed')) if mode == 'logger' else ({'warn': log, 'err': 'to the log'}, ('log', log, 'to the log'))


def run(c, token, exp, v, accept, label, hint=object, st=None, extra=()):
    """Fills a field carrying the token with v; accept: what the condition says (bool or symbolic bool)."""
    R = c.R
    A = c.record('A', {'x': annot(R, hint, *([style(R, st)] if st else []), token, *extra), 'n': Dflt(object, 0)}, unary_parse=False)
    ok = c.fork(accept)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        how = c.choice('how', ('keyword', 'positional'))
        o = c.attempt(lambda: A(x=v) if how == 'keyword' else A(v))
    logged = exp[1].seen if exp[0] == 'log' else []
    if ok:
        c.check(label + ': accepted', o.ok)
        c.check(label + ': stored unchanged', c.same(o.value.x, v))
        c.check(label + ': no warning', not caught and not logged)
        c.reach('accepted')
        return
    c.reach('refused')
    if exp[0] == 'raise':
        c.check(label + ': refused with the configured exception', o.raised(exp[1]) and type(o.exc) is exp[1])
        cause = o.exc.__cause__
        c.check(label + ': the configured exception is the cause', type(cause) is exp[1] and (exp[2] is None or cause is exp[2]))
        c.check(label + ': no warning', not caught and not logged)
    else:
        c.check(label + ': only a warning', o.ok)
        c.check(label + ': stored unchanged', c.same(o.value.x, v))
        if exp[0] == 'warn':
            c.check(label + ': one warning of the category', len(caught) == 1 and caught[0].category is exp[1] and str(caught[0].message) == exp[2])
        else:
            c.check(label + ': one warning in the log', not caught and len(logged) == 1 and logged[0][0] == 'warning' and str(logged[0][1]) == exp[2])


def num(c, name, kind):
    if kind == 'int':
        return c.int(name)
    if kind == 'rat':
        return c.rat(name)
    if kind == 'flt':
        return c.flt(name)
    if kind == 'str':
        return c.string(name, c.P.get('maxlen', 2))
    if kind == 'obj':
        return c.obj(name, ('int', 'bool'))


def within(c):
    R = c.R
    kind = c.choice('kind', c.P['kinds'])
    kv, kb = kind if isinstance(kind, tuple) else (kind, kind)
    given = c.choice('bounds', c.P.get('bounds', ('both', 'lower', 'upper', 'none')))
    kw = {}
    g_eq, l_eq = True, False
    lo = hi = None
    if given in ('both', 'lower'):
        lo = kw['ge'] = num(c, 'lo', kb)
    if given in ('both', 'upper'):
        hi = kw['lt'] = num(c, 'hi', kb)
    inc = c.choice('inclusivity', c.P.get('incs', ('default', 'TT', 'TF', 'FT', 'FF')))
    if inc != 'default':
        g_eq, l_eq = inc[0] == 'T', inc[1] == 'T'
        kw.update(g_eq=g_eq, l_eq=l_eq)
    mkw, exp = mode_kw(c, c.choice('mode', c.P.get('modes', ('default',))))
    kw.update(mkw)
    if given == 'both':
        if kb == 'flt':
            c.assume(c.And(c.eq(lo, lo), c.eq(hi, hi)))   # bounds are not NaN
        if c.fork(lo > hi):
            c.check('bounds in the wrong order are refused', c.attempt(lambda: R.Within(**kw)).raised(ValueError))
            c.reach('bad bounds')
            return
        if not (g_eq and l_eq) and c.fork(c.eq(lo, hi)):
            c.attempt(lambda: R.Within(**kw))     # an empty interval may be refused
            c.reach('empty')
            return
        tok = c.attempt(lambda: R.Within(**kw))
    elif kb == 'flt':
        c.assume(c.And(*[c.eq(b, b) for b in (lo, hi) if b is not None]))
        tok = c.attempt(lambda: R.Within(**kw))
    else:
        tok = c.attempt(lambda: R.Within(**kw))
    c.check('bounds in order are accepted', tok.ok)
    v = num(c, 'v', kv)
    conds = []
    if lo is not None:
        conds.append(lo <= v if g_eq else lo < v)
    if hi is not None:
        conds.append(v <= hi if l_eq else v < hi)
    run(c, tok.value, exp, v, c.And(*conds), 'Within')


UNITS.add('Within ints', within, kinds=('int',), reach=('accepted', 'refused', 'bad bounds', 'empty'), weight=4)
UNITS.add('Within rationals', within, kinds=('rat', ('rat', 'int'), ('int', 'rat')), bounds=('both', 'upper'), reach=('accepted', 'refused', 'bad bounds'), incs=('TT', 'TF', 'FT', 'FF'), weight=6)
UNITS.add('Within doubles', within, kinds=('flt',), reach=('accepted', 'refused', 'bad bounds'), incs=('default', 'TT', 'FT', 'FF'), weight=8)
UNITS.add('Within mixed', within, kinds=(('flt', 'int'),), bounds=('lower', 'upper'), incs=('TT', 'FF'), reach=('accepted', 'refused'), weight=10)
UNITS.add('Within strings', within, kinds=('str',), reach=('accepted', 'refused', 'bad bounds'), incs=('default', 'TT', 'FF'), weight=12)
UNITS.add('Within longer strings', within, kinds=('str',), reach=('accepted', 'refused', 'bad bounds'), maxlen=4, weight=60, tier='thorough')
UNITS.add('Within modes', within, kinds=('int',), bounds=('both', 'lower'), incs=('default', 'FT'), modes=MODES, reach=('accepted', 'refused'), weight=8)
UNITS.add('Within objects', within, kinds=(('obj', 'int'),), bounds=('both', 'lower'), incs=('default', 'TT'), reach=('accepted', 'refused'), weight=6)
UNITS.add('Within everything', within, kinds=('int', 'rat', 'flt', 'str', ('int', 'flt'), ('flt', 'int'), ('rat', 'int')), modes=('default', 'warn', 'logger', 'exception'), reach=('accepted', 'refused', 'bad bounds'), weight=60, tier='thorough')


@UNITS.unit(reach=('accepted', 'refused'), weight=5)
def truth(c):
    R = c.R
    kw, exp = mode_kw(c, c.choice('mode', MODES))
    v = c.obj('v', tuple(t for t in ALL))
    tok = R.Truth if not kw and c.choice('class', (False, True)) else R.Truth(**kw)
    run(c, tok, exp, v, c.truth(v), 'Truth')


@UNITS.unit(reach=('accepted', 'refused'), weight=3)
def truth_numbers(c):
    kind = c.choice('kind', ('int', 'rat', 'flt', 'str'))
    v = num(c, 'v', kind)
    run(c, c.R.Truth(), ('raise', ValueError, None), v, c.Not(c.eq(v, '' if kind == 'str' else 0)), 'Truth')


PATTERNS = ('a*', '[0-9]+', 'a|ab', '(ab)?c', 'a$', '^ab', 'a.b', '', '[^x]y?', r'\d{2,3}', r'\w+@\w+', r'(a|b)*c', 'ab?|b', r'\s*x\s*', '^$', 'a{2}')


def full_match(c):
    R = c.R
    i = c.choice('pattern', range(len(c.P['patterns'])))
    pat, flags = c.P['patterns'][i] if isinstance(c.P['patterns'][i], tuple) else (c.P['patterns'][i], 0)
    rx = re.compile(pat, flags)
    given = rx if flags or c.choice('compiled', (False, True)) else pat
    kw, exp = mode_kw(c, c.choice('mode', c.P.get('modes', ('default',))))
    v = c.string('v', c.P.get('maxlen', 5))
    run(c, R.FullMatch(given, **kw), exp, v, c.fullmatch(rx, v), 'FullMatch')


UNITS.add('FullMatch', full_match, patterns=PATTERNS, reach=('accepted', 'refused'), weight=6)
UNITS.add('FullMatch flags', full_match, patterns=(('ab*', re.IGNORECASE), ('a.b', re.DOTALL), ('[a-c]x', re.IGNORECASE), ('A', re.IGNORECASE | re.DOTALL)), reach=('accepted', 'refused'), weight=4)
UNITS.add('FullMatch modes', full_match, patterns=('a+b?', '[0-9]*'), modes=MODES, reach=('accepted', 'refused'), weight=5)
UNITS.add('FullMatch longer', full_match, patterns=PATTERNS, maxlen=8, modes=('default', 'warn'), reach=('accepted', 'refused'), weight=30, tier='thorough')


@UNITS.unit(reach=('refused',), weight=2)
def not_strings(c):
    """what is not a string does not match"""
    R = c.R
    v = c.obj('v', ('V0', 'int', 'NoneType', 'list', 'bytes'))
    A = c.record('A', {'x': annot(R, object, R.FullMatch('.*'))}, unary_parse=False)
    c.check('refused', c.attempt(lambda: A(x=v)).raised())
    B_ = c.record('B', {'x': annot(R, object, R.FullMatch(b'b.*'))}, unary_parse=False)
    c.check('bytes patterns', B_(x=b'bx').x == b'bx' and c.attempt(lambda: B_(x=b'ab')).raised(ValueError) and c.attempt(lambda: B_(x=b'bb\n')).raised(ValueError))
    c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'), weight=6)
def custom(c):
    """assertion functions: any value they return counts by its truth"""
    R = c.R
    kw, exp = mode_kw(c, c.choice('mode', MODES))
    v = c.obj('v', ('V0', 'NoneType', 'bool'))
    said = c.obj('said', ('bool', 'V0', 'NoneType', 'int'))
    calls = []

    def f(x):
        calls.append(x)
        return said
    how = c.choice('given', ('token', 'subclass'))
    if how == 'token':
        tok = R.AssertCallValidation(f, **kw)
    else:
        tok = type('Mine', (R.AssertValidation,), {'assert_': lambda self, x: f(x)})(**kw)
    run(c, tok, exp, v, c.truth(said), 'assertion')
    c.check('asked once, about the value', len(calls) == 1 and c.same(calls[0], v))


@UNITS.unit(reach=('accepted', 'refused'), weight=5)
def added(c):
    """assertions added in pre_bind, with every mode"""
    R = c.R
    kw, exp = mode_kw(c, c.choice('mode', MODES))
    v, said = c.obj('v', ('V0', 'NoneType')), c.flag('said')
    bare = c.choice('bare', (False, True)) if not kw else False

    def pre_bind(cls):
        if bare:
            cls.x.add_assert_validator(lambda x: said)
        else:
            cls.x.add_assert_validator(**kw)(lambda x: said)
    A = c.record('A', {'x': object}, ns={'pre_bind': classmethod(pre_bind)}, unary_parse=False)
    ok = c.fork(said)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        o = c.attempt(lambda: A(x=v))
    logged = exp[1].seen if exp[0] == 'log' else []
    if ok or exp[0] != 'raise':
        c.check('accepted and stored unchanged', o.ok and c.same(o.value.x, v))
        c.check('warned as configured', len(caught) == (not ok and exp[0] == 'warn') and len(logged) == (not ok and exp[0] == 'log'))
    else:
        c.check('refused with the configured exception', o.raised(exp[1]) and type(o.exc.__cause__) is exp[1])
    c.reach('accepted' if ok else 'refused')


@UNITS.unit(reach=('done',), weight=5)
def several(c):
    """several assertions on one field, and one token on several fields, decide independently and every time"""
    R = c.R
    lo, hi = c.int('lo'), c.int('hi')
    w, t = R.Within(ge=lo), R.Within(lt=hi, err=Custom('too much'))
    A = c.record('A', {'x': annot(R, object, w, t), 'y': Dflt(annot(R, object, t), 0)}, unary_parse=False)
    for i in range(2):
        x, y = c.int('x%d' % i), c.int('y%d' % i)
        o = c.attempt(lambda: A(x=x, y=y))
        a, b, d = c.fork(lo <= x), c.fork(x < hi), c.fork(y < hi)
        if a and b and d:
            c.check('accepted', o.ok and c.And(c.same(o.value.x, x), c.same(o.value.y, y)))
        else:
            allowed = (Custom,) if a else (ValueError,)
            c.check('refused', o.raised(*allowed) and (not a or type(o.exc) is Custom))
    c.reach('done')


@UNITS.unit(reach=('accepted', 'refused'), weight=4)
def odd_values(c):
    """what decides is the condition, whatever else a value says of itself; a value without a truth value is refused"""
    R = c.R
    what = c.choice('token', ('truth', 'assertion', 'said', 'within objects'))
    kw, exp = mode_kw(c, c.choice('mode', ('default', 'exception', 'warn text', 'logger')))
    kind, v = odd(c, 'v', tuple(k for k in ODD if k != 'NotImplemented'))      # whose truth is deprecated, not absent
    t = ODD[kind][1]
    if what == 'truth':
        if t is None:
            A = c.record('A', {'x': annot(R, object, R.Truth(**kw))}, unary_parse=False)
            c.check('no truth: refused', c.attempt(lambda: A(x=v)).raised())
            c.reach('refused')
            return
        run(c, R.Truth(**kw), exp, v, t, 'Truth')
    elif what == 'assertion':
        said = c.flag('said')
        run(c, R.AssertCallValidation(lambda x: said, **kw), exp, v, said, 'assertion')
    elif what == 'said':
        if t is None:
            A = c.record('A', {'x': annot(R, object, R.AssertCallValidation(lambda x: v, **kw))}, unary_parse=False)
            c.check('no truth: refused', c.attempt(lambda: A(x=1)).raised())
            c.reach('refused')
            return
        w = c.obj('w', ('V0', 'NoneType'))
        run(c, R.AssertCallValidation(lambda x: v, **kw), exp, w, t, 'what it says')
    else:
        n = c.int('n')

        class Num:      # compares as it likes
            def __le__(self, other): return n <= 5
            def __ge__(self, other): return n >= 5
            def __lt__(self, other): return n < 5
            def __gt__(self, other): return n > 5
            def __eq__(self, other): return False
            __hash__ = None
        num_ = Num()
        kw['ge'] = 5
        g_eq = kw['g_eq'] = c.choice('g_eq', (False, True))
        run(c, R.Within(**kw), exp, num_, n >= 5 if g_eq else n > 5, 'Within')


@UNITS.unit(reach=('accepted', 'refused'), weight=6)
def shapes(c):
    """wherever the field is declared"""
    R = c.R
    lo, v = c.int('lo'), c.int('v')
    said = c.flag('said')
    sh = shaped(c, {'x': annot(R, object, R.Within(ge=lo, err=Custom('low'))), 'y': annot(R, object, R.AssertCallValidation(lambda x: said, warn=True, err='said'))}, unary_parse=False)
    how = c.choice('how', ('keywords', 'mapping', 'instance'))
    ok, fine = c.fork(v >= lo), c.fork(said)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        if how == 'instance':
            base = c.attempt(lambda: sh.cls(x=lo, y=0))
            c.check('at the bound', base.ok)
            caught.clear()
        o = c.attempt(lambda: sh.cls(x=v, y=1) if how == 'keywords' else sh.cls.from_mapping({'x': v, 'y': 1}) if how == 'mapping' else sh.cls.from_instance(base.value, x=v, y=1))
    if ok:
        c.check('accepted', o.ok and c.same(o.value.x, v))
        c.check('one warning unless it says yes', len(caught) == (not fine) and all(w.category is UserWarning for w in caught))
        c.reach('accepted')
    else:
        c.check('refused', o.raised(Custom) and type(o.exc) is Custom and 'x' in str(o.exc))
        c.reach('refused')


@UNITS.unit(reach=('refused',), weight=2)
def every_time(c):
    """each refusal is answered alike, however often the same token refused before, the same value or another"""
    R = c.R
    kw, exp = mode_kw(c, c.choice('mode', MODES))
    kind = c.choice('token', ('truth', 'assertion', 'within', 'match'))
    tok = {'truth': lambda: R.Truth(**kw), 'assertion': lambda: R.AssertCallValidation(lambda x: False, **kw), 'within': lambda: R.Within(ge=5, **kw), 'match': lambda: R.FullMatch('a', **kw)}[kind]()
    bad = {'truth': (0, None), 'assertion': (1, 'a'), 'within': (4, 0), 'match': ('b', '')}[kind]
    A = c.record('A', {'x': annot(R, object, tok), 'y': Dflt(annot(R, object, tok), {'truth': 1, 'assertion': None, 'within': 6, 'match': 'a'}[kind])}, unary_parse=False)
    steps = c.choice('steps', ((0, 0), (0, 1), (0, 1, 0)))
    for i in steps:
        if exp[0] == 'log':
            del exp[1].seen[:]
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            o = c.attempt(lambda: A(x=bad[i]))
        if exp[0] == 'raise':
            c.check('refused each time', o.raised(exp[1]) and type(o.exc) is exp[1] and type(o.exc.__cause__) is exp[1] and not caught)
        elif exp[0] == 'warn':
            c.check('warned each time', o.ok and [w.category for w in caught] == [exp[1]] and str(caught[0].message) == exp[2])
        else:
            c.check('logged each time', o.ok and not caught and len(exp[1].seen) == 1)
    c.reach('refused')
