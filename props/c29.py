"""C29: field errors keep their type, name the field and chain the cause."""
import collections.abc

from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('classes with 1 to 4 fields (5 in the thorough tier), own and inherited, given by keyword in any order, by position or through a mapping; arbitrary arguments; failures by type check, arbitrary coercers and validators, '
          'elements of containers and nested records; exceptions with causes of their own; 14 exception types, 6 of which cannot be built from a message')
OUTSIDE = 'exceptions that are no Exception; exception types whose constructor returns something else; post_new and default factories'


class KwOnly(Exception):
    def __init__(self, *, code):
        super().__init__(code)
        self.code = code


class Picky(TypeError):
    """Cannot be built from a string."""

    def __init__(self, code):
        if isinstance(code, str):
            raise RuntimeError('no strings')
        super().__init__(code)


class Sub(ValueError):
    pass


class NoArgs(LookupError):
    def __init__(self):
        super().__init__('fixed text')


def chained(e, cause, suppress=False):
    e.__cause__ = cause
    e.__suppress_context__ = suppress or cause is not None
    return e


def noted(e):
    e.add_note('bravo')
    return e


MAKE = {
    'chained': lambda: chained(ValueError('o'), KeyError('inner')), 'chained TypeError': lambda: chained(TypeError('o'), chained(TypeError('p'), ValueError('q'))), 'from None': lambda: chained(ValueError('o'), None, True), 'noted': lambda: noted(KeyError('o')),
    'TypeError': lambda: TypeError('o'), 'ValueError': lambda: ValueError('o'), 'KeyError': lambda: KeyError('o'), 'Sub': lambda: Sub('o'), 'Plain': lambda: Plain('o'), 'OSError': lambda: OSError(2, 'o'),
    'StopIteration': lambda: StopIteration(3), 'RecursionError': lambda: RecursionError('o'), 'Exception': lambda: Exception(),
    'TwoArgs': lambda: TwoArgs('a', 'b'), 'UnicodeDecodeError': lambda: UnicodeDecodeError('ascii', b'x', 0, 1, 'o'), 'KwOnly': lambda: KwOnly(code=3), 'Picky': lambda: Picky(3), 'NoArgs': lambda: NoArgs(),
}
STRANGE = ('TwoArgs', 'UnicodeDecodeError', 'KwOnly', 'Picky', 'NoArgs')
NAMES = ('alpha', 'bravo', 'charlie', 'delta', 'echo')


class Fn:
    """An arbitrary function that returns its argument or raises; remembers what it raised."""

    def __init__(self, c, name, excs, swap=False):
        self.c, self.name, self.excs, self.n, self.raised, self.swap = c, name, excs, 0, [], swap
        self.__name__ = name

    def __call__(self, v):
        i = self.n
        self.n += 1
        if i > 6:
            self.c.cut('called often')
        kind = self.c.choice('%s.%d' % (self.name, i), ('same',) + tuple(self.excs))
        if kind == 'same':
            return U.V1(5) if self.swap else v
        e = MAKE[kind]()
        self.raised.append((e, kind))
        raise e


def proper(c, exc, field, original, kind, label=''):
    """the error of a field"""
    if kind in STRANGE:
        c.check(label + 'a ValueError in its place', type(exc) is ValueError)
    else:
        c.check(label + 'of the same type', type(exc) is type(original))
    text = str(exc)
    c.check(label + 'names the field', field in text and not any(n in text for n in NAMES if n != field))
    c.check(label + 'caused by the original', exc.__cause__ is original)
    c.check(label + 'not the original itself', exc is not original)
    inner = original.__cause__
    if kind.startswith('chained'):
        c.check(label + 'the original keeps its cause', type(inner) is {'chained': KeyError, 'chained TypeError': TypeError}[kind])
    elif not label:
        c.check('the original keeps having no cause', inner is None)


def make(c, n, fns):
    """a class with n fields; fns: {index: (where, Fn)}"""
    R = c.R
    fields = {}
    for i in range(n):
        w, f = fns.get(i, (None, None))
        hint = {None: object, 'validator': annot(R, object, R.CallValidation(f)), 'assertion': annot(R, object, R.AssertCallValidation(lambda v, f=f: f(v) or True)), 'coercer': annot(R, U.V1, R.check, R.CallCoercion(f)),
                'checked validator': annot(R, U.V1, R.check, R.CallValidation(f)), 'element': annot(R, List[annot(R, object, R.CallValidation(f))], R.check),
                'union': annot(R, Union[annot(R, U.V1, R.CallValidation(f)), annot(R, U.V1, R.check)], R.check)}[w]
        fields[NAMES[i]] = hint
    k = c.choice('inherited', c.P.get('inherited', (0,)))
    if k and k < n:
        P = c.record('P', {x: fields[x] for x in NAMES[:k]})
        return c.record('A', {x: fields[x] for x in NAMES[k:n]}, bases=(P,), unary_parse=False, **c.P.get('kw', {}))
    return c.record('A', fields, unary_parse=False, **c.P.get('kw', {}))


def single(c):
    """one field fails, the others do not"""
    R = c.R
    n = c.P.get('n', 3)
    i = c.choice('failing', tuple(range(n)))
    where = c.choice('where', c.P.get('wheres', ('validator', 'coercer', 'checked validator', 'assertion', 'element')))
    f = Fn(c, 'f', c.P.get('excs', tuple(k for k in MAKE if k not in ('chained', 'chained TypeError', 'from None', 'noted'))), swap=where == 'coercer')
    A = make(c, n, {i: (where, f)})
    v = c.obj('v', ('V1', 'W', 'int', 'NoneType'))
    order = c.choice('order', ('as declared', 'reversed'))
    names = NAMES[:n] if order == 'as declared' else NAMES[:n][::-1]
    arg = [v] if where == 'element' else v
    others = c.obj('others', ('V0', 'int', 'NoneType'))
    how = c.choice('how', c.P.get('hows', ('keywords', 'mapping')))
    args = {x: arg if x == NAMES[i] else others for x in names}
    call = {'keywords': lambda **k: A(**k), 'mapping': lambda **k: A.from_mapping(k), 'mapping and keywords': lambda **k: A.from_mapping({x: k[x] for x in list(k)[:1]}, **{x: k[x] for x in list(k)[1:]}),
            'new': lambda **k: A.__new__(A, **k)}[how]
    o = c.attempt(lambda: call(**args))
    if f.raised:
        c.check('no record', o.raised())
        e, kind = f.raised[-1]
        proper(c, o.exc, NAMES[i], e, kind)
        c.reach('odd' if kind in STRANGE else 'same type')
    elif not o.ok:
        # refused by the type check
        c.check('refused with reason', where in ('checked validator',) and c.Not(c.is_inst(v, U.V1)))
        c.check('a TypeError', type(o.exc) is TypeError)
        c.check('its cause is a TypeError', type(o.exc.__cause__) is TypeError)
        c.check('names the field', NAMES[i] in str(o.exc) and not any(x in str(o.exc) for x in NAMES if x != NAMES[i]))
        c.reach('type check')
    else:
        c.reach('fine')
    # the class is as good as new
    f.excs = ()
    w = U.V1(8)
    o = c.attempt(lambda: A(**{x: [w] if where == 'element' and x == NAMES[i] else w for x in names}))
    c.check('usable afterwards', o.ok and all(getattr(o.value, x) is w for x in names if x != NAMES[i]))
    if o.ok:
        got = getattr(o.value, NAMES[i])
        c.check('as if nothing had happened', got[0] is w if where == 'element' else got is w)


R4 = ('odd', 'same type', 'type check', 'fine')
UNITS.add('single', single, reach=R4, n=2, weight=20)
UNITS.add('single chained', single, reach=('same type', 'type check', 'fine'), n=2, excs=('chained', 'chained TypeError', 'from None', 'noted'), weight=9)
UNITS.add('single of three', single, reach=R4, n=3, inherited=(1, 2), wheres=('validator', 'checked validator'), excs=('TypeError', 'KeyError', 'TwoArgs'), hows=('keywords', 'mapping', 'mapping and keywords', 'new'), weight=15)
UNITS.add('single frozen', single, reach=('odd', 'same type', 'fine'), n=1, kw={'frozen': True, 'ordered': True}, hows=('keywords', 'new'), weight=8)
UNITS.add('single of five', single, reach=R4, n=5, inherited=(0, 2), weight=99, tier='thorough')


def several(c):
    """several fields may fail: the error is that of one of them, whole"""
    n = c.P.get('n', 3)
    fs = {i: (c.choice('where%d' % i, c.P.get('wheres', ('validator', 'coercer'))), Fn(c, 'f%d' % i, c.P.get('excs', ('TypeError', 'Sub', 'TwoArgs')))) for i in range(n)}
    for w, f in fs.values():
        f.swap = w == 'coercer'
    A = make(c, n, fs)
    vs = [c.obj('v%d' % i, ('V1', 'int')) for i in range(n)]
    perm = c.choice('order', ('as declared', 'reversed', 'rotated'))
    idx = {'as declared': list(range(n)), 'reversed': list(range(n))[::-1], 'rotated': list(range(1, n)) + [0]}[perm]
    o = c.attempt(lambda: A(**{NAMES[i]: vs[i] for i in idx}))
    failed = [i for i in range(n) if fs[i][1].raised]
    if not failed:
        c.check('made', o.ok)
        c.reach('made')
        return
    c.check('no record', o.raised())
    match = [i for i in failed if NAMES[i] in str(o.exc)]
    c.check('names one of the fields that fail', len(match) == 1)
    if match:
        e, kind = fs[match[0]][1].raised[-1]
        proper(c, o.exc, NAMES[match[0]], e, kind)
    c.reach('several' if len(failed) > 1 else 'one')


UNITS.add('several', several, reach=('made', 'one'), weight=25)
UNITS.add('several of four', several, reach=('made', 'one'), n=4, wheres=('validator',), weight=60, tier='thorough')


@UNITS.unit(reach=('same type', 'odd', 'type check'), weight=10)
def others(c):
    """the error does not depend on the arguments of the other fields, good or bad, declared or not"""
    R = c.R
    f = Fn(c, 'f', ('KeyError', 'TwoArgs'))
    A = c.record('A', {'alpha': annot(R, object, R.CallValidation(f)), 'bravo': annot(R, U.V1, R.check), 'charlie': Dflt(annot(R, int, R.check_strict), 0)}, unary_parse=False)
    v, w, x = c.obj('v', ('V0', 'int')), c.obj('w', ('V1', 'V2', 'W')), c.obj('x', ('int', 'bool', 'str'))
    given = c.choice('given', ('ab', 'ba', 'abc', 'cab', 'bca'))
    vals = {'a': ('alpha', v), 'b': ('bravo', w), 'c': ('charlie', x)}
    o = c.attempt(lambda: A(**dict(vals[k] for k in given)))
    bad = []
    if f.raised:
        bad.append('alpha')
    if not c.fork(c.is_inst(w, U.V1)):
        bad.append('bravo')
    if 'c' in given and not c.fork(c.is_type(x, int)):
        bad.append('charlie')
    if not bad:
        c.check('made', o.ok)
        return
    c.check('no record', o.raised())
    text = str(o.exc)
    named = [k for k in ('alpha', 'bravo', 'charlie') if k in text]
    c.check('names exactly one failing field', len(named) == 1 and named[0] in bad)
    if named == ['alpha'] and f.raised:
        proper(c, o.exc, 'alpha', *f.raised[-1])
        c.reach('odd' if f.raised[-1][1] in STRANGE else 'same type')
    else:
        c.check('type checks raise TypeError', type(o.exc) is TypeError and type(o.exc.__cause__) is TypeError)
        c.reach('type check')


@UNITS.unit(reach=('trivial', 'fine'), weight=8)
def positional(c):
    """the only required field, given by position"""
    R = c.R
    where = c.choice('where', ('validator', 'coercer', 'checked validator'))
    f = Fn(c, 'f', tuple(MAKE), swap=where == 'coercer')
    hint = {'validator': annot(R, object, R.CallValidation(f)), 'coercer': annot(R, U.V1, R.check, R.CallCoercion(f)), 'checked validator': annot(R, U.V1, R.check, R.CallValidation(f))}[where]
    A = c.record('A', {'bravo': Dflt(object, 0), 'alpha': hint}, frozen=c.choice('frozen', (False, True)), **c.choice('kw', ({}, {'unary_parse': True})))
    v = c.obj('v', ('V1', 'W', 'int', 'NoneType'))
    o = c.attempt(lambda: A(v, bravo=3) if c.choice('more', (False, True)) else A(v))
    if f.raised:
        c.check('no record', o.raised())
        proper(c, o.exc, 'alpha', *f.raised[-1])
        c.reach('trivial')
    elif o.ok:
        c.check('made', type(o.value) is A)
        c.reach('fine')
    else:
        c.check('type check', type(o.exc) is TypeError and 'alpha' in str(o.exc) and type(o.exc.__cause__) is TypeError)


@UNITS.unit(reach=('inner', 'outer', 'fine'), weight=8)
def nested(c):
    """errors of nested records are chained field by field"""
    R = c.R
    f = Fn(c, 'f', ('TypeError', 'Sub', 'TwoArgs', 'KeyError'))
    B = c.record('B', {'bravo': annot(R, object, R.CallValidation(f)), 'delta': Dflt(object, 1)}, unary_parse=False)
    form = c.choice('form', ('coercer', 'validator', 'element', 'constructor'))
    mk = lambda v: B(bravo=v)
    hint = {'coercer': annot(R, B, R.check, R.CallCoercion(mk)), 'validator': annot(R, object, R.CallValidation(mk)), 'element': annot(R, List[annot(R, B, R.check, R.CallCoercion(mk))], R.check),
            'constructor': annot(R, B, R.check, R.Loose)}[form]
    A = c.record('A', {'alpha': hint, 'charlie': object}, unary_parse=False)
    v = c.obj('v', ('V0', 'int'))
    o = c.attempt(lambda: A(alpha=[v] if form == 'element' else v, charlie=v))
    if not f.raised:
        c.check('made', o.ok)
        c.reach('fine')
        return
    c.check('no record', o.raised())
    e, kind = f.raised[-1]
    inner = o.exc.__cause__
    c.check('there is an inner error', isinstance(inner, Exception))
    proper(c, inner, 'bravo', e, kind, 'inner: ')
    proper(c, o.exc, 'alpha', inner, 'ok', 'outer: ')
    c.reach('inner')
    c.reach('outer')


@UNITS.unit(reach=('failed', 'fine'), weight=8)
def repeated(c):
    """failures leave no trace: what follows is as on a fresh class"""
    R = c.R
    f = Fn(c, 'f', ('ValueError', 'TwoArgs'))
    frozen = c.choice('frozen', (False, True))
    fields = lambda: {'alpha': annot(R, List[annot(R, object, R.CallValidation(f))], R.check), 'bravo': annot(R, U.V1, R.check), 'charlie': Dflt(object, R.Factory(list))}
    A = c.record('A', fields(), frozen=frozen, unary_parse=False)
    v, w = c.obj('v', ('V0', 'int')), c.obj('w', ('V1', 'W'))
    lst = [v, v]
    before = dict(vars(A)), dict(A._fields)
    for i in range(2):
        f.raised.clear()
        o = c.attempt(lambda: A(alpha=lst, bravo=w))
        ok = not f.raised and c.fork(c.is_inst(w, U.V1))
        c.check('made exactly if nothing failed', o.ok == ok)
        c.check('argument untouched', len(lst) == 2 and c.same(lst[0], v) and c.same(lst[1], v))
        if o.ok:
            c.check('values', o.value.alpha is lst and c.same(o.value.bravo, w) and o.value.charlie == [])
            c.reach('fine')
        else:
            if f.raised and 'alpha' in str(o.exc):
                proper(c, o.exc, 'alpha', *f.raised[-1])
            c.reach('failed')
    c.check('the class is as it was', dict(A._fields) == before[1] and {k: x for k, x in vars(A).items()}.keys() == before[0].keys())


class FalsyError(Exception):
    """false, equal to everything, without a message"""

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None

    def __str__(self):
        return ''


class RaisingError(Exception):
    """cannot be looked at"""

    def __str__(self):
        raise RuntimeError('no text')
    __repr__ = __bool__ = __len__ = __str__

    def __eq__(self, other):
        raise RuntimeError('not comparable')
    __hash__ = None


class Stateful(ValueError):
    """carries a traceback, a cause and notes of its own"""


@UNITS.unit(reach=('failed', 'chained'), weight=4)
def odd_exceptions(c):
    """whatever an exception says of itself, and whatever it was chained to before"""
    R = c.R
    T = c.choice('T', (FalsyError, RaisingError, Stateful, KeyError))
    _, v = odd(c, 'v', ('always equal falsy', '== raises', 'no truth value'))
    before = c.choice('chained', ('no', 'cause', 'context', 'suppressed', 'reused'))
    inner = FalsyError('inner')
    e = T('first', 2) if c.choice('args', ('one', 'two')) == 'two' else T('first')
    where = c.choice('where', ('validator', 'assertion', 'coercer'))

    def f(x):
        if before == 'cause':
            raise e from inner
        if before == 'suppressed':
            raise e from None
        if before == 'context':
            try:
                raise inner
            except FalsyError:
                raise e
        raise e
    hint = {'validator': lambda: annot(R, object, R.CallValidation(f)), 'assertion': lambda: annot(R, object, R.AssertCallValidation(f)), 'coercer': lambda: annot(R, U.V1, R.check, R.CallCoercion(f))}[where]()
    A = c.record('A', {'bravo': object, 'alpha': hint}, unary_parse=False)
    for i in range(2 if before == 'reused' else 1):
        o = c.attempt(lambda: A(alpha=v, bravo=v))
        c.check('no record', o.raised())
        c.check('of the same type', type(o.exc) is T)
        text = BaseException.__str__(o.exc)
        c.check('names the field', 'alpha' in text and 'bravo' not in text)
        c.check('caused by the original', o.exc.__cause__ is e and o.exc is not e)
        if before == 'cause':
            c.check('its own cause is kept', e.__cause__ is inner)
            c.reach('chained')
        c.check('the original is as it was', e.args[0] == 'first' and type(e) is T)
    c.reach('failed')


@UNITS.unit(reach=('odd', 'same type', 'type check', 'fine'), weight=8)
def shapes(c):
    """wherever the field is declared"""
    R = c.R
    f = Fn(c, 'f', ('KeyError', 'TwoArgs'))
    sh = shaped(c, {'alpha': annot(R, U.V1, R.check, R.CallValidation(f)), 'bravo': annot(R, object, R.CallValidation(lambda x: x)), 'charlie': Dflt(object, 0)}, unary_parse=False)
    v = c.obj('v', ('V1', 'int'))
    how = c.choice('how', ('keywords', 'mapping', 'new'))
    o = c.attempt(lambda: sh.cls(bravo=v, alpha=v) if how == 'keywords' else sh.cls.from_mapping({'bravo': v}, alpha=v) if how == 'mapping' else sh.cls.__new__(sh.cls, alpha=v, bravo=v, charlie=1))
    if f.raised:
        c.check('no record', o.raised())
        e, kind = f.raised[-1]
        proper(c, o.exc, 'alpha', e, kind)
        c.reach('odd' if kind in STRANGE else 'same type')
    elif not o.ok:
        c.check('refused with reason', c.Not(c.is_inst(v, U.V1)))
        c.check('type check', type(o.exc) is TypeError and type(o.exc.__cause__) is TypeError and 'alpha' in str(o.exc) and not any(x in str(o.exc) for x in ('bravo', 'charlie')))
        c.reach('type check')
    else:
        c.check('values', c.same(o.value.alpha, v))
        c.reach('fine')
