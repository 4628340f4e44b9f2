"""C04: validators chain in order, once each, after the type stage."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = 'up to 3 validators (thorough: 4) with arbitrary results or exceptions, 0..1 coercer, hollow, checked and strict fields of 10 types; declared as tokens, in pre_bind or both kinds of add_*; 2 constructions in a row'
OUTSIDE = 'validators of container fields relative to the filling of the elements (C07); more than 4 validators'
EXCS = (ValueError, TypeError, KeyError, Plain, TwoArgs, StopIteration, AssertionError, AttributeError)


class PickyError(Exception):
    def __init__(self, response):
        super().__init__(response.text)


def chain(c):
    R = c.R
    h = BY_HINT[c.P['hint']]
    st = c.choice('style', c.P['styles'])
    n = c.P['n']
    types = c.P['types']
    fs = [c.stub('g%d' % i, ('same', 'obj', 'none', 'raise') if n < 3 else ('same', 'obj', 'raise'), types,
                 EXCS if n == 1 else (ValueError, TwoArgs)) for i in range(n)]
    co = c.stub('f', ('obj', 'raise'), types) if c.P.get('coercer') and st != 'hollow' else None
    toks = [style(R, st)]
    if co:
        toks.append(R.CallCoercion(co))
    how = c.P.get('how', 'tokens')
    hint = h.make(R)
    ns = {}
    if how == 'tokens':
        toks += [R.CallValidation(f) for f in fs]
    elif how == 'before':
        toks = [R.CallValidation(f) for f in fs] + toks
    else:
        def pre_bind(cls):
            for f in fs:
                cls.field_x.add_validator(f)
        ns = {'pre_bind': classmethod(pre_bind)}
    A = c.record('A', {'field_x': R.Annotated[(hint,) + tuple(toks)], 'other': Dflt(int, 0)}, ns=ns)
    v = c.obj('v', types)
    o = c.attempt(A, field_x=v)
    cur = v
    if st != 'hollow' and not c.fork(h.accepts(c, v, st == 'strict')):
        if co is None or co.calls[0][2] == 'raise' or not c.fork(h.accepts(c, co.calls[0][3], st == 'strict')):
            c.check('a failed type stage raises', o.raised(Exception))
            c.check('no validator runs after a failed type stage', all(not f.calls for f in fs))
            c.reach('type stage failed')
            return
        cur = co.calls[0][3]
    for i, f in enumerate(fs):
        c.check('the validator runs exactly once', len(f.calls) == 1)
        a, k, kind, val = f.calls[0]
        c.check('the validator gets the result of the previous one', len(a) == 1 and not k and c.same(a[0], cur))
        if kind == 'raise':
            c.check('later validators do not run', all(not g.calls for g in fs[i + 1:]))
            c.check('the construction fails', not o.ok)
            c.check('with an error of the same type', type(o.exc) is (ValueError if type(val) is TwoArgs else type(val)))
            c.check('naming the field', 'field_x' in str(o.exc))
            c.check('chained to the original', o.exc.__cause__ is val)
            c.reach('validator raised')
            return
        cur = val
    c.check('the result of the last validator is stored', o.ok and c.same(o.value.field_x, cur))
    c.reach('validated')


REACH = ('validator raised', 'validated')
for name, types in (('V1', ('V0', 'V1', 'V2', 'NoneType')), ('int', ('int', 'bool', 'str', 'NoneType')), ('None', ('NoneType', 'V0')),
                    ('Callable', ('function', 'NoneType', 'V0')), ('object', ('V0', 'NoneType'))):
    UNITS.add('one/' + name, chain, hint=name, types=types, styles=('hollow', 'check', 'strict'), n=1, coercer=True, reach=REACH)
    UNITS.add('two/' + name, chain, hint=name, types=types, styles=('hollow', 'check'), n=2, reach=REACH, weight=3)
for name, types in (('bool', ('bool', 'int')), ('Integral', ('int', 'str', 'bool')), ('Any', ('V0', 'int')), ('list', ('list', 'tuple')),
                    ('NewType', ('int', 'V0'))):
    UNITS.add('two/' + name, chain, hint=name, types=types, styles=('hollow', 'check'), n=2, how='before', coercer=True, reach=REACH, weight=3)
UNITS.add('three/V0', chain, hint='V0', types=('V0', 'W'), styles=('hollow', 'check'), n=3, reach=REACH, weight=4)
UNITS.add('three/V0/pre_bind', chain, hint='V0', types=('V0',), styles=('hollow', 'strict'), n=3, how='pre_bind', reach=REACH, weight=4)
UNITS.add('two/str/pre_bind', chain, hint='str', types=('str', 'int'), styles=('hollow', 'check'), n=2, how='pre_bind', coercer=True, reach=REACH, weight=4)
UNITS.add('four/V0', chain, hint='V0', types=('V0',), styles=('hollow', 'check'), n=4, reach=REACH, weight=9, tier='thorough')


@UNITS.unit(reach=('ok', 'raised'))
def assert_validators(c):
    """assertion and plain validators mixed: one chain in the order given"""
    R = c.R
    st = c.choice('style', ('hollow', 'check'))
    log = []
    t1, t2 = c.flag('t1'), c.flag('t2')
    new = c.obj('new', ('V0', 'V1'))

    def p(v):
        log.append(('p', v))
        return t1

    def g(v):
        log.append(('g', v))
        return new

    def q(v):
        log.append(('q', v))
        return t2
    how = c.choice('how', ('tokens', 'pre_bind'))
    if how == 'tokens':
        A = c.record('A', {'x': R.Annotated[U.V0, R.AssertCallValidation(p), R.CallValidation(g), style(R, st), R.AssertCallValidation(q)]})
    else:
        def pre_bind(cls):
            cls.x.add_assert_validator(p)
            cls.x.add_validator()(g)
            cls.x.add_assert_validator(err='no')(q)
        A = c.record('A', {'x': R.Annotated[U.V0, style(R, st)]}, ns={'pre_bind': classmethod(pre_bind)})
    v = c.obj('v', ('V0', 'V1'))
    o = c.attempt(A, x=v)
    want = ['p']
    if c.fork(t1):
        want += ['g', 'q']
    c.check('the validators that should run, in order', [n for n, _ in log] == want)
    c.check('each sees the right value', c.And(c.same(log[0][1], v), *[c.same(a, b) for (_, a), b in zip(log[1:], [v, new])]))
    if c.fork(c.And(t1, t2)):
        c.check('the last result is stored', o.ok and c.same(o.value.x, new))
        c.reach('ok')
    else:
        c.check('a failed assertion raises ValueError', o.raised(ValueError))
        c.reach('raised')


@UNITS.unit(reach=('done',))
def two_fields(c):
    """validators of several fields do not mix, and inherited ones run as well"""
    R = c.R
    g, h = c.stub('g', ('same', 'obj', 'raise'), ('V0',), (KeyError,)), c.stub('h', ('same', 'obj', 'raise'), ('V0',), (Plain,))
    B = c.record('B', {'one': R.Annotated[U.V0, R.CallValidation(g)]})
    if c.choice('inherit', (False, True)):
        A = c.record('A', {'two': R.Annotated[U.V0, R.check, R.CallValidation(h)]}, (B,))
    else:
        A = c.record('A', {'one': R.Annotated[U.V0, R.CallValidation(g)], 'two': R.Annotated[U.V0, R.check, R.CallValidation(h)]})
    x, y = c.obj('x', ('V0',)), c.obj('y', ('V0',))
    kw = {'one': x, 'two': y}
    if c.choice('order', (False, True)):
        kw = {'two': y, 'one': x}
    o = c.attempt(A, **kw)
    for f, arg, name in ((g, x, 'one'), (h, y, 'two')):
        c.check('at most one call', len(f.calls) <= 1)
        for a, k, kind, val in f.calls:
            c.check('on its own argument', c.same(a[0], arg))
            if kind == 'raise':
                c.check('error of the field that failed', (not o.ok) and type(o.exc) is type(val) and name in str(o.exc) and o.exc.__cause__ is val)
    if o.ok:
        c.check('both ran', len(g.calls) == 1 and len(h.calls) == 1)
        c.check('both stored', c.And(c.same(o.value.one, g.calls[0][3]), c.same(o.value.two, h.calls[0][3])))
    else:
        c.check('somebody raised', any(k[2] == 'raise' for k in g.calls + h.calls))
    c.reach('done')


@UNITS.unit(reach=('hollow', 'checked'))
def element_validators(c):
    """validators of the members of hollow unions and of element types run as well"""
    R = c.R
    kind = c.choice('kind', ('union', 'union outer', 'list', 'tuple', 'dict', 'optional', 'set member'))
    g = c.stub('g', ('same', 'raise'), excs=(Plain,))
    V = R.CallValidation(g)
    v = c.obj('v', ('V0', 'int'))
    hint, arg = {
        'union': lambda: (Union[R.Annotated[U.V0, V], R.Annotated[str, V]], v),
        'union outer': lambda: (R.Annotated[Union[U.V0, str], V], v),
        'optional': lambda: (R.Annotated[Optional[U.V0], V], v),
        'list': lambda: (R.Annotated[List[R.Annotated[U.V0, V]], R.check], [v]),
        'tuple': lambda: (R.Annotated[Tuple[R.Annotated[U.V0, V], int], R.check], (v, 1)),
        'dict': lambda: (R.Annotated[Dict[str, R.Annotated[U.V0, V]], R.check], {'k': v}),
        'set member': lambda: (R.Annotated[Tuple[R.Annotated[U.V0, V], ...], R.check], (v,)),
    }[kind]()
    A = c.record('A', {'x': hint})
    o = c.attempt(A, x=arg)
    c.check('the validator ran', len(g.calls) >= 1)
    c.check('on the member', c.And(*[c.same(k[0][0], v) for k in g.calls]))
    if all(k[2] == 'raise' for k in g.calls):
        c.check('construction fails if it always raised', not o.ok)
        c.reach('checked')
    if all(k[2] == 'same' for k in g.calls):
        c.check('stored as it is', o.ok and o.value.x is arg)
        c.reach('hollow')


@UNITS.unit(reach=('done',))
def picky_errors(c):
    """error types whose constructor fails on a message are reported as ValueError"""
    R = c.R
    kind = c.choice('kind', ('picky', 'unicode', 'two'))
    e = {'picky': lambda: PickyError(type('Resp', (), {'text': 't'})()), 'unicode': lambda: UnicodeDecodeError('utf8', b'x', 0, 1, 'bad'),
         'two': lambda: TwoArgs(1, 2)}[kind]()

    def g(v):
        raise e
    A = c.record('A', {'field_x': R.Annotated[int, R.CallValidation(g)]})
    o = c.attempt(A, field_x=c.obj('v', ('int',)))
    c.check('ValueError naming the field and chained', type(o.exc) is ValueError and 'field_x' in str(o.exc) and o.exc.__cause__ is e)
    c.reach('done')


@UNITS.unit(reach=('ok', 'raised'), weight=3)
def assertions_keep_the_value(c):
    """only the truth of what an assertion returns matters: the value itself goes on"""
    R = c.R
    T = ('V0', 'V1', 'int', 'bool', 'str', 'NoneType', 'tuple')
    results = [c.obj('r%d' % i, T) for i in range(2)]
    seen = []

    def mk(i):
        def f(v):
            seen.append((i, v))
            return results[i]
        return f
    how = c.choice('how', ('tokens', 'pre_bind', 'decorated'))
    st = c.choice('style', ('hollow', 'check'))
    ns, toks = {}, []
    if how == 'tokens':
        toks = [R.AssertCallValidation(mk(0)), R.AssertCallValidation(mk(1), err=ValueError('no'))]
    else:
        def pre_bind(cls):
            if how == 'pre_bind':
                cls.x.add_assert_validator(mk(0))
                cls.x.add_assert_validator(mk(1), err='no')
            else:
                cls.x.add_assert_validator()(mk(0))
                cls.x.add_assert_validator(err='no')(mk(1))
        ns = {'pre_bind': classmethod(pre_bind)}
    A = c.record('A', {'x': annot(R, object, style(R, st), *toks)}, ns=ns)
    v = c.obj('v', ('V0', 'V1', 'int', 'NoneType', 'tuple'))
    o = c.attempt(A, x=v)
    t0, t1 = c.fork(c.truth(results[0])), c.fork(c.truth(results[1]))
    c.check('called in order until one fails', [i for i, _ in seen] == ([0, 1] if t0 else [0]))
    c.check('each with the value itself', c.And(*[c.same(x, v) for _, x in seen]))
    if t0 and t1:
        c.check('the value itself is stored', o.ok and c.same(o.value.x, v))
        c.reach('ok')
    else:
        c.check('ValueError', o.raised(ValueError))
        c.reach('raised')


@UNITS.unit(reach=('validated', 'raised'), weight=3)
def repeated(c):
    """the same validator given twice runs twice"""
    R = c.R
    g, h = c.stub('g', ('same', 'obj', 'raise'), ('V0',), (Plain,)), c.stub('h', ('obj',), ('V0',))
    how = c.choice('how', ('token', 'equal tokens', 'pre_bind', 'token and pre_bind', 'nested', 'inherited'))
    between = c.choice('between', (False, True)) if how != 'token and pre_bind' else False
    seq = [g, h, g] if between else [g, g]
    mk = {id(g): R.CallValidation(g), id(h): R.CallValidation(h)}
    st = style(R, c.choice('style', ('hollow', 'check')))

    def pre_bind_of(fs):
        def pre_bind(cls):
            for f in fs:
                cls.x.add_validator(f)
        return {'pre_bind': classmethod(pre_bind)}
    if how == 'token':
        A = c.record('A', {'x': annot(R, U.V0, st, *[mk[id(f)] for f in seq])})
    elif how == 'equal tokens':
        A = c.record('A', {'x': annot(R, U.V0, st, *[R.CallValidation(f) for f in seq])})
    elif how == 'pre_bind':
        A = c.record('A', {'x': annot(R, U.V0, st)}, ns=pre_bind_of(seq))
    elif how == 'token and pre_bind':
        A = c.record('A', {'x': annot(R, U.V0, st, mk[id(g)])}, ns=pre_bind_of(seq[1:]))
    elif how == 'nested':
        A = c.record('A', {'x': annot(R, annot(R, U.V0, st, mk[id(g)]), *[mk[id(f)] for f in seq[1:]])})
    else:
        B = c.record('B', {'x': annot(R, U.V0, st, *[mk[id(f)] for f in seq])})
        A = c.record('A', {'y': Dflt(int, 0)}, (B,))
    v = c.obj('v', ('V0',))
    o = c.attempt(A, x=v)
    cur = v
    order = []
    n = {id(g): 0, id(h): 0}
    for f in seq:
        c.check('the validator runs at its turn', len(f.calls) > n[id(f)])
        a, k, kind, val = f.calls[n[id(f)]]
        n[id(f)] += 1
        c.check('on the current value', len(a) == 1 and c.same(a[0], cur))
        if kind == 'raise':
            c.check('the failure ends it', (not o.ok) and o.exc.__cause__ is val and len(g.calls) == n[id(g)] and len(h.calls) == n[id(h)])
            c.reach('raised')
            return
        cur = val
    c.check('no further calls', len(g.calls) == n[id(g)] and len(h.calls) == n[id(h)])
    c.check('the last result is stored', o.ok and c.same(o.value.x, cur))
    c.reach('validated')


@UNITS.unit(reach=('raised', 'validated'), weight=6)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    fs = [c.stub('g%d' % i, ('obj', 'raise'), ('V0',), (Plain,)) for i in range(2)]
    S = shaped(c, {'w': Dflt(object, None), 'x': annot(R, U.V0, style(R, c.choice('style', ('check', 'hollow'))), *[R.CallValidation(f) for f in fs])})
    v = c.obj('v', ('V0',))
    o = c.attempt(S.cls, x=v)
    cur = v
    for i, f in enumerate(fs):
        c.check('runs once on the result of the previous one', len(f.calls) == 1 and c.same(f.calls[0][0][0], cur))
        if f.calls[0][2] == 'raise':
            c.check('later ones do not run', all(not g.calls for g in fs[i + 1:]))
            c.check('an error of its type that names the field', o.raised(Plain) and 'x' in str(o.exc) and o.exc.__cause__ is f.calls[0][3])
            c.reach('raised')
            return
        cur = f.calls[0][3]
    c.check('the last result is stored', o.ok and c.same(o.value.x, cur) and o.value.w is None)
    c.reach('validated')


@UNITS.unit(reach=('validated', 'asserted'), weight=3)
def odd_results(c):
    """whatever a validator returns is what is stored, or given to the next; an assertion's result is only asked for its truth"""
    R = c.R
    kind, r = odd(c, 'r')
    how = c.choice('how', ('plain', 'then', 'assert'))
    seen = []

    def g(v):
        seen.append(v)
        return r

    def h(v):
        seen.append(v)
        return v
    hint = c.choice('hint', (object, Any, U.V0))
    st = c.choice('style', ('hollow', 'check'))
    toks = {'plain': (R.CallValidation(g),), 'then': (R.CallValidation(g), R.CallValidation(h)), 'assert': (R.AssertCallValidation(g), R.CallValidation(h))}[how]
    # (an order between what the annotation gives and what pre_bind adds is nowhere promised)
    if how != 'assert' and c.choice('bound', (False, True)):
        fs = (g, h) if how == 'then' else (g,)

        def pre_bind(cls):
            for f in fs:
                cls.x.add_validator(f)
        A = c.record('A', {'x': annot(R, hint, style(R, st))}, ns={'pre_bind': classmethod(pre_bind)})
    else:
        A = c.record('A', {'x': annot(R, hint, style(R, st), *toks)})
    v = c.obj('v', ('V0', 'V1'))
    o = c.attempt(A, x=v)
    if how == 'assert':
        if ODD[kind][1] is True:
            c.check('a true result lets the value itself through', o.ok and c.same(o.value.x, v) and len(seen) == 2 and c.same(seen[1], v))
        elif ODD[kind][1] is False:
            c.check('a false one fails', o.raised(ValueError) and len(seen) == 1)
        else:
            c.check('at most the value itself is stored', not o.ok or c.same(o.value.x, v))
        c.reach('asserted')
        return
    c.check('its result is what is stored', o.ok and o.value.x is r)
    c.check('and what the next one gets', len(seen) == (1 if how == 'plain' else 2) and c.same(seen[0], v) and (how == 'plain' or seen[1] is r))
    c.reach('validated')


@UNITS.unit(reach=('done',), weight=4)
def again(c):
    """the same object passed again, or another that is equal: every construction runs every validator"""
    R = c.R
    n = [0]
    calls = []

    def mk(name):
        def f(v):
            n[0] += 1
            kind = c.choice('%s.%d' % (name, n[0]), ('same', 'obj', 'raise'))
            val = v if kind == 'same' else c.obj('%s.%d.v' % (name, n[0]), ('V0',)) if kind == 'obj' else None
            calls.append((name, v, kind, val))
            if kind == 'raise':
                raise Plain('no')
            return val
        return f
    st = c.choice('style', ('hollow', 'check'))
    hint = annot(R, U.V0, style(R, st), R.CallValidation(mk('f')), R.CallValidation(mk('g')))
    A = c.record('A', {'x': hint})
    v = c.obj('v', ('V0',))
    for t in range(2):
        del calls[:]
        o = c.attempt(A, x=v)
        cur = v
        for i, name in enumerate('fg'):
            c.check('runs at its turn on the current value', len(calls) > i and calls[i][0] == name and c.same(calls[i][1], cur))
            if calls[i][2] == 'raise':
                c.check('the failure ends it', len(calls) == i + 1 and o.raised(Plain))
                break
            cur = calls[i][3]
        else:
            c.check('its result is stored', len(calls) == 2 and o.ok and c.same(o.value.x, cur))
    c.reach('done')
