"""C10: a positional argument is the one required field or a parse, never both."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('classes with 0, 1 or 2 required fields, with or without optional ones, unary parsing on/off/default; any argument; field processing, 0..2 parsers and '
          'the instance hook each with an arbitrary outcome; with and without keyword arguments; frozen and mutable classes')
OUTSIDE = 'arguments the built-in parsers (mapping, instance, JSON) accept are concrete dicts, strings and objects'
V = ('V0', 'V1', 'W')


def make(c, required, optional, parsers, unary, checked, hook, frozen=False, types=V):
    R = c.R
    ns = {}
    ps = []
    for i in range(parsers):
        p = c.stub('p%d' % i, ('obj', 'none', 'raise'), types, (Plain, TypeError))

        def par(cls, v, p=p):
            return p(v)
        ns['par%d' % i] = R.parser(classmethod(par))
        ps.append(p)
    h = None
    if hook:
        h = c.stub('hook', ('none', 'obj', 'raise'), types, (Plain,))
        ns['post_new'] = lambda self: h(self)
    fields = {}
    for i in range(required):
        fields['r%d' % i] = R.Annotated[U.V0, R.check] if checked else U.V0
    for i in range(optional):
        fields['o%d' % i] = Dflt(int, 7)
    kw = {} if unary is None else {'unary_parse': unary}
    return c.record('A', fields, ns=ns, frozen=frozen, **kw), ps, h


def parse_outcome(c, ps):
    """('ok', value) | ('none', None) | ('many', None), from the logged calls"""
    good = [p.calls[0] for p in ps if p.calls and p.calls[0][2] != 'raise']
    if len(good) == 1:
        return 'ok', good[0][3]
    return ('none' if not good else 'many'), None


def positional(c):
    R = c.R
    required, optional = c.choice('required', c.P['required']), c.choice('optional', (0, 1))
    if required + optional == 0:
        c.assume(False)
    parsers = c.choice('parsers', c.P.get('parsers', (0, 1)))
    unary = c.choice('unary', c.P.get('unary', (None, True, False)))
    checked = c.P.get('checked', False)
    A, ps, hook = make(c, required, optional, parsers, unary, checked, c.P.get('hook', False), c.P.get('frozen', False))
    on = (required != 1) if unary is None else unary
    v = c.obj('v', V)
    o = c.attempt(A, v)
    if not on:
        c.check('parsers do not run with unary parsing off', all(not p.calls for p in ps))
    else:
        c.check('every parser runs once on the argument', all(len(p.calls) == 1 and c.same(p.calls[0][0][0], v) for p in ps))
    if required == 0 and on and optional and not parsers:
        # the built-in instance parser reads the (absent) attributes: an all-default record
        c.check('an all-optional record', o.ok and type(o.value) is A and o.value.o0 == 7)
        c.reach('all optional')
        return
    if required == 0:
        c.assume(on is False or optional == 0)
    pk, pv = parse_outcome(c, ps) if on else ('none', None)
    if pk == 'many':
        c.check('an ambiguous parse raises TypeError', o.raised(TypeError))
        c.reach('ambiguous')
        return
    if required != 1:
        if pk == 'ok':
            c.check('the result of the parse', o.ok and c.same(o.value, pv))
            c.reach('parsed')
        else:
            c.check('refused with TypeError', o.raised(TypeError))
            c.reach('refused')
        return
    fill_ok = not checked or c.fork(c.is_inst(v, U.V0))
    hk = None
    if fill_ok and hook is not None:
        c.check('the hook runs once', len(hook.calls) == 1)
        hk = hook.calls[0]
        fill_ok = hk[2] != 'raise'
    if pk == 'ok' and fill_ok:
        c.check('both succeed: TypeError', o.raised(TypeError))
        c.reach('both')
    elif pk == 'ok':
        c.check('only the parse succeeds: its result', o.ok and c.same(o.value, pv))
        c.reach('parsed')
    elif fill_ok:
        c.check('only filling succeeds', o.ok)
        if hk is not None and hk[2] == 'obj':
            c.check('the replacement', c.same(o.value, hk[3]))
        else:
            c.check('the argument fills the required field', type(o.value) is A and c.same(o.value.r0, v))
            c.check('optional ones have their default', not optional or o.value.o0 == 7)
        c.reach('filled')
    else:
        c.check('neither succeeds: raises', not o.ok)
        c.check('with the error of filling', o.raised(Plain) if hk is not None else o.raised(TypeError))
        c.reach('neither')


UNITS.add('one required', positional, required=(1,), reach=('both', 'parsed', 'filled', 'neither'), checked=True, weight=3)
UNITS.add('one required/hollow', positional, required=(1,), reach=('both', 'filled'), weight=2)
UNITS.add('one required/hook', positional, required=(1,), hook=True, checked=True, reach=('both', 'parsed', 'filled', 'neither'), weight=8)
UNITS.add('one required/frozen', positional, required=(1,), frozen=True, checked=True, reach=('both', 'parsed', 'filled', 'neither'), weight=3)
UNITS.add('several required', positional, required=(2, 3), reach=('parsed', 'refused'), weight=3)
UNITS.add('none required', positional, required=(0,), reach=('all optional', 'refused'), weight=1)
UNITS.add('two parsers', positional, required=(1, 2), parsers=(2,), unary=(None, True), checked=True, reach=('ambiguous', 'both', 'parsed', 'filled', 'neither', 'refused'), weight=9)
UNITS.add('three parsers', positional, required=(1, 2), parsers=(3,), unary=(True,), checked=True, reach=('ambiguous', 'both', 'parsed', 'filled', 'neither', 'refused'), weight=20, tier='thorough')


@UNITS.unit(reach=('filled', 'refused'), weight=4)
def with_keywords(c):
    """a positional argument next to keywords fills the one required field or is refused; it is never parsed"""
    R = c.R
    required = c.choice('required', (0, 1, 2))
    A, ps, _ = make(c, required, 1, 1, c.choice('unary', (None, True, False)), c.choice('checked', (True, False)), False, types=('V0', 'int'))
    v = c.obj('v', ('V0', 'int'))
    kw = {}
    for n in ['r%d' % i for i in range(required)] + ['o0', 'zz']:
        if c.choice('kw.' + n, (False, True)):
            kw[n] = c.obj('k.' + n, ('V0',))
    if not kw:
        c.assume(False)
    o = c.attempt(A, v, **kw)
    c.check('no parser runs', all(not p.calls for p in ps))
    checked = c.P.get('checked')
    if required != 1 or 'r0' in kw or 'zz' in kw:
        c.check('refused with TypeError', o.raised(TypeError))
        c.reach('refused')
        return
    if o.ok:
        c.check('fills the required field', c.same(o.value.r0, v))
        c.check('the keyword is used', c.same(o.value.o0, kw['o0']))
        c.reach('filled')
    else:
        c.check('only a failed check refuses', c.And(o.raised(TypeError), c.Not(c.is_inst(v, U.V0))))


@UNITS.unit(reach=('default on', 'default off'), weight=2)
def default_unary(c):
    """unary parsing is on by default exactly when the class has not exactly one required field, inherited fields included"""
    R = c.R
    base_req, base_opt = c.choice('base', ((0, 1), (1, 0), (1, 1), (2, 0), (0, 0)))
    own_req, own_opt = c.choice('own', ((0, 1), (1, 0), (0, 0), (1, 1)))
    p = c.stub('p', ('obj',), ('V0',))
    ns = {'par': R.parser(classmethod(lambda cls, v: p(v)))}
    n = base_req + own_req
    if base_req + base_opt == 0 and own_req + own_opt == 0:
        c.assume(False)
    bases = None
    base_unary = c.choice('base unary', (None, True, False))
    if base_req + base_opt:
        kw = {} if base_unary is None else {'unary_parse': base_unary}
        fs = {'b%d' % i: int for i in range(base_req)}
        fs.update({'d%d' % i: Dflt(int, 1) for i in range(base_opt)})
        bases = (c.record('B', fs, **kw),)
    fs = {'r%d' % i: int for i in range(own_req)}
    fs.update({'o%d' % i: Dflt(int, 1) for i in range(own_opt)})
    A = c.record('A', fs, bases, ns=ns)
    v = c.obj('v', ('W',))
    o = c.attempt(A, v)
    if n == 1:
        c.check('off: filled', o.ok and not p.calls and c.same(getattr(o.value, 'b0' if base_req else 'r0'), v))
        c.reach('default off')
    elif n == 0:
        c.check('on: two parsers succeed (instance and the own one)', len(p.calls) == 1 and o.raised(TypeError))
        c.reach('default on')
    else:
        c.check('on: parsed', o.ok and len(p.calls) == 1 and c.same(o.value, p.calls[0][3]))
        c.reach('default on')


@UNITS.unit(reach=('parsed', 'filled', 'both', 'neither', 'refused'), weight=4)
def builtin_parsers(c):
    """dicts, JSON strings and objects with the right attributes are parsed by the built-in parsers"""
    R = c.R
    required = c.choice('required', (1, 2))
    unary = c.choice('unary', (None, True, False))
    frozen = c.choice('frozen', (False, True))
    kw = {} if unary is None else {'unary_parse': unary}
    hint = c.choice('hint', ('hollow', 'int'))
    h = R.Annotated[int, R.check] if hint == 'int' else int
    fs = {'x': h, 'y': h} if required == 2 else {'x': h, 'y': Dflt(h, 1)}
    A = c.record('A', fs, frozen=frozen, **kw)
    a, b = c.obj('a', ('int', 'str')), c.obj('b', ('int',))
    kind = c.choice('kind', ('dict', 'json', 'object', 'instance', 'subinstance', 'dict missing', 'dict extra', 'json list', 'json bad', 'other'))

    class Obj:
        pass
    same = False
    good = not (hint == 'int') or c.fork(c.is_inst(a, int))
    if kind == 'dict':
        v = {'x': a, 'y': b}
    elif kind == 'json':
        v = '{"x": 3, "y": 4}'
        a, b, good = 3, 4, True
    elif kind == 'object':
        v = Obj()
        v.x, v.y = a, b
    elif kind in ('instance', 'subinstance'):
        cls = A if kind == 'instance' else c.record('S', {'z': Dflt(int, 0)}, (A,), frozen=frozen)
        o = c.attempt(cls, x=a, y=b)
        if not o.ok:
            c.check('only for a bad value', not good)
            return
        v = o.value
        same = frozen
    elif kind == 'dict missing':
        v = {'y': b}
        good = False
    elif kind == 'dict extra':
        v = {'x': a, 'y': b, 'z': 1}
        good = False
    elif kind == 'json list':
        v, good = '[1, 2]', False
    elif kind == 'json bad':
        v, good = '{"x": 3', False
    else:
        v, good = 0.5, False
    on = required != 1 if unary is None else unary
    parse = on and good
    fill = required == 1 and hint == 'hollow'
    o = c.attempt(A, v)
    if parse and fill:
        c.check('both: TypeError', o.raised(TypeError))
        c.reach('both')
    elif parse:
        c.check('parsed', o.ok)
        if same:
            c.check('the frozen record itself', o.value is v)
        else:
            c.check('a record with the parsed values', type(o.value) is A and c.eq(o.value.x, a) and c.eq(o.value.y, b))
        c.reach('parsed')
    elif fill:
        c.check('filled', o.ok and o.value.x is v and o.value.y == 1)
        c.reach('filled')
    else:
        c.check('raises TypeError', o.raised(TypeError))
        c.reach('neither' if required == 1 else 'refused')


@UNITS.unit(reach=('filled', 'parsed', 'refused'), weight=9)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    n = c.choice('required', (1, 2))
    unary = c.choice('unary', (None, True, False))
    p = c.stub('p', ('obj', 'raise'), ('W',), (Plain,))
    fields = {'r%d' % i: annot(R, U.V0, R.check) for i in range(n)}
    fields['o'] = Dflt(object, 0)
    kw = {} if unary is None else {'unary_parse': unary}
    S = shaped(c, fields, ns={'par': R.parser(classmethod(lambda cls, v: p(v)))}, **kw)
    v = c.obj('v', ('V0', 'int'))
    o = c.attempt(S.cls, v)
    on = n != 1 if unary is None else unary
    c.check('parsers run exactly with unary parsing', len(p.calls) == (1 if on else 0))
    parsed = on and p.calls[0][2] == 'obj'
    fits = n == 1 and c.fork(c.is_inst(v, U.V0))
    if parsed and not fits:
        c.check('the parse', o.ok and c.same(o.value, p.calls[0][3]))
        c.reach('parsed')
    elif fits and not parsed:
        c.check('the required field', o.ok and type(o.value) is S.cls and c.same(o.value.r0, v))
        c.reach('filled')
    elif on and not parsed and n != 1:
        c.check('no parse', o.raised(R.record.ParseFailure))
        c.reach('refused')
    else:
        c.check('TypeError', o.raised(TypeError))
        c.reach('refused')
    if n == 1:
        del p.calls[:]
        o = c.attempt(S.cls, v, o=1)
        c.check('with keywords it only fills', not p.calls and (o.ok and c.same(o.value.r0, v) and o.value.o == 1 if fits else o.raised(TypeError)))
    else:
        c.check('with keywords it is refused', c.attempt(S.cls, v, o=1).raised(TypeError))


@UNITS.unit(reach=('filled', 'parsed', 'refused'), weight=4)
def odd_arguments(c):
    """whatever the argument says of itself (a required field keeps the parsers every class has from taking any of these)"""
    R = c.R
    kind = c.choice('argument', ODD_ALL + ('None', 'False', '', (), 0))
    v = odd_of(c, kind) if kind in ODD else {'None': None, 'False': False}.get(kind, kind)
    fill, parse = c.choice('fills', (True, False)), c.choice('parses', (True, False))
    res = object()
    seen = []

    def p(cls, x):
        seen.append('p')
        if x is v and parse:
            return res
        raise Plain('no')

    def g(x):
        seen.append('g')
        if fill:
            return x
        raise Plain('no')
    unary = c.choice('unary', (True, None, False))
    required = c.choice('required', (1, 2))
    fields = {'r%d' % i: annot(R, object, R.CallValidation(g)) for i in range(required)}
    fields['o'] = Dflt(object, 0)
    A = c.record('A', fields, ns={'p': R.parser(classmethod(p))}, frozen=c.choice('frozen', (False, True)), **({} if unary is None else {'unary_parse': unary}))
    on = required != 1 if unary is None else unary
    o = c.attempt(lambda: A(v))
    parsed = on and parse
    filled = required == 1 and fill
    c.check('the parser runs if parsing is on', seen.count('p') == (1 if on else 0))
    if parsed and filled:
        c.check('both: refused', o.raised(TypeError))
        c.reach('refused')
    elif parsed:
        c.check('the parse', o.ok and o.value is res)
        c.reach('parsed')
    elif filled:
        c.check('the field', o.ok and o.value.r0 is v)
        c.reach('filled')
    else:
        c.check('refused', not o.ok)
        c.reach('refused')
