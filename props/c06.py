"""C06: union fields choose the closest matching alternative."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('2 and 3 alternatives out of 9 types, each unchecked, checked or strict, with 0..1 coercer and 0..1 validator of arbitrary outcome; '
          'tokens on the union, nested unions, container and literal alternatives')
OUTSIDE = 'more than 3 alternatives; coercers with side effects on each other'

T = {'V0': ('V0', 'V1', 'W'), 'V1': ('V0', 'V1', 'W'), 'int': ('int', 'bool', 'V0'), 'bool': ('bool', 'int', 'V0'), 'None': ('NoneType', 'V0', 'int'),
     'Any': ('V0', 'int'), 'object': ('V0', 'int'), 'Callable': ('function', 'type', 'V0'), 'Integral': ('int', 'bool', 'V0')}


def choose(c, results):
    """reference: (ok, value) of a union over the reference results of its alternatives"""
    ok = [r for r in results if r is not None]
    if not ok:
        return None
    best = min(r.level for r in ok)
    cand = [r for r in ok if r.level == best]
    for r in cand[1:]:
        if not c.fork(c.same(r.value, cand[0].value)):
            return None
    return cand[0]


def run(c, R, hint, specs, v, dflt='hollow'):
    A = c.record('A', {'x': hint}, default_type_check=style(R, dflt))
    exp = choose(c, [s.fill(c, v) for s in specs])
    o = c.attempt(A, x=v)
    if exp is None:
        c.check('refused: no alternative accepts it, or the closest ones disagree', not o.ok)
        c.reach('refused')
    else:
        c.check('accepted', o.ok)
        c.check('the closest alternative supplies the value', c.same(o.value.x, exp.value))
        c.reach('accepted')


def alts(c):
    R = c.R
    specs = []
    for i, (name, st, co, va) in enumerate(c.P['alts']):
        types = c.P.get('types') if c.P.get('ck') or c.P.get('vk') else T[name]
        specs.append(Spec(BY_HINT[name], st, [DetFn(c, 'f%d' % i, c.P.get('ck', ('obj', 'raise', 'same')), types)] if co else (),
                          [DetFn(c, 'g%d' % i, c.P.get('vk', ('same', 'obj', 'raise')), types)] if va else ()))
    if c.choice('reverse', (False, True)):
        specs.reverse()
    types = c.P.get('types') or tuple(dict.fromkeys(t for n, *_ in c.P['alts'] for t in T[n]))
    run(c, R, Union[tuple(s.hint(R) for s in specs)], specs, c.obj('v', types))


PAIRS = [
    (('V0', 'check', 0, 0), ('V1', 'check', 0, 0)), (('V0', 'check', 1, 0), ('V1', 'check', 1, 0)), (('V0', 'strict', 1, 0), ('V1', 'strict', 1, 0)),
    (('V0', 'check', 0, 1), ('V1', 'check', 0, 1)), (('V0', 'strict', 0, 1), ('V1', 'check', 1, 1)), (('V0', 'hollow', 0, 0), ('V1', 'check', 1, 0)),
    (('V0', 'hollow', 0, 1), ('V1', 'hollow', 0, 1)), (('V0', 'hollow', 0, 1), ('V1', 'check', 0, 1)), (('int', 'check', 1, 0), ('bool', 'check', 1, 0)),
    (('int', 'strict', 1, 0), ('bool', 'check', 0, 1)), (('None', 'check', 1, 0), ('V0', 'check', 1, 0)), (('None', 'check', 0, 1), ('int', 'check', 1, 1)),
    (('Any', 'check', 0, 1), ('V1', 'check', 0, 1)), (('object', 'check', 0, 0), ('int', 'check', 1, 1)), (('Callable', 'check', 1, 0), ('V0', 'check', 1, 0)),
    (('Integral', 'check', 1, 0), ('int', 'strict', 1, 0)), (('Integral', 'check', 0, 1), ('bool', 'check', 0, 1)),
]
for i, p in enumerate(PAIRS):
    UNITS.add('pair/%d' % i, alts, alts=p, reach=('accepted', 'refused') if not any(a[0] in ('Any', 'object') and not a[3] or a[1] == 'hollow' and not a[3] for a in p) else ('accepted',))
TRIPLES = [
    (('V0', 'check', 1, 0), ('V1', 'check', 1, 0), ('W', 'check', 1, 0)), (('V0', 'check', 0, 1), ('V1', 'check', 0, 1), ('None', 'check', 0, 1)),
    (('V0', 'strict', 1, 0), ('None', 'check', 1, 0), ('int', 'check', 0, 0)), (('V0', 'hollow', 0, 1), ('V1', 'check', 1, 0), ('W', 'strict', 0, 0)),
]
T['W'] = ('W', 'V0')
for i, p in enumerate(TRIPLES):
    UNITS.add('triple/%d' % i, alts, alts=p, types=('V0', 'V1', 'W', 'NoneType'), weight=8, reach=('accepted',))
# several alternatives that match equally closely: all of them have to agree
SAME = [
    ((('V0', 'check', 0, 1),) * 3, {}), ((('V0', 'check', 1, 0),) * 3, {'ck': ('obj', 'raise')}), ((('V0', 'hollow', 0, 1),) * 3, {}),
    ((('V0', 'check', 0, 1),) * 4, {'vk': ('same', 'obj')}), ((('V0', 'check', 1, 0),) * 4, {'ck': ('obj', 'raise')}),
    ((('V0', 'check', 0, 1), ('V0', 'strict', 0, 1), ('V0', 'hollow', 0, 1), ('V0', 'check', 0, 1)), {'vk': ('same', 'obj')}),
]
for i, (p, kw) in enumerate(SAME):
    UNITS.add('same/%d' % i, alts, alts=p, types=('V0', 'W'), weight=8, reach=('accepted', 'refused'), **kw)
UNITS.add('same/five', alts, alts=(('V0', 'check', 0, 1),) * 5, vk=('same', 'obj'), types=('V0', 'W'), weight=8, reach=('accepted', 'refused'))


@UNITS.unit(reach=('accepted', 'refused'), weight=2)
def outer_tokens(c):
    """tokens on the union itself act on every alternative"""
    R = c.R
    st = c.choice('style', ('check', 'strict', 'hollow'))
    co, va = c.choice('coercer', (False, True)), c.choice('validator', (False, True))
    if st == 'hollow':
        co = False
    types = ('V0', 'V1', 'int')
    f = [DetFn(c, 'f', ('obj', 'raise'), types)] if co else []
    g = [DetFn(c, 'g', ('same', 'obj', 'raise'), types)] if va else []
    specs = [Spec(BY_HINT[n], st, f, g) for n in ('V0', 'int')]
    toks = specs[0].tokens(R)
    if c.choice('default', (False, True)):
        hint, dflt = annot(R, Union[U.V0, int], *toks), st
    else:
        hint, dflt = R.Annotated[(Union[U.V0, int], style(R, st)) + tuple(toks)], 'hollow'
    run(c, R, hint, specs, c.obj('v', types), dflt)


@UNITS.unit(reach=('accepted', 'refused'), weight=2)
def optional(c):
    """Optional of a checked class, value and default None included"""
    R = c.R
    f = DetFn(c, 'f', ('obj', 'raise', 'same'), ('V0', 'V1', 'NoneType', 'int'))
    specs = [Spec(BY_HINT['V1'], 'check', [f]), Spec(BY_HINT['None'], 'check', [f])]
    d = c.obj('d', ('V0', 'NoneType'))
    v = c.obj('v', ('V0', 'V1', 'V2', 'NoneType', 'int'))
    A = c.record('A', {'x': Dflt(R.Annotated[Optional[U.V1], R.check, R.CallCoercion(f)], d)})
    c.check('the default is stored as it is', c.same(A().x, d))
    exp = choose(c, [s.fill(c, v) for s in specs])
    o = c.attempt(A, x=v)
    if exp is None:
        c.check('refused', not o.ok)
        c.reach('refused')
    else:
        c.check('the closest alternative supplies the value', o.ok and c.same(o.value.x, exp.value))
        c.reach('accepted')


@UNITS.unit(reach=('accepted', 'refused'), weight=3)
def nested(c):
    """a union as an alternative of a union counts with its own best match"""
    R = c.R
    f0, f1 = DetFn(c, 'f0', ('obj', 'raise'), ('V0', 'V1')), DetFn(c, 'f1', ('obj', 'raise'), ('int', 'V0'))
    g = DetFn(c, 'g', ('same', 'obj'), ('V1',))
    inner = [Spec(BY_HINT['V0'], 'check', [f0]), Spec(BY_HINT['int'], 'check', [f1])]
    outer = Spec(BY_HINT['V1'], 'check', (), [g])
    # the token keeps typing from flattening the union
    hints = [R.Annotated[Union[tuple(s.hint(R) for s in inner)], R.Tag('keep')], outer.hint(R)]
    if c.choice('reverse', (False, True)):
        hints.reverse()
    v = c.obj('v', ('V0', 'V1', 'V2', 'int', 'NoneType'))
    a = choose(c, [s.fill(c, v) for s in inner])
    exp = choose(c, [a, outer.fill(c, v)])
    A = c.record('A', {'x': Union[tuple(hints)]})
    o = c.attempt(A, x=v)
    if exp is None:
        c.check('refused', not o.ok)
        c.reach('refused')
    else:
        c.check('the closest alternative supplies the value', o.ok and c.same(o.value.x, exp.value))
        c.reach('accepted')


@UNITS.unit(reach=('accepted', 'refused', 'rebuilt'), weight=3)
def containers(c):
    """container alternatives: those whose elements fail are ignored"""
    R = c.R
    f = DetFn(c, 'f', ('obj', 'raise'), ('V0',))
    L0 = SeqSpec(lambda h: List[h], Spec(BY_HINT['V0'], 'check', [f]), lambda v: isinstance(v, list))
    L1 = SeqSpec(lambda h: List[h], Spec(BY_HINT['int'], 'check'), lambda v: isinstance(v, list))
    N = Spec(BY_HINT['None'], 'check')
    hints = [L0.hint(R), L1.hint(R), N.hint(R)]
    perm = c.choice('order', ((0, 1, 2), (1, 0, 2), (2, 1, 0)))
    hint = Union[tuple(hints[i] for i in perm)]
    A = c.record('A', {'x': hint})
    if c.choice('list', (True, False)):
        v = [c.obj('a', ('V0', 'int')), c.obj('b', ('V0', 'int', 'NoneType'))][:c.choice('n', (2, 1, 0))]
        res = [L0.fill(c, v), L1.fill(c, v)]
        good = [r for r in res if r is not None]
        o = c.attempt(A, x=v)
        if not good or (len(good) == 2 and (good[0].new or good[1].new)):
            c.check('refused', not o.ok)
            c.reach('refused')
        else:
            c.check('accepted', o.ok)
            matches(c, o.value.x, good[0], 'x')
            c.reach('rebuilt' if good[0].new else 'accepted')
    else:
        v = c.obj('v', ('NoneType', 'int', 'V0'))
        o = c.attempt(A, x=v)
        c.check('None exactly', c.Iff(o.ok, c.same(v, None)))


@UNITS.unit(reach=('accepted', 'refused'))
def literals_and_classes(c):
    R = c.R
    kind = c.choice('kind', ('literal', 'type'))
    if kind == 'literal':
        # a literal alternative whose type matches but whose value does not is ignored like any other failure
        A = c.record('A', {'x': Union[R.Annotated[Literal[1, 2], R.check], R.Annotated[U.V0, R.check], R.Annotated[bool, R.check]]})
        v = c.obj('v', ('int', 'bool', 'V0', 'str', 'ISub'))
        ok = c.Or(c.And(c.is_type(v, int), c.Or(c.eq(v, 1), c.eq(v, 2))), c.is_inst(v, U.V0), c.is_type(v, bool))
    else:
        A = c.record('A', {'x': Union[R.Annotated[Type[U.V1], R.check], R.Annotated[Type[int], R.check], R.Annotated[str, R.check]]})
        if c.choice('class', (True, False)):
            v = c.choice('cls', (U.V0, U.V1, U.V2, int, bool, str))
            ok = issubclass(v, (U.V1, int))
        else:
            v = c.obj('v', ('str', 'int', 'NoneType', 'V1'))
            ok = c.is_type(v, str)
    o = c.attempt(A, x=v)
    if c.fork(ok):
        c.check('accepted and stored as it is', o.ok and c.same(o.value.x, v))
        c.reach('accepted')
    else:
        c.check('refused', not o.ok)
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'), weight=6)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    f, g = DetFn(c, 'f', ('obj', 'raise'), ('V0', 'int')), DetFn(c, 'g', ('obj', 'raise'), ('V1',))
    specs = [Spec(BY_HINT['V0'], 'check', [f]), Spec(BY_HINT['V1'], 'check', (), [g])]
    S = shaped(c, {'x': Union[specs[0].hint(R), specs[1].hint(R)], 'y': Dflt(Optional[int], None)})
    v = c.obj('v', ('V0', 'V1', 'int'))
    exp = choose(c, [s.fill(c, v) for s in specs])
    o = c.attempt(S.cls, x=v)
    if exp is None:
        c.check('refused', not o.ok)
        c.reach('refused')
    else:
        c.check('the closest alternative supplies the value', o.ok and c.same(o.value.x, exp.value))
        c.reach('accepted')


@UNITS.unit(reach=('accepted', 'refused'), weight=3)
def odd_values(c):
    """identical, not equal, is what resolves a tie; the argument is never asked for its truth or ==, nor is what coercers make of it"""
    R = c.R
    (k1, v), (k2, w) = odd(c, 'v'), odd(c, 'w', ('nan', 'always equal', 'never equal falsy', '== raises', '== has no truth value'))
    made = {'same one': (w, w), 'two': (w, ODD[k2][0]()), 'argument': (v, v), 'argument and other': (v, w)}[c.choice('made', ('same one', 'two', 'argument', 'argument and other'))]
    how = c.choice('how', ('coercers', 'hollow', 'exact'))
    if how == 'coercers':
        class No:
            pass
        hint = Union[annot(R, type(made[0]), R.check_strict, R.CallCoercion(lambda x: made[0])) if type(made[0]) is not type(v) else annot(R, No, R.hollow, R.CallValidation(lambda x: made[0])),
                     annot(R, object, R.check_strict, R.CallCoercion(lambda x: object())) if False else annot(R, NewType('N', No), R.hollow, R.CallValidation(lambda x: made[1]))]
        if type(made[0]) is not type(v):
            # a coerced alternative is closer than an unchecked one
            A = c.record('A', {'x': hint}, unary_parse=False)
            o = c.attempt(lambda: A(x=v))
            c.check('the closer one', o.ok and o.value.x is made[0])
            c.reach('accepted')
            return
        exp = made[0] is made[1]
    elif how == 'hollow':
        hint = Union[annot(R, int, R.hollow, R.CallValidation(lambda x: made[0])), annot(R, str, R.hollow, R.CallValidation(lambda x: made[1])), annot(R, bytes, R.check)]
        exp = made[0] is made[1]
    else:
        hint = Union[annot(R, str, R.check_strict), annot(R, type(v), R.check), annot(R, object, R.check)]
        made = (v, v)
        exp = True
    A = c.record('A', {'x': hint}, unary_parse=False)
    o = c.attempt(lambda: A(x=v))
    if exp:
        c.check('that one', o.ok and o.value.x is made[0])
        c.reach('accepted')
    else:
        c.check('refused', o.raised())
        c.reach('refused')


@UNITS.unit(reach=('accepted', 'refused'), weight=3)
def optional_validators(c):
    """validators given to an optional field run on None as on any other value"""
    R = c.R
    f = DetFn(c, 'f', ('same', 'obj', 'raise'), ('V0', 'NoneType', 'int'))
    where = c.choice('where', ('whole', 'none', 'pre_bind', 'both'))
    if where == 'whole':
        hint, ns = annot(R, Optional[annot(R, U.V0, R.check)], R.CallValidation(f)), {}
    elif where == 'none':
        hint, ns = Union[annot(R, U.V0, R.check), annot(R, None, R.check, R.CallValidation(f))], {}
    elif where == 'both':
        hint, ns = annot(R, Union[annot(R, U.V0, R.check), annot(R, None, R.check)], R.check, R.CallValidation(f)), {}
    else:
        def pre_bind(cls):
            cls.x.add_validator(f)
        hint, ns = Optional[annot(R, U.V0, R.check)], {'pre_bind': classmethod(pre_bind)}
    A = c.record('A', {'x': hint}, ns=ns, unary_parse=False, default_type_check=R.check)
    v = c.obj('v', ('V0', 'NoneType', 'int'))
    if c.fork(c.is_inst(v, U.V0)):
        kind, exp = f.ask(v) if where != 'none' else ('same', v)
    elif c.fork(c.is_type(v, type(None))):
        kind, exp = f.ask(v)
    else:
        kind, exp = 'raise', None
    o = c.attempt(lambda: A(x=v))
    if kind == 'raise':
        c.check('refused', not o.ok)
        c.reach('refused')
    else:
        c.check('what the validator made of it is stored', o.ok and c.same(o.value.x, exp))
        c.reach('accepted')
