"""C12: post_new sees a complete record and may replace or veto it."""
from .common import *
from symx.unit import Registry

UNITS = Registry()
BOUNDS = ('mutable and frozen classes of 1..3 fields (given, default, factory, inherited); every way of constructing (keywords, positional, parse, factories, copy, deepcopy); '
          'hook outcomes: None, the record itself, any object, any exception')
OUTSIDE = 'hooks that raise BaseException'
KINDS = ('NoneType', 'V0', 'W', 'int', 'bool', 'str', 'list', 'tuple')


@UNITS.unit(reach=('kept', 'replaced', 'vetoed'), weight=4)
def hook(c):
    R = c.R
    seen = []
    kind = c.choice('outcome', ('none', 'self', 'obj', 'raise', 'fall off'))
    repl = c.obj('repl', KINDS) if kind == 'obj' else None
    exc = c.choice('exc', (Plain, TypeError, KeyError, TwoArgs)) if kind == 'raise' else None
    e = exc and (exc(1, 2) if exc is TwoArgs else exc('veto'))
    d, fac = c.obj('d', ('V0',)), c.stub('fac', ('obj',), ('V0',))

    def post_new(self):
        seen.append((self, {n: getattr(self, n) for n in ('x', 'y', 'z')}))
        if kind == 'self':
            return self
        if kind == 'obj':
            return repl
        if kind == 'raise':
            raise e
        if kind == 'none':
            return None
    frozen = c.choice('frozen', (False, True))
    where = c.choice('where', ('own', 'inherited', 'later fields'))
    fs = {'x': U.V0, 'y': Dflt(U.V0, d), 'z': Dflt(U.V0, R.Factory(fac))}
    if where == 'own':
        A = c.record('A', fs, ns={'post_new': post_new}, frozen=frozen)
    elif where == 'inherited':
        B = c.record('B', fs, ns={'post_new': post_new}, frozen=frozen)
        A = c.record('A', {'w': Dflt(int, 1)}, (B,), frozen=frozen)
    else:
        B = c.record('B', {'x': fs['x'], 'y': fs['y']}, ns={'post_new': post_new}, frozen=frozen)
        A = c.record('A', {'z': fs['z']}, (B,), frozen=frozen)
    v = c.obj('v', ('V0', 'NoneType'))
    how = c.choice('how', ('keyword', 'positional', 'mapping'))
    o = c.attempt({'keyword': lambda: A(x=v), 'positional': lambda: A(v), 'mapping': lambda: A.from_mapping({'x': v})}[how])
    c.check('exactly one call', len(seen) == 1)
    s, vals = seen[0]
    c.check('on a record of the class', type(s) is A)
    c.check('all fields are set', c.And(c.same(vals['x'], v), c.same(vals['y'], d), len(fac.calls) == 1 and c.same(vals['z'], fac.calls[0][3])))
    if kind == 'raise':
        c.check('the exception propagates, no record', (not o.ok) and o.exc is e)
        c.reach('vetoed')
    elif kind == 'obj' and c.fork(c.Not(c.same(repl, None))):
        c.check('the replacement is the result', o.ok and c.same(o.value, repl))
        c.reach('replaced')
    else:
        c.check('the record itself is the result', o.ok and o.value is s)
        c.check('still complete', c.And(c.same(s.x, v), c.same(s.y, d), c.same(s.z, vals['z'])))
        c.reach('kept')


@UNITS.unit(reach=('not called', 'called'), weight=3)
def not_before_complete(c):
    """a construction that fails before the hook does not run it"""
    R = c.R
    calls = []
    fac = c.stub('fac', ('obj', 'raise'), ('V0',), (Plain,))
    g = c.stub('g', ('same', 'raise'), excs=(Plain,))
    A = c.record('A', {'x': R.Annotated[U.V0, R.check, R.CallValidation(g)], 'y': U.V0, 'z': Dflt(U.V0, R.Factory(fac))}, ns={'post_new': lambda self: calls.append(self)},
                 frozen=c.choice('frozen', (False, True)))
    kw = {n: c.obj(n, ('V0', 'int')) for n in ('x', 'y', 'z', 'w') if c.choice('given ' + n, (True, False) if n != 'w' else (False, True))}
    o = c.attempt(A, **kw)
    c.check('hook runs exactly if a record results', len(calls) == (1 if o.ok else 0))
    c.check('on the result', not o.ok or calls[0] is o.value)
    c.reach('called' if o.ok else 'not called')


@UNITS.unit(reach=('copied',), weight=4)
def every_construction(c):
    """copies and rebuilt records are constructions as well; each runs the hook on the new record only"""
    R = c.R
    calls = []

    def post_new(self):
        calls.append((self, self.x, self.y))
    frozen = c.choice('frozen', (False, True))
    A = c.record('A', {'x': U.V0, 'y': Dflt(U.V0, None)}, ns={'post_new': post_new}, frozen=frozen)
    a, b = c.obj('a', ('V0',)), c.obj('b', ('V0', 'NoneType'))
    r = A(x=a, y=b)
    how = c.choice('how', ('copy', 'deepcopy', 'from_mapping', 'from_instance', 'override', 'parse', 'pickle', 'default pickle', 'old pickle'))
    import copy
    import pickle
    n = len(calls)
    s = {'copy': lambda: copy.copy(r), 'deepcopy': lambda: copy.deepcopy(r), 'from_mapping': lambda: A.from_mapping(r.to_dict(include_defaults=True)),
         'from_instance': lambda: A.from_instance(r), 'override': lambda: A.from_instance(r, {'x': a}),
         'parse': lambda: A.parse({'x': a, 'y': b}), 'pickle': lambda: A.from_pickle(r.to_pickle()), 'default pickle': lambda: pickle.loads(pickle.dumps(r)),
         'old pickle': lambda: pickle.loads(pickle.dumps(r, 0))}[how]()
    if 'pickle' in how:
        # (the old protocols restore the record that was constructed)
        c.check('at most one call for the new record', len(calls) <= n + 1 and all(k[0] is s for k in calls[n:]))
    elif s is r:
        c.check('only a frozen record is its own copy', frozen and len(calls) == n)
    else:
        c.check('one call for the new record', len(calls) == n + 1 and calls[-1][0] is s)
        c.check('complete', c.And(c.same(calls[-1][1], s.x), c.same(calls[-1][2], s.y)))
    c.check('of the class', type(s) is A)
    c.reach('copied')


@UNITS.unit(reach=('kept', 'replaced', 'vetoed'), weight=3)
def hook_changes(c):
    """changes the hook makes to a mutable record are kept; a replacement is not processed again"""
    R = c.R
    calls = []
    kind = c.choice('kind', ('assign', 'other record', 'same class', 'raise after assign', 'normalise'))
    new = c.obj('new', ('V0', 'int'))
    made = []

    def post_new(self):
        calls.append(self)
        if kind in ('assign', 'raise after assign'):
            self.x = new
        if kind == 'raise after assign':
            raise Plain('no')
        if kind == 'other record':
            made.append(O(x=self.x))
            return made[-1]
        if kind == 'same class' and len(calls) == 1:
            made.append(A(x=new))
            return made[-1]
        if kind == 'normalise':
            self.y = self.x
    O = c.record('O', {'x': U.V0})
    A = c.record('A', {'x': U.V0, 'y': Dflt(U.V0, None)}, ns={'post_new': post_new})
    v = c.obj('v', ('V0', 'int'))
    o = c.attempt(A, x=v)
    if kind == 'raise after assign':
        c.check('vetoed', o.raised(Plain))
        c.reach('vetoed')
        return
    c.check('ok', o.ok)
    r = o.value
    if made:
        c.check('the replacement', r is made[0] and len(calls) == (2 if kind == 'same class' else 1))
        c.check('as built', c.same(r.x, new if kind == 'same class' else v))
        c.reach('replaced')
        return
    c.check('the record, as the hook left it', r is calls[0] and c.same(r.x, new if kind == 'assign' else v) and c.same(r.y, v if kind == 'normalise' else None))
    c.reach('kept')


@UNITS.unit(reach=('kept', 'replaced'), weight=3)
def record_is_usable_in_hook(c):
    """whatever can be done with a record can be done inside the hook; it does not spoil the record"""
    R = c.R
    import copy
    out = {}
    what = c.choice('what', ('hash', 'eq', 'copy', 'deepcopy', 'to_dict', 'str', 'build another', 'set member', 'select', 'memo'))
    frozen = c.choice('frozen', (False, True)) if what not in ('hash', 'set member', 'memo') else True
    v, w = c.obj('v', ('V0', 'int', 'NoneType')), c.obj('w', ('V0', 'int'))
    memo = {}

    def post_new(self):
        out['self'] = self
        if out.get('busy'):
            return
        out['busy'] = True
        if what == 'hash':
            out['hash'] = c.hash(self)
        elif what == 'eq':
            c.check('equal to itself', c.truth(self == self))
        elif what == 'copy':
            t = copy.copy(self)
            c.check('complete copy', c.And(c.same(t.x, self.x), c.same(t.y, self.y)))
        elif what == 'deepcopy':
            t = copy.deepcopy(self)
            c.check('complete copy', c.And(c.eq(t.x, self.x), c.eq(t.y, self.y)))
        elif what == 'to_dict':
            t = self.to_dict(include_defaults=True)
            c.check('complete dict', c.And(c.same(t['x'], self.x), c.same(t['y'], self.y)) and len(t) == 2)
        elif what == 'str':
            c.check('a str', type(str(self)) is str and type(repr(self)) is str)
        elif what == 'build another':
            t = A(x=w)
            c.check('another record', t is not self and c.same(t.x, w))
            out['self'] = self
        elif what == 'set member':
            c.check('can be looked up', self in {self})
        elif what == 'select':
            t = A.from_instance(self)
            c.check('rebuilt', c.And(c.same(t.x, self.x), c.same(t.y, self.y)))
        elif what == 'memo':
            h = c.hash(self)
            for k, r in memo.setdefault(0, []):
                if c.fork(c.And(c.eq(k, h), self == r)):
                    return r
            memo[0].append((h, self))
        out['self'] = self
        out['busy'] = False

    A = c.record('A', {'x': object, 'y': Dflt(object, 0)}, ns={'post_new': post_new}, frozen=frozen)
    o = c.attempt(A, x=v)
    c.check('succeeds', o.ok)
    r = o.value
    c.check('the record of the hook', r is out['self'] and c.And(c.same(r.x, v), c.same(r.y, 0)))
    if 'hash' in out:
        c.check('its hash stays', c.eq(out['hash'], c.hash(r)))
    out['busy'] = False
    o = c.attempt(A, x=w)
    c.check('another one', o.ok)
    c.check('equal if the values are', c.Iff(o.value == r, c.eq(v, w)))
    if frozen:
        c.check('equal ones hash alike', c.Implies(c.eq(v, w), c.eq(c.hash(o.value), c.hash(r))))
    if what == 'memo' and c.fork(c.eq(v, w)):
        c.check('the memoised record is the result', o.value is r)
        c.reach('replaced')
    else:
        c.check('a record of its own', o.value is not r and c.same(o.value.x, w))
        c.reach('kept')


@UNITS.unit(reach=('kept', 'replaced', 'vetoed'), weight=6)
def shapes(c):
    """whatever else the class declares, and in whichever way"""
    R = c.R
    seen = []
    kind = c.choice('outcome', ('none', 'obj', 'raise'))
    new = c.obj('new', ('V0', 'bool', 'str'))

    def post_new(self):
        seen.append((self, self.x, self.y))
        if kind == 'raise':
            raise Plain('veto')
        return new if kind == 'obj' else None
    S = shaped(c, {'x': annot(R, U.V0, R.check), 'y': Dflt(object, 1)}, ns={'post_new': post_new})
    v = c.obj('v', ('V0', 'int'))
    o = c.attempt(S.cls, x=v)
    if not c.fork(c.is_inst(v, U.V0)):
        c.check('not run without a record', o.raised(TypeError) and not seen)
        return
    c.check('one call on the complete record', len(seen) == 1 and c.same(seen[0][1], v) and seen[0][2] == 1)
    if kind == 'raise':
        c.check('vetoed', o.raised(Plain))
        c.reach('vetoed')
    elif kind == 'obj':
        c.check('replaced', o.ok and c.same(o.value, new))
        c.reach('replaced')
    else:
        c.check('kept', o.ok and o.value is seen[0][0])
        c.reach('kept')


@UNITS.unit(reach=('kept', 'replaced'), weight=3)
def odd_results(c):
    """whatever the result of the hook says of itself: None, and only None, keeps the record"""
    R = c.R
    kind = c.choice('result', ODD_ALL + ('None', 'False', 'NoneType'))
    res = odd_of(c, kind) if kind in ODD else {'None': None, 'False': False, 'NoneType': type(None)}[kind]
    seen = []

    def post_new(self):
        seen.append(self)
        return res
    A = c.record('A', {'x': object, 'y': Dflt(object, 1)}, ns={'post_new': post_new}, frozen=c.choice('frozen', (False, True)), unary_parse=c.choice('unary', (False, True)))
    how = c.choice('how', ('keyword', 'mapping', 'instance', 'parse', 'select'))
    src = type('O', (), {'x': 3})()
    o = c.attempt({'keyword': lambda: A(x=3), 'mapping': lambda: A.from_mapping({'x': 3}), 'instance': lambda: A.from_instance(src), 'parse': lambda: A.parse({'x': 3}), 'select': lambda: A.from_mapping.select(keys_to_add={'x': 3})({})}[how])
    c.check('once, on a complete record', len(seen) == 1 and seen[0].x == 3 and seen[0].y == 1)
    if kind == 'None':
        c.check('the record', o.ok and o.value is seen[0])
        c.reach('kept')
    else:
        c.check('the result', o.ok and o.value is res)
        c.reach('replaced')


@UNITS.unit(reach=('kept', 'replaced', 'vetoed'), weight=2)
def empty(c):
    """a construction without arguments is one like any other"""
    R = c.R
    seen = []
    kind = c.choice('result', ('none', 'obj', 'raise'))
    res = c.obj('res', ('V0', 'int'))

    def post_new(self):
        seen.append((self, self.x, self.y))
        if kind == 'raise':
            raise Plain('no')
        return res if kind == 'obj' else None
    fac = c.choice('factory', (False, True))
    A = c.record('A', {'x': Dflt(object, 1), 'y': Dflt(object, R.Factory(lambda: 2) if fac else 2)}, ns={'post_new': post_new}, frozen=c.choice('frozen', (False, True)), unary_parse=c.choice('unary', (None, False, True)))
    how = c.choice('how', ('call', 'mapping', 'no mapping', 'parse', 'json', 'instance'))
    o = c.attempt({'call': lambda: A(), 'mapping': lambda: A.from_mapping({}), 'no mapping': lambda: A.from_mapping(), 'parse': lambda: A.parse({}), 'json': lambda: A.from_json('{}'), 'instance': lambda: A.from_instance(object())}[how])
    if how == 'parse':
        # an empty dictionary has no attributes, and so is an instance as well
        c.check('ambiguous', (not o.ok) if kind != 'raise' else o.raised(TypeError))
        c.check('each ran the hook', all(s[1:] == (1, 2) for s in seen))
        c.reach({'none': 'kept', 'obj': 'replaced', 'raise': 'vetoed'}[kind])
        return
    c.check('the hook ran once on a complete record', len(seen) == 1 and seen[0][1:] == (1, 2))
    if kind == 'none':
        c.check('the record', o.ok and o.value is seen[0][0])
        c.reach('kept')
    elif kind == 'obj':
        c.check('the replacement', o.ok and c.same(o.value, res))
        c.reach('replaced')
    else:
        c.check('vetoed', not o.ok)
        c.reach('vetoed')
