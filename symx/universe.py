"""The universe of runtime types an arbitrary symbolic object ranges over.

Shared by the symbolic executor and by the concrete replayer (so: no z3 in here).  An object is described by
(type index, k, truth): k is its position inside its equality group; two objects are equal exactly if their groups are the same
and their k agree (all numbers form one group, so True == 1 == 1.0).
"""

SYMBOLIC = [False]
VHASH = {}  # (epoch, k) -> hash value of V objects, as the witness demands
EPOCH = [0]  # stands for the hash seed of the process; V hashes depend on it, as str hashes do


class V:
    """User-defined value: equality by k, hash depends on the process, truthiness of its own."""

    def __init__(self, k=0, truth=True):
        self.k = k
        self.truth = truth

    def __eq__(self, other):
        if isinstance(other, V):
            return self.k == other.k
        return NotImplemented

    def __hash__(self):
        if SYMBOLIC[0]:
            return 0x5E
        h = VHASH.get((EPOCH[0], self.k))
        return hash((EPOCH[0], self.k, 77)) if h is None else h

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return '%s(%r, %r)' % (type(self).__name__, self.k, self.truth)


class V0(V):
    pass


class V1(V0):
    pass


class V2(V1):
    pass


class W(V):
    pass


class ISub(int):
    pass


class SSub(str):
    pass


class LSub(list):
    pass


class TSub(tuple):
    pass


_funcs = {}
_types = {}


def _func(k):
    if k not in _funcs:
        def f(*a, **kw):
            return None
        f.__name__ = 'func%d' % k
        _funcs[k] = f
    return _funcs[k]


def _type(k):
    if k not in _types:
        _types[k] = type('T%d' % k, (), {})
    return _types[k]


class TypeSpec:
    def __init__(self, idx, name, cls, group, maker, interned='never', hashable=True, callable_=False, kmax=9,
                 truth='k', atomic=True):
        self.idx = idx
        self.name = name
        self.cls = cls
        self.group = group        # 'num' or a group name
        self.maker = maker
        self.interned = interned  # 'never' | 'always' | 'small' | 'zero': when equality implies identity
        self.hashable = hashable
        self.callable = callable_
        self.kmax = kmax
        self.truth = truth        # 'k' | 'own' | True | False
        self.atomic = atomic      # copy.deepcopy returns the object itself


TYPES = []
BY_NAME = {}
BY_CLS = {}
GROUP_BASE = {'num': 0}


def _add(name, cls, group, maker, **kw):
    if group not in GROUP_BASE:
        GROUP_BASE[group] = 10_000_000 * len(GROUP_BASE)
    t = TypeSpec(len(TYPES), name, cls, group, maker, **kw)
    TYPES.append(t)
    BY_NAME[name] = t
    BY_CLS[cls] = t


_add('V0', V0, 'V', lambda k, t: V0(k, t), truth='own', atomic=False)
_add('V1', V1, 'V', lambda k, t: V1(k, t), truth='own', atomic=False)
_add('V2', V2, 'V', lambda k, t: V2(k, t), truth='own', atomic=False)
_add('W', W, 'V', lambda k, t: W(k, t), truth='own', atomic=False)
_add('int', int, 'num', lambda k, t: int(str(k)), interned='small', kmax=1_000_000)
_add('bool', bool, 'num', lambda k, t: bool(k), interned='always', kmax=1)
_add('ISub', ISub, 'num', lambda k, t: ISub(k), kmax=1_000_000, atomic=False)
_add('float', float, 'num', lambda k, t: float(str(k)), kmax=1_000_000)
_add('str', str, 'str', lambda k, t: ''.join(['st', 'r', str(k)]) if k else '', interned='zero')
_add('SSub', SSub, 'str', lambda k, t: SSub(''.join(['st', 'r', str(k)]) if k else ''), atomic=False)
_add('bytes', bytes, 'bytes', lambda k, t: b''.join([b'by', str(k).encode()]) if k else b'', interned='zero')
_add('NoneType', type(None), 'None', lambda k, t: None, interned='always', kmax=0, truth=False)
_add('ellipsis', type(...), 'Ellipsis', lambda k, t: ..., interned='always', kmax=0, truth=True)
_add('list', list, 'list', lambda k, t: [k] if k else [], hashable=False, atomic=False)
_add('tuple', tuple, 'tuple', lambda k, t: tuple([k]) if k else (), interned='zero')
_add('dict', dict, 'dict', lambda k, t: {'k%d' % k: k} if k else {}, hashable=False, atomic=False)
_add('function', type(_func), 'function', lambda k, t: _func(k), interned='always', callable_=True, truth=True)
_add('type', type, 'type', lambda k, t: _type(k), interned='always', callable_=True, truth=True)

ALL = tuple(t.name for t in TYPES)
SIMPLE = ('V0', 'V1', 'W', 'int', 'bool', 'str', 'NoneType')
JSONABLE = ('int', 'bool', 'float', 'str', 'NoneType')
HASHABLE = tuple(t.name for t in TYPES if t.hashable)


def sample(t):
    """Any object of the type, to ask CPython about instance checks."""
    return t.maker(1 if t.kmax >= 1 else 0, True)


def make(name, k, truth, cache=None, ident=None):
    t = BY_NAME[name]
    if cache is not None and ident is not None and ident in cache:
        return cache[ident]
    v = t.maker(k, truth)
    if cache is not None and ident is not None:
        cache[ident] = v
    return v
