"""Preemption points: where one thread of the package can be made to wait for another.

Adds to the functions of a module a call `_sx_point(site)` before every statement and `_sx_pt(value, site)` around the values that are stored,
returned, tested or passed on, so that a point lies between the evaluation of a value and its use.  Points are left out where the last one is as
good: where nothing in between writes (to an attribute, an item, a container, an outer variable) nor reads an attribute or outer variable that is
written anywhere but by the constructor of its object.  Used by the symbolic executor (before its own rewriting) and by the concrete replay
(alone: the code is otherwise the package's own)."""
import ast
import threading

PREFIX = '_sx_p'


MUTATORS = {'append', 'appendleft', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'popleft', 'clear', 'setdefault', 'remove', 'discard', 'sort', 'reverse', 'send', 'close', 'write', 'acquire', 'release',
            'intersection_update', 'difference_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__next__', 'rotate', 'move_to_end', 'subtract', 'seek', 'truncate', 'put', 'get_nowait'}
SETTERS = {'setattr', 'delattr', '__setattr__', '__delattr__'}
FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def base_name(e):
    """the attribute or variable that holds the container an expression denotes"""
    while isinstance(e, (ast.Subscript, ast.Call)):
        e = e.value if isinstance(e, ast.Subscript) else e.func
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def called(node):
    return node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id if isinstance(node.func, ast.Name) else None


def own_nodes(node):
    """The node and what it evaluates itself, without nested statements and functions."""
    yield node
    for child in ast.iter_child_nodes(node):
        if isinstance(child, (ast.stmt, ast.ExceptHandler, ast.match_case)) or isinstance(node, FUNCTIONS):
            continue
        yield from own_nodes(child)


NEW = {'list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'deque', 'OrderedDict', 'defaultdict', 'Counter', 'ChainMap'}


def fresh_names(fn):
    """Local variables of a function that only ever hold containers it has made itself and does not store anywhere."""
    out, other = set(), set()
    if fn.args.kwarg:
        out.add(fn.args.kwarg.arg)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            new = isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp, ast.Constant)) or isinstance(n.value, ast.Call) and called(n.value) in NEW
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name):
                    (out if new else other).add(t.id)
                elif isinstance(n.value, ast.Name):
                    other.add(n.value.id)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            if n.id not in out:
                other.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            other.update(n.names)
    params = fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + ([fn.args.vararg] if fn.args.vararg else [])
    return out - other - {a.arg for a in params}


CTORS = {'__init__', '__init_subclass__', '__set_name__', 'add_validator', 'add_assert_validator', 'add_coercer'}    # the latter are for pre_bind only


def constructors(trees):
    """The functions of a package (by name) that only run while something is constructed: the constructors, and what only those call."""
    defined, users = set(), {}

    def visit(node, inside):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            defined.add(node.name)
            for d in node.decorator_list:
                visit(d, inside)
            for child in node.body:
                visit(child, node.name)
            return
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            users.setdefault(node.attr, set()).add(inside)
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            users.setdefault(node.id, set()).add(inside)
        elif isinstance(node, ast.Constant) and isinstance(node.value, str):
            users.setdefault(node.value, set()).add(inside)
        for child in ast.iter_child_nodes(node):
            visit(child, inside)
    for t in trees:
        visit(t, None)
    out = CTORS | {n for n in defined if users.get(n) and not (n.startswith('__') and n.endswith('__'))}
    while True:
        bad = {n for n in out - CTORS if not users[n] <= out}
        if not bad:
            return frozenset(out)
        out -= bad


def made_attributes(trees, ctors):
    """The attributes that constructors set to containers they make (and that no class has of itself)."""
    out, shared = set(), set()
    for t in trees:
        for f in ast.walk(t):
            if isinstance(f, ast.ClassDef):
                for s in f.body:
                    if isinstance(s, ast.AnnAssign) and s.value is None:
                        continue
                    shared.update(x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)))
            if not isinstance(f, ast.FunctionDef):
                continue
            me = Ctor(f, ctors)
            if me.name is None:
                continue
            star = {x.arg for x in (f.args.kwarg, f.args.vararg) if x}
            for n in ast.walk(f):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and (
                        isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)) or isinstance(n.value, ast.Name) and n.value.id in star
                        or isinstance(n.value, ast.Call) and (called(n.value) in NEW or (called(n.value) or 'x').lstrip('_')[:1].isupper())):
                    out.update(t.attr for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if me.owns(t))
    return out - shared


class Ctor:
    """The object a constructor constructs: its first parameter, and the attributes that hold containers of its own."""

    def __init__(self, node, names, made=frozenset()):
        a = node.args.posonlyargs + node.args.args
        self.name = a[0].arg if a and node.name in names else None
        self.made = made

    def owns(self, e):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.name and self.name is not None

    def private(self, e):
        """Whether a container that an expression denotes is one that only the object under construction (or a part of it) has."""
        if not isinstance(e, ast.Attribute) or e.attr not in self.made:
            return False
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id == self.name


NOTHING = Ctor(ast.parse('def f(): pass').body[0], ())


def own_locals(fn):
    """the parameters and local variables of a function"""
    if isinstance(fn, ast.Module):
        return set()
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}

    def visit(n):
        for child in ast.iter_child_nodes(n):
            if isinstance(child, ast.Name) and isinstance(child.ctx, ast.Store):
                out.add(child.id)
            elif isinstance(child, (ast.Global, ast.Nonlocal)):
                gone.update(child.names)
            if isinstance(child, FUNCTIONS + (ast.ClassDef,)):
                continue
            visit(child)
    gone = set()
    visit(fn)
    return out - gone


def written_names(tree, ctors=CTORS, made=frozenset()):
    """Attributes and outer variables written anywhere but on an object (or class) by its own constructor, or on import."""
    out = set()

    def add(e, ctor, inner):
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Name) and e.id not in inner or isinstance(e, ast.Attribute) and not ctor.private(e):
            out.add(base_name(e))

    def visit(node, ctor, inner):
        if isinstance(node, FUNCTIONS):
            inner = own_locals(node)
            ctor = NOTHING if isinstance(node, ast.Lambda) else Ctor(node, ctors, made)
        if inner is None:
            pass        # on import
        elif isinstance(node, ast.Attribute) and not isinstance(node.ctx, ast.Load):
            if not ctor.owns(node):
                out.add(node.attr)
        elif isinstance(node, ast.Subscript) and not isinstance(node.ctx, ast.Load):
            add(node.value, ctor, inner)
        elif isinstance(node, (ast.Global, ast.Nonlocal)):
            out.update(node.names)
        elif isinstance(node, ast.Call):
            n = called(node)
            if n in SETTERS:
                out.update(x.value for x in node.args if isinstance(x, ast.Constant) and isinstance(x.value, str))
            elif n in MUTATORS and isinstance(node.func, ast.Attribute):
                add(node.func.value, ctor, inner)
            elif n == 'next' and node.args:
                add(node.args[0], ctor, inner)
        for child in ast.iter_child_nodes(node):
            visit(child, ctor, inner)
    visit(tree, NOTHING, None)
    return out - {None}


class Points(ast.NodeTransformer):
    def __init__(self, first, written, ctors=CTORS, made=frozenset()):
        self.made = made
        self.ctors = ctors
        self.ctor = NOTHING
        self.site = first
        self.depth = 0
        self.written = written
        self.fresh = frozenset()
        self.hot = False        # whether the statement at hand is a place to stop at

    def interesting(self, stmt):
        local = lambda e: isinstance(e, ast.Name) and e.id in self.fresh or self.ctor.private(e)
        for n in own_nodes(stmt):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and not self.ctor.owns(n):
                return True
            if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and not local(n.value):
                return True
            if isinstance(n, ast.Attribute) and n.attr in self.written:
                return True
            if isinstance(n, ast.Name) and n.id in self.written and not local(n):
                return True
            if isinstance(n, ast.Call) and called(n) in SETTERS | MUTATORS | {'next'} and not (
                    isinstance(n.func, ast.Attribute) and local(n.func.value) or called(n) == 'next' and n.args and local(n.args[0])):
                return True
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.With, ast.AsyncWith)):
                return True
        return False

    def _id(self):
        self.site += 1
        return ast.Constant(self.site)

    def _pt(self, e):
        if not self.hot or isinstance(e, (ast.Constant, ast.Name)):
            return e        # nothing happens between here and the last point
        return ast.copy_location(ast.Call(func=ast.Name(id='_sx_pt', ctx=ast.Load()), args=[e, self._id()], keywords=[]), e)

    def _body(self, stmts, loop=False):
        out = []
        after = loop
        for i, s in enumerate(stmts):
            doc = i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            hot = self.interesting(s)
            if self.depth and not doc and not isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)) and (hot or after):
                out.append(self._point(s))
            before, self.hot = self.hot, hot
            out.append(self.visit(s))
            self.hot = before
            after = hot
        if self.depth and after and not isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            out.append(self._point(stmts[-1]))
        return out

    def _point(self, s):
        return ast.copy_location(ast.Expr(ast.Call(func=ast.Name(id='_sx_point', ctx=ast.Load()), args=[self._id()], keywords=[])), s)

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self._body(v, f == 'body' and isinstance(node, (ast.For, ast.AsyncFor, ast.While))))
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                continue
            if isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_FunctionDef(self, node):
        decorators, args = node.decorator_list, node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [d and self.visit(d) for d in args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in decorators]
        self.depth += 1
        before, self.hot, fresh, ctor = self.hot, False, self.fresh, self.ctor
        self.fresh = fresh_names(node)
        self.ctor = Ctor(node, self.ctors, self.made)
        node.body = self._body(node.body)
        self.hot, self.fresh, self.ctor = before, fresh, ctor
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._body(node.body)
        self.depth = depth
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if self.depth:
            node.value = self._pt(node.value)
        return node

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        if self.depth and (isinstance(node.target, (ast.Attribute, ast.Subscript)) or self.hot):
            # the target is read before the value is evaluated
            node.value = ast.copy_location(ast.Call(func=ast.Name(id='_sx_pt', ctx=ast.Load()), args=[node.value, self._id()], keywords=[]), node)
        return node

    def visit_Return(self, node):
        node = self.generic_visit(node)
        if self.depth and node.value is not None:
            node.value = self._pt(node.value)
        return node

    def visit_BoolOp(self, node):
        node = self.generic_visit(node)
        if self.depth:
            node.values = [self._pt(v) for v in node.values]
        return node

    def visit_IfExp(self, node):
        node = self.generic_visit(node)
        if self.depth:
            node.test = self._pt(node.test)
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        special = isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'exec', 'dir')
        if self.depth and not special and node.args and not isinstance(node.args[-1], ast.Starred):
            node.args[-1] = self._pt(node.args[-1])
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.depth += 1
        before = self.hot, self.fresh, self.ctor
        self.fresh, self.ctor = frozenset(), NOTHING
        self.hot = self.interesting(node.body)
        node.body = self._pt(self.visit(node.body))
        self.hot, self.fresh, self.ctor = before
        self.depth -= 1
        return node

    def _comp(self, node):
        node = self.generic_visit(node)
        if self.depth:
            node.elt = self._pt(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = _comp

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        if self.depth:
            node.value = self._pt(node.value)
        return node


CURRENT = [None]


def point(site):
    r = CURRENT[0]
    if r is not None:
        r.point(site)


def pt(value, site):
    r = CURRENT[0]
    if r is not None:
        r.point(site)
    return value


PRIMITIVES = {'_sx_point': point, '_sx_pt': pt}
PATIENCE = 15       # seconds after which a thread counts as blocked by a lock of the other


class Race:
    """Two threads, of which one runs at a time.  The first is stopped at a point that `take` chooses and the second runs: to its end, or (back)
    to another chosen point, where the first takes over again until its end."""

    def __init__(self, take, back=False, swap=lambda: None):
        self.take = take
        self.back = back
        self.swap = swap
        self.seen = {}
        self.b = None
        self.switched = self.returned = self.a_done = self.b_done = False
        self.a_go = threading.Semaphore(0)
        self.b_go = threading.Semaphore(0)
        self.abort = None

    def key(self, who, site):
        n = self.seen[who, site] = self.seen.get((who, site), 0) + 1
        return site * 1000 + min(n, 999)

    def point(self, site):
        me = threading.get_ident()
        if me == self.a_id:
            if not self.switched and not self.a_done and self.take('switch', self.key('A', site)):
                self.switched = True
                self.start()
        elif self.b is not None and me == self.b.ident:
            if self.abort is not None:
                raise self.abort
            if self.a_waits and self.back and not self.returned and self.take('back', self.key('B', site)):
                self.returned = True
                self.a_waits = False
                self.swap()
                self.a_go.release()
                self.b_go.acquire(timeout=PATIENCE)
                if self.abort is not None:
                    raise self.abort

    def start(self):
        self.b = threading.Thread(target=self.run_b, daemon=True)
        self.a_waits = True
        self.swap()
        self.b.start()
        self.a_go.acquire(timeout=PATIENCE)
        self.a_waits = False
        self.swap()
        if self.abort is not None:
            raise self.abort

    def run_b(self):
        try:
            self.fb()
        except BaseException as e:      # the exploration ends this path (what the code raises was caught by then)
            self.abort = e
        self.b_done = True
        self.a_go.release()

    def run(self, fa, fb):
        self.fb = fb
        self.a_id = threading.get_ident()
        before, CURRENT[0] = CURRENT[0], self
        try:
            fa()
            self.a_done = True
            if self.b is None:
                self.start()
            self.b_go.release()
            self.b.join(4 * PATIENCE)
            if self.abort is not None:
                raise self.abort
        except BaseException as e:
            self.abort = self.abort or e
            self.b_go.release()
            if self.b is not None:
                self.b.join(4 * PATIENCE)
            raise
        finally:
            CURRENT[0] = before
