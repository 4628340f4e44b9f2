"""Loads the `records` package from its current source with the operations CPython decides natively routed through
the executor.  The functions that run are the repository's own; only the primitives change."""
import ast
import importlib.abc
import importlib.util
import os
import sys

from .points import PRIMITIVES as POINTS, Points, constructors, made_attributes, written_names

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'records'

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'exec', 'dir', 'breakpoint'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.functions = 0
        self.sites = 0
        self.tmp = 0

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, fn, *args):
        self.sites += 1
        return ast.Call(func=self._name(fn), args=list(args), keywords=[])

    # annotations are not program behaviour: leave them alone
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        body = [self.visit(s) for s in node.body]
        flat = []
        for s in body:
            if isinstance(s, list):
                flat.extend(s)
            elif s is not None:
                flat.append(s)
        pos = 0
        if flat and isinstance(flat[0], ast.Expr) and isinstance(flat[0].value, ast.Constant) \
                and isinstance(flat[0].value.value, str):
            pos = 1
        flat.insert(pos, ast.Expr(self._call('_sx_enter', ast.Constant(self.modname + ':' + '.'.join(self.stack)))))
        self.functions += 1
        node.body = flat
        if node.name == '__hash__' and self.stack[:-1]:
            node.decorator_list.append(self._name('_sx_hashdef'))
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in SKIP_CALLS or node.func.id in POINTS):
            return node
        self.sites += 1
        return ast.copy_location(ast.Call(func=self._name('_sx_call'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
        if not any(isinstance(o, special) for o in node.ops):
            return node
        left = node.left
        parts = []
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i + 1 < len(node.ops):
                self.tmp += 1
                name = '_sx_t%d' % self.tmp
                right_e = ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=right)
                nxt = self._name(name)
            else:
                right_e = right
                nxt = None
            parts.append(self._cmp(left, op, right_e))
            left = nxt
        if len(parts) == 1:
            return ast.copy_location(parts[0], node)
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def _cmp(self, a, op, b):
        if isinstance(op, ast.Is):
            return self._call('_sx_is', a, b)
        if isinstance(op, ast.IsNot):
            return ast.UnaryOp(op=ast.Not(), operand=self._call('_sx_is', a, b))
        if isinstance(op, ast.In):
            return self._call('_sx_in', a, b)
        if isinstance(op, ast.NotIn):
            return ast.UnaryOp(op=ast.Not(), operand=self._call('_sx_in', a, b))
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return ast.copy_location(self._call('_sx_getitem', node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            value = self.visit(node.value)
            obj = self.visit(t.value)
            key = self.visit(t.slice)
            return ast.copy_location(ast.Expr(self._call('_sx_setitem', value, obj, key)), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.copy_location(
                    ast.Expr(self._call('_sx_delitem', self.visit(t.value), self.visit(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self.visit(t)]), node))
        return out

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == '__class__' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(self._call('_sx_type', node.value), node)
        return node


class Source:
    """Compiled instrumented code of every module of the package, from the current working tree."""

    def __init__(self, repo=None, points=False, rewrite=True):
        self.repo = repo or REPO
        site = 0
        self.code = {}
        self.functions = 0
        self.sites = 0
        self.lines = 0
        root = os.path.join(self.repo, PKG)
        trees = []
        if points:
            for d, dirs, files in os.walk(root):
                for f in files:
                    if f.endswith('.py'):
                        with open(os.path.join(d, f), encoding='utf-8') as fh:
                            trees.append(ast.parse(fh.read()))
        ctors = constructors(trees)
        made = made_attributes(trees, ctors)
        written = set().union(*(written_names(t, ctors, made) for t in trees))
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                if is_pkg:
                    rel = rel[:-len('.__init__')]
                with open(path, encoding='utf-8') as fh:
                    text = fh.read()
                tree = ast.parse(text, path)
                if points:
                    pp = Points(site, written, ctors, made)
                    tree = ast.fix_missing_locations(pp.visit(tree))
                    site = pp.site
                rw = Rewriter(rel)
                if rewrite:
                    tree = ast.fix_missing_locations(rw.visit(tree))
                self.code[rel] = (compile(tree, path, 'exec', dont_inherit=True), is_pkg, path)
                self.functions += rw.functions
                self.sites += rw.sites
                self.lines += text.count('\n')


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, source, primitives):
        self.source = source
        self.primitives = primitives

    def find_spec(self, fullname, path, target=None):
        if fullname not in self.source.code:
            return None
        code, is_pkg, file = self.source.code[fullname]
        return importlib.util.spec_from_file_location(
            fullname, file, loader=self,
            submodule_search_locations=[os.path.dirname(file)] if is_pkg else None)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__.update(self.primitives)
        exec(self.source.code[module.__name__][0], module.__dict__)


def purge():
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]


def fresh(finder):
    """Import the package anew (no state survives from an earlier path)."""
    purge()
    if finder not in sys.meta_path:
        sys.meta_path.insert(0, finder)
    return importlib.import_module(PKG)
