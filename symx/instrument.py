"""Source-to-source instrumentation of the code under test, redone on every run.

Only function bodies are rewritten; the rewriting routes calls, subscripts,
membership/identity tests, displays and f-strings through hooks that behave like
the native operations on concrete values.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import hooks

SKIP_CALLS = {'super', 'locals', 'vars', 'globals', 'eval', 'exec', 'dir', '__import__'}


def name(n):
    return ast.Name(n, ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.depth = 0
        self.stack = []

    # ---- scopes
    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [d and self.visit(d) for d in args.kw_defaults]
        self.stack.append(node.name)
        self.depth += 1
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        self.depth -= 1
        idx = len(hooks.FUNC_NAMES)
        hooks.FUNC_NAMES.append(f'{self.modname}:' + '.'.join(self.stack))
        self.stack.pop()
        call = ast.Expr(ast.Call(name('__sx_enter__'), [ast.Constant(idx)], []))
        pos = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            pos = 1
        body.insert(pos, call)
        if args.kwarg is not None:
            kw = args.kwarg.arg
            body.insert(pos + 1, ast.Assign([ast.Name(kw, ast.Store())], ast.Call(
                name('__sx_kwin__'), [ast.Name(kw, ast.Load())], [])))
        node.body = body
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        saved, self.depth = self.depth, 0 if self.depth == 0 else self.depth
        # class bodies execute natively
        d, self.depth = self.depth, 0
        node.body = [self.visit(b) for b in node.body]
        self.depth = d
        self.depth = saved
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if self.depth and isinstance(node.target, ast.Subscript) and node.value is not None:
            return self._store(node.target, node.value)
        return node

    def visit_arguments(self, node):
        return node

    # ---- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        f = node.func
        if isinstance(f, ast.Name) and (f.id in SKIP_CALLS or f.id.startswith('__sx_')):
            return node
        for k in node.keywords:
            if k.arg is None:
                k.value = ast.Call(name('__sx_kwout__'), [k.value], [])
        return ast.Call(name('__sx_call__'), [f] + node.args, node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return node
        idx = node.slice
        if isinstance(idx, ast.Slice):
            return node
        if isinstance(idx, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred))
                                              for e in idx.elts):
            return node
        return ast.Call(name('__sx_getitem__'), [node.value, idx], [])

    def _store(self, target, value):
        if isinstance(target.slice, ast.Slice):
            return None
        tv = self.visit(target.value)
        ts = self.visit(target.slice)
        return ast.Expr(ast.Call(name('__sx_setitem__'), [value, tv, ts], []))

    def visit_Assign(self, node):
        if self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            value = self.visit(node.value)
            return self._store(node.targets[0], value)
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        t = node.target
        if self.depth and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) \
                and isinstance(t.slice, (ast.Name, ast.Constant)):
            load = ast.Subscript(ast.Name(t.value.id, ast.Load()), t.slice, ast.Load())
            new = ast.Assign([t], ast.BinOp(load, node.op, node.value))
            ast.copy_location(new, node)
            ast.fix_missing_locations(new)
            return self.visit(new)
        return self.generic_visit(node)

    def visit_Delete(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(ast.Call(name('__sx_delitem__'), [t.value, t.slice], [])))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth or len(node.ops) != 1:
            return node
        fn = {ast.In: '__sx_in__', ast.NotIn: '__sx_not_in__',
              ast.Is: '__sx_is__', ast.IsNot: '__sx_is_not__'}.get(type(node.ops[0]))
        if fn is None:
            return node
        return ast.Call(name(fn), [node.left, node.comparators[0]], [])

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None \
                    else ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.Call(name('__sx_fstr__'), parts, [])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if isinstance(node.op, ast.Mod):
            return ast.Call(name('__sx_mod__'), [node.left, node.right], [])
        op = {ast.BitOr: '|', ast.BitAnd: '&', ast.Sub: '-', ast.BitXor: '^'}.get(type(node.op))
        if op is not None and not isinstance(node.left, ast.Constant):
            return ast.Call(name('__sx_bin__'), [ast.Constant(op), node.left, node.right], [])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth or not node.keys:
            return node
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        parts = []
        for k, v in zip(node.keys, node.values):
            parts.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return ast.Call(name('__sx_dict__'), parts, [])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if any(g.is_async for g in node.generators):
            return node
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.Call(name('__sx_dictcomp__'), [gen], [])

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.depth or all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.Call(name('__sx_set__'), [ast.List(node.elts, ast.Load())], [])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.depth or any(g.is_async for g in node.generators):
            return node
        return ast.Call(name('__sx_set__'), [ast.GeneratorExp(node.elt, node.generators)], [])

    # ---- loops
    def _loop(self, node):
        self.generic_visit(node)
        if self.depth:
            node.body.insert(0, ast.Expr(ast.Call(name('__sx_loop__'), [], [])))
        return node

    visit_While = _loop
    visit_For = _loop


def rewrite(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def get_code(self, fullname):
        data = self.get_data(self.path)
        return rewrite(importlib.util.decode_source(data), self.path, fullname)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots          # top-level package -> directory

    def find_spec(self, fullname, path=None, target=None):
        top, *rest = fullname.split('.')
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *rest)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            fn = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=Loader(fullname, fn), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=Loader(fullname, base + '.py'))
        return None


def install(roots):
    hooks.install()
    sys.meta_path.insert(0, Finder(roots))
