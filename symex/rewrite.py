"""Import hook: loads the code under test from its source through an AST pass.

The pass keeps the program as it is and only routes the operations that CPython
would execute in C (calls of builtins, `in`, f-strings, subscripts, `%`) through
helper functions, so that symbolic operands survive them.  It runs on whatever
source is in the tree when the check starts.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

NO_WRAP = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__', 'dir'}


def name(id, node):
    return ast.copy_location(ast.Name(id=id, ctx=ast.Load()), node)


def call(fn, args, node):
    return ast.copy_location(ast.Call(func=name(fn, node), args=args, keywords=[]), node)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    # ---- annotations are left alone
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        q = '%s:%s' % (self.modname, '.'.join(self.stack))
        first = node.body[0]
        enter = ast.Expr(value=call('__sx_enter__', [ast.copy_location(ast.Constant(value=q), node)], node))
        ast.copy_location(enter, node)
        pos = 1 if (isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant)
                    and isinstance(first.value.value, str)) else 0
        body.insert(pos, enter)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in NO_WRAP or node.func.id.startswith('__sx_')):
            return node
        return ast.copy_location(
            ast.Call(func=name('__sx_call__', node), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(value=chr(v.conversion) if v.conversion != -1 else None)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                t = ast.Tuple(elts=[val, conv, spec], ctx=ast.Load())
                parts.append(t)
        for p in parts:
            ast.copy_location(p, node)
            ast.fix_missing_locations(p)
        return call('__sx_fstr__', parts, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = '__sx_in__' if isinstance(node.ops[0], ast.In) else '__sx_notin__'
            return call(fn, [node.left, node.comparators[0]], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return call('__sx_mod__', [node.left, node.right], node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.copy_location(ast.Call(
                func=name('slice', s),
                args=[x if x is not None else ast.copy_location(ast.Constant(value=None), s)
                      for x in (s.lower, s.upper, s.step)], keywords=[]), s)
        if isinstance(s, ast.Tuple):
            s.elts = [self._slice(x) for x in s.elts]
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                return node
            return call('__sx_getitem__', [node.value, self._slice(node.slice)], node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            # python evaluates the right-hand side first
            val = self.visit(node.value)
            obj, key = self.visit(t.value), self._slice(self.visit(t.slice))
            tmp = '__sx_tmp%d__' % len(self.stack)
            a = ast.copy_location(ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=val), node)
            e = ast.copy_location(ast.Expr(value=call('__sx_setitem__', [obj, key, name(tmp, node)], node)), node)
            ast.fix_missing_locations(a)
            ast.fix_missing_locations(e)
            return [a, e]
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                obj, key = self.visit(t.value), self._slice(self.visit(t.slice))
                e = ast.copy_location(ast.Expr(value=call('__sx_delitem__', [obj, key], node)), node)
            else:
                e = ast.copy_location(ast.Delete(targets=[t]), node)
            ast.fix_missing_locations(e)
            out.append(e)
        return out

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        e = ast.copy_location(ast.Expr(value=call('__sx_reraise__', [], node)), node)
        ast.fix_missing_locations(e)
        node.body.insert(0, e)
        return node


def transform(source, modname, path):
    tree = ast.parse(source, path)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return transform(self.get_data(path), fullname, path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots           # {top-level package: directory}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        if path is None:
            path = [self.roots[top]]
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
