'''Import hook that instruments the current source of /repo for symbolic execution.'''

import ast
import importlib.abc
import importlib.util
import os
import sys

RT = '__symrt__'


class Instrument(ast.NodeTransformer):
    def _rt(self, name, args, node, keywords=()):
        f = ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())
        return ast.copy_location(ast.Call(f, list(args), list(keywords)), node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec'):
            return node
        self.generic_visit(node)
        kws = []
        for k in node.keywords:
            if k.arg is None:
                kws.append(ast.keyword(None, self._rt('kwargs', [k.value], node)))
            else:
                kws.append(k)
        return self._rt('call', [node.func] + node.args, node, kws)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(chr(v.conversion) if v.conversion > 0 else None)
                if v.format_spec is None:
                    spec = ast.Constant(None)
                else:
                    spec = self.visit_JoinedStr(v.format_spec)
                parts.append(ast.Tuple([val, conv, spec], ast.Load()))
        return self._rt('fstr', parts, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._rt('mod', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            if not isinstance(node.target, ast.Name):
                raise NotImplementedError('%= on a non-name')
            load = ast.Name(node.target.id, ast.Load())
            return ast.copy_location(
                ast.Assign([node.target], self._rt('mod', [load, node.value], node)), node)
        return node

    _OPS = {ast.In: 'in', ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot',
            ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le',
            ast.Gt: 'gt', ast.GtE: 'ge'}
    _FN = {'in': 'contains', 'notin': 'not_contains', 'is': 'is_', 'isnot': 'is_not'}

    def visit_Compare(self, node):
        self.generic_visit(node)
        names = [self._OPS[type(o)] for o in node.ops]
        if not any(n in self._FN for n in names):
            return node
        if len(names) == 1:
            return self._rt(self._FN[names[0]], [node.left, node.comparators[0]], node)
        thunks = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), c)
                  for c in node.comparators]
        ops = ast.Tuple([ast.Constant(n) for n in names], ast.Load())
        return self._rt('chain', [ops, node.left] + thunks, node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            elts = [v] if k is None else [k, v]
            pairs.append(ast.Tuple(elts, ast.Load()))
        return self._rt('mkdict', pairs, node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self._rt('SDict', [gen], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._rt('SSet', [ast.Tuple(node.elts, ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._rt('SSet', [ast.GeneratorExp(node.elt, node.generators)], node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return self._rt('getitem', [node.value, node.slice], node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        # annotations and decorators stay native
        node.body = [self.visit(s) for s in node.body]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        for sub in ast.walk(node):
            if isinstance(sub, (ast.MatchClass, ast.MatchMapping)):
                raise NotImplementedError('match class / mapping pattern')
        return node


def instrument(source, filename):
    tree = ast.parse(source, filename)
    tree = Instrument().visit(tree)
    # import of the runtime: after docstring and __future__ imports
    imp = ast.parse(f'import symx.rt as {RT}').body[0]
    i = 0
    for i, st in enumerate(tree.body):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
            continue
        if isinstance(st, ast.ImportFrom) and st.module == '__future__':
            continue
        break
    tree.body.insert(i, imp)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class SymLoader(importlib.abc.Loader):
    def __init__(self, path, finder):
        self.path = path
        self.finder = finder

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as fh:
            src = fh.read()
        code = instrument(src, self.path)
        self.finder.loaded[module.__name__] = self.path
        exec(code, module.__dict__)


class SymFinder(importlib.abc.MetaPathFinder):
    '''Instruments the packages in `roots` (name -> directory).'''

    def __init__(self, roots):
        self.roots = roots
        self.loaded = {}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        parts = fullname.split('.')[1:]
        base = os.path.join(root, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=SymLoader(f, self), submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            f = base + '.py'
            return importlib.util.spec_from_file_location(fullname, f, loader=SymLoader(f, self))
        return None


def install(roots):
    fd = SymFinder(roots)
    sys.meta_path.insert(0, fd)
    return fd
