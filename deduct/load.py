"""Loads paramz from the current source of the repository, instrumented.

What the instrumentation changes, mechanically, on every run:
  for T in I: B else: E      ->  the iterable goes through PD.loop(I); at the top of the body the locals assigned in the body
                                 are re-read through the loop object (only if I is symbolic); comprehensions likewise
  while C: B else: E         ->  while True: (step of the loop object); if not C: E; break
                                 B
  conditions that are names, attributes, calls or items -> PD.b(condition) (truth of a list with unknown segments)
  "text" % x, "text".format(..) ->  PD.fmt("text", x), PD.format("text", ..) (texts of symbolic values are not followed)
  "text".join(x)                 ->  PD.join("text", x)
  compiled patterns in module globals and the module re go to versions that know symbolic texts (text.py)
  a is b / a is not b        ->  PD.is_(a, b) / not PD.is_(a, b)
  a == b, a != b, a in b         ->  PD.eq_(a, b), PD.ne_(a, b), PD.in_(a, b) (lists with unknown segments)
  x.__dict__, x.__class__    ->  PD.dict_(x), PD.class_(x);  x.__new__, x.__getstate__, ... -> PD.attr_(x, name)
  super(X, self)             ->  PD.super_(X, self)
  len(x), sum(x), isinstance(x, C), ... (calls of the builtin functions in shim.BUILTINS) and the module global np/numpy
  go to versions that fall back to the originals for ordinary values.
Everything else is the code of the repository as it is; docstrings, line numbers and control flow are kept.
"""
import ast, builtins, importlib.abc, importlib.util, os, sys
from . import rt, shim, text

COUNT = dict(loops=0, comps=0, whiles=0, is_=0, super_=0, files=0)


class Instr(ast.NodeTransformer):
    def __init__(self, fname, tree):
        self.f = os.path.basename(fname); self.n = 0; self.func = []
        self.rebound = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.rebound |= {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n in tree.body}
        self.rebound |= {a.asname or a.name for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        self.rebound |= {a.arg for n in ast.walk(tree) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs}
    def site(self, node): return '%s:%s:%d' % (self.f, '.'.join(self.func), getattr(node, 'lineno', 0))
    def pd(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name('__PD__', ast.Load()), name, ast.Load()), list(args), [])
    def truth(self, e):
        return self.pd('b', e) if self.func and isinstance(e, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)) else e
    def visit_If(self, node):
        self.generic_visit(node); node.test = self.truth(node.test); return node
    def visit_IfExp(self, node):
        self.generic_visit(node); node.test = self.truth(node.test); return node
    def visit_BoolOp(self, node):
        self.generic_visit(node); node.values = [self.truth(v) for v in node.values]; return node
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not): node.operand = self.truth(node.operand)
        return node
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str): return self.pd('fmt', node.left, node.right)
        return node
    def visit_FunctionDef(self, node):
        self.func.append(node.name); self.generic_visit(node); self.func.pop(); return node
    def visit_ClassDef(self, node):
        self.func.append(node.name); self.generic_visit(node); self.func.pop(); return node
    def assigned(self, stmts, exclude=()):
        names = []
        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names: names.append(n.id)
            def visit_FunctionDef(s, n):
                if n.name not in names: names.append(n.name)
            visit_ClassDef = visit_FunctionDef
            def visit_Lambda(s, n): pass
            def visit_ListComp(s, n): pass
            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
            def visit_ExceptHandler(s, n):
                for c in n.body: s.visit(c)
            def visit_Import(s, n):
                for a in n.names: names.append((a.asname or a.name).split('.')[0])
            visit_ImportFrom = visit_Import
        for s in stmts: V().visit(s)
        return [n for n in names if n not in exclude and not n.startswith('__L')]
    def carry(self, L, names, meth):
        return [ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'sym', ast.Load()),
                       [ast.Assign([ast.Name(n, ast.Store())], ast.Call(ast.Attribute(ast.Name(L, ast.Load()), meth, ast.Load()),
                            [ast.Constant(n), ast.Call(ast.Name('locals', ast.Load()), [], [])], [])) for n in names], [])] if names else []
    def visit_For(self, node):
        in_func = bool(self.func)
        tgt = self.assigned([ast.Expr(node.target)]) if not isinstance(node.target, ast.Name) else [node.target.id]
        names = self.assigned(node.body, exclude=tgt)
        self.generic_visit(node)
        if not in_func: return node
        self.n += 1; COUNT['loops'] += 1
        L = '__L%d__' % self.n
        pre = ast.Assign([ast.Name(L, ast.Store())], self.pd('loop', node.iter, ast.Constant(self.site(node)), ast.Constant(tuple(names))))
        node.iter = ast.Name(L, ast.Load())
        node.body = self.carry(L, names, 'get') + node.body
        node.orelse = self.carry(L, names, 'out') + node.orelse
        return [pre, node]
    def visit_While(self, node):
        in_func = bool(self.func)
        names = self.assigned(node.body)
        self.generic_visit(node)
        if not in_func: return node
        self.n += 1; COUNT['whiles'] += 1
        L = '__L%d__' % self.n
        pre = ast.Assign([ast.Name(L, ast.Store())], self.pd('wloop', ast.Constant(self.site(node)), ast.Constant(tuple(names))))
        step = ast.If(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'step', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], []),
                      [ast.Assign([ast.Name(n, ast.Store())], ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'get', ast.Load()), [ast.Constant(n), ast.Call(ast.Name('locals', ast.Load()), [], [])], [])) for n in names] or [ast.Pass()], [])
        test = ast.If(ast.UnaryOp(ast.Not(), self.truth(node.test)), node.orelse + [ast.Break()], [])
        return [pre, ast.While(ast.Constant(True), [step, test] + node.body, [])]
    def comp(self, node, wrap):
        self.generic_visit(node)
        if not self.func or self.func == ['<module>']: return node
        self.n += 1; COUNT['comps'] += 1
        g = node.generators[0]; it = g.iter
        g.iter = ast.Name('__it%d__' % self.n, ast.Load())
        for h in node.generators[1:]: h.iter = self.pd('inner', h.iter)
        lam = ast.Lambda(ast.arguments([], [ast.arg('__it%d__' % self.n)], None, [], [], None, []), node)
        return self.pd(wrap, lam, it, ast.Constant(self.site(node)), ast.Constant((not g.ifs) if len(node.generators) == 1 else None))
    def visit_ListComp(self, node): return self.comp(node, 'listcomp')
    def visit_GeneratorExp(self, node): return self.comp(node, 'genexp')
    def visit_SetComp(self, node): return self.comp(node, 'setcomp')
    def visit_DictComp(self, node): return self.comp(node, 'dictcomp')
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            COUNT['is_'] += 1
            r = self.pd('is_', node.left, node.comparators[0])
            return r if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), r)
        if self.func and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)) and not any(isinstance(x, ast.Constant) for x in (node.left, node.comparators[0])):
            return self.pd('eq_' if isinstance(node.ops[0], ast.Eq) else 'ne_', node.left, node.comparators[0])
        if self.func and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self.pd('in_', node.left, node.comparators[0])
            return r if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return node
    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == '__dict__' and self.func and isinstance(node.ctx, ast.Load): return self.pd('dict_', node.value)
        if node.attr == '__class__' and self.func and isinstance(node.ctx, ast.Load): return self.pd('class_', node.value)
        if node.attr in ('__new__', '__getstate__', '__reduce__', '__reduce_ex__', '__init__') and self.func and isinstance(node.ctx, ast.Load): return self.pd('attr_', node.value, ast.Constant(node.attr))
        return node
    def visit_Import(self, node):
        if not self.func: return node
        out = []
        for a in node.names:
            if '.' in a.name: return node
            out.append(ast.Assign([ast.Name(a.asname or a.name, ast.Store())], self.pd('module', ast.Constant(a.name))))
        return out
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and len(node.args) == 2 and not node.keywords:
            COUNT['super_'] += 1
            return self.pd('super_', *node.args)
        if self.func and isinstance(node.func, ast.Attribute) and node.func.attr == 'format' and isinstance(node.func.value, ast.Constant) and isinstance(node.func.value.value, str):
            node.args.insert(0, node.func.value); node.func = ast.Attribute(ast.Name('__PD__', ast.Load()), 'format', ast.Load()); return node
        if self.func and isinstance(node.func, ast.Attribute) and node.func.attr == 'join' and isinstance(node.func.value, ast.Constant) and isinstance(node.func.value.value, str) and len(node.args) == 1:
            return self.pd('join', node.func.value, node.args[0])
        if self.func and isinstance(node.func, ast.Name) and node.func.id in shim.BUILTINS and node.func.id not in self.rebound:
            node.func = ast.Attribute(ast.Name('__PD__', ast.Load()), 'b_' + node.func.id, ast.Load())
        return node


class Loader(importlib.abc.SourceLoader):
    def __init__(self, name, path): self.name = name; self.path = path
    def get_filename(self, name): return self.path
    def get_data(self, path):
        with open(path, 'rb') as f: return f.read()
    def path_stats(self, path): raise OSError
    def source_to_code(self, data, path, **kw):
        t = ast.parse(data, path)
        t = ast.fix_missing_locations(Instr(path, t).visit(t))
        COUNT['files'] += 1
        return compile(t, path, 'exec', dont_inherit=True)
    def exec_module(self, module):
        d = module.__dict__
        d['__PD__'] = shim.PD
        code = self.get_code(module.__name__)
        exec(code, d)
        import numpy, functools, re
        for k in list(d):
            if d[k] is numpy: d[k] = shim.NP
            elif isinstance(d[k], type(numpy)) and d[k].__name__ in shim.MODULES: d[k] = shim.MODULES[d[k].__name__]
            elif isinstance(d[k], re.Pattern): d[k] = text.PatternProxy(d[k])
            elif d[k] is numpy.vectorize: d[k] = shim.NP.vectorize
            elif d[k] is functools.reduce: d[k] = shim.reduce_
            elif d[k] is sys.intern: d[k] = shim.PD.intern


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo): self.repo = os.path.realpath(repo)
    def find_spec(self, name, path, target=None):
        if name != 'paramz' and not name.startswith('paramz.'): return None
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base): f = os.path.join(base, '__init__.py'); pk = True
        else: f = base + '.py'; pk = False
        if not os.path.exists(f): return None
        l = Loader(name, f)
        return importlib.util.spec_from_file_location(name, f, loader=l, submodule_search_locations=[base] if pk else None)


def install(repo):
    sys.meta_path.insert(0, Finder(repo))
    import paramz
    assert os.path.realpath(paramz.__file__).startswith(os.path.realpath(repo) + os.sep), paramz.__file__
    return paramz
