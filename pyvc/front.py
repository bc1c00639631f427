"""Loads the current source of /repo (ast only; nothing is imported or executed)."""
import ast
import os
from .vals import *


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        pkg = os.path.join(repo, 'peano')
        for f in sorted(os.listdir(pkg)):
            if f.endswith('.py') and f != '__init__.py':
                self.load(f[:-3], os.path.join(pkg, f))

    def load(self, name, path):
        import warnings
        with open(path) as h:
            src = h.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
        m = ModuleInfo(name, path, tree)
        self.modules[name] = m
        for node in tree.body:
            self._toplevel(m, node)
        return m

    def _toplevel(self, m, node):
        if isinstance(node, (ast.FunctionDef,)):
            m.globals[node.name] = FuncInfo(node, m)
        elif isinstance(node, ast.ClassDef):
            m.globals[node.name] = self.make_class(node, m)
        elif isinstance(node, ast.Import):
            for a in node.names:
                m.globals[(a.asname or a.name).split('.')[0]] = ('import', a.name)
        elif isinstance(node, ast.ImportFrom):
            for a in node.names:
                m.globals[a.asname or a.name] = ('from', node.module, a.name, node.level)
        elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            m.globals[node.targets[0].id] = ('expr', node.value)
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            m.globals[node.target.id] = ('expr', node.value)
        elif isinstance(node, (ast.If, ast.Try)):
            for sub in node.body:
                self._toplevel(m, sub)

    def make_class(self, node, m):
        c = ClassInfo(node.name, m, node)
        for dec in node.decorator_list:
            t = dec.func if isinstance(dec, ast.Call) else dec
            if getattr(t, 'id', getattr(t, 'attr', '')) == 'dataclass':
                c.dataclass = {k.arg: getattr(k.value, 'value', None) for k in dec.keywords} if isinstance(dec, ast.Call) else {}
        for sub in node.body:
            if isinstance(sub, ast.FunctionDef):
                c.methods[sub.name] = FuncInfo(sub, m, c)
            elif isinstance(sub, ast.Assign) and len(sub.targets) == 1 and isinstance(sub.targets[0], ast.Name):
                c.attrs[sub.targets[0].id] = sub.value
            elif isinstance(sub, ast.AnnAssign) and isinstance(sub.target, ast.Name):
                c.annots.append((sub.target.id, sub.value))
                if sub.value is not None:
                    c.attrs[sub.target.id] = sub.value
            elif isinstance(sub, ast.ClassDef):
                c.attr_vals[sub.name] = self.make_class(sub, m)
        return c

    def find(self, qual):
        """'base_maps.BaseMap.__mul__' -> FuncInfo or None"""
        parts = qual.split('.')
        m = self.modules.get(parts[0])
        if m is None:
            return None
        g = m.globals.get(parts[1])
        if len(parts) == 2:
            return g if isinstance(g, FuncInfo) else None
        if isinstance(g, ClassInfo):
            return g.methods.get(parts[2])
        return None
