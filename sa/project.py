"""Loads the project's current sources (syntax trees only; nothing is imported
or executed)."""
import ast
import os


class SourceError(Exception):
    pass


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg


class Project:
    PKG = 'seismostats'

    def __init__(self, root):
        self.root = root
        self.modules = {}
        base = os.path.join(root, self.PKG)
        if not os.path.isdir(base):
            raise SourceError(f'package directory {base} is missing')
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs
                             if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise SourceError(f'{p}: {e}')
                self.modules['.'.join(rel)] = Module('.'.join(rel), p, tree,
                                                     is_pkg)

    def relpath(self, p):
        return os.path.relpath(p, self.root)

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n
