"""Load every source module of the package (Python and Cython) as Python syntax trees."""
import ast
import os

from .pyxast import parse_pyx

REPO = os.environ.get('SA_REPO', '/repo')


class LoadError(Exception):
    pass


class Module:
    def __init__(self, name, path, rel, tree, is_pkg, is_pyx):
        self.name, self.path, self.rel, self.tree, self.is_pkg, self.is_pyx = name, path, rel, tree, is_pkg, is_pyx
        self.starext = []


class Program:
    def __init__(self, repo=None, pkg='copulae'):
        self.repo = repo or REPO
        self.pkg = pkg
        self.modules = {}
        self.node_mod = {}
        self.errors = []
        root = os.path.join(self.repo, pkg)
        if not os.path.isdir(root):
            raise LoadError('package directory %s is missing' % root)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'tests', 'build'))
            for f in sorted(fs):
                if not f.endswith(('.py', '.pyx')):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                parts = rel[:rel.rindex('.')].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                is_pyx = f.endswith('.pyx')
                try:
                    tree = parse_pyx(src, p) if is_pyx else ast.parse(src, p)
                except Exception as e:  # noqa
                    raise LoadError('cannot parse %s: %s' % (rel, e))
                if name in self.modules and is_pyx:
                    continue
                self.modules[name] = Module(name, p, rel, tree, is_pkg, is_pyx)

    def funcs(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n
