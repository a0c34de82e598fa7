"""Parsing and name resolution of the code under analysis."""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisBroken(Exception):
    """an anchor vanished or the analysis cannot run: neither a pass nor a violation"""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.rel = os.path.relpath(path, REPO)
        self.defs = {}      # top-level name -> list of AST nodes binding it, in order
        for n in walk_toplevel(tree.body):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs.setdefault(n.name, []).append(n)


def walk_toplevel(body):
    for n in body:
        yield n
        if isinstance(n, (ast.If, ast.Try)):
            for f in ('body', 'orelse', 'finalbody'):
                yield from walk_toplevel(getattr(n, f, []) or [])
            for h in getattr(n, 'handlers', []):
                yield from walk_toplevel(h.body)


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, 'rainbow')
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        self.modules[rel] = Module(rel, p, ast.parse(src, p), src)
        self.packages = set()
        for m in self.modules:
            parts = m.split('.')
            for i in range(1, len(parts)):
                self.packages.add('.'.join(parts[:i]))
        if len(self.modules) < 40:
            raise AnalysisBroken('only %d modules found under %s' % (len(self.modules), base))

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken('module %s is gone' % name)
        return m

    def functions(self):
        """every function and method: (module, qualname, node)"""
        for m in self.modules.values():
            def walk(body, prefix):
                for n in body:
                    if isinstance(n, ast.FunctionDef):
                        yield m, prefix + n.name, n
                        yield from walk(n.body, prefix + n.name + '.')
                    elif isinstance(n, ast.ClassDef):
                        yield from walk(n.body, prefix + n.name + '.')
                    elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                        for f in ('body', 'orelse', 'finalbody'):
                            yield from walk(getattr(n, f, []) or [], prefix)
            yield from walk(m.tree.body, '')
