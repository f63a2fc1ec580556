"""Parsing of the package under analysis: modules, classes, functions (no code is run)."""

from __future__ import annotations

import ast
import os


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.env = {}
        self.executed = False
        self.frame = None
        self._scan(tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.env[n.name] = ("func", n)
            elif isinstance(n, ast.ClassDef):
                self.env[n.name] = ("class", n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.env[a.asname] = ("import", a.name)
                    else:
                        self.env[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.env[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.env[x.id] = ("expr", n)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)
                for h in getattr(n, "handlers", []):
                    self._scan([s for s in h.body if not isinstance(s, ast.Pass)])
                for s in getattr(n, "orelse", []):
                    self._scan([s])
            elif isinstance(n, (ast.For, ast.While, ast.With)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.env.setdefault(x.id, ("expr", n))


class Package:
    """all modules below <root>/src/<pkg>"""

    def __init__(self, root, pkg="rkopenmdao"):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.errors = []
        base = os.path.join(root, "src", pkg)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.join(root, "src"))
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = False
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                    is_pkg = True
                try:
                    with open(p, encoding="utf-8") as fh:
                        tree = ast.parse(fh.read(), filename=p)
                except SyntaxError as e:
                    self.errors.append((p, str(e)))
                    continue
                self.modules[name] = Module(name, p, tree, is_pkg)

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n

    def find_class(self, name):
        """(module, ClassDef) of a class by its public name, wherever it is defined"""
        for m in self.modules.values():
            b = m.env.get(name)
            if b and b[0] == "class":
                return m, b[1]
        return None

    def find_func(self, name):
        for m in self.modules.values():
            b = m.env.get(name)
            if b and b[0] == "func":
                return m, b[1]
        return None
