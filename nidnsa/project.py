"""Loads the package source (AST only, nothing is imported) and resolves names."""
import warnings
warnings.simplefilter("ignore")
import ast
from .desugar import desugar
import os

PKG = "nidn"


class Func:
    def __init__(self, mod, node, qual, cls=None):
        self.mod, self.node, self.qual, self.cls = mod, node, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(ast.unparse(d))

    @property
    def key(self):
        return self.qual

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = mod.name + "." + node.name
        self.methods = {}
        self.attrs = {}
        self.setters = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(mod, s, self.qual + "." + s.name, self)
                if any(d.endswith(".setter") for d in f.decorators):
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, proj, name, path, src):
        self.proj, self.name, self.path = proj, name, path
        self.src = src
        self.tree = desugar(ast.parse(src, path))
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.defs = {}      # name -> Func | Class | ('import', target) | ('assign', node)
        self.stars = []
        self.collect(self.tree.body)

    def resolve_rel(self, level, mod):
        base = self.name.split(".")
        if not self.is_pkg:
            base = base[:-1]
        if level > 1:
            base = base[: len(base) - (level - 1)]
        if mod:
            base = base + mod.split(".")
        return ".".join(base)

    def collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = Func(self, s, self.name + "." + s.name)
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = Class(self, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.defs[a.asname] = ("mod", a.name)
                    else:
                        self.defs[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                m = self.resolve_rel(s.level, s.module) if s.level else s.module
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(m)
                    else:
                        self.defs[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("assign", s.value, s)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for x, v in zip(t.elts, s.value.elts):
                            if isinstance(x, ast.Name):
                                self.defs[x.id] = ("assign", v, s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = ("assign", s.value, s)
            elif isinstance(s, ast.If):
                self.collect(s.body)
                self.collect(s.orelse)
            elif isinstance(s, ast.Try):
                self.collect(s.handlers[0].body if s.handlers else [])
                self.collect(s.body)
            elif isinstance(s, ast.With):
                self.collect(s.body)


class Project:
    def __init__(self, root, pkg=PKG, extra=()):
        self.root = root
        self.modules = {}
        self.errors = []
        base = os.path.join(root, pkg)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests"))
            for f in sorted(files):
                if f.endswith(".py"):
                    self.load(os.path.join(d, f), root)

    def load(self, path, root, name=None):
        if name is None:
            rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[: -len(".__init__")]
            name = rel
        try:
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            self.modules[name] = Module(self, name, path, src)
        except SyntaxError as e:
            self.errors.append("%s: %s" % (path, e))
        return self.modules.get(name)

    def load_source(self, name, src, path="<spec>"):
        self.modules[name] = Module(self, name, path, src)
        return self.modules[name]

    def lookup(self, modname, name, seen=None):
        """Resolve `name` in module: returns Func|Class|('mod',m)|('assign',node,mod)|('ext',qual)|None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname + "." + name)
        if name in m.defs:
            d = m.defs[name]
            if isinstance(d, (Func, Class)):
                return d
            if d[0] == "mod":
                return ("mod", d[1])
            if d[0] == "assign":
                return ("assign", d[1], m)
            if d[0] == "from":
                _, src, nm = d
                sub = (src + "." + nm) if src else nm
                if src in self.modules:
                    r = self.lookup(src, nm, seen)
                    if r is not None:
                        return r
                    if sub in self.modules:
                        return ("mod", sub)
                    return None
                if sub in self.modules:
                    return ("mod", sub)
                return ("ext", sub)
        for s in m.stars:
            if s in self.modules:
                r = self.lookup(s, name, seen)
                if r is not None and not name.startswith("_"):
                    return r
        if (modname + "." + name) in self.modules:
            return ("mod", modname + "." + name)
        for s in m.stars:
            if s not in self.modules and not name.startswith("_"):
                if name in STAR_NAMES.get(s, ()):
                    return ("ext", s + "." + name)
        return None

    def functions(self):
        for m in self.modules.values():
            for d in m.defs.values():
                if isinstance(d, Func):
                    yield d
                elif isinstance(d, Class):
                    for f in d.methods.values():
                        yield f
                    for f in d.setters.values():
                        yield f

    def class_named(self, name):
        for m in self.modules.values():
            d = m.defs.get(name)
            if isinstance(d, Class) and not m.name.startswith("nidn._spec"):
                return d
        return None

    def public(self, name):
        """Resolve a name exported by the top-level package."""
        return self.lookup(PKG, name)

    def find(self, dotted):
        """nidn.x.y.func or nidn.x.y.Class.method"""
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.modules:
                d = self.lookup(mn, parts[k])
                rest = parts[k + 1:]
                if isinstance(d, Class) and rest:
                    return d.methods.get(rest[0]) or d.setters.get(rest[0])
                return d
        return None


STAR_NAMES = {"math": set(dir(__import__("math")))}
