"""Loads and indexes the source of /repo (syntax trees only; nothing is imported or run)."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "col_gen_estimator"
FILES = {
    "cg": PKG + "/_col_gen_classifier.py",
    "bdr": PKG + "/_bdr_classifier.py",
    "dt": PKG + "/_dtree_classifier.py",
    "pt": PKG + "/_parameter_tuner.py",
    "ex": "examples/dtree_experiment.py",
}


class Broken(Exception):
    """The analysis cannot be carried out at all (missing file, syntax error, vanished anchor)."""


class Func:
    def __init__(self, mod, node, cls=None, name=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.decos = set()
        for d in getattr(node, "decorator_list", []):
            self.decos.add(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?")

    @property
    def static(self):
        return "staticmethod" in self.decos

    @property
    def classm(self):
        return "classmethod" in self.decos

    @property
    def prop(self):
        return "property" in self.decos

    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<F %s>" % self.qual()


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.consts, self.bases = {}, {}, []
        for b in node.bases:
            self.bases.append(ast.unparse(b))
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(mod, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value

    def __repr__(self):
        return "<C %s>" % self.name


class Module:
    def __init__(self, name, path, text):
        self.name, self.path = name, path
        try:
            self.tree = ast.parse(text, path)
        except SyntaxError as e:
            raise Broken("syntax error in %s: %s" % (path, e))
        self.classes, self.funcs, self.consts, self.imports = {}, {}, {}, {}
        self._index(self.tree.body)

    def _index(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    src = "." * s.level + (s.module or "")
                    self.imports[a.asname or a.name] = src + ":" + a.name
            elif isinstance(s, (ast.If, ast.Try)):
                self._index(s.body)


class Program:
    """All modules, with name resolution across them."""

    def __init__(self, root=None, extra=None):
        self.root = root or REPO
        self.mods = {}
        for d, _, fs in sorted(os.walk(os.path.join(self.root, PKG))):
            if "/tests" in d or "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    self._load(os.path.relpath(os.path.join(d, f), self.root))
        for d, _, fs in sorted(os.walk(os.path.join(self.root, "examples"))):
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    self._load(os.path.relpath(os.path.join(d, f), self.root))
        for name, path in (extra or {}).items():
            with open(path) as fh:
                self.mods[name] = Module(name, path, fh.read())

    def _load(self, rel):
        with open(os.path.join(self.root, rel)) as fh:
            self.mods[rel] = Module(rel, rel, fh.read())

    def mod(self, key):
        rel = FILES.get(key, key)
        if rel not in self.mods:
            raise Broken("source file %s is gone" % rel)
        return self.mods[rel]

    # -- resolution -------------------------------------------------------
    def resolve(self, mod, name, depth=0):
        """('class',Cls) | ('func',Func) | ('const',expr,Module) | ('ext',dotted) | None"""
        if name in mod.classes:
            return ("class", mod.classes[name])
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.consts:
            return ("const", mod.consts[name], mod)
        if name in mod.imports and depth < 6:
            t = mod.imports[name]
            if ":" in t:
                src, nm = t.split(":")
                m2 = self._find_mod(mod, src)
                if m2 is not None:
                    r = self.resolve(m2, nm, depth + 1)
                    if r:
                        return r
                sub = self._find_mod(mod, (src if src.endswith(".") else src + ".") + nm)
                if sub is not None:
                    return ("mod", sub)
                return ("ext", (src.lstrip(".") + "." + nm))
            m2 = self._find_mod(mod, t)
            if m2 is not None:
                return ("mod", m2)
            return ("ext", t)
        return None

    def _find_mod(self, mod, src):
        if src.startswith("."):
            lvl = len(src) - len(src.lstrip("."))
            base = os.path.dirname(mod.path)
            for _ in range(lvl - 1):
                base = os.path.dirname(base)
            rest = src.lstrip(".").replace(".", "/")
            cand = [os.path.join(base, rest + ".py") if rest else os.path.join(base, "__init__.py"),
                    os.path.join(base, rest, "__init__.py")]
        else:
            r = src.replace(".", "/")
            cand = [r + ".py", r + "/__init__.py"]
        for c in cand:
            if c in self.mods:
                return self.mods[c]
        return None

    def cls(self, name):
        """Finds a class of the package by its public name."""
        for m in self.mods.values():
            if name in m.classes:
                return m.classes[name]
        raise Broken("class %s is gone" % name)

    def base_classes(self, cls):
        out = []
        for b in cls.bases:
            r = self.resolve(cls.mod, b) if "." not in b else None
            if r and r[0] == "class":
                out.append(r[1])
            else:
                out.append(b)
        return out

    def mro(self, cls):
        """Linear left-to-right depth-first order (no diamond inside this package)."""
        out = [cls]
        for b in self.base_classes(cls):
            if isinstance(b, Cls):
                for c in self.mro(b):
                    if c not in out:
                        out.append(c)
        return out

    def method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def class_const(self, cls, name):
        for c in self.mro(cls):
            if name in c.consts:
                return c.consts[name], c.mod
        return None

    def ext_bases(self, cls):
        out = set()
        for c in self.mro(cls):
            for b in self.base_classes(c):
                if not isinstance(b, Cls):
                    out.add(b.split(".")[-1])
        return out

    def need_method(self, clsname, name):
        c = self.cls(clsname)
        m = self.method(c, name)
        if m is None:
            raise Broken("method %s.%s is gone" % (clsname, name))
        return m

    def need_func(self, key, name):
        m = self.mod(key)
        if name not in m.funcs:
            raise Broken("function %s of %s is gone" % (name, m.path))
        return m.funcs[name]
