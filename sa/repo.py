"""Loading and resolving the analysed program (source only, nothing is imported)."""
import ast
import os
import tomllib

REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis itself cannot proceed (missing anchor, unreadable source)."""


class Func:
    def __init__(self, node, module, qual, cls=None, closure=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls
        self.closure = closure

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}"

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.kinds = {}
        self.attrs = {}
        self.bases = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, module, f"{module.name}.{node.name}.{s.name}", self)
                kind = "inst"
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                        kind = d.id
                    if isinstance(d, ast.Name) and d.id == "property":
                        kind = "property"
                    if isinstance(d, ast.Attribute) and d.attr == "setter":
                        kind = "setter"
                if kind == "setter":
                    self.setters[s.name] = f
                elif kind == "property":
                    self.props[s.name] = f
                else:
                    self.methods[s.name] = f
                    self.kinds[s.name] = kind
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = rel
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source)
        except SyntaxError as e:
            raise AnalysisError(f"{rel}: {e}")
        self.globals = {}  # name -> ('fn'|'cls'|'import'|'from'|'expr', payload)
        self.assigns = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.globals[s.name] = ("fn", Func(s, self, f"{self.name}.{s.name}"))
            elif isinstance(s, ast.ClassDef):
                self.globals[s.name] = ("cls", Class(s, self))
            elif isinstance(s, ast.Import):
                for al in s.names:
                    nm = al.asname or al.name.split(".")[0]
                    self.globals[nm] = ("import", al.name if al.asname else al.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = self.name.split(".")[:-s.level]
                    base = ".".join(parts + ([base] if base else []))
                for al in s.names:
                    self.globals[al.asname or al.name] = ("from", (base, al.name))
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                if s.value is None:
                    continue
                for t in tg:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = ("expr", s.value)
                        self.assigns.setdefault(t.id, []).append(s)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)):
                        for x, v in zip(t.elts, s.value.elts):
                            if isinstance(x, ast.Name):
                                self.globals[x.id] = ("expr", v)
            elif isinstance(s, ast.If):
                self._scan(s.orelse)
                self._scan(s.body)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
            elif isinstance(s, ast.With):
                self._scan(s.body)


class Repo:
    def __init__(self, root=REPO, extra=None):
        self.root = root
        self.modules = {}
        self.extra = extra or {}
        self.analysed = set()

    def path_of(self, name):
        if name in self.extra:
            return self.extra[name]
        p = os.path.join(self.root, *name.split("."))
        for c in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(c):
                return c
        return None

    def module(self, name):
        if name not in self.modules:
            p = self.path_of(name)
            if p is None:
                self.modules[name] = None
            else:
                rel = os.path.relpath(p, self.root) if p.startswith(self.root) else p
                self.modules[name] = Module(name, p, rel)
        return self.modules[name]

    def need(self, name):
        m = self.module(name)
        if m is None:
            raise AnalysisError(f"module {name} not found in {self.root}")
        return m

    def func(self, qual):
        """Resolve 'pkg.mod.func' or 'pkg.mod.Class.method'."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.module(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            g = m.globals.get(rest[0])
            if g is None:
                continue
            if g[0] == "from":
                return self.func(f"{g[1][0]}.{g[1][1]}" + ("." + ".".join(rest[1:]) if rest[1:] else ""))
            if len(rest) == 1 and g[0] == "fn":
                return g[1]
            if len(rest) == 2 and g[0] == "cls":
                f = self.find_method(g[1], rest[1])
                if f is not None:
                    return f
        raise AnalysisError(f"anchor {qual} not found")

    def cls(self, qual):
        mod, name = qual.rsplit(".", 1)
        m = self.need(mod)
        g = m.globals.get(name)
        if g is None or g[0] != "cls":
            raise AnalysisError(f"class {qual} not found")
        return g[1]

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                c = self.resolve_class(cls.module, b.id)
                if c is not None:
                    out.append(c)
        return out

    def resolve_class(self, module, name, depth=0):
        g = module.globals.get(name)
        if g is None or depth > 8:
            return None
        if g[0] == "cls":
            return g[1]
        if g[0] == "from":
            m = self.module(g[1][0])
            if m is not None:
                return self.resolve_class(m, g[1][1], depth + 1)
        return None

    def find_method(self, cls, name):
        if name in cls.methods:
            return cls.methods[name]
        for b in self.bases(cls):
            f = self.find_method(b, name)
            if f is not None:
                return f
        return None

    def toml(self, rel):
        p = os.path.join(self.root, rel)
        if not os.path.isfile(p):
            raise AnalysisError(f"{rel} not found")
        with open(p, "rb") as f:
            return tomllib.load(f)

    def source_files(self):
        out = []
        for d, dirs, files in os.walk(self.root):
            dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("tests", "docs", "data", "logs", "build")
                       and not x.endswith(".egg-info")]
            for f in sorted(files):
                if f.endswith(".py"):
                    out.append(os.path.relpath(os.path.join(d, f), self.root))
        return sorted(out)
