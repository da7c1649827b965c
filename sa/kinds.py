"""Kinds of array values: labelled arrays, datasets and plain arrays, inferred from the source by abstract interpretation.

A field stored in a dataset as (dimension names, values) needs plain values: a labelled array carries dimensions of its own
and is refused by the array library.  Kinds: DS dataset, DA labelled array, NP plain array or number, None not known.
A store is an alarm only where the value is certainly labelled on the analysed calling path."""
import ast

from .oblig import Result
from .repo import AnalysisError, Func

DS, DA, NP = "dataset", "labelled array", "plain array"
OPENS = {"open_dataset": DS, "load_dataset": DS, "Dataset": DS, "open_dataarray": DA, "load_dataarray": DA, "DataArray": DA}
KEEP = {"sel", "isel", "copy", "rename", "assign_coords", "sortby", "transpose", "load", "compute", "fillna", "where", "astype",
        "drop_vars", "dropna", "squeeze", "reindex", "interp", "roll", "shift", "chunk", "persist", "assign_attrs",
        "expand_dims", "mean", "sum", "max", "min", "cumsum", "diff", "clip", "round", "isnull", "notnull", "set_coords"}
NOT_FIELDS = {"attrs", "sizes", "dims", "encoding", "data_vars", "variables", "nbytes", "indexes", "coords", "values", "data",
              "shape", "ndim", "size", "name", "dtype"}
PLAIN = {"full", "full_like", "zeros", "zeros_like", "ones", "empty", "array", "asarray", "arange", "linspace", "meshgrid",
         "flipud", "fliplr", "float", "int", "radians"}
ELEMENTWISE = {"sqrt", "exp", "log", "abs", "maximum", "minimum", "power", "sin", "cos", "cumsum", "isnan"}


class Kinds:
    def __init__(self, repo, depth=5):
        self.repo, self.depth = repo, depth
        self.memo = {}
        self.stores = {}  # (where, text) -> worst kind
        self.functions = set()

    # ---- names
    def library(self, m, e):
        """Dotted name of an imported library member."""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        g = m.globals.get(e.id)
        if g is None or g[0] not in ("import", "from"):
            return None
        base = g[1] if g[0] == "import" else ".".join(g[1])
        return ".".join([base] + parts[::-1])

    def callee(self, m, e):
        if isinstance(e, ast.Name):
            g = m.globals.get(e.id)
            if g is not None and g[0] == "fn":
                return g[1]
            if g is not None and g[0] == "from":
                try:
                    return self.repo.func(".".join(g[1]))
                except AnalysisError:
                    return None
        return None

    # ---- functions
    def call(self, fn, kinds, named, depth):
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = dict(zip(names, kinds))
        for k, v in named.items():
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                env[k] = v
        key = (fn.qual, tuple(sorted((k, v) for k, v in env.items() if v)))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        if depth > self.depth:
            return None
        self.functions.add(fn.qual)
        env["$depth"] = depth
        env["$ret"] = []
        self.block(fn, fn.node.body, env)
        r = set(env["$ret"])
        self.memo[key] = r.pop() if len(r) == 1 else None
        return self.memo[key]

    def block(self, fn, body, env):
        for s in body:
            self.stmt(fn, s, env)

    def merge(self, env, *branches):
        for k in set().union(*branches):
            if not k.startswith("$"):
                v = {b.get(k) for b in branches}
                env[k] = v.pop() if len(v) == 1 else None

    def stmt(self, fn, s, env):
        if isinstance(s, ast.Assign):
            v = self.kind(fn, s.value, env)
            for t in s.targets:
                self.bind(fn, t, v, s.value, env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(fn, s.target, self.kind(fn, s.value, env), s.value, env)
        elif isinstance(s, ast.AugAssign):
            v = self.kind(fn, s.value, env)
            if isinstance(s.target, ast.Name):
                env[s.target.id] = DA if DA in (v, env.get(s.target.id)) and DS not in (v, env.get(s.target.id)) else None \
                    if env.get(s.target.id) != NP or v != NP else NP
        elif isinstance(s, ast.Return):
            env["$ret"].append(self.kind(fn, s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.Expr):
            self.kind(fn, s.value, env)
        elif isinstance(s, ast.If):
            self.kind(fn, s.test, env)
            a, b = dict(env), dict(env)
            self.block(fn, s.body, a)
            self.block(fn, s.orelse, b)
            ends = lambda x: bool(x) and isinstance(x[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            self.merge(env, *([b] if ends(s.body) else [a] if ends(s.orelse) else [a, b]))
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.bind(fn, s.target, None, None, env)
            for _ in range(2):
                a = dict(env)
                self.block(fn, s.body, a)
                self.merge(env, dict(env), a)
            self.block(fn, s.orelse, env)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.kind(fn, i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(fn, i.optional_vars, v, None, env)
            self.block(fn, s.body, env)
        elif isinstance(s, ast.Try):
            a = dict(env)
            self.block(fn, s.body, a)
            b = [a]
            for h in s.handlers:
                c = dict(env)
                self.block(fn, h.body, c)
                b.append(c)
            self.merge(env, *b)
            self.block(fn, s.orelse, env)
            self.block(fn, s.finalbody, env)

    def bind(self, fn, t, v, value, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                e = value.elts[i] if isinstance(value, (ast.Tuple, ast.List)) and i < len(value.elts) else None
                self.bind(fn, x, self.kind(fn, e, env) if e is not None else None, e, env)
        elif isinstance(t, ast.Subscript):
            c = t.value
            if isinstance(c, ast.Attribute) and c.attr in ("coords", "data_vars"):
                c = c.value
            if self.kind(fn, c, env) == DS or isinstance(t.value, ast.Attribute) and t.value.attr == "coords":
                self.store(fn, t, value, env)

    def store(self, fn, t, value, env):
        """dataset[name] = (dimensions, values)"""
        if not isinstance(value, ast.Tuple) or len(value.elts) not in (2, 3):
            return
        k = self.kind(fn, value.elts[1], env)
        key = (f"{fn.module.path}:{t.lineno}", fn.name, env.get("$from"))
        old = self.stores.get(key)
        self.stores[key] = DA if DA in (k, old) else k

    # ---- expressions
    def kind(self, fn, e, env):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Constant):
            return NP if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else None
        if isinstance(e, ast.Attribute):
            v = self.kind(fn, e.value, env)
            if e.attr in ("values", "data"):
                return NP if v == DA else None
            if v == DS and e.attr not in NOT_FIELDS:
                return DA
            return None
        if isinstance(e, ast.Subscript):
            v = self.kind(fn, e.value, env)
            if v == DS:
                return DA if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) else None
            if v == DA:
                return None if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) else DA
            return v if v == NP else None
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            v = [self.kind(fn, x, env) for x in ([e.left, e.right] if isinstance(e, ast.BinOp) else [e.operand])]
            if DS in v:
                return None
            return DA if DA in v else NP if all(x == NP for x in v) else None
        if isinstance(e, ast.Compare):
            v = [self.kind(fn, x, env) for x in [e.left] + e.comparators]
            return DA if DA in v and DS not in v else None
        if isinstance(e, ast.IfExp):
            a, b = self.kind(fn, e.body, env), self.kind(fn, e.orelse, env)
            return a if a == b else None
        if isinstance(e, ast.Call):
            return self.called(fn, e, env)
        return None

    def called(self, fn, e, env):
        args = [self.kind(fn, x, env) for x in e.args]
        named = {k.arg: self.kind(fn, k.value, env) for k in e.keywords if k.arg}
        if any(isinstance(x, ast.Starred) for x in e.args):
            args = args[:next(i for i, x in enumerate(e.args) if isinstance(x, ast.Starred))]
        f = self.callee(fn.module, e.func)
        if f is not None:
            key = f"{fn.module.path}:{e.lineno}"
            before = set(self.stores)
            r = self.at(f, args, named, env.get("$depth", 0) + 1, key)
            del before
            return r
        lib = self.library(fn.module, e.func)
        if lib is not None:
            root, last = lib.split(".")[0], lib.split(".")[-1]
            if root == "xarray":
                return OPENS.get(last)
            if root == "xrspatial":
                return DA if args and args[0] == DA else None
            if root == "numpy":
                if last in PLAIN and last not in ("radians",):
                    return NP
                if last in ELEMENTWISE | {"radians"} and args:
                    return DA if DA in args else NP if all(x == NP for x in args) else None
            return None
        if isinstance(e.func, ast.Attribute):
            v = self.kind(fn, e.func.value, env)
            if v in (DS, DA) and e.func.attr in KEEP:
                return v
            if v == DA and e.func.attr in ("to_numpy", "item"):
                return NP
            if v == NP and e.func.attr in ("copy", "astype", "reshape", "mean", "sum", "max", "min"):
                return NP
        return None

    def at(self, f, args, named, depth, site):
        """Analyse a call; stores inside are attributed to the outermost call site."""
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = dict(zip(names, args))
        env.update({k: v for k, v in named.items() if k in names})
        if depth > self.depth:
            return None
        self.functions.add(f.qual)
        env.update({"$depth": depth, "$ret": [], "$from": site})
        self.block(f, f.node.body, env)
        r = set(env["$ret"])
        return r.pop() if len(r) == 1 else None


class Plain:
    """Fields stored under dimension names hold plain values."""
    rule = "kinds of stored values"
    tier = "quick"

    def __init__(self, name, *entries):
        self.name, self.entries, self.code = name, entries, entries[0]

    def run(self, ctx, only=None):
        out = []
        for q in self.entries:
            try:
                fn = ctx.repo.func(q)
            except AnalysisError:
                out.append(Result("undecided", q, self.name, f"{q} no longer exists", self.rule))
                continue
            k = Kinds(ctx.repo)
            k.at(fn, [], {}, 0, None)
            ctx.functions |= k.functions
            bad = 0
            for (where, name, site), v in sorted(k.stores.items(), key=str):
                if v == DA:
                    bad += 1
                    out.append(Result("violation", site or where, f"{self.name}: value stored by {name}",
                                      f"a labelled array is stored under dimension names at {where}", self.rule))
            if not bad:
                out.append(Result("ok", fn.where, f"{self.name}: {fn.name} ({len(k.stores)} stores)", "", self.rule))
        return out
