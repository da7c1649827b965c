"""Cross reference of the settings a program reads and the settings files it ships with.

Readers are found by name resolution over the syntax tree: attributes of the settings classes (through import aliases
and local names), constant subscripts of a utility's tables, and the table look-ups made while a file is loaded."""
import ast
import glob
import os

from .equiv import has_unk
from .interp import Unsupported
from .oblig import interpret, Result
from .terms import *
from .repo import AnalysisError

TEMPLATES = "cosipy/utilities/setup_cosipy"
HPC = "cosipy/utilities/hpc"
CLASSES = {"cosipy.config.Config": "config.toml", "cosipy.constants.Constants": "constants.toml",
           "cosipy.config.SlurmConfig": "slurm_config.toml"}
UTILITIES = "utilities_config.toml"
UNREAD = {"stationName"}  # a label for the user


class Read:
    def __init__(self, rel, line, name, table=None, node=None, up=None, fn=None, module=None):
        self.where, self.name, self.table = f"{rel}:{line}", name, table
        self.node, self.up, self.fn, self.module = node, up, fn, module


def params_of(fn):
    a = fn.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def text(n):
    return n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None


def parents(tree):
    up = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    return up


def outer(n, up):
    """The function a node belongs to."""
    while n in up:
        n = up[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return n
    return None


def guarded(n, up):
    """Inside a try statement that handles the missing name."""
    c = n
    while c in up:
        p = up[c]
        if isinstance(p, ast.Try) and p.handlers and any(c is s for s in p.body):
            return True
        if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test and any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr")
                or isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops)
                and text(x.left) is not None for x in ast.walk(p.test)):
            return True
        if isinstance(p, ast.BoolOp) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                                             and x.func.id == "hasattr" for v in p.values for x in ast.walk(v)):
            return True
        c = p
    return False


class Sources:
    """The repository's modules and the settings they read."""

    def __init__(self, repo):
        self.repo = repo
        self.mods = []
        for rel in repo.source_files():
            name = rel[:-3].replace(os.sep, ".")
            name = name[:-9] if name.endswith(".__init__") else name
            try:
                m = repo.module(name)
            except AnalysisError:
                continue
            if m is not None:
                self.mods.append(m)
        self.members = {c: self.class_members(c) for c in CLASSES}
        self.reads = {c: [] for c in CLASSES}
        self.written = {c: set() for c in CLASSES}
        self.tool_reads = []
        self.words = set()
        for m in self.mods:
            self.scan(m)

    def class_members(self, qual):
        out = set(dir(object))
        todo, seen = [self.repo.cls(qual)], set()
        while todo:
            c = todo.pop()
            if id(c) in seen:
                continue
            seen.add(id(c))
            out |= set(c.methods) | set(c.attrs)
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 \
                        and text(n.args[1]):
                    out.add(text(n.args[1]))
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
            todo += self.repo.bases(c)
            if len(c.node.bases) > len(self.repo.bases(c)) and any(
                    not (isinstance(b, ast.Name) and b.id == "object") for b in c.node.bases):
                out.add("*")  # inherits from something outside
        return out

    def class_of(self, m, node, local):
        """The settings class an expression denotes."""
        if isinstance(node, ast.Call):
            node = node.func
        if isinstance(node, ast.Name):
            if node.id in local:
                return local[node.id]
            c = self.repo.resolve_class(m, node.id)
            q = f"{c.module.name}.{c.node.name}" if c is not None else None
            return q if q in CLASSES else None
        if isinstance(node, ast.Attribute) and isinstance(node.value, (ast.Name, ast.Attribute)):
            base = node.value
            target = None
            if isinstance(base, ast.Name):
                g = m.globals.get(base.id)
                if g is not None and g[0] == "import":
                    target = g[1]
                elif g is not None and g[0] == "from":
                    target = f"{g[1][0]}.{g[1][1]}"
            else:
                try:
                    target = ast.unparse(base)
                except Exception:
                    target = None
            q = f"{target}.{node.attr}"
            return q if q in CLASSES else None
        return None

    def scan(self, m):
        up = parents(m.tree)
        aliases = {}  # (function or None, name) -> class
        stores = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.setdefault((outer(n, up), n.id), []).append(n)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                f = outer(n, up)
                q = self.class_of(m, n.value, {})
                if q and len(stores.get((f, n.targets[0].id), ())) == 1:
                    aliases[(f, n.targets[0].id)] = q
        if m.name == "convert_config":
            return
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.words.add(n.attr)
            if text(n) is not None:
                self.words.add(text(n))
        for n in ast.walk(m.tree):
            f = outer(n, up)
            local = {}
            g = f
            while True:
                for (h, nm), q in aliases.items():
                    if h is g and nm not in local:
                        local[nm] = q
                if g is None:
                    break
                g = outer(g, up)
            if f is not None:  # parameters and local names hide module names
                for p in params_of(f):
                    local.setdefault(p, None)
                for (h, nm), _ in stores.items():
                    if h is f:
                        local.setdefault(nm, None)
            if isinstance(n, ast.Attribute):
                q = self.class_of(m, n.value, local)
                if q is None:
                    continue
                if isinstance(n.ctx, ast.Load):
                    if not guarded(n, up):
                        self.reads[q].append(Read(m.path, n.lineno, n.attr, None, n, up, f, m))
                else:
                    self.written[q].add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.args:
                q = self.class_of(m, n.args[0], local)
                if q and n.func.id == "setattr" and len(n.args) > 1 and text(n.args[1]):
                    self.written[q].add(text(n.args[1]))
                elif q and n.func.id == "getattr" and len(n.args) == 2 and text(n.args[1]) and not guarded(n, up):
                    self.reads[q].append(Read(m.path, n.lineno, text(n.args[1])))
        self.loading(m, up)
        self.tool(m, up)

    def loading(self, m, up):
        """Look-ups `table["A"]["b"]` made on the file's content while it is loaded."""
        for q in CLASSES:
            mod, cname = q.rsplit(".", 1)
            if mod != m.name:
                continue
            for name, fn in self.repo.cls(q).methods.items():
                params = set(params_of(fn.node)) - {"self", "cls"}
                for n in ast.walk(fn.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript) \
                            and isinstance(n.value.value, ast.Name) and n.value.value.id in params \
                            and text(n.slice) and text(n.value.slice) and not guarded(n, up):
                        key = text(n.slice) if isinstance(n.ctx, ast.Load) else None
                        self.reads[q].append(Read(m.path, n.lineno, key, text(n.value.slice)))

    def tool(self, m, up):
        """Look-ups `settings.table["key"]` of a program that loads one section of the utilities' settings."""
        sections, names = set(), set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) \
                    and n.value.func.id == "load_config":
                c = n.value
                vals = [text(a) for a in c.args] + [text(k.value) for k in c.keywords]
                vals = [v for v in vals if v]
                t = n.targets[0]
                if len(vals) == 1 and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Name):
                    sections.add(vals[0])
                    names.add(t.elts[1].id)
        if len(sections) != 1 or len(names) != 1:
            return
        section, cfg = sections.pop(), names.pop()
        tables = {}  # (function, local name) -> table

        def table_of(node, f):
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == cfg:
                return node.attr
            if isinstance(node, ast.Name):
                return tables.get((f, node.id))
            return None
        count = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                k = (outer(n, up), n.id)
                count[k] = count.get(k, 0) + 1
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                f = outer(n, up)
                t = table_of(n.value, f)
                if t and count[(f, n.targets[0].id)] == 1:
                    tables[(f, n.targets[0].id)] = t
        calls = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                calls.setdefault(n.func.id, []).append(n)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == cfg \
                    and isinstance(n.ctx, ast.Load) and not guarded(n, up) and not n.attr.startswith("_"):
                self.tool_reads.append(Read(m.path, n.lineno, None, (section, n.attr)))
            if not isinstance(n, ast.Subscript) or not isinstance(n.ctx, ast.Load):
                continue
            f = outer(n, up)
            t = table_of(n.value, f)
            if t is None or guarded(n, up):
                continue
            if text(n.slice):
                self.tool_reads.append(Read(m.path, n.lineno, text(n.slice), (section, t), n, up, f, m))
            elif isinstance(n.slice, ast.Name) and f is not None and n.slice.id in params_of(f):
                i = params_of(f).index(n.slice.id)
                for c in calls.get(f.name, ()):
                    v = [k.value for k in c.keywords if k.arg == n.slice.id] or c.args[i:i + 1]
                    if v and text(v[0]):
                        self.tool_reads.append(Read(m.path, c.lineno, text(v[0]), (section, t)))


def copies(repo, name):
    """The shipped versions of one settings file."""
    out = []
    for d in ("", TEMPLATES):
        p = os.path.join(d, name)
        if os.path.isfile(os.path.join(repo.root, p)):
            out.append(p)
    stem = name[:-5]
    for p in sorted(glob.glob(os.path.join(repo.root, HPC, stem + "*.toml"))):
        out.append(os.path.relpath(p, repo.root))
    return out


def parsed(repo, path):
    try:
        return repo.toml(path), None
    except AnalysisError as e:
        return None, str(e)
    except Exception as e:
        return None, f"does not parse: {e}"


def kind(v):
    if isinstance(v, bool):
        return "true or false"
    if isinstance(v, (int, float)):
        return "number"
    if isinstance(v, dict):
        return "table"
    if isinstance(v, list):
        return "list"
    return "text"


def flat(d, pre=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flat(v, pre + (k,)))
        else:
            out[pre + (k,)] = v
    return out


class Check:
    rule = "cross reference of settings read and settings shipped"
    tier = "quick"

    def __init__(self, name, f):
        self.name, self.f, self.code = name, f, name

    def run(self, ctx, only=None):
        src = Sources(ctx.repo)
        ctx.functions |= {m.name for m in src.mods}
        out = []
        for status, where, what, detail, *key in self.f(ctx.repo, src):
            if only is None or only.search(what):
                out.append(Result(status, where, f"{self.name}: {what}", detail, self.rule, *key))
        return out


def defined(repo, src):
    """Every setting read is defined by every shipped version of its file."""
    for cls, name in CLASSES.items():
        files = copies(repo, name)
        if not any(os.path.dirname(p) == TEMPLATES for p in files) or name not in files:
            yield "violation", name, f"{name} is shipped", f"shipped: {files}"
        for path in files:
            data, err = parsed(repo, path)
            if err:
                yield "violation", path, f"{path} parses", err
                continue
            keys = {k for t in data.values() if isinstance(t, dict) for k in t}
            have = keys | src.members[cls] | src.written[cls]
            done = {}
            for r in src.reads[cls]:
                if r.table is not None:
                    ok = r.table in data and (r.name is None or r.name in data[r.table])
                    what = f"[{r.table}] {r.name or ''}"
                else:
                    ok = r.name in have or "*" in have
                    what = r.name
                if what not in done or (done[what][0] and not ok):
                    done[what] = (ok, r)
            for what, (ok, r) in sorted(done.items()):
                yield ("ok" if ok else "violation", r.where, f"{path} defines {what}",
                       "" if ok else f"read at {r.where}, not defined in {path}")
    for path in copies(repo, UTILITIES):
        data, err = parsed(repo, path)
        if err:
            yield "violation", path, f"{path} parses", err
            continue
        done = {}
        for r in src.tool_reads:
            section, table = r.table
            t = data.get(section, {}).get(table)
            ok = isinstance(t, dict) and (r.name is None or r.name in t)
            if isinstance(data.get(section), dict) and table in ("_fields", "_asdict"):
                continue
            what = f"[{section}.{table}] {r.name or ''}"
            if what not in done or (done[what][0] and not ok):
                done[what] = (ok, r)
        for what, (ok, r) in sorted(done.items()):
            yield ("ok" if ok else "violation", r.where, f"{path} defines {what}",
                   "" if ok else f"read at {r.where}, not defined in {path}")


def same_layout(repo, src):
    """The installed templates have the tables, names and kinds of value of the top-level files."""
    for name in sorted(set(CLASSES.values()) | {UTILITIES}):
        a, e1 = parsed(repo, name)
        b, e2 = parsed(repo, os.path.join(TEMPLATES, name))
        if e1 or e2:
            yield "violation", name, f"{name} parses", e1 or e2
            continue
        a, b = flat(a), flat(b)
        for k in sorted(set(a) | set(b)):
            what = f"template of {name}: {'.'.join(k)}"
            if k not in a and k[-1] in {x[-1] for x in a}:
                d = "in another table"
            elif k not in a:
                if name == "slurm_config.toml" and not any(r.name == k[-1] for r in src.reads["cosipy.config.SlurmConfig"]):
                    continue
                d = f"only in {TEMPLATES}"
            elif k not in b:
                if name == "slurm_config.toml" and not any(r.name == k[-1] for r in src.reads["cosipy.config.SlurmConfig"]):
                    continue
                d = "only in the top-level file"
            elif kind(a[k]) != kind(b[k]):
                d = f"{kind(a[k])} and {kind(b[k])}"
            else:
                d = ""
            yield ("violation" if d else "ok", f"{TEMPLATES}/{name}", what, d)


def unique_names(repo, src):
    """A name set in two tables of one file would be overwritten by the later one."""
    for name in sorted(set(CLASSES.values())):
        for path in copies(repo, name):
            data, err = parsed(repo, path)
            if err:
                continue
            seen = {}
            for k in flat(data):
                seen.setdefault(k[-1], []).append(k)
            for k, where in sorted(seen.items()):
                yield ("ok" if len(where) == 1 else "violation", path, f"{path} defines {k} once",
                       "" if len(where) == 1 else f"in {where}")


def effective(repo, src):
    """Every shipped setting is read by the program."""
    reads = {c: {r.name for r in rs} | {r.table for r in rs} for c, rs in src.reads.items()}
    for cls, name in CLASSES.items():
        data, err = parsed(repo, name)
        if err:
            continue
        for k in sorted(flat(data)):
            used = k[-1] in reads[cls] or k[-1] in src.members[cls] or k[-1] in src.words
            yield ("ok" if used else "violation", name, f"{name}: {'.'.join(k)} has an effect",
                   "" if used else "never read", f"unread:{k[-1]}")
    data, err = parsed(repo, UTILITIES)
    tool = {(r.table, r.name) for r in src.tool_reads}
    for k in sorted(flat(data)) if not err else ():
        used = len(k) == 3 and ((k[0], k[1]), k[2]) in tool or k[-1] in src.words or k[-1] in UNREAD
        yield ("ok" if used else "violation", UTILITIES, f"{UTILITIES}: {'.'.join(k)} has an effect",
               "" if used else "never read", f"unread:{k[-1]}")


def constants_in(node, r):
    """The texts a membership or equality test compares with."""
    if text(node) is not None:
        return {text(node)}
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
        v = [text(x) for x in node.elts]
        return set(v) if all(x is not None for x in v) else None
    if isinstance(node, ast.Dict):
        v = [text(x) for x in node.keys]
        return set(v) if all(x is not None for x in v) else None
    if isinstance(node, ast.Name):
        bound = []
        for scope in (r.fn, r.module.tree):
            if scope is None:
                continue
            for n in ast.walk(scope):
                if isinstance(n, ast.Name) and n.id == node.id and isinstance(n.ctx, ast.Store) and (
                        scope is not r.module.tree or outer(n, r.up) is None):
                    bound.append(n)
            if bound:
                break
        if len(bound) == 1:
            p = r.up.get(bound[0])
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is bound[0]:
                return constants_in(p.value, r)
    return None


def use_of(r, depth=0):
    """Texts the setting is compared with at one read; empty for mere display; None for any other use."""
    n, up = r.node, r.up
    p = up.get(n)
    c = p
    while c is not None and not isinstance(c, ast.stmt):
        if isinstance(c, ast.JoinedStr):
            return set()
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "print":
            return set()
        c = up.get(c)
    if isinstance(c, ast.Raise):
        return set()
    if isinstance(p, ast.Compare) and len(p.ops) == 1:
        other = p.comparators[0] if p.left is n else p.left
        if isinstance(p.ops[0], (ast.Eq, ast.NotEq)) or p.left is n and isinstance(p.ops[0], (ast.In, ast.NotIn)):
            return constants_in(other, r)
        if isinstance(p.ops[0], (ast.Is, ast.IsNot)):
            return set()
    if isinstance(p, ast.Subscript) and p.slice is n:
        return constants_in(p.value, r)
    if isinstance(p, ast.Assign) and p.value is n and len(p.targets) == 1 and depth < 3:
        t = p.targets[0]
        if not isinstance(t, ast.Name):
            return set()  # stored for display
        out = set()
        for x in ast.walk(r.module.tree):
            if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load) \
                    and (r.fn is None or outer(x, r.up) is r.fn):
                u = use_of(Read("", 0, r.name, None, x, r.up, r.fn, r.module), depth + 1)
                if u is None:
                    return None
                out |= u
        return out
    return None


# the documented choices
CHOICES = {"stability_correction": "Ri MO", "albedo_method": "Oerlemans98 Bougamont05",
           "densification_method": "Boone Vionnet empirical constant", "penetrating_method": "Bintanja95",
           "roughness_method": "Moelg12", "saturation_water_vapour_method": "Sonntag90",
           "thermal_conductivity_method": "bulk empirical", "sfc_temperature_method": "L-BFGS-B SLSQP Newton Secant",
           "remesh_method": "log_profile adaptive_profile", "eval_method": "rmse", "obs_type": "mb snowheight",
           "radiationModule": "Wohlfahrt2016 Moelg2009 none"}


def options(repo, src):
    """A shipped choice is one the program distinguishes."""
    groups = {}
    for cls, rs in src.reads.items():
        for r in rs:
            if r.node is not None:
                groups.setdefault((CLASSES[cls], (r.name,)), []).append(r)
    for r in src.tool_reads:
        if r.node is not None and r.name:
            groups.setdefault((UTILITIES, r.table + (r.name,)), []).append(r)
    for (name, key), rs in sorted(groups.items()):
        uses = [use_of(r) for r in rs]
        declared = set(CHOICES.get(key[-1], "").split())
        if not declared and any(u is None for u in uses):
            continue
        known = set().union(declared, *[u for u in uses if u])
        if not known:
            continue
        for path in copies(repo, name):
            data, err = parsed(repo, path)
            if err:
                continue
            for k, v in flat(data).items():
                if (k[-1:] == key if name != UTILITIES else k == key) and isinstance(v, str):
                    ok = v in known
                    yield ("ok" if ok else "violation", rs[0].where, f"{path}: the choice of {k[-1]} exists",
                           "" if ok else f"{v!r} is shipped, the program knows {sorted(known)}")


def old(I, st, fn, b):
    """Stub: every table with the old value of each name asked for."""
    out = []
    for k, v in I.deref(b["key_pairs"], st).a:
        names = I.deref(v, st)
        out.append((k, I.new(st, "dict", v=mk("dct", *[(x, app("old", x)) for x in names.a]))))
    p = b.get("parameters")
    have = list(I.deref(p, st).a) if p is not None and I.deref(p, st).k == "dct" else []
    v = mk("dct", *[x for x in have if x[0] not in [k for k, _ in out]], *out)
    if p is not None and p.k == "ref":
        st.heap[p.a[0]].f["v"] = v
        return p
    return I.new(st, "dict", v=v)


def tree(t):
    """Nested tables of a snapshot, or None."""
    if t.k != "dct":
        return t
    out = {}
    for k, v in t.a:
        if not is_str(k):
            return t
        out[cval(k)] = tree(v)
    return out


# settings that the old modules did not have under this name
RENAMED = {"output_prefix", "output_atm", "output_internal", "output_full", "LUT_path"}
DEFAULTS = ("create_static",)


class Converted:
    """The conversion of old settings yields every table and name of the shipped file, with the old value of that name."""
    rule = "abstract interpretation of the conversion against the shipped settings files"
    tier = "quick"

    def __init__(self, name, code, path):
        self.name, self.code, self.path = name, code, path

    def run(self, ctx, only=None):
        where = ctx.repo.func(self.code).where
        data, err = parsed(ctx.repo, self.path)
        if err:
            return [Result("undecided", where, self.name, err, self.rule)]
        try:
            r = interpret(ctx.repo, self.code, [], {"convert_config.set_module_params": old})
        except (Unsupported, RecursionError, TooBig) as e:
            return [Result("undecided", where, self.name, f"outside the analysed language: {e}", self.rule)]
        ctx.functions |= r.functions | {self.code}
        got = tree(r.obs.get("returned value", NONE))
        if not isinstance(got, dict) or has_unk(r.obs["returned value"]):
            return [Result("undecided", where, self.name, "tables not found", self.rule)]
        out = []

        def flatten(d, pre=()):
            o = {}
            for k, v in d.items():
                o.update(flatten(v, pre + (k,)) if isinstance(v, dict) else {pre + (k,): v})
            return o
        have, want = flatten(got), flat(data)
        for k in sorted(set(have) | set(want)):
            v = have.get(k)
            if v is None:
                d = f"shipped in {self.path}, not converted"
            elif k not in want:
                d = f"not in {self.path}"
            elif k[0] in DEFAULTS or k[-1] in RENAMED:
                d = ""
                x = None if v.k == "app" else "number" if as_number(v) is not None else kind(v.a[0].v if v.k == "c" else "")
                x = "true or false" if v in (TRUE, FALSE) else x
                if x is not None and x != kind(want[k]):
                    d = f"{x} instead of {kind(want[k])}"
            else:
                d = "" if v is app("old", const(k[-1])) else f"value is {show(v, 6)}"
            out.append(Result("violation" if d else "ok", where, f"{self.name}: {'.'.join(k)}", d, self.rule))
        return [x for x in out if only is None or only.search(x.what)]


CONVERSION = [Converted("conversion: " + n, f"convert_config.get_{f}_params", n + ".toml")
              for f, n in (("config", "config"), ("constants", "constants"), ("utilities", "utilities_config"))]
OBLIGATIONS = [Check("shipped settings: defined", defined), Check("shipped settings: templates", same_layout),
               Check("shipped settings: unique", unique_names), Check("shipped settings: effective", effective),
               Check("shipped settings: choices", options)]
