"""Abstract interpreter: Python AST -> gated value-flow terms.

Every statement is visited once per calling context; branches are joined with
gated (``ite``) values, loops become loop-carried definitions (``mu``), calls to
functions of the repository are inlined and everything else stays an
uninterpreted application.  The result is an IR; no repository code is run.
"""
import ast
import builtins
import copy
import functools
from fractions import Fraction

from .repo import Func, Class, Module, AnalysisError
from .terms import *
from .terms import _close
from .equiv import mudefs
from . import terms as TT


class Obj:
    __slots__ = ("kind", "cls", "f")

    def __init__(self, kind, cls=None, f=None):
        self.kind = kind
        self.cls = cls
        self.f = f or {}

    def put(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Obj(self.kind, self.cls, g)


NOT_CALLED = const("<not called>")


class State:
    __slots__ = ("vars", "heap", "pc")

    def __init__(self, vars=None, heap=None, pc=TRUE):
        self.vars = vars if vars is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self, pc=None):
        return State(dict(self.vars), dict(self.heap), self.pc if pc is None else pc)


class Exit:
    __slots__ = ("kind", "pc", "val", "st")

    def __init__(self, kind, pc, val, st):
        self.kind, self.pc, self.val, self.st = kind, pc, val, st


class Unsupported(Exception):
    pass


def unk(why):
    return mk("unk", str(why))


BUILTINS = {"len", "range", "min", "max", "sum", "abs", "float", "int", "str", "bool", "isinstance", "sorted",
            "enumerate", "zip", "list", "tuple", "dict", "set", "print", "getattr", "setattr", "hasattr", "any",
            "all", "round", "open", "reversed", "map", "filter", "iter", "next", "type", "id", "repr", "callable",
            "super", "issubclass", "slice", "frozenset", "input", "vars", "divmod", "pow", "object"}
EXC = {"Exception", "ValueError", "RuntimeError", "TypeError", "KeyError", "IndexError", "NotImplementedError",
       "FileNotFoundError", "SystemExit", "AttributeError", "NotADirectoryError", "OSError", "AssertionError",
       "ImportError", "StopIteration", "KeyboardInterrupt", "NameError", "ZeroDivisionError", "BaseException",
       "ArithmeticError", "FileExistsError", "PermissionError", "UserWarning", "DeprecationWarning", "FutureWarning", "RuntimeWarning", "Warning"}
WRAP_CALLS = {"float", "numpy.float64", "numpy.asarray", "numpy.array", "numpy.copy", "numpy.asanyarray",
              "numpy.ascontiguousarray", "numpy.squeeze"}
WRAP_ATTR = {"values", "data"}
LABELLED = {"sizes", "dims", "coords", "attrs", "data_vars", "variables", "isel", "sel", "values", "columns", "index", "loc", "iloc",
            "to_array", "shape", "encoding", "to_netcdf", "close", "keys", "items", "rename", "sortby"}
NEWARR = {"numpy.array", "numpy.copy", "numpy.full", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.zeros_like",
          "numpy.empty_like", "numpy.ones_like", "numpy.full_like", "numpy.append", "numpy.arange"}
MAXDEPTH = 40


TEXT_METHODS = {"m:" + x for x in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "format", "strftime", "capitalize",
                                   "removesuffix", "removeprefix", "join")}


def is_text(t):
    """The value is known to be text."""
    if t.k == "app" and t.a[0] == "idx":
        x = t.a[1][0]
        return x.k == "app" and x.a[0] in ("m:rsplit", "m:split", "m:partition", "m:rpartition")
    return t is THIS_FILE or t.k == "app" and t.a[0] in TEXT_METHODS or is_strlike(t)


THIS_FILE = sym("__file__")

class Interp:
    def __init__(self, repo, stubs=None, opaque_calls=None, intrinsics=None):
        self.repo = repo
        self.stubs = stubs or {}
        self.intrinsics = intrinsics or {}
        self.stack = []
        self.next_ref = 1
        self.events = []
        self.pending = []  # (pc, excname, state)
        self.functions = set()
        self.notes = []
        self.uid = 0
        self.fieldreads = []
        self.globcache = {}
        self.extlog = None
        self.consts = {}
        self.places = {}  # what a named item of a table held at first
        self.ghost_ref = None  # object that records calls and writes
        self.recorded = ()  # kinds of writes that are recorded
        self.lasts = {}  # (array after a loop, last index) -> element
        self.global_names = {}
        self.given = {}  # values assumed for settings
        self.watch, self.watched = (), ()  # steps that must precede these kinds of writes
        self.counts = {}  # calls of each recorded process on the current path
        self.ivs = []  # loops being interpreted
        self.starts = {}  # values of loop variables before their loops
        self.named_refs = {}
        self.series_of = ()
        self.ext_stubs = {}  # library function -> handler(interp, args, kw, state)
        self.method_stubs = {}  # method name -> handler(interp, receiver, args, kw, state)
        self.strings = ()  # terms known to be strings
        self.keeps = {}  # attributes that the result of a step has in common with its first argument
        self.functional = False  # item writes to unnamed library objects yield a new value

    # ------------------------------------------------------------ heap
    def new(self, st, kind, cls=None, **f):
        r = self.next_ref
        self.next_ref += 1
        st.heap[r] = Obj(kind, cls, f)
        return mk("ref", r)

    def obj(self, st, t):
        return st.heap.get(t.a[0]) if t.k == "ref" else None

    def put(self, st, ref, key, v):
        r = ref.a[0]
        st.heap[r] = st.heap[r].put(key, v)

    def deref(self, v, st, depth=0):
        """Snapshot of a value without heap references to containers."""
        if depth > 12:
            return v
        if v.k == "ref":
            o = st.heap.get(v.a[0])
            if o is None:
                return v
            if o.kind in ("list", "arr", "dict", "set"):
                return self.deref(o.f["v"], st, depth + 1)
            return v
        if v.k == "tup":
            return mk("tup", *[self.deref(x, st, depth + 1) for x in v.a])
        if v.k == "dct":
            return mk("dct", *[(k, self.deref(x, st, depth + 1)) for k, x in v.a])
        if v.k == "ite":
            return ite(v.a[0], self.deref(v.a[1], st, depth + 1), self.deref(v.a[2], st, depth + 1))
        if v.k == "app" and v.a[0] == "now":
            return v.a[1][1]
        return v

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b, base):
        """State that is a if c else b."""
        st = State()
        memo = {}
        ha, hb = dict(a.heap), dict(b.heap)
        out = {}

        def val(x, y):
            if x is y:
                return x
            if x.k == "ref" and y.k == "ref":
                key = (x, y)
                if key in memo:
                    return memo[key]
                ox, oy = ha.get(x.a[0]), hb.get(y.a[0])
                if (ox is not None and oy is not None and ox.kind == oy.kind and ox.cls is oy.cls
                        and x.a[0] not in base and y.a[0] not in base):
                    r = self.next_ref
                    self.next_ref += 1
                    memo[key] = mk("ref", r)
                    if set(ox.f) == set(oy.f):
                        out[r] = Obj(ox.kind, ox.cls, {k: val(ox.f[k], oy.f[k]) for k in ox.f})
                        return memo[key]
                    f = {}
                    for k in list(ox.f) + [k for k in oy.f if k not in ox.f]:
                        f[k] = val(ox.f.get(k, unk("undef:" + k)), oy.f.get(k, unk("undef:" + k)))
                    out[r] = Obj(ox.kind, ox.cls, f)
                    return memo[key]
                return ite(c, x, y)
            if x.k == "tup" and y.k == "tup" and len(x.a) == len(y.a):
                return mk("tup", *[val(p, q) for p, q in zip(x.a, y.a)])
            return ite(c, x, y)

        for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
            if k in a.vars and k in b.vars:
                st.vars[k] = val(a.vars[k], b.vars[k])
            else:
                x = a.vars.get(k)
                y = b.vars.get(k)
                u = unk("undef:" + k)
                st.vars[k] = ite(c, x, u) if x is not None else ite(c, u, y)
        for r in list(ha) + [r for r in hb if r not in ha]:
            if r in ha and r in hb:
                ox, oy = ha[r], hb[r]
                if ox is oy:
                    st.heap[r] = ox
                else:
                    f = {}
                    for k in list(ox.f) + [k for k in oy.f if k not in ox.f]:
                        x, y = ox.f.get(k), oy.f.get(k)
                        d = NOT_CALLED if ox.kind == "ghost" else unk("undef:" + k)
                        f[k] = val(d if x is None else x, d if y is None else y)
                    st.heap[r] = Obj(ox.kind, ox.cls, f)
            else:
                st.heap[r] = ha.get(r) or hb[r]
        for r, o in out.items():
            st.heap[r] = o
        return st

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st):
        """Execute statements; st.pc is relative to the block entry."""
        exits = []
        for s in stmts:
            if st is None:
                break
            st, ex = self.stmt(s, st)
            exits += ex
        return st, exits

    def settle(self, st):
        """Turn pending raises of the last evaluation into exits."""
        ex = []
        if self.pending:
            pend, self.pending = self.pending, []
            for pc, name, val in pend:
                ex.append(Exit("raise", and_(st.pc, pc), val, st.copy()))
                npc = and_(st.pc, not_(pc))
                st.pc = npc
            if st.pc is FALSE:
                return None, ex
        return st, ex

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        return m(s, st)

    def s_Pass(self, s, st):
        return st, []

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return self.settle(st)

    def s_Import(self, s, st):
        for al in s.names:
            st.vars[al.asname or al.name.split(".")[0]] = self.modref(al.name if al.asname else al.name.split(".")[0])
        return st, []

    def s_ImportFrom(self, s, st):
        for al in s.names:
            st.vars[al.asname or al.name] = self.from_import(s.module or "", al.name)
        return st, []

    def s_FunctionDef(self, s, st):
        mod = self.stack[-1].module
        f = Func(s, mod, f"{self.stack[-1].qual}.{s.name}", closure=st.vars)
        st.vars[s.name] = mk("fn", f)
        return st, []

    def s_ClassDef(self, s, st):
        st.vars[s.name] = mk("cls", Class(s, self.stack[-1].module))
        return st, []

    def s_Assert(self, s, st):
        return st, []

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                i = self.ev_index(t.slice, st)
                self.del_item(o, i, st)
            else:
                self.event(st, app("delattr", self.deref(self.ev(t.value, st), st), const(t.attr)))
        return self.settle(st)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        st, ex = self.settle(st)
        if st is None:
            return None, ex
        return None, ex + [Exit("ret", st.pc, v, st)]

    def s_Raise(self, s, st):
        name = "Exception"
        val = NONE
        if s.exc is not None:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = n.id if isinstance(n, ast.Name) else getattr(n, "attr", "Exception")
            # arguments are only evaluated for their effects on analysis coverage
            if isinstance(s.exc, ast.Call):
                keep = self.events
                self.events = []
                try:
                    for a in s.exc.args:
                        self.ev(a, st)
                except Unsupported:
                    pass
                self.events = keep
            self.pending = []
        return None, [Exit("raise", st.pc, const(name), st)]

    def s_Break(self, s, st):
        return None, [Exit("break", st.pc, NONE, st)]

    def s_Continue(self, s, st):
        return None, [Exit("continue", st.pc, NONE, st)]

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return self.settle(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return self.settle(st)

    def s_AugAssign(self, s, st):
        import copy
        tgt = copy.copy(s.target)
        tgt.ctx = ast.Load()
        old = self.ev(tgt, st)
        o = self.obj(st, old)
        rhs = self.ev(s.value, st)
        if o is not None and o.kind == "list" and isinstance(s.op, ast.Add):
            self.list_extend(old, rhs, st)
            return self.settle(st)
        v = self.binop(s.op, old, rhs, st)
        if o is not None and o.kind == "arr":
            self.put(st, old, "v", self.deref(v, st))
        else:
            self.assign(s.target, v, st)
        return self.settle(st)

    def s_If(self, s, st):
        c = truth(self.cond(s.test, st))
        st, ex0 = self.settle(st)
        if st is None:
            return None, ex0
        if c is TRUE:
            r, ex = self.block(s.body, st)
            return r, ex0 + ex
        if c is FALSE:
            r, ex = self.block(s.orelse, st)
            return r, ex0 + ex
        pc0 = st.pc
        ev0 = self.events
        self.events = []
        n0 = dict(self.counts)
        s1, e1 = self.block(s.body, st.copy(TRUE))
        ev1, self.events = self.events, []
        n1, self.counts = self.counts, n0
        s2, e2 = self.block(s.orelse, st.copy(TRUE))
        self.counted(n1)
        ev2 = self.events
        self.events = ev0
        p1, p2 = and_(pc0, c), and_(pc0, not_(c))
        self.events += [(and_(p1, p), t) for p, t in ev1] + [(and_(p2, p), t) for p, t in ev2]
        exits = []
        for e in e1:
            e.pc = and_(p1, e.pc)
            exits.append(e)
        for e in e2:
            e.pc = and_(p2, e.pc)
            exits.append(e)
        if s1 is None and s2 is None:
            return None, ex0 + exits
        if s1 is None:
            s2.pc = and_(p2, s2.pc)
            return s2, ex0 + exits
        if s2 is None:
            s1.pc = and_(p1, s1.pc)
            return s1, ex0 + exits
        m = self.merge(c, s1, s2, st.heap)
        m.pc = pc0 if (s1.pc is TRUE and s2.pc is TRUE) else and_(pc0, ite(c, s1.pc, s2.pc))
        return m, ex0 + exits

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, app("enter", self.deref(v, st)) if v.k != "ref" else v, st)
        st, ex = self.settle(st)
        if st is None:
            return None, ex
        r, ex2 = self.block(s.body, st)
        return r, ex + ex2

    def s_Try(self, s, st):
        pre = st.copy()
        log, self.extlog = self.extlog, []
        nev = len(self.events)
        body, exits = self.block(s.body, st)
        ext = self.extlog
        self.extlog = log
        if log is not None:
            log += ext
        out = []
        conts = []  # (pc, state)
        raises = []
        for e in exits:
            if e.kind == "raise":
                raises.append(e)
            else:
                out.append(e)
        # explicit raises: first matching handler
        hstates = {}
        for e in raises:
            h = self.match_handler(s.handlers, e)
            if h is None:
                out.append(e)
            else:
                hstates.setdefault(h, []).append((e.pc, e.st))
        # exceptions thrown by external calls of the body
        imp = {}
        if ext:
            for i, h in enumerate(s.handlers):
                names = self.handler_names(h)
                if names and all(x in FILE_ERRORS for x in names):
                    imp[i] = FALSE  # a file cannot be opened
                    for t in dict.fromkeys(ext):
                        if t.a[0] in FILE_CALLS:
                            imp[i] = or_(imp[i], mk("truth", app("exc?", const("OSError"), t)))
                elif names and any(self.match_handler([h], e) is not None for e in raises) \
                        and not {"Exception", "BaseException"} & set(names):
                    imp[i] = FALSE  # the handler serves the errors raised in the block
                else:
                    imp[i] = mk("truth", app("exc?", const(",".join(sorted(names)) or "*"),
                                             mk("tup", *sorted(set(ext), key=lambda t: t.uid))))
        thrown = FALSE
        conts = []
        for i, h in enumerate(s.handlers):
            entries = list(hstates.get(i, []))
            cond = None
            if i in imp and imp[i] is not FALSE:
                entries.append((and_(pre.pc, imp[i]), pre))
                thrown = or_(thrown, imp[i])
            if not entries:
                continue
            hs = entries[-1][1].copy()
            for pc, e in reversed(entries[:-1]):
                hs = self.merge(pc, e, hs, pre.heap)
            hpc = FALSE
            for pc, _e in entries:
                hpc = or_(hpc, pc)
            hs.pc = TRUE
            if h.name:
                hs.vars[h.name] = app("exception", const(",".join(self.handler_names(h))))
            ev0, self.events = self.events, []
            r, ex = self.block(h.body, hs)
            ev1 = self.events
            self.events = ev0 + [(and_(hpc, p), t) for p, t in ev1]
            for e in ex:
                e.pc = and_(hpc, e.pc)
                out.append(e)
            if r is not None:
                conts.append((and_(hpc, r.pc), r))
        if body is not None:
            body.pc = and_(body.pc, not_(thrown)) if thrown is not FALSE else body.pc
            if s.orelse:
                body, ex = self.block(s.orelse, body)
                out += ex
        # explicit-raise paths are already excluded from body.pc
        if body is not None:
            res = body
            rpc = body.pc
            for pc, r in conts:
                m = self.merge(pc, r, res, pre.heap)
                rpc = or_(rpc, pc)
                res = m
            res.pc = simplify_pc(rpc)
        elif conts:
            res = conts[-1][1]
            rpc = conts[-1][0]
            for pc, r in conts[:-1]:
                res = self.merge(pc, r, res, pre.heap)
                rpc = or_(rpc, pc)
            res.pc = simplify_pc(rpc)
        else:
            res = None
        # implicit exceptions guard the exits of the body as well
        if s.finalbody:
            if res is not None:
                res, ex = self.block(s.finalbody, res)
                out += ex
        return res, out

    def handler_names(self, h):
        if h.type is None:
            return []
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?") for t in ts]

    def match_handler(self, handlers, e):
        name = cval(e.val) if is_str(e.val) else None
        for i, h in enumerate(handlers):
            names = self.handler_names(h)
            if not names or name in names or "Exception" in names or "BaseException" in names:
                return i
            if name in ("FileNotFoundError", "NotADirectoryError", "PermissionError") and "OSError" in names:
                return i
        return None

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        st, ex0 = self.settle(st)
        if st is None:
            return None, ex0
        items = self.known_items(it, st)
        if items is None and it.k == "app" and it.a[0] == "itertools.product" and isinstance(s.target, ast.Tuple) \
                and len(s.target.elts) == len(it.a[1]) and not s.orelse \
                and not any(isinstance(x, ast.Break) for b in s.body for x in walk_own(b)):
            body = s.body
            for k in range(len(it.a[1]) - 1, -1, -1):
                self.uid += 1
                st.vars[f"$range{self.uid}"] = it.a[1][k]
                body = [ast.copy_location(ast.For(target=s.target.elts[k], orelse=[], body=body, iter=ast.copy_location(
                    ast.Name(id=f"$range{self.uid}", ctx=ast.Load()), s)), s)]
            r, ex = self.s_For(body[0], st)
            return r, ex0 + ex
        v = self.deref_shallow(it, st)
        if v.k == "ite" and len(leaves_of(v)) <= 16 and all(x.k in ("tup", "ref", "dct") for x in leaves_of(v)):
            self.uid += 1
            n = [f"${x}{self.uid}" for x in ("if", "then", "else")]
            st.vars.update(zip(n, v.a))
            name = lambda k: ast.copy_location(ast.Name(id=n[k], ctx=ast.Load()), s)
            loop = lambda k: ast.copy_location(ast.For(target=s.target, iter=name(k), body=s.body, orelse=s.orelse), s)
            r, ex = self.stmt(ast.copy_location(ast.If(test=name(0), body=[loop(1)], orelse=[loop(2)]), s), st)
            return r, ex0 + ex
        jumps = any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in s.body for x in ast.walk(b))
        if items is not None and len(items) <= (8 if jumps and it.k == "app" and it.a[0] == "range" else 80):
            r, ex = self.unroll(s, items, st, self.bodies(s))
            return r, ex0 + ex
        r, ex = self.sym_loop(s, st, it)
        return r, ex0 + ex

    def s_While(self, s, st):
        return self.sym_loop(s, st, None)

    def known_items(self, it, st):
        """Elements of an iterable with a known structure, else None."""
        v = self.deref_shallow(it, st)
        if v.k == "tup":
            return list(v.a)
        if v.k == "dct":
            return [k for k, _ in v.a]
        if v.k == "c" and isinstance(v.a[0].v, str):
            return [const(ch) for ch in v.a[0].v]
        if v.k == "app" and v.a[0] == "range":
            lo, hi, step = (as_number(x) for x in v.a[1])
            if None not in (lo, hi, step) and abs(hi - lo) <= 80 and step != 0:
                return [num(i) for i in range(int(lo), int(hi), int(step))]
            return None
        if v.k == "app" and v.a[0] == "enumerate":
            sub_ = self.known_items(v.a[1][0], st)
            if sub_ is None:
                return None
            s0 = as_number(v.a[1][1])
            if s0 is None:
                return None
            return [mk("tup", num(i + s0), x) for i, x in enumerate(sub_)]
        if v.k == "app" and v.a[0] == "zip":
            subs = [self.known_items(x, st) for x in v.a[1]]
            if any(x is None for x in subs):
                return None
            return [mk("tup", *xs) for xs in zip(*subs)]
        if v.k == "app" and v.a[0] in ("reversed",):
            sub_ = self.known_items(v.a[1][0], st)
            return None if sub_ is None else sub_[::-1]
        if v.k == "app" and v.a[0] == "itertools.product" and all(x.k != "dct" for x in v.a[1]):
            subs = [self.known_items(x, st) for x in v.a[1]]
            if any(x is None for x in subs):
                return None
            import itertools
            return [mk("tup", *xs) for xs in itertools.product(*subs)]
        return None

    def deref_shallow(self, v, st):
        o = self.obj(st, v)
        if o is not None and o.kind in ("list", "arr", "dict", "set"):
            return o.f["v"]
        return v

    def bodies(self, s):
        """The passes of a loop over named arrays that it writes to, each with its array by name."""
        if not (self.functional and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Tuple, ast.List))
                and all(isinstance(x, ast.Name) for x in s.iter.elts)):
            return None
        names = {x.id for x in s.iter.elts} | {s.target.id}
        inner = [x for b in s.body for x in ast.walk(b)]
        if any(isinstance(x, ast.Name) and x.id in names and not isinstance(x.ctx, ast.Load) for x in inner):
            return None
        if not any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)
                   and x.value.id == s.target.id for x in inner):
            return None
        out = []
        for e in s.iter.elts:
            body = copy.deepcopy(s.body)
            for x in (x for b in body for x in ast.walk(b)):
                if isinstance(x, ast.Name) and x.id == s.target.id:
                    x.id = e.id
            out.append(body)
        return out

    def unroll(self, s, items, st, bodies=None):
        exits = []
        brk = []  # (pc, state)
        cur = st
        for j, x in enumerate(items):
            if cur is None:
                break
            self.assign(s.target, x, cur)
            nxt, ex = self.block(bodies[j] if bodies else s.body, cur)
            for e in ex:
                if e.kind == "continue":
                    if nxt is None:
                        nxt = e.st
                        nxt.pc = e.pc
                    else:
                        pc = or_(nxt.pc, e.pc)
                        nxt = self.merge(e.pc, e.st, nxt, st.heap)
                        nxt.pc = simplify_pc(pc)
                elif e.kind == "break":
                    brk.append(e)
                else:
                    exits.append(e)
            cur = nxt
        if cur is not None and s.orelse:
            cur, ex = self.block(s.orelse, cur)
            exits += ex
        for e in reversed(brk):
            if cur is None:
                cur = e.st
                cur.pc = e.pc
            else:
                pc = or_(cur.pc, e.pc)
                cur = self.merge(e.pc, e.st, cur, st.heap)
                cur.pc = simplify_pc(pc)
        return cur, exits

    def assigned(self, node):
        out = []
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                if x.id not in out:
                    out.append(x.id)
            elif self.functional and isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) \
                    and isinstance(x.value, ast.Name) and x.value.id not in out:
                out.append(x.value.id)
        return out

    def sym_loop(self, s, st, it):
        if s.orelse:
            raise Unsupported(f"loop else at line {s.lineno}")
        self.uid += 1
        uid = self.uid
        iv = mk("bv", f"iv#{uid}")
        isfor = it is not None
        n = target = None
        if isfor:
            n, elem = self.iteration(it, iv, st)
        names = []
        for b in s.body:
            for x in self.assigned(b):
                if x not in names:
                    names.append(x)
        tnames = self.assigned(s.target) if isfor else []
        names = [x for x in names if x not in tnames or True]
        drop = set()
        H = []
        hdrop = set()
        has_ret = any(isinstance(x, ast.Return) for b in s.body for x in walk_own(b))
        has_break = has_ret or any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b))
        apart = set()
        n0 = dict(self.counts)
        self.ivs.append(iv)
        for attempt in range(24):
            cur = st.copy(TRUE)
            self.counts = dict(n0)
            mus = {}
            # variables that enter with the same value are taken to move in lockstep until shown otherwise
            reps, leader = {}, {}

            def fresh_mu(key, v0):
                if v0 is not None:
                    self.starts[mk("mu", uid, key)] = v0
                if v0 is None or v0.k in ("unk", "c", "tup", "dct", "ref", "arr") or key in apart or key.startswith("m:"):
                    mus[key] = mk("mu", uid, key)
                elif v0 in reps:
                    leader[key] = reps[v0]
                    mus[key] = mus[reps[v0]]
                else:
                    reps[v0] = key
                    mus[key] = mk("mu", uid, key)
                return mus[key]

            for x in names:
                if x in drop or x in tnames:
                    continue
                v0 = st.vars.get(x)
                cur.vars[x] = fresh_mu(x, self.deref(v0, st) if v0 is not None else None)
            for r, f in H:
                key = self.hname(st, r, f)
                cur.heap[r] = cur.heap[r].put(f, fresh_mu(key, self.deref(st.heap[r].f.get(f, NOT_CALLED if st.heap[r].kind == "ghost" else unk("undef")), st)))
            if has_break:
                mus["$brk"] = mk("mu", uid, "$brk")
            if has_ret:
                mus["$ret"] = mk("mu", uid, "$ret")
                mus["$val"] = mk("mu", uid, "$val")
            mus["$raise"] = mk("mu", uid, "$raise")
            ev0, pend0 = self.events, self.pending
            self.events, self.pending = [], []
            cexits = []
            cond = TRUE
            if isfor:
                self.assign(s.target, elem, cur)
            else:
                cond = truth(self.cond(s.test, cur))
                if has_break:
                    cond = and_(cond, not_(mus["$brk"]))
                cur, cexits = self.settle(cur)
                if cur is None:
                    raise Unsupported("loop condition raises")
            start = cur.copy()
            end, ex = self.block(s.body, cur)
            ex = cexits + ex
            ev1, self.events, self.pending = self.events, ev0, pend0
            outs = []
            brk = FALSE
            ret, retv = FALSE, mus.get("$val")
            for e in ex:
                if e.kind == "ret":
                    ret = or_(ret, e.pc)
                    retv = ite(e.pc, self.deref(e.val, e.st), retv)
                    e.kind = "break"
                    for x in names:  # locals are dead once the function returns
                        if x in mus:
                            e.st.vars[x] = mus[x]
                if e.kind == "continue":
                    if end is None:
                        end = e.st
                        end.pc = e.pc
                    else:
                        pc = or_(end.pc, e.pc)
                        end = self.merge(e.pc, e.st, end, st.heap)
                        end.pc = simplify_pc(pc)
                elif e.kind == "break":
                    brk = or_(brk, e.pc)
                    if end is None:
                        end = e.st
                        end.pc = e.pc
                    else:
                        pc = or_(end.pc, e.pc)
                        end = self.merge(e.pc, e.st, end, st.heap)
                        end.pc = simplify_pc(pc)
                else:
                    outs.append(e)
            if end is None:
                end = start.copy(FALSE)
            newH = []
            for r, o in end.heap.items():
                if r not in st.heap:
                    continue
                o0 = start.heap.get(r)
                if o0 is o:
                    continue
                for f, v in o.f.items():
                    if o0 is None or o0.f.get(f) is not v:
                        if (r, f) not in H and (r, f) not in hdrop:
                            newH.append((r, f))
            if newH:
                H += newH
                continue
            def after(key):
                if key in end.vars and key in names:
                    return self.deref(end.vars[key], end)
                for r, f in H:
                    if self.hname(st, r, f) == key:
                        return self.deref(end.heap[r].f[f], end)

            wrong = [k for k in leader if after(k) is not after(leader[k])]
            if wrong:
                apart |= set(wrong)
                continue
            # drop definitions that turn out to be invariant
            inv = [x for x in names if x in mus and x not in drop and x in st.vars and
                   (end.vars.get(x) is mus[x] or end.vars.get(x) is st.vars[x])]
            hinv = [(r, f) for r, f in H if end.heap[r].f[f] is mus[self.hname(st, r, f)]]
            if attempt < 18 and (inv or hinv):
                drop |= set(inv)
                for x in hinv:
                    H.remove(x)
                    hdrop.add(x)
                continue
            break
        else:
            raise Unsupported(f"loop state does not stabilise at line {s.lineno}")
        self.ivs.pop()
        # -------- build the loop-carried definitions
        init, nxt = {}, {}
        for x in names:
            if x in drop or x in tnames:
                continue
            init[x] = self.deref(st.vars.get(x, unk("undef:" + x)), st)
            nxt[x] = self.deref(end.vars.get(x, unk("undef:" + x)), end)
        for r, f in H:
            key = self.hname(st, r, f)
            init[key] = self.deref(st.heap[r].f.get(f, NOT_CALLED if st.heap[r].kind == "ghost" else unk("undef")), st)
            nxt[key] = self.deref(end.heap[r].f[f], end)
        for k in leader:
            init.pop(k, None)
            nxt.pop(k, None)
        if has_break:
            init["$brk"] = FALSE
            nxt["$brk"] = brk
            if brk is FALSE:
                has_break = False
        if has_ret and ret is FALSE:
            has_ret = False
        if has_ret:
            init["$ret"], nxt["$ret"] = FALSE, or_(mus["$ret"], ret)
            init["$val"], nxt["$val"] = NONE, retv
        outs = [e for e in outs if e.pc is not FALSE]
        if outs:
            c = FALSE
            for e in outs:
                c = or_(c, e.pc)
            init["$raise"], nxt["$raise"] = FALSE, or_(mus["$raise"], c)
        lens = {}
        for r, f in H:
            if f.startswith("m:") and st.heap[r].kind == "nodes":
                lens[self.hname(st, r, f)] = st.heap[r].f["len"] if (r, "len") not in H else None
        kind = "for" if isfor else "while"
        res = make_loop(kind, uid, iv, n, cond, init, nxt, lens, ev1 if True else None)
        for k, q in leader.items():
            res["vals"][k] = res["vals"][q]
        if isfor:
            end_i = sub(n, num(1))
            for k, v in nxt.items():
                if v.k == "app" and v.a[0] == "upd" and v.a[1][1] is iv and k in res["vals"]:
                    for q, w in nxt.items():
                        if w is v.a[1][2] and q in res["vals"]:
                            self.lasts[(res["vals"][k], end_i)] = res["vals"][q]
                            break
        out = st.copy()
        if isfor and not any(x in drop or x in names for x in tnames):
            for x in tnames:
                v = self.deref(start.vars.get(x, unk("unbound")), start)
                if not contains(v, lambda y: y.k in ("mu", "ref")):
                    old = st.vars.get(x)
                    v = subst(v, {iv: sub(n, num(1))})
                    out.vars[x] = v if old is None else ite(less(num(0), n, True), v, old)
        for x in names:
            if x in res["vals"]:
                v0 = st.vars.get(x)
                o = self.obj(st, v0) if v0 is not None else None
                out.vars[x] = res["vals"][x]
        for r, f in H:
            out.heap[r] = out.heap[r].put(f, res["vals"][self.hname(st, r, f)])
        self.events += [(and_(st.pc, p), t) for p, t in res.get("once", ())]
        if res["events"]:
            self.events.append((st.pc, mk("loopev", res["loop"], *[mk("tup", p, t) for p, t in res["events"]])))
        exits = []
        if outs:
            c = truth(res["vals"]["$raise"])
            exits.append(Exit("raise", and_(st.pc, c), outs[0].val, st.copy()))
            out.pc = and_(out.pc, not_(c))
        if has_ret:
            c = truth(res["vals"]["$ret"])
            exits.append(Exit("ret", and_(out.pc, c), res["vals"]["$val"], out.copy()))
            out.pc = and_(out.pc, not_(c))
        return out, exits

    def hname(self, st, r, f):
        o = st.heap[r]
        if o.kind == "nodes":
            return f
        return f"o{r}.{f}"

    def iteration(self, it, iv, st):
        """(trip count, element at iv) of a symbolic iterable."""
        v = self.deref_shallow(it, st)
        ob = self.obj(st, v)
        if ob is not None and ob.kind == "nodes":
            return ob.f["len"], mk("node", v, iv)
        if v.k == "app" and v.a[0] == "range":
            lo, hi, step = v.a[1]
            k = as_number(step)
            if k == 1:
                return sub(hi, lo), add(lo, iv)
            if k == -1:
                return sub(lo, hi), sub(lo, iv)
            return trips(lo, hi, step), add(lo, mul(step, iv))
        if v.k == "arr":
            return v.a[0], arr_at(v, iv)
        if v.k == "app" and v.a[0] == "enumerate":
            n, e = self.iteration(v.a[1][0], iv, st)
            return n, mk("tup", add(v.a[1][1], iv), e)
        if v.k == "app" and v.a[0] == "zip":
            parts = [self.iteration(x, iv, st) for x in v.a[1]]
            return parts[0][0], mk("tup", *[e for _, e in parts])
        if v.k == "app" and v.a[0] == "reversed":
            n, _ = self.iteration(v.a[1][0], iv, st)
            _, e = self.iteration(v.a[1][0], sub(sub(n, num(1)), iv), st)
            return n, e
        d = self.deref(v, st)
        if d.k == "app" and d.a[0] in ("m:keys", "m:values", "m:items") and len(d.a[1]) == 1 and is_table(d.a[1][0]):
            t = d.a[1][0]
            k = app("elem", t, iv)
            x = app("idx", t, k)
            return self.length(t, st), {"m:keys": k, "m:values": x}.get(d.a[0]) or mk("tup", k, x)
        if d.k == "app" and d.a[0] == "." and d.a[1][0] in self.series_of:
            return self.length(d, st), self.item(d, iv, st)
        if self.functional and d.k == "ite":
            (n1, e1), (n2, e2) = self.iteration(d.a[1], iv, st), self.iteration(d.a[2], iv, st)
            return ite(d.a[0], n1, n2), ite(d.a[0], e1, e2)
        if self.functional and (is_field(d) or d.k == "app" and d.a[0] == "." and d.a[1][1] is const("index")):
            return self.length(d, st), self.item(d, iv, st)
        if d.k == "sym" and d.a[0].startswith("p:") and not self.functional:
            return self.length(d, st), self.item(d, iv, st)
        if numeric_array(d):
            return self.length(d, st), self.item(d, iv, st)
        return self.length(d, st), app("elem", d, iv)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.vars[t.id] = v
            if self.ghost_ref is not None and t.id in declared_global(self.stack[-1].node):
                self.put(st, self.ghost_ref, f"set global {self.global_names.get(t.id, t.id)}", self.snap(v, st))
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, t.elts, st)
            for x, p in zip(t.elts, parts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, p, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            if isinstance(t.value, ast.Name) and t.value.id in st.vars and o.k in ("app", "mu", "sym", "out") and self.series_of:
                st.vars[t.value.id] = self.store_item(o, self.deref(i, st), self.deref(v, st), st)
                return
            if self.functional and may_be_value(o) and isinstance(t.value, (ast.Name, ast.Attribute)):
                self.rebind(t.value, self.updated_value(o, self.deref(i, st), v, self.set_item, st), st)
                return
            self.set_item(o, i, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            if self.functional and may_be_value(o) and isinstance(t.value, (ast.Name, ast.Attribute)):
                self.rebind(t.value, self.updated_value(
                    o, const(t.attr), v, lambda x, i, v, s: self.set_attr(x, cval(i), v, s), st), st)
                return
            self.set_attr(o, t.attr, v, st)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def rebind(self, target, v, st):
        import copy
        tgt = copy.copy(target)
        tgt.ctx = ast.Store()
        self.assign(tgt, v, st)

    def updated_value(self, o, i, v, write, st):
        """A library value with one item replaced; a named object is written to instead."""
        if (is_mask(i) or is_bool(i)) and is_elementwise(o):
            w = self.snap(v, st)
            if w.k in ("c", "sym", "n", "S", "app", "ite", "idx") or as_number(w) is not None:
                return ite(i, selected(w, i), o)  # element by element
        if is_value(o):
            w = self.snap(v, st)
            return app("upd", o, i, w) if is_str(i) else self.store_item(o, i, w, st)
        if o.k == "ite":
            return self.on_ite(o, st, lambda x, s: self.updated_value(x, i, v, write, s))
        write(o, i, v, st)
        return o

    def unpack(self, v, elts, st):
        n = len(elts)
        d = self.deref_shallow(v, st)
        if d.k == "ite" and d.a[1].k in ("tup", "ite") and d.a[2].k in ("tup", "ite"):
            a, b = self.unpack(d.a[1], elts, st), self.unpack(d.a[2], elts, st)
            return [ite(d.a[0], x, y) for x, y in zip(a, b)]
        if d.k == "tup":
            star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(d.a) - (n - 1)
                return list(d.a[:i]) + [mk("tup", *d.a[i:i + k])] + list(d.a[i + k:])
            if len(d.a) != n:
                self.notes.append("unpack arity mismatch")
                return [unk("unpack arity")] * n
            return list(d.a)
        return [self.get_item(v, num(i), st) for i in range(n)]

    def set_attr(self, o, name, v, st):
        o = item_of(o)
        if o.k == "ite":
            self.on_ite(o, st, lambda x, s: self.set_attr(x, name, v, s))
            return
        ob = self.obj(st, o)
        if ob is not None and ob.kind == "inst":
            setter = None
            if ob.cls is not None:
                setter = ob.cls.setters.get(name)
            if setter is not None:
                self.call_func(setter, [o, v], {}, st)
                return
            self.put(st, o, name, v)
            return
        if o.k == "node":
            nodes, idx = o.a
            self.set_node(nodes, idx, name, v, st)
            return
        if ob is not None and ob.kind == "arr":
            return
        self.event(st, app("setattr", self.deref(o, st), const(name), self.deref(v, st)))

    def set_node(self, nodes, idx, name, v, st):
        key = "m:" + name
        no = st.heap[nodes.a[0]]
        mem = no.f.get(key)
        if mem is None:
            mem = sym("mem:" + name)
        self.put(st, nodes, key, store(mem, idx, self.deref(v, st)))

    def counted(self, other):
        """Continue the numbering of calls after two alternative paths."""
        for k, x in other.items():
            self.counts[k] = max(x, self.counts.get(k, 0))

    def on_ite(self, o, st, f):
        """Apply an effect to either alternative of a conditional object."""
        c, a, b = o.a
        s1, s2 = st.copy(), st.copy()
        n0 = dict(self.counts)
        r1 = f(a, s1)
        n1, self.counts = self.counts, n0
        r2 = f(b, s2)
        self.counted(n1)
        m = self.merge(c, s1, s2, st.heap)
        st.heap.clear()
        st.heap.update(m.heap)
        if r1 is not None and r2 is not None:
            return ite(c, r1, r2)

    def set_item(self, o, i, v, st):
        o = item_of(o)
        if o.k == "ite" and any(x.k == "ref" for x in (o.a[1], o.a[2])):
            self.on_ite(o, st, lambda x, s: self.set_item(x, i, v, s))
            return
        ob = self.obj(st, o)
        i = self.deref(i, st)
        if ob is not None and ob.kind in ("list", "arr", "dict"):
            cur = ob.f["v"]
            if ob.kind == "dict" and all(x.k == "dct" for x in leaves_of(cur)):
                if is_str(i) or as_number(i) is not None:
                    def entry(c):
                        ps = [(k, x) for k, x in c.a]
                        for j, (k, _) in enumerate(ps):
                            if k is i:
                                ps[j] = (k, v)
                                break
                        else:
                            ps.append((i, v))
                        return mk("dct", *ps)
                    self.put(st, o, "v", map_leaves(cur, entry))
                else:
                    self.put(st, o, "v", app("setitem", self.deref(cur, st), i, self.deref(v, st)))
                    self.event(st, app("dict-set", i, self.deref(v, st)))
                return
            if cur.k == "tup":
                k = as_number(i)
                if k is not None and -len(cur.a) <= k < len(cur.a):
                    xs = list(cur.a)
                    xs[int(k)] = v
                    self.put(st, o, "v", mk("tup", *xs))
                    return
            self.put(st, o, "v", self.store_item(cur, i, self.deref(v, st), st))
            return
        if ob is not None and ob.kind == "nodes":
            self.notes.append("direct layer replacement")
            for f in list(ob.f):
                if f.startswith("m:"):
                    vo = self.obj(st, v)
                    val = vo.f.get(f[2:]) if vo is not None and vo.kind == "inst" else unk("node value")
                    self.put(st, o, f, store(st.heap[o.a[0]].f[f], i, self.deref(val, st)))
            return
        if o.k != "unk":
            o = self.deref(o, st)
            if (o.k == "app" and o.a[0] == "." and o.a[1][1] in (const("loc"), const("at")) and i.k == "tup" and len(i.a) == 2
                    and is_str(i.a[1])):  # one column of a table
                o, i = app(".", app(".", o.a[1][0], i.a[1]), const("loc")), i.a[0]
            self.event(st, app("setitem", o, i, self.deref(v, st)))

    def store_item(self, cur, i, v, st):
        """Functional array update cur[i] = v."""
        if i.k == "slice" and all(x is NONE for x in i.a) and is_elementwise(v):
            return v
        if (is_mask(i) or is_bool(i)) and is_elementwise(cur) and (
                v.k in ("c", "sym", "n", "S", "app", "ite", "idx") or as_number(v) is not None):
            return ite(i, selected(v, i), cur)  # element by element
        n = self.shape(cur)
        if n:
            i = self.position(cur, i)
        if len(n) == 2 and v.k == "tup" and as_number(n[1]) == len(v.a) > 1 and i.k not in ("tup", "slice", "arr") and not is_mask(i):
            for k, x in enumerate(v.a):  # a row
                cur = self.store_item(cur, mk("tup", i, num(k)), x, st)
            return cur
        if cur.k == "arr":
            n = cur.a[0]
            j = fresh("w")
            if i.k == "slice":
                lo, hi = self.slice_bounds(i, n)
                if lo is not None:
                    val = arr_at(v, sub(j, lo)) if v.k == "arr" else v
                    c = and_(less(lo, j, False), less(j, hi, True)) if hi is not n else less(lo, j, False)
                    if as_number(lo) == 0 and hi is n:
                        return v if v.k == "arr" else arr(n, j, v)
                    if as_number(lo) == 0:
                        c = less(j, hi, True)
                    return arr(n, j, ite(c, val, arr_at(cur, j)))
            elif i.k == "arr":
                # index vector lo, lo+1, ...
                lo = arr_at(i, num(0))
                k = fresh("k")
                if as_number(sub(arr_at(i, k), add(lo, k))) == 0:
                    hi = add(lo, i.a[0])
                    val = arr_at(v, sub(j, lo)) if v.k == "arr" else v
                    c = and_(less(lo, j, False), less(j, hi, True))
                    return arr(n, j, ite(c, val, arr_at(cur, j)))
            elif i.k not in ("tup", "c"):
                return arr(n, j, ite(eq(j, i), v, arr_at(cur, j)))
        if i.k == "arr":
            lo = arr_at(i, num(0))
            k = fresh("k")
            if as_number(sub(arr_at(i, k), add(lo, k))) == 0:
                i = mk("slice", lo, add(lo, i.a[0]), NONE)
        return updated(cur, i, v)

    def slice_bounds(self, s, n):
        lo, hi, step = s.a
        if step is not NONE and as_number(step) != 1:
            return None, None

        def fix(x, dflt):
            if x is NONE:
                return dflt
            k = as_number(x)
            if k is not None and k < 0:
                return add(n, x)
            return x
        return fix(lo, num(0)), fix(hi, n)

    def del_item(self, o, i, st):
        ob = self.obj(st, o)
        if ob is not None and ob.kind == "nodes":
            self.nodes_del(o, i, st)
        elif ob is not None and ob.kind == "list" and ob.f["v"].k == "tup" and as_number(i) is not None:
            xs = list(ob.f["v"].a)
            try:
                del xs[int(as_number(i))]
            except IndexError:
                return
            self.put(st, o, "v", mk("tup", *xs))
        elif ob is not None and ob.kind == "dict" and ob.f["v"].k == "dct":
            self.put(st, o, "v", mk("dct", *[(k, x) for k, x in ob.f["v"].a if k is not i]))
        else:
            self.event(st, app("delitem", self.deref(o, st), self.deref(i, st)))

    # ------------------------------------------------------------ layer lists
    def nodes_del(self, o, i, st):
        ob = st.heap[o.a[0]]
        n = ob.f["len"]
        k = as_number(i)
        if k is not None and k < 0:
            i = add(n, i)
        f = dict(ob.f)
        for key in f:
            if key.startswith("m:"):
                f[key] = del_mem(f[key], i)
        f["len"] = sub(n, num(1))
        st.heap[o.a[0]] = Obj("nodes", ob.cls, f)

    def nodes_ins(self, o, i, node, st):
        ob = st.heap[o.a[0]]
        f = dict(ob.f)
        vo = self.obj(st, node)
        for key in f:
            if key.startswith("m:"):
                a = key[2:]
                if vo is not None and vo.kind == "inst":
                    v = self.deref(vo.f.get(a, unk("field " + a)), st)
                elif node.k == "node":
                    v = read(st.heap[node.a[0].a[0]].f[key], node.a[1])
                else:
                    v = app(".", self.deref(node, st), const(a))
                f[key] = ins_mem(f[key], i, v)
        f["len"] = add(f["len"], num(1))
        st.heap[o.a[0]] = Obj("nodes", ob.cls, f)

    # ------------------------------------------------------------ events
    def event(self, st, t):
        self.events.append((st.pc, t))
        if self.ghost_ref is not None and t.a[0] in self.recorded:
            key = event_key(t)
            if key.startswith("write ") and not key.endswith("]"):
                self.put(st, self.ghost_ref, key, self.snap(t.a[1][2], st))  # the last write to a named item counts
                if t.a[0] == "setitem" and is_table(t.a[1][0]):
                    self.places[key] = self.subscript(*t.a[1][:2], st)
                return
            n = self.counts.get(key, 0)
            self.counts[key] = n + 1
            self.put(st, self.ghost_ref, f"{key}#{n}",
                     made(t) if t.a[0] == "os.makedirs" else mk("tup", *t.a[1][1:]) if key.startswith("write") else mk("tup", *t.a[1]))
            for w in self.watch if t.a[0] in self.watched else ():
                self.put(st, self.ghost_ref, f"{w} before {key}#{n}", st.heap[self.ghost_ref.a[0]].f.get(w, NOT_CALLED))
        if self.extlog is not None:
            self.extlog.append(t)

    # ------------------------------------------------------------ calls
    def bind(self, fn, args, kwargs, st):
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for p in pos:
            if args:
                out[p] = args.pop(0)
        if args:
            if a.vararg is None:
                raise CallMismatch(f"too many arguments for {fn.qual}")
            out[a.vararg.arg] = mk("tup", *args)
        elif a.vararg is not None:
            out[a.vararg.arg] = mk("tup")
        extra = []
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in out:
                    raise CallMismatch(f"duplicate argument {k} for {fn.qual}")
                out[k] = v
            elif a.kwarg is not None:
                extra.append((const(k), v))
            else:
                raise CallMismatch(f"unexpected argument {k} for {fn.qual}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new(st, "dict", v=mk("dct", *extra))
        dm = State({}, {}, TRUE)
        if fn.closure is not None:
            dm.vars = fn.closure
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for p, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[p] = d
        for p in pos + kwonly:
            if p not in out:
                if p not in defaults:
                    raise CallMismatch(f"missing argument {p} for {fn.qual}")
                self.stack.append(fn)
                out[p] = self.ev(defaults[p], dm)
                self.stack.pop()
        order = {p: i for i, p in enumerate(pos + kwonly)}
        return dict(sorted(out.items(), key=lambda kv: order.get(kv[0], 99)))

    def call_func(self, fn, args, kwargs, st, force=False):
        if not force and fn.qual in self.stubs:
            try:
                b = self.bind(fn, args, kwargs, st)
            except CallMismatch as e:
                self.pending.append((TRUE, "TypeError", const("TypeError")))
                return unk(str(e))
            return self.stubs[fn.qual](self, st, fn, b)
        if len(self.stack) > MAXDEPTH or sum(1 for f in self.stack if f is fn) >= 2:
            return unk(f"recursion {fn.qual}")
        try:
            b = self.bind(fn, args, kwargs, st)
        except CallMismatch as e:
            self.notes.append(str(e))
            self.pending.append((TRUE, "TypeError", const("TypeError")))
            return unk(str(e))
        self.functions.add(fn.qual)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(fn.node)):
            return app("gen:" + fn.qual, *[self.deref(x, st) for x in b.values()])
        frame = State(b, dict(st.heap), TRUE)
        self.stack.append(fn)
        ev0, pend0 = self.events, self.pending
        self.events, self.pending = [], []
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, frame)
                fr, exits = self.settle(frame)
                if fr is not None:
                    exits.append(Exit("ret", fr.pc, v, fr))
            else:
                end, exits = self.block(fn.node.body, frame)
                if end is not None:
                    exits.append(Exit("ret", end.pc, NONE, end))
        finally:
            self.stack.pop()
            ev1, self.events = self.events, ev0
            self.pending = pend0
        self.events += [(and_(st.pc, p), t) for p, t in ev1]
        for e in exits:
            if e.kind == "raise":
                self.pending.append((e.pc, None, e.val))
        rets = [e for e in exits if e.kind == "ret" and e.pc is not FALSE]
        if not rets:
            return unk(f"{fn.qual} never returns")
        acc = rets[-1].st
        acc.vars = {"$ret": rets[-1].val}
        for e in reversed(rets[:-1]):
            e.st.vars = {"$ret": e.val}
            acc = self.merge(e.pc, e.st, acc, st.heap)
        st.heap.clear()
        st.heap.update(acc.heap)
        return acc.vars["$ret"]

    def instantiate(self, cls, args, kwargs, st):
        stub = self.stubs.get(f"{cls.module.name}.{cls.name}")
        if stub is not None:
            return stub(self, st, cls, (args, kwargs))
        if any(isinstance(b, ast.Name) and b.id in EXC for b in cls.node.bases):
            return app("new:" + cls.name)
        ref = self.new(st, "inst", cls)
        init = self.repo.find_method(cls, "__init__")
        if init is not None:
            self.call_func(init, [ref] + list(args), kwargs, st)
        return ref

    # ------------------------------------------------------------ names
    def modref(self, dotted):
        if self.repo.module(dotted) is not None:
            return mk("mod", dotted)
        return mk("ext", dotted)

    def from_import(self, base, name):
        m = self.repo.module(base)
        if m is not None:
            if name in m.globals:
                return self.glob(m, name)
            if self.repo.module(base + "." + name) is not None:
                return mk("mod", base + "." + name)
            return mk("ext", base + "." + name)
        if base == "numpy" or base.startswith("numpy."):
            return mk("ext", base + "." + name)
        return mk("ext", base + "." + name)

    def glob(self, m, name):
        key = (m.name, name)
        if key in self.globcache:
            return self.globcache[key]
        g = m.globals.get(name)
        if g is None:
            return None
        self.globcache[key] = unk("cyclic global " + name)
        kind, p = g
        if kind == "fn":
            v = mk("fn", p)
        elif kind == "cls":
            v = mk("cls", p)
        elif kind == "import":
            v = self.modref(p)
        elif kind == "from":
            v = self.from_import(*p)
        else:
            st = State()
            dummy = Func(ast.parse("def _m(): pass").body[0], m, m.name + ".<module>")
            self.stack.append(dummy)
            ev0, pend0 = self.events, self.pending
            self.events, self.pending = [], []
            try:
                v = self.ev(p, st)
                v = self.freeze(v, st)
            except Unsupported as e:
                v = unk(f"global {name}: {e}")
            finally:
                self.stack.pop()
                self.events, self.pending = ev0, pend0
        self.globcache[key] = v
        return v

    def freeze(self, v, st):
        """Module-level containers are treated as immutable values."""
        return self.deref(v, st)

    def name(self, n, st):
        if n in st.vars:
            v = st.vars[n]
            if v.k == "ite":
                c = unassigned(v, n)
                if c is not FALSE:
                    self.pending.append((c, "UnboundLocalError", const("UnboundLocalError")))
            return v
        fn = self.stack[-1]
        c = fn.closure
        if c is not None and n in c:
            return c[n]
        v = self.glob(fn.module, n)
        if v is not None:
            return v
        if n in self.intrinsics:
            return mk("intr", n)
        if n in BUILTINS:
            return mk("ext", n)
        if n in EXC:
            return mk("ext", n)
        if n in ("__name__", "__file__"):
            return sym(n)
        if not hasattr(builtins, n) and n != "__class__" and (
                n in locals_of(fn.node) or n not in names_of(fn.module.tree)):
            self.pending.append((TRUE, "NameError", const("NameError")))
        return unk("unbound name " + n)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {e.lineno}")
        try:
            return m(e, st)
        except TooBig:
            return unk("polynomial too large")

    def cond(self, e, st):
        v = self.ev(e, st)
        ob = self.obj(st, v)
        if ob is not None:
            if ob.kind == "nodes":
                return less(num(0), ob.f["len"], True)
            if ob.kind in ("list", "dict", "arr", "set"):
                return self.length_truth(ob.f["v"], st)
            return TRUE
        if v.k == "ite":
            return self.truthv(v, st)
        return truth(v)

    def truthv(self, v, st):
        if v.k == "ite":
            return ite(v.a[0], self.truthv(v.a[1], st), self.truthv(v.a[2], st))
        ob = self.obj(st, v)
        if ob is not None:
            if ob.kind == "nodes":
                return less(num(0), ob.f["len"], True)
            if ob.kind in ("list", "dict", "arr", "set"):
                return self.length_truth(ob.f["v"], st)
            return TRUE
        return truth(v)

    def length_truth(self, c, st):
        if c.k in ("tup", "dct"):
            return TRUE if c.a else FALSE
        if c.k == "app" and c.a[0] in ("append",):
            return TRUE
        if c.k == "ite":
            return ite(c.a[0], self.length_truth(c.a[1], st), self.length_truth(c.a[2], st))
        return less(num(0), self.length(c, st), True)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def e_Tuple(self, e, st):
        return mk("tup", *self.elems(e.elts, st))

    def elems(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.known_items(self.ev(x.value, st), st)
                if items is None:
                    raise Unsupported("starred unknown sequence")
                out += items
            else:
                out.append(self.ev(x, st))
        return out

    def e_List(self, e, st):
        return self.new(st, "list", v=mk("tup", *self.elems(e.elts, st)))

    def e_Set(self, e, st):
        return self.new(st, "set", v=mk("tup", *self.elems(e.elts, st)))

    def e_Dict(self, e, st):
        ps = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                d = self.deref_shallow(vv, st)
                if d.k != "dct":
                    raise Unsupported("dict unpacking of unknown mapping")
                for kk, x in d.a:
                    ps = [(p, q) for p, q in ps if p is not kk] + [(kk, x)]
            else:
                kk = self.deref(self.ev(k, st), st)
                ps = [(p, q) for p, q in ps if p is not kk] + [(kk, vv)]
        return self.new(st, "dict", v=mk("dct", *ps))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.deref(self.ev(v.value, st), st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.e_JoinedStr(v.format_spec, st)
                    if is_str(sp):
                        spec = cval(sp)
                if v.conversion in (114,) or spec:
                    parts.append(app("fmt", x, const(spec), const(v.conversion)))
                else:
                    parts.append(x)
        return self.concat(parts)

    def concat(self, parts):
        out = []
        for p in parts:
            if p.k == "ite" and (is_str(p.a[1]) or is_str(p.a[2])):
                i = parts.index(p)
                return ite(p.a[0], self.concat(parts[:i] + [p.a[1]] + parts[i + 1:]),
                           self.concat(parts[:i] + [p.a[2]] + parts[i + 1:]))
            if p.k == "app" and p.a[0] == "concat":
                q = list(p.a[1])
            elif p.k == "app" and p.a[0] == "str" and len(parts) > 1:
                q = [p.a[1][0]]
            elif p.k == "c" and not isinstance(p.a[0].v, str):
                q = [const(str(p.a[0].v))]
            elif as_number(p) is not None and p.k == "n":
                n = as_number(p)
                q = [const(str(int(n)) if n.denominator == 1 else repr(float(n)))]
            else:
                q = [p]
            for x in q:
                if is_str(x) and out and is_str(out[-1]):
                    out[-1] = const(cval(out[-1]) + cval(x))
                elif is_str(x) and cval(x) == "":
                    continue
                else:
                    out.append(x)
        if not out:
            return const("")
        if len(out) == 1 and is_str(out[0]):
            return out[0]
        if len(out) == 1 and is_text(out[0]):
            return out[0]
        return app("concat", *out)

    def e_FormattedValue(self, e, st):
        v = self.ev(e.value, st)
        spec = self.deref(self.ev(e.format_spec, st), st) if e.format_spec is not None else const("")
        conv = "!" + chr(e.conversion) if e.conversion not in (-1, ord("s")) else ""
        if conv == "" and spec is const(""):
            return v
        return app("fmt", self.deref(v, st), self.concat([const(conv), spec]))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            return self.lift1(neg, v, st)
        if isinstance(e.op, ast.UAdd):
            return v
        if is_bool(v):
            return not_(v)
        return app("invert", self.deref(v, st))

    def lift1(self, f, v, st):
        v = self.deref_shallow(v, st)
        if v.k == "ref":
            v = self.deref(v, st)
        if v.k == "ite" and any(x.k == "ref" or has_shape(x) for x in (v.a[1], v.a[2])):
            return ite(v.a[0], self.lift1(f, v.a[1], st), self.lift1(f, v.a[2], st))
        if v.k == "arr":
            j = fresh("l")
            return arr(v.a[0], j, self.lift1(f, arr_at(v, j), st))
        if v.k == "tup":
            return mk("tup", *[self.lift1(f, x, st) for x in v.a])
        return f(self.numeric(v))

    def numeric(self, v):
        return v

    def lift2(self, f, a, b, st):
        a, b = self.deref_shallow(a, st), self.deref_shallow(b, st)
        if a.k == "ite" and (has_shape(a.a[1]) or has_shape(a.a[2])):
            return ite(a.a[0], self.lift2(f, a.a[1], b, st), self.lift2(f, a.a[2], b, st))
        if b.k == "ite" and (has_shape(b.a[1]) or has_shape(b.a[2])):
            return ite(b.a[0], self.lift2(f, a, b.a[1], st), self.lift2(f, a, b.a[2], st))
        if a.k == "tup" and len(a.a) == 1 and b.k != "tup":
            a = a.a[0]
        if b.k == "tup" and len(b.a) == 1 and a.k != "tup":
            b = b.a[0]
        if a.k == "arr" and b.k == "arr":
            d = as_number(sub(a.a[0], b.a[0]))
            if d != 0:
                na, nb = as_number(a.a[0]), as_number(b.a[0])
                self.notes.append(f"array length mismatch {show(a.a[0])} vs {show(b.a[0])}")
                return unk("array length mismatch")
            j = fresh("l")
            return arr(a.a[0], j, self.lift2(f, arr_at(a, j), arr_at(b, j), st))
        if a.k == "arr":
            j = fresh("l")
            return arr(a.a[0], j, self.lift2(f, arr_at(a, j), b, st))
        if b.k == "arr":
            j = fresh("l")
            return arr(b.a[0], j, self.lift2(f, a, arr_at(b, j), st))
        if a.k == "tup" and b.k == "tup":
            if len(a.a) == len(b.a):
                return mk("tup", *[self.lift2(f, x, y, st) for x, y in zip(a.a, b.a)])
            return unk("tuple op")
        if a.k == "tup":
            return mk("tup", *[self.lift2(f, x, b, st) for x in a.a])
        if b.k == "tup":
            return mk("tup", *[self.lift2(f, a, y, st) for y in b.a])
        return f(a, b)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st)

    def list_of(self, v, st):
        """Content of a list, or of the list that is chosen; None if v may be something else."""
        if v.k == "ite":
            x, y = self.list_of(v.a[1], st), self.list_of(v.a[2], st)
            return None if x is None or y is None else ite(v.a[0], x, y)
        ob = self.obj(st, v)
        return ob.f["v"] if ob is not None and ob.kind == "list" else None

    def binop(self, op, a, b, st):
        a, b = bare(a), bare(b)
        oa, ob = self.obj(st, a), self.obj(st, b)
        # ---- sequences and strings
        if isinstance(op, ast.Add):
            la, lb = self.list_of(a, st), self.list_of(b, st)
            if la is not None and lb is not None:
                if la.k == "tup" and lb.k == "tup":
                    return self.new(st, "list", v=mk("tup", *(la.a + lb.a)))
                x, y = self.deref(la, st), self.deref(lb, st)
                r = cat(self, x, y)
                return self.new(st, "list", v=app("listcat", x, y) if contains(r, lambda t: t.k == "app" and t.a[0] == "npappend") else r)
            if oa is not None and oa.kind == "list":
                return self.new(st, "list", v=app("listcat", self.deref(a, st), self.deref(b, st)))
            if a.k == "tup" and b.k == "tup":
                return mk("tup", *(a.a + b.a))
            if is_strlike(a) or is_strlike(b):
                return self.concat([self.deref(a, st), self.deref(b, st)])
        if isinstance(op, ast.Mult):
            for x, y, ox in ((a, b, oa), (b, a, ob)):
                if ox is not None and ox.kind == "list":
                    v = ox.f["v"]
                    n = as_number(y)
                    if v.k == "tup" and n is not None:
                        return self.new(st, "list", v=mk("tup", *(v.a * int(n))))
                    if v.k == "tup" and len(v.a) == 1:
                        j = fresh("r")
                        return self.new(st, "list", v=arr(self.deref(y, st), j, v.a[0]))
                if is_str(x) and as_number(y) is not None:
                    return const(cval(x) * int(as_number(y)))
                if x.k == "tup" and as_number(y) is not None and ox is None:
                    return mk("tup", *(x.a * int(as_number(y))))
            if is_str(a) or is_str(b):
                return app("strrep", a, b)
        if isinstance(op, ast.Mod) and is_strlike(a):
            return app("strfmt", a, self.deref(b, st))
        if isinstance(op, ast.BitOr):
            x, y = self.deref_shallow(a, st), self.deref_shallow(b, st)
            if x.k == "dct" and y.k == "dct":
                ps = [(k, v) for k, v in x.a]
                for k, v in y.a:
                    if any(p is k for p, _ in ps):
                        ps = [(p, v if p is k else q) for p, q in ps]
                    else:
                        ps.append((k, v))
                return self.new(st, "dict", v=mk("dct", *ps))
        if isinstance(op, ast.Add):
            return self.lift2(self.nadd, a, b, st)
        if isinstance(op, ast.Sub):
            return self.lift2(lambda x, y: self.nadd(x, neg(y)), a, b, st)
        if isinstance(op, ast.Mult):
            return self.lift2(mul, a, b, st)
        if isinstance(op, ast.Div):
            return self.lift2(div, a, b, st)
        if isinstance(op, ast.Pow):
            return self.lift2(npow, a, b, st)
        if isinstance(op, ast.FloorDiv):
            return self.lift2(lambda x, y: fold2("floordiv", x, y, lambda p, q: p // q), a, b, st)
        if isinstance(op, ast.Mod):
            return self.lift2(lambda x, y: fold2("mod", x, y, lambda p, q: p % q), a, b, st)
        if isinstance(op, ast.BitAnd):
            return self.lift2(lambda x, y: and_(x, y) if boolish(x) or boolish(y) else app("bitand", x, y), a, b, st)
        if isinstance(op, ast.BitOr):
            return self.lift2(lambda x, y: or_(x, y) if boolish(x) or boolish(y) else app("bitor", x, y), a, b, st)
        if isinstance(op, ast.MatMult):
            return app("matmul", self.deref(a, st), self.deref(b, st))
        return app("op" + type(op).__name__, self.deref(a, st), self.deref(b, st))

    def nadd(self, x, y):
        return add(x, y)

    def e_BoolOp(self, e, st):
        vals = [self.ev(e.values[0], st)]
        isand = isinstance(e.op, ast.And)
        first = self.truthv(vals[0], st)
        r = first
        allbool = boolish(vals[0])
        cur = vals[0]
        for x in e.values[1:]:
            if isand and r is FALSE:
                return cur if not allbool else FALSE
            if not isand and r is TRUE:
                return cur if not allbool else TRUE
            v = self.ev_under(r if isand else not_(r), x, st)
            tv = self.truthv(v, st)
            if boolish(v) and allbool:
                cur = and_(r, tv) if isand else or_(r, tv)
                r = cur
            else:
                allbool = False
                cur = ite(r, v, cur) if isand else ite(r, cur, v)
                r = and_(r, tv) if isand else or_(r, tv)
        return cur

    def ev_under(self, c, e, st):
        """Value of an expression that is evaluated only if c holds."""
        if c is TRUE or not any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(e)):
            return self.ev(e, st)
        s1, s2 = st.copy(), st.copy()
        ev0, p0 = self.events, self.pending
        self.events, self.pending = [], []
        v = self.ev(e, s1)
        self.events = ev0 + [(and_(c, p), t) for p, t in self.events]
        self.pending = p0 + [(and_(c, p), n, x) for p, n, x in self.pending]
        m = self.merge(c, s1, s2, st.heap)
        st.heap.clear()
        st.heap.update(m.heap)
        return v

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        r = TRUE
        for op, rt in zip(e.ops, e.comparators):
            right = self.ev(rt, st)
            c = self.compare(op, left, right, st)
            r = c if r is TRUE else self.lift2(and_, r, c, st)
            left = right
        return r

    def compare(self, op, a, b, st):
        a, b = bare(a), bare(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is NONE:
                c = self.isnone(a)
            elif a is NONE:
                c = self.isnone(b)
            elif is_const(a) or is_const(b):
                c = eq(a, b)
            elif a is b:
                c = TRUE
            else:
                c = mk("truth", app("is", self.deref(a, st), self.deref(b, st)))
            return not_(c) if isinstance(op, ast.IsNot) else c
        if isinstance(op, (ast.In, ast.NotIn)):
            d = self.deref(a, st)
            if b.k == "ext" and b.a[0] == "os.environ" and is_str(d):
                c = not_(eq(app("env", d), NONE))
                return not_(c) if isinstance(op, ast.NotIn) else c
            c = self.contains_(a, b, st)
            return not_(c) if isinstance(op, ast.NotIn) else c
        a, b = self.deref(a, st), self.deref(b, st)
        if isinstance(op, ast.Eq):
            return self.lift2(eq, a, b, st) if not (a.k == "tup" and b.k == "tup") else eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.lift2(lambda x, y: not_(eq(x, y)), a, b, st)
        if is_const(a) and is_const(b) and is_str(a) and is_str(b):
            x, y = cval(a), cval(b)
            return const({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        f = {ast.Lt: lambda x, y: less(x, y, True), ast.LtE: lambda x, y: less(x, y, False),
             ast.Gt: lambda x, y: less(y, x, True), ast.GtE: lambda x, y: less(y, x, False)}[type(op)]
        return self.lift2(f, a, b, st)

    def contains_(self, a, b, st):
        if self.given and app("has", a) in self.given:
            return self.given[app("has", a)]
        if b.k == "ite" and any(x.k in ("ref", "tup") for x in b.a[1:]):
            return ite(b.a[0], self.contains_(a, b.a[1], st), self.contains_(a, b.a[2], st))
        items = self.known_items(b, st) if not is_str(b) else None
        ob = self.obj(st, b)
        if items is not None:
            r = FALSE
            da = self.deref(a, st)
            for x in items:
                r = or_(r, eq(da, self.deref(x, st)))
            return r
        if is_str(a) and is_str(b):
            return const(cval(a) in cval(b))
        if ob is not None and ob.kind == "inst":
            f = self.repo.find_method(ob.cls, "__contains__") if ob.cls else None
            if f is not None:
                return truth(self.call_func(f, [b, a], {}, st))
        t = app("in", self.deref(a, st), self.deref(b, st))
        return self.consts.get(t) or mk("truth", t)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        ev0, p0 = self.events, self.pending
        self.events, self.pending = [], []
        n0 = dict(self.counts)
        a = self.ev(e.body, s1)
        ev1, pe1, self.events, self.pending = self.events, self.pending, [], []
        n1, self.counts = self.counts, n0
        b = self.ev(e.orelse, s2)
        self.counted(n1)
        ev2, pe2 = self.events, self.pending
        nc = not_(c)
        self.events = ev0 + [(and_(c, p), t) for p, t in ev1] + [(and_(nc, p), t) for p, t in ev2]
        self.pending = p0 + [(and_(c, p), n, v) for p, n, v in pe1] + [(and_(nc, p), n, v) for p, n, v in pe2]
        s1.vars["$x"] = a
        s2.vars["$x"] = b
        m = self.merge(c, s1, s2, st.heap)
        r = m.vars.pop("$x")
        st.heap.clear()
        st.heap.update(m.heap)
        return r

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Lambda(self, e, st):
        return mk("fn", Func(e, self.stack[-1].module, self.stack[-1].qual + f".<lambda>", closure=st.vars))

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    # ---- comprehensions
    def comp(self, gens, elt, st, kind):
        saved = dict(st.vars)
        try:
            return self._comp(gens, elt, st, kind)
        finally:
            st.vars.clear()
            st.vars.update(saved)

    def _comp(self, gens, elt, st, kind):
        g = gens[0]
        it = self.ev(g.iter, st)
        items = self.known_items(it, st)
        if items is not None and len(items) <= 80:
            out = []
            known = True
            for x in items:
                self.assign(g.target, x, st)
                c = TRUE
                for q in g.ifs:
                    c = and_(c, self.cond(q, st))
                if c is FALSE:
                    continue
                if len(gens) > 1:
                    sub_ = self._comp(gens[1:], elt, st, kind)
                    d = sub_
                    if d.k != "tup" or c is not TRUE:
                        return app("comp", self.deref(it, st))
                    out += list(d.a)
                else:
                    v = elt(st)
                    if c is not TRUE:
                        known = False
                        out.append(mk("tup", const("$cond"), c, v))
                    else:
                        out.append(v)
            if known:
                return mk("tup", *out)
            chosen = lambda x: x.k == "tup" and x.a and x.a[0] is const("$cond")
            if self.functional and sum(map(chosen, out)) <= 4:
                lists = mk("tup")  # one list per combination of the conditions
                for x in out:
                    longer = lambda v, x=x: map_leaves(v, lambda t: mk("tup", *t.a, x.a[2] if chosen(x) else x))
                    lists = ite(x.a[1], longer(lists), lists) if chosen(x) else longer(lists)
                return lists
            return app("condlist", *[self.deref(x, st) if x.k == "tup" and x.a and x.a[0] is const("$cond")
                                     else mk("tup", const("$cond"), TRUE, self.deref(x, st)) for x in out])
        j = fresh("c")
        n, x = self.iteration(it, j, st)
        self.assign(g.target, x, st)
        c = TRUE
        for q in g.ifs:
            c = and_(c, self.cond(q, st))
        if len(gens) > 1:
            v = self._comp(gens[1:], elt, st, kind)
            return app("flat", arr(n, j, mk("tup", c, self.deref(v, st))))
        v = self.deref(elt(st), st)
        if c is TRUE:
            return arr(n, j, v)
        return app("filt", arr(n, j, mk("tup", c, v)))

    def e_ListComp(self, e, st):
        return self.new(st, "list", v=self.comp(e.generators, lambda s: self.ev(e.elt, s), st, "list"))

    def e_GeneratorExp(self, e, st):
        return self.comp(e.generators, lambda s: self.ev(e.elt, s), st, "gen")

    def e_SetComp(self, e, st):
        return self.new(st, "set", v=self.comp(e.generators, lambda s: self.ev(e.elt, s), st, "set"))

    def e_DictComp(self, e, st):
        v = self.comp(e.generators, lambda s: mk("tup", self.deref(self.ev(e.key, s), s), self.ev(e.value, s)), st, "dict")
        if v.k == "tup":
            ps = []
            for p in v.a:
                ps = [(k, x) for k, x in ps if k is not p.a[0]] + [(p.a[0], p.a[1])]
            return self.new(st, "dict", v=mk("dct", *ps))
        if v.k == "ite" and all(x.k == "tup" for x in leaves_of(v)):
            return self.new(st, "dict", v=map_leaves(v, lambda t: mk("dct", *{p.a[0]: (p.a[0], p.a[1]) for p in t.a}.values())))
        return self.new(st, "dict", v=app("dictcomp", v))

    # ---- attribute / item access
    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.get_attr(o, e.attr, st)

    def current(self, t, st):
        """What an item of an outside object holds now: the value last written to it, if any."""
        if self.given and t in self.given:
            return self.given[t]
        if not self.functional or self.ghost_ref is None or t.k != "app" or t.a[0] not in (".", "idx") or len(t.a[1]) != 2:
            return t
        key = event_key(app("setitem", *t.a[1]))
        written = st.heap[self.ghost_ref.a[0]].f
        v = written.get(key) if key.startswith("write ") else None
        if v is None and is_str(t.a[1][1]):  # a coordinate is read under its own name
            v = written.get(event_key(app("setitem", app(".", t.a[1][0], const("coords")), t.a[1][1])))
        if v is None:
            return t

        def leaf(x):
            if x.k == "ite":
                return ite(x.a[0], leaf(x.a[1]), leaf(x.a[2]))
            if x is NOT_CALLED or x.k in ("unk", "mu", "out"):
                return t
            return app("now", t, held(x))
        return leaf(v)

    def get_attr(self, o, name, st):
        if o.k == "app" and o.a[0] == "now":
            if name in WRAP_ATTR:
                return o.a[1][1]
            o = o.a[1][0]
        return self.current(self.attribute(o, name, st), st)

    def attribute(self, o, name, st):
        if o.k == "ite":
            r = self.on_ite(o, st, lambda x, s: self.get_attr(x, name, s))
            return r
        ob = self.obj(st, o)
        if ob is not None:
            if ob.kind == "inst":
                if ob.cls is not None:
                    pr = ob.cls.props.get(name)
                    if pr is not None:
                        return self.call_func(pr, [o], {}, st)
                if name in ob.f:
                    return ob.f[name]
                if ob.cls is not None:
                    f = self.repo.find_method(ob.cls, name)
                    if f is not None:
                        kind = (f.cls or ob.cls).kinds.get(name)
                        if kind == "staticmethod":
                            return mk("fn", f)
                        if kind == "classmethod":
                            return mk("bm", mk("fn", f), mk("cls", ob.cls))
                        return mk("bm", mk("fn", f), o)
                    if name in ob.cls.attrs:
                        return self.ev(ob.cls.attrs[name], State())
                    return self.class_attr(ob.cls, name)
                return sym(f"o:{name}")
            if name in WRAP_ATTR and ob.kind == "arr":
                return o
            if name == "shape" and ob.kind == "arr":
                v = ob.f["v"]
                if v.k == "arr":
                    return mk("tup", v.a[0])
                return app(".", v, const("shape"))
            if name == "size" and ob.kind == "arr" and ob.f["v"].k == "arr":
                return ob.f["v"].a[0]
            if name == "flat" and ob.kind == "arr":
                return o
            return mk("meth", o, const(name))
        if o.k == "node":
            nodes, idx = o.a
            no = st.heap[nodes.a[0]]
            key = "m:" + name
            if key in no.f:
                return read(no.f[key], idx)
            ncls = no.cls
            if ncls is not None:
                f = self.repo.find_method(ncls, name)
                if f is not None:
                    return mk("bm", mk("fn", f), o)
            return unk("layer attribute " + name)
        if o.k == "mod":
            m = self.repo.module(o.a[0])
            v = self.glob(m, name)
            if v is not None:
                return v
            if self.repo.module(o.a[0] + "." + name) is not None:
                return mk("mod", o.a[0] + "." + name)
            return unk(f"{o.a[0]}.{name}")
        if o.k == "ext":
            d = o.a[0] + "." + name
            if d in ("numpy.pi", "math.pi"):
                return sym("pi")
            if d in ("numpy.inf", "math.inf"):
                return sym("inf")
            if d in ("numpy.nan", "math.nan"):
                return const("<nan>")
            if d in ("numpy.newaxis",):
                return NONE
            return mk("ext", d)
        if o.k == "cls":
            cls = o.a[0]
            f = self.repo.find_method(cls, name)
            if f is not None:
                owner = f.cls or cls
                kind = owner.kinds.get(name)
                if kind == "classmethod":
                    return mk("bm", mk("fn", f), o)
                return mk("fn", f)
            if name in cls.attrs:
                return self.ev(cls.attrs[name], State())
            return self.class_attr(cls, name)
        if o.k == "app" and o.a[0] in ("m:sel", "m:isel") and name not in LABELLED and name not in PURE_METHODS:
            return chosen(o.a[0], self.get_attr(o.a[1][0], name, st), o.a[1][1:])  # a variable of a selection
        if o.k == "app" and o.a[0] == "upd" and self.functional:
            k = o.a[1][1]
            if is_str(k):
                if cval(k) == name:
                    return held(o.a[1][2])
                if cval(k) == "coords":
                    c = held(o.a[1][2])
                    while c.k == "app" and c.a[0] == "upd":
                        if c.a[1][1] is const(name):
                            return held(c.a[1][2])
                        c = c.a[1][0]
                if name not in LABELLED:
                    return self.get_attr(o.a[1][0], name, st)
        if o.k == "app" and name in self.keeps.get(o.a[0], ()) and o.a[1]:
            return self.get_attr(o.a[1][0], name, st)
        if name in WRAP_ATTR and o.k in ("sym", "app", "n", "mu", "out", "bv", "arr"):
            return o
        if name == "flat" and o.k in ("arr", "app"):
            return o
        if o.k == "arr" and name in ("shape", "size"):
            return o.a[0] if name == "size" else mk("tup", o.a[0])
        if o.k == "unk":
            return o
        if o.k in ("c", "tup", "arr", "dct", "n"):
            return mk("meth", o, const(name))
        return app(".", o, const(name))

    def class_attr(self, cls, name):
        if f"{cls.name}.{name}" in self.consts:
            return self.consts[f"{cls.name}.{name}"]
        return sym(f"{cls.name}.{name}")

    def ev_index(self, s, st):
        if isinstance(s, ast.Slice):
            f = lambda x: self.deref(self.ev(x, st), st) if x is not None else NONE
            lower = f(s.lower)
            return mk("slice", NONE if s.step is None and as_number(lower) == 0 else lower, f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            parts = [self.ev_index(x, st) for x in s.elts]
            while len(parts) > 1 and parts[-1].k == "slice" and all(x is NONE for x in parts[-1].a):
                parts.pop()  # a[t, :, :] is a[t]
            return mk("tup", *parts) if len(parts) > 1 else parts[0]
        return self.ev(s, st)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        i = self.ev_index(e.slice, st)
        return self.get_item(o, i, st)

    def e_Slice(self, e, st):
        return self.ev_index(e, st)

    def get_item(self, o, i, st):
        if o.k == "app" and o.a[0] == "now":
            o = o.a[1][0 if is_str(i) else 1]
        return self.current(self.subscript(o, i, st), st)

    def subscript(self, o, i, st):
        if o.k == "ext" and o.a[0] == "os.environ":
            e = app("env", self.deref(i, st))
            self.pending.append((eq(e, NONE), "KeyError", const("KeyError")))
            return e
        if self.functional and is_str(i) and o.k == "app" and o.a[0] in ("m:sel", "m:isel", "upd"):
            return self.attribute(o, cval(i), st)
        if o.k == "ite":
            x = self.choice_at(o, self.deref(i, st))
            if x is not None:
                return x
            return self.on_ite(o, st, lambda x, s: self.get_item(x, i, s))
        i = self.deref(i, st)
        ob = self.obj(st, o)
        if ob is not None:
            if ob.kind == "nodes":
                if i.k == "slice":
                    return unk("slice of the layer list")
                k = as_number(i)
                if k is not None and k < 0:
                    i = add(ob.f["len"], i)
                return mk("node", o, i)
            if ob.kind == "inst":
                f = self.repo.find_method(ob.cls, "__getitem__") if ob.cls else None
                if f is not None:
                    return self.call_func(f, [o, i], {}, st)
                return app("item", app("inst", const(ob.cls.name if ob.cls else "?")), i)
            v = self.item(ob.f["v"], i, st)
            if v.k in ("tup", "arr") and i.k == "slice" and ob.kind == "list":
                return self.new(st, "list", v=v)
            return v
        return self.item(o, i, st)

    def choice_at(self, c, i):
        """Element of a choice made per element (np.where, np.maximum, ... of an input series)."""
        if self.series_of and c.a[0].k in ("lt", "le", "eqn") and any(self.is_series(t) for t in subterms(c.a[0])):
            return self.elementwise(c, i)

    def shape(self, t):
        """The lengths of the axes of an array made with a known shape."""
        while True:
            if t.k == "app" and t.a[0] == "upd":
                t = t.a[1][0]
            elif t.k == "out":
                t = mudefs(t.a[0])[t.a[1]].a[2]
            elif t.k == "mu" and t in self.starts:
                t = self.starts[t]
            elif t.k == "app" and t.a[0] == "full" and t.a[1][0].k == "tup":
                return t.a[1][0].a
            else:
                return ()

    def position(self, c, i):
        """An index with positions counted from the end replaced by positions counted from the start."""
        n = self.shape(c)
        parts = list(i.a) if i.k == "tup" else [i]
        if len(parts) > len(n):
            return i
        for j, x in enumerate(parts):
            k = as_number(x)
            if k is not None and k < 0:
                parts[j] = add(n[j], x)
        return mk("tup", *parts) if i.k == "tup" else parts[0]

    def item(self, c, i, st):
        if (is_bool(i) or is_mask(i)) and (c.k in ("sym", "n") or is_elementwise(c)):
            return app("idx", c, i)  # a selection of elements
        i = self.position(c, i)
        if c.k == "ite":
            e = self.choice_at(c, i)
            if e is not None:
                return e
            return ite(c.a[0], self.item(c.a[1], i, st), self.item(c.a[2], i, st))
        if i.k == "ite":
            return ite(i.a[0], self.item(c, i.a[1], st), self.item(c, i.a[2], st))
        if c.k == "tup":
            k = as_number(i)
            if k is not None and k.denominator == 1 and -len(c.a) <= k < len(c.a):
                return c.a[int(k)]
            if i.k == "slice" and all(x is NONE or as_number(x) is not None for x in i.a):
                g = [None if x is NONE else int(as_number(x)) for x in i.a]
                return mk("tup", *c.a[slice(*g)])
        if c.k == "dct":
            for k, v in c.a:
                if k is i:
                    return v
            if is_str(i) or as_number(i) is not None:
                self.pending.append((TRUE, "KeyError", const("KeyError")))
                return unk(f"missing key {show(i)}")
            # dispatch over the known keys
            if c.a:
                r = unk("missing key")
                hit = FALSE
                for k, v in reversed(c.a):
                    q = eq(i, k)
                    r = ite(q, v, r)
                    hit = or_(hit, q)
                if hit is not TRUE and not all(k.k == "n" for k, _ in c.a):
                    self.pending.append((not_(hit), "KeyError", const("KeyError")))
                return r
        if c.k == "c" and isinstance(c.a[0].v, str):
            k = as_number(i)
            if k is not None:
                try:
                    return const(c.a[0].v[int(k)])
                except IndexError:
                    return unk("string index")
            if i.k == "slice" and all(x is NONE or as_number(x) is not None for x in i.a):
                g = [None if x is NONE else int(as_number(x)) for x in i.a]
                return const(c.a[0].v[slice(*g)])
        if c.k == "arr":
            n = c.a[0]
            if i.k == "slice":
                lo, hi = self.slice_bounds(i, n)
                if lo is not None:
                    j = fresh("s")
                    return arr(sub(hi, lo), j, arr_at(c, add(lo, j)))
            elif i.k == "arr":
                j = fresh("s")
                return arr(i.a[0], j, self.item(c, arr_at(i, j), st))
            elif i.k not in ("tup", "c"):
                k = as_number(i)
                if k is not None and k < 0:
                    i = add(n, i)
                return arr_at(c, i)
        if i.k == "arr":
            j = fresh("s")
            return arr(i.a[0], j, app("idx", c, arr_at(i, j)))
        if i.k == "slice":
            lo, hi, step = i.a
            return self.cut(c, lo, hi, step, st)
        if is_str(i):
            if self.functional and c.k == "app" and c.a[0] == "upd" and is_str(c.a[1][1]):
                return c.a[1][2] if c.a[1][1] is i else self.item(c.a[1][0], i, st)
            return app(".", c, i)
        if c.k == "app" and c.a[0] == "upd":
            # read of a functional update
            base, k, v = c.a[1]
            if k.k != "slice" and i.k != "slice":
                if k is i:
                    return v
                if not is_str(k):
                    d = apart(i, k)
                    if d is not None and d != 0:
                        return self.item(base, i, st)
                    if d == 0:
                        return v
        if (c, i) in self.lasts:
            return self.lasts[(c, i)]
        if self.series_of:
            e = self.elementwise(c, i)
            if e is not None:
                return e
        if self.functional and c.k == "n" and c.a and not is_str(i):
            fields = {t for t in poly_atoms(c) if is_field(t)}
            if fields and all(t in fields or is_setting(t) for t in poly_atoms(c)):
                return subst(c, {t: self.item(t, i, st) for t in fields})
        return app("idx", c, i)

    def cut(self, c, lo, hi, step, st):
        """The part c[lo:hi:step]."""
        if step is NONE:
            for x in (lo, hi):
                if x.k == "ite":
                    return ite(x.a[0], *(self.item(c, subst(mk("slice", lo, hi, step), {x: y}), st) for y in x.a[1:]))
            if hi is not NONE and as_number(hi) is None:
                n = self.length(c, st)
                if hi is n:
                    hi = NONE
                elif as_number(sub(hi, n)) == -1:
                    hi = num(-1)
            if lo is NONE and hi is NONE:
                return c
        return app("sl", c, lo, hi, step)

    def isnone(self, t):
        if t.k == "ite":
            return ite(t.a[0], self.isnone(t.a[1]), self.isnone(t.a[2]))
        return FALSE if self.is_series(t) else is_none(t)

    def is_series(self, t):
        return t.k == "app" and t.a[0] == "." and t.a[1][0] in self.series_of

    def elementwise(self, c, i):
        """Element of a product or sum of input series and constants of the configuration."""
        if c.k not in ("S", "ite") or i.k in ("slice", "arr", "tup") or is_str(i):
            return None
        series, found = set(), [True]

        def look(t):
            if self.is_series(t):
                series.add(t)
            elif t.k == "sym" and not str(t.a[0]).startswith("Constants."):
                found[0] = False
            elif t.k == "app":
                found[0] = False
            else:
                for x in children(t):
                    look(x)
        look(c)
        if not found[0] or not series or c in series:
            return None
        return subst(c, {t: app("idx", t, i) for t in series})

    # ---- calls
    def e_Call(self, e, st):
        f = None
        if isinstance(e.func, ast.Attribute) and e.func.attr == "values" and not e.args and not e.keywords:
            o = self.ev(e.func.value, st)  # of a table, not of an array
            f = mk("meth", o, const("values")) if is_table(self.deref(o, st)) else self.get_attr(o, "values", st)
        f = f or self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.known_items(self.ev(a.value, st), st)
                if items is None:
                    args.append(app("star", self.deref(self.ev(a.value, st), st)))
                else:
                    args += items
            else:
                args.append(self.ev(a, st))
        kw, choice = {}, None
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = self.deref_shallow(v, st)
                if d.k == "ite" and choice is None and all(x.k == "dct" and all(is_str(p) for p, _ in x.a) for x in leaves_of(d)):
                    choice = d
                elif d.k == "dct" and all(is_str(p) for p, _ in d.a):
                    for p, q in d.a:
                        kw[cval(p)] = q
                else:
                    kw["**"] = self.deref(v, st)
            else:
                kw[k.arg] = v
        if f.k == "app" and f.a[0] == "collections.namedtuple" and args == [app("star", app("m:values", f.a[1][1]))] and not kw:
            args, kw = [], {"**": f.a[1][1]}
        self.callnode = e
        if choice is not None:
            return self.either(choice, st, lambda x, s: self.call(f, args, {**kw, **{cval(p): q for p, q in x.a}}, s))
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        if f.k == "ite":
            return self.on_ite_call(f, args, kw, st)
        if f.k == "fn":
            return self.call_func(f.a[0], args, kw, st)
        if f.k == "bm":
            return self.call_func(f.a[0].a[0], [f.a[1]] + list(args), kw, st)
        if f.k == "cls":
            return self.instantiate(f.a[0], args, kw, st)
        if f.k == "intr":
            return self.intrinsics[f.a[0]](self, st, args, kw)
        if f.k == "meth":
            return self.method(f.a[0], cval(f.a[1]), args, kw, st)
        if f.k == "ext":
            return self.call_ext(f.a[0], args, kw, st)
        if f.k == "app" and f.a[0] == ".":
            return self.method(f.a[1][0], cval(f.a[1][1]), args, kw, st)
        if f.k == "app" and f.a[0] == "partial":
            inner = f.a[1]
            return self.call(inner[0], list(inner[1:]) + list(args), kw, st)
        if f.k == "unk":
            return f
        t = app("call", self.deref(f, st), *self.plain(args, kw, st))
        self.event(st, t)
        return t

    def on_ite_call(self, f, args, kw, st):
        return self.either(f, st, lambda x, s: self.call(x, args, kw, s))

    def either(self, f, st, do):
        """Evaluate do for both alternatives of a conditional term, gating what they do."""
        c, a, b = f.a
        s1, s2 = st.copy(TRUE), st.copy(TRUE)
        n0 = dict(self.counts)
        ev0, p0 = self.events, self.pending
        self.events, self.pending = [], []
        if a.k == "unk" and a.a[0].startswith("missing key"):
            r1, s1 = None, None
        else:
            r1 = self.either(a, s1, do) if a.k == "ite" else do(a, s1)
        e1, q1, self.events, self.pending = self.events, self.pending, [], []
        n1, self.counts = self.counts, n0
        if b.k == "unk" and b.a[0].startswith("missing key"):
            r2, s2 = None, None
        else:
            r2 = self.either(b, s2, do) if b.k == "ite" else do(b, s2)
        e2, q2 = self.events, self.pending
        self.counted(n1)
        nc = not_(c)
        self.events = ev0 + [(and_(st.pc, and_(c, p)), t) for p, t in e1] + [(and_(st.pc, and_(nc, p)), t) for p, t in e2]
        self.pending = p0 + [(and_(c, p), n, v) for p, n, v in q1] + [(and_(nc, p), n, v) for p, n, v in q2]
        if s1 is None or s2 is None:
            s, r = (s2, r2) if s1 is None else (s1, r1)
            if s is None:
                return unk("missing key")
            st.heap.clear()
            st.heap.update(s.heap)
            return r
        s1.vars["$x"], s2.vars["$x"] = r1, r2
        m = self.merge(c, s1, s2, st.heap)
        st.heap.clear()
        st.heap.update(m.heap)
        return m.vars["$x"]

    def snap(self, v, st, depth=0):
        """deref that also describes objects by their current contents."""
        v = self.deref(v, st)
        if depth > 4:
            return v
        if v.k == "ref":
            o = st.heap.get(v.a[0])
            if o is not None and o.kind in ("inst", "nodes"):
                return app("obj:" + (o.cls.name if o.kind == "inst" and o.cls else o.kind),
                           mk("dct", *[(const(k), self.snap(o.f[k], st, depth + 1)) for k in sorted(o.f)]))
        if v.k == "tup":
            return mk("tup", *[self.snap(x, st, depth + 1) for x in v.a])
        if v.k == "dct":
            return mk("dct", *[(k, self.snap(x, st, depth + 1)) for k, x in v.a])
        if v.k == "ite":
            return ite(v.a[0], self.snap(v.a[1], st, depth + 1), self.snap(v.a[2], st, depth + 1))
        if v.k == "fn" and self.functional:
            return self.applied(v, st)
        return v

    def applied(self, v, st):
        """A function handed to a library: what it returns for arbitrary arguments."""
        fn = v.a[0]
        a = fn.node.args
        params = a.posonlyargs + a.args
        if a.vararg or sum(isinstance(x, ast.stmt) for x in ast.walk(fn.node)) > 20 or len(self.stack) > MAXDEPTH - 3:
            return v
        keep = self.events, self.pending, dict(self.counts)
        self.events, self.pending = [], []
        try:
            r = self.call_func(fn, [sym(f"argument {i}") for i in range(len(params))], {}, State({}, dict(st.heap), TRUE))
            bad = FALSE
            for pc, _n, _v in self.pending:
                bad = or_(bad, pc)
            return app("function", num(len(params)), self.deref(r, st), bad)
        except Unsupported:
            return v
        finally:
            self.events, self.pending, self.counts = keep

    def plain(self, args, kw, st):
        out = [self.snap(a, st) for a in args]
        for k in sorted(kw):
            out.append(mk("kw", const(k), self.snap(kw[k], st)))
        return out

    def length(self, v, st):
        ob = self.obj(st, v)
        if ob is not None:
            if ob.kind == "nodes":
                return ob.f["len"]
            if ob.kind in ("list", "arr", "dict", "set"):
                return self.length(ob.f["v"], st)
        if v.k in ("tup", "dct"):
            return num(len(v.a))
        if v.k == "arr":
            return v.a[0]
        if is_str(v):
            return num(len(cval(v)))
        if v.k == "ite":
            return ite(v.a[0], self.length(v.a[1], st), self.length(v.a[2], st))
        if v.k == "app" and v.a[0] == "append":
            return add(self.length(v.a[1][0], st), num(1))
        if v.k == "app" and v.a[0] == "sl" and v.a[1][1] is NONE and v.a[1][3] is NONE and (
                v.a[1][2].k == "app" and v.a[1][2].a[0] == "len" or (as_number(v.a[1][2]) or -1) > 0):
            n = self.length(v.a[1][0], st)
            return ite(less(v.a[1][2], n, True), v.a[1][2], n)
        if v.k == "app" and v.a[0] in ("upd", "sorted", "reversed"):
            return self.length(v.a[1][0], st)
        if v.k == "app" and v.a[0] == "filt":
            a = v.a[1][0]
            j = fresh("n")
            return summ(a.a[0], j, ite(arr_at(a, j).a[0], num(1), num(0)))
        v = self.deref(v, st)
        if v.k == "app" and v.a[0] == "." and v.a[1][0] in self.series_of:
            return app("len", app(".", v.a[1][0], const("time")))
        return app("len", v)

    def total(self, v, st):
        v = self.deref(v, st)
        if v.k == "tup":
            r = num(0)
            for x in v.a:
                r = add(r, ones(x))
            return r
        if v.k == "arr":
            j = fresh("t")
            return summ(v.a[0], j, ones(arr_at(v, j)))
        if v.k == "app" and v.a[0] == "filt":
            a = v.a[1][0]
            j = fresh("t")
            x = arr_at(a, j)
            return summ(a.a[0], j, ite(x.a[0], ones(x.a[1]), num(0)))
        if v.k == "app" and v.a[0] == "condlist":
            r = num(0)
            for x in v.a[1]:
                r = add(r, ite(x.a[1], ones(x.a[2]), num(0)))
            return r
        if v.k == "ite":
            return ite(v.a[0], self.total(v.a[1], st), self.total(v.a[2], st))
        return app("Sum", v)

    def list_extend(self, ref, v, st):
        cur = self.obj(st, ref).f["v"]
        d = self.deref_shallow(v, st)
        items = self.known_items(v, st)
        if cur.k == "tup" and items is not None:
            self.put(st, ref, "v", mk("tup", *(list(cur.a) + items)))
        else:
            self.put(st, ref, "v", app("listcat", self.deref(cur, st), self.deref(d, st)))

    def method(self, o, name, args, kw, st):
        o = bare(o)
        ob = self.obj(st, o)
        if ob is not None and ob.kind == "nodes":
            if name == "append":
                self.nodes_ins(o, ob.f["len"], args[0], st)
                return NONE
            if name == "insert":
                self.nodes_ins(o, self.deref(args[0], st), args[1], st)
                return NONE
            if name == "pop":
                i = self.deref(args[0], st) if args else num(-1)
                self.nodes_del(o, i, st)
                return unk("popped layer")
            return unk("layer list method " + name)
        if ob is not None and ob.kind in ("list", "set"):
            cur = ob.f["v"]
            if name in ("append", "add"):
                if cur.k == "tup":
                    self.put(st, o, "v", mk("tup", *(cur.a + (args[0],))))
                elif self.functional and cur.k == "ite" and all(x.k == "tup" for x in leaves_of(cur)) and len(leaves_of(cur)) <= 16:
                    self.put(st, o, "v", map_leaves(cur, lambda x: mk("tup", *(x.a + (args[0],)))))
                    return NONE
                else:
                    self.put(st, o, "v", app("append", self.deref(cur, st), self.deref(args[0], st)))
                self.event(st, app("append", self.deref(cur, st) if cur.k != "tup" else const("list"),
                                   self.deref(args[0], st)))
                return NONE
            if name == "extend":
                self.list_extend(o, args[0], st)
                return NONE
            if name == "insert" and cur.k == "tup" and as_number(args[0]) is not None:
                xs = list(cur.a)
                xs.insert(int(as_number(args[0])), args[1])
                self.put(st, o, "v", mk("tup", *xs))
                return NONE
            if name == "pop" and cur.k == "tup" and cur.a:
                i = int(as_number(args[0])) if args and as_number(args[0]) is not None else -1
                xs = list(cur.a)
                v = xs.pop(i)
                self.put(st, o, "v", mk("tup", *xs))
                return v
            if name == "copy":
                return self.new(st, ob.kind, v=cur)
            if name in ("index", "count"):
                return app("m:" + name, self.deref(cur, st), *self.plain(args, kw, st))
            if name in ("sort", "reverse", "remove", "clear", "insert", "pop", "update"):
                if name == "remove" and cur.k == "tup" and any(x is args[0] for x in cur.a):
                    xs = list(cur.a)
                    xs.remove(args[0])
                    self.put(st, o, "v", mk("tup", *xs))
                    return NONE
                if name == "reverse" and cur.k == "tup":
                    self.put(st, o, "v", mk("tup", *cur.a[::-1]))
                    return NONE
                self.put(st, o, "v", app("m:" + name, self.deref(cur, st), *self.plain(args, kw, st)))
                return NONE
        if ob is not None and ob.kind == "dict":
            cur = ob.f["v"]
            if cur.k == "dct":
                if name == "items":
                    return mk("tup", *[mk("tup", k, v) for k, v in cur.a])
                if name == "keys":
                    return mk("tup", *[k for k, _ in cur.a])
                if name == "values":
                    return mk("tup", *[v for _, v in cur.a])
                if name == "get":
                    k = self.deref(args[0], st)
                    d = args[1] if len(args) > 1 else kw.get("default", NONE)
                    for p, v in cur.a:
                        if p is k:
                            return v
                    if is_str(k) or as_number(k) is not None:
                        return d
                    r = d
                    for p, v in reversed(cur.a):
                        r = ite(eq(k, p), v, r)
                    return r
                if name == "copy":
                    return self.new(st, "dict", v=cur)
                if name == "update":
                    src = [self.deref_shallow(args[0], st)] if args else []
                    ps = list(cur.a)
                    ok = all(s.k == "dct" for s in src)
                    if ok:
                        for s in src + [mk("dct", *[(const(k), v) for k, v in kw.items()])]:
                            for k, v in s.a:
                                if any(p is k for p, _ in ps):
                                    ps = [(p, v if p is k else q) for p, q in ps]
                                else:
                                    ps.append((k, v))
                        self.put(st, o, "v", mk("dct", *ps))
                        return NONE
                if name == "pop":
                    k = self.deref(args[0], st)
                    for p, v in cur.a:
                        if p is k:
                            self.put(st, o, "v", mk("dct", *[(a, b) for a, b in cur.a if a is not k]))
                            return v
                    if len(args) > 1:
                        return args[1]
                if name == "setdefault":
                    k = self.deref(args[0], st)
                    for p, v in cur.a:
                        if p is k:
                            return v
                    if is_str(k):
                        self.put(st, o, "v", mk("dct", *(cur.a + ((k, args[1]),))))
                        return args[1]
        v = self.deref(o, st)
        if v.k == "dct":
            tmp = self.new(st, "dict", v=v)
            return self.method(tmp, name, args, kw, st)
        if name == "item" and not args:
            if v.k == "tup" and len(v.a) == 1:
                return v.a[0]
            return v
        if name == "copy" and not args and v.k in ("arr", "app", "n", "sym", "out", "mu", "ite") and (
                ob is not None and ob.kind == "arr"):
            return self.new(st, "arr", v=v)
        if name == "astype":
            return cast(v, args[0] if args else kw.get("dtype"))
        if name in ("sum",) and not args and not kw and v.k in ("arr", "tup"):
            return self.total(v, st)
        if name in ("min", "max", "mean", "argmin", "argmax", "any", "all") and not args and v.k == "arr":
            return app("a" + name, v)
        if name in ("min", "max", "any", "all") and not args and not kw:
            r = EXT[f"numpy.{name}"](self, [v], {}, st) if f"numpy.{name}" in EXT else None
            if r is not None:
                return r
        if name == "squeeze" and not args:
            return v
        if is_str(v):
            r = self.str_method(cval(v), name, args, kw, st)
            if r is not None:
                return r
        if name in self.method_stubs:
            r = self.method_stubs[name](self, v, args, kw, st)
            if r is not None:
                return r
        if name == "update" and self.ghost_ref is not None and (self.functional or is_table(v)) and len(args) <= 1:
            d = [self.deref(a, st) for a in args]
            if all(x.k == "dct" for x in d):
                for k, x in (list(d[0].a) if d else []) + [(const(k), x) for k, x in kw.items()]:
                    self.set_item(v, k, x, st)
                return NONE
        if name == "joinpath" and len(args) == 1 and not kw:
            return self.binop(ast.Div(), v, args[0], st)
        if name == "open" and v.k == "app" and v.a[0] == "pathlib.Path" and len(v.a[1]) == 1:
            return self.call_ext("open", [v.a[1][0]] + list(args), kw, st)
        if name == "__getattr__" and len(args) == 1 and not kw:
            return EXT["getattr"](self, [v] + list(args), {}, st)
        t = chosen("m:" + name, v, self.plain(args, kw, st))
        if name not in PURE_METHODS:
            self.event(st, t)
        elif self.extlog is not None:
            self.extlog.append(t)
        return t

    def str_method(self, s, name, args, kw, st):
        ds = [self.deref(a, st) for a in args]
        if name == "join" and len(ds) == 1 and ds[0].k == "tup":
            parts = []
            for i, x in enumerate(ds[0].a):
                if i:
                    parts.append(const(s))
                parts.append(x)
            return self.concat(parts)
        if name == "format":
            if s.count("{}") == len(ds) and not kw:
                parts = []
                for i, c in enumerate(s.split("{}")):
                    if i:
                        parts.append(ds[i - 1])
                    parts.append(const(c))
                return self.concat(parts)
            import string
            parts, n = [], 0
            try:
                for lit, field, spec, conv in string.Formatter().parse(s):
                    parts.append(const(lit))
                    if field is None:
                        continue
                    if spec or conv:
                        return None
                    if field == "":
                        field, n = str(n), n + 1
                    x = ds[int(field)] if field.isdigit() else kw.get(field)
                    if x is None:
                        return None
                    parts.append(self.deref(x, st))
            except (ValueError, IndexError):
                return None
            return self.concat(parts)
        try:
            if all(is_str(d) or as_number(d) is not None for d in ds) and not kw:
                py = [cval(d) if is_str(d) else int(as_number(d)) for d in ds]
                if name in ("upper", "lower", "strip", "lstrip", "rstrip", "replace", "capitalize", "title"):
                    return const(getattr(s, name)(*py))
                if name in ("startswith", "endswith", "isdigit"):
                    return const(bool(getattr(s, name)(*py)))
                if name == "split":
                    return self.new(st, "list", v=mk("tup", *[const(x) for x in s.split(*py)]))
        except Exception:
            return None
        return None

    def call_ext(self, n, args, kw, st):
        h = self.ext_stubs.get(n) or EXT.get(n)
        if h is None and n.startswith("math."):
            x = n[5:]
            x = "arc" + x[1:] if x in ("asin", "acos", "atan", "atan2", "asinh", "acosh", "atanh") else x
            h = EXT.get("numpy." + {"pow": "power", "fabs": "abs"}.get(x, x))
        if h is not None:
            r = h(self, args, kw, st)
            if r is not None:
                return r
        if n == "open" and "mode" in kw and len(args) == 1:
            args, kw = args + [kw["mode"]], {k: v for k, v in kw.items() if k != "mode"}
        if n in EXC:
            return app("new:" + n, *self.plain(args, kw, st))
        if n == "print":
            return NONE
        p = self.plain(args, kw, st)
        t = app(n, *p)
        if n not in PURE_EXT and not n.startswith("numpy."):
            self.event(st, t)
        elif self.extlog is not None:
            self.extlog.append(t)
        if n in NEWARR:
            return self.new(st, "arr", v=t)
        return t


def is_elementwise(t):
    """A library's array, or one chosen element by element between arrays and numbers."""
    if t.k == "n":
        return bool(poly_atoms(t))
    return is_value(t) or (t.k == "ite" and all(is_elementwise(x) or as_number(x) is not None for x in t.a[1:])
                           and any(is_elementwise(x) for x in t.a[1:]))


def is_value(t):
    """An unnamed result of a library call: writing an item of it yields a new value."""
    if t.k == "ite":
        return is_value(t.a[1]) and is_value(t.a[2])
    return t.k in ("app", "mu", "out") and path_of(t) is None


def poly_atoms(p):
    return {a for m, _k in p.a for a, _e in m}


def is_field(t):
    """A variable of a file: an array."""
    if t.k == "ite":
        return is_field(t.a[1]) and is_field(t.a[2])
    while t.k == "app" and t.a[0] in (".", "m:sel", "m:isel", "m:rename", "m:assign_coords") and t.a[1]:
        t = t.a[1][0]
    return t.k == "app" and t.a[0] == "xarray.open_dataset"


def unassigned(v, n):
    """Condition under which a local variable has not been assigned."""
    if v.k == "ite":
        x, y = unassigned(v.a[1], n), unassigned(v.a[2], n)
        return FALSE if x is FALSE and y is FALSE else ite(v.a[0], x, y)
    return TRUE if v.k == "unk" and v.a[0] == "undef:" + n else FALSE


@functools.lru_cache(None)
def locals_of(fn):
    """Names a function assigns."""
    if isinstance(fn, ast.Lambda):
        return frozenset()
    return frozenset(x.id for x in walk_own(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))
                     ) - frozenset(declared_global(fn))


@functools.lru_cache(None)
def names_of(tree):
    """All global names a module may define; every name if it imports all of another one."""
    out, todo = set(), list(tree.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
            for y in ast.walk(x):
                if isinstance(y, ast.Global):
                    out.update(y.names)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, ast.alias):
            if x.name == "*":
                return Everything()
            out.add(x.asname or x.name.split(".")[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        todo += ast.iter_child_nodes(x)
    return out


class Everything:
    def __contains__(self, x):
        return True


def is_table(t):
    """A table read from a settings file, or a table in it."""
    while t.k == "app" and t.a[0] in ("idx", "elem", "."):
        t = t.a[1][0]
    return t.k == "sym" and t.a[0].startswith("p:")


def is_setting(t):
    p = path_of(t)
    return p is not None and p.split(".")[0] in ("CFG", "Config", "Constants")


def made(t):
    """Creating a folder: without effect if it exists and that is accepted."""
    option = lambda x: x.k == "kw" and x.a[0] is const("exist_ok")
    args = [x for x in t.a[1] if not option(x)]
    there = mk("truth", app("os.path.isdir", args[0]))
    if any(option(x) and x.a[1] in (TRUE, const(True)) for x in t.a[1]):
        there = or_(there, mk("truth", app("os.path.exists", args[0])))
    return ite(there, NOT_CALLED, mk("tup", *args))


def map_leaves(v, f):
    if v.k == "ite":
        return ite(v.a[0], map_leaves(v.a[1], f), map_leaves(v.a[2], f))
    return f(v)


def leaves_of(v):
    if v.k == "ite":
        return leaves_of(v.a[1]) + leaves_of(v.a[2])
    return [v]


def map_leaves(v, f):
    if v.k == "ite":
        return ite(v.a[0], map_leaves(v.a[1], f), map_leaves(v.a[2], f))
    return f(v)


def may_be_value(t):
    if t.k == "ite":
        return may_be_value(t.a[1]) or may_be_value(t.a[2])
    return is_value(t) or t.k == "n" and bool(poly_atoms(t))


def declared_global(node):
    r = getattr(node, "global_names", None)
    if r is None:
        r = node.global_names = {n for x in ast.walk(node) if isinstance(x, ast.Global) for n in x.names}
    return r


def held(x):
    """The values of a variable given as (dimensions, values)."""
    if x.k == "tup" and len(x.a) > 1 and (is_str(x.a[0]) or x.a[0].k == "tup" and all(map(is_str, x.a[0].a))):
        return x.a[1]
    return x


def bare(v):
    """The value an item of an outside object holds."""
    if v.k == "app" and v.a[0] == "now":
        return v.a[1][1]
    if v.k == "ite":
        return ite(v.a[0], bare(v.a[1]), bare(v.a[2]))
    return v


def item_of(v):
    """The item of an outside object, as a place to write to."""
    return v.a[1][0] if v.k == "app" and v.a[0] == "now" else v


def path_of(t):
    """Printable access path of a term, or None."""
    if t.k == "sym":
        return str(t.a[0])
    if t.k == "cls":
        return t.a[0].name
    if t.k == "app" and t.a[0] in (".", "idx") and len(t.a[1]) == 2 and is_str(t.a[1][1]):
        p = path_of(t.a[1][0])
        return p and f"{p}.{cval(t.a[1][1])}"
    if t.k == "app" and t.a[0] == "now":
        return path_of(t.a[1][0])
    return None


def file_name(args):
    """The last component of the path among the arguments of a call, as far as it is literal."""
    for x in args:
        if x.k == "app" and x.a[0] == "concat":
            x = x.a[1][-1]
        if is_str(x):
            return " " + cval(x).rsplit("/", 1)[-1]
    return ""


def event_key(t):
    a = t.a[1]
    p = path_of(a[0])
    if t.a[0].startswith("m:"):
        return f"call {p}.{t.a[0][2:]}" if p else f"call {t.a[0][2:]}{file_name(a[1:])}"
    if p is None:
        return f"{t.a[0]}{file_name(a)}"
    if is_str(a[1]):
        return f"write {p}.{cval(a[1])}"
    k = path_of(a[1])
    return f"write {p}.<{k}>" if k else f"write {p}[]"


def trips(lo, hi, step):
    """Number of values from lo to before hi in the given steps."""
    if as_number(step) == 1:
        return sub(hi, lo)
    n = [as_number(x) for x in (lo, hi, step)]
    if None not in n and n[2] != 0:
        return num(max(0, -((n[0] - n[1]) // n[2])))
    return app("tripcount", lo, hi, step)


def apart(i, k):
    """Sign of the order of two array positions known to differ, 0 if they are the same, else None."""
    if i is k:
        return 0
    if "slice" in (i.k, k.k) or "arr" in (i.k, k.k) or "c" in (i.k, k.k):
        return None
    if i.k == "tup" or k.k == "tup":
        if i.k != k.k or len(i.a) != len(k.a):
            return None
        same = True
        for x, y in zip(i.a, k.a):
            d = apart(x, y)
            if d:
                return d
            same = same and d == 0
        return 0 if same else None
    if is_mask(i) or is_mask(k):
        return None
    return cdiff(i, k)


def selected(v, mask):
    """v for the elements of a mask, where it is made of selections with the same mask."""
    while True:
        m = {t: t.a[1][0] for t in subterms(v) if t.k == "app" and t.a[0] == "idx" and len(t.a[1]) == 2 and t.a[1][1] is mask}
        if not m:
            return v
        v = subst(v, m)


def is_mask(t):
    """A boolean selection of elements."""
    return t.k in ("lt", "le", "eq", "not", "and", "or", "truth")


def updated(cur, i, v):
    """cur with the element i set to v; independent updates are kept in the order of their positions."""
    if cur.k == "app" and cur.a[0] == "upd":
        base, k, w = cur.a[1]
        d = apart(i, k)
        if d == 0:
            return updated(base, i, v)
        if d is not None and d < 0:
            return app("upd", updated(base, i, v), k, w)
    return app("upd", cur, i, v)


class CallMismatch(Exception):
    pass


def walk_own(n):
    """ast.walk that does not enter nested functions."""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for y in ast.iter_child_nodes(x):
            if not isinstance(y, (ast.FunctionDef, ast.Lambda)):
                todo.append(y)


def boolish(t):
    return is_bool(t) or t.k == "truth"


def has_shape(t):
    return t.k in ("arr", "tup") or (t.k == "ite" and (has_shape(t.a[1]) or has_shape(t.a[2])))


def is_strlike(t):
    return is_str(t) or (t.k == "app" and (t.a[0] in ("concat", "str", "strfmt", "fmt", "m:strftime", "os.path.join") or (
        t.a[0] == "sl" and is_strlike(t.a[1][0])))) or (
        t.k == "ite" and is_strlike(t.a[1]) and is_strlike(t.a[2]))


def simplify_pc(pc, limit=200):
    """Drop a path condition that is a tautology by case distinction."""
    from .equiv import Facts, pick_any
    budget = [limit]

    def taut(t, f):
        budget[0] -= 1
        if budget[0] < 0:
            return False
        t = f.simplify(t)
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        c = t.a[0] if t.k == "ite" else t
        for v in (True, False):
            g = f.add(c, v)
            if g is not None and not taut(t, g):
                return False
        return True
    return TRUE if taut(pc, Facts()) else pc


def tautology(t, limit=4000):
    """Decide by Shannon expansion (a truth value whose tests are all independent or repeated)."""
    left = [limit]
    seen = {}

    def go(t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t in seen:
            return seen[t]
        left[0] -= 1
        if left[0] < 0:
            return False
        c = t
        while c.k == "ite" or (c.k == "truth" and c.a[0].k == "ite"):
            c = c.a[0]
        seen[t] = r = c is not t and go(subst(t, {c: TRUE})) and go(subst(t, {c: FALSE}))
        return r
    return go(t)


def npow(a, b):
    k = as_number(b)
    if k is not None:
        return power(a, k)
    if as_number(a) is not None and as_number(a) == 1:
        return num(1)
    return app("pow", a, b)


def fold2(name, x, y, f):
    a, b = as_number(x), as_number(y)
    if a is not None and b is not None and b != 0:
        return num(f(a, b))
    return app(name, x, y)


def ins_mem(mem, i, v):
    if mem.k == "ite":
        return ite(mem.a[0], ins_mem(mem.a[1], i, v), ins_mem(mem.a[2], i, v))
    if mem.k == "store":
        d = cdiff(mem.a[1], i)
        if d is not None:
            return store(ins_mem(mem.a[0], i, v), mem.a[1] if d < 0 else add(mem.a[1], num(1)), mem.a[2])
    return mk("ins", mem, i, v)


def del_mem(mem, i):
    if mem.k == "ite":
        return ite(mem.a[0], del_mem(mem.a[1], i), del_mem(mem.a[2], i))
    if mem.k == "store":
        d = cdiff(mem.a[1], i)
        if d == 0:
            return del_mem(mem.a[0], i)
        if d is not None:
            return store(del_mem(mem.a[0], i), mem.a[1] if d < 0 else sub(mem.a[1], num(1)), mem.a[2])
    if mem.k == "ins" and cdiff(mem.a[1], i) == 0:
        return mem.a[0]
    return mk("del", mem, i)


REBUILD["ins"] = ins_mem
REBUILD["del"] = del_mem
REBUILD["arr"] = lambda n, d, b: mk("arr", n, d, b)


# ------------------------------------------------------------------ loops
def push_delta(nxt, mu):
    """nxt - mu when nxt is a (conditional) increment of mu, else None."""
    if nxt.k == "ite":
        a, b = push_delta(nxt.a[1], mu), push_delta(nxt.a[2], mu)
        if a is None or b is None or contains(nxt.a[0], lambda x: x is mu):
            return None
        return ite(nxt.a[0], a, b)
    if nxt.k in ("c", "tup", "store", "ins", "del", "dct", "ref", "unk", "arr"):
        return None
    d = sub(nxt, mu)
    if contains(d, lambda x: x is mu):
        return None
    return d


def clock_step(nxt, mu):
    """nxt - mu for a number carried by a loop, branch by branch, else None."""
    if nxt.k == "ite":
        a, b = clock_step(nxt.a[1], mu), clock_step(nxt.a[2], mu)
        return None if a is None or b is None else ite(nxt.a[0], a, b)
    if nxt.k in ("c", "tup", "store", "ins", "del", "dct", "ref", "unk", "arr"):
        return None
    return sub(nxt, mu)


def upward(d, mus):
    """The direction in which most of the steps' terms move a clock: 1, -1 or 0."""
    score, seen, todo = 0, set(), [d]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "ite":
            todo += x.a[1:]
        else:
            score += sum(1 if c > 0 else -1 for m, c in poly(x).items() if not any(y in mus for y, _e in m))
    return (score > 0) - (score < 0)


def bool_or(t, mu):
    """t is a truth value, or mu, on every branch."""
    if t.k == "ite":
        return bool_or(t.a[1], mu) and bool_or(t.a[2], mu)
    return t is mu or is_bool(t)


def conjuncts(c):
    if c.k == "ite" and c.a[2] is FALSE:
        return conjuncts(c.a[0]) + conjuncts(c.a[1])
    if c.k == "ite" and c.a[1] is FALSE and c.a[2] is not TRUE:
        return conjuncts(not_(c.a[0])) + conjuncts(c.a[2])
    return [c] if c.k in TT.BOOLK else []


def make_loop(kind, uid, iv, n, cond, init, nxt, lens, events):
    """Canonicalise the loop and compute the values after it."""
    mus = {k: mk("mu", uid, k) for k in init}
    allmu = set(mus.values())

    def dep(t):
        return {x for x in subterms(t) if x in allmu}

    ev = list(events or [])
    leave = FALSE
    if kind == "for" and "$brk" in nxt:
        leave = subst(or_(nxt["$brk"], nxt.get("$raise", FALSE)), {mus[k]: FALSE for k in init if k[0] == "$" and k != "$val"})
        leave = TRUE if tautology(leave) else leave
    if leave is TRUE:
        # the first iteration always leaves the loop
        m = {mus[k]: init[k] for k in init}
        m[iv] = num(0)
        some = less(num(0), n, True)
        vals = {k: ite(some, subst(nxt[k], m), init[k]) for k in init}
        return {"vals": vals, "loop": None, "events": [], "once": [(and_(some, subst(p, m)), subst(t, m)) for p, t in ev]}
    # ---- names without a value before the loop that no iteration reads before it sets them
    for k in init:
        if init[k].k == "unk" and str(init[k].a[0]).startswith("undef"):
            if not any(contains(t, lambda x: x is mus[k]) for t in
                       [v for q, v in nxt.items() if q != k] + [cond] + [y for pt in ev for y in pt]):
                init[k] = app("uninit")
    if kind == "while":
        # ---- truth values carried by the loop, and what its condition says inside the body
        flags = {mus[k]: mk("truth", mus[k]) for k in init
                 if not k.startswith("m:") and is_bool(init[k]) and bool_or(nxt[k], mus[k])}
        inside = {c: TRUE for c in conjuncts(cond)}
        for k in nxt:
            nxt[k] = subst(subst(nxt[k], flags), inside)
        ev = [(subst(subst(p, flags), inside), subst(subst(t, flags), inside)) for p, t in ev]
    if kind == "while" and "$brk" in nxt and "$ret" not in nxt:
        r = break_first(mus, cond, nxt, ev)
        if r is not None:
            cond, nxt, ev = r
            init = {k: v for k, v in init.items() if k != "$brk"}
    # ---- counting while loop -> for loop
    if kind == "while":
        for k in list(init):
            if k.startswith("m:") or k == "$brk":
                continue
            d = push_delta(nxt[k], mus[k])
            step = as_number(d) if d is not None else None
            if step not in (1, -1):
                continue
            trip = trip_count(cond, mus[k], init[k], step, allmu)
            if trip is None:
                continue
            m = {mus[k]: add(init[k], mul(num(step), iv))}
            kind, n = "for", trip
            final = add(init[k], mul(num(step), TT.tmax([num(0), trip]) if False else trip))
            mname = k
            nxt = {q: subst(v, m) for q, v in nxt.items() if q != k}
            ev = [(subst(p, m), subst(t, m)) for p, t in ev]
            cond = TRUE
            vals0 = {k: final}
            init = {q: v for q, v in init.items() if q != k}
            break
        else:
            vals0 = {}
    else:
        vals0 = {}
    vals = dict(vals0)
    clocks = {}
    if kind == "while":
        # ---- a clock that counts from a start value to an end is measured from its start
        for k in init:
            if k.startswith(("m:", "$")) or dep(cond) != {mus[k]} or dep(init[k]):
                continue
            d = clock_step(nxt[k], mus[k])
            up = upward(d, allmu) if d is not None else 0
            if not up or (up > 0 and init[k] is num(0)):
                continue
            m = {mus[k]: add(init[k], mul(num(up), mus[k]))}
            clocks[k] = (init[k], up)
            nxt = {q: subst(mul(num(up), d) if q == k else v, m) for q, v in nxt.items()}
            nxt[k] = add(mus[k], nxt[k])
            ev = [(subst(p, m), subst(t, m)) for p, t in ev]
            cond = subst(cond, m)
            init = {q: num(0) if q == k else v for q, v in init.items()}
    live = dict(init)
    loops = {}

    # ---- a variable that always mirrors one layer value
    derived = {}
    for k in list(live):
        v0 = init[k]
        if k.startswith(("m:", "$")) or not contains(v0, lambda x: x.k == "app" and x.a[0] == "read"):
            continue
        for q in [q for q in live if q.startswith("m:")]:
            at = {x.a[1] for x in subterms(nxt[q]) if x.k == "store" and x.a[0] is mus[q]}
            at |= {x.a[1] for x in subterms(nxt[q]) if x.k == "store" and x.a[0].k in ("ins", "del")}
            i = next((i for i in sorted(at, key=lambda t: t.uid) if not dep(i) and iv not in subterms(i)
                      and read(init[q], i) is v0), None)
            if i is None and v0.k == "app" and v0.a[0] == "read" and v0.a[1][0] is init[q]:
                i = v0.a[1][1]
            if i is None:
                continue
            m = {mus[k]: read(mus[q], i)}
            if subst(nxt[k], m) is read(subst(nxt[q], m), i):
                derived[k] = (q, i)
                live.pop(k)
                nxt.pop(k)
                nxt = {x: subst(v, m) for x, v in nxt.items()}
                cond = subst(cond, m)
                ev = [(subst(p, m), subst(t, m)) for p, t in ev]
                break
    changed = True
    if kind == "for" and "$brk" not in live:
        # ---- variables recomputed from scratch each iteration are not loop-carried
        # ---- pointwise layer updates: every access is at the current index
        mems = [k for k in live if k.startswith("m:")]
        if mems:
            idxs = set()
            ok = True
            roots = [nxt[k] for k in live] + [t for p, t in ev] + [p for p, t in ev]
            memmu = {mus[k]: k for k in mems}
            seen = set()
            writes = {}
            for k in mems:
                w = store_index(nxt[k], mus[k])
                if w is None:
                    ok = False
                    break
                idxs |= w
            if ok and len(idxs) == 1:
                (idx,) = idxs
                lo = subst(idx, {iv: num(0)})
                if as_number(sub(idx, add(lo, iv))) != 0 or dep(idx):
                    ok = False
            else:
                ok = False
            if ok:
                # all uses of memory mus must be read(mu, idx) or the store spine
                for r in roots:
                    if not only_reads_at(r, memmu, idx):
                        ok = False
                        break
                # invariants of the mus in other positions (e.g. carried list lengths) are fine
            if ok:
                m = {}
                for k in mems:
                    m[app_read(mus[k], idx)] = read(init[k], idx)
                for k in mems:
                    val = spine_value(nxt[k], mus[k], idx)
                    nxt[k] = subst(val, m)
                for k in live:
                    if k not in mems:
                        nxt[k] = subst(nxt[k], m)
                ev = [(subst(p, m), subst(t, m)) for p, t in ev]
                # scalar mus may not feed the stored values
                bad = any(dep(nxt[k]) for k in mems)
                if bad:
                    # keep as ordinary loop: rebuild stores
                    for k in mems:
                        nxt[k] = store(mus[k], idx, nxt[k])
                else:
                    ln = {lens.get(k) for k in mems}
                    total = ln.pop() if len(ln) == 1 else None
                    for k in mems:
                        body = nxt.pop(k)
                        live.pop(k)
                        j = fresh("p")
                        at = subst(body, {iv: sub(j, lo)})
                        if total is None:
                            total_k = lens.get(k) or sym("N?")
                        else:
                            total_k = total
                        c = TRUE
                        if as_number(lo) != 0:
                            c = and_(c, less(lo, j, False))
                        if as_number(sub(add(lo, n), total_k)) != 0:
                            c = and_(c, less(j, add(lo, n), True))
                        vals[k] = arr(total_k, j, ite(c, at, read(init[k], j)))
    progress_ = True
    while progress_:
        progress_ = False
        for k in list(live):
            if nxt[k] is mus[k]:
                vals[k] = init[k]
                live.pop(k)
                m = {mus[k]: init[k]}
                nxt.pop(k)
                nxt = {q: subst(v, m) for q, v in nxt.items()}
                cond = subst(cond, m)
                ev = [(subst(p, m), subst(t, m)) for p, t in ev]
                progress_ = True
                break
            if kind == "for" and "$brk" not in live:
                # appends -> array / filtered array
                r = append_form(nxt[k], mus[k])
                if r is not None and init[k].k == "tup" and not init[k].a and not (dep(r[0]) | dep(r[1])):
                    c, x = r
                    v = arr(n, iv, x) if c is TRUE else app("filt", arr(n, iv, mk("tup", c, x)))
                    rest = [(p, t) for p, t in ev if t.k != "app" or t.a[0] != "append" or t.a[1][0] is not mus[k]]
                    if not used_elsewhere(k, mus, nxt, rest, cond):
                        ev = rest
                        vals[k] = v
                        live.pop(k)
                        nxt.pop(k)
                        progress_ = True
                        break
                d = push_delta(nxt[k], mus[k]) if not k.startswith("m:") else None
                if d is not None and not dep(d) and d.k not in ("unk",):
                    try:
                        vals[k] = add(init[k], summ(n, iv, d))
                        at = fresh("q")
                        cur = add(init[k], summ(iv, at, subst(d, {iv: at})))
                    except TooBig:
                        continue
                    live.pop(k)
                    nxt.pop(k)
                    if any(contains(v, lambda x: x is mus[k]) for v in nxt.values()) or any(
                            contains(t, lambda x: x is mus[k]) for p, t in ev):
                        m = {mus[k]: cur}
                        nxt = {q: subst(v, m) for q, v in nxt.items()}
                        ev = [(subst(p, m), subst(t, m)) for p, t in ev]
                    progress_ = True
                    break
    # ---- result: every outcome keeps only the loop-carried state it depends on
    nn = n if n is not None else num(0)

    def sliced(roots):
        need = []
        todo = list(roots)
        if kind == "while":
            todo.append(cond)
        if "$brk" in live:
            need.append("$brk")
            todo.append(nxt["$brk"])
        bymu = {mus[k]: k for k in live}
        seen = set()
        while todo:
            for x in subterms(todo.pop()):
                if x in seen:
                    continue
                seen.add(x)
                k = bymu.get(x)
                if k is not None and k not in need:
                    need.append(k)
                    todo.append(nxt[k])
        defs = [mk("mudef", k, mus[k], init[k], nxt[k]) for k in sorted(need)]
        return mk("loop", kind, iv, nn, cond, *defs)

    for k in live:
        vals[k] = mk("out", sliced([mus[k]]), k)
    for k, (start, up) in clocks.items():
        vals[k] = add(start, mul(num(up), vals[k]))
    for k, (q, i) in derived.items():
        vals[k] = read(vals[q], i)
    L = sliced([t for pt in ev for t in pt])
    return {"vals": vals, "loop": L, "events": ev, "sliced": sliced}


def chosen_by(i):
    """The index is a condition per element or an array of positions."""
    return i.k == "arr" or i.k in TT.BOOLK or i.k == "ite" and any(x in (TRUE, FALSE) for x in i.a[1:])


def numeric_array(t):
    """A value made by numpy, or a part of one chosen by a slice or a condition: iteration gives its rows."""
    if t.k == "ite":
        return numeric_array(t.a[1]) and numeric_array(t.a[2])
    if t.k != "app":
        return False
    if t.a[0] == "sl" or t.a[0] == "idx" and chosen_by(t.a[1][1]):
        return numeric_array(t.a[1][0])
    return t.a[0] in ("numpy.linspace", "numpy.arange", "numpy.full_like", "numpy.array", "numpy.asarray", "numpy.unique")


def app_read(mem, idx):
    return mk("app", "read", (mem, idx))


def used_elsewhere(k, mus, nxt, ev, cond):
    mu = mus[k]
    return any(contains(v, lambda x: x is mu) for q, v in nxt.items() if q != k) or any(
        contains(t, lambda x: x is mu) for p, t in ev) or contains(cond, lambda x: x is mu)


def break_first(mus, cond, nxt, ev):
    """A loop that is left before anything else happens in a pass: the break belongs to its condition."""
    from .equiv import Comparer, Facts, holds
    off = {mus["$brk"]: FALSE, mk("truth", mus["$brk"]): FALSE}
    b = subst(nxt["$brk"], off)
    if b is FALSE or b is TRUE:
        return None
    go = subst(cond, off)
    f = holds(Facts(), go)
    f = holds(f, b) if f is not None else None
    if f is None or not f.t:
        return None
    nxt = {k: subst(v, off) for k, v in nxt.items() if k != "$brk"}
    ev = [(subst(p, off), subst(t, off)) for p, t in ev]
    if any(f.simplify(v) is not mus[k] and Comparer(500).compare(v, mus[k], f) is not True for k, v in nxt.items()) or any(f.simplify(p) is not FALSE for p, _t in ev):
        return None
    go = and_(go, not_(b))
    f = holds(Facts(), go)
    if f is None:
        return None
    return go, {k: f.simplify(v) for k, v in nxt.items()}, [(f.simplify(p), f.simplify(t)) for p, t in ev]


def append_form(nxt, mu):
    if nxt.k == "app" and nxt.a[0] == "append" and nxt.a[1][0] is mu:
        return TRUE, nxt.a[1][1]
    if nxt.k == "ite":
        a, b = nxt.a[1], nxt.a[2]
        if b is mu:
            r = append_form(a, mu)
            return None if r is None else (and_(nxt.a[0], r[0]), r[1])
        if a is mu:
            r = append_form(b, mu)
            return None if r is None else (and_(not_(nxt.a[0]), r[0]), r[1])
        r, q = append_form(a, mu), append_form(b, mu)
        if r is not None and q is not None:
            return ite(nxt.a[0], r[0], q[0]), ite(nxt.a[0], r[1], q[1])
    return None


def store_index(t, mu):
    """Indices written on the store spine from mu to t, or None."""
    if t is mu:
        return set()
    if t.k == "store":
        r = store_index(t.a[0], mu)
        return None if r is None else r | {t.a[1]}
    if t.k == "ite":
        a, b = store_index(t.a[1], mu), store_index(t.a[2], mu)
        return None if a is None or b is None else a | b
    return None


def spine_value(t, mu, idx):
    if t is mu:
        return app_read(mu, idx)
    if t.k == "store":
        return t.a[2]
    return ite(t.a[0], spine_value(t.a[1], mu, idx), spine_value(t.a[2], mu, idx))


def only_reads_at(t, memmu, idx):
    """Memory mus occur only as read(mu, idx) or as the base of a store spine."""
    seen = set()
    st = [t]
    spine = [t]
    # peel the spine
    stack = [t]
    todo = []
    while stack:
        x = stack.pop()
        if x in memmu:
            continue
        if x.k == "store":
            stack.append(x.a[0])
            todo.append(x.a[2])
            todo.append(x.a[1])
        elif x.k == "ite" and any(y.k in ("store", "mu") or y.k == "ite" for y in x.a[1:]) and spineish(x, memmu):
            stack += [x.a[1], x.a[2]]
            todo.append(x.a[0])
        else:
            todo.append(x)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in memmu:
            return False
        if x.k == "app" and x.a[0] == "read" and x.a[1][0] in memmu:
            if x.a[1][1] is not idx:
                return False
            continue
        todo.extend(children(x))
    return True


def spineish(t, memmu):
    if t in memmu:
        return True
    if t.k == "store":
        return spineish(t.a[0], memmu)
    if t.k == "ite":
        return spineish(t.a[1], memmu) and spineish(t.a[2], memmu)
    return False


def trip_count(cond, mu, init, step, allmu):
    """Number of iterations of `while cond` with counter mu, if cond is a bound on mu."""
    pos = True
    c = cond
    if c.k == "ite" and c.a[1] is FALSE and c.a[2] is TRUE:
        pos = False
        c = c.a[0]
    if c.k not in ("lt", "le"):
        return None
    p = poly(c.a[0])
    q = p.get(((mu, 1),))
    if q is None:
        return None
    rest = from_poly({m: k for m, k in p.items() if m != ((mu, 1),)})
    if contains(rest, lambda x: x in allmu):
        return None
    # base = q*mu + rest (<|<=) k   <=> q*(mu - B) (<|<=) 0
    B = div(sub(num(c.a[1]), rest), num(q))
    strict = c.k == "lt"
    if not pos:
        q, strict = -q, not strict
    # q>0: mu < B or mu <= B ; q<0: mu > B or mu >= B
    if q > 0 and step == 1:
        r = sub(B, init)
    elif q < 0 and step == -1:
        r = sub(init, B)
    else:
        return None
    return r if strict else add(r, num(1))


def chosen(op, v, args):
    """A selection; the n-th entry of a coordinate is an element of it."""
    if op == "m:isel" and len(args) == 1 and args[0].k == "kw" and v.k == "app" and v.a[0] == "." and v.a[1][1] is args[0].a[0]:
        return app("idx", v, args[0].a[1])
    return app(op, v, *args)


# ------------------------------------------------------------------ externals
PURE_METHODS = {"sel", "isel", "isnull", "where", "mean", "sum", "min", "max", "strftime", "total_seconds", "any", "all",
                "round", "to_array", "get", "items", "keys", "values", "split", "replace", "upper", "lower", "strip",
                "startswith", "endswith", "ravel", "reshape", "flatten", "squeeze", "argmin", "argmax", "head", "tail",
                "subtract", "diff", "resample", "rolling", "std", "var", "cumsum", "transpose", "astype", "tolist",
                "copy", "item", "index", "count", "isoformat", "timestamp", "days", "seconds", "date", "fillna",
                "dropna", "interp", "to_pandas", "to_dataframe", "notnull", "rename", "format", "join", "get_loc",
                "exists", "is_file", "is_dir", "duplicated", "isin", "loc", "iloc", "query", "searchsorted", "dot"}
PURE_EXT = {"len", "str", "int", "float", "bool", "isinstance", "type", "sorted", "pandas.to_datetime", "pandas.DataFrame",
            "xarray.Dataset", "xarray.DataArray", "os.path.join", "os.path.exists", "os.path.isfile", "datetime.datetime.now",
            "pandas.read_csv", "xarray.open_dataset", "itertools.product", "range", "enumerate", "zip", "list", "dict",
            "tuple", "set", "round", "any", "all", "hasattr", "pandas.concat", "repr", "id", "iter", "next", "map",
            "filter", "reversed", "os.path.basename", "os.path.dirname", "pathlib.Path", "scipy.spatial.cKDTree",
            "datetime.datetime.strptime", "os.environ.get", "os.getcwd", "datetime.timedelta"}
FILE_ERRORS = {"FileNotFoundError", "OSError", "IOError", "PermissionError", "EnvironmentError"}
FILE_CALLS = {"open", "xarray.open_dataset", "xarray.open_mfdataset", "xarray.load_dataset", "pandas.read_csv", "numpy.loadtxt",
              "numpy.genfromtxt", "netCDF4.Dataset", "os.makedirs", "os.mkdir", "os.remove", "os.listdir", "os.chdir", "m:open"}
EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


@ext("float", "numpy.float64", "numpy.float32")
def _float(I, args, kw, st):
    if not args:
        return num(0)
    v = args[0]
    d = I.deref(v, st)
    if d.k == "tup" and len(d.a) == 1:
        return d.a[0]
    if is_str(d):
        s = cval(d)
        try:
            return const(float(s))
        except ValueError:
            return None
    if is_bool(d):
        return ite(d, num(1), num(0))
    return d


def cast(v, dtype):
    """Values stored with the given type: unchanged for double precision, otherwise rounded or truncated."""
    if dtype is None or dtype is NONE:
        return v
    name = dtype.a[0] if dtype.k == "ext" else cval(dtype) if is_str(dtype) else None
    if name is None:
        return app("cast", v, dtype)
    name = name.split(".")[-1].rstrip("_")
    name = {"f4": "float32", "f8": "float64", "i4": "int", "i8": "int", "int64": "int", "int32": "int", "f2": "float16",
            "half": "float16", "single": "float32", "intp": "int", "bool8": "bool"}.get(name, name)
    if name in ("float", "float64", "double", "longdouble", "object"):
        return v
    if name in ("float32", "float16"):
        return app("rounded", v, const(name))
    if name.startswith(("int", "uint")):
        return app("int", v)
    return app("cast", v, dtype)


def typed(f, pos):
    """Array creation with the element type as keyword or at the given position."""
    def g(I, args, kw, st):
        kw = dict(kw)
        t = kw.pop("dtype", None)
        if t is None and len(args) > pos:
            t, args = args[pos], args[:pos]
        r = f(I, args, kw, st)
        if t is None or r is None or cast(num(0), t) is num(0):
            return r
        o = I.obj(st, r)
        if o is not None and o.kind == "arr":
            v = o.f["v"]
            return I.new(st, "arr", v=mk("arr", v.a[0], v.a[1], cast(v.a[2], t)) if v.k == "arr" else cast(v, t))
        return cast(r, t)
    return g


@ext("numpy.float32")
def _float32(I, args, kw, st):
    return cast(I.deref(args[0], st), const("float32"))


@ext("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.squeeze")
def _asarray(I, args, kw, st):
    o = I.obj(st, args[0])
    if o is not None and o.kind == "arr":
        return args[0]
    v = I.deref(args[0], st)
    if v.k == "tup" and len(v.a) == 1:
        v = v.a[0]
    return v


@ext("numpy.array", "numpy.copy")
def _array(I, args, kw, st):
    v = I.deref(args[0], st)
    if v.k in ("tup", "arr", "out", "app", "ite", "sym", "mu"):
        return I.new(st, "arr", v=v)
    return v


@ext("numpy.arange")
def _arange(I, args, kw, st):
    a = [I.deref(x, st) for x in args]
    if kw or len(a) > 3:
        return None
    lo, hi = (num(0), a[0]) if len(a) == 1 else a[:2]
    step = a[2] if len(a) == 3 else num(1)
    j = fresh("a")
    return I.new(st, "arr", v=arr(trips(lo, hi, step), j, add(lo, mul(step, j))))


@ext("numpy.zeros", "numpy.ones", "numpy.empty")
def _zeros(I, args, kw, st):
    return None


def filled(val):
    def f(I, args, kw, st):
        n = I.deref(args[0] if args else kw["shape"], st)
        if n.k == "tup":
            if len(n.a) != 1:
                return I.new(st, "arr", v=app("full", n, val))
            n = n.a[0]
        j = fresh("z")
        return I.new(st, "arr", v=arr(n, j, val))
    return f


EXT["numpy.zeros"] = filled(num(0))


@ext("numpy.flipud")
def _flipud(I, args, kw, st):
    return I.get_item(args[0], mk("slice", NONE, NONE, num(-1)), st)


@ext("numpy.fliplr")
def _fliplr(I, args, kw, st):
    return I.get_item(args[0], mk("tup", mk("slice", NONE, NONE, NONE), mk("slice", NONE, NONE, num(-1))), st)


EXT["numpy.ones"] = filled(num(1))


def filled_like(val):
    def f(I, args, kw, st):
        kw = dict(kw)
        v = I.deref(args[0] if args else kw.get("a", kw.get("prototype")), st)
        x = val
        if x is None:
            x = I.deref(args[1] if len(args) > 1 else kw["fill_value"], st)
        if v.k == "arr":
            return I.new(st, "arr", v=arr(v.a[0], fresh("z"), x))
        return I.new(st, "arr", v=app("full", app(".", v, const("shape")), x))
    return f


EXT["numpy.zeros_like"] = filled_like(num(0))
EXT["numpy.ones_like"] = filled_like(num(1))
EXT["numpy.empty_like"] = filled_like(app("uninit"))
EXT["numpy.full_like"] = filled_like(None)


@ext("numpy.full")
def _full(I, args, kw, st):
    n = I.deref(args[0] if args else kw["shape"], st)
    v = I.deref(args[1] if len(args) > 1 else kw["fill_value"], st)
    if n.k == "tup" and len(n.a) == 1:
        n = n.a[0]
    if n.k == "S" or as_number(n) is not None or (n.k == "app" and n.a[0] in ("len", "int", "after")):
        return I.new(st, "arr", v=arr(n, fresh("z"), v))
    return I.new(st, "arr", v=app("full", n, v))


for _n, _pos in [("array", 1), ("asarray", 1), ("full", 2), ("zeros", 1), ("ones", 1), ("empty", 1), ("empty_like", 1),
                 ("zeros_like", 1), ("ones_like", 1), ("full_like", 2)]:
    EXT["numpy." + _n] = typed(EXT["numpy." + _n], _pos)


@ext("len")
def _len(I, args, kw, st):
    return I.length(args[0], st)


@ext("range")
def _range(I, args, kw, st):
    a = [I.deref(x, st) for x in args]
    if len(a) == 1:
        return app("range", num(0), a[0], num(1))
    if len(a) == 2:
        return app("range", a[0], a[1], num(1))
    return app("range", *a)


@ext("enumerate")
def _enumerate(I, args, kw, st):
    s = args[1] if len(args) > 1 else kw.get("start", num(0))
    return app("enumerate", I.deref_shallow(args[0], st), s)


@ext("zip")
def _zip(I, args, kw, st):
    return app("zip", *[I.deref_shallow(a, st) for a in args])


@ext("reversed")
def _reversed(I, args, kw, st):
    return app("reversed", I.deref_shallow(args[0], st))


@ext("itertools.product")
def _product(I, args, kw, st):
    if kw:
        return None
    return app("itertools.product", *[I.deref_shallow(a, st) for a in args])


def minmax(I, args, kw, st, f, name):
    if len(args) == 1:
        v = I.deref(args[0], st)
        if v.k == "tup" and v.a:
            return f(list(v.a))
        if v.k == "ite":
            return ite(v.a[0], minmax(I, [v.a[1]], kw, st, f, name), minmax(I, [v.a[2]], kw, st, f, name))
        return app("a" + name, v)
    return I.lift2(lambda x, y: f([x, y]), args[0],
                   args[1] if len(args) == 2 else minmax(I, args[1:], kw, st, f, name), st)


@ext("min")
def _min(I, args, kw, st):
    if kw:
        return None
    return minmax(I, args, kw, st, tmin, "min")


@ext("max")
def _max(I, args, kw, st):
    if kw:
        return None
    return minmax(I, args, kw, st, tmax, "max")


@ext("numpy.minimum", "numpy.fmin")
def _nmin(I, args, kw, st):
    return I.lift2(lambda x, y: tmin([x, y]), args[0], args[1], st)


@ext("numpy.maximum", "numpy.fmax")
def _nmax(I, args, kw, st):
    return I.lift2(lambda x, y: tmax([x, y]), args[0], args[1], st)


@ext("numpy.clip")
def _clip(I, args, kw, st):
    x = args[0]
    lo = args[1] if len(args) > 1 else kw.get("a_min", NONE)
    hi = args[2] if len(args) > 2 else kw.get("a_max", NONE)
    if lo is not NONE:
        x = I.lift2(lambda a, b: tmax([a, b]), x, lo, st)
    if hi is not NONE:
        x = I.lift2(lambda a, b: tmin([a, b]), x, hi, st)
    return x


def root_call(I, name, f, x0, rest, opts, st):
    """A numerical search over the first argument of a function of the repository."""
    v = fresh("T")
    if rest.k == "tup":
        rest = list(rest.a)
    else:
        items = I.known_items(rest, st)
        if items is None:
            return None
        rest = items
    s2 = st.copy(TRUE)
    ev0, p0, I.events, I.pending = I.events, I.pending, [], []
    try:
        val = I.deref(I.call(f, [app("real", v)] + rest, {}, s2), s2)
    finally:
        I.events, I.pending = ev0, p0
    fun = arr(app("reals"), v, val)
    t = app(name, fun, I.deref(x0, st), *[mk("kw", const(k), I.snap(opts[k], st)) for k in sorted(opts)])
    if I.extlog is not None:
        I.extlog.append(t)
    return t


@ext("scipy.optimize.newton", "scipy.optimize.minimize")
def _newton(I, args, kw, st, name=None):
    kw = dict(kw)
    names = ["func", "x0", "fprime", "args", "tol", "maxiter"] if name is None and len(args) else []
    if len(args) != 2 or "args" not in kw:
        return None
    rest = kw.pop("args")
    which = "minimize" if "method" in kw else "newton"
    return root_call(I, which, args[0], args[1], I.deref_shallow(rest, st), kw, st)


def secant_stub(I, st, fn, b):
    b = dict(b)
    f, x0, rest = b.pop("func"), b.pop("x0"), b.pop("args")
    return root_call(I, "secant", f, x0, I.deref_shallow(rest, st), b, st)


@ext("numpy.min", "numpy.amin")
def _npmin(I, args, kw, st):
    if kw or len(args) != 1:
        return None
    return minmax(I, args, kw, st, tmin, "min")


@ext("numpy.max", "numpy.amax")
def _npmax(I, args, kw, st):
    if kw or len(args) != 1:
        return None
    return minmax(I, args, kw, st, tmax, "max")


@ext("sum", "numpy.sum")
def _sum(I, args, kw, st):
    if kw:
        return None
    r = I.total(args[0], st)
    if len(args) > 1:
        r = add(r, I.deref(args[1], st))
    return r


def ones(x):
    """Truth values count as one and zero in sums."""
    return ite(x, num(1), num(0)) if is_bool(x) else x


@ext("numpy.count_nonzero")
def _count(I, args, kw, st):
    v = I.deref(args[0], st)
    if kw or len(args) != 1 or v.k != "arr":
        return None
    j = fresh("t")
    x = arr_at(v, j)
    return summ(v.a[0], j, ones(x)) if is_bool(x) else None


@ext("abs", "numpy.abs", "numpy.absolute", "numpy.fabs")
def _abs(I, args, kw, st):
    def f(x):
        n = as_number(x)
        if n is not None:
            return num(abs(n))
        p, q = (x, neg(x))
        # canonical orientation
        lead = sorted(poly(x).items(), key=lambda mc: TT._mkey(mc[0]))[-1][1]
        if lead < 0:
            p, q = q, p
        return ite(less(p, num(0), True), q, p)
    return I.lift1(f, args[0], st)


def fn1(name, f=None):
    def h(I, args, kw, st):
        return I.lift1(f or (lambda x: app(name, x)), args[0], st)
    return h


EXT["numpy.exp"] = fn1("exp", TT.exp)
EXT["numpy.log"] = fn1("log", lambda x: num(0) if as_number(x) == 1 else app("log", x))
EXT["numpy.log10"] = fn1("log10")
EXT["numpy.sqrt"] = fn1("sqrt", lambda x: power(x, Fraction(1, 2)))
EXT["numpy.square"] = fn1("square", lambda x: power(x, 2))


def canon_sign(x):
    if x.k != "n":
        return x
    lead = sorted(poly(x).items(), key=lambda mc: TT._mkey(mc[0]))[-1][1]
    return neg(x) if lead < 0 else x


def odd(name, x):
    if as_number(x) == 0:
        return num(0)
    lead = sorted(poly(x).items(), key=lambda mc: TT._mkey(mc[0]))[-1][1]
    if lead < 0:
        return neg(app(name, neg(x)))
    return app(name, x)


def cosine(x):
    return num(1) if as_number(x) == 0 else app("cos", canon_sign(x))


REAPP["cos"] = cosine
EXT["numpy.cos"] = fn1("cos", cosine)
for _n in ("sin", "tan", "tanh", "sinh", "arctan", "arcsin"):
    REAPP[_n] = functools.partial(odd, _n)
    EXT["numpy." + _n] = fn1(_n, REAPP[_n])
EXT["numpy.arccos"] = fn1("arccos")
EXT["numpy.radians"] = EXT["numpy.deg2rad"] = fn1("radians", lambda x: mul(x, div(sym("pi"), num(180))))
EXT["numpy.degrees"] = EXT["numpy.rad2deg"] = fn1("degrees", lambda x: mul(x, div(num(180), sym("pi"))))
EXT["numpy.negative"] = fn1("neg", neg)
EXT["numpy.isnan"] = fn1("isnan", lambda x: mk("truth", app("isnan", x)))
EXT["numpy.isfinite"] = fn1("isfinite", lambda x: mk("truth", app("isfinite", x)))




def fn2(f):
    def h(I, args, kw, st):
        if len(args) != 2 or kw:
            return None
        return I.lift2(f, args[0], args[1], st)
    return h


EXT["numpy.add"] = fn2(add)
EXT["numpy.subtract"] = fn2(sub)
EXT["numpy.multiply"] = fn2(mul)
EXT["numpy.divide"] = EXT["numpy.true_divide"] = fn2(div)
EXT["numpy.power"] = EXT["numpy.float_power"] = EXT["pow"] = fn2(npow)
EXT["numpy.logical_and"] = fn2(and_)
EXT["numpy.logical_or"] = fn2(or_)
EXT["numpy.logical_not"] = fn1("not", not_)
EXT["numpy.hypot"] = fn2(lambda x, y: power(add(power(x, 2), power(y, 2)), Fraction(1, 2)))
EXT["numpy.mod"] = fn2(lambda x, y: fold2("mod", x, y, lambda p, q: p % q))
EXT["numpy.floor_divide"] = fn2(lambda x, y: fold2("floordiv", x, y, lambda p, q: p // q))
EXT["operator.add"], EXT["operator.sub"], EXT["operator.mul"], EXT["operator.truediv"] = (
    EXT["numpy.add"], EXT["numpy.subtract"], EXT["numpy.multiply"], EXT["numpy.divide"])


@ext("numpy.where")
def _where(I, args, kw, st):
    if len(args) != 3 or kw:
        return None
    c, a, b = [I.deref(x, st) for x in args]
    if c.k == "arr":
        j = fresh("w")
        at = lambda v: arr_at(v, j) if v.k == "arr" else v
        return arr(c.a[0], j, ite(truth(at(c)), at(a), at(b)))
    if is_bool(c):
        return ite(c, a, b)
    return None


@ext("numpy.append")
def _append(I, args, kw, st):
    if len(args) != 2 or kw:
        return None
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    return I.new(st, "arr", v=cat(I, a, b))


def cat(I, a, b):
    if a.k == "ite":
        return ite(a.a[0], cat(I, a.a[1], b), cat(I, a.a[2], b))
    if b.k == "ite":
        return ite(b.a[0], cat(I, a, b.a[1]), cat(I, a, b.a[2]))
    def seq(v):
        if v.k == "arr":
            return v.a[0], lambda j: arr_at(v, j)
        if v.k == "tup":
            def at(j):
                r = v.a[-1] if v.a else app("uninit")
                for i in range(len(v.a) - 2, -1, -1):
                    r = ite(less(j, num(i + 1), True), v.a[i], r)
                return r
            return num(len(v.a)), at
        if v.k in ("n", "sym") or (v.k == "app" and v.a[0] in TT.ARITH):
            return num(1), lambda j: v
        return None, None
    na, fa = seq(a)
    nb, fb = seq(b)
    if na is None or nb is None or (a.k == "tup" and b.k == "tup"):
        if a.k == "tup" and b.k == "tup":
            return mk("tup", *(a.a + b.a))
        return app("npappend", a, b)
    j = fresh("x")
    if as_number(na) == 0:
        return arr(nb, j, fb(j))
    return arr(add(na, nb), j, ite(less(j, na, True), fa(j), fb(sub(j, na))))


@ext("numpy.concatenate", "numpy.hstack")
def _concatenate(I, args, kw, st):
    v = I.deref(args[0], st)
    if v.k != "tup" or not v.a or kw or len(args) > 1:
        return None
    r = v.a[0]
    for x in v.a[1:]:
        r = cat(I, r, x)
    return I.new(st, "arr", v=r)


@ext("numpy.diff")
def _diff(I, args, kw, st):
    v = I.deref(args[0], st)
    if v.k != "arr" or kw or len(args) > 1:
        return None
    j = fresh("d")
    return arr(sub(v.a[0], num(1)), j, sub(arr_at(v, add(j, num(1))), arr_at(v, j)))


@ext("numpy.cumsum")
def _cumsum(I, args, kw, st):
    v = I.deref(args[0], st)
    if v.k != "arr" or kw or len(args) > 1:
        return None
    j, q = fresh("d"), fresh("q")
    return arr(v.a[0], j, summ(add(j, num(1)), q, arr_at(v, q)))


def whole_part(v):
    if v.k == "ite":
        return ite(v.a[0], whole_part(v.a[1]), whole_part(v.a[2]))
    n = as_number(v)
    return app("int", v) if n is None else num(int(n))


@ext("int")
def _int(I, args, kw, st):
    v = I.deref(args[0], st) if args else num(0)
    n = as_number(v)
    if n is not None:
        return num(int(n))
    if is_str(v):
        try:
            return num(int(cval(v)))
        except ValueError:
            return None
    return whole_part(v)


@ext("str")
def _str(I, args, kw, st):
    v = I.deref(args[0], st) if args else const("")
    if is_strlike(v):
        return v
    if v.k == "c":
        return const(str(v.a[0].v))
    return app("str", v)


@ext("bool")
def _bool(I, args, kw, st):
    return I.truthv(args[0], st)


@ext("isinstance")
def _isinstance(I, args, kw, st):
    v = args[0]
    ty = I.deref(args[1], st)
    tys = ty.a if ty.k == "tup" else (ty,)
    names = [x.a[0] if x.k == "ext" else None for x in tys]
    d = I.deref(v, st)
    if is_strlike(d) or d in I.strings:
        return TRUE if "str" in names else (FALSE if all(names) else None)
    if d.k == "c" and isinstance(d.a[0].v, bool) and all(names):
        return const(any(n in ("bool", "int") for n in names))
    o = I.obj(st, v)
    if o is not None and all(names):
        if o.kind in ("list", "dict", "set"):
            return const(o.kind in names)
    if v.k == "tup" and all(names) and o is None:
        return const("tuple" in names)
    return mk("truth", app("isinstance", d, mk("tup", *sorted(tys, key=show))))


@ext("getattr")
def _getattr(I, args, kw, st):
    n = I.deref(args[1], st)
    if n.k == "ite":
        return ite(n.a[0], _getattr(I, [args[0], n.a[1]] + args[2:], kw, st),
                   _getattr(I, [args[0], n.a[2]] + args[2:], kw, st))
    if is_str(n):
        return I.get_attr(args[0], cval(n), st)
    return app("getattr", I.deref(args[0], st), n)


@ext("setattr")
def _setattr(I, args, kw, st):
    n = I.deref(args[1], st)
    if is_str(n):
        I.set_attr(args[0], cval(n), args[2], st)
        return NONE
    I.event(st, app("setattr", I.deref(args[0], st), n, I.deref(args[2], st)))
    return NONE


@ext("list", "tuple", "sorted", "set")
def _list(I, args, kw, st):
    return None


def _mklist(kind):
    def h(I, args, kw, st):
        if not args:
            return I.new(st, "list", v=mk("tup")) if kind != "tuple" else mk("tup")
        items = I.known_items(args[0], st)
        if kind == "sorted":
            if items is not None and len(items) == 1:
                return I.new(st, "list", v=mk("tup", *items))
            if items is not None and all(is_str(x) for x in items) and not kw:
                return I.new(st, "list", v=mk("tup", *sorted(items, key=cval)))
            rev = kw.get("reverse")
            return app("sorted", I.deref(args[0], st), *([mk("kw", const(k), I.deref(v, st)) for k, v in sorted(kw.items())]))
        if kind == "set":
            if items is not None:
                return I.new(st, "set", v=mk("tup", *dict.fromkeys(items)))
            return app("set", I.deref(args[0], st))
        if items is not None:
            return I.new(st, "list", v=mk("tup", *items)) if kind == "list" else mk("tup", *items)
        v = I.deref(args[0], st)
        if v.k == "app" and v.a[0] == "range":
            j = fresh("r")
            n, e = I.iteration(v, j, st)
            v = arr(n, j, e)
        return I.new(st, "list", v=v) if kind == "list" else v
    return h


for _k in ("list", "tuple", "sorted", "set"):
    EXT[_k] = _mklist(_k)


@ext("dict")
def _dict(I, args, kw, st):
    base = []
    if args:
        d = I.deref_shallow(args[0], st)
        if d.k == "dct":
            base = list(d.a)
        else:
            items = I.known_items(args[0], st)
            if items is None:
                return None
            base = [(x.a[0], x.a[1]) for x in items if x.k == "tup" and len(x.a) == 2]
    for k, v in kw.items():
        base = [(p, q) for p, q in base if p is not const(k)] + [(const(k), v)]
    return I.new(st, "dict", v=mk("dct", *base))


@ext("numba.typed.List.empty_list", "numba.typed.List")
def _emptynodes(I, args, kw, st):
    cls = None
    try:
        cls = I.repo.cls("cosipy.cpkernel.node.Node")
    except AnalysisError:
        pass
    f = {"len": num(0)}
    for x in node_fields(cls):
        f["m:" + x] = sym("mem:none")
    return I.new(st, "nodes", cls, **f)


def node_fields(cls):
    """Attributes a layer object is given by its constructor."""
    out = []
    if cls is None:
        return out
    init = cls.methods.get("__init__")
    if init is None:
        return out
    for x in ast.walk(init.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                and x.value.id == init.node.args.args[0].arg and x.attr not in out:
            out.append(x.attr)
    return out


@ext("functools.partial")
def _partial(I, args, kw, st):
    if kw:
        return None
    return app("partial", *args)


@ext("any", "numpy.any")
def _any(I, args, kw, st):
    if kw:
        return None
    v = I.deref(args[0], st)
    if v.k == "tup":
        r = FALSE
        for x in v.a:
            r = or_(r, I.truthv(x, st))
        return r
    return mk("truth", app("aany", v))


@ext("all", "numpy.all")
def _all(I, args, kw, st):
    if kw:
        return None
    v = I.deref(args[0], st)
    if v.k == "tup":
        r = TRUE
        for x in v.a:
            r = and_(r, I.truthv(x, st))
        return r
    return mk("truth", app("aall", v))


@ext("str.capitalize")
def _cap(I, args, kw, st):
    return app("m:capitalize", I.deref(args[0], st))


@ext("os.environ.get", "os.getenv")
def _getenv(I, args, kw, st):
    """A variable of the environment, or else the given value."""
    name = I.deref(args[0] if args else kw.get("key"), st)
    e = app("env", name)
    d = args[1] if len(args) > 1 else kw.get("default", NONE)
    return ite(eq(e, NONE), d, e)


@ext("collections.namedtuple")
def _namedtuple(I, args, kw, st):
    """The names of a table are its keys."""
    if len(args) != 2 or kw:
        return None
    d = I.deref(args[1], st)
    if d.k == "app" and d.a[0] == "m:keys" and len(d.a[1]) == 1:
        d = d.a[1][0]
    return app("collections.namedtuple", I.deref(args[0], st), d) if is_table(d) else None


@ext("pathlib.Path.cwd")
def _cwd(I, args, kw, st):
    return app("pathlib.Path", app("os.getcwd"))


@ext("shutil.copyfile")
def _copyfile(I, args, kw, st):
    """Copies of a file, with or without its times and permissions."""
    kw = {k: v for k, v in kw.items() if not (k == "follow_symlinks" and I.deref(v, st) is TRUE)}
    t = app("shutil.copyfile", *I.plain(args, kw, st))
    I.event(st, t)
    return t


EXT["shutil.copy"] = EXT["shutil.copy2"] = _copyfile


@ext("inspect.getfile")
def _getfile(I, args, kw, st):
    x = I.deref(args[0], st)
    return THIS_FILE if x.k == "app" and x.a[0] in ("inspect.currentframe", "sys._getframe") else None


@ext("inspect.currentframe")
def _frame(I, args, kw, st):
    return app("inspect.currentframe")


@ext("os.path.abspath")
def _abspath(I, args, kw, st):
    """The same place."""
    x = I.deref(args[0], st)
    return x if x is THIS_FILE else None


EXT["os.path.realpath"] = _abspath


@ext("os.path.dirname")
def _dirname(I, args, kw, st):
    x = I.deref(args[0], st)
    return app("idx", app("m:rsplit", x, const("/"), num(1)), num(0)) if x is THIS_FILE else None


@ext("os.path.join")
def _join(I, args, kw, st):
    """A separator between the parts (a doubled one names the same place)."""
    ds = [I.deref(a, st) for a in args]
    if not ds or any(d.k == "star" for d in ds):
        return app("os.path.join", *ds)
    parts = []
    for i, d in enumerate(ds):
        if i and not (is_str(parts[-1]) and cval(parts[-1]).endswith("/")):
            parts.append(const("/"))
        parts.append(d)
    return I.concat(parts)
