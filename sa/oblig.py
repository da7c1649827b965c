"""Obligations: an entry point of the repository against its reference definition."""
import time
import traceback

from .terms import *
from .interp import CallMismatch, Interp, NOT_CALLED, State, Unsupported, secant_stub
from .repo import Repo, AnalysisError
from .equiv import leaves, vocabulary, Comparer, Facts, path_text, has_unk
from .models import sym_grid, grid_state
from .speclib import INTRINSICS

RAISED = const("<error raised>")


class Result:
    """Outcome of one obligation: ok / violation / undecided, with text."""

    def __init__(self, status, where, what, detail="", rule="", known=None):
        self.status, self.where, self.what, self.detail, self.rule = status, where, what, detail, rule
        self.known = known


class Run:
    """What one abstract interpretation of an entry point computes."""

    def __init__(self):
        self.obs = {}
        self.raises = FALSE
        self.functions = set()
        self.interp = None


def raise_cond(I):
    r = FALSE
    for pc, _n, _v in I.pending:
        r = or_(r, pc)
    return r


def caught(run):
    """Failures of library calls for which there is a handler."""
    return {x for v in [run.raises, *run.obs.values()] for x in subterms(v)
            if x.k == "truth" and x.a[0].k == "app" and x.a[0].a[0] == "exc?"}


def only_fails(run, e, compare):
    """The handler of this failure ends in an error."""
    fails, works = subst(run.raises, {e: TRUE}), subst(run.raises, {e: FALSE})
    return all(compare(ite(fails, RAISED, subst(v, {e: TRUE})),
                       ite(fails, RAISED, subst(v, {e: FALSE}))) is True
               for k, v in run.obs.items() if e in subterms(v)) and fails is not works


def on_leaves(v, f, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(v)
    if r is None:
        r = memo[v] = ite(v.a[0], on_leaves(v.a[1], f, memo), on_leaves(v.a[2], f, memo)) if v.k == "ite" else f(v)
    return r


def by_name(fn, labels, vals):
    """Arguments by parameter name where the parameters carry the expected names, else by position."""
    a = fn.node.args
    params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    names = [params[0] if i == 0 and x == "GRID" and params else x for i, x in enumerate(labels)]
    if len(set(names)) == len(names) and all(n in params for n in names):
        return [], dict(zip(names, vals))
    return vals, {}


def interpret(repo, qual, args, stubs, spec=False, events=False, setup=None, ret=True, consts=None):
    I = Interp(repo, stubs=stubs, intrinsics=INTRINSICS if spec else {})
    I.consts = consts or {}
    I.uid = 500000 if spec else 0  # loop binders of the two sides are distinct
    st = State()
    fn = repo.func(qual)
    g = None
    vals = []
    for a in args:
        if a == "GRID":
            g = sym_grid(I, st)
            vals.append(g)
        elif isinstance(a, T):
            vals.append(a)
        elif callable(a):
            vals.append(a(I, st))
        else:
            vals.append(sym("p:" + a))
    if setup:
        setup(I, st, g, vals)
    a0 = fn.node.args
    params = [p.arg for p in a0.posonlyargs + a0.args + a0.kwonlyargs]
    labels = [a if isinstance(a, str) else params[i] if i < len(params) else "" for i, a in enumerate(args)]
    pos, kw = by_name(fn, labels, vals)
    try:
        I.bind(fn, pos, kw, st)
    except CallMismatch as e:
        raise Unsupported(f"entry point has a different signature: {e}")
    v = I.call_func(fn, pos, kw, st, force=True)
    r = Run()
    r.interp, r.state, r.grid, r.args = I, st, g, vals
    r.ret = v
    v = I.deref(v, st)
    if ret:
        sizes = {len(x.a) for x in leaves(v) if x.k == "tup"}
        if v.k == "ite" and len(sizes) == 1:
            n = sizes.pop()
            for i in range(n):
                r.obs[f"returned value {i}"] = on_leaves(v, lambda x: I.snap(x.a[i], st) if x.k == "tup" else x)
            r.obs["number of returned values"] = on_leaves(v, lambda x: num(len(x.a)) if x.k == "tup" else x)
        elif v.k == "tup":
            for i, x in enumerate(v.a):
                r.obs[f"returned value {i}"] = I.snap(x, st)
            r.obs["number of returned values"] = num(len(v.a))
        else:
            r.obs["returned value"] = I.snap(v, st)
    if g is not None:
        r.obs.update(grid_state(I, st, g))
    if I.ghost_ref is not None:
        for k, v in st.heap[I.ghost_ref.a[0]].f.items():
            r.obs[k if k.startswith(("write ", "set", "call ")) else "call " + k] = I.deref(v, st)
    r.raises = raise_cond(I)
    r.functions = I.functions
    r.events = I.events
    return r


def opaque(name, n=None):
    """Stub: results are unspecified functions of the arguments and the layer state."""
    def f(I, st, fn, b):
        args = [I.snap(v, st) for v in b.values()]
        if n is None:
            return app("fn:" + name, *args)
        return mk("tup", *[app(f"fn:{name}.{i}", *args) for i in range(n)])
    return f


class Eq:
    """Value-flow equivalence of a repository function and its reference definition."""
    rule = "value-flow equivalence"

    def __init__(self, name, code, spec, args, stubs=None, labels=None, skip=(), assume=(), known=None, budget=60000,
                 extra=None, raises=True, setup=None, consts=None, rename=None, tier="quick", needs=(), inductive=None):
        self.name, self.code, self.spec, self.args = name, code, spec, args
        self.stubs, self.labels, self.skip = stubs or {}, labels, set(skip)
        self.assume, self.known, self.budget = assume, known or {}, budget
        self.extra, self.raises, self.setup = extra, raises, setup
        self.consts = consts
        self.rename = rename or {}
        self.tier = tier
        self.inductive = inductive  # decided by induction over the function's own recursion
        self.needs = needs  # functions the observations are tied to

    def side(self, repo, qual, spec):
        r = interpret(repo, qual, self.args, self.stubs, spec, setup=self.setup, consts=self.consts)
        if self.extra:
            r.obs.update(self.extra(r))
        if self.rename:
            r.obs = {self.rename.get(k, k): v for k, v in r.obs.items()}
        return r

    def run(self, ctx, only=None):
        """Results for the observations whose label matches `only`."""
        fn = ctx.repo.func(self.code)
        where = fn.where
        out = []
        for q in self.needs:
            try:
                ctx.repo.func(q)
            except AnalysisError:
                return [Result("undecided", where, self.name, f"{q} no longer exists", self.rule)]
        try:
            code = self.side(ctx.repo, self.code, False)
        except (Unsupported, RecursionError, TooBig) as e:
            return [Result("undecided", where, self.name, f"construct outside the analysed language: {e}", self.rule)]
        spec = self.side(ctx.repo, self.spec, True)
        if self.inductive and not any(self.inductive in vocabulary(v) for v in code.obs.values()):
            return [Result("undecided", where, self.name, "written as a loop", self.rule)]
        ctx.functions |= code.functions | {self.code}
        facts = Facts()
        if code.grid is not None:
            facts = facts.add(mk("lt", sym("N"), 1), False)
        for c, v in self.assume:
            facts = facts.add(c, v)
        labels = [x for x in spec.obs if x not in self.skip and (self.labels is None or x in self.labels)]
        extra = [x for x in code.obs if x not in spec.obs and x not in self.skip
                 and (self.labels is None or x in self.labels)]
        if only is not None:
            labels = [x for x in labels if only.search(x)]
            extra = [x for x in extra if only.search(x)]
        bad_raise = False
        C = Comparer(self.budget)
        for v in list(spec.obs.values()) + [spec.raises]:
            C.vocabulary |= vocabulary(v)

        def compare(a, b):
            C.budget, C.undecided, C.fail = self.budget, [], None
            return C.compare(a, b, facts)
        for own, other in ((code, spec), (spec, code)):
            for e in caught(own) - caught(other):
                if only_fails(own, e, compare):  # as without the handler
                    facts = facts.add(e, False)
        C.undecided, C.fail = [], None
        if self.raises:
            r = C.compare(truth(code.raises), truth(spec.raises), facts)
            out.append(self.result(r, C, where, "when an error is raised"))
            bad_raise = r is not True
        else:
            spec.raises = code.raises
        wrap = code.raises if not bad_raise else None
        for x in labels + extra:
            a = code.obs.get(x)
            b = spec.obs.get(x)
            if "#" in x or x.startswith("write "):  # a call or write that one side never makes
                a, b = a or NOT_CALLED, b or NOT_CALLED
                old = code.interp.places.get(x) or spec.interp.places.get(x)
                if old is not None:  # unwritten: as it was
                    a, b = (on_leaves(v, lambda w: old if w is NOT_CALLED else w) for v in (a, b))
            if a is None or b is None:
                out.append(Result("violation", where, f"{self.name}: {x}", "missing in " +
                                  ("code" if a is None else "reference"), self.rule))
                continue
            if wrap is not None and wrap is not FALSE:
                a, b = ite(wrap, RAISED, a), ite(wrap, RAISED, b)
            elif wrap is None:
                a, b = ite(code.raises, RAISED, a), ite(spec.raises, RAISED, b)
            r = compare(a, b)
            out.append(self.result(r, C, where, x))
        return out

    def result(self, r, C, where, label):
        what = f"{self.name}: {label}"
        if r is True:
            return Result("ok", where, what, "", self.rule)
        if r is None:
            return Result("undecided", where, what, "; ".join(dict.fromkeys(C.undecided)), self.rule)
        if C.fail is None:
            return Result("undecided", where, what, "no witness", self.rule)
        path, a, b = C.fail
        return Result("violation", where, what,
                      f"when {path_text(path)}\n      computed : {show(a, 9)}\n      required : {show(b, 9)}", self.rule)


class Context:
    def __init__(self, repo):
        self.repo = repo
        self.functions = set()
        self.sites = 0
        self.notes = []
