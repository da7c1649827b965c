"""Symbolic inputs for the analysed entry points."""
from .terms import *
from .interp import Interp, State, node_fields, Obj
from .repo import Repo, AnalysisError

LAYER_FIELDS = ("height", "temperature", "liquid_water_content", "ice_fraction", "refreeze")
GRID_SCALARS = ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp")


def sym_grid(I, st, n=None):
    """A Grid instance with an arbitrary number of arbitrary layers."""
    n = n if n is not None else sym("N")
    gcls = I.repo.cls("cosipy.cpkernel.grid.Grid")
    ncls = I.repo.cls("cosipy.cpkernel.node.Node")
    f = {"len": n}
    for x in node_fields(ncls):
        f["m:" + x] = sym("mem:" + x)
    nodes = I.new(st, "nodes", ncls, **f)
    g = I.new(st, "inst", gcls, number_nodes=n, grid=nodes)
    for x in GRID_SCALARS:
        I.put(st, g, x, sym("g:" + x))
    for x in ("layer_heights", "layer_densities", "layer_temperatures", "layer_liquid_water_content",
              "layer_ice_fraction"):
        I.put(st, g, x, sym("g:" + x))
    return g


def grid_state(I, st, g):
    """Observable contents of a grid: ordered (label, term)."""
    o = st.heap[g.a[0]]
    out = {}
    for k in ("number_nodes",) + GRID_SCALARS:
        out["grid." + k] = o.f.get(k, mk("unk", "no " + k))
    nodes = o.f.get("grid")
    if nodes is not None and nodes.k == "ref":
        no = st.heap[nodes.a[0]]
        out["grid.len"] = no.f["len"]
        for k in sorted(no.f):
            if k.startswith("m:"):
                out["layer." + k[2:]] = no.f[k]
    elif nodes is not None:
        out["grid.nodes"] = nodes
    return out


STATE = ("layers", "clock")


def pieces(I, st, g, which):
    """(object reference, field) pairs that make up the given parts of the layer state."""
    o = st.heap[g.a[0]]
    nodes = o.f["grid"]
    out = []
    if "layers" in which:
        out += [(nodes, k) for k in sorted(st.heap[nodes.a[0]].f) if k.startswith("m:")] + [(nodes, "len")]
    if "clock" in which:
        out += [(g, k) for k in GRID_SCALARS]
    return out


def ghost(I, st):
    """The object that records what each process was called with."""
    g = I.ghost_ref
    if g is None:
        raise AnalysisError("no call record")
    return g


def start_ghost(I, st, recorded=("setitem", "setattr")):
    I.recorded = recorded
    I.ghost_ref = I.new(st, "ghost", None)
    I.counts = {}


def effect(name, nret=None, writes=STATE, reads=STATE, grid=0):
    """Stub for a process.  Its results and the state it leaves are arbitrary; what it is called with
    (arguments and layer state) is recorded, so that two functions agree when they make the same calls
    with the same operands and use the results in the same way."""
    def f(I, st, fn, b):
        b = list(b.values())
        g = b[grid] if grid is not None else None
        if g is not None and g.k == "ite":
            return I.on_ite(g, st, lambda x, s: f(I, s, fn, dict(enumerate(b[:grid] + [x] + b[grid + 1:]))))
        if g is not None and I.obj(st, g) is None:
            return mk("unk", "no layer state for " + name)
        n = I.counts.get(name, 0)
        I.counts[name] = n + 1
        key = mk("app", "call:" + name, (num(n),) + tuple(I.ivs))
        rec = ghost(I, st)
        for i, v in enumerate(b):
            if i != grid:
                I.put(st, rec, f"{name}#{n}.argument {i}", I.snap(v, st))
        if g is not None:
            for r, k in pieces(I, st, g, reads):
                I.put(st, rec, f"{name}#{n}.layers {k}", st.heap[r.a[0]].f[k])
            for r, k in pieces(I, st, g, writes):
                I.put(st, r, k, app("after", const(k), key))
                if k == "len":
                    I.put(st, g, "number_nodes", app("after", const(k), key))
        if nret == 0:
            return NONE
        if nret is None:
            return app("result", const("0"), key)
        return mk("tup", *[app("result", const(str(i)), key) for i in range(nret)])
    return f


def new_grid(ref_name, name):
    """Stub for a constructor of the layer state: contents unspecified functions of the arguments."""
    def f(I, st, fn, b):
        g = I.named_refs[ref_name]
        key = mk("app", "call:" + name, tuple(I.snap(v, st) for v in b.values()))
        for r, k in pieces(I, st, g, STATE):
            I.put(st, r, k, app("after", const(k), key))
            if k == "len":
                I.put(st, g, "number_nodes", app("after", const(k), key))
        return g
    return f


def submit_stub(I, v, args, kw, st):
    """Handing a function to a worker: the function and its bound arguments are recorded."""
    f = args[0] if args else None
    if f is None or f.k != "fn":
        return None
    n = I.counts.get("submit", 0)
    I.counts["submit"] = n + 1
    rec = ghost(I, st)
    I.put(st, rec, f"submit#{n}.function", const(f.a[0].qual))
    b = I.bind(f.a[0], list(args[1:]), dict(kw), st)
    for k, x in b.items():
        I.put(st, rec, f"submit#{n}.{k}", I.snap(x, st))
    return app("submitted", const(f.a[0].qual), *[I.snap(x, st) for x in b.values()])


def completed(n, names):
    """Stub: the workers' results, n of them, each an arbitrary tuple of the documented length."""
    def as_completed(I, args, kw, st):
        if I.ghost_ref is not None:
            I.put(st, I.ghost_ref, "collected#0.from", I.snap(args[0], st))
        return mk("tup", *[sym(f"result{i}") for i in range(n)])

    def result(I, v, args, kw, st):
        if v.k == "sym" and v.a[0].startswith("result"):
            return mk("tup", *[sym(f"{v.a[0]}.{x}") for x in names])
        return None
    return as_completed, result


def io_object(**f):
    """An IOClass instance with the given attributes (others unspecified)."""
    def build(I, st):
        return I.new(st, "inst", I.repo.cls("cosipy.cpkernel.io.IOClass"), **{k: x(I, st) if callable(x) else x
                                                                              for k, x in f.items()})
    return build


def names(*xs):
    return lambda I, st: I.new(st, "list", v=mk("tup", *[const(x) for x in xs]))
