"""Vocabulary of the reference definitions in /verif/spec.

The reference definitions read and write the layer state through these
primitives only, so they do not depend on the accessors of the analysed program.
"""
from .terms import *
from .interp import Obj, node_fields

F = {"h": "height", "T": "temperature", "lwc": "liquid_water_content", "ice": "ice_fraction", "refreeze": "refreeze"}


def nodes_of(I, st, g):
    return st.heap[g.a[0]].f["grid"]


def field(t):
    return F[cval(t)]


def p_get(I, st, args, kw):
    g, f, i = args
    nd = nodes_of(I, st, g)
    o = st.heap[nd.a[0]]
    return read(o.f["m:" + field(f)], norm(I, o, i))


def norm(I, o, i):
    k = as_number(i)
    return add(o.f["len"], i) if k is not None and k < 0 else i


def p_set(I, st, args, kw):
    g, f, i, v = args
    nd = nodes_of(I, st, g)
    I.set_node(nd, norm(I, st.heap[nd.a[0]], i), field(f), I.deref(v, st), st)
    return NONE


def p_n(I, st, args, kw):
    return st.heap[nodes_of(I, st, args[0]).a[0]].f["len"]


def p_drop(I, st, args, kw):
    g, i = args
    I.nodes_del(nodes_of(I, st, g), i, st)
    I.put(st, g, "number_nodes", sub(st.heap[g.a[0]].f["number_nodes"], num(1)))
    return NONE


def p_insert(I, st, args, kw):
    """insert_layer(GRID, i, h, T, lwc, ice)"""
    g, i, h, T_, lwc, ice = args
    nd = nodes_of(I, st, g)
    cls = st.heap[nd.a[0]].cls
    o = st.heap[nd.a[0]]
    vals = {"height": h, "temperature": T_, "liquid_water_content": lwc, "ice_fraction": ice, "refreeze": num(0)}
    node = I.new(st, "inst", cls, **{k: I.deref(v, st) for k, v in vals.items()})
    I.nodes_ins(nd, i, node, st)
    I.put(st, g, "number_nodes", add(st.heap[g.a[0]].f["number_nodes"], num(1)))
    return NONE


def p_fresh(I, st, args, kw):
    """fresh(GRID, which)"""
    return st.heap[args[0].a[0]].f[cval(args[1])]


def p_set_fresh(I, st, args, kw):
    I.put(st, args[0], cval(args[1]), I.deref(args[2], st))
    return NONE


def p_profile(I, st, args, kw):
    g, f = args
    nd = nodes_of(I, st, g)
    o = st.heap[nd.a[0]]
    j = fresh("j")
    return I.new(st, "arr", v=arr(o.f["len"], j, read(o.f["m:" + field(f)], j)))


def p_empty(I, st, args, kw):
    """empty_column(): a layer profile without layers"""
    g = I.new(st, "inst", I.repo.cls("cosipy.cpkernel.grid.Grid"), number_nodes=num(0))
    ncls = I.repo.cls("cosipy.cpkernel.node.Node")
    f = {"m:" + x: sym("mem:none") for x in node_fields(ncls)}
    I.put(st, g, "grid", I.new(st, "nodes", ncls, len=num(0), **f))
    return g


def p_undecided(I, st, args, kw):
    return mk("unk", "not specified")


INTRINSICS = {"layer": p_get, "set_layer": p_set, "n_layers": p_n, "drop_layer": p_drop, "insert_layer": p_insert,
              "fresh": p_fresh, "set_fresh": p_set_fresh, "profile": p_profile, "unspecified": p_undecided,
              "empty_column": p_empty}
