"""Linked cluster expansion: weights and resummation."""
import math

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, poly
from props.p20 import geom

_cache = {}


def infinite(n, sym):
    """cluster data from the reference enumeration (no library involved)"""
    if (n, sym) not in _cache:
        keys, mult, inds = [], [], [0]
        for k in range(1, n + 1):
            for s in sorted(poly.all_of(k, sym)):
                keys.append(s)
                mult.append(len(poly.images(s)) if sym else 1)
            inds.append(len(keys))
        idx = {k: i for i, k in enumerate(keys)}
        M = np.zeros((len(keys),) * 2)
        for i, s in enumerate(keys):
            for k, v in poly.sub_counts(s, sym).items():
                M[i, idx[k]] = v
        _cache[(n, sym)] = keys, np.array(mult), M, inds
    return _cache[(n, sym)]


def nbonds(s):
    return sum(1 for x, y in s for d in ((1, 0), (0, 1)) if (x + d[0], y + d[1]) in s)


@st.composite
def w_st(draw):
    k = draw(st.integers(1, 8))
    return {"k": k, "seed": draw(h.seeds()), "shape": draw(st.sampled_from([[], [1], [2], [3], [2, 3], [2, 1], [1, 2], [2, 2, 2]])),
            "mult": draw(st.sampled_from(["arr", "list", "row", "sparse"])), "ints": draw(st.booleans()), "nsites": draw(st.integers(1, 9)),
            "big": draw(st.sampled_from([9, 9, 400, 70000])), "unit": draw(h.unit()), "cuts": sorted(draw(st.lists(st.integers(0, k), max_size=3)))}


def check_w(c, ctx):
    from exact_diag import ed_nlce
    r = h.rng(c["seed"])
    k = c["k"]
    M = np.tril(r.integers(0, 5, size=(k, k)), -1).astype(float)
    big = c.get("big", 9)
    mult = r.integers(0, big, size=k)
    p = r.integers(-9, 10, size=[k] + c["shape"]) if c["ints"] else r.normal(size=[k] + c["shape"]) * c["unit"]
    u = 1. if c["ints"] else c["unit"]
    inds = [0] + c["cuts"] + [k]
    marg = {"arr": mult, "list": [int(x) for x in mult], "row": mult[None, :], "sparse": sp.csr_matrix(mult[None, :])}[c["mult"]]
    val, orders, w = ed_nlce.get_nlce_exp_val(h.ro(p), sp.csr_matrix(M), marg, inds, c["nsites"])
    want = np.zeros(p.shape)
    for i in range(k):
        want[i] = p[i] - sum((M[i, j] * want[j] for j in range(i)), np.zeros(c["shape"]))
    h.close(w / u, want / u, "weights")
    o = np.array([sum((mult[i] * want[i] for i in range(a, b)), np.zeros(c["shape"])) / c["nsites"] for a, b in zip(inds, inds[1:])])
    h.close(orders / u / big, o / u / big, "contribution of each order")
    h.close(val / u / big, o.sum(0) / u / big, "value per site", squeeze=True)
    ctx.label("dims%d" % len(c["shape"]), c["mult"])
    ctx.nontrivial(k > 1)


@st.composite
def ext_st(draw):
    return {"n": draw(st.integers(1, 5)), "sym": draw(st.booleans()), "a": draw(h.coupl()), "b": draw(h.coupl()), "lib": draw(st.sampled_from([False, False, True]))}


def check_ext(c, ctx):
    """quantities which are sums over sites and bonds are summed exactly: a per site and b per bond give a + 2 b, with
    no contribution beyond second order"""
    from exact_diag import ed_nlce
    n = min(c["n"], 4) if c["lib"] or not c["sym"] else c["n"]
    if c["lib"]:
        cl, mult, M, inds = ed_nlce.get_all_clusters_with_subclusters(n, use_symmetry=c["sym"])
        keys = [tuple(poly.cells_of(g)) for g in cl]
        ns = [g.nsites for g in cl]
        nb = [int(np.sum(g.adjacency_mat)) // 2 for g in cl]
    else:
        keys, mult, M, inds = infinite(n, c["sym"])
        M = sp.csr_matrix(M)
        ns, nb = [len(s) for s in keys], [nbonds(s) for s in keys]
    p = c["a"] * np.array(ns, float) + c["b"] * np.array(nb, float)
    val, orders, w = ed_nlce.get_nlce_exp_val(p, M, mult, inds, 1)
    want = np.zeros(n)
    want[0] = c["a"]
    if n > 1:
        want[1] = 2 * c["b"]
    h.close(orders, want, "orders of an additive quantity")
    h.close(np.array(float(val)), np.array(want.sum()), "additive quantity per site")
    ctx.label("library clusters" if c["lib"] else "reference clusters")
    ctx.nontrivial(n > 2)


@st.composite
def fin_st(draw):
    return {"cells": draw(h.polyomino(1, 6)), "sym": draw(st.booleans()), "seed": draw(h.seeds())}


def check_fin(c, ctx):
    """expansion of a finite cluster in all its subclusters, itself included, returns the exact value of that cluster"""
    from exact_diag import ed_nlce
    cl, M, inds = ed_nlce.get_reduced_subclusters(geom(c["cells"]), use_symmetry=c["sym"])
    p = h.rng(c["seed"]).normal(size=(len(cl), 2))
    mult = h.dense(M)[-1].copy()
    mult[-1] += 1
    val, orders, w = ed_nlce.get_nlce_exp_val(p, sp.csr_matrix(M), mult, inds, len(c["cells"]))
    h.close(val, p[-1] / len(c["cells"]), "value of the full cluster")
    h.close(orders.sum(0), p[-1] / len(c["cells"]), "sum over orders")
    ctx.nontrivial(len(c["cells"]) > 2)


@st.composite
def phys_st(draw):
    return {"t": draw(h.nonzero()), "mu": draw(h.coupl()), "T": draw(st.sampled_from([1.0, 2.0, 5.0])), "n": draw(st.integers(3, 6))}


def check_phys(c, ctx):
    """chain of free fermions: order by order equals the difference of open chains, N/L of open chain lengths L and L-1"""
    import exact_diag.ed_fermions as edf
    from exact_diag import ed_nlce
    n = c["n"]
    cl, mult, M, inds = ed_nlce.get_all_clusters_with_subclusters(n, lv1=np.array([1, 0]), lv2=np.array([1, 0]), use_symmetry=False)
    p = []
    ref = []
    for g in cl:
        s = edf.fermions(g, 0., c["t"], mus=c["mu"], nspecies=1)
        e, v = s.diagH(s.createH())
        p.append(float(s.get_exp_vals_thermal(v, s.get_sum_op(s.n_op, 0, format="boson"), e, c["T"])))
        L = g.nsites
        eps = -2 * c["t"] * np.cos(np.pi * np.arange(1, L + 1) / (L + 1)) - c["mu"]
        ref.append((1 / (np.exp(eps / c["T"]) + 1)).sum())
    h.close(np.array(p), np.array(ref), "density of open chains")
    val, orders, w = ed_nlce.get_nlce_exp_val(np.array(p), M, mult, inds, 1)
    h.close(np.array(float(val)), np.array(ref[-1] - (ref[-2] if n > 1 else 0)), "expansion for a chain = difference of the two longest chains")
    ctx.nontrivial()


@st.composite
def euler_st(draw):
    return {"k": draw(st.one_of(st.integers(1, 9), st.integers(10, 45))), "shape": draw(st.sampled_from([[], [1], [2], [2, 3]])), "y": draw(st.sampled_from([1.0, 1, 0.5, 2.0, 0.7])), "unit": draw(h.unit()), "ints": draw(st.booleans()), "seed": draw(h.seeds())}


def check_euler(c, ctx):
    from exact_diag import ed_nlce
    k, y = c["k"], c["y"]
    a = h.rng(c["seed"]).normal(size=[k] + c["shape"])
    u = c["unit"]
    if c["ints"]:
        a, u = np.round(4 * a).astype(int), 1.
    a = a if u == 1. else a * u
    tot, orders = ed_nlce.euler_resum(h.ro(a), y)
    want = np.array([sum(math.comb(n, j) * y ** (j + 1) * a[j] for j in range(n + 1)) / (1 + y) ** (n + 1) for n in range(k)])
    h.close(np.asarray(orders) / u, want / u, "terms of the Euler transform")
    h.close(np.asarray(tot) / u, want.sum(0) / u, "Euler sum")
    # geometric alternating series: converges to 1 / (1 + x) faster than the bare sum
    x = 0.9
    g, _ = ed_nlce.euler_resum((-x) ** np.arange(14.), 1.0)
    h.require(abs(float(g) - 1 / (1 + x)) < 1e-4, "Euler sum of an alternating geometric series is %g instead of %g" % (g, 1 / (1 + x)))
    ctx.nontrivial(k > 1)


FACETS = [
    Facet("weights", w_st, check_w, 2000, 8000, "more than one cluster", shards=2),
    Facet("additive", ext_st, check_ext, 300, 1200, "at least three orders", shards=3),
    Facet("finite", fin_st, check_fin, 320, 1280, "at least three sites", shards=4),
    Facet("chain", phys_st, check_phys, 80, 320, "every case", shards=2),
    Facet("euler", euler_st, check_euler, 1200, 4800, "more than one order"),
]
ASSUMPTIONS = ["multiplicity matrices strictly lower triangular"]
