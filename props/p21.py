"""Embedding multiplicities of clusters in clusters."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, poly
from props.p20 import geom, check_cluster, LATTICES


@st.composite
def parent_st(draw, nmax=7, nmin=1):
    return {"cells": draw(h.polyomino(nmin, nmax)), "sym": draw(st.booleans()), "sort": draw(st.booleans())}


def mk(c):
    from exact_diag.ed_geometry import Geometry
    if c["sort"]:
        return geom(c["cells"])
    return Geometry.createNonPeriodicGeometry([x[0] for x in c["cells"]], [x[1] for x in c["cells"]])


def check_reduced(c, ctx):
    from exact_diag import ed_nlce
    sym = c["sym"]
    parent = mk(c)
    cl, mat, inds = ed_nlce.get_reduced_subclusters(parent, use_symmetry=sym)
    M = h.dense(mat)
    cells = [tuple(x) for x in c["cells"]]
    subs = poly.connected_subsets(cells)
    classes = set(poly.canon(s, sym) for s in subs)
    keys = [poly.canon(check_cluster(g, "subcluster"), sym) for g in cl]
    h.require(len(set(keys)) == len(keys) and set(keys) == classes, "subclusters are not exactly the distinct connected subsets")
    h.require(M.shape == (len(cl), len(cl)), "shape of the multiplicity matrix")
    n = len(cells)
    sizes = [g.nsites for g in cl]
    h.require(list(inds) == [int(np.sum(np.array(sizes) <= k)) for k in range(n + 1)] and sizes == sorted(sizes), "order boundaries %s for sizes %s" % (list(inds), sizes))
    idx = {k: i for i, k in enumerate(keys)}
    for i, g in enumerate(cl):
        cnt = poly.sub_counts(poly.cells_of(g), sym)
        want = np.zeros(len(cl))
        for k, v in cnt.items():
            want[idx[k]] = v
        h.close(M[i], want, "how often each cluster fits into %s" % (keys[i],))
    ctx.label("n%d" % n, "sym" if sym else "nosym")
    ctx.nontrivial(n > 2)


def check_full(c, ctx):
    """unreduced list: every connected subset once, containment relations"""
    from exact_diag import ed_nlce
    parent = mk(c)
    orders, inds, mat = ed_nlce.get_all_subclusters(parent)
    cells = [tuple(x) for x in c["cells"]]
    flat = [frozenset(poly.cells_of(g)) for o in orders for g in o]
    subs = poly.connected_subsets(cells)
    h.require(len(flat) == len(set(flat)), "a connected subset appears twice")
    h.require(set(flat) == subs, "%d connected subsets, expected %d" % (len(flat), len(subs)))
    for k, o in enumerate(orders):
        h.require(all(g.nsites == k + 1 for g in o), "sizes at order %d" % (k + 1))
    M = h.dense(mat)
    want = np.array([[1. if b < a else 0. for b in flat] for a in flat])
    h.close(M, want, "containment matrix of the connected subsets")
    for i, l in enumerate(inds):
        h.same(sorted(int(x) for x in l), [int(x) for x in np.where(want[i])[0]], "subclusters contained in subcluster %d" % i)
    ctx.nontrivial(len(cells) > 2)


def check_orbit(c, ctx):
    from exact_diag import ed_nlce
    g = geom(c["cells"])
    out = ed_nlce.get_clusters_rel_by_symmetry(g)
    keys = [poly.norm(check_cluster(x, "image")) for x in out]
    want = poly.images([tuple(x) for x in c["cells"]])
    h.require(len(keys) == len(set(keys)) and set(keys) == want, "%d images under rotations and reflections, expected %d" % (len(keys), len(want)))
    ctx.label("orbit%d" % len(want))
    ctx.nontrivial(len(want) > 1)


def infinite_cases():
    return [{"n": n, "sym": s, "lat": l} for l in ("square", "chain", "swapped") for s in (True, False)
            for n in range(1, (7 if s else 6) if l != "square" or os.environ.get("VERIF_TIER") != "thorough" else (8 if s else 7))]


def check_inf(c, ctx):
    from exact_diag import ed_nlce
    kw = LATTICES[c["lat"]]
    cl, mult, mat, inds = ed_nlce.get_all_clusters_with_subclusters(c["n"], use_symmetry=c["sym"], **kw)
    cl2, mult2, inds2 = ed_nlce.get_all_clusters(c["n"], use_symmetry=c["sym"], **kw)
    h.same(list(inds), list(inds2), "order boundaries")
    h.close(np.asarray(mult, float), np.asarray(mult2, float), "multiplicities")
    keys = [poly.canon(poly.cells_of(g), c["sym"]) for g in cl]
    h.same(keys, [poly.canon(poly.cells_of(g), c["sym"]) for g in cl2], "clusters")
    idx = {k: i for i, k in enumerate(keys)}
    M = h.dense(mat)
    for i, g in enumerate(cl):
        want = np.zeros(len(cl))
        for k, v in poly.sub_counts(poly.cells_of(g), c["sym"]).items():
            want[idx[k]] = v
        h.close(M[i], want, "how often each cluster fits into %s" % (keys[i],))
    ctx.label("sym" if c["sym"] else "nosym", c["lat"])
    ctx.nontrivial(c["n"] > 2)


@st.composite
def map_st(draw):
    return {"n": draw(st.integers(2, 4)), "cells": draw(h.polyomino(2, 5)), "sym": draw(st.booleans())}


def check_map(c, ctx):
    from exact_diag import ed_nlce
    n, sym = c["n"], c["sym"]
    big, _, bi = ed_nlce.get_all_clusters(n, use_symmetry=sym)
    small, _, si = ed_nlce.get_reduced_subclusters(geom(c["cells"]), use_symmetry=sym)
    m = h.dense(ed_nlce.map_between_cluster_bases(big, bi, small, si, use_symmetry=sym))
    kb = [poly.canon(poly.cells_of(g), sym) for g in big]
    ks = [poly.canon(poly.cells_of(g), sym) for g in small]
    want = np.array([[1. if a == b else 0. for b in kb] for a in ks])
    h.close(m, want, "correspondence between two lists of clusters")
    ctx.nontrivial(len(c["cells"]) > 2)


@st.composite
def reduce_st(draw):
    """clusters sorted by number of sites, with repetitions up to translation and symmetry"""
    orders = []
    for k in range(1, draw(st.integers(1, 5)) + 1):
        shapes = [draw(h.polyomino(k, k)) for _ in range(draw(st.integers(0 if orders else 1, 4)))]
        out = [list(s) for s in shapes]
        for _ in range(draw(st.integers(0, 4))):
            if shapes:
                s = draw(st.sampled_from(shapes))
                for _ in range(draw(st.integers(0, 3))):
                    s = [[-y, x] for x, y in s]
                if draw(st.booleans()):
                    s = [[-x, y] for x, y in s]
                out.insert(draw(st.integers(0, len(out))), [list(p) for p in s])
        orders.append(out)
    return {"orders": orders, "sym": draw(st.booleans())}


def check_reduce(c, ctx):
    from exact_diag import ed_nlce
    sym = c["sym"]
    distinct, mult, mat = ed_nlce.reduce_clusters_by_geometry([[geom(s) for s in o] for o in c["orders"]], use_symmetry=sym)
    h.require(len(distinct) == len(mult) == len(c["orders"]), "one list of distinct clusters for each order")
    rows = []
    for o, d, m in zip(c["orders"], distinct, mult):
        keys = [poly.canon([tuple(x) for x in s], sym) for s in o]
        got = [poly.canon(poly.cells_of(g), sym) for g in d]
        h.require(len(set(got)) == len(got) and set(got) == set(keys), "distinct clusters of one order")
        h.same([int(k) for k in m], [keys.count(k) for k in got], "how often each distinct cluster occurs")
        rows.append((keys, got))
    M = h.dense(mat)
    want = np.zeros((sum(len(g) for _, g in rows), sum(len(k) for k, _ in rows)))
    r0 = c0 = 0
    for keys, got in rows:
        for i, k in enumerate(keys):
            want[r0 + got.index(k), c0 + i] = 1.
        r0, c0 = r0 + len(got), c0 + len(keys)
    h.close(M, want, "which distinct cluster each cluster is")
    ctx.label("sym" if sym else "nosym", "repetitions" if want.sum(1).max() > 1 else "all distinct")
    ctx.nontrivial(want.sum(1).max() > 1)


RING = [[x, y] for x in range(3) for y in range(3) if (x, y) != (1, 1)]


def compact_cases():
    """clusters with loops, with a hole, and compact ones"""
    shapes = [RING, RING + [[3, 1]], RING + [[1, 1]], [[x, y] for x in range(4) for y in range(2)], [[x, y] for x in range(2) for y in range(4)],
              [s for s in RING if s != [2, 2]], [[1, 0], [0, 1], [1, 1], [2, 1], [1, 2]], [[x, 0] for x in range(9)]]
    return [{"cells": [[x - 1, y + 5] for x, y in s], "sym": b, "sort": not b} for s in shapes for b in (True, False)]


FACETS = [
    Facet("reduced", lambda: parent_st(6), check_reduced, 400, 1200, "at least three sites", shards=6),
    Facet("unreduced", lambda: parent_st(6), check_full, 300, 800, "at least three sites", shards=4),
    Facet("orbit", lambda: parent_st(7), check_orbit, 900, 2500, "shape is not fully symmetric", shards=3),
    Facet("infinite", infinite_cases, check_inf, 1, 1, "order above 2 (exhaustive)", shards=4, exhaustive=True),
    Facet("mapping", map_st, check_map, 200, 800, "parent has at least three sites", shards=3),
    Facet("reduced_large", lambda: parent_st(8, 7), check_reduced, 16, 200, "7 or 8 sites; every case", shards=8),
    Facet("compact", compact_cases, check_reduced, 1, 1, "clusters with loops and holes, to 9 sites (listed, exhaustive); every case", shards=8, exhaustive=True),
    Facet("compact_unreduced", compact_cases, check_full, 1, 1, "as compact", shards=8, exhaustive=True),
    Facet("reduction", reduce_st, check_reduce, 300, 3000, "lists of clusters of up to 5 sites with repetitions; non-trivial: some cluster occurs twice", shards=4),
]
ASSUMPTIONS = ["clusters of at most 8 sites (9 for some listed ones); clusters handed to the symmetry functions are in the library's sorted order, as the library produces them"]
