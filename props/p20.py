"""Enumeration of the clusters of the infinite square lattice."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, poly

FIXED = [1, 2, 6, 19, 63, 216, 760, 2725]
FREE = [1, 1, 2, 5, 12, 35, 108, 369]


def geom(cells):
    from exact_diag.ed_geometry import Geometry
    g = Geometry.createNonPeriodicGeometry([c[0] for c in cells], [c[1] for c in cells])
    g.permute_sites(g.get_sorting_permutation())
    return g


def check_cluster(g, what):
    cells = poly.cells_of(g)
    h.close(np.stack([np.ravel(g.xlocs), np.ravel(g.ylocs)], 1).astype(float), np.array(cells, float), what + ": sites on the lattice")
    h.require(len(set(cells)) == len(cells) == g.nsites, what + ": repeated site")
    a = np.asarray(g.adjacency_mat)
    for i in range(g.nsites):
        for j in range(g.nsites):
            nn = abs(cells[i][0] - cells[j][0]) + abs(cells[i][1] - cells[j][1]) == 1
            h.require(a[i, j] == int(nn), what + ": bond between %s and %s" % (cells[i], cells[j]))
    return cells


LATTICES = {"square": {}, "chain": {"lv1": np.array([0, 1]), "lv2": np.array([0, 1])}, "swapped": {"lv1": np.array([0, 1]), "lv2": np.array([-1, 0])}}


def orders_quick():
    return [{"n": n, "sym": s, "lat": l} for l in ("square", "chain", "swapped") for s in (True, False)
            for n in range(1, {"square": 9 if s else 8 if os.environ.get("VERIF_TIER") != "thorough" else 9, "chain": 10, "swapped": 6}[l])]


def check_all(c, ctx):
    from exact_diag import ed_nlce
    n, sym = c["n"], c["sym"]
    cl, mult, inds = ed_nlce.get_all_clusters(n, use_symmetry=sym, **LATTICES[c["lat"]])
    if n < 5:
        # the same enumeration on the way to the multiplicities
        cl2, mult2, _, inds2 = ed_nlce.get_all_clusters_with_subclusters(n, use_symmetry=sym, **LATTICES[c["lat"]])
        h.same([poly.canon(poly.cells_of(g), sym) for g in cl2], [poly.canon(poly.cells_of(g), sym) for g in cl], "clusters enumerated together with their subclusters")
        h.same(([int(k) for k in mult2], [int(k) for k in inds2]), ([int(k) for k in mult], [int(k) for k in inds]), "their multiplicities and order boundaries")
    h.require(len(inds) == n + 1 and inds[0] == 0 and inds[-1] == len(cl) == len(mult), "order boundaries %s for %d clusters" % (inds, len(cl)))
    for k in range(1, n + 1):
        part = cl[inds[k - 1]:inds[k]]
        if c["lat"] == "chain":
            want = {poly.canon([(0, i) for i in range(k)], sym)}
        else:
            want = poly.all_of(k, sym)
            h.require(len(part) == (FREE if sym else FIXED)[k - 1], "%d clusters of %d sites, known number is %d" % (len(part), k, (FREE if sym else FIXED)[k - 1]))
        got = []
        for g, m in zip(part, mult[inds[k - 1]:inds[k]]):
            cells = check_cluster(g, "cluster of order %d" % k)
            got.append(poly.canon(cells, sym))
            wm = len(poly.images(cells)) if sym else 1
            h.require(int(m) == wm, "multiplicity of %s is %s, expected %d" % (cells, m, wm))
        h.require(len(set(got)) == len(got), "the same cluster appears twice at order %d" % k)
        h.require(set(got) == set(want), "clusters of order %d are not exactly the connected clusters" % k)
        if c["lat"] != "chain":
            h.require(int(np.sum(mult[inds[k - 1]:inds[k]])) == FIXED[k - 1], "multiplicities at order %d add up to %d, not %d" % (k, np.sum(mult[inds[k - 1]:inds[k]]), FIXED[k - 1]))
    ctx.label(c["lat"], "sym" if sym else "nosym")
    ctx.nontrivial(n > 2)


@st.composite
def grow_st(draw):
    k = draw(st.sampled_from([1, 2, 3, 4, 5, 5, 6, 7, 8]))
    return {"shapes": [draw(h.polyomino(k, k)) for _ in range(draw(st.integers(1, 3)))], "sym": draw(st.booleans())}


def check_grow(c, ctx):
    from exact_diag import ed_nlce
    sym = c["sym"]
    cl, mult = ed_nlce.get_clusters_next_order([geom(s) for s in c["shapes"]], use_symmetry=sym)
    want = poly.grow([tuple(map(tuple, s)) for s in c["shapes"]], sym)
    got = []
    for g, m in zip(cl, mult):
        cells = check_cluster(g, "grown cluster")
        got.append(poly.canon(cells, sym))
        wm = len(poly.images(cells)) if sym else 1
        h.require(int(m) == wm, "multiplicity of %s is %s, expected %d" % (cells, m, wm))
    h.require(len(mult) == len(cl), "one multiplicity per cluster")
    h.require(len(set(got)) == len(got), "a grown cluster appears twice")
    h.require(set(got) == want, "grown clusters are not exactly the one-site extensions")
    ctx.label("sym" if sym else "nosym", "k%d" % len(c["shapes"][0]))
    ctx.nontrivial(len(c["shapes"][0]) > 1)


FACETS = [
    Facet("enumeration", orders_quick, check_all, 1, 1, "order above 2 (all orders listed, exhaustive)", shards=8, exhaustive=True),
    Facet("growth", grow_st, check_grow, 560, 2240, "clusters of at least two sites", shards=3),
]
ASSUMPTIONS = ["square lattice (any choice of axes) and chain, up to 8 sites (7 without symmetry; 8 in the thorough tier)"]
