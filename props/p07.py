"""Point transformations of the sites."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, Violation
from vlib import h
from props.p03 import periods


# ---- coordinate maps -------------------------------------------------------------------------------------------
@st.composite
def map_case(draw):
    n = draw(st.integers(1, 6))
    pts = [[draw(h.dec(-8, 8)), draw(h.dec(-8, 8))] for _ in range(n)]
    kind = draw(st.sampled_from(["rot", "refl", "inv", "transl"]))
    c = {"kind": kind, "pts": pts, "cx": draw(h.dec(-4, 4)), "cy": draw(h.dec(-4, 4))}
    if kind == "rot":
        c["n"] = draw(st.one_of(st.integers(1, 12), st.sampled_from([16, 24, 60, 360])))
    if kind in ("refl", "transl"):
        v = [draw(h.dec(-4, 4)), draw(h.dec(-4, 4))]
        if draw(st.integers(0, 3)) == 0:
            v[draw(st.integers(0, 1))] = 0.
        if draw(st.integers(0, 3)) == 0:
            # nearly along an axis
            v[draw(st.integers(0, 1))] *= draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6, 1e-9]))
        if kind == "refl" and not any(v):
            v = [1., 0.]
        if kind == "refl":
            # only the direction of the axis matters
            f = draw(h.unit())
            v = [f * v[0], f * v[1]]
        c["v"] = v
        c["form"] = draw(st.integers(0, 2))
    return c


def _vec(c):
    v = c["v"]
    return [v, np.array(v), np.array(v).reshape(2, 1)][c["form"]]


def check_map(c, ctx):
    import exact_diag.ed_symmetry as sym
    xy = np.array(c["pts"]).T
    ctr = np.array([[c["cx"]], [c["cy"]]])
    xs, ys = h.ro(xy[0]), h.ro(xy[1])
    k = c["kind"]
    if k == "rot":
        f = sym.getRotFn(c["n"], cx=c["cx"], cy=c["cy"])
        th = 2 * np.pi / c["n"]
        want = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ (xy - ctr) + ctr
        order = c["n"]
    elif k == "refl":
        f = sym.getReflFn(_vec(c), cx=c["cx"], cy=c["cy"])
        v = np.array(c["v"]) / np.hypot(*c["v"])
        want = (2 * np.outer(v, v) - np.eye(2)) @ (xy - ctr) + ctr
        order = 2
    elif k == "inv":
        f = sym.getInversionFn(cx=c["cx"], cy=c["cy"])
        want = 2 * ctr - xy
        order = 2
    else:
        f = sym.getTranslFn(_vec(c))
        want = xy + np.array(c["v"]).reshape(2, 1)
        order = None
    got = np.asarray(f(xs, ys))
    h.close(got, want, "transformed coordinates (%s)" % k, 1e-11)
    if order:
        cur = np.array(xy)
        for _ in range(order):
            cur = np.asarray(f(cur[0], cur[1]))
        h.close(cur, xy, "%s applied %d times" % (k, order))
    ctx.label(k)
    ctx.nontrivial(len(c["pts"]) > 1)


# ---- permutations of sites -------------------------------------------------------------------------------------
@st.composite
def cyc_case(draw):
    kind = draw(st.sampled_from(["transl", "transl_tilted", "transl_tri", "poly_rot", "poly_refl", "square_rot",
                                 "rect_inv", "rect_refl", "diag_refl", "hex_transl", "cluster_sym", "torus_rot"]))
    c = {"kind": kind}
    if kind == "transl":
        n1, n2 = draw(st.integers(2, 5)), draw(st.integers(1, 4))
        c["spec"] = {"kind": "square", "n1": n1, "n2": n2, "o1": False, "o2": n2 == 1 or draw(st.booleans()), "ph1": 0., "ph2": 0.}
        v = [draw(st.integers(-4, 4)), draw(st.integers(-4, 4)) if not c["spec"]["o2"] else 0]
        c["v"] = v
    elif kind == "transl_tilted":
        n1, n2 = draw(st.sampled_from([(2, 1), (1, 2), (2, 2), (3, 1), (3, -1), (2, 3), (-2, 1)]))
        c["spec"] = {"kind": "tilted", "n1": n1, "n2": n2, "o1": False, "o2": False, "ph1": 0., "ph2": 0.}
        c["v"] = [draw(st.integers(-4, 4)), draw(st.integers(-4, 4))]
    elif kind == "transl_tri":
        n1, n2 = draw(st.integers(2, 4)), draw(st.integers(2, 4))
        c["spec"] = {"kind": "triangle", "n1": n1, "n2": n2, "o1": False, "o2": False, "ph1": 0., "ph2": 0.}
        c["k"] = [draw(st.integers(-4, 4)), draw(st.integers(-4, 4))]
    elif kind == "hex_transl":
        c["spec"] = {"kind": "hex", "n1": draw(st.integers(2, 3)), "n2": draw(st.integers(2, 3)), "o1": False, "o2": False, "ph1": 0., "ph2": 0.}
        c["k"] = [draw(st.integers(-3, 3)), draw(st.integers(-3, 3))]
    elif kind in ("poly_rot", "poly_refl"):
        n = draw(st.integers(3, 9))
        c["spec"] = {"kind": "polygon", "n": n}
        c["m"] = draw(st.integers(0, n - 1))
        c["div"] = draw(st.sampled_from([d for d in range(1, n + 1) if n % d == 0]))
    elif kind in ("square_rot", "diag_refl"):
        n = draw(st.integers(1, 4))
        o = n == 1 or draw(st.booleans())
        c["spec"] = {"kind": "square", "n1": n, "n2": n, "o1": o, "o2": o, "ph1": 0., "ph2": 0.}
        c["n"] = draw(st.sampled_from([4, 2, 1]))
        c["s"] = draw(st.sampled_from([1, -1]))
    elif kind in ("rect_inv", "rect_refl"):
        n1, n2 = draw(st.integers(1, 5)), draw(st.integers(1, 4))
        c["spec"] = {"kind": "square", "n1": n1, "n2": n2, "o1": n1 == 1 or draw(st.booleans()), "o2": n2 == 1 or draw(st.booleans()),
                     "ph1": 0., "ph2": 0.}
        c["s"] = draw(st.sampled_from([1, -1]))
    elif kind == "torus_rot":
        # fourfold rotation of a tilted torus about any site
        n1, n2 = draw(st.sampled_from([(2, 1), (2, 2), (3, 1), (1, 2), (3, 2)]))
        c["spec"] = {"kind": "tilted", "n1": n1, "n2": n2, "o1": False, "o2": False, "ph1": 0., "ph2": 0.}
        c["site"] = draw(st.integers(0, 12))
        c["n"] = draw(st.sampled_from([4, 2]))
    else:
        # cluster symmetrised under inversion
        cells = draw(h.polyomino(1, 4))
        full = []
        for x, y in cells:
            for p in ([x, y], [-x, -y]):
                if p not in full:
                    full.append(p)
        c["spec"] = {"kind": "cluster", "cells": full}
    n = h.nsites_of(c["spec"])
    c["p"] = draw(h.perm(n)) if draw(st.booleans()) else list(range(n))
    return c


def build(c, g):
    """(library function, independent coordinate map)"""
    import exact_diag.ed_symmetry as sym
    k = c["kind"]
    cx, cy = float(np.mean(g.xlocs)), float(np.mean(g.ylocs))
    if k.startswith("transl") or k == "hex_transl":
        if "v" in c:
            v = np.array(c["v"], float)
        else:
            l1, l2, _, _, _ = h.lattice_of(c["spec"])
            v = c["k"][0] * np.array(l1, float) + c["k"][1] * np.array(l2, float)
        return sym.getTranslFn(v), lambda p: p + v
    if k in ("poly_rot", "square_rot", "torus_rot"):
        if k == "poly_rot":
            n = c["spec"]["n"] // c["div"]
        else:
            n = c["n"]
        if k == "torus_rot":
            i = c["site"] % g.nsites
            cx, cy = float(g.xlocs[i]), float(g.ylocs[i])
        th = 2 * np.pi / n
        m = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        return sym.getRotFn(n, cx=cx, cy=cy), lambda p: (p - [cx, cy]) @ m.T + [cx, cy]
    if k in ("poly_refl", "diag_refl", "rect_refl"):
        if k == "poly_refl":
            a = np.pi * c["m"] / c["spec"]["n"]
            v = np.array([np.sin(a), np.cos(a)])
        elif k == "diag_refl":
            v = np.array([1., c["s"]])
        else:
            v = np.array([1., 0.]) if c["s"] > 0 else np.array([0., 1.])
        u = v / np.hypot(*v)
        m = 2 * np.outer(u, u) - np.eye(2)
        return sym.getReflFn(v, cx=cx, cy=cy), lambda p: (p - [cx, cy]) @ m.T + [cx, cy]
    if k == "cluster_sym":
        cx = cy = 0.
    return sym.getInversionFn(cx=cx, cy=cy), lambda p: 2 * np.array([cx, cy]) - p


def ref_perm(c, g, fn):
    """image of each site, by brute force over images"""
    p1, p2 = periods(c["spec"])
    pos = np.stack([np.asarray(g.xlocs, float), np.asarray(g.ylocs, float)], 1)
    out = []
    for i in range(g.nsites):
        q = fn(pos[i])
        hit = [j for j in range(g.nsites) if h.min_image(*(q - pos[j]), p1, p2)[0] < 1e-7]
        if len(hit) != 1:
            return None
        out.append(hit[0])
    return out


def perm_order(p):
    o, q = 1, list(p)
    while q != list(range(len(p))):
        q = [p[k] for k in q]
        o += 1
    return o


def check_cyc(c, ctx):
    import exact_diag.ed_symmetry as sym
    g = h.build_geom(c["spec"])
    g.permute_sites(list(c["p"]))
    fn, ref = build(c, g)
    want = ref_perm(c, g, ref)
    h.require(want is not None, "harness: transformation is not a symmetry of the sites")
    n = g.nsites
    sites, img = sym.getTransformedSites(fn, list(range(n)), g)
    h.same([int(k) for k in sites], list(range(n)), "initial sites")
    h.same([int(k) for k in img], want, "images of the sites")
    order = perm_order(want)
    ncyc = []
    seen = set()
    for i in range(n):
        if i not in seen:
            cy = [i]
            while want[cy[-1]] != i:
                cy.append(want[cy[-1]])
            seen.update(cy)
            ncyc.append(cy)
    if order > n:
        return      # documented limit: at most nsites repetitions
    cycles, m = sym.findSiteCycles(fn, g)
    h.same(int(m), order, "number of transformations to close")
    flat = sorted(int(k) for cy in cycles for k in cy)
    h.same(flat, list(range(n)), "cycles cover every site once")
    for cy in cycles:
        for a, b in zip(cy, list(cy[1:]) + [cy[0]]):
            h.same(int(b), want[int(a)], "successor of site %d in its cycle" % a)
    h.same(sorted(len(cy) for cy in cycles), sorted(len(cy) for cy in ncyc), "cycle lengths")
    ctx.label(c["kind"], "order%d" % min(order, 6))
    ctx.nontrivial(order >= 2)


@st.composite
def perm_map(draw):
    n = draw(st.integers(1, 12))
    cells = draw(h.polyomino(n, n, connected=draw(st.booleans())))
    # cycle lengths first: their least common multiple is usually not the longest of them
    lens, left = [], n
    while left:
        k = draw(st.integers(1, left))
        lens.append(k)
        left -= k
    return {"cells": cells, "lens": lens, "p": draw(h.perm(n))}


def check_perm_map(c, ctx):
    """any map of the sites onto themselves, given as a function of the coordinates"""
    import exact_diag.ed_symmetry as sym
    g = h.build_geom({"kind": "cluster", "cells": c["cells"]})
    n = g.nsites
    want, k = [0] * n, 0
    for m in c["lens"]:
        cy = c["p"][k:k + m]
        for a, b in zip(cy, cy[1:] + cy[:1]):
            want[a] = b
        k += m
    X, Y = np.asarray(g.xlocs, float), np.asarray(g.ylocs, float)

    def fn(x, y):
        x, y = np.ravel(np.asarray(x, float)), np.ravel(np.asarray(y, float))
        idx = [want[int(np.argmin(np.hypot(X - a, Y - b)))] for a, b in zip(x, y)]
        return np.array([X[idx], Y[idx]])
    _, img = sym.getTransformedSites(fn, list(range(n)), g)
    h.same([int(k) for k in img], want, "images of the sites")
    order = int(np.lcm.reduce(c["lens"]))
    if order <= n:
        cycles, m = sym.findSiteCycles(fn, g)
        h.same(int(m), order, "number of transformations to close, for cycles of lengths %s" % c["lens"])
        h.same(sorted(int(k) for cy in cycles for k in cy), list(range(n)), "cycles cover every site once")
        for cy in cycles:
            for a, b in zip(cy, list(cy[1:]) + [cy[0]]):
                h.same(int(b), want[int(a)], "successor of site %d in its cycle" % a)
    ctx.label("order %s longest cycle" % (">" if order > max(c["lens"]) else "="), "beyond limit" if order > n else "order%d" % order)
    ctx.nontrivial(order <= n and len(set(c["lens"])) > 1)


@st.composite
def not_sym(draw):
    kind = draw(st.sampled_from(["rot", "transl", "refl"]))
    cells = draw(h.polyomino(2, 6))
    return {"kind": kind, "cells": cells, "n": draw(st.sampled_from([4, 3, 5])), "v": [draw(st.integers(1, 3)), draw(st.integers(-2, 2))],
            "cx": draw(st.integers(-2, 2)) / 2., "cy": draw(st.integers(-2, 2)) / 2.}


def check_not_sym(c, ctx):
    """a map that does not send the sites to sites is refused rather than silently turned into a permutation"""
    import exact_diag.ed_symmetry as sym
    g = h.build_geom({"kind": "cluster", "cells": c["cells"]})
    if c["kind"] == "rot":
        fn = sym.getRotFn(c["n"], c["cx"], c["cy"])
        th = 2 * np.pi / c["n"]
        m = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        ref = lambda p: (p - [c["cx"], c["cy"]]) @ m.T + [c["cx"], c["cy"]]
    elif c["kind"] == "refl":
        fn = sym.getReflFn(c["v"], c["cx"], c["cy"])
        u = np.array(c["v"]) / np.hypot(*c["v"])
        m = 2 * np.outer(u, u) - np.eye(2)
        ref = lambda p: (p - [c["cx"], c["cy"]]) @ m.T + [c["cx"], c["cy"]]
    else:
        fn = sym.getTranslFn(c["v"])
        ref = lambda p: p + np.array(c["v"])
    want = ref_perm({"spec": {"kind": "cluster"}}, g, ref)
    if want is None:
        h.rejects(lambda: sym.getTransformedSites(fn, list(range(g.nsites)), g), "map that is not a symmetry of the sites")
        h.rejects(lambda: sym.findSiteCycles(fn, g), "cycles of a map that is not a symmetry")
        ctx.nontrivial()
        ctx.label("refused")
    else:
        _, img = sym.getTransformedSites(fn, list(range(g.nsites)), g)
        h.same([int(k) for k in img], want, "images of the sites")
        ctx.label("symmetry")


@st.composite
def near_case(draw):
    c = draw(cyc_case())
    return {"sym": c, "eps": draw(st.sampled_from([1e-7, 1e-6, 4e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1])), "dir": draw(st.sampled_from([[1, 0], [0, 1], [-1, 0], [1, 1], [0, -1]])),
            "site": draw(st.one_of(st.none(), st.integers(0, 30)))}


def check_near(case, ctx):
    """a map which misses the sites, or one of them, by little is refused as well"""
    import exact_diag.ed_symmetry as sym
    c = case["sym"]
    g = h.build_geom(c["spec"])
    g.permute_sites(list(c["p"]))
    fn, _ = build(c, g)
    d = case["eps"] * np.array(case["dir"], float)

    def near(x, y):
        out = np.array(fn(x, y), float)
        if case["site"] is None:
            return out + d[:, None]
        k = case["site"] % g.nsites
        hit = np.hypot(np.asarray(x, float) - float(g.xlocs[k]), np.asarray(y, float) - float(g.ylocs[k])) < 1e-9
        return out + d[:, None] * hit[None, :]
    h.rejects(lambda: sym.getTransformedSites(near, list(range(g.nsites)), g),
              "map which misses %s by %g" % ("the sites" if case["site"] is None else "one site", case["eps"]))
    h.rejects(lambda: sym.findSiteCycles(near, g), "cycles of a map which misses the sites by %g" % case["eps"])
    ctx.label(c["kind"], "%g" % case["eps"])
    ctx.nontrivial()


FACETS = [
    Facet("maps", map_case, check_map, 4000, 16000, "random rotations, reflections, inversions, translations; non-trivial: several points", shards=5),
    Facet("cycles", cyc_case, check_cyc, 1000, 10000, "translations, rotations, reflections and inversions that are symmetries of "
          "polygons, rectangles, tori, triangular/hexagonal tori and clusters, with shuffled labels; non-trivial: not the identity", shards=8),
    Facet("refusal", not_sym, check_not_sym, 2400, 9600, "maps of free clusters; non-trivial: the map is not a symmetry", shards=3),
    Facet("near_misses", near_case, check_near, 800, 6000, "symmetries displaced by 1e-7 to 0.1, as a whole or at one site; every case", shards=3),
    Facet("permutations", perm_map, check_perm_map, 1200, 8000, "any permutation of the sites of clusters of up to 12 sites; non-trivial: cycles of different lengths", shards=3),
]
ASSUMPTIONS = ["permutation order at most the number of sites (documented limit of the cycle finder)"]
