"""Lattice cells: the sites of a cell are exactly the inequivalent sites of the cell."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h

S3 = float(np.sqrt(3.0))
LATTS = {"square": ([1., 0.], [0., 1.]), "rect": ([1., 0.], [0., 2.]), "triangle": ([1., 0.], [0.5, S3 / 2]),
         "hex": ([1.5, S3 / 2], [1.5, -S3 / 2]), "oblique": ([1., 0.], [0.25, 1.5]), "neg": ([-1., 0.], [0., 1.]),
         "rot": ([0., 1.], [-1., 0.]), "big": ([2., 1.], [-1., 3.])}


@st.composite
def lattice_case(draw, large=False):
    latt = draw(st.sampled_from(sorted(LATTS)))
    small = st.integers(-4, 4)
    a, b, c, d = draw(small), draw(small), draw(small), draw(small)
    if large:
        # long cells: the second period is a short one plus many times the first (the same cell differently described), or a long one
        k, (a, b) = draw(st.integers(-9, 9)), draw(st.sampled_from([(1, 0), (0, 1), (1, 1), (2, -1), (1, 3), (-3, 2)]))
        c, d = draw(st.integers(-3, 3)) + k * a, draw(st.integers(-3, 3)) + k * b
        if draw(st.booleans()):
            c, d = draw(st.integers(-14, 14)), draw(st.integers(-14, 14))
        if draw(st.booleans()):
            a, b, c, d = c, d, a, b
        if abs(a * d - b * c) > 60:
            a, b, c, d = draw(st.integers(-30, 30)), 0, 1, 1
    if a * d - b * c == 0:
        a, b, c, d = draw(st.integers(1, 4)), 0, draw(st.integers(-2, 2)), draw(st.integers(1, 4))
    nb = draw(st.integers(1, 3)) if abs(a * d - b * c) < 20 else 1
    basis = draw(st.lists(st.tuples(st.integers(-5, 5), st.integers(-5, 5)), min_size=nb, max_size=nb,
                          unique_by=lambda t: (t[0] % 4, t[1] % 4)))
    if draw(st.booleans()):
        basis = [(0, 0)]
    # basis sites at quarter-integer multiples of the lattice vectors, inequivalent by construction
    return {"latt": latt, "P": [a, b, c, d], "basis": [list(x) for x in basis],
            "o1": draw(st.booleans()), "o2": draw(st.booleans()), "scale": draw(st.sampled_from([1., 1., 1., 0.1, 7.3, 0.001, 250.])),
            # turned by an angle, so that coordinates are no round numbers
            "turn": draw(st.one_of(st.just(0.), st.sampled_from([0.1, 0.7, 1.0, 2.0, 3.0, 4.4]), st.integers(1, 11).map(lambda k: k * np.pi / 6))),
            "shift": draw(st.sampled_from([[0., 0.], [0., 0.], [1 / 3, 1 / 7], [0.123, -0.377]]))}


def _turned(case):
    co, si = np.cos(case["turn"]), np.sin(case["turn"])
    return [(case["scale"] * np.array([[co, -si], [si, co]]) @ np.array(v)) for v in LATTS[case["latt"]]]


def _frac(l1, l2, xs, ys):
    m = np.array([[l1[0], l2[0]], [l1[1], l2[1]]], float)
    return np.linalg.solve(m, np.stack([xs, ys]))


def _check_sites(xs, ys, l1, l2, basis_frac, P, what):
    """basis_frac: basis positions in lattice coordinates; P: integer periodicity matrix rows P1, P2"""
    a, b, c, d = P
    det = a * d - b * c
    want = abs(det) * len(basis_frac)
    h.same(len(xs), want, "%s: number of sites" % what)
    f = _frac(l1, l2, np.asarray(xs, float), np.asarray(ys, float))
    classes = set()
    for k in range(len(xs)):
        owner = None
        for bi, bf in enumerate(basis_frac):
            g = f[:, k] - np.asarray(bf)
            if np.max(np.abs(g - np.round(g))) < 1e-6:
                h.require(owner is None, "%s: ambiguous basis" % what)
                owner = bi
                n = np.round(g).astype(int)
        h.require(owner is not None, "%s: site %d at (%g, %g) is not a lattice site" % (what, k, xs[k], ys[k]))
        # integer lattice coordinates modulo the periodicity lattice: exact canonical residue
        # (n1, n2) = u P1 + v P2, with det * (u, v) integer
        u = (n[0] * d - n[1] * c)
        v = (-n[0] * b + n[1] * a)
        classes.add((owner, int(u) % abs(det), int(v) % abs(det)))
        # position inside the periodicity cell
        pu = (f[0, k] * d - f[1, k] * c) / det
        pv = (-f[0, k] * b + f[1, k] * a) / det
        h.require(-1e-7 <= pu < 1 + 1e-7 and -1e-7 <= pv < 1 + 1e-7,
                  "%s: site %d at (%g, %g) lies outside the periodicity cell" % (what, k, xs[k], ys[k]))
    h.same(len(classes), want, "%s: number of inequivalent sites" % what)


def check_lattice(case, ctx):
    from exact_diag.ed_geometry import Geometry, Lattice
    l1, l2 = _turned(case)
    a, b, c, d = case["P"]
    p1 = a * np.array(l1) + b * np.array(l2)
    p2 = c * np.array(l1) + d * np.array(l2)
    bf = [(x / 4.0 + case["shift"][0], y / 4.0 + case["shift"][1]) for x, y in case["basis"]]
    basis = [(np.array(l1) * x + np.array(l2) * y).reshape(2, 1) for x, y in bf]
    lat = Lattice(np.array(l1), np.array(l2), basis, p1, p2)
    n, xs, ys = lat.get_unique_sites()
    h.same(int(n), len(np.ravel(xs)), "reported number of sites")
    _check_sites(np.ravel(xs), np.ravel(ys), l1, l2, bf, case["P"], "lattice cell")
    g = Geometry.create_lattice_geom(np.array(l1), np.array(l2), basis, p1, p2, bc1_open=case["o1"], bc2_open=case["o2"])
    h.same(g.nsites, len(xs), "geometry: number of sites")
    _check_sites(g.xlocs, g.ylocs, l1, l2, bf, case["P"], "lattice geometry")
    ctx.label(case["latt"], "nbasis%d" % len(bf), "skew" if b or c else "diag", "turned" if case["turn"] else "straight")
    ctx.nontrivial(len(xs) > 1 and (b != 0 or c != 0 or len(bf) > 1))


@st.composite
def ctor_case(draw, nmax=28, nmin=1):
    return draw(h.geom_spec(kinds=("square", "triangle", "hex") + (("tilted",) if nmin < 9 else ()), nmax=nmax, nmin=nmin, twist=True))


def check_ctor(case, ctx):
    g = h.build_geom(case)
    l1, l2, basis, p1, p2 = h.lattice_of(case)
    fp = np.round(_frac(l1, l2, np.array([p1[0], p2[0]], float), np.array([p1[1], p2[1]], float))).astype(int)
    P = [int(fp[0, 0]), int(fp[1, 0]), int(fp[0, 1]), int(fp[1, 1])]
    bf = [_frac(l1, l2, np.array([b[0]], float), np.array([b[1]], float))[:, 0] for b in basis]
    h.same(g.nsites, h.nsites_of(case), "number of sites")
    h.same((len(g.xlocs), len(g.ylocs)), (g.nsites, g.nsites), "coordinate lists")
    _check_sites(g.xlocs, g.ylocs, l1, l2, bf, P, case["kind"])
    # the boundary conditions do not change which sites the cell has
    other = dict(case)
    other["o1"] = other["o2"] = True
    g2 = h.build_geom(other)
    s1 = sorted((round(float(x), 6) + 0., round(float(y), 6) + 0.) for x, y in zip(g.xlocs, g.ylocs))
    s2 = sorted((round(float(x), 6) + 0., round(float(y), 6) + 0.) for x, y in zip(g2.xlocs, g2.ylocs))
    h.same(s1, s2, "site positions for open and periodic boundaries")
    ctx.label(case["kind"], "open1" if case["o1"] else "per1", "open2" if case["o2"] else "per2")
    ctx.nontrivial(g.nsites >= 4)


@st.composite
def poly_case(draw):
    return {"n": draw(st.integers(3, 14))}


def check_poly(case, ctx):
    from exact_diag.ed_geometry import Geometry
    n = case["n"]
    g = Geometry.createRegularPolygonGeometry(n)
    h.same(g.nsites, n, "polygon: number of sites")
    x, y = np.asarray(g.xlocs, float), np.asarray(g.ylocs, float)
    r = np.hypot(x, y)
    h.close(r, np.full(n, 0.5 / np.sin(np.pi / n)), "polygon: distance of the corners from the centre")
    adj = h.dense(g.adjacency_mat)
    want = np.zeros((n, n))
    for i in range(n):
        want[i, (i + 1) % n] = want[(i + 1) % n, i] = 1
    h.close(adj, want, "polygon: bonds")
    d = np.hypot(x - np.roll(x, -1), y - np.roll(y, -1))
    h.close(d, np.ones(n), "polygon: side length")
    ctx.nontrivial()


FACETS = [
    Facet("lattice", lattice_case, check_lattice, 800, 8000, "random lattice, basis and integer periodicity matrix; "
          "non-trivial: more than one site and a skew cell or a basis", shards=8),
    Facet("constructors", ctor_case, check_ctor, 400, 4000, "square/tilted/triangular/hexagonal constructors, up to 28 "
          "sites, any boundaries; non-trivial: at least 4 sites", shards=8),
    Facet("polygon", lambda: [{"n": n} for n in range(3, 41)], check_poly, 12, 12,
          "regular polygons with 3 to 40 corners", exhaustive=True),
    Facet("long_cells", lambda: lattice_case(True), check_lattice, 250, 3000, "cells with long or nearly parallel periods; non-trivial: as for lattice", shards=8),
    Facet("constructors_large", lambda: ctor_case(64, 29), check_ctor, 30, 400, "29 to 64 sites; every case", shards=8),
]
ASSUMPTIONS = ["basis sites are inequivalent modulo the lattice", "periods of up to about 30 lattice vectors, cells of up to 60 unit cells"]
