"""Separations, distances and bonds between sites."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h


def spec(nmax=16, nmin=1):
    return h.geom_spec(kinds=("square", "tilted", "tilted", "triangle", "triangle", "hex", "lattice", "lattice", "cluster"), nmax=nmax, nmin=nmin, twist=True)


def periods(case):
    if case["kind"] in ("cluster", "polygon"):
        return [0., 0.], [0., 0.]
    _, _, _, p1, p2 = h.lattice_of(case)
    return ([0., 0.] if case["o1"] else p1), ([0., 0.] if case["o2"] else p2)


def check_sep(case, ctx):
    g = h.build_geom(case)
    n = g.nsites
    x, y = np.asarray(g.xlocs, float), np.asarray(g.ylocs, float)
    xd, yd = h.dense(g.xdist_mat), h.dense(g.ydist_mat)
    h.same((xd.shape, yd.shape), ((n, n), (n, n)), "separation matrices")
    h.close(xd, -xd.T, "x separations are antisymmetric", 1e-10)
    h.close(yd, -yd.T, "y separations are antisymmetric", 1e-10)
    p1, p2 = periods(case)
    adj = h.dense(g.adjacency_mat)
    ambiguous = 0
    want_adj = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            dist, images = h.min_image(x[i] - x[j], y[i] - y[j], p1, p2)
            d = np.array([xd[i, j], yd[i, j]])
            h.require(np.min(np.hypot(*(images - d).T)) < 1e-8,
                      "separation of sites %d and %d is (%g, %g), none of the shortest equivalent separations %s"
                      % (i, j, d[0], d[1], images[:4].tolist()))
            ambiguous += i > j and len(images) > 1
            want_adj[i, j] = abs(dist - 1.) < 1e-8
    if "adj" in case:
        want_adj = h.sym_from_tri(case["adj"], n)
    h.close(adj, want_adj, "bonds")
    # number of bonds of large enough periodic lattices
    if case["kind"] in ("square", "triangle") and not case["o1"] and not case["o2"] and min(case["n1"], case["n2"]) >= 3:
        h.close(adj.sum(1), np.full(n, 4. if case["kind"] == "square" else 6.), "coordination number")
        ctx.label("coordination")
    if case["kind"] == "hex" and not case["o1"] and not case["o2"] and min(case["n1"], case["n2"]) >= 2:
        h.close(adj.sum(1), np.full(n, 3.), "coordination number")
        ctx.label("coordination")
    cx, cy = g.get_center_of_mass()
    h.close([cx, cy], [x.mean(), y.mean()], "centre of mass")
    per = int(np.any(np.asarray(p1) != 0)) + int(np.any(np.asarray(p2) != 0))
    ctx.label(case["kind"], "periodic%d" % per, "several-shortest" if ambiguous else "unique-shortest")
    ctx.nontrivial(n >= 3 and (per > 0 or case["kind"] == "cluster"))


@st.composite
def latt_case(draw):
    small = st.integers(-3, 3)
    a, b, c, d = draw(small), draw(small), draw(small), draw(small)
    if a * d - b * c == 0:
        a, b, c, d = 3, 0, 1, 2
    ks = draw(st.lists(st.tuples(st.integers(-5, 5), st.integers(-5, 5)), min_size=1, max_size=5, unique=True))
    return {"l": draw(st.sampled_from([[1, 0, 0, 1], [1, 0, 0, 2], [1, 0, 0.5, float(np.sqrt(3) / 2)], [2, 1, -1, 3], [1, 0, 3, 1]])),
            "P": [a, b, c, d], "turn": draw(st.one_of(st.just(0.), st.sampled_from([0.1, 0.7, 1.0, 2.0, 3.0, 4.4]))), "scale": draw(st.sampled_from([1., 1., 1., 0.1, 7.3, 0.004, 250.])),
            "sites": [list(k) for k in ks], "o1": draw(st.booleans()), "o2": draw(st.booleans())}


def check_latt(case, ctx):
    """the lattice object's own distances, for any oblique cell and any lattice points"""
    from exact_diag.ed_geometry import Lattice
    co, si = np.cos(case["turn"]), np.sin(case["turn"])
    R = case["scale"] * np.array([[co, -si], [si, co]])
    l1, l2 = R @ np.array(case["l"][:2], float), R @ np.array(case["l"][2:], float)
    a, b, c, d = case["P"]
    p1 = a * l1 + b * l2 if not case["o1"] else np.zeros(2)
    p2 = c * l1 + d * l2 if not case["o2"] else np.zeros(2)
    lat = Lattice(l1, l2, [[0., 0.]], p1, p2)
    pos = np.array([k[0] * l1 + k[1] * l2 for k in case["sites"]])
    xd, yd, m1, m2 = (h.dense(v) for v in lat.get_reduced_distance(h.ro(pos[:, 0]), h.ro(pos[:, 1])))
    n = len(pos)
    for i in range(n):
        for j in range(n):
            _, im = h.min_image(*(pos[i] - pos[j]), p1, p2)
            h.require(np.min(np.hypot(im[:, 0] - xd[i, j], im[:, 1] - yd[i, j])) < 1e-8,
                      "separation of points %s and %s: (%g, %g), shortest are %s"
                      % (case["sites"][i], case["sites"][j], xd[i, j], yd[i, j], im[:4].tolist()))
    h.close(m1[..., None] * l1 + m2[..., None] * l2, np.stack([xd, yd], -1), "separation in lattice vectors", 1e-8)
    x, y = lat.get_shortest_image(float(pos[0, 0]), float(pos[0, 1])) if hasattr(lat, "get_shortest_image") else pos[0]
    _, im = h.min_image(pos[0, 0], pos[0, 1], p1, p2)
    if hasattr(lat, "get_shortest_image"):
        h.require(np.min(np.hypot(im[:, 0] - x, im[:, 1] - y)) < 1e-8, "shortest image of %s is (%g, %g)" % (pos[0], x, y))
    ctx.label("open" if case["o1"] and case["o2"] else "periodic")
    ctx.nontrivial(n >= 2 and not (case["o1"] and case["o2"]))


@st.composite
def scatter_case(draw):
    """sites anywhere in the plane, coordinates given as whole numbers, floats or a mixture of both"""
    n = draw(st.integers(1, 7))
    kinds = {"int": st.integers(-3, 3), "quarter": st.integers(-10, 10).map(lambda k: k / 4), "fifth": st.integers(-12, 12).map(lambda k: k / 5)}
    kx, ky = draw(st.sampled_from(["int", "quarter", "fifth"])), draw(st.sampled_from(["int", "quarter", "fifth"]))
    pts = draw(st.lists(st.tuples(kinds[kx], kinds[ky]), min_size=n, max_size=n, unique=True))
    # the origin may be anywhere
    ox, oy = [draw(st.sampled_from([0, 0, 0.3, 1 / 3, float(np.sqrt(2)), -0.7, 17.1, -1000.1, 5])) for _ in range(2)]
    return {"x": [p[0] + ox for p in pts], "y": [p[1] + oy for p in pts], "form": draw(st.sampled_from(["list", "array", "float", "list-array"]))}


def check_scatter(c, ctx):
    from exact_diag.ed_geometry import Geometry
    x, y = {"list": lambda a, b: (list(a), list(b)), "array": lambda a, b: (np.array(a), np.array(b)),
            "float": lambda a, b: (np.array(a, float), np.array(b, float)), "list-array": lambda a, b: (list(a), np.array(b))}[c["form"]](c["x"], c["y"])
    g = Geometry.createNonPeriodicGeometry(x, y)
    X, Y = np.array(c["x"], float), np.array(c["y"], float)
    n = len(X)
    h.same(g.nsites, n, "number of sites")
    h.close(g.xlocs, X, "x coordinates", 1e-12)
    h.close(g.ylocs, Y, "y coordinates", 1e-12)
    h.close(g.xdist_mat, X[:, None] - X[None, :], "x separations", 1e-12)
    h.close(g.ydist_mat, Y[:, None] - Y[None, :], "y separations", 1e-12)
    d = np.hypot(X[:, None] - X[None, :], Y[:, None] - Y[None, :])
    # (bonds of free clusters are defined by a rounding rule for sites off the lattice: only whole separations are judged)
    near = lambda a: abs(a - np.round(a)) < 1e-9
    whole = near(X[:, None] - X[None, :]) & near(Y[:, None] - Y[None, :])
    h.close(np.where(whole, h.dense(g.adjacency_mat), 0.), np.where(whole, abs(d - 1.) < 1e-9, 0.).astype(float), "bonds")
    h.close(g.phase_mat, np.ones((n, n)), "phases")
    h.close(np.array(g.get_center_of_mass(), float), np.array([X.mean(), Y.mean()]), "centre of mass")
    ctx.label(c["form"], type(c["x"][0]).__name__ + "-" + type(c["y"][0]).__name__)
    ctx.nontrivial(n > 1 and bool(np.any(d % 1 != 0)))


# ---- the picture of a geometry -------------------------------------------------------------------------------------
def check_disp(case, ctx):
    """sites at their places with their numbers, a line for every bond and none else, and the two matrices"""
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    g = h.build_geom(case)
    plt.close("all")
    try:
        fig = g.dispGeometry()
        a, b, d = fig.axes[:3]
        xy = np.stack([np.asarray(g.xlocs, float).ravel(), np.asarray(g.ylocs, float).ravel()], 1)
        h.close(np.asarray(a.collections[0].get_offsets(), float), xy, "sites in the picture")
        h.same(sorted((t.get_text(),) + tuple(np.round(t.get_position(), 9)) for t in a.texts),
               sorted((str(i),) + tuple(np.round(xy[i], 9)) for i in range(g.nsites)), "numbers of the sites in the picture")
        adj = h.dense(g.adjacency_mat).real
        key = lambda p, q: tuple(sorted([tuple(np.round(p, 9) + 0.), tuple(np.round(q, 9) + 0.)]))
        got = {key(*np.asarray(ln.get_xydata(), float)) for ln in a.lines}
        h.same(sorted(got), sorted({key(xy[i], xy[j]) for i in range(g.nsites) for j in range(g.nsites) if adj[i, j]}), "bonds in the picture")
        h.close(np.asarray(b.images[0].get_array(), float), adj, "adjacency matrix in the picture")
        ph = h.dense(g.phase_mat)
        ang = np.asarray(d.images[0].get_array(), float)
        h.close(np.exp(1j * ang), ph / np.where(np.abs(ph) > 0, np.abs(ph), 1) + (np.abs(ph) == 0), "phases in the picture")
    finally:
        plt.close("all")
    ctx.label(case["kind"])
    ctx.nontrivial(bool(adj.any()))


FACETS = [
    Facet("geometry", spec, check_sep, 900, 9000, "lattice cells up to 16 sites with any boundaries, and free clusters; "
          "non-trivial: at least 3 sites, and a periodic direction or a cluster", shards=8),
    Facet("lattice", latt_case, check_latt, 1200, 5000, "arbitrary lattice, integer cell matrix and lattice points; non-trivial: "
          "a periodic direction and at least 2 points", shards=4),
    Facet("scattered", scatter_case, check_scatter, 1000, 8000, "sites anywhere in the plane; non-trivial: at least two sites and a fractional distance", shards=2),
    Facet("large", lambda: spec(40, 17), check_sep, 60, 1000, "the same for 17 to 40 sites", shards=8),
        Facet("picture", lambda: h.geom_spec(nmax=9, twist=True), check_disp, 60, 400, "geometries up to 9 sites; non-trivial: there is a bond", shards=3),
]
ASSUMPTIONS = ["among several equally short separations any one is accepted", "bonds of clusters without a lattice are judged for separations by whole numbers (the code rounds others, as documented)"]
