"""Relabelling of sites."""
import copy
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h


@st.composite
def perm_case(draw, nmax=9, nmin=1):
    s = draw(h.geom_spec(kinds=("square", "tilted", "triangle", "hex", "polygon", "cluster", "lattice"), nmax=nmax, nmin=nmin, twist=True))
    n = h.nsites_of(s)
    return {"spec": s, "p": draw(h.perm(n)), "q": draw(h.perm(n)),
            "arr": draw(st.booleans())}


MATS = ("adjacency_mat", "phase_mat", "xdist_mat", "ydist_mat")


def check_perm(case, ctx):
    g = h.build_geom(case["spec"])
    n = g.nsites
    old = {k: np.array(h.dense(getattr(g, k))) for k in MATS}
    x, y = np.array(g.xlocs, float), np.array(g.ylocs, float)
    p = list(case["p"])
    g2 = copy.deepcopy(g)
    h.require(g == g2 and not (g != g2), "copy of a geometry is not equal to it")
    arg = h.ro(p) if case["arr"] else list(p)
    g2.permute_sites(arg)
    h.same(list(np.asarray(arg)), p, "permutation argument after the call")
    h.close(g2.xlocs, x[p], "x coordinates after relabelling", 1e-12)
    h.close(g2.ylocs, y[p], "y coordinates after relabelling", 1e-12)
    for k in MATS:
        h.close(getattr(g2, k), old[k][np.ix_(p, p)], "%s after relabelling" % k, 1e-12)
    h.same(g2.nsites, n, "number of sites after relabelling")
    ident = p == list(range(n))
    h.same(bool(g == g2), ident, "relabelled geometry equal to the original")
    h.same(bool(g != g2), not ident, "relabelled geometry different from the original")
    # composition and inverse
    q = list(case["q"])
    g3 = copy.deepcopy(g2)
    g3.permute_sites(list(q))
    g4 = copy.deepcopy(g)
    g4.permute_sites([p[k] for k in q])
    h.close(g3.xlocs, np.asarray(g4.xlocs), "two relabellings in sequence (x)", 1e-12)
    for k in MATS:
        h.close(getattr(g3, k), h.dense(getattr(g4, k)), "two relabellings in sequence (%s)" % k, 1e-12)
    inv = [0] * n
    for a, b in enumerate(p):
        inv[b] = a
    g2.permute_sites(inv)
    h.require(g2 == g, "relabelling and undoing it does not give back the geometry")
    ctx.label(case["spec"]["kind"], "order>2" if [p[k] for k in p] != list(range(n)) else "involution")
    ctx.nontrivial([p[k] for k in p] != list(range(n)))


@st.composite
def sort_case(draw, nmax=10, nmin=1):
    s = draw(h.geom_spec(kinds=("square", "tilted", "cluster", "cluster", "triangle", "hex", "polygon"), nmax=nmax, nmin=nmin))
    if draw(st.integers(0, 7)) == 0:
        # large enough cells that rows agree only up to rounding
        s = {"kind": "hex", "n1": draw(st.integers(1, 5)), "n2": draw(st.integers(1, 3)), "o1": True, "o2": True, "ph1": 0., "ph2": 0.}
    n = h.nsites_of(s)
    return {"spec": s, "p": draw(h.perm(n)) if draw(st.integers(0, 3)) else list(range(n)),
            "mode": draw(st.sampled_from(["top_alternating", "top_left", "bottom_right", "adjacency"]))}


def check_sort(case, ctx):
    g = h.build_geom(case["spec"])
    n = g.nsites
    g.permute_sites(list(case["p"]))
    perm = np.asarray(g.get_sorting_permutation(case["mode"]))
    h.same(sorted(int(k) for k in perm), list(range(n)), "sorting permutation")
    sg = copy.deepcopy(g)
    sg.permute_sites([int(k) for k in perm])
    x, y = np.round(np.asarray(sg.xlocs, float), 6), np.round(np.asarray(sg.ylocs, float), 6)
    m = case["mode"]
    if m == "top_left":
        want = sorted(zip(x, y), key=lambda t: (-t[1], t[0]))
    elif m == "bottom_right":
        want = sorted(zip(x, y), key=lambda t: (t[1], t[0]))
    elif m == "top_alternating":
        rows = sorted(set(y), reverse=True)
        want = sorted(zip(x, y), key=lambda t: (-t[1], t[0] * (-1) ** rows.index(t[1])))
    if m != "adjacency":
        h.same([(float(a), float(b)) for a, b in zip(x, y)], [(float(a), float(b)) for a, b in want], "order of the sites, mode %s" % m)
    else:
        # the order may not depend on the labels the sites had before, as far as the bonds can tell
        g0 = h.build_geom(case["spec"])
        g0.permute_sites([int(k) for k in g0.get_sorting_permutation(m)])
        a0, a1 = h.dense(g0.adjacency_mat), h.dense(sg.adjacency_mat)
        # number of neighbours first, then the number of walks of two steps, three, ...
        w, cols = np.ones(n), []
        for _ in range(min(n, 20)):
            w = a1 @ w
            cols.append(w)
        keys = [tuple(int(round(col[i])) for col in cols) for i in range(n)]
        h.require(keys == sorted(keys), "sites are not in the order of the number of their neighbours, then of the walks of two and more steps: %s" % keys[:8])
        w0, w1 = a0.copy(), a1.copy()
        for _ in range(min(n, 20)):
            h.close(w1.sum(1), w0.sum(1), "number of walks from each site, in sorted order")
            w0, w1 = w0 @ a0, w1 @ a1
    ctx.label(m, case["spec"]["kind"])
    ctx.nontrivial(n >= 4)


@st.composite
def spectrum_case(draw):
    s = draw(h.geom_spec(kinds=("square", "tilted", "triangle", "cluster", "polygon"), nmax=4, nmin=2, twist=True))
    n = h.nsites_of(s)
    return {"spec": s, "p": draw(h.perm(n)), "model": draw(st.sampled_from(["fermi", "spinless", "spin"])),
            "u": draw(h.coupl()), "t": draw(h.nonzero()), "mu": draw(h.coupl()), "pot": [draw(h.coupl()) for _ in range(n)],
            "a": draw(st.integers(0, n - 1)), "b": draw(st.integers(0, n - 1)), "T": draw(h.dec(0.3, 3))}


def _system(g, case, perm):
    import exact_diag.ed_fermions as edf
    import exact_diag.ed_spins as eds
    pot = np.array(case["pot"])[perm]
    if case["model"] == "spin":
        s = eds.spinSystem(g, jx=0.5 * case["t"], jy=0.5 * case["t"], jz=case["u"], hz=pot, hx=np.full(g.nsites, 0.3))
        hz = s.createH(print_results=False)
        ops = [s.get_single_site_op(k, 0, 0.5 * s.pauli_z, format="boson") for k in range(g.nsites)]
    else:
        nsp = 2 if case["model"] == "fermi" else 1
        s = edf.fermions(g, case["u"] if nsp == 2 else 0., case["t"], us_same_species=0.4, mus=case["mu"],
                         potentials=np.repeat(pot[:, None], nsp, 1), nspecies=nsp)
        hz = s.createH(print_results=False)
        ops = [s.get_single_site_op(k, nsp - 1, s.n_op, format="boson") for k in range(g.nsites)]
    e, v = s.diagH(hz, print_results=False)
    corr = s.get_exp_vals_thermal(v, ops[case["oa"]].dot(ops[case["ob"]]), e, case["T"])
    return np.sort(np.real(e)), corr


def check_spectrum(case, ctx):
    sp = dict(case["spec"])
    if case["model"] == "spin":
        sp["ph1"] = sp["ph2"] = 0.
        sp.pop("phases", None)
    g = h.build_geom(sp)
    n = g.nsites
    e1, c1 = _system(g, dict(case, oa=case["a"], ob=case["b"]), list(range(n)))
    g2 = h.build_geom(sp)
    g2.permute_sites(list(case["p"]))
    new = {old: k for k, old in enumerate(case["p"])}
    e2, c2 = _system(g2, dict(case, oa=new[case["a"]], ob=new[case["b"]]), list(case["p"]))
    h.close(e2, e1, "energies after relabelling the sites", 1e-8)
    h.close(np.squeeze(c2), np.squeeze(c1), "thermal correlation of two given sites after relabelling", 1e-8)
    ctx.label(case["model"], sp["kind"])
    ctx.nontrivial(list(case["p"]) != list(range(n)))


@st.composite
def eq_case(draw):
    s = draw(h.geom_spec(kinds=("square", "tilted", "triangle", "cluster"), nmax=6, nmin=2, twist=True))
    return {"spec": s, "what": draw(st.sampled_from(["same", "shift", "phase", "bond", "lattice", "twist", "boundary"])), "k": draw(st.integers(0, 5))}


def check_eq(case, ctx):
    s = case["spec"]
    g = h.build_geom(s)
    what = case["what"]
    n = g.nsites
    if what == "same":
        g2 = h.build_geom(s)
        h.require(g == g2 and not g != g2, "two geometries built alike are not equal")
        h.require(g.isequal_adjacency(g2), "two geometries built alike have different bonds")
    elif what == "shift" and s["kind"] == "cluster":
        s2 = dict(s, cells=[[a + 1, b + 3] for a, b in s["cells"]])
        g2 = h.build_geom(s2)
        h.require(g != g2 and not g == g2, "shifted cluster equals the original")
        if "phases" not in s:
            h.require(g.isequal_adjacency(g2), "shifted cluster has other bonds or distances")
    elif what == "bond" and s["kind"] == "cluster":
        tri = [int(v) for v in h.dense(g.adjacency_mat)[np.tril_indices(n, -1)]]
        k = case["k"] % len(tri)
        tri[k] = 1 - tri[k]
        g2 = h.build_geom(dict(s, adj=tri))
        h.require(g != g2 and not g == g2, "cluster with another bond equals the original")
        h.require(not g.isequal_adjacency(g2), "cluster with another bond has equal adjacency")
    elif what == "phase" and s["kind"] == "cluster":
        tri = list(s.get("phases", [0.] * (n * (n - 1) // 2)))
        tri[case["k"] % len(tri)] += 0.5
        g2 = h.build_geom(dict(s, phases=tri))
        h.require(g != g2 and not g == g2, "cluster with another phase equals the original")
    elif what in ("lattice", "phase") and s["kind"] != "cluster":
        # the same sites without a lattice
        from exact_diag.ed_geometry import Geometry
        g2 = Geometry.createNonPeriodicGeometry(g.xlocs, g.ylocs)
        h.require(g != g2 and not g == g2, "cluster without lattice equals the lattice geometry")
        h.require(g2 != g and not g2 == g, "lattice geometry equals the cluster without lattice")
    elif what in ("twist", "boundary") and s["kind"] != "cluster":
        k = "12"[case["k"] % 2]
        if what == "twist":
            # a twist of a direction without period has no effect on the bonds
            s2 = dict(s, **{"ph" + k: s["ph" + k] + 0.5})
            differ = not s["o" + k]
        else:
            ext = s["n" + k] if s["kind"] != "tilted" else g.nsites
            s2 = dict(s, **{"o" + k: not s["o" + k]}) if ext > 1 else s
            differ = ext > 1
        g2 = h.build_geom(s2)
        if differ:
            h.require(g != g2 and not g == g2 and g2 != g, "geometry with another %s of direction %s equals the original" % (what, k))
            h.require(g.lattice != g2.lattice and not g.lattice == g2.lattice, "lattice with another %s of direction %s equals the original" % (what, k))
    else:
        g2 = h.build_geom(s)
        h.require(g == g2, "two geometries built alike are not equal")
        h.require(g.lattice == g2.lattice and not g.lattice != g2.lattice, "two lattices built alike are not equal")
    ctx.label(what, s["kind"])
    ctx.nontrivial(what != "same")


FACETS = [
    Facet("permute", perm_case, check_perm, 1500, 10000, "any geometry up to 9 sites, two random permutations; non-trivial: "
          "the permutation is not its own inverse", shards=5),
    Facet("sorting", sort_case, check_sort, 2250, 10000, "clusters and square cells with shuffled labels; non-trivial: at least 4 sites", shards=5),
    Facet("physics", spectrum_case, check_spectrum, 320, 3000, "fermions and spins up to 4 sites with site-dependent potentials; "
          "non-trivial: labels actually change", shards=8),
    Facet("equality", eq_case, check_eq, 1540, 6160, "pairs of geometries that do or do not differ; non-trivial: they differ", shards=5),
    Facet("large", lambda: perm_case(30, 10), check_perm, 120, 2000, "relabelling of 10 to 30 sites; non-trivial: as for permute", shards=5),
    Facet("sorting_large", lambda: sort_case(24, 11), check_sort, 200, 2000, "11 to 24 sites; every case", shards=5),
]
ASSUMPTIONS = ["rows are told apart by more than 1e-6"]
