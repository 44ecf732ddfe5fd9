"""Ill-formed inputs are refused; the well-formed inputs they were made from are accepted."""
import os
import shutil
import tempfile

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h
from props import p11


# ---- geometries given by matrices --------------------------------------------------------------------------------
@st.composite
def mats_st(draw):
    n = draw(st.sampled_from([2, 3, 3, 4, 5, 6]))
    i = draw(st.integers(0, n - 1))
    j = draw(st.integers(0, n - 2))
    j = j if j < i else j + 1
    return {"n": n, "seed": draw(h.seeds()), "i": i, "j": j,
            "what": draw(st.sampled_from(["adj_asym", "adj_value", "adj_diag", "adj_small", "adj_large", "adj_rect", "ph_herm", "ph_abs", "ph_diag", "ph_diag_imag", "ph_small",
                                          "ph_large", "ph_one_abs"])),
            "val": draw(st.sampled_from([0.5, 2.0, -1.0, 1.001, 0.999, 1e-3])), "ang": draw(st.one_of(st.sampled_from([0.1, np.pi, 1e-3]), h.dec(0.01, 3))),
            "poly": draw(st.booleans())}


def check_mats(c, ctx):
    from exact_diag.ed_geometry import Geometry
    n, i, j, r = c["n"], c["i"], c["j"], h.rng(c["seed"])
    adj = np.triu(r.integers(0, 2, size=(n, n)), 1).astype(float)
    adj = adj + adj.T
    ang = np.triu(r.uniform(-3, 3, size=(n, n)), 1)
    ph = np.exp(1j * (ang - ang.T))
    xs = r.permutation(3 * n)[:n].astype(float)
    ys = r.integers(-3, 4, size=n).astype(float)
    if c["poly"] and n >= 3:
        def make(a, p):
            return Geometry.createRegularPolygonGeometry(n, adjacency_mat=a, phase_mat=p)
    else:
        def make(a, p):
            return Geometry.createNonPeriodicGeometry(xs, ys, adjacency_mat=a, phase_mat=p)
    g = make(adj.copy(), ph.copy())
    h.close(g.adjacency_mat, adj, "adjacency matrix of the geometry")
    h.close(g.phase_mat, ph, "phase matrix of the geometry")
    a, p = adj.copy(), ph.copy()
    w = c["what"]
    if w == "adj_asym":
        a[i, j] = 1 - a[i, j]
    elif w == "adj_value":
        a[i, j] = a[j, i] = c["val"]
    elif w == "adj_diag":
        a[i, i] = c["val"]
    elif w == "adj_small":
        a = a[:-1, :-1]
    elif w == "adj_large":
        a = np.pad(a, ((0, 1), (0, 1)))
    elif w == "adj_rect":
        a = a[:, :-1]
    elif w == "ph_herm":
        p[i, j] *= np.exp(1j * c["ang"])
    elif w == "ph_abs":
        p[i, j] *= c["val"] if c["val"] > 0 else 1.5
        p[j, i] = np.conj(p[i, j])
    elif w == "ph_one_abs":
        p[i, j] *= 1.5
    elif w == "ph_diag":
        p[i, i] = c["val"] if c["val"] > 0 else 0.0
    elif w == "ph_diag_imag":
        p[i, i] = np.exp(1j * min(c["ang"], 3.0))
    elif w == "ph_small":
        p = p[:-1, :-1]
    elif w == "ph_large":
        p = np.pad(p, ((0, 1), (0, 1)), constant_values=1)
    h.rejects(lambda: make(a, p), "geometry with defect '%s'" % w)
    ctx.label(w)
    ctx.nontrivial()


# ---- lattices, constructors, permutations, modes ---------------------------------------------------------------
@st.composite
def latt_st(draw):
    q = st.integers(-24, 24).map(lambda k: k / 8)
    v1 = [draw(q), draw(q)]
    if v1 == [0, 0]:
        v1 = [1.0, 0.0]
    v2 = [draw(q), draw(q)]
    if abs(v1[0] * v2[1] - v1[1] * v2[0]) < 0.2:
        v2 = [-v1[1], v1[0]]
    m = [draw(st.integers(-3, 3)) for _ in range(4)]
    if m[0] * m[3] - m[1] * m[2] == 0:
        m = draw(st.sampled_from([[2, 0, 0, 3], [2, 1, -1, 2], [1, 0, 0, 1], [3, 1, 0, 1]]))
    return {"v1": v1, "v2": v2, "m": m, "open": draw(st.sampled_from([0, 0, 1, 2])),
            "what": draw(st.sampled_from(["latt_par", "latt_zero1", "latt_zero2", "per_par", "per_neg", "incomm1", "incomm2", "recip"])),
            "f": draw(st.sampled_from([1, 2, -1, 3, -2, 0.5])), "d": draw(st.sampled_from([[0.5, 0], [0, 0.5], [0.25, 0.75], [1 / 3, 0], [0.1, -0.4], [0.01, 0], [0, -0.01]]))}


def check_latt(c, ctx):
    from exact_diag import ed_geometry as eg
    v1, v2, m = np.array(c["v1"]), np.array(c["v2"]), c["m"]
    p1, p2 = m[0] * v1 + m[1] * v2, m[2] * v1 + m[3] * v2
    if c["open"] == 1:
        p1 = np.zeros(2)
    if c["open"] == 2:
        p2 = np.zeros(2)

    def make(a=v1, b=v2, p=p1, q=p2):
        return eg.Lattice(a, b, periodicity_vect1=p, periodicity_vect2=q)
    make()
    w, f, d = c["what"], c["f"], np.array(c["d"])
    z = np.zeros(2)
    if w == "latt_par":
        h.rejects(lambda: make(b=f * v1, p=z, q=z), "parallel lattice vectors")
    elif w == "latt_zero1":
        h.rejects(lambda: make(a=z, p=z, q=z), "vanishing first lattice vector")
    elif w == "latt_zero2":
        h.rejects(lambda: make(b=z, p=z, q=z), "vanishing second lattice vector")
    elif w in ("per_par", "per_neg"):
        if c["open"] == 1:
            p1 = m[0] * v1 + m[1] * v2
        k = abs(f) if abs(f) >= 1 else 2
        k = -k if w == "per_neg" else k
        h.rejects(lambda: make(p=p1, q=k * p1), "parallel periodicity vectors")
    elif w == "incomm1":
        h.rejects(lambda: make(p=m[0] * v1 + m[1] * v2 + d[0] * v1 + d[1] * v2), "first periodicity vector which is not a lattice vector")
    elif w == "incomm2":
        h.rejects(lambda: make(q=m[2] * v1 + m[3] * v2 + d[0] * v1 + d[1] * v2), "second periodicity vector which is not a lattice vector")
    else:
        h.rejects(lambda: eg.get_reciprocal_vects(v1, f * v1), "reciprocal vectors of parallel vectors")
    ctx.label(w)
    ctx.nontrivial()


@st.composite
def cons_st(draw):
    k = draw(st.sampled_from(["square", "triangle", "hex"]))
    wide = draw(st.integers(1, 4 if k != "hex" else 3))
    return {"kind": k, "n": wide, "first": draw(st.booleans()), "other_open": draw(st.booleans()), "phase": draw(h.angle())}


def check_cons(c, ctx):
    from exact_diag.ed_geometry import Geometry
    fn = {"square": Geometry.createSquareGeometry, "triangle": Geometry.createTriangleGeometry, "hex": Geometry.createHexagonalGeometry}[c["kind"]]
    oo = c["other_open"] or c["n"] == 1

    def make(bad):
        if c["first"]:
            return fn(1, c["n"], c["phase"], 0, bc1_open=not bad, bc2_open=oo)
        return fn(c["n"], 1, 0, c["phase"], bc1_open=oo, bc2_open=not bad)
    make(False)
    h.rejects(lambda: make(True), "%s lattice periodic along a direction one site wide" % c["kind"])
    ctx.label(c["kind"], "first" if c["first"] else "second")
    ctx.nontrivial(c["n"] > 1)


@st.composite
def perm_st(draw):
    g = draw(h.geom_spec(nmin=2, nmax=6))
    return {"g": g, "seed": draw(h.seeds()), "what": draw(st.sampled_from(["repeat", "range", "negative", "short", "long", "empty", "float"])),
            "mode": draw(st.sampled_from(["", "top", "TOP_LEFT", "left_top", "bottom_left", "adjacent", "top alternating", "none"])),
            "red": draw(st.sampled_from(["", "center", "Centered", "positiv", "reduced", "none"]))}


def check_perm(c, ctx):
    from exact_diag import ed_geometry as eg
    g = h.build_geom(c["g"])
    n, r = g.nsites, h.rng(c["seed"])
    p = [int(x) for x in r.permutation(n)]
    x0, y0, a0 = g.xlocs.copy(), g.ylocs.copy(), g.adjacency_mat.copy()
    i = int(r.integers(0, n))
    w = c["what"]
    q = list(p)
    if w == "repeat":
        q[i] = q[(i + 1) % n]
    elif w == "range":
        q[q.index(n - 1)] = n + int(r.integers(0, 3))
    elif w == "negative":
        q[i] = q[i] - n
    elif w == "short":
        q = q[:i] + q[i + 1:]
    elif w == "long":
        q = q + [q[i]]
    elif w == "empty":
        q = []
    else:
        q[i] = q[i] + 0.5
    h.rejects(lambda: g.permute_sites(q), "relabelling %s of %d sites" % (q, n))
    h.require(np.array_equal(g.xlocs, x0) and np.array_equal(g.ylocs, y0) and np.array_equal(g.adjacency_mat, a0), "a refused relabelling leaves the geometry unchanged")
    g.permute_sites(p)
    h.rejects(lambda: g.get_sorting_permutation(c["mode"]), "sorting mode %r" % c["mode"])
    h.rejects(lambda: eg.reduce_vectors([2, 0], [0, 3], 1.2, 0.4, mode=c["red"]), "reduction mode %r" % c["red"])
    ctx.label(w)
    ctx.nontrivial(n > 2)


# ---- models ------------------------------------------------------------------------------------------------------
@st.composite
def ferm_st(draw):
    return {"n": draw(st.sampled_from([2, 3, 3, 4])), "nsp": draw(st.sampled_from([1, 2, 3])), "what": draw(st.sampled_from(
        ["ts_len", "ts_2d", "ts_square", "ts_order", "us_len", "us_mat", "v_len", "v_2d", "v_order", "mu_len", "pot_len", "pot_T", "pot_3d", "ns_len", "ns_long", "t_complex"])), "d": draw(st.integers(1, 3)), "z": draw(h.dec(0.1, 2))}


def check_ferm(c, ctx):
    import exact_diag.ed_fermions as edf
    from exact_diag.ed_geometry import Geometry
    n, nsp, d, w = c["n"], c["nsp"], c["d"], c["what"]
    if n * nsp > 8:
        n = 2
    g = Geometry.createSquareGeometry(n, 1, bc1_open=True, bc2_open=True)

    def make(us=0, ts=1.0, **kw):
        return edf.fermions(g, us, ts, nspecies=nsp, **kw)

    def bad_len(*ok):
        m = max(ok) + d
        while m in ok or m == 1:
            m += 1
        return m
    make()
    make(us=np.zeros(n), ts=np.zeros((n, n, nsp)), us_same_species=np.zeros((n, n, nsp)), mus=np.zeros(nsp), potentials=np.zeros((n, nsp)), ns=[1] * nsp)
    what = {
        "ts_len": lambda: make(ts=np.ones(bad_len(nsp, n * n * nsp))),
        "ts_2d": lambda: make(ts=np.ones((n, n + d, nsp))),
        "ts_square": lambda: make(ts=np.zeros((n + d, n + d, nsp))),
        "ts_order": lambda: make(ts=np.zeros((nsp, n, n))) if nsp != n and n * n * nsp != nsp else make(ts=np.zeros((n + 1, n, nsp))),
        "us_len": lambda: make(us=np.zeros(n + d)),
        "us_mat": lambda: make(us=np.zeros((n, n + d))),
        "v_len": lambda: make(us_same_species=np.ones(bad_len(nsp, n * n * nsp))),
        "v_2d": lambda: make(us_same_species=np.zeros((n + d, n + d, nsp))),
        "v_order": lambda: make(us_same_species=np.zeros((nsp, n, n))) if nsp != n else make(us_same_species=np.zeros((n + 1, n, nsp))),
        "mu_len": lambda: make(mus=np.ones(nsp + d)),
        "pot_len": lambda: make(potentials=np.ones(bad_len(n, nsp, n * nsp))),
        "pot_T": lambda: make(potentials=np.ones((nsp, n))) if nsp != n and nsp > 1 else make(potentials=np.ones((n + 1, n + 1))),
        "pot_3d": lambda: make(potentials=np.ones((n, nsp + 1, 2))),
        "ns_len": lambda: make(ns=[1] * (nsp + d)),
        "ns_long": lambda: make(ns=np.ones(nsp + d, dtype=int)),
        "t_complex": lambda: make(ts=1.0 + 1j * c["z"]),
    }[w]
    h.rejects(what, "fermion model with ill-shaped input '%s' (%d sites, %d species)" % (w, n, nsp))
    ctx.label(w, "nsp%d" % nsp)
    ctx.nontrivial()


@st.composite
def spin_st(draw):
    return {"n": draw(st.sampled_from([2, 3, 4, 5])), "d": draw(st.integers(1, 3)), "which": draw(st.sampled_from(["jx", "jy", "jz", "hx", "hy", "hz"])),
            "what": draw(st.sampled_from(["len", "len_short", "mat", "str", "none"])), "spin": draw(st.sampled_from([0.5, 0.5, 1.0]))}


def check_spin(c, ctx):
    import exact_diag.ed_spins as eds
    from exact_diag.ed_geometry import Geometry
    n, d, k = c["n"], c["d"], c["which"]
    g = Geometry.createSquareGeometry(n, 1, bc1_open=True, bc2_open=True)
    make = lambda **kw: eds.spinSystem(g, spin=c["spin"], **kw)
    make(**{k: 0.3})
    make(**{k: np.zeros((n, n)) if k[0] == "j" else np.zeros(n)})
    v = {"len": np.ones(n + d), "len_short": np.ones(n - 1), "mat": np.zeros((n, n + d)) if k[0] == "j" else np.zeros((n, n)), "str": "strong", "none": None}[c["what"]]
    if isinstance(v, np.ndarray) and v.size == n:
        return
    h.rejects(lambda: make(**{k: v}), "spin model with %s of kind '%s'" % (k, c["what"]))
    ctx.label(c["what"], k)
    ctx.nontrivial()


@st.composite
def op_st(draw):
    return {"n": draw(st.sampled_from([2, 3])), "nsp": draw(st.sampled_from([1, 2])), "fmt": draw(st.sampled_from(["", "Fermion", "fermions", "bosonic", "none", "spin", "b"])),
            "i": draw(st.integers(0, 2)), "j": draw(st.integers(0, 2)), "seed": draw(h.seeds()), "sfmt": draw(st.sampled_from(["csc", "coo", "lil", "dense"])),
            "ext": draw(st.sampled_from(["txt", "", "pk", "matt", "npz", "h5", "PKL2"])), "io": draw(st.sampled_from([False, False, True]))}


def check_op(c, ctx):
    s = p11.fsys(c["n"], c["nsp"])
    i, j = c["i"] % c["n"], c["j"] % c["n"]
    op = s.n_op
    s.get_single_site_op(i, 0, op, "boson")
    h.rejects(lambda: s.get_single_site_op(i, 0, op, c["fmt"]), "single site operator with format %r" % c["fmt"])
    if i != j:
        s.get_two_site_op(i, 0, j, 0, op, op, "boson")
        h.rejects(lambda: s.get_two_site_op(i, 0, j, 0, op, op, c["fmt"]), "two site operator with format %r" % c["fmt"])
    e = np.sort(h.rng(c["seed"]).normal(size=4))
    A = h.cvec(c["seed"], 4, 4)
    s.get_response_fn_retarded(A, A.conj().T, e, 1.0, "boson")
    for t in (0.0, 1.3):
        h.rejects(lambda: s.get_response_fn_retarded(A, A.conj().T, e, t, c["fmt"]), "response function with format %r" % c["fmt"])
    D = sp.diags([1., 2., 1., 3.]).tocsr()
    s.get_subspace_projs(D)
    bad = D.toarray() if c["sfmt"] == "dense" else D.asformat(c["sfmt"])
    h.rejects(lambda: s.get_subspace_projs(bad), "subspace projectors of a %s operator" % c["sfmt"])
    if c["io"]:
        tmp = tempfile.mkdtemp(prefix="verif_io_")
        try:
            fn = os.path.join(tmp, "data" + ("." + c["ext"] if c["ext"] else ""))
            h.rejects(lambda: s.save(fn), "saving to a file with extension %r" % c["ext"])
            h.require(not os.listdir(tmp), "a refused save wrote a file")
            with open(fn, "wb") as f:
                f.write(b"x")
            h.rejects(lambda: s.load(fn), "loading a file with extension %r" % c["ext"])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    ctx.label("io" if c["io"] else "noio", "two sites" if i != j else "same site")
    ctx.nontrivial(i != j)


# ---- symmetry, free gas, Green's functions --------------------------------------------------------------------
@st.composite
def misc_st(draw):
    bad = st.sampled_from(["", "3d", "2D", "1", "2", "fermions", "Boson", "great", "time ordered", "causal", "balance", "Positive", "none"])
    return {"bad": draw(bad), "seed": draw(h.seeds()), "n": draw(st.sampled_from([2, 3, 4])), "na": draw(st.integers(2, 4)), "nb": draw(st.integers(5, 7)), "cx": draw(h.dec(-2, 2)),
            "zn": draw(st.sampled_from([2, 3, 4])), "beta": draw(h.dec(0.2, 3)), "i": draw(st.integers(0, 3)), "j": draw(st.integers(0, 3))}


def check_misc(c, ctx):
    from exact_diag import ed_symmetry as sym, fermi_gas as fg, greens_fns as gf
    b, n, r = c["bad"], c["n"], h.rng(c["seed"])
    h.rejects(lambda: sym.getReflFn(np.zeros(2), c["cx"], 0.5), "reflection about the zero vector")
    # a wrong table must not produce projectors
    k = c["zn"]
    T = sp.csr_matrix(np.roll(np.eye(k), 1, axis=0))
    cls = [[T ** m if m else sp.identity(k, format="csr")] for m in range(k)]
    tab = np.exp(-2j * np.pi * np.outer(np.arange(k), np.arange(k)) / k)
    h.same(sum(p.shape[0] for p in sym.get_symmetry_projectors(tab, cls)), k, "dimensions of the sectors of a correct table")
    wrong = tab.copy()
    wrong[c["i"] % k, c["j"] % k] *= -1
    h.rejects(lambda: sym.get_symmetry_projectors(wrong, cls), "character table with a wrong entry")
    h.rejects(lambda: fg.get_allowed_kvects(n, n, b), "momentum grid mode %r" % b)
    for fn in (lambda: fg.fg_density(c["beta"], 0.3, n, b), lambda: fg.fg_kspace_gfns(1.0, 0.1, [[0.1, 0.2]], 0.0, "lesser", b), lambda: fg.fg_density_response(1.0, 0.1, [0.1, 0.2], 0, 0, n, b),
               lambda: fg.get_dos2(n, b), lambda: fg.fg_corr(1.0, 0.2, (1, 0), n, b)):
        h.rejects(fn, "dimension %r" % b)
    h.rejects(lambda: fg.fg_kspace_gfns(1.0, 0.1, [0.1, 0.2], 0.4, b, "1d"), "kind of Green's function %r" % b)
    h.rejects(lambda: fg.fg_realspace_gfn(1.0, 0.1, (1, 0), 0.4, n, "2d", b), "kind of Green's function %r" % b)
    h.rejects(lambda: fg.fg_kspace_gfns(1.0, 0.1, r.normal(size=(3, 2)), 0.4, "lesser", "1d"), "two component momenta for a chain")
    h.rejects(lambda: fg.fg_kspace_gfns(1.0, 0.1, r.normal(size=3), 0.4, "lesser", "2d"), "one component momenta for a square lattice")
    be, mu = np.ones(c["na"]), np.zeros(c["nb"])
    for fn in (lambda: fg.fg_density(be, mu, n, "2d"), lambda: fg.fg_mu(be, mu + 0.4, n, "2d"), lambda: fg.fg_density_response(be, mu, [0.1, 0.3], nsites=n), lambda: fg.fg_realspace_gfn(mu, be, nsites=n)):
        h.rejects(fn, "%d temperatures with %d chemical potentials" % (c["na"], c["nb"]))
    w, t = np.linspace(-2, 2, 6), np.linspace(0, 1, 4)
    h.rejects(lambda: gf.get_matsubara_frqs(c["beta"], 20, format=b), "statistics %r" % b)
    h.rejects(lambda: gf.get_grnfn_imagtime_spectralfn(t, c["beta"], w, np.ones(6), format=b), "statistics %r" % b)
    h.rejects(lambda: gf.get_grnfn_imagtime_spectralfn_kernel(t, c["beta"], w, format=b), "statistics %r" % b)
    h.rejects(lambda: gf.get_noninteracting_gfn_tau(t, 0.3, c["beta"], format=b), "statistics %r" % b)
    h.rejects(lambda: gf.get_noninteracting_gfn_imagfrq(20, 0.3, c["beta"], format=b), "statistics %r" % b)
    ctx.nontrivial()


FACETS = [
    Facet("matrices", mats_st, check_mats, 4800, 19200, "every case: one entry or the size of an adjacency or phase matrix of 2-6 sites is wrong", shards=4),
    Facet("lattices", latt_st, check_latt, 4000, 16000, "every case: random lattice and cell made dependent or incommensurate", shards=4),
    Facet("constructors", cons_st, check_cons, 1200, 4800, "more than one site along the other direction", shards=3),
    Facet("relabelling", perm_st, check_perm, 3200, 12800, "more than two sites", shards=5),
    Facet("fermions", ferm_st, check_ferm, 1670, 6680, "every case", shards=5),
    Facet("spins", spin_st, check_spin, 2400, 9600, "every case", shards=5),
    Facet("operators", op_st, check_op, 1600, 6400, "two different sites", shards=2),
    Facet("misc", misc_st, check_misc, 800, 3200, "every case", shards=3),
]
ASSUMPTIONS = ["only kinds of ill-formed input which the library checks for (others are outside the property)"]
