"""Diagonalisation and evaluation of observables in given states."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems
from props import p11


@st.composite
def herm_st(draw):
    dim = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 13, 16, 24, 60, 140]))
    return {"dim": dim, "seed": draw(h.seeds()), "kind": draw(st.sampled_from(["complex", "real", "degenerate", "diag", "shift", "int", "tiny", "huge"])),
            "fmt": draw(st.sampled_from(["csr", "csc", "coo"]))}


def herm(c):
    d, r = c["dim"], h.rng(c["seed"])
    if c["kind"] == "degenerate":
        q = np.linalg.qr(h.cvec(c["seed"], d, d))[0]
        a = (q * r.integers(-2, 3, size=d)) @ q.conj().T
        return 0.5 * (a + a.conj().T)
    if c["kind"] == "diag":
        return np.diag(r.normal(size=d))
    if c["kind"] == "int":
        a = r.integers(-3, 4, size=(d, d))
        return a + a.T
    a = r.normal(size=(d, d)) + (0 if c["kind"] == "real" else 1j * r.normal(size=(d, d)))
    a = 0.5 * (a + a.conj().T) * {"tiny": 1e-9, "huge": 1e7}.get(c["kind"], 1)
    return a + (50 * np.eye(d) if c["kind"] == "shift" else 0)


def check_diag(c, ctx):
    s = p11.fsys(1, 1)
    H = herm(c)
    e, v = s.diagH(sp.csr_matrix(H).asformat(c["fmt"]))
    d = c["dim"]
    h.require(np.shape(e) == (d,) and np.shape(v) == (d, d), "shapes of eigenvalues %s and eigenvectors %s" % (np.shape(e), np.shape(v)))
    h.require(np.isrealobj(e), "eigenvalues are not real")
    h.require(np.all(np.diff(e) >= 0), "eigenvalues are not in ascending order")
    # a multiple of the Hamiltonian has the same eigenvectors
    k = {"tiny": 1e9, "huge": 1e-7}.get(c["kind"], 1)
    h.close(k * (H @ v), k * (v * e), "H v = E v")
    h.close(v.conj().T @ v, np.eye(d), "orthonormal eigenvectors")
    h.close(k * e, np.linalg.eigvalsh(k * H), "eigenvalues")
    ctx.label(c["kind"], c["fmt"], "d>24" if d > 24 else "small")
    ctx.nontrivial(d > 1)


@st.composite
def sparse_st(draw):
    dim = draw(st.sampled_from([8, 12, 16, 24, 60, 150]))
    return {"dim": dim, "seed": draw(h.seeds()), "kind": draw(st.sampled_from(["complex", "real"])), "fmt": "csr",
            "neigs": draw(st.integers(1, 4 if dim < 20 else 9))}


def check_sparse(c, ctx):
    s = p11.fsys(1, 1)
    H = herm(c)
    e, v = s.diagH(sp.csr_matrix(H), neigs=c["neigs"], use_sparse=True)
    h.require(np.shape(e) == (c["neigs"],) and np.shape(v) == (c["dim"], c["neigs"]), "number of eigenpairs asked for and returned")
    h.require(np.all(np.diff(e) >= 0), "eigenvalues are not in ascending order")
    h.close(H @ v, v * e, "H v = E v (sparse solver)", tol=1e-6)
    h.close(v.conj().T @ v, np.eye(c["neigs"]), "orthonormal eigenvectors (sparse solver)", tol=1e-6)
    ctx.nontrivial()


@st.composite
def exp_st(draw):
    return {"dim": draw(st.sampled_from([2, 3, 5, 8, 16, 70])), "k": draw(st.sampled_from([1, 1, 2, 3, 5, 1, 1, 2, 3, 20])), "l": draw(st.sampled_from([1, 2, 4, 1, 2, 4, 11])),
            "seed": draw(h.seeds()), "vec": draw(st.booleans()), "sparse": draw(st.sampled_from([0, 0, 1, 2, 3])),
            "real": draw(st.booleans()), "zero": draw(st.booleans()), "uo": draw(h.unit()), "us": draw(st.sampled_from([1., 1., 1., 1e-5, 1e4]))}


def check_exp(c, ctx):
    s = p11.fsys(1, 1)
    d = c["dim"]
    # operators in any units, states with any norm
    uo, us = c["uo"], c["us"]
    a, b = h.cvec(c["seed"], d, c["k"]) * us, h.cvec(c["seed"] + 1, d, c["l"])
    if c["real"]:
        a = a.real.copy()
    if c["zero"]:
        a[0, 0] = 0
    op = systems.rand_herm(c["seed"] + 2, d) * uo
    one = c["vec"] and c["k"] == 1
    A = a[:, 0] if one else a
    wa = sp.csr_matrix(a) if c["sparse"] & 1 else h.ro(A)
    want = np.einsum("ik,ij,jk->k", a.conj(), op.toarray(), a).real
    h.close(np.asarray(s.get_exp_vals(wa, op)).ravel() / (uo * us ** 2), want / (uo * us ** 2), "expectation values")
    h.close(np.asarray(s.get_norms(wa)).ravel() / us ** 2, (np.abs(a) ** 2).sum(0) / us ** 2, "squared norms")
    B = b[:, 0] if c["vec"] and c["l"] == 1 else b
    wb = sp.csr_matrix(b) if c["sparse"] & 2 else h.ro(B)
    h.close(h.dense(s.get_overlaps(wa, wb)) / us, a.conj().T @ b / us, "overlaps <1|2>", squeeze=True)
    h.close(h.dense(s.get_matrix_elems(h.ro(a), op)) / (uo * us ** 2), a.conj().T @ op.toarray() @ a / (uo * us ** 2), "matrix elements")
    # subspace weights
    q = np.linalg.qr(h.cvec(c["seed"] + 3, d, d))[0].conj().T
    cut = d // 2
    ps = [sp.csr_matrix(q[:cut]), sp.csr_matrix(q[cut:])]
    got = np.asarray(s.get_subspace_overlaps(h.ro(A), ps)).reshape(2, -1) / us ** 2
    w = np.abs(q @ a) ** 2 / us ** 2
    h.close(got, np.stack([w[:cut].sum(0), w[cut:].sum(0)]), "weights in the two subspaces")
    h.close(got.sum(0), (np.abs(a) ** 2).sum(0) / us ** 2, "weights add up to the norm")
    h.close(np.ravel(s.get_subspace_overlaps(h.ro(A), ps[0])) / us ** 2, got[0], "single projector instead of a list")
    ctx.label("vector" if one else "columns", "sparse%d" % c["sparse"], "real" if c["real"] else "complex")
    ctx.nontrivial(d > 2)


@st.composite
def site_st(draw):
    m = draw(st.sampled_from(["fermi", "spinless", "spin", "fermi", "spinless", "spin", "fermi3"]))
    n = draw(st.integers(1, {"fermi": 3, "fermi3": 2}.get(m, 5)))
    pairs = draw(st.one_of(st.none(), st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(list), min_size=1, max_size=4)))
    sites = draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=4)))
    return {"m": m, "n": n, "pairs": pairs, "sites": sites, "k": draw(st.integers(1, 3)), "seed": draw(h.seeds()), "sp1": draw(st.integers(0, 2)),
            "sp2": draw(st.integers(0, 2)), "odd": draw(st.booleans()), "proj": draw(st.booleans()), "cplx": draw(st.booleans()), "vec": draw(st.booleans()),
            "thermal": draw(st.booleans()), "T": draw(st.lists(st.sampled_from([0.3, 1.0, 4.0, 0., 0.004, 1e5]), min_size=1, max_size=4))}


def check_sites(c, ctx):
    import exact_diag.ed_spins as eds
    from exact_diag.ed_geometry import Geometry
    n, m = c["n"], c["m"]
    if m == "spin":
        s = eds.spinSystem(Geometry.createSquareGeometry(n, 1))
        nsp = 1
    else:
        nsp = {"fermi": 2, "fermi3": 3}.get(m, 1)
        s = p11.fsys(n, nsp)
    k1, k2 = min(c["sp1"], nsp - 1), min(c["sp2"], nsp - 1)
    nm = n * nsp
    dim = 2 ** nm
    odd = c["odd"] and m != "spin"
    fmt = "fermion" if odd else "boson"
    if m == "spin":
        o1, o2 = np.diag([1., 0.]), 0.5 * np.array([[0, 1.], [1., 0]])
        F1 = [h.ref_site_op(o1, i, n, 2) for i in range(n)]
        F2 = [h.ref_site_op(o2, i, n, 2) for i in range(n)]
    elif odd:
        o1, o2 = s.cdag_op, s.c_op
        F1 = [h.ref_cdag(k1 * n + i, nm).toarray() for i in range(n)]
        F2 = [h.ref_cdag(k2 * n + i, nm).toarray().T for i in range(n)]
    else:
        o1, o2 = s.n_op, np.eye(2) - 2 * s.n_op
        F1 = [h.ref_number(k1 * n + i, nm).toarray() for i in range(n)]
        F2 = [np.eye(dim) - 2 * h.ref_number(k2 * n + i, nm).toarray() for i in range(n)]
    P = np.eye(dim)
    kw = {}
    if c["proj"] and dim > 2:
        keep = np.sort(h.rng(c["seed"]).permutation(dim)[:dim // 2])
        P = np.eye(dim)[keep]
        if c.get("cplx"):
            # any orthonormal set of states
            P = np.linalg.qr(h.cvec(c["seed"] + 5, dim, dim))[0][:, :max(2, dim // 2)].T
        kw["projector"] = sp.csr_matrix(P)
    d = P.shape[0]
    a = h.cvec(c["seed"] + 1, d, c["k"])
    a /= np.linalg.norm(a, axis=0)
    st_ = a[:, 0] if c["vec"] and c["k"] == 1 else a
    sites = list(range(n)) if c["sites"] is None else c["sites"]
    if c["sites"] is not None:
        kw1 = dict(kw, sites=c["sites"])
    else:
        kw1 = kw
    ev = lambda O: np.einsum("ik,ij,jk->k", a.conj(), P @ O @ P.conj().T, a).real
    got, gs = s.get_exp_vals_sites(h.ro(st_), h.ro(o1), k1, format=fmt, **kw1)
    h.same([int(x) for x in gs], sites, "sites the expectation values belong to")
    h.close(got, np.array([ev(F1[i]) for i in sites]), "site expectation values")
    pairs = c["pairs"] if c["pairs"] is not None else None
    if pairs is not None:
        kw2 = dict(kw, sites1=[p[0] for p in pairs], sites2=[p[1] for p in pairs])
    else:
        kw2 = kw
    got, g1, g2 = s.get_corr_sites(h.ro(st_), k1, k2, h.ro(o1), h.ro(o2), format=fmt, **kw2)
    lst = [(int(x), int(y)) for x, y in zip(g1, g2)]
    if pairs is None:
        h.require(sorted(map(sorted, lst)) == sorted([i, j] for i in range(n) for j in range(i, n)), "default pairs of sites: %s" % lst)
    else:
        h.same([list(x) for x in lst], pairs, "pairs the correlators belong to")
    h.close(got, np.array([ev(F1[i] @ F2[j]) for i, j in lst]), "correlators")
    if c["thermal"]:
        q, e = np.linalg.qr(h.cvec(c["seed"] + 2, d, d))[0], np.sort(h.rng(c["seed"] + 3).normal(size=d))
        ts = c["T"]

        def tr(O):
            """at every temperature"""
            d = np.einsum("ik,ij,jk->k", q.conj(), P @ O @ P.conj().T, q).real
            ws = [np.exp(-(e - e[0]) / t) if t else (e == e[0]) * 1. for t in ts]
            return [w @ d / w.sum() for w in ws]
        got, gs = s.get_thermal_exp_sites(q, e, h.ro(o1), k1, ts, format=fmt, **kw1)
        h.close(got, np.array([tr(F1[i]) for i in sites]), "thermal site expectation values")
        got, g1, g2 = s.get_thermal_corr_sites(q, e, k1, k2, h.ro(o1), h.ro(o2), ts, format=fmt, **kw2)
        h.same([(int(x), int(y)) for x, y in zip(g1, g2)], lst, "pairs of the thermal correlators")
        h.close(got, np.array([tr(F1[i] @ F2[j]) for i, j in lst]), "thermal correlators")
    ctx.label(m, fmt, "proj" if kw else "full", "default pairs" if pairs is None else "given pairs", "k%d%d" % (k1, k2),
              "thermal" if c["thermal"] else "states")
    ctx.nontrivial(n > 1)


FACETS = [
    Facet("diagonalize", herm_st, check_diag, 1600, 6400, "dimension above 1", shards=2),
    Facet("sparse_solver", sparse_st, check_sparse, 480, 1920, "every case"),
    Facet("states", exp_st, check_exp, 1600, 6400, "dimension above 2", shards=3),
    Facet("sites", site_st, check_sites, 870, 4000, "at least two sites", shards=5),
]
ASSUMPTIONS = ["axes of length one may be squeezed from overlaps"]
