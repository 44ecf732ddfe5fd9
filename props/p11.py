"""Operators on the many-body space."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h


def fsys(nsites, nsp, seed=0):
    import exact_diag.ed_fermions as edf
    from exact_diag.ed_geometry import Geometry
    xs = list(h.rng(seed).permutation(nsites)) if seed else list(range(nsites))
    g = Geometry.createNonPeriodicGeometry([int(x) for x in xs], [0] * nsites)
    return edf.fermions(g, 0., 1., nspecies=nsp)


@st.composite
def shape_st(draw, nmax=7):
    nsp = draw(st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 4]))
    top = max(2, nmax // nsp)
    nsites = draw(st.sampled_from(list(range(1, top + 1)) + [top, max(1, top - 1)]))
    return nsites, nsp


@st.composite
def pair_st(draw, large=False):
    nsites, nsp = draw(shape_st()) if not large else draw(st.sampled_from([(8, 1), (9, 1), (10, 1), (4, 2), (5, 2), (3, 3), (2, 4), (2, 5)]))
    i = [draw(st.integers(0, nsites - 1)), draw(st.integers(0, nsp - 1))]
    j = [draw(st.integers(0, nsites - 1)), draw(st.integers(0, nsp - 1))]
    return {"nsites": nsites, "nsp": nsp, "i": i, "j": j,
            "a": [draw(h.coupl()) for _ in range(4)], "b": [draw(h.coupl()) for _ in range(4)],
            "int": draw(st.sampled_from(["int", "np"])), "seed": draw(h.seeds())}


def check_pair(c, ctx):
    """fermionic single and two site operators are the second-quantised ones"""
    s = fsys(c["nsites"], c["nsp"])
    n = c["nsites"] * c["nsp"]
    cast = int if c["int"] == "int" else np.int64
    (i, ki), (j, kj) = c["i"], c["j"]
    li, lj = ki * c["nsites"] + i, kj * c["nsites"] + j
    i, ki, j, kj = cast(i), cast(ki), cast(j), cast(kj)
    cd = [h.ref_cdag(l, n) for l in range(n)]
    cc = [m.T.tocsr() for m in cd]
    a, b = np.array(c["a"]), np.array(c["b"])
    za = a[0] + 1j * a[1], a[2] + 1j * a[3]
    zb = b[0] + 1j * b[1], b[2] + 1j * b[3]
    opa = h.ro(za[0] * s.c_op + za[1] * s.cdag_op)
    opb = h.ro(zb[0] * s.c_op + zb[1] * s.cdag_op)
    A = za[0] * cc[li] + za[1] * cd[li]
    B = zb[0] * cc[lj] + zb[1] * cd[lj]
    h.sclose(s.get_single_site_op(i, ki, opa, format="fermion"), A, "annihilation/creation combination on one site")
    h.sclose(s.get_two_site_op(i, ki, j, kj, opa, opb, format="fermion"), A @ B, "product of odd operators on sites %s, %s" % (c["i"], c["j"]))
    # even operators (combinations of 1 and n), no string
    ea = h.ro(np.diag([za[0], za[0] + za[1]]))
    eb = h.ro(np.diag([zb[0], zb[0] + zb[1]]))
    E = sp.eye(1 << n)
    EA = za[0] * E + za[1] * h.ref_number(li, n)
    EB = zb[0] * E + zb[1] * h.ref_number(lj, n)
    h.sclose(s.get_single_site_op(i, ki, ea, format="boson"), EA, "even operator on one site")
    h.sclose(s.get_two_site_op(i, ki, j, kj, ea, eb, format="boson"), EA @ EB, "product of even operators")
    # whichever operators: product of two = two times one
    ga, gb = h.ro(h.cvec(c["seed"], 2, 2)), h.ro(h.cvec(c["seed"] + 1, 2, 2))
    for f in ("fermion", "boson"):
        h.sclose(s.get_two_site_op(i, ki, j, kj, ga, gb, format=f),
                 sp.csr_matrix(s.get_single_site_op(i, ki, ga, format=f)) @ sp.csr_matrix(s.get_single_site_op(j, kj, gb, format=f)),
                 "two site operator vs product of single site operators (%s)" % f)
    ctx.label("same" if li == lj else ("ordered" if li < lj else "reversed"), "nsp%d" % c["nsp"],
              "far" if abs(li - lj) > 1 else "near")
    ctx.nontrivial(n > 1 and np.abs(a).max() > 0 and np.abs(b).max() > 0)


@st.composite
def car_st(draw):
    nsites, nsp = draw(shape_st(6))
    return {"nsites": nsites, "nsp": nsp}


def car_all():
    return [{"nsites": a, "nsp": b} for b in (1, 2, 3) for a in range(1, 7) if a * b <= 6]


def check_car(c, ctx):
    s = fsys(c["nsites"], c["nsp"])
    n = c["nsites"] * c["nsp"]
    modes = [(i, k) for k in range(c["nsp"]) for i in range(c["nsites"])]
    A = [sp.csr_matrix(s.get_single_site_op(i, k, s.c_op)) for i, k in modes]
    Ad = [sp.csr_matrix(s.get_single_site_op(i, k, s.cdag_op)) for i, k in modes]
    E = sp.eye(1 << n, format="csr")
    Z = sp.csr_matrix(E.shape)
    for p in range(n):
        h.sclose(Ad[p], A[p].conj().T, "creation is the adjoint of annihilation")
        h.sclose(s.get_single_site_op(*modes[p], s.n_op, format="boson"), Ad[p] @ A[p], "number = c+ c")
        for q in range(p + 1):
            h.sclose(A[p] @ Ad[q] + Ad[q] @ A[p], E if p == q else Z, "{c, c+} for modes %s, %s" % (modes[p], modes[q]))
            h.sclose(A[p] @ A[q] + A[q] @ A[p], Z, "{c, c} for modes %s, %s" % (modes[p], modes[q]))
    ctx.label("nsp%d" % c["nsp"])
    ctx.nontrivial(n > 1)


@st.composite
def qvec(draw):
    a, b = draw(h.dec(-4, 4)), draw(h.dec(-4, 4))
    pi = float(np.pi)
    return draw(st.sampled_from([[a, b], [a, b], [a, -a], [a, a], [a, 0.], [0., b], [pi, -pi], [pi, 0.], [0., -pi], [pi, pi], [0., 0.], [2 * pi, 0.], [2 * pi, a], [1e-4, b], [-1e-3, 1e-3]]))


@st.composite
def sum_st(draw):
    nsp = draw(st.sampled_from([1, 2]))
    g = draw(h.geom_spec(nmax=6 // nsp, min_periodic=3))
    return {"g": g, "nsp": nsp, "sp": draw(st.integers(0, nsp - 1)), "q": draw(qvec()),
            "odd": draw(st.booleans()), "seed": draw(h.seeds())}


def check_sum(c, ctx):
    import exact_diag.ed_fermions as edf
    g = h.build_geom(c["g"])
    n, nsp, k = g.nsites, c["nsp"], c["sp"]
    s = edf.fermions(g, 0., 0., nspecies=nsp)
    z = h.cvec(c["seed"], 2)
    if c["odd"]:
        op, f = z[0] * s.c_op + z[1] * s.cdag_op, "fermion"
        ops = [z[0] * h.ref_cdag(k * n + i, n * nsp).T + z[1] * h.ref_cdag(k * n + i, n * nsp) for i in range(n)]
    else:
        op, f = z[0] * np.eye(2) + z[1] * s.n_op, "boson"
        ops = [z[0] * sp.eye(1 << (n * nsp)) + z[1] * h.ref_number(k * n + i, n * nsp) for i in range(n)]
    tot = s.get_sum_op(h.ro(op), k, format=f)
    h.require(sp.isspmatrix_csr(tot), "sum operator is not in csr form")
    h.sclose(tot, sum(ops), "sum of site operators")
    q = c["q"]
    want = sum(np.exp(1j * (q[0] * g.xlocs[i] + q[1] * g.ylocs[i])) * ops[i] for i in range(n))
    h.sclose(s.get_sum_op_q(k, q, h.ro(op), format=f), want, "Fourier component of site operators")
    h.sclose(s.get_sum_op_q(k, [0., 0.], h.ro(op), format=f), tot, "Fourier component at q = 0")
    ctx.label("odd" if c["odd"] else "even", "nsp%d" % nsp)
    ctx.nontrivial(n > 1 and any(q))


@st.composite
def idx_st(draw):
    n = draw(st.integers(1, 40))
    return {"n": n, "site": draw(st.integers(0, n - 1)), "sp": draw(st.integers(0, 5))}


def check_idx(c, ctx):
    s = fsys(1, 1)
    l = s.spinful2spinlessIndex(c["site"], c["n"], c["sp"])
    h.require(int(l) == c["sp"] * c["n"] + c["site"], "logical index of site %d species %d of %d sites is %s" % (c["site"], c["sp"], c["n"], l))
    a, b = s.spinless2spinfullIndex(l, c["n"])
    h.require(a == c["site"] and b == c["sp"], "index round trip: got site %s species %s" % (a, b))
    ctx.nontrivial(c["sp"] > 0)


@st.composite
def swap_st(draw):
    nsites, nsp = draw(shape_st(6))
    a = draw(st.integers(0, nsites - 1))
    b = (a + draw(st.integers(min(1, nsites - 1), max(0, nsites - 1)))) % nsites
    return {"nsites": nsites, "nsp": nsp, "a": a, "b": b, "sp": draw(st.integers(0, nsp - 1))}


def check_swap(c, ctx):
    if c["a"] == c["b"]:
        ctx.label("same site, not judged")
        return
    s = fsys(c["nsites"], c["nsp"])
    n = c["nsites"] * c["nsp"]
    u = sp.csr_matrix(s.get_swap_op(c["a"], c["b"], c["sp"]))
    la, lb = c["sp"] * c["nsites"] + c["a"], c["sp"] * c["nsites"] + c["b"]
    h.sclose(u @ u.conj().T, sp.eye(1 << n), "swap operator is unitary")
    for l in range(n):
        want = h.ref_cdag(lb if l == la else la if l == lb else l, n)
        h.sclose(u @ h.ref_cdag(l, n) @ u.conj().T, want, "swap of sites %d, %d acting on mode %d" % (c["a"], c["b"], l))
    v = np.zeros(1 << n)
    v[0] = 1
    h.close(u @ v, v, "swap of the vacuum")
    ctx.label("nsp%d" % c["nsp"])
    ctx.nontrivial(n > 2)


FACETS = [
    Facet("pairs", pair_st, check_pair, 1000, 6000, "more than one mode and both operators nonzero", shards=5),
    Facet("car", car_all, check_car, 1, 1, "more than one mode; all mode numbers up to 6 (exhaustive)", exhaustive=True),
    Facet("sums", sum_st, check_sum, 800, 3200, "more than one site and q != 0", shards=5),
    Facet("index", idx_st, check_idx, 1600, 6400, "species above 0"),
    Facet("swap", swap_st, check_swap, 960, 3840, "at least three modes", shards=3),
    Facet("large", lambda: pair_st(True), check_pair, 60, 600, "the same for 8 to 10 modes", shards=5),
]
ASSUMPTIONS = ["odd operators are used with the fermion format and even ones with the boson format, as everywhere in the library",
               "at most 7 modes"]
