"""Basis labels and special states describe the basis the operators act on."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h
from props.p11 import fsys, shape_st


# ---- fermions ----------------------------------------------------------------------------------------------------
@st.composite
def fl_st(draw):
    nsites, nsp = draw(shape_st(9))
    ns = [draw(st.one_of(st.none(), st.integers(0, nsites))) for _ in range(nsp)]
    return {"nsites": nsites, "nsp": nsp, "ns": ns, "sub": draw(st.sampled_from(["none", "none", "number", "rows"])), "seed": draw(h.seeds())}


def check_fl(c, ctx):
    import exact_diag.ed_fermions as edf
    from exact_diag.ed_geometry import Geometry
    nsites, nsp = c["nsites"], c["nsp"]
    n = nsites * nsp
    g = Geometry.createNonPeriodicGeometry(list(range(nsites)), [0] * nsites)
    s = edf.fermions(g, 0., 1., nspecies=nsp, ns=c["ns"] if c["sub"] == "number" else None)
    proj = None
    if c["sub"] == "number":
        proj = s.n_projector
        # the library's own number sector: also checked as a set of states below
    elif c["sub"] == "rows":
        r = h.rng(c["seed"])
        rows = r.permutation(1 << n)[:1 + c["seed"] % 7]
        proj = sp.csr_matrix(sp.eye(1 << n, format="csr")[np.sort(rows) if c["seed"] % 2 else rows])
    occ, text = s.get_state_vects(projector=proj)
    occ = h.dense(occ)
    P = sp.eye(1 << n, format="csr") if proj is None else sp.csr_matrix(proj)
    h.require(occ.shape == (P.shape[0], n), "one row per basis state, one column per site and species")
    for l in range(n):
        # number operator as the library builds it, in the basis which is labelled
        op = P @ sp.csr_matrix(s.get_single_site_op(l % nsites, l // nsites, s.n_op, format="boson")) @ P.conj().T
        op = h.dense(op)
        h.close(np.diag(occ[:, l]), op, "occupation label of site %d of species %d, against its number operator" % (l % nsites, l // nsites))
        # and independent of the library
        if c["sub"] != "number":
            ref = h.dense(P @ h.ref_number(l, n) @ P.T) if n <= 9 else op
            h.close(np.diag(occ[:, l]), ref, "occupation label of mode %d" % l)
    h.same(text.split(), ["%d%s" % (i, "abcdef"[k]) for k in range(nsp) for i in range(nsites)], "column labels")
    if c["sub"] == "number":
        got = sorted(tuple(int(round(x)) for x in row) for row in occ)
        want = []
        for b in range(1 << n):
            row = tuple((b >> (n - 1 - l)) & 1 for l in range(n))
            if all(m is None or sum(row[k * nsites:(k + 1) * nsites]) == m for k, m in enumerate(c["ns"])):
                want.append(row)
        h.same(got, sorted(want), "labels of the states with particle numbers %s" % c["ns"])
    else:
        h.require(len({tuple(np.round(row)) for row in occ}) == len(occ), "different states have different labels")
    ctx.label(c["sub"], "species%d" % nsp)
    ctx.nontrivial(n > 1 and len(occ) > 1)


# ---- spins -------------------------------------------------------------------------------------------------------
@st.composite
def sl_st(draw):
    return {"g": draw(h.geom_spec(nmax=9, nmin=draw(st.sampled_from([1, 2, 4, 6])))), "seed": draw(h.seeds())}


def check_sl(c, ctx):
    import exact_diag.ed_spins as eds
    g = h.build_geom(c["g"])
    n = g.nsites
    s = eds.spinSystem(g)
    lab = h.dense(s.get_state_vects())
    h.require(lab.shape == (1 << n, n), "one row per basis state, one column per site")
    for i in range(n):
        z = sp.csr_matrix(s.get_single_site_op(i, 0, s.sz, format="boson"))
        h.close((z - sp.diags(lab[:, i] - 0.5)).toarray() if n <= 6 else np.asarray(z.diagonal()) - (lab[:, i] - 0.5),
                np.zeros((1 << n, 1 << n)) if n <= 6 else np.zeros(1 << n), "label of site %d against its S^z" % i)
    want = 1 - ((np.arange(1 << n)[:, None] >> (n - 1 - np.arange(n))[None, :]) & 1)
    h.close(lab, want, "label of basis states")
    h.close(np.asarray(s.get_state_parity()).ravel(), want.sum(1) % 2, "parity of the number of up spins")
    ctx.label("n%d" % n)
    ctx.nontrivial(n > 1)


# ---- special states ----------------------------------------------------------------------------------------------
@st.composite
def sp_st(draw):
    n1 = draw(st.sampled_from([1, 2, 3, 3, 4, 5, 7, 9, 10]))
    n2 = draw(st.sampled_from([k for k in (1, 2, 3, 4, 5, 6) if n1 * k <= 10]))
    return {"n1": n1, "n2": n2, "num": draw(st.booleans())}


def check_sp(c, ctx):
    import exact_diag.ed_spins as eds
    from exact_diag.ed_geometry import Geometry
    n1, n2 = c["n1"], c["n2"]
    g = Geometry.createSquareGeometry(n1, n2, bc1_open=True, bc2_open=True)
    n = n1 * n2
    s = eds.spinSystem(g)
    with h.silent():
        states, names = s.find_special_states(n1, n2, c["num"])
    states = h.dense(states)
    h.same(sorted(names), ["AFM1", "AFM2", "AllDn", "AllMinus", "AllPlus", "AllUp", "SymmExc"], "names of the states")
    h.require(states.shape == (1 << n, 7), "one column per state")
    v = {k: states[:, i] for i, k in enumerate(names)}
    h.close(np.sum(np.abs(states) ** 2, 0), np.ones(7), "norms")
    Z = [sp.csr_matrix(h.ref_site_op(np.diag([1., -1.]), i, n, 2)) for i in range(n)]
    X = [sp.csr_matrix(h.ref_site_op(np.array([[0, 1.], [1, 0]]), i, n, 2)) for i in range(n)]

    def ev(op, k):
        return float(np.real(v[k].conj() @ (op @ v[k])))
    afm = n > 1 and (n1 % 2 == 1 or not c["num"])
    for i in range(n):
        h.close(ev(Z[i], "AllUp"), 1, "spin %d of AllUp" % i)
        h.close(ev(Z[i], "AllDn"), -1, "spin %d of AllDn" % i)
        h.close(ev(X[i], "AllPlus"), 1, "x-component of spin %d of AllPlus" % i)
        h.close(ev(X[i], "AllMinus"), -1, "x-component of spin %d of AllMinus" % i)
        if afm:
            h.close(ev(Z[i], "AFM1"), (-1) ** i, "spin %d of AFM1" % i)
            h.close(ev(Z[i], "AFM2"), -(-1) ** i, "spin %d of AFM2" % i)
        h.close(ev(Z[i], "SymmExc"), 2. / n - 1, "spin %d of SymmExc" % i)
    ref = np.zeros(1 << n)
    for i in range(n):
        ref[(1 << n) - 1 - (1 << i)] = 1 / np.sqrt(n)
    h.close(abs(np.vdot(ref, v["SymmExc"])), 1, "SymmExc is the symmetric superposition of one excitation")
    if not afm:
        h.close(abs(v["AFM1"][0]), 1, "fallback for AFM1")
        h.close(abs(v["AFM2"][-1]), 1, "fallback for AFM2")
    ctx.label("afm" if afm else "fallback", "n%d" % n)
    ctx.nontrivial(n > 2)


FACETS = [
    Facet("fermions", fl_st, check_fl, 700, 4000, "more than one mode and more than one state", shards=5),
    Facet("spins", sl_st, check_sl, 680, 3000, "more than one site", shards=5),
    Facet("special", sp_st, check_sp, 200, 800, "more than two sites", shards=5),
]
ASSUMPTIONS = ["spin labels, parities and special states are those of spin-1/2 systems", "projectors with real rows which select basis states",
               "antiferromagnetic order is with respect to the numbering of the sites; where the library says it falls back to ferromagnetic states, these are expected"]
