"""Fermion Hamiltonian."""
import itertools

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h


def herm_arr(seed, n, nsp, real):
    out = np.zeros((n, n, nsp), dtype=float if real else complex)
    r = h.rng(seed)
    for k in range(nsp):
        a = np.round(r.normal(size=(n, n)), 3) + (0 if real else 1j * np.round(r.normal(size=(n, n)), 3))
        if not real:
            # some amplitudes are exactly real, some exactly imaginary
            w = r.random((n, n))
            a = np.where(w < 0.35, 1j * a.imag, np.where(w > 0.85, a.real, a))
        a = np.tril(a, -1) * (r.random((n, n)) < 0.7)
        out[:, :, k] = a + a.conj().T
    return out


def symm_arr(seed, n, nsp):
    r = h.rng(seed)
    out = np.zeros((n, n, nsp))
    for k in range(nsp):
        a = np.round(r.normal(size=(n, n)), 3) * (r.random((n, n)) < 0.6)
        # (a one-site array is also a list of values per species: no on-site entry there)
        out[:, :, k] = np.tril(a, -1 if n == 1 else 0) + np.tril(a, -1).T
    return out


@st.composite
def case_st(draw, nmodes=6, nsps=(1, 1, 2, 2, 2, 2, 3, 3, 4), large=False):
    nsp = draw(st.sampled_from(list(nsps)))
    nmax = max(2, nmodes // nsp)
    g = draw(h.geom_spec(nmax=nmax, nmin=nmax - (nsp == 1) if large else min(nmax, draw(st.sampled_from([2, 3, 2, 3, 4, 1]))), twist=True))
    n = h.nsites_of(g)
    c = {"g": g, "nsp": nsp, "seed": draw(h.seeds())}
    c["t"] = draw(st.one_of(h.coupl(), st.lists(h.coupl(), min_size=nsp, max_size=nsp), st.sampled_from(["real", "complex"])))
    c["u"] = draw(st.one_of(h.coupl(), st.lists(h.coupl(), min_size=n, max_size=n))) if nsp == 2 else 0.
    c["v"] = draw(st.one_of(h.coupl(), st.lists(h.coupl(), min_size=nsp, max_size=nsp), st.sampled_from(["arr"])))
    c["mu"] = draw(st.one_of(h.coupl(), st.lists(h.coupl(), min_size=nsp, max_size=nsp)))
    c["pot"] = draw(st.one_of(h.coupl(), st.lists(h.coupl(), min_size=nsp, max_size=nsp), st.sampled_from(["arr"])))
    if nsp == 1:
        c["flat"] = draw(st.booleans())
    c["ints"] = draw(st.booleans())
    c["proj"] = draw(st.sampled_from(["none", "none", "number", "isometry"]))
    c["ns"] = [draw(st.integers(0, n)) for _ in range(nsp)]
    # units of energy, and one term much smaller than the others
    c["unit"] = draw(h.unit())
    if draw(st.integers(0, 2)) == 0:
        c["tiny"] = {draw(st.sampled_from(["t", "u", "v", "mu", "pot"])): draw(st.sampled_from([1e-6, 1e-9, 1e-13]))}
    return c


def resolve(c, g):
    """(arguments for the constructor, full arrays for the reference)"""
    n, nsp, seed = g.nsites, c["nsp"], c["seed"]
    adj = np.asarray(g.adjacency_mat, float)
    ph = np.asarray(g.phase_mat)
    flat = c.get("flat") and nsp == 1
    t = c["t"]
    if isinstance(t, str):
        T = herm_arr(seed, n, nsp, t == "real")
        ta = T[:, :, 0] if flat else T
    else:
        tv = np.broadcast_to(np.asarray(t, float).ravel(), (nsp,))
        T = np.stack([tv[k] * adj * ph for k in range(nsp)], axis=2)
        ta = t
    v = c["v"]
    if v == "arr":
        V = symm_arr(seed + 1, n, nsp)
        va = V[:, :, 0] if flat else V
    else:
        vv = np.broadcast_to(np.asarray(v, float).ravel(), (nsp,))
        V = np.stack([vv[k] * adj for k in range(nsp)], axis=2)
        va = v
    pot = c["pot"]
    if pot == "arr":
        P = np.round(h.rng(seed + 2).normal(size=(n, nsp)), 3)
        pa = P[:, 0] if flat else P
    else:
        P = np.broadcast_to(np.asarray(pot, float).ravel(), (nsp,))[None, :] * np.ones((n, 1))
        pa = pot
    MU = np.broadcast_to(np.asarray(c["mu"], float).ravel(), (nsp,)) * np.ones(nsp)
    U = np.broadcast_to(np.asarray(c["u"], float).ravel(), (n,)) * np.ones(n)
    f = {k: c.get("unit", 1.) * c.get("tiny", {}).get(k, 1.) for k in ("t", "u", "v", "mu", "pot")}

    def arg(x, k):
        if isinstance(x, list):
            x = np.array(x)
        x = x * f[k] if f[k] != 1. else x
        if isinstance(x, np.ndarray):
            return h.ro(x)
        if c.get("ints") and float(x) == int(x):
            return int(x)
        return x
    return dict(us_interspecies=arg(c["u"], "u"), ts=arg(ta, "t"), us_same_species=arg(va, "v"), mus=arg(c["mu"], "mu"), potentials=arg(pa, "pot"),
                nspecies=nsp), (T * f["t"], U * f["u"], V * f["v"], MU * f["mu"], P * f["pot"])


def both(got, want, terms, what):
    """diagonal and off-diagonal parts, each relative to its own size (and to the rounding of the largest term)"""
    g, w = h.dense(got), h.dense(want)
    h.same(g.shape, w.shape, "shape of the " + what)
    m = sum(float(np.sum(np.abs(x))) for x in terms)
    h.rclose(np.diag(g), np.diag(w), what + ", diagonal", 1e-11, floor=1e-4 * m)
    h.rclose(g - np.diag(np.diag(g)), w - np.diag(np.diag(w)), what + ", off-diagonal", 1e-11, floor=1e-4 * m)


def check(c, ctx):
    import exact_diag.ed_fermions as edf
    g = h.build_geom(c["g"])
    args, (T, U, V, MU, P) = resolve(c, g)
    s = edf.fermions(g, args.pop("us_interspecies"), args.pop("ts"), **args)
    n, nsp = g.nsites, c["nsp"]
    want = h.ref_fermion_h(n, nsp, T, U, V, MU, P)
    if c["proj"] == "none":
        H = h.dense(s.createH())
        Pm = np.eye(want.shape[0])
    else:
        if c["proj"] == "number":
            occ = h.ref_occ(n * nsp).reshape(-1, nsp, n).sum(2)
            keep = np.where(np.all(occ == np.array(c["ns"]), axis=1))[0]
            Pm = np.eye(want.shape[0])[keep]
        else:
            q = np.linalg.qr(h.cvec(c["seed"] + 5, want.shape[0], want.shape[0]))[0]
            Pm = q[:max(1, want.shape[0] // 2)]
        H = h.dense(s.createH(projector=sp.csr_matrix(Pm)))
    if c["proj"] == "isometry":
        h.rclose(H, Pm @ want @ Pm.conj().T, "Hamiltonian matrix", floor=1e-3 * sum(float(np.sum(np.abs(x))) for x in (T, U, V, MU, P)))
    else:
        both(H, Pm @ want @ Pm.conj().T, (T, U, V, MU, P), "Hamiltonian matrix")
    h.rclose(H, H.conj().T, "Hermiticity of the Hamiltonian", floor=1e-3 * sum(float(np.sum(np.abs(x))) for x in (T, U, V, MU, P)))
    ctx.label("nsp%d" % nsp, c["proj"], "t:" + (c["t"] if isinstance(c["t"], str) else type(c["t"]).__name__), c["g"]["kind"],
              "n%d" % n, "unit" if c["unit"] != 1. else "O(1)", *["tiny " + k for k in c.get("tiny", {})])
    ctx.nontrivial(n > 1 and bool(np.any(T != 0)))


def check_terms(c, ctx):
    """each term on its own, and H is their sum"""
    import exact_diag.ed_fermions as edf
    g = h.build_geom(c["g"])
    args, (T, U, V, MU, P) = resolve(c, g)
    s = edf.fermions(g, args.pop("us_interspecies"), args.pop("ts"), **args)
    n, nsp = g.nsites, c["nsp"]
    z = [np.zeros_like(T), np.zeros(n), np.zeros_like(V), np.zeros(nsp), np.zeros((n, nsp))]
    full = [T, U, V, MU, P]

    def ref(i):
        a = list(z)
        a[i] = full[i]
        return h.ref_fermion_h(n, nsp, *a)
    h.rclose(h.dense(s.get_kinetic_op(direction_vect=None)), ref(0), "kinetic term")
    if nsp == 2:
        h.rclose(h.dense(s.get_u_interspecies_op(U)), ref(1), "interaction between species")
    h.rclose(h.dense(s.get_u_samespecies_op(V)), ref(2), "interaction within a species")
    h.rclose(h.dense(s.get_chemical_pot_op(MU)), ref(3), "chemical potential term")
    h.rclose(h.dense(s.get_potential_op(P)), ref(4), "potential term")
    both(h.dense(s.createH()), sum(ref(i) for i in range(5)), full, "Hamiltonian as the sum of its terms")
    if nsp == 2:
        # one number for all sites
        u = int(c["seed"] % 7) - 3 if c["ints"] else 1.25
        a = list(z)
        a[1] = np.full(n, float(u))
        h.rclose(h.dense(s.get_u_interspecies_op(u)), h.ref_fermion_h(n, nsp, *a), "interaction between species given as a number")
    # the terms inside a subspace
    q = np.linalg.qr(h.cvec(c["seed"], s.nstates, s.nstates))[0].conj().T[:1 + c["seed"] % s.nstates]
    Q = sp.csr_matrix(q)
    for i, (fn, arg, what) in enumerate(((s.get_kinetic_op, {"direction_vect": None}, "kinetic term"), (s.get_u_interspecies_op, {"us": U}, "interaction between species"),
                                         (s.get_u_samespecies_op, {"us": V}, "interaction within a species"), (s.get_chemical_pot_op, {"mus": MU}, "chemical potential term"),
                                         (s.get_potential_op, {"vs": P}, "potential term"))):
        if i == 1 and nsp != 2:
            continue
        h.rclose(h.dense(fn(projector=Q, **arg)), q @ ref(i) @ q.conj().T, what + " in a subspace")
    ctx.label("nsp%d" % nsp)
    ctx.nontrivial(n > 1)


@st.composite
def free_st(draw):
    nsp = draw(st.sampled_from([1, 2]))
    g = draw(h.geom_spec(nmax=8 // nsp, twist=True, nmin=2))
    return {"g": g, "nsp": nsp, "seed": draw(h.seeds()), "t": draw(st.one_of(h.nonzero(), st.sampled_from(["complex"]))), "u": 0.,
            "v": 0., "mu": draw(st.lists(h.coupl(), min_size=nsp, max_size=nsp)), "pot": "arr", "flat": False, "ints": False}


def check_free(c, ctx):
    """without interactions every many-body energy is a sum of single particle energies"""
    import exact_diag.ed_fermions as edf
    g = h.build_geom(c["g"])
    args, (T, U, V, MU, P) = resolve(c, g)
    s = edf.fermions(g, args.pop("us_interspecies"), args.pop("ts"), **args)
    nsp = c["nsp"]
    es = np.concatenate([np.linalg.eigvalsh(-T[:, :, k] + np.diag(P[:, k] - MU[k])) for k in range(nsp)])
    want = np.zeros(1)
    for e in es:
        want = np.concatenate([want, want + e])
    got, _ = s.diagH(s.createH())
    h.close(got, np.sort(want), "many-body spectrum of a quadratic Hamiltonian")
    ctx.label(c["g"]["kind"], "nsp%d" % nsp)
    ctx.nontrivial()


FACETS = [
    Facet("hamiltonian", case_st, check, 300, 7000, "at least one nonzero hopping amplitude", shards=5),
    Facet("terms", lambda: case_st(6, (1, 2)), check_terms, 220, 2500, "at least two sites", shards=5),
    Facet("free_spectrum", free_st, check_free, 230, 1200, "every case", shards=5),
    Facet("large", lambda: case_st(9, (1, 1, 2, 3), True), check, 24, 500, "8 or 9 modes; at least one nonzero hopping amplitude", shards=8),
]
ASSUMPTIONS = ["hopping arrays Hermitian with zero diagonal, same-species interaction arrays symmetric",
               "interaction between species only for two species", "at most 9 modes"]
