"""Spin operators and the spin Hamiltonian."""
import itertools

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h

NMAX = {0.5: 6, 1.0: 4, 1.5: 3, 2.0: 2, 2.5: 2, 3.0: 2, 4.5: 2}


def spin_mats_all():
    return [{"twos": k} for k in list(range(1, 17)) + [25, 40]]


def check_mats(c, ctx):
    import exact_diag.ed_spins as eds
    from exact_diag.ed_geometry import Geometry
    s = c["twos"] / 2
    sx, sy, sz, spl, smi = h.ref_spin(s)
    o = eds.spinSystem(Geometry.createNonPeriodicGeometry([0], [0]), spin=s)
    for nm, got, want in (("x", o.sx, sx), ("y", o.sy, sy), ("z", o.sz, sz), ("plus", o.splus, spl), ("minus", o.sminus, smi),
                          ("x fn", o.get_sx(s), sx), ("y fn", o.get_sy(s), sy), ("z fn", o.get_sz(s), sz),
                          ("plus fn", o.get_splus(s), spl), ("minus fn", o.get_sminus(s), smi)):
        h.close(h.dense(got), want, "spin-%g matrix %s" % (s, nm))
    X, Y, Z = h.dense(o.sx), h.dense(o.sy), h.dense(o.sz)
    h.close(X @ Y - Y @ X, 1j * Z, "[Sx, Sy] = i Sz")
    h.close(X @ X + Y @ Y + Z @ Z, s * (s + 1) * np.eye(len(Z)), "S^2 = s (s + 1)")
    h.require(o.nbasis == c["twos"] + 1 and o.nstates == c["twos"] + 1, "number of states of one spin-%g" % s)
    ctx.nontrivial()


@st.composite
def case_st(draw, large=False):
    s = draw(st.sampled_from([0.5, 0.5, 0.5, 1.0, 1.5, 2.0] + ([] if large else [2.5, 3.0, 4.5])))
    if large:
        k = {0.5: 8, 1.0: 5, 1.5: 4, 2.0: 3}[s]
        g = draw(h.geom_spec(nmax=k, nmin=k - (s == 0.5), kinds=("square", "triangle", "cluster", "cluster", "hex", "polygon")))
    else:
        g = draw(h.geom_spec(nmax=NMAX[s], nmin=min(NMAX[s], draw(st.sampled_from([2, 3, 2, 3, 4, 1])))))
    n = h.nsites_of(g)
    c = {"g": g, "s": s, "seed": draw(h.seeds())}
    for k in ("jx", "jy", "jz"):
        c[k] = draw(st.one_of(h.coupl(), h.coupl(), st.sampled_from(["mat"] + (["chain"] if n > 2 else []))))
    for k in ("hx", "hy", "hz"):
        c[k] = draw(st.one_of(h.coupl(), h.coupl(), st.sampled_from(["arr"])))
    c["ryd"] = draw(st.sampled_from([False, False, True]))
    c["proj"] = draw(st.sampled_from([False, False, True]))
    c["ints"] = draw(st.booleans())
    # units of energy, and one term much smaller than the others
    c["unit"] = draw(h.unit())
    if draw(st.integers(0, 2)) == 0:
        c["tiny"] = {draw(st.sampled_from(["jx", "jy", "jz", "hx", "hy", "hz"])): draw(st.sampled_from([1e-6, 1e-9]))}
    return c


def resolve(c, g):
    n = g.nsites
    adj = np.asarray(g.adjacency_mat, float)
    args, J, H = {}, {}, {}
    for i, k in enumerate(("jx", "jy", "jz")):
        r = h.rng(c["seed"] + i)
        if c[k] == "mat":
            a = np.tril(np.round(r.normal(size=(n, n)), 3), -1)
            J[k] = a + a.T
            args[k] = h.ro(J[k])
        elif c[k] == "chain":
            v = np.round(r.normal(size=n), 3)
            m = np.zeros((n, n))
            for q in range(n):
                m[q, (q + 1) % n] = m[(q + 1) % n, q] = v[q]
            J[k] = m
            args[k] = h.ro(v)
        else:
            J[k] = c[k] * adj
            args[k] = int(c[k]) if c["ints"] and c[k] == int(c[k]) else float(c[k])
    for i, k in enumerate(("hx", "hy", "hz")):
        if c[k] == "arr":
            H[k] = np.round(h.rng(c["seed"] + 10 + i).normal(size=n), 3)
            args[k] = h.ro(H[k])
        else:
            H[k] = c[k] * np.ones(n)
            args[k] = int(c[k]) if c["ints"] and c[k] == int(c[k]) else float(c[k])
    for k in args:
        f = c.get("unit", 1.) * c.get("tiny", {}).get(k, 1.)
        if f != 1.:
            args[k] = h.ro(args[k] * f) if isinstance(args[k], np.ndarray) else args[k] * f
            D = J if k in J else H
            D[k] = D[k] * f
    if c["ryd"]:
        H["hz"] = H["hz"] - J["jz"].sum(1)
    return args, J, H


def ref_h(n, s, J, H):
    ops = h.ref_spin(s)[:3]
    d = int(round(2 * s + 1))
    full = [[h.ref_site_op(o, i, n, d) for i in range(n)] for o in ops]
    m = np.zeros((d ** n, d ** n), complex)
    for a, (j, f) in enumerate((("jx", "hx"), ("jy", "hy"), ("jz", "hz"))):
        for i in range(n):
            m -= H[f][i] * full[a][i]
            for k in range(i):
                if J[j][i, k] != 0:
                    m += 2 * J[j][i, k] * full[a][i] @ full[a][k]
    return m


def check(c, ctx):
    import exact_diag.ed_spins as eds
    g = h.build_geom(c["g"])
    args, J, H = resolve(c, g)
    o = eds.spinSystem(g, use_ryd_detunes=c["ryd"], spin=c["s"], **args)
    want = ref_h(g.nsites, c["s"], J, H)
    if c["proj"]:
        q = np.linalg.qr(h.cvec(c["seed"] + 20, len(want), len(want)))[0][:max(1, len(want) // 2)]
        got = h.dense(o.createH(projector=sp.csr_matrix(q)))
        want = q @ want @ q.conj().T
    else:
        got = h.dense(o.createH())
    size = sum(float(np.sum(np.abs(x))) for x in list(J.values()) + list(H.values()))
    h.rclose(got, want, "spin Hamiltonian", 1e-12, floor=size)
    h.rclose(got, got.conj().T, "Hermiticity of the spin Hamiltonian", 1e-12, floor=size)
    ctx.label("s%g" % c["s"], c["g"]["kind"], "ryd" if c["ryd"] else "no ryd", "proj" if c["proj"] else "full", "unit" if c["unit"] != 1. else "O(1)", *["tiny " + k for k in c.get("tiny", {})],
              *[k + ":" + str(c[k]) for k in ("jx", "jy", "jz", "hx", "hy", "hz") if isinstance(c[k], str)])
    ctx.nontrivial(g.nsites > 1 and any(np.any(J[k]) for k in J))


@st.composite
def ops_st(draw):
    s = draw(st.sampled_from([0.5, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0]))
    n = draw(st.sampled_from(list(range(1, NMAX[s] + 1)) + [NMAX[s]] * 2))
    return {"s": s, "n": n, "i": draw(st.integers(0, n - 1)), "j": draw(st.integers(0, n - 1)), "seed": draw(h.seeds()),
            "pairs": [draw(st.integers(0, 1)) for _ in range(n * (n - 1) // 2)], "sparse": draw(st.booleans())}


def check_ops(c, ctx):
    import exact_diag.ed_spins as eds
    from exact_diag.ed_geometry import Geometry
    n, s = c["n"], c["s"]
    d = int(2 * s + 1)
    o = eds.spinSystem(Geometry.createSquareGeometry(n, 1), spin=s)
    a, b = h.cvec(c["seed"], d, d), h.cvec(c["seed"] + 1, d, d)
    wrap = (lambda x: sp.csr_matrix(x)) if c["sparse"] else h.ro
    i, j = c["i"], c["j"]
    R = lambda op, k: h.ref_site_op(op, k, n, d)
    h.close(h.dense(o.get_single_site_op(i, 0, wrap(a), format="boson")), R(a, i), "operator on site %d" % i)
    h.close(h.dense(o.get_two_site_op(i, 0, j, 0, wrap(a), wrap(b), format="boson")), R(a, i) @ R(b, j), "operators on sites %d, %d" % (i, j))
    h.close(h.dense(o.get_sum_op(wrap(a))), sum(R(a, k) for k in range(n)), "sum over sites")
    prod = np.eye(1)
    for _ in range(n):
        prod = np.kron(prod, a)
    h.close(h.dense(o.get_allsite_op(wrap(a))), prod, "same operator on every site")
    flip = np.fliplr(np.eye(d))
    fl = np.eye(1)
    for _ in range(n):
        fl = np.kron(fl, flip)
    h.close(h.dense(o.get_swap_up_down_op()), fl, "operator exchanging up and down")
    if i != j:
        sw = h.dense(o.get_swap_op(i, j))
        h.close(sw @ R(a, i) @ sw.conj().T, R(a, j), "exchange of sites %d, %d" % (i, j))
        h.close(sw @ R(b, j) @ sw.conj().T, R(b, i), "exchange of sites %d, %d" % (j, i))
        for k in range(n):
            if k not in (i, j):
                h.close(sw @ R(a, k) @ sw.conj().T, R(a, k), "exchange leaves site %d alone" % k)
        h.close(sw @ sw, np.eye(d ** n), "exchange twice")
    if s == 0.5 and n > 1 and any(c["pairs"]):
        xs, ys = np.meshgrid(range(n), range(n))
        pi, pj = xs[xs > ys], ys[xs > ys]
        nr = np.diag([1., 0.])
        want = sum(R(nr, p) @ R(nr, q) for p, q, f in zip(pi, pj, c["pairs"]) if f)
        h.close(h.dense(o.get_npairs_op(np.array(c["pairs"]))), want, "number of excited pairs")
    ctx.label("s%g" % s, "sparse" if c["sparse"] else "dense", "i==j" if i == j else "i<j" if i < j else "i>j")
    ctx.nontrivial(n > 1)


@st.composite
def c6_st(draw):
    c = {"g": draw(h.geom_spec(kinds=("square", "cluster", "polygon", "triangle"), nmax=6, nmin=2, min_periodic=3)), "c6": draw(h.nonzero()), "pts": None}
    if draw(st.sampled_from([False, False, True])):
        # atoms in arbitrary places, close together or far apart, in any unit of length
        c["pts"] = draw(st.lists(st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(list), min_size=2, max_size=6, unique_by=tuple))
        c["len"] = draw(st.sampled_from([1., 1., 0.5, 0.1, 0.01, 3.7]))
    return c


def check_c6(c, ctx):
    import exact_diag.ed_spins as eds
    if c.get("pts"):
        from exact_diag.ed_geometry import Geometry
        p = np.array(c["pts"], dtype=float) * c["len"]
        g = Geometry.createNonPeriodicGeometry(h.ro(p[:, 0]), h.ro(p[:, 1]))
        r = np.hypot(p[:, None, 0] - p[None, :, 0], p[:, None, 1] - p[None, :, 1])
    else:
        g = h.build_geom(c["g"])
        r = np.hypot(g.xdist_mat, g.ydist_mat)
    o = eds.spinSystem(g)
    j = h.dense(o.get_interaction_mat_c6(c["c6"]))
    n = g.nsites
    h.require(j.shape == (n, n), "shape of the van der Waals matrix")
    for p in range(n):
        for q in range(n):
            if p != q:
                h.close(np.array(j[p, q] * r[p, q] ** 6), np.array(c["c6"]), "van der Waals coupling at distance %.3f times the sixth power of the distance" % r[p, q])
    h.close(np.diag(j), np.zeros(n), "no self interaction")
    ctx.nontrivial()


@st.composite
def sym_st(draw):
    s = draw(st.sampled_from([0.5, 1.0]))
    g = draw(h.geom_spec(nmax=5 if s == 0.5 else 3, nmin=2))
    return {"g": g, "s": s, "j": draw(h.nonzero()), "hz": draw(h.coupl())}


def check_sym(c, ctx):
    """Heisenberg model: total spin conserved; XXZ in a z field: magnetisation conserved; XX/ZZ: flip symmetric"""
    import exact_diag.ed_spins as eds
    g = h.build_geom(c["g"])
    o = eds.spinSystem(g, jx=c["j"], jy=c["j"], jz=c["j"], spin=c["s"])
    H = h.dense(o.createH())
    for nm in ("sx", "sy", "sz"):
        t = h.dense(o.get_sum_op(getattr(o, nm)))
        h.close(H @ t, t @ H, "Heisenberg Hamiltonian conserves total " + nm)
    o2 = eds.spinSystem(g, jx=c["j"], jy=c["j"], jz=0.3, hz=c["hz"], spin=c["s"])
    H = h.dense(o2.createH())
    t = h.dense(o2.get_sum_op(o2.sz))
    h.close(H @ t, t @ H, "XXZ Hamiltonian in a z field conserves the magnetisation")
    o3 = eds.spinSystem(g, jx=c["j"], jy=-c["j"], jz=0.3, hx=c["hz"], spin=c["s"])
    H = h.dense(o3.createH())
    t = h.dense(o3.get_swap_up_down_op())
    h.close(t @ H @ t.conj().T, H, "XYZ Hamiltonian in an x field is invariant under the spin flip")
    ctx.label("s%g" % c["s"], c["g"]["kind"])
    ctx.nontrivial()


FACETS = [
    Facet("matrices", spin_mats_all, check_mats, 1, 1, "every spin up to 8, and spins 25/2 and 20 (exhaustive)", exhaustive=True),
    Facet("hamiltonian", case_st, check, 330, 5000, "at least one nonzero coupling between two sites", shards=5),
    Facet("operators", ops_st, check_ops, 590, 4000, "at least two sites", shards=5),
    Facet("vdw", c6_st, check_c6, 480, 1920, "every case", shards=2),
    Facet("symmetries", sym_st, check_sym, 240, 1000, "every case", shards=5),
    Facet("large", lambda: case_st(True), check, 24, 400, "125 to 256 states; at least one nonzero coupling between two sites", shards=8),
]
ASSUMPTIONS = ["coupling matrices symmetric", "no boundary twist for spin systems", "at most 256 basis states"]
