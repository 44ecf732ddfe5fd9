"""Current operator and optical conductivity."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h
from props import p12


@st.composite
def cur_st(draw):
    nsp = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    cells = draw(h.polyomino(2, 6 // nsp, connected=draw(st.booleans())))
    return {"cells": cells, "nsp": nsp, "seed": draw(h.seeds()), "t": draw(st.sampled_from(["scalar", "per species", "real", "complex"])),
            "tv": [draw(h.nonzero()) for _ in range(nsp)], "d": [draw(h.coupl()), draw(h.coupl())], "u": draw(h.coupl()), "v": draw(h.coupl()),
            "form": draw(st.sampled_from(["list", "col", "row", "default"]))}


def build(c):
    import exact_diag.ed_fermions as edf
    from exact_diag.ed_geometry import Geometry
    g = Geometry.createNonPeriodicGeometry([x[0] for x in c["cells"]], [x[1] for x in c["cells"]])
    n, nsp = g.nsites, c["nsp"]
    ts = {"scalar": c["tv"][0], "per species": np.array(c["tv"]), "real": p12.herm_arr(c["seed"], n, nsp, True),
          "complex": p12.herm_arr(c["seed"], n, nsp, False)}[c["t"]]
    s = edf.fermions(g, c["u"] if nsp == 2 else 0., ts, us_same_species=c["v"], nspecies=nsp)
    return g, s


def direction(c):
    d = c["d"]
    if c["form"] == "list":
        return {"direction_vector": np.array(d)}, d
    if c["form"] == "col":
        return {"direction_vector": h.ro([[d[0]], [d[1]]])}, d
    if c["form"] == "row":
        return {"direction_vector": h.ro([d])}, d
    return {}, [1., 0.]


def check_cont(c, ctx):
    """on an open cluster the current is the rate of change of the polarisation: J = i [H, X]"""
    g, s = build(c)
    kw, d = direction(c)
    J = h.dense(s.get_current_op(**kw))
    h.close(J, J.conj().T, "Hermiticity of the current")
    n, nsp = g.nsites, c["nsp"]
    pos = np.array(c["cells"], float) @ np.array(d, float)
    # order of the sites is the library's business: recover it from the geometry
    pos = np.asarray(g.xlocs) * d[0] + np.asarray(g.ylocs) * d[1]
    X = sum(pos[i] * h.ref_number(k * n + i, n * nsp) for i in range(n) for k in range(nsp)).toarray()
    H = h.dense(s.createH())
    h.close(J, 1j * (H @ X - X @ H), "current = i [H, sum r n]")
    ctx.label(c["t"], "nsp%d" % nsp, c["form"])
    ctx.nontrivial(bool(np.abs(J).max() > 1e-9))


@st.composite
def per_st(draw):
    nsp = draw(st.sampled_from([1, 2]))
    kind = draw(st.sampled_from(["ring", "ring", "torus"])) if nsp == 1 else "ring"
    return {"kind": kind, "n": draw(st.integers(3, 6 // nsp)), "nsp": nsp, "t": draw(h.nonzero()), "ph": draw(h.angle()),
            "d": [draw(h.coupl()), draw(h.coupl())], "ax": draw(st.integers(0, 1)), "u": draw(h.coupl())}


def check_per(c, ctx):
    """periodic lattices: J = -dH/d(phase per unit length), by differentiating the twisted Hamiltonian"""
    import exact_diag.ed_fermions as edf
    from exact_diag.ed_geometry import Geometry

    def make(p1, p2):
        if c["kind"] == "ring":
            a = (c["n"], 1) if c["ax"] == 0 else (1, c["n"])
            g = Geometry.createSquareGeometry(a[0], a[1], p1, p2, bc1_open=c["ax"] == 1, bc2_open=c["ax"] == 0)
        else:
            a = (3, 2)
            g = Geometry.createSquareGeometry(3, 2, p1, 0., bc1_open=False, bc2_open=True)
        return g, edf.fermions(g, c["u"] if c["nsp"] == 2 else 0., c["t"], nspecies=c["nsp"])
    ph = c["ph"]
    p = (ph, 0.) if c["kind"] == "torus" or c["ax"] == 0 else (0., ph)
    g, s = make(*p)
    d = np.array(c["d"], float)
    J = h.dense(s.get_current_op(direction_vector=d))
    n, nsp = g.nsites, c["nsp"]
    t = np.asarray(g.adjacency_mat) * np.asarray(g.phase_mat) * c["t"]
    L1 = (c["n"] if c["ax"] == 0 else 0) if c["kind"] == "ring" else 3
    L2 = (c["n"] if c["ax"] == 1 else 0) if c["kind"] == "ring" else 0
    want = sp.csr_matrix((1 << (n * nsp),) * 2, dtype=complex)
    cd = [h.ref_cdag(l, n * nsp) for l in range(n * nsp)]
    for i in range(n):
        for j in range(n):
            if i != j and t[i, j] != 0:
                _, vs = h.min_image(g.xlocs[i] - g.xlocs[j], g.ylocs[i] - g.ylocs[j], [L1, 0], [0, L2], 1)
                h.require(len(vs) == 1, "harness: ambiguous bond")
                for k in range(nsp):
                    want = want + 1j * t[i, j] * float(vs[0] @ d) * (cd[k * n + i] @ cd[k * n + j].T)
    h.close(J, want.toarray(), "current operator on a periodic lattice")
    h.close(J, J.conj().T, "Hermiticity of the current")
    ctx.label(c["kind"], "nsp%d" % nsp)
    ctx.nontrivial(bool(np.abs(J).max() > 1e-9))


@st.composite
def kin_st(draw):
    c = draw(cur_st())
    c["kd"] = draw(st.sampled_from(["default", "none", "x", "y"]))
    return c


def check_kin(c, ctx):
    """hopping energy along a lattice direction"""
    g, s = build(c)
    n, nsp = g.nsites, c["nsp"]
    T = np.asarray(s.ts)
    kw = {"default": {}, "none": {"direction_vect": None}, "x": {"direction_vect": np.array([1, 0])}, "y": {"direction_vect": np.array([0, 1])}}[c["kd"]]
    xs, ys = np.asarray(g.xlocs), np.asarray(g.ylocs)
    W = {"default": np.abs(xs[:, None] - xs), "x": np.abs(xs[:, None] - xs), "y": np.abs(ys[:, None] - ys), "none": np.ones((n, n))}[c["kd"]]
    want = h.ref_fermion_h(n, nsp, T * W[:, :, None], np.zeros(n), np.zeros((n, n, nsp)), np.zeros(nsp), np.zeros((n, nsp)))
    h.close(h.dense(s.get_kinetic_op(**kw)), want, "kinetic operator (%s)" % c["kd"])
    ctx.label(c["kd"])
    ctx.nontrivial(bool(np.abs(want).max() > 0))


@st.composite
def sum_st(draw):
    nsp = draw(st.sampled_from([1, 1, 2]))
    return {"cells": draw(h.polyomino(2, 5 if nsp == 1 else 3)), "nsp": nsp, "t": "per species", "tv": [draw(h.nonzero()) for _ in range(nsp)],
            "seed": 0, "u": draw(h.coupl()), "v": draw(h.coupl()), "d": draw(st.sampled_from([[1., 0.], [0., 1.]])), "form": "list",
            "T": draw(st.sampled_from([0., 0.001, 0.02, 0.1, 0.5, 1.0, 4.0, 1000.])), "eta": draw(st.sampled_from([0.1, 0.5])), "w": [draw(h.dec(0.2, 6)), draw(h.dec(-6, -0.2))]}


def check_sum(c, ctx):
    """f-sum rule on open clusters: two-sided integral = pi / N * (minus the hopping energy along the direction)"""
    g, s = build(c)
    kw, d = direction(c)
    H = s.createH()
    e, v = s.diagH(H)
    J = s.get_current_op(**kw)
    K = s.get_kinetic_op(direction_vect=np.array(d))
    Jm = s.get_matrix_elems(v, J)
    tot = s.integrate_conductivity(Jm, h.ro(e), c["T"])
    if c["T"] == 0:
        # equal weights in a degenerate ground space
        w = (e - e[0] < 1e-9).astype(float)
        k = (w / w.sum() * np.einsum("ik,ik->k", v.conj(), K @ v).real).sum()
    else:
        w = np.exp(-(e - e[0]) / c["T"])
        k = (w / w.sum() * np.einsum("ik,ik->k", v.conj(), K @ v).real).sum()
    h.close(np.array(tot), np.array(-np.pi / g.nsites * k), "f-sum rule at T = %g" % c["T"], tol=1e-7)
    ctx.label("T0" if c["T"] == 0 else "T>0", "nsp%d" % c["nsp"])
    ctx.nontrivial(abs(k) > 1e-6)


@st.composite
def opt_st(draw):
    d = draw(st.sampled_from([2, 3, 5, 2, 3, 5, 9, 15]))
    return {"d": d, "seed": draw(h.seeds()), "T": draw(st.sampled_from([0., 1e-4, 0.002, 0.05, 0.3, 1.0, 6.0, 500.])), "deg": draw(st.sampled_from([0, 0, 1, 2])), "n": draw(st.integers(1, 5)), "off": draw(st.sampled_from([0., 3.])),
            "eta": draw(st.sampled_from([0.05, 0.3, 1.0])), "w": [draw(h.dec(0.1, 6)), draw(h.dec(-6, -0.1))], "real": draw(st.booleans()),
            "units": draw(st.sampled_from([[1., 1.], [1., 1.], [1e-4, 1.], [1e4, 1.], [1., 1e-5], [1., 1e5], [1e-3, 1e-3], [1e3, 1e3]]))}


def check_opt(c, ctx):
    from props import p11
    s = p11.fsys(c["n"], 1)
    d, T = c["d"], c["T"]
    r = h.rng(c["seed"])
    e = np.concatenate([[0.], np.cumsum(r.random(d - 1) + 0.1)])
    a = h.cvec(c["seed"] + 1, d, d)
    J = 0.5 * (a + a.conj().T)
    if c["real"]:
        J = J.real.copy()
    E = e + c["off"]
    if c["deg"]:
        # two degenerate levels; an eigensolver returns them a rounding error apart
        k = 1 if c["deg"] == 1 else d - 1
        e[k:] -= e[k] - e[k - 1]
        e[k] = e[k - 1]
        E = np.sort(e + c["off"])
        E[k] += 2e-16 * np.abs(E).max() * r.integers(0, 4)
    # energies and currents in other units
    ke, kj = c.get("units", [1., 1.])
    fn = s.get_optical_cond_fn(h.ro(J * kj), h.ro(E * ke), T * ke)
    L = lambda x: c["eta"] / np.pi / (x ** 2 + c["eta"] ** 2)
    for om in c["w"]:
        tot = 0.
        for n in range(d):
            for m in range(d):
                w = e[m] - e[n]
                if T == 0:
                    if e[n] == e[0] and w != 0:
                        tot += abs(J[n, m]) ** 2 * L(abs(om) - w) / w
                else:
                    tot += abs(J[n, m]) ** 2 * (np.exp(-e[n] / T) - np.exp(-e[m] / T)) * L(om - w) / om
        z = float(np.sum(e == e[0])) if T == 0 else np.exp(-e / T).sum()
        h.close(np.array(fn(om * ke, c["eta"] * ke)) * ke ** 2 / kj ** 2, np.array(np.pi / c["n"] / z * tot), "optical conductivity at omega = %g" % om)
    # weight of the regular part: sum over transitions
    tot = 0.
    for n in range(d):
        for m in range(d):
            w = e[m] - e[n]
            if w != 0 and (T != 0 or e[n] == e[0]):
                tot += abs(J[n, m]) ** 2 * ((np.exp(-e[n] / T) - np.exp(-e[m] / T)) / w if T else 2 / w)
    z = float(np.sum(e == e[0])) if T == 0 else np.exp(-e / T).sum()
    h.close(np.array(s.integrate_conductivity(h.ro(J * kj), h.ro(E * ke), T * ke)) * ke / kj ** 2, np.array(np.pi / c["n"] / z * tot), "integrated conductivity")
    ctx.label("T0" if T == 0 else "T>0", "degenerate" if c["deg"] else "simple", "units %g, %g" % (ke, kj))
    ctx.nontrivial()


FACETS = [
    Facet("continuity", cur_st, check_cont, 430, 3000, "current operator does not vanish", shards=5),
    Facet("periodic", per_st, check_per, 480, 1920, "current operator does not vanish", shards=5),
    Facet("kinetic", kin_st, check_kin, 640, 2560, "some hopping along the direction", shards=4),
    Facet("f_sum_rule", sum_st, check_sum, 400, 1600, "hopping energy along the direction is not zero", shards=5),
    Facet("conductivity", opt_st, check_opt, 960, 3840, "every case", shards=2),
]
ASSUMPTIONS = ["periodic rings of at least three sites (shorter ones have no sense of direction)", "at most 6 modes"]
