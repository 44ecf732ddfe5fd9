"""Quench dynamics."""
import numpy as np
import scipy.linalg as sl
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems
from props import p11


@st.composite
def case_st(draw):
    return {"dim": draw(st.sampled_from([2, 3, 4, 7, 12, 2, 3, 4, 7, 12, 40])), "seed": draw(h.seeds()), "k": draw(st.sampled_from([1, 1, 2, 3, 1, 1, 2, 3, 17])),
            "vec": draw(st.booleans()), "times": draw(st.one_of(h.dec(-5, 5), st.integers(-3, 3),
                                                                  st.lists(h.dec(-20, 20), min_size=1, max_size=5), st.lists(h.dec(-20, 20), min_size=1, max_size=5),
                                                                  st.lists(h.dec(-500, 500, 1), min_size=10, max_size=30))),
            "real": draw(st.booleans()), "sub": draw(st.sampled_from([0, 0, 1])), "shift": draw(st.sampled_from([0., 0., 30.])),
            "dgn": draw(st.booleans()), "print": draw(st.booleans())}


def check(c, ctx):
    s = p11.fsys(1, 1)
    d, k = c["dim"], c["k"]
    r = h.rng(c["seed"])
    if c["real"]:
        q = np.linalg.qr(r.normal(size=(d, d)))[0]
    else:
        q = np.linalg.qr(h.cvec(c["seed"], d, d))[0]
    e = np.sort(r.integers(-2, 3, size=d).astype(float) if c["dgn"] else r.normal(size=d) * 2) + c["shift"]
    psi = h.cvec(c["seed"] + 1, d, k)
    psi /= np.linalg.norm(psi, axis=0)
    m = d if not c["sub"] else max(1, d - 2)
    V, E = q[:, :m], e[:m]
    ts = c["times"]
    targ = h.ro(np.array(ts, float)) if isinstance(ts, list) else ts
    tl = np.atleast_1d(np.array(ts, float))
    init = psi[:, 0] if c["vec"] and k == 1 else psi
    tt, out = s.quench_time_evolve(h.ro(init), h.ro(V), h.ro(E), targ, print_results=c["print"])
    h.close(np.asarray(tt, float), tl, "times returned")
    want = np.zeros((d, len(tl), k), complex)
    for i, t in enumerate(tl):
        if m == d:
            want[:, i] = sl.expm(-1j * t * ((q * e) @ q.conj().T)) @ psi
        else:
            want[:, i] = (V * np.exp(-1j * E * t)) @ (V.conj().T @ psi)
    h.require(out.shape[0] == d, "first axis of the evolved states is the basis state")
    if len(tl) > 1 and k > 1:
        h.require(out.shape == want.shape, "shape of the evolved states %s" % (out.shape,))
    h.close(out, want, "exp(-i H t) |psi>", squeeze=True)
    if m == d:
        nrm = np.squeeze(np.sqrt((np.abs(out) ** 2).sum(0)))
        h.close(nrm, np.ones_like(nrm), "norm is conserved")
    ctx.label("sub" if m < d else "full", "t:" + type(ts).__name__, "k%d" % k)
    ctx.nontrivial(bool(np.any(tl != 0)) and m > 1)


@st.composite
def phys_st(draw):
    return {"model": draw(systems.model(3, 5, 5)), "t1": draw(h.dec(0.1, 3)), "t2": draw(h.dec(0.1, 3)), "seed": draw(h.seeds()),
            "basis": draw(st.booleans()), "per": draw(st.booleans())}


def check_phys(c, ctx):
    """two steps equal one, time reversed evolution comes back, energy and particle number do not change"""
    from exact_diag.ed_geometry import Geometry
    mod = c["model"]
    g = Geometry.createSquareGeometry(mod["nmax"], 1, bc1_open=not c["per"])
    s = systems.make(mod, g)
    H = s.createH()
    e, v = s.diagH(H)
    psi = h.cvec(c["seed"], s.nstates)
    if c["basis"]:
        psi = np.zeros(s.nstates, complex)
        psi[c["seed"] % s.nstates] = 1
    psi = psi / np.linalg.norm(psi)
    t1, t2 = c["t1"], c["t2"]
    _, out = s.quench_time_evolve(psi, v, e, np.array([0., t1, t1 + t2, -t1]))
    h.close(out[:, 0], psi, "state at t = 0")
    _, a = s.quench_time_evolve(out[:, 1], v, e, t2)
    h.close(a[:, 0], out[:, 2], "evolving in two steps")
    _, b = s.quench_time_evolve(out[:, 1], v, e, -t1)
    h.close(b[:, 0], psi, "evolving back")
    h.close(np.ravel(s.get_exp_vals(out, H)), np.full(4, np.vdot(psi, H @ psi).real), "energy is conserved")
    if mod["m"] != "spin":
        N = s.get_sum_op(s.n_op, 0, format="boson")
        h.close(np.ravel(s.get_exp_vals(out, N)), np.full(4, np.vdot(psi, N @ psi).real), "particle number is conserved")
    ctx.label(mod["m"])
    ctx.nontrivial()


FACETS = [
    Facet("evolve", case_st, check, 2000, 8000, "some time differs from zero and more than one eigenstate is kept", shards=3),
    Facet("conservation", phys_st, check_phys, 330, 1320, "every case", shards=5),
]
ASSUMPTIONS = ["axes of length one may be squeezed from the result", "dimension at least 2"]
