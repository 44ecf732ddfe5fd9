"""Thermal weights, averages and partition functions."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems
from props import p11

TEMPS = st.sampled_from([1e-6, 0.002, 0.05, 0.2, 0.5, 1.0, 2.5, 10.0, 1000.0, 1e7])
TZ = st.one_of(TEMPS, st.just(0.0))


@st.composite
def levels(draw, nmax=10, shift=True):
    n = draw(st.integers(1, nmax))
    if draw(st.booleans()):
        e = draw(st.lists(st.integers(-3, 3).map(float), min_size=n, max_size=n))
    else:
        e = draw(st.lists(h.dec(-4, 4), min_size=n, max_size=n))
    off = draw(st.sampled_from([0., 0., 5., -7., 100.])) if shift else 0.
    if draw(st.integers(0, 14)) == 0:
        # many levels
        r = h.rng(draw(h.seeds()))
        e = list(np.round(r.normal(size=r.integers(20, 150)) * 3, 2))
    k = draw(st.sampled_from([1., 1., 1., 40., 3000.]))
    return [float((x + off) * k) for x in e]


def split(e, seed):
    """levels as an eigensolver returns them: degenerate ones a rounding error apart"""
    return np.sort(e + h.rng(seed).random(e.size) * 4e-15 * np.abs(e).max())


@st.composite
def w_st(draw):
    return {"e": draw(levels()), "T": draw(st.one_of(TZ, st.lists(TZ, min_size=1, max_size=4), st.sampled_from([1, 2]))),
            "off": draw(st.booleans()), "lst": draw(st.booleans()), "jit": draw(st.booleans())}


def deg(e):
    """levels equal to the lowest to well below / well above any threshold the code might use"""
    return np.abs(e - e.min()) < 1e-9


def check_w(c, ctx):
    s = p11.fsys(1, 1)
    exact = e = np.sort(np.array(c["e"]))
    e = split(e, e.size) if c["jit"] else e
    ts = np.atleast_1d(np.array(c["T"], float))
    off = c["off"] or bool(np.any(ts == 0)) or bool(np.any(np.abs(e).max() / np.where(ts == 0, 1, ts) > 500))
    w, z = s.get_thermal_weights(list(e) if c["lst"] else h.ro(e), c["T"], use_energies_offset=off)
    w, z = np.asarray(w), np.atleast_1d(np.asarray(z, float))
    h.require(w.size == e.size * len(ts) and z.size == len(ts), "shapes of weights %s and partition function %s" % (w.shape, z.shape))
    w = w.reshape(e.size, len(ts))
    for i, T in enumerate(ts):
        if T == 0:
            want = deg(exact).astype(float)
        else:
            want = np.exp(-(e - (e[0] if off else 0)) / T)
        h.close(w[:, i], want, "Boltzmann weights at T = %g" % T)
        h.close(z[i], np.array(want.sum()), "partition function at T = %g" % T)
    ctx.label("T0" if np.any(ts == 0) else "T>0", "many" if len(ts) > 1 else "one", "offset" if off else "no offset",
              "degenerate" if deg(exact).sum() > 1 else "unique", "many levels" if e.size > 15 else "few")
    ctx.nontrivial(len(set(c["e"])) > 1)


@st.composite
def avg_st(draw):
    return {"e": draw(levels()), "T": draw(st.one_of(TZ, st.lists(TZ, min_size=2, max_size=4))), "seed": draw(h.seeds()),
            "fmt": draw(st.booleans()), "jit": draw(st.booleans()), "uo": draw(h.unit())}


def check_avg(c, ctx):
    s = p11.fsys(1, 1)
    exact = e = np.sort(np.array(c["e"]))
    e = split(e, e.size) if c["jit"] else e
    d = len(e)
    q = np.linalg.qr(h.cvec(c["seed"], d, d))[0]
    O = systems.rand_herm(c["seed"] + 1, d) * c["uo"]
    ts = np.atleast_1d(np.array(c["T"], float))
    got = s.get_exp_vals_thermal(h.ro(q), O, h.ro(e), c["T"] if c["fmt"] else np.array(c["T"]))
    want = []
    for T in ts:
        w = np.exp(-(e - e[0]) / T) if T != 0 else deg(exact).astype(float)
        rho = (q * (w / w.sum())) @ q.conj().T
        want.append(np.trace(rho @ O.toarray()).real)
    h.close(np.atleast_1d(np.asarray(got, float)) / c["uo"], np.array(want) / c["uo"], "Tr(rho O) at T = %s" % ts)
    ctx.label("T0" if np.any(ts == 0) else "T>0", "many" if len(ts) > 1 else "one", "degenerate" if deg(e).sum() > 1 else "unique")
    ctx.nontrivial(d > 1)


@st.composite
def z_st(draw):
    return {"dim": draw(st.sampled_from([1, 2, 3, 5, 8])), "seed": draw(h.seeds()), "beta": draw(st.sampled_from([0, 0.0, 0.1, 0.5, 1.0, 3.0])), "scale": draw(st.sampled_from([1., 1., 1e-4, 1e3, 1e6])),
            "sparse": draw(st.sampled_from(["csr", "coo", "dense"])), "real": draw(st.booleans())}


def check_z(c, ctx):
    s = p11.fsys(1, 1)
    k = c.get("scale", 1.)
    H = systems.rand_herm(c["seed"], c["dim"], c["real"]) * k
    arg = H.toarray() if c["sparse"] == "dense" else H.asformat(c["sparse"])
    z = s.get_partition_fn_hamiltonian(arg, c["beta"] / k)
    want = np.exp(-c["beta"] / k * np.linalg.eigvalsh(H.toarray())).sum()
    h.close(np.array(complex(z)), np.array(want), "Tr exp(-beta H)")
    ctx.label(c["sparse"], "beta%g" % c["beta"], "energies of order %g" % k)
    ctx.nontrivial(c["beta"] > 0 and c["dim"] > 1)


@st.composite
def sec_st(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 9, 16]))
    return {"secs": [draw(levels(5, shift=False)) for _ in range(n)], "T": draw(st.one_of(TZ, st.lists(TZ, min_size=2, max_size=3))),
            "shape": draw(st.sampled_from([[], [], [2], [2, 3]])), "seed": draw(h.seeds()), "uo": draw(h.unit()), "off": draw(st.sampled_from([0., 0., 200., -200.])), "jit": draw(st.booleans()),
            "mix": draw(st.booleans())}


def check_sec(c, ctx):
    s = p11.fsys(1, 1)
    secs = [np.sort(np.array(x)) + c["off"] for x in c["secs"]]
    if c["jit"]:
        big = max(np.abs(x).max() for x in secs)
        secs = [np.sort(x + h.rng(i + 1).random(x.size) * 4e-15 * big) for i, x in enumerate(secs)]
    if c.get("mix"):
        # the sum over a sector does not depend on the order of its levels
        secs = [x[h.rng(c["seed"] + i).permutation(x.size)] for i, x in enumerate(secs)]
    alle = np.concatenate(secs)
    e0 = alle.min()
    ts = np.atleast_1d(np.array(c["T"], float))
    r = h.rng(c["seed"])
    obs = [c["uo"] * r.normal(size=[len(x)] + c["shape"]) for x in secs]      # diagonal matrix elements, per sector

    def wt(e, T):
        return np.exp(-(e - e0) / T) if T != 0 else (np.abs(e - e0) < 1e-9).astype(float)

    zs = s.get_partition_fn_sectors([h.ro(x) for x in secs], c["T"])
    want = np.array([[wt(x, T).sum() for x in secs] for T in ts])
    h.close(np.array(zs, float).reshape(want.shape), want, "partition function of each sector")
    # within each sector
    sec_avg = np.zeros([len(secs), len(ts)] + c["shape"])
    for i, x in enumerate(secs):
        for j, T in enumerate(ts):
            w = np.exp(-(x - x.min()) / T) if T != 0 else (np.abs(x - x.min()) < 1e-9).astype(float)
            sec_avg[i, j] = np.tensordot(w / w.sum(), obs[i], 1)
    full = np.concatenate(obs)
    ref = []
    for T in ts:
        w = wt(alle, T)
        ref.append(np.tensordot(w / w.sum(), full, 1))
    ref = np.array(ref)
    arg = sec_avg if len(ts) > 1 else sec_avg[:, 0]
    got = s.thermal_avg_combine_sectors(h.ro(arg), [h.ro(x) for x in secs], c["T"])
    h.close(np.asarray(got).reshape(ref.shape) / c["uo"], ref / c["uo"], "average over sectors")
    ctx.label("T0" if np.any(ts == 0) else "T>0", "sectors%d" % len(secs), "dims%d" % len(c["shape"]), "many" if len(ts) > 1 else "one")
    ctx.nontrivial(len(secs) > 1)


@st.composite
def phys_st(draw):
    return {"model": draw(systems.model(3, 4, 4)), "T": draw(st.sampled_from([0.1, 0.4, 1.0, 3.0, 20.0])), "per": draw(st.booleans())}


def check_phys(c, ctx):
    """energy = -d log Z / d beta and the T -> 0 / T -> infinity limits, end to end on a physical model"""
    from exact_diag.ed_geometry import Geometry
    mod = c["model"]
    g = Geometry.createSquareGeometry(mod["nmax"], 1, bc1_open=not c["per"])
    s = systems.make(mod, g)
    H = s.createH()
    e, v = s.diagH(H)
    E = float(s.get_exp_vals_thermal(v, H, e, c["T"]))
    w = np.exp(-(e - e[0]) / c["T"])
    h.close(np.array(E), np.array((w * e).sum() / w.sum()), "thermal energy")
    z = s.get_partition_fn_hamiltonian(H - e[0] * sp.eye(s.nstates), 1 / c["T"])
    h.close(np.array(float(z)), np.array(w.sum()), "partition function from the Hamiltonian and from its eigenvalues", tol=1e-6)
    h.close(np.array(float(s.get_exp_vals_thermal(v, H, e, 0))), np.array(e[0]), "ground state energy")
    h.close(np.array(float(s.get_exp_vals_thermal(v, H, e, 1e12))), np.array(e.mean()), "infinite temperature energy", tol=1e-6)
    es = [float(s.get_exp_vals_thermal(v, H, e, t)) for t in (0., 0.1, 0.5, 1., 5., 100.)]
    h.require(all(b >= a - 1e-9 for a, b in zip(es, es[1:])), "energy is not monotonic in temperature: %s" % es)
    ctx.label(mod["m"])
    ctx.nontrivial()


FACETS = [
    Facet("weights", w_st, check_w, 2000, 8000, "at least two distinct levels", shards=3),
    Facet("averages", avg_st, check_avg, 1600, 6400, "more than one level", shards=2),
    Facet("partition", z_st, check_z, 1200, 4800, "finite temperature, dimension above 1"),
    Facet("sectors", sec_st, check_sec, 2000, 8000, "more than one sector", shards=3),
    Facet("model", phys_st, check_phys, 380, 1520, "every case", shards=5),
]
ASSUMPTIONS = ["energies sorted, except where only sums over the levels of a sector are taken", "levels agree up to rounding or differ by more than 1e-9"]
