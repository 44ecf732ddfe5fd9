"""Thermodynamics of the non-interacting gas."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import expit
from exact_diag import fermi_gas as fg

from vlib.core import Facet
from vlib import h


def f_ref(x):
    """1 / (1 + e^x) without overflow, and accurate however small it is"""
    return expit(-np.asarray(x, dtype=float))


def levels(n, dim):
    e = -2 * np.cos(2 * np.pi * np.arange(n) / n)
    return e if dim == "1d" else (e[:, None] + e[None, :]).ravel()


def occ(beta, mu, e):
    if beta == np.inf:
        return (np.asarray(e) <= mu) * 1.0
    return f_ref(beta * (np.asarray(e) - mu))


BETA = [0.0, 0.01, 0.3, 1.0, 2.5, 10.0, 40.0]


def beta_st():
    return st.one_of(st.sampled_from(BETA), h.dec(0, 12))


def mu_st():
    return st.one_of(st.sampled_from([0.0, -1.3, 2.2]), h.dec(-6, 6), h.dec(-6, 6), st.sampled_from([-15., -9., -30., 12., 25.]))


@st.composite
def fermi_st(draw):
    n = draw(st.sampled_from([1, 2, 3, 6]))
    big = st.one_of(h.dec(-8, 8), st.sampled_from([0.0, 900.0, -900.0, 1e5, -1e5]))
    return {"beta": [draw(beta_st()) for _ in range(draw(st.sampled_from([1, 1, n])))], "mu": [draw(mu_st()) for _ in range(draw(st.sampled_from([1, 1, n])))],
            "e": [draw(big) for _ in range(n)], "inf": draw(st.sampled_from([False, False, False, True])), "scalar": draw(st.booleans()),
            "grid": draw(st.booleans())}


def check_fermi(c, ctx):
    beta, mu, e = np.array(c["beta"]), np.array(c["mu"]), np.array(c["e"])
    if c["inf"]:
        beta = np.full(beta.shape, np.inf)
    if c["grid"]:
        # all combinations by broadcasting
        e, mu, beta = e[:, None, None], mu[None, :, None], beta[None, None, :]
        shape = (e.size, mu.size, beta.size)
    else:
        if len({a.size for a in (beta, mu, e)} - {1}) > 1:
            return
        shape = np.broadcast(beta, mu, e).shape
    args = [h.ro(beta), h.ro(mu), h.ro(e)]
    if c["scalar"]:
        args = [a.item() if a.size == 1 else a for a in args]
        if all(not isinstance(a, np.ndarray) for a in args):
            shape = (1,)
    got = fg.fermi(*args)
    bb, mm, ee = np.broadcast_arrays(beta, mu, e)
    want = np.array([occ(b, m, x) for b, m, x in zip(bb.ravel(), mm.ravel(), ee.ravel())]).reshape(bb.shape)
    h.close(np.reshape(got, -1), np.reshape(want, -1), "Fermi function", tol=1e-12)
    ctx.label("zero T" if c["inf"] else "finite T", "grid" if c["grid"] else "flat")
    if not c["inf"] and np.all(np.abs(e) < 700):
        d = fg.fermi_derivatives(*args)
        h.require(len(d) == 3, "three derivatives")
        x = bb * (ee - mm)
        w = f_ref(x) * f_ref(-x)
        h.close(np.reshape(d[0], -1), (bb * w).ravel(), "derivative of the Fermi function by chemical potential")
        h.close(np.reshape(d[1], -1), (-bb * w).ravel(), "derivative of the Fermi function by energy")
        h.close(np.reshape(d[2], -1), (-(ee - mm) * w).ravel(), "derivative of the Fermi function by inverse temperature")
    ctx.nontrivial(e.size > 1 or c["inf"])


@st.composite
def grid_st(draw):
    n = st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 20, 30, 60])
    return {"nx": draw(n), "ny": draw(n), "mode": draw(st.sampled_from(["balanced", "positive"])), "default": draw(st.booleans()),
            "es": draw(st.lists(st.integers(-20, 20), min_size=2, max_size=20)), "edges": draw(st.lists(st.integers(-25, 25), min_size=2, max_size=8, unique=True)),
            "two": draw(st.booleans())}


def check_grid(c, ctx):
    nx, ny = c["nx"], c["ny"]
    if c["default"]:
        kx, ky, dkx, dky = fg.get_allowed_kvects(nx, ny)
        mode = "balanced"
    else:
        mode = c["mode"]
        kx, ky, dkx, dky = fg.get_allowed_kvects(nx, ny, mode)
    h.require(np.shape(kx) == (ny, nx) and np.shape(ky) == (ny, nx), "k grids have shape ny x nx")
    h.close([dkx, dky], [2 * np.pi / nx, 2 * np.pi / ny], "spacing of the k grid")
    h.close(kx, np.repeat(kx[:1], ny, 0), "kx varies along the second axis only")
    h.close(ky, np.repeat(ky[:, :1], nx, 1), "ky varies along the first axis only")
    for ks, n, nm in ((kx[0], nx, "kx"), (ky[:, 0], ny, "ky")):
        m = ks * n / (2 * np.pi)
        h.close(m, np.round(m), "%s are multiples of 2 pi / n" % nm)
        h.same(sorted(int(x) % n for x in np.round(m)), list(range(n)), "%s contains every momentum once" % nm)
        h.require(np.all(np.diff(ks) > 0), "%s ascending" % nm)
        if mode == "positive":
            h.require(np.all(ks >= 0) and np.all(ks < 2 * np.pi - 1e-9), "%s between 0 and 2 pi" % nm)
        else:
            h.require(np.all(np.abs(ks) <= np.pi + 1e-9), "%s between -pi and pi" % nm)
    # spacings and density of states of an arbitrary level scheme
    es = np.array(c["es"], dtype=float) * 0.25
    u = np.unique(c["es"])
    arr = es.reshape(2, -1) if c["two"] and es.size % 2 == 0 else es
    if u.size > 1:
        d = np.diff(u) * 0.25
        h.close(np.array(fg.get_energy_spacing(h.ro(arr)), dtype=float), [d.min(), d.max(), d.mean()], "energy spacings")
    edges = np.sort(np.array(c["edges"])) * 0.25 + 0.1
    want = []
    for a, b in zip(edges[:-1], edges[1:]):
        want.append(np.sum((es >= a) & (es < b)) / (b - a) / es.size)
    h.close(fg.get_dos(h.ro(arr), h.ro(edges)), want, "density of states per bin")
    ctx.label(mode)
    ctx.nontrivial(nx * ny > 4)


def check_dos2(c, ctx):
    dos, em = fg.get_dos2(c["n"], c["dim"])
    band = 4.0 if c["dim"] == "2d" else 2.0
    e = levels(c["n"], c["dim"])
    lo, hi = e.min(), e.max()
    h.require(np.shape(dos) == np.shape(em), "one density of states per bin centre")
    nb = np.size(em)
    de = (hi - lo) / nb
    h.close(em, lo + de * (np.arange(nb) + 0.5), "bins cover the band")
    h.close(np.sum(dos) * de, 1.0, "density of states is normalized")
    edges = np.linspace(lo, hi, nb + 1)
    cum = np.cumsum(dos) * de
    tol = 0
    for i in range(nb - 1):
        a = np.sum(e < edges[i + 1] - 1e-9) / e.size
        b = np.sum(e < edges[i + 1] + 1e-9) / e.size
        h.require(a - 1e-9 <= cum[i] <= b + 1e-9, "integrated density of states up to %g is %g, expected %g to %g" % (edges[i + 1], cum[i], a, b))
    ctx.label(c["dim"], "several bins" if nb > 1 else "one bin")
    ctx.nontrivial(nb > 1)


@st.composite
def thermo_st(draw):
    dim = draw(st.sampled_from(["1d", "2d"]))
    k = draw(st.sampled_from([1, 1, 2, 4]))
    return {"dim": dim, "n": draw(st.sampled_from([2, 3, 4, 5, 6, 8, 11, 20] + ([50] if dim == "1d" else []))), "beta": [draw(beta_st()) for _ in range(draw(st.sampled_from([1, k])))],
            "mu": [draw(mu_st()) for _ in range(draw(st.sampled_from([1, k])))], "mu2": draw(mu_st()), "inf": draw(st.sampled_from([False, False, False, False, True])),
            "two": draw(st.booleans()), "scalar": draw(st.booleans()), "ints": draw(st.sampled_from(["", "", "", "mu", "beta", "both"])), "default_dim": draw(st.booleans())}


def shaped(vals, c):
    a = np.array(vals, dtype=float)
    if a.size == 1 and c["scalar"]:
        return a.item()
    if a.size == 4 and c["two"]:
        a = a.reshape(2, 2)
    return h.ro(a)


def check_thermo(c, ctx):
    beta, mu = shaped(c["beta"], c), shaped(c["mu"], c)
    # whole numbers, as integers
    if c.get("ints") in ("beta", "both"):
        beta = int(np.rint(beta)) if np.ndim(beta) == 0 else h.ro(np.rint(beta).astype(int))
    if c.get("ints") in ("mu", "both"):
        mu = int(np.rint(mu)) if np.ndim(mu) == 0 else h.ro(np.rint(mu).astype(int))
    bs, ms = np.broadcast_arrays(np.ravel(beta), np.ravel(mu))
    e = levels(c["n"], c["dim"])
    if c["inf"]:
        if np.min(np.abs(e[:, None] - np.append(np.ravel(mu), c["mu2"]))) < 1e-6:
            return
        beta = np.inf if np.ndim(beta) == 0 else h.ro(np.full(np.shape(beta), np.inf))
        bs = np.full(bs.shape, np.inf)
    kw = {"nsites": c["n"]} if (c["default_dim"] and c["dim"] == "2d") else {"nsites": c["n"], "dim": c["dim"]}
    n = np.array([np.mean(occ(b, m, e)) for b, m in zip(bs, ms)])
    n2 = np.array([np.mean(occ(b, c["mu2"], e)) for b in bs])
    got = fg.fg_density(beta, mu, **kw)
    if bs.size > 1:
        h.require(np.shape(got) == np.shape(beta) or np.shape(got) == np.shape(mu), "density of an array of parameters keeps the array shape")
    h.close(np.ravel(got), n, "density")
    h.close(np.ravel(got) / np.where(n > 0, n, 1.), np.ones(n.size) * (n > 0), "density relative to the exact one, however dilute the gas is")
    h.close(np.ravel(fg.fg_density(beta, c["mu2"], **kw)) * np.ones(bs.size), n2, "density (second species)")
    h.close(np.ravel(fg.fg_singles(beta, mu, c["mu2"], **kw)), n + n2 - 2 * n * n2, "singly occupied fraction")
    h.close(np.ravel(fg.fg_singles(beta, c["mu2"], mu, **kw)), n + n2 - 2 * n * n2, "singly occupied fraction, species exchanged")
    if np.ndim(mu) == 1:
        # both chemical potentials vary together
        mu3 = h.ro(np.array(mu)[::-1] + c["mu2"])
        if not (c["inf"] and np.min(np.abs(e[:, None] - mu3)) < 1e-6):
            n3 = np.array([np.mean(occ(b, m, e)) for b, m in zip(bs, np.ravel(mu3) * np.ones(bs.size))])
            h.close(np.ravel(fg.fg_singles(beta, mu, mu3, **kw)), n + n3 - 2 * n * n3, "singly occupied fraction, both chemical potentials vary")
            h.close(np.ravel(fg.fg_doubles(beta, mu, mu3, **kw)), n * n3, "doubly occupied fraction, both chemical potentials vary")
    h.close(np.ravel(fg.fg_doubles(beta, mu, c["mu2"], **kw)), n * n2, "doubly occupied fraction")
    h.close(np.ravel(fg.fg_doubles(beta, c["mu2"], mu, **kw)), n * n2, "doubly occupied fraction, species exchanged")
    if not c["inf"]:
        k = np.array([np.mean(b * f_ref(b * (e - m)) * f_ref(-b * (e - m))) for b, m in zip(bs, ms)])
        h.close(np.ravel(fg.fg_compressibility(beta, mu, **kw)), k, "compressibility")
    ctx.label(c["dim"], "zero T" if c["inf"] else "finite T")
    ctx.nontrivial(c["n"] > 2)


@st.composite
def mu_case(draw):
    dim = draw(st.sampled_from(["1d", "2d"]))
    k = draw(st.sampled_from([1, 1, 2, 4]))
    dens = st.one_of(st.sampled_from([0.5, 0.25, 0.02, 0.98, 0.1]), h.dec(0.005, 0.995), h.dec(0.005, 0.995), st.sampled_from([1e-3, 1e-4, 3e-6, 1 - 1e-4]))
    b = st.one_of(st.sampled_from([0.05, 0.5, 1.0, 4.0, 20.0]), h.dec(0.03, 15))
    if draw(st.integers(0, 9)) == 0:
        return {"dim": dim, "n": 6, "beta": [0.0], "dens": [0.5], "two": False, "scalar": True}
    return {"dim": dim, "n": draw(st.sampled_from([2, 3, 4, 5, 8, 12])), "beta": [draw(b) for _ in range(draw(st.sampled_from([1, k])))],
            "dens": [draw(dens) for _ in range(draw(st.sampled_from([1, k])))], "two": draw(st.booleans()), "scalar": draw(st.booleans())}


def check_mu(c, ctx):
    beta, dens = shaped(c["beta"], c), shaped(c["dens"], c)
    bs, ds = np.broadcast_arrays(np.ravel(beta), np.ravel(dens))
    e = levels(c["n"], c["dim"])
    mu = fg.fg_mu(beta, dens, nsites=c["n"], dim=c["dim"])
    if bs.size > 1:
        h.require(np.shape(mu) in (np.shape(beta), np.shape(dens)), "shape of the chemical potential")
    mu = np.ravel(np.asarray(mu, dtype=float))
    h.require(mu.size == bs.size, "one chemical potential per density")
    if c["beta"] == [0.0]:
        h.close(mu, [0.0], "chemical potential of the half filled gas at infinite temperature")
        return
    for b, d, m in zip(bs, ds, mu):
        n = np.mean(occ(b, m, e))
        h.require(abs(n - d) < 1e-5 * min(d, 1 - d), "chemical potential %g for density %g at beta %g gives density %g" % (m, d, b, n))
        h.close(np.ravel(fg.fg_density(b, m, nsites=c["n"], dim=c["dim"])), [d], "density at the chemical potential found", tol=1e-6)
    ctx.label(c["dim"], "array" if bs.size > 1 else "scalar")
    ctx.nontrivial(np.any(ds != 0.5))


FACETS = [
    Facet("fermi", fermi_st, check_fermi, 5400, 21600, "several energies, or zero temperature; energies up to 1e5, all broadcast shapes", shards=5),
    Facet("grids", grid_st, check_grid, 4000, 16000, "more than four momenta", shards=4),
    Facet("dos", lambda: [{"n": n, "dim": d} for d in ("1d", "2d") for n in (2, 3, 5, 8, 13, 21, 40) + ((3000, 6000) if d == "1d" else (250, 320))],
          check_dos2, 1, 1, "several bins (listed sizes, exhaustive)", exhaustive=True),
    Facet("thermodynamics", thermo_st, check_thermo, 1970, 15000, "more than two sites per direction", shards=5),
    Facet("chemical_potential", mu_case, check_mu, 1600, 6400, "density differs from one half", shards=5),
]
ASSUMPTIONS = ["derivatives and compressibility at finite temperature only", "zero temperature only with no level exactly at the chemical potential (Fermi function: level counted as occupied)",
               "at least two sites per direction", "densities strictly between 0 and 1"]
