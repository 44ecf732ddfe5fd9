"""Green's functions, correlators and response of the non-interacting gas."""
import itertools

import numpy as np
from hypothesis import strategies as st
from exact_diag import fermi_gas as fg

from vlib.core import Facet
from vlib import h
from props.p23 import beta_st, f_ref, mu_st, occ

TYPES = ["greater", "lesser", "retarded", "advanced", "time-ordered"]


def kgf(kind, e, mu, beta, t):
    f = occ(beta, mu, e)
    ph = np.exp(-1j * (e - mu) * t)
    if kind == "greater":
        return -1j * ph * (1 - f)
    if kind == "lesser":
        return 1j * ph * f
    if kind == "retarded":
        return -1j * ph * (t >= 0)
    if kind == "advanced":
        return 1j * ph * (t <= 0)
    return -1j * ph * (1 - f) if t > 0 else 1j * ph * f


def disp(k, dim):
    k = np.asarray(k, dtype=float)
    return -2 * np.cos(k) if dim == "1d" else -2 * (np.cos(k[..., 0]) + np.cos(k[..., 1]))


@st.composite
def k_st(draw):
    dim = draw(st.sampled_from(["1d", "2d"]))
    nk = draw(st.sampled_from([1, 2, 3, 5]))
    return {"dim": dim, "k": [[draw(h.angle()) for _ in range(2)] for _ in range(nk)], "beta": draw(beta_st()), "mu": draw(mu_st()),
            "t": draw(st.one_of(st.sampled_from([0.0, 0.5, -0.5]), h.dec(-6, 6), st.sampled_from([30., -75.5, 400., -1e-3]))), "kind": draw(st.sampled_from(TYPES)), "single": draw(st.booleans()), "inf": draw(st.sampled_from([False] * 5 + [True])),
            "per_k": draw(st.booleans())}


def check_k(c, ctx):
    t, kind = c["t"], c["kind"]
    if kind == "time-ordered" and t == 0:
        return
    ks = np.array(c["k"])
    if c["dim"] == "1d":
        ks = ks[:, 0]
        arg = float(ks[0]) if c["single"] and len(ks) == 1 else h.ro(ks)
    else:
        arg = h.ro(ks[0]) if c["single"] and len(ks) == 1 else h.ro(ks)
    e = disp(ks, c["dim"])
    if c["inf"]:
        # zero temperature: the function itself (not its derivative, a delta function)
        if np.min(np.abs(e - c["mu"])) > 1e-6:
            g, _ = fg.fg_kspace_gfns(np.inf, c["mu"], arg, c["t"], kind, c["dim"])
            h.close(np.ravel(g), kgf(kind, e, c["mu"], np.inf, t), "%s Green's function in momentum space at zero temperature" % kind)
            ctx.label("zero T")
            ctx.nontrivial(t != 0)
        return
    g, dg = fg.fg_kspace_gfns(c["beta"], c["mu"], arg, c["t"], kind, c["dim"])
    h.close(np.ravel(g), kgf(kind, e, c["mu"], c["beta"], t), "%s Green's function in momentum space" % kind)
    if kind != "time-ordered":
        f = f_ref(c["beta"] * (e - c["mu"]))
        df = c["beta"] * f * (1 - f)
        ph = np.exp(-1j * (e - c["mu"]) * t)
        want = {"greater": 1j * t * -1j * ph * (1 - f) + 1j * ph * df, "lesser": 1j * t * 1j * ph * f + 1j * ph * df,
                "retarded": 1j * t * -1j * ph * (t >= 0), "advanced": 1j * t * 1j * ph * (t <= 0)}[kind]
        h.close(np.ravel(dg), want, "derivative of the %s Green's function by the chemical potential" % kind)
    ctx.label(kind, c["dim"])
    ctx.nontrivial(t != 0)


@st.composite
def real_st(draw):
    dim = draw(st.sampled_from(["1d", "2d"]))
    k = draw(st.sampled_from([1, 1, 3]))
    return {"dim": dim, "n": draw(st.sampled_from([2, 3, 4, 5, 6, 7, 10])), "r": [draw(st.integers(-9, 9)), draw(st.integers(-9, 9))],
            "beta": [draw(beta_st()) for _ in range(draw(st.sampled_from([1, k])))], "mu": [draw(mu_st()) for _ in range(draw(st.sampled_from([1, k])))],
            "t": draw(st.one_of(st.sampled_from([0.0, 0.5, -0.5]), h.dec(-6, 6), st.sampled_from([30., -75.5, 400., -1e-3]))), "kind": draw(st.sampled_from(TYPES)),
            "inf": draw(st.sampled_from([False] * 5 + [True]))}


def kgrid(n, dim):
    k = 2 * np.pi * np.arange(n) / n
    if dim == "1d":
        return k
    return np.array(list(itertools.product(k, k)))


def real_ref(kind, n, dim, r, beta, mu, t):
    ks = kgrid(n, dim)
    ph = np.exp(1j * (ks * r[0] if dim == "1d" else ks @ np.array(r[:2])))
    return np.mean(ph * kgf(kind, disp(ks, dim), mu, beta, t))


def check_real(c, ctx):
    if c["kind"] == "time-ordered" and c["t"] == 0:
        return
    beta = c["beta"][0] if len(c["beta"]) == 1 else h.ro(c["beta"])
    mu = c["mu"][0] if len(c["mu"]) == 1 else h.ro(c["mu"])
    bs, ms = np.broadcast_arrays(np.ravel(beta), np.ravel(mu))
    r = c["r"] if c["dim"] == "2d" else [c["r"][0], 0]
    if c["inf"]:
        if np.min(np.abs(disp(kgrid(c["n"], c["dim"]), c["dim"])[:, None] - ms)) < 1e-6:
            return
        beta = np.inf if np.ndim(beta) == 0 else h.ro(np.full(np.shape(beta), np.inf))
        bs = np.full(bs.shape, np.inf)
    g, dg = fg.fg_realspace_gfn(beta, mu, tuple(r), c["t"], nsites=c["n"], dim=c["dim"], type=c["kind"])
    want = [real_ref(c["kind"], c["n"], c["dim"], r, b, m, c["t"]) for b, m in zip(bs, ms)]
    h.close(np.ravel(g), want, "%s Green's function in real space" % c["kind"])
    if c["kind"] in ("lesser", "greater", "retarded", "advanced") and not c["inf"]:
        d = 1e-5
        num = [(real_ref(c["kind"], c["n"], c["dim"], r, b, m + d, c["t"]) - real_ref(c["kind"], c["n"], c["dim"], r, b, m - d, c["t"])) / (2 * d) for b, m in zip(bs, ms)]
        h.close(np.ravel(dg), num, "derivative of the real space Green's function", tol=2e-5)
    ctx.label(c["kind"], c["dim"], "array" if bs.size > 1 else "single")
    ctx.nontrivial(r[0] % c["n"] != 0 or r[1] % c["n"] != 0)


@st.composite
def corr_st(draw, sizes1=(2, 3, 4, 5, 6), sizes2=(2, 3, 4, 5)):
    dim = draw(st.sampled_from(["1d", "2d"]))
    n = draw(st.sampled_from(list(sizes1 if dim == "1d" else sizes2)))
    onsite = draw(st.sampled_from([False, False, True]))
    if onsite:
        r = [0, 0]
    else:
        r = draw(st.sampled_from([[a, b] for a in range(-n + 1, n) for b in (range(-n + 1, n) if dim == "2d" else [0]) if (a % n, b % n) != (0, 0)]))
    k = draw(st.sampled_from([1, 1, 2]))
    return {"dim": dim, "n": n, "r": r, "inf": draw(st.sampled_from([False] * 5 + [True])), "beta": draw(st.one_of(st.sampled_from([0.0, 1.0, 4.0, 25.0]), h.dec(0, 6))), "mu_up": draw(st.lists(mu_st(), min_size=k, max_size=k)),
            "mu_dn": draw(st.lists(mu_st(), min_size=k, max_size=k))}


def joint(n, g, onsite):
    """probabilities of (n_i, n_j) of one species"""
    if onsite:
        return {(0, 0): 1 - n, (1, 1): n, (0, 1): 0.0, (1, 0): 0.0}
    p11 = n * n - abs(g) ** 2
    return {(1, 1): p11, (1, 0): n - p11, (0, 1): n - p11, (0, 0): 1 - 2 * n + p11}


def connected(pu, pd, fn):
    ij = i = j = 0.0
    for (ui, uj), wu in pu.items():
        for (di, dj), wd in pd.items():
            w = wu * wd
            ij += w * fn(ui, di) * fn(uj, dj)
            i += w * fn(ui, di)
            j += w * fn(uj, dj)
    return ij - i * j


def reference(n, dim, r, beta, mu_up, mu_dn, onsite):
    gu, gd = (-1j * real_ref("lesser", n, dim, r, beta, m, 0.0) for m in (mu_up, mu_dn))
    nu, nd = ((-1j * real_ref("lesser", n, dim, [0, 0], beta, m, 0.0)).real for m in (mu_up, mu_dn))
    pu, pd = joint(nu, gu, onsite), joint(nd, gd, onsite)
    sx = nu + nd - 2 * nu * nd if onsite else -2 * (gu * np.conj(gd)).real
    return {"density": connected(pu, pd, lambda u, d: u), "singles": connected(pu, pd, lambda u, d: u + d - 2 * u * d),
            "doubles": connected(pu, pd, lambda u, d: u * d), "sz": connected(pu, pd, lambda u, d: u - d), "sx": sx}


def library(c):
    up = c["mu_up"][0] if len(c["mu_up"]) == 1 else h.ro(c["mu_up"])
    dn = c["mu_dn"][0] if len(c["mu_dn"]) == 1 else h.ro(c["mu_dn"])
    r, kw = tuple(c["r"]), dict(nsites=c["n"], dim=c["dim"])
    b = c["beta"]
    return {"density": fg.fg_corr(b, up, r, **kw), "singles": fg.fg_singles_corr(b, up, dn, r, **kw), "doubles": fg.fg_doubles_corr(b, up, dn, r, **kw),
            "sz": fg.fg_sz_corr(b, up, dn, r, **kw), "sx": fg.fg_sx_corr(b, up, dn, r, **kw)}


def check_corr(c, ctx):
    onsite = c["r"] == [0, 0]
    if c["inf"]:
        if np.min(np.abs(disp(kgrid(c["n"], c["dim"]), c["dim"])[:, None] - np.array(c["mu_up"] + c["mu_dn"]))) < 1e-6:
            return
        c = dict(c, beta=np.inf)
    got = library(c)
    for i, (mu, md) in enumerate(zip(c["mu_up"], c["mu_dn"])):
        want = reference(c["n"], c["dim"], c["r"], c["beta"], mu, md, onsite)
        for k in want:
            v = np.ravel(got[k])
            h.require(v.size == len(c["mu_up"]), "%s correlator has %d values for %d chemical potentials" % (k, v.size, len(c["mu_up"])))
            h.close(v[i], want[k], "%s correlator" % k)
    ctx.label(c["dim"], "onsite" if onsite else "offsite")
    ctx.nontrivial(c["mu_up"] != c["mu_dn"])


def check_exact(c, ctx):
    """the same from exact diagonalisation of one species on the torus, with no use of Wick's theorem"""
    n, dim = c["n"], c["dim"]
    sites = list(itertools.product(range(n), range(n) if dim == "2d" else [0]))
    N = len(sites)
    ks = kgrid(n, dim)
    if dim == "1d":
        U = np.exp(1j * np.outer([s[0] for s in sites], ks)) / np.sqrt(N)
    else:
        U = np.exp(1j * np.array(sites) @ ks.T) / np.sqrt(N)
    h1 = (U * disp(ks, dim)) @ U.conj().T
    cd = [h.dense(h.ref_cdag(i, N)) for i in range(N)]
    H = sum(h1[i, j] * cd[i] @ cd[j].conj().T for i in range(N) for j in range(N))
    num = sum(x @ x.conj().T for x in cd)
    j, i = 0, sites.index((c["r"][0] % n, c["r"][1] % n if dim == "2d" else 0))
    rho = []
    for mu in (c["mu_up"][0], c["mu_dn"][0]):
        w, v = np.linalg.eigh(H - mu * num)
        p = np.exp(-c["beta"] * (w - w.min()))
        rho.append((v * (p / p.sum())) @ v.conj().T)
    no = [x @ x.conj().T for x in cd]
    pr = []
    for r_ in rho:
        a, b = no[i], no[j]
        one = np.eye(len(a))
        pr.append({(x, y): np.trace(r_ @ (a if x else one - a) @ (b if y else one - b)).real for x in (0, 1) for y in (0, 1)})
    g = [np.trace(r_ @ cd[i] @ cd[j].conj().T) for r_ in rho]
    gb = [np.trace(r_ @ cd[i].conj().T @ cd[j]) for r_ in rho]
    # <(S+ + S-)_i (S+ + S-)_j>, S+ = cdag_up c_dn
    sx = (g[0] * gb[1] + gb[0] * g[1]).real
    got = library(dict(c, mu_up=c["mu_up"][:1], mu_dn=c["mu_dn"][:1]))
    want = {"density": connected(pr[0], pr[1], lambda u, d: u), "singles": connected(pr[0], pr[1], lambda u, d: u + d - 2 * u * d),
            "doubles": connected(pr[0], pr[1], lambda u, d: u * d), "sz": connected(pr[0], pr[1], lambda u, d: u - d), "sx": sx}
    for k in want:
        h.close(np.ravel(got[k]), [want[k]], "%s correlator (against exact diagonalisation)" % k)
    ctx.label(dim, "onsite" if i == j else "offsite")
    ctx.nontrivial(i != j)


@st.composite
def resp_st(draw):
    dim = draw(st.sampled_from(["1d", "2d"]))
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 8, 12]))
    kk = st.one_of(st.integers(-n, n).map(lambda m: 2 * np.pi * m / n), h.angle(), st.just(0.0))
    k = draw(st.sampled_from([1, 1, 3]))
    static = draw(st.booleans())
    return {"dim": dim, "n": n, "k": [draw(kk), draw(kk)], "beta": [draw(beta_st()) for _ in range(draw(st.sampled_from([1, k])))],
            "mu": [draw(mu_st()) for _ in range(draw(st.sampled_from([1, k])))], "w": 0.0 if static else draw(h.dec(-6, 6)),
            "eta": 0.0 if static else draw(h.dec(0.05, 1.0)), "scalar_k": draw(st.booleans()), "nobroad": draw(st.booleans())}


def check_resp(c, ctx):
    beta = c["beta"][0] if len(c["beta"]) == 1 else h.ro(c["beta"])
    mu = c["mu"][0] if len(c["mu"]) == 1 else h.ro(c["mu"])
    bs, ms = np.broadcast_arrays(np.ravel(beta), np.ravel(mu))
    ks = kgrid(c["n"], c["dim"])
    if c["dim"] == "1d":
        arg = c["k"][0] if c["scalar_k"] else h.ro(c["k"][:1])
        e, eq = disp(ks, "1d"), disp(ks + c["k"][0], "1d")
    else:
        arg = h.ro(c["k"])
        e, eq = disp(ks, "2d"), disp(ks + np.array(c["k"]), "2d")
    want = []
    if c["nobroad"] and c["w"] != 0 and np.min(np.abs(c["w"] + e - eq)) > 0.01:
        c = dict(c, eta=0.)
    for b, m in zip(bs, ms):
        x = b * (e - eq) / 2
        cc = 4 * np.cosh(b * (e - m) / 2) * np.cosh(b * (eq - m) / 2)
        if c["w"] == 0 and c["eta"] == 0:
            sinhc = np.where(np.abs(x) < 1e-6, 1.0, np.sinh(x) / np.where(np.abs(x) < 1e-6, 1.0, x))
            want.append(np.mean(-b * sinhc / cc))
        else:
            want.append(np.mean(-2 * np.sinh(x) / cc / (c["w"] + e - eq + 1j * c["eta"])))
    kw = dict(omega=c["w"], eta=c["eta"], nsites=c["n"], dim=c["dim"])
    for nm, fn in (("density", fg.fg_density_response), ("magnetic", fg.fg_magnetic_response)):
        re, im = fn(beta, mu, arg, **kw)
        h.close(np.ravel(re), np.real(want), "real part of the %s response" % nm, tol=1e-7)
        h.close(np.ravel(im), np.imag(want), "imaginary part of the %s response" % nm, tol=1e-7)
    ctx.label(c["dim"], "static" if c["eta"] == 0 else "dynamic", "q=0" if c["k"] == [0.0, 0.0] else "q")
    ctx.nontrivial(any(abs(k) > 0 for k in c["k"][:1 if c["dim"] == "1d" else 2]))


FACETS = [
    Facet("momentum_space", k_st, check_k, 3410, 15000, "time differs from zero", shards=5),
    Facet("real_space", real_st, check_real, 4150, 16600, "separation is not a period", shards=5),
    Facet("correlators", corr_st, check_corr, 1670, 10000, "the two species have different chemical potentials", shards=5),
    Facet("exact", lambda: corr_st((2, 3, 4, 5), (2,)), check_exact, 700, 2500, "two different sites", shards=5),
    Facet("response", resp_st, check_resp, 3210, 12840, "non-zero momentum", shards=5),
]
ASSUMPTIONS = ["at least two sites per direction", "separations which are non-zero multiples of the system size are not used",
               "time-ordered function not judged at equal times, and its derivative not at all (documented as not implemented)",
               "dynamic response with broadening of at least 0.05, or frequencies which are no difference of energies", "response and derivatives at finite temperature (or infinite, beta = 0)",
               "zero temperature only with no level at the chemical potential"]
