"""Hydrodynamic response and dynamics after a field is switched off."""
import numpy as np
from hypothesis import strategies as st
from exact_diag import greens_fns as gf

from vlib.core import Facet
from vlib import h
from props.p25 import trapz


@st.composite
def hydro_st(draw):
    pos = h.dec(0.05, 5)
    return {"ws": draw(st.lists(st.one_of(h.dec(-8, 8), h.dec(-8, 8), st.sampled_from([1e-3, -150., 2e3])), min_size=1, max_size=6)), "k": draw(st.lists(h.dec(0.05, 3.1) | st.just(0.0), min_size=1, max_size=4)), "neg": draw(st.booleans()),
            "chi0": draw(h.nonzero()), "uc": draw(h.unit()), "d0": draw(pos), "d2": draw(st.sampled_from([0.0, 0.5, 1.3]) | h.dec(0.1, 2)), "gamma": draw(pos | st.sampled_from([None, 0.7, 2.0, 1.1, float("inf")])),
            "d2_default": draw(st.integers(0, 3)) == 0, "scalar": draw(st.booleans())}


def check_hydro(c, ctx):
    ws, k = np.array(c["ws"]), np.array(c["k"]) * (-1 if c["neg"] else 1)
    d2, chi0 = c["d2"], c["chi0"] * c["uc"]
    kw = {"d2": d2}
    if c["d2_default"]:
        kw, d2 = {}, 0.0
    gamma = np.inf
    if c["gamma"] is not None:
        gamma = kw["gamma"] = c["gamma"]
    if c["scalar"]:
        wa, ka = float(ws[0]), float(k[0])
        w2, k2 = ws[:1], k[:1]
    else:
        wa, ka = h.ro(ws[None, :]), h.ro(k[:, None])
        w2, k2 = ws[None, :], k[:, None]
    got = gf.chi_hydro(wa, ka, chi0, c["d0"], **kw)
    # the static response at zero wave vector depends on the order of the limits
    ok = np.ravel((k2 != 0) | (w2 != 0))
    with np.errstate(all="ignore"):
        rate = c["d0"] * k2 ** 2 + d2 * k2 ** 4
        # chi = chi0 * rate / (rate - i w - w^2 / gamma)
        want = chi0 * rate / (rate - 1j * w2 - (0 if gamma == np.inf else w2 ** 2 / gamma))
    h.require(np.size(got) == np.size(want), "one value for each frequency and wave vector")
    h.rclose(np.ravel(got)[ok], np.ravel(want)[ok], "hydrodynamic response", tol=1e-9, floor=abs(chi0))
    nz = np.ravel(k2) != 0
    h.rclose(np.ravel(gf.chi_hydro(0.0, ka, chi0, c["d0"], **kw))[nz], np.full(np.size(ka), chi0)[nz], "static response", tol=1e-9, floor=abs(chi0))
    h.rclose(np.ravel(gf.chi_hydro(-wa, ka, chi0, c["d0"], **kw))[ok], np.ravel(want).conj()[ok], "response at opposite frequency", tol=1e-9, floor=abs(chi0))
    ctx.label("gamma" if gamma != np.inf else "diffusive", "d2" if d2 else "d2=0")
    ctx.nontrivial(np.any(ws != 0))


@st.composite
def time_st(draw):
    return {"nw": draw(st.sampled_from([2, 3, 6, 25, 400])), "down": draw(st.sampled_from([False, False, True])), "late": draw(st.sampled_from([1., 1., 40.])), "nt": draw(st.sampled_from([1, 2, 5, 9])), "seed": draw(h.seeds()), "uniform": draw(st.booleans()),
            "ho": draw(h.nonzero()), "eta": draw(st.one_of(st.just(0.1), h.dec(0.02, 2))), "eta_default": draw(st.booleans()), "a": draw(h.nonzero()),
            "span": draw(h.dec(0.5, 15)), "uc": draw(h.unit()), "uf": draw(h.unit())}


def check_time(c, ctx):
    r = h.rng(c["seed"])
    ws = np.linspace(-c["span"], c["span"], c["nw"]) if c["uniform"] else np.sort(r.normal(size=c["nw"])) * c["span"]
    if c["down"]:
        ws = ws[::-1].copy()
    ts = r.normal(size=c["nt"]) * 3 * c["late"]
    ts[0] = 0.0 if c["nt"] > 1 else ts[0]
    ho = c["ho"] * c["uf"]
    eta = 0.1 if c["eta_default"] else c["eta"]
    f = gf.field_snap_off_w(h.ro(ws), ho) if c["eta_default"] else gf.field_snap_off_w(h.ro(ws), ho, c["eta"])
    h.rclose(f, ho * (eta - 1j * ws) / (eta ** 2 + ws ** 2), "spectrum of a field switched at time zero", tol=1e-9)
    chi, field = h.cvec(c["seed"], c["nw"]) * c["uc"], h.cvec(c["seed"] + 1, c["nw"]) * c["uf"]
    dw = abs(ws[-1] - ws[0])
    one, both = c["uc"] * dw, c["uc"] * c["uf"] * dw
    ph = np.exp(-1j * np.outer(ts, ws))
    phi = gf.phi_t(h.ro(ts), h.ro(ws), h.ro(chi))
    h.rclose(phi, trapz(ph * chi, ws) / (2 * np.pi), "real time response function", 1e-8, floor=one)
    obs = gf.obs_kt(h.ro(ts), h.ro(ws), h.ro(chi), h.ro(field))
    h.rclose(obs, trapz(ph * chi * field, ws) / (2 * np.pi), "real time observable", 1e-8, floor=both)
    h.rclose(gf.obs_kt(ts, ws, chi, np.ones(c["nw"])), phi, "response to a field of unit spectrum", 1e-8, floor=one)
    h.rclose(gf.obs_kt(ts, ws, c["a"] * chi, field) + obs, (1 + c["a"]) * np.asarray(obs), "linearity in the response", 1e-8, floor=both)
    h.rclose(gf.obs_kt(ts, ws, chi, f), trapz(ph * chi * ho / (1j * ws + eta), ws) / (2 * np.pi), "observable after the field is switched", 1e-8, floor=both)
    ctx.label("uniform" if c["uniform"] else "irregular")
    ctx.nontrivial(c["nw"] > 2)


FACETS = [
    Facet("hydrodynamic", hydro_st, check_hydro, 4240, 20000, "some frequency differs from zero", shards=5),
    Facet("time_domain", time_st, check_time, 3860, 15440, "more than two frequencies", shards=5),
]
ASSUMPTIONS = ["positive diffusion constant and relaxation rate", "zero wave vector and zero frequency not together"]
