"""Imaginary time and Matsubara frequency Green's functions."""
import numpy as np
from hypothesis import strategies as st
from exact_diag import greens_fns as gf

from vlib.core import Facet
from vlib import h


def trapz(y, x):
    y, x = np.asarray(y), np.asarray(x)
    return np.sum(0.5 * (y[..., 1:] + y[..., :-1]) * np.diff(x), axis=-1)


def beta_st():
    return st.one_of(st.sampled_from([0.5, 1.0, 2.0, 5.0, 40.0]), h.dec(0.1, 8), h.dec(0.1, 60),
                     h.dec(0.02, 8).map(lambda T: 1 / T), st.floats(0.1, 20), st.sampled_from([150., 400., 2000.]))


def thermal(taus, b, w, s):
    """exp(-w tau) / (1 + s exp(-b w)) for 0 <= tau <= b and any w, at any temperature"""
    t, w = np.broadcast_arrays(taus, w)
    with np.errstate(all="ignore"):
        return np.where(w > 0, np.exp(-w * t) / (1 + s * np.exp(-b * w)), s * np.exp((b - t) * w) / (1 + s * np.exp(b * w)))


@st.composite
def frq_st(draw):
    b = draw(beta_st())
    u = draw(st.one_of(h.dec(0.05, 40), st.sampled_from([0.3, 0.9, 1.1, 2.5])))   # cut-off in units of pi / beta
    return {"beta": b, "u": u, "format": draw(st.sampled_from(["fermion", "boson"])), "default": draw(st.sampled_from([False, False, True]))}


def frqs_ref(beta, cut, fmt):
    n = np.arange(0, int(cut * beta / np.pi) + 3)
    w = (2 * n + 1) * np.pi / beta if fmt == "fermion" else 2 * (n + 1) * np.pi / beta
    w = w[w < cut]
    return np.sort(np.concatenate((-w, w) + ((np.zeros(1),) if fmt == "boson" else ())))


def check_frq(c, ctx):
    if abs(c["u"] - round(c["u"])) < 1e-3:
        return
    cut = c["u"] * np.pi / c["beta"]
    if c["default"]:
        m = 30 * c["beta"] / np.pi
        if abs(m - round(m)) < 1e-3:
            return
        got, cut = gf.get_matsubara_frqs(c["beta"], format=c["format"]), 30
    elif c["format"] == "fermion" and c["u"] > 20:
        got = gf.get_matsubara_frqs(c["beta"], cut)
    else:
        got = gf.get_matsubara_frqs(c["beta"], max_frq=cut, format=c["format"])
    h.close(got, frqs_ref(c["beta"], cut, c["format"]), "Matsubara frequencies")
    ctx.label(c["format"])
    ctx.nontrivial(np.size(got) > 2)


@st.composite
def spec_st(draw):
    fmt = draw(st.sampled_from(["fermion", "boson"]))
    return {"beta": draw(beta_st()), "format": fmt, "m": draw(st.sampled_from([2, 3, 5, 9, 30])), "seed": draw(h.seeds()), "nt": draw(st.sampled_from([1, 2, 5, 11])),
            "cut": draw(h.dec(3, 40)), "uniform": draw(st.booleans()), "default": draw(st.booleans()), "ua": draw(h.unit()), "lo": draw(h.dec(-6, -0.5)), "hi": draw(h.dec(0.5, 6))}


def check_spec(c, ctx):
    r = h.rng(c["seed"])
    m, b = c["m"], c["beta"]
    w = np.linspace(c["lo"], c["hi"], m) if c["uniform"] else np.sort(c["lo"] + (c["hi"] - c["lo"]) * r.random(m))
    if np.min(np.abs(w)) < 1e-2 or np.min(np.diff(w)) < 1e-4:
        w = w + 0.0173 * np.arange(1, m + 1)
        if np.min(np.abs(w)) < 1e-3:
            return
    A = c["ua"] * r.random(m) * (1 if c["format"] == "fermion" else np.sign(w))
    taus = np.sort(r.random(c["nt"])) * b
    if c["nt"] > 2:
        taus[0], taus[-1] = 0.0, b
    kw = {} if c["format"] == "fermion" and c["default"] else {"format": c["format"]}
    s = 1 if c["format"] == "fermion" else -1
    want = -trapz(A * thermal(taus[:, None], b, w[None, :], s), w) / (2 * np.pi)
    h.rclose(gf.get_grnfn_imagtime_spectralfn(h.ro(taus), b, h.ro(w), h.ro(A), **kw), want, "imaginary time Green's function of a spectral function", 1e-9)
    K = gf.get_grnfn_imagtime_spectralfn_kernel(h.ro(taus), b, h.ro(w), **kw)
    h.require(np.shape(K) == (c["nt"], m), "shape of the imaginary time kernel")
    h.rclose(K @ A, want, "imaginary time kernel applied to a spectral function")
    # (anti)periodicity follows from the kernel of every single frequency
    wn = frqs_ref(b, c["cut"] * np.pi / b + 0.001, c["format"])
    wn = wn[wn != 0] if c["format"] == "boson" else wn
    if wn.size:
        want = trapz(A / (1j * wn[:, None] - w), w) / (2 * np.pi)
        h.rclose(gf.get_grnfn_imagfrq_spectralfn(h.ro(wn), h.ro(w), h.ro(A)), want, "Matsubara Green's function of a spectral function", 1e-9)
        K = gf.get_grnfn_imagfrq_spectralfn_kernel(h.ro(wn), h.ro(w), **kw)
        h.require(np.shape(K) == (wn.size, m), "shape of the Matsubara kernel")
        h.rclose(K @ A, want, "Matsubara kernel applied to a spectral function")
    ctx.label(c["format"], "uniform" if c["uniform"] else "irregular")
    ctx.nontrivial(m > 2)


@st.composite
def ft_st(draw):
    return {"beta": draw(beta_st()), "nt": draw(st.sampled_from([2, 3, 6, 20])), "nw": draw(st.sampled_from([1, 2, 4, 7])), "seed": draw(h.seeds()),
            "ua": draw(h.unit()), "outside": draw(st.booleans()), "uniform": draw(st.booleans()), "end": draw(st.booleans()), "format": draw(st.sampled_from(["fermion", "boson"]))}


def check_ft(c, ctx):
    r, b = h.rng(c["seed"]), c["beta"]
    taus = np.linspace(0, b, c["nt"]) if c["uniform"] else np.sort(r.random(c["nt"])) * b
    if c["uniform"] and c["seed"] % 2:
        # multiples of a step, which miss the end by a rounding error
        taus = np.arange(c["nt"]) * (b / (c["nt"] - 1))
    if not c["end"]:
        taus = 0.05 * b + 0.9 * taus
    if c["outside"]:
        taus = np.concatenate((-b * np.sort(r.random(3))[::-1] - 1e-3, taus, b * (1 + np.sort(r.random(2))) + 1e-3))
    n = r.integers(-6, 7, size=c["nw"])
    wn = (2 * n + (1 if c["format"] == "fermion" else 0)) * np.pi / b
    g = h.cvec(c["seed"], taus.size) * c["ua"]
    use = (taus >= -1e-9) & (taus <= b + 1e-9)
    t2, g2 = taus[use], g[use]
    want = trapz(g2 * np.exp(1j * np.outer(wn, t2)), t2)
    h.close(gf.grnfn_imagtime_ft(h.ro(wn), h.ro(taus), h.ro(g), b) / c["ua"], want / c["ua"], "transform from imaginary time to Matsubara frequency")
    gw = h.cvec(c["seed"] + 1, wn.size) * c["ua"]
    want = np.exp(-1j * np.outer(taus, wn)) @ gw / b
    h.close(gf.grnfn_imagfrq_ft(h.ro(taus), h.ro(wn), h.ro(gw), b) / c["ua"], want / c["ua"], "transform from Matsubara frequency to imaginary time")
    ctx.label("outside" if c["outside"] else "inside")
    ctx.nontrivial(c["nt"] > 2)


@st.composite
def free_st(draw):
    return {"beta": draw(beta_st()), "e": draw(h.dec(-3, 3)), "taus": draw(st.lists(h.dec(-1, 1).filter(lambda x: x != 0), min_size=1, max_size=6)),
            "u": draw(h.dec(0.5, 30)), "eta": draw(h.dec(0.01, 0.5)), "w": draw(st.lists(h.dec(-5, 5), min_size=1, max_size=6)), "default": draw(st.booleans()),
            "series": draw(st.sampled_from([False, False, False, True]))}


def check_free(c, ctx):
    b, e = c["beta"], c["e"]
    kw = {} if c["default"] else {"format": "fermion"}
    t = np.array(c["taus"]) * b
    want = np.where(t > 0, -thermal(np.abs(t), b, e, 1), thermal(np.abs(t), b, -e, 1))
    h.close(gf.get_noninteracting_gfn_tau(h.ro(t), e, b, **kw), want, "free Green's function in imaginary time")
    shifted = np.where(t > 0, t - b, t + b)
    keep = (np.abs(shifted) > 1e-9) & (np.abs(shifted) <= b)
    if keep.any():
        h.close(gf.get_noninteracting_gfn_tau(shifted[keep], e, b, **kw), -want[keep], "free Green's function is antiperiodic")
    if abs(c["u"] - round(c["u"])) > 1e-3:
        cut = c["u"] * np.pi / b
        g, w = gf.get_noninteracting_gfn_imagfrq(cut, e, b, **kw)
        ref = frqs_ref(b, cut, "fermion")
        h.close(w, ref, "frequencies of the free Matsubara function")
        h.close(g, 1 / (1j * ref - e), "free Matsubara Green's function")
        if c["series"] and b <= 60:
            tt = np.linspace(1e-12, b, 6001)
            gt = gf.get_noninteracting_gfn_tau(tt, e, b)
            ft = gf.grnfn_imagtime_ft(ref[np.abs(ref) * b < 40], tt, gt, b)
            h.close(ft, 1 / (1j * ref[np.abs(ref) * b < 40] - e), "transform of the free imaginary time function", tol=1e-3)
    om = np.array(c["w"])
    h.close(gf.get_noninteracting_spectral_fn(h.ro(om), e, c["eta"]), 2 * c["eta"] / (c["eta"] ** 2 + (om - e) ** 2), "free spectral function")
    grid = e + c["eta"] * np.tan(np.linspace(-1.57, 1.57, 4001))
    h.close(trapz(gf.get_noninteracting_spectral_fn(grid, e, c["eta"]), grid), 2 * np.pi, "weight of the free spectral function", tol=2e-3)
    ctx.label("series" if c["series"] else "plain")
    ctx.nontrivial(e != 0)


FACETS = [
    Facet("frequencies", frq_st, check_frq, 5600, 22400, "more than two frequencies", shards=3),
    Facet("spectral", spec_st, check_spec, 4700, 18800, "more than two real frequencies", shards=5),
    Facet("transforms", ft_st, check_ft, 4500, 18000, "more than two imaginary times", shards=5),
    Facet("free", free_st, check_free, 3100, 12400, "energy differs from zero", shards=5),
]
ASSUMPTIONS = ["cut-off frequencies which coincide with a Matsubara frequency are not used", "bosonic kernels away from zero frequency",
               "free functions not judged at imaginary time zero"]
