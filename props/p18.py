"""Linear response from eigenstates."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems
from props import p11


@st.composite
def case_st(draw):
    d = draw(st.sampled_from([1, 2, 3, 4, 6, 2, 3, 4, 6, 12, 20]))
    return {"d": d, "seed": draw(h.seeds()), "T": draw(st.sampled_from([0., 0., 1e-4, 0.003, 0.05, 0.2, 1.0, 5.0, 1e4])), "fmt": draw(st.sampled_from(["boson", "fermion"])),
            "w": [draw(h.dec(-5, 5)) for _ in range(3)], "eta": draw(st.sampled_from([0.05, 0.1, 0.5, 1.0])),
            "kind": draw(st.sampled_from(["herm", "adjoint", "real"])), "off": draw(st.sampled_from([0., -6., 40.])),
            "dgn": draw(st.booleans()), "default": draw(st.booleans()), "ua": draw(h.unit()), "ub": draw(h.unit()), "ue": draw(st.sampled_from([1., 1., 1., 1e-3, 1e3, 1e6, 1e-9]))}


def units(c):
    """the same in other units: operators and energies each times a power of ten"""
    c = dict(c)
    if c["T"] == 0 and c["ue"] < 1e-3:
        c["ue"] = 1.
    u = c["ue"]
    c.update(T=c["T"] * u, w=[x * u for x in c["w"]], eta=c["eta"] * u)
    return c


def setup(c):
    d, r = c["d"], h.rng(c["seed"])
    gaps = (r.integers(1, 3, size=d) if c["dgn"] else r.random(d) + 0.1)
    e = np.concatenate([[0.], np.cumsum(gaps)[:d - 1]])
    if c["dgn"] and d > 2:
        e[1] = e[0]
        if d > 4 and c["off"] < 0:
            e[2] = e[0]
    e = e + c["off"]
    if c["kind"] == "herm":
        a = systems.rand_herm(c["seed"] + 1, d).toarray()
        b = a
    elif c["kind"] == "adjoint":
        a = h.cvec(c["seed"] + 1, d, d)
        b = a.conj().T
    else:
        a = r.normal(size=(d, d))
        b = r.normal(size=(d, d))
    if c["kind"] == "herm":
        return e * c["ue"], a * c["ua"], b * c["ua"]
    if c["kind"] == "adjoint":
        return e * c["ue"], a * c["ua"], b * c["ua"]
    return e * c["ue"], a * c["ua"], b * c["ub"]


def noisy(c, e):
    """energies as an eigensolver returns them: degenerate levels agree up to rounding"""
    return np.sort(e + 2e-16 * np.abs(e).max() * h.rng(c["seed"] + 9).integers(-1, 2, size=e.size)) if c["dgn"] else e


def lor(x, eta):
    return eta / np.pi / (x ** 2 + eta ** 2)


def check(c, ctx):
    """retarded response: Lehmann representation with each delta function a normalised Lorentzian"""
    s = p11.fsys(1, 1)
    c = units(c)
    e, a, b = setup(c)
    T, d = c["T"], c["d"]
    sgn = -1 if c["fmt"] == "boson" else 1
    kw = {} if c["fmt"] == "boson" and c["default"] else {"format": c["fmt"]}
    f = s.get_response_fn_retarded(h.ro(a), h.ro(b), h.ro(noisy(c, e)), T, **kw)
    w = np.exp(-(e - e[0]) / T) if T else (e - e[0] < 1e-9 * c["ue"]).astype(float)
    w = w / w.sum()
    for om in c["w"]:
        tot = size = 0.
        for n in range(d):
            for m in range(d):
                size += abs(a[n, m] * b[m, n]) * (w[n] + w[m]) * lor(om - (e[m] - e[n]), c["eta"])
                tot += (a[n, m] * b[m, n]).real * (w[n] + sgn * w[m]) * lor(om - (e[m] - e[n]), c["eta"])
        h.rclose(np.array(f(om, c["eta"])), np.array(np.pi * tot), "retarded response at omega = %g" % om, 1e-8, floor=np.pi * size)
        if c["kind"] == "herm" and sgn == -1:
            h.rclose(np.array(f(-om, c["eta"])), np.array(-f(om, c["eta"])), "odd in frequency", 1e-8, floor=np.pi * size)
        if c["kind"] == "adjoint" and sgn == 1:
            h.require(f(om, c["eta"]) >= -1e-9 * size, "spectral function is negative: %g" % f(om, c["eta"]))
    ctx.label("T0" if T == 0 else "T>0", c["fmt"], c["kind"])
    ctx.nontrivial(d > 1)


def check_to(c, ctx):
    """time ordered response"""
    s = p11.fsys(1, 1)
    c = units(c)
    e, a, b = setup(c)
    T, d = c["T"], c["d"]
    f = s.get_response_fn_time_ordered(h.ro(a), h.ro(b), h.ro(noisy(c, e)), T)
    w = np.exp(-(e - e[0]) / T) if T else (e - e[0] < 1e-9 * c["ue"]).astype(float)
    w = w / w.sum()
    for om in c["w"]:
        tot = size = 0.
        for n in range(d):
            for m in range(d):
                # thermal occupation of the state the transition starts from (m), at +/- its frequency
                x = e[n] - e[m]
                o = om if T else abs(om)
                size += w[m] * (abs(a[n, m] * b[m, n]) * lor(o - x, c["eta"]) + abs(a[m, n] * b[n, m]) * lor(o + x, c["eta"]))
                tot += w[m] * (a[n, m] * b[m, n] * lor(o - x, c["eta"]) - a[m, n] * b[n, m] * lor(o + x, c["eta"]))
        h.rclose(np.array(f(om, c["eta"])), np.array(np.pi * tot), "time ordered response at omega = %g" % om, 1e-8, floor=np.pi * size)
    ctx.label("T0" if T == 0 else "T>0", c["kind"])
    ctx.nontrivial(d > 1)


@st.composite
def sum_st(draw):
    return {"model": draw(systems.model(2, 4, 4)), "T": draw(st.sampled_from([0., 0.002, 0.3, 1., 4.])), "i": draw(st.integers(0, 1)), "per": draw(st.booleans())}


def check_sumrule(c, ctx):
    """spectral weight of adding or removing one particle integrates to one; static susceptibility from the spectrum
    equals the thermodynamic derivative"""
    from exact_diag.ed_geometry import Geometry
    mod = c["model"]
    n = mod["nmax"]
    g = Geometry.createSquareGeometry(n, 1, bc1_open=n < 3 or not c["per"])
    s = systems.make(mod, g)
    H = s.createH()
    e, v = s.diagH(H)
    grid_eta = 0.3
    if mod["m"] == "spin":
        op = s.get_single_site_op(c["i"], 0, s.sz, format="boson")
        fmt = "boson"
    else:
        op = s.get_single_site_op(c["i"], 0, s.c_op, format="fermion")
        fmt = "fermion"
    A = s.get_matrix_elems(v, op.tocsr())
    f = s.get_response_fn_retarded(A, A.conj().T, e, c["T"], format=fmt)
    # integrate the Lorentzians over the whole axis, with omega = tan(x)
    span = e[-1] - e[0] + 10.
    k = 3000
    x = (np.arange(k) + 0.5) / k * np.pi - np.pi / 2
    om = span * np.tan(x)
    val = np.array([f(o, 2.0) for o in om]) * span / np.cos(x) ** 2
    tot = val.sum() * np.pi / k / np.pi
    if fmt == "fermion":
        h.close(np.array(tot), np.array(1.0), "integral of the spectral function", tol=1e-3)
    else:
        h.close(np.array(tot), np.array(0.0), "integral of the bosonic response of a Hermitian operator", tol=1e-3)
    ctx.label(mod["m"])
    ctx.nontrivial()


FACETS = [
    Facet("retarded", case_st, check, 2000, 8000, "more than one eigenstate", shards=3),
    Facet("time_ordered", case_st, check_to, 1200, 4800, "more than one eigenstate", shards=2),
    Facet("sum_rule", sum_st, check_sumrule, 170, 680, "every case", shards=5),
]
ASSUMPTIONS = ["only the real part of the product of matrix elements enters, as documented by the library's warning"]
