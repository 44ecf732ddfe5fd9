"""Reduction of vectors modulo a periodicity lattice, and reciprocal vectors."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h

S3 = float(np.sqrt(3.0))


@st.composite
def vec_pair(draw):
    """two vectors: independent, or one or both of them zero"""
    kind = draw(st.sampled_from(["both", "both", "both", "first", "second", "none"]))
    comp = st.one_of(st.integers(-6, 6).map(float), h.dec(-5, 5, 2), st.integers(-40, 40).map(lambda k: k / 7), st.floats(-5, 5).map(lambda x: 0. if abs(x) < 1e-3 else x))
    scale = draw(st.sampled_from([1.0, 1.0, S3 / 2, 0.1, 20.0, 0.002, 300.]))
    v1 = [draw(comp) * scale, draw(comp) * scale]
    v2 = [draw(comp) * scale, draw(comp) * scale]
    n1, n2 = np.hypot(*v1), np.hypot(*v2)
    if kind == "both" and (abs(v1[0] * v2[1] - v1[1] * v2[0]) < 0.1 * n1 * n2 or max(n1, n2) > 8 * min(n1, n2)):
        v1, v2 = [scale * 3., scale * 1.], [-scale, scale * 2.]
    if kind in ("first", "second", "none") and min(n1, n2) == 0:
        v1, v2 = [scale * 3., scale * 1.], [-scale, scale * 2.]
    if kind in ("second", "none"):
        v1 = [0., 0.]
    if kind in ("first", "none"):
        v2 = [0., 0.]
    return kind, v1, v2


@st.composite
def red_case(draw):
    kind, v1, v2 = draw(vec_pair())
    n = draw(st.integers(1, 6))
    pts = []
    for _ in range(n):
        if draw(st.booleans()):
            # exactly representable multiples of the periods, including half-way points
            a = draw(st.integers(-12, 12)) / draw(st.sampled_from([1, 2, 4]))
            b = draw(st.integers(-12, 12)) / draw(st.sampled_from([1, 2, 4]))
            pts.append(["frac", a, b])
        else:
            pts.append(["xy", draw(h.dec(-40, 40)), draw(h.dec(-40, 40))])
    return {"kind": kind, "v1": v1, "v2": v2, "pts": pts, "form": draw(st.integers(0, 3)),
            "ints": draw(st.integers(-3, 3)), "ints2": draw(st.integers(-3, 3))}


def _shape(v, form):
    if form == 0:
        return list(v)
    if form == 1:
        return np.array(v)
    if form == 2:
        return np.array(v).reshape(2, 1)
    return np.array(v).reshape(1, 2)


def check_red(case, ctx):
    from exact_diag.ed_geometry import reduce_vectors
    v1, v2 = np.array(case["v1"]), np.array(case["v2"])
    z1, z2 = not v1.any(), not v2.any()
    xy = np.array([a * v1 + b * v2 if k == "frac" else [a, b] for k, a, b in case["pts"]])
    # coordinates of a point with respect to the periods
    if not z1 and not z2:
        inv = np.linalg.inv(np.array([v1, v2]).T)
    else:
        inv = np.array([v1 / max(v1 @ v1, 1e-300), v2 / max(v2 @ v2, 1e-300)])
    # points within some 60 periods: much further away rounding decides which points are on an edge
    xy = xy / np.maximum(1., np.abs(inv @ xy.T).max(0) / 60)[:, None]
    xs, ys = h.ro(xy[:, 0]), h.ro(xy[:, 1])
    scale = max(1., np.max(np.abs(xy)))
    for mode in ("positive", "centered"):
        xr, yr, n1, n2 = reduce_vectors(_shape(v1, case["form"]), _shape(v2, case["form"]), xs, ys, mode=mode)
        xr, yr, n1, n2 = (np.asarray(a, float).ravel() for a in (xr, yr, n1, n2))
        h.same((xr.size, yr.size, n1.size, n2.size), (len(xs),) * 4, "%s: number of results" % mode)
        h.close(n1, np.round(n1), "%s: multiples of the first vector are integers" % mode, 1e-12)
        h.close(n2, np.round(n2), "%s: multiples of the second vector are integers" % mode, 1e-12)
        h.close(np.stack([xr, yr], 1) + np.outer(n1, v1) + np.outer(n2, v2), xy,
                "%s: reduced vector plus its multiples" % mode, 1e-9)
        f = inv @ np.stack([xr, yr])
        for kk, zero, nn in ((0, z1, n1), (1, z2, n2)):
            if zero:
                h.close(nn, np.zeros(len(xs)), "%s: multiples of a vanishing vector" % mode)
                continue
            lo, hi = (0., 1.) if mode == "positive" else (-0.5, 0.5)
            h.require(np.all(f[kk] >= lo - 1e-9) and np.all(f[kk] <= hi + 1e-9),
                      "%s: reduced coordinate %d outside the cell: %s" % (mode, kk, f[kk]))
            if mode == "positive":
                h.require(np.all(f[kk] < 1 - 1e-11 * scale), "positive: coordinate %d on the excluded edge: %s" % (kk, f[kk]))
            else:
                h.require(np.all(f[kk] < 0.5 - 1e-11 * scale), "centered: coordinate %d on the excluded edge: %s" % (kk, f[kk]))
        # idempotent, and the same for equivalent points
        x2, y2, m1, m2 = reduce_vectors(_shape(v1, case["form"]), _shape(v2, case["form"]), xr, yr, mode=mode)
        h.close(np.ravel(x2), xr, "%s: reducing twice (x)" % mode, 1e-9)
        h.close(np.ravel(y2), yr, "%s: reducing twice (y)" % mode, 1e-9)
        sh = case["ints"] * v1 + case["ints2"] * v2
        x3, y3, _, _ = reduce_vectors(_shape(v1, case["form"]), _shape(v2, case["form"]), xs + sh[0], ys + sh[1], mode=mode)
        h.close(np.ravel(x3), xr, "%s: representative of an equivalent point (x)" % mode, 1e-8)
        h.close(np.ravel(y3), yr, "%s: representative of an equivalent point (y)" % mode, 1e-8)
    ctx.label(case["kind"], "half" if any(k == "frac" for k, _, _ in case["pts"]) else "generic")
    ctx.nontrivial(case["kind"] != "none" and bool(np.any(n1 != 0) or np.any(n2 != 0)))


@st.composite
def rec_case(draw):
    kind, v1, v2 = draw(vec_pair())
    return {"kind": kind, "v1": v1, "v2": v2, "form": draw(st.integers(0, 3))}


def check_rec(case, ctx):
    from exact_diag.ed_geometry import get_reciprocal_vects
    v1, v2 = np.array(case["v1"]), np.array(case["v2"])
    b1, b2 = get_reciprocal_vects(_shape(v1, case["form"]), _shape(v2, case["form"]))
    b1, b2 = np.ravel(b1), np.ravel(b2)
    h.close(b1 @ v1, float(v1.any()), "first vector with its reciprocal", 1e-9)
    h.close(b2 @ v2, float(v2.any()), "second vector with its reciprocal", 1e-9)
    h.close(b1 @ v2, 0., "second vector with first reciprocal", 1e-9)
    h.close(b2 @ v1, 0., "first vector with second reciprocal", 1e-9)
    if not v1.any():
        h.close(b1, np.zeros(2), "reciprocal of a vanishing vector")
    elif not v2.any():
        h.close(b1 * (v1 @ v1), v1, "reciprocal of a single vector")
    if not v2.any():
        h.close(b2, np.zeros(2), "reciprocal of a vanishing vector")
    elif not v1.any():
        h.close(b2 * (v2 @ v2), v2, "reciprocal of a single vector")
    ctx.label(case["kind"])
    ctx.nontrivial(case["kind"] == "both")


FACETS = [
    Facet("reduce", red_case, check_red, 4000, 40000, "random periods (independent, or one/both zero) and points, half-way points "
          "included; non-trivial: some point is moved", shards=8),
    Facet("reciprocal", rec_case, check_rec, 4000, 16000, "random pairs of vectors; non-trivial: both non-zero", shards=4),
]
ASSUMPTIONS = ["points at most 60 periods away", "periods with an angle above about 6 degrees and a ratio of lengths up to 8 (beyond that rounding decides on which side of an edge a point is)"]
