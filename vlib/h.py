"""Helpers shared by the properties: comparison, generators of valid inputs, and independent reference models."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .core import Violation

TOL = 1e-8


# ----------------------------------------------------------------------------------------------------------------
# comparison
# ----------------------------------------------------------------------------------------------------------------
def dense(x):
    if sp.issparse(x):
        return x.toarray()
    return np.asarray(x)


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def close(got, want, what, tol=TOL, squeeze=False):
    """|got - want| <= tol * max(1, |want|) elementwise, same shape, finite"""
    g = dense(got)
    w = dense(want)
    if squeeze:
        g = np.squeeze(g)
        w = np.squeeze(w)
    if g.dtype == object:
        try:
            g = g.astype(complex)
        except Exception:
            raise Violation("%s: result is not numeric (%r)" % (what, g))
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
    if g.size == 0:
        return
    if not np.all(np.isfinite(g)):
        raise Violation("%s: result is not finite" % what)
    scale = max(1.0, float(np.max(np.abs(w))))
    err = np.max(np.abs(g - w))
    if not err <= tol * scale:
        i = np.unravel_index(np.argmax(np.abs(g - w)), g.shape)
        raise Violation("%s: differs by %.3g (got %s, expected %s at %s)" % (what, err, g[i], w[i], tuple(int(k) for k in i)))


def rclose(got, want, what, tol=1e-10, floor=0.):
    """like close(), but relative to the largest expected value however small it is"""
    g, w = np.asarray(dense(got)), np.asarray(dense(want))
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
    m = max(float(np.max(np.abs(w))) if w.size else 0., floor)
    if m == 0.:
        return close(g, w, what, 0.)
    close(g / m, w / m, what + (" (in units of %g)" % m), tol)


def unit():
    """a power of ten: results must not depend on the units"""
    return st.sampled_from([1.] * 8 + [1e-3, 1e-6, 1e-9, 1e-12, 1e3, 1e6, 1e9])


def same(got, want, what):
    if not got == want:
        raise Violation("%s: got %s, expected %s" % (what, str(got)[:300], str(want)[:300]))


def rejects(fn, what):
    """fn() must raise"""
    try:
        fn()
    except Exception:
        return
    raise Violation("%s was accepted" % what)


def ro(a):
    """a read-only copy: the code under test has no business writing into its arguments"""
    a = np.array(a)
    a.setflags(write=False)
    return a


# ----------------------------------------------------------------------------------------------------------------
# generators
# ----------------------------------------------------------------------------------------------------------------
def dec(lo, hi, places=3):
    """numbers between lo and hi: round decimals, and some with all their digits"""
    m = 10 ** places
    k = st.integers(int(round(lo * m)), int(round(hi * m)))
    if places < 3:
        return k.map(lambda k: k / m)
    return st.one_of(k.map(lambda k: k / m), k.map(lambda k: k / m), k.map(lambda k: min(max(k / m * (1 - 1e-4 * np.sqrt(0.5)), lo), hi)))


def coupl(lo=-3.0, hi=3.0):
    return st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0]), dec(lo, hi))


def nonzero(lo=-3.0, hi=3.0):
    return st.one_of(st.sampled_from([1.0, -1.0, 0.5, 2.0]), dec(lo, hi).filter(lambda x: abs(x) > 0.05))


def angle():
    return st.one_of(st.sampled_from([0.0, 0.7, -1.1, float(np.pi / 3), float(np.pi), 2.0]), dec(-3.1, 3.1), dec(-3.1, 3.1),
                     st.sampled_from([float(np.pi / 2), -float(np.pi), float(2 * np.pi), 1e-3, -1e-5, 2e-6, -3e-7, 5.0, -9.4]))


def seeds():
    return st.integers(0, 2 ** 20)


def rng(seed):
    return np.random.default_rng(seed)


def cvec(seed, *shape):
    r = rng(seed)
    return r.normal(size=shape) + 1j * r.normal(size=shape)


@st.composite
def polyomino(draw, nmin=1, nmax=6, connected=True):
    """coordinates of a cluster on the square lattice grown site by site"""
    n = draw(st.sampled_from(list(range(nmin, nmax + 1)) + [k for k in (nmax, nmax - 1) if k > nmin]))
    ox = draw(st.integers(-2, 2))
    oy = draw(st.integers(-2, 2))
    cells = [(ox, oy)]
    while len(cells) < n:
        x, y = cells[draw(st.integers(0, len(cells) - 1))]
        dx, dy = draw(st.sampled_from([(1, 0), (0, 1), (-1, 0), (0, -1)] if connected else
                                      [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (2, 0), (-1, 1)]))
        # walk in that direction until a free cell is met, so that every draw adds a site
        while (x, y) in cells:
            x, y = x + dx, y + dy
        cells.append((x, y))
    return [list(c) for c in cells]


@st.composite
def geom_spec(draw, kinds=("square", "tilted", "triangle", "hex", "polygon", "cluster"), nmax=6, nmin=1,
              twist=False, min_periodic=2):
    """description of a geometry with at most nmax sites.  twist: allow boundary phases; min_periodic: smallest
    extent for which a periodic direction is used"""
    kind = draw(st.sampled_from(list(kinds)))
    ph = angle() if twist else st.just(0.0)
    if kind in ("square", "triangle"):
        shapes = [(a, b) for a in range(1, nmax + 1) for b in range(1, nmax + 1) if nmin <= a * b <= nmax]
        shapes = shapes + 2 * [x for x in shapes if min(x) >= 2] + 2 * [x for x in shapes if min(x) >= 3]
        n1, n2 = draw(st.sampled_from(shapes))
        o1 = draw(st.booleans()) if n1 >= max(2, min_periodic) else True
        o2 = draw(st.booleans()) if n2 >= max(2, min_periodic) else True
        return {"kind": kind, "n1": n1, "n2": n2, "o1": o1, "o2": o2, "ph1": draw(ph), "ph2": draw(ph)}
    if kind == "tilted":
        shapes = [(a, b) for a in range(-3, 4) for b in range(-3, 4) if nmin <= a * a + b * b <= nmax and (a, b) != (0, 0)]
        if not shapes:
            kind = "cluster"
        else:
            n1, n2 = draw(st.sampled_from(shapes))
            per = n1 * n1 + n2 * n2 >= max(2, min_periodic)
            o1 = draw(st.booleans()) if per else True
            o2 = draw(st.booleans()) if per else True
            return {"kind": kind, "n1": n1, "n2": n2, "o1": o1, "o2": o2, "ph1": draw(ph), "ph2": draw(ph)}
    if kind == "hex":
        shapes = [(a, b) for a in range(1, 5) for b in range(1, 5) if nmin <= 4 * a * b <= nmax]
        if not shapes:
            kind = "cluster"
        else:
            n1, n2 = draw(st.sampled_from(shapes))
            o1 = draw(st.booleans()) if n1 >= max(2, min_periodic) else True
            o2 = draw(st.booleans()) if n2 >= max(2, min_periodic) else True
            return {"kind": kind, "n1": n1, "n2": n2, "o1": o1, "o2": o2, "ph1": draw(ph), "ph2": draw(ph)}
    if kind == "lattice":
        # any lattice, basis and cell: oblique cells, other descriptions of the same cell, turned and stretched lattices
        ab = [(a, b, c, d) for a, b, c, d in (draw(st.tuples(*[st.integers(-4, 4)] * 4)),) if nmin <= abs(a * d - b * c) <= nmax]
        if not ab:
            det = draw(st.integers(max(1, nmin), nmax))
            k = draw(st.integers(-3, 3))
            ab = [draw(st.sampled_from([(det, 0, k, 1), (1, k, 0, det), (1, k, 1, k + det), (k, 1, k - det, 1)]))]
        P = list(ab[0])
        det = abs(P[0] * P[3] - P[1] * P[2])
        nb = draw(st.integers(1, max(1, min(3, nmax // det))))
        basis = draw(st.lists(st.tuples(st.integers(-5, 5), st.integers(-5, 5)), min_size=nb, max_size=nb, unique_by=lambda t: (t[0] % 4, t[1] % 4)))
        if draw(st.booleans()):
            basis = [(0, 0)]
        if len(basis) * det < nmin:
            basis = [(0, 0)]
        return {"kind": "lattice", "l": draw(st.sampled_from([[1., 0., 0., 1.], [1., 0., 0., 2.], [1., 0., 0.5, float(np.sqrt(3) / 2)], [1., 0., 0.25, 1.5], [0., 1., -1., 0.], [2., 1., -1., 3.], [1., 0., 3., 1.],
                                                              [1., 0., 2., -1.]])),
                "P": P, "basis": [list(b) for b in basis], "turn": draw(st.one_of(st.just(0.), st.sampled_from([0.1, 0.7, 1.0, 2.0, 3.0, 4.4]))), "scale": draw(st.sampled_from([1., 1., 1., 0.5, 7.3, 0.004, 250.])),
                "o1": draw(st.booleans()), "o2": draw(st.booleans()), "ph1": draw(ph), "ph2": draw(ph)}
    if kind == "polygon" and nmax >= 3:
        n = draw(st.integers(max(3, nmin), max(3, nmax)))
        return {"kind": "polygon", "n": n}
    cells = draw(polyomino(nmin, nmax, connected=draw(st.booleans())))
    spec = {"kind": "cluster", "cells": cells}
    n = len(cells)
    if n > 1 and draw(st.integers(0, 3)) == 0:
        spec["adj"] = [draw(st.integers(0, 1)) for _ in range(n * (n - 1) // 2)]
    if twist and n > 1 and draw(st.booleans()):
        if draw(st.integers(0, 2)) == 0:
            # signs, given as a real matrix (whole numbers or floats)
            spec["phases"] = [draw(st.sampled_from([0.0, float(np.pi)])) for _ in range(n * (n - 1) // 2)]
            spec["signs"] = draw(st.sampled_from(["int", "float"]))
        else:
            spec["phases"] = [draw(angle()) for _ in range(n * (n - 1) // 2)]
    return spec


def sym_from_tri(vals, n):
    m = np.zeros((n, n))
    m[np.tril_indices(n, -1)] = vals
    return m + m.T


def herm_phase(vals, n):
    m = np.zeros((n, n))
    m[np.tril_indices(n, -1)] = vals
    return np.exp(1j * (m - m.T))


def build_geom(spec):
    from exact_diag.ed_geometry import Geometry
    k = spec["kind"]
    if k == "square":
        return Geometry.createSquareGeometry(spec["n1"], spec["n2"], spec["ph1"], spec["ph2"], spec["o1"], spec["o2"])
    if k == "tilted":
        return Geometry.createTiltedSquareGeometry(spec["n1"], spec["n2"], spec["ph1"], spec["ph2"], spec["o1"], spec["o2"])
    if k == "triangle":
        return Geometry.createTriangleGeometry(spec["n1"], spec["n2"], spec["ph1"], spec["ph2"], spec["o1"], spec["o2"])
    if k == "hex":
        return Geometry.createHexagonalGeometry(spec["n1"], spec["n2"], spec["ph1"], spec["ph2"], spec["o1"], spec["o2"])
    if k == "lattice":
        l1, l2, basis, p1, p2 = lattice_of(spec)
        return Geometry.create_lattice_geom(np.array(l1), np.array(l2), [np.array(b).reshape(2, 1) for b in basis], np.array(p1), np.array(p2), spec["ph1"], spec["ph2"], bc1_open=spec["o1"], bc2_open=spec["o2"])
    if k == "polygon":
        return Geometry.createRegularPolygonGeometry(spec["n"])
    if k == "cluster":
        xs = [c[0] for c in spec["cells"]]
        ys = [c[1] for c in spec["cells"]]
        n = len(xs)
        adj = sym_from_tri(spec["adj"], n) if "adj" in spec else None
        ph = herm_phase(spec["phases"], n) if "phases" in spec else None
        if "phases" in spec and spec.get("signs") and all(v in (0., float(np.pi)) for v in spec["phases"]):
            ph = np.round(ph.real).astype(spec["signs"])
        return Geometry.createNonPeriodicGeometry(xs, ys, adjacency_mat=adj, phase_mat=ph)
    raise ValueError(k)


def lattice_of(spec):
    """(l1, l2, basis, p1, p2) of a lattice-based spec, written down independently of the library"""
    s3 = np.sqrt(3.0)
    k = spec["kind"]
    if k == "square":
        return [1, 0], [0, 1], [[0, 0]], [spec["n1"], 0], [0, spec["n2"]]
    if k == "tilted":
        return [1, 0], [0, 1], [[0, 0]], [spec["n1"], spec["n2"]], [-spec["n2"], spec["n1"]]
    if k == "triangle":
        return [1, 0], [0.5, s3 / 2], [[0, 0]], [spec["n1"], 0], [0.5 * spec["n2"], s3 / 2 * spec["n2"]]
    if k == "hex":
        return [1.5, s3 / 2], [1.5, -s3 / 2], [[-1, 0], [-0.5, s3 / 2]], [3 * spec["n1"], 0], [0, s3 * spec["n2"]]
    if k == "lattice":
        co, si = np.cos(spec["turn"]), np.sin(spec["turn"])
        m = spec["scale"] * np.array([[co, -si], [si, co]])
        l1, l2 = m @ np.array(spec["l"][:2], float), m @ np.array(spec["l"][2:], float)
        a, b, c, d = spec["P"]
        return list(l1), list(l2), [list(l1 * (x / 4) + l2 * (y / 4)) for x, y in spec["basis"]], list(a * l1 + b * l2), list(c * l1 + d * l2)
    raise ValueError(k)


def nsites_of(spec):
    k = spec["kind"]
    if k in ("square", "triangle"):
        return spec["n1"] * spec["n2"]
    if k == "tilted":
        return spec["n1"] ** 2 + spec["n2"] ** 2
    if k == "hex":
        return 4 * spec["n1"] * spec["n2"]
    if k == "lattice":
        return abs(spec["P"][0] * spec["P"][3] - spec["P"][1] * spec["P"][2]) * len(spec["basis"])
    if k == "polygon":
        return spec["n"]
    return len(spec["cells"])


def gauss_reduce(p1, p2):
    """shortest pair of vectors spanning the same plane lattice"""
    p1, p2 = np.array(p1, float), np.array(p2, float)
    for _ in range(1000):
        if p1 @ p1 > p2 @ p2:
            p1, p2 = p2, p1
        k = np.round(p1 @ p2 / (p1 @ p1))
        if k == 0:
            break
        p2 = p2 - k * p1
    return p1, p2


def min_image(dx, dy, p1, p2, r=3):
    """shortest length among dx,dy + n1 p1 + n2 p2 and all shortest vectors: the cell is described by its shortest
    vectors and the vector brought near the origin before the neighbouring images are compared"""
    p1, p2 = np.array(p1, float), np.array(p2, float)
    if p1.any() and p2.any():
        p1, p2 = gauss_reduce(p1, p2)
        k = np.round(np.linalg.solve(np.array([p1, p2]).T, [dx, dy]))
    else:
        k = [np.round(p @ [dx, dy] / (p @ p)) if p.any() else 0. for p in (p1, p2)]
    dx, dy = dx - k[0] * p1[0] - k[1] * p2[0], dy - k[0] * p1[1] - k[1] * p2[1]
    n = np.arange(-r, r + 1)
    a = n if np.any(np.asarray(p1) != 0) else np.array([0])
    b = n if np.any(np.asarray(p2) != 0) else np.array([0])
    A, B = np.meshgrid(a, b)
    xs = dx + A * p1[0] + B * p2[0]
    ys = dy + A * p1[1] + B * p2[1]
    L = np.hypot(xs, ys)
    m = L.min()
    sel = L < m + 1e-9
    return m, np.stack([xs[sel], ys[sel]], 1)


# ----------------------------------------------------------------------------------------------------------------
# reference models
# ----------------------------------------------------------------------------------------------------------------
def ref_cdag(l, n):
    """creation operator of logical mode l of n.  Mode 0 is the most significant bit of the basis index, and a basis
    state is the product of creation operators with higher modes further to the left."""
    dim = 1 << n
    p = n - 1 - l
    s = np.arange(dim)
    s = s[(s >> p) & 1 == 0]
    low = s & ((1 << p) - 1)
    par = np.array([bin(int(v)).count("1") & 1 for v in low], dtype=int)
    return sp.csr_matrix((1.0 - 2.0 * par, (s | (1 << p), s)), shape=(dim, dim))


def ref_number(l, n):
    dim = 1 << n
    p = n - 1 - l
    return sp.diags(((np.arange(dim) >> p) & 1).astype(float), format="csr")


def ref_occ(n):
    """occupation table, row = basis index, column = logical mode"""
    s = np.arange(1 << n)
    return np.stack([(s >> (n - 1 - l)) & 1 for l in range(n)], axis=1) if n else np.zeros((1, 0), int)


def ref_site_op(op, i, n, d):
    """tensor product operator acting on site i of n sites with local dimension d (site 0 leftmost)"""
    out = np.eye(1)
    for k in range(n):
        out = np.kron(out, dense(op) if k == i else np.eye(d))
    return out


def ref_site_sp(op, i, n, d):
    """the same as a sparse matrix"""
    return sp.kron(sp.kron(sp.eye(d ** i), sp.csr_matrix(dense(op))), sp.eye(d ** (n - 1 - i)), format="csr")


def ref_spin(s):
    """(sx, sy, sz, s+, s-) for spin s, basis m = s, s-1, ..., -s"""
    d = int(round(2 * s + 1))
    m = s - np.arange(d)
    spl = np.zeros((d, d))
    for k in range(1, d):
        spl[k - 1, k] = np.sqrt(s * (s + 1) - m[k] * (m[k] + 1))
    smi = spl.T
    return 0.5 * (spl + smi), (spl - smi) / 2j, np.diag(m), spl, smi


def ref_fermion_h(nsites, nsp, t, u, v, mu, pot):
    """t: nsites x nsites x nsp hermitian per species, u: nsites (species 0 with 1), v: nsites x nsites x nsp,
    mu: nsp, pot: nsites x nsp"""
    n = nsites * nsp
    dim = 1 << n
    cd = [ref_cdag(l, n) for l in range(n)]
    c = [m.conj().T.tocsr() for m in cd]
    occ = ref_occ(n).astype(float)
    diag = np.zeros(dim, dtype=complex)
    h = sp.csr_matrix((dim, dim), dtype=complex)
    for k in range(nsp):
        for i in range(nsites):
            diag += (pot[i, k] - mu[k]) * occ[:, k * nsites + i]
            for j in range(nsites):
                if i != j and t[i, j, k] != 0:
                    h = h - t[i, j, k] * (cd[k * nsites + i] @ c[k * nsites + j])
                if i >= j:
                    diag += v[i, j, k] * occ[:, k * nsites + i] * occ[:, k * nsites + j]
    if nsp == 2:
        for i in range(nsites):
            diag += u[i] * occ[:, i] * occ[:, nsites + i]
    return (h + sp.diags(diag)).toarray()


def boltzmann(e, temp):
    """normalised weights of arbitrary (unsorted) energies; T = 0: uniform over the exactly lowest ones"""
    e = np.asarray(e, float)
    e = e - e.min()
    w = np.exp(-e / temp) if temp != 0 else (e < 1e-12).astype(float)
    return w / w.sum(), w


def silent():
    import contextlib
    import io
    return contextlib.redirect_stdout(io.StringIO())


def perm(n):
    """a permutation of range(n); hypothesis' own strategy returns the identity very often"""
    return st.one_of(st.permutations(list(range(n))), seeds().map(lambda s: [int(k) for k in rng(s).permutation(n)]),
                     seeds().map(lambda s: [int(k) for k in rng(s).permutation(n)]))


def sclose(got, want, what, tol=TOL):
    """close() for sparse matrices without densifying"""
    g, w = sp.csr_matrix(got), sp.csr_matrix(want)
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
    if not np.all(np.isfinite(g.data)):
        raise Violation("%s: result is not finite" % what)
    d = g - w
    err = float(abs(d).max()) if d.nnz else 0.
    if not err <= tol * max(1., float(abs(w).max()) if w.nnz else 1.):
        raise Violation("%s: differs by %.3g" % (what, err))
