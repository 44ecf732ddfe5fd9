"""Number sectors and projectors onto eigenspaces of diagonal operators."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems


@st.composite
def num_st(draw, large=False):
    nsp = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3] + ([] if large else [4])))
    n = draw(st.sampled_from({1: [1, 3, 4, 5, 6], 2: [1, 2, 3, 3], 3: [1, 2, 2], 4: [1, 2]}[nsp] if not large else {1: [7, 8, 9], 2: [4], 3: [3]}[nsp]))
    vals = [k for k in range(n + 1)] + [n // 2] * 2 + [None]
    ns = [draw(st.sampled_from(vals)) for _ in range(nsp)]
    return {"nsp": nsp, "n": n, "ns": ns if draw(st.sampled_from([1] * 9 + [0])) else None, "form": draw(st.sampled_from(["list", "arr", "scalar"])),
            "t": draw(h.nonzero()), "u": draw(h.coupl()), "v": draw(h.coupl()), "seed": draw(h.seeds())}


def check_num(c, ctx):
    import exact_diag.ed_fermions as edf
    from exact_diag.ed_geometry import Geometry
    n, nsp, ns = c["n"], c["nsp"], c["ns"]
    g = Geometry.createSquareGeometry(n, 1, bc1_open=n < 3)
    arg = ns
    if ns is not None:
        if c["form"] == "arr" and None not in ns:
            arg = h.ro(ns)
        elif c["form"] == "scalar" and nsp == 1 and ns[0] is not None:
            arg = ns[0]
    s = edf.fermions(g, c["u"] if nsp == 2 else 0, c["t"], ns=arg, us_same_species=c["v"], nspecies=nsp)
    occ = h.ref_occ(n * nsp).reshape(-1, nsp, n).sum(2)
    keep = np.ones(len(occ), bool)
    for k in range(nsp):
        if ns is not None and ns[k] is not None:
            keep &= occ[:, k] == ns[k]
    keep = np.where(keep)[0]
    P = h.dense(s.n_projector)
    h.require(P.shape == (len(keep), 1 << (n * nsp)), "dimension of the number sector: %s, expected %d of %d" % (P.shape, len(keep), 1 << (n * nsp)))
    # rows: orthonormal basis of exactly the states with these particle numbers
    h.close(P @ P.conj().T, np.eye(len(keep)), "rows of the number projector are orthonormal")
    D = np.zeros(1 << (n * nsp))
    D[keep] = 1
    h.close(P.conj().T @ P, np.diag(D), "number projector selects exactly the states with the requested particle numbers")
    H = h.dense(s.createH())
    Hp = h.dense(s.createH(projector=s.n_projector))
    h.close(np.linalg.eigvalsh(Hp), np.linalg.eigvalsh(H[np.ix_(keep, keep)]), "spectrum in the number sector")
    ctx.label("nsp%d" % nsp, "none" if ns is None else "some free" if None in ns else "all fixed", c["form"])
    ctx.nontrivial(ns is not None and 1 < len(keep) < len(occ))


@st.composite
def blocks_st(draw):
    return {"model": draw(systems.model(3, 5, 5)), "per": draw(st.booleans()), "sp": draw(st.integers(0, 1))}


def check_blocks(c, ctx):
    """diagonalising the number (magnetisation) blocks gives the whole spectrum"""
    from exact_diag.ed_geometry import Geometry
    mod = c["model"]
    n = mod["nmax"]
    if mod["m"] == "spin":
        mod = dict(mod, hx=0., hy=0., u=mod["t"])
    g = Geometry.createSquareGeometry(n, 1, bc1_open=not c["per"])
    s = systems.make(mod, g)
    if mod["m"] == "spin":
        tot = s.get_sum_op(s.sz)
    else:
        tot = s.get_sum_op(s.n_op, min(c["sp"], s.nspecies - 1), format="boson")
    projs, vals = s.get_subspace_projs(tot.tocsr())
    h.require(len(projs) == n + 1 and len(vals) == n + 1, "number of sectors %d, expected %d" % (len(projs), n + 1))
    es = []
    for P in projs:
        es.append(s.diagH(s.createH(projector=P))[0])
    h.close(np.sort(np.concatenate(es)), s.diagH(s.createH())[0], "spectrum assembled from the blocks")
    ctx.label(mod["m"])
    ctx.nontrivial()


@st.composite
def diag_st(draw):
    dim = draw(st.integers(1, 16))
    ev = draw(st.lists(st.sampled_from([-2., -1., -0.5, 0., 0.5, 1., 2., 3.]), min_size=dim, max_size=dim))
    pick = draw(st.one_of(st.none(), st.lists(st.sampled_from([-2., -0.5, 0., 1., 3., 7.]), min_size=1, max_size=4), st.sampled_from([0., 1., 7.])))
    # the same eigenvalues on other scales: large numbers a unit apart, small ones, ones that differ in late digits
    f = draw(st.sampled_from([None, None, [1., 1e6], [1., -3e5], [1e-10, 0.], [1e-9, 1.], [1e7, 0.]]))
    if f:
        ev = [x * f[0] + f[1] for x in ev]
        pick = [x * f[0] + f[1] for x in pick] if isinstance(pick, list) else pick if pick is None else pick * f[0] + f[1]
    return {"d": ev, "pick": pick, "explicit": draw(st.booleans())}


def check_diag(c, ctx):
    from props.p11 import fsys
    s = fsys(1, 1)
    d = np.array(c["d"])
    op = sp.diags(d).tocsr()
    if not c["explicit"]:
        op.eliminate_zeros()
    projs, vals = s.get_subspace_projs(op, eig_vals=c["pick"]) if c["pick"] is not None else s.get_subspace_projs(op)
    want = np.unique(d) if c["pick"] is None else np.atleast_1d(c["pick"])
    h.same([float(x) for x in np.ravel(vals)], [float(x) for x in want], "eigenvalues of the sectors")
    h.require(len(projs) == len(want), "number of sectors")
    for P, v in zip(projs, want):
        P = h.dense(P)
        m = (d == v)
        h.require(P.shape == (m.sum(), len(d)), "size of the sector with eigenvalue %g: %s" % (v, P.shape))
        h.close(P @ P.T, np.eye(m.sum()), "rows orthonormal in the sector with eigenvalue %g" % v)
        h.close(P.T @ P, np.diag(m.astype(float)), "sector with eigenvalue %g" % v)
    ctx.label("all" if c["pick"] is None else "picked")
    ctx.nontrivial(1 < len(set(c["d"])) < len(c["d"]))


FACETS = [
    Facet("number", num_st, check_num, 290, 4000, "sector is neither everything nor a single state", shards=5),
    Facet("blocks", blocks_st, check_blocks, 70, 1200, "every case", shards=5),
    Facet("diagonal", diag_st, check_diag, 1600, 6400, "some eigenvalue is degenerate and there are at least two", shards=3),
    Facet("large", lambda: num_st(True), check_num, 30, 500, "the same for 7 to 9 modes", shards=6),
]
ASSUMPTIONS = ["at most 9 modes"]
