"""Hilbert-space operators of site permutations."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems
from props import p07


def cycles_of(img):
    seen, out = set(), []
    for i in range(len(img)):
        if i not in seen:
            cy = [i]
            while img[cy[-1]] != i:
                cy.append(img[cy[-1]])
            seen.update(cy)
            out.append(cy)
    return out


@st.composite
def perm_case(draw, large=False):
    m = draw(st.sampled_from(["fermi", "spinless", "fermi3", "spin0.5", "spin1.0", "spin1.5"] + ([] if large else ["fermi4", "spin2.0", "spin2.5", "spin3.0"])))
    nmax = {"fermi": 4, "spinless": 7, "fermi3": 3, "spin0.5": 7, "spin1.0": 4, "spin1.5": 4, "fermi4": 2, "spin2.0": 3, "spin2.5": 3, "spin3.0": 2}[m]
    if large:
        n = draw(st.sampled_from({"fermi": [5], "spinless": [8, 9, 10], "fermi3": [3], "spin0.5": [8, 9, 10], "spin1.0": [5, 6], "spin1.5": [5]}[m]))
    else:
        n = draw(st.sampled_from([1, 2] + list(range(min(3, nmax), nmax + 1)) * 3))
    return {"m": m, "img": draw(h.perm(n)), "img2": draw(h.perm(n)),
            "rot": draw(st.integers(0, 5)), "rev": draw(st.booleans()), "ones": draw(st.booleans())}


def _sys(m, n):
    import exact_diag.ed_fermions as edf
    import exact_diag.ed_spins as eds
    from exact_diag.ed_geometry import Geometry
    g = Geometry.createSquareGeometry(n, 1)
    if m.startswith("spin") and m != "spinless":
        return eds.spinSystem(g, spin=float(m[4:]))
    return edf.fermions(g, 0., 0., nspecies={"fermi": 2, "spinless": 1, "fermi3": 3, "fermi4": 4}[m])


def check_perm(c, ctx):
    n = len(c["img"])
    s = _sys(c["m"], n)

    def op(img):
        cy = [x[c["rot"] % len(x):] + x[:c["rot"] % len(x)] for x in cycles_of(img)]
        if not c["ones"]:
            cy = [x for x in cy if len(x) > 1]
        if c["rev"]:
            cy = cy[::-1]
        return sp.csr_matrix(s.get_xform_op(cy))

    img = list(c["img"])
    u = op(img)
    dim = s.nstates
    h.same(u.shape, (dim, dim), "operator of the transformation")
    h.sclose(u @ u.conj().T, sp.eye(dim), "unitarity")
    if c["m"].startswith("spin") and c["m"] != "spinless":
        d = s.nbasis
        r = h.rng(3)
        o = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
        for i in range(n):
            h.sclose(u @ h.ref_site_sp(o, i, n, d) @ u.conj().T, h.ref_site_sp(o, img[i], n, d),
                    "operator on site %d becomes the one on site %d" % (i, img[i]))
        # and it is the permutation of the tensor factors exactly (no extra phase)
        v = [h.cvec(10 + i, d) for i in range(n)]
        ket = np.eye(1)[0]
        for i in range(n):
            ket = np.kron(ket, v[i])
        w = [None] * n
        for i in range(n):
            w[img[i]] = v[i]
        out = np.eye(1)[0]
        for i in range(n):
            out = np.kron(out, w[i])
        h.close(u @ ket, out, "product state with its factors moved")
    else:
        nsp = s.nspecies
        nl = n * nsp
        mp = systems.mode_perm(img, n, nsp)
        vac = np.zeros(dim)
        vac[0] = 1.
        h.close(u @ vac, vac, "vacuum")
        for l in range(nl):
            h.sclose(u @ h.ref_cdag(l, nl) @ u.conj().T, h.ref_cdag(mp[l], nl),
                    "creation operator of mode %d becomes the one of mode %d" % (l, mp[l]))
    # composition
    img2 = list(c["img2"])
    u2 = op(img2)
    h.sclose(op([img2[k] for k in img]), u2 @ u, "operator of two transformations in sequence")
    longest = max(len(x) for x in cycles_of(img))
    ctx.label(c["m"], "cycle%d" % longest)
    ctx.nontrivial(longest >= 3)


@st.composite
def comm_case(draw):
    c = draw(p07.cyc_case())
    mod = draw(systems.model(4, 9, 9))
    return {"sym": c, "model": mod, "ph1": draw(h.angle()), "ph2": draw(h.angle())}


def check_comm(case, ctx):
    """a symmetry of the lattice commutes with the Hamiltonian; twisted boundaries keep their translations"""
    import exact_diag.ed_symmetry as sym
    c = dict(case["sym"])
    spec = dict(c["spec"])
    mod = case["model"]
    n = h.nsites_of(spec)
    if n > mod["nmax"]:
        mod = dict(mod, m="spinless" if n <= 9 else "spinless")
        if n > 9:
            return
    twist = False
    if c["kind"].startswith("transl") and mod["m"] != "spin":
        wide = min(x for x in (spec["n1"], spec["n2"]) if x != 1) >= 3 if spec["kind"] != "tilted" else (n == 5 or n >= 9)
        if wide:
            spec["ph1"], spec["ph2"] = case["ph1"], case["ph2"]
            twist = bool((case["ph1"] and not spec["o1"]) or (case["ph2"] and not spec["o2"]))
    c["spec"] = spec
    g = h.build_geom(spec)
    g.permute_sites(list(c["p"]))
    fn, ref = p07.build(c, g)
    img = p07.ref_perm(c, g, ref)
    if p07.perm_order(img) > n:
        return
    cycles, m = sym.findSiteCycles(fn, g)
    s = systems.make(mod, g)
    u = s.get_xform_op(cycles).tocsr()
    hm = s.createH(print_results=False).tocsr()
    d = (u @ hm - hm @ u)
    h.require(abs(d).max() <= 1e-9 * max(1., abs(hm).max()) if d.nnz else True,
              "Hamiltonian does not commute with a symmetry of its lattice (%.3g)" % (abs(d).max() if d.nnz else 0))
    p = u
    for _ in range(int(m) - 1):
        p = p @ u
    e = abs(p - sp.eye(u.shape[0])).max()
    h.require(e < 1e-9, "transformation repeated %d times is not the identity" % m)
    ctx.label(c["kind"], mod["m"], "twist" if twist else "plain")
    ctx.nontrivial(m >= 2 and hm.nnz > 0)


@st.composite
def swap_case(draw):
    m = draw(st.sampled_from(["fermi", "spinless", "fermi3", "spin0.5", "spin1.0", "spin1.5", "spin2.0", "spin2.5", "spin3.0", "fermi4"]))
    n = draw(st.integers(1, {"spin2.5": 2, "spin3.0": 2, "fermi4": 2, "fermi": 3, "spinless": 6, "fermi3": 2, "spin0.5": 6, "spin1.0": 4, "spin1.5": 3, "spin2.0": 3}[m]))
    return {"m": m, "n": n, "i": draw(st.integers(0, n - 1)), "j": draw(st.integers(0, n - 1)), "k": draw(st.integers(0, 3)), "seed": draw(h.seeds())}


def check_swap(c, ctx):
    """exchange of two sites, and of up and down"""
    n, i, j = c["n"], c["i"], c["j"]
    s = _sys(c["m"], n)
    dim = s.nstates
    spin = c["m"].startswith("spin") and c["m"] != "spinless"
    img = list(range(n))
    img[i], img[j] = j, i
    if spin:
        d = s.nbasis
        o = h.cvec(c["seed"], d, d)
        R = lambda op, k: sp.csr_matrix(h.ref_site_op(op, k, n, d))
        if i != j:
            u = sp.csr_matrix(s.get_swap_op(i, j))
            h.sclose(u, s.get_xform_op([[i, j]]), "exchange of two sites is the operator of their transposition")
            for k in range(n):
                h.sclose(u @ R(o, k) @ u.conj().T, R(o, img[k]), "exchange of %d, %d: operator of site %d" % (i, j, k))
        f = sp.csr_matrix(s.get_swap_up_down_op())
        h.same(f.shape, (dim, dim), "operator exchanging up and down")
        h.sclose(f @ f.conj().T, sp.eye(dim), "exchange of up and down is unitary")
        sx, sy, sz, _, _ = h.ref_spin((d - 1) / 2.)
        for k in range(n):
            h.sclose(f @ R(sz, k) @ f.conj().T, -R(sz, k), "exchange of up and down: sz of site %d" % k)
            h.sclose(f @ R(sx, k) @ f.conj().T, R(sx, k), "exchange of up and down: sx of site %d" % k)
            h.sclose(f @ R(sy, k) @ f.conj().T, -R(sy, k), "exchange of up and down: sy of site %d" % k)
        e = np.zeros(dim)
        e[0] = 1.
        h.close(f @ e, e[::-1], "all up becomes all down")
    elif i != j:
        nsp = s.nspecies
        k = c["k"] % nsp
        u = sp.csr_matrix(s.get_swap_op(i, j, k))
        nl = n * nsp
        h.sclose(u @ u.conj().T, sp.eye(dim), "exchange is unitary")
        for l in range(nl):
            t = k * n + img[l % n] if l // n == k else l
            h.sclose(u @ h.ref_cdag(l, nl) @ u.conj().T, h.ref_cdag(t, nl), "exchange of %d, %d of species %d: mode %d" % (i, j, k, l))
        e = np.zeros(dim)
        e[0] = 1.
        h.close(u @ e, e, "exchange of sites of the vacuum")
    ctx.label(c["m"], "i==j" if i == j else "i!=j")
    ctx.nontrivial(n > 1 and (spin or i != j))


FACETS = [
    Facet("permutations", perm_case, check_perm, 450, 4000, "random site permutations in fermion spaces (1-4 species) and spins 1/2 to 3; "
          "non-trivial: a cycle of length 3 or more", shards=8),
    Facet("commute", comm_case, check_comm, 300, 5000, "lattice symmetries and uniform models; non-trivial: not the identity", shards=6),
    Facet("exchange", swap_case, check_swap, 400, 4000, "exchange of two sites, and of spin up and down; non-trivial: at least two sites", shards=4),
    Facet("large", lambda: perm_case(True), check_perm, 40, 600, "the same in spaces of 243 to 1024 states", shards=8),
]
ASSUMPTIONS = ["spaces up to 512 states"]
