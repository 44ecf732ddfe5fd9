"""Symmetry projectors."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems

DN = {3: "getD3Projectors", 4: "getD4Projectors", 5: "getD5Projectors", 6: "getD6Projectors", 7: "getD7Projectors"}


def orthocomplete(projs, dim, what):
    tot = sp.csr_matrix((dim, dim), dtype=complex)
    for i, p in enumerate(projs):
        h.same(p.shape[1], dim, "%s: columns of projector %d" % (what, i))
        h.sclose(p @ p.conj().T, sp.eye(p.shape[0]), "%s: rows of projector %d are orthonormal" % (what, i))
        tot = tot + p.conj().T @ p
    h.sclose(tot, sp.eye(dim), "%s: projectors resolve the identity" % what)
    h.same(sum(p.shape[0] for p in projs), dim, "%s: total dimension" % what)


def polygon_ops(mod, n):
    """rotation and reflection of the n-gon, built from explicit permutations"""
    from exact_diag.ed_geometry import Geometry
    import exact_diag.ed_symmetry as sym
    g = Geometry.createRegularPolygonGeometry(n)
    s = systems.make(mod, g)
    rc, _ = sym.findSiteCycles(sym.getRotFn(n, cx=0., cy=0.), g)
    fc, _ = sym.findSiteCycles(sym.getReflFn([0., 1.], cx=0., cy=0.), g)
    return g, s, s.get_xform_op(rc).tocsr(), s.get_xform_op(fc).tocsr()


def number_proj(s, mod, ns):
    if mod["m"] == "spin":
        op = s.get_sum_op(s.sz).tocsr()
        vals = np.unique(np.round(op.diagonal().real, 9))
        p, _ = s.get_subspace_projs(op, eig_vals=vals[ns % len(vals)])
        return p[0]
    tot = sum(s.get_sum_op(s.n_op, k, format="boson") for k in range(s.nspecies)).tocsr()
    vals = np.unique(tot.diagonal().real)
    p, _ = s.get_subspace_projs(tot, eig_vals=vals[ns % len(vals)])
    return p[0]


def gauge(ops, seed):
    """the same operators after every basis state has got a phase of its own (a change of gauge)"""
    if seed is None:
        return ops
    g = sp.diags(np.exp(2j * np.pi * h.rng(seed).random(ops[0].shape[0])))
    return [(g @ o @ g.conj()).tocsr() for o in ops]


GAUGE = st.one_of(st.none(), st.none(), h.seeds())


# ---- cyclic groups ---------------------------------------------------------------------------------------------
@st.composite
def zn_case(draw):
    m = draw(st.sampled_from(["fermi", "spinless", "spin", "spin1"]))
    n = draw(st.integers(2 if m == "spin1" else 2, {"fermi": 4, "spinless": 7, "spin": 7, "spin1": 4}[m]))
    return {"m": m, "n": n, "power": draw(st.integers(1, n - 1)), "sub": draw(st.one_of(st.none(), st.integers(0, 9))),
            "mult": draw(st.sampled_from([1, 1, 2])), "a": draw(st.sampled_from([0, 0, 1, 2, 3])), "gauge": draw(GAUGE)}


def check_zn(c, ctx):
    import exact_diag.ed_symmetry as sym
    from exact_diag.ed_geometry import Geometry
    n = c["n"]
    mod = {"m": "spin" if c["m"] == "spin1" else c["m"], "t": 1., "u": 1., "v": 0.5, "mu": 0., "hx": 0., "hz": 0., "s": 1. if c["m"] == "spin1" else 0.5}
    g = Geometry.createSquareGeometry(n, 1, bc1_open=False)
    s = systems.make(mod, g)
    cycles, order = sym.findSiteCycles(sym.getTranslFn([c["power"], 0]), g)
    u = s.get_xform_op(cycles).tocsr()
    if c["sub"] is not None:
        p = number_proj(s, mod, c["sub"])
        u = (p @ u @ p.conj().T).tocsr()
    order = int(order) * c["mult"]        # any multiple of the order is also a valid period
    u = (np.exp(2j * np.pi * c["a"] / order) * u).tocsr() if c.get("a") else u
    u, = gauge([u], c.get("gauge"))
    keep = u.copy()
    projs, ks = sym.getZnProjectors(u, order)
    h.sclose(u, keep, "transformation operator after the call")
    dim = u.shape[0]
    h.same(len(projs), order, "number of sectors")
    h.close(ks, 2 * np.pi * np.arange(order) / order, "wave vectors of the sectors")
    orthocomplete(projs, dim, "Z%d" % order)
    for r, p in enumerate(projs):
        if p.shape[0]:
            h.sclose(u @ p.conj().T, np.exp(-1j * ks[r]) * p.conj().T, "phase of sector %d under the transformation" % r)
    # one sector on its own, from the sum over the group in any sparse format
    r = c.get("a", 0) % order
    full = sum(np.exp(2j * np.pi * r * k / order) * u ** k for k in range(order))
    rel = sum(abs(u ** k) for k in range(order))
    conv = {0: sp.csr_matrix, 1: sp.csc_matrix, 2: sp.coo_matrix}[n % 3]
    with h.silent():
        one = sym.reduce_symm_projector(conv(full), 1, conv(rel))
    h.sclose(one @ one.conj().T, sp.eye(one.shape[0]), "rows of a single projector are orthonormal")
    h.sclose(one.conj().T @ one, projs[r].conj().T @ projs[r], "subspace of a single projector")
    ctx.label(c["m"], "order%d" % order, "sub" if c["sub"] is not None else "full")
    ctx.nontrivial(order >= 3 and dim > 2)


@st.composite
def mono_case(draw):
    order = draw(st.sampled_from([2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30]))
    divs = [d for d in range(1, order + 1) if order % d == 0]
    # cycles of any lengths dividing the order, each with its own phase once around
    cyc = draw(st.lists(st.tuples(st.sampled_from(divs), st.integers(0, 29)).map(list), min_size=1, max_size=6))
    return {"order": order, "cycles": cyc, "seed": draw(h.seeds()), "gauge": draw(GAUGE)}


def check_mono(c, ctx):
    """any permutation of basis states with phases, not necessarily that of a ring"""
    import exact_diag.ed_symmetry as sym
    order = c["order"]
    dim = sum(l for l, _ in c["cycles"])
    names = h.rng(c["seed"]).permutation(dim)
    u = np.zeros((dim, dim), dtype=complex)
    want = np.zeros(order, dtype=int)
    start = 0
    for l, q in c["cycles"]:
        # the l-th power is a phase of which the (order / l)-th power is one
        m = order // l
        for i in range(l):
            u[names[start + (i + 1) % l], names[start + i]] = np.exp(-2j * np.pi * (q % m) / m) if i == l - 1 else 1.
        # eigenvalues exp(-2 pi i r / order) with r l = q l (mod order) ... r = q + m j
        for j in range(l):
            want[(q % m + m * j) % order] += 1
        start += l
    u, = gauge([sp.csr_matrix(u)], c["gauge"])
    projs, ks = sym.getZnProjectors(u, order)
    h.same(len(projs), order, "number of sectors")
    h.close(ks, 2 * np.pi * np.arange(order) / order, "wave vectors of the sectors")
    orthocomplete(projs, dim, "Z%d" % order)
    h.same([p.shape[0] for p in projs], list(want), "dimensions of the sectors")
    for r, p in enumerate(projs):
        if p.shape[0]:
            h.sclose(u @ p.conj().T, np.exp(-1j * ks[r]) * p.conj().T, "phase of sector %d under the transformation" % r)
    ctx.label("order%d" % order)
    ctx.nontrivial(order >= 3 and dim > 2)


# ---- dihedral groups -------------------------------------------------------------------------------------------
@st.composite
def dn_case(draw):
    m = draw(st.sampled_from(["fermi", "spinless", "spin", "spin1"]))
    n = draw(st.integers(2, {"fermi": 4, "spinless": 7, "spin": 7, "spin1": 4}[m]))
    return {"m": m, "n": n, "k": draw(st.integers(0, n - 1)), "sub": draw(st.one_of(st.none(), st.integers(0, 9))), "gauge": draw(GAUGE)}


TABLES = {
    2: ([1, 1, 1, 1], [1, 1, -1, -1], [1, -1, 1, -1], [1, -1, -1, 1]),
    3: ([1, 1, 1], [1, 1, -1], [2, -1, 0]),
    4: ([1, 1, 1, 1, 1], [1, 1, 1, -1, -1], [1, -1, 1, 1, -1], [1, -1, 1, -1, 1], [2, 0, -2, 0, 0]),
}


def check_dn(c, ctx):
    import exact_diag.ed_symmetry as sym
    n = c["n"]
    mod = {"m": "spin" if c["m"] == "spin1" else c["m"], "t": 1., "u": 1., "v": 0.5, "mu": 0., "hx": 0., "hz": 0., "s": 1. if c["m"] == "spin1" else 0.5}
    if n == 2:
        # rectangle: two-fold rotation and a reflection
        from exact_diag.ed_geometry import Geometry
        nn = 2 if c["m"] == "spin1" or c["m"] == "fermi" else 3
        g = Geometry.createSquareGeometry(nn, 2) if c["m"] != "spin1" else Geometry.createSquareGeometry(2, 2)
        s = systems.make(mod, g)
        cx, cy = g.get_center_of_mass()
        rc, _ = sym.findSiteCycles(sym.getRotFn(2, cx=cx, cy=cy), g)
        fc, _ = sym.findSiteCycles(sym.getReflFn([0., 1.], cx=cx, cy=cy), g)
        rot, refl = s.get_xform_op(rc).tocsr(), s.get_xform_op(fc).tocsr()
    else:
        g, s, rot, refl = polygon_ops(mod, n)
    for _ in range(c["k"]):
        refl = (rot @ refl).tocsr()      # any of the reflections may serve as the generator
    if c["sub"] is not None:
        p = number_proj(s, mod, c["sub"])
        rot, refl = (p @ rot @ p.conj().T).tocsr(), (p @ refl @ p.conj().T).tocsr()
    dim = rot.shape[0]
    rot, refl = gauge([rot, refl], c.get("gauge"))
    kr, kf = rot.copy(), refl.copy()
    projs = getattr(sym, "getD2Projectors" if n == 2 else DN[n])(rot, refl)
    h.sclose(rot, kr, "rotation operator after the call")
    h.sclose(refl, kf, "reflection operator after the call")
    nrep = {2: 4, 3: 3, 4: 5, 5: 4, 6: 6, 7: 5}[n]
    h.same(len(projs), nrep, "number of irreducible representations of D%d" % n)
    orthocomplete(projs, dim, "D%d" % n)
    # reference: central projectors from the irreps written as matrices
    rots = [sp.eye(dim, format="csr")]
    for _ in range(n - 1):
        rots.append((rot @ rots[-1]).tocsr())
    refls = [(r @ refl).tocsr() for r in rots]
    if n in TABLES:
        if n == 2:
            classes = [[rots[0]], [rots[1]], [refls[0]], [refls[1]]]
        elif n == 3:
            classes = [[rots[0]], rots[1:], refls]
        else:
            classes = [[rots[0]], [rots[1], rots[3]], [rots[2]], [refls[0], refls[2]], [refls[1], refls[3]]]
        for row, p in zip(TABLES[n], projs):
            ref = row[0] / (2. * n) * sum(ch * sum(cl) for ch, cl in zip(row, classes))
            h.sclose(p.conj().T @ p, ref, "D%d: subspace of the representation with characters %s" % (n, list(row)))
    else:
        refs = []
        for a in (1, -1):
            refs.append(sum(rots + [a * x for x in refls]) / (2. * n))
        if n % 2 == 0:
            for a in (1, -1):
                refs.append(sum([(-1) ** k * rots[k] for k in range(n)] + [a * (-1) ** k * refls[k] for k in range(n)]) / (2. * n))
        for j in range(1, (n - 1) // 2 + 1):
            refs.append(2. / (2. * n) * sum(2 * np.cos(2 * np.pi * j * k / n) * rots[k] for k in range(n)))
        left = list(range(len(refs)))
        for i, p in enumerate(projs):
            q = p.conj().T @ p
            hit = [k for k in left if abs(q - refs[k]).max() < 1e-8] if dim else left[:1]
            h.require(len(hit) >= 1, "D%d: projector %d is not onto an irreducible representation (or one occurs twice)" % (n, i))
            left.remove(hit[0])
    # every element of the group maps each subspace into itself
    for i, p in enumerate(projs):
        q = p.conj().T @ p
        for gname, op in (("rotation", rot), ("reflection", refl)):
            h.sclose(op @ q, q @ op, "D%d: %s leaves subspace %d invariant" % (n, gname, i))
    ctx.label("D%d" % n, c["m"], "sub" if c["sub"] is not None else "full")
    ctx.nontrivial(n >= 3 and dim > 2)


# ---- translations of a torus -----------------------------------------------------------------------------------
@st.composite
def t2_case(draw):
    m = draw(st.sampled_from(["fermi", "spinless", "spin"]))
    kind = draw(st.sampled_from(["square", "triangle", "tilted"] if m != "fermi" else ["square", "triangle"]))
    ph = {"a1": draw(st.sampled_from([0, 0, 1, 2, 3])), "a2": draw(st.sampled_from([0, 0, 1, 2, 3])), "gauge": draw(GAUGE)}
    if kind == "tilted":
        # the two unit translations are not independent: many of the n1 n2 sectors are empty
        n1, n2 = draw(st.sampled_from([(2, 1), (1, 2), (2, -1), (2, 2)]))
        return {"m": m, "kind": kind, "n1": n1, "n2": n2, "k1": draw(st.sampled_from([1, 1, 2, -1])), "k2": draw(st.sampled_from([1, 1, 2, -1])),
                "swap": draw(st.booleans()), "sub": draw(st.one_of(st.none(), st.integers(0, 9))), **ph}
    shapes = [(2, 2)] if m == "fermi" else [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3)]
    n1, n2 = draw(st.sampled_from(shapes))
    return {"m": m, "kind": kind, "n1": n1, "n2": n2, "k1": draw(st.integers(1, n1 - 1)), "k2": draw(st.integers(1, n2 - 1)), **ph,
            "swap": draw(st.booleans()), "sub": draw(st.one_of(st.none(), st.integers(0, 9)))}


def check_t2(c, ctx):
    import exact_diag.ed_symmetry as sym
    spec = {"kind": c["kind"], "n1": c["n1"], "n2": c["n2"], "o1": False, "o2": False, "ph1": 0., "ph2": 0.}
    g = h.build_geom(spec)
    mod = {"m": c["m"], "t": 1., "u": 1., "v": 0.5, "mu": 0., "hx": 0., "hz": 0.}
    s = systems.make(mod, g)
    l1, l2, _, _, _ = h.lattice_of(spec)
    v1, v2 = c["k1"] * np.array(l1, float), c["k2"] * np.array(l2, float)
    if c["swap"]:
        v1, v2 = v2, v1
    ops, orders = [], []
    for v in (v1, v2):
        cy, o = sym.findSiteCycles(sym.getTranslFn(v), g)
        ops.append(s.get_xform_op(cy).tocsr())
        orders.append(int(o))
    if c["sub"] is not None:
        p = number_proj(s, mod, c["sub"])
        ops = [(p @ o @ p.conj().T).tocsr() for o in ops]
    # a phase which is a root of unity of the right order (a boundary twist) moves the states to other sectors
    for i in (0, 1):
        if c.get("a%d" % (i + 1)):
            ops[i] = (np.exp(2j * np.pi * c["a%d" % (i + 1)] / orders[i]) * ops[i]).tocsr()
    ops = gauge(ops, c.get("gauge"))
    projs, k1, k2 = sym.get2DTranslationProjectors(ops[0], orders[0], ops[1], orders[1])
    dim = ops[0].shape[0]
    h.same((len(projs), len(k1)), (len(k2), len(k2)), "number of sectors and wave vectors")
    orthocomplete(projs, dim, "translations")
    seen = set()
    for p, a, b in zip(projs, k1, k2):
        h.require(p.shape[0] > 0, "empty sector")
        h.sclose(ops[0] @ p.conj().T, np.exp(-1j * a) * p.conj().T, "first translation in sector (%.3f, %.3f)" % (a, b))
        h.sclose(ops[1] @ p.conj().T, np.exp(-1j * b) * p.conj().T, "second translation in sector (%.3f, %.3f)" % (a, b))
        seen.add((round(float(a), 6), round(float(b), 6)))
    h.same(len(seen), len(projs), "number of distinct wave vectors")
    ctx.label("empty sectors" if len(projs) < orders[0] * orders[1] else "all sectors", c["kind"], c["m"], "%dx%d" % (c["n1"], c["n2"]))
    ctx.nontrivial(dim > 4)


# ---- translations and point group of the 3x3 torus --------------------------------------------------------------
def check_33(c, ctx):
    import itertools
    import exact_diag.ed_symmetry as sym
    spec = {"kind": "square", "n1": 3, "n2": 3, "o1": False, "o2": False, "ph1": 0., "ph2": 0.}
    g = h.build_geom(spec)
    mod = {"m": c["m"], "t": 1., "u": 1., "v": 0.5, "mu": 0., "hx": 0., "hz": 0.}
    s = systems.make(mod, g)
    cx, cy = g.get_center_of_mass()
    fns = [sym.getRotFn(4, cx=cx, cy=cy), sym.getReflFn(c["axis"], cx=cx, cy=cy), sym.getTranslFn([1, 0]), sym.getTranslFn([0, 1])]
    ops, perms = [], []
    for f in fns:
        cyc, _ = sym.findSiteCycles(f, g)
        ops.append(s.get_xform_op(cyc).tocsr())
        _, im = sym.getTransformedSites(f, list(range(9)), g)
        perms.append(tuple(int(k) for k in im))
    full = s.nstates
    pr = number_proj(s, mod, c["sub"])
    ops = [(pr @ o @ pr.conj().T).tocsr() for o in ops]
    dim = ops[0].shape[0]
    ops = gauge(ops, c.get("gauge"))
    projs = sym.getC4V_and_3byb3(*ops)
    h.same(len(projs), 9, "number of irreducible representations")
    orthocomplete(projs, dim, "3x3 torus")
    # group and its classes by brute force
    ident = tuple(range(9))
    elems = {ident: sp.eye(dim, format="csr")}
    todo = [ident]
    while todo:
        e = todo.pop()
        for pm, op in zip(perms, ops):
            q = tuple(pm[k] for k in e)
            if q not in elems:
                elems[q] = (op @ elems[e]).tocsr()
                todo.append(q)
    h.same(len(elems), 72, "order of the group")
    inv = lambda p: tuple(sorted(range(9), key=lambda k: p[k]))
    left = set(elems)
    tuples = []
    sums = []
    while left:
        e = next(iter(sorted(left)))
        cl = {tuple(q[e[i]] for i in inv(q)) for q in elems}
        sums.append(sum(elems[x] for x in sorted(cl)))
        left -= cl
    h.same(len(sums), 9, "harness: classes")
    for i, p in enumerate(projs):
        if p.shape[0] == 0:
            continue
        lam = []
        for cs in sums:
            m = p @ cs @ p.conj().T
            l0 = m[0, 0]
            h.sclose(cs @ p.conj().T, l0 * p.conj().T, "3x3 torus: sector %d mixes representations" % i)
            lam.append(round(complex(l0).real, 5))
        tuples.append(tuple(lam))
    h.same(len(set(tuples)), len(tuples), "3x3 torus: distinct representations")
    ctx.label(c["m"], "dim%d" % dim)
    ctx.nontrivial(dim > 9)


def list_33():
    out = []
    for m in ("spin", "spinless"):
        for sub in range(0, 10):
            # the documented conjugacy classes are those of a reflection along the coordinate axes
            out.append({"m": m, "sub": sub, "axis": [0., 1.], "gauge": None if sub % 4 else sub})
    return out


# ---- character tables ------------------------------------------------------------------------------------------
@st.composite
def table_case(draw):
    kind = draw(st.sampled_from(["Z2", "Z3", "Z4", "Z5", "Z6", "D2", "D3", "D4", "D5", "D6"]))
    return {"kind": kind, "i": draw(st.integers(0, 9)), "j": draw(st.integers(0, 9)), "what": draw(st.sampled_from(["valid", "flip", "flip", "size"])),
            "order": draw(h.perm(6))}


def check_table(c, ctx):
    import exact_diag.ed_symmetry as sym
    n = int(c["kind"][1:])
    if c["kind"][0] == "Z":
        k = np.arange(n)
        tab = np.exp(-2j * np.pi * np.outer(k, k) / n)
        sizes = [1] * n
    elif n in TABLES:
        tab = np.array(TABLES[n], float)
        sizes = {2: [1, 1, 1, 1], 3: [1, 2, 3], 4: [1, 2, 1, 2, 2]}[n]
    else:
        rows = []
        ks = list(range(1, (n - 1) // 2 + 1))
        even = n % 2 == 0
        sizes = [1] + [2] * len(ks) + ([1, n // 2, n // 2] if even else [n])
        rows.append([1] * len(sizes))
        rows.append([1] * (1 + len(ks)) + ([1, -1, -1] if even else [-1]))
        if even:
            rows.append([1] + [(-1) ** k for k in ks] + [(-1) ** (n // 2), 1, -1])
            rows.append([1] + [(-1) ** k for k in ks] + [(-1) ** (n // 2), -1, 1])
        for j in ks:
            rows.append([2] + [2 * np.cos(2 * np.pi * j * k / n) for k in ks] + ([2 * (-1) ** j, 0, 0] if even else [0]))
        tab = np.array(rows, float)
    m = len(sizes)
    colp = [k for k in c["order"] if k < m] + list(range(6, m))
    colp = [0] + [k for k in colp if k != 0]
    tab, sizes = tab[:, colp], [sizes[k] for k in colp]
    if c["what"] == "flip":
        i, j = c["i"] % m, c["j"] % m
        if abs(tab[i, j]) < 0.9:
            j = 0
        tab = tab.copy()
        tab[i, j] = -tab[i, j]
    if c["what"] == "size":
        sizes = list(sizes)
        sizes[c["i"] % m] += 1
    classes = [[None] * k for k in sizes]
    got = bool(sym.validate_char_table(tab, classes))
    h.same(got, c["what"] == "valid", "character table of %s (%s) accepted" % (c["kind"], c["what"]))
    ctx.label(c["kind"], c["what"])
    ctx.nontrivial(c["what"] != "valid")


FACETS = [
    Facet("cyclic", zn_case, check_zn, 380, 2500, "translations of rings of fermions and spins, full space or fixed number; non-trivial: order 3 or more", shards=5),
    Facet("monomial", mono_case, check_mono, 300, 3000, "permutations of basis states with phases, of order up to 30; non-trivial: order 3 or more", shards=4),
    Facet("dihedral", dn_case, check_dn, 210, 2500, "D2-D7 on polygons and rectangles, any reflection as generator; non-trivial: D3 or higher", shards=5),
    Facet("torus", t2_case, check_t2, 180, 800, "two translations of square and triangular tori; non-trivial: more than 4 states", shards=5),
    Facet("torus33", list_33, check_33, 20, 20, "group of order 72 of the 3x3 torus in every number sector; non-trivial: more than 9 states",
          shards=5, exhaustive=True),
    Facet("tables", table_case, check_table, 1200, 3000, "correct tables with permuted classes, and tables with one wrong entry or class size; "
          "non-trivial: the table is wrong", shards=2),
]
ASSUMPTIONS = ["symmetry operators are signed permutations, up to a root of unity for translations", "spaces up to 512 states"]
