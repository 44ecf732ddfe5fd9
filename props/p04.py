"""Boundary twists."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h
from props.p03 import periods


@st.composite
def spec(draw, nmax=16, nmin=2):
    s = draw(h.geom_spec(kinds=("square", "tilted", "triangle", "hex", "lattice", "lattice"), nmax=nmax, nmin=nmin, twist=True))
    return {"spec": s, "seed": draw(h.seeds())}


def _bonds(g, case):
    """bonds whose separation is unambiguous: (i, j) -> winding-free separation"""
    x, y = np.asarray(g.xlocs, float), np.asarray(g.ylocs, float)
    p1, p2 = periods(case)
    n = g.nsites
    sep = {}
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            _, im = h.min_image(x[i] - x[j], y[i] - y[j], p1, p2)
            if len(im) == 1:
                sep[i, j] = im[0]
    return sep, np.array(p1, float), np.array(p2, float)


def check_phase(case, ctx):
    c = case["spec"]
    g = h.build_geom(c)
    n = g.nsites
    ph = h.dense(g.phase_mat)
    h.same(ph.shape, (n, n), "phase matrix")
    h.close(np.abs(ph), np.ones((n, n)), "modulus of the phases")
    h.close(ph, ph.conj().T, "phases of opposite directions are conjugate")
    h.close(np.diag(ph), np.ones(n), "phase of staying in place")
    sep, p1, p2 = _bonds(g, c)
    f1, f2 = (0. if c["o1"] else c["ph1"]), (0. if c["o2"] else c["ph2"])
    # closed walks over unambiguous separations: the product is the twist times the winding numbers
    r = h.rng(case["seed"])
    nbr = {}
    for (i, j) in sep:
        nbr.setdefault(i, []).append(j)
    wound = 0
    for _ in range(12):
        start = int(r.integers(n))
        if start not in nbr:
            continue
        path = [start]
        for _ in range(int(r.integers(1, 8))):
            path.append(int(r.choice(nbr[path[-1]])))
        if (path[-1], start) not in sep:
            continue
        path.append(start)
        tot = sum((sep[a, b] for a, b in zip(path[:-1], path[1:])), np.zeros(2))
        prod = np.prod([ph[a, b] for a, b in zip(path[:-1], path[1:])])
        w = np.zeros(2)
        if p1.any() and p2.any():
            w = np.linalg.solve(np.array([p1, p2]).T, tot)
        elif p1.any():
            w[0] = tot @ p1 / (p1 @ p1)
        elif p2.any():
            w[1] = tot @ p2 / (p2 @ p2)
        wi = np.round(w)
        h.require(np.max(np.abs(w - wi)) < 1e-6, "harness: walk does not close")
        h.close(prod, np.exp(1j * (f1 * wi[0] + f2 * wi[1])), tol=1e-11, what="phase around the closed walk %s winding %s" % (path, wi.tolist()))
        wound += bool(wi.any())
    # uniform gauge: equal separations carry equal phases
    keys = {}
    for (i, j), d in sep.items():
        keys.setdefault((round(d[0], 6) + 0., round(d[1], 6) + 0.), []).append(ph[i, j])
    for k, v in keys.items():
        h.close(np.array(v), np.full(len(v), v[0]), "phases of all pairs with separation %s" % (k,))
    if f1 == 0 and f2 == 0:
        h.close(ph, np.ones((n, n)), "phases without twist")
    ctx.label(c["kind"], "winding" if wound else "no-winding", "twist" if f1 or f2 else "no-twist")
    ctx.nontrivial(bool(wound and (f1 or f2)))


@st.composite
def band_case(draw):
    kind = draw(st.sampled_from(["square", "square", "tilted", "triangle"]))
    if kind == "tilted":
        n1, n2 = draw(st.sampled_from([(2, 1), (1, 2), (2, 2), (3, 1), (3, 2), (3, -1), (2, -2), (1, 3)]))
        o1 = o2 = False
    else:
        lo = 4 if kind == "triangle" else 3
        n1, n2 = draw(st.integers(1, 6)), draw(st.integers(1, 5))
        o1 = n1 < lo or (kind == "square" and draw(st.integers(0, 3)) == 0)
        o2 = n2 < lo or (kind == "square" and draw(st.integers(0, 3)) == 0)
        if kind == "triangle" and (o1 or o2):
            n1, n2, o1, o2 = 4, 4, False, False
    return {"spec": {"kind": kind, "n1": n1, "n2": n2, "o1": o1, "o2": o2, "ph1": draw(h.angle()), "ph2": draw(h.angle())},
            "t": draw(h.nonzero())}


@st.composite
def turn_case(draw):
    nsp = draw(st.sampled_from([1, 2]))
    s = draw(h.geom_spec(kinds=("square", "square", "tilted", "triangle", "hex"), nmax=8 // nsp, nmin=2, twist=True))
    return {"spec": s, "nsp": nsp, "k1": draw(st.integers(-2, 2)), "k2": draw(st.integers(-2, 2)), "t": draw(st.one_of(h.nonzero(), st.lists(h.nonzero(), min_size=nsp, max_size=nsp))),
            "u": draw(h.coupl()), "v": draw(h.coupl()), "mu": draw(h.coupl())}


def check_turn(case, ctx):
    """full turns added to the twists change no energy of an interacting model; reversing both twists neither; energies are real"""
    import exact_diag.ed_fermions as edf
    c = case["spec"]

    def spectrum(a, b):
        g = h.build_geom(dict(c, ph1=a, ph2=b))
        t = case["t"]
        s = edf.fermions(g, case["u"] if case["nsp"] == 2 else 0., np.array(t) if isinstance(t, list) else t, us_same_species=case["v"], mus=case["mu"], nspecies=case["nsp"])
        H = h.dense(s.createH())
        h.close(H, H.conj().T, "Hermiticity with twists")
        return np.linalg.eigvalsh(H)
    e = spectrum(c["ph1"], c["ph2"])
    h.close(spectrum(c["ph1"] + 2 * np.pi * case["k1"], c["ph2"] + 2 * np.pi * case["k2"]), e, "energies after full turns of the twists", 1e-7)
    h.close(spectrum(-c["ph1"], -c["ph2"]), e, "energies after reversing the twists", 1e-7)
    if c["o1"] and c["o2"]:
        h.close(spectrum(0., 0.), e, "twists of open directions have no effect", 1e-7)
    if c["o1"]:
        h.close(spectrum(0.37, c["ph2"]), e, "twist of the open first direction has no effect", 1e-7)
    if c["o2"]:
        h.close(spectrum(c["ph1"], 0.37), e, "twist of the open second direction has no effect", 1e-7)
    ctx.label(c["kind"], "nsp%d" % case["nsp"])
    ctx.nontrivial(bool((not c["o1"] and c["ph1"]) or (not c["o2"] and c["ph2"])))


def check_band(case, ctx):
    """hopping on a twisted cell has the band structure at the shifted momenta"""
    c = case["spec"]
    g = h.build_geom(c)
    n = g.nsites
    hop = h.dense(g.adjacency_mat) * h.dense(g.phase_mat)
    e = np.sort(np.linalg.eigvalsh(hop))
    l1, l2, _, p1, p2 = h.lattice_of(c)
    if c["kind"] == "square":
        def part(m, o, f):
            if o:
                return 2 * np.cos(np.pi * np.arange(1, m + 1) / (m + 1)) if m > 1 else np.zeros(1)
            return 2 * np.cos((2 * np.pi * np.arange(m) + f) / m)
        want = np.sort((part(c["n1"], c["o1"], c["ph1"])[:, None] + part(c["n2"], c["o2"], c["ph2"])[None, :]).ravel())
    else:
        P = np.array([p1, p2], float)
        inv = np.linalg.inv(P)
        if c["kind"] == "tilted":
            steps = [[1, 0], [0, 1]]
        else:
            steps = [l1, l2, list(np.array(l1) - np.array(l2))]
        L = np.array([l1, l2], float)
        M = np.round(P @ np.linalg.inv(L)).astype(int)       # periods in lattice vectors
        adj = np.array([[M[1, 1], -M[0, 1]], [-M[1, 0], M[0, 0]]])
        ks = {}
        for a in range(n):
            for b in range(n):
                key = tuple(int(v) % n for v in adj @ np.array([a, b]))
                ks.setdefault(key, inv @ (2 * np.pi * np.array([a, b]) + np.array([c["ph1"], c["ph2"]])))
        h.require(len(ks) == n, "harness: %d momenta for %d sites" % (len(ks), n))
        want = np.sort([sum(2 * np.cos(np.dot(k, s)) for s in steps) for k in ks.values()])
    h.close(e, want, "single-particle energies of the twisted cell", 1e-7)
    if n <= 9:
        # the same bands in the one-particle sector of the fermion model (H = - t sum of hopping terms)
        import exact_diag.ed_fermions as edf
        t = case.get("t", 1.)
        s = edf.fermions(g, 0., t, ns=[1], nspecies=1)
        H1 = h.dense(s.createH(projector=s.n_projector))
        h.close(np.linalg.eigvalsh(H1), np.sort(-t * want), "one-particle energies of the fermion model on the twisted cell", 1e-7)
    ctx.label(c["kind"])
    ctx.nontrivial(not (c["o1"] and c["o2"]) and n >= 3)


FACETS = [
    Facet("phases", spec, check_phase, 700, 6000, "twisted cells up to 16 sites, random closed walks; non-trivial: non-zero twist "
          "and a walk which winds around the cell", shards=8),
    Facet("bands", band_case, check_band, 410, 5000, "twisted square/tilted/triangular cells; non-trivial: a periodic direction", shards=5),
    Facet("large", lambda: spec(40, 17), check_phase, 40, 800, "the same for 17 to 40 sites", shards=8),
    Facet("turns", turn_case, check_turn, 160, 2000, "interacting models up to 8 modes; non-trivial: a twisted periodic direction", shards=6),
]
ASSUMPTIONS = ["a pair of sites with several equally short separations has no defined twist phase and is not used in walks"]
