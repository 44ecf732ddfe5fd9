"""Sector by sector diagonalisation."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems
from props import p09


@st.composite
def case_st(draw):
    kind = draw(st.sampled_from(["ring", "ring", "polygon", "torus", "rect", "number", "tilted", "subring"]))
    models = ("fermi", "spinless", "spin") if kind != "torus" else ("spinless", "spin")
    mod = draw(systems.model(4, 6, 6, models=models))
    n = draw(st.integers(3, mod["nmax"]))
    c = {"kind": kind, "model": mod, "n": n, "ph": draw(h.angle()), "seed": draw(h.seeds()), "sub": draw(st.integers(0, 9)),
         "T": draw(st.sampled_from([0., 0.2, 0.7, 1., 3., 50., 1e-3, 1e4])), "Ts": [draw(h.dec(0.2, 4)), draw(h.dec(0.2, 4))],
         "k": draw(st.integers(0, 6))}
    return c


def sectors(c):
    """geometry, system, projectors onto the sectors (each maps the starting space), projector of the starting space"""
    import exact_diag.ed_symmetry as sym
    from exact_diag.ed_geometry import Geometry
    mod, n = c["model"], c["n"]
    base = None
    if c["kind"] in ("ring", "subring"):
        ph = c["ph"] if mod["m"] != "spin" else 0.
        g = Geometry.createSquareGeometry(n, 1, phase1=ph, bc1_open=False)
        s = systems.make(mod, g)
        cy, o = sym.findSiteCycles(sym.getTranslFn([1, 0]), g)
        u = s.get_xform_op(cy)
        if c["kind"] == "subring" and (mod["m"] != "spin"):
            base = p09.number_proj(s, mod, c["sub"])
            u = base @ u @ base.conj().T
        projs, _ = sym.getZnProjectors(u.tocsr(), int(o))
    elif c["kind"] == "tilted":
        g = h.build_geom({"kind": "tilted", "n1": 2, "n2": 1, "o1": False, "o2": False,
                          "ph1": c["ph"] if mod["m"] != "spin" else 0., "ph2": 0.})
        if mod["m"] == "fermi":
            mod = dict(mod, m="spinless")
        s = systems.make(mod, g)
        cy, o = sym.findSiteCycles(sym.getTranslFn([1, 0]), g)
        projs, _ = sym.getZnProjectors(s.get_xform_op(cy).tocsr(), int(o))
    elif c["kind"] == "polygon":
        g, s, rot, refl = p09.polygon_ops(mod, n)
        projs = getattr(sym, p09.DN[n])(rot, refl)
    elif c["kind"] == "rect":
        g = Geometry.createSquareGeometry(2, 2 if mod["m"] == "fermi" else 3)
        s = systems.make(mod, g)
        cx, cy_ = g.get_center_of_mass()
        rc, _ = sym.findSiteCycles(sym.getRotFn(2, cx=cx, cy=cy_), g)
        fc, _ = sym.findSiteCycles(sym.getReflFn([0., 1.], cx=cx, cy=cy_), g)
        projs = sym.getD2Projectors(s.get_xform_op(rc), s.get_xform_op(fc))
    elif c["kind"] == "torus":
        g = Geometry.createSquareGeometry(3, 2, bc1_open=False, bc2_open=False)
        s = systems.make(mod, g)
        ops, os_ = [], []
        for v in ([1, 0], [0, 1]):
            cy, o = sym.findSiteCycles(sym.getTranslFn(v), g)
            ops.append(s.get_xform_op(cy).tocsr())
            os_.append(int(o))
        projs, _, _ = sym.get2DTranslationProjectors(ops[0], os_[0], ops[1], os_[1])
    else:
        if mod["m"] == "spin":
            mod = dict(mod, hx=0., hy=0., u=mod["t"])       # conserves the magnetisation
        g = Geometry.createSquareGeometry(n, 1, bc1_open=bool(c["sub"] % 2))
        s = systems.make(mod, g)
        if mod["m"] == "spin":
            tot = s.get_sum_op(s.sz)
        else:
            tot = s.get_sum_op(s.n_op, s.nspecies - 1, format="boson")
        projs, _ = s.get_subspace_projs(tot.tocsr())
    return g, s, list(projs), base


def check(c, ctx):
    g, s, projs, base = sectors(c)
    hf = s.createH(projector=base, print_results=False) if base is not None else s.createH(print_results=False)
    dim = hf.shape[0]
    hd = h.dense(hf)
    ef, vf = np.linalg.eigh(hd)
    op = systems.rand_herm(c["seed"], dim)
    es, ex, mats, exT = [], [], [], []
    T = c["T"]
    for p in projs:
        if p.shape[0] == 0:
            continue
        full = p if base is None else p @ base
        hs = s.createH(projector=full, print_results=False)
        h.sclose(hs, p @ hf @ p.conj().T, "Hamiltonian built in the sector")
        e, v = s.diagH(hs, print_results=False)
        es.append(np.asarray(e))
        po = (p @ op @ p.conj().T)
        exT.append(np.asarray(s.get_exp_vals_thermal(v, po, e, np.array(c["Ts"]))).ravel())
        ex.append(float(np.squeeze(s.get_exp_vals_thermal(v, po, e, T))))
        # hamiltonian does not connect the sectors
        h.require(np.max(np.abs(h.dense(hf @ p.conj().T - p.conj().T @ (p @ hf @ p.conj().T)))) < 1e-8 * max(1, abs(hd).max()),
                  "Hamiltonian leads out of a sector")
    alls = np.sort(np.concatenate(es))
    h.close(alls, ef, "energies of all sectors together", 1e-8)
    above = ef - ef[0]
    low = above < 1e-9 * max(1., np.abs(ef).max())
    if T > 0 or np.all(low | (above > 1e-6)):
        w, _ = h.boltzmann(ef, T)
        if T == 0:
            # equal weights in a degenerate ground space, whichever sectors it is spread over
            w = low / low.sum()
        want = float(np.real(np.sum(w * np.einsum("ij,ij->j", vf.conj(), h.dense(op) @ vf))))
        got = s.thermal_avg_combine_sectors(np.array(ex), es, T)
        h.close(float(np.squeeze(got)), want, "thermal average combined from the sectors, T=%g" % T, 1e-7)
        z = np.asarray(s.get_partition_fn_sectors(es, T), float)
        if T > 0:
            h.close(z, [np.sum(np.exp(-(e - ef[0]) / T)) for e in es], "partition functions of the sectors", 1e-7)
    # several temperatures at once
    got2 = np.asarray(s.thermal_avg_combine_sectors(np.array(exT), es, np.array(c["Ts"])), float).ravel()
    want2 = []
    for t in c["Ts"]:
        w, _ = h.boltzmann(ef, t)
        want2.append(float(np.real(np.sum(w * np.einsum("ij,ij->j", vf.conj(), h.dense(op) @ vf)))))
    h.close(got2, want2, "thermal averages at two temperatures combined from the sectors", 1e-7)
    ctx.label(c["kind"], c["model"]["m"], ("T0 degenerate" if low.sum() > 1 else "T0") if T == 0 else "T>0", "nsec%d" % len(es))
    ctx.nontrivial(len(es) >= 2 and dim > 4)


FACETS = [
    Facet("sectors", case_st, check, 330, 4000, "fermion and spin models on rings (twisted too), polygons, rectangles, tori and in "
          "number sectors, random observable; non-trivial: at least two sectors", shards=8),
]
ASSUMPTIONS = ["zero temperature only if no level is within 1e-6 of the ground state without being degenerate with it", "spaces up to 256 states"]
