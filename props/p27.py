"""Histories of calls: no call disturbs another; saved systems come back unchanged."""
import copy
import inspect
import os
import shutil
import tempfile

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, systems


# ---- deep comparison -------------------------------------------------------------------------------------------
def norm(x):
    """canonical, comparable form of a result"""
    if sp.issparse(x):
        return ("arr", x.toarray())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("list", [norm(v) for v in x.ravel()])
        return ("arr", x.copy())
    if isinstance(x, np.matrix):
        return ("arr", np.array(x))
    if isinstance(x, (list, tuple)):
        return ("list", [norm(v) for v in x])
    if isinstance(x, dict):
        return ("list", [(k, norm(v)) for k, v in sorted(x.items())])
    if isinstance(x, (bool, int, float, complex, np.number)):
        return ("arr", np.asarray(x))
    if x is None or isinstance(x, str):
        return ("val", x)
    if hasattr(x, "xlocs"):
        return ("list", [norm(getattr(x, k)) for k in ("xlocs", "ylocs", "adjacency_mat", "phase_mat", "xdist_mat", "ydist_mat", "nsites")] + [norm(x.lattice)])
    if hasattr(x, "lattice_vect1"):
        return ("list", [norm(getattr(x, k)) for k in ("lattice_vect1", "lattice_vect2", "periodicity_vect1", "periodicity_vect2", "phase1", "phase2")])
    if callable(x):
        return ("val", "callable")
    return ("val", type(x).__name__)


def equal(a, b, tol=1e-10):
    if a[0] != b[0]:
        return False
    if a[0] == "arr":
        x, y = a[1], b[1]
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "US" or y.dtype.kind in "US":
            return bool(np.array_equal(x, y))
        return x.size == 0 or bool(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True))
    if a[0] == "list":
        if len(a[1]) != len(b[1]):
            return False
        return all((equal(u, v, tol) if isinstance(u[1], tuple) is False else u[0] == v[0] and equal(u[1], v[1], tol)) if isinstance(u, tuple) else u == v
                   for u, v in zip(a[1], b[1]))
    return a[1] == b[1]


def public_state(o):
    return {k: norm(v) for k, v in vars(o).items() if not k.startswith("_")}


CLASS_STATE = {}


def class_state():
    from exact_diag import ed_base, ed_fermions, ed_spins
    out = {}
    for cl in (ed_base.ed_base, ed_fermions.fermions, ed_spins.spinSystem):
        for k, v in vars(cl).items():
            if isinstance(v, (np.ndarray, int, float)) or sp.issparse(v):
                out[(cl, k)] = v
    return out


def check_class_state():
    if not CLASS_STATE:
        for k, v in class_state().items():
            CLASS_STATE[k] = copy.deepcopy(v)
    bad = None
    for (cl, k), v in CLASS_STATE.items():
        now = vars(cl).get(k)
        if not equal(norm(now), norm(v)):
            bad = "%s.%s" % (cl.__name__, k)
            setattr(cl, k, copy.deepcopy(v))
    h.require(bad is None, "a call changed the value of %s shared by all systems" % bad)


# ---- operations --------------------------------------------------------------------------------------------------
# each takes (system, rng, rec); rec registers an argument whose value must survive the call
def _nsp(s):
    return s.nspecies


def _op(s, r, herm=True):
    d = s.nbasis
    a = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    return a + a.conj().T if herm else a


def _eig(s, r):
    d = s.nstates
    a = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    w, v = np.linalg.eigh(a + a.conj().T)
    return w, v


def _site(s, r):
    return int(r.integers(0, s.geometry.nsites))


def _sp(s, r):
    return int(r.integers(0, _nsp(s)))


def _proj(s, r):
    k = int(r.integers(1, s.nstates + 1))
    return sp.csr_matrix(np.eye(s.nstates)[np.sort(r.permutation(s.nstates)[:k])])


def o_h(s, r, rec):
    return s.createH()


def o_hp(s, r, rec):
    return s.createH(projector=rec(_proj(s, r)))


def o_diag(s, r, rec):
    w, v = s.diagH(rec(sp.csr_matrix(s.createH())))
    return w, (v * w) @ v.conj().T


def o_evolve(s, r, rec):
    w, v = _eig(s, r)
    return s.quench_time_evolve(rec(h.cvec(5, s.nstates, 2)), rec(v), rec(w), rec(np.array([0., 0.7, -1.3])))


def o_site(s, r, rec):
    return s.get_single_site_op(_site(s, r), _sp(s, r), rec(_op(s, r, False)), format="boson")


def o_two(s, r, rec):
    return s.get_two_site_op(_site(s, r), _sp(s, r), _site(s, r), _sp(s, r), rec(_op(s, r, False)), rec(_op(s, r)), format="boson")


def o_sumq(s, r, rec):
    q = rec(r.normal(size=2))
    return s.get_sum_op_q(_sp(s, r), q, rec(_op(s, r)), format="boson")


def o_swap(s, r, rec):
    n = s.geometry.nsites
    i = _site(s, r)
    j = (i + 1 + int(r.integers(0, max(1, n - 1)))) % n
    if i == j:
        return None
    return s.get_swap_op(i, j, _sp(s, r))


def o_xform(s, r, rec):
    n = s.geometry.nsites
    p = [int(x) for x in r.permutation(n)]
    seen, cycles = set(), []
    for i in range(n):
        if i not in seen:
            c, j = [], i
            while j not in seen:
                seen.add(j)
                c.append(j)
                j = p[j]
            cycles.append(c)
    return s.get_xform_op(rec(cycles))


def o_exp(s, r, rec):
    a = sp.csr_matrix(systems.rand_herm(7, s.nstates))
    st_ = rec(r.normal(size=(s.nstates, 3)) + 1j * r.normal(size=(s.nstates, 3)))
    return s.get_exp_vals(st_, rec(a)), s.get_norms(st_), s.get_overlaps(st_, rec(st_[:, :2].copy())), s.get_matrix_elems(st_, a)


def o_sites(s, r, rec):
    st_ = rec(r.normal(size=(s.nstates, 2)) + 0j)
    op = rec(_op(s, r))
    a = s.get_exp_vals_sites(st_, op, _sp(s, r), format="boson")
    b = s.get_corr_sites(st_, _sp(s, r), _sp(s, r), op, rec(_op(s, r)), format="boson")
    return norm(a), norm(b)


def o_tsites(s, r, rec):
    w, v = _eig(s, r)
    op, t = rec(_op(s, r)), rec(np.array([0.5, 2.0]))
    a = s.get_thermal_exp_sites(rec(v), rec(w), op, _sp(s, r), t, format="boson")
    b = s.get_thermal_corr_sites(v, w, _sp(s, r), _sp(s, r), op, rec(_op(s, r)), t, format="boson")
    return norm(a), norm(b)


def o_thermal(s, r, rec):
    w, v = _eig(s, r)
    w, v, t = rec(w), rec(v), rec(np.array([0.4, 1.1, 3.0]))
    return s.get_exp_vals_thermal(v, rec(systems.rand_herm(9, s.nstates)), w, t), s.get_thermal_weights(w, t), s.get_partition_fn_sectors(rec([w[:1], w[1:]]), 1.3)


def o_combine(s, r, rec):
    e = [np.sort(r.normal(size=k)) for k in (2, 3)]
    t = rec(np.array([0.4, 1.1]))
    return s.thermal_avg_combine_sectors(rec(r.normal(size=(2, 2))), rec(e), t)


def o_sub(s, r, rec):
    d = sp.diags(r.integers(0, 3, size=s.nstates).astype(float)).tocsr()
    p, e = s.get_subspace_projs(rec(d))
    return p, e, s.get_subspace_overlaps(rec(r.normal(size=(s.nstates, 2))), rec(list(p)))


def o_resp(s, r, rec):
    k = 5
    e = rec(np.sort(r.normal(size=k)))
    a = r.normal(size=(k, k))
    a = rec(a + a.T)
    f = s.get_response_fn_retarded(a, a, e, 0.8)
    g = s.get_response_fn_time_ordered(a, a, e, 0.8)
    return [f(x, 0.2) for x in (-1., 0.3)], [g(x, 0.2) for x in (-1., 0.3)], [f(x, 0.2) for x in (-1., 0.3)]


def o_labels(s, r, rec):
    return s.get_state_vects() if s.nbasis == 2 else None


def o_cycles(s, r, rec):
    from exact_diag import ed_symmetry as sym
    g = s.geometry
    f = sym.getInversionFn(float(np.mean(g.xlocs)), float(np.mean(g.ylocs)))
    return sym.findSiteCycles(f, g), g.get_center_of_mass(), g.get_sorting_permutation("top_left")


def o_terms(s, r, rec):
    if hasattr(s, "ts"):
        n = s.geometry.nsites
        return (s.get_kinetic_op(), s.get_kinetic_op(direction_vect=rec(np.array([[1.], [0.]]))), s.get_u_interspecies_op(rec(r.normal(size=n))) if _nsp(s) == 2 else None,
                s.get_u_samespecies_op(rec(np.zeros((n, n, _nsp(s))))), s.get_potential_op(rec(r.normal(size=(n, _nsp(s))))), s.get_chemical_pot_op(rec(r.normal(size=_nsp(s)))),
                s.get_current_op(), s.get_hopping_mat(rec(np.array([0.7]))))
    j = r.normal(size=(s.geometry.nsites,) * 2)
    return s.get_interaction_mat(rec(j + j.T)).copy(), s.get_field_mat(rec(r.normal(size=s.geometry.nsites))).copy(), s.get_rydberg_detunes(rec(j + j.T)), s.get_allsite_op(rec(_op(s, r))), \
        s.get_swap_up_down_op(), s.get_sum_op(rec(_op(s, r))), s.get_interaction_mat_c6(2.0)


def o_sector(s, r, rec):
    """projectors onto symmetry sectors, built from permutation operators"""
    from exact_diag import ed_symmetry as sym
    n = s.geometry.nsites
    T = rec(sp.csr_matrix(s.get_xform_op([list(range(n))])))
    R = rec(sp.csr_matrix(s.get_xform_op([[i, n - 1 - i] if i != n - 1 - i else [i] for i in range((n + 1) // 2)])))
    pr = getattr(s, "verbose", False)
    kw = {"print_results": True} if pr else {}
    a, ks = sym.getZnProjectors(T, n, **kw)
    out = [[norm(p) for p in a], norm(ks)]
    dih = {3: sym.getD3Projectors, 4: sym.getD4Projectors}
    if n in dih:
        out.append([gram(p) for p in dih[n](T, R, **kw)])
    return out


def gram(p):
    """the subspace a projector with orthonormal rows projects on"""
    return norm(p.conj().T @ p) if sp.issparse(p) else norm(p)


def o_special(s, r, rec):
    if not hasattr(s, "jx") and not hasattr(s, "find_special_states"):
        e = rec(np.sort(r.normal(size=5)))
        a = r.normal(size=(5, 5))
        a = rec(a + a.T)
        f = s.get_optical_cond_fn(a, e, 0.7)
        return [f(x, 0.3) for x in (-1., 0.4)], s.integrate_conductivity(a, e, 0.7), s.integrate_conductivity(a, e, 0.)
    if s.nbasis != 2 or s.geometry.nsites < 2:
        return None
    st_, names = s.find_special_states(s.geometry.nsites, 1)
    return st_, names, s.get_state_parity()


class Verbose:
    """a system of which every method is asked to print what it does"""
    verbose = True

    def __init__(self, s):
        self.__dict__["_s"] = s

    def __getattr__(self, k):
        v = getattr(self._s, k)
        if not callable(v) or "print_results" not in inspect.signature(v).parameters:
            return v
        return lambda *a, **kw: v(*a, **dict(kw, print_results=True))


OPS = {"sector": o_sector, "special": o_special, "createH": o_h, "projectedH": o_hp, "diagonalise": o_diag, "evolve": o_evolve, "single_site": o_site, "two_site": o_two, "sum_q": o_sumq, "swap": o_swap, "permutation": o_xform,
       "expectation": o_exp, "sites": o_sites, "thermal_sites": o_tsites, "thermal": o_thermal, "combine": o_combine, "subspace": o_sub, "response": o_resp, "labels": o_labels,
       "cycles": o_cycles, "terms": o_terms}
NAMES = sorted(OPS)


@st.composite
def sys_st(draw):
    m = draw(st.sampled_from(["fermi", "spinless", "spin", "spin"]))
    s = draw(st.sampled_from([0.5, 0.5, 1.0])) if m == "spin" else 0.5
    # inversion symmetric geometries
    g = draw(st.sampled_from([["chain", 2], ["chain", 3], ["ring", 3]] if m == "fermi" or s == 1.0 else [["chain", 2], ["chain", 3], ["ring", 3], ["ring", 4], ["rect", 2], ["chain", 1]]))
    return {"m": m, "s": s, "g": g, "t": draw(h.nonzero()), "u": draw(h.coupl()), "v": draw(h.coupl()), "mu": draw(h.coupl()), "hx": draw(h.coupl()), "hz": draw(h.coupl())}


@st.composite
def hist_st(draw):
    objs = draw(st.lists(sys_st(), min_size=2, max_size=3))
    shared = st.integers(0, 3)
    steps = [[draw(st.integers(0, len(objs) - 1)), draw(st.sampled_from(NAMES)), draw(shared), draw(st.booleans()), draw(st.sampled_from([False, False, True]))] for _ in range(draw(st.sampled_from([3, 5, 8, 12])))]
    return {"objs": objs, "share": draw(st.booleans()), "steps": steps}


def geom(g):
    from exact_diag.ed_geometry import Geometry
    k, n = g
    if k == "ring":
        return Geometry.createSquareGeometry(n, 1, bc1_open=False, bc2_open=True)
    if k == "rect":
        return Geometry.createSquareGeometry(n, 2, bc1_open=True, bc2_open=True)
    return Geometry.createNonPeriodicGeometry(list(range(n)), [0] * n)


def scribble(x):
    """overwrite a result, as its owner may do"""
    if sp.issparse(x):
        if getattr(x, "data", None) is not None and isinstance(x.data, np.ndarray) and x.data.dtype != object and x.data.flags.writeable:
            x.data[...] = 17
    elif isinstance(x, np.ndarray) and x.dtype.kind in "fci" and x.flags.writeable:
        x[...] = 17
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)


def run_step(s, name, seed):
    args = []

    def rec(a):
        args.append((a, norm(a)))
        return a
    res = OPS[name](s, h.rng(1000 + seed), rec)
    for a, before in args:
        h.require(equal(norm(a), before), "%s changed the value of an argument" % name)
    return res


def check_hist(c, ctx):
    check_class_state()
    # what each call gives on its own, last call first
    ref = []
    for i, name, seed, _, _ in reversed(c["steps"]):
        o = c["objs"][i]
        ref.append(norm(run_step(systems.make(o, geom(o["g"])), name, seed)))
    ref.reverse()
    geoms, live = {}, []
    for o in c["objs"]:
        key = tuple(o["g"])
        if not (c["share"] and key in geoms):
            geoms[key] = geom(o["g"])
        live.append(systems.make(o, geoms[key]))
    state = [public_state(s) for s in live]
    for k, (i, name, seed, scr, verb) in enumerate(c["steps"]):
        with h.silent():
            res = run_step(Verbose(live[i]) if verb else live[i], name, seed)
        h.require(equal(norm(res), ref[k], 1e-9), "step %d, %s: the result depends on the calls made before%s" % (k, name, ", or on whether it prints what it does" if verb else ""))
        if scr:
            scribble(res)
        for j, s in enumerate(live):
            now = public_state(s)
            for a, v in state[j].items():
                h.require(a in now and equal(now[a], v, 1e-13), "step %d, %s on system %d changed attribute %s of system %d" % (k, name, i, a, j))
        ctx.label(name)
    check_class_state()
    ctx.nontrivial(len({tuple(x[:2]) for x in c["steps"]}) < len(c["steps"]) or len({x[0] for x in c["steps"]}) > 1)


# ---- what a system is made of ------------------------------------------------------------------------------------
@st.composite
def args_st(draw):
    n = draw(st.integers(2, 4))
    m = draw(st.sampled_from(["fermions", "spins"]))
    c = {"m": m, "n": n, "nsp": draw(st.sampled_from([1, 2])) if n < 4 else 1, "seed": draw(h.seeds()), "steps": draw(st.lists(st.sampled_from(["H", "terms", "current", "again"]), min_size=0, max_size=3)),
         "form": [draw(st.sampled_from(["scalar", "list", "array"])) for _ in range(6)], "ryd": draw(st.booleans()), "ns": draw(st.booleans()),
         "order": draw(h.perm(n))}
    return c


def check_args(c, ctx):
    """the arrays, lists and geometry a system is made from still have their values afterwards; giving them again makes the same system"""
    import exact_diag.ed_fermions as edf
    import exact_diag.ed_spins as eds
    from exact_diag.ed_geometry import Geometry
    r = h.rng(c["seed"])
    n, nsp, f = c["n"], c["nsp"], c["form"]
    xs, ys = [int(i) for i in c["order"]], [0] * n
    if c["form"][0] == "array":
        xs, ys = np.array(xs), np.array(ys)
    a = [xs, ys]
    g = Geometry.createNonPeriodicGeometry(xs, ys)
    if c["m"] == "fermions":
        def per(form, full):
            if form == "scalar":
                return float(np.round(r.normal(), 3))
            v = np.round(r.normal(size=nsp), 3)
            return list(v) if form == "list" else full()
        def hop():
            t = r.normal(size=(n, n, nsp)) + 1j * r.normal(size=(n, n, nsp))
            return t + np.conj(np.swapaxes(t, 0, 1))
        def inter():
            t = r.normal(size=(n, n, nsp))
            return t + np.swapaxes(t, 0, 1)
        ts, v, mu, pot = per(f[0], hop), per(f[1], inter), per(f[2], lambda: r.normal(size=nsp)), per(f[3], lambda: r.normal(size=(n, nsp)))
        u = 0. if nsp == 1 else (r.normal(size=n) if f[4] == "array" else 1.3)
        ts = np.array(ts) if isinstance(ts, list) else ts
        v = np.array(v) if isinstance(v, list) else v
        ns = [1] + [None] * (nsp - 1) if c["ns"] else None
        if ns is not None and f[5] == "array" and nsp == 1:
            ns = np.array(ns)
        a += [u, ts, ns, v, mu, pot]
        make = lambda: edf.fermions(g, u, ts, ns=ns, us_same_species=v, mus=mu, potentials=pot, nspecies=nsp)
    else:
        def inter(form):
            if form == "scalar":
                return float(np.round(r.normal(), 3))
            t = r.normal(size=(n, n))
            return t + t.T
        def field(form):
            return float(np.round(r.normal(), 3)) if form == "scalar" else r.normal(size=n) if form == "list" else r.normal(size=(n, 1))[:, 0]
        js, hs = [inter(f[i]) for i in range(3)], [field(f[i]) for i in range(3, 6)]
        a += js + hs
        make = lambda: eds.spinSystem(g, jx=js[0], jy=js[1], jz=js[2], hx=hs[0], hy=hs[1], hz=hs[2], use_ryd_detunes=c["ryd"])
    before = [norm(x) for x in a]
    gb = norm(g)

    def unchanged(what):
        h.require(all(equal(norm(x), b, 0) for x, b in zip(a, before)), what + " changed an argument the system was made from")
        h.require(equal(norm(g), gb, 0), what + " changed the geometry the system was made from")
    s = make()
    unchanged("making the system")
    H = h.dense(s.createH()).copy()
    unchanged("createH")
    for k in c["steps"]:
        if k == "again":
            h.close(h.dense(make().createH()), H, "Hamiltonian of a second system made from the same arguments", tol=1e-13)
        elif k == "H":
            h.close(h.dense(s.createH()), H, "the Hamiltonian once more", tol=1e-13)
        elif k == "terms":
            o_terms(s, h.rng(3), lambda x: x)
        elif c["m"] == "fermions":
            s.get_current_op()
        unchanged(k)
    ctx.label(c["m"], *["%s" % x for x in set(f)])
    ctx.nontrivial(any(isinstance(x, np.ndarray) for x in a[2:]))


# ---- clusters and free functions ---------------------------------------------------------------------------------
@st.composite
def func_st(draw):
    return {"cells": draw(h.polyomino(2, 5)), "cells2": draw(h.polyomino(2, 4)), "steps": draw(st.lists(st.tuples(st.integers(0, 8), st.booleans()).map(list), min_size=2, max_size=7)),
            "beta": draw(h.dec(0.2, 3)), "mu": draw(h.dec(-2, 2)), "seed": draw(h.seeds())}


def func_step(c, k, gs, rec, pp=False):
    from exact_diag import ed_nlce, fermi_gas as fg, greens_fns as gf, ed_symmetry as sym, ed_geometry as eg
    r = h.rng(c["seed"])
    if k == 0:
        return ed_nlce.get_clusters_next_order([gs[0]])
    if k == 1:
        return ed_nlce.get_all_subclusters(gs[0])
    if k == 2:
        return ed_nlce.get_reduced_subclusters(gs[1], print_progress=pp)
    if k == 3:
        return ed_nlce.get_clusters_rel_by_symmetry(gs[0])
    if k == 4:
        return ed_nlce.get_all_clusters_with_subclusters(3, print_progress=pp)
    if k == 5:
        mat = sp.csr_matrix(np.tril(r.integers(0, 3, size=(4, 4)), -1))
        return (ed_nlce.get_nlce_exp_val(rec(r.normal(size=(4, 3))), rec(mat), rec(np.array([[1, 2, 1, 4]])), rec([0, 1, 2, 4]), 2)
                + tuple(ed_nlce.euler_resum(rec(r.normal(size=(3, 2))), 1.0)))
    if k == 6:
        b, m = rec(np.array([c["beta"], 2.0])), rec(np.array([c["mu"], 0.1]))
        return fg.fg_density(b, m, 4), fg.fg_mu(b, rec(np.array([0.3, 0.6])), 4), fg.fg_singles_corr(b, m, m, (1, 0), 4), fg.fg_density_response(b, m, rec(np.array([0.3, 0.2])), nsites=4)
    if k == 7:
        w, a, t = rec(np.linspace(-2, 2.1, 8)), rec(r.random(8)), rec(np.linspace(0, c["beta"], 5))
        return gf.get_grnfn_imagtime_spectralfn(t, c["beta"], w, a), gf.grnfn_imagtime_ft(rec(np.array([1., 2.])), t, rec(r.normal(size=5)), c["beta"]), gf.obs_kt(t, w, a, a)
    p = rec(r.normal(size=3) * 5), rec(r.normal(size=3) * 5)
    v = rec(np.array([2., 1.])), rec(np.array([0., 3.]))
    return eg.reduce_vectors(v[0], v[1], p[0], p[1], mode="positive"), sym.getRotFn(4)(p[0], p[1]), sym.getTranslFn(v[0])(p[0], p[1])


def check_func(c, ctx):
    from exact_diag.ed_geometry import Geometry

    def fresh():
        return [Geometry.createNonPeriodicGeometry([x for x, _ in cc], [y for _, y in cc]) for cc in (c["cells"], c["cells2"])]

    def run(k, gs, pp=False):
        args = []

        def rec(a):
            args.append((a, norm(a)))
            return a
        with h.silent():
            res = func_step(c, k, gs, rec, pp)
        for a, b in args:
            h.require(equal(norm(a), b), "function %d changed the value of an argument" % k)
        return res
    ref = [norm(run(k, fresh())) for k, _ in reversed(c["steps"])][::-1]
    gs = fresh()
    before = [norm(g) for g in gs]
    for i, (k, scr) in enumerate(c["steps"]):
        res = run(k, gs, scr)
        h.require(equal(norm(res), ref[i], 1e-9), "step %d (function %d): the result depends on the calls made before" % (i, k))
        h.require(all(equal(norm(g), b) for g, b in zip(gs, before)), "step %d (function %d) changed a cluster given to it" % (i, k))
        if scr and k >= 5:
            scribble(res)
        ctx.label("fn%d" % k)
    ctx.nontrivial(len({k for k, _ in c["steps"]}) < len(c["steps"]) or len(c["steps"]) > 3)


# ---- files -------------------------------------------------------------------------------------------------------
@st.composite
def io_st(draw):
    o = draw(sys_st())
    ns = None
    if o["m"] != "spin":
        k = 2 if o["m"] == "fermi" else 1
        ns = draw(st.one_of(st.none(), st.lists(st.one_of(st.none(), st.integers(0, 1)), min_size=k, max_size=k)))
    return {"o": o, "ns": ns, "ext": draw(st.sampled_from(["pkl", "mat"])), "name": draw(st.sampled_from(["a", "some.name", "x y", "default"])), "into": draw(st.booleans()), "again": draw(st.booleans())}


def flat(x):
    if sp.issparse(x):
        x = x.toarray()
    return np.squeeze(np.asarray(x))


def check_io(c, ctx):
    import exact_diag.ed_spins as eds
    o = c["o"]
    s = systems.make(o, geom(o["g"]), ns=c["ns"])
    before, H = public_state(s), h.dense(s.createH())
    tmp = tempfile.mkdtemp(prefix="verif_io_")
    try:
        fn = os.path.join(tmp, c["name"] + "." + c["ext"])
        if c["name"] == "default" and c["ext"] == "pkl":
            # the name is chosen by the library
            here = os.getcwd()
            os.chdir(tmp)
            try:
                out = fn = os.path.join(tmp, s.save())
            finally:
                os.chdir(here)
            h.require(os.path.exists(fn) and len(os.listdir(tmp)) == 1, "saving under a default name writes one file")
        else:
            out = s.save(fn)
        h.require(os.path.samefile(out, fn), "save returns the name of the file it wrote")
        if c["again"]:
            s.save(fn)
        h.require(all(equal(public_state(s)[k], v) for k, v in before.items()), "saving changes nothing")
        t = eds.spinSystem(geom(["chain", 2])) if c["into"] else systems.make(o, geom(o["g"]), ns=c["ns"])
        if c["ext"] == "pkl" and c["into"] and o["m"] != "spin":
            t = systems.make(dict(o, m="fermi" if o["m"] == "spinless" else "spinless"), geom(["chain", 2]))
        ret = t.load(fn)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if c["ext"] == "pkl":
        h.require(all(equal(public_state(ret)[k], v, 1e-15) for k, v in before.items()), "what load returns has the attributes that were saved")
        now = public_state(t)
        h.same(sorted(now), sorted(before), "names of the loaded attributes")
        for k in before:
            h.require(equal(now[k], before[k], 1e-15), "attribute %s changed by saving and loading" % k)
        h.close(h.dense(t.createH()), H, "Hamiltonian of the loaded system", tol=1e-13)
    else:
        h.same(sorted(k for k in vars(t)), sorted(k for k in vars(s)), "names of the loaded attributes")
        for k, v in vars(s).items():
            if k == "geometry":
                g = t.geometry[0, 0]
                for a in ("xlocs", "ylocs", "adjacency_mat", "phase_mat", "xdist_mat", "ydist_mat", "nsites"):
                    h.close(flat(g[a]), flat(getattr(v, a)), "geometry attribute %s saved to and loaded from a .mat file" % a, tol=1e-15)
            elif v is None or (isinstance(v, np.ndarray) and v.dtype == object):
                continue
            else:
                h.close(flat(getattr(t, k)), flat(v), "attribute %s saved to and loaded from a .mat file" % k, tol=1e-15)
    ctx.label(c["ext"], o["m"], "ns" if c["ns"] else "no ns")
    ctx.nontrivial(bool(np.abs(H).max() > 0))


FACETS = [
    Facet("systems", hist_st, check_hist, 160, 3000, "a call is repeated or calls on two systems are interleaved", shards=8),
    Facet("functions", func_st, check_func, 150, 1500, "a call is repeated, or more than three calls", shards=5),
    Facet("files", io_st, check_io, 280, 2500, "the Hamiltonian does not vanish", shards=5),
    Facet("arguments", args_st, check_args, 300, 2500, "some coupling is an array", shards=3),
]
ASSUMPTIONS = ["attributes whose names start with an underscore are the system's own business", "values loaded from .mat files are compared up to array shape (documented limitation), and None is not compared",
               "histories of at most 12 calls on at most three systems; the iterative eigensolver, which starts from a random vector, is not part of them"]
