"""The batch pipeline (cluster/*.py) through files, in any order of its independent jobs."""
import importlib.util
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib.core import Facet
from vlib import h, poly, boot

CL = os.path.join(boot.REPO if hasattr(boot, "REPO") else "/repo", "cluster")
_mods = {}


def script(name):
    """a script of the pipeline as a module; its functions are what the batch jobs call"""
    if name not in _mods:
        spec = importlib.util.spec_from_file_location("verif_pipeline_" + name, os.path.join(CL, name + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[name] = getattr(m, name)
    return _mods[name]


class Scratch:
    """the scripts number files by the first digits of their name, so they are run in the folder with the files"""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="verif_pipe_")
        os.chdir(self.dir)
        self.s = h.silent()
        self.s.__enter__()
        return self

    def __exit__(self, *a):
        self.s.__exit__(*a)
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def load(fn):
    with open(fn, "rb") as f:
        return pickle.load(f)


def dump(fn, x):
    with open(fn, "wb") as f:
        pickle.dump(x, f)


def geoms(cl):
    return [poly.canon(poly.cells_of(g), True) for g in cl]


def ref_clusters(order):
    """class -> number of clusters per site, by order"""
    return [{s: len(poly.images(s)) for s in poly.all_of(n, True)} for n in range(1, order + 1)]


def check_cluster_file(order, cl, inds, mult, what):
    keys = geoms(cl)
    ref = ref_clusters(order)
    inds = [int(i) for i in inds]
    h.require(len(inds) >= order + 1, what + ": start of every order")
    for n in range(1, order + 1):
        seg = keys[inds[n - 1]:inds[n]]
        h.same(sorted(seg), sorted(ref[n - 1]), "%s: clusters with %d sites" % (what, n))
        for k, m in zip(seg, np.asarray(mult).ravel()[inds[n - 1]:inds[n]]):
            h.require(int(m) == ref[n - 1][k], "%s: multiplicity of cluster %s" % (what, k))
    h.require(np.asarray(mult).size == len(cl) == sum(len(r) for r in ref), "%s: number of clusters" % what)
    return keys


# ---- generation --------------------------------------------------------------------------------------------------
@st.composite
def gen_st(draw):
    return {"order": draw(st.sampled_from([1, 2, 3, 4])), "later": draw(st.sampled_from([1, 2, 3, 4])), "subs": draw(st.booleans()), "repeat": draw(st.integers(0, 2))}


def check_gen(c, ctx):
    order = c["order"]
    with Scratch():
        f = script("generate_clusters" if c["subs"] else "generate_clusters_no_subs")
        n = f("clusters.dat", order)
        raw = open("clusters.dat", "rb").read()
        for _ in range(c["repeat"]):
            h.require(f("clusters.dat", c["later"]) == n, "a second run returns the number of clusters in the file")
        h.require(open("clusters.dat", "rb").read() == raw, "a second run leaves the existing file as it was")
        d = load("clusters.dat")
    if c["subs"]:
        h.require(d["max_cluster_order"] == order, "order stored in the file")
        keys = check_cluster_file(order, d["cluster_list"], d["order_start_indices"], d["cluster_multiplicities"], "cluster file")
        check_submat(keys, h.dense(d["sub_cluster_mult"]), "cluster file")
        h.require(len(d["cluster_list"]) == n, "number of clusters returned")
    else:
        h.require(d[0] == order, "order stored in the file")
        check_cluster_file(order, d[1], d[2], d[4], "cluster file")
        h.require(len(d[1]) == n and np.shape(d[4]) == (1, n), "number of clusters returned; multiplicities are a row")
    ctx.label("order%d" % order, "subs" if c["subs"] else "no subs", "rerun" if c["repeat"] else "once")
    ctx.nontrivial(c["repeat"] > 0 and order > 1)


def check_submat(keys, M, what):
    ref = np.zeros((len(keys),) * 2)
    idx = {k: i for i, k in enumerate(keys)}
    for i, k in enumerate(keys):
        for s, m in poly.sub_counts(k, True).items():
            ref[i, idx[s]] = m
    h.close(M, ref, what + ": subcluster multiplicities", tol=1e-12)
    return ref


# ---- subclusters through files -----------------------------------------------------------------------------------
@st.composite
def sub_st(draw):
    order = draw(st.sampled_from([2, 3, 4, 4, 5, 5]))
    return {"order": order, "seed": draw(h.seeds()), "again": draw(st.integers(0, 3)), "name": draw(st.sampled_from(["sub%d.dat", "cluster_index=%d_sub.pkl", "out_%03d"])),
            "missing": draw(st.sampled_from([False, False, False, True])), "stale": draw(st.booleans())}


def check_sub(c, ctx):
    with Scratch():
        n = script("generate_clusters_no_subs")("clusters.dat", c["order"])
        r = h.rng(c["seed"])
        jobs = [int(i) for i in r.permutation(n)] + [int(i) for i in r.integers(0, n, size=c["again"])]
        raw = open("clusters.dat", "rb").read()
        if c.get("stale"):
            # left over from other runs, longer and shorter than what replaces them
            for i in range(n):
                dump(c["name"] % (i + 1), ["of another run"] * (400 if i % 2 else 1))
            dump("all.dat", ["of another run"] * 4000)
        for i in jobs:
            script("find_subclusters")(i, c["name"] % (i + 1), "clusters.dat")
        pat = c["name"].replace("%03d", "*").replace("%d", "*")
        if c["missing"] and n > 1:
            os.remove(c["name"] % (jobs[0] + 1))
            h.rejects(lambda: script("aggregate_subclusters")(pat, "all.dat", "clusters.dat"), "an incomplete set of subcluster files")
            h.require(not os.path.exists("all.dat") or c.get("stale"), "no result written for an incomplete set of files")
            script("find_subclusters")(jobs[0], c["name"] % (jobs[0] + 1), "clusters.dat")
        script("aggregate_subclusters")(pat, "all.dat", "clusters.dat")
        h.require(open("clusters.dat", "rb").read() == raw, "the cluster file is only read")
        before, d = load("clusters.dat"), load("all.dat")
    h.require(len(d) == 6, "cluster data and the matrix of multiplicities")
    keys = check_cluster_file(c["order"], d[1], d[2], d[4], "aggregated file")
    h.require(d[0] == c["order"] and [sorted(poly.cells_of(g)) for g in before[1]] == [sorted(poly.cells_of(g)) for g in d[1]], "same clusters in the same order")
    check_submat(keys, h.dense(d[5]), "aggregated file")
    ctx.label("order%d" % c["order"], "missing" if c["missing"] else "complete", "repeats" if c["again"] else "once")
    ctx.nontrivial(jobs != sorted(jobs) and c["order"] > 2)


# ---- diagonalisation of one cluster ------------------------------------------------------------------------------
@st.composite
def diag_st(draw):
    # a cluster file is any list whose second entry is a list of geometries
    k = draw(st.sampled_from([1, 2, 3]))
    return {"clusters": [draw(h.polyomino(1, 4)) for _ in range(k)], "index": draw(st.integers(0, k - 1)), "stale": draw(st.sampled_from([0, 1, 900]))}


def exact(cells):
    """spectrum and observables of the Heisenberg cluster which the script studies: 0.25 * sum of Pauli products over bonds (J = 0.5)"""
    n = len(cells)
    P = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1., -1.])]
    H = np.zeros((1 << n, 1 << n), complex)
    zz = np.zeros(1 << n)
    z = [np.real(np.diag(h.ref_site_op(P[2], i, n, 2))) for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            zz = zz + z[i] * z[j]
            if abs(cells[i][0] - cells[j][0]) + abs(cells[i][1] - cells[j][1]) == 1:
                for p in P:
                    H += 0.25 * h.ref_site_op(p, i, n, 2) @ h.ref_site_op(p, j, n, 2)
    e, v = np.linalg.eigh(H)
    T = np.logspace(-1, 0.5, 50)
    w = np.exp(-(e[None, :] - e[0]) / T[:, None])
    Z = w.sum(1)
    w = w / Z[:, None]
    E = w @ e
    S = np.log(Z) - e[0] / T + E / T
    C = (w @ e ** 2 - E ** 2) / T ** 2
    corr = w @ np.real(np.einsum("ai,a,ai->i", v.conj(), zz, v))
    return {"T": T, "e": e, "E": E, "S": S, "C": C, "zz": corr}


def check_diag_out(d, cells, what):
    ref = exact(cells)
    h.require(len(d) == 8, what + ": fields of the result")
    h.same(sorted(poly.cells_of(d[0])), sorted(tuple(x) for x in cells), what + ": cluster")
    h.close(np.ravel(d[6]), ref["T"], what + ": temperatures")
    h.close(np.sort(np.real(np.ravel(d[1]))), ref["e"], what + ": energies")
    for i, k, nm in ((2, "E", "energy"), (3, "S", "entropy"), (4, "C", "specific heat"), (5, "zz", "spin correlations")):
        h.require(np.shape(d[i]) == (1, 50), what + ": %s is a row over the temperatures" % nm)
        h.close(d[i][0], ref[k], "%s: %s" % (what, nm), tol=1e-7)


def check_diag(c, ctx):
    from exact_diag.ed_geometry import Geometry
    with Scratch():
        cl = [Geometry.createNonPeriodicGeometry([x for x, _ in cc], [y for _, y in cc]) for cc in c["clusters"]]
        dump("clusters.dat", [4, cl, [0, len(cl)], 0., np.ones((1, len(cl)))])
        raw = open("clusters.dat", "rb").read()
        if c.get("stale"):
            dump("d.dat", ["of another run"] * c["stale"])
        script("diag_cluster")(c["index"], "d.dat", "clusters.dat")
        h.require(open("clusters.dat", "rb").read() == raw, "the cluster file is only read")
        d = load("d.dat")
    check_diag_out(d, c["clusters"][c["index"]], "result of one cluster")
    n = len(c["clusters"][c["index"]])
    ctx.label("n%d" % n)
    ctx.nontrivial(n > 1)


# ---- final aggregation -------------------------------------------------------------------------------------------
@st.composite
def agg_st(draw):
    # orders of at most 6 clusters each, as random as the data
    sizes = draw(st.lists(st.sampled_from([1, 1, 2, 3, 5, 6]), min_size=1, max_size=5))
    return {"sizes": sizes, "used": draw(st.integers(1, len(sizes))), "nt": draw(st.sampled_from([1, 2, 5])), "seed": draw(h.seeds()),
            "name": draw(st.sampled_from(["diag%d.dat", "res_cluster=%d.pkl", "job-%04d"])), "stale": draw(st.sampled_from([0, 1, 9000]))}


def check_agg(c, ctx):
    r = h.rng(c["seed"])
    inds = [0] + [int(x) for x in np.cumsum(c["sizes"])]
    n, order = inds[-1], c["used"]
    k = inds[order]
    M = np.tril(r.integers(0, 4, size=(n, n)), -1).astype(float)
    mult = r.integers(0, 9, size=n)
    dat = r.normal(size=(4, n, c["nt"]))
    T = np.sort(r.random(c["nt"])) + 0.1
    with Scratch():
        dump("all.dat", [order, ["cluster %s" % i for i in range(n)], inds, 0., mult[None, :], sp.csr_matrix(M)])
        for i in r.permutation(n):
            dump(c["name"] % (i + 1), ["cluster %s" % i, np.zeros(2), dat[0, i][None, :], dat[1, i][None, :], dat[2, i][None, :], dat[3, i][None, :], T, None])
        if c.get("stale"):
            dump("res.pk", ["of another run"] * c["stale"])
        out = script("aggregate_results")(c["name"].replace("%04d", "*").replace("%d", "*"), "all.dat", "res.pk")
        saved = load("res.pk")
    h.require(len(out) == 22 and len(saved) == 22, "fields of the result")
    for o, what in ((out, "returned"), (saved, "saved")):
        h.same(list(o[0]), ["cluster %s" % i for i in range(n)], what + ": clusters in numerical order")
        h.close(np.ravel(o[21]), T, what + ": temperatures")
        for q, nm in enumerate(("energy", "entropy", "specific heat", "spin correlations")):
            val, nlce, orders, w, eul = o[1 + 5 * q:6 + 5 * q]
            W = np.linalg.solve(np.eye(k) + M[:k, :k], dat[q, :k])
            h.close(val, dat[q], "%s: %s of the clusters" % (what, nm))
            h.close(w, W, "%s: weights of the %s" % (what, nm), tol=1e-8)
            h.close(np.reshape(nlce, c["nt"]), mult[:k] @ W, "%s: expansion of the %s" % (what, nm), tol=1e-8)
            ref = np.array([mult[inds[i]:inds[i + 1]] @ W[inds[i]:inds[i + 1]] for i in range(order)])
            h.close(orders, ref, "%s: orders of the %s" % (what, nm), tol=1e-8)
            import exact_diag.ed_nlce as nl
            h.close(eul, nl.euler_resum(ref, 1)[0], "%s: resummed %s" % (what, nm), tol=1e-8)
    ctx.label("clusters>9" if n > 9 else "few", "truncated" if order < len(c["sizes"]) else "all orders")
    ctx.nontrivial(n > 1)


# ---- the whole pipeline, and from the command line ---------------------------------------------------------------
@st.composite
def full_st(draw):
    order = draw(st.sampled_from([2, 3, 3]))
    return {"order": order, "seed": draw(h.seeds()), "cli": draw(st.sampled_from([False, True])), "repeat": draw(st.integers(0, 2))}


def run_cli(name, *args):
    env = dict(os.environ, PYTHONPATH=os.path.dirname(CL), OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(CL, name + ".py")] + [str(a) for a in args], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    h.require(p.returncode == 0, "%s %s ended with %d: %s" % (name, args, p.returncode, p.stderr.decode()[-300:]))
    return p.stdout.decode()


def check_full(c, ctx):
    from exact_diag import ed_nlce
    order = c["order"]
    with Scratch():
        def job(name, idx, *rest):
            if c["cli"]:
                # job arrays count from one
                return run_cli(name, *(([idx + 1] if idx is not None else []) + list(rest)))
            return script(name)(*(([idx] if idx is not None else []) + list(rest)))
        n = job("generate_clusters_no_subs", None, "clusters.dat", order)
        n = int(str(n).split()[-1])
        h.require(n == sum(len(x) for x in ref_clusters(order)), "number of clusters reported")
        r = h.rng(c["seed"])
        jobs = [("find_subclusters", i, "sub%d.dat" % (i + 1)) for i in range(n)] + [("diag_cluster", i, "diag%d.dat" % (i + 1)) for i in range(n)]
        todo = [jobs[int(i)] for i in r.permutation(len(jobs))] + [jobs[int(i)] for i in r.integers(0, len(jobs), size=c["repeat"])]
        for nm, i, fn in todo:
            job(nm, i, fn, "clusters.dat")
        job("aggregate_subclusters", None, "sub*.dat", "all.dat", "clusters.dat")
        job("aggregate_results", None, "diag*.dat", "all.dat", "results.dat")
        d, out = load("all.dat"), load("results.dat")
    keys = check_cluster_file(order, d[1], d[2], d[4], "pipeline")
    M = check_submat(keys, h.dense(d[5]), "pipeline")
    ex = [exact(k) for k in keys]
    mult = np.array([len(poly.images(k)) for k in keys])
    for q, k in enumerate(("E", "S", "C", "zz")):
        val = np.array([e[k] for e in ex])
        W = np.linalg.solve(np.eye(n) + M, val)
        h.close(out[1 + 5 * q], val, "pipeline: %s of the clusters" % k, tol=1e-7)
        h.close(np.ravel(out[2 + 5 * q]), mult @ W, "pipeline: expansion of %s" % k, tol=1e-6)
    # the direct calculation
    cl, m2, M2, inds = ed_nlce.get_all_clusters_with_subclusters(order)
    pos = {k: i for i, k in enumerate(geoms(cl))}
    val = np.array([ex[keys.index(k)]["E"] for k in geoms(cl)])
    direct, _, _ = ed_nlce.get_nlce_exp_val(val, M2, m2, inds, 1)
    h.require(len(pos) == n, "number of clusters of the direct calculation")
    h.close(np.ravel(out[2]), np.ravel(direct), "pipeline against direct calculation", tol=1e-6)
    ctx.label("cli" if c["cli"] else "functions", "order%d" % order)
    ctx.nontrivial()


# ---- the plot of the results --------------------------------------------------------------------------------------
@st.composite
def plot_st(draw):
    return {"orders": draw(st.sampled_from([1, 4, 5, 6, 8])), "nt": draw(st.sampled_from([1, 2, 5, 12])), "seed": draw(h.seeds())}


def check_plot(c, ctx):
    """each panel shows, against temperature, the partial sums from the fifth order on and the resummed curve"""
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    r = h.rng(c["seed"])
    k, nt = c["orders"], c["nt"]
    T = np.sort(r.random(nt)) + 0.1
    orders, eul = r.normal(size=(4, k, nt)), r.normal(size=(4, nt))
    data = [["cluster"]]
    for q in range(4):
        data += [r.normal(size=(2, nt)), r.normal(size=nt), orders[q], r.normal(size=(2, nt)), eul[q]]
    data.append(T)
    plt.close("all")
    try:
        with Scratch():
            dump("res.pk", data)
            fig = script("plot_results")("res.pk")
        panels = [ax for ax in fig.axes if ax.lines]
        h.require(len(panels) == 4, "four panels")
        for q, (ax, nm) in enumerate(zip(panels, ("energy", "entropy", "specific heat", "spin correlations"))):
            curves = [np.cumsum(orders[q], axis=0)[i] for i in range(4, k)] + [eul[q]]
            lines = [ln for ln in ax.lines if np.size(ln.get_xdata()) == nt]
            h.require(len(lines) == len(curves), "number of curves of the %s" % nm)
            for ln, want in zip(lines, curves):
                h.close(np.asarray(ln.get_xdata(), float), T, "temperatures in the plot of the %s" % nm)
                h.close(np.asarray(ln.get_ydata(), float), want, "curve in the plot of the %s" % nm)
        leg = panels[0].get_legend()
        if leg is not None:
            txt = [t.get_text() for t in leg.get_texts()]
            h.require(all(str(i + 1) in t for i, t in zip(range(4, k), txt)), "the legend names the orders: %s" % txt)
    finally:
        plt.close("all")
    ctx.label("orders%d" % k)
    ctx.nontrivial(k > 4)


FACETS = [
    Facet("generate", gen_st, check_gen, 30, 60, "more than one order, and run again on an existing file"),
    Facet("subclusters", sub_st, check_sub, 24, 400, "the jobs do not run in the order of their indices", shards=3),
    Facet("diagonalise", diag_st, check_diag, 40, 600, "more than one site", shards=2),
    Facet("aggregate", agg_st, check_agg, 120, 2500, "more than one cluster"),
    Facet("pipeline", full_st, check_full, 18, 80, "every case", shards=4),
    Facet("plot", plot_st, check_plot, 40, 200, "some partial sum is shown"),
]
ASSUMPTIONS = ["file names contain no digits apart from the job index (documented in the scripts)", "the euler resummation is taken from the library here; it is judged by P22",
               "expansion orders up to 5 for the subclusters, 3 for the whole pipeline, clusters of up to 4 sites for the diagonalisation"]
