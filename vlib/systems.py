"""Generators of interacting systems shared by several properties."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from . import h


@st.composite
def model(draw, fermi_nmax=4, spinless_nmax=6, spin_nmax=6, models=("fermi", "spinless", "spin")):
    """uniform model (couplings respect every lattice symmetry)"""
    m = draw(st.sampled_from(list(models)))
    return {"m": m, "t": draw(h.nonzero()), "u": draw(h.coupl()), "v": draw(h.coupl()), "mu": draw(h.coupl()),
            "hx": draw(h.coupl()), "hy": draw(st.sampled_from([0., 0., 0., 0.6, -1.3])), "hz": draw(h.coupl()), "s": 0.5, "pot": draw(h.coupl()), "asym": draw(st.sampled_from([0., 0., 0.5, -1.7])),
            "nmax": {"fermi": fermi_nmax, "spinless": spinless_nmax, "spin": spin_nmax}[m]}


def make(mod, g, ns=None):
    import exact_diag.ed_fermions as edf
    import exact_diag.ed_spins as eds
    if mod["m"] == "spin":
        return eds.spinSystem(g, jx=mod["t"], jy=mod["u"], jz=mod["v"], hx=mod["hx"], hy=mod.get("hy", 0.), hz=mod["hz"], spin=mod.get("s", 0.5))
    nsp = 2 if mod["m"] == "fermi" else 1
    t, mu, a = mod["t"], mod["mu"], mod.get("asym", 0.)
    if nsp == 2 and a:
        # the species differ
        t, mu = np.array([t, t * (1 + a)]), np.array([mu, mu + a])
    return edf.fermions(g, mod["u"] if nsp == 2 else 0., t, us_same_species=mod["v"], mus=mu, potentials=mod.get("pot", 0.), nspecies=nsp, ns=ns)


def rand_herm(seed, dim, real=False):
    a = h.cvec(seed, dim, dim)
    if real:
        a = a.real
    return sp.csr_matrix(0.5 * (a + a.conj().T))


def mode_perm(img, nsites, nsp):
    """site permutation -> permutation of logical modes"""
    return [k * nsites + img[i] for k in range(nsp) for i in range(nsites)]
