#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (only for properties whose check exists)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, F, S, G, Y, N, A, R = ["exact_diag/%s.py" % n for n in
                          ("ed_base", "ed_fermions", "ed_spins", "ed_geometry", "ed_symmetry", "ed_nlce", "fermi_gas", "greens_fns")]
C = "cluster/%s.py"
P = []


def p(pid, title, statement, text, why, files, mech, over=("inputs", "configurations"), technique="", note=""):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, technique=technique, note=note))


p("P01", "A lattice cell contains every inequivalent site exactly once",
  "Building a geometry from lattice vectors, basis sites and periodicity vectors yields exactly the inequivalent sites of the cell: each site of the infinite lattice is equivalent, modulo the periodic directions, to exactly one returned site, so the number of sites is the cell area divided by the unit-cell area times the number of basis sites. The square, tilted-square, triangular, hexagonal and polygon constructors give the documented number of sites at the documented places for every size and boundary choice. No site is lost or duplicated by rounding.",
  "all lattices, bases, integer periodicity matrices, sizes and open/periodic choices",
  "The tests build a handful of fixed small cells; whether sites are lost or doubled depends on orientation, skew and rounding of each cell.",
  [G], [("site enumeration", G + ": Lattice.get_unique_sites; Geometry.create_lattice_geom, createSquareGeometry, createTiltedSquareGeometry, createTriangleGeometry, createHexagonalGeometry, createRegularPolygonGeometry")],
  technique="Hypothesis generation against an integer-arithmetic model of the cell",
  note="generated lattices with up to 28 sites; exact integer oracle for the number and equivalence classes of sites")

p("P02", "Vectors are reduced modulo the periodicity lattice uniquely and minimally",
  "Reducing a vector modulo the periodicity vectors returns an equivalent vector lying in the requested region (the cell spanned from the origin, or the cell centred on it) together with the exact whole numbers of periodicity vectors removed; equivalent inputs reduce to the same vector and reduction is idempotent. With one or no periodicity vector only the periodic direction is reduced. Reciprocal vectors are dual to the direct ones (scalar products one for the same index and zero for different ones; no factor 2 pi), also when one or both direct vectors vanish.",
  "all points, all pairs of periodicity vectors (independent, one zero, both zero), both reduction modes, points on region boundaries",
  "Tests try a few points; boundary points, oblique cells, negative coordinates and zero vectors are a continuum.",
  [G], [("reduction", G + ": Lattice.reduce_to_unit_cell, reduce_vectors"), ("duals", G + ": get_reciprocal_vects")],
  technique="Hypothesis generation; validity predicate on the reduced vector", note="thousands of generated cells and points, including half-way points")

p("P03", "Separations, distances and bonds are those of the periodic lattice",
  "For every pair of sites the reported separation is antisymmetric and equals, modulo the periodicity, the difference of the positions; its length is the shortest over all periodic images (also for oblique cells and cells open in one direction), and the distances along the lattice vectors are consistent with it. Two sites are bonded exactly when they are nearest neighbours in this sense, and the adjacency is symmetric without self-bonds; a picture of the geometry shows its sites and bonds.",
  "all lattices, cells, boundary choices, free clusters and pairs of sites",
  "Tests assert the distances of a few tiny cells; shortest-image errors only appear in skew or small cells.",
  [G], [("distances", G + ": Lattice.get_reduced_distance; Geometry.get_site_distance"),
        ("bonds", G + ": Geometry.get_neighbors_by_distance")],
  technique="Hypothesis generation against brute-force minimisation over periodic images", note="cells up to 16 sites, free clusters, arbitrary lattices")

p("P04", "Boundary twists act as a flux through the cell and nothing else",
  "Twist phases are unit complex numbers, Hermitian under exchange of the two sites, and the product of the phases around any closed walk depends only on how often the walk winds around the cell, giving the twist angle per winding. A translation-invariant hopping model with twists has the single-particle bands of the infinite lattice evaluated at the correspondingly shifted momenta, so adding a full turn to a twist leaves the spectrum unchanged.",
  "all twist angles, cells, boundary choices and closed walks",
  "Tests compare a couple of twisted chains; gauge errors show only for particular windings, skew cells or both twists together.",
  [G, F], [("phases", G + ": Lattice.get_phase_mat"), ("hopping phases", F + ": get_hopping_mat, createH")],
  technique="Hypothesis generation: metamorphic (closed walks) and analytic band-structure oracle", note="cells up to 16 sites, random closed walks")

p("P05", "Relabelling sites changes names only",
  "Permuting the site labels of a geometry and then inverting the permutation restores it, permutations compose, and every per-site and per-pair quantity (positions, adjacency, phases, distances) follows its site; sorting modes order the sites as documented without changing the set. Spectra and observables of models built on the relabelled geometry, with couplings relabelled alike, are unchanged. Two geometries compare equal exactly when their sites, bonds, periodicity and phases agree.",
  "all geometries, permutations, sorting modes and pairs of geometries",
  "Tests permute one or two geometries; a wrong inverse permutation is invisible for self-inverse permutations.",
  [G], [("relabelling", G + ": Geometry.permute_sites, get_sorting_permutation, __eq__")],
  technique="Hypothesis generation; round-trip and metamorphic relations", note="geometries up to 9 sites, models up to 4 sites")

p("P06", "Ill-formed inputs are rejected instead of producing a result",
  "Inputs that cannot describe a lattice, model or request are refused with an exception: site relabellings that are not permutations, adjacency or phase matrices of wrong size, symmetry or values, linearly dependent lattice or periodicity vectors, periodicities incommensurate with the lattice, periodic directions one site wide, unknown modes, formats, dimensions or file extensions, coupling arrays of the wrong shape, null reflection vectors and inconsistent character tables. The same inputs, once corrected, are accepted.",
  "all ill-formed inputs of the listed kinds, each obtained by corrupting a generated valid input",
  "Tests barely exercise the error paths; which corruption slips through a validity check depends on where it sits in the input.",
  [G, B, F, S, Y, A, R], [("validation", G + ": Geometry.validate_instance, validate_adjacency_mat, validate_phase_mat, Lattice.validate_instance, constructors"), ("operator formats", B + ": get_single_site_op, get_two_site_op"),
                       ("couplings", F + ": __init__"), ("modes", A + ": fg_kspace_gfns, fg_density_response")],
  technique="Hypothesis mutation of generated valid inputs; the oracle is refusal of the mutant and acceptance of the original", note="only kinds of ill-formed input that the library checks for")

p("P07", "Point transformations and the site permutations derived from them are exact",
  "Rotations, reflections, inversions and translations act on coordinates as the stated isometries about the stated centre, to machine accuracy and with the correct sense. When a transformation is a symmetry of the geometry (modulo its periodicity) the derived site permutation maps each site to the site at the transformed position, its cycles partition the sites, and the reported order is the number of applications that first gives the identity; a map that does not send the sites onto themselves is refused.",
  "all geometries, centres, angles, directions, labellings, symmetric and non-symmetric maps",
  "Tests check a few rotations of small squares; errors of sense, centre or periodic wrap-around need other inputs.",
  [Y], [("maps", Y + ": getRotFn, getReflFn, getInversionFn, getTranslFn"), ("cycles", Y + ": findSiteCycles, getTransformedSites")],
  technique="Hypothesis generation against direct coordinate geometry", note="polygons, rectangles, tori, triangular and hexagonal tori, clusters with shuffled labels")

p("P08", "Symmetry operators represent site permutations faithfully, with particle statistics",
  "The operator built for a site permutation is unitary and moves every local operator to the permuted site (for fermions including the sign of reordering), fixes the vacuum, composes like the permutation and returns to the identity after the permutation's order. If the permutation is a symmetry of the couplings the operator commutes with the Hamiltonian, for any number of species and any spin.",
  "all permutations, system sizes, species, spins and symmetric couplings",
  "Tests check commutation for a few rotations; sign errors of fermion reordering appear only for particular cycles and fillings.",
  [B, F, S], [("operators", B + ": get_xform_op; " + F + " / " + S + ": get_swap_op, get_swap_up_down_op")],
  technique="Hypothesis generation; conjugation of local operators and group law", note="spaces up to 512 states")

p("P09", "Symmetry projectors split the space into sectors without loss or overlap",
  "For cyclic, two-translation, dihedral and 3x3-torus groups the projectors onto the symmetry sectors have orthonormal rows, are mutually orthogonal, together span the whole starting space (full or number-restricted), and every state of a sector transforms with the sector's character. Character tables are accepted exactly when they are a consistent table of a finite group.",
  "all group orders offered, reflections, systems, number sectors and corrupted tables",
  "Tests count a few sector dimensions; lost or mislabelled sectors need other groups and fillings.",
  [Y], [("projectors", Y + ": getZnProjectors, get2DTranslationProjectors, getD2Projectors ... getD7Projectors, get_symmetry_projectors, reduce_symm_projector, getC4V_and_3byb3"), ("tables", Y + ": validate_char_table")],
  technique="Hypothesis generation plus one exhaustive facet; independent projector formula", note="spaces up to 512 states")

p("P10", "Diagonalising sector by sector gives the full answer",
  "The union over symmetry sectors (translation, dihedral, number, or a combination) of the spectra of the projected Hamiltonian equals the spectrum of the unprojected Hamiltonian with multiplicity, and thermal expectation values combined over sectors equal those of the full problem at every temperature. The same holds for twisted boundaries when the symmetry includes the twist.",
  "all models, couplings, sector decompositions, temperatures and symmetric observables",
  "Tests compare a few spectra at fixed couplings; a wrong combination of sectors shows only at other temperatures, degeneracies or fillings.",
  [B, Y, F, S], [("sector spectra", B + ": diagH; " + Y + " projectors"), ("sector averages", B + ": thermal_avg_combine_sectors")],
  technique="Hypothesis generation; differential against the unprojected problem", note="spaces up to 256 states")

p("P11", "Operators on the many-body space obey the particle algebra",
  "Single-site operators act on their own site and species only, with the fermion sign of the documented ordering, and satisfy the canonical (anti)commutation relations exactly; products of operators on two sites equal the product of the single-site operators in the given order, and sums over sites (with or without a wave vector) equal the weighted sum of single-site operators. Logical index, site and species convert into one another consistently.",
  "all sites, pairs of sites, species, operators, formats and wave vectors",
  "Tests check the algebra of a few modes; ordering signs fail only for particular pairs and operator types.",
  [B, F], [("operators", B + ": get_single_site_op, get_two_site_op, get_sum_op, get_sum_op_q, get_swap_op"), ("index", B + ": spinful2spinlessIndex, spinless2spinfullIndex")],
  technique="Hypothesis generation against an independent Jordan-Wigner reference; exhaustive algebra up to 6 modes", note="up to 7 modes")

p("P12", "The fermion Hamiltonian is exactly the documented lattice model",
  "For any geometry and any hopping, interaction, chemical-potential and potential parameters (numbers, per-species lists or arrays) the Hamiltonian equals, term by term and with signs, hopping along bonds including twist phases, density-density interactions counted once per pair, and one-body potentials; it is Hermitian and each term is linear in its parameter. Without interactions its spectrum is the set of sums of single-particle energies.",
  "all geometries, twists, species, scalar and array parameters, number sectors",
  "Tests compare a few energies of the uniform Hubbard model; site-dependent, species-dependent and twisted couplings are not covered.",
  [F, B], [("assembly", F + ": __init__, createH, get_hopping_mat, get_kinetic_op, get_u_interspecies_op, get_u_samespecies_op, get_potential_op, get_chemical_pot_op"), ("sectors", B + ": projection")],
  technique="Hypothesis generation against an independent second-quantised reference", note="up to 8 modes")

p("P13", "Spin operators and the spin Hamiltonian are exactly the documented ones",
  "The spin matrices of every spin satisfy the angular-momentum algebra with the documented basis order; the Hamiltonian equals the documented sum of pair couplings (each pair once) and fields for any spin, geometry and scalar or site-dependent couplings, and site operators, pair operators, sums and correlations equal those built from the single-spin matrices. Van der Waals interaction matrices are symmetric with vanishing diagonal and equal the strength over the sixth power of the distance for every pair of different sites.",
  "all spins, geometries, couplings, fields and sites",
  "Tests check spin one-half chains with uniform couplings; other spins and inhomogeneous couplings are unexplored.",
  [S, B], [("matrices", S + ": spin operators"), ("hamiltonian", S + ": createH"), ("couplings", S + ": get_interaction_mat, get_interaction_mat_c6, get_field_mat, get_rydberg_detunes")],
  technique="Hypothesis generation against an independent Kronecker-product reference; exhaustive over spins up to 4", note="up to 81 states")

p("P14", "Number sectors partition the basis and Hamiltonians respect them",
  "The projector onto a set of particle numbers selects exactly the basis states with those numbers, each once and in basis order; sectors over all numbers partition the space with the combinatorial dimensions. A number-conserving operator built or projected in a sector equals the corresponding block, blocks between different sectors vanish, and projectors onto eigenspaces of a diagonal operator have orthonormal rows and recover its eigenvalues with multiplicity.",
  "all numbers of modes, species, (partial) number restrictions and diagonal operators",
  "Tests fix a few fillings; empty, full and per-species restrictions vary with size.",
  [F, B], [("number projectors", F + ": __init__ (n_projector)"), ("eigenspaces", B + ": get_subspace_projs")],
  technique="Hypothesis generation against direct enumeration of occupations", note="up to 7 modes")

p("P15", "Diagonalisation and evaluation of states are exact linear algebra",
  "Diagonalising a Hermitian matrix returns ascending real eigenvalues with orthonormal eigenvectors that solve the eigenvalue equation, for dense and sparse solvers alike. Norms, overlaps and expectation values of one or several states (dense or sparse, row or column) equal the defining inner products, and site- or pair-resolved expectation values are attached to the right sites.",
  "all Hermitian matrices (degenerate, shifted, real, integer), states and operators",
  "Tests use Hamiltonians of a few models; conjugation and shape errors vanish for real or single states.",
  [B], [("solver", B + ": diagH"), ("evaluation", B + ": get_exp_vals, get_overlaps, get_norms, get_matrix_elems, get_exp_vals_sites, get_corr_sites, get_thermal_exp_sites, get_thermal_corr_sites, get_subspace_overlaps")],
  technique="Hypothesis generation; validity predicate and direct linear algebra", note="dimension up to 24 for matrices, small lattices for sites")

p("P16", "Quench dynamics solves the Schroedinger equation",
  "Time-evolving an initial state under a Hamiltonian returns, at every requested time, the state exp(-i H t) psi: one state or several, one time or a list of them in any order (the times are returned as given). At time zero it is the initial state; norm, energy and conserved particle numbers are constant, successive evolutions compose and reversed time undoes an evolution. If only some eigenstates are supplied, the result is the evolved projection of the initial state on them.",
  "all Hermitian Hamiltonians, initial states, sets of times (negative, repeated, unsorted) and observables",
  "Tests barely evolve anything; phase and ordering errors need complex, degenerate or truncated cases.",
  [B], [("evolution", B + ": quench_time_evolve")],
  technique="Hypothesis generation against a dense matrix exponential", note="small dimensions, arbitrary times")

p("P17", "Thermal averages are Boltzmann averages",
  "For every temperature, including zero and very low or high ones, thermal expectation values, thermal weights and partition functions equal the Boltzmann sums over the spectrum, equal-weight over a degenerate ground space at zero temperature, without overflow and invariant under a common shift of energies. Combining symmetry sectors gives the same result whatever the split and order of sectors, from dense or sparse input.",
  "all spectra (degenerate, widely shifted), temperatures, observables and splits into sectors",
  "Tests use a few temperatures of one model; overflow, degeneracy and the zero-temperature limit are edge inputs.",
  [B], [("thermal", B + ": get_exp_vals_thermal, get_thermal_weights, thermal_avg_combine_sectors, get_partition_fn_hamiltonian, get_partition_fn_sectors")],
  technique="Hypothesis generation against log-sum-exp reference; metamorphic shifts and splits", note="energies up to hundreds of temperature units")

p("P18", "Response functions equal their spectral representation",
  "The retarded response computed from eigenvalues and matrix elements equals, at every frequency, temperature (zero included) and broadening, pi times the spectral (Lehmann) sum: real part of the product of matrix elements, Boltzmann weights of the two states with the minus (boson) or plus (fermion) sign, and a normalised Lorentzian at the transition energy; the time-ordered response of two operators A and B equals the sum over transitions m to n weighted with the initial state m, A_nm B_mn at the transition energy minus A_mn B_nm at its negative (at zero temperature the ground states, at the absolute value of the frequency). Neither depends on a common shift of the energies; the fermionic spectral function of adding or removing a particle integrates to one and is nowhere negative, and the bosonic response of a Hermitian operator is odd in frequency.",
  "all spectra, operators, frequencies, broadenings and temperatures",
  "Tests do not compare with a reference at finite temperature; weights and signs are invisible in the ground state of symmetric models.",
  [B], [("response", B + ": get_response_fn_retarded, get_response_fn_time_ordered")],
  technique="Hypothesis generation against the Lehmann sum; sum rules", note="dimension up to about 16")

p("P19", "Currents and conductivity satisfy charge conservation and the f-sum rule",
  "The current operator along any direction is Hermitian and equals i times the commutator of the Hamiltonian with the density-weighted position along that direction (on open lattices), or the corresponding sum over bonds with the hopping amplitudes including twist phases and the shortest bond vector (on periodic ones), for any hopping parameters and number of species. The kinetic operator of a direction contains each hopping term weighted by the extent of its bond along the direction, and all hopping terms when no direction is given. The optical conductivity equals its spectral sum per site at every frequency, temperature and broadening, and its integral over frequency equals the sum over transitions, which on open lattices is minus pi per site times the thermal average of the kinetic operator (f-sum rule).",
  "all geometries, directions, hopping parameters, twists, temperatures and frequencies",
  "Tests check current conservation in one ring; direction, phase and bond-length weights need other lattices.",
  [F, B], [("current", F + ": get_current_op, get_kinetic_op"), ("conductivity", F + ": get_optical_cond_fn, integrate_conductivity")],
  technique="Hypothesis generation; commutator identities, Lehmann oracle and sum rule", note="up to 6 modes")

p("P20", "Cluster enumeration is complete and free of duplicates",
  "Up to each order the cluster expansion enumerates every connected cluster of the lattice exactly once per class of equivalence (translations only, or also rotations and reflections), with a multiplicity equal to the number of distinct orientations, and groups them by number of sites. Growing a cluster by one site yields exactly its connected one-site extensions.",
  "all orders in reach, both equivalence notions, all starting clusters and lattice orientations",
  "Tests compare the counts of the first orders; a cluster replaced by a duplicate keeps the count.",
  [N], [("enumeration", N + ": get_all_clusters_with_subclusters, get_all_clusters, get_clusters_next_order, reduce_clusters_by_geometry")],
  technique="exhaustive and generated differential against an independent lattice-animal enumerator", note="up to 6 sites with symmetry, 5 without (7 and 6 in the thorough tier)")

p("P21", "Embedding counts of clusters in clusters and in the lattice are exact",
  "For every cluster the multiplicity of each smaller cluster equals the number of ways it occurs as a connected part of it, counted modulo the chosen equivalence, and per-site multiplicities on the infinite lattice equal the number of distinct orientations. Images of a cluster under the lattice symmetries are complete and distinct, and symmetry-related clusters receive identical multiplicities.",
  "all clusters within reach and both notions of equivalence",
  "Tests check tables of the smallest clusters; miscounts occur for particular shapes with or without symmetry.",
  [N], [("embedding", N + ": get_subclusters_next_order, get_all_subclusters, get_reduced_subclusters, reduce_clusters_by_geometry, map_between_cluster_bases, get_clusters_rel_by_symmetry")],
  technique="Hypothesis generation against brute-force subset counting", note="clusters up to 7 sites")

p("P22", "Linked-cluster weights and resummation reproduce exact sums",
  "Cluster weights equal the property of the cluster minus the multiplicity-weighted weights of all smaller clusters, so that summing back reproduces the property of every cluster exactly; extensive properties give vanishing weights beyond their range and expectation values per site equal the multiplicity-weighted partial sums at every order, for arrays of properties of any shape. Euler resummation is the documented linear combination of partial sums, leaves converged series unchanged and is linear in its input.",
  "all multiplicity structures, properties (scalars and arrays), orders and resummation starting orders",
  "Tests compare with published numbers at one temperature; subtraction errors that cancel there survive.",
  [N], [("weights", N + ": get_nlce_exp_val"), ("resummation", N + ": euler_resum")],
  technique="Hypothesis generation; algebraic reference, additivity and finite-cluster identities", note="lower-triangular multiplicity structures up to some tens of clusters and real cluster families")

p("P23", "Free Fermi gas thermodynamics equals the momentum sum",
  "Occupation factors and their derivatives equal the Fermi function at every temperature without overflow, the allowed momenta are the complete set of the periodic lattice, and density, compressibility, singly- and doubly-occupied fractions equal the momentum averages of the occupation (and its derivative); the density of states integrates to one. The chemical potential found for a density reproduces this density, and results for arrays of temperatures or chemical potentials equal the element-wise ones.",
  "all system sizes, temperatures, chemical potentials, densities and array shapes",
  "There are no tests of the free gas; particle-hole symmetric points hide most errors.",
  [A], [("thermodynamics", A + ": fermi, fermi_derivatives, fg_density, fg_mu, fg_compressibility, fg_singles, fg_doubles"), ("momenta", A + ": get_allowed_kvects, get_energy_spacing, get_dos, get_dos2")],
  technique="Hypothesis generation against direct momentum sums; round-trip density -> mu -> density", note="lattices up to some tens of sites per direction")

p("P24", "Free-gas correlators and responses obey Wick's theorem and the exact sums",
  "Free Green's functions (greater, lesser, retarded, advanced, time-ordered) in momentum and real space equal their definitions in terms of occupation factors and phases, with real space the Fourier sum of momentum space and the relations between the kinds satisfied at all times. Density, single-occupancy, double-occupancy and spin correlators equal Wick's theorem for the two independent species, and density and magnetic responses equal the momentum sum of occupation differences over energy differences, with the derivative limit when energies coincide.",
  "all sizes, temperatures, (unequal) chemical potentials, distances, times, momenta and frequencies",
  "There are no tests of the free gas; a wrong correlator agrees at distance zero, at half filling or at equal densities.",
  [A], [("gfns", A + ": fg_kspace_gfns, fg_realspace_gfn"), ("correlators", A + ": fg_corr, fg_singles_corr, fg_doubles_corr, fg_sz_corr, fg_sx_corr"), ("response", A + ": fg_density_response, fg_magnetic_response")],
  technique="Hypothesis generation against momentum sums and exact diagonalisation of small rings", note="rings and tori of small size")

p("P25", "Imaginary-time and Matsubara Green's functions are mutually consistent",
  "Matsubara frequencies are all odd (fermions) or even (bosons) multiples of pi over beta below the cutoff, sorted and symmetric. Imaginary-time and Matsubara Green's functions computed from a spectral function equal the integral with the thermal kernel, for kernels written in frequency or time, and the numerical transforms between time and frequency equal the stated quadrature or sum; for free particles the closed forms, the spectral function of total weight 2 pi and the transforms agree with one another.",
  "all temperatures, spectral functions, frequency and time grids, statistics",
  "There are no tests of these conversions.",
  [R], [("grids", R + ": get_matsubara_frqs"), ("kernels", R + ": get_grnfn_imagfrq_spectralfn, get_grnfn_imagtime_spectralfn, get_grnfn_imagfrq_spectralfn_kernel, get_grnfn_imagtime_spectralfn_kernel, get_noninteracting_*"), ("transforms", R + ": grnfn_imagtime_ft, grnfn_imagfrq_ft")],
  technique="Hypothesis generation against direct quadrature and closed forms", note="generated grids and spectral functions")

p("P26", "Hydrodynamic response and snap-off dynamics equal their formulas",
  "The hydrodynamic density response equals the diffusive form chi D(k) k^2 / (D(k) k^2 - i w - w^2 / gamma) with D(k) = D0 + D2 k^2, with or without a finite current relaxation rate gamma, element-wise over wave vectors and frequencies; it equals the static susceptibility at zero frequency (non-zero wave vector), vanishes at zero wave vector (non-zero frequency) and turns into its complex conjugate under reversal of frequency. The spectrum of a field switched off at time zero is h0 / (i w + eta), and the response function and the observable in real time equal the trapezoidal Fourier integrals over the given frequencies (of the response, or of response times field spectrum), at every time and linear in both.",
  "all wave vectors, frequencies, diffusion constants, relaxation rates, susceptibilities, fields and times",
  "There are no tests of these helpers.",
  [R], [("hydro", R + ": chi_hydro, field_snap_off_w, phi_t, obs_kt")],
  technique="Hypothesis generation against the closed forms; linearity", note="generated parameters and grids")

p("P27", "Calls do not disturb one another and saved results come back unchanged",
  "Computing any quantity leaves the public attributes of the system, its geometry, the constants shared by all systems and the arrays given as arguments as they were, so any sequence of calls gives the same results in any order and when repeated, and two systems never influence each other (even when they share a geometry, or a caller overwrites a result). Asking a call to print its progress or results changes nothing else. The same holds for the free functions on clusters, lattices, the free gas and Green's functions. Saving a system changes nothing; loading it from a pickle file returns the same attributes and the same Hamiltonian, and from a .mat file the same attributes and values up to array shape.",
  "all sequences of calls on a set of systems, and all saved systems",
  "Tests call each function once on a fresh object; hidden state and aliasing need sequences.",
  [B, F, S, G, N], [("state", B + ": ed_base attributes"), ("files", B + ": save/load")], over=("histories", "inputs"),
  technique="generated call histories compared with fresh-object results; save/load round trip", note="histories of up to about a dozen calls on two or more objects")

p("P28", "The batch cluster pipeline gives the same result as the direct calculation",
  "Running the cluster scripts step by step through files (generation, subclusters one index at a time, aggregation, diagonalisation one index at a time, final aggregation), in any order of the independent steps and with repeats, produces the same clusters, multiplicities, spectra-derived observables and expansion results as calling the library directly. Repeating a step does not change its output, generating clusters again leaves an existing cluster file alone, no step modifies its input file, results are attached to clusters by the number in the file name whatever the number of digits, and an incomplete set of subcluster files is refused. The plotting script shows the partial sums of the stored results and the resummed curves.",
  "all orders of independent steps, repeats and cluster orders in reach",
  "No test runs the scripts.",
  [C % "generate_clusters", C % "generate_clusters_no_subs", C % "find_subclusters", C % "aggregate_subclusters", C % "diag_cluster", C % "aggregate_results", C % "plot_results", N],
  [("steps", "cluster/*.py"), ("expansion", N + ": get_nlce_exp_val, map_between_cluster_bases")], over=("histories", "inputs"),
  technique="generated step orders and repeats; differential against the direct calculation", note="small expansion orders, scratch directory")

p("P29", "Basis labels and special states describe the actual basis",
  "The reported occupation (or spin pattern) and text label of every basis state agree with the eigenvalues of the number (or spin) operators in that state, also inside a number sector or other selection of basis states. Spin parities are those of the number of up spins, and the special states (all up, all down, the two antiferromagnetic patterns alternating along the site numbering, all plus, all minus, the symmetric single excitation) are normalised and are the states their names say.",
  "all system sizes, species, geometries and labellings",
  "Tests do not check labels or special states.",
  [F, S], [("labels", F + ": get_state_vects; " + S + ": get_state_vects, get_state_parity"), ("states", S + ": find_special_states")],
  technique="Hypothesis generation; cross-check with site operators", note="up to 9 modes, 10 spins")


def main():
    have = [q for q in P if os.path.exists(os.path.join(ROOT, "props", q["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in have:
            f.write(json.dumps({k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks = []
    for q in have:
        checks.append({"property": q["id"], "quick_cmd": "python3 run_check.py %s --tier quick" % q["id"],
                       "thorough_cmd": "python3 run_check.py %s --tier thorough" % q["id"],
                       "technique": "property-based testing: " + q["technique"], "level": "exploration",
                       "level_note": "Generated-input search: " + q["note"] + ". No proof of absence; assumptions of the generators are listed in the evidence file."})
    man = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "Every check drives the library in /repo (imported from its working tree) with Hypothesis; VERIF_SEED fixes all choices."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(have), "properties")


if __name__ == "__main__":
    main()
