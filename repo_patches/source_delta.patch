From 8f7f98e01430b6bb78b1bf0e9761fd1a08062124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 01/51] fix: single-site operators have the right size when the
 local dimension is not two

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c8a5395..c2da356 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -339,7 +339,7 @@ class ed_base:
                 endmat = sp.kron(endmat, self.parity_op, format="coo")
             # TODO: can I generate this parity matrix without a loop? Would it be faster?
         elif format == "boson":
-            endmat = sp.eye(2 ** (n_logical_sites - site_index_logical - 1))
+            endmat = sp.eye(self.nbasis ** (n_logical_sites - site_index_logical - 1))
         else:
             raise Exception()
 
-- 
2.43.0


From e67eac969ebfac27df4ea6ad35c7fe6edaf47408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 02/51] fix: get_xform_op returns the identity operator for a
 trivial transformation

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c2da356..f3690a4 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -136,7 +136,7 @@ class ed_base:
         if print_results:
             tstart = perf_counter()
 
-        trans_op = 1
+        trans_op = sp.eye(self.nstates, format="csr")
         for cycle in cycles:
             if len(cycle) > 1:
                 # loop over species
-- 
2.43.0


From 9e124e27fbb4980611a48f38266ebf229e0cbedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 03/51] fix: get_norms accepts a single state vector

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index f3690a4..9a22347 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -562,7 +562,7 @@ class ed_base:
             tstart = perf_counter()
 
         if states.ndim == 1:
-            states = np.expand_dim(states, axis=1)
+            states = np.expand_dims(states, axis=1)
 
         if sp.issparse(states):
             states = states.tocsr()
-- 
2.43.0


From a1f2baf1880eb5ca8eb8f95ae82cc408c16fa1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 04/51] fix: partition function can be computed from a sparse
 Hamiltonian at finite temperature

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 9a22347..268605b 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -946,7 +946,7 @@ class ed_base:
         if beta == 0:
             return hamiltonian.shape[0]
         else:
-            return np.trace(expm(- beta * hamiltonian).toarray().real)
+            return np.trace(expm(- beta * sp.csr_matrix(hamiltonian).toarray()).real)
 
     def get_partition_fn_sectors(self,
                                  energies_sectors: list,
-- 
2.43.0


From 129000d2a2781662565a72272248f6d12d5fd2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 05/51] fix: retarded response function weights transitions by
 the initial-state population at finite temperature

---
 exact_diag/ed_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 268605b..b3f74e8 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1109,8 +1109,9 @@ class ed_base:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
             mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            thermal_mat_elem = mat_elem.dot(np.diag(np.exp(- beta * eig_vals)))
-            omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
+            # thermal weight of the nm-th term is exp(-beta * E_n) +/- exp(-beta * E_m)
+            thermal_mat_elem = np.multiply(mat_elem, np.exp(- beta * b) + factor * np.exp(- beta * a))
+            omega_fn = lambda wo, eta, es, amp: lor(wo + es, eta, amp)
 
         else:
             z = 1
-- 
2.43.0


From e435d81d5f4c7263c795fd5f43a45b36ed427cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 06/51] fix: twisted boundary phases are kept in the fermion
 hopping terms

---
 exact_diag/ed_fermions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 3af1943..076130d 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -238,7 +238,8 @@ class fermions(ed_base):
         if t.size == 1:
             t = t * np.ones(self.nspecies)
 
-        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies))
+        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies),
+                               dtype=np.result_type(t, self.geometry.phase_mat, float))
         for ii in range(0, self.nspecies):
             hopping_mat[:, :, ii] = t[ii] * np.multiply(self.geometry.adjacency_mat, self.geometry.phase_mat)
 
@@ -334,13 +335,15 @@ class fermions(ed_base):
                         for kk in range(0, self.nspecies):
                             # avoid calculating operators unless will be nonzero
                             if self.ts[ii, jj, kk] != 0:
-                                ke_op = ke_op + self.ts[ii, jj, kk] * sep_along_vector[ii, jj] * (
-                                        - projector * self.get_two_site_op(ii, kk, jj, kk,
+                                ke_op = ke_op + sep_along_vector[ii, jj] * (
+                                        - self.ts[ii, jj, kk] *
+                                          projector * self.get_two_site_op(ii, kk, jj, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
                                           projector.conj().transpose()
-                                        - projector * self.get_two_site_op(jj, kk, ii, kk,
+                                        - np.conj(self.ts[ii, jj, kk]) *
+                                          projector * self.get_two_site_op(jj, kk, ii, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
-- 
2.43.0


From 102b71852f2e2c26cba120bbebb122cedba60b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 07/51] fix: per-species potentials are applied to species, not
 to sites

---
 exact_diag/ed_fermions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 076130d..06651b7 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -124,7 +124,7 @@ class fermions(ed_base):
         elif potentials.size == self.nspecies:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
-                self.potentials[ii, :] = potentials[ii] * np.ones(self.geometry.nsites)
+                self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
         elif potentials.shape == (self.geometry.nsites, self.nspecies):
             self.potentials = potentials
         elif potentials.shape == (self.geometry.nsites,) and self.nspecies == 1:
-- 
2.43.0


From da87c31c0c48faee3988d58e8e82b0157b9e830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 08/51] fix: hopping energy of the Hamiltonian does not depend
 on bond orientation or length

---
 exact_diag/ed_fermions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 06651b7..880204b 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -289,8 +289,7 @@ class fermions(ed_base):
 
         haml = haml + self.get_u_interspecies_op(self.us_interspecies, projector=projector)
         haml = haml + self.get_u_samespecies_op(self.us_same_species, projector=projector)
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([1, 0]))
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([0, 1]))
+        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=None)
         haml = haml + self.get_chemical_pot_op(self.mus, projector=projector)
         haml = haml + self.get_potential_op(self.potentials, projector=projector)
 
@@ -307,7 +306,8 @@ class fermions(ed_base):
         Compute the kinetic energy operator for a specific hopping connection matrix
 
         :param projector:
-        :param direction_vect:
+        :param direction_vect: hopping terms are weighted by the separation of the two sites along this direction.
+          If None, use unit weights, i.e. get the full kinetic energy.
         :return:
         """
         # TODO: add option for kinetic energy along some arbitary direction
@@ -321,8 +321,11 @@ class fermions(ed_base):
 
         ke_op = sp.csr_matrix((nstates, nstates))
 
-        sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
-                                   np.square(direction_vect[1] * self.geometry.ydist_mat))
+        if direction_vect is None:
+            sep_along_vector = np.ones((n_physical_sites, n_physical_sites))
+        else:
+            sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
+                                       np.square(direction_vect[1] * self.geometry.ydist_mat))
         # hopping terms
         if n_physical_sites > 1:
 
-- 
2.43.0


From 8c83a917ade1a69b8538ec9fb90e8ad788d74633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 09/51] fix: current operator is built from the hopping matrix
 of the model

---
 exact_diag/ed_fermions.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 880204b..5fc62d5 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -496,28 +496,18 @@ class fermions(ed_base):
         # such a chain (ring) doesn't have a consistent notion of right vs. left (clockwise vs. counterclockwise)
 
         geom_obj = self.geometry
-        tx = self.tx
-        ty = self.ty
 
         direction_vector = np.reshape(np.asarray(direction_vector), [2])
 
-        current_op = 0
-        distance_component_x = geom_obj.xdist_mat * direction_vector[0]
-        distance_component_y = geom_obj.ydist_mat * direction_vector[1]
-        is_x_neighbor = np.round(np.abs(geom_obj.xdist_mat), 14) == 1
-        is_y_neighbor = np.round(np.abs(geom_obj.ydist_mat), 14) == 1
+        current_op = sp.csr_matrix((self.nstates, self.nstates))
+        distance_component = geom_obj.xdist_mat * direction_vector[0] + geom_obj.ydist_mat * direction_vector[1]
 
         for ii in range(0, geom_obj.nsites):
             for jj in range(0, geom_obj.nsites):
                 for kk in range(0, self.nspecies):
 
-                    if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = tx * distance_component_x[ii, jj] * \
-                                       self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
-                        current_op = current_op + link_current
-
-                    if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = ty * distance_component_y[ii, jj] * \
+                    if ii != jj and self.ts[ii, jj, kk] != 0:
+                        link_current = self.ts[ii, jj, kk] * distance_component[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0


From 33aace26b66da9d168e6560c06759d7b9cac36b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 10/51] fix: spin raising and lowering operators are not
 interchanged

---
 exact_diag/ed_spins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 5777798..68f6c39 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -82,7 +82,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin - 1, -spin - 1, -1)
-        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), -1)
+        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), 1)
 
     @staticmethod
     def get_sminus(spin):
@@ -93,7 +93,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin, -spin, -1)
-        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), 1)
+        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), -1)
 
     def get_sx(self,
                spin):
-- 
2.43.0


From ec4530c443c7fdd95603ed739a3a2ee2d4bc72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 11/51] fix: spin get_sum_op calls the base class method

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 68f6c39..a3e1c1e 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -448,7 +448,7 @@ class spinSystem(ed_base):
         :return: OpMat, sparse matrix
         """
         species_index = 0
-        return ed_base.ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
+        return ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
 
     def get_swap_up_down_op(self):
         """
-- 
2.43.0


From eb5c09f377244ce9e76119868f98268c6be654ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 12/51] fix: get_state_parity uses the current get_state_vects
 signature

---
 exact_diag/ed_spins.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index a3e1c1e..f06d4b2 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -217,8 +217,7 @@ class spinSystem(ed_base):
         """
         if print_results:
             tstart = perf_counter()
-        StateParity = np.mod(np.array(self.get_state_vects(self.geometry.nsites,
-                                                           2 ** self.geometry.nsites).sum(1)), 2)
+        StateParity = np.mod(np.array(self.get_state_vects().sum(1)), 2)
         if print_results:
             tend = perf_counter()
             print("get_state_parity took %0.2fs" % (tend - tstart))
-- 
2.43.0


From 0c11d8d5b791df650d1768f764be0a4444bfe959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 13/51] fix: second antiferromagnetic state is the spin-flipped
 partner of the first

---
 exact_diag/ed_spins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index f06d4b2..6fb6d87 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -372,11 +372,11 @@ class spinSystem(ed_base):
             # if Xsites is odd
             if NSites % 2:
                 # if nsites is odd
-                AFMState1Ind = (1 + NStates) / 3 - 1
+                AFMState1Ind = (1 + NStates) // 3 - 1
             else:
                 # if nsites is even
-                AFMState1Ind = (2 + NStates) / 3 - 1
-            AFMState2Ind = NStates - AFMState1Ind
+                AFMState1Ind = (2 + NStates) // 3 - 1
+            AFMState2Ind = NStates - 1 - AFMState1Ind
         else:
             print('AFM State finder not implemented for even number of sites in X-direction when using '
                   'conventional number, or not implemented for only a single site. Will return FM states instead')
-- 
2.43.0


From 79a730fcd774e25ecfa74972cfbe6a695fda31fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 14/51] fix: list of chain interaction strengths gives a
 symmetric interaction matrix

---
 exact_diag/ed_spins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 6fb6d87..11be5e8 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -155,8 +155,9 @@ class spinSystem(ed_base):
             if j.shape == (self.geometry.nsites, self.geometry.nsites):
                 j_mat = j
             elif j.size == self.geometry.nsites:
-                j_mat = np.diag(j[:-1], 1) + np.diag(j[-1], -1)
+                j_mat = np.diag(j[:-1], 1) + np.diag(j[:-1], -1)
                 j_mat[0, self.geometry.nsites - 1] = j[-1]
+                j_mat[self.geometry.nsites - 1, 0] = j[-1]
             else:
                 raise Exception('j should be nsites x nsites matrix or a list of size nsites')
         else:
-- 
2.43.0


From d4eed7570a5a31a67c7a6ffcc12b63c660bbb4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 15/51] fix: get_interaction_mat_c6 uses the distance matrices
 geometries actually have

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 11be5e8..c41bba8 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -135,7 +135,7 @@ class spinSystem(ed_base):
         :param cutoff_dist:
         :return:
         """
-        distmat = np.sqrt(self.geometry.site_distances_reduced_x ** 2 + self.geometry.site_distances_reduced_y ** 2)
+        distmat = np.sqrt(self.geometry.xdist_mat ** 2 + self.geometry.ydist_mat ** 2)
         jmat = np.zeros(distmat.shape)
         jmat[distmat != 0] = C6*np.power(np.reciprocal(distmat[distmat != 0]), 6)
         return jmat
-- 
2.43.0


From 0d8a96705519a50555e764c7c3b611f7a8a71208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 16/51] fix: spin swap operator works for any spin

---
 exact_diag/ed_spins.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index c41bba8..6b7dce2 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -472,7 +472,12 @@ class spinSystem(ed_base):
         :param species: Integer specifying species (should always be zero in this case)
         :return: Sparse matrix
         """
-        return self.get_two_site_op(site1, species, site2, species, self.pauli_plus, self.pauli_minus, format="boson") + \
-               self.get_two_site_op(site1, species, site2, species, self.pauli_minus, self.pauli_plus, format="boson") + \
-               0.5 * sp.eye(self.nstates) + \
-               0.5 * self.get_two_site_op(site1, species, site2, species, self.pauli_z, self.pauli_z, format="boson")
+        swap_op = sp.csr_matrix((self.nstates, self.nstates))
+        # swap = \sum_{a,b} |a><b| x |b><a|, which works for any number of local states
+        for aa in range(self.nbasis):
+            for bb in range(self.nbasis):
+                op_ab = np.zeros((self.nbasis, self.nbasis))
+                op_ab[aa, bb] = 1
+                swap_op = swap_op + self.get_two_site_op(site1, species, site2, species, op_ab, op_ab.transpose(),
+                                                         format="boson")
+        return swap_op
-- 
2.43.0


From d2e81bbc5f8ad1df6b200361bf67254043971710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:04 +0000
Subject: [PATCH 17/51] fix: reject periodicity vectors that are not
 commensurate with the lattice

---
 exact_diag/ed_geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index b66a3a1..dcb118f 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -876,16 +876,16 @@ class Lattice:
                                                 self.lattice_vect2,
                                                 self.periodicity_vect1[0, 0],
                                                 self.periodicity_vect1[1, 0],
-                                                mode='positive')
-        if not np.array_equiv(xred_p1, 0) and np.array_equiv(yred_p1, 0):
+                                                mode='centered')
+        if not (np.allclose(xred_p1, 0) and np.allclose(yred_p1, 0)):
             return False
 
         xred_p2, yred_p2, _, _ = reduce_vectors(self.lattice_vect1,
                                                 self.lattice_vect2,
                                                 self.periodicity_vect2[0, 0],
                                                 self.periodicity_vect2[1, 0],
-                                                mode='positive')
-        if not np.array_equiv(xred_p2, 0) and np.array_equiv(yred_p2, 0):
+                                                mode='centered')
+        if not (np.allclose(xred_p2, 0) and np.allclose(yred_p2, 0)):
             return False
 
         return True
-- 
2.43.0


From 3a38fae488a541cec4a44b5f800e2cf7319cdb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:04 +0000
Subject: [PATCH 18/51] fix: geometry comparison handles missing lattices and
 different phases

---
 exact_diag/ed_geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index dcb118f..91310af 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -630,6 +630,7 @@ class Geometry:
             np.array_equal(self.xdist_mat, other.xdist_mat) and \
             np.array_equal(self.ydist_mat, other.ydist_mat) and \
             np.array_equal(self.adjacency_mat, other.adjacency_mat) and \
+            np.array_equal(self.phase_mat, other.phase_mat) and \
             self.lattice == other.lattice:
             return True
         else:
@@ -934,6 +935,9 @@ class Lattice:
     # #################################
 
     def __eq__(self, other):
+        if not isinstance(other, Lattice):
+            return False
+
         if np.array_equal(self.lattice_vect1, other.lattice_vect1) and \
            np.array_equal(self.lattice_vect2, other.lattice_vect2) and \
            np.array_equal(self.periodicity_vect1, other.periodicity_vect1) and \
-- 
2.43.0


From cf0c26a27a682c47160e9a5a51aeb5e396974abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:04 +0000
Subject: [PATCH 19/51] fix: periodic distances on oblique cells are
 shortest-image distances

---
 exact_diag/ed_geometry.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 91310af..8ed4170 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -793,6 +793,10 @@ class Lattice:
                                    ylocs[ii] - ylocs[jj],
                                    mode='centered')
 
+                # if periodicity vectors are not orthogonal the centered representative may not be the shortest one
+                xdist_min[ii, jj], ydist_min[ii, jj] = \
+                    self.get_shortest_image(xdist_min[ii, jj], ydist_min[ii, jj])
+
                 _, _, latt_vect1_dist[ii, jj], latt_vect2_dist[ii, jj] = \
                     reduce_vectors(self.lattice_vect1,
                                    self.lattice_vect2,
@@ -807,6 +811,32 @@ class Lattice:
 
         return xdist_min, ydist_min, latt_vect1_dist, latt_vect2_dist
 
+    def get_shortest_image(self,
+                           xdist: float,
+                           ydist: float) -> (float, float):
+        """
+        Given a separation vector, find the shortest vector that differs from it by periodicity vectors. If the given
+        vector is one of several shortest vectors, it is returned unchanged.
+
+        :param xdist:
+        :param ydist:
+        :return: xdist_shortest, ydist_shortest
+        """
+        length = np.hypot(xdist, ydist)
+
+        # any shorter vector is less than n1_max, n2_max periodicity vectors away
+        n1_max = np.ceil(2 * length * np.linalg.norm(self.reciprocal_periodicity_vect1))
+        n2_max = np.ceil(2 * length * np.linalg.norm(self.reciprocal_periodicity_vect2))
+        n1s, n2s = np.meshgrid(np.arange(-n1_max, n1_max + 1), np.arange(-n2_max, n2_max + 1))
+        xs = xdist + n1s * self.periodicity_vect1[0, 0] + n2s * self.periodicity_vect2[0, 0]
+        ys = ydist + n1s * self.periodicity_vect1[1, 0] + n2s * self.periodicity_vect2[1, 0]
+        lengths = np.hypot(xs, ys)
+        ind = np.unravel_index(np.argmin(lengths), lengths.shape)
+
+        if lengths[ind] < length - 1e-10:
+            return xs[ind], ys[ind]
+        return xdist, ydist
+
     def get_phase_mat(self,
                       xdist_matrix,
                       ydist_matrix):
-- 
2.43.0


From 1e3f6b5f06393f0ff28c0ad8f773cd3fe1acb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:04 +0000
Subject: [PATCH 20/51] fix: transformation of a single site closes after one
 application

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 8f23332..4ff8602 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -186,7 +186,7 @@ def findSiteCycles(transform_fn,
     # find the number of transformations required to get us_interspecies back to our initial configuration
     # column k of trans_sites is the site labels after performing the transformation k-times
     trans_sites = sites[:, None]
-    current_sites = np.zeros(sites.shape)
+    current_sites = -np.ones(sites.shape)
     max_iter = nsites + 1
     ii = 0
     while not np.array_equal(current_sites, sites) and ii < max_iter:
-- 
2.43.0


From 86b3b5fef092a32712f0053858a2d73d0488dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:04 +0000
Subject: [PATCH 21/51] fix: order of the D7 conjugacy classes matches the
 character table

---
 exact_diag/ed_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 4ff8602..a5bb7de 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -645,8 +645,8 @@ def getD7Projectors(rot_op,
                     [refl_op, rot_op * refl_op, rot_op**2 * refl_op, rot_op**3 * refl_op,
                      rot_op**4 * refl_op, rot_op**5 * refl_op, rot_op**6 * refl_op],
                     [rot_op, rot_op ** 6],
-                    [rot_op**3, rot_op**4],
-                    [rot_op**2, rot_op**5]]
+                    [rot_op**2, rot_op**5],
+                    [rot_op**3, rot_op**4]]
 
     projs = get_symmetry_projectors(char_table, conj_classes, print_results=print_results)
 
-- 
2.43.0


From 546f575f5165374c6d30ff0687247ae480475ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:04 +0000
Subject: [PATCH 22/51] fix: subcluster multiplicities respect
 use_symmetry=False

---
 exact_diag/ed_nlce.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index bd03a80..fc3c1ec 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -143,7 +143,8 @@ def get_all_clusters_with_subclusters(max_order: int,
             print("cluster index = %d" % index)
         cluster = full_cluster_list[index]
         # get all sub clusters of each cluster
-        subclusters_list, subcluster_mult_mat, order_indices_subclusters = get_reduced_subclusters(cluster)
+        subclusters_list, subcluster_mult_mat, order_indices_subclusters = \
+            get_reduced_subclusters(cluster, use_symmetry=use_symmetry)
         cluster_reduction_mat = map_between_cluster_bases(full_cluster_list,
                                                           order_indices_full,
                                                           subclusters_list,
@@ -416,13 +417,15 @@ def reduce_clusters_by_geometry(cluster_orders_list,
 
 
 def get_reduced_subclusters(parent_geometry,
-                            print_progress: bool = False):
+                            print_progress: bool = False,
+                            use_symmetry: bool = True):
     """
     For a given parent geometry, produce all subclusters and the number of times each subcluster is contained in the
     parent
 
     :param parent_geometry:
     :param print_progress:
+    :param use_symmetry: If True, identify subclusters which are related by D4 symmetry
     :return cluster_list: a list of distinct sub clusters of the parent_geometry (including the parent geometry itself)
     :return sub_cluster_mat: a square matrix which gives the number of times cluster j can be embedded in cluster i, if
       cluster j is a proper sub-cluster of i (i.e. the diagonal of this matrix is zero).
@@ -434,7 +437,7 @@ def get_reduced_subclusters(parent_geometry,
 
     # get unique geometric clusters of each order and multiplicity
     clusters_geom_distinct, clusters_geom_multiplicity, cluster_reduction_mat = \
-        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=True)
+        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=use_symmetry)
     clusters_list = [g for h in clusters_geom_distinct for g in h]
 
     # indices
-- 
2.43.0


From 8d687f44b0b188efa490e1a0144c5eed9b1bb34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:12 +0000
Subject: [PATCH 23/51] fix: floating point noise no longer duplicates sites or
 drops bonds on triangular and hexagonal lattices

---
 exact_diag/ed_geometry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 8ed4170..2731acf 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -89,9 +89,9 @@ class Geometry:
             self.xdist_mat, self.ydist_mat, latt_vect1_sep, latt_vect2_sep = \
                 self.lattice.get_reduced_distance(self.xlocs, self.ylocs)
 
-            self.adjacency_mat = (np.round(np.sqrt(np.square(self.xdist_mat) +
-                                                   np.square(self.ydist_mat)),
-                                           self._round_decimals) == 1.).astype(float)
+            # distances carry floating point noise of more than 1e-14 for e.g. triangular lattices
+            self.adjacency_mat = (np.abs(np.sqrt(np.square(self.xdist_mat) +
+                                                 np.square(self.ydist_mat)) - 1.) < 1e-10).astype(float)
 
             self.phase_mat = self.lattice.get_phase_mat(self.xdist_mat, self.ydist_mat)
 
@@ -757,8 +757,10 @@ class Lattice:
                                                     mode='positive')
         xlocs_red = np.round(xlocs_red, self._round_decimals)
         ylocs_red = np.round(ylocs_red, self._round_decimals)
-        # eliminate duplicates
-        locs = np.unique(np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0), axis=1)
+        # eliminate duplicates, which may differ by floating point noise
+        locs = np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0)
+        _, unique_inds = np.unique(np.round(locs, 10), axis=1, return_index=True)
+        locs = locs[:, unique_inds]
         xlocs = locs[0, :]
         ylocs = locs[1, :]
         nsites = len(xlocs)
@@ -1098,8 +1100,8 @@ def reduce_vectors(vect1,
 
         proj2s = vect2.dot(vects)
 
-    proj1s = np.round(proj1s, 14)
-    proj2s = np.round(proj2s, 14)
+    proj1s = np.round(proj1s, 12)
+    proj2s = np.round(proj2s, 12)
 
     # TODO: add check of this!
     # expect proj1s * periodicity_vect1 + proj2s * periodicity_vect2 = vects
-- 
2.43.0


From 79fcd9eef94c1f641cb677b83b759070bf0edd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 24/51] fix: one dimensional density response uses the
 dispersion at the shifted momentum

---
 exact_diag/fermi_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index fca2774..e5fd740 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -588,7 +588,7 @@ def fg_density_response(beta,
         kxkx_shift = kxkx + k[0]
 
         # get energies
-        dispersion = lambda kx: -2 * np.cos(kxkx)
+        dispersion = lambda kx: -2 * np.cos(kx)
         es = dispersion(kxkx)
         es_q = dispersion(kxkx_shift)
 
-- 
2.43.0


From cce96bf97a06a1821f6875cb2394f4b87f0113bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 25/51] fix: density response treats energies which differ by
 round off as degenerate

---
 exact_diag/fermi_gas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index e5fd740..92622e2 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -611,9 +611,10 @@ def fg_density_response(beta,
     else:
         # this expression holds except where we have accidental degeneracies.
         chi_terms = np.divide(fermi(beta, mu, es) - fermi(beta, mu, es_q), omega + es - es_q + 1j * eta)
-        # at those points, use L'Hopital's rule to get finite value
+        # at those points, use L'Hopital's rule to get finite value. Degenerate energies may differ by round off error
         lim = -fermi_derivatives(beta, mu, es, eta=0.0)[0]
-        chi_terms[np.isnan(chi_terms)] = lim[np.isnan(chi_terms)]
+        degenerate = np.logical_and(np.abs(es - es_q) < 1e-8, np.abs(omega + 1j * eta) < 1e-8)
+        chi_terms[degenerate] = lim[degenerate]
         # sum them to get chi
         chi = np.sum(chi_terms) / kxkx.size
 
-- 
2.43.0


From 4855c7851c74f73df6177ec7972e07eff9e9195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 26/51] fix: get_dos2 uses a whole number of bins and a
 normalized density of states

---
 exact_diag/fermi_gas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 92622e2..12fa019 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -184,17 +184,15 @@ def get_dos2(nsites: int = 100,
     pts_per_bin = 2000
     de = pts_per_bin * emean
     # determine bin number from bin widths
-    nbins = np.floor((np.max(es) - np.min(es)) / de)
+    nbins = int(np.floor((np.max(es) - np.min(es)) / de))
     # ensure odd number of bins
     if nbins % 2 == 0:
         nbins = nbins + 1
     # bin edges and means
-    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins)
+    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins + 1)
     e_means = 0.5 * (e_bin_end_pts[1:] + e_bin_end_pts[:-1])
 
-    num_in_bin, _ = np.histogram(es.ravel(), e_bin_end_pts)
-
-    dos = np.divide(num_in_bin, de) / es.size
+    dos = get_dos(es, e_bin_end_pts)
 
     return dos, e_means
 
-- 
2.43.0


From 6f8393bbfe7ddb5fa2f5a9976e8b87d12bc02c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 27/51] fix: chemical potential of the free gas is found by a
 bracketing search

---
 exact_diag/fermi_gas.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 12fa019..757d1a6 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -2,7 +2,7 @@
 Compute properties of a one- or two-component non-interacting Fermi gas
 """
 import numpy as np
-from scipy.optimize import root_scalar, minimize
+from scipy.optimize import root_scalar
 from warnings import warn
 
 
@@ -427,8 +427,6 @@ def fg_mu(beta,
     :param dim:
     :return mu:
     """
-    # TODO: this still fails at T = 0 and low T near half-filling
-
     beta = np.asarray(beta)
     if beta.ndim == 0:
         beta = beta[None]
@@ -454,26 +452,18 @@ def fg_mu(beta,
 
             mu[coord] = fg_mu(beta[coord], density[coord], nsites, dim)
     else:
-        min_fn = lambda mu: np.abs(fg_density(beta, mu, nsites, dim) - density)
-        jacobian = lambda mu: fg_compressibility(beta, mu, nsites, dim)
-        jacobian_fsqr = lambda mu: 2 * min_fn(mu) * jacobian(mu)
-
-        # mu_guess = np.array([0.0])
-        # result = scipy.optimize.minimize(min_fn, mu_guess)
-        # mu = result.x
+        beta = beta.item()
+        density = density.item()
+        min_fn = lambda mu: float(np.squeeze(fg_density(beta, mu, nsites, dim) - density))
 
-        if density == 0.5:
+        if beta == 0 and density == 0.5:
             mu = 0
-        elif beta != np.inf:
-            # seems to work more robustly than scipy.optimize.minimize
-            # but fails at half-filling. jacobian_fsqr has a zero there...is that the reason?
-            fit_handle = root_scalar(jacobian_fsqr, x0=-0.1, x1=0.1)
-            mu = fit_handle.root
         else:
-            # jacobian_fsqr = -inf here, which is why this fials otherwise...
-            mu_guess = np.array([0.0])
-            result = minimize(min_fn, mu_guess)
-            mu = result.x
+            # density is monotonic in mu, and as all energies lie in [-4, 4] the chemical potential must be between
+            # the values which would give this density if all states were at one of these energies
+            mu_offset = np.log(density / (1 - density)) / beta
+            fit_handle = root_scalar(min_fn, bracket=[-5 + mu_offset, 5 + mu_offset])
+            mu = fit_handle.root
 
     return mu
 
-- 
2.43.0


From b307e9602c330568821dc496872be259c1ccd10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:13 +0000
Subject: [PATCH 28/51] fix: generate_clusters can be rerun on the file it
 wrote

---
 cluster/generate_clusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/generate_clusters.py b/cluster/generate_clusters.py
index bece71f..7355a22 100644
--- a/cluster/generate_clusters.py
+++ b/cluster/generate_clusters.py
@@ -10,7 +10,7 @@ def generate_clusters(fname_cluster_dat, max_cluster_order):
     if os.path.isfile(fname_cluster_dat):
         with open(fname_cluster_dat, 'rb') as f:
             data = pickle.load(f)
-        cluster_list = data[2]
+        cluster_list = data["cluster_list"]
         return len(cluster_list)
 
     # if data file doesn't already exist, we must generate the clusters and create the file
-- 
2.43.0


From 32fb2175c396d21759cbbfae8dd055f8b253c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:13 +0000
Subject: [PATCH 29/51] fix: diag_cluster uses the current name of the two-site
 operator method

---
 cluster/diag_cluster.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cluster/diag_cluster.py b/cluster/diag_cluster.py
index 04839d0..ca5e673 100644
--- a/cluster/diag_cluster.py
+++ b/cluster/diag_cluster.py
@@ -44,12 +44,13 @@ def diag_cluster(cluster_index,
         szsz_corrs[0, jj] = 0
         for aa in range(0, model.geometry.nsites):
             for bb in range(aa + 1, model.geometry.nsites):
-                szsz_op = model.getTwoSiteOp(aa,
-                                             bb,
-                                             model.geometry.nsites,
-                                             model.pauli_z,
-                                             model.pauli_z,
-                                             format="boson")
+                szsz_op = model.get_two_site_op(aa,
+                                                0,
+                                                bb,
+                                                0,
+                                                model.pauli_z,
+                                                model.pauli_z,
+                                                format="boson")
                 szsz_exp = model.get_exp_vals_thermal(eig_vects, szsz_op, eig_vals, T)
                 szsz_corrs[0, jj] = szsz_corrs[0, jj] + szsz_exp
 
-- 
2.43.0


From 7985f918461e675b535d13b9d03e35b8ccb89f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:13 +0000
Subject: [PATCH 30/51] fix: aggregate_results reads the cluster file the
 pipeline writes

---
 cluster/aggregate_results.py         | 10 +++++-----
 cluster/generate_clusters_no_subs.py |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 5c1e051..f218d6a 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -4,7 +4,7 @@ import pickle
 import numpy as np
 import re
 
-import ed_nlce
+from exact_diag import ed_nlce
 
 def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
 
@@ -49,10 +49,10 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
     with open(fname_cluster_dat, 'rb') as f:
         cluster_dat = pickle.load(f)
     max_cluster_order = cluster_dat[0]
-    cluster_multiplicities = cluster_dat[1]
-    clusters_list = cluster_dat[2]
-    sub_cluster_mult = cluster_dat[3]
-    order_start_indices = cluster_dat[4]
+    clusters_list = cluster_dat[1]
+    order_start_indices = cluster_dat[2]
+    cluster_multiplicities = cluster_dat[4]
+    sub_cluster_mult = cluster_dat[5]
 
     # NLCE
     energy_nlce, orders_energy, weight_energy = \
diff --git a/cluster/generate_clusters_no_subs.py b/cluster/generate_clusters_no_subs.py
index 96c322f..11154a4 100644
--- a/cluster/generate_clusters_no_subs.py
+++ b/cluster/generate_clusters_no_subs.py
@@ -20,7 +20,8 @@ def generate_clusters_no_subs(fname_cluster_dat,
     t_end = time.process_time()
 
     # save cluster data
-    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start]
+    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start,
+                     cluster_multiplicities[None, :]]
     with open(fname_cluster_dat, 'wb') as f:
         pickle.dump(data_clusters, f)
 
-- 
2.43.0


From 4aff7744c4970508f15fead367cad5ce646e6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 31/51] fix: number of second lattice vectors between two sites
 is antisymmetric

---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 2731acf..c13df47 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -809,7 +809,7 @@ class Lattice:
                 xdist_min[jj, ii] = - xdist_min[ii, jj]
                 ydist_min[jj, ii] = - ydist_min[ii, jj]
                 latt_vect1_dist[jj, ii] = - latt_vect1_dist[ii, jj]
-                latt_vect2_dist[jj, ii] = - -latt_vect2_dist[ii, jj]
+                latt_vect2_dist[jj, ii] = - latt_vect2_dist[ii, jj]
 
         return xdist_min, ydist_min, latt_vect1_dist, latt_vect2_dist
 
-- 
2.43.0


From aaecc6534c2eec84afceb84372470c48b992d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 32/51] fix: accept per-site and per-species coupling arrays
 for a single site

---
 exact_diag/ed_fermions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 5fc62d5..97f5d10 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -72,7 +72,7 @@ class fermions(ed_base):
         # tunneling
         ts = np.asarray(ts)
         if ts.size == self.nspecies or ts.size == 1:
-            self.ts = self.get_hopping_mat(ts)
+            self.ts = self.get_hopping_mat(ts.ravel())
         elif ts.shape == (self.geometry.nsites, self.geometry.nsites, self.nspecies):
             self.ts = ts
         elif ts.shape == (self.geometry.nsites, self.geometry.nsites) and self.nspecies == 1:
@@ -96,7 +96,7 @@ class fermions(ed_base):
         # interaction between same species
         us_same_species = np.asarray(us_same_species)
         if us_same_species.size == 1 or us_same_species.size == self.nspecies:
-            self.us_same_species = self.get_samespecies_int_mat(us_same_species)
+            self.us_same_species = self.get_samespecies_int_mat(us_same_species.ravel())
         elif us_same_species.shape == (self.geometry.nsites, self.geometry.nsites, self.nspecies):
             self.us_same_species = us_same_species
         elif us_same_species.shape == (self.geometry.nsites, self.geometry.nsites) and self.nspecies == 1:
@@ -124,7 +124,7 @@ class fermions(ed_base):
         elif potentials.size == self.nspecies:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
-                self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
+                self.potentials[:, ii] = potentials.ravel()[ii] * np.ones(self.geometry.nsites)
         elif potentials.shape == (self.geometry.nsites, self.nspecies):
             self.potentials = potentials
         elif potentials.shape == (self.geometry.nsites,) and self.nspecies == 1:
-- 
2.43.0


From 2c39f5b6059fdcdb877d964caf4862c95073c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 33/51] fix: conjugacy classes of the diagonal reflections of
 the 3x3 torus

---
 exact_diag/ed_symmetry.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index a5bb7de..99f6a78 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -688,7 +688,7 @@ def getC4V_and_3byb3(rot_op,
 
     C3 = {R^2, Tx^nTy^mR^2} (order=2, #=9)
 
-    C4 = {R*Refl, R^3*Refl, Tx*Ty^2*R*Refl, Tx^2*Ty*R*Refl, Tx*Ty*R^3*Refl, Tx^2*Ty^2*R^3*Refl} (order=2, #=6)
+    C4 = {R*Refl, R^3*Refl, Tx*Ty*R*Refl, Tx^2*Ty^2*R*Refl, Tx*Ty^2*R^3*Refl, Tx^2*Ty*R^3*Refl} (order=2, #=6)
 
     C5 = {R, R^3, Tx^n*Ty^m*R, Tx^n*Ty^m*R^3} (order=4, #=18)
 
@@ -697,13 +697,13 @@ def getC4V_and_3byb3(rot_op,
     C7 = {Tx^n*Ty^m*Refl except (n,m) = (0,0), (1,0) and (2,0)
           Tx^n*Ty^m*R^2*Refl except (n,m) = (0,0), (0,1), and (0, 2)} (order=6, #=12)
 
-    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,2) and (2, 1),
-          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,1) and (2,2)} (order=6, #=12)
+    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,1) and (2, 2),
+          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,2) and (2,1)} (order=6, #=12)
 
     C9 = {TxTy, Tx^2Ty, TxTy^2 Tx^2Ty^2} (order=3, #=4)
 
-    :param rot_op:
-    :param refl_op:
+    :param rot_op: counterclockwise fourfold rotation
+    :param refl_op: reflection about the y-axis
     :param tx_op:
     :param ty_op:
     :param print_results:
@@ -723,8 +723,8 @@ def getC4V_and_3byb3(rot_op,
     c4 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
           ty_op * rot_op**2 * refl_op, ty_op**2 * rot_op**2 * refl_op]
     c2 = [rot_op * refl_op, rot_op ** 3 * refl_op,
-          tx_op * ty_op ** 2 * rot_op * refl_op, tx_op ** 2 * ty_op * rot_op * refl_op,
-          tx_op * ty_op * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op ** 3 * refl_op]
+          tx_op * ty_op * rot_op * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op * refl_op,
+          tx_op * ty_op ** 2 * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op * rot_op ** 3 * refl_op]
 
     c3 = [rot_op**2, tx_op * rot_op**2, tx_op**2 * rot_op**2,
           ty_op * rot_op**2, ty_op**2 * rot_op**2, tx_op * ty_op * rot_op**2,
@@ -747,10 +747,10 @@ def getC4V_and_3byb3(rot_op,
           tx_op**2 * ty_op * rot_op**2 * refl_op, tx_op**2 * ty_op**2 * rot_op**2 * refl_op]
     c7 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
           ty_op * rot_op * refl_op, ty_op**2 * rot_op * refl_op,
-          tx_op * ty_op * rot_op * refl_op, tx_op**2 * ty_op**2 * rot_op * refl_op,
+          tx_op * ty_op**2 * rot_op * refl_op, tx_op**2 * ty_op * rot_op * refl_op,
           tx_op * rot_op**3 * refl_op, tx_op**2 * rot_op**3 * refl_op,
           ty_op * rot_op**3 * refl_op, ty_op**2 * rot_op**3 * refl_op,
-          tx_op * ty_op**2 * rot_op**3 * refl_op, tx_op**2 * ty_op * rot_op**3 * refl_op]
+          tx_op * ty_op * rot_op**3 * refl_op, tx_op**2 * ty_op**2 * rot_op**3 * refl_op]
 
     c9 = [tx_op, tx_op**2, ty_op, ty_op**2]
     c6 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
-- 
2.43.0


From abd5f0d3dfe5737d12e4afdb838b960493ec7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:25 +0000
Subject: [PATCH 34/51] fix: get_nlce_exp_val accepts expectation values with
 axes of length one

---
 exact_diag/ed_nlce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index fc3c1ec..e2a287b 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -549,7 +549,7 @@ def get_nlce_exp_val(exp_vals_clusters,
         # np.dot no longer works, as this sums over the last index of the first array, and the second to last index of
         # the second array. To sum over arbitrary axes, use np.tensordot
         weights[ii, ...] = exp_vals_clusters[ii, ...] - np.squeeze(
-            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0)))
+            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0)), axis=0)
 
     # exp_val_nlce[jj] = sub_cluster_multiplicity_mat[-1, :] * weights[:, jj] / nsites
     # exp_val_nlce = np.squeeze(np.tensordot(sub_cluster_multiplicity_mat[-1, :].toarray(),
@@ -561,7 +561,7 @@ def get_nlce_exp_val(exp_vals_clusters,
     nlce_orders = np.zeros(tuple(size))
     for ii in range(0, len(order_start_indices) - 1):
         nlce_orders[ii, ...] = np.squeeze(np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
-                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))) / nsites
+                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0)), axis=0) / nsites
 
     return exp_val_nlce, nlce_orders, weights
 
-- 
2.43.0


From 014d6740a7ce941d07de77d1e5678d697c1a0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:29 +0000
Subject: [PATCH 35/51] fix: systems with attributes which are None can be
 saved as .mat files

---
 exact_diag/ed_base.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index b3f74e8..e0e3269 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1220,7 +1220,22 @@ class ed_base:
         _, ext = os.path.splitext(file_name)
 
         if ext == '.mat':
-            savemat(file_name, self.__dict__)
+            # .mat files have no equivalent of None, so it is stored as an empty array
+            def none2empty(val):
+                if val is None:
+                    return np.zeros((0, 0))
+                elif isinstance(val, dict):
+                    return {k: none2empty(v) for k, v in val.items()}
+                elif isinstance(val, np.ndarray) and val.dtype == object:
+                    cells = np.empty(val.size, dtype=object)
+                    for ii, v in enumerate(val.ravel()):
+                        cells[ii] = none2empty(v)
+                    return cells.reshape(val.shape)
+                elif hasattr(val, '__dict__') and not sp.issparse(val):
+                    return none2empty(val.__dict__)
+                return val
+
+            savemat(file_name, none2empty(self.__dict__))
         elif ext == '.pkl':
             with open(file_name, 'wb') as output:
                 # TODO implement savesparse. What does that mean?
-- 
2.43.0


From 5054bf8ce4ffba887a177e860adcd2cdbdd13858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:45 +0000
Subject: [PATCH 36/51] fix: get_reciprocal_vects refuses parallel vectors also
 when rounding hides that they are parallel

---
 exact_diag/ed_geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index c13df47..e9a6048 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -1005,6 +1005,9 @@ def get_reciprocal_vects(vect1,
     if not np.array_equal(vect1, np.zeros((2, 1))) and not np.array_equal(vect2, np.zeros((2, 1))):
         A_mat = np.concatenate([vect1.transpose(), vect2.transpose()], 0)
         try:
+            # the determinant of parallel vectors may differ from zero by rounding
+            if abs(np.linalg.det(A_mat)) <= 1e-12 * np.linalg.norm(vect1) * np.linalg.norm(vect2):
+                raise np.linalg.LinAlgError('singular matrix')
             inv_a = np.linalg.inv(A_mat)
             reciprocal_vect1 = inv_a[:, 0][:, None]
             reciprocal_vect2 = inv_a[:, 1][:, None]
-- 
2.43.0


From adf2059e6449564b4807da6a5ec6e81391bac4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 37/51] fix: free imaginary time Green's function is accurate
 for levels deep below the Fermi energy

---
 exact_diag/greens_fns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index edc360d..b00dd05 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -260,8 +260,10 @@ def get_noninteracting_gfn_tau(taus,
 
     if format == "fermion":
         fermi_fn = np.divide(1, 1 + np.exp(beta * epsilon_k))
+        # 1 - fermi_fn, but accurate also if it is much smaller than one
+        hole_fn = np.divide(1, 1 + np.exp(-beta * epsilon_k))
         # TODO: should I enforce one of the heaviside functions to be 1 at \tau = 0 ?
-        greens_fn = - np.exp(-epsilon_k * taus) * ((1 - fermi_fn) * np.heaviside(taus, 0) -
+        greens_fn = - np.exp(-epsilon_k * taus) * (hole_fn * np.heaviside(taus, 0) -
                                                    fermi_fn * np.heaviside(-1 * taus, 0))
     elif format == "bosone":
         raise Exception("TODO: noninteracting boson green's function calculation not implemented yet")
-- 
2.43.0


From 8884c455aad7b8ac70ea6cab14043ea88ff91253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 38/51] fix: conductivity at low temperature does not overflow
 and keeps all transitions

---
 exact_diag/ed_fermions.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 97f5d10..d38a9b7 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -551,13 +551,13 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            weight = np.divide(1 - np.exp(- beta * omegas), omegas)
+            # exp(-beta * E_n) * (1 - exp(-beta * (E_m - E_n))), written such that nothing overflows at low temperature
+            weight = np.divide(np.exp(- beta * a) - np.exp(- beta * b), omegas)
             weight[omegas == 0] = 0
-            # multiply each column by the appropriate exponentail factor and weight. Then sum over everything.
-            # think of n as columns, n as rows
+            # multiply each element by the appropriate weight. Then sum over everything.
+            # think of n as columns, m as rows
             sigma_re_two_sided_int = np.pi / z / nsites * \
-                                     np.sum(np.sum(np.multiply(np.square(np.abs(current_matrix_elems)).dot(
-                                         np.diag(np.exp(- beta * eig_vals))), weight)))
+                                     np.sum(np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight)))
 
         else:
             # period_start = 0, only need to sum over one set of states
@@ -607,7 +607,10 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            thermal_mat_elem = np.square(np.abs(current_matrix_elems)).dot(np.diag(np.exp(- beta * eig_vals)))
+            # thermal weight exp(-beta * E_n) * (1 - exp(-beta * (E_m - E_n))), with n columns and m rows, written such
+            # that nothing overflows at low temperature
+            thermal_mat_elem = np.multiply(np.square(np.abs(current_matrix_elems)),
+                                           np.exp(- beta * a) - np.exp(- beta * b))
             omegas = omegas[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             thermal_mat_elem = thermal_mat_elem[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             # there is some ambiguity in how to define this function. In particular,
@@ -618,9 +621,7 @@ class fermions(ed_base):
             # get rid of these elements, because this is zero (and we shouldn't evaluate omega_start = 0).
             # If we put both as e_m-e_n, then we get a nan, which is also removed later.
             # But we should not put them both as omega_start, because???
-            omega_fn = lambda wo, eta, w, amp: np.divide(np.multiply(1 - np.exp(-beta * w),
-                                                                     lor(wo, eta, w, amp)),
-                                                         wo)
+            omega_fn = lambda wo, eta, w, amp: np.divide(lor(wo, eta, w, amp), wo)
 
         else:
             z = 1
-- 
2.43.0


From 45d04780a6a5575a454fc33fce5e25133f2ab61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 39/51] fix: conductivity ignores transitions between levels
 which are degenerate up to rounding

---
 exact_diag/ed_fermions.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index d38a9b7..f7d78e4 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -542,6 +542,8 @@ class fermions(ed_base):
 
         temperature = float(temperature)
         nsites = self.geometry.nsites
+        # levels closer than this are degenerate up to rounding
+        min_omega = 1e-12 * np.max(np.abs(eig_vals))
 
         if temperature != 0:
 
@@ -553,7 +555,7 @@ class fermions(ed_base):
 
             # exp(-beta * E_n) * (1 - exp(-beta * (E_m - E_n))), written such that nothing overflows at low temperature
             weight = np.divide(np.exp(- beta * a) - np.exp(- beta * b), omegas)
-            weight[omegas == 0] = 0
+            weight[np.abs(omegas) <= min_omega] = 0
             # multiply each element by the appropriate weight. Then sum over everything.
             # think of n as columns, m as rows
             sigma_re_two_sided_int = np.pi / z / nsites * \
@@ -564,7 +566,7 @@ class fermions(ed_base):
             omegas = eig_vals - eig_vals[0]
             # omegas[omegas == 0] = 1e9
             weight = np.divide(1, omegas)
-            weight[omegas == 0] = 0
+            weight[np.abs(omegas) <= min_omega] = 0
             current_matrix_elems = current_matrix_elems[:, 0]
             # we are effectively doing the one-sided integral, therefore we need to multiply this by 2
             sigma_one_sided_int = np.pi / nsites * np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight))
@@ -599,6 +601,8 @@ class fermions(ed_base):
         # expected to need a factor of 1/pi here to normalize lorentzian area to 1
         lor = lambda wo, eta, w, amp: (amp * eta / np.pi) / (eta ** 2 + np.square(w - wo))
         temperature = float(temperature)
+        # levels closer than this are degenerate up to rounding
+        min_omega = 1e-12 * np.max(np.abs(eig_vals))
         eig_vals = eig_vals - eig_vals[0]
 
         if temperature != 0:
@@ -627,12 +631,11 @@ class fermions(ed_base):
             z = 1
             omegas = eig_vals
             thermal_mat_elem = np.square(np.abs(current_matrix_elems[:, 0]))
-            omegas = omegas[np.abs(current_matrix_elems[:, 0]) > 10 ** -16].flatten()
-            thermal_mat_elem = thermal_mat_elem[np.abs(current_matrix_elems[:, 0]) > 10 ** -16].flatten()
-            # need to turn infs into nans to more easily get rid of
-            omega_fn = lambda wo, eta, w, amp: np.multiply(np.divide(lor(np.abs(wo), eta, w, amp),
-                                                                     w),
-                                                           1 - np.isinf(1/w))
+            # transitions between degenerate states do not contribute
+            to_use = np.logical_and(np.abs(current_matrix_elems[:, 0]) > 10 ** -16, np.abs(omegas) > min_omega)
+            omegas = omegas[to_use].flatten()
+            thermal_mat_elem = thermal_mat_elem[to_use].flatten()
+            omega_fn = lambda wo, eta, w, amp: np.divide(lor(np.abs(wo), eta, w, amp), w)
 
         opt_cond_fn = lambda wo, eta: np.pi / z / self.geometry.nsites * np.nansum(omega_fn(wo,
                                                                                             eta,
-- 
2.43.0


From 0e107f3103f82ac3c87392c83c246fc96e614f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:37 +0000
Subject: [PATCH 40/51] fix: get_overlaps returns an array also if both
 collections of states are sparse

---
 exact_diag/ed_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index e0e3269..7d5e7a2 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -535,6 +535,8 @@ class ed_base:
         if sp.issparse(states1):
             states1 = states1.tocsc()
             overlaps = sp.csr_matrix.dot(states1.conj().transpose(), states2)
+            if sp.issparse(overlaps):
+                overlaps = overlaps.toarray()
 
         elif sp.issparse(states2):
             states2 = states2.tocsc()
-- 
2.43.0


From 821d58b50e40294c6957b4f272229980d36f56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 41/51] fix: degenerate ground states are recognised at zero
 temperature also if energies are large

---
 exact_diag/ed_base.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 7d5e7a2..cb9fd31 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -890,7 +890,8 @@ class ed_base:
     def get_thermal_weights(self,
                             energies,
                             temps,
-                            use_energies_offset: bool = False):
+                            use_energies_offset: bool = False,
+                            energy_scale: float = None):
         """
         Get partition function and thermal weights for a set of energies at given temperature.
         The probability have a having a given state is then thermal_weight / Z.
@@ -900,6 +901,8 @@ class ed_base:
         :param temps: temperatures at which to compute thermal weights
         :param use_energies_offset: if 1 will first shift the lowest energy eigenvalue to occur at zero. Otherwise,
           will not
+        :param energy_scale: largest absolute value of the energies before any shift was applied to them. This sets the
+          accuracy to which degenerate energies agree. If None, will determine this from energies
         :return:
         """
 
@@ -908,11 +911,15 @@ class ed_base:
         energies = np.asarray(energies)
         temps = np.asarray(temps)
 
+        if energy_scale is None:
+            energy_scale = np.max(np.abs(energies), initial=0.)
+
         if temps.size > 1:
             thermal_weights = np.zeros((energies.size, temps.size))
             z = np.zeros(temps.size)
             for ii in range(0, temps.size):
-                thermal_weights[:, ii], z[ii] = self.get_thermal_weights(energies, temps[ii], use_energies_offset)
+                thermal_weights[:, ii], z[ii] = self.get_thermal_weights(energies, temps[ii], use_energies_offset,
+                                                                              energy_scale)
 
         else:
             if use_energies_offset:
@@ -926,8 +933,8 @@ class ed_base:
 
             else:
                 # zero temperature
-                # Check for degenerate states
-                nstates = len(energies[np.round(energies, 13) == 0])
+                # Check for degenerate states. These only agree up to rounding errors, which grow with the energies
+                nstates = len(energies[np.abs(energies) <= max(5e-14, 1e-12 * energy_scale)])
                 thermal_weights = np.zeros(energies.size)
                 thermal_weights[0:nstates] = 1.
                 z = float(nstates)
@@ -995,8 +1002,10 @@ class ed_base:
             # else:
             #     z_sectors[:] = np.array([np.sum(np.exp(-(ev - eigs_all[0]) / temp)) for ev in energies_sectors])
 
+            energy_scale = np.max(np.abs(eigs_all))
             for ii, e_sector in enumerate(energies_sectors):
-                _, z_sectors[ii] = self.get_thermal_weights(e_sector - min_eig, temp, use_energies_offset=False)
+                _, z_sectors[ii] = self.get_thermal_weights(e_sector - min_eig, temp, use_energies_offset=False,
+                                                            energy_scale=energy_scale)
 
         return z_sectors
 
-- 
2.43.0


From 210e8f4f57a2855aaa838f0efe1753884a428fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:16 +0000
Subject: [PATCH 42/51] fix: grnfn_imagtime_ft keeps tau = beta whatever the
 digits of beta

---
 exact_diag/greens_fns.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index b00dd05..884e7ab 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -197,11 +197,13 @@ def grnfn_imagtime_ft(matsubara_frqs,
     if not np.any(np.round(np.abs(taus - beta), 14) == 0):
         warn('tau = beta was not supplied to grnfn_imagtime_ft.')
 
-    if np.round(taus, 14).max() > beta or np.round(taus, 14).min() < 0:
+    # times in units of beta, where rounding errors have a definite size
+    taus_rel = np.round(taus / beta, 12)
+    if taus_rel.max() > 1 or taus_rel.min() < 0:
         warn('taus supplied to grnfn_imagtime_ft contained values smaller than 0 or'
              ' larger than beta. Those values will be ignored in the calculation',
              RuntimeWarning)
-        indices_to_use = np.logical_and(np.round(taus, 14) >= 0, np.round(taus, 14) <= beta)
+        indices_to_use = np.logical_and(taus_rel >= 0, taus_rel <= 1)
         grn_fn_imagtime = grn_fn_imagtime[indices_to_use]
         taus = taus[indices_to_use]
 
-- 
2.43.0


From 260490439d5bcfd8a03872c0bcc29b18cc9d3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:50 +0000
Subject: [PATCH 43/51] fix: top_alternating sorts and alternates the sites of
 every row also if rows are not integers apart

---
 exact_diag/ed_geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index e9a6048..683ed61 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -398,7 +398,9 @@ class Geometry:
             # For lattice where periodicity respects A and B sublattices, this should
             # order the sites so that every other number is on a different sublattice.
             # This is helpful because it makes identifying some states easier
-            sorted_indices = np.lexsort((self.xlocs * np.power(-1., self.ylocs - np.max(self.ylocs)), -self.ylocs))
+            # number rows from the top. Their coordinates need not be integers, and may carry floating point noise
+            _, rows = np.unique(np.round(-self.ylocs, 10), return_inverse=True)
+            sorted_indices = np.lexsort((self.xlocs * np.power(-1., rows), rows))
         elif sorting_mode == 'top_left':
             # put sites in order top-to-bottom, then left-to-right
             # sort on largest-y (smallest -y), then sort on smallest-x
-- 
2.43.0


From a0d699faf38446c876a3942faa5718b530b0b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:58 +0000
Subject: [PATCH 44/51] fix: response functions and conductivity at zero
 temperature average over degenerate ground states

---
 exact_diag/ed_base.py     | 23 +++++++++++++++--------
 exact_diag/ed_fermions.py | 20 +++++++++++++-------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index cb9fd31..5c5b307 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1112,6 +1112,8 @@ class ed_base:
         # expected to need a factor of 1/pi here to normalize lorentzian area to 1
         def lor(w, eta, amp): return (amp * eta / np.pi) / (eta ** 2 + np.square(w))
         temperature = float(temperature)
+        _, ngnd = self.get_thermal_weights(eig_vals, 0., use_energies_offset=True)
+        ngnd = int(ngnd)  # number of degenerate ground states
         eig_vals = eig_vals - eig_vals[0]
 
         [a, b] = np.meshgrid(eig_vals, eig_vals)
@@ -1125,15 +1127,17 @@ class ed_base:
             omega_fn = lambda wo, eta, es, amp: lor(wo + es, eta, amp)
 
         else:
-            z = 1
+            # average over ground states if they are degenerate
+            z = ngnd
             # for period_start = 0, we have two terms, corresponding to |n> = |0> and |m> = |0>
             # one of these terms gives all of the positive frequency information (i.e. delta(\omega_start - E_n + E_o))
             # and the other gives all of the negative frequency information
             # the positive frequency term has matrix element factor A_{0n}B_{n0}, and the negative frequency term
             # has A_{n0}B_{0n}
-            omegas = np.concatenate((-eig_vals, eig_vals))
-            thermal_mat_elem = np.concatenate((np.multiply(a_matrix_elems[0, :], b_matrix_elems[:, 0]),
-                                               factor * np.multiply(a_matrix_elems[:, 0], b_matrix_elems[0, :])))
+            omegas = np.concatenate((np.tile(-eig_vals, ngnd), np.tile(eig_vals, ngnd)))
+            thermal_mat_elem = np.concatenate(
+                (np.multiply(a_matrix_elems[:ngnd, :], b_matrix_elems[:, :ngnd].transpose()).flatten(),
+                 factor * np.multiply(a_matrix_elems[:, :ngnd].transpose(), b_matrix_elems[:ngnd, :]).flatten()))
             omega_fn = lambda wo, eta, es, amp: lor(wo + es, eta, amp)
 
         max_imag = np.abs(thermal_mat_elem.imag).max()
@@ -1176,6 +1180,8 @@ class ed_base:
         # expected to need a factor of 1/pi here to normalize lorentzian area to 1
         def lor(wo, eta, w, amp): return (amp * eta / np.pi) / (eta ** 2 + np.square(w - wo))
         temperature = float(temperature)
+        _, ngnd = self.get_thermal_weights(eig_vals, 0., use_energies_offset=True)
+        ngnd = int(ngnd)  # number of degenerate ground states
         eig_vals = eig_vals - eig_vals[0]
 
         if temperature != 0:
@@ -1196,10 +1202,11 @@ class ed_base:
             omega_fn = lambda wo, eta, w, amp: lor(wo, eta, w, amp)
 
         else:
-            z = 1
-            omegas = eig_vals
-            thermal_mat_elem_a = np.multiply(a_matrix_elems[:, 0], b_matrix_elems[0, :])
-            thermal_mat_elem_b = np.multiply(a_matrix_elems[0, :], b_matrix_elems[:, 0])
+            # average over ground states if they are degenerate
+            z = ngnd
+            omegas = np.tile(eig_vals, ngnd)
+            thermal_mat_elem_a = np.multiply(a_matrix_elems[:, :ngnd].transpose(), b_matrix_elems[:ngnd, :])
+            thermal_mat_elem_b = np.multiply(a_matrix_elems[:ngnd, :], b_matrix_elems[:, :ngnd].transpose())
             thermal_mat_elem_a = thermal_mat_elem_a.flatten()
             thermal_mat_elem_b = thermal_mat_elem_b.flatten()
 
diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index f7d78e4..58a5243 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -562,14 +562,16 @@ class fermions(ed_base):
                                      np.sum(np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight)))
 
         else:
-            # period_start = 0, only need to sum over one set of states
+            # period_start = 0, only need to sum over one set of states, the (possibly degenerate) ground states
+            _, z = self.get_thermal_weights(eig_vals, temperature, use_energies_offset=True)
             omegas = eig_vals - eig_vals[0]
             # omegas[omegas == 0] = 1e9
             weight = np.divide(1, omegas)
             weight[np.abs(omegas) <= min_omega] = 0
-            current_matrix_elems = current_matrix_elems[:, 0]
+            current_matrix_elems = current_matrix_elems[:, :int(z)]
             # we are effectively doing the one-sided integral, therefore we need to multiply this by 2
-            sigma_one_sided_int = np.pi / nsites * np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight))
+            sigma_one_sided_int = np.pi / z / nsites * \
+                                  np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight[:, None]))
             sigma_re_two_sided_int = 2 * sigma_one_sided_int
 
         if print_results:
@@ -603,6 +605,8 @@ class fermions(ed_base):
         temperature = float(temperature)
         # levels closer than this are degenerate up to rounding
         min_omega = 1e-12 * np.max(np.abs(eig_vals))
+        _, ngnd = self.get_thermal_weights(eig_vals, 0., use_energies_offset=True)
+        ngnd = int(ngnd)  # number of degenerate ground states
         eig_vals = eig_vals - eig_vals[0]
 
         if temperature != 0:
@@ -628,11 +632,13 @@ class fermions(ed_base):
             omega_fn = lambda wo, eta, w, amp: np.divide(lor(wo, eta, w, amp), wo)
 
         else:
-            z = 1
-            omegas = eig_vals
-            thermal_mat_elem = np.square(np.abs(current_matrix_elems[:, 0]))
+            # average over ground states if they are degenerate
+            z = ngnd
+            current_matrix_elems = current_matrix_elems[:, :ngnd]
+            omegas = np.repeat(eig_vals[:, None], ngnd, axis=1)
+            thermal_mat_elem = np.square(np.abs(current_matrix_elems))
             # transitions between degenerate states do not contribute
-            to_use = np.logical_and(np.abs(current_matrix_elems[:, 0]) > 10 ** -16, np.abs(omegas) > min_omega)
+            to_use = np.logical_and(np.abs(current_matrix_elems) > 10 ** -16, np.abs(omegas) > min_omega)
             omegas = omegas[to_use].flatten()
             thermal_mat_elem = thermal_mat_elem[to_use].flatten()
             omega_fn = lambda wo, eta, w, amp: np.divide(lor(np.abs(wo), eta, w, amp), w)
-- 
2.43.0


From 996105cf9ea095638a812c09b76d82e8106b02f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 45/51] fix: chi_hydro is zero, not nan, at zero wave vector

---
 exact_diag/greens_fns.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index 884e7ab..75a1e81 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -334,12 +334,12 @@ def chi_hydro(ws,
     :param gamma:
     :return:
     """
+    # do not divide by the diffusion rate, which is zero at k = 0
+    rate = d0 * k ** 2 + d2 * k ** 4
     if gamma != np.inf:
-        chi = np.divide(chi0,
-                        1. - 1j * ws / (d0 * k ** 2 + d2 * k ** 4) -
-                        ws ** 2 / (gamma * (d0 * k ** 2 + d2 * k ** 4)))
+        chi = np.divide(chi0 * rate, rate - 1j * ws - ws ** 2 / gamma)
     else:
-        chi = np.divide(chi0, 1. - 1j * ws / (d0 * k ** 2 + d2 * k ** 4))
+        chi = np.divide(chi0 * rate, rate - 1j * ws)
 
     return chi
 
-- 
2.43.0


From 124d3658a07d36ad2647e41a4f374292364b5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 46/51] fix: top_left and bottom_right keep sites of a row
 together also if their coordinates carry floating point noise

---
 exact_diag/ed_geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 683ed61..58d7b12 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -404,10 +404,11 @@ class Geometry:
         elif sorting_mode == 'top_left':
             # put sites in order top-to-bottom, then left-to-right
             # sort on largest-y (smallest -y), then sort on smallest-x
-            sorted_indices = np.lexsort((self.xlocs, -self.ylocs))
+            # sites are in the same row also if their coordinates differ by floating point noise
+            sorted_indices = np.lexsort((self.xlocs, -np.round(self.ylocs, 10)))
         elif sorting_mode == 'bottom_right':
             # put sites in order bottom-to-top, then left-to-right
-            sorted_indices = np.lexsort((self.xlocs, self.ylocs))
+            sorted_indices = np.lexsort((self.xlocs, np.round(self.ylocs, 10)))
         elif sorting_mode == 'adjacency':
             # sort sites by number of adjacent sites
             # if sites have the same number of adjacent sites, sort by how many sites can be reach in k steps for
-- 
2.43.0


From 62f23405e3ae20902dbeb412d46502f7d4084a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 47/51] fix: adjacency sorting mode sorts by the number of
 adjacent sites first, as documented

---
 exact_diag/ed_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 58d7b12..4cc825b 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -422,7 +422,8 @@ class Geometry:
                 adjacency_order_n.append(np.sum(adj_mat_powers[ii], 1))
                 adjacency_test_n[:, ii] = np.sum(adj_mat_powers[ii], 1)
 
-            sorted_indices = np.lexsort(tuple(adjacency_order_n))
+            # lexsort takes the most significant key last
+            sorted_indices = np.lexsort(tuple(adjacency_order_n[::-1]))
 
             # however, if two sites are equivalent under a symmetry operation, this process does not distinguish them.
             # It doesn't matter which site we select first, but we need to choose the next site in some way based on
-- 
2.43.0


From 233cb1b4bb4dd7a25ac944b5aa586cd01820f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:40 +0000
Subject: [PATCH 48/51] fix: sites of cells with long, nearly parallel
 periodicity vectors are no longer duplicated by rounding noise

---
 exact_diag/ed_geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 4cc825b..85150a9 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -1107,8 +1107,9 @@ def reduce_vectors(vect1,
 
         proj2s = vect2.dot(vects)
 
-    proj1s = np.round(proj1s, 12)
-    proj2s = np.round(proj2s, 12)
+    # floating point noise is amplified if the periodicity vectors are long and nearly parallel
+    proj1s = np.round(proj1s, 10)
+    proj2s = np.round(proj2s, 10)
 
     # TODO: add check of this!
     # expect proj1s * periodicity_vect1 + proj2s * periodicity_vect2 = vects
-- 
2.43.0


From 155fb0867c68e87d5f69bdd73309816a039693b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:40 +0000
Subject: [PATCH 49/51] fix: lattice sites which differ by rounding noise only
 are recognised as the same site in any unit of length

---
 exact_diag/ed_geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 85150a9..5444e8a 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -765,6 +765,9 @@ class Lattice:
         locs = np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0)
         _, unique_inds = np.unique(np.round(locs, 10), axis=1, return_index=True)
         locs = locs[:, unique_inds]
+        dists = np.hypot(locs[0, :, None] - locs[0, None, :], locs[1, :, None] - locs[1, None, :])
+        dist_tol = 1e-8 * max(np.linalg.norm(self.lattice_vect1), np.linalg.norm(self.lattice_vect2))
+        locs = locs[:, np.logical_not(np.any(np.tril(dists < dist_tol, -1), axis=1))]
         xlocs = locs[0, :]
         ylocs = locs[1, :]
         nsites = len(xlocs)
-- 
2.43.0


From 655faca545390efb6f7c19ed1b5ec16d0690c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:58 +0000
Subject: [PATCH 50/51] fix: keep the imaginary part of projectors of higher
 dimensional representations

reduce_symm_projector collected the rows in a real matrix, so that operators with complex
entries gave projectors without their imaginary part.
---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 99f6a78..965417e 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -289,7 +289,7 @@ def reduce_symm_projector(p_full,
 
         # construct reduced projector matrix
         # maximum rank, but real rank can be less than this
-        p_red = sp.lil_matrix((p_full.shape))
+        p_red = sp.lil_matrix(p_full.shape, dtype=p_full.dtype)
         p_row_counter = 0
         inv_counter = 0
 
-- 
2.43.0


From 89dfbd7b806920b54e50cb4310d8635dab03120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:16 +0000
Subject: [PATCH 51/51] fix: imaginary time functions at low temperature

The exponentials of the thermal kernels and of the noninteracting function overflow on their own
at large beta, which gave nan, although their quotient or product is finite.
---
 exact_diag/greens_fns.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index 75a1e81..d6dc7d4 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -103,8 +103,11 @@ def get_grnfn_imagtime_spectralfn(taus,
     else:
         raise Exception("format must be boson or fermion, but was %s" % format)
 
-    integrand = np.divide(np.multiply(spectral_fn_expanded, np.exp(- np.multiply(omegas_expanded, tau_expanded))),
-                                      1 + factor * np.exp(- beta * omegas_expanded))
+    # e^(-w*tau) / (1 +/- e^(-beta*w)), written such that no exponential overflows if 0 <= tau <= beta
+    tau_expanded = np.where(omegas_expanded < 0, beta - tau_expanded, tau_expanded)
+    spectral_fn_expanded = np.where(omegas_expanded < 0, factor, 1.0) * spectral_fn_expanded
+    integrand = np.divide(np.multiply(spectral_fn_expanded, np.exp(- np.multiply(np.abs(omegas_expanded), tau_expanded))),
+                                      1 + factor * np.exp(- beta * np.abs(omegas_expanded)))
     # a = np.divide(np.exp(-omegas_expanded * tau_expanded), 1 + factor * np.exp(- beta * omegas_expanded))
     gfn_imag_time = -np.trapz(integrand, omegas_expanded, axis=1) / (2 * np.pi)
 
@@ -170,8 +173,11 @@ def get_grnfn_imagtime_spectralfn_kernel(taus,
     # normalization
     norm_factor = - 1 / (2*np.pi)
     # full kernel
-    kernel = norm_factor * np.divide(np.exp(- omegas_expanded * tau_expanded),
-                                     1 + factor * np.exp(-beta * omegas_expanded)) * frq_diffs
+    # e^(-w*tau) / (1 +/- e^(-beta*w)), written such that no exponential overflows if 0 <= tau <= beta
+    tau_expanded = np.where(omegas_expanded < 0, beta - tau_expanded, tau_expanded)
+    norm_factor = np.where(omegas_expanded < 0, factor, 1.0) * norm_factor
+    kernel = norm_factor * np.divide(np.exp(- np.abs(omegas_expanded) * tau_expanded),
+                                     1 + factor * np.exp(-beta * np.abs(omegas_expanded))) * frq_diffs
 
     return kernel
 
@@ -261,12 +267,11 @@ def get_noninteracting_gfn_tau(taus,
     """
 
     if format == "fermion":
-        fermi_fn = np.divide(1, 1 + np.exp(beta * epsilon_k))
-        # 1 - fermi_fn, but accurate also if it is much smaller than one
-        hole_fn = np.divide(1, 1 + np.exp(-beta * epsilon_k))
+        # -e^(-e*tau) * (1 - f) for tau > 0 and e^(-e*tau) * f for tau < 0, where f is the Fermi function.
+        # The exponentials are combined, because each of them may overflow on its own.
         # TODO: should I enforce one of the heaviside functions to be 1 at \tau = 0 ?
-        greens_fn = - np.exp(-epsilon_k * taus) * (hole_fn * np.heaviside(taus, 0) -
-                                                   fermi_fn * np.heaviside(-1 * taus, 0))
+        sign = np.sign(taus)
+        greens_fn = - sign * np.exp(-epsilon_k * taus - np.logaddexp(0, -sign * beta * epsilon_k))
     elif format == "bosone":
         raise Exception("TODO: noninteracting boson green's function calculation not implemented yet")
     else:
-- 
2.43.0

