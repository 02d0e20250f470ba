From bdae0a960c96ad72a58356fdc7ae54eb44fc146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:49 +0000
Subject: [PATCH 01/22] fix: count circuit nodes over all edges

The number of nodes was taken from the lexicographically largest edge, so
an element dictionary whose highest node only appears in a 'smaller' edge,
such as (0, 3) next to (1, 2), failed with an IndexError.
---
 SQcircuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 4baeb78..c594c54 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -296,7 +296,7 @@ class Circuit:
         self.loops: List[Loop] = []
 
         # number of nodes without ground
-        self.n: int = max(max(self.elements))
+        self.n: int = max(max(edge) for edge in self.elements)
 
         # number of branches that contain junctions without a parallel inductor.
         self.num_jun_without_ind: int = 0
-- 
2.43.0


From be38ff9d05c8add34bfe27ed53f360f57cde3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:49 +0000
Subject: [PATCH 02/22] fix: keep linearly independent columns in
 remove_dependent_columns

The singular values only give the rank of the matrix, not which of its
columns are independent.  Keeping the leading columns selected a dependent
set whenever two of them were dependent, and the flux distribution of a
valid circuit was rejected as disconnected.
---
 SQcircuit/functions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/SQcircuit/functions.py b/SQcircuit/functions.py
index e5d6258..a4dc45b 100755
--- a/SQcircuit/functions.py
+++ b/SQcircuit/functions.py
@@ -324,11 +324,12 @@ def remove_dependent_columns(matrix, tol=1e-5):
     # first remove the zero columns from the matrix
     no_zero_col_matrix = remove_zero_columns(matrix)
 
-    # Perform SVD
-    _, s, _ = np.linalg.svd(no_zero_col_matrix)
-
-    # Identify columns with singular values above tolerance
-    independent_columns = np.where(np.abs(s) > tol)[0]
+    # Identify columns which are independent of the columns before them
+    independent_columns = []
+    for i in range(no_zero_col_matrix.shape[1]):
+        candidate = no_zero_col_matrix[:, independent_columns + [i]]
+        if np.linalg.matrix_rank(candidate, tol=tol) == candidate.shape[1]:
+            independent_columns.append(i)
 
     # Reconstruct matrix with only independent columns
     reduced_matrix = no_zero_col_matrix[:, independent_columns]
-- 
2.43.0


From bd6b5945d3e37e79631bc8f91b95306a097da347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 03/22] fix: do not take numerical noise for coupling to charge
 modes

A junction whose branch does not couple to the charge modes has rows of
rounding errors there.  These rows were normalized and used as basis of the
charge modes, so that e.g. a floating fluxonium was coupled to its free
island and got a wrong spectrum.
---
 SQcircuit/circuit.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index c594c54..d135083 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -1063,6 +1063,14 @@ class Circuit:
             # charge part of the reduced w_mat
             w_charge = w_reduced_transformed[:, self.omega == 0].copy()
 
+            # rows of the junctions that do not couple to the charge modes only
+            # contain numerical noise
+            is_noise = (
+                np.linalg.norm(w_charge, axis=1) < ACC['Gram-Schmidt']
+                * np.linalg.norm(w_reduced_transformed, axis=1)
+            )
+            w_charge[is_noise, :] = 0
+
             # get the charge basis part of the wTrans matrix
             # w_charge = self.wTrans[:, self.omega == 0].copy()
 
@@ -1075,27 +1083,21 @@ class Circuit:
         # if we need to represent an operator in the charge basis
         if nq != 0 and self.num_jun_without_ind != 0:
 
-            # list of indices of w vectors that are independent
-            ind_lst = []
-
             # random vectors to complete the basis
             rnd_vecs = []
 
             # use Gram–Schmidt to find the linear independent rows of
-            # normalized w_charge (w_charge_norm)
-            basis = []
+            # normalized w_charge (w_charge_norm), and the list of their indices
+            ind_lst, basis = self._independent_rows(w_charge)
 
             while len(basis) != nq:
-                if len(basis) == 0:
-                    ind_lst, basis = self._independent_rows(w_charge)
-                else:
-                    # random vectors to complete the basis
-                    rnd_vecs = list(
-                        np.linalg.norm(w_charge, 'fro')
-                        * np.random.randn(nq - len(basis), nq)
-                    )
-                    completed_basis = np.array(basis + rnd_vecs)
-                    _, basis = self._independent_rows(completed_basis)
+                # random vectors to complete the basis
+                rnd_vecs = list(
+                    np.linalg.norm(w_reduced_transformed, 'fro')
+                    * np.random.randn(nq - len(basis), nq)
+                )
+                completed_basis = np.array(basis + rnd_vecs)
+                _, basis = self._independent_rows(completed_basis)
 
             # the second S and R matrix are:
             f_mat = np.array(list(w_charge[ind_lst, :]) + rnd_vecs)
-- 
2.43.0


From 0d179b7fb50fb9ddb8b000489ccf10444f62a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 04/22] fix: use the existing setter in
 Circuit.set_charge_noise

Charge has no setNoise method, so set_charge_noise always raised an
AttributeError.
---
 SQcircuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index d135083..023bbfc 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -1421,7 +1421,7 @@ class Circuit:
         if mode - 1 not in self.charge_islands:
             raise ValueError('The specified mode is not a charge mode.')
 
-        self.charge_islands[mode - 1].setNoise(amp)
+        self.charge_islands[mode - 1].set_noise(amp)
 
     def _get_op_dims(self) -> List[list]:
         """Return the operator dims related to ``Qutip.Qobj``."""
-- 
2.43.0


From 404b2c51f1330f20e10011432262ff130b471c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 05/22] fix: store sweep results at their grid point on
 multi-dimensional grids

Indexing the table with a tuple inside a tuple selects several columns of
the first grid axis, so sweeps over two or more parameters failed.
---
 SQcircuit/sweep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SQcircuit/sweep.py b/SQcircuit/sweep.py
index 753812d..51f517f 100755
--- a/SQcircuit/sweep.py
+++ b/SQcircuit/sweep.py
@@ -91,7 +91,7 @@ class Sweep(SQdata):
                 loops[i].set_flux(grid[i][ind])
 
             evec, _ = self.cr.diag(self.numEig)
-            self.efreq[:, indices] = evec.reshape(self.efreq[:, indices].shape)
+            self.efreq[(slice(None), *indices)] = evec
             if 'loss' in self.properties:
                 for dec_type in self.dec.keys():
                     self.dec[dec_type][indices] = \
@@ -131,7 +131,7 @@ class Sweep(SQdata):
                 self.cr.set_charge_offset(mode=modes[i], ng=grid[i][ind])
 
             evec, _ = self.cr.diag(self.numEig)
-            self.efreq[:, indices] = evec.reshape(self.efreq[:, indices].shape)
+            self.efreq[(slice(None), *indices)] = evec
             if 'loss' in self.properties:
                 for dec_type in self.dec.keys():
                     self.dec[dec_type][indices] = \
-- 
2.43.0


From 4f085f7070819b39d6add3befd214b21d201588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 06/22] fix: keep coordinate transformations aligned with the
 remaining modes

When uncoupled modes are removed, the columns of S and R belonging to them
have to go as well.  Otherwise the coupling operators, the external flux
terms of inductors, the gradients and composite systems combine the
operators of the remaining modes with coefficients of other modes.
---
 SQcircuit/circuit.py | 10 ++++++++--
 SQcircuit/systems.py |  5 +++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 023bbfc..e7289c6 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -853,6 +853,9 @@ class Circuit:
         self.n = self.n - len(unc_indices)
 
         # remove the uncoupled modes
+        self.S = np.delete(self.S, unc_indices, axis=1)
+        self.R = np.delete(self.R, unc_indices, axis=1)
+
         self.cInvTrans = np.delete(self.cInvTrans, unc_indices, axis=0)
         self.cInvTrans = np.delete(self.cInvTrans, unc_indices, axis=1)
 
@@ -1187,6 +1190,9 @@ class Circuit:
         # scaling the modes by third transformation
         self.S3, self.R3 = self._get_and_apply_transformation_3()
 
+        # complete transformations (including the modes that are removed later)
+        self._S_full, self._R_full = self.S, self.R
+
     def _compute_descrip_vars(self) -> None:
         """Compute parameters of transformed Hamiltonian to reduced number
         of significant figures and in the frequency units of ``SQcircuit``;
@@ -2140,9 +2146,9 @@ class Circuit:
         """
         var_type = var_type.lower()
         if var_type == 'charge':
-            return np.linalg.inv(self.R)
+            return np.linalg.inv(self._R_full)
         elif var_type == 'flux':
-            return np.linalg.inv(self.S)
+            return np.linalg.inv(self._S_full)
         else:
             raise ValueError("The input must be either 'charge' or 'flux'.")
 
diff --git a/SQcircuit/systems.py b/SQcircuit/systems.py
index 1321f17..fb46d76 100755
--- a/SQcircuit/systems.py
+++ b/SQcircuit/systems.py
@@ -73,7 +73,7 @@ class System:
         # number of sub-circuits (subsystems).
         self.n_sub = len(self.circuits)
 
-        # overall number of nodes
+        # overall number of modes
         self.n_N = sum([circ.n for circ in self.circuits])
 
         # truncation numbers for each sub-circuit which is the number of
@@ -122,7 +122,8 @@ class System:
         for circ in self.circuits:
             if circ == cr:
                 break
-            N += circ.n
+            # modes may have been removed, so circ.n is not the number of nodes.
+            N += circ.C.shape[0]
 
         return N+i-1
 
-- 
2.43.0


From f0001f47bc074f8a8ab1d830258219eea218c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 07/22] fix: let Circuit.update rebuild circuits with removed
 modes

update() kept the reduced number of modes, so rebuilding the matrices of a
circuit with uncoupled modes failed.  It also failed when no truncation
numbers had been set yet.
---
 SQcircuit/circuit.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index e7289c6..faf5ec5 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -296,7 +296,7 @@ class Circuit:
         self.loops: List[Loop] = []
 
         # number of nodes without ground
-        self.n: int = max(max(edge) for edge in self.elements)
+        self.n: int = self._get_num_nodes()
 
         # number of branches that contain junctions without a parallel inductor.
         self.num_jun_without_ind: int = 0
@@ -407,6 +407,9 @@ class Circuit:
 
         self._parameters = OrderedDict()
 
+        # start from all modes, uncoupled modes are removed again below.
+        self.n = self._get_num_nodes()
+
         self.C, self.L, self.W, self.B = self._get_LCWB()
         self.R, self.S = np.eye(self.n), np.eye(self.n)
         self.cInvTrans, self.lTrans, self.wTrans = (
@@ -417,6 +420,9 @@ class Circuit:
         self.omega = np.zeros(self.n)
         self._transform_hamil()
 
+        if self._is_junction_in_circuit() and get_optim_mode() == False:
+            self._update_nmodes_remove_uncoupled_modes()
+
         self._memory_ops: Dict[
             str, Union[List[Qobj], List[List[Qobj]], dict]
         ] = {
@@ -432,9 +438,10 @@ class Circuit:
             'ind_hamil': {},  # list of w^T*phi that appears in Hamiltonian
         }
 
-        self._build_op_memory()
-        self._LC_hamil = self._get_LC_hamil()
-        self._build_exp_ops()
+        if len(self.m) != 0:
+            self._build_op_memory()
+            self._LC_hamil = self._get_LC_hamil()
+            self._build_exp_ops()
 
         self._efreqs = sqf.array([])
         self._evecs = []
@@ -834,6 +841,11 @@ class Circuit:
 
         return c_mat, l_mat, w_mat, b_mat
 
+    def _get_num_nodes(self) -> int:
+        """Return the number of nodes of the circuit without ground."""
+
+        return max(max(edge) for edge in self.elements)
+
     def _get_uncoupled_indices(self) -> list:
         """Return the indices for the uncoupled mode as list"""
 
-- 
2.43.0


From 79f96e519cff799d0f2fb3a016b2621eed6ccdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 08/22] fix: copy shared elements and their capacitors once in
 safecopy

Capacitors of junctions and inductors were not replaced, so diagonalizing a
circuit which optimizes one of them failed with a KeyError.  An element
placed at several edges got independent copies that fell apart.
---
 SQcircuit/circuit.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index faf5ec5..25f459e 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -656,18 +656,27 @@ class Circuit:
             new_elements = defaultdict(list)
             for edge in self.elements:
                 for el in self.elements[edge]:
-                    new_el = copy(el)
-                    new_el.internal_value = el.internal_value.detach().clone()
-                    # Need to also replace loops associated with circuit
-                    # with the new copies.
+                    # The same element can be placed at multiple edges, and the
+                    # capacitor of an inductive element can be shared as well.
+                    for old_el in [el] + ([el.cap] if hasattr(el, 'cap') else []):
+                        if old_el in replacement_dict:
+                            continue
+                        new_el = copy(old_el)
+                        new_el.internal_value = (
+                            old_el.internal_value.detach().clone()
+                        )
+                        replacement_dict[old_el] = new_el
+
+                    new_el = replacement_dict[el]
+                    # Need to also replace loops and capacitor associated with
+                    # circuit with the new copies.
                     if hasattr(el, 'loops'):
                         new_loops = []
                         for loop in el.loops:
                             new_loops.append(replacement_dict[loop])
                         new_el.loops = new_loops
+                        new_el.cap = replacement_dict[el.cap]
                     new_elements[edge].append(new_el)
-
-                    replacement_dict[el] = new_el
             new_circuit.elements = new_elements
 
             # Replace the parameters dict with the copied elements
-- 
2.43.0


From 72ac3eb20a451786bff3fb2a42db453563ef2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 09/22] fix: make safecopy usable outside of the PyTorch engine

safecopy(save_eigs=True) detached NumPy arrays, and the description of a
copied circuit failed because its description variables were None.
---
 SQcircuit/circuit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 25f459e..85e6264 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -726,15 +726,17 @@ class Circuit:
 
         # Remove old eigenvectors/values, if desired
         if save_eigs:
-            new_circuit._efreqs = self._efreqs.detach().clone()
-            new_circuit._evecs = self._evecs.detach().clone()
+            # (outside of the PyTorch engine, covered by the deepcopy below)
+            if isinstance(self._evecs, Tensor):
+                new_circuit._efreqs = self._efreqs.detach().clone()
+                new_circuit._evecs = self._evecs.detach().clone()
         else:
             new_circuit._efreqs = sqf.array([])
             new_circuit._evecs = []
 
         # Delete the `.descrip_vars`, because bug in the `ExplicitSymbol` class
         # prevents native `deepcopy`ing.
-        new_circuit.descrip_vars = None
+        new_circuit.descrip_vars = {}
 
         # Deepcopy the whole thing, now that problematic attributes have been
         # explicitly taken care of.
-- 
2.43.0


From 2fb1fd8fad5f1540ccada4313e6067e2217b535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 10/22] fix: use the exact integer root in truncate_circuit

64 ** (1 / 3) is slightly smaller than 4 in floating-point numbers, so the
modes got one state less than the documented floor(K^(1/n)).
---
 SQcircuit/circuit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 85e6264..29698e4 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -2103,17 +2103,21 @@ class Circuit:
         if K < 1:
             raise ValueError('The total truncation number must be >=1.')
 
-        trunc_num_average = K ** (1 / len(self.omega))
-        charge_cutoff = (1 / 2) * (trunc_num_average + 1)
+        # largest integer with trunc_num**n <= K. (the floating-point root of a
+        # perfect power can be slightly smaller than the exact one)
+        trunc_num = int(np.round(K ** (1 / len(self.omega))))
+        if trunc_num ** len(self.omega) > K:
+            trunc_num -= 1
+        charge_cutoff = (trunc_num + 1) // 2
 
         trunc_nums = []
         for mode_idx in range(len(self.omega)):
             # Harmonic mode
             if self.omega[mode_idx] != 0:
-                trunc_nums.append(int(np.floor(trunc_num_average)))
+                trunc_nums.append(trunc_num)
             # Charge mode
             else:
-                trunc_nums.append(int(np.floor(charge_cutoff)))
+                trunc_nums.append(charge_cutoff)
 
         self.set_trunc_nums(trunc_nums)
         return trunc_nums
-- 
2.43.0


From 1afce9a675dee2c278f38dd57cbfd5c76adc9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 11/22] fix: transform the charge noise gradient to mode
 coordinates

The second derivative of the Hamiltonian with respect to gate charge and a
capacitor combined the mode charges with a matrix in node coordinates.
---
 SQcircuit/torch_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/torch_extensions.py b/SQcircuit/torch_extensions.py
index 4c918cd..f3d563e 100755
--- a/SQcircuit/torch_extensions.py
+++ b/SQcircuit/torch_extensions.py
@@ -482,7 +482,7 @@ def partial_squared_H_ng(
         return 0
 
     cInv = np.linalg.inv(sqf.to_numpy(cr.C))
-    A = cInv @ cr.partial_mats[grad_el] @ cInv
+    A = cr.R.T @ cInv @ cr.partial_mats[grad_el] @ cInv @ cr.R
 
     op = 0
     for j in range(cr.n):
-- 
2.43.0


From a1dd2652437a8b65f086387369c171a73f5714aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 12/22] fix: describe the coupling between different charge
 modes

The cross terms of the charging energy contained the charge operator of the
first mode twice.
---
 SQcircuit/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/symbolic.py b/SQcircuit/symbolic.py
index fde80de..4c52987 100755
--- a/SQcircuit/symbolic.py
+++ b/SQcircuit/symbolic.py
@@ -109,7 +109,7 @@ def charge_mode_hamil(coeff_dict, do_sum=True) -> Expr:
     hamil = 0
     for i in range(coeff_dict['har_dim'], coeff_dict['n_modes']):
         for j in range(i, coeff_dict['n_modes']):
-            hamil += EC(i+1,j+1) * (n(i+1) - ng(i+1)) * (n(i+1) - ng(j+1))
+            hamil += EC(i+1,j+1) * (n(i+1) - ng(i+1)) * (n(j+1) - ng(j+1))
 
     if do_sum:
         return hamil
-- 
2.43.0


From 0acedacdfedce271c562f5fcdb90ea0400ce0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 13/22] fix: use the charge number in the phase representation

Charge modes run from -(N-1) to N-1, but the plane waves were built from
the index of the state.
---
 SQcircuit/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 29698e4..5da73e0 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -2284,8 +2284,10 @@ class Circuit:
 
                 # For charge basis
                 if self._is_charge_mode(mode):
+                    # index 0 is the lowest charge state, -(N-1)
+                    charge = n - (self.m[mode] - 1) // 2
                     term *= 1 / np.sqrt(2 * np.pi) * np.exp(
-                        1j * phi_list[mode] * n)
+                        1j * phi_list[mode] * charge)
                 # For harmonic basis
                 else:
                     # compute in log-space due to large magnitude variation
-- 
2.43.0


From f0f0e28166f764408940430de1cb36716f375b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 14/22] fix: evaluate Fock states above 250 with the Hermite
 polynomial

The confluent hypergeometric function was used with wrong parameters and a
wrong sign, and is not accurate for these orders.  The Hermite polynomial is
accurate while it is finite, otherwise mpmath is used as before.
---
 SQcircuit/circuit.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 5da73e0..ff27e18 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -17,7 +17,7 @@ import mpmath
 from numpy import ndarray
 from qutip import Qobj
 from scipy.linalg import sqrtm, block_diag
-from scipy.special import eval_hermitenorm, hyperu
+from scipy.special import eval_hermitenorm
 from scipy.sparse.linalg import ArpackNoConvergence
 
 from torch import Tensor
@@ -2301,16 +2301,10 @@ class Circuit:
                         + 0.5 * np.log(unt.Phi0)
                     )
 
-                    if n < 250:
-                        term_hermitenorm = eval_hermitenorm(n, np.sqrt(2) * phi_list[mode] * unt.Phi0 / x0)
-                        term_hermite_signs = np.where(term_hermitenorm != 0, np.sign(term_hermitenorm), 0)
-                        term_hermitenorm_log = np.where(term_hermitenorm != 0, np.log(np.abs(term_hermitenorm)), 0)
-                    else:
-                        term_hyper = hyperu(-0.5 * n,
-                                            -0.5,
-                                            (phi_list[mode] * unt.Phi0 / x0)**2)
-                        term_hermite_signs = np.where(term_hyper != 0, np.power(np.sign(phi_list[mode]), n), 0)
-                        term_hermitenorm_log = np.where(term_hyper != 0, -(n/2) * np.log(2) * np.log(np.abs(term_hyper)), 0)
+                    # (not finite for large n, which is handled below)
+                    term_hermitenorm = eval_hermitenorm(n, np.sqrt(2) * phi_list[mode] * unt.Phi0 / x0)
+                    term_hermite_signs = np.where(term_hermitenorm != 0, np.sign(term_hermitenorm), 0)
+                    term_hermitenorm_log = np.where(term_hermitenorm != 0, np.log(np.abs(term_hermitenorm)), 0)
 
                     # Resort to mpmath library if vectorized SciPy code fails
                     if not np.all(np.isfinite(term_hermitenorm_log)):
-- 
2.43.0


From 5b49658a6e5785ba19d9c21cef97d6eaee3ab37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 15/22] fix: let coupling_op combine several modes with the
 PyTorch engine

Comparing a sparse tensor with zero is not supported, so coupling operators
and capacitive loss failed for circuits with more than one mode.
---
 SQcircuit/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index ff27e18..d0db4b6 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -2377,7 +2377,8 @@ class Circuit:
             return op
 
         def sp_add(a, b):
-            if a == 0:
+            # (operators can not be compared with numbers in general)
+            if isinstance(a, int):
                 return b
             return a + b
 
-- 
2.43.0


From eb4b645ebc28bfc162a151a8b3aa4b74978cf7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 16/22] fix: let get_partial_vec work with the NumPy engine

A Qobj can not be added to an ndarray.
---
 SQcircuit/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index d0db4b6..873b2f9 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -2935,7 +2935,7 @@ class Circuit:
         n_eig = len(self._evecs)
 
         partial_H = self._get_partial_H(el)
-        partial_state = sqf.zeros(state_m.shape)
+        partial_state = 0 * state_m
 
         for n in range(n_eig):
             if n == m:
@@ -2944,7 +2944,7 @@ class Circuit:
 
             delta_omega = sqf.to_numpy(self._efreqs[m] - self._efreqs[n])
 
-            partial_state += (
+            partial_state = partial_state + (
                 sqf.operator_inner_product(state_n, partial_H, state_m)
                 * state_n
                 / (delta_omega + epsilon)
-- 
2.43.0


From b33650c3593fdf8152caf7c8674512201c59b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 17/22] fix: allow diagonalizing for a single eigenvalue with
 PyTorch

Squeezing all dimensions of the eigenvectors also removed the one counting
the eigenvectors.
---
 SQcircuit/torch_extensions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SQcircuit/torch_extensions.py b/SQcircuit/torch_extensions.py
index f3d563e..c7cef8c 100755
--- a/SQcircuit/torch_extensions.py
+++ b/SQcircuit/torch_extensions.py
@@ -186,7 +186,9 @@ class EigenSolver(Function):
         eigenvector_tensors = [torch.as_tensor(eigenvector.full(),
                                                dtype=torch.complex128)
                                 for eigenvector in eigenvectors]
-        eigenvector_tensor = torch.squeeze(torch.stack(eigenvector_tensors))
+        eigenvector_tensor = torch.squeeze(
+            torch.stack(eigenvector_tensors), dim=-1
+        )
 
         # Setup context -- needs to be done after diagonalization so that
         # memory ops are filled
-- 
2.43.0


From 3c07097935dcaa18aff0eedce010eb6a6dc7961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 18/22] fix: normalize the noise amplitude in Loop.set_noise

The amplitude is stored in radians like the flux, as in the constructor.
---
 SQcircuit/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/elements.py b/SQcircuit/elements.py
index 3225924..c4867e4 100755
--- a/SQcircuit/elements.py
+++ b/SQcircuit/elements.py
@@ -672,7 +672,7 @@ class Loop(CircuitComponent):
         self.internal_value = value * 2 * np.pi
 
     def set_noise(self, A: float) -> None:
-        self.A = A
+        self.A = A * 2 * np.pi
 
     def add_index(self, index):
         self.indices.append(index)
-- 
2.43.0


From e2e6da610cef27ddb3897eac175a84f1dd6b8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:18 +0000
Subject: [PATCH 19/22] fix: record the capacitor of inductive elements for
 gradients

Derivatives with respect to the capacitor of a junction or inductor failed
outside of the PyTorch engine.
---
 SQcircuit/circuit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 873b2f9..f150252 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -169,10 +169,10 @@ class CircuitEdge:
 
                 if get_optim_mode():
                     self.circ.add_to_parameters(el.cap)
-                    if hasattr(el.cap, 'partial_mat'):
-                        self.circ.partial_mats[el.cap] += (
-                            el.cap.partial_mat(self.mat_rep)
-                        )
+
+                self.circ.partial_mats[el.cap] += (
+                    el.cap.partial_mat(self.mat_rep)
+                )
 
                 self.circ.elem_keys[el.type].append(
                     el.get_key(self.edge, b_id, w_id)
-- 
2.43.0


From e042c9b8a6cb47e5a9c44ebd350f44800c0f40b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:30 +0000
Subject: [PATCH 20/22] fix: systems with a circuit that keeps a single
 eigenstate

The product of two one-dimensional QuTiP operators is a number, which the
tensor product does not accept. Turn it back into an operator.
---
 SQcircuit/systems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SQcircuit/systems.py b/SQcircuit/systems.py
index fb46d76..3f32290 100755
--- a/SQcircuit/systems.py
+++ b/SQcircuit/systems.py
@@ -237,7 +237,9 @@ class System:
 
         # If both operators are in the same subsystems.
         if sub_idx_1 == sub_idx_2:
-            return self._op_in_sys(sqf.mat_mul(sub_op_1, sub_op_2), sub_idx_1)
+            # QuTiP returns a number for the product of one-dimensional operators.
+            sub_op = sqf.mat_to_op(sqf.mat_mul(sub_op_1, sub_op_2))
+            return self._op_in_sys(sub_op, sub_idx_1)
 
         op_list: List[Qobj] = []
 
-- 
2.43.0


From cc30e35b7cc1370109d089a48c79518cefc99745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:35 +0000
Subject: [PATCH 21/22] fix: keep the Hamiltonian of a composite system
 Hermitian

Charge operators of different modes of one circuit do not commute once they
are projected on a few eigenstates, so both orders of the product have to
enter the quadratic form.
---
 SQcircuit/systems.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/SQcircuit/systems.py b/SQcircuit/systems.py
index 3f32290..eaff658 100755
--- a/SQcircuit/systems.py
+++ b/SQcircuit/systems.py
@@ -289,10 +289,9 @@ class System:
 
         for i in range(self.n_N):
             for j in range(self.n_N):
-                if i == j:
-                    op += 0.5 * A[i, i] * self._QQ_op(i, j)
-                elif j > i:
-                    op += A[i, j] * self._QQ_op(i, j)
+                # both orders are needed, since charge operators of the same
+                # circuit do not commute in the truncated eigenbasis.
+                op += 0.5 * A[i, j] * self._QQ_op(i, j)
 
         return op
 
-- 
2.43.0


From fa71a35a81b2654191b57f4bc98c512fbffa9e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:08 +0000
Subject: [PATCH 22/22] fix: back-propagate dephasing rates in double precision

---
 SQcircuit/torch_extensions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/SQcircuit/torch_extensions.py b/SQcircuit/torch_extensions.py
index c7cef8c..9415725 100755
--- a/SQcircuit/torch_extensions.py
+++ b/SQcircuit/torch_extensions.py
@@ -647,7 +647,9 @@ class DecRateCharge(Function):
     @staticmethod
     @once_differentiable
     def backward(ctx, grad_output) -> Tuple[Tensor, None, None]:
-        output_grad = torch.zeros(len(ctx.circuit._parameters))
+        output_grad = torch.zeros(
+            len(ctx.circuit._parameters), dtype=torch.float64
+        )
 
         for idx, elem in enumerate(ctx.circuit._parameters.keys()):
             output_grad[idx] = grad_output * partial_charge_dec(
@@ -817,7 +819,9 @@ class DecRateCC(Function):
     @staticmethod
     @once_differentiable
     def backward(ctx, grad_output) -> Tuple[Tensor, None, None]:
-        output_grad = torch.zeros(len(ctx.circuit._parameters))
+        output_grad = torch.zeros(
+            len(ctx.circuit._parameters), dtype=torch.float64
+        )
 
         for idx, elem in enumerate(ctx.circuit._parameters.keys()):
             output_grad[idx] = grad_output * partial_cc_dec(
@@ -1006,7 +1010,9 @@ class DecRateFlux(Function):
     @staticmethod
     @once_differentiable
     def backward(ctx, grad_output) -> Tuple[Tensor, None, None]:
-        output_grad = torch.zeros(len(ctx.circuit._parameters))
+        output_grad = torch.zeros(
+            len(ctx.circuit._parameters), dtype=torch.float64
+        )
 
         for idx, elem in enumerate(ctx.circuit._parameters.keys()):
             output_grad[idx] = grad_output * partial_flux_dec(
-- 
2.43.0

