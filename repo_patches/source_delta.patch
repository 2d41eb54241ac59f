From 1021b1bd2182b24c6044e03409ce9085379a42ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 01/24] fix: raise the ValueError for inconsistent numbers of
 operators and labels

---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5e6dfa8..d86a735 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -123,7 +123,7 @@ class OperatorString:
         self.op_type           = op_type
 
         if len(self.orbital_operators) != len(self.orbital_labels):
-            ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
+            raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
         self.prefactor = prefactor
 
-- 
2.43.0


From 78a622da189469a9a275d02de50515d14633d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 02/24] fix: compute the prefactor of a Majorana string also
 when an imaginary one is passed

---
 qosy/operatorstring.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index d86a735..5280022 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -146,6 +146,8 @@ class OperatorString:
             num_swaps_to_reorder = (num_ab*(num_ab-1))/2
             if num_swaps_to_reorder % 2 == 1:
                 self.prefactor = 1j
+            elif self.prefactor == 1j:
+                self.prefactor = 1.0
 
         if (self.op_type == 'Pauli' and self.prefactor != 1) \
            or (self.op_type == 'Majorana' and self.prefactor not in [1, 1j]) \
-- 
2.43.0


From b1e5d9cf3a1b3c65537ad4ee5851ed76e36f34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 03/24] fix: give equal prefactors the same name and hash in an
 OperatorString

---
 qosy/operatorstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5280022..7b93ddc 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -153,7 +153,11 @@ class OperatorString:
            or (self.op_type == 'Majorana' and self.prefactor not in [1, 1j]) \
            or (self.op_type == 'Fermion' and self.prefactor not in [1, 1j]):
             raise ValueError('Invalid prefactor {} for operator string of op_type {}'.format(self.prefactor, self.op_type))
-                 
+
+        # Store equal prefactors, such as 1, 1.0, and (1+0j), in the same
+        # way, so that equal OperatorStrings have equal names and hashes.
+        self.prefactor = 1j if self.prefactor == 1j else 1.0
+
         name_list = [str(self.prefactor),' ']
         for (op, la) in zip(self.orbital_operators, self.orbital_labels):
             name_list.extend([op, ' ', str(la), ' '])
-- 
2.43.0


From 77e9ee252361497442ecf3871f42397d159a0e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 04/24] fix: compare prefactors when checking equality of
 OperatorStrings

---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 7b93ddc..db4b0c4 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -215,7 +215,7 @@ class OperatorString:
             >>> op_string1 == op_string3 # True
         """
         
-        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type)
+        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type) and (self.prefactor == other.prefactor)
         
         return equals
 
-- 
2.43.0


From edc0df001fec3a7e1ad965375963bf374cab89d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 05/24] fix: order the annihilation operators of Fermion
 strings in cluster_basis as documented

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 25867a1..0cdb341 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -857,7 +857,7 @@ def cluster_basis(k, cluster_labels, op_type, include_identity=False):
                             labels_backward = possible_labels_backward[ind_labels_backward]
                             
                             ops    = ['CDag']*len(labels_forward) + ['C']*len(labels_backward)
-                            labels = np.concatenate((labels_forward, labels_backward))
+                            labels = np.concatenate((labels_forward, labels_backward[::-1]))
                             
                             op_string = OperatorString(ops, labels, op_type, prefactor)
 
-- 
2.43.0


From a8eb1df1b257fdb13eec487db7e8635cb6fd7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 06/24] fix: include the identity in distance_basis when it is
 requested

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 0cdb341..adfeb92 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -951,6 +951,6 @@ def distance_basis(lattice, k, R, op_type, allowed_orbitals=None, include_identi
     
     total_basis = Basis()
     for cluster_labels in sorted_clusters:
-        total_basis += cluster_basis(k, cluster_labels, op_type)
+        total_basis += cluster_basis(k, cluster_labels, op_type, include_identity=include_identity)
         
     return total_basis
-- 
2.43.0


From 448177cc084d0837bb8b2c3f9e63a222e226230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 07/24] fix: generate the complete symmetry group, without
 repetitions, in symmetrize_basis

---
 qosy/symmetrization.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 35adf6a..0aa6383 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -60,23 +60,18 @@ def symmetrize_basis(basis, group_generators, tol=1e-12):
     num_orbitals = len(group_generators[0].info)
     I = label_permutation(np.arange(num_orbitals)) # Identity transformation
     G = [I]
-    G_set = set(G)
-    newG = G + group_generators
-    newG_set = set([tuple(g.info) for g in newG])
-    
-    while len(newG) != len(G):
-        G = newG
-        G_set = newG_set
-        
-        # Generate new group elements
+    G_set = set([tuple(I.info)])
+
+    # Generate new group elements until all of the products of
+    # group elements with generators are in the group.
+    for g in G:
         for gen in group_generators:
-            for g in G:
-                perm       = compose_permutations(g.info, gen.info)
-                perm_tuple = tuple(perm)
-                if perm_tuple not in newG_set:
-                    newG_set.add(perm_tuple)
-                    perm_transformation = label_permutation(perm)
-                    newG.append(perm_transformation)
+            perm       = compose_permutations(g.info, gen.info)
+            perm_tuple = tuple(perm)
+            if perm_tuple not in G_set:
+                G_set.add(perm_tuple)
+                perm_transformation = label_permutation(perm)
+                G.append(perm_transformation)
         
     # The symmetrized basis will be a list of Operators
     # that obey the given discrete group symmetries.
-- 
2.43.0


From 3427a61d343681461e76f9f730150832dd6f108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 08/24] fix: generate the complete point group in
 symmetrize_lattice

---
 qosy/symmetrization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 0aa6383..1ca1f86 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -249,7 +249,7 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
         G = newG
         
         # Generate new group elements, potentially with duplicates
-        newG = [np.dot(g,gen) for g in G for gen in point_group_generators]
+        newG = G + [np.dot(g,gen) for g in G for gen in point_group_generators]
         # Remove the duplicates
         newG = remove_duplicates(newG)
 
-- 
2.43.0


From f34be1a88297779d8b064c03068aad3f07119af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 09/24] fix: keep the atoms of every expanded direction in
 symmetrize_lattice

---
 qosy/symmetrization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 1ca1f86..5d334c1 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -269,11 +269,11 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
             delta = orig_lattice_vectors[ind_lv]
 
             # Expand the lattice in the direction of delta.
-            new_lattice = _expand_lattice(old_lattice, ind_lv, delta)
+            old_lattice = _expand_lattice(old_lattice, ind_lv, delta)
         
         # Symmetrize the atom positions for the new
         # unit cell.
-        new_lattice = _symmetrize_atoms(new_lattice, G, tol=tol)
+        new_lattice = _symmetrize_atoms(old_lattice, G, tol=tol)
 
         # Remove the duplicate atoms equivalent to
         # one another by lattice translations
-- 
2.43.0


From 832812110bff10e25309a3794ffe850912768e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 10/24] fix: undefined names in to_operator

---
 qosy/diagonalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ad7b458..c0cd046 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -106,9 +106,9 @@ def to_vector(matrix, basis, num_orbitals):
     
 # TODO: document, test
 def to_operator(matrix, basis, num_orbitals):
-    coeffs = to_vector(matrix, basis)
+    coeffs = to_vector(matrix, basis, num_orbitals)
 
-    op = qy.Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
+    op = Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
 
     return op
 
-- 
2.43.0


From 2751a68424b71ddd3ae2e0c8748bb4c1acfc54c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 11/24] fix: use the Liouvillian matrix returned by _explore in
 the selected CI algorithms

---
 qosy/algorithms.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 7e324fd..87bfb2e 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -298,8 +298,8 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         print('Expanded basis: {}'.format(len(basis)))
 
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 2*max_num_evecs:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -436,8 +436,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             print('  Expanded basis: {}'.format(len(basis)))
 
             # Find best operator in basis
-            (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-            com_matrix = _com_matrix(s_constants, H).real
+            (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+            com_matrix = ((l_matrix.H).dot(l_matrix)).real
 
             orig_com_matrix = com_matrix.copy()
             
@@ -577,9 +577,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             operator = operators[-1]
         
         # O -> [H,O]
-        (s_constants1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        (l_matrix1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
-        l_matrix1    = _l_matrix(s_constants1, H)
         com_H_operator = l_matrix1.dot(ss.csr_matrix(operator.coeffs).T)
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
@@ -587,9 +586,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
-            (s_constants2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-
-            l_matrix2 = _l_matrix(s_constants2, H)
+            (l_matrix2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
             #A = ss.csr_matrix(([1.0], ([0], [0])), shape=(1,1), dtype=complex)
             com_H_A = l_matrix2.toarray()[:,0]
@@ -622,8 +619,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             previous_basis = copy.deepcopy(basis)
             
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
-- 
2.43.0


From 72d4d9ef4d7e7b3a985da3e6e315a1a4a5ae25f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 12/24] fix: import liouvillian_matrix for selected_ci_simple

---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 87bfb2e..b1c22fe 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -15,7 +15,7 @@ import scipy.sparse.linalg as ssla
 from .tools import intersection, gram_schmidt, sparsify
 from .operatorstring import opstring
 from .basis import Basis, Operator
-from .algebra import commutator, commutant_matrix, structure_constants, product, anticommutator
+from .algebra import commutator, commutant_matrix, liouvillian_matrix, structure_constants, product, anticommutator
 from .transformation import symmetry_matrix
     
 def _truncate_basis(basis, vector, threshold=1e-6, max_basis_size=100, filter_fun=None):
-- 
2.43.0


From f740c1e02908ee7f0bb274cfa6e4e1194012cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 13/24] fix: commute with all of the operators given to
 selected_ci_greedy

---
 qosy/algorithms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index b1c22fe..7f51e4e 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -740,6 +740,11 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
     else:
         (explored_basis, explored_extended_basis, explored_s_constants_data) = explored_data
 
+    # The record is only valid for one operator,
+    # so keep separate ones for the other com_ops.
+    explored_data_com_ops = [(explored_basis, explored_extended_basis, explored_s_constants_data)]
+    explored_data_com_ops += [(Basis(), Basis(), dict()) for com_op in com_ops[1:]]
+
     # Keep track of how OperatorStrings
     # anti-commute with O during the calculation.
     explored_anticommutations = dict()
@@ -776,8 +781,8 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         inds_largest_termsA = inds_largest_termsA[0:num_lterms]
         A_basis1 = Basis([extended_basis1[ind] for ind in inds_largest_termsA])
 
-        for com_op in com_ops:
-            (l_matrix2, extended_basis2) = _explore(A_basis1, com_op, explored_basis, explored_extended_basis, explored_s_constants_data)
+        for (com_op, explored_data_com_op) in zip(com_ops, explored_data_com_ops):
+            (l_matrix2, extended_basis2) = _explore(A_basis1, com_op, *explored_data_com_op)
         
             #l_matrix2 = _l_matrix(s_constants2, com_op)
         
@@ -902,7 +907,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         com_matrix_H = ss.csr_matrix((len(basis), len(basis)), dtype=float)
         for ind_com_op in range(len(com_ops)):
             com_op = com_ops[ind_com_op]
-            (l_matrix, _) = _explore(basis, com_op, explored_basis, explored_extended_basis, explored_s_constants_data)
+            (l_matrix, _) = _explore(basis, com_op, *explored_data_com_ops[ind_com_op])
             cdagc_real = ((l_matrix.H).dot(l_matrix)).real
             com_matrix += cdagc_real
             if ind_com_op == 0:
-- 
2.43.0


From 506b25b38f0e815ba8f96a83dada67db2e00fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 14/24] fix: convert the identity Fermion string when the
 identity is not included

---
 qosy/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index b0eed54..0958aa8 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -307,7 +307,7 @@ def _convert_fermion_string(op_string, include_identity=False):
         coeffs_majorana.append(coeffM)
         op_strings_majorana.append(op_string_M)
 
-    return Operator(np.array(coeffs_majorana), op_strings_majorana)
+    return Operator(np.array(coeffs_majorana), op_strings_majorana, 'Majorana')
 
 def _convert_operator_string(op_string, to_op_type, include_identity=False):
     # Converts an OperatorString to a linear combination of
-- 
2.43.0


From d811fe91c954f6d9cc316b79a0e0d74e3bce1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 15/24] fix: find all invariant operators when given a list of
 Operators that is not orthonormal

---
 qosy/core.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 7543236..62dce5f 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -22,6 +22,7 @@ many desired continuous and discrete symmetries at one.
 import warnings
 import numpy as np
 import numpy.linalg as nla
+import scipy.linalg as sla
 import scipy.sparse as ss
 import scipy.sparse.linalg as ssla
 
@@ -101,6 +102,19 @@ def commuting_operators(basis, operator, operation_mode='commutator', return_sup
     else:
         return null_space
 
+def _overlap_matrix(operators):
+    """Compute the overlap matrix <O_a, O_b> of a list of
+    linearly independent Operators O_a.
+    """
+
+    operators_basis = Basis()
+    for op in operators:
+        operators_basis += op._basis
+
+    vectors = ss.hstack([op.to_vector(operators_basis, fmt='csc') for op in operators], format='csc')
+
+    return (vectors.H).dot(vectors)
+
 def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=None, return_superoperator=False, tol=1e-10):
     """Find operators in the vector space spanned by the
     OperatorStrings :math:`\\hat{\\mathcal{S}}_a` that commute (or anti-commute)
@@ -160,12 +174,23 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     else:
         raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
 
+    # The Operators in a list are not necessarily orthonormal,
+    # so their overlaps need to be taken into account.
+    overlap_matrix = ss.eye(len(basis), format='csc')
+    if not isinstance(basis, Basis):
+        overlap_matrix = _overlap_matrix(basis)
+        sym_matrix     = overlap_matrix.dot(sym_matrix)
+
     matrix = 0.5*(sym_matrix + sym_matrix.H)
 
-    if num_vecs is None:
+    if num_vecs is None and isinstance(basis, Basis):
         (evals, evecs) = nla.eigh(matrix.toarray())
-    else:
+    elif num_vecs is None:
+        (evals, evecs) = sla.eigh(matrix.toarray(), overlap_matrix.toarray())
+    elif isinstance(basis, Basis):
         (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign)
+    else:
+        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, M=overlap_matrix, sigma=sign)
 
     inds = np.where(np.abs(evals - sign) < tol)[0]
     vecs = evecs[:,inds]
@@ -174,7 +199,7 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
         warnings.warn('All {} vectors found with eigsh were in the ({})-eigenvalue subspace. Increase num_vecs to ensure that you are not missing null vectors.'.format(num_vecs, sign))
 
     if return_superoperator:
-        superoperator = ss.eye(len(basis), format='csc') - sign * matrix
+        superoperator = overlap_matrix - sign * matrix
         return (vecs, superoperator, 1.0 - sign*evals, evecs)
     else:
         return vecs
-- 
2.43.0


From 1b79b3d0577003a325794df862f92001364397e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 16/24] fix: swap names in strings that contain parentheses or
 names that contain one another

---
 qosy/tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 22d9a82..bc03a69 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -365,11 +365,7 @@ def swap(string, nameA, nameB):
         >>> qosy.swap('1 2 3', '1', '3') # '3 2 1'
     """
     
-    result = string.replace(nameA, '({})'.format(nameA))
-    result = result.replace(nameB, nameA)
-    result = result.replace('({})'.format(nameA), nameB)
-
-    return result
+    return replace(string, {nameA : nameB, nameB : nameA})
 
 def replace(string, substitutions):
     """ Perform many string replacements
-- 
2.43.0


From 0e57f8a021e6d69e0436234891ea1e4fcde01efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 17/24] fix: remove the duplicate atoms that are more than one
 period apart in symmetrize_lattice

---
 qosy/symmetrization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 5d334c1..c33c6ef 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -182,7 +182,11 @@ def _remove_duplicate_atoms(lattice, tol=1e-12):
     def _equiv(infoA, infoB):
         (posA, orbsA) = infoA
         (posB, orbsB) = infoB
-        return lattice.distance(posA, posB) < tol and orbsA == orbsB
+        # Displacement between the atoms, modulo the periods of the lattice.
+        vectors   = np.array(lattice.unit_cell.lattice_vectors, dtype=float)
+        fractions = nla.solve(vectors.T, np.array(posA) - np.array(posB))
+        fractions = np.where(lattice.periodic_boundaries, fractions - np.round(fractions), fractions)
+        return nla.norm(np.dot(fractions, vectors)) < tol and orbsA == orbsB
 
     # Remove duplicate atoms.
     sym_atom_info = remove_duplicates(sym_atom_info, equiv=_equiv)
-- 
2.43.0


From 5cc72ebb7b71d9c179ab4fc69ed5b91f5199ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 18/24] fix: keep the whole vector space when orthogonalizing
 the noncumulative results

---
 qosy/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 62dce5f..12dda11 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -449,12 +449,11 @@ class SymmetricOperatorGenerator:
                 curr_ops   = self.projected_output_operators[ind_output]
                 prev_ops   = self.projected_output_operators[ind_output-1]
 
-                num_curr_ops = int(curr_ops.shape[1])
+                # Keep all of the previous vectors, since it is not known in
+                # advance which of them are independent of the current ones.
+                matrix = np.hstack((curr_ops, prev_ops))
             
-                matrix                    = np.copy(prev_ops)
-                matrix[:, 0:num_curr_ops] = curr_ops
-            
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=0.0)
+                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=tol)
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From 268321be8914740964604121e75aba3cbe8d624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 19/24] fix: drop the linearly dependent generators when
 building the projector in generate_lie_algebra

---
 qosy/algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 3368686..7838d38 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -583,7 +583,7 @@ def generate_lie_algebra(operators, tol=1e-12):
 
         # For simplicity, orthogonalize the vectors.
         # V = columns are the vectors
-        vectors = gram_schmidt(vectors)
+        vectors = gram_schmidt(vectors, tol=tol)
 
         # The projection P onto the vector space
         # spanned by vectors.
-- 
2.43.0


From 1ac91c259192cf10e9f9e2f9d132187f593fef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 20/24] fix: keep the 2x2 blocks aligned when there are zero
 modes in diagonalize_quadratic

---
 qosy/diagonalization.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index c0cd046..be502d7 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -315,6 +315,22 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     # where Z is unitary and T is quasi-upper-triangular,
     # so that it forms 2x2 blocks of the form [[0, a], [-a, 0]].
     (T, Z) = sla.schur(A.toarray(), output='real')
+
+    # Zero modes are 1x1 blocks, which can appear between the 2x2 blocks.
+    # Move them to the end so that they form 2x2 (zero) blocks as well.
+    inds_blocks     = []
+    inds_zero_modes = []
+    ind = 0
+    while ind < 2*N:
+        if ind+1 < 2*N and T[ind+1, ind] != 0.0:
+            inds_blocks += [ind, ind+1]
+            ind += 2
+        else:
+            inds_zero_modes.append(ind)
+            ind += 1
+    inds = inds_blocks + inds_zero_modes
+    T = T[np.ix_(inds, inds)]
+    Z = Z[:, inds]
     
     # N (non-negative) eigenvalues
     # Note: the +/- eigenvalue pairs across the diagonal are
-- 
2.43.0


From d6a8b86837620e3ccb60fae44989ad1283c359f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 21/24] fix: reorthogonalize the new vectors in
 generate_lie_algebra so that it terminates

---
 qosy/algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 7838d38..8050580 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -662,6 +662,10 @@ def generate_lie_algebra(operators, tol=1e-12):
                     # and normalized. Then add it to the vectors.
                     vecC -= overlaps
                     vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
+                    # Orthogonalize a second time, since rounding errors
+                    # are amplified when the new component is small.
+                    vecC -= projector.dot(vecC)
+                    vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
                     vectors = ss.hstack((vectors, vecC), format='csc')
 
                     # Update the projector.
-- 
2.43.0


From f4918d543a8ac17874f2a970b6b99c3c77bef87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 22/24] fix: conversion_matrix of an empty basis raised a
 TypeError

---
 qosy/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index 0958aa8..8d4cb46 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -469,7 +469,7 @@ def conversion_matrix(basis_from, basis_to, tol=1e-16):
         warnings.warn('Creating a non-invertible transformation matrix between bases of different sizes: {} {}'.format(len(basis_from), len(basis_to)))
 
     if len(basis_from) == 0:
-        return ss.csr_matrix(dtype=complex,shape=(0,0))
+        return ss.csr_matrix((len(basis_to), 0), dtype=complex)
     
     to_op_type = basis_to.op_strings[0].op_type
     
-- 
2.43.0


From b1e5ae385da4685257dcfdab7852b30428edc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 23/24] fix: shift away from the eigenvalue when finding
 invariant operators with num_vecs

---
 qosy/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 12dda11..4b25d47 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -183,14 +183,18 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
 
     matrix = 0.5*(sym_matrix + sym_matrix.H)
 
+    # Shift slightly away from the eigenvalue +1 (or -1),
+    # since matrix - sigma*I cannot be factorized at the eigenvalue itself.
+    sigma = sign * (1.0 + 1e-6)
+
     if num_vecs is None and isinstance(basis, Basis):
         (evals, evecs) = nla.eigh(matrix.toarray())
     elif num_vecs is None:
         (evals, evecs) = sla.eigh(matrix.toarray(), overlap_matrix.toarray())
     elif isinstance(basis, Basis):
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign)
+        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sigma)
     else:
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, M=overlap_matrix, sigma=sign)
+        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, M=overlap_matrix, sigma=sigma)
 
     inds = np.where(np.abs(evals - sign) < tol)[0]
     vecs = evecs[:,inds]
-- 
2.43.0


From 60d72ebdce4d15544e5592e58e3449c8b1a30c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 24/24] fix: positions of a Lattice are named in fixed
 notation, so that a shifted position keeps its name

---
 qosy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 684ef53..2bbfff1 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -118,7 +118,7 @@ class Lattice:
 
                 # Make sure the zeros are exactly zero (no floating point roundoff).
                 pos      = np.array([x if np.abs(x) > self.tol else 0.0 for x in pos])
-                pos_name = np.array2string(pos.flatten(), precision=self.precision)
+                pos_name = np.array2string(pos.flatten(), precision=self.precision, suppress_small=True)
 
                 for orbital_name in orbitals_atom:
                     ind_orbital = len(self._orbitals)
@@ -167,7 +167,7 @@ class Lattice:
             # Make sure the zeros are exactly zero (no floating point roundoff).
             pos      = np.array([x if np.abs(x) > self.tol else 0.0 for x in pos])
             
-            pos_name = np.array2string(pos.flatten(), precision=self.precision)
+            pos_name = np.array2string(pos.flatten(), precision=self.precision, suppress_small=True)
             
             if (pos_name, orbital_name) in self._indices_orbitals:
                 return self._indices_orbitals[(pos_name, orbital_name)] 
-- 
2.43.0

