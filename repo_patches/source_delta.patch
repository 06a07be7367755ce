From d82bc4dbeef49df0b468896cc8d42ff88e333472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 01/54] fix: do not assume that every Hermitian moment is
 non-negative

A moment that equals its conjugate under inflation symmetries is real, but it
can be negative (e.g. <A11=1 A12=0 A11=0 A12=1>). The default lower bound of 0
excluded valid quantum models. Impose it only on moments that commute or
reduce to commuting operators after removing sandwiches.
---
 inflation/sdp/InflationSDP.py | 43 ++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f5eb1f4..751c332 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -371,11 +371,17 @@ class InflationSDP:
 
         if self.all_operators_commute:
             self.hermitian_moments = self.moments
+            self.nonnegative_moments = self.moments
         else:
             self.hermitian_moments = [mon for mon in self.moments
                                       if mon.is_hermitian]
+            # A Hermitian moment can have a negative expectation value
+            self.nonnegative_moments = [
+                mon for mon in self.hermitian_moments
+                if all(self._is_nonnegative_1d(factor.as_lexmon)
+                       for factor in mon.factors)]
             if self.verbose > 1:
-                print(f"The problem has {len(self.hermitian_moments)} " +
+                print(f"The problem has {len(self.nonnegative_moments)} " +
                       "non-negative moments.")
 
         # This dictionary useful for certificates_as_probs
@@ -405,7 +411,7 @@ class InflationSDP:
 
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
-        self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
+        self.moment_lowerbounds  = {m: 0. for m in self.nonnegative_moments}
 
         self.set_objective(None)
         self.set_values(None)
@@ -1454,6 +1460,37 @@ class InflationSDP:
             return self._to_inflation_repr_1d(reverse_mon(lexmon),
                                               apply_only_commutations)
 
+    def _is_nonnegative_1d(self, lexmon: np.ndarray) -> bool:
+        """Whether a moment has a non-negative expectation value for every
+        state. This is the case if all its operators commute, or if that is so
+        after removing all the sandwiches, i.e., after repeatedly transforming
+        :math:`U A U^\\dagger` into :math:`A`.
+
+        Parameters
+        ----------
+        lexmon : numpy.ndarray
+            Monomial encoded as a 1D array of integers.
+
+        Returns
+        -------
+        bool
+            Whether the moment is guaranteed to be non-negative.
+        """
+        word = [int(op) for op in lexmon]
+        while not self.all_commuting_q_1d(word):
+            notcomm = self._notcomm[np.ix_(word, word)]
+            to_front = [i for i in range(len(word))
+                        if not notcomm[i, :i].any()]
+            to_back = [i for i in range(len(word))
+                       if not notcomm[i, i+1:].any()]
+            for i, j in product(to_front, to_back):
+                if i < j and word[i] == word[j]:
+                    word = word[:i] + word[i+1:j] + word[j+1:]
+                    break
+            else:
+                return False
+        return True
+
     def _construct_mask_matrices(self) -> None:
         """Helper a function to associate each monomial appearing in the moment
         matrix with a unique mask matrix, as this is relevant to expressing an
@@ -1988,7 +2025,7 @@ class InflationSDP:
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
-        self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
+        self.moment_lowerbounds = {m: 0. for m in self.nonnegative_moments}
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
-- 
2.43.0


From a8887f1373f91e09c2363aa09450018b8df0e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 02/54] fix: keep looking for normalization equalities after an
 incomplete one

A column containing several operators with the last outcome was skipped
altogether as soon as one of its reductions was not in the generating set.
---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 751c332..503b50a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1893,7 +1893,7 @@ class InflationSDP:
                                         for m in eq[1]])
                         column_level_equalities += [tuple(eq_idxs)]
                     except KeyError:
-                        break
+                        continue
         return column_level_equalities
 
     def _discover_columns_symmetries(self) -> np.ndarray:
-- 
2.43.0


From 9cac6602a4b3bf606d5d379508e9efc6af071e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 03/54] fix: bring the total of a normalization equality to
 canonical form

Removing an operator from a generating monomial can make others commute, and
the result was then not found in the generating set.
---
 inflation/sdp/InflationSDP.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 503b50a..7eb13eb 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1882,7 +1882,9 @@ class InflationSDP:
                 eqs = []
                 for i, op in enumerate(lexmon):
                     if last_outcome_ops[i]:
-                        lhs = np.delete(lexmon, i)  # returns new copy
+                        # Removing an operator can make others commute
+                        lhs = self._to_canonical_memoized_1d(
+                            np.delete(lexmon, i))
                         rhs = np.vstack((lexmon,)*len(lexmon_to_orthogroup[op]))
                         rhs[:, i] = lexmon_to_orthogroup[op]
                         eqs += [(lhs, list(rhs))]
-- 
2.43.0


From f224f12717245bcf1a603d38e58f314fb9fa0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 04/54] fix: pass the extra equalities and inequalities to the
 SDP solver

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 7eb13eb..df121c1 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2197,10 +2197,10 @@ class InflationSDP:
                                          in self.semiknown_moments.items()},
                       "equalities": [{mon.name: coeff
                                           for mon, coeff in eq.items()}
-                                     for eq in self.minimal_equalities],
+                                     for eq in self.moment_equalities],
                       "inequalities": [{mon.name: coeff
                                         for mon, coeff in ineq.items()}
-                                       for ineq in self.minimal_inequalities]
+                                       for ineq in self.moment_inequalities]
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-- 
2.43.0


From a50184c37296a51a7fc438932eb7b81d69338ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 05/54] fix: substitute semiknown moments in the SDP objective

---
 inflation/sdp/InflationSDP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index df121c1..4f9bc14 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2073,10 +2073,10 @@ class InflationSDP:
                                         self._processed_objective.keys())
         for mon in semiknowns_to_process:
             coeff = self._processed_objective[mon]
-            for (subs_coeff, subs) in self.semiknown_moments[mon]:
-                self._processed_objective[subs] = \
-                    self._processed_objective.get(subs, 0) + coeff * subs_coeff
-                del self._processed_objective[mon]
+            subs_coeff, subs = self.semiknown_moments[mon]
+            del self._processed_objective[mon]
+            self._processed_objective[subs] = \
+                self._processed_objective.get(subs, 0) + coeff * subs_coeff
         collect()
 
     def _update_bounds(self, typ: str) -> None:
-- 
2.43.0


From e75c8f4c0a02136dc0384a2bb54d5ca0887c41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 06/54] fix: forget the atoms of the previous relaxation when
 generating a new one

---
 inflation/sdp/InflationSDP.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 4f9bc14..87da6ac 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -356,7 +356,12 @@ class InflationSDP:
         self.first_free_idx = max(self.compmoment_from_idx.keys()) + 1
         self.moments = list(self.compmoment_from_idx.values())
         self.monomials = list(self.compmoment_from_idx.values())
-        
+        # The lists of atoms of a previous relaxation are no longer valid
+        for attribute in ["atomic_factors", "atomic_monomials",
+                          "atom_from_name", "knowable_atoms",
+                          "do_conditional_atoms"]:
+            self.__dict__.pop(attribute, None)
+
         assert all(v == 1 for v in Counter(self.monomials).values()), \
             "Multiple indices are being associated to the same monomial"
 
-- 
2.43.0


From 0127c2ac11732077bf8b4878948b4739dbd89acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 07/54] fix: copy the input of rectify_fake_setting

---
 inflation/InflationProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index a90b59d..1f6eed8 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -742,7 +742,7 @@ class InflationProblem:
             The monomial with the index of the setting representing only the
             private setting.
         """
-        new_mon = np.array(monomial, copy=False)
+        new_mon = np.array(monomial)
         for o in new_mon:
             party_index        = o[0] - 1  # Parties start at 1 our notation
             effective_setting  = o[-2]
-- 
2.43.0


From ba70b8da115b5466c7d59364456686df76504589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 08/54] fix: accept a generating set given as a list with a
 single array

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 87da6ac..d3b6cf7 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1124,11 +1124,11 @@ class InflationSDP:
                 # This is the standard specification for the helper
                 columns = self._build_cols_from_specs(column_specification)
             elif type(column_specification[0]) in {np.ndarray}:
-                if len(np.array(column_specification[1]).shape) == 2:
+                if column_specification[-1].ndim == 2:
                     # This is the 2d encoding, convert it to lexicographic repr
                     columns = [self.mon_to_lexrepr(mon)
                                for mon in column_specification]
-                elif len(np.array(column_specification[1]).shape) == 1:
+                elif column_specification[-1].ndim == 1:
                     # This is the 1d encoding, make sure the dtype is correct
                     # for compatibility with numba
                     columns = [np.array(mon, dtype=np.intc)
-- 
2.43.0


From cb9bc27d7169c733b34f7d60556c0f0be9036bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 09/54] fix: apply again the bounds replaced by known values
 when these are reset

---
 inflation/sdp/InflationSDP.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index d3b6cf7..d46dfa4 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -417,6 +417,8 @@ class InflationSDP:
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.nonnegative_moments}
+        # Bounds replaced by known values, needed when these are reset
+        self._replaced_bounds    = {"lo": dict(), "up": dict()}
 
         self.set_objective(None)
         self.set_values(None)
@@ -763,6 +765,7 @@ class InflationSDP:
         as an intermediate step
         """
         self._reset_values()
+        self._restore_bounds()
         if (values is None) or len(values) == 0:
             self._cleanup_after_set_values()
             return
@@ -2007,6 +2010,8 @@ class InflationSDP:
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
+                self._replaced_bounds["lo"].setdefault(
+                    mon, self.moment_lowerbounds.get(mon, None))
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
@@ -2033,12 +2038,14 @@ class InflationSDP:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in self.nonnegative_moments}
+        self._replaced_bounds["lo"] = dict()
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
         self._reset_solution()
         self.moment_upperbounds = dict()
+        self._replaced_bounds["up"] = dict()
 
     def _reset_objective(self) -> None:
         """Reset the objective function."""
@@ -2057,8 +2064,21 @@ class InflationSDP:
         self.known_moments[self.One] = 1.
         self.extra_equalities = []
         self.extra_inequalities = []
+        if self.supports_problem:
+            self._restore_bounds()
         collect()
 
+    def _restore_bounds(self) -> None:
+        """Restore the bounds that were replaced by known values."""
+        for typ, bounds in [("lo", self.moment_lowerbounds),
+                            ("up", self.moment_upperbounds)]:
+            for mon, bound in self._replaced_bounds[typ].items():
+                if bound is None:
+                    bounds.pop(mon, None)
+                else:
+                    bounds[mon] = bound
+            self._replaced_bounds[typ] = dict()
+
     def _update_objective(self) -> None:
         """Process the objective with the information from known_moments
         and semiknown_moments.
@@ -2110,6 +2130,7 @@ class InflationSDP:
                     assert condition, (f"Value {value} assigned for " +
                                        f"monomial {mon} contradicts the " +
                                        f"assigned {dir}er bound of {b}.")
+                    self._replaced_bounds[typ].setdefault(mon, b)
                     del bounds[mon]
                 except KeyError:
                     pass
@@ -2209,12 +2230,19 @@ class InflationSDP:
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-        for mon, bnd in self.moment_lowerbounds.items():
+        # Bounds replaced by known values that have been reset apply again
+        lowerbounds, upperbounds = [
+            {**{mon: bnd for mon, bnd in self._replaced_bounds[typ].items()
+                if bnd is not None and mon not in self.known_moments},
+             **bounds}
+            for typ, bounds in [("lo", self.moment_lowerbounds),
+                                ("up", self.moment_upperbounds)]]
+        for mon, bnd in lowerbounds.items():
             lb = {mon.name: 1}
             if not np.isclose(bnd, 0):
                 lb[self.constant_term_name] = -bnd
             solverargs["inequalities"].append(lb)
-        for mon, bnd in self.moment_upperbounds.items():
+        for mon, bnd in upperbounds.items():
             ub = {mon.name: -1}
             if not np.isclose(bnd, 0):
                 ub[self.constant_term_name] = bnd
-- 
2.43.0


From 5df5aea3f3418da0f07079b105a519a87f6ad435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 10/54] fix: assign shared-randomness values only to moments of
 the relaxation

---
 inflation/sdp/InflationSDP.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index d46dfa4..9d5ba48 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -590,6 +590,13 @@ class InflationSDP:
         if prob_array is not None:
             knowable_values = {atom: atom.compute_marginal(prob_array)
                                for atom in self.knowable_atoms}
+            if shared_randomness:
+                # No products are evaluated, so the atoms that do not appear
+                # by themselves in the relaxation are not used
+                moments = set(self.moments)
+                knowable_values = {atom: value for atom, value
+                                   in knowable_values.items()
+                                   if atom in moments}
         else:
             knowable_values = dict()
 
-- 
2.43.0


From ed588287550bdd6380e7ba70a1c9f0746c6df712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 11/54] fix: return the complete moment matrix when solving the
 dual SDP

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bfa0b4b..debdba2 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -353,7 +353,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     ci  = float(var_objective[x])
                     lhs += ci
                 try:
-                    F = Fi.pop(x)
+                    F = Fi[x]
                     lhs = Expr.add(lhs,
                                    Expr.dot(Z,
                                             scipy_to_mosek(F)))
-- 
2.43.0


From fe30d1c9ccde1b2bce0704c04a65c6dc4ce7e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 12/54] fix: sign of the dual matrix when solving the primal
 SDP

---
 inflation/sdp/sdp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index debdba2..6b346a3 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -459,7 +459,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 x_values = dict(zip(variables, x_mosek.level()))
                 if mask_matrices:
-                    ymat = G.dual().reshape([mat_dim, mat_dim])
+                    # In a maximization MOSEK's duals have opposite sign
+                    ymat = -G.dual().reshape([mat_dim, mat_dim])
                     xmat = G.level().reshape([mat_dim, mat_dim])
 
             status = M.getProblemStatus()
-- 
2.43.0


From 2ab6de2ccc006e33c17e6e980b8ed0da24037388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 13/54] fix: treat moments proportional to a known moment as
 known

---
 inflation/sdp/InflationSDP.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 9d5ba48..63ad08e 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2023,6 +2023,12 @@ class InflationSDP:
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
 
+        # A moment proportional to a known moment is also known
+        for mon, (coeff, subs) in list(self.semiknown_moments.items()):
+            if subs in self.known_moments and mon not in self.known_moments:
+                self.known_moments[mon] = coeff * self.known_moments[subs]
+                del self.semiknown_moments[mon]
+
         self._update_bounds("lo")
         self._update_bounds("up")
         self._update_objective()
-- 
2.43.0


From 04f877c0af0a580822639c8552ac6fa9ed5469b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 14/54] fix: restore the objective when resetting the known
 values

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 63ad08e..92c9722 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2079,6 +2079,7 @@ class InflationSDP:
         self.extra_inequalities = []
         if self.supports_problem:
             self._restore_bounds()
+        self._update_objective()
         collect()
 
     def _restore_bounds(self) -> None:
-- 
2.43.0


From 41aa9f799d3d03664b596019b90594088bb2d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 15/54] fix: drop zero rows of constraint matrices without
 failing

---
 inflation/lp/lp_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 8472b45..e9ea689 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -16,7 +16,7 @@ from ..utils import partsextractor, expand_sparse_vec, vstack
 
 
 def drop_zero_rows(coo_mat: coo_array):
-    """Drops zero rows from a sparse matrix in place.
+    """Drops zero rows from a sparse matrix.
 
     Parameters
     ----------
@@ -26,9 +26,8 @@ def drop_zero_rows(coo_mat: coo_array):
     if len(coo_mat.shape) == 1:
         coo_mat = coo_mat.reshape((1, coo_mat.shape[0]))
     nz_rows, new_row = np.unique(coo_mat.row, return_inverse=True)
-    coo_mat.row = new_row
-    coo_mat = coo_mat.reshape((len(nz_rows), coo_mat.shape[1]))
-    return coo_mat
+    return coo_array((coo_mat.data, (new_row, coo_mat.col)),
+                     shape=(len(nz_rows), coo_mat.shape[1]))
 
 
 def canonical_order(coo_mat: coo_array):
-- 
2.43.0


From 4cc63d1f5176c6e5962c669f99ccd4f62d2f38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 16/54] fix: do not relax the LP with feas_as_optim when there
 is an objective

---
 inflation/lp/InflationLP.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cdffe12..e0cc099 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -576,6 +576,15 @@ class InflationLP(object):
             given by ``_prepare_solver_arguments()``. However, a user may
             manually override these arguments by passing their own here.
         """
+        # Still allow for 'feas_as_optim' as an argument
+        if 'feas_as_optim' in solver_arguments:
+            if solver_arguments["feas_as_optim"]:
+                relax_known_vars = False
+                relax_inequalities = True
+                del solver_arguments["feas_as_optim"]
+            else:
+                relax_known_vars = relax_inequalities = False
+                del solver_arguments["feas_as_optim"]
         if (relax_known_vars or relax_inequalities) and \
                 len(self.objective) > 0:
             warn("You have a non-trivial objective, but set to solve a "
@@ -593,16 +602,6 @@ class InflationLP(object):
             real_default_non_negative = default_non_negative
 
         args = self._prepare_solver_matrices()
-        
-        # Still allow for 'feas_as_optim' as an argument
-        if 'feas_as_optim' in solver_arguments:
-            if solver_arguments["feas_as_optim"]:
-                relax_known_vars = False
-                relax_inequalities = True
-                del solver_arguments["feas_as_optim"]
-            else:
-                relax_known_vars = relax_inequalities = False
-                del solver_arguments["feas_as_optim"]
         args.update(solver_arguments)
 
         args.update({"relax_known_vars": relax_known_vars,
-- 
2.43.0


From 650effaae5d95f40debe3b707de690195f5fb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 17/54] fix: keep the known part of the objective in SDP
 certificates

---
 inflation/sdp/sdp_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 6b346a3..4d58800 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -506,7 +506,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             certificate = {x: 0 for x in known_vars}
 
             # c0(P(a...|x...))
-            if not feas_as_optim:
+            # (not present in certificates of infeasibility)
+            if status_str == "feasible" and not feas_as_optim:
                 for x in set(var_objective).intersection(known_vars):
                     certificate[x] += var_objective[x]
 
@@ -514,7 +515,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             if mask_matrices:
                 for x in set(Fi).intersection(known_vars):
                     support = Fi[x].nonzero()
-                    certificate[x] = np.dot(ymat[support], Fi[x][support].toarray().ravel())
+                    certificate[x] += np.dot(ymat[support], Fi[x][support].toarray().ravel())
 
             # + I · b
             if var_inequalities:
-- 
2.43.0


From 6ebfe37b4b05d3dd04650efa453c4c9784490d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 18/54] fix: add up the constant terms of SDP certificates

---
 inflation/sdp/InflationSDP.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 92c9722..ccea020 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -897,12 +897,17 @@ class InflationSDP:
             warn("Beware that, because the problem contains linearized " +
                  "polynomial constraints, the certificate is not guaranteed " +
                  "to apply to other distributions.")
-        if np.allclose(list(dual.values()), 0.):
+        # Different names can refer to the same monomial ("1", "constant_term")
+        certificate = defaultdict(float)
+        for k, v in dual.items():
+            certificate[self.monomial_from_name[k]] += v
+        if np.allclose(list(certificate.values()), 0.):
             return dict()
         if clean:
-            dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+            certificate = clean_coefficients(certificate,
+                                             chop_tol,
+                                             round_decimals)
+        return {k: v for k, v in certificate.items() if not k.is_zero}
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
-- 
2.43.0


From af7f6a130b9e7a15327bf9b82403081f5c593aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 19/54] fix: write empty polynomials of the SDP as 0

---
 inflation/sdp/InflationSDP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index ccea020..ea67534 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -998,8 +998,11 @@ class InflationSDP:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
-        return polynomial_as_str[1:] if polynomial_as_str[
-                                            0] == "+" else polynomial_as_str
+        if not len(polynomial_as_str):  # Failsafe for empty dictionary.
+            polynomial_as_str = "0"
+        elif polynomial_as_str[0] == "+":
+            polynomial_as_str = polynomial_as_str[1:]
+        return polynomial_as_str
 
     def certificate_as_string(self,
                               clean: bool = True,
-- 
2.43.0


From ee02ad730c10a2e55dadadfadab8afc82667ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 20/54] fix: subtract the known part of the objective from LP
 certificates

---
 inflation/lp/lp_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index e9ea689..ec57e45 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -513,10 +513,10 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             cert_row = [0] * nof_primal_variables
             cert_col = [*range(nof_primal_variables)]
             cert_data = np.zeros((nof_primal_variables,))
-            obj_data = objective.toarray().ravel()
-            objective_unknown_cols = np.setdiff1d(objective.col, known_vars.col)
-            cert_data[objective_unknown_cols] = -obj_data[objective_unknown_cols]
-            cert_data[known_vars.col] = y_values[:nof_known_vars] # Assumes known values coded as equalities
+            # The objective is not present in certificates of infeasibility
+            if success:
+                cert_data[objective.col] = -objective.data
+            cert_data[known_vars.col] += y_values[:nof_known_vars] # Assumes known values coded as equalities
             if relax_known_vars:
                 cert_data[known_vars.col] += y_values[nof_known_vars:(2*nof_known_vars)]
             sparse_certificate = coo_array((cert_data, (cert_row, cert_col)),
-- 
2.43.0


From 58c3e5dd613971a6e923741ea3c6da1cbe7f1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 21/54] fix: accept omitted arguments in solveLP

---
 inflation/lp/lp_utils.py | 6 +++++-
 inflation/utils.py       | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index ec57e45..fef6f1e 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -84,6 +84,8 @@ def solveLP(objective: Union[coo_array, Dict] = None,
     solver_args = locals()
     del solver_args['kwargs']
     solver_args.update(kwargs)
+    # Arguments that are not given take the default values of the solver
+    solver_args = {k: v for k, v in solver_args.items() if v is not None}
 
     # Check type for arguments related to the problem
     problem_args = ("objective",
@@ -94,7 +96,7 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                     "lower_bounds",
                     "upper_bounds")
     used_args = {k: v for k, v in solver_args.items()
-                 if k in problem_args and v is not None}
+                 if k in problem_args}
     if all(issparse(arg) for arg in used_args.values()):
         assert variables is not None, "Variables must be declared when all " \
                                       "arguments are in sparse matrix form."
@@ -115,6 +117,8 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                     variables.update([x, x2])
             if known_vars:
                 variables.update(known_vars)
+            for bounds in ("lower_bounds", "upper_bounds"):
+                variables.update(used_args.get(bounds, ()))
             variables = sorted(variables)
             solver_args["variables"] = variables
         solver_args.update(convert_dicts(**solver_args))
diff --git a/inflation/utils.py b/inflation/utils.py
index bf1fee2..086a962 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -165,7 +165,7 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
     elif nof_blocks == 1:
         return non_empty[0]
     else:
-        return sps.coo_array([])
+        return sps.coo_array((0, max(mat.shape[-1] for mat in blocks)))
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From a532ef9dad0754fc5b727c8a21201ee80b9ec280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 22/54] fix: solveLP with mixed arguments or without linear
 constraints

---
 inflation/lp/lp_utils.py | 12 ++++++++----
 inflation/utils.py       |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index fef6f1e..0dc5360 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -249,7 +249,11 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             nof_primal_inequalities = inequalities.shape[0]
             nof_primal_equalities = equalities.shape[0]
 
-            (nof_primal_constraints, nof_primal_variables) = constraints.shape
+            nof_primal_constraints = constraints.shape[0]
+            nof_primal_variables = max(
+                mat.shape[1] for mat in (objective, known_vars, constraints,
+                                         lower_bounds, upper_bounds))
+            constraints.resize(nof_primal_constraints, nof_primal_variables)
             nof_known_vars = known_vars.nnz
 
             # Initialize b vector (RHS of constraints)
@@ -649,9 +653,9 @@ def convert_dicts(semiknown_vars: Dict = None,
         data = list(sum(data, ()))
         semiknown_mat = coo_array((data, (row, col)),
                                    shape=(nof_semiknown, nof_variables))
-        if "equalities" in sparse_args:
-            sparse_args["equalities"] = vstack(
-                (sparse_args["equalities"], semiknown_mat))
+        equalities = sparse_args.get("equalities", args.get("equalities"))
+        if equalities is not None:
+            sparse_args["equalities"] = vstack((equalities, semiknown_mat))
         else:
             sparse_args["equalities"] = semiknown_mat
     return sparse_args
diff --git a/inflation/utils.py b/inflation/utils.py
index 086a962..d7a50cf 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -163,9 +163,11 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
         else:
             return sps.vstack(blocks, format)
     elif nof_blocks == 1:
-        return non_empty[0]
+        mat = non_empty[0].copy()
+        mat.resize(mat.shape[0], max(block.shape[-1] for block in blocks))
+        return mat.asformat(format)
     else:
-        return sps.coo_array((0, max(mat.shape[-1] for mat in blocks)))
+        return sps.coo_array((0, max(block.shape[-1] for block in blocks)))
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 5138b232983214cbc092ae2d767b4c9007304780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 23/54] fix: solveSDP with variables outside the moment matrix

---
 inflation/sdp/sdp_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 4d58800..03aff66 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -215,8 +215,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
         # the expression a_i*(Fi of x_i).
         for x, (c, x2) in semiknown_vars.items():
-            if mask_matrices:
-                val = Fi.pop(x, 0)
+            if x in Fi:
+                val = Fi.pop(x)
                 Fi[x2] = Fi.get(x2, 0) + c * val
 
             if var_objective and not feas_as_optim:
@@ -231,14 +231,14 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                 val = inequality.pop(x, 0)
                 inequality[x2] = inequality.get(x2, 0) + c * val
 
-            variables.remove(x)
+            variables.discard(x)
             variables.add(x2)
 
     else:
         # Just add semiknown constraints as equality constraints.
         for x, (c, x2) in semiknown_vars.items():
             var_equalities.append({x: 1, x2: -c})
-            variables.add(x2)
+            variables.update((x, x2))
 
     # Calculate c0, the constant part of the var_objective.
     c0 = 0. + float(sum([var_objective[x] * known_vars[x]
@@ -347,11 +347,11 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 domain = Domain.equalsTo(0)
             for i, x in enumerate(variables):
-                lhs = 0.0
+                lhs = Expr.constTerm(0.0)
                 if var_objective and x in set(var_objective
                                               ).difference(known_vars):
                     ci  = float(var_objective[x])
-                    lhs += ci
+                    lhs = Expr.add(lhs, ci)
                 try:
                     F = Fi[x]
                     lhs = Expr.add(lhs,
-- 
2.43.0


From 2157739818c6bb98ed0fe92806cd43132ad63b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 24/54] fix: keep user bounds of moments with known values in
 InflationSDP

---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index ea67534..e9323f9 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2152,7 +2152,7 @@ class InflationSDP:
                     assert condition, (f"Value {value} assigned for " +
                                        f"monomial {mon} contradicts the " +
                                        f"assigned {dir}er bound of {b}.")
-                    self._replaced_bounds[typ].setdefault(mon, b)
+                    self._replaced_bounds[typ][mon] = b
                     del bounds[mon]
                 except KeyError:
                     pass
-- 
2.43.0


From 451d057df360a3c8ecbea4c7d47a510c414fa3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 25/54] fix: extra constraints missing from by-name constraints
 of InflationLP

---
 inflation/lp/InflationLP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index e0cc099..3354c15 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1733,12 +1733,12 @@ class InflationLP(object):
     # Preparation for passing to external interfaces                          #
     ###########################################################################
 
-    @cached_property
+    @property
     def moment_equalities_by_name(self):
         """List of dictionaries of moment equalities by name."""
         return self._coo_mat_to_dict(self.sparse_equalities, string_keys=True)
 
-    @cached_property
+    @property
     def moment_inequalities_by_name(self):
         """List of dictionaries of moment inequalities by name."""
         return self._coo_mat_to_dict(self.sparse_inequalities, 
-- 
2.43.0


From f90dd5b60d5652f58d75b993737063bd029170bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 26/54] fix: lower bounds of a previous support remained in
 InflationLP

---
 inflation/lp/InflationLP.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 3354c15..b4df149 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1670,6 +1670,8 @@ class InflationLP(object):
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
+                self._replaced_lowerbounds.setdefault(
+                    mon, self.moment_lowerbounds.get(mon, None))
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
@@ -1694,6 +1696,7 @@ class InflationLP(object):
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = dict()
+        self._replaced_lowerbounds = dict()
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
@@ -1714,6 +1717,13 @@ class InflationLP(object):
         self.known_moments[self.One] = 1.
         self.extra_equalities = []
         self.extra_inequalities = []
+        # Remove the lower bounds that represent the previous support
+        for mon, bound in self._replaced_lowerbounds.items():
+            if bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = bound
+        self._replaced_lowerbounds = dict()
         collect()
 
     def _reset_solution(self) -> None:
-- 
2.43.0


From 26b9937d0fd96e81d80d0e021c1a35063ed0a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 27/54] fix: discard the solution when setting extra
 constraints

---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index b4df149..323ab57 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -518,6 +518,7 @@ class InflationLP(object):
             The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_equalities = []  # Reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -535,6 +536,7 @@ class InflationLP(object):
              constraints. The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # Reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e9323f9..7a0ae31 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -437,6 +437,7 @@ class InflationSDP:
             (keys can be instances of `CompoundMonomial`, Symbols, strings, or
             integers), or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_equalities = []  # reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -454,6 +455,7 @@ class InflationSDP:
             dictionaries (keys can be instances of `CompoundMonomial`, Symbols,
             strings, or integers) or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
-- 
2.43.0


From d3c1fc56ad97428d05257f2c928646c55ca4bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 28/54] fix: variable bounds were written without line breaks
 in LP files

---
 inflation/lp/writer_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 277fa04..a331f15 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -50,10 +50,13 @@ def write_to_lp(args: dict, filename: str) -> None:
             i += 1
 
     f.write("bounds\n")
-    for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}")
-    for x in upper_bounds:
-        f.write(f"{x} <= {upper_bounds[x]}")
+    for x in variables:
+        if x in lower_bounds and x in upper_bounds:
+            f.write(f"{lower_bounds[x]} <= {x} <= {upper_bounds[x]}\n")
+        elif x in lower_bounds:
+            f.write(f"{x} >= {lower_bounds[x]}\n")
+        elif x in upper_bounds:
+            f.write(f"{x} <= {upper_bounds[x]}\n")
     f.write("end")
     f.close()
 
-- 
2.43.0


From 1c6cab3f7440c236a88d38c9b8232f2c31d3d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 29/54] fix: constant objectives and violated constant
 constraints were lost when exporting linear programs

---
 inflation/lp/writer_utils.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index a331f15..693920c 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -81,11 +81,17 @@ def write_to_mps(args: dict, filename: str) -> None:
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
 
-    # Exclude constraints in which variables are all known values
+    # Exclude constraints in which variables are all known values, except if
+    # those values do not satisfy them
+    def known_part(cons):
+        return sum(cons[x] * known_vars[x]
+                   for x in set(cons).intersection(known_vars))
     internal_equalities = [eq for eq in internal_equalities
-                           if set(eq).difference(known_vars)]
+                           if set(eq).difference(known_vars)
+                           or abs(known_part(eq)) >= 1e-10]
     inequalities = [ineq for ineq in inequalities
-                    if set(ineq).difference(known_vars)]
+                    if set(ineq).difference(known_vars)
+                    or known_part(ineq) <= -1e-10]
     constraints = internal_equalities + inequalities
     nof_equalities = len(internal_equalities)
     nof_inequalities = len(inequalities)
@@ -244,7 +250,13 @@ def format_constraint_lp(known_vars: dict,
     for x in set(constraint).difference(known_vars):
         cons += f"{constraint[x]} {x} + "
     if cons == "":
-        return cons
+        # Without unknown variables, keep only what still has a meaning: the
+        # value of the objective, and the constraints that are not satisfied
+        if cons_type == 'obj':
+            return str(c)
+        if (abs(c) < 1e-10 if cons_type == 'eq' else c > -1e-10):
+            return cons
+        cons = f"0 {next(iter(constraint))} + "
 
     if cons_type == 'obj':
         cons += str(c)
-- 
2.43.0


From 46c895048477b12961dcec164ad05f2434a3537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 30/54] fix: coefficients were rounded to four decimals in MPS
 files

---
 inflation/lp/writer_utils.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 693920c..177c6b2 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -113,17 +113,17 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"COLUMNS\n")
     for x in variables:
         if x in set(objective).difference(known_vars):
-            arr = [x, 'obj', objective[x]]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            arr = [x, 'obj', float(objective[x])]
+            f.write("    {:10}{:10}{:<10}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
-                arr = [x, f"c{i}", eq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                arr = [x, f"c{i}", float(eq[x])]
+                f.write("    {:10}{:10}{:<10}\n".format(*arr))
         for i, ineq in enumerate(inequalities):
             if x in set(ineq).difference(known_vars):
                 arr = [x, f"c{nof_equalities + i}",
-                       ineq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                       float(ineq[x])]
+                f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     f.write(f"RHS\n")
     # Specify objective offset
@@ -131,8 +131,8 @@ def write_to_mps(args: dict, filename: str) -> None:
     for x in set(objective).intersection(known_vars):
         rhs -= objective[x] * known_vars[x]
     if rhs != 0:
-        arr = ['rhs', 'obj', rhs]
-        f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['rhs', 'obj', float(rhs)]
+        f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     # Specify non-zero RHS values of the constraints
     for i, c in enumerate(constraints):
@@ -140,19 +140,19 @@ def write_to_mps(args: dict, filename: str) -> None:
         for x in set(c).intersection(known_vars):
             rhs -= c[x] * known_vars[x]
         if rhs != 0:
-            arr = ['rhs', f"c{i}", rhs]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            arr = ['rhs', f"c{i}", float(rhs)]
+            f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     f.write(f"RANGES\n")
 
     # Specify variable bound values
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
-        arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['bound', x, float(lower_bounds[x])]
+        f.write(" LO {:10}{:10}{:<10}\n".format(*arr))
     for x in upper_bounds:
-        arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['bound', x, float(upper_bounds[x])]
+        f.write(" UP {:10}{:10}{:<10}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
-- 
2.43.0


From 731fb423e75f101527041fb9f29e9c8353a9ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 31/54] fix: MPS files had bounds of variables that were not
 declared

---
 inflation/lp/writer_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 177c6b2..7062b13 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -111,7 +111,12 @@ def write_to_mps(args: dict, filename: str) -> None:
 
     # Specify columns of the problem
     f.write(f"COLUMNS\n")
+    used = set(objective).union(*constraints).difference(known_vars)
     for x in variables:
+        if (x in lower_bounds or x in upper_bounds) and x not in used:
+            # Only declared columns can have bounds
+            arr = [x, 'obj', 0.0]
+            f.write("    {:10}{:10}{:<10}\n".format(*arr))
         if x in set(objective).difference(known_vars):
             arr = [x, 'obj', float(objective[x])]
             f.write("    {:10}{:10}{:<10}\n".format(*arr))
-- 
2.43.0


From 3e843cb46d3c34671dcc8b435b721c903a987a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 32/54] fix: file names with dots in their folders were
 rejected or misplaced when exporting

---
 inflation/lp/InflationLP.py   | 7 +++----
 inflation/lp/writer_utils.py  | 3 ++-
 inflation/sdp/InflationSDP.py | 7 +++----
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 323ab57..1ff168e 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -9,6 +9,7 @@ from collections import Counter, defaultdict
 from functools import reduce, cached_property
 from gc import collect
 from operator import neg as op_neg
+from os.path import splitext
 from numbers import Real
 from typing import List, Dict, Union, Any
 from warnings import warn
@@ -919,10 +920,8 @@ class InflationLP(object):
             ``.mps`` (MPS).
         """
         # Determine file extension
-        parts = filename.split(".")
-        if len(parts) >= 2:
-            extension = parts[-1]
-        else:
+        extension = splitext(filename)[1][1:]
+        if not extension:
             extension = "lp"
             filename += ".lp"
 
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 7062b13..f8f7aac 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -7,6 +7,7 @@ problem to file.
 
 import mosek
 from copy import deepcopy
+from os.path import splitext
 
 
 def write_to_lp(args: dict, filename: str) -> None:
@@ -173,7 +174,7 @@ def lp_to_mps(args: dict, filename: str) -> None:
     filename : str
         The file to write to.
     """
-    lp_filename = f"{filename.split('.')[0]}.lp"
+    lp_filename = f"{splitext(filename)[0]}.lp"
     write_to_lp(args, lp_filename)
     with mosek.Task() as t:
         t.readdata(f"{lp_filename}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 7a0ae31..b74c786 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -11,6 +11,7 @@ from itertools import chain, count, product, repeat, combinations
 from operator import neg as op_neg
 from numbers import Real
 from operator import itemgetter
+from os.path import splitext
 from typing import List, Dict, Tuple, Union, Any
 from warnings import warn
 
@@ -1332,10 +1333,8 @@ class InflationSDP:
             (MATLAB), ``.dat-s`` (SDPA), and ``.csv`` (human-readable).
         """
         # Determine file extension
-        parts = filename.split(".")
-        if len(parts) >= 2:
-            extension = parts[-1]
-        else:
+        extension = splitext(filename)[1][1:]
+        if not extension:
             extension = "dat-s"
             filename += ".dat-s"
 
-- 
2.43.0


From 9cf9d83598d8692e8584de481351a587aa0cdeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 33/54] fix: variables of linear programs that can be negative
 were exported as nonnegative

---
 inflation/lp/InflationLP.py  |  1 +
 inflation/lp/writer_utils.py | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 1ff168e..bc64a56 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -927,6 +927,7 @@ class InflationLP(object):
 
         # Write file according to the extension
         args = self._prepare_solver_arguments(separate_bounds=True)
+        args["default_non_negative"] = self.default_non_negative
         if self.verbose > 0:
             print("Writing the LP program to", filename)
         if extension == "lp":
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index f8f7aac..4803e1f 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -29,7 +29,7 @@ def write_to_lp(args: dict, filename: str) -> None:
     lower_bounds = processed_args["lower_bounds"]
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
-
+    non_negative = args.get("default_non_negative", True)
 
     # Write problem to file
     f = open(filename, "w")
@@ -57,7 +57,10 @@ def write_to_lp(args: dict, filename: str) -> None:
         elif x in lower_bounds:
             f.write(f"{x} >= {lower_bounds[x]}\n")
         elif x in upper_bounds:
-            f.write(f"{x} <= {upper_bounds[x]}\n")
+            f.write(f"{x} <= {upper_bounds[x]}\n" if non_negative else
+                    f"-inf <= {x} <= {upper_bounds[x]}\n")
+        elif not non_negative and x not in known_vars:
+            f.write(f"{x} free\n")
     f.write("end")
     f.close()
 
@@ -81,6 +84,7 @@ def write_to_mps(args: dict, filename: str) -> None:
     lower_bounds = processed_args["lower_bounds"]
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
+    non_negative = args.get("default_non_negative", True)
 
     # Exclude constraints in which variables are all known values, except if
     # those values do not satisfy them
@@ -114,7 +118,8 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"COLUMNS\n")
     used = set(objective).union(*constraints).difference(known_vars)
     for x in variables:
-        if (x in lower_bounds or x in upper_bounds) and x not in used:
+        if ((x in lower_bounds or x in upper_bounds or not non_negative)
+                and x not in used):
             # Only declared columns can have bounds
             arr = [x, 'obj', 0.0]
             f.write("    {:10}{:10}{:<10}\n".format(*arr))
@@ -153,6 +158,11 @@ def write_to_mps(args: dict, filename: str) -> None:
 
     # Specify variable bound values
     f.write(f"BOUNDS\n")
+    if not non_negative:
+        for x in variables:
+            if x not in lower_bounds:
+                arr = ['bound', x]
+                f.write(" MI {:10}{:10}\n".format(*arr))
     for x in lower_bounds:
         arr = ['bound', x, float(lower_bounds[x])]
         f.write(" LO {:10}{:10}{:<10}\n".format(*arr))
-- 
2.43.0


From fb5b7d00867e68ae18d596239dbe39e6e65e2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 34/54] fix: bounds given as numpy numbers were written in CSV
 files with their type

---
 inflation/sdp/writer_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c5d7ea7..8d47492 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -82,8 +82,9 @@ def convert_to_human_readable(problem):
     bounds = np.zeros((len(bounded_vars), 3), dtype=object)
     for idx, var in enumerate(bounded_vars):
         bounds[idx, 0] = var
-        bounds[idx, 1] = problem.moment_lowerbounds.get(var, None)
-        bounds[idx, 2] = problem.moment_upperbounds.get(var, None)
+        for col, bnds in [(1, problem.moment_lowerbounds),
+                          (2, problem.moment_upperbounds)]:
+            bounds[idx, col] = float(bnds[var]) if var in bnds else None
 
     ### Process equalities
     equalities = []
-- 
2.43.0


From 2a0d549af99c3b7941da56212745a8c39b9ae8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 35/54] fix: CSV files referred to moments whose values were
 not in the file

---
 inflation/sdp/writer_utils.py | 48 ++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 8d47492..00d4320 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -11,6 +11,36 @@ from scipy.io import savemat
 from warnings import warn
 
 
+def substitute_known(problem, expression):
+    """Substitute the known and semiknown moments in a linear combination.
+
+    Parameters
+    ----------
+    problem : :class:`inflation.InflationSDP`
+        The SDP relaxation.
+    expression : Dict[CompoundMomentSDP, float]
+        The moments in the linear combination and their coefficients.
+
+    Returns
+    -------
+    Dict[CompoundMomentSDP, float]
+        The linear combination in terms of unknown moments and, if there is
+        a constant term, of ``problem.One``.
+    """
+    substituted = dict()
+    for mon, coeff in expression.items():
+        while mon in problem.semiknown_moments:
+            factor, mon = problem.semiknown_moments[mon]
+            coeff = coeff * factor
+        if mon in problem.known_moments:
+            coeff = coeff * problem.known_moments[mon]
+            mon = problem.One
+        substituted[mon] = substituted.get(mon, 0) + coeff
+    if substituted.get(problem.One, None) == 0:
+        del substituted[problem.One]
+    return substituted
+
+
 def convert_to_human_readable(problem):
     """Convert the SDP relaxation to a human-readable format.
 
@@ -58,8 +88,9 @@ def convert_to_human_readable(problem):
 
     ### Process objective
     is_first = True
+    processed_objective = substitute_known(problem, problem.objective)
     try:
-        independent_term = float(problem.objective[problem.One])
+        independent_term = float(processed_objective[problem.One])
         if abs(independent_term) > 1e-8:
             objective = str(independent_term)
             is_first = False
@@ -67,7 +98,7 @@ def convert_to_human_readable(problem):
             objective = ""
     except KeyError:
         objective = ""
-    for variable, coeff in problem.objective.items():
+    for variable, coeff in processed_objective.items():
         if variable != problem.One:
             if (coeff < 0) or is_first:
                 objective += f"{float(coeff)}*{variable.name}"
@@ -90,7 +121,7 @@ def convert_to_human_readable(problem):
     equalities = []
     for eq in problem.moment_equalities:
         equality = ""
-        for monom, coeff in eq.items():
+        for monom, coeff in substitute_known(problem, eq).items():
             equality += "+" if coeff > 0 else "-"
             if monom == problem.One:
                 equality += str(abs(coeff))
@@ -99,13 +130,15 @@ def convert_to_human_readable(problem):
                     equality += monom.name
                 else:
                     equality += f"{abs(coeff)}*{monom.name}"
-        equalities.append(equality[1:] if equality[0] == "+" else equality)
+        if equality != "":
+            equalities.append(equality[1:] if equality[0] == "+"
+                              else equality)
     
     ### Process inequalities
     inequalities = []
     for ineq in problem.moment_inequalities:
         inequality = ""
-        for monom, coeff in ineq.items():
+        for monom, coeff in substitute_known(problem, ineq).items():
             inequality += "+" if coeff > 0 else "-"
             if monom == problem.One:
                 inequality += str(abs(coeff))
@@ -114,8 +147,9 @@ def convert_to_human_readable(problem):
                     inequality += monom.name
                 else:
                     inequality += f"{abs(coeff)}*{monom.name}"
-        inequalities.append(inequality[1:] if inequality[0] == "+"
-                            else inequality)
+        if inequality != "":
+            inequalities.append(inequality[1:] if inequality[0] == "+"
+                                else inequality)
     return objective, matrix, bounds.tolist(), equalities, inequalities
 
 
-- 
2.43.0


From d4ce211e0090089bd190d9a5d6bb5ccbc7bff4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 36/54] fix: moments that appear only in semiknown moments had
 no name in MAT files

---
 inflation/sdp/writer_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 00d4320..b70e9ce 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -252,8 +252,11 @@ def write_to_mat(problem, filename):
                    for mon, bnd in problem.moment_lowerbounds.items()]
     upperbounds = [[mon.idx + offset, bnd]
                    for mon, bnd in problem.moment_upperbounds.items()]
+    all_moments = {mon.idx: mon for mon in problem.moments}
+    for factor, mon in problem.semiknown_moments.values():
+        all_moments.setdefault(mon.idx, mon)
     names       = np.array([[mon.idx + offset, mon.name]
-                            for mon in problem.moments], dtype=object)
+                            for mon in all_moments.values()], dtype=object)
     equalities  = []
     for eq in problem.moment_equalities:
         equality = {'moments': np.array([mon.idx + offset for mon in eq]),
-- 
2.43.0


From 30cf5c12abd5de83a56c46c9665a66b62951a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 37/54] fix: negative values and upper bounds were written with
 the wrong sign in SDPA files

---
 inflation/sdp/writer_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index b70e9ce..9ac8dc6 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -339,7 +339,7 @@ def write_to_sdpa(problem, filename):
                 elif var in known_moments_indices.keys():
                     coeff = known_moments_indices[var]
                     lines.append(
-                        f"0\t{block}\t{ii+1}\t{jj+1}\t-{abs(coeff)}\n")
+                        f"0\t{block}\t{ii+1}\t{jj+1}\t{-float(coeff)}\n")
                 elif var in semiknowns.keys():
                     coeff, subs = semiknowns[var]
                     try:
@@ -388,7 +388,7 @@ def write_to_sdpa(problem, filename):
             var = var_corresp[var.idx]
             lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
             if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t-{ub}\n")
+                lines.append(f"0\t{block}\t{ii}\t{ii}\t{-float(ub)}\n")
             ii += 1
 
     # Prepare lower bounds
-- 
2.43.0


From 4e1897681b4b64ab978c6c04b72405fb4031c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 38/54] fix: inequalities after the first one were outside of
 their block in SDPA files

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 9ac8dc6..5fdcadc 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -445,7 +445,7 @@ def write_to_sdpa(problem, filename):
                     sumcoeffs += coeff
         if sumcoeffs != 0:
             lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 2
+        ii += 1
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From 76c6bff8e3507d46646942da91600c47b67e9967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 39/54] fix: known and semiknown moments in objectives and
 constraints made the export to SDPA files crash

---
 inflation/sdp/writer_utils.py | 93 ++++++++++++++---------------------
 1 file changed, 36 insertions(+), 57 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 5fdcadc..b7752ab 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -304,31 +304,19 @@ def write_to_sdpa(problem, filename):
     For more information about the .dat-s format, see the specifications at:
     http://euler.nmt.edu/~brian/sdplib/FORMAT
     """
-    # Compute actual number of variables: all in the moment matrix, minus those
-    # with known values, minus those that participate in LPI constraints, plus
-    # those where the unknown part of the LPI constraint is not in the original
-    # moment matrix
-    potential_nvars = problem.momentmatrix.max() - 1
-    if len(problem.known_moments) == 1:
-        known_vars = 0
-    else:
-        known_vars = (len(problem.known_moments)
-                      - problem.momentmatrix_has_a_zero
-                      - problem.momentmatrix_has_a_one)
-    semiknown_vars = len(problem.semiknown_moments)
-    new_vars       = sum([mon[1][1].idx > problem.momentmatrix.max()
-                          for mon in problem.semiknown_moments.items()])
-    nvars = potential_nvars - known_vars - semiknown_vars + new_vars
-
     known_moments_indices = {mon.idx: coeff
                              for mon, coeff in problem.known_moments.items()}
     semiknowns  = {mon.idx: (subs[0], subs[1].idx)
                    for mon, subs in problem.semiknown_moments.items()}
     lines       = []
     var_corresp = {}
-    new_var     = 1
     block       = 1
     blockstruct = [str(problem.momentmatrix.shape[0])]
+
+    def variable_of(idx):
+        # Variables are numbered in order of appearance
+        return var_corresp.setdefault(int(idx), len(var_corresp) + 1)
+
     for ii, row in enumerate(problem.momentmatrix):
         for jj, var in enumerate(row):
             if jj >= ii:
@@ -342,35 +330,24 @@ def write_to_sdpa(problem, filename):
                         f"0\t{block}\t{ii+1}\t{jj+1}\t{-float(coeff)}\n")
                 elif var in semiknowns.keys():
                     coeff, subs = semiknowns[var]
-                    try:
-                        var = var_corresp[subs]
-                        lines.append(
-                            f"{var}\t{block}\t{ii+1}\t{jj+1}\t{coeff}\n")
-                    except KeyError:
-                        var_corresp[subs] = new_var
-                        lines.append(
-                            f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t{coeff}\n")
-                        new_var += 1
+                    var = variable_of(subs)
+                    lines.append(
+                        f"{var}\t{block}\t{ii+1}\t{jj+1}\t{coeff}\n")
                 else:
-                    try:
-                        var = var_corresp[var]
-                        lines.append(f"{var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
-                    except KeyError:
-                        var_corresp[int(var)] = new_var
-                        lines.append(
-                            f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
-                        new_var += 1
+                    var = variable_of(var)
+                    lines.append(f"{var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
 
     # Prepare objective
-    objective = np.zeros(nvars)
-    for variable, coeff in problem.objective.items():
+    objective_coeffs   = dict()
+    objective_constant = 0
+    for variable, coeff in substitute_known(problem,
+                                            problem.objective).items():
         if variable == problem.One:
+            objective_constant = coeff
             if abs(coeff) > 1e-8:
                 warn(f"Export removed the constant {coeff} from the objective")
         else:
-            objective[var_corresp[variable.idx] - 1] = coeff
-    objective = str(objective.tolist()).replace("[", "").replace("]", "")
-    objective_constant = problem.objective[problem.One]
+            objective_coeffs[variable_of(variable.idx)] = coeff
 
     # Prepare upper bounds
     if len(problem.moment_upperbounds) > 0:
@@ -385,7 +362,7 @@ def write_to_sdpa(problem, filename):
         if ((var != problem.One)
             and (var not in problem.known_moments.keys())
             and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
+            var = variable_of(var.idx)
             lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
             if abs(ub) > 1e-8:
                 lines.append(f"0\t{block}\t{ii}\t{ii}\t{-float(ub)}\n")
@@ -404,7 +381,7 @@ def write_to_sdpa(problem, filename):
         if ((var != problem.One)
             and (var not in problem.known_moments.keys())
             and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
+            var = variable_of(var.idx)
             lines.append(f"{var}\t{block}\t{ii}\t{ii}\t1.0\n")
             if abs(lb) > 1e-8:
                 lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
@@ -417,15 +394,14 @@ def write_to_sdpa(problem, filename):
         block_size = 2*len(problem.moment_equalities)
         blockstruct.append(str(-block_size))
     for equality in problem.moment_equalities:
-        for var, coeff in equality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
-                else:
-                    lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
-                    lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
+        for var, coeff in substitute_known(problem, equality).items():
+            if var != problem.One:
+                var = variable_of(var.idx)
+                lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+                lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
+            else:
+                lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
+                lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
         ii += 2
 
     # Prepare inequalities
@@ -436,16 +412,19 @@ def write_to_sdpa(problem, filename):
         blockstruct.append(str(-block_size))
     for inequality in problem.moment_inequalities:
         sumcoeffs = 0
-        for var, coeff in inequality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                else:
-                    sumcoeffs += coeff
+        for var, coeff in substitute_known(problem, inequality).items():
+            if var != problem.One:
+                var = variable_of(var.idx)
+                lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+            else:
+                sumcoeffs += coeff
         if sumcoeffs != 0:
             lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
         ii += 1
+    nvars     = len(var_corresp)
+    objective = [float(objective_coeffs.get(var, 0))
+                 for var in range(1, nvars + 1)]
+    objective = str(objective).replace("[", "").replace("]", "")
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From ba2bc8222a74124d5122b5fd186db3adf89e005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 40/54] fix: bounds of semiknown moments were missing in SDPA
 files

---
 inflation/sdp/writer_utils.py | 62 +++++++++++++++--------------------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index b7752ab..0aa6532 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -349,43 +349,33 @@ def write_to_sdpa(problem, filename):
         else:
             objective_coeffs[variable_of(variable.idx)] = coeff
 
-    # Prepare upper bounds
-    if len(problem.moment_upperbounds) > 0:
+    # Prepare bounds. The lower bounds of semiknown moments that follow from
+    # those of the moments they are proportional to are not needed
+    def needed(mon, bound, typ):
+        if mon == problem.One or mon in problem.known_moments:
+            return False
+        if mon in problem.semiknown_moments and typ == "lo":
+            factor, subs = problem.semiknown_moments[mon]
+            subs_bound   = problem.moment_lowerbounds.get(subs, -np.inf)
+            return not (factor >= 0 and factor * subs_bound >= bound)
+        return True
+
+    for typ, bounds in [("up", problem.moment_upperbounds),
+                        ("lo", problem.moment_lowerbounds)]:
+        bounds = {mon: bnd for mon, bnd in bounds.items()
+                  if needed(mon, bnd, typ)}
+        if len(bounds) == 0:
+            continue
+        sign   = -1 if typ == "up" else 1
         block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_upperbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, ub in problem.moment_upperbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = variable_of(var.idx)
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
-            if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t{-float(ub)}\n")
-            ii += 1
-
-    # Prepare lower bounds
-    if len(problem.moment_lowerbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_lowerbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, lb in problem.moment_lowerbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = variable_of(var.idx)
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t1.0\n")
-            if abs(lb) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
-            ii += 1
+        blockstruct.append(str(-len(bounds)))
+        for ii, (mon, bnd) in enumerate(bounds.items(), start=1):
+            factor, mon = problem.semiknown_moments.get(mon, (1, mon))
+            coeff       = float(sign * factor)
+            lines.append(
+                f"{variable_of(mon.idx)}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+            if abs(bnd) > 1e-8:
+                lines.append(f"0\t{block}\t{ii}\t{ii}\t{sign * float(bnd)}\n")
 
     # Prepare equalities
     if len(problem.moment_equalities) > 0:
-- 
2.43.0


From 72a13ac3b78c779cab46dd2b6ca2d448ccb9fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 41/54] fix: local levels with capital letters produced
 physical generating sets

---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b74c786..b19a0e1 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1203,7 +1203,7 @@ class InflationSDP:
                   or ("physical" in column_specification.lower())):
                 lengths_init = (5 if "local" in column_specification.lower()
                                 else 8)
-                spec    = column_specification[:lengths_init]
+                spec    = column_specification[:lengths_init].lower()
                 lengths = column_specification[lengths_init:]
                 if len(lengths) == 0:
                     if spec == "local":
-- 
2.43.0


From 96fe45cd6c14c5d39ab771b184fae8a92930c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 42/54] fix: names of operators in scenarios with causes among
 variables could not be interpreted

---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index bc64a56..365aec6 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1194,6 +1194,8 @@ class InflationLP(object):
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
                 or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b19a0e1..0fb44d3 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1756,6 +1756,8 @@ class InflationSDP:
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
                 or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
-- 
2.43.0


From b552fc7ffa16f79776bef2336d11265fe4be7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:48 +0000
Subject: [PATCH 43/54] fix: unbounded SDPs were reported as infeasible

---
 inflation/sdp/sdp_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 03aff66..0e218ef 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -471,7 +471,12 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
 
             elif status in [ProblemStatus.DualInfeasible,
                             ProblemStatus.PrimalInfeasible]:
-                status_str = "infeasible"
+                # Only one of the two is a certificate of infeasibility of the
+                # relaxation; the other says that the objective is unbounded
+                if (status == ProblemStatus.DualInfeasible) == solve_dual:
+                    status_str = "infeasible"
+                else:
+                    status_str = "unbounded"
             elif status == ProblemStatus.Unknown:
                 status_str = "unknown"
                 code, desc = mosek.Env.getcodedesc(
-- 
2.43.0


From fd4444182bc43f21ecb67d7cdd59acb6ec985fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:48 +0000
Subject: [PATCH 44/54] fix: names of probabilities with several operators were
 refused

---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 365aec6..d4e804e 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1197,7 +1197,7 @@ class InflationLP(object):
         if factor_string in self.op_from_name:
             return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 0fb44d3..7c73fd0 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1759,7 +1759,7 @@ class InflationSDP:
         if factor_string in self.op_from_name:
             return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
-- 
2.43.0


From 11bc538a78191edac187d6c1e5156e7cbce88b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 45/54] fix: products of moments were read as moments of
 products

---
 inflation/lp/InflationLP.py   | 18 ++++++++++++++++++
 inflation/sdp/InflationSDP.py | 17 +++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index d4e804e..2278e78 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1076,6 +1076,11 @@ class InflationLP(object):
                 return self.monomial_from_symbol[mon]
             except KeyError:
                 symbols = flatten_symbolic_powers(mon)
+                factors = list(map(str, symbols))
+                if self._is_product_of_moments(factors):
+                    return self._monomial_from_atoms(
+                        [atom for factor in factors
+                         for atom in self._sanitise_monomial(factor).factors])
                 if len(symbols) == 1:
                     try:
                         return self.monomial_from_name[str(symbols[0])]
@@ -1099,6 +1104,11 @@ class InflationLP(object):
             try:
                 return self.monomial_from_name[mon]
             except KeyError:
+                factors = mon.split("*")
+                if self._is_product_of_moments(factors):
+                    return self._monomial_from_atoms(
+                        [atom for factor in factors
+                         for atom in self._sanitise_monomial(factor).factors])
                 print(f"As of now we only recognize \n{list(self.monomial_from_name.keys())}")
                 return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, Real):
@@ -1139,6 +1149,14 @@ class InflationLP(object):
     ###########################################################################
     # ROUTINES RELATED TO NAME PARSING                                        #
     ###########################################################################
+    def _is_product_of_moments(self, factors: List[str]) -> bool:
+        """Determine whether the factors of a product are all expectation
+        values, and not operators (in which case the product denotes the
+        expectation value of the product of the operators)."""
+        return len(factors) > 1 and all((factor not in self.op_from_name)
+                                        and factor[-1:] in {">", ")", "]", "}"}
+                                        for factor in factors)
+
     def _interpret_name(self,
                         monomial: Union[str, sp.core.symbol.Expr, int]
                         ) -> np.ndarray:
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 7c73fd0..f730707 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1624,6 +1624,15 @@ class InflationSDP:
                 self.mon_to_lexrepr(array))
             return self.Moment_1d(canon_lexmon)
         elif isinstance(moment, (str, sp.core.symbol.Expr)):
+            if isinstance(moment, str):
+                known, factors = self.monomial_from_name, moment.split("*")
+            else:
+                known   = self.monomial_from_symbol
+                factors = list(map(str, flatten_symbolic_powers(moment)))
+            if (moment not in known) and self._is_product_of_moments(factors):
+                return self._monomial_from_atoms(
+                    [atom for factor in factors
+                     for atom in self._sanitise_moment(factor).factors])
             return self._sanitise_moment(self._interpret_name(moment))
         elif isinstance(moment, Real):
             if np.isclose(float(moment), 1):
@@ -1701,6 +1710,14 @@ class InflationSDP:
     # ROUTINES RELATED TO NAME PARSING                                        #
     ###########################################################################
     
+    def _is_product_of_moments(self, factors: List[str]) -> bool:
+        """Determine whether the factors of a product are all expectation
+        values, and not operators (in which case the product denotes the
+        expectation value of the product of the operators)."""
+        return len(factors) > 1 and all((factor not in self.op_from_name)
+                                        and factor[-1:] in {">", ")", "]", "}"}
+                                        for factor in factors)
+
     def _interpret_name(self,
                         monomial: Union[str, sp.core.symbol.Expr, int]
                         ) -> np.ndarray:
-- 
2.43.0


From c4ab5f5e0ceeb92e17ec55067deb35a520b9f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 46/54] fix: products of small values of a support were taken
 as impossible

---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 2278e78..687ecab 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -423,6 +423,8 @@ class InflationLP(object):
                   # in a way that is also compatible with symbolic values.
                 if np.isnan(value):
                     continue
+                if self.supports_problem:  # Only the support matters
+                    value = float(not np.isclose(value, 0))
             except TypeError:
                 pass
             mon = self._sanitise_monomial(mon)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f730707..d46d620 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -710,6 +710,8 @@ class InflationSDP:
                   # in a way that is also compatible with symbolic values.
                 if np.isnan(value):
                     continue
+                if self.supports_problem:  # Only the support matters
+                    value = float(not np.isclose(value, 0))
             except TypeError:
                 pass
             moment = self._sanitise_moment(moment)
-- 
2.43.0


From 13c5d9cfd968fb47e997906036969ab5f4876dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 47/54] fix: the order of the parties was shared with the
 caller

---
 inflation/InflationProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index 1f6eed8..a2b3d9e 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -127,7 +127,7 @@ class InflationProblem:
                 sanity_check = (implicit_names.issubset(order)
                                 and implicit_names.issuperset(order))
                 if sanity_check:
-                    self.names = order
+                    self.names = list(order)
                     names_have_been_set_yet = True
                 else:
                     if self.verbose > 0:
-- 
2.43.0


From ef70eca6000da6a8432569468e3d754fe08f7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 48/54] fix: dual optimisation needed values for every monomial
 in certificates

---
 inflation/optimization_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index f2698d7..cf9750c 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -231,7 +231,12 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     solve_dual     = kwargs.get("solve_dual", True)
     solverparameters = kwargs.get("solverparameters", None)
 
-    symbol_names = {str(key): val for key, val in symbolic_values.items()}
+    # Certificates contain every known monomial, so obtain the expressions of all
+    program.set_values(symbolic_values,
+                       use_lpi_constraints=use_lpi,
+                       only_specified_values=only_specified)
+    symbol_names = {str(mon): val for mon, val in program.known_moments.items()}
+    symbol_names["1"] = symbol_names[program.constant_term_name] = 1
     func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
     sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
     x0 = np.array([bounds[0]])
-- 
2.43.0


From 66c11713ddb4808e1f763ee35795dac9cb4e8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 49/54] fix: dual optimisation returned infeasible values

---
 inflation/optimization_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index cf9750c..2e6d00c 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -238,7 +238,6 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     symbol_names = {str(mon): val for mon, val in program.known_moments.items()}
     symbol_names["1"] = symbol_names[program.constant_term_name] = 1
     func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
-    sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
     x0 = np.array([bounds[0]])
     new_ub = bounds[1]-precision
     old_ub = np.inf
@@ -267,10 +266,15 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
         constraints = {"type": "ineq", "fun": nonneg_func}
         solution = minimize(func_to_minimize, x0,
                             method='SLSQP',
-                            bounds=sp_bounds,
+                            bounds=Bounds(lb=bounds[0], ub=old_ub+precision),
                             constraints=constraints,
                             options={'disp': False})
         new_ub = solution['x'][0]
+        scale = sum(map(
+            abs, program.solution_object["dual_certificate"].values()))
+        assert nonneg_func(new_ub) >= -1e-5*scale, (
+            "The certificate obtained at " + f"{param} = {old_ub+precision} " +
+            f"excludes every value between {bounds[0]} and that one.")
         discovered_certificates.append((new_ub , program.certificate_as_dict()))
         if verbose:
             print(f"Current critical value: {new_ub} (seeded by {old_ub+precision})")
-- 
2.43.0


From 0152e2dd8d53f5ffd58eb786770af1153b32a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 50/54] fix: bisection failed where the values violate
 equalities

---
 inflation/optimization_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 2e6d00c..6537f00 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -164,13 +164,18 @@ def _maximize_via_bisect(program: Union[InflationLP, InflationSDP],
         program.solve(feas_as_optim=True,
                   solve_dual=solve_dual,
                   solverparameters=solverparameters)
+        objective = program.objective_value
+        if "infeas" in program.status and not isinstance(objective, Real):
+            # The values violate constraints that the feasibility problem does
+            # not relax
+            objective = -1.0
         if verbose:
             print(f"Parameter = {value:<6.4g}   " +
-                  f"Maximum smallest eigenvalue: {program.objective_value:10.4g}")
+                  f"Maximum smallest eigenvalue: {objective:10.4g}")
         discovered_certificate = program.certificate_as_dict()
         if len(discovered_certificate):  # Checking if certificate has any nonzero coefficients
             discovered_certificates.append((value, discovered_certificate))
-        return program.objective_value+precision/2048
+        return objective+precision/2048
     assert f(bounds[1])+precision/2048 < 0, f"Certificate of infeasibility for v=1 is {f(bounds[1])}, but must be <{precision/2048}."
     assert f(bounds[0])+precision/2048 > 0, f"Certificate of feasibility for v=0 is {f(bounds[0])}, but must be nonnegative."
     crit_param = bisect(f, bounds[0], bounds[1], **bisect_kwargs, full_output=False)
-- 
2.43.0


From 52f520b902eeb0c9b3881494217c272b3d008f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 51/54] fix: values equal to a bound up to rounding were
 refused

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index d46d620..3b63f06 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2171,6 +2171,7 @@ class InflationSDP:
                 try:
                     b = bounds[mon]
                     condition = (b >= value) if typ == "up" else (b <= value)
+                    condition = condition or abs(b - value) < 1e-10
                     assert condition, (f"Value {value} assigned for " +
                                        f"monomial {mon} contradicts the " +
                                        f"assigned {dir}er bound of {b}.")
-- 
2.43.0


From a412bedac3f127cd348d31d3a0463faf23601d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 52/54] fix: cardinalities and inflation levels were refused as
 arrays

---
 inflation/InflationProblem.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index a2b3d9e..e6f9e69 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -86,19 +86,19 @@ class InflationProblem:
         self.verbose = verbose
 
         # Read settings and outcomes
-        if not outcomes_per_party:
+        if outcomes_per_party is None or not len(outcomes_per_party):
             raise ValueError("Please provide outcomes per party.")
         self.outcomes_per_party = np.array(outcomes_per_party, dtype=int)
         self.nr_parties         = len(self.outcomes_per_party)
-        if not settings_per_party:
+        if settings_per_party is None or not len(settings_per_party):
             if self.verbose > 0:
                 warn("No settings per party provided, " +
                      "assuming all parties have one setting.")
             self.private_settings_per_party = np.ones(self.nr_parties,
                                                       dtype=int)
         else:
-            self.private_settings_per_party = np.asarray(settings_per_party,
-                                                         dtype=int)
+            self.private_settings_per_party = np.array(settings_per_party,
+                                                       dtype=int)
             assert len(self.private_settings_per_party) == self.nr_parties, \
                 (f"You have specified a list of {len(outcomes_per_party)} "
                  + f"outcomes and a list of {len(settings_per_party)} inputs. "
@@ -273,7 +273,7 @@ class InflationProblem:
         assert np.sum(self.hypergraph, axis=0).all(), \
             ("There appears to be a party with no sources in its past. This is not allowed.")
 
-        if not inflation_level_per_source:
+        if not np.any(inflation_level_per_source):
             if self.verbose > 0:
                 warn("The inflation level per source must be a non-empty list."
                      + " Defaulting to 1 (no inflation, just NPA hierarchy).")
-- 
2.43.0


From 5e5c2728d4295b6dc8b2d2429c21097eaeae094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:38 +0000
Subject: [PATCH 53/54] fix: normalisation equalities of observed nodes with a
 single outcome

---
 inflation/sdp/InflationSDP.py  | 14 +++++++-------
 inflation/sdp/quantum_tools.py |  6 +++++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 3b63f06..d0d0b04 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -7,10 +7,9 @@ instance (see arXiv:1909.10519).
 from collections import Counter, deque, defaultdict
 from functools import reduce, cached_property
 from gc import collect
-from itertools import chain, count, product, repeat, combinations
+from itertools import chain, count, product, combinations
 from operator import neg as op_neg
 from numbers import Real
-from operator import itemgetter
 from os.path import splitext
 from typing import List, Dict, Tuple, Union, Any
 from warnings import warn
@@ -409,11 +408,12 @@ class InflationSDP:
                       len(self.idx_level_equalities))
             for (norm_idx, summation_idxs) in self.idx_level_equalities:
                 eq_dict = {self.compmoment_from_idx[norm_idx]: 1}
-                eq_dict.update(zip(
-                    itemgetter(*summation_idxs)(self.compmoment_from_idx),
-                    repeat(-1)
-                ))
-                self.minimal_equalities.append(eq_dict)
+                for idx in summation_idxs:
+                    mon = self.compmoment_from_idx[idx]
+                    eq_dict[mon] = eq_dict.get(mon, 0) - 1
+                eq_dict = {mon: c for mon, c in eq_dict.items() if c != 0}
+                if eq_dict:
+                    self.minimal_equalities.append(eq_dict)
 
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
diff --git a/inflation/sdp/quantum_tools.py b/inflation/sdp/quantum_tools.py
index 33fcd06..5156345 100644
--- a/inflation/sdp/quantum_tools.py
+++ b/inflation/sdp/quantum_tools.py
@@ -315,7 +315,11 @@ def construct_normalization_eqs(column_equalities: List[Tuple[int, List[int]]],
             summation_idxs = row[summation_cols]
             if summation_idxs.all():
                 summation_idxs.sort()
-                seen_already.add(tuple(summation_idxs.flat))
+                key = tuple(summation_idxs.flat)
+                if len(key) == 1:
+                    # A single term does not determine the left-hand side
+                    key = (norm_idx, *key)
+                seen_already.add(key)
                 if len(seen_already) > nof_seen_already:
                     equalities.append((norm_idx, summation_idxs.tolist()))
                     nof_seen_already += 1
-- 
2.43.0


From d078dda05d72c2de8d1a0fcb34965c42112a0e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:34 +0000
Subject: [PATCH 54/54] fix: objectives and constraints given as a constant
 expression

---
 inflation/lp/InflationLP.py   | 5 +----
 inflation/sdp/InflationSDP.py | 7 ++-----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 687ecab..a0318de 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1136,10 +1136,7 @@ class InflationLP(object):
             The sanitized dictionary.
         """
         if isinstance(input_dict, sp.core.expr.Expr):
-            if input_dict.free_symbols:
-                input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
-            else:
-                input_dict_copy = dict()
+            input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index d0d0b04..3002f20 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1649,11 +1649,8 @@ class InflationSDP:
 
     def _sanitise_dict(self, input_dict: Any) -> Dict:
         if isinstance(input_dict, sp.core.expr.Expr):
-            if input_dict.free_symbols:
-                input_dict_copy = {k: float(v) for k, v in sp.expand(
-                    input_dict).as_coefficients_dict().items()}
-            else:
-                input_dict_copy = dict()
+            input_dict_copy = {k: float(v) for k, v in sp.expand(
+                input_dict).as_coefficients_dict().items()}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
-- 
2.43.0

