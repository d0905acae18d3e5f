From 851af51bcd8fb484c51e416a2216c34f9fb085aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 01/84] fix: programs copy the arrays they are given instead of
 sharing them

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 94e9de5..10b39b0 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1664,9 +1664,9 @@ class LinearProgram:
                 raise ValueError()
 
             if not np.issubdtype(source.dtype, np.floating):
-                source = source.astype(float)
+                return source.astype(float)
 
-            return source
+            return source.copy()
 
         if isinstance(source, list):
             length = None
-- 
2.43.0


From 951f07b1302ce6193840c13f25b01e66a6a49e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 02/84] fix: clear_steps without in_place recursed forever

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 10b39b0..9b2bd69 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1644,7 +1644,7 @@ class LinearProgram:
 
         """
         if not in_place:
-            return self.copy().clear_steps()
+            return self.copy().clear_steps(True)
 
         self._steps = []
 
-- 
2.43.0


From 860631beedd9d7ea8a28a3804ec50a560a398ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 03/84] fix: is_canonical_form_for compared rows of A and
 re-indexed the basis twice

---
 pytimize/programs/_linear.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 9b2bd69..345cd2c 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -532,12 +532,15 @@ class LinearProgram:
 
         """
         basis = self.__array_like_to_list(basis)
+
+        if not self.is_basis(basis):
+            return False
+
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
 
         return all(
             [
-                self.is_basis(basis),
-                np.allclose(self._A[basis], np.eye(len(basis))),
+                np.allclose(self._A[:, basis], np.eye(len(basis))),
                 np.allclose(self._c[basis], 0),
             ]
         )
-- 
2.43.0


From cdf293f59ee997b15b1bf08cd690a54bd6a8ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 04/84] fix: is_feasible_basic_solution always raised

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 345cd2c..b7b18a9 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -623,7 +623,7 @@ class LinearProgram:
         """
         x = self.__to_ndarray(x)
 
-        if not self.__is_vector_of_size(x, self._c):
+        if not self.__is_vector_of_size(x, self._c.shape[0]):
             raise ValueError()
 
         return Comparator.is_close_compare(x, ">=", 0) and self.is_basic_solution(
-- 
2.43.0


From 7f7c5ec4d11e63d33990fb98074fb8c8c2167897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 05/84] fix: compute_basic_solution misplaced the values of an
 unsorted basis

---
 pytimize/programs/_linear.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index b7b18a9..3fceece 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1709,8 +1709,6 @@ class LinearProgram:
         components = np.linalg.inv(self._A[:, basis]) @ self._b
         solution = np.zeros(self._c.shape[0])
 
-        basis.sort()  # TODO copy? To prevent reference
-
         for index, value in zip(basis, components):
             solution[index] = value
 
-- 
2.43.0


From 154bcad9fc5402204e9d5e623c992ff6de085bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 06/84] fix: solve started simplex from a slack basis that is
 not feasible

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 3fceece..cd02192 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -929,7 +929,7 @@ class LinearProgram:
 
         if columns >= rows:
             basis_candidate = [i for i in range(rows + 1, columns + 1)]
-            if sef.is_basis(basis_candidate):
+            if sef.is_basis_feasible(basis_candidate):
                 try:
                     solution = sef.simplex(basis_candidate, show_steps)[0]
 
-- 
2.43.0


From cc50d9dfccd6d42decedf390686df90474b9ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 07/84] fix: unboundedness certificate picked a column by
 rounding noise

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index cd02192..5abe2bf 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1092,7 +1092,7 @@ class LinearProgram:
 
         if basis is None:
             certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
-            k = np.argmax(updated_lp.c > 0)
+            k = np.argmax([Comparator.is_positive(i) for i in updated_lp.c])
             certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
             certificate[1][k] = 1
 
-- 
2.43.0


From 192514aade2445c1f2d0036e638fd05bc080b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 08/84] fix: ratio test ignored relative differences below 1e-5

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 5abe2bf..c00b9bd 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1186,7 +1186,7 @@ class LinearProgram:
             if Comparator.is_positive(Ak[i]):
                 ratio = self._b[i] / Ak[i]
 
-                if Comparator.is_close_compare(ratio, "<", t):
+                if Comparator.is_negative(ratio - t):
                     t = ratio
                     leave = i
 
-- 
2.43.0


From c5c14e6dec21e3634c1c1b0bf514174d986b96f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 09/84] fix: a failing simplex left rows of the program negated

---
 pytimize/programs/_linear.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index c00b9bd..6b9509b 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1077,14 +1077,15 @@ class LinearProgram:
         counter = 0
         negative_indices = np.where(self._b < 0)
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
+        p = self.copy()
+        p._b[negative_indices] *= -1
+        p._A[negative_indices] *= -1
 
         show_steps and self.__append_to_steps(("5.02", counter))
-        show_steps and self.__append_to_steps(("5.01", self))
+        show_steps and self.__append_to_steps(("5.01", p))
 
         while solution is None and basis is not None:
-            solution, basis, updated_lp = self.simplex_iteration(basis, show_steps)
+            solution, basis, updated_lp = p.simplex_iteration(basis, show_steps)
             counter += 1
 
             show_steps and self.__append_to_steps(("5.02", counter))
@@ -1100,7 +1101,7 @@ class LinearProgram:
         else:
             converted_basis = self.__to_array_indexing(basis)
             certificate = (
-                np.linalg.inv(self._A[:, converted_basis].T) @ self._c[converted_basis]
+                np.linalg.inv(p._A[:, converted_basis].T) @ p._c[converted_basis]
             )
             certificate[negative_indices] *= -1
 
@@ -1108,9 +1109,6 @@ class LinearProgram:
             show_steps and self.__append_to_steps(("5.04", basis))
             show_steps and self.__append_to_steps(("5.06", certificate))
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
-
         return solution, basis, certificate
 
     def simplex_iteration(
-- 
2.43.0


From 803c0095f87aae2b2331875fe604bd54707db896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 10/84] fix: two_phase_simplex failed on feasible programs with
 dependent rows

---
 pytimize/programs/_linear.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6b9509b..2112756 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -995,6 +995,21 @@ class LinearProgram:
         solution, basis, certificate = p_aux.simplex(basis)
 
         if Comparator.is_close_to_zero(p_aux.evaluate(solution)):
+            independent = self.__independent_rows()
+
+            if len(independent) < rows:
+                p = LinearProgram(
+                    self._A[independent], self._b[independent], self._c, self._z
+                )
+                solution, basis, certificate = p.two_phase_simplex(show_steps)
+
+                if basis is not None:
+                    y = np.zeros(rows)
+                    y[independent] = certificate
+                    certificate = y
+
+                return solution, basis, certificate
+
             p_basis = basis
 
             if not self.is_basis(p_basis):
@@ -1844,6 +1859,19 @@ class LinearProgram:
 
         return array_like
 
+    def __independent_rows(self) -> List[int]:
+        """
+        Finds a largest set of linearly independent rows of the constraint matrix.
+
+        """
+        rows = []
+
+        for i in range(self._A.shape[0]):
+            if np.linalg.matrix_rank(self._A[rows + [i]]) > len(rows):
+                rows.append(i)
+
+        return rows
+
     # TODO integration
     def __is_in_rref(self, arr):
         """
-- 
2.43.0


From 683d267edce107f1e1159b457de06265d5be48da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 11/84] fix: is_feasible rejected the solver's own solutions
 over rounding errors

---
 pytimize/programs/_linear.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 2112756..d3b298d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1360,15 +1360,18 @@ class LinearProgram:
 
         for i, entry in enumerate(x):  # TODO free vars and negative vars should be set
             if i in self._negative_variables:
-                if not entry <= 0:
+                if Comparator.is_positive(entry):
                     is_feasible = False
             elif i not in self._free_variables:
-                if not entry >= 0:
+                if Comparator.is_negative(entry):
                     is_feasible = False
 
         for i, row in enumerate(self._A):
             value = row @ x
 
+            if np.isclose(value, self._b[i]):
+                continue
+
             if i in self._inequality_indices:
                 current = self._inequality_indices[i]
 
@@ -1376,7 +1379,7 @@ class LinearProgram:
                     is_feasible = False
                 elif current == ">=" and value < self._b[i]:
                     is_feasible = False
-            elif not math.isclose(value, self._b[i]):
+            else:
                 is_feasible = False
         # TODO Add steps back
         if is_feasible:
-- 
2.43.0


From a4c6b3d66e4b041dd6b9742c37a9f571ac360106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 12/84] fix: comparing two programs raised an ambiguous truth
 value error

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index d3b298d..27de085 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -393,9 +393,9 @@ class LinearProgram:
     def __eq__(self, other: "LinearProgram") -> bool:
         # TODO Work in progress
         return (
-            other._A == self._A
-            and other._b == self._b
-            and other._c == self._c
+            np.array_equal(other._A, self._A)
+            and np.array_equal(other._b, self._b)
+            and np.array_equal(other._c, self._c)
             and other._z == self._z
             and other._objective == self._objective
             and other._inequality_indices == self._inequality_indices
-- 
2.43.0


From d45c63b394be3384b65ae0595066ade17ef3e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 13/84] fix: is_solution_optimal always returned None

---
 pytimize/programs/_linear.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 27de085..251733e 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1655,7 +1655,12 @@ class LinearProgram:
         result : bool
 
         """
-        self.is_feasible(x)
+        if not self.is_feasible(x):
+            return False
+
+        value = self.optimal_value()
+
+        return value is not None and bool(np.isclose(self.evaluate(x), value))
 
     def clear_steps(self, in_place=False):
         """
-- 
2.43.0


From cb4ede81295869635d3dee60fdf689f29cc7cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 14/84] fix: add_variable with a wrong column left the program
 half edited

---
 pytimize/programs/_linear.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 251733e..f90489a 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -501,6 +501,12 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        if column is not None:
+            column = self.__to_ndarray(column)
+
+            if not self.__is_vector_of_size(column, self._A.shape[0]):
+                raise ValueError()
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
@@ -508,7 +514,6 @@ class LinearProgram:
             self._negative_variables.append(self._c.shape[0])
             self._is_sef = False
 
-        # TODO validation checks are needed
         self._A = np.c_[
             self._A, column if column is not None else [0] * self._A.shape[0]
         ]
-- 
2.43.0


From 296c719ddf2dae7aeb9c0fc927d9bb948dbb5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 15/84] fix: to_rref failed on current numpy and took rounding
 noise for pivots

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index f90489a..1bd95cb 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1942,14 +1942,14 @@ class LinearProgram:
         :return: An m x n matrix in RREF that is row equivalent to the given matrix.
 
         """
-        arr = arr.astype(np.floating)
+        arr = arr.astype(float)
         shape = arr.shape
         col = 0
         for row in range(shape[0]):
             # Get a 1 in the row,col entry
             if not math.isclose(arr[row, col], 1):
                 i = 0
-                while math.isclose(arr[row, col], 0):
+                while Comparator.is_close_to_zero(arr[row, col]):
                     # If number in row,col is 0, find a lower row with a non-zero entry
                     # If all lower rows have a 0 in the column, move on to the next column
                     if math.isclose(i + row, shape[0]):
@@ -1958,7 +1958,7 @@ class LinearProgram:
                         if math.isclose(col, shape[1]):
                             break
                         continue
-                    if not math.isclose(arr[row + i, col], 0):
+                    if not Comparator.is_close_to_zero(arr[row + i, col]):
                         # Found a lower row with non-zero entry, swap rows
                         arr[[row, row + i]] = arr[[row + i, row]]
                         break
-- 
2.43.0


From 0b3f2454ef67ea34797a60be5f0480ca7f023a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 16/84] fix: is_in_rref accepted leading ones out of order

---
 pytimize/programs/_linear.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 1bd95cb..bc41cba 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1898,6 +1898,7 @@ class LinearProgram:
         shape = arr.shape
         row_has_leading_one = False
         has_zero_row = False
+        previous = -1
 
         # Check that all rows either have a leading one or are zero rows
         # For all leading ones, check that the rest of the column is empty, then ignore rest of row
@@ -1905,7 +1906,7 @@ class LinearProgram:
         for row in range(shape[0]):
             row_has_leading_one = False
             for col in range(shape[1]):
-                if math.isclose(arr[row, col], 0):
+                if Comparator.is_close_to_zero(arr[row, col]):
                     # have not found a non-zero entry yet, search rest of row
                     continue
 
@@ -1916,8 +1917,14 @@ class LinearProgram:
                 elif math.isclose(arr[row, col], 1):
                     # found a leading one, check rest of column for zeros
                     row_has_leading_one = True
+                    if col < previous:
+                        # must be to the right of the leading one above
+                        return False
+                    previous = col
                     for r in range(shape[0]):
-                        if not r == row and not math.isclose(arr[r, col], 0):
+                        if not r == row and not Comparator.is_close_to_zero(
+                            arr[r, col]
+                        ):
                             return False
                     break
 
-- 
2.43.0


From bf6ac8ec445193a87796749b5d5e9d86aad40231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 17/84] fix: graph_polyhedron truncated the constraints to
 integers

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index bc41cba..4aa5c7b 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1430,8 +1430,8 @@ class LinearProgram:
         self._inequality_indices[num_inequalities + 2] = "<="
         self._inequality_indices[num_inequalities + 3] = ">="
 
-        A = np.array([[0, 0], [0, 0]])
-        b = np.array([0, 0])
+        A = np.zeros((2, 2))
+        b = np.zeros(2)
 
         shape = copy_A.shape
         points = []
-- 
2.43.0


From 2986be90b0423c639ad5b099ddc3cb7f2dc36e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 18/84] fix: graph_polyhedron failed on parallel constraints

---
 pytimize/programs/_linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 4aa5c7b..8641707 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1447,11 +1447,9 @@ class LinearProgram:
                     b[0] = copy_b[i]
                     b[1] = copy_b[j]
 
-                    # if both lines are horizontal/vertical, skip point
+                    # if both lines are parallel, skip point
                     # (these lines will never intersect and thus solving will cause an error)
-                    if A[0][0] == 0 and A[1][0] == 0:
-                        continue
-                    elif A[0][1] == 0 and A[1][1] == 0:
+                    if Comparator.is_close_to_zero(np.linalg.det(A)):
                         continue
 
                     point = np.linalg.solve(A, b)
-- 
2.43.0


From b60485a52ecc66af8e1df7f8dafe355e2ce87a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 19/84] fix: graph_polyhedron dropped corners on constraints
 through the origin

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 8641707..b696273 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1465,10 +1465,10 @@ class LinearProgram:
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
                 if self._inequality_indices[i] == "<=":
-                    if value > copy_b[i] and not math.isclose(value, copy_b[i]):
+                    if value > copy_b[i] and not np.isclose(value, copy_b[i]):
                         valid_point = False
                 elif self._inequality_indices[i] == ">=":
-                    if value < copy_b[i] and not math.isclose(value, copy_b[i]):
+                    if value < copy_b[i] and not np.isclose(value, copy_b[i]):
                         valid_point = False
 
             if valid_point:
-- 
2.43.0


From 70a27d84da36af8dfa1f98d0b3e12a37d92bbe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 20/84] fix: graph_polyhedron ended the interpreter and
 corrupted an empty program

---
 pytimize/programs/_linear.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index b696273..de615b4 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1476,11 +1476,16 @@ class LinearProgram:
 
         points = copy.deepcopy(new_points)
 
+        # remove added boundary inequalities so data isn't mutated
+        del self._inequality_indices[num_inequalities + 3]
+        del self._inequality_indices[num_inequalities + 2]
+        del self._inequality_indices[num_inequalities + 1]
+        del self._inequality_indices[num_inequalities]
+
         # if no points remain, then none of the points found satisfy all inequalities;
         # thus the system is inconsistent
         if len(points) == 0:
-            print("Error: inconsistent system of equations")
-            exit()
+            raise ArithmeticError("Inconsistent system of equations.")
 
         # sort points so the polygon is drawn properly
         # method from https://stackoverflow.com/questions/10846431/ordering-shuffled-points-that-can-be-joined-to-form-a-polygon-in-python/10852917
@@ -1498,12 +1503,6 @@ class LinearProgram:
         # prepare the points for plotting
         xs, ys = zip(*points)
 
-        # remove added boundary inequalities so data isn't mutated
-        del self._inequality_indices[num_inequalities + 3]
-        del self._inequality_indices[num_inequalities + 2]
-        del self._inequality_indices[num_inequalities + 1]
-        del self._inequality_indices[num_inequalities]
-
         # plot and display the feasible region
         plt.figure()
         plt.plot(xs, ys)
-- 
2.43.0


From 7f81c00a65431a4b3efbc90ada74673829b9f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 21/84] fix: branch and bound forgot which variables are free
 or negative

---
 pytimize/programs/_integer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index d47d31a..06818d7 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -107,7 +107,14 @@ class IntegerProgram(LinearProgram):
                 new_b = np.append(copy_b, np.floor(value))
                 new_inequalities.append("<=")
                 lp_lower = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 lower_result = self.__branch(lp_lower)
@@ -116,7 +123,14 @@ class IntegerProgram(LinearProgram):
                 new_b[len(lp.b)] = np.ceil(value)
                 new_inequalities[len(new_inequalities) - 1] = ">="
                 lp_higher = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 higher_result = self.__branch(lp_higher)
-- 
2.43.0


From 385e50d7b0e0a16962ff84ba3006330c3ed391d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 22/84] fix: branch and bound kept the worse branch when
 minimizing

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 06818d7..c0243b3 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -150,7 +150,7 @@ class IntegerProgram(LinearProgram):
                     if higher_result[1] > lower_result[1]:
                         return higher_result
                     return lower_result
-                elif higher_result[1] > lower_result[1]:
+                elif higher_result[1] < lower_result[1]:
                     return higher_result
                 return lower_result
 
-- 
2.43.0


From 801836f6b2cf1de82c07310f1ee985120c542234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 23/84] fix: integral_variables was read from position 0,
 unlike every other index list

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c0243b3..e9c1d20 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -88,7 +88,7 @@ class IntegerProgram(LinearProgram):
             # if value is not integer, make sure it is has the integral constraint before branching - not working atm
             if (
                 self._integral_variables is not None
-                and position not in self._integral_variables
+                and position + 1 not in self._integral_variables
             ):
                 position += 1
                 continue
-- 
2.43.0


From 0f3026abe94b666e29374169c8a5feeab68f42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 24/84] fix: integer programs accepted fractional vectors as
 feasible

---
 pytimize/programs/_integer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index e9c1d20..3dfffeb 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -217,6 +217,11 @@ class IntegerProgram(LinearProgram):
 
     def is_feasible(self, x, show_steps: bool = True) -> bool:
         result = super().is_feasible(x, show_steps)
-        return result
+
+        return result and all(
+            Comparator.is_integer(value)
+            for i, value in enumerate(x, 1)
+            if self._integral_variables is None or i in self._integral_variables
+        )
 
     # TODO override evaluate of base to take consideration of integers
-- 
2.43.0


From 00e80d596ff9c81e3dfc629c899f127a3c7fb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 25/84] fix: copies of integer programs lost their integrality

---
 pytimize/programs/_integer.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 3dfffeb..5ede5fd 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -38,6 +38,38 @@ class IntegerProgram(LinearProgram):
 
         return output
 
+    def copy(self) -> "IntegerProgram":
+        """
+        Creates a deep copy of the integer program.
+
+        Returns
+        -------
+        result : IntegerProgram
+            The copy of the program.
+
+        """
+        p = IntegerProgram(
+            self._A,
+            self._b,
+            self._c,
+            self._z,
+            self._objective,
+            self.inequalities,
+            self.free_variables,
+            self.negative_variables,
+            self._integral_variables,
+        )
+        p._steps = self._steps.copy()
+
+        return p
+
+    def to_sef(self, show_steps: bool = True, in_place: bool = False) -> LinearProgram:
+        # the relaxation is converted: slack variables need not be integral
+        if not in_place:
+            return self.relax().to_sef(show_steps, True)
+
+        return super().to_sef(show_steps, True)
+
     def branch_and_bound(self) -> Optional[np.ndarray]:
         """
         Applies the branch and bound solution method.
-- 
2.43.0


From 4b31ebafbbcd87079fe84ff634997b0390c139b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 26/84] fix: solve returned the relaxation's optimum for
 integer programs

---
 pytimize/programs/_integer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 5ede5fd..1acd46e 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -70,6 +70,9 @@ class IntegerProgram(LinearProgram):
 
         return super().to_sef(show_steps, True)
 
+    def solve(self, show_steps: bool = True) -> Optional[np.ndarray]:
+        return self.branch_and_bound()
+
     def branch_and_bound(self) -> Optional[np.ndarray]:
         """
         Applies the branch and bound solution method.
-- 
2.43.0


From 7351a3a9de7ad94967edb2bb38b28efdb0092ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 27/84] fix: integer program text ran the last sign line into
 the integrality line

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 1acd46e..a5494ea 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -34,7 +34,7 @@ class IntegerProgram(LinearProgram):
         output = super().__repr__().rstrip("\n")
 
         if self._integral_variables is None:
-            output += "x ∈ Z"
+            output += "\nx ∈ Z\n"
 
         return output
 
-- 
2.43.0


From 3d6ae826dc50bdec5257c50e1a311e0dd9d52321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 28/84] fix: integer programs shared the caller's
 integral_variables list

---
 pytimize/programs/_integer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index a5494ea..a0a628e 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -28,7 +28,9 @@ class IntegerProgram(LinearProgram):
             A, b, c, z, objective, inequalities, free_variables, negative_variables
         )
 
-        self._integral_variables = integral_variables
+        self._integral_variables = (
+            list(integral_variables) if integral_variables is not None else None
+        )
 
     def __repr__(self) -> str:  # TODO add integral constraint
         output = super().__repr__().rstrip("\n")
-- 
2.43.0


From 4d10b48359aa3f8b0193f7fdec1af995c1f7352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 29/84] fix: maximizing an unconstrained program ran downhill
 and negated the point

---
 pytimize/programs/_unconstrained.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 3b53e2e..743e961 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -22,10 +22,8 @@ class UnconstrainedProgram:
             The objective of the program. Must be either `max` or `min`.
 
         """
-        if objective == "max":
-            self._f = lambda x: -f(x)
-        self._f = f
         self._minimize = objective == "min"
+        self._f = f if self._minimize else lambda x: -f(x)
 
     def steepest_descent(
         self,
@@ -66,10 +64,10 @@ class UnconstrainedProgram:
 
         """
         for _ in range(int(max_iteration)):
-            d = -df(x)
+            d = -df(x) if self._minimize else df(x)
             a = alpha
 
-            while self._f(x + a * d) > self._f(x) + c * a * df(x) @ d:
+            while self._f(x + a * d) > self._f(x) - c * a * d @ d:
                 a *= p
 
             x += a * d
@@ -77,7 +75,7 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
 
     def newton_method(
         self,
@@ -116,4 +114,4 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
-- 
2.43.0


From e2fd4d382deb6a4fd3560cd12b51d8e2cfa2cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 30/84] fix: unconstrained programs accepted any objective

---
 pytimize/programs/_unconstrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 743e961..8610446 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -22,6 +22,9 @@ class UnconstrainedProgram:
             The objective of the program. Must be either `max` or `min`.
 
         """
+        if not objective in ["min", "max"]:
+            raise ValueError("Objective must be either `min` or `max`.")
+
         self._minimize = objective == "min"
         self._f = f if self._minimize else lambda x: -f(x)
 
-- 
2.43.0


From d0aa658669dff36f969c7dc2942065dca6ae4a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 31/84] fix: descent methods overwrote the caller's starting
 point and failed on lists

---
 pytimize/programs/_unconstrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 8610446..91318bd 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -66,6 +66,8 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
+
         for _ in range(int(max_iteration)):
             d = -df(x) if self._minimize else df(x)
             a = alpha
@@ -109,6 +111,7 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
 
         for _ in range(int(max_iteration)):
             d = np.linalg.solve(d2f(x), -df(x))
-- 
2.43.0


From 7bc14c221c6e3d4c42d999c69dac3fba97bc2c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 32/84] fix: expression arithmetic lost constants and changed
 its operands

---
 pytimize/formulations/linear/_equation.py | 38 +++++++++++++----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 50b75f1..91b8500 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -13,29 +13,33 @@ class LinearEquation:
         self._constant = constant
 
     def __neg__(self) -> "LinearEquation":
-        self._terms = {
-            label: -coefficient for label, coefficient in self._terms.items()
-        }
-
-        return self
+        return LinearEquation(
+            {label: -coefficient for label, coefficient in self._terms.items()},
+            -self._constant,
+        )
 
     def __pos__(self) -> "LinearEquation":
         return self
 
     def __add__(self, other) -> "LinearEquation":
+        terms = self._terms.copy()
+        constant = self._constant
+
         if isinstance(other, LinearEquation):
+            constant += other.constant
+
             for label, coefficient in other.terms.items():
-                self._terms.setdefault(label, 0)
+                terms.setdefault(label, 0)
 
-                self._terms[label] += coefficient
+                terms[label] += coefficient
         elif isinstance(other, float) or isinstance(other, int):
-            self._constant += other
+            constant += other
         elif hasattr(other, "key"):
-            self._terms.setdefault(other.key, 0)
+            terms.setdefault(other.key, 0)
 
-            self._terms[other.key] += 1
+            terms[other.key] += 1
 
-        return self
+        return LinearEquation(terms, constant)
 
     def __radd__(self, other) -> "LinearEquation":
         return self + other
@@ -54,11 +58,13 @@ class LinearEquation:
 
     def __mul__(self, other: float) -> "LinearEquation":
         if isinstance(other, float) or isinstance(other, int):
-            self._terms = {
-                label: coefficient * other for label, coefficient in self._terms.items()
-            }
-
-            return self
+            return LinearEquation(
+                {
+                    label: coefficient * other
+                    for label, coefficient in self._terms.items()
+                },
+                self._constant * other,
+            )
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
-- 
2.43.0


From d0268b37aaefa91ffe71262c8ec5e19bed9c29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 33/84] fix: a named variable on the right of a constraint
 raised an error

---
 pytimize/formulations/linear/_equation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 91b8500..e917b94 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -86,6 +86,8 @@ class LinearEquation:
     ) -> LinearConstraint:
         if isinstance(other, float) or isinstance(other, int):
             other = LinearEquation({}, other)
+        elif hasattr(other, "key"):
+            other = LinearEquation({other.key: 1})
 
         constant = other.constant - self._constant
         coefficients = self._broadcast_subtract(self.coefficients, other.coefficients)
-- 
2.43.0


From 5f6b0053be63ef5d164fe8dd3e9c76b7601bef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 34/84] fix: unsupported operands such as products of variables
 were silently dropped

---
 pytimize/formulations/linear/_equation.py | 6 +++++-
 pytimize/formulations/linear/_variable.py | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index e917b94..ae8ebb2 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -38,6 +38,8 @@ class LinearEquation:
             terms.setdefault(other.key, 0)
 
             terms[other.key] += 1
+        else:
+            return NotImplemented
 
         return LinearEquation(terms, constant)
 
@@ -66,8 +68,10 @@ class LinearEquation:
                 self._constant * other,
             )
 
+        return NotImplemented
+
     def __rmul__(self, other) -> "LinearEquation":
-        return self * other
+        return self.__mul__(other)
 
     def __imult__(self, other) -> "LinearEquation":
         return self * other
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index 312f989..dc1bb57 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -38,11 +38,13 @@ class Variable:
         if isinstance(other, float) or isinstance(other, int):
             return LinearEquation({self._key: other})
 
+        return NotImplemented
+
     def __rmul__(self, other: float) -> LinearEquation:
-        return self * other
+        return self.__mul__(other)
 
     def __imul__(self, other: float) -> LinearEquation:
-        return self * other
+        return self.__mul__(other)
 
     def __pos__(self) -> LinearEquation:
         return LinearEquation({self._key: 1})
-- 
2.43.0


From 62f64b1970ef5e037e72dce1ed46e06c135f3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 35/84] fix: subject_to failed when only the objective uses the
 last variables

---
 pytimize/formulations/linear/_objective.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1102556..2d4c9e9 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -24,6 +24,9 @@ class ObjectiveFunction:
 
         inequalities = []
         length = max(constraint.coefficients.shape[0] for constraint in constraints)
+
+        if self._c is not None:
+            length = max(length, self._c.shape[0])
         A = np.empty(length)
         b = np.empty(1)
 
-- 
2.43.0


From 30c8b8d852b7e8d8e8479ced9cf9297c75d8558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 36/84] fix: a rejected where() left its variables constrained

---
 pytimize/formulations/linear/_abstract.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 8af7a6b..c08d699 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -34,25 +34,31 @@ class AbstractLinearProgram:
         return getattr(self.program, key)
 
     def where(self, *constraints: VariableConstraint) -> "AbstractLinearProgram":
+        positive_variables = self._positive_variables.copy()
+        negative_variables = self._negative_variables.copy()
+
         for constraint in constraints:
             self._add_variable_constraint(
-                constraint.positive_variables, self._positive_variables
+                constraint.positive_variables, positive_variables
             )
             self._add_variable_constraint(
-                constraint.negative_variables, self._negative_variables
+                constraint.negative_variables, negative_variables
             )
 
-        positive_set = set(self._positive_variables)
-        negative_set = set(self._negative_variables)
+        positive_set = set(positive_variables)
+        negative_set = set(negative_variables)
 
-        if not len(positive_set) == len(self._positive_variables) or not len(
+        if not len(positive_set) == len(positive_variables) or not len(
             negative_set
-        ) == len(self._negative_variables):
+        ) == len(negative_variables):
             raise ValueError("Duplicated variable constraints detected.")
 
         if len(positive_set.intersection(negative_set)) > 0:
             raise ValueError("Variable cannot be both positive and negative.")
 
+        self._positive_variables = positive_variables
+        self._negative_variables = negative_variables
+
         self._recompile = True
 
         return self
-- 
2.43.0


From b59a909a681aa483bf421e444e60dc135bd933ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 37/84] fix: integer formulations built linear programs

---
 pytimize/formulations/integer/_abstract.py  | 3 ++-
 pytimize/formulations/integer/_objective.py | 3 ++-
 pytimize/formulations/linear/_abstract.py   | 4 +++-
 pytimize/formulations/linear/_objective.py  | 4 +++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytimize/formulations/integer/_abstract.py b/pytimize/formulations/integer/_abstract.py
index 90dc3e4..ba8c0dc 100644
--- a/pytimize/formulations/integer/_abstract.py
+++ b/pytimize/formulations/integer/_abstract.py
@@ -1,5 +1,6 @@
+from ...programs import IntegerProgram
 from ..linear._abstract import AbstractLinearProgram
 
 
 class AbstractIntegerProgram(AbstractLinearProgram):
-    pass
+    _program_type = IntegerProgram
diff --git a/pytimize/formulations/integer/_objective.py b/pytimize/formulations/integer/_objective.py
index 384e34c..8bb9f8d 100644
--- a/pytimize/formulations/integer/_objective.py
+++ b/pytimize/formulations/integer/_objective.py
@@ -2,10 +2,11 @@ from typing import Union
 
 from ..linear._equation import LinearEquation
 from ..linear._objective import ObjectiveFunction as LinearObjective
+from ._abstract import AbstractIntegerProgram
 
 
 class ObjectiveFunction(LinearObjective):
-    pass
+    _formulation_type = AbstractIntegerProgram
 
 
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index c08d699..cda35b2 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -7,6 +7,8 @@ from ._constraint import VariableConstraint
 
 
 class AbstractLinearProgram:
+    _program_type = LinearProgram
+
     def __init__(
         self,
         A: np.ndarray,
@@ -100,7 +102,7 @@ class AbstractLinearProgram:
                 filter(lambda x: x not in union, range(1, self._c.shape[0] + 1))
             )
 
-            self._program = LinearProgram(
+            self._program = self._program_type(
                 self._A,
                 self._b,
                 self._c,
diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 2d4c9e9..1eb9841 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -9,6 +9,8 @@ from ._utilities import pad_right
 
 
 class ObjectiveFunction:
+    _formulation_type = AbstractLinearProgram
+
     def __init__(self, equation: LinearEquation, objective: str):
         self._c = equation.coefficients
         self._z = equation.constant
@@ -39,7 +41,7 @@ class ObjectiveFunction:
         A = A[1:]
         b = b[1:]
 
-        return AbstractLinearProgram(
+        return self._formulation_type(
             A, b, pad_right(self._c, length), self._z, self._objective, inequalities
         )
 
-- 
2.43.0


From 7fd904ba7128826e9d91fd85940ccddb6a4c1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 38/84] fix: remove_edge kept the edge's weight entry

---
 pytimize/graphs/_undirected.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5ceebbe..2ffa7f7 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -142,6 +142,8 @@ class UndirectedGraph:
         self._graph[edge[0]].remove(edge[1])
         self._graph[edge[1]].remove(edge[0])
 
+        del self._edges[tuple(sorted(edge))]
+
     def has_edge(self, edge: Tuple[str, str]) -> bool:
         """
     Checks if given edge is in graph.
-- 
2.43.0


From 194d0cbd421a6f9a276631e0c29c2ed8aa980ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 39/84] fix: copies of a graph shared their adjacency sets

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 2ffa7f7..f740994 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -735,7 +735,9 @@ class UndirectedGraph:
       vertices that are connected to that vertex.
 
     """
-        return self._graph.copy()
+        return {
+            vertex: connections.copy() for vertex, connections in self._graph.items()
+        }
 
     @property
     def vertices(self) -> Dict[str, float]:
-- 
2.43.0


From 206a934c3a6f8e92a36227f4363bebf415dc19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 40/84] fix: is_cyclic reported every graph with an edge as
 cyclic

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index f740994..c049652 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -528,7 +528,7 @@ class UndirectedGraph:
                     return True
 
                 visited.add(current)
-                queue.extend(self._graph[current])
+                queue.extend(set(self._graph[current]).difference(visited))
 
             unexplored = unexplored.difference(visited)
 
-- 
2.43.0


From 20c54e850fce4de4f83b7bc748e4b3eb957b97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 41/84] fix: partition failed on every nonempty graph

---
 pytimize/graphs/_undirected.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index c049652..91da0f7 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -578,15 +578,14 @@ class UndirectedGraph:
                 if current in visited:
                     continue
 
-                for vertex, connections in self._graph[current].items():
-                    for connection in connections:
-                        edge = tuple(sorted((vertex, connection)))
+                for connection in self._graph[current]:
+                    edge = tuple(sorted((current, connection)))
 
-                        subedges.setdefault(edge, self._edges[edge])
+                    subedges.setdefault(edge, self._edges[edge])
 
                 visited.add(current)
                 queue.extend(self._graph[current])
-                subgraph.setdefault(current, self._graph.copy())
+                subgraph.setdefault(current, self._graph[current].copy())
                 subvertices.setdefault(current, self._vertices[current])
 
             g = UndirectedGraph()
-- 
2.43.0


From dfee310abfca2a7d121b5f4da3b9a5ac88d3622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 42/84] fix: random traversal visited nothing

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 91da0f7..3fac12a 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -474,7 +474,9 @@ class UndirectedGraph:
 
             random.shuffle(vertices)
 
-            return iter(vertices)
+            yield from vertices
+
+            return
 
         visited = set()
         queue = deque([start])
-- 
2.43.0


From e2da8db96d4e44e31569d4c461fd77f7f923c23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 43/84] fix: depth first traversal walked breadth first

---
 pytimize/graphs/_undirected.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 3fac12a..6b9629f 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -465,7 +465,6 @@ class UndirectedGraph:
       The iterator giving the current vertex of the walk.
 
     """
-        # TODO Add dfs
         if not self.has_vertex(start):
             raise ValueError("The starting vertex is not in graph.")
 
@@ -482,7 +481,7 @@ class UndirectedGraph:
         queue = deque([start])
 
         while len(queue) > 0:
-            current = queue.popleft()
+            current = queue.pop() if method == "dfs" else queue.popleft()
 
             if current in visited:
                 continue
-- 
2.43.0


From 152bbf4fbd5d2408de4d174e0b7bc46b8aad51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 44/84] fix: cut of a vertex with a long name was the cut of
 its letters

---
 pytimize/graphs/_undirected.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 6b9629f..fe68ab1 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -386,8 +386,8 @@ class UndirectedGraph:
       The set of edges that satisfies the above condition.
 
     """
-        if not isinstance(vertices, set):
-            vertices = set(vertices)
+        if isinstance(vertices, str):
+            vertices = {vertices}
 
         return set(
             filter(
-- 
2.43.0


From f5f65a618eb78372a46fe9fb0cce4696b04ed462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 45/84] fix: formulate_max_stable_set failed on graphs without
 edges

---
 pytimize/graphs/_undirected.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index fe68ab1..8a6570d 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -404,7 +404,7 @@ class UndirectedGraph:
         mapping = {vertex: i for i, vertex in enumerate(self._vertices)}
         rows = len(self._edges)
         columns = len(mapping)
-        A = np.empty(columns)
+        A = np.empty((0, columns))
 
         for a, b in self._edges:
             row = np.zeros(columns)
@@ -412,7 +412,6 @@ class UndirectedGraph:
             row[mapping[b]] = 1
             A = np.vstack((A, row))
 
-        A = A[1:]
         b = np.ones(rows)
         c = np.zeros(columns)
         inequalities = ["<="] * (rows + columns)  # Includes x <= 1 columns
-- 
2.43.0


From d17271e709c99067b8bbf214619f8ada72052407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 46/84] fix: shortest_path still expected the old graph
 representation

---
 pytimize/graphs/_undirected.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 8a6570d..ab42f28 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -272,22 +272,21 @@ class UndirectedGraph:
             edges = set()
 
             for vertex in visited:
-                for edge in self._graph[vertex]:
-                    if edge[0] not in visited:
-                        edge_hash = self._hash_edge((edge[0], vertex))
-                        slack = edge[1] - (
+                for connection in self._graph[vertex]:
+                    if connection not in visited:
+                        edge_hash = self._hash_edge((connection, vertex))
+                        slack = self._edges[edge_hash] - (
                             potential[edge_hash] if edge_hash in potential else 0
                         )
 
-                        # print(edge_hash, slack)
-
                         edges.add(edge_hash)
 
                         if slack < best_slack:
                             best_slack = slack
-                            best_edge = vertex, edge[0], edge_hash
+                            best_edge = vertex, connection, edge_hash
 
-                        # print(visited, best_slack)
+            if best_edge is None:
+                raise ValueError("There is no path between the vertices.")
 
             for edge_hash in edges:
                 previous = potential.setdefault(edge_hash, 0)
@@ -692,13 +691,13 @@ class UndirectedGraph:
     def is_binary_tree(self) -> bool:
         pass
 
-    def _hash_edge(self, edge: Tuple[str, str]) -> str:
+    def _hash_edge(self, edge: Tuple[str, str]) -> Tuple[str, str]:
         """
     Computes a hash for the given edge that is independent of the tuple order.
 
     Returns
     -------
-    result : str
+    result : Tuple[str, str]
       The hash of the edge.
 
     """
@@ -707,7 +706,7 @@ class UndirectedGraph:
         if a > b:
             a, b = b, a
 
-        return f"{a}-{b}"
+        return a, b
 
     @property
     def edges(self) -> Dict[Tuple[str, str], float]:
-- 
2.43.0


From a45eec3fdbbb4cb418e53eaac8c5bc5645c2a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 47/84] fix: formulate_shortest_path still expected the old
 graph representation

---
 pytimize/graphs/_undirected.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index ab42f28..6beea6c 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -315,7 +315,7 @@ class UndirectedGraph:
         if end not in self._graph:
             raise ValueError("Ending vertex is not in graph.")
 
-        vertices = self.vertices
+        vertices = list(self._vertices)
 
         vertices.remove(start)
         vertices.remove(end)
@@ -343,7 +343,7 @@ class UndirectedGraph:
 
             for vertex in group:
                 edges = edges.union(
-                    map(lambda x: self._hash_edge((vertex, x[0])), self._graph[vertex])
+                    map(lambda x: self._hash_edge((vertex, x)), self._graph[vertex])
                 )
 
             for edge in filter(lambda x: x[0] not in group or x[1] not in group, edges):
@@ -363,8 +363,8 @@ class UndirectedGraph:
         result_c = np.zeros(len(ordered_edges))
         constraints = result_A.shape[0]
 
-        for edge in graph_edges:
-            result_c[edge_positions[self._hash_edge((edge[0], edge[1]))]] = edge[2]
+        for edge, weight in graph_edges.items():
+            result_c[edge_positions[self._hash_edge((edge[0], edge[1]))]] = weight
 
         return LinearProgram(
             result_A, np.ones(constraints), result_c, 0, "min", [">="] * constraints
-- 
2.43.0


From 54b1076e5ca1bc6b2b85fa393ef96f081cc23f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 48/84] fix: cut keeps accepting any collection of vertices

---
 pytimize/graphs/_undirected.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 6beea6c..3f24921 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -388,6 +388,9 @@ class UndirectedGraph:
         if isinstance(vertices, str):
             vertices = {vertices}
 
+        if not isinstance(vertices, set):
+            vertices = set(vertices)
+
         return set(
             filter(
                 lambda x: (x[0] in vertices and x[1] not in vertices)
-- 
2.43.0


From 309960ac5ba445ea951d9d4f974c4dfd38ee1ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 49/84] fix: cuts of a node with a long name were the cuts of
 its letters

---
 pytimize/graphs/_directed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b0b7b67..c2b1ef2 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -195,6 +195,9 @@ class DirectedGraph:
             The list of arcs that satisfies the above condition.
 
         """
+        if isinstance(nodes, str):
+            nodes = {nodes}
+
         if not isinstance(nodes, set):
             nodes = set(nodes)
 
@@ -220,6 +223,9 @@ class DirectedGraph:
 
         """
 
+        if isinstance(nodes, str):
+            nodes = {nodes}
+
         if not isinstance(nodes, set):
             nodes = set(nodes)
 
-- 
2.43.0


From 6b4a5f534ca8e5849829fd605890947581a08daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 50/84] fix: ncut returned a list instead of the documented set

---
 pytimize/graphs/_directed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index c2b1ef2..b55b977 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -229,7 +229,7 @@ class DirectedGraph:
         if not isinstance(nodes, set):
             nodes = set(nodes)
 
-        return list(
+        return set(
             filter(
                 lambda arc: arc[1] in nodes and arc[0] not in nodes, self._arcs.keys()
             )
-- 
2.43.0


From 48df2eb872c031379457faa535db41f93e908771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 51/84] fix: add_arc failed on a single demand and left
 rejected arcs in the digraph

---
 pytimize/graphs/_directed.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b55b977..5ffa9a8 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -97,9 +97,6 @@ class DirectedGraph:
         if arc[0] == arc[1]:
             raise ValueError("Cannot create an arc with the same endpoints.")
 
-        self._graph.setdefault(arc[0], set()).add(arc[1])
-        self._arcs.setdefault(arc, weight)
-
         a_exists = self.has_node(arc[0])
         b_exists = self.has_node(arc[1])
 
@@ -112,9 +109,16 @@ class DirectedGraph:
             self.add_node(arc[0], demands[0] if demands else 0)
             self.add_node(arc[1], demands[1] if demands else 0)
         elif not a_exists:
-            self.add_node(arc[0], demands[0] if demands else 0)
+            self.add_node(
+                arc[0], demands[0] if isinstance(demands, tuple) else demands or 0
+            )
         elif not b_exists:
-            self.add_node(arc[1], demands[1] if demands else 0)
+            self.add_node(
+                arc[1], demands[1] if isinstance(demands, tuple) else demands or 0
+            )
+
+        self._graph.setdefault(arc[0], set()).add(arc[1])
+        self._arcs.setdefault(arc, weight)
 
     def add_node(self, node, demand=0):
         """
-- 
2.43.0


From 9125784cc265dc3ba52939798b278dbbc736255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 52/84] fix: preflow_push failed when there are no inner nodes

---
 pytimize/graphs/_directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 5ffa9a8..89075f8 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -467,8 +467,8 @@ class DirectedGraph:
             else:
                 index += 1
 
-            value = sum(flow[arc] for arc in self.cut(source))
-            value -= sum(flow[arc] for arc in self.ncut(source))
+        value = sum(flow[arc] for arc in self.cut(source))
+        value -= sum(flow[arc] for arc in self.ncut(source))
 
         return value, flow
 
-- 
2.43.0


From a776e05bc613e24d1961a8f33f6467002504755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 53/84] fix: residuals lost one of two opposite arcs

---
 pytimize/graphs/_directed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 89075f8..9a47c98 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -355,10 +355,12 @@ class DirectedGraph:
                 raise ArithmeticError("Given flow is infeasible.")
 
             if capacity > value:
-                residual.setdefault(u, {})[v] = capacity - value
+                forward = residual.setdefault(u, {})
+                forward[v] = forward.get(v, 0) + capacity - value
 
             if value > 0:
-                residual.setdefault(v, {})[u] = value
+                backward = residual.setdefault(v, {})
+                backward[u] = backward.get(u, 0) + value
 
         return residual
 
-- 
2.43.0


From 485da8da15d12e65793ca45fa426b579970fc52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 54/84] fix: maximum flows exceeded capacities when two arcs
 are opposite

---
 pytimize/graphs/_directed.py | 90 ++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 49 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 9a47c98..ce966d3 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -419,35 +419,9 @@ class DirectedGraph:
                 for endpoint, value in residual[node].items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
-                        is_reversed = False
-                        arc = (node, endpoint)
                         push_value = min(excess[node], value)
-                        u, v = node, endpoint
 
-                        if arc not in flow:
-                            is_reversed = True
-                            arc = (endpoint, node)
-                            flow[arc] -= push_value
-                        else:
-                            flow[arc] += push_value
-
-                        if is_reversed:
-                            u, v = v, u
-
-                        residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                        residual.setdefault(v, {})[u] = flow[arc]
-
-                        if residual[u][v] == 0:
-                            del residual[u][v]
-
-                        if residual[v][u] == 0:
-                            del residual[v][u]
-
-                        if len(residual[u]) == 0:
-                            del residual[u]
-
-                        if len(residual[v]) == 0:
-                            del residual[v]
+                        self._push(flow, residual, node, endpoint, push_value)
 
                         if not node == source and not node == sink:
                             excess[node] -= push_value
@@ -474,6 +448,45 @@ class DirectedGraph:
 
         return value, flow
 
+    def _push(
+        self,
+        flow: Dict[Tuple[str, str], float],
+        residual: Dict[str, Dict[str, float]],
+        u: str,
+        v: str,
+        value: float,
+    ) -> None:
+        """
+        Sends `value` units along the residual arc from `u` to `v`: flow on the
+        opposite arc is cancelled before flow is added to the arc itself.
+
+        """
+        cancelled = min(value, flow.get((v, u), 0))
+
+        if cancelled > 0:
+            flow[(v, u)] -= cancelled
+
+        if value > cancelled:
+            flow[(u, v)] += value - cancelled
+
+        forward, backward = self._arcs.get((u, v), 0), self._arcs.get((v, u), 0)
+        forward_flow, backward_flow = flow.get((u, v), 0), flow.get((v, u), 0)
+
+        residual.setdefault(u, {})[v] = forward - forward_flow + backward_flow
+        residual.setdefault(v, {})[u] = backward - backward_flow + forward_flow
+
+        if residual[u][v] == 0:
+            del residual[u][v]
+
+        if residual[v][u] == 0:
+            del residual[v][u]
+
+        if len(residual[u]) == 0:
+            del residual[u]
+
+        if len(residual[v]) == 0:
+            del residual[v]
+
     def _bfs_path(self, source, target, graph):
         queue = deque([source])
         seen = set([source])
@@ -544,28 +557,7 @@ class DirectedGraph:
             v = sink
 
             while u is not None:
-                arc = (u, v)
-
-                if arc not in flow:
-                    arc = (v, u)
-                    flow[arc] -= min_residual
-                else:
-                    flow[arc] += min_residual
-
-                residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                residual.setdefault(v, {})[u] = flow[arc]
-
-                if residual[u][v] == 0:
-                    del residual[u][v]
-
-                if residual[v][u] == 0:
-                    del residual[v][u]
-
-                if len(residual[u]) == 0:
-                    del residual[u]
-
-                if len(residual[v]) == 0:
-                    del residual[v]
+                self._push(flow, residual, u, v, min_residual)
 
                 v = u
                 u = path.get(u, None)
-- 
2.43.0


From fb68157fc7864c5277be243511ae474ec6c96764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 55/84] fix: LinearParser accepted | as a sign and read it as
 plus

---
 pytimize/parsers/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index d71e7ed..cd09ec0 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,6 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+|-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+-]\d+(?:\.\d+)?x_\d+)*$")
 
         return validation.match(candidate) is not None
-- 
2.43.0


From cfcf3c3253674f2cceba56a71a76339ceb21c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 56/84] fix: LinearParser stored x_0 as the last variable

---
 pytimize/parsers/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index cd09ec0..f373180 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -15,7 +15,7 @@ class LinearParser:
             for sign, coefficient, index in term.findall(expression):
                 index = int(index) - 1
 
-                if index in data:
+                if index in data or index < 0:
                     raise Exception()
                 else:
                     data[index] = float(("-" if sign == "-" else "") + coefficient)
-- 
2.43.0


From 5fde5c6e3b693dd91f228603d0cc8ebd1c5c9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 57/84] fix: preflow_push never ended on decimal capacities

---
 pytimize/graphs/_directed.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index ce966d3..efb8d77 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -413,10 +413,12 @@ class DirectedGraph:
         while index < len(nodes):
             node = nodes[index]
 
-            if excess[node] > 0:
+            # excess above this height cannot return to the source, it is the
+            # rounding error of the flow through the node
+            if excess[node] > 0 and height[node] < 2 * len(self._nodes):
                 pushed = False
 
-                for endpoint, value in residual[node].items():
+                for endpoint, value in residual.get(node, {}).items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
                         push_value = min(excess[node], value)
@@ -434,7 +436,7 @@ class DirectedGraph:
                 if not pushed:
                     max_height = math.inf
 
-                    for endpoint in residual[node]:
+                    for endpoint in residual.get(node, {}):
                         max_height = min(height[endpoint], max_height)
 
                     height[node] = max_height + 1
@@ -466,27 +468,23 @@ class DirectedGraph:
         if cancelled > 0:
             flow[(v, u)] -= cancelled
 
-        if value > cancelled:
-            flow[(u, v)] += value - cancelled
-
-        forward, backward = self._arcs.get((u, v), 0), self._arcs.get((v, u), 0)
-        forward_flow, backward_flow = flow.get((u, v), 0), flow.get((v, u), 0)
+        if value > cancelled and (u, v) in flow:
+            flow[(u, v)] = min(
+                flow[(u, v)] + value - cancelled, self._arcs[(u, v)]
+            )
 
-        residual.setdefault(u, {})[v] = forward - forward_flow + backward_flow
-        residual.setdefault(v, {})[u] = backward - backward_flow + forward_flow
+        # residuals are updated by differences so that a saturated arc is left
+        # with exactly nothing, whatever the rounding of the flow
+        backward = residual.setdefault(v, {})
+        backward[u] = backward.get(u, 0) + value
+        residual[u][v] -= value
 
         if residual[u][v] == 0:
             del residual[u][v]
 
-        if residual[v][u] == 0:
-            del residual[v][u]
-
         if len(residual[u]) == 0:
             del residual[u]
 
-        if len(residual[v]) == 0:
-            del residual[v]
-
     def _bfs_path(self, source, target, graph):
         queue = deque([source])
         seen = set([source])
-- 
2.43.0


From 78c63dc23f773926d6d10cbc31759b9a2893fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 58/84] fix: the text of a mixed integer program omitted its
 integral variables

---
 pytimize/programs/_integer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index a0a628e..9e064e3 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -4,6 +4,7 @@ from typing import List, Optional, Tuple, Union
 
 import numpy as np
 
+from ..parsers._symbol import SymbolParser
 from ..utilities import Comparator
 from ._linear import LinearProgram
 
@@ -37,6 +38,9 @@ class IntegerProgram(LinearProgram):
 
         if self._integral_variables is None:
             output += "\nx ∈ Z\n"
+        elif len(self._integral_variables) > 0:
+            integral = ", ".join(f"x{i}" for i in self._integral_variables)
+            output += f"\n{SymbolParser.subscript(integral)} ∈ Z\n"
 
         return output
 
-- 
2.43.0


From 7f06320cccef7bb5b6ec81fe081c54d65efd6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 59/84] fix: integer programs accepted integral_variables that
 do not exist

---
 pytimize/programs/_integer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 9e064e3..31f68d3 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -33,6 +33,17 @@ class IntegerProgram(LinearProgram):
             list(integral_variables) if integral_variables is not None else None
         )
 
+        if self._integral_variables is not None:
+            integral_set = set(self._integral_variables)
+
+            if not len(integral_set) == len(self._integral_variables):
+                raise ValueError(
+                    "Duplicate indices are not allowed in integral variables."
+                )
+
+            if not integral_set.issubset(range(1, self._c.shape[0] + 1)):
+                raise ValueError("Some integral variable indices are invalid.")
+
     def __repr__(self) -> str:  # TODO add integral constraint
         output = super().__repr__().rstrip("\n")
 
-- 
2.43.0


From 491191b4c6b75015d061a44e387e8b22558a9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 60/84] fix: integer programs compared equal whatever their
 integral variables

---
 pytimize/programs/_integer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 31f68d3..0e46964 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -1,6 +1,6 @@
 import copy
 import math
-from typing import List, Optional, Tuple, Union
+from typing import List, Optional, Set, Tuple, Union
 
 import numpy as np
 
@@ -55,6 +55,19 @@ class IntegerProgram(LinearProgram):
 
         return output
 
+    def __eq__(self, other: "LinearProgram") -> bool:
+        return (
+            isinstance(other, IntegerProgram)
+            and super().__eq__(other)
+            and other._integral_set() == self._integral_set()
+        )
+
+    def _integral_set(self) -> Set[int]:
+        if self._integral_variables is None:
+            return set(range(1, self._c.shape[0] + 1))
+
+        return set(self._integral_variables)
+
     def copy(self) -> "IntegerProgram":
         """
         Creates a deep copy of the integer program.
-- 
2.43.0


From dc6d2ef93390fc2c89ea2e880d873795820a6f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 61/84] fix: a constraint with a constant left side had its
 sign flipped

---
 pytimize/formulations/linear/_equation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index ae8ebb2..303780e 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -104,14 +104,14 @@ class LinearEquation:
     def _broadcast_subtract(
         self, array_one: Optional[np.ndarray], array_two: Optional[np.ndarray]
     ) -> Optional[np.ndarray]:
-        if array_one is None:
-            return array_two
-
         if array_two is None:
             return array_one
 
         array_two = -array_two
 
+        if array_one is None:
+            return array_two
+
         if array_one.shape[0] == array_two.shape[0]:
             return array_one + array_two
 
-- 
2.43.0


From 388af25b167a6d8a966be9e252d0290cc7edb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 62/84] fix: complex arrays were accepted and lost their
 imaginary part

---
 pytimize/programs/_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index de615b4..623f3b6 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1689,6 +1689,9 @@ class LinearProgram:
             if not np.issubdtype(source.dtype, np.number):
                 raise ValueError()
 
+            if np.issubdtype(source.dtype, np.complexfloating):
+                raise ValueError()
+
             if not np.issubdtype(source.dtype, np.floating):
                 return source.astype(float)
 
-- 
2.43.0


From 0f4c93b2b70bb15792076daed4aba0cbd0d21dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 63/84] fix: programs accepted constants and variable lists of
 wrong types

---
 pytimize/programs/_linear.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 623f3b6..95e1861 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -4,7 +4,7 @@ import math
 import random
 from collections import deque
 from decimal import Decimal
-from typing import List, Optional, Tuple, Union
+from typing import Collection, List, Optional, Tuple, Union
 
 import numpy as np
 from matplotlib import pyplot as plt
@@ -75,6 +75,13 @@ class LinearProgram:
         ):
             raise ValueError("Dimension mismatch between `A`, `b`, or `c`.")
 
+        if not self.__is_number(z):
+            raise ValueError("The constant `z` is not a number.")
+
+        for indices in free_variables, negative_variables:
+            if indices is not None and not self.__is_collection_of_integers(indices):
+                raise ValueError("Variables must be given by a list of their indices.")
+
         inequality_indices = {}
         free_variables = (
             self.__to_array_indexing(free_variables)
@@ -1841,6 +1848,22 @@ class LinearProgram:
 
         return indices
 
+    def __is_number(self, value) -> bool:
+        """
+        Checks if the value is a single real number.
+
+        """
+        return np.ndim(value) == 0 and np.asarray(value).dtype.kind in "biuf"
+
+    def __is_collection_of_integers(self, values) -> bool:
+        """
+        Checks if the values can be iterated and are all integers.
+
+        """
+        return isinstance(values, Collection) and all(
+            isinstance(value, (int, np.integer)) for value in values
+        )
+
     def __is_vector_of_size(self, x, dimension):
         """
         Converts expression to standard equality form.
-- 
2.43.0


From 617310f71b03547cd84ac139d17c13a3222248d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:10 +0000
Subject: [PATCH 64/84] fix: edits with a value that is not a number left the
 program half edited

---
 pytimize/programs/_linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 95e1861..eca0703 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -455,6 +455,9 @@ class LinearProgram:
         if not inequality in ["=", ">=", "<="]:
             raise ValueError()
 
+        if not self.__is_number(value):
+            raise ValueError()
+
         if inequality == ">=" or inequality == "<=":
             self._inequality_indices[self._A.shape[0]] = inequality
             self._is_sef = False
@@ -508,6 +511,9 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        if not self.__is_number(coefficient):
+            raise ValueError()
+
         if column is not None:
             column = self.__to_ndarray(column)
 
-- 
2.43.0


From 7c502f9ae1e53f2b0c6c7a31c026c80b0b3f24a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 65/84] fix: comparing a program with something that is no
 program raised an error

---
 pytimize/programs/_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index eca0703..fa74234 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -399,6 +399,9 @@ class LinearProgram:
 
     def __eq__(self, other: "LinearProgram") -> bool:
         # TODO Work in progress
+        if not isinstance(other, LinearProgram):
+            return NotImplemented
+
         return (
             np.array_equal(other._A, self._A)
             and np.array_equal(other._b, self._b)
-- 
2.43.0


From 77f0f5e1a636202c22117cc916704915be36e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 66/84] fix: comparing a graph with something that is no graph
 raised an error

---
 pytimize/graphs/_undirected.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 3f24921..0fea8d1 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -96,6 +96,9 @@ class UndirectedGraph:
         Whether or not the other is the same graph. 
 
     """
+        if not isinstance(other, UndirectedGraph):
+            return NotImplemented
+
         return (
             other._graph == self._graph
             and other._edges == self._edges
-- 
2.43.0


From 5076c1c46df1273e41a8c994838a987aac8a3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 67/84] fix: is_basis mistook rounding errors of large
 coefficients for independence

---
 pytimize/programs/_linear.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index fa74234..12d4f88 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -676,7 +676,17 @@ class LinearProgram:
         if max(basis) >= self._A.shape[1] or min(basis) < 0:
             return False
 
-        return not Comparator.is_close_to_zero(np.linalg.det(self._A[:, basis]))
+        # the columns are brought to equal length, otherwise the rounding errors of large
+        # coefficients look like independence and small coefficients like dependence
+        columns = self._A[:, basis]
+        lengths = np.linalg.norm(columns, axis=0)
+
+        if not lengths.all():
+            return False
+
+        return bool(
+            np.linalg.matrix_rank(columns / lengths, tol=1e-10) == len(basis)
+        )
 
     # TODO experimental
     def cs_conditions(self) -> str:
-- 
2.43.0


From d429f0f31e0edb843d7d4aa6f20d16dd676fa1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 68/84] fix: the sign of an unused variable broke the
 formulation when it was negative

---
 pytimize/formulations/linear/_abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index cda35b2..2d3ecfb 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -101,6 +101,9 @@ class AbstractLinearProgram:
             free_variables = list(
                 filter(lambda x: x not in union, range(1, self._c.shape[0] + 1))
             )
+            negative_variables = list(
+                filter(lambda x: x <= self._c.shape[0], self._negative_variables)
+            )
 
             self._program = self._program_type(
                 self._A,
@@ -110,7 +113,7 @@ class AbstractLinearProgram:
                 self._objective,
                 self._inequalities,
                 free_variables,
-                self._negative_variables,
+                negative_variables,
             )
             self._recompile = False
 
-- 
2.43.0


From 5b9ae4c96ea2adac23b3a08a1edf67576aeb442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 69/84] fix: formulations refused numpy numbers in comparisons
 and objectives

---
 pytimize/formulations/integer/_objective.py | 5 +++--
 pytimize/formulations/linear/_equation.py   | 3 ++-
 pytimize/formulations/linear/_objective.py  | 5 +++--
 pytimize/formulations/linear/_variable.py   | 7 +++----
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pytimize/formulations/integer/_objective.py b/pytimize/formulations/integer/_objective.py
index 8bb9f8d..80fe47f 100644
--- a/pytimize/formulations/integer/_objective.py
+++ b/pytimize/formulations/integer/_objective.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Union
 
 from ..linear._equation import LinearEquation
@@ -10,14 +11,14 @@ class ObjectiveFunction(LinearObjective):
 
 
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
-    if isinstance(equation, float) or isinstance(equation, int):
+    if isinstance(equation, Real):
         equation = LinearEquation({}, equation)
 
     return ObjectiveFunction(equation, "min")
 
 
 def maximize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
-    if isinstance(equation, float) or isinstance(equation, int):
+    if isinstance(equation, Real):
         equation = LinearEquation({}, equation)
 
     return ObjectiveFunction(equation, "max")
diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 303780e..e7108f4 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Dict, Optional, Union
 
 import numpy as np
@@ -88,7 +89,7 @@ class LinearEquation:
     def _generate_constraint(
         self, inequality: str, other: Union["LinearEquation", float]
     ) -> LinearConstraint:
-        if isinstance(other, float) or isinstance(other, int):
+        if isinstance(other, Real):
             other = LinearEquation({}, other)
         elif hasattr(other, "key"):
             other = LinearEquation({other.key: 1})
diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1eb9841..9b5736f 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Optional, Union
 
 import numpy as np
@@ -62,14 +63,14 @@ class ObjectiveFunction:
 
 
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
-    if isinstance(equation, float) or isinstance(equation, int):
+    if isinstance(equation, Real):
         equation = LinearEquation({}, equation)
 
     return ObjectiveFunction(equation, "min")
 
 
 def maximize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
-    if isinstance(equation, float) or isinstance(equation, int):
+    if isinstance(equation, Real):
         equation = LinearEquation({}, equation)
 
     return ObjectiveFunction(equation, "max")
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index dc1bb57..e2fb7a7 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Tuple, Union
 
 from ._constraint import LinearConstraint, VariableConstraint
@@ -71,9 +72,7 @@ class Variable:
         return self + -other
 
     def __le__(self, other: Union[LinearEquation, float]) -> LinearConstraint:
-        if isinstance(other, int) or isinstance(
-            other, float
-        ):  # Could be optimized TODO
+        if isinstance(other, Real):  # Could be optimized TODO
             if other == 0:
                 return VariableConstraint(
                     negative_variables=[self._key + 1]
@@ -82,7 +81,7 @@ class Variable:
         return self.equation <= other
 
     def __ge__(self, other: Union[LinearEquation, float]) -> LinearConstraint:
-        if isinstance(other, int) or isinstance(other, float):
+        if isinstance(other, Real):
             if other == 0:
                 return VariableConstraint(positive_variables=[self._key + 1])
 
-- 
2.43.0


From 9033e818c879bf5dcad9143ba2a55c203599b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 70/84] fix: descent methods failed on gradients returned as
 lists

---
 pytimize/programs/_unconstrained.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 91318bd..1b43c40 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -28,6 +28,9 @@ class UnconstrainedProgram:
         self._minimize = objective == "min"
         self._f = f if self._minimize else lambda x: -f(x)
 
+    def _as_array_function(self, f: Callable[[Vector], Vector]):
+        return lambda x: np.asarray(f(x))
+
     def steepest_descent(
         self,
         x: Vector,
@@ -67,6 +70,7 @@ class UnconstrainedProgram:
 
         """
         x = np.array(x, dtype=float)
+        df = self._as_array_function(df)
 
         for _ in range(int(max_iteration)):
             d = -df(x) if self._minimize else df(x)
@@ -112,6 +116,7 @@ class UnconstrainedProgram:
 
         """
         x = np.array(x, dtype=float)
+        df = self._as_array_function(df)
 
         for _ in range(int(max_iteration)):
             d = np.linalg.solve(d2f(x), -df(x))
-- 
2.43.0


From 6dbc0c875a601d16d995504af429931baad79cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 71/84] fix: steps of is_basic_solution named the basis by
 zero-based indices

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 12d4f88..8b478c1 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -606,11 +606,11 @@ class LinearProgram:
         show_steps and self.__append_to_steps(("4.01", basis))
 
         basis = self.__array_like_to_list(basis)
-        basis = self.__convert_indices(basis, 0, self._c.shape[0])
+        indices = self.__convert_indices(basis, 0, self._c.shape[0])
         result = True
 
         for i in range(self._c.shape[0]):
-            if i not in basis and not Comparator.is_close_to_zero(x[i]):
+            if i not in indices and not Comparator.is_close_to_zero(x[i]):
                 show_steps and self.__append_to_steps(("4.02", i + 1))
 
                 result = False
-- 
2.43.0


From 8cc82f035184ad0f9c1e3b7f729a2b613d0fe077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 72/84] fix: steps of an integer program called a fractional
 vector feasible

---
 pytimize/programs/_integer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 0e46964..ab16407 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -281,12 +281,17 @@ class IntegerProgram(LinearProgram):
         )
 
     def is_feasible(self, x, show_steps: bool = True) -> bool:
-        result = super().is_feasible(x, show_steps)
-
-        return result and all(
+        result = super().is_feasible(x, False)
+        is_integral = all(
             Comparator.is_integer(value)
             for i, value in enumerate(x, 1)
             if self._integral_variables is None or i in self._integral_variables
         )
 
+        # the steps of the relaxation state that x is feasible
+        if show_steps and (is_integral or not result):
+            super().is_feasible(x, show_steps)
+
+        return result and is_integral
+
     # TODO override evaluate of base to take consideration of integers
-- 
2.43.0


From 1b9ea62b6a9f673d8e694153a1fedfdbe3f1a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 73/84] fix: solving a program without nonzero coefficients
 failed

---
 pytimize/programs/_linear.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 8b478c1..fd7c6a8 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1028,6 +1028,19 @@ class LinearProgram:
         if Comparator.is_close_to_zero(p_aux.evaluate(solution)):
             independent = self.__independent_rows()
 
+            if len(independent) == 0:
+                # every nonnegative vector is feasible
+                solution = np.zeros(columns)
+
+                for i in range(columns):
+                    if Comparator.is_positive(self._c[i]):
+                        direction = np.zeros(columns)
+                        direction[i] = 1
+
+                        return None, None, (solution, direction)
+
+                return solution, [], np.zeros(rows)
+
             if len(independent) < rows:
                 p = LinearProgram(
                     self._A[independent], self._b[independent], self._c, self._z
-- 
2.43.0


From 82f4a6379f06951047650096c6bbce6865b932fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 74/84] fix: rounding residue in canonical forms was taken for
 coefficients

---
 pytimize/programs/_linear.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index fd7c6a8..4796563 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -846,6 +846,16 @@ class LinearProgram:
         b = Ab_inverse @ self._b
         c = self._c - y_transpose @ self._A
         z = y_transpose @ self._b + self._z
+
+        # what is left of terms that cancel each other is rounding error
+        magnitude = np.abs(Ab_inverse)
+        A[np.abs(A) < 1e-13 * (magnitude @ np.abs(self._A))] = 0
+        b[np.abs(b) < 1e-13 * (magnitude @ np.abs(self._b))] = 0
+        c[
+            np.abs(c)
+            < 1e-13 * (np.abs(self._c) + np.abs(y_transpose) @ np.abs(self._A))
+        ] = 0
+
         self._A = A
         self._b = b
         self._c = c
-- 
2.43.0


From d93e45f2e936cb0d14ed4aff41e06239da50bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 75/84] fix: steps were recorded with show_steps off by solve
 and verify_unboundedness

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 4796563..ee27c98 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -962,7 +962,7 @@ class LinearProgram:
 
         """
         if self._is_sef:
-            return self.two_phase_simplex()[0]
+            return self.two_phase_simplex(show_steps)[0]
 
         sef = self.to_sef(show_steps)
         rows, columns = sef.A.shape
@@ -1326,7 +1326,7 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         x = self.__to_ndarray(x)
 
-        if not self.is_feasible(x):
+        if not self.is_feasible(x, show_steps):
             return False
 
         if Comparator.is_close_compare(self._c @ certificate, "<=", 0):
-- 
2.43.0


From 2157a35c84b020ef54a553bbe6d3d9afd57082ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 76/84] fix: graph parser accepted a line break at the end of
 the text

---
 pytimize/parsers/_graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytimize/parsers/_graph.py b/pytimize/parsers/_graph.py
index 84a0d49..1326a79 100644
--- a/pytimize/parsers/_graph.py
+++ b/pytimize/parsers/_graph.py
@@ -28,13 +28,13 @@ class GraphParser:
 
     @staticmethod
     def get_expression_type(candidate: str) -> int:
-        validation_one = re.compile(r"^(?:\w\w)(?:\s\w\w)*$")
-        validation_two = re.compile(r"^(?:\w+-\w+)(?:\s\w+-\w+)*$")
+        validation_one = re.compile(r"^(?:\w\w)(?:\s\w\w)*\Z")
+        validation_two = re.compile(r"^(?:\w+-\w+)(?:\s\w+-\w+)*\Z")
         validation_three = re.compile(
-            r"^(?:\w\w:\d+(?:\.\d+)?)(?:\s\w\w:\d+(?:\.\d+)?)*$"
+            r"^(?:\w\w:\d+(?:\.\d+)?)(?:\s\w\w:\d+(?:\.\d+)?)*\Z"
         )
         validation_four = re.compile(
-            r"^(?:\w+-\w+:\d+(?:\.\d+)?)(?:\s\w+-\w+:\d+(?:\.\d+)?)*$"
+            r"^(?:\w+-\w+:\d+(?:\.\d+)?)(?:\s\w+-\w+:\d+(?:\.\d+)?)*\Z"
         )
         result = -1
 
-- 
2.43.0


From 42db400f77db41b887a0d95112722ce4eadf7d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 77/84] fix: linear parser accepted a line break at the end of
 the expression

---
 pytimize/parsers/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index f373180..f87089e 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,6 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+-]\d+(?:\.\d+)?x_\d+)*\Z")
 
         return validation.match(candidate) is not None
-- 
2.43.0


From f3a80e95cc01bf29eaa7f68b2278afc9670b9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 78/84] fix: verifiers rejected the solver's own certificates
 over rounding in large columns

---
 pytimize/programs/_linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ee27c98..8805f34 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1291,6 +1291,9 @@ class LinearProgram:
         yA = certificate @ self._A
         yb = certificate @ self._b
 
+        # rounding errors are relative to the size of the coefficients
+        yA = yA / np.maximum(1, np.abs(self._A).max(axis=0))
+
         return Comparator.is_close_compare(yA, ">=", 0) and Comparator.is_negative(yb)
 
     def verify_unboundedness(
@@ -1364,6 +1367,9 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         test = self._c - certificate @ self._A
 
+        # rounding errors are relative to the size of the coefficients
+        test = test / np.maximum(1, np.abs(np.vstack((self._A, self._c))).max(axis=0))
+
         return Comparator.is_close_compare(test, "<=", 0)
 
     def is_feasible(self, x: Vector, show_steps: bool = True) -> bool:
-- 
2.43.0


From 672422ccd7761629cfcd7abfb19d147388483299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 79/84] fix: finding a basis after phase one tried
 exponentially many column sets

---
 pytimize/programs/_linear.py | 49 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 8805f34..f8a909b 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -2,7 +2,6 @@ import copy
 import functools
 import math
 import random
-from collections import deque
 from decimal import Decimal
 from typing import Collection, List, Optional, Tuple, Union
 
@@ -676,16 +675,33 @@ class LinearProgram:
         if max(basis) >= self._A.shape[1] or min(basis) < 0:
             return False
 
+        return self.__are_independent(basis)
+
+    def __are_independent(self, indices: List[int]) -> bool:
+        """
+        Checks if the columns of the coefficient matrix are linearly independent.
+
+        Parameters
+        ----------
+        indices : List[int]
+            The column indices of the coefficient matrix. Use zero indexing for format.
+
+        Returns
+        -------
+        result : bool
+            Whether or not the columns are linearly independent.
+
+        """
         # the columns are brought to equal length, otherwise the rounding errors of large
         # coefficients look like independence and small coefficients like dependence
-        columns = self._A[:, basis]
+        columns = self._A[:, indices]
         lengths = np.linalg.norm(columns, axis=0)
 
         if not lengths.all():
             return False
 
         return bool(
-            np.linalg.matrix_rank(columns / lengths, tol=1e-10) == len(basis)
+            np.linalg.matrix_rank(columns / lengths, tol=1e-10) == len(indices)
         )
 
     # TODO experimental
@@ -1076,29 +1092,12 @@ class LinearProgram:
                     else:
                         zero_set.append(i)
 
-                subset_size = self._A.shape[0] - len(p_basis)
-                queue = deque()
-
-                for i in range(0, len(zero_set) - subset_size + 1):
-                    queue.append((i, [zero_set[i]]))
-
-                while len(queue) > 0:
-                    current = queue.pop()
-
-                    if len(current[1]) == subset_size:
-                        basis_candidate = p_basis + current[1]
-
-                        basis_candidate.sort()
-
-                        if self.is_basis(basis_candidate):
-                            p_basis = basis_candidate
-
-                            break
-                    else:
-                        for i in range(current[0] + 1, len(zero_set)):
-                            copy = current[1] + [zero_set[i]]
+                # independent columns always extend to a basis, one column after another
+                for i in reversed(zero_set):
+                    if self.__are_independent(self.__to_array_indexing(p_basis + [i])):
+                        p_basis.append(i)
 
-                            queue.append((i, copy))
+                p_basis.sort()
 
             return self.simplex(p_basis, show_steps)
 
-- 
2.43.0


From 34322a47913169b24e073c0e543b4dc4dcf6defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 80/84] fix: text of a program without constraints raised
 UnboundLocalError

---
 pytimize/programs/_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index f8a909b..545d056 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -375,7 +375,8 @@ class LinearProgram:
                 output += " " * spaces
 
             output += "]\n"
-            positive = self.positive_variables
+
+        positive = self.positive_variables
 
         if len(self._negative_variables) == shape[1]:
             output += "x ≤ 0\n"
-- 
2.43.0


From 89df82399dc3062ae97837ed94ff38fa62b12a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 81/84] fix: the empty basis of a program without constraints
 raised ValueError

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 545d056..90997f7 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -673,7 +673,7 @@ class LinearProgram:
         if not self._A.shape[0] == len(basis):
             return False
 
-        if max(basis) >= self._A.shape[1] or min(basis) < 0:
+        if any(index < 0 or index >= self._A.shape[1] for index in basis):
             return False
 
         return self.__are_independent(basis)
-- 
2.43.0


From a8c1eef402bd0fdadac8a73713333d9d400d4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 82/84] fix: verify_infeasibility of a program without
 constraints raised ValueError

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 90997f7..e06e958 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1292,7 +1292,7 @@ class LinearProgram:
         yb = certificate @ self._b
 
         # rounding errors are relative to the size of the coefficients
-        yA = yA / np.maximum(1, np.abs(self._A).max(axis=0))
+        yA = yA / np.abs(self._A).max(axis=0, initial=1)
 
         return Comparator.is_close_compare(yA, ">=", 0) and Comparator.is_negative(yb)
 
-- 
2.43.0


From 766a2897d5ec2e252d8e64d17d33c3192e6ff410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 83/84] fix: programs of arrays other than float64 were
 computed in the precision of their type or failed

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e06e958..e3cfdc7 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1747,7 +1747,7 @@ class LinearProgram:
             if np.issubdtype(source.dtype, np.complexfloating):
                 raise ValueError()
 
-            if not np.issubdtype(source.dtype, np.floating):
+            if not source.dtype == np.float64:
                 return source.astype(float)
 
             return source.copy()
-- 
2.43.0


From 0eb649a5cc773d2a66f50beb9f35a2e036a74f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 84/84] fix: is_feasible of an integer program refused half
 precision vectors

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index ab16407..83427fc 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -284,7 +284,7 @@ class IntegerProgram(LinearProgram):
         result = super().is_feasible(x, False)
         is_integral = all(
             Comparator.is_integer(value)
-            for i, value in enumerate(x, 1)
+            for i, value in enumerate(np.asarray(x, dtype=float), 1)
             if self._integral_variables is None or i in self._integral_variables
         )
 
-- 
2.43.0

