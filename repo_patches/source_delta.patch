From 5f6f0c4518cb6bf75f9a794fec9541028d627634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 01/27] fix: CSC subtraction operator passed colptr and rowidx
 in the wrong order

---
 src/csc/std_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index a95e0fc..bb0f733 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -62,7 +62,7 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), colptr, rowidx, values).unwrap()
+    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
 #[opimps::impl_ops(Mul)]
-- 
2.43.0


From de57e28a55eb0ee205a672e72300e383501c536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 02/27] fix: CSC scalar products passed colptr and rowidx in
 the wrong order

---
 src/csc/std_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index bb0f733..fae82bc 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -80,8 +80,8 @@ fn mul<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: T) -> CSC<I, T> {
     CSC::new(
         self.rows(),
         self.cols(),
-        self.colptr().to_vec(),
         self.rowidx().to_vec(),
+        self.colptr().to_vec(),
         self.values().iter().map(|&v| v * rhs).collect::<Vec<T>>(),
     )
     .unwrap()
@@ -91,8 +91,8 @@ fn mul<I: Integer>(self: Complex64, rhs: CSC<I, Complex64>) -> CSC<I, Complex64>
     CSC::new(
         rhs.rows(),
         rhs.cols(),
-        rhs.colptr().to_vec(),
         rhs.rowidx().to_vec(),
+        rhs.colptr().to_vec(),
         rhs.values()
             .iter()
             .map(|&v| self * v)
-- 
2.43.0


From 7bd26594330eea3aba5d7a6b6a15a16c88261b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 03/27] fix: csr_has_sorted_indices underflowed the index type
 on empty leading rows

---
 src/row.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 878fb27..dcdd00f 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -163,9 +163,9 @@ pub fn csr_todense<I: Integer, T: Scalar>(
 pub fn csr_has_sorted_indices<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> bool {
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
-        let end = (a_p[i + 1] - I::one()).to_usize().unwrap();
-        for jj in start..end {
-            if a_j[jj] > a_j[jj + 1] {
+        let end = a_p[i + 1].to_usize().unwrap();
+        for jj in start + 1..end {
+            if a_j[jj - 1] > a_j[jj] {
                 return false;
             }
         }
-- 
2.43.0


From 0667081f583a0a94b14fdc054b337beceb2d1009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 04/27] fix: csr_has_canonical_format overflowed the index type
 when it is full

---
 src/row.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index dcdd00f..e6824db 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -192,9 +192,7 @@ pub fn csr_has_canonical_format<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I])
             return false;
         }
 
-        let start = (a_p[i] + I::one()).to_usize().unwrap();
-        let end = a_p[i + 1].to_usize().unwrap();
-        for jj in start..end {
+        for jj in start + 1..end {
             if !(a_j[jj - 1] < a_j[jj]) {
                 return false;
             }
-- 
2.43.0


From 23f1ef513be4f296939c8b748ccf36b323747703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 05/27] fix: csr_count_diagonals underflowed on entries below
 the main diagonal

---
 src/row.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index e6824db..e2a97bb 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1575,14 +1575,14 @@ pub fn csr_column_index2<I: Integer, T: Scalar>(
 ///   I  Ai[nnz(A)]      - row indices
 ///   I  Aj[nnz(A)]      - column indices
 pub fn csr_count_diagonals<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> usize {
-    let mut diagonals = HashSet::<usize>::new();
+    let mut diagonals = HashSet::<isize>::new();
 
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            diagonals.insert(a_j[jj].to_usize().unwrap() - i);
+            diagonals.insert(a_j[jj].to_isize().unwrap() - i as isize);
         }
     }
     diagonals.len()
-- 
2.43.0


From 8f1c2565fce4638a2da263ad5c4504661d997aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 06/27] fix: CSR and CSC results kept unused array space after
 the last entry

---
 src/csc/csc.rs | 7 +++++--
 src/csr/csr.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 5aec3af..3161866 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -25,9 +25,9 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
     pub fn new(
         rows: usize,
         cols: usize,
-        rowidx: Vec<I>,
+        mut rowidx: Vec<I>,
         colptr: Vec<I>,
-        values: Vec<T>,
+        mut values: Vec<T>,
     ) -> Result<Self> {
         if colptr.len() != cols + 1 {
             return Err(format_err!("colptr has invalid length"));
@@ -39,6 +39,9 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
         if values.len() < nnz {
             return Err(format_err!("values array has fewer than nnz elements"));
         }
+        // Remove empty space after all non-zero elements.
+        rowidx.truncate(nnz);
+        values.truncate(nnz);
         Ok(Self {
             rows,
             cols,
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 65b97af..7f54a6a 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -28,8 +28,8 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         rows: usize,
         cols: usize,
         rowptr: Vec<I>,
-        colidx: Vec<I>,
-        values: Vec<T>,
+        mut colidx: Vec<I>,
+        mut values: Vec<T>,
     ) -> Result<Self> {
         if rowptr.len() != rows + 1 {
             return Err(format_err!("rowptr has invalid length"));
@@ -41,6 +41,9 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         if values.len() < nnz {
             return Err(format_err!("values array has fewer than nnz elements"));
         }
+        // Remove empty space after all non-zero elements.
+        colidx.truncate(nnz);
+        values.truncate(nnz);
         Ok(CSR {
             rows,
             cols,
-- 
2.43.0


From 1332305c2b771c7b25b00a072d02ddec52b698d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 07/27] fix: CSR and CSC from_dense panicked on dense data
 without rows

---
 src/csc/csc.rs | 2 +-
 src/csr/csr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 3161866..190f378 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -53,7 +53,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = a.first().map_or(0, |row| row.len());
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 7f54a6a..59ed9b7 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -65,7 +65,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = a.first().map_or(0, |row| row.len());
 
         let mut rowptr = Vec::<I>::new();
         let mut colidx = Vec::<I>::new();
-- 
2.43.0


From 41066e9d91a897f4ef93e948794ce5492f5b9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 08/27] fix: strong components of the graph without nodes
 underflowed

---
 src/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 12fb4ca..d5cd84f 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -154,6 +154,9 @@ fn connected_components_directed<I: Integer>(
     indices: &[I],
     indptr: &[I],
 ) -> (usize, Vec<usize>) {
+    if n == 0 {
+        return (0, Vec::new());
+    }
     let mut labels = vec![Node::Void; n];
 
     // The stack of nodes which have been backtracked and are in the current SCC
-- 
2.43.0


From 8c6d591e6b2d41baeada6c8de583b01c75654019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 09/27] fix: strong components corrupted the DFS stack on
 consecutive parallel edges

---
 src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index d5cd84f..91a244c 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -187,7 +187,8 @@ fn connected_components_directed<I: Integer>(
                     // Add successor nodes
                     for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                         let w = indices[j].to_usize().unwrap();
-                        if lowlinks![labels][w] == Node::Void {
+                        // A parallel edge may have left w on top of the stack already.
+                        if lowlinks![labels][w] == Node::Void && stack_head != Node::Label(w) {
                             // TODO: get_unchecked
                             // DFS-stack push
                             if stack_f![ss][w] != Node::Void {
-- 
2.43.0


From 21aad69920286f8b732f348b138d9cb439b6a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 10/27] fix: CSR get returned only the first of several stored
 duplicates

---
 src/csr/csr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 59ed9b7..d255291 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -498,13 +498,14 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         let start = self.rowptr[i].to_usize().unwrap();
         let end = self.rowptr[i + 1].to_usize().unwrap();
 
-        // Iterate over the column indices of row k.
+        // Iterate over the column indices of row i, summing duplicates.
+        let mut value = T::zero(); // If not found, the element is zero.
         for k in start..end {
             if self.colidx[k].to_usize().unwrap() == j {
-                return self.values[k]; // Found the element at (i, j).
+                value = value + self.values[k];
             }
         }
 
-        T::zero() // If not found, the element is zero.
+        value
     }
 }
-- 
2.43.0


From 68c67b36fb00e418773bee7884dfb3e7aeb404e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 11/27] fix: CSR and CSC addition and subtraction operators
 accepted operands of unequal shape

---
 src/csc/std_ops.rs | 4 ++++
 src/csr/std_ops.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index fae82bc..64d2f77 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -19,6 +19,8 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
@@ -43,6 +45,8 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index f64f10a..1985004 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -18,6 +18,8 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
@@ -42,6 +44,8 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
-- 
2.43.0


From ca86477b1f8b43f9c0d11cadc5c64c7cfffa14db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 12/27] fix: cs_graph_components reported a graph without edges
 as corrupted

---
 src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 91a244c..8c84a4b 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -361,6 +361,10 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
         }
     }
 
+    if n_stop == 0 {
+        return Ok(n_comp); // No node has an edge.
+    }
+
     let mut n_tot = 0;
     for icomp in 0..n_nod {
         // Find seed.
-- 
2.43.0


From 84b70ec4fea7ea8b3890d19426fbffad6f604839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 13/27] fix: complex pretty_string printed the sign of a
 negative imaginary part twice

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8b4d5ab..8bd2b15 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -108,7 +108,7 @@ impl Scalar for num_complex::Complex<f64> {
             "{}{}j{}",
             dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
@@ -119,7 +119,7 @@ impl Scalar for num_complex::Complex<f32> {
             "{}{}j{}",
             dtoa(self.re as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs() as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
-- 
2.43.0


From 168daa94e70ca4e6caa73077b83d9fda611661f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 14/27] fix: DoK sub with an index out of range underflowed
 unsigned values instead of returning an error

---
 src/dok/dok.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dok/dok.rs b/src/dok/dok.rs
index 601130e..1e2b6a2 100644
--- a/src/dok/dok.rs
+++ b/src/dok/dok.rs
@@ -69,13 +69,18 @@ impl<I: Integer + Hash, T: Scalar> DoK<I, T> {
         }
     }
 
-    pub fn set(&mut self, i: I, j: I, v: T) -> Result<()> {
+    fn check_range(&self, i: I, j: I) -> Result<()> {
         if i < I::zero() || i >= I::from(self.rows).unwrap() {
             return Err(format_err!("row index {} out of range {}", i, self.rows));
         }
         if j < I::zero() || j >= I::from(self.cols).unwrap() {
             return Err(format_err!("col index {} out of range {}", j, self.cols));
         }
+        Ok(())
+    }
+
+    pub fn set(&mut self, i: I, j: I, v: T) -> Result<()> {
+        self.check_range(i, j)?;
         if v == T::zero() {
             self.values.remove(&(i, j));
         } else {
@@ -89,6 +94,7 @@ impl<I: Integer + Hash, T: Scalar> DoK<I, T> {
     }
 
     pub fn sub(&mut self, i: I, j: I, v: T) -> Result<()> {
+        self.check_range(i, j)?;
         self.set(i, j, self.get(i, j) - v)
     }
 
-- 
2.43.0


From aff7c9115258aa02c5c39b23996df0d700b5b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 15/27] fix: DoK panicked when a dimension is one more than the
 largest value of the index type

---
 src/dok/dok.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dok/dok.rs b/src/dok/dok.rs
index 1e2b6a2..150247b 100644
--- a/src/dok/dok.rs
+++ b/src/dok/dok.rs
@@ -70,10 +70,10 @@ impl<I: Integer + Hash, T: Scalar> DoK<I, T> {
     }
 
     fn check_range(&self, i: I, j: I) -> Result<()> {
-        if i < I::zero() || i >= I::from(self.rows).unwrap() {
+        if i.to_usize().map_or(true, |i| i >= self.rows) {
             return Err(format_err!("row index {} out of range {}", i, self.rows));
         }
-        if j < I::zero() || j >= I::from(self.cols).unwrap() {
+        if j.to_usize().map_or(true, |j| j >= self.cols) {
             return Err(format_err!("col index {} out of range {}", j, self.cols));
         }
         Ok(())
-- 
2.43.0


From de5cc69ccd48f804a2f85de882b0895860adf2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 16/27] fix: select panicked when a dimension is one more than
 the largest value of the index type

---
 src/csc/csc.rs | 4 ++--
 src/csr/csr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 190f378..0507ac8 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -320,7 +320,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
             }
             Some(rowidx) => {
                 for &ri in rowidx {
-                    if ri < I::zero() || ri >= I::from(self.rows).unwrap() {
+                    if ri.to_usize().map_or(true, |r| r >= self.rows) {
                         return Err(format_err!("out of range: {}", ri));
                     }
                 }
@@ -339,7 +339,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
             }
             Some(colidx) => {
                 for &ci in colidx {
-                    if ci < I::zero() || ci >= I::from(self.cols).unwrap() {
+                    if ci.to_usize().map_or(true, |c| c >= self.cols) {
                         return Err(format_err!("out of range: {}", ci));
                     }
                 }
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index d255291..befa3b4 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -316,7 +316,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
             }
             Some(rowidx) => {
                 for &ri in rowidx {
-                    if ri < I::zero() || ri >= I::from(self.rows).unwrap() {
+                    if ri.to_usize().map_or(true, |r| r >= self.rows) {
                         return Err(format_err!("out of range: {}", ri));
                     }
                 }
@@ -335,7 +335,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
             }
             Some(colidx) => {
                 for &ci in colidx {
-                    if ci < I::zero() || ci >= I::from(self.cols).unwrap() {
+                    if ci.to_usize().map_or(true, |c| c >= self.cols) {
                         return Err(format_err!("out of range: {}", ci));
                     }
                 }
-- 
2.43.0


From 2a8f202b2b7ff00cecc0fb8bc774b2a01a79a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 17/27] fix: Coo upper overflowed when row + k exceeds the
 largest value of the index type

---
 src/coo/coo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index feff9bb..48d99e0 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -341,7 +341,13 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
         let mut values = Vec::with_capacity(c);
 
         for i in 0..self.nnz() {
-            if self.rowidx[i] + k <= self.colidx[i] {
+            let (r, c) = (self.rowidx[i], self.colidx[i]);
+            let upper = if k > I::zero() {
+                c >= k && r <= c - k
+            } else {
+                r + k <= c
+            };
+            if upper {
                 rowidx.push(self.rowidx[i]);
                 colidx.push(self.colidx[i]);
                 values.push(self.values[i]);
-- 
2.43.0


From c235bc6c009eb318ba6ddebafe9d2ed1872d142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 18/27] fix: eigs stopped before applying the matrix to the
 starting vector

---
 src/eigen/real.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index db66f1c..9ae6433 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -27,6 +27,9 @@ const IDO_FIRST: i32 = 0;
 // need to be recomputed in forming OP * X.
 const IDO_COMPUTE1: i32 = 1;
 
+// As above, to force the starting vector into the range of OP.
+const IDO_COMPUTE_START: i32 = -1;
+
 // Compute NEV Ritz vectors.
 const HOW_MNY_RITZ: &str = "A";
 
@@ -96,7 +99,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         drop(lock);
     }
 
-    while ido == IDO_COMPUTE1 {
+    while ido == IDO_COMPUTE_START || ido == IDO_COMPUTE1 {
         let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
         workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
 
-- 
2.43.0


From 77a71b077a8d51b892ebe4e7d6addbe304a95548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 19/27] fix: eigs copied the product to a slice of another
 length

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 9ae6433..2405113 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -101,7 +101,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     while ido == IDO_COMPUTE_START || ido == IDO_COMPUTE1 {
         let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
-        workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
+        workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
             let lock = MUTEX.lock().unwrap();
-- 
2.43.0


From 169e0aacf4579b4d5dab6d92ba2f2c3f68884670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 20/27] fix: eigs let ARPACK write beyond the vectors and the
 work array

---
 src/eigen/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 2405113..af5041f 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -137,8 +137,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut dr = vec![0.0; nev + 1];
     let mut di = vec![0.0; nev + 1];
     let mut z = vec![0.0; n * (nev + 1)];
-    let ldz = n + 1;
-    let mut workev = vec![0.0; 2 * ncv];
+    let ldz = n;
+    let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
         let lock = MUTEX.lock().unwrap();
-- 
2.43.0


From 122e528c9cc9484f3e32533c9647774eb9aaf1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 21/27] fix: eigs returned the real part for the imaginary part

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index af5041f..4542031 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -182,7 +182,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     // for i in 0..d.len() {
     //     d[i] = Complex64::new(dr[i], di[i]);
     // }
-    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], dr[i])).collect();
+    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], di[i])).collect();
 
     let mut zz = Mat::<Complex64>::zeros(nev + 1, n, true);
 
-- 
2.43.0


From c2b798eaab0e5c1ac11434acbe570577de3145f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 22/27] fix: eigs repeated one component through real
 eigenvectors

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 4542031..068f92f 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -193,7 +193,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             let j = i * n;
             let zr = &z[j..j + n];
             for j in 0..zz.cols() {
-                zz[(i, j)] = Complex64::new(zr[i], 0.0);
+                zz[(i, j)] = Complex64::new(zr[j], 0.0);
             }
         } else {
             // The complex Ritz vector associated with the Ritz value
-- 
2.43.0


From 1e78906e6d908bea89088834ee3b12a40684a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 23/27] fix: eigs of an empty matrix underflowed

---
 src/eigen/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 068f92f..031c1a8 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -43,8 +43,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     }
     let n = a_mat.rows();
 
-    if nev >= n - 1 {
-        return Err(format_err!("invalid nev: {} (0 < nev < {})", nev, n - 1));
+    if n == 0 || nev >= n - 1 {
+        return Err(format_err!("invalid nev: {} (0 < nev < {} - 1)", nev, n));
     }
     let bmat = BMAT_STANDARD;
     let ncv = usize::min(n, 2 * nev + 1);
-- 
2.43.0


From b0f7283678b08d67868512bc32286fc8d66db48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 24/27] fix: eigs let another thread into ARPACK while its
 iteration was suspended

---
 src/eigen/real.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 031c1a8..ce311d5 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -76,8 +76,11 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     let mut ipntr = vec![0i32; 14];
 
+    // ARPACK keeps the state of the iteration between calls: no other
+    // iteration may run before this one is done.
+    let _lock = MUTEX.lock().unwrap_or_else(|e| e.into_inner());
+
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dnaupd_c(
             &mut ido,
             bmat.as_ptr() as *const i8,
@@ -96,7 +99,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
 
     while ido == IDO_COMPUTE_START || ido == IDO_COMPUTE1 {
@@ -104,7 +106,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
-            let lock = MUTEX.lock().unwrap();
             dnaupd_c(
                 &mut ido,
                 bmat.as_ptr() as *const i8,
@@ -123,7 +124,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
                 lworkl as i32,
                 &mut info,
             );
-            drop(lock);
         }
     }
     if info < 0 {
@@ -141,7 +141,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dneupd_c(
             rvec as i32,
             howmny.as_ptr() as *const i8,
@@ -169,7 +168,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
     if info != 0 {
         // return ArpackError(info);
-- 
2.43.0


From 8a4b1dd33bcd77cb00681a6b8ac2bba1b8a30009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 25/27] fix: eigs returned a complex pair of which only one
 half converged with a wrong vector

---
 src/eigen/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index ce311d5..23fa7ae 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -185,7 +185,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut zz = Mat::<Complex64>::zeros(nev + 1, n, true);
 
     let mut i = 0;
-    while i < nev + 1 {
+    while i < usize::min(nconv, nev + 1) {
         if di[i].abs() == 0.0 {
             // zz[i] = make([]complex128, n)
             let j = i * n;
@@ -201,7 +201,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             // Ritz vector associated with the Ritz value with negative
             // imaginary part is simply the complex conjugate of the Ritz
             // vector associated with the positive imaginary part.
-            if i < nev {
+            if i + 1 < nconv {
                 let j = i * n;
                 let zr = &z[j..j + n];
                 let j = (i + 1) * n;
-- 
2.43.0


From 1d8a08d0a15c8a8c5922577bdecbacdd85b4d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 26/27] fix: eigs gave up where the iteration had too small a
 space to restart in

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 23fa7ae..1dd2a14 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -47,7 +47,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         return Err(format_err!("invalid nev: {} (0 < nev < {} - 1)", nev, n));
     }
     let bmat = BMAT_STANDARD;
-    let ncv = usize::min(n, 2 * nev + 1);
+    let ncv = usize::min(n, usize::max(2 * nev + 1, 20));
     let maxiter = n * 10;
 
     let tol = 0.0;
-- 
2.43.0


From bbe090ce4b37a41c464aa9ac06e9a6889a24b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 27/27] fix: Coo::upper allocated room for every column of the
 matrix, aborting on very wide ones

---
 src/coo/coo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index 48d99e0..ef9d1ff 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -335,7 +335,7 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
     /// Provides the upper triangular portion of the matrix in
     /// coordinate format.
     pub fn upper(&self, k: I) -> Coo<I, T> {
-        let c = (self.nnz() / 2) + self.cols;
+        let c = self.nnz();
         let mut rowidx = Vec::with_capacity(c);
         let mut colidx = Vec::with_capacity(c);
         let mut values = Vec::with_capacity(c);
-- 
2.43.0

