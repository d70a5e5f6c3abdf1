From be2e6a74570f3f525a881f1ae784b79ce98f820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:23 +0000
Subject: [PATCH 01/43] fix: report uninitialized matrices and vectors instead
 of ignoring them

Several methods looped over zero rows when the object was not
initialized and returned Ok. Deleting a row or testing the triangular
form of such a matrix underflowed the row count and panicked.
---
 linalg/src/matrix.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++
 linalg/src/vector.rs | 48 ++++++++++++++++++++++++++++++++
 2 files changed, 114 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 94b4187..b6dd0ee 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -229,6 +229,12 @@ impl Matrix {
     #[cfg(feature = "std")]
     /// This method is used to diplay a matrix of size m x n (not available in no_std environment).
     pub fn print(self: &Self) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and print it and move to the next row with a newline character.
         for row in 0..self.rows {
             for col in 0..self.cols {
@@ -370,6 +376,12 @@ impl Matrix {
 
     /// This method is used to delete a row of a matrix of size m x n and save the deleted row into a vector of size n x 1. The result is a matrix of size m-1 x n.
     pub fn del_row(self: &mut Self, row: u8) -> Result<Vector<f32>, LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         let rows = self.rows - 1;   // Calculate the new rows number.
 
         is_valid_row(row, self.rows)?;  // Check if the row you want to delete exists.
@@ -461,6 +473,12 @@ impl Matrix {
 
     /// This method is used to fill an entire matrix of size m x n with a given value.
     pub fn fill(self: &mut Self, value: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Assign the value to each element of the matrix.
         for row in 0..self.rows {                   // Iterate for each row of the matrix.
             for col in 0..self.cols {               // Iterate for each column of the matrix.
@@ -661,6 +679,12 @@ impl Matrix {
 
     // This method is used to ...
     pub fn add_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate for each row of the matrix.
         for row in 0..self.rows {
             // Iterate for each column of the matrix.
@@ -779,6 +803,12 @@ impl Matrix {
 
     // This method is used to ...
     pub fn sub_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate for each row of the matrix.
         for row in 0..self.rows {
             // Iterate for each column of the matrix.
@@ -811,6 +841,12 @@ impl Matrix {
     /// This method is used to perform the matrix multiplication operation on two matrices of sizes m x n and (n x k) respectively.
     // Naive implementation, as it is not very efficient for large matrices (for larger matrices, use the "divide and conquer" strategy).
     pub fn mul(self: &mut Self, matrix1: &Self, matrix2: &Self) -> Result<(), LinalgError> {
+        // Check that the matrices are initialized.
+        if !self.initialized || !matrix1.initialized || !matrix2.initialized {
+            // At least one of the matrices is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         if matrix1.cols != matrix2.rows || self.rows != matrix1.rows || self.cols != matrix2.cols {
             return Err(LinalgError::InvalidSize)    // Return an error.
         }
@@ -937,6 +973,12 @@ impl Matrix {
 
     /// This method is used to multiply by a scalar all elements of a matrix of size m x n.
     pub fn mul_by_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and multiply it by the scalar.
         for row in 0..self.rows {
             for col in 0..self.cols {
@@ -950,6 +992,12 @@ impl Matrix {
 
     /// This method is used to apply an exponent to all elements of a matrix of size m x n.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and apply exponent.
         for row in 0..self.rows {
             for col in 0..self.cols {
@@ -1216,6 +1264,12 @@ impl Matrix {
 
     /// This method is used to check if a matrix of size m x n is upper triangular.
     pub fn is_upper_triangular(self: &Self) -> Result<bool, LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Loops on every row except the first (which doesn't need to have null elements).
         for row in 1..self.rows {
             // We loop for the columns corresponding to the lower triangular matrix as a function of the current row.
@@ -1232,6 +1286,12 @@ impl Matrix {
 
     /// This method is used to check if a matrix of size m x n is lower triangular.
     pub fn is_lower_triangular(self: &Self) -> Result<bool, LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Loops on every row except the last (which doesn't need to have null elements).
         for row in 0..self.rows - 1 {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
@@ -1248,6 +1308,12 @@ impl Matrix {
 
     /// This method is used to calculate the frobenius norm of a matrix of size m x n.
     pub fn calculate_frobenius_norm(self: &Self) -> Result<f32, LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         let mut frobenius_norm: f32 = 0.0;
 
         // Iterate through each element, square it, and accumulate the sum.
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index c92fad8..dbeaa3e 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -162,6 +162,12 @@ impl Vector<f32> {
     #[cfg(feature = "std")]
     /// This method is used to diplay a vector of size m x 1.
     pub fn print(self: &Self) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and print it and move to the next row with a newline character.
         for row in 0..self.rows {
             let element = self.get_element(row)?;   // Retrieve the value of the specified element from the vector.
@@ -175,6 +181,12 @@ impl Vector<f32> {
 
     /// This method is used to fill an entire vector of size m x 1 with a given value.
     pub fn fill(self: &mut Self, value: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Assign the value to each element of the vector.
         for row in 0..self.rows {
             self.set_element(row, value)?;  // Set the value.
@@ -319,6 +331,12 @@ impl Vector<f32> {
 
     /// This method is used to ...
     pub fn add_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate for each row of the vector.
         for row in 0..self.rows {
             let element = self.get_element(row)? + scalar;  // Perform addition.
@@ -417,6 +435,12 @@ impl Vector<f32> {
 
     /// This method is used to ...
     pub fn sub_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate for each row of the vector.
         for row in 0..self.rows {
             let element = self.get_element(row)? - scalar;  // Perform subtraction.
@@ -445,6 +469,12 @@ impl Vector<f32> {
 
     /// This method is used to calculate the norm of a vector of size m x 1.
     pub fn calculate_norm(self: &Self) -> Result<f32, LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         let mut norm: f32 = 0.0;
 
         // Iterate through each element, square it, and accumulate the sum.
@@ -464,6 +494,12 @@ impl Vector<f32> {
 
     /// This method is used to normalize a vector of size m x 1.
     pub fn normalize(self: &mut Self) ->  Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         let norm: f32 = self.calculate_norm()?; // Calculate the norm of the vector.
 
         // Check if the vector is zero or not.
@@ -500,6 +536,12 @@ impl Vector<f32> {
 
     /// This method is used to ...
     pub fn mul_by_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and multiply it by the scalar.
         for row in 0..self.rows {
             let element = self.get_element(row)? * scalar;  // Peform multiplication.
@@ -633,6 +675,12 @@ impl Vector<f32> {
 
     /// This method is used to apply an exponent to all elements of a vector of size m x 1.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and apply exponent.
         for row in 0..self.rows {
             let element = powf(self.get_element(row)?, exponent);
-- 
2.43.0


From 14f6e2a48dacc7a15d3672cec6cb28153f6f38fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:42 +0000
Subject: [PATCH 02/43] fix: keep a matrix or vector initialized when its
 reinit is rejected

---
 linalg/src/matrix.rs | 3 +++
 linalg/src/vector.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index b6dd0ee..d33e476 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -63,6 +63,9 @@ impl Matrix {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check that the number of rows does not exceed M_MAX.
+        is_valid_cols_number(cols)?;    // Check that the number of columns does not exceed N_MAX.
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows, cols)?;     // Reinitialize the matrix.
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index dbeaa3e..4c2fa4e 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -49,6 +49,8 @@ impl<T: Default + Copy> Vector<T> {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check that the number of rows does not exceed M_MAX.
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows)?;           // Reinitialize the vector.
-- 
2.43.0


From 76a507d832e7d2cb22cc2c020f3ebe4668338787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:43 +0000
Subject: [PATCH 03/43] fix: leave the matrix unchanged when adding a row or
 column is rejected

The matrix was enlarged before the index and the vector length were
checked. An index of 255 also overflowed.
---
 linalg/src/matrix.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index d33e476..e132c72 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -339,9 +339,16 @@ impl Matrix {
 
     /// This method is used to add a row to a matrix of size m x n from a vector of size n x 1. The result is a matrix of size m+1 x n.
     pub fn add_row(self: &mut Self, vect: &Vector<f32>, row: u8) -> Result<(), LinalgError> {
-        let rows = self.rows + 1;   // Calculate the new rows number.
+        let rows = self.get_rows()? + 1;    // Calculate the new rows number.
 
         is_valid_rows_number(rows)?;    // Check that the new number of rows does not exceed M_MAX.
+        is_valid_row(row, rows)?;       // Check that the row to be added is valid.
+
+        // Check that the number of columns in the matrix is the same as the number of rows in the vector.
+        if self.cols != vect.get_rows()? {
+            // The number of columns in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
 
         self.set_rows(rows)?;   // Update it.
 
@@ -359,9 +366,16 @@ impl Matrix {
 
     /// This method is used to add a column to a matrix of size m x n from a vector of size m x 1. The result is a matrix of size m x n+1.
     pub fn add_col(self: &mut Self, vect: &Vector<f32>, col: u8) -> Result<(), LinalgError> {
-        let cols = self.cols + 1;   // Calculate the new columns number.
+        let cols = self.get_cols()? + 1;    // Calculate the new columns number.
 
         is_valid_cols_number(cols)?;    // Check that the new number of columns does not exceed N_MAX.
+        is_valid_col(col, cols)?;       // Check that the column to be added is valid.
+
+        // Check that the number of rows in the matrix is the same as the number of rows in the vector.
+        if self.rows != vect.get_rows()? {
+            // The number of rows in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
 
         self.set_cols(cols)?;   // Update it.
 
-- 
2.43.0


From c94f4f0dbaf2b49fd6e33bc586d8ff3cc4866340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:58 +0000
Subject: [PATCH 04/43] fix: select the LUP pivot by magnitude in the current
 column

The candidates were compared with the first column and without their
magnitude, so regular matrices were reported as singular.
---
 linalg/src/linalg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 7cf2635..ad91e6f 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -22,7 +22,7 @@ pub fn lup(mat: &Matrix) -> Result<(Matrix, Vector<u8>), LinalgError> {
         let mut row_max = row;
 
         for col in (row + 1)..mat.get_cols()? {
-            if lu.get_element(p.get_element(col)?, row)? > lu.get_element(p.get_element(row_max)?, 0)? {
+            if fabsf(lu.get_element(p.get_element(col)?, row)?) > fabsf(lu.get_element(p.get_element(row_max)?, row)?) {
                 row_max = col;
             }
         }
-- 
2.43.0


From aa4ef158cc2e0ff0b9d84acf7c87eb589db963bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:20 +0000
Subject: [PATCH 05/43] fix: give the determinant the sign of the row
 permutation

Two independent row swaps were counted as an odd permutation.
---
 linalg/src/matrix.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index e132c72..4318c3f 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1361,15 +1361,18 @@ impl Matrix {
             determinant *= lu.get_element(p.get_element(row)?, row)?;
         }
 
-        let mut col: u8 = 0;
+        let mut inversions: u8 = 0;
 
+        // Count the inversions of the permutation (its parity gives the sign of the determinant).
         for row in 0..self.rows {
-            if p.get_element(row)? != row {
-                col += 1;
+            for next_row in (row + 1)..self.rows {
+                if p.get_element(row)? > p.get_element(next_row)? {
+                    inversions += 1;
+                }
             }
         }
 
-        if col != 0 && (col - 1) % 2 == 1 {
+        if inversions % 2 == 1 {
             determinant = -determinant;
         }
 
-- 
2.43.0


From 0a7c4c0823c48a40c07028fa889026c6dee53505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:21 +0000
Subject: [PATCH 06/43] fix: reset the running sum for each element of the LR
 factorization

---
 linalg/src/matrix.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 4318c3f..74aa90d 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1093,10 +1093,12 @@ impl Matrix {
         }
 
         // Perform LR decomposition (factorization).
-        let mut sum: f32 = 0.0;
+        let mut sum: f32;
 
         for col in 0..n {
             for j in col..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(col, k)? * r.get_element(k, j)?;
                 }
-- 
2.43.0


From a02fa88ea376eb91538cf6d25adb5066cf89a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:23 +0000
Subject: [PATCH 07/43] fix: compute the Crout factorization of regular
 matrices

The singularity test was inverted, so every matrix with a usable pivot
was rejected. The partial sums were also carried over between elements.
---
 linalg/src/matrix.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 74aa90d..46df529 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1162,12 +1162,14 @@ impl Matrix {
         l.fill_identity()?; // Set the diagonal elements of L to 1 (identity).
 
         // Perform LU factorization.
-        let mut sum: f32 = 0.0;
+        let mut sum: f32;
 
         for row in 0..n {
             // Step 1 - Find U.
             for col in row..n {
-                for k in 0..col {
+                sum = 0.0;
+
+                for k in 0..row {
                     sum += l.get_element(row, k)? * u.get_element(k, col)?;
                 }
 
@@ -1176,18 +1178,18 @@ impl Matrix {
                 u.set_element(row, col, element)?;
             }
 
-            sum = 0.0;
-
             // Step 2 - Find L using U.
             for col in (row+1)..n {
-                for k in 0..col {
+                sum = 0.0;
+
+                for k in 0..row {
                     sum += l.get_element(col, k)? * u.get_element(k, row)?;
                 }
 
                 let u_element = u.get_element(row, row)?;
 
                 // The matrix A may be singular (non-invertible) or poor conditionned (due to numerical errors).
-                if !allclose(u_element, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+                if allclose(u_element, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
                     return Err(LinalgError::Singular);  // Return an error (avoid a division by 0).
                 }
 
-- 
2.43.0


From df60409c6b17c443533f1a3ee0365f8a5561f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:56 +0000
Subject: [PATCH 08/43] fix: return a lower triangular Cholesky factor

The elements above the diagonal were computed too and divided by the
placeholder pivot. A null leading minor was accepted as positive.
---
 linalg/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 46df529..6486335 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1567,7 +1567,7 @@ impl Matrix {
             }
 
             // Check the determinant of the submatrix.
-            if tmp.det()? < 0.0 {
+            if tmp.det()? <= 0.0 {
                 return Ok(false);
             }
         }
@@ -1627,7 +1627,7 @@ impl Matrix {
                 l.set_element(col, col, EPSILON)?;
             }
 
-            for row in 0..self.rows {
+            for row in col..self.rows {
                 let mut s2: f32 = 0.0;
 
                 for k in 0..col {
-- 
2.43.0


From 103c614d416281e16aa1e7596ace8f6b2aa47f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:58 +0000
Subject: [PATCH 09/43] fix: complete the QR factorization of singular and
 rectangular matrices

The factorization stopped at the first dependent column and left the
remaining columns of Q unprocessed. R had the wrong size for rectangular
matrices, so their factorization was always rejected.
---
 linalg/src/matrix.rs | 48 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 6486335..4f09b00 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1230,7 +1230,7 @@ impl Matrix {
         q.copy_from(&self)?;
 
         let mut r: Matrix = Matrix::new();
-        r.init(self.rows, self.cols)?;
+        r.init(self.cols, self.cols)?;
 
         let mut tmp: Matrix = Matrix::new();
         tmp.init(self.rows, self.cols)?;
@@ -1265,7 +1265,7 @@ impl Matrix {
                     q.set_element(k, col, element)?;
                 }
             } else {
-                break;
+                q.complete_column(col)?;    // The column depends linearly on the previous ones.
             }
         }
 
@@ -1276,6 +1276,50 @@ impl Matrix {
         Ok((q, r))
     }
 
+    /// This method is used to replace a column with a unit vector orthogonal to the previous (orthonormal) columns, or with a null vector if there is none.
+    fn complete_column(self: &mut Self, col: u8) -> Result<(), LinalgError> {
+        for axis in 0..self.rows {
+            // Start from a vector of the canonical basis.
+            for row in 0..self.rows {
+                self.set_element(row, col, if row == axis && col < self.rows { 1.0 } else { 0.0 })?;
+            }
+
+            // Remove its components along the previous columns.
+            for previous in 0..col {
+                let mut dot_product: f32 = 0.0;
+
+                for k in 0..self.rows {
+                    dot_product += self.get_element(k, previous)? * self.get_element(k, col)?;
+                }
+
+                for k in 0..self.rows {
+                    let element = self.get_element(k, col)? - dot_product * self.get_element(k, previous)?;
+                    self.set_element(k, col, element)?;
+                }
+            }
+
+            let mut norm: f32 = 0.0;
+
+            for row in 0..self.rows {
+                norm += self.get_element(row, col)? * self.get_element(row, col)?;
+            }
+
+            norm = sqrtf(norm);
+
+            // At least one vector of the canonical basis keeps half of its length.
+            if norm > 0.4 {
+                for k in 0..self.rows {
+                    let element = self.get_element(k, col)? / norm;
+                    self.set_element(k, col, element)?;
+                }
+
+                break;
+            }
+        }
+
+        Ok(())  // Return no error.
+    }
+
     /*
     /// This method is used to check if a matrix of size m x n is in row echelon form.
     pub fn is_row_echelon_form(self: &Self) -> Result<bool, LinalgError> {
-- 
2.43.0


From 023baf82bf59ce7616bfea93317947d2c2e4456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:59 +0000
Subject: [PATCH 10/43] fix: test the triangular form of rectangular matrices

A tall matrix was rejected with an invalid column error. The last row of
a wide matrix was not looked at.
---
 linalg/src/matrix.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 4f09b00..8db6557 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1338,7 +1338,7 @@ impl Matrix {
         // Loops on every row except the first (which doesn't need to have null elements).
         for row in 1..self.rows {
             // We loop for the columns corresponding to the lower triangular matrix as a function of the current row.
-            for col in 0..row {
+            for col in 0..min(row, self.cols) {
                 // If the matrix is upper diagonal, the element must always be zero, otherwise the matrix cannot be upper diagonal.
                 if !allclose(self.get_element(row, col)?, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
                     return Ok(false);   // Return the result with no error.
@@ -1357,8 +1357,8 @@ impl Matrix {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
-        // Loops on every row except the last (which doesn't need to have null elements).
-        for row in 0..self.rows - 1 {
+        // Loops on every row (the last one may have null elements too if the matrix has more columns than rows).
+        for row in 0..self.rows {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
             for col in row + 1..self.cols {
                 // If the matrix is lower triangular, the element must always be zero, otherwise the matrix cannot be lower triangular.
-- 
2.43.0


From f4ce674dba485489732f05df7270188a36679f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:50 +0000
Subject: [PATCH 11/43] fix: report eigenvalue iterations that do not converge

Reaching the iteration limit returned zero eigenvalues without an error.
A diagonal that stagnates while the matrix is still far from triangular
was taken for convergence, and the null matrix never converged.
---
 linalg/src/linalg.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index ad91e6f..6dd6a9f 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -192,21 +192,31 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
 
         // Calculate the relative variation in eigenvalues.
         delta_eigenvalues.sub(&eigenvalues, &previous_eigenvalues)?;
-        let relative_variation = delta_eigenvalues.calculate_norm()? / eigenvalues.calculate_norm()?;
+        let is_stable = delta_eigenvalues.calculate_norm()? <= EPSILON * eigenvalues.calculate_norm()?;
+
+        // Calculate the norm of the elements below the diagonal (the matrix is triangular when the algorithm has converged).
+        let mut lower_norm: f32 = 0.0;
+
+        for row in 1..m {
+            for col in 0..row {
+                lower_norm += a.get_element(row, col)? * a.get_element(row, col)?;
+            }
+        }
+
+        lower_norm = sqrtf(lower_norm);
 
         // Check for convergence.
-        if relative_variation < EPSILON {
-            break;
+        if is_stable && lower_norm <= 10.0 * EPSILON * a.calculate_frobenius_norm()? {
+            return Ok((eigenvalues, eigenvectors)); // Return eigen values and eigen vectors of the matrix with no error.
         } else {
             // Update the previous eigenvalues for the next iteration.
             for k in 0..m {
-                eigenvalues.set_element(k, 0.0)?;
                 previous_eigenvalues.set_element(k, a.get_element(k, k)?)?;
             }
         }
     }
 
-    Ok((eigenvalues, eigenvectors)) // Return eigen values and eigen vectors of the matrix with no error.
+    Err(LinalgError::Unsolvable)    // The algorithm has not converged: return an error.
 }
 
 /*
-- 
2.43.0


From 2e64330a4b812e1c19636256dd7f499615d6bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:51 +0000
Subject: [PATCH 12/43] fix: use the Wilkinson shift in the shifted eigenvalue
 iteration

The shift was on the wrong side of the last element, was undefined for
diagonal blocks and panicked for matrices of size 1.
---
 linalg/src/linalg.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 6dd6a9f..184a2bb 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -137,21 +137,25 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
         let mut tmp = Matrix::new();    // Create a new matrix.
         tmp.init(m, m)?;                // Initialize the new matrix with the same size as the input matrix.
 
-        if shifted {
+        if shifted && m > 1 {
             // Apply Wilkinson shift method to determine the shift.
             let a_ = a.get_element(m - 2, m - 2)?;
             let b = a.get_element(m - 2, m - 1)?;
             let c = a.get_element(m - 1, m - 1)?;
 
-            let delta = ((a_ - c) / 2.0) * ((a_ - c) / 2.0) + b * b;
+            let delta = (a_ - c) / 2.0;
+            let denominator = fabsf(delta) + sqrtf(delta * delta + b * b);
 
             #[allow(unused_assignments)]
-            let mut s: f32 = 0.0;
-
-            if a_ < c {
-                s = c - delta / (fabsf(b) + sqrtf(delta));
-            } else {
-                s = c + delta / (fabsf(b) + sqrtf(delta));
+            let mut s: f32 = c;
+
+            // The last element is already an eigenvalue if the denominator is null.
+            if denominator > 0.0 {
+                if a_ < c {
+                    s = c + b * b / denominator;
+                } else {
+                    s = c - b * b / denominator;
+                }
             }
 
             //Q, R = qr_decomposition(A - s*I)
-- 
2.43.0


From d9130587bb8969fece771592e89a256f26ccffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:16 +0000
Subject: [PATCH 13/43] fix: keep the columns of Q orthogonal for nearly
 dependent columns

The rounding errors of the Gram-Schmidt step were amplified by the
normalization of a small remainder, which also spoiled the eigenvalues
computed with this factorization.
---
 linalg/src/matrix.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 8db6557..05fd24e 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1237,16 +1237,19 @@ impl Matrix {
 
         // Apply the Gram-Schmidt method to orthogonalise the columns and obtain the Q matrix.
         for col in 0..self.cols {
-            for row in 0..col {
-                let mut dot_product: f32 = 0.0;
+            // A second pass removes the rounding errors left by the first one when the columns are nearly dependent.
+            for _pass in 0..2 {
+                for row in 0..col {
+                    let mut dot_product: f32 = 0.0;
 
-                for k in 0..self.rows {
-                    dot_product += q.get_element(k, row)? * q.get_element(k, col)?;
-                }
+                    for k in 0..self.rows {
+                        dot_product += q.get_element(k, row)? * q.get_element(k, col)?;
+                    }
 
-                for k in 0..self.rows {
-                    let element = q.get_element(k, col)? - dot_product * q.get_element(k, row)?;
-                    q.set_element(k, col, element)?;
+                    for k in 0..self.rows {
+                        let element = q.get_element(k, col)? - dot_product * q.get_element(k, row)?;
+                        q.set_element(k, col, element)?;
+                    }
                 }
             }
 
-- 
2.43.0


From 39481e2a84873686eea210ccb3ba9c8a37eeec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:23 +0000
Subject: [PATCH 14/43] fix: compute the exponential of real and almost pure
 quaternions

The exponential of a real quaternion was always 1, and the in-place
version looked for a pure quaternion after overwriting it.
---
 quaternion/src/quaternion.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 7d99291..cd4630e 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -453,11 +453,12 @@ impl Quaternion for Vector<f32> {
     fn exp(self: &mut Self) -> Result<(), LinalgError> {
         // Check if the quaternion is real.
         if self.is_real()? {
-            self.fillq(1.0, 0.0, 0.0, 0.0)?;
+            self.fillq(powf(E, self.get_qw()?), 0.0, 0.0, 0.0)?;
 
             return Ok(());  // Return no error.
         }
 
+        let is_pure = self.is_pure()?;          // Check if the quaternion is pure.
         let qw = self.get_element(0)?;          // Retrieve real part of the quaternion.
         let mut qv = self.get_vector_part()?;   // Retrieve vector part of the quaternion.
         let qv_norm = qv.calculate_norm()?;     // Calculate its norm.
@@ -468,7 +469,7 @@ impl Quaternion for Vector<f32> {
         self.fillq(cosf(qv_norm), qv.get_element(0)?, qv.get_element(1)?, qv.get_element(2)?)?;
 
         // Check if the quaternion is pure.
-        if self.is_pure()? {
+        if is_pure {
             return Ok(());  // Return no error.
         }
 
@@ -483,7 +484,7 @@ impl Quaternion for Vector<f32> {
 
         // Check if the quaternion is real.
         if self.is_real()? {
-            q_exp.fillq(1.0, 0.0, 0.0, 0.0)?;
+            q_exp.fillq(powf(E, self.get_qw()?), 0.0, 0.0, 0.0)?;
 
             return Ok(q_exp);   // Return the result with no error.
         }
-- 
2.43.0


From 5dc1af63b88cbaab187f683437e3586a6b1586b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:24 +0000
Subject: [PATCH 15/43] fix: keep the pitch angle defined at the gimbal lock

Rounding errors can bring the argument of the arc sine above 1.
---
 quaternion/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index cd4630e..df9daf4 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -738,7 +738,7 @@ impl Quaternion for Vector<f32> {
         let qz = self.get_qz()?;
 
         let phi = atan2f(2.0*(qw*qx + qy*qz), 1.0 - 2.0*(qx*qx + qy*qy));   // Calculate roll angle.
-        let theta = asinf(2.0*(qw*qy - qz*qx));                             // Calculate pitch angle.
+        let theta = asinf(clip(2.0*(qw*qy - qz*qx), -1.0, 1.0));            // Calculate pitch angle.
         let psi = atan2f(2.0*(qw*qz + qx*qy), 1.0 - 2.0*(qy*qy + qz*qz));   // Calculate yaw angle.
 
         // Store each angle in the vector.
-- 
2.43.0


From 9078f9c572eee10cfdafcb3d7123b188d55d7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:26 +0000
Subject: [PATCH 16/43] fix: leave the quaternion unchanged when filling it is
 rejected

---
 quaternion/src/quaternion.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index df9daf4..fd2e03e 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -5,7 +5,7 @@ extern crate libm;
 use linalg::vector::Vector;
 use linalg::matrix::Matrix;
 use linalg::common::{EPSILON, LinalgError, E};
-use utils::utils::{allclose, clip, Sign};
+use utils::utils::{allclose, clip, is_valid_value, Sign};
 use libm::{sqrtf, atan2f, asinf, powf, cosf, sinf};
 
 pub trait Quaternion {
@@ -276,6 +276,11 @@ impl Quaternion for Vector<f32> {
             return Err(LinalgError::InvalidSize);   // Return an error.
         }
 
+        // Check that all the components are valid before modifying the quaternion.
+        for component in [qw, qx, qy, qz] {
+            is_valid_value(component).map_err(LinalgError::UtilsError)?;
+        }
+
         // Fill the quaternion.
         self.set_element(0, qw)?;
         self.set_element(1, qx)?;
-- 
2.43.0


From e2bd9edd50242326de8aa18965f9e3e4cacfc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:27 +0000
Subject: [PATCH 17/43] fix: convert a DCM into the quaternion of the same
 rotation with Hughes's method

The quaternion of the inverse rotation was returned, the signs of the
components were lost for half turns and the division by a small real
part was inaccurate.
---
 quaternion/src/quaternion.rs | 55 ++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index fd2e03e..ce07eec 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -541,34 +541,47 @@ impl Quaternion for Vector<f32> {
         }
 
         // Calculate the real part of the quaternion.
-        let n = 0.5 * sqrtf(1.0 + trace);  // eq. 15 on p. 18 of "Spacecraft Attitude Dynamics".
+        let mut n = 0.5 * sqrtf(1.0 + trace);  // eq. 15 on p. 18 of "Spacecraft Attitude Dynamics".
 
-        let qx: f32;
-        let qy: f32;
-        let qz: f32;
+        let mut e: [f32; 3] = [0.0; 3];
 
         // Calculate the vector part of the quaternion.
-        if allclose(n, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
-            // The trace is -1, which implies that the real part of quaternion is null and therefore the quaternion is pure.
-            let mut e = dcm.diag(None)?;
-            e.add_scalar_in_place(1.0)?;
-            e.mul_by_scalar_in_place(0.5)?;
-            e.power_elements(0.5)?;
-
-            qx = e.get_element(0)?;
-            qy = e.get_element(1)?;
-            qz = e.get_element(2)?;
-        } else {    // eq. 16 on p. 18 of "Spacecraft Attitude Dynamics".
-            qx = 0.25 * (dcm.get_element(1, 2)? - dcm.get_element(2, 1)?) / n;
-            qy = 0.25 * (dcm.get_element(2, 0)? - dcm.get_element(0, 2)?) / n;
-            qz = 0.25 * (dcm.get_element(0, 1)? - dcm.get_element(1, 0)?) / n;
+        if trace < 0.0 {
+            // The real part of the quaternion may be too small to divide by it: calculate the largest component of the vector part first, the other components follow from it.
+            let mut i: u8 = 0;
+
+            for axis in 1..3 {
+                if dcm.get_element(axis, axis)? > dcm.get_element(i, i)? {
+                    i = axis;
+                }
+            }
+
+            let j = (i + 1) % 3;
+            let k = (i + 2) % 3;
+
+            let largest = 0.5 * sqrtf(1.0 + dcm.get_element(i, i)? - dcm.get_element(j, j)? - dcm.get_element(k, k)?);
+
+            e[i as usize] = largest;
+            e[j as usize] = 0.25 * (dcm.get_element(i, j)? + dcm.get_element(j, i)?) / largest;
+            e[k as usize] = 0.25 * (dcm.get_element(i, k)? + dcm.get_element(k, i)?) / largest;
+            n = 0.25 * (dcm.get_element(k, j)? - dcm.get_element(j, k)?) / largest;
+
+            // Keep the real part positive (a quaternion and its opposite describe the same rotation).
+            if n < 0.0 {
+                n = -n;
+                e = [-e[0], -e[1], -e[2]];
+            }
+        } else {    // eq. 16 on p. 18 of "Spacecraft Attitude Dynamics" (transposed: the DCM rotates vectors).
+            e[0] = 0.25 * (dcm.get_element(2, 1)? - dcm.get_element(1, 2)?) / n;
+            e[1] = 0.25 * (dcm.get_element(0, 2)? - dcm.get_element(2, 0)?) / n;
+            e[2] = 0.25 * (dcm.get_element(1, 0)? - dcm.get_element(0, 1)?) / n;
         }
 
         // Fill the quaternion.
         self.set_element(0, n)?;
-        self.set_element(1, qx)?;
-        self.set_element(2, qy)?;
-        self.set_element(3, qz)?;
+        self.set_element(1, e[0])?;
+        self.set_element(2, e[1])?;
+        self.set_element(3, e[2])?;
 
         // TODO: check if the quaternion is correct. ex: (0 0 0 0) is not force qw to 1 or return an error.
         // Add some code here.
-- 
2.43.0


From 006c3c9f4cc8381b9d4cd9ca30fdcb0f01a924eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:28 +0000
Subject: [PATCH 18/43] fix: convert large rotations into quaternions with
 Chiaverini's method

The clipping bound cut components above 0.7, and the signs vanished
for half turns and for rotations around a single axis.
---
 quaternion/src/quaternion.rs | 52 +++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index ce07eec..51bb4ad 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -5,7 +5,7 @@ extern crate libm;
 use linalg::vector::Vector;
 use linalg::matrix::Matrix;
 use linalg::common::{EPSILON, LinalgError, E};
-use utils::utils::{allclose, clip, is_valid_value, Sign};
+use utils::utils::{allclose, clip, is_valid_value};
 use libm::{sqrtf, atan2f, asinf, powf, cosf, sinf};
 
 pub trait Quaternion {
@@ -77,6 +77,41 @@ pub trait Quaternion {
     //fn convert_from_euler(self: &mut Self, phi: f32, theta: f32, psi: f32) -> Result<(), LinalgError>;
 }
 
+/// This function is used to give the components of a quaternion, known by their magnitudes, the signs of the rotation described by a DCM.
+fn apply_signs(magnitudes: [f32; 4], dcm: &Matrix) -> Result<[f32; 4], LinalgError> {
+    // Products of two different components (multiplied by 4).
+    let wx = dcm.get_element(2, 1)? - dcm.get_element(1, 2)?;
+    let wy = dcm.get_element(0, 2)? - dcm.get_element(2, 0)?;
+    let wz = dcm.get_element(1, 0)? - dcm.get_element(0, 1)?;
+    let xy = dcm.get_element(0, 1)? + dcm.get_element(1, 0)?;
+    let xz = dcm.get_element(0, 2)? + dcm.get_element(2, 0)?;
+    let yz = dcm.get_element(1, 2)? + dcm.get_element(2, 1)?;
+
+    // The signs are read from the products with the largest component (the other products may all be null).
+    let mut q = magnitudes;
+
+    let products = if q[0] >= q[1] && q[0] >= q[2] && q[0] >= q[3] {
+        [1.0, wx, wy, wz]
+    } else if q[1] >= q[2] && q[1] >= q[3] {
+        [wx, 1.0, xy, xz]
+    } else if q[2] >= q[3] {
+        [wy, xy, 1.0, yz]
+    } else {
+        [wz, xz, yz, 1.0]
+    };
+
+    // Keep the real part positive (a quaternion and its opposite describe the same rotation).
+    let reference: f32 = if products[0] < 0.0 { -1.0 } else { 1.0 };
+
+    for k in 0..4 {
+        if products[k] * reference < 0.0 {
+            q[k] = -q[k];
+        }
+    }
+
+    Ok(q)   // Return the result with no error.
+}
+
 impl Quaternion for Vector<f32> {
     // This method is used to check if a vector can be used as a quaternion.
     fn is_quaternion(self: &Self) -> Result<bool, LinalgError> {
@@ -611,20 +646,17 @@ impl Quaternion for Vector<f32> {
         trace = clip(trace, -1.0, 3.0);
 
         // TODO: try to be more efficient.
-        let dcm_32 = dcm.get_element(2, 1)?;
-        let dcm_23 = dcm.get_element(1, 2)?;
         let dcm_11 = dcm.get_element(0, 0)?;
         let dcm_22 = dcm.get_element(1, 1)?;
         let dcm_33 = dcm.get_element(2, 2)?;
-        let dcm_13 = dcm.get_element(0, 2)?;
-        let dcm_31 = dcm.get_element(2, 0)?;
-        let dcm_21 = dcm.get_element(1, 0)?;
-        let dcm_12 = dcm.get_element(0, 1)?;
 
         let qw = 0.5 * sqrtf(trace + 1.0);
-        let qx = 0.5 * (dcm_32 - dcm_23).sign() * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 1.0) + 1.0);
-        let qy = 0.5 * (dcm_13 - dcm_31).sign() * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 1.0) + 1.0);
-        let qz = 0.5 * (dcm_21 - dcm_12).sign() * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 1.0) + 1.0);
+        let qx = 0.5 * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 3.0) + 1.0);
+        let qy = 0.5 * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 3.0) + 1.0);
+        let qz = 0.5 * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 3.0) + 1.0);
+
+        // Give each component its sign.
+        let [qw, qx, qy, qz] = apply_signs([qw, qx, qy, qz], &dcm)?;
 
         // Fill the quaternion.
         self.set_element(0, qw)?;
-- 
2.43.0


From ddb40ac9ca73558589b4dd9d5bea29a3edcc3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:30 +0000
Subject: [PATCH 19/43] fix: give the components their signs in Sarabandi's
 method

---
 quaternion/src/quaternion.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 51bb4ad..7151858 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -759,6 +759,9 @@ impl Quaternion for Vector<f32> {
             qz = 0.5 * sqrtf(nominator / denominator);
         }
 
+        // Give each component its sign.
+        let [qw, qx, qy, qz] = apply_signs([qw, qx, qy, qz], &dcm)?;
+
         // Fill the quaternion.
         self.set_element(0, qw)?;
         self.set_element(1, qx)?;
-- 
2.43.0


From 1aa31f284db24fb38e55b8d3aed2c89292866da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:20 +0000
Subject: [PATCH 20/43] fix: compute the logarithm of small rotations

The arc cosine and the division by the sine of the angle were undefined
for the identity and for rotations whose trace exceeds 3 by rounding.
---
 linalg/src/matrix.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 05fd24e..f21d53c 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1,7 +1,7 @@
 extern crate utils;
 extern crate libm;
 
-use utils::utils::{is_valid_value, allclose, min, factorial};
+use utils::utils::{is_valid_value, allclose, clip, min, factorial};
 use libm::{powf, sqrtf, fabsf, acosf, sinf};
 
 use crate::common::{M_MAX, N_MAX, EPSILON, LinalgError, is_valid_rows_number, is_valid_cols_number, is_valid_row, is_valid_col};
@@ -1852,13 +1852,14 @@ impl Matrix {
             //return Err(LinalgError::); // Return an error.
         }
 
-        let theta = acosf((self.trace()? - 1.0) / 2.0);
+        let theta = acosf(clip((self.trace()? - 1.0) / 2.0, -1.0, 1.0));
+        let factor = if theta > EPSILON { theta / (2.0 * sinf(theta)) } else { 0.5 };   // The limit for small angles is 1 / 2.
 
         let mut transposed_mat = self.duplicate()?; // Duplicate the actual matrix.
         transposed_mat.transpose()?;                // Tranpose it.
 
         let mut result_mat = self.sub_new(&transposed_mat)?;
-        result_mat.mul_by_scalar_in_place(theta / (2.0 * sinf(theta)))?;
+        result_mat.mul_by_scalar_in_place(factor)?;
 
         Ok(result_mat)  // Return the result matrix with no error.
     }
@@ -1877,13 +1878,14 @@ impl Matrix {
             //return Err(LinalgError::); // Return an error.
         }
 
-        let theta = acosf((self.trace()? - 1.0) / 2.0);
+        let theta = acosf(clip((self.trace()? - 1.0) / 2.0, -1.0, 1.0));
+        let factor = if theta > EPSILON { theta / (2.0 * sinf(theta)) } else { 0.5 };   // The limit for small angles is 1 / 2.
 
         let mut transposed_mat = self.duplicate()?; // Duplicate the actual matrix.
         transposed_mat.transpose()?;                // Tranpose it.
 
         self.sub_in_place(&transposed_mat)?;
-        self.mul_by_scalar_in_place(theta / (2.0 * sinf(theta)))?;
+        self.mul_by_scalar_in_place(factor)?;
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From 81fb66ca668008325fb6d5e7b14ad577fdbaed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:21 +0000
Subject: [PATCH 21/43] fix: interpolate between parallel vectors with slerp

Rounding errors can bring the scalar product of unit vectors above 1, and
the weights were divided by the null sine of their angle.
---
 linalg/src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 4c2fa4e..aba21d8 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -1,6 +1,6 @@
 extern crate utils;
 
-use utils::utils::{is_valid_value, in_range, allclose};
+use utils::utils::{is_valid_value, in_range, allclose, clip};
 use libm::{acosf, sinf, sqrtf, powf};
 
 use crate::common::{M_MAX, EPSILON, LinalgError};
@@ -622,9 +622,15 @@ impl Vector<f32> {
         }
 
         // Perform scalar product.
-        let scalar = vect1.dot_product(&vect2)?;
+        let scalar = clip(vect1.dot_product(&vect2)?, -1.0_f32, 1.0_f32);
         let theta = acosf(scalar);  // Angle between the axis of the first vector and the second one.
 
+        // Check if the vectors are parallel.
+        if sinf(theta) <= EPSILON {
+            // The vectors are parallel: the spherical interpolation amounts to the linear one.
+            return self.lerp(&vect1, &vect2, alpha);    // Return the result of the linear interpolation.
+        }
+
         // Create a copy of the first vector.
         let mut v1 = Self::new();
         v1.init(self.get_rows()?)?;
-- 
2.43.0


From b290c0ab15323f7667ef9acbb92190e3bd02053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:23 +0000
Subject: [PATCH 22/43] fix: leave the matrix unchanged when its inversion is
 rejected

---
 linalg/src/matrix.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index f21d53c..0b66742 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -961,6 +961,7 @@ impl Matrix {
         let mut tmp_vec: Vector<f32> = Vector::new();
         tmp_vec.init(self.rows)?;
 
+        let mut inverse = self.duplicate()?;    // The matrix is only modified once its inverse is known.
 
         // Apply PLU decomposition and check if the determinant is null.
         let (lu, p) = match lup(&self) {
@@ -977,13 +978,14 @@ impl Matrix {
             };
 
             for col in 0..self.cols {
-                self.set_element(row, col, x.get_element(col)?)?;
+                inverse.set_element(row, col, x.get_element(col)?)?;
             }
 
             tmp_vec.set_element(row, 0.0)?;
         }
 
-        self.transpose()?;  // Transpose the result to get the inverse.
+        inverse.transpose()?;   // Transpose the result to get the inverse.
+        self.copy_from(&inverse)?;
 
         Ok(())
     }
-- 
2.43.0


From 7c0473c3f4964a86355dedfe432d7d7847bcddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:39 +0000
Subject: [PATCH 23/43] fix: report the overflow of a norm instead of returning
 infinity

Normalizing such a vector silently set it to zero.
---
 linalg/src/vector.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index aba21d8..aab2178 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -486,6 +486,9 @@ impl Vector<f32> {
 
         norm = sqrtf(norm);  // Calculate the square root of the sum to obtain the Euclidean norm.
 
+        // Check that the sum of the squares did not overflow.
+        is_valid_value(norm).map_err(LinalgError::UtilsError)?;
+
         // Check for numerical precision issues and set very small norms to zero.
         if norm <= EPSILON {
             norm = 0.0;
-- 
2.43.0


From 8b0aa147b562692644bc51fa1bd6eb67fb0170c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:02 +0000
Subject: [PATCH 24/43] fix: use the powers of the matrix in the Taylor series
 of the AR filter

The powers of its elements were used instead, and the factorials
overflowed above order 20.
---
 open_ahrs/src/ar.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 4af493a..1d30416 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -8,7 +8,6 @@ use linalg::matrix::Matrix;
 use linalg::vector::Vector;
 use linalg::common::EPSILON;
 use libm::{cosf, sinf};
-use utils::utils::factorial;
 use crate::gyrometer::{GyrometerConfig, Gyrometer};
 use crate::common::{OpenAHRSError, NumericalIntegrationMethod as NIM, calculate_omega_matrix};
 
@@ -120,13 +119,13 @@ impl AR {
                 } else if self.method == NIM::TaylorSeries {
                     omega.mul_by_scalar_in_place(0.5 * self.ts)?;
 
+                    // A' = S^0 / !0 (S = 0.5 * dt * Omega)
+                    let mut s = temp.duplicate()?;
+
                     for n in 1..=self.order {
-                        // S = 0.5 * dt * Omega
-                        let mut s = omega.duplicate()?;
                         // A' = S^n / !n
-                        s.power_elements(n as f32)?;
-                        let factor = factorial(n);
-                        s.mul_by_scalar_in_place(1.0 / factor as f32)?;
+                        s = s.mul_new(&omega)?;
+                        s.mul_by_scalar_in_place(1.0 / n as f32)?;
                         // A = A + A'
                         temp.add_in_place(&s)?;
                     }
-- 
2.43.0


From 44038cf76cf0429dd7bf5f2987032599ae2257d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:04 +0000
Subject: [PATCH 25/43] fix: integrate the angular rate in the body frame with
 the Euler method

---
 open_ahrs/src/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 1d30416..f44deed 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -147,7 +147,7 @@ impl AR {
 
                 let mut delta: Vector<f32> = Vector::new();
                 delta.init(4)?;
-                delta.mul(&w, &self.attitude)?;
+                delta.mul(&self.attitude, &w)?;
 
                 qw += delta.get_qw()?;
                 qx += delta.get_qx()?;
-- 
2.43.0


From 648182124d754bfcfe3461d11dfa99088d086697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:05 +0000
Subject: [PATCH 26/43] fix: keep the attitude of the AR filter when an update
 fails

---
 open_ahrs/src/ar.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index f44deed..c03e7d6 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -158,8 +158,11 @@ impl AR {
                 return Err(OpenAHRSError::ARMethodError);   // Return an error.
             }
 
-            self.attitude.fillq(qw, qx, qy, qz)?;
-            self.attitude.normalize()?;
+            // Normalize the new attitude before replacing the previous one (which is kept if an error occurs).
+            let mut attitude = self.attitude.duplicate()?;
+            attitude.fillq(qw, qx, qy, qz)?;
+            attitude.normalize()?;
+            self.attitude.copy_from(&attitude)?;
         } else {
             // The system is not moving (rotating) so the attitude doesn't change.
         }
-- 
2.43.0


From f0224b8834f32d2eafb7c44280b53b497a6fad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:01 +0000
Subject: [PATCH 27/43] fix: keep the calibration of a sensor as a whole when a
 new one is rejected

---
 open_ahrs/src/accelerometer.rs | 35 ++++++++++++++++++++--------------
 open_ahrs/src/gyrometer.rs     | 35 ++++++++++++++++++++--------------
 open_ahrs/src/magnetometer.rs  | 35 ++++++++++++++++++++--------------
 3 files changed, 63 insertions(+), 42 deletions(-)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index 2d6c917..c3c3e92 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -107,20 +107,27 @@ impl Accelerometer {
 
     // This function sets the configuration privately
     fn private_set_config(self: &mut Self, config: &AccelerometerConfig) -> Result<(), OpenAHRSError> {
-        self.scale_and_axes_misalignment_correction.set_element(0, 0, config.x_axis_scale_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(1, 1, config.y_axis_scale_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(2, 2, config.z_axis_scale_correction)?;
-
-        self.scale_and_axes_misalignment_correction.set_element(1, 0, config.xy_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(2, 0, config.xz_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(0, 1, config.yx_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(2, 1, config.yz_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(0, 2, config.zx_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(1, 2, config.zy_axes_misalignment_correction)?;
-
-        self.static_biases.set_element(0, config.x_axis_static_bias)?;
-        self.static_biases.set_element(1, config.y_axis_static_bias)?;
-        self.static_biases.set_element(2, config.z_axis_static_bias)?;
+        // Fill copies, so that the configuration is kept as a whole if one of the values is not valid.
+        let mut correction = self.scale_and_axes_misalignment_correction.duplicate()?;
+        let mut biases = self.static_biases.duplicate()?;
+
+        correction.set_element(0, 0, config.x_axis_scale_correction)?;
+        correction.set_element(1, 1, config.y_axis_scale_correction)?;
+        correction.set_element(2, 2, config.z_axis_scale_correction)?;
+
+        correction.set_element(1, 0, config.xy_axes_misalignment_correction)?;
+        correction.set_element(2, 0, config.xz_axes_misalignment_correction)?;
+        correction.set_element(0, 1, config.yx_axes_misalignment_correction)?;
+        correction.set_element(2, 1, config.yz_axes_misalignment_correction)?;
+        correction.set_element(0, 2, config.zx_axes_misalignment_correction)?;
+        correction.set_element(1, 2, config.zy_axes_misalignment_correction)?;
+
+        biases.set_element(0, config.x_axis_static_bias)?;
+        biases.set_element(1, config.y_axis_static_bias)?;
+        biases.set_element(2, config.z_axis_static_bias)?;
+
+        self.scale_and_axes_misalignment_correction.copy_from(&correction)?;
+        self.static_biases.copy_from(&biases)?;
 
         Ok(())
     }
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index dbb6f2a..3585a5a 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -107,20 +107,27 @@ impl Gyrometer {
 
     // This function sets the configuration privately
     fn private_set_config(self: &mut Self, config: &GyrometerConfig) -> Result<(), OpenAHRSError> {
-        self.scale_and_axes_misalignment_correction.set_element(0, 0, config.x_axis_scale_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(1, 1, config.y_axis_scale_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(2, 2, config.z_axis_scale_correction)?;
-
-        self.scale_and_axes_misalignment_correction.set_element(1, 0, config.xy_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(2, 0, config.xz_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(0, 1, config.yx_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(2, 1, config.yz_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(0, 2, config.zx_axes_misalignment_correction)?;
-        self.scale_and_axes_misalignment_correction.set_element(1, 2, config.zy_axes_misalignment_correction)?;
-
-        self.static_biases.set_element(0, config.x_axis_static_bias)?;
-        self.static_biases.set_element(1, config.y_axis_static_bias)?;
-        self.static_biases.set_element(2, config.z_axis_static_bias)?;
+        // Fill copies, so that the configuration is kept as a whole if one of the values is not valid.
+        let mut correction = self.scale_and_axes_misalignment_correction.duplicate()?;
+        let mut biases = self.static_biases.duplicate()?;
+
+        correction.set_element(0, 0, config.x_axis_scale_correction)?;
+        correction.set_element(1, 1, config.y_axis_scale_correction)?;
+        correction.set_element(2, 2, config.z_axis_scale_correction)?;
+
+        correction.set_element(1, 0, config.xy_axes_misalignment_correction)?;
+        correction.set_element(2, 0, config.xz_axes_misalignment_correction)?;
+        correction.set_element(0, 1, config.yx_axes_misalignment_correction)?;
+        correction.set_element(2, 1, config.yz_axes_misalignment_correction)?;
+        correction.set_element(0, 2, config.zx_axes_misalignment_correction)?;
+        correction.set_element(1, 2, config.zy_axes_misalignment_correction)?;
+
+        biases.set_element(0, config.x_axis_static_bias)?;
+        biases.set_element(1, config.y_axis_static_bias)?;
+        biases.set_element(2, config.z_axis_static_bias)?;
+
+        self.scale_and_axes_misalignment_correction.copy_from(&correction)?;
+        self.static_biases.copy_from(&biases)?;
 
         Ok(())
     }
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index def25da..7ab7245 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -114,20 +114,27 @@ impl Magnetometer {
 
     // This function is used to initialize a magnetometer.
     fn private_set_config(self: &mut Self, config: &MagnetometerConfig) -> Result<(), OpenAHRSError> {
-        self.scale_and_soft_iron_correction.set_element(0, 0, config.x_axis_scale_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 1, config.y_axis_scale_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 2, config.z_axis_scale_correction)?;
-
-        self.scale_and_soft_iron_correction.set_element(0, 1, config.xy_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 0, config.xz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(0, 2, config.yx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 0, config.yz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 2, config.zx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 1, config.zy_soft_iron_correction)?;
-
-        self.hard_iron_biases.set_element(0, config.x_axis_hard_iron_bias)?;
-        self.hard_iron_biases.set_element(1, config.y_axis_hard_iron_bias)?;
-        self.hard_iron_biases.set_element(2, config.z_axis_hard_iron_bias)?;
+        // Fill copies, so that the configuration is kept as a whole if one of the values is not valid.
+        let mut correction = self.scale_and_soft_iron_correction.duplicate()?;
+        let mut biases = self.hard_iron_biases.duplicate()?;
+
+        correction.set_element(0, 0, config.x_axis_scale_correction)?;
+        correction.set_element(1, 1, config.y_axis_scale_correction)?;
+        correction.set_element(2, 2, config.z_axis_scale_correction)?;
+
+        correction.set_element(0, 1, config.xy_soft_iron_correction)?;
+        correction.set_element(1, 0, config.xz_soft_iron_correction)?;
+        correction.set_element(0, 2, config.yx_soft_iron_correction)?;
+        correction.set_element(2, 0, config.yz_soft_iron_correction)?;
+        correction.set_element(1, 2, config.zx_soft_iron_correction)?;
+        correction.set_element(2, 1, config.zy_soft_iron_correction)?;
+
+        biases.set_element(0, config.x_axis_hard_iron_bias)?;
+        biases.set_element(1, config.y_axis_hard_iron_bias)?;
+        biases.set_element(2, config.z_axis_hard_iron_bias)?;
+
+        self.scale_and_soft_iron_correction.copy_from(&correction)?;
+        self.hard_iron_biases.copy_from(&biases)?;
 
         Ok(())
     }
-- 
2.43.0


From 1d56660246a9e11e1c08e7f04850534a74ee6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 28/43] fix: keep the measurements of a sensor when their
 correction fails

---
 open_ahrs/src/accelerometer.rs | 5 +++--
 open_ahrs/src/gyrometer.rs     | 5 +++--
 open_ahrs/src/magnetometer.rs  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index c3c3e92..956298b 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -189,8 +189,9 @@ impl Accelerometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+        let mut unbiased_measurements = self.raw_measurements.duplicate()?;   // The previous corrected measurements are kept if an error occurs.
+        unbiased_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index 3585a5a..dc2a025 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -189,8 +189,9 @@ impl Gyrometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+        let mut unbiased_measurements = self.raw_measurements.duplicate()?;   // The previous corrected measurements are kept if an error occurs.
+        unbiased_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index 7ab7245..bd872ec 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -196,8 +196,9 @@ impl Magnetometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.hard_iron_biases)?;                           // Remove static biases (hard-iron effects) from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                          // Convert this vector into a matrix to perform matrix operations.
+        let mut unbiased_measurements = self.raw_measurements.duplicate()?;   // The previous corrected measurements are kept if an error occurs.
+        unbiased_measurements.sub(&self.raw_measurements, &self.hard_iron_biases)?;                           // Remove static biases (hard-iron effects) from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                          // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_soft_iron_correction, &corrected_measurements.duplicate()?)?;    // Correct measurement distorsions (soft-iron effects, scale factors, axes misalignments and non-orthogonality).
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                       // Perform matrix-to-vector conversion to store the corrected measurements.
 
-- 
2.43.0


From 9e326661241d5b035423e331a97120de808aa4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:03 +0000
Subject: [PATCH 29/43] fix: store each soft iron term of the magnetometer in
 its own row and column

---
 open_ahrs/src/magnetometer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index bd872ec..14da70c 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -123,10 +123,10 @@ impl Magnetometer {
         correction.set_element(2, 2, config.z_axis_scale_correction)?;
 
         correction.set_element(0, 1, config.xy_soft_iron_correction)?;
-        correction.set_element(1, 0, config.xz_soft_iron_correction)?;
-        correction.set_element(0, 2, config.yx_soft_iron_correction)?;
-        correction.set_element(2, 0, config.yz_soft_iron_correction)?;
-        correction.set_element(1, 2, config.zx_soft_iron_correction)?;
+        correction.set_element(0, 2, config.xz_soft_iron_correction)?;
+        correction.set_element(1, 0, config.yx_soft_iron_correction)?;
+        correction.set_element(1, 2, config.yz_soft_iron_correction)?;
+        correction.set_element(2, 0, config.zx_soft_iron_correction)?;
         correction.set_element(2, 1, config.zy_soft_iron_correction)?;
 
         biases.set_element(0, config.x_axis_hard_iron_bias)?;
@@ -177,10 +177,10 @@ impl Magnetometer {
                 config.z_axis_scale_correction = self.scale_and_soft_iron_correction.get_element(2, 2)?;
 
                 config.xy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 1)?;
-                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
-                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
-                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
-                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
+                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
+                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
+                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
+                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
                 config.zy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 1)?;
 
                 config.x_axis_hard_iron_bias = self.hard_iron_biases.get_element(0)?;
-- 
2.43.0


From a0e33eb564bf3269c445f96f54ca59d5712f05d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:56 +0000
Subject: [PATCH 30/43] fix: normalize the acceleration in the correction step
 of the Aqua filter

---
 open_ahrs/src/aqua.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 2974d8c..5e1e778 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -372,7 +372,9 @@ impl Aqua {
             // Accelerometer-based correction step.
             let mut dcm_local_to_global = gyr_quat.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
-            temp.mul(&dcm_local_to_global, &a_local.convert_to_matrix()?)?;
+            let mut a_local_normalized = a_local.duplicate()?;
+            a_local_normalized.normalize()?;
+            temp.mul(&dcm_local_to_global, &a_local_normalized.convert_to_matrix()?)?;
             let a_global = temp.col_to_vector(0)?;
 
             // Retrieve vector components.
-- 
2.43.0


From 3f4b78ca3e5ba7a46cdaffc1a689eaca021956f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:57 +0000
Subject: [PATCH 31/43] fix: make the adaptive gain decrease linearly between
 its thresholds

It was negative above the first threshold, which made the update fail.
---
 open_ahrs/src/aqua.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 5e1e778..4cae23c 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -244,7 +244,7 @@ impl Aqua {
 
         // Check if magnitude error falls within the specified thresholds.
         if self.t1 < norm_error && norm_error < self.t2 {
-			new_gain = gain*(self.t1 - norm_error)/self.t1;
+			new_gain = gain*(self.t2 - norm_error)/(self.t2 - self.t1);
 		}
 
         // If the magnitude error is below or equal to the first threshold, the gain doesn't change.
-- 
2.43.0


From 7d3a2752494a65dec36ec840543bc45dd6150820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:59 +0000
Subject: [PATCH 32/43] fix: calculate the adaptive gain from the configured
 one at each update

The gain never recovered after a disturbance.
---
 open_ahrs/src/aqua.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 4cae23c..e1dd90e 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -401,11 +401,14 @@ impl Aqua {
 
             acc_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
+            // The adaptive gain is calculated from the initial one at each update.
+            let mut alpha = self.alpha;
+
             if self.adaptive {
-                self.alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
+                alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
             }
 
-            let acc_quat_interpolated = Self::interpolate(&acc_quat, self.alpha, self.t_acc)?;
+            let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
             self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
-- 
2.43.0


From a376d1ca8b9245a50b5f400e1ef28d662fe3e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:00 +0000
Subject: [PATCH 33/43] fix: follow the magnetic field when it points backwards
 in the Aqua filter

The correction was divided by zero for a heading error of half a turn.
---
 open_ahrs/src/aqua.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index e1dd90e..161e17c 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -426,24 +426,22 @@ impl Aqua {
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 10, eq. 28.
             let gamma = lx*lx + ly*ly;
 
-            /*
             if lx >= 0.0 {
                 qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
                 qx = 0.0;
                 qy = 0.0;
                 qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
             } else {
-                qw = ly / (sqrtf(2.0) * sqrtf(gamma - lx * sqrtf(gamma)));
+                // The real part is kept positive (the interpolation must follow the shortest path).
+                qw = fabsf(ly) / (sqrtf(2.0) * sqrtf(gamma - lx * sqrtf(gamma)));
                 qx = 0.0;
                 qy = 0.0;
                 qz = sqrtf(gamma - lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
-            }
-            */
 
-            qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
-            qx = 0.0;
-            qy = 0.0;
-            qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
+                if ly < 0.0 {
+                    qz = -qz;
+                }
+            }
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-- 
2.43.0


From dd6754630b3a54f7157f51a9b6bfc09e53a39591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:01 +0000
Subject: [PATCH 34/43] fix: keep the attitude of the Aqua filter when an
 update fails

---
 open_ahrs/src/aqua.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 161e17c..553ec1a 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -337,6 +337,8 @@ impl Aqua {
         let mut mag_quat: Vector<f32> = Vector::new();  // Quaternion defining the orientation of the system and determined by magnetometer and gyrometer measurements.
         mag_quat.init(4)?;                              // Initialize it.
 
+        let mut attitude = self.attitude.duplicate()?;  // New attitude (the previous one is kept if an error occurs).
+
         let mut temp = Matrix::new();
         temp.init(3, 1)?;
 
@@ -411,10 +413,10 @@ impl Aqua {
             let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
-            self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
+            attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
 
             // Magnetometer-based correction step.
-            let mut dcm_local_to_global = self.attitude.convert_to_dcm()?;
+            let mut dcm_local_to_global = attitude.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
             temp.mul(&dcm_local_to_global, &m_local.convert_to_matrix()?)?;
             // Global frame magnetic vector (Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 18, eq. 54).
@@ -455,7 +457,7 @@ impl Aqua {
 
             let mag_quat_interpolated = Self::interpolate(&mag_quat, self.beta, self.t_mag)?;
 
-            self.attitude.mul(&self.attitude.duplicate()?, &mag_quat_interpolated)?;
+            attitude.mul(&attitude.duplicate()?, &mag_quat_interpolated)?;
         } else if self.mode == Mode::AM {
             // Determine the partial orientation as a quaternion from the accelerometer measurements.
             if az < 0.0 {
@@ -499,10 +501,11 @@ impl Aqua {
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-            self.attitude.mul(&acc_quat, &mag_quat)?;
+            attitude.mul(&acc_quat, &mag_quat)?;
         }
 
-        self.attitude.normalize()?;
+        attitude.normalize()?;
+        self.attitude.copy_from(&attitude)?;
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From 44611644f5ebae4f5089666bd9a8187feaffe2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:03 +0000
Subject: [PATCH 35/43] fix: allow a filter to be initialized after a rejected
 initialization

---
 open_ahrs/src/aqua.rs      | 26 ++++++++++++++++++--------
 open_ahrs/src/ar.rs        |  7 +++++--
 open_ahrs/src/davenport.rs |  6 +++---
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 553ec1a..7f5f39a 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -107,8 +107,14 @@ impl Aqua {
             return Err(OpenAHRSError::AquaFilterAlreadyInit); // Return an error.
         }
 
-        self.attitude.init(4)?;         // Initialize the attitude quaternion.
-        self.attitude.fill_identity()?; // Fill it as identity quaternion.
+        let mut attitude: Vector<f32> = Vector::new();  // Create the attitude quaternion (the filter is not modified if one of the parameters is not valid).
+        attitude.init(4)?;          // Initialize it.
+        attitude.fill_identity()?;  // Fill it as identity quaternion.
+
+        // Create the sensors.
+        let mut gyr = Gyrometer::new()?;
+        let mut acc = Accelerometer::new()?;
+        let mut mag = Magnetometer::new()?;
 
         // Check the mode.
         if mode == Mode::MARG {
@@ -118,12 +124,12 @@ impl Aqua {
                 None => return Err(OpenAHRSError::NoGyroconfig),    // No gyrometer configuration and it's required. Return an error.
             };
 
-            self.gyr.init(&config)?;                 // Initialize the gyrometer.
-            self.acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
-            self.mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
+            gyr.init(&config)?;                 // Initialize the gyrometer.
+            acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
+            mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
         } else if mode == Mode::AM {
-            self.acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
-            self.mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
+            acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
+            mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
         } else {
             // Invalid mode.
             return Err(OpenAHRSError::InvalidAquaMode); // Return an error.
@@ -138,12 +144,16 @@ impl Aqua {
 
         // Set initial attitude manually.
         if let Some((qw, qx, qy, qz)) = quat {
-            self.attitude.fillq(qw, qx, qy, qz)?;
+            attitude.fillq(qw, qx, qy, qz)?;
         } else {    // Automatically initialize attitude.
             // Add some code here.
             // In MARG mode, the initial quaternion is determined from the accelerometer and magnetometer in the same way as in AM mode.
         }
 
+        self.gyr = gyr;                 // Set the sensors.
+        self.acc = acc;
+        self.mag = mag;
+        self.attitude = attitude;       // Set the attitude.
         self.mode = mode;               // Set the mode.
 
         self.ts = ts;                   // Set sampling rate.
diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index c03e7d6..e5ce570 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -58,9 +58,12 @@ impl AR {
                 return Err(OpenAHRSError::ARFilterAlreadyInit); // Return an error.
             }
 
+            let mut attitude: Vector<f32> = Vector::new();  // The filter is not modified if one of the parameters is not valid.
+            attitude.init(4)?;                      // Initialize the vector that will be used as quaternion.
+            attitude.fillq(qw, qx, qy, qz)?;        // Set initial attitude.
+
             self.gyr.init(&gyrometer_config)?;      // Initialize the gyrometer.
-            self.attitude.init(4)?;                 // Initialize the vector that will be used as quaternion.
-            self.attitude.fillq(qw, qx, qy, qz)?;   // Set initial attitude.
+            self.attitude = attitude;               // Set the attitude.
             self.ts = ts;                           // Set sampling rate.
             self.method = method;                   // Set the numerical integration method that will be used to estimate the attitude.
             self.order = order;                     // Set the order of the method.
diff --git a/open_ahrs/src/davenport.rs b/open_ahrs/src/davenport.rs
index a180bd1..5348fe0 100644
--- a/open_ahrs/src/davenport.rs
+++ b/open_ahrs/src/davenport.rs
@@ -70,15 +70,15 @@ impl Davenport {
             return Err(OpenAHRSError::DavenportFilterAlreadyInit);  // Return an error.
         }
 
-        self.attitude.init(4)?;         // Initialize the attitude quaternion.
-        self.attitude.fill_identity()?; // Fill it as identity quaternion.
-
         // Check that the sensors observations weights are valid (they must be between 0 (not inclusive) and 1 inclusive).
         if !in_range(w1, EPSILON, 1.0_f32) || !in_range(w2, EPSILON, 1.0_f32){
             // The sensor(s) observation(s) weight(s) is/are not valid.
             return Err(OpenAHRSError::InvalidDavenportWeights); // Return an error.
         }
 
+        self.attitude.init(4)?;         // Initialize the attitude quaternion.
+        self.attitude.fill_identity()?; // Fill it as identity quaternion.
+
         self.w1 = w1;   // Set accelerometer observations weight.
         self.w2 = w2;   // Set magnetometer observations weight.
 
-- 
2.43.0


From 246e9d07350eac088130736b260db3520eb92712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:04 +0000
Subject: [PATCH 36/43] fix: create complex numbers with the given parts

---
 dsp/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/src/complex.rs b/dsp/src/complex.rs
index 866bac9..4677d37 100644
--- a/dsp/src/complex.rs
+++ b/dsp/src/complex.rs
@@ -34,8 +34,8 @@ impl Complex {
         is_valid_value(im)?;    // Check that the imaginary part value is valid.
 
         let z = Self {
-            re: 0.0,    // Default real part value of the complex number.
-            im: 0.0,    // Default imaginary part valueof the complex number.
+            re: re,     // Real part value of the complex number.
+            im: im,     // Imaginary part value of the complex number.
         };
 
         Ok(z)   // Return no error.
-- 
2.43.0


From ed5404b2734f57cb3688c00db6fd14c11192c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:05 +0000
Subject: [PATCH 37/43] fix: draw random attitudes

The integer division always gave 0.
---
 open_ahrs/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/open_ahrs/src/common.rs b/open_ahrs/src/common.rs
index ae76e4f..df2f748 100644
--- a/open_ahrs/src/common.rs
+++ b/open_ahrs/src/common.rs
@@ -95,9 +95,9 @@ pub fn generate_random_attitudes(number: u8) -> Result<Matrix, LinalgError> {
 
     for n in 0..number {
         // Warning  here.
-        let u1: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
-        let u2: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
-        let u3: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
+        let u1: f32 = small_rng.next_u64() as f32 / u64::MAX as f32; // Generates a random number between 0 and 1.
+        let u2: f32 = small_rng.next_u64() as f32 / u64::MAX as f32; // Generates a random number between 0 and 1.
+        let u3: f32 = small_rng.next_u64() as f32 / u64::MAX as f32; // Generates a random number between 0 and 1.
 
         let s1 = sqrtf(1.0_f32 - u1);
         let s2 = sqrtf(u1);
-- 
2.43.0


From 3cf19605ae413bc20d68a515fb6e053e56651989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:02 +0000
Subject: [PATCH 38/43] fix: accept a vertical magnetic field in MARG mode

---
 open_ahrs/src/aqua.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 7f5f39a..02e288d 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -438,7 +438,12 @@ impl Aqua {
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 10, eq. 28.
             let gamma = lx*lx + ly*ly;
 
-            if lx >= 0.0 {
+            if gamma == 0.0 {   // The magnetic field has no horizontal component: the heading cannot be corrected.
+                qw = 1.0;
+                qx = 0.0;
+                qy = 0.0;
+                qz = 0.0;
+            } else if lx >= 0.0 {
                 qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
                 qx = 0.0;
                 qy = 0.0;
-- 
2.43.0


From 5593b28f387402e7291644eb0467cf1de1d5c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:04 +0000
Subject: [PATCH 39/43] fix: do not correct the tilt with a null acceleration

---
 open_ahrs/src/aqua.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 02e288d..ee289db 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -397,7 +397,12 @@ impl Aqua {
 
             // Determine the quaternion (partial orientation) from the accelerometer measurements.
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 16, eq. 47.
-            if gz < 0.0 {
+            if a_local_norm <= EPSILON {    // The acceleration has no direction (free fall): the tilt cannot be corrected.
+                qw = 1.0;
+                qx = 0.0;
+                qy = 0.0;
+                qz = 0.0;
+            } else if gz < 0.0 {
                 let l1 = sqrtf((1.0 - gz) / 2.0);
                 qw = l1;
                 qx = gy / (2.0 * l1);
-- 
2.43.0


From 1dd1940195d7cc6da029317c37b3242e2da961ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:05 +0000
Subject: [PATCH 40/43] fix: calculate the adjugate of any square matrix

---
 linalg/src/matrix.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 0b66742..3697801 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1900,17 +1900,40 @@ impl Matrix {
 
     /// This method is used to ...
     pub fn adjugate_in_place(self: &mut Self) -> Result<(), LinalgError> {
-        // Check if the matrix belongs to SO(n).
-        if !self.is_so_n()? {
-            // The matrix does not belong to SO(n).
-            //return Err(LinalgError::); // Return an error.
+        // Check that the matrix is square.
+        if !self.is_square()? {
+            // The matrix is not square.
+            return Err(LinalgError::NotSquare); // Return an error.
         }
 
-        let determinant = self.det()?;  // Calculate the determinant of the matrix.
+        let n = self.rows;
 
-        self.transpose()?;              // Tranpose the matrix.
+        let mut adjugate = Self::new();
+        adjugate.init(n, n)?;
+
+        for row in 0..n {
+            for col in 0..n {
+                let mut cofactor: f32 = if (row + col) % 2 == 0 { 1.0 } else { -1.0 };
+
+                // The minor is the determinant of the matrix without the current row and column (1 for a matrix of size 1 x 1).
+                if n > 1 {
+                    let mut minor = Self::new();
+                    minor.init(n - 1, n - 1)?;
+
+                    for i in 0..(n - 1) {
+                        for j in 0..(n - 1) {
+                            minor.set_element(i, j, self.get_element(if i < row { i } else { i + 1 }, if j < col { j } else { j + 1 })?)?;
+                        }
+                    }
+
+                    cofactor *= minor.det_naive()?;
+                }
+
+                adjugate.set_element(col, row, cofactor)?;  // The adjugate is the transpose of the cofactor matrix.
+            }
+        }
 
-        self.mul_by_scalar_in_place(determinant)?;
+        self.copy_from(&adjugate)?;
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From 3b774157c6f9cdb1eb739394d9194a83ba9d566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:06 +0000
Subject: [PATCH 41/43] fix: refuse to solve a system whose right-hand side has
 another size than the matrix

---
 linalg/src/linalg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 184a2bb..7fe2b39 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -59,6 +59,12 @@ pub fn solve(mat: &Matrix, b: &Vector<f32>, p: &Vector<u8>) -> Result<Vector<f32
         return Err(LinalgError::NotSquare); // Return an error.
     }
 
+    // Check that the right-hand side and the pivot vector have the size of the matrix.
+    if b.get_rows()? != mat.get_rows()? || p.get_rows()? != mat.get_rows()? {
+        // The sizes do not match.
+        return Err(LinalgError::InvalidSize);   // Return an error.
+    }
+
     let mut x: Vector<f32> = Vector::new();
     x.init(mat.get_rows()?)?;
 
-- 
2.43.0


From d1b59618c022ff014c0d13a0df1d41886bd64c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:45 +0000
Subject: [PATCH 42/43] fix: refuse complex sums, products and quotients that
 are not finite

---
 dsp/src/complex.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dsp/src/complex.rs b/dsp/src/complex.rs
index 4677d37..81c429f 100644
--- a/dsp/src/complex.rs
+++ b/dsp/src/complex.rs
@@ -126,24 +126,21 @@ impl Complex {
 
     /// This method is used to perform the addition of two complex number and store the result into another one.
     pub fn add(self: &mut Self, z1: &Self, z2: &Self) -> Result<(), UtilsError> {
-        self.re = z1.re + z2.re;    // Set the real part of the complex number.
-        self.im = z1.im + z2.im;    // Set the imaginary part of the complex number.
+        *self = Self::new(z1.re + z2.re, z1.im + z2.im)?;   // Set the real and imaginary parts of the complex number if they are valid.
 
         Ok(())  // Return no error.
     }
 
     /// This method is used to perform the subtraction of two complex number and store the result into another one.
     pub fn sub(self: &mut Self, z1: &Self, z2: &Self) -> Result<(), UtilsError> {
-        self.re = z1.re - z2.re;
-        self.im = z1.im - z2.im;
+        *self = Self::new(z1.re - z2.re, z1.im - z2.im)?;
 
         Ok(())  // Return no error.
     }
 
     /// This method is used to perform the multiplication of two complex number and store the result into another one.
     pub fn mul(self: &mut Self, z1: &Self, z2: &Self) -> Result<(), UtilsError> {
-        self.re = z1.re * z2.re - z1.im * z2.im;
-        self.im = z1.re * z2.im + z1.im * z2.re;
+        *self = Self::new(z1.re * z2.re - z1.im * z2.im, z1.re * z2.im + z1.im * z2.re)?;
 
         Ok(())  // Return no error.
     }
@@ -157,8 +154,7 @@ impl Complex {
 
         let denominator = z2.re * z2.re + z2.im * z2.im;    // Calculate the denominator.
 
-        self.re = (z1.re * z2.re + z1.im * z2.im) / denominator;
-        self.im = (z1.im * z2.re - z1.re * z2.im) / denominator;
+        *self = Self::new((z1.re * z2.re + z1.im * z2.im) / denominator, (z1.im * z2.re - z1.re * z2.im) / denominator)?;
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From 3eb9ce94a8fcb47000aa3914957ee4242c68d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:34:35 +0000
Subject: [PATCH 43/43] fix: keep the columns of Q orthogonal for large nearly
 dependent columns

---
 linalg/src/matrix.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 3697801..c7ba1a9 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1239,6 +1239,14 @@ impl Matrix {
 
         // Apply the Gram-Schmidt method to orthogonalise the columns and obtain the Q matrix.
         for col in 0..self.cols {
+            let mut initial_norm: f32 = 0.0;
+
+            for row in 0..self.rows {
+                initial_norm += q.get_element(row, col)? * q.get_element(row, col)?;
+            }
+
+            initial_norm = sqrtf(initial_norm);
+
             // A second pass removes the rounding errors left by the first one when the columns are nearly dependent.
             for _pass in 0..2 {
                 for row in 0..col {
@@ -1264,7 +1272,8 @@ impl Matrix {
 
             norm = sqrtf(norm);
 
-            if norm > EPSILON {
+            // A remainder within the rounding errors of the column has no direction of its own.
+            if norm > EPSILON && norm > 1e-6 * initial_norm {
                 for k in 0..self.rows {
                     let element = q.get_element(k, col)? / norm;
                     q.set_element(k, col, element)?;
-- 
2.43.0

