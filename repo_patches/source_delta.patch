From 331f071ae6c17ead562a9b8b7a977e5869beccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 01/31] fix: compute the linear part of a symmetry so that it
 maps edge vectors

Edge vectors are the rows of the two matrices, so the column-vector map
taking the first list to the second is the transpose of inv_b * b. The
previous product was a different matrix, which is not integral for most
bases, so that symmetries of nets in skewed presentations got lost.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 9dfd9e1..0491feb 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -147,7 +147,7 @@ pub fn symmetries<T, CS>(graph: &Graph<T, CS>) -> Vec<Automorphism<T, CS>>
 
     for i in 0..edge_lists.len() {
         if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
-            let m = &bases[i] * &inv_b;
+            let m = (&inv_b * &bases[i]).transpose();
 
             if is_unimodular(&m) {
                 let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
-- 
2.43.0


From 61dbe31a573a63ea614b63dece039f910d8955e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 02/31] fix: convert shifts to the extended translation basis
 in minimal_image

The basis vectors are rows, so coordinates of a column vector are obtained
with the transposed inverse. Without it, shifts came out wrong or fractional
(causing a panic) unless the basis matrix was symmetric.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 0491feb..dfcba8a 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -77,7 +77,7 @@ pub fn minimal_image<TIn, TOut, CSIn, CSOut>(graph: &Graph<TIn, CSIn>)
     } else {
         let b = extended_translation_basis(graph, &orbits[0]);
         let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
-        let m = Matrix::vstack(&rows).inverse().unwrap();
+        let m = Matrix::vstack(&rows).inverse().unwrap().transpose();
         let aff = &AffineMap::new(&m, &Vector::zero(TIn::dim()));
 
         let mut imgs = HashMap::new();
-- 
2.43.0


From 169a10e5521bef0c090b4f19534c7505fd89d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 03/31] fix: accept groups without centering translations in
 PrimitiveSetting

The lattice basis was computed from an empty list of vectors, which panics.
---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 5f6999e..6050349 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -63,7 +63,7 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
         let id = Matrix::identity(dim);
         let s0 = Vector::zero(dim);
 
-        let mut translations = vec![];
+        let mut translations = Matrix::identity(dim).get_rows();
         for op in ops_all {
             if op.linear_matrix() == id && op.shift() != s0 {
                 translations.push(op.shift().into_iter().collect());
-- 
2.43.0


From 74a8f98f253fe230e360e2f98093ad493361be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 04/31] fix: keep the orientation when choosing a primitive
 cell

Depending on the order in which translations were found, the basis of the
primitive lattice could be left-handed, which turns the group into its mirror
image.
---
 src/spacegroups/basics.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 6050349..e65bd63 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -69,8 +69,14 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
                 translations.push(op.shift().into_iter().collect());
             }
         }
-        let cell: Vec<_> = rational_lattice_basis(&translations)
-            .into_iter().map(|v| Vector::new(&v)).collect();
+        let mut cell: Vec<Vector<BigRational, CS>> =
+            rational_lattice_basis(&translations)
+                .into_iter().map(|v| Vector::new(&v)).collect();
+        if cell.iter().enumerate().fold(
+            BigRational::one(), |det, (i, v)| det * &v[i]
+        ) < BigRational::zero() {
+            cell[dim - 1] = -&cell[dim - 1];
+        }
         let to_primitive = CoordinateMap::to_basis(&cell);
 
         let mut seen = HashSet::new();
-- 
2.43.0


From b99a2256968e277fa0fb54cc73474ce8fa3a738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 05/31] fix: reduce negative shifts into [0,1) in mod_z

The remainder keeps the sign of the dividend, so that -1/2 and 1/2 stayed
different and generated groups contained the same operation twice.
---
 src/arithmetic/geometry.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/geometry.rs b/src/arithmetic/geometry.rs
index a5fd2fa..1e7a6e9 100644
--- a/src/arithmetic/geometry.rs
+++ b/src/arithmetic/geometry.rs
@@ -116,10 +116,12 @@ impl<T, CS> Neg for Vector<T, CS>
 
 
 impl<T, CS> ModZ for Vector<T, CS>
-    where T: Clone + One + Rem<Output=T>
+    where T: Clone + Zero + One + Rem<Output=T>
 {
     fn mod_z(&self) -> Self {
-        self.iter().cloned().map(|x| x % T::one()).collect()
+        self.iter().cloned()
+            .map(|x| (x % T::one() + T::one()) % T::one())
+            .collect()
     }
 }
 
@@ -637,7 +639,7 @@ impl<T: Clone + Zero, CS: Clone> From<Matrix<T>> for AffineMap<T, CS> {
 }
 
 impl<T, CS> ModZ for AffineMap<T, CS>
-    where T: Clone + One + Rem<Output=T>, CS: Clone
+    where T: Clone + Zero + One + Rem<Output=T>, CS: Clone
 {
     fn mod_z(&self) -> Self {
         AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())
-- 
2.43.0


From 986feefc0b78ad0790f8a06c8596ab628444160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 06/31] fix: keep residues in range and skip columns without
 pivot in modular echelon form

Negative multiples of the prime were mapped to the prime itself, which has
no inverse, and the current row advanced even if a column had no pivot, so
that later pivots were neither normalized nor used for elimination.
---
 src/arithmetic/modular_solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 347f16a..9d5166d 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -32,7 +32,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
     for row in matrix {
         assert!(a.len() == 0 || row.len() == a[0].len());
         let row = row.iter()
-            .map(|&n| n % prime + if n < 0 { prime } else { 0 })
+            .map(|&n| n.rem_euclid(prime))
             .collect();
         a.push(row);
     }
@@ -63,9 +63,9 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     }
                 }
             }
-        }
 
-        irow += 1;
+            irow += 1;
+        }
     }
 
     a
-- 
2.43.0


From 3f228772d5df73696d0bdb503588243756523720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 07/31] fix: compute modular inverses of negative arguments

For a negative argument, the Euclidean algorithm could end with -1 instead
of 1, and the inverse was reported missing.
---
 src/arithmetic/modular_solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 9d5166d..fe8a887 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -4,7 +4,7 @@ use num_rational::BigRational;
 
 pub fn modular_inverse(argument: i64, modulus: i64) -> Option<i64> {
     let (mut t, mut t1) = (0, 1);
-    let (mut r, mut r1) = (modulus, argument);
+    let (mut r, mut r1) = (modulus, argument.rem_euclid(modulus));
 
     while r1 != 0 {
         let q = r / r1;
-- 
2.43.0


From 1da88cacff45196248a433dee31ae17dd2e35e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 08/31] fix: reduce exact negative multiples of a pivot to zero

The quotient was rounded down once more even if the division was exact, so
that an entry could become equal to the pivot and the reduced basis of an
integer lattice was not unique.
---
 src/arithmetic/linear_algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 99c3f1d..58a9c22 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -167,7 +167,7 @@ fn reduce_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &Vec<T>)
     where T: num_traits::PrimInt + SubAssign
 {
     let f = v[col] / b[col] - (
-        if v[col] < T::zero() { T::one() } else { T::zero() }
+        if v[col] % b[col] < T::zero() { T::one() } else { T::zero() }
     );
 
     if f != T::zero() {
-- 
2.43.0


From 36aea76c3a1fc824073040ba30181be576f6fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 09/31] fix: allow all shifts for groups of pure translations
 in shift_space

Without any equation, the space of shifts is everything, not nothing.
---
 src/spacegroups/basics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index e65bd63..f5fa6e4 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -158,8 +158,12 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
         }
     }
 
-    let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
-    Matrix::vstack(&eqns).null_space()
+    if eqns.is_empty() {
+        Some(id)
+    } else {
+        let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
+        Matrix::vstack(&eqns).null_space()
+    }
 }
 
 
-- 
2.43.0


From 68914da5de07752a82715b6178db99047bd5d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 10/31] fix: require metrics to be invariant under the
 operators themselves

Invariance of a Gram matrix G under x -> S x means S^T G S = G. The
equations used S G S^T, which is invariance under the transposed operators.
---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index f5fa6e4..2348a88 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -126,7 +126,7 @@ pub fn gram_matrix_configuration_space<CS: Clone>(
                 let mut eqn = vec![BigRational::zero(); m];
                 for ja in 0..dim {
                     for jb in 0..dim {
-                        eqn[k[(ja, jb)]] += &s[(ia, ja)] * &s[(ib, jb)];
+                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];
                     }
                 }
                 eqn[k[(ia, ib)]] -= BigRational::one();
-- 
2.43.0


From f2639d46183d215f7d7404591d7f234903a82c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 11/31] fix: solve regular systems whose determinant is a
 multiple of the prime

Such systems were reported unsolvable, making the barycentric placement fail
for nets whose number of spanning trees is divisible by 9999991.
---
 src/arithmetic/modular_solver.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index fe8a887..266b2c5 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -1,6 +1,9 @@
 use num_bigint::BigInt;
 use num_rational::BigRational;
 
+use super::linear_algebra::LinearAlgebra;
+use super::matrices;
+
 
 pub fn modular_inverse(argument: i64, modulus: i64) -> Option<i64> {
     let (mut t, mut t1) = (0, 1);
@@ -236,6 +239,20 @@ pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
             row.iter().map(|x| { rational_reconstruction(x, &p) }).collect()
         }).collect())
     } else {
-        None
+        // singular, or at least singular modulo the chosen prime
+        let a = rational_matrix(a)?;
+        let b = rational_matrix(b)?;
+        Some((a.inverse()? * b).get_rows())
     }
 }
+
+
+fn rational_matrix(m: &Matrix) -> Option<matrices::Matrix<BigRational>> {
+    let ncols = m.first()?.len();
+
+    Some(m.iter().flatten()
+        .map(|&x| BigRational::from(BigInt::from(x)))
+        .collect::<matrices::Matrix<_>>()
+        .reshape(ncols)
+    )
+}
-- 
2.43.0


From dce140cb189b88809844452e9a8f0d94584b85b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 12/31] fix: measure graph components with integers of
 arbitrary size

The intermediate bases grow quickly, so that even for single-digit labels the
32 bit integers overflowed (giving wrong ranks and multiplicities, or a panic
in debug builds).
---
 src/arithmetic/linear_algebra.rs | 44 +++++++++++++++++++++++++++++++-
 src/pgraphs.rs                   | 12 ++++++---
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 58a9c22..71e9294 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -1,8 +1,10 @@
 use std::ops::{Add, Sub, Mul, Div, Neg, SubAssign};
 use std::ops::{AddAssign, MulAssign};
 
+use num_bigint::BigInt;
+use num_integer::Integer;
 use num_rational::{BigRational};
-use num_traits::{Zero, One};
+use num_traits::{Zero, One, Signed};
 
 use super::matrices::Matrix;
 
@@ -140,6 +142,46 @@ impl Scalar for i64 {
     }
 }
 
+impl Scalar for BigInt {
+    fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
+        let e = b[col].extended_gcd(&v[col]);
+        let (t, u) = (&v[col] / &e.gcd, &b[col] / &e.gcd);
+
+        for k in col..v.len() {
+            let tmp = &b[k] * &e.x + &v[k] * &e.y;
+            v[k] = &v[k] * &u - &b[k] * &t;
+            b[k] = tmp;
+        }
+    }
+
+    fn normalize_column(col: usize, v: &mut Vec<Self>) {
+        if v[col].is_negative() {
+            for k in col..v.len() {
+                v[k] = -&v[k];
+            }
+        }
+    }
+
+    fn reduce_column(col: usize, v: &mut Vec<Self>, b: &Vec<Self>) {
+        let f = v[col].div_floor(&b[col]);
+        for k in col..v.len() {
+            v[k] -= &b[k] * &f;
+        }
+    }
+
+    fn solve_row(a: &Vec<Self>, x: &Vec<Vec<Self>>, b: &Vec<Self>)
+        -> Option<Vec<Self>>
+    {
+        let k = x.len();
+
+        (0..b.len()).map(|col| {
+            let t = (0..k).fold(b[col].clone(), |t, i| t - &a[i] * &x[i][col]);
+            let (q, r) = t.div_rem(&a[k]);
+            if r.is_zero() { Some(q) } else { None }
+        }).collect()
+    }
+}
+
 
 fn clear_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &mut Vec<T>)
     where T: num_traits::PrimInt
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 851e06e..e10e3f2 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -8,6 +8,7 @@ use std::ops::{Neg, Add, Sub, Mul};
 use itertools::Itertools;
 use num_bigint::BigInt;
 use num_rational::BigRational;
+use num_traits::{One, Signed, ToPrimitive};
 
 use crate::arithmetic::geometry;
 use crate::arithmetic::linear_algebra::extend_basis;
@@ -716,18 +717,21 @@ pub fn graph_component_measures<T, CS>(g: &Graph<T, CS>, v0: &Vertex)
 
     let mut basis = vec![];
     for e in &edges {
-        extend_basis(&e.shift.to_vec(), &mut basis);
+        let shift: Vec<_> = e.shift.to_vec().into_iter()
+            .map(BigInt::from)
+            .collect();
+        extend_basis(&shift, &mut basis);
     }
 
     let size = vertices.len();
     let rank = basis.len();
 
     let multiplicity = if rank == T::dim() {
-        let mut d: i32 = 1;
+        let mut d = BigInt::one();
         for i in 0..basis.len() {
-            d *= basis[i][i];
+            d *= &basis[i][i];
         }
-        Some(d.abs())
+        Some(d.abs().to_i32().expect("multiplicity should fit into 32 bits"))
     } else {
         None
     };
-- 
2.43.0


From e6e809cc2c5a831bc6b76ec4133845a42fa6a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 13/31] fix: compute rational lattice bases with integers of
 arbitrary size

Common denominators or intermediate values beyond 32 bits caused a panic, or
wrong results in release builds.
---
 src/spacegroups/lattices.rs | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 41975d7..75341f0 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -2,7 +2,7 @@ use std::cmp::Ordering;
 
 use num_bigint::BigInt;
 use num_rational::BigRational;
-use num_traits::{One, ToPrimitive, abs};
+use num_traits::{One, Zero, abs};
 use num_integer::Integer;
 
 use crate::arithmetic::linear_algebra::extend_basis;
@@ -226,40 +226,30 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
         }
     }
 
-    let common_denom = common_denom.to_i32().unwrap();
-    let f = BigRational::from(BigInt::from(common_denom));
-
     let mut basis = vec![];
 
     for k in 0..dim {
-        let mut b = vec![0; dim];
-        b[k] = common_denom;
+        let mut b = vec![BigInt::zero(); dim];
+        b[k] = common_denom.clone();
         extend_basis(&b, &mut basis);
     }
 
     for d in vectors {
-        let d: Vec<_> = d.iter().map(|x| r_to_i32(&(x * &f)).unwrap()).collect();
+        let d: Vec<_> = d.iter()
+            .map(|x| x.numer() * (&common_denom / x.denom()))
+            .collect();
         extend_basis(&d, &mut basis);
     }
 
-    basis.iter()
-        .map(|b| b.iter()
-            .map(|x| BigRational::from(BigInt::from(*x)) / &f)
+    basis.into_iter()
+        .map(|b| b.into_iter()
+            .map(|x| BigRational::new(x, common_denom.clone()))
             .collect::<Vec<_>>()
         )
         .collect()
 }
 
 
-fn r_to_i32(x: &BigRational) -> Option<i32> {
-    if x.is_integer() {
-        x.to_integer().to_i32()
-    } else {
-        None
-    }
-}
-
-
 #[cfg(test)]
 mod tests {
     use num_traits::Signed;
-- 
2.43.0


From 6165c8414a8c4dd6541827806637cf26887c9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 14/31] fix: do not panic on fractions with denominator zero

Both operator strings and CGD lines come from files written by users.
---
 src/io/parse_cgd_line.rs          | 2 +-
 src/spacegroups/parse_operator.rs | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 5d0db33..c9491b9 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -78,7 +78,7 @@ fn field(input: &str) -> IResult<&str, Field> {
 fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
     map_opt(
         separated_pair(integer, char('/'), unsigned_integer),
-        |(n, d)| Some(Ratio::new(n, d as i32))
+        |(n, d)| if d == 0 { None } else { Some(Ratio::new(n, d as i32)) }
     )(input)
 }
 
diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index cde208a..b6d9d09 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -81,7 +81,11 @@ fn unsigned_fraction(input: &str) -> IResult<&str, Fraction> {
             separated_pair(
                 integer, tuple((space0, char('/'), space0)), integer
             ),
-            |(n, d)| Some(Ratio::new(n as i32, d as i32))
+            |(n, d)| if d == 0 {
+                None
+            } else {
+                Some(Ratio::new(n as i32, d as i32))
+            }
         ),
         map_opt(integer, |n| Some(Ratio::from_integer(n as i32))),
     ))(input)
-- 
2.43.0


From b553d99d8e0e2aec18f3650c1852b4f4bc51f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 15/31] fix: reject operator strings that cannot be represented
 completely

More than three coordinates caused a panic, axes beyond the dimension and any
text after the operator were silently dropped, so that a different operator
was used.
---
 src/spacegroups/parse_operator.rs | 15 ++++++++++++---
 src/spacegroups/parse_table.rs    |  4 ++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index b6d9d09..17df640 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -27,7 +27,10 @@ type Operator = (Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>);
 pub fn parse_operator(input: &str) -> Result<(&str, Operator), String>
 {
     match delimited(space0, operator, space0)(input).finish() {
-        Ok((rest, op)) => Ok((rest, convert_operator(&op))),
+        Ok((rest, op)) => match convert_operator(&op) {
+            Some(op) => Ok((rest, op)),
+            None => Err(format!("inconsistent dimensions in '{}'", input)),
+        },
         Err(err) => Err(err.to_string()),
     }
 }
@@ -107,7 +110,7 @@ fn integer(input: &str) -> IResult<&str, u32> {
 }
 
 
-fn convert_operator(op: &[Coordinate]) -> Operator {
+fn convert_operator(op: &[Coordinate]) -> Option<Operator> {
     let mut rows = vec![];
     let mut shift = vec![];
 
@@ -117,11 +120,17 @@ fn convert_operator(op: &[Coordinate]) -> Operator {
     }
 
     let n = shift.len();
+    if rows.iter().any(|v|
+        v.len() < n || v[n..].iter().any(|x| x != &Ratio::from_integer(0))
+    ) {
+        return None;
+    }
+
     let rows = rows.iter()
         .map(|v| v.iter().take(n).copied().collect())
         .collect();
 
-    (rows, shift)
+    Some((rows, shift))
 }
 
 
diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index e6ba02f..a9b6491 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -184,9 +184,9 @@ impl Centering {
 
 impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
-        let (_, (linear, shift)) = parse_operator(s).ok()?;
+        let (rest, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.len() != shift.len() {
+        if !rest.is_empty() || linear.len() != shift.len() {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From 5ea6035e763e24da904a3be0775da1e47f49ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 16/31] fix: report incomplete or singular space group table
 lines instead of panicking

---
 src/spacegroups/parse_table.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index a9b6491..517d026 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -207,7 +207,9 @@ fn promote_vec<T: Coord>(v: &Vec<Ratio<i32>>) -> Vec<T> {
 
 impl<CSIn: Clone, CSOut: Clone>  CoordinateMap<BigRational, CSIn, CSOut> {
     pub fn from_string(s: &str) -> Option<Self> {
-        Some(CoordinateMap::new(&AffineMap::from_string(s)?))
+        let forward = AffineMap::from_string(s)?;
+        forward.inverse()?;
+        Some(CoordinateMap::new(&forward))
     }
 }
 
@@ -232,7 +234,9 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             let fields: Vec<_> = content.split_whitespace().collect();
 
             if fields[0].to_lowercase() == "alias" {
-                alias.insert(fields[1].into(), fields[2].into());
+                alias.insert(
+                    fields.get(1)?.to_string(), fields.get(2)?.to_string()
+                );
             } else if fields[0].to_lowercase() == "lookup" {
                 lookup.push(make_lookup_entry(&fields)?);
             } else {
@@ -260,6 +264,10 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
 
 
 fn make_lookup_entry(fields: &Vec<&str>) -> Option<Lookup> {
+    if fields.len() < 5 {
+        return None;
+    }
+
     let name = fields[1].to_string();
     let spec = fields[4..].join(" ");
     let from_std = CoordinateMap::from_string(&spec)?;
-- 
2.43.0


From fc60d8d4ed9b46f3db8ec6e5af4a3759f3317008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 17/31] fix: do not split CGD names at non-ASCII characters

Only the low byte of a character was compared with space and tab, so that
names were cut at characters like U+0420 or U+0109.
---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index c9491b9..ca0c35d 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -3,7 +3,7 @@ use std::iter;
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
-use nom::character::{is_space, is_alphabetic};
+use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
@@ -97,7 +97,7 @@ fn quoted_string(input: &str) -> IResult<&str, &str> {
 
 
 fn name(input: &str) -> IResult<&str, &str> {
-    take_till1(|c| c == '"' || c == '#' || is_space(c as u8))(input)
+    take_till1(|c| c == '"' || c == '#' || c == ' ' || c == '\t')(input)
 }
 
 
-- 
2.43.0


From cbd21ae2f86f59dbceb4abdb6e6edfdd723083bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 18/31] fix: do not read CGD names such as 'nano' or 'inf' as
 numbers

The number parser accepts the spellings of non-finite values, also as a
prefix, so that a name beginning with them was cut into pieces.
---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index ca0c35d..a8c183b 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -7,7 +7,7 @@ use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
-use nom::combinator::{map_opt, rest, opt};
+use nom::combinator::{map_opt, rest, opt, verify};
 use nom::branch::alt;
 use num_rational::Ratio;
 
@@ -68,7 +68,7 @@ fn key(input: &str) -> IResult<&str, &str> {
 fn field(input: &str) -> IResult<&str, Field> {
     alt((
         map_opt(fraction, |f| Some(Field::Fraction(f))),
-        map_opt(double, double_to_field()),
+        map_opt(verify(double, |f| f.is_finite()), double_to_field()),
         map_opt(quoted_string, |f| Some(Field::Name(f.to_string()))),
         map_opt(name, |f| Some(Field::Name(f.to_string()))),
     ))(input)
-- 
2.43.0


From 989ccc18f5a8dec81c8074b20a34b5138c47b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 19/31] fix: keep lines after the last block of a CGD file

Data and unreadable lines after the final 'end' were dropped without notice.
---
 src/io/parse_cgd_blocks.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index d84cbb2..3780c89 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -141,6 +141,12 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
         current_block.lineno_end = last_entry.line_number;
         last_entry.add_error("final block is missing an 'end' statement");
         blocks.push(current_block);
+    } else if let Some(last_entry) = current_block.entries.last_mut() {
+        last_entry.add_error("block has no type or content");
+        current_block.block_type = "--void--".to_string();
+        current_block.lineno_end = last_entry.line_number;
+        current_block.lineno_start = current_block.entries[0].line_number;
+        blocks.push(current_block);
     }
 
     blocks
-- 
2.43.0


From 9cea8768072d82523bd5bbdbabf636767ac1bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 20/31] fix: stop reading a CGD file after an input error

A source that keeps failing, such as a directory, made the reader collect
error entries forever.
---
 src/io/parse_cgd_blocks.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 3780c89..ad7ca2e 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, Read, BufReader};
+use std::io::{BufRead, ErrorKind, Read, BufReader};
 
 use super::parse_cgd_line::{parse_cgd_line, Field};
 
@@ -166,6 +166,11 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
             Err(e) => {
                 current_entry.entry_type = EntryType::Error;
                 current_entry.add_error(&format!("{:?}", e));
+
+                if e.kind() != ErrorKind::InvalidData {
+                    all_entries.push(current_entry);
+                    break;
+                }
             },
             Ok(s) => match parse_cgd_line(&s) {
                 Err(e) => {
-- 
2.43.0


From e996703052459fe2c667ee5f191c08c6296ab295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 21/31] fix: warn about a single ignored field after a CGD
 block type or 'end'

The key is no longer part of the fields, so one extra field went unnoticed.
---
 src/io/parse_cgd_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index ad7ca2e..c4fb4f6 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -103,7 +103,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                             entry.add_error("block has no type or content");
                         }
                         current_block.lineno_end = entry.line_number;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after 'end' ignored");
                         }
                         current_block.entries.push(entry);
@@ -116,7 +116,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.block_type = new_key;
                         in_block = true;
                         current_key = None;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after block type ignored");
                         }
                         current_block.entries.push(entry);
-- 
2.43.0


From 51a1ae9999b95efa3c2043dd32ee4b769c98461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 22/31] fix: do not give stray CGD data the key of the
 preceding block

---
 src/io/parse_cgd_blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index c4fb4f6..f1b9e79 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -109,6 +109,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.entries.push(entry);
                         blocks.push(current_block);
                         current_block = Block::new();
+                        current_key = None;
                         in_block = false;
                     } else if !in_block {
                         entry.entry_type = EntryType::Begin;
-- 
2.43.0


From 9b93470e51ac702f72810aa898d3af4da5f74e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 23/31] hooks: read access to private results for monitors,
 behind cfg(systre_hooks)

---
 src/io/parse_cgd_blocks.rs | 21 +++++++++++++++++++++
 src/pgraphs.rs             | 18 ++++++++++++++++++
 src/spacegroups/basics.rs  | 22 ++++++++++++++++++++++
 src/spacegroups/finder.rs  | 23 +++++++++++++++++++++++
 4 files changed, 84 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index f1b9e79..34ba996 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -71,6 +71,27 @@ impl Block {
 }
 
 
+#[cfg(systre_hooks)]
+impl Entry {
+    pub fn hook_parts(&self)
+        -> (&EntryType, &Option<String>, &[Field], &[Note], usize, &Option<String>)
+    {
+        (
+            &self.entry_type, &self.key, &self.fields, &self.notes,
+            self.line_number, &self.content
+        )
+    }
+}
+
+
+#[cfg(systre_hooks)]
+impl Block {
+    pub fn hook_parts(&self) -> (&str, usize, usize, &[Entry]) {
+        (&self.block_type, self.lineno_start, self.lineno_end, &self.entries)
+    }
+}
+
+
 pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
     let mut blocks = vec![];
     let mut current_block = Block::new();
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index e10e3f2..8c6de37 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -632,6 +632,24 @@ impl<T, CS> Automorphism<T, CS>
 }
 
 
+#[cfg(systre_hooks)]
+impl<T, CS> Automorphism<T, CS>
+    where
+        T: Eq + Hash,
+        CS: Eq + Hash
+{
+    pub fn hook_parts(&self)
+        -> (
+            &HashMap<Vertex, Vertex>,
+            &HashMap<Edge<T, CS>, Edge<T, CS>>,
+            &AffineMap
+        )
+    {
+        (&self.vertex_map, &self.edge_map, &self.transform)
+    }
+}
+
+
 impl<T, CS> Mul<&Automorphism<T, CS>> for &Automorphism<T, CS>
     where
         T: Clone + Eq + Hash,
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 2348a88..6bc4d8c 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -95,6 +95,28 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
+#[cfg(systre_hooks)]
+impl<CS, CSP> PrimitiveSetting<CS, CSP>
+    where
+        CS: Clone + Eq,
+        CSP: Clone + Eq + Hash
+{
+    pub fn hook_new(ops: &Vec<AffineMap<BigRational, CS>>) -> Self {
+        Self::new(ops)
+    }
+
+    pub fn hook_parts(&self)
+        -> (
+            &[Vector<BigRational, CS>],
+            &CoordinateMap<BigRational, CS, CSP>,
+            &[AffineMap<BigRational, CSP>]
+        )
+    {
+        (&self.cell, &self.to_primitive, &self.ops)
+    }
+}
+
+
 pub fn gram_matrix_configuration_space<CS: Clone>(
     ops: &Vec<AffineMap<BigRational, CS>>
 )
diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index bae7037..5b696fb 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -64,6 +64,29 @@ impl<T> OperatorDetails<T>
 }
 
 
+#[cfg(systre_hooks)]
+pub fn hook_operator_details<T>(matrix: Matrix<T>)
+    -> (usize, Option<Vec<T>>, usize, bool, bool)
+    where
+        T: Coord, for <'a> &'a T: CoordPtr<T>,
+        Matrix<T>: LinearAlgebra<T>
+{
+    let d = OperatorDetails::from(matrix);
+    (d.dimension, d.axis, d.order, d.is_orientation_preserving, d.is_clockwise)
+}
+
+
+#[cfg(systre_hooks)]
+pub fn hook_crystal_system_2d<T>(ops: &[Matrix<T>])
+    -> (CrystalSystem, Vec<Matrix<T>>)
+    where
+        T: Coord, for <'a> &'a T: CoordPtr<T>,
+        Matrix<T>: LinearAlgebra<T>
+{
+    crystal_system_and_basis_2d(ops)
+}
+
+
 fn positive_direction<T>(v: &[T]) -> Vec<T>
     where T: Coord, for <'a> &'a T: CoordPtr<T>
 {
-- 
2.43.0


From 9b49d22af7c5755bd8e29789f5e7e84f6c082656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 24/31] fix: keep coincident vertices of ladders apart in
 translational orbits

---
 src/symmetries.rs | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index dfcba8a..324befe 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -230,19 +230,34 @@ fn translational_equivalences<T, CS>(graph: &Graph<T, CS>) -> Partition<u32>
     if orbit.iter().skip(1).all(|v| mod1(&graph.position(v)) != p0) {
         equivs
     } else {
-        let mut p = Partition::new();
-
-        for b in extended_translation_basis(graph, &orbit) {
-            let b: Vector = b.iter().cloned().collect();
-            let v = orbit.iter()
-                .find(|v| mod1(&(graph.position(v) + &b)) == p0)
-                .unwrap();
-            let iso = automorphism(&graph, &orbit[0], &v, &id).unwrap();
-            for w in &graph.vertices() {
-                p.unite(w, &iso.vertex_map[w]);
-            }
-        }
-        p
+        // several translational automorphisms can share a translation vector
+        // here, so the choice must not put coincident vertices into one class
+        let lifts: Vec<Vec<_>> = extended_translation_basis(graph, &orbit)
+            .into_iter()
+            .map(|b| {
+                let b: Vector = b.into_iter().collect();
+                orbit.iter()
+                    .filter(|v| mod1(&(graph.position(v) + &b)) == p0)
+                    .map(|v| automorphism(&graph, &orbit[0], &v, &id).unwrap())
+                    .collect()
+            })
+            .collect();
+
+        lifts.iter().multi_cartesian_product()
+            .map(|isos| {
+                let mut p = Partition::new();
+                for iso in isos {
+                    for w in &graph.vertices() {
+                        p.unite(w, &iso.vertex_map[w]);
+                    }
+                }
+                p
+            })
+            .find(|p| orbit.iter().skip(1).all(|v|
+                p.find(v) != p.find(&orbit[0]) ||
+                mod1(&graph.position(v)) != p0
+            ))
+            .unwrap_or_else(Partition::new)
     }
 }
 
-- 
2.43.0


From 2ac733e2da71152944494fd68a53b03f61f21d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 25/31] fix: print shifts of one unit in operators

---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 517d026..2325d9a 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -91,7 +91,7 @@ fn write_op_row(
             } else if val.is_negative() {
                 write!(f, "-")?;
             }
-            if !val.abs().is_one() {
+            if axis.is_empty() || !val.abs().is_one() {
                 write!(f, "{}", val.abs())?;
             }
             write!(f, "{}", axis)?;
-- 
2.43.0


From 3ada53b4ac600ee07b3789a7e10f05253b57f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 26/31] fix: stop reading CGD input at a lasting InvalidData
 error

---
 src/io/parse_cgd_blocks.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 34ba996..4bfbbf0 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, ErrorKind, Read, BufReader};
+use std::io::{BufRead, Read, BufReader};
 
 use super::parse_cgd_line::{parse_cgd_line, Field};
 
@@ -179,20 +179,30 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
     let mut all_entries = vec![];
     let mut lineno = 0;
 
-    for line in BufReader::new(input).lines() {
+    for line in BufReader::new(input).split(b'\n') {
         let mut current_entry = Entry::new(
             EntryType::Data, lineno, None, None, vec![]
         );
 
-        match line {
+        let line = match line {
             Err(e) => {
                 current_entry.entry_type = EntryType::Error;
                 current_entry.add_error(&format!("{:?}", e));
-
-                if e.kind() != ErrorKind::InvalidData {
-                    all_entries.push(current_entry);
-                    break;
+                all_entries.push(current_entry);
+                break;
+            },
+            Ok(mut bytes) => {
+                if bytes.ends_with(b"\r") {
+                    bytes.pop();
                 }
+                String::from_utf8(bytes)
+            }
+        };
+
+        match line {
+            Err(e) => {
+                current_entry.entry_type = EntryType::Error;
+                current_entry.add_error(&format!("{:?}", e.utf8_error()));
             },
             Ok(s) => match parse_cgd_line(&s) {
                 Err(e) => {
-- 
2.43.0


From 96a094facdb79ea72b64880ff5645268a3a4ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:25 +0000
Subject: [PATCH 27/31] fix: take a different mirror for the second plane axis

---
 src/spacegroups/finder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index 5b696fb..2a4c6cf 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -241,8 +241,10 @@ fn crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
             s.is_orientation_preserving && s.is_clockwise && s.order == m
         ).unwrap();
         &s.matrix * &x
-    } else if mirrors.len() > 1 {
-        Matrix::col(&mirrors[1].axis.clone().unwrap())
+    } else if let Some(s) = mirrors.iter().find(|s|
+        s.matrix != mirrors[0].matrix
+    ) {
+        Matrix::col(&s.axis.clone().unwrap())
     } else {
         let t = if x[(0, 0)] == T::zero() {
             Matrix::col(&[T::one(), T::zero()])
-- 
2.43.0


From f1ac3e7ea1f5c062d5b7f2a3d71c0cb8336d1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 28/31] fix: take rounding residues for zero in floating point
 elimination

---
 src/arithmetic/linear_algebra.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 71e9294..9408845 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -67,13 +67,19 @@ impl Scalar for BigRational {
     }
 }
 
+// A difference that is only a rounding residue must not become a pivot.
+fn difference(x: f64, y: f64) -> f64 {
+    let d = x - y;
+    if d.abs() <= 1024.0 * f64::EPSILON * x.abs() { 0.0 } else { d }
+}
+
 impl Scalar for f64 {
     fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
         let f = v[col] / b[col];
         v[col] = 0.0;
 
         for k in (col + 1)..v.len() {
-            v[k] -= b[k] * f;
+            v[k] = difference(v[k], b[k] * f);
         }
     }
 
@@ -91,7 +97,7 @@ impl Scalar for f64 {
         v[col] = 0.0;
 
         for k in (col + 1)..v.len() {
-            v[k] -= b[k] * f;
+            v[k] = difference(v[k], b[k] * f);
         }
     }
 
-- 
2.43.0


From 3a1af928e74d08d9b6881ae27cc8d1932f8a9851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 29/31] fix: do not alias a partition when its elements' own
 code calls back into it

---
 src/partitions.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/partitions.rs b/src/partitions.rs
index deaf254..1ddda79 100644
--- a/src/partitions.rs
+++ b/src/partitions.rs
@@ -1,4 +1,4 @@
-use std::cell::UnsafeCell;
+use std::cell::RefCell;
 use std::hash::Hash;
 use std::collections::HashMap;
 
@@ -77,21 +77,21 @@ impl<T> PartitionImpl<T> where T: Clone + Eq + Hash {
 
 
 pub struct Partition<T> {
-    _impl: UnsafeCell<PartitionImpl<T>>,
+    _impl: RefCell<PartitionImpl<T>>,
 }
 
 
 impl<T> Partition<T> where T: Clone + Eq + Hash {
     pub fn new() -> Self {
-        Partition { _impl: UnsafeCell::new(PartitionImpl::new())}
+        Partition { _impl: RefCell::new(PartitionImpl::new())}
     }
 
     pub fn find(&self, x: &T) -> T {
-        unsafe { (*self._impl.get()).find(x) }
+        self._impl.borrow_mut().find(x)
     }
 
     pub fn unite(&mut self, x: &T, y: &T) {
-        unsafe { (*self._impl.get()).unite(x, y) };
+        self._impl.get_mut().unite(x, y);
     }
 
     pub fn classes(&self, elms: &[T]) -> Vec<Vec<T>> {
-- 
2.43.0


From cce4a5ab087eb18f0c993718b74dfff77a35d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 30/31] fix: do not replace the edge lookup table while one of
 its edges is being copied

---
 src/pgraphs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 8c6de37..af2cfab 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -377,7 +377,8 @@ impl<T, CS> Graph<T, CS>
     pub fn edge_by_unique_delta(&self, v: &Vertex, delta: &Vector)
         -> Option<Edge<T, CS>>
     {
-        if (unsafe { (*self.edge_lookup.get()).get(v) }).is_none() {
+        // never replace a filled table, a label's own code may be using it
+        if unsafe { (*self.edge_lookup.get()).is_empty() } {
             let data = edges_by_unique_deltas(self);
             unsafe { *self.edge_lookup.get() = data };
         }
-- 
2.43.0


From aebb33d1c080a8888cf8d6798559ee472306c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 31/31] One guard for each group of hooks

---
 src/io/parse_cgd_blocks.rs | 4 ++--
 src/pgraphs.rs             | 2 +-
 src/spacegroups/basics.rs  | 2 +-
 src/spacegroups/finder.rs  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 4bfbbf0..0a3bfac 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -71,7 +71,7 @@ impl Block {
 }
 
 
-#[cfg(systre_hooks)]
+#[cfg(systre_hooks_blocks)]
 impl Entry {
     pub fn hook_parts(&self)
         -> (&EntryType, &Option<String>, &[Field], &[Note], usize, &Option<String>)
@@ -84,7 +84,7 @@ impl Entry {
 }
 
 
-#[cfg(systre_hooks)]
+#[cfg(systre_hooks_blocks)]
 impl Block {
     pub fn hook_parts(&self) -> (&str, usize, usize, &[Entry]) {
         (&self.block_type, self.lineno_start, self.lineno_end, &self.entries)
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index af2cfab..e9b6a9a 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -633,7 +633,7 @@ impl<T, CS> Automorphism<T, CS>
 }
 
 
-#[cfg(systre_hooks)]
+#[cfg(systre_hooks_symmetries)]
 impl<T, CS> Automorphism<T, CS>
     where
         T: Eq + Hash,
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 6bc4d8c..7edff57 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -95,7 +95,7 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
-#[cfg(systre_hooks)]
+#[cfg(systre_hooks_setting)]
 impl<CS, CSP> PrimitiveSetting<CS, CSP>
     where
         CS: Clone + Eq,
diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index 2a4c6cf..9dd20be 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -64,7 +64,7 @@ impl<T> OperatorDetails<T>
 }
 
 
-#[cfg(systre_hooks)]
+#[cfg(systre_hooks_operators)]
 pub fn hook_operator_details<T>(matrix: Matrix<T>)
     -> (usize, Option<Vec<T>>, usize, bool, bool)
     where
@@ -76,7 +76,7 @@ pub fn hook_operator_details<T>(matrix: Matrix<T>)
 }
 
 
-#[cfg(systre_hooks)]
+#[cfg(systre_hooks_operators)]
 pub fn hook_crystal_system_2d<T>(ops: &[Matrix<T>])
     -> (CrystalSystem, Vec<Matrix<T>>)
     where
-- 
2.43.0

