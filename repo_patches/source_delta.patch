From 5d5f1d1a082206b61f871a68dc26535ded248162 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 01/96] fix: Empty constraint on arrays is satisfied by empty
 arrays only

The test was inverted, so Not(Empty), and with it every Concentrations
and Dirichlet constructor, rejected all non-empty arrays.
---
 src/params/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index faedb27..12c8d9f 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -397,7 +397,7 @@ impl Display for Empty {
 }
 
 impl<const N: usize, T> Constraint<[T; N]> for Empty {
-    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { N > 0 }
+    fn is_satisfied_by(&self, _: &[T; N]) -> bool { N == 0 }
 }
 
 impl<T> Constraint<Vec<T>> for Empty {
-- 
2.43.0


From 364d47a40502d89aad248e9342650dd154bf25e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 02/96] fix: matrix-vector product uses the whole matrix

mv_mult ignored every entry above the diagonal. That is harmless for a
lower-triangular factor, but it is also applied to the (full, symmetric)
precision matrix, so Mahalanobis distances and densities of correlated
normals were wrong.
---
 src/normal/linalg.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/normal/linalg.rs b/src/normal/linalg.rs
index c26f447..9cef755 100644
--- a/src/normal/linalg.rs
+++ b/src/normal/linalg.rs
@@ -48,17 +48,20 @@ pub(crate) unsafe fn mm_square<const N: usize>(mat: &Matrix<N, N>) -> [[f64; N];
     out
 }
 
-pub(crate) unsafe fn mv_mult<const N: usize>(mat: &Matrix<N, N>, mut vec: [f64; N]) -> [f64; N] {
-    blas::dtrmv(
-        'U' as u8, 'T' as u8, 'N' as u8, N as i32,
-        &*mat.as_ref().as_ptr(),
-        // std::mem::transmute(mat),
-        N as i32,
-        vec.as_mut(),
-        1
+pub(crate) unsafe fn mv_mult<const N: usize>(mat: &Matrix<N, N>, vec: [f64; N]) -> [f64; N] {
+    let mut out = [0.0; N];
+
+    // Row-major storage: BLAS sees the transpose.
+    blas::dgemv(
+        b'T', N as i32, N as i32,
+        1.0,
+        &*mat.as_ptr(), 1i32.max(N as i32),
+        &vec, 1,
+        0.0,
+        &mut out, 1
     );
 
-    vec
+    out
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4a98cb698b7705ac9168378e0a4bd4a90d895cce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 03/96] fix: binomial coefficients for k > n and for large
 results

choose(n, k) underflowed for k > n, and overflowed in an intermediate
product for coefficients that themselves fit in 64 bits.
---
 src/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 08220d5..cc0f2d6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -21,9 +21,14 @@ pub fn log_factorial_stirling(n: u64) -> f64 {
 }
 
 pub fn choose(n: u64, k: u64) -> u64 {
-    let k = if k > n - k { n - k } else { k };
+    if k > n {
+        return 0;
+    }
+
+    let k = k.min(n - k);
 
-    (0..k).fold(1, |acc, i| acc * (n - i) / (i + 1))
+    // The intermediate product can exceed 64 bits even when the result does not.
+    (0..k).fold(1u128, |acc, i| acc * (n - i) as u128 / (i + 1) as u128) as u64
 }
 
 #[cfg(feature = "serde")]
-- 
2.43.0


From 0e351b4f0f5b6dbeb768d0689c63603766a6363a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 04/96] fix: arcsine: values outside the support, entropy
 scales with the width

---
 src/univariate/arcsine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 7eb766b..e7a5079 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -56,7 +56,7 @@ impl Distribution for Arcsine {
         let a = self.0.a.0;
         let w = self.0.w.0;
 
-        let xab = (x - a) / w;
+        let xab = ((x - a) / w).max(0.0).min(1.0);
 
         Probability::new_unchecked(TWO_OVER_PI * xab.sqrt().asin())
     }
@@ -67,6 +67,11 @@ impl Distribution for Arcsine {
 impl ContinuousDistribution for Arcsine {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
+
+        if *x < a || *x > b {
+            return 0.0;
+        }
+
         let xab = (x - a) * (b - x);
 
         ONE_OVER_PI / xab.sqrt()
@@ -110,7 +115,7 @@ impl Modes for Arcsine {
 }
 
 impl ShannonEntropy for Arcsine {
-    fn shannon_entropy(&self) -> f64 { PI_OVER_4.ln() }
+    fn shannon_entropy(&self) -> f64 { (PI_OVER_4 * self.0.w.0).ln() }
 }
 
 impl fmt::Display for Arcsine {
-- 
2.43.0


From 1e19ecaf2778f5149ce63c5eef02650a11176c49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 05/96] fix: bernoulli: cdf at false, kurtosis, mode for p >
 1/2, score

---
 src/univariate/bernoulli.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index fffb0e8..17e8356 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -65,7 +65,7 @@ impl Distribution for Bernoulli {
         if *k {
             Probability::one()
         } else {
-            Probability::zero()
+            self.q
         }
     }
 
@@ -92,9 +92,9 @@ impl UvMoments for Bernoulli {
 
     fn skewness(&self) -> f64 { (1.0 - 2.0 * self.params.p.unwrap()) / self.variance.sqrt() }
 
-    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
+    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 9.0 }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
 }
 
 impl Quantiles for Bernoulli {
@@ -116,7 +116,7 @@ impl Modes for Bernoulli {
         match self.params.p.partial_cmp(&self.q) {
             Some(Less) => vec![false],
             Some(Equal) => vec![false, true],
-            Some(Greater) => vec![false],
+            Some(Greater) => vec![true],
             None => unreachable!(),
         }
     }
@@ -150,7 +150,16 @@ impl Score for Bernoulli {
 
     fn score(&self, samples: &[bool]) -> Grad {
         Grad {
-            p: samples.into_iter().map(|x| 1.0 / self.pmf(x)).sum(),
+            p: samples
+                .into_iter()
+                .map(|&x| {
+                    if x {
+                        1.0 / self.params.p.unwrap()
+                    } else {
+                        -1.0 / self.q.unwrap()
+                    }
+                })
+                .sum(),
         }
     }
 }
-- 
2.43.0


From 66028affb9664fbfa4e490a50ec7822d2efd8416 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 06/96] fix: beta: values outside [0, 1], excess kurtosis

---
 src/univariate/beta.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 00dc52c..78db8cf 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -55,7 +55,7 @@ impl Distribution for Beta {
     fn cdf(&self, x: &f64) -> Probability {
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(x.betainc(alpha, beta))
+        Probability::new_unchecked(x.max(0.0).min(1.0).betainc(alpha, beta))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -71,6 +71,10 @@ impl ContinuousDistribution for Beta {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
         let denominator = a.beta(b);
 
@@ -110,7 +114,7 @@ impl UvMoments for Beta {
 
         let apbp2 = apb + 2.0;
 
-        3.0 * asb * asb * (apb + 1.0) - amb * apbp2 / amb / apbp2 / (apb + 3.0)
+        6.0 * (asb * asb * (apb + 1.0) - amb * apbp2) / (amb * apbp2 * (apb + 3.0))
     }
 }
 
-- 
2.43.0


From 0fd5c4177194788f5cc3b56a29e46974309c0f06 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 07/96] fix: beta_binomial: support ends at n, skewness and
 kurtosis

---
 src/univariate/beta_binomial.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 224f163..7d7f91b 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -71,7 +71,7 @@ impl Distribution for BetaBinomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
@@ -105,13 +105,10 @@ impl UvMoments for BetaBinomial {
         let (n, alpha, beta) = get_params!(self);
         let n = n as f64;
 
-        let ap1 = alpha + 1.0;
-        let ap2 = ap1 + 1.0;
-
-        // Compute bracket term:
-        let b = n * n * ap1 * ap2 + 3.0 * n * ap1 * beta + beta * (beta - alpha);
+        let apb = alpha + beta;
 
-        self.pi * self.rho * n * b / (ap2 + beta)
+        (apb + 2.0 * n) * (beta - alpha) / (apb + 2.0)
+            * ((1.0 + apb) / (n * alpha * beta * (n + apb))).sqrt()
     }
 
     fn kurtosis(&self) -> f64 {
@@ -122,7 +119,7 @@ impl UvMoments for BetaBinomial {
 
         let b1 = alpha
             / (n * self.pi * self.pi * self.rho * beta * (apb + 2.0) * (apb + 3.0) * (apb + n));
-        let b2 = (apb - 1.0 + 6.0 * n) / alpha;
+        let b2 = (apb - 1.0 + 6.0 * n) * apb;
         let b3 = 3.0 * alpha * beta * (n - 2.0);
         let b4 = 6.0 * n * n;
         let b5 = -3.0 * self.pi * beta * n * (6.0 - n);
-- 
2.43.0


From cdd1a350939b9d2fd9ca2ec0af51b33d8ad07988 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 08/96] fix: beta_prime: values outside the support, kurtosis,
 entropy

---
 src/univariate/beta_prime.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 8484564..8272b94 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -52,6 +52,12 @@ impl Distribution for BetaPrime {
 
         let (alpha, beta) = get_params!(self);
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        } else if x.is_infinite() {
+            return Probability::one();
+        }
+
         Probability::new_unchecked((x / (1.0 + x)).betainc(alpha, beta))
     }
 
@@ -64,6 +70,10 @@ impl ContinuousDistribution for BetaPrime {
 
         let (a, b) = get_params!(self);
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let numerator = x.powf(a - 1.0) * (1.0 + x).powf(-a - b);
         let denominator = a.beta(b);
 
@@ -110,9 +120,14 @@ impl UvMoments for BetaPrime {
 
     fn excess_kurtosis(&self) -> f64 {
         let (a, b) = get_params!(self);
+
+        if b <= 4.0 {
+            undefined!("kurtosis is undefined for values of beta <= 4.")
+        }
+
         let bm1 = b - 1.0;
 
-        let numerator = 6.0 * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0);
+        let numerator = 6.0 * (a * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0));
         let denominator = a * (a + bm1) * (b - 3.0) * (b - 4.0);
 
         numerator / denominator
@@ -138,8 +153,7 @@ impl ShannonEntropy for BetaPrime {
         let (a, b) = get_params!(self);
         let apb = a + b;
 
-        a.logbeta(b) - (a - 1.0) * a.digamma() - (b - 1.0) * b.digamma()
-            + (apb - 2.0) * apb.digamma()
+        a.logbeta(b) - (a - 1.0) * a.digamma() - (b + 1.0) * b.digamma() + apb * apb.digamma()
     }
 }
 
-- 
2.43.0


From 00320b7307fad08c5f29260cb7eaba1cfb382e80 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 09/96] fix: binomial: support and values at and beyond n,
 large n, kurtosis, median, mode, entropy

---
 src/univariate/binomial.rs | 42 ++++++++++++++++++++++++++++++++------
 src/utils.rs               |  4 ++++
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 8e19d6c..00d2329 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -1,5 +1,4 @@
 use crate::{
-    consts::PI_E,
     statistics::{FisherInformation, Modes, Quantiles, ShannonEntropy, UvMoments},
     univariate::bernoulli::Bernoulli,
     utils::*,
@@ -59,13 +58,17 @@ impl Distribution for Binomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &usize) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *k >= self.params.n.0 {
+            return Probability::one();
+        }
+
         let a = (self.params.n.0 - k) as f64;
         let b = (k + 1) as f64;
 
@@ -86,6 +89,19 @@ impl DiscreteDistribution for Binomial {
     fn pmf(&self, k: &usize) -> Probability {
         let (n, p) = get_params!(self);
 
+        if *k > n {
+            return Probability::zero();
+        }
+
+        // Beyond this point the coefficient may not fit in 64 bits.
+        if n > 60 {
+            let ln_pow = |x: Probability, e: usize| if e == 0 { 0.0 } else { e as f64 * x.ln() };
+
+            return Probability::new_unchecked(
+                (log_choose(n as u64, *k as u64) + ln_pow(p, *k) + ln_pow(self.q, n - *k)).exp(),
+            );
+        }
+
         let bc = choose(n as u64, *k as u64) as f64;
 
         let prob_successes = p.powi(*k as i32);
@@ -114,7 +130,7 @@ impl UvMoments for Binomial {
 
     fn skewness(&self) -> f64 { (1.0 - self.params.p * 2.0) / self.variance().sqrt() }
 
-    fn kurtosis(&self) -> f64 {
+    fn excess_kurtosis(&self) -> f64 {
         let (n, p) = get_params!(self);
         let (p, q) = (p.unwrap(), self.q.unwrap());
 
@@ -125,19 +141,33 @@ impl UvMoments for Binomial {
 impl Quantiles for Binomial {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { self.mean().round() }
+    fn median(&self) -> f64 {
+        let m = self.mean().floor();
+
+        if self.cdf(&(m as usize)) >= Probability::half() {
+            m
+        } else {
+            m + 1.0
+        }
+    }
 }
 
 impl Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
         let (n, p) = get_params!(self);
 
-        vec![(p * n as f64).floor() as usize]
+        vec![((p * (n + 1) as f64).floor() as usize).min(n)]
     }
 }
 
 impl ShannonEntropy for Binomial {
-    fn shannon_entropy(&self) -> f64 { (2.0 * PI_E * self.variance()).log2() / 2.0 }
+    fn shannon_entropy(&self) -> f64 {
+        (0..=self.params.n.0)
+            .map(|k| self.pmf(&k).unwrap())
+            .filter(|&p| p > 0.0)
+            .map(|p| -p * p.ln())
+            .sum()
+    }
 }
 
 impl FisherInformation<1> for Binomial {
diff --git a/src/utils.rs b/src/utils.rs
index cc0f2d6..3992274 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,6 +20,10 @@ pub fn log_factorial_stirling(n: u64) -> f64 {
     }
 }
 
+pub fn log_choose(n: u64, k: u64) -> f64 {
+    log_factorial_stirling(n) - log_factorial_stirling(k) - log_factorial_stirling(n - k)
+}
+
 pub fn choose(n: u64, k: u64) -> u64 {
     if k > n {
         return 0;
-- 
2.43.0


From 67123f273924cb2599fbcb08310b1c15a3da4f3b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 10/96] fix: beta_binomial: mass beyond n and for large n

---
 src/univariate/beta_binomial.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 7d7f91b..0612c1d 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -48,6 +48,14 @@ impl BetaBinomial {
     fn pmf_raw(&self, k: usize) -> f64 {
         let (n, alpha, beta) = get_params!(self);
 
+        // Beyond this point the coefficient may not fit in 64 bits.
+        if n > 60 {
+            let c = log_choose(n as u64, k as u64);
+            let (k, n) = (k as f64, n as f64);
+
+            return (c + (k + alpha).logbeta(n - k + beta) - alpha.logbeta(beta)).exp();
+        }
+
         let c = choose(n as u64, k as u64) as f64;
         let z = alpha.beta(beta);
         let k = k as f64;
@@ -87,7 +95,13 @@ impl Distribution for BetaBinomial {
 }
 
 impl DiscreteDistribution for BetaBinomial {
-    fn pmf(&self, k: &usize) -> Probability { Probability::new_unchecked(self.pmf_raw(*k)) }
+    fn pmf(&self, k: &usize) -> Probability {
+        if *k > self.params.n.0 {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked(self.pmf_raw(*k))
+    }
 }
 
 impl Univariate for BetaBinomial {}
-- 
2.43.0


From c1d4fb8cd2464b758526c478e0ab8120ead47836 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 11/96] fix: categorical: support is 0..N-1 and the cdf
 includes its argument

---
 src/univariate/categorical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 5ee79bf..f5f5948 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -50,12 +50,12 @@ impl<const N: usize> Distribution for Categorical<N> {
     type Support = Closed<usize>;
     type Params = Params<N>;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N - 1) }
 
     fn params(&self) -> Params<N> { self.0.clone() }
 
     fn cdf(&self, x: &usize) -> Probability {
-        Probability::new_unchecked(self.0.ps.iter().take(*x).sum())
+        Probability::new_unchecked(self.0.ps.iter().take(x.saturating_add(1)).sum())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { self.0.ps.sample_index(rng) }
-- 
2.43.0


From f212c3bd7b2c674508e7fbd674c1a9a6280e8dc7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 12/96] fix: chi: values outside the support, entropy

---
 src/univariate/chi.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 0b1a937..9107111 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -43,6 +43,8 @@ impl Distribution for Chi {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        let x = x.max(0.0);
+
         Probability::new_unchecked((get_k!(self) / 2.0).gammainc(x * x / 2.0))
     }
 
@@ -51,6 +53,10 @@ impl Distribution for Chi {
 
 impl ContinuousDistribution for Chi {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2 - 1.0) * ko2.gamma();
@@ -119,7 +125,7 @@ impl ShannonEntropy for Chi {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma())
+        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma()) / 2.0
     }
 }
 
-- 
2.43.0


From f1ae917286cfd2123adc6961495b18a802ee316c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 13/96] fix: chi_sq: cdf is already regularised, values outside
 the support, convolution of any two

---
 src/univariate/chi_sq.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index b72f1dc..a473ca3 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -46,7 +46,7 @@ impl Distribution for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        Probability::new_unchecked(ko2.gammainc(x / 2.0) / ko2.gamma())
+        Probability::new_unchecked(ko2.gammainc(x.max(0.0) / 2.0))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -60,6 +60,10 @@ impl Distribution for ChiSq {
 
 impl ContinuousDistribution for ChiSq {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2) * ko2.gamma();
@@ -110,8 +114,6 @@ impl Convolution<ChiSq> for ChiSq {
         let k1 = self.0.k.0;
         let k2 = rv.0.k.0;
 
-        assert_constraint!(k1 == k2)?;
-
         Ok(ChiSq::new_unchecked(k1 + k2))
     }
 }
-- 
2.43.0


From 4588d6fc3b6d9bee8da3c60c5347f14757f424d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 14/96] fix: cosine: density normalisation, values outside the
 support, kurtosis

---
 src/univariate/cosine.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index ffbaa21..56a3e6c 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -57,7 +57,7 @@ impl Distribution for Cosine {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        let z = self.z(*x);
+        let z = self.z(*x).max(-1.0).min(1.0);
 
         Probability::new_unchecked(0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin()))
     }
@@ -66,7 +66,13 @@ impl Distribution for Cosine {
 }
 
 impl ContinuousDistribution for Cosine {
-    fn pdf(&self, x: &f64) -> f64 { 0.5 * self.hvc(*x) }
+    fn pdf(&self, x: &f64) -> f64 {
+        if self.z(*x).abs() > 1.0 {
+            return 0.0;
+        }
+
+        self.hvc(*x) / self.0.s.0
+    }
 }
 
 impl Univariate for Cosine {}
@@ -85,7 +91,7 @@ impl UvMoments for Cosine {
     fn excess_kurtosis(&self) -> f64 {
         let v = PI2 - 6.0;
 
-        6.0 * (60.0 - PI4) / 5.0 / v / v
+        6.0 * (90.0 - PI4) / 5.0 / v / v
     }
 }
 
-- 
2.43.0


From 1c8794cd310b785089c875d7766758b632a43e7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 15/96] fix: erlang: log_cdf is already regularised, log_pdf
 uses ln(x), values outside the support

---
 src/univariate/erlang.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index b189d5d..7b7c101 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -53,7 +53,7 @@ impl Distribution for Erlang {
     fn log_cdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        (k as f64).gammainc(lambda * x).ln() - crate::utils::log_factorial_stirling(k as u64)
+        (k as f64).gammainc((lambda * x).max(0.0)).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -63,7 +63,13 @@ impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        k as f64 * lambda.ln() + (k - 1) as f64 * x
+        if *x < 0.0 {
+            return f64::NEG_INFINITY;
+        }
+
+        let ln_pow = if k == 1 { 0.0 } else { (k - 1) as f64 * x.ln() };
+
+        k as f64 * lambda.ln() + ln_pow
             - lambda * x
             - crate::utils::log_factorial_stirling(k as u64 - 1)
     }
-- 
2.43.0


From 7b31cb03d6df09100c85cfbf59ef3959c2cc68ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 16/96] fix: exponential: quantile, kurtosis, Fisher
 information, values outside the support

---
 src/univariate/exponential.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 0740380..9952a1c 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -47,7 +47,7 @@ impl Distribution for Exponential {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        Probability::new_unchecked(1.0 - (-get_lambda!(self) * x).exp())
+        Probability::new_unchecked(1.0 - (-get_lambda!(self) * x.max(0.0)).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -59,6 +59,10 @@ impl Distribution for Exponential {
 
 impl ContinuousDistribution for Exponential {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let l = get_lambda!(self);
 
         l * (-l * x).exp()
@@ -78,13 +82,13 @@ impl UvMoments for Exponential {
 
     fn skewness(&self) -> f64 { 2.0 }
 
-    fn kurtosis(&self) -> f64 { 3.0 }
+    fn kurtosis(&self) -> f64 { 9.0 }
 
     fn excess_kurtosis(&self) -> f64 { 6.0 }
 }
 
 impl Quantiles for Exponential {
-    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap()) / get_lambda!(self) }
+    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap().ln()) / get_lambda!(self) }
 
     fn median(&self) -> f64 { self.mean() * 2.0f64.ln() }
 }
@@ -101,7 +105,7 @@ impl FisherInformation<1> for Exponential {
     fn fisher_information(&self) -> [[f64; 1]; 1] {
         let l = get_lambda!(self);
 
-        [[l * l]]
+        [[1.0 / l / l]]
     }
 }
 
-- 
2.43.0


From 819b0b0cedb877b76bccf91060651930fc26e49c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 17/96] fix: f_dist: values outside the support, existence of
 higher moments, kurtosis, entropy

---
 src/univariate/f_dist.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 0004375..ebd8af0 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -49,6 +49,12 @@ impl Distribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        } else if x.is_infinite() {
+            return Probability::one();
+        }
+
         let x = d1 * x / (d1 * x + d2);
 
         Probability::new_unchecked(x.betainc(d1 / 2.0, d2 / 2.0))
@@ -69,6 +75,10 @@ impl ContinuousDistribution for FDist {
     fn pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
@@ -107,7 +117,7 @@ impl UvMoments for FDist {
 
     fn skewness(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Skewness is undefined for values of d2 <= 6."),
+            d2 if d2 <= 6 => undefined!("Skewness is undefined for values of d2 <= 6."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
 
@@ -121,13 +131,13 @@ impl UvMoments for FDist {
 
     fn excess_kurtosis(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
+            d2 if d2 <= 8 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
                 let d2m2 = d2 - 2.0;
 
                 let numerator =
-                    12.0 * d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2;
+                    12.0 * (d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2);
                 let denominator = d1 * (d2 - 6.0) * (d2 - 8.0) * (d1 + d2m2);
 
                 numerator / denominator
@@ -160,10 +170,10 @@ impl ShannonEntropy for FDist {
         let d2o2 = d2 / 2.0;
 
         d1o2.gamma().ln() + d2o2.gamma().ln() - ((d1 + d2) / 2.0).gamma().ln()
-            + (1.0 - d1o2) * (1.0 + d1o2).digamma()
-            - (1.0 - d2o2) * (1.0 + d2o2).digamma()
+            + (1.0 - d1o2) * d1o2.digamma()
+            - (1.0 + d2o2) * d2o2.digamma()
             + ((d1 + d2) / 2.0) * ((d1 + d2) / 2.0).digamma()
-            + (d1 / d2).ln()
+            + (d2 / d1).ln()
     }
 }
 
-- 
2.43.0


From e99bd726920b6433067899b7cf11d58ee7990c2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 18/96] fix: folded_normal: mode, values outside the support

---
 src/univariate/folded_normal.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index d856ac8..1bba969 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -66,6 +66,7 @@ impl Distribution for FoldedNormal {
 
         let (mu, sigma) = get_params!(self);
         let sqrt_2: f64 = 2.0f64.sqrt();
+        let x = x.max(0.0);
 
         Probability::new_unchecked(
             0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()),
@@ -86,6 +87,10 @@ impl Distribution for FoldedNormal {
 
 impl ContinuousDistribution for FoldedNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (mu, sigma) = get_params!(self);
 
         let norm = PI_2.sqrt() * sigma;
@@ -126,11 +131,26 @@ impl Modes for FoldedNormal {
     fn modes(&self) -> Vec<f64> {
         let (mu, sigma) = get_params!(self);
 
-        if mu < sigma {
-            vec![0.0]
-        } else {
-            vec![mu]
+        let mu = mu.abs();
+
+        if mu <= sigma {
+            return vec![0.0];
+        }
+
+        // The mode is the positive root of mu * tanh(mu * x / sigma^2) = x.
+        let (mut lb, mut ub) = (0.0, mu);
+
+        for _ in 0..100 {
+            let x = (lb + ub) / 2.0;
+
+            if mu * (mu * x / sigma / sigma).tanh() > x {
+                lb = x;
+            } else {
+                ub = x;
+            }
         }
+
+        vec![(lb + ub) / 2.0]
     }
 }
 
-- 
2.43.0


From fd37813c1477baa13a8143d1984276c02711e87c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 19/96] fix: frechet: sampler, values outside the support

---
 src/univariate/frechet.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 8b18dcf..578e823 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -45,18 +45,26 @@ impl Distribution for Frechet {
     fn params(&self) -> Params { Params::new_unchecked(get_alpha!(self)) }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked((-(x.powf(-get_alpha!(self)))).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         let u = Uniform::default();
 
-        (-u.sample(rng).ln()).powf(1.0 / get_alpha!(self))
+        (-u.sample(rng).ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
 impl ContinuousDistribution for Frechet {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let cdf = self.cdf(x).unwrap();
         let alpha = get_alpha!(self);
 
-- 
2.43.0


From 5e03f2ec907f325dcb79ba515f1caaebefc5f607 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 20/96] fix: gamma: cdf is already regularised, sampler uses
 the rate, likelihood and score, convolution needs equal rates, values outside
 the support

---
 src/univariate/gamma.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 1dceb84..a1b095f 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -52,7 +52,7 @@ impl Into<rand_distr::Gamma<f64>> for &Gamma {
     fn into(self) -> rand_distr::Gamma<f64> {
         let (a, b) = get_params!(self);
 
-        rand_distr::Gamma::new(a, b).unwrap()
+        rand_distr::Gamma::new(a, 1.0 / b).unwrap()
     }
 }
 
@@ -67,7 +67,7 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(a.gammainc(b * x) / a.gamma())
+        Probability::new_unchecked(a.gammainc((b * x).max(0.0)))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -81,6 +81,10 @@ impl Distribution for Gamma {
 
 impl ContinuousDistribution for Gamma {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
@@ -135,10 +139,10 @@ impl Likelihood for Gamma {
 
         let t1 = samples
             .into_iter()
-            .map(|x| am1 * (x + JITTER).ln() - b * (1.0 - x))
+            .map(|x| am1 * x.max(JITTER).ln() - b * x)
             .sum::<f64>();
 
-        t1 - n * (a * (1.0 / b).max(JITTER) + a.gamma().ln())
+        t1 + n * (a * b.ln() - a.gamma().ln())
     }
 }
 
@@ -154,7 +158,7 @@ impl Score for Gamma {
         let a_digamma = a.digamma();
 
         let [grad_a, grad_b] = samples.into_iter().fold([0.0; 2], |acc, x| {
-            [acc[0] + (x / b).max(JITTER).ln(), acc[1] - x]
+            [acc[0] + x.max(JITTER).ln() + b.ln(), acc[1] - x]
         });
 
         Grad {
@@ -170,8 +174,9 @@ impl Convolution<Gamma> for Gamma {
     fn convolve(self, rv: Gamma) -> Result<Gamma, failure::Error> {
         let (a1, beta) = get_params!(self);
         let a2 = rv.0.alpha.0;
+        let rate = rv.0.beta.0;
 
-        assert_constraint!(a1 == a2)?;
+        assert_constraint!(rate == beta)?;
 
         Ok(Gamma::new_unchecked(a1 + a2, beta))
     }
-- 
2.43.0


From a8f5dd9b4ef58b087730f6d24bb39fa16ce11a98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 21/96] fix: geometric: median, entropy in nats, large
 arguments

---
 src/univariate/geometric.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 4210129..7f0b523 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -47,7 +47,7 @@ impl Distribution for Geometric {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(1.0 - self.q.powi(*k as i32 + 1))
+        Probability::new_unchecked(1.0 - self.q.powf(*k as f64 + 1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 {
@@ -61,7 +61,7 @@ impl Distribution for Geometric {
 
 impl DiscreteDistribution for Geometric {
     fn pmf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(self.params.p * self.q.powi(*k as i32))
+        Probability::new_unchecked(self.params.p * self.q.powf(*k as f64))
     }
 }
 
@@ -88,7 +88,7 @@ impl UvMoments for Geometric {
 impl Quantiles for Geometric {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { (-1.0 / self.q.log2()) - 1.0 }
+    fn median(&self) -> f64 { ((-1.0 / self.q.log2()).ceil() - 1.0).max(0.0) }
 }
 
 impl Modes for Geometric {
@@ -99,7 +99,11 @@ impl ShannonEntropy for Geometric {
     fn shannon_entropy(&self) -> f64 {
         let (p, q) = (self.params.p.unwrap(), self.q.unwrap());
 
-        (-q * q.log2() - p * p.log2()) / p
+        if q <= 0.0 {
+            0.0
+        } else {
+            (-q * q.ln() - p * p.ln()) / p
+        }
     }
 }
 
-- 
2.43.0


From e73cb20dacb03dff2c9ffd4f0b6319b6eb3a3e55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 22/96] fix: gev: values outside the support, negative shape

---
 src/univariate/gev.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index 681cd71..17f6b5c 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -49,10 +49,10 @@ impl GeneralisedExtremeValue {
 
         let z = (x - mu) / sigma;
 
-        if (zeta - 0.0) < 1e-7 {
+        if zeta.abs() < 1e-7 {
             (-z).exp()
         } else {
-            (1.0 + zeta * z).powf(-1.0 / zeta)
+            (1.0 + zeta * z).max(0.0).powf(-1.0 / zeta)
         }
     }
 }
@@ -74,6 +74,10 @@ impl ContinuousDistribution for GeneralisedExtremeValue {
     fn pdf(&self, x: &f64) -> f64 {
         let tx = self.t_func(*x);
 
+        if tx == 0.0 || tx.is_infinite() {
+            return 0.0;
+        }
+
         tx.powf(self.0.zeta.0 + 1.0) * (-tx).exp() / self.0.sigma.0
     }
 }
-- 
2.43.0


From b96813d163b031ceab2ce354d3cdd012b0b3816d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 23/96] fix: gpd: existence of the moments, values outside the
 support

---
 src/univariate/gpd.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index dca93f8..63509b0 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -49,9 +49,9 @@ impl Distribution for GeneralisedPareto {
 
     fn cdf(&self, x: &f64) -> Probability {
         let (mu, sigma, zeta) = get_params!(self);
-        let z = (x - mu) / sigma;
+        let z = ((x - mu) / sigma).max(0.0);
 
-        Probability::new_unchecked(1.0 - (1.0 + zeta * z).powf(-1.0 / zeta))
+        Probability::new_unchecked(1.0 - (1.0 + zeta * z).max(0.0).powf(-1.0 / zeta))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -62,7 +62,11 @@ impl ContinuousDistribution for GeneralisedPareto {
         let (mu, sigma, zeta) = get_params!(self);
         let z = (x - mu) / sigma;
 
-        (1.0 + zeta * z).powf(-1.0 / zeta - 1.0) / sigma
+        if z < 0.0 {
+            return 0.0;
+        }
+
+        (1.0 + zeta * z).max(0.0).powf(-1.0 / zeta - 1.0) / sigma
     }
 }
 
@@ -72,8 +76,8 @@ impl UvMoments for GeneralisedPareto {
     fn mean(&self) -> f64 {
         let (mu, sigma, zeta) = get_params!(self);
 
-        if zeta <= 1.0 {
-            undefined!("Mean is undefined for zeta <= 1.")
+        if zeta >= 1.0 {
+            undefined!("Mean is undefined for zeta >= 1.")
         } else {
             mu + sigma / (1.0 - zeta)
         }
@@ -83,8 +87,8 @@ impl UvMoments for GeneralisedPareto {
         let zeta = self.0.zeta.0;
         let sigma = self.0.sigma.0;
 
-        if zeta <= 0.5 {
-            undefined!("Variance is undefined for zeta <= 1/2.")
+        if zeta >= 0.5 {
+            undefined!("Variance is undefined for zeta >= 1/2.")
         } else {
             sigma * sigma / (1.0 - zeta).powi(2) / (1.0 - 2.0 * zeta)
         }
@@ -93,8 +97,8 @@ impl UvMoments for GeneralisedPareto {
     fn skewness(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= ONE_THIRD {
+            undefined!("Skewness is undefined for zeta >= 1/3.")
         } else {
             2.0 * (1.0 + zeta) * (1.0 - 2.0 * zeta).sqrt() / (1.0 - 3.0 * zeta)
         }
@@ -103,8 +107,8 @@ impl UvMoments for GeneralisedPareto {
     fn excess_kurtosis(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= 0.25 {
+            undefined!("Kurtosis is undefined for zeta >= 1/4.")
         } else {
             3.0 * (1.0 - 2.0 * zeta) * (2.0 * zeta * zeta + zeta + 3.0)
                 / (1.0 - 3.0 * zeta)
-- 
2.43.0


From f7feeaa27eeef2886639945f35da2d501f25fbd9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 24/96] fix: inverse_gamma: cdf is the upper regularised gamma
 function, values outside the support

---
 src/univariate/inverse_gamma.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index f78a3c4..d77760f 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -50,9 +50,13 @@ impl Distribution for InvGamma {
     fn cdf(&self, x: &f64) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(alpha.gammainc(beta / x) / alpha.gamma())
+        Probability::new_unchecked(1.0 - alpha.gammainc(beta / x))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -62,6 +66,10 @@ impl ContinuousDistribution for InvGamma {
     fn pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let (alpha, beta) = get_params!(self);
 
         beta.powf(alpha) * x.powf(-alpha - 1.0) * (-beta / x).exp() / alpha.gamma()
-- 
2.43.0


From defe69663cf51f995e90d9381c167fcb16459607 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 25/96] fix: inverse_normal: cdf, values outside the support,
 kurtosis, entropy

---
 src/univariate/inverse_normal.rs | 67 +++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 6 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index ecaca85..eb4cd04 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -35,6 +35,45 @@ macro_rules! get_params {
     };
 }
 
+/// Computes the scaled exponential integral, exp(x) * E1(x), for x > 0.
+fn exp_e1(x: f64) -> f64 {
+    use special_fun::FloatSpecial;
+
+    if x < 1.0 {
+        // Power series.
+        let mut term = 1.0;
+        let mut sum = 1.0f64.digamma() - x.ln();
+
+        for k in 1..30 {
+            term *= -x / k as f64;
+            sum -= term / k as f64;
+        }
+
+        x.exp() * sum
+    } else {
+        // Continued fraction (modified Lentz's method).
+        let mut b = x + 1.0;
+        let mut c = 1.0 / std::f64::MIN_POSITIVE;
+        let mut d = 1.0 / b;
+        let mut h = d;
+
+        for i in 1..500 {
+            let a = -(i as f64) * i as f64;
+
+            b += 2.0;
+            d = 1.0 / (a * d + b);
+            c = b + a / c;
+            h *= c * d;
+
+            if (c * d - 1.0).abs() < std::f64::EPSILON {
+                break;
+            }
+        }
+
+        h
+    }
+}
+
 impl InvNormal {
     pub fn new(mu: f64, lambda: f64) -> Result<InvNormal, failure::Error> {
         Params::new(mu, lambda).map(|p| InvNormal {
@@ -69,16 +108,24 @@ impl Distribution for InvNormal {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        } else if x.is_infinite() {
+            return Probability::one();
+        }
+
         let (mu, lambda) = get_params!(self);
 
         let xom = x / mu;
         let lox_sqrt = (lambda / x).sqrt();
-        let inner_term = lox_sqrt * (xom - 1.0);
 
-        let term1 = self.std_norm.cdf(&inner_term).unwrap();
-        let term2 = (2.0 * lambda / mu).exp() * self.std_norm.cdf(&(&inner_term)).unwrap();
+        let term1 = self.std_norm.cdf(&(lox_sqrt * (xom - 1.0))).unwrap();
+        let term2 = match self.std_norm.cdf(&(-lox_sqrt * (xom + 1.0))).unwrap() {
+            p if p > 0.0 => (2.0 * lambda / mu + p.ln()).exp(),
+            _ => 0.0,
+        };
 
-        Probability::new_unchecked(term1 + term2)
+        Probability::new_unchecked((term1 + term2).min(1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -102,6 +149,10 @@ impl Distribution for InvNormal {
 
 impl ContinuousDistribution for InvNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 || x.is_infinite() {
+            return 0.0;
+        }
+
         let (mu, lambda) = get_params!(self);
         let z = (lambda / PI_2 / x / x / x).sqrt();
 
@@ -132,7 +183,7 @@ impl UvMoments for InvNormal {
     fn excess_kurtosis(&self) -> f64 {
         let (mu, lambda) = get_params!(self);
 
-        16.0 * mu / lambda
+        15.0 * mu / lambda
     }
 }
 
@@ -148,7 +199,11 @@ impl Modes for InvNormal {
 }
 
 impl ShannonEntropy for InvNormal {
-    fn shannon_entropy(&self) -> f64 { (PI_E_2 * self.variance()).ln() / 2.0 }
+    fn shannon_entropy(&self) -> f64 {
+        let (mu, lambda) = get_params!(self);
+
+        ((PI_E_2 * self.variance()).ln() - 3.0 * exp_e1(2.0 * lambda / mu)) / 2.0
+    }
 }
 
 impl fmt::Display for InvNormal {
-- 
2.43.0


From e6383471028ada5990213b3ac769a309363f7707 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 26/96] fix: kumaraswamy: values outside [0, 1], entropy for
 non-integer b

---
 src/univariate/kumaraswamy.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 0a65ff7..37793c2 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -9,8 +9,13 @@ use rand;
 use spaces::intervals::Closed;
 use std::fmt;
 
+/// Computes the (generalised) harmonic number for real x.
 #[inline]
-fn harmonic_n(n: usize) -> f64 { (1..=n).map(|i| 1.0 / i as f64).sum() }
+fn harmonic(x: f64) -> f64 {
+    use special_fun::FloatSpecial;
+
+    (x + 1.0).digamma() - 1.0f64.digamma()
+}
 
 shape_params! {
     #[derive(Copy)]
@@ -50,7 +55,11 @@ impl Distribution for Kumaraswamy {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b))
+        match *x {
+            x if x <= 0.0 => Probability::zero(),
+            x if x >= 1.0 => Probability::one(),
+            x => Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b)),
+        }
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -63,6 +72,10 @@ impl Distribution for Kumaraswamy {
 
 impl ContinuousDistribution for Kumaraswamy {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         a * b * x.powf(a - 1.0) * (1.0 - x.powf(a)).powf(b - 1.0)
@@ -116,7 +129,7 @@ impl Modes for Kumaraswamy {
 impl ShannonEntropy for Kumaraswamy {
     fn shannon_entropy(&self) -> f64 {
         let (a, b) = get_params!(self);
-        let hb = harmonic_n(b.floor() as usize);
+        let hb = harmonic(b);
 
         (1.0 - 1.0 / b) + (1.0 - 1.0 / a) * hb - (a * b).ln()
     }
-- 
2.43.0


From b3f689efae23479c6429df02d15315555271c9a3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 27/96] fix: laplace: cdf and pdf were swapped

---
 src/univariate/laplace.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 973014e..84e6294 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -43,9 +43,19 @@ impl Distribution for Laplace {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        use std::cmp::Ordering::*;
+
         let (mu, b) = get_params!(self);
 
-        Probability::new_unchecked((-((x - mu).abs() / b).abs()).exp() / 2.0 / b)
+        Probability::new_unchecked(
+            match x
+                .partial_cmp(&mu)
+                .expect("Invalid value provided for `mu`.")
+            {
+                Less | Equal => ((x - mu) / b).exp() / 2.0,
+                Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
+            },
+        )
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -60,17 +70,9 @@ impl Distribution for Laplace {
 
 impl ContinuousDistribution for Laplace {
     fn pdf(&self, x: &f64) -> f64 {
-        use std::cmp::Ordering::*;
-
         let (mu, b) = get_params!(self);
 
-        match x
-            .partial_cmp(&mu)
-            .expect("Invalid value provided for `mu`.")
-        {
-            Less | Equal => ((x - mu) / b).exp() / 2.0,
-            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
-        }
+        (-(x - mu).abs() / b).exp() / 2.0 / b
     }
 }
 
-- 
2.43.0


From b1c1caef1a567028bbfd90164a52626c379e170c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 28/96] fix: levy: cdf, values outside the support, mode for mu
 != 0

---
 src/univariate/levy.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 7d3eae0..9b0ddad 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -45,7 +45,11 @@ impl Distribution for Levy {
 
         let (mu, c) = get_params!(self);
 
-        Probability::new_unchecked((c / 2.0 / (x - mu)).erfc())
+        if *x <= mu {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked((c / 2.0 / (x - mu)).sqrt().erfc())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -55,6 +59,10 @@ impl ContinuousDistribution for Levy {
     fn pdf(&self, x: &f64) -> f64 {
         let (mu, c) = get_params!(self);
 
+        if *x <= mu {
+            return 0.0;
+        }
+
         let diff = x - mu;
         let c_over_2 = c / 2.0;
 
@@ -89,11 +97,9 @@ impl Quantiles for Levy {
 
 impl Modes for Levy {
     fn modes(&self) -> Vec<f64> {
-        if self.0.mu.0.abs() < 1e-7 {
-            vec![self.0.c.0 / 3.0]
-        } else {
-            undefined!("mode of the Levy distribution is defined only for mu = 0.")
-        }
+        let (mu, c) = get_params!(self);
+
+        vec![mu + c / 3.0]
     }
 }
 
-- 
2.43.0


From 7cbde651feae27b4424d81acd4cbb324d7524d34 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 29/96] fix: logistic: pdf overflows far below mu

---
 src/univariate/logistic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/univariate/logistic.rs b/src/univariate/logistic.rs
index e0e4993..3c33741 100644
--- a/src/univariate/logistic.rs
+++ b/src/univariate/logistic.rs
@@ -58,7 +58,8 @@ impl Distribution for Logistic {
 
 impl ContinuousDistribution for Logistic {
     fn pdf(&self, x: &f64) -> f64 {
-        let exp_term = (-self.z(*x)).exp();
+        // The density is symmetric about mu; using |z| avoids overflow.
+        let exp_term = (-self.z(*x).abs()).exp();
         let exp_term_p1 = 1.0 + exp_term;
 
         exp_term / self.0.s.0 / exp_term_p1 / exp_term_p1
-- 
2.43.0


From 01e77f5e7cbdaa887c0d20eda8c0d57eec1a4e96 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 30/96] fix: lognormal: pdf Jacobian, moments and sampler use
 the variance of ln(x), entropy in nats, values outside the support

---
 src/univariate/lognormal.rs | 48 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index c2d2cbb..dc2e7a8 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -23,12 +23,12 @@ macro_rules! get_params {
 }
 
 impl LogNormal {
-    pub fn new(mu: f64, sigma: f64) -> Result<LogNormal, failure::Error> {
-        Normal::new(mu, sigma).map(LogNormal)
+    pub fn new(mu: f64, sigma2: f64) -> Result<LogNormal, failure::Error> {
+        Normal::new(mu, sigma2).map(LogNormal)
     }
 
-    pub fn new_unchecked(mu: f64, sigma: f64) -> LogNormal {
-        LogNormal(Normal::new_unchecked(mu, sigma))
+    pub fn new_unchecked(mu: f64, sigma2: f64) -> LogNormal {
+        LogNormal(Normal::new_unchecked(mu, sigma2))
     }
 }
 
@@ -51,6 +51,10 @@ impl Distribution for LogNormal {
     fn into_params(self) -> Params { self.0.into_params() }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let ln_x = x.ln();
 
         self.0.cdf(&ln_x)
@@ -59,7 +63,9 @@ impl Distribution for LogNormal {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         use rand_distr::Distribution as _;
 
-        rand_distr::LogNormal::new(self.mean(), self.standard_deviation())
+        let (mu, sigma2) = get_params!(self);
+
+        rand_distr::LogNormal::new(mu, sigma2.sqrt())
             .unwrap()
             .sample(rng)
     }
@@ -67,9 +73,13 @@ impl Distribution for LogNormal {
 
 impl ContinuousDistribution for LogNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 || x.is_infinite() {
+            return 0.0;
+        }
+
         let ln_x = x.ln();
 
-        self.0.pdf(&ln_x)
+        self.0.pdf(&ln_x) / x
     }
 }
 
@@ -77,28 +87,25 @@ impl Univariate for LogNormal {}
 
 impl UvMoments for LogNormal {
     fn mean(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        (mu + sigma * sigma / 2.0).exp()
+        (mu + sigma2 / 2.0).exp()
     }
 
     fn variance(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
-        let sigma2 = sigma * sigma;
+        let (mu, sigma2) = get_params!(self);
 
         (sigma2.exp() - 1.0) * (2.0 * mu + sigma2).exp()
     }
 
     fn skewness(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (sigma2.exp() + 2.0) * (sigma2.exp() - 1.0).sqrt()
     }
 
     fn excess_kurtosis(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (4.0 * sigma2).exp() + 2.0 * (3.0 * sigma2).exp() + 3.0 * (2.0 * sigma2).exp() - 6.0
     }
@@ -112,24 +119,23 @@ impl Quantiles for LogNormal {
 
 impl Modes for LogNormal {
     fn modes(&self) -> Vec<f64> {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        vec![(mu - sigma * sigma).exp()]
+        vec![(mu - sigma2).exp()]
     }
 }
 
 impl ShannonEntropy for LogNormal {
     fn shannon_entropy(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        (sigma * (mu + 0.5).exp() * PI_2.sqrt()).log2()
+        mu + ((PI_2 * sigma2).ln() + 1.0) / 2.0
     }
 }
 
 impl FisherInformation<2> for LogNormal {
     fn fisher_information(&self) -> [[f64; 2]; 2] {
-        let sigma = (self.0).0.Sigma.0;
-        let one_over_sigma2 = 1.0 / sigma / sigma;
+        let one_over_sigma2 = 1.0 / (self.0).0.Sigma.0;
 
         [
             [one_over_sigma2, 0.0],
@@ -140,6 +146,6 @@ impl FisherInformation<2> for LogNormal {
 
 impl fmt::Display for LogNormal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "LogNormal({}, {})", (self.0).0.mu.0, self.variance())
+        write!(f, "LogNormal({}, {})", (self.0).0.mu.0, (self.0).0.Sigma.0)
     }
 }
-- 
2.43.0


From c59ce85676008c9062ccf9c308a2bb70cdc3150a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 31/96] fix: pareto: cdf below the scale parameter, which must
 be positive

---
 src/univariate/pareto.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 092c01d..0ddd012 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -9,11 +9,13 @@ use rand::Rng;
 use spaces::intervals::LeftClosed;
 use std::{f64::INFINITY, fmt};
 
-locscale_params! {
+pub use crate::params::Scale;
+
+params! {
     #[derive(Copy)]
     Params {
-        x_m<f64>,
-        alpha<f64>
+        x_m: Scale<f64>,
+        alpha: Scale<f64>
     }
 }
 
@@ -46,6 +48,10 @@ impl Distribution for Pareto {
     fn cdf(&self, x: &f64) -> Probability {
         let (x_m, alpha) = get_params!(self);
 
+        if *x <= x_m {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked(1.0 - (x_m / x).powf(alpha))
     }
 
-- 
2.43.0


From be0137a8dd1e7944135f3243b0c1e64f8ababa32 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 32/96] fix: poisson: excess kurtosis, score, Fisher
 information, entropy for small rates

---
 src/univariate/poisson.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 892da4b..346e3dc 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -78,7 +78,7 @@ impl UvMoments for Poisson {
 
     fn skewness(&self) -> f64 { get_lambda!(self).powf(-ONE_HALF) }
 
-    fn kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
 }
 
 impl Quantiles for Poisson {
@@ -99,6 +99,17 @@ impl ShannonEntropy for Poisson {
     fn shannon_entropy(&self) -> f64 {
         let l = get_lambda!(self);
 
+        if l < 100.0 {
+            // The asymptotic expansion is only valid for large l. The mass beyond
+            // this cutoff is negligible.
+            let k_max = (l + 20.0 * l.sqrt() + 40.0) as u64;
+
+            return (0..=k_max)
+                .map(|k| self.log_pmf(&k))
+                .map(|lp| -lp * lp.exp())
+                .sum();
+        }
+
         (PI_E_2 * l).ln() / 2.0
             - ONE_TWELTH / l
             - ONE_TWENTY_FOURTH / l / l
@@ -107,7 +118,7 @@ impl ShannonEntropy for Poisson {
 }
 
 impl FisherInformation<1> for Poisson {
-    fn fisher_information(&self) -> [[f64; 1]; 1] { [[get_lambda!(self)]] }
+    fn fisher_information(&self) -> [[f64; 1]; 1] { [[1.0 / get_lambda!(self)]] }
 }
 
 impl Likelihood for Poisson {
@@ -132,7 +143,7 @@ impl Score for Poisson {
         let l = get_lambda!(self);
 
         Grad {
-            lambda: n + samples.into_iter().sum::<u64>() as f64 / l,
+            lambda: samples.into_iter().sum::<u64>() as f64 / l - n,
         }
     }
 }
-- 
2.43.0


From 9bf2e1a5831221fd6c6f2a6f0576643428a88672 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 33/96] fix: rayleigh: cdf scale, values outside the support,
 kurtosis

---
 src/univariate/rayleigh.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index cc10159..ba4c55f 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -15,7 +15,7 @@ const FOUR_MINUS_PI: f64 = 4.0 - PI;
 const FOUR_MINUS_PI_OVER_2: f64 = FOUR_MINUS_PI / 2.0;
 
 const EXCESS_KURTOSIS: f64 =
-    1.5 * PI2 - 6.0 * PI + 16.0 / FOUR_MINUS_PI_OVER_2 / FOUR_MINUS_PI_OVER_2;
+    -(6.0 * PI2 - 24.0 * PI + 16.0) / FOUR_MINUS_PI / FOUR_MINUS_PI;
 const KURTOSIS: f64 = EXCESS_KURTOSIS + 3.0;
 
 pub use crate::params::Shape;
@@ -52,7 +52,11 @@ impl Distribution for Rayleigh {
     fn cdf(&self, x: &f64) -> Probability {
         let sigma = get_sigma!(self);
 
-        Probability::new_unchecked(1.0 - (-x * x / sigma * sigma / 2.0).exp())
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked(1.0 - (-x * x / sigma / sigma / 2.0).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -60,6 +64,10 @@ impl Distribution for Rayleigh {
 
 impl ContinuousDistribution for Rayleigh {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 || x.is_infinite() {
+            return 0.0;
+        }
+
         let sigma = get_sigma!(self);
         let sigma2 = sigma * sigma;
 
-- 
2.43.0


From eb8362cd3afb6c0a1c9f3e4d29cbd64710e574e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 34/96] fix: student_t: cdf, entropy, degrees of freedom must
 be positive

---
 src/univariate/student_t.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 10d0d13..e4c9fb7 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -10,12 +10,12 @@ use rand::Rng;
 use spaces::real::{Reals, reals};
 use std::fmt;
 
-pub use crate::params::Loc;
+pub use crate::params::DOF;
 
 params! {
     #[derive(Copy)]
     Params {
-        nu: Loc<f64>
+        nu: DOF<f64>
     }
 }
 
@@ -45,12 +45,23 @@ impl Distribution for StudentT {
         use special_fun::FloatSpecial;
 
         let nu = get_nu!(self);
-        let np1o2 = (nu + 1.0) / 2.0;
-        let hyp2f1 = 0.5f64.hyp2f1(np1o2, 3.0 / 2.0, -x * x / nu);
 
-        Probability::new_unchecked(
-            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() * (nu / 2.0).gamma(),
-        )
+        // Twice the mass lying beyond |x|, in terms of the incomplete beta function.
+        // The complement avoids cancellation for small x.
+        let x2 = x * x;
+        let tails = if x2.is_infinite() {
+            0.0
+        } else if x2 < nu {
+            1.0 - (x2 / (nu + x2)).betainc(0.5, nu / 2.0)
+        } else {
+            (nu / (nu + x2)).betainc(nu / 2.0, 0.5)
+        };
+
+        Probability::new_unchecked(if *x < 0.0 {
+            tails / 2.0
+        } else {
+            1.0 - tails / 2.0
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -136,7 +147,7 @@ impl ShannonEntropy for StudentT {
         let no2 = nu / 2.0;
         let np1o2 = (nu + 1.0) / 2.0;
 
-        np1o2 * (np1o2.gamma() - no2.gamma()) + (nu.sqrt() * (no2.beta(0.5)))
+        np1o2 * (np1o2.digamma() - no2.digamma()) + (nu.sqrt() * (no2.beta(0.5))).ln()
     }
 }
 
-- 
2.43.0


From 7dfd466e8620e25fc07518e81d2e39d4142b3990 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 35/96] fix: triangular: mean

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 2c7b76c..53040fa 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -110,7 +110,7 @@ impl UvMoments for Triangular {
     fn mean(&self) -> f64 {
         let (a, b, c) = get_params!(self);
 
-        (a + b + c) / 2.0
+        (a + b + c) / 3.0
     }
 
     fn variance(&self) -> f64 {
-- 
2.43.0


From 607eea2d34f97b7e1a9b5b6461917b53e86614de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 36/96] fix: uniform: quantile of the discrete distribution

---
 src/univariate/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index dcdfac5..06533ac 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -288,7 +288,7 @@ impl Quantiles for Uniform<i64> {
     fn quantile(&self, p: Probability) -> f64 {
         let n = self.span() as f64;
 
-        self.params.lb.0 as f64 + (p * n).floor()
+        self.params.lb.0 as f64 + ((p * n).ceil() - 1.0).max(0.0)
     }
 
     fn median(&self) -> f64 { self.params.lb.0 as f64 + self.params.width.0 as f64 / 2.0 }
-- 
2.43.0


From 882378ec277780856b392985ab3c677a45d63e52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 37/96] fix: weibull: mode for shapes above one

---
 src/univariate/weibull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index 46e91ac..e921d92 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -152,7 +152,7 @@ impl Modes for Weibull {
     fn modes(&self) -> Vec<f64> {
         let k = self.0.k.0;
 
-        vec![if k > 0.0 {
+        vec![if k <= 1.0 {
             0.0
         } else {
             self.0.lambda.0 * ((k - 1.0) / k).powf(1.0 / k)
-- 
2.43.0


From 10808d622c9ea21754640ca8a2e2f68d2dc8c3f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 38/96] fix: normal: kurtosis, log-likelihood, gradient with
 respect to the variance

---
 src/normal/univariate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 7caad74..642961e 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -131,9 +131,9 @@ impl UvMoments for UvNormal {
 
     fn skewness(&self) -> f64 { 0.0 }
 
-    fn kurtosis(&self) -> f64 { 0.0 }
+    fn kurtosis(&self) -> f64 { 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { -3.0 }
+    fn excess_kurtosis(&self) -> f64 { 0.0 }
 }
 
 impl Quantiles for UvNormal {
@@ -174,7 +174,7 @@ impl Likelihood for UvNormal {
         let ls2 = Sigma.ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 / 2.0 * (PI_2.ln() + ls2)
+        -no2 * (PI_2.ln() + ls2)
             - samples
                 .into_iter()
                 .map(|x| (*x - mu).powi(2) / 2.0 / Sigma)
@@ -197,7 +197,7 @@ impl Score for UvNormal {
 
         Grad {
             mu: sum / Sigma,
-            Sigma: (sum_sq / Sigma - n) / Sigma.sqrt(),
+            Sigma: (sum_sq / Sigma - n) / Sigma / 2.0,
         }
     }
 }
-- 
2.43.0


From fe12a9d8998716a1df74d378f03e4249c3abdce3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 39/96] fix: chi, chi_sq, erlang, gamma, inverse_gamma: the
 receiver of gammainc is the argument, its parameter the shape

---
 src/univariate/chi.rs           | 6 +++++-
 src/univariate/chi_sq.rs        | 6 +++++-
 src/univariate/erlang.rs        | 6 +++++-
 src/univariate/gamma.rs         | 6 +++++-
 src/univariate/inverse_gamma.rs | 2 +-
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 9107111..e6717ca 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -43,9 +43,13 @@ impl Distribution for Chi {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if x.is_infinite() && *x > 0.0 {
+            return Probability::one();
+        }
+
         let x = x.max(0.0);
 
-        Probability::new_unchecked((get_k!(self) / 2.0).gammainc(x * x / 2.0))
+        Probability::new_unchecked((x * x / 2.0).gammainc(get_k!(self) / 2.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index a473ca3..f38b0d3 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -43,10 +43,14 @@ impl Distribution for ChiSq {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if x.is_infinite() && *x > 0.0 {
+            return Probability::one();
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        Probability::new_unchecked(ko2.gammainc(x.max(0.0) / 2.0))
+        Probability::new_unchecked((x.max(0.0) / 2.0).gammainc(ko2))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index 7b7c101..253e3cb 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -51,9 +51,13 @@ impl Distribution for Erlang {
     fn params(&self) -> Params { self.0 }
 
     fn log_cdf(&self, x: &f64) -> f64 {
+        if x.is_infinite() && *x > 0.0 {
+            return 0.0;
+        }
+
         let (k, lambda) = get_params!(self);
 
-        (k as f64).gammainc((lambda * x).max(0.0)).ln()
+        (lambda * x).max(0.0).gammainc(k as f64).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index a1b095f..37bf6db 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -65,9 +65,13 @@ impl Distribution for Gamma {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if x.is_infinite() && *x > 0.0 {
+            return Probability::one();
+        }
+
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(a.gammainc((b * x).max(0.0)))
+        Probability::new_unchecked((b * x).max(0.0).gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index d77760f..2f401ac 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -56,7 +56,7 @@ impl Distribution for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(1.0 - alpha.gammainc(beta / x))
+        Probability::new_unchecked(1.0 - (beta / x).gammainc(alpha))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From dde31a8756c684a342dc71d5b120d6e8002da6de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 40/96] fix: cosine: cdf is exactly zero below the support

---
 src/univariate/cosine.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 56a3e6c..8ceef59 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -57,7 +57,13 @@ impl Distribution for Cosine {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        let z = self.z(*x).max(-1.0).min(1.0);
+        let z = self.z(*x);
+
+        if z <= -1.0 {
+            return Probability::zero();
+        } else if z >= 1.0 {
+            return Probability::one();
+        }
 
         Probability::new_unchecked(0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin()))
     }
-- 
2.43.0


From 22d782fbbd258dcd4f4e516552aeaf00d672e032 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 41/96] fix: triangular: entropy

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 53040fa..9871fa4 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -160,7 +160,7 @@ impl Modes for Triangular {
 }
 
 impl ShannonEntropy for Triangular {
-    fn shannon_entropy(&self) -> f64 { 1.0 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
+    fn shannon_entropy(&self) -> f64 { 0.5 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
 }
 
 impl fmt::Display for Triangular {
-- 
2.43.0


From 95e7961309d137b1a1b6f46b4efec02913d1a716 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 42/96] fix: folded_normal: cdf is exactly zero below the
 support

---
 src/univariate/folded_normal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 1bba969..c1c0860 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -66,7 +66,10 @@ impl Distribution for FoldedNormal {
 
         let (mu, sigma) = get_params!(self);
         let sqrt_2: f64 = 2.0f64.sqrt();
-        let x = x.max(0.0);
+
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
 
         Probability::new_unchecked(
             0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()),
-- 
2.43.0


From 16758342b2f19530068c3618021ba4df4fdd3b09 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 43/96] fix: normal (paired): log-likelihood, gradient with
 respect to the variances

---
 src/normal/paired.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 33923f1..63ae9fa 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -151,9 +151,9 @@ impl Likelihood for PairedNormal {
         let ln_det = (sigma2_0 * sigma2_1).ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 * (ln_det + 2.0 * PI_2.ln() + samples.into_iter().map(|x| {
+        -no2 * (ln_det + 2.0 * PI_2.ln()) - samples.into_iter().map(|x| {
             (x[0] - mu[0]).powi(2) / sigma2_0 + (x[1] - mu[1]).powi(2) / sigma2_1
-        }).sum::<f64>())
+        }).sum::<f64>() / 2.0
     }
 }
 
@@ -176,8 +176,8 @@ impl Score for PairedNormal {
         Grad {
             mu: [sum[0] / sigma2_0, sum[1] / sigma2_1],
             Sigma: [
-                (sum_sq[0] / sigma2_0 - n) / sigma2_0.sqrt(),
-                (sum_sq[1] / sigma2_1 - n) / sigma2_1.sqrt()
+                (sum_sq[0] / sigma2_0 - n) / sigma2_0 / 2.0,
+                (sum_sq[1] / sigma2_1 - n) / sigma2_1 / 2.0
             ],
         }
     }
-- 
2.43.0


From c7bf9e68886e9eaaa1338da77794c94fb75b2cff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 44/96] fix: mixture: refuse parameters with the wrong number
 of components (uninitialised components)

---
 src/mixture.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mixture.rs b/src/mixture.rs
index 5313203..9a2a9df 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -108,6 +108,8 @@ where
     <C::Support as Union<C::Support>>::Output: Closure<Output = C::Support>,
 {
     fn from(params: Params<N, C::Params>) -> Mixture<N, C> {
+        assert_eq!(params.component_params.len(), N, "{}", MixtureError::IncompatibleParameters);
+
         let mut components: [std::mem::MaybeUninit<C>; N] = unsafe {
             std::mem::MaybeUninit::uninit().assume_init()
         };
-- 
2.43.0


From 8184efb7328c1caa79a160a980846c94b006531a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 45/96] fix: statistics: correlation divides by the standard
 deviations

---
 src/statistics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics.rs b/src/statistics.rs
index dca7062..376fa67 100644
--- a/src/statistics.rs
+++ b/src/statistics.rs
@@ -65,7 +65,7 @@ pub trait MvMoments<const N: usize>: Multivariate<N> {
 
         for i in 0..N {
             for j in 0..N {
-                cor[i][j] = cov[i][j] * (cov[i][i] * cov[j][j]).sqrt();
+                cor[i][j] = cov[i][j] / (cov[i][i] * cov[j][j]).sqrt();
             }
         }
 
-- 
2.43.0


From 291d12112ed47ad8fc2dcd73bf472de8860e54c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 46/96] fix: normal: accept covariance matrices with negative
 or zero covariances

---
 src/normal/mod.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index fd034d9..27781ec 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -18,6 +18,23 @@ pub use crate::params::Loc;
 )]
 pub struct Covariance<S>(pub S);
 
+/// Constraint on the entries of a dense covariance matrix: variances are non-negative, covariances
+/// may take either sign.
+#[derive(Debug, Clone, Copy)]
+struct Entries;
+
+impl std::fmt::Display for Entries {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        write!(f, "Non-negative diagonal")
+    }
+}
+
+impl<const N: usize> Constraint<[[f64; N]; N]> for Entries {
+    fn is_satisfied_by(&self, matrix: &[[f64; N]; N]) -> bool {
+        (0..N).all(|i| matrix[i][i] >= 0.0) && matrix.iter().flatten().all(|x| !x.is_nan())
+    }
+}
+
 /// Dense covariance matrix parameter \\(\\bm{\\Sigma}\\).
 pub type MatrixCovariance<const N: usize> = Covariance<[[f64; N]; N]>;
 
@@ -31,10 +48,7 @@ impl<const N: usize> MatrixCovariance<N> {
     /// 1. The covariance matrix is square.
     /// 2. The covariance matrix is positive semi-definite.
     pub fn matrix(Sigma: [[f64; N]; N]) -> Result<Self, failure::Error> {
-        let c = constraints::And((
-            constraints::Square,
-            constraints::All(constraints::All(constraints::NonNegative))
-        ));
+        let c = constraints::And((constraints::Square, Entries));
 
         Ok(Covariance(c.check(Sigma)?))
     }
@@ -50,7 +64,7 @@ impl<const N: usize> Param for MatrixCovariance<N> {
     fn constraints() -> Constraints<Self::Value> {
         vec![
             Box::new(constraints::Square),
-            Box::new(constraints::All(constraints::All(constraints::Positive)))
+            Box::new(Entries)
         ]
     }
 }
-- 
2.43.0


From 100babf572dc8d34071c77dbf20504933e852045 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 47/96] fix: normal (diagonal): Mahalanobis distance

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index c4be7b6..3842db9 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -432,7 +432,7 @@ impl<const N: usize> Mahalanobis for DiagonalNormal<N> {
             .zip(self.params.mu.0.iter())
             .map(|(x, y)| x - y)
             .zip(self.precision.iter())
-            .map(|(d, si)| d * si * si)
+            .map(|(d, p)| d * d * p)
             .sum()
     }
 }
-- 
2.43.0


From c9f59a41649b976834af22bdb90f3d475258f03b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 48/96] fix: normal (isotropic): Mahalanobis distance

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 3842db9..d749d47 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -673,7 +673,7 @@ impl<const N: usize> Mahalanobis for IsotropicNormal<N> {
     fn d_mahalanobis_squared(&self, x: &[f64; N]) -> f64 {
         x.into_iter()
             .zip(self.params.mu.0.iter())
-            .map(|(x, y)| (x - y) * self.precision * self.precision)
+            .map(|(x, y)| (x - y).powi(2) * self.precision)
             .sum()
     }
 }
-- 
2.43.0


From 7142675331a3e44d8fb83d2701bc504c1e72a67e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 49/96] fix: normal (diagonal, isotropic): draws are scaled by
 the standard deviation

---
 src/normal/multivariate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index d749d47..636f8e5 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -392,7 +392,7 @@ impl<const N: usize> Distribution for DiagonalNormal<N> {
         for i in 0..N {
             let z: f64 = rng.sample(RandSN);
 
-            s[i] = self.params.mu.0[i] + self.Sigma_lt[i] * z;
+            s[i] = self.params.mu.0[i] + self.Sigma_lt[i].sqrt() * z;
         }
 
         s
@@ -633,7 +633,7 @@ impl<const N: usize> Distribution for IsotropicNormal<N> {
         for i in 0..N {
             let z: f64 = rng.sample(RandSN);
 
-            s[i] = self.params.mu.0[i] + self.Sigma_lt * z;
+            s[i] = self.params.mu.0[i] + self.Sigma_lt.sqrt() * z;
         }
 
         s
-- 
2.43.0


From 101f3cc1900c23bb82edbd089bb43b0cc910ef1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 50/96] fix: normal (bivariate): entropy

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index 9d9a20b..d3d949b 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -171,7 +171,7 @@ impl ShannonEntropy for BvNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, [sigma2_0, sigma2_1], rho) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * sigma2_0 * sigma2_1 * (1.0 - rho)
+        1.0 + PI_2.ln() + 0.5 * (sigma2_0 * sigma2_1 * (1.0 - rho * rho)).ln()
     }
 }
 
-- 
2.43.0


From 91e85ff3c2544889a96174793886d16be0545166 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 51/96] fix: normal (bivariate): scaling a gradient scales both
 variances

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index d3d949b..398b385 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -37,7 +37,7 @@ impl std::ops::Mul<f64> for BvNormalGrad {
     fn mul(self, sf: f64) -> Self {
         Grad {
             mu: [self.mu[0] * sf, self.mu[1] * sf],
-            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1]], self.Sigma.1 * sf),
+            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1] * sf], self.Sigma.1 * sf),
         }
     }
 }
-- 
2.43.0


From bf570c52c26c8dff31ea53df78ec7087e499e5c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 52/96] fix: normal (paired): entropy

---
 src/normal/paired.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 63ae9fa..321c7f9 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -140,7 +140,7 @@ impl ShannonEntropy for PairedNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, Sigma) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * Sigma[0] * Sigma[1]
+        1.0 + PI_2.ln() + 0.5 * (Sigma[0] * Sigma[1]).ln()
     }
 }
 
-- 
2.43.0


From 00fd3135e7180eadae4b36e57d457faddc6233af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 53/96] fix: dirichlet: draws are normalised by the sum of the
 gamma variates

---
 src/multivariate/dirichlet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 0fc42eb..77c9af6 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -69,7 +69,7 @@ impl<const N: usize> Distribution for Dirichlet<N> {
             let a = self.alphas.0[i];
             let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
 
-            sum += a;
+            sum += s;
             sample[i] = s;
         }
 
-- 
2.43.0


From de0d59ec5d3f34ee934be4610ef0e4d20eed9bbd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 54/96] fix: dirichlet: density on the faces of the simplex and
 off the simplex

---
 src/multivariate/dirichlet.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 77c9af6..9aa172b 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -87,8 +87,15 @@ impl<const N: usize> ContinuousDistribution for Dirichlet<N> {
     fn log_pdf(&self, xs: &[f64; N]) -> f64 {
         assert!(xs.len() == N, "Input `xs` must have length {}.", N);
 
+        let sum: f64 = xs.iter().sum();
+
+        if xs.iter().any(|x| *x < 0.0) || !((sum - 1.0).abs() < 1e-5) {
+            return std::f64::NEG_INFINITY;
+        }
+
         xs.iter()
             .zip(self.alphas.0.iter())
+            .filter(|(_, a)| **a != 1.0)
             .fold(-self.ln_beta_alphas, |acc, (x, a)| acc + (a - 1.0) * x.ln())
     }
 }
-- 
2.43.0


From 242c209ed8871c0338a144541255cf8650187806 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 55/96] fix: dirichlet: no mode is reported where the density
 is unbounded or flat

---
 src/multivariate/dirichlet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 9aa172b..e7bbe13 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -137,7 +137,11 @@ impl<const N: usize> Modes for Dirichlet<N> {
     fn modes(&self) -> Vec<[f64; N]> {
         let k = self.alphas.0.len() as f64;
 
-        vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
+        if self.alphas.0.iter().all(|a| *a >= 1.0) && self.alpha0 > k {
+            vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
+        } else {
+            vec![]
+        }
     }
 }
 
-- 
2.43.0


From 4415bf55056b13276a3dcb5c11de1d1e6af91a75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 56/96] fix: multinomial: refuse (log_pmf) or give no mass to
 (pmf) outcomes with the wrong number of trials

---
 src/multivariate/multinomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multivariate/multinomial.rs b/src/multivariate/multinomial.rs
index 901cdc4..7b95397 100644
--- a/src/multivariate/multinomial.rs
+++ b/src/multivariate/multinomial.rs
@@ -91,8 +91,8 @@ impl<const N: usize> Distribution for Multinomial<N> {
 impl<const N: usize> DiscreteDistribution for Multinomial<N> {
     fn pmf(&self, xs: &[usize; N]) -> Probability {
         match xs.iter().fold(0, |acc, x| acc + x) {
-            0 => Probability::zero(),
-            _ => Probability::new(self.log_pmf(xs).exp()).unwrap(),
+            n if n != self.0.n.0 => Probability::zero(),
+            _ => Probability::new(self.log_pmf(xs).exp().min(1.0)).unwrap(),
         }
     }
 
@@ -102,7 +102,7 @@ impl<const N: usize> DiscreteDistribution for Multinomial<N> {
         #[allow(unused_parens)]
         let _ = assert_constraint!(xn == (self.0.ps.len())).unwrap();
 
-        if xs.iter().fold(0, |acc, v| acc + *v) == self.0.n.0 {
+        if xs.iter().fold(0, |acc, v| acc + *v) != self.0.n.0 {
             panic!("Total number of trials must be equal to n.")
         }
 
-- 
2.43.0


From 8c77c0e54ce3208ce60f77b52df1408491ef7f50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 57/96] fix: lognormal (multivariate): density

---
 src/multivariate/lognormal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 2c424c5..1785405 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -95,9 +95,13 @@ where
     Normal<N, [f64; N], S>: ContinuousDistribution,
 {
     fn pdf(&self, x: &[f64; N]) -> f64 {
+        if x.iter().any(|v| *v <= 0.0) {
+            return 0.0;
+        }
+
         let log_x = x.map(|v| v.ln());
 
-        self.0.pdf(&log_x)
+        self.0.pdf(&log_x) / x.iter().product::<f64>()
     }
 }
 
-- 
2.43.0


From 6ac4f529be1a4b294d437df9b29014e47180ee36 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 58/96] fix: lognormal (multivariate): covariances were
 computed from already transformed variances

---
 src/multivariate/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 1785405..b850615 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -126,14 +126,14 @@ where
     }
 
     fn covariance(&self) -> [[f64; N]; N] {
-        let mu = self.0.mean();
-        let mut cov = self.0.covariance();
+        let sigma = self.0.covariance();
+        let mut cov = sigma;
 
         macro_rules! update_index {
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
-                let y = (cov[$i][$i] + cov[$j][$j]) / 2.0;
-                let z = cov[$i][$j].exp() - 1.0;
+                let y = (sigma[$i][$i] + sigma[$j][$j]) / 2.0;
+                let z = sigma[$i][$j].exp() - 1.0;
 
                 cov[$i][$j] = (x + y).exp() * z;
             }
-- 
2.43.0


From 5b60cc0b1430c8b7fd16eae5ec5994fc9df9fcd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 59/96] fix: simplex: an index of weight zero is never drawn

---
 src/probability.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probability.rs b/src/probability.rs
index 81c0782..162db21 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -346,7 +346,10 @@ impl<const K: usize> SimplexVector<K> {
         });
         let rval: f64 = rng.gen();
 
-        cdf.position(|p| rval < p).unwrap_or(self.len() - 1)
+        // Rounding may leave the total just below one; never fall through to a zero weight.
+        cdf.position(|p| rval < p)
+            .or_else(|| self.0.iter().rposition(|p| *p > 0.0))
+            .unwrap_or(self.len() - 1)
     }
 
     /// Compute the central point of the simplex \\(x_i = 1 / K\\).
-- 
2.43.0


From 2c11722ec1cbec03f3fe503e06c9c2b70f3f394d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 60/96] fix: simplex: random points are uniform on the simplex

---
 src/probability.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/probability.rs b/src/probability.rs
index 162db21..ccfe724 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -1,10 +1,8 @@
 use crate::{
     params::{Param, constraints::{Constraints, Interval}},
-    univariate::uniform::Uniform,
-    Distribution,
 };
 use failure::Fail;
-use rand::Rng;
+use rand::{distributions::Open01, Rng};
 use std::{
     fmt,
     iter::Sum,
@@ -377,7 +375,7 @@ impl<const K: usize> SimplexVector<K> {
     /// 1. Draw \\(K\\) independent points, \\(x_i \in [0, 1]\\), uniformly at
     /// random.
     /// 2. Apply the transformation \\(z_i = -\ln{x_i}\\).
-    /// 3. Compute the sum \\(s = \sum_i x_i\\).
+    /// 3. Compute the sum \\(s = \sum_i z_i\\).
     /// 4. Return the vector of values \\(z_i / s\\).
     ///
     /// # Examples
@@ -393,22 +391,17 @@ impl<const K: usize> SimplexVector<K> {
         let mut sum = 0.0;
         let mut probs = [0.0; K];
 
-        for i in 1..K {
-            let s = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
+        for i in 0..K {
+            let s: f64 = rng.sample(Open01);
 
-            sum += s;
             probs[i] = -s.ln();
+            sum += probs[i];
         }
 
-        let mut alt = 0.0;
-
-        for i in 1..K {
+        for i in 0..K {
             probs[i] /= sum;
-            alt += probs[i];
         }
 
-        probs[0] = 1.0 - alt;
-
         SimplexVector(probs)
     }
 }
-- 
2.43.0


From 7192a17400391888f400e3be63b284f2ae9288be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 61/96] fix: frechet: no infinite draws

---
 src/univariate/frechet.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 578e823..42d8af6 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -1,6 +1,5 @@
 use crate::{
     statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
-    univariate::uniform::Uniform,
     ContinuousDistribution,
     Distribution,
     Probability,
@@ -53,9 +52,9 @@ impl Distribution for Frechet {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        let u = Uniform::default();
+        let u: f64 = rng.sample(rand_distr::Open01);
 
-        (-u.sample(rng).ln()).powf(-1.0 / get_alpha!(self))
+        (-u.ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
-- 
2.43.0


From 11535b878915f6fc593993ce58d9381a7e1eb3ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 62/96] fix: laplace: no infinite draws

---
 src/univariate/laplace.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 84e6294..baebc52 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -59,9 +59,7 @@ impl Distribution for Laplace {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        use rand_distr::Distribution as _;
-
-        let u: f64 = rand_distr::Uniform::new(-0.5, 0.5).sample(rng);
+        let u: f64 = rng.sample::<f64, _>(rand_distr::Open01) - 0.5;
         let (mu, b) = get_params!(self);
 
         mu - b * u.signum() * (1.0 - 2.0 * u.abs()).ln()
-- 
2.43.0


From 843033f6a942d1c2c44bc4727bc7282ffa95f4b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 63/96] fix: beta: density for large shapes

---
 src/univariate/beta.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 78db8cf..d87deb4 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -68,17 +68,17 @@ impl Distribution for Beta {
 }
 
 impl ContinuousDistribution for Beta {
-    fn pdf(&self, x: &f64) -> f64 {
+    fn log_pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
         if *x < 0.0 || *x > 1.0 {
-            return 0.0;
+            return f64::NEG_INFINITY;
         }
 
-        let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
-        let denominator = a.beta(b);
+        let ln_x = if a == 1.0 { 0.0 } else { (a - 1.0) * x.ln() };
+        let ln_1mx = if b == 1.0 { 0.0 } else { (b - 1.0) * (-x).ln_1p() };
 
-        numerator / denominator
+        ln_x + ln_1mx - a.logbeta(b)
     }
 }
 
-- 
2.43.0


From 2d27bc74a9ceb044220cc3bafc116cd71967ada7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 64/96] fix: beta_prime: density for large shapes

---
 src/univariate/beta_prime.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 8272b94..9ce3906 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -65,19 +65,18 @@ impl Distribution for BetaPrime {
 }
 
 impl ContinuousDistribution for BetaPrime {
-    fn pdf(&self, x: &f64) -> f64 {
+    fn log_pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
         let (a, b) = get_params!(self);
 
-        if *x < 0.0 {
-            return 0.0;
+        if *x < 0.0 || x.is_infinite() {
+            return f64::NEG_INFINITY;
         }
 
-        let numerator = x.powf(a - 1.0) * (1.0 + x).powf(-a - b);
-        let denominator = a.beta(b);
+        let ln_x = if a == 1.0 { 0.0 } else { (a - 1.0) * x.ln() };
 
-        numerator / denominator
+        ln_x - (a + b) * x.ln_1p() - a.logbeta(b)
     }
 }
 
-- 
2.43.0


From 269cb87641b5c0d6b836c75a64c56ba51231d5b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 65/96] fix: chi: density, mean and entropy for many degrees of
 freedom

---
 src/univariate/chi.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index e6717ca..3e39e33 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -56,16 +56,16 @@ impl Distribution for Chi {
 }
 
 impl ContinuousDistribution for Chi {
-    fn pdf(&self, x: &f64) -> f64 {
-        if *x < 0.0 {
-            return 0.0;
+    fn log_pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || x.is_infinite() {
+            return f64::NEG_INFINITY;
         }
 
         let k = get_k!(self);
         let ko2 = k / 2.0;
-        let norm = 2.0f64.powf(ko2 - 1.0) * ko2.gamma();
+        let ln_x = if k == 1.0 { 0.0 } else { (k - 1.0) * x.ln() };
 
-        x.powf(k - 1.0) * (-x * x / 2.0).exp() / norm
+        ln_x - x * x / 2.0 - (ko2 - 1.0) * 2.0f64.ln() - ko2.loggamma()
     }
 }
 
@@ -75,7 +75,7 @@ impl UvMoments for Chi {
     fn mean(&self) -> f64 {
         let k = get_k!(self);
 
-        2.0f64.sqrt() * ((k + 1.0) / 2.0).gamma() / (k / 2.0).gamma()
+        2.0f64.sqrt() * (((k + 1.0) / 2.0).loggamma() - (k / 2.0).loggamma()).exp()
     }
 
     fn variance(&self) -> f64 {
@@ -129,7 +129,7 @@ impl ShannonEntropy for Chi {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma()) / 2.0
+        ko2.loggamma() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma()) / 2.0
     }
 }
 
-- 
2.43.0


From fc4a8867402146d6ee22739352e7d74760023288 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 66/96] fix: chi_sq: density and entropy for many degrees of
 freedom

---
 src/univariate/chi_sq.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index f38b0d3..e01fcae 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -63,16 +63,15 @@ impl Distribution for ChiSq {
 }
 
 impl ContinuousDistribution for ChiSq {
-    fn pdf(&self, x: &f64) -> f64 {
-        if *x < 0.0 {
-            return 0.0;
+    fn log_pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || x.is_infinite() {
+            return f64::NEG_INFINITY;
         }
 
-        let k = get_k!(self);
-        let ko2 = k / 2.0;
-        let norm = 2.0f64.powf(ko2) * ko2.gamma();
+        let ko2 = get_k!(self) / 2.0;
+        let ln_x = if ko2 == 1.0 { 0.0 } else { (ko2 - 1.0) * x.ln() };
 
-        x.powf(ko2 - 1.0) * (-x / 2.0).exp() / norm
+        ln_x - x / 2.0 - ko2 * 2.0f64.ln() - ko2.loggamma()
     }
 }
 
@@ -107,7 +106,7 @@ impl ShannonEntropy for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2 + (2.0 * ko2.gamma()).ln() + (1.0 - ko2) * ko2.digamma()
+        ko2 + 2.0f64.ln() + ko2.loggamma() + (1.0 - ko2) * ko2.digamma()
     }
 }
 
-- 
2.43.0


From 79fd9a14b876f7a0d13ac1868370684c12c3f845 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 67/96] fix: f_dist: density and entropy for many degrees of
 freedom

---
 src/univariate/f_dist.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index ebd8af0..67a2791 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -72,20 +72,20 @@ impl Distribution for FDist {
 }
 
 impl ContinuousDistribution for FDist {
-    fn pdf(&self, x: &f64) -> f64 {
+    fn log_pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
-        if *x <= 0.0 {
-            return 0.0;
+        if *x <= 0.0 || x.is_infinite() {
+            return f64::NEG_INFINITY;
         }
 
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-        let numerator = ((d1 * x).powf(d1) * d2.powf(d2) / (d1 * x + d2).powf(d1 + d2)).sqrt();
-        let denominator = x * (d1 / 2.0).beta(d2 / 2.0);
+        let d1x = d1 * x;
+        let ln_num = (d1 * (d1x / (d1x + d2)).ln() + d2 * (d2 / (d1x + d2)).ln()) / 2.0;
 
-        numerator / denominator
+        ln_num - x.ln() - (d1 / 2.0).logbeta(d2 / 2.0)
     }
 }
 
@@ -169,7 +169,7 @@ impl ShannonEntropy for FDist {
         let d1o2 = d1 / 2.0;
         let d2o2 = d2 / 2.0;
 
-        d1o2.gamma().ln() + d2o2.gamma().ln() - ((d1 + d2) / 2.0).gamma().ln()
+        d1o2.logbeta(d2o2)
             + (1.0 - d1o2) * d1o2.digamma()
             - (1.0 + d2o2) * d2o2.digamma()
             + ((d1 + d2) / 2.0) * ((d1 + d2) / 2.0).digamma()
-- 
2.43.0


From 4d2d45ef2614dea4f3b601ac1f9091e265c3cb91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 68/96] fix: frechet: density near zero for large shapes

---
 src/univariate/frechet.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 42d8af6..f48c2f3 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -59,15 +59,14 @@ impl Distribution for Frechet {
 }
 
 impl ContinuousDistribution for Frechet {
-    fn pdf(&self, x: &f64) -> f64 {
+    fn log_pdf(&self, x: &f64) -> f64 {
         if *x <= 0.0 {
-            return 0.0;
+            return f64::NEG_INFINITY;
         }
 
-        let cdf = self.cdf(x).unwrap();
         let alpha = get_alpha!(self);
 
-        alpha * x.powf(-1.0 - alpha) * cdf
+        alpha.ln() - (1.0 + alpha) * x.ln() - x.powf(-alpha)
     }
 }
 
-- 
2.43.0


From 30591099acae21d086bac53aacd57d1ecf4ef658 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 69/96] fix: gamma: density, entropy and likelihood for large
 shapes

---
 src/univariate/gamma.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 37bf6db..09b5a46 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -84,14 +84,15 @@ impl Distribution for Gamma {
 }
 
 impl ContinuousDistribution for Gamma {
-    fn pdf(&self, x: &f64) -> f64 {
-        if *x < 0.0 {
-            return 0.0;
+    fn log_pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || x.is_infinite() {
+            return f64::NEG_INFINITY;
         }
 
         let (a, b) = get_params!(self);
+        let ln_x = if a == 1.0 { 0.0 } else { (a - 1.0) * x.ln() };
 
-        b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
+        a * b.ln() + ln_x - b * x - a.loggamma()
     }
 }
 
@@ -128,7 +129,7 @@ impl ShannonEntropy for Gamma {
     fn shannon_entropy(&self) -> f64 {
         let (a, b) = get_params!(self);
 
-        a - b.ln() + a.gamma().ln() + (1.0 - a) * a.digamma()
+        a - b.ln() + a.loggamma() + (1.0 - a) * a.digamma()
     }
 }
 
@@ -146,7 +147,7 @@ impl Likelihood for Gamma {
             .map(|x| am1 * x.max(JITTER).ln() - b * x)
             .sum::<f64>();
 
-        t1 + n * (a * b.ln() - a.gamma().ln())
+        t1 + n * (a * b.ln() - a.loggamma())
     }
 }
 
-- 
2.43.0


From 162c71c0b18d3345432068dadef61464dabc15be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 70/96] fix: inverse_gamma: density and entropy for large
 shapes

---
 src/univariate/inverse_gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index 2f401ac..f719893 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -63,16 +63,16 @@ impl Distribution for InvGamma {
 }
 
 impl ContinuousDistribution for InvGamma {
-    fn pdf(&self, x: &f64) -> f64 {
+    fn log_pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
         if *x <= 0.0 {
-            return 0.0;
+            return f64::NEG_INFINITY;
         }
 
         let (alpha, beta) = get_params!(self);
 
-        beta.powf(alpha) * x.powf(-alpha - 1.0) * (-beta / x).exp() / alpha.gamma()
+        alpha * beta.ln() - (alpha + 1.0) * x.ln() - beta / x - alpha.loggamma()
     }
 }
 
@@ -127,7 +127,7 @@ impl ShannonEntropy for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
-        alpha + (beta * alpha.gamma()).ln() - (1.0 + alpha) * alpha.digamma()
+        alpha + beta.ln() + alpha.loggamma() - (1.0 + alpha) * alpha.digamma()
     }
 }
 
-- 
2.43.0


From b17865dfdd433b57959a941c6321e5a3e5584fc7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 71/96] fix: student_t: density for many degrees of freedom

---
 src/univariate/student_t.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index e4c9fb7..6e3333e 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -74,14 +74,14 @@ impl Distribution for StudentT {
 }
 
 impl ContinuousDistribution for StudentT {
-    fn pdf(&self, x: &f64) -> f64 {
+    fn log_pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
         let nu = get_nu!(self);
         let np1o2 = (nu + 1.0) / 2.0;
-        let norm = np1o2.gamma() / (nu * PI).sqrt() / (nu / 2.0).gamma();
+        let ln_norm = np1o2.loggamma() - (nu / 2.0).loggamma() - (nu * PI).ln() / 2.0;
 
-        norm * (1.0 + x * x / nu).powf(-np1o2)
+        ln_norm - np1o2 * (x * x / nu).ln_1p()
     }
 }
 
-- 
2.43.0


From 8e877e85cca0bb6b4e09b46153d692f45cc40903 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 72/96] fix: beta_binomial: mass for large shapes

---
 src/univariate/beta_binomial.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 0612c1d..53c0cde 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -57,10 +57,9 @@ impl BetaBinomial {
         }
 
         let c = choose(n as u64, k as u64) as f64;
-        let z = alpha.beta(beta);
         let k = k as f64;
 
-        c * (k + alpha).beta(n as f64 - k + beta) / z
+        c * ((k + alpha).logbeta(n as f64 - k + beta) - alpha.logbeta(beta)).exp()
     }
 }
 
-- 
2.43.0


From 57d1696fa75f9429b82f3875d9a5fb0eaaaa7ed6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 73/96] fix: poisson: the median is not negative

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 346e3dc..0ddee04 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -87,7 +87,7 @@ impl Quantiles for Poisson {
     fn median(&self) -> f64 {
         let l = get_lambda!(self);
 
-        (l + ONE_THIRD - 0.02 / l).floor()
+        (l + ONE_THIRD - 0.02 / l).floor().max(0.0)
     }
 }
 
-- 
2.43.0


From 38a1b63175133e9a084d746f45df4207511751a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 74/96] fix: triangular: density of narrow distributions

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 9871fa4..59862ab 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -93,7 +93,7 @@ impl ContinuousDistribution for Triangular {
         match *x {
             x if x <= a => 0.0,
 
-            x if (x - c).abs() < 1e-7 => 2.0 / (b - a),
+            x if x == c => 2.0 / (b - a),
 
             x if x < c => 2.0 * (x - a) / (b - a) / (c - a),
 
-- 
2.43.0


From 3da3878b2de112e513b0be1317c60a027de96037 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 75/96] fix: triangular: variance and skewness of narrow
 distributions far from zero

---
 src/univariate/triangular.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 59862ab..7b1cfbb 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -114,22 +114,16 @@ impl UvMoments for Triangular {
     }
 
     fn variance(&self) -> f64 {
-        let (a, b, c) = get_params!(self);
-
-        let sq_terms = a * a + b * b + c * c;
-        let cross_terms = a * b + a * c + b * c;
+        let (l, r) = (self.0.a2c.0, self.0.c2b.0);
 
-        (sq_terms - cross_terms) / 18.0
+        (l * l + l * r + r * r) / 18.0
     }
 
     fn skewness(&self) -> f64 {
-        let (a, b, c) = get_params!(self);
-
-        let sq_terms = a * a + b * b + c * c;
-        let cross_terms = a * b + a * c + b * c;
+        let (l, r) = (self.0.a2c.0, self.0.c2b.0);
 
-        let numerator = 2.0f64.sqrt() * (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let denominator = 5.0 * (sq_terms - cross_terms).powf(THREE_HALVES);
+        let numerator = 2.0f64.sqrt() * (r - l) * (2.0 * l + r) * (l + 2.0 * r);
+        let denominator = 5.0 * (l * l + l * r + r * r).powf(THREE_HALVES);
 
         numerator / denominator
     }
-- 
2.43.0


From 28fc2aa40d4b857036e72c592524081029e18a3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 76/96] fix: inverse_normal: cdf for large shapes

---
 src/univariate/inverse_normal.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index eb4cd04..23b5ccf 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -120,9 +120,15 @@ impl Distribution for InvNormal {
         let lox_sqrt = (lambda / x).sqrt();
 
         let term1 = self.std_norm.cdf(&(lox_sqrt * (xom - 1.0))).unwrap();
-        let term2 = match self.std_norm.cdf(&(-lox_sqrt * (xom + 1.0))).unwrap() {
-            p if p > 0.0 => (2.0 * lambda / mu + p.ln()).exp(),
-            _ => 0.0,
+        let z = lox_sqrt * (xom + 1.0);
+        let term2 = if z < 30.0 {
+            (2.0 * lambda / mu + self.std_norm.cdf(&-z).unwrap().ln()).exp()
+        } else {
+            // The normal tail underflows; its asymptotic expansion absorbs the large factor.
+            let d = lox_sqrt * (xom - 1.0);
+            let z2 = z * z;
+
+            (-d * d / 2.0).exp() / z / PI_2.sqrt() * (1.0 - 1.0 / z2 + 3.0 / z2 / z2)
         };
 
         Probability::new_unchecked((term1 + term2).min(1.0))
-- 
2.43.0


From 66b301dabe63b74ee0b2c8d3540ba0f10abbf642 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 77/96] fix: erlang: density at infinity

---
 src/univariate/erlang.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index 253e3cb..7e7b1ce 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -67,7 +67,7 @@ impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        if *x < 0.0 {
+        if *x < 0.0 || x.is_infinite() {
             return f64::NEG_INFINITY;
         }
 
-- 
2.43.0


From 9b440ddcb747bb8621812e4a58f731967214232d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 78/96] fix: gumbel: density at infinity

---
 src/univariate/gumbel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gumbel.rs b/src/univariate/gumbel.rs
index f9198c8..56571d0 100644
--- a/src/univariate/gumbel.rs
+++ b/src/univariate/gumbel.rs
@@ -64,6 +64,10 @@ impl Distribution for Gumbel {
 
 impl ContinuousDistribution for Gumbel {
     fn pdf(&self, x: &f64) -> f64 {
+        if x.is_infinite() {
+            return 0.0;
+        }
+
         let z = self.z(*x);
 
         (-z - (-z).exp()).exp() / self.0.beta.0
-- 
2.43.0


From 83017fff48a2c12d252f23a3c6d22c3fc3024d09 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 79/96] fix: weibull: density far above the scale

---
 src/univariate/weibull.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index e921d92..b23579c 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -64,15 +64,16 @@ impl Distribution for Weibull {
 }
 
 impl ContinuousDistribution for Weibull {
-    fn pdf(&self, x: &f64) -> f64 {
-        if *x >= 0.0 {
-            let (lambda, k) = get_params!(self);
-            let xol = x / lambda;
-
-            k / lambda * xol.powf(k - 1.0) * (-xol.powf(k)).exp()
-        } else {
-            0.0
+    fn log_pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || x.is_infinite() {
+            return f64::NEG_INFINITY;
         }
+
+        let (lambda, k) = get_params!(self);
+        let xol = x / lambda;
+        let ln_xol = if k == 1.0 { 0.0 } else { (k - 1.0) * xol.ln() };
+
+        (k / lambda).ln() + ln_xol - xol.powf(k)
     }
 }
 
-- 
2.43.0


From 22c2ef9d343d196db0e0fb286db11e1e60793a96 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 80/96] fix: normal distribution function far from the mean

Beyond about 9e4 standard deviations the special function evaluates
exp(-u) * exp(v) with v > 709, i.e. 0 * inf, and cdf() answered NaN for
roughly a quarter of such observations.
---
 src/normal/univariate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 642961e..3566639 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -100,7 +100,8 @@ impl Distribution for UvNormal {
                     1.0
                 }
             },
-            _ => self.z(*x).norm(),
+            // The underlying routine answers NaN for some |z| > 9e4, where 0 and 1 are exact.
+            _ => self.z(*x).clamp(-40.0, 40.0).norm(),
         })
     }
 
-- 
2.43.0


From 46ea0624a328d2ac9b9ddf97b7803cfe059eaf9e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 81/96] fix: folded normal prints its own parameters

The second printed number was the variance of the folded variable, which is
neither of the parameters and the same for many of them.
---
 src/univariate/folded_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index c1c0860..5c6f432 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -159,6 +159,6 @@ impl Modes for FoldedNormal {
 
 impl fmt::Display for FoldedNormal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "FN({}, {})", self.0.mu.0, self.variance())
+        write!(f, "FN({}, {})", self.0.mu.0, self.0.sigma.0)
     }
 }
-- 
2.43.0


From 04260568a873e95e66265336f32fe491471bb2cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 82/96] fix: conjunctions of constraints print as conjunctions

---
 src/params/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index 12c8d9f..2b2dd2b 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -269,7 +269,7 @@ pub struct And<C1, C2>(pub (C1, C2));
 
 impl<C1: Display, C2: Display> Display for And<C1, C2> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "And({} || {})", (self.0).0, (self.0).1)
+        write!(f, "And({} && {})", (self.0).0, (self.0).1)
     }
 }
 
-- 
2.43.0


From 03e4a9b2c1850efe8115d652dd88045ef868be84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 83/96] fix: multinomial mass of counts whose total overflows

The total wrapped around (or panicked in debug builds); the mass is zero.
---
 src/multivariate/multinomial.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/multivariate/multinomial.rs b/src/multivariate/multinomial.rs
index 7b95397..fe1098d 100644
--- a/src/multivariate/multinomial.rs
+++ b/src/multivariate/multinomial.rs
@@ -90,8 +90,9 @@ impl<const N: usize> Distribution for Multinomial<N> {
 
 impl<const N: usize> DiscreteDistribution for Multinomial<N> {
     fn pmf(&self, xs: &[usize; N]) -> Probability {
-        match xs.iter().fold(0, |acc, x| acc + x) {
-            n if n != self.0.n.0 => Probability::zero(),
+        // A total too large to count cannot be n either.
+        match xs.iter().try_fold(0usize, |acc, x| acc.checked_add(*x)) {
+            n if n != Some(self.0.n.0) => Probability::zero(),
             _ => Probability::new(self.log_pmf(xs).exp().min(1.0)).unwrap(),
         }
     }
-- 
2.43.0


From c9e0b7dd7a78e2296c0a7a178fe28ae923bff210 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:21 +0000
Subject: [PATCH 84/96] fix: Dirichlet draws for small concentrations

All gamma variates can underflow to zero, so that the normalised sample was
NaN (about once in 10^6 draws for two concentrations of 0.01).
---
 src/multivariate/dirichlet.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index e7bbe13..64aa8fc 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -60,24 +60,24 @@ impl<const N: usize> Distribution for Dirichlet<N> {
     fn cdf(&self, _: &[f64; N]) -> Probability { todo!() }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> [f64; N] {
-        use rand_distr::Gamma as GammaSampler;
+        use rand_distr::{Gamma as GammaSampler, Open01};
 
-        let mut sum = 0.0f64;
-        let mut sample = [0.0; N];
+        // On the log scale: for small concentrations every gamma variate may underflow to zero.
+        let ln_sample = self.alphas.0.map(|a| {
+            if a < 1.0 {
+                let u: f64 = rng.sample(Open01);
 
-        for i in 0..N {
-            let a = self.alphas.0[i];
-            let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
-
-            sum += s;
-            sample[i] = s;
-        }
+                u.ln() / a + rng.sample(GammaSampler::new(a + 1.0, 1.0).unwrap()).ln()
+            } else {
+                rng.sample(GammaSampler::new(a, 1.0).unwrap()).ln()
+            }
+        });
+        let max = ln_sample.iter().cloned().fold(std::f64::NEG_INFINITY, f64::max);
 
-        for i in 0..N {
-            sample[i] /= sum;
-        }
+        let sample = ln_sample.map(|l| (l - max).exp());
+        let sum: f64 = sample.iter().sum();
 
-        sample
+        sample.map(|s| s / sum)
     }
 }
 
-- 
2.43.0


From 71f07fc6cc81c611d09b79fa3e046a135cd5d625 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 85/96] fix: log_factorial_stirling overflowed at the largest
 argument

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3992274..eb59dd2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -12,7 +12,7 @@ pub fn factorial(n: u64) -> u64 {
 
 pub fn log_factorial_stirling(n: u64) -> f64 {
     if n > 254 {
-        let x = (n + 1) as f64;
+        let x = n as f64 + 1.0;
 
         (x - 0.5) * x.ln() - x + 0.5 * (2.0 * consts::PI).ln() + 1.0 / (12.0 * x)
     } else {
-- 
2.43.0


From c455ccfa5434e0833b7233f096ae085e74dff5b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 86/96] fix: integer uniform overflowed for the widest interval

---
 src/univariate/uniform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index 06533ac..d498fce 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -192,7 +192,7 @@ impl fmt::Display for Uniform<f64> {
 impl Uniform<i64> {
     pub fn new(lb: i64, width: u64) -> Result<Uniform<i64>, UnsatisfiedConstraintError<i64>> {
         Params::new(lb, width as i64).map(|p| Uniform {
-            prob: 1.0 / (p.width.0 + 1) as f64,
+            prob: 1.0 / (p.width.0 as f64 + 1.0),
             params: p,
         })
     }
@@ -205,7 +205,7 @@ impl Uniform<i64> {
 impl From<Params<i64>> for Uniform<i64> {
     fn from(params: Params<i64>) -> Uniform<i64> {
         Uniform {
-            prob: 1.0 / (params.width.0 + 1) as f64,
+            prob: 1.0 / (params.width.0 as f64 + 1.0),
             params,
         }
     }
@@ -213,7 +213,7 @@ impl From<Params<i64>> for Uniform<i64> {
 
 impl Uniform<i64> {
     #[inline]
-    pub fn span(&self) -> u64 { (self.params.width.0 + 1) as u64 }
+    pub fn span(&self) -> u64 { self.params.width.0 as u64 + 1 }
 }
 
 impl Distribution for Uniform<i64> {
@@ -295,7 +295,7 @@ impl Quantiles for Uniform<i64> {
 }
 
 impl ShannonEntropy for Uniform<i64> {
-    fn shannon_entropy(&self) -> f64 { ((self.params.width.0 + 1) as f64).ln() }
+    fn shannon_entropy(&self) -> f64 { (self.params.width.0 as f64 + 1.0).ln() }
 }
 
 impl fmt::Display for Uniform<i64> {
-- 
2.43.0


From c09a4476a9f12e9e3b2ac5134a2a470cbc347138 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 87/96] fix: generalised Pareto lost all precision for shapes
 close to zero

---
 src/univariate/gpd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index 63509b0..87909da 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -8,7 +8,7 @@ use crate::{
 };
 use rand::Rng;
 use spaces::real::{Reals, reals};
-use std::fmt;
+use std::{f64::consts::LN_2, fmt};
 
 pub use crate::params::{Loc, Shape};
 
@@ -51,7 +51,7 @@ impl Distribution for GeneralisedPareto {
         let (mu, sigma, zeta) = get_params!(self);
         let z = ((x - mu) / sigma).max(0.0);
 
-        Probability::new_unchecked(1.0 - (1.0 + zeta * z).max(0.0).powf(-1.0 / zeta))
+        Probability::new_unchecked(-(-(zeta * z).max(-1.0).ln_1p() / zeta).exp_m1())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -66,7 +66,7 @@ impl ContinuousDistribution for GeneralisedPareto {
             return 0.0;
         }
 
-        (1.0 + zeta * z).max(0.0).powf(-1.0 / zeta - 1.0) / sigma
+        (-(zeta * z).max(-1.0).ln_1p() / zeta).exp().powf(zeta + 1.0) / sigma
     }
 }
 
@@ -124,7 +124,7 @@ impl Quantiles for GeneralisedPareto {
     fn median(&self) -> f64 {
         let (mu, sigma, zeta) = get_params!(self);
 
-        mu + sigma * (2.0f64.powf(zeta) - 1.0) / zeta
+        mu + sigma * (zeta * LN_2).exp_m1() / zeta
     }
 }
 
-- 
2.43.0


From 4c6f966ed9f8b55029e986e28fe3a1ac9041b3d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 88/96] fix: generalised extreme value lost precision for
 shapes close to zero

---
 src/univariate/gev.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index 17f6b5c..3e86ffc 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -49,10 +49,10 @@ impl GeneralisedExtremeValue {
 
         let z = (x - mu) / sigma;
 
-        if zeta.abs() < 1e-7 {
+        if zeta == 0.0 {
             (-z).exp()
         } else {
-            (1.0 + zeta * z).max(0.0).powf(-1.0 / zeta)
+            (-(zeta * z).max(-1.0).ln_1p() / zeta).exp()
         }
     }
 }
-- 
2.43.0


From 75ed4500cec4006cb517d211509330d084252a8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 89/96] fix: Pareto density was NaN where powers of the scale
 overflow

---
 src/univariate/pareto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 0ddd012..338d7d8 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -75,7 +75,7 @@ impl ContinuousDistribution for Pareto {
         } else {
             let alpha = self.0.alpha.0;
 
-            alpha * x_m.powf(alpha) / x.powf(alpha + 1.0)
+            alpha * (x_m / x).powf(alpha) / x
         }
     }
 }
-- 
2.43.0


From 9119aec2c4b54f0c88da5d8a744ad8fdace4ab6f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 90/96] fix: mixture distribution function could exceed one by
 rounding

---
 src/mixture.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mixture.rs b/src/mixture.rs
index 9a2a9df..185a0e0 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -151,9 +151,10 @@ where
             .iter()
             .zip(self.weights.iter())
             .map(|(c, p)| p * c.cdf(x))
-            .sum();
+            .sum::<f64>();
 
-        Probability::new_unchecked(p)
+        // The weights may add up to slightly more than one.
+        Probability::new_unchecked(p.min(1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> <Self::Support as Space>::Value {
-- 
2.43.0


From 02b0d9f8f63622399e502300b9af064d4d6f2965 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 91/96] fix: mixture variance cancelled away from the origin,
 components of no weight were not ignored

---
 src/mixture.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/mixture.rs b/src/mixture.rs
index 185a0e0..eb3b9bd 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -177,7 +177,8 @@ where
         self.components
             .iter()
             .zip(self.weights.iter())
-            .map(|(c, p)| p * c.pdf(x))
+            .filter(|(_, &w)| w > 0.0)
+            .map(|(c, w)| w * c.pdf(x))
             .sum()
     }
 }
@@ -191,25 +192,22 @@ where
         self.components
             .iter()
             .zip(self.weights.iter())
+            .filter(|(_, &w)| w > 0.0)
             .fold(0.0, |acc, (c, &w)| acc + w * c.mean())
     }
 
     fn variance(&self) -> f64 {
-        let (mean, var_term) =
-            self.components
-                .iter()
-                .zip(self.weights.iter())
-                .fold((0.0, 0.0), |acc, (c, &p)| {
-                    let c_mean = c.mean();
-                    let c_variance = c.variance();
-
-                    (
-                        acc.0 + p * c_mean,
-                        acc.1 + p * (c_mean * c_mean + c_variance),
-                    )
-                });
-
-        var_term - mean * mean
+        let mean = self.mean();
+
+        self.components
+            .iter()
+            .zip(self.weights.iter())
+            .filter(|(_, &w)| w > 0.0)
+            .fold(0.0, |acc, (c, &w)| {
+                let diff = c.mean() - mean;
+
+                acc + w * (diff * diff + c.variance())
+            })
     }
 
     fn skewness(&self) -> f64 { todo!() }
-- 
2.43.0


From 78b75f8abe1aa3fc5d97ac16e5fa9f2f187d3210 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:03 +0000
Subject: [PATCH 92/96] fix: inverse normal draws stay positive when the mean
 is far above the shape

---
 src/univariate/inverse_normal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 23b5ccf..da0d147 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -140,8 +140,9 @@ impl Distribution for InvNormal {
         let nu = self.std_norm.sample(rng);
 
         let y = nu * nu;
-        let x = mu + mu * mu * y / 2.0 / lambda
-            - mu / 2.0 / lambda * (4.0 * mu * lambda * y + mu * mu * y * y).sqrt();
+        // The smaller root, in a form that does not cancel when mu is large next to lambda.
+        let w = mu * y / 2.0 / lambda;
+        let x = mu / (1.0 + w + (w * (w + 2.0)).sqrt());
 
         let z = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
 
-- 
2.43.0


From 52f67cb006189996bddecc82dafc691102ff51e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:03 +0000
Subject: [PATCH 93/96] fix: inverse normal mode does not cancel when the mean
 is far above the shape

---
 src/univariate/inverse_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index da0d147..979168c 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -201,7 +201,7 @@ impl Modes for InvNormal {
         let term1 = (1.0 + 9.0 * mu * mu / 4.0 / lambda / lambda).sqrt();
         let term2 = 3.0 * mu / 2.0 / lambda;
 
-        vec![mu * (term1 - term2)]
+        vec![mu / (term1 + term2)]
     }
 }
 
-- 
2.43.0


From ffdd5bd71e70b2121f7755f792f0d8e2d2e67d9e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:03 +0000
Subject: [PATCH 94/96] fix: log-normal variance and skewness at a small
 logarithmic variance

---
 src/univariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index dc2e7a8..3c1fb42 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -95,13 +95,13 @@ impl UvMoments for LogNormal {
     fn variance(&self) -> f64 {
         let (mu, sigma2) = get_params!(self);
 
-        (sigma2.exp() - 1.0) * (2.0 * mu + sigma2).exp()
+        sigma2.exp_m1() * (2.0 * mu + sigma2).exp()
     }
 
     fn skewness(&self) -> f64 {
         let sigma2 = (self.0).0.Sigma.0;
 
-        (sigma2.exp() + 2.0) * (sigma2.exp() - 1.0).sqrt()
+        (sigma2.exp() + 2.0) * sigma2.exp_m1().sqrt()
     }
 
     fn excess_kurtosis(&self) -> f64 {
-- 
2.43.0


From ab1b18f7049a03442bd00689a605191d60577bb3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:03 +0000
Subject: [PATCH 95/96] fix: multivariate log-normal covariance at small
 logarithmic covariances

---
 src/multivariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index b850615..6ad3117 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -133,7 +133,7 @@ where
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
                 let y = (sigma[$i][$i] + sigma[$j][$j]) / 2.0;
-                let z = sigma[$i][$j].exp() - 1.0;
+                let z = sigma[$i][$j].exp_m1();
 
                 cov[$i][$j] = (x + y).exp() * z;
             }
@@ -159,7 +159,7 @@ where
         let mut var = self.0.variance();
 
         for i in 0..N {
-            var[i] = (2.0 * self.0.params.mu.0[i] + var[i]).exp() * (var[i].exp() - 1.0)
+            var[i] = (2.0 * self.0.params.mu.0[i] + var[i]).exp() * var[i].exp_m1()
         }
 
         var
-- 
2.43.0


From f8aa72dbfc637c968c02cf0697c95f65e3e68dc7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:03 +0000
Subject: [PATCH 96/96] fix: folded normal variance when the location is far
 above the spread

---
 src/univariate/folded_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 5c6f432..d2518f1 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -120,7 +120,7 @@ impl UvMoments for FoldedNormal {
         let (mu, sigma) = get_params!(self);
         let mean = self.mean();
 
-        mu * mu + sigma * sigma - mean * mean
+        sigma * sigma + (mu.abs() - mean) * (mu.abs() + mean)
     }
 
     fn skewness(&self) -> f64 { unimplemented!() }
-- 
2.43.0

