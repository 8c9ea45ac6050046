From 9b1f0830cc02a4a7b15e8f75a98d83c55a9a03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:31 +0000
Subject: [PATCH 01/19] fix: Chebyshev II design through iirfilter_dyn requires
 rs, not rp

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 735d8e0..2e71af8 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -106,7 +106,7 @@ where
             cheb1ap_dyn(order, rp.unwrap())
         }
         FilterType::ChebyshevII => {
-            if rp.is_none() {
+            if rs.is_none() {
                 panic!(
                     "stopband attenuation (rs) must be provided to design an Chebyshev II filter."
                 );
-- 
2.43.0


From cc3d04bf42c00414c78c66969f6602fa0fc31578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:31 +0000
Subject: [PATCH 02/19] fix: cheby1_dyn and cheby2_dyn default to a lowpass
 filter, as documented

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 2e71af8..5bbbfba 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -364,7 +364,7 @@ where
         wn,
         Some(rp),
         None, // rs
-        btype,
+        btype.or(Some(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevI),
         analog,
         output,
@@ -516,7 +516,7 @@ where
         wn,
         None, // rp
         Some(rs),
-        btype,
+        btype.or(Some(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevII),
         analog,
         output,
-- 
2.43.0


From 68b48972acb4f6509b4916d9d8053365dfa04b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:38 +0000
Subject: [PATCH 03/19] fix: zpk2tf_dyn keeps the relative degree when zeros
 and poles differ in number

---
 sci-rs/src/signal/filter/design/zpk2tf.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2tf.rs b/sci-rs/src/signal/filter/design/zpk2tf.rs
index c4beebc..aaf257c 100644
--- a/sci-rs/src/signal/filter/design/zpk2tf.rs
+++ b/sci-rs/src/signal/filter/design/zpk2tf.rs
@@ -84,13 +84,16 @@ where
     let bv = poly2ba(b, z);
     let av = poly2ba(a, p);
 
+    // Both polynomials are in descending powers; when one of them has a lower degree, its leading
+    // coefficients are zero.
+    let degree = z.len().max(p.len());
     let mut b = vec![F::zero(); order + 1];
     bv.into_iter()
-        .zip(b.iter_mut())
+        .zip(b.iter_mut().skip(degree - z.len()))
         .for_each(|(bvi, bi)| *bi = bvi.real());
     let mut a = vec![F::zero(); order + 1];
     av.into_iter()
-        .zip(a.iter_mut())
+        .zip(a.iter_mut().skip(degree - p.len()))
         .for_each(|(avi, ai)| *ai = avi.real());
 
     BaFormatFilter { b, a }
-- 
2.43.0


From d2d75ec9c1656a43ddad70295bb5cc32b636c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 04/19] fix: zpk2sos_dyn handles minimal pairing (analog
 filters) with unpaired real roots

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 42 +++++++++++++++-------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6535170..c70df1a 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -169,20 +169,21 @@ where
         // Pair that pole with a zero
         if p1.im.is_zero() && p.iter().filter(|pi| pi.im.is_zero()).count() == 0 {
             // Special case (1): last remaining real pole
-            let sos_si = if matches!(pairing, ZpkPairing::Minimal) {
+            let sos_si = if !matches!(pairing, ZpkPairing::Minimal) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(
                     vec![z1, Complex::zero()],
                     vec![p1, Complex::zero()],
                     F::one(),
+                    analog,
                 )
-            } else if !z.is_empty() {
+            } else if z.iter().any(|zi| zi.im.is_zero()) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
-                single_zpksos_dyn(vec![z1], vec![p1], F::one())
+                single_zpksos_dyn(vec![z1], vec![p1], F::one(), analog)
             } else {
-                single_zpksos_dyn(Vec::new(), vec![p1], F::one())
+                single_zpksos_dyn(Vec::new(), vec![p1], F::one(), analog)
             };
             sos.push(sos_si);
         } else if p.len() + 1 == z.len()
@@ -195,7 +196,8 @@ where
             // We *must* pair with a complex zero
             let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Complex);
             let z1 = z.remove(z1_idx);
-            let sos_si = single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p1.conj()], F::one());
+            let sos_si =
+                single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p1.conj()], F::one(), analog);
             sos.push(sos_si);
         } else {
             let p2 = if p1.im.is_zero() {
@@ -215,24 +217,33 @@ where
 
             // Find closest zero
             if !z.is_empty() {
-                let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Any);
+                let mut z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Any);
+                if z[z1_idx].im.is_zero()
+                    && z.len() > 1
+                    && z.iter().filter(|zi| zi.im.is_zero()).count() == 1
+                {
+                    // A lone real zero can't be paired with another one; use a complex pair and
+                    // leave the real zero for a later section
+                    z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Complex);
+                }
                 let z1 = z.remove(z1_idx);
 
                 if !z1.im.is_zero() {
-                    let sos_si = single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p2], F::one());
+                    let sos_si =
+                        single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p2], F::one(), analog);
                     sos.push(sos_si);
                 } else if !z.is_empty() {
                     let z2_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                     let z2 = z.remove(z2_idx);
                     assert!(z2.im.is_zero());
-                    let sos_si = single_zpksos_dyn(vec![z1, z2], vec![p1, p2], F::one());
+                    let sos_si = single_zpksos_dyn(vec![z1, z2], vec![p1, p2], F::one(), analog);
                     sos.push(sos_si);
                 } else {
-                    let sos_si = single_zpksos_dyn(vec![z1], vec![p1, p2], F::one());
+                    let sos_si = single_zpksos_dyn(vec![z1], vec![p1, p2], F::one(), analog);
                     sos.push(sos_si);
                 }
             } else {
-                let sos_si = single_zpksos_dyn(vec![], vec![p1, p2], F::one());
+                let sos_si = single_zpksos_dyn(vec![], vec![p1, p2], F::one(), analog);
                 sos.push(sos_si);
             }
         }
@@ -283,7 +294,7 @@ where
 
 /// """Create one second-order section from up to two zeros and poles"""
 #[cfg(feature = "alloc")]
-fn single_zpksos_dyn<F>(z: Vec<Complex<F>>, p: Vec<Complex<F>>, k: F) -> Sos<F>
+fn single_zpksos_dyn<F>(z: Vec<Complex<F>>, p: Vec<Complex<F>>, k: F, analog: bool) -> Sos<F>
 where
     F: Float + RealField,
 {
@@ -295,5 +306,12 @@ where
             ba.a.len()
         );
     }
-    Sos::new([ba.b[0], ba.b[1], ba.b[2]], [ba.a[0], ba.a[1], ba.a[2]])
+    let mut section = Sos::new([ba.b[0], ba.b[1], ba.b[2]], [ba.a[0], ba.a[1], ba.a[2]]);
+    if analog {
+        // Coefficients of powers of s: a section of lower order has leading zeros
+        let unused = 2 - z.len().max(p.len());
+        section.b.rotate_right(unused);
+        section.a.rotate_right(unused);
+    }
+    section
 }
-- 
2.43.0


From 04854eb599f6195cd33c3520c175cf4ba883e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:29 +0000
Subject: [PATCH 05/19] fix: cplxreal_dyn sorts both halves of a run of equal
 real parts and returns real roots as real

---
 sci-rs/src/signal/filter/design/cplx.rs | 26 +++++--------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index e1ffaf4..dc5c8fd 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -70,9 +70,10 @@ where
     });
 
     // Split reals from conjugate pairs
-    let (zr, zc): (Vec<_>, Vec<_>) = z
+    let (mut zr, zc): (Vec<Complex<F>>, Vec<Complex<F>>) = z
         .iter()
         .partition(|zi| Float::abs(zi.im) <= tol * (*zi * *zi).sqrt().re);
+    zr.iter_mut().for_each(|zi| zi.im = F::zero());
 
     if zr.len() == z.len() {
         // Input is entirely real
@@ -126,26 +127,9 @@ where
     for i in 0..run_starts.len() {
         let start = run_starts[i];
         let stop = run_stops[i] + 1;
-        let mut chunk: Vec<(Complex<F>, Complex<F>)> = zp[start..stop]
-            .iter()
-            .cloned()
-            .zip(zn[start..stop].iter().cloned())
-            .collect();
-        chunk.sort_unstable_by(|a, b| {
-            match Float::abs(a.1.im).partial_cmp(&Float::abs(b.1.im)).unwrap() {
-                Ordering::Less => Ordering::Less,
-                Ordering::Greater => Ordering::Greater,
-                Ordering::Equal => a.0.im.partial_cmp(&b.0.im).unwrap(),
-            }
-        });
-        zp[start..stop]
-            .iter_mut()
-            .zip(zn[start..stop].iter_mut())
-            .zip(chunk.iter())
-            .for_each(|((zpi, zni), ci)| {
-                *zpi = ci.0;
-                *zni = ci.1;
-            })
+        for chunk in [&mut zp[start..stop], &mut zn[start..stop]] {
+            chunk.sort_unstable_by(|a, b| Float::abs(a.im).partial_cmp(&Float::abs(b.im)).unwrap());
+        }
     }
 
     // Check that negatives match positives
-- 
2.43.0


From 77c5e025e1aa002ebe00dfc454f124396dad324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:39 +0000
Subject: [PATCH 06/19] fix: autocorr_fast32 keeps the samples after the last
 full tile

---
 sci-rs/src/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 06cb0c0..95cc980 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -268,7 +268,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
             .zip(right.remainder().iter())
             .map(|(a, b)| a * b)
             .sum::<f32>();
-        *xi = left
+        *xi += left
             .zip(right)
             .map(|(left, right)| {
                 left.iter()
@@ -276,7 +276,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
                     .map(|(a, b)| a * b)
                     .sum::<f32>()
             })
-            .sum();
+            .sum::<f32>();
     }
 
     var
-- 
2.43.0


From 22d4436e8689cab1621e22084f8d8d8a332d865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:04 +0000
Subject: [PATCH 07/19] fix: fftconvolve in valid mode when the first input is
 the shorter one

---
 sci-rs/src/signal/convolve.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sci-rs/src/signal/convolve.rs b/sci-rs/src/signal/convolve.rs
index b527805..e6e594b 100644
--- a/sci-rs/src/signal/convolve.rs
+++ b/sci-rs/src/signal/convolve.rs
@@ -74,11 +74,8 @@ pub fn fftconvolve<F: Float + FftNum>(in1: &[F], in2: &[F], mode: ConvolveMode)
     match mode {
         ConvolveMode::Full => full_convolution,
         ConvolveMode::Valid => {
-            if n1 >= n2 {
-                full_convolution[(n2 - 1)..(n1)].to_vec()
-            } else {
-                Vec::new()
-            }
+            let (short, long) = (n1.min(n2), n1.max(n2));
+            full_convolution[(short - 1)..long].to_vec()
         }
         ConvolveMode::Same => {
             let start = (n2 - 1) / 2;
-- 
2.43.0


From 41e710bf580f203f725db913ca58dbd7cc82ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:05 +0000
Subject: [PATCH 08/19] fix: companion_dyn does not write out of bounds when
 given more than m coefficients

---
 sci-rs/src/linalg/companion.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 1abbd37..03371dc 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -29,9 +29,7 @@ where
         <DefaultAllocator as allocator::Allocator<Dyn, Dyn>>::Buffer<T>,
     >::zeros(m - 1, m - 1);
     for (i, t) in itr {
-        unsafe {
-            *m.get_unchecked_mut(i) = t;
-        }
+        m[i] = t;
     }
     m
 }
-- 
2.43.0


From 8c303c2a4fd89bdb05efb24a5a36ff55d57ff319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:05 +0000
Subject: [PATCH 09/19] fix: comb, comb_rep and perm do not overflow when the
 result fits

---
 sci-rs/src/special/combinatorics.rs | 43 +++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 68cac5c..dd44d00 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -128,21 +128,38 @@ where
     if k > n || n < Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    let m = n + Int::one();
-    let n_terms = (min(k, n - k) + Int::one()).to_usize().unwrap();
-    (1..n_terms).fold(Int::one(), |result, i| {
-        result * (m - Int::from_usize(i).unwrap()) / Int::from_usize(i).unwrap()
-    })
+    let terms = min(k, n - k);
+    let mut result = Int::one();
+    let mut i = Int::zero();
+    while i < terms {
+        // C(n, i + 1) = C(n, i) * (n - i) / (i + 1), divided first so that no intermediate value
+        // exceeds the result
+        let factor = n - i;
+        i = i + Int::one();
+        let divisor = gcd(result, i);
+        result = (result / divisor) * (factor / (i / divisor));
+    }
+    result
+}
+
+fn gcd<Int>(mut a: Int, mut b: Int) -> Int
+where
+    Int: PrimInt,
+{
+    while !b.is_zero() {
+        (a, b) = (b, a % b);
+    }
+    a
 }
 
 fn primint_comb_rep<Int>(n: Int, k: Int) -> Int
 where
     Int: PrimInt + FromPrimitive,
 {
-    if n + k == Int::zero() {
+    if n <= Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    primint_comb(n + k - Int::one(), k)
+    primint_comb(n - Int::one() + k, k)
 }
 
 fn primint_perm<Int>(n: Int, k: Int) -> Int
@@ -153,11 +170,13 @@ where
         return Int::zero();
     }
 
-    let start = (n - k + Int::one()).to_usize().unwrap();
-    let end = (n + Int::one()).to_usize().unwrap();
-    (start..end).fold(Int::one(), |result, val| {
-        result * Int::from_usize(val).unwrap()
-    })
+    let mut result = Int::one();
+    let mut i = Int::zero();
+    while i < k {
+        result = result * (n - i);
+        i = i + Int::one();
+    }
+    result
 }
 
 fn primint_stirling2<Int>(n: Int, k: Int) -> Int
-- 
2.43.0


From 04b224cbb4ef35ef039ea463cdfdbdf290655d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:34 +0000
Subject: [PATCH 10/19] fix: stirling2 does not recurse, which overflowed the
 stack and took exponential time

---
 sci-rs/src/special/combinatorics.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index dd44d00..3ce9376 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -198,7 +198,27 @@ where
         return Int::zero();
     }
 
-    k * primint_stirling2(n - Int::one(), k) + primint_stirling2(n - Int::one(), k - Int::one())
+    if k == Int::one() {
+        return Int::one();
+    }
+
+    // S(n, k) is the sum of all products of n - k factors taken from 1..=k. For k >= 2 this is at
+    // least 2^(n - k), so a larger difference exceeds every integer type.
+    const MAX_DIFFERENCE: usize = 128;
+    let difference = (n - k)
+        .to_usize()
+        .filter(|d| *d < MAX_DIFFERENCE)
+        .expect("attempt to compute a Stirling number that overflows");
+    let mut sums = [Int::zero(); MAX_DIFFERENCE];
+    sums[0] = Int::one();
+    let mut factor = Int::zero();
+    while factor < k {
+        factor = factor + Int::one();
+        for d in 1..=difference {
+            sums[d] = sums[d] + factor * sums[d - 1];
+        }
+    }
+    sums[difference]
 }
 
 #[cfg(test)]
-- 
2.43.0


From 96e5b18d655a49869b4fee4b0b4a6b7d472ba321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:35 +0000
Subject: [PATCH 11/19] fix: factorialk does not overflow when the step exceeds
 the range of the type

---
 sci-rs/src/special/factorial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/special/factorial.rs b/sci-rs/src/special/factorial.rs
index 3c4bccc..7ac593c 100644
--- a/sci-rs/src/special/factorial.rs
+++ b/sci-rs/src/special/factorial.rs
@@ -280,8 +280,11 @@ where
 
     let mut result = Int::one();
 
-    while start <= stop {
+    loop {
         result = result * start;
+        if stop - start < step {
+            break;
+        }
         start = start + step;
     }
     result
-- 
2.43.0


From 91a515ebe7ffdbb7470ecff8518e75c00db3d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:35 +0000
Subject: [PATCH 12/19] fix: resample keeps the mean when either length is one

---
 sci-rs/src/signal/resample.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/resample.rs b/sci-rs/src/signal/resample.rs
index 9296c1d..3bd0d69 100644
--- a/sci-rs/src/signal/resample.rs
+++ b/sci-rs/src/signal/resample.rs
@@ -46,7 +46,9 @@ pub fn resample<F: Float + FftNum>(x: &[F], n: usize) -> Vec<F> {
     let mut y = vec![Complex::zero(); n];
     let bins = std::cmp::min(x.len(), n);
     let half_spectrum = bins / 2;
-    y[..half_spectrum].copy_from_slice(&x[..half_spectrum]);
+    // The zero-frequency bin is always kept, also when there is no other one
+    let positive = half_spectrum.max(1).min(bins);
+    y[..positive].copy_from_slice(&x[..positive]);
     y[n - half_spectrum..].copy_from_slice(&x[x.len() - half_spectrum..]);
 
     // Compute iFFT of y
-- 
2.43.0


From fae36bda09ddf11e3dbead5b294134ee75083281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:35 +0000
Subject: [PATCH 13/19] fix: pad supports even and constant extension instead
 of panicking

---
 sci-rs/src/signal/filter/ext.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/ext.rs b/sci-rs/src/signal/filter/ext.rs
index 2665462..ae0a6dd 100644
--- a/sci-rs/src/signal/filter/ext.rs
+++ b/sci-rs/src/signal/filter/ext.rs
@@ -84,8 +84,26 @@ where
     }
 
     match padtype {
+        Pad::None => unreachable!(),
         Pad::Odd => (edge, odd_ext_dyn(x, edge, axis)),
-        _ => unreachable!(),
+        Pad::Even | Pad::Constant => {
+            // index of the original sample shown at position `i` of the extended axis
+            let source = |i: usize, len: usize| match padtype {
+                Pad::Even if i < edge => edge - i,
+                Pad::Even if i >= edge + len => 2 * (len - 1) - (i - edge),
+                _ => i.saturating_sub(edge).min(len - 1),
+            };
+            let (rows, columns) = shape;
+            let ext = match axis {
+                0 => OMatrix::<T, Dyn, Dyn>::from_fn(rows + 2 * edge, columns, |i, j| {
+                    x[(source(i, rows), j)]
+                }),
+                _ => OMatrix::<T, Dyn, Dyn>::from_fn(rows, columns + 2 * edge, |i, j| {
+                    x[(i, source(j, columns))]
+                }),
+            };
+            (edge, ext)
+        }
     }
 }
 
-- 
2.43.0


From 22a5450fb9429f7b4df200d3eee6145dd9b2d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:00 +0000
Subject: [PATCH 14/19] fix: Savitzky-Golay coefficients are solved by QR, the
 SVD was inaccurate for some windows

---
 sci-rs/src/signal/filter/savgol_filter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/signal/filter/savgol_filter.rs b/sci-rs/src/signal/filter/savgol_filter.rs
index b237131..609d9d6 100644
--- a/sci-rs/src/signal/filter/savgol_filter.rs
+++ b/sci-rs/src/signal/filter/savgol_filter.rs
@@ -131,9 +131,12 @@ where
 
     y[der] = (F::from_usize(factorial(der)).unwrap()) / del.powi(der as i32);
 
-    // Solve the system for the Savitsky-Golay FIR coefficients
-    let solve = lstsq::lstsq(&A, &y, F::from_f32(1e-9).unwrap()).unwrap();
-    solve.solution.data.into()
+    // Solve the system for the Savitsky-Golay FIR coefficients. The minimum norm solution comes
+    // from the QR decomposition of the transpose, which is insensitive to the scale of the rows;
+    // the iterations of an SVD may stop early on such badly scaled rows.
+    let qr = A.transpose().qr();
+    let solve = qr.r().tr_solve_upper_triangular(&y).unwrap();
+    (qr.q() * solve).data.into()
 }
 
 fn factorial(n: usize) -> usize {
-- 
2.43.0


From 71830131abadbc8771bfc72fca5e66062bd26788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 15/19] fix: companion_dyn rejects sizes below two instead of
 wrapping around

---
 sci-rs/src/linalg/companion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 03371dc..cce0d93 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -16,6 +16,7 @@ where
     I: Iterator<Item = B>,
     DefaultAllocator: Allocator<Dyn, Dyn>,
 {
+    assert!(m >= 2, "A companion matrix needs at least two coefficients");
     let mut itr = itr;
     let a0: T = *itr.next().expect("Invalid data length").borrow();
     let itr = itr
-- 
2.43.0


From 60c8a8ba8b422d0833a4a0cd263c1dfc39508b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:11 +0000
Subject: [PATCH 16/19] fix: bandpass zeros of Chebyshev II designs are exact
 conjugates in the default build too

---
 sci-rs/src/signal/filter/design/cplx.rs      | 19 +++++++++++++++++++
 sci-rs/src/signal/filter/design/lp2bp_zpk.rs |  8 ++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index dc5c8fd..fb5097a 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -151,6 +151,25 @@ where
     (zc, zr)
 }
 
+/// Principal square root. The root of a negative real is exactly imaginary, without the rounding
+/// error in the real part that a computation in polar form leaves.
+pub(super) fn sqrt_cplx<F>(z: Complex<F>) -> Complex<F>
+where
+    F: RealField + Float,
+{
+    if z.im == F::zero() && z.re < F::zero() {
+        let im = Float::sqrt(-z.re);
+        let im = if Float::is_sign_negative(z.im) {
+            -im
+        } else {
+            im
+        };
+        Complex::new(F::zero(), im)
+    } else {
+        z.sqrt()
+    }
+}
+
 #[cfg(feature = "alloc")]
 pub fn sort_cplx_dyn<F: ComplexField>(x: &mut [F]) {
     x.sort_unstable_by(|a, b| {
diff --git a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
index 35b9b66..eece02e 100644
--- a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
@@ -4,8 +4,8 @@ use num_traits::Float;
 
 #[cfg(feature = "alloc")]
 use super::{
-    relative_degree::relative_degree_dyn, FilterBandType, FilterOutputType, FilterType, Sos,
-    ZpkFormatFilter,
+    cplx::sqrt_cplx, relative_degree::relative_degree_dyn, FilterBandType, FilterOutputType,
+    FilterType, Sos, ZpkFormatFilter,
 };
 
 #[cfg(feature = "alloc")]
@@ -88,7 +88,7 @@ where
 
     let z_bp_t = z_lp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(|zi| (*zi, sqrt_cplx(zi.powi(2) - wo2)))
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
     let mut z_bp = z_bp_t
         .iter()
@@ -98,7 +98,7 @@ where
 
     let p_bp_t = p_lp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(|zi| (*zi, sqrt_cplx(zi.powi(2) - wo2)))
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
     let p_bp = p_bp_t
         .iter()
-- 
2.43.0


From 41cce2ed103073492183fd1ad987be2dac41ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:43 +0000
Subject: [PATCH 17/19] fix: the median's quick select no longer takes
 quadratic time and memory on ramps

The middle element is the minimum of every V-shaped signal, such as the
absolute deviations of a ramp from its median, and of what is left of it at
every level. median_absolute_deviation of 60 000 evenly spaced values took
5 GB; larger ones overflowed the stack.
---
 sci-rs/src/stats.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 95cc980..0cba0a7 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -19,7 +19,14 @@ where
         return *y[0].borrow();
     }
 
-    let pivot = y.get(n / 2).unwrap().borrow();
+    // Pivot on a scrambled index. Any index at a fixed fraction of the length is the minimum of
+    // some ordinary signal at every level, e.g. the middle of the deviations of a ramp from its
+    // median, so that only one value would be discarded at a time.
+    let scrambled = (n as u64)
+        .wrapping_mul(6364136223846793005)
+        .wrapping_add(1442695040888963407)
+        >> 33;
+    let pivot = y.get((scrambled % n as u64) as usize).unwrap().borrow();
     let lower = y
         .iter()
         .filter(|yi| *(*yi).borrow() < *pivot)
-- 
2.43.0


From 712892501c70482e2cd5be49bff188461512256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 18/19] fix: savgol_filter_dyn no longer allocates for the
 upper size hint

An iterator such as (0..usize::MAX).map(..).take_while(..) has an upper bound
of usize::MAX: the filter panicked with a capacity overflow.
---
 sci-rs/src/signal/filter/savgol_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/savgol_filter.rs b/sci-rs/src/signal/filter/savgol_filter.rs
index 609d9d6..abfbb6d 100644
--- a/sci-rs/src/signal/filter/savgol_filter.rs
+++ b/sci-rs/src/signal/filter/savgol_filter.rs
@@ -47,8 +47,8 @@ where
     fir.reverse();
 
     // Pad with nearest edge value
-    let size_hint = y.size_hint();
-    let mut data = Vec::with_capacity(size_hint.1.unwrap_or(size_hint.0));
+    // The upper bound may be far above the actual length
+    let mut data = Vec::with_capacity(y.size_hint().0);
     let mut y = y;
     let Some(nearest) = y.next() else {
         return vec![];
-- 
2.43.0


From 549b7f22db79025a10c25c2bbff1e27958c7169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 19/19] fix: Savitzky-Golay derivatives of order 21 and above
 no longer overflow

The factorial was an integer: 21! exceeds 64 bits (13! exceeds 32), which
panicked in debug builds and gave wrong coefficients in release builds.
---
 sci-rs/src/signal/filter/savgol_filter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/signal/filter/savgol_filter.rs b/sci-rs/src/signal/filter/savgol_filter.rs
index abfbb6d..4124032 100644
--- a/sci-rs/src/signal/filter/savgol_filter.rs
+++ b/sci-rs/src/signal/filter/savgol_filter.rs
@@ -129,7 +129,7 @@ where
             },
         );
 
-    y[der] = (F::from_usize(factorial(der)).unwrap()) / del.powi(der as i32);
+    y[der] = (F::from_f64(factorial(der)).unwrap()) / del.powi(der as i32);
 
     // Solve the system for the Savitsky-Golay FIR coefficients. The minimum norm solution comes
     // from the QR decomposition of the transpose, which is insensitive to the scale of the rows;
@@ -139,8 +139,9 @@ where
     (qr.q() * solve).data.into()
 }
 
-fn factorial(n: usize) -> usize {
-    (1..=n).product()
+// In floating point, as integers overflow from 21! on (13! where they have 32 bits)
+fn factorial(n: usize) -> f64 {
+    (1..=n).map(|i| i as f64).product()
 }
 
 #[cfg(test)]
-- 
2.43.0

