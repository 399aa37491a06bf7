From d2419c6b1a67ad4d3683ca103348dd675405cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 1/6] fix: DETAIL recomputes cached terms whenever composition
 or temperature changed

A change of a mole fraction or of the temperature by no more than 1e-7 was ignored, while the remembered
value moved along with it, so results depended on earlier calls and could drift without bound.
---
 src/detail.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 16f130c..f2a4252 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1017,7 +1017,7 @@ impl Detail {
         let mut icheck = 0;
 
         for (i, x) in self.x.iter().enumerate() {
-            if (x - self.xold[i]).abs() > 0.000_000_1 {
+            if *x != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = *x;
@@ -1214,7 +1214,7 @@ impl Detail {
                 self.ar[i][j] = 0.0;
             }
         }
-        if (self.t - self.told).abs() > 0.000_000_1 {
+        if self.t != self.told {
             for (i, item) in UN.iter().enumerate() {
                 self.tun[i] = self.t.powf(-item);
             }
-- 
2.43.0


From afe471dfdbbba6522c20a195d31b9e59ed2b547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 2/6] fix: GERG recomputes cached terms whenever composition or
 temperature changed

A change of a mole fraction or of the temperature by no more than 1e-7 was ignored, while the remembered
value moved along with it, so results depended on earlier calls and could drift without bound.
---
 src/gerg2008.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index cf12404..d98f7e0 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4425,7 +4425,7 @@ impl Gerg2008 {
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
         for i in 1..=NC_GERG {
-            if (self.x[i] - self.xold[i]).abs() > 0.000_000_1 {
+            if self.x[i] != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = self.x[i];
@@ -4546,7 +4546,7 @@ impl Gerg2008 {
         }
 
         // If temperature has changed, calculate temperature dependent parts
-        if (self.t - self.told).abs() > 0.000_000_1 || (tr - self.trold2).abs() > 0.000_000_1 {
+        if self.t != self.told || tr != self.trold2 {
             self.tterms(lntau);
         }
         self.told = self.t;
-- 
2.43.0


From 2d7e9b92c3565913e87a7537a7f7dfb18cf36d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 3/6] fix: GERG density with stability check succeeds for
 states that pass it

With iflag > 0 an iteration failure was returned for every converged state, stable or not.
---
 src/gerg2008.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index d98f7e0..bc3f0b7 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4362,8 +4362,8 @@ impl Gerg2008 {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
                                 self.d = self.p / RGERG / self.t;
+                                return Err(DensityError::IterationFail);
                             }
-                            return Err(DensityError::IterationFail);
                         }
                         return Ok(()); // Iteration converged
                     }
-- 
2.43.0


From 921423e81addf944ab78227531d852dee2716711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 4/6] fix: composition check rejects a total that is not a
 number

---
 src/composition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/composition.rs b/src/composition.rs
index d436450..d325f1a 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -167,7 +167,7 @@ impl Composition {
         if (self.sum() - 0.0).abs() < 1.0e-10 {
             return Err(CompositionError::Empty);
         }
-        if (self.sum() - 1.0).abs() > 1.0e-2 {
+        if self.sum().is_nan() || (self.sum() - 1.0).abs() > 1.0e-2 {
             return Err(CompositionError::BadSum);
         }
         Ok(())
-- 
2.43.0


From c7798659cdaa8e76dfc6f57ce7a9d3198a2f9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 5/6] fix: normalize fails instead of writing zeros or NaN for
 an infinite or vanishing sum

---
 src/composition.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/composition.rs b/src/composition.rs
index d325f1a..1616e46 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -124,6 +124,11 @@ impl Composition {
         if sum > 0.0 {
             let factor = 1.0 / sum;
 
+            // An infinite sum has no proportions to keep, and the reciprocal of a subnormal one overflows
+            if sum.is_infinite() || factor.is_infinite() {
+                return Err(CompositionError::BadSum);
+            }
+
             self.methane *= factor;
             self.nitrogen *= factor;
             self.carbon_dioxide *= factor;
-- 
2.43.0


From f10f9777469f5a3aebdeabdeab9fb3dc3179cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 6/6] fix: density search ignores a leftover density that is
 not a number

NaN took the branch meant for negative guesses and made every later search fail.
---
 src/detail.rs   | 2 +-
 src/gerg2008.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index f2a4252..10ac4eb 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1309,7 +1309,7 @@ impl Detail {
             return Err(DensityError::PressureTooLow);
         }
         const TOLR: f64 = 0.000_000_1;
-        if self.d > -EPSILON {
+        if self.d > -EPSILON || self.d.is_nan() {
             self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
         } else {
             self.d = self.d.abs(); // If D<0, then use as initial estimate
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index bc3f0b7..af55dec 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4294,7 +4294,7 @@ impl Gerg2008 {
 
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
-        if self.d > -EPSILON {
+        if self.d > -EPSILON || self.d.is_nan() {
             self.d = self.p / RGERG / self.t;
             if iflag == 2 {
                 self.d = dcx * 3.0;
-- 
2.43.0

