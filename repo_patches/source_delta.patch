From fad316cd699ef1bc939cb0e1362e7bfa55e6dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:54 +0000
Subject: [PATCH 01/30] fix: report malformed date text as an error instead of
 panicking

Reading a date with fewer than three parts indexed past the end of the list.
Very large numbers overflowed the day-number arithmetic.
Both now return an error, as do months and days outside their range.
---
 src/dates/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index 1447c0a..9df9633 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -106,6 +106,9 @@ impl FromStr for Date {
         // which would allow me to parse the string without any heap
         // access or intermediate objects.
         let ymd: Vec<&str> = s.split("-").collect();
+        if ymd.len() != 3 {
+            return Err(qm::Error::new(s))
+        }
 
         let mut array: [i32; 3] = [0; 3];
         for (i, elem) in array.iter_mut().enumerate() {
@@ -115,8 +118,12 @@ impl FromStr for Date {
             };
         }
 
-        // this call does no validation, so we check the resulting date
-        // before returning it
+        // this call does no validation, so we check the ranges of the numbers
+        // (large ones could overflow) and the resulting date before returning it
+        if array[0] < 0 || array[0] > 9999 || array[1] < 1 || array[1] > 12
+            || array[2] < 1 || array[2] > 31 {
+            return Err(qm::Error::new(s))
+        }
         let result = Date::from_ymd(array[0], array[1], array[2]);
         if !result.is_valid() {
             return Err(qm::Error::new(s))
-- 
2.43.0


From f0330d2affc0019da15be63a8053d9a7632f0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:54 +0000
Subject: [PATCH 02/30] fix: round fractional steps in a volatility calendar
 with no holiday weight

The step was truncated towards zero, so 2.9999 business days became two.
The documentation says steps round to the nearest integer.
---
 src/dates/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dates/calendar.rs b/src/dates/calendar.rs
index cf98ac1..974df38 100644
--- a/src/dates/calendar.rs
+++ b/src/dates/calendar.rs
@@ -550,7 +550,7 @@ impl Calendar for VolatilityCalendar {
 
         // Optimisation if the holiday weight is zero
         if self.holiday_weight < 1e-12 {
-            return self.calendar.step(from, step as i32, slip_forward)
+            return self.calendar.step_partial(from, step, slip_forward)
         }
  
         assert!(step == 0.0 || slip_forward == (step > 0.0)); 
-- 
2.43.0


From 2edac1416896e5957e987cc6d2880c931923e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:27 +0000
Subject: [PATCH 03/30] fix: use the right-hand rule when extrapolating to the
 right

---
 src/math/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index aca5724..7f4bb38 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -145,7 +145,7 @@ pub fn linear_interpolate_extrapolate<T : Interpolable<T> + Copy>(
                 left.extrapolate(points[0].1)
             }
         } else if i >= points.len() {
-            if left.is_natural() && n > 1 {
+            if right.is_natural() && n > 1 {
                 linear_interpolate(points[n-2], points[n-1], x)
             } else {
                 right.extrapolate(points[n-1].1)
@@ -296,7 +296,7 @@ impl<T : Interpolable<T> + Copy> Interpolate<T> for CubicSpline<T> {
                     self.inputs.left.extrapolate(self.inputs.points[0].1)
                 }
             } else if i >= n {
-                if self.inputs.left.is_natural() && n > 1 {
+                if self.inputs.right.is_natural() && n > 1 {
                     nr_splint(self.inputs.points[n-2], self.inputs.points[n-1],
                         self.second_deriv[n-2], self.second_deriv[n-1], x)
                 } else {
-- 
2.43.0


From 978b5e877d3a1353e296f42f1988eb81b5640ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:38 +0000
Subject: [PATCH 04/30] fix: finish the spline back-substitution at the left
 end when its slope is specified

---
 src/math/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 7f4bb38..c104174 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -404,7 +404,7 @@ fn nr_spline<T : Interpolable<T> + Copy>(
 
     // the backsubstitution loop of the tridiagonal algorithm
     y2[n-1] = (un - qn * u[n-2]) / (qn * y2[n-2] + 1.0);
-    for i in (1..n-1).rev() {
+    for i in (0..n-1).rev() {
         y2[i] = y2[i] * y2[i+1] + u[i];
     }
 }
-- 
2.43.0


From f0580972a73cf9dceb0ccef9b793586058e44ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:01 +0000
Subject: [PATCH 05/30] fix: allow a cubic spline with a single pillar instead
 of panicking

---
 src/math/interpolation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index c104174..6ec5a77 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -367,8 +367,10 @@ fn nr_spline<T : Interpolable<T> + Copy>(
     xy: &[(T, f64)], yp0: f64, ypn: f64, y2: &mut[f64]) {
 
     let n = xy.len();
-    assert!(n > 1);
     assert!(y2.len() == n);
+    if n < 2 {
+        return  // a single pillar has no slope or curvature
+    }
     let mut u = vec![0.0; n];
 
     // lower boundary condition -- either specified derivative or natural
-- 
2.43.0


From 32cf4b22d4b134c8639725da81a8fd70212ff122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:05 +0000
Subject: [PATCH 06/30] fix: price an at-the-money option with no variance at
 zero instead of NaN

---
 src/math/optionpricing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/math/optionpricing.rs b/src/math/optionpricing.rs
index f1e64c8..f345a63 100644
--- a/src/math/optionpricing.rs
+++ b/src/math/optionpricing.rs
@@ -47,6 +47,12 @@ impl Black76 {
 /// Calculates the internal d_plus and d_minus values needed for many of the
 /// Black Scholes formulae.
 fn d_plus_minus(log_moneyness: f64, sqrt_variance: f64) -> (f64, f64) {
+    // at the money with no variance left, the ratio would be undefined, but
+    // both terms of the option price are the same whatever we choose
+    if log_moneyness == 0.0 && sqrt_variance == 0.0 {
+        return (0.0, 0.0)
+    }
+
     let d_plus = log_moneyness / sqrt_variance + 0.5 * sqrt_variance;
     let d_minus = d_plus - sqrt_variance;
     (d_plus, d_minus)
-- 
2.43.0


From 06480798b680b1d9c005d745b92fc7467c2db6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 07/30] fix: scale the dividend yield by one plus the bump,
 like the dividends

---
 src/data/divstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index f1a45c8..03a0c33 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -113,7 +113,7 @@ impl DividendStream {
            div.bump_all_relative(one_plus_bump);
         }
 
-        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), bump))); 
+        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), one_plus_bump))); 
 
         DividendStream {
             dividends: bumped_divs,
-- 
2.43.0


From 24ae807dbd95496272187217a3e750061c77b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:13 +0000
Subject: [PATCH 08/30] fix: leave out dividends going ex on the base date
 itself

---
 src/data/divstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 03a0c33..16c8dd3 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -228,8 +228,8 @@ impl DividendBootstrap {
 
         for dividend in div_stream.dividends.iter() {
             let ex_date = dividend.ex_date;
-            if ex_date < base_date {
-                // quietly ignore dividends before the base date
+            if ex_date <= base_date {
+                // quietly ignore dividends up to and including the base date
                 continue;
             } else if ex_date < prev_ex_date {
                 return Err(qm::Error::new("Dividends not in ex date order"))
-- 
2.43.0


From ef5deb0f62360094059f56329b4c1521d46b0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:17 +0000
Subject: [PATCH 09/30] fix: report the cash dividends remaining after a date
 instead of NaN

---
 src/data/divstream.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 16c8dd3..2605f8f 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -288,7 +288,7 @@ impl DividendBootstrap {
                 discounted_cash;
             for acc in accumulation.iter_mut().rev() {
                 acc.discounted_cash_remaining = 
-                    final_discounted_cash - acc.discounted_cash_remaining;
+                    final_discounted_cash - acc.discounted_cash;
             }
         }
 
@@ -403,13 +403,13 @@ impl DividendBootstrap {
             // if we found it, return the remaining cash at this div
             Ok(i) => Ok(self.accumulation[i].discounted_cash_remaining),
 
-            // If we missed and it was after the last date, return zero.
-            // This also catches the case where there are no dividends
-            Err(i) => if i == self.accumulation.len() { Ok(0.0) } else {
+            // if we missed and it was before the base date, return the
+            // remaining cash at the base date, if there are any dividends
+            Err(0) => Ok(self.accumulation.first().map_or(0.0,
+                |acc| acc.discounted_cash_remaining)),
 
-                // otherwise, return the remaining cash at the next div
-                Ok(self.accumulation[i].discounted_cash_remaining)
-            }
+            // otherwise, return the remaining cash at the prev div
+            Err(i) => Ok(self.accumulation[i-1].discounted_cash_remaining)
         }
     }
 }
-- 
2.43.0


From 7969d3d95258fae7016bc9341261ba937b5f6a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:54 +0000
Subject: [PATCH 10/30] fix: take the forward variance between the two dates
 asked for

---
 src/data/volsurface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 48b2ced..df71b04 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -141,8 +141,8 @@ pub trait VolSurface : esd::Serialize + TypeId + Send + Sync + Debug {
             // at the from and to dates
             let from_forward = forward.interpolate(from.date())?;
             let to_forward = forward.interpolate(to.date())?;
-            let from_var = self.variance(from, to_forward)?;
-            let to_var = self.variance(from, from_forward)?;
+            let from_var = self.variance(from, from_forward)?;
+            let to_var = self.variance(to, to_forward)?;
             let fwd_atm_var = to_var - from_var;
             if fwd_atm_var < 0.0 {
                 return Err(qm::Error::new("Negative atm forward variance"))
-- 
2.43.0


From 2726a3994561ddb5bdd8be275e902d26e41a3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:59 +0000
Subject: [PATCH 11/30] fix: let a volatility surface read from JSON be written
 again

---
 src/data/volsurface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index df71b04..9614682 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -800,7 +800,7 @@ impl VolByProbabilityFlatSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<FlatSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityFlatSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
@@ -854,7 +854,7 @@ impl VolByProbabilityCubicSplineSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<CubicSplineSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityCubicSplineSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
-- 
2.43.0


From 3452d90f944ab34b47422c7d2df965d33673d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:04 +0000
Subject: [PATCH 12/30] fix: allow a flat-smile volatility surface to be read
 from JSON

---
 src/data/volsurface.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 9614682..61c3c06 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -250,6 +250,7 @@ pub fn get_registry() -> &'static TypeRegistry {
         static ref REG: TypeRegistry = {
             let mut reg = TypeRegistry::new();
             reg.insert("FlatVolSurface", BoxFnSeed::new(FlatVolSurface::from_serial));
+            reg.insert("VolByProbabilityFlatSmile", BoxFnSeed::new(VolByProbabilityFlatSmile::from_serial));
             reg.insert("VolByProbabilityCubicSplineSmile", BoxFnSeed::new(VolByProbabilityCubicSplineSmile::from_serial));
             reg.insert("ConstantExpiryTimeEvolution", BoxFnSeed::new(ConstantExpiryTimeEvolution::from_serial));
             reg.insert("RollingExpiryTimeEvolution", BoxFnSeed::new(RollingExpiryTimeEvolution::from_serial));
-- 
2.43.0


From f3f7cba96dc62f2c575b3a7bc05f2ea132edc236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:07 +0000
Subject: [PATCH 13/30] fix: give no variance on the base date of a surface
 with smiles instead of NaN

On the base date the volatility time is zero, so dividing the log-moneyness
by its square root gave infinities or NaN. The smile interpolation then
panicked or returned NaN. Keep the moneyness when there is no time left.
---
 src/data/volsurface.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 61c3c06..a11ba4d 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -674,15 +674,20 @@ impl<T: VolSmile + Clone> VolByProbability<T> {
         // sqrt(vol_time) as a substitute for atm_variance, effectively
         // pretending vol is one.
         let forward = self.input.forward.interpolate(date_time.date())?;
-        let normalised = to_normalised(strikes, forward, vol_time.sqrt());
 
         // It is not very efficient using two local vectors. Consider
         // refactoring to use one local vector, or even passing workspace
         // in. Profile first to see if it is worth the effort.
         let pillar_time = self.pillar_vol_times[pillar];
         let pillar_forward = self.pillar_forwards[pillar];
-        let adj_strikes = to_strikes(&normalised, pillar_forward,
-            pillar_time.sqrt()); 
+        let adj_strikes = if vol_time > 0.0 {
+            let normalised = to_normalised(strikes, forward, vol_time.sqrt());
+            to_strikes(&normalised, pillar_forward, pillar_time.sqrt())
+        } else {
+            // With no time left, normalised strikes are undefined (infinite
+            // or NaN), so just keep the moneyness.
+            strikes.iter().map(|s| s * pillar_forward / forward).collect::<Vec<_>>()
+        };
 
         // flat extrapolation in normalised strike space
         self.input.smiles[pillar].1.volatilities(&adj_strikes, &mut out)?;
-- 
2.43.0


From ebdcab533280eb48dad74726128d7a3eb207b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:55 +0000
Subject: [PATCH 14/30] fix: do not panic on rounding when stepping in a
 volatility calendar

A step whose size is the weight of a whole number of days can come out a
rounding error too large. The extra single step then overshot by slightly
more than one day, and the assertion on the overshoot failed.
---
 src/dates/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dates/calendar.rs b/src/dates/calendar.rs
index 974df38..701f9b6 100644
--- a/src/dates/calendar.rs
+++ b/src/dates/calendar.rs
@@ -593,7 +593,7 @@ impl Calendar for VolatilityCalendar {
 
             // the conservative stepping means we should always be on or
             // before the date we are aiming for, except when single stepping.
-            assert!(steps_needed >= -1.0);
+            assert!(steps_needed >= -1.0 - 1e-9);
         }
 
         // if we significantly overshot zero, use the closest of the two
-- 
2.43.0


From e350cab1ce9748c2e6a7126b8b932a48647c3b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:23 +0000
Subject: [PATCH 15/30] fix: displace the strike of an option in the same
 direction as the forward

---
 src/instruments/options.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 449b0e9..077c53b 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -114,7 +114,7 @@ impl VanillaOption {
         // For some div assumptions, we must displace the forward and strike.
         // (This errors for JumpDivs, which we do not currently handle.)
         let displacement = vol.displacement(self.expiry.date())?;
-        let k = strike + displacement;
+        let k = strike - displacement;
         let f = forward - displacement;
         if f < 0.0 {
             return Err(qm::Error::new("Negative forward"));
@@ -145,7 +145,11 @@ impl VanillaOption {
                 // between now and the val date. Whether this is the right thing to
                 // do depends on how forward valuation will be used. The first real
                 // use case should drive the behaviour.
+                // If the displaced strike is not positive, a call is certain to be
+                // exercised and a put is worthless.
                 let price = match self.put_or_call {
+                    PutOrCall::Put if k <= 0.0 => 0.0,
+                    PutOrCall::Call if k <= 0.0 => df * (f - k),
                     PutOrCall::Put => black76.put_price(df, f, k, sqrt_var),
                     PutOrCall::Call => black76.call_price(df, f, k, sqrt_var)
                 };
-- 
2.43.0


From 0f907fd46656fdca11c49332ec86618abd03efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:46 +0000
Subject: [PATCH 16/30] fix: list each forward only once for a yield curve

A forward used by two instruments was refetched twice after a yield bump.
The second refetch saved the bumped forward over the original one.
Restoring then left the bumped forward in place.
---
 src/risk/dependencies.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index 12719a4..1727013 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -151,7 +151,9 @@ impl DependencyContext for DependencyCollector {
             // this brace to avoid multiple mutable borrow
             let forward_ids = self.forward_id_from_credit_id.entry(
                 credit_id.to_string()).or_insert(Vec::<String>::new());
-            forward_ids.push(instrument.id().to_string());
+            if !forward_ids.iter().any(|id| id == instrument.id()) {
+                forward_ids.push(instrument.id().to_string());
+            }
         }
 
         // and add a dependency on this spot (this adds the instrument)
-- 
2.43.0


From def02f52fca93d92e1830dd1730278bd4ab3373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:52 +0000
Subject: [PATCH 17/30] fix: collect each fixing only once

Two instruments with the same fixing made a time bump past it fail with a
duplicate fixing error.
---
 src/risk/dependencies.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index 1727013..30d9021 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -167,8 +167,10 @@ impl DependencyContext for DependencyCollector {
     }
 
     fn fixing(&mut self, id: &str, date: DateTime) {
-        self.fixings.entry(id.to_string()).or_insert(Vec::new())
-            .push(date)
+        let fixings = self.fixings.entry(id.to_string()).or_insert(Vec::new());
+        if !fixings.contains(&date) {
+            fixings.push(date);
+        }
     }
 
 }
-- 
2.43.0


From 8b4e27cc40c7707d71f4ed36efe7daf6f7af8d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:58 +0000
Subject: [PATCH 18/30] fix: allow bumps of market data with no prefetched
 forward

An instrument that depends on spot alone, such as an equity, could not be
bumped, so its delta could not be calculated.
---
 src/risk/cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index c9625c8..76b868b 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -129,10 +129,11 @@ impl PricingContextPrefetch {
             } else {
                 return Err(qm::Error::new("Cannot find instrument"))
             }
-        } else {
-            return Err(qm::Error::new("Cannot find prefetched forward"))
         }
 
+        // If there is no prefetched forward, nothing we have prefetched can
+        // depend on what was bumped. For example, the instrument may only
+        // depend on spot.
         Ok(true)
     }
 }
-- 
2.43.0


From bf78fd7d93bef0fa137d84c0446103341c78809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:03 +0000
Subject: [PATCH 19/30] fix: allow Monte-Carlo bumps of market data that no
 path depends on

---
 src/models/blackdiffusion.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 352e041..4b3696d 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -223,11 +223,9 @@ impl BlackDiffusion {
                 self.correlated_gaussians.subview(Axis(2), *asset),
                 &self.substepping,
                 path)?;
+        }
 
-        } else {
-            return Err(qm::Error::new("Failed to find asset"))
-        }        
-
+        // If the asset is not found, none of the paths depend on it
         Ok(true)
     }
 
-- 
2.43.0


From 9cbf0454154c4b1a7ffdfc510725ebee9e831cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:17 +0000
Subject: [PATCH 20/30] fix: use the Cholesky root rather than its transpose

Correlated Gaussians did not have unit variance or the right correlation.
---
 src/models/blackdiffusion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 4b3696d..6f1b29b 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -340,9 +340,9 @@ pub fn fetch_correlated_gaussians(
     let rootd = Cholesky::new(correld).ok_or_else(|| qm::Error::new(
         "Correlation matrix is not positive semi-definite"))?;
 
-    // convert back to an Array2
+    // convert back to an Array2 (the slice is in column-major order)
     let root_slice = rootd.unpack().as_slice().to_vec();
-    let root = Array::from_shape_vec((n_assets, n_assets), root_slice)?;
+    let root = Array::from_shape_vec((n_assets, n_assets), root_slice)?.reversed_axes();
 
     // Use the standard library random number generator for now. (Look
     // at better generators such as Mersenne Twister, or better still
-- 
2.43.0


From e5933a942e52f2de9e5e9b36a6259e4efcd143e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:11 +0000
Subject: [PATCH 21/30] fix: treat a relative bump of a zero curve as zero

---
 src/data/curves.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index 4f08c6c..a945b41 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -272,6 +272,10 @@ impl RateCurve for RelativeBump {
     fn base_date(&self) -> Date {
         self.curve.base_date()
     }
+
+    fn is_zero(&self) -> bool {
+        self.curve.is_zero()
+    }
 }
 
 impl RelativeBump {
-- 
2.43.0


From 05e13d1b2c3b75ef9aca1f53351091cf45604b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:10 +0000
Subject: [PATCH 22/30] fix: read back a dividend stream with no cash dividends

---
 src/data/divstream.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 2605f8f..70843e5 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -8,6 +8,7 @@ use core::qm;
 use std::sync::Arc;
 use std::f64::NAN;
 use std::ops::Deref;
+use std::str::FromStr;
 use serde as sd;
 
 /// A dividend is a corporate action that pays shareholders an amount of cash.
@@ -80,9 +81,21 @@ impl Dividend {
 pub struct DividendStream {
     dividends: Vec<Dividend>,
     div_yield: RcRateCurve,
+    #[serde(deserialize_with = "date_or_nil")]
     last_cash_ex_date: Date
 }
 
+// There is no last cash ex date if there are no cash dividends
+fn date_or_nil<'de, D>(deserializer: D) -> Result<Date, D::Error>
+where D: sd::Deserializer<'de> {
+    let s: String = sd::Deserialize::deserialize(deserializer)?;
+    if s == Date::from_nil().to_string() {
+        Ok(Date::from_nil())
+    } else {
+        Date::from_str(&s).map_err(sd::de::Error::custom)
+    }
+}
+
 impl DividendStream {
     pub fn new(dividends: &[Dividend], div_yield: RcRateCurve) 
         -> DividendStream {
-- 
2.43.0


From ca5fbf8651a37fe752b201ef014937b2315e11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:27 +0000
Subject: [PATCH 23/30] fix: validate interpolation points read from JSON

---
 src/math/interpolation.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 6ec5a77..f03f775 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -220,7 +220,7 @@ impl<T : Interpolable<T> + Copy> FlyweightInterpolate<T>
 
 /// Non-flyweight linear interpolation. In this interpolator, the data is
 /// kept internally, and passed into the constructor.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize)]
 pub struct Linear<T> where T : Interpolable<T> {
     left: Extrap,
     right: Extrap,
@@ -246,6 +246,16 @@ impl<T : Interpolable<T> + Copy> Linear<T> {
     }
 }
 
+// The points are validated on load, just as they are on construction
+impl<'de, T> Deserialize<'de> for Linear<T>
+where T : Interpolable<T> + Deserialize<'de> + Copy {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: Deserializer<'de> {
+        let inputs = CubicSplineInputs::deserialize(deserializer)?;
+        Linear::new(&inputs.points, inputs.left, inputs.right).map_err(::serde::de::Error::custom)
+    }
+}
+
 /// Cubic spline interpolation is continuous up to the second derivative.
 /// It builds sections of cubic curves, based on matching first derivatives
 /// at the pillar points. It is therefore generally smoother than a simple
@@ -346,6 +356,7 @@ where T : Interpolable<T> + Deserialize<'de> + Copy {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where D: Deserializer<'de> {
         let inputs = CubicSplineInputs::deserialize(deserializer)?;
+        validate_abscissae(&inputs.points).map_err(::serde::de::Error::custom)?;
 
         let mut second_deriv = vec![0.0; inputs.points.len()];
         let deriv_0 = if inputs.left.is_natural() { INFINITY } else { 0.0 };
-- 
2.43.0


From 330e07e7183eacad7b48c17756fcf174d187a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:29 +0000
Subject: [PATCH 24/30] fix: refuse duplicate fixings read from JSON

---
 src/data/fixings.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/fixings.rs b/src/data/fixings.rs
index b39a259..0d8a8a7 100644
--- a/src/data/fixings.rs
+++ b/src/data/fixings.rs
@@ -165,7 +165,7 @@ pub struct Fixings {
 mod map_as_pairs {
     use std::fmt;
     use serde::ser::Serializer;
-    use serde::de::{Deserializer, Visitor, SeqAccess};
+    use serde::de::{Deserializer, Error, Visitor, SeqAccess};
     use std::collections::HashMap;
     use dates::datetime::DateTime;
 
@@ -197,7 +197,9 @@ mod map_as_pairs {
                 loop {
                     let next : Option<(DateTime, f64)> = seq.next_element()?;
                     if let Some((k, v)) = next {
-                        map.insert(k, v);
+                        if map.insert(k, v).is_some() {
+                            return Err(Error::custom(format!("Duplicate fixing at {}", k)))
+                        }
                     } else {
                         break;
                     }
-- 
2.43.0


From 807f6fab37c20b5305656dd391443d6c4e8b01b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:41 +0000
Subject: [PATCH 25/30] fix: refuse options read from JSON with strikes the
 constructor refuses

---
 src/instruments/options.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 077c53b..e3ab4ea 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -248,7 +248,11 @@ impl SpotStartingEuropean {
     }
 
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<Qrc<Instrument>, esd::Error> {
-        Ok(Qrc::new(Arc::new(SpotStartingEuropean::deserialize(de)?)))
+        let option = SpotStartingEuropean::deserialize(de)?;
+        if option.strike < 0.0 {
+            return Err(::serde::de::Error::custom("Strike must be greater or equal to zero"))
+        }
+        Ok(Qrc::new(Arc::new(option)))
     }
 }
 
@@ -278,7 +282,11 @@ impl ForwardStartingEuropean {
     }
 
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<Qrc<Instrument>, esd::Error> {
-        Ok(Qrc::new(Arc::new(ForwardStartingEuropean::deserialize(de)?)))
+        let option = ForwardStartingEuropean::deserialize(de)?;
+        if option.strike_fraction <= 0.0 {
+            return Err(::serde::de::Error::custom("Strike fraction must be greater than zero"))
+        }
+        Ok(Qrc::new(Arc::new(option)))
     }
 }
 
-- 
2.43.0


From e75fa399751bb2947b1530b9bda6fb6eac650374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:44 +0000
Subject: [PATCH 26/30] fix: refuse day fractions read from JSON that the
 constructor refuses

---
 src/dates/datetime.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dates/datetime.rs b/src/dates/datetime.rs
index d9bb2ea..864f17c 100644
--- a/src/dates/datetime.rs
+++ b/src/dates/datetime.rs
@@ -83,9 +83,20 @@ impl Display for DateTime {
 #[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Serialize, Deserialize)]
 pub struct DateDayFraction {
     date: Date,
+    #[serde(deserialize_with = "valid_day_fraction")]
     day_fraction: f64
 }
 
+fn valid_day_fraction<'de, D>(deserializer: D) -> Result<f64, D::Error>
+where D: ::serde::Deserializer<'de> {
+    let day_fraction: f64 = ::serde::Deserialize::deserialize(deserializer)?;
+    if day_fraction >= 0.0 && day_fraction < 1.0 {
+        Ok(day_fraction)
+    } else {
+        Err(::serde::de::Error::custom("Day fraction must be at least zero and less than one"))
+    }
+}
+
 impl DateDayFraction {
     pub fn new(date: Date, day_fraction: f64) -> DateDayFraction {
         assert!(day_fraction >= 0.0 && day_fraction < 1.0);
-- 
2.43.0


From 3e92c7537a7097abb2d3d6c11fca6c58b2134b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:09 +0000
Subject: [PATCH 27/30] fix: restore the deduplication state after a panic

---
 src/core/dedup.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/dedup.rs b/src/core/dedup.rs
index a58692a..72f4c0e 100644
--- a/src/core/dedup.rs
+++ b/src/core/dedup.rs
@@ -4,6 +4,7 @@ use std::cell::RefCell;
 use std::fmt;
 use std::fmt::Debug;
 use std::ops::Deref;
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::thread::LocalKey;
 use std::mem::swap;
 use std::marker::PhantomData;
@@ -46,7 +47,8 @@ where
             swap(&mut *s.borrow_mut(), self);
         });
 
-        let result = f();
+        // put the state back even if the closure panics, as the thread may carry on
+        let result = catch_unwind(AssertUnwindSafe(f));
 
         // by swapping in and out of our own member variables, we save the state of the
         // thread-local variable, as well as providing our own state to the serialize
@@ -55,7 +57,7 @@ where
             swap(&mut *s.borrow_mut(), self);
         });
 
-        result
+        result.unwrap_or_else(|panic| resume_unwind(panic))
     }
 
     pub fn control(&self) -> &DedupControl { &self.control }
-- 
2.43.0


From 3f9691cc5108246142f0e119da0735d99989e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:04 +0000
Subject: [PATCH 28/30] fix: keep interpolated trial points of the root finder
 inside the bracket

The bound on an interpolation step multiplied where it should have
subtracted, so a step could pass the end of the bracket and evaluate the
function outside it.
---
 src/math/brent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/brent.rs b/src/math/brent.rs
index db9c35f..4e3a7dc 100644
--- a/src/math/brent.rs
+++ b/src/math/brent.rs
@@ -69,7 +69,7 @@ pub fn zbrent<F>(x1: f64, x2: f64, tol: f64, max_iter: u32, func: &mut F)
                 q = -q;
             }
             p = p.abs();
-            let min1 = 3.0 * xm * q * (tol1 - q).abs();
+            let min1 = 3.0 * xm * q - (tol1 * q).abs();
             let min2 = (e * q).abs();
             if 2.0 * p < min1.min(min2) {
                 // accept interpolation
-- 
2.43.0


From efd62a4db8815e5e9fb229892dc6a4051d791863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:48 +0000
Subject: [PATCH 29/30] fix: report an error instead of aborting when
 Monte-Carlo needs too many substeps

---
 src/models/blackdiffusion.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 6f1b29b..2af53f9 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -299,14 +299,24 @@ pub fn fetch_correlated_gaussians(
     n_paths: usize) -> Result<Array3<f64>, qm::Error> {
 
     // calculate how many substeps we need altogether
-    let n_steps = substepping.iter().sum();
+    let n_steps = substepping.iter().fold(Some(0_usize), |sum, n|
+        sum.and_then(|sum| sum.checked_add(*n))).ok_or_else(|| qm::Error::new(
+        "Too many substeps"))?;
     assert!(n_steps > 0);
 
     // create a 3d tensor indexed by path, then observation, then asset
     let n_assets = instruments.len();
     assert!(n_assets > 0);
     assert!(n_paths > 0);
-    let mut result = Array3::<f64>::zeros((n_paths, n_steps, n_assets));
+
+    // the number of substeps depends on the vols, so may be absurdly large
+    let n_values = n_paths.checked_mul(n_steps).and_then(|n| n.checked_mul(n_assets))
+        .ok_or_else(|| qm::Error::new("Too many substeps"))?;
+    let mut values = Vec::<f64>::new();
+    values.try_reserve_exact(n_values).map_err(|_| qm::Error::new(
+        "Not enough memory for the paths"))?;
+    values.resize(n_values, 0.0);
+    let mut result = Array::from_shape_vec((n_paths, n_steps, n_assets), values)?;
 
     // TODO we currently just use the raw correlations, but we ought to
     // calculate correlations between the timeline points. If there is a
-- 
2.43.0


From 5c98267a661cff970dccb3fd495d18c75e4b90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:06 +0000
Subject: [PATCH 30/30] fix: refuse days their month does not have when reading
 a date

---
 src/dates/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index 9df9633..1355c72 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -129,6 +129,11 @@ impl FromStr for Date {
             return Err(qm::Error::new(s))
         }
 
+        // a day such as 30 February rolls over into the next month
+        if result.ymd() != (array[0], array[1], array[2]) {
+            return Err(qm::Error::new(s))
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0

