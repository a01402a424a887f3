From 563a6156efabe5c5a1f0a581041d74fb0ab58988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 01/36] fix: apply celestial pole offsets in every route to the
 true equator of date

ICRS->EquatorialTrueOfDate corrects nutation with the context's dX/dY, but the
MeanJ2000/MeanOfDate (and EME2000 alias) routes ignored them, so going through
ICRS and going directly gave different rotations for the same context.
---
 .../transform/providers/frames_inertial.rs    | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_inertial.rs b/src/coordinates/transform/providers/frames_inertial.rs
index cced261..a0be2ff 100644
--- a/src/coordinates/transform/providers/frames_inertial.rs
+++ b/src/coordinates/transform/providers/frames_inertial.rs
@@ -165,10 +165,11 @@ impl FrameRotationProvider<EquatorialMeanOfDate, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
         let nut = Nut::nutation(jd);
-        Rotation3::fused_rx_rz_rx(nut.mean_obliquity + nut.deps, nut.dpsi, -nut.mean_obliquity)
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        Rotation3::fused_rx_rz_rx(nut.mean_obliquity + deps, dpsi, -nut.mean_obliquity)
     }
 }
 
@@ -186,11 +187,10 @@ impl FrameRotationProvider<EquatorialMeanJ2000, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
-            * bias::frame_bias_j2000_to_icrs()
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        precession::precession_nutation_matrix(jd, dpsi, deps) * bias::frame_bias_j2000_to_icrs()
     }
 }
 
@@ -198,12 +198,9 @@ impl FrameRotationProvider<EquatorialTrueOfDate, EquatorialMeanJ2000> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        (precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
-            * bias::frame_bias_j2000_to_icrs())
-        .inverse()
+        inverse_rotation::<EquatorialTrueOfDate, EquatorialMeanJ2000, Eph, Eop, Nut>(jd, ctx)
     }
 }
 
-- 
2.43.0


From 52c98d1ab5e08617a241236c4e5bd62fcc7e741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 02/36] fix: keep the caller's EOP provider outside the UTC
 leap-second table

itrs_to_equatorial_mean_j2000_rotation replaced the context's EOP values by
zeros when TT could not be mapped to UTC; use the context's own TT lookup as
every other rotation does.
---
 src/astro/earth_rotation_provider.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 6d1d709..965dcb8 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -37,7 +37,7 @@
 //! * SOFA Earth-rotation cookbook (`iauC2t06a` and friends)
 
 use crate::astro::cio;
-use crate::astro::earth_rotation::{jd_ut1_from_tt_eop, try_jd_utc_from_tt};
+use crate::astro::earth_rotation::jd_ut1_from_tt_eop;
 use crate::astro::eop::{EopProvider, EopValues};
 use crate::astro::era::earth_rotation_angle;
 use crate::astro::nutation::NutationModel;
@@ -99,10 +99,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     jd: JulianDate,
     ctx: &AstroContext<Eph, Eop>,
 ) -> affn::Rotation3 {
-    let eop = match try_jd_utc_from_tt(jd) {
-        Ok(jd_utc) => ctx.eop_at(jd_utc),
-        Err(_) => EopValues::default(),
-    };
+    let eop = ctx.eop_at_tt(jd);
     let jd_ut1 = jd_ut1_from_tt_eop(jd, &eop);
 
     let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, eop);
-- 
2.43.0


From a74aab41047fb62d7f04a6ded92b76eb90c77534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 03/36] fix: topocentric observer velocity uses the caller's
 ephemeris

ObserverState::topocentric_with(_ctx) accepted an ephemeris through its context
but always evaluated the default one.
---
 src/coordinates/observation/observer_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/observation/observer_state.rs b/src/coordinates/observation/observer_state.rs
index 000c8c6..4493818 100644
--- a/src/coordinates/observation/observer_state.rs
+++ b/src/coordinates/observation/observer_state.rs
@@ -123,7 +123,7 @@ impl ObserverState {
     }
 
     /// Context-aware topocentric observer state.
-    pub fn topocentric_with_ctx<Eph, Eop: EopProvider, Nut: NutationModel>(
+    pub fn topocentric_with_ctx<Eph: Ephemeris, Eop: EopProvider, Nut: NutationModel>(
         site: &Geodetic<ECEF>,
         jd: JulianDate,
         ctx: &AstroContext<Eph, Eop>,
@@ -132,7 +132,7 @@ impl ObserverState {
         use crate::qtty::{unit, Meter, Seconds};
 
         // Annual (orbital) component: barycentric Earth velocity.
-        let vel_ecl = DefaultEphemeris::earth_barycentric_velocity(jd);
+        let vel_ecl = Eph::earth_barycentric_velocity(jd);
 
         // Transform to equatorial frame
         let mut velocity: Velocity<EquatorialMeanJ2000, AuPerDay> = vel_ecl.to_frame();
-- 
2.43.0


From c974394430fa78964f313f2173b1ba62f2999783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 04/36] fix: return SINEX stations in a deterministic order

The order followed std HashMap iteration, which differs from run to run.
---
 src/formats/igs/sinex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 97c6acb..9daeafb 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -16,7 +16,7 @@ use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
 use qtty::unit::Meter;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::io::{BufRead, BufReader, Read};
 
 /// Earth geocenter marker for SINEX ITRF coordinates.
@@ -153,7 +153,7 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         pt: String,
         soln: String,
     }
-    let mut estimates: HashMap<String, EstRow> = HashMap::new();
+    let mut estimates: BTreeMap<String, EstRow> = BTreeMap::new();
 
     #[derive(PartialEq)]
     enum Block {
-- 
2.43.0


From 755cddfa73a2128106fc17b839531c0f878b8b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 05/36] fix: iterate mission locations and instruments in a
 deterministic order

The order followed std HashMap iteration, which differs from run to run.
---
 src/mission/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mission/context.rs b/src/mission/context.rs
index 61a6e7e..d475bc3 100644
--- a/src/mission/context.rs
+++ b/src/mission/context.rs
@@ -27,7 +27,7 @@
 //! - Vallado, D. A. (2013). *Fundamentals of Astrodynamics and
 //!   Applications*, 4th ed. §1.2 (mission analysis context).
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::mission::geometry::Instrument;
 use crate::mission::site::Location;
@@ -35,8 +35,8 @@ use crate::mission::site::Location;
 /// Runtime mission-analysis context.
 #[derive(Debug, Default, Clone)]
 pub struct MissionContext {
-    locations: HashMap<String, Location>,
-    instruments: HashMap<String, Instrument>,
+    locations: BTreeMap<String, Location>,
+    instruments: BTreeMap<String, Instrument>,
 }
 
 impl MissionContext {
-- 
2.43.0


From 98effee67b472e51f676d1cc877046fe797a8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 06/36] fix: parse PCK assignments in a deterministic order

The order followed std HashMap iteration, which differs from run to run.
---
 src/formats/spice/pck.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 42d20c8..6f1f6a0 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -74,7 +74,11 @@ impl PckKernel {
         let kernel = TextKernel::parse(src)?;
         let mut bodies: HashMap<i32, BodyOrientation> = HashMap::new();
 
-        for (key, value) in &kernel.data {
+        // Visit assignments in keyword order so that the outcome does not depend
+        // on hash iteration order.
+        let mut assignments: Vec<_> = kernel.data.iter().collect();
+        assignments.sort_unstable_by_key(|(key, _)| *key);
+        for (key, value) in assignments {
             let Some(rest) = key.strip_prefix("BODY") else {
                 continue;
             };
-- 
2.43.0


From 5b2c689c88137ff18b37f5e5a6e934e0cec6fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 07/36] fix: moon_phase_topocentric uses the selected ephemeris
 for the apparent positions

---
 src/event/lunar/phase.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index e38a867..2675a82 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -511,16 +511,29 @@ pub fn moon_phase_topocentric<E: Ephemeris>(
     jd: JulianDate,
     site: Geodetic<frames::ECEF>,
 ) -> MoonPhaseGeometry {
-    use crate::bodies::solar_system::{Moon, Sun};
+    use crate::coordinates::transform::centers::TransformCenter;
+    use crate::coordinates::transform::{AstroContext, TransformFrame};
+    use crate::event::horizontal;
+
+    let ctx = AstroContext::<E>::with_types();
+
+    // Geocentric J2000 positions from the selected ephemeris
+    let moon_geo: cartesian::Position<Geocentric, frames::EquatorialMeanJ2000, Kilometer> =
+        TransformFrame::to_frame(&E::moon_geocentric(jd));
+    let sun_geo_ecl: cartesian::Position<Geocentric, frames::EclipticMeanJ2000, AstronomicalUnit> =
+        cartesian::position::EclipticMeanJ2000::<AstronomicalUnit, Heliocentric>::CENTER
+            .to_center_with((), jd, &ctx);
+    let sun_geo: cartesian::Position<Geocentric, frames::EquatorialMeanJ2000, AstronomicalUnit> =
+        TransformFrame::to_frame(&sun_geo_ecl);
 
     // Topocentric equatorial positions (true-of-date)
     let moon_topo: affn::spherical::Position<Topocentric, frames::EquatorialTrueOfDate, Kilometer> =
-        Moon::get_apparent_topocentric_equ(jd, site);
+        horizontal::geocentric_j2000_to_apparent_topocentric(&moon_geo, site, jd);
     let sun_topo: affn::spherical::Position<
         Topocentric,
         frames::EquatorialTrueOfDate,
         AstronomicalUnit,
-    > = Sun::get_apparent_topocentric_equ(jd, site);
+    > = horizontal::geocentric_j2000_to_apparent_topocentric(&sun_geo, site, jd);
 
     // RA/Dec as typed Radians
     let moon_ra = moon_topo.ra().to::<Radian>();
-- 
2.43.0


From b6764e1924115044b854285a304082059956739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 08/36] fix: bodycentric conversions use the caller's astro
 context

---
 .../centers/position/to_bodycentric.rs        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/centers/position/to_bodycentric.rs b/src/coordinates/transform/centers/position/to_bodycentric.rs
index 49a1f5b..bbca6ec 100644
--- a/src/coordinates/transform/centers/position/to_bodycentric.rs
+++ b/src/coordinates/transform/centers/position/to_bodycentric.rs
@@ -66,7 +66,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -85,7 +85,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -94,7 +95,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
@@ -123,7 +125,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -142,7 +144,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> = body_geo_ecl.to_center(jd);
+                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -152,7 +155,7 @@ where
                     body_ecliptic_au.z(),
                 );
                 let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
-                    body_bary_ecl.to_center(jd);
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
         };
@@ -181,7 +184,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -200,7 +203,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_helio_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
             OrbitReferenceCenter::Geocentric => {
@@ -209,7 +213,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_geo_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
         };
@@ -238,7 +243,7 @@ where
         &self,
         _params: (),
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Geocentric, F, U> {
         let body_params = *self.center_params();
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
@@ -258,7 +263,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -267,7 +273,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
-- 
2.43.0


From 05467dbbeee61e7638106ed6ffea2524f994ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 09/36] fix: moon_phase_topocentric derives the apparent place
 with its context

---
 src/event/lunar/phase.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index 2675a82..722c385 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -528,12 +528,12 @@ pub fn moon_phase_topocentric<E: Ephemeris>(
 
     // Topocentric equatorial positions (true-of-date)
     let moon_topo: affn::spherical::Position<Topocentric, frames::EquatorialTrueOfDate, Kilometer> =
-        horizontal::geocentric_j2000_to_apparent_topocentric(&moon_geo, site, jd);
+        horizontal::geocentric_j2000_to_apparent_topocentric_with_ctx(&moon_geo, site, jd, &ctx);
     let sun_topo: affn::spherical::Position<
         Topocentric,
         frames::EquatorialTrueOfDate,
         AstronomicalUnit,
-    > = horizontal::geocentric_j2000_to_apparent_topocentric(&sun_geo, site, jd);
+    > = horizontal::geocentric_j2000_to_apparent_topocentric_with_ctx(&sun_geo, site, jd, &ctx);
 
     // RA/Dec as typed Radians
     let moon_ra = moon_topo.ra().to::<Radian>();
-- 
2.43.0


From 2b75df59839a42dbbc4bf6e57dc83325ea96dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 10/36] fix: relativistic GPS clock correction is in metres
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The km²/s dot product was scaled by 1e3 (km -> m once) although it must be
scaled by 1e6 (km² -> m²) before dividing by c in m/s.
---
 src/pod/observation/gnss_obs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pod/observation/gnss_obs.rs b/src/pod/observation/gnss_obs.rs
index 7a8807e..8b66f84 100644
--- a/src/pod/observation/gnss_obs.rs
+++ b/src/pod/observation/gnss_obs.rs
@@ -238,7 +238,8 @@ fn relativistic_gps_clock_m(pos_km: Position<GCRS>, vel_km_s: Velocity<GCRS>) ->
     let dot = pos_km.x().value() * vel_km_s.x().value()
         + pos_km.y().value() * vel_km_s.y().value()
         + pos_km.z().value() * vel_km_s.z().value();
-    -2.0 * dot * 1_000.0 / C.value()
+    // `dot` is in km²/s and `C` in m/s: 1 km² = 1e6 m².
+    -2.0 * dot * 1.0e6 / C.value()
 }
 
 /// Compute geometric range (m) and receiver-to-satellite unit vector.
-- 
2.43.0


From 0db95b8f4846a9617117a9d749ab8e7592471635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 11/36] fix: clamp sines and cosines before inverting them
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Rounding pushes sin(dec)·sin(lat)+cos(dec)·cos(lat)·cos(H) of an object at the
zenith (or a rotated unit vector's component) past 1, and asin returned NaN.
---
 src/coordinates/transform/frames/to_horizontal.rs | 6 ++++--
 src/event/horizontal.rs                           | 6 +++---
 src/event/lunar/moon_cache.rs                     | 2 +-
 src/event/stellar/altitude_periods.rs             | 2 +-
 src/event/stellar/star_equations.rs               | 2 +-
 src/formats/adsb/cpr.rs                           | 2 +-
 src/mission/geometry/az_el_range.rs               | 2 +-
 7 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 9e40394..806361f 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -85,7 +85,9 @@ fn equatorial_to_horizontal_angles(
     let cos_ha = ha.cos();
 
     // Use precomputed sin/cos of latitude
-    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha).asin();
+    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha)
+        .clamp(-1.0, 1.0)
+        .asin();
     let az_val = (-cos_dec * ha.sin())
         .atan2(sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat);
 
@@ -118,7 +120,7 @@ fn horizontal_to_equatorial_angles(
 
     // Calculate declination
     let sin_dec = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
-    let dec_val = sin_dec.asin();
+    let dec_val = sin_dec.clamp(-1.0, 1.0).asin();
 
     // Calculate hour angle
     let cos_ha =
diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 702de3b..5646ec1 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -207,7 +207,7 @@ where
 
     // Altitude: sin(alt) = sin(dec)·sin(lat) + cos(dec)·cos(lat)·cos(HA)
     let sin_alt = dec_rad.sin() * lat.sin() + dec_rad.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     // Azimuth: tan(az) = -sin(HA) / (cos(lat)·tan(dec) - sin(lat)·cos(HA))
     let az_rad = (-dec_rad.cos() * ha.sin())
@@ -273,7 +273,7 @@ pub fn star_horizontal_with_policy(
 
     // True-of-date RA/Dec
     let ra_tod = Radians::new(y_t.atan2(x_t));
-    let dec_tod = Radians::new(z_t.asin());
+    let dec_tod = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
     // True-of-date RA/Dec requires apparent sidereal time (GAST).
     let ctx: AstroContext = AstroContext::default();
@@ -286,7 +286,7 @@ pub fn star_horizontal_with_policy(
     // Equatorial → horizontal
     let lat = site.lat.to::<Radian>();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     let az_rad = (-dec_tod.cos() * ha.sin())
         .atan2(dec_tod.sin() * lat.cos() - dec_tod.cos() * ha.cos() * lat.sin());
diff --git a/src/event/lunar/moon_cache.rs b/src/event/lunar/moon_cache.rs
index ff16cff..a0d966c 100644
--- a/src/event/lunar/moon_cache.rs
+++ b/src/event/lunar/moon_cache.rs
@@ -470,7 +470,7 @@ impl MoonAltitudeContext {
 
         let sin_alt = dec_rad.sin() * self.lat.sin() + dec_rad.cos() * self.lat.cos() * ha.cos();
 
-        Quantity::<Radian>::new(sin_alt.asin())
+        Quantity::<Radian>::new(sin_alt.clamp(-1.0, 1.0).asin())
     }
 }
 
diff --git a/src/event/stellar/altitude_periods.rs b/src/event/stellar/altitude_periods.rs
index c5c6550..410b7e3 100644
--- a/src/event/stellar/altitude_periods.rs
+++ b/src/event/stellar/altitude_periods.rs
@@ -136,7 +136,7 @@ pub(crate) fn fixed_star_altitude_rad_with_policy(
     // Equatorial → horizontal altitude
     let lat = site.lat.to::<Radian>().value();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    crate::qtty::Radians::new(sin_alt.asin())
+    crate::qtty::Radians::new(sin_alt.clamp(-1.0, 1.0).asin())
 }
 
 // =============================================================================
diff --git a/src/event/stellar/star_equations.rs b/src/event/stellar/star_equations.rs
index 207cf9e..163043b 100644
--- a/src/event/stellar/star_equations.rs
+++ b/src/event/stellar/star_equations.rs
@@ -132,7 +132,7 @@ impl StarAltitudeParams {
         let [x_t, y_t, z_t] = npb.apply_array([x0, y0, z0]);
 
         let ra_corrected = Degrees::new(y_t.atan2(x_t).to_degrees());
-        let dec = Radians::new(z_t.asin());
+        let dec = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
         // Precompute trig constants
         let lat_rad = site.lat.to::<Radian>();
diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 0b051bf..fe95891 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -48,7 +48,7 @@ fn nl(lat: f64) -> f64 {
     let cos_lat = lat.to_radians().cos();
     let numer = 1.0 - (std::f64::consts::PI / (2.0 * NZ)).cos();
     let arg = 1.0 - numer / (cos_lat * cos_lat);
-    let n = (2.0 * std::f64::consts::PI / arg.acos()).floor();
+    let n = (2.0 * std::f64::consts::PI / arg.clamp(-1.0, 1.0).acos()).floor();
     // Cap at 59: at lat=0 the formula evaluates to exactly 60.
     n.clamp(1.0, 59.0)
 }
diff --git a/src/mission/geometry/az_el_range.rs b/src/mission/geometry/az_el_range.rs
index cc5d965..93b727c 100644
--- a/src/mission/geometry/az_el_range.rs
+++ b/src/mission/geometry/az_el_range.rs
@@ -91,7 +91,7 @@ where
     if az < 0.0 {
         az += TAU;
     }
-    let el = u_comp.asin();
+    let el = u_comp.clamp(-1.0, 1.0).asin();
 
     // Range rate = (v_target - v_observer) · LOS direction.
     let rel_v = target_vel - observer_vel;
-- 
2.43.0


From db69f664e35e2589bfad39d5f55dccb32fff1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 12/36] fix: reject non-ASCII TLE lines instead of panicking on
 a column split

---
 src/formats/tle/parse.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 676d2a1..b06baab 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -32,12 +32,7 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
     } else {
         0u8
     };
-    if line.len() != 69 {
-        return Err(TleError::BadLength {
-            line: line_no,
-            got: line.len(),
-        });
-    }
+    check_columns(line, line_no)?;
     let bytes = line.as_bytes();
     let stated_byte = bytes[68];
     if !stated_byte.is_ascii_digit() {
@@ -59,6 +54,17 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
     Ok(())
 }
 
+/// A TLE line is 69 ASCII columns; anything else cannot be split by column.
+fn check_columns(line: &str, line_no: u8) -> Result<(), TleError> {
+    if line.len() != 69 || !line.is_ascii() {
+        return Err(TleError::BadLength {
+            line: line_no,
+            got: line.chars().count(),
+        });
+    }
+    Ok(())
+}
+
 /// Compute the canonical TLE checksum digit for the first 68 columns.
 ///
 /// # Examples
@@ -127,18 +133,8 @@ pub fn parse_3le(name: &str, line1: &str, line2: &str) -> Result<TLE, TleError>
 }
 
 fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE, TleError> {
-    if line1.len() != 69 {
-        return Err(TleError::BadLength {
-            line: 1,
-            got: line1.len(),
-        });
-    }
-    if line2.len() != 69 {
-        return Err(TleError::BadLength {
-            line: 2,
-            got: line2.len(),
-        });
-    }
+    check_columns(line1, 1)?;
+    check_columns(line2, 2)?;
     let l1b = line1.as_bytes();
     let l2b = line2.as_bytes();
     if l1b[0] as char != '1' {
-- 
2.43.0


From 94af19007538ad4214d808f2446b2a621297b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 13/36] fix: RINEX readers no longer panic on short records or
 multi-byte columns

---
 src/formats/rinex/doris.rs | 37 +++++++++++++++++++------------------
 src/formats/rinex/nav.rs   | 12 ++++--------
 src/formats/rinex/obs.rs   | 22 +++++++++++++++-------
 3 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index 988fde4..c304631 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -90,20 +90,22 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
     } {
         let l = line.trim_end_matches(['\n', '\r']);
         if in_header {
-            if l.len() < 61 {
+            // Header fields sit in fixed columns; a line that cannot be cut
+            // there carries no usable label.
+            let (Some(data), Some(label)) = (l.get(..60), l.get(60..)) else {
                 continue;
-            }
-            let (data, label) = l.split_at(60);
+            };
+            let field = |cols: std::ops::Range<usize>| data.get(cols).unwrap_or("").trim();
             let label = label.trim();
             match label {
-                "RINEX VERSION / TYPE" => out.header.version = data[..9].trim().to_string(),
+                "RINEX VERSION / TYPE" => out.header.version = field(0..9).to_string(),
                 "PGM / RUN BY / DATE" => {
-                    out.header.program = data[..20].trim().to_string();
-                    out.header.agency = data[20..40].trim().to_string();
+                    out.header.program = field(0..20).to_string();
+                    out.header.agency = field(20..40).to_string();
                 }
                 "MARKER NAME" => out.header.marker_name = data.trim().to_string(),
-                "ANT # / TYPE" => out.header.antenna_type = data[20..].trim().to_string(),
-                "REC # / TYPE / VERS" => out.header.receiver_type = data[20..40].trim().to_string(),
+                "ANT # / TYPE" => out.header.antenna_type = field(20..60).to_string(),
+                "REC # / TYPE / VERS" => out.header.receiver_type = field(20..40).to_string(),
                 "END OF HEADER" => in_header = false,
                 _ => {}
             }
@@ -127,17 +129,12 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             }
             continue;
         }
-        let sat_id = if l.len() >= 3 && l.starts_with('D') {
-            Some(l[0..3].to_string())
-        } else {
-            current_sat.clone()
+        let sat_id = match l.get(..3) {
+            Some(id) if id.starts_with('D') => Some(id.to_string()),
+            _ => current_sat.clone(),
         };
         if let (Some(mjd), Some(sat)) = (current_obs_epoch, sat_id) {
-            let raw = if l.len() > 3 {
-                l[3..].trim().to_string()
-            } else {
-                String::new()
-            };
+            let raw = l.get(3..).unwrap_or("").trim().to_string();
             if raw.is_empty() {
                 out.unsupported_obs += 1;
             }
@@ -156,7 +153,11 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
 #[cfg(feature = "doris")]
 fn date_to_mjd(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: f64) -> f64 {
     // Standard civil → MJD conversion (Meeus §7).
-    let (yy, mm) = if mo <= 2 { (y - 1, mo + 12) } else { (y, mo) };
+    let (yy, mm) = if mo <= 2 {
+        (y.saturating_sub(1), mo + 12)
+    } else {
+        (y, mo)
+    };
     let a = (yy as f64 / 100.0).floor();
     let b = 2.0 - a + (a / 4.0).floor();
     let jd = (365.25 * (yy as f64 + 4716.0)).floor()
diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 9411b30..2d2be7f 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -246,11 +246,8 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         }
 
         // ── PRN ────────────────────────────────────────────────────────────
-        let prn_result = if l0.starts_with('G') {
-            l0[1..3].trim().parse::<u8>()
-        } else {
-            l0[..3].trim().parse::<u8>()
-        };
+        let (id, rest) = l0.split_at_checked(3).unwrap_or((l0, ""));
+        let prn_result = id.strip_prefix('G').unwrap_or(id).trim().parse::<u8>();
         let prn = match prn_result {
             Ok(p) if p > 0 => p,
             Ok(_) | Err(_) => {
@@ -258,7 +255,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
                     return Err(FormatError::located(
                         "RINEX 3.05 §6.3",
                         FileLocation::at_line(line_no_1),
-                        format!("invalid GPS PRN: {:?}", &l0[..l0.len().min(3)]),
+                        format!("invalid GPS PRN: {id:?}"),
                     ));
                 }
                 i += 8;
@@ -267,7 +264,6 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         };
 
         // ── TOC + clock terms ──────────────────────────────────────────────
-        let rest = &l0[3..];
         let toc_tokens: Vec<&str> = rest.split_whitespace().collect();
         let header_result = (|| -> Result<(Time<UTC>, f64, f64, f64), FormatError> {
             if toc_tokens.len() < 9 {
@@ -333,7 +329,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         let parse_body = |idx: usize, expected: usize| -> Result<Vec<f64>, FormatError> {
             let (ln, text) = collected[i + idx];
             let vals = collect_floats(text, ln + 1)?;
-            if vals.len() < expected && mode == ParseMode::Strict {
+            if vals.len() < expected {
                 return Err(FormatError::located(
                     "RINEX 3.05 §6.5",
                     FileLocation::at_line(ln + 1),
diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index c4206ff..f0f3885 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -110,8 +110,17 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 if !sys.is_ascii_alphabetic() {
                     continue;
                 }
-                let count: usize = body[1..6].trim().parse().unwrap_or(0);
-                let mut types: Vec<String> = body[7..]
+                let count: usize = body
+                    .get(1..6)
+                    .and_then(|s| s.trim().parse().ok())
+                    .ok_or_else(|| {
+                        FormatError::Format(format!(
+                            "rinex_obs: malformed observation type count: {body:?}"
+                        ))
+                    })?;
+                let mut types: Vec<String> = body
+                    .get(7..)
+                    .unwrap_or("")
                     .split_whitespace()
                     .map(|s| s.to_string())
                     .collect();
@@ -171,10 +180,10 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 break;
             }
             let row = line.trim_end();
-            if row.len() < 3 {
+            let Some((sat, payload)) = row.split_at_checked(3) else {
                 continue;
-            }
-            let sat = row[..3].to_string();
+            };
+            let sat = sat.to_string();
             let sys = sat.chars().next().unwrap_or(' ');
             let types = match obs_types.get(&sys) {
                 Some(t) => t.clone(),
@@ -183,14 +192,13 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
             let mut vals: HashMap<String, f64> = HashMap::new();
             // RINEX 3: each observable occupies 16 columns (F14.3 + 2 status
             // chars). We slice that and parse loosely.
-            let payload = &row[3..];
             for (i, ty) in types.iter().enumerate() {
                 let start = i * 16;
                 if start >= payload.len() {
                     break;
                 }
                 let end = (start + 14).min(payload.len());
-                let raw = payload[start..end].trim();
+                let raw = payload.get(start..end).unwrap_or("").trim();
                 if raw.is_empty() {
                     continue;
                 }
-- 
2.43.0


From c7ca20c7c05ce89c523a2f59786872edcff99e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 14/36] fix: SCK payload size check cannot overflow

---
 src/formats/sck.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/sck.rs b/src/formats/sck.rs
index e5bad07..1f021d3 100644
--- a/src/formats/sck.rs
+++ b/src/formats/sck.rs
@@ -104,7 +104,7 @@ pub fn parse_sck(bytes: &[u8]) -> Result<SckKernel, FormatError> {
             )
         })?;
     let payload = &bytes[SCK_HEADER_LEN..];
-    if payload.len() != expected * 8 {
+    if payload.len() % 8 != 0 || payload.len() / 8 != expected {
         return Err(FormatError::located(
             "SCK v1 §payload",
             FileLocation::default(),
-- 
2.43.0


From 3da11ff8cac4a81d300166db8ec87fb64040c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 15/36] fix: DAF readers validate record chain, summary counts
 and segment words

---
 src/formats/spice/ck.rs      |  3 +-
 src/formats/spice/daf.rs     | 80 ++++++++++++++++++++++--------------
 src/formats/spice/segment.rs | 18 ++++----
 3 files changed, 62 insertions(+), 39 deletions(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index f2b7b22..bd7fb64 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -20,7 +20,7 @@
 
 use std::path::Path;
 
-use super::daf::DafRaw;
+use super::daf::{check_word_range, DafRaw};
 use super::SpiceError;
 
 /// A single CK attitude record (Type 1).
@@ -203,6 +203,7 @@ fn read_type1_segment(
             "CK segment has an invalid word range".to_string(),
         ));
     }
+    check_word_range(daf.bytes().len(), start_word, end_word)?;
     let n_records_raw = daf.read_f64_at_word(end_word);
     if !n_records_raw.is_finite() || n_records_raw < 1.0 {
         return Err(SpiceError::FormatParse(format!(
diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index b665dd5..3f8e820 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -148,29 +148,20 @@ impl Daf {
 
         let mut summaries = Vec::new();
         let mut rec = fward;
+        let mut records_left = data.len() / RECORD_BYTES;
 
         while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
+            records_left = records_left.checked_sub(1).ok_or_else(|| {
+                SpiceError::FormatParse("DAF summary record chain is cyclic".to_string())
+            })?;
+            let rec_offset = record_offset(data.len(), rec)?;
 
             let next = read_f64(data, rec_offset) as i64 as usize;
             let _prev = read_f64(data, rec_offset + 8);
-            let nsum = read_f64(data, rec_offset + 16) as usize;
+            let nsum = summary_count(read_f64(data, rec_offset + 16), ss)?;
 
             for i in 0..nsum {
                 let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
-
                 let start_et = read_f64(data, off);
                 let end_et = read_f64(data, off + 8);
 
@@ -250,26 +241,17 @@ impl DafRaw {
 
         let mut raw_summaries = Vec::new();
         let mut rec = fward;
+        let mut records_left = data.len() / RECORD_BYTES;
         while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
+            records_left = records_left.checked_sub(1).ok_or_else(|| {
+                SpiceError::FormatParse("DAF summary record chain is cyclic".to_string())
+            })?;
+            let rec_offset = record_offset(data.len(), rec)?;
 
             let next = read_f64(&data, rec_offset) as i64 as usize;
-            let nsum = read_f64(&data, rec_offset + 16) as usize;
+            let nsum = summary_count(read_f64(&data, rec_offset + 16), ss)?;
             for i in 0..nsum {
                 let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
-
                 let mut doubles = Vec::with_capacity(nd);
                 for j in 0..nd {
                     doubles.push(read_f64(&data, off + j * 8));
@@ -306,6 +288,44 @@ impl DafRaw {
     }
 }
 
+/// Size of a DAF physical record.
+const RECORD_BYTES: usize = 1024;
+
+/// Byte offset of a 1-based record, if it lies wholly inside the file.
+fn record_offset(file_len: usize, rec: usize) -> Result<usize, SpiceError> {
+    if rec == 0 || rec > file_len / RECORD_BYTES {
+        return Err(SpiceError::FormatParse(format!(
+            "Summary record {rec} extends past EOF"
+        )));
+    }
+    Ok((rec - 1) * RECORD_BYTES)
+}
+
+/// Number of summaries stated in a summary record, if they fit in it.
+fn summary_count(stated: f64, summary_words: usize) -> Result<usize, SpiceError> {
+    let count = stated as usize;
+    if count > (RECORD_BYTES / 8 - 3) / summary_words {
+        return Err(SpiceError::FormatParse(format!(
+            "Summary count {stated} does not fit in a DAF record"
+        )));
+    }
+    Ok(count)
+}
+
+/// Check that the 1-based words `start..=end` lie inside the file.
+pub(crate) fn check_word_range(
+    file_len: usize,
+    start: usize,
+    end: usize,
+) -> Result<(), SpiceError> {
+    if start == 0 || start > end || end > file_len / 8 {
+        return Err(SpiceError::FormatParse(format!(
+            "DAF segment words [{start}..{end}] do not lie in the file"
+        )));
+    }
+    Ok(())
+}
+
 #[inline]
 fn read_i32_le(data: &[u8], offset: usize) -> i32 {
     i32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 0a2fb55..0e5dd2e 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -46,7 +46,7 @@
 //! Velocity for Type 2 is `dPos/dtau / RADIUS` (in km/s).
 
 use super::error::SpiceError;
-use crate::formats::spice::daf::{Daf, Summary};
+use crate::formats::spice::daf::{check_word_range, Daf, Summary};
 
 /// A typed SPK segment.
 #[derive(Debug, Clone)]
@@ -413,6 +413,7 @@ fn read_chebyshev(
             message: format!("segment trailer at end_word={end} is too small"),
         });
     }
+    check_word_range(file_data.len(), summary.start_word, end)?;
     let n_records = daf.read_f64_at_word(file_data, end) as usize;
     let rsize = daf.read_f64_at_word(file_data, end - 1) as usize;
     let intlen = daf.read_f64_at_word(file_data, end - 2);
@@ -496,6 +497,7 @@ fn read_discrete_states(
                 summary.start_word, summary.end_word
             ),
         })?;
+    check_word_range(file_data.len(), summary.start_word, summary.end_word)?;
     if n_words < 9 {
         return Err(SpiceError::Parse {
             message: format!("SPK Type {data_type} segment too short: {n_words} words"),
@@ -526,12 +528,12 @@ fn read_discrete_states(
         message: format!("SPK Type {data_type} state count overflow: {n_records}"),
     })?;
     let epoch_start = state_len;
-    let epoch_end = epoch_start + n_records;
-    if epoch_end + 2 > words.len() {
-        return Err(SpiceError::Parse {
+    let epoch_end = epoch_start
+        .checked_add(n_records)
+        .filter(|end| *end <= words.len() - 2)
+        .ok_or_else(|| SpiceError::Parse {
             message: format!("SPK Type {data_type} payload too short for {n_records} records"),
-        });
-    }
+        })?;
     let states = words[..state_len].to_vec();
     let epochs = words[epoch_start..epoch_end].to_vec();
     let epoch_directory = words[epoch_end..words.len() - 2].to_vec();
@@ -554,7 +556,7 @@ fn read_discrete_states(
     let interpolation_size = match data_type {
         9 => {
             let degree = descriptor;
-            if degree == 0 || degree + 1 > n_records || degree > 31 {
+            if degree == 0 || degree >= n_records || degree > 31 {
                 return Err(SpiceError::Parse {
                     message: format!(
                         "SPK Type 9 invalid Lagrange degree {degree} for {n_records} records"
@@ -564,7 +566,7 @@ fn read_discrete_states(
             degree
         }
         13 => {
-            let samples = descriptor + 1;
+            let samples = descriptor.saturating_add(1);
             if samples < 2 || samples > n_records || samples > 16 {
                 return Err(SpiceError::Parse {
                     message: format!(
-- 
2.43.0


From cb360dd2c0e1111da9945a18b15defe298795c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 16/36] fix: LSK epochs with extreme years no longer overflow

---
 src/formats/spice/lsk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 094ffb7..5173553 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -164,6 +164,7 @@ fn month_number(month: &str) -> Result<i32, SpiceError> {
 }
 
 fn gregorian_to_jd(year: i32, month: i32, day: i32) -> f64 {
+    let (year, month, day) = (i64::from(year), i64::from(month), i64::from(day));
     let term1 = 367 * year;
     let term2 = 7 * (year + (month + 9) / 12) / 4;
     let term3 = 275 * month / 9;
-- 
2.43.0


From ac845a838fdf1eb7b6e5204e4a84d14c3fdf821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 17/36] fix: bound text-kernel array nesting

---
 src/formats/spice/text.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/formats/spice/text.rs b/src/formats/spice/text.rs
index 42ad81f..d83d81e 100644
--- a/src/formats/spice/text.rs
+++ b/src/formats/spice/text.rs
@@ -186,7 +186,7 @@ fn parse_assignment(statement: &str) -> Result<(String, bool, TextValue), SpiceE
     }
 
     let mut parser = ValueParser::new(value.trim());
-    let parsed = parser.parse_value()?;
+    let parsed = parser.parse_value(MAX_ARRAY_DEPTH)?;
     parser.skip_delimiters();
     if !parser.is_eof() {
         return Err(SpiceError::FormatParse(format!(
@@ -271,6 +271,9 @@ fn flatten_i64(values: &[TextValue]) -> Option<Vec<i64>> {
     Some(out)
 }
 
+/// Deepest array nesting accepted; each level is a parser stack frame.
+const MAX_ARRAY_DEPTH: usize = 32;
+
 struct ValueParser<'a> {
     src: &'a str,
     index: usize,
@@ -281,7 +284,7 @@ impl<'a> ValueParser<'a> {
         Self { src, index: 0 }
     }
 
-    fn parse_value(&mut self) -> Result<TextValue, SpiceError> {
+    fn parse_value(&mut self, depth: usize) -> Result<TextValue, SpiceError> {
         self.skip_delimiters();
         let Some(ch) = self.peek() else {
             return Err(SpiceError::FormatParse(
@@ -289,13 +292,18 @@ impl<'a> ValueParser<'a> {
             ));
         };
         match ch {
-            '(' => self.parse_array(),
+            '(' => self.parse_array(depth),
             '\'' | '"' => self.parse_string(),
             _ => self.parse_bare(),
         }
     }
 
-    fn parse_array(&mut self) -> Result<TextValue, SpiceError> {
+    fn parse_array(&mut self, depth: usize) -> Result<TextValue, SpiceError> {
+        let Some(depth) = depth.checked_sub(1) else {
+            return Err(SpiceError::FormatParse(format!(
+                "text-kernel arrays nested more than {MAX_ARRAY_DEPTH} deep"
+            )));
+        };
         self.bump();
         let mut values = Vec::new();
         loop {
@@ -305,7 +313,7 @@ impl<'a> ValueParser<'a> {
                     self.bump();
                     break;
                 }
-                Some(_) => values.push(self.parse_value()?),
+                Some(_) => values.push(self.parse_value(depth)?),
                 None => {
                     return Err(SpiceError::FormatParse(
                         "unterminated text-kernel array".to_string(),
-- 
2.43.0


From 24906f5b7e6346dc84fa7fa6912af337ce6b39d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 18/36] fix: reject out-of-range CPF MJDs and SINEX years

---
 src/formats/igs/sinex.rs | 2 +-
 src/formats/ilrs/cpf.rs  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 9daeafb..8171042 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -287,7 +287,7 @@ fn sinex_epoch_to_mjd(s: &str) -> f64 {
     if parts.len() != 3 {
         return 0.0;
     }
-    let yy: i32 = parts[0].parse().unwrap_or(0);
+    let yy = i32::from(parts[0].parse::<u16>().unwrap_or(0));
     let doy: u32 = parts[1].parse().unwrap_or(1);
     let sod: f64 = parts[2].parse().unwrap_or(0.0);
     let yyyy = if yy == 0 {
diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 812635b..8ee184e 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -459,6 +459,9 @@ fn build_epoch_from_mjd_sod(mjd_int: i64, sod: f64) -> Result<Time<UTC>, FormatE
     // Convert MJD to calendar date, then to chrono, then add SOD.
     // MJD 0 = 1858-11-17. MJD → Julian Day: JD = MJD + 2400000.5
     // Use Julian Day Number arithmetic to get year/month/day.
+    let mjd_int = i32::try_from(mjd_int)
+        .map(i64::from)
+        .map_err(|_| FormatError::Format(format!("CPF: MJD {mjd_int} out of range")))?;
     let jd_whole = mjd_int + 2_400_001; // integer JD at noon of MJD day
                                         // Algorithm from USNO (Fliegel & Van Flandern, 1968):
     let l = jd_whole + 68_569;
-- 
2.43.0


From cd751104fe2baa4ea8bc41e24867ad6f34903c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 19/36] fix: event scans advance whatever step they are given

---
 src/event/lunar/moon_cache.rs  |  1 +
 src/event/search/bracketing.rs | 13 +++++--------
 src/event/search/crossings.rs  |  3 ++-
 src/event/search/extrema.rs    |  2 +-
 src/event/search/intervals.rs  |  4 ++--
 src/event/search/mod.rs        | 16 ++++++++++++++++
 6 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/event/lunar/moon_cache.rs b/src/event/lunar/moon_cache.rs
index a0d966c..bedd180 100644
--- a/src/event/lunar/moon_cache.rs
+++ b/src/event/lunar/moon_cache.rs
@@ -523,6 +523,7 @@ where
 {
     let g = |t: Mjd| -> crate::qtty::Quantity<V> { f(t) - threshold };
 
+    let step = crate::event::search::scan_step(step);
     let t_start = period.start;
     let t_end = period.end;
 
diff --git a/src/event/search/bracketing.rs b/src/event/search/bracketing.rs
index b823bae..a02541d 100644
--- a/src/event/search/bracketing.rs
+++ b/src/event/search/bracketing.rs
@@ -59,6 +59,7 @@ where
     F: Fn(ModifiedJulianDate) -> Quantity<V>,
 {
     let g = |t: Mjd| -> Quantity<V> { f(t) - threshold };
+    let step = super::scan_step(step);
 
     let mut brackets = Vec::new();
     let mut t = period.start;
@@ -106,6 +107,8 @@ where
     F: Fn(ModifiedJulianDate) -> Quantity<V>,
 {
     let g = |t: Mjd| -> Quantity<V> { f(t) - threshold };
+    let initial_step = super::scan_step(initial_step);
+    let min_step = super::scan_step(min_step);
 
     let mut brackets = Vec::new();
 
@@ -241,10 +244,7 @@ where
     // Expanding search: start near the extremum and step backward
     let mut bracket = Interval::new(search_period.end, search_period.end);
     let mut g_hi = g(bracket.end);
-    let mut step = range * 0.1;
-    if step < Days::new(1e-10) {
-        step = range * 0.5;
-    }
+    let step = super::scan_step(range * 0.1);
 
     bracket.start = {
         let t_prev = crate::time::ModifiedJulianDate::new((bracket.end.raw() - step).value());
@@ -296,10 +296,7 @@ where
 
     let mut bracket = Interval::new(search_period.start, search_period.start);
     let mut g_lo = g(bracket.start);
-    let mut step = range * 0.1;
-    if step < Days::new(1e-10) {
-        step = range * 0.5;
-    }
+    let step = super::scan_step(range * 0.1);
 
     bracket.end = {
         let t_next = crate::time::ModifiedJulianDate::new((bracket.start.raw() + step).value());
diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 18a107e..d1a367b 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -115,11 +115,12 @@ where
         return (crossings, start_above, diagnostics);
     }
 
+    let segment_length = super::scan_step(opts.chebyshev.segment_length);
     let mut crossings = Vec::new();
     let mut t = period.start;
     while t < period.end {
         let next = {
-            let proposed = mjd_from_days((t.raw() + opts.chebyshev.segment_length).value());
+            let proposed = mjd_from_days((t.raw() + segment_length).value());
             if proposed <= period.end {
                 proposed
             } else {
diff --git a/src/event/search/extrema.rs b/src/event/search/extrema.rs
index b365a30..c779858 100644
--- a/src/event/search/extrema.rs
+++ b/src/event/search/extrema.rs
@@ -320,7 +320,7 @@ where
     V: Unit,
     F: Fn(ModifiedJulianDate) -> Quantity<V>,
 {
-    let step_v = step;
+    let step_v = super::scan_step(step);
     let t_start_v = period.start;
     let t_end_v = period.end;
     let fd_v = fd_step;
diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index d0881ca..826d8b9 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -84,7 +84,7 @@ where
 {
     let g = |t: Mjd| -> Quantity<V> { f(t) - threshold };
 
-    let step_v = step;
+    let step_v = super::scan_step(step);
     let t_start_v = period.start;
     let t_end_v = period.end;
     let zero = Quantity::<V>::new(0.0);
@@ -138,7 +138,7 @@ where
 {
     let g = |t: Mjd| -> Quantity<V> { f(t) - threshold };
 
-    let step_v = step;
+    let step_v = super::scan_step(step);
     let t_start_v = period.start;
     let t_end_v = period.end;
     let zero = Quantity::<V>::new(0.0);
diff --git a/src/event/search/mod.rs b/src/event/search/mod.rs
index d9fe39d..090f28d 100644
--- a/src/event/search/mod.rs
+++ b/src/event/search/mod.rs
@@ -20,6 +20,22 @@
 //! ## References
 //! - Brent, R.P. (1973). *Algorithms for Minimization without Derivatives*. Prentice-Hall.
 
+use crate::qtty::Days;
+
+/// Smallest step taken when a window is scanned (0.0864 s).
+const MIN_SCAN_STEP: Days = Days::new(1e-6);
+
+/// The step to scan with when `requested` is asked for: a step that is not
+/// positive, or too small to move a Modified Julian Date, would never reach
+/// the end of the window.
+pub(crate) fn scan_step(requested: Days) -> Days {
+    if requested > MIN_SCAN_STEP {
+        requested
+    } else {
+        MIN_SCAN_STEP
+    }
+}
+
 pub(crate) mod bracketing;
 pub(crate) mod crossings;
 pub(crate) mod extrema;
-- 
2.43.0


From bb7a38228156cd60c8e9326cc7d5912012cbf96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 20/36] fix: MoonPhaseLabel::from_elongation ends for every
 angle

---
 src/event/lunar/phase.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index 722c385..0a3d7bc 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -143,14 +143,8 @@ impl MoonPhaseLabel {
     pub fn from_elongation(elongation: Degrees, th: &PhaseThresholds) -> Self {
         let hw = th.half_width;
         // Normalise to [0, 360) as a Degrees quantity
-        let mut e = elongation;
         let full = Degrees::new(360.0);
-        while e >= full {
-            e -= full;
-        }
-        while e < Degrees::new(0.0) {
-            e += full;
-        }
+        let e = elongation.wrap_pos();
 
         if e < hw || e >= full - hw {
             Self::NewMoon
-- 
2.43.0


From c31dc4ee109f8bde14a28b49055cd134203b0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 21/36] fix: MoonPhaseSeries stops when the step does not
 advance

---
 src/event/lunar/phase.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index 0a3d7bc..ee1b7c2 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -718,7 +718,11 @@ impl<E: Ephemeris> MoonPhaseSeries<E> {
             let jd: JulianDate = t.to::<crate::JD>();
             let geom = moon_phase_geocentric::<E>(jd);
             results.push((t, geom));
-            t = crate::time::ModifiedJulianDate::new((t.raw() + step).value());
+            let next = crate::time::ModifiedJulianDate::new((t.raw() + step).value());
+            if next <= t {
+                break;
+            }
+            t = next;
         }
         results
     }
@@ -749,7 +753,11 @@ impl<E: Ephemeris> MoonPhaseSeries<E> {
             let jd: JulianDate = t.to::<crate::JD>();
             let geom = moon_phase_topocentric::<E>(jd, site);
             results.push((t, geom));
-            t = crate::time::ModifiedJulianDate::new((t.raw() + step).value());
+            let next = crate::time::ModifiedJulianDate::new((t.raw() + step).value());
+            if next <= t {
+                break;
+            }
+            t = next;
         }
         results
     }
-- 
2.43.0


From 0a8f9802252f1cf985a0b4e3adee7fa7311e4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 22/36] fix: report TK frames defined relative to themselves
 instead of overflowing the stack

---
 src/spice/context.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/spice/context.rs b/src/spice/context.rs
index 0dd4e1f..60a719f 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -231,6 +231,16 @@ impl SpiceContext {
         &self,
         frame_id: i32,
         epoch_tdb_s: f64,
+    ) -> Result<[[f64; 3]; 3], SpiceContextError> {
+        self.frame_to_j2000_inner(frame_id, epoch_tdb_s, &mut Vec::new())
+    }
+
+    /// `visited` holds the TK frames passed through so far.
+    fn frame_to_j2000_inner(
+        &self,
+        frame_id: i32,
+        epoch_tdb_s: f64,
+        visited: &mut Vec<i32>,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         if frame_id == 1 {
             return Ok(identity_3x3());
@@ -242,11 +252,17 @@ impl SpiceContext {
             .map_err(spice_error_to_context)?;
 
         if let Some((TkSpec::Matrix(matrix), relative_name)) = &spec.tk_spec {
+            if visited.contains(&frame_id) {
+                return Err(SpiceContextError::UnsupportedKernelQuery {
+                    message: format!("TK frame {frame_id} is defined relative to itself"),
+                });
+            }
+            visited.push(frame_id);
             let relative = self
                 .frame_registry
                 .frame_by_name(relative_name)
                 .map_err(spice_error_to_context)?;
-            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s)?;
+            let relative_to_j2000 = self.frame_to_j2000_inner(relative.id, epoch_tdb_s, visited)?;
             return Ok(mat3_mul(relative_to_j2000, *matrix));
         }
 
-- 
2.43.0


From deab0cdc04962131ed302c6fca37a1657f5b349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 23/36] fix: refuse Lagrange fit steps below the resolution of
 the epoch

---
 src/ephemeris/lagrange/fit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris/lagrange/fit.rs b/src/ephemeris/lagrange/fit.rs
index 545ffda..23d090a 100644
--- a/src/ephemeris/lagrange/fit.rs
+++ b/src/ephemeris/lagrange/fit.rs
@@ -213,6 +213,10 @@ fn fit_with_order<const N: usize>(
 
     while start < to_s {
         let end = (start + block_s).min(to_s);
+        if end <= start {
+            // The block is below the resolution of the epoch.
+            return Err(FitError::InvalidConfig);
+        }
         let mid = 0.5 * (start + end);
         let radius = 0.5 * (end - start);
         let nodes = cheby::nodes::<N>();
@@ -282,7 +286,12 @@ fn validate_fit(
         max_error = max_error.max(err_m);
         sum_sq += err_m * err_m;
         count += 1;
-        sample_s += step_s;
+        let next_s = sample_s + step_s;
+        if next_s <= sample_s {
+            // The step is below the resolution of the epoch.
+            return Err(FitError::InvalidConfig);
+        }
+        sample_s = next_s;
     }
     let rms = if count == 0 {
         0.0
-- 
2.43.0


From 23d1fe9b1decded4ecf93a10e641ab68ad0b197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 24/36] fix: reject malformed optional numbers in OMM KVN and
 XML instead of reading them as zero

---
 src/formats/tle/omm/kvn.rs | 27 +++++++--------------------
 src/formats/tle/omm/mod.rs | 16 ++++++++++++++++
 src/formats/tle/omm/xml.rs | 23 +++++++----------------
 3 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 98d400c..5d7670f 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,7 +8,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, opt_num, parse_epoch, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::{Classification, SatelliteNumber};
 
@@ -129,13 +129,6 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
             reason: format!("{k}={v:?} is not a float"),
         })
     };
-    let getu = |k: &'static str| -> Result<u32, TleError> {
-        let v = get(k)?;
-        v.parse::<u32>().map_err(|_| TleError::OmmMalformed {
-            format: "KVN",
-            reason: format!("{k}={v:?} is not an unsigned integer"),
-        })
-    };
 
     let object_name = get("OBJECT_NAME")?.clone();
     let object_id = get("OBJECT_ID")?.clone();
@@ -160,19 +153,13 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: opt_num(&kv, "EPHEMERIS_TYPE", "KVN")?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: getu("REV_AT_EPOCH").unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: opt_num(&kv, "ELEMENT_SET_NO", "KVN")?,
+        rev_at_epoch: opt_num(&kv, "REV_AT_EPOCH", "KVN")?,
+        bstar: opt_num(&kv, "BSTAR", "KVN")?,
+        mean_motion_dot: opt_num(&kv, "MEAN_MOTION_DOT", "KVN")?,
+        mean_motion_ddot: opt_num(&kv, "MEAN_MOTION_DDOT", "KVN")?,
     })
 }
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 4cdd4a5..e507409 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -230,6 +230,22 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
     ))
 }
 
+/// Read an optional numeric field: absent or blank gives the default, anything
+/// else must be a number.
+pub(crate) fn opt_num<T: std::str::FromStr + Default>(
+    kv: &std::collections::HashMap<String, String>,
+    key: &str,
+    format: &'static str,
+) -> Result<T, TleError> {
+    match kv.get(key).map(|v| v.trim()) {
+        None | Some("") => Ok(T::default()),
+        Some(v) => v.parse().map_err(|_| TleError::OmmMalformed {
+            format,
+            reason: format!("{key}={v:?} is not a valid number"),
+        }),
+    }
+}
+
 /// Parse an ISO-8601 OMM epoch (with optional fractional seconds and
 /// optional `Z`/`+00:00` zone) into a UTC [`Time`].
 pub(crate) fn parse_epoch(raw: &str) -> Result<Time<UTC>, TleError> {
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 3599211..f49ebd9 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,7 +13,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, opt_num, parse_epoch, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::{Classification, SatelliteNumber};
 
@@ -146,23 +146,14 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: opt_num(&kv, "EPHEMERIS_TYPE", "XML")?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: kv
-            .get("REV_AT_EPOCH")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: opt_num(&kv, "ELEMENT_SET_NO", "XML")?,
+        rev_at_epoch: opt_num(&kv, "REV_AT_EPOCH", "XML")?,
+        bstar: opt_num(&kv, "BSTAR", "XML")?,
+        mean_motion_dot: opt_num(&kv, "MEAN_MOTION_DOT", "XML")?,
+        mean_motion_ddot: opt_num(&kv, "MEAN_MOTION_DDOT", "XML")?,
     })
 }
 
-- 
2.43.0


From 58570aeeba970dd10795b2e634faaa96c4f0154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 25/36] fix: reject malformed values in EOP C04 records instead
 of reading them as zero

---
 src/formats/iers/eop.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 37e4b8e..a73b622 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -93,12 +93,17 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
             Ok(m) => m,
             Err(_) => continue,
         };
-        let x = parts[4].parse().unwrap_or(0.0);
-        let y = parts[5].parse().unwrap_or(0.0);
-        let ut1 = parts[6].parse().unwrap_or(0.0);
-        let lod = parts[7].parse().unwrap_or(0.0);
-        let dpsi = parts[8].parse().unwrap_or(0.0);
-        let deps = parts[9].parse().unwrap_or(0.0);
+        let value = |i: usize| -> Result<f64, FormatError> {
+            parts[i].parse().map_err(|_| {
+                FormatError::Format(format!("eop_c04: malformed value {:?}", parts[i]))
+            })
+        };
+        let x = value(4)?;
+        let y = value(5)?;
+        let ut1 = value(6)?;
+        let lod = value(7)?;
+        let dpsi = value(8)?;
+        let deps = value(9)?;
         out.push(EopRecord {
             mjd,
             eop: EopValues {
-- 
2.43.0


From c8dd38d5c58db6ea80e78c2dfeeaa03c7f568075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 26/36] fix: reject malformed ORBEX and SINEX (strict) epochs
 instead of substituting a date

---
 src/formats/igs/orbex.rs | 20 ++++++++++----------
 src/formats/igs/sinex.rs | 27 ++++++++++++++++-----------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/formats/igs/orbex.rs b/src/formats/igs/orbex.rs
index 911515b..71a23d2 100644
--- a/src/formats/igs/orbex.rs
+++ b/src/formats/igs/orbex.rs
@@ -169,10 +169,13 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
             let rest = line.trim_start_matches('#').trim();
             let parts: Vec<&str> = rest.split_whitespace().collect();
             if parts.len() >= 3 {
-                let year: i32 = parts[0].parse().unwrap_or(2000);
-                let doy: u32 = parts[1].parse().unwrap_or(1);
-                let sod: f64 = parts[2].parse().unwrap_or(0.0);
-                current_epoch_mjd = orbex_epoch_to_mjd(year, doy, sod);
+                let epoch = match (parts[0].parse(), parts[1].parse(), parts[2].parse()) {
+                    (Ok(year), Ok(doy), Ok(sod)) => orbex_epoch_to_mjd(year, doy, sod),
+                    _ => None,
+                };
+                current_epoch_mjd = epoch.ok_or_else(|| {
+                    FormatError::Format(format!("ORBEX line {lineno}: malformed epoch {rest:?}"))
+                })?;
             }
             continue;
         }
@@ -298,14 +301,11 @@ fn parse_f64(s: &str, lineno: usize, what: &str, mode: ParseMode) -> Result<f64,
     })
 }
 
-fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> f64 {
-    let epoch = match chrono::NaiveDate::from_yo_opt(year, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
+fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> Option<f64> {
+    let epoch = chrono::NaiveDate::from_yo_opt(year, doy.max(1))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 8171042..9e29bdc 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -239,7 +239,15 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
                     }
                 };
 
-                let ref_epoch_mjd = sinex_epoch_to_mjd(epoch_raw);
+                let epoch = sinex_epoch_to_mjd(epoch_raw);
+                if epoch.is_none() && mode == ParseMode::Strict {
+                    return Err(FormatError::located(
+                        "SINEX 2.10 §4.2",
+                        FileLocation::at_line(lineno),
+                        format!("cannot parse epoch: {epoch_raw}"),
+                    ));
+                }
+                let ref_epoch_mjd = epoch.unwrap_or(0.0);
                 let row = estimates.entry(code.clone()).or_default();
                 row.pt = pt;
                 row.soln = soln;
@@ -282,14 +290,14 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
 }
 
 /// Convert a SINEX epoch string `"YY:DDD:SSSSS"` to MJD.
-fn sinex_epoch_to_mjd(s: &str) -> f64 {
+fn sinex_epoch_to_mjd(s: &str) -> Option<f64> {
     let parts: Vec<&str> = s.split(':').collect();
     if parts.len() != 3 {
-        return 0.0;
+        return None;
     }
-    let yy = i32::from(parts[0].parse::<u16>().unwrap_or(0));
-    let doy: u32 = parts[1].parse().unwrap_or(1);
-    let sod: f64 = parts[2].parse().unwrap_or(0.0);
+    let yy = i32::from(parts[0].parse::<u16>().ok()?);
+    let doy: u32 = parts[1].parse().ok()?;
+    let sod: f64 = parts[2].parse().ok()?;
     let yyyy = if yy == 0 {
         2000
     } else if yy >= 80 {
@@ -297,13 +305,10 @@ fn sinex_epoch_to_mjd(s: &str) -> f64 {
     } else {
         2000 + yy
     };
-    let epoch = match chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
+    let epoch = chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 11814c0e946a5b4e9643915596860068923f6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 27/36] fix: treat malformed CPF and CRD header and flag
 numbers as bad records instead of zero

---
 src/formats/ilrs/cpf.rs | 19 ++++++-----
 src/formats/ilrs/crd.rs | 70 ++++++++++++++++++++++++++++++++---------
 src/formats/ilrs/mod.rs | 31 ++++++++++++++++++
 3 files changed, 97 insertions(+), 23 deletions(-)

diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 8ee184e..ffb95da 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -34,7 +34,7 @@
 //! - Pearlman, M. R., Degnan, J. J., & Bosworth, J. M. (2002). The
 //!   International Laser Ranging Service. Advances in Space Research,
 //!   30(2), 135–143.
-use super::{FileLocation, FormatError, ParseMode};
+use super::{accept, opt_num, FileLocation, FormatError, ParseMode};
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
@@ -370,20 +370,23 @@ fn parse_cpf_impl(
                 // v1: H2 cospar sic norad start_year ... frame
                 // Collect all tokens; reference frame is the last one.
                 let toks: Vec<&str> = tokens.collect();
+                // Time step: field index 15 for v2 (0-indexed), else scan.
+                let numbers = opt_num(toks.get(1).copied())
+                    .and_then(|sic| Ok((sic, opt_num(toks.get(15).copied())?)));
+                let loc = FileLocation::new(path.clone(), Some(line_no), None);
+                let Some((sic, time_step_s)) = accept(numbers, mode, "CPF v2 §4.1", loc, "H2")?
+                else {
+                    continue;
+                };
+                out.sic = sic;
+                out.time_step_s = time_step_s;
                 if let Some(cospar) = toks.first() {
                     out.cospar_id = cospar.to_string();
                     out.target_name = cospar.to_string();
                 }
-                if let Some(sic_str) = toks.get(1) {
-                    out.sic = sic_str.parse().unwrap_or(0);
-                }
                 if let Some(norad_str) = toks.get(2) {
                     out.norad = norad_str.to_string();
                 }
-                // Time step: field index 15 for v2 (0-indexed), else scan.
-                if let Some(step_str) = toks.get(15) {
-                    out.time_step_s = step_str.parse().unwrap_or(0.0);
-                }
                 // Reference frame: last token.
                 if let Some(frame) = toks.last() {
                     out.reference_frame = frame.to_string();
diff --git a/src/formats/ilrs/crd.rs b/src/formats/ilrs/crd.rs
index b9a0c4d..5adb4f4 100644
--- a/src/formats/ilrs/crd.rs
+++ b/src/formats/ilrs/crd.rs
@@ -34,7 +34,7 @@
 //!   <https://ilrs.gsfc.nasa.gov/docs/2022/ILRS_CRD_Format_v2.01.pdf>
 //! - Pearlman, M. R., Noll, C. E., et al. (2019). The ILRS: Current status
 //!   and future prospects. Journal of Geodesy, 93, 2161–2180.
-use super::{FileLocation, FormatError, ParseMode};
+use super::{accept, opt_num, FileLocation, FormatError, ParseMode};
 use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
 use qtty::length::Meters;
 use qtty::time::Seconds;
@@ -284,10 +284,20 @@ fn parse_crd_impl(
             "H2" => {
                 // H2 <station_name> <cdp_pad> <sys_no> <occ_no> <time_zone>
                 let name = tokens.next().unwrap_or("").to_string();
-                let cdp_pad = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
-                let sys_no = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
-                let occ_no = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
-                let time_zone = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
+                let mut numbers = || {
+                    Ok((
+                        opt_num(tokens.next())?,
+                        opt_num(tokens.next())?,
+                        opt_num(tokens.next())?,
+                        opt_num(tokens.next())?,
+                    ))
+                };
+                let loc = FileLocation::new(path.clone(), Some(line_no), None);
+                let Some((cdp_pad, sys_no, occ_no, time_zone)) =
+                    accept(numbers(), mode, "CRD v2 §4.1", loc, tag)?
+                else {
+                    continue;
+                };
                 out.station = CrdStation {
                     name: name.clone(),
                     cdp_pad,
@@ -301,10 +311,21 @@ fn parse_crd_impl(
             "H3" => {
                 // H3 <target_name> <sic> <norad> <sc_flag> <epoch_id>
                 let name = tokens.next().unwrap_or("").to_string();
-                let sic: i32 = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
+                let sic = opt_num::<i32>(tokens.next());
                 let norad = tokens.next().unwrap_or("").to_string();
-                let sc_flag: i32 = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
-                let epoch_id: i32 = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
+                let numbers = sic.and_then(|sic| {
+                    Ok((
+                        sic,
+                        opt_num::<i32>(tokens.next())?,
+                        opt_num::<i32>(tokens.next())?,
+                    ))
+                });
+                let loc = FileLocation::new(path.clone(), Some(line_no), None);
+                let Some((sic, sc_flag, epoch_id)) =
+                    accept(numbers, mode, "CRD v2 §4.1", loc, tag)?
+                else {
+                    continue;
+                };
                 out.target = CrdTarget {
                     name: name.clone(),
                     sic,
@@ -319,9 +340,18 @@ fn parse_crd_impl(
             "H4" => {
                 // H4 <type> <year> <month> <day> <hour> <min> <sec> ...
                 let _kind = tokens.next();
-                let year: i32 = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
-                let month: u32 = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
-                let day: u32 = tokens.next().and_then(|s| s.parse().ok()).unwrap_or(0);
+                let mut numbers = || {
+                    Ok((
+                        opt_num::<i32>(tokens.next())?,
+                        opt_num::<u32>(tokens.next())?,
+                        opt_num::<u32>(tokens.next())?,
+                    ))
+                };
+                let loc = FileLocation::new(path.clone(), Some(line_no), None);
+                let Some((year, month, day)) = accept(numbers(), mode, "CRD v2 §4.1", loc, tag)?
+                else {
+                    continue;
+                };
                 if let Some(naive) =
                     NaiveDate::from_ymd_opt(year, month, day).and_then(|d| d.and_hms_opt(0, 0, 0))
                 {
@@ -406,10 +436,20 @@ fn parse_crd_impl(
                         .first()
                         .map(|s| s.to_string())
                         .unwrap_or_else(|| current_sys.clone());
-                    let epoch_event: u8 = rest.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
-                    let filter_flag: u8 = rest.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
-                    let data_quality: u8 = rest.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
-                    let format_flag: u8 = rest.get(4).and_then(|s| s.parse().ok()).unwrap_or(0);
+                    let flags = || {
+                        Ok((
+                            opt_num::<u8>(rest.get(1).copied())?,
+                            opt_num::<u8>(rest.get(2).copied())?,
+                            opt_num::<u8>(rest.get(3).copied())?,
+                            opt_num::<u8>(rest.get(4).copied())?,
+                        ))
+                    };
+                    let loc = FileLocation::new(path.clone(), Some(line_no), None);
+                    let Some((epoch_event, filter_flag, data_quality, format_flag)) =
+                        accept(flags(), mode, "CRD v2 §4.1", loc, tag)?
+                    else {
+                        continue;
+                    };
                     let num_raws: Option<u32> = rest.get(5).and_then(|s| s.parse().ok());
                     // bin_rms is in picoseconds in the file; convert to metres.
                     let bin_rms_m: Option<Meters> = rest
diff --git a/src/formats/ilrs/mod.rs b/src/formats/ilrs/mod.rs
index 5ae2ff5..abfc10e 100644
--- a/src/formats/ilrs/mod.rs
+++ b/src/formats/ilrs/mod.rs
@@ -7,3 +7,34 @@ pub use crate::formats::error::{FileLocation, FormatError, ParseMode};
 
 pub mod cpf;
 pub mod crd;
+
+/// Read an optional numeric field of an ILRS record: absent (or the `na`
+/// placeholder) gives the default, anything else must be a number.
+fn opt_num<T: std::str::FromStr + Default>(token: Option<&str>) -> Result<T, FormatError> {
+    match token {
+        None | Some("na" | "NA") => Ok(T::default()),
+        Some(s) => s
+            .parse()
+            .map_err(|_| FormatError::Format(format!("malformed number {s:?}"))),
+    }
+}
+
+/// Apply the parse mode to a record: a malformed one fails in strict mode and
+/// is skipped (`None`) in permissive mode.
+fn accept<T>(
+    record: Result<T, FormatError>,
+    mode: ParseMode,
+    spec: &'static str,
+    location: FileLocation,
+    tag: &str,
+) -> Result<Option<T>, FormatError> {
+    match record {
+        Ok(v) => Ok(Some(v)),
+        Err(e) if mode == ParseMode::Strict => Err(FormatError::located(
+            spec,
+            location,
+            format!("record {tag}: {e}"),
+        )),
+        Err(_) => Ok(None),
+    }
+}
-- 
2.43.0


From 35db66b3a861e982647a7095b545dfbebb5ba47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 28/36] fix: reject malformed RINEX OBS and DORIS epoch numbers
 instead of reading them as zero

---
 src/formats/rinex/doris.rs | 19 +++++++++++++------
 src/formats/rinex/obs.rs   | 24 +++++++++++++++---------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index c304631..1d2dca8 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -76,6 +76,13 @@ pub struct RinexDoris {
 /// Backwards-compatible alias for older callers.
 pub type RinexDorisRecord = RinexDoris;
 
+/// Parse one number of an epoch record.
+#[cfg(feature = "doris")]
+fn number<T: std::str::FromStr>(s: &str) -> Result<T, FormatError> {
+    s.parse()
+        .map_err(|_| FormatError::Format(format!("rinex_doris: malformed number {s:?}")))
+}
+
 #[cfg(feature = "doris")]
 fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
     let mut buf = BufReader::new(reader);
@@ -118,12 +125,12 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             // RINEX 3 epoch flag line: "> YYYY MM DD HH MM SS.SSS"
             let parts: Vec<&str> = rest.split_whitespace().collect();
             if parts.len() >= 6 {
-                let y: i32 = parts[0].parse().unwrap_or(0);
-                let mo: u32 = parts[1].parse().unwrap_or(0);
-                let d: u32 = parts[2].parse().unwrap_or(0);
-                let h: u32 = parts[3].parse().unwrap_or(0);
-                let mi: u32 = parts[4].parse().unwrap_or(0);
-                let s: f64 = parts[5].parse().unwrap_or(0.0);
+                let y: i32 = number(parts[0])?;
+                let mo: u32 = number(parts[1])?;
+                let d: u32 = number(parts[2])?;
+                let h: u32 = number(parts[3])?;
+                let mi: u32 = number(parts[4])?;
+                let s: f64 = number(parts[5])?;
                 current_obs_epoch = Some(date_to_mjd(y, mo, d, h, mi, s));
                 current_sat = None;
             }
diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index f0f3885..4374e3c 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -61,6 +61,12 @@ pub struct RinexObs {
     pub epochs: Vec<ObsEpoch>,
 }
 
+/// Parse one whitespace-delimited number of a header or epoch record.
+fn number<T: std::str::FromStr>(s: &str) -> Result<T, FormatError> {
+    s.parse()
+        .map_err(|_| FormatError::Format(format!("rinex_obs: malformed number {s:?}")))
+}
+
 /// Parse a RINEX OBS file.
 pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
     let mut br = BufReader::new(rdr);
@@ -84,8 +90,8 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
             "APPROX POSITION XYZ" => {
                 let parts: Vec<f64> = body
                     .split_whitespace()
-                    .filter_map(|s| s.parse().ok())
-                    .collect();
+                    .map(number)
+                    .collect::<Result<_, _>>()?;
                 if parts.len() == 3 {
                     approx_xyz_m = Some([
                         Meters::new(parts[0]),
@@ -155,12 +161,12 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         if parts.len() < 9 {
             continue;
         }
-        let year: i32 = parts[1].parse().unwrap_or(0);
-        let month: u32 = parts[2].parse().unwrap_or(0);
-        let day: u32 = parts[3].parse().unwrap_or(0);
-        let hour: u32 = parts[4].parse().unwrap_or(0);
-        let minute: u32 = parts[5].parse().unwrap_or(0);
-        let second_f: f64 = parts[6].parse().unwrap_or(0.0);
+        let year: i32 = number(parts[1])?;
+        let month: u32 = number(parts[2])?;
+        let day: u32 = number(parts[3])?;
+        let hour: u32 = number(parts[4])?;
+        let minute: u32 = number(parts[5])?;
+        let second_f: f64 = number(parts[6])?;
         let second_int = second_f as u32;
         let nanos = ((second_f - second_int as f64) * 1e9).round() as u32;
         let naive = NaiveDate::from_ymd_opt(year, month, day)
@@ -171,7 +177,7 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 .map_err(|e| {
                     FormatError::Format(format!("rinex_obs: epoch UTC conversion: {e}"))
                 })?;
-        let n_sat: usize = parts[8].parse().unwrap_or(0);
+        let n_sat: usize = number(parts[8])?;
 
         let mut sats = HashMap::new();
         for _ in 0..n_sat {
-- 
2.43.0


From ffa75f419970331b23b7973bc0b25878120f8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 29/36] fix: reject malformed ANTEX offsets instead of shifting
 the remaining ones

---
 src/formats/igs/antex.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formats/igs/antex.rs b/src/formats/igs/antex.rs
index ca5da97..3a7ec4b 100644
--- a/src/formats/igs/antex.rs
+++ b/src/formats/igs/antex.rs
@@ -92,8 +92,12 @@ pub fn read_antex<R: Read>(rdr: R) -> Result<AntexCatalog, FormatError> {
                 if let Some(freq) = &current_freq {
                     let parts: Vec<f64> = body
                         .split_whitespace()
-                        .filter_map(|s| s.parse().ok())
-                        .collect();
+                        .map(|s| {
+                            s.parse().map_err(|_| {
+                                FormatError::Format(format!("antex: malformed offset {s:?}"))
+                            })
+                        })
+                        .collect::<Result<_, _>>()?;
                     if parts.len() == 3 {
                         current_pcos.insert(freq.clone(), Pco::new(parts[0], parts[1], parts[2]));
                     }
-- 
2.43.0


From c8e76e8bc9461078bca7455c5546b48713777041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 30/36] fix: the azimuth and Moon-phase searches refine to the
 caller's time tolerance

azimuth_crossings, azimuth_periods, find_phase_events and the illumination
period finders took a time_tolerance and refined every root to the built-in
default instead.
---
 src/event/azimuth/events.rs      | 25 ++++++++++--
 src/event/lunar/phase.rs         | 15 +++++--
 src/event/search/intervals.rs    | 69 +++++++++++++++++++++++++++++++-
 src/event/search/root_finding.rs |  5 ++-
 4 files changed, 103 insertions(+), 11 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 1ed108b..0b603de 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -195,8 +195,13 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
     );
     let step = scan_step_for(target, &opts);
 
-    let mut raw = intervals::find_crossings(window, step, &f, Radians::new(0.0));
-    let labeled = intervals::label_crossings(&mut raw, &f, Radians::new(0.0));
+    let (labeled, _) = intervals::find_directed_crossings_tol(
+        window,
+        step,
+        &f,
+        Radians::new(0.0),
+        opts.time_tolerance,
+    );
 
     labeled
         .iter()
@@ -307,7 +312,13 @@ pub(crate) fn azimuth_range_periods<T: AzimuthProvider>(
             cos_hw,
             query.correction_policy,
         );
-        intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0))
+        intervals::above_threshold_periods_directed_tol(
+            query.window,
+            step,
+            &f,
+            Radians::new(0.0),
+            query.opts.time_tolerance,
+        )
     } else {
         // ── Wrap-around arc [min, 360°) ∪ [0°, max] ──────────────────────
         // Complement arc is [max, min] (non-wrapping).
@@ -322,7 +333,13 @@ pub(crate) fn azimuth_range_periods<T: AzimuthProvider>(
             cos_hw,
             query.correction_policy,
         );
-        let outside = intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0));
+        let outside = intervals::above_threshold_periods_directed_tol(
+            query.window,
+            step,
+            &f,
+            Radians::new(0.0),
+            query.opts.time_tolerance,
+        );
         complement_within(query.window, &outside)
     }
 }
diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index ee1b7c2..f38aa74 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -636,7 +636,7 @@ pub fn find_phase_events<E: Ephemeris>(
 ) -> Vec<PhaseEvent> {
     let mut events = Vec::new();
     let step = opts.scan_step;
-    let _tol = opts.time_tolerance;
+    let tol = opts.time_tolerance;
 
     for kind in PhaseKind::ALL {
         let target = kind.target_elongation();
@@ -651,7 +651,7 @@ pub fn find_phase_events<E: Ephemeris>(
 
         // Scan for sign changes
         let threshold = Radians::new(0.0);
-        let raw_crossings = intervals::find_crossings(window, step, &f, threshold);
+        let raw_crossings = intervals::find_crossings_tol(window, step, &f, threshold, tol);
 
         // Filter: only keep crossings where the actual elongation is close
         // to the target (eliminates the extraneous root at target ± π).
@@ -805,7 +805,13 @@ pub fn illumination_above<E: Ephemeris>(
     k_min: IlluminationFractions,
     opts: PhaseSearchOpts,
 ) -> Vec<Interval<ModifiedJulianDate>> {
-    intervals::above_threshold_periods(window, opts.scan_step, &illumination_at_mjd::<E>, k_min)
+    intervals::above_threshold_periods_directed_tol(
+        window,
+        opts.scan_step,
+        &illumination_at_mjd::<E>,
+        k_min,
+        opts.time_tolerance,
+    )
 }
 
 /// Find all time windows in `window` where the geocentric illuminated
@@ -869,12 +875,13 @@ pub fn illumination_range<E: Ephemeris>(
     k_max: IlluminationFractions,
     opts: PhaseSearchOpts,
 ) -> Vec<Interval<ModifiedJulianDate>> {
-    intervals::in_range_periods(
+    intervals::in_range_periods_directed_tol(
         window,
         opts.scan_step,
         &illumination_at_mjd::<E>,
         k_min,
         k_max,
+        opts.time_tolerance,
     )
 }
 
diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index 826d8b9..793443f 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -78,6 +78,21 @@ pub fn find_crossings<V, F>(
     f: &F,
     threshold: Quantity<V>,
 ) -> Vec<ModifiedJulianDate>
+where
+    V: Unit,
+    F: Fn(ModifiedJulianDate) -> Quantity<V>,
+{
+    find_crossings_tol(period, step, f, threshold, root_finding::DEFAULT_TOL_DAYS)
+}
+
+/// Like [`find_crossings`], refining every root to `tolerance`.
+pub fn find_crossings_tol<V, F>(
+    period: Interval<ModifiedJulianDate>,
+    step: Days,
+    f: &F,
+    threshold: Quantity<V>,
+    tolerance: Days,
+) -> Vec<ModifiedJulianDate>
 where
     V: Unit,
     F: Fn(ModifiedJulianDate) -> Quantity<V>,
@@ -105,7 +120,7 @@ where
 
         if (prev < zero && next_v > zero) || (prev > zero && next_v < zero) {
             if let Some(root_t) =
-                root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
+                root_finding::brent_tol(Interval::new(t, next_t), prev, next_v, g, tolerance)
             {
                 if root_t >= t_start_v && root_t <= t_end_v {
                     crossings.push(root_t);
@@ -132,6 +147,21 @@ pub fn find_directed_crossings<V, F>(
     f: &F,
     threshold: Quantity<V>,
 ) -> (Vec<LabeledCrossing>, bool)
+where
+    V: Unit,
+    F: Fn(ModifiedJulianDate) -> Quantity<V>,
+{
+    find_directed_crossings_tol(period, step, f, threshold, root_finding::DEFAULT_TOL_DAYS)
+}
+
+/// Like [`find_directed_crossings`], refining every root to `tolerance`.
+pub fn find_directed_crossings_tol<V, F>(
+    period: Interval<ModifiedJulianDate>,
+    step: Days,
+    f: &F,
+    threshold: Quantity<V>,
+    tolerance: Days,
+) -> (Vec<LabeledCrossing>, bool)
 where
     V: Unit,
     F: Fn(ModifiedJulianDate) -> Quantity<V>,
@@ -169,7 +199,7 @@ where
 
         if let Some(direction) = direction {
             if let Some(root_t) =
-                root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
+                root_finding::brent_tol(Interval::new(t, next_t), prev, next_v, g, tolerance)
             {
                 if root_t >= t_start_v && root_t <= t_end_v {
                     crossings.push(LabeledCrossing {
@@ -452,6 +482,22 @@ where
     build_above_periods_directed(&labeled, period, start_above)
 }
 
+/// Like [`above_threshold_periods_directed`], refining every root to `tolerance`.
+pub fn above_threshold_periods_directed_tol<V, F>(
+    period: Interval<ModifiedJulianDate>,
+    step: Days,
+    f: &F,
+    threshold: Quantity<V>,
+    tolerance: Days,
+) -> Vec<Interval<ModifiedJulianDate>>
+where
+    V: Unit,
+    F: Fn(ModifiedJulianDate) -> Quantity<V>,
+{
+    let (labeled, start_above) = find_directed_crossings_tol(period, step, f, threshold, tolerance);
+    build_above_periods_directed(&labeled, period, start_above)
+}
+
 /// Find all periods where `f(t) > threshold` using pre‑computed key‑time
 /// segments (culmination‑based).
 pub fn above_threshold_periods_segmented<V, F>(
@@ -512,6 +558,25 @@ where
     intersect(&above_min, &below_max)
 }
 
+/// Like [`in_range_periods_directed`], refining every root to `tolerance`.
+pub fn in_range_periods_directed_tol<V, F>(
+    period: Interval<ModifiedJulianDate>,
+    step: Days,
+    f: &F,
+    h_min: Quantity<V>,
+    h_max: Quantity<V>,
+    tolerance: Days,
+) -> Vec<Interval<ModifiedJulianDate>>
+where
+    V: Unit,
+    F: Fn(ModifiedJulianDate) -> Quantity<V>,
+{
+    let above_min = above_threshold_periods_directed_tol(period, step, f, h_min, tolerance);
+    let above_max = above_threshold_periods_directed_tol(period, step, f, h_max, tolerance);
+    let below_max = complement(period, &above_max);
+    intersect(&above_min, &below_max)
+}
+
 /// Like [`in_range_periods`] but using key‑time segments.
 pub fn in_range_periods_segmented<V, F>(
     key_times: &[ModifiedJulianDate],
diff --git a/src/event/search/root_finding.rs b/src/event/search/root_finding.rs
index bf3ff0d..a0668fe 100644
--- a/src/event/search/root_finding.rs
+++ b/src/event/search/root_finding.rs
@@ -45,6 +45,9 @@ use crate::time::{Interval, TimeInstant};
 /// ≈ 0.86 µs when the domain is days.
 const DEFAULT_TOL: f64 = 1e-9;
 
+/// [`DEFAULT_TOL`] for a time domain measured in days.
+pub(super) const DEFAULT_TOL_DAYS: Days = Days::new(DEFAULT_TOL);
+
 /// Maximum iterations for Brent.
 const BRENT_MAX_ITER: usize = 100;
 
@@ -113,7 +116,7 @@ where
     V: Unit,
     F: Fn(T) -> Quantity<V>,
 {
-    brent_core(period, f_lo, f_hi, &f, Days::new(DEFAULT_TOL))
+    brent_core(period, f_lo, f_hi, &f, DEFAULT_TOL_DAYS)
 }
 
 /// Like [`brent_with_values`] but with a caller‑chosen tolerance.
-- 
2.43.0


From 6c82e207c59e9fb1ffdd23e32539e986e4a1ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 31/36] fix: a star's azimuth honours the correction policy it
 is asked for

azimuth_at_with_policy on a Star fell back to the trait default, which drops
the policy; its altitude counterpart and bare ICRS directions honour it.
---
 src/event/azimuth/provider.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/event/azimuth/provider.rs b/src/event/azimuth/provider.rs
index fd74138..2f52b8b 100644
--- a/src/event/azimuth/provider.rs
+++ b/src/event/azimuth/provider.rs
@@ -286,6 +286,16 @@ impl AzimuthProvider for Star<'_> {
         dir.azimuth_at(observer, mjd)
     }
 
+    fn azimuth_at_with_policy(
+        &self,
+        observer: &Geodetic<ECEF>,
+        mjd: ModifiedJulianDate,
+        policy: crate::astro::apparent::CorrectionPolicy,
+    ) -> Radians {
+        let dir = direction::ICRS::from(self);
+        dir.azimuth_at_with_policy(observer, mjd, policy)
+    }
+
     fn azimuth_periods(&self, query: &AzimuthQuery) -> Vec<Interval<ModifiedJulianDate>> {
         let dir = direction::ICRS::from(self);
         dir.azimuth_periods(query)
-- 
2.43.0


From 74d078781255de1455f03a57a133e54295af0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:34 +0000
Subject: [PATCH 32/36] fix: covariance validation refuses NaN entries

---
 src/pod/problem/covariance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pod/problem/covariance.rs b/src/pod/problem/covariance.rs
index 85b08c1..f631227 100644
--- a/src/pod/problem/covariance.rs
+++ b/src/pod/problem/covariance.rs
@@ -85,7 +85,7 @@ impl ParameterCovariance {
                 let a = self.data[i * n + j];
                 let b = self.data[j * n + i];
                 let delta = (a - b).abs();
-                if delta > tol {
+                if delta.is_nan() || delta > tol {
                     return Err(CovarianceError::NotSymmetric { i, j, delta, tol });
                 }
             }
@@ -100,7 +100,7 @@ impl ParameterCovariance {
         let n = self.n();
         for i in 0..n {
             let v = self.data[i * n + i];
-            if v < 0.0 {
+            if v.is_nan() || v < 0.0 {
                 return Err(CovarianceError::NotPsdDiagonal { i, value: v });
             }
         }
-- 
2.43.0


From 4130617f35c0c60737a71fd57a1bde5b150f483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:03 +0000
Subject: [PATCH 33/36] fix: a refused observation row leaves the normal
 equations unchanged

---
 src/pod/estimation/wls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pod/estimation/wls.rs b/src/pod/estimation/wls.rs
index b884caa..86f55ba 100644
--- a/src/pod/estimation/wls.rs
+++ b/src/pod/estimation/wls.rs
@@ -122,7 +122,7 @@ impl NormalEquations {
                 "residual must be finite (got {residual})"
             )));
         }
-        let w = 1.0 / (sigma * sigma);
+        // Check the whole row before accumulating any of it.
         for &(i, hi) in partials {
             if i >= self.n {
                 return Err(WlsSolverError::InvalidIndex {
@@ -135,6 +135,9 @@ impl NormalEquations {
                     "partial at index {i} must be finite (got {hi})"
                 )));
             }
+        }
+        let w = 1.0 / (sigma * sigma);
+        for &(i, hi) in partials {
             // Accumulate into the upper triangle; symmetrise at solve time.
             self.b[(i, 0)] += w * hi * residual;
             for &(j, hj) in partials {
-- 
2.43.0


From 7c2e9de264d0c98ce27b325fcfa2d2f587ef788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:03 +0000
Subject: [PATCH 34/36] fix: a text kernel that cannot be parsed leaves the
 SPICE context unchanged

---
 src/spice/context.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/spice/context.rs b/src/spice/context.rs
index 60a719f..5cb62cc 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -120,26 +120,30 @@ impl SpiceContext {
             .keys()
             .any(|key| key.starts_with("INS") && key.contains("_FOV"));
 
-        if has_lsk {
-            self.kernel_set
-                .set_lsk(alias.clone(), LeapSecondKernel::from_text(text)?);
+        // Parse every part before installing any of them.
+        let lsk = has_lsk
+            .then(|| LeapSecondKernel::from_text(text))
+            .transpose()?;
+        let fk = has_fk.then(|| FrameKernel::from_text(text)).transpose()?;
+        let pck = has_pck.then(|| PckKernel::from_text(text)).transpose()?;
+        let sclks = has_sclk.then(|| SclkKernel::from_text(text)).transpose()?;
+        let ik = has_ik.then(|| IkKernel::from_text(text)).transpose()?;
+
+        if let Some(lsk) = lsk {
+            self.kernel_set.set_lsk(alias.clone(), lsk);
         }
-        if has_fk {
-            let fk = FrameKernel::from_text(text)?;
+        if let Some(fk) = fk {
             self.frame_registry.add_fk(&fk);
             self.kernel_set.add_fk(alias.clone(), fk);
         }
-        if has_pck {
-            self.kernel_set
-                .add_pck_text(alias.clone(), PckKernel::from_text(text)?);
+        if let Some(pck) = pck {
+            self.kernel_set.add_pck_text(alias.clone(), pck);
         }
-        if has_sclk {
-            for sclk in SclkKernel::from_text(text)? {
-                self.kernel_set.add_sclk(alias.clone(), sclk);
-            }
+        for sclk in sclks.into_iter().flatten() {
+            self.kernel_set.add_sclk(alias.clone(), sclk);
         }
-        if has_ik {
-            self.kernel_set.add_ik(alias, IkKernel::from_text(text)?);
+        if let Some(ik) = ik {
+            self.kernel_set.add_ik(alias, ik);
         }
         Ok(())
     }
-- 
2.43.0


From de5fc0e545e9e20262a8d633ecea5b6dd268d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:23 +0000
Subject: [PATCH 35/36] fix: PlanetBuilderError implements std::error::Error
 like every other error the library returns

---
 src/bodies/planets.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bodies/planets.rs b/src/bodies/planets.rs
index 87b9ac2..3759402 100644
--- a/src/bodies/planets.rs
+++ b/src/bodies/planets.rs
@@ -129,6 +129,18 @@ pub enum PlanetBuilderError {
     MissingOrbit,
 }
 
+impl std::fmt::Display for PlanetBuilderError {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.write_str(match self {
+            Self::MissingMass => "planet mass was not supplied",
+            Self::MissingRadius => "planet radius was not supplied",
+            Self::MissingOrbit => "planet orbital elements were not supplied",
+        })
+    }
+}
+
+impl std::error::Error for PlanetBuilderError {}
+
 /// Fluent builder for [`Planet`].  All setters accept any type that can be
 /// converted into the required unit wrapper via `Into`.
 #[derive(Debug, Default, Clone)]
-- 
2.43.0


From 8648a6df0d0c28c9ce1937f921dc1365f315a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:26 +0000
Subject: [PATCH 36/36] fix: PlanetBuilder::build_unchecked keeps the albedo it
 was given

---
 src/bodies/planets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bodies/planets.rs b/src/bodies/planets.rs
index 3759402..2121c0e 100644
--- a/src/bodies/planets.rs
+++ b/src/bodies/planets.rs
@@ -199,7 +199,7 @@ impl PlanetBuilder {
                 mass,
                 radius,
                 orbit,
-                albedo: None,
+                albedo: self.albedo,
             },
             _ => panic!("PlanetBuilder::build_unchecked called with missing fields"),
         }
-- 
2.43.0

