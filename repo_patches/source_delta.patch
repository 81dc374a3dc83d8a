From 3b20529e5cf0b1e8921ad52ba3ac882ffdb74797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 01/13] fix: delta_at: a leap second takes effect in the month
 it is listed for, not one month later

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index e02c44c..93592bc 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -84,7 +84,7 @@ impl DeltaAt for GregorianDate {
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month < m)
+	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From ed75f13119aca020bb16ffb50abcf7cbcb35f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 02/13] fix: GregorianDate::to_julian: count days in i64, large
 years overflowed i32

---
 crates/tofas/src/calendar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index f34a449..c6927d3 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -73,6 +73,7 @@ impl GregorianDate {
     /// Source: cal2jd.for
     pub fn to_julian(&self)->(R,R) {
 	let &Self{ year,month,day } = self;
+	let (year,month,day) = (i64::from(year),i64::from(month),i64::from(day));
 	let my = ( month - 14 ) / 12;
 	let iypmy = year + my;
 	let djm = ( 1461 * ( iypmy + 4800 ) ) / 4
-- 
2.43.0


From a69c61d03b28b112eb192c71126d1dbdbfe954f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 03/13] fix: GregorianDate::from_julian: compute in i64, dates
 below DJ_MAX overflowed i32

---
 crates/tofas/src/calendar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index c6927d3..aa36304 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -107,7 +107,7 @@ impl GregorianDate {
 	    f += 1.0;
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
-	let jd = d as i32 + 1;
+	let jd = i64::from(d as i32) + 1;
 
 	let l = jd + 68569;
 	let n = ( 4*l ) / 146097;
@@ -122,9 +122,9 @@ impl GregorianDate {
 	let fd = f;
 
 	Ok((Self {
-	    year:iy,
-	    month:im,
-	    day:id },
+	    year:iy as i32,
+	    month:im as i32,
+	    day:id as i32 },
 	    fd))
     }
 }
-- 
2.43.0


From ce11c6d6b3ee4a493c7b6030ee22931c16348995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 04/13] fix: GregorianDate::from_julian: keep the fraction of
 day below one

---
 crates/tofas/src/calendar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index aa36304..09e06e8 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -105,6 +105,10 @@ impl GregorianDate {
 	let mut f = (f1 + f2) % 1.0;
 	if f < 0.0 {
 	    f += 1.0;
+	    // A tiny negative fraction rounds up to the next day
+	    if f >= 1.0 {
+		f = 0.0;
+	    }
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
 	let jd = i64::from(d as i32) + 1;
-- 
2.43.0


From d398c1fdd460a0c2866eb48d277b1e77e328d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 05/13] fix: GregorianDate::from_julian: reject NaN

---
 crates/tofas/src/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 09e06e8..4da51df 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -88,7 +88,7 @@ impl GregorianDate {
     /// Source: jd2cal.for
     pub fn from_julian(dj1:R,dj2:R)->Result<(Self,R),CalendarError> {
 	let dj = dj1 + dj2;
-	if dj < DJ_MIN || dj > DJ_MAX {
+	if !(dj >= DJ_MIN && dj <= DJ_MAX) {
 	    return Err(CalendarError::BadJulian);
 	}
 
-- 
2.43.0


From 6bae430c914bee93bcf8545f644252c0e6537c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 06/13] fix: HMS::from_fraction_of_day: reject NaN

---
 crates/tofas/src/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 4da51df..c314619 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -145,7 +145,7 @@ impl HMS {
     }
     
     pub fn from_fraction_of_day(f:f64)->Result<Self,CalendarError> {
-	if f < 0.0 || f > 1.0 {
+	if !(f >= 0.0 && f <= 1.0) {
 	    return Err(CalendarError::BadFract)
 	}
 	let s = 86400.0 * f;
-- 
2.43.0


From 0fa4b29b5aa696e9fb8ee217e8903996c1becec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 07/13] fix: delta_at: reject a NaN fraction of day

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 93592bc..1ed23ab 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -71,7 +71,7 @@ impl DeltaAt for GregorianDate {
 	let iy = self.year;
 	let im = self.month;
 	
-	if fd < 0.0 || fd > 1.0 {
+	if !(fd >= 0.0 && fd <= 1.0) {
 	    return Err(DeltaAtError::BadFract);
 	}
 
-- 
2.43.0


From ae80c0c384c2a05440ac2a7a591b502f16d7cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 08/13] fix: delta_at: count months in i64, large years
 overflowed i32

---
 crates/tofas/src/delta_at.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 1ed23ab..4fbf38c 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -69,7 +69,6 @@ impl DeltaAt for GregorianDate {
     // Returns None for a pre-UTC year
     fn delta_at(&self,fd:f64)->Result<Option<f64>,DeltaAtError> {
 	let iy = self.year;
-	let im = self.month;
 	
 	if !(fd >= 0.0 && fd <= 1.0) {
 	    return Err(DeltaAtError::BadFract);
@@ -79,12 +78,12 @@ impl DeltaAt for GregorianDate {
 	    return Ok(None);
 	}
 
-	let m = 12*iy + im;
+	let m = 12*i64::from(iy) + i64::from(self.month);
 
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
+	    .rposition(|DatData { year,month,.. }| i64::from(12*year + month) <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 0de7e061a427b896af6761a2aa1b348e3fed8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 09/13] fix: EllipsoidConverter::new: reject NaN and a zero
 radius

---
 crates/tofas/src/ellipsoid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 78968b0..93eeee2 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -125,11 +125,11 @@ impl EllipsoidConverter {
     pub fn new(ellipsoid:&Ellipsoid)->Result<Self,EllipsoidError> {
 	let &Ellipsoid{ a,f } = ellipsoid;
 
-	if f < 0.0 || f >= 1.0 {
+	if !(f >= 0.0 && f < 1.0) {
 	    return Err(EllipsoidError::InvalidFlattening);
 	}
 
-	if a < 0.0 {
+	if !(a > 0.0) {
 	    return Err(EllipsoidError::InvalidRadius);
 	}
 
-- 
2.43.0


From bfa33cf597fd84151257c9ad19ce45662a988ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 10/13] fix: Geodetic360: keep the latitude of the North pole

---
 crates/tofas/src/ellipsoid.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 93eeee2..b3bc6ba 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,7 +54,14 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
-	let lat = (gd.phi/DEGREE + 90.0).rem_euclid(180.0) - 90.0;
+	let lat = gd.phi/DEGREE;
+	let lat =
+	    if -90.0 <= lat && lat <= 90.0 {
+		// Including +90, which rem_euclid would map to -90
+		lat
+	    } else {
+		(lat + 90.0).rem_euclid(180.0) - 90.0
+	    };
 	debug_assert!(-180.0 <= lon && lon <= 180.0);
 	debug_assert!(-90.0 <= lat && lat <= 90.0);
 	Self {
-- 
2.43.0


From 079efd959a2ded46c29c97ba1257b074744d29e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 11/13] fix: Geodetic360: do not panic when converting or
 printing NaN coordinates

---
 crates/tofas/src/ellipsoid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index b3bc6ba..edbea87 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -62,8 +62,8 @@ impl From<&Geodetic> for Geodetic360 {
 	    } else {
 		(lat + 90.0).rem_euclid(180.0) - 90.0
 	    };
-	debug_assert!(-180.0 <= lon && lon <= 180.0);
-	debug_assert!(-90.0 <= lat && lat <= 90.0);
+	debug_assert!(!(lon < -180.0 || lon > 180.0));
+	debug_assert!(!(lat < -90.0 || lat > 90.0));
 	Self {
 	    lat,
 	    lon,
-- 
2.43.0


From 0d9a54e223377d3e0a4dafc4123986bcab6eac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 12/13] fix: Vector::angle: parallel vectors gave NaN

---
 crates/tofas/src/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 318334f..4ddd436 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -84,7 +84,8 @@ impl Vector for Vec3 {
     }
 
     fn angle(self,b:Self)->R {
-	acos(self.normalize().dot(b.normalize()))
+	// The dot product of parallel unit vectors can round to just above one
+	acos(self.normalize().dot(b.normalize()).clamp(-1.0,1.0))
     }
 }
 
-- 
2.43.0


From 23127c3a1d287029da58629b4b4fdae7bde96b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 13/13] fix: anp: keep the result below one turn

---
 crates/tofas/src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 4ddd436..88ad457 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -31,6 +31,10 @@ pub fn anp(a:R)->R {
     let mut w = a % TWO_PI;
     if w < 0.0 {
 	w += TWO_PI;
+	// A tiny negative angle rounds up to a full turn
+	if w >= TWO_PI {
+	    w = 0.0;
+	}
     }
     w
 }
-- 
2.43.0

