From 0bf0cb57663fa2efcc5f40b7ba4cc2e8941ed5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 1/6] fix: date_from_float fails on the first day of a year

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55684f2..4d19c99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,9 +52,11 @@ pub fn date_to_float(dt: NDt) -> f64 {
 Converts a float to a NaiveDate with 1(One) year represented by 1.0
 */
 pub fn date_from_float(yr: f64) -> NDt {
-    let y = (yr - 0.00274).floor();
+    // a date is its ordinal / days in year, so 1st Jan is 1/365 (or 1/366): go back half a day only
+    let y = (yr - 0.5 / 366.0).floor();
     let yp = y as i32;
-    NDt::from_yo_opt(yp, ((yr - y) * days_in_year(yp) as f64).round() as u32).unwrap()
+    let ds = ((yr - y) * days_in_year(yp) as f64).round().max(1.0);
+    NDt::from_yo_opt(yp, ds as u32).unwrap()
 }
 
 /**
-- 
2.43.0


From 54588bdf840e5fbac76ebe2ad45eaa4422bb2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 2/6] fix: check_dates compares the second period with the
 start of the first

---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index bb6c66a..6ebfe1b 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1301,8 +1301,8 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
-    let (mut dp, dt) = dts[0];
-    if dp > dt {
+    let (dt, mut dp) = dts[0];
+    if dt > dp {
         return false;
     }
 
-- 
2.43.0


From dff33b04812d5cf5c559150f531aec263620837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 3/6] fix: split_periods loses a period of exactly 120 days

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index 6ebfe1b..5c9763f 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1386,7 +1386,7 @@ impl Accounts {
         (
             dts.clone()
                 .filter_map(|&(d0, d1)| {
-                    if d0 + Duration::days(120) < d1 {
+                    if d0 + Duration::days(120) <= d1 {
                         Some((d0, d1))
                     } else {
                         None
-- 
2.43.0


From ef7739b5b768325fb3ec33d4055e5b76af838dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 4/6] fix: consecutive_periods fails when the day does not
 exist in an earlier month

---
 src/statements.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 5c9763f..566b906 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1332,13 +1332,11 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     for _ in 0..100 {
         let (y1, m1) = (dt_1.year(), dt_1.month());
         let (yq, mq) = pr_qtr(y1, m1);
-        let dt_q = NDt::from_ymd_opt(yq, mq, dt).unwrap();
-        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt).unwrap();
+        // the day may not exist in the earlier month (31st, 29th Feb), then no period starts there
+        let qtr = NDt::from_ymd_opt(yq, mq, dt).filter(|&d| prd.contains(&(d, dt_1)));
+        let ann = || NDt::from_ymd_opt(y1 - 1, m1, dt).filter(|&d| prd.contains(&(d, dt_1)));
 
-        if prd.contains(&(dt_q, dt_1)) {
-            bt.insert((dt_q, dt_1));
-            dt_1 = dt_q;
-        } else if prd.contains(&(dt_0, dt_1)) {
+        if let Some(dt_0) = qtr.or_else(ann) {
             bt.insert((dt_0, dt_1));
             dt_1 = dt_0;
         } else {
-- 
2.43.0


From 4010d2a40e6f55bfca019b4788451fa07d441f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 5/6] fix: annuity value and payment are NaN at zero rate

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4d19c99..bfad128 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -262,6 +262,9 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
 - m   = number of payments per period (say, monthly where `m = 12`)
 */
 pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -pmt * n * m - fv;
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
 }
@@ -273,6 +276,9 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
 - m  = number of payments per period (say, monthly where m = 12)
 */
 pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -(pv + fv) / (n * m);
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
 }
-- 
2.43.0


From b82a667d9885f2f6e2d96604380592d70df59257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 6/6] fix: cash flow schedule loses the last coupon when freq *
 t_life rounds down

---
 src/fixedincomes/bonds.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds.rs b/src/fixedincomes/bonds.rs
index 5515686..2acc8bd 100644
--- a/src/fixedincomes/bonds.rs
+++ b/src/fixedincomes/bonds.rs
@@ -74,7 +74,8 @@ impl CouponBond {
      */
     pub fn generate_cashflow(&self) -> Vec<f64> {
         let c = self.par * self.c / self.freq;
-        let sz = (self.freq * self.t_life) as usize;
+        // freq * t_life may fall just short of a whole number, as 52.0 * (15.0 / 52.0)
+        let sz = (self.freq * self.t_life + 1e-6) as usize;
         let mut cb: Vec<f64> = vec![c; sz];
         cb[sz - 1] += self.par;
         cb
-- 
2.43.0

