From 2cea8778e610a6a087587fc25ac982247eebf614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 1/8] fix: a panel counts an accepted observation as activity

last_update was only set on construction so that a panel with an
inactivity limit became inactive forever, no matter what it observed.
---
 src/instruments/panel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index da2b2b1..2af6ddc 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -350,6 +350,8 @@ where
             return 0;
         }
 
+        self.last_update = Instant::now();
+
         let mut instruments_updated = 0;
 
         self.counter
-- 
2.43.0


From 94f260bdb8a607ceeefaf66c5f8059ac68ceec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 2/8] fix: inactive components show no values even if the
 activity state is hidden

With show_activity_state(false) the inactivity limit of a panel, cockpit
or processor had no effect at all.
---
 src/cockpit.rs           | 16 ++++++++--------
 src/instruments/panel.rs | 16 ++++++++--------
 src/processor.rs         | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/cockpit.rs b/src/cockpit.rs
index 7f6625f..7ff305e 100644
--- a/src/cockpit.rs
+++ b/src/cockpit.rs
@@ -216,19 +216,19 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
-            if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
+            if self.last_activity_at.elapsed() > d {
+                if self.show_activity_state {
                     into.items
                         .push(("_inactive".to_string(), ItemKind::Boolean(true)));
                     into.items
                         .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
                 }
+                return;
+            } else if self.show_activity_state {
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(false)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(true)));
             }
         };
 
diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index 2af6ddc..d0577c4 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -280,19 +280,19 @@ where
     fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_default_descriptives(self, into, descriptive);
         if let Some(d) = self.max_inactivity_duration {
-            if self.show_activity_state {
-                if self.last_update.elapsed() > d {
+            if self.last_update.elapsed() > d {
+                if self.show_activity_state {
                     into.items
                         .push(("_inactive".to_string(), ItemKind::Boolean(true)));
                     into.items
                         .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
                 }
+                return;
+            } else if self.show_activity_state {
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(false)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(true)));
             }
         };
         self.counter
diff --git a/src/processor.rs b/src/processor.rs
index cad49c7..edea74f 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -460,19 +460,19 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
-            if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
+            if self.last_activity_at.elapsed() > d {
+                if self.show_activity_state {
                     into.items
                         .push(("_inactive".to_string(), ItemKind::Boolean(true)));
                     into.items
                         .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
                 }
+                return;
+            } else if self.show_activity_state {
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(false)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(true)));
             }
         };
 
-- 
2.43.0


From acf0bf3bf2c7657ccb078b9db220db7d0fea0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 3/8] fix: do not saturate floats out of range when converting
 to an integer

Floats below the smallest value of the target type and the floats 2^63
and 2^64 were converted to a different number instead of none.
---
 src/observation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/observation.rs b/src/observation.rs
index 19f93c1..0e78e98 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -257,8 +257,10 @@ impl ObservedValue {
                 }
             }
             ObservedValue::Float(v) => {
-                if v <= std::i64::MAX as f64 {
-                    Some(v.round() as i64)
+                let v = v.round();
+                // `i64::MAX as f64` is 2^63 and does not fit anymore
+                if v >= std::i64::MIN as f64 && v < std::i64::MAX as f64 {
+                    Some(v as i64)
                 } else {
                     None
                 }
@@ -281,8 +283,10 @@ impl ObservedValue {
             }
             ObservedValue::UnsignedInteger(v) => Some(v),
             ObservedValue::Float(v) => {
-                if v <= std::u64::MAX as f64 {
-                    Some(v.round() as u64)
+                let v = v.round();
+                // `u64::MAX as f64` is 2^64 and does not fit anymore
+                if v >= 0.0 && v < std::u64::MAX as f64 {
+                    Some(v as u64)
                 } else {
                     None
                 }
-- 
2.43.0


From 5495e2d568d2a9efb601518e4438ba15793cb9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 4/8] fix: a negative integer item is not a duration

Negative integers were wrapped around into durations of centuries.
---
 src/snapshot.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 0a70e92..e9ac4f0 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -245,7 +245,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_nanos(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_nanos(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_nanos(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -256,7 +258,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_micros(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_micros(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_micros(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -267,7 +271,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_millis(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_millis(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_millis(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -278,7 +284,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_secs(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_secs(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_secs(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
-- 
2.43.0


From c99d3b804dcb297526c63a72c30bc79fc9841ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 5/8] fix: render the smallest signed integer as JSON without
 overflowing

---
 src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index e9ac4f0..c706786 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -361,7 +361,9 @@ impl ItemKind {
             }
             ItemKind::Float(v) => v.into(),
             ItemKind::UInt(v) => v.into(),
-            ItemKind::Int(v) => v.into(),
+            ItemKind::Int(v) => {
+                json::number::Number::from_parts(v >= 0, v.unsigned_abs(), 0).into()
+            }
             ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),
         }
     }
-- 
2.43.0


From 3b5a99997b223b26b01f9f5d37ccb2d06280a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 6/8] fix: evaluate the state of a time switch once per
 snapshot

---
 src/instruments/switches/non_occurrence_indicator.rs | 6 ++++--
 src/instruments/switches/occurrence_indicator.rs     | 6 ++++--
 src/instruments/switches/staircase_timer.rs          | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index f4f4acc..aa7674a 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -225,10 +225,12 @@ impl PutsSnapshot for NonOccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        // The state depends on the current time, so evaluate it only once.
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index 2748523..c7bded2 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -220,10 +220,12 @@ impl PutsSnapshot for OccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        // The state depends on the current time, so evaluate it only once.
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 0ab2a8c..6921462 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -226,10 +226,12 @@ impl PutsSnapshot for StaircaseTimer {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        // The state depends on the current time, so evaluate it only once.
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
-- 
2.43.0


From 67b9dfe71fc6e5278295756979c95bb90395bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 7/8] fix: a maximum age beyond the range of the clock drops
 nothing

Instant::now() - max_age panics if the instant cannot be represented, which
ended the driver thread.
---
 src/processor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/processor.rs b/src/processor.rs
index edea74f..3c7d7a6 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -127,9 +127,13 @@ impl ProcessingStrategy {
             ProcessingStrategy::DropOlderThan {
                 max_age,
                 drop_deltas,
-            } => ProcessingDecider::DropBeforeDeadline {
-                drop_if_older_than: Instant::now() - max_age,
-                drop_deltas,
+            } => match Instant::now().checked_sub(max_age) {
+                Some(drop_if_older_than) => ProcessingDecider::DropBeforeDeadline {
+                    drop_if_older_than,
+                    drop_deltas,
+                },
+                // The deadline lies before any possible timestamp
+                None => ProcessingDecider::ProcessAll,
             },
         }
     }
-- 
2.43.0


From 7f2ca4020bef636d4970518b530c162f2458b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 8/8] fix: the inactivity alarm of the driver ignores runs
 without observations

The alarm is documented to be true if no observations have been made for a
certain amount of time, but every run of the driver, even one that found
nothing to process, kept it off.
---
 src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver.rs b/src/driver.rs
index 7c53257..962913e 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -726,7 +726,9 @@ impl DriverInstruments {
                     now,
                 ));
         }
-        self.inactivity_alarm.update(&Update::Observation(now));
+        if outcome.something_happened() {
+            self.inactivity_alarm.update(&Update::Observation(now));
+        }
     }
 
     pub fn update_post_snapshot(&mut self, snapshot_started: Instant) {
-- 
2.43.0

