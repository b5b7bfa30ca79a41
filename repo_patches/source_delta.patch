From cd9e33335669d5249d3c6a75f8ce77c4b18da190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 001/118] fix: overflow when encoding bound ranges that end at
 usize::MAX

---
 src/encodings/card/mod.rs | 12 ++++++------
 src/encodings/pb/mod.rs   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index c3b846a..37c435f 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -455,10 +455,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits()),
         std::ops::Bound::Unbounded => enc.n_lits(),
     }
@@ -471,10 +471,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
@@ -487,10 +487,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index a206e2a..ae8d62c 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -503,10 +503,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum()),
         std::ops::Bound::Unbounded => enc.weight_sum(),
     }
@@ -519,10 +519,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
@@ -535,10 +535,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
-- 
2.43.0


From f16904bd27653360a27013133f16e1f86d98e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 002/118] fix: include bound 0 when encoding both bounds over
 an unbounded range start

---
 src/encodings/card/mod.rs | 2 +-
 src/encodings/pb/mod.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index 37c435f..0440a7b 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -488,7 +488,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b.saturating_add(1),
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index ae8d62c..5623149 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -536,7 +536,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b.saturating_add(1),
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
-- 
2.43.0


From 80f69e6f719747ddc0a331b5995908b3b64fd55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 003/118] fix: underflow in inverted encodings when encoding an
 empty range

---
 src/encodings/card/simulators.rs | 3 +++
 src/encodings/pb/simulators.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index a222162..3a06363 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -53,6 +53,9 @@ where
     CE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.n_lits() - (range.end - 1);
         let max = if self.n_lits() >= range.start {
             self.n_lits() - range.start + 1
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 180e205..449d1b4 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -53,6 +53,9 @@ where
     PBE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.weight_sum() - (range.end - 1);
         let max = if self.weight_sum() >= range.start {
             self.weight_sum() - range.start + 1
-- 
2.43.0


From 084eaf8cffe550c37de0e9dbcd9163ec9ccbaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 004/118] fix: reset the lower-bounding semantics when
 re-encoding lower bounds of referenced totalizers

---
 src/encodings/card/totalizer/referenced.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index 8a1f1d3..e352cea 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -191,7 +191,7 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.reset_encoded(totdb::Semantics::If);
+        self.db.reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -232,7 +232,7 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.borrow_mut().reset_encoded(totdb::Semantics::If);
+        self.db.borrow_mut().reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
-- 
2.43.0


From b784751341e3beac348e778f2d6b063e301b2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 005/118] fix: enforcing the trivial lower bound 0 on
 referenced totalizers panicked

---
 src/encodings/card/totalizer/referenced.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index e352cea..e65c795 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -199,6 +199,9 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         match &self.db[self.root] {
             totdb::Node::Leaf(lit) => {
                 debug_assert_eq!(lb, 1);
@@ -240,6 +243,9 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         match &self.db.borrow()[self.root] {
             totdb::Node::Leaf(lit) => {
                 debug_assert_eq!(lb, 1);
-- 
2.43.0


From 531732c99eeb790d53365d939e1d1d168ff98339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 006/118] fix: encode_both did not re-encode from scratch for
 totalizers and binary adders

---
 src/encodings/card/totalizer/mod.rs        | 17 +----------
 src/encodings/card/totalizer/referenced.rs | 34 ++--------------------
 src/encodings/pb/adder.rs                  | 17 +----------
 3 files changed, 4 insertions(+), 64 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 80eb6ad..342fbee 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -347,22 +347,7 @@ impl super::BoundLowerIncremental for Totalizer {
     }
 }
 
-impl super::BoundBoth for Totalizer {
-    fn encode_both<Col, R>(
-        &mut self,
-        range: R,
-        collector: &mut Col,
-        var_manager: &mut dyn ManageVars,
-    ) -> Result<(), crate::OutOfMemory>
-    where
-        Col: CollectClauses,
-        R: std::ops::RangeBounds<usize> + Clone,
-    {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
-    }
-}
+impl super::BoundBoth for Totalizer {}
 
 impl super::BoundBothIncremental for Totalizer {}
 
diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index e65c795..bce1bff 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -380,39 +380,9 @@ impl crate::encodings::card::BoundLowerIncremental for TotCell<'_> {
     }
 }
 
-impl crate::encodings::card::BoundBoth for Tot<'_> {
-    fn encode_both<Col, R>(
-        &mut self,
-        range: R,
-        collector: &mut Col,
-        var_manager: &mut dyn ManageVars,
-    ) -> Result<(), crate::OutOfMemory>
-    where
-        Col: CollectClauses,
-        R: std::ops::RangeBounds<usize> + Clone,
-    {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
-    }
-}
+impl crate::encodings::card::BoundBoth for Tot<'_> {}
 
-impl crate::encodings::card::BoundBoth for TotCell<'_> {
-    fn encode_both<Col, R>(
-        &mut self,
-        range: R,
-        collector: &mut Col,
-        var_manager: &mut dyn ManageVars,
-    ) -> Result<(), crate::OutOfMemory>
-    where
-        Col: CollectClauses,
-        R: std::ops::RangeBounds<usize> + Clone,
-    {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
-    }
-}
+impl crate::encodings::card::BoundBoth for TotCell<'_> {}
 
 impl crate::encodings::card::BoundBothIncremental for Tot<'_> {}
 
diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4b4328d..81b792b 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -389,22 +389,7 @@ impl super::BoundLowerIncremental for BinaryAdder {
     }
 }
 
-impl super::BoundBoth for BinaryAdder {
-    fn encode_both<Col, R>(
-        &mut self,
-        range: R,
-        collector: &mut Col,
-        var_manager: &mut dyn ManageVars,
-    ) -> Result<(), crate::OutOfMemory>
-    where
-        Col: CollectClauses,
-        R: std::ops::RangeBounds<usize> + Clone,
-    {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
-    }
-}
+impl super::BoundBoth for BinaryAdder {}
 
 impl super::BoundBothIncremental for BinaryAdder {}
 
-- 
2.43.0


From 91090713e0831c2b2d0a11e82919cf22d695e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 007/118] fix: count reserved variables in the encoding
 statistics

---
 src/encodings/card/totalizer/mod.rs | 2 ++
 src/encodings/pb/adder.rs           | 2 ++
 src/encodings/pb/dpw/mod.rs         | 2 ++
 src/encodings/pb/gte/mod.rs         | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 342fbee..2e95768 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -175,7 +175,9 @@ impl super::EncodeIncremental for Totalizer {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_tree();
         if let Some(root) = self.root {
+            let n_vars_before = var_manager.n_used();
             self.db.reserve_vars(NodeCon::full(root), var_manager);
+            self.n_vars += var_manager.n_used() - n_vars_before;
         }
     }
 }
diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 81b792b..8349834 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -397,6 +397,7 @@ impl super::EncodeIncremental for BinaryAdder {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_structure();
 
+        let n_vars_before = var_manager.n_used();
         if let Some(structure) = &self.structure {
             for &o in &structure.outputs {
                 if let Some(Connection::Sum(node) | Connection::Carry(node)) = o {
@@ -404,6 +405,7 @@ impl super::EncodeIncremental for BinaryAdder {
                 }
             }
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 150dbfa..1a67da2 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -271,6 +271,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
         if self.in_lits.len() <= 1 {
             return;
         }
+        let n_vars_before = var_manager.n_used();
         if self.structure.is_none() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
@@ -284,6 +285,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
             self.db
                 .reserve_vars(NodeCon::full(structure.root()), var_manager);
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8d29ab3..725749f 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -231,7 +231,9 @@ impl super::EncodeIncremental for GeneralizedTotalizer {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_tree(usize::MAX);
         if let Some(con) = self.root {
+            let n_vars_before = var_manager.n_used();
             self.db.reserve_vars(con, var_manager);
+            self.n_vars += var_manager.n_used() - n_vars_before;
         }
     }
 }
-- 
2.43.0


From add03e4ab36946fd876089cfce58a141e07571bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 008/118] fix: re-encoding a binary adder skipped the
 comparator clauses

---
 src/encodings/pb/adder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 8349834..88dce60 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -186,6 +186,11 @@ impl super::BoundUpper for BinaryAdder {
                 out.enc_only_if = false;
             }
         }
+        if let Some(structure) = &mut self.structure {
+            for out in structure.comparator.iter_mut().flatten() {
+                out.enc_if = false;
+            }
+        }
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -299,6 +304,11 @@ impl super::BoundLower for BinaryAdder {
                 out.enc_only_if = false;
             }
         }
+        if let Some(structure) = &mut self.structure {
+            for out in structure.comparator.iter_mut().flatten() {
+                out.enc_only_if = false;
+            }
+        }
         self.encode_lb_change(range, collector, var_manager)
     }
 
-- 
2.43.0


From bdcc787ded3cce9d2f1bacaea77c86b31d280b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 009/118] fix: binary adder lower bounds were skipped if the
 upper bound was already encoded

---
 src/encodings/pb/adder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 88dce60..8edc537 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -375,7 +375,7 @@ impl super::BoundLowerIncremental for BinaryAdder {
             }
             for val in range {
                 let output = if let Some(output) = &mut structure.comparator[val - 1] {
-                    if output.enc_if {
+                    if output.enc_only_if {
                         continue;
                     }
                     output.enc_only_if = true;
-- 
2.43.0


From 7df66e849eb1dc657b012570a1a138eb6743f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 010/118] fix: binary adder enforced bounds over outdated
 inputs after being extended

---
 src/encodings/pb/adder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 8edc537..addfdac 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -198,6 +198,9 @@ impl super::BoundUpper for BinaryAdder {
         if ub >= self.weight_sum() {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -319,6 +322,9 @@ impl super::BoundLower for BinaryAdder {
         if lb == 0 {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
-- 
2.43.0


From 9df08a7c9a43f57c09fee689a27b4871598058ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 011/118] fix: sum up the weights of duplicate literals when
 building PB encodings from iterators

---
 src/encodings/pb/adder.rs      |  3 +--
 src/encodings/pb/dpw/mod.rs    |  3 +--
 src/encodings/pb/gte/mod.rs    |  3 +--
 src/encodings/pb/mod.rs        | 13 +++++++++++++
 src/encodings/pb/simulators.rs |  8 ++++----
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index addfdac..a15d5d1 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -448,8 +448,7 @@ impl From<RsHashMap<Lit, usize>> for BinaryAdder {
 
 impl FromIterator<(Lit, usize)> for BinaryAdder {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 1a67da2..dd5e08d 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -437,8 +437,7 @@ impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
 
 impl FromIterator<(Lit, usize)> for DynamicPolyWatchdog {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 725749f..8710fb5 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -370,8 +370,7 @@ impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
 
 impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 5623149..dc131ef 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -496,6 +496,19 @@ where
     }
 }
 
+/// Collects weighted literals into a map, summing up the weights of literals that occur multiple
+/// times
+fn collect_weighted_lits<I>(lits: I) -> crate::types::RsHashMap<Lit, usize>
+where
+    I: IntoIterator<Item = (Lit, usize)>,
+{
+    let mut map = crate::types::RsHashMap::default();
+    for (lit, weight) in lits {
+        *map.entry(lit).or_insert(0) += weight;
+    }
+    map
+}
+
 fn prepare_ub_range<Enc, R>(enc: &Enc, range: R) -> std::ops::Range<usize>
 where
     Enc: Encode,
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 449d1b4..d58a924 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -85,7 +85,7 @@ where
     PBE: Encode + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted_lits(iter);
         Self::from(lits)
     }
 }
@@ -95,7 +95,7 @@ where
     PBE: Encode + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
+        let lits = super::collect_weighted_lits(iter.into_iter().map(|(l, w)| (!l, w)));
         let ws = lits.iter().fold(0, |ws, (_, w)| ws + w);
         self.pb_enc.extend(lits);
         self.weight_sum += ws;
@@ -554,7 +554,7 @@ where
     LBE: BoundLower + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted_lits(iter);
         Self::from(lits)
     }
 }
@@ -565,7 +565,7 @@ where
     LBE: BoundLower + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted_lits(iter);
         self.ub_enc.extend(lits.clone());
         self.lb_enc.extend(lits);
     }
-- 
2.43.0


From ce08a2d04d024ee4082424a8f662e3ef406435da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 012/118] fix: ignore inputs with zero weight in pseudo-Boolean
 encodings

---
 src/encodings/pb/adder.rs   | 2 ++
 src/encodings/pb/dpw/mod.rs | 3 ++-
 src/encodings/pb/gte/mod.rs | 6 +++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index a15d5d1..2cf45c3 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -66,6 +66,8 @@ struct Structure {
 
 impl BinaryAdder {
     fn extend_structure(&mut self) {
+        // inputs with zero weight do not influence the sum
+        self.lit_buffer.retain(|_, weight| *weight > 0);
         if self.lit_buffer.is_empty() {
             return;
         }
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index dd5e08d..ae1b69a 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -460,7 +460,8 @@ fn lit_weight_queue<LI: Iterator<Item = (Lit, usize)>>(
         let node = tot_db.insert(totdb::Node::leaf(lit));
         NodeCon::weighted(node, weight)
     };
-    con_weight_queue(lits.map(lit_to_con))
+    // inputs with zero weight do not influence the sum
+    con_weight_queue(lits.filter(|(_, weight)| *weight > 0).map(lit_to_con))
 }
 
 /// Builds a DPW [`Structure`] from [Node connections](NodeCon)
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8710fb5..244b2c2 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -83,6 +83,8 @@ impl GeneralizedTotalizer {
     }
 
     fn extend_tree(&mut self, max_weight: usize) {
+        // inputs with zero weight do not influence the sum
+        self.lit_buffer.retain(|_, weight| *weight > 0);
         if !self.lit_buffer.is_empty() {
             let mut new_lits: Vec<(Lit, usize)> = self
                 .lit_buffer
@@ -260,7 +262,9 @@ impl super::BoundUpper for GeneralizedTotalizer {
 
         let mut assumps = vec![];
         self.lit_buffer.iter().try_for_each(|(&l, &w)| {
-            if w <= ub {
+            if w == 0 {
+                Ok(())
+            } else if w <= ub {
                 Err(EnforceError::NotEncoded)
             } else {
                 assumps.push(!l);
-- 
2.43.0


From 37b0386ccb3df47b8a2fc2d26db2d713e0dde58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 013/118] fix: next higher and lower values of PB encodings at
 the limits and with buffered inputs

---
 src/encodings/pb/gte/mod.rs        | 29 ++++++++++++++++++++---------
 src/encodings/pb/gte/referenced.rs |  4 ++--
 src/encodings/pb/mod.rs            |  2 +-
 src/encodings/pb/simulators.rs     |  9 +++++++++
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 244b2c2..b6553ea 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -167,6 +167,16 @@ impl GeneralizedTotalizer {
         }
     }
 
+    /// Gets the next higher output value of the totalizer tree
+    fn next_output(&self, val: usize) -> usize {
+        self.root.map_or(val + 1, |con| {
+            self.db[con.id]
+                .vals(con.rev_map_round_up(val + 1)..)
+                .next()
+                .map_or(val + 1, |val| con.map(val))
+        })
+    }
+
     /// Checks if the input literal buffer is empty, i.e., all input literals are included in the
     /// encoding.
     ///
@@ -205,20 +215,21 @@ impl super::Encode for GeneralizedTotalizer {
     }
 
     fn next_higher(&self, val: usize) -> usize {
-        if let Some(con) = self.root {
-            self.db[con.id]
-                .vals(con.rev_map_round_up(val + 1)..)
-                .next()
-                .map_or(val + 1, |val| con.map(val))
-        } else {
-            val + 1
+        if !self.is_buffer_empty() {
+            // values involving buffered literals are not known to the tree
+            return val + 1;
         }
+        self.next_output(val)
     }
 
     fn next_lower(&self, val: usize) -> usize {
         if val == 0 {
             return 0;
         }
+        if !self.is_buffer_empty() {
+            // values involving buffered literals are not known to the tree
+            return val - 1;
+        }
         if let Some(con) = self.root {
             return self.db[con.id]
                 .vals(con.offset()..con.rev_map_round_up(val))
@@ -443,7 +454,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
-        let mut val = enc.next_higher(ub);
+        let mut val = enc.next_output(ub);
         for unit in enc
             .enforce_ub(ub)
             .expect("should have caught special case before here")
@@ -476,7 +487,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 )?;
                 #[cfg(feature = "verbose-proofs")]
                 proof.equals(&unit_cl, Some(unit_id.into()))?;
-                val = enc.next_higher(val);
+                val = enc.next_output(val);
                 unit_id
             };
             collector.add_cert_clause(unit_cl, unit_id)?;
diff --git a/src/encodings/pb/gte/referenced.rs b/src/encodings/pb/gte/referenced.rs
index 9965f55..2b4e893 100644
--- a/src/encodings/pb/gte/referenced.rs
+++ b/src/encodings/pb/gte/referenced.rs
@@ -99,7 +99,7 @@ impl crate::encodings::pb::Encode for Gte<'_> {
         self.db[self.root.id]
             .vals(self.root.offset()..self.root.rev_map_round_up(val))
             .next_back()
-            .map_or(val - 1, |val| self.root.map(val))
+            .map_or(val.saturating_sub(1), |val| self.root.map(val))
     }
 }
 
@@ -119,7 +119,7 @@ impl crate::encodings::pb::Encode for GteCell<'_> {
         self.db.borrow()[self.root.id]
             .vals(self.root.offset()..self.root.rev_map_round_up(val))
             .next_back()
-            .map_or(val - 1, |val| self.root.map(val))
+            .map_or(val.saturating_sub(1), |val| self.root.map(val))
     }
 }
 
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index dc131ef..1477028 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -80,7 +80,7 @@ pub trait Encode {
     /// Gets the next lower value possible to be achieved by the weighted sum.
     /// Might simply return `val - 1` if no stronger value can be inferred.
     fn next_lower(&self, val: usize) -> usize {
-        val - 1
+        val.saturating_sub(1)
     }
 }
 
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index d58a924..e46f0ee 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -111,10 +111,19 @@ where
     }
 
     fn next_higher(&self, val: usize) -> usize {
+        if val >= self.weight_sum {
+            return val + 1;
+        }
         self.weight_sum - self.pb_enc.next_lower(self.weight_sum - val)
     }
 
     fn next_lower(&self, val: usize) -> usize {
+        if val == 0 {
+            return 0;
+        }
+        if val > self.weight_sum {
+            return self.weight_sum;
+        }
         self.weight_sum - self.pb_enc.next_higher(self.weight_sum - val)
     }
 }
-- 
2.43.0


From faf815e134d0345d8f55bcb9ebf7ad64b2405735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 014/118] fix: reserving variables for a binary adder panicked

---
 src/encodings/pb/adder.rs | 35 ++---------------------------------
 1 file changed, 2 insertions(+), 33 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 2cf45c3..4f81efe 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -416,12 +416,8 @@ impl super::EncodeIncremental for BinaryAdder {
         self.extend_structure();
 
         let n_vars_before = var_manager.n_used();
-        if let Some(structure) = &self.structure {
-            for &o in &structure.outputs {
-                if let Some(Connection::Sum(node) | Connection::Carry(node)) = o {
-                    reserve(&mut self.nodes[..=node], var_manager);
-                }
-            }
+        for node in &mut self.nodes {
+            node.reserve(var_manager);
         }
         self.n_vars += var_manager.n_used() - n_vars_before;
     }
@@ -863,33 +859,6 @@ where
     }
 }
 
-/// Reserves the variables for the last node in `nodes` recursively
-fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
-    let (nodes, node) = nodes.split_at_mut(nodes.len());
-
-    let node = &mut node[0];
-    node.reserve(var_manager);
-
-    let mut recurse = |con: Connection| match con {
-        Connection::Input(_) => {}
-        Connection::Sum(node) | Connection::Carry(node) => {
-            reserve(&mut nodes[..=node], var_manager);
-        }
-    };
-
-    match node {
-        Node::Full { a, b, c, .. } => {
-            recurse(*a);
-            recurse(*b);
-            recurse(*c);
-        }
-        Node::Half { a, b, .. } => {
-            recurse(*a);
-            recurse(*b);
-        }
-    }
-}
-
 fn comparator_if<Col>(
     rhs: usize,
     output: Lit,
-- 
2.43.0


From 87ae16cb322e9a735edb9b4c839617ffad1f931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 015/118] fix: watchdog encoding with inputs that vanish at the
 set precision

---
 src/encodings/pb/dpw/mod.rs | 41 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index ae1b69a..28934bf 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -129,7 +129,7 @@ impl DynamicPolyWatchdog {
         if !(divisor <= 1 || divisor.is_power_of_two()) {
             return Err(PrecisionError::NotPow2);
         }
-        if self.structure.is_some() && divisor > self.prec_div {
+        if self.structure.is_some() && divisor > std::cmp::max(self.prec_div, 1) {
             return Err(PrecisionError::PrecisionDecreased);
         }
         self.prec_div = divisor;
@@ -152,6 +152,21 @@ impl DynamicPolyWatchdog {
         }
     }
 
+    /// Gets the sum of all input weights at the current precision
+    fn prec_weight_sum(&self) -> usize {
+        let prec_div = std::cmp::max(self.prec_div, 1);
+        self.in_lits.values().map(|weight| weight / prec_div).sum()
+    }
+
+    /// Checks whether the weight queue contains weights that need to be encoded at the current
+    /// precision
+    fn needs_building(&self) -> bool {
+        self.weight_queue
+            .keys()
+            .next_back()
+            .is_some_and(|weight| weight >= &self.prec_div)
+    }
+
     /// Checks whether the encoding is already at the maximum precision
     #[must_use]
     pub fn is_max_precision(&self) -> bool {
@@ -272,7 +287,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
             return;
         }
         let n_vars_before = var_manager.n_used();
-        if self.structure.is_none() {
+        if self.structure.is_none() && self.needs_building() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
                 self.prec_div,
@@ -305,13 +320,11 @@ impl super::BoundUpper for DynamicPolyWatchdog {
     }
 
     fn enforce_ub(&self, ub: usize) -> Result<Vec<Lit>, EnforceError> {
-        if self.weight_sum() <= ub && self.prec_div <= 1 {
+        if self.prec_weight_sum() <= ub {
             return Ok(vec![]);
         }
         if let Some(structure) = &self.structure {
-            if !self.weight_queue.is_empty()
-                && self.weight_queue.iter().next_back().unwrap().0 >= &self.prec_div
-            {
+            if self.needs_building() {
                 return Err(EnforceError::NotEncoded);
             }
             debug_assert!(structure.prec_div >= self.prec_div);
@@ -326,12 +339,7 @@ impl super::BoundUpper for DynamicPolyWatchdog {
                 return Err(EnforceError::NotEncoded);
             }
             debug_assert_eq!(self.in_lits.len(), 1);
-            let (l, w) = self.in_lits.iter().next().unwrap();
-            Ok(if *w <= ub * std::cmp::min(self.prec_div, 1) {
-                vec![]
-            } else {
-                vec![-(*l)]
-            })
+            Ok(self.in_lits.keys().map(|l| !*l).collect())
         }
     }
 
@@ -369,7 +377,7 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
         }
         let n_vars_before = var_manager.n_used();
         let mut fresh = false;
-        if self.structure.is_none() && !self.in_lits.is_empty() {
+        if self.structure.is_none() && self.needs_building() {
             fresh = true;
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
@@ -382,8 +390,11 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
         if let Some(structure) = &mut self.structure {
             let n_clauses_before = collector.n_clauses();
             if !fresh
-                && !self.weight_queue.is_empty()
-                && self.weight_queue.iter().next_back().unwrap().0 >= &self.prec_div
+                && self
+                    .weight_queue
+                    .keys()
+                    .next_back()
+                    .is_some_and(|weight| weight >= &self.prec_div)
             {
                 // precision has been increased, need to extend encoding
                 let new_struct = build_structure(
-- 
2.43.0


From 45e008304498d17451d3f3505f8d439f04542d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 016/118] fix: merge duplicate inputs added to the watchdog
 encoding

---
 src/encodings/pb/dpw/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 28934bf..8d7f32e 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -100,12 +100,19 @@ impl DynamicPolyWatchdog {
                 "cannot add inputs after building the encoding",
             ));
         }
+        self.weight_sum += weight;
         if let Some(lweight) = self.in_lits.get_mut(&lit) {
+            // the literal is already in the weight queue with its old weight
             *lweight += weight;
-        } else {
-            self.in_lits.insert(lit, weight);
+            self.db = totdb::Db::default();
+            self.weight_queue =
+                lit_weight_queue(self.in_lits.iter().map(copy_key_val), &mut self.db);
+            return Ok(());
+        }
+        self.in_lits.insert(lit, weight);
+        if weight == 0 {
+            return Ok(());
         }
-        self.weight_sum += weight;
         let node = self.db.insert(totdb::Node::leaf(lit));
         let con = NodeCon::full(node);
         if let Some(cons) = self.weight_queue.get_mut(&weight) {
-- 
2.43.0


From e42170d44d6b088817b4aabfab2abcd910253d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 017/118] fix: limiting the range of the watchdog encoding
 excluded the sum of all weights

---
 src/encodings/pb/dpw/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 8d7f32e..09ec8cd 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -201,7 +201,18 @@ impl DynamicPolyWatchdog {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        let range = super::prepare_ub_range(self, range);
+        // NOTE: other than for encoding, the sum of all weights is a value that is not excluded
+        let start = match range.start_bound() {
+            std::ops::Bound::Included(b) => *b,
+            std::ops::Bound::Excluded(b) => b.saturating_add(1),
+            std::ops::Bound::Unbounded => 0,
+        };
+        let end = match range.end_bound() {
+            std::ops::Bound::Included(b) => b.saturating_add(1),
+            std::ops::Bound::Excluded(b) => *b,
+            std::ops::Bound::Unbounded => usize::MAX,
+        };
+        let range = start..std::cmp::min(end, self.weight_sum + 1);
         if let Some(structure) = &self.structure {
             if self.is_max_precision() {
                 let output_weight = 1 << (structure.output_power());
-- 
2.43.0


From 0c1cd6d0aadf70784a7df7d6c9ccfb9f82a2b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 018/118] fix: enforcing a watchdog bound that was only
 reserved but not encoded

---
 src/encodings/pb/dpw/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 09ec8cd..b4e0919 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -870,6 +870,15 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     let Some(&olit) = tot_db[dpw.root()].lit(oidx + 1) else {
         return Err(EnforceError::NotEncoded);
     };
+    if let totdb::Node::Unit(node) = &tot_db[dpw.root()] {
+        // a literal that is only reserved does not enforce anything yet
+        if !matches!(
+            node.lits[oidx],
+            totdb::LitData::Lit { semantics: Some(semantics), .. } if semantics.has_if()
+        ) {
+            return Err(EnforceError::NotEncoded);
+        }
+    }
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
     let mut enforced_weight = (oidx + 1) * output_weight - 1;
-- 
2.43.0


From e30bb44882b5307083c0163e605fa5bacfab7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 019/118] fix: encode watchdog outputs for the set precision if
 it does not require extending the structure

---
 src/encodings/pb/dpw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index b4e0919..c65df5a 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -424,7 +424,10 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
                 );
                 merge_structures(structure, new_struct, &mut self.db, collector, var_manager)?;
             }
-            let output_weight = 1 << (structure.output_power());
+            // the bounds are with respect to the set precision, which might be higher than the
+            // precision of the structure
+            let output_weight = (1 << (structure.output_power()))
+                * (std::cmp::max(structure.prec_div, 1) / std::cmp::max(self.prec_div, 1));
             let output_range = (range.start / output_weight)..=((range.end - 1) / output_weight);
             for oidx in output_range {
                 encode_output(structure, oidx, &mut self.db, collector, var_manager)?;
-- 
2.43.0


From e75238c419c21a4cda1321cc7610ce04ba687a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 020/118] fix: limiting the range of watchdog encodings at
 lower precision removed values in the range

---
 src/encodings/pb/dpw/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index c65df5a..0afb837 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -215,7 +215,8 @@ impl DynamicPolyWatchdog {
         let range = start..std::cmp::min(end, self.weight_sum + 1);
         if let Some(structure) = &self.structure {
             if self.is_max_precision() {
-                let output_weight = 1 << (structure.output_power());
+                let output_weight =
+                    (1 << (structure.output_power())) * std::cmp::max(structure.prec_div, 1);
                 let range = range.start / output_weight..range.end.div_ceil(output_weight);
                 let root = &self.db[structure.root()];
                 // positively harden lower bound
@@ -232,18 +233,15 @@ impl DynamicPolyWatchdog {
                 let idx_offset = (crate::utils::digits(structure.prec_div, 2) - 1) as usize;
                 for (idx, &bottom) in structure.bottom_buckets.iter().rev().enumerate() {
                     let div = 1usize << (idx + idx_offset);
-                    let range = range.start / div..range.end.div_ceil(div);
+                    let range_end = range.end.div_ceil(div);
                     let top_con = crate::utils::unreachable_none!(self.db[bottom].left());
                     debug_assert_eq!(top_con.divisor(), 1);
                     let top = &self.db[top_con.id];
-                    // positively harden lower bound
-                    collector.extend_clauses(
-                        top.vals(..=top_con.rev_map(range.start))
-                            .filter_map(|val| top.lit(val).map(|&olit| crate::clause![olit])),
-                    )?;
+                    // NOTE: a lower bound on the sum cannot be hardened, since the individual buckets
+                    // only contain part of the sum
                     // negatively harden upper bound
                     collector.extend_clauses(
-                        top.vals(top_con.rev_map_round_up(range.end)..)
+                        top.vals(top_con.rev_map_round_up(range_end)..)
                             .filter_map(|val| top.lit(val).map(|&olit| crate::clause![!olit])),
                     )?;
                 }
-- 
2.43.0


From 49819e90b5e7594cdb36f887c454ef4d39ffacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 021/118] fix: overflow when limiting the range of a watchdog
 encoding to an excessive range

---
 src/encodings/pb/dpw/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 0afb837..aa14ef1 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -212,7 +212,8 @@ impl DynamicPolyWatchdog {
             std::ops::Bound::Excluded(b) => *b,
             std::ops::Bound::Unbounded => usize::MAX,
         };
-        let range = start..std::cmp::min(end, self.weight_sum + 1);
+        let max = self.weight_sum + 1;
+        let range = std::cmp::min(start, max)..std::cmp::min(end, max);
         if let Some(structure) = &self.structure {
             if self.is_max_precision() {
                 let output_weight =
-- 
2.43.0


From 334052dbe00a6cda297cadc8e5b31ac78c2f95a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 022/118] fix: first upper bound of a binary adder after lower
 bounds was missing clauses

---
 src/encodings/pb/adder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4f81efe..a93f34f 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -237,6 +237,16 @@ impl super::BoundUpperIncremental for BinaryAdder {
 
         self.extend_structure();
         if let Some(structure) = &mut self.structure {
+            if !structure.comparator.iter().flatten().any(|out| out.enc_if) {
+                // encoding lower bounds does not fully encode the if direction of the nodes it
+                // visits, encode it from scratch for the first upper bound
+                for node in &mut self.nodes {
+                    let (Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. }) = node;
+                    for out in [sum, carry].into_iter().flatten() {
+                        out.enc_if = false;
+                    }
+                }
+            }
             // TODO: could maybe optimize some edge cases here where we are guaranteed to never use
             // certain outputs of the adder
             let mut outputs = Vec::with_capacity(structure.outputs.len());
-- 
2.43.0


From 870dbd57749206fd7d49123c51fad731f770dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 023/118] Revert "fix: binary adder lower bounds were skipped
 if the upper bound was already encoded"

This reverts commit bdcc787ded3cce9d2f1bacaea77c86b31d280b2d.
---
 src/encodings/pb/adder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index a93f34f..d9ab71f 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -393,7 +393,7 @@ impl super::BoundLowerIncremental for BinaryAdder {
             }
             for val in range {
                 let output = if let Some(output) = &mut structure.comparator[val - 1] {
-                    if output.enc_only_if {
+                    if output.enc_if {
                         continue;
                     }
                     output.enc_only_if = true;
-- 
2.43.0


From cef4db33e214433a4a0e7c82d1879ea90b6e55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 024/118] fix: encode_both of binary adders did not encode the
 lower bounds

---
 src/encodings/pb/adder.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index d9ab71f..1c58f17 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -22,7 +22,9 @@ use crate::types::Clause;
 use crate::types::Lit;
 use crate::types::RsHashMap;
 
+use super::BoundLower;
 use super::BoundLowerIncremental;
+use super::BoundUpper;
 use super::BoundUpperIncremental;
 use super::Encode;
 
@@ -417,9 +419,40 @@ impl super::BoundLowerIncremental for BinaryAdder {
     }
 }
 
-impl super::BoundBoth for BinaryAdder {}
+impl super::BoundBoth for BinaryAdder {
+    fn encode_both<Col, R>(
+        &mut self,
+        range: R,
+        collector: &mut Col,
+        var_manager: &mut dyn ManageVars,
+    ) -> Result<(), crate::OutOfMemory>
+    where
+        Col: CollectClauses,
+        R: std::ops::RangeBounds<usize> + Clone,
+    {
+        // lower bounds need to be encoded first, since encoding them skips the comparators that
+        // are already encoded for upper bounding
+        self.encode_lb(range.clone(), collector, var_manager)?;
+        self.encode_ub(range, collector, var_manager)
+    }
+}
 
-impl super::BoundBothIncremental for BinaryAdder {}
+impl super::BoundBothIncremental for BinaryAdder {
+    fn encode_both_change<Col, R>(
+        &mut self,
+        range: R,
+        collector: &mut Col,
+        var_manager: &mut dyn ManageVars,
+    ) -> Result<(), crate::OutOfMemory>
+    where
+        Col: CollectClauses,
+        R: std::ops::RangeBounds<usize> + Clone,
+    {
+        // see comment in `encode_both`
+        self.encode_lb_change(range.clone(), collector, var_manager)?;
+        self.encode_ub_change(range, collector, var_manager)
+    }
+}
 
 impl super::EncodeIncremental for BinaryAdder {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
-- 
2.43.0


From c3991e581fcdf504fb8b5e70209f897c2fde8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 025/118] fix: limiting the range of watchdog encodings at
 lower precision ignored tares and skipped levels

---
 src/encodings/pb/dpw/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index aa14ef1..27f9d4f 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -231,10 +231,12 @@ impl DynamicPolyWatchdog {
                         .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
                 )?;
             } else {
-                let idx_offset = (crate::utils::digits(structure.prec_div, 2) - 1) as usize;
-                for (idx, &bottom) in structure.bottom_buckets.iter().rev().enumerate() {
-                    let div = 1usize << (idx + idx_offset);
-                    let range_end = range.end.div_ceil(div);
+                let output_weight =
+                    (1 << (structure.output_power())) * std::cmp::max(structure.prec_div, 1);
+                for (idx, &bottom) in structure.bottom_buckets.iter().enumerate() {
+                    let div = output_weight >> idx;
+                    // NOTE: the bucket might include a tare, which is not part of the sum
+                    let range_end = range.end.div_ceil(div) + 1;
                     let top_con = crate::utils::unreachable_none!(self.db[bottom].left());
                     debug_assert_eq!(top_con.divisor(), 1);
                     let top = &self.db[top_con.id];
-- 
2.43.0


From fed169a58f2229ac8e03e6a05c94e436a5aa907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 026/118] fix: clause count of at-most-one encodings was
 overwritten by repeated encoding

---
 src/encodings/am1/bimander.rs   | 2 +-
 src/encodings/am1/bitwise.rs    | 2 +-
 src/encodings/am1/commander.rs  | 2 +-
 src/encodings/am1/ladder.rs     | 2 +-
 src/encodings/am1/pairwise.rs   | 2 +-
 src/encodings/am1/twoproduct.rs | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encodings/am1/bimander.rs b/src/encodings/am1/bimander.rs
index a42de05..31e7ac1 100644
--- a/src/encodings/am1/bimander.rs
+++ b/src/encodings/am1/bimander.rs
@@ -73,7 +73,7 @@ where
             sub.encode(collector, var_manager)?;
         }
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
diff --git a/src/encodings/am1/bitwise.rs b/src/encodings/am1/bitwise.rs
index 5c4a1d5..9992ef9 100644
--- a/src/encodings/am1/bitwise.rs
+++ b/src/encodings/am1/bitwise.rs
@@ -61,7 +61,7 @@ impl Encode for Bitwise {
             (0..self.in_lits.len()).flat_map(|idx| (0..p as usize).map(move |k| clause(idx, k))),
         )?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += p;
         Ok(())
     }
diff --git a/src/encodings/am1/commander.rs b/src/encodings/am1/commander.rs
index b451054..c2e99e6 100644
--- a/src/encodings/am1/commander.rs
+++ b/src/encodings/am1/commander.rs
@@ -73,7 +73,7 @@ where
         let mut sub = Sub::from(commanders);
         sub.encode(collector, var_manager)?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
diff --git a/src/encodings/am1/ladder.rs b/src/encodings/am1/ladder.rs
index 21dacc8..bc3e011 100644
--- a/src/encodings/am1/ladder.rs
+++ b/src/encodings/am1/ladder.rs
@@ -70,7 +70,7 @@ impl Encode for Ladder {
             collector.extend_clauses(crate::encodings::atomics::lit_impl_cube(lit, cube))?;
         }
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += u32::try_from(self.in_lits.len())
             .expect("cannot handle more than `u32::MAX` variables")
             - 1;
diff --git a/src/encodings/am1/pairwise.rs b/src/encodings/am1/pairwise.rs
index e247835..28496c1 100644
--- a/src/encodings/am1/pairwise.rs
+++ b/src/encodings/am1/pairwise.rs
@@ -45,7 +45,7 @@ impl Encode for Pairwise {
             (first + 1..self.in_lits.len()).map(move |second| !lits[first] | !lits[second])
         });
         collector.extend_clauses(clause_iter)?;
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         Ok(())
     }
 }
diff --git a/src/encodings/am1/twoproduct.rs b/src/encodings/am1/twoproduct.rs
index e393866..121c0de 100644
--- a/src/encodings/am1/twoproduct.rs
+++ b/src/encodings/am1/twoproduct.rs
@@ -81,7 +81,7 @@ where
         let mut col_sub = Sub::from(aux_cols);
         col_sub.encode(collector, var_manager)?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
-- 
2.43.0


From a008e45eb5b20124b0e04e2ae2bf38016e49ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 027/118] fix: evaluation of cardinality and PB constraints at
 the ends of the attainable range

---
 src/types/constraints.rs | 80 ++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 121fca5..ae5328c 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -887,13 +887,35 @@ impl CardConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + 1,
             });
-        if range.contains(&self.bound()) {
-            return TernaryVal::DontCare;
-        }
+        // Note: both ends of the range are attainable
         match self {
-            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.start <= *b).into(),
-            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b).into(),
-            CardConstraint::Eq(CardEqConstr { b, .. }) => (range.start == *b).into(),
+            CardConstraint::Ub(CardUbConstr { b, .. }) => {
+                if range.end <= *b {
+                    TernaryVal::True
+                } else if range.start > *b {
+                    TernaryVal::False
+                } else {
+                    TernaryVal::DontCare
+                }
+            }
+            CardConstraint::Lb(CardLbConstr { b, .. }) => {
+                if range.start >= *b {
+                    TernaryVal::True
+                } else if range.end < *b {
+                    TernaryVal::False
+                } else {
+                    TernaryVal::DontCare
+                }
+            }
+            CardConstraint::Eq(CardEqConstr { b, .. }) => {
+                if range.start > *b || range.end < *b {
+                    TernaryVal::False
+                } else if range.start == range.end {
+                    TernaryVal::True
+                } else {
+                    TernaryVal::DontCare
+                }
+            }
         }
     }
 }
@@ -1622,33 +1644,37 @@ impl PbConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + coeff,
             });
-        match (isize::try_from(range.start), isize::try_from(range.end)) {
-            (Ok(start), Ok(end)) => {
-                if (start..end).contains(&self.bound()) {
-                    return TernaryVal::DontCare;
-                }
-                match self {
-                    PbConstraint::Ub(PbUbConstr { b, .. }) => (start <= *b).into(),
-                    PbConstraint::Lb(PbLbConstr { b, .. }) => (start >= *b).into(),
-                    PbConstraint::Eq(PbEqConstr { b, .. }) => (start == *b).into(),
+        // Note: both ends of the range are attainable
+        let at_least = |val: usize, b: isize| isize::try_from(val).map_or(true, |val| val >= b);
+        let at_most = |val: usize, b: isize| isize::try_from(val).is_ok_and(|val| val <= b);
+        match self {
+            PbConstraint::Ub(PbUbConstr { b, .. }) => {
+                if at_most(range.end, *b) {
+                    TernaryVal::True
+                } else if at_most(range.start, *b) {
+                    TernaryVal::DontCare
+                } else {
+                    TernaryVal::False
                 }
             }
-            (Ok(start), Err(_)) => match self {
-                PbConstraint::Ub(PbUbConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
+            PbConstraint::Lb(PbLbConstr { b, .. }) => {
+                if at_least(range.start, *b) {
                     TernaryVal::True
+                } else if at_least(range.end, *b) {
+                    TernaryVal::DontCare
+                } else {
+                    TernaryVal::False
                 }
-                PbConstraint::Lb(PbLbConstr { b, .. }) | PbConstraint::Eq(PbEqConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
+            }
+            PbConstraint::Eq(PbEqConstr { b, .. }) => {
+                if !at_most(range.start, *b) || !at_least(range.end, *b) {
                     TernaryVal::False
+                } else if range.start == range.end {
+                    TernaryVal::True
+                } else {
+                    TernaryVal::DontCare
                 }
-            },
-            (Err(_), Err(_)) => matches!(self, PbConstraint::Lb(_)).into(),
-            (Err(_), Ok(_)) => unreachable!(), // since end >= start
+            }
         }
     }
 }
-- 
2.43.0


From 741dfaeccedb05354c8272d9404cddbcb85ddba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 028/118] fix: underflow when inverting trivial cardinality
 constraints

---
 src/types/constraints.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index ae5328c..f5aaca5 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1042,7 +1042,8 @@ impl CardUbConstr {
         let length = self.lits.len();
         CardLbConstr {
             lits: self.lits,
-            b: length - self.b,
+            // if the bound exceeds the number of literals, this is a tautology
+            b: length.saturating_sub(self.b),
         }
     }
 
@@ -1096,8 +1097,16 @@ impl CardLbConstr {
     }
 
     /// Converts the lower bound constraint into an equivalent upper bound constraint
+    ///
+    /// # Panics
+    ///
+    /// If the constraint is UNSAT, since an unsatisfiable upper bound cannot be represented
     #[must_use]
     pub fn invert(mut self) -> CardUbConstr {
+        assert!(
+            !self.is_unsat(),
+            "cannot invert an unsatisfiable lower bound constraint"
+        );
         self.lits.iter_mut().for_each(|l| {
             *l = !*l;
         });
-- 
2.43.0


From a3f0f00533f7f4de14bc88d7d6ae4f30e56897a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 029/118] fix: extending PB constraints with negative bounds to
 cardinality constraints

---
 src/types/constraints.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index f5aaca5..8f6cd7a 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1845,6 +1845,10 @@ impl PbUbConstr {
     /// If the constraint is UNSAT
     #[must_use]
     pub fn extend_to_card_constr(self) -> CardUbConstr {
+        assert!(
+            !self.is_unsat(),
+            "cannot extend an unsatisfiable constraint to a cardinality constraint"
+        );
         CardUbConstr {
             lits: self
                 .lits
@@ -1983,7 +1987,8 @@ impl PbLbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            // a negative bound is a tautology
+            b: usize::try_from(self.b).unwrap_or(0),
         }
     }
 
@@ -2106,6 +2111,10 @@ impl PbEqConstr {
     /// If the constraint is UNSAT
     #[must_use]
     pub fn extend_to_card_constr(self) -> CardEqConstr {
+        assert!(
+            !self.is_unsat(),
+            "cannot extend an unsatisfiable constraint to a cardinality constraint"
+        );
         CardEqConstr {
             lits: self
                 .lits
-- 
2.43.0


From f96d1fd8f30160331edb664f00d74bd84eea469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 030/118] fix: PB equality constraints with zero weights

---
 src/types/constraints.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 8f6cd7a..24f3d1a 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1570,6 +1570,8 @@ impl PbConstraint {
                 let b = constr.b.unsigned_abs();
                 match unit_weight {
                     None => return Err(PbToCardError::NotACard),
+                    // since this is not unsat, b is also zero
+                    Some(0) => return Err(PbToCardError::Tautology),
                     Some(unit_weight) => {
                         if b % unit_weight != 0 {
                             return Err(PbToCardError::Unsat);
@@ -2143,7 +2145,8 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == self.weight_sum
+        // a literal with zero weight is not assigned by the constraint
+        self.b.unsigned_abs() == self.weight_sum && self.lits.iter().all(|(_, w)| *w > 0)
     }
 
     /// Checks if the constraint assigns all literals to false
@@ -2152,7 +2155,8 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == 0
+        // a literal with zero weight is not assigned by the constraint
+        self.b == 0 && self.lits.iter().all(|(_, w)| *w > 0)
     }
 
     /// Gets the unit weight of the constraint, if it exists
-- 
2.43.0


From 998eaa9aa039c8c1e6746d8805ca7d280d1caea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 031/118] fix: reification of tautological upper bounds
 implying a literal

---
 src/encodings/atomics.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/encodings/atomics.rs b/src/encodings/atomics.rs
index 90288dc..841a95b 100644
--- a/src/encodings/atomics.rs
+++ b/src/encodings/atomics.rs
@@ -132,9 +132,11 @@ pub fn card_impl_lit(card: &CardConstraint, lit: Lit) -> PbConstraint {
     match card {
         CardConstraint::Ub(c) => {
             let (lits, bound) = c.decompose_ref();
-            let bound = 2 * lits.len() - bound - 1;
+            // if the constraint is a tautology, the literal needs to be enforced
+            let weight = std::cmp::max(lits.len(), bound + 1);
+            let bound = lits.len() + weight - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|lit| (!*lit, 1)).collect();
-            lits.push((!lit, lits.len()));
+            lits.push((!lit, weight));
             PbConstraint::new_ub_unsigned(
                 lits,
                 isize::try_from(bound).expect("cannot handle bounds larger than `isize::MAX`"),
@@ -209,9 +211,11 @@ pub fn pb_impl_lit(pb: &PbConstraint, lit: Lit) -> PbConstraint {
             let ws = isize::try_from(pb.weight_sum())
                 .expect("cannot handle sums of weight larger than `isize::MAX`");
             let (lits, bound) = c.decompose_ref();
-            let bound = 2 * ws - bound - 1;
+            // if the constraint is a tautology, the literal needs to be enforced
+            let weight = std::cmp::max(ws, bound + 1);
+            let bound = ws + weight - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|(lit, w)| (!*lit, *w)).collect();
-            lits.push((!lit, pb.weight_sum()));
+            lits.push((!lit, weight.unsigned_abs()));
             PbConstraint::new_ub_unsigned(lits, bound)
         }
         PbConstraint::Lb(c) => {
-- 
2.43.0


From 6e2a16a1209548b71f0a445b91fe898e8d28a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 032/118] fix: equality constraints with equal weights that
 cannot be converted to a cardinality constraint

---
 src/encodings/pb/cert.rs | 21 ++++++++++++++++++++-
 src/encodings/pb/mod.rs  | 13 +++++++++++--
 src/instances/sat.rs     | 10 +++++++++-
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index a873d20..0910510 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -6,6 +6,7 @@ use crate::encodings::cert::ConstraintEncodingError;
 use crate::encodings::cert::EncodingError;
 use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
+use crate::types::constraints::PbToCardError;
 use crate::types::Lit;
 
 /// Trait for certified PB encodings that allow upper bounding of the form `sum of lits <=
@@ -383,7 +384,25 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_card() {
-        let card = crate::utils::unreachable_err!(constr.into_card_constr());
+        let unit_weight = constr.iter().next().map_or(1, |(_, w)| *w);
+        let card = match constr.into_card_constr() {
+            Ok(card) => card,
+            Err(PbToCardError::Unsat) => {
+                // the bound of an equality is not divisible by the unit weight, dividing both
+                // inequalities and adding them up yields a contradiction
+                let unsat_id = proof.operations::<crate::types::Var>(
+                    &(pigeons::OperationSequence::from(id) / unit_weight
+                        + pigeons::OperationSequence::from(id + 1) / unit_weight),
+                )?;
+                let empty = crate::clause![];
+                let unsat_id = proof.reverse_unit_prop(&empty, [unsat_id.into()])?;
+                collector.add_cert_clause(empty, unsat_id)?;
+                return Ok(());
+            }
+            // all weights are zero
+            Err(PbToCardError::Tautology) => return Ok(()),
+            Err(PbToCardError::NotACard) => unreachable!(),
+        };
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
             collector,
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 1477028..553636a 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -39,6 +39,7 @@ use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
 use crate::types::constraints::PbEqConstr;
 use crate::types::constraints::PbLbConstr;
+use crate::types::constraints::PbToCardError;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
@@ -486,8 +487,16 @@ where
         return collector.add_clause(unreachable_err!(constr.into_clause()));
     }
     if constr.is_card() {
-        let card = unreachable_err!(constr.into_card_constr());
-        return card::default_encode_cardinality_constraint(card, collector, var_manager);
+        return match constr.into_card_constr() {
+            Ok(card) => {
+                card::default_encode_cardinality_constraint(card, collector, var_manager)
+            }
+            // the bound of an equality is not divisible by the unit weight
+            Err(PbToCardError::Unsat) => collector.add_clause(Clause::new()),
+            // all weights are zero
+            Err(PbToCardError::Tautology) => Ok(()),
+            Err(PbToCardError::NotACard) => unreachable!(),
+        };
     }
     match PBE::encode_constr(constr, collector, var_manager) {
         Ok(()) => Ok(()),
diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index ba92001..323a561 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -4,6 +4,7 @@ use crate::encodings::CollectClauses;
 use crate::types::constraints::CardConstraint;
 use crate::types::constraints::ConstraintRef;
 use crate::types::constraints::PbConstraint;
+use crate::types::constraints::PbToCardError;
 use crate::types::Assignment;
 use crate::types::Clause;
 use crate::types::Lit;
@@ -893,7 +894,14 @@ impl<VM: super::ManageVars> Instance<VM> {
                     return None;
                 }
                 if pb.is_card() {
-                    cards.push(crate::utils::unreachable_err!(pb.into_card_constr()));
+                    match pb.into_card_constr() {
+                        Ok(card) => cards.push(card),
+                        // the bound of an equality is not divisible by the unit weight
+                        Err(PbToCardError::Unsat) => unsat = true,
+                        // all weights are zero
+                        Err(PbToCardError::Tautology) => (),
+                        Err(PbToCardError::NotACard) => unreachable!(),
+                    }
                     return None;
                 }
                 Some(pb)
-- 
2.43.0


From c4710f83a571e641c5a6494a92b356f2ecbdce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 033/118] fix: reverse mapping of the re-indexing variable
 manager

---
 src/instances/mod.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 6abbd23..8a532ef 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -155,7 +155,7 @@ impl Default for BasicVarManager {
 pub struct ReindexingVarManager {
     next_var: Var,
     in_map: RsHashMap<Var, Var>,
-    out_map: Vec<Var>,
+    out_map: Vec<Option<Var>>,
 }
 
 impl ReindexingVarManager {
@@ -167,8 +167,17 @@ impl ReindexingVarManager {
         Self {
             next_var,
             in_map: RsHashMap::default(),
-            out_map: (0..next_var.idx32()).map(Var::new).collect(),
+            out_map: (0..next_var.idx32()).map(|idx| Some(Var::new(idx))).collect(),
+        }
+    }
+}
+
+impl ReindexingVarManager {
+    fn set_reverse(&mut self, out_var: Var, in_var: Var) {
+        if out_var.idx() >= self.out_map.len() {
+            self.out_map.resize(out_var.idx() + 1, None);
         }
+        self.out_map[out_var.idx()] = Some(in_var);
     }
 }
 
@@ -179,16 +188,13 @@ impl ReindexVars for ReindexingVarManager {
         } else {
             let v = self.new_var();
             self.in_map.insert(in_var, v);
-            self.out_map.push(in_var);
+            self.set_reverse(v, in_var);
             v
         }
     }
 
     fn reverse(&self, out_var: Var) -> Option<Var> {
-        if out_var.idx() >= self.out_map.len() {
-            return None;
-        }
-        Some(self.out_map[out_var.idx()])
+        self.out_map.get(out_var.idx()).copied().flatten()
     }
 }
 
@@ -229,7 +235,17 @@ impl ManageVars for ReindexingVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
+        for (in_var, out_var) in other.in_map {
+            if let Some(old) = self.in_map.insert(in_var, out_var) {
+                // `in_var` is not mapped to `old` anymore, but another variable might be
+                let reverse = self
+                    .in_map
+                    .iter()
+                    .find_map(|(i, o)| (*o == old).then_some(*i));
+                self.out_map[old.idx()] = reverse;
+            }
+            self.set_reverse(out_var, in_var);
+        }
     }
 
     fn n_used(&self) -> u32 {
@@ -238,7 +254,7 @@ impl ManageVars for ReindexingVarManager {
 
     fn forget_from(&mut self, min_var: Var) {
         self.in_map.retain(|_, v| *v < min_var);
-        self.out_map.truncate(min_var.idx() + 1);
+        self.out_map.truncate(min_var.idx());
         self.next_var = std::cmp::min(self.next_var, min_var);
     }
 }
-- 
2.43.0


From 064a2fad4d1ee8a6bf26ef0dd755b6b5a4f62735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 034/118] fix: random re-indexing variable manager when
 combining and for variables out of range

---
 src/instances/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 8a532ef..64e27bb 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -382,6 +382,7 @@ impl ReindexVars for RandReindVarManager {
             Some(v) => *v,
             None => {
                 // Don't reindex vars that are out of initialized range
+                self.mark_used(in_var);
                 in_var
             }
         }
@@ -426,7 +427,11 @@ impl ManageVars for RandReindVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
+        // Only one of the maps can be kept for the re-indexing to stay a permutation
+        if other.in_map.len() >= self.in_map.len() {
+            self.in_map = other.in_map;
+            self.out_map = other.out_map;
+        }
     }
 
     fn n_used(&self) -> u32 {
-- 
2.43.0


From 3577d424d06b00017482f95e135f7efd264700c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 035/118] fix: extending an instance dropped cardinality and PB
 constraints

---
 src/instances/sat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 323a561..881480b 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -710,6 +710,8 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// Extends the instance by another instance
     pub fn extend(&mut self, other: Instance<VM>) {
         self.cnf.extend(other.cnf);
+        self.cards.extend(other.cards);
+        self.pbs.extend(other.pbs);
         self.var_manager.combine(other.var_manager);
     }
 
-- 
2.43.0


From 7fd168efd3a55b4c277688fc305b390df854c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 036/118] fix: mark the variable of the contradiction used when
 sanitizing an unsatisfiable instance

---
 src/instances/sat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 881480b..a47cd4b 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -937,6 +937,8 @@ impl<VM: super::ManageVars> Instance<VM> {
             })
             .collect();
         if unsat {
+            let mut var_manager = self.var_manager;
+            var_manager.mark_used(Var::new(0));
             return Self {
                 cnf: Cnf::from_iter(vec![
                     crate::clause![Lit::new(0, false)],
@@ -944,7 +946,7 @@ impl<VM: super::ManageVars> Instance<VM> {
                 ]),
                 cards: vec![],
                 pbs: vec![],
-                var_manager: self.var_manager,
+                var_manager,
             };
         }
         Self {
-- 
2.43.0


From c31a18c65ee3fce9414ef3f09d52905a7691e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 037/118] fix: mark variables used when extending an instance
 by clauses

---
 src/instances/sat.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index a47cd4b..588fa0d 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -1169,7 +1169,7 @@ impl<VM: super::ManageVars + Default> From<Cnf> for Instance<VM> {
 
 impl<VM: super::ManageVars> Extend<Clause> for Instance<VM> {
     fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
-        self.cnf.extend(iter);
+        iter.into_iter().for_each(|cl| self.add_clause(cl));
     }
 }
 
@@ -1182,7 +1182,14 @@ impl CollectClauses for Instance {
     where
         T: IntoIterator<Item = Clause>,
     {
-        self.cnf.extend_clauses(cl_iter)
+        let n_before = self.cnf.len();
+        let res = self.cnf.extend_clauses(cl_iter);
+        for cl in self.cnf.iter().skip(n_before) {
+            for l in cl {
+                super::ManageVars::mark_used(&mut self.var_manager, l.var());
+            }
+        }
+        res
     }
 }
 
-- 
2.43.0


From de1b2e393a2c8e921576e4c1c669e4d83d5f5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 038/118] fix: increasing an empty soft clause has to increase
 the offset

---
 src/instances/opt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index bcc32e8..6c28d89 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -529,10 +529,17 @@ impl Objective {
 
     /// Increases the weight of a soft clause. Returns the old weight, if the
     /// clause was already in the objective.
+    ///
+    /// # Panics
+    ///
+    /// If the clause is empty and `add_w` is larger than [`isize::MAX`]
     pub fn increase_soft_clause(&mut self, add_w: usize, cl: Clause) {
         if add_w == 0 {
             return;
         }
+        if cl.is_empty() {
+            return self.increase_offset(isize::try_from(add_w).expect("weight overflow"));
+        }
         if cl.len() == 1 {
             return self.increase_soft_lit(add_w, !cl[0]);
         }
-- 
2.43.0


From 48a96d111365b7a418978dbe2ced53b0a8bc5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 039/118] fix: weights of repeated softs in unweighted
 objectives

---
 src/instances/opt.rs | 50 +++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 6c28d89..4a3b4ff 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -38,6 +38,22 @@ enum IntObj {
 )]
 pub struct Objective(IntObj);
 
+/// Removes all occurrences of an element from an unweighted objective. Returns the removed weight,
+/// if there was any occurrence.
+fn remove_units<T: PartialEq>(
+    softs: &mut Vec<T>,
+    elem: &T,
+    unit_weight: Option<usize>,
+) -> Option<usize> {
+    let n_before = softs.len();
+    softs.retain(|e| e != elem);
+    let n_removed = n_before - softs.len();
+    if n_removed == 0 {
+        return None;
+    }
+    Some(n_removed * crate::utils::unreachable_none!(unit_weight))
+}
+
 impl From<IntObj> for Objective {
     fn from(obj: IntObj) -> Self {
         Self(obj)
@@ -400,18 +416,12 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_lits.iter().position(|l2| l2 == &l) {
-                        soft_lits.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
-                    }
-                    None
+                    return remove_units(soft_lits, &l, *unit_weight);
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_lits.iter().any(|l2| l2 == &l) {
-                            return Some(*unit_weight);
-                        }
+                        let old = remove_units(soft_lits, &l, Some(*unit_weight));
                         soft_lits.push(l);
-                        None
+                        old
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -500,18 +510,12 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_clauses.iter().position(|cl2| cl2 == &cl) {
-                        soft_clauses.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
-                    }
-                    None
+                    return remove_units(soft_clauses, &cl, *unit_weight);
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_clauses.iter().any(|cl2| cl2 == &cl) {
-                            return Some(*unit_weight);
-                        }
+                        let old = remove_units(soft_clauses, &cl, Some(*unit_weight));
                         soft_clauses.push(cl);
-                        None
+                        old
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -577,8 +581,9 @@ impl Objective {
                 soft_lits,
                 ..
             } => {
-                if soft_lits.iter().any(|l2| l2 == &l) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
+                let n_units = soft_lits.iter().filter(|l2| *l2 == &l).count();
+                if n_units > 0 {
+                    Some(n_units * crate::utils::unreachable_none!(*unit_weight))
                 } else {
                     None
                 }
@@ -596,8 +601,9 @@ impl Objective {
                 soft_clauses,
                 ..
             } => {
-                if soft_clauses.iter().any(|cl2| cl2 == cl) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
+                let n_units = soft_clauses.iter().filter(|cl2| *cl2 == cl).count();
+                if n_units > 0 {
+                    Some(n_units * crate::utils::unreachable_none!(*unit_weight))
                 } else {
                     None
                 }
-- 
2.43.0


From 29f46333ecf8428c30ee364ed420a8271ee00833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 040/118] fix: normalizing objectives lost or repeated weight
 of conflicting softs and panicked without soft literals

---
 src/instances/opt.rs | 98 +++++++++++++++++++-------------------------
 1 file changed, 43 insertions(+), 55 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 4a3b4ff..3924d52 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -925,38 +925,38 @@ impl Objective {
                     };
                     debug_assert!(!clause.is_empty());
                     if clause.len() == 1 {
-                        match soft_lits.entry(clause[0]) {
-                            std::collections::hash_map::Entry::Occupied(mut neg_lit) => {
-                                match neg_lit.get().cmp(&weight) {
-                                    std::cmp::Ordering::Less => {
-                                        let neg_weight = neg_lit.remove();
-                                        *offset += isize::try_from(neg_weight)
-                                            .expect("only support weights up to `isize::MAX`");
-                                        *soft_lits.entry(!clause[0]).or_default() +=
-                                            weight - neg_weight;
-                                    }
-                                    std::cmp::Ordering::Equal => {
-                                        *offset += isize::try_from(weight)
-                                            .expect("only support weights up to `isize::MAX`");
-                                        neg_lit.remove();
-                                    }
-                                    std::cmp::Ordering::Greater => {
-                                        *offset += isize::try_from(weight)
-                                            .expect("only support weights up to `isize::MAX`");
-                                        *neg_lit.get_mut() -= weight;
-                                    }
-                                }
-                            }
-                            std::collections::hash_map::Entry::Vacant(_) => {
-                                *soft_lits.entry(!clause[0]).or_default() += weight;
-                            }
-                        }
+                        *soft_lits.entry(!clause[0]).or_default() += weight;
                         continue;
                     }
                     *soft_clauses.entry(clause).or_default() += weight;
                 }
+                // Cancel conflicting literals
+                let pos_lits: Vec<_> = soft_lits.keys().copied().filter(|l| l.is_pos()).collect();
+                for lit in pos_lits {
+                    let Some(&neg_weight) = soft_lits.get(&!lit) else {
+                        continue;
+                    };
+                    let common = std::cmp::min(soft_lits[&lit], neg_weight);
+                    *offset += isize::try_from(common)
+                        .expect("only support weights up to `isize::MAX`");
+                    for l in [lit, !lit] {
+                        if let std::collections::hash_map::Entry::Occupied(mut entry) =
+                            soft_lits.entry(l)
+                        {
+                            *entry.get_mut() -= common;
+                            if *entry.get() == 0 {
+                                entry.remove();
+                            }
+                        }
+                    }
+                }
                 if soft_clauses.is_empty() && soft_lits.is_empty() {
-                    return Self::default();
+                    return Self(IntObj::Unweighted {
+                        offset: *offset,
+                        unit_weight: None,
+                        soft_lits: Vec::default(),
+                        soft_clauses: Vec::default(),
+                    });
                 }
                 let unit_weight = *soft_lits
                     .values()
@@ -994,54 +994,42 @@ impl Objective {
                     debug_assert!(soft_clauses.is_empty());
                     return self;
                 };
-                let mut next = 0;
-                let mut end = 0;
-                while next < soft_clauses.len() {
-                    let clause = &mut soft_clauses[next];
+                soft_clauses.retain_mut(|clause| {
                     if clause.normalize_in_place() {
-                        next += 1;
-                        continue;
+                        return false;
                     }
                     if clause.len() == 1 {
                         soft_lits.push(!clause[0]);
-                        next += 1;
-                        continue;
+                        return false;
                     }
-                    soft_clauses.swap(end, next);
-                    end += 1;
-                    next += 1;
-                }
-                soft_clauses.truncate(end);
+                    true
+                });
                 soft_clauses.sort_unstable();
-                for pair in soft_clauses.windows(2) {
-                    if pair[0] == pair[1] {
-                        // duplicate clause: objective is actually weighted
-                        self.unweighted_2_weighted();
-                        return self.normalize();
-                    }
+                soft_lits.sort_unstable();
+                if soft_clauses.windows(2).any(|pair| pair[0] == pair[1])
+                    || soft_lits.windows(2).any(|pair| pair[0] == pair[1])
+                {
+                    // duplicate clause or literal: objective is actually weighted
+                    self.unweighted_2_weighted();
+                    return self.normalize();
                 }
 
-                soft_lits.sort_unstable();
+                // since there are no duplicates, conflicting literals are next to each other
                 let mut next = 0;
                 let mut end = 0;
-                while next < soft_lits.len() - 1 {
-                    if soft_lits[next] == !soft_lits[next + 1] {
+                while next < soft_lits.len() {
+                    if next + 1 < soft_lits.len() && soft_lits[next] == !soft_lits[next + 1] {
                         // skip conflicting literals
                         *offset += isize::try_from(unit_weight)
                             .expect("can only handle weights up to `isize::MAX`");
                         next += 2;
                         continue;
                     }
-                    if soft_lits[next] == soft_lits[next + 1] {
-                        // duplicate literal: objective is actually weighted
-                        self.unweighted_2_weighted();
-                        return self.normalize();
-                    }
                     soft_lits.swap(end, next);
                     end += 1;
                     next += 1;
                 }
-                soft_lits.truncate(end + usize::from(next < soft_lits.len()));
+                soft_lits.truncate(end);
 
                 if soft_lits.is_empty() && soft_clauses.is_empty() {
                     *self_unit_weight = None;
-- 
2.43.0


From d1c49a9ab2533bb2c4cb18af322bdf4efc60d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 041/118] fix: collecting (W/M)CNF lines overwrote repeated
 soft clauses and missed used variables

---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d781e12..1a193a7 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -475,7 +475,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::dimacs::McnfLine> for MultiOptI
                     for l in &cl {
                         inst.constraints_mut().var_manager_mut().mark_used(l.var());
                     }
-                    inst.objective_mut(oidx).add_soft_clause(w, cl);
+                    inst.objective_mut(oidx).increase_soft_clause(w, cl);
                 }
             }
         }
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 3924d52..0e0c9ac 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1690,7 +1690,10 @@ impl<VM: super::ManageVars + Default> FromIterator<super::fio::dimacs::WcnfLine>
                 super::fio::dimacs::WcnfLine::Comment(_) => (),
                 super::fio::dimacs::WcnfLine::Hard(cl) => inst.constraints_mut().add_clause(cl),
                 super::fio::dimacs::WcnfLine::Soft(cl, w) => {
-                    inst.objective_mut().add_soft_clause(w, cl);
+                    for l in &cl {
+                        inst.constraints_mut().var_manager_mut().mark_used(l.var());
+                    }
+                    inst.objective_mut().increase_soft_clause(w, cl);
                 }
             }
         }
-- 
2.43.0


From 041c13d1fb8b9fc0a00226dfa05b1b9d030981d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 042/118] fix: sign of the offset when converting maximization
 objectives

---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 1a193a7..be9128b 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -518,7 +518,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::opb::Data> for MultiOptInstance
                                 .into_iter()
                                 .map(|(coeff, lit)| (!lit, coeff))
                                 .collect();
-                            obj.increase_offset(offset - coeff_sum);
+                            obj.increase_offset(-offset - coeff_sum);
                             obj
                         }
                     };
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 0e0c9ac..4780322 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1613,7 +1613,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                     .into_iter()
                     .map(|(coeff, lit)| (!lit, coeff))
                     .collect();
-                obj.increase_offset(offset - coeff_sum);
+                obj.increase_offset(-offset - coeff_sum);
                 obj
             }
         };
-- 
2.43.0


From c01a99641e554f80b49254b170465888563f231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 043/118] fix: reserve objective variables before converting
 optimization instances

---
 src/instances/multiopt.rs | 26 ++++++--------------------
 src/instances/opt.rs      | 23 ++++++++++-------------
 2 files changed, 16 insertions(+), 33 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index be9128b..77fcadb 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -137,16 +137,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv + 1);
-        let soft_cls = self
-            .objs
+        let (constrs, objs) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let soft_cls = objs
             .into_iter()
             .map(Objective::into_soft_cls)
             .collect();
@@ -159,16 +152,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv);
-        let soft_lits = self
-            .objs
+        let (constrs, objs) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let soft_lits = objs
             .into_iter()
             .map(|o| {
                 let (hards, softs) = o.into_soft_lits(&mut vm);
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 4780322..0e30190 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1290,11 +1290,9 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        (cnf, self.obj.into_soft_cls(), vm)
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        (cnf, obj.into_soft_cls(), vm)
     }
 
     /// Converts the instance to a set of hard clauses and soft literals, an
@@ -1304,11 +1302,9 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        let (hard_softs, softs) = self.obj.into_soft_lits(&mut vm);
+        let (constrs, obj) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let (hard_softs, softs) = obj.into_soft_lits(&mut vm);
         cnf.extend(hard_softs);
         (cnf, softs, vm)
     }
@@ -1650,8 +1646,9 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         use crate::solvers::Solve;
 
         let mut solver = Alg::Solver::default();
-        let (cnf, vm) = self.constrs.into_cnf();
-        let mut vm = if let Some(max_var) = std::cmp::max(vm.max_var(), self.obj.max_var()) {
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let mut vm = if let Some(max_var) = vm.max_var() {
             super::BasicVarManager::from_next_free(max_var + 1)
         } else {
             super::BasicVarManager::default()
@@ -1670,7 +1667,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-        let (iter, offset) = self.obj.into_soft_cls();
+        let (iter, offset) = obj.into_soft_cls();
         let obj: Vec<_> = iter.into_iter().map(handle_soft_cls).collect();
         let (sol, cost) = Alg::solve(&mut solver, &obj)?;
         Some((
-- 
2.43.0


From 27dcdbda3a8fea1a650924b4034f24688b63cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 044/118] fix: write complete CNF header line in write_cnf

---
 src/instances/fio/dimacs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 0d61418..2d5a7a2 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -876,7 +876,7 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p {n_vars} {n_clauses}"),
+        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
         CnfLine::Comment(c) => write!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
     })
-- 
2.43.0


From 52fc6eb26987b752adf5c1268b9431c1eb22049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 045/118] fix: end comment lines in write_cnf and write_wcnf

---
 src/instances/fio/dimacs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 2d5a7a2..058e6f8 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -877,7 +877,7 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
         CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
-        CnfLine::Comment(c) => write!(writer, "c {c}"),
+        CnfLine::Comment(c) => writeln!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
     })
 }
@@ -937,7 +937,7 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        WcnfLine::Comment(c) => write!(writer, "c {c}"),
+        WcnfLine::Comment(c) => writeln!(writer, "c {c}"),
         WcnfLine::Hard(cl) => {
             write!(writer, "h ")?;
             write_clause(&mut writer, &cl)
-- 
2.43.0


From fbcd8641418f18f737c5bd1e26029a2acbdf7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 046/118] fix: drop malformed line when continuing DIMACS
 parsing after an error

---
 src/instances/fio/dimacs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 058e6f8..c87cd49 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -75,7 +75,8 @@ impl<Variant, R> Parser<Variant, R> {
     where
         R: std::io::BufRead,
     {
-        debug_assert!(self.buffer.is_empty());
+        // after an error, the buffer still contains the malformed line
+        self.buffer.clear();
         loop {
             let read = self.reader.read_line(&mut self.buffer)?;
             if read == 0 {
@@ -127,7 +128,6 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<CnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
         if let Some((n_vars, n_clauses)) = self.variant.header_data {
             return Ok(CnfHeaderData {
                 n_vars,
@@ -361,7 +361,6 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<WcnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
         if let Some(header_data) = self.variant.header_data {
             return Ok(match header_data {
                 WcnfInternalHeaderData::Pre22 {
-- 
2.43.0


From 41931e18aaeb3a89574e6ee6f372f990ba54097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 047/118] fix: OPB parser repeats the same error forever

---
 src/instances/fio/opb.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index f67c324..8020965 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -98,13 +98,15 @@ where
         }
         let (data, rest) = match (opb_data(self.opts), rest).parse(&self.buffer[self.processed..]) {
             Err(err) => {
-                return Some(Err(ParsingError::from_parse(
+                let err = ParsingError::from_parse(
                     &err,
                     &self.buffer,
                     self.processed,
                     self.line_no,
-                )
-                .into()));
+                );
+                // skip the rest of the malformed line
+                self.processed = self.buffer.len();
+                return Some(Err(err.into()));
             }
             Ok(data) => data,
         };
-- 
2.43.0


From e0312b11dc4f9018b6811c7a18235c10aaf75418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 048/118] fix: OPB strict less-than parsed with a bound that is
 too high

---
 src/instances/fio/opb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 8020965..78ffa62 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -390,7 +390,7 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
         |(sum, opt, b)| match opt {
             OpbOperator::LE => PbConstraint::new_ub(sum, b),
             OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b + 1),
+            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
             OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
             OpbOperator::EQ => PbConstraint::new_eq(sum, b),
         },
-- 
2.43.0


From af2b3568600aeba9d836472e6ce408f5c8d75d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 049/118] fix: overflow panics for large coefficients and
 bounds in OPB files

---
 src/instances/fio/opb.rs | 81 +++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 31 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 78ffa62..9dc1ea6 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -98,12 +98,8 @@ where
         }
         let (data, rest) = match (opb_data(self.opts), rest).parse(&self.buffer[self.processed..]) {
             Err(err) => {
-                let err = ParsingError::from_parse(
-                    &err,
-                    &self.buffer,
-                    self.processed,
-                    self.line_no,
-                );
+                let err =
+                    ParsingError::from_parse(&err, &self.buffer, self.processed, self.line_no);
                 // skip the rest of the malformed line
                 self.processed = self.buffer.len();
                 return Some(Err(err.into()));
@@ -214,22 +210,8 @@ struct ObjectiveSum {
 }
 
 #[cfg(feature = "optimization")]
-impl winnow::stream::Accumulate<(Lit, isize)> for ObjectiveSum {
-    fn initial(capacity: Option<usize>) -> Self {
-        if let Some(capacity) = capacity {
-            Self {
-                terms: Vec::with_capacity(capacity),
-                offset: 0,
-            }
-        } else {
-            Self {
-                terms: Vec::new(),
-                offset: 0,
-            }
-        }
-    }
-
-    fn accumulate(&mut self, (lit, coeff): (Lit, isize)) {
+impl ObjectiveSum {
+    fn add(&mut self, (lit, coeff): (Lit, isize)) {
         if coeff > 0 {
             self.terms.push((coeff.unsigned_abs(), lit));
         } else {
@@ -363,6 +345,21 @@ fn term<'i>(opts: Options) -> impl OpbParser<'i, (Lit, isize)> {
     seq! { coeff, _: space1, literal(opts) }.map(|(c, l)| (l, c))
 }
 
+/// The coefficients or the bound of a constraint or objective are too large to be handled
+#[derive(Debug, PartialEq, Eq, thiserror::Error)]
+#[error("sum of coefficients and bound is too large")]
+struct CoeffOverflow;
+
+/// Computes the sum of the absolute values of all coefficients and a bound, if it can be
+/// represented
+fn coeff_sum(terms: &[(Lit, isize)], bound: isize) -> Option<isize> {
+    terms
+        .iter()
+        .try_fold(bound.checked_abs()?, |sum, (_, coeff)| {
+            sum.checked_add(coeff.checked_abs()?)
+        })
+}
+
 /// Parses a (potentially empty) OPB sum
 fn term_sum<'i, Accumulator>(opts: Options) -> impl OpbParser<'i, Accumulator>
 where
@@ -386,13 +383,23 @@ fn ending<'i>(input: &mut &'i str) -> ModalResult<&'i str> {
 
 /// Parses an OPB constraint
 fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
-    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.map(
-        |(sum, opt, b)| match opt {
-            OpbOperator::LE => PbConstraint::new_ub(sum, b),
-            OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
-            OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
-            OpbOperator::EQ => PbConstraint::new_eq(sum, b),
+    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.try_map(
+        |(sum, opt, b)| {
+            // the constraint with strict operators removed and all coefficients made positive must
+            // not overflow
+            let bound = match opt {
+                OpbOperator::LT => b.checked_sub(1),
+                OpbOperator::GT => b.checked_add(1),
+                OpbOperator::LE | OpbOperator::GE | OpbOperator::EQ => Some(b),
+            };
+            let (Some(b), Some(_)) = (bound, bound.and_then(|b| coeff_sum(&sum, b))) else {
+                return Err(CoeffOverflow);
+            };
+            Ok(match opt {
+                OpbOperator::LE | OpbOperator::LT => PbConstraint::new_ub(sum, b),
+                OpbOperator::GE | OpbOperator::GT => PbConstraint::new_lb(sum, b),
+                OpbOperator::EQ => PbConstraint::new_eq(sum, b),
+            })
         },
     ).context(StrContext::Label("constraint"))
 }
@@ -400,8 +407,20 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
 #[cfg(feature = "optimization")]
 /// Parses an OPB objective
 fn objective<'i>(opts: Options) -> impl OpbParser<'i, Objective> {
-    seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<ObjectiveSum>(opts)), _: cut_err(ending) }
-        .map(|(sense,sum )| Objective::new(sense, sum))
+    seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<Vec<(Lit, isize)>>(opts)), _: cut_err(ending) }
+        .try_map(|(sense, terms)| {
+            if coeff_sum(&terms, 0).is_none() {
+                return Err(CoeffOverflow);
+            }
+            let mut sum = ObjectiveSum {
+                terms: Vec::with_capacity(terms.len()),
+                offset: 0,
+            };
+            for term in terms {
+                sum.add(term);
+            }
+            Ok(Objective::new(sense, sum))
+        })
         .context(StrContext::Label("objective"))
 }
 
-- 
2.43.0


From 38b248911f07817990a6bba3e83dc8323df619a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 050/118] fix: panics for variables that cannot be represented
 in DIMACS and OPB files

---
 src/instances/fio/dimacs.rs | 13 +++++++++++--
 src/instances/fio/opb.rs    | 15 ++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index c87cd49..0f7bd6a 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -31,6 +31,7 @@ use crate::instances::Cnf;
 use crate::types::Cl;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::Var;
 use crate::utils;
 
 use super::ParsingError;
@@ -719,14 +720,14 @@ where
 }
 
 fn cnf_p_line(input: &mut &str) -> ModalResult<(u32, usize)> {
-    seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, dec_uint, _: space1, dec_uint, _: space0 }
+    seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, n_vars, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("cnf p-line"))
         .parse_next(input)
 }
 
 #[cfg(feature = "optimization")]
 fn wcnf_p_line(input: &mut &str) -> ModalResult<(u32, usize, usize)> {
-    seq! { _: 'p', _: space1, _: cut_err("wcnf"), _: space1, dec_uint, _: space1, dec_uint, _: space1, dec_uint, _: space0 }
+    seq! { _: 'p', _: space1, _: cut_err("wcnf"), _: space1, n_vars, _: space1, dec_uint, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("wcnf p-line"))
         .parse_next(input)
 }
@@ -790,8 +791,16 @@ fn obj_idx(input: &mut &str) -> ModalResult<usize> {
         .parse_next(input)
 }
 
+/// Parses a number of variables that can be represented
+fn n_vars(input: &mut &str) -> ModalResult<u32> {
+    dec_uint
+        .verify(|n_vars| *n_vars <= Var::MAX_IDX)
+        .parse_next(input)
+}
+
 fn lit(input: &mut &str) -> ModalResult<Lit> {
     dec_int::<&str, i32, _>
+        .verify(|lit| *lit != i32::MIN)
         .try_map(Lit::from_ipasir)
         .context(StrContext::Label("IPASIR literal"))
         .parse_next(input)
diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 9dc1ea6..f998284 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -269,11 +269,18 @@ impl VarParser {
 #[error("found variable with index {0}, which is lower than lowest index {1}")]
 pub struct VarIdxTooLow(u32, u32);
 
+/// A variable index appearing in the parsed data is too high for a variable that can be counted by
+/// a variable manager
+#[derive(Debug, PartialEq, Eq, thiserror::Error)]
+#[error("found variable with index {0}, which is too high")]
+pub struct VarIdxTooHigh(u32);
+
 impl<'i, E> winnow::Parser<&'i str, Var, E> for VarParser
 where
     E: winnow::error::ParserError<&'i str>
         + winnow::error::AddContext<&'i str, winnow::error::StrContext>
         + winnow::error::FromExternalError<&'i str, VarIdxTooLow>
+        + winnow::error::FromExternalError<&'i str, VarIdxTooHigh>
         + winnow::error::FromExternalError<&'i str, <u32 as std::str::FromStr>::Err>,
 {
     fn parse_next(&mut self, input: &mut &'i str) -> winnow::Result<Var, E> {
@@ -290,7 +297,13 @@ where
             if idx < self.0 {
                 return Err(VarIdxTooLow(idx, self.0));
             }
-            Ok(Var::new(idx - self.0))
+            Ok(idx - self.0)
+        })
+        .try_map(|idx| {
+            if idx >= Var::MAX_IDX {
+                return Err(VarIdxTooHigh(idx));
+            }
+            Ok(Var::new(idx))
         })
         .context(StrContext::Label("variable"))
         .parse_next(input)
-- 
2.43.0


From a21427f3219454e4c7e172f65fd411b20a01998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 051/118] fix: overflow panics for large weights and objective
 indices in WCNF and MCNF files

---
 src/instances/fio/mod.rs  | 22 ++++++++++++++++++++++
 src/instances/multiopt.rs | 12 ++++++++----
 src/instances/opt.rs      |  7 +++++--
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index da336f0..c52414e 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -42,6 +42,28 @@ pub enum Error {
     ObjectiveConversionOverflow,
 }
 
+/// Adds the weight of a parsed soft clause to the sum of weights in its objective, ensuring that
+/// the costs of the objective can be represented
+#[cfg(feature = "optimization")]
+pub(crate) fn add_soft_weight(
+    sum: &mut usize,
+    weight: usize,
+    clause: &crate::types::Clause,
+) -> Result<(), Error> {
+    match sum.checked_add(weight) {
+        // empty soft clauses are added to the (signed) offset of the objective
+        Some(new) if !clause.is_empty() || isize::try_from(new).is_ok() => {
+            *sum = new;
+            Ok(())
+        }
+        _ => Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "the sum of soft clause weights is too large",
+        )
+        .into()),
+    }
+}
+
 /// An error occurring during parsing
 #[derive(Clone, Debug, thiserror::Error)]
 pub struct ParsingError {
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 77fcadb..5b6df1c 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -139,10 +139,7 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
         let (constrs, objs) = self.decompose();
         let (cnf, vm) = constrs.into_cnf();
-        let soft_cls = objs
-            .into_iter()
-            .map(Objective::into_soft_cls)
-            .collect();
+        let soft_cls = objs.into_iter().map(Objective::into_soft_cls).collect();
         (cnf, soft_cls, vm)
     }
 
@@ -382,6 +379,7 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
     pub fn from_dimacs<R: std::io::BufRead>(reader: R) -> Result<Self, fio::Error> {
         let mut constrs = SatInstance::<VM>::default();
         let mut objs = vec![];
+        let mut weight_sums = vec![];
         for data in fio::dimacs::Parser::<fio::dimacs::Mcnf, _>::new(reader) {
             match data? {
                 fio::dimacs::McnfData::HardClause(clause) => constrs.add_clause(clause),
@@ -391,8 +389,14 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
                     clause,
                 } => {
                     if obj_idx > objs.len() {
+                        let additional = obj_idx - objs.len();
+                        objs.try_reserve(additional)
+                            .and_then(|()| weight_sums.try_reserve(additional))
+                            .map_err(|_| std::io::Error::from(std::io::ErrorKind::OutOfMemory))?;
                         objs.resize(obj_idx, Objective::new());
+                        weight_sums.resize(obj_idx, 0);
                     }
+                    fio::add_soft_weight(&mut weight_sums[obj_idx - 1], weight, &clause)?;
                     objs[obj_idx - 1].increase_soft_clause(weight, clause);
                 }
                 fio::dimacs::McnfData::Comment(_) => (),
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 0e30190..2bb3fc5 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -937,8 +937,8 @@ impl Objective {
                         continue;
                     };
                     let common = std::cmp::min(soft_lits[&lit], neg_weight);
-                    *offset += isize::try_from(common)
-                        .expect("only support weights up to `isize::MAX`");
+                    *offset +=
+                        isize::try_from(common).expect("only support weights up to `isize::MAX`");
                     for l in [lit, !lit] {
                         if let std::collections::hash_map::Entry::Occupied(mut entry) =
                             soft_lits.entry(l)
@@ -1503,6 +1503,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .forward_to_body()?;
         let mut constrs = super::SatInstance::<VM>::default();
         let mut obj = Objective::default();
+        let mut weight_sum = 0;
         match header_data {
             super::fio::dimacs::WcnfHeaderData::Pre22 {
                 n_vars,
@@ -1518,6 +1519,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                             constrs.add_clause(clause);
                         }
                         super::fio::dimacs::WcnfData::SoftClause { weight, clause } => {
+                            super::fio::add_soft_weight(&mut weight_sum, weight, &clause)?;
                             obj.increase_soft_clause(weight, clause);
                         }
                         super::fio::dimacs::WcnfData::Comment(_) => (),
@@ -1531,6 +1533,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                             constrs.add_clause(clause);
                         }
                         super::fio::dimacs::WcnfData::SoftClause { weight, clause } => {
+                            super::fio::add_soft_weight(&mut weight_sum, weight, &clause)?;
                             obj.increase_soft_clause(weight, clause);
                         }
                         super::fio::dimacs::WcnfData::Comment(_) => (),
-- 
2.43.0


From 1707531ee760ed8837ceef844bd15d7830c1701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 052/118] fix: Lit::new refuses the highest variable index

---
 src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6b59c21..79ac74e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -366,7 +366,7 @@ impl Lit {
     /// If `idx > Var::MAX_IDX`.
     #[must_use]
     pub const fn new(idx: u32, negated: bool) -> Lit {
-        assert!(idx < Var::MAX_IDX, "variable index too high");
+        assert!(idx <= Var::MAX_IDX, "variable index too high");
         Lit {
             lidx: Lit::represent(idx, negated),
         }
-- 
2.43.0


From 1ea2d2776b587fe290c25aeaded04b7c725abc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 053/118] fix: conflicting negative literals in value lines not
 detected

---
 src/types/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 79ac74e..f5de13b 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1041,10 +1041,7 @@ impl Assignment {
             }
 
             let literal = Lit::from_ipasir(number)?;
-            let val = self.lit_value(literal);
-            if val == TernaryVal::True && literal.is_neg()
-                || val == TernaryVal::False && literal.is_pos()
-            {
+            if self.lit_value(literal) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(literal.var()));
             }
@@ -1081,8 +1078,7 @@ impl Assignment {
                         1,
                     )
                 })?;
-            let val = self.lit_value(lit);
-            if val == TernaryVal::True && lit.is_neg() || val == TernaryVal::False && lit.is_pos() {
+            if self.lit_value(lit) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(lit.var()));
             }
-- 
2.43.0


From b289bc9a38a693bd8bfdfb2591415beb8f8cc391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 054/118] fix: panic for value lines starting with a multi-byte
 character

---
 src/types/mod.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index f5de13b..1039e46 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -989,23 +989,15 @@ impl Assignment {
         if lines.is_empty() {
             return Err(InvalidVLine::EmptyLine);
         }
+        // whether the values are given as zeroes and ones, rather than as literals
+        let is_bits = |line: &str| {
+            let values = line.get(1..).unwrap_or_default().trim();
+            values != "0" && values.chars().all(|c| c == '1' || c == '0')
+        };
         // determine line format
         let format = if lines.contains('x') {
             VLineFormat::PbComp
-        } else if !lines[1..].trim().contains(' ')
-            && lines[1..].trim() != "0"
-            && lines[1..]
-                .trim()
-                .chars()
-                .try_for_each(|c| {
-                    if c == '1' || c == '0' {
-                        Ok(())
-                    } else {
-                        Err(())
-                    }
-                })
-                .is_ok()
-        {
+        } else if lines.lines().all(is_bits) {
             VLineFormat::MaxSatEval
         } else {
             VLineFormat::SatComp
-- 
2.43.0


From 2ad4fb01a04332ae7df1523e619c8112b171d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 055/118] fix: malformed and contradictory solver outputs are
 accepted or misread

---
 src/instances/fio/mod.rs | 46 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index c52414e..14baa2a 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -266,46 +266,48 @@ pub enum SatSolverOutputError {
 pub fn parse_sat_solver_output<R: BufRead>(
     reader: R,
 ) -> Result<SolverOutput, SatSolverOutputError> {
-    let mut is_sat = false;
-    let mut solution: Option<crate::types::Assignment> = None;
+    let mut status: Option<String> = None;
+    // the format of the value lines can only be determined from all of them
+    let mut value_lines = String::new();
 
     for line in reader.lines() {
         let line = &line?;
 
         // Solution line
         if line.starts_with("s ") {
-            let line = &line[1..].trim_start();
-            match line {
-                line if line.starts_with("UNSATISFIABLE") => return Ok(SolverOutput::Unsat),
-                line if line.starts_with("UNKNOWN") || line.starts_with("INDETERMINATE") => {
-                    return Ok(SolverOutput::Unknown)
-                }
-                line if line.starts_with("SATISFIABLE") => {
-                    is_sat = true;
-                }
+            let line = match line[1..].trim() {
+                "INDETERMINATE" => "UNKNOWN",
+                line @ ("SATISFIABLE" | "UNSATISFIABLE" | "UNKNOWN") => line,
                 _ => return Err(SatSolverOutputError::InvalidSLine),
+            };
+            // contradictory solution lines can not be trusted
+            if status.as_ref().is_some_and(|status| status != line) {
+                return Err(SatSolverOutputError::InvalidSLine);
             }
+            status = Some(line.to_string());
         }
 
         // Value line
         if line.starts_with("v ") {
-            match &mut solution {
-                Some(assign) => assign.extend_from_vline(line)?,
-                _ => solution = Some(crate::types::Assignment::from_vline(line)?),
-            }
+            value_lines.push_str(line);
+            value_lines.push('\n');
         }
     }
 
-    // There is no solution line so we can not trust the output
-    if !is_sat {
-        return Err(SatSolverOutputError::NoSLine);
+    match status.as_deref() {
+        Some("UNSATISFIABLE") => return Ok(SolverOutput::Unsat),
+        Some("UNKNOWN") => return Ok(SolverOutput::Unknown),
+        Some(_) => (),
+        // There is no solution line so we can not trust the output
+        None => return Err(SatSolverOutputError::NoSLine),
     }
 
-    if let Some(solution) = solution {
-        return Ok(SolverOutput::Sat(solution));
+    if value_lines.is_empty() {
+        return Err(SatSolverOutputError::NoVLine);
     }
-
-    Err(SatSolverOutputError::NoVLine)
+    Ok(SolverOutput::Sat(crate::types::Assignment::from_vline(
+        &value_lines,
+    )?))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5d9468aa597815bfe425bfcb93f28fe0b0edd898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 056/118] fix: value of negative literals and of new variables
 in Minisat and Glucose

---
 glucose/vendor/cglucose4.cc        | 8 ++++++--
 minisat/vendor/minisat/cminisat.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 85953ca..a22f865 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -135,8 +135,12 @@ int cglucosesimp4_solve(CGlucoseSimp4 *handle, const c_Lit *assumps,
 
 int cglucose4_val(CGlucose4 *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l = Lit{lit.x};
+  if (var(l) >= solver->model.size()) {
+    // variable was added after the model was found
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5b998e9..64a24c8 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -131,8 +131,12 @@ int cminisatsimp_solve(CMinisatSimp *handle, const c_Lit *assumps,
 
 int cminisat_val(CMinisat *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l = Lit{lit.x};
+  if (var(l) >= solver->model.size()) {
+    // variable was added after the model was found
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
-- 
2.43.0


From eb2bb58a1b7b1ef6cf864cc71b5ec3e074d71ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 057/118] fix: Minisat and Glucose create a variable for empty
 clauses and assumptions

---
 glucose/vendor/cglucose4.cc        | 2 +-
 minisat/vendor/minisat/cminisat.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index a22f865..cb7a820 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -64,7 +64,7 @@ void cglucosesimp4_release(CGlucoseSimp4 *handle) {
 
 void cglucose4_ensure_vars(Solver *solver, const Lit *lits, size_t n_lits) {
   // find max variable in clause
-  Var max_v = 0;
+  Var max_v = var_Undef;
   for (size_t i = 0; i < n_lits; i++) {
     if (var(lits[i]) > max_v) {
       max_v = var(lits[i]);
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 64a24c8..8a310b9 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -62,7 +62,7 @@ void cminisatsimp_release(CMinisatSimp *handle) { delete (SimpSolver *)handle; }
 
 void cminisat_ensure_vars(Solver *solver, const Lit *lits, size_t n_lits) {
   // find max variable in clause
-  Var max_v = 0;
+  Var max_v = var_Undef;
   for (size_t i = 0; i < n_lits; i++) {
     if (var(lits[i]) > max_v) {
       max_v = var(lits[i]);
-- 
2.43.0


From 9fa916873287e6a3b4af5acec49badd2619d02f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 058/118] fix: out-of-bounds read when assuming new variables
 in simplifying Minisat and Glucose

---
 glucose/vendor/cglucose4.cc        | 3 ++-
 minisat/vendor/minisat/cminisat.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index cb7a820..8ab7e18 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -285,7 +285,8 @@ int cglucosesimp4_is_frozen(CGlucoseSimp4 *handle, c_Var var) {
 }
 
 int cglucosesimp4_is_eliminated(CGlucoseSimp4 *handle, c_Var var) {
-  return ((SimpSolver *)handle)->isEliminated(var);
+  SimpSolver *solver = (SimpSolver *)handle;
+  return var < solver->nVars() && solver->isEliminated(var);
 }
 
 int cglucose4_propcheck(CGlucose4 *handle, const c_Lit *assumps,
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 8a310b9..77c2634 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -281,7 +281,8 @@ int cminisatsimp_is_frozen(CMinisatSimp *handle, c_Var var) {
 }
 
 int cminisatsimp_is_eliminated(CMinisatSimp *handle, c_Var var) {
-  return ((SimpSolver *)handle)->isEliminated(var);
+  SimpSolver *solver = (SimpSolver *)handle;
+  return var < solver->nVars() && solver->isEliminated(var);
 }
 
 int cminisat_propcheck(CMinisat *handle, const c_Lit *assumps, size_t n_assumps,
-- 
2.43.0


From 2aad4362831e840c746a1a884ebd83604df01565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 059/118] fix: out-of-bounds access when propagating new
 variables in Minisat and Glucose

---
 glucose/vendor/cglucose4.cc        | 1 +
 minisat/vendor/minisat/cminisat.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 8ab7e18..2645d92 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -295,6 +295,7 @@ int cglucose4_propcheck(CGlucose4 *handle, const c_Lit *assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cglucose4_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 77c2634..0a603e2 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -291,6 +291,7 @@ int cminisat_propcheck(CMinisat *handle, const c_Lit *assumps, size_t n_assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cminisat_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
-- 
2.43.0


From eecc33db1c56473266db30121089273d89cf02c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 060/118] fix: removing a Minisat or Glucose limit after
 searching interrupts every query

---
 glucose/vendor/core/Solver.h         | 4 ++--
 minisat/vendor/minisat/core/Solver.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/glucose/vendor/core/Solver.h b/glucose/vendor/core/Solver.h
index 7217a97..4a8d916 100755
--- a/glucose/vendor/core/Solver.h
+++ b/glucose/vendor/core/Solver.h
@@ -584,8 +584,8 @@ inline void     Solver::setDecisionVar(Var v, bool b)
     decision[v] = b;
     insertVarOrder(v);
 }
-inline void     Solver::setConfBudget(int64_t x){ conflict_budget    = conflicts    + x; }
-inline void     Solver::setPropBudget(int64_t x){ propagation_budget = propagations + x; }
+inline void     Solver::setConfBudget(int64_t x){ conflict_budget    = x < 0 ? -1 : (int64_t)conflicts    + x; }
+inline void     Solver::setPropBudget(int64_t x){ propagation_budget = x < 0 ? -1 : (int64_t)propagations + x; }
 inline void     Solver::interrupt(){ asynch_interrupt = true; }
 inline void     Solver::clearInterrupt(){ asynch_interrupt = false; }
 inline void     Solver::budgetOff(){ conflict_budget = propagation_budget = -1; }
diff --git a/minisat/vendor/minisat/core/Solver.h b/minisat/vendor/minisat/core/Solver.h
index 73683a7..dfd6a13 100644
--- a/minisat/vendor/minisat/core/Solver.h
+++ b/minisat/vendor/minisat/core/Solver.h
@@ -374,8 +374,8 @@ inline void     Solver::setDecisionVar(Var v, bool b)
     decision[v] = b;
     insertVarOrder(v);
 }
-inline void     Solver::setConfBudget(int64_t x){ conflict_budget    = conflicts    + x; }
-inline void     Solver::setPropBudget(int64_t x){ propagation_budget = propagations + x; }
+inline void     Solver::setConfBudget(int64_t x){ conflict_budget    = x < 0 ? -1 : (int64_t)conflicts    + x; }
+inline void     Solver::setPropBudget(int64_t x){ propagation_budget = x < 0 ? -1 : (int64_t)propagations + x; }
 inline void     Solver::interrupt(){ asynch_interrupt = true; }
 inline void     Solver::clearInterrupt(){ asynch_interrupt = false; }
 inline void     Solver::budgetOff(){ conflict_budget = propagation_budget = -1; }
-- 
2.43.0


From ff7f5d0af8b0508602f849e6ca63cef679113fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 061/118] fix: average clause length of BatSat when clauses are
 dropped

---
 batsat/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/batsat/src/lib.rs b/batsat/src/lib.rs
index 6c508bb..d5f436f 100644
--- a/batsat/src/lib.rs
+++ b/batsat/src/lib.rs
@@ -63,6 +63,7 @@ pub struct Solver<Cb: batsat::Callbacks> {
     n_sat: usize,
     n_unsat: usize,
     n_terminated: usize,
+    n_added: usize,
     avg_clause_len: f32,
     cpu_time: std::time::Duration,
 }
@@ -75,6 +76,7 @@ impl<Cb: batsat::Callbacks> std::fmt::Debug for Solver<Cb> {
             .field("n_sat", &self.n_sat)
             .field("n_unsat", &self.n_unsat)
             .field("n_terminated", &self.n_terminated)
+            .field("n_added", &self.n_added)
             .field("avg_clause_len", &self.avg_clause_len)
             .field("cpu_time", &self.cpu_time)
             .finish()
@@ -97,11 +99,11 @@ impl<Cb: batsat::Callbacks> Solver<Cb> {
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
-        use rustsat::solvers::SolveStats;
-
-        self.avg_clause_len = (self.avg_clause_len * ((self.n_clauses()) as f32)
+        // NOTE: `n_clauses` does not count clauses that BatSat dropped or simplified away
+        self.n_added += 1;
+        self.avg_clause_len = (self.avg_clause_len * ((self.n_added - 1) as f32)
             + clause.len() as f32)
-            / (self.n_clauses() + 1) as f32;
+            / self.n_added as f32;
     }
 
     fn solve_track_stats(&mut self, assumps: &[Lit]) -> SolverResult {
-- 
2.43.0


From 96280e894103a14bb75abd2a7fec21d532871198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 062/118] fix: Kissat aborts the process when used again after
 an interruption

---
 kissat/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 5bf55c6..f4f5a02 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -83,6 +83,8 @@ enum InternalSolverState {
     Input,
     Sat,
     Unsat(Vec<Lit>),
+    /// Solving was interrupted, Kissat cannot be used further
+    Unknown,
 }
 
 impl InternalSolverState {
@@ -92,6 +94,7 @@ impl InternalSolverState {
             InternalSolverState::Input => rustsat::solvers::SolverState::Input,
             InternalSolverState::Sat => rustsat::solvers::SolverState::Sat,
             InternalSolverState::Unsat(_) => rustsat::solvers::SolverState::Unsat,
+            InternalSolverState::Unknown => rustsat::solvers::SolverState::Unknown,
         }
     }
 }
@@ -310,6 +313,14 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         if let InternalSolverState::Unsat(_) = self.state {
             return Ok(SolverResult::Unsat);
         }
+        // Kissat is non-incremental and aborts if called again after having been interrupted
+        if self.state == InternalSolverState::Unknown {
+            return Err(rustsat::solvers::StateError {
+                required_state: rustsat::solvers::SolverState::Input,
+                actual_state: self.state.to_external(),
+            }
+            .into());
+        }
         let start = rustsat::utils::Timer::now();
         // Solve with Kissat backend
         let res = unsafe { ffi::kissat_solve(self.handle) };
@@ -317,7 +328,7 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         match res {
             0 => {
                 self.stats.n_terminated += 1;
-                self.state = InternalSolverState::Input;
+                self.state = InternalSolverState::Unknown;
                 Ok(SolverResult::Interrupted)
             }
             10 => {
-- 
2.43.0


From ffedd9aec42fede0d63103178f806544163474a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 063/118] fix: reserving variables in a solved Kissat loses the
 result and aborts

---
 kissat/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index f4f5a02..ea51f6d 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -300,6 +300,17 @@ impl rustsat::solvers::Solve for Kissat<'_> {
     }
 
     fn reserve(&mut self, max_var: Var) -> anyhow::Result<()> {
+        // Kissat is non-incremental, so only reserve if in input or configuring state
+        if !matches!(
+            self.state,
+            InternalSolverState::Input | InternalSolverState::Configuring
+        ) {
+            return Err(rustsat::solvers::StateError {
+                required_state: rustsat::solvers::SolverState::Input,
+                actual_state: self.state.to_external(),
+            }
+            .into());
+        }
         self.state = InternalSolverState::Input;
         unsafe { ffi::kissat_reserve(self.handle, max_var.to_ipasir()) };
         Ok(())
-- 
2.43.0


From cecac43fd7282a44c9becbede562608591fad2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 064/118] fix: Glucose silently accepts clauses over eliminated
 variables

---
 glucose/src/lib.rs  | 8 ++++++++
 glucose/src/simp.rs | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/glucose/src/lib.rs b/glucose/src/lib.rs
index e6bc642..95885c9 100644
--- a/glucose/src/lib.rs
+++ b/glucose/src/lib.rs
@@ -46,6 +46,14 @@ pub struct InvalidApiReturn {
 #[error("assumption variable {0} has been eliminated by glucose simplification")]
 pub struct AssumpEliminated(rustsat::types::Var);
 
+/// The clause contains a variable that has been eliminated by Glucose simplification
+///
+/// Glucose does not support adding clauses over eliminated variables. To prevent this, variables
+/// that will be used in later clauses can be frozen via [`rustsat::solvers::FreezeVar`]
+#[derive(thiserror::Error, Clone, Copy, PartialEq, Eq, Debug)]
+#[error("clause variable {0} has been eliminated by glucose simplification")]
+pub struct ClauseVarEliminated(rustsat::types::Var);
+
 #[derive(Debug, PartialEq, Eq, Default)]
 enum InternalSolverState {
     #[default]
diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index e9da68f..5307369 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -176,6 +176,11 @@ impl rustsat::solvers::Solve for Glucose {
         C: AsRef<Cl> + ?Sized,
     {
         let clause = clause.as_ref();
+        for l in clause {
+            if self.var_eliminated(l.var()) {
+                return Err(crate::ClauseVarEliminated(l.var()).into());
+            }
+        }
         // Update wrapper-internal state
         self.stats.n_clauses += 1;
         self.update_avg_clause_len(clause);
-- 
2.43.0


From 13b1b01c06d879e6acda0daad9a4f288e8226e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 065/118] fix: detaching a learner detaches the terminator in
 CaDiCaL and IPASIR

---
 cadical/src/lib.rs | 2 +-
 ipasir/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index c15b779..dbee2ad 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -936,7 +936,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ccadical_set_learn(self.handle, std::ptr::null_mut(), 0, None) }
     }
 }
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index a186b1b..c048f83 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -398,7 +398,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ipasir_set_learn(self.handle, std::ptr::null(), 0, None) }
     }
 }
-- 
2.43.0


From 1c291f245ac3c2fe60f481e8684210df5ae7ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 066/118] fix: CaDiCaL simplification ignores assumptions and
 returns outdated results

---
 cadical/src/lib.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index dbee2ad..02552e1 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -475,8 +475,10 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(_) = self.state {
-            return Ok(SolverResult::Unsat);
+        if let InternalSolverState::Unsat(core) = &self.state {
+            if core.is_empty() {
+                return Ok(SolverResult::Unsat);
+            }
         }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend
@@ -523,13 +525,6 @@ impl CaDiCaL<'_, '_> {
         assumps: &[Lit],
         rounds: u32,
     ) -> anyhow::Result<SolverResult> {
-        // If already solved, return state
-        if let InternalSolverState::Sat = self.state {
-            return Ok(SolverResult::Sat);
-        }
-        if let InternalSolverState::Unsat(_) = self.state {
-            return Ok(SolverResult::Unsat);
-        }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend under assumptions
         for a in assumps {
@@ -545,7 +540,7 @@ impl CaDiCaL<'_, '_> {
                 Ok(SolverResult::Sat)
             }
             20 => {
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = InternalSolverState::Unsat(self.get_core_assumps(assumps)?);
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
-- 
2.43.0


From 318a7abe3ac7d92530340a023230f9670e333932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 067/118] fix: CaDiCaL reports unsatisfiable after a temporary
 clause is gone

---
 cadical/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 02552e1..8045b59 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -476,7 +476,8 @@ impl CaDiCaL<'_, '_> {
             return Ok(SolverResult::Sat);
         }
         if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
+            // the result is only final if it does not depend on a temporary clause
+            if core.is_empty() && unsafe { ffi::ccadical_constraint_failed(self.handle) } == 0 {
                 return Ok(SolverResult::Unsat);
             }
         }
@@ -712,7 +713,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
             return Ok(SolverResult::Sat);
         }
         if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
+            // the result is only final if it does not depend on a temporary clause
+            if core.is_empty() && unsafe { ffi::ccadical_constraint_failed(self.handle) } == 0 {
                 return Ok(SolverResult::Unsat);
             }
         }
-- 
2.43.0


From 250d28d108a7fc227fcd1490bdac8fddb7f8fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 068/118] fix: setting a CaDiCaL option too late aborts the
 process

---
 cadical/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 8045b59..50c3862 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -353,9 +353,19 @@ impl CaDiCaL<'_, '_> {
     ///
     /// # Errors
     ///
-    /// Returns [`InvalidApiReturn`] if the C-API does not return `true`. This is most likely due
-    /// to a wrongly specified `name` or an invalid `value`.
+    /// - Returns [`rustsat::solvers::StateError`] if the solver is not in [`rustsat::solvers::SolverState::Configuring`]
+    /// - Returns [`InvalidApiReturn`] if the C-API does not return `true`. This is most likely due
+    ///   to a wrongly specified `name` or an invalid `value`.
     pub fn set_option(&mut self, name: &str, value: c_int) -> anyhow::Result<()> {
+        // CaDiCaL allows for changing the output options at any point
+        let any_state = ["log", "quiet", "report", "verbose"];
+        if self.state != InternalSolverState::Configuring && !any_state.contains(&name) {
+            return Err(rustsat::solvers::StateError {
+                required_state: rustsat::solvers::SolverState::Configuring,
+                actual_state: self.state.to_external(),
+            }
+            .into());
+        }
         let c_name = std::ffi::CString::new(name)?;
         if unsafe { ffi::ccadical_set_option_ret(self.handle, c_name.as_ptr(), value) } != 0 {
             Ok(())
-- 
2.43.0


From acccad4df71a1eaa58ab9beedd7f9a2da9151321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 069/118] fix: CaDiCaL aborts the process when the solution is
 queried after declaring variables

---
 cadical/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 50c3862..28a03bd 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -649,6 +649,7 @@ impl CaDiCaL<'_, '_> {
     /// If `num_additional > i32::MAX`
     #[cfg(cadical_version = "v2.2")]
     pub fn declare_more_variables(&mut self, num_additional: u32) -> Var {
+        self.state = InternalSolverState::Input;
         Lit::from_ipasir(unsafe {
             ffi::ccadical_declare_more_variables(
                 self.handle,
-- 
2.43.0


From 7e60f47fd476278fd8defaa27fe61dba02cac485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 070/118] fix: CaDiCaL aborts the process when melting a
 variable that is not frozen

---
 cadical/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 28a03bd..b0cbb73 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -993,6 +993,9 @@ impl rustsat::solvers::FreezeVar for CaDiCaL<'_, '_> {
     }
 
     fn melt_var(&mut self, var: Var) -> anyhow::Result<()> {
+        if !self.is_frozen(var)? {
+            return Ok(());
+        }
         unsafe { ffi::ccadical_melt(self.handle, var.to_ipasir()) };
         Ok(())
     }
-- 
2.43.0


From 71028a6124955f3954d9101593ac616e6768e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 071/118] fix: setting a Kissat option whose value was zero
 reports an error

---
 kissat/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index ea51f6d..14ffbb5 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -227,19 +227,24 @@ impl Kissat<'_> {
     ///
     /// # Errors
     ///
-    /// Returns [`InvalidApiReturn`] if the C-API does not return `true`. This is most likely due
-    /// to a wrongly specified `name` or an invalid `value`.
+    /// Returns [`InvalidApiReturn`] if Kissat does not have an option with the given `name`.
     pub fn set_option(&mut self, name: &str, value: c_int) -> anyhow::Result<()> {
+        extern "C" {
+            /// Returns null if there is no option with the given name
+            fn kissat_options_has(name: *const std::ffi::c_char) -> *const std::ffi::c_void;
+        }
+
         let c_name = std::ffi::CString::new(name)?;
-        if unsafe { ffi::kissat_set_option(self.handle, c_name.as_ptr(), value) } != 0 {
-            Ok(())
-        } else {
-            Err(InvalidApiReturn {
+        if unsafe { kissat_options_has(c_name.as_ptr()) }.is_null() {
+            return Err(InvalidApiReturn {
                 api_call: "kissat_set_option",
                 value: 0,
             }
-            .into())
+            .into());
         }
+        // NOTE: this returns the _previous_ value of the option
+        unsafe { ffi::kissat_set_option(self.handle, c_name.as_ptr(), value) };
+        Ok(())
     }
 
     /// Gets the value of a Kissat option. For possible options, check Kissat with `kissat --help`.
-- 
2.43.0


From d14c8f010cead5bf91810c465c64fc5c8ce620ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 072/118] fix: simplifying Glucose returns the core of an
 earlier query

---
 glucose/vendor/cglucose4.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 2645d92..fc7af4d 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -115,6 +115,8 @@ int cglucose4_solve(CGlucose4 *handle, const c_Lit *c_assumps,
   lbool res;
   try {
     cglucose4_ensure_vars(solver, assumps, n_assumps);
+    // the core of the last query is not cleared if preprocessing detects unsat
+    solver->conflict.clear();
     res = solver->solveLimited(assumps, (int)n_assumps);
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
-- 
2.43.0


From 50df34a84703c22bddbc30aa9e4f829d781863ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 073/118] fix: CaDiCaL crashes when flipping a variable that is
 not in any clause

---
 cadical/vendor/src/flip.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cadical/vendor/src/flip.cpp b/cadical/vendor/src/flip.cpp
index 0c5f076..341fe90 100644
--- a/cadical/vendor/src/flip.cpp
+++ b/cadical/vendor/src/flip.cpp
@@ -4,9 +4,10 @@ namespace CaDiCaL {
 
 bool Internal::flip (int lit) {
 
-  // Do not try to flip inactive literals except for unused variables.
+  // Do not try to flip inactive literals. Unused variables do neither have a
+  // value nor watches, so they can not be flipped either.
 
-  if (!active (lit) && !flags (lit).unused ())
+  if (!active (lit))
     return false;
 
   /*
@@ -164,9 +165,10 @@ bool Internal::flip (int lit) {
 
 bool Internal::flippable (int lit) {
 
-  // Can not check inactive literals except for unused variables.
+  // Can not check inactive literals. Unused variables do neither have a
+  // value nor watches, so they can not be flipped either.
 
-  if (!active (lit) && !flags (lit).unused ())
+  if (!active (lit))
     return false;
 
   /*
-- 
2.43.0


From 306a455a0bb0f7af8fdd1c95d51c6e3c179f1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 074/118] fix: simulated incremental solver reports a variable
 after adding an empty clause

---
 src/solvers/simulators.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 83d63b1..2cf8c76 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -73,13 +73,8 @@ impl<S, Init> Incremental<S, Init> {
 
     #[inline]
     fn update_max_var(&mut self, clause: &Cl) {
-        if self.stats.max_var.is_none() {
-            self.stats.max_var = Some(crate::types::Var::new(0));
-        }
-        let max_var = self.stats.max_var.as_mut().unwrap();
-        for lit in clause {
-            *max_var = std::cmp::max(*max_var, lit.var());
-        }
+        let clause_max = clause.iter().map(|lit| lit.var()).max();
+        self.stats.max_var = std::cmp::max(self.stats.max_var, clause_max);
     }
 }
 
-- 
2.43.0


From 3b73629f7337d578d211eb60d0587040c0945b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 075/118] fix: CaDiCaL crashes when flipping a variable that
 became known after solving

---
 cadical/vendor/src/flip.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cadical/vendor/src/flip.cpp b/cadical/vendor/src/flip.cpp
index 341fe90..11400cf 100644
--- a/cadical/vendor/src/flip.cpp
+++ b/cadical/vendor/src/flip.cpp
@@ -5,9 +5,10 @@ namespace CaDiCaL {
 bool Internal::flip (int lit) {
 
   // Do not try to flip inactive literals. Unused variables do neither have a
-  // value nor watches, so they can not be flipped either.
+  // value nor watches, so they can not be flipped either. The same holds for
+  // variables that became active after the formula was solved.
 
-  if (!active (lit))
+  if (!active (lit) || !val (lit))
     return false;
 
   /*
@@ -166,9 +167,10 @@ bool Internal::flip (int lit) {
 bool Internal::flippable (int lit) {
 
   // Can not check inactive literals. Unused variables do neither have a
-  // value nor watches, so they can not be flipped either.
+  // value nor watches, so they can not be flipped either. The same holds for
+  // variables that became active after the formula was solved.
 
-  if (!active (lit))
+  if (!active (lit) || !val (lit))
     return false;
 
   /*
-- 
2.43.0


From 2adca8e07b460a2674e78c2d12769824ff73fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 076/118] fix: CaDiCaL reports a decision for the temporary
 clause as propagated

---
 cadical/vendor/src/internal.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cadical/vendor/src/internal.cpp b/cadical/vendor/src/internal.cpp
index 51d78ca..2a21ead 100644
--- a/cadical/vendor/src/internal.cpp
+++ b/cadical/vendor/src/internal.cpp
@@ -416,9 +416,10 @@ int Internal::propagate_assumptions () {
 }
 
 void Internal::implied (std::vector<int> &entrailed) {
+  // The literal satisfying the constraint is decided on the level after the
+  // assumptions, it is therefore in general not implied.
+
   int last_assumption_level = assumptions.size ();
-  if (constraint.size ())
-    last_assumption_level++;
 
   size_t trail_limit = trail.size ();
   if (level > last_assumption_level)
-- 
2.43.0


From f6a457dd16f6d8abfae5cb0bc4e35cb57b857768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 077/118] fix: CaDiCaL reports a literal as flipped that
 reconstruction flips back

---
 cadical/vendor/src/external.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/vendor/src/external.cpp b/cadical/vendor/src/external.cpp
index 58bf919..41077c2 100644
--- a/cadical/vendor/src/external.cpp
+++ b/cadical/vendor/src/external.cpp
@@ -252,7 +252,7 @@ bool External::flip (int elit) {
   int eidx = abs (elit);
   if (eidx > max_var)
     return false;
-  if (marked (witness, elit))
+  if (marked (witness, elit) || marked (witness, -elit))
     return false;
   int ilit = e2i[eidx];
   if (!ilit)
@@ -271,7 +271,7 @@ bool External::flippable (int elit) {
   int eidx = abs (elit);
   if (eidx > max_var)
     return false;
-  if (marked (witness, elit))
+  if (marked (witness, elit) || marked (witness, -elit))
     return false;
   int ilit = e2i[eidx];
   if (!ilit)
-- 
2.43.0


From 4a848699c787be9d89a70f16fce7e7dda9623278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 078/118] fix: MaxSAT solving of soft clauses uses the wrong
 blocking literal polarity

---
 src/instances/opt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 2bb3fc5..bdcf31d 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1666,7 +1666,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             }
             let blit = vm.new_lit();
             solver
-                .add_clause(cl | !blit)
+                .add_clause(cl | blit)
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-- 
2.43.0


From 8f94cf7a67a1ea073a68ee75368eb0c624e0ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:31 +0000
Subject: [PATCH 079/118] fix: MaxSAT search ignores variables the solver does
 not know

---
 src/algs/maxsat.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/algs/maxsat.rs b/src/algs/maxsat.rs
index 829dc6b..1bcef4b 100644
--- a/src/algs/maxsat.rs
+++ b/src/algs/maxsat.rs
@@ -61,8 +61,18 @@ where
     type Solver = Solver;
 
     fn solve(solver: &mut Self::Solver, objective: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
-        let Some(max_var) = solver.max_var() else {
-            return Some((Assignment::default(), 0));
+        // variables might appear in the objective without the solver knowing them
+        let max_var = objective
+            .iter()
+            .map(|(lit, _)| lit.var())
+            .chain(solver.max_var())
+            .max();
+        let Some(max_var) = max_var else {
+            return match solver.solve().expect("solver error while solving") {
+                SolverResult::Sat => Some((Assignment::default(), 0)),
+                SolverResult::Unsat => None,
+                SolverResult::Interrupted => unreachable!(),
+            };
         };
         let mut vm = crate::instances::BasicVarManager::from_next_free(max_var + 1);
         let mut enc: PbEnc = objective.iter().copied().collect();
@@ -72,7 +82,13 @@ where
         loop {
             match solver.solve().expect("solver error while solving") {
                 SolverResult::Sat => {
-                    let assign = solver.solution(max_var).expect("failed getting solution");
+                    let mut assign = solver.solution(max_var).expect("failed getting solution");
+                    // an unassigned objective literal must not incur cost
+                    for &(lit, _) in objective {
+                        if assign.lit_value(lit) == crate::types::TernaryVal::DontCare {
+                            assign.assign_lit(!lit);
+                        }
+                    }
                     let val = objective_value(objective, &assign);
                     sol = Some((assign, val));
                     if val == 0 {
-- 
2.43.0


From 5b715271a1fe18a6e9ef937a7ac3950fea9dc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 080/118] fix: failed drain of the totalizer database corrupts
 the node references

---
 src/encodings/totdb/mod.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index dc923e0..ce84e14 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -102,14 +102,18 @@ impl NodeById for Db {
         if range.is_empty() {
             return Ok(self.nodes.drain(self.nodes.len()..self.nodes.len()));
         }
+        // check all nodes before changing any of them
         (range.end.0..self.nodes.len()).try_for_each(|idx| {
             self.nodes[idx]
-                .drain(range.clone())
+                .check_drain(&range)
                 .map_err(|con| DrainError {
                     referencing: NodeId(idx),
                     referenced: con,
                 })
         })?;
+        for node in &mut self.nodes[range.end.0..] {
+            node.drain(&range);
+        }
         self.lookup_leaf.retain(|_, id| !range.contains(id));
         self.lookup_leaf.values_mut().for_each(|id| {
             if *id >= range.end {
@@ -1056,10 +1060,9 @@ impl Node {
         }
     }
 
-    /// Adjusts the connections of the node to draining a range of nodes. If the
-    /// nodes references a nodes within the drained range, it returns that
-    /// [`NodeId`] as an Error.
-    fn drain(&mut self, range: std::ops::Range<NodeId>) -> Result<(), NodeId> {
+    /// Checks whether a range of nodes can be drained with respect to this node. If the node
+    /// references a node within the drained range, it returns that [`NodeId`] as an Error.
+    fn check_drain(&self, range: &std::ops::Range<NodeId>) -> Result<(), NodeId> {
         match self {
             Node::Leaf(_) | Node::Dummy => Ok(()),
             Node::Unit(UnitNode { left, right, .. })
@@ -1070,13 +1073,23 @@ impl Node {
                 if range.contains(&right.id) {
                     return Err(right.id);
                 }
+                Ok(())
+            }
+        }
+    }
+
+    /// Adjusts the connections of the node to draining a range of nodes
+    fn drain(&mut self, range: &std::ops::Range<NodeId>) {
+        match self {
+            Node::Leaf(_) | Node::Dummy => (),
+            Node::Unit(UnitNode { left, right, .. })
+            | Node::General(GeneralNode { left, right, .. }) => {
                 if left.id >= range.end {
                     left.id -= range.end - range.start;
                 }
                 if right.id >= range.end {
                     right.id -= range.end - range.start;
                 }
-                Ok(())
             }
         }
     }
-- 
2.43.0


From 903f5583fa27cdd867a86809aedaefc10b876652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 081/118] fix: draining the totalizer database leaves a
 dangling dummy node

---
 src/encodings/totdb/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index ce84e14..d715f76 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -120,6 +120,11 @@ impl NodeById for Db {
                 *id -= range.end - range.start;
             }
         });
+        self.dummy_id = match self.dummy_id {
+            Some(id) if range.contains(&id) => None,
+            Some(id) if id >= range.end => Some(id - (range.end - range.start)),
+            id => id,
+        };
         Ok(self.nodes.drain(range.start.0..range.end.0))
     }
 }
-- 
2.43.0


From ceac8b5f88d4dd17c664f401dfb5f46bb22bff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 082/118] fix: totalizer output next to a dummy node is not
 defined with only-if semantics

---
 src/encodings/totdb/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index d715f76..d0c7131 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -535,7 +535,13 @@ impl Db {
                     var_manager,
                 )?;
                 let olit = self.get_olit(id, idx, var_manager);
-                collector.add_clause(crate::encodings::atomics::lit_impl_lit(ilit, olit))?;
+                let new_semantics = self[id].unit().lits[idx].missing_semantics(semantics);
+                if new_semantics.is_some_and(Semantics::has_if) {
+                    collector.add_clause(crate::encodings::atomics::lit_impl_lit(ilit, olit))?;
+                }
+                if new_semantics.is_some_and(Semantics::has_only_if) {
+                    collector.add_clause(crate::encodings::atomics::lit_impl_lit(olit, ilit))?;
+                }
                 // Mark positive literal as encoded
                 self[id].mut_unit().lits[idx].add_semantics(semantics);
                 return Ok(olit);
-- 
2.43.0


From 2e0f76408f13bd0c42a0a2bc64279328ccfd921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 083/118] fix: totalizer output is marked as encoded although
 adding the clauses failed

---
 src/encodings/totdb/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index d0c7131..1552e9c 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -455,9 +455,6 @@ impl Db {
             .missing_semantics(req_semantics)
             .expect("semantics are already encoded");
 
-        // Mark positive literal as encoded (done first to avoid borrow checker problems)
-        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
-
         // Get lit slices of children
         let l_tmp_olit;
         let llits = get_lit_slice!(self, pre.lcon.id, l_tmp_olit);
@@ -502,6 +499,9 @@ impl Db {
         };
         collector.extend_clauses(pre.left_only_if.clone().map(only_if_clause))?;
 
+        // Mark positive literal as encoded (only now, since adding clauses might have failed)
+        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
+
         Ok(())
     }
 
-- 
2.43.0


From fa871399fbd128e36157c8d305461ef1278848dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 084/118] fix: reserving variables for a limited connection
 misses the last output

---
 src/encodings/totdb/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index 1552e9c..464d63c 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -581,7 +581,8 @@ impl Db {
 
         if divisor.get() == 1 {
             if let Some(limit) = len_limit {
-                for val in crate::utils::LimitedIter::new(&mut self[id].vals(offset..), limit.get())
+                for val in
+                    crate::utils::LimitedIter::new(&mut self[id].vals(offset + 1..), limit.get())
                 {
                     self[id].reserve_vars(val..=val, var_manager);
                 }
-- 
2.43.0


From 62644dc44c18925a98a39f375b694deac4e57855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 085/118] fix: number of literals transmitted by an offset
 connection to a weighted node

---
 src/encodings/nodedb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/encodings/nodedb.rs b/src/encodings/nodedb.rs
index d4c743d..b41d03c 100644
--- a/src/encodings/nodedb.rs
+++ b/src/encodings/nodedb.rs
@@ -395,7 +395,8 @@ pub trait NodeById: std::ops::IndexMut<NodeId, Output = Self::Node> {
 
     /// Gets the number of literals that a [`NodeCon`] transmits.
     fn con_len(&self, con: NodeCon) -> usize {
-        let len = (self[con.id].len() - con.offset()) / con.divisor();
+        // the offset is a value, not a number of outputs
+        let len = self[con.id].vals(con.offset() + 1..).count() / con.divisor();
         if let Some(limit) = con.len_limit {
             std::cmp::min(len, limit.into())
         } else {
-- 
2.43.0


From df67fcd95e9a401f917835b15c0837ac9ce4faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 086/118] fix: evaluating a totalizer with a dummy node panics

---
 src/encodings/totdb/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index 464d63c..c7b54bc 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -1434,6 +1434,7 @@ impl<'a> ValueIter<'a> {
                     }
                 });
             }
+            Node::Dummy => last.1 = Some(0),
             _ => panic!("expected last in trace to be a leaf"),
         }
         let cache = vec![usize::MAX; root.0 + 1];
@@ -1470,7 +1471,8 @@ impl Iterator for ValueIter<'_> {
         debug_assert!(last.1.is_none());
         // Ensure we have cached the value (if the node is not a leaf)
         debug_assert!(
-            self.db[popped_con.id].is_leaf() || self.cache[popped_con.id.0] == popped_val
+            matches!(self.db[popped_con.id], Node::Leaf(_) | Node::Dummy)
+                || self.cache[popped_con.id.0] == popped_val
         );
         // mark left branch as explored and storing left value
         last.1 = Some(popped_con.map(popped_val));
@@ -1520,6 +1522,7 @@ impl Iterator for ValueIter<'_> {
                     }
                 });
             }
+            Node::Dummy => last.1 = Some(0),
             _ => panic!("expected last in trace to be a leaf"),
         }
         // return popped node
-- 
2.43.0


From 8c9e6123ebbd897b7b6e14fb104ca2c9ccb7bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 087/118] fix: enforcing a trivial bound through the C-API
 reads past an empty assumption list

---
 capi/rustsat.h                    |  6 ++++--
 capi/src/encodings/card.rs        | 14 ++++++++------
 codegen/templates/capi-card.rs.j2 | 14 ++++++++------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/capi/rustsat.h b/capi/rustsat.h
index 1b3abcc..62b0a86 100644
--- a/capi/rustsat.h
+++ b/capi/rustsat.h
@@ -537,7 +537,8 @@ void tot_encode_ub(struct Totalizer *tot,
 /**
  * Returns an assumption/unit for enforcing an upper bound (`sum of lits <= ub`). Make sure that
  * [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
- * [`super::MaybeError::NotEncoded`] will be returned.
+ * [`super::MaybeError::NotEncoded`] will be returned. If the bound always holds, no assumption is needed
+ * and `assump` is set to `0`.
  *
  * # Safety
  *
@@ -577,7 +578,8 @@ void tot_encode_lb(struct Totalizer *tot,
 /**
  * Returns an assumption/unit for enforcing a lower bound (`sum of lits >= lb`). Make sure that
  * [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
- * [`super::MaybeError::NotEncoded`] will be returned.
+ * [`super::MaybeError::NotEncoded`] will be returned. If the bound always holds, no assumption is needed
+ * and `assump` is set to `0`.
  *
  * # Safety
  *
diff --git a/capi/src/encodings/card.rs b/capi/src/encodings/card.rs
index 571c63f..bddd445 100644
--- a/capi/src/encodings/card.rs
+++ b/capi/src/encodings/card.rs
@@ -98,7 +98,8 @@ pub unsafe extern "C" fn tot_encode_ub(
 
 /// Returns an assumption/unit for enforcing an upper bound (`sum of lits <= ub`). Make sure that
 /// [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
-/// [`super::MaybeError::NotEncoded`] will be returned.
+/// [`super::MaybeError::NotEncoded`] will be returned. If the bound always holds, no assumption is needed
+/// and `assump` is set to `0`.
 ///
 /// # Safety
 ///
@@ -111,8 +112,8 @@ pub unsafe extern "C" fn tot_enforce_ub(
 ) -> super::MaybeError {
     match (*tot).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -157,7 +158,8 @@ pub unsafe extern "C" fn tot_encode_lb(
 
 /// Returns an assumption/unit for enforcing a lower bound (`sum of lits >= lb`). Make sure that
 /// [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
-/// [`super::MaybeError::NotEncoded`] will be returned.
+/// [`super::MaybeError::NotEncoded`] will be returned. If the bound always holds, no assumption is needed
+/// and `assump` is set to `0`.
 ///
 /// # Safety
 ///
@@ -170,8 +172,8 @@ pub unsafe extern "C" fn tot_enforce_lb(
 ) -> super::MaybeError {
     match (*tot).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
diff --git a/codegen/templates/capi-card.rs.j2 b/codegen/templates/capi-card.rs.j2
index 1355838..7a77546 100644
--- a/codegen/templates/capi-card.rs.j2
+++ b/codegen/templates/capi-card.rs.j2
@@ -78,7 +78,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_ub(
 
 /// Returns an assumption/unit for enforcing an upper bound (`sum of lits <= ub`). Make sure that
 /// [`{{ enc.id }}_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
-/// [`super::MaybeError::NotEncoded`] will be returned.
+/// [`super::MaybeError::NotEncoded`] will be returned. If the bound always holds, no assumption is needed
+/// and `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
@@ -88,8 +89,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -129,7 +130,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_lb(
 
 /// Returns an assumption/unit for enforcing a lower bound (`sum of lits >= lb`). Make sure that
 /// [`{{ enc.id }}_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
-/// [`super::MaybeError::NotEncoded`] will be returned.
+/// [`super::MaybeError::NotEncoded`] will be returned. If the bound always holds, no assumption is needed
+/// and `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
@@ -139,8 +141,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
-- 
2.43.0


From ac0b559991f2ce64a77dffff82e04082866a1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 088/118] fix: gbmosplit loses the relaxed soft clauses when
 writing OPB

---
 tools/src/bin/gbmosplit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 717061e..042ff70 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -657,7 +657,8 @@ fn main() -> anyhow::Result<()> {
             WriteFormat::Opb => {
                 let (mut constrs, mut objs) = mo_inst.decompose();
                 for obj in &mut objs {
-                    obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    let hardened = obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    constrs.extend(hardened.into());
                 }
                 let mo_inst = MultiOptInstance::compose(constrs, objs);
                 if let Some(path) = &cli.out_path {
-- 
2.43.0


From abf6fb72508f514d5b51bc8f9270512a1525013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 089/118] fix: gbmosplit mixes messages into an instance
 written to stdout

---
 tools/src/bin/gbmosplit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 042ff70..bc8adab 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -87,7 +87,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn error(&self, err: &anyhow::Error) {
@@ -101,7 +101,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{err}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn info(&self, msg: &str) {
@@ -621,7 +621,8 @@ macro_rules! handle_error {
 fn main() -> anyhow::Result<()> {
     let cli = Cli::init();
 
-    if let Some(path) = &cli.in_path {
+    // when writing to stdout, nothing but the instance may be printed there
+    if let (Some(path), Some(_)) = (&cli.in_path, &cli.out_path) {
         cli.info(&format!("finding splits in {}", path.display()));
     }
 
-- 
2.43.0


From 12d4efb5916769bff76cea9ede40ddf301650553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 090/118] fix: OPB conversion tools ignore the first variable
 index

---
 tools/src/bin/opb2cnf.rs  | 4 ++--
 tools/src/bin/opb2mcnf.rs | 4 ++--
 tools/src/bin/opb2wcnf.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 1a33b35..2d7442b 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2mcnf.rs b/tools/src/bin/opb2mcnf.rs
index 4753f84..e35d176 100644
--- a/tools/src/bin/opb2mcnf.rs
+++ b/tools/src/bin/opb2mcnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2wcnf.rs b/tools/src/bin/opb2wcnf.rs
index fa10c64..a6c5a0f 100644
--- a/tools/src/bin/opb2wcnf.rs
+++ b/tools/src/bin/opb2wcnf.rs
@@ -14,13 +14,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = <Args as clap::Parser>::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
-- 
2.43.0


From b8facb15bfe6d9463c1de83fdada8ae8f41b0f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 091/118] fix: opb2cnf writes statistics that are no comments
 into the CNF

---
 tools/src/bin/opb2cnf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 2d7442b..f014529 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -32,9 +32,9 @@ fn main() -> anyhow::Result<()> {
             .context("error parsing input")?
     };
 
-    println!("{} clauses", inst.n_clauses());
-    println!("{} cards", inst.n_cards());
-    println!("{} pbs", inst.n_pbs());
+    println!("c {} clauses", inst.n_clauses());
+    println!("c {} cards", inst.n_cards());
+    println!("c {} pbs", inst.n_pbs());
 
     inst.convert_to_cnf();
 
-- 
2.43.0


From 7b9c13878d46b1853229537435f4e2daca270446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 092/118] fix: shuffledimacs treats xz-compressed WCNF and MCNF
 files as CNF

---
 tools/src/bin/shuffledimacs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/bin/shuffledimacs.rs b/tools/src/bin/shuffledimacs.rs
index ea6c406..8ec2570 100644
--- a/tools/src/bin/shuffledimacs.rs
+++ b/tools/src/bin/shuffledimacs.rs
@@ -73,7 +73,7 @@ macro_rules! is_one_of {
 fn determine_file_type(in_path: &std::path::Path) -> FileType {
     if let Some(ext) = in_path.extension() {
         let path_without_compr = in_path.with_extension("");
-        let ext = if is_one_of!(ext, "gz", "bz2") {
+        let ext = if is_one_of!(ext, "gz", "bz2", "xz") {
             // Strip compression extension
             match path_without_compr.extension() {
                 Some(ext) => ext,
-- 
2.43.0


From 163ef58b614b7856ed8ebd8cbc54ee664c2dd0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 093/118] fix: enumerator lists a solution when asked for none

---
 tools/src/bin/enumerator.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tools/src/bin/enumerator.rs b/tools/src/bin/enumerator.rs
index 4324575..562c8a6 100644
--- a/tools/src/bin/enumerator.rs
+++ b/tools/src/bin/enumerator.rs
@@ -203,7 +203,7 @@ fn main() -> anyhow::Result<()> {
 
     let enumerator = Enumerator { solver, max_var };
 
-    for (cnt, sol) in enumerator.enumerate() {
+    for sol in enumerator.take(args.enumerate_until.unwrap_or(usize::MAX)) {
         if !args.no_objective_values && !objs.is_empty() {
             print!("o");
             for obj in &objs {
@@ -212,9 +212,6 @@ fn main() -> anyhow::Result<()> {
             println!();
         }
         println!("v {sol}");
-        if args.enumerate_until.is_some_and(|max| cnt + 1 >= max) {
-            break;
-        }
     }
     Ok(())
 }
-- 
2.43.0


From 878cea7e60ebfea480c412326d5b2f73b98d6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 094/118] fix: mo2ilp announces a wrong number of non-zero
 coefficients

---
 tools/src/bin/mo2ilp.rs | 47 +++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/tools/src/bin/mo2ilp.rs b/tools/src/bin/mo2ilp.rs
index bca7937..8d4a614 100644
--- a/tools/src/bin/mo2ilp.rs
+++ b/tools/src/bin/mo2ilp.rs
@@ -198,12 +198,19 @@ fn write_instance<W: std::io::Write>(
     // add aux variable unit for objective offset
     pbs.push(PbConstraint::new_lb([(vm.new_lit(), 1)], 1));
 
+    let objs: Vec<_> = objs
+        .into_iter()
+        .map(|obj| objective_coefs(obj, vm.n_used()))
+        .collect();
+    let pbs: Vec<_> = pbs
+        .into_iter()
+        .map(|constr| constraint_coefs(constr, vm.n_used()))
+        .collect();
+
     // compute non-zeroes
-    let non_zero_constrs: usize = pbs.iter().map(PbConstraint::len).sum();
-    let non_zero_objs: usize = objs
-        .iter()
-        .map(rustsat::instances::Objective::n_softs)
-        .sum();
+    let non_zeroes = |coefs: &[isize]| coefs.iter().filter(|coef| **coef != 0).count();
+    let non_zero_constrs: usize = pbs.iter().map(|(coefs, ..)| non_zeroes(coefs)).sum();
+    let non_zero_objs: usize = objs.iter().map(|coefs| non_zeroes(coefs)).sum();
 
     match format {
         OutputFormat::Bauss => {
@@ -230,20 +237,19 @@ fn write_instance<W: std::io::Write>(
     }
 
     // cost matrix
-    for obj in objs {
-        write_objective(obj, vm.n_used(), writer)?;
+    for coefs in &objs {
+        writeln!(writer, "{}", coefs.iter().format(" "))?;
     }
     writeln!(writer)?;
 
     // constraint matrix
-    let bounds = pbs
-        .into_iter()
-        .map(|c| write_constraint(c, vm.n_used(), writer))
-        .collect::<std::io::Result<Vec<_>>>()?;
+    for (coefs, ..) in &pbs {
+        writeln!(writer, "{}", coefs.iter().format(" "))?;
+    }
     writeln!(writer)?;
 
     // rhs
-    for (op, bound) in bounds {
+    for (_, op, bound) in &pbs {
         writeln!(writer, "{op} {bound}")?;
     }
 
@@ -256,11 +262,7 @@ fn write_instance<W: std::io::Write>(
     Ok(())
 }
 
-fn write_objective<W: std::io::Write>(
-    obj: rustsat::instances::Objective,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<()> {
+fn objective_coefs(obj: rustsat::instances::Objective, n_vars: u32) -> Vec<isize> {
     let mut coefs = vec![0; n_vars as usize];
     for (lit, coef) in obj.iter_soft_lits().unwrap() {
         let mut coef =
@@ -272,14 +274,10 @@ fn write_objective<W: std::io::Write>(
         coefs[lit.var().idx()] += coef;
     }
     *coefs.last_mut().unwrap() += obj.offset();
-    writeln!(writer, "{}", coefs.into_iter().format(" "))
+    coefs
 }
 
-fn write_constraint<W: std::io::Write>(
-    constr: PbConstraint,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<(Operator, isize)> {
+fn constraint_coefs(constr: PbConstraint, n_vars: u32) -> (Vec<isize>, Operator, isize) {
     let mut coefs = vec![0; n_vars as usize];
     let (lits, op, mut bound) = match constr {
         PbConstraint::Ub(constr) => {
@@ -304,8 +302,7 @@ fn write_constraint<W: std::io::Write>(
         }
         coefs[lit.var().idx()] += coef;
     }
-    writeln!(writer, "{}", coefs.into_iter().format(" "))?;
-    Ok((op, bound))
+    (coefs, op, bound)
 }
 
 #[derive(Clone, Copy)]
-- 
2.43.0


From 0a0c4baf2b12426c18dcc73412d4f55d6faa9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 095/118] fix: single-objective flag of the clustering
 generator is ignored

---
 tools/src/bin/encodings.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/src/bin/encodings.rs b/tools/src/bin/encodings.rs
index 1877de1..17cca87 100644
--- a/tools/src/bin/encodings.rs
+++ b/tools/src/bin/encodings.rs
@@ -335,8 +335,12 @@ fn main() -> anyhow::Result<()> {
     let out_path = args.out_path;
     match args.fmt {
         Format::Cnf(args) => {
+            let mut single_objective = args.single_objective;
             let enc: BoxedDimacsIter = match args.enc {
-                CnfEncoding::Clustering(args) => Box::new(clustering(args)?),
+                CnfEncoding::Clustering(args) => {
+                    single_objective |= args.single_objective;
+                    Box::new(clustering(args)?)
+                }
                 CnfEncoding::Knapsack(args) => {
                     let inst = match args.variant {
                         KnapsackCommand::Input(args) => input_knapsack(&args)?,
@@ -345,7 +349,7 @@ fn main() -> anyhow::Result<()> {
                     Box::new(cnf_knapsack(inst))
                 }
             };
-            write_cnf(enc, out_path, args.single_objective)
+            write_cnf(enc, out_path, single_objective)
         }
         Format::Pb(args) => {
             let opts = fio::opb::Options {
-- 
2.43.0


From 8a3305088ead841ff42dc3287fa9bbe5f3a1d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 096/118] fix: capacity and constraint count of vOptLib
 knapsack files are not read

---
 tools/src/encodings/knapsack.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index 62bfc4f..bd58a3e 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -268,12 +268,18 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
-        single_value(dec_uint::<_, u32, ContextError>, "#")
+        let line = next_non_comment_line!(reader, line_num)
+            .context("file ended before number of constraints line")?;
+        let n_constrs = single_value(dec_uint::<_, u32, ContextError>, "#")
             .context(StrContext::Expected(StrContextValue::Description(
                 "number of constraints",
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            n_constrs == 1,
+            "only knapsack instances with a single constraint are supported"
+        );
         let mut inst = super::Knapsack {
             items: vec![
                 super::ItemData {
@@ -307,6 +313,14 @@ mod parsing {
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
             inst.items[item_idx].weight = weight;
         }
+        let line =
+            next_non_comment_line!(reader, line_num).context("file ended before capacity line")?;
+        inst.capacity = single_value(dec_uint::<_, usize, ContextError>, "#")
+            .context(StrContext::Expected(StrContextValue::Description(
+                "capacity",
+            )))
+            .parse(&line)
+            .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
         Ok(inst)
     }
 
-- 
2.43.0


From 97bc08c56364a3d45fc0a443021755873f24f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 097/118] fix: assignment parser hangs on spaces between
 brackets and accepts wrong numbers of tasks

---
 tools/src/encodings/assignment.rs | 71 +++++++++++++++++--------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index 79aad3a..2329602 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -90,42 +90,17 @@ mod parsing {
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
         let mut inst = super::Assignment::empty(n_tasks, n_objs);
         let mut buf = String::new();
+        // how many lists are open, and whether the innermost one expects an element next
         let mut depth = 0;
+        let mut expect_elem = true;
         let mut obj_idx = 0;
         let mut task_idx = 0;
         while reader.read_line(&mut buf)? > 0 {
             line_num += 1;
             let mut remain = buf.trim_start();
-            loop {
-                if remain.starts_with('[') && depth < 2 {
-                    depth += 1;
-                    remain = &remain[1..];
-                }
-                if remain.starts_with(']') {
-                    depth -= 1;
-                    if depth == 1 {
-                        task_idx = 0;
-                    }
-                    remain = &remain[1..];
-                }
-                if remain.starts_with(',') {
-                    match depth {
-                        1 => {
-                            obj_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many objectives");
-                        }
-                        2 => {
-                            task_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many tasks");
-                        }
-                        _ => unreachable!(),
-                    };
-                    remain = &remain[1..];
-                }
-                if remain.starts_with('#') || remain.trim().is_empty() {
-                    break;
-                }
-                if depth == 2 {
+            while !remain.is_empty() && !remain.starts_with('#') {
+                if remain.starts_with('[') && depth == 2 && expect_elem {
+                    anyhow::ensure!(task_idx < n_tasks, "too many tasks");
                     let mut agent_idx = 0;
                     remain = (
                         ListCallbackParser::new(
@@ -157,13 +132,45 @@ mod parsing {
                                 line_num,
                             )
                         })?
-                        .1;
+                        .1
+                        .trim_start();
+                    anyhow::ensure!(
+                        agent_idx == n_tasks,
+                        "number of agents does not match up in line {line_num}"
+                    );
+                    expect_elem = false;
+                    continue;
+                }
+                if remain.starts_with('[') && depth < 2 && expect_elem {
+                    anyhow::ensure!(obj_idx < n_objs, "too many objectives");
+                    depth += 1;
+                } else if remain.starts_with(']') && depth > 0 && !expect_elem {
+                    depth -= 1;
+                    if depth == 1 {
+                        anyhow::ensure!(
+                            task_idx + 1 == n_tasks,
+                            "number of tasks does not match up"
+                        );
+                        task_idx = 0;
+                    }
+                } else if remain.starts_with(',') && depth > 0 && !expect_elem {
+                    match depth {
+                        1 => obj_idx += 1,
+                        _ => task_idx += 1,
+                    }
+                    expect_elem = true;
+                } else {
+                    anyhow::bail!(
+                        "unexpected content in line {line_num}: {}",
+                        remain.trim_end()
+                    );
                 }
+                remain = remain[1..].trim_start();
             }
             buf.clear();
         }
         anyhow::ensure!(
-            obj_idx + 1 == n_objs,
+            depth == 0 && !expect_elem && obj_idx + 1 == n_objs,
             "number of objectives does not match up"
         );
         Ok(inst)
-- 
2.43.0


From 230aee77d2bb812830f989e1e917fe3a8c0a0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 098/118] fix: clustering parser silently drops malformed lines

---
 tools/src/encodings/cnf/clustering.rs | 35 ++++++++++++++++++---------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/tools/src/encodings/cnf/clustering.rs b/tools/src/encodings/cnf/clustering.rs
index 651c636..b5f9ac8 100644
--- a/tools/src/encodings/cnf/clustering.rs
+++ b/tools/src/encodings/cnf/clustering.rs
@@ -139,9 +139,12 @@ impl Encoding {
         let mut next_idx: u32 = 0;
         let process_line =
             |(line_num, line): (usize, Result<String, std::io::Error>)| -> Option<anyhow::Result<(String, String, f64)>> {
-                let full_line = line.ok()?;
-                let line = full_line.trim_start();
-                if line.starts_with('%') {
+                let full_line = match line {
+                    Ok(line) => line,
+                    Err(err) => return Some(Err(err.into())),
+                };
+                let line = full_line.trim();
+                if line.starts_with('%') || line.is_empty() {
                     return None;
                 }
                 let tup = winnow::Parser::<_, _, ContextError>::parse(
@@ -154,8 +157,14 @@ impl Encoding {
                     },
                     line,
                 )
-                .map_err(|e| ParsingError::from_parse(&e, &full_line, 0, line_num+1))
-                .ok()?;
+                .map_err(|e| {
+                    let offset = utils::substr_offset(&full_line, line).unwrap_or(0);
+                    ParsingError::from_parse(&e, &full_line, offset, line_num + 1)
+                });
+                let tup = match tup {
+                    Ok(tup) => tup,
+                    Err(err) => return Some(Err(err.into())),
+                };
                 if !ident_map.contains_key(&tup.0) {
                     ident_map.insert(tup.0.clone(), next_idx);
                     next_idx += 1;
@@ -174,7 +183,9 @@ impl Encoding {
         let n = ident_map.len() as u32;
 
         let mut similarities = Vec::new();
-        similarities.resize(Self::sim_idx(n - 2, n - 1, n) + 1, Similarity::DontCare);
+        if n >= 2 {
+            similarities.resize(Self::sim_idx(n - 2, n - 1, n) + 1, Similarity::DontCare);
+        }
         for (ident1, ident2, sim) in pairwise {
             let mut idx1 = *ident_map.get(&ident1).unwrap();
             let mut idx2 = *ident_map.get(&ident2).unwrap();
@@ -227,7 +238,7 @@ impl Iterator for Encoding {
         loop {
             match self.next_clause {
                 Clause::Eq(idx1, idx2, k, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::Same(0, 1, 0);
                         continue;
                     }
@@ -264,7 +275,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::Same(idx1, idx2, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::MustLink(0, 1, 0);
                         continue;
                     }
@@ -301,7 +312,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::MustLink(idx1, idx2, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::CannotLink(0, 1);
                         continue;
                     }
@@ -331,7 +342,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::CannotLink(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::Similar(0, 1);
                         continue;
                     }
@@ -355,7 +366,7 @@ impl Iterator for Encoding {
                     ));
                 }
                 Clause::Similar(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::DisSimilar(0, 1);
                         continue;
                     }
@@ -378,7 +389,7 @@ impl Iterator for Encoding {
                     }
                 }
                 Clause::DisSimilar(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         return None;
                     }
                     if idx2 >= self.n {
-- 
2.43.0


From 1dca2fcf76037491754b88ca239f9e0055d39ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 099/118] fix: knapsack and facility location parsers accept
 rows of the wrong length

---
 tools/src/encodings/facilitylocation.rs | 14 +++++++++++---
 tools/src/encodings/knapsack.rs         |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/tools/src/encodings/facilitylocation.rs b/tools/src/encodings/facilitylocation.rs
index ae42f07..c74684b 100644
--- a/tools/src/encodings/facilitylocation.rs
+++ b/tools/src/encodings/facilitylocation.rs
@@ -105,9 +105,9 @@ mod parsing {
             n_facilities: n_services,
             ..super::FacilityLocation::default()
         };
-        for _ in 0..2 {
+        for obj_idx in 0..2 {
             next_line!(reader, line_num).context("file ended early")?;
-            for _ in 0..n_users {
+            for user_idx in 0..n_users {
                 let line =
                     next_line!(reader, line_num).context("file ended in the middle of c matrix")?;
                 SeparatedCallbackParser::new(
@@ -122,10 +122,14 @@ mod parsing {
                 )))
                 .parse(line.trim_end())
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+                anyhow::ensure!(
+                    prob.supply_cost.len() == (obj_idx * n_users + user_idx + 1) * n_services,
+                    "number of values in line {line_num} does not match number of services"
+                );
             }
         }
 
-        for _ in 0..2 {
+        for obj_idx in 0..2 {
             next_line!(reader, line_num).context("file ended early")?;
             let line = next_line!(reader, line_num).context("file ended early")?;
             SeparatedCallbackParser::new(
@@ -140,6 +144,10 @@ mod parsing {
             )))
             .parse(line.trim_end())
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+            anyhow::ensure!(
+                prob.opening_cost.len() == (obj_idx + 1) * n_services,
+                "number of values in line {line_num} does not match number of services"
+            );
         }
 
         Ok(prob)
diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index bd58a3e..f96f731 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -241,6 +241,10 @@ mod parsing {
                 line_num,
             )
         })?;
+        anyhow::ensure!(
+            item_idx == n_items,
+            "number of weights does not match number of items"
+        );
         for item in &inst.items {
             anyhow::ensure!(
                 item.values.len() == n_obj,
-- 
2.43.0


From 53b07e5fa4420081146f9c1edb14f5f2b0cd00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 100/118] fix: zero watchdog precision divides by zero

---
 src/encodings/pb/dpw/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 27f9d4f..2ca42ce 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -139,7 +139,7 @@ impl DynamicPolyWatchdog {
         if self.structure.is_some() && divisor > std::cmp::max(self.prec_div, 1) {
             return Err(PrecisionError::PrecisionDecreased);
         }
-        self.prec_div = divisor;
+        self.prec_div = std::cmp::max(divisor, 1);
         Ok(())
     }
 
@@ -540,7 +540,8 @@ fn build_structure(
     var_manager: &mut dyn ManageVars,
 ) -> Structure {
     // prec_div has to be a power of 2
-    debug_assert!(prec_div <= 1 || prec_div.is_power_of_two());
+    let prec_div = std::cmp::max(prec_div, 1);
+    debug_assert!(prec_div.is_power_of_two());
     let skipped_levels = crate::utils::digits(prec_div, 2) as usize - 1;
 
     let basis_len = crate::utils::digits(*weight_queue.iter().next_back().unwrap().0, 2) as usize;
-- 
2.43.0


From 246b214ca9e4af28a5a73e6add3bbeece098e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 101/118] fix: certified generalized totalizer constraint
 encoding mistakes buffered literals and root weights

---
 src/encodings/pb/gte/mod.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index b6553ea..6aa2739 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -441,15 +441,13 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         use crate::encodings::pb::BoundUpper;
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, mut id) = constr;
         let (lits, ub) = constr.decompose();
         if ub < 0 {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
         let ub = ub.unsigned_abs();
-        if ub > lits.iter().fold(0, |sum, (_, w)| sum + *w) {
+        if ub >= lits.iter().fold(0, |sum, (_, w)| sum + *w) {
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
@@ -459,13 +457,9 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             .enforce_ub(ub)
             .expect("should have caught special case before here")
         {
-            let (olit, sem_defs) = enc
-                .output_proof_details(val)
-                .expect("encoded just before, so should be fine");
             let unit_cl = crate::clause![unit];
-            let unit_id = if unit.var() < olit.var() {
+            let unit_id = if let Some(&weight) = enc.lit_buffer.get(&!unit) {
                 // input literal with weight larger than bound
-                let weight = *enc.lit_buffer.get(&!unit).unwrap();
                 let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
                 // simplify main constraint
                 #[cfg(feature = "verbose-proofs")]
@@ -479,10 +473,17 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             } else {
                 // output literal
                 // NOTE: by the time we're here, all buffered literals have been removed from `id`
+                let (olit, sem_defs) = enc
+                    .output_proof_details(val)
+                    .expect("encoded just before, so should be fine");
                 debug_assert_eq!(!unit, olit);
+                // the definition is over the values of the node, while the constraint is over the
+                // values of the root connection
+                let multiplier = enc.root.map_or(1, |con| con.multiplier());
                 let unit_id = proof.operations(
-                    &((pigeons::OperationSequence::<Var>::from(id)
-                        + sem_defs.only_if_def.unwrap())
+                    &((pigeons::OperationSequence::<Var>::from(sem_defs.only_if_def.unwrap())
+                        * multiplier
+                        + id)
                         / val),
                 )?;
                 #[cfg(feature = "verbose-proofs")]
-- 
2.43.0


From 9158d51b3d351a651236ab47727edf22fa068380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 102/118] fix: proof hints of certified pseudo-Boolean
 constraint encodings

---
 src/encodings/pb/cert.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index 0910510..f6d0133 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -5,6 +5,7 @@ use crate::encodings::cert::CollectClauses;
 use crate::encodings::cert::ConstraintEncodingError;
 use crate::encodings::cert::EncodingError;
 use crate::instances::ManageVars;
+use crate::types::constraints::CardConstraint;
 use crate::types::constraints::PbConstraint;
 use crate::types::constraints::PbToCardError;
 use crate::types::Lit;
@@ -354,7 +355,12 @@ pub fn encode_pb_constraint<
     }
     if constr.is_unsat() {
         let empty = crate::clause![];
-        let unsat_id = proof.reverse_unit_prop(&empty, [id.into()])?;
+        let unsat_id = if matches!(constr, PbConstraint::Eq(_)) {
+            // either of the two inequalities might be the unsatisfiable one
+            proof.reverse_unit_prop(&empty, [id.into(), (id + 1).into()])?
+        } else {
+            proof.reverse_unit_prop(&empty, [id.into()])?
+        };
         collector.add_cert_clause(empty, unsat_id)?;
         return Ok(());
     }
@@ -403,6 +409,18 @@ pub fn encode_pb_constraint<
             Err(PbToCardError::Tautology) => return Ok(()),
             Err(PbToCardError::NotACard) => unreachable!(),
         };
+        if unit_weight > 1 {
+            // the encoding of the cardinality constraint needs to refer to the divided constraint
+            let card_id = proof.operations::<crate::types::Var>(
+                &(pigeons::OperationSequence::from(id) / unit_weight),
+            )?;
+            if matches!(card, CardConstraint::Eq(_)) {
+                proof.operations::<crate::types::Var>(
+                    &(pigeons::OperationSequence::from(id + 1) / unit_weight),
+                )?;
+            }
+            id = card_id;
+        }
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
             collector,
-- 
2.43.0


From 4bc886f4932e94465343001858ab6ff540497420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 103/118] fix: certified totalizer constraint encoding of
 trivial bounds lacks proof identifiers

---
 src/encodings/card/totalizer/mod.rs | 57 ++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 2e95768..32dbf2f 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -399,6 +399,24 @@ impl Extend<Lit> for Totalizer {
     }
 }
 
+/// Certifies a constraint that is equivalent to a single unit clause
+#[cfg(feature = "proof-logging")]
+fn unit_constr_cert<Col, W>(
+    unit: Lit,
+    id: pigeons::AbsConstraintId,
+    collector: &mut Col,
+    proof: &mut pigeons::Proof<W>,
+) -> Result<(), crate::encodings::cert::EncodingError>
+where
+    Col: crate::encodings::cert::CollectClauses,
+    W: std::io::Write,
+{
+    let unit = crate::clause![unit];
+    let unit_id = proof.reverse_unit_prop(&unit, [id.into()])?;
+    collector.add_cert_clause(unit, unit_id)?;
+    Ok(())
+}
+
 #[cfg(feature = "proof-logging")]
 impl super::cert::BoundUpper for Totalizer {
     fn encode_ub_cert<Col, R, W>(
@@ -437,13 +455,15 @@ impl super::cert::BoundUpper for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, ub) = constr.decompose();
-        if ub > lits.len() {
+        if ub >= lits.len() {
             return Ok(());
         }
+        if let [lit] = lits[..] {
+            // no structure is built for a single literal
+            return unit_constr_cert(!lit, id, collector, proof);
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
         let (olit, sem_defs) = enc
@@ -542,13 +562,18 @@ impl super::cert::BoundLower for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, lb) = constr.decompose();
         if lb > lits.len() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if lb == 0 {
+            return Ok(());
+        }
+        if let [lit] = lits[..] {
+            // no structure is built for a single literal
+            return Ok(unit_constr_cert(lit, id, collector, proof)?);
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_lb_cert(lb..=lb, collector, var_manager, proof)?;
         let (olit, sem_defs) = enc
@@ -650,13 +675,27 @@ impl super::cert::BoundBoth for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
-        let (lits, b) = constr.decompose();
-        if b > lits.len() {
+        if constr.is_unsat() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if constr.is_positive_assignment() || constr.is_negative_assignment() {
+            // only one of the two bounds is not trivially satisfied
+            let (lb_c, ub_c) = constr.split();
+            <Self as super::cert::BoundUpper>::encode_ub_constr_cert(
+                (ub_c, id + 1),
+                collector,
+                var_manager,
+                proof,
+            )?;
+            return <Self as super::cert::BoundLower>::encode_lb_constr_cert(
+                (lb_c, id),
+                collector,
+                var_manager,
+                proof,
+            );
+        }
+        let (lits, b) = constr.decompose();
         let mut enc = Self::from_iter(lits);
         enc.encode_both_cert(b..=b, collector, var_manager, proof)?;
         // UB
-- 
2.43.0


From d8aada71ef5079b984ad058218bfaeda3cae0a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 104/118] fix: certified inverted pseudo-Boolean encodings
 prepare the range of lower bounds as upper bounds

---
 src/encodings/pb/simulators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index e46f0ee..1a88b88 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -272,7 +272,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -443,7 +443,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_change_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
-- 
2.43.0


From 10187589bb620d4df423f72f71ce04cb4f0ca9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 105/118] fix: certified simulated constraint encodings panic
 on unsatisfiable constraints

---
 src/encodings/card/simulators.rs | 3 +++
 src/encodings/pb/simulators.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index 3a06363..f72c1a1 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -286,6 +286,9 @@ where
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
+        if constr.0.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = (constr.0.invert(), constr.1);
         CE::encode_ub_constr_cert(constr, collector, var_manager, proof)?;
         Ok(())
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 1a88b88..af279af 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -1032,6 +1032,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_ub_constr_cert((constr, id), collector, var_manager, proof)?;
         Ok(())
-- 
2.43.0


From e642cbcbd162a4f16108448cf54902f14a67dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 106/118] fix: deleting semantics of a totalizer without any
 from a proof writes an invalid rule

---
 src/encodings/totdb/cert.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 748b526..9d17faf 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -395,6 +395,9 @@ impl super::Db {
     where
         W: std::io::Write,
     {
+        if self.semantic_defs.is_empty() {
+            return Ok(());
+        }
         let iter = self
             .semantic_defs
             .values()
-- 
2.43.0


From 168d82313bd50aa8425ee65198bdbaca203625aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 107/118] fix: proof definitions of totalizer connections with
 trivial length limit or single output

---
 src/encodings/totdb/cert.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 9d17faf..95028ee 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -52,9 +52,10 @@ impl super::Db {
         debug_assert!(value <= self[id].max_val() + 1);
         debug_assert!(offset <= self[id].max_val());
 
-        // If the limit is trivial, remove it
+        // If the limit is trivial, remove it. Without an offset, the limit needs to stay, since the
+        // leaves of a limited connection are the outputs of the node
         if let Some(limit) = len_limit {
-            if limit.get() + offset >= self[id].max_val() {
+            if offset > 0 && limit.get() + offset >= self[id].max_val() {
                 len_limit = None;
             }
         }
@@ -280,7 +281,21 @@ impl super::Db {
                 last_val = sub_val;
             }
             let if_def = proof.operations::<Var>(&if_def)?;
-            let only_if_def = proof.operations::<Var>(&only_if_def)?;
+            let only_if_def = if only_if_def.is_empty() {
+                // a single output, for which this direction is trivial
+                let sum = PbConstraint::new_lb_unsigned(
+                    leaves.clone(),
+                    isize::try_from(main_val - offset)
+                        .expect("cannot handle values larger than `isize::MAX`"),
+                );
+                proof.redundant::<Var, _, _, _>(
+                    &crate::encodings::atomics::lit_impl_pb(self[id][main_val], &sum),
+                    [],
+                    [],
+                )?
+            } else {
+                proof.operations::<Var>(&only_if_def)?
+            };
             #[cfg(feature = "verbose-proofs")]
             {
                 let sum = PbConstraint::new_lb_unsigned(
-- 
2.43.0


From 5693760e73d75bbe9987501b310e2d3929dea2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 108/118] fix: pseudo leaves of totalizer connections are used
 in proof definitions before they are reserved and defined

---
 src/encodings/totdb/cert.rs | 61 ++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 95028ee..cc5499b 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -494,7 +494,12 @@ impl super::Db {
                     {
                         if semantics.has_if() {
                             if leaves_needed && !leaves_init {
-                                self.populate_weighted_leaves(NodeCon::full(id), leaves);
+                                self.populate_weighted_leaves(
+                                    NodeCon::full(id),
+                                    leaves,
+                                    var_manager,
+                                    proof,
+                                )?;
                                 leaves_init = true;
                             }
                             return Ok(Some((lit, leaves_init)));
@@ -648,7 +653,7 @@ impl super::Db {
                         if !right_leaves_populated {
                             // We have not recursed down the right branch yet and therefore need to
                             // manually populate the right half of the leaf vector
-                            self.populate_weighted_leaves(rcon, right_leaves);
+                            self.populate_weighted_leaves(rcon, right_leaves, var_manager, proof)?;
                             right_leaves_populated = true;
                         }
                         let left_def = self.define_semantics(
@@ -710,7 +715,7 @@ impl super::Db {
                         if !left_leaves_populated {
                             // We have not recursed down the left branch yet and therefore need to
                             // manually populate the left half of the leaf vector
-                            self.populate_weighted_leaves(lcon, left_leaves);
+                            self.populate_weighted_leaves(lcon, left_leaves, var_manager, proof)?;
                             left_leaves_populated = true;
                         }
                         let left_def = self.define_semantics(
@@ -826,13 +831,57 @@ impl super::Db {
                 (&mut true_leaves, false, false),
             )?;
             if !leaves_init {
-                self.populate_weighted_leaves(con, leaves);
+                self.populate_weighted_leaves(con, leaves, var_manager, proof)?;
             }
             Ok(ret.map(|(l, _)| l))
         }
     }
 
-    fn populate_weighted_leaves(&self, con: NodeCon, leaves: &mut [(Lit, usize)]) {
+    /// Reserves all output literals that the proof refers to as (pseudo) leaves at or below a
+    /// connection, and ensures that their semantics are defined before they are used in any other
+    /// definition
+    fn prepare_pseudo_leaves<W>(
+        &mut self,
+        con: NodeCon,
+        var_manager: &mut dyn ManageVars,
+        proof: &mut pigeons::Proof<W>,
+    ) -> std::io::Result<()>
+    where
+        W: std::io::Write,
+    {
+        let (Some(left), Some(right)) = (self[con.id].left(), self[con.id].right()) else {
+            return Ok(());
+        };
+        self.prepare_pseudo_leaves(left, var_manager, proof)?;
+        self.prepare_pseudo_leaves(right, var_manager, proof)?;
+        if con.offset() == 0 && con.len_limit.is_none() {
+            return Ok(());
+        }
+        let vals: Vec<_> = self[con.id]
+            .vals(con.offset() + 1..)
+            .take(con.len_limit.map_or(usize::MAX, NonZeroUsize::get))
+            .collect();
+        let leaves: Vec<_> = self.leaf_iter(con.id).lits().collect();
+        for val in vals {
+            self[con.id].reserve_vars(val..=val, var_manager);
+            if self.get_semantics(con.id, 0, val).is_none() {
+                self.define_real_semantics(con.id, val, leaves.iter().copied(), proof)?;
+            }
+        }
+        Ok(())
+    }
+
+    fn populate_weighted_leaves<W>(
+        &mut self,
+        con: NodeCon,
+        leaves: &mut [(Lit, usize)],
+        var_manager: &mut dyn ManageVars,
+        proof: &mut pigeons::Proof<W>,
+    ) -> std::io::Result<()>
+    where
+        W: std::io::Write,
+    {
+        self.prepare_pseudo_leaves(con, var_manager, proof)?;
         if con.offset() == 0 && con.len_limit.is_none() {
             for (idx, leaf) in self.leaf_iter(con.id).lits().enumerate() {
                 leaves[idx] = leaf;
@@ -848,6 +897,7 @@ impl super::Db {
                 last_val = val;
             }
         }
+        Ok(())
     }
 
     /// Recursion for unweighted totalizer encoding with certificate
@@ -987,6 +1037,7 @@ impl super::Db {
                 )?;
             }
             if !leaves_init {
+                self.prepare_pseudo_leaves(con, var_manager, proof)?;
                 for (idx, leaf) in leaves.iter_mut().enumerate() {
                     *leaf = self[con.id][idx + con.offset() + 1];
                 }
-- 
2.43.0


From 42b794a7efd9bc751694855582959d64783ef183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 109/118] fix: proof objectives lose their offset

---
 pigeons/src/types.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/types.rs b/pigeons/src/types.rs
index 0d38217..4abded2 100644
--- a/pigeons/src/types.rs
+++ b/pigeons/src/types.rs
@@ -902,7 +902,12 @@ impl<V: VarLike, O: ObjectiveLike<V>> std::fmt::Display for ObjFormatter<'_, V,
             self.obj
                 .sum_iter()
                 .format_with(" ", |(cf, ax), f| f(&format_args!("{cf} {ax}")))
-        )
+        )?;
+        let offset = self.obj.offset();
+        if offset != 0 {
+            write!(f, " {offset}")?;
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 46122308d06d61278fddcb2ec8ceb5a0a69ea8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 110/118] fix: proof objective update does not account for the
 constraint identifiers of its subproof

---
 pigeons/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/lib.rs b/pigeons/src/lib.rs
index f986fb5..d3f2b84 100644
--- a/pigeons/src/lib.rs
+++ b/pigeons/src/lib.rs
@@ -508,7 +508,15 @@ where
         C: ConstraintLike<V>,
     {
         assert!(matches!(self.problem_type, ProblemType::Optimization));
-        writeln!(self.writer, "obju {update}")
+        writeln!(self.writer, "obju {update}")?;
+        if let ObjectiveUpdate::New(_, subproof, _) = update {
+            // negated proof goal + 1 for each derivation
+            self.next_id += subproof
+                .iter()
+                .map(|goal| 1 + goal.n_derivations())
+                .sum::<usize>();
+        }
+        Ok(())
     }
 
     /// Adds a set of substitutions
-- 
2.43.0


From f5632ff125ab2279990fbe50825c629b1bdc297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 111/118] fix: keep a proof tracer alive when disconnecting it
 from the wrong CaDiCaL solver

Disconnecting with a handle of another solver reported an error but freed the
tracer that is still connected to (and used by) that other solver.
---
 cadical/cpp-extension/ctracer.cpp | 5 ++++-
 cadical/src/prooftracer.rs        | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cadical/cpp-extension/ctracer.cpp b/cadical/cpp-extension/ctracer.cpp
index 0dc8c04..ded30ee 100644
--- a/cadical/cpp-extension/ctracer.cpp
+++ b/cadical/cpp-extension/ctracer.cpp
@@ -149,7 +149,10 @@ bool ccadical_disconnect_proof_tracer(CCaDiCaL *wrapper,
                                       CCaDiCaLTracer *tracer) {
   bool ret =
       ((Wrapper *)wrapper)->solver->disconnect_proof_tracer((Tracer *)tracer);
-  delete (CaDiCaL::CTracer *)tracer;
+  // If the tracer is connected to another solver, that solver is still using
+  // it
+  if (ret)
+    delete (CaDiCaL::CTracer *)tracer;
   return ret;
 }
 }
diff --git a/cadical/src/prooftracer.rs b/cadical/src/prooftracer.rs
index eb8bbcd..d626b1f 100644
--- a/cadical/src/prooftracer.rs
+++ b/cadical/src/prooftracer.rs
@@ -199,6 +199,9 @@ impl super::CaDiCaL<'_, '_> {
         PT: TraceProof + 'static,
     {
         if !unsafe { crate::ffi::ccadical_disconnect_proof_tracer(self.handle, handle.c_class) } {
+            // The tracer might still be connected to (and in use by) another solver and must
+            // therefore not be dropped
+            std::mem::forget(handle);
             return Err(ProofTracerNotConnected);
         }
         let trait_ptr = unsafe { Box::from_raw(handle.trait_ptr) };
-- 
2.43.0


From ba2f5214bdedbec4de3d2c677ee02978921db528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 112/118] fix: do not swap checked and unchecked deletion for
 VeriPB proofs of CaDiCaL

CaDiCaL writes checked deletions for even values of its `veripb` option.
---
 cadical/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index b0cbb73..7164c41 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -611,7 +611,7 @@ impl CaDiCaL<'_, '_> {
             } => {
                 self.set_option(
                     "veripb",
-                    1 + c_int::from(!checked_deletion) + 2 * c_int::from(drat),
+                    1 + c_int::from(checked_deletion) + 2 * c_int::from(drat),
                 )
                 .expect("we know this option exists");
                 false
-- 
2.43.0


From a3065f7af0d8b396cb52692d51851768023dd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:12 +0000
Subject: [PATCH 113/118] fix: read all members of compressed files

bzip2, gzip and xz files may consist of several concatenated members; the
single-member decoders stopped silently after the first one, so that the
remainder of such a file was ignored.
---
 src/instances/fio/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index 14baa2a..bd23712 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -160,17 +160,17 @@ pub fn open_compressed_uncompressed_read<P: AsRef<std::path::Path>>(
     if let Some(ext) = path.extension() {
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("bz2")) {
             return Ok(Box::new(std::io::BufReader::new(
-                bzip2::read::BzDecoder::new(raw_reader),
+                bzip2::read::MultiBzDecoder::new(raw_reader),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("gz")) {
             return Ok(Box::new(std::io::BufReader::new(
-                flate2::read::GzDecoder::new(raw_reader),
+                flate2::read::MultiGzDecoder::new(raw_reader),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("xz")) {
             return Ok(Box::new(std::io::BufReader::new(
-                xz2::read::XzDecoder::new(raw_reader),
+                xz2::read::XzDecoder::new_multi_decoder(raw_reader),
             )));
         }
     }
-- 
2.43.0


From 9d38ec5cd5b92a94cf0259bfc1500209ffca71aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:28 +0000
Subject: [PATCH 114/118] fix: assumptions of a failed query stayed in
 simulated incremental solvers

---
 src/solvers/simulators.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 2cf8c76..88b3e01 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -181,7 +181,10 @@ where
 {
     fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<super::SolverResult> {
         let start = crate::utils::Timer::now();
-        if !matches!(self.state, InternalSolverState::Init) {
+        // From here on, the internal solver contains more than the added clauses, also if one of
+        // the following calls fails
+        let state = std::mem::replace(&mut self.state, InternalSolverState::Unknown);
+        if !matches!(state, InternalSolverState::Init) {
             self.solver = Init::init();
             self.solver.add_cnf_ref(&self.clauses)?;
         }
-- 
2.43.0


From af57c98b178d6d5ab61d208954360be63b3a1691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:28 +0000
Subject: [PATCH 115/118] fix: binary adder marked outputs as encoded although
 adding the clauses failed

---
 src/encodings/pb/adder.rs | 270 +++++++++++++++++---------------------
 1 file changed, 118 insertions(+), 152 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 1c58f17..3e8ddc5 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -268,22 +268,17 @@ impl super::BoundUpperIncremental for BinaryAdder {
                 structure.comparator.resize(range.end, None);
             }
             for val in range {
-                let output = if let Some(output) = &mut structure.comparator[val] {
-                    if output.enc_if {
-                        continue;
-                    }
-                    output.enc_if = true;
-                    output.bit
-                } else {
-                    let bit = var_manager.new_lit();
-                    structure.comparator[val] = Some(Output {
-                        bit,
-                        enc_if: true,
-                        enc_only_if: false,
-                    });
-                    bit
-                };
-                comparator_if(val, output, &outputs, collector)?;
+                let output = structure.comparator[val].get_or_insert_with(|| Output {
+                    bit: var_manager.new_lit(),
+                    enc_if: false,
+                    enc_only_if: false,
+                });
+                if output.enc_if {
+                    continue;
+                }
+                comparator_if(val, output.bit, &outputs, collector)?;
+                // only mark as encoded now, since adding clauses might have failed
+                output.enc_if = true;
             }
         }
 
@@ -394,22 +389,17 @@ impl super::BoundLowerIncremental for BinaryAdder {
                 structure.comparator.resize(range.end, None);
             }
             for val in range {
-                let output = if let Some(output) = &mut structure.comparator[val - 1] {
-                    if output.enc_if {
-                        continue;
-                    }
-                    output.enc_only_if = true;
-                    output.bit
-                } else {
-                    let bit = var_manager.new_lit();
-                    structure.comparator[val - 1] = Some(Output {
-                        bit,
-                        enc_if: false,
-                        enc_only_if: true,
-                    });
-                    bit
-                };
-                comparator_only_if(val - 1, output, &outputs, collector)?;
+                let output = structure.comparator[val - 1].get_or_insert_with(|| Output {
+                    bit: var_manager.new_lit(),
+                    enc_if: false,
+                    enc_only_if: false,
+                });
+                if output.enc_if {
+                    continue;
+                }
+                comparator_only_if(val - 1, output.bit, &outputs, collector)?;
+                // only mark as encoded now, since adding clauses might have failed
+                output.enc_only_if = true;
             }
         }
 
@@ -643,21 +633,15 @@ where
 
     match node {
         Node::Full { a, b, c, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = sum.get_or_insert_with(|| Output {
+                bit: var_manager.new_lit(),
+                enc_if: false,
+                enc_only_if: false,
+            });
+            if out.enc_if {
+                return Ok(out.bit);
+            }
+            let sum = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -668,24 +652,21 @@ where
             collector.add_clause(a | !b | c | sum)?;
             collector.add_clause(a | b | !c | sum)?;
 
+            // only mark as encoded now, since adding clauses might have failed
+            out.enc_if = true;
+
             Ok(sum)
         }
         Node::Half { a, b, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = sum.get_or_insert_with(|| Output {
+                bit: var_manager.new_lit(),
+                enc_if: false,
+                enc_only_if: false,
+            });
+            if out.enc_if {
+                return Ok(out.bit);
+            }
+            let sum = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -693,6 +674,9 @@ where
             collector.add_clause(!a | b | sum)?;
             collector.add_clause(a | !b | sum)?;
 
+            // only mark as encoded now, since adding clauses might have failed
+            out.enc_if = true;
+
             Ok(sum)
         }
     }
@@ -712,21 +696,15 @@ where
 
     match node {
         Node::Full { a, b, c, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_only_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_only_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let out = sum.get_or_insert_with(|| Output {
+                bit: var_manager.new_lit(),
+                enc_if: false,
+                enc_only_if: false,
+            });
+            if out.enc_only_if {
+                return Ok(out.bit);
+            }
+            let sum = out.bit;
 
             let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
@@ -737,24 +715,21 @@ where
             collector.add_clause(!a | b | !c | !sum)?;
             collector.add_clause(!a | !b | c | !sum)?;
 
+            // only mark as encoded now, since adding clauses might have failed
+            out.enc_only_if = true;
+
             Ok(sum)
         }
         Node::Half { a, b, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_only_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_only_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let out = sum.get_or_insert_with(|| Output {
+                bit: var_manager.new_lit(),
+                enc_if: false,
+                enc_only_if: false,
+            });
+            if out.enc_only_if {
+                return Ok(out.bit);
+            }
+            let sum = out.bit;
 
             let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
@@ -762,6 +737,9 @@ where
             collector.add_clause(a | b | !sum)?;
             collector.add_clause(!a | !b | !sum)?;
 
+            // only mark as encoded now, since adding clauses might have failed
+            out.enc_only_if = true;
+
             Ok(sum)
         }
     }
@@ -781,21 +759,15 @@ where
 
     match node {
         Node::Full { a, b, c, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = carry.get_or_insert_with(|| Output {
+                bit: var_manager.new_lit(),
+                enc_if: false,
+                enc_only_if: false,
+            });
+            if out.enc_if {
+                return Ok(out.bit);
+            }
+            let carry = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -805,30 +777,30 @@ where
             collector.add_clause(!a | !c | carry)?;
             collector.add_clause(!a | !b | carry)?;
 
+            // only mark as encoded now, since adding clauses might have failed
+            out.enc_if = true;
+
             Ok(carry)
         }
         Node::Half { a, b, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = carry.get_or_insert_with(|| Output {
+                bit: var_manager.new_lit(),
+                enc_if: false,
+                enc_only_if: false,
+            });
+            if out.enc_if {
+                return Ok(out.bit);
+            }
+            let carry = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
 
             collector.add_clause(!a | !b | carry)?;
 
+            // only mark as encoded now, since adding clauses might have failed
+            out.enc_if = true;
+
             Ok(carry)
         }
     }
@@ -848,21 +820,15 @@ where
 
     match node {
         Node::Full { a, b, c, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_only_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_only_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let out = carry.get_or_insert_with(|| Output {
+                bit: var_manager.new_lit(),
+                enc_if: false,
+                enc_only_if: false,
+            });
+            if out.enc_only_if {
+                return Ok(out.bit);
+            }
+            let carry = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -872,24 +838,21 @@ where
             collector.add_clause(a | c | !carry)?;
             collector.add_clause(a | b | !carry)?;
 
+            // only mark as encoded now, since adding clauses might have failed
+            out.enc_only_if = true;
+
             Ok(carry)
         }
         Node::Half { a, b, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_only_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let out = carry.get_or_insert_with(|| Output {
+                bit: var_manager.new_lit(),
+                enc_if: false,
+                enc_only_if: false,
+            });
+            if out.enc_only_if {
+                return Ok(out.bit);
+            }
+            let carry = out.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
@@ -897,6 +860,9 @@ where
             collector.add_clause(a | !carry)?;
             collector.add_clause(b | !carry)?;
 
+            // only mark as encoded now, since adding clauses might have failed
+            out.enc_if = true;
+
             Ok(carry)
         }
     }
-- 
2.43.0


From c16bb00bc0b38a3290c49fb9536997ed0fcffb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:28 +0000
Subject: [PATCH 116/118] fix: watchdog encoding was left incomplete if adding
 clauses failed while increasing the precision

---
 src/encodings/pb/dpw/mod.rs | 77 ++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 2ca42ce..15e9bf2 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -754,11 +754,11 @@ where
     let n_top_bbs = top_struct.bottom_buckets.len();
     bot_struct.bottom_buckets.extend(top_struct.bottom_buckets);
     // step 5: extend old bottom buckets
+    let old_bottom_buckets =
+        &bot_struct.bottom_buckets[..bot_struct.bottom_buckets.len() - n_top_bbs];
+    let mut result = Ok(());
     let mut old_right_max = 0;
-    for &bbid in bot_struct.bottom_buckets[..bot_struct.bottom_buckets.len() - n_top_bbs]
-        .iter()
-        .rev()
-    {
+    for &bbid in old_bottom_buckets.iter().rev() {
         let bot_buck = &tot_db[bbid];
         let right = bot_buck.right().unwrap();
         let right_max = tot_db.con_len(right);
@@ -784,38 +784,45 @@ where
                 None
             })
             .collect();
-        for (olit, val) in olits_to_extend {
-            for rval in tot_db[right.id].vals(
-                right.rev_map(old_right_max + 1)..=right.rev_map(std::cmp::min(right_max + 1, val)),
-            ) {
-                let lval = val - right.map(rval);
-                if left.is_possible(lval) {
-                    let rlit = tot_db.define_unweighted(
-                        right.id,
-                        rval - 1,
-                        totdb::Semantics::If,
-                        collector,
-                        var_manager,
-                    )?;
-                    if lval == 0 {
-                        collector
-                            .add_clause(crate::encodings::atomics::lit_impl_lit(rlit, olit))?;
-                    } else {
-                        debug_assert_eq!(left.divisor(), 1);
-                        let llit = tot_db.define_unweighted(
-                            left.id,
-                            lval - 1,
+        let mut extend_outputs = || {
+            for (olit, val) in olits_to_extend {
+                for rval in tot_db[right.id].vals(
+                    right.rev_map(old_right_max + 1)
+                        ..=right.rev_map(std::cmp::min(right_max + 1, val)),
+                ) {
+                    let lval = val - right.map(rval);
+                    if left.is_possible(lval) {
+                        let rlit = tot_db.define_unweighted(
+                            right.id,
+                            rval - 1,
                             totdb::Semantics::If,
                             collector,
                             var_manager,
                         )?;
-                        collector.add_clause(crate::encodings::atomics::cube_impl_lit(
-                            &[rlit, llit],
-                            olit,
-                        ))?;
+                        if lval == 0 {
+                            collector
+                                .add_clause(crate::encodings::atomics::lit_impl_lit(rlit, olit))?;
+                        } else {
+                            debug_assert_eq!(left.divisor(), 1);
+                            let llit = tot_db.define_unweighted(
+                                left.id,
+                                lval - 1,
+                                totdb::Semantics::If,
+                                collector,
+                                var_manager,
+                            )?;
+                            collector.add_clause(crate::encodings::atomics::cube_impl_lit(
+                                &[rlit, llit],
+                                olit,
+                            ))?;
+                        }
                     }
                 }
             }
+            Ok(())
+        };
+        if result.is_ok() {
+            result = extend_outputs();
         }
         // next old right max
         let bot_buck = tot_db[bbid].mut_unit();
@@ -825,8 +832,18 @@ where
         debug_assert!(bot_buck.lits.len() <= len);
         bot_buck.lits.resize(len, totdb::LitData::None);
     }
+    if result.is_err() {
+        // the outputs might be missing clauses over the new buckets, they need to be encoded again
+        for &bbid in old_bottom_buckets {
+            for lit in &mut tot_db[bbid].mut_unit().lits {
+                if let totdb::LitData::Lit { semantics, .. } = lit {
+                    *semantics = None;
+                }
+            }
+        }
+    }
 
-    Ok(())
+    result
 }
 
 /// Encodes an output of the DPW [`Structure`]
-- 
2.43.0


From abab2902bef4840b7539d5f0f825fa979cd17905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:37 +0000
Subject: [PATCH 117/118] fix: certified totalizer encoding of both bounds did
 not forget what was encoded before

---
 src/encodings/card/totalizer/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 32dbf2f..7d8dc74 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -648,11 +648,11 @@ impl super::cert::BoundBoth for Totalizer {
         R: std::ops::RangeBounds<usize> + Clone,
         W: std::io::Write,
     {
-        use super::cert::BoundLowerIncremental;
-        use super::cert::BoundUpperIncremental;
+        use super::cert::BoundLower;
+        use super::cert::BoundUpper;
 
-        self.encode_ub_change_cert(range.clone(), collector, var_manager, proof)?;
-        self.encode_lb_change_cert(range, collector, var_manager, proof)?;
+        self.encode_ub_cert(range.clone(), collector, var_manager, proof)?;
+        self.encode_lb_cert(range, collector, var_manager, proof)?;
         Ok(())
     }
 
-- 
2.43.0


From ff0ff4f5d5d5fcf9784621da0128f576eae40eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:37 +0000
Subject: [PATCH 118/118] fix: certified totalizer output was marked as encoded
 although adding the clauses failed

---
 src/encodings/totdb/cert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index cc5499b..6ddacea 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -1074,9 +1074,6 @@ impl super::Db {
             .missing_semantics(req_semantics)
             .expect("semantics are already encoded");
 
-        // Mark positive literal as encoded (done first to avoid borrow checker problems)
-        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
-
         let n_left_leaves = pre.lcon.len_limit.map_or(
             if pre.lcon.offset() == 0 {
                 self[pre.lcon.id].n_leaves()
@@ -1191,6 +1188,9 @@ impl super::Db {
             collector.add_cert_clause(clause, id)?;
         }
 
+        // Mark positive literal as encoded (only now, since adding clauses might have failed)
+        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
+
         Ok(())
     }
 
-- 
2.43.0

