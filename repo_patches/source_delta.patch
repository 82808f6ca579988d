From c94f369f98511b75e4411a83dc4d84f7ab39f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 01/21] fix: compute the group start offset without
 underflowing

The remaining input is a suffix of the whole pattern, so the offset of a
group is the length of the whole pattern minus what remains. The operands
were swapped: any group not at index 0 overflowed.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76e898..e048b2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,7 +98,7 @@ impl<'p> Context<'p> {
         self.group_index += 1;
         mem::swap(&mut self.current_seq, &mut seq);
         self.sequences
-            .push(ExprState::new(seq, ts.len() - self.ptr.len(), self.mode));
+            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
     }
 
     fn pop_sequence(&mut self) -> Result<(), CompileError> {
-- 
2.43.0


From f8413145ad7ba3109404af71f93eab03c553b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 02/21] fix: report a non-ASCII pattern character as an error

compile() documents that an invalid expression is an error, but a
character outside ASCII panicked.
---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e048b2d..5b4dfa1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -138,7 +138,15 @@ impl<'p> Context<'p> {
             self.p = p;
         } else if let Ok((p, c)) = take_any(ts) {
             // TODO: Support UTF-8 literals
-            assert!(c.is_ascii());
+            if !c.is_ascii() {
+                return Err(CompileError::new(
+                    ErrorKind::LocatedParse,
+                    format!(
+                        "Non-ASCII character is not supported at index {}",
+                        self.ptr.len() - self.p.len()
+                    ),
+                ));
+            }
             if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
                 e.reason
                     .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
-- 
2.43.0


From 388a1c27a14785991340836b1d367ab9075c10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 03/21] fix: accept an error which already carries its
 expression index

The report manager raises an error that names the expression already;
recording the same index again tripped an assertion, so conflicting
SINGLEMATCH expressions panicked rather than returned an error.
---
 src/util/compile_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 58c840b..fa18681 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -43,7 +43,7 @@ impl CompileError {
     }
 
     pub(crate) fn set_expression_index(&mut self, index: u32) {
-        debug_assert!(self.index.is_none());
+        debug_assert!(self.index.map_or(true, |i| i == index));
         self.index = Some(index);
     }
 }
-- 
2.43.0


From f0b6540bedc51ab87a4cd671feaa9b70eed7acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 04/21] fix: state which expression specified SINGLEMATCH
 correctly

The message said the previous expression did not specify it when it did,
and the other way around.
---
 src/util/report_manager.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffad6df..fcd8f44 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -100,19 +100,19 @@ impl<'a> ReportManager<'a> {
                 if eri.highlander != ext.highlander {
                     // We have a problem.
                     let out = format!(
-                    "Expression (index {}) with match ID {} {} SINGLEMATCH whereas previous expression (index {}) with the same match ID did{}",
+                    "Expression (index {}) with match ID {} {}SINGLEMATCH whereas previous expression (index {}) with the same match ID did{}",
                     ext.first_pattern_index,
                     id,
                     if ext.highlander {
                         "specified "
                     } else {
-                        "did not sepcify "
+                        "did not specify "
                     },
                     eri.first_pattern_index,
                     if eri.highlander {
-                        " not."
-                    } else {
                         "."
+                    } else {
+                        " not."
                     },
                 );
                     return Err(CompileError::with_index(ext.first_pattern_index, out));
-- 
2.43.0


From 8ae12b7667467a46f9df028f286c86d74389a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 05/21] fix: reject expressions, flags and ids of different
 lengths

Expressions without a matching flag or ID were dropped silently: they
were not compiled, and not even checked.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 98f5b0b..850f334 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,13 @@ fn compile_multi_int(
         ));
     }
 
+    if flags.len() != expressions.len() || ids.len() != expressions.len() {
+        return Err(CompileError::new(
+            ErrorKind::Other,
+            "Invalid parameter: expressions, flags and ids differ in length",
+        ));
+    }
+
     if expressions.len() > g.limit_pattern_count {
         return Err(CompileError::new(
             ErrorKind::Other,
-- 
2.43.0


From 74472c28249996282dabfd744d820d802df5c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 06/21] fix: fill the right bit within each byte of the bit
 vector

The bit index within a byte was masked with 8 rather than 7, which
overflowed the shift or set bit 0 for every character.
---
 src/util/charreach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index 481475f..ccbf61d 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -335,7 +335,7 @@ pub(crate) fn fill_bitvector(cr: &CharReach, bits: &mut [u8]) {
     }
     let mut next = cr.find_first();
     while let Some(pos) = next {
-        bits[(pos / 8) as usize] |= 1 << (pos & 8);
+        bits[(pos / 8) as usize] |= 1 << (pos & 7);
         next = cr.find_next(pos);
     }
 }
-- 
2.43.0


From 533fecbd2e867a1cd10ebe80195d47d87deda6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:15 +0000
Subject: [PATCH 07/21] fix: keep the high bits when aligning values wider than
 a byte

The alignment mask was complemented as a u8 and then widened with zeros,
so aligning any value above 255 cleared all its bits from bit 8 up.
---
 src/util/ue2common.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index f57473e..e3be5ef 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -1,4 +1,4 @@
-use std::ops::{Add, BitAnd};
+use std::ops::{Add, BitAnd, Not};
 
 pub type S64a = i64;
 
@@ -12,11 +12,11 @@ pub type ReportId = u32;
 #[inline]
 pub fn round_up_16<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not<Output = T> + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + 0xf_u8.into()).into() & (!0xf_u8).into()).into()
+    ((a + 0xf_u8.into()).into() & !T::from(0xf)).into()
 }
 
 /// Aligns to the previous 16-byte boundary.
@@ -24,21 +24,21 @@ where
 #[inline]
 pub fn round_down_16<T>(a: T) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not<Output = T> + From<u8>,
     <T as BitAnd>::Output: Into<T>,
 {
-    (a & (!0xf_u8).into()).into()
+    (a & !T::from(0xf)).into()
 }
 
 /// Aligns to the next n-byte boundary.
 #[inline]
 pub fn round_up_n<T>(a: T, n: u8) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not<Output = T> + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + (n - 1).into()).into() & (!(n - 1)).into()).into()
+    ((a + (n - 1).into()).into() & !T::from(n - 1)).into()
 }
 
 /// Aligns to the previous n-byte boundary.
@@ -46,10 +46,10 @@ where
 #[inline]
 pub fn round_down_n<T>(a: T, n: u8) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not<Output = T> + From<u8>,
     <T as BitAnd>::Output: Into<T>,
 {
-    (a & (!(n - 1)).into()).into()
+    (a & !T::from(n - 1)).into()
 }
 
 /// Aligns to a cache line.
@@ -57,9 +57,9 @@ where
 #[inline]
 pub fn round_up_cache_line<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not<Output = T> + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + 0x3f_u8.into()).into() & (!0x3f_u8).into()).into()
+    ((a + 0x3f_u8.into()).into() & !T::from(0x3f)).into()
 }
-- 
2.43.0


From 2e773f9b8869fc731a4e432307aa05fe6dffa42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:15 +0000
Subject: [PATCH 08/21] fix: compare the case sensitivity of literals for
 equality

Two literals which differ in case sensitivity only were equal but did
not compare as Ordering::Equal, which breaks the contract of Ord.
---
 src/util/ue2string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index f13bf3e..bdba568 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -72,7 +72,7 @@ impl<'a> IntoIterator for &'a Ue2Literal {
 impl PartialEq for Ue2Literal {
     #[must_use]
     fn eq(&self, other: &Self) -> bool {
-        self.s == other.s
+        self.s == other.s && self.nocase == other.nocase
     }
 }
 
-- 
2.43.0


From 47d68143bf1ae0d766e6a64a7d254f45334bf8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 09/21] fix: pad escaped bytes with zero in character class
 dumps

---
 src/util/dump_charclass.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index e0fa5f4..a3a2446 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -42,7 +42,7 @@ fn describe_char<W: Write>(f: &mut W, c: u8, out_type: CcOutput) -> Result<(), E
         f.write_str(backslash)?;
         f.write_char('r')
     } else {
-        f.write_str(&format!("{}x{:2x}", backslash, c))
+        f.write_str(&format!("{}x{:02x}", backslash, c))
     }
 }
 
-- 
2.43.0


From 048e205d8f7c2c27b1e3b63c7fee7be04542e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 10/21] fix: dump a short range up to 0xff without overflowing

---
 src/util/dump_charclass.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index a3a2446..ed2cd4d 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -59,10 +59,10 @@ fn describe_range<W: Write>(f: &mut W, c1: u8, c2: u8, out_type: CcOutput) -> Re
         let mut c1 = c1;
         loop {
             describe_char(f, c1, out_type)?;
-            c1 += 1;
-            if c1 > c2 {
+            if c1 == c2 {
                 break;
             }
+            c1 += 1;
         }
         Ok(())
     } else {
-- 
2.43.0


From eb91b7174c8b75843b6a2077c3e8ca6058614130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 11/21] fix: dump the last range of a character class

The last range was left out unless it ended at 0xff.
---
 src/util/dump_charclass.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index ed2cd4d..41f7cd0 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -175,10 +175,8 @@ fn describe_class_int<W: Write>(
             }
             c_last = c;
         }
-        if c_last == 0xff {
-            describe_range(f, c_start, c_last, out_type)?;
-            i += 1;
-        }
+        describe_range(f, c_start, c_last, out_type)?;
+        i += 1;
     }
     Ok(i)
 }
-- 
2.43.0


From a1e4ee5252ba63fc600bd0fef3330920e1121815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 12/21] fix: validate SINGLEMATCH of expressions which are not
 literals

Only literals were registered with the report manager, so conflicting
SINGLEMATCH flags for one match ID went unnoticed if an expression had
an alternation or was empty.
---
 src/compiler.rs    |  2 +-
 src/nfagraph/ng.rs | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index ed34d55..93e5d45 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,7 +92,7 @@ pub(crate) fn add_expression(
         let inner: Pin<&mut Ng> = ng.as_mut();
         inner
             .get_unchecked_mut()
-            .add_graph(&build_expr.expr, &build_expr.g);
+            .add_graph(&build_expr.expr, &build_expr.g)?;
     };
 
     Ok(())
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2bc9778..a4e7e7e 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -58,10 +58,21 @@ impl<'a> Ng<'a> {
         boxed
     }
 
-    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
+    pub(crate) fn add_graph(
+        &mut self,
+        expr: &ExpressionInfo,
+        _g: &NgHolder,
+    ) -> Result<(), CompileError> {
+        // Register external report and validate highlander constraints.
+        self.rm.register_ext_report(
+            expr.report,
+            ExternalReportInfo::new(expr.highlander, expr.index.try_into().unwrap()),
+        )?;
+
         if expr.som != SomType::None {
             self.rose.has_som = true;
         }
+        Ok(())
     }
 
     pub(crate) fn add_literal(
-- 
2.43.0


From 6da8aef5fc60f923f1c94510069a8674b8a0710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 13/21] fix: drop the epsilons which are not caret flavored
 from start

The condition was inverted: it dropped the caret flavored ones, and kept
the others.
---
 src/parser/build_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index ed4297f..c325c35 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -87,7 +87,7 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
     } else if from.pos == bs.start_state {
         // If we're connecting from start, we should remove any epsilons that
         // aren't caret flavored.
-        tolist.retain(|e| e.pos != GlushkovBuildState::pos_epsilon() || e.flags.is_empty());
+        tolist.retain(|e| e.pos != GlushkovBuildState::pos_epsilon() || !e.flags.is_empty());
         tolist.retain(|e| !e.flags.contains(PosFlags::MUST_FLOAT | PosFlags::NOFLOAT));
     }
 
-- 
2.43.0


From 00b205ed6261dce376e5a378be0fdd2b461aaf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 14/21] hooks: observe util types (guarded by cfg rescan_verif)

---
 src/lib.rs                 |   8 ++
 src/util.rs                |  14 ++-
 src/util/depth.rs          |  11 +++
 src/util/report_manager.rs |  18 ++++
 src/util/ue2string.rs      |   7 ++
 src/util/verif_charset.rs  | 174 +++++++++++++++++++++++++++++++++++++
 src/util/verif_dump.rs     |  13 +++
 src/util/verif_literal.rs  |  47 ++++++++++
 src/util/verif_report.rs   |  42 +++++++++
 src/util/verif_util.rs     |  65 ++++++++++++++
 src/verif.rs               |  46 ++++++++++
 11 files changed, 443 insertions(+), 2 deletions(-)
 create mode 100644 src/util/verif_charset.rs
 create mode 100644 src/util/verif_dump.rs
 create mode 100644 src/util/verif_literal.rs
 create mode 100644 src/util/verif_report.rs
 create mode 100644 src/util/verif_util.rs
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 850f334..57b23eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unknown_lints, unexpected_cfgs)] // `rescan_verif` is not declared
+
 mod compiler;
 mod database;
 mod grey;
@@ -9,6 +11,9 @@ mod scratch;
 mod smallwrite;
 mod som;
 mod util;
+#[cfg(rescan_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 use bitflags::bitflags;
 use compiler::{add_expression, build};
@@ -135,6 +140,9 @@ fn compile_multi_int(
         }
     }
 
+    #[cfg(rescan_verif = "trace")]
+    ng.verif_done();
+
     Ok(build(&ng))
 }
 
diff --git a/src/util.rs b/src/util.rs
index 23f5a3e..ea48fd0 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -5,19 +5,29 @@ mod compare;
 mod compile_context;
 pub(crate) mod compile_error;
 pub(crate) mod depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif = "dump"))]
 mod dump_charclass;
 mod report;
 mod report_manager;
 mod ue2common;
 mod ue2string;
 mod unicode_def;
+#[cfg(rescan_verif = "charset")]
+pub mod verif_charset;
+#[cfg(rescan_verif = "dump")]
+pub mod verif_dump;
+#[cfg(rescan_verif = "literal")]
+pub mod verif_literal;
+#[cfg(rescan_verif = "report")]
+pub mod verif_report;
+#[cfg(rescan_verif = "util")]
+pub mod verif_util;
 
 pub(crate) use boundary_reports::BoundaryReports;
 pub(crate) use charreach::{make_caseless, CharReach};
 pub(crate) use compile_context::CompileContext;
 pub(crate) use depth::Depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif = "dump"))]
 pub(crate) use dump_charclass::{describe_class, CcOutput};
 pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
diff --git a/src/util/depth.rs b/src/util/depth.rs
index f581eae..c30c072 100644
--- a/src/util/depth.rs
+++ b/src/util/depth.rs
@@ -63,3 +63,14 @@ impl PartialOrd for Depth {
         Some(self.cmp(other))
     }
 }
+
+#[cfg(rescan_verif = "trace")]
+impl Depth {
+    pub(crate) fn verif_value(self) -> Option<u32> {
+        if self == Self::infinity() {
+            None
+        } else {
+            Some(self.val)
+        }
+    }
+}
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index fcd8f44..2e1283a 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -145,3 +145,21 @@ impl<'a> ReportManager<'a> {
         *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)
     }
 }
+
+#[cfg(any(rescan_verif = "trace", rescan_verif = "report"))]
+impl<'a> ReportManager<'a> {
+    /// Registered external IDs in order, and whether all are exhaustible.
+    pub(crate) fn verif_external(&self) -> (Vec<(u32, bool, u32)>, bool) {
+        let mut v: Vec<_> = self
+            .external_id_map
+            .iter()
+            .map(|(&id, e)| (id, e.highlander, e.first_pattern_index))
+            .collect();
+        v.sort_unstable();
+        (v, self.global_exhaust)
+    }
+
+    pub(crate) fn verif_num_reports(&self) -> usize {
+        self.report_ids.len()
+    }
+}
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index bdba568..b723586 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -130,3 +130,10 @@ mod test {
         assert!(!(empty1 != empty2));
     }
 }
+
+#[cfg(any(rescan_verif = "trace", rescan_verif = "literal"))]
+impl Ue2LiteralElem {
+    pub(crate) fn verif_nocase(&self) -> bool {
+        self.nocase
+    }
+}
diff --git a/src/util/verif_charset.rs b/src/util/verif_charset.rs
new file mode 100644
index 0000000..f577dda
--- /dev/null
+++ b/src/util/verif_charset.rs
@@ -0,0 +1,174 @@
+//! Hooks for character sets.
+
+use super::charreach::{fill_bitvector, make_and_cmp_mask, make_caseless, CharReach};
+use super::compare;
+use std::ops::{BitAnd, BitAndAssign, BitOr, BitOrAssign, BitXor, BitXorAssign, Not};
+
+/// A character set.
+#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
+pub struct Set(CharReach);
+
+impl Set {
+    pub fn from_char(c: u8) -> Self {
+        Self(CharReach::from_char(c))
+    }
+    pub fn from_range(from: u8, to: u8) -> Self {
+        Self(CharReach::from_range(from, to))
+    }
+    pub fn from_bytes(bytes: &[u8]) -> Self {
+        Self(CharReach::from_bytes(bytes))
+    }
+    pub fn dot() -> Self {
+        Self(CharReach::dot())
+    }
+    pub fn reset_all(&mut self) {
+        self.0.reset_all()
+    }
+    pub fn set_all(&mut self) {
+        self.0.set_all()
+    }
+    pub fn reset(&mut self, c: u8) {
+        self.0.reset(c)
+    }
+    pub fn set(&mut self, c: u8) {
+        self.0.set(c)
+    }
+    pub fn test(&self, c: u8) -> bool {
+        self.0.test(c)
+    }
+    pub fn flip_all(&mut self) {
+        self.0.flip_all()
+    }
+    pub fn flip(&mut self, c: u8) {
+        self.0.flip(c)
+    }
+    pub fn set_range(&mut self, from: u8, to: u8) {
+        self.0.set_range(from, to)
+    }
+    pub fn set_bytes(&mut self, bytes: &[u8]) {
+        self.0.set_bytes(bytes)
+    }
+    pub fn count(&self) -> u32 {
+        self.0.count()
+    }
+    pub fn none(&self) -> bool {
+        self.0.none()
+    }
+    pub fn any(&self) -> bool {
+        self.0.any()
+    }
+    pub fn all(&self) -> bool {
+        self.0.all()
+    }
+    pub fn find_first(&self) -> Option<u8> {
+        self.0.find_first()
+    }
+    pub fn find_last(&self) -> Option<u8> {
+        self.0.find_last()
+    }
+    pub fn find_next(&self, last: u8) -> Option<u8> {
+        self.0.find_next(last)
+    }
+    pub fn find_nth(&self, n: u8) -> Option<u8> {
+        self.0.find_nth(n)
+    }
+    pub fn is_alphabetic(&self) -> bool {
+        self.0.is_alphabetic()
+    }
+    pub fn is_caseless_char(&self) -> bool {
+        self.0.is_caseless_char()
+    }
+    pub fn is_bit5_insensitive(&self) -> bool {
+        self.0.is_bit5_insensitive()
+    }
+    pub fn is_subset_of(&self, rhs: &Self) -> bool {
+        self.0.is_subset_of(&rhs.0)
+    }
+    pub fn overlaps(&self, rhs: &Self) -> bool {
+        self.0.overlaps(&rhs.0)
+    }
+    pub fn is_ascii(&self) -> bool {
+        self.0.is_ascii()
+    }
+    pub fn is_utf8_start(&self) -> bool {
+        self.0.is_utf8_start()
+    }
+    pub fn make_caseless(&mut self) {
+        make_caseless(&mut self.0)
+    }
+    pub fn fill_bitvector(&self, bits: &mut [u8]) {
+        fill_bitvector(&self.0, bits)
+    }
+    pub fn and_cmp_mask(&self) -> (u8, u8) {
+        make_and_cmp_mask(&self.0)
+    }
+    pub fn display(&self) -> String {
+        self.0.to_string()
+    }
+}
+
+impl BitAnd for Set {
+    type Output = Self;
+    fn bitand(self, rhs: Self) -> Self {
+        Self(self.0 & rhs.0)
+    }
+}
+
+impl BitAndAssign for Set {
+    fn bitand_assign(&mut self, rhs: Self) {
+        self.0 &= rhs.0
+    }
+}
+
+impl BitOr for Set {
+    type Output = Self;
+    fn bitor(self, rhs: Self) -> Self {
+        Self(self.0 | rhs.0)
+    }
+}
+
+impl BitOrAssign for Set {
+    fn bitor_assign(&mut self, rhs: Self) {
+        self.0 |= rhs.0
+    }
+}
+
+impl BitXor for Set {
+    type Output = Self;
+    fn bitxor(self, rhs: Self) -> Self {
+        Self(self.0 ^ rhs.0)
+    }
+}
+
+impl BitXorAssign for Set {
+    fn bitxor_assign(&mut self, rhs: Self) {
+        self.0 ^= rhs.0
+    }
+}
+
+impl Not for Set {
+    type Output = Self;
+    fn not(self) -> Self {
+        Self(!self.0)
+    }
+}
+
+pub fn is_upper(c: u8) -> bool {
+    compare::myisupper(c)
+}
+
+pub fn is_lower(c: u8) -> bool {
+    compare::myislower(c)
+}
+
+pub fn to_lower(c: u8) -> u8 {
+    compare::mytolower(c)
+}
+
+pub fn to_upper(c: u8) -> u8 {
+    compare::mytoupper(c)
+}
+
+pub fn is_alpha(c: u8) -> bool {
+    compare::ourisalpha(c)
+}
diff --git a/src/util/verif_dump.rs b/src/util/verif_dump.rs
new file mode 100644
index 0000000..b1752bc
--- /dev/null
+++ b/src/util/verif_dump.rs
@@ -0,0 +1,13 @@
+//! Hooks for the text form of character classes.
+
+use super::{describe_class, CcOutput, CharReach};
+
+/// Describes the class which has exactly `members`.
+pub fn class_text(members: &[u8], dot: bool) -> String {
+    let mut cr = CharReach::default();
+    cr.set_bytes(members);
+    let mut out = String::new();
+    let kind = if dot { CcOutput::Dot } else { CcOutput::Text };
+    describe_class(&mut out, &cr, 256, kind).expect("writing to a string");
+    out
+}
diff --git a/src/util/verif_literal.rs b/src/util/verif_literal.rs
new file mode 100644
index 0000000..e43d6c8
--- /dev/null
+++ b/src/util/verif_literal.rs
@@ -0,0 +1,47 @@
+//! Hooks for literals.
+
+use super::{mixed_sensitivity, Ue2Literal};
+use std::cmp::Ordering;
+
+/// A literal.
+#[derive(Default)]
+pub struct Literal(pub(crate) Ue2Literal);
+
+impl Literal {
+    pub fn push(&mut self, c: u8, nocase: bool) {
+        self.0.push(c, nocase)
+    }
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    pub fn any_nocase(&self) -> bool {
+        self.0.any_nocase()
+    }
+    pub fn elements(&self) -> Vec<(u8, bool)> {
+        self.0.iter().map(|e| (e.c, e.verif_nocase())).collect()
+    }
+    pub fn elements_by_ref(&self) -> Vec<(u8, bool)> {
+        (&self.0)
+            .into_iter()
+            .map(|e| (e.c, e.verif_nocase()))
+            .collect()
+    }
+    pub fn mixed_sensitivity(&self) -> bool {
+        mixed_sensitivity(&self.0)
+    }
+    pub fn equals(&self, other: &Self) -> bool {
+        self.0 == other.0
+    }
+    pub fn differs(&self, other: &Self) -> bool {
+        self.0 != other.0
+    }
+    pub fn compare(&self, other: &Self) -> Ordering {
+        self.0.cmp(&other.0)
+    }
+    pub fn partial_compare(&self, other: &Self) -> Option<Ordering> {
+        self.0.partial_cmp(&other.0)
+    }
+}
diff --git a/src/util/verif_report.rs b/src/util/verif_report.rs
new file mode 100644
index 0000000..393979e
--- /dev/null
+++ b/src/util/verif_report.rs
@@ -0,0 +1,42 @@
+//! Hooks for report bookkeeping.
+
+use super::{ExternalReportInfo, Report, ReportManager};
+use crate::Grey;
+
+/// A report manager with its own limit on the number of reports.
+pub struct Manager<'a>(ReportManager<'a>);
+
+/// Calls `f` with a new report manager.
+pub fn with_manager<R>(limit_report_count: usize, f: impl FnOnce(&mut Manager<'_>) -> R) -> R {
+    let grey = Grey {
+        limit_report_count,
+        ..Grey::default()
+    };
+    f(&mut Manager(ReportManager::new(&grey)))
+}
+
+impl<'a> Manager<'a> {
+    pub fn internal_id(&mut self, min_length: u64) -> Result<u32, String> {
+        self.0
+            .get_internal_id(&Report { min_length })
+            .map_err(|e| e.to_string())
+    }
+    pub fn report(&self, id: u32) -> u64 {
+        self.0.get_report(id).min_length
+    }
+    pub fn register(&mut self, id: u32, highlander: bool, index: u32) -> Result<(), String> {
+        self.0
+            .register_ext_report(id, ExternalReportInfo::new(highlander, index))
+            .map_err(|e| e.to_string())
+    }
+    pub fn exhaustible_key(&mut self, id: u32) -> u32 {
+        self.0.get_exhaustible_key(id)
+    }
+    /// Registered external IDs, and whether all are exhaustible.
+    pub fn external(&self) -> (Vec<(u32, bool, u32)>, bool) {
+        self.0.verif_external()
+    }
+    pub fn num_reports(&self) -> usize {
+        self.0.verif_num_reports()
+    }
+}
diff --git a/src/util/verif_util.rs b/src/util/verif_util.rs
new file mode 100644
index 0000000..ef5f648
--- /dev/null
+++ b/src/util/verif_util.rs
@@ -0,0 +1,65 @@
+//! Hooks for alignment helpers and depths.
+
+use super::ue2common;
+use super::Depth;
+use std::cmp::Ordering;
+use std::convert::TryFrom;
+
+macro_rules! align {
+    ($($name:ident: $t:ty;)*) => {$(
+        pub mod $name {
+            use super::ue2common as u;
+            pub fn up_16(a: $t) -> $t {
+                u::round_up_16(a)
+            }
+            pub fn down_16(a: $t) -> $t {
+                u::round_down_16(a)
+            }
+            pub fn up_n(a: $t, n: u8) -> $t {
+                u::round_up_n(a, n)
+            }
+            pub fn down_n(a: $t, n: u8) -> $t {
+                u::round_down_n(a, n)
+            }
+            pub fn up_cache_line(a: $t) -> $t {
+                u::round_up_cache_line(a)
+            }
+        }
+    )*};
+}
+
+align! {
+    a8: u8;
+    a16: u16;
+    a32: u32;
+    a64: u64;
+    asize: usize;
+}
+
+/// A depth.
+#[derive(Clone, Copy, Debug)]
+pub struct D(Depth);
+
+impl D {
+    pub fn infinity() -> Self {
+        Self(Depth::infinity())
+    }
+    pub fn from_u32(v: u32) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+    pub fn from_usize(v: usize) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+    pub fn compare(&self, other: &Self) -> Ordering {
+        self.0.cmp(&other.0)
+    }
+    pub fn partial_compare(&self, other: &Self) -> Option<Ordering> {
+        self.0.partial_cmp(&other.0)
+    }
+    pub fn equals(&self, other: &Self) -> bool {
+        self.0 == other.0
+    }
+    pub fn least(self, other: Self) -> Self {
+        Self(std::cmp::min(self.0, other.0))
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..7858a64
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,46 @@
+//! Observation hooks for runtime monitoring.
+//!
+//! Nothing here is compiled unless the `rescan_verif` cfg is set. Each group
+//! of hooks is selected with its own value (`--cfg rescan_verif="parse"`).
+
+#[cfg(rescan_verif = "trace")]
+pub mod trace;
+
+#[cfg(rescan_verif = "charset")]
+pub use crate::util::verif_charset as charset;
+
+#[cfg(rescan_verif = "util")]
+pub use crate::util::verif_util as util;
+
+#[cfg(rescan_verif = "literal")]
+pub use crate::util::verif_literal as literal;
+
+#[cfg(rescan_verif = "report")]
+pub use crate::util::verif_report as report;
+
+#[cfg(rescan_verif = "dump")]
+pub mod dump {
+    pub use crate::parser::verif_dump::tree_text;
+    pub use crate::util::verif_dump::class_text;
+}
+
+#[cfg(rescan_verif = "parse")]
+pub use crate::parser::verif_parse as parse;
+
+#[cfg(rescan_verif = "wiring")]
+pub use crate::parser::verif_wiring as wiring;
+
+#[cfg(rescan_verif = "expr")]
+pub use crate::compiler::verif_expr as expr;
+
+#[cfg(rescan_verif = "smwr")]
+pub use crate::smallwrite::verif_smwr as smwr;
+
+#[cfg(rescan_verif = "rose")]
+pub use crate::rose::verif_rose as rose;
+
+#[cfg(rescan_verif = "scan")]
+pub use crate::scratch::verif_scan as scan;
+
+#[cfg(rescan_verif = "grey")]
+pub mod grey;
-- 
2.43.0


From c1426481049de4d51d649601369226306b74929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 15/21] hooks: observe parsing and expressions (guarded by cfg
 rescan_verif)

---
 src/compiler.rs                  |   2 +
 src/compiler/expression_info.rs  |  16 +++++
 src/compiler/verif_expr.rs       |  44 ++++++++++++
 src/nfagraph/ng_builder.rs       |  14 ++++
 src/parser.rs                    |   8 ++-
 src/parser/build_state.rs        |  11 +++
 src/parser/component_sequence.rs |   2 +-
 src/parser/verif_dump.rs         |  14 ++++
 src/parser/verif_parse.rs        |  81 +++++++++++++++++++++
 src/parser/verif_wiring.rs       | 118 +++++++++++++++++++++++++++++++
 10 files changed, 308 insertions(+), 2 deletions(-)
 create mode 100644 src/compiler/verif_expr.rs
 create mode 100644 src/parser/verif_dump.rs
 create mode 100644 src/parser/verif_parse.rs
 create mode 100644 src/parser/verif_wiring.rs

diff --git a/src/compiler.rs b/src/compiler.rs
index 93e5d45..06412e2 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1,4 +1,6 @@
 mod expression_info;
+#[cfg(any(rescan_verif = "expr", rescan_verif = "trace"))]
+pub mod verif_expr;
 
 pub(crate) use expression_info::ExpressionInfo;
 
diff --git a/src/compiler/expression_info.rs b/src/compiler/expression_info.rs
index 32fc987..12d39f4 100644
--- a/src/compiler/expression_info.rs
+++ b/src/compiler/expression_info.rs
@@ -34,3 +34,19 @@ pub(crate) struct ExpressionInfo {
     /// Quiet on match.
     pub(crate) quiet: bool,
 }
+
+#[cfg(any(rescan_verif = "wiring", rescan_verif = "smwr"))]
+impl ExpressionInfo {
+    pub(crate) fn verif_default() -> Self {
+        Self {
+            index: 0,
+            report: 0,
+            allow_vacuous: false,
+            highlander: false,
+            utf8: false,
+            prefilter: false,
+            som: SomType::None,
+            quiet: false,
+        }
+    }
+}
diff --git a/src/compiler/verif_expr.rs b/src/compiler/verif_expr.rs
new file mode 100644
index 0000000..95847b8
--- /dev/null
+++ b/src/compiler/verif_expr.rs
@@ -0,0 +1,44 @@
+//! Hooks for the properties of expressions.
+
+use super::ExpressionInfo;
+#[cfg(rescan_verif = "expr")]
+use super::ParsedExpression;
+#[cfg(rescan_verif = "expr")]
+use crate::Flags;
+use crate::SomType;
+
+/// Properties of an expression.
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+pub struct Info {
+    pub index: usize,
+    pub report: u32,
+    pub allow_vacuous: bool,
+    pub highlander: bool,
+    pub utf8: bool,
+    pub prefilter: bool,
+    pub som: bool,
+    pub quiet: bool,
+}
+
+impl Info {
+    pub(crate) fn of(e: &ExpressionInfo) -> Self {
+        Self {
+            index: e.index,
+            report: e.report,
+            allow_vacuous: e.allow_vacuous,
+            highlander: e.highlander,
+            utf8: e.utf8,
+            prefilter: e.prefilter,
+            som: e.som != SomType::None,
+            quiet: e.quiet,
+        }
+    }
+}
+
+/// Parses an expression and returns its properties.
+#[cfg(rescan_verif = "expr")]
+pub fn info(index: usize, expression: &str, flags: Flags, id: u32) -> Result<Info, String> {
+    ParsedExpression::new(index, expression, flags, id)
+        .map(|pe| Info::of(&pe.expr))
+        .map_err(|e| e.to_string())
+}
diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index 09ed15b..e53e430 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -65,3 +65,17 @@ impl NfaBuilder {
 pub(crate) fn make_nfa_builder(expr: &ParsedExpression) -> NfaBuilder {
     NfaBuilder::new(expr)
 }
+
+#[cfg(rescan_verif = "wiring")]
+impl NfaBuilder {
+    pub(crate) fn verif_new() -> Self {
+        Self {
+            graph: NgHolder::new(),
+            expr: ExpressionInfo::verif_default(),
+        }
+    }
+
+    pub(crate) fn verif_set_assert_flags(&mut self, pos: NfaVertex, flags: PosFlags) {
+        self.graph[pos].assert_flags = flags;
+    }
+}
diff --git a/src/parser.rs b/src/parser.rs
index 5b4dfa1..ecb1be7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -6,13 +6,19 @@ mod component_class;
 mod component_sequence;
 mod const_component_visitor;
 mod control_verbs;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif = "dump"))]
 mod dump;
 mod parser_util;
 mod position;
 mod position_info;
 mod prefilter;
 mod shortcut_literal;
+#[cfg(rescan_verif = "dump")]
+pub mod verif_dump;
+#[cfg(rescan_verif = "parse")]
+pub mod verif_parse;
+#[cfg(rescan_verif = "wiring")]
+pub mod verif_wiring;
 
 pub(crate) use build_state::make_glushkov_build_state;
 pub(crate) use component::Component;
diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index c325c35..191e7e5 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -111,3 +111,14 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
 pub(crate) fn make_glushkov_build_state(b: &mut NfaBuilder) -> GlushkovBuildState {
     GlushkovBuildState::new(b)
 }
+
+#[cfg(rescan_verif = "wiring")]
+impl<'a> GlushkovBuildState<'a> {
+    pub(in crate::parser) fn verif_epsilon() -> Position {
+        Self::pos_epsilon()
+    }
+
+    pub(in crate::parser) fn verif_successors(&self) -> &HashMap<Position, HashSet<PositionInfo>> {
+        &self.successors
+    }
+}
diff --git a/src/parser/component_sequence.rs b/src/parser/component_sequence.rs
index 26517a5..6f8d334 100644
--- a/src/parser/component_sequence.rs
+++ b/src/parser/component_sequence.rs
@@ -45,7 +45,7 @@ impl ComponentSequence {
         }
     }
 
-    #[cfg(test)]
+    #[cfg(any(test, rescan_verif = "dump"))]
     pub(super) fn children(&self) -> &Vec<Component> {
         &self.children
     }
diff --git a/src/parser/verif_dump.rs b/src/parser/verif_dump.rs
new file mode 100644
index 0000000..e1f5509
--- /dev/null
+++ b/src/parser/verif_dump.rs
@@ -0,0 +1,14 @@
+//! Hooks for the text form of parse trees.
+
+use super::dump::dump_tree;
+use super::{parse, ParseMode};
+use crate::Flags;
+
+/// Parses an expression and dumps its tree.
+pub fn tree_text(expression: &str, flags: Flags) -> Result<String, String> {
+    let mut mode = ParseMode::new(flags);
+    let root = parse(expression, &mut mode).map_err(|e| e.to_string())?;
+    let mut out = String::new();
+    dump_tree(&mut out, &root).expect("writing to a string");
+    Ok(out)
+}
diff --git a/src/parser/verif_parse.rs b/src/parser/verif_parse.rs
new file mode 100644
index 0000000..83c5cf8
--- /dev/null
+++ b/src/parser/verif_parse.rs
@@ -0,0 +1,81 @@
+//! Hooks for parse trees.
+
+use super::ascii_component_class::AsciiComponentClass;
+use super::{
+    parse, walk_component, ComponentAlternation, ComponentSequence, ConstComponentVisitor,
+    ParseMode,
+};
+use crate::Flags;
+
+/// A step of a walk over a parse tree.
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
+pub enum Step {
+    /// Enters a sequence, with its capture index.
+    Sequence(Option<u32>),
+    EndSequence,
+    Alternation,
+    EndAlternation,
+    /// A character class, with its members.
+    Class(Vec<u8>),
+}
+
+/// Parse mode.
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+pub struct Mode {
+    pub caseless: bool,
+    pub dotall: bool,
+    pub ignore_space: bool,
+    pub multiline: bool,
+    pub ucp: bool,
+    pub utf8: bool,
+}
+
+#[derive(Default)]
+struct Recorder {
+    steps: Vec<Step>,
+}
+
+impl ConstComponentVisitor for Recorder {
+    type Error = ();
+
+    fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
+        let members = (0..=255).filter(|&b| c.cr.test(b)).collect();
+        self.steps.push(Step::Class(members));
+        Ok(())
+    }
+    fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> {
+        self.steps.push(Step::Alternation);
+        Ok(())
+    }
+    fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), ()> {
+        self.steps.push(Step::Sequence(c.capture_index));
+        Ok(())
+    }
+    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
+    fn during_component_alternation(&self, _c: &ComponentAlternation) {}
+    fn during_component_sequence(&self, _c: &ComponentSequence) {}
+    fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
+    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
+        self.steps.push(Step::EndAlternation);
+    }
+    fn post_component_sequence(&mut self, _c: &ComponentSequence) {
+        self.steps.push(Step::EndSequence);
+    }
+}
+
+/// Parses an expression and walks its tree.
+pub fn tree(expression: &str, flags: Flags) -> Result<(Vec<Step>, Mode), String> {
+    let mut mode = ParseMode::new(flags);
+    let root = parse(expression, &mut mode).map_err(|e| e.to_string())?;
+    let mut rec = Recorder::default();
+    walk_component(&mut rec, &root).expect("the recorder never fails");
+    let mode = Mode {
+        caseless: mode.caseless,
+        dotall: mode.dotall,
+        ignore_space: mode.ignore_space,
+        multiline: mode.multiline,
+        ucp: mode.ucp,
+        utf8: mode.utf8,
+    };
+    Ok((rec.steps, mode))
+}
diff --git a/src/parser/verif_wiring.rs b/src/parser/verif_wiring.rs
new file mode 100644
index 0000000..d67be9b
--- /dev/null
+++ b/src/parser/verif_wiring.rs
@@ -0,0 +1,118 @@
+//! Hooks for the wiring of positions.
+
+use super::{GlushkovBuildState, PosFlags, PositionInfo};
+use crate::nfagraph::NfaBuilder;
+
+pub const NOFLOAT: u32 = 1;
+pub const MUST_FLOAT: u32 = 2;
+pub const MULTILINE_START: u32 = 4;
+
+/// A position: one of the special ones, the empty one, or an ordinary one.
+#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
+pub enum Pos {
+    Start,
+    StartDotStar,
+    Accept,
+    AcceptEod,
+    Epsilon,
+    Plain(u32),
+}
+
+fn flags_of(bits: u32) -> PosFlags {
+    let mut f = PosFlags::empty();
+    if bits & NOFLOAT != 0 {
+        f |= PosFlags::NOFLOAT;
+    }
+    if bits & MUST_FLOAT != 0 {
+        f |= PosFlags::MUST_FLOAT;
+    }
+    if bits & MULTILINE_START != 0 {
+        f |= PosFlags::MULTILINE_START;
+    }
+    f
+}
+
+fn bits_of(f: PosFlags) -> u32 {
+    (if f.contains(PosFlags::NOFLOAT) {
+        NOFLOAT
+    } else {
+        0
+    }) | (if f.contains(PosFlags::MUST_FLOAT) {
+        MUST_FLOAT
+    } else {
+        0
+    }) | (if f.contains(PosFlags::MULTILINE_START) {
+        MULTILINE_START
+    } else {
+        0
+    })
+}
+
+/// The successors of a position with the flags they are reached with.
+pub type Successors = Vec<(Pos, Vec<(Pos, u32)>)>;
+
+/// Makes `plain` positions with the given assert flags, then connects `lasts`
+/// to `firsts` for each of `calls`.
+///
+/// Returns the successors after each call, starting with those of a new state.
+pub fn connect(plain: &[u32], calls: &[(Vec<(Pos, u32)>, Vec<(Pos, u32)>)]) -> Vec<Successors> {
+    let mut builder = NfaBuilder::verif_new();
+    for &f in plain {
+        let p = builder.make_position();
+        builder.verif_set_assert_flags(p, flags_of(f));
+    }
+    let mut bs = super::make_glushkov_build_state(&mut builder);
+    let mut out = vec![successors(&bs)];
+    for (lasts, firsts) in calls {
+        let lasts: Vec<_> = lasts.iter().map(|p| info(&bs, p)).collect();
+        let firsts: Vec<_> = firsts.iter().map(|p| info(&bs, p)).collect();
+        bs.connect_regions(&lasts, &firsts);
+        out.push(successors(&bs));
+    }
+    out
+}
+
+fn info(bs: &GlushkovBuildState, p: &(Pos, u32)) -> PositionInfo {
+    let pos = match p.0 {
+        Pos::Start => bs.get_builder().get_start(),
+        Pos::StartDotStar => bs.get_builder().get_start_dot_star(),
+        Pos::Accept => bs.get_builder().get_accept(),
+        Pos::AcceptEod => bs.get_builder().get_accept_eod(),
+        Pos::Epsilon => GlushkovBuildState::verif_epsilon(),
+        Pos::Plain(n) => super::Position::new(n as usize + 4),
+    };
+    PositionInfo {
+        pos,
+        flags: flags_of(p.1),
+    }
+}
+
+fn successors(bs: &GlushkovBuildState) -> Successors {
+    let b = bs.get_builder();
+    let name = |p: super::Position| {
+        if p == b.get_start() {
+            Pos::Start
+        } else if p == b.get_start_dot_star() {
+            Pos::StartDotStar
+        } else if p == b.get_accept() {
+            Pos::Accept
+        } else if p == b.get_accept_eod() {
+            Pos::AcceptEod
+        } else if p == GlushkovBuildState::verif_epsilon() {
+            Pos::Epsilon
+        } else {
+            Pos::Plain(p.index() as u32 - 4)
+        }
+    };
+    let mut out: Successors = bs
+        .verif_successors()
+        .iter()
+        .map(|(from, to)| {
+            let mut to: Vec<_> = to.iter().map(|i| (name(i.pos), bits_of(i.flags))).collect();
+            to.sort_unstable();
+            (name(*from), to)
+        })
+        .collect();
+    out.sort_unstable();
+    out
+}
-- 
2.43.0


From 37bcedbe467f180db5e5c0a74f61f2b387d565d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 16/21] hooks: observe graph, small-write, runtime choice and
 scan (guarded by cfg rescan_verif)

---
 src/nfagraph/ng.rs                 | 45 ++++++++++++++
 src/nfagraph/ng_holder.rs          | 33 ++++++++++
 src/rose.rs                        |  2 +
 src/rose/verif_rose.rs             | 96 ++++++++++++++++++++++++++++++
 src/scratch.rs                     | 17 ++++++
 src/smallwrite.rs                  |  2 +
 src/smallwrite/smallwrite_build.rs | 38 ++++++++++++
 src/smallwrite/verif_smwr.rs       | 91 ++++++++++++++++++++++++++++
 src/verif/grey.rs                  | 60 +++++++++++++++++++
 src/verif/trace.rs                 | 60 +++++++++++++++++++
 10 files changed, 444 insertions(+)
 create mode 100644 src/rose/verif_rose.rs
 create mode 100644 src/smallwrite/verif_smwr.rs
 create mode 100644 src/verif/grey.rs
 create mode 100644 src/verif/trace.rs

diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index a4e7e7e..e7ed591 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -63,6 +63,9 @@ impl<'a> Ng<'a> {
         expr: &ExpressionInfo,
         _g: &NgHolder,
     ) -> Result<(), CompileError> {
+        #[cfg(rescan_verif = "trace")]
+        Self::verif_graph(expr, _g);
+
         // Register external report and validate highlander constraints.
         self.rm.register_ext_report(
             expr.report,
@@ -84,6 +87,9 @@ impl<'a> Ng<'a> {
         som: SomType,
         quiet: bool,
     ) -> Result<bool, CompileError> {
+        #[cfg(rescan_verif = "trace")]
+        Self::verif_literal(literal, expr_index, external_report, highlander, som, quiet);
+
         debug_assert!(!literal.is_empty());
 
         if !self.cc.grey.shortcut_literals {
@@ -140,3 +146,42 @@ impl<'a> Ng<'a> {
         Ok(true)
     }
 }
+
+#[cfg(rescan_verif = "trace")]
+impl<'a> Ng<'a> {
+    fn verif_graph(expr: &ExpressionInfo, g: &NgHolder) {
+        crate::verif::trace::emit(crate::verif::trace::Event::Graph {
+            expr: crate::verif::trace::Info::of(expr),
+            graph: g.verif_graph(),
+        });
+    }
+
+    fn verif_literal(
+        literal: &Ue2Literal,
+        index: u32,
+        report: u32,
+        highlander: bool,
+        som: SomType,
+        quiet: bool,
+    ) {
+        crate::verif::trace::emit(crate::verif::trace::Event::Literal {
+            bytes: literal.iter().map(|e| (e.c, e.verif_nocase())).collect(),
+            index,
+            report,
+            highlander,
+            som: som != SomType::None,
+            quiet,
+        });
+    }
+
+    pub(crate) fn verif_done(&self) {
+        crate::verif::trace::emit(crate::verif::trace::Event::Done {
+            min_width: self.min_width.verif_value(),
+            external: self.rm.verif_external(),
+            num_reports: self.rm.verif_num_reports(),
+            has_som: self.rose.has_som,
+            smwr: self.smwr.verif_state(),
+            linked: std::ptr::eq(self.smwr.rm.as_ptr(), &self.rm),
+        });
+    }
+}
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 40dabe5..4dc2b15 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -117,3 +117,36 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     let v = NfaGraphVertexProps::default();
     g.add_node(v)
 }
+
+#[cfg(rescan_verif = "trace")]
+impl NgHolder {
+    pub(crate) fn verif_graph(&self) -> crate::verif::trace::Graph {
+        let props: Vec<_> = self.inner.node_indices().map(|v| &self.inner[v]).collect();
+        let mut all_reports: Vec<_> = self.all_reports().into_iter().collect();
+        all_reports.sort_unstable();
+        let mut edges: Vec<_> = self
+            .inner
+            .edge_indices()
+            .filter_map(|e| self.inner.edge_endpoints(e))
+            .map(|(a, b)| (a.index(), b.index()))
+            .collect();
+        edges.sort_unstable();
+        crate::verif::trace::Graph {
+            special: [
+                self.start.index(),
+                self.start_ds.index(),
+                self.accept.index(),
+                self.accept_eod.index(),
+            ],
+            reach: props
+                .iter()
+                .map(|p| (0..=255).filter(|&c| p.char_reach.test(c)).collect())
+                .collect(),
+            asserts: props.iter().map(|p| p.assert_flags.bits()).collect(),
+            reports: props.iter().map(|p| p.reports.len()).collect(),
+            edges,
+            vacuous: self.is_vacuous(),
+            all_reports,
+        }
+    }
+}
diff --git a/src/rose.rs b/src/rose.rs
index 2c639b9..f1fad0d 100644
--- a/src/rose.rs
+++ b/src/rose.rs
@@ -3,6 +3,8 @@ mod rose_build;
 mod rose_build_bytecode;
 mod rose_build_resources;
 mod rose_internal;
+#[cfg(rescan_verif = "rose")]
+pub mod verif_rose;
 
 pub(crate) use block::rose_block_exec;
 pub(crate) use rose_build::RoseBuild;
diff --git a/src/rose/verif_rose.rs b/src/rose/verif_rose.rs
new file mode 100644
index 0000000..dfa1d2c
--- /dev/null
+++ b/src/rose/verif_rose.rs
@@ -0,0 +1,96 @@
+//! Hooks for the choice of the runtime implementation.
+
+use super::rose_build_bytecode::pick_runtime_impl;
+use super::{RoseBuild, RoseEngine, RoseResources, RoseRuntimeImpl};
+use crate::database::{get_bytecode, Database};
+use crate::util::CompileContext;
+use crate::{Grey, Mode};
+
+/// A runtime implementation.
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+pub enum Impl {
+    FullRose,
+    PureLiteral,
+    SingleOutfix,
+}
+
+/// A scanning mode.
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+pub enum Scanning {
+    Block,
+    Stream,
+    Vectored,
+}
+
+/// Resources used at runtime.
+#[allow(clippy::struct_excessive_bools)]
+#[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]
+pub struct Resources {
+    pub has_outfixes: bool,
+    pub has_suffixes: bool,
+    pub has_leftfixes: bool,
+    pub has_literals: bool,
+    pub has_states: bool,
+    pub checks_groups: bool,
+    pub has_lit_delay: bool,
+    pub has_lit_check: bool,
+    pub has_anchored: bool,
+    pub has_anchored_multiple: bool,
+    pub has_anchored_large: bool,
+    pub has_floating: bool,
+    pub has_eod: bool,
+}
+
+fn impl_of(i: &RoseRuntimeImpl) -> Impl {
+    match i {
+        RoseRuntimeImpl::FullRose => Impl::FullRose,
+        RoseRuntimeImpl::PureLiteral => Impl::PureLiteral,
+        RoseRuntimeImpl::SingleOutfix => Impl::SingleOutfix,
+    }
+}
+
+fn engine_of(e: &RoseEngine) -> (Impl, Scanning) {
+    let mode = match e.mode {
+        Mode::Block => Scanning::Block,
+        Mode::Stream(_) => Scanning::Stream,
+        Mode::Vectored => Scanning::Vectored,
+    };
+    (impl_of(&e.runtime_impl), mode)
+}
+
+/// The runtime implementation and scanning mode of a database.
+pub fn engine(db: &Database) -> (Impl, Scanning) {
+    engine_of(get_bytecode(db))
+}
+
+/// Picks the runtime implementation for the given resources.
+pub fn pick(r: &Resources, streaming: bool, vectored: bool, has_som: bool) -> Impl {
+    let grey = Grey::default();
+    let cc = CompileContext::new(streaming, vectored, &grey);
+    let build = RoseBuild { cc: &cc, has_som };
+    let resources = RoseResources {
+        has_outfixes: r.has_outfixes,
+        has_suffixes: r.has_suffixes,
+        has_leftfixes: r.has_leftfixes,
+        has_literals: r.has_literals,
+        has_states: r.has_states,
+        checks_groups: r.checks_groups,
+        has_lit_delay: r.has_lit_delay,
+        has_lit_check: r.has_lit_check,
+        has_anchored: r.has_anchored,
+        has_anchored_multiple: r.has_anchored_multiple,
+        has_anchored_large: r.has_anchored_large,
+        has_floating: r.has_floating,
+        has_eod: r.has_eod,
+    };
+    impl_of(&pick_runtime_impl(&build, &resources))
+}
+
+/// Whether a mode is streaming and vectored, and its bytes of SOM precision.
+pub fn mode_traits(mode: &Mode) -> (bool, bool, usize) {
+    (
+        mode.is_streaming(),
+        mode.is_vectored(),
+        mode.som_precision(),
+    )
+}
diff --git a/src/scratch.rs b/src/scratch.rs
index 3a3a361..2f3564e 100644
--- a/src/scratch.rs
+++ b/src/scratch.rs
@@ -5,3 +5,20 @@ pub(crate) struct CoreInfo {
 pub struct Scratch {
     pub(crate) core_info: CoreInfo,
 }
+
+#[cfg(rescan_verif = "scan")]
+pub mod verif_scan {
+    use super::{CoreInfo, Scratch};
+
+    /// Makes a scratch space with the given state.
+    pub fn scratch(state: *mut u8) -> Scratch {
+        Scratch {
+            core_info: CoreInfo { state },
+        }
+    }
+
+    /// The state of a scratch space.
+    pub fn state(scratch: &Scratch) -> *mut u8 {
+        scratch.core_info.state
+    }
+}
diff --git a/src/smallwrite.rs b/src/smallwrite.rs
index 76fad48..b6a886c 100644
--- a/src/smallwrite.rs
+++ b/src/smallwrite.rs
@@ -1,3 +1,5 @@
 mod smallwrite_build;
+#[cfg(any(rescan_verif = "smwr", rescan_verif = "trace"))]
+pub mod verif_smwr;
 
 pub(crate) use smallwrite_build::SmallWriteBuild;
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index 0d5e401..e3d294a 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -176,3 +176,41 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
 
     trie.inner.node_count() <= MAX_TRIE_VERTICES
 }
+
+#[cfg(any(rescan_verif = "smwr", rescan_verif = "trace"))]
+impl<'a> SmallWriteBuild<'a> {
+    pub(crate) fn verif_state(&self) -> super::verif_smwr::State {
+        let sorted = |s: HashSet<ReportId>| {
+            let mut v: Vec<_> = s.into_iter().collect();
+            v.sort_unstable();
+            v
+        };
+        let trie = |t: &LitTrie| super::verif_smwr::Trie {
+            root: t.root.index(),
+            vertices: t
+                .inner
+                .node_indices()
+                .map(|v| {
+                    let parents = t
+                        .inner
+                        .neighbors_directed(v, Direction::Incoming)
+                        .map(|u| u.index())
+                        .collect();
+                    let props = &t.inner[v];
+                    (props.c, parents, sorted(props.reports.clone()))
+                })
+                .collect(),
+        };
+        super::verif_smwr::State {
+            poisoned: self.poisoned,
+            num_literals: self.num_literals,
+            trie: trie(&self.lit_trie),
+            trie_nocase: trie(&self.lit_trie_nocase),
+            all_reports: (
+                sorted(self.lit_trie.all_reports()),
+                sorted(self.lit_trie_nocase.all_reports()),
+            ),
+            empty: (self.lit_trie.is_empty(), self.lit_trie_nocase.is_empty()),
+        }
+    }
+}
diff --git a/src/smallwrite/verif_smwr.rs b/src/smallwrite/verif_smwr.rs
new file mode 100644
index 0000000..1700f15
--- /dev/null
+++ b/src/smallwrite/verif_smwr.rs
@@ -0,0 +1,91 @@
+//! Hooks for the small-write builder.
+
+#[cfg(rescan_verif = "smwr")]
+use super::SmallWriteBuild;
+#[cfg(rescan_verif = "smwr")]
+use crate::compiler::ExpressionInfo;
+#[cfg(rescan_verif = "smwr")]
+use crate::nfagraph::NgHolder;
+#[cfg(rescan_verif = "smwr")]
+use crate::util::{CompileContext, Ue2Literal};
+#[cfg(rescan_verif = "smwr")]
+use crate::{Grey, SomType};
+
+/// A trie of literals: the byte, parent and sorted reports of each vertex.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct Trie {
+    pub root: usize,
+    pub vertices: Vec<(u8, Vec<usize>, Vec<u32>)>,
+}
+
+/// The state of a small-write builder.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct State {
+    pub poisoned: bool,
+    pub num_literals: usize,
+    pub trie: Trie,
+    pub trie_nocase: Trie,
+    pub all_reports: (Vec<u32>, Vec<u32>),
+    pub empty: (bool, bool),
+}
+
+/// Limits of a small-write builder.
+#[derive(Clone, Copy, Debug)]
+pub struct Limits {
+    pub allow: bool,
+    pub largest_buffer: usize,
+    pub max_patterns: usize,
+    pub max_literals: usize,
+}
+
+#[cfg(rescan_verif = "smwr")]
+pub fn default_limits() -> Limits {
+    let g = Grey::default();
+    Limits {
+        allow: g.allow_small_write,
+        largest_buffer: g.small_write_largest_buffer,
+        max_patterns: g.small_write_max_patterns,
+        max_literals: g.small_write_max_literals,
+    }
+}
+
+/// A small-write builder.
+#[cfg(rescan_verif = "smwr")]
+pub struct Builder<'a>(SmallWriteBuild<'a>);
+
+#[cfg(rescan_verif = "smwr")]
+pub fn with_builder<R>(
+    num_patterns: usize,
+    limits: Limits,
+    f: impl FnOnce(&mut Builder<'_>) -> R,
+) -> R {
+    let grey = Grey {
+        allow_small_write: limits.allow,
+        small_write_largest_buffer: limits.largest_buffer,
+        small_write_max_patterns: limits.max_patterns,
+        small_write_max_literals: limits.max_literals,
+        ..Grey::default()
+    };
+    let cc = CompileContext::new(false, false, &grey);
+    f(&mut Builder(SmallWriteBuild::new(num_patterns, &cc)))
+}
+
+#[cfg(rescan_verif = "smwr")]
+impl<'a> Builder<'a> {
+    pub fn add_literal(&mut self, bytes: &[(u8, bool)], report: u32) {
+        let mut lit = Ue2Literal::default();
+        for &(c, nocase) in bytes {
+            lit.push(c, nocase);
+        }
+        self.0.add_literal(&lit, report);
+    }
+    /// Adds an expression which wants the start of match.
+    pub fn add_som_expression(&mut self) {
+        let mut expr = ExpressionInfo::verif_default();
+        expr.som = SomType::Left;
+        self.0.add_expression(&NgHolder::new(), &expr);
+    }
+    pub fn state(&self) -> State {
+        self.0.verif_state()
+    }
+}
diff --git a/src/verif/grey.rs b/src/verif/grey.rs
new file mode 100644
index 0000000..e1672ea
--- /dev/null
+++ b/src/verif/grey.rs
@@ -0,0 +1,60 @@
+//! Compilation with other tuning knobs and limits.
+
+use crate::{CompileError, Database, Flags, Grey, Mode};
+
+/// Tuning knobs and limits.
+#[allow(clippy::struct_excessive_bools)]
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+pub struct Knobs {
+    pub allow_literal: bool,
+    pub flood_as_puffette: bool,
+    pub shortcut_literals: bool,
+    pub allow_small_write: bool,
+    pub small_write_largest_buffer: usize,
+    pub small_write_max_patterns: usize,
+    pub small_write_max_literals: usize,
+    pub limit_pattern_count: usize,
+    pub limit_pattern_length: usize,
+    pub limit_report_count: usize,
+}
+
+impl Default for Knobs {
+    fn default() -> Self {
+        let g = Grey::default();
+        Self {
+            allow_literal: g.allow_literal,
+            flood_as_puffette: g.flood_as_puffette,
+            shortcut_literals: g.shortcut_literals,
+            allow_small_write: g.allow_small_write,
+            small_write_largest_buffer: g.small_write_largest_buffer,
+            small_write_max_patterns: g.small_write_max_patterns,
+            small_write_max_literals: g.small_write_max_literals,
+            limit_pattern_count: g.limit_pattern_count,
+            limit_pattern_length: g.limit_pattern_length,
+            limit_report_count: g.limit_report_count,
+        }
+    }
+}
+
+/// Compiles expressions with the given knobs.
+pub fn compile_multi(
+    expressions: &[&str],
+    flags: &[Flags],
+    ids: &[u32],
+    mode: &Mode,
+    k: &Knobs,
+) -> Result<Database, CompileError> {
+    let g = Grey {
+        allow_literal: k.allow_literal,
+        flood_as_puffette: k.flood_as_puffette,
+        shortcut_literals: k.shortcut_literals,
+        allow_small_write: k.allow_small_write,
+        small_write_largest_buffer: k.small_write_largest_buffer,
+        small_write_max_patterns: k.small_write_max_patterns,
+        small_write_max_literals: k.small_write_max_literals,
+        limit_pattern_count: k.limit_pattern_count,
+        limit_pattern_length: k.limit_pattern_length,
+        limit_report_count: k.limit_report_count,
+    };
+    crate::compile_multi_int(expressions, flags, ids, mode, &g)
+}
diff --git a/src/verif/trace.rs b/src/verif/trace.rs
new file mode 100644
index 0000000..c351b2e
--- /dev/null
+++ b/src/verif/trace.rs
@@ -0,0 +1,60 @@
+//! Events of a compilation, in the order they happen on this thread.
+
+pub use crate::compiler::verif_expr::Info;
+pub use crate::smallwrite::verif_smwr::{State as SmallWrite, Trie};
+use std::cell::RefCell;
+
+/// A graph: its special vertices, the members and assert flags of each vertex,
+/// the number of reports of each vertex, and its edges.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct Graph {
+    /// `start`, `start_ds`, `accept` and `accept_eod`.
+    pub special: [usize; 4],
+    pub reach: Vec<Vec<u8>>,
+    pub asserts: Vec<u32>,
+    pub reports: Vec<usize>,
+    pub edges: Vec<(usize, usize)>,
+    pub vacuous: bool,
+    pub all_reports: Vec<u32>,
+}
+
+/// An event.
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
+pub enum Event {
+    /// A literal is offered to the literal matcher.
+    Literal {
+        bytes: Vec<(u8, bool)>,
+        index: u32,
+        report: u32,
+        highlander: bool,
+        som: bool,
+        quiet: bool,
+    },
+    /// A graph is added.
+    Graph { expr: Info, graph: Graph },
+    /// All expressions were added.
+    Done {
+        /// The shortest literal, or `None` if infinite.
+        min_width: Option<u32>,
+        /// Registered external IDs, and whether all are exhaustible.
+        external: (Vec<(u32, bool, u32)>, bool),
+        num_reports: usize,
+        has_som: bool,
+        smwr: SmallWrite,
+        /// The small-write builder refers to the report manager next to it.
+        linked: bool,
+    },
+}
+
+thread_local! {
+    static EVENTS: RefCell<Vec<Event>> = RefCell::new(Vec::new());
+}
+
+pub(crate) fn emit(e: Event) {
+    EVENTS.with(|v| v.borrow_mut().push(e));
+}
+
+/// Takes the events of this thread since the last call.
+pub fn take() -> Vec<Event> {
+    EVENTS.with(|v| std::mem::take(&mut *v.borrow_mut()))
+}
-- 
2.43.0


From 2f614d4dcd0c2b25cab56c0eb3827ee00d59e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 17/21] fix: let ALLOWEMPTY allow a vacuous expression

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 06412e2..5caccc9 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -30,7 +30,7 @@ impl ParsedExpression {
         let mut expr = ExpressionInfo {
             index,
             report: id,
-            allow_vacuous: false,
+            allow_vacuous: flags.contains(Flags::ALLOWEMPTY),
             highlander: flags.contains(Flags::SINGLEMATCH),
             utf8: false,
             prefilter: flags.contains(Flags::PREFILTER),
-- 
2.43.0


From 8a603e1f1d5e5fc474521923491f273a459a21ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 18/21] hooks: split the trace into parts (guarded by cfg
 rescan_verif)

---
 src/nfagraph/ng.rs                 | 18 +++++++++++++++++-
 src/nfagraph/ng_holder.rs          |  2 +-
 src/parser/build_state.rs          |  7 +++++--
 src/smallwrite/smallwrite_build.rs | 10 +++-------
 src/smallwrite/verif_smwr.rs       |  7 +++++++
 src/util/report_manager.rs         |  2 +-
 src/verif.rs                       |  3 ++-
 7 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index e7ed591..2b65e9d 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -149,10 +149,14 @@ impl<'a> Ng<'a> {
 
 #[cfg(rescan_verif = "trace")]
 impl<'a> Ng<'a> {
+    #[allow(unused_variables)]
     fn verif_graph(expr: &ExpressionInfo, g: &NgHolder) {
         crate::verif::trace::emit(crate::verif::trace::Event::Graph {
             expr: crate::verif::trace::Info::of(expr),
+            #[cfg(rescan_verif = "trace_graph")]
             graph: g.verif_graph(),
+            #[cfg(not(rescan_verif = "trace_graph"))]
+            graph: Default::default(),
         });
     }
 
@@ -177,11 +181,23 @@ impl<'a> Ng<'a> {
     pub(crate) fn verif_done(&self) {
         crate::verif::trace::emit(crate::verif::trace::Event::Done {
             min_width: self.min_width.verif_value(),
+            has_som: self.rose.has_som,
+            #[cfg(rescan_verif = "trace_reports")]
             external: self.rm.verif_external(),
+            #[cfg(rescan_verif = "trace_reports")]
             num_reports: self.rm.verif_num_reports(),
-            has_som: self.rose.has_som,
+            #[cfg(not(rescan_verif = "trace_reports"))]
+            external: Default::default(),
+            #[cfg(not(rescan_verif = "trace_reports"))]
+            num_reports: 0,
+            #[cfg(rescan_verif = "trace_smwr")]
             smwr: self.smwr.verif_state(),
+            #[cfg(not(rescan_verif = "trace_smwr"))]
+            smwr: Default::default(),
+            #[cfg(rescan_verif = "trace_link")]
             linked: std::ptr::eq(self.smwr.rm.as_ptr(), &self.rm),
+            #[cfg(not(rescan_verif = "trace_link"))]
+            linked: true,
         });
     }
 }
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 4dc2b15..30793af 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -118,7 +118,7 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     g.add_node(v)
 }
 
-#[cfg(rescan_verif = "trace")]
+#[cfg(rescan_verif = "trace_graph")]
 impl NgHolder {
     pub(crate) fn verif_graph(&self) -> crate::verif::trace::Graph {
         let props: Vec<_> = self.inner.node_indices().map(|v| &self.inner[v]).collect();
diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index 191e7e5..58380e7 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -118,7 +118,10 @@ impl<'a> GlushkovBuildState<'a> {
         Self::pos_epsilon()
     }
 
-    pub(in crate::parser) fn verif_successors(&self) -> &HashMap<Position, HashSet<PositionInfo>> {
-        &self.successors
+    pub(in crate::parser) fn verif_successors(&self) -> Vec<(Position, Vec<PositionInfo>)> {
+        self.successors
+            .iter()
+            .map(|(from, to)| (*from, to.iter().copied().collect()))
+            .collect()
     }
 }
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index e3d294a..9638e49 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -177,14 +177,10 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
     trie.inner.node_count() <= MAX_TRIE_VERTICES
 }
 
-#[cfg(any(rescan_verif = "smwr", rescan_verif = "trace"))]
+#[cfg(any(rescan_verif = "smwr", rescan_verif = "trace_smwr"))]
 impl<'a> SmallWriteBuild<'a> {
     pub(crate) fn verif_state(&self) -> super::verif_smwr::State {
-        let sorted = |s: HashSet<ReportId>| {
-            let mut v: Vec<_> = s.into_iter().collect();
-            v.sort_unstable();
-            v
-        };
+        use super::verif_smwr::sorted;
         let trie = |t: &LitTrie| super::verif_smwr::Trie {
             root: t.root.index(),
             vertices: t
@@ -197,7 +193,7 @@ impl<'a> SmallWriteBuild<'a> {
                         .map(|u| u.index())
                         .collect();
                     let props = &t.inner[v];
-                    (props.c, parents, sorted(props.reports.clone()))
+                    (props.c, parents, sorted(props.reports.iter().copied()))
                 })
                 .collect(),
         };
diff --git a/src/smallwrite/verif_smwr.rs b/src/smallwrite/verif_smwr.rs
index 1700f15..1bfd3e4 100644
--- a/src/smallwrite/verif_smwr.rs
+++ b/src/smallwrite/verif_smwr.rs
@@ -29,6 +29,13 @@ pub struct State {
     pub empty: (bool, bool),
 }
 
+#[cfg(any(rescan_verif = "smwr", rescan_verif = "trace_smwr"))]
+pub(crate) fn sorted(reports: impl IntoIterator<Item = u32>) -> Vec<u32> {
+    let mut v: Vec<_> = reports.into_iter().collect();
+    v.sort_unstable();
+    v
+}
+
 /// Limits of a small-write builder.
 #[derive(Clone, Copy, Debug)]
 pub struct Limits {
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index 2e1283a..1a67229 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -146,7 +146,7 @@ impl<'a> ReportManager<'a> {
     }
 }
 
-#[cfg(any(rescan_verif = "trace", rescan_verif = "report"))]
+#[cfg(any(rescan_verif = "trace_reports", rescan_verif = "report"))]
 impl<'a> ReportManager<'a> {
     /// Registered external IDs in order, and whether all are exhaustible.
     pub(crate) fn verif_external(&self) -> (Vec<(u32, bool, u32)>, bool) {
diff --git a/src/verif.rs b/src/verif.rs
index 7858a64..fe4092a 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,7 +1,8 @@
 //! Observation hooks for runtime monitoring.
 //!
 //! Nothing here is compiled unless the `rescan_verif` cfg is set. Each group
-//! of hooks is selected with its own value (`--cfg rescan_verif="parse"`).
+//! of hooks is selected with its own value (`--cfg rescan_verif="parse"`). The
+//! groups `trace_*` fill in parts of the events of `trace`.
 
 #[cfg(rescan_verif = "trace")]
 pub mod trace;
-- 
2.43.0


From e91245e66aaf22d30f7c4d2c40d6d7c9c7805b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:44 +0000
Subject: [PATCH 19/21] hooks: observe graphs and the steps between children
 (guarded by cfg rescan_verif)

---
 src/nfagraph.rs              |  2 ++
 src/nfagraph/ng_holder.rs    | 11 +++++++++++
 src/nfagraph/verif_holder.rs | 38 ++++++++++++++++++++++++++++++++++++
 src/parser/verif_parse.rs    | 35 ++++++++++++++++++++++++++++++---
 src/smallwrite/verif_smwr.rs | 26 ++++++++++++++++++++++++
 src/verif.rs                 |  3 +++
 6 files changed, 112 insertions(+), 3 deletions(-)
 create mode 100644 src/nfagraph/verif_holder.rs

diff --git a/src/nfagraph.rs b/src/nfagraph.rs
index f8b94b7..8748fa7 100644
--- a/src/nfagraph.rs
+++ b/src/nfagraph.rs
@@ -1,6 +1,8 @@
 mod ng;
 mod ng_builder;
 mod ng_holder;
+#[cfg(rescan_verif = "holder")]
+pub mod verif_holder;
 
 pub(crate) use ng::Ng;
 pub(crate) use ng_builder::{make_nfa_builder, NfaBuilder};
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 30793af..9440f3a 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -118,6 +118,17 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     g.add_node(v)
 }
 
+#[cfg(rescan_verif = "holder")]
+impl NgHolder {
+    pub(in crate::nfagraph) fn verif_add_edge(&mut self, from: NfaVertex, to: NfaVertex) {
+        self.inner.add_edge(from, to, NfaGraphEdgeProps::default());
+    }
+
+    pub(in crate::nfagraph) fn verif_add_report(&mut self, v: NfaVertex, id: ReportId) {
+        self.inner[v].reports.insert(id);
+    }
+}
+
 #[cfg(rescan_verif = "trace_graph")]
 impl NgHolder {
     pub(crate) fn verif_graph(&self) -> crate::verif::trace::Graph {
diff --git a/src/nfagraph/verif_holder.rs b/src/nfagraph/verif_holder.rs
new file mode 100644
index 0000000..425df11
--- /dev/null
+++ b/src/nfagraph/verif_holder.rs
@@ -0,0 +1,38 @@
+//! Hooks for graphs.
+
+use super::{NfaVertex, NgHolder};
+
+/// A graph. Vertices are numbered, the special ones first.
+pub struct Holder(pub(crate) NgHolder);
+
+impl Holder {
+    pub fn new() -> Self {
+        Self(NgHolder::new())
+    }
+    /// `start`, `start_ds`, `accept` and `accept_eod`.
+    pub fn special(&self) -> [usize; 4] {
+        let g = &self.0;
+        [g.start, g.start_ds, g.accept, g.accept_eod].map(NfaVertex::index)
+    }
+    pub fn num_vertices(&self) -> usize {
+        self.0.num_vertices()
+    }
+    pub fn add_vertex(&mut self) -> usize {
+        self.0.add_vertex().index()
+    }
+    pub fn add_edge(&mut self, from: usize, to: usize) {
+        self.0
+            .verif_add_edge(NfaVertex::new(from), NfaVertex::new(to));
+    }
+    pub fn add_report(&mut self, v: usize, id: u32) {
+        self.0.verif_add_report(NfaVertex::new(v), id);
+    }
+    pub fn is_vacuous(&self) -> bool {
+        self.0.is_vacuous()
+    }
+    pub fn all_reports(&self) -> Vec<u32> {
+        let mut v: Vec<_> = self.0.all_reports().into_iter().collect();
+        v.sort_unstable();
+        v
+    }
+}
diff --git a/src/parser/verif_parse.rs b/src/parser/verif_parse.rs
index 83c5cf8..1cf4b60 100644
--- a/src/parser/verif_parse.rs
+++ b/src/parser/verif_parse.rs
@@ -30,9 +30,19 @@ pub struct Mode {
     pub utf8: bool,
 }
 
+/// Of what a walk has passed from one child to the next.
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+pub enum Between {
+    /// Of a class, after as many steps of the walk.
+    Class(usize),
+    Alternation(usize),
+    Sequence(usize),
+}
+
 #[derive(Default)]
 struct Recorder {
     steps: Vec<Step>,
+    between: std::cell::RefCell<Vec<Between>>,
 }
 
 impl ConstComponentVisitor for Recorder {
@@ -51,9 +61,18 @@ impl ConstComponentVisitor for Recorder {
         self.steps.push(Step::Sequence(c.capture_index));
         Ok(())
     }
-    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
-    fn during_component_alternation(&self, _c: &ComponentAlternation) {}
-    fn during_component_sequence(&self, _c: &ComponentSequence) {}
+    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {
+        let n = self.steps.len();
+        self.between.borrow_mut().push(Between::Class(n));
+    }
+    fn during_component_alternation(&self, _c: &ComponentAlternation) {
+        let n = self.steps.len();
+        self.between.borrow_mut().push(Between::Alternation(n));
+    }
+    fn during_component_sequence(&self, _c: &ComponentSequence) {
+        let n = self.steps.len();
+        self.between.borrow_mut().push(Between::Sequence(n));
+    }
     fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
     fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
         self.steps.push(Step::EndAlternation);
@@ -63,6 +82,16 @@ impl ConstComponentVisitor for Recorder {
     }
 }
 
+/// Parses an expression, walks its tree and tells where it passed from one
+/// child to the next.
+pub fn between(expression: &str, flags: Flags) -> Result<(Vec<Step>, Vec<Between>), String> {
+    let mut mode = ParseMode::new(flags);
+    let root = parse(expression, &mut mode).map_err(|e| e.to_string())?;
+    let mut rec = Recorder::default();
+    walk_component(&mut rec, &root).expect("the recorder never fails");
+    Ok((rec.steps, rec.between.into_inner()))
+}
+
 /// Parses an expression and walks its tree.
 pub fn tree(expression: &str, flags: Flags) -> Result<(Vec<Step>, Mode), String> {
     let mut mode = ParseMode::new(flags);
diff --git a/src/smallwrite/verif_smwr.rs b/src/smallwrite/verif_smwr.rs
index 1bfd3e4..081ae01 100644
--- a/src/smallwrite/verif_smwr.rs
+++ b/src/smallwrite/verif_smwr.rs
@@ -92,6 +92,32 @@ impl<'a> Builder<'a> {
         expr.som = SomType::Left;
         self.0.add_expression(&NgHolder::new(), &expr);
     }
+    /// Adds an expression with the given graph, the IDs of whose reports are
+    /// indexes into the (distinct) minimum lengths.
+    #[cfg(rescan_verif = "holder")]
+    pub fn add_expression(
+        &mut self,
+        graph: &crate::nfagraph::verif_holder::Holder,
+        som: bool,
+        min_lengths: &[u64],
+    ) {
+        let grey = Grey::default();
+        let mut rm = crate::util::ReportManager::new(&grey);
+        for &min_length in min_lengths {
+            rm.get_internal_id(&crate::util::Report { min_length })
+                .expect("within limits");
+        }
+        let mut expr = ExpressionInfo::verif_default();
+        expr.som = if som { SomType::Left } else { SomType::None };
+        let before = std::mem::replace(&mut self.0.rm, std::ptr::NonNull::from(&rm).cast());
+        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
+            self.0.add_expression(&graph.0, &expr)
+        }));
+        self.0.rm = before;
+        if let Err(e) = res {
+            std::panic::resume_unwind(e);
+        }
+    }
     pub fn state(&self) -> State {
         self.0.verif_state()
     }
diff --git a/src/verif.rs b/src/verif.rs
index fe4092a..6051c16 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -34,6 +34,9 @@ pub use crate::parser::verif_wiring as wiring;
 #[cfg(rescan_verif = "expr")]
 pub use crate::compiler::verif_expr as expr;
 
+#[cfg(rescan_verif = "holder")]
+pub use crate::nfagraph::verif_holder as holder;
+
 #[cfg(rescan_verif = "smwr")]
 pub use crate::smallwrite::verif_smwr as smwr;
 
-- 
2.43.0


From e78666cd24d6b47f0cbbf20b23f6c162c4cf2742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:49 +0000
Subject: [PATCH 20/21] hooks: observe components of any shape (guarded by cfg
 rescan_verif)

---
 src/compiler.rs                 |  2 +
 src/compiler/verif_component.rs | 57 +++++++++++++++++++++++
 src/parser.rs                   |  4 +-
 src/parser/component_class.rs   |  7 +++
 src/parser/verif_component.rs   | 82 +++++++++++++++++++++++++++++++++
 src/parser/verif_parse.rs       | 12 +++--
 src/verif.rs                    |  3 ++
 7 files changed, 162 insertions(+), 5 deletions(-)
 create mode 100644 src/compiler/verif_component.rs
 create mode 100644 src/parser/verif_component.rs

diff --git a/src/compiler.rs b/src/compiler.rs
index 5caccc9..6878f5b 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1,4 +1,6 @@
 mod expression_info;
+#[cfg(rescan_verif = "component")]
+pub mod verif_component;
 #[cfg(any(rescan_verif = "expr", rescan_verif = "trace"))]
 pub mod verif_expr;
 
diff --git a/src/compiler/verif_component.rs b/src/compiler/verif_component.rs
new file mode 100644
index 0000000..f453990
--- /dev/null
+++ b/src/compiler/verif_component.rs
@@ -0,0 +1,57 @@
+//! Hooks for compiling components of any shape.
+
+use super::{build_graph, ExpressionInfo, ParsedExpression};
+use crate::nfagraph::Ng;
+use crate::parser::shortcut_literal;
+use crate::parser::verif_component::{component, Node};
+use crate::util::CompileContext;
+use crate::{Grey, SomType};
+
+/// What is given with a component.
+#[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]
+pub struct Given {
+    pub report: u32,
+    pub highlander: bool,
+    pub som: bool,
+    pub quiet: bool,
+}
+
+/// Adds components to a builder, as the expressions of a set, and tells which
+/// of them were taken as literals.
+pub fn add(set: &[(Node, Given)]) -> Result<Vec<bool>, String> {
+    let grey = Grey::default();
+    let cc = CompileContext::new(false, false, &grey);
+    let mut ng = Ng::new(&cc, set.len(), 0);
+    let mut literals = vec![];
+    for (index, (node, given)) in set.iter().enumerate() {
+        let expr = ExpressionInfo {
+            index,
+            report: given.report,
+            allow_vacuous: false,
+            highlander: given.highlander,
+            utf8: false,
+            prefilter: false,
+            som: if given.som {
+                SomType::Left
+            } else {
+                SomType::None
+            },
+            quiet: given.quiet,
+        };
+        let mut pe = ParsedExpression {
+            expr,
+            component: component(node),
+        };
+        let literal = shortcut_literal(&mut ng, &pe).map_err(|e| e.to_string())?;
+        if !literal {
+            let built = build_graph(&mut pe);
+            unsafe { ng.as_mut().get_unchecked_mut() }
+                .add_graph(&built.expr, &built.g)
+                .map_err(|e| e.to_string())?;
+        }
+        literals.push(literal);
+    }
+    #[cfg(rescan_verif = "trace")]
+    ng.verif_done();
+    Ok(literals)
+}
diff --git a/src/parser.rs b/src/parser.rs
index ecb1be7..501a0c3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -13,9 +13,11 @@ mod position;
 mod position_info;
 mod prefilter;
 mod shortcut_literal;
+#[cfg(rescan_verif = "component")]
+pub mod verif_component;
 #[cfg(rescan_verif = "dump")]
 pub mod verif_dump;
-#[cfg(rescan_verif = "parse")]
+#[cfg(any(rescan_verif = "parse", rescan_verif = "component"))]
 pub mod verif_parse;
 #[cfg(rescan_verif = "wiring")]
 pub mod verif_wiring;
diff --git a/src/parser/component_class.rs b/src/parser/component_class.rs
index b560542..c050134 100644
--- a/src/parser/component_class.rs
+++ b/src/parser/component_class.rs
@@ -59,3 +59,10 @@ pub(crate) fn walk_component_class<V: ConstComponentVisitor>(
         ComponentClass::Ascii(c) => walk_ascii_component_class(v, c),
     }
 }
+
+#[cfg(rescan_verif = "component")]
+impl ComponentClass {
+    pub(super) fn verif_add(&mut self, c: char) -> Result<(), CompileError> {
+        self.add(c)
+    }
+}
diff --git a/src/parser/verif_component.rs b/src/parser/verif_component.rs
new file mode 100644
index 0000000..a9d3d53
--- /dev/null
+++ b/src/parser/verif_component.rs
@@ -0,0 +1,82 @@
+//! Hooks for components of any shape.
+
+use super::ascii_component_class::AsciiComponentClass;
+use super::component_class::{get_component_class, ComponentClass};
+pub use super::verif_parse::{Between, Step};
+use super::{Component, ComponentAlternation, ComponentSequence, ParseMode};
+
+/// A component.
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
+pub enum Node {
+    /// A class with the given members.
+    Class(Vec<u8>),
+    Sequence(Sequence),
+    Alternation(Vec<Sequence>),
+}
+
+/// A sequence of components.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct Sequence {
+    pub capture_index: Option<u32>,
+    pub capture_name: Option<String>,
+    pub children: Vec<Node>,
+}
+
+fn sequence(s: &Sequence) -> ComponentSequence {
+    let mut out = ComponentSequence::default();
+    out.capture_index = s.capture_index;
+    out.capture_name = s.capture_name.clone();
+    for c in &s.children {
+        out.add_component(component(c));
+    }
+    out
+}
+
+pub(crate) fn component(n: &Node) -> Component {
+    match n {
+        Node::Class(members) => {
+            let mut class = AsciiComponentClass::new(ParseMode::default());
+            for &c in members {
+                class.cr.set(c);
+            }
+            ComponentClass::Ascii(class).into()
+        }
+        Node::Sequence(s) => sequence(s).into(),
+        Node::Alternation(branches) => {
+            let mut out = ComponentAlternation::default();
+            for s in branches {
+                out.append(sequence(s));
+            }
+            Component::Alternation(out)
+        }
+    }
+}
+
+/// The members of a class to which the given characters are added.
+pub fn class(caseless: bool, chars: &[char]) -> Result<Vec<u8>, String> {
+    let mode = ParseMode {
+        caseless,
+        ..ParseMode::default()
+    };
+    let mut class = get_component_class(mode);
+    for &c in chars {
+        class.verif_add(c).map_err(|e| e.to_string())?;
+    }
+    let ComponentClass::Ascii(class) = class;
+    Ok((0..=255).filter(|&b| class.cr.test(b)).collect())
+}
+
+/// A walk over a component.
+pub fn walk(n: &Node) -> (Vec<Step>, Vec<Between>) {
+    super::verif_parse::walk(&component(n))
+}
+
+/// The text form of a component.
+#[cfg(rescan_verif = "dump")]
+pub fn text(n: &Node) -> String {
+    let mut out = String::new();
+    super::dump::dump_tree(&mut out, &component(n)).expect("writing to a string");
+    out
+}
+
+pub use crate::compiler::verif_component::{add, Given};
diff --git a/src/parser/verif_parse.rs b/src/parser/verif_parse.rs
index 1cf4b60..2e5ea06 100644
--- a/src/parser/verif_parse.rs
+++ b/src/parser/verif_parse.rs
@@ -2,8 +2,8 @@
 
 use super::ascii_component_class::AsciiComponentClass;
 use super::{
-    parse, walk_component, ComponentAlternation, ComponentSequence, ConstComponentVisitor,
-    ParseMode,
+    parse, walk_component, Component, ComponentAlternation, ComponentSequence,
+    ConstComponentVisitor, ParseMode,
 };
 use crate::Flags;
 
@@ -87,9 +87,13 @@ impl ConstComponentVisitor for Recorder {
 pub fn between(expression: &str, flags: Flags) -> Result<(Vec<Step>, Vec<Between>), String> {
     let mut mode = ParseMode::new(flags);
     let root = parse(expression, &mut mode).map_err(|e| e.to_string())?;
+    Ok(walk(&root))
+}
+
+pub(super) fn walk(root: &Component) -> (Vec<Step>, Vec<Between>) {
     let mut rec = Recorder::default();
-    walk_component(&mut rec, &root).expect("the recorder never fails");
-    Ok((rec.steps, rec.between.into_inner()))
+    walk_component(&mut rec, root).expect("the recorder never fails");
+    (rec.steps, rec.between.into_inner())
 }
 
 /// Parses an expression and walks its tree.
diff --git a/src/verif.rs b/src/verif.rs
index 6051c16..5829a60 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -25,6 +25,9 @@ pub mod dump {
     pub use crate::util::verif_dump::class_text;
 }
 
+#[cfg(rescan_verif = "component")]
+pub use crate::parser::verif_component as component;
+
 #[cfg(rescan_verif = "parse")]
 pub use crate::parser::verif_parse as parse;
 
-- 
2.43.0


From 4ca8985b7d82c4bf9cb0af37151788278ff23338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:18 +0000
Subject: [PATCH 21/21] hooks: observe exhaustion keys (guarded by cfg
 rescan_verif)

---
 src/nfagraph/ng.rs         |  2 ++
 src/util/report_manager.rs | 11 +++++++++++
 src/verif/trace.rs         |  3 +++
 3 files changed, 16 insertions(+)

diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2b65e9d..e9012cc 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -179,6 +179,8 @@ impl<'a> Ng<'a> {
     }
 
     pub(crate) fn verif_done(&self) {
+        #[cfg(rescan_verif = "trace_keys")]
+        crate::verif::trace::emit(crate::verif::trace::Event::Keys(self.rm.verif_keys()));
         crate::verif::trace::emit(crate::verif::trace::Event::Done {
             min_width: self.min_width.verif_value(),
             has_som: self.rose.has_som,
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index 1a67229..df0d597 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -163,3 +163,14 @@ impl<'a> ReportManager<'a> {
         self.report_ids.len()
     }
 }
+
+#[cfg(rescan_verif = "trace_keys")]
+impl<'a> ReportManager<'a> {
+    /// Exhaustion keys by match ID, in order.
+    pub(crate) fn verif_keys(&self) -> Vec<(i64, u32)> {
+        let keys = self.to_exhaustible_key_map.iter();
+        let mut v: Vec<_> = keys.map(|(&id, &key)| (id, key)).collect();
+        v.sort_unstable();
+        v
+    }
+}
diff --git a/src/verif/trace.rs b/src/verif/trace.rs
index c351b2e..b1c9af2 100644
--- a/src/verif/trace.rs
+++ b/src/verif/trace.rs
@@ -32,6 +32,9 @@ pub enum Event {
     },
     /// A graph is added.
     Graph { expr: Info, graph: Graph },
+    /// The exhaustion keys given to match IDs, at the end.
+    #[cfg(rescan_verif = "trace_keys")]
+    Keys(Vec<(i64, u32)>),
     /// All expressions were added.
     Done {
         /// The shortest literal, or `None` if infinite.
-- 
2.43.0

