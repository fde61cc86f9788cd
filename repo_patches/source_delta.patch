From 0b04f831a84bf11487f832b67390277ae7622caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 01/90] fix: abe replace with an empty pattern never terminates

---
 crates/abe/src/scope/bytes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 442da63..1038edd 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -125,6 +125,9 @@ impl EvalScopeImpl for BytesFE {
     }
 }
 fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
+    if from.is_empty() {
+        return b.to_vec();
+    }
     let mut r = Vec::with_capacity(b.len());
     while let Some((h, rest)) = b.split_first() {
         match b.strip_prefix(from) {
-- 
2.43.0


From 2abe522826210d07364caf2811b81311b8db9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 02/90] fix: abe slice overflows on large bounds and steps

---
 crates/abe/src/scope/bytes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 1038edd..8289942 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -182,10 +182,10 @@ pub fn slice<'o, F>(
     let to_bound = |v: Option<SignedInt>| -> Option<isize> {
         match v {
             Some(SignedInt { neg: false, val }) => {
-                Some((val as isize).clamp(sb.min(eb), sb.max(eb)))
+                Some(isize::try_from(val).unwrap_or(isize::MAX).clamp(sb.min(eb), sb.max(eb)))
             }
             Some(SignedInt { neg: true, val }) => {
-                Some((len - val as isize).clamp(sb.min(eb), sb.max(eb)))
+                Some((len - isize::try_from(val).unwrap_or(isize::MAX)).clamp(sb.min(eb), sb.max(eb)))
             }
             None => None,
         }
@@ -199,7 +199,7 @@ pub fn slice<'o, F>(
             return None;
         }
         let result = bytes.get(i as usize)?;
-        i += step;
+        i = i.saturating_add(step);
         Some(result)
     }))
 }
-- 
2.43.0


From ddd1c67272fd2878b84161d35c6e4131170d9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 03/90] fix: abe padding to an unallocatable length returns an
 error

---
 crates/abe/src/scope/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 8289942..50b25f5 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -54,7 +54,9 @@ impl EvalScopeImpl for BytesFE {
             if padb.len() != 1 {
                 return Err(anyhow!("pad byte should be a single byte"));
             };
-            let mut v = vec![padb[0]; len];
+            let mut v = vec![];
+            v.try_reserve_exact(len)?;
+            v.resize(len, padb[0]);
             if !left {
                 &mut v[0..bytes.len()]
             } else {
-- 
2.43.0


From 9c82b49532842a2b5a646e012724e6ae203a28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 04/90] fix: abe + and - panic on zero length operands

---
 crates/abe/src/scope/uint.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/abe/src/scope/uint.rs b/crates/abe/src/scope/uint.rs
index 2a7489c..e702798 100644
--- a/crates/abe/src/scope/uint.rs
+++ b/crates/abe/src/scope/uint.rs
@@ -16,7 +16,9 @@ where
 pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
+    let Some(mut idx) = bytes.len().checked_sub(1) else {
+        return carry;
+    };
     loop {
         let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
         bytes[idx] = ni;
@@ -31,7 +33,9 @@ pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
 pub fn carry_sub_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
+    let Some(mut idx) = bytes.len().checked_sub(1) else {
+        return carry;
+    };
     loop {
         let (ni, nc) = bytes[idx].borrowing_sub(val[idx], carry);
         bytes[idx] = ni;
-- 
2.43.0


From a2260f74312aa34c53f5a0b076e8b7a3a1294f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 05/90] fix: abe b2 and b16 encode bytes they can not decode

---
 crates/abe/src/scope/base.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/abe/src/scope/base.rs b/crates/abe/src/scope/base.rs
index 88ba3a4..abe3be6 100644
--- a/crates/abe/src/scope/base.rs
+++ b/crates/abe/src/scope/base.rs
@@ -31,6 +31,10 @@ fn enc_bin(bytes: &[u8], opts: &[ABE], radix: u32) -> ApplyResult<String> {
     if !len_set.is_empty() && !len_set.contains(&bytes.len()) {
         return ApplyResult::NoValue;
     }
+    // decoding goes through an u128 and drops leading zero bytes
+    if bytes.is_empty() || bytes.len() > 16 || (bytes.len() > 1 && bytes[0] == 0) {
+        return ApplyResult::NoValue;
+    }
     use std::fmt::Write;
     match radix {
         2 => {
-- 
2.43.0


From 77a3a031b92398cc18ac264168e781ab1630e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 06/90] fix: ABList::pop_front panics on an empty list

---
 crates/abe/src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/abe/src/eval.rs b/crates/abe/src/eval.rs
index 9655a37..837be34 100644
--- a/crates/abe/src/eval.rs
+++ b/crates/abe/src/eval.rs
@@ -270,7 +270,7 @@ impl ABList {
         self.0
     }
     pub fn pop_front(&mut self) -> Option<ABLV> {
-        self.0.splice(0..1, None).next()
+        (!self.0.is_empty()).then(|| self.0.remove(0))
     }
 }
 pub type ApplyErr = anyhow::Error;
-- 
2.43.0


From b5590e709b47d7c35fe629cbb1c80f654de080d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 07/90] fix: replace_abe panics on an empty pattern

---
 crates/abe/src/ast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index 3b33bbd..b71ce9e 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -629,6 +629,9 @@ pub fn print_abe<B: std::borrow::Borrow<ABE>>(v: impl IntoIterator<Item = B>) ->
 
 /// replace occurances of pattern with new. Checked depth first with no overlap
 pub fn replace_abe(inp: &mut Vec<ABE>, pattern: &[ABE], new: &[ABE]) {
+    if pattern.is_empty() {
+        return;
+    }
     for el in inp.iter_mut() {
         if let ABE::Expr(Expr::Lst(ref mut lst)) = el {
             replace_abe(lst, pattern, new)
-- 
2.43.0


From f839c4ff44eafe26892432c32ffa9ef9d7939804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 08/90] fix: ABConf lookups misplace the value of an entry, or
 miss it

---
 crates/abe/src/abconf.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 348f1cc..a6ff2d5 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -25,6 +25,11 @@ pub fn parse_ablist_b(st: &[u8]) -> anyhow::Result<crate::eval::ABList> {
         .map_err(|e| anyhow::anyhow!("expr not supported - {e}"))
 }
 
+/// 1 if the list starts with a delimiter, i.e. has an extra empty first component
+fn leading(lst: &ABList) -> usize {
+    usize::from(lst.first().is_some_and(|c| c.0.is_some()))
+}
+
 impl ABConf {
     pub const DEFAULT: Self = ABConf(vec![]);
 
@@ -57,7 +62,7 @@ impl ABConf {
         starts_with: &[&[u8]],
     ) -> Option<Result<Option<&[u8]>, &ABList>> {
         match &self.get_checked(starts_with).next()? {
-            Ok(lst) => match &lst[starts_with.len() - 1..] {
+            Ok(lst) => match &lst[starts_with.len().saturating_sub(leading(lst))..] {
                 [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
                 [] => Some(Ok(None)),
                 _ => Some(Err(lst)),
@@ -86,7 +91,7 @@ impl ABConf {
         starts_with: &'b [&[u8]],
     ) -> impl Iterator<Item = &'a ABList> + 'b {
         self.0.iter().rev().filter(move |a| {
-            if a.len() < starts_with.len() {
+            if a.len() + leading(a) < starts_with.len() {
                 return false;
             }
             let ok = starts_with
-- 
2.43.0


From 397a3ad8a88a7c163987aeb1db6039830b18bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 09/90] fix: deeply nested abe brackets overflow the stack

---
 crates/abe/src/ast.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index b71ce9e..3b75a92 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -382,8 +382,13 @@ pub enum ASTParseError {
     UnmatchedOpen,
     #[error("Newline in brackets")]
     NewlineInBrackets,
+    #[error("Brackets nested more than {} deep", MAX_NESTING)]
+    NestedTooDeep,
 }
 
+/// Max bracket depth. Building, printing, and evaluating an expression recurses for every level.
+pub const MAX_NESTING: usize = 128;
+
 mod collect {
     use std::iter::Peekable;
 
@@ -456,6 +461,9 @@ pub fn parse_abe_strict_b(st: &[u8]) -> Result<Vec<ABE>, ASTParseError> {
                 todo = rest;
                 // Open Brackets increase the depth, and match their close brackets
                 match kind {
+                    CtrChar::OpenBracket if depth == MAX_NESTING => {
+                        return Err(ASTParseError::NestedTooDeep)
+                    }
                     CtrChar::OpenBracket => depth += 1,
                     CtrChar::CloseBracket if depth == 0 => {
                         return Err(ASTParseError::UnmatchedClose)
@@ -509,6 +517,9 @@ pub fn parse_abe_with_unencoded_b(st: &[u8]) -> Result<Vec<ABE>, ASTParseError>
                 todo = rest;
                 // Open Brackets increase the depth, and match their close brackets
                 match kind {
+                    CtrChar::OpenBracket if depth == MAX_NESTING => {
+                        return Err(ASTParseError::NestedTooDeep)
+                    }
                     CtrChar::OpenBracket => depth += 1,
                     CtrChar::CloseBracket if depth == 0 => {
                         return Err(ASTParseError::UnmatchedClose)
-- 
2.43.0


From 2e6927d3667610f904e9f3fa655569561a411e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 10/90] fix: recursive abe evaluation overflows the stack

---
 crates/abe/src/eval.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/eval.rs b/crates/abe/src/eval.rs
index 837be34..091219d 100644
--- a/crates/abe/src/eval.rs
+++ b/crates/abe/src/eval.rs
@@ -3,7 +3,7 @@
 // This Source Code Form is subject to the terms of the Mozilla Public
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
-use std::cell::LazyCell;
+use std::cell::{Cell, LazyCell};
 use std::ops::{ControlFlow, Deref, Try};
 use std::rc::Rc;
 use std::sync::Arc;
@@ -804,6 +804,29 @@ impl<A: Scope> Scope for anyhow::Result<A> {
     }
 }
 
+/// Evaluation can recurse through functions ( e.g. `[eval:[0]]` with argv[0] = `[eval:[0]]` ).
+/// Bounded like the nesting of what is parsed.
+const MAX_EVAL_NESTING: usize = MAX_NESTING;
+thread_local! {
+    static EVAL_NESTING: Cell<usize> = const { Cell::new(0) };
+}
+struct NestingGuard;
+impl NestingGuard {
+    fn enter() -> Result<Self, EvalError> {
+        let nesting = EVAL_NESTING.get();
+        if nesting >= MAX_EVAL_NESTING {
+            return Err(EvalError::Other(anyhow!("evaluation nested too deep")));
+        }
+        EVAL_NESTING.set(nesting + 1);
+        Ok(NestingGuard)
+    }
+}
+impl Drop for NestingGuard {
+    fn drop(&mut self) {
+        EVAL_NESTING.set(EVAL_NESTING.get() - 1)
+    }
+}
+
 fn match_expr(depth: usize, scope: &dyn Scope, expr: &ABE) -> Result<ABItem, EvalError> {
     match expr {
         ABE::Ctr(c) => {
@@ -816,6 +839,7 @@ fn match_expr(depth: usize, scope: &dyn Scope, expr: &ABE) -> Result<ABItem, Eva
         }
         ABE::Expr(Expr::Lst(ls)) => {
             dbgprintln!("Match lst[{}] (depth={depth})", ls.len());
+            let _nesting = NestingGuard::enter()?;
             let inner_abl = match ls.as_slice() {
                 [ABE::Ctr(Ctr::FSlash), ref tail @ ..] => {
                     let (id, rest): (&[u8], &[ABE]) = match tail {
@@ -953,6 +977,8 @@ pub fn encode_abe(
     options: &[ABE],
     ignore_encoder_errors: bool,
 ) -> std::result::Result<String, EncodeError> {
+    // an encoding has to be evaluable where it is made
+    drop(NestingGuard::enter().map_err(|e| EncodeError::OptionError(e.into()))?);
     // TODO options should prob be ABList
     let mut it = options.split(|v| v.is_fslash());
     if options.is_empty() {
-- 
2.43.0


From 85dcf30e4de56b25a98bde26cbe04fb4e23a7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 11/90] fix: AB::write_abe escapes its bytes twice

---
 crates/byte-fmt/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/byte-fmt/src/lib.rs b/crates/byte-fmt/src/lib.rs
index c7a5042..d561d86 100644
--- a/crates/byte-fmt/src/lib.rs
+++ b/crates/byte-fmt/src/lib.rs
@@ -159,12 +159,10 @@ where
     fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
         let (max_padded, bytes) = self.x_prefix_cut();
         let mode = if max_padded { MAX_STR } else { "a" };
-        let st = abe::abtxt::as_abtxt(bytes);
-        let st: &str = st.borrow();
         if self.as_ref().len() == 16 {
-            abe::abe!({ mode : st  }).for_each(out)
+            abe::abe!({ mode : bytes  }).for_each(out)
         } else {
-            abe::abe!({ mode : st : (self.as_ref().len().to_string()) }).for_each(out)
+            abe::abe!({ mode : bytes : (self.as_ref().len().to_string()) }).for_each(out)
         }
     }
     fn to_abe_str(&self) -> String {
-- 
2.43.0


From 9fe98344d62e066f06db6276892669bb8007b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 12/90] fix: a partial record in the bus port map misaligns new
 records

---
 crates/ipcbus/src/udp_procbus.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index daaba3f..47a96c8 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -35,6 +35,8 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
             }
         }
     };
+    // drop a partially written record, or the next one would be misaligned
+    bytes.truncate(bytes.len() / 10 * 10);
     let mut new_port = 10501;
     for b in bytes.chunks_exact(10) {
         let saved_port = u16::from_ne_bytes([b[8], b[9]]);
-- 
2.43.0


From eefce5f8f462176bae6fa1926e1f9d06453f1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 13/90] fix: a crash while writing the bus port map loses the
 ports of other buses

---
 crates/ipcbus/src/udp_procbus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 47a96c8..8ed5e48 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -48,7 +48,10 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
     bytes.extend(bus_id.to_ne_bytes());
     new_port = new_port.saturating_add(1);
     bytes.extend(new_port.to_ne_bytes());
-    std::fs::write(&path, bytes).unwrap();
+    // replace the map in one step: a crash while writing it must not lose the other ports
+    let tmp = std::env::temp_dir().join("procbus.map.tmp");
+    std::fs::write(&tmp, bytes).unwrap();
+    std::fs::rename(&tmp, &path).unwrap();
     lockfile.unlock().unwrap();
     Ok(new_port)
 }
-- 
2.43.0


From 03691efa40730615ec86ed9e4fef18356f68a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 14/90] fix: a malformed datagram stops the bus thread

---
 crates/ipcbus/src/udp_procbus.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 8ed5e48..563a2b6 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -131,6 +131,10 @@ impl ProcBus {
         self.0.listener.get_or_init(move || {
             let this = ProcBus(self.0.clone());
             self.0.udp.rx_thread(move |b| {
+                if b.len() != 20 {
+                    tracing::warn!(len = b.len(), "ignoring malformed bus message");
+                    return;
+                }
                 let (busid, rest) = b.split_at(8);
                 let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                 if busid != this.0.bus_id {
-- 
2.43.0


From f608965e1bf2f0232148e9c059d7a9595abeb939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 15/90] fix: a point length smaller than its own header is
 accepted and read out of bounds

---
 crates/pkt/src/point.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/point.rs b/crates/pkt/src/point.rs
index 2769730..cf66618 100644
--- a/crates/pkt/src/point.rs
+++ b/crates/pkt/src/point.rs
@@ -67,6 +67,9 @@ impl PointHeader {
         if self.reserved != 0 {
             return Err(Error::HeaderReservedSet(self.reserved));
         }
+        if (self.upoint_size() as usize) < size_of::<PointHeader>() {
+            return Err(Error::ContentLen);
+        }
         let len = self.ucontent_size() as usize;
         if len > MAX_CONTENT_SIZE {
             return Err(Error::ContentLen);
-- 
2.43.0


From 0d055f575e056020883a201f868ec2f680f3b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 16/90] fix: the depth of a full rooted space name is never
 checked

---
 crates/pkt/src/rooted_space.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/rooted_space.rs b/crates/pkt/src/rooted_space.rs
index 84a622e..4d017c4 100644
--- a/crates/pkt/src/rooted_space.rs
+++ b/crates/pkt/src/rooted_space.rs
@@ -231,6 +231,9 @@ impl RootedSpace {
             }
             i += 1;
         }
+        if len != 8 {
+            return Err(SpaceError::EmptyComponentIdx);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 18c90867c8126303f5b360f9892b1e58a84c1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 17/90] fix: validating a point with a malformed space name
 panics in debug builds

---
 crates/pkt/src/point_ptr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pkt/src/point_ptr.rs b/crates/pkt/src/point_ptr.rs
index f182c6c..2d73de9 100644
--- a/crates/pkt/src/point_ptr.rs
+++ b/crates/pkt/src/point_ptr.rs
@@ -165,7 +165,13 @@ impl PointThinPtr {
                 if link_size % u16::try_from(size_of::<Link>()).unwrap() != 0 {
                     return Err(Error::IndivisableLinkbytes);
                 }
-                unsafe { self.unchecked_tail() }.rspace.check_components()?;
+                let rspace = unsafe {
+                    let ptr = self.self_ptr();
+                    core::slice::from_ptr_range(
+                        ptr.add(isp_offset.into())..ptr.add(data_offset.into()),
+                    )
+                };
+                RootedSpace::from(rspace)?;
                 padding
             }
             BarePointFields::Error { padding, .. } => padding,
-- 
2.43.0


From 7478fb123b16d2117a0ff78bdf2ee3ae894e6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 18/90] fix: boxed packets are freed with another layout than
 they were allocated with

---
 crates/pkt/src/netpkt/netpkt_ptr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/netpkt/netpkt_ptr.rs b/crates/pkt/src/netpkt/netpkt_ptr.rs
index 7483735..39ded1d 100644
--- a/crates/pkt/src/netpkt/netpkt_ptr.rs
+++ b/crates/pkt/src/netpkt/netpkt_ptr.rs
@@ -213,9 +213,10 @@ pub fn netpktbox_layout(
     pkt_header: &PointHeader,
 ) -> (std::alloc::Layout, <NetPktFatPtr as ptr::Pointee>::Metadata) {
     use std::alloc::Layout;
-    let clen: usize = pkt_header.padded_content_size().div_ceil(8).into();
+    // must equal Layout::for_value of the resulting NetPktFatPtr, that is what Box frees
+    let clen: usize = pkt_header.padded_content_size().into();
     let layout = Layout::new::<PartialNetHeader>()
-        .extend(Layout::new::<u64>().repeat(clen).unwrap().0)
+        .extend(Layout::array::<u8>(clen).unwrap())
         .unwrap()
         .0
         .pad_to_align();
-- 
2.43.0


From 34a9b5acba8517b37b10e06eb8315b13ff2707ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 19/90] fix: the maximum data size of a keypoint ignores the
 linkpoint header

---
 crates/pkt/src/consts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/consts.rs b/crates/pkt/src/consts.rs
index 278179c..dd6940c 100644
--- a/crates/pkt/src/consts.rs
+++ b/crates/pkt/src/consts.rs
@@ -17,7 +17,7 @@ pub const MAX_CONTENT_SIZE: usize = MAX_POINT_SIZE - size_of::<PointHeader>();
 
 pub const MAX_DATA_SIZE: usize = MAX_CONTENT_SIZE;
 pub const MAX_LINKPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<LinkPointHeader>();
-pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<Signed>();
+pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_LINKPOINT_DATA_SIZE - size_of::<Signed>();
 pub const MAX_LINKS_LEN: usize = (MAX_POINT_SIZE - MAX_SPACENAME_SIZE) / size_of::<Link>();
 pub const MAX_SPACENAME_SIZE: usize = 242;
 pub const MAX_ROOTED_SPACENAME_SIZE: usize = MAX_SPACENAME_SIZE + 8;
-- 
2.43.0


From cbcb956b6b93ff24440119b941f34fe17db6fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 20/90] fix: rerouting a keypoint in parts drops its signature
 (or panics)

---
 crates/pkt/src/byte_segments.rs  | 20 ++++++++++++--------
 crates/pkt/src/netpkt/reroute.rs |  4 ++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/pkt/src/byte_segments.rs b/crates/pkt/src/byte_segments.rs
index fb5fa7b..232919c 100644
--- a/crates/pkt/src/byte_segments.rs
+++ b/crates/pkt/src/byte_segments.rs
@@ -6,7 +6,7 @@
 Utility to create packets from multiple byte slices without allocating.
 **/
 #[derive(Clone, Debug)]
-pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 8]);
+pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 9]);
 
 impl<'a> ExactSizeIterator for ByteSegments<'a> {
     #[inline(always)]
@@ -16,7 +16,7 @@ impl<'a> ExactSizeIterator for ByteSegments<'a> {
     }
     #[inline]
     fn is_empty(&self) -> bool {
-        self.0 == [&[] as &[u8]; 8]
+        self.0 == [&[] as &[u8]; 9]
     }
 }
 
@@ -62,6 +62,10 @@ impl<'a> Iterator for ByteSegments<'a> {
             self.0[7] = tail;
             return Some(*h);
         }
+        if let Some((h, tail)) = self.0[8].split_first() {
+            self.0[8] = tail;
+            return Some(*h);
+        }
         None
     }
 }
@@ -79,7 +83,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const fn from_array<const N: usize>(segments: [&'a [u8]; N]) -> Self {
         assert!(N < 8, "not supported");
-        let mut r: [&'a [u8]; 8] = [&[]; 8];
+        let mut r: [&'a [u8]; 9] = [&[]; 9];
         let mut i = 0;
         while i < N {
             r[i] = segments[i];
@@ -95,12 +99,12 @@ impl<'a> ByteSegments<'a> {
     #[must_use]
     #[inline(always)]
     pub(crate) fn push_front(self, head: &'a [u8]) -> Self {
-        let [a, b, c, d, e, f, g, h] = self.0;
+        let [a, b, c, d, e, f, g, h, i] = self.0;
         debug_assert!(
-            h.is_empty(),
+            i.is_empty(),
             "segmented packet construction stacked to deep"
         );
-        ByteSegments([head, a, b, c, d, e, f, g])
+        ByteSegments([head, a, b, c, d, e, f, g, h])
     }
     #[inline]
     pub fn to_bytes(self) -> Box<[u8]> {
@@ -113,7 +117,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const unsafe fn write_segments_unchecked(self, mut dest: *mut u8) -> *mut u8 {
         let mut i = 0;
-        while i < 8 {
+        while i < 9 {
             let len = self.0[i].len();
             if len > 0 {
                 core::ptr::copy_nonoverlapping(self.0[i].as_ptr(), dest, len);
@@ -124,7 +128,7 @@ impl<'a> ByteSegments<'a> {
         dest
     }
     #[inline(always)]
-    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 8] {
+    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 9] {
         self.0.map(std::io::IoSlice::new)
     }
     #[inline(always)]
diff --git a/crates/pkt/src/netpkt/reroute.rs b/crates/pkt/src/netpkt/reroute.rs
index 7fb3d30..96c06ec 100644
--- a/crates/pkt/src/netpkt/reroute.rs
+++ b/crates/pkt/src/netpkt/reroute.rs
@@ -45,6 +45,10 @@ impl<T: NetPkt + ?Sized> NetPkt for ReroutePkt<T> {
     fn byte_segments(&self) -> ByteSegments {
         let mut segm = self.pkt.byte_segments();
         segm.0[0] = &segm.0[0][size_of::<NetPktHeader>()..];
+        if segm.0[0].is_empty() {
+            segm.0[0] = self.net_header.as_bytes();
+            return segm;
+        }
         segm.push_front(self.net_header.as_bytes())
     }
     fn as_netbox(&self) -> crate::NetPktBox {
-- 
2.43.0


From b770523b045986ed75c6c7d454ecc8776ed43a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 21/90] fix: names of more than eight components are accepted
 (and cut short when rooted)

---
 crates/pkt/src/space.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index a193cb5..c5141a6 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -209,13 +209,8 @@ impl SpaceBuf {
         mut self,
         i: impl IntoIterator<Item = impl AsRef<[u8]>>,
     ) -> Result<Self, SpaceError> {
-        let mut depth = self.iter().count();
         for s in i.into_iter() {
             self = self.try_push(s.as_ref())?;
-            depth += 1;
-        }
-        if depth > MAX_SPACE_DEPTH {
-            return Err(SpaceError::MaxDepth);
         }
         Ok(self)
     }
@@ -252,6 +247,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + p.inner_bytes.len() > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() + p.iter().count() > MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(0..0, p.inner_bytes.iter().cloned());
         Ok(self)
     }
@@ -265,6 +263,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.push(component.len().try_into().unwrap());
         self.inner_bytes.extend_from_slice(component);
         Ok(self)
@@ -283,6 +284,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(
             0..0,
             [component.len().try_into().unwrap()]
@@ -333,6 +337,7 @@ impl Space {
             }
         }
     }
+    #[allow(clippy::as_conversions)]
     pub const fn check_components(&self) -> Result<u8, SpaceError> {
         match self.checked_iter() {
             Err(e) => Err(e),
@@ -343,6 +348,9 @@ impl Space {
                         Ok((_, next_it)) => iter = next_it,
                         Err(e) => return Err(e),
                     }
+                    if i as usize == MAX_SPACE_DEPTH {
+                        return Err(SpaceError::MaxDepth);
+                    }
                     i += 1;
                 }
                 Ok(i)
@@ -712,6 +720,9 @@ impl Space {
                 count += 1;
             }
         }
+        if it.next().is_some() {
+            return Err(SpaceError::MaxDepth);
+        }
         data[0] = count;
         let v = RootedSpaceBuf::from_unchecked(data);
         debug_assert!(
-- 
2.43.0


From 5972c009eda70f1779aed666c8da6a50de840932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 22/90] fix: the components of a space name are always refused

---
 crates/pkt/src/space.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index c5141a6..b7fd4d3 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -227,13 +227,8 @@ impl SpaceBuf {
     }
 
     pub fn components(&self) -> Result<Vec<Vec<u8>>, SpaceError> {
-        let iter = self.as_ref().iter();
-        let res = iter.map(Vec::from).collect();
-        if iter.space.inner_bytes.is_empty() {
-            Ok(res)
-        } else {
-            Err(SpaceError::TailLength)
-        }
+        self.check_components()?;
+        Ok(self.as_space().iter().map(Vec::from).collect())
     }
     /// Panics if the component is larger then 250 bytes;
     pub fn push(self, s: impl AsRef<[u8]>) -> Self {
-- 
2.43.0


From d7036b4eb6b3144795bb5d16df47d07b32c558bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 23/90] fix: [si:..] always reads past the last component and
 panics

---
 crates/pkt/src/space_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/space_fmt.rs b/crates/pkt/src/space_fmt.rs
index 3784f2c..64ce6e8 100644
--- a/crates/pkt/src/space_fmt.rs
+++ b/crates/pkt/src/space_fmt.rs
@@ -317,7 +317,7 @@ impl EvalScopeImpl for SpaceFE {
                 .map(|i| parse_b::<usize>(i))
                 .transpose()?
                 .unwrap_or(start + 1)
-                .max(9);
+                .min(8);
             ensure!(start <= 8, "space max depth is 8");
             ensure!(end >= start, "end < start");
             Ok(start..end)
-- 
2.43.0


From 9083c1d37a85ae60182953e9ff96975151c3f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 24/90] fix: the html view of a packet writes unterminated
 entities

---
 crates/pkt/src/repr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/pkt/src/repr.rs b/crates/pkt/src/repr.rs
index 4cd479b..99ee5f1 100644
--- a/crates/pkt/src/repr.rs
+++ b/crates/pkt/src/repr.rs
@@ -223,9 +223,9 @@ impl<X: Display> Display for EscapeHTML<X> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         for ch in self.0.to_string().chars() {
             match ch {
-                '&' => f.write_str("&amp")?,
-                '<' => f.write_str("&lt")?,
-                '>' => f.write_str("&gt")?,
+                '&' => f.write_str("&amp;")?,
+                '<' => f.write_str("&lt;")?,
+                '>' => f.write_str("&gt;")?,
                 o => write!(f, "{o}")?,
             }
         }
-- 
2.43.0


From 40a42bc915b8d7244e2847945023a7fc8d727a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 25/90] fix: the bytes of a space component have no expression
 form

---
 crates/pkt/src/field_ids.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/pkt/src/field_ids.rs b/crates/pkt/src/field_ids.rs
index 5f26920..61d9ec7 100644
--- a/crates/pkt/src/field_ids.rs
+++ b/crates/pkt/src/field_ids.rs
@@ -117,6 +117,10 @@ impl FieldEnum {
                 U16::try_from(abl).ok().map(|v| v.to_abe())
             }
             FieldEnum::DomainF => Domain::try_from(abl).ok().map(|v| v.to_abe()),
+            FieldEnum::SpaceNameF => SpaceBuf::try_from(abl).ok().map(|v| v.to_abe()),
+
+            FieldEnum::RSpaceNameF => RootedSpaceBuf::try_from(abl).ok().map(|v| v.to_abe()),
+            FieldEnum::SignatureF => Signature::try_from(abl).ok().map(|v| v.to_abe()),
             FieldEnum::SpaceComp0F
             | FieldEnum::SpaceComp1F
             | FieldEnum::SpaceComp2F
@@ -125,11 +129,7 @@ impl FieldEnum {
             | FieldEnum::SpaceComp5F
             | FieldEnum::SpaceComp6F
             | FieldEnum::SpaceComp7F
-            | FieldEnum::SpaceNameF => SpaceBuf::try_from(abl).ok().map(|v| v.to_abe()),
-
-            FieldEnum::RSpaceNameF => RootedSpaceBuf::try_from(abl).ok().map(|v| v.to_abe()),
-            FieldEnum::SignatureF => Signature::try_from(abl).ok().map(|v| v.to_abe()),
-            FieldEnum::DataF => Some(abl.into()),
+            | FieldEnum::DataF => Some(abl.into()),
         }
     }
 }
-- 
2.43.0


From 4eb7621c5251a44c9f553578f0bdda8f526d0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 26/90] fix: contradicting mask predicates are an empty set
 instead of a panic

---
 crates/core/src/predicate/value_test.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index fc73bfe..2f85ca0 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -549,6 +549,9 @@ impl<U: UInt> TestSet<U> {
         !self.has_any()
     }
     pub fn min_value(&self) -> Option<U> {
+        if !self.mask.has_any() {
+            return None;
+        }
         let v = self.mask.in_set(self.bound.low)?;
         if self.bound.high < v {
             None
-- 
2.43.0


From 9cf18435d4e654b962b193381a618c0f5797a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 27/90] fix: Bound::try_combine refuses every disjoint pair

---
 crates/core/src/predicate/value_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index 2f85ca0..32515e3 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -657,7 +657,7 @@ impl<U: UInt> TestSet<U> {
 impl<U: UInt> Bound<U> {
     pub fn try_combine(self, other: Self) -> anyhow::Result<Self> {
         anyhow::ensure!(self.high >= other.low);
-        anyhow::ensure!(other.low <= self.high);
+        anyhow::ensure!(other.high >= self.low);
         Ok(Bound {
             high: self.high.min(other.high),
             low: self.low.max(other.low),
-- 
2.43.0


From d5ca567cb6777b261327b73cd3eeea0dc073afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 28/90] fix: the set of all depths includes the maximum depth

---
 crates/core/src/predicate/bitset_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/bitset_test.rs b/crates/core/src/predicate/bitset_test.rs
index 7882bbb..598e0aa 100644
--- a/crates/core/src/predicate/bitset_test.rs
+++ b/crates/core/src/predicate/bitset_test.rs
@@ -48,7 +48,7 @@ impl FromStr for BitTestSet {
 
 impl<const MAX: u8> BitTestSet<MAX> {
     pub const NONE: BitTestSet<MAX> = BitTestSet(u32::MIN);
-    pub const ALL: BitTestSet<MAX> = BitTestSet(u32::MAX >> (32 - MAX));
+    pub const ALL: BitTestSet<MAX> = BitTestSet(u32::MAX >> (31 - MAX));
     pub fn greater_eq(ge: u32) -> Self {
         match u32::MAX.checked_shl(ge) {
             Some(g) => Self::ALL.and(BitTestSet(g)),
-- 
2.43.0


From 7ad62428f80be198c746fdf546083da3bcf5191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 29/90] fix: UInt::checked_sub of the native integers is
 implemented

---
 crates/core/src/predicate/uint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/predicate/uint.rs b/crates/core/src/predicate/uint.rs
index 1b7572e..00a2510 100644
--- a/crates/core/src/predicate/uint.rs
+++ b/crates/core/src/predicate/uint.rs
@@ -75,8 +75,8 @@ macro_rules! impl_native_uint {
             fn checked_add(self, other: Self) -> Option<Self> {
                 self.checked_add(other)
             }
-            fn checked_sub(self, _other: Self) -> Option<Self> {
-                todo!()
+            fn checked_sub(self, other: Self) -> Option<Self> {
+                self.checked_sub(other)
             }
 
             fn inc(self) -> Option<Self> {
-- 
2.43.0


From 54b0572a32961863361edddf62552512b6e68537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 30/90] fix: i_branch is ignored outside of the tree index

---
 crates/core/src/env/lmdb/queries.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 7392685..172d3b1 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -159,8 +159,6 @@ impl<'txn> ReadTxn<'txn> {
         let log_range = recv.stamp_range(ord.is_asc());
         let it = self.log_range(log_range);
 
-        let nth_find_set = rules.state.i_branch.iter(0);
-        let it = it.zip(nth_find_set).filter_map(|(v, ok)| ok.then_some(v));
         let it = it.filter(move |pkt| tests.test(**pkt));
 
         let nth_log_set = rules.state.i_db.iter(0);
-- 
2.43.0


From 25de575ccf735fdb4f173609c8c4f593b042cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 31/90] fix: log queries respect both ends of the recv bound

---
 crates/core/src/env/lmdb/db.rs  | 16 +++++++++++++---
 crates/core/src/env/lmdb/get.rs |  5 +++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 4f22170..0ea76b8 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -230,10 +230,20 @@ impl<'txn> PktLogCursor<'txn> {
     }
     pub(crate) fn range_uniq_rev(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
         let start = *start;
-        let it = match self.0.get(Some(&pktlog::bytes(start)), None, ffi::MDB_LAST) {
-            Ok(_) | Err(Error::NotFound) => Iter::Ok {
+        // position at the last entry not after start
+        let op = match self
+            .0
+            .get(Some(&pktlog::bytes(start)), None, ffi::MDB_SET_RANGE)
+        {
+            Ok((Some(k), _)) if pktlog::val(k.try_into().unwrap()) > start => Ok(ffi::MDB_PREV),
+            Ok(_) => Ok(ffi::MDB_GET_CURRENT),
+            Err(Error::NotFound) => Ok(ffi::MDB_LAST),
+            Err(error) => Err(error),
+        };
+        let it = match op {
+            Ok(op) => Iter::Ok {
                 cursor: self.0,
-                op: ffi::MDB_GET_CURRENT,
+                op,
                 next_op: ffi::MDB_PREV,
             },
             Err(error) => Iter::Err(error),
diff --git a/crates/core/src/env/lmdb/get.rs b/crates/core/src/env/lmdb/get.rs
index d5e8f91..8ed349c 100644
--- a/crates/core/src/env/lmdb/get.rs
+++ b/crates/core/src/env/lmdb/get.rs
@@ -62,7 +62,7 @@ impl<'env> ReadTxn<'env> {
     }
     pub fn log_range(&self, q: StampRange) -> impl Iterator<Item = RecvPktPtr> {
         let dir = IterDirection::from(q.start, q.end);
-        if dir.is_forward() {
+        let it = if dir.is_forward() {
             Either::Left(self.0.pkt_cursor().range_uniq(&q.start).map(as_recv_ptr))
         } else {
             Either::Right(
@@ -71,7 +71,8 @@ impl<'env> ReadTxn<'env> {
                     .range_uniq_rev(&q.start)
                     .map(as_recv_ptr),
             )
-        }
+        };
+        it.take_while(move |pkt| q.contains(pkt.recv))
     }
 
     pub fn local_pkt_log(&self, from: Stamp) -> impl Iterator<Item = RecvPktPtr> {
-- 
2.43.0


From e14526ee992ef04122576abe46a58612b7ba5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 32/90] fix: >= and <= at the extreme of a value keep its point
 type, and handle empty and short values

---
 crates/core/src/predicate/exprs.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/predicate/exprs.rs b/crates/core/src/predicate/exprs.rs
index f6f2992..ccb8502 100644
--- a/crates/core/src/predicate/exprs.rs
+++ b/crates/core/src/predicate/exprs.rs
@@ -104,28 +104,34 @@ impl From<Predicate> for ExtPredicate {
 impl ExtPredicate {
     pub fn try_iter(self) -> Result<impl Iterator<Item = Predicate>, TestEvalErr> {
         let ExtPredicate { kind, op, mut val } = self;
-        let once_op: Option<TestOp> = match op {
+        let op: TestOp = match op {
             ExtendedTestOp::GreaterEq => {
-                if val.len() != 1 {
+                if val.len() != 1 || val[0].1.is_empty() {
                     return Err(TestEvalErr::Err("Can't >= this value"));
                 }
                 if super::uint::u8_be::sub_one(&mut val.get_mut()[0].1).is_some() {
-                    Some(TestOp::Greater)
+                    TestOp::Greater
                 } else {
-                    None
+                    // always true, but the field can still imply a point type
+                    TestOp::Nop
                 }
             }
             ExtendedTestOp::LessEq => {
-                if val.len() != 1 {
+                if val.len() != 1 || val[0].1.is_empty() {
                     return Err(TestEvalErr::Err("Can't <= this value"));
                 }
-                if super::uint::u8_be::add_one(&mut val.get_mut()[0].1).is_some() {
-                    Some(TestOp::Less)
+                let bytes = &mut val.get_mut()[0].1;
+                if super::uint::u8_be::add_one(bytes).is_some() {
+                    TestOp::Less
+                } else if kind.fixed_size().is_some_and(|size| bytes.len() < size) {
+                    // a short value, e.g. a domain without its padding
+                    bytes.insert(0, 1);
+                    TestOp::Less
                 } else {
-                    None
+                    TestOp::Nop
                 }
             }
-            ExtendedTestOp::Op(op) => Some(op),
+            ExtendedTestOp::Op(op) => op,
             ExtendedTestOp::TailMask | ExtendedTestOp::HeadMask => {
                 let e = || TestEvalErr::Err("head/tail mask can only apply to fixed len fields");
                 let size = kind.fixed_size().ok_or(e())?;
@@ -165,7 +171,7 @@ impl ExtPredicate {
             }
         };
         Ok(Either::Left(
-            once_op.map(|op| Predicate { kind, op, val }).into_iter(),
+            std::iter::once(Predicate { kind, op, val }),
         ))
     }
 }
-- 
2.43.0


From 505f4efd87bb38f88b713c69d71e5da5448ad338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 33/90] fix: the hash index can be walked in descending order

---
 crates/core/src/env/lmdb/db.rs      | 24 +++++++++++++++
 crates/core/src/env/lmdb/queries.rs | 47 ++++++++++++++---------------
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 0ea76b8..7124029 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -283,6 +283,30 @@ impl<'txn> HashCursor<'txn> {
             (k.try_into().unwrap(), v)
         })
     }
+    pub(crate) fn range_uniq_rev(
+        self,
+        start: &[u8; 32],
+    ) -> impl Iterator<Item = (&'txn [u8; 32], u64)> {
+        // position at the last entry not after start
+        let op = match self.0.get(Some(start), None, ffi::MDB_SET_RANGE) {
+            Ok((Some(k), _)) if k > start.as_slice() => Ok(ffi::MDB_PREV),
+            Ok(_) => Ok(ffi::MDB_GET_CURRENT),
+            Err(Error::NotFound) => Ok(ffi::MDB_LAST),
+            Err(error) => Err(error),
+        };
+        let it = match op {
+            Ok(op) => Iter::Ok {
+                cursor: self.0,
+                op,
+                next_op: ffi::MDB_PREV,
+            },
+            Err(error) => Iter::Err(error),
+        };
+        it.map_while(|kv| kv.ok()).map(|(k, v)| {
+            let v = u64::from_ne_bytes(v.try_into().unwrap());
+            (k.try_into().unwrap(), v)
+        })
+    }
     pub(crate) fn read_uniq(&self, key: &[u8; 32]) -> Result<Option<u64>> {
         match self.0.get(Some(key), None, ffi::MDB_SET) {
             Err(lmdb::Error::NotFound) => Ok(None),
diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 172d3b1..122fd7a 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -172,32 +172,29 @@ impl<'txn> ReadTxn<'txn> {
         ord: Order,
     ) -> impl Iterator<Item = Stamp> + '_ {
         use crate::predicate::value_test::*;
-        match ord {
-            Order::Asc => {
-                let TestSet {
-                    bound:
-                        Bound {
-                            low: greater_eq,
-                            high: less_eq,
-                        },
-                    mask,
-                } = hashset;
-                if mask != Mask::DEFAULT {
-                    tracing::warn!("todo impl hash mask jumping");
-                }
-                let greater_eq: B64<[u8; 32]> = greater_eq.into();
-                self.0
-                    .hash_cursor()
-                    .range_uniq(&greater_eq)
-                    .map(|(hash, stamp)| (B64(*hash).into(), stamp))
-                    .take_while(move |(v, _)| *v <= less_eq)
-                    .filter(move |(v, stamp): &(U256, _)| recv_bound.test(*stamp) && mask.test(v))
-                    .map(|(_, stamp)| stamp.into())
-            }
-            Order::Desc => {
-                todo!("hash desc not yet impl");
-            }
+        let TestSet {
+            bound:
+                Bound {
+                    low: greater_eq,
+                    high: less_eq,
+                },
+            mask,
+        } = hashset;
+        if mask != Mask::DEFAULT {
+            tracing::warn!("todo impl hash mask jumping");
         }
+        let start: B64<[u8; 32]> = match ord {
+            Order::Asc => greater_eq.into(),
+            Order::Desc => less_eq.into(),
+        };
+        let it = match ord {
+            Order::Asc => Either::Left(self.0.hash_cursor().range_uniq(&start)),
+            Order::Desc => Either::Right(self.0.hash_cursor().range_uniq_rev(&start)),
+        };
+        it.map(|(hash, stamp)| (B64(*hash).into(), stamp))
+            .take_while(move |(v, _): &(U256, _)| *v >= greater_eq && *v <= less_eq)
+            .filter(move |(v, stamp)| recv_bound.test(*stamp) && mask.test(v))
+            .map(|(_, stamp)| stamp.into())
     }
     pub fn query_hash(
         &'txn self,
-- 
2.43.0


From b2f7cc7168afcf395756022bdc16f262c973d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 34/90] fix: the walk over the tree index no longer skips
 depths, prefixes and keys that match

---
 crates/core/src/env/lmdb/tree_iter.rs | 29 +++++++++++++--------------
 crates/core/src/predicate/treekey.rs  | 10 +++------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 1ccab16..42fd708 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -91,28 +91,27 @@ impl<'txn> TreeKeysIter<'txn> {
                         (true, true, true) => unreachable!(),
                         (false, _, _) => {
                             tracing::trace!(?depth, "Depth OOB, setting next depth");
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            jump.push(depth.val.unwrap_or(255));
                         }
                         (true, false, _) => {
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            let domain_len = jump.len();
+                            let depth = depth.val.unwrap_or(255);
+                            jump.push(depth);
+                            jump.extend_from_slice(self.req.rspace.space_bytes());
+                            if jump.as_slice() <= at.btree_key.as_bytes() {
+                                // past the prefix at this depth
+                                jump.truncate(domain_len);
+                                jump.push(self.req.depth.next_depth(depth).unwrap_or(255));
+                            }
                             tracing::trace!("Prefix OOB, extinding with lowerbound ");
                         }
                         (true, true, false) => {
                             jump.push(depth.val.unwrap_or(255));
                             jump.extend_from_slice(at.btree_key.space().space_bytes());
-                            jump.extend_from_slice(
-                                &key.val.map(|v| v.to_be_bytes::<32>()).unwrap_or([255; 32]),
-                            );
+                            match key.val {
+                                Some(v) => jump.extend_from_slice(&v.to_be_bytes::<32>()),
+                                None => jump.extend_from_slice(&[255; 33]),
+                            }
                         }
                     }
                 } else {
diff --git a/crates/core/src/predicate/treekey.rs b/crates/core/src/predicate/treekey.rs
index d1418af..55ae528 100644
--- a/crates/core/src/predicate/treekey.rs
+++ b/crates/core/src/predicate/treekey.rs
@@ -29,7 +29,7 @@ pub struct TreeKeys {
 impl TreeKeys {
     pub fn lower_bound(&self) -> anyhow::Result<Vec<u8>> {
         let mut btree_key = vec![];
-        let (group, domain, depth, rspace, pubkey) = (
+        let (group, domain, depth, rspace) = (
             self.group.info(UInt::MIN).val.context("Empty group set")?,
             self.domain
                 .info(UInt::MIN)
@@ -37,17 +37,13 @@ impl TreeKeys {
                 .context("Empty domain set")?,
             self.depth.info(0).val.context("Empty depthset")?,
             &self.rspace,
-            self.pubkey
-                .info(UInt::MIN)
-                .val
-                .context("Empty pubkey set")?,
         );
-        tracing::trace!(?group,?domain,?depth,%rspace,?pubkey, "lowerbounds");
+        tracing::trace!(?group,?domain,?depth,%rspace, "lowerbounds");
         btree_key.extend_from_slice(&group.to_be_bytes::<32>());
         btree_key.extend_from_slice(&Domain::from(domain).0);
         btree_key.push(depth);
+        // no pubkey - the remaining components of a deeper space come first
         btree_key.extend(rspace.space_bytes());
-        btree_key.extend_from_slice(&pubkey.to_be_bytes::<32>());
         Ok(btree_key)
     }
 }
-- 
2.43.0


From 7ff9af65032eb87c1846cbbc847ac73d17f1a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 35/90] fix: a tree query for depths that cannot exist is empty
 instead of a panic

---
 crates/core/src/env/lmdb/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 122fd7a..af81295 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -43,7 +43,7 @@ impl<'txn> ReadTxn<'txn> {
         order: Order,
     ) -> Option<(TreeEntryRef<'txn>, TreeKeysIter<'txn>)> {
         let req = rules.compile_tree_keys(order.is_asc()).unwrap();
-        let lower_bound = req.lower_bound().unwrap();
+        let lower_bound = req.lower_bound().ok()?;
         let iter_dup = self.0.tree_cursor().iter_dup(order.is_asc());
         let at = iter_dup
             .set_range(&lower_bound)
-- 
2.43.0


From ea7c23df6cc97ef367458dac062d2447b917cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 36/90] fix: a descending tree query for one create stamp finds
 it behind newer entries

---
 crates/core/src/env/lmdb/db.rs        |  3 +++
 crates/core/src/env/lmdb/tree_iter.rs | 23 ++++++++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 7124029..5c2018e 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -327,6 +327,9 @@ impl<'o> Debug for IterDup<'o> {
 }
 type E<'txn> = (&'txn [u8], &'txn TreeValueBytes);
 impl<'txn> IterDup<'txn> {
+    pub fn is_asc(&self) -> bool {
+        self.value_asc
+    }
     #[track_caller]
     fn iget(&self, key: Option<&[u8]>, op: u32) -> Option<E<'txn>> {
         match self.cur.get(key, None, op) {
diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 42fd708..af8d13f 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -3,7 +3,7 @@ use linkspace_pkt::{
     Domain, GroupID,
 };
 
-use crate::{prelude::treekey::TreeKeys, stamp_range::IterCmp};
+use crate::prelude::treekey::TreeKeys;
 
 use super::db::IterDup;
 
@@ -27,15 +27,20 @@ impl<'txn> TreeKeysIter<'txn> {
             .filter(|v| self.req.cstamp.contains(v.create()))
     }
     fn next_stamp_match(&self, at: &mut TreeEntryRef<'txn>) -> Result<(), ()> {
-        let mut cmp = self.req.cstamp.iter_cmp(at.create());
-        while cmp == IterCmp::Pre {
+        let (low, high) = (
+            self.req.cstamp.lower_bound().get(),
+            self.req.cstamp.upper_bound().get(),
+        );
+        loop {
+            let create = at.create().get();
+            if (low..=high).contains(&create) {
+                return Ok(());
+            }
+            // a single stamp has no direction of its own
+            if (create < low) != self.iter_dup.is_asc() {
+                return Err(());
+            }
             *at = self.iter_dup.get_next_entry().map(spd).ok_or(())?;
-            cmp = self.req.cstamp.iter_cmp(at.create());
-        }
-        if cmp == IterCmp::In {
-            Ok(())
-        } else {
-            Err(())
         }
     }
 
-- 
2.43.0


From e0b95f89bb83dcf7f5ca3fe9a15b4c85fd690ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 37/90] fix: a tree query ends after the last limited branch

---
 crates/core/src/env/lmdb/queries.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index af81295..c73d567 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -115,6 +115,10 @@ impl<'txn> ReadTxn<'txn> {
                         Some(false) => {}
                         None => {
                             key_ptr = keys_iter.as_mut().and_then(|v| v.next_scope());
+                            if key_ptr.is_none() {
+                                cnt = false;
+                                return None;
+                            }
                             yields = nth_find_set.iter(0);
                         }
                     }
-- 
2.43.0


From 88170a0e30419716fd97781d4c9b93d1d0ea5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 38/90] fix: saving within the microsecond of the last recv
 stamp fails

---
 crates/core/src/env/lmdb/save.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/save.rs b/crates/core/src/env/lmdb/save.rs
index a2fd020..f79984b 100644
--- a/crates/core/src/env/lmdb/save.rs
+++ b/crates/core/src/env/lmdb/save.rs
@@ -29,7 +29,8 @@ impl LMDBEnv {
                 let last: u64 = super::db::pktlog::val(recv.try_into().unwrap());
                 if last > start {
                     eprintln!("db log saved entries from the future? - this could become undefined behavior");
-
+                }
+                if last >= start {
                     start = last + 1;
                 }
             }
-- 
2.43.0


From 3d6227575c6760ca631b98a52b61c9c1c87dd1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 39/90] fix: packets of a save that fails are not marked as
 written

---
 crates/core/src/env/lmdb/save.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/env/lmdb/save.rs b/crates/core/src/env/lmdb/save.rs
index f79984b..978cd76 100644
--- a/crates/core/src/env/lmdb/save.rs
+++ b/crates/core/src/env/lmdb/save.rs
@@ -98,10 +98,9 @@ impl LMDBEnv {
 
         let mut tree = RwCursor::new(&txn, lmdb_e.tree)?;
 
-        for (pkt, state) in pkts.iter_mut() {
+        for (pkt, state) in pkts.iter() {
             if matches!(state, SaveState::Pending) {
-                *state = SaveState::Written;
-                let entry = TreeEntry::from_pkt(at.into(), &pkt);
+                let entry = TreeEntry::from_pkt(at.into(), pkt);
                 let te = entry.map(|te| (te.btree_key.take(), te.val));
                 if let Some((key, val)) = te {
                     tree.put(&key, &val, WriteFlags::empty())?;
@@ -113,6 +112,11 @@ impl LMDBEnv {
         std::mem::drop(tree);
 
         txn.commit()?;
+        for (_, state) in pkts.iter_mut() {
+            if matches!(state, SaveState::Pending) {
+                *state = SaveState::Written;
+            }
+        }
         Ok(start..at)
     }
 }
-- 
2.43.0


From e3a0c98ac9bc89e4e36f83005578969777c3745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 40/90] fix: asking for packets after the greatest stamp is not
 an overflow

---
 crates/core/src/env/lmdb/get.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/get.rs b/crates/core/src/env/lmdb/get.rs
index 8ed349c..7222a2e 100644
--- a/crates/core/src/env/lmdb/get.rs
+++ b/crates/core/src/env/lmdb/get.rs
@@ -80,7 +80,7 @@ impl<'env> ReadTxn<'env> {
         self.0.pkt_cursor().range_uniq(&from.get()).map(as_recv_ptr)
     }
     pub fn pkts_after(&self, after: Stamp) -> impl Iterator<Item = RecvPktPtr> {
-        self.local_pkt_log(Stamp::new(after.get() + 1))
+        self.local_pkt_log(Stamp::new(after.get().saturating_add(1)))
     }
     /*
     pub fn get_pkts_by_tree(
-- 
2.43.0


From b011220e1a569209311988ef8c367b05be32f321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 41/90] fix: StampRange::asc_from includes its start, and
 after() does not overflow

---
 crates/core/src/stamp_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/stamp_range.rs b/crates/core/src/stamp_range.rs
index 2acf6c6..19285f2 100644
--- a/crates/core/src/stamp_range.rs
+++ b/crates/core/src/stamp_range.rs
@@ -36,7 +36,7 @@ impl StampRange {
     /// Ascending range excluding start
     pub const fn after(start: Stamp) -> StampRange {
         StampRange {
-            start: start.get() + 1,
+            start: start.get().saturating_add(1),
             end: u64::MAX,
         }
     }
@@ -44,7 +44,7 @@ impl StampRange {
     /// Ascending range include start
     pub const fn asc_from(start: Stamp) -> StampRange {
         StampRange {
-            start: start.get() + 1,
+            start: start.get(),
             end: u64::MAX,
         }
     }
-- 
2.43.0


From e7b9861ee2f3def6bee3396071cc7c2a41ea6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 42/90] fix: print the options of a query in the order they
 have to be read

---
 crates/core/src/query.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/query.rs b/crates/core/src/query.rs
index 1db32c1..15178fe 100644
--- a/crates/core/src/query.rs
+++ b/crates/core/src/query.rs
@@ -48,7 +48,7 @@ pub struct Query {
 }
 impl Display for Query {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        Display::fmt(&self.conf, f)?;
+        self.fmt_options(f)?;
         self.predicates.fmt(f)?;
         Ok(())
     }
@@ -85,12 +85,21 @@ impl Query {
     pub fn to_str(&self, canonical: bool) -> String {
         use std::fmt::Write;
         let mut out = String::new();
-        writeln!(out, "{}", &self.conf).unwrap();
+        self.fmt_options(&mut out).unwrap();
+        writeln!(out).unwrap();
         for p in self.predicates.iter() {
             writeln!(out, "{}", p.to_str(canonical)).unwrap();
         }
         out
     }
+    /// write the options in the order [Self::parse] has to add them. (ABConf itself prints the latest first)
+    fn fmt_options(&self, out: &mut impl std::fmt::Write) -> std::fmt::Result {
+        let latest_first: Vec<_> = self.conf.get_inner(&[]).collect();
+        for opt in latest_first.into_iter().rev() {
+            writeln!(out, "{opt}")?;
+        }
+        Ok(())
+    }
     pub fn add_option(&mut self, name: &str, values: &[&[u8]]) {
         let mut ab = ABList::DEFAULT;
         ab.push_v((Some(Ctr::Colon), name.as_bytes().to_vec()));
-- 
2.43.0


From 42d94be82febd794caaca59a0a4dc59c3e484298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 43/90] fix: refuse predicates on fields that can't be tested
 instead of panicking

---
 crates/core/src/predicate/pkt_predicates.rs | 25 ++++++++++++---------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 5d38b6b..927495a 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -280,8 +280,9 @@ impl PktPredicates {
                     FieldEnum::PubKeyF => {
                         self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
                     }
-                    FieldEnum::SignatureF => todo!(),
-                    FieldEnum::DataF => todo!(),
+                    FieldEnum::SignatureF | FieldEnum::DataF => {
+                        anyhow::bail!("a predicate on {f} is not supported")
+                    }
                     FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
                     FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
                     FieldEnum::VarStampF => {
@@ -299,15 +300,17 @@ impl PktPredicates {
                     FieldEnum::VarUBits3F => {
                         self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
                     }
-                    FieldEnum::RSpaceNameF => todo!(),
-                    FieldEnum::SpaceComp0F => todo!(),
-                    FieldEnum::SpaceComp1F => todo!(),
-                    FieldEnum::SpaceComp2F => todo!(),
-                    FieldEnum::SpaceComp3F => todo!(),
-                    FieldEnum::SpaceComp4F => todo!(),
-                    FieldEnum::SpaceComp5F => todo!(),
-                    FieldEnum::SpaceComp6F => todo!(),
-                    FieldEnum::SpaceComp7F => todo!(),
+                    FieldEnum::RSpaceNameF
+                    | FieldEnum::SpaceComp0F
+                    | FieldEnum::SpaceComp1F
+                    | FieldEnum::SpaceComp2F
+                    | FieldEnum::SpaceComp3F
+                    | FieldEnum::SpaceComp4F
+                    | FieldEnum::SpaceComp5F
+                    | FieldEnum::SpaceComp6F
+                    | FieldEnum::SpaceComp7F => {
+                        anyhow::bail!("a predicate on {f} is not supported")
+                    }
                     FieldEnum::DataSizeF => {
                         self.data_size.try_add(op, U16::try_from(val)?.get())?
                     }
-- 
2.43.0


From 620a546f0cc9095dfa86b31db0f91f6480bc758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 44/90] fix: refuse mask predicates on recv instead of ignoring
 them

---
 crates/core/src/predicate/pkt_predicates.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 927495a..5b49e6b 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -319,7 +319,13 @@ impl PktPredicates {
                     }
                 }
             }
-            RuleType::RecvStamp => self.recv_stamp.try_add(op, U64::try_from(val)?.get())?,
+            RuleType::RecvStamp => {
+                ensure!(
+                    !matches!(op, TestOp::Mask0 | TestOp::Mask1),
+                    "recv does not support masks"
+                );
+                self.recv_stamp.try_add(op, U64::try_from(val)?.get())?
+            }
             RuleType::SpacePrefix => {
                 ensure!(op == TestOp::Equal, "prefix only supports equallity ");
                 let sp = SpaceBuf::try_from(val)?;
-- 
2.43.0


From 3f8b0129877952b8eb158623927675498996482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 45/90] fix: close a range of watches when none has exactly the
 given id

---
 crates/core/src/matcher/mod.rs | 35 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 84046c6..1899570 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -211,25 +211,26 @@ impl<C> Matcher<C> {
         range: bool,
         mut on_drop: impl FnMut(WatchEntry<C>),
     ) -> usize {
-        match self
+        let at = self
             .watch_entries
-            .binary_search_by_key(&id, |e| &e.query_id)
-        {
+            .binary_search_by_key(&id, |e| &e.query_id);
+        if range {
+            // the watches in range start here, even if there is none with exactly this id
+            let i = at.unwrap_or_else(|i| i);
+            let c = self.watch_entries[i..]
+                .iter()
+                .take_while(|v| v.query_id.starts_with(id))
+                .count();
+            for w in self.watch_entries.drain(i..c + i) {
+                on_drop(w)
+            }
+            return c;
+        }
+        match at {
             Ok(i) => {
-                if !range {
-                    let w = self.watch_entries.remove(i);
-                    on_drop(w);
-                    1
-                } else {
-                    let c = self.watch_entries[i..]
-                        .iter()
-                        .take_while(|v| v.query_id.starts_with(id))
-                        .count();
-                    for w in self.watch_entries.drain(i..c + i) {
-                        on_drop(w)
-                    }
-                    c
-                }
+                let w = self.watch_entries.remove(i);
+                on_drop(w);
+                1
             }
             Err(_) => 0,
         }
-- 
2.43.0


From 5181381fd9a12a6bfdd7d272bf00e040247f917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 46/90] fix: don't read a packet header through misaligned u128
 pointers when mutating it

---
 crates/core/src/mut_header.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/mut_header.rs b/crates/core/src/mut_header.rs
index a0cba6f..3c73fbc 100644
--- a/crates/core/src/mut_header.rs
+++ b/crates/core/src/mut_header.rs
@@ -28,14 +28,13 @@ impl NetHeaderMutate {
         set: NetPktHeader::cfrom([0; 32]),
     };
     pub fn mutate(&self, h: &mut NetPktHeader) {
-        let b: &mut [u128; 2] = unsafe { &mut *(h as *mut NetPktHeader as *mut [u128; 2]) };
-        let clear: &[u128; 2] =
-            unsafe { &*(&self.clear as *const NetPktHeader as *const [u128; 2]) };
-        let set: &[u128; 2] = unsafe { &*(&self.set as *const NetPktHeader as *const [u128; 2]) };
-        b[0] &= clear[0];
-        b[0] |= set[0];
-        b[1] &= clear[1];
-        b[1] |= set[1];
+        // a NetPktHeader can be at any address
+        let b: &mut [u8; 32] = unsafe { &mut *(h as *mut NetPktHeader as *mut [u8; 32]) };
+        let clear: &[u8; 32] = unsafe { &*(&self.clear as *const NetPktHeader as *const [u8; 32]) };
+        let set: &[u8; 32] = unsafe { &*(&self.set as *const NetPktHeader as *const [u8; 32]) };
+        for ((b, clear), set) in b.iter_mut().zip(clear).zip(set) {
+            *b = (*b & clear) | set;
+        }
     }
     pub fn from_lst(lst: &[MutFieldExpr], scope: &dyn Scope) -> anyhow::Result<Self> {
         let mut m = NetHeaderMutate::DEFAULT;
-- 
2.43.0


From 67452bdb53079e83a4d6bad05e3d58d1dfb73f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 47/90] fix: setting a header field clears its old bits

---
 crates/core/src/mut_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/mut_header.rs b/crates/core/src/mut_header.rs
index 3c73fbc..5a0fc6a 100644
--- a/crates/core/src/mut_header.rs
+++ b/crates/core/src/mut_header.rs
@@ -82,7 +82,7 @@ pub fn mutate(op: TestOp, val: ABList, clear: &mut [u8], set: &mut [u8]) -> anyh
                 .into_exact_bytes()
                 .map_err(|_| anyhow::anyhow!("Eq expects exact bytes"))?;
             anyhow::ensure!(v.len() == clear.len());
-            clear.iter_mut().for_each(|v| *v = 255);
+            clear.iter_mut().for_each(|v| *v = 0);
             set.iter_mut().zip(v).for_each(|(set, val)| *set = val);
         }
         e => anyhow::bail!("op not yet supported {}", e),
-- 
2.43.0


From a3b7d930de0d1bfcc4dfed277713b7c9276e3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 48/90] fix: refuse a duration that isn't utf8 instead of
 panicking

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index 62f0415..defeec5 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -79,7 +79,7 @@ pub fn parse_duration_str(st: impl AsRef<[u8]>) -> anyhow::Result<Duration> {
     let mut fmts = DELTA_FORMATS.iter();
     for segm in st.as_ref().split_inclusive(|a| a.is_ascii_alphabetic()) {
         let (unit, digits) = segm.split_last().unwrap();
-        let count = u32::from_str(std::str::from_utf8(digits).unwrap())?;
+        let count = u32::from_str(std::str::from_utf8(digits)?)?;
         loop {
             let (ch, val) = fmts.next().with_context(|| match char_as_dur(*unit) {
                 Some(_) => format!("Out of order '{}'", *unit as char),
-- 
2.43.0


From 7e8c8bbde57f96dd3a5fac4f6e89253f8c5c6879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 49/90] fix: print long durations exactly

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index defeec5..41fa9f2 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -138,7 +138,7 @@ pub fn duration_to_string(
         return format!("0{}", formats.last().unwrap().0);
     }
     for (unit, dur) in &parts {
-        let c = delta.div_duration_f64(*dur).floor() as u32;
+        let c = (delta.as_nanos() / dur.as_nanos()) as u32;
         delta = delta.saturating_sub(*dur * c);
         if zeros || c != 0 {
             st.push_str(&format!("{delim}{}{}", c as u64, unit));
-- 
2.43.0


From c9c01ff6ec4ae884273a4fe8baa39dd7159b728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 50/90] fix: a duration longer than any stamp is the longest
 stamp, not its remainder

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index 41fa9f2..0a6732a 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -187,7 +187,7 @@ pub fn stamp_from_str(s: impl AsRef<[u8]>, now: Option<Stamp>) -> anyhow::Result
 pub struct DurationStr(pub Duration);
 impl DurationStr {
     pub fn stamp(self) -> Stamp {
-        Stamp::new(self.0.as_micros() as u64)
+        Stamp::new(u64::try_from(self.0.as_micros()).unwrap_or(u64::MAX))
     }
 }
 #[allow(non_upper_case_globals)]
-- 
2.43.0


From 1d69c5942cd679eeb86cac440792c53d96e65a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 51/90] fix: a checked stamp sum with too long a duration
 overflows

---
 crates/pkt/src/stamp.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/pkt/src/stamp.rs b/crates/pkt/src/stamp.rs
index 154170a..2b4d473 100644
--- a/crates/pkt/src/stamp.rs
+++ b/crates/pkt/src/stamp.rs
@@ -59,8 +59,7 @@ pub fn stamp_add(stamp: Stamp, dur: Duration) -> Stamp {
     Stamp::new(stamp.get().saturating_add(plus))
 }
 pub fn checked_stamp_add(stamp: Stamp, dur: Duration) -> Option<Stamp> {
-    let plus = dur.as_micros().min(u64::MAX.into());
-    let plus = unsafe { u64::try_from(plus).unwrap_unchecked() };
+    let plus = u64::try_from(dur.as_micros()).ok()?;
     stamp.get().checked_add(plus).map(Stamp::new)
 }
 /// saturating sub
@@ -70,8 +69,7 @@ pub fn stamp_sub(stamp: Stamp, dur: Duration) -> Stamp {
     Stamp::new(stamp.get().saturating_sub(sub))
 }
 pub fn checked_stamp_sub(stamp: Stamp, dur: Duration) -> Option<Stamp> {
-    let sub = dur.as_micros().min(u64::MAX.into());
-    let sub = unsafe { u64::try_from(sub).unwrap_unchecked() };
+    let sub = u64::try_from(dur.as_micros()).ok()?;
     stamp.get().checked_sub(sub).map(Stamp::new)
 }
 #[cfg(target_arch = "wasm32")]
-- 
2.43.0


From 5a76b680c772e0c54635a62fae2c3360604f2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 52/90] fix: refuse a partial hash with any character outside
 of base64

---
 crates/core/src/partial_hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/partial_hash.rs b/crates/core/src/partial_hash.rs
index 244a7da..0950c6b 100644
--- a/crates/core/src/partial_hash.rs
+++ b/crates/core/src/partial_hash.rs
@@ -80,8 +80,8 @@ impl PartialHash {
         }
         let mut b = [b'A'; B64_HASH_LENGTH];
         b[..b64.len()].copy_from_slice(b64);
-        // TODO , just  check character table
-        BASE64_URL_SAFE_NO_PAD.decode(&b[0..b64.len() & !3usize])?;
+        // padded to the length of a hash, so this checks every character
+        BASE64_URL_SAFE_NO_PAD.decode(b)?;
         let mut arr = ArrayString::from_byte_string(&b).unwrap();
         arr.truncate(b64.len());
         Ok(PartialHash(arr))
-- 
2.43.0


From 1e41a47e775f1ce256c37f5ae5116a3fe451721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 53/90] fix: a watch ends with the last packet its limits
 allow, also if they are masks

---
 crates/core/src/matcher/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 1899570..c2c1a3a 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -162,7 +162,9 @@ impl<C> WatchEntry<C> {
         self.nth_query += 1;
         (
             accepted_nth,
-            if self.nth_new > self.i_new.bound.high || self.nth_query > self.i_query.bound.high {
+            if self.i_new.info(self.nth_new).val.is_none()
+                || self.i_query.info(self.nth_query).val.is_none()
+            {
                 ControlFlow::Break(())
             } else {
                 ControlFlow::Continue(())
-- 
2.43.0


From f2f93a1ecd77248add4e22c63e2941913a1073f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 54/90] fix: a watch that broke is told Break, and one without
 more to come Finish

---
 crates/common/src/runtime/rx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index a9b45f9..e662048 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -312,9 +312,9 @@ impl Linkspace {
                 },
                 |w| {
                     let reason = if w.last_test.1.is_break() {
-                        StopReason::Break
-                    } else {
                         StopReason::Finish
+                    } else {
+                        StopReason::Break
                     };
                     drop_watch(w, self, reason)
                 },
-- 
2.43.0


From 8b3764647b7444f333906519a758f21121cbe785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 55/90] fix: watches can be set up and stopped by a handler
 that is told it stopped

---
 crates/common/src/runtime/rx.rs | 87 +++++++++++++++------------------
 1 file changed, 40 insertions(+), 47 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index e662048..1c1bd86 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -12,6 +12,7 @@ use linkspace_pkt::reroute::ShareArcPkt;
 use std::{
     borrow::Cow,
     cell::{Cell, OnceCell, RefCell},
+    collections::VecDeque,
     ops::ControlFlow,
     path::{Path, PathBuf},
     rc::Rc,
@@ -48,7 +49,7 @@ struct Executor {
     env: BTreeEnv,
     written: Cell<bool>,
     callbacks: RefCell<Matcher>,
-    pending: RefCell<Vec<Pending>>,
+    pending: RefCell<VecDeque<Pending>>,
     // This is a fake lifetime
     process_txn: RefCell<Rc<ReadTxn<'static>>>,
     process_upto: Cell<Stamp>,
@@ -100,31 +101,37 @@ impl Linkspace {
     }
 
     fn insert_watch(&self, watch_entry: RxEntry) {
-        match self.0.exec.callbacks.try_borrow_mut() {
-            Ok(mut lk) => {
-                if let Some(w) = lk.register(watch_entry) {
-                    drop_watch(w, self, StopReason::Replaced)
-                }
-            }
-            Err(_) => self
-                .0
-                .exec
-                .pending
-                .borrow_mut()
-                .push(Pending::NewWatch { watch_entry }),
-        };
+        self.change(Pending::NewWatch { watch_entry })
+    }
+    fn change(&self, cmd: Pending) {
+        self.0.exec.pending.borrow_mut().push_back(cmd);
+        self.drain_pending()
     }
-    pub fn drain_pending(&self, lk: &mut Matcher) {
-        for cmd in self.0.exec.pending.borrow_mut().drain(..) {
-            match cmd {
-                Pending::NewWatch { watch_entry } => {
-                    if let Some(w) = lk.register(watch_entry) {
-                        drop_watch(w, self, StopReason::Replaced)
+    /// apply the changes in the order they were made, unless the callbacks are in use. A handler is told it stopped
+    /// once they are free again, such that it can make changes as well.
+    fn drain_pending(&self) {
+        let exec = &self.0.exec;
+        loop {
+            let mut stopped = vec![];
+            {
+                let Ok(mut lk) = exec.callbacks.try_borrow_mut() else {
+                    return;
+                };
+                let Some(cmd) = exec.pending.borrow_mut().pop_front() else {
+                    return;
+                };
+                match cmd {
+                    Pending::NewWatch { watch_entry } => stopped.extend(
+                        lk.register(watch_entry)
+                            .map(|w| (w, StopReason::Replaced)),
+                    ),
+                    Pending::Close { id, range } => {
+                        lk.deregister(&id, range, |w| stopped.push((w, StopReason::Closed)));
                     }
                 }
-                Pending::Close { id, range } => {
-                    lk.deregister(&id, range, |w| drop_watch(w, self, StopReason::Closed));
-                }
+            }
+            for (w, reason) in stopped {
+                drop_watch(w, self, reason)
             }
         }
     }
@@ -258,6 +265,7 @@ impl Linkspace {
     pub fn process(&self) -> Stamp {
         let exec = &self.0.exec;
         exec.written.set(false);
+        self.drain_pending();
         let (txn, from, mut upto): (Rc<ReadTxn>, Stamp, Stamp) = {
             let mut txn = exec.process_txn.borrow_mut();
             let rx_last = exec.process_upto.get();
@@ -282,7 +290,6 @@ impl Linkspace {
         };
         let _g = tracing::error_span!("process log", ?from, atleast_upto=?upto).entered();
         let mut lock = exec.callbacks.borrow_mut();
-        self.drain_pending(&mut lock);
         exec.is_running.set(true);
         let mut count = Rc::strong_count(&txn);
         let mut validate = || {
@@ -320,13 +327,13 @@ impl Linkspace {
                 },
             );
         }
-        self.drain_pending(&mut lock);
 
         exec.is_running.set(false);
         exec.process_upto.set(upto);
         tracing::trace!(?upto);
 
         std::mem::drop((txn, lock));
+        self.drain_pending();
         if !exec.written.get() {
             return upto;
         };
@@ -443,30 +450,16 @@ impl Linkspace {
     }
 
     pub fn close(&self, id: impl AsRef<QueryIDRef>) {
-        match self.0.exec.callbacks.try_borrow_mut() {
-            Ok(mut lk) => {
-                lk.deregister(id.as_ref(), false, |w| {
-                    drop_watch(w, self, StopReason::Closed)
-                });
-            }
-            Err(_) => self.0.exec.pending.borrow_mut().push(Pending::Close {
-                id: id.as_ref().to_vec(),
-                range: false,
-            }),
-        }
+        self.change(Pending::Close {
+            id: id.as_ref().to_vec(),
+            range: false,
+        })
     }
     pub fn close_range(&self, prefix: impl AsRef<QueryIDRef>) {
-        match self.0.exec.callbacks.try_borrow_mut() {
-            Ok(mut lk) => {
-                lk.deregister(prefix.as_ref(), true, |w| {
-                    drop_watch(w, self, StopReason::Closed)
-                });
-            }
-            Err(_) => self.0.exec.pending.borrow_mut().push(Pending::Close {
-                id: prefix.as_ref().to_vec(),
-                range: true,
-            }),
-        }
+        self.change(Pending::Close {
+            id: prefix.as_ref().to_vec(),
+            range: true,
+        })
     }
     /// Will panic if called during execution
     pub fn dbg_watches(&self) -> std::cell::Ref<Matcher> {
-- 
2.43.0


From 38b3859cd19cd4d96ab46eb393ce5c77f90d293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 56/90] fix: a watch past its recv bound is told it stopped,
 and ends a process_while waiting for it

---
 crates/common/src/runtime/rx.rs | 16 ++++++++++++----
 crates/core/src/matcher/mod.rs  | 26 ++++++++++++++++----------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 1c1bd86..78378fc 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -229,7 +229,7 @@ impl Linkspace {
                 next_check = next_check.min(last_step_constraint);
             }
 
-            match exec.next_work() {
+            match exec.next_work(self) {
                 Ok(Some(next_oob)) => {
                     if next_oob != Stamp::MAX {
                         match next_oob.get().checked_sub(now().get()) {
@@ -470,8 +470,8 @@ impl Executor {
     /** return when next to process.
     Ok(None) means immediatly, Ok(Some(stamp)) means at stamp a watch can be dropped, Err means no current watches
      **/
-    #[instrument(skip(self), ret)]
-    fn next_work(&self) -> Result<Option<Stamp>, ()> {
+    #[instrument(skip(self, rt), ret)]
+    fn next_work(&self, rt: &Linkspace) -> Result<Option<Stamp>, ()> {
         if self.is_running.get() {
             tracing::warn!("has_work called during work");
             panic!();
@@ -480,7 +480,15 @@ impl Executor {
         if !self.pending.borrow().is_empty() {
             return Ok(None);
         };
-        self.callbacks.borrow_mut().gc(now()).ok_or(()).map(Some)
+        let mut expired = vec![];
+        let next = self.callbacks.borrow_mut().gc(now(), |w| expired.push(w));
+        if !expired.is_empty() {
+            for w in expired {
+                drop_watch(w, rt, StopReason::Finish)
+            }
+            return Ok(None);
+        }
+        next.ok_or(()).map(Some)
     }
 }
 
diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index c2c1a3a..9711e58 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -255,18 +255,24 @@ impl<C> Matcher<C> {
             .for_each(on_drop);
     }
     /// clears out of bound watches and determine when the next gc should be run ( none means empty, Some(MAX) means no oob set)
-    #[instrument(skip(self))]
-    pub fn gc(&mut self, logptr: Stamp) -> Option<Stamp> {
+    #[instrument(skip(self, on_drop))]
+    pub fn gc(
+        &mut self,
+        logptr: Stamp,
+        on_drop: impl FnMut(WatchEntry<C>),
+    ) -> Option<Stamp> {
         let mut min: u64 = u64::MAX;
         let old_len = self.watch_entries.len();
-        self.watch_entries.retain(|e| {
-            if e.recv_bounds.high > logptr.get() {
-                min = e.recv_bounds.high.min(min);
-                true
-            } else {
-                false
-            }
-        });
+        self.watch_entries
+            .extract_if(|e| {
+                if e.recv_bounds.high > logptr.get() {
+                    min = e.recv_bounds.high.min(min);
+                    false
+                } else {
+                    true
+                }
+            })
+            .for_each(on_drop);
         tracing::trace!(old_len, len = self.watch_entries.len());
         if self.watch_entries.is_empty() {
             None
-- 
2.43.0


From 3528a92a96c82c9035e4bcc1301d96c5443ebf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 57/90] fix: a watch without a qid is refused with an error

---
 crates/common/src/runtime/rx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 78378fc..f72de4b 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -374,7 +374,7 @@ impl Linkspace {
         let id: &[u8] = query
             .qid()?
             .flatten()
-            .expect("watch always requires a :qid:...  option");
+            .context("watch always requires a :qid:...  option")?;
         let follow = query.get_known_opt(KnownOptions::Follow)?;
         let start = None; //query.get_known_opt(KnownOptions::Start).map(|v| Ptr::try_from(v.clone())).transpose()?;
                           // TODO span should already have these fields.
-- 
2.43.0


From 56ded739e5c5138d88d589692dae1b1cbbb3056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 58/90] fix: watch returns a negative number only if it is
 registered, and counts only calls

---
 crates/common/src/runtime/rx.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index f72de4b..9c05687 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -404,6 +404,8 @@ impl Linkspace {
         }
         let span = debug_span!(parent:&span,"query", preds=%q.predicates);
         let mut counter = 0;
+        // those skipped by a predicate on 'i' are part of counter
+        let mut calls: u32 = 0;
         let check_db = q.predicates.state.check_db();
         self.close(watch_id); // this is not ideal. But other close semantics seem worse.
         if check_db {
@@ -416,6 +418,7 @@ impl Linkspace {
                 .try_for_each(|dbp| {
                     let _g = local_span.enter();
                     tracing::debug!(pkt=%PktFmtDebug(&dbp.pkt), recv=%dbp.recv().unwrap(),"Match");
+                    calls = calls.saturating_add(1);
                     onmatch.handle_pkt(&dbp, self)
                 });
 
@@ -430,7 +433,7 @@ impl Linkspace {
             exec.is_reading.update(|i| i - 1);
             tracing::debug!(?r, "Done with DB");
             if matches!(r, ControlFlow::Break(_)) {
-                return Ok(crate::saturating_cast(counter));
+                return Ok(crate::saturating_cast(calls));
             }
         }
         match RxEntry::new(
@@ -440,13 +443,16 @@ impl Linkspace {
             Box::new(onmatch),
             span,
         ) {
-            Ok(e) => {
+            Ok(e) if e.recv_bounds.high > now().get() => {
                 tracing::debug!("Setup Watch");
-                self.insert_watch(e)
+                self.insert_watch(e);
+                Ok(crate::saturating_neg_cast(calls))
+            }
+            r => {
+                tracing::info!(e=?r.err(),"Did not register");
+                Ok(crate::saturating_cast(calls))
             }
-            Err(r) => tracing::info!(e=?r,"Did not register"),
         }
-        Ok(crate::saturating_neg_cast(counter))
     }
 
     pub fn close(&self, id: impl AsRef<QueryIDRef>) {
-- 
2.43.0


From f238f91f6a9b6353a7ba3c06c3fafe9df2ef705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 59/90] fix: a watch with the follow option is told it stopped

---
 crates/common/src/runtime/handlers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/common/src/runtime/handlers.rs b/crates/common/src/runtime/handlers.rs
index cb13465..5492fa7 100644
--- a/crates/common/src/runtime/handlers.rs
+++ b/crates/common/src/runtime/handlers.rs
@@ -122,4 +122,7 @@ impl<F: PktStreamHandler> PktStreamHandler for FollowHandler<F> {
         }
         ControlFlow::Continue(())
     }
+    fn stopped(&mut self, watch: BareWatch, rx: &Linkspace, reason: StopReason) {
+        self.inner.stopped(watch, rx, reason)
+    }
 }
-- 
2.43.0


From 92201a3c56bc8213613316e705ebb33b939dfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 60/90] Revert "fix: contradicting mask predicates are an empty
 set instead of a panic"

This reverts commit 4eb7621c5251a44c9f553578f0bdda8f526d0646.
---
 crates/core/src/predicate/value_test.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index 32515e3..fc7901a 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -549,9 +549,6 @@ impl<U: UInt> TestSet<U> {
         !self.has_any()
     }
     pub fn min_value(&self) -> Option<U> {
-        if !self.mask.has_any() {
-            return None;
-        }
         let v = self.mask.in_set(self.bound.low)?;
         if self.bound.high < v {
             None
-- 
2.43.0


From cdc3b9881673544732b5b6a73e181651668fa0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 61/90] Revert "fix: Bound::try_combine refuses every disjoint
 pair"

This reverts commit 9cf18435d4e654b962b193381a618c0f5797a98b.
---
 crates/core/src/predicate/value_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index fc7901a..fc73bfe 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -654,7 +654,7 @@ impl<U: UInt> TestSet<U> {
 impl<U: UInt> Bound<U> {
     pub fn try_combine(self, other: Self) -> anyhow::Result<Self> {
         anyhow::ensure!(self.high >= other.low);
-        anyhow::ensure!(other.high >= self.low);
+        anyhow::ensure!(other.low <= self.high);
         Ok(Bound {
             high: self.high.min(other.high),
             low: self.low.max(other.low),
-- 
2.43.0


From 544b532ef1fef0b6ab73baf18f0f0267620dea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 62/90] Revert "fix: the set of all depths includes the maximum
 depth"

This reverts commit d5ca567cb6777b261327b73cd3eeea0dc073afa3.
---
 crates/core/src/predicate/bitset_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/bitset_test.rs b/crates/core/src/predicate/bitset_test.rs
index 598e0aa..7882bbb 100644
--- a/crates/core/src/predicate/bitset_test.rs
+++ b/crates/core/src/predicate/bitset_test.rs
@@ -48,7 +48,7 @@ impl FromStr for BitTestSet {
 
 impl<const MAX: u8> BitTestSet<MAX> {
     pub const NONE: BitTestSet<MAX> = BitTestSet(u32::MIN);
-    pub const ALL: BitTestSet<MAX> = BitTestSet(u32::MAX >> (31 - MAX));
+    pub const ALL: BitTestSet<MAX> = BitTestSet(u32::MAX >> (32 - MAX));
     pub fn greater_eq(ge: u32) -> Self {
         match u32::MAX.checked_shl(ge) {
             Some(g) => Self::ALL.and(BitTestSet(g)),
-- 
2.43.0


From 6a60d490db8b17adb9dbfeb08226d3ed8715a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 63/90] fix: contradicting mask predicates are an empty set
 instead of a panic

---
 crates/core/src/predicate/pkt_predicates.rs | 65 ++++++++++++++-------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 5b49e6b..774cf79 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -17,6 +17,7 @@ use anyhow::{ensure, Context};
 use super::{
     exprs::{Predicate, QScope},
     treekey::TreeKeys,
+    uint::UInt,
     value_test::*,
 };
 
@@ -118,6 +119,21 @@ impl std::fmt::Display for PktPredicates {
     }
 }
 
+/// the tests of contradicting masks are an empty set
+fn add<U: UInt>(set: &mut TestSet<U>, op: TestOp, val: U) {
+    set.add(op, val);
+    if !set.mask.has_any() {
+        *set = TestSet {
+            bound: Bound::EMPTY,
+            mask: Mask::DEFAULT,
+        }
+    }
+}
+fn try_add<U: UInt>(set: &mut TestSet<U>, op: TestOp, val: U) -> anyhow::Result<()> {
+    add(set, op, val);
+    ensure!(set.has_any(), "incompatible {op:?} {val:?}");
+    Ok(())
+}
 fn as_rules_it2<X, Y: Into<ABList>>(
     kind: impl Into<RuleType>,
     it: impl IntoIterator<Item = (TestOp, X)>,
@@ -243,21 +259,20 @@ impl PktPredicates {
         let op = *op;
         match kind {
             RuleType::Field(f) => {
-                self.pkt_types
-                    .try_add(TestOp::Mask1, f.info().pkts.bits())
+                try_add(&mut self.pkt_types, TestOp::Mask1, f.info().pkts.bits())
                     .with_context(|| format!("incompatible pkt typs:{rule:?}"))?;
                 match f {
-                    FieldEnum::PktTypeF => self.pkt_types.try_add(op, U8::try_from(val)?.0)?,
-                    FieldEnum::SizeF => self.size.try_add(op, U16::try_from(val)?.get())?,
+                    FieldEnum::PktTypeF => try_add(&mut self.pkt_types, op, U8::try_from(val)?.0)?,
+                    FieldEnum::SizeF => try_add(&mut self.size, op, U16::try_from(val)?.get())?,
                     FieldEnum::PktHashF => {
-                        self.hash.try_add(op, LkHash::try_from(val)?.into())?;
+                        try_add(&mut self.hash, op, LkHash::try_from(val)?.into())?;
                         if op == TestOp::Equal {
                             self.state.i_query.try_add(TestOp::Equal, 0u32)?;
                         }
                     }
-                    FieldEnum::DomainF => self
-                        .domain
-                        .try_add(op, Domain::try_from(val)?.uint().get())?,
+                    FieldEnum::DomainF => {
+                        try_add(&mut self.domain, op, Domain::try_from(val)?.uint().get())?
+                    }
                     FieldEnum::SpaceNameF => {
                         ensure!(op == TestOp::Equal, "space only supports equallity");
                         let rspace: RootedSpaceBuf = SpaceBuf::try_from(val)?.try_into_rooted()?;
@@ -270,35 +285,39 @@ impl PktPredicates {
                         self.check_space()?;
                     }
                     FieldEnum::DepthF => {
-                        self.depth.try_add(op, U8::try_from(val)?.0)?;
+                        try_add(&mut self.depth, op, U8::try_from(val)?.0)?;
                         self.check_space()?;
                     }
                     FieldEnum::GroupIDF => {
-                        self.group.try_add(op, GroupID::try_from(val)?.into())?
+                        try_add(&mut self.group, op, GroupID::try_from(val)?.into())?
                     }
-                    FieldEnum::CreateF => self.create.try_add(op, U64::try_from(val)?.get())?,
+                    FieldEnum::CreateF => try_add(&mut self.create, op, U64::try_from(val)?.get())?,
                     FieldEnum::PubKeyF => {
-                        self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
+                        try_add(&mut self.pubkey, op, PubKey::try_from(val)?.into())?;
                     }
                     FieldEnum::SignatureF | FieldEnum::DataF => {
                         anyhow::bail!("a predicate on {f} is not supported")
                     }
-                    FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
-                    FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
+                    FieldEnum::VarNetFlagsF => {
+                        try_add(&mut self.var_flags, op, U8::try_from(val)?.0)?
+                    }
+                    FieldEnum::VarHopF => {
+                        try_add(&mut self.var_hop, op, U32::try_from(val)?.get())?
+                    }
                     FieldEnum::VarStampF => {
-                        self.var_stamp.try_add(op, U64::try_from(val)?.get())?
+                        try_add(&mut self.var_stamp, op, U64::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits0F => {
-                        self.var_ubits[0].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[0], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits1F => {
-                        self.var_ubits[1].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[1], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits2F => {
-                        self.var_ubits[2].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[2], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits3F => {
-                        self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[3], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::RSpaceNameF
                     | FieldEnum::SpaceComp0F
@@ -312,10 +331,10 @@ impl PktPredicates {
                         anyhow::bail!("a predicate on {f} is not supported")
                     }
                     FieldEnum::DataSizeF => {
-                        self.data_size.try_add(op, U16::try_from(val)?.get())?
+                        try_add(&mut self.data_size, op, U16::try_from(val)?.get())?
                     }
                     FieldEnum::LinksLenF => {
-                        self.links_len.try_add(op, U16::try_from(val)?.get())?
+                        try_add(&mut self.links_len, op, U16::try_from(val)?.get())?
                     }
                 }
             }
@@ -332,7 +351,9 @@ impl PktPredicates {
                 self.prefix(sp)?;
             }
             RuleType::Limit(l) => {
-                self.state.idx(*l).add(op, U32::try_from(val)?.get());
+                let set = self.state.idx(*l);
+                let val = U32::try_from(val)?.get();
+                add(set, op, val);
                 self.state.is_valid()?;
             }
         };
-- 
2.43.0


From 7f4e7e5bf58185e7833ba9c1f3896b8ce40dfea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 64/90] Revert "fix: print the options of a query in the order
 they have to be read"

This reverts commit e7b9861ee2f3def6bee3396071cc7c2a41ea6b01.
---
 crates/core/src/query.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/query.rs b/crates/core/src/query.rs
index 15178fe..1db32c1 100644
--- a/crates/core/src/query.rs
+++ b/crates/core/src/query.rs
@@ -48,7 +48,7 @@ pub struct Query {
 }
 impl Display for Query {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        self.fmt_options(f)?;
+        Display::fmt(&self.conf, f)?;
         self.predicates.fmt(f)?;
         Ok(())
     }
@@ -85,21 +85,12 @@ impl Query {
     pub fn to_str(&self, canonical: bool) -> String {
         use std::fmt::Write;
         let mut out = String::new();
-        self.fmt_options(&mut out).unwrap();
-        writeln!(out).unwrap();
+        writeln!(out, "{}", &self.conf).unwrap();
         for p in self.predicates.iter() {
             writeln!(out, "{}", p.to_str(canonical)).unwrap();
         }
         out
     }
-    /// write the options in the order [Self::parse] has to add them. (ABConf itself prints the latest first)
-    fn fmt_options(&self, out: &mut impl std::fmt::Write) -> std::fmt::Result {
-        let latest_first: Vec<_> = self.conf.get_inner(&[]).collect();
-        for opt in latest_first.into_iter().rev() {
-            writeln!(out, "{opt}")?;
-        }
-        Ok(())
-    }
     pub fn add_option(&mut self, name: &str, values: &[&[u8]]) {
         let mut ab = ABList::DEFAULT;
         ab.push_v((Some(Ctr::Colon), name.as_bytes().to_vec()));
-- 
2.43.0


From 1dfaa68997ebc1a3b228c96dd15eb1a972b58ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 65/90] fix: the topmost of the options in a query text is the
 one in use, as printed

---
 crates/core/src/query.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/query.rs b/crates/core/src/query.rs
index 1db32c1..9410652 100644
--- a/crates/core/src/query.rs
+++ b/crates/core/src/query.rs
@@ -143,12 +143,21 @@ impl Query {
         }
     }
     pub fn parse(&mut self, multiline_stament: &[u8], scope: &dyn Scope) -> anyhow::Result<()> {
+        let mut options = vec![];
         for line in multiline_stament.split(|ch| *ch == b'\n') {
             if line.is_empty() {
                 continue;
             }
             let e = eval(scope, &abe::parse_abe_strict_b(line)?)?;
-            self.add_stmt(e)?;
+            if e[0].0.is_some() {
+                options.push(e)
+            } else {
+                self.add_stmt(e)?;
+            }
+        }
+        // they are found from top to bottom, so the first line has to end up on top - as it is printed
+        for opt in options.into_iter().rev() {
+            self.add_option_abl(opt)?
         }
         Ok(())
     }
-- 
2.43.0


From 51721ca36a44e29c03a81fd4be5d16c3531cbce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 66/90] fix: lk_process_while sleeps past packets saved while
 it looks at the log

---
 crates/common/src/runtime/rx.rs  |  4 +++-
 crates/core/src/env/lmdb/mod.rs  | 12 ++++++++++++
 crates/ipcbus/src/udp_procbus.rs | 12 ++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 9c05687..f482a33 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -185,6 +185,8 @@ impl Linkspace {
         // check the break conditions, and update 'next_check' as required for next check
         let mut awoken = None;
         loop {
+            // packets saved from here on, by a callback or another thread, must not be waited for
+            let seen = self.env().last_event();
             let log_head = self.process();
             tracing::trace!(ev_notify=?awoken,db_head=?log_head,"step");
             if let Some(awoken) = awoken {
@@ -256,7 +258,7 @@ impl Linkspace {
             };
 
             tracing::debug!(wakeup=?d(next_check), "waiting for new event");
-            awoken = self.env().next_deadline(Some(next_check));
+            awoken = self.env().next_deadline_since(seen, Some(next_check));
         }
     }
 
diff --git a/crates/core/src/env/lmdb/mod.rs b/crates/core/src/env/lmdb/mod.rs
index 876efad..8527f92 100644
--- a/crates/core/src/env/lmdb/mod.rs
+++ b/crates/core/src/env/lmdb/mod.rs
@@ -79,6 +79,18 @@ impl BTreeEnv {
     pub fn next_deadline(&self, deadline: Option<std::time::Instant>) -> Option<u64> {
         self.0.log_head.next_deadline(deadline)
     }
+    /// the last stamp that was announced, see [Self::next_deadline_since]
+    pub fn last_event(&self) -> u64 {
+        self.0.log_head.val()
+    }
+    /// like [Self::next_deadline], but returns immediately if there was an event since [Self::last_event] was `seen`
+    pub fn next_deadline_since(
+        &self,
+        seen: u64,
+        deadline: Option<std::time::Instant>,
+    ) -> Option<u64> {
+        self.0.log_head.next_deadline_since(seen, deadline)
+    }
     // private generic function.
     fn save<P: NetPkt>(&self, pkts: &mut [(P, SaveState)]) -> io::Result<Range<u64>> {
         let range = self.0.lmdb.save(pkts).map_err(db::as_io)?;
diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 563a2b6..210deb8 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -155,11 +155,23 @@ impl ProcBus {
         self.0.val.load(Ordering::SeqCst)
     }
     pub fn next_deadline(&self, deadline: Option<Instant>) -> Option<u64> {
+        self.wait_deadline(None, deadline)
+    }
+    /// like [Self::next_deadline], but only waits if nothing was emitted since the value was `seen`
+    pub fn next_deadline_since(&self, seen: u64, deadline: Option<Instant>) -> Option<u64> {
+        self.wait_deadline(Some(seen), deadline)
+    }
+    fn wait_deadline(&self, seen: Option<u64>, deadline: Option<Instant>) -> Option<u64> {
         tracing::trace!(ptr=%format!("{:p}",&self.0.val)
                         ,val=&self.0.val.load(Ordering::Relaxed),"Waiting");
         let mut listener = EventListener::new(&self.0.proc);
         let mut listener = unsafe { std::pin::Pin::new_unchecked(&mut listener) };
         listener.as_mut().listen();
+        // an emit before we were listening
+        let val = self.0.val.load(Ordering::SeqCst);
+        if seen.is_some_and(|seen| seen != val) {
+            return Some(val);
+        }
         match deadline {
             Some(d) => {
                 if listener.as_mut().wait_deadline(d).is_none() {
-- 
2.43.0


From 97fc16827b575bd667fc8384c46a5cd14a6851c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 67/90] fix: lk_get_all counts packets it skipped

---
 crates/linkspace/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/linkspace/src/lib.rs b/crates/linkspace/src/lib.rs
index 9ff5c2a..fb61a63 100644
--- a/crates/linkspace/src/lib.rs
+++ b/crates/linkspace/src/lib.rs
@@ -821,11 +821,14 @@ pub mod runtime {
         query: &Query,
         cb: &mut dyn FnMut(&dyn NetPkt) -> bool,
     ) -> LkResult<i32> {
-        let mut c = 0;
+        let mut i = 0;
+        // those skipped by a predicate on 'i' are part of i
+        let mut c: u32 = 0;
         let r = lk.0.get_reader();
         let mode = query.0.get_mode()?;
         let mut breaks = false;
-        for p in r.query(mode, &query.0.predicates, &mut c)? {
+        for p in r.query(mode, &query.0.predicates, &mut i)? {
+            c = c.saturating_add(1);
             breaks = (cb)(&p);
             if breaks {
                 break;
-- 
2.43.0


From 83ca45fd5758e6f278211d33fa2c082e5ca7ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 68/90] fix: the packet decoder loses what it read when a read
 is interrupted

---
 crates/common/src/pkt_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/pkt_reader.rs b/crates/common/src/pkt_reader.rs
index b8e2e62..c4742cc 100644
--- a/crates/common/src/pkt_reader.rs
+++ b/crates/common/src/pkt_reader.rs
@@ -58,7 +58,8 @@ impl<T: Read> Iterator for NetPktDecoder<T> {
                         buf = &mut tmp[n..];
                     }
                     Err(ref e) if e.kind() == ErrorKind::UnexpectedEof => return None,
-                    //Err(ref e) if e.kind() == ErrorKind::Interrupted && buf.len() == UPTO_PKT_SIZE => {return None}
+                    // to be tried again, or what was read already is lost
+                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                     Err(e) => return Some(Err(Error::IO(e))),
                 }
             }
-- 
2.43.0


From 40b91f662683b36f6528d3d9169dcb5811de5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 69/90] fix: lk_read_unchecked validates the hash in release
 builds

---
 crates/linkspace/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/lib.rs b/crates/linkspace/src/lib.rs
index fb61a63..abca3f1 100644
--- a/crates/linkspace/src/lib.rs
+++ b/crates/linkspace/src/lib.rs
@@ -184,7 +184,7 @@ pub mod point {
         buf: &[u8],
         allow_private: bool,
     ) -> Result<(Cow<NetPktPtr>, &[u8]), PktError> {
-        let pkt = linkspace_common::pkt::read::read_pkt(buf, cfg!(debug_assertions))?;
+        let pkt = linkspace_common::pkt::read::read_pkt(buf, true)?;
         if !allow_private {
             pkt.check_private()?
         };
-- 
2.43.0


From ac5e222b1b665a19fb8a3441d8c41c7597926777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 70/90] fix: readhash reads packets of the private group

---
 crates/common/src/eval/mod.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index 8493382..eb80c4c 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -66,6 +66,16 @@ where
     (core_scope(), (lns, local_lns, (files, readhash, env)))
 }
 
+fn check_private(group: &GroupID) -> anyhow::Result<()> {
+    // TODO decide on thread model
+    if *group == PRIVATE && !std::env::var("LK_PRIVATE")?.parse::<bool>()? {
+        anyhow::bail!(
+            "prevent reading [#:0] group or set LK_PRIVATE=true to enable ( dangerous if you're evaluating external abe )"
+        )
+    }
+    Ok(())
+}
+
 #[derive(Copy, Clone)]
 pub struct ReadHash<GT>(GT);
 impl<R: LKS> ReadHash<R> {
@@ -76,14 +86,7 @@ impl<R: LKS> ReadHash<R> {
             .map(|v| GroupID::try_fit_bytes_or_b64(v))
             .transpose()?
             .unwrap_or(PUBLIC);
-        if group == PRIVATE {
-            // TODO decide on thread model
-            if !std::env::var("LK_PRIVATE")?.parse::<bool>()? {
-                return Err(anyhow::anyhow!(
-                    "prevent reading [#:0] group or set LK_PRIVATE=true to enable ( dangerous if you're evaluating external abe )"
-                ));
-            }
-        }
+        check_private(&group)?;
         let space = Space::from_slice(inp.get(2).copied().unwrap_or(&[]))?.try_into_rooted()?;
         let key = inp
             .get(3)
@@ -123,6 +126,9 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                     let env = this.0.lk()?;
                     let reader = env.get_reader();
                     let pkt = reader.read(&hash)?.with_context(||format!("could not find pkt {}",hash))?;
+                    if let Some(group) = pkt.group() {
+                        check_private(group)?;
+                    }
                     let (id, args) = inp[1..].split_first().unwrap_or((&{b"pkt" as &[u8]},&[]));
                     let r = pkt_scope(&*pkt).try_apply_func(id, args, true,scope);
                     drop(reader);
@@ -167,6 +173,9 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                         ApplyResult::Value(r)
                     }
                     Some(pkt) => {
+                        if let Some(group) = pkt.group() {
+                            check_private(group)?;
+                        }
                         let r = eval(&(scope, pkt_scope(&pkt)), expr)?.concat();
                         //drop(pkt); drop(reader);
                         ApplyResult::Value(r)
-- 
2.43.0


From 78c0dbcb52caa7ad0bf9bfcac8b55eca489a6d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 71/90] fix: the readhash macro never evaluates its alternative

---
 crates/common/src/eval/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index eb80c4c..bc1eebc 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -161,6 +161,9 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                 let hash = it.next().context("missing hash")?;
                 let expr = it.next().context("missing expr")?;
                 let alt = it.next();
+                if it.next().is_some() {
+                    return ApplyResult::Err(anyhow::anyhow!("to many args?"));
+                }
                 let hash = eval(scope, hash)?.concat();
                 let hash: LkHash = LkHash::try_fit_slice(&hash)?;
                 let env = this.0.lk()?;
@@ -168,7 +171,6 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                 match reader.read(&hash)? {
                     None => {
                         let alt = alt.with_context(|| format!("could not find pkt {}", hash))?;
-                        it.next().context("to many args?")?;
                         let r = eval(scope, alt)?.concat();
                         ApplyResult::Value(r)
                     }
-- 
2.43.0


From 749c795f73cb7264fea180c8390c139974573b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 72/90] fix: macros that open a packet evaluate in the scope of
 another one

---
 crates/common/src/eval/mod.rs           | 2 +-
 crates/common/src/protocols/lns/eval.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index bc1eebc..22a195a 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -178,7 +178,7 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                         if let Some(group) = pkt.group() {
                             check_private(group)?;
                         }
-                        let r = eval(&(scope, pkt_scope(&pkt)), expr)?.concat();
+                        let r = eval(&(pkt_scope(&pkt), scope), expr)?.concat();
                         //drop(pkt); drop(reader);
                         ApplyResult::Value(r)
                     }
diff --git a/crates/common/src/protocols/lns/eval.rs b/crates/common/src/protocols/lns/eval.rs
index f9a1b19..87677ef 100644
--- a/crates/common/src/protocols/lns/eval.rs
+++ b/crates/common/src/protocols/lns/eval.rs
@@ -171,7 +171,7 @@ impl<R: LKS> EvalScopeImpl for NetLNS<R> {
                 ast::exact::<0>(_empty)?;
                 let name: Name = eval(scope, it.as_slice())?.try_into()?;
                 let claim = this.get_claim(name)?;
-                let v: ApplyResult = eval(&(scope, pkt_scope(&claim.pkt)), expr)
+                let v: ApplyResult = eval(&(pkt_scope(&claim.pkt), scope), expr)
                     .map(|v| v.concat())
                     .map_err(|e| anyhow!(e.to_string()))
                     .into();
@@ -249,7 +249,7 @@ impl<R: LKS> EvalScopeImpl for PrivateLNS<R> {
                 ast::exact::<0>(_empty)?;
                 let name: Name = eval(scope, it.as_slice())?.try_into()?;
                 let claim = this.get_claim(name)?.context("cant find claim")?;
-                let v: ApplyResult = eval(&(scope, pkt_scope(&claim.pkt)), expr)
+                let v: ApplyResult = eval(&(pkt_scope(&claim.pkt), scope), expr)
                     .map(|v| v.concat())
                     .map_err(|e| anyhow!(e.to_string()))
                     .into();
-- 
2.43.0


From db826f368f8f4f9e8c5040c3bf8f7ddd0d2da527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 73/90] fix: lk_tokenize_abe with a delimiter excluded twice

---
 crates/linkspace/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/lib.rs b/crates/linkspace/src/lib.rs
index abca3f1..a128d89 100644
--- a/crates/linkspace/src/lib.rs
+++ b/crates/linkspace/src/lib.rs
@@ -320,7 +320,7 @@ pub mod abe {
         let plain = exclude_ctr
             .iter()
             .filter_map(|v| CtrChar::try_from_char(*v))
-            .fold(0, |a, b| a ^ b as u32);
+            .fold(0, |a, b| a | b as u32);
         for (a, b, c) in tokenize_abe(expr, plain, 0)? {
             if !per_comp(a, b, c) {
                 return Ok(());
-- 
2.43.0


From 7339a6f928f4665d797e8d23f6f11e462389c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 74/90] fix: the empty space is not encoded as [/]

---
 crates/pkt/src/space_fmt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/pkt/src/space_fmt.rs b/crates/pkt/src/space_fmt.rs
index 64ce6e8..34dccc1 100644
--- a/crates/pkt/src/space_fmt.rs
+++ b/crates/pkt/src/space_fmt.rs
@@ -323,7 +323,11 @@ impl EvalScopeImpl for SpaceFE {
             Ok(start..end)
         }
         fn encode_sp(_: &SpaceFE, b: &[u8], _: &[ABE]) -> ApplyResult<String> {
-            Space::from_slice(b).ok().map(|p| format!("[/{p}]")).into()
+            Space::from_slice(b)
+                .ok()
+                .filter(|p| !p.is_empty()) // "[/]" is not an expression
+                .map(|p| format!("[/{p}]"))
+                .into()
         }
 
         crate::abe::fncs!([
-- 
2.43.0


From 29dde9c8636b100e0da3c1ebe94ca6f15d067feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 75/90] fix: readhash and read lose the recv stamp of the
 packet they read

---
 crates/common/src/eval/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index 22a195a..837b612 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -103,7 +103,7 @@ impl<R: LKS> ReadHash<R> {
             .context("no matching packet")?;
         let id = inp.get(4).copied().unwrap_or(b"pkt");
         let args = inp.get(5..).unwrap_or(&[]);
-        let r = pkt_scope(&*pkt).try_apply_func(id, args, true, scope);
+        let r = pkt_scope(&pkt).try_apply_func(id, args, true, scope);
         drop(reader);
         match r.into_opt() {
             Some(o) => o,
@@ -130,7 +130,7 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                         check_private(group)?;
                     }
                     let (id, args) = inp[1..].split_first().unwrap_or((&{b"pkt" as &[u8]},&[]));
-                    let r = pkt_scope(&*pkt).try_apply_func(id, args, true,scope);
+                    let r = pkt_scope(&pkt).try_apply_func(id, args, true,scope);
                     drop(reader);
                     r
                 },
-- 
2.43.0


From 2c4a46e00eb9bb782eb4d62c2910a26e1403ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 76/90] fix: names are looked up in what the store holds now,
 not in what it held when last processed

---
 crates/common/src/protocols/lns/admin.rs | 2 +-
 crates/common/src/protocols/lns/mod.rs   | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/protocols/lns/admin.rs b/crates/common/src/protocols/lns/admin.rs
index 09a9c89..b758088 100644
--- a/crates/common/src/protocols/lns/admin.rs
+++ b/crates/common/src/protocols/lns/admin.rs
@@ -24,7 +24,7 @@ pub(crate) fn save_private_claim(
     and: &[&dyn NetPkt],
     priority: bool,
 ) -> anyhow::Result<bool> {
-    let read = lk.get_reader();
+    let read = lk.env().new_read_txn()?;
     let admin_k = admin.map(|v| v.pubkey());
     let now = now();
     // This claim is being overwritten. This means its old by-tag ptrs must be removed as well.
diff --git a/crates/common/src/protocols/lns/mod.rs b/crates/common/src/protocols/lns/mod.rs
index bb1cf29..87bee22 100644
--- a/crates/common/src/protocols/lns/mod.rs
+++ b/crates/common/src/protocols/lns/mod.rs
@@ -128,7 +128,7 @@ pub fn lookup_live_chain(
     match name.name_type() {
         NameType::Local => {
             // No admin process exists yet so we pretend something setup the correct :local claims
-            match local_claim::get_private_claim(&lk.get_reader(), name, None).into_ok()? {
+            match local_claim::get_private_claim(&lk.env().new_read_txn()?, name, None).into_ok()? {
                 Some(claim) => Ok(Ok(LiveClaim {
                     claim: Claim::from(claim)?,
                     signatures: vec![],
@@ -139,7 +139,7 @@ pub fn lookup_live_chain(
         }
         // The admin process doesn't exist yet so we walk the chain for now
         NameType::Public => public_claim::walk_live_claims(
-            &lk.get_reader(),
+            &lk.env().new_read_txn()?,
             public_claim::root_claim(),
             &mut name.space().iter(),
             issue_handler,
@@ -154,7 +154,8 @@ pub fn lookup_enckey(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<(PubK
             Ok(k) => Ok(Some(k)),
             Err(None) => Ok(None),
             Err(Some(link)) => Ok(lk
-                .get_reader()
+                .env()
+                .new_read_txn()?
                 .read(&link.ptr)?
                 .map(|pkt| read_enckey(pkt.data()))
                 .transpose()?),
@@ -178,7 +179,7 @@ pub fn lookup_claim(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<Claim>
 #[instrument(skip(lk), ret)]
 pub fn reverse_lookup(lk: &Linkspace, tag: &[u8], ptr: LkHash) -> ApplyResult<Claim> {
     // Because we can't yet trust the admin, we have to do a forward lookup as well to validate this is a valid claim.
-    let claim = admin::ptr_lookup(&lk.get_reader(), tag, ptr, None)?;
+    let claim = admin::ptr_lookup(&lk.env().new_read_txn()?, tag, ptr, None)?;
     let name = &claim.name;
     let by_name = lookup_claim(lk, name)??;
     if by_name
-- 
2.43.0


From 5e69bb2f463fb9b10ced62051c878de8c4e22631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 77/90] fix: claims of names with more than one component are
 found

---
 crates/common/src/protocols/lns/public_claim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index e67b03d..1553d45 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -71,9 +71,10 @@ pub fn walk_live_claims(
         .get_rooted_spacename()
         .into_buf()
         .append(sub);
+    let depth = rspace.depth() as u8;
     let mut predicates =
         Query::dgsk(LNS, *parent.claim.pkt.get_group(), rspace, B64([255; 32])).predicates;
-    predicates.depth.add(crate::core::prelude::TestOp::Equal, 2);
+    predicates.depth.add(TestOp::Equal, depth);
     let mut claim_votes: LkHashMap<(Option<Claim>, Vec<RecvPkt>)> = Default::default();
     let mut _count = 0;
     let max_required_votes = (parent.claim.authorities().count() + 1) / 2;
-- 
2.43.0


From b67ff5f79d0ab7fadaed405157ef9d081ddd2f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 78/90] fix: a tie between claims is seen when other claims
 have fewer votes

---
 crates/common/src/protocols/lns/public_claim.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index 1553d45..959d2bb 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -154,6 +154,7 @@ pub fn walk_live_claims(
     let live = votes_by_claim.pop().unwrap();
     let mut ties: Vec<_> = votes_by_claim
         .into_iter()
+        .rev()
         .take_while(|p| order(&live) == order(p))
         .collect();
     if !ties.is_empty() {
-- 
2.43.0


From 6add408455f49797c6c7eb3691580a54473f3ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 79/90] fix: the newest local claim is the live one

---
 crates/common/src/protocols/lns/claim.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/claim.rs b/crates/common/src/protocols/lns/claim.rs
index 2963935..258d526 100644
--- a/crates/common/src/protocols/lns/claim.rs
+++ b/crates/common/src/protocols/lns/claim.rs
@@ -101,7 +101,12 @@ impl Claim {
         links[0].tag[0..8].copy_from_slice(&until.0);
         let path = name.claim_space();
         let group = name.claim_group();
-        let pkt = linkpoint(group, LNS, &path, links, data, Stamp::ZERO, ()).as_netbox();
+        // The newest local claim is the live one, public claims are made live by votes.
+        let create = match name.name_type() {
+            NameType::Local => now(),
+            NameType::Public => Stamp::ZERO,
+        };
+        let pkt = linkpoint(group, LNS, &path, links, data, create, ()).as_netbox();
         ensure!(*pkt.get_create_stamp() < until);
         Self::from(pkt)
     }
-- 
2.43.0


From 883183cd78137c9ddf47419fe82351a01e123687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 80/90] fix: lk_status_set answers requests of its own domain
 in the private group only

---
 crates/linkspace/src/conventions/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index bcd88e9..208753d 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -212,6 +212,8 @@ pub fn lk_status_set(
     std::mem::drop(initpkt);
 
     let mut q = lk_query(&Q);
+    q = lk_query_push(q, "group", "=", &*PRIVATE)?;
+    q = lk_query_push(q, "domain", "=", &*status.domain)?;
     let prefix = lk_status_space(LkStatus {
         instance: None,
         ..status
-- 
2.43.0


From 426b24b242c811dfbee9d463f8cb5d90dbfed8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 81/90] fix: lk_status_watch waits from the newest request, not
 from the oldest

---
 crates/linkspace/src/conventions/status.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index 208753d..0520f9e 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -129,7 +129,7 @@ pub fn lk_status_watch(
     // We want to capture any old request, so we first lk_get_all both requests and replies.
     lk_get_all(lk, &query, &mut |pkt| {
         if pkt.get_links().is_empty() && pkt.data().is_empty() {
-            last_request = *pkt.get_create_stamp();
+            last_request = last_request.max(*pkt.get_create_stamp());
             tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
             false
         } else {
-- 
2.43.0


From f6e596aa2867f29e2f83a372e030cd586abc8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 82/90] fix: a point with only data or only links is not a
 status reply

---
 crates/linkspace/src/conventions/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index 0520f9e..dd0d9a3 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -132,6 +132,8 @@ pub fn lk_status_watch(
             last_request = last_request.max(*pkt.get_create_stamp());
             tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
             false
+        } else if pkt.get_links().is_empty() || pkt.data().is_empty() {
+            false
         } else {
             ok = true;
             let cnt = (cb).handle_pkt(pkt, lk);
-- 
2.43.0


From 13e0566360f94b2b25df2833e4331bb812448097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 83/90] fix: lk_pull reports a query id that does not fit as an
 error

---
 crates/linkspace/src/conventions/pull.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/pull.rs b/crates/linkspace/src/conventions/pull.rs
index d9890ca..00b5055 100644
--- a/crates/linkspace/src/conventions/pull.rs
+++ b/crates/linkspace/src/conventions/pull.rs
@@ -42,7 +42,8 @@ pub fn lk_pull_point(query: &Query) -> LkResult<NetPktBox> {
         .context("missing :qid:... option")?;
     let data = query.0.to_string();
     tracing::trace!(data);
-    let pull_space = rspace_buf(&[b"pull", &*group, &*domain, id]);
+    let pull_space = RootedSpaceBuf::try_from_iter(&[b"pull" as &[u8], &*group, &*domain, id])
+        .context("the :qid: does not fit in a space")?;
     let pkt = lk_linkpoint(
         data.as_bytes(),
         EXCHANGE_DOMAIN,
-- 
2.43.0


From 358e512146943066b517a9e5fd71d8dfb07cd907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 84/90] fix: a directory opened from several threads at once is
 opened once

---
 crates/common/src/static_env.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/common/src/static_env.rs b/crates/common/src/static_env.rs
index 3dbff1d..8dba33b 100644
--- a/crates/common/src/static_env.rs
+++ b/crates/common/src/static_env.rs
@@ -30,19 +30,14 @@ pub fn get_env(path: &Path, mkdir: bool) -> io::Result<BTreeEnv> {
         }
         Err(e) => return Err(e),
     };
-    if let Some(v) = ENVS
-        .read()
-        .unwrap()
-        .as_ref()
-        .and_then(|o| o.get(&handle).cloned())
-    {
-        return Ok(v);
+    // Held while opening, so that two threads never open the same directory twice.
+    let mut envs = ENVS.write().unwrap();
+    let envs = envs.get_or_insert_default();
+    if let Some(v) = envs.get(&handle) {
+        return Ok(v.clone());
     }
     let env = BTreeEnv::open(path.to_owned(), mkdir)?;
-    ENVS.write()
-        .unwrap()
-        .get_or_insert_default()
-        .insert(handle, env.clone());
+    envs.insert(handle, env.clone());
     Ok(env)
 }
 
-- 
2.43.0


From 9fa906fdf84e4c8c7f759a6112b6d0860b5a06fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 85/90] fix: --no-pkts reads no packets instead of panicking

---
 crates/common/src/cli/opts.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/cli/opts.rs b/crates/common/src/cli/opts.rs
index 3d22d27..7d19326 100644
--- a/crates/common/src/cli/opts.rs
+++ b/crates/common/src/cli/opts.rs
@@ -256,10 +256,10 @@ impl CommonOpts {
         inp: &PktReadOpts,
     ) -> io::Result<NetPktDecoder<Box<dyn std::io::Read>>> {
         // Do not buffer. cli like handshake must not buffer partial packets and have  subsequent programs fail
-        let reader = inp
-            .open()?
-            .expect("bug: - should be empty reader")
-            .into_read();
+        let reader = match inp.open()? {
+            Some(source) => source.into_read(),
+            None => Box::new(io::empty()),
+        };
         Ok(NetPktDecoder {
             reader,
             allow_private: self.read_private().unwrap_or(false),
-- 
2.43.0


From c5055ce9cf72d37deda36fbe9d2ad01d79ee323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 86/90] fix: data carried over to the next packet keeps its
 order and its tail

---
 crates/common/src/cli/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/cli/reader.rs b/crates/common/src/cli/reader.rs
index 60766c3..01c6bda 100644
--- a/crates/common/src/cli/reader.rs
+++ b/crates/common/src/cli/reader.rs
@@ -236,7 +236,8 @@ impl Reader {
         freespace: usize,
         buf: &mut Vec<u8>,
     ) -> anyhow::Result<Option<()>> {
-        if self.call_limit == 0 {
+        // what was read already is not limited
+        if self.call_limit == 0 && self.next.is_none() {
             return Ok(None);
         }
 
@@ -244,6 +245,9 @@ impl Reader {
             if self.on_overflow == EMode::Carry {
                 self.read_next_data(scope, freespace, buf)?;
                 b.extend_from_slice(buf);
+                if let Some(rest) = self.next.take() {
+                    b.extend(rest);
+                }
                 *buf = b;
             } else {
                 *buf = b;
-- 
2.43.0


From dd5c6eedb75038d6e8451f073af99f75472af2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:53 +0000
Subject: [PATCH 87/90] fix: multi-watch --or leaves nothing behind of a
 constraint that failed

---
 cli/linkspace/src/multi_watch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/linkspace/src/multi_watch.rs b/cli/linkspace/src/multi_watch.rs
index 8e02d62..59ef1a4 100644
--- a/cli/linkspace/src/multi_watch.rs
+++ b/cli/linkspace/src/multi_watch.rs
@@ -84,7 +84,10 @@ pub fn setup_watch(
 
     let mut ok = mv.constraint.or.is_empty();
     for opt in mv.constraint.or.iter() {
-        if query.parse(opt.as_bytes(), &cli_scope).is_ok() {
+        // a failed parse can leave part of the constraint behind
+        let mut constrained = query.clone();
+        if constrained.parse(opt.as_bytes(), &cli_scope).is_ok() {
+            query = constrained;
             ok = true;
             break;
         }
-- 
2.43.0


From 36520ad4fc6c451179f13861a41d054096efdc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 88/90] fix: a handler that stops lk_status_watch with a recent
 reply is not called again

---
 crates/linkspace/src/conventions/status.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index dd0d9a3..7b35c44 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -117,13 +117,15 @@ pub fn lk_status_watch(
     d_timeout: Stamp,
     mut cb: impl crate::runtime::cb::PktHandler + 'static,
 ) -> LkResult<bool> {
-    use crate::runtime::{lk_get_all, lk_watch2};
+    use crate::runtime::{cb::StopReason, lk_get_all, lk_stop, lk_watch2};
     use linkspace_common::prelude::{U16, U32};
     use tracing::debug_span;
 
     let span = debug_span!("status_poll", ?status, ?d_timeout);
     let _ = span.enter();
     let mut ok = false;
+    let mut replies = 0;
+    let mut is_break = false;
     let mut last_request = Stamp::ZERO;
     let mut query: Query = lk_status_overwatch(status, d_timeout)?;
     // We want to capture any old request, so we first lk_get_all both requests and replies.
@@ -138,9 +140,17 @@ pub fn lk_status_watch(
             ok = true;
             let cnt = (cb).handle_pkt(pkt, lk);
             tracing::debug!("recently replied");
-            cnt.is_break()
+            replies += 1;
+            is_break = cnt.is_break();
+            is_break
         }
     })?;
+    if is_break {
+        // the callback has what it wants. As with any watch, it is not called again and replaces the one with the same qid.
+        lk_stop(lk, status.qid, false);
+        cb.stopped(query, lk, StopReason::Break, replies, 0);
+        return Ok(true);
+    }
     if last_request == Stamp::ZERO {
         tracing::debug!("creating new req");
         let req = lk_status_request(status).unwrap();
-- 
2.43.0


From 3fb889fb791004f13e20fcb1028c3d89bce0074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:35 +0000
Subject: [PATCH 89/90] fix: lk key --overwrite with a new password made
 another key

---
 crates/common/src/cli/keys.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/cli/keys.rs b/crates/common/src/cli/keys.rs
index 2e65599..cc7c192 100644
--- a/crates/common/src/cli/keys.rs
+++ b/crates/common/src/cli/keys.rs
@@ -198,7 +198,8 @@ pub fn keygen(common: &CommonOpts, opts: KeyGenOpts) -> anyhow::Result<()> {
         },
     };
     tracing::debug!(?enckey);
-    if new_pass || new_pass_str.is_some() {
+    let change_pass = new_pass || new_pass_str.is_some();
+    if change_pass {
         let keystr = enckey.context("new_pass but no --enckey found")?;
         let old_password = key.password_bytes_prompt(common, true, "old password: ")?;
         let skey = decrypt(&keystr, &old_password)?;
@@ -210,7 +211,7 @@ pub fn keygen(common: &CommonOpts, opts: KeyGenOpts) -> anyhow::Result<()> {
     }
 
     if overwrite {
-        let enckey = match user_enckey_input {
+        let enckey = match user_enckey_input || change_pass {
             true => {
                 let enckey = enckey.unwrap();
                 if !no_check {
-- 
2.43.0


From c60afd7fa8d7b2b046c0a9db181d645181ffa380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:30 +0000
Subject: [PATCH 90/90] fix: get-links: an error below the first level of links
 is an error

Errors of a watch's callback only stop that watch, so with -r N a link missing
below the first level in 'error' mode (or a failed write of a linked packet)
ended with exit status 0.
---
 cli/linkspace/src/get_links.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/cli/linkspace/src/get_links.rs b/cli/linkspace/src/get_links.rs
index cfbb567..8c0fbbc 100644
--- a/cli/linkspace/src/get_links.rs
+++ b/cli/linkspace/src/get_links.rs
@@ -53,17 +53,30 @@ pub fn get_links(
         let qid = [&count_be as &[u8], &*link.ptr].concat();
         let q = lk_query_push(lk_hash_query(link.ptr), "", "qid", &qid)?;
         let print_fnc = out.clone();
+        // the result of a callback only decides if the watch continues
+        let failed = Rc::new(RefCell::new(None));
+        let set_failed = failed.clone();
         let res = lk_watch(
             lk,
             &q,
             try_cb(move |p, lk| -> anyhow::Result<()> {
-                print_fnc.borrow_mut()(p)?;
-                if level > 0 {
-                    get_links(lk, p, level - 1, mode, print_fnc.clone())?;
-                }
-                Ok(())
+                let mut found = || -> anyhow::Result<()> {
+                    print_fnc.borrow_mut()(p)?;
+                    if level > 0 {
+                        get_links(lk, p, level - 1, mode, print_fnc.clone())?;
+                    }
+                    Ok(())
+                };
+                found().map_err(|e| {
+                    let msg = e.to_string();
+                    *set_failed.borrow_mut() = Some(e);
+                    anyhow::anyhow!(msg)
+                })
             }),
         )?;
+        if let Some(e) = failed.take() {
+            return Err(e);
+        }
         if res != 0 {
             continue;
         }
@@ -81,6 +94,9 @@ pub fn get_links(
                 if lk_process_while(lk, Some(&*qid), Stamp::ZERO)? == 0 {
                     bail!("link {link} not found (from {})", pkt.hash())
                 }
+                if let Some(e) = failed.take() {
+                    return Err(e);
+                }
             }
             GetLinksMode::Error => bail!("link {link} not found (from {})", pkt.hash()),
         };
-- 
2.43.0

