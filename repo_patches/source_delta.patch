From 0ba5bb21454479087e72d0b58b54d006d74ece46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:22 +0000
Subject: [PATCH 01/66] fix: ByteSet::max_elem inspects the set's own words,
 not their complement

---
 src/byte_set.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte_set.rs b/src/byte_set.rs
index 7c1c47b..7174841 100644
--- a/src/byte_set.rs
+++ b/src/byte_set.rs
@@ -108,13 +108,13 @@ impl ByteSet {
         if let Some(i) = max_set_bit(self.bits[3]) {
             return Some(0xc0 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[2]) {
+        if let Some(i) = max_set_bit(self.bits[2]) {
             return Some(0x80 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[1]) {
+        if let Some(i) = max_set_bit(self.bits[1]) {
             return Some(0x40 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[0]) {
+        if let Some(i) = max_set_bit(self.bits[0]) {
             return Some(i);
         }
         None
-- 
2.43.0


From 813ff29268271d771110fd46545035bf759b6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:22 +0000
Subject: [PATCH 02/66] fix: rendering a byte set with a run ending at 255 no
 longer overflows

---
 src/byte_set/pretty_print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/byte_set/pretty_print.rs b/src/byte_set/pretty_print.rs
index 810b6c0..6246349 100644
--- a/src/byte_set/pretty_print.rs
+++ b/src/byte_set/pretty_print.rs
@@ -143,7 +143,7 @@ impl ByteSet {
         parts.into_iter().for_each(|(rank, mins)| {
             if rank >= THRESHOLD {
                 mins.into_iter().for_each(|lo| {
-                    tokens.push(format!("⟦{lo},{}⟧", lo + rank - 1));
+                    tokens.push(format!("⟦{lo},{}⟧", lo + (rank - 1)));
                 });
             } else {
                 for lo in mins {
-- 
2.43.0


From 93478e184bbefd9e47f1c89e037542cc95e84007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:06 +0000
Subject: [PATCH 03/66] fix: lookahead past a repeated nullable format no
 longer recurses without bound

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 21c666f..a19a567 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1664,7 +1664,16 @@ impl<'a> MatchTreeStep<'a> {
             }
             Next::Repeat(a, next0) => {
                 let tree = MatchTreeStep::<'a>::from_next(module, next0.clone());
-                let next1 = next.clone();
+                // NOTE - a nullable body would lead straight back to this same `next` without consuming anything
+                let is_nullable = match a {
+                    MaybeTyped::Untyped(f) => f.is_nullable(module),
+                    MaybeTyped::Typed(tf) => tf.is_nullable(),
+                };
+                let next1 = if is_nullable {
+                    Rc::new(Next::Empty)
+                } else {
+                    next.clone()
+                };
                 tree.union(MatchTreeStep::<'a>::from_mt_format(module, *a, next1))
             }
             Next::RepeatBetween(n, m, a, next0) => {
-- 
2.43.0


From 73721d05e030b0e39fb46ebf10c53c91a18bcd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 04/66] fix: bounded repetition looks ahead from the current
 position and rejects short input instead of aborting

---
 src/decoder.rs     | 9 ++++++---
 src/loc_decoder.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 113093c..ec8c848 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1389,9 +1389,9 @@ impl Decoder {
                 let max = max.eval_value(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(input).ok_or(
+                    if reps_left_tree.matches(*input).ok_or(
                         DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         }
@@ -1400,7 +1400,10 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(v.len()));
                         }
                         break;
                     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 099dec3..ef1f550 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1571,10 +1571,10 @@ impl Decoder {
                 let max = max.eval_value_with_loc(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
                     if reps_left_tree
-                        .matches(input)
+                        .matches(*input)
                         .ok_or(DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         })?
@@ -1582,7 +1582,10 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .into());
                         }
                         break;
                     }
-- 
2.43.0


From f0e08aeea0f5698d3263d785da36e7259e2c896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:51 +0000
Subject: [PATCH 05/66] fix: nested patterns see through mapping and branch
 wrappers, as the outermost one does

---
 src/decoder/value.rs | 10 ++++++----
 src/loc_decoder.rs   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d60dc8..ca47aa0 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -236,7 +236,7 @@ impl Value {
             Pattern::Tuple(ps) => match self {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -247,7 +247,7 @@ impl Value {
             Pattern::Seq(ps) => match self {
                 Value::Seq(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -256,12 +256,14 @@ impl Value {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                Value::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                Value::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_nominal_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, Value::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                Value::Option(Some(v)) => v.matches_inner(scope, p),
+                Value::Option(Some(v)) => v.coerce_nominal_value().matches_inner(scope, p),
                 _ => false,
             },
         }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index ef1f550..8341b60 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -397,7 +397,7 @@ impl ParsedValue {
             Pattern::Tuple(ps) => match self {
                 ParsedValue::Tuple(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_mapped_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -408,7 +408,7 @@ impl ParsedValue {
             Pattern::Seq(ps) => match self {
                 ParsedValue::Seq(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_mapped_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -417,12 +417,14 @@ impl ParsedValue {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                ParsedValue::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                ParsedValue::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_mapped_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, ParsedValue::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
+                ParsedValue::Option(Some(v)) => v.coerce_mapped_value().matches_inner(scope, p),
                 _ => false,
             },
             Pattern::Int(bounds) => match self {
-- 
2.43.0


From 908716cb6745a7e3e6f3e16ea5650ac65ffb3b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 06/66] fix: sizes and offsets near the integer limit are
 reported as out of range instead of overflowing

---
 src/decoder.rs     | 2 +-
 src/loc_decoder.rs | 2 +-
 src/read.rs        | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index ec8c848..6b02a08 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1529,7 +1529,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base = base_addr.eval_value(scope).unwrap_usize();
                 let offset = expr.eval_value(scope).unwrap_usize();
-                let abs_offset = base + offset;
+                let abs_offset = base.saturating_add(offset);
                 let seek_input = input.seek_to(abs_offset).ok_or(
                     DecodeErrorKind::bad_seek(abs_offset, input.input.len())
                         .with_trace("WithRelativeOffset(seek)"),
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 8341b60..65c3094 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1745,7 +1745,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base_addr = base_addr.eval_value_with_loc(scope).unwrap_usize();
                 let offset = expr.eval_value_with_loc(scope).unwrap_usize();
-                let abs_offset = base_addr + offset;
+                let abs_offset = base_addr.saturating_add(offset);
                 let seek_input = input
                     .seek_to(abs_offset)
                     .ok_or(DecodeErrorKind::bad_seek(abs_offset, input.input.len()))?;
diff --git a/src/read.rs b/src/read.rs
index 49a348b..658fea9 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -47,13 +47,14 @@ impl<'a> ReadCtxt<'a> {
     /// Returns `None` if the specified position is out of bounds, i.e., if `offset + n`
     /// exceeds the length of the input.
     pub fn split_at(&self, n: usize) -> Option<(ReadCtxt<'a>, ReadCtxt<'a>)> {
-        if self.offset + n <= self.input.len() {
+        let end = self.offset.checked_add(n)?;
+        if end <= self.input.len() {
             let fst = ReadCtxt {
-                input: &self.input[..self.offset + n],
+                input: &self.input[..end],
                 ..*self
             };
             let snd = ReadCtxt {
-                offset: self.offset + n,
+                offset: end,
                 ..*self
             };
             Some((fst, snd))
-- 
2.43.0


From 8a0b6a648b521ff05654cd2693268249bae834eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:04 +0000
Subject: [PATCH 07/66] fix: look past a bounded repetition whose limits
 coincide

---
 src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a19a567..49ded05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1680,10 +1680,9 @@ impl<'a> MatchTreeStep<'a> {
                 let min = *n;
                 let max = *m;
                 if min == max {
-                    // FIXME - this is technically allowable but we don't expect to get here...
-                    unreachable!("RepeatBetween(x, y, ..) precludes x == y");
-                }
-                if min > 0 {
+                    // NOTE - reached through the follow-set of `RepeatBetween(0, 1, ..)`
+                    Self::from_next(module, Rc::new(Next::RepeatCount(min, *a, next0.clone())))
+                } else if min > 0 {
                     Self::from_mt_format(
                         module,
                         *a,
-- 
2.43.0


From 59831e382353f45561dd993b1a1545061c6382f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:04 +0000
Subject: [PATCH 08/66] fix: bytes produced by a mapped format can be decoded
 again

---
 src/decoder/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index ca47aa0..dafcaf1 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -370,7 +370,7 @@ impl Value {
 
     /// Unwraps `Value::U8` and returns the contained value, or panics if the value is not `Value::U8`.
     pub(crate) fn get_as_u8(&self) -> u8 {
-        match self {
+        match self.coerce_mapped_value() {
             Value::U8(n) => *n,
             Value::U16(..) | Value::U32(..) | Value::U64(..) | Value::Usize(..) => panic!(
                 "value is numeric but not u8 (this may be a soft error, or even success, in future)"
-- 
2.43.0


From 422be55b2c637d2ea0bfd4c13ec5c87bcf7ee8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:50 +0000
Subject: [PATCH 09/66] fix: shifting by more than the width is an error for
 every amount, not only those below 2^32

---
 src/decoder/value.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index dafcaf1..31f9a6c 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -418,7 +418,7 @@ where
     T: num_traits::CheckedRem,
     T: num_traits::CheckedShl,
     T: num_traits::CheckedShr,
-    T: num_traits::AsPrimitive<u32>,
+    T: num_traits::ToPrimitive,
     T: std::ops::BitOr<Output = T>,
     T: std::ops::BitAnd<Output = T>,
 {
@@ -438,8 +438,12 @@ where
         Arith::Rem => left
             .checked_rem(&right)
             .unwrap_or_else(|| panic!("integer overflow")),
-        Arith::Shl => left << right.as_(),
-        Arith::Shr => left >> right.as_(),
+        Arith::Shl => (right.to_u32())
+            .and_then(|n| left.checked_shl(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
+        Arith::Shr => (right.to_u32())
+            .and_then(|n| left.checked_shr(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
         Arith::BitOr => left | right,
         Arith::BitAnd => left & right,
         Arith::BoolOr | Arith::BoolAnd => unreachable!("bool ops should be handled separately"),
-- 
2.43.0


From e25feaeddf40c057aca01bf09654ad2995e8cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:24 +0000
Subject: [PATCH 10/66] fix: a permitted format may consume nothing, so its
 match bounds include zero

---
 src/codegen/typed_format.rs | 5 +++--
 src/format.rs               | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/codegen/typed_format.rs b/src/codegen/typed_format.rs
index cba0d8e..a8c1749 100644
--- a/src/codegen/typed_format.rs
+++ b/src/codegen/typed_format.rs
@@ -481,8 +481,9 @@ impl TypedFormat<GenType> {
             }
             #[cfg(feature = "format_enforce")]
             TypedFormat::Enforce(.., inner) => inner.match_bounds(),
-            TypedFormat::Permit(.., inner, _) | TypedFormat::Hint(.., inner) => {
-                inner.match_bounds()
+            TypedFormat::Hint(.., inner) => inner.match_bounds(),
+            TypedFormat::Permit(.., inner, _) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds())
             }
             TypedFormat::LiftedOption(_, f) => {
                 f.as_ref().map_or(Bounds::exact(0), |f| f.match_bounds())
diff --git a/src/format.rs b/src/format.rs
index 12f1662..dcdc60d 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -312,7 +312,11 @@ impl Format {
             Format::LetFormat(first, _, second) | Format::MonadSeq(first, second) => {
                 first.match_bounds(module) + second.match_bounds(module)
             }
-            Format::Permit(inner, ..) | Format::Hint(.., inner) => inner.match_bounds(module),
+            Format::Hint(.., inner) => inner.match_bounds(module),
+            // NOTE - when `inner` fails, nothing is consumed
+            Format::Permit(inner, ..) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds(module))
+            }
             #[cfg(feature = "format_enforce")]
             Format::Enforce(inner) => inner.match_bounds(module),
             Format::LiftedOption(opt) => match opt {
-- 
2.43.0


From c9f511b6ba68e538c2ab726bd51f1794b7bda394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:37 +0000
Subject: [PATCH 11/66] fix: negation and absolute value of the least signed
 integer are reported, not overflowed

---
 src/numeric/eval.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/numeric/eval.rs b/src/numeric/eval.rs
index 4f4cdca..564c6c3 100644
--- a/src/numeric/eval.rs
+++ b/src/numeric/eval.rs
@@ -577,7 +577,10 @@ macro_rules! negate_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $(
             pub fn $fname(x: $t) -> Eval<$t> {
-                Eval::Direct(<$t as Neg>::neg(x))
+                match x.checked_neg() {
+                    Some(res) => Eval::Direct(res),
+                    None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || BigInt::from(x).neg()))) }),
+                }
             }
         )*
     };
@@ -640,12 +643,10 @@ macro_rules! negate_unsigned_unsigned {
 macro_rules! abs_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $( pub fn $fname(x: $t) -> Eval<$t> {
-            let tmp = <$t as ::num_traits::Signed>::abs(&x);
-            // NOTE - Signed::abs(iX::MIN) == iX::MIN
-            if tmp == <$t>::MIN {
-                Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) })
-            } else {
-                Eval::Direct(tmp)
+            // NOTE - the absolute value of iX::MIN is not representable
+            match x.checked_abs() {
+                Some(res) => Eval::Direct(res),
+                None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) }),
             }
         } )+
     };
@@ -668,12 +669,7 @@ macro_rules! abs_signed_unsigned {
         $(
             $(
                 pub fn $fname(x: $t) -> Eval<$t1> {
-                    let tmp = <$t as ::num_traits::Signed>::abs(&x);
-                    if tmp == <$t>::MIN {
-                        Eval::Direct(<$t>::MAX as $t1 + 1)
-                    } else {
-                        Eval::Direct(tmp as $t1)
-                    }
+                    Eval::Direct(x.unsigned_abs() as $t1)
                 }
             )+
         )+
-- 
2.43.0


From 338b4ef2d6bcc2bbfbc2e2605f2a56bc80e152bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:50 +0000
Subject: [PATCH 12/66] fix: a numeric expression with an unrepresentable
 result is an error, as in generated code, not an out-of-range value

---
 src/decoder.rs     | 5 +++--
 src/loc_decoder.rs | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6b02a08..3f67595 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -72,8 +72,9 @@ impl Expr {
             Expr::U32(i) => Cow::Owned(Value::U32(*i)),
             Expr::U64(i) => Cow::Owned(Value::U64(*i)),
             Expr::Numeric(n) => {
-                match n.eval(scope) {
-                    Ok(v) => Cow::Owned(v.into()),
+                match n.eval_strict(scope) {
+                    Ok(v) if v.is_valid() => Cow::Owned(v.value.into()),
+                    Ok(v) => panic!("numeric expression has unrepresentable terms: {}", v.value),
                     // REVIEW[epic=embedded-num] - we probably want a more sensible outcome than panic
                     Err(e) => panic!("{e}"),
                 }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 65c3094..f29d59b 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -597,9 +597,12 @@ impl Expr {
             Expr::U32(i) => Cow::Owned(ParsedValue::from_evaluated(Value::U32(*i))),
             Expr::U64(i) => Cow::Owned(ParsedValue::from_evaluated(Value::U64(*i))),
             Expr::Numeric(n) => {
-                let num_val = n.eval(scope);
+                let num_val = n.eval_strict(scope);
                 match num_val {
-                    Ok(v) => Cow::Owned(ParsedValue::from_evaluated(Value::from(v))),
+                    Ok(v) if v.is_valid() => {
+                        Cow::Owned(ParsedValue::from_evaluated(Value::from(v.value)))
+                    }
+                    Ok(v) => panic!("numeric expression has unrepresentable terms: {}", v.value),
                     // REVIEW[epic=embedded-num] - we probably want a more sensible outcome than panic
                     Err(e) => panic!("{e}"),
                 }
-- 
2.43.0


From d19d4bcdea435d7abfcfa0af5c475fd807d1573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:33 +0000
Subject: [PATCH 13/66] fix: choices inside an optional part look at what
 follows it, as in generated code

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 3f67595..7e26362 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -805,7 +805,7 @@ impl<'a> Compiler<'a> {
                 ))
             }
             Format::Maybe(x, a) => {
-                let da = Box::new(self.compile_format(a, Rc::new(Next::Empty))?);
+                let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::Maybe(x.clone(), da))
             }
             Format::Peek(a) => {
-- 
2.43.0


From 3ab412046da375db0d9d70f5570ff670f19e16f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:33 +0000
Subject: [PATCH 14/66] fix: a named format is compiled with what follows it
 whenever a choice in it depends on that

---
 src/format.rs | 11 ++++++-----
 src/lib.rs    |  7 +++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index dcdc60d..a3596a2 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -454,10 +454,10 @@ impl Format {
                 fmts.iter().any(|f| f.depends_on_next(module))
             }
             Format::Repeat(..) | Format::Repeat1(..) | Format::RepeatBetween(..) => true,
-            Format::RepeatCount(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) => {
-                false
-            }
-            Format::AccumUntil(..) => false,
+            Format::RepeatCount(_, f)
+            | Format::RepeatUntilLast(_, f)
+            | Format::RepeatUntilSeq(_, f)
+            | Format::AccumUntil(.., f) => f.depends_on_next(module),
             Format::Maybe(..) => true,
             Format::Peek(..) | Format::PeekNot(..) => false,
             Format::Slice(..) => false,
@@ -492,7 +492,8 @@ impl Format {
             }
             fs.push(f.clone());
         }
-        MatchTree::build(module, &fs, Rc::new(Next::Empty)).is_none()
+        MatchTree::build(module, &fs, Rc::new(Next::Empty))
+            .is_none_or(|tree| tree.prefers_longer_match())
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 49ded05..b6fb263 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2283,6 +2283,13 @@ impl<'a> MatchTreeLevel<'a> {
 }
 
 impl MatchTree {
+    /// Returns `true` if some choice between a complete alternative and a longer one is made by preferring
+    /// the longer one, in which case what follows may call for the shorter one instead.
+    pub(crate) fn prefers_longer_match(&self) -> bool {
+        (self.accept.is_some() && !self.branches.is_empty())
+            || self.branches.iter().any(|(_, t)| t.prefers_longer_match())
+    }
+
     /// Returns the accepting index associated with the input-sequence starting from the current offset of `input`,
     /// looking ahead as many bytes as necessary until a definitive index is found or the lookahead limit is reached.
     ///
-- 
2.43.0


From 82e6850f70dc2e43fa9ae71fa742c303b08e09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:48 +0000
Subject: [PATCH 15/66] verif hook: lookahead budget and bounds access under
 cfg(doodle_verif)

---
 src/lib.rs   |  8 ++++++++
 src/verif.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index b6fb263..7c84d00 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -45,6 +45,11 @@ pub(crate) use util::IxHeap;
 
 pub(crate) mod validation;
 
+#[allow(unexpected_cfgs)]
+#[cfg(doodle_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 pub type Label = std::borrow::Cow<'static, str>;
 
 pub trait IntoLabel: Into<Label> {}
@@ -1629,7 +1634,10 @@ impl<'a> MatchTreeStep<'a> {
     }
 
     /// Constructs a [MatchTreeStep] from a [`Next`]
+    #[allow(unexpected_cfgs)]
     fn from_next(module: &'a FormatModule, next: Rc<Next<'a>>) -> MatchTreeStep<'a> {
+        #[cfg(doodle_verif)]
+        crate::verif::lookahead_step();
         match next.as_ref() {
             Next::Empty => Self::accept(),
             Next::Union(next1, next2) => {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..26d2061
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,49 @@
+//! Access for external monitors, compiled only with `--cfg doodle_verif`.
+#![allow(clippy::missing_panics_doc)]
+use crate::bounds::Bounds;
+use crate::{Expr, Format, FormatModule};
+use std::cell::Cell;
+
+thread_local! {
+    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
+}
+
+/// Number of lookahead steps the current thread may still take; exceeding it panics with `BUDGET_SPENT`.
+pub fn set_lookahead_budget(n: u64) {
+    BUDGET.with(|b| b.set(n));
+}
+
+pub const BUDGET_SPENT: &str = "verif: lookahead budget spent";
+
+pub(crate) fn lookahead_step() {
+    BUDGET.with(|b| {
+        let n = b.get();
+        if n == 0 {
+            b.set(u64::MAX);
+            panic!("{BUDGET_SPENT}");
+        }
+        if n != u64::MAX {
+            b.set(n - 1);
+        }
+    });
+}
+
+pub fn match_bounds(module: &FormatModule, f: &Format) -> Bounds {
+    f.match_bounds(module)
+}
+
+pub fn lookahead_bounds(module: &FormatModule, f: &Format) -> Bounds {
+    f.lookahead_bounds(module)
+}
+
+pub fn is_nullable(module: &FormatModule, f: &Format) -> bool {
+    f.is_nullable(module)
+}
+
+pub fn expr_bounds(e: &Expr) -> Bounds {
+    e.bounds()
+}
+
+pub fn bounds_rem(a: Bounds, b: Bounds) -> Bounds {
+    Bounds::rem(a, b)
+}
-- 
2.43.0


From c04c381f62dba28a29e04808879ff915f625c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 16/66] fix: an undecidable bounded repetition is refused with
 an error like the other choices, not by aborting

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 7e26362..e393b19 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -766,7 +766,7 @@ impl<'a> Compiler<'a> {
                         branches.push(f_count);
                     }
                     let Some(tree) = MatchTree::build(self.module, &branches[..], next) else {
-                        panic!("cannot build match tree for {format:?}")
+                        return Err(anyhow!("cannot build match tree for {format:?}"));
                     };
                     tree
                 };
-- 
2.43.0


From ce4ce1a1edab1b55a59889805ac4f28a2979d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 17/66] fix: a choice inside a bounded repetition expects fewer
 repetitions to follow on later iterations

---
 src/codegen/typed_decoder.rs | 5 +++--
 src/decoder.rs               | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codegen/typed_decoder.rs b/src/codegen/typed_decoder.rs
index 2e00831..c2f73ef 100644
--- a/src/codegen/typed_decoder.rs
+++ b/src/codegen/typed_decoder.rs
@@ -542,7 +542,7 @@ impl<'a> GTCompiler<'a> {
             }
             TypedFormat::RepeatBetween(gt, min_expr, max_expr, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = min_expr.bounds().as_exact() else {
+                let Some(_min) = min_expr.bounds().as_exact() else {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
                 };
                 let Some(max) = max_expr.bounds().as_exact() else {
@@ -552,8 +552,9 @@ impl<'a> GTCompiler<'a> {
                 let da = self.compile_gt_format(
                     a,
                     None,
+                    // NOTE - the body is compiled once for all iterations, and the last one may have none left to follow it
                     Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
+                        0,
                         max.saturating_sub(1),
                         MaybeTyped::Typed(a),
                         next.clone(),
diff --git a/src/decoder.rs b/src/decoder.rs
index e393b19..3d1bc0a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -740,7 +740,7 @@ impl<'a> Compiler<'a> {
             }
             Format::RepeatBetween(xmin, xmax, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = xmin.bounds().as_exact() else {
+                let Some(_min) = xmin.bounds().as_exact() else {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
                 };
                 let Some(max) = xmax.bounds().as_exact() else {
@@ -749,8 +749,9 @@ impl<'a> Compiler<'a> {
 
                 let da = self.compile_format(
                     a,
+                    // NOTE - the body is compiled once for all iterations, and the last one may have none left to follow it
                     Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
+                        0,
                         max.saturating_sub(1),
                         MaybeTyped::Untyped(a),
                         next.clone(),
-- 
2.43.0


From 60c888c9438ed8eda9a1edae8982cba147f352cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:09 +0000
Subject: [PATCH 18/66] fix: a sequence repeated until a condition on the whole
 is located over all it was read from

---
 src/loc_decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index f29d59b..519fe52 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1657,9 +1657,10 @@ impl Decoder {
                     })?;
                     break_if_done!(res => (v, input));
                 }
-                let total_len = input.offset - start_offset;
-                Ok(res
-                    .map(|(v, input, _)| (ParsedValue::new_seq(v, start_offset, total_len), input)))
+                Ok(res.map(|(v, input, _)| {
+                    let total_len = input.offset - start_offset;
+                    (ParsedValue::new_seq(v, start_offset, total_len), input)
+                }))
             }
             Decoder::AccumUntil(f_done, f_update, init, _vt, a) => {
                 let accum = init.eval_value_with_loc(scope);
-- 
2.43.0


From 6adaaf30f2cf18a0bb0baef12834010faf25f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:06 +0000
Subject: [PATCH 19/66] fix: generated code enforces the minimum of a
 repetition at the end of input as well

---
 generated/gencode.rs | 83 +++++++++++++++++++++-----------------------
 src/codegen/mod.rs   | 22 ++++++++----
 2 files changed, 55 insertions(+), 50 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3aac61b..c78cc7a 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8908,16 +8908,15 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = (Decoder477(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -8998,11 +8997,7 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
@@ -9038,6 +9033,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -9291,16 +9289,15 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = (Decoder_png_idat(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 (try_flat_map_vec(xs.iter().cloned(), |x: png_idat| PResult::Ok(x.data.clone())))?
@@ -9513,16 +9510,15 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = (Decoder_tar_header_with_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -14403,11 +14399,7 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
@@ -14443,6 +14435,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -23620,11 +23615,7 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = {
 let b = _input.read_byte()?;
@@ -23637,6 +23628,9 @@ return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -23818,11 +23812,7 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = {
 let b = _input.read_byte()?;
@@ -23835,6 +23825,9 @@ return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 PResult::Ok(tar_ascii_string_opt0_nonempty { string })
@@ -24620,11 +24613,7 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = {
 let r = _input.read_byte()?;
@@ -24635,6 +24624,9 @@ gif_color_table_entry { r, g, b }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -26304,6 +26296,7 @@ return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -27281,6 +27274,7 @@ return Err(ParseError::ExcludedBranch(16842149192073737461u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -28303,6 +28297,7 @@ return Err(ParseError::ExcludedBranch(4315160623525052581u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -29280,6 +29275,7 @@ return Err(ParseError::ExcludedBranch(3269600573864009399u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -30501,6 +30497,7 @@ return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -36304,16 +36301,15 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = (Decoder_jpeg_dqt_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 })())?;
 _input.end_slice()?;
@@ -37874,11 +37870,7 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
@@ -37914,6 +37906,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -37943,16 +37938,15 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
-}
 } else {
 let next_elem = (Decoder_tar_header_with_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -38918,6 +38912,7 @@ return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 0u16 as usize, 9u16 as usize))?;
 accum
 };
 let arg1 = {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 48cfa17..cf42f33 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3041,12 +3041,7 @@ where
                         );
                         GenBlock::from_parts(vec![bind_elem], Some(push_elem.into()))
                     };
-                    let b_stop = GenControl::If(
-                        Box::new(RustExpr::local(model::R1BOM_ACCUM).vec_is_empty()),
-                        GenBlock::explicit_return(model::err_too_few()),
-                        Some(GenControl::Break.into()),
-                    )
-                    .into();
+                    let b_stop = GenControl::Break.into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
                     GenControl::While(
                         Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
@@ -3054,6 +3049,13 @@ where
                     )
                 };
                 stmts.push(ctrl.into());
+                // NOTE - checked after the loop, as it may end by running out of input as well as by matching the break-tree
+                let check_nonempty = GenControl::If(
+                    Box::new(RustExpr::local(model::R1BOM_ACCUM).vec_is_empty()),
+                    GenBlock::explicit_return(model::err_too_few()),
+                    None,
+                );
+                stmts.push(check_nonempty.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
             }
             RepeatLogic::BetweenCounts(reps_left_tree, expr_min, expr_max, elt) => {
@@ -3088,6 +3090,14 @@ where
                     )
                 };
                 stmts.push(ctrl.into());
+                // NOTE - the loop may also end by running out of input, before the minimum has been reached
+                let check_min = model::repeat_between_finished(
+                    RustExpr::bool_lit(true),
+                    RustExpr::local(model::BETWEEN_ACCUM).vec_len(),
+                    expr_min.clone().cast_as_usize(),
+                    expr_max.clone().cast_as_usize(),
+                );
+                stmts.push(RustStmt::Expr(check_min).into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
             }
             RepeatLogic::ForEach(seq, lbl, inner) => {
-- 
2.43.0


From adde4d83479ca7365f0b8bd96498f3bafdc018e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:52 +0000
Subject: [PATCH 20/66] fix: generated lookahead selects the complete
 alternative at the end of input and on unlisted bytes

---
 generated/gencode.rs | 16 ++++++------
 src/codegen/mod.rs   | 61 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index c78cc7a..0beb3b4 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8900,7 +8900,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8638089167112501923u64));
+0
 }
 };
 _input.close_peek_context()?;
@@ -9768,7 +9768,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -9896,7 +9896,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -14364,7 +14364,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3433937857563719729u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -23607,7 +23607,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+0
 }
 };
 _input.close_peek_context()?;
@@ -23696,7 +23696,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -29435,7 +29435,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -29506,7 +29506,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+1
 }
 };
 _input.close_peek_context()?;
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index cf42f33..6672b7d 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -733,12 +733,31 @@ fn embed_byteset(bs: &ByteSet) -> RustExpr {
 /// this production should be a RustExpr whose compiled type is usize, and whose
 /// runtime value is the index of the successful match relative to the input
 fn invoke_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
-    embed_matchtree(tree, ctxt).into()
+    embed_matchtree(tree, ctxt, false).into()
+}
+
+/// Variant of [`invoke_matchtree`] for contexts in which at least one byte is known to remain
+fn invoke_matchtree_nonempty(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
+    embed_matchtree(tree, ctxt, true).into()
 }
 
 // follows the same rules as CaseLogic::to_ast as far as the expression type of the generated code
-fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>, has_remaining: bool) -> GenBlock {
+    /// As with [`MatchTree::matches`], running out of input at a node that accepts an index selects that index
     fn expand_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+        match tree.accept {
+            Some(ix) if !tree.branches.is_empty() => {
+                GenBlock::single_expr(GenExpr::Control(Box::new(RustControl::If(
+                    Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
+                    expand_descent(tree, ctxt),
+                    Some(GenBlock::simple_expr(RustExpr::num_lit(ix))),
+                ))))
+            }
+            _ => expand_descent(tree, ctxt),
+        }
+    }
+
+    fn expand_descent(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
         match &tree.branches[..] {
             [] => {
                 if let Some(ix) = tree.accept {
@@ -822,14 +841,24 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                     }
                 }
 
-                let value = Box::new(RustExpr::err(
-                    RustExpr::scoped(["ParseError"], "ExcludedBranch")
-                        .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
-                ));
-                let match_block = RustControl::Match(
-                    call,
-                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value }),
-                );
+                let trace = get_trace(&(tree, "catchall-nomatch"));
+                let match_body = if let Some(ix) = tree.accept {
+                    cases.push((
+                        MatchCaseLHS::Pattern(RustPattern::CatchAll(None)),
+                        vec![RustStmt::Return(
+                            ReturnKind::Implicit,
+                            RustExpr::num_lit(ix),
+                        )],
+                    ));
+                    RustMatchBody::Irrefutable(cases)
+                } else {
+                    let value = Box::new(RustExpr::err(
+                        RustExpr::scoped(["ParseError"], "ExcludedBranch")
+                            .call_with([RustExpr::u64lit(trace)]),
+                    ));
+                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value })
+                };
+                let match_block = RustControl::Match(call, match_body);
                 GenBlock::simple_expr(RustExpr::Control(Box::new(match_block)))
             }
         }
@@ -842,7 +871,11 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
     // this is a stub for alternate parsing models to replace the `Parser` argument in the context of the expansion
     let ll_context = ProdCtxt { ..ctxt };
 
-    let mut tree_block = expand_matchtree(tree, ll_context);
+    let mut tree_block = if has_remaining {
+        expand_descent(tree, ll_context)
+    } else {
+        expand_matchtree(tree, ll_context)
+    };
     let close_peek = GenStmt::Embed(RustStmt::Expr(
         ctxt.parser().call_method("close_peek_context").wrap_try(),
     ));
@@ -3004,7 +3037,7 @@ where
                 stmts.push(model::let_mut_vec_new(model::R0COM_ACCUM).into());
 
                 let ctrl = {
-                    let tree_index_expr = invoke_matchtree(continue_tree, ctxt);
+                    let tree_index_expr = invoke_matchtree_nonempty(continue_tree, ctxt);
                     let bind_ix = RustStmt::assign(model::MATCH_BRANCH_IX, tree_index_expr).into();
                     let cond = model::eq0(RustExpr::local(model::MATCH_BRANCH_IX));
                     let b_continue = {
@@ -3030,7 +3063,7 @@ where
 
                 stmts.push(model::let_mut_vec_new(model::R1BOM_ACCUM).into());
                 let ctrl = {
-                    let tree_index_expr = invoke_matchtree(break_tree, ctxt);
+                    let tree_index_expr = invoke_matchtree_nonempty(break_tree, ctxt);
                     let bind_ix = RustStmt::assign(model::MATCH_BRANCH_IX, tree_index_expr).into();
                     let cond = model::eq0(RustExpr::local(model::MATCH_BRANCH_IX));
                     let b_continue = {
@@ -3064,7 +3097,7 @@ where
                 stmts.push(model::let_mut_vec_new(model::BETWEEN_ACCUM).into());
                 let ctrl = {
                     let bind_reps_left = {
-                        let reps_left = invoke_matchtree(reps_left_tree, ctxt);
+                        let reps_left = invoke_matchtree_nonempty(reps_left_tree, ctxt);
                         RustStmt::assign(model::BETWEEN_REPS_LEFT, reps_left).into()
                     };
                     let cond = {
-- 
2.43.0


From 9013aec0b226b823263371307892c003b77b9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:25 +0000
Subject: [PATCH 21/66] fix: a settled alternative or failed negative lookahead
 no longer diverts later recovery in generated code

---
 generated/gencode.rs | 19 +++++++++++++++++++
 src/codegen/mod.rs   | 18 +++++++++++++++---
 src/codegen/model.rs |  5 +++++
 src/parser/mod.rs    |  9 +++++++++
 src/parser/offset.rs |  9 +++++++++
 5 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 0beb3b4..8f8305d 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8614,6 +8614,7 @@ PResult::Ok(main_data::waldo(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8627,6 +8628,7 @@ PResult::Ok(main_data::peano(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8640,6 +8642,7 @@ PResult::Ok(main_data::gif(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8653,6 +8656,7 @@ PResult::Ok(main_data::tgz(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8666,6 +8670,7 @@ PResult::Ok(main_data::gzip(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8679,6 +8684,7 @@ PResult::Ok(main_data::jpeg(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8692,6 +8698,7 @@ PResult::Ok(main_data::mpeg4(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8705,6 +8712,7 @@ PResult::Ok(main_data::png(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8718,6 +8726,7 @@ PResult::Ok(main_data::riff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8731,6 +8740,7 @@ PResult::Ok(main_data::tiff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8744,6 +8754,7 @@ PResult::Ok(main_data::tar(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8757,6 +8768,7 @@ PResult::Ok(main_data::elf(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8770,6 +8782,7 @@ PResult::Ok(main_data::opentype(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8783,6 +8796,7 @@ PResult::Ok(main_data::numbers(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8796,6 +8810,7 @@ PResult::Ok(main_data::rle(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -14272,6 +14287,7 @@ PResult::Ok(text_maybe_gzip::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24523,6 +24539,7 @@ PResult::Ok(())
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24581,6 +24598,7 @@ Err(_e)
 if res.is_err() {
 _input.close_peek_not_context()?
 } else {
+_input.close_peek_not_context()?;
 return Err(ParseError::NegatedSuccess);
 }
 };
@@ -24953,6 +24971,7 @@ PResult::Ok(png_itxt_text::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 6672b7d..6710b25 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2975,7 +2975,13 @@ where
                 let close_or_fail = GenExpr::Control(Box::new(RustControl::If(
                     Box::new(RustExpr::local(model::PEEK_NOT_RES).call_method("is_err")),
                     GenBlock::simple_expr(model::try_close_peek_not(ctxt.parser())),
-                    Some(GenBlock::explicit_return(model::err_bad_peek_not())),
+                    Some({
+                        let mut b_fail = GenBlock::explicit_return(model::err_bad_peek_not());
+                        b_fail.prepend_stmt(
+                            RustStmt::Expr(model::try_close_peek_not(ctxt.parser())).into(),
+                        );
+                        b_fail
+                    }),
                 )));
                 let stmts = vec![open_peek_not, bind_res];
                 GenBlock::from_parts(stmts, Some(close_or_fail))
@@ -3515,7 +3521,7 @@ where
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
-                {
+                if l > 1 {
                     let start_alternation = model::start_alt(ctxt.parser()).into();
                     stmts.push(start_alternation);
                 }
@@ -3524,7 +3530,13 @@ where
                     let n_left = (l - 1) - ix;
                     let on_match = |ret_expr: RustExpr| match n_left {
                         0 => GenBlock::implicit_return(ret_expr),
-                        1.. => GenBlock::explicit_return(ret_expr),
+                        1.. => {
+                            let mut b_ok = GenBlock::explicit_return(ret_expr);
+                            b_ok.prepend_stmt(
+                                RustStmt::Expr(model::try_end_alt(ctxt.parser())).into(),
+                            );
+                            b_ok
+                        }
                     };
                     let on_err = match n_left {
                         0 => GenBlock::implicit_return(RustExpr::ResultErr(Box::new(
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index aadbed2..e3bf4b1 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -319,6 +319,11 @@ pub fn try_next_alt(parser: RustExpr, next_is_final: bool) -> RustExpr {
     try_call!(parser, next_alt, RustExpr::bool_lit(next_is_final))
 }
 
+/// Model RustExpr for teardown of `Format::UnionNondet` parse-context in the Parser model, when a non-final branch succeeds.
+pub fn try_end_alt(parser: RustExpr) -> RustExpr {
+    try_call!(parser, end_alt)
+}
+
 // !SECTION
 
 // SECTION - boilerplate patterns based on incidental implementation details of codegen process
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 36f9f96..f2ca864 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -320,6 +320,15 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Closes the latest 'Alts' context after a branch other than the final one was parsed successfully, without changing
+    /// the offset, so that a failure further along is not mistaken for a failure of that branch.
+    ///
+    /// Will return an error if there is no 'Alts' context to close.
+    pub fn end_alt(&mut self) -> PResult<()> {
+        self.offset.close_parallel()?;
+        Ok(())
+    }
+
     /// Returns the number of bytes that remain in the current, possibly slice-limited context.
     ///
     /// The return value will be `0` if and only if `self.read_byte` will return `Err(ParseError::Overrun(...))`.
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2d10ba7..abddfac 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -616,6 +616,15 @@ impl BufferOffset {
         self.view_stack.push_lens(parallel);
     }
 
+    /// Discards the latest [`Lens::Alts`] from the internal `ViewStack`, leaving the current offset as it is.
+    pub(crate) fn close_parallel(&mut self) -> Result<(), StateError> {
+        let mut stack = ViewStack::new();
+        std::mem::swap(&mut stack, &mut self.view_stack);
+        let (_, new_stack) = stack.recover()?;
+        self.view_stack = new_stack;
+        Ok(())
+    }
+
     /// Performs a [`ViewStack::restore`] operation on the internal ViewStack, replacing
     /// the current offset and ViewStack's values with the return-value of that method call.
     ///
-- 
2.43.0


From 89b72368e35d90b0ad8cb6e4a62c79f16ca901d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:31 +0000
Subject: [PATCH 22/66] fix: generated code gives back what a permitted failure
 consumed

---
 generated/gencode.rs |  3 +++
 src/codegen/mod.rs   | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 8f8305d..52e9dbb 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -11307,6 +11307,7 @@ None
 }
 };
 let dsig = {
+_input.start_alt();
 let res = (|| match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1146308935u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
@@ -11324,11 +11325,13 @@ PResult::Ok(None)
 })();
 match res {
 Ok(res) => {
+_input.end_alt()?;
 res
 },
 
 Err(err) => {
 log::error!("expect-level value assertion failed: {}", err);
+_input.next_alt(true)?;
 None
 }
 }
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 6710b25..ccb9c50 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3664,12 +3664,18 @@ impl ToAst for DerivedLogic<GTExpr> {
             DerivedLogic::Permit(inner, expr) => {
                 let rhs = inner.to_ast(ctxt).abstracted_try();
                 let bind_res = GenStmt::assign(model::PERMIT_BIND, rhs);
-                let if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                let start_alt = model::start_alt(ctxt.parser()).into();
+                let if_ok = GenBlock::lift_block(
+                    [RustStmt::Expr(model::try_end_alt(ctxt.parser()))],
+                    RustExpr::local(model::PERMIT_BIND),
+                );
                 let if_err = {
-                    let (stmts, expr) = model::yield_value_with_error(
+                    let (mut stmts, expr) = model::yield_value_with_error(
                         (&**expr).clone(),
                         RustExpr::local(model::PERMIT_ERR),
                     );
+                    // as in the interpreter, whatever the failed parse consumed is given back
+                    stmts.push(RustStmt::Expr(model::try_next_alt(ctxt.parser(), true)));
                     GenBlock::lift_block(stmts, expr)
                 };
                 let ctrl = GenExpr::Control(Box::new(RustControl::Match(
@@ -3682,7 +3688,7 @@ impl ToAst for DerivedLogic<GTExpr> {
                         .to_vec(),
                     ),
                 )));
-                let block = GenBlock::from_parts(vec![bind_res], Some(ctrl));
+                let block = GenBlock::from_parts(vec![start_alt, bind_res], Some(ctrl));
                 block
             }
             #[cfg(feature = "format_enforce")]
-- 
2.43.0


From e07edbfb8f6620d0b6170946588cd06abffdb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:36 +0000
Subject: [PATCH 23/66] fix: a part that cannot fail is still a result where
 generated code inspects one

---
 src/codegen/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index ccb9c50..797120a 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2689,7 +2689,7 @@ impl GenBlock {
                 }
             } else {
                 Self {
-                    ret: Some(ret),
+                    ret: Some(ret.wrap_ok(Some("PResult"))),
                     ..self
                 }
             }
-- 
2.43.0


From 7fa69ce20b0d8d398c4bbc6ed5a62e7eada45bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:25 +0000
Subject: [PATCH 24/66] fix: capturing more bytes than a view holds is an error
 in generated code, not an abort

---
 generated/gencode.rs | 14 +++++++-------
 src/codegen/model.rs |  2 +-
 src/parser/view.rs   | 13 ++++++++++---
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 52e9dbb..d9a3d61 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8892,7 +8892,7 @@ return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 let _here = _input.get_offset_u64();
 let waldo = {
 let scope = _input.view();
-scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)
+scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
 };
 _input.skip_remainder();
 PResult::Ok(waldo_main { r#where, noise, waldo })
@@ -13789,7 +13789,7 @@ u32be(x)
 };
 let signature = {
 let here_view = _input.view();
-here_view.read_len(signature_length as usize)
+here_view.read_len(signature_length as usize)?
 };
 PResult::Ok(opentype_dsig_sig_format1 { signature_length, signature })
 }
@@ -14275,7 +14275,7 @@ let svg_document_length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize);
+let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize)?;
 let _svg_document_utf8 = std::marker::PhantomData;
 PResult::Ok(opentype_svg_document_record { start_glyph_id, end_glyph_id, svg_document_offset, svg_document_length, _svg_document, _svg_document_utf8 })
 }
@@ -16423,7 +16423,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)
+here_view.read_len((map_count * (entry_size as u32)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -21070,7 +21070,7 @@ fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> R
 let length = _input.read_byte()?;
 let string = {
 let pascal_string_data = _input.view();
-pascal_string_data.read_len(length as usize)
+pascal_string_data.read_len(length as usize)?
 };
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
@@ -21102,7 +21102,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
@@ -21136,7 +21136,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index e3bf4b1..79c66f7 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -244,7 +244,7 @@ pub fn get_view(parser: RustExpr) -> RustExpr {
 
 /// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model.
 pub fn read_from_view(view: RustExpr, len: RustExpr) -> RustExpr {
-    call!(view, read_len, len)
+    try_call!(view, read_len, len)
 }
 
 /// Model RustExpr for handling `ViewFormat::ReadArray(len, kind)` in the Parser (View) model.
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 4a1f5c9..05ed9b0 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -24,9 +24,16 @@ impl<'a> View<'a> {
         }
     }
 
-    /// Reads a slice of `len` bytes from the View, offset by `offset`.
-    pub fn read_len(&self, len: usize) -> &'a [u8] {
-        &self.buffer[..len]
+    /// Reads a slice of `len` bytes from the View, starting at its first byte.
+    ///
+    /// Will return an error if fewer than `len` bytes are in view.
+    pub fn read_len(&self, len: usize) -> Result<&'a [u8], DoodleParseError> {
+        self.buffer
+            .get(..len)
+            .ok_or(DoodleParseError::Overrun(OverrunKind::EndOfStream {
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(len)),
+                max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
+            }))
     }
 
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
-- 
2.43.0


From 1d861b04fb8971764a042dea8ea0e59fb3aa7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 25/66] fix: a window end given in bytes limits reading by bits
 in generated code

---
 src/parser/offset.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index abddfac..b183f0e 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -168,11 +168,8 @@ impl PartialOrd for ByteOffset {
         let (n2, o2) = other.as_bytes();
         let partial = n1.cmp(&n2);
         match partial {
-            Ordering::Equal => match (o1, o2) {
-                (None, None) => Some(Ordering::Equal),
-                (Some(m1), Some(m2)) => Some(m1.cmp(&m2)),
-                _ => None,
-            },
+            // NOTE - an offset in bytes-mode coincides with the first bit of the byte in question
+            Ordering::Equal => Some(o1.unwrap_or(0).cmp(&o2.unwrap_or(0))),
             _ => Some(partial),
         }
     }
-- 
2.43.0


From 26aedc22e441196a32e27633bd48675cf1d3fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 26/66] fix: an alternation of one part yields that part in
 generated code

---
 src/codegen/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 797120a..08ac61f 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3517,6 +3517,9 @@ where
                     l, 0,
                     "ParallelLogic::Alts found with empty list of parse-alternations"
                 );
+                if let [only] = alts.as_slice() {
+                    return only.to_ast(ctxt);
+                }
 
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
-- 
2.43.0


From db7ae7134cc013752b26878d7a13b86ed58290ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 27/66] fix: a number that is no character reads as U+FFFD in
 generated code as well

---
 generated/gencode.rs | 4 ++--
 src/codegen/mod.rs   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index d9a3d61..e9d9cf2 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -9992,7 +9992,7 @@ b
 return Err(ParseError::ExcludedBranch(179268011689651936u64));
 }
 };
-(char::from_u32(0u32)).unwrap()
+(char::from_u32(0u32)).unwrap_or(char::REPLACEMENT_CHARACTER)
 },
 
 1 => {
@@ -10338,7 +10338,7 @@ return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
 }
 };
-PResult::Ok((char::from_u32(codepoint)).unwrap())
+PResult::Ok((char::from_u32(codepoint)).unwrap_or(char::REPLACEMENT_CHARACTER))
 }
 
 /// d#21
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 08ac61f..df4804d 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1253,7 +1253,10 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
         }
         TypedExpr::AsChar(codepoint) => RustExpr::scoped(["char"], "from_u32")
             .call_with([embed_expr_nat(codepoint)])
-            .call_method("unwrap"),
+            .call_method_with(
+                "unwrap_or",
+                [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
+            ),
         TypedExpr::SeqLength(seq) => {
             // NOTE - SeqLength is treated as U32 in Format context, so any operations on it have to be done on a U32 value rather than the natural `.len(): _ -> usize` return-value
             RustExpr::Operation(RustOp::AsCast(
-- 
2.43.0


From d2733147aa70bb949883c1ff2b7cf35e5f329ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 28/66] fix: positions and alignment inside a view are absolute
 in generated code

---
 src/parser/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f2ca864..d903a03 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -164,10 +164,13 @@ impl<'a> Parser<'a> {
     pub fn skip_align(&mut self, n: usize) -> Result<(), ParseError> {
         let current_offset = self.offset.get_current_offset();
         let aligned_offset = match current_offset {
-            ByteOffset::Bytes(nbytes) if nbytes % n == 0 => current_offset,
             ByteOffset::Bits { bits_advanced, .. } if bits_advanced % n == 0 => current_offset,
 
-            ByteOffset::Bytes(nbytes) => ByteOffset::from_bytes(((nbytes / n) + 1) * n),
+            ByteOffset::Bytes(nbytes) => {
+                // NOTE - a parser over a View counts from the start of that View, but alignment is absolute
+                let abs_offset = self.buffer.start_offset + nbytes;
+                ByteOffset::from_bytes(nbytes + (n - abs_offset % n) % n)
+            }
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
@@ -352,15 +355,15 @@ impl<'a> Parser<'a> {
         self.offset.get_current_offset()
     }
 
-    /// Returns a `u64`-valued byte-offset equivalent to the stored `ByteOffset`, for
-    /// use in association with [`Format::Pos`].
+    /// Returns a `u64`-valued byte-offset equivalent to the stored `ByteOffset`, measured from the
+    /// start of the entire buffer, for use in association with [`Format::Pos`].
     ///
     /// # Panics
     ///
     /// As currently defined, will panic if we are in bits-mode.
     pub fn get_offset_u64(&self) -> u64 {
         match self.get_current_offset() {
-            ByteOffset::Bytes(n) => n as u64,
+            ByteOffset::Bytes(n) => (self.buffer.start_offset + n) as u64,
             ByteOffset::Bits { .. } => {
                 // FIXME - this panic should perhaps be eliminated if possible
                 unreachable!("no unequivocal way to compute a byte-offset while in bits-mode");
-- 
2.43.0


From 3fe1083245063ff47f821d19889708311b34040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 29/66] fix: a view opened inside a slice ends with that slice
 in generated code

---
 src/parser/mod.rs  | 6 ++++--
 src/parser/view.rs | 7 +++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d903a03..388d448 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -35,7 +35,8 @@ impl<'a> Parser<'a> {
     }
 
     /// Creates a [`View`] starting from the current position in the Parser,
-    /// provided it is in Bytes-mode.
+    /// provided it is in Bytes-mode, and extending to the end of the current
+    /// (possibly slice-limited) context.
     ///
     /// # Panics
     ///
@@ -44,7 +45,8 @@ impl<'a> Parser<'a> {
         let (cur_offset, None) = self.offset.get_current_offset().as_bytes() else {
             panic!("cannot open view while in bits-mode processing");
         };
-        self.buffer.offset(cur_offset).unwrap()
+        let (limit, _) = self.offset.current_limit().as_bytes();
+        self.buffer.window(cur_offset, limit).unwrap()
     }
 
     /// Advances the offset by `offset` positions, as if calling [`Self::read_byte`] that many
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 05ed9b0..396da5a 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -50,6 +50,13 @@ impl<'a> View<'a> {
         }
     }
 
+    /// Returns the part of `self` that starts at `start` and ends just before `end`, both relative to the start of `self`.
+    pub(crate) fn window(&self, start: usize, end: usize) -> Result<Self, DoodleParseError> {
+        let mut ret = self.offset(start)?;
+        ret.buffer = ret.read_len(end - start)?;
+        Ok(ret)
+    }
+
     pub fn as_read_array<T>(&self, len: usize) -> Result<ReadArray<'a, T>, DoodleParseError>
     where
         T: read::ReadUnchecked,
-- 
2.43.0


From 14f0447f2b58dc568a70ea77e5505a830fff79c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 30/66] fix: reading after a backwards seek stays within the
 enclosing slice in generated code

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 388d448..627888a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -102,7 +102,7 @@ impl<'a> Parser<'a> {
                 self.offset.try_increment(delta)?;
                 true
             } else {
-                self.offset.seek_to_offset(o_dest, false)?;
+                self.offset.seek_to_offset(o_dest, true)?;
                 false
             };
         Ok(is_advance)
-- 
2.43.0


From 92b2bc52b975a7defb899595223f985dd941e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 31/66] fix: skipping the remainder of the bits stays in
 bits-mode in generated code

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 627888a..591b40a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -109,7 +109,10 @@ impl<'a> Parser<'a> {
     }
 
     pub fn skip_remainder(&mut self) {
-        let after_skip = self.offset.current_limit();
+        // NOTE - advancing, rather than adopting the limit as-is, keeps the current modality (bits vs bytes)
+        let after_skip = self
+            .get_current_offset()
+            .increment_by(self.offset.rem_local());
         unsafe {
             self.offset.set_offset(after_skip);
         }
-- 
2.43.0


From e95100f4b13b19a30fd317287b9929cf37250fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:46 +0000
Subject: [PATCH 32/66] fix: the first of one or more repetitions is read
 unconditionally in generated code

---
 generated/gencode.rs | 259 +++++++++++++++++++++----------------------
 src/codegen/mod.rs   |  45 ++++----
 2 files changed, 147 insertions(+), 157 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index e9d9cf2..26381d8 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8901,7 +8901,12 @@ PResult::Ok(waldo_main { r#where, noise, waldo })
 /// d#3
 fn Decoder3(_input: &mut Parser<'_>) -> Result<Vec<u32>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder477(_input))?;
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -8924,14 +8929,8 @@ ret
 };
 if matching_ix == 0 {
 break
-} else {
-let next_elem = (Decoder477(_input))?;
-accum.push(next_elem)
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-};
 PResult::Ok(accum)
 }
 
@@ -8997,23 +8996,7 @@ PResult::Ok(accum)
 /// d#6
 fn Decoder6(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-let b = _input.read_byte()?;
-{
-let ret = if b == 31 {
-1
-} else {
-0
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-break
-} else {
+loop {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
 let fextra = if header.file_flags.fextra {
@@ -9045,11 +9028,26 @@ ret
 let footer = (Decoder_gzip_footer(_input))?;
 gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 };
-accum.push(next_elem)
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
+let matching_ix = {
+_input.open_peek_context();
+let b = _input.read_byte()?;
+{
+let ret = if b == 31 {
+1
+} else {
+0
+};
+_input.close_peek_context()?;
+ret
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
+if matching_ix == 0 {
+break
+}
 };
 PResult::Ok(accum)
 }
@@ -9238,7 +9236,12 @@ let idat = {
 let idat = {
 let xs = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder_png_idat(_input))?;
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9305,14 +9308,8 @@ ret
 };
 if matching_ix == 0 {
 break
-} else {
-let next_elem = (Decoder_png_idat(_input))?;
-accum.push(next_elem)
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-};
 accum
 };
 (try_flat_map_vec(xs.iter().cloned(), |x: png_idat| PResult::Ok(x.data.clone())))?
@@ -9503,7 +9500,12 @@ PResult::Ok(tiff_main { start_of_header, byte_order, magic, offset, ifd })
 fn Decoder_tar_main(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder_tar_header_with_data(_input))?;
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -9526,14 +9528,8 @@ ret
 };
 if matching_ix == 0 {
 break
-} else {
-let next_elem = (Decoder_tar_header_with_data(_input))?;
-accum.push(next_elem)
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-};
 accum
 };
 {
@@ -14403,23 +14399,7 @@ PResult::Ok(accum)
 /// d#79
 fn Decoder79(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-let b = _input.read_byte()?;
-{
-let ret = if b == 31 {
-1
-} else {
-0
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-break
-} else {
+loop {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
 let fextra = if header.file_flags.fextra {
@@ -14451,11 +14431,26 @@ ret
 let footer = (Decoder_gzip_footer(_input))?;
 gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 };
-accum.push(next_elem)
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
+let matching_ix = {
+_input.open_peek_context();
+let b = _input.read_byte()?;
+{
+let ret = if b == 31 {
+1
+} else {
+0
+};
+_input.close_peek_context()?;
+ret
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
+if matching_ix == 0 {
+break
+}
 };
 PResult::Ok(accum)
 }
@@ -23612,7 +23607,19 @@ PResult::Ok(ret)
 fn Decoder_tar_ascii_string_opt0_nonempty(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = {
+let b = _input.read_byte()?;
+if b != 0 {
+b
+} else {
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
+}
+};
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23635,21 +23642,8 @@ ret
 };
 if matching_ix == 0 {
 break
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if b != 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
-}
-};
-accum.push(next_elem)
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-};
 accum
 };
 {
@@ -23816,7 +23810,19 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = {
+let b = _input.read_byte()?;
+if b == 0 {
+b
+} else {
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+}
+};
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -23832,21 +23838,8 @@ ret
 };
 if matching_ix == 0 {
 break
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if b == 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
-}
-};
-accum.push(next_elem)
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-};
 accum
 };
 PResult::Ok(tar_ascii_string_opt0_nonempty { string })
@@ -24623,7 +24616,17 @@ PResult::Ok(accum)
 /// d#287
 fn Decoder287(_input: &mut Parser<'_>) -> Result<Vec<gif_color_table_entry>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = {
+let r = _input.read_byte()?;
+let g = _input.read_byte()?;
+let b = _input.read_byte()?;
+gif_color_table_entry { r, g, b }
+};
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -24635,19 +24638,8 @@ ret
 };
 if matching_ix == 0 {
 break
-} else {
-let next_elem = {
-let r = _input.read_byte()?;
-let g = _input.read_byte()?;
-let b = _input.read_byte()?;
-gif_color_table_entry { r, g, b }
-};
-accum.push(next_elem)
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-};
 PResult::Ok(accum)
 }
 
@@ -36312,7 +36304,12 @@ let sz = (try_sub!(length, 2u16, 3198904588321530108u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder_jpeg_dqt_data(_input))?;
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -36324,14 +36321,8 @@ ret
 };
 if matching_ix == 0 {
 break
-} else {
-let next_elem = (Decoder_jpeg_dqt_data(_input))?;
-accum.push(next_elem)
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-};
 PResult::Ok(accum)
 })())?;
 _input.end_slice()?;
@@ -37877,23 +37868,7 @@ PResult::Ok(gzip_fcomment { comment })
 /// d#452
 fn Decoder452(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-let b = _input.read_byte()?;
-{
-let ret = if b == 31 {
-1
-} else {
-0
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-break
-} else {
+loop {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
 let fextra = if header.file_flags.fextra {
@@ -37925,11 +37900,26 @@ ret
 let footer = (Decoder_gzip_footer(_input))?;
 gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 };
-accum.push(next_elem)
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
+let matching_ix = {
+_input.open_peek_context();
+let b = _input.read_byte()?;
+{
+let ret = if b == 31 {
+1
+} else {
+0
+};
+_input.close_peek_context()?;
+ret
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
+if matching_ix == 0 {
+break
+}
 };
 PResult::Ok(accum)
 }
@@ -37938,7 +37928,12 @@ PResult::Ok(accum)
 fn Decoder453(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder_tar_header_with_data(_input))?;
+accum.push(next_elem);
+if _input.remaining() == 0 {
+break
+};
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37961,14 +37956,8 @@ ret
 };
 if matching_ix == 0 {
 break
-} else {
-let next_elem = (Decoder_tar_header_with_data(_input))?;
-accum.push(next_elem)
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-};
 accum
 };
 {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index df4804d..174db47 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3072,32 +3072,33 @@ where
 
                 stmts.push(model::let_mut_vec_new(model::R1BOM_ACCUM).into());
                 let ctrl = {
-                    let tree_index_expr = invoke_matchtree_nonempty(break_tree, ctxt);
-                    let bind_ix = RustStmt::assign(model::MATCH_BRANCH_IX, tree_index_expr).into();
-                    let cond = model::eq0(RustExpr::local(model::MATCH_BRANCH_IX));
-                    let b_continue = {
-                        let bind_elem = GenStmt::assign(model::R1BOM_ELEM, elt.to_ast(ctxt));
-                        let push_elem = model::vec_push(
+                    // NOTE - the first repetition is not subject to the break-tree, which only tells when to stop after it
+                    let bind_elem = GenStmt::assign(model::R1BOM_ELEM, elt.to_ast(ctxt));
+                    let push_elem = GenStmt::Expr(
+                        model::vec_push(
                             RustExpr::local(model::R1BOM_ACCUM),
                             RustExpr::local(model::R1BOM_ELEM),
-                        );
-                        GenBlock::from_parts(vec![bind_elem], Some(push_elem.into()))
-                    };
-                    let b_stop = GenControl::Break.into();
-                    let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                        )
+                        .into(),
+                    );
+                    let stop_if_empty = GenControl::If(
+                        Box::new(model::eq0(model::rem_bytes(ctxt.parser()))),
+                        GenControl::Break.into(),
+                        None,
+                    );
+                    let tree_index_expr = invoke_matchtree_nonempty(break_tree, ctxt);
+                    let bind_ix = RustStmt::assign(model::MATCH_BRANCH_IX, tree_index_expr).into();
+                    let stop_if_match = GenControl::If(
+                        Box::new(model::eq0(RustExpr::local(model::MATCH_BRANCH_IX))),
+                        GenControl::Break.into(),
+                        None,
+                    );
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_elem, push_elem, stop_if_empty.into(), bind_ix],
+                        Some(stop_if_match.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
-                // NOTE - checked after the loop, as it may end by running out of input as well as by matching the break-tree
-                let check_nonempty = GenControl::If(
-                    Box::new(RustExpr::local(model::R1BOM_ACCUM).vec_is_empty()),
-                    GenBlock::explicit_return(model::err_too_few()),
-                    None,
-                );
-                stmts.push(check_nonempty.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
             }
             RepeatLogic::BetweenCounts(reps_left_tree, expr_min, expr_max, elt) => {
-- 
2.43.0


From 1898cfb108df9d433ae6189ac26a45183f4daf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:24 +0000
Subject: [PATCH 33/66] fix: a count taken from the input no longer reserves
 memory for more elements than input remains

---
 src/decoder.rs     | 6 +++---
 src/loc_decoder.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 3d1bc0a..d8248a9 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1372,7 +1372,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::with_capacity(count.min(input.remaining().len())), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(
@@ -1640,7 +1640,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::with_capacity(len.min(view_window.remaining().len()));
                 let mut buf = view_window;
                 for _ in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1662,7 +1662,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::with_capacity(len.min(view_window.remaining().len()));
                 let mut buf = view_window;
                 for ix in 0..len {
                     let (val, new_buf) = try_with!(read_base(buf, *kind) => ("ReadArray", format!("index: {ix}"), format!("kind: {kind:?}"), format!("view: {v_expr:?}")));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 519fe52..fa5e87c 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1556,7 +1556,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::with_capacity(count.min(input.remaining().len())), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
@@ -1848,7 +1848,7 @@ impl Decoder {
 
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::with_capacity(len.min(view_window.remaining().len()));
                 let mut buf = view_window;
                 for i in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1875,7 +1875,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::with_capacity(len.min(view_window.remaining().len()));
                 let mut buf = view_window;
                 for _ in 0..len {
                     let (val, new_buf) = read_base(buf, *kind)?;
-- 
2.43.0


From 272cf01f30ba4c9b1ddcbce68032552dd3006f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:21 +0000
Subject: [PATCH 34/66] fix: code lengths that no prefix code has are a code
 nothing can be read with, not an abort

---
 src/decoder.rs     | 6 +++++-
 src/loc_decoder.rs | 6 +++++-
 src/prelude.rs     | 2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index d8248a9..d0bd9a2 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1775,7 +1775,7 @@ fn value_to_vec_usize(v: &Value) -> Vec<usize> {
 }
 
 fn make_huffman_codes(lengths: &[usize]) -> Format {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -1789,6 +1789,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
     for bits in 1..max_length + 1 {
         code = (code + bl_count[bits - 1]) << 1;
         next_code[bits] = code;
+        if code + bl_count[bits] > 1 << bits {
+            // NOTE - no prefix code has this many words of this length
+            return Format::Fail;
+        }
     }
 
     let mut codes = Vec::with_capacity(lengths.len());
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index fa5e87c..9ffb10a 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1994,7 +1994,7 @@ fn value_to_vec_usize(v: &ParsedValue) -> Vec<usize> {
 }
 
 fn make_huffman_codes(lengths: &[usize]) -> Format {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -2008,6 +2008,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
     for bits in 1..max_length + 1 {
         code = (code + bl_count[bits - 1]) << 1;
         next_code[bits] = code;
+        if code + bl_count[bits] > 1 << bits {
+            // NOTE - no prefix code has this many words of this length
+            return Format::Fail;
+        }
     }
 
     let mut codes = Vec::with_capacity(lengths.len());
diff --git a/src/prelude.rs b/src/prelude.rs
index 4c218d9..ee5ead2 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -301,7 +301,7 @@ where
 pub fn make_huffman_decoder(
     lengths: &[usize],
 ) -> PResult<impl for<'a> Fn(&mut Parser<'a>) -> PResult<u16> + use<>> {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
-- 
2.43.0


From 1a17954780325c9130691f855b8251dda8e4ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:38 +0000
Subject: [PATCH 35/66] fix: a value matched by no pattern is a decode error in
 the interpreter, as in generated code, not an abort

---
 src/decoder.rs     | 7 ++-----
 src/loc_decoder.rs | 6 +-----
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index d0bd9a2..4194a51 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1597,11 +1597,8 @@ impl Decoder {
                             .map(|(v, input)| (Value::Branch(index, Box::new(v)), input)));
                     }
                 }
-                // REVIEW - should this be an error instead of a panic?
-                panic!(
-                    "non-exhaustive patterns: {head:?} not in {:#?}",
-                    branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
-                );
+                Err(DecodeErrorKind::<Value>::fail(scope, input)
+                    .with_trace(("Match", format!("no pattern matches {head:?}"))))
             }
             Decoder::Dynamic(name, DynFormat::Huffman(lengths_expr, opt_values_expr), d) => {
                 let lengths_val = lengths_expr.eval(scope);
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 9ffb10a..506da4e 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1807,11 +1807,7 @@ impl Decoder {
                             .map(|(v, input)| (ParsedValue::Branch(index, Box::new(v)), input)));
                     }
                 }
-                // REVIEW - should this be an error instead of a panic?
-                panic!(
-                    "non-exhaustive patterns: {head:?} not in {:#?}",
-                    branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
-                );
+                Err(DecodeErrorKind::<ParsedValue>::loc_fail(scope, input))
             }
             Decoder::Dynamic(name, DynFormat::Huffman(lengths_expr, opt_values_expr), d) => {
                 let lengths_val = lengths_expr.eval_with_loc(scope);
-- 
2.43.0


From 90df8c9cac70edc79e7b822c4ca9cdb34eaa1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:03 +0000
Subject: [PATCH 36/66] fix: ligature and chained-sequence counts that include
 their first glyph are refused when zero

---
 doodle-formats/src/format/opentype/gsub.rs   |    2 +-
 doodle-formats/src/format/opentype/layout.rs |    2 +-
 generated/gencode.rs                         | 1026 +++++++++---------
 3 files changed, 526 insertions(+), 504 deletions(-)

diff --git a/doodle-formats/src/format/opentype/gsub.rs b/doodle-formats/src/format/opentype/gsub.rs
index d1e14c7..81e6cb9 100644
--- a/doodle-formats/src/format/opentype/gsub.rs
+++ b/doodle-formats/src/format/opentype/gsub.rs
@@ -210,7 +210,7 @@ pub(crate) fn ligature_subst(module: &mut FormatModule, coverage_table: FormatRe
         "opentype.gsub.ligature_subst.ligature_table",
         record([
             ("ligature_glyph", u16be()),
-            ("component_count", u16be()),
+            ("component_count", where_nonzero::<U16>(u16be())),
             (
                 "component_glyph_ids",
                 repeat_count(pred(var("component_count")), u16be()),
diff --git a/doodle-formats/src/format/opentype/layout.rs b/doodle-formats/src/format/opentype/layout.rs
index 5814a5e..72858b7 100644
--- a/doodle-formats/src/format/opentype/layout.rs
+++ b/doodle-formats/src/format/opentype/layout.rs
@@ -121,7 +121,7 @@ mod chained_sequence {
                     "backtrack_sequence",
                     repeat_count(var("backtrack_glyph_count"), u16be()), // GlyphId (format1) or ClassId (format2)
                 ),
-                ("input_glyph_count", u16be()),
+                ("input_glyph_count", where_nonzero::<U16>(u16be())),
                 (
                     "input_sequence",
                     repeat_count(pred(var("input_glyph_count")), u16be()), // GlyphId (format1) or ClassId (format2)
diff --git a/generated/gencode.rs b/generated/gencode.rs
index 26381d8..5159c5d 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -17977,9 +17977,20 @@ accum.push(next_elem)
 accum
 };
 let input_glyph_count = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
+let is_valid = {
+let x = inner;
+x != 0u16
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+}
+};
 let input_sequence = {
 let mut accum = Vec::new();
 for _ in 0..pred(input_glyph_count) {
@@ -18169,7 +18180,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(2688427941405105545u64));
 }
 };
 let seq_lookup_count = {
@@ -18231,9 +18242,20 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let component_count = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
+let is_valid = {
+let x = inner;
+x != 0u16
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+}
+};
 let component_glyph_ids = {
 let mut accum = Vec::new();
 for _ in 0..pred(component_count) {
@@ -18407,7 +18429,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10875553067752207222u64));
 inner
 }
 };
@@ -18556,7 +18578,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
 }
 };
 let table_scope = table_view;
@@ -18572,7 +18594,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
 }
 };
 let extension_offset = {
@@ -18630,11 +18652,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(6821845925776570829u64));
 }
 })
 }
@@ -18658,7 +18680,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(15898809900392744567u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18683,7 +18705,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18704,7 +18726,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
 }
 };
 let table_scope = table_view;
@@ -18746,7 +18768,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
 }
 };
 let table_scope = table_view;
@@ -18805,7 +18827,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let mark_coverage = {
@@ -18862,7 +18884,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let table_scope = table_view;
@@ -19020,7 +19042,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19168,7 +19190,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8327471529801851430u64));
+return Err(ParseError::ExcludedBranch(16594239496794104967u64));
 }
 };
 let arg1 = {
@@ -19176,7 +19198,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10310785543736156275u64));
+return Err(ParseError::ExcludedBranch(16529910322175208638u64));
 }
 };
 (arg0, arg1)
@@ -20114,7 +20136,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16594239496794104967u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12187643960709778443u64));
 inner
 }
 };
@@ -20205,7 +20227,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(8766708729375264031u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20454,7 +20476,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12187643960709778443u64));
+return Err(ParseError::FailToken(1369437808023015077u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20518,7 +20540,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(163858356033350300u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21167,7 +21189,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(888161872995526095u64));
 }
 };
 let max_twilight_points = {
@@ -21210,7 +21232,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21329,7 +21351,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
 inner
 }
 };
@@ -21354,7 +21376,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3595277668730903043u64));
 inner
 }
 };
@@ -21397,7 +21419,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
 inner
 }
 };
@@ -21412,7 +21434,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21433,7 +21455,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
 inner
 }
 };
@@ -21449,7 +21471,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
 }
 };
 let language = {
@@ -21570,7 +21592,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
 inner
 }
 };
@@ -21595,7 +21617,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -21649,7 +21671,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -21730,7 +21752,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
 inner
 }
 };
@@ -21781,7 +21803,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
 inner
 }
 };
@@ -21797,7 +21819,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
 inner
 }
 };
@@ -21822,7 +21844,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -21838,7 +21860,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
 inner
 }
 };
@@ -21893,7 +21915,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -21909,7 +21931,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -21934,7 +21956,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21950,7 +21972,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -22004,7 +22026,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -22020,7 +22042,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -22045,7 +22067,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -22061,7 +22083,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -22108,7 +22130,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -22124,7 +22146,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -22149,7 +22171,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -22165,7 +22187,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -22212,7 +22234,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -22237,7 +22259,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -22404,7 +22426,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5170050512307443704u64));
+return Err(ParseError::FalsifiedWhere(11309019127259385425u64));
 })
 }
 
@@ -22590,7 +22612,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18440348483137307888u64));
+return Err(ParseError::ExcludedBranch(5159371628350638829u64));
 }
 };
 let arg1 = {
@@ -22598,7 +22620,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11309019127259385425u64));
+return Err(ParseError::ExcludedBranch(7762269623995317946u64));
 }
 };
 let arg2 = {
@@ -22606,7 +22628,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5159371628350638829u64));
+return Err(ParseError::ExcludedBranch(16134612799304961491u64));
 }
 };
 let arg3 = {
@@ -22614,7 +22636,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(5308477118997970057u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22646,7 +22668,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(16190528142421852545u64));
 }
 };
 accum.push(next_elem)
@@ -22669,7 +22691,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
+return Err(ParseError::FalsifiedWhere(173922233423713068u64));
 })
 }
 
@@ -22688,7 +22710,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
+return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
 })
 }
 
@@ -22718,7 +22740,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(173922233423713068u64));
+return Err(ParseError::FalsifiedWhere(515819609734101411u64));
 })
 }
 
@@ -22732,7 +22754,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(9277543013594125416u64));
 })
 }
 
@@ -22746,7 +22768,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(5955168674639093440u64));
 })
 }
 
@@ -22807,7 +22829,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9277543013594125416u64));
+return Err(ParseError::ExcludedBranch(4471438437047399494u64));
 }
 };
 _input.close_peek_context()?;
@@ -22820,7 +22842,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5955168674639093440u64));
+return Err(ParseError::ExcludedBranch(13319523888327217639u64));
 }
 };
 accum.push(next_elem)
@@ -22853,7 +22875,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4471438437047399494u64));
+return Err(ParseError::ExcludedBranch(824589811577025210u64));
 }
 };
 accum.push(next_elem)
@@ -22888,7 +22910,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(4649034608147552416u64));
 }
 };
 _input.close_peek_context()?;
@@ -22901,7 +22923,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
 }
 };
 accum.push(next_elem)
@@ -22934,7 +22956,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 };
 accum.push(next_elem)
@@ -22969,7 +22991,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 };
 _input.close_peek_context()?;
@@ -22982,7 +23004,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
 accum.push(next_elem)
@@ -23015,7 +23037,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 };
 accum.push(next_elem)
@@ -23038,10 +23060,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8094248233631264621u64)
+try_sub!(bit as u8, 48u8, 4839194687019048322u64)
 };
 let _o9 = {
 let bit = {
@@ -23049,10 +23071,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7230273548678969972u64)
+try_sub!(bit as u8, 48u8, 1969670610881234889u64)
 };
 let _o8 = {
 let bit = {
@@ -23060,10 +23082,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(9038350950373664822u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9038350950373664822u64)
+try_sub!(bit as u8, 48u8, 15510952803379905659u64)
 };
 let _o7 = {
 let bit = {
@@ -23071,10 +23093,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7281717462557989541u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14681668243282477517u64)
+try_sub!(bit as u8, 48u8, 16474038368490899078u64)
 };
 let _o6 = {
 let bit = {
@@ -23082,10 +23104,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12217686503432178884u64)
+try_sub!(bit as u8, 48u8, 7832192330748800109u64)
 };
 let _o5 = {
 let bit = {
@@ -23093,10 +23115,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9815657591077818003u64)
+try_sub!(bit as u8, 48u8, 16624020278885696461u64)
 };
 let _o4 = {
 let bit = {
@@ -23104,10 +23126,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14485842416732585139u64)
+try_sub!(bit as u8, 48u8, 5152282179373241998u64)
 };
 let _o3 = {
 let bit = {
@@ -23115,10 +23137,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(13780055874544357936u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13780055874544357936u64)
+try_sub!(bit as u8, 48u8, 7933266403838225878u64)
 };
 let _o2 = {
 let bit = {
@@ -23126,10 +23148,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(12100308281236296642u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12100308281236296642u64)
+try_sub!(bit as u8, 48u8, 5025197102194587315u64)
 };
 let _o1 = {
 let bit = {
@@ -23137,10 +23159,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9041056097467752267u64));
+return Err(ParseError::ExcludedBranch(3810055094392728880u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3810055094392728880u64)
+try_sub!(bit as u8, 48u8, 5599331855309773603u64)
 };
 let _o0 = {
 let bit = {
@@ -23148,10 +23170,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
+return Err(ParseError::ExcludedBranch(16437491640759399344u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
+try_sub!(bit as u8, 48u8, 6215067399528787845u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23179,7 +23201,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(17176374570344757031u64));
 }
 };
 _input.close_peek_context()?;
@@ -23192,7 +23214,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
 accum.push(next_elem)
@@ -23225,7 +23247,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
 accum.push(next_elem)
@@ -23260,7 +23282,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(3653195934333285574u64));
 }
 };
 _input.close_peek_context()?;
@@ -23273,7 +23295,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
 accum.push(next_elem)
@@ -23306,7 +23328,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
 accum.push(next_elem)
@@ -23335,7 +23357,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(8898504689444561451u64));
 }
 };
 let arg1 = {
@@ -23343,7 +23365,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
 let arg2 = {
@@ -23351,7 +23373,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
 let arg3 = {
@@ -23359,7 +23381,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(10046433636842398056u64));
 }
 };
 let arg4 = {
@@ -23367,7 +23389,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
 let arg5 = {
@@ -23375,7 +23397,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23386,7 +23408,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(5986772336072340665u64));
 }
 };
 let arg1 = {
@@ -23394,7 +23416,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
 (arg0, arg1)
@@ -23433,7 +23455,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
 _input.close_peek_context()?;
@@ -23446,7 +23468,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
 accum.push(next_elem)
@@ -23479,7 +23501,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
 accum.push(next_elem)
@@ -23514,7 +23536,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 _input.close_peek_context()?;
@@ -23527,7 +23549,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 accum.push(next_elem)
@@ -23560,7 +23582,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23590,7 +23612,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 accum.push(next_elem)
@@ -23613,7 +23635,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 accum.push(next_elem);
@@ -23668,7 +23690,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23687,7 +23709,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 })
 }
 
@@ -23722,7 +23744,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 accum.push(next_elem)
@@ -23754,7 +23776,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 accum.push(next_elem)
@@ -23785,7 +23807,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 _input.close_peek_context()?;
@@ -23798,7 +23820,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 accum.push(next_elem)
@@ -23816,7 +23838,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 accum.push(next_elem);
@@ -23860,7 +23882,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 _input.close_peek_context()?;
@@ -23874,7 +23896,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 let arg1 = {
@@ -23882,7 +23904,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23894,7 +23916,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 let arg1 = {
@@ -23902,14 +23924,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 })
 }
@@ -24118,7 +24140,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 })
 } else {
 None
@@ -24140,7 +24162,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1029952099207838423u64));
+return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24172,7 +24194,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17327099206515189757u64));
+return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24304,7 +24326,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
+return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24338,7 +24360,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
+return Err(ParseError::FalsifiedWhere(14646838598150249928u64));
 }
 };
 let flags = {
@@ -24381,7 +24403,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(14949659785259585833u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24399,7 +24421,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 let arg1 = {
@@ -24407,7 +24429,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 let arg2 = {
@@ -24415,7 +24437,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 let arg3 = {
@@ -24423,7 +24445,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24436,7 +24458,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 let arg1 = {
@@ -24444,7 +24466,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 let arg2 = {
@@ -24452,7 +24474,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 let arg3 = {
@@ -24460,7 +24482,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24502,7 +24524,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 let arg1 = {
@@ -24510,7 +24532,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 let arg2 = {
@@ -24518,7 +24540,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 let arg3 = {
@@ -24526,7 +24548,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24550,7 +24572,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 let arg1 = {
@@ -24558,7 +24580,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 let arg2 = {
@@ -24566,7 +24588,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 let arg3 = {
@@ -24574,7 +24596,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24605,7 +24627,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 accum.push(next_elem)
@@ -24765,7 +24787,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 val.clone()
@@ -24775,7 +24797,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24850,7 +24872,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
+return Err(ParseError::FalsifiedWhere(4149374297771033461u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24865,7 +24887,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 val.clone()
@@ -24875,7 +24897,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let compression_method = {
@@ -24883,7 +24905,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let language_tag = {
@@ -24903,7 +24925,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 _input.close_peek_context()?;
@@ -24916,7 +24938,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 accum.push(next_elem)
@@ -24931,7 +24953,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 chars.clone()
@@ -24943,7 +24965,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 val.clone()
@@ -25030,7 +25052,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 val.clone()
@@ -25068,7 +25090,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 val.clone()
@@ -25078,7 +25100,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let compressed_text = {
@@ -25219,7 +25241,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 val.clone()
@@ -25229,7 +25251,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 let palette = match sample_depth {
@@ -25820,18 +25842,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
@@ -26291,20 +26301,32 @@ return Err(ParseError::ExcludedBranch(3265375406401843811u64));
 _ => {
 return Err(ParseError::ExcludedBranch(11458871772722170518u64));
 }
-};
-_input.close_peek_context()?;
-ret
 }
-};
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
-break
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(15301408058960503169u64));
+}
+};
+_input.close_peek_context()?;
+ret
+}
+};
+if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+break
 } else {
 let next_elem = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(4255813677013328811u64));
 }
 };
 accum.push(next_elem)
@@ -26798,18 +26820,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(15301408058960503169u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4255813677013328811u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(7761201277159812979u64));
 }
@@ -27269,6 +27279,18 @@ return Err(ParseError::ExcludedBranch(329678914966083835u64));
 _ => {
 return Err(ParseError::ExcludedBranch(6740511944232229269u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -27282,7 +27304,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(8313738771561634204u64));
 }
 };
 accum.push(next_elem)
@@ -27308,7 +27330,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2734069901426030304u64));
+return Err(ParseError::FalsifiedWhere(5782291498890001703u64));
 }
 };
 let flags = {
@@ -27821,18 +27843,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(8313738771561634204u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5782291498890001703u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(10699246393255895644u64));
 }
@@ -28292,6 +28302,18 @@ return Err(ParseError::ExcludedBranch(608962121954693839u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4003079682566975393u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1862457564087794359u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -28305,7 +28327,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(4725257428709613290u64));
 }
 };
 accum.push(next_elem)
@@ -28799,18 +28821,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(1862457564087794359u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4725257428709613290u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(11823569341425521789u64));
 }
@@ -29270,6 +29280,18 @@ return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 _ => {
 return Err(ParseError::ExcludedBranch(5733684513012333041u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -29283,7 +29305,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
 }
 };
 accum.push(next_elem)
@@ -29342,7 +29364,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
 }
 };
 _input.close_peek_context()?;
@@ -29375,7 +29397,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14275129881911283147u64));
+return Err(ParseError::FalsifiedWhere(9532564966458988001u64));
 }
 };
 let flags = {
@@ -30021,18 +30043,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(1456571545446476568u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14908888453225293887u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
@@ -30492,6 +30502,18 @@ return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 _ => {
 return Err(ParseError::ExcludedBranch(5515497093089591991u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6882184431082022206u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -30505,7 +30527,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(3998072683184925592u64));
 }
 };
 accum.push(next_elem)
@@ -30531,7 +30553,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6882184431082022206u64));
+return Err(ParseError::FalsifiedWhere(29850628954056690u64));
 }
 };
 let flags = {
@@ -30567,7 +30589,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+return Err(ParseError::ExcludedBranch(7279615132236188739u64));
 }
 };
 let arg1 = {
@@ -30575,7 +30597,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
+return Err(ParseError::ExcludedBranch(17636172564439370608u64));
 }
 };
 let arg2 = {
@@ -30583,7 +30605,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(13863787293436782080u64));
 }
 };
 let arg3 = {
@@ -30591,7 +30613,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(16714498072262546943u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30632,7 +30654,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16714498072262546943u64)
+try_sub!(x, 16u64, 15134222038433106385u64)
 },
 
 _ => {
@@ -30794,7 +30816,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15134222038433106385u64)
+try_sub!(x, 16u64, 5499566165243611472u64)
 },
 
 _ => {
@@ -30828,7 +30850,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 14916894554939814670u64)
 },
 
 _ => {
@@ -31049,7 +31071,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 5334325531610156978u64)
 },
 
 _ => {
@@ -31163,7 +31185,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 760820951392925727u64)
 },
 
 _ => {
@@ -31363,7 +31385,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 760820951392925727u64)
+try_sub!(x, 16u64, 4600414761378562541u64)
 },
 
 _ => {
@@ -31427,7 +31449,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4600414761378562541u64)
+try_sub!(x, 16u64, 15786118691017431738u64)
 },
 
 _ => {
@@ -31547,7 +31569,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
 };
 _input.close_peek_context()?;
@@ -31560,7 +31582,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 };
 accum.push(next_elem)
@@ -31575,7 +31597,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 };
 chars.clone()
@@ -31666,7 +31688,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7931358881575056193u64)
+try_sub!(x, 16u64, 11515797873012483658u64)
 },
 
 _ => {
@@ -31822,7 +31844,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 8076978189295213982u64)
 },
 
 _ => {
@@ -31886,7 +31908,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 14687724984806605719u64)
 },
 
 _ => {
@@ -32291,7 +32313,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 8385173961957899741u64)
 },
 
 _ => {
@@ -32377,7 +32399,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -32621,7 +32643,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8407356061009412694u64));
+return Err(ParseError::ExcludedBranch(13752480002470540422u64));
 }
 };
 _input.close_peek_context()?;
@@ -32634,7 +32656,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6881565717664829242u64));
+return Err(ParseError::ExcludedBranch(17107648091243309207u64));
 }
 };
 accum.push(next_elem)
@@ -32649,7 +32671,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(5534609128357633386u64));
 }
 };
 chars.clone()
@@ -32892,7 +32914,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 16625761205375889740u64)
 },
 
 _ => {
@@ -32976,7 +32998,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 3344648651879382526u64)
 },
 
 _ => {
@@ -33145,7 +33167,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 3484767027554133518u64)
 },
 
 _ => {
@@ -33200,7 +33222,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 12041148194529633639u64)
 },
 
 _ => {
@@ -33255,7 +33277,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 17888323854924040413u64)
 },
 
 _ => {
@@ -33352,7 +33374,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 _input.close_peek_context()?;
@@ -33365,7 +33387,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(11074951631636946051u64));
 }
 };
 accum.push(next_elem)
@@ -33380,7 +33402,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 };
 chars.clone()
@@ -33402,7 +33424,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 _input.close_peek_context()?;
@@ -33415,7 +33437,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 accum.push(next_elem)
@@ -33430,7 +33452,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 chars.clone()
@@ -33452,7 +33474,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 _input.close_peek_context()?;
@@ -33465,7 +33487,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 accum.push(next_elem)
@@ -33480,7 +33502,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 chars.clone()
@@ -33526,7 +33548,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 _input.close_peek_context()?;
@@ -33539,7 +33561,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 accum.push(next_elem)
@@ -33554,7 +33576,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 chars.clone()
@@ -33601,7 +33623,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 _input.close_peek_context()?;
@@ -33614,7 +33636,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 accum.push(next_elem)
@@ -33629,7 +33651,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 };
 chars.clone()
@@ -33656,7 +33678,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 };
 _input.close_peek_context()?;
@@ -33669,7 +33691,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 };
 accum.push(next_elem)
@@ -33684,7 +33706,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 chars.clone()
@@ -33699,7 +33721,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 let marker = {
@@ -33707,7 +33729,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33862,11 +33884,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 };
 _input.close_peek_context()?;
 ret
@@ -33987,11 +34009,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34007,7 +34029,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 }
 }
 };
@@ -34113,11 +34135,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34142,7 +34164,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 };
 let marker = {
@@ -34150,7 +34172,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34173,11 +34195,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34195,7 +34217,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 })
 }
@@ -34293,11 +34315,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34410,7 +34432,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 })
 }
@@ -34476,11 +34498,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34553,7 +34575,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 })
 }
@@ -34658,11 +34680,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34690,7 +34712,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 let marker = {
@@ -34698,7 +34720,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 jpeg_soi { marker }
@@ -34817,11 +34839,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34849,7 +34871,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 let marker = {
@@ -34857,7 +34879,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 jpeg_soi { marker }
@@ -35020,13 +35042,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 _input.close_peek_context()?;
@@ -35131,13 +35153,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 _input.close_peek_context()?;
@@ -35191,7 +35213,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 })
 }
@@ -35211,7 +35233,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 _input.close_peek_context()?;
@@ -35224,7 +35246,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 },
 
@@ -35235,7 +35257,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 };
 let arg1 = {
@@ -35243,7 +35265,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 (arg0, arg1)
@@ -35252,7 +35274,7 @@ return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 })
 }
@@ -35264,7 +35286,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 };
 let marker = {
@@ -35272,7 +35294,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35285,7 +35307,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 };
 let marker = {
@@ -35293,7 +35315,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35306,7 +35328,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 };
 let marker = {
@@ -35314,7 +35336,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35327,7 +35349,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 let marker = {
@@ -35335,7 +35357,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35348,7 +35370,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 };
 let marker = {
@@ -35356,7 +35378,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35369,7 +35391,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 };
 let marker = {
@@ -35377,7 +35399,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35390,7 +35412,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 };
 let marker = {
@@ -35398,7 +35420,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35411,7 +35433,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 let marker = {
@@ -35419,7 +35441,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35436,7 +35458,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3011460078285478248u64));
+return Err(ParseError::FalsifiedWhere(4614223265245060097u64));
 }
 };
 let image_components = {
@@ -35456,7 +35478,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5117297982688264891u64));
+return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
 }
 };
 let end_spectral_selection = {
@@ -35468,7 +35490,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4614223265245060097u64));
+return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35505,7 +35527,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
+return Err(ParseError::FalsifiedWhere(6766897041260485978u64));
 })
 }
 
@@ -35523,7 +35545,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(7359082011512182682u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35677,13 +35699,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 _input.close_peek_context()?;
@@ -35747,7 +35769,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 let marker = {
@@ -35755,7 +35777,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 jpeg_soi { marker }
@@ -35782,7 +35804,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let marker = {
@@ -35790,7 +35812,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 jpeg_soi { marker }
@@ -35817,7 +35839,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 let marker = {
@@ -35825,7 +35847,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 jpeg_soi { marker }
@@ -35852,7 +35874,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 let marker = {
@@ -35860,7 +35882,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 jpeg_soi { marker }
@@ -35887,7 +35909,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -35895,7 +35917,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 jpeg_soi { marker }
@@ -35922,7 +35944,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -35930,7 +35952,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 jpeg_soi { marker }
@@ -35957,7 +35979,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -35965,7 +35987,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 jpeg_soi { marker }
@@ -35992,7 +36014,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -36000,7 +36022,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 jpeg_soi { marker }
@@ -36027,7 +36049,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -36035,7 +36057,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 jpeg_soi { marker }
@@ -36062,7 +36084,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 let marker = {
@@ -36070,7 +36092,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 jpeg_soi { marker }
@@ -36097,7 +36119,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 let marker = {
@@ -36105,7 +36127,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 jpeg_soi { marker }
@@ -36132,7 +36154,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 let marker = {
@@ -36140,7 +36162,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 jpeg_soi { marker }
@@ -36167,7 +36189,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 let marker = {
@@ -36175,7 +36197,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 jpeg_soi { marker }
@@ -36205,7 +36227,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
 }
 };
 let num_lines = {
@@ -36224,7 +36246,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(180881308211696508u64));
 }
 };
 let num_image_components = {
@@ -36236,7 +36258,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
 }
 };
 let image_components = {
@@ -36268,7 +36290,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36282,7 +36304,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 let marker = {
@@ -36290,7 +36312,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 jpeg_soi { marker }
@@ -36339,7 +36361,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 let marker = {
@@ -36347,7 +36369,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 jpeg_soi { marker }
@@ -36374,7 +36396,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 let marker = {
@@ -36382,7 +36404,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 jpeg_soi { marker }
@@ -36409,7 +36431,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 let marker = {
@@ -36417,7 +36439,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 jpeg_soi { marker }
@@ -36444,7 +36466,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 let marker = {
@@ -36452,7 +36474,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 jpeg_soi { marker }
@@ -36479,7 +36501,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 let marker = {
@@ -36487,7 +36509,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 jpeg_soi { marker }
@@ -36514,7 +36536,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 let marker = {
@@ -36522,7 +36544,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 jpeg_soi { marker }
@@ -36569,7 +36591,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 let marker = {
@@ -36577,7 +36599,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 jpeg_soi { marker }
@@ -36624,7 +36646,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 let marker = {
@@ -36632,7 +36654,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 jpeg_soi { marker }
@@ -36679,7 +36701,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 let marker = {
@@ -36687,7 +36709,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 jpeg_soi { marker }
@@ -36734,7 +36756,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 let marker = {
@@ -36742,7 +36764,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 jpeg_soi { marker }
@@ -36789,7 +36811,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 let marker = {
@@ -36797,7 +36819,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 jpeg_soi { marker }
@@ -36844,7 +36866,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 let marker = {
@@ -36852,7 +36874,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 jpeg_soi { marker }
@@ -36899,7 +36921,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 let marker = {
@@ -36907,7 +36929,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 jpeg_soi { marker }
@@ -36954,7 +36976,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 let marker = {
@@ -36962,7 +36984,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 jpeg_soi { marker }
@@ -37009,7 +37031,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let marker = {
@@ -37017,7 +37039,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 jpeg_soi { marker }
@@ -37064,7 +37086,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 let marker = {
@@ -37072,7 +37094,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 jpeg_soi { marker }
@@ -37119,7 +37141,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 let marker = {
@@ -37127,7 +37149,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 jpeg_soi { marker }
@@ -37174,7 +37196,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 let marker = {
@@ -37182,7 +37204,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 jpeg_soi { marker }
@@ -37229,7 +37251,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 let marker = {
@@ -37237,7 +37259,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 jpeg_soi { marker }
@@ -37284,7 +37306,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 let marker = {
@@ -37292,7 +37314,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 jpeg_soi { marker }
@@ -37350,7 +37372,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 _input.close_peek_context()?;
@@ -37363,7 +37385,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 accum.push(next_elem)
@@ -37378,7 +37400,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 chars.clone()
@@ -37434,7 +37456,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37486,7 +37508,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 _input.close_peek_context()?;
@@ -37499,7 +37521,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 accum.push(next_elem)
@@ -37514,7 +37536,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 chars.clone()
@@ -37571,7 +37593,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
+return Err(ParseError::FalsifiedWhere(10865781264025109219u64));
 }
 };
 let density_x = {
@@ -37586,7 +37608,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9933460716242958610u64));
+return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
 }
 };
 let density_y = {
@@ -37601,7 +37623,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10865781264025109219u64));
+return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37663,7 +37685,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
+return Err(ParseError::FalsifiedWhere(10349067556055585673u64));
 })
 }
 
@@ -37718,7 +37740,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(9276145871181842621u64));
 })
 }
 
@@ -37776,7 +37798,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 _input.close_peek_context()?;
@@ -37789,7 +37811,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 accum.push(next_elem)
@@ -37804,7 +37826,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37829,7 +37851,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 _input.close_peek_context()?;
@@ -37842,7 +37864,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 accum.push(next_elem)
@@ -37857,7 +37879,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 chars.clone()
@@ -37947,7 +37969,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 _input.close_peek_context()?;
@@ -37968,7 +37990,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 accum.push(next_elem)
@@ -37997,7 +38019,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 accum.push(next_elem)
@@ -38028,7 +38050,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 _input.close_peek_context()?;
@@ -38041,7 +38063,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 accum.push(next_elem)
@@ -38056,7 +38078,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38081,7 +38103,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 _input.close_peek_context()?;
@@ -38094,7 +38116,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 accum.push(next_elem)
@@ -38109,7 +38131,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 chars.clone()
@@ -38125,7 +38147,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 let arg1 = {
@@ -38133,7 +38155,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 let arg2 = {
@@ -38141,7 +38163,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38191,7 +38213,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 }
 },
@@ -38201,7 +38223,7 @@ return Err(ParseError::ExcludedBranch(389354767835086292u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 _input.close_peek_context()?;
@@ -38220,7 +38242,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 })
 }
@@ -38232,7 +38254,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38256,7 +38278,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 }
 },
@@ -38266,7 +38288,7 @@ return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 _input.close_peek_context()?;
@@ -38283,7 +38305,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 }
 };
@@ -38308,11 +38330,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38330,7 +38352,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 })
 }
@@ -38342,7 +38364,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 let label = {
@@ -38350,7 +38372,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 let block_size = {
@@ -38358,7 +38380,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 let identifier = {
@@ -38386,7 +38408,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 _input.close_peek_context()?;
@@ -38413,7 +38435,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 let label = {
@@ -38421,7 +38443,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 let comment_data = {
@@ -38440,7 +38462,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 _input.close_peek_context()?;
@@ -38467,7 +38489,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 let data = {
@@ -38487,7 +38509,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 })
 }
 
@@ -38498,7 +38520,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 let label = {
@@ -38506,7 +38528,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 let block_size = {
@@ -38514,7 +38536,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38542,7 +38564,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 _input.close_peek_context()?;
@@ -38561,7 +38583,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 })
 }
@@ -38590,7 +38612,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 let label = {
@@ -38598,7 +38620,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 let block_size = {
@@ -38606,7 +38628,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 let text_grid_left_position = {
@@ -38645,7 +38667,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 _input.close_peek_context()?;
@@ -38672,7 +38694,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 let image_left_position = {
@@ -38722,7 +38744,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 _input.close_peek_context()?;
@@ -38854,55 +38876,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 _input.close_peek_context()?;
@@ -38917,7 +38939,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 accum.push(next_elem)
@@ -38931,7 +38953,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 (arg0, arg1)
@@ -38959,7 +38981,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -38992,7 +39014,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
+return Err(ParseError::FalsifiedWhere(11349426438005611188u64));
 }
 };
 let num_image_components = {
@@ -39004,7 +39026,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
+return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
 }
 };
 let image_components = {
@@ -39027,7 +39049,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39049,7 +39071,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
+return Err(ParseError::FalsifiedWhere(783530747334100044u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39063,7 +39085,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let marker = {
@@ -39071,7 +39093,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 jpeg_soi { marker }
@@ -39118,7 +39140,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 let marker = {
@@ -39126,7 +39148,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 jpeg_soi { marker }
@@ -39164,7 +39186,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15243788729772203041u64));
+return Err(ParseError::FalsifiedWhere(165949313037892889u64));
 }
 };
 let num_image_components = {
@@ -39176,7 +39198,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14565187915810837879u64));
+return Err(ParseError::FalsifiedWhere(13586715084946654863u64));
 }
 };
 let image_components = {
@@ -39198,7 +39220,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 let marker = {
@@ -39206,7 +39228,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 jpeg_soi { marker }
@@ -39241,7 +39263,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
+return Err(ParseError::FalsifiedWhere(4276041640044341942u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
-- 
2.43.0


From 8fdf5f17e8687c372019edc61f5c61b4f0b547ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:02 +0000
Subject: [PATCH 37/66] fix: a value matched by no pattern is a parse error in
 generated code, not an abort

---
 generated/gencode.rs | 1992 +++++++++++++++++++++---------------------
 src/codegen/mod.rs   |    6 +-
 2 files changed, 1000 insertions(+), 998 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 5159c5d..81f7085 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -10810,8 +10810,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10825,8 +10825,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10840,8 +10840,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10855,8 +10855,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10870,8 +10870,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10885,8 +10885,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(5673845796627816005u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10901,8 +10901,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14591018267292443527u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10916,8 +10916,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(4762692522317026931u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -11291,7 +11291,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(9630069758457681762u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11403,7 +11403,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12652804269632162478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
 inner
 }
 };
@@ -11419,7 +11419,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18134882366868794706u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
 inner
 }
 };
@@ -11440,7 +11440,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(14677505873656710393u64));
 }
 };
 let arg1 = {
@@ -11448,7 +11448,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(10102114574336663273u64));
 }
 };
 let arg2 = {
@@ -11456,7 +11456,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(4386762582485017400u64));
 }
 };
 let arg3 = {
@@ -11464,7 +11464,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(8893850231119365992u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11485,7 +11485,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4762692522317026931u64));
+return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11600,7 +11600,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9630069758457681762u64));
+return Err(ParseError::FalsifiedWhere(11052099086134529863u64));
 }
 };
 let glyph_data_format = {
@@ -11615,7 +11615,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
 inner
 }
 };
@@ -11636,7 +11636,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -11652,7 +11652,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -11739,7 +11739,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -11755,7 +11755,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -11771,7 +11771,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
 inner
 }
 };
@@ -11787,7 +11787,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -11805,7 +11805,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
 inner
 }
 };
@@ -12283,8 +12283,8 @@ accum
 opentype_loca_table_offsets::Offsets32(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(8987822076696059625u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12387,7 +12387,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
 inner
 }
 };
@@ -12403,7 +12403,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(980800817911480223u64));
+return Err(ParseError::FalsifiedWhere(1977899765720151190u64));
 }
 };
 let horiz_axis_offset = {
@@ -12451,7 +12451,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12497,7 +12497,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(7801539417877429212u64));
+return Err(ParseError::FailToken(12890902517277365935u64));
 },
 
 2u16 => {
@@ -12580,7 +12580,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12641,7 +12641,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -12700,7 +12700,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -12716,7 +12716,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -12732,7 +12732,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
 inner
 }
 };
@@ -12767,7 +12767,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -12783,7 +12783,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -12799,7 +12799,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7343323033370781545u64));
+return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
 }
 };
 {
@@ -12814,7 +12814,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -12834,7 +12834,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -12869,7 +12869,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -12885,7 +12885,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -12972,7 +12972,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -12988,7 +12988,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13043,7 +13043,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13059,7 +13059,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13075,7 +13075,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
 inner
 }
 };
@@ -13091,7 +13091,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13134,7 +13134,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13158,7 +13158,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2818918064991511645u64));
+return Err(ParseError::FalsifiedWhere(2154669163482751322u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13178,7 +13178,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
 inner
 }
 };
@@ -13213,7 +13213,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13229,7 +13229,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
 inner
 }
 };
@@ -13282,7 +13282,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13298,7 +13298,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13385,7 +13385,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
 inner
 }
 };
@@ -13401,7 +13401,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -13417,7 +13417,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
 inner
 }
 };
@@ -13433,7 +13433,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -13451,7 +13451,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -13518,7 +13518,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
 inner
 }
 };
@@ -13559,7 +13559,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
 inner
 }
 };
@@ -13579,7 +13579,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16097120758067046920u64));
+return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
 }
 };
 let records = {
@@ -13615,7 +13615,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13635,7 +13635,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
+return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
 }
 };
 let ratio_range = {
@@ -13759,7 +13759,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14751251992141172493u64));
 inner
 }
 };
@@ -13775,7 +13775,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
 inner
 }
 };
@@ -13850,7 +13850,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10502127387712395480u64));
+return Err(ParseError::FalsifiedWhere(8997881400116719018u64));
 }
 };
 let data = match format {
@@ -14013,8 +14013,8 @@ opentype_stat_axis_value_table_data_Format4 { axis_count, flags, value_name_id,
 opentype_stat_axis_value_table_data::Format4(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(13614619987783239962u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14040,7 +14040,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -14072,7 +14072,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5322124757500927073u64));
+return Err(ParseError::FailToken(6949960292533894002u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14226,7 +14226,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1347174710810305478u64));
 inner
 }
 };
@@ -14263,7 +14263,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
 inner
 }
 };
@@ -14463,7 +14463,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13516986665125759073u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 }
 };
 let ix1 = {
@@ -14471,7 +14471,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 vec![ix0, ix1]
@@ -14541,7 +14541,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733880678136728614u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 _input.close_peek_context()?;
@@ -14554,7 +14554,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8997881400116719018u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 accum.push(next_elem)
@@ -14569,7 +14569,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14594,7 +14594,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6915530142412472120u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 _input.close_peek_context()?;
@@ -14607,7 +14607,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6949960292533894002u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 };
 accum.push(next_elem)
@@ -14622,7 +14622,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(1278184758971178969u64));
 }
 };
 chars.clone()
@@ -14728,8 +14728,8 @@ let inner = (Decoder_deflate_dynamic_huffman(_input))?;
 deflate_block_data::dynamic_huffman(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -15865,7 +15865,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(3426398976290336157u64));
 }
 }))
 },
@@ -16017,11 +16017,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(8390724546948265409u64));
+return Err(ParseError::FailToken(11250208753083412758u64));
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17349123374714965876u64));
 }
 })
 }
@@ -16098,8 +16098,8 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 (bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16152,7 +16152,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
 inner
 }
 };
@@ -16218,7 +16218,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4251627061094365437u64));
+return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
 }
 };
 let variation_regions = {
@@ -16391,7 +16391,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11915580511665106140u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
 inner
 }
 };
@@ -16412,8 +16412,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(8700288293163706751u64));
 }
 };
 let map_data = {
@@ -16475,7 +16475,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17324980155911269375u64));
+return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
 }
 };
 let tuple_variation_headers = {
@@ -16668,7 +16668,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 _input.close_peek_context()?;
@@ -16682,7 +16682,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(13846498452079501214u64));
 }
 };
 (0u16, [].to_vec())
@@ -16694,7 +16694,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(9798710097031164942u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16706,7 +16706,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(9819345728844658158u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16714,7 +16714,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 })
 }
@@ -16844,7 +16844,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
 inner
 }
 };
@@ -16993,7 +16993,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
 inner
 }
 };
@@ -17009,7 +17009,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
 inner
 }
 };
@@ -17065,7 +17065,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
 inner
 }
 };
@@ -17081,7 +17081,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -17223,7 +17223,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
 }
 };
 let table_scope = table_view;
@@ -17239,7 +17239,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
 }
 };
 let extension_offset = {
@@ -17292,11 +17292,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(8700288293163706751u64));
+return Err(ParseError::FailToken(11323981950571132721u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(16771529512960957239u64));
+return Err(ParseError::FailToken(1179945139148562335u64));
 }
 })
 }
@@ -17320,7 +17320,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13846498452079501214u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17366,8 +17366,8 @@ opentype_layout_multiple_subst_subst_Format1 { sequence_count, sequence_offsets,
 opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(6821845925776570829u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17389,7 +17389,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let coverage = {
@@ -17438,7 +17438,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
+return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
 }
 };
 let coverage = {
@@ -17496,7 +17496,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17527,7 +17527,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14954891776835932150u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17548,7 +17548,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let table_scope = table_view;
@@ -17679,7 +17679,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14984809111992638634u64));
+return Err(ParseError::FailToken(8327471529801851430u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17927,7 +17927,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -17988,7 +17988,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
 }
 };
 let input_sequence = {
@@ -18180,7 +18180,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2688427941405105545u64));
+return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
 }
 };
 let seq_lookup_count = {
@@ -18253,7 +18253,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
 }
 };
 let component_glyph_ids = {
@@ -18429,7 +18429,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10875553067752207222u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8766708729375264031u64));
 inner
 }
 };
@@ -18578,7 +18578,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
+return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
 }
 };
 let table_scope = table_view;
@@ -18594,7 +18594,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
+return Err(ParseError::FalsifiedWhere(163858356033350300u64));
 }
 };
 let extension_offset = {
@@ -18652,11 +18652,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(888161872995526095u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(4770836931378141069u64));
 }
 })
 }
@@ -18680,7 +18680,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(15898809900392744567u64));
+return Err(ParseError::FailToken(9976720501248819272u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18705,7 +18705,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5653230390980289841u64));
+return Err(ParseError::FailToken(3595277668730903043u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18726,7 +18726,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
 }
 };
 let table_scope = table_view;
@@ -18768,7 +18768,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
 }
 };
 let table_scope = table_view;
@@ -18827,7 +18827,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
+return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
 }
 };
 let mark_coverage = {
@@ -18884,7 +18884,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
+return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
 }
 };
 let table_scope = table_view;
@@ -19042,7 +19042,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10310785543736156275u64));
+return Err(ParseError::FailToken(3923207427992258326u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19190,7 +19190,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16594239496794104967u64));
+return Err(ParseError::ExcludedBranch(5174369311102857850u64));
 }
 };
 let arg1 = {
@@ -19198,7 +19198,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16529910322175208638u64));
+return Err(ParseError::ExcludedBranch(15995337135637623051u64));
 }
 };
 (arg0, arg1)
@@ -20136,7 +20136,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12187643960709778443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
 inner
 }
 };
@@ -20227,7 +20227,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(10243418979491025991u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20476,7 +20476,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1369437808023015077u64));
+return Err(ParseError::FailToken(6726475111737435495u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20540,7 +20540,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(163858356033350300u64));
+return Err(ParseError::FailToken(3702191162545267776u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21189,7 +21189,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(888161872995526095u64));
+return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
 }
 };
 let max_twilight_points = {
@@ -21232,7 +21232,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
+return Err(ParseError::FalsifiedWhere(13281230340934385869u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21327,8 +21327,8 @@ let inner = (Decoder_opentype_cmap_subtable_format14(_input, table_view))?;
 opentype_cmap_subtable_data::Format14(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(2229770659268432585u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21351,7 +21351,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21376,7 +21376,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3595277668730903043u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -21419,7 +21419,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -21434,7 +21434,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21455,7 +21455,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -21471,7 +21471,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
+return Err(ParseError::FalsifiedWhere(12815986247090051214u64));
 }
 };
 let language = {
@@ -21592,7 +21592,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21617,7 +21617,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21671,7 +21671,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21752,7 +21752,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21803,7 +21803,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21819,7 +21819,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21844,7 +21844,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21860,7 +21860,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -21915,7 +21915,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -21931,7 +21931,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -21956,7 +21956,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -21972,7 +21972,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -22026,7 +22026,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -22042,7 +22042,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -22067,7 +22067,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -22083,7 +22083,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22130,7 +22130,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22146,7 +22146,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22171,7 +22171,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22187,7 +22187,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22234,7 +22234,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
 inner
 }
 };
@@ -22259,7 +22259,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
 inner
 }
 };
@@ -22426,7 +22426,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11309019127259385425u64));
+return Err(ParseError::FalsifiedWhere(14339975513692068616u64));
 })
 }
 
@@ -22443,8 +22443,8 @@ let inner = (Decoder251(_input, is_be))?;
 elf_types_elf_full::Full64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 })
 }
@@ -22462,8 +22462,8 @@ let inner = (Decoder250(_input, is_be))?;
 elf_types_elf_addr::Addr64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 })
 }
@@ -22481,8 +22481,8 @@ let inner = (Decoder248(_input, is_be))?;
 elf_types_elf_off::Off64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 })
 }
@@ -22612,7 +22612,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5159371628350638829u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
 let arg1 = {
@@ -22620,7 +22620,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
 let arg2 = {
@@ -22628,7 +22628,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 };
 let arg3 = {
@@ -22636,7 +22636,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5308477118997970057u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22668,7 +22668,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16190528142421852545u64));
+return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 }
 };
 accum.push(next_elem)
@@ -22691,7 +22691,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(173922233423713068u64));
+return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
 })
 }
 
@@ -22710,7 +22710,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
 })
 }
 
@@ -22740,7 +22740,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
 })
 }
 
@@ -22754,7 +22754,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9277543013594125416u64));
+return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
 })
 }
 
@@ -22768,7 +22768,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5955168674639093440u64));
+return Err(ParseError::FalsifiedWhere(14681668243282477517u64));
 })
 }
 
@@ -22829,7 +22829,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4471438437047399494u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
 _input.close_peek_context()?;
@@ -22842,7 +22842,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(16474038368490899078u64));
 }
 };
 accum.push(next_elem)
@@ -22875,7 +22875,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
 accum.push(next_elem)
@@ -22910,7 +22910,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
 _input.close_peek_context()?;
@@ -22923,7 +22923,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 accum.push(next_elem)
@@ -22956,7 +22956,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 accum.push(next_elem)
@@ -22991,7 +22991,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 _input.close_peek_context()?;
@@ -23004,7 +23004,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
 accum.push(next_elem)
@@ -23037,7 +23037,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
 accum.push(next_elem)
@@ -23060,10 +23060,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 }
 };
-try_sub!(bit as u8, 48u8, 4839194687019048322u64)
+try_sub!(bit as u8, 48u8, 13780055874544357936u64)
 };
 let _o9 = {
 let bit = {
@@ -23071,10 +23071,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7230273548678969972u64));
+return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 }
 };
-try_sub!(bit as u8, 48u8, 1969670610881234889u64)
+try_sub!(bit as u8, 48u8, 12100308281236296642u64)
 };
 let _o8 = {
 let bit = {
@@ -23082,10 +23082,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9038350950373664822u64));
+return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 }
 };
-try_sub!(bit as u8, 48u8, 15510952803379905659u64)
+try_sub!(bit as u8, 48u8, 3810055094392728880u64)
 };
 let _o7 = {
 let bit = {
@@ -23093,10 +23093,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14681668243282477517u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16474038368490899078u64)
+try_sub!(bit as u8, 48u8, 16437491640759399344u64)
 };
 let _o6 = {
 let bit = {
@@ -23104,10 +23104,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12217686503432178884u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7832192330748800109u64)
+try_sub!(bit as u8, 48u8, 17176374570344757031u64)
 };
 let _o5 = {
 let bit = {
@@ -23115,10 +23115,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16624020278885696461u64)
+try_sub!(bit as u8, 48u8, 3653195934333285574u64)
 };
 let _o4 = {
 let bit = {
@@ -23126,10 +23126,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14485842416732585139u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5152282179373241998u64)
+try_sub!(bit as u8, 48u8, 8898504689444561451u64)
 };
 let _o3 = {
 let bit = {
@@ -23137,10 +23137,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13780055874544357936u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7933266403838225878u64)
+try_sub!(bit as u8, 48u8, 10046433636842398056u64)
 };
 let _o2 = {
 let bit = {
@@ -23148,10 +23148,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12100308281236296642u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5025197102194587315u64)
+try_sub!(bit as u8, 48u8, 5986772336072340665u64)
 };
 let _o1 = {
 let bit = {
@@ -23159,10 +23159,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3810055094392728880u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5599331855309773603u64)
+try_sub!(bit as u8, 48u8, 2908689796368760670u64)
 };
 let _o0 = {
 let bit = {
@@ -23170,10 +23170,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16437491640759399344u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
-try_sub!(bit as u8, 48u8, 6215067399528787845u64)
+try_sub!(bit as u8, 48u8, 4598583460226006268u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23201,7 +23201,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 _input.close_peek_context()?;
@@ -23214,7 +23214,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 accum.push(next_elem)
@@ -23247,7 +23247,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 accum.push(next_elem)
@@ -23282,7 +23282,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 _input.close_peek_context()?;
@@ -23295,7 +23295,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23328,7 +23328,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 accum.push(next_elem)
@@ -23357,7 +23357,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 let arg1 = {
@@ -23365,7 +23365,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 let arg2 = {
@@ -23373,7 +23373,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 let arg3 = {
@@ -23381,7 +23381,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 let arg4 = {
@@ -23389,7 +23389,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 let arg5 = {
@@ -23397,7 +23397,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23408,7 +23408,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 let arg1 = {
@@ -23416,7 +23416,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 (arg0, arg1)
@@ -23455,7 +23455,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 _input.close_peek_context()?;
@@ -23468,7 +23468,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 accum.push(next_elem)
@@ -23501,7 +23501,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 accum.push(next_elem)
@@ -23536,7 +23536,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 _input.close_peek_context()?;
@@ -23549,7 +23549,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23582,7 +23582,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 accum.push(next_elem)
@@ -23612,7 +23612,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 accum.push(next_elem)
@@ -23635,7 +23635,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem);
@@ -23690,7 +23690,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 accum.push(next_elem)
@@ -23709,7 +23709,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 })
 }
 
@@ -23744,7 +23744,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 accum.push(next_elem)
@@ -23776,7 +23776,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 accum.push(next_elem)
@@ -23807,7 +23807,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 _input.close_peek_context()?;
@@ -23820,7 +23820,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 accum.push(next_elem)
@@ -23838,7 +23838,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 accum.push(next_elem);
@@ -23882,7 +23882,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 _input.close_peek_context()?;
@@ -23896,7 +23896,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 let arg1 = {
@@ -23904,7 +23904,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23916,7 +23916,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 let arg1 = {
@@ -23924,14 +23924,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 })
 }
@@ -24140,7 +24140,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 })
 } else {
 None
@@ -24162,7 +24162,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
+return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24194,7 +24194,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
+return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24326,7 +24326,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(17081364943144677526u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24360,7 +24360,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14646838598150249928u64));
+return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
 }
 };
 let flags = {
@@ -24403,7 +24403,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14949659785259585833u64));
+return Err(ParseError::FalsifiedWhere(2466404913032252300u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24421,7 +24421,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 let arg1 = {
@@ -24429,7 +24429,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 let arg2 = {
@@ -24437,7 +24437,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let arg3 = {
@@ -24445,7 +24445,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24458,7 +24458,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let arg1 = {
@@ -24466,7 +24466,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let arg2 = {
@@ -24474,7 +24474,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg3 = {
@@ -24482,7 +24482,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24524,7 +24524,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 let arg1 = {
@@ -24532,7 +24532,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 let arg2 = {
@@ -24540,7 +24540,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg3 = {
@@ -24548,7 +24548,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24572,7 +24572,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 let arg1 = {
@@ -24580,7 +24580,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 let arg2 = {
@@ -24588,7 +24588,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 let arg3 = {
@@ -24596,7 +24596,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24627,7 +24627,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 accum.push(next_elem)
@@ -24726,8 +24726,8 @@ accum
 png_trns::color_type_3(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 })
 }
@@ -24787,7 +24787,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 };
 val.clone()
@@ -24797,7 +24797,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24855,8 +24855,8 @@ png_sbit_color_type_6 { sig_red_bits, sig_green_bits, sig_blue_bits, sig_alpha_b
 png_sbit::color_type_6(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 })
 }
@@ -24872,7 +24872,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4149374297771033461u64));
+return Err(ParseError::FalsifiedWhere(15541745679144160988u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24887,7 +24887,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 val.clone()
@@ -24897,7 +24897,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 let compression_method = {
@@ -24905,7 +24905,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 };
 let language_tag = {
@@ -24925,7 +24925,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 _input.close_peek_context()?;
@@ -24938,7 +24938,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 accum.push(next_elem)
@@ -24953,7 +24953,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 chars.clone()
@@ -24965,7 +24965,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 val.clone()
@@ -25052,7 +25052,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 val.clone()
@@ -25090,7 +25090,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 };
 val.clone()
@@ -25100,7 +25100,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 let compressed_text = {
@@ -25183,8 +25183,8 @@ png_trns_color_type_3 { palette_index }
 png_bkgd::color_type_3(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 })
 }
@@ -25241,7 +25241,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
 };
 val.clone()
@@ -25251,7 +25251,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
 };
 let palette = match sample_depth {
@@ -25337,8 +25337,8 @@ accum
 png_splt_palette::sample_depth_u16(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25843,475 +25843,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(7391010474856587818u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(7025852844623144626u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(13513276483415770047u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(1292030895245088137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(8527564631842216417u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(10545338643554355463u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(3529321240709143928u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(9481712747994656857u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(11863749907612277673u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(8408007422644693463u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(2137824516769298342u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(17504519908837839248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(5377488665469248769u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(10179224889113195865u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(2526895115167988738u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(7617559532652678498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(4051432836859471288u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(14741532803131558705u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(10276185770177327434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(16586067667342674799u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+return Err(ParseError::ExcludedBranch(2497564037439806374u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+return Err(ParseError::ExcludedBranch(8400230153663738380u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
+return Err(ParseError::ExcludedBranch(3348696109325747597u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
+return Err(ParseError::ExcludedBranch(3775958429611079664u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
+return Err(ParseError::ExcludedBranch(15402873290357121767u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13513276483415770047u64));
+return Err(ParseError::ExcludedBranch(7699494290217942468u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1292030895245088137u64));
+return Err(ParseError::ExcludedBranch(15920470819585350103u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8527564631842216417u64));
+return Err(ParseError::ExcludedBranch(2212229856396822503u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10545338643554355463u64));
+return Err(ParseError::ExcludedBranch(13487040053473546512u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3529321240709143928u64));
+return Err(ParseError::ExcludedBranch(7142800526810245879u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9481712747994656857u64));
+return Err(ParseError::ExcludedBranch(15228292911834498078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11863749907612277673u64));
+return Err(ParseError::ExcludedBranch(14228769055716402588u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8408007422644693463u64));
+return Err(ParseError::ExcludedBranch(2096340590066926443u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2137824516769298342u64));
+return Err(ParseError::ExcludedBranch(6262990113977164585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17504519908837839248u64));
+return Err(ParseError::ExcludedBranch(16057321717383774211u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5377488665469248769u64));
+return Err(ParseError::ExcludedBranch(5291563035461819971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10179224889113195865u64));
+return Err(ParseError::ExcludedBranch(14334546370445091615u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2526895115167988738u64));
+return Err(ParseError::ExcludedBranch(18123524617814052121u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7617559532652678498u64));
+return Err(ParseError::ExcludedBranch(3966750415843992376u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4051432836859471288u64));
+return Err(ParseError::ExcludedBranch(3512844604428973098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14741532803131558705u64));
+return Err(ParseError::ExcludedBranch(14732383712267459599u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10276185770177327434u64));
+return Err(ParseError::ExcludedBranch(13357689525249598011u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16586067667342674799u64));
+return Err(ParseError::ExcludedBranch(16153196263894316997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2497564037439806374u64));
+return Err(ParseError::ExcludedBranch(11930340298772268405u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8400230153663738380u64));
+return Err(ParseError::ExcludedBranch(8442068294613883251u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3348696109325747597u64));
+return Err(ParseError::ExcludedBranch(6850311165997710199u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3775958429611079664u64));
+return Err(ParseError::ExcludedBranch(2310756498479603065u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15402873290357121767u64));
+return Err(ParseError::ExcludedBranch(5816243344835903905u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7699494290217942468u64));
+return Err(ParseError::ExcludedBranch(16915030153566842158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920470819585350103u64));
+return Err(ParseError::ExcludedBranch(5877293982949196624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2212229856396822503u64));
+return Err(ParseError::ExcludedBranch(2440323998191641952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13487040053473546512u64));
+return Err(ParseError::ExcludedBranch(3265375406401843811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7142800526810245879u64));
+return Err(ParseError::ExcludedBranch(11458871772722170518u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15228292911834498078u64));
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14228769055716402588u64));
+return Err(ParseError::ExcludedBranch(15301408058960503169u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2096340590066926443u64));
+return Err(ParseError::ExcludedBranch(4255813677013328811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6262990113977164585u64));
+return Err(ParseError::ExcludedBranch(7761201277159812979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16057321717383774211u64));
+return Err(ParseError::ExcludedBranch(15409834313606096443u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5291563035461819971u64));
+return Err(ParseError::ExcludedBranch(7572218778908935167u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14334546370445091615u64));
+return Err(ParseError::ExcludedBranch(12520942526725743695u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18123524617814052121u64));
+return Err(ParseError::ExcludedBranch(5905249956584638130u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3966750415843992376u64));
+return Err(ParseError::ExcludedBranch(8609603324479018835u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3512844604428973098u64));
+return Err(ParseError::ExcludedBranch(8973115486793444912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14732383712267459599u64));
+return Err(ParseError::ExcludedBranch(2872401692234135189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13357689525249598011u64));
+return Err(ParseError::ExcludedBranch(3556125603266802472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16153196263894316997u64));
+return Err(ParseError::ExcludedBranch(16173438081116718978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11930340298772268405u64));
+return Err(ParseError::ExcludedBranch(3532284049956758497u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8442068294613883251u64));
+return Err(ParseError::ExcludedBranch(1214015012285792661u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6850311165997710199u64));
+return Err(ParseError::ExcludedBranch(18287039256282529512u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2310756498479603065u64));
+return Err(ParseError::ExcludedBranch(6040541316788286267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5816243344835903905u64));
+return Err(ParseError::ExcludedBranch(6926344996361682930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16915030153566842158u64));
+return Err(ParseError::ExcludedBranch(1335666833550050804u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5877293982949196624u64));
+return Err(ParseError::ExcludedBranch(12949211704949756849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2440323998191641952u64));
+return Err(ParseError::ExcludedBranch(4317621489266312319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3265375406401843811u64));
+return Err(ParseError::ExcludedBranch(868434092978367357u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11458871772722170518u64));
+return Err(ParseError::ExcludedBranch(496554245154466536u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(8244423856248085319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15301408058960503169u64));
+return Err(ParseError::ExcludedBranch(14587337454519331439u64));
 }
 };
 _input.close_peek_context()?;
@@ -26326,7 +26326,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255813677013328811u64));
+return Err(ParseError::ExcludedBranch(17469688165057057832u64));
 }
 };
 accum.push(next_elem)
@@ -26821,475 +26821,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7761201277159812979u64));
+return Err(ParseError::ExcludedBranch(17175946860967673146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15409834313606096443u64));
+return Err(ParseError::ExcludedBranch(4411296728399804345u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7572218778908935167u64));
+return Err(ParseError::ExcludedBranch(13980028702310773940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12520942526725743695u64));
+return Err(ParseError::ExcludedBranch(4312000683241916062u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5905249956584638130u64));
+return Err(ParseError::ExcludedBranch(3334424754000117797u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8609603324479018835u64));
+return Err(ParseError::ExcludedBranch(527013363415661133u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8973115486793444912u64));
+return Err(ParseError::ExcludedBranch(4717292700030555590u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2872401692234135189u64));
+return Err(ParseError::ExcludedBranch(653172816195928449u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3556125603266802472u64));
+return Err(ParseError::ExcludedBranch(581976537271693173u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173438081116718978u64));
+return Err(ParseError::ExcludedBranch(10727170711560529872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3532284049956758497u64));
+return Err(ParseError::ExcludedBranch(17095884813960222885u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1214015012285792661u64));
+return Err(ParseError::ExcludedBranch(974442582679666596u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18287039256282529512u64));
+return Err(ParseError::ExcludedBranch(4054889295781446756u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6040541316788286267u64));
+return Err(ParseError::ExcludedBranch(14775695284177607002u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6926344996361682930u64));
+return Err(ParseError::ExcludedBranch(6914153644311469309u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1335666833550050804u64));
+return Err(ParseError::ExcludedBranch(11188141958235814565u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12949211704949756849u64));
+return Err(ParseError::ExcludedBranch(15180040648844909945u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4317621489266312319u64));
+return Err(ParseError::ExcludedBranch(18312372211249290289u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(868434092978367357u64));
+return Err(ParseError::ExcludedBranch(6298802191889347847u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(496554245154466536u64));
+return Err(ParseError::ExcludedBranch(11017185023542530489u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+return Err(ParseError::ExcludedBranch(15395924218065814216u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14587337454519331439u64));
+return Err(ParseError::ExcludedBranch(14060832500024730160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+return Err(ParseError::ExcludedBranch(3344470983013526080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
+return Err(ParseError::ExcludedBranch(10251322642913008199u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4411296728399804345u64));
+return Err(ParseError::ExcludedBranch(10455173543833790502u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13980028702310773940u64));
+return Err(ParseError::ExcludedBranch(1789963736344690987u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4312000683241916062u64));
+return Err(ParseError::ExcludedBranch(15079752956117840734u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3334424754000117797u64));
+return Err(ParseError::ExcludedBranch(7980438082889912554u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(527013363415661133u64));
+return Err(ParseError::ExcludedBranch(6840264564700035644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4717292700030555590u64));
+return Err(ParseError::ExcludedBranch(2232617280930402416u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653172816195928449u64));
+return Err(ParseError::ExcludedBranch(10367781439645737926u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(581976537271693173u64));
+return Err(ParseError::ExcludedBranch(6016311883578211466u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10727170711560529872u64));
+return Err(ParseError::ExcludedBranch(14984769167642974435u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17095884813960222885u64));
+return Err(ParseError::ExcludedBranch(11733915986279978987u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(974442582679666596u64));
+return Err(ParseError::ExcludedBranch(12796096677294114859u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4054889295781446756u64));
+return Err(ParseError::ExcludedBranch(4290849149416714172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14775695284177607002u64));
+return Err(ParseError::ExcludedBranch(2598935692633451852u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6914153644311469309u64));
+return Err(ParseError::ExcludedBranch(8938360652744148620u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11188141958235814565u64));
+return Err(ParseError::ExcludedBranch(3379987508464424555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15180040648844909945u64));
+return Err(ParseError::ExcludedBranch(11173052675913205247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18312372211249290289u64));
+return Err(ParseError::ExcludedBranch(1780493074893517013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6298802191889347847u64));
+return Err(ParseError::ExcludedBranch(5013701440573848944u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11017185023542530489u64));
+return Err(ParseError::ExcludedBranch(15508559755986719975u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15395924218065814216u64));
+return Err(ParseError::ExcludedBranch(14782609537615230269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14060832500024730160u64));
+return Err(ParseError::ExcludedBranch(17984802637964449391u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344470983013526080u64));
+return Err(ParseError::ExcludedBranch(4337320827937013231u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10251322642913008199u64));
+return Err(ParseError::ExcludedBranch(9730514595131843432u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10455173543833790502u64));
+return Err(ParseError::ExcludedBranch(11851311358763079517u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1789963736344690987u64));
+return Err(ParseError::ExcludedBranch(4195586632355556000u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15079752956117840734u64));
+return Err(ParseError::ExcludedBranch(3595083506735372973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7980438082889912554u64));
+return Err(ParseError::ExcludedBranch(7160308966995483862u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6840264564700035644u64));
+return Err(ParseError::ExcludedBranch(10995965655495216468u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2232617280930402416u64));
+return Err(ParseError::ExcludedBranch(329678914966083835u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10367781439645737926u64));
+return Err(ParseError::ExcludedBranch(6740511944232229269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6016311883578211466u64));
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14984769167642974435u64));
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11733915986279978987u64));
+return Err(ParseError::ExcludedBranch(8313738771561634204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12796096677294114859u64));
+return Err(ParseError::ExcludedBranch(5782291498890001703u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4290849149416714172u64));
+return Err(ParseError::ExcludedBranch(10699246393255895644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2598935692633451852u64));
+return Err(ParseError::ExcludedBranch(16725113430369695556u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8938360652744148620u64));
+return Err(ParseError::ExcludedBranch(10581544802310072854u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3379987508464424555u64));
+return Err(ParseError::ExcludedBranch(2930236810929305906u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11173052675913205247u64));
+return Err(ParseError::ExcludedBranch(9788088961065186348u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1780493074893517013u64));
+return Err(ParseError::ExcludedBranch(13475201244121026739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5013701440573848944u64));
+return Err(ParseError::ExcludedBranch(10514680212862927148u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15508559755986719975u64));
+return Err(ParseError::ExcludedBranch(1404288588910574651u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14782609537615230269u64));
+return Err(ParseError::ExcludedBranch(9722140062746187322u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17984802637964449391u64));
+return Err(ParseError::ExcludedBranch(14672290401516300248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4337320827937013231u64));
+return Err(ParseError::ExcludedBranch(1570732024996461745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9730514595131843432u64));
+return Err(ParseError::ExcludedBranch(3970524133912495743u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11851311358763079517u64));
+return Err(ParseError::ExcludedBranch(10022572355386706896u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4195586632355556000u64));
+return Err(ParseError::ExcludedBranch(7175325427369635964u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3595083506735372973u64));
+return Err(ParseError::ExcludedBranch(10941190781838111798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7160308966995483862u64));
+return Err(ParseError::ExcludedBranch(8533828000951561331u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10995965655495216468u64));
+return Err(ParseError::ExcludedBranch(7620563226324297760u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(329678914966083835u64));
+return Err(ParseError::ExcludedBranch(3141147280724933447u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6740511944232229269u64));
+return Err(ParseError::ExcludedBranch(5155365750119375266u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(6019636780841875619u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2734069901426030304u64));
+return Err(ParseError::ExcludedBranch(9286045119570450224u64));
 }
 };
 _input.close_peek_context()?;
@@ -27304,7 +27304,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8313738771561634204u64));
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
 }
 };
 accum.push(next_elem)
@@ -27330,7 +27330,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5782291498890001703u64));
+return Err(ParseError::FalsifiedWhere(16002368984748306955u64));
 }
 };
 let flags = {
@@ -27844,475 +27844,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10699246393255895644u64));
+return Err(ParseError::ExcludedBranch(2518353173875372183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16725113430369695556u64));
+return Err(ParseError::ExcludedBranch(1057280760989719477u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10581544802310072854u64));
+return Err(ParseError::ExcludedBranch(4360542291358407189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2930236810929305906u64));
+return Err(ParseError::ExcludedBranch(11728165168471348185u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9788088961065186348u64));
+return Err(ParseError::ExcludedBranch(10495009576779598530u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13475201244121026739u64));
+return Err(ParseError::ExcludedBranch(7128967683436470476u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10514680212862927148u64));
+return Err(ParseError::ExcludedBranch(3036714361878569528u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1404288588910574651u64));
+return Err(ParseError::ExcludedBranch(17797183748027644744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9722140062746187322u64));
+return Err(ParseError::ExcludedBranch(4766620025042958433u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14672290401516300248u64));
+return Err(ParseError::ExcludedBranch(3832366084378679427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1570732024996461745u64));
+return Err(ParseError::ExcludedBranch(12230053902523648559u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3970524133912495743u64));
+return Err(ParseError::ExcludedBranch(6309917041149428265u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10022572355386706896u64));
+return Err(ParseError::ExcludedBranch(14708340496221370872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7175325427369635964u64));
+return Err(ParseError::ExcludedBranch(8149951888585961823u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10941190781838111798u64));
+return Err(ParseError::ExcludedBranch(9665308631980535174u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8533828000951561331u64));
+return Err(ParseError::ExcludedBranch(17114848294724579474u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7620563226324297760u64));
+return Err(ParseError::ExcludedBranch(6471433373632717886u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3141147280724933447u64));
+return Err(ParseError::ExcludedBranch(11488186652992817125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5155365750119375266u64));
+return Err(ParseError::ExcludedBranch(16428598146864409139u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+return Err(ParseError::ExcludedBranch(11934620222090497034u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+return Err(ParseError::ExcludedBranch(7597388605883543966u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+return Err(ParseError::ExcludedBranch(1942606498606899849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16002368984748306955u64));
+return Err(ParseError::ExcludedBranch(9288520242296510642u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
+return Err(ParseError::ExcludedBranch(12753818979092594971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1057280760989719477u64));
+return Err(ParseError::ExcludedBranch(9662462399070735352u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4360542291358407189u64));
+return Err(ParseError::ExcludedBranch(8414850703985147087u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11728165168471348185u64));
+return Err(ParseError::ExcludedBranch(14428558544277089677u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10495009576779598530u64));
+return Err(ParseError::ExcludedBranch(17505260505493155057u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7128967683436470476u64));
+return Err(ParseError::ExcludedBranch(4244096627290639074u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3036714361878569528u64));
+return Err(ParseError::ExcludedBranch(16278372111013231116u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17797183748027644744u64));
+return Err(ParseError::ExcludedBranch(4797145928961714098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4766620025042958433u64));
+return Err(ParseError::ExcludedBranch(11396441833338683368u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3832366084378679427u64));
+return Err(ParseError::ExcludedBranch(18000244536401340529u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12230053902523648559u64));
+return Err(ParseError::ExcludedBranch(17499296848696657524u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6309917041149428265u64));
+return Err(ParseError::ExcludedBranch(17871409524597489995u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14708340496221370872u64));
+return Err(ParseError::ExcludedBranch(18319329181163975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8149951888585961823u64));
+return Err(ParseError::ExcludedBranch(9728697411637566730u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665308631980535174u64));
+return Err(ParseError::ExcludedBranch(9691647707184281179u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17114848294724579474u64));
+return Err(ParseError::ExcludedBranch(7972156773864461481u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6471433373632717886u64));
+return Err(ParseError::ExcludedBranch(11074874806330017418u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11488186652992817125u64));
+return Err(ParseError::ExcludedBranch(12662813720965160010u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16428598146864409139u64));
+return Err(ParseError::ExcludedBranch(3243138897542356980u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11934620222090497034u64));
+return Err(ParseError::ExcludedBranch(15920917552321559809u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7597388605883543966u64));
+return Err(ParseError::ExcludedBranch(835240278964504247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1942606498606899849u64));
+return Err(ParseError::ExcludedBranch(7150174851274887183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9288520242296510642u64));
+return Err(ParseError::ExcludedBranch(11306355108769900243u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12753818979092594971u64));
+return Err(ParseError::ExcludedBranch(9864490923722431849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9662462399070735352u64));
+return Err(ParseError::ExcludedBranch(1995664400520545068u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8414850703985147087u64));
+return Err(ParseError::ExcludedBranch(14904826071154862403u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14428558544277089677u64));
+return Err(ParseError::ExcludedBranch(9819888267966403254u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17505260505493155057u64));
+return Err(ParseError::ExcludedBranch(9848248130448711783u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4244096627290639074u64));
+return Err(ParseError::ExcludedBranch(13072404838946064765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16278372111013231116u64));
+return Err(ParseError::ExcludedBranch(608962121954693839u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4797145928961714098u64));
+return Err(ParseError::ExcludedBranch(4003079682566975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11396441833338683368u64));
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18000244536401340529u64));
+return Err(ParseError::ExcludedBranch(1862457564087794359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17499296848696657524u64));
+return Err(ParseError::ExcludedBranch(4725257428709613290u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17871409524597489995u64));
+return Err(ParseError::ExcludedBranch(11823569341425521789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18319329181163975393u64));
+return Err(ParseError::ExcludedBranch(14474361861190022573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9728697411637566730u64));
+return Err(ParseError::ExcludedBranch(8440332211549640930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9691647707184281179u64));
+return Err(ParseError::ExcludedBranch(13045651918551022996u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7972156773864461481u64));
+return Err(ParseError::ExcludedBranch(12507789284617859731u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074874806330017418u64));
+return Err(ParseError::ExcludedBranch(4636203914394120912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12662813720965160010u64));
+return Err(ParseError::ExcludedBranch(12770885481695079655u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3243138897542356980u64));
+return Err(ParseError::ExcludedBranch(5713736954960046494u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920917552321559809u64));
+return Err(ParseError::ExcludedBranch(5286459060741837465u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(835240278964504247u64));
+return Err(ParseError::ExcludedBranch(10857757036842967573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7150174851274887183u64));
+return Err(ParseError::ExcludedBranch(8347358143797316202u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11306355108769900243u64));
+return Err(ParseError::ExcludedBranch(9289217078927880343u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9864490923722431849u64));
+return Err(ParseError::ExcludedBranch(7619374930571283120u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1995664400520545068u64));
+return Err(ParseError::ExcludedBranch(5502272810018950495u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14904826071154862403u64));
+return Err(ParseError::ExcludedBranch(9422091606538556682u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9819888267966403254u64));
+return Err(ParseError::ExcludedBranch(1986031727359985319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9848248130448711783u64));
+return Err(ParseError::ExcludedBranch(2609726213773413101u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13072404838946064765u64));
+return Err(ParseError::ExcludedBranch(4688564412461098550u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(608962121954693839u64));
+return Err(ParseError::ExcludedBranch(4942686269660057715u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4003079682566975393u64));
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1862457564087794359u64));
+return Err(ParseError::ExcludedBranch(12709578918531114377u64));
 }
 };
 _input.close_peek_context()?;
@@ -28327,7 +28327,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4725257428709613290u64));
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
 }
 };
 accum.push(next_elem)
@@ -28822,475 +28822,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11823569341425521789u64));
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14474361861190022573u64));
+return Err(ParseError::ExcludedBranch(18441633166538026093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8440332211549640930u64));
+return Err(ParseError::ExcludedBranch(401788761305210720u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13045651918551022996u64));
+return Err(ParseError::ExcludedBranch(5252251088830583126u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12507789284617859731u64));
+return Err(ParseError::ExcludedBranch(5396814765406749711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4636203914394120912u64));
+return Err(ParseError::ExcludedBranch(12786091976415550822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12770885481695079655u64));
+return Err(ParseError::ExcludedBranch(15224635086995724042u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5713736954960046494u64));
+return Err(ParseError::ExcludedBranch(12911570055982528377u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5286459060741837465u64));
+return Err(ParseError::ExcludedBranch(17578303967306014514u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10857757036842967573u64));
+return Err(ParseError::ExcludedBranch(7236895128762201498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8347358143797316202u64));
+return Err(ParseError::ExcludedBranch(10396295304006156759u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9289217078927880343u64));
+return Err(ParseError::ExcludedBranch(14603388329461445014u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7619374930571283120u64));
+return Err(ParseError::ExcludedBranch(15092052115449480204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5502272810018950495u64));
+return Err(ParseError::ExcludedBranch(5644646321622228807u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422091606538556682u64));
+return Err(ParseError::ExcludedBranch(12876869868341544086u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1986031727359985319u64));
+return Err(ParseError::ExcludedBranch(6757475294452472580u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2609726213773413101u64));
+return Err(ParseError::ExcludedBranch(5316076842439816359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4688564412461098550u64));
+return Err(ParseError::ExcludedBranch(13241229060561103069u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4942686269660057715u64));
+return Err(ParseError::ExcludedBranch(8896324603808149952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
+return Err(ParseError::ExcludedBranch(8480214967847684808u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+return Err(ParseError::ExcludedBranch(4089331332020821320u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12709578918531114377u64));
+return Err(ParseError::ExcludedBranch(7660172056721883940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+return Err(ParseError::ExcludedBranch(8118664158941399609u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
+return Err(ParseError::ExcludedBranch(11259402406166723834u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18441633166538026093u64));
+return Err(ParseError::ExcludedBranch(2562653558681619679u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(401788761305210720u64));
+return Err(ParseError::ExcludedBranch(9066549901844041194u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5252251088830583126u64));
+return Err(ParseError::ExcludedBranch(17788403991563985894u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5396814765406749711u64));
+return Err(ParseError::ExcludedBranch(14014946361797352706u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12786091976415550822u64));
+return Err(ParseError::ExcludedBranch(17148278567107839372u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15224635086995724042u64));
+return Err(ParseError::ExcludedBranch(10059971034460660304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12911570055982528377u64));
+return Err(ParseError::ExcludedBranch(11566301548302897286u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17578303967306014514u64));
+return Err(ParseError::ExcludedBranch(4726882489015010540u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7236895128762201498u64));
+return Err(ParseError::ExcludedBranch(16731067715008063623u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10396295304006156759u64));
+return Err(ParseError::ExcludedBranch(10050470520268747158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14603388329461445014u64));
+return Err(ParseError::ExcludedBranch(7028862034699171644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15092052115449480204u64));
+return Err(ParseError::ExcludedBranch(6768457941542394460u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5644646321622228807u64));
+return Err(ParseError::ExcludedBranch(3336832804021932765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12876869868341544086u64));
+return Err(ParseError::ExcludedBranch(14287222125204946454u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6757475294452472580u64));
+return Err(ParseError::ExcludedBranch(14784334396256787566u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5316076842439816359u64));
+return Err(ParseError::ExcludedBranch(17975519714191498979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13241229060561103069u64));
+return Err(ParseError::ExcludedBranch(15547793456796641064u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8896324603808149952u64));
+return Err(ParseError::ExcludedBranch(2708015872450907711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8480214967847684808u64));
+return Err(ParseError::ExcludedBranch(17628659998315744600u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4089331332020821320u64));
+return Err(ParseError::ExcludedBranch(7574719322668410505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7660172056721883940u64));
+return Err(ParseError::ExcludedBranch(6886530205512451724u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8118664158941399609u64));
+return Err(ParseError::ExcludedBranch(4782096577080450146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11259402406166723834u64));
+return Err(ParseError::ExcludedBranch(14577481400621526493u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2562653558681619679u64));
+return Err(ParseError::ExcludedBranch(14148913971033431093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066549901844041194u64));
+return Err(ParseError::ExcludedBranch(17190949120592669315u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17788403991563985894u64));
+return Err(ParseError::ExcludedBranch(8699787504309122591u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14014946361797352706u64));
+return Err(ParseError::ExcludedBranch(78099073500381561u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17148278567107839372u64));
+return Err(ParseError::ExcludedBranch(5364461768558038471u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10059971034460660304u64));
+return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11566301548302897286u64));
+return Err(ParseError::ExcludedBranch(5733684513012333041u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4726882489015010540u64));
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16731067715008063623u64));
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10050470520268747158u64));
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7028862034699171644u64));
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6768457941542394460u64));
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3336832804021932765u64));
+return Err(ParseError::ExcludedBranch(1456571545446476568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14287222125204946454u64));
+return Err(ParseError::ExcludedBranch(14908888453225293887u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14784334396256787566u64));
+return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17975519714191498979u64));
+return Err(ParseError::ExcludedBranch(14063858022942822585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15547793456796641064u64));
+return Err(ParseError::ExcludedBranch(7083101893872508858u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2708015872450907711u64));
+return Err(ParseError::ExcludedBranch(15979415359593570628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17628659998315744600u64));
+return Err(ParseError::ExcludedBranch(17922878356929717082u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7574719322668410505u64));
+return Err(ParseError::ExcludedBranch(15321253101048235163u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6886530205512451724u64));
+return Err(ParseError::ExcludedBranch(14285291594842403582u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4782096577080450146u64));
+return Err(ParseError::ExcludedBranch(7161350271661739096u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14577481400621526493u64));
+return Err(ParseError::ExcludedBranch(14445026714989735755u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14148913971033431093u64));
+return Err(ParseError::ExcludedBranch(7573348369521592997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17190949120592669315u64));
+return Err(ParseError::ExcludedBranch(2912602219218223367u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8699787504309122591u64));
+return Err(ParseError::ExcludedBranch(15885886181646629118u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(78099073500381561u64));
+return Err(ParseError::ExcludedBranch(13594649006224468849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5364461768558038471u64));
+return Err(ParseError::ExcludedBranch(14349391981174483355u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7135191863324865081u64));
+return Err(ParseError::ExcludedBranch(10927780046062734427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733684513012333041u64));
+return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(14114750189009003637u64));
 }
 };
 _input.close_peek_context()?;
@@ -29305,7 +29305,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14275129881911283147u64));
+return Err(ParseError::ExcludedBranch(12268471799124361536u64));
 }
 };
 accum.push(next_elem)
@@ -29364,7 +29364,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
 }
 };
 _input.close_peek_context()?;
@@ -29397,7 +29397,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9532564966458988001u64));
+return Err(ParseError::FalsifiedWhere(3999778194527899420u64));
 }
 };
 let flags = {
@@ -30044,475 +30044,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4384065895993710795u64));
+return Err(ParseError::ExcludedBranch(1105171745447487568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14063858022942822585u64));
+return Err(ParseError::ExcludedBranch(646997207007428137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7083101893872508858u64));
+return Err(ParseError::ExcludedBranch(6351919260209655786u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15979415359593570628u64));
+return Err(ParseError::ExcludedBranch(552953513858366451u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17922878356929717082u64));
+return Err(ParseError::ExcludedBranch(17332407069754301555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15321253101048235163u64));
+return Err(ParseError::ExcludedBranch(14279133095670415871u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14285291594842403582u64));
+return Err(ParseError::ExcludedBranch(7347749870002275487u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7161350271661739096u64));
+return Err(ParseError::ExcludedBranch(10748847049349746078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14445026714989735755u64));
+return Err(ParseError::ExcludedBranch(14220958138979104104u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7573348369521592997u64));
+return Err(ParseError::ExcludedBranch(17741760072369420240u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2912602219218223367u64));
+return Err(ParseError::ExcludedBranch(12223407337737822059u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15885886181646629118u64));
+return Err(ParseError::ExcludedBranch(6072942808717419822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13594649006224468849u64));
+return Err(ParseError::ExcludedBranch(15560056883377919848u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14349391981174483355u64));
+return Err(ParseError::ExcludedBranch(7977419944699061624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10927780046062734427u64));
+return Err(ParseError::ExcludedBranch(8323252642575612937u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+return Err(ParseError::ExcludedBranch(11678443062630698028u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+return Err(ParseError::ExcludedBranch(14832405617500840744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+return Err(ParseError::ExcludedBranch(1398536204687975789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+return Err(ParseError::ExcludedBranch(7336714497745271452u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+return Err(ParseError::ExcludedBranch(4152914559762097168u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+return Err(ParseError::ExcludedBranch(1152534299541961510u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3933597635930613605u64));
+return Err(ParseError::ExcludedBranch(5095757730543354711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+return Err(ParseError::ExcludedBranch(4668055697655854201u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1105171745447487568u64));
+return Err(ParseError::ExcludedBranch(6515957116553005671u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(646997207007428137u64));
+return Err(ParseError::ExcludedBranch(2017059186547121525u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6351919260209655786u64));
+return Err(ParseError::ExcludedBranch(11789784461021426583u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(552953513858366451u64));
+return Err(ParseError::ExcludedBranch(16022216421479351095u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17332407069754301555u64));
+return Err(ParseError::ExcludedBranch(15337804701822118436u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14279133095670415871u64));
+return Err(ParseError::ExcludedBranch(2750471357152633230u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7347749870002275487u64));
+return Err(ParseError::ExcludedBranch(8306706226429158303u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10748847049349746078u64));
+return Err(ParseError::ExcludedBranch(8033982984919675631u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14220958138979104104u64));
+return Err(ParseError::ExcludedBranch(7258731811542513498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17741760072369420240u64));
+return Err(ParseError::ExcludedBranch(1283209893442238385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12223407337737822059u64));
+return Err(ParseError::ExcludedBranch(1920187793319100008u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6072942808717419822u64));
+return Err(ParseError::ExcludedBranch(7474037925185307628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15560056883377919848u64));
+return Err(ParseError::ExcludedBranch(4475730102931494177u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7977419944699061624u64));
+return Err(ParseError::ExcludedBranch(17780439059155340308u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8323252642575612937u64));
+return Err(ParseError::ExcludedBranch(6739127967943113267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11678443062630698028u64));
+return Err(ParseError::ExcludedBranch(10170756778737993654u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14832405617500840744u64));
+return Err(ParseError::ExcludedBranch(14306133355400503306u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1398536204687975789u64));
+return Err(ParseError::ExcludedBranch(8902666087419502325u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7336714497745271452u64));
+return Err(ParseError::ExcludedBranch(10248009767256971850u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4152914559762097168u64));
+return Err(ParseError::ExcludedBranch(7807103255128873628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1152534299541961510u64));
+return Err(ParseError::ExcludedBranch(7840596951976883698u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5095757730543354711u64));
+return Err(ParseError::ExcludedBranch(8004105446758774533u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4668055697655854201u64));
+return Err(ParseError::ExcludedBranch(12569316739694558801u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6515957116553005671u64));
+return Err(ParseError::ExcludedBranch(2967911718584065013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2017059186547121525u64));
+return Err(ParseError::ExcludedBranch(7227788188777836434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11789784461021426583u64));
+return Err(ParseError::ExcludedBranch(2859130192484418172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16022216421479351095u64));
+return Err(ParseError::ExcludedBranch(12550558264664848853u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15337804701822118436u64));
+return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2750471357152633230u64));
+return Err(ParseError::ExcludedBranch(1891774877762105457u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8306706226429158303u64));
+return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8033982984919675631u64));
+return Err(ParseError::ExcludedBranch(5515497093089591991u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7258731811542513498u64));
+return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1283209893442238385u64));
+return Err(ParseError::ExcludedBranch(6882184431082022206u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1920187793319100008u64));
+return Err(ParseError::ExcludedBranch(3998072683184925592u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7474037925185307628u64));
+return Err(ParseError::ExcludedBranch(29850628954056690u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4475730102931494177u64));
+return Err(ParseError::ExcludedBranch(7279615132236188739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17780439059155340308u64));
+return Err(ParseError::ExcludedBranch(17636172564439370608u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6739127967943113267u64));
+return Err(ParseError::ExcludedBranch(13863787293436782080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10170756778737993654u64));
+return Err(ParseError::ExcludedBranch(16714498072262546943u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14306133355400503306u64));
+return Err(ParseError::ExcludedBranch(2157707350523277837u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8902666087419502325u64));
+return Err(ParseError::ExcludedBranch(15134222038433106385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10248009767256971850u64));
+return Err(ParseError::ExcludedBranch(14950271805613481359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7807103255128873628u64));
+return Err(ParseError::ExcludedBranch(5499566165243611472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7840596951976883698u64));
+return Err(ParseError::ExcludedBranch(11265176092564100083u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8004105446758774533u64));
+return Err(ParseError::ExcludedBranch(14916894554939814670u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12569316739694558801u64));
+return Err(ParseError::ExcludedBranch(10473830801714814973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2967911718584065013u64));
+return Err(ParseError::ExcludedBranch(5334325531610156978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7227788188777836434u64));
+return Err(ParseError::ExcludedBranch(16975008930446149745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2859130192484418172u64));
+return Err(ParseError::ExcludedBranch(760820951392925727u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12550558264664848853u64));
+return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16954835414833850385u64));
+return Err(ParseError::ExcludedBranch(4600414761378562541u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1891774877762105457u64));
+return Err(ParseError::ExcludedBranch(18313399323903636110u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13705211812356460160u64));
+return Err(ParseError::ExcludedBranch(15786118691017431738u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5515497093089591991u64));
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6882184431082022206u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 };
 _input.close_peek_context()?;
@@ -30527,7 +30527,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 };
 accum.push(next_elem)
@@ -30553,7 +30553,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(29850628954056690u64));
+return Err(ParseError::FalsifiedWhere(11515797873012483658u64));
 }
 };
 let flags = {
@@ -30589,7 +30589,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 }
 };
 let arg1 = {
@@ -30597,7 +30597,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(8076978189295213982u64));
 }
 };
 let arg2 = {
@@ -30605,7 +30605,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13863787293436782080u64));
+return Err(ParseError::ExcludedBranch(11570281271401624317u64));
 }
 };
 let arg3 = {
@@ -30613,7 +30613,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16714498072262546943u64));
+return Err(ParseError::ExcludedBranch(14687724984806605719u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30654,7 +30654,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15134222038433106385u64)
+try_sub!(x, 16u64, 8385173961957899741u64)
 },
 
 _ => {
@@ -30816,7 +30816,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -30850,7 +30850,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 17107648091243309207u64)
 },
 
 _ => {
@@ -30998,8 +30998,8 @@ mpeg4_mvhd_data_fields_version1 { creation_time, modification_time, timescale, d
 mpeg4_mvhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(5534609128357633386u64));
 }
 };
 let rate = {
@@ -31071,7 +31071,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 16625761205375889740u64)
 },
 
 _ => {
@@ -31185,7 +31185,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 760820951392925727u64)
+try_sub!(x, 16u64, 3344648651879382526u64)
 },
 
 _ => {
@@ -31315,8 +31315,8 @@ mpeg4_tkhd_data_fields_version1 { creation_time, modification_time, track_ID, re
 mpeg4_tkhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(8599210436172030522u64));
 }
 };
 let reserved2 = {
@@ -31385,7 +31385,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4600414761378562541u64)
+try_sub!(x, 16u64, 15403934492100194569u64)
 },
 
 _ => {
@@ -31449,7 +31449,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15786118691017431738u64)
+try_sub!(x, 16u64, 2288772415159374970u64)
 },
 
 _ => {
@@ -31569,7 +31569,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 };
 _input.close_peek_context()?;
@@ -31582,7 +31582,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 accum.push(next_elem)
@@ -31597,7 +31597,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7931358881575056193u64));
+return Err(ParseError::ExcludedBranch(11074951631636946051u64));
 }
 };
 chars.clone()
@@ -31656,8 +31656,8 @@ mpeg4_mvhd_data_fields_version1 { creation_time, modification_time, timescale, d
 mpeg4_mvhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 };
 let language = {
@@ -31688,7 +31688,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 4569970360394099475u64)
 },
 
 _ => {
@@ -31844,7 +31844,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 15293691521783146694u64)
 },
 
 _ => {
@@ -31908,7 +31908,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 8403192837054512577u64)
 },
 
 _ => {
@@ -32313,7 +32313,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 3975307768385535064u64)
 },
 
 _ => {
@@ -32399,7 +32399,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6881565717664829242u64)
+try_sub!(x, 16u64, 16112061863928357291u64)
 },
 
 _ => {
@@ -32643,7 +32643,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 _input.close_peek_context()?;
@@ -32656,7 +32656,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17107648091243309207u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 };
 accum.push(next_elem)
@@ -32671,7 +32671,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5534609128357633386u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 };
 chars.clone()
@@ -32787,8 +32787,8 @@ accum
 mpeg4_iref_data_single_item_reference::large(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32872,8 +32872,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 let extent_count = {
@@ -32914,7 +32914,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 7795160901559545235u64)
 },
 
 _ => {
@@ -32998,7 +32998,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 9331389203258424019u64)
 },
 
 _ => {
@@ -33099,8 +33099,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33121,8 +33121,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 }
 };
 let extent_length = match length_size {
@@ -33143,8 +33143,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33167,7 +33167,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 5208404121666294786u64)
 },
 
 _ => {
@@ -33222,7 +33222,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 13751590285972774894u64)
 },
 
 _ => {
@@ -33277,7 +33277,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17888323854924040413u64)
+try_sub!(x, 16u64, 9201081899504003615u64)
 },
 
 _ => {
@@ -33374,7 +33374,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 _input.close_peek_context()?;
@@ -33387,7 +33387,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 accum.push(next_elem)
@@ -33402,7 +33402,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 chars.clone()
@@ -33424,7 +33424,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 _input.close_peek_context()?;
@@ -33437,7 +33437,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 accum.push(next_elem)
@@ -33452,7 +33452,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 chars.clone()
@@ -33474,7 +33474,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 _input.close_peek_context()?;
@@ -33487,7 +33487,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 accum.push(next_elem)
@@ -33502,7 +33502,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 chars.clone()
@@ -33548,7 +33548,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 _input.close_peek_context()?;
@@ -33561,7 +33561,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 accum.push(next_elem)
@@ -33576,7 +33576,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 chars.clone()
@@ -33623,7 +33623,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 _input.close_peek_context()?;
@@ -33636,7 +33636,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 accum.push(next_elem)
@@ -33651,7 +33651,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 chars.clone()
@@ -33678,7 +33678,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 _input.close_peek_context()?;
@@ -33691,7 +33691,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 accum.push(next_elem)
@@ -33706,7 +33706,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 chars.clone()
@@ -33721,7 +33721,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 let marker = {
@@ -33729,7 +33729,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33884,11 +33884,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34009,11 +34009,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34029,7 +34029,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 }
 };
@@ -34135,11 +34135,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34164,7 +34164,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 };
 let marker = {
@@ -34172,7 +34172,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34195,11 +34195,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34217,7 +34217,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 })
 }
@@ -34315,11 +34315,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34432,7 +34432,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 })
 }
@@ -34498,11 +34498,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34575,7 +34575,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 })
 }
@@ -34680,11 +34680,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34712,7 +34712,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 let marker = {
@@ -34720,7 +34720,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 };
 jpeg_soi { marker }
@@ -34839,11 +34839,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34871,7 +34871,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 let marker = {
@@ -34879,7 +34879,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 };
 jpeg_soi { marker }
@@ -35042,13 +35042,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 _input.close_peek_context()?;
@@ -35153,13 +35153,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 _input.close_peek_context()?;
@@ -35213,7 +35213,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 })
 }
@@ -35233,7 +35233,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 _input.close_peek_context()?;
@@ -35246,7 +35246,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 },
 
@@ -35257,7 +35257,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 let arg1 = {
@@ -35265,7 +35265,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 (arg0, arg1)
@@ -35274,7 +35274,7 @@ return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 })
 }
@@ -35286,7 +35286,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -35294,7 +35294,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35307,7 +35307,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -35315,7 +35315,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35328,7 +35328,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -35336,7 +35336,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35349,7 +35349,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -35357,7 +35357,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35370,7 +35370,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -35378,7 +35378,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35391,7 +35391,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 let marker = {
@@ -35399,7 +35399,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35412,7 +35412,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 let marker = {
@@ -35420,7 +35420,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35433,7 +35433,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 let marker = {
@@ -35441,7 +35441,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35458,7 +35458,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4614223265245060097u64));
+return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
 }
 };
 let image_components = {
@@ -35478,7 +35478,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
+return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
 }
 };
 let end_spectral_selection = {
@@ -35490,7 +35490,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35527,7 +35527,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6766897041260485978u64));
+return Err(ParseError::FalsifiedWhere(180881308211696508u64));
 })
 }
 
@@ -35545,7 +35545,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7359082011512182682u64));
+return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35699,13 +35699,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 _input.close_peek_context()?;
@@ -35769,7 +35769,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 let marker = {
@@ -35777,7 +35777,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 jpeg_soi { marker }
@@ -35804,7 +35804,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 let marker = {
@@ -35812,7 +35812,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 jpeg_soi { marker }
@@ -35839,7 +35839,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 let marker = {
@@ -35847,7 +35847,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 jpeg_soi { marker }
@@ -35874,7 +35874,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -35882,7 +35882,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -35909,7 +35909,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -35917,7 +35917,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -35944,7 +35944,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -35952,7 +35952,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -35979,7 +35979,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -35987,7 +35987,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -36014,7 +36014,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -36022,7 +36022,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -36049,7 +36049,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -36057,7 +36057,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 jpeg_soi { marker }
@@ -36084,7 +36084,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -36092,7 +36092,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 jpeg_soi { marker }
@@ -36119,7 +36119,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -36127,7 +36127,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 jpeg_soi { marker }
@@ -36154,7 +36154,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 let marker = {
@@ -36162,7 +36162,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 jpeg_soi { marker }
@@ -36189,7 +36189,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 let marker = {
@@ -36197,7 +36197,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 jpeg_soi { marker }
@@ -36227,7 +36227,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
 }
 };
 let num_lines = {
@@ -36246,7 +36246,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(14238499412440345954u64));
 }
 };
 let num_image_components = {
@@ -36258,7 +36258,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
+return Err(ParseError::FalsifiedWhere(14703397633096852322u64));
 }
 };
 let image_components = {
@@ -36290,7 +36290,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
+return Err(ParseError::FalsifiedWhere(268478239438800266u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36304,7 +36304,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let marker = {
@@ -36312,7 +36312,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 jpeg_soi { marker }
@@ -36361,7 +36361,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 let marker = {
@@ -36369,7 +36369,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 jpeg_soi { marker }
@@ -36396,7 +36396,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 let marker = {
@@ -36404,7 +36404,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 jpeg_soi { marker }
@@ -36431,7 +36431,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 let marker = {
@@ -36439,7 +36439,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 jpeg_soi { marker }
@@ -36466,7 +36466,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let marker = {
@@ -36474,7 +36474,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 jpeg_soi { marker }
@@ -36501,7 +36501,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 let marker = {
@@ -36509,7 +36509,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 jpeg_soi { marker }
@@ -36536,7 +36536,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 let marker = {
@@ -36544,7 +36544,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 jpeg_soi { marker }
@@ -36591,7 +36591,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let marker = {
@@ -36599,7 +36599,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 jpeg_soi { marker }
@@ -36646,7 +36646,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 let marker = {
@@ -36654,7 +36654,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 jpeg_soi { marker }
@@ -36701,7 +36701,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 let marker = {
@@ -36709,7 +36709,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 jpeg_soi { marker }
@@ -36756,7 +36756,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 let marker = {
@@ -36764,7 +36764,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 jpeg_soi { marker }
@@ -36811,7 +36811,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 let marker = {
@@ -36819,7 +36819,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 jpeg_soi { marker }
@@ -36866,7 +36866,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 let marker = {
@@ -36874,7 +36874,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 jpeg_soi { marker }
@@ -36921,7 +36921,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 let marker = {
@@ -36929,7 +36929,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 jpeg_soi { marker }
@@ -36976,7 +36976,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 let marker = {
@@ -36984,7 +36984,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 jpeg_soi { marker }
@@ -37031,7 +37031,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 let marker = {
@@ -37039,7 +37039,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 jpeg_soi { marker }
@@ -37086,7 +37086,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 let marker = {
@@ -37094,7 +37094,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 jpeg_soi { marker }
@@ -37141,7 +37141,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 let marker = {
@@ -37149,7 +37149,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 jpeg_soi { marker }
@@ -37196,7 +37196,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 let marker = {
@@ -37204,7 +37204,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 jpeg_soi { marker }
@@ -37251,7 +37251,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 let marker = {
@@ -37259,7 +37259,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 jpeg_soi { marker }
@@ -37306,7 +37306,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 let marker = {
@@ -37314,7 +37314,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 jpeg_soi { marker }
@@ -37372,7 +37372,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 _input.close_peek_context()?;
@@ -37385,7 +37385,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 accum.push(next_elem)
@@ -37400,7 +37400,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 chars.clone()
@@ -37456,7 +37456,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37508,7 +37508,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 _input.close_peek_context()?;
@@ -37521,7 +37521,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 accum.push(next_elem)
@@ -37536,7 +37536,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 chars.clone()
@@ -37593,7 +37593,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10865781264025109219u64));
+return Err(ParseError::FalsifiedWhere(13460389694602013078u64));
 }
 };
 let density_x = {
@@ -37608,7 +37608,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
+return Err(ParseError::FalsifiedWhere(16535687493193441589u64));
 }
 };
 let density_y = {
@@ -37623,7 +37623,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(16678380679225161433u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37685,7 +37685,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10349067556055585673u64));
+return Err(ParseError::FalsifiedWhere(11416999240256111317u64));
 })
 }
 
@@ -37740,7 +37740,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9276145871181842621u64));
+return Err(ParseError::FalsifiedWhere(13319962755558045565u64));
 })
 }
 
@@ -37774,8 +37774,8 @@ accum
 jpeg_dqt_data_elements::Shorts(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 })
 }
@@ -37798,7 +37798,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 _input.close_peek_context()?;
@@ -37811,7 +37811,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 accum.push(next_elem)
@@ -37826,7 +37826,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37851,7 +37851,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 _input.close_peek_context()?;
@@ -37864,7 +37864,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 accum.push(next_elem)
@@ -37879,7 +37879,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 chars.clone()
@@ -37969,7 +37969,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 _input.close_peek_context()?;
@@ -37990,7 +37990,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 accum.push(next_elem)
@@ -38019,7 +38019,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 accum.push(next_elem)
@@ -38050,7 +38050,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 _input.close_peek_context()?;
@@ -38063,7 +38063,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 accum.push(next_elem)
@@ -38078,7 +38078,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38103,7 +38103,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 _input.close_peek_context()?;
@@ -38116,7 +38116,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 accum.push(next_elem)
@@ -38131,7 +38131,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 chars.clone()
@@ -38147,7 +38147,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 let arg1 = {
@@ -38155,7 +38155,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 let arg2 = {
@@ -38163,7 +38163,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38213,7 +38213,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 }
 },
@@ -38223,7 +38223,7 @@ return Err(ParseError::ExcludedBranch(479680595494617916u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 _input.close_peek_context()?;
@@ -38242,7 +38242,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 })
 }
@@ -38254,7 +38254,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38278,7 +38278,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 }
 },
@@ -38288,7 +38288,7 @@ return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 _input.close_peek_context()?;
@@ -38305,7 +38305,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 }
 };
@@ -38330,11 +38330,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38352,7 +38352,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 })
 }
@@ -38364,7 +38364,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 let label = {
@@ -38372,7 +38372,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 let block_size = {
@@ -38380,7 +38380,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 let identifier = {
@@ -38408,7 +38408,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 _input.close_peek_context()?;
@@ -38435,7 +38435,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let label = {
@@ -38443,7 +38443,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let comment_data = {
@@ -38462,7 +38462,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 _input.close_peek_context()?;
@@ -38489,7 +38489,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 let data = {
@@ -38509,7 +38509,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 })
 }
 
@@ -38520,7 +38520,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 let label = {
@@ -38528,7 +38528,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 let block_size = {
@@ -38536,7 +38536,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38564,7 +38564,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 _input.close_peek_context()?;
@@ -38583,7 +38583,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 })
 }
@@ -38612,7 +38612,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 let label = {
@@ -38620,7 +38620,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 let block_size = {
@@ -38628,7 +38628,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 };
 let text_grid_left_position = {
@@ -38667,7 +38667,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 _input.close_peek_context()?;
@@ -38694,7 +38694,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 };
 let image_left_position = {
@@ -38744,7 +38744,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 };
 _input.close_peek_context()?;
@@ -38876,55 +38876,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 };
 _input.close_peek_context()?;
@@ -38939,7 +38939,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 accum.push(next_elem)
@@ -38953,7 +38953,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(5694490278249537684u64));
 }
 };
 (arg0, arg1)
@@ -38981,7 +38981,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39014,7 +39014,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11349426438005611188u64));
+return Err(ParseError::FalsifiedWhere(15004954221525838533u64));
 }
 };
 let num_image_components = {
@@ -39026,7 +39026,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
+return Err(ParseError::FalsifiedWhere(9104412661124805519u64));
 }
 };
 let image_components = {
@@ -39049,7 +39049,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39071,7 +39071,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(783530747334100044u64));
+return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39085,7 +39085,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(5585407796242218698u64));
 }
 };
 let marker = {
@@ -39093,7 +39093,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 }
 };
 jpeg_soi { marker }
@@ -39140,7 +39140,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(401211890982280023u64));
 }
 };
 let marker = {
@@ -39148,7 +39148,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(8351383702383589488u64));
 }
 };
 jpeg_soi { marker }
@@ -39186,7 +39186,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(165949313037892889u64));
+return Err(ParseError::FalsifiedWhere(16926640000337048185u64));
 }
 };
 let num_image_components = {
@@ -39198,7 +39198,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13586715084946654863u64));
+return Err(ParseError::FalsifiedWhere(14305107858950733127u64));
 }
 };
 let image_components = {
@@ -39220,7 +39220,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(14247107068446105269u64));
 }
 };
 let marker = {
@@ -39228,7 +39228,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(5774748803588796814u64));
 }
 };
 jpeg_soi { marker }
@@ -39263,7 +39263,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4276041640044341942u64));
+return Err(ParseError::FalsifiedWhere(12564492979960735543u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 174db47..fb34144 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3452,8 +3452,10 @@ where
                     Refutability::Refutable | Refutability::Indeterminate => {
                         RustMatchBody::Refutable(
                             branches,
-                            RustCatchAll::PanicUnreachable {
-                                message: Label::from("ExprMatch refuted: "),
+                            RustCatchAll::ReturnErrorValue {
+                                value: Box::new(model::err_fallthrough(get_trace(
+                                    &"ExprMatch refuted",
+                                ))),
                             },
                         )
                     }
-- 
2.43.0


From a12c09264b711c9b26398115f0d84ae886486b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:37 +0000
Subject: [PATCH 38/66] fix: the bounds of a bitwise-and contain every result
 when one side is known exactly

---
 src/bounds.rs | 28 ++--------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 7d76f80..baed325 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -277,22 +277,6 @@ impl Bounds {
             max: self.max.map(|n| n.div_ceil(8)),
         }
     }
-
-    /// Finds the pair `(x, m)` that yields the maximal `x & m` for `x` in the bounds of `self`.
-    ///
-    /// May fudge the value of `x` to an out-of-range value to shortcut the computation of `x & m`
-    /// over all in-range values, with the guarantee that the resulting bitwise-and will be no less
-    /// than the true maximum of `y & m` for actually-in-range `y`.
-    fn best_mask(&self, m: usize) -> (usize, usize) {
-        if self.contains(m) {
-            (m, m)
-        } else {
-            match self.max {
-                Some(n) => (mask(n), m),
-                _ => (m, m),
-            }
-        }
-    }
 }
 
 macro_rules! try_from_bounds {
@@ -457,16 +441,8 @@ impl BitAnd<Bounds> for Bounds {
             max: match (lo_self.max, lo_rhs.max) {
                 (Some(m1), Some(m2)) => Some(match (lo_self.min == m1, lo_rhs.min == m2) {
                     (true, true) => blend_bits(k1, k2, m1, m2),
-                    (true, false) => {
-                        // NOTE - the order of x2 and m in blend_bits matters
-                        let (x2, m) = lo_rhs.best_mask(m1);
-                        blend_bits(k1, k2, m, x2)
-                    }
-                    (false, true) => {
-                        // NOTE - the order of x1 and m in blend_bits matters
-                        let (x1, m) = lo_self.best_mask(m2);
-                        blend_bits(k1, k2, x1, m)
-                    }
+                    (true, false) => blend_bits(k1, k2, m1, mask(m2)),
+                    (false, true) => blend_bits(k1, k2, mask(m1), m2),
                     (false, false) => blend_bits(k1, k2, mask(m1), mask(m2)),
                 }),
                 _ => None,
-- 
2.43.0


From 3de4914efb1cecb1627176c47b21df451f3d1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:37 +0000
Subject: [PATCH 39/66] fix: bitwise bounds of values using the top bit no
 longer abort

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index baed325..e3a852c 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -460,7 +460,7 @@ fn blend_bits(k1: usize, k2: usize, m1: usize, m2: usize) -> usize {
 
 fn mask(x: usize) -> usize {
     if x != 0 {
-        1_usize.checked_shl(x.ilog2() + 1).unwrap() - 1
+        usize::MAX >> x.leading_zeros()
     } else {
         0
     }
-- 
2.43.0


From 98c6a736b418f737d9bc91fee35f8bc2eacbbc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:37 +0000
Subject: [PATCH 40/66] fix: compiling a format that computes a remainder by
 zero no longer aborts

---
 src/bounds.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index e3a852c..ac5937d 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -90,17 +90,12 @@ impl Bounds {
     /// Provided that `lhs = Bounds::exact(x)`, and `rhs = Bounds::exact(y)`, the
     /// result should always be `Bounds::exact(x % y)`.
     ///
-    /// # Panics
-    ///
-    /// Will panic if both ranges are exact but `rhs == 0`.
-    ///
-    /// Even if `rhs` contains `0` as its minimum, will return `Bounds::any`
-    /// rather than panicking provided `rhs` is not `Bounds::exact(0)`.
+    /// If both ranges are exact but `rhs == 0`, there is no result to bound, and `Bounds::any` is returned.
     // REVIEW - should this be a `std::ops::Rem` impl?
     pub(crate) fn rem(lhs: Bounds, rhs: Bounds) -> Bounds {
         if let Some(y) = rhs.as_exact() {
             if let Some(x) = lhs.as_exact() {
-                return Bounds::exact(x.checked_rem(y).unwrap());
+                return x.checked_rem(y).map_or(Bounds::any(), Bounds::exact);
             } else {
                 // NOTE - some edge-cases may have general solutions but we won't attempt to solve them, for now
                 log::debug!(
-- 
2.43.0


From 79903824745b43cfa2e817c8c75fa173febbf55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:43 +0000
Subject: [PATCH 41/66] fix: the bounds of a left-shift whose result is too
 large are unbounded rather than truncated

---
 src/bounds.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index ac5937d..a28c562 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -367,12 +367,11 @@ impl Div<Bounds> for Bounds {
 impl Bounds {
     pub fn checked_shl(self, rhs: Self) -> Option<Self> {
         let min2 = u32::try_from(rhs.min).ok()?;
-        let min = self.min.checked_shl(min2)?;
+        let min = shl_exact(self.min, min2)?;
         let max = match (self.max, rhs.max) {
             (Some(m1), Some(m2)) => {
                 let max2 = u32::try_from(m2).ok()?;
-                // REVIEW - there may be edge-cases here where max2 < 64 but m1 overflows, yielding unexpectedly small values
-                m1.checked_shl(max2)
+                shl_exact(m1, max2)
             }
             _ => None,
         };
@@ -393,6 +392,12 @@ impl Bounds {
     }
 }
 
+/// Shifts `x` left by `n` bits, returning `None` if any set bits would be lost.
+fn shl_exact(x: usize, n: u32) -> Option<usize> {
+    let ret = x.checked_shl(n)?;
+    (ret >> n == x).then_some(ret)
+}
+
 impl Shl<Bounds> for Bounds {
     type Output = Self;
 
-- 
2.43.0


From 44dc58b37e95da06e55458fed31888c9dd5c32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:34 +0000
Subject: [PATCH 42/66] fix: the bounds of a left-shift allow for bits shifted
 out of the operand's type

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c84d00..b8a0a3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -738,7 +738,11 @@ impl Expr {
                 Arith::Div => a.bounds() / b.bounds(),
                 Arith::BitOr => a.bounds() | b.bounds(),
                 Arith::BitAnd => a.bounds() & b.bounds(),
-                Arith::Shl => a.bounds() << b.bounds(),
+                // NOTE - bits shifted out of the type of the operand, which is not known here, are lost
+                Arith::Shl => match a.bounds() << b.bounds() {
+                    bounds if bounds.max().is_some_and(|n| n <= u8::MAX as usize) => bounds,
+                    _ => Bounds::any(),
+                },
                 Arith::Shr => a.bounds() >> b.bounds(),
                 Arith::Rem => Bounds::rem(a.bounds(), b.bounds()),
                 Arith::BoolOr | Arith::BoolAnd => Bounds::any(),
-- 
2.43.0


From 4fb873a5bec2c6ca7d0cb1ba852aa7b05e4b4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:28 +0000
Subject: [PATCH 43/66] fix: generated code keeps the grouping of right-hand
 operands of - / % << >> and of products

---
 src/codegen/rust_ast/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 6f9022d..31ed8e5 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -12,7 +12,7 @@ use crate::numeric::elaborator::PrimInt as ExtPrimInt;
 use crate::codegen::model::{DEFAULT_LT, READ_ARRAY_IS_COPY, VIEW_OBJECT_IS_COPY};
 use crate::output::{Fragment, FragmentBuilder};
 
-use crate::precedence::{Precedence, cond_paren};
+use crate::precedence::{IntransitiveOrd, Precedence, Relation, cond_paren};
 use crate::{BaseKind, BaseType, IntoLabel, Label, ValueType};
 
 /// Enum-type (currently degenerate) for specifying the visibility of a top-level item
@@ -3333,6 +3333,17 @@ impl InfixOperator {
 }
 
 impl InfixOperator {
+    /// Returns `true` if `a op (b op c)` can be written `a op b op c` for every operator with the precedence of `op`
+    fn is_associative(&self) -> bool {
+        matches!(
+            self,
+            InfixOperator::BitOr
+                | InfixOperator::BitAnd
+                | InfixOperator::BoolOr
+                | InfixOperator::BoolAnd
+        )
+    }
+
     pub(crate) fn token(&self) -> &'static str {
         match self {
             InfixOperator::Eq => " == ",
@@ -3439,7 +3450,16 @@ impl ToFragmentExt for RustOp {
             RustOp::InfixOp(op, lhs, rhs) => cond_paren(
                 lhs.to_fragment_precedence(inherent)
                     .cat(Fragment::string(op.token()))
-                    .cat(rhs.to_fragment_precedence(inherent)),
+                    .cat(rhs.to_fragment_precedence(match rhs.as_ref() {
+                        // NOTE - infix operators group to the left, so a right-hand operand has to keep its parentheses unless regrouping is harmless
+                        RustExpr::Operation(RustOp::InfixOp(inner, ..))
+                            if !op.is_associative()
+                                && inner.precedence().relate(&inherent) == Relation::Congruent =>
+                        {
+                            Precedence::ATOM
+                        }
+                        _ => inherent,
+                    })),
                 prec,
                 inherent,
             ),
-- 
2.43.0


From 107d1a37053cdb843d0c407998f603b6b1ad69a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:47 +0000
Subject: [PATCH 44/66] fix: what PeekNot looks for, slice sizes and relative
 offsets are type-checked like everything else

---
 src/lib.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b8a0a3d..0f831a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1204,10 +1204,31 @@ impl FormatModule {
                 )),
             },
             Format::Peek(a) => self.infer_format_type(scope, a),
-            Format::PeekNot(_a) => Ok(ValueType::Tuple(vec![])),
-            Format::Slice(_expr, a) => self.infer_format_type(scope, a),
+            Format::PeekNot(a) => {
+                // the value is never produced, but it must still be well-typed to be evaluated
+                self.infer_format_type(scope, a)?;
+                Ok(ValueType::Tuple(vec![]))
+            }
+            Format::Slice(size, a) => match size.infer_type(scope)? {
+                t if t.is_numeric() => self.infer_format_type(scope, a),
+                other => Err(anyhow!(
+                    "Slice first argument type should be numeric, found {other:?} instead"
+                )),
+            },
             Format::Bits(a) => self.infer_format_type(scope, a),
-            Format::WithRelativeOffset(_base_addr, _offset, a) => self.infer_format_type(scope, a),
+            Format::WithRelativeOffset(base_addr, offset, a) => {
+                for x in [base_addr, offset] {
+                    match x.infer_type(scope)? {
+                        t if t.is_numeric() => {}
+                        other => {
+                            return Err(anyhow!(
+                                "WithRelativeOffset address type should be numeric, found {other:?} instead"
+                            ));
+                        }
+                    }
+                }
+                self.infer_format_type(scope, a)
+            }
             Format::Map(a, expr) => {
                 let arg_type = self.infer_format_type(scope, a)?;
                 match expr.as_ref() {
-- 
2.43.0


From 2e1590749ae01c2109b83da79d1a83e00e786e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:19 +0000
Subject: [PATCH 45/66] fix: the type checker does not let a record
 expression's fields capture one another's names

---
 src/typecheck.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/typecheck.rs b/src/typecheck.rs
index f01c424..7b6a3a6 100644
--- a/src/typecheck.rs
+++ b/src/typecheck.rs
@@ -2272,11 +2272,9 @@ impl TypeChecker {
             Expr::Record(fs) => {
                 let newvar = self.get_new_uvar();
                 let mut fields = Vec::with_capacity(fs.len());
-                let mut child = UMultiScope::with_capacity(scope, fs.len());
                 for (lbl, f) in fs {
-                    let scope = UScope::Multi(&child);
-                    let f_var = self.infer_var_expr(f, &scope)?;
-                    child.push(lbl.clone(), f_var);
+                    // NOTE - the fields of a record expression are not in scope of one another
+                    let f_var = self.infer_var_expr(f, scope)?;
                     fields.push((lbl.clone(), f_var.into()));
                 }
                 self.unify_var_utype(newvar, Rc::new(UType::Record(fields)))?;
-- 
2.43.0


From 03416a7e4215e7de70bd11488e174d4adea4ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:34 +0000
Subject: [PATCH 46/66] fix: arrays whose size in bytes is not representable
 are refused

---
 smallsorts/src/binary/read.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2e28c02..1a7cbff 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -537,7 +537,7 @@ impl<'a> ReadCtxt<'a> {
         &mut self,
         length: usize,
     ) -> Result<ReadArray<'a, T>, ParseError> {
-        let scope = self.read_scope(length * T::SIZE)?;
+        let scope = self.read_scope(length.checked_mul(T::SIZE).ok_or(ReadEof {})?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -555,7 +555,7 @@ impl<'a> ReadCtxt<'a> {
         if T::SIZE > stride {
             return Err(ParseError::BadValue);
         }
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ReadEof {})?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -592,7 +592,7 @@ impl<'a> ReadCtxt<'a> {
         args: T::Args<'a>,
     ) -> Result<ReadArray<'a, T>, ParseError> {
         let stride = T::size(args);
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ReadEof {})?)?;
         Ok(ReadArray {
             scope,
             length,
-- 
2.43.0


From 3a19b8fc217fb31b49933381427bd5b2e363bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:34 +0000
Subject: [PATCH 47/66] fix: cursor offsets beyond the representable range are
 refused rather than wrapped

---
 src/parser/offset.rs | 9 ++++++---
 src/parser/view.rs   | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index b183f0e..546c8d9 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -68,15 +68,18 @@ impl ByteOffset {
         matches!(self, Self::Bits { .. })
     }
 
+    /// Returns the offset that lies `delta` positions beyond `self`.
+    ///
+    /// An offset too large to be represented is capped, which is beyond the end of any buffer.
     pub(crate) fn increment_by(&self, delta: usize) -> Self {
         match *self {
-            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes + delta),
+            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes.saturating_add(delta)),
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
             } => Self::Bits {
                 starting_byte,
-                bits_advanced: bits_advanced + delta,
+                bits_advanced: bits_advanced.saturating_add(delta),
             },
         }
     }
@@ -132,7 +135,7 @@ impl ByteOffset {
 
     pub(crate) fn abs_bit_offset(&self) -> usize {
         match *self {
-            ByteOffset::Bytes(n) => n * 8,
+            ByteOffset::Bytes(n) => n.saturating_mul(8),
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 396da5a..35432ae 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -39,7 +39,7 @@ impl<'a> View<'a> {
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
             Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset + offset),
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
                 max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
             }))
         } else {
@@ -69,7 +69,9 @@ impl<'a> View<'a> {
             Err(e) => match e {
                 AllSortsParseError::BadEof => {
                     Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                        offset: ByteOffset::from_bytes(self.start_offset + len * size),
+                        offset: ByteOffset::from_bytes(
+                            self.start_offset.saturating_add(len.saturating_mul(size)),
+                        ),
                         max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
                     }))
                 }
-- 
2.43.0


From 1412d1bed04604be2c56d17492e536d4fa0e6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:58 +0000
Subject: [PATCH 48/66] fix: the address of a scope beyond the representable
 range no longer aborts

---
 smallsorts/src/binary/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 1a7cbff..f773b27 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -272,7 +272,7 @@ impl<'a> ReadScope<'a> {
     }
 
     pub fn offset(&self, offset: usize) -> ReadScope<'a> {
-        let base = self.base + offset;
+        let base = self.base.saturating_add(offset);
         let data = self.data.get(offset..).unwrap_or(&[]);
         ReadScope { base, data }
     }
@@ -281,7 +281,7 @@ impl<'a> ReadScope<'a> {
         if offset < self.data.len() || length == 0 {
             let data = self.data.get(offset..).unwrap_or(&[]);
             if length <= data.len() {
-                let base = self.base + offset;
+                let base = self.base.saturating_add(offset);
                 let data = &data[0..length];
                 Ok(ReadScope { base, data })
             } else {
-- 
2.43.0


From ca4830ad25886fb3d1981b24600c9e53839ca3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:58 +0000
Subject: [PATCH 49/66] fix: items of an array with a stride are read at that
 stride

---
 smallsorts/src/binary/read.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index f773b27..4a8e85f 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -657,9 +657,8 @@ impl<'a, T: ReadFixedSizeDep> ReadArray<'a, T> {
 
     pub fn read_item(&self, index: usize) -> Result<T::HostType<'a>, ParseError> {
         if index < self.length {
-            let size = T::size(self.args);
-            let offset = index * size;
-            let scope = self.scope.offset_length(offset, size).unwrap();
+            let offset = index * self.stride;
+            let scope = self.scope.offset_length(offset, self.stride).unwrap();
             let mut ctxt = scope.ctxt();
             T::read_dep(&mut ctxt, self.args)
         } else {
-- 
2.43.0


From c53e88c5a808f389e9b01f2ad108bdbb427bb204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:58 +0000
Subject: [PATCH 50/66] fix: an array iterator reports the number of items that
 are left

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 4a8e85f..2b5fb35 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -813,7 +813,7 @@ impl<'a, 'b, T: ReadUnchecked> Iterator for ReadArrayIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.scope.data().len() / self.stride;
+        let remaining = self.scope.data().len() / self.stride - self.index;
         (remaining, Some(remaining))
     }
 }
-- 
2.43.0


From ad02f6439adf302f8abb63d239a9fc63ff9afba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:56 +0000
Subject: [PATCH 51/66] fix: generated source does not depend on what was
 generated before in the same thread

---
 src/codegen/mod.rs   | 3 ++-
 src/codegen/trace.rs | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index fb34144..92a6c54 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -6,7 +6,7 @@ use std::{
     rc::Rc,
 };
 
-use trace::get_and_increment_seed;
+use trace::{get_and_increment_seed, reset_seed};
 
 use crate::{
     Arith, BaseKind, BaseType, CommonOp, DynFormat, Endian, Expr, Format, FormatModule, IntRel,
@@ -3830,6 +3830,7 @@ impl ToAst for DynamicLogic<GTExpr> {
 /// format-module `module`. Any formats within `module` that are inaccessible via exploration
 /// of `top_format` may be omitted from the resulting code-output.
 pub fn generate_code(module: &FormatModule, top_format: &Format) -> impl ToFragment + use<> {
+    reset_seed();
     let mut items = Vec::new();
 
     let Generator {
diff --git a/src/codegen/trace.rs b/src/codegen/trace.rs
index 765ea48..a1fafca 100644
--- a/src/codegen/trace.rs
+++ b/src/codegen/trace.rs
@@ -9,3 +9,9 @@ pub(crate) fn get_and_increment_seed() -> u64 {
         tmp
     })
 }
+
+/// Restarts the sequence of seeds, so that the traces in one generated program do not depend on
+/// how much code was generated before it in the same thread.
+pub(crate) fn reset_seed() {
+    TRACE_SEED.with_borrow_mut(|seed| *seed = 0)
+}
-- 
2.43.0


From bcac80a564c4699068f33f566df58f209a035fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:00 +0000
Subject: [PATCH 52/66] fix: reserved bits marked must-be-zero are checked

---
 generated/gencode.rs | 1324 ++++++++++++++++++++++--------------------
 src/helper.rs        |    4 +-
 2 files changed, 688 insertions(+), 640 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 81f7085..75bfbb2 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -13528,9 +13528,21 @@ u16be(x)
 };
 let flags = {
 let _packed_bits = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
+let is_valid = {
+let packed = inner;
+packed & 254u16 == 0u16
+};
+if is_valid {
+inner
+} else {
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+inner
+}
+};
 let cannot_be_resigned = _packed_bits & 1u16 > 0u16;
 opentype_dsig_table_flags { cannot_be_resigned }
 };
@@ -13559,7 +13571,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
 inner
 }
 };
@@ -13579,7 +13591,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
+return Err(ParseError::FalsifiedWhere(3433937857563719729u64));
 }
 };
 let records = {
@@ -13615,7 +13627,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13516986665125759073u64));
 inner
 }
 };
@@ -13635,7 +13647,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
+return Err(ParseError::FalsifiedWhere(14751251992141172493u64));
 }
 };
 let ratio_range = {
@@ -13759,7 +13771,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14751251992141172493u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
 inner
 }
 };
@@ -13775,7 +13787,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8997881400116719018u64));
 inner
 }
 };
@@ -13850,7 +13862,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8997881400116719018u64));
+return Err(ParseError::FalsifiedWhere(13614619987783239962u64));
 }
 };
 let data = match format {
@@ -14014,7 +14026,7 @@ opentype_stat_axis_value_table_data::Format4(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(6915530142412472120u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14040,7 +14052,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6949960292533894002u64));
 inner
 }
 };
@@ -14072,7 +14084,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6949960292533894002u64));
+return Err(ParseError::FailToken(1347174710810305478u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14226,7 +14238,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1347174710810305478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
 inner
 }
 };
@@ -14263,7 +14275,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15803403730818557393u64));
 inner
 }
 };
@@ -14463,7 +14475,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8390724546948265409u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 let ix1 = {
@@ -14471,7 +14483,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6347242493551283856u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 vec![ix0, ix1]
@@ -14541,7 +14553,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4251627061094365437u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 _input.close_peek_context()?;
@@ -14554,7 +14566,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11915580511665106140u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 accum.push(next_elem)
@@ -14569,7 +14581,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17324980155911269375u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14594,7 +14606,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 };
 _input.close_peek_context()?;
@@ -14607,7 +14619,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(1278184758971178969u64));
 }
 };
 accum.push(next_elem)
@@ -14622,7 +14634,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 };
 chars.clone()
@@ -14729,7 +14741,7 @@ deflate_block_data::dynamic_huffman(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(12879845237981630531u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -15865,7 +15877,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3426398976290336157u64));
+return Err(ParseError::ExcludedBranch(11250208753083412758u64));
 }
 }))
 },
@@ -16017,11 +16029,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(11250208753083412758u64));
+return Err(ParseError::FailToken(17349123374714965876u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17349123374714965876u64));
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 })
 }
@@ -16099,7 +16111,7 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2153064741293804702u64));
+return Err(ParseError::ExcludedBranch(1588651938759015246u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16127,7 +16139,19 @@ PResult::Ok(gzip_fextra_subfield { si1, si2, len, data })
 
 /// d#95
 fn Decoder_gzip_header_file_flags(_input: &mut Parser<'_>) -> Result<gzip_header_file_flags, ParseError> {
-let _packed_bits = _input.read_byte()?;
+let _packed_bits = {
+let inner = _input.read_byte()?;
+let is_valid = {
+let packed = inner;
+packed & 224u8 == 0u8
+};
+if is_valid {
+inner
+} else {
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
+inner
+}
+};
 let fcomment = _packed_bits >> 4u8 & 1u8 > 0u8;
 let fname = _packed_bits >> 3u8 & 1u8 > 0u8;
 let fextra = _packed_bits >> 2u8 & 1u8 > 0u8;
@@ -16152,7 +16176,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
 inner
 }
 };
@@ -16218,7 +16242,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(8700288293163706751u64));
 }
 };
 let variation_regions = {
@@ -16391,7 +16415,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16771529512960957239u64));
 inner
 }
 };
@@ -16413,7 +16437,7 @@ u32be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8700288293163706751u64));
+return Err(ParseError::ExcludedBranch(13846498452079501214u64));
 }
 };
 let map_data = {
@@ -16425,7 +16449,19 @@ PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_b
 
 /// d#101
 fn Decoder_opentype_var_dsim_entry_format(_input: &mut Parser<'_>) -> Result<opentype_var_dsim_entry_format, ParseError> {
-let _packed_bits = _input.read_byte()?;
+let _packed_bits = {
+let inner = _input.read_byte()?;
+let is_valid = {
+let packed = inner;
+packed & 192u8 == 0u8
+};
+if is_valid {
+inner
+} else {
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9798710097031164942u64));
+inner
+}
+};
 let map_entry_size = _packed_bits >> 4u8 & 3u8;
 let inner_index_bit_count = _packed_bits & 15u8;
 PResult::Ok(opentype_var_dsim_entry_format { map_entry_size, inner_index_bit_count })
@@ -16475,7 +16511,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
+return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
 }
 };
 let tuple_variation_headers = {
@@ -16668,7 +16704,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18279137173405083757u64));
+return Err(ParseError::ExcludedBranch(14984809111992638634u64));
 }
 };
 _input.close_peek_context()?;
@@ -16682,7 +16718,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13846498452079501214u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 (0u16, [].to_vec())
@@ -16694,7 +16730,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9798710097031164942u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16706,7 +16742,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9819345728844658158u64));
+return Err(ParseError::ExcludedBranch(11046436797737227751u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16714,7 +16750,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14954891776835932150u64));
+return Err(ParseError::ExcludedBranch(9342187932533045817u64));
 }
 })
 }
@@ -16844,7 +16880,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
 inner
 }
 };
@@ -16993,7 +17029,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -17009,7 +17045,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
 inner
 }
 };
@@ -17065,7 +17101,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10875553067752207222u64));
 inner
 }
 };
@@ -17081,7 +17117,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11323981950571132721u64));
 inner
 }
 };
@@ -17223,7 +17259,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
 }
 };
 let table_scope = table_view;
@@ -17239,7 +17275,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
 }
 };
 let extension_offset = {
@@ -17292,11 +17328,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(6821845925776570829u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(15898809900392744567u64));
 }
 })
 }
@@ -17320,7 +17356,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17367,7 +17403,7 @@ opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6821845925776570829u64));
+return Err(ParseError::ExcludedBranch(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17389,7 +17425,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
 }
 };
 let coverage = {
@@ -17438,7 +17474,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let coverage = {
@@ -17496,7 +17532,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9179996462972575343u64));
+return Err(ParseError::FailToken(8327471529801851430u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17527,7 +17563,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3675496117133668659u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17548,7 +17584,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
+return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
 }
 };
 let table_scope = table_view;
@@ -17679,7 +17715,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8327471529801851430u64));
+return Err(ParseError::FailToken(16529910322175208638u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17927,7 +17963,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10310785543736156275u64));
+return Err(ParseError::FailToken(12187643960709778443u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -17988,7 +18024,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
+return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
 }
 };
 let input_sequence = {
@@ -18180,7 +18216,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
+return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
 }
 };
 let seq_lookup_count = {
@@ -18253,7 +18289,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
+return Err(ParseError::FalsifiedWhere(163858356033350300u64));
 }
 };
 let component_glyph_ids = {
@@ -18429,7 +18465,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8766708729375264031u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
 inner
 }
 };
@@ -18578,7 +18614,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
 }
 };
 let table_scope = table_view;
@@ -18594,7 +18630,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
 }
 };
 let extension_offset = {
@@ -18652,11 +18688,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(888161872995526095u64));
+return Err(ParseError::FailToken(3595277668730903043u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(4770836931378141069u64));
+return Err(ParseError::FailToken(5446531490235636452u64));
 }
 })
 }
@@ -18680,7 +18716,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9976720501248819272u64));
+return Err(ParseError::FailToken(12530712830475607577u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18705,7 +18741,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3595277668730903043u64));
+return Err(ParseError::FailToken(1386817607731947864u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18726,7 +18762,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
+return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
 }
 };
 let table_scope = table_view;
@@ -18768,7 +18804,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(3923207427992258326u64));
 }
 };
 let table_scope = table_view;
@@ -18827,7 +18863,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
+return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
 }
 };
 let mark_coverage = {
@@ -18884,7 +18920,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
+return Err(ParseError::FalsifiedWhere(15995337135637623051u64));
 }
 };
 let table_scope = table_view;
@@ -19042,7 +19078,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3923207427992258326u64));
+return Err(ParseError::FailToken(4063460887563813446u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19190,7 +19226,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5174369311102857850u64));
+return Err(ParseError::ExcludedBranch(10243418979491025991u64));
 }
 };
 let arg1 = {
@@ -19198,7 +19234,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15995337135637623051u64));
+return Err(ParseError::ExcludedBranch(6726475111737435495u64));
 }
 };
 (arg0, arg1)
@@ -19456,9 +19492,21 @@ PResult::Ok(opentype_layout_pair_pos_format2 { table_scope, coverage, value_form
 /// d#183
 fn Decoder_opentype_layout_value_format_flags(_input: &mut Parser<'_>) -> Result<opentype_layout_value_format_flags, ParseError> {
 let _packed_bits = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
+let is_valid = {
+let packed = inner;
+packed & 65280u16 == 0u16
+};
+if is_valid {
+inner
+} else {
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+inner
+}
+};
 let y_advance_device = _packed_bits >> 7u16 & 1u16 > 0u16;
 let x_advance_device = _packed_bits >> 6u16 & 1u16 > 0u16;
 let y_placement_device = _packed_bits >> 5u16 & 1u16 > 0u16;
@@ -20136,7 +20184,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
 inner
 }
 };
@@ -20227,7 +20275,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10243418979491025991u64));
+return Err(ParseError::FailToken(13281230340934385869u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20476,7 +20524,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6726475111737435495u64));
+return Err(ParseError::FailToken(2229770659268432585u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20540,7 +20588,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3702191162545267776u64));
+return Err(ParseError::FailToken(8862619478422395719u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21189,7 +21237,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
+return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
 }
 };
 let max_twilight_points = {
@@ -21232,7 +21280,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13281230340934385869u64));
+return Err(ParseError::FalsifiedWhere(13266006752343456203u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21328,7 +21376,7 @@ opentype_cmap_subtable_data::Format14(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2229770659268432585u64));
+return Err(ParseError::ExcludedBranch(13264741506377240721u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21351,7 +21399,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -21376,7 +21424,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21419,7 +21467,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21434,7 +21482,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
+return Err(ParseError::FalsifiedWhere(10057441536650509049u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21455,7 +21503,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21471,7 +21519,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12815986247090051214u64));
+return Err(ParseError::FalsifiedWhere(829032137919921844u64));
 }
 };
 let language = {
@@ -21592,7 +21640,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21617,7 +21665,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21671,7 +21719,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21752,7 +21800,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -21803,7 +21851,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -21819,7 +21867,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -21844,7 +21892,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -21860,7 +21908,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -21915,7 +21963,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -21931,7 +21979,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -21956,7 +22004,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -21972,7 +22020,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22026,7 +22074,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22042,7 +22090,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22067,7 +22115,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22083,7 +22131,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22130,7 +22178,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
 inner
 }
 };
@@ -22146,7 +22194,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
 inner
 }
 };
@@ -22171,7 +22219,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14339975513692068616u64));
 inner
 }
 };
@@ -22187,7 +22235,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16299205781335471965u64));
 inner
 }
 };
@@ -22234,7 +22282,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1479153625485860551u64));
 inner
 }
 };
@@ -22259,7 +22307,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12668500753644823654u64));
 inner
 }
 };
@@ -22426,7 +22474,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14339975513692068616u64));
+return Err(ParseError::FalsifiedWhere(8094248233631264621u64));
 })
 }
 
@@ -22444,7 +22492,7 @@ elf_types_elf_full::Full64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 })
 }
@@ -22463,7 +22511,7 @@ elf_types_elf_addr::Addr64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 })
 }
@@ -22482,7 +22530,7 @@ elf_types_elf_off::Off64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 })
 }
@@ -22612,7 +22660,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 }
 };
 let arg1 = {
@@ -22620,7 +22668,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(1969670610881234889u64));
 }
 };
 let arg2 = {
@@ -22628,7 +22676,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(9038350950373664822u64));
 }
 };
 let arg3 = {
@@ -22636,7 +22684,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7230273548678969972u64));
+return Err(ParseError::ExcludedBranch(7281717462557989541u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22668,7 +22716,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(15510952803379905659u64));
 }
 };
 accum.push(next_elem)
@@ -22691,7 +22739,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
+return Err(ParseError::FalsifiedWhere(14681668243282477517u64));
 })
 }
 
@@ -22710,7 +22758,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
+return Err(ParseError::FalsifiedWhere(6209434968043366837u64));
 })
 }
 
@@ -22740,7 +22788,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
+return Err(ParseError::FalsifiedWhere(16474038368490899078u64));
 })
 }
 
@@ -22754,7 +22802,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
+return Err(ParseError::FalsifiedWhere(12217686503432178884u64));
 })
 }
 
@@ -22768,7 +22816,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14681668243282477517u64));
+return Err(ParseError::FalsifiedWhere(8399572043096922156u64));
 })
 }
 
@@ -22829,7 +22877,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 _input.close_peek_context()?;
@@ -22842,7 +22890,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16474038368490899078u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 accum.push(next_elem)
@@ -22875,7 +22923,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12217686503432178884u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 accum.push(next_elem)
@@ -22910,7 +22958,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
 _input.close_peek_context()?;
@@ -22923,7 +22971,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
 accum.push(next_elem)
@@ -22956,7 +23004,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 }
 };
 accum.push(next_elem)
@@ -22991,7 +23039,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
 _input.close_peek_context()?;
@@ -23004,7 +23052,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(13780055874544357936u64));
 }
 };
 accum.push(next_elem)
@@ -23037,7 +23085,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14485842416732585139u64));
+return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 }
 };
 accum.push(next_elem)
@@ -23060,10 +23108,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(7933266403838225878u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13780055874544357936u64)
+try_sub!(bit as u8, 48u8, 9041056097467752267u64)
 };
 let _o9 = {
 let bit = {
@@ -23071,10 +23119,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(5025197102194587315u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12100308281236296642u64)
+try_sub!(bit as u8, 48u8, 15252450768049745444u64)
 };
 let _o8 = {
 let bit = {
@@ -23082,10 +23130,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9041056097467752267u64));
+return Err(ParseError::ExcludedBranch(5599331855309773603u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3810055094392728880u64)
+try_sub!(bit as u8, 48u8, 2988545765690796708u64)
 };
 let _o7 = {
 let bit = {
@@ -23093,10 +23141,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
+try_sub!(bit as u8, 48u8, 3566920116549027235u64)
 };
 let _o6 = {
 let bit = {
@@ -23104,10 +23152,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
-try_sub!(bit as u8, 48u8, 17176374570344757031u64)
+try_sub!(bit as u8, 48u8, 16671136947067655757u64)
 };
 let _o5 = {
 let bit = {
@@ -23115,10 +23163,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3653195934333285574u64)
+try_sub!(bit as u8, 48u8, 441240706992005484u64)
 };
 let _o4 = {
 let bit = {
@@ -23126,10 +23174,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8898504689444561451u64)
+try_sub!(bit as u8, 48u8, 11079395374415646537u64)
 };
 let _o3 = {
 let bit = {
@@ -23137,10 +23185,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
-try_sub!(bit as u8, 48u8, 10046433636842398056u64)
+try_sub!(bit as u8, 48u8, 8812292064350598352u64)
 };
 let _o2 = {
 let bit = {
@@ -23148,10 +23196,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5986772336072340665u64)
+try_sub!(bit as u8, 48u8, 4316175446384649956u64)
 };
 let _o1 = {
 let bit = {
@@ -23159,10 +23207,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
-try_sub!(bit as u8, 48u8, 2908689796368760670u64)
+try_sub!(bit as u8, 48u8, 275550262640764009u64)
 };
 let _o0 = {
 let bit = {
@@ -23170,10 +23218,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
-try_sub!(bit as u8, 48u8, 4598583460226006268u64)
+try_sub!(bit as u8, 48u8, 1587806253186841834u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23201,7 +23249,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 _input.close_peek_context()?;
@@ -23214,7 +23262,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 accum.push(next_elem)
@@ -23247,7 +23295,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 accum.push(next_elem)
@@ -23282,7 +23330,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 _input.close_peek_context()?;
@@ -23295,7 +23343,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 accum.push(next_elem)
@@ -23328,7 +23376,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 accum.push(next_elem)
@@ -23357,7 +23405,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 let arg1 = {
@@ -23365,7 +23413,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 let arg2 = {
@@ -23373,7 +23421,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 let arg3 = {
@@ -23381,7 +23429,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 let arg4 = {
@@ -23389,7 +23437,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 let arg5 = {
@@ -23397,7 +23445,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23408,7 +23456,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 let arg1 = {
@@ -23416,7 +23464,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 (arg0, arg1)
@@ -23455,7 +23503,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 _input.close_peek_context()?;
@@ -23468,7 +23516,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 accum.push(next_elem)
@@ -23501,7 +23549,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 accum.push(next_elem)
@@ -23536,7 +23584,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 _input.close_peek_context()?;
@@ -23549,7 +23597,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 accum.push(next_elem)
@@ -23582,7 +23630,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 accum.push(next_elem)
@@ -23612,7 +23660,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 accum.push(next_elem)
@@ -23635,7 +23683,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 accum.push(next_elem);
@@ -23690,7 +23738,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 accum.push(next_elem)
@@ -23709,7 +23757,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 })
 }
 
@@ -23744,7 +23792,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 accum.push(next_elem)
@@ -23776,7 +23824,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 accum.push(next_elem)
@@ -23807,7 +23855,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 _input.close_peek_context()?;
@@ -23820,7 +23868,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 accum.push(next_elem)
@@ -23838,7 +23886,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 accum.push(next_elem);
@@ -23882,7 +23930,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 _input.close_peek_context()?;
@@ -23896,7 +23944,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 let arg1 = {
@@ -23904,7 +23952,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23916,7 +23964,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 let arg1 = {
@@ -23924,14 +23972,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 })
 }
@@ -24140,7 +24188,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 })
 } else {
 None
@@ -24162,7 +24210,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
+return Err(ParseError::FalsifiedWhere(2466404913032252300u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24194,7 +24242,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
+return Err(ParseError::FalsifiedWhere(4149374297771033461u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24326,7 +24374,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17081364943144677526u64));
+return Err(ParseError::FalsifiedWhere(5869833854865239916u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24360,7 +24408,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
+return Err(ParseError::FalsifiedWhere(13372240079418200167u64));
 }
 };
 let flags = {
@@ -24403,7 +24451,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2466404913032252300u64));
+return Err(ParseError::FalsifiedWhere(10504805981668764726u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24421,7 +24469,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let arg1 = {
@@ -24429,7 +24477,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let arg2 = {
@@ -24437,7 +24485,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg3 = {
@@ -24445,7 +24493,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24458,7 +24506,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 let arg1 = {
@@ -24466,7 +24514,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 let arg2 = {
@@ -24474,7 +24522,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg3 = {
@@ -24482,7 +24530,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24524,7 +24572,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 let arg1 = {
@@ -24532,7 +24580,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 let arg2 = {
@@ -24540,7 +24588,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 let arg3 = {
@@ -24548,7 +24596,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24572,7 +24620,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 let arg1 = {
@@ -24580,7 +24628,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 };
 let arg2 = {
@@ -24588,7 +24636,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 };
 let arg3 = {
@@ -24596,7 +24644,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24627,7 +24675,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 accum.push(next_elem)
@@ -24727,7 +24775,7 @@ png_trns::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 })
 }
@@ -24787,7 +24835,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 val.clone()
@@ -24797,7 +24845,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24856,7 +24904,7 @@ png_sbit::color_type_6(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 })
 }
@@ -24872,7 +24920,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15541745679144160988u64));
+return Err(ParseError::FalsifiedWhere(89425857491903975u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24887,7 +24935,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 val.clone()
@@ -24897,7 +24945,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 let compression_method = {
@@ -24905,7 +24953,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 let language_tag = {
@@ -24925,7 +24973,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 _input.close_peek_context()?;
@@ -24938,7 +24986,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 };
 accum.push(next_elem)
@@ -24953,7 +25001,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 chars.clone()
@@ -24965,7 +25013,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 };
 val.clone()
@@ -25052,7 +25100,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
 };
 val.clone()
@@ -25090,7 +25138,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
 };
 val.clone()
@@ -25100,7 +25148,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
 }
 };
 let compressed_text = {
@@ -25184,7 +25232,7 @@ png_bkgd::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
 }
 })
 }
@@ -25241,7 +25289,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(7391010474856587818u64));
 }
 };
 val.clone()
@@ -25251,7 +25299,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+return Err(ParseError::ExcludedBranch(7025852844623144626u64));
 }
 };
 let palette = match sample_depth {
@@ -25338,7 +25386,7 @@ png_splt_palette::sample_depth_u16(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+return Err(ParseError::ExcludedBranch(13513276483415770047u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25842,30 +25890,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13513276483415770047u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(1292030895245088137u64));
 }
@@ -26313,6 +26337,30 @@ return Err(ParseError::ExcludedBranch(8244423856248085319u64));
 _ => {
 return Err(ParseError::ExcludedBranch(14587337454519331439u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17175946860967673146u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4411296728399804345u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(13980028702310773940u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -26326,7 +26374,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+return Err(ParseError::ExcludedBranch(4312000683241916062u64));
 }
 };
 accum.push(next_elem)
@@ -26820,30 +26868,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4411296728399804345u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13980028702310773940u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4312000683241916062u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(3334424754000117797u64));
 }
@@ -27291,6 +27315,30 @@ return Err(ParseError::ExcludedBranch(6019636780841875619u64));
 _ => {
 return Err(ParseError::ExcludedBranch(9286045119570450224u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16002368984748306955u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2518353173875372183u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1057280760989719477u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -27304,7 +27352,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+return Err(ParseError::ExcludedBranch(4360542291358407189u64));
 }
 };
 accum.push(next_elem)
@@ -27330,7 +27378,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16002368984748306955u64));
+return Err(ParseError::FalsifiedWhere(11728165168471348185u64));
 }
 };
 let flags = {
@@ -27843,30 +27891,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1057280760989719477u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4360542291358407189u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11728165168471348185u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(10495009576779598530u64));
 }
@@ -28314,6 +28338,30 @@ return Err(ParseError::ExcludedBranch(16934907723271638747u64));
 _ => {
 return Err(ParseError::ExcludedBranch(12709578918531114377u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(18441633166538026093u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(401788761305210720u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -28327,7 +28375,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+return Err(ParseError::ExcludedBranch(5252251088830583126u64));
 }
 };
 accum.push(next_elem)
@@ -28821,30 +28869,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(18441633166538026093u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(401788761305210720u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5252251088830583126u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(5396814765406749711u64));
 }
@@ -29292,6 +29316,30 @@ return Err(ParseError::ExcludedBranch(11959902760514814588u64));
 _ => {
 return Err(ParseError::ExcludedBranch(14114750189009003637u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3933597635930613605u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -29305,7 +29353,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+return Err(ParseError::ExcludedBranch(5638313771627483501u64));
 }
 };
 accum.push(next_elem)
@@ -29364,7 +29412,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+return Err(ParseError::ExcludedBranch(1105171745447487568u64));
 }
 };
 _input.close_peek_context()?;
@@ -29397,7 +29445,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3999778194527899420u64));
+return Err(ParseError::FalsifiedWhere(646997207007428137u64));
 }
 };
 let flags = {
@@ -30043,30 +30091,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(1105171745447487568u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(646997207007428137u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6351919260209655786u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(552953513858366451u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(17332407069754301555u64));
 }
@@ -30514,20 +30538,44 @@ return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 _ => {
 return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
-};
-_input.close_peek_context()?;
-ret
 }
-};
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
-break
-} else {
-let next_elem = {
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8076978189295213982u64));
+}
+};
+_input.close_peek_context()?;
+ret
+}
+};
+if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+break
+} else {
+let next_elem = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+return Err(ParseError::ExcludedBranch(11570281271401624317u64));
 }
 };
 accum.push(next_elem)
@@ -30553,7 +30601,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11515797873012483658u64));
+return Err(ParseError::FalsifiedWhere(14687724984806605719u64));
 }
 };
 let flags = {
@@ -30589,7 +30637,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8584109755265226714u64));
+return Err(ParseError::ExcludedBranch(1378805635639824117u64));
 }
 };
 let arg1 = {
@@ -30597,7 +30645,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8076978189295213982u64));
+return Err(ParseError::ExcludedBranch(8385173961957899741u64));
 }
 };
 let arg2 = {
@@ -30605,7 +30653,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11570281271401624317u64));
+return Err(ParseError::ExcludedBranch(8407356061009412694u64));
 }
 };
 let arg3 = {
@@ -30613,7 +30661,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14687724984806605719u64));
+return Err(ParseError::ExcludedBranch(6881565717664829242u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30654,7 +30702,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 17107648091243309207u64)
 },
 
 _ => {
@@ -30816,7 +30864,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6881565717664829242u64)
+try_sub!(x, 16u64, 14539762430836305896u64)
 },
 
 _ => {
@@ -30850,7 +30898,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17107648091243309207u64)
+try_sub!(x, 16u64, 2662265345698212949u64)
 },
 
 _ => {
@@ -30999,7 +31047,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5534609128357633386u64));
+return Err(ParseError::ExcludedBranch(3344648651879382526u64));
 }
 };
 let rate = {
@@ -31071,7 +31119,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 3484767027554133518u64)
 },
 
 _ => {
@@ -31185,7 +31233,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 12041148194529633639u64)
 },
 
 _ => {
@@ -31316,7 +31364,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8599210436172030522u64));
+return Err(ParseError::ExcludedBranch(2288772415159374970u64));
 }
 };
 let reserved2 = {
@@ -31385,7 +31433,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15403934492100194569u64)
+try_sub!(x, 16u64, 6279087434444973374u64)
 },
 
 _ => {
@@ -31449,7 +31497,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 2288772415159374970u64)
+try_sub!(x, 16u64, 15601622509425384091u64)
 },
 
 _ => {
@@ -31569,7 +31617,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 _input.close_peek_context()?;
@@ -31582,7 +31630,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 accum.push(next_elem)
@@ -31597,7 +31645,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 chars.clone()
@@ -31657,7 +31705,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 let language = {
@@ -31688,7 +31736,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4569970360394099475u64)
+try_sub!(x, 16u64, 8403192837054512577u64)
 },
 
 _ => {
@@ -31844,7 +31892,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15293691521783146694u64)
+try_sub!(x, 16u64, 3975307768385535064u64)
 },
 
 _ => {
@@ -31908,7 +31956,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8403192837054512577u64)
+try_sub!(x, 16u64, 16112061863928357291u64)
 },
 
 _ => {
@@ -32313,7 +32361,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3975307768385535064u64)
+try_sub!(x, 16u64, 1872233699568519226u64)
 },
 
 _ => {
@@ -32399,7 +32447,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16112061863928357291u64)
+try_sub!(x, 16u64, 7432469293302627017u64)
 },
 
 _ => {
@@ -32643,7 +32691,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 _input.close_peek_context()?;
@@ -32656,7 +32704,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 accum.push(next_elem)
@@ -32671,7 +32719,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 chars.clone()
@@ -32788,7 +32836,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32873,7 +32921,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 };
 let extent_count = {
@@ -32914,7 +32962,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7795160901559545235u64)
+try_sub!(x, 16u64, 15311158871930328757u64)
 },
 
 _ => {
@@ -32998,7 +33046,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9331389203258424019u64)
+try_sub!(x, 16u64, 3585635225240718191u64)
 },
 
 _ => {
@@ -33100,7 +33148,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33122,7 +33170,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 };
 let extent_length = match length_size {
@@ -33144,7 +33192,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33167,7 +33215,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5208404121666294786u64)
+try_sub!(x, 16u64, 9201081899504003615u64)
 },
 
 _ => {
@@ -33222,7 +33270,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13751590285972774894u64)
+try_sub!(x, 16u64, 1821331332215525359u64)
 },
 
 _ => {
@@ -33277,7 +33325,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9201081899504003615u64)
+try_sub!(x, 16u64, 6867774794241173436u64)
 },
 
 _ => {
@@ -33374,7 +33422,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 _input.close_peek_context()?;
@@ -33387,7 +33435,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 accum.push(next_elem)
@@ -33402,7 +33450,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 chars.clone()
@@ -33424,7 +33472,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 _input.close_peek_context()?;
@@ -33437,7 +33485,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 accum.push(next_elem)
@@ -33452,7 +33500,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 chars.clone()
@@ -33474,7 +33522,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 _input.close_peek_context()?;
@@ -33487,7 +33535,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 accum.push(next_elem)
@@ -33502,7 +33550,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 chars.clone()
@@ -33548,7 +33596,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 _input.close_peek_context()?;
@@ -33561,7 +33609,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 accum.push(next_elem)
@@ -33576,7 +33624,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 chars.clone()
@@ -33623,7 +33671,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 _input.close_peek_context()?;
@@ -33636,7 +33684,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 accum.push(next_elem)
@@ -33651,7 +33699,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 chars.clone()
@@ -33678,7 +33726,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 };
 _input.close_peek_context()?;
@@ -33691,7 +33739,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 };
 accum.push(next_elem)
@@ -33706,7 +33754,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 };
 chars.clone()
@@ -33721,7 +33769,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 let marker = {
@@ -33729,7 +33777,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33884,11 +33932,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34009,11 +34057,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34029,7 +34077,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 }
 };
@@ -34135,11 +34183,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34164,7 +34212,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 let marker = {
@@ -34172,7 +34220,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34195,11 +34243,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34217,7 +34265,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 })
 }
@@ -34315,11 +34363,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34432,7 +34480,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 })
 }
@@ -34498,11 +34546,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34575,7 +34623,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 })
 }
@@ -34680,11 +34728,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34712,7 +34760,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 let marker = {
@@ -34720,7 +34768,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 };
 jpeg_soi { marker }
@@ -34839,11 +34887,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34871,7 +34919,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 let marker = {
@@ -34879,7 +34927,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 jpeg_soi { marker }
@@ -35042,13 +35090,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 _input.close_peek_context()?;
@@ -35153,13 +35201,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 _input.close_peek_context()?;
@@ -35213,7 +35261,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 })
 }
@@ -35233,7 +35281,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 _input.close_peek_context()?;
@@ -35246,7 +35294,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 },
 
@@ -35257,7 +35305,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let arg1 = {
@@ -35265,7 +35313,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 (arg0, arg1)
@@ -35274,7 +35322,7 @@ return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 })
 }
@@ -35286,7 +35334,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -35294,7 +35342,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35307,7 +35355,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -35315,7 +35363,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35328,7 +35376,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -35336,7 +35384,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35349,7 +35397,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 let marker = {
@@ -35357,7 +35405,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35370,7 +35418,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 let marker = {
@@ -35378,7 +35426,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35391,7 +35439,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 let marker = {
@@ -35399,7 +35447,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35412,7 +35460,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 let marker = {
@@ -35420,7 +35468,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35433,7 +35481,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 let marker = {
@@ -35441,7 +35489,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35458,7 +35506,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
 }
 };
 let image_components = {
@@ -35478,7 +35526,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
 }
 };
 let end_spectral_selection = {
@@ -35490,7 +35538,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35527,7 +35575,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(16339654162669176472u64));
 })
 }
 
@@ -35545,7 +35593,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
+return Err(ParseError::FalsifiedWhere(1886358831178290550u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35699,13 +35747,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 _input.close_peek_context()?;
@@ -35769,7 +35817,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 let marker = {
@@ -35777,7 +35825,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 jpeg_soi { marker }
@@ -35804,7 +35852,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -35812,7 +35860,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -35839,7 +35887,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -35847,7 +35895,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -35874,7 +35922,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -35882,7 +35930,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -35909,7 +35957,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -35917,7 +35965,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -35944,7 +35992,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -35952,7 +36000,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -35979,7 +36027,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -35987,7 +36035,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 jpeg_soi { marker }
@@ -36014,7 +36062,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -36022,7 +36070,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 jpeg_soi { marker }
@@ -36049,7 +36097,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -36057,7 +36105,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 jpeg_soi { marker }
@@ -36084,7 +36132,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 let marker = {
@@ -36092,7 +36140,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 jpeg_soi { marker }
@@ -36119,7 +36167,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 let marker = {
@@ -36127,7 +36175,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 jpeg_soi { marker }
@@ -36154,7 +36202,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 let marker = {
@@ -36162,7 +36210,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 jpeg_soi { marker }
@@ -36189,7 +36237,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let marker = {
@@ -36197,7 +36245,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 jpeg_soi { marker }
@@ -36227,7 +36275,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
+return Err(ParseError::FalsifiedWhere(6301432137385173939u64));
 }
 };
 let num_lines = {
@@ -36246,7 +36294,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14238499412440345954u64));
+return Err(ParseError::FalsifiedWhere(17762152702085771435u64));
 }
 };
 let num_image_components = {
@@ -36258,7 +36306,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14703397633096852322u64));
+return Err(ParseError::FalsifiedWhere(6803443871185192093u64));
 }
 };
 let image_components = {
@@ -36290,7 +36338,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(268478239438800266u64));
+return Err(ParseError::FalsifiedWhere(204361505388532862u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36304,7 +36352,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 let marker = {
@@ -36312,7 +36360,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 jpeg_soi { marker }
@@ -36361,7 +36409,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 let marker = {
@@ -36369,7 +36417,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 jpeg_soi { marker }
@@ -36396,7 +36444,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let marker = {
@@ -36404,7 +36452,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 jpeg_soi { marker }
@@ -36431,7 +36479,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 let marker = {
@@ -36439,7 +36487,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 jpeg_soi { marker }
@@ -36466,7 +36514,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 let marker = {
@@ -36474,7 +36522,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 jpeg_soi { marker }
@@ -36501,7 +36549,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let marker = {
@@ -36509,7 +36557,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 jpeg_soi { marker }
@@ -36536,7 +36584,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 let marker = {
@@ -36544,7 +36592,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 jpeg_soi { marker }
@@ -36591,7 +36639,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 let marker = {
@@ -36599,7 +36647,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 jpeg_soi { marker }
@@ -36646,7 +36694,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 let marker = {
@@ -36654,7 +36702,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 jpeg_soi { marker }
@@ -36701,7 +36749,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 let marker = {
@@ -36709,7 +36757,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 jpeg_soi { marker }
@@ -36756,7 +36804,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 let marker = {
@@ -36764,7 +36812,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 jpeg_soi { marker }
@@ -36811,7 +36859,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 let marker = {
@@ -36819,7 +36867,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 jpeg_soi { marker }
@@ -36866,7 +36914,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 let marker = {
@@ -36874,7 +36922,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 jpeg_soi { marker }
@@ -36921,7 +36969,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 let marker = {
@@ -36929,7 +36977,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 jpeg_soi { marker }
@@ -36976,7 +37024,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 let marker = {
@@ -36984,7 +37032,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 jpeg_soi { marker }
@@ -37031,7 +37079,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 let marker = {
@@ -37039,7 +37087,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 jpeg_soi { marker }
@@ -37086,7 +37134,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 let marker = {
@@ -37094,7 +37142,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 jpeg_soi { marker }
@@ -37141,7 +37189,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 let marker = {
@@ -37149,7 +37197,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 jpeg_soi { marker }
@@ -37196,7 +37244,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 let marker = {
@@ -37204,7 +37252,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 jpeg_soi { marker }
@@ -37251,7 +37299,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 let marker = {
@@ -37259,7 +37307,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 jpeg_soi { marker }
@@ -37306,7 +37354,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 let marker = {
@@ -37314,7 +37362,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 jpeg_soi { marker }
@@ -37372,7 +37420,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 _input.close_peek_context()?;
@@ -37385,7 +37433,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 accum.push(next_elem)
@@ -37400,7 +37448,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 chars.clone()
@@ -37456,7 +37504,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37508,7 +37556,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 _input.close_peek_context()?;
@@ -37521,7 +37569,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 accum.push(next_elem)
@@ -37536,7 +37584,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 chars.clone()
@@ -37593,7 +37641,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13460389694602013078u64));
+return Err(ParseError::FalsifiedWhere(13319962755558045565u64));
 }
 };
 let density_x = {
@@ -37608,7 +37656,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16535687493193441589u64));
+return Err(ParseError::FalsifiedWhere(17426992236827678217u64));
 }
 };
 let density_y = {
@@ -37623,7 +37671,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16678380679225161433u64));
+return Err(ParseError::FalsifiedWhere(1236150641026759388u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37685,7 +37733,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11416999240256111317u64));
+return Err(ParseError::FalsifiedWhere(12386662728078486919u64));
 })
 }
 
@@ -37740,7 +37788,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13319962755558045565u64));
+return Err(ParseError::FalsifiedWhere(14581882220438260695u64));
 })
 }
 
@@ -37775,7 +37823,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 })
 }
@@ -37798,7 +37846,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 _input.close_peek_context()?;
@@ -37811,7 +37859,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 accum.push(next_elem)
@@ -37826,7 +37874,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37851,7 +37899,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 _input.close_peek_context()?;
@@ -37864,7 +37912,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 accum.push(next_elem)
@@ -37879,7 +37927,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 chars.clone()
@@ -37969,7 +38017,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 _input.close_peek_context()?;
@@ -37990,7 +38038,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 accum.push(next_elem)
@@ -38019,7 +38067,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 accum.push(next_elem)
@@ -38050,7 +38098,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 _input.close_peek_context()?;
@@ -38063,7 +38111,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 accum.push(next_elem)
@@ -38078,7 +38126,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38103,7 +38151,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 _input.close_peek_context()?;
@@ -38116,7 +38164,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 accum.push(next_elem)
@@ -38131,7 +38179,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 chars.clone()
@@ -38147,7 +38195,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 let arg1 = {
@@ -38155,7 +38203,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 let arg2 = {
@@ -38163,7 +38211,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38213,7 +38261,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 }
 },
@@ -38223,7 +38271,7 @@ return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 _input.close_peek_context()?;
@@ -38242,7 +38290,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 })
 }
@@ -38254,7 +38302,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38278,7 +38326,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 }
 },
@@ -38288,7 +38336,7 @@ return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 _input.close_peek_context()?;
@@ -38305,7 +38353,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 }
 };
@@ -38330,11 +38378,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38352,7 +38400,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 })
 }
@@ -38364,7 +38412,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let label = {
@@ -38372,7 +38420,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let block_size = {
@@ -38380,7 +38428,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 let identifier = {
@@ -38408,7 +38456,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 _input.close_peek_context()?;
@@ -38435,7 +38483,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 let label = {
@@ -38443,7 +38491,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 let comment_data = {
@@ -38462,7 +38510,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 _input.close_peek_context()?;
@@ -38489,7 +38537,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 let data = {
@@ -38509,7 +38557,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 })
 }
 
@@ -38520,7 +38568,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 let label = {
@@ -38528,7 +38576,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 let block_size = {
@@ -38536,7 +38584,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38564,7 +38612,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 };
 _input.close_peek_context()?;
@@ -38583,7 +38631,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 })
 }
@@ -38612,7 +38660,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 };
 let label = {
@@ -38620,7 +38668,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18414062761433945694u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 };
 let block_size = {
@@ -38628,7 +38676,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16815582401460622228u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 };
 let text_grid_left_position = {
@@ -38667,7 +38715,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 };
 _input.close_peek_context()?;
@@ -38694,7 +38742,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6170312119912404925u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 };
 let image_left_position = {
@@ -38744,7 +38792,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 };
 _input.close_peek_context()?;
@@ -38876,55 +38924,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(5694490278249537684u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15666641356442195125u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8003682420837492218u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 _input.close_peek_context()?;
@@ -38939,7 +38987,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6672851768458061412u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 };
 accum.push(next_elem)
@@ -38953,7 +39001,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5694490278249537684u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 (arg0, arg1)
@@ -38981,7 +39029,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17498679062468273557u64));
+return Err(ParseError::ExcludedBranch(13391927636850586680u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39014,7 +39062,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15004954221525838533u64));
+return Err(ParseError::FalsifiedWhere(5585407796242218698u64));
 }
 };
 let num_image_components = {
@@ -39026,7 +39074,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9104412661124805519u64));
+return Err(ParseError::FalsifiedWhere(7581188615734068888u64));
 }
 };
 let image_components = {
@@ -39049,7 +39097,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13731807471966330507u64));
+return Err(ParseError::ExcludedBranch(401211890982280023u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39071,7 +39119,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
+return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39085,7 +39133,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5585407796242218698u64));
+return Err(ParseError::ExcludedBranch(16926640000337048185u64));
 }
 };
 let marker = {
@@ -39093,7 +39141,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7581188615734068888u64));
+return Err(ParseError::ExcludedBranch(14305107858950733127u64));
 }
 };
 jpeg_soi { marker }
@@ -39140,7 +39188,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(401211890982280023u64));
+return Err(ParseError::ExcludedBranch(14247107068446105269u64));
 }
 };
 let marker = {
@@ -39148,7 +39196,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8351383702383589488u64));
+return Err(ParseError::ExcludedBranch(5774748803588796814u64));
 }
 };
 jpeg_soi { marker }
@@ -39186,7 +39234,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16926640000337048185u64));
+return Err(ParseError::FalsifiedWhere(12564492979960735543u64));
 }
 };
 let num_image_components = {
@@ -39198,7 +39246,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14305107858950733127u64));
+return Err(ParseError::FalsifiedWhere(2458638837424585123u64));
 }
 };
 let image_components = {
@@ -39220,7 +39268,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14247107068446105269u64));
+return Err(ParseError::ExcludedBranch(15528204713822084965u64));
 }
 };
 let marker = {
@@ -39228,7 +39276,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5774748803588796814u64));
+return Err(ParseError::ExcludedBranch(5036225068787254506u64));
 }
 };
 jpeg_soi { marker }
@@ -39263,7 +39311,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12564492979960735543u64));
+return Err(ParseError::FalsifiedWhere(17887022250737672487u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/helper.rs b/src/helper.rs
index ff08c5b..ec7a646 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -141,7 +141,7 @@ pub fn bit_fields_u8<const N: usize>(bit_fields: [BitFieldKind; N]) -> Format {
             };
             fields.push((Label::Borrowed(name), compute(field_value)));
         } else if bit_field.check_zero() {
-            unset_bits_mask &= ((1u8 << nbits) - 1) << (8 - (high_bits_used + nbits));
+            unset_bits_mask |= ((1u8 << nbits) - 1) << (8 - (high_bits_used + nbits));
         }
         high_bits_used += nbits;
     }
@@ -214,7 +214,7 @@ pub fn bit_fields_u16<const N: usize>(bit_fields: [BitFieldKind; N]) -> Format {
             };
             fields.push((Label::Borrowed(name), compute(field_value)));
         } else if bit_field.check_zero() {
-            unset_bits_mask &= ((1u16 << nbits) - 1) << (16 - (high_bits_used + nbits));
+            unset_bits_mask |= ((1u16 << nbits) - 1) << (16 - (high_bits_used + nbits));
         }
         high_bits_used += nbits;
     }
-- 
2.43.0


From bb0d974782b14080ef953ac8cac1d259bc018d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 53/66] fix: bit fields as wide as the whole packed value no
 longer abort

---
 src/helper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index ec7a646..f2c873b 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -73,7 +73,7 @@ fn mask_bits_u8(x: Expr, high_bits_used: u8, nbits: u8) -> Expr {
         8 - high_bits_used
     );
     let shift = 8 - high_bits_used - nbits;
-    let mask = (1 << nbits) - 1;
+    let mask = ((1u16 << nbits) - 1) as u8;
     let shifted = if shift == 0 {
         x
     } else {
@@ -92,7 +92,7 @@ fn mask_bits_u16(x: Expr, high_bits_used: u8, nbits: u8) -> Expr {
         16 - high_bits_used
     );
     let shift = 16 - (high_bits_used + nbits) as u16;
-    let mask = (1u16 << nbits) - 1;
+    let mask = ((1u32 << nbits) - 1) as u16;
     let shifted = if shift == 0 {
         x
     } else {
@@ -141,7 +141,7 @@ pub fn bit_fields_u8<const N: usize>(bit_fields: [BitFieldKind; N]) -> Format {
             };
             fields.push((Label::Borrowed(name), compute(field_value)));
         } else if bit_field.check_zero() {
-            unset_bits_mask |= ((1u8 << nbits) - 1) << (8 - (high_bits_used + nbits));
+            unset_bits_mask |= (((1u16 << nbits) - 1) << (8 - (high_bits_used + nbits))) as u8;
         }
         high_bits_used += nbits;
     }
@@ -214,7 +214,7 @@ pub fn bit_fields_u16<const N: usize>(bit_fields: [BitFieldKind; N]) -> Format {
             };
             fields.push((Label::Borrowed(name), compute(field_value)));
         } else if bit_field.check_zero() {
-            unset_bits_mask |= ((1u16 << nbits) - 1) << (16 - (high_bits_used + nbits));
+            unset_bits_mask |= (((1u32 << nbits) - 1) << (16 - (high_bits_used + nbits))) as u16;
         }
         high_bits_used += nbits;
     }
-- 
2.43.0


From d99cfb1e73f0d5d584a9050b49a99fcccb706655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 54/66] fix: tree output no longer aborts on a choice inside
 transparent formats

---
 src/output/tree.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index fef2173..f8a8e0b 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -253,28 +253,31 @@ impl<'module> TreePrinter<'module> {
                     }
                 }
             }
-            Value::Branch(n, value) => match format.map(|f| self.unwrap_itemvars(f)) {
+            Value::Branch(n, inner_value) => match format.map(|f| self.unwrap_itemvars(f)) {
                 Some(Format::Union(branches)) | Some(Format::UnionNondet(branches)) => {
                     let format = &branches[*n];
-                    self.is_atomic_value(value.as_ref(), Some(format))
+                    self.is_atomic_value(inner_value.as_ref(), Some(format))
                 }
                 Some(Format::Match(_head, branches)) => {
                     let (_pattern, format) = &branches[*n];
-                    self.is_atomic_value(value.as_ref(), Some(format))
+                    self.is_atomic_value(inner_value.as_ref(), Some(format))
                 }
-                // expose wrapped format contents
+                // expose wrapped format contents (the branch belongs to a format further in)
                 // REVIEW[epic=correctness] - have we covered all appropriate cases?
                 Some(Format::Let(.., inner))
+                | Some(Format::LetView(.., inner))
+                | Some(Format::Dynamic(.., inner))
                 | Some(Format::Hint(.., inner))
+                | Some(Format::Where(inner, ..))
+                | Some(Format::Peek(inner))
+                | Some(Format::Slice(.., inner))
+                | Some(Format::Bits(inner))
                 | Some(Format::WithRelativeOffset(.., inner))
                 | Some(Format::ParseFromView(.., inner))
                 | Some(Format::DecodeBytes(.., inner))
                 | Some(Format::MonadSeq(.., inner))
-                | Some(Format::LetFormat(.., inner)) => {
-                    self.is_atomic_value(value.as_ref(), Some(inner))
-                }
-                None => self.is_atomic_value(value.as_ref(), None),
-                f => panic!("expected format suitable for branch: {f:?}"),
+                | Some(Format::LetFormat(.., inner)) => self.is_atomic_value(value, Some(inner)),
+                _ => self.is_atomic_value(inner_value.as_ref(), None),
             },
             Value::Option(None) => true,
             // FIXME[epic=workaround-hack] - we cannot easily reconstruct the format corresponding to the inner value, so we discard the format-hint
-- 
2.43.0


From 2cd516cc2a7888c1608f54fa183efe11ef08b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 55/66] fix: tree output shows phantom parses instead of
 aborting

---
 src/output/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index f8a8e0b..af05317 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -412,7 +412,7 @@ impl<'module> TreePrinter<'module> {
     pub fn compile_parsed_decoded_value(&mut self, value: &ParsedValue, fmt: &Format) -> Fragment {
         let mut frag = Fragment::Empty;
         match fmt {
-            Format::Phantom(_) => unreachable!("phantom parses should not appear"),
+            Format::Phantom(_) => self.compile_parsed_value(value),
             Format::ItemVar(level, _args, _views) => {
                 let fmt_name = self.module.get_name(*level);
 
@@ -605,7 +605,7 @@ impl<'module> TreePrinter<'module> {
     pub fn compile_decoded_value(&mut self, value: &Value, fmt: &Format) -> Fragment {
         let mut frag = Fragment::Empty;
         match fmt {
-            Format::Phantom(_) => panic!("phantom parses should not appear"),
+            Format::Phantom(_) => self.compile_value(value),
             Format::ItemVar(level, _args, _views) => {
                 let fmt_name = self.module.get_name(*level);
 
-- 
2.43.0


From 7913f25458bba56ec9a89728708ac9f46c8a8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 56/66] fix: each row of a located table shows its own location

---
 src/output/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index af05317..8cb0aaa 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -1249,8 +1249,8 @@ impl<'module> TreePrinter<'module> {
                     let cell = atomic_value_to_string(&v.clone_into_value());
                     cols[i] = std::cmp::max(cols[i], cell.len());
                     row.push(cell);
-                    locs.push(*loc);
                 }
+                locs.push(*loc);
             } else {
                 panic!("expected record value: {v:?}");
             }
-- 
2.43.0


From cff1b909d6c73df0bc769b533ab3b90d5f2ca655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:18 +0000
Subject: [PATCH 57/66] fix: tables of records leave hidden fields out of the
 rows as well

---
 src/output/tree.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index 8cb0aaa..32bd34d 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -213,6 +213,14 @@ impl<'module> TreePrinter<'module> {
         }
     }
 
+    /// The fields of a record value that are not hidden from the output.
+    fn visible_fields<'a, T>(&self, fields: &'a [Field<T>]) -> impl Iterator<Item = &'a Field<T>> {
+        let hide = self.flags.hide_double_underscore_fields;
+        fields
+            .iter()
+            .filter(move |(label, _)| !(hide && label.starts_with("__")))
+    }
+
     /// Returns `true` for values that are 'atomic', i.e. cannot be subdivided into sub-values.
     ///
     /// Non-trivial tuples, records, sequences, and ranges, as well as any shallow embedding thereof,
@@ -1245,7 +1253,7 @@ impl<'module> TreePrinter<'module> {
         for v in vals.inner.iter() {
             let mut row = Vec::new();
             if let ParsedValue::Record(Parsed { loc, inner: fields }) = v {
-                for (i, (_l, v)) in fields.iter().enumerate() {
+                for (i, (_l, v)) in self.visible_fields(fields).enumerate() {
                     let cell = atomic_value_to_string(&v.clone_into_value());
                     cols[i] = std::cmp::max(cols[i], cell.len());
                     row.push(cell);
@@ -1275,7 +1283,7 @@ impl<'module> TreePrinter<'module> {
         for v in vals {
             let mut row = Vec::new();
             if let Value::Record(fields) = v {
-                for (i, (_l, v)) in fields.iter().enumerate() {
+                for (i, (_l, v)) in self.visible_fields(fields).enumerate() {
                     let cell = atomic_value_to_string(v);
                     cols[i] = std::cmp::max(cols[i], cell.len());
                     row.push(cell);
-- 
2.43.0


From fedaf63e493146f8ae97be6c524ba6fac4ea5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:42 +0000
Subject: [PATCH 58/66] fix: printers accept records that keep none of their
 fields

---
 src/output/flat.rs | 1 +
 src/output/tree.rs | 1 +
 src/record_fmt.rs  | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/output/flat.rs b/src/output/flat.rs
index 2936882..1b3aa36 100644
--- a/src/output/flat.rs
+++ b/src/output/flat.rs
@@ -371,6 +371,7 @@ impl<'module, W: io::Write> Context<'module, W> {
                 }
                 Ok(())
             }
+            Value::Tuple(elts) if elts.is_empty() => Ok(()),
             _ => panic!("expected record, found {value:?}"),
         }
     }
diff --git a/src/output/tree.rs b/src/output/tree.rs
index 32bd34d..7aae070 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -690,6 +690,7 @@ impl<'module> TreePrinter<'module> {
                     let record_format = fmt.to_record_format();
                     self.compile_record(value_fields, Some(&record_format))
                 }
+                Value::Tuple(elts) if elts.is_empty() => self.compile_value(value),
                 _ => panic!("expected record, found {value}"),
             },
             Format::Hint(StyleHint::AsciiStr, str_format) => {
diff --git a/src/record_fmt.rs b/src/record_fmt.rs
index 8a6f7db..95d3013 100644
--- a/src/record_fmt.rs
+++ b/src/record_fmt.rs
@@ -196,6 +196,8 @@ impl<'a> RecordBuilder<'a> {
                     assert!(self.res.replace(res).is_none());
                     Ok(None)
                 }
+                // a record that keeps none of its fields is chained down to a unit value
+                Expr::Tuple(elts) if elts.is_empty() => Ok(None),
                 other => Err(anyhow!("expected Record, found {other:?}")),
             },
             other => Err(anyhow!("unexpected non-Record-shape format: {other:?}")),
@@ -213,7 +215,7 @@ impl<'a> RecordBuilder<'a> {
     pub fn finish(self) -> RecordFormat<'a> {
         let mut flat = Vec::with_capacity(self.labels.len());
         let mut kept = std::collections::BTreeMap::new();
-        for (lab, r_expr) in self.res.unwrap() {
+        for (lab, r_expr) in self.res.into_iter().flatten() {
             match r_expr {
                 Expr::Var(var) => kept.insert(var, lab),
                 other => {
-- 
2.43.0


From efab13f2a416f48ee24ee5ca6532198367062153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:42 +0000
Subject: [PATCH 59/66] fix: tree output shows the fallback value of a failed
 permit

---
 src/output/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index 7aae070..23c0a86 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -112,7 +112,8 @@ impl<'module> TreePrinter<'module> {
             Format::Tuple(fields) => fields.iter().all(|f| self.is_implied_value_format(f)),
             #[cfg(feature = "format_enforce")]
             Format::Enforce(f) => self.is_implied_value_format(f),
-            Format::Permit(f, _e) => self.is_implied_value_format(f),
+            // NOTE - the fallback value may be shown in place of what the format implies
+            Format::Permit(..) => false,
             Format::Hint(StyleHint::Common(_), inner) => self.is_implied_value_format(inner),
             Format::Hint(StyleHint::AsciiChar, inner) => self.is_implied_value_format(inner),
             Format::Hint(StyleHint::AsciiStr, inner) => self.is_implied_value_format(inner),
-- 
2.43.0


From 5d25d29b31665ebbde5959d51d5e7f5b978425a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:42 +0000
Subject: [PATCH 60/66] fix: flat output looks through permitted parses and
 negative lookahead

---
 src/output/flat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/output/flat.rs b/src/output/flat.rs
index 1b3aa36..a6e8c88 100644
--- a/src/output/flat.rs
+++ b/src/output/flat.rs
@@ -324,7 +324,7 @@ impl<'module, W: io::Write> Context<'module, W> {
             Format::DecodeBytes(_bytes, format) => self.write_flat(value, format),
             Format::ParseFromView(_view, format) => self.write_flat(value, format),
             Format::Peek(format) => self.write_flat(value, format),
-            Format::PeekNot(format) => self.write_flat(value, format),
+            Format::PeekNot(_format) => Ok(()),
             Format::Slice(_, format) => self.write_flat(value, format),
             Format::Bits(format) => self.write_flat(value, format),
             Format::WithRelativeOffset(_addr, _offs, format) => self.write_flat(value, format),
@@ -348,7 +348,11 @@ impl<'module, W: io::Write> Context<'module, W> {
             Format::Hint(StyleHint::Record { .. }, record_format) => {
                 self.write_record(value, record_format)
             }
-            Format::Permit(format, _) => self.write_flat(value, format),
+            Format::Permit(format, _) => match value {
+                Value::Permit(Ok(value)) => self.write_flat(value, format),
+                Value::Permit(Err(_)) => Ok(()),
+                _ => panic!("expected permit, found {value:?}"),
+            },
             #[cfg(feature = "format_enforce")]
             Format::Enforce(format) => self.write_flat(value, format),
             Format::Hint(StyleHint::AsciiStr, str_format) => self.write_flat(value, str_format),
-- 
2.43.0


From 5c2dacf321c795ca945b73b26e77e14f4f670fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 61/66] fix: a table of records without visible fields is
 printed row by row

---
 src/output/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index 23c0a86..7b80b40 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -208,7 +208,7 @@ impl<'module> TreePrinter<'module> {
                         _ => continue,
                     }
                 }
-                Some(fields)
+                (!fields.is_empty()).then_some(fields)
             }
             _ => None,
         }
-- 
2.43.0


From 7c537f3b35e42ac3f008156cad592e56a66290c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:51 +0000
Subject: [PATCH 62/66] fix: backslashes in printed ASCII strings are escaped

---
 src/output/tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index 7b80b40..e99d3fc 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -1030,6 +1030,7 @@ impl<'module> TreePrinter<'module> {
             0x09 => Fragment::String("\\t".into()),
             0x0A => Fragment::String("\\n".into()),
             0x0D => Fragment::String("\\r".into()),
+            b'\\' => Fragment::String("\\\\".into()),
             32..=127 => Fragment::Char(b as char),
             _ => Fragment::String(format!("\\x{b:02X}").into()),
         }
@@ -1045,6 +1046,7 @@ impl<'module> TreePrinter<'module> {
             0x09 => Fragment::String("\\t".into()),
             0x0A => Fragment::String("\\n".into()),
             0x0D => Fragment::String("\\r".into()),
+            b'\\' => Fragment::String("\\\\".into()),
             32..=127 => Fragment::Char(b as char),
             _ => Fragment::String(format!("\\x{b:02X}").into()),
         }
-- 
2.43.0


From 07cb264655c9cab84f90f9a097312a6fbec11524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:51 +0000
Subject: [PATCH 63/66] fix: tree output shows values mapped from constant
 parts

---
 src/output/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index e99d3fc..e8122a4 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -146,7 +146,8 @@ impl<'module> TreePrinter<'module> {
             Format::PeekNot(_) => true,
             Format::Bits(format) => self.is_implied_value_format(format),
             Format::WithRelativeOffset(.., format) => self.is_implied_value_format(format),
-            Format::Map(format, ..) => self.is_implied_value_format(format),
+            // NOTE - as for Compute below, the mapped value may depend on more than the raw value
+            Format::Map(..) => false,
             Format::Where(format, ..) => self.is_implied_value_format(format),
             // NOTE - without knowing whether _expr is a const-expr, we can't know whether the value is implied by the format
             Format::Compute(_expr) => false,
-- 
2.43.0


From ba48eac05e79bee5ed26d78e3e67100ee1248301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:19 +0000
Subject: [PATCH 64/66] fix: a TIFF header whose magic number is not 42 is
 refused

---
 doodle-formats/src/format/tiff.rs |   10 +-
 generated/gencode.rs              | 1402 +++++++++++++++--------------
 2 files changed, 720 insertions(+), 692 deletions(-)

diff --git a/doodle-formats/src/format/tiff.rs b/doodle-formats/src/format/tiff.rs
index 2f68e9a..13d8ae7 100644
--- a/doodle-formats/src/format/tiff.rs
+++ b/doodle-formats/src/format/tiff.rs
@@ -38,8 +38,14 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
                 Format::Match(
                     Box::new(var("byte-order")),
                     vec![
-                        (Pattern::variant("le", Pattern::Wildcard), u16le()), // 42
-                        (Pattern::variant("be", Pattern::Wildcard), u16be()), // 42
+                        (
+                            Pattern::variant("le", Pattern::Wildcard),
+                            where_between_u16(u16le(), 42, 42),
+                        ),
+                        (
+                            Pattern::variant("be", Pattern::Wildcard),
+                            where_between_u16(u16be(), 42, 42),
+                        ),
                     ],
                 ),
             ),
diff --git a/generated/gencode.rs b/generated/gencode.rs
index 75bfbb2..b7333d1 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -9466,13 +9466,35 @@ let start_of_header = (_input.get_offset_u64()) as u32;
 let byte_order = (Decoder_tiff_byte_order(_input))?;
 let magic = match byte_order {
 tiff_byte_order::le(..) => {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16le(x)
+};
+let is_valid = {
+let x = inner;
+matches!(x, 42)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(17406968167054271466u64));
+}
 },
 
 tiff_byte_order::be(..) => {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
+};
+let is_valid = {
+let x = inner;
+matches!(x, 42)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(11100042044514704042u64));
+}
 }
 };
 let offset = match byte_order {
@@ -9519,7 +9541,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17406968167054271466u64));
+return Err(ParseError::ExcludedBranch(5409189036752851054u64));
 }
 };
 _input.close_peek_context()?;
@@ -9540,7 +9562,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11100042044514704042u64));
+return Err(ParseError::ExcludedBranch(4726315105662630465u64));
 }
 };
 accum.push(next_elem)
@@ -9569,7 +9591,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5409189036752851054u64));
+return Err(ParseError::ExcludedBranch(10036638040555853769u64));
 }
 };
 accum.push(next_elem)
@@ -9696,7 +9718,7 @@ opentype_main_directory::TableDirectory(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4726315105662630465u64));
+return Err(ParseError::FailToken(13230337088401352826u64));
 }
 };
 PResult::Ok(opentype_main { magic, directory })
@@ -9710,7 +9732,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10036638040555853769u64));
+return Err(ParseError::ExcludedBranch(11460567998186064482u64));
 }
 };
 let arg1 = {
@@ -9718,7 +9740,7 @@ let b = _input.read_byte()?;
 if b == 85 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13230337088401352826u64));
+return Err(ParseError::ExcludedBranch(6223008304848233301u64));
 }
 };
 let arg2 = {
@@ -9726,7 +9748,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11460567998186064482u64));
+return Err(ParseError::ExcludedBranch(14550754927305275517u64));
 }
 };
 let arg3 = {
@@ -9734,7 +9756,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6223008304848233301u64));
+return Err(ParseError::ExcludedBranch(10197098993763395417u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9813,7 +9835,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2391834656526534993u64));
+return Err(ParseError::ExcludedBranch(10940017698627680568u64));
 }
 };
 _input.close_peek_context()?;
@@ -9827,7 +9849,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10197098993763395417u64));
+return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 };
 let inner = (Decoder_rle_old_style(_input))?;
@@ -9840,7 +9862,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15631554783732883240u64));
+return Err(ParseError::ExcludedBranch(9422510723961972169u64));
 }
 };
 let inner = (Decoder_rle_new_style(_input))?;
@@ -9848,7 +9870,7 @@ rle_main::new_style(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422510723961972169u64));
+return Err(ParseError::ExcludedBranch(179268011689651936u64));
 }
 })
 }
@@ -9971,7 +9993,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665974566873665536u64));
+return Err(ParseError::ExcludedBranch(658824046370133753u64));
 }
 };
 _input.close_peek_context()?;
@@ -9985,7 +10007,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(179268011689651936u64));
+return Err(ParseError::ExcludedBranch(374064178837027275u64));
 }
 };
 (char::from_u32(0u32)).unwrap_or(char::REPLACEMENT_CHARACTER)
@@ -9996,7 +10018,7 @@ return Err(ParseError::ExcludedBranch(179268011689651936u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(374064178837027275u64));
+return Err(ParseError::ExcludedBranch(3725673472712527969u64));
 }
 })
 }
@@ -10045,7 +10067,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18164850183020044607u64));
+return Err(ParseError::ExcludedBranch(10416240583538343445u64));
 }
 };
 _input.close_peek_context()?;
@@ -10059,7 +10081,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(658824046370133753u64));
+return Err(ParseError::ExcludedBranch(12728843535195535635u64));
 }
 };
 byte as u32
@@ -10073,7 +10095,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 4294967292u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3725673472712527969u64));
+return Err(ParseError::ExcludedBranch(15741082764016749161u64));
 }
 };
 raw & 31u8
@@ -10110,7 +10132,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15080388466336998873u64));
+return Err(ParseError::ExcludedBranch(8986322043713516692u64));
 }
 };
 _input.close_peek_context()?;
@@ -10125,7 +10147,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12728843535195535635u64));
+return Err(ParseError::ExcludedBranch(9967703502401950260u64));
 }
 };
 raw & 15u8
@@ -10136,7 +10158,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744069414584320u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15741082764016749161u64));
+return Err(ParseError::ExcludedBranch(8376883036401934317u64));
 }
 };
 raw & 63u8
@@ -10152,7 +10174,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 35175782154240u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9967703502401950260u64));
+return Err(ParseError::ExcludedBranch(9069368457806005425u64));
 }
 };
 raw & 15u8
@@ -10169,7 +10191,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8376883036401934317u64));
+return Err(ParseError::ExcludedBranch(3179861450314844647u64));
 }
 };
 raw & 15u8
@@ -10180,7 +10202,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 4294967295u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9069368457806005425u64));
+return Err(ParseError::ExcludedBranch(15080388466336998873u64));
 }
 };
 raw & 63u8
@@ -10196,7 +10218,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3179861450314844647u64));
+return Err(ParseError::ExcludedBranch(6070260202873699214u64));
 }
 };
 raw & 15u8
@@ -10207,7 +10229,7 @@ let arg2 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6070260202873699214u64));
+return Err(ParseError::ExcludedBranch(11786939113783016634u64));
 }
 }
 };
@@ -10236,7 +10258,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8772793160380380086u64));
+return Err(ParseError::ExcludedBranch(18164850183020044607u64));
 }
 };
 _input.close_peek_context()?;
@@ -10251,7 +10273,7 @@ let b = _input.read_byte()?;
 if b == 240 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8986322043713516692u64));
+return Err(ParseError::ExcludedBranch(3852079030227774582u64));
 }
 };
 raw & 7u8
@@ -10262,7 +10284,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709486080u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11786939113783016634u64));
+return Err(ParseError::ExcludedBranch(5176232487486782188u64));
 }
 };
 raw & 63u8
@@ -10279,7 +10301,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3852079030227774582u64));
+return Err(ParseError::ExcludedBranch(9220862562374507822u64));
 }
 };
 raw & 7u8
@@ -10297,7 +10319,7 @@ let b = _input.read_byte()?;
 if b == 244 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5176232487486782188u64));
+return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 };
 raw & 7u8
@@ -10308,7 +10330,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 65535u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9220862562374507822u64));
+return Err(ParseError::ExcludedBranch(2605623462625042002u64));
 }
 };
 raw & 63u8
@@ -10319,7 +10341,7 @@ let arg3 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2605623462625042002u64));
+return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
 }
 };
@@ -10330,7 +10352,7 @@ let (x3, x2, x1, x0) = tuple_var;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10688770705819276010u64));
+return Err(ParseError::ExcludedBranch(1457499133218925748u64));
 }
 }
 };
@@ -10344,7 +10366,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10416240583538343445u64));
+return Err(ParseError::ExcludedBranch(14215639860155940137u64));
 }
 };
 PResult::Ok(raw & 63u8)
@@ -10473,7 +10495,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11936787736236307191u64));
+return Err(ParseError::ExcludedBranch(3167775832820164678u64));
 }
 };
 _input.close_peek_context()?;
@@ -10488,7 +10510,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1457499133218925748u64));
+return Err(ParseError::ExcludedBranch(5584166819955891466u64));
 }
 };
 _input.read_byte()?
@@ -10503,7 +10525,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14215639860155940137u64));
+return Err(ParseError::ExcludedBranch(11133239979815295357u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -10519,7 +10541,7 @@ let b = _input.read_byte()?;
 if b == 2 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5584166819955891466u64));
+return Err(ParseError::ExcludedBranch(1275286460638129217u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10535,7 +10557,7 @@ let b = _input.read_byte()?;
 if b == 3 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11133239979815295357u64));
+return Err(ParseError::ExcludedBranch(386759067598651566u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10551,7 +10573,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1275286460638129217u64));
+return Err(ParseError::ExcludedBranch(13527164188224560282u64));
 }
 };
 let raw = _input.read_byte()?;
@@ -10567,7 +10589,7 @@ let b = _input.read_byte()?;
 if b == 5 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(386759067598651566u64));
+return Err(ParseError::ExcludedBranch(240888096670347429u64));
 }
 };
 let raw = {
@@ -10586,7 +10608,7 @@ let b = _input.read_byte()?;
 if b == 6 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13527164188224560282u64));
+return Err(ParseError::ExcludedBranch(11936787736236307191u64));
 }
 };
 let raw = {
@@ -10605,7 +10627,7 @@ let b = _input.read_byte()?;
 if b == 7 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(240888096670347429u64));
+return Err(ParseError::ExcludedBranch(5215619712890029856u64));
 }
 };
 let raw = {
@@ -10618,7 +10640,7 @@ numbers_num_value::I64BEValue(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5215619712890029856u64));
+return Err(ParseError::ExcludedBranch(7215050775822222282u64));
 }
 })
 }
@@ -10637,7 +10659,7 @@ matches!(version, 65536u32 | 1330926671u32 | 1953658213u32)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3167775832820164678u64));
+return Err(ParseError::FalsifiedWhere(3743786174148899814u64));
 }
 };
 let num_tables = {
@@ -10682,7 +10704,7 @@ tag == 1953784678u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7215050775822222282u64));
+return Err(ParseError::FalsifiedWhere(12652804269632162478u64));
 }
 };
 let major_version = {
@@ -10811,7 +10833,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10826,7 +10848,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12652804269632162478u64));
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10841,7 +10863,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18134882366868794706u64));
+return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10856,7 +10878,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(5673845796627816005u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10871,7 +10893,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(14591018267292443527u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10886,7 +10908,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(4762692522317026931u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10902,7 +10924,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(9630069758457681762u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10917,7 +10939,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4762692522317026931u64));
+return Err(ParseError::ExcludedBranch(908377722732597655u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -11291,7 +11313,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9630069758457681762u64));
+return Err(ParseError::ExcludedBranch(3203034260088513018u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11403,7 +11425,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
 inner
 }
 };
@@ -11419,7 +11441,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
 inner
 }
 };
@@ -11440,7 +11462,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14677505873656710393u64));
+return Err(ParseError::ExcludedBranch(4386762582485017400u64));
 }
 };
 let arg1 = {
@@ -11448,7 +11470,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10102114574336663273u64));
+return Err(ParseError::ExcludedBranch(8893850231119365992u64));
 }
 };
 let arg2 = {
@@ -11456,7 +11478,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4386762582485017400u64));
+return Err(ParseError::ExcludedBranch(7659860344311718435u64));
 }
 };
 let arg3 = {
@@ -11464,7 +11486,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8893850231119365992u64));
+return Err(ParseError::ExcludedBranch(11052099086134529863u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11485,7 +11507,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
+return Err(ParseError::FalsifiedWhere(1079884235207081886u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11600,7 +11622,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11052099086134529863u64));
+return Err(ParseError::FalsifiedWhere(980800817911480223u64));
 }
 };
 let glyph_data_format = {
@@ -11615,7 +11637,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -11636,7 +11658,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -11652,7 +11674,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -11739,7 +11761,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
 inner
 }
 };
@@ -11755,7 +11777,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -11771,7 +11793,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
 inner
 }
 };
@@ -11787,7 +11809,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
 inner
 }
 };
@@ -11805,7 +11827,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
 inner
 }
 };
@@ -12284,7 +12306,7 @@ opentype_loca_table_offsets::Offsets32(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8987822076696059625u64));
+return Err(ParseError::ExcludedBranch(1977899765720151190u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12387,7 +12409,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12403,7 +12425,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1977899765720151190u64));
+return Err(ParseError::FalsifiedWhere(12890902517277365935u64));
 }
 };
 let horiz_axis_offset = {
@@ -12451,7 +12473,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12497,7 +12519,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(12890902517277365935u64));
+return Err(ParseError::FailToken(9011855507994367971u64));
 },
 
 2u16 => {
@@ -12580,7 +12602,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -12641,7 +12663,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -12700,7 +12722,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
 inner
 }
 };
@@ -12716,7 +12738,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -12732,7 +12754,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -12767,7 +12789,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
 inner
 }
 };
@@ -12783,7 +12805,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -12799,7 +12821,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
+return Err(ParseError::FalsifiedWhere(16128388243093908143u64));
 }
 };
 {
@@ -12814,7 +12836,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -12834,7 +12856,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -12869,7 +12891,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -12885,7 +12907,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -12972,7 +12994,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -12988,7 +13010,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13043,7 +13065,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
 inner
 }
 };
@@ -13059,7 +13081,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13075,7 +13097,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13091,7 +13113,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
 inner
 }
 };
@@ -13134,7 +13156,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
 inner
 }
 };
@@ -13158,7 +13180,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2154669163482751322u64));
+return Err(ParseError::FalsifiedWhere(5482396765248532989u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13178,7 +13200,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
 inner
 }
 };
@@ -13213,7 +13235,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13229,7 +13251,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13282,7 +13304,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
 inner
 }
 };
@@ -13298,7 +13320,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -13385,7 +13407,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
 inner
 }
 };
@@ -13401,7 +13423,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -13417,7 +13439,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -13433,7 +13455,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
 inner
 }
 };
@@ -13451,7 +13473,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
 inner
 }
 };
@@ -13518,7 +13540,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
 inner
 }
 };
@@ -13539,7 +13561,7 @@ packed & 254u16 == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13571,7 +13593,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13516986665125759073u64));
 inner
 }
 };
@@ -13591,7 +13613,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3433937857563719729u64));
+return Err(ParseError::FalsifiedWhere(14751251992141172493u64));
 }
 };
 let records = {
@@ -13627,7 +13649,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13516986665125759073u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
 inner
 }
 };
@@ -13647,7 +13669,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14751251992141172493u64));
+return Err(ParseError::FalsifiedWhere(8997881400116719018u64));
 }
 };
 let ratio_range = {
@@ -13771,7 +13793,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13614619987783239962u64));
 inner
 }
 };
@@ -13787,7 +13809,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8997881400116719018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -13862,7 +13884,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13614619987783239962u64));
+return Err(ParseError::FalsifiedWhere(6949960292533894002u64));
 }
 };
 let data = match format {
@@ -14026,7 +14048,7 @@ opentype_stat_axis_value_table_data::Format4(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6915530142412472120u64));
+return Err(ParseError::ExcludedBranch(1347174710810305478u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14052,7 +14074,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6949960292533894002u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
 inner
 }
 };
@@ -14084,7 +14106,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1347174710810305478u64));
+return Err(ParseError::FailToken(15803403730818557393u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14238,7 +14260,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8390724546948265409u64));
 inner
 }
 };
@@ -14275,7 +14297,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15803403730818557393u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
 inner
 }
 };
@@ -14475,7 +14497,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6347242493551283856u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 let ix1 = {
@@ -14483,7 +14505,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4251627061094365437u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 vec![ix0, ix1]
@@ -14553,7 +14575,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11915580511665106140u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 _input.close_peek_context()?;
@@ -14566,7 +14588,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17324980155911269375u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 };
 accum.push(next_elem)
@@ -14581,7 +14603,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(1278184758971178969u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14606,7 +14628,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 };
 _input.close_peek_context()?;
@@ -14619,7 +14641,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(12879845237981630531u64));
 }
 };
 accum.push(next_elem)
@@ -14634,7 +14656,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(3426398976290336157u64));
 }
 };
 chars.clone()
@@ -14741,7 +14763,7 @@ deflate_block_data::dynamic_huffman(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(11250208753083412758u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -15877,7 +15899,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11250208753083412758u64));
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 }))
 },
@@ -16029,11 +16051,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(17349123374714965876u64));
+return Err(ParseError::FailToken(1588651938759015246u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2153064741293804702u64));
+return Err(ParseError::ExcludedBranch(3249387167439447765u64));
 }
 })
 }
@@ -16111,7 +16133,7 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1588651938759015246u64));
+return Err(ParseError::ExcludedBranch(7744051144774795087u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16148,7 +16170,7 @@ packed & 224u8 == 0u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
 inner
 }
 };
@@ -16176,7 +16198,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16771529512960957239u64));
 inner
 }
 };
@@ -16242,7 +16264,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8700288293163706751u64));
+return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
 }
 };
 let variation_regions = {
@@ -16415,7 +16437,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16771529512960957239u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9798710097031164942u64));
 inner
 }
 };
@@ -16437,7 +16459,7 @@ u32be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13846498452079501214u64));
+return Err(ParseError::ExcludedBranch(9819345728844658158u64));
 }
 };
 let map_data = {
@@ -16458,7 +16480,7 @@ packed & 192u8 == 0u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9798710097031164942u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18279137173405083757u64));
 inner
 }
 };
@@ -16511,7 +16533,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
+return Err(ParseError::FalsifiedWhere(14954891776835932150u64));
 }
 };
 let tuple_variation_headers = {
@@ -16704,7 +16726,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14984809111992638634u64));
+return Err(ParseError::ExcludedBranch(13404710972790825894u64));
 }
 };
 _input.close_peek_context()?;
@@ -16718,7 +16740,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18279137173405083757u64));
+return Err(ParseError::ExcludedBranch(11046436797737227751u64));
 }
 };
 (0u16, [].to_vec())
@@ -16730,7 +16752,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14954891776835932150u64));
+return Err(ParseError::ExcludedBranch(14984809111992638634u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16742,7 +16764,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11046436797737227751u64));
+return Err(ParseError::ExcludedBranch(9342187932533045817u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16750,7 +16772,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9342187932533045817u64));
+return Err(ParseError::ExcludedBranch(2688427941405105545u64));
 }
 })
 }
@@ -16880,7 +16902,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
 inner
 }
 };
@@ -17029,7 +17051,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10875553067752207222u64));
 inner
 }
 };
@@ -17045,7 +17067,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11323981950571132721u64));
 inner
 }
 };
@@ -17101,7 +17123,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10875553067752207222u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1179945139148562335u64));
 inner
 }
 };
@@ -17117,7 +17139,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11323981950571132721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3270685119814653163u64));
 inner
 }
 };
@@ -17259,7 +17281,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
+return Err(ParseError::FalsifiedWhere(6821845925776570829u64));
 }
 };
 let table_scope = table_view;
@@ -17275,7 +17297,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let extension_offset = {
@@ -17328,11 +17350,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(15898809900392744567u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 })
 }
@@ -17356,7 +17378,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5653230390980289841u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17403,7 +17425,7 @@ opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9179996462972575343u64));
+return Err(ParseError::ExcludedBranch(6495907546257147840u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17425,7 +17447,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let coverage = {
@@ -17474,7 +17496,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
+return Err(ParseError::FalsifiedWhere(10310785543736156275u64));
 }
 };
 let coverage = {
@@ -17532,7 +17554,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8327471529801851430u64));
+return Err(ParseError::FailToken(16594239496794104967u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17563,7 +17585,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10310785543736156275u64));
+return Err(ParseError::FailToken(16529910322175208638u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17584,7 +17606,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
+return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
 }
 };
 let table_scope = table_view;
@@ -17715,7 +17737,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(8766708729375264031u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17963,7 +17985,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12187643960709778443u64));
+return Err(ParseError::FailToken(1369437808023015077u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18024,7 +18046,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
+return Err(ParseError::FalsifiedWhere(163858356033350300u64));
 }
 };
 let input_sequence = {
@@ -18216,7 +18238,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(888161872995526095u64));
 }
 };
 let seq_lookup_count = {
@@ -18289,7 +18311,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
 }
 };
 let component_glyph_ids = {
@@ -18465,7 +18487,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
 inner
 }
 };
@@ -18614,7 +18636,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
+return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
 }
 };
 let table_scope = table_view;
@@ -18630,7 +18652,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
+return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
 }
 };
 let extension_offset = {
@@ -18688,11 +18710,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(3595277668730903043u64));
+return Err(ParseError::FailToken(12530712830475607577u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(5446531490235636452u64));
+return Err(ParseError::FailToken(1386817607731947864u64));
 }
 })
 }
@@ -18716,7 +18738,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12530712830475607577u64));
+return Err(ParseError::FailToken(4795509455376621436u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18741,7 +18763,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1386817607731947864u64));
+return Err(ParseError::FailToken(3923207427992258326u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18762,7 +18784,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
+return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
 }
 };
 let table_scope = table_view;
@@ -18804,7 +18826,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3923207427992258326u64));
+return Err(ParseError::FalsifiedWhere(15995337135637623051u64));
 }
 };
 let table_scope = table_view;
@@ -18863,7 +18885,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
+return Err(ParseError::FalsifiedWhere(4063460887563813446u64));
 }
 };
 let mark_coverage = {
@@ -18920,7 +18942,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15995337135637623051u64));
+return Err(ParseError::FalsifiedWhere(10243418979491025991u64));
 }
 };
 let table_scope = table_view;
@@ -19078,7 +19100,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4063460887563813446u64));
+return Err(ParseError::FailToken(6726475111737435495u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19226,7 +19248,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10243418979491025991u64));
+return Err(ParseError::ExcludedBranch(3702191162545267776u64));
 }
 };
 let arg1 = {
@@ -19234,7 +19256,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6726475111737435495u64));
+return Err(ParseError::ExcludedBranch(14926982082392674388u64));
 }
 };
 (arg0, arg1)
@@ -19503,7 +19525,7 @@ packed & 65280u16 == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -20184,7 +20206,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -20275,7 +20297,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13281230340934385869u64));
+return Err(ParseError::FailToken(8862619478422395719u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20524,7 +20546,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(2229770659268432585u64));
+return Err(ParseError::FailToken(7200474585457206375u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20588,7 +20610,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8862619478422395719u64));
+return Err(ParseError::FailToken(13266006752343456203u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21237,7 +21259,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
+return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
 }
 };
 let max_twilight_points = {
@@ -21280,7 +21302,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13266006752343456203u64));
+return Err(ParseError::FalsifiedWhere(16152968816646114000u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21376,7 +21398,7 @@ opentype_cmap_subtable_data::Format14(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13264741506377240721u64));
+return Err(ParseError::ExcludedBranch(12815986247090051214u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21399,7 +21421,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21424,7 +21446,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21467,7 +21489,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21482,7 +21504,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10057441536650509049u64));
+return Err(ParseError::FalsifiedWhere(829032137919921844u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21503,7 +21525,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21519,7 +21541,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(829032137919921844u64));
+return Err(ParseError::FalsifiedWhere(18440348483137307888u64));
 }
 };
 let language = {
@@ -21640,7 +21662,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21665,7 +21687,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -21719,7 +21741,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -21800,7 +21822,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -21851,7 +21873,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -21867,7 +21889,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -21892,7 +21914,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -21908,7 +21930,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -21963,7 +21985,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -21979,7 +22001,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22004,7 +22026,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22020,7 +22042,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22074,7 +22096,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22090,7 +22112,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22115,7 +22137,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
 inner
 }
 };
@@ -22131,7 +22153,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
 inner
 }
 };
@@ -22178,7 +22200,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14339975513692068616u64));
 inner
 }
 };
@@ -22194,7 +22216,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16299205781335471965u64));
 inner
 }
 };
@@ -22219,7 +22241,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14339975513692068616u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1479153625485860551u64));
 inner
 }
 };
@@ -22235,7 +22257,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16299205781335471965u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12668500753644823654u64));
 inner
 }
 };
@@ -22282,7 +22304,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1479153625485860551u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8094248233631264621u64));
 inner
 }
 };
@@ -22307,7 +22329,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12668500753644823654u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1844274570107701975u64));
 inner
 }
 };
@@ -22474,7 +22496,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8094248233631264621u64));
+return Err(ParseError::FalsifiedWhere(4839194687019048322u64));
 })
 }
 
@@ -22492,7 +22514,7 @@ elf_types_elf_full::Full64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 })
 }
@@ -22511,7 +22533,7 @@ elf_types_elf_addr::Addr64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 }
 })
 }
@@ -22530,7 +22552,7 @@ elf_types_elf_off::Off64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7230273548678969972u64));
+return Err(ParseError::ExcludedBranch(1969670610881234889u64));
 }
 })
 }
@@ -22660,7 +22682,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(9038350950373664822u64));
 }
 };
 let arg1 = {
@@ -22668,7 +22690,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1969670610881234889u64));
+return Err(ParseError::ExcludedBranch(7281717462557989541u64));
 }
 };
 let arg2 = {
@@ -22676,7 +22698,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9038350950373664822u64));
+return Err(ParseError::ExcludedBranch(15510952803379905659u64));
 }
 };
 let arg3 = {
@@ -22684,7 +22706,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7281717462557989541u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22716,7 +22738,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15510952803379905659u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
 accum.push(next_elem)
@@ -22739,7 +22761,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14681668243282477517u64));
+return Err(ParseError::FalsifiedWhere(16474038368490899078u64));
 })
 }
 
@@ -22758,7 +22780,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6209434968043366837u64));
+return Err(ParseError::FalsifiedWhere(12217686503432178884u64));
 })
 }
 
@@ -22788,7 +22810,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16474038368490899078u64));
+return Err(ParseError::FalsifiedWhere(8399572043096922156u64));
 })
 }
 
@@ -22802,7 +22824,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12217686503432178884u64));
+return Err(ParseError::FalsifiedWhere(7832192330748800109u64));
 })
 }
 
@@ -22816,7 +22838,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8399572043096922156u64));
+return Err(ParseError::FalsifiedWhere(9815657591077818003u64));
 })
 }
 
@@ -22877,7 +22899,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 _input.close_peek_context()?;
@@ -22890,7 +22912,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
 accum.push(next_elem)
@@ -22923,7 +22945,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
 accum.push(next_elem)
@@ -22958,7 +22980,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 }
 };
 _input.close_peek_context()?;
@@ -22971,7 +22993,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14485842416732585139u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
 accum.push(next_elem)
@@ -23004,7 +23026,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(13780055874544357936u64));
 }
 };
 accum.push(next_elem)
@@ -23039,7 +23061,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5152282179373241998u64));
+return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 }
 };
 _input.close_peek_context()?;
@@ -23052,7 +23074,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13780055874544357936u64));
+return Err(ParseError::ExcludedBranch(7933266403838225878u64));
 }
 };
 accum.push(next_elem)
@@ -23085,7 +23107,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(12100308281236296642u64));
 }
 };
 accum.push(next_elem)
@@ -23108,10 +23130,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7933266403838225878u64));
+return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9041056097467752267u64)
+try_sub!(bit as u8, 48u8, 3810055094392728880u64)
 };
 let _o9 = {
 let bit = {
@@ -23119,10 +23141,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5025197102194587315u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
-try_sub!(bit as u8, 48u8, 15252450768049745444u64)
+try_sub!(bit as u8, 48u8, 16437491640759399344u64)
 };
 let _o8 = {
 let bit = {
@@ -23130,10 +23152,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5599331855309773603u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
-try_sub!(bit as u8, 48u8, 2988545765690796708u64)
+try_sub!(bit as u8, 48u8, 17176374570344757031u64)
 };
 let _o7 = {
 let bit = {
@@ -23141,10 +23163,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3566920116549027235u64)
+try_sub!(bit as u8, 48u8, 3653195934333285574u64)
 };
 let _o6 = {
 let bit = {
@@ -23152,10 +23174,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16671136947067655757u64)
+try_sub!(bit as u8, 48u8, 8898504689444561451u64)
 };
 let _o5 = {
 let bit = {
@@ -23163,10 +23185,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
-try_sub!(bit as u8, 48u8, 441240706992005484u64)
+try_sub!(bit as u8, 48u8, 10046433636842398056u64)
 };
 let _o4 = {
 let bit = {
@@ -23174,10 +23196,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
-try_sub!(bit as u8, 48u8, 11079395374415646537u64)
+try_sub!(bit as u8, 48u8, 5986772336072340665u64)
 };
 let _o3 = {
 let bit = {
@@ -23185,10 +23207,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8812292064350598352u64)
+try_sub!(bit as u8, 48u8, 2908689796368760670u64)
 };
 let _o2 = {
 let bit = {
@@ -23196,10 +23218,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
-try_sub!(bit as u8, 48u8, 4316175446384649956u64)
+try_sub!(bit as u8, 48u8, 4598583460226006268u64)
 };
 let _o1 = {
 let bit = {
@@ -23207,10 +23229,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
-try_sub!(bit as u8, 48u8, 275550262640764009u64)
+try_sub!(bit as u8, 48u8, 15680765559661576738u64)
 };
 let _o0 = {
 let bit = {
@@ -23218,10 +23240,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
-try_sub!(bit as u8, 48u8, 1587806253186841834u64)
+try_sub!(bit as u8, 48u8, 18399269270080151498u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23249,7 +23271,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 _input.close_peek_context()?;
@@ -23262,7 +23284,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 accum.push(next_elem)
@@ -23295,7 +23317,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 accum.push(next_elem)
@@ -23330,7 +23352,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 _input.close_peek_context()?;
@@ -23343,7 +23365,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 accum.push(next_elem)
@@ -23376,7 +23398,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 accum.push(next_elem)
@@ -23405,7 +23427,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 let arg1 = {
@@ -23413,7 +23435,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 let arg2 = {
@@ -23421,7 +23443,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 let arg3 = {
@@ -23429,7 +23451,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 let arg4 = {
@@ -23437,7 +23459,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 let arg5 = {
@@ -23445,7 +23467,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23456,7 +23478,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 let arg1 = {
@@ -23464,7 +23486,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 (arg0, arg1)
@@ -23503,7 +23525,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 _input.close_peek_context()?;
@@ -23516,7 +23538,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem)
@@ -23549,7 +23571,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 accum.push(next_elem)
@@ -23584,7 +23606,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 _input.close_peek_context()?;
@@ -23597,7 +23619,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 accum.push(next_elem)
@@ -23630,7 +23652,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 accum.push(next_elem)
@@ -23660,7 +23682,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 accum.push(next_elem)
@@ -23683,7 +23705,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 accum.push(next_elem);
@@ -23738,7 +23760,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 accum.push(next_elem)
@@ -23757,7 +23779,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 })
 }
 
@@ -23792,7 +23814,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 accum.push(next_elem)
@@ -23824,7 +23846,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 accum.push(next_elem)
@@ -23855,7 +23877,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 _input.close_peek_context()?;
@@ -23868,7 +23890,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 accum.push(next_elem)
@@ -23886,7 +23908,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 accum.push(next_elem);
@@ -23930,7 +23952,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 _input.close_peek_context()?;
@@ -23944,7 +23966,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 let arg1 = {
@@ -23952,7 +23974,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23964,7 +23986,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 let arg1 = {
@@ -23972,14 +23994,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 })
 }
@@ -24188,7 +24210,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 })
 } else {
 None
@@ -24210,7 +24232,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2466404913032252300u64));
+return Err(ParseError::FalsifiedWhere(5869833854865239916u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24242,7 +24264,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4149374297771033461u64));
+return Err(ParseError::FalsifiedWhere(13372240079418200167u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24374,7 +24396,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5869833854865239916u64));
+return Err(ParseError::FalsifiedWhere(10504805981668764726u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24408,7 +24430,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13372240079418200167u64));
+return Err(ParseError::FalsifiedWhere(5250529337043320049u64));
 }
 };
 let flags = {
@@ -24451,7 +24473,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10504805981668764726u64));
+return Err(ParseError::FalsifiedWhere(4159150678276994707u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24469,7 +24491,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg1 = {
@@ -24477,7 +24499,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 let arg2 = {
@@ -24485,7 +24507,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 let arg3 = {
@@ -24493,7 +24515,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24506,7 +24528,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg1 = {
@@ -24514,7 +24536,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let arg2 = {
@@ -24522,7 +24544,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 let arg3 = {
@@ -24530,7 +24552,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24572,7 +24594,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 let arg1 = {
@@ -24580,7 +24602,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 let arg2 = {
@@ -24588,7 +24610,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 let arg3 = {
@@ -24596,7 +24618,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24620,7 +24642,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 };
 let arg1 = {
@@ -24628,7 +24650,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 let arg2 = {
@@ -24636,7 +24658,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 let arg3 = {
@@ -24644,7 +24666,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24675,7 +24697,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 accum.push(next_elem)
@@ -24775,7 +24797,7 @@ png_trns::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 })
 }
@@ -24835,7 +24857,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 };
 val.clone()
@@ -24845,7 +24867,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24904,7 +24926,7 @@ png_sbit::color_type_6(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 })
 }
@@ -24920,7 +24942,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(89425857491903975u64));
+return Err(ParseError::FalsifiedWhere(10755314521203959634u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24935,7 +24957,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 val.clone()
@@ -24945,7 +24967,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 let compression_method = {
@@ -24953,7 +24975,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 };
 let language_tag = {
@@ -24973,7 +24995,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 _input.close_peek_context()?;
@@ -24986,7 +25008,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 };
 accum.push(next_elem)
@@ -25001,7 +25023,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
 };
 chars.clone()
@@ -25013,7 +25035,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
 };
 val.clone()
@@ -25100,7 +25122,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
 }
 };
 val.clone()
@@ -25138,7 +25160,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
 }
 };
 val.clone()
@@ -25148,7 +25170,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+return Err(ParseError::ExcludedBranch(7391010474856587818u64));
 }
 };
 let compressed_text = {
@@ -25232,7 +25254,7 @@ png_bkgd::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
+return Err(ParseError::ExcludedBranch(7025852844623144626u64));
 }
 })
 }
@@ -25289,7 +25311,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
+return Err(ParseError::ExcludedBranch(13513276483415770047u64));
 }
 };
 val.clone()
@@ -25299,7 +25321,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
+return Err(ParseError::ExcludedBranch(1292030895245088137u64));
 }
 };
 let palette = match sample_depth {
@@ -25386,7 +25408,7 @@ png_splt_palette::sample_depth_u16(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13513276483415770047u64));
+return Err(ParseError::ExcludedBranch(8527564631842216417u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25890,18 +25912,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(1292030895245088137u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(8527564631842216417u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(10545338643554355463u64));
 }
@@ -26361,6 +26371,18 @@ return Err(ParseError::ExcludedBranch(4411296728399804345u64));
 _ => {
 return Err(ParseError::ExcludedBranch(13980028702310773940u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4312000683241916062u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3334424754000117797u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -26374,7 +26396,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4312000683241916062u64));
+return Err(ParseError::ExcludedBranch(527013363415661133u64));
 }
 };
 accum.push(next_elem)
@@ -26868,18 +26890,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(3334424754000117797u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(527013363415661133u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(4717292700030555590u64));
 }
@@ -27339,20 +27349,32 @@ return Err(ParseError::ExcludedBranch(2518353173875372183u64));
 _ => {
 return Err(ParseError::ExcludedBranch(1057280760989719477u64));
 }
-};
-_input.close_peek_context()?;
-ret
 }
-};
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
-break
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4360542291358407189u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11728165168471348185u64));
+}
+};
+_input.close_peek_context()?;
+ret
+}
+};
+if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+break
+} else {
+let next_elem = {
+let b = _input.read_byte()?;
+if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4360542291358407189u64));
+return Err(ParseError::ExcludedBranch(10495009576779598530u64));
 }
 };
 accum.push(next_elem)
@@ -27378,7 +27400,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11728165168471348185u64));
+return Err(ParseError::FalsifiedWhere(7128967683436470476u64));
 }
 };
 let flags = {
@@ -27891,18 +27913,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(10495009576779598530u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7128967683436470476u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(3036714361878569528u64));
 }
@@ -28362,6 +28372,18 @@ return Err(ParseError::ExcludedBranch(18441633166538026093u64));
 _ => {
 return Err(ParseError::ExcludedBranch(401788761305210720u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5252251088830583126u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5396814765406749711u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -28375,7 +28397,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5252251088830583126u64));
+return Err(ParseError::ExcludedBranch(12786091976415550822u64));
 }
 };
 accum.push(next_elem)
@@ -28869,18 +28891,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(5396814765406749711u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12786091976415550822u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(15224635086995724042u64));
 }
@@ -29340,6 +29350,18 @@ return Err(ParseError::ExcludedBranch(3999778194527899420u64));
 _ => {
 return Err(ParseError::ExcludedBranch(3933597635930613605u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1105171745447487568u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -29353,7 +29375,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+return Err(ParseError::ExcludedBranch(646997207007428137u64));
 }
 };
 accum.push(next_elem)
@@ -29412,7 +29434,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1105171745447487568u64));
+return Err(ParseError::ExcludedBranch(6351919260209655786u64));
 }
 };
 _input.close_peek_context()?;
@@ -29445,7 +29467,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(646997207007428137u64));
+return Err(ParseError::FalsifiedWhere(552953513858366451u64));
 }
 };
 let flags = {
@@ -30091,18 +30113,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(17332407069754301555u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14279133095670415871u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(7347749870002275487u64));
 }
@@ -30562,6 +30572,18 @@ return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 _ => {
 return Err(ParseError::ExcludedBranch(8076978189295213982u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11570281271401624317u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14687724984806605719u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -30575,7 +30597,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11570281271401624317u64));
+return Err(ParseError::ExcludedBranch(1378805635639824117u64));
 }
 };
 accum.push(next_elem)
@@ -30601,7 +30623,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14687724984806605719u64));
+return Err(ParseError::FalsifiedWhere(8385173961957899741u64));
 }
 };
 let flags = {
@@ -30637,7 +30659,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1378805635639824117u64));
+return Err(ParseError::ExcludedBranch(8407356061009412694u64));
 }
 };
 let arg1 = {
@@ -30645,7 +30667,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8385173961957899741u64));
+return Err(ParseError::ExcludedBranch(6881565717664829242u64));
 }
 };
 let arg2 = {
@@ -30653,7 +30675,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8407356061009412694u64));
+return Err(ParseError::ExcludedBranch(13752480002470540422u64));
 }
 };
 let arg3 = {
@@ -30661,7 +30683,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6881565717664829242u64));
+return Err(ParseError::ExcludedBranch(17107648091243309207u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30702,7 +30724,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17107648091243309207u64)
+try_sub!(x, 16u64, 14539762430836305896u64)
 },
 
 _ => {
@@ -30864,7 +30886,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14539762430836305896u64)
+try_sub!(x, 16u64, 2662265345698212949u64)
 },
 
 _ => {
@@ -30898,7 +30920,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 2662265345698212949u64)
+try_sub!(x, 16u64, 8599210436172030522u64)
 },
 
 _ => {
@@ -31047,7 +31069,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344648651879382526u64));
+return Err(ParseError::ExcludedBranch(3484767027554133518u64));
 }
 };
 let rate = {
@@ -31119,7 +31141,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 12041148194529633639u64)
 },
 
 _ => {
@@ -31233,7 +31255,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 17888323854924040413u64)
 },
 
 _ => {
@@ -31364,7 +31386,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 let reserved2 = {
@@ -31433,7 +31455,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6279087434444973374u64)
+try_sub!(x, 16u64, 15601622509425384091u64)
 },
 
 _ => {
@@ -31497,7 +31519,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15601622509425384091u64)
+try_sub!(x, 16u64, 4569970360394099475u64)
 },
 
 _ => {
@@ -31617,7 +31639,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 _input.close_peek_context()?;
@@ -31630,7 +31652,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 accum.push(next_elem)
@@ -31645,7 +31667,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 chars.clone()
@@ -31705,7 +31727,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 let language = {
@@ -31736,7 +31758,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8403192837054512577u64)
+try_sub!(x, 16u64, 3975307768385535064u64)
 },
 
 _ => {
@@ -31892,7 +31914,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3975307768385535064u64)
+try_sub!(x, 16u64, 16112061863928357291u64)
 },
 
 _ => {
@@ -31956,7 +31978,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16112061863928357291u64)
+try_sub!(x, 16u64, 1872233699568519226u64)
 },
 
 _ => {
@@ -32361,7 +32383,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 1872233699568519226u64)
+try_sub!(x, 16u64, 7432469293302627017u64)
 },
 
 _ => {
@@ -32447,7 +32469,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7432469293302627017u64)
+try_sub!(x, 16u64, 9159119361499271180u64)
 },
 
 _ => {
@@ -32691,7 +32713,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 _input.close_peek_context()?;
@@ -32704,7 +32726,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 };
 accum.push(next_elem)
@@ -32719,7 +32741,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 };
 chars.clone()
@@ -32836,7 +32858,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32921,7 +32943,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 }
 };
 let extent_count = {
@@ -32962,7 +32984,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15311158871930328757u64)
+try_sub!(x, 16u64, 3585635225240718191u64)
 },
 
 _ => {
@@ -33046,7 +33068,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3585635225240718191u64)
+try_sub!(x, 16u64, 237665900562449517u64)
 },
 
 _ => {
@@ -33148,7 +33170,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33170,7 +33192,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 let extent_length = match length_size {
@@ -33192,7 +33214,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33215,7 +33237,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9201081899504003615u64)
+try_sub!(x, 16u64, 1821331332215525359u64)
 },
 
 _ => {
@@ -33270,7 +33292,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 1821331332215525359u64)
+try_sub!(x, 16u64, 6867774794241173436u64)
 },
 
 _ => {
@@ -33325,7 +33347,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6867774794241173436u64)
+try_sub!(x, 16u64, 4130856500275801127u64)
 },
 
 _ => {
@@ -33422,7 +33444,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 _input.close_peek_context()?;
@@ -33435,7 +33457,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 accum.push(next_elem)
@@ -33450,7 +33472,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 chars.clone()
@@ -33472,7 +33494,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 _input.close_peek_context()?;
@@ -33485,7 +33507,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 accum.push(next_elem)
@@ -33500,7 +33522,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 chars.clone()
@@ -33522,7 +33544,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 _input.close_peek_context()?;
@@ -33535,7 +33557,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 accum.push(next_elem)
@@ -33550,7 +33572,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 chars.clone()
@@ -33596,7 +33618,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 _input.close_peek_context()?;
@@ -33609,7 +33631,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 accum.push(next_elem)
@@ -33624,7 +33646,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 chars.clone()
@@ -33671,7 +33693,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 _input.close_peek_context()?;
@@ -33684,7 +33706,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 };
 accum.push(next_elem)
@@ -33699,7 +33721,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 };
 chars.clone()
@@ -33726,7 +33748,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 };
 _input.close_peek_context()?;
@@ -33739,7 +33761,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 accum.push(next_elem)
@@ -33754,7 +33776,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 chars.clone()
@@ -33769,7 +33791,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 };
 let marker = {
@@ -33777,7 +33799,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33932,11 +33954,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34057,11 +34079,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34077,7 +34099,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 }
 };
@@ -34183,11 +34205,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34212,7 +34234,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 };
 let marker = {
@@ -34220,7 +34242,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34243,11 +34265,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34265,7 +34287,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 })
 }
@@ -34363,11 +34385,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34480,7 +34502,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 })
 }
@@ -34546,11 +34568,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34623,7 +34645,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 })
 }
@@ -34728,11 +34750,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34760,7 +34782,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 };
 let marker = {
@@ -34768,7 +34790,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 jpeg_soi { marker }
@@ -34887,11 +34909,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34919,7 +34941,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let marker = {
@@ -34927,7 +34949,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 jpeg_soi { marker }
@@ -35090,13 +35112,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 _input.close_peek_context()?;
@@ -35201,13 +35223,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 _input.close_peek_context()?;
@@ -35261,7 +35283,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 })
 }
@@ -35281,7 +35303,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 _input.close_peek_context()?;
@@ -35294,7 +35316,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 },
 
@@ -35305,7 +35327,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let arg1 = {
@@ -35313,7 +35335,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 (arg0, arg1)
@@ -35322,7 +35344,7 @@ return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 })
 }
@@ -35334,7 +35356,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -35342,7 +35364,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35355,7 +35377,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -35363,7 +35385,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35376,7 +35398,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 let marker = {
@@ -35384,7 +35406,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35397,7 +35419,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 let marker = {
@@ -35405,7 +35427,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35418,7 +35440,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 let marker = {
@@ -35426,7 +35448,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35439,7 +35461,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 let marker = {
@@ -35447,7 +35469,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35460,7 +35482,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 let marker = {
@@ -35468,7 +35490,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35481,7 +35503,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 let marker = {
@@ -35489,7 +35511,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35506,7 +35528,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
+return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
 }
 };
 let image_components = {
@@ -35526,7 +35548,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
+return Err(ParseError::FalsifiedWhere(16339654162669176472u64));
 }
 };
 let end_spectral_selection = {
@@ -35538,7 +35560,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
+return Err(ParseError::FalsifiedWhere(1886358831178290550u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35575,7 +35597,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16339654162669176472u64));
+return Err(ParseError::FalsifiedWhere(17004441093219507547u64));
 })
 }
 
@@ -35593,7 +35615,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1886358831178290550u64));
+return Err(ParseError::FalsifiedWhere(3168197157646945762u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35747,13 +35769,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 _input.close_peek_context()?;
@@ -35817,7 +35839,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -35825,7 +35847,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -35852,7 +35874,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -35860,7 +35882,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -35887,7 +35909,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -35895,7 +35917,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -35922,7 +35944,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -35930,7 +35952,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -35957,7 +35979,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -35965,7 +35987,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -35992,7 +36014,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -36000,7 +36022,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 jpeg_soi { marker }
@@ -36027,7 +36049,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -36035,7 +36057,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 jpeg_soi { marker }
@@ -36062,7 +36084,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -36070,7 +36092,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 jpeg_soi { marker }
@@ -36097,7 +36119,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 let marker = {
@@ -36105,7 +36127,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 jpeg_soi { marker }
@@ -36132,7 +36154,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 let marker = {
@@ -36140,7 +36162,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 jpeg_soi { marker }
@@ -36167,7 +36189,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 let marker = {
@@ -36175,7 +36197,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 jpeg_soi { marker }
@@ -36202,7 +36224,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let marker = {
@@ -36210,7 +36232,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 jpeg_soi { marker }
@@ -36237,7 +36259,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let marker = {
@@ -36245,7 +36267,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 jpeg_soi { marker }
@@ -36275,7 +36297,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6301432137385173939u64));
+return Err(ParseError::FalsifiedWhere(6803443871185192093u64));
 }
 };
 let num_lines = {
@@ -36294,7 +36316,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17762152702085771435u64));
+return Err(ParseError::FalsifiedWhere(204361505388532862u64));
 }
 };
 let num_image_components = {
@@ -36306,7 +36328,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6803443871185192093u64));
+return Err(ParseError::FalsifiedWhere(11161970641928094938u64));
 }
 };
 let image_components = {
@@ -36338,7 +36360,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(204361505388532862u64));
+return Err(ParseError::FalsifiedWhere(8787536656121914522u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36352,7 +36374,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 let marker = {
@@ -36360,7 +36382,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 jpeg_soi { marker }
@@ -36409,7 +36431,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let marker = {
@@ -36417,7 +36439,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 jpeg_soi { marker }
@@ -36444,7 +36466,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 let marker = {
@@ -36452,7 +36474,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 jpeg_soi { marker }
@@ -36479,7 +36501,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 let marker = {
@@ -36487,7 +36509,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 jpeg_soi { marker }
@@ -36514,7 +36536,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let marker = {
@@ -36522,7 +36544,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 jpeg_soi { marker }
@@ -36549,7 +36571,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 let marker = {
@@ -36557,7 +36579,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 jpeg_soi { marker }
@@ -36584,7 +36606,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 let marker = {
@@ -36592,7 +36614,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 jpeg_soi { marker }
@@ -36639,7 +36661,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 let marker = {
@@ -36647,7 +36669,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 jpeg_soi { marker }
@@ -36694,7 +36716,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 let marker = {
@@ -36702,7 +36724,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 jpeg_soi { marker }
@@ -36749,7 +36771,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 let marker = {
@@ -36757,7 +36779,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 jpeg_soi { marker }
@@ -36804,7 +36826,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 let marker = {
@@ -36812,7 +36834,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 jpeg_soi { marker }
@@ -36859,7 +36881,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 let marker = {
@@ -36867,7 +36889,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 jpeg_soi { marker }
@@ -36914,7 +36936,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 let marker = {
@@ -36922,7 +36944,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 jpeg_soi { marker }
@@ -36969,7 +36991,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 let marker = {
@@ -36977,7 +36999,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 jpeg_soi { marker }
@@ -37024,7 +37046,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 let marker = {
@@ -37032,7 +37054,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 jpeg_soi { marker }
@@ -37079,7 +37101,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 let marker = {
@@ -37087,7 +37109,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 jpeg_soi { marker }
@@ -37134,7 +37156,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 let marker = {
@@ -37142,7 +37164,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 jpeg_soi { marker }
@@ -37189,7 +37211,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 let marker = {
@@ -37197,7 +37219,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 jpeg_soi { marker }
@@ -37244,7 +37266,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 let marker = {
@@ -37252,7 +37274,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 jpeg_soi { marker }
@@ -37299,7 +37321,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 let marker = {
@@ -37307,7 +37329,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 jpeg_soi { marker }
@@ -37354,7 +37376,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 let marker = {
@@ -37362,7 +37384,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 jpeg_soi { marker }
@@ -37420,7 +37442,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 _input.close_peek_context()?;
@@ -37433,7 +37455,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 };
 accum.push(next_elem)
@@ -37448,7 +37470,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 chars.clone()
@@ -37504,7 +37526,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37556,7 +37578,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 _input.close_peek_context()?;
@@ -37569,7 +37591,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 accum.push(next_elem)
@@ -37584,7 +37606,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 chars.clone()
@@ -37641,7 +37663,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13319962755558045565u64));
+return Err(ParseError::FalsifiedWhere(1236150641026759388u64));
 }
 };
 let density_x = {
@@ -37656,7 +37678,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17426992236827678217u64));
+return Err(ParseError::FalsifiedWhere(12386662728078486919u64));
 }
 };
 let density_y = {
@@ -37671,7 +37693,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1236150641026759388u64));
+return Err(ParseError::FalsifiedWhere(14581882220438260695u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37733,7 +37755,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12386662728078486919u64));
+return Err(ParseError::FalsifiedWhere(107739895477412745u64));
 })
 }
 
@@ -37788,7 +37810,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14581882220438260695u64));
+return Err(ParseError::FalsifiedWhere(11249661549694067250u64));
 })
 }
 
@@ -37823,7 +37845,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 })
 }
@@ -37846,7 +37868,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 _input.close_peek_context()?;
@@ -37859,7 +37881,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 accum.push(next_elem)
@@ -37874,7 +37896,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37899,7 +37921,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 _input.close_peek_context()?;
@@ -37912,7 +37934,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 accum.push(next_elem)
@@ -37927,7 +37949,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 chars.clone()
@@ -38017,7 +38039,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 _input.close_peek_context()?;
@@ -38038,7 +38060,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 accum.push(next_elem)
@@ -38067,7 +38089,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 accum.push(next_elem)
@@ -38098,7 +38120,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 _input.close_peek_context()?;
@@ -38111,7 +38133,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 accum.push(next_elem)
@@ -38126,7 +38148,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38151,7 +38173,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 _input.close_peek_context()?;
@@ -38164,7 +38186,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 accum.push(next_elem)
@@ -38179,7 +38201,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 chars.clone()
@@ -38195,7 +38217,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 let arg1 = {
@@ -38203,7 +38225,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 };
 let arg2 = {
@@ -38211,7 +38233,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38261,7 +38283,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 }
 },
@@ -38271,7 +38293,7 @@ return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 _input.close_peek_context()?;
@@ -38290,7 +38312,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 })
 }
@@ -38302,7 +38324,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38326,7 +38348,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 }
 },
@@ -38336,7 +38358,7 @@ return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 _input.close_peek_context()?;
@@ -38353,7 +38375,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 }
 };
@@ -38378,11 +38400,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38400,7 +38422,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 })
 }
@@ -38412,7 +38434,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 let label = {
@@ -38420,7 +38442,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 let block_size = {
@@ -38428,7 +38450,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 let identifier = {
@@ -38456,7 +38478,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 _input.close_peek_context()?;
@@ -38483,7 +38505,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 let label = {
@@ -38491,7 +38513,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 let comment_data = {
@@ -38510,7 +38532,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 _input.close_peek_context()?;
@@ -38537,7 +38559,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 let data = {
@@ -38557,7 +38579,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 })
 }
 
@@ -38568,7 +38590,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 let label = {
@@ -38576,7 +38598,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 };
 let block_size = {
@@ -38584,7 +38606,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18414062761433945694u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38612,7 +38634,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16815582401460622228u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 };
 _input.close_peek_context()?;
@@ -38631,7 +38653,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 })
 }
@@ -38660,7 +38682,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6170312119912404925u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 };
 let label = {
@@ -38668,7 +38690,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 };
 let block_size = {
@@ -38676,7 +38698,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 };
 let text_grid_left_position = {
@@ -38715,7 +38737,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 };
 _input.close_peek_context()?;
@@ -38742,7 +38764,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 };
 let image_left_position = {
@@ -38792,7 +38814,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 };
 _input.close_peek_context()?;
@@ -38924,55 +38946,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15666641356442195125u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8003682420837492218u64));
+return Err(ParseError::ExcludedBranch(5694490278249537684u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6672851768458061412u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5694490278249537684u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17498679062468273557u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15004954221525838533u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 _input.close_peek_context()?;
@@ -38987,7 +39009,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9104412661124805519u64));
+return Err(ParseError::ExcludedBranch(13391927636850586680u64));
 }
 };
 accum.push(next_elem)
@@ -39001,7 +39023,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13731807471966330507u64));
+return Err(ParseError::ExcludedBranch(5585407796242218698u64));
 }
 };
 (arg0, arg1)
@@ -39029,7 +39051,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13391927636850586680u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39062,7 +39084,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5585407796242218698u64));
+return Err(ParseError::FalsifiedWhere(401211890982280023u64));
 }
 };
 let num_image_components = {
@@ -39074,7 +39096,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7581188615734068888u64));
+return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
 }
 };
 let image_components = {
@@ -39097,7 +39119,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(401211890982280023u64));
+return Err(ParseError::ExcludedBranch(16926640000337048185u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39119,7 +39141,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
+return Err(ParseError::FalsifiedWhere(14305107858950733127u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39133,7 +39155,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16926640000337048185u64));
+return Err(ParseError::ExcludedBranch(14247107068446105269u64));
 }
 };
 let marker = {
@@ -39141,7 +39163,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14305107858950733127u64));
+return Err(ParseError::ExcludedBranch(5774748803588796814u64));
 }
 };
 jpeg_soi { marker }
@@ -39188,7 +39210,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14247107068446105269u64));
+return Err(ParseError::ExcludedBranch(12564492979960735543u64));
 }
 };
 let marker = {
@@ -39196,7 +39218,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5774748803588796814u64));
+return Err(ParseError::ExcludedBranch(2458638837424585123u64));
 }
 };
 jpeg_soi { marker }
@@ -39234,7 +39256,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12564492979960735543u64));
+return Err(ParseError::FalsifiedWhere(15528204713822084965u64));
 }
 };
 let num_image_components = {
@@ -39246,7 +39268,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2458638837424585123u64));
+return Err(ParseError::FalsifiedWhere(5036225068787254506u64));
 }
 };
 let image_components = {
@@ -39268,7 +39290,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15528204713822084965u64));
+return Err(ParseError::ExcludedBranch(17887022250737672487u64));
 }
 };
 let marker = {
@@ -39276,7 +39298,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5036225068787254506u64));
+return Err(ParseError::ExcludedBranch(2717347623714797477u64));
 }
 };
 jpeg_soi { marker }
@@ -39311,7 +39333,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17887022250737672487u64));
+return Err(ParseError::FalsifiedWhere(14329490458809437922u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
-- 
2.43.0


From 033c6d6d9241a1b1e6f37e24698e583d6219f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:17 +0000
Subject: [PATCH 65/66] fix: lookahead through Permit covers the case where the
 inner format fails

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f831a8..4bf7cd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1998,7 +1998,10 @@ impl<'a> MatchTreeStep<'a> {
                 Self::from_gt_format(module, f0, next0)
             }
             TypedFormat::Hint(_, _hint, f) => Self::from_gt_format(module, f, next),
-            TypedFormat::Permit(_, f, _expr) => Self::from_gt_format(module, f, next),
+            // NOTE - when the inner format fails, parsing resumes with `next` at the same position
+            TypedFormat::Permit(_, f, _expr) => {
+                Self::from_gt_format(module, f, next.clone()).union(Self::from_next(module, next))
+            }
             #[cfg(feature = "format_enforce")]
             TypedFormat::Enforce(_, f) => Self::from_gt_format(module, f, next),
             TypedFormat::WithView(_, _ident, _vf) => Self::from_next(module, next),
@@ -2148,8 +2151,10 @@ impl<'a> MatchTreeStep<'a> {
                 // FIXME - does the construction of a view-binding affect our matchtree?
                 Self::from_format(module, f, next)
             }
-            // REVIEW - it isn't fully clear whether Permit should affect the matchtree in some way...
-            Format::Permit(f, _) => Self::from_format(module, f, next),
+            // NOTE - when the inner format fails, parsing resumes with `next` at the same position
+            Format::Permit(f, _) => {
+                Self::from_format(module, f, next.clone()).union(Self::from_next(module, next))
+            }
             #[cfg(feature = "format_enforce")]
             Format::Enforce(f) => Self::from_format(module, f, next),
             Format::Match(_, branches) => {
-- 
2.43.0


From a9c2022f8406f9d3e27b91bb7f4539bddac7e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:17 +0000
Subject: [PATCH 66/66] fix: a sub-range that ends at the end of its range is
 valid

---
 src/decoder/seq_kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/seq_kind.rs b/src/decoder/seq_kind.rs
index 11d8717..4309ac4 100644
--- a/src/decoder/seq_kind.rs
+++ b/src/decoder/seq_kind.rs
@@ -54,7 +54,7 @@ pub(crate) fn sub_range(
     len: usize,
 ) -> std::ops::Range<usize> {
     assert!(
-        start + len < range.len(),
+        start + len <= range.len(),
         "sub_range invalid: start={start} len={len} range={range:?}"
     );
     range.start + start..range.start + start + len
-- 
2.43.0

