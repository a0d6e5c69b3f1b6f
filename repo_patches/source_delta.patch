From fab2cd89e549629c5bdf487d87f0afde477552d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 01/43] fix: chibi: reload a leading field whose eightbyte
 class differs from its container's

A struct such as (: F32 U32) is held in a general purpose register while its
first field lives in an SSE register, but the field access at offset 0 was
treated as a no-op and read a stale xmm0.
---
 llrl0/src/backend/chibi/codegen.rs | 7 ++++++-
 llrl1/backend/chibi/codegen.llrl   | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index ae754a5..206aa70 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -640,7 +640,12 @@ impl<'a> FunctionCodegen<'a> {
             }
             StructElem(_, i) => {
                 let (offset, layout) = a_layout.composite.as_ref().unwrap().elems[*i].clone();
-                if offset != 0 || a_layout.num_eightbytes() > layout.num_eightbytes() {
+                // Even at offset 0, the element may be held in registers of another class
+                let in_place = a_layout
+                    .eightbytes()
+                    .map(|e| e.class)
+                    .eq(layout.eightbytes().map(|e| e.class));
+                if offset != 0 || !in_place {
                     let diff = (a_layout.num_eightbytes() - layout.num_eightbytes()) * 8;
                     self.push(&a_layout)?;
                     self.slide_in_stack(offset, diff, &layout)?;
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 9efab8d..0e6c8c5 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -37,6 +37,9 @@
     (retq! w)!
     (ok unit)))
 
+(function (eightbyte-classes layout) {(-> Layout (Vector Class))}
+  (|> layout layout/eightbytes (it/map eightbyte/class) collect))
+
 (function (object! defs main ctx) {(-> (OrdMap ir/CtId ir/Def) (Option ir/Function) Context Object)}
   (cg-object! @lambda (w)
     (for (: (let id) (let def)) (ord-map/elems defs)
@@ -550,7 +553,8 @@
       (some elem-layout)]
     [(ir/unary:struct-elem _ (let i))
       @with1 (: (let offset) (let layout)) (get (|> a-layout layout/composite option/force composite-layout/elems)[i])
-      (when (or (ne? offset 0) (> (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)))
+      ; Even at offset 0, the element may be held in registers of another class
+      (when (or (ne? offset 0) (ne? (eightbyte-classes a-layout) (eightbyte-classes layout)))
         @let1 diff (* (- (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)) 8)
         (..push! cg a-layout)!
         (..slide-in-stack! cg offset diff layout)!
-- 
2.43.0


From 38cc5cd56b78cf86a54c298e5ade782051d086de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 02/43] fix: do not crash when inlining duplicates an argument
 that binds variables

Calling a transparent function that uses a parameter more than once with an
argument containing a local binding aborted the compiler on an assertion.
---
 llrl0/src/lowering/ir/rewriter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/lowering/ir/rewriter.rs b/llrl0/src/lowering/ir/rewriter.rs
index d79a62f..88f311c 100644
--- a/llrl0/src/lowering/ir/rewriter.rs
+++ b/llrl0/src/lowering/ir/rewriter.rs
@@ -555,7 +555,8 @@ impl<F: FnMut() -> RtId> Rewriter for ReallocRts<F> {
 
     fn after_rt_def(&mut self, id: &mut RtId, _ty: impl FnOnce() -> Ct) -> Result<(), Self::Error> {
         let new_id = (self.0)();
-        assert!(self.1.insert(*id, new_id).is_none());
+        // The same definition may appear more than once, since inlining duplicates arguments
+        self.1.insert(*id, new_id);
         *id = new_id;
         Ok(())
     }
-- 
2.43.0


From 097f48db95d690bfd7d45c4b23af51d7781ccb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 03/43] fix: chibi: comparisons with NaN are false

comisd sets CF and ZF for unordered operands, so =, < and <= held for NaN.
---
 llrl0/src/backend/chibi/codegen.rs | 22 +++++++++++++++-------
 llrl1/backend/chibi/codegen.llrl   | 23 ++++++++++++++++-------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 206aa70..66ddb4b 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -977,15 +977,23 @@ impl<'a> FunctionCodegen<'a> {
             }
             FEq | FLt | FLe | FGt | FGe => {
                 self.pop_eightbyte(Xmm1)?; // left operand
-                match b_layout.size {
-                    4 => self.w.comiss(Xmm1, Xmm0)?,
-                    8 => self.w.comisd(Xmm1, Xmm0)?,
-                    s => unsupported_op!(op, size: s),
+                // Every comparison is false if either operand is NaN (CF = ZF = PF = 1). a < b is
+                // computed as b > a, since setb and setbe hold for unordered operands.
+                match (op, b_layout.size) {
+                    (FLt | FLe, 4) => self.w.comiss(Xmm0, Xmm1)?,
+                    (FLt | FLe, 8) => self.w.comisd(Xmm0, Xmm1)?,
+                    (_, 4) => self.w.comiss(Xmm1, Xmm0)?,
+                    (_, 8) => self.w.comisd(Xmm1, Xmm0)?,
+                    (_, s) => unsupported_op!(op, size: s),
                 }
                 match op {
-                    FEq => self.w.sete(Al)?,
-                    FLt => self.w.setb(Al)?,
-                    FLe => self.w.setbe(Al)?,
+                    FEq => {
+                        self.w.sete(Al)?;
+                        self.w.setnp(Cl)?;
+                        self.w.andb(Al, Cl)?;
+                    }
+                    FLt => self.w.seta(Al)?,
+                    FLe => self.w.setae(Al)?,
                     FGt => self.w.seta(Al)?,
                     FGe => self.w.setae(Al)?,
                     _ => panic!(),
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 0e6c8c5..afa3ea0 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -853,14 +853,23 @@
       (some b-layout)]
     [ir/binary:f-eq
       (..pop-eightbyte! cg xmm1)! ; left operand
-      (match (layout/size b-layout)
-        [4 (comiss! cg xmm1 xmm0)!]
-        [8 (comisd! cg xmm1 xmm0)!]
-        [(let s) (unsupported-op op size: s)])
+      ; Every comparison is false if either operand is NaN (CF = ZF = PF = 1). a < b is
+      ; computed as b > a, since setb and setbe hold for unordered operands.
+      (match (: op (layout/size b-layout))
+        [(: ir/binary:f-lt 4) (comiss! cg xmm0 xmm1)!]
+        [(: ir/binary:f-le 4) (comiss! cg xmm0 xmm1)!]
+        [(: ir/binary:f-lt 8) (comisd! cg xmm0 xmm1)!]
+        [(: ir/binary:f-le 8) (comisd! cg xmm0 xmm1)!]
+        [(: _ 4) (comiss! cg xmm1 xmm0)!]
+        [(: _ 8) (comisd! cg xmm1 xmm0)!]
+        [(: _ (let s)) (unsupported-op op size: s)])
       (match op
-        [ir/binary:f-eq (sete! cg al)!]
-        [ir/binary:f-lt (setb! cg al)!]
-        [ir/binary:f-le (setbe! cg al)!]
+        [ir/binary:f-eq
+          (sete! cg al)!
+          (setnp! cg cl)!
+          (andb! cg al cl)!]
+        [ir/binary:f-lt (seta! cg al)!]
+        [ir/binary:f-le (setae! cg al)!]
         [ir/binary:f-gt (seta! cg al)!]
         [ir/binary:f-ge (setae! cg al)!]
         [_ (unsupported-op op)])
-- 
2.43.0


From caa06b3e33eff74c40269474ce0db28a0915126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 04/43] fix: the lowered type of a floating point >= is Bool

It was given the type of its operands, so matching on the result overflowed the
compiler's stack.
---
 llrl0/src/lowering/ir/rt.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/llrl0/src/lowering/ir/rt.rs b/llrl0/src/lowering/ir/rt.rs
index 8584886..ace6eb1 100644
--- a/llrl0/src/lowering/ir/rt.rs
+++ b/llrl0/src/lowering/ir/rt.rs
@@ -432,11 +432,9 @@ impl Binary {
             Store => Cow::Owned(Ct::Unit),
             Offset => b.ty()?,
             IShl | IAShr | ILShr | IAnd | IOr | IXor | SAdd | SSub | SMul | SDiv | SRem | UAdd
-            | USub | UMul | UDiv | URem | FGe | FAdd | FSub | FMul | FDiv | FRem | MathPow => {
-                a.ty()?
-            }
+            | USub | UMul | UDiv | URem | FAdd | FSub | FMul | FDiv | FRem | MathPow => a.ty()?,
             PtrEq | PtrLt | PtrLe | PtrGt | PtrGe | IEq | SLt | SLe | SGt | SGe | ULt | ULe
-            | UGt | UGe | FEq | FLt | FLe | FGt | StringEq => Cow::Owned(Ct::BOOL),
+            | UGt | UGe | FEq | FLt | FLe | FGt | FGe | StringEq => Cow::Owned(Ct::BOOL),
             StringConstruct => Cow::Owned(Ct::String),
             StringCmp => Cow::Owned(Ct::S(32)),
             StringConcat => Cow::Owned(Ct::String),
-- 
2.43.0


From c2d0d7adce6f6660667ed801b50461495128a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 05/43] fix: hash-map/with-capacity 0 makes a map whose lookups
 read outside its buckets

---
 std/hash-map.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/hash-map.llrl b/std/hash-map.llrl
index 2ea41f3..51204ed 100644
--- a/std/hash-map.llrl
+++ b/std/hash-map.llrl
@@ -43,7 +43,7 @@
   (hash-map/with-capacity 32))
 
 (function (hash-map/with-capacity cap) {(forall K V) (-> U64 (HashMap K V))}
-  @let1 cap (next-power-of-two cap)
+  @let1 cap (next-power-of-two (max 1 cap)) ; at least one bucket is required for lookups
   (m: (ref (m-body:
     (xx-hasher/new)
     0
-- 
2.43.0


From 0e7a26cbf16ccefbe9fe9093a6449a6b4597c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 06/43] fix: array/ref accepts an index one past the end

---
 std/internal/array-vector.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/internal/array-vector.llrl b/std/internal/array-vector.llrl
index 1fa90b0..369f135 100644
--- a/std/internal/array-vector.llrl
+++ b/std/internal/array-vector.llrl
@@ -66,7 +66,7 @@
   (= (array/length t) 0))
 
 (function (array/ref index t) {(forall A) (-> U64 (Array A) (Ref A))}
-  (assert (<= index (array/length t)) "array/ref: out of range")
+  (assert (< index (array/length t)) "array/ref: out of range")
   (ref/unsafe-from-ptr (ptr/add index (array/ptr t))))
 
 (function (array/subarray start end t) {(forall A) (-> U64 U64 (Array A) (Array A))}
-- 
2.43.0


From f56d717f2fb5f97bfee4793c570578126563e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 07/43] fix: array/update on an empty array writes outside it

---
 std/internal/array-vector.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/internal/array-vector.llrl b/std/internal/array-vector.llrl
index 369f135..5ecc876 100644
--- a/std/internal/array-vector.llrl
+++ b/std/internal/array-vector.llrl
@@ -120,7 +120,7 @@
   (array/insert 0 value t))
 
 (function (array/update index value t) {(forall A) (-> U64 A (Array A) (Array A))}
-  (assert (<= 0 index (- (array/length t) 1)) "array/update: out of range")
+  (assert (< index (array/length t)) "array/update: out of range")
   (let1 s (shallow-copy t)
     (unsafe-set! s[index] value)
     s))
-- 
2.43.0


From c3f89e3aed81dc742cf908c5dac6a539f155432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 08/43] fix: UTF-8 encoding and decoding stop at U+1B333
 instead of U+10FFFF

---
 std/internal/utf-8.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/utf-8.llrl b/std/internal/utf-8.llrl
index f8a6b2e..fe7c63b 100644
--- a/std/internal/utf-8.llrl
+++ b/std/internal/utf-8.llrl
@@ -41,7 +41,7 @@
         (if (and (<= 2048 x 65535) (not (<= 55296 x 57343))) (decode:produce x) decode:invalid))]
     [(complete:4 (let a) (let b) (let c) (let d))
       (let1 x (bw| (&<< a 7 18) (bw| (&<< b 63 12) (bw| (&<< c 63 6) (&<< d 63 0))))
-        (if (<= 65536 x 111411) (decode:produce x) decode:invalid))]))
+        (if (<= 65536 x 1114111) (decode:produce x) decode:invalid))]))
 
 (function (decode-step s n) {(-> (Option Incomplete) U8 Decode)}
   (match (: s (input-class n))
@@ -86,7 +86,7 @@
       (encode:success (complete:2 (>>&| x 6 31 192) (>>&| x 0 63 128)))]
     [(and (<= 2048 x 65535) (not (<= 55296 x 57343)))
       (encode:success (complete:3 (>>&| x 12 15 224) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
-    [(<= 65536 x 111411)
+    [(<= 65536 x 1114111)
       (encode:success (complete:4 (>>&| x 18 7 240) (>>&| x 12 63 128) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
     [else
       encode:invalid]))
-- 
2.43.0


From 68c2af9d1aab2cc566ff487455f997036b28f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 09/43] fix: string/reverse reverses the bytes of multi-byte
 characters

---
 std/internal/string-text.llrl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 0065018..57c5cf0 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -232,9 +232,9 @@
 
 (function (string/reverse s) {(-> String String)}
   (when (<= (string/length s) 1) (return s))
-  @let1 buf (shallow-copy (string/unsafe-array s))
-  (array/reverse! buf)
-  (string/unsafe-from-array buf))
+  @let1 chars (collect (string/chars s))
+  (array/reverse! chars)
+  (string/from-chars chars))
 
 (function (string/join sep it) {(forall T) (-> String (T String) String) (where (Iterate T))}
   @let1 buf text/empty
-- 
2.43.0


From da2d37896e2a0d5d7685bc0a978bfe88ee28675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 10/43] fix: string/remove-start and remove-end loop forever on
 an empty affix

---
 std/internal/string-text.llrl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 57c5cf0..01d0884 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -181,6 +181,7 @@
       s]))
 
 (function (string/remove-start prefix s) {(-> String String String)}
+  (when (string/empty? prefix) (return s))
   @let (
     [s (ref s)]
     [l (string/length prefix)])
@@ -188,6 +189,7 @@
   ~s)
 
 (function (string/remove-end suffix s) {(-> String String String)}
+  (when (string/empty? suffix) (return s))
   @let (
     [s (ref s)]
     [l (string/length suffix)])
-- 
2.43.0


From bc260f604d4eafad0fdd6d8726ea784f36c78775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 11/43] fix: xxhash sign-extends a trailing 4-byte block

---
 std/xxhash.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/xxhash.llrl b/std/xxhash.llrl
index a3994fb..a005860 100644
--- a/std/xxhash.llrl
+++ b/std/xxhash.llrl
@@ -142,7 +142,7 @@
       (set! d (array/skip 8 ~d))
       (set! input (+ (* (rotl ~input 27) prime-1) prime-4)))
     (when (<= 4 (array/length ~d))
-      (set! input (bw^ ~input (* (|> ~d array/ptr ptr/cast ptr/load (conv-from I32)) prime-1)))
+      (set! input (bw^ ~input (* (|> ~d array/ptr ptr/cast ptr/load (conv-from U32)) prime-1)))
       (set! d (array/skip 4 ~d))
       (set! input (+ (* (rotl ~input 23) prime-2) prime-3)))
     (for (let byte) ~d
-- 
2.43.0


From 39e5777ba286f7b260e7d65fc34afe9476a34134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 12/43] fix: printing the most negative I64 in radix 2 writes
 outside its buffer

---
 rt/rt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index b42251a..41424ef 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -316,22 +316,22 @@ static char digit_to_char(uint8_t digit) {
 
 rt_string llrt_i64_to_string(uint8_t radix, int64_t value) {
   if (value == 0) return zero_string;
-  char buf[64];
+  char buf[65]; // sign and up to 64 digits
   int64_t sign = value < 0 ? -1 : 1;
   size_t len = 0;
   while (value != 0) {
-    buf[63 - len] = digit_to_char((uint8_t)((value % radix) * sign));
+    buf[64 - len] = digit_to_char((uint8_t)((value % radix) * sign));
     value /= radix;
     len++;
   }
   if (sign < 0) {
-    buf[63 - len] = '-';
+    buf[64 - len] = '-';
     len++;
   }
   rt_string ret;
   ret.len = len;
   ret.ptr = GC_malloc(ret.len);
-  memcpy(ret.ptr, &buf[64 - len], ret.len);
+  memcpy(ret.ptr, &buf[65 - len], ret.len);
   return ret;
 }
 
-- 
2.43.0


From 17efdde26bb0b698b03d286eefdd18ad2123db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 13/43] fix: chibi: conversions from floats to U64 from 2^63 on

---
 llrl0/src/backend/chibi/codegen.rs | 35 ++++++++++++++++++++++++++---
 llrl1/backend/chibi/codegen.llrl   | 36 +++++++++++++++++++++++++++---
 2 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 66ddb4b..5709c25 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -800,13 +800,42 @@ impl<'a> FunctionCodegen<'a> {
                     (FToS(_) | FToU(_), 8, 1 | 2) | (FToS(_), 8, 4) => {
                         self.w.cvttsd2si(Eax, Xmm0)?;
                     }
-                    (FToU(_), 4, 4) | (FToS(_) | FToU(_), 4, 8) => {
+                    (FToU(_), 4, 4) | (FToS(_), 4, 8) => {
                         self.w.cvttss2si(Rax, Xmm0)?;
                     }
-                    (FToU(_), 8, 4) | (FToS(_) | FToU(_), 8, 8) => {
-                        // FIXME: More precise convertion for (FToS(_) | FToU(_), 8, 8)
+                    (FToU(_), 8, 4) | (FToS(_), 8, 8) => {
                         self.w.cvttsd2si(Rax, Xmm0)?;
                     }
+                    (FToU(_), s @ (4 | 8), 8) => {
+                        let large_label = self.w.issue_label();
+                        let cont_label = self.w.issue_label();
+                        match s {
+                            4 => self.w.cvttss2si(Rax, Xmm0)?,
+                            8 => self.w.cvttsd2si(Rax, Xmm0)?,
+                            _ => panic!(),
+                        }
+                        self.w.testq(Rax, Rax)?;
+                        self.w.js(Short(large_label))?;
+                        self.w.jmpq(Short(cont_label))?;
+                        // 2^63 or more: Rax is -2^63, add the rest to it
+                        self.w.define(large_label, false);
+                        self.w.pxor(Xmm1, Xmm1)?;
+                        match s {
+                            4 => {
+                                self.w.cvtsi2ssq(Xmm1, Rax)?;
+                                self.w.addss(Xmm0, Xmm1)?;
+                                self.w.cvttss2si(Rdx, Xmm0)?;
+                            }
+                            8 => {
+                                self.w.cvtsi2sdq(Xmm1, Rax)?;
+                                self.w.addsd(Xmm0, Xmm1)?;
+                                self.w.cvttsd2si(Rdx, Xmm0)?;
+                            }
+                            _ => panic!(),
+                        }
+                        self.w.addq(Rax, Rdx)?;
+                        self.w.define(cont_label, false);
+                    }
                     (FTrunc(_), 8, 4) => self.w.cvtsd2ss(Xmm0, Xmm0)?,
                     (FExt(_), 4, 8) => self.w.cvtss2sd(Xmm0, Xmm0)?,
                     (_, from, to) => unsupported_op!(op, from: from, to: to),
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index afa3ea0..9fb7b83 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -678,15 +678,45 @@
         [(: (ir/unary:f-to-s _) 8 1) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-s _) 8 2) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-s _) 8 4) (cvttsd2si! cg eax xmm0)!]
-        [(: (ir/unary:f-to-s _) 8 8) (cvttsd2si! cg rax xmm0)!] ; FIXME: more precise convertion
+        [(: (ir/unary:f-to-s _) 8 8) (cvttsd2si! cg rax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 1) (cvttss2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 2) (cvttss2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 4) (cvttss2si! cg rax xmm0)!]
-        [(: (ir/unary:f-to-u _) 4 8) (cvttss2si! cg rax xmm0)!]
+        [(: (ir/unary:f-to-u _) 4 8)
+          @let1 large-label (writer/issue-label! (writer cg))
+          @let1 cont-label (writer/issue-label! (writer cg))
+          (cvttss2si! cg rax xmm0)!
+          (testq! cg rax rax)!
+          (js! cg (short: large-label))!
+          (jmpq! cg (short: cont-label))!
+          ; 2^63 or more: rax is -2^63, add the rest to it
+          (.define! cg large-label #f)
+          (pxor! cg xmm1 xmm1)!
+          (cvtsi2ssq! cg xmm1 rax)!
+          (addss! cg xmm0 xmm1)!
+          (cvttss2si! cg rdx xmm0)!
+          (addq! cg rax rdx)!
+          (.define! cg cont-label #f)
+          unit]
         [(: (ir/unary:f-to-u _) 8 1) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 8 2) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 8 4) (cvttsd2si! cg rax xmm0)!]
-        [(: (ir/unary:f-to-u _) 8 8) (cvttsd2si! cg rax xmm0)!] ; FIXME: more precise convertion
+        [(: (ir/unary:f-to-u _) 8 8)
+          @let1 large-label (writer/issue-label! (writer cg))
+          @let1 cont-label (writer/issue-label! (writer cg))
+          (cvttsd2si! cg rax xmm0)!
+          (testq! cg rax rax)!
+          (js! cg (short: large-label))!
+          (jmpq! cg (short: cont-label))!
+          ; 2^63 or more: rax is -2^63, add the rest to it
+          (.define! cg large-label #f)
+          (pxor! cg xmm1 xmm1)!
+          (cvtsi2sdq! cg xmm1 rax)!
+          (addsd! cg xmm0 xmm1)!
+          (cvttsd2si! cg rdx xmm0)!
+          (addq! cg rax rdx)!
+          (.define! cg cont-label #f)
+          unit]
         [(: (ir/unary:f-trunc _) 8 4) (cvtsd2ss! cg xmm0 xmm0)!]
         [(: (ir/unary:f-ext _) 4 8) (cvtss2sd! cg xmm0 xmm0)!]
         [(: _ (let a) (let b)) (unsupported-op op from: a to: b)])
-- 
2.43.0


From de554c77e49846df160f2aac3d2bae907caf2c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 14/43] fix: 0.0 and -0.0 are equal but hash differently

---
 std/hash.llrl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/std/hash.llrl b/std/hash.llrl
index 347f109..b161f60 100644
--- a/std/hash.llrl
+++ b/std/hash.llrl
@@ -5,6 +5,7 @@
 (import "std/derive" derive/_)
 (import "std/access" unsafe-get)
 (import "std/integer" _.U64)
+(import "std/float" _.F32 _.F64)
 (import "std/memory" Ptr ptr/_ _.Ptr)
 (import "std/box" Box _.Box)
 (import "std/ref" Ref ref _.Ref)
@@ -60,11 +61,17 @@
   (function (hash-array! s a)
     (hasher/write! a s)))
 
-($for1 $ty (U16 U32 U64 I8 I16 I32 I64 F32 F64)
+($for1 $ty (U16 U32 U64 I8 I16 I32 I64)
   (instance ($symbol Hash. $ty) (Hash $ty)
     (function (hash! s a)
       (hasher/write! (array/unsafe-temporary-bytearray a) s))))
 
+($for1 $ty (F32 F64)
+  (instance ($symbol Hash. $ty) (Hash $ty)
+    (function (hash! s a)
+      ; 0.0 and -0.0 are equal but have different representations
+      (hasher/write! (array/unsafe-temporary-bytearray (if (eq? a 0.0) 0.0 a)) s))))
+
 (instance Hash.Ptr (forall A) (Hash (Ptr A))
   (function (hash! s a)
     (hash! s (ptr/address a))))
-- 
2.43.0


From 8d2eeccfc0de89ebad9e1472857260e4bb1cf222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 15/43] fix: llrl1: constraints of one method leak into the
 scopes of its siblings

---
 llrl1/module/sema/type-inference/unification.llrl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llrl1/module/sema/type-inference/unification.llrl b/llrl1/module/sema/type-inference/unification.llrl
index b16af61..3897666 100644
--- a/llrl1/module/sema/type-inference/unification.llrl
+++ b/llrl1/module/sema/type-inference/unification.llrl
@@ -411,7 +411,11 @@
 (instance ShallowCopy.Premise (ShallowCopy Premise)
   (function (shallow-copy premise)
     (with1 (premise: (let class-constraints)) premise
-      (premise: (shallow-copy class-constraints)))))
+      ; The vectors are extended in place, so they must not be shared with the original premise.
+      (premise:
+        (|> (ord-map/elems class-constraints)
+            (it/map (case1 (: (let class) (let premises)) (: class (shallow-copy premises))))
+            ord-map/collect)))))
 
 (instance Exports.Premise (Exports (Array ast/Constraint) Premise)
   (function (context/exports! premise ctx)
-- 
2.43.0


From ceb32587969c6fd6cbacc2a94683176d3cb5e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 16/43] fix: llrl1: module errors were displayed after the
 macros' memory was unmapped

---
 llrl1/pipeline.llrl | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/llrl1/pipeline.llrl b/llrl1/pipeline.llrl
index 2fd2c39..8e07b81 100644
--- a/llrl1/pipeline.llrl
+++ b/llrl1/pipeline.llrl
@@ -10,7 +10,7 @@
 (value-data Error
   (error:source SourceLocationTable (Array (: Path SourceError)))
   (error:circular-dependencies (Array Path))
-  (error:module SourceLocationTable (OrdMap ModuleId Module) Path ModuleError)
+  (error:module Path String)
   (error:produce-executable String))
 
 (instance Display.Error (Display Error)
@@ -25,8 +25,8 @@
         (for (let path) paths
           (display-all! w "- " path "\n")!)
         (display! w "Modules cannot import each other.\n")]
-      [(error:module (let slt) (let module-set) (let path) (let error))
-        (display-all! w (contextual: error (module-display-context module-set slt)) " (while building " path ")\n")]
+      [(error:module (let path) (let message))
+        (display-all! w message " (while building " path ")\n")]
       [(error:produce-executable (let e))
         (display-all! w "Failed to produce executable: " e "\n")])))
 
@@ -96,7 +96,9 @@
         (backend/complete! report backend {B})
         (ok unit)]
       [(: (let module-set) (some (: (let path) (let error))))
-        (err (error:module slt module-set path error))])))!
+        ; The error may refer to data in the memory of the executor (macro outputs, constants in macros),
+        ; so it must be displayed before the backend is disposed.
+        (err (error:module path (string (contextual: error (module-display-context module-set slt)))))])))!
   (ok
     (with1? (some (let run-args)) run-args
       (|> (process/execute! output run-args)
-- 
2.43.0


From f761cee966f641dbf0a7ebae5570cddef39dcc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 17/43] fix: llrl1: a literal pattern in a column of
 constructors hides uncovered constructors

---
 llrl1/module/sema/validator.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llrl1/module/sema/validator.llrl b/llrl1/module/sema/validator.llrl
index 7b6dbdd..f14c703 100644
--- a/llrl1/module/sema/validator.llrl
+++ b/llrl1/module/sema/validator.llrl
@@ -84,8 +84,8 @@
   (function (compare a b)
     (match (: a b)
       [(: (tag:con (let a) _) (tag:con (let b) _)) (compare a b)]
-      [(: (tag:con _ _) _) ordering:less]
-      [(: _ (tag:con _ _)) ordering:greater]
+      [(: (tag:con _ _) _) ordering:greater]
+      [(: _ (tag:con _ _)) ordering:less]
       [(: (tag:const (let a)) (tag:const (let b))) (compare a b)])))
 
 (instance Tag.Tag (p/Tag Tag)
-- 
2.43.0


From 2cafa73ef4fd73fc0dadffa49726323399dfcbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 18/43] fix: diagnose a class that is its own superclass
 instead of overflowing the stack (llrl0 and llrl1)

---
 llrl0/src/module/sema/type_inference.rs |  8 ++++++--
 llrl1/module/sema/type-inference.llrl   | 10 +++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/module/sema/type_inference.rs b/llrl0/src/module/sema/type_inference.rs
index c003087..0b80e81 100644
--- a/llrl0/src/module/sema/type_inference.rs
+++ b/llrl0/src/module/sema/type_inference.rs
@@ -2,7 +2,7 @@ use super::{
     AvailableInstances, Error, External, InferredKinds, Module, ModuleId, Result, SymbolMap,
 };
 use crate::ast::{self, Dfs as _};
-use crate::topological_sort;
+use crate::topological_sort::{self, DependencyList};
 use derive_new::new;
 use either::*;
 use if_chain::if_chain;
@@ -495,7 +495,11 @@ impl<'a, E: External> Context<'a, E> {
         classes: &HashMap<ast::NodeId<ast::ClassCon>, ast::ClassCon>,
     ) -> Result<()> {
         for group in topological_sort::run(classes.values().map(|con| (con.id, con))) {
-            if group.len() >= 2 {
+            let mut cyclic = group.len() >= 2;
+            for class in group.iter() {
+                class.traverse_dependencies(&mut |id| cyclic |= *id == class.id);
+            }
+            if cyclic {
                 let ids = group.iter().map(|cls| cls.id).collect();
                 Err(Error::CyclicClasses(ids))?
             }
diff --git a/llrl1/module/sema/type-inference.llrl b/llrl1/module/sema/type-inference.llrl
index acc5a59..8f9b5da 100644
--- a/llrl1/module/sema/type-inference.llrl
+++ b/llrl1/module/sema/type-inference.llrl
@@ -345,10 +345,18 @@
         (for (constraint: _ (let rep)) (class-con/superclasses class)
           (when-match1 (constraint-rep:class (let id) _) rep (f id))))
       (ord-map/elems classes))
-    (when (<= 2 (vector/length group))
+    (when (or (<= 2 (vector/length group)) (it/any? class-con/depends-on-itself? group))
       (err (error:cyclic-classes (collect (it/map class-con/id group))))!))
   (ok unit))
 
+(function (class-con/depends-on-itself? class)
+  (it/any?
+    (lambda (superclass)
+      (match superclass
+        [(constraint: _ (constraint-rep:class (let id) _)) (= id (class-con/id class))]
+        [_ #f]))
+    (class-con/superclasses class)))
+
 (function (infer-instance-satisfaction! inst ctx)
   {(forall E) (-> InstanceCon (Context E) (Result unit Error)) (where (External E))}
   (let* ([inst-id (instance-con/id inst)]
-- 
2.43.0


From 24849f53f9ba03bb69bae639ea620dbd6ac38f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 19/43] fix: xten0: JIT relocations out of range were never
 reported

---
 xten0/src/jit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index ff21ee5..3b2f39d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -186,7 +186,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i8::MIN as isize) && (i8::MAX as isize) < value {
+                if value < (i8::MIN as isize) || (i8::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i8, value as i8) };
@@ -195,7 +195,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
@@ -204,7 +204,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // <AddressTableEntry> + A - P
                 let src = self.reloc_target_address_table_entry(reloc)? as *const u8;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
-- 
2.43.0


From 06fb7575db7ab41f400bb53d8dad0d042177f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 20/43] fix: xten0, xten1: JIT address-table references to
 local symbols were not resolved to them

---
 xten0/src/jit.rs               |  4 ++++
 xten0/src/jit/address_table.rs |  5 +++++
 xten1/jit.llrl                 | 14 ++++++++------
 xten1/jit/address-table.llrl   |  5 +++++
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 3b2f39d..2259f0d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -237,6 +237,10 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
         reloc: &'a Reloc,
     ) -> Result<*const *const u8, Error> {
         match reloc.target {
+            RelocTarget::Symbol(ref symbol) if self.local_symbols.contains_key(symbol.as_str()) => {
+                let ptr = self.local_symbols[symbol.as_str()];
+                Ok(self.address_table.put(ptr)?)
+            }
             RelocTarget::Symbol(ref symbol) => self
                 .address_table
                 .prepare(symbol, || self.symbol_table.resolve(symbol))?
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index 8129c76..a7a385d 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -16,6 +16,11 @@ impl AddressTable {
         }
     }
 
+    /// Add an entry that is not shared by symbol name.
+    pub fn put(&mut self, ptr: *const u8) -> Result<*const *const u8, Error> {
+        self.payload.put(ptr)
+    }
+
     pub fn prepare(
         &mut self,
         symbol: &str,
diff --git a/xten1/jit.llrl b/xten1/jit.llrl
index 2f64fe4..4af36e1 100644
--- a/xten1/jit.llrl
+++ b/xten1/jit.llrl
@@ -179,13 +179,15 @@
         (ok (locate (location: section 0) locator))])))
 
 (function (linker/reloc-target-address-table-entry! reloc linker) {(-> Reloc Linker (Result (Ptr (Ptr U8)) Error))}
-  (with1 (linker: (let st) (let at) _ _) linker
+  (with1 (linker: (let st) (let at) _ (let local-symbols)) linker
     (match (reloc/target reloc)
       [(reloc-target:symbol (let symbol))
-        (if-match1
-          (some (let ptr))
-          (result/map-err conv (address-table/prepare! symbol [^0 (symbol-table/resolve? symbol st)] at))!
-          (ok ptr)
-          (err (error:undefined-symbol symbol)))]
+        (if-match1 (some (let ptr)) (hash-map/get? symbol local-symbols)
+          (result/map-err conv (address-table/put! ptr at))
+          (if-match1
+            (some (let ptr))
+            (result/map-err conv (address-table/prepare! symbol [^0 (symbol-table/resolve? symbol st)] at))!
+            (ok ptr)
+            (err (error:undefined-symbol symbol))))]
       [(reloc-target:section (let section))
         (err (error:unsupported-section-relocation (reloc/ty reloc)))])))
diff --git a/xten1/jit/address-table.llrl b/xten1/jit/address-table.llrl
index 6082ce2..fb55579 100644
--- a/xten1/jit/address-table.llrl
+++ b/xten1/jit/address-table.llrl
@@ -14,6 +14,11 @@
   (with1 (address-table: _ (let payload)) at
     (result/map-err conv (table/dispose! payload))))
 
+; Add an entry that is not shared by symbol name.
+(function (address-table/put! ptr at) {(-> (Ptr U8) AddressTable (Result (Ptr (Ptr U8)) Error))}
+  (with1 (address-table: _ (let payload)) at
+    (result/map-err conv (table/put! ptr payload))))
+
 (function (address-table/prepare! symbol resolve-symbol? at)
   {(-> String (-> (Option (Ptr U8))) AddressTable (Result (Option (Ptr (Ptr U8))) Error))}
   (with1 (address-table: (let entries) (let payload)) at
-- 
2.43.0


From 78b57f01d21092a702fbc06f2a0e2c28713bc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 21/43] fix: llrl0: initialize the entry points in the order
 given

---
 llrl0/src/lowering.rs        | 24 +++++++++++++++---------
 llrl0/src/module/parallel.rs | 31 ++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/llrl0/src/lowering.rs b/llrl0/src/lowering.rs
index 9ab31a6..9fef627 100644
--- a/llrl0/src/lowering.rs
+++ b/llrl0/src/lowering.rs
@@ -57,8 +57,13 @@ impl<B: Backend> Lowerizer<B> {
 }
 
 impl<B: Backend> ModuleBackend for Lowerizer<B> {
-    fn add_module(&self, module: Arc<Module>, is_entry_point: bool) {
-        let request = Request::AddModule(module, is_entry_point);
+    fn add_module(&self, module: Arc<Module>) {
+        let request = Request::AddModule(module);
+        self.sender.send(request).unwrap();
+    }
+
+    fn add_entry_point(&self, id: ModuleId) {
+        let request = Request::AddEntryPoint(id);
         self.sender.send(request).unwrap();
     }
 
@@ -76,7 +81,8 @@ impl<B: Backend> ModuleBackend for Lowerizer<B> {
 
 #[derive(Debug)]
 enum Request {
-    AddModule(Arc<Module>, bool),
+    AddModule(Arc<Module>),
+    AddEntryPoint(ModuleId),
     ExecuteMacro(
         ast::NodeId<ast::Macro>,
         ir::Syntax<ir::Sexp>,
@@ -125,12 +131,12 @@ fn process_requests<B: Backend>(mut backend: B, receiver: Receiver<Request>) ->
     } {
         // Consume the received request
         Ok(request) => match request {
-            Request::AddModule(module, is_entry_point) => {
-                let mid = module.id();
-                modules.insert(mid, module);
-                if is_entry_point {
-                    main.enqueue(mid, &modules);
-                }
+            Request::AddModule(module) => {
+                modules.insert(module.id(), module);
+                true
+            }
+            Request::AddEntryPoint(mid) => {
+                main.enqueue(mid, &modules);
                 true
             }
             Request::ExecuteMacro(macro_id, s, response_sender) => {
diff --git a/llrl0/src/module/parallel.rs b/llrl0/src/module/parallel.rs
index 4b43fd1..765691f 100644
--- a/llrl0/src/module/parallel.rs
+++ b/llrl0/src/module/parallel.rs
@@ -6,7 +6,7 @@ use crate::source::Source;
 use either::*;
 use itertools::Itertools;
 use std::cell::RefCell;
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::{Arc, RwLock};
 use typed_arena::Arena;
@@ -14,7 +14,10 @@ use typed_arena::Arena;
 /// Compiler backend used by `build`.
 pub trait Backend: Sync {
     /// Add a built module. Built modules are added from this method without omission.
-    fn add_module(&self, module: Arc<Module>, is_entry_point: bool);
+    fn add_module(&self, module: Arc<Module>);
+
+    /// Specify that the module added with `add_module` is an entry point.
+    fn add_entry_point(&self, id: ModuleId);
 
     /// Execute the macro. The macro to be executed always resides in the module added with `add_module`.
     fn execute_macro(
@@ -25,7 +28,9 @@ pub trait Backend: Sync {
 }
 
 impl Backend for () {
-    fn add_module(&self, _module: Arc<Module>, _is_entry_point: bool) {}
+    fn add_module(&self, _module: Arc<Module>) {}
+
+    fn add_entry_point(&self, _id: ModuleId) {}
 
     fn execute_macro(
         &self,
@@ -41,7 +46,7 @@ impl Backend for () {
 /// Returns a set of modules that were successfully built and a set of sources and errors in case of build failure.
 pub fn build(
     sources: Vec<Source>,
-    entry_points: HashSet<Path>,
+    entry_points: Vec<Path>,
     backend: &impl Backend,
     report: &mut Report,
 ) -> (Vec<Arc<Module>>, Vec<(Source, Error)>) {
@@ -85,10 +90,19 @@ pub fn build(
     }
 
     report.on(Phase::BuildModule, || {
-        let context = BuildingContext::new(&modules, &path_to_module, &entry_points, backend);
+        let context = BuildingContext::new(&modules, &path_to_module, backend);
         rayon::scope(|scope| context.run(scope));
     });
 
+    // Entry points are initialized in the order given, not in the order their builds completed.
+    for path in entry_points.iter() {
+        if let Some(id) = path_to_module.get(path) {
+            if let Ok(module) = modules[id.as_index()].result.read().unwrap().as_ref() {
+                backend.add_entry_point(module.id());
+            }
+        }
+    }
+
     modules
         .into_iter()
         .partition_map(|module| match module.result.into_inner().unwrap() {
@@ -125,7 +139,6 @@ impl BuildingModule {
 struct BuildingContext<'a, B> {
     modules: &'a Vec<BuildingModule>,
     path_to_module: &'a HashMap<Path, ModuleId>,
-    entry_points: &'a HashSet<Path>,
     backend: &'a B,
 }
 
@@ -141,13 +154,11 @@ impl<'a, B: Backend> BuildingContext<'a, B> {
     fn new(
         modules: &'a Vec<BuildingModule>,
         path_to_module: &'a HashMap<Path, ModuleId>,
-        entry_points: &'a HashSet<Path>,
         backend: &'a B,
     ) -> Self {
         Self {
             modules,
             path_to_module,
-            entry_points,
             backend,
         }
     }
@@ -169,9 +180,7 @@ impl<'a, B: Backend> BuildingContext<'a, B> {
             match Module::build(module.mid, &module.source, &external) {
                 Ok(built_module) => {
                     let built_module = Arc::new(built_module);
-                    let is_entry_point = self.entry_points.contains(built_module.path());
-                    self.backend
-                        .add_module(Arc::clone(&built_module), is_entry_point);
+                    self.backend.add_module(Arc::clone(&built_module));
                     *module.result.write().unwrap() = Ok(built_module);
                     for id in module.followers.iter() {
                         self.release_dependency_one(&self.modules[id.as_index()], scope);
-- 
2.43.0


From 629edc0f9f30ee657b5058716311816c28ea8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 22/43] fix: llrl0: a program killed by a signal was reported
 as successful

---
 llrl0/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/main.rs b/llrl0/src/main.rs
index a7107a6..57df197 100644
--- a/llrl0/src/main.rs
+++ b/llrl0/src/main.rs
@@ -7,8 +7,8 @@ use std::process::{exit, ExitStatus};
 fn main() {
     match run_pipeline() {
         Ok(status) => {
-            if let Some(code) = status.and_then(|s| s.code()) {
-                exit(code);
+            if let Some(status) = status {
+                exit(status.code().unwrap_or(1));
             }
         }
         Err(e) => {
-- 
2.43.0


From 7437818d6f580723ed25c8aa702a103bcb09baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 23/43] fix: load modules whose names contain a dot (llrl0 and
 llrl1)

---
 llrl0/src/source/loader.rs | 5 ++++-
 llrl1/source/loader.llrl   | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/source/loader.rs b/llrl0/src/source/loader.rs
index fc8920c..15cf3b9 100644
--- a/llrl0/src/source/loader.rs
+++ b/llrl0/src/source/loader.rs
@@ -86,7 +86,10 @@ impl LoadablePackage {
                             }
                         }
                     }
-                    fs_path.set_extension(SOURCE_CODE_EXTENSION);
+                    // NOTE: `set_extension` would replace the part following a dot in the module name.
+                    let mut fs_path = fs_path.into_os_string();
+                    fs_path.push(".");
+                    fs_path.push(SOURCE_CODE_EXTENSION);
                     fs_path
                 };
 
diff --git a/llrl1/source/loader.llrl b/llrl1/source/loader.llrl
index 9b35e79..992b8f8 100644
--- a/llrl1/source/loader.llrl
+++ b/llrl1/source/loader.llrl
@@ -95,10 +95,13 @@
     [(loadable-package:file-system (let fs-path))
       (let* ([module-name (path/module path)]
              [fs-path
-               (io/path/with-extension (some source/source-file-extension)
+               ; NOTE: io/path/with-extension would replace the part following a dot in the module name.
+               (string
                  (if (path/module-name/prelude? module-name)
                    (io/path/join fs-path "prelude")
-                   (it/fold io/path/join fs-path (path/module-name/raw-parts module-name))))])
+                   (it/fold io/path/join fs-path (path/module-name/raw-parts module-name)))
+                 "."
+                 source/source-file-extension)])
         (match (io/with-file! fs-path "r" read-string-to-end!)
           [(ok (let text))
             (ok (source/from-code-text path locator text))]
-- 
2.43.0


From c5f36779dcc1407fcb3b756b663719cdf64f20ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 24/43] fix: llrl1: pass everything after -- to the program

---
 llrl1/main.llrl | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/llrl1/main.llrl b/llrl1/main.llrl
index d1162e7..bfc25a0 100644
--- a/llrl1/main.llrl
+++ b/llrl1/main.llrl
@@ -23,9 +23,11 @@
 
 (function (parse-args! it) {(-> (Iterator String) (Iterator Arg))}
   (if-match1 (some (let arg)) (iterator/next! it)
-    (let ([arg (parse-arg! arg it)]
-          [args (parse-args! it)])
-      (it/chain (iterator/only arg) args))
+    (if (eq? "--" arg)
+      (it/chain (iterator/only arg:double-slash) (it/map [^1 (arg: %1)] it)) ; the rest are passed to the program
+      (let ([arg (parse-arg! arg it)]
+            [args (parse-args! it)])
+        (it/chain (iterator/only arg) args)))
     iterator/empty))
 
 (function (parse-arg! arg it) {(-> String (Iterator String) Arg)}
@@ -53,8 +55,6 @@
       [(string/starts-with? $short arg)
         ($id (string/skip 2 arg))])
 
-    [(eq? "--" arg)
-      arg:double-slash]
     [(string/starts-with? "-" arg)
       (error! (string "Unknown option " arg))]
     [else
@@ -133,9 +133,7 @@
             (when (not (pipeline/register-package! name path pipeline))
               (error! (string "Failed to register package: " name))))]
         [arg:double-slash
-          (if-match1 (some (let run-args)) ~run-args
-            (vector/push! "--" run-args)
-            (set! run-args (some vector/empty)))]))
+          (set! run-args (some vector/empty))]))
 
     (when (and (is? none ~run-args) (or ~run? (is? none ~output)))
       (set! run-args (some vector/empty)))
-- 
2.43.0


From 956ebd90bd09bea13b65e60cb87fe8fc0e03fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 25/43] fix: xtencg: repeated opcode bytes were dropped, pminsb
 was encoded wrong

---
 xten0/src/asm/inst.rs            | 6 ++++--
 xten1/asm/inst.llrl              | 6 ++++--
 xtencg/src/instr/encoding.rs     | 6 +-----
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 9c994c7..32e8b52 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -14831,12 +14831,13 @@ pub struct Pminsb<Op0, Op1>(pub Op0, pub Op1);
 /// pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
@@ -14847,12 +14848,13 @@ impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
 /// pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Memory> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index 567046d..b993329 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -11814,13 +11814,14 @@
 ; pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Xmm (forall W Error) (WriteInst W Error (Pminsb Xmm Xmm)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
@@ -11829,13 +11830,14 @@
 ; pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Memory (forall W Error) (WriteInst W Error (Pminsb Xmm Memory)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
diff --git a/xtencg/src/instr/encoding.rs b/xtencg/src/instr/encoding.rs
index 0b297a0..36916cf 100644
--- a/xtencg/src/instr/encoding.rs
+++ b/xtencg/src/instr/encoding.rs
@@ -155,11 +155,7 @@ impl Encoding {
     }
 
     pub fn put_opcode_part(&mut self, byte: u8) -> Result<(), &'static str> {
-        if self.opcode().any(|b| b == byte) {
-            Ok(())
-        } else {
-            self.opcode.push(byte).map_err(|_| "Too much opcode")
-        }
+        self.opcode.push(byte).map_err(|_| "Too much opcode")
     }
 
     pub fn reg_in_opcode(&self) -> Option<Size> {
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index cdcdd9d..2ccd8e8 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -1673,7 +1673,7 @@
 # pminsb
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| pminsb xmm xmm/m128 | `66 0F 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
+| pminsb xmm xmm/m128 | `66 0F 38 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
 
 # pminsd
 | Instruction | Encoding | Description |
-- 
2.43.0


From 47e198a474b6b61c18dc1712d11fa2527af013fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 26/43] fix: xtencg: jecxz was encoded as jrcxz

---
 xten0/src/asm/inst.rs            | 3 ++-
 xten1/asm/inst.llrl              | 3 ++-
 xtencg/src/x86.csv               | 2 +-
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 32e8b52..257c5c5 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -9527,7 +9527,8 @@ pub struct Jecxz<Op0>(pub Op0);
 /// jecxz rel8: Jump short if ECX register is 0.
 impl<W: io::Write + ?Sized> WriteInst<W> for Jecxz<i8> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // E3 cb
+        // 67 E3 cb
+        put(w, 0x67)?;
         put(w, 0xE3)?;
         puts(w, self.0.to_le_bytes())?;
         Ok(())
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index b993329..32a8273 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -6783,9 +6783,10 @@
 ; jecxz rel8: Jump short if ECX register is 0.
 (instance WriteInst.Jecxz.I8 (forall W Error) (WriteInst W Error (Jecxz I8)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; E3 cb
+    ; 67 E3 cb
     (with1 (jecxz: (let op0)) inst
       (let ()
+        (write-u8! 103 w)!
         (write-u8! 227 w)!
         (write-bytes! (array/unsafe-temporary-bytearray op0) w)!
         (ok unit)))))
diff --git a/xtencg/src/x86.csv b/xtencg/src/x86.csv
index c3cf568..d71e754 100644
--- a/xtencg/src/x86.csv
+++ b/xtencg/src/x86.csv
@@ -839,7 +839,7 @@ REX.W+ CF 	IRETQ 	NP		???	???	???			V	NE		iretq		Interrupt return (64-bit operan
 76 cb 	JBE rel8 	D	R	E.CF E.ZF					V	V		jbe		Jump short if below or equal (CF=1 or ZF=1).
 72 cb 	JC rel8 	D	R	E.CF					V	V		jc		Jump short if carry (CF=1).
 E3 cb 	JCXZ rel8 								NE	V				Jump short if CX register is 0.
-E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
+67 E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
 E3 cb 	JRCXZ rel8 	D	R	RCX					V	NE		jrcxz		Jump short if RCX register is 0.
 74 cb 	JE rel8 	D	R	E.ZF					V	V		je		Jump short if equal (ZF=1).
 7F cb 	JG rel8 	D	R	E.ZF E.SF E.OF					V	V		jg		Jump short if greater (ZF=0 and SF=OF).
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index 2ccd8e8..c555448 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -813,7 +813,7 @@
 # jecxz
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| jecxz rel8 | `E3 cb [c=0]` | Jump short if ECX register is 0. |
+| jecxz rel8 | `67 E3 cb [c=0]` | Jump short if ECX register is 0. |
 
 # jg
 | Instruction | Encoding | Description |
-- 
2.43.0


From 4bbe4f9be9f0241d42e7c59e0c61b47f688a41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 27/43] fix: rt: a failed execution flushed the parent's
 buffered output twice

---
 rt/rt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 41424ef..88e796d 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -141,7 +141,7 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
     char buf[4];
     *(int32_t *)buf = errno;
     write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    _exit(1); // `exit` would flush the stdio buffers of the parent
   }
 
   // fork parent
@@ -205,7 +205,7 @@ rt_process llrt_execute_process(const char *name, char *const argv[]) {
     char buf[4];
     *(int32_t *)buf = errno;
     write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    _exit(1); // `exit` would flush the stdio buffers of the parent
   }
 
   // fork parent
-- 
2.43.0


From 7f9f62f39f2c4a67eb2e0e4d76ecc6842eed25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 28/43] fix: rt: failures to open pipes were ignored when
 executing processes

---
 rt/rt.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 88e796d..67689fe 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -96,6 +96,20 @@ void llrt_exit(int32_t exitcode) {
   exit(exitcode);
 }
 
+// Returns 0 with all pipes opened, or errno with all pipes closed.
+static int llrt_open_pipes(size_t n, int (*const pipes[])[2]) {
+  for (size_t i = 0; i < n; ++i) {
+    if (pipe2(*pipes[i], O_CLOEXEC) == 0) continue;
+    int err = errno;
+    while (i-- > 0) {
+      close((*pipes[i])[0]);
+      close((*pipes[i])[1]);
+    }
+    return err;
+  }
+  return 0;
+}
+
 rt_process llrt_spawn_process(const char *name, char *const argv[]) {
   rt_process ret;
   int init[2]; // used to notify an execvp error
@@ -103,11 +117,8 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
   int cout[2];
   int cerr[2];
 
-  // TODO: Handle pipe error
-  pipe2(init, O_CLOEXEC);
-  pipe2(cin, O_CLOEXEC);
-  pipe2(cout, O_CLOEXEC);
-  pipe2(cerr, O_CLOEXEC);
+  ret.err = llrt_open_pipes(4, (int (*[])[2]){&init, &cin, &cout, &cerr});
+  if (ret.err != 0) return ret;
 
   pid_t pid = fork();
 
@@ -179,8 +190,8 @@ rt_process llrt_execute_process(const char *name, char *const argv[]) {
   rt_process ret;
   int init[2]; // used to notify an execvp error
 
-  // TODO: Handle pipe error
-  pipe2(init, O_CLOEXEC);
+  ret.err = llrt_open_pipes(1, (int (*[])[2]){&init});
+  if (ret.err != 0) return ret;
 
   pid_t pid = fork();
 
-- 
2.43.0


From cec3543998b7f677ad948ff119d1604b19cc326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 29/43] fix: rt: a process that could not be executed was left
 as a zombie

---
 rt/rt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt/rt.c b/rt/rt.c
index 67689fe..9373f6a 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -165,6 +165,7 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
   if (read(init[0], buf, 4) != 0) {
     // execvp failed
     ret.err = *(int32_t *)buf;
+    waitpid(pid, NULL, 0);
     close(init[0]);
     close(cin[1]);
     close(cout[0]);
@@ -226,6 +227,7 @@ rt_process llrt_execute_process(const char *name, char *const argv[]) {
   if (read(init[0], buf, 4) != 0) {
     // execvp failed
     ret.err = *(int32_t *)buf;
+    waitpid(pid, NULL, 0);
     close(init[0]);
     return ret;
   }
-- 
2.43.0


From c73d8261ba7f0d2256aa84b5802c90c2974aa3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 30/43] fix: std: remove-all! removed the contents of
 directories behind symbolic links

---
 std/io.llrl | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/std/io.llrl b/std/io.llrl
index 2d13321..bc64a48 100644
--- a/std/io.llrl
+++ b/std/io.llrl
@@ -2,6 +2,8 @@
 
 (import "std/prelude/stage-1" _)
 (import "std/iterator" _)
+(import "std/integer" _.I64)
+(import "std/array" array/ptr array/unsafe-stackalloc-uninitialized)
 (import "std/memory" Ptr)
 (import "std/string" string/c-compatible-ptr)
 (import "std/string-writer" string-writer)
@@ -72,16 +74,24 @@
     [_ (err (io-error/from-current-errno))]))
 
 ; Remove the all files and directories recursively.
+; Symbolic links are removed themselves, not the files and directories they refer to.
 (function (remove-all! pathname) {(-> String (Result unit IoError))}
-  (when-match1 (ok (let handle)) (directory/open! pathname)
-    @let1 result (remove-directory-contents! pathname handle)
-    (ignore (directory/close! handle))
-    result !)
+  (when (not (symbolic-link? pathname))
+    (when-match1 (ok (let handle)) (directory/open! pathname)
+      @let1 result (remove-directory-contents! pathname handle)
+      (ignore (directory/close! handle))
+      result !))
   (remove! pathname))
 
+(function (symbolic-link? pathname) {(-> String Bool)}
+  @let1 buf (array/unsafe-stackalloc-uninitialized 1)
+  (<= 0 (<readlink> (string/c-compatible-ptr pathname) (array/ptr buf) 1)))
+
 (function (remove-directory-contents! pathname handle) {(-> String Directory (Result unit IoError))}
   (for (let entry) (directory/entries! handle)
     (remove-all! (path pathname entry))!)
   (ok unit))
 
 (c-function <remove> {(-> (Ptr U8) I32)} "remove")
+
+(c-function <readlink> {(-> (Ptr U8) (Ptr U8) U64 I64)} "readlink")
-- 
2.43.0


From 5897854f431be3556bed8e18a5f25e0b1d7225e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 31/43] fix: std: the root directory was canonicalized to an
 empty path

---
 std/io/path.llrl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 204eaf2..8c011dd 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -133,7 +133,9 @@
     buf)
 
 (function (canonicalize/complete buf) {(-> (Vector String) String)}
-  (string/join "/" (it/chain (iterator/only "") buf)))
+  (if (vector/empty? buf)
+    "/"
+    (string/join "/" (it/chain (iterator/only "") buf))))
 
 (function (path/join p q) {(-> String String String)}
   (cond
-- 
2.43.0


From 4707b9fb5edfdba00667886ab117c1716f876b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 32/43] fix: std: joining a relative path to an empty path made
 it absolute

---
 std/io/path.llrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 8c011dd..9f3f67f 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -140,6 +140,7 @@
 (function (path/join p q) {(-> String String String)}
   (cond
     [(path/absolute? q) q]
+    [(string/empty? p) q]
     [(= p "/") (string p q)]
     [else (string (string/take (last-component-end p) p) #\/ q)]))
 
-- 
2.43.0


From 5bc0f9b1476e988360f6c0e90e7d3e263f7e7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 33/43] fix: llrl1: closing parentheses were displayed as
 opening ones in parse errors

---
 llrl1/sexp/token.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl1/sexp/token.llrl b/llrl1/sexp/token.llrl
index 9c1956e..d84c553 100644
--- a/llrl1/sexp/token.llrl
+++ b/llrl1/sexp/token.llrl
@@ -74,7 +74,7 @@
       [token-rep:? (display! w "?")]
       [token-rep:! (display! w "!")]
       [token-rep:l-paren (display! w "(")]
-      [token-rep:r-paren (display! w "(")]
+      [token-rep:r-paren (display! w ")")]
       [token-rep:l-brack (display! w "[")]
       [token-rep:r-brack (display! w "]")]
       [token-rep:l-brace (display! w "{")]
-- 
2.43.0


From 92532b286adc86bca4299b89de4443daca142583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 34/43] fix: std: floating point numbers in syntax were
 displayed as integers

---
 std/s-display.llrl | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/std/s-display.llrl b/std/s-display.llrl
index 9fb475c..1a4bdc4 100644
--- a/std/s-display.llrl
+++ b/std/s-display.llrl
@@ -6,7 +6,8 @@
 (import "std/result" result/ok?)
 (import "std/float" Display.F64)
 (import "std/char" DebugDisplay.Char)
-(import "std/string" DebugDisplay.String)
+(import "std/string" string string/find? DebugDisplay.String)
+(import "std/text" _.Text)
 (export _.SyntaxSexp)
 
 (instance DebugDisplay.SyntaxSexp (DebugDisplay (Syntax Sexp))
@@ -21,7 +22,11 @@
           (display! w (conv-to I64 value))
           (display! w value))]
       [(s:fpnumber (let value))
-        (display! w value)]
+        @let1 text (string value)
+        (display! w text)!
+        (if (integer-notation? text)
+          (display! w ".0")
+          (ok unit))]
       [(s:bool (let value))
         (display! w value)]
       [(s:symbol (let value))
@@ -41,6 +46,12 @@
       [(s:use _)
         (display! w "<use>")])))
 
+; A floating point number must not be read as an integer.
+(function (integer-notation? text) {(-> String Bool)}
+  (match (: (string/find? "." text) (string/find? "e" text) (string/find? "n" text))
+    [(: none none none) #t]
+    [_ #f]))
+
 (value-data Tail
   (tail: (Syntax Sexp)))
 
-- 
2.43.0


From b605caaa8bf751bb2172e7405ef2b7e40aab4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 35/43] fix: std: suffixes of prefixed or suffixed syntax were
 displayed ambiguously

---
 std/s-display.llrl | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/std/s-display.llrl b/std/s-display.llrl
index 1a4bdc4..af11ba2 100644
--- a/std/s-display.llrl
+++ b/std/s-display.llrl
@@ -91,14 +91,32 @@
     [(s:list (s:symbol "capture") (let s))
       (some (ss:capture s))]
     [(s:list (s:symbol "try?") (let s (s:cons _ _)))
-      (some (ss:try? s))]
+      (if (or (prefixed? s) (suffixed? s)) none (some (ss:try? s)))]
     [(s:list (s:symbol "try!") (let s (s:cons _ _)))
-      (some (ss:try! s))]
+      (if (or (prefixed? s) (suffixed? s)) none (some (ss:try! s)))]
     [(s:cons (s:symbol "annotate") (s:cons (let s) (let ss)))
-      (some (ss:annotate s ss))]
+      (if (prefixed? s) none (some (ss:annotate s ss)))]
     [_
       none]))
 
+; Suffixes of a prefixed form are read as suffixes of what follows the prefix.
+(function (prefixed? s) {(-> (Syntax Sexp) Bool)}
+  (match (syntax-sugar/from-s s)
+    [(some (ss:quote _)) #t]
+    [(some (ss:quasiquote _)) #t]
+    [(some (ss:unquote _)) #t]
+    [(some (ss:unquote-splicing _)) #t]
+    [(some (ss:load _)) #t]
+    [(some (ss:capture _)) #t]
+    [_ #f]))
+
+; Consecutive ? and ! are read as one symbol.
+(function (suffixed? s) {(-> (Syntax Sexp) Bool)}
+  (match (syntax-sugar/from-s s)
+    [(some (ss:try? _)) #t]
+    [(some (ss:try! _)) #t]
+    [_ #f]))
+
 (instance Display.SyntaxSugar (Display SyntaxSugar)
   (function (display! w a)
     (match a
-- 
2.43.0


From 95819cd39d12db00ec09b486e0c102a715392944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 36/43] fix: rt: subnormal floating point numbers were refused

---
 rt/rt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 9373f6a..46486a6 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -424,7 +424,7 @@ to_f32 llrt_string_to_f32(rt_string s) {
   errno = 0;
   char *end = NULL;
   float value = strtof(buf, &end);
-  if (errno != 0 || end != buf + s.len) return (to_f32){.success = 0};
+  if ((errno != 0 && isinf(value)) || end != buf + s.len) return (to_f32){.success = 0};
   return (to_f32){.success = 1, .value = value};
 }
 
@@ -441,7 +441,7 @@ to_f64 llrt_string_to_f64(rt_string s) {
   errno = 0;
   char *end = NULL;
   double value = strtod(buf, &end);
-  if (errno != 0 || end != buf + s.len) return (to_f64){.success = 0};
+  if ((errno != 0 && isinf(value)) || end != buf + s.len) return (to_f64){.success = 0};
   return (to_f64){.success = 1, .value = value};
 }
 
-- 
2.43.0


From 67815af48b8c3cd734164b05a55a5e41ae8c2d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 37/43] fix: rt: 00.5 was refused and -0x2 accepted as an F64

---
 rt/rt.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 46486a6..2882682 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -430,11 +430,8 @@ to_f32 llrt_string_to_f32(rt_string s) {
 
 to_f64 llrt_string_to_f64(rt_string s) {
   if (s.len == 0 || 64 <= s.len) return (to_f64){.success = 0};
-  if (s.len >= 2 &&
-      s.ptr[0] == '0' &&
-      (('0' <= s.ptr[1] && s.ptr[1] <= '9') || s.ptr[1] == 'x' || s.ptr[1] == 'X')) {
-    return (to_f64){.success = 0};
-  }
+  // Hexadecimal numbers are not supported
+  if (memchr(s.ptr, 'x', s.len) || memchr(s.ptr, 'X', s.len)) return (to_f64){.success = 0};
   char buf[64];
   memcpy(buf, s.ptr, s.len);
   buf[s.len] = 0; // NULL-terminated
-- 
2.43.0


From 8c8f36b9ad40b0607c6639fa68402ff101af7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 38/43] fix: llrl1: integers with a plus sign were read as
 floating point numbers

---
 llrl1/sexp/lexer.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl1/sexp/lexer.llrl b/llrl1/sexp/lexer.llrl
index 2cbae66..99e6a88 100644
--- a/llrl1/sexp/lexer.llrl
+++ b/llrl1/sexp/lexer.llrl
@@ -20,7 +20,7 @@
     [when (eat-id! eat)
       (produce!*
         (lambda (s) (cond
-          [when-match1 (some (let num)) (integer/from-string? 10 s)
+          [when-match1 (some (let num)) (integer/from-string? 10 (if (string/starts-with? "+" s) (string/skip 1 s) s))
             (:unsigned num)]
           [when-match1 (some (let num)) (integer/from-string? 10 s)
             (:signed num)]
-- 
2.43.0


From d418e0c5f8ba67b6813284392cd0f811c2f67765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 39/43] fix: preprocessor: a variable bound twice by one
 directive stayed bound after it

---
 llrl0/src/preprocess.rs | 3 ++-
 llrl1/preprocess.llrl   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/preprocess.rs b/llrl0/src/preprocess.rs
index 0a1b202..211c55d 100644
--- a/llrl0/src/preprocess.rs
+++ b/llrl0/src/preprocess.rs
@@ -331,7 +331,8 @@ impl<'a> State<'a> {
 
         let result = f(self);
 
-        for (name, prev_expr) in prev_binds {
+        // In reverse order, since the same name may be bound more than once
+        for (name, prev_expr) in prev_binds.into_iter().rev() {
             if let Some(prev_expr) = prev_expr {
                 self.vars.insert(name, prev_expr);
             } else {
diff --git a/llrl1/preprocess.llrl b/llrl1/preprocess.llrl
index 457e32f..39a0cfe 100644
--- a/llrl1/preprocess.llrl
+++ b/llrl1/preprocess.llrl
@@ -204,7 +204,8 @@
         (it/map @case1 (: (let name) (let expr)) (: name (hash-map/insert! name expr vars)))
         collect)
   @let1 result (f)
-  (for (: (let name) (let prev-expr)) prev-binds
+  ; In reverse order, since the same name may be bound more than once
+  (for (: (let name) (let prev-expr)) (rev-iterate prev-binds)
     (if-match1 (some (let prev-expr)) prev-expr
       (hash-map/insert! name prev-expr vars)
       (hash-map/remove! name vars)))
-- 
2.43.0


From f6d5d17371500e43bfd2353766d94bf6b3782a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 40/43] fix: llrl1: preprocessor errors about disallowed
 expansions said 'Undefined disallowed'

---
 llrl1/preprocess/error.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl1/preprocess/error.llrl b/llrl1/preprocess/error.llrl
index 8009c71..a5e4d81 100644
--- a/llrl1/preprocess/error.llrl
+++ b/llrl1/preprocess/error.llrl
@@ -15,7 +15,7 @@
       [(error:undefined-meta-variable (let loc) (let name))
         (display-all! w (contextual: loc ctx) ": Undefined meta variable: " name)]
       [(error:expansion-disallowed (let loc) (let place))
-        (display-all! w (contextual: loc ctx) ": Undefined disallowed at " place)]
+        (display-all! w (contextual: loc ctx) ": Expansion disallowed at " place)]
       [(error:directive-syntax (let loc) (let expected))
         (display-all! w (contextual: loc ctx) ": Directive syntax error: expected " expected)]
       [(error:empty-symbol (let loc))
-- 
2.43.0


From 06363adf3ed9775970acbc48ed353b6119df00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 41/43] fix: LLVM backend: small structures returned by C
 functions were read a register per field instead of per eightbyte

---
 llrl0/src/backend/llvm/artifact.rs | 28 ++++++++++++++--
 llrl0/src/backend/llvm/codegen.rs  | 14 ++++++--
 llrl1/backend/llvm/artifact.llrl   | 10 +++---
 llrl1/backend/llvm/codegen.llrl    | 54 +++++++++++++++++++++++-------
 4 files changed, 84 insertions(+), 22 deletions(-)

diff --git a/llrl0/src/backend/llvm/artifact.rs b/llrl0/src/backend/llvm/artifact.rs
index ffd9e22..a42adf4 100644
--- a/llrl0/src/backend/llvm/artifact.rs
+++ b/llrl0/src/backend/llvm/artifact.rs
@@ -1,6 +1,6 @@
 use super::codegen;
 use super::runtime;
-use crate::backend::native::mem_layout::LayoutResolver;
+use crate::backend::native::mem_layout::{Class, LayoutResolver};
 use crate::lowering::ir::*;
 use derive_new::new;
 use llvm::prelude::*;
@@ -124,10 +124,10 @@ impl<'ctx> ContextArtifact<'ctx> {
     pub fn c_function_signature(
         &self,
         args: &[LLVMValue<'ctx, '_>],
-        ret: &Ct,
+        ret_ty: &Ct,
     ) -> CFunctionSignature<'ctx> {
         let mut params = args.iter().map(|a| a.get_type()).collect::<Vec<_>>();
-        let mut ret = match ret {
+        let mut ret = match ret_ty {
             Ct::Unit => llvm_type!(*self, void).as_type(),
             ty => self.llvm_type(ty),
         };
@@ -142,9 +142,30 @@ impl<'ctx> ContextArtifact<'ctx> {
                 false
             };
 
+        // Small structures are returned in a register per eightbyte, not per field.
+        let return_by_eightbytes = match ret_ty {
+            Ct::Id(_) if !return_by_pointer_store => {
+                let eightbytes = self
+                    .layout_resolver
+                    .get(ret_ty)
+                    .eightbytes()
+                    .map(|e| match (e.class, e.size) {
+                        (Class::FloatingPoint, 4) => llvm_type!(*self, float).as_type(),
+                        (Class::FloatingPoint, _) => llvm_type!(*self, double).as_type(),
+                        _ => llvm_type!(*self, i64).as_type(),
+                    })
+                    .collect::<Vec<_>>();
+                let struct_ty = ret;
+                ret = llvm_type!(*self, (struct ...{ eightbytes })).as_type();
+                Some(struct_ty)
+            }
+            _ => None,
+        };
+
         CFunctionSignature::new(
             llvm_type!(*self, (function(...{ params }) { ret })),
             return_by_pointer_store,
+            return_by_eightbytes,
         )
     }
 }
@@ -191,6 +212,7 @@ impl<'ctx> FunctionSymbol<'ctx> {
 pub struct CFunctionSignature<'ctx> {
     pub ty: LLVMFunctionType<'ctx>,
     pub return_by_pointer_store: bool,
+    pub return_by_eightbytes: Option<LLVMType<'ctx>>,
 }
 
 macro_rules! get_intrinsic_function {
diff --git a/llrl0/src/backend/llvm/codegen.rs b/llrl0/src/backend/llvm/codegen.rs
index 68aafe9..d75ed66 100644
--- a/llrl0/src/backend/llvm/codegen.rs
+++ b/llrl0/src/backend/llvm/codegen.rs
@@ -13,8 +13,9 @@ pub fn c_main_adapter<'ctx: 'm, 'm>(
     let c_main_ty = llvm_type!(*module, (function(i32 (ptr (ptr u8))) i32));
     let c_main = module.module().add_function("main", c_main_ty);
     let llrt_init_ty = llvm_type!(*module, (function(i32 (ptr (ptr u8))) void));
-    let llrt_init =
-        module.capture_c_function("llrt_init", || CFunctionSignature::new(llrt_init_ty, false));
+    let llrt_init = module.capture_c_function("llrt_init", || {
+        CFunctionSignature::new(llrt_init_ty, false, None)
+    });
     let entry_bb = c_main.append_block("entry");
     let builder = LLVMBuilder::new(entry_bb);
     builder.build_call(llrt_init.value, &c_main.params());
@@ -527,7 +528,14 @@ impl<'a, 'ctx: 'm, 'm> Codegen<'a, 'ctx, 'm> {
             self.builder.build_load(ret_ptr)
         } else {
             let ret = self.builder.build_call(value, args);
-            if ret.get_type().is_sized() {
+            if let Some(ty) = sig.return_by_eightbytes {
+                let ptr = self.builder.build_entry_alloca("rettmp", ret.get_type());
+                self.builder.build_store(ret, ptr);
+                let ptr = self
+                    .builder
+                    .build_bit_cast(ptr, llvm_type!(*self.ctx, (ptr { ty })));
+                self.builder.build_load(ptr)
+            } else if ret.get_type().is_sized() {
                 ret
             } else {
                 self.llvm_constant(&Const::Unit).as_value()
diff --git a/llrl1/backend/llvm/artifact.llrl b/llrl1/backend/llvm/artifact.llrl
index 2093136..08229ec 100644
--- a/llrl1/backend/llvm/artifact.llrl
+++ b/llrl1/backend/llvm/artifact.llrl
@@ -25,7 +25,8 @@
   (function (conv a) (context-artifact/llvm-context a)))
 
 (instance TypeEnv.ContextArtifact (TypeEnv ContextArtifact)
-  (function (type-env/get-type? id ca) (ord-map/get? id (llvm-types ca))))
+  (function (type-env/get-type? id ca) (ord-map/get? id (llvm-types ca)))
+  (function (type-env/get-layout ty ca) (layout-resolver/get ty (layout-resolver ca))))
 
 (getter context-artifact:
   context-artifact/llvm-context
@@ -107,11 +108,12 @@
   (function (conv a) (module-artifact/llvm-module a)))
 
 (instance TypeEnv.ModuleArtifact (TypeEnv ModuleArtifact)
-  (function (type-env/get-type? id ma) (type-env/get-type? id (module-artifact/parent ma))))
+  (function (type-env/get-type? id ma) (type-env/get-type? id (module-artifact/parent ma)))
+  (function (type-env/get-layout ty ma) (type-env/get-layout ty (module-artifact/parent ma))))
 
 (instance RuntimeBuildEnv.ModuleArtifact (RuntimeBuildEnv ModuleArtifact)
   (function (runtime-build-env/capture-runtime-function! name ty ma)
-    (let1 a (module-artifact/capture-raw-function! name [^0 (c-function-signature: (ty) #f)] ma)
+    (let1 a (module-artifact/capture-raw-function! name [^0 (c-function-signature: (ty) #f none)] ma)
       (raw-function-artifact/value a))))
 
 (instance BuildEnv.ModuleArtifact (BuildEnv ModuleArtifact)
@@ -123,7 +125,7 @@
       (: (raw-function-artifact/value a) (raw-function-artifact/sig a))))
 
   (function (build-env/capture-intrinsic-function! name ty ma)
-    (let1 a (module-artifact/capture-raw-function! name [^0 (c-function-signature: (ty) #f)] ma)
+    (let1 a (module-artifact/capture-raw-function! name [^0 (c-function-signature: (ty) #f none)] ma)
       (raw-function-artifact/value a))))
 
 (getter module-artifact:
diff --git a/llrl1/backend/llvm/codegen.llrl b/llrl1/backend/llvm/codegen.llrl
index 6ff255b..a26c761 100644
--- a/llrl1/backend/llvm/codegen.llrl
+++ b/llrl1/backend/llvm/codegen.llrl
@@ -2,14 +2,15 @@
 (import "llvm" [llvm/_ _])
 (import "~/util" _)
 (import "~/lowering/ir" [ir/_ _])
-(import "~/backend/native/mem-layout" Layout layout:)
+(import "~/backend/native/mem-layout" Layout layout: Class _.Class layout/_ eightbyte: class:_)
 (import "~/backend/llvm/runtime" _)
 (export TypeEnv type-env/_ BuildEnv build-env/_)
 (export CFunctionSignature _.CFunctionSignature c-function-signature: c-function-signature/_)
 (export codegen/_)
 
 (class (TypeEnv E) (where (Conv E llvm/Context))
-  (function (type-env/get-type? id env) {(-> ir/CtId E (Option llvm/Type))}))
+  (function (type-env/get-type? id env) {(-> ir/CtId E (Option llvm/Type))})
+  (function (type-env/get-layout ty env) {(-> ir/Ct E Layout)}))
 
 (class (BuildEnv E) (where (TypeEnv E) (RuntimeBuildEnv E))
   (function (build-env/capture-function! id env) {(-> ir/CtId E llvm/Value)})
@@ -19,10 +20,12 @@
     {(-> String (-> llvm/Type) E llvm/Value)}))
 
 (derive (DebugDisplay) value-data CFunctionSignature
-  (c-function-signature: llvm/Type Bool))
+  (c-function-signature: llvm/Type Bool (Option llvm/Type)))
 
 (getter c-function-signature:
-  c-function-signature/type c-function-signature/return-by-pointer-store?)
+  c-function-signature/type
+  c-function-signature/return-by-pointer-store?
+  c-function-signature/return-by-eightbytes)
 
 (function (codegen/type env ty) {(forall E) (-> E ir/Ct llvm/Type) (where (TypeEnv E))}
   (let1 (rec ty) (codegen/type env ty)
@@ -71,16 +74,35 @@
       (llvm/type ctx (array (integer ,(conv (* align 8))) ,(conv (/ size align))))
       (llvm/type ctx (array i1 0)))))
 
-(function (codegen/c-function-signature env args ret)
+(function (codegen/c-function-signature env args ret-ty)
   {(forall E) (-> E (Array llvm/Value) ir/Ct CFunctionSignature) (where (TypeEnv E) (Conv E llvm/DataLayout))}
   (let* ([params (|> args (it/map llvm/value/type) collect)]
-         [ret (if-match1 ir/ct:unit ret (llvm/type (conv env) void) (codegen/type env ret))])
+         [ret (if-match1 ir/ct:unit ret-ty (llvm/type (conv env) void) (codegen/type env ret-ty))])
     ; TODO: This adjustment is not accurate. We need to follow the System V ABI.
     (if (and (llvm/type/sized? ret)
              (< (* 2 8) (llvm/data-layout/type-alloc-size (conv env) ret)))
       (let1 params (array/unshift (llvm/type (conv env) (pointer ,ret)) params)
-        (c-function-signature: (llvm/type (conv env) (-> ,@params void)) #t))
-      (c-function-signature: (llvm/type (conv env) (-> ,@params ,ret)) #f))))
+        (c-function-signature: (llvm/type (conv env) (-> ,@params void)) #t none))
+      (if-match1 (ir/ct:id _) ret-ty
+        ; Small structures are returned in a register per eightbyte, not per field.
+        (let1 eightbytes (llvm/type/struct (conv env) (codegen/eightbyte-types env ret-ty) #f)
+          (c-function-signature: (llvm/type (conv env) (-> ,@params ,eightbytes)) #f (some ret)))
+        (c-function-signature: (llvm/type (conv env) (-> ,@params ,ret)) #f none)))))
+
+(function (codegen/eightbyte-types env ty)
+  {(forall E) (-> E ir/Ct (Array llvm/Type)) (where (TypeEnv E))}
+  (|> (type-env/get-layout ty env)
+      layout/eightbytes
+      (it/map
+        (case1 (eightbyte: _ (let size) (let cls))
+          (cond
+            [(ne? cls class:floating-point)
+              (llvm/type (conv env) i64)]
+            [(eq? size 4)
+              (llvm/type (conv env) float)]
+            [else
+              (llvm/type (conv env) double)])))
+      collect))
 
 ($for
   [$name $symbol $ty] (
@@ -190,7 +212,9 @@
 
 (instance TypeEnv.BuildContext (forall E) (TypeEnv (BuildContext E)) (where (TypeEnv E))
   (function (type-env/get-type? id ctx)
-    (type-env/get-type? id (build-env ctx))))
+    (type-env/get-type? id (build-env ctx)))
+  (function (type-env/get-layout ty ctx)
+    (type-env/get-layout ty (build-env ctx))))
 
 (instance RuntimeBuildEnv.BuildContext (forall E) (RuntimeBuildEnv (BuildContext E)) (where (RuntimeBuildEnv E))
   (function (runtime-build-env/capture-runtime-function! name ty ctx)
@@ -577,9 +601,15 @@
       (llvm/build! (conv ctx) (call ,value ,@(array/unshift ret-ptr args)))
       (llvm/build! (conv ctx) (load ,ret-ptr)))
     (let1 ret (llvm/build! (conv ctx) (call ,value ,@args))
-      (if (|> ret llvm/value/type llvm/type/sized?)
-        ret
-        (codegen/const! ctx ir/const:unit)))))
+      (match (c-function-signature/return-by-eightbytes sig)
+        [(some (let ty))
+          (let1 ptr (llvm/build! (conv ctx) (entry-alloca "rettmp" ,(llvm/value/type ret)))
+            (llvm/build! (conv ctx) (store ,ret ,ptr))
+            (llvm/build! (conv ctx) (load (bit-cast ,ptr (pointer ,ty)))))]
+        [none
+          (if (|> ret llvm/value/type llvm/type/sized?)
+            ret
+            (codegen/const! ctx ir/const:unit))]))))
 
 (function (codegen/c-indirect-call! ctx addr sig args)
   {(forall E) (-> (BuildContext E) llvm/Value CFunctionSignature (Array llvm/Value) llvm/Value) (where (BuildEnv E))}
-- 
2.43.0


From 43b0c69ef70a64b4abb975ce0e395c35afeef5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 42/43] fix: xten1: ELF section header offset counted the size
 of .bss

---
 xten1/elf/format.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xten1/elf/format.llrl b/xten1/elf/format.llrl
index ea42bc2..538b933 100644
--- a/xten1/elf/format.llrl
+++ b/xten1/elf/format.llrl
@@ -381,7 +381,7 @@
     (let* ([sections (vector/consume-all! sections)]
            ; Section headers are placed after ELF header + Program header (0) + Sections, with alignment
            [shoff (+ elf/header-size
-                     (|> sections (it/map [^1 (section-body/size #f (section/body %1))]) it/sum))]
+                     (|> sections (it/map [^1 (section-body/size #t (section/body %1))]) it/sum))]
            [shalign (% (- 8 (% shoff 8)) 8)]
            [shoff (+ shoff shalign)]
            [shnum (|> sections array/length (conv-to U16))]
-- 
2.43.0


From fb24fb3c674f907b5192b823a8e93a2ff4b0d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 43/43] fix: xten: movq of an immediate to a label overwrote
 the immediate instead of the displacement

---
 xten0/src/asm/writer.rs | 10 +++++-----
 xten1/asm/writer.llrl   |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 93fece2..dae6b84 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -426,7 +426,7 @@ impl_conditional_jmp!(Js::js);
 impl_conditional_jmp!(Jz::jz);
 
 macro_rules! impl_movq_label_o {
-    ($o:tt) => {
+    ($o:tt, $disp_offset:expr) => {
         /// movq Label O
         impl<W> WriteInst<W> for super::inst::Movq<Label, $o>
         where
@@ -434,16 +434,16 @@ macro_rules! impl_movq_label_o {
         {
             fn write_inst(&self, w: &mut W) -> io::Result<()> {
                 w.movq(memory(Rip + 0i32), self.1)?;
-                w.use_relative(-4, self.0, -4, RelocType::PcRel32);
+                w.use_relative($disp_offset, self.0, $disp_offset, RelocType::PcRel32);
                 Ok(())
             }
         }
     };
 }
 
-impl_movq_label_o!(Gpr64);
-impl_movq_label_o!(Xmm);
-impl_movq_label_o!(i32);
+impl_movq_label_o!(Gpr64, -4);
+impl_movq_label_o!(Xmm, -4);
+impl_movq_label_o!(i32, -8); // disp32 is followed by imm32
 
 macro_rules! impl_movq_o_label {
     ($o:tt) => {
diff --git a/xten1/asm/writer.llrl b/xten1/asm/writer.llrl
index fd33fe5..2144cf8 100644
--- a/xten1/asm/writer.llrl
+++ b/xten1/asm/writer.llrl
@@ -305,14 +305,19 @@
         (.use-relative! w -1 label -1 reloc-type:pc-rel8)
         (ok unit)))))
 
-($for1 $O (Gpr64 Xmm I32)
+($for
+  [$O $disp-offset] (
+    [Gpr64 -4]
+    [Xmm -4]
+    [I32 -8]) ; disp32 is followed by imm32
+
   ; movq Label $O
   (instance ($symbol WriteInst.Section.Movq.Label. $O)
     (forall W Error) (WriteInst W Error (Movq Label $O)) (where (Write W Error) (Section W))
     (function (write-inst! w inst)
       (with1 (movq: (let label) (let o)) inst
         (write-inst! w (movq: (memory (+. rip 0 {I32})) o))!
-        (.use-relative! w -4 label -4 reloc-type:pc-rel32)
+        (.use-relative! w $disp-offset label $disp-offset reloc-type:pc-rel32)
         (ok unit)))))
 
 ($for1 $O (Gpr64 Xmm)
-- 
2.43.0

