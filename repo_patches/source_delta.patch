From f1e1dc82056936a77c344fe1269ab98da12a7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 01/29] hook: constructor of the generic sequence builder and
 signals of DefaultSequence under cfg(parcom_verif)

---
 .../src/default_runner/sequence.rs            | 19 +++++++++++++++++++
 crates/parcom-sequences/src/generic.rs        | 11 +++++++++++
 2 files changed, 30 insertions(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index bff0df4..5c33665 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -71,3 +71,22 @@ where
         DefaultSequenceAdvance::new(self, delta)
     }
 }
+
+// Verification hook (`--cfg parcom_verif`): nothing drives the loader yet, so a producer outside of
+// this crate needs the append signal and the completion flag.
+#[allow(unexpected_cfgs)]
+mod verif_hook {
+    #[cfg(parcom_verif)]
+    impl<S, B> super::DefaultSequence<S, B>
+    where
+        S: super::SequenceSource,
+        B: super::SequenceBuilder<S>,
+    {
+        pub fn verif_signals(&self) -> (super::Arc<super::Notify>, super::Arc<super::AtomicBool>) {
+            (
+                super::Arc::clone(&self.inner.append_signal),
+                super::Arc::clone(&self.inner.done_flag),
+            )
+        }
+    }
+}
diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index f927fc8..a1f1fea 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -32,3 +32,14 @@ impl<B: BufferStrategy, S: SequenceSource> SequenceBuilder<S> for GenericSequenc
         (buffer, loader)
     }
 }
+
+// Verification hook (`--cfg parcom_verif`): the builder has no public constructor yet.
+#[allow(unexpected_cfgs)]
+mod verif_hook {
+    #[cfg(parcom_verif)]
+    impl<B: super::BufferStrategy> super::GenericSequenceBuilder<B> {
+        pub fn verif_new(strategy: std::sync::Arc<B>) -> Self {
+            Self { strategy }
+        }
+    }
+}
-- 
2.43.0


From 1014fbf929584ea34bea66ba98738c5bcea49de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 02/29] fix: writer capacity is the room from the start of the
 request, not what is left of it

`BufferWriter::len` counts the items written by this request, so comparing it with the room still
left made `push_item` refuse items at half of the requested size, or write past the allocation.
---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 351fb59..d804f97 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -80,7 +80,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Error = E;
 
     fn capacity(&self) -> usize {
-        self.buf.capacity() - self.buf.len()
+        self.buf.capacity() - self.offset
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From ed946670b550f8b6fc9d4b60ee90a9edc696510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 03/29] fix: never allocate less than the writer was requested
 for

A strategy returning a smaller capacity made sources drop items and Utf8Validator write out of bounds.
---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index d804f97..7ce468b 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -39,7 +39,7 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
                 _phantom: PhantomData,
             }
         } else {
-            let cap = self.strategy.calc_capacity(min_size);
+            let cap = self.strategy.calc_capacity(min_size).max(min_size);
             let to_append = std::mem::replace(buf, Vec::with_capacity(cap));
             Request {
                 to_append,
-- 
2.43.0


From 4031cb2464541a2f9dc29ab4dd48b13d089eb026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 04/29] fix: a cancelled or abandoned load keeps the uncommited
 items

When a request had moved to a new buffer, cancelling it (or dropping the load) lost the previous
buffer; dropping the load also left half-written items in the buffer.
---
 .../parcom-sequences/src/generic/control.rs   | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 7ce468b..055a69a 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -36,6 +36,7 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
                 to_append: Vec::new(),
                 buf,
                 offset,
+                is_advanced: false,
                 _phantom: PhantomData,
             }
         } else {
@@ -45,6 +46,7 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
                 to_append,
                 buf,
                 offset: 0,
+                is_advanced: false,
                 _phantom: PhantomData,
             }
         }
@@ -70,6 +72,7 @@ pub struct Request<'a, T, E> {
     to_append: Vec<T>,
     buf: &'a mut Vec<T>,
     offset: usize,
+    is_advanced: bool,
     _phantom: PhantomData<fn() -> E>,
 }
 
@@ -99,7 +102,8 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
         self.buf.set_len(new_len + self.offset);
     }
 
-    fn advance(self) -> Self::Result {
+    fn advance(mut self) -> Self::Result {
+        self.is_advanced = true;
         if self.to_append.is_empty() {
             Response::Appended {
                 cap: self.buf.capacity(),
@@ -107,7 +111,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
             }
         } else {
             Response::Advance {
-                buf: self.to_append,
+                buf: std::mem::take(&mut self.to_append),
                 cap: self.buf.capacity(),
                 len: self.buf.len(),
             }
@@ -115,7 +119,20 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
-        self.buf.drain(self.offset..);
         Response::Cancel(err)
     }
 }
+
+impl<'a, T, E> Drop for Request<'a, T, E> {
+    /// Unless advanced, forget the items written by this request and put back the uncommited ones.
+    fn drop(&mut self) {
+        if self.is_advanced {
+            return;
+        }
+
+        self.buf.truncate(self.offset);
+        if !self.to_append.is_empty() {
+            *self.buf = std::mem::take(&mut self.to_append);
+        }
+    }
+}
-- 
2.43.0


From b641090583561590885d8e3fdd71cffe74a78077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 05/29] fix: Utf8Validator reports an invalid or unfinished
 sequence at the end of the source

Up to three trailing bytes were silently dropped.
---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 337c9bc..5461066 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -142,6 +142,14 @@ where
     }
 
     fn finish(self) -> Self::Result {
+        if self.buffered > 0 {
+            let res = self.control.cancel(Utf8ValidationError::InvalidSequence);
+            return Response {
+                inner: InnerResponse::Err { res },
+                _phantom: PhantomData,
+            };
+        }
+
         let res = self.control.finish();
         Response {
             inner: InnerResponse::Finish { res },
-- 
2.43.0


From b15b91e4ac33d0e1b908c743342349496110feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 06/29] fix: DefaultSequenceAdvance keeps the part of the delta
 that has not arrived yet

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index b2915aa..f8a0d69 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -59,6 +59,7 @@ where
             return Poll::Ready(DefaultSequence { inner: sequence });
         }
 
+        *this.remain = remain;
         cx.waker().wake_by_ref();
 
         Poll::Pending
-- 
2.43.0


From 04a4abc96e6ebdf74a1fd27823b8e6a38fa15b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 07/29] fix: read the completion flag before re-checking for
 data

Data appended together with the completion between the two checks was missed: segments ended early
and advance stopped short.
---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 4 +++-
 .../parcom-runners/src/default_runner/sequence/segments.rs   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index f8a0d69..3c31e48 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -47,10 +47,12 @@ where
         };
         this.fut.set(OptionFuture::some(fut));
 
+        // 終了の確認は`buffer.advance`の前に行う。後に行うと、その間に追加された末尾のセグメントを飛ばし損ねる。
+        let is_done = sequence.done_flag.load(Ordering::SeqCst);
         let remain = std::mem::replace(this.remain, Default::default());
         let remain = sequence.buffer.advance(remain);
 
-        if &remain == this.remain || sequence.done_flag.load(Ordering::SeqCst) {
+        if &remain == this.remain || is_done {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
             // `this.remain == Default::default()`であるため、`remain == Default::default()`つまり`remain`が0になっている。
diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 10374a8..46c015e 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -91,13 +91,16 @@ where
         let fut = this.host.append_signal.wait();
         // `this.host.iter.next()`が`None`を返したあと、`this.host.append_signal.wait()`を呼ぶ前に次のセグメントが追加されたか終了した場合のため、(1)・(2)のチェックをする。
 
+        // (1)の後に読むと、その間に追加された末尾のセグメントを読み落とす。
+        let is_done = this.host.done_flag.load(Ordering::SeqCst);
+
         // (1): セグメントが末尾に追加されたか。
         if let Some(seg) = this.host.iter.next() {
             return Poll::Ready(Some(seg));
         }
 
         // (2): シーケンスが終了したか。
-        if this.host.done_flag.load(Ordering::SeqCst) {
+        if is_done {
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From adc0c6f1e6734ae74b7ad3674a1f4e4029115f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 08/29] fix: rewinding never computes an offset between
 unrelated pointers

A foreign anchor was undefined behaviour and slices of zero-sized items always panicked.
---
 crates/parcom-core/src/primitive/slice.rs | 7 +++----
 crates/parcom-core/src/primitive/str.rs   | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index dac8954..7be861e 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -31,10 +31,9 @@ impl<T> RewindSequence for &[T] {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        // compare addresses; `offset_from` requires both to be in the same allocation (and sized items).
+        let anchor_range = anchor.me.as_ptr_range();
+        if (anchor_range.start..=anchor_range.end).contains(&self.as_ptr()) {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d326b55..70792dc 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -33,10 +33,9 @@ impl RewindSequence for &str {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        // compare addresses; `offset_from` requires both to be in the same allocation (and sized items).
+        let anchor_range = anchor.me.as_bytes().as_ptr_range();
+        if (anchor_range.start..=anchor_range.end).contains(&self.as_ptr()) {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
-- 
2.43.0


From 425836fd889567f58e2258cbc358d1b057b39c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 09/29] fix: advancing past the end leaves the empty remainder
 of the same input

Text became an unrelated empty string that no anchor of the input accepts any more, and slices panicked.
---
 crates/parcom-core/src/primitive/slice.rs | 3 ++-
 crates/parcom-core/src/primitive/str.rs   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index 7be861e..0f549e0 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -18,7 +18,8 @@ impl<'a, T> Sequence for &'a [T] {
     }
 
     fn advance(self, count: usize) -> Self::Advance {
-        std::future::ready(&self[count..])
+        let rest = self.get(count..).unwrap_or(&self[self.len()..]);
+        std::future::ready(rest)
     }
 }
 
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 70792dc..25a6812 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -19,7 +19,7 @@ impl<'a> Sequence for &'a str {
 
     fn advance(self, delta: BytesDelta) -> Self::Advance {
         let delta = delta.to_bytes();
-        let rest = self.get(delta..).unwrap_or("");
+        let rest = self.get(delta..).unwrap_or(&self[self.len()..]);
         std::future::ready(rest)
     }
 }
-- 
2.43.0


From 6d167a75400afea1182a791d0cc35260ee4a3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 10/29] fix: atom does not split text inside a character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`atom("a")` panicked on "é", and `atom("é")` on "a".
---
 crates/parcom-core/src/primitive/str.rs     |  4 ++++
 crates/parcom-core/src/sequence/segment.rs  |  5 +++++
 crates/parcom-parsers/src/primitive/atom.rs | 18 +++++++++---------
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 25a6812..8b5c443 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -138,4 +138,8 @@ impl SequenceSegment for str {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         str::split_at(&self, mid.0)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        str::split_at_checked(self, mid.0)
+    }
 }
diff --git a/crates/parcom-core/src/sequence/segment.rs b/crates/parcom-core/src/sequence/segment.rs
index df41402..a8502b2 100644
--- a/crates/parcom-core/src/sequence/segment.rs
+++ b/crates/parcom-core/src/sequence/segment.rs
@@ -3,4 +3,9 @@ pub trait SequenceSegment {
 
     fn len(&self) -> Self::Length;
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self);
+
+    /// `None` if the segment cannot be split at `mid`.
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        (mid <= self.len()).then(|| self.split_at(mid))
+    }
 }
diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 020e87a..f289523 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -39,8 +39,9 @@ where
 
         while let Some(segment) = segments.next(remain.len()).await {
             if segment.len() >= remain.len() {
-                let s = segment.split_at(remain.len()).0;
-                let matched = s == remain;
+                let matched = segment
+                    .split_at_checked(remain.len())
+                    .is_some_and(|(s, _)| s == remain);
                 drop(segments);
                 return if matched {
                     done((), input.advance(remain.len()).await)
@@ -49,14 +50,13 @@ where
                 };
             }
 
-            let (p, r) = remain.split_at(segment.len());
-
-            if &*segment != p {
-                drop(segments);
-                return fail(Miss(()), input);
+            match remain.split_at_checked(segment.len()) {
+                Some((p, r)) if segment == p => remain = r,
+                _ => {
+                    drop(segments);
+                    return fail(Miss(()), input);
+                }
             }
-
-            remain = r;
         }
 
         drop(segments);
-- 
2.43.0


From 9b23164589cac65394a8e3d23bbe624f413e9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 11/29] fix: the empty atom matches without reading a segment

It missed on a sequence without any segment, and waited for data it does not need.
---
 crates/parcom-parsers/src/primitive/atom.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index f289523..53a2a13 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -35,6 +35,10 @@ where
 {
     async fn parse(&self, mut input: S) -> ParserResult<S, Self> {
         let mut remain = self.pattern.pattern();
+        if remain.len() == Default::default() {
+            return done((), input);
+        }
+
         let mut segments = input.segments();
 
         while let Some(segment) = segments.next(remain.len()).await {
-- 
2.43.0


From a154eadd92df084a85b42e770ed7e1d02f9f6b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 12/29] fix: compare precedences without computing the next one

A left associative operator of precedence usize::MAX overflowed.
---
 crates/parcom-parsers/src/combinator/bin_expr.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/parcom-parsers/src/combinator/bin_expr.rs b/crates/parcom-parsers/src/combinator/bin_expr.rs
index 5e5f015..197e49e 100644
--- a/crates/parcom-parsers/src/combinator/bin_expr.rs
+++ b/crates/parcom-parsers/src/combinator/bin_expr.rs
@@ -130,8 +130,11 @@ where
                     rhs = term;
                     break;
                 };
-                let prec = next_precedence(&last_op);
-                if op.precedence() >= prec {
+                let is_tighter = match last_op.associativity() {
+                    Associativity::Left => op.precedence() > last_op.precedence(),
+                    Associativity::Right => op.precedence() >= last_op.precedence(),
+                };
+                if is_tighter {
                     // ひとつ前の演算子より優先度が高い．
                     stack.push((lhs, last_op));
                     stack.push((rhs, op));
@@ -151,12 +154,6 @@ where
         done((rhs, reason), rest)
     }
 }
-fn next_precedence<T: Operator>(op: &T) -> usize {
-    match op.associativity() {
-        Associativity::Left => op.precedence() + 1,
-        Associativity::Right => op.precedence(),
-    }
-}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From ac492916af86361428f5e47a7307b37fa3acbb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 13/29] fix: ShortVec does not write through a pointer derived
 from a shared reference

That is undefined behaviour (reported by Miri).
---
 crates/parcom-internals/src/shortvec.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 1a23c94..fd2e5ae 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -64,6 +64,14 @@ impl<T, const N: usize> ShortVec<T, N> {
         }
     }
 
+    fn as_mut_ptr(&mut self) -> *mut T {
+        if self.is_heap() {
+            unsafe { self.data.heap.as_ptr() }
+        } else {
+            unsafe { (*self.data.stack).as_mut_ptr() as *mut T }
+        }
+    }
+
     pub fn as_slice(&self) -> &[T] {
         if self.is_heap() {
             unsafe { NonNull::slice_from_raw_parts(*self.data.heap, self.len).as_ref() }
@@ -87,7 +95,7 @@ impl<T, const N: usize> ShortVec<T, N> {
     pub fn push(&mut self, item: T) {
         let len = self.len;
         self.reserve(len + 1);
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         unsafe {
             ptr.add(len).write(item);
         }
@@ -99,7 +107,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             return None;
         }
 
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         self.len -= 1;
         let value = unsafe { ptr.add(self.len).read() };
         Some(value)
@@ -174,7 +182,7 @@ impl<T, const N: usize> ShortVec<T, N> {
 
 impl<T, const N: usize> Drop for ShortVec<T, N> {
     fn drop(&mut self) {
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         let slice = std::ptr::slice_from_raw_parts_mut(ptr, self.len);
         unsafe {
             std::ptr::drop_in_place(slice);
-- 
2.43.0


From 2ee08f57c72cc457e85fee533fc61e7f7a6657c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 14/29] fix: ShortVec does not allocate for zero-sized items

Calling the allocator with a zero-sized layout is undefined behaviour.
---
 crates/parcom-internals/src/shortvec.rs | 36 +++++++++++++------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index fd2e5ae..8635e2f 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -1,6 +1,6 @@
 use std::{
     alloc::{self, Layout},
-    mem::{ManuallyDrop, MaybeUninit},
+    mem::{size_of, ManuallyDrop, MaybeUninit},
     ops::{Deref, DerefMut},
     ptr::NonNull,
 };
@@ -32,12 +32,7 @@ impl<T, const N: usize> ShortVec<T, N> {
         );
 
         if cap > N {
-            let layout = Layout::array::<T>(cap).unwrap();
-            let ptr = unsafe { alloc::alloc(layout) as *mut T };
-            let ptr = match NonNull::new(ptr) {
-                Some(v) => v,
-                None => alloc::handle_alloc_error(layout),
-            };
+            let ptr = Self::alloc(cap);
 
             let data = ShortVecData {
                 heap: ManuallyDrop::new(ptr),
@@ -131,8 +126,8 @@ impl<T, const N: usize> ShortVec<T, N> {
             return;
         }
         // `cap`の不変条件によって、`self.cap >= N`をかならず満たすため、ここではヒープアロケーションが必ず行われる。
-        let layout = Layout::array::<T>(cap).unwrap();
-        if self.is_heap() {
+        if self.is_heap() && size_of::<T>() != 0 {
+            let layout = Layout::array::<T>(cap).unwrap();
             let old_layout = Layout::array::<T>(self.cap).unwrap();
             let ptr = unsafe {
                 let ptr = self.data.heap.as_ptr() as *mut u8;
@@ -147,13 +142,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             self.cap = cap;
             self.data.heap = ptr;
         } else {
-            let buf = unsafe {
-                let ptr = alloc::alloc(layout) as *mut T;
-                match NonNull::new(ptr) {
-                    Some(v) => v,
-                    None => alloc::handle_alloc_error(layout),
-                }
-            };
+            let buf = Self::alloc(cap);
 
             unsafe {
                 let src = self.as_ptr_stack_unchecked();
@@ -167,6 +156,19 @@ impl<T, const N: usize> ShortVec<T, N> {
 }
 
 impl<T, const N: usize> ShortVec<T, N> {
+    /// allocate for `cap` items. no memory is allocated for zero-sized items.
+    fn alloc(cap: usize) -> NonNull<T> {
+        let layout = Layout::array::<T>(cap).unwrap();
+        if layout.size() == 0 {
+            return NonNull::dangling();
+        }
+
+        match NonNull::new(unsafe { alloc::alloc(layout) as *mut T }) {
+            Some(v) => v,
+            None => alloc::handle_alloc_error(layout),
+        }
+    }
+
     fn is_heap(&self) -> bool {
         self.cap > N
     }
@@ -188,7 +190,7 @@ impl<T, const N: usize> Drop for ShortVec<T, N> {
             std::ptr::drop_in_place(slice);
         }
 
-        if self.is_heap() {
+        if self.is_heap() && size_of::<T>() != 0 {
             let layout = Layout::array::<T>(self.cap).unwrap();
             unsafe {
                 alloc::dealloc(ptr as *mut u8, layout);
-- 
2.43.0


From 9d7452388c95a84b8662e6a00fa793e556eeb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 15/29] fix: Notify does not hold its lock while waking

A waker using the same instance deadlocked.
---
 crates/parcom-internals/src/future/notify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-internals/src/future/notify.rs b/crates/parcom-internals/src/future/notify.rs
index 9abb471..7873869 100644
--- a/crates/parcom-internals/src/future/notify.rs
+++ b/crates/parcom-internals/src/future/notify.rs
@@ -24,7 +24,8 @@ impl Notify {
 
     pub fn send(&self) {
         self.version.fetch_add(1, Ordering::SeqCst);
-        let mut wakers = self.wakers.lock().unwrap();
+        // wake after unlocking: a waker may poll, wait or send on this instance.
+        let mut wakers = std::mem::take(&mut *self.wakers.lock().unwrap());
         for waker in wakers.drain() {
             waker.wake();
         }
-- 
2.43.0


From ef0b0a6ef0e6ebd456bc31df35a11ca831138852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 16/29] fix: CRLF recognises an end of line preceded by another
 CR

---
 crates/parcom-metrics/src/end_of_line.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 960dd61..0f49f4a 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -56,10 +56,17 @@ impl EndOfLine for CRLF {
                 _ => EndOfLineMatch::NotMatch,
             },
             CRLFState::CR => {
-                self.state = CRLFState::Initial;
                 match c {
-                    '\n' => EndOfLineMatch::Match,
-                    _ => EndOfLineMatch::NotMatch,
+                    // the previous CR was not a part of EOL but this one may be.
+                    '\r' => EndOfLineMatch::PartialMatch,
+                    '\n' => {
+                        self.state = CRLFState::Initial;
+                        EndOfLineMatch::Match
+                    }
+                    _ => {
+                        self.state = CRLFState::Initial;
+                        EndOfLineMatch::NotMatch
+                    }
                 }
             }
         }
-- 
2.43.0


From 983f63a4f52bec758a7fea1dd262090a81c3205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 17/29] fix: collect does not swallow terminating errors

Like repeat, it recovers from recoverable errors only.
---
 crates/parcom-parsers/src/iterative/collect.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-parsers/src/iterative/collect.rs b/crates/parcom-parsers/src/iterative/collect.rs
index 7e6b8cf..c32cc2f 100644
--- a/crates/parcom-parsers/src/iterative/collect.rs
+++ b/crates/parcom-parsers/src/iterative/collect.rs
@@ -1,8 +1,8 @@
 use parcom_core::{
-    IterativeParser, IterativeParserOnce, IterativeParserState, ParseResult, Parser, ParserOnce,
-    RewindSequence,
+    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser,
+    ParserOnce, RewindSequence,
 };
-use parcom_util::done;
+use parcom_util::{done, fail};
 use std::marker::PhantomData;
 
 #[derive(Debug)]
@@ -57,6 +57,7 @@ async fn parse<S: RewindSequence, P: IterativeParserState<S>, C: Extend<P::Outpu
                 collection.extend(std::iter::once(v));
                 rest = r;
             }
+            Err((e, r)) if e.should_terminate() => return fail(e, r),
             Err((e, r)) => {
                 return done((collection, Some(e)), r.rewind(anchor).await);
             }
-- 
2.43.0


From 6d888cbe8776ad031bca1de2d12eddbb7dc0fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 18/29] fix: dropping a long sequence does not recurse per
 segment

---
 crates/parcom-sequences/src/generic.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index a1f1fea..b33ddf6 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -15,6 +15,16 @@ struct Node<T> {
     next: Arc<OnceLock<Node<T>>>,
 }
 
+impl<T> Drop for Node<T> {
+    /// Drop the following nodes one by one; a long list would overflow the stack recursively.
+    fn drop(&mut self) {
+        let mut next = Arc::get_mut(&mut self.next).and_then(OnceLock::take);
+        while let Some(mut node) = next {
+            next = Arc::get_mut(&mut node.next).and_then(OnceLock::take);
+        }
+    }
+}
+
 pub struct GenericSequenceBuilder<B: BufferStrategy> {
     strategy: Arc<B>,
 }
-- 
2.43.0


From 59ba15aa9dbd2448739fa4df4342fb46b5b4a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 19/29] fix: an atom matched across segments consumes the whole
 pattern

---
 crates/parcom-parsers/src/primitive/atom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 53a2a13..7052552 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -34,7 +34,8 @@ where
     S: Sequence<Segment = P::Segment, Length = <P::Segment as SequenceSegment>::Length>,
 {
     async fn parse(&self, mut input: S) -> ParserResult<S, Self> {
-        let mut remain = self.pattern.pattern();
+        let pattern = self.pattern.pattern();
+        let mut remain = pattern;
         if remain.len() == Default::default() {
             return done((), input);
         }
@@ -48,7 +49,7 @@ where
                     .is_some_and(|(s, _)| s == remain);
                 drop(segments);
                 return if matched {
-                    done((), input.advance(remain.len()).await)
+                    done((), input.advance(pattern.len()).await)
                 } else {
                     fail(Miss(()), input)
                 };
-- 
2.43.0


From 55bff58d2402f61fa4ae5969a8853c6d7bf685b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 20/29] fix: Utf8Validator does not end normally after it
 reported an invalid sequence

---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 5461066..0b79442 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -209,8 +209,12 @@ where
         let invalids = &buf[valid_len..];
 
         let inner = if invalids.len() > 3 {
-            let res = self.req.cancel(Utf8ValidationError::InvalidSequence);
-            InnerResponse::Err { res }
+            // `0xFF` occurs in no valid text. Keep it so that later loads do not report a normal end.
+            InnerResponse::Advance {
+                buffered: 1,
+                rest: [0xFF, 0, 0],
+                res: self.req.cancel(Utf8ValidationError::InvalidSequence),
+            }
         } else {
             let mut rest = [0; 3];
             rest[..invalids.len()].copy_from_slice(invalids);
-- 
2.43.0


From 4fd272e226431c4662e230367a0d7347074df412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 21/29] fix: an anchor of an adjacent input is refused

---
 crates/parcom-core/src/primitive/slice.rs | 4 +++-
 crates/parcom-core/src/primitive/str.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index 0f549e0..c552a7a 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -33,8 +33,10 @@ impl<T> RewindSequence for &[T] {
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
         // compare addresses; `offset_from` requires both to be in the same allocation (and sized items).
+        // a remainder of the input ends where the input ends; an adjacent input begins there.
+        let range = self.as_ptr_range();
         let anchor_range = anchor.me.as_ptr_range();
-        if (anchor_range.start..=anchor_range.end).contains(&self.as_ptr()) {
+        if anchor_range.start <= range.start && range.end == anchor_range.end {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 8b5c443..e98de0f 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -34,8 +34,10 @@ impl RewindSequence for &str {
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
         // compare addresses; `offset_from` requires both to be in the same allocation (and sized items).
+        // a remainder of the input ends where the input ends; an adjacent input begins there.
+        let range = self.as_bytes().as_ptr_range();
         let anchor_range = anchor.me.as_bytes().as_ptr_range();
-        if (anchor_range.start..=anchor_range.end).contains(&self.as_ptr()) {
+        if anchor_range.start <= range.start && range.end == anchor_range.end {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
-- 
2.43.0


From baf95797577477bbb5e128f5477d6541dd997605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 22/29] fix: a load that is dropped before it is polled loses
 nothing

---
 crates/parcom-sequences/src/generic/loader.rs | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/loader.rs b/crates/parcom-sequences/src/generic/loader.rs
index 9fc91ce..fac854d 100644
--- a/crates/parcom-sequences/src/generic/loader.rs
+++ b/crates/parcom-sequences/src/generic/loader.rs
@@ -32,8 +32,9 @@ where
     S: 'a + SequenceSource<Item = T>,
     B: BufferStrategy,
 {
+    start: Option<(&'a mut S, Control<'a, T, S::Error, Arc<B>>)>,
     #[pin]
-    fut: S::Next<'a, Control<'a, T, S::Error, Arc<B>>>,
+    fut: Option<S::Next<'a, Control<'a, T, S::Error, Arc<B>>>>,
     tail_node: &'a mut Arc<OnceLock<Node<T>>>,
 }
 
@@ -58,8 +59,12 @@ where
         self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<Self::Output> {
-        let this = self.project();
-        let res = std::task::ready!(this.fut.poll(cx));
+        let mut this = self.project();
+        if let Some((source, control)) = this.start.take() {
+            this.fut.set(Some(source.next(control, 0)));
+        }
+        let fut = this.fut.as_pin_mut().expect("the load has not started");
+        let res = std::task::ready!(fut.poll(cx));
 
         let r = match res {
             Response::Appended { len, cap } => Ok(LoadInfo::new(0, len, cap)),
@@ -99,8 +104,12 @@ where
 
     fn load(&mut self) -> Self::Load<'_> {
         let control = Control::new(&mut self.buf, &self.strategy);
-        let fut = self.source.next(control, 0);
-        let tail_node = &mut self.tail_node;
-        Load { fut, tail_node }
+        // The source is not asked before the first poll: what it hands over must not be lost with
+        // a load that is dropped before it is polled.
+        Load {
+            start: Some((&mut self.source, control)),
+            fut: None,
+            tail_node: &mut self.tail_node,
+        }
     }
 }
-- 
2.43.0


From 5be36cdaf5e42f3163a099182b35d75cefac2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 23/29] fix: a load that is dropped after its source has
 answered loses nothing

---
 .../parcom-sequences/src/generic/control.rs   | 52 +++++++++++--------
 crates/parcom-sequences/src/generic/loader.rs | 30 ++++++++++-
 2 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 055a69a..f1319d0 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -6,14 +6,16 @@ use crate::BufferStrategy;
 
 pub struct Control<'a, T, E, S: BufferStrategy> {
     buf: &'a mut Vec<T>,
+    to_append: &'a mut Vec<T>,
     strategy: &'a S,
     _phantom: PhantomData<fn() -> E>,
 }
 
 impl<'a, T, E, S: BufferStrategy> Control<'a, T, E, S> {
-    pub(super) fn new(buf: &'a mut Vec<T>, strategy: &'a S) -> Self {
+    pub(super) fn new(buf: &'a mut Vec<T>, to_append: &'a mut Vec<T>, strategy: &'a S) -> Self {
         Self {
             buf,
+            to_append,
             strategy,
             _phantom: PhantomData,
         }
@@ -22,7 +24,7 @@ impl<'a, T, E, S: BufferStrategy> Control<'a, T, E, S> {
 
 impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
     type Item = T;
-    type Result = Response<T, Self::Error>;
+    type Result = Response<'a, T, Self::Error>;
     type Error = E;
     type Writer = Request<'a, T, E>;
 
@@ -33,7 +35,7 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
 
         if spare_capacity >= min_size {
             Request {
-                to_append: Vec::new(),
+                to_append: None,
                 buf,
                 offset,
                 is_advanced: false,
@@ -41,9 +43,9 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
             }
         } else {
             let cap = self.strategy.calc_capacity(min_size).max(min_size);
-            let to_append = std::mem::replace(buf, Vec::with_capacity(cap));
+            *self.to_append = std::mem::replace(buf, Vec::with_capacity(cap));
             Request {
-                to_append,
+                to_append: Some(self.to_append),
                 buf,
                 offset: 0,
                 is_advanced: false,
@@ -57,19 +59,28 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
     }
 
     fn finish(self) -> Self::Result {
-        Response::Finish(std::mem::replace(self.buf, Vec::new()))
+        Response::Finish(self.buf)
     }
 }
 
-pub enum Response<T, E> {
-    Appended { len: usize, cap: usize },
-    Advance { buf: Vec<T>, len: usize, cap: usize },
-    Finish(Vec<T>),
+/// The buffers stay with the loader until it has received this: the source may hold it while it is
+/// suspended, and the load may be dropped then.
+pub enum Response<'a, T, E> {
+    Appended {
+        len: usize,
+        cap: usize,
+    },
+    Advance {
+        buf: &'a mut Vec<T>,
+        len: usize,
+        cap: usize,
+    },
+    Finish(&'a mut Vec<T>),
     Cancel(E),
 }
 
 pub struct Request<'a, T, E> {
-    to_append: Vec<T>,
+    to_append: Option<&'a mut Vec<T>>,
     buf: &'a mut Vec<T>,
     offset: usize,
     is_advanced: bool,
@@ -79,7 +90,7 @@ pub struct Request<'a, T, E> {
 impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Segment = [T];
     type Item = T;
-    type Result = Response<T, E>;
+    type Result = Response<'a, T, E>;
     type Error = E;
 
     fn capacity(&self) -> usize {
@@ -104,17 +115,16 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
 
     fn advance(mut self) -> Self::Result {
         self.is_advanced = true;
-        if self.to_append.is_empty() {
-            Response::Appended {
+        match self.to_append.take() {
+            Some(to_append) if !to_append.is_empty() => Response::Advance {
+                buf: to_append,
                 cap: self.buf.capacity(),
                 len: self.buf.len(),
-            }
-        } else {
-            Response::Advance {
-                buf: std::mem::take(&mut self.to_append),
+            },
+            _ => Response::Appended {
                 cap: self.buf.capacity(),
                 len: self.buf.len(),
-            }
+            },
         }
     }
 
@@ -131,8 +141,8 @@ impl<'a, T, E> Drop for Request<'a, T, E> {
         }
 
         self.buf.truncate(self.offset);
-        if !self.to_append.is_empty() {
-            *self.buf = std::mem::take(&mut self.to_append);
+        if let Some(to_append) = self.to_append.take() {
+            *self.buf = std::mem::take(to_append);
         }
     }
 }
diff --git a/crates/parcom-sequences/src/generic/loader.rs b/crates/parcom-sequences/src/generic/loader.rs
index fac854d..5c1d0de 100644
--- a/crates/parcom-sequences/src/generic/loader.rs
+++ b/crates/parcom-sequences/src/generic/loader.rs
@@ -11,6 +11,10 @@ use std::sync::{Arc, OnceLock};
 pub struct GenericSequenceLoader<T, S: SequenceSource<Item = T>, B: BufferStrategy> {
     source: S,
     buf: Vec<T>,
+    /// Former `buf` while a load is under way that needs a larger one.
+    to_append: Vec<T>,
+    /// Amount of the items handed over by finished loads and not yet commited.
+    uncommited: usize,
     strategy: Arc<B>,
     tail_node: Arc<OnceLock<Node<T>>>,
 }
@@ -20,10 +24,20 @@ impl<T, S: SequenceSource<Item = T>, B: BufferStrategy> GenericSequenceLoader<T,
         Self {
             source,
             buf: Vec::new(),
+            to_append: Vec::new(),
+            uncommited: 0,
             strategy,
             tail_node,
         }
     }
+
+    /// Undo what a load did which was dropped after its source had answered.
+    fn settle(&mut self) {
+        if !self.to_append.is_empty() {
+            self.buf = std::mem::take(&mut self.to_append);
+        }
+        self.buf.truncate(self.uncommited);
+    }
 }
 
 #[pin_project]
@@ -35,6 +49,7 @@ where
     start: Option<(&'a mut S, Control<'a, T, S::Error, Arc<B>>)>,
     #[pin]
     fut: Option<S::Next<'a, Control<'a, T, S::Error, Arc<B>>>>,
+    uncommited: &'a mut usize,
     tail_node: &'a mut Arc<OnceLock<Node<T>>>,
 }
 
@@ -67,13 +82,20 @@ where
         let res = std::task::ready!(fut.poll(cx));
 
         let r = match res {
-            Response::Appended { len, cap } => Ok(LoadInfo::new(0, len, cap)),
+            Response::Appended { len, cap } => {
+                **this.uncommited = len;
+                Ok(LoadInfo::new(0, len, cap))
+            }
             Response::Advance { buf, len, cap } => {
+                **this.uncommited = len;
+                let buf = std::mem::take(buf);
                 let commited = buf.len();
                 commit_to(this.tail_node, buf);
                 Ok(LoadInfo::new(commited, len, cap))
             }
             Response::Finish(buf) => {
+                **this.uncommited = 0;
+                let buf = std::mem::take(buf);
                 let commited = buf.len();
                 commit_to(this.tail_node, buf);
                 Ok(LoadInfo::done(commited))
@@ -98,17 +120,21 @@ where
         Self: 'a;
 
     fn force_commit(&mut self) {
+        self.settle();
+        self.uncommited = 0;
         let buf = std::mem::replace(&mut self.buf, Vec::new());
         commit_to(&mut self.tail_node, buf);
     }
 
     fn load(&mut self) -> Self::Load<'_> {
-        let control = Control::new(&mut self.buf, &self.strategy);
+        self.settle();
+        let control = Control::new(&mut self.buf, &mut self.to_append, &self.strategy);
         // The source is not asked before the first poll: what it hands over must not be lost with
         // a load that is dropped before it is polled.
         Load {
             start: Some((&mut self.source, control)),
             fut: None,
+            uncommited: &mut self.uncommited,
             tail_node: &mut self.tail_node,
         }
     }
-- 
2.43.0


From 0ce8e7521f7f845ac7817003b5833db090dd9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:44 +0000
Subject: [PATCH 24/29] fix: a validated source that asks for more room than
 there can be is refused instead of given none

---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 0b79442..1074b0e 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -117,7 +117,9 @@ where
     type Writer = Writer<S, C>;
 
     fn request_writer(self, min_capacity: usize) -> Self::Writer {
-        let mut req = self.control.request_writer(self.buffered + min_capacity);
+        let capacity = min_capacity.checked_add(self.buffered);
+        let capacity = capacity.expect("capacity overflow");
+        let mut req = self.control.request_writer(capacity);
         let dst = req.as_mut_ptr();
         let src = self.rest.as_ptr();
 
-- 
2.43.0


From 03528f1ccacdd449d40f7f1ddcfcef8a2f71d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:26 +0000
Subject: [PATCH 25/29] fix: positions that are not equal do not compare as
 equal

---
 crates/parcom-metrics/src/line_colmn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-metrics/src/line_colmn.rs b/crates/parcom-metrics/src/line_colmn.rs
index 3cb024f..409ba26 100644
--- a/crates/parcom-metrics/src/line_colmn.rs
+++ b/crates/parcom-metrics/src/line_colmn.rs
@@ -48,7 +48,13 @@ impl<EOL: EndOfLine> Ord for LineColumn<EOL> {
 }
 impl<EOL: EndOfLine> PartialOrd for LineColumn<EOL> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        Some(self.total_count.cmp(&other.total_count))
+        // positions of different texts may agree in their counts only.
+        let ord = (self.total_count, self.line, self.column).cmp(&(
+            other.total_count,
+            other.line,
+            other.column,
+        ));
+        Some(ord)
     }
 }
 
-- 
2.43.0


From d2d951b84752c9c2b8251dc45be0995d484af171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 26/29] fix: items a writer drops by shrinking are not dropped
 again if one panics

---
 crates/parcom-sequence-core/src/buffer_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-sequence-core/src/buffer_writer.rs b/crates/parcom-sequence-core/src/buffer_writer.rs
index 26385f2..61d8f21 100644
--- a/crates/parcom-sequence-core/src/buffer_writer.rs
+++ b/crates/parcom-sequence-core/src/buffer_writer.rs
@@ -74,8 +74,9 @@ pub trait BufferWriter {
 
         unsafe {
             let slice = std::ptr::slice_from_raw_parts_mut(ptr.add(new_len), len - new_len);
-            std::ptr::drop_in_place(slice);
+            // The items are given up first: dropping one may panic.
             self.set_len(new_len);
+            std::ptr::drop_in_place(slice);
         }
     }
 }
-- 
2.43.0


From 8cdd544d0cf3b47556b3543072fa5b9f6415412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 27/29] fix: an iterator source has ended for good when its
 iterator first ends

---
 crates/parcom-sequence-sources/src/iterator_source.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-sequence-sources/src/iterator_source.rs b/crates/parcom-sequence-sources/src/iterator_source.rs
index 52f4b30..277dc94 100644
--- a/crates/parcom-sequence-sources/src/iterator_source.rs
+++ b/crates/parcom-sequence-sources/src/iterator_source.rs
@@ -1,4 +1,4 @@
-use std::marker::PhantomData;
+use std::{iter::Fuse, marker::PhantomData};
 
 use parcom_core::Never;
 use parcom_sequence_core::{BufferWriter, SequenceControl, SequenceSource};
@@ -10,7 +10,8 @@ where
     I::Item: AsRef<[T]>,
     I: IntoIterator,
 {
-    iter: I::IntoIter,
+    /// An iterator may go on after its end; a source may not.
+    iter: Fuse<I::IntoIter>,
     _phantom: PhantomData<fn() -> T>,
 }
 
@@ -22,7 +23,7 @@ where
 {
     pub fn new(iter: I) -> Self {
         Self {
-            iter: iter.into_iter(),
+            iter: iter.into_iter().fuse(),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From fe070b194a2a95f03d4031a402e4d3ac72be03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 28/29] fix: doubling does not refuse room for zero-sized items
 below the limit

---
 crates/parcom-internals/src/shortvec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 8635e2f..a01c325 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -112,7 +112,7 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.cap >= cap {
             return;
         }
-        let cap = usize::max(self.cap * 2, cap);
+        let cap = usize::max(usize::min(self.cap * 2, isize::MAX as usize), cap);
         Self::reserve_exact(self, cap)
     }
 
-- 
2.43.0


From 52ad5ef8ab02354359d96a3c94d9692338557449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 29/29] fix: a small vector returns its memory even if dropping
 an element panics

---
 crates/parcom-internals/src/shortvec.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index a01c325..16c7a7f 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -186,15 +186,27 @@ impl<T, const N: usize> Drop for ShortVec<T, N> {
     fn drop(&mut self) {
         let ptr = self.as_mut_ptr();
         let slice = std::ptr::slice_from_raw_parts_mut(ptr, self.len);
+        // The memory is returned even if dropping an element panics.
+        let _heap = (self.is_heap() && size_of::<T>() != 0).then(|| Heap {
+            ptr: ptr as *mut u8,
+            layout: Layout::array::<T>(self.cap).unwrap(),
+        });
         unsafe {
             std::ptr::drop_in_place(slice);
         }
+    }
+}
 
-        if self.is_heap() && size_of::<T>() != 0 {
-            let layout = Layout::array::<T>(self.cap).unwrap();
-            unsafe {
-                alloc::dealloc(ptr as *mut u8, layout);
-            }
+/// heap memory of a vector being dropped.
+struct Heap {
+    ptr: *mut u8,
+    layout: Layout,
+}
+
+impl Drop for Heap {
+    fn drop(&mut self) {
+        unsafe {
+            alloc::dealloc(self.ptr, self.layout);
         }
     }
 }
-- 
2.43.0

