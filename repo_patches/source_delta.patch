From 57373dc8723e7c8b651ad7e93b293ae7800d3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 1/4] fix: reject UTF-16 positions that are not in the text

text_size_utf16 and text_range_utf16 returned offsets past the end of the
line, past the end of the text or inside a character for columns that are
out of bounds, and apply-changes then panicked.
---
 crates/text-pos/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index e70186a..f0f2c87 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -67,7 +67,12 @@ impl PositionDb {
 
   fn text_size_utf8(&self, pos: PositionUtf8) -> Option<TextSize> {
     let lc = line_index::LineCol { line: pos.line, col: pos.col };
-    self.inner.offset(lc)
+    // `offset` checks neither that the column is on the line, nor that it is a char boundary.
+    if TextSize::from(pos.col) > self.inner.line(pos.line)?.len() {
+      return None;
+    }
+    let ret = self.inner.offset(lc)?;
+    (self.inner.try_line_col(ret) == Some(lc)).then_some(ret)
   }
 
   fn range_utf8(&self, text_range: TextRange) -> Option<RangeUtf8> {
-- 
2.43.0


From e8ffccca5a73f6411a13180295ff6eceec1a95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 2/4] fix: let a node be preceded again after its parent was
 abandoned

The documented loop returns the exited node after abandoning the node that
preceded it; preceding the returned node then panicked.
---
 crates/event-parse/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5a5d6bf..e9e1aae 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -62,7 +62,12 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, tok_idx: self.tok_idx }
+    Entered {
+      bomb: DropBomb::new("Entered markers must be exited"),
+      ev_idx,
+      tok_idx: self.tok_idx,
+      child: None,
+    }
   }
 
   /// Abandons parsing a syntax construct.
@@ -76,6 +81,10 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn abandon(&mut self, mut en: Entered) {
     en.bomb.defuse();
     assert!(self.events[en.ev_idx].is_none());
+    // the child has no parent after all, so it may be preceded again.
+    if let Some(Some(Event::Enter(_, parent))) = en.child.map(|idx| &mut self.events[idx]) {
+      *parent = None;
+    }
   }
 
   /// Finishes parsing a syntax construct.
@@ -104,7 +113,8 @@ impl<'a, K, E> Parser<'a, K, E> {
   ///
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
-    let ret = self.enter();
+    let mut ret = self.enter();
+    ret.child = Some(ex.ev_idx);
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -337,6 +347,8 @@ pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
   tok_idx: usize,
+  /// If this precedes a node, the event index of that node.
+  child: Option<usize>,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
-- 
2.43.0


From 7d5589f466f9bce95c5ef745e7d4a0cbfcad8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 3/4] fix: count only the tokens of a node for Exited::is_empty

Trivia skipped by peeking made an empty node look non-empty, and the tokens of
a preceded child were not counted.
---
 crates/event-parse/src/lib.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index e9e1aae..6cb1e69 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -31,13 +31,15 @@ use token::{Token, Triviable};
 pub struct Parser<'a, K, E> {
   tokens: &'a [Token<'a, K>],
   tok_idx: usize,
+  /// How many tokens were consumed. Unlike `tok_idx`, this does not count trivia.
+  consumed: usize,
   events: Vec<Option<Event<K, E>>>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, consumed: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -65,7 +67,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     Entered {
       bomb: DropBomb::new("Entered markers must be exited"),
       ev_idx,
-      tok_idx: self.tok_idx,
+      consumed: self.consumed,
       child: None,
     }
   }
@@ -98,7 +100,11 @@ impl<'a, K, E> Parser<'a, K, E> {
     assert!(ev.is_none());
     *ev = Some(Event::Enter(kind, None));
     self.events.push(Some(Event::Exit));
-    Exited { ev_idx: en.ev_idx, is_empty: self.tok_idx == en.tok_idx }
+    Exited {
+      ev_idx: en.ev_idx,
+      consumed: en.consumed,
+      is_empty: self.consumed == en.consumed,
+    }
   }
 
   /// Starts parsing a syntax construct and makes it the parent of the given
@@ -115,6 +121,8 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn precede(&mut self, ex: Exited) -> Entered {
     let mut ret = self.enter();
     ret.child = Some(ex.ev_idx);
+    // the tokens of the child are tokens of the parent.
+    ret.consumed = ex.consumed;
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -152,7 +160,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, events_len: self.events.len() }
+    Save { tok_idx: self.tok_idx, consumed: self.consumed, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -163,6 +171,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
     if error_since {
       self.tok_idx = save.tok_idx;
+      self.consumed = save.consumed;
       self.events.truncate(save.events_len);
     }
     !error_since
@@ -220,6 +229,7 @@ where
     let ret = self.peek().expect("bump with no tokens");
     self.events.push(Some(Event::Token));
     self.tok_idx += 1;
+    self.consumed += 1;
     ret
   }
 
@@ -346,7 +356,8 @@ where
 pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
-  tok_idx: usize,
+  /// How many tokens were consumed before this.
+  consumed: usize,
   /// If this precedes a node, the event index of that node.
   child: Option<usize>,
 }
@@ -370,6 +381,8 @@ pub struct Entered {
 #[derive(Debug, Clone, Copy)]
 pub struct Exited {
   ev_idx: usize,
+  /// How many tokens were consumed before this.
+  consumed: usize,
   is_empty: bool,
 }
 
@@ -386,6 +399,7 @@ impl Exited {
 #[must_use]
 pub struct Save {
   tok_idx: usize,
+  consumed: usize,
   events_len: usize,
 }
 
-- 
2.43.0


From a0958a59a837deb4c15c963fec6618cd09fe243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:30 +0000
Subject: [PATCH 4/4] fix: text-pos: print positions at the largest line or
 column

Displaying a PositionUtf16 or RangeUtf16 added one to a u32, which overflows
(a panic in debug builds, 0 in release builds) for u32::MAX.
---
 crates/text-pos/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index f0f2c87..6fc47e8 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -166,7 +166,7 @@ pub struct PositionUtf16 {
 
 impl fmt::Display for PositionUtf16 {
   fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-    write!(f, "{}:{}", self.line + 1, self.col + 1)
+    write!(f, "{}:{}", u64::from(self.line) + 1, u64::from(self.col) + 1)
   }
 }
 
@@ -192,7 +192,7 @@ impl RangeUtf16 {
 impl fmt::Display for RangeUtf16 {
   fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
     if self.start.line == self.end.line {
-      write!(f, "{}-{}", self.start, self.end.col + 1)
+      write!(f, "{}-{}", self.start, u64::from(self.end.col) + 1)
     } else {
       write!(f, "{}-{}", self.start, self.end)
     }
-- 
2.43.0

