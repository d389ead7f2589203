From a777c9c18f47cdaa306185e93f02905a8adea565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 01/21] fix: CartesianProduct::extend must add one pointer per
 added factor

Extending a product that already had factors duplicated the pointers of the
old factors, so that combinations became too long and enumeration read past
the end of the slices. An iterator that panicked midway left fewer pointers
than factors.
---
 gearley-utils/src/cartesian_product.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index c158437..a3dc649 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -63,11 +63,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     where
         I: Iterator<Item = &'a [V]>,
     {
-        self.ranges.extend(product.map(|slice| Factor::new(slice)));
-        unsafe {
-            // FIXME wrong range
-            self.ptrs
-                .extend(self.ranges.iter().map(|factor| &*factor.start));
+        for slice in product {
+            self.push(slice);
         }
     }
 
-- 
2.43.0


From 81c1e03a1d8aeeefa097b52ec05d89150e7855d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 02/21] fix: CartesianProduct must not read outside its factors

An empty factor produced a reference to memory outside of the slice, now it
is refused. Advancing created a reference past the end of the slice. Factors
of zero-sized values were enumerated as if they had one element.
---
 gearley-utils/src/cartesian_product.rs | 36 ++++++++------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index a3dc649..4dcff69 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -1,33 +1,22 @@
-use std::marker::PhantomData;
-
 pub struct Factor<'a, V: 'a> {
-    start: *const V,
-    end: *const V,
-    marker: PhantomData<&'a V>,
+    slice: &'a [V],
+    index: usize,
 }
 
 impl<'a, V> Factor<'a, V> {
     fn new(slice: &'a [V]) -> Self {
-        let start = slice.as_ptr();
-        unsafe {
-            Factor {
-                start,
-                end: start.offset(slice.len() as isize),
-                marker: PhantomData,
-            }
-        }
+        assert!(!slice.is_empty(), "empty factor");
+        Factor { slice, index: 0 }
     }
 
     fn advance(&mut self, ptr: &mut &'a V) -> bool {
-        unsafe {
-            *ptr = &*(*ptr as *const V).offset(1);
-            if *ptr as *const _ == self.end {
-                *ptr = &*self.start;
-                true
-            } else {
-                false
-            }
+        self.index += 1;
+        let wrapped = self.index == self.slice.len();
+        if wrapped {
+            self.index = 0;
         }
+        *ptr = &self.slice[self.index];
+        wrapped
     }
 }
 
@@ -52,10 +41,7 @@ impl<'a, V> CartesianProduct<'a, V> {
     /// Multiplies the cartesian product by a slice.
     pub fn push(&mut self, slice: &'a [V]) {
         self.ranges.push(Factor::new(slice));
-        unsafe {
-            self.ptrs
-                .push(self.ranges.last().map(|factor| &*factor.start).unwrap());
-        }
+        self.ptrs.push(&slice[0]);
     }
 
     /// Multiplies the cartesian product by an iterator.
-- 
2.43.0


From e15f0701373ebfb2b6bccd9d0ef13818376c01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 03/21] fix: Recognizer::reset must drop every stale prediction
 and the pending hint

---
 gearley-recognizer/src/recognizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 41d9e4f..fb1726e 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -319,9 +319,12 @@ where
     pub fn reset(&mut self) {
         // Remove items.
         self.medial.clear();
+        self.leo.clear();
         self.complete.clear();
+        self.lookahead.clear_hint();
         // Earleme is now equal 0.
-        // Reset predictions.
+        // Reset predictions. Rows past the first one may hold predictions, too.
+        self.predicted.truncate(1);
         self.predicted[0].clear();
         self.predicted[0].predict(
             self.grammar.start_sym(),
-- 
2.43.0


From 97490d97f632d9ba41a8e1b0f41667ee008be998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 04/21] fix: clear the lookahead hint also when completions are
 driven by the caller

---
 gearley-recognizer/src/recognizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index fb1726e..6af75ce 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -190,6 +190,8 @@ where
     /// the `completions` method. Keep in mind that calling this method may not set
     /// the finished node, which should be tracked externally.
     pub fn advance_after_completion(&mut self) {
+        // A hint is only good for the set which has just been completed.
+        self.lookahead.clear_hint();
         self.sort_medial_items();
         self.remove_unreachable_sets();
         if P::LEO {
-- 
2.43.0


From 88e4e40ada700c02c57fda0462b5e17bc7aea302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 05/21] fix: begin a sum in the forest also when summands are
 pushed by the caller

---
 gearley-recognizer/src/recognizer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 6af75ce..95e22e6 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -406,6 +406,8 @@ where
     origin: Origin,
     /// The **Symbol** of this completion.
     lhs_sym: Symbol,
+    /// Whether a sum was begun in the forest.
+    begun: bool,
     /// The recognizer.
     recognizer: &'r mut Recognizer<G, F, P>,
 }
@@ -664,6 +666,7 @@ where
             Some(CompleteGroup {
                 origin: ei.origin,
                 lhs_sym,
+                begun: false,
                 recognizer: self,
             })
         } else {
@@ -680,7 +683,6 @@ where
 {
     /// Completes all items.
     pub fn complete_entire_sum(&mut self) {
-        self.recognizer.forest.begin_sum();
         // For each item, include it in the completion.
         while let Some(item) = self.next_summand() {
             self.push_summand(item);
@@ -714,6 +716,10 @@ where
     /// Includes an item in the completion.
     #[inline]
     pub fn push_summand(&mut self, completed_item: Item<F::NodeRef>) {
+        if !self.begun {
+            self.recognizer.forest.begin_sum();
+            self.begun = true;
+        }
         self.recognizer.forest.push_summand(completed_item);
     }
 
@@ -721,6 +727,7 @@ where
     #[inline]
     pub fn complete_sum(&mut self) -> F::NodeRef {
         let node = self.recognizer.forest.sum(self.lhs_sym, self.origin);
+        self.begun = false;
         self.recognizer.complete(self.origin, self.lhs_sym, node);
         node
     }
-- 
2.43.0


From 67f633672875937e1cf749276f8492d28a11ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 06/21] fix: simple-bocage must not count summands of an
 abandoned sum

---
 simple-bocage/src/bocage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple-bocage/src/bocage.rs b/simple-bocage/src/bocage.rs
index cd32548..e7f2527 100644
--- a/simple-bocage/src/bocage.rs
+++ b/simple-bocage/src/bocage.rs
@@ -113,7 +113,8 @@ impl Forest for Bocage {
 
     #[inline]
     fn begin_sum(&mut self) {
-        // nothing to do
+        // An earlier sum may have been abandoned.
+        self.summand_count = 0;
     }
 
     #[inline]
-- 
2.43.0


From 6db202c00e48cc413db52fa16515e6a72fd94655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 07/21] fix: compact-bocage must evaluate the empty parse like
 simple-bocage

---
 compact-bocage/src/traverse.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index bd5a100..4efeff5 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -45,7 +45,11 @@ impl Bocage {
                     }
                     right_factor
                 }
-                _ => return vec![],
+                _ => {
+                    let mut start_results = vec![];
+                    eval.nulling(self.forest_info.start, &mut start_results);
+                    return start_results;
+                }
             },
             Node::BeginSum => match self.get(NodeHandle(root_node.0 + 1)) {
                 Node::Summand { factors, .. } => match self.get(factors) {
@@ -67,7 +71,7 @@ impl Bocage {
                 },
                 _ => panic!("not found"),
             },
-            _ => panic!("not found"),
+            _ => root_node,
         };
 
         // println!("ROOT {:?}", root_node);
-- 
2.43.0


From 132e01e6fbf222a69d8f3730341a223fb2c37ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 08/21] fix: compact-bocage must not print (and fail with a
 broken stdout) while evaluating

---
 compact-bocage/src/traverse.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index 4efeff5..32bbf25 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -110,7 +110,6 @@ impl Bocage {
                     });
                 }
                 (Node::EndSum, _) => {
-                    println!("END_SUM");
                     // nothing to do
                 }
                 (Node::Rule { left_factor, .. }, 0) => {
@@ -177,7 +176,6 @@ impl Bocage {
                         }
                     }
                     if matches!(node, Node::Summand { .. }) {
-                        println!("SUMMAND");
                         let size = self.graph.get_node_size(work.node.0 as usize);
                         work_stack.push(WorkNode {
                             node: NodeHandle(work.node.0 + size),
-- 
2.43.0


From a65dd3cd36988b40f3f13a0c65f6dc5cde08b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 09/21] fix: compact-bocage must not read unaligned bytes as
 u32

---
 compact-bocage/src/graph.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/compact-bocage/src/graph.rs b/compact-bocage/src/graph.rs
index fac9357..cb88e57 100644
--- a/compact-bocage/src/graph.rs
+++ b/compact-bocage/src/graph.rs
@@ -1,4 +1,3 @@
-use bytemuck::{bytes_of, from_bytes};
 use cfg_symbol::Symbol;
 use gearley_forest::node_handle::NodeHandle;
 
@@ -72,10 +71,10 @@ impl Graph {
         let mut left_slice = [0; 4];
         let mid = index + 1 + l_len as usize;
         left_slice[0..l_len as usize].copy_from_slice(&self.vect[index + 1..mid]);
-        let &left: &u32 = from_bytes(&left_slice[..]);
+        let left = u32::from_le_bytes(left_slice);
         let mut right_slice = [0; 4];
         right_slice[0..r_len as usize].copy_from_slice(&self.vect[mid..mid + r_len as usize]);
-        let &right: &u32 = from_bytes(&right_slice[..]);
+        let right = u32::from_le_bytes(right_slice);
         match discr {
             0 => Node::BeginSum,
             1 => Node::EndSum,
@@ -133,7 +132,7 @@ impl Graph {
             Node::NullingLeaf { symbol } => [6, symbol.usize() as u32, 0],
         };
         self.vect.push(discr as u8 | 0b1111000);
-        self.vect.extend(bytes_of(&left));
-        self.vect.extend(bytes_of(&right));
+        self.vect.extend(left.to_le_bytes());
+        self.vect.extend(right.to_le_bytes());
     }
 }
-- 
2.43.0


From dce7cce9c74171bf3b3f3bab22f02f6e477f5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 10/21] fix: DefaultGrammar::events must give the events of
 predictions and of medial items

---
 gearley-default-grammar/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index c2696e4..5ecb62c 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -687,7 +687,7 @@ impl Grammar for DefaultGrammar {
 
     #[inline]
     fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
-        (&self.columns[1].events[..], &self.columns[2].events[..])
+        (&self.columns[0].events[..], &self.columns[1].events[..])
     }
 
     #[inline]
-- 
2.43.0


From 7f5f196c5a982560d5ca279ea10472496e2f2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 11/21] fix: DefaultGrammar must number the lhs of a unary rule
 below its rhs

---
 gearley-default-grammar/src/lib.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 5ecb62c..c82564c 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -235,16 +235,11 @@ impl DefaultGrammar {
         let mut order = grammar.empty_matrix();
         for rule in grammar.rules() {
             if rule.rhs.len() == 1 {
+                // The recognizer completes symbols with higher numbers first.
                 let left = rule.lhs.usize();
                 let right = rule.rhs[0].usize();
-                match left.cmp(&right) {
-                    cmp::Ordering::Less => {
-                        order.set(left, right, true);
-                    }
-                    cmp::Ordering::Greater => {
-                        order.set(right, left, true);
-                    }
-                    cmp::Ordering::Equal => {}
+                if left != right {
+                    order.set(left, right, true);
                 }
             }
         }
@@ -268,12 +263,11 @@ impl DefaultGrammar {
         trace!("order_transitive_closure: {:?}", order);
         let mut remap = Remap::new(grammar);
         remap.reorder_symbols(|left, right| {
-            if order[(left, right)] {
-                cmp::Ordering::Less
-            } else if order[(right, left)] {
-                cmp::Ordering::Greater
-            } else {
-                cmp::Ordering::Equal
+            match (order[(left, right)], order[(right, left)]) {
+                (true, false) => cmp::Ordering::Less,
+                (false, true) => cmp::Ordering::Greater,
+                // Unrelated, or in a cycle of unary rules.
+                _ => cmp::Ordering::Equal,
             }
         });
         remap.remove_unused_symbols();
-- 
2.43.0


From 07b12a125d6a8858b7be3c1763ef353942341473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 12/21] fix: DefaultGrammar must not take symbols with unary
 rules for generated ones

---
 gearley-default-grammar/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index c82564c..1ef9b22 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -287,6 +287,10 @@ impl DefaultGrammar {
                 occurrences[rule.lhs.usize()].0 += 1;
                 occurrences[rule.rhs[0].usize()].1 += 1;
             }
+            if rule.rhs.len() == 1 {
+                // With a unary rule, the order of completions matters.
+                occurrences[rule.lhs.usize()].2 += 1;
+            }
             for sym in rule.rhs.iter().skip(1) {
                 occurrences[sym.usize()].2 += 1;
             }
-- 
2.43.0


From d1506d2c2928e0440197186cbbad7ac70b452e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 13/21] fix: DefaultGrammar must report a trivial derivation
 only of the start symbol

---
 gearley-default-grammar/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 1ef9b22..bf24d3e 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -588,7 +588,10 @@ impl DefaultGrammar {
     }
 
     fn populate_nulling(&mut self, nulling: &Cfg) {
-        self.has_trivial_derivation = !nulling.is_empty();
+        // Other symbols may derive the empty string, too.
+        self.has_trivial_derivation = nulling
+            .rules()
+            .any(|rule| self.to_internal(rule.lhs) == Some(self.original_start_sym));
         let iter_nulling_intermediate = nulling
             .rules()
             .filter_map(|rule| {
-- 
2.43.0


From d756ede5cf6e7795ec33a47746ab1191b3a81b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 14/21] fix: the node of a trivial parse must be that of the
 internal start symbol

---
 gearley-recognizer/src/recognizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 95e22e6..2a39e6a 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -350,7 +350,10 @@ where
     /// Panics when the parse has not finished at the current location.
     pub fn finished_node(&self) -> Option<F::NodeRef> {
         if self.grammar.has_trivial_derivation() && self.earleme() == !0 {
-            Some(self.forest.nulling(self.grammar.externalized_start_sym()))
+            // The forest knows internal symbols only.
+            self.grammar
+                .to_internal(self.grammar.externalized_start_sym())
+                .map(|start| self.forest.nulling(start))
         } else {
             let has_dot_before_eof = |item: &&Item<_>| item.dot == self.grammar.dot_before_eof();
             let item_node = |item: &Item<_>| item.node;
-- 
2.43.0


From 392557fcbaf1055f533bb764a2f4d12f6c750fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 15/21] fix: the bundled parse calls must not panic at a token
 that no rule uses

---
 gearley-utils/src/parse.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index b8951eb..56a1e7f 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -79,13 +79,18 @@ where
             self.begin_earleme();
             if let Some((_i, t)) = iter.peek() {
                 trace!("utils.lookahead_set_hint: {:?}", **t);
-                let s = self.grammar().to_internal(**t).unwrap();
-                self.lookahead().set_hint(s);
+                match self.grammar().to_internal(**t) {
+                    Some(s) => self.lookahead().set_hint(s),
+                    None => self.lookahead().clear_hint(),
+                }
             } else {
                 trace!("utils.lookahead_clear_hint: None null");
                 self.lookahead().clear_hint();
             }
-            self.scan(self.grammar().to_internal(token).unwrap(), i as u32);
+            // A token that no rule uses can't be scanned.
+            if let Some(symbol) = self.grammar().to_internal(token) {
+                self.scan(symbol, i as u32);
+            }
             if !self.end_earleme() {
                 return Err(ParseError::Parse {
                     msg: "failed to parse",
@@ -156,10 +161,10 @@ pub fn parse_tokenizing(
     for (i, ch) in input.chars().enumerate() {
         recognizer.begin_earleme();
         for &terminal in loaded.lexer_map.get(ch) {
-            recognizer.scan(
-                recognizer.grammar().to_internal(terminal).unwrap(),
-                ch as u32,
-            );
+            // A terminal that no rule uses can't be scanned.
+            if let Some(symbol) = recognizer.grammar().to_internal(terminal) {
+                recognizer.scan(symbol, ch as u32);
+            }
         }
         if !recognizer.end_earleme() {
             return Err(ParseError::Parse {
-- 
2.43.0


From f77321bc4d63ca8ffd3b2828fe2fa410203b2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 16/21] fix: evaluating an ambiguous parse must give one value
 for every parse tree

The results of all alternatives of a node were appended to the argument list
of its parent, so that actions received several values in place of one symbol
(see test_ambiguous_arithmetic in gearley/tests, which expects five values).
---
 compact-bocage/src/traverse.rs | 141 ++++++++++++++++++++-------------
 simple-bocage/src/traverse.rs  | 127 ++++++++++++++++-------------
 2 files changed, 158 insertions(+), 110 deletions(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index 32bbf25..1d8b888 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -1,4 +1,5 @@
 use std::mem;
+use std::ops::Range;
 
 use bumpalo::Bump;
 
@@ -14,7 +15,54 @@ struct WorkNode<'a> {
     node: NodeHandle,
     child: u32,
     parent: usize,
-    results: AVec<u32, &'a Bump>,
+    is_sum: bool,
+    // The alternative lists of results, one list for each way of deriving what was traversed.
+    results: AVec<AVec<u32, &'a Bump>, &'a Bump>,
+}
+
+impl<'a> WorkNode<'a> {
+    fn new(node: NodeHandle, parent: usize, alloc: &'a Bump) -> Self {
+        WorkNode {
+            node,
+            child: 0,
+            parent,
+            is_sum: false,
+            results: AVec::new_in(alloc),
+        }
+    }
+
+    // A sum adds up the alternatives of its summands. A product multiplies those of its factors.
+    fn receive(&mut self, alternatives: AVec<AVec<u32, &'a Bump>, &'a Bump>) {
+        if self.is_sum {
+            self.results.extend(alternatives);
+        } else if alternatives.len() == 1 {
+            for list in &mut self.results {
+                list.extend_from_slice(&alternatives[0]);
+            }
+        } else {
+            let mut results = AVec::new_in(*self.results.allocator());
+            for left in &self.results {
+                for right in &alternatives {
+                    let mut list = left.clone();
+                    list.extend_from_slice(right);
+                    results.push(list);
+                }
+            }
+            self.results = results;
+        }
+    }
+
+    // Receives each of the given results as an alternative.
+    fn receive_results(&mut self, range: Range<usize>) {
+        let alloc = *self.results.allocator();
+        let mut alternatives = AVec::with_capacity_in(range.len(), alloc);
+        for result in range {
+            let mut list = AVec::with_capacity_in(1, alloc);
+            list.push(result as u32);
+            alternatives.push(list);
+        }
+        self.receive(alternatives);
+    }
 }
 
 impl Bocage {
@@ -79,19 +127,10 @@ impl Bocage {
         let alloc = Bump::new();
         let mut results: Vec<E::Elem> = vec![];
         let mut work_stack = vec![
-            WorkNode {
-                node: NULL_HANDLE,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
-            WorkNode {
-                node: root_node,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
+            WorkNode::new(NULL_HANDLE, 0, &alloc),
+            WorkNode::new(root_node, 0, &alloc),
         ];
+        work_stack[0].is_sum = true;
 
         while work_stack.len() > 1 {
             let mut work = work_stack.pop().unwrap();
@@ -101,13 +140,16 @@ impl Bocage {
                 node = self.postprocess_product_tree_node(node);
             }
             match (node, work.child) {
+                (Node::BeginSum, 0) => {
+                    work.child += 1;
+                    work.is_sum = true;
+                    let first_summand = NodeHandle(work.node.0 + 1);
+                    let parent = work_stack.len();
+                    work_stack.push(work);
+                    work_stack.push(WorkNode::new(first_summand, parent, &alloc));
+                }
                 (Node::BeginSum, _) => {
-                    work_stack.push(WorkNode {
-                        node: NodeHandle(work.node.0 + 1),
-                        child: 0,
-                        parent: work.parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack[work.parent].receive(work.results);
                 }
                 (Node::EndSum, _) => {
                     // nothing to do
@@ -116,23 +158,13 @@ impl Bocage {
                     work.child += 1;
                     let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: left_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(left_factor, parent, &alloc));
                 }
                 (Node::Rule { right_factor, .. }, 1) => {
                     work.child += 1;
                     let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: right_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(right_factor, parent, &alloc));
                 }
                 (Node::Rule { .. }, _) => {
                     // nothing to do
@@ -140,19 +172,13 @@ impl Bocage {
                 (Node::Leaf { symbol, values }, _) => {
                     let result = eval.leaf(symbol, values);
                     results.push(result);
-                    work_stack[work.parent]
-                        .results
-                        .push(results.len() as u32 - 1);
+                    work_stack[work.parent].receive_results(results.len() - 1..results.len());
                 }
                 (Node::Product { factors, .. }, 0) | (Node::Summand { factors, .. }, 0) => {
                     work.child += 1;
+                    work.results.push(AVec::new_in(&alloc));
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: factors,
-                        child: 0,
-                        parent: work_stack.len() - 1,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(factors, work_stack.len() - 1, &alloc));
                 }
                 (Node::Product { action, .. }, _) | (Node::Summand { action, .. }, _) => {
                     let external_origin_opt = if action == NULL_ACTION {
@@ -162,39 +188,40 @@ impl Bocage {
                     };
                     match external_origin_opt {
                         Some(external_origin) if external_origin.id != !0 => {
-                            let result = eval.product(
-                                external_origin.id,
-                                work.results.iter().copied().map(|v| &results[v as usize]),
-                            );
-                            results.push(result);
-                            work_stack[work.parent]
-                                .results
-                                .push(results.len() as u32 - 1);
+                            let start = results.len();
+                            for list in &work.results {
+                                let result = eval.product(
+                                    external_origin.id,
+                                    list.iter().copied().map(|v| &results[v as usize]),
+                                );
+                                results.push(result);
+                            }
+                            work_stack[work.parent].receive_results(start..results.len());
                         }
                         _ => {
-                            work_stack[work.parent].results.extend(work.results);
+                            work_stack[work.parent].receive(work.results);
                         }
                     }
                     if matches!(node, Node::Summand { .. }) {
                         let size = self.graph.get_node_size(work.node.0 as usize);
-                        work_stack.push(WorkNode {
-                            node: NodeHandle(work.node.0 + size),
-                            child: 0,
-                            parent: work.parent,
-                            results: AVec::new_in(&alloc),
-                        });
+                        work_stack.push(WorkNode::new(
+                            NodeHandle(work.node.0 + size),
+                            work.parent,
+                            &alloc,
+                        ));
                     }
                 }
                 (Node::NullingLeaf { symbol }, _) => {
-                    let values = results.len() as u32;
+                    let start = results.len();
                     eval.nulling(symbol, &mut results);
-                    work_stack[work.parent].results.push(values);
+                    work_stack[work.parent].receive_results(start..results.len());
                 }
             }
         }
         work_stack[0]
             .results
             .iter()
+            .flatten()
             .copied()
             .map(|v| mem::replace(&mut results[v as usize], Default::default()))
             .collect()
diff --git a/simple-bocage/src/traverse.rs b/simple-bocage/src/traverse.rs
index 9def928..4369dd1 100644
--- a/simple-bocage/src/traverse.rs
+++ b/simple-bocage/src/traverse.rs
@@ -1,4 +1,5 @@
 use std::mem;
+use std::ops::Range;
 
 use bumpalo::Bump;
 
@@ -14,7 +15,54 @@ struct WorkNode<'a> {
     node: NodeHandle,
     child: u32,
     parent: usize,
-    results: AVec<u32, &'a Bump>,
+    is_sum: bool,
+    // The alternative lists of results, one list for each way of deriving what was traversed.
+    results: AVec<AVec<u32, &'a Bump>, &'a Bump>,
+}
+
+impl<'a> WorkNode<'a> {
+    fn new(node: NodeHandle, parent: usize, alloc: &'a Bump) -> Self {
+        WorkNode {
+            node,
+            child: 0,
+            parent,
+            is_sum: false,
+            results: AVec::new_in(alloc),
+        }
+    }
+
+    // A sum adds up the alternatives of its summands. A product multiplies those of its factors.
+    fn receive(&mut self, alternatives: AVec<AVec<u32, &'a Bump>, &'a Bump>) {
+        if self.is_sum {
+            self.results.extend(alternatives);
+        } else if alternatives.len() == 1 {
+            for list in &mut self.results {
+                list.extend_from_slice(&alternatives[0]);
+            }
+        } else {
+            let mut results = AVec::new_in(*self.results.allocator());
+            for left in &self.results {
+                for right in &alternatives {
+                    let mut list = left.clone();
+                    list.extend_from_slice(right);
+                    results.push(list);
+                }
+            }
+            self.results = results;
+        }
+    }
+
+    // Receives each of the given results as an alternative.
+    fn receive_results(&mut self, range: Range<usize>) {
+        let alloc = *self.results.allocator();
+        let mut alternatives = AVec::with_capacity_in(range.len(), alloc);
+        for result in range {
+            let mut list = AVec::with_capacity_in(1, alloc);
+            list.push(result as u32);
+            alternatives.push(list);
+        }
+        self.receive(alternatives);
+    }
 }
 
 impl Bocage {
@@ -49,19 +97,10 @@ impl Bocage {
         let alloc = Bump::new();
         let mut results: Vec<E::Elem> = vec![];
         let mut work_stack = vec![
-            WorkNode {
-                node: NULL_HANDLE,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
-            WorkNode {
-                node: root_node,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
+            WorkNode::new(NULL_HANDLE, 0, &alloc),
+            WorkNode::new(root_node, 0, &alloc),
         ];
+        work_stack[0].is_sum = true;
 
         while work_stack.len() > 1 {
             let mut work = work_stack.pop().unwrap();
@@ -72,59 +111,39 @@ impl Bocage {
             match (self[work.node], work.child) {
                 (Node::Sum { count, .. }, n) if n < count => {
                     work.child += 1;
-                    let parent = work.parent;
+                    work.is_sum = true;
+                    let parent = work_stack.len();
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: NodeHandle(node.0 + n + 1),
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(NodeHandle(node.0 + n + 1), parent, &alloc));
                 }
                 (Node::Rule { left_factor, .. }, 0) => {
                     work.child += 1;
                     let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: left_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(left_factor, parent, &alloc));
                 }
                 (Node::Rule { right_factor, .. }, 1) => {
                     work.child += 1;
                     let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: right_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(right_factor, parent, &alloc));
                 }
                 (Node::Rule { .. }, _) => {
                     // nothing to do
                 }
                 (Node::Sum { .. }, _) => {
-                    // nothing to do
+                    work_stack[work.parent].receive(work.results);
                 }
                 (Node::Leaf { symbol, values }, _) => {
                     let result = eval.leaf(symbol, values);
                     results.push(result);
-                    work_stack[work.parent]
-                        .results
-                        .push(results.len() as u32 - 1);
+                    work_stack[work.parent].receive_results(results.len() - 1..results.len());
                 }
                 (Node::Product { factors, .. }, 0) => {
                     work.child += 1;
+                    work.results.push(AVec::new_in(&alloc));
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: factors,
-                        child: 0,
-                        parent: work_stack.len() - 1,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(factors, work_stack.len() - 1, &alloc));
                 }
                 (Node::Product { action, .. }, _) => {
                     let external_origin_opt = if action == NULL_ACTION {
@@ -134,30 +153,32 @@ impl Bocage {
                     };
                     match external_origin_opt {
                         Some(external_origin) if external_origin.id != !0 => {
-                            let result = eval.product(
-                                external_origin.id,
-                                work.results.iter().copied().map(|v| &results[v as usize]),
-                            );
-                            results.push(result);
-                            work_stack[work.parent]
-                                .results
-                                .push(results.len() as u32 - 1);
+                            let start = results.len();
+                            for list in &work.results {
+                                let result = eval.product(
+                                    external_origin.id,
+                                    list.iter().copied().map(|v| &results[v as usize]),
+                                );
+                                results.push(result);
+                            }
+                            work_stack[work.parent].receive_results(start..results.len());
                         }
                         _ => {
-                            work_stack[work.parent].results.extend(work.results);
+                            work_stack[work.parent].receive(work.results);
                         }
                     }
                 }
                 (Node::NullingLeaf { symbol }, _) => {
-                    let values = results.len() as u32;
+                    let start = results.len();
                     eval.nulling(symbol, &mut results);
-                    work_stack[work.parent].results.push(values);
+                    work_stack[work.parent].receive_results(start..results.len());
                 }
             }
         }
         work_stack[0]
             .results
             .iter()
+            .flatten()
             .copied()
             .map(|v| mem::replace(&mut results[v as usize], Default::default()))
             .collect()
-- 
2.43.0


From 30856322b31db007edca2987f4cff72039194d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 17/21] fix: the browser front end must not mix the logs of its
 calls

---
 gearley-wasm/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gearley-wasm/src/lib.rs b/gearley-wasm/src/lib.rs
index 5b02051..4115b3a 100644
--- a/gearley-wasm/src/lib.rs
+++ b/gearley-wasm/src/lib.rs
@@ -220,6 +220,9 @@ fn c_lexer(input: &str) -> Vec<&'static str> {
 #[wasm_bindgen]
 pub fn parse(input: &str, grammar: &str, mode: &str) -> String {
     error_logger::set_panic_hook();
+    let _ = init_logger();
+    // Whatever was logged before this call is not part of its log.
+    let _ = get_logs();
     trace!("begin");
     match mode {
         "c-lexer" => {
-- 
2.43.0


From ecd427e6b9f281fa4f6bdddb30fc94082c10a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 18/21] fix: completions through generated symbols must heed
 the lookahead hint

A rule that ends with symbols that derive nothing was completed whatever
the hint said, so on such a right-recursive grammar every token cost as
much as had been read before.
---
 gearley-recognizer/src/recognizer.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 2a39e6a..36a27b8 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -614,8 +614,16 @@ where
         let [binary_opt, unary_opt] = self.grammar.gen_completion(sym);
         if let Some(trans) = unary_opt {
             let was_predicted = self.predicted[set_id as usize].get(trans.symbol.usize());
-            // let will_be_useful = self.lookahead.sym().map_or(true, |sym| self.grammar.lr_set(trans.dot)[sym.usize()]);
-            if was_predicted {
+            let will_be_useful = self
+                .lookahead
+                .sym()
+                .map_or(true, |sym| {
+                    if trans.symbol.usize() >= self.grammar.num_syms() {
+                        return true;
+                    }
+                    self.grammar.lookahead_set(trans.dot)[sym.usize()]
+                });
+            if was_predicted && (!P::LOOKAHEAD || will_be_useful) {
                 // No checks for uniqueness, because completions are deduplicated.
                 // --- UNARY
                 // from A ::= • g42
-- 
2.43.0


From 11e61ea7dbfeeed3bb02007a4d8e6d115b51f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:23 +0000
Subject: [PATCH 19/21] fix: example evaluators must look up leaves by internal
 symbols

---
 gearley-example-grammars/src/ambiguous_math/mod.rs   | 3 ++-
 gearley-example-grammars/src/precedenced_math/mod.rs | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gearley-example-grammars/src/ambiguous_math/mod.rs b/gearley-example-grammars/src/ambiguous_math/mod.rs
index a8bf976..d3cb9c9 100644
--- a/gearley-example-grammars/src/ambiguous_math/mod.rs
+++ b/gearley-example-grammars/src/ambiguous_math/mod.rs
@@ -30,7 +30,8 @@ impl Evaluate for Evaluator {
 
     fn leaf(&self, terminal: Symbol, _values: u32) -> Self::Elem {
         println!("LEAF {}", terminal.usize());
-        [0, 0, 0, 0, 1, 2, 3, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9][terminal.usize()]
+        // Internal symbols: the end of input comes first.
+        [0, 0, 0, 0, 0, 1, 2, 3, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9][terminal.usize()]
     }
 
     fn product<'a>(
diff --git a/gearley-example-grammars/src/precedenced_math/mod.rs b/gearley-example-grammars/src/precedenced_math/mod.rs
index 1083043..e392769 100644
--- a/gearley-example-grammars/src/precedenced_math/mod.rs
+++ b/gearley-example-grammars/src/precedenced_math/mod.rs
@@ -48,7 +48,10 @@ impl Evaluate for Evaluator {
     type Elem = i32;
 
     fn leaf(&self, terminal: Symbol, _values: u32) -> Self::Elem {
-        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9][terminal.usize()]
+        // Internal symbols: the end of input comes first.
+        [
+            0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,
+        ][terminal.usize()]
     }
 
     fn product<'a>(
-- 
2.43.0


From 3ced9bdddba4649b610ab612e2fafa26fb57f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 20/21] fix: example numbers of three or more digits must be
 read from the left

---
 gearley-example-grammars/src/ambiguous_math/mod.rs   | 2 +-
 gearley-example-grammars/src/precedenced_math/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-example-grammars/src/ambiguous_math/mod.rs b/gearley-example-grammars/src/ambiguous_math/mod.rs
index d3cb9c9..ca876c2 100644
--- a/gearley-example-grammars/src/ambiguous_math/mod.rs
+++ b/gearley-example-grammars/src/ambiguous_math/mod.rs
@@ -17,7 +17,7 @@ pub fn grammar() -> Cfg {
 
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(num).rhs([sym, num]).rhs([sym]);
+        bnf.rule(num).rhs([num, sym]).rhs([sym]);
     }
     bnf.set_roots([expr]);
     bnf
diff --git a/gearley-example-grammars/src/precedenced_math/mod.rs b/gearley-example-grammars/src/precedenced_math/mod.rs
index e392769..77a6cae 100644
--- a/gearley-example-grammars/src/precedenced_math/mod.rs
+++ b/gearley-example-grammars/src/precedenced_math/mod.rs
@@ -36,7 +36,7 @@ pub fn grammar() -> Cfg {
         .rhs([number]);
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(number).rhs([sym, number]).rhs(&[sym]);
+        bnf.rule(number).rhs([number, sym]).rhs(&[sym]);
     }
     bnf.set_roots([sum]);
     bnf
-- 
2.43.0


From 02ad7ecf5bf77fc283ce671ca7184e425ca803cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 21/21] fix: a designator in the example grammar for C begins
 with an opening bracket

---
 gearley-example-grammars/src/c/grammar.panini | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-example-grammars/src/c/grammar.panini b/gearley-example-grammars/src/c/grammar.panini
index a42f831..c7553f3 100644
--- a/gearley-example-grammars/src/c/grammar.panini
+++ b/gearley-example-grammars/src/c/grammar.panini
@@ -288,7 +288,7 @@ start ::= translation_unit;
         designator |
         designator_list designator;
     designator ::= 
-        rbracket constant_expression rbracket |
+        lbracket constant_expression rbracket |
         dot identifier;
     statement ::= 
         labeled_statement |
-- 
2.43.0

