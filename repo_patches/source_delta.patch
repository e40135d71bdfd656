From e0315a6adde1b38a3e6ee37b111de2b62e8332b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 01/12] fix: CartesianProduct::extend adds pointers for the new
 factors only

---
 gearley-utils/src/cartesian_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index c158437..3e5b4b5 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -63,11 +63,11 @@ impl<'a, V> CartesianProduct<'a, V> {
     where
         I: Iterator<Item = &'a [V]>,
     {
+        let first_new = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
         unsafe {
-            // FIXME wrong range
             self.ptrs
-                .extend(self.ranges.iter().map(|factor| &*factor.start));
+                .extend(self.ranges[first_new..].iter().map(|factor| &*factor.start));
         }
     }
 
-- 
2.43.0


From 7565e14310a15831783abd60857ef2a4d64999c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 02/12] fix: Recognizer::reset drops the lookahead hint and all
 predictions

---
 gearley-recognizer/src/recognizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 41d9e4f..e84c700 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -320,9 +320,11 @@ where
         // Remove items.
         self.medial.clear();
         self.complete.clear();
+        // A hint given for the previous input must not filter the next one.
+        self.lookahead.clear_hint();
         // Earleme is now equal 0.
-        // Reset predictions.
-        self.predicted[0].clear();
+        // Reset predictions, in every row: later rows are only ever added to.
+        self.predicted = BitMatrix::new(8, self.grammar.num_syms());
         self.predicted[0].predict(
             self.grammar.start_sym(),
             self.grammar.prediction_row(self.grammar.start_sym()),
-- 
2.43.0


From b2757feb5a11431386b4d471880ff4b6c8eb86fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 03/12] fix: completion groups begin their sum in the forest,
 however they are completed

---
 gearley-recognizer/src/recognizer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index e84c700..76c6784 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -403,6 +403,8 @@ where
     origin: Origin,
     /// The **Symbol** of this completion.
     lhs_sym: Symbol,
+    /// Whether the sum was begun in the forest.
+    begun: bool,
     /// The recognizer.
     recognizer: &'r mut Recognizer<G, F, P>,
 }
@@ -661,6 +663,7 @@ where
             Some(CompleteGroup {
                 origin: ei.origin,
                 lhs_sym,
+                begun: false,
                 recognizer: self,
             })
         } else {
@@ -677,7 +680,6 @@ where
 {
     /// Completes all items.
     pub fn complete_entire_sum(&mut self) {
-        self.recognizer.forest.begin_sum();
         // For each item, include it in the completion.
         while let Some(item) = self.next_summand() {
             self.push_summand(item);
@@ -711,6 +713,10 @@ where
     /// Includes an item in the completion.
     #[inline]
     pub fn push_summand(&mut self, completed_item: Item<F::NodeRef>) {
+        if !self.begun {
+            self.begun = true;
+            self.recognizer.forest.begin_sum();
+        }
         self.recognizer.forest.push_summand(completed_item);
     }
 
@@ -718,6 +724,7 @@ where
     #[inline]
     pub fn complete_sum(&mut self) -> F::NodeRef {
         let node = self.recognizer.forest.sum(self.lhs_sym, self.origin);
+        self.begun = false;
         self.recognizer.complete(self.origin, self.lhs_sym, node);
         node
     }
-- 
2.43.0


From 9c8ee8f66cd71383403f64ffdc4ddd584a7af30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 04/12] fix: symbols of recursive sequences are not generated
 symbols

---
 gearley-default-grammar/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index c2696e4..5fa273d 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -288,20 +288,37 @@ impl DefaultGrammar {
         // `order` describes relation `A < B`.
         let mut occurrences = vec![(0u32, 0u32, 0u32); grammar.num_syms()];
         let mut gensyms = SymbolBitSet::from_elem(&grammar, false);
+        // The left-hand side and the number of rules that begin with a symbol.
+        let mut owners = vec![(None, 0u32); grammar.num_syms()];
         for rule in grammar.rules() {
-            if rule.rhs.len() == 2 && rule.lhs != rule.rhs[0] {
+            if rule.rhs.len() == 2 {
                 occurrences[rule.lhs.usize()].0 += 1;
                 occurrences[rule.rhs[0].usize()].1 += 1;
+                owners[rule.rhs[0].usize()].0 = Some(rule.lhs);
             }
             for sym in rule.rhs.iter().skip(1) {
                 occurrences[sym.usize()].2 += 1;
             }
         }
         for rule in grammar.rules() {
-            if occurrences[rule.lhs.usize()] == (1, 1, 0) && rule.history.origin().is_null() {
+            if occurrences[rule.lhs.usize()] == (1, 1, 0)
+                && rule.history.origin().is_null()
+                && owners[rule.lhs.usize()].0 != Some(rule.lhs)
+            {
                 gensyms.set(rule.lhs, true);
             }
         }
+        // A generated symbol may also begin the unary variant of its rule, but no other
+        // rule. Otherwise, it is the symbol of a recursive sequence.
+        for rule in grammar.rules() {
+            if rule.rhs.len() == 1 {
+                let (owner, unary_count) = &mut owners[rule.rhs[0].usize()];
+                *unary_count += 1;
+                if *owner != Some(rule.lhs) || *unary_count > 1 {
+                    gensyms.set(rule.rhs[0], false);
+                }
+            }
+        }
         gensyms
     }
 
-- 
2.43.0


From e1e5dcaeb2e5b648f2a3b596dab312092bb95734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 05/12] fix: number symbols so that unary completions come in
 dependency order

The order only related symbols by their numbers, so chains of unary rules and
unary rules made by nulling elimination could complete a symbol before all of
its summands were known.
---
 gearley-default-grammar/src/lib.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 5fa273d..a929107 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -232,19 +232,26 @@ impl DefaultGrammar {
     fn remap_symbols(grammar: &mut Cfg) -> Mapping {
         let gensyms = Self::find_gensyms(grammar);
         trace!("gensyms: {:?}", gensyms);
-        let mut order = grammar.empty_matrix();
+        // Completion of `B` may complete `A` over the same span if there is `A ::= B`, possibly
+        // through other symbols.
+        let mut unary = grammar.empty_matrix();
         for rule in grammar.rules() {
             if rule.rhs.len() == 1 {
-                let left = rule.lhs.usize();
-                let right = rule.rhs[0].usize();
-                match left.cmp(&right) {
-                    cmp::Ordering::Less => {
-                        order.set(left, right, true);
-                    }
-                    cmp::Ordering::Greater => {
-                        order.set(right, left, true);
-                    }
-                    cmp::Ordering::Equal => {}
+                unary.set(rule.lhs.usize(), rule.rhs[0].usize(), true);
+            }
+        }
+        unary.transitive_closure();
+        // Completions are processed from the greatest symbol down, so that `A < B`. Generated
+        // symbols are the greatest, see below.
+        let mut order = grammar.empty_matrix();
+        for left in SymbolSource::generate_fresh().take(grammar.num_syms()) {
+            for right in SymbolSource::generate_fresh().take(grammar.num_syms()) {
+                let is_ordered = unary[(left, right)] && (!unary[(right, left)] || left < right);
+                if is_ordered
+                    && !gensyms.bit_vec()[left.usize()]
+                    && !gensyms.bit_vec()[right.usize()]
+                {
+                    order.set(left.usize(), right.usize(), true);
                 }
             }
         }
-- 
2.43.0


From cc7a0973b893e0f4d5aae8a22392f14aa7cfacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 06/12] fix: DefaultGrammar::events are those of predictions
 and of dots after the first symbol

---
 gearley-default-grammar/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index a929107..d04855b 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -711,7 +711,7 @@ impl Grammar for DefaultGrammar {
 
     #[inline]
     fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
-        (&self.columns[1].events[..], &self.columns[2].events[..])
+        (&self.columns[0].events[..], &self.columns[1].events[..])
     }
 
     #[inline]
-- 
2.43.0


From 056d8f26a824f9166e7e0d7438246c01f1c563a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 07/12] fix: only a nullable start symbol makes a trivial
 derivation

Any nullable symbol did. The nulling node is also asked for by the internal
symbol, as all other nodes.
---
 gearley-default-grammar/src/lib.rs   | 3 ++-
 gearley-recognizer/src/recognizer.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index d04855b..8927584 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -614,7 +614,8 @@ impl DefaultGrammar {
     }
 
     fn populate_nulling(&mut self, nulling: &Cfg) {
-        self.has_trivial_derivation = !nulling.is_empty();
+        let start_sym = self.externalized_start_sym();
+        self.has_trivial_derivation = nulling.rules().any(|rule| rule.lhs == start_sym);
         let iter_nulling_intermediate = nulling
             .rules()
             .filter_map(|rule| {
diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 76c6784..4a82cff 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -347,7 +347,9 @@ where
     /// Panics when the parse has not finished at the current location.
     pub fn finished_node(&self) -> Option<F::NodeRef> {
         if self.grammar.has_trivial_derivation() && self.earleme() == !0 {
-            Some(self.forest.nulling(self.grammar.externalized_start_sym()))
+            self.grammar
+                .to_internal(self.grammar.externalized_start_sym())
+                .map(|sym| self.forest.nulling(sym))
         } else {
             let has_dot_before_eof = |item: &&Item<_>| item.dot == self.grammar.dot_before_eof();
             let item_node = |item: &Item<_>| item.node;
-- 
2.43.0


From 69d7e0e5e62119fbd5317d3f51dc250805c2b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 08/12] fix: evaluate ambiguity inside a parse tree as
 alternatives, not as more arguments (simple bocage)

---
 simple-bocage/src/traverse.rs | 165 +++++++++++++++++-----------------
 1 file changed, 84 insertions(+), 81 deletions(-)

diff --git a/simple-bocage/src/traverse.rs b/simple-bocage/src/traverse.rs
index 9def928..5dc07a0 100644
--- a/simple-bocage/src/traverse.rs
+++ b/simple-bocage/src/traverse.rs
@@ -10,11 +10,50 @@ use allocator_api2::vec::Vec as AVec;
 use crate::bocage::Bocage;
 use crate::node::{Node, NULL_ACTION};
 
+/// One way to read a node: a list of values, in order.
+type Alternative<'a> = AVec<u32, &'a Bump>;
+
 struct WorkNode<'a> {
     node: NodeHandle,
     child: u32,
-    parent: usize,
-    results: AVec<u32, &'a Bump>,
+    /// All ways to read what was traversed of this node.
+    alternatives: AVec<Alternative<'a>, &'a Bump>,
+}
+
+impl<'a> WorkNode<'a> {
+    fn new(node: NodeHandle, alloc: &'a Bump) -> Self {
+        WorkNode {
+            node,
+            child: 0,
+            alternatives: AVec::new_in(alloc),
+        }
+    }
+
+    fn value(&mut self, value: u32, alloc: &'a Bump) {
+        let mut alternative = AVec::with_capacity_in(1, alloc);
+        alternative.push(value);
+        self.alternatives.push(alternative);
+    }
+
+    /// Goes on with every alternative of a right factor after every alternative
+    /// of the left factor.
+    fn multiply(&mut self, right: AVec<Alternative<'a>, &'a Bump>, alloc: &'a Bump) {
+        if let [right_alternative] = &right[..] {
+            // Faster case: not ambiguous.
+            for alternative in &mut self.alternatives {
+                alternative.extend_from_slice(right_alternative);
+            }
+            return;
+        }
+        let left = mem::replace(&mut self.alternatives, AVec::new_in(alloc));
+        for left_alternative in &left {
+            for right_alternative in &right {
+                let mut alternative = left_alternative.clone();
+                alternative.extend_from_slice(right_alternative);
+                self.alternatives.push(alternative);
+            }
+        }
+    }
 }
 
 impl Bocage {
@@ -49,18 +88,8 @@ impl Bocage {
         let alloc = Bump::new();
         let mut results: Vec<E::Elem> = vec![];
         let mut work_stack = vec![
-            WorkNode {
-                node: NULL_HANDLE,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
-            WorkNode {
-                node: root_node,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
+            WorkNode::new(NULL_HANDLE, &alloc),
+            WorkNode::new(root_node, &alloc),
         ];
 
         while work_stack.len() > 1 {
@@ -69,62 +98,20 @@ impl Bocage {
             if work.child == 0 {
                 self[work.node] = self.postprocess_product_tree_node(self[work.node]);
             }
-            match (self[work.node], work.child) {
-                (Node::Sum { count, .. }, n) if n < count => {
-                    work.child += 1;
-                    let parent = work.parent;
-                    work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: NodeHandle(node.0 + n + 1),
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
-                }
-                (Node::Rule { left_factor, .. }, 0) => {
-                    work.child += 1;
-                    let parent = work.parent;
-                    work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: left_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
-                }
-                (Node::Rule { right_factor, .. }, 1) => {
-                    work.child += 1;
-                    let parent = work.parent;
-                    work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: right_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
-                }
-                (Node::Rule { .. }, _) => {
-                    // nothing to do
-                }
-                (Node::Sum { .. }, _) => {
+            let next_node = match (self[work.node], work.child) {
+                (Node::Sum { count, .. }, n) if n < count => Some(NodeHandle(node.0 + n + 1)),
+                (Node::Rule { left_factor, .. }, 0) => Some(left_factor),
+                (Node::Rule { right_factor, .. }, 1) => Some(right_factor),
+                (Node::Product { factors, .. }, 0) => Some(factors),
+                (Node::Sum { .. }, _) | (Node::Rule { .. }, _) => {
                     // nothing to do
+                    None
                 }
                 (Node::Leaf { symbol, values }, _) => {
                     let result = eval.leaf(symbol, values);
                     results.push(result);
-                    work_stack[work.parent]
-                        .results
-                        .push(results.len() as u32 - 1);
-                }
-                (Node::Product { factors, .. }, 0) => {
-                    work.child += 1;
-                    work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: factors,
-                        child: 0,
-                        parent: work_stack.len() - 1,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work.value(results.len() as u32 - 1, &alloc);
+                    None
                 }
                 (Node::Product { action, .. }, _) => {
                     let external_origin_opt = if action == NULL_ACTION {
@@ -132,32 +119,48 @@ impl Bocage {
                     } else {
                         self.forest_info.external_origin(action)
                     };
-                    match external_origin_opt {
-                        Some(external_origin) if external_origin.id != !0 => {
-                            let result = eval.product(
-                                external_origin.id,
-                                work.results.iter().copied().map(|v| &results[v as usize]),
-                            );
-                            results.push(result);
-                            work_stack[work.parent]
-                                .results
-                                .push(results.len() as u32 - 1);
-                        }
-                        _ => {
-                            work_stack[work.parent].results.extend(work.results);
+                    if let Some(external_origin) = external_origin_opt {
+                        if external_origin.id != !0 {
+                            for alternative in &mut work.alternatives {
+                                let result = eval.product(
+                                    external_origin.id,
+                                    alternative.iter().map(|&v| &results[v as usize]),
+                                );
+                                results.push(result);
+                                alternative.clear();
+                                alternative.push(results.len() as u32 - 1);
+                            }
                         }
                     }
+                    None
                 }
                 (Node::NullingLeaf { symbol }, _) => {
-                    let values = results.len() as u32;
+                    let value = results.len() as u32;
                     eval.nulling(symbol, &mut results);
-                    work_stack[work.parent].results.push(values);
+                    work.value(value, &alloc);
+                    None
+                }
+            };
+            if let Some(next_node) = next_node {
+                work.child += 1;
+                work_stack.push(work);
+                work_stack.push(WorkNode::new(next_node, &alloc));
+            } else {
+                let parent = work_stack.last_mut().unwrap();
+                let is_right_factor = parent.child == 2
+                    && parent.node != NULL_HANDLE
+                    && matches!(self[parent.node], Node::Rule { .. });
+                if is_right_factor {
+                    parent.multiply(work.alternatives, &alloc);
+                } else {
+                    parent.alternatives.extend(work.alternatives);
                 }
             }
         }
         work_stack[0]
-            .results
+            .alternatives
             .iter()
+            .flatten()
             .copied()
             .map(|v| mem::replace(&mut results[v as usize], Default::default()))
             .collect()
-- 
2.43.0


From ea204699f30a176c1a32cb25e6ad949ee8de6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 09/12] fix: evaluate all summands of a sum as alternatives,
 and of one summand only itself (compact bocage)

---
 compact-bocage/src/traverse.rs | 177 ++++++++++++++++++---------------
 1 file changed, 96 insertions(+), 81 deletions(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index bd5a100..7dbc85b 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -10,11 +10,50 @@ use allocator_api2::vec::Vec as AVec;
 use crate::bocage::Bocage;
 use crate::node::{Node, NULL_ACTION};
 
+/// One way to read a node: a list of values, in order.
+type Alternative<'a> = AVec<u32, &'a Bump>;
+
 struct WorkNode<'a> {
     node: NodeHandle,
     child: u32,
-    parent: usize,
-    results: AVec<u32, &'a Bump>,
+    /// All ways to read what was traversed of this node.
+    alternatives: AVec<Alternative<'a>, &'a Bump>,
+}
+
+impl<'a> WorkNode<'a> {
+    fn new(node: NodeHandle, alloc: &'a Bump) -> Self {
+        WorkNode {
+            node,
+            child: 0,
+            alternatives: AVec::new_in(alloc),
+        }
+    }
+
+    fn value(&mut self, value: u32, alloc: &'a Bump) {
+        let mut alternative = AVec::with_capacity_in(1, alloc);
+        alternative.push(value);
+        self.alternatives.push(alternative);
+    }
+
+    /// Goes on with every alternative of a right factor after every alternative
+    /// of the left factor.
+    fn multiply(&mut self, right: AVec<Alternative<'a>, &'a Bump>, alloc: &'a Bump) {
+        if let [right_alternative] = &right[..] {
+            // Faster case: not ambiguous.
+            for alternative in &mut self.alternatives {
+                alternative.extend_from_slice(right_alternative);
+            }
+            return;
+        }
+        let left = mem::replace(&mut self.alternatives, AVec::new_in(alloc));
+        for left_alternative in &left {
+            for right_alternative in &right {
+                let mut alternative = left_alternative.clone();
+                alternative.extend_from_slice(right_alternative);
+                self.alternatives.push(alternative);
+            }
+        }
+    }
 }
 
 impl Bocage {
@@ -75,18 +114,8 @@ impl Bocage {
         let alloc = Bump::new();
         let mut results: Vec<E::Elem> = vec![];
         let mut work_stack = vec![
-            WorkNode {
-                node: NULL_HANDLE,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
-            WorkNode {
-                node: root_node,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
+            WorkNode::new(NULL_HANDLE, &alloc),
+            WorkNode::new(root_node, &alloc),
         ];
 
         while work_stack.len() > 1 {
@@ -96,60 +125,41 @@ impl Bocage {
             if work.child == 0 {
                 node = self.postprocess_product_tree_node(node);
             }
-            match (node, work.child) {
-                (Node::BeginSum, _) => {
-                    work_stack.push(WorkNode {
-                        node: NodeHandle(work.node.0 + 1),
-                        child: 0,
-                        parent: work.parent,
-                        results: AVec::new_in(&alloc),
-                    });
-                }
-                (Node::EndSum, _) => {
-                    println!("END_SUM");
-                    // nothing to do
+            let next_node = match (node, work.child) {
+                (Node::BeginSum, offset) => {
+                    // The first summand follows, and each summand is followed by
+                    // another one or by the end of the sum.
+                    let summand = NodeHandle(work.node.0 + 1 + offset);
+                    match self.get(summand) {
+                        Node::EndSum => None,
+                        _ => {
+                            work.child += self.graph.get_node_size(summand.usize());
+                            Some(summand)
+                        }
+                    }
                 }
+                (Node::EndSum, _) => unreachable!(),
                 (Node::Rule { left_factor, .. }, 0) => {
                     work.child += 1;
-                    let parent = work.parent;
-                    work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: left_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    Some(left_factor)
                 }
                 (Node::Rule { right_factor, .. }, 1) => {
                     work.child += 1;
-                    let parent = work.parent;
-                    work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: right_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    Some(right_factor)
+                }
+                (Node::Product { factors, .. }, 0) | (Node::Summand { factors, .. }, 0) => {
+                    work.child += 1;
+                    Some(factors)
                 }
                 (Node::Rule { .. }, _) => {
                     // nothing to do
+                    None
                 }
                 (Node::Leaf { symbol, values }, _) => {
                     let result = eval.leaf(symbol, values);
                     results.push(result);
-                    work_stack[work.parent]
-                        .results
-                        .push(results.len() as u32 - 1);
-                }
-                (Node::Product { factors, .. }, 0) | (Node::Summand { factors, .. }, 0) => {
-                    work.child += 1;
-                    work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: factors,
-                        child: 0,
-                        parent: work_stack.len() - 1,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work.value(results.len() as u32 - 1, &alloc);
+                    None
                 }
                 (Node::Product { action, .. }, _) | (Node::Summand { action, .. }, _) => {
                     let external_origin_opt = if action == NULL_ACTION {
@@ -157,42 +167,47 @@ impl Bocage {
                     } else {
                         self.forest_info.external_origin(action)
                     };
-                    match external_origin_opt {
-                        Some(external_origin) if external_origin.id != !0 => {
-                            let result = eval.product(
-                                external_origin.id,
-                                work.results.iter().copied().map(|v| &results[v as usize]),
-                            );
-                            results.push(result);
-                            work_stack[work.parent]
-                                .results
-                                .push(results.len() as u32 - 1);
-                        }
-                        _ => {
-                            work_stack[work.parent].results.extend(work.results);
+                    if let Some(external_origin) = external_origin_opt {
+                        if external_origin.id != !0 {
+                            for alternative in &mut work.alternatives {
+                                let result = eval.product(
+                                    external_origin.id,
+                                    alternative.iter().map(|&v| &results[v as usize]),
+                                );
+                                results.push(result);
+                                alternative.clear();
+                                alternative.push(results.len() as u32 - 1);
+                            }
                         }
                     }
-                    if matches!(node, Node::Summand { .. }) {
-                        println!("SUMMAND");
-                        let size = self.graph.get_node_size(work.node.0 as usize);
-                        work_stack.push(WorkNode {
-                            node: NodeHandle(work.node.0 + size),
-                            child: 0,
-                            parent: work.parent,
-                            results: AVec::new_in(&alloc),
-                        });
-                    }
+                    None
                 }
                 (Node::NullingLeaf { symbol }, _) => {
-                    let values = results.len() as u32;
+                    let value = results.len() as u32;
                     eval.nulling(symbol, &mut results);
-                    work_stack[work.parent].results.push(values);
+                    work.value(value, &alloc);
+                    None
+                }
+            };
+            if let Some(next_node) = next_node {
+                work_stack.push(work);
+                work_stack.push(WorkNode::new(next_node, &alloc));
+            } else {
+                let parent = work_stack.last_mut().unwrap();
+                let is_right_factor = parent.child == 2
+                    && parent.node != NULL_HANDLE
+                    && matches!(self.get(parent.node), Node::Rule { .. });
+                if is_right_factor {
+                    parent.multiply(work.alternatives, &alloc);
+                } else {
+                    parent.alternatives.extend(work.alternatives);
                 }
             }
         }
         work_stack[0]
-            .results
+            .alternatives
             .iter()
+            .flatten()
             .copied()
             .map(|v| mem::replace(&mut results[v as usize], Default::default()))
             .collect()
-- 
2.43.0


From 9ec08ce949e4e8a256ad008b184c7b5fd1ab2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 10/12] fix: the compact bocage evaluates the parse of the
 empty input

---
 compact-bocage/src/traverse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index 7dbc85b..594c573 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -84,7 +84,11 @@ impl Bocage {
                     }
                     right_factor
                 }
-                _ => return vec![],
+                _ => {
+                    let mut start_results = vec![];
+                    eval.nulling(self.forest_info.start, &mut start_results);
+                    return start_results;
+                }
             },
             Node::BeginSum => match self.get(NodeHandle(root_node.0 + 1)) {
                 Node::Summand { factors, .. } => match self.get(factors) {
@@ -106,6 +110,7 @@ impl Bocage {
                 },
                 _ => panic!("not found"),
             },
+            Node::NullingLeaf { .. } => root_node,
             _ => panic!("not found"),
         };
 
-- 
2.43.0


From 5c53890f059604048244368c51f2cfb07a214fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 11/12] fix: parsing a declared symbol that no rule uses is a
 syntax error, not a panic

---
 gearley-utils/src/parse.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index b8951eb..50ef500 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -56,6 +56,13 @@ impl Display for ParseError {
     }
 }
 
+/// A declared symbol that no rule uses has no internal number. It matches nothing.
+fn internal_or_useless<G: Grammar>(grammar: G, symbol: Symbol) -> Symbol {
+    grammar
+        .to_internal(symbol)
+        .unwrap_or(grammar.useless_symbol())
+}
+
 impl<G, F, P> RecognizerParseExt for Recognizer<G, F, P>
 where
     Self: Debug,
@@ -79,13 +86,13 @@ where
             self.begin_earleme();
             if let Some((_i, t)) = iter.peek() {
                 trace!("utils.lookahead_set_hint: {:?}", **t);
-                let s = self.grammar().to_internal(**t).unwrap();
+                let s = internal_or_useless(self.grammar(), **t);
                 self.lookahead().set_hint(s);
             } else {
                 trace!("utils.lookahead_clear_hint: None null");
                 self.lookahead().clear_hint();
             }
-            self.scan(self.grammar().to_internal(token).unwrap(), i as u32);
+            self.scan(internal_or_useless(self.grammar(), token), i as u32);
             if !self.end_earleme() {
                 return Err(ParseError::Parse {
                     msg: "failed to parse",
@@ -156,10 +163,7 @@ pub fn parse_tokenizing(
     for (i, ch) in input.chars().enumerate() {
         recognizer.begin_earleme();
         for &terminal in loaded.lexer_map.get(ch) {
-            recognizer.scan(
-                recognizer.grammar().to_internal(terminal).unwrap(),
-                ch as u32,
-            );
+            recognizer.scan(internal_or_useless(recognizer.grammar(), terminal), ch as u32);
         }
         if !recognizer.end_earleme() {
             return Err(ParseError::Parse {
-- 
2.43.0


From 5bb0154496369d6adfccc99f532297da354bb56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 12/12] fix: parse_terminal_list reports a syntax error as such

---
 gearley-utils/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index 50ef500..210509e 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -131,7 +131,7 @@ pub fn parse_terminal_list<'a>(
             });
         }
     }
-    let result = recognizer.parse(&tokens);
+    let result = recognizer.parse(&tokens)?;
     if let Some(node) = recognizer.finished_node() {
         trace!("utils.finished_node: NodeHandle {{ handle: {:?} }}", node);
     } else {
@@ -140,7 +140,7 @@ pub fn parse_terminal_list<'a>(
         });
     }
     trace!("utils.bocage: {:?}", recognizer.into_forest());
-    result
+    Ok(result)
 }
 
 pub fn parse_tokenizing(
-- 
2.43.0

