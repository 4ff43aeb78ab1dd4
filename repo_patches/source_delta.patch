From 678526bd993cc0212f3bcf205df7d260b1fa77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 01/10] fix: CartesianProduct::extend only adds pointers for
 the new factors

---
 gearley-utils/src/cartesian_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index c158437..3e5b4b5 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -63,11 +63,11 @@ impl<'a, V> CartesianProduct<'a, V> {
     where
         I: Iterator<Item = &'a [V]>,
     {
+        let first_new = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
         unsafe {
-            // FIXME wrong range
             self.ptrs
-                .extend(self.ranges.iter().map(|factor| &*factor.start));
+                .extend(self.ranges[first_new..].iter().map(|factor| &*factor.start));
         }
     }
 
-- 
2.43.0


From ea8e446568892a14c2a1abeaa41bbe8875f90b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 02/10] fix: CartesianProduct no longer reads out of bounds on
 empty factors, nor miscounts zero-sized values

---
 gearley-utils/src/cartesian_product.rs | 48 ++++++++++----------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index 3e5b4b5..dca57f0 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -1,33 +1,27 @@
-use std::marker::PhantomData;
-
 pub struct Factor<'a, V: 'a> {
-    start: *const V,
-    end: *const V,
-    marker: PhantomData<&'a V>,
+    slice: &'a [V],
+    index: usize,
 }
 
 impl<'a, V> Factor<'a, V> {
     fn new(slice: &'a [V]) -> Self {
-        let start = slice.as_ptr();
-        unsafe {
-            Factor {
-                start,
-                end: start.offset(slice.len() as isize),
-                marker: PhantomData,
-            }
-        }
+        // There is no combination to point at if any factor is empty.
+        assert!(!slice.is_empty(), "empty factor in a cartesian product");
+        Factor { slice, index: 0 }
+    }
+
+    fn first(&self) -> &'a V {
+        &self.slice[0]
     }
 
     fn advance(&mut self, ptr: &mut &'a V) -> bool {
-        unsafe {
-            *ptr = &*(*ptr as *const V).offset(1);
-            if *ptr as *const _ == self.end {
-                *ptr = &*self.start;
-                true
-            } else {
-                false
-            }
+        self.index += 1;
+        let wrapped = self.index == self.slice.len();
+        if wrapped {
+            self.index = 0;
         }
+        *ptr = &self.slice[self.index];
+        wrapped
     }
 }
 
@@ -52,10 +46,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     /// Multiplies the cartesian product by a slice.
     pub fn push(&mut self, slice: &'a [V]) {
         self.ranges.push(Factor::new(slice));
-        unsafe {
-            self.ptrs
-                .push(self.ranges.last().map(|factor| &*factor.start).unwrap());
-        }
+        self.ptrs
+            .push(self.ranges.last().map(|factor| factor.first()).unwrap());
     }
 
     /// Multiplies the cartesian product by an iterator.
@@ -65,10 +57,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     {
         let first_new = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
-        unsafe {
-            self.ptrs
-                .extend(self.ranges[first_new..].iter().map(|factor| &*factor.start));
-        }
+        self.ptrs
+            .extend(self.ranges[first_new..].iter().map(|factor| factor.first()));
     }
 
     pub fn as_slice(&self) -> &[&'a V] {
-- 
2.43.0


From fb3280bbcfc5d872862f3360022a964c7e986a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 03/10] fix: Recognizer::reset clears the lookahead hint and
 later predictions

---
 gearley-recognizer/src/recognizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 41d9e4f..ef33dec 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -319,9 +319,12 @@ where
     pub fn reset(&mut self) {
         // Remove items.
         self.medial.clear();
+        self.leo.clear();
         self.complete.clear();
+        self.lookahead.clear_hint();
         // Earleme is now equal 0.
         // Reset predictions.
+        self.predicted.truncate(1);
         self.predicted[0].clear();
         self.predicted[0].predict(
             self.grammar.start_sym(),
-- 
2.43.0


From b4d29298ebafce4677f8bca366edb013a45448d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 04/10] fix: DefaultGrammar::events returns the columns that
 events() and trace() index

---
 gearley-default-grammar/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index c2696e4..5ecb62c 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -687,7 +687,7 @@ impl Grammar for DefaultGrammar {
 
     #[inline]
     fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
-        (&self.columns[1].events[..], &self.columns[2].events[..])
+        (&self.columns[0].events[..], &self.columns[1].events[..])
     }
 
     #[inline]
-- 
2.43.0


From 69c686b86d8ceefa4621e079160d632805f4682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 05/10] fix: compact bocage decodes node fields without relying
 on alignment

---
 compact-bocage/src/graph.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/compact-bocage/src/graph.rs b/compact-bocage/src/graph.rs
index fac9357..cb88e57 100644
--- a/compact-bocage/src/graph.rs
+++ b/compact-bocage/src/graph.rs
@@ -1,4 +1,3 @@
-use bytemuck::{bytes_of, from_bytes};
 use cfg_symbol::Symbol;
 use gearley_forest::node_handle::NodeHandle;
 
@@ -72,10 +71,10 @@ impl Graph {
         let mut left_slice = [0; 4];
         let mid = index + 1 + l_len as usize;
         left_slice[0..l_len as usize].copy_from_slice(&self.vect[index + 1..mid]);
-        let &left: &u32 = from_bytes(&left_slice[..]);
+        let left = u32::from_le_bytes(left_slice);
         let mut right_slice = [0; 4];
         right_slice[0..r_len as usize].copy_from_slice(&self.vect[mid..mid + r_len as usize]);
-        let &right: &u32 = from_bytes(&right_slice[..]);
+        let right = u32::from_le_bytes(right_slice);
         match discr {
             0 => Node::BeginSum,
             1 => Node::EndSum,
@@ -133,7 +132,7 @@ impl Graph {
             Node::NullingLeaf { symbol } => [6, symbol.usize() as u32, 0],
         };
         self.vect.push(discr as u8 | 0b1111000);
-        self.vect.extend(bytes_of(&left));
-        self.vect.extend(bytes_of(&right));
+        self.vect.extend(left.to_le_bytes());
+        self.vect.extend(right.to_le_bytes());
     }
 }
-- 
2.43.0


From ca8c5b6460f12bdf2007ca2aea10a1578e6e945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 06/10] fix: order symbols by the direction of unary rules, so
 that completions are grouped

---
 gearley-default-grammar/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 5ecb62c..293bc0d 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -235,19 +235,21 @@ impl DefaultGrammar {
         let mut order = grammar.empty_matrix();
         for rule in grammar.rules() {
             if rule.rhs.len() == 1 {
+                // The completion of `lhs` may be caused by the completion of `rhs[0]`.
                 let left = rule.lhs.usize();
                 let right = rule.rhs[0].usize();
-                match left.cmp(&right) {
-                    cmp::Ordering::Less => {
-                        order.set(left, right, true);
-                    }
-                    cmp::Ordering::Greater => {
-                        order.set(right, left, true);
-                    }
-                    cmp::Ordering::Equal => {}
+                if left != right {
+                    order.set(left, right, true);
                 }
             }
         }
+        // Unary rules with gensyms matter for the order of other symbols.
+        order.transitive_closure();
+        for gensym in gensyms.iter() {
+            for dst in (&mut *order)[gensym.usize()].iter_blocks_mut() {
+                *dst = 0;
+            }
+        }
         assert_eq!(grammar.wrapped_roots().len(), 1);
         let end_of_input = grammar.wrapped_roots().first().unwrap().end_of_input;
         let mut not_gensyms = gensyms.clone();
-- 
2.43.0


From 4371014e98b3f151433dbcc160b923560834d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 07/10] fix: only a nullable start symbol makes a trivial
 parse, with an internal symbol for its node

---
 gearley-default-grammar/src/lib.rs   | 4 +++-
 gearley-recognizer/src/recognizer.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 293bc0d..df33e2a 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -592,7 +592,9 @@ impl DefaultGrammar {
     }
 
     fn populate_nulling(&mut self, nulling: &Cfg) {
-        self.has_trivial_derivation = !nulling.is_empty();
+        self.has_trivial_derivation = nulling
+            .rules()
+            .any(|rule| self.to_internal(rule.lhs) == Some(self.original_start_sym));
         let iter_nulling_intermediate = nulling
             .rules()
             .filter_map(|rule| {
diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index ef33dec..3076a78 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -348,7 +348,9 @@ where
     /// Panics when the parse has not finished at the current location.
     pub fn finished_node(&self) -> Option<F::NodeRef> {
         if self.grammar.has_trivial_derivation() && self.earleme() == !0 {
-            Some(self.forest.nulling(self.grammar.externalized_start_sym()))
+            self.grammar
+                .to_internal(self.grammar.externalized_start_sym())
+                .map(|start| self.forest.nulling(start))
         } else {
             let has_dot_before_eof = |item: &&Item<_>| item.dot == self.grammar.dot_before_eof();
             let item_node = |item: &Item<_>| item.node;
-- 
2.43.0


From 5a15529348c4cf1b95e05268e90064376f4bd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 08/10] fix: compact bocage evaluates parses of empty input

---
 compact-bocage/src/traverse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index bd5a100..f28cf14 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -45,8 +45,13 @@ impl Bocage {
                     }
                     right_factor
                 }
-                _ => return vec![],
+                _ => {
+                    let mut start_results = vec![];
+                    eval.nulling(self.forest_info.start, &mut start_results);
+                    return start_results;
+                }
             },
+            Node::NullingLeaf { .. } => root_node,
             Node::BeginSum => match self.get(NodeHandle(root_node.0 + 1)) {
                 Node::Summand { factors, .. } => match self.get(factors) {
                     Node::Rule {
-- 
2.43.0


From 40cf31431f33267e3576d731123894d2a7bcdcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 09/10] fix: evaluation of nested ambiguity gives a result for
 each derivation

---
 compact-bocage/src/traverse.rs | 143 +++++++++++++++++++--------------
 simple-bocage/src/traverse.rs  | 133 ++++++++++++++++++------------
 2 files changed, 164 insertions(+), 112 deletions(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index f28cf14..349cf2d 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -1,4 +1,5 @@
 use std::mem;
+use std::ops::Range;
 
 use bumpalo::Bump;
 
@@ -14,7 +15,57 @@ struct WorkNode<'a> {
     node: NodeHandle,
     child: u32,
     parent: usize,
-    results: AVec<u32, &'a Bump>,
+    /// Alternatives. Each alternative is a sequence of results.
+    results: AVec<AVec<u32, &'a Bump>, &'a Bump>,
+    /// Whether the results of the children are alternatives, rather than parts of each sequence.
+    is_sum: bool,
+}
+
+impl<'a> WorkNode<'a> {
+    fn new(node: NodeHandle, parent: usize, alloc: &'a Bump) -> Self {
+        let mut results = AVec::new_in(alloc);
+        results.push(AVec::new_in(alloc));
+        WorkNode {
+            node,
+            child: 0,
+            parent,
+            results,
+            is_sum: false,
+        }
+    }
+
+    /// Adds the results of a child.
+    fn add(&mut self, alternatives: AVec<AVec<u32, &'a Bump>, &'a Bump>) {
+        if self.is_sum {
+            self.results.extend(alternatives);
+        } else if alternatives.len() == 1 {
+            for sequence in &mut self.results {
+                sequence.extend_from_slice(&alternatives[0]);
+            }
+        } else {
+            let mut results = AVec::new_in(*self.results.allocator());
+            for sequence in &self.results {
+                for alternative in &alternatives {
+                    let mut sequence = sequence.clone();
+                    sequence.extend_from_slice(alternative);
+                    results.push(sequence);
+                }
+            }
+            self.results = results;
+        }
+    }
+
+    /// Adds new results of a child, each being an alternative.
+    fn add_new(&mut self, new: Range<usize>) {
+        let alloc = *self.results.allocator();
+        let mut alternatives = AVec::new_in(alloc);
+        for result in new {
+            let mut sequence = AVec::new_in(alloc);
+            sequence.push(result as u32);
+            alternatives.push(sequence);
+        }
+        self.add(alternatives);
+    }
 }
 
 impl Bocage {
@@ -80,18 +131,8 @@ impl Bocage {
         let alloc = Bump::new();
         let mut results: Vec<E::Elem> = vec![];
         let mut work_stack = vec![
-            WorkNode {
-                node: NULL_HANDLE,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
-            WorkNode {
-                node: root_node,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
+            WorkNode::new(NULL_HANDLE, 0, &alloc),
+            WorkNode::new(root_node, 0, &alloc),
         ];
 
         while work_stack.len() > 1 {
@@ -102,39 +143,32 @@ impl Bocage {
                 node = self.postprocess_product_tree_node(node);
             }
             match (node, work.child) {
+                (Node::BeginSum, 0) => {
+                    work.is_sum = true;
+                    work.results.clear();
+                    work.child += 1;
+                    let summand = NodeHandle(work.node.0 + 1);
+                    work_stack.push(work);
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(summand, parent, &alloc));
+                }
                 (Node::BeginSum, _) => {
-                    work_stack.push(WorkNode {
-                        node: NodeHandle(work.node.0 + 1),
-                        child: 0,
-                        parent: work.parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack[work.parent].add(work.results);
                 }
                 (Node::EndSum, _) => {
-                    println!("END_SUM");
                     // nothing to do
                 }
                 (Node::Rule { left_factor, .. }, 0) => {
                     work.child += 1;
                     let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: left_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(left_factor, parent, &alloc));
                 }
                 (Node::Rule { right_factor, .. }, 1) => {
                     work.child += 1;
                     let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: right_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(right_factor, parent, &alloc));
                 }
                 (Node::Rule { .. }, _) => {
                     // nothing to do
@@ -142,19 +176,13 @@ impl Bocage {
                 (Node::Leaf { symbol, values }, _) => {
                     let result = eval.leaf(symbol, values);
                     results.push(result);
-                    work_stack[work.parent]
-                        .results
-                        .push(results.len() as u32 - 1);
+                    work_stack[work.parent].add_new(results.len() - 1..results.len());
                 }
                 (Node::Product { factors, .. }, 0) | (Node::Summand { factors, .. }, 0) => {
                     work.child += 1;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: factors,
-                        child: 0,
-                        parent: work_stack.len() - 1,
-                        results: AVec::new_in(&alloc),
-                    });
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(factors, parent, &alloc));
                 }
                 (Node::Product { action, .. }, _) | (Node::Summand { action, .. }, _) => {
                     let external_origin_opt = if action == NULL_ACTION {
@@ -164,40 +192,37 @@ impl Bocage {
                     };
                     match external_origin_opt {
                         Some(external_origin) if external_origin.id != !0 => {
-                            let result = eval.product(
-                                external_origin.id,
-                                work.results.iter().copied().map(|v| &results[v as usize]),
-                            );
-                            results.push(result);
-                            work_stack[work.parent]
-                                .results
-                                .push(results.len() as u32 - 1);
+                            let start = results.len();
+                            for sequence in &work.results {
+                                let result = eval.product(
+                                    external_origin.id,
+                                    sequence.iter().copied().map(|v| &results[v as usize]),
+                                );
+                                results.push(result);
+                            }
+                            work_stack[work.parent].add_new(start..results.len());
                         }
                         _ => {
-                            work_stack[work.parent].results.extend(work.results);
+                            work_stack[work.parent].add(work.results);
                         }
                     }
                     if matches!(node, Node::Summand { .. }) {
-                        println!("SUMMAND");
                         let size = self.graph.get_node_size(work.node.0 as usize);
-                        work_stack.push(WorkNode {
-                            node: NodeHandle(work.node.0 + size),
-                            child: 0,
-                            parent: work.parent,
-                            results: AVec::new_in(&alloc),
-                        });
+                        let next = NodeHandle(work.node.0 + size);
+                        work_stack.push(WorkNode::new(next, work.parent, &alloc));
                     }
                 }
                 (Node::NullingLeaf { symbol }, _) => {
-                    let values = results.len() as u32;
+                    let start = results.len();
                     eval.nulling(symbol, &mut results);
-                    work_stack[work.parent].results.push(values);
+                    work_stack[work.parent].add_new(start..results.len());
                 }
             }
         }
         work_stack[0]
             .results
             .iter()
+            .flatten()
             .copied()
             .map(|v| mem::replace(&mut results[v as usize], Default::default()))
             .collect()
diff --git a/simple-bocage/src/traverse.rs b/simple-bocage/src/traverse.rs
index 9def928..0ac0a66 100644
--- a/simple-bocage/src/traverse.rs
+++ b/simple-bocage/src/traverse.rs
@@ -1,4 +1,5 @@
 use std::mem;
+use std::ops::Range;
 
 use bumpalo::Bump;
 
@@ -14,7 +15,57 @@ struct WorkNode<'a> {
     node: NodeHandle,
     child: u32,
     parent: usize,
-    results: AVec<u32, &'a Bump>,
+    /// Alternatives. Each alternative is a sequence of results.
+    results: AVec<AVec<u32, &'a Bump>, &'a Bump>,
+    /// Whether the results of the children are alternatives, rather than parts of each sequence.
+    is_sum: bool,
+}
+
+impl<'a> WorkNode<'a> {
+    fn new(node: NodeHandle, parent: usize, alloc: &'a Bump) -> Self {
+        let mut results = AVec::new_in(alloc);
+        results.push(AVec::new_in(alloc));
+        WorkNode {
+            node,
+            child: 0,
+            parent,
+            results,
+            is_sum: false,
+        }
+    }
+
+    /// Adds the results of a child.
+    fn add(&mut self, alternatives: AVec<AVec<u32, &'a Bump>, &'a Bump>) {
+        if self.is_sum {
+            self.results.extend(alternatives);
+        } else if alternatives.len() == 1 {
+            for sequence in &mut self.results {
+                sequence.extend_from_slice(&alternatives[0]);
+            }
+        } else {
+            let mut results = AVec::new_in(*self.results.allocator());
+            for sequence in &self.results {
+                for alternative in &alternatives {
+                    let mut sequence = sequence.clone();
+                    sequence.extend_from_slice(alternative);
+                    results.push(sequence);
+                }
+            }
+            self.results = results;
+        }
+    }
+
+    /// Adds new results of a child, each being an alternative.
+    fn add_new(&mut self, new: Range<usize>) {
+        let alloc = *self.results.allocator();
+        let mut alternatives = AVec::new_in(alloc);
+        for result in new {
+            let mut sequence = AVec::new_in(alloc);
+            sequence.push(result as u32);
+            alternatives.push(sequence);
+        }
+        self.add(alternatives);
+    }
 }
 
 impl Bocage {
@@ -49,18 +100,8 @@ impl Bocage {
         let alloc = Bump::new();
         let mut results: Vec<E::Elem> = vec![];
         let mut work_stack = vec![
-            WorkNode {
-                node: NULL_HANDLE,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
-            WorkNode {
-                node: root_node,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
+            WorkNode::new(NULL_HANDLE, 0, &alloc),
+            WorkNode::new(root_node, 0, &alloc),
         ];
 
         while work_stack.len() > 1 {
@@ -71,60 +112,44 @@ impl Bocage {
             }
             match (self[work.node], work.child) {
                 (Node::Sum { count, .. }, n) if n < count => {
+                    if n == 0 {
+                        work.is_sum = true;
+                        work.results.clear();
+                    }
                     work.child += 1;
-                    let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: NodeHandle(node.0 + n + 1),
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    let parent = work_stack.len() - 1;
+                    let summand = NodeHandle(node.0 + n + 1);
+                    work_stack.push(WorkNode::new(summand, parent, &alloc));
                 }
                 (Node::Rule { left_factor, .. }, 0) => {
                     work.child += 1;
                     let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: left_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(left_factor, parent, &alloc));
                 }
                 (Node::Rule { right_factor, .. }, 1) => {
                     work.child += 1;
                     let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: right_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    work_stack.push(WorkNode::new(right_factor, parent, &alloc));
                 }
                 (Node::Rule { .. }, _) => {
                     // nothing to do
                 }
                 (Node::Sum { .. }, _) => {
-                    // nothing to do
+                    work_stack[work.parent].add(work.results);
                 }
                 (Node::Leaf { symbol, values }, _) => {
                     let result = eval.leaf(symbol, values);
                     results.push(result);
-                    work_stack[work.parent]
-                        .results
-                        .push(results.len() as u32 - 1);
+                    work_stack[work.parent].add_new(results.len() - 1..results.len());
                 }
                 (Node::Product { factors, .. }, 0) => {
                     work.child += 1;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: factors,
-                        child: 0,
-                        parent: work_stack.len() - 1,
-                        results: AVec::new_in(&alloc),
-                    });
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(factors, parent, &alloc));
                 }
                 (Node::Product { action, .. }, _) => {
                     let external_origin_opt = if action == NULL_ACTION {
@@ -134,30 +159,32 @@ impl Bocage {
                     };
                     match external_origin_opt {
                         Some(external_origin) if external_origin.id != !0 => {
-                            let result = eval.product(
-                                external_origin.id,
-                                work.results.iter().copied().map(|v| &results[v as usize]),
-                            );
-                            results.push(result);
-                            work_stack[work.parent]
-                                .results
-                                .push(results.len() as u32 - 1);
+                            let start = results.len();
+                            for sequence in &work.results {
+                                let result = eval.product(
+                                    external_origin.id,
+                                    sequence.iter().copied().map(|v| &results[v as usize]),
+                                );
+                                results.push(result);
+                            }
+                            work_stack[work.parent].add_new(start..results.len());
                         }
                         _ => {
-                            work_stack[work.parent].results.extend(work.results);
+                            work_stack[work.parent].add(work.results);
                         }
                     }
                 }
                 (Node::NullingLeaf { symbol }, _) => {
-                    let values = results.len() as u32;
+                    let start = results.len();
                     eval.nulling(symbol, &mut results);
-                    work_stack[work.parent].results.push(values);
+                    work_stack[work.parent].add_new(start..results.len());
                 }
             }
         }
         work_stack[0]
             .results
             .iter()
+            .flatten()
             .copied()
             .map(|v| mem::replace(&mut results[v as usize], Default::default()))
             .collect()
-- 
2.43.0


From 9f22ea4c60791a40b65caf352848cef06b3b091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 10/10] fix: example grammars read numbers with three or more
 digits

---
 gearley-example-grammars/src/ambiguous_math/mod.rs   | 2 +-
 gearley-example-grammars/src/precedenced_math/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-example-grammars/src/ambiguous_math/mod.rs b/gearley-example-grammars/src/ambiguous_math/mod.rs
index a8bf976..ba86d2b 100644
--- a/gearley-example-grammars/src/ambiguous_math/mod.rs
+++ b/gearley-example-grammars/src/ambiguous_math/mod.rs
@@ -17,7 +17,7 @@ pub fn grammar() -> Cfg {
 
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(num).rhs([sym, num]).rhs([sym]);
+        bnf.rule(num).rhs([num, sym]).rhs([sym]);
     }
     bnf.set_roots([expr]);
     bnf
diff --git a/gearley-example-grammars/src/precedenced_math/mod.rs b/gearley-example-grammars/src/precedenced_math/mod.rs
index 1083043..8ef04f8 100644
--- a/gearley-example-grammars/src/precedenced_math/mod.rs
+++ b/gearley-example-grammars/src/precedenced_math/mod.rs
@@ -36,7 +36,7 @@ pub fn grammar() -> Cfg {
         .rhs([number]);
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(number).rhs([sym, number]).rhs(&[sym]);
+        bnf.rule(number).rhs([number, sym]).rhs(&[sym]);
     }
     bnf.set_roots([sum]);
     bnf
-- 
2.43.0

