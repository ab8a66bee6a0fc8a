From 16e41eb23245efa5a43693ece7208cc752840f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 1/9] Simulation hooks behind cfg fast_paths_sim (off by
 default)

---
 src/lib.rs            |  4 +++
 src/sim_hooks.rs      | 58 +++++++++++++++++++++++++++++++++++++++++++
 src/valid_flags.rs    |  3 +++
 src/witness_search.rs |  2 ++
 4 files changed, 67 insertions(+)
 create mode 100644 src/sim_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 13ba59c..72578b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,8 @@
  * under the License.
  */
 
+#![allow(unexpected_cfgs)]
+
 #[macro_use]
 extern crate log;
 
@@ -47,6 +49,8 @@ mod node_contractor;
 mod path_calculator;
 mod preparation_graph;
 mod shortest_path;
+#[cfg(fast_paths_sim)]
+pub mod sim_hooks;
 mod valid_flags;
 mod witness_search;
 
diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
new file mode 100644
index 0000000..a277ec7
--- /dev/null
+++ b/src/sim_hooks.rs
@@ -0,0 +1,58 @@
+/*
+ * Licensed to the Apache Software Foundation (ASF) under one
+ * or more contributor license agreements.  See the NOTICE file
+ * distributed with this work for additional information
+ * regarding copyright ownership.  The ASF licenses this file
+ * to you under the Apache License, Version 2.0 (the
+ * "License"); you may not use this file except in compliance
+ * with the License.  You may obtain a copy of the License at
+ *
+ *   http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing,
+ * software distributed under the License is distributed on an
+ * "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+ * KIND, either express or implied.  See the License for the
+ * specific language governing permissions and limitations
+ * under the License.
+ */
+
+//! Hooks for deterministic simulation. Only compiled with `--cfg fast_paths_sim`; without it the
+//! crate does not contain this module or any of its call sites.
+//!
+//! All settings are per thread and have no effect until they are set.
+
+use std::cell::Cell;
+
+/// Decides the budget of the next witness search (given the regular one).
+pub type BudgetFn = fn(usize) -> usize;
+
+thread_local! {
+    static EPOCH_ROOM: Cell<Option<u8>> = const { Cell::new(None) };
+    static WITNESS_BUDGET: Cell<Option<BudgetFn>> = const { Cell::new(None) };
+}
+
+/// New generation counters start so that they wrap around after `room` more resets, as if
+/// they had been in use for a long time. `None` restores the regular start.
+pub fn set_epoch_room(room: Option<u8>) {
+    EPOCH_ROOM.with(|r| r.set(room));
+}
+
+/// Witness searches on this thread ask the given function for their budget.
+pub fn set_witness_budget(budget: Option<BudgetFn>) {
+    WITNESS_BUDGET.with(|b| b.set(budget));
+}
+
+pub(crate) fn first_epoch() -> u32 {
+    match EPOCH_ROOM.with(|r| r.get()) {
+        Some(room) => std::u32::MAX - u32::from(room),
+        None => 1,
+    }
+}
+
+pub(crate) fn witness_budget(regular: usize) -> usize {
+    match WITNESS_BUDGET.with(|b| b.get()) {
+        Some(budget) => budget(regular),
+        None => regular,
+    }
+}
diff --git a/src/valid_flags.rs b/src/valid_flags.rs
index 1bb9fc6..e692394 100644
--- a/src/valid_flags.rs
+++ b/src/valid_flags.rs
@@ -32,7 +32,10 @@ impl ValidFlags {
     pub fn new(num_nodes: usize) -> Self {
         ValidFlags {
             valid_flags: vec![0; num_nodes],
+            #[cfg(not(fast_paths_sim))]
             valid_flag: 1,
+            #[cfg(fast_paths_sim)]
+            valid_flag: crate::sim_hooks::first_epoch() as _,
         }
     }
 
diff --git a/src/witness_search.rs b/src/witness_search.rs
index c64ffdd..0ac0842 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -102,6 +102,8 @@ impl WitnessSearch {
             self.start_node != self.avoid_node && target != self.avoid_node,
             "path calculation must not start or end with avoided node"
         );
+        #[cfg(fast_paths_sim)]
+        let settled_nodes_limit = crate::sim_hooks::witness_budget(settled_nodes_limit);
         if target == self.start_node {
             return WEIGHT_ZERO;
         }
-- 
2.43.0


From 9a598eb11071d85a6f223a04cb3cd7933a8cdd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 2/9] fix: report write errors of the buffered tail in to_file
 and to_dimacs_file

The BufWriter was dropped without flushing, which ignores errors, so a full disk
could leave a truncated (for small graphs: empty) file behind while Ok was returned.
---
 src/input_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index cae2687..ef0c1a8 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -73,7 +73,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     /// Reads an input graph from a text file, using the DIMACS format:
@@ -107,7 +107,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize {
-- 
2.43.0


From d4067e0a17b86a1ce90019262ca183b7074abc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 3/9] fix: refuse DIMACS files without a problem line

An empty file, like the one an interrupted to_dimacs_file leaves behind, was read as
an empty graph.
---
 src/input_graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index ef0c1a8..9551ee9 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -310,6 +310,7 @@ impl InputGraph {
                 );
             }
         }
+        assert!(found_problem_line, "There is no problem line");
         assert_eq!(
             curr_edges, edges,
             "Not enough arc lines: {}, expected: {}",
-- 
2.43.0


From 2ceed6fb51dc7dcca9923c345238115ba5a606db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 4/9] fix: refuse to convert u32::MAX to the 32bit
 representation

u32::MAX stands for usize::MAX there, so an edge with weight u32::MAX silently got the
maximum weight when the graph was restored, and paths using it were no longer found.
---
 src/fast_graph32.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index fcb12a5..f7e7a4a 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -41,8 +41,8 @@ pub struct FastGraph32 {
 
 impl FastGraph32 {
     /// Creates a 32bit Graph from a given `FastGraph`. All (potentially 64bit) `usize` integers are
-    /// simply converted to u32 and if a value exceeds the 32bit limit an error is thrown. The only
-    /// exception is `std::u32::MAX`, which is converted to `std::usize::MAX`.
+    /// simply converted to u32 and if a value is not below `std::u32::MAX` an error is thrown. The
+    /// only exception is `std::usize::MAX`, which is converted to `std::u32::MAX`.
     pub fn new(fast_graph: &FastGraph) -> Self {
         FastGraph32 {
             num_nodes: usize_to_u32(fast_graph.get_num_nodes()),
@@ -79,11 +79,12 @@ pub struct FastGraphEdge32 {
 
 fn usize_to_u32(int: usize) -> u32 {
     if int == std::usize::MAX {
-        usize_to_u32(std::u32::MAX as usize)
-    } else if let Ok(x) = u32::try_from(int) {
-        x
-    } else {
-        panic!("Could not convert {} to a 32-bit integer", int);
+        return std::u32::MAX;
+    }
+    match u32::try_from(int) {
+        // std::u32::MAX is reserved, because it is restored as std::usize::MAX
+        Ok(x) if x != std::u32::MAX => x,
+        _ => panic!("Could not convert {} to a 32-bit integer", int),
     }
 }
 
-- 
2.43.0


From 756965fd64bb56fbb984d93f51ce972aa9654415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 5/9] fix: unpack nested shortcuts without recursion

Shortcuts can be nested as deeply as there are nodes (for example prepare_with_order on
a path graph, contracting from one end), so queries on large graphs or small thread
stacks overflowed the stack and aborted the process.
---
 src/path_calculator.rs | 89 +++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 61 deletions(-)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 98e0115..58709ff 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -267,70 +267,37 @@ impl PathCalculator {
     }
 
     fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_fwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_fwd[edge_id].base_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-        }
+        PathCalculator::unpack(graph, nodes, edge_id, true, reverse);
     }
 
     fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_bwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_bwd[edge_id].adj_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
+        PathCalculator::unpack(graph, nodes, edge_id, false, reverse);
+    }
+
+    /// This is not recursive, because shortcuts can be nested as deeply as there are nodes.
+    fn unpack(
+        graph: &FastGraph,
+        nodes: &mut Vec<NodeId>,
+        edge_id: EdgeId,
+        fwd: bool,
+        reverse: bool,
+    ) {
+        let mut stack = vec![(edge_id, fwd)];
+        while let Some((edge_id, fwd)) = stack.pop() {
+            let edge = if fwd {
+                &graph.edges_fwd[edge_id]
+            } else {
+                &graph.edges_bwd[edge_id]
+            };
+            if !edge.is_shortcut() {
+                nodes.push(if fwd { edge.base_node } else { edge.adj_node });
+            } else if reverse {
+                stack.push((edge.replaced_in_edge, false));
+                stack.push((edge.replaced_out_edge, true));
+            } else {
+                stack.push((edge.replaced_out_edge, true));
+                stack.push((edge.replaced_in_edge, false));
+            }
         }
     }
 
-- 
2.43.0


From ce6e703bb9c793f6e34f9360017baab9c5691619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 6/9] Simulation hook to skip generations, behind cfg
 fast_paths_sim

---
 src/sim_hooks.rs   | 15 +++++++++++++++
 src/valid_flags.rs |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
index a277ec7..f79e110 100644
--- a/src/sim_hooks.rs
+++ b/src/sim_hooks.rs
@@ -29,6 +29,7 @@ pub type BudgetFn = fn(usize) -> usize;
 
 thread_local! {
     static EPOCH_ROOM: Cell<Option<u8>> = const { Cell::new(None) };
+    static EPOCH_JUMP: Cell<Option<(u8, u8)>> = const { Cell::new(None) };
     static WITNESS_BUDGET: Cell<Option<BudgetFn>> = const { Cell::new(None) };
 }
 
@@ -38,6 +39,13 @@ pub fn set_epoch_room(room: Option<u8>) {
     EPOCH_ROOM.with(|r| r.set(room));
 }
 
+/// Generation counters that started regularly jump ahead after `after` resets so that they wrap
+/// around after `room` more resets, as if many resets had not touched any marks in between.
+/// `None` switches this off.
+pub fn set_epoch_jump(jump: Option<(u8, u8)>) {
+    EPOCH_JUMP.with(|j| j.set(jump));
+}
+
 /// Witness searches on this thread ask the given function for their budget.
 pub fn set_witness_budget(budget: Option<BudgetFn>) {
     WITNESS_BUDGET.with(|b| b.set(budget));
@@ -50,6 +58,13 @@ pub(crate) fn first_epoch() -> u32 {
     }
 }
 
+pub(crate) fn later_epoch(epoch: u32) -> u32 {
+    match EPOCH_JUMP.with(|j| j.get()) {
+        Some((after, room)) if epoch == 1 + u32::from(after) => std::u32::MAX - u32::from(room),
+        _ => epoch,
+    }
+}
+
 pub(crate) fn witness_budget(regular: usize) -> usize {
     match WITNESS_BUDGET.with(|b| b.get()) {
         Some(budget) => budget(regular),
diff --git a/src/valid_flags.rs b/src/valid_flags.rs
index e692394..6ed3aed 100644
--- a/src/valid_flags.rs
+++ b/src/valid_flags.rs
@@ -48,6 +48,10 @@ impl ValidFlags {
     }
 
     pub fn invalidate_all(&mut self) {
+        #[cfg(fast_paths_sim)]
+        {
+            self.valid_flag = crate::sim_hooks::later_epoch(self.valid_flag as u32) as _;
+        }
         if self.valid_flag == MAX {
             self.valid_flags = vec![0; self.valid_flags.len()];
             self.valid_flag = 1;
-- 
2.43.0


From d5380894d34ff18398b5b11d21295bbd2f71131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:27 +0000
Subject: [PATCH 7/9] fix: treat path weights beyond the range of the weight
 type as unreachable

The sums wrapped around, so that overlong paths were reported with small
weights, or overflow checks made queries and preparation panic.
---
 src/node_contractor.rs |  5 ++++-
 src/path_calculator.rs | 20 +++++++++++++-------
 src/witness_search.rs  |  2 +-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/node_contractor.rs b/src/node_contractor.rs
index 1d7292d..537a916 100644
--- a/src/node_contractor.rs
+++ b/src/node_contractor.rs
@@ -72,7 +72,10 @@ pub fn handle_shortcuts<F>(
         let in_node = graph.in_edges[node][i].adj_node;
         witness_search.init(in_node, node);
         for j in 0..graph.out_edges[node].len() {
-            let weight = graph.in_edges[node][i].weight + graph.out_edges[node][j].weight;
+            // paths that exceed the range of the weight type do not count as paths
+            let weight = graph.in_edges[node][i]
+                .weight
+                .saturating_add(graph.out_edges[node][j].weight);
             let out_node = graph.out_edges[node][j].adj_node;
             // no need to find the actual weight of a witness path as long as we can be sure
             // that there is some witness with weight smaller or equal to the removed direct
diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 58709ff..0e40724 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -93,7 +93,7 @@ impl PathCalculator {
                 if *start_node == *end_node
                     && *start_weight < WEIGHT_MAX
                     && *end_weight < WEIGHT_MAX
-                    && *start_weight + *end_weight < best_weight
+                    && start_weight.saturating_add(*end_weight) < best_weight
                 {
                     best_weight = *start_weight + *end_weight;
                     meeting_node = *end_node;
@@ -142,7 +142,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_fwd[edge_id].adj_node;
                     let edge_weight = graph.edges_fwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_fwd(adj) {
                         self.update_node_fwd(adj, weight, curr.node_id, edge_id);
                         self.heap_fwd.push(HeapItem::new(weight, adj));
@@ -150,7 +150,10 @@ impl PathCalculator {
                 }
                 self.data_fwd[curr.node_id].settled = true;
                 if self.valid_flags_bwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_bwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id))
+                        < best_weight
                 {
                     best_weight = curr.weight + self.get_weight_bwd(curr.node_id);
                     meeting_node = curr.node_id;
@@ -178,7 +181,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_bwd[edge_id].adj_node;
                     let edge_weight = graph.edges_bwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_bwd(adj) {
                         self.update_node_bwd(adj, weight, curr.node_id, edge_id);
                         self.heap_bwd.push(HeapItem::new(weight, adj));
@@ -186,7 +189,10 @@ impl PathCalculator {
                 }
                 self.data_bwd[curr.node_id].settled = true;
                 if self.valid_flags_fwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_fwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id))
+                        < best_weight
                 {
                     best_weight = curr.weight + self.get_weight_fwd(curr.node_id);
                     meeting_node = curr.node_id;
@@ -220,7 +226,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_bwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
@@ -237,7 +243,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_fwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
diff --git a/src/witness_search.rs b/src/witness_search.rs
index 0ac0842..5e34a52 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -133,7 +133,7 @@ impl WitnessSearch {
                     continue;
                 }
                 let edge_weight = graph.out_edges[curr.node_id][i].weight;
-                let weight = curr.weight + edge_weight;
+                let weight = curr.weight.saturating_add(edge_weight);
                 if weight < self.get_current_weight(adj) {
                     self.update_node(adj, weight);
                     self.heap.push(HeapItem::new(weight, adj));
-- 
2.43.0


From 8a02c74121a1232161109a8c56adc6ba7ec36402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:37 +0000
Subject: [PATCH 8/9] fix: refuse the reserved node id instead of losing count
 of the nodes

The number of nodes wrapped around to zero, and preparing the graph ended
with an index out of bounds.
---
 src/input_graph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index 9551ee9..884274f 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -29,8 +29,8 @@ use rand::Rng;
 
 use serde::{Deserialize, Serialize};
 
-use crate::constants::NodeId;
 use crate::constants::Weight;
+use crate::constants::{NodeId, INVALID_NODE};
 
 #[derive(Serialize, Deserialize, Clone)]
 pub struct InputGraph {
@@ -201,6 +201,9 @@ impl InputGraph {
             );
             return 0;
         }
+        if from == INVALID_NODE || to == INVALID_NODE {
+            panic!("Node id {} is reserved", INVALID_NODE);
+        }
         self.num_nodes = cmp::max(self.num_nodes, cmp::max(from, to) + 1);
         self.edges.push(Edge::new(from, to, weight));
         if bidir {
-- 
2.43.0


From 20898716be13f39a643c7268867bf6f2bfe5aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 9/9] fix: refuse node orders that contain a node twice

---
 src/fast_graph_builder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fast_graph_builder.rs b/src/fast_graph_builder.rs
index 19137cc..2153a72 100644
--- a/src/fast_graph_builder.rs
+++ b/src/fast_graph_builder.rs
@@ -76,6 +76,15 @@ impl FastGraphBuilder {
                 "The given order must have as many nodes as the input graph",
             ));
         }
+        let mut contained = vec![false; order.len()];
+        for &node in order {
+            if node < contained.len() && std::mem::replace(&mut contained[node], true) {
+                return Err(format!(
+                    "The given order must contain every node only once, but contains node {} again",
+                    node
+                ));
+            }
+        }
         let mut builder = FastGraphBuilder::new(input_graph);
         builder.run_contraction_with_order(input_graph, order, params);
         Ok(builder.fast_graph)
-- 
2.43.0

