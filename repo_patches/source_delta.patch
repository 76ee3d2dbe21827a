From 992a23a2e60c70158de3f6c05988ac53cb53a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 01/53] fix: controlled CZ and multi-controlled Z in modifier
 resolution miss a phase

---
 .../src/modifier/modifier_resolver/tket_op_modify.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 9f54663..909812f 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -385,11 +385,13 @@ impl<N: HugrNode> ModifierResolver<N> {
                 Ok(pv)
             }
             CZ => {
-                // reduce CZ to CRz(pi)
-                let mut pv = self.modify_tket_op(n, CRz, new_fn, ancilla)?;
-                let halfturn = new_fn.add_load_value(ConstRotation::new(1.0).unwrap());
-                let dw = pv.incoming.remove(2);
-                connect(new_fn, &dw, &halfturn.into())?;
+                // CnZ(cs,c,t) = H(t); CnX(cs,c,t); H(t)
+                // (CRz(pi) differs from CZ by a phase on the controls.)
+                let h1 = new_fn.add_child_node(H);
+                let h2 = new_fn.add_child_node(H);
+                let mut pv = self.modify_tket_op(n, CX, new_fn, ancilla)?;
+                pv.incoming[1] = connect_by_num(new_fn, &pv.incoming[1], h1, 0);
+                pv.outgoing[1] = connect_by_num(new_fn, &pv.outgoing[1], h2, 0);
                 Ok(pv)
             }
             X | CX | Toffoli => {
-- 
2.43.0


From 8e868fd99c6d46948e975c36aac458d6fafcf27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 02/53] fix: keep the order of a controlled Toffoli's own
 controls in modifier resolution

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 909812f..9916b3d 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -455,7 +455,8 @@ impl<N: HugrNode> ModifierResolver<N> {
                     this.modify_tket_op(n, V, new_fn, ancilla)
                 })?;
                 for _ in 0..gate_control {
-                    outgoing.push(self.pop_control().unwrap().into());
+                    // Controls are popped last-in first-out; keep the original order.
+                    outgoing.insert(0, self.pop_control().unwrap().into());
                 }
                 connect(new_fn, &targ.into(), &pv_cnrx.incoming[0])?;
                 // connect(new_fn, &half_pos.into(), &pv_cnrx.incoming[1])?;
-- 
2.43.0


From f03b6e81d4f21bcade44d24ff2a4ab4ebf7912e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 03/53] fix: control array order of nested control modifiers
 with different sizes

---
 tket/src/modifier/modifier_resolver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 33d1404..274350e 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -704,7 +704,8 @@ impl<N: HugrNode> ModifierResolver<N> {
             input.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
             output.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
         } else {
-            for ctrls in &self.modifiers.accum_ctrl {
+            // The outermost modifier comes first in `accum_ctrl`, and its array comes first.
+            for ctrls in self.modifiers.accum_ctrl.iter().rev() {
                 let n = *ctrls as u64;
                 input.to_mut().insert(0, array_type(n, qb_t()));
                 output.to_mut().insert(0, array_type(n, qb_t()));
-- 
2.43.0


From fed8c59576320f4ed7fa8b5c39ba78a55a5f96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 04/53] fix: function calls around nested regions and repeated
 calls lose their callee in modifier resolution

---
 tket/src/modifier/modifier_resolver.rs        | 12 ++++++-----
 .../modifier/modifier_resolver/call_modify.rs |  6 +++---
 .../modifier/modifier_resolver/dfg_modify.rs  | 20 +++++++++++++------
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 274350e..cd7e367 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -313,8 +313,9 @@ pub struct ModifierResolver<N = Node> {
     /// The worklist of nodes to be processed.
     /// This is needed to avoid modifying a node that is generated during the process.
     worklist: VecDeque<N>,
-    /// A map of static edges to be added after insertion of subgraph.
-    call_map: HashMap<N, (Node, IncomingPort)>,
+    /// The static edges to be added after insertion of subgraph:
+    /// each function node with one of its users in the graph being built.
+    call_map: Vec<(N, (Node, IncomingPort))>,
     // TODO:
     // Should keep track of the collection of modifiers that are applied to the same function.
     // This will prevent the duplicated generation of Controlled-functions.
@@ -333,7 +334,7 @@ impl<N> ModifierResolver<N> {
             corresp_map: HashMap::default(),
             controls: Vec::default(),
             worklist: VecDeque::default(),
-            call_map: HashMap::default(),
+            call_map: Vec::default(),
             qubit_finder: TypeUnpacker::for_qubits(),
         }
     }
@@ -450,7 +451,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     fn corresp_map(&mut self) -> &mut HashMap<DirWire<N>, Vec<DirWire>> {
         &mut self.corresp_map
     }
-    fn call_map(&mut self) -> &mut HashMap<N, (Node, IncomingPort)> {
+    fn call_map(&mut self) -> &mut Vec<(N, (Node, IncomingPort))> {
         &mut self.call_map
     }
 
@@ -1032,13 +1033,14 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         let mut signature = cfg.signature.clone();
         self.modify_signature(&mut signature, true);
+        let outer_calls = mem::take(self.call_map());
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
         let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output.clone())?;
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
 
-        let new = self.insert_sub_dfg(new_dfg, new_cfg)?;
+        let new = self.insert_sub_dfg(new_dfg, new_cfg, outer_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 8ade56e..c8c302f 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -35,7 +35,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             // If the function need not be modified, just copy the Call node as is.
             let new = self.add_node_no_modification(h, n, call.clone(), new_dfg)?;
             self.call_map()
-                .insert(callee.0, (new, call.called_function_port()));
+                .push((callee.0, (new, call.called_function_port())));
             return Ok(());
         };
 
@@ -48,7 +48,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let new_call_node = new_dfg.add_child_node(new_call);
 
         self.call_map()
-            .insert(new_callee, (new_call_node, new_call_fn_port));
+            .push((new_callee, (new_call_node, new_call_fn_port)));
         // wire the controls
         let mut controls = self.pack_controls(new_dfg)?;
         for (i, control) in controls.iter_mut().enumerate() {
@@ -202,7 +202,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let load = LoadFunction::try_new(modified_sig, load.type_args).map_err(BuildError::from)?;
         let new_load = new_dfg.add_child_node(load);
         self.call_map()
-            .insert(modified_fn, (new_load, IncomingPort::from(0)));
+            .push((modified_fn, (new_load, IncomingPort::from(0))));
         *self.modifiers_mut() = modifiers;
 
         // Make new IndirectCall
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2647184..29373d4 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -417,16 +417,21 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Inserts a sub DFG into the given parent DFG, updating the call map accordingly.
+    ///
+    /// `outer_calls` is the parent's call map, set aside before the sub DFG was built:
+    /// only the calls inside the sub DFG are moved by the insertion.
     pub(super) fn insert_sub_dfg(
         &mut self,
         parent_dfg: &mut impl Container,
         builder: impl Container,
+        outer_calls: Vec<(N, (Node, IncomingPort))>,
     ) -> Result<Node, ModifierResolverErrors<N>> {
         let insertion_result = parent_dfg.add_hugr_view(builder.hugr());
 
         let insertion_correspondence = insertion_result.node_map;
         let new_call_map = update_call_map(self.call_map(), &insertion_correspondence);
-        *self.call_map() = new_call_map;
+        *self.call_map() = outer_calls;
+        self.call_map().extend(new_call_map);
 
         Ok(insertion_result.inserted_entrypoint)
     }
@@ -441,9 +446,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut signature = dfg.signature.clone();
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
+        let outer_calls = mem::take(self.call_map());
         let mut builder = DFGBuilder::new(signature.clone()).unwrap();
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
+        let new_dfg = self.insert_sub_dfg(parent_dfg, builder, outer_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
@@ -490,6 +496,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // Build a new TailLoop with modified body.
+        let outer_calls = mem::take(self.call_map());
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
             tail_loop
@@ -498,7 +505,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             tail_loop.just_outputs.clone(),
         )?;
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder, outer_calls)?;
 
         // connect the controls and register IOs
         let offset = self.control_num();
@@ -542,6 +549,7 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         // Build a new Conditional with modified body.
         let control_types: TypeRow = iter::repeat_n(qb_t(), offset).collect::<Vec<_>>().into();
+        let outer_calls = mem::take(self.call_map());
         let mut builder = ConditionalBuilder::new(
             conditional.sum_rows.clone(),
             control_types.extend(conditional.other_inputs.iter()),
@@ -598,7 +606,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // insert the conditional
-        let new_conditional = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_conditional = self.insert_sub_dfg(new_dfg, builder, outer_calls)?;
 
         // connect the controls and register the IOs
         *self.controls() = Vec::new();
@@ -624,9 +632,9 @@ impl<N: HugrNode> ModifierResolver<N> {
 }
 
 /// composition of two call maps
-fn update_call_map<A, B, C, D>(f: &HashMap<A, (B, C)>, g: &HashMap<B, D>) -> HashMap<A, (D, C)>
+fn update_call_map<A, B, C, D>(f: &[(A, (B, C))], g: &HashMap<B, D>) -> Vec<(A, (D, C))>
 where
-    A: Clone + Eq + std::hash::Hash,
+    A: Clone,
     B: Clone + Eq + std::hash::Hash,
     C: Clone,
     D: Clone,
-- 
2.43.0


From 3071be7aa40a6b66842167877503fd947d907e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 05/53] fix: order of control qubits and loop-carried values of
 a controlled tail loop

---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 29373d4..35908d4 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -499,9 +499,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let outer_calls = mem::take(self.call_map());
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
-            tail_loop
-                .rest
-                .extend(iter::repeat_n(&qb_t(), self.control_num())),
+            TypeRow::from(vec![qb_t(); self.control_num()]).extend(tail_loop.rest.iter()),
             tail_loop.just_outputs.clone(),
         )?;
         self.modify_dfg_body(h, n, &mut builder)?;
-- 
2.43.0


From 1f73c64192523b54d9098ceaa1a937bd60b06b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 06/53] fix: look up the linear units of a command by their
 position among the linear ports

---
 tket/src/circuit/command.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index a75ca10..919ca48 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -166,12 +166,13 @@ impl<'circ, T: HugrView<Node = Node>> Command<'circ, T> {
 
 impl<T: HugrView<Node = Node>> UnitLabeller<Node> for &Command<'_, T> {
     #[inline]
-    fn assign_linear(&self, _: Node, port: Port, _linear_count: usize) -> LinearUnit {
+    fn assign_linear(&self, _: Node, port: Port, linear_count: usize) -> LinearUnit {
         let units = match port.direction() {
             Direction::Incoming => &self.input_linear_units,
             Direction::Outgoing => &self.output_linear_units,
         };
-        *units.get(port.index()).unwrap_or_else(|| {
+        // The units are listed in order, ignoring the non-linear ports.
+        *units.get(linear_count).unwrap_or_else(|| {
             panic!(
                 "Could not assign a linear unit to port {port:?} of node {:?}",
                 self.node
-- 
2.43.0


From f3a3fe5374d1ba605085e9f12bdce8bea63bbbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 07/53] fix: do not reuse the identifier of a live linear unit
 for a new one

---
 tket/src/circuit/command.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index 919ca48..1d67f09 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -253,6 +253,8 @@ pub struct CommandIterator<'circ, T: HugrView> {
     nodes: NodeWalker<'circ, T>,
     /// Last wire for each [`LinearUnit`] in the circuit.
     wire_unit: HashMap<Wire, usize>,
+    /// The next unused [`LinearUnit`] identifier.
+    next_unit: usize,
     /// Maximum number of remaining commands, not counting I/O nodes nor root nodes.
     max_remaining: usize,
     /// Delayed output of constant and load const nodes. Contains nodes that
@@ -282,7 +284,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
         // ports.
         //
         // TODO: `with_wires` combinator for `Units`?
-        let wire_unit = circ
+        let wire_unit: HashMap<Wire, usize> = circ
             .linear_units()
             .map(|(linear_unit, port, _)| (Wire::new(circ.input_node(), port), linear_unit.index()))
             .collect();
@@ -295,6 +297,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
             region,
             region_node_map,
             nodes,
+            next_unit: wire_unit.len(),
             wire_unit,
             // Ignore the input and output nodes, and the root.
             max_remaining: node_count - 2,
@@ -426,7 +429,9 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
 
             match ports {
                 EitherOrBoth::Right((_, out_port, _)) => {
-                    let new_id = self.wire_unit.len();
+                    // The identifiers of terminated units are never reused.
+                    let new_id = self.next_unit;
+                    self.next_unit += 1;
                     register_output(new_id, out_port, &mut self.wire_unit);
                 }
                 EitherOrBoth::Left((_, in_port, _)) => {
-- 
2.43.0


From e64bf1e5e5778e9ea9e1453aedcc14a21b225a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 08/53] fix: greedy commutation moves gates only past
 operations known to commute and independent of them

Operations other than TketOps, qubits allocated inside the circuit, and
dependencies through classical values were ignored.
---
 tket/src/passes/commutation.rs | 77 ++++++++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 12 deletions(-)

diff --git a/tket/src/passes/commutation.rs b/tket/src/passes/commutation.rs
index 053a0cd..cf0fb64 100644
--- a/tket/src/passes/commutation.rs
+++ b/tket/src/passes/commutation.rs
@@ -1,4 +1,5 @@
-use std::{collections::HashMap, rc::Rc};
+use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 use derive_more::{Display, Error, From};
 use hugr::hugr::patch::PatchVerification;
@@ -69,16 +70,28 @@ fn add_to_slice(slice: &mut Slice, com: Rc<ComCommand>) {
 }
 
 fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
-    let mut slices = vec![];
+    let mut slices: SliceVec = vec![];
 
-    let n_qbs = circ.qubit_count();
+    // Operations other than `TketOp`s also take a place in the slices of their
+    // linear values, so that nothing gets moved across them.
+    // Operations without linear inputs (e.g. allocations) have nothing before
+    // them to be moved past.
+    let commands: Vec<Rc<ComCommand>> = circ
+        .commands()
+        .map(|c| Rc::new(ComCommand::from(c)))
+        .filter(|c| c.qubits().next().is_some())
+        .collect();
+
+    // The linear units include the ones created inside the circuit.
+    let n_qbs = commands
+        .iter()
+        .flat_map(|c| c.qubits())
+        .map(|qb| qb.index() + 1)
+        .max()
+        .unwrap_or_default();
     let mut qubit_free_slice = vec![0; n_qbs];
 
-    for command in circ
-        .commands()
-        .filter(|c| is_slice_op(circ.hugr(), c.node()))
-    {
-        let command: ComCommand = command.into();
+    for command in commands {
         let free_slice = command
             .qubits()
             .map(|qb| qubit_free_slice[qb.index()])
@@ -92,16 +105,52 @@ fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
             debug_assert!(free_slice == slices.len());
             slices.push(vec![None; n_qbs]);
         }
-        let command = Rc::new(command);
         add_to_slice(&mut slices[free_slice], command);
     }
 
     slices
 }
 
-/// check if node is one we want to put in to a slice.
-fn is_slice_op<H: HugrView>(h: &H, node: H::Node) -> bool {
-    h.get_optype(node).cast::<TketOp>().is_some()
+/// Check if `command` depends on one of the commands it would be moved in
+/// front of by anything other than the wires of the qubits it commutes on,
+/// e.g. by a rotation angle computed from a measurement result.
+fn depends_on_new_nexts(
+    circ: &Circuit,
+    command: &Rc<ComCommand>,
+    new_nexts: &HashMap<Qb, Rc<ComCommand>>,
+) -> bool {
+    let hugr = circ.hugr();
+    let moved: HashMap<Port, &Rc<ComCommand>> = new_nexts
+        .iter()
+        .filter(|(_, next)| *next != command)
+        .filter_map(|(qb, next)| Some((command.port_of_qb(*qb, Direction::Incoming)?, next)))
+        .collect();
+
+    // Nodes that will be predecessors of the command after moving it.
+    let mut pending: Vec<Node> = hugr
+        .node_inputs(command.node())
+        .filter(|&port| !moved.contains_key(&port.into()))
+        .flat_map(|port| hugr.linked_outputs(command.node(), port))
+        .map(|(node, _)| node)
+        .collect();
+    for (qb, next) in new_nexts.iter().filter(|(_, next)| *next != command) {
+        let Some(port) = next
+            .port_of_qb(*qb, Direction::Incoming)
+            .and_then(|p| p.as_incoming().ok())
+        else {
+            return true;
+        };
+        pending.extend(hugr.linked_outputs(next.node(), port).map(|(node, _)| node));
+    }
+
+    let mut seen: HashSet<Node> = pending.iter().copied().collect();
+    while let Some(node) = pending.pop() {
+        if moved.values().any(|next| next.node() == node) {
+            return true;
+        }
+        pending.extend(hugr.input_neighbours(node).filter(|&n| seen.insert(n)));
+    }
+    false
 }
 
 /// Starting from starting_index, work back along slices to check for the
@@ -312,6 +361,10 @@ pub fn apply_greedy_commutation(circ: &mut Circuit) -> Result<u32, PullForwardEr
                 continue;
             };
 
+            if depends_on_new_nexts(circ, &command, &new_nexts) {
+                continue;
+            }
+
             debug_assert!(
                 destination < slice_index,
                 "Avoid mutating slices we haven't got to yet."
-- 
2.43.0


From e557b626d3ce167b113a802b2dfcfdf88ba59122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 09/53] fix: split a circuit into chunks that respect the
 limit, keeping constants with their loads

---
 tket/src/passes/chunks.rs | 54 +++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 486ffdd..1115acb 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -251,14 +251,20 @@ pub struct CircuitChunks {
 impl CircuitChunks {
     /// Split a circuit into chunks.
     ///
-    /// The circuit is split into chunks of at most `max_size` gates.
+    /// The circuit is split into chunks of at most `max_size` gates, not
+    /// counting constants and their loads.
     pub fn split(circ: &Circuit, max_size: usize) -> Self {
-        Self::split_with_cost(circ, max_size.saturating_sub(1), |_| 1)
+        Self::split_with_cost(circ, max_size, |op| {
+            !matches!(op, OpType::Const(_) | OpType::LoadConstant(_)) as usize
+        })
     }
 
     /// Split a circuit into chunks.
     ///
     /// The circuit is split into chunks of at most `max_cost`, using the provided cost function.
+    /// An operation that costs more than that gets a chunk of its own.
+    ///
+    /// The loads of a constant always stay in the same chunk as the constant.
     pub fn split_with_cost<C: CircuitCost>(
         circ: &Circuit,
         max_cost: C,
@@ -279,22 +285,44 @@ impl CircuitChunks {
             .map(|(n, p)| Wire::new(n, p).into())
             .collect();
 
-        let mut chunks = Vec::new();
-        let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
+        // Group the commands greedily.
+        let mut groups: Vec<Vec<Node>> = Vec::new();
+        let mut const_group: HashMap<Node, usize> = HashMap::new();
         let mut running_cost = C::default();
-        let mut current_group = 0;
-        for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
-            let new_cost = running_cost.clone() + op_cost(hugr.get_optype(node));
-            if new_cost.sub_cost(&max_cost).as_isize() > 0 {
-                running_cost = C::default();
-                current_group += 1;
+        for node in circ.commands().map(|cmd| cmd.node()) {
+            let optype = hugr.get_optype(node);
+            if optype.is_load_constant() {
+                // Static edges cannot cross the chunk boundary.
+                let group = hugr
+                    .static_source(node)
+                    .and_then(|const_node| const_group.get(&const_node));
+                if let Some(&group) = group {
+                    if group + 1 == groups.len() {
+                        running_cost = running_cost + op_cost(optype);
+                    }
+                    groups[group].push(node);
+                    continue;
+                }
+            }
+            let cost = op_cost(optype);
+            let new_cost = running_cost.clone() + cost.clone();
+            if groups.is_empty() || new_cost.sub_cost(&max_cost).as_isize() > 0 {
+                groups.push(Vec::new());
+                running_cost = cost;
             } else {
                 running_cost = new_cost;
             }
-            current_group
-        }) {
-            chunks.push(Chunk::extract(circ, commands, &convex_checker));
+            if optype.is_const() {
+                const_group.insert(node, groups.len() - 1);
+            }
+            groups.last_mut().unwrap().push(node);
         }
+
+        let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
+        let chunks = groups
+            .into_iter()
+            .map(|nodes| Chunk::extract(circ, nodes, &convex_checker))
+            .collect();
         Self {
             signature: signature.into_owned(),
             root_meta: Some(root_meta),
-- 
2.43.0


From 7ebb1ebe069935449af0b94a8e626cd479dfffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 10/53] fix: reassembling a chunked circuit keeps its name

---
 tket/src/passes/chunks.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 1115acb..9d7d5df 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -235,6 +235,9 @@ pub struct CircuitChunks {
     /// The original circuit's signature.
     signature: Signature,
 
+    /// The original circuit's name.
+    name: Option<String>,
+
     /// The original circuit's root metadata.
     root_meta: Option<NodeMetadataMap>,
 
@@ -325,6 +328,7 @@ impl CircuitChunks {
             .collect();
         Self {
             signature: signature.into_owned(),
+            name: circ.name().map(str::to_owned),
             root_meta: Some(root_meta),
             input_connections,
             output_connections,
@@ -334,13 +338,7 @@ impl CircuitChunks {
 
     /// Reassemble the chunks into a circuit.
     pub fn reassemble(self) -> Result<Circuit, HugrError> {
-        let name = self
-            .root_meta
-            .as_ref()
-            .and_then(|map| map.get("name"))
-            .and_then(|s| s.as_str())
-            .unwrap_or("");
-
+        let name = self.name.as_deref().unwrap_or_default();
         let mut builder = FunctionBuilder::new(name, self.signature).unwrap();
         // Take the unfinished Hugr from the builder, to avoid unnecessary
         // validation checks that require connecting the inputs an outputs.
-- 
2.43.0


From 5d719af675295232374fcdcf923b3df9776ed5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 11/53] fix: reconnect all uses of a wire that enters a chunk
 more than once

---
 tket/src/passes/chunks.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 9d7d5df..2cf8a3d 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -133,7 +133,9 @@ impl Chunk {
                     }
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // The same wire may be connected to multiple chunk inputs.
+            let targets: &mut Vec<ConnectionTarget> = input_map.entry(connection).or_default();
+            targets.extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(chunk.node_inputs(chunk_out)) {
@@ -177,7 +179,8 @@ impl Chunk {
                     ConnectionTarget::TransitiveConnection(output_connection)
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            let targets: &mut Vec<ConnectionTarget> = input_map.entry(connection).or_default();
+            targets.extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(hugr.node_inputs(chunk_out)) {
-- 
2.43.0


From 4ce64322e883a12ecd598695e6081edabdabcafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 12/53] fix: keep nested regions when splitting a circuit into
 chunks

---
 tket/src/passes/chunks.rs | 46 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 2cf8a3d..1a7586e 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -60,7 +60,7 @@ impl Chunk {
             checker,
         )
         .expect("Failed to define the chunk subgraph");
-        let extracted = subgraph.extract_subgraph(circ.hugr(), "Chunk").into();
+        let extracted = extract_with_regions(&subgraph, circ.hugr(), "Chunk").into();
         // Transform the subgraph's input/output sets into wires that can be
         // matched between different chunks.
         //
@@ -110,7 +110,7 @@ impl Chunk {
         let subgraph =
             SiblingSubgraph::<Node>::try_new_dataflow_subgraph::<_, DataflowParentID>(&chunk)
                 .unwrap_or_else(|e| panic!("The chunk circuit is no longer a dataflow graph: {e}"));
-        let node_map = circ.insert_subgraph(root, &chunk, &subgraph);
+        let node_map = insert_with_regions(circ, root, &chunk, &subgraph);
 
         let mut input_map = HashMap::with_capacity(self.inputs.len());
         let mut output_map = HashMap::with_capacity(self.outputs.len());
@@ -204,6 +204,48 @@ impl Chunk {
     }
 }
 
+/// Insert a subgraph into a hugr, including the regions nested in its nodes.
+///
+/// [`HugrMut::insert_subgraph`] only copies the top-level nodes.
+fn insert_with_regions(
+    target: &mut impl HugrMut<Node = Node>,
+    root: Node,
+    source: &impl HugrView<Node = Node>,
+    subgraph: &SiblingSubgraph,
+) -> HashMap<Node, Node> {
+    let nodes = subgraph
+        .nodes()
+        .iter()
+        .flat_map(|&node| source.descendants(node));
+    let root_parents = subgraph.nodes().iter().map(|&node| (node, root));
+    target
+        .insert_view_forest(source, nodes, root_parents)
+        .expect("SiblingSubgraph nodes are a set")
+        .node_map
+}
+
+/// Extract a subgraph into a new function, including the regions nested in its
+/// nodes.
+fn extract_with_regions(subgraph: &SiblingSubgraph, source: &Hugr, name: &str) -> Hugr {
+    let mut builder = FunctionBuilder::new(name, subgraph.signature(source)).unwrap();
+    // Take the unfinished Hugr from the builder, to avoid unnecessary
+    // validation checks that require connecting the inputs and outputs.
+    let mut extracted = mem::take(builder.hugr_mut());
+    let root = extracted.entrypoint();
+    let node_map = insert_with_regions(&mut extracted, root, source, subgraph);
+
+    let [inp, out] = extracted.get_io(root).unwrap();
+    for (idx, ports) in subgraph.incoming_ports().iter().enumerate() {
+        for (node, port) in ports {
+            extracted.connect(inp, idx, node_map[node], *port);
+        }
+    }
+    for (idx, (node, port)) in subgraph.outgoing_ports().iter().enumerate() {
+        extracted.connect(node_map[node], *port, out, idx);
+    }
+    extracted
+}
+
 /// A map from the original input/output [`ChunkConnection`]s to an inserted chunk's inputs and outputs.
 #[derive(Debug, Clone)]
 struct ChunkInsertResult {
-- 
2.43.0


From 24b0b789effb5aec5f09c8dccfe1491ee4c78c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 13/53] fix: compute the boundaries of a circuit chunk directly
 from its commands

---
 tket/src/passes/chunks.rs | 60 ++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 1a7586e..52d2aab 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -2,19 +2,18 @@
 //!
 //! See [`CircuitChunks`] for more information.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::mem;
 use std::ops::{Index, IndexMut};
 
 use derive_more::From;
 use hugr::builder::{Container, FunctionBuilder};
 use hugr::hugr::hugrmut::HugrMut;
-use hugr::hugr::views::sibling_subgraph::TopoConvexChecker;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::hugr::{HugrError, NodeMetadataMap};
 use hugr::ops::handle::DataflowParentID;
 use hugr::ops::OpType;
-use hugr::types::Signature;
+use hugr::types::{EdgeKind, Signature};
 use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals as _};
 use itertools::Itertools;
@@ -49,17 +48,11 @@ impl Chunk {
     /// Extract a chunk from a circuit.
     ///
     /// The chunk is extracted from the input wires to the output wires.
-    pub(self) fn extract(
-        circ: &Circuit,
-        nodes: impl IntoIterator<Item = Node>,
-        checker: &TopoConvexChecker<'_, Hugr>,
-    ) -> Self {
-        let subgraph = SiblingSubgraph::try_from_nodes_with_checker(
-            nodes.into_iter().collect_vec(),
-            circ.hugr(),
-            checker,
-        )
-        .expect("Failed to define the chunk subgraph");
+    ///
+    /// The nodes must be consecutive commands of the circuit, so they always
+    /// form a convex subgraph.
+    pub(self) fn extract(circ: &Circuit, nodes: Vec<Node>) -> Self {
+        let subgraph = chunk_subgraph(circ.hugr(), nodes);
         let extracted = extract_with_regions(&subgraph, circ.hugr(), "Chunk").into();
         // Transform the subgraph's input/output sets into wires that can be
         // matched between different chunks.
@@ -204,6 +197,42 @@ impl Chunk {
     }
 }
 
+/// Define the subgraph containing the given nodes.
+///
+/// The incoming boundary contains the value edges from nodes outside the chunk,
+/// and the outgoing boundary contains the values used outside the chunk.
+fn chunk_subgraph(hugr: &Hugr, nodes: Vec<Node>) -> SiblingSubgraph {
+    let in_chunk: HashSet<Node> = nodes.iter().copied().collect();
+    let mut inputs = Vec::new();
+    let mut outputs = Vec::new();
+    let mut function_calls = Vec::new();
+    for &node in &nodes {
+        let optype = hugr.get_optype(node);
+        for port in hugr.node_inputs(node) {
+            if hugr
+                .linked_outputs(node, port)
+                .all(|(n, _)| in_chunk.contains(&n))
+            {
+                continue;
+            }
+            match optype.port_kind(port) {
+                Some(EdgeKind::Value(_)) => inputs.push(vec![(node, port)]),
+                Some(EdgeKind::Function(_)) => function_calls.push(vec![(node, port)]),
+                _ => {}
+            }
+        }
+        for port in hugr.node_outputs(node) {
+            let used_outside = hugr
+                .linked_inputs(node, port)
+                .any(|(n, _)| !in_chunk.contains(&n));
+            if used_outside && matches!(optype.port_kind(port), Some(EdgeKind::Value(_))) {
+                outputs.push((node, port));
+            }
+        }
+    }
+    SiblingSubgraph::new_unchecked(inputs, outputs, function_calls, nodes)
+}
+
 /// Insert a subgraph into a hugr, including the regions nested in its nodes.
 ///
 /// [`HugrMut::insert_subgraph`] only copies the top-level nodes.
@@ -366,10 +395,9 @@ impl CircuitChunks {
             groups.last_mut().unwrap().push(node);
         }
 
-        let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
         let chunks = groups
             .into_iter()
-            .map(|nodes| Chunk::extract(circ, nodes, &convex_checker))
+            .map(|nodes| Chunk::extract(circ, nodes))
             .collect();
         Self {
             signature: signature.into_owned(),
-- 
2.43.0


From db2f4e93cf6ec1441641454dc8197cb821796088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 14/53] fix: constant folding in NormalizeGuppy removes
 operations with side effects

---
 tket/src/passes.rs            |  3 ++
 tket/src/passes/const_fold.rs | 99 +++++++++++++++++++++++++++++++++++
 tket/src/passes/guppy.rs      |  6 +--
 3 files changed, 105 insertions(+), 3 deletions(-)
 create mode 100644 tket/src/passes/const_fold.rs

diff --git a/tket/src/passes.rs b/tket/src/passes.rs
index 130f5be..6f83409 100644
--- a/tket/src/passes.rs
+++ b/tket/src/passes.rs
@@ -10,6 +10,9 @@ pub use borrow_squash::BorrowSquashPass;
 pub mod chunks;
 pub use chunks::CircuitChunks;
 
+pub mod const_fold;
+pub use const_fold::fold_constants;
+
 pub mod guppy;
 pub use guppy::NormalizeGuppy;
 
diff --git a/tket/src/passes/const_fold.rs b/tket/src/passes/const_fold.rs
new file mode 100644
index 0000000..605f89b
--- /dev/null
+++ b/tket/src/passes/const_fold.rs
@@ -0,0 +1,99 @@
+//! Constant folding that keeps operations with side effects.
+
+use std::collections::HashMap;
+
+use hugr::algorithms::const_fold::{ConstFoldError, ConstantFoldPass};
+use hugr::algorithms::ComposablePass;
+use hugr::extension::prelude::{EXIT_OP_ID, PANIC_OP_ID, PRELUDE_ID};
+use hugr::hugr::hugrmut::HugrMut;
+use hugr::ops::{DataflowOpTrait, OpTrait, OpType, Value};
+use hugr::types::EdgeKind;
+use hugr::{HugrView, IncomingPort, Node};
+use itertools::Itertools;
+
+use crate::extension::debug::DEBUG_EXTENSION_ID;
+
+/// Run a [`ConstantFoldPass`] on the region below the HUGR's entrypoint.
+///
+/// The dead code elimination done by the pass only looks at the values an
+/// operation computes. Here, operations that do something else than computing
+/// values (reporting a result, aborting the program, etc.) are kept, together
+/// with the regions containing them, even if nothing depends on their outputs.
+///
+/// If the HUGR's entrypoint is a module, the functions in `functions` (and
+/// everything they use) are kept. All functions are kept if it is empty.
+pub fn fold_constants<H: HugrMut<Node = Node> + 'static>(
+    hugr: &mut H,
+    functions: impl IntoIterator<Item = Node>,
+) -> Result<(), ConstFoldError> {
+    let mut pass = ConstantFoldPass::default();
+    if hugr.entrypoint_optype().is_module() {
+        let mut functions = functions.into_iter().collect_vec();
+        if functions.is_empty() {
+            functions = hugr
+                .children(hugr.entrypoint())
+                .filter(|&n| hugr.get_optype(n).is_func_defn())
+                .collect();
+        }
+        for f in functions {
+            pass = pass.with_inputs(f, std::iter::empty::<(IncomingPort, Value)>());
+        }
+    }
+
+    // Dead code elimination follows order edges, so temporarily connect each
+    // node that must be kept to the output of its region.
+    let mut output_orders: HashMap<Node, Vec<Node>> = HashMap::new();
+    let effects = hugr
+        .entry_descendants()
+        .filter(|&n| has_side_effects(hugr.get_optype(n)))
+        .collect_vec();
+    for effect in effects {
+        let mut node = effect;
+        while node != hugr.entrypoint() {
+            let Some(parent) = hugr.get_parent(node) else {
+                break;
+            };
+            if let Some([_, output]) = hugr.get_io(parent) {
+                let has_order = hugr.get_optype(node).other_output() == Some(EdgeKind::StateOrder);
+                if has_order && !hugr.output_neighbours(node).contains(&output) {
+                    output_orders
+                        .entry(output)
+                        .or_insert_with(|| order_predecessors(hugr, output));
+                    hugr.add_other_edge(node, output);
+                }
+            }
+            node = parent;
+        }
+    }
+
+    let result = pass.run(hugr);
+
+    for (output, predecessors) in output_orders {
+        if let Some(port) = hugr.get_optype(output).other_input_port() {
+            hugr.disconnect(output, port);
+        }
+        for pred in predecessors {
+            hugr.add_other_edge(pred, output);
+        }
+    }
+    result
+}
+
+/// The sources of the order edges into a node.
+fn order_predecessors<H: HugrView<Node = Node>>(hugr: &H, node: Node) -> Vec<Node> {
+    hugr.get_optype(node)
+        .other_input_port()
+        .map(|port| hugr.linked_outputs(node, port).map(|(n, _)| n).collect())
+        .unwrap_or_default()
+}
+
+/// Whether an operation does more than computing the values on its output wires.
+fn has_side_effects(op: &OpType) -> bool {
+    let Some(ext_op) = op.as_extension_op() else {
+        return false;
+    };
+    let id = ext_op.extension_id();
+    ext_op.signature().output_count() == 0
+        || (id == &PRELUDE_ID && [&PANIC_OP_ID, &EXIT_OP_ID].contains(&ext_op.def().name()))
+        || id == &DEBUG_EXTENSION_ID
+}
diff --git a/tket/src/passes/guppy.rs b/tket/src/passes/guppy.rs
index e41ba8d..f452a2f 100644
--- a/tket/src/passes/guppy.rs
+++ b/tket/src/passes/guppy.rs
@@ -1,6 +1,6 @@
 //! A pass that normalizes the structure of Guppy-generated circuits into something that can be optimized by tket.
 
-use hugr::algorithms::const_fold::{ConstFoldError, ConstantFoldPass};
+use hugr::algorithms::const_fold::ConstFoldError;
 use hugr::algorithms::inline_dfgs::InlineDFGsPass;
 use hugr::algorithms::normalize_cfgs::{NormalizeCFGError, NormalizeCFGPass};
 use hugr::algorithms::untuple::{UntupleError, UntupleRecursive};
@@ -9,7 +9,7 @@ use hugr::hugr::hugrmut::HugrMut;
 use hugr::hugr::patch::inline_dfg::InlineDFGError;
 use hugr::Node;
 
-use crate::passes::BorrowSquashPass;
+use crate::passes::{fold_constants, BorrowSquashPass};
 
 /// Normalize the structure of a Guppy-generated circuit into something that can be optimized by tket.
 ///
@@ -89,7 +89,7 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for NormalizeGuppy {
         }
         // Should propagate through untuple, so could do earlier, and must be before BorrowSquash
         if self.constant_fold {
-            ConstantFoldPass::default().run(hugr)?;
+            fold_constants(hugr, [])?;
         }
         // Only improves compilation speed, not affected by anything else
         // until we start removing untaken branches
-- 
2.43.0


From 8b37d176cdc06b0bb312dc467747d2527f47b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 15/53] fix: constant folding in QSystemPass removes the
 entrypoint and operations with side effects

---
 tket-qsystem/src/lib.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index 08a69d7..bcaa126 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -13,9 +13,7 @@ pub mod replace_bools;
 use derive_more::{Display, Error, From};
 use hugr::{
     algorithms::{
-        const_fold::{ConstFoldError, ConstantFoldPass},
-        force_order,
-        replace_types::ReplaceTypesError,
+        const_fold::ConstFoldError, force_order, replace_types::ReplaceTypesError,
         ComposablePass as _, LinearizeArrayPass, MonomorphizePass, RemoveDeadFuncsError,
         RemoveDeadFuncsPass,
     },
@@ -24,6 +22,7 @@ use hugr::{
 };
 use lower_drops::LowerDropsPass;
 use replace_bools::{ReplaceBoolPass, ReplaceBoolPassError};
+use tket::passes::fold_constants;
 use tket::TketOp;
 
 use extension::{
@@ -67,7 +66,7 @@ pub enum QSystemPassError<N = Node> {
     ForceOrderError(HugrError),
     /// An error from the component [LowerTketToQSystemPass] pass.
     LowerTk2Error(LowerTk2Error),
-    /// An error from the component [ConstantFoldPass] pass.
+    /// An error from the component [fold_constants()] pass.
     ConstantFoldError(ConstFoldError),
     /// An error from the component [LinearizeArrayPass] pass.
     LinearizeArrayError(ReplaceTypesError),
@@ -131,7 +130,7 @@ impl QSystemPass {
             inline_constant_functions(hugr)?;
         }
         if self.constant_fold {
-            self.constant_fold().run(hugr)?;
+            fold_constants(hugr, [entrypoint])?;
         }
         if self.force_order {
             self.force_order(hugr)?;
@@ -189,10 +188,6 @@ impl QSystemPass {
         ReplaceBoolPass
     }
 
-    fn constant_fold(&self) -> ConstantFoldPass {
-        ConstantFoldPass::default()
-    }
-
     fn monomorphization(&self) -> MonomorphizePass {
         MonomorphizePass
     }
-- 
2.43.0


From 42524869ee8d4a37910f8d30ab9d2ae2eebdaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 16/53] fix: constant folding leaves linear values unused when
 they are known

---
 tket/src/passes/const_fold.rs | 120 +++++++++++++++++++++++++++++-----
 1 file changed, 104 insertions(+), 16 deletions(-)

diff --git a/tket/src/passes/const_fold.rs b/tket/src/passes/const_fold.rs
index 605f89b..74094e3 100644
--- a/tket/src/passes/const_fold.rs
+++ b/tket/src/passes/const_fold.rs
@@ -4,11 +4,12 @@ use std::collections::HashMap;
 
 use hugr::algorithms::const_fold::{ConstFoldError, ConstantFoldPass};
 use hugr::algorithms::ComposablePass;
-use hugr::extension::prelude::{EXIT_OP_ID, PANIC_OP_ID, PRELUDE_ID};
+use hugr::extension::prelude::{Barrier, EXIT_OP_ID, PANIC_OP_ID, PRELUDE_ID};
 use hugr::hugr::hugrmut::HugrMut;
+use hugr::hugr::views::ExtractionResult;
 use hugr::ops::{DataflowOpTrait, OpTrait, OpType, Value};
-use hugr::types::EdgeKind;
-use hugr::{HugrView, IncomingPort, Node};
+use hugr::types::{EdgeKind, Type};
+use hugr::{HugrView, IncomingPort, Node, OutgoingPort};
 use itertools::Itertools;
 
 use crate::extension::debug::DEBUG_EXTENSION_ID;
@@ -26,18 +27,14 @@ pub fn fold_constants<H: HugrMut<Node = Node> + 'static>(
     hugr: &mut H,
     functions: impl IntoIterator<Item = Node>,
 ) -> Result<(), ConstFoldError> {
-    let mut pass = ConstantFoldPass::default();
-    if hugr.entrypoint_optype().is_module() {
-        let mut functions = functions.into_iter().collect_vec();
-        if functions.is_empty() {
-            functions = hugr
-                .children(hugr.entrypoint())
-                .filter(|&n| hugr.get_optype(n).is_func_defn())
-                .collect();
-        }
-        for f in functions {
-            pass = pass.with_inputs(f, std::iter::empty::<(IncomingPort, Value)>());
-        }
+    let mut functions = functions.into_iter().collect_vec();
+    if !hugr.entrypoint_optype().is_module() {
+        functions.clear();
+    } else if functions.is_empty() {
+        functions = hugr
+            .children(hugr.entrypoint())
+            .filter(|&n| hugr.get_optype(n).is_func_defn())
+            .collect();
     }
 
     // Dead code elimination follows order edges, so temporarily connect each
@@ -66,9 +63,12 @@ pub fn fold_constants<H: HugrMut<Node = Node> + 'static>(
         }
     }
 
-    let result = pass.run(hugr);
+    let result = fold_copyable(hugr, &functions);
 
     for (output, predecessors) in output_orders {
+        if !hugr.contains_node(output) {
+            continue;
+        }
         if let Some(port) = hugr.get_optype(output).other_input_port() {
             hugr.disconnect(output, port);
         }
@@ -79,6 +79,94 @@ pub fn fold_constants<H: HugrMut<Node = Node> + 'static>(
     result
 }
 
+/// Run the constant folding pass without replacing a non-copyable value by a
+/// constant if the operation producing it is kept, as that value would be unused.
+fn fold_copyable<H: HugrMut<Node = Node> + 'static>(
+    hugr: &mut H,
+    functions: &[Node],
+) -> Result<(), ConstFoldError> {
+    // Do the folding on a copy, to find out which values would be replaced.
+    let (mut copy, map) = hugr.extract_hugr(hugr.module_root());
+    copy.set_entrypoint(map.extracted_node(hugr.entrypoint()));
+    folding_pass(functions.iter().map(|&f| map.extracted_node(f))).run(&mut copy)?;
+    let (unused, gone): (Vec<_>, Vec<_>) = hugr
+        .entry_descendants()
+        .flat_map(|n| hugr.node_outputs(n).map(move |p| (n, p)))
+        .filter(|&(n, p)| linear_type(hugr, n, p).is_some() && hugr.is_linked(n, p))
+        .filter(|&(n, p)| {
+            let copied = map.extracted_node(n);
+            !copy.contains_node(copied) || !copy.is_linked(copied, p)
+        })
+        .partition(|&(n, _)| copy.contains_node(map.extracted_node(n)));
+
+    // Hide the values that would be replaced from the pass where they are
+    // created: it knows nothing about what comes out of a barrier.
+    let mut barriers = vec![];
+    if !unused.is_empty() {
+        let constants = hugr
+            .entry_descendants()
+            .filter(|&n| hugr.get_optype(n).is_load_constant())
+            .flat_map(|n| hugr.node_outputs(n).map(move |p| (n, p)));
+        for (src, port) in unused
+            .into_iter()
+            .chain(gone)
+            .chain(constants)
+            .collect_vec()
+        {
+            let is_leaf = hugr.first_child(src).is_none() && !hugr.get_optype(src).is_input();
+            let linear_input = hugr.in_value_types(src).any(|(_, ty)| !ty.copyable());
+            let (Some(ty), Some((tgt, tgt_port))) = (
+                linear_type(hugr, src, port),
+                hugr.single_linked_input(src, port),
+            ) else {
+                continue;
+            };
+            if !is_leaf || linear_input {
+                continue;
+            }
+            let parent = hugr.get_parent(src).expect("Node has no parent");
+            let barrier = hugr.add_node_with_parent(parent, Barrier::new(vec![ty]));
+            hugr.disconnect(tgt, tgt_port);
+            hugr.connect(src, port, barrier, 0);
+            hugr.connect(barrier, 0, tgt, tgt_port);
+            barriers.push(barrier);
+        }
+    }
+
+    let result = folding_pass(functions.iter().copied()).run(hugr);
+
+    for barrier in barriers {
+        if !hugr.contains_node(barrier) {
+            continue;
+        }
+        let source = hugr.single_linked_output(barrier, 0);
+        let target = hugr.single_linked_input(barrier, 0);
+        hugr.remove_node(barrier);
+        if let (Some((src, src_port)), Some((tgt, tgt_port))) = (source, target) {
+            hugr.connect(src, src_port, tgt, tgt_port);
+        }
+    }
+    result
+}
+
+/// The type of an output port, if its value is not copyable.
+fn linear_type<H: HugrView<Node = Node>>(hugr: &H, node: Node, port: OutgoingPort) -> Option<Type> {
+    match hugr.get_optype(node).port_kind(port) {
+        Some(EdgeKind::Value(ty)) if !ty.copyable() => Some(ty),
+        _ => None,
+    }
+}
+
+/// The constant folding pass that keeps the given functions.
+fn folding_pass(functions: impl IntoIterator<Item = Node>) -> ConstantFoldPass {
+    let no_inputs = std::iter::empty::<(IncomingPort, Value)>;
+    functions
+        .into_iter()
+        .fold(ConstantFoldPass::default(), |pass, f| {
+            pass.with_inputs(f, no_inputs())
+        })
+}
+
 /// The sources of the order edges into a node.
 fn order_predecessors<H: HugrView<Node = Node>>(hugr: &H, node: Node) -> Vec<Node> {
     hugr.get_optype(node)
-- 
2.43.0


From cd05ec8c8fa4c21b69af13a9763d326c28d053ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 17/53] fix: repacking an array of empty containers panics

---
 tket/src/passes/unpack_container.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 5e48b17..4af43fc 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -307,13 +307,13 @@ impl UnpackContainerBuilder {
         let op = self.get_op(op_name, args.clone()).expect("known op");
 
         self.func_map.insert_with(&op, &args[..2], |func_b| {
-            let input = func_b.input();
-            // SAFETY: We guarantee no aliasing by only using this pointer in this closure.
-            let elems: Result<Vec<_>, _> = input
-                .outputs()
-                .collect::<Vec<_>>()
-                .chunks(inner_row_len)
-                .map(|chunk| self.repack_container(func_b, elem_ty, chunk.to_vec()))
+            let in_wires = func_b.input().outputs().collect::<Vec<_>>();
+            // The row of each element may be empty, e.g. for an array of empty arrays.
+            let elems: Result<Vec<_>, _> = (0..size as usize)
+                .map(|i| {
+                    let row = in_wires[i * inner_row_len..(i + 1) * inner_row_len].to_vec();
+                    self.repack_container(func_b, elem_ty, row)
+                })
                 .collect();
 
             let array_wire = func_b.add_new_generic_array::<AK>(elem_ty.clone(), elems?)?;
-- 
2.43.0


From 163d813ce59acbeae03fcffc470849ac08a7f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 18/53] fix: barriers over tuples containing an optional qubit
 cannot be lowered

Optional elements are only unpacked within arrays, as the type analysis says,
and for whatever element type is being unpacked.
---
 tket/src/passes/unpack_container.rs | 32 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 4af43fc..305718c 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -257,9 +257,17 @@ impl UnpackContainerBuilder {
             let w = func_b.input().out_wire(0);
             let elems = func_b.add_generic_array_unpack::<AK>(elem_ty.clone(), size, w)?;
 
+            let target_ty = self.type_analyzer.element_type();
             let result: Vec<_> = elems
                 .into_iter()
-                .map(|wire| self.unpack_container(func_b, elem_ty, wire))
+                .map(|wire| {
+                    // Options are only unpacked when they are the elements of an array.
+                    if is_opt_of(elem_ty, target_ty) {
+                        Ok(vec![self.unpack_option(func_b, wire, target_ty)?])
+                    } else {
+                        self.unpack_container(func_b, elem_ty, wire)
+                    }
+                })
                 .collect::<Result<Vec<_>, _>>()?
                 .concat();
             Ok(result)
@@ -307,12 +315,17 @@ impl UnpackContainerBuilder {
         let op = self.get_op(op_name, args.clone()).expect("known op");
 
         self.func_map.insert_with(&op, &args[..2], |func_b| {
+            let target_ty = self.type_analyzer.element_type();
             let in_wires = func_b.input().outputs().collect::<Vec<_>>();
             // The row of each element may be empty, e.g. for an array of empty arrays.
             let elems: Result<Vec<_>, _> = (0..size as usize)
                 .map(|i| {
                     let row = in_wires[i * inner_row_len..(i + 1) * inner_row_len].to_vec();
-                    self.repack_container(func_b, elem_ty, row)
+                    if is_opt_of(elem_ty, target_ty) {
+                        self.repack_option(func_b, row[0], target_ty)
+                    } else {
+                        self.repack_container(func_b, elem_ty, row)
+                    }
                 })
                 .collect();
 
@@ -456,15 +469,6 @@ impl UnpackContainerBuilder {
             return Ok(vec![container_wire]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, &hugr::extension::prelude::qb_t()) {
-            return Ok(vec![self.unpack_option(
-                builder,
-                container_wire,
-                elem_ty,
-            )?]);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $unpack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
@@ -507,12 +511,6 @@ impl UnpackContainerBuilder {
             return Ok(unpacked_wires[0]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, elem_ty) {
-            debug_assert!(unpacked_wires.len() == 1);
-            return self.repack_option(builder, unpacked_wires[0], elem_ty);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $repack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
-- 
2.43.0


From 78400be87b90261fc7d205d099ed14566bc905c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 19/53] fix: borrow squashing loses the order of the operations
 around it

---
 tket/src/passes/borrow_squash.rs | 52 +++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index 0f770dc..264f1b6 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -10,6 +10,7 @@ use hugr::std_extensions::arithmetic::int_types::ConstInt;
 use hugr::std_extensions::collections::borrow_array::{BArrayUnsafeOpDef, BORROW_ARRAY_TYPENAME};
 use hugr::types::{EdgeKind, Type};
 use hugr::{HugrView, IncomingPort, Node, OutgoingPort, Wire};
+use itertools::Itertools;
 
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet, VecDeque};
@@ -258,12 +259,15 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
     let mut elided: Vec<_> = rb_elisions
         .into_iter()
         .map(|(ret, bor)| {
+            preserve_order(hugr, bor.0, []);
+            let users: Vec<_> = hugr.linked_inputs(bor.0, bor.1).collect();
             // Pass Return-ed value directly through to users of Borrow-ed value
             let src = hugr.single_linked_output(ret.0, ret.1).expect("input");
-            for tgt in hugr.linked_inputs(bor.0, bor.1).collect::<Vec<_>>() {
+            for &tgt in &users {
                 hugr.connect(src.0, src.1, tgt.0, tgt.1);
             }
             elide_node(hugr, bor.0, &bor.2);
+            preserve_order(hugr, ret.0, users.into_iter().map(|(n, _)| n));
             elide_node(hugr, ret.0, &ret.2);
             (ret.0, bor.0)
         })
@@ -283,6 +287,52 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
     elided
 }
 
+/// Adds order edges between the neighbours of a node that is about to be removed, so that
+/// everything that was ordered by means of an order edge of that node stays ordered.
+///
+/// `more_succs` lists further nodes whose inputs depended on `n`.
+fn preserve_order<H: HugrMut<Node = Node>>(
+    hugr: &mut H,
+    n: Node,
+    more_succs: impl IntoIterator<Item = Node>,
+) {
+    let optype = hugr.get_optype(n);
+    let (Some(order_in), Some(order_out)) = (optype.other_input_port(), optype.other_output_port())
+    else {
+        return;
+    };
+    let value_preds: Vec<_> = hugr
+        .in_value_types(n)
+        .filter_map(|(p, _)| hugr.single_linked_output(n, p))
+        .map(|(pred, _)| pred)
+        .collect();
+    let value_succs: Vec<_> = hugr
+        .out_value_types(n)
+        .flat_map(|(p, _)| hugr.linked_inputs(n, p))
+        .map(|(succ, _)| succ)
+        .chain(more_succs)
+        .collect();
+    let order_preds: Vec<_> = hugr.linked_outputs(n, order_in).map(|(n, _)| n).collect();
+    let order_succs: Vec<_> = hugr.linked_inputs(n, order_out).map(|(n, _)| n).collect();
+
+    let from_order = order_preds
+        .iter()
+        .flat_map(|p| order_succs.iter().chain(&value_succs).map(|s| (*p, *s)));
+    let from_value = value_preds
+        .iter()
+        .flat_map(|p| order_succs.iter().map(|s| (*p, *s)));
+    let parent = hugr.get_parent(n);
+    for (pred, succ) in from_order.chain(from_value) {
+        if hugr.get_parent(pred) == parent
+            && hugr.get_parent(succ) == parent
+            && pred != succ
+            && !hugr.output_neighbours(pred).contains(&succ)
+        {
+            hugr.add_other_edge(pred, succ);
+        }
+    }
+}
+
 fn next_array_op(
     hugr: &impl HugrView<Node = Node>,
     candidates: &mut impl Extend<Wire>,
-- 
2.43.0


From 2668c288f450c9f7703060a3d1755ff9ab69ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 20/53] fix: removing tuples fails when one is unpacked twice,
 misses nested ones and loses order edges

---
 tket/src/passes/borrow_squash.rs |  11 ++--
 tket/src/passes/guppy.rs         |   7 ++-
 tket/src/passes/tuple_unpack.rs  | 102 +++++++++++++++++++++----------
 3 files changed, 80 insertions(+), 40 deletions(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index 264f1b6..0a73f32 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -259,7 +259,7 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
     let mut elided: Vec<_> = rb_elisions
         .into_iter()
         .map(|(ret, bor)| {
-            preserve_order(hugr, bor.0, []);
+            preserve_order(hugr, bor.0, [], []);
             let users: Vec<_> = hugr.linked_inputs(bor.0, bor.1).collect();
             // Pass Return-ed value directly through to users of Borrow-ed value
             let src = hugr.single_linked_output(ret.0, ret.1).expect("input");
@@ -267,7 +267,7 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
                 hugr.connect(src.0, src.1, tgt.0, tgt.1);
             }
             elide_node(hugr, bor.0, &bor.2);
-            preserve_order(hugr, ret.0, users.into_iter().map(|(n, _)| n));
+            preserve_order(hugr, ret.0, [], users.into_iter().map(|(n, _)| n));
             elide_node(hugr, ret.0, &ret.2);
             (ret.0, bor.0)
         })
@@ -290,10 +290,12 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
 /// Adds order edges between the neighbours of a node that is about to be removed, so that
 /// everything that was ordered by means of an order edge of that node stays ordered.
 ///
-/// `more_succs` lists further nodes whose inputs depended on `n`.
-fn preserve_order<H: HugrMut<Node = Node>>(
+/// `more_preds` lists further nodes that come before `n`, `more_succs` further nodes whose inputs
+/// depended on it.
+pub(super) fn preserve_order<H: HugrMut<Node = Node>>(
     hugr: &mut H,
     n: Node,
+    more_preds: impl IntoIterator<Item = Node>,
     more_succs: impl IntoIterator<Item = Node>,
 ) {
     let optype = hugr.get_optype(n);
@@ -305,6 +307,7 @@ fn preserve_order<H: HugrMut<Node = Node>>(
         .in_value_types(n)
         .filter_map(|(p, _)| hugr.single_linked_output(n, p))
         .map(|(pred, _)| pred)
+        .chain(more_preds)
         .collect();
     let value_succs: Vec<_> = hugr
         .out_value_types(n)
diff --git a/tket/src/passes/guppy.rs b/tket/src/passes/guppy.rs
index f452a2f..c5c5320 100644
--- a/tket/src/passes/guppy.rs
+++ b/tket/src/passes/guppy.rs
@@ -3,12 +3,13 @@
 use hugr::algorithms::const_fold::ConstFoldError;
 use hugr::algorithms::inline_dfgs::InlineDFGsPass;
 use hugr::algorithms::normalize_cfgs::{NormalizeCFGError, NormalizeCFGPass};
-use hugr::algorithms::untuple::{UntupleError, UntupleRecursive};
-use hugr::algorithms::{ComposablePass, RemoveDeadFuncsError, RemoveDeadFuncsPass, UntuplePass};
+use hugr::algorithms::untuple::UntupleError;
+use hugr::algorithms::{ComposablePass, RemoveDeadFuncsError, RemoveDeadFuncsPass};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::hugr::patch::inline_dfg::InlineDFGError;
 use hugr::Node;
 
+use super::tuple_unpack::remove_tuple_unpacks;
 use crate::passes::{fold_constants, BorrowSquashPass};
 
 /// Normalize the structure of a Guppy-generated circuit into something that can be optimized by tket.
@@ -85,7 +86,7 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for NormalizeGuppy {
         }
         // When we do function inlining, do this after, to sort out argument marshalling
         if self.untuple {
-            UntuplePass::new(UntupleRecursive::Recursive).run(hugr)?;
+            remove_tuple_unpacks(hugr);
         }
         // Should propagate through untuple, so could do earlier, and must be before BorrowSquash
         if self.constant_fold {
diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 52ca10d..4a76679 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -5,12 +5,14 @@ use core::panic;
 use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
 use hugr::extension::prelude::{MakeTuple, TupleOpDef};
 use hugr::extension::simple_op::MakeExtensionOp;
+use hugr::hugr::hugrmut::HugrMut;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
 use hugr::types::Type;
-use hugr::{HugrView, Node};
+use hugr::{HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
 use itertools::Itertools;
 
+use super::borrow_squash::preserve_order;
 use crate::circuit::Command;
 use crate::rewrite::CircuitRewrite;
 use crate::Circuit;
@@ -99,45 +101,33 @@ fn remove_pack_unpack<T: HugrView<Node = Node>>(
     unpack_nodes: Vec<Node>,
     num_other_outputs: usize,
 ) -> CircuitRewrite {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
     let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
-    let subcirc_signature = subgraph.signature(circ.hugr());
-
-    // The output port order in `Subcircuit::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
+
+    let mut replacement = DFGBuilder::new(subgraph.signature(circ.hugr())).unwrap();
+    let inputs = replacement.input_wires().collect_vec();
+
+    // If needed, re-add the tuple pack node.
+    let tuple = (num_other_outputs > 0).then(|| {
         let op = MakeTuple::new(tuple_types.to_vec().into());
         let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
+            .add_dataflow_op(op, inputs.clone())
             .unwrap()
             .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs))
-    }
+        tuple
+    });
+
+    // Wire the inputs directly to the unpack outputs, and the new tuple to the other ones.
+    // The order of the outputs of the subgraph is not well defined.
+    let outputs = subgraph
+        .outgoing_ports()
+        .iter()
+        .map(|(node, port)| match *node == pack_node {
+            true => tuple.expect("tuple is used elsewhere"),
+            false => inputs[port.index()],
+        })
+        .collect_vec();
 
     let replacement = replacement
         .finish_hugr_with_outputs(outputs)
@@ -153,6 +143,52 @@ fn remove_pack_unpack<T: HugrView<Node = Node>>(
         .into()
 }
 
+/// Removes every unpacking of a tuple that was packed in the same region, and the tuples that are
+/// not used any more afterwards, in all the regions below the entrypoint.
+pub(super) fn remove_tuple_unpacks<H: HugrMut<Node = Node>>(hugr: &mut H) {
+    let mut unpacks = hugr
+        .entry_descendants()
+        .filter(|&n| is_unpack_tuple(hugr.get_optype(n)))
+        .collect_vec();
+    // Removing a pair may put an inner one together.
+    loop {
+        let n = unpacks.len();
+        unpacks.retain(|&unpack| !remove_unpack(hugr, unpack));
+        if unpacks.len() == n {
+            break;
+        }
+    }
+}
+
+/// Removes an unpack operation, if its tuple was packed in the same region.
+fn remove_unpack<H: HugrMut<Node = Node>>(hugr: &mut H, unpack: Node) -> bool {
+    let tuple_port = IncomingPort::from(0);
+    let Some((pack, _)) = hugr.single_linked_output(unpack, tuple_port) else {
+        return false;
+    };
+    if !is_make_tuple(hugr.get_optype(pack)) || hugr.get_parent(pack) != hugr.get_parent(unpack) {
+        return false;
+    }
+    let values = hugr
+        .in_value_types(pack)
+        .map(|(p, _)| hugr.single_linked_output(pack, p).expect("value input"))
+        .collect_vec();
+    preserve_order(hugr, unpack, values.iter().map(|(n, _)| *n), []);
+    for (i, (value, value_port)) in values.into_iter().enumerate() {
+        let users = hugr.linked_inputs(unpack, i).collect_vec();
+        hugr.disconnect(unpack, OutgoingPort::from(i));
+        for (user, port) in users {
+            hugr.connect(value, value_port, user, port);
+        }
+    }
+    hugr.remove_node(unpack);
+    if hugr.linked_inputs(pack, 0).next().is_none() {
+        preserve_order(hugr, pack, [], []);
+        hugr.remove_node(pack);
+    }
+    true
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 54a55b190880b77d5cb0a707053c620111c70f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 21/53] fix: eliding borrows leaves values used in nested
 regions without their order edge

---
 tket/src/passes/borrow_squash.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index 0a73f32..d3cda39 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -265,6 +265,7 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
             let src = hugr.single_linked_output(ret.0, ret.1).expect("input");
             for &tgt in &users {
                 hugr.connect(src.0, src.1, tgt.0, tgt.1);
+                order_non_local_edge(hugr, src.0, tgt.0);
             }
             elide_node(hugr, bor.0, &bor.2);
             preserve_order(hugr, ret.0, [], users.into_iter().map(|(n, _)| n));
@@ -336,6 +337,19 @@ pub(super) fn preserve_order<H: HugrMut<Node = Node>>(
     }
 }
 
+/// Adds the order edge that an edge from `src` to a node in a nested region requires, if it is
+/// not there yet.
+fn order_non_local_edge<H: HugrMut<Node = Node>>(hugr: &mut H, src: Node, tgt: Node) {
+    let parent = hugr.get_parent(src);
+    let ancestor = std::iter::successors(Some(tgt), |&n| hugr.get_parent(n))
+        .find(|&n| hugr.get_parent(n) == parent);
+    if let Some(ancestor) = ancestor.filter(|&n| n != tgt) {
+        if !hugr.output_neighbours(src).contains(&ancestor) {
+            hugr.add_other_edge(src, ancestor);
+        }
+    }
+}
+
 fn next_array_op(
     hugr: &impl HugrView<Node = Node>,
     candidates: &mut impl Extend<Wire>,
-- 
2.43.0


From e93fc3118dc47050a7074d9d5a87b32f3440b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 22/53] fix: removing tuples used in nested regions fails or
 loses order edges

---
 tket/src/passes/borrow_squash.rs |  2 +-
 tket/src/passes/tuple_unpack.rs  | 25 ++++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index d3cda39..22ba1ed 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -339,7 +339,7 @@ pub(super) fn preserve_order<H: HugrMut<Node = Node>>(
 
 /// Adds the order edge that an edge from `src` to a node in a nested region requires, if it is
 /// not there yet.
-fn order_non_local_edge<H: HugrMut<Node = Node>>(hugr: &mut H, src: Node, tgt: Node) {
+pub(super) fn order_non_local_edge<H: HugrMut<Node = Node>>(hugr: &mut H, src: Node, tgt: Node) {
     let parent = hugr.get_parent(src);
     let ancestor = std::iter::successors(Some(tgt), |&n| hugr.get_parent(n))
         .find(|&n| hugr.get_parent(n) == parent);
diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 4a76679..e548c06 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -12,7 +12,7 @@ use hugr::types::Type;
 use hugr::{HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
 use itertools::Itertools;
 
-use super::borrow_squash::preserve_order;
+use super::borrow_squash::{order_non_local_edge, preserve_order};
 use crate::circuit::Command;
 use crate::rewrite::CircuitRewrite;
 use crate::Circuit;
@@ -73,7 +73,10 @@ fn make_rewrite<T: HugrView<Node = Node>>(
 
     let unpack_nodes = links
         .iter()
-        .filter(|&&neigh| is_unpack_tuple(circ.hugr().get_optype(neigh)))
+        .filter(|&&neigh| {
+            is_unpack_tuple(circ.hugr().get_optype(neigh))
+                && circ.hugr().get_parent(neigh) == circ.hugr().get_parent(tuple_node)
+        })
         .copied()
         .collect_vec();
 
@@ -83,27 +86,30 @@ fn make_rewrite<T: HugrView<Node = Node>>(
 
     // Remove all unpack operations, but only remove the pack operation if all neighbours are unpacks.
     let num_other_outputs = links.len() - unpack_nodes.len();
-    Some(remove_pack_unpack(
+    remove_pack_unpack(
         circ,
         &tuple_types,
         tuple_node,
         unpack_nodes,
         num_other_outputs,
-    ))
+    )
 }
 
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
 /// and `other_tuple_links` other operations.
+///
+/// Returns `None` if the operations cannot be rewritten on their own, as they
+/// have order edges or edges to nested regions.
 fn remove_pack_unpack<T: HugrView<Node = Node>>(
     circ: &Circuit<T>,
     tuple_types: &[Type],
     pack_node: Node,
     unpack_nodes: Vec<Node>,
     num_other_outputs: usize,
-) -> CircuitRewrite {
+) -> Option<CircuitRewrite> {
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
-    let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
+    let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).ok()?;
 
     let mut replacement = DFGBuilder::new(subgraph.signature(circ.hugr())).unwrap();
     let inputs = replacement.input_wires().collect_vec();
@@ -135,12 +141,12 @@ fn remove_pack_unpack<T: HugrView<Node = Node>>(
             panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
         });
 
-    subgraph
+    let rewrite = subgraph
         .create_simple_replacement(circ.hugr(), replacement)
         .unwrap_or_else(|e| {
             panic!("Failed to create rewrite for removing tuple pack/unpack operations. {e}")
-        })
-        .into()
+        });
+    Some(rewrite.into())
 }
 
 /// Removes every unpacking of a tuple that was packed in the same region, and the tuples that are
@@ -179,6 +185,7 @@ fn remove_unpack<H: HugrMut<Node = Node>>(hugr: &mut H, unpack: Node) -> bool {
         hugr.disconnect(unpack, OutgoingPort::from(i));
         for (user, port) in users {
             hugr.connect(value, value_port, user, port);
+            order_non_local_edge(hugr, value, user);
         }
     }
     hugr.remove_node(unpack);
-- 
2.43.0


From e181f46ed5027d010b997e601357851794d33afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 23/53] fix: matching several patterns at once misses
 occurrences of some

An input of a pattern may be any wire, including one that is an internal
edge of another pattern. The automaton follows only one of the two, so
that the presence of a pattern hid matches of others. Build the automaton
from a line of internal edges of each pattern, where all choices exclude
each other, and match the rest on the candidates it finds.
---
 tket/src/portmatching/matcher.rs | 32 ++++++++++++-------
 tket/src/portmatching/pattern.rs | 53 +++++++++++++++++++++++++++++---
 2 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 8be0c35..dd838e3 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -18,7 +18,7 @@ use hugr::{HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex};
 use itertools::Itertools;
 use portmatching::{
     automaton::{LineBuilder, ScopeAutomaton},
-    EdgeProperty, PatternID,
+    EdgeProperty, HashMap, PatternID,
 };
 use smol_str::SmolStr;
 
@@ -145,6 +145,21 @@ impl PatternMatch {
         let map = pattern_ref
             .get_match_map(root, circ)
             .ok_or(InvalidPatternMatch::MatchNotFound)?;
+        Self::try_from_match_map(root, pattern, circ, matcher, map, checker)
+    }
+
+    /// Create a pattern match from the image of all the nodes of the pattern.
+    fn try_from_match_map<H: HugrView<Node = Node>>(
+        root: Node,
+        pattern: PatternID,
+        circ: &Circuit<H>,
+        matcher: &PatternMatcher,
+        map: HashMap<Node, Node>,
+        checker: &TopoConvexChecker<'_, H>,
+    ) -> Result<Self, InvalidPatternMatch> {
+        let pattern_ref = matcher
+            .get_pattern(pattern)
+            .ok_or(InvalidPatternMatch::MatchNotFound)?;
         let inputs = pattern_ref
             .inputs
             .iter()
@@ -252,12 +267,7 @@ impl PatternMatcher {
         let patterns: Vec<CircuitPattern> = patterns.into();
         let line_patterns = patterns
             .iter()
-            .map(|p| {
-                p.pattern
-                    .clone()
-                    .try_into_line_pattern(compatible_offsets)
-                    .expect("Failed to express pattern as line pattern")
-            })
+            .map(CircuitPattern::line_pattern)
             .collect_vec();
         let builder = LineBuilder::from_patterns(line_patterns);
         let automaton = builder.build();
@@ -299,10 +309,10 @@ impl PatternMatcher {
                 validate_circuit_edge(circ),
             )
             .filter_map(|pattern_id| {
+                // The automaton only checks a single line of the pattern.
+                let map = self.get_pattern(pattern_id)?.get_match_map(root, circ)?;
                 handle_match_error(
-                    PatternMatch::try_from_root_match_with_checker(
-                        root, pattern_id, circ, self, checker,
-                    ),
+                    PatternMatch::try_from_match_map(root, pattern_id, circ, self, map, checker),
                     root,
                 )
             })
@@ -425,7 +435,7 @@ impl From<InvalidSubgraph> for InvalidPatternMatch {
     }
 }
 
-fn compatible_offsets(e1: &PEdge, e2: &PEdge) -> bool {
+pub(super) fn compatible_offsets(e1: &PEdge, e2: &PEdge) -> bool {
     let PEdge::InternalEdge { dst: dst1, .. } = e1 else {
         return false;
     };
diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index 3f378fa..ca7a605 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -4,11 +4,13 @@ use derive_more::{Display, Error};
 use hugr::{HugrView, IncomingPort};
 use hugr::{Node, Port};
 use itertools::Itertools;
-use portmatching::{patterns::NoRootFound, HashMap, Pattern, SinglePatternMatcher};
+use portmatching::patterns::{LinePattern, NoRootFound};
+use portmatching::{EdgeProperty, HashMap, Pattern, SinglePatternMatcher};
 use std::fmt::Debug;
+use std::sync::{Arc, OnceLock};
 
 use super::{
-    matcher::{validate_circuit_edge, validate_circuit_node},
+    matcher::{compatible_offsets, validate_circuit_edge, validate_circuit_node},
     PEdge, PNode,
 };
 use crate::{circuit::Circuit, portmatching::NodeID};
@@ -21,6 +23,9 @@ pub struct CircuitPattern {
     pub(super) inputs: Vec<Vec<(Node, Port)>>,
     /// The output ports
     pub(super) outputs: Vec<(Node, Port)>,
+    /// Matcher for this pattern only, built when first used.
+    #[serde(skip)]
+    single_matcher: OnceLock<Arc<SinglePatternMatcher<NodeID, PNode, PEdge>>>,
 }
 
 impl CircuitPattern {
@@ -96,17 +101,57 @@ impl CircuitPattern {
             pattern,
             inputs,
             outputs,
+            single_matcher: OnceLock::new(),
         })
     }
 
+    /// A single line through the pattern, starting at its root.
+    ///
+    /// Follows internal edges only. An input can be any wire, including one
+    /// from an operation that a larger pattern contains, and an automaton that
+    /// matches both kinds of edges would follow only one of them.
+    pub(super) fn line_pattern(&self) -> LinePattern<NodeID, PNode, PEdge> {
+        let root = self.pattern.root().expect("pattern has a root");
+        let edges = self.pattern.edges().expect("pattern is connected");
+        let mut unvisited: Vec<_> = edges
+            .into_iter()
+            .filter(|e| matches!(e.edge_prop, PEdge::InternalEdge { .. }))
+            .flat_map(|e| [e.reverse(), Some(e)])
+            .flatten()
+            .filter_map(|e| Some((e.source?, e.target?, e.edge_prop)))
+            .sorted()
+            .collect();
+        let mut line: Vec<(NodeID, NodeID, PEdge)> = Vec::new();
+        while let Some(pos) = unvisited
+            .iter()
+            .position(|(src, _, prop)| match line.last() {
+                Some((_, end, last)) => src == end && compatible_offsets(last, prop),
+                None => *src == root,
+            })
+        {
+            let (src, tgt, prop) = unvisited.remove(pos);
+            unvisited.retain(|(s, _, p)| *s != tgt || prop.reverse() != Some(*p));
+            line.push((src, tgt, prop));
+        }
+
+        let mut pattern = LinePattern::new();
+        for node in line.iter().map(|&(_, tgt, _)| tgt).chain([root]) {
+            if let Some(prop) = self.pattern.node_property(node) {
+                pattern.require(node, prop.clone());
+            }
+        }
+        pattern.add_line(root, line);
+        pattern
+    }
+
     /// Compute the map from pattern nodes to circuit nodes in `circ`.
     pub fn get_match_map(
         &self,
         root: Node,
         circ: &Circuit<impl HugrView<Node = Node>>,
     ) -> Option<HashMap<Node, Node>> {
-        let single_matcher = SinglePatternMatcher::from_pattern(self.pattern.clone());
-        single_matcher
+        self.single_matcher
+            .get_or_init(|| Arc::new(SinglePatternMatcher::from_pattern(self.pattern.clone())))
             .get_match_map(
                 root.into(),
                 validate_circuit_node(circ),
-- 
2.43.0


From 9a68303c1235957f7e06523b9e1c8e3df9bd5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 24/53] fix: patterns match circuits with other constants

The operation loading a constant was not part of the pattern.
---
 tket/src/portmatching/matcher.rs | 21 ++++++++++++++++++++-
 tket/src/portmatching/pattern.rs |  9 ++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index dd838e3..003845c 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -38,6 +38,25 @@ pub(crate) struct MatchOp {
     encoded: Option<Vec<u8>>,
 }
 
+impl MatchOp {
+    /// The operation of a node in a hugr.
+    ///
+    /// Operations loading a constant are identified by its value.
+    pub(crate) fn from_node<H: HugrView>(hugr: &H, node: H::Node) -> Self {
+        let op = hugr.get_optype(node);
+        if !op.is_load_constant() {
+            return op.clone().into();
+        }
+        let value = hugr
+            .static_source(node)
+            .and_then(|constant| hugr.get_optype(constant).as_const().cloned());
+        Self {
+            op_name: op.to_string().into(),
+            encoded: value.and_then(|value| encode_op(value.into())),
+        }
+    }
+}
+
 impl From<OpType> for MatchOp {
     fn from(op: OpType) -> Self {
         let op_name = op.to_string().into();
@@ -477,7 +496,7 @@ pub(crate) fn validate_circuit_node(
         let NodeID::HugrNode(node) = node else {
             return false;
         };
-        &MatchOp::from(circ.hugr().get_optype(node).clone()) == prop
+        &MatchOp::from_node(circ.hugr(), node) == prop
     }
 }
 
diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index ca7a605..f88b4b5 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -10,7 +10,7 @@ use std::fmt::Debug;
 use std::sync::{Arc, OnceLock};
 
 use super::{
-    matcher::{compatible_offsets, validate_circuit_edge, validate_circuit_node},
+    matcher::{compatible_offsets, validate_circuit_edge, validate_circuit_node, MatchOp},
     PEdge, PNode,
 };
 use crate::{circuit::Circuit, portmatching::NodeID};
@@ -42,8 +42,7 @@ impl CircuitPattern {
         }
         let mut pattern = Pattern::new();
         for cmd in circuit.commands() {
-            let op = cmd.optype().clone();
-            pattern.require(cmd.node().into(), op.into());
+            pattern.require(cmd.node().into(), MatchOp::from_node(hugr, cmd.node()));
             for in_offset in 0..cmd.input_count() {
                 let in_offset: IncomingPort = in_offset.into();
                 let edge_prop = PEdge::try_from_port(cmd.node(), in_offset.into(), circuit)
@@ -57,6 +56,10 @@ impl CircuitPattern {
                             cmd.node()
                         )
                     });
+                if hugr.get_optype(prev_node).is_load_constant() {
+                    // Commands do not include the loaded constants.
+                    pattern.require(prev_node.into(), MatchOp::from_node(hugr, prev_node));
+                }
                 let prev_node = match edge_prop {
                     PEdge::InternalEdge { .. } => NodeID::HugrNode(prev_node),
                     PEdge::InputEdge { .. } => NodeID::new_copy(prev_node, prev_port),
-- 
2.43.0


From 528f68f8331032ba8b20fe4b972dd58598766126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 25/53] fix: refuse patterns that cannot be matched, and
 matches with other operations inside

Patterns with unused inputs made the search panic; nested regions and called
functions were matched whatever their content; a match could include
operations between the matched ones whose results are not used, or the whole
region when the pattern has neither inputs nor outputs.
---
 tket/src/portmatching/matcher.rs | 21 ++++++++++++++++++++-
 tket/src/portmatching/pattern.rs | 21 ++++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 003845c..66b39a0 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -193,7 +193,26 @@ impl PatternMatch {
             .iter()
             .map(|(n, p)| (map[n], p.as_outgoing().unwrap()))
             .collect_vec();
-        Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)
+        let matched = if inputs.is_empty() && outputs.is_empty() {
+            // Without a boundary, the subgraph would be the whole region.
+            let nodes = map.values().copied().collect_vec();
+            Self {
+                subgraph: SiblingSubgraph::try_from_nodes_with_checker(
+                    nodes,
+                    circ.hugr(),
+                    checker,
+                )?,
+                pattern,
+                root,
+            }
+        } else {
+            Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)?
+        };
+        // Operations between the matched ones that do not reach its outputs.
+        if matched.nodes().len() != map.len() {
+            return Err(InvalidPatternMatch::NotConvex);
+        }
+        Ok(matched)
     }
 
     /// Create a pattern match from the subcircuit boundaries.
diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index f88b4b5..ebd0cc1 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -42,6 +42,10 @@ impl CircuitPattern {
         }
         let mut pattern = Pattern::new();
         for cmd in circuit.commands() {
+            let static_input = cmd.optype().static_input_port();
+            if hugr.children(cmd.node()).next().is_some() || static_input.is_some() {
+                return Err(InvalidPattern::UnsupportedOp { node: cmd.node() });
+            }
             pattern.require(cmd.node().into(), MatchOp::from_node(hugr, cmd.node()));
             for in_offset in 0..cmd.input_count() {
                 let in_offset: IncomingPort = in_offset.into();
@@ -74,9 +78,12 @@ impl CircuitPattern {
         let [inp, out] = circuit.io_nodes();
         let inp_ports = hugr.signature(inp).unwrap().output_ports();
         let out_ports = hugr.signature(out).unwrap().input_ports();
-        let inputs = inp_ports
+        let inputs: Vec<Vec<_>> = inp_ports
             .map(|p| hugr.linked_ports(inp, p).collect())
             .collect_vec();
+        if let Some(port) = inputs.iter().position(Vec::is_empty) {
+            return Err(InvalidPattern::UnusedInput { port });
+        }
         let outputs = out_ports
             .map(|p| {
                 hugr.linked_ports(out, p)
@@ -191,6 +198,18 @@ pub enum InvalidPattern {
     /// Patterns must be connected circuits.
     #[display("The pattern is not connected")]
     NotConnected,
+    /// Patterns cannot have inputs that are not used.
+    #[display("The pattern does not use its input {port}")]
+    UnusedInput {
+        /// The index of the input.
+        port: usize,
+    },
+    /// Patterns cannot include nested regions or references to functions.
+    #[display("The pattern contains an unsupported operation in {node}")]
+    UnsupportedOp {
+        /// The node of the operation.
+        node: Node,
+    },
     /// Patterns cannot include empty wires.
     #[display("The pattern contains an empty wire between {from_node}, {from_port} and {to_node}, {to_port}")]
     EmptyWire {
-- 
2.43.0


From ef25fdd7d7f7cec206d223a28c9a10bafcf8f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 26/53] fix: count operations, not nodes, in the greedy rewrite
 strategy

---
 tket/src/circuit.rs          | 10 +++++++---
 tket/src/rewrite/strategy.rs | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/tket/src/circuit.rs b/tket/src/circuit.rs
index 6baf42d..ba2c355 100644
--- a/tket/src/circuit.rs
+++ b/tket/src/circuit.rs
@@ -198,9 +198,7 @@ impl<T: HugrView> Circuit<T> {
         while let Some(node) = roots.pop() {
             for child in self.hugr().children(node) {
                 let optype = self.hugr().get_optype(child);
-                if matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
-                    && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
-                {
+                if is_operation(optype) {
                     count += 1;
                 } else if self.hugr().first_child(node).is_some() {
                     roots.push(child);
@@ -372,6 +370,12 @@ impl<T: HugrView> From<T> for Circuit<T> {
     }
 }
 
+/// Whether an operation is counted in [`Circuit::num_operations`].
+pub(crate) fn is_operation(optype: &OpType) -> bool {
+    matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
+        && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
+}
+
 /// Checks if the passed hugr is a valid circuit,
 /// and return [`CircuitError`] if not.
 fn check_hugr<H: HugrView>(hugr: &H) -> Result<(), CircuitError<H::Node>> {
diff --git a/tket/src/rewrite/strategy.rs b/tket/src/rewrite/strategy.rs
index c0ab394..e9a437b 100644
--- a/tket/src/rewrite/strategy.rs
+++ b/tket/src/rewrite/strategy.rs
@@ -29,6 +29,7 @@ use hugr::{HugrView, Node};
 use itertools::Itertools;
 
 use crate::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
+use crate::circuit::is_operation;
 use crate::{op_matches, Circuit, TketOp};
 
 use super::trace::RewriteTrace;
@@ -118,14 +119,21 @@ impl RewriteStrategy for GreedyRewriteStrategy {
         rewrites: impl IntoIterator<Item = CircuitRewrite>,
         circ: &Circuit,
     ) -> impl Iterator<Item = RewriteResult<Self::Cost>> {
+        // The change in the number of operations, ignoring any other nodes.
+        let op_count_delta = |rw: &CircuitRewrite| {
+            let old_nodes = rw.subgraph().nodes().iter().copied();
+            let old_count: usize = circ.nodes_cost(old_nodes, |op| usize::from(is_operation(op)));
+            rw.replacement().num_operations() as isize - old_count as isize
+        };
         let rewrites = rewrites
             .into_iter()
-            .sorted_by_key(|rw| rw.node_count_delta())
-            .take_while(|rw| rw.node_count_delta() < 0);
+            .map(|rw| (op_count_delta(&rw), rw))
+            .sorted_by_key(|&(delta, _)| delta)
+            .take_while(|&(delta, _)| delta < 0);
         let mut changed_nodes = HashSet::new();
         let mut cost_delta = 0;
         let mut circ = circ.clone();
-        for rewrite in rewrites {
+        for (delta, rewrite) in rewrites {
             if rewrite
                 .subgraph()
                 .nodes()
@@ -135,7 +143,7 @@ impl RewriteStrategy for GreedyRewriteStrategy {
                 continue;
             }
             changed_nodes.extend(rewrite.subgraph().nodes().iter().copied());
-            cost_delta += rewrite.node_count_delta();
+            cost_delta += delta;
             rewrite
                 .apply(&mut circ)
                 .expect("Could not perform rewrite in greedy strategy");
-- 
2.43.0


From 37741eea25a81af544e7a293f07fa736cdbdcd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 27/53] fix: accept convex expressions whose inner values have
 several uses

---
 tket/src/subcircuit/expression.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index d84d83a..c9bf279 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -93,7 +93,18 @@ impl<N: HugrNode> CopyableExpr<N> {
             admissible_node(node, &nodes_to_exclude, circuit.hugr(), &circuit_nodes)
         });
 
-        if circuit.any_reachable_from(outputs.iter().copied(), inputs.iter().copied()) {
+        // The subgraph is convex unless a value that leaves it comes back at one
+        // of its inputs, directly or through nodes outside of it.
+        let (returning, leaving): (Vec<_>, Vec<_>) = outputs
+            .iter()
+            .flat_map(|&(node, port)| circuit.hugr().linked_inputs(node, port))
+            .filter(|inp| inputs.contains(inp) || !nodes.contains(&inp.0))
+            .partition(|inp| inputs.contains(inp));
+        let outside = leaving
+            .into_iter()
+            .filter(|&(node, _)| circuit_nodes.contains(&node))
+            .flat_map(|(node, _)| circuit.hugr().node_outputs(node).map(move |p| (node, p)));
+        if !returning.is_empty() || circuit.any_reachable_from(outside, inputs.iter().copied()) {
             return Err(InvalidSubgraph::NotConvex);
         }
 
-- 
2.43.0


From 0bcdb73b02ce523dfa6bb9c0e9466da42c3cf3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 28/53] fix: make the requested value the first output of a
 copyable expression

---
 tket/src/subcircuit/expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index c9bf279..6832686 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -144,6 +144,8 @@ impl<N: HugrNode> CopyableExpr<N> {
         admissible_node: impl Fn(N) -> bool,
     ) -> ExprArgs<N> {
         let mut args = ExprArgs::default();
+        // The value of the expression is always the first output.
+        args.outputs.insert(output);
 
         // Queues and set useful during traversal.
         let mut curr_nodes = PriorityQueue::new();
-- 
2.43.0


From 519baa342f3f2cb3526cd94a52f5c6793151e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 29/53] fix: include loaded constants in copyable expressions

---
 tket/src/subcircuit/expression.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index 6832686..9aeccd1 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -202,6 +202,16 @@ impl<N: HugrNode> CopyableExpr<N> {
             }
         }
 
+        // Add the constants that are loaded, if they are defined in the circuit
+        let constants: IndexSet<_> = args
+            .nodes
+            .iter()
+            .filter(|&&node| circuit.hugr().get_optype(node).is_load_constant())
+            .filter_map(|&node| circuit.hugr().static_source(node))
+            .filter(|constant| circuit.nodes().contains(constant))
+            .collect();
+        args.nodes.extend(constants);
+
         args
     }
 
-- 
2.43.0


From 4c91baf9f5927d6102945b5e55c7ca830043570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 30/53] fix: make the circuit hash cover unused results,
 constants, callees, control flow and equal sources

---
 tket/src/circuit/hash.rs | 117 ++++++++++++++++++++++++++++++++-------
 1 file changed, 98 insertions(+), 19 deletions(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 5112670..9da6c62 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -7,6 +7,7 @@ use fxhash::{FxHashMap, FxHasher64};
 use hugr::ops::OpType;
 use hugr::{HugrView, Node};
 use hugr_core::hugr::internal::PortgraphNodeMap;
+use itertools::Itertools;
 use petgraph::visit::{self as pg, Walker};
 
 use super::Circuit;
@@ -16,8 +17,8 @@ pub trait CircuitHash {
     /// Compute the hash of a dataflow container node.
     ///
     /// We compute a hash for each node from its operation and the hash of
-    /// the predecessors. The hash of the circuit corresponds to the hash of its
-    /// output node.
+    /// the predecessors. The hash of the circuit combines the hash of its
+    /// output node with those of the operations whose results are not used.
     ///
     /// This hash is independent from the operation traversal order.
     ///
@@ -37,25 +38,89 @@ where
     T: HugrView<Node = Node>,
 {
     fn circuit_hash(&self, node: Node) -> Result<u64, HashError> {
-        let Some([_, output_node]) = self.get_io(node) else {
+        if self.get_io(node).is_none() {
             return Err(HashError::NotADfg);
-        };
+        }
+        hash_region(self, node, &mut HashState::default())
+    }
+}
+
+/// Compute the hash of the region below a container node.
+fn hash_region(
+    circ: &impl HugrView<Node = Node>,
+    parent: Node,
+    state: &mut HashState,
+) -> Result<u64, HashError> {
+    let Some([_, output_node]) = circ.get_io(parent) else {
+        return hash_children(circ, parent, state);
+    };
 
-        let mut node_hashes = HashState::default();
+    number_nodes(circ, output_node, state);
+    let mut unused_hash = 0u64;
+
+    let (region, node_map) = circ.region_portgraph(parent);
+    for pg_node in pg::Topo::new(&region).iter(&region) {
+        let node = node_map.from_portgraph(pg_node);
+        let hash = hash_node(circ, node, state)?;
+        if state.set_hash(node, hash).is_some() {
+            panic!("Hash already set for node {node}");
+        }
+        if node != output_node && circ.output_neighbours(node).next().is_none() {
+            unused_hash = unused_hash.wrapping_add(hash);
+        }
+    }
+
+    // If the output node has no hash, the topological sort failed due to a cycle.
+    let output_hash = state
+        .node_hash(output_node)
+        .ok_or(HashError::CyclicCircuit)?;
+    Ok(fxhash::hash64(&(output_hash, unused_hash)))
+}
 
-        let (region, node_map) = self.region_portgraph(node);
-        for pg_node in pg::Topo::new(&region).iter(&region) {
-            let node = node_map.from_portgraph(pg_node);
-            let hash = hash_node(self, node, &mut node_hashes)?;
-            if node_hashes.set_hash(node, hash).is_some() {
-                panic!("Hash already set for node {node}");
+/// Compute the hash of the children of a container that is not a dataflow
+/// region, e.g. the cases of a conditional or the blocks of a control flow graph.
+fn hash_children(
+    circ: &impl HugrView<Node = Node>,
+    parent: Node,
+    state: &mut HashState,
+) -> Result<u64, HashError> {
+    let mut hasher = FxHasher64::default();
+    let indices: FxHashMap<Node, usize> = circ.children(parent).zip(0..).collect();
+    for child in circ.children(parent) {
+        hashable_op(circ.get_optype(child)).hash(&mut hasher);
+        if circ.children(child).next().is_some() {
+            hash_region(circ, child, state)?.hash(&mut hasher);
+        }
+        for port in circ.node_outputs(child) {
+            for (successor, _) in circ.linked_inputs(child, port) {
+                (port, indices.get(&successor)).hash(&mut hasher);
             }
         }
+    }
+    Ok(hasher.finish())
+}
 
-        // If the output node has no hash, the topological sort failed due to a cycle.
-        node_hashes
-            .node_hash(output_node)
-            .ok_or(HashError::CyclicCircuit)
+/// Number the nodes that the output node depends on, in the order in which they
+/// are found when following the inputs of each node backwards.
+///
+/// Different nodes with equal operations and predecessors (e.g. two qubit
+/// allocations) get different numbers.
+fn number_nodes(circ: &impl HugrView<Node = Node>, output_node: Node, state: &mut HashState) {
+    let parent = circ.get_parent(output_node);
+    let mut count = 0usize;
+    let mut stack = vec![output_node];
+    while let Some(node) = stack.pop() {
+        if circ.get_parent(node) != parent || state.numbers.contains_key(&node) {
+            continue;
+        }
+        state.numbers.insert(node, count);
+        count += 1;
+        // State order ports may have many links, in no particular order.
+        stack.extend(
+            circ.node_inputs(node)
+                .filter_map(|port| circ.linked_outputs(node, port).exactly_one().ok())
+                .map(|(pred, _)| pred),
+        );
     }
 }
 
@@ -66,6 +131,8 @@ where
 struct HashState {
     /// Computed node hashes.
     pub hashes: FxHashMap<Node, u64>,
+    /// Numbers of the nodes that the output of their region depends on.
+    pub numbers: FxHashMap<Node, usize>,
 }
 
 impl HashState {
@@ -87,11 +154,11 @@ impl HashState {
 /// Returns a hashable representation of an operation.
 fn hashable_op(op: &OpType) -> impl Hash {
     match op {
-        OpType::ExtensionOp(op) if !op.args().is_empty() => {
+        OpType::ExtensionOp(op) => {
             // TODO: Require hashing for TypeParams?
             format!(
                 "{}[{}]",
-                op.def().name(),
+                op.qualified_id(),
                 serde_json::to_string(op.args()).unwrap()
             )
         }
@@ -102,6 +169,14 @@ fn hashable_op(op: &OpType) -> impl Hash {
                 serde_json::to_string(op.args()).unwrap()
             )
         }
+        // The names of some constants do not contain their value.
+        OpType::Const(op) => format!("Const[{}]", serde_json::to_string(op.value()).unwrap()),
+        OpType::FuncDefn(op) => format!("{}[{}]", op.func_name(), op.signature()),
+        OpType::FuncDecl(op) => format!("{}[{}]", op.func_name(), op.signature()),
+        // The names of these operations do not contain their types.
+        OpType::Input(_) | OpType::Tag(_) | OpType::Conditional(_) | OpType::TailLoop(_) => {
+            format!("{op:?}")
+        }
         _ => op.to_string(),
     }
 }
@@ -123,11 +198,12 @@ fn hash_node(
 
     // Hash the node children
     if circ.children(node).next().is_some() {
-        circ.circuit_hash(node)?.hash(&mut hasher);
+        hash_region(circ, node, state)?.hash(&mut hasher);
     }
 
     // Hash the node operation
     hashable_op(op).hash(&mut hasher);
+    state.numbers.get(&node).hash(&mut hasher);
 
     // Add each each input neighbour hash, including the connected ports.
     // TODO: Ignore state edges?
@@ -136,7 +212,10 @@ fn hash_node(
         let input_hash = circ
             .linked_ports(node, input)
             .map(|(pred_node, pred_port)| {
-                let pred_node_hash = state.node_hash(pred_node);
+                // Nodes outside of the circuit have no hash, e.g. constants and functions.
+                let pred_node_hash = state
+                    .node_hash(pred_node)
+                    .unwrap_or_else(|| fxhash::hash64(&hashable_op(circ.get_optype(pred_node))));
                 fxhash::hash64(&(pred_node_hash, pred_port, input))
             })
             .fold(0, |total, hash| hash ^ total);
-- 
2.43.0


From a96abc110ab43d36ff3bc5960ddf5b4b09088fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 31/53] fix: refuse malformed TKET1 operation arguments instead
 of panicking

---
 tket/src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/extension.rs b/tket/src/extension.rs
index 5505035..f503238 100644
--- a/tket/src/extension.rs
+++ b/tket/src/extension.rs
@@ -79,7 +79,8 @@ impl CustomSignatureFunc for Tk1Signature {
             // This should have already been checked.
             panic!("Wrong number of arguments");
         };
-        let op: OpaqueTk1Op = serde_json::from_str(arg).unwrap(); // TODO Errors!
+        let op: OpaqueTk1Op =
+            serde_json::from_str(arg).map_err(|_| SignatureError::InvalidTypeArgs)?;
         let poly_func: PolyFuncType = op.signature().into();
         Ok(poly_func.into())
     }
-- 
2.43.0


From b4724298de6bb513c5d483b934d5011d703d441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 32/53] fix: load programs with modifiers and global phases
 with the default registry

---
 tket/src/extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/extension.rs b/tket/src/extension.rs
index f503238..032478b 100644
--- a/tket/src/extension.rs
+++ b/tket/src/extension.rs
@@ -61,7 +61,9 @@ pub(crate) static ref REGISTRY: ExtensionRegistry = ExtensionRegistry::new(
     TKET_EXTENSION.to_owned(),
     bool::BOOL_EXTENSION.to_owned(),
     debug::DEBUG_EXTENSION.to_owned(),
+    global_phase::GLOBAL_PHASE_EXTENSION.to_owned(),
     guppy::GUPPY_EXTENSION.to_owned(),
+    modifier::MODIFIER_EXTENSION.to_owned(),
     rotation::ROTATION_EXTENSION.to_owned()
 ]));
 
-- 
2.43.0


From 5e6362a83eb09bdc5e55c248259c02b20d07ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 33/53] fix: find matches with operations that are only
 connected by output values of the pattern

---
 tket/src/portmatching/matcher.rs | 52 ++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 66b39a0..134b42f 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -1,6 +1,7 @@
 //! Pattern and matcher objects for circuit matching
 
 use std::{
+    collections::HashSet,
     fmt::Debug,
     fs::File,
     io,
@@ -208,11 +209,56 @@ impl PatternMatch {
         } else {
             Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)?
         };
-        // Operations between the matched ones that do not reach its outputs.
-        if matched.nodes().len() != map.len() {
+        if matched.nodes().len() == map.len() {
+            return Ok(matched);
+        }
+        let nodes: HashSet<Node> = map.values().copied().collect();
+        if matched.nodes().iter().any(|n| !nodes.contains(n)) {
+            // Operations between the matched ones that do not reach its outputs.
+            return Err(InvalidPatternMatch::NotConvex);
+        }
+        // Matched operations that are only connected by values which are also
+        // outputs are not found from the boundary.
+        let outside = |n: &Node| {
+            circ.hugr()
+                .output_neighbours(*n)
+                .filter(|n| !nodes.contains(n))
+        };
+        let mut reached: HashSet<Node> = nodes.iter().flat_map(outside).collect();
+        let mut todo = reached.iter().copied().collect_vec();
+        while let Some(node) = todo.pop() {
+            if circ
+                .hugr()
+                .output_neighbours(node)
+                .any(|n| nodes.contains(&n))
+            {
+                return Err(InvalidPatternMatch::NotConvex);
+            }
+            todo.extend(outside(&node).filter(|n| reached.insert(*n)));
+        }
+        let (inputs, outputs) = (
+            matched.subgraph.incoming_ports().clone(),
+            matched.subgraph.outgoing_ports().clone(),
+        );
+        let lost_value = |n: Node| {
+            circ.hugr().out_value_types(n).any(|(p, _)| {
+                !outputs.contains(&(n, p))
+                    && (circ.hugr().linked_inputs(n, p)).any(|(n, _)| !nodes.contains(&n))
+            })
+        };
+        if nodes.iter().any(|&n| lost_value(n)) {
             return Err(InvalidPatternMatch::NotConvex);
         }
-        Ok(matched)
+        Ok(Self {
+            subgraph: SiblingSubgraph::new_unchecked(
+                inputs,
+                outputs,
+                vec![],
+                nodes.into_iter().sorted().collect(),
+            ),
+            pattern,
+            root,
+        })
     }
 
     /// Create a pattern match from the subcircuit boundaries.
-- 
2.43.0


From d5c3def007951b11df73f43963fdf491c0cd0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 34/53] fix: read negations and repeated powers in pytket
 parameters with the usual precedence

---
 .../serialize/pytket/decoder/param/param.pest | 16 ++++++++-------
 .../serialize/pytket/decoder/param/parser.rs  | 20 ++++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/param.pest b/tket/src/serialize/pytket/decoder/param/param.pest
index d672d13..08a134b 100644
--- a/tket/src/serialize/pytket/decoder/param/param.pest
+++ b/tket/src/serialize/pytket/decoder/param/param.pest
@@ -14,8 +14,7 @@ variable = _{ ident }
 ///
 /// The atomic marker `@` ensures no whitespace is present inside.
 num = @{
-    "-"?
-    ~ ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
+    ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
@@ -32,8 +31,11 @@ infix_operator = _{ add | subtract | power | multiply | divide }
 
 /// Function calls like (`max(2,4)`)
 function_call = { ident ~ ( "()" | "(" ~ expr ~ ("," ~ expr)* ~ ","? ~ ")") }
-/// Unary negation, with a special identifier
-unary_minus = { "-" ~ term }
+/// Prefix negation.
+///
+/// Like in sympy, it binds tighter than products but looser than powers
+/// (`-x**2` is `-(x**2)`).
+unary_minus = { "-" }
 
 /// Implicit multiplication lets us write expressions like `2x`.
 /// This has higher precedence that `infix_operator`s.
@@ -42,10 +44,10 @@ unary_minus = { "-" ~ term }
 /// If we used `term` directly, the expression `5-2` could be interpreted as `5 * (-2)`.
 implicit_multiply = { num ~ ("(" ~ expr ~ ")" | function_call | variable) }
 
-/// Expressions are sequences of terms and infix operators
-expr = { term ~ (infix_operator ~ term)* }
+/// Expressions are sequences of terms, possibly negated, and infix operators
+expr = { unary_minus* ~ term ~ (infix_operator ~ unary_minus* ~ term)* }
 /// A standalone term, with no infix operators at the root.
-term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | unary_minus | function_call | variable }
+term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | function_call | variable }
 
 /// Main entry point of the parser. Ensures we always parse the whole input.
 parameter = _{ SOI ~ expr ~ EOI }
diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index eadb2fe..8529d00 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -79,18 +79,29 @@ lazy_static::lazy_static! {
             // Addition and subtract have equal precedence
             .op(Op::infix(add, Left) | Op::infix(subtract, Left))
             .op(Op::infix(multiply, Left) | Op::infix(divide, Left))
-            .op(Op::infix(power, Left))
+            // `-x**2` is `-(x**2)`, and `x**y**z` is `x**(y**z)`.
+            .op(Op::prefix(unary_minus))
+            .op(Op::infix(power, Right))
     };
 }
 
 /// Parse a match of the [`Rule::expr`] rule.
 ///
-/// This takes a sequence of rule matches alternating [`Rule::term`]s and infix operations.
+/// This takes a sequence of rule matches alternating (negated) [`Rule::term`]s
+/// and infix operations.
 fn parse_infix_ops(pairs: Pairs<'_, Rule>) -> PytketParam<'_> {
     use ParameterType::*;
 
     PRATT_PARSER
         .map_primary(|primary| parse_term(primary))
+        .map_prefix(|_minus, arg| match arg {
+            PytketParam::Constant(half_turns) => PytketParam::Constant(-half_turns),
+            arg => PytketParam::Operation {
+                op: FloatOps::fneg.into(),
+                args: vec![arg],
+                param_ty: FloatHalfTurns,
+            },
+        })
         .map_infix(|lhs, op, rhs| {
             let (op, param_ty) = match op.as_rule() {
                 Rule::add => (RotationOp::radd.into(), Rotation),
@@ -126,11 +137,6 @@ fn parse_term(pair: Pair<'_, Rule>) -> PytketParam<'_> {
             }
         }
         Rule::num => parse_number(pair),
-        Rule::unary_minus => PytketParam::Operation {
-            op: FloatOps::fneg.into(),
-            args: vec![parse_term(pair.into_inner().next().unwrap())],
-            param_ty: FloatHalfTurns,
-        },
         Rule::function_call => parse_function_call(pair),
         Rule::ident => PytketParam::InputVariable {
             name: pair.as_str(),
-- 
2.43.0


From e1ec1a19bc483a33d6a424e11a032d0cb17edeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 35/53] fix: keep pytket functions with an unexpected number of
 arguments as they are

---
 .../serialize/pytket/decoder/param/parser.rs   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index 8529d00..7ba1e19 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -162,19 +162,23 @@ fn parse_function_call(pair: Pair<'_, Rule>) -> PytketParam<'_> {
         .next()
         .expect("Function call must have a name")
         .as_str();
-    let op = match name {
-        "max" => FloatOps::fmax.into(),
-        "min" => FloatOps::fmin.into(),
-        "abs" => FloatOps::fabs.into(),
-        "floor" => FloatOps::ffloor.into(),
-        "ceil" => FloatOps::fceil.into(),
-        "round" => FloatOps::fround.into(),
+    let (op, arity): (OpType, usize) = match name {
+        "max" => (FloatOps::fmax.into(), 2),
+        "min" => (FloatOps::fmin.into(), 2),
+        "abs" => (FloatOps::fabs.into(), 1),
+        "floor" => (FloatOps::ffloor.into(), 1),
+        "ceil" => (FloatOps::fceil.into(), 1),
+        "round" => (FloatOps::fround.into(), 1),
         // Unrecognized function name.
         // Treat it as an opaque sympy expression.
         _ => return PytketParam::Sympy(pair_str),
     };
 
     let args = args.map(|arg| parse_term(arg)).collect::<Vec<_>>();
+    if args.len() != arity {
+        // There is no operation for this number of arguments.
+        return PytketParam::Sympy(pair_str);
+    }
     PytketParam::Operation {
         op,
         args,
-- 
2.43.0


From 1eecd3293ad2a1d6502659f2d6f667d36efd80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 36/53] fix: keep pytket constants that overflow a float as
 they are

---
 tket/src/serialize/pytket/decoder/param/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index 7ba1e19..a21aaa4 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -151,6 +151,10 @@ fn parse_number(pair: Pair<'_, Rule>) -> PytketParam<'_> {
     let half_turns = num
         .parse::<f64>()
         .unwrap_or_else(|_| panic!("`num` rule matched invalid number \"{num}\""));
+    if !half_turns.is_finite() {
+        // The number is too large to be represented as a constant.
+        return PytketParam::Sympy(num);
+    }
     PytketParam::Constant(half_turns)
 }
 
-- 
2.43.0


From 171c664d5953df2dd06b9c5ca7e86e14ea4d2992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 37/53] fix: divide the whole parameter by pi when writing
 qsystem operations

---
 tket-qsystem/src/pytket/qsystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 96d0483..849b04d 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -88,7 +88,7 @@ impl QSystemEmitter {
             for param in inputs.params.to_mut() {
                 *param = match param.strip_suffix(") * (pi)") {
                     Some(s) if s.starts_with("(") => s[1..].to_string(),
-                    _ => format!("{param} / (pi)"),
+                    _ => format!("({param}) / (pi)"),
                 };
             }
             make_tk1_operation(serial_op, inputs)
-- 
2.43.0


From 6b7c1d2790f625deece977817ff8e005499dcb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 38/53] fix: keep inlined payloads when preparing a circuit to
 be standalone again

---
 tket/src/serialize/pytket/opaque.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/opaque.rs b/tket/src/serialize/pytket/opaque.rs
index 0006831..b5d8b2b 100644
--- a/tket/src/serialize/pytket/opaque.rs
+++ b/tket/src/serialize/pytket/opaque.rs
@@ -129,11 +129,11 @@ impl<N: HugrNode> OpaqueSubgraphs<N> {
         if command.op.op_type != tket_json_rs::OpType::Barrier {
             return Ok(());
         }
-        let Some(payload) = command.op.data.take() else {
+        let Some(payload) = &command.op.data else {
             return Ok(());
         };
 
-        let Some(subgraph_id) = OpaqueSubgraphPayload::parse_external_id(&payload) else {
+        let Some(subgraph_id) = OpaqueSubgraphPayload::parse_external_id(payload) else {
             // Not an External Payload, nothing to do.
             return Ok(());
         };
-- 
2.43.0


From 8e3cc01a644a8d47a6acf0189a8b80e6faf51787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 39/53] fix: keep the parameters of boxed pytket circuits when
 reading them

---
 tket/src/serialize/pytket/extension/core.rs | 28 +++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3cabde8..7bb481e 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -11,11 +11,15 @@ use crate::serialize::pytket::decoder::{
 };
 use crate::serialize::pytket::extension::PytketDecoder;
 use crate::serialize::pytket::opaque::OpaqueSubgraphPayload;
-use crate::serialize::pytket::{DecodeInsertionTarget, DecodeOptions, PytketDecodeError};
+use crate::serialize::pytket::{
+    DecodeInsertionTarget, DecodeOptions, PytketDecodeError, METADATA_INPUT_PARAMETERS,
+};
 use hugr::builder::Container;
 use hugr::extension::prelude::{bool_t, qb_t};
 use hugr::ops::handle::NodeHandle;
 use hugr::types::{Signature, Type};
+use hugr::{Direction, HugrView};
+use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use tket_json_rs::circuit_json::Operation as PytketOperation;
 use tket_json_rs::opbox::OpBox;
@@ -88,8 +92,28 @@ impl PytketDecoder for CoreDecoder {
                 nested_decoder.run_decoder(&serial_circuit.commands, None)?;
                 let internal = nested_decoder.finish(&[])?.node();
 
+                // Free variables found in the boxed circuit are additional
+                // inputs of the DFG, after the ones given by the operation.
+                let variables: Vec<String> = decoder
+                    .builder
+                    .hugr()
+                    .get_metadata(internal, METADATA_INPUT_PARAMETERS)
+                    .and_then(|names| serde_json::from_value(names.clone()).ok())
+                    .unwrap_or_default();
+                let new_inputs = variables.len().saturating_sub(params.len());
+                decoder.builder.hugr_mut().add_ports(
+                    internal,
+                    Direction::Incoming,
+                    new_inputs as isize,
+                );
+                let mut params = params.to_vec();
+                for name in variables.iter().skip(params.len()) {
+                    let param = decoder.load_half_turns(name);
+                    params.push(param.as_rotation(&mut decoder.builder));
+                }
+
                 decoder
-                    .wire_up_node(internal, qubits, qubits, bits, bits, params)
+                    .wire_up_node(internal, qubits, qubits, bits, bits, &params)
                     .map_err(|e| e.hugr_op("DFG"))?;
 
                 Ok(DecodeStatus::Success)
-- 
2.43.0


From 52a9def51463ff807e1b407ce4356e2fdd64f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 40/53] fix: keep the values of copied bits when writing pytket
 circuits

---
 .../serialize/pytket/config/encoder_config.rs |  18 +-
 tket/src/serialize/pytket/encoder.rs          |  83 ++++++-
 .../serialize/pytket/encoder/value_tracker.rs | 207 ++++++++++++++++--
 3 files changed, 276 insertions(+), 32 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index faf2f03..e874573 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -4,7 +4,7 @@
 //! A configuration struct contains a list of custom emitters that define
 //! translations of HUGR operations and types into pytket primitives.
 
-use std::collections::{BTreeSet, HashMap, VecDeque};
+use std::collections::{BTreeSet, HashMap};
 
 use hugr::extension::{ExtensionId, ExtensionSet};
 use hugr::ops::{ExtensionOp, Value};
@@ -116,22 +116,20 @@ impl<H: HugrView> PytketEncoderConfig<H> {
         encoder: &mut PytketEncoderContext<H>,
     ) -> Result<Option<TrackedValues>, PytketEncodeError<H::Node>> {
         let mut values = TrackedValues::default();
-        let mut queue = VecDeque::from([value]);
-        while let Some(value) = queue.pop_front() {
+        // Explore the values in the order they appear in nested tuples.
+        let mut stack = vec![value];
+        while let Some(value) = stack.pop() {
             match value {
                 Value::Sum(sum) => {
                     if sum.sum_type == SumType::new_unary(2) {
-                        let new_bit = encoder.values.new_bit();
+                        let new_bit = encoder.values.new_zero_bit();
                         if value == &Value::true_val() {
                             let op = set_bits_op(&[true]);
                             encoder.emit_command(op, &[], &[new_bit], None);
                         }
-                        return Ok(Some(TrackedValues::new_bits([new_bit])));
-                    }
-                    if sum.sum_type.as_tuple().is_some() {
-                        for v in sum.values.iter() {
-                            queue.push_back(v);
-                        }
+                        values.append(TrackedValues::new_bits([new_bit]));
+                    } else if sum.sum_type.as_tuple().is_some() {
+                        stack.extend(sum.values.iter().rev());
                     }
                 }
                 Value::Extension { e: opaque } => {
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 1759437..def36d3 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -78,7 +78,7 @@ pub struct EmitCommandOptions<'a> {
     /// A function returning a list of input bits to reuse in the output.
     /// Any additional required bits IDs will be freshly generated.
     ///
-    /// If not provided, only fresh bit IDs will be used.
+    /// If not provided, input bits will be reused in the order they appear in the input.
     reuse_bits_fn: Option<Box<dyn FnOnce(&[TrackedBit]) -> Vec<TrackedBit> + 'a>>,
     /// A function that computes the command's output parameters, given the
     /// input expressions.
@@ -113,7 +113,7 @@ impl<'a> EmitCommandOptions<'a> {
 
     /// Set a function returning a list of input bits to reuse in the output.
     ///
-    /// Overrides the default behaviour of only using fresh bit IDs.
+    /// Overrides the default behaviour of reusing input bits in the order they appear in the input.
     pub fn reuse_bits(
         mut self,
         reuse_bits: impl FnOnce(&[TrackedBit]) -> Vec<TrackedBit> + 'a,
@@ -249,6 +249,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
             })
             .transpose()?;
 
+        self.arrange_output_bits(circ, region);
+
         let tracker_result = self.values.finish(circ, region)?;
 
         let mut ser = SerialCircuit::new(self.name, self.phase);
@@ -461,6 +463,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             .into_iter()
             .map(|p| self.values.param_expression(p).to_owned())
             .collect();
+        self.copy_shared_bits(&mut bits);
 
         // Update the values in the node's outputs.
         //
@@ -615,6 +618,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             .into_iter()
             .map(|p| self.values.param_expression(p).to_owned())
             .collect();
+        self.copy_shared_bits(&mut op_values.bits);
 
         // Update the values in the node's outputs, and extend `op_values` with
         // any new output values.
@@ -627,6 +631,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
         let mut out_qubits = input_qubits.as_slice();
         let mut out_bits = input_bits.as_slice();
 
+        // The new bits must be distinct from the other command arguments.
+        let mut used_bits = input_bits.clone();
+
         for ((out_node, out_port), ty) in subgraph
             .outgoing_ports()
             .iter()
@@ -642,6 +649,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 circ,
                 &mut out_qubits,
                 &mut out_bits,
+                &used_bits,
                 &input_param_exprs,
                 |p| {
                     let range = out_param_count..out_param_count + p.expected_count;
@@ -649,6 +657,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
                     range.map(|i| format!("{subgraph_id}_out{i}")).collect_vec()
                 },
             )?;
+            used_bits.extend(&new_outputs.bits);
             op_values.append(new_outputs);
         }
 
@@ -674,6 +683,49 @@ impl<H: HugrView> PytketEncoderContext<H> {
         Ok(())
     }
 
+    /// Replace the bits in the arguments of a command that cannot be
+    /// overwritten by it with a copy, since their value is still needed by other
+    /// operations.
+    ///
+    /// Repeated bits are also copied, as the arguments of a pytket command must
+    /// be unique.
+    fn copy_shared_bits(&mut self, bits: &mut [TrackedBit]) {
+        // Avoid using any of the arguments as the target of a copy.
+        let in_args = bits.to_vec();
+        for i in 0..bits.len() {
+            let bit = bits[i];
+            if !self.values.bit_in_use(bit) && !bits[..i].contains(&bit) {
+                continue;
+            }
+            let copy = self.values.new_bit_excluding(&in_args);
+            self.emit_copy_bit(bit, copy);
+            bits[i] = copy;
+        }
+    }
+
+    /// Emit a pytket command that copies the value of a bit into another.
+    fn emit_copy_bit(&mut self, source: TrackedBit, target: TrackedBit) {
+        self.emit_command(copy_bit_op(), &[], &[source, target], None);
+    }
+
+    /// Rename the bit registers so the output bits are in the order of the
+    /// declared registers, copying them if required.
+    fn arrange_output_bits(&mut self, circ: &Circuit<H>, region: H::Node) {
+        let (renames, copies) = self.values.arrange_output_bits(circ, region);
+        for arg in self.commands.iter_mut().flat_map(|com| com.args.iter_mut()) {
+            if let Some(name) = renames.get(arg) {
+                *arg = name.clone();
+            }
+        }
+        for (source, target) in copies {
+            self.commands.push(circuit_json::Command {
+                op: copy_bit_op(),
+                args: vec![source, target],
+                opgroup: None,
+            });
+        }
+    }
+
     /// Emit a new tket1 command.
     ///
     /// This is a general-purpose command that can be used to emit any tket1
@@ -1081,6 +1133,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
         let mut bits = output_bits.iter().copied();
         let mut params = out_params.into_iter();
         let mut new_outputs = TrackedValues::default();
+        // The new bits must be distinct from the other command arguments.
+        let mut used_bits = [input_bits, &output_bits].concat();
         for (wire, count) in output_counts {
             if !wire_filter(wire) {
                 continue;
@@ -1102,7 +1156,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
             out_wire_values.extend(bits.by_ref().take(count.bits).map(TrackedValue::Bit));
             let reused_bit_count = out_wire_values.len() - non_bit_count;
             for _ in reused_bit_count..count.bits {
-                let b = self.values.new_bit();
+                let b = self.values.new_bit_excluding(&used_bits);
+                used_bits.push(b);
                 new_outputs.bits.push(b);
                 out_wire_values.push(TrackedValue::Bit(b));
             }
@@ -1137,6 +1192,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
     /// - `bits`: The bit registers to use for the output. Values are consumed
     ///   from this slice as needed, and dropped from the slice as they are
     ///   used.
+    /// - `used_bits`: Bits that cannot be used as new bit registers.
     /// - `input_params`: The list of input parameter expressions.
     /// - `options_params_fn`: A function that computes the output parameter
     ///   expressions given the inputs.
@@ -1148,6 +1204,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         circ: &Circuit<H>,
         qubits: &mut &[TrackedQubit],
         bits: &mut &[TrackedBit],
+        used_bits: &[TrackedBit],
         input_params: &[String],
         output_params_fn: impl FnOnce(OutputParamArgs<'_>) -> Vec<String>,
     ) -> Result<TrackedValues, PytketEncodeError<H::Node>> {
@@ -1218,12 +1275,13 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 // Not enough bits, allocate some fresh ones.
                 let mut head_bits = bits.to_vec();
                 *bits = &[];
-                let new_bits = (head_bits.len()..count.bits).map(|_| {
-                    let b = self.values.new_bit();
+                let mut used_bits = used_bits.to_vec();
+                while head_bits.len() < count.bits {
+                    let b = self.values.new_bit_excluding(&used_bits);
+                    used_bits.push(b);
                     new_outputs.bits.push(b);
-                    b
-                });
-                head_bits.extend(new_bits);
+                    head_bits.push(b);
+                }
                 head_bits
             }
         };
@@ -1440,6 +1498,15 @@ pub fn make_tk1_classical_operation(
     op
 }
 
+/// Return a pytket operation copying the value of a bit into another.
+fn copy_bit_op() -> tket_json_rs::circuit_json::Operation {
+    make_tk1_classical_operation(
+        tket_json_rs::OpType::CopyBits,
+        2,
+        circuit_json::Classical::CopyBits { n_i: 1 },
+    )
+}
+
 /// Initialize a tket1 [Operation](circuit_json::Operation) that represents a
 /// classical expression.
 ///
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index e78fec3..2a52b88 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -62,6 +62,18 @@ pub struct ValueTracker<N> {
     /// We draw names from here when a new bit name is needed, before
     /// resorting to the `bit_reg_generator`.
     unused_bits: BTreeSet<TrackedBit>,
+    /// The number of tracked wires that contain each bit.
+    ///
+    /// Bits can be copied, so different wires may refer to the same register.
+    bit_wire_counts: HashMap<TrackedBit, usize>,
+    /// The number of bits at the input of the region.
+    ///
+    /// These are assigned to the first registers in `bits`.
+    input_bit_count: usize,
+    /// The input bits that are read by some operation, or by the output.
+    read_input_bits: BTreeSet<TrackedBit>,
+    /// Bits that must be initialised to `false`.
+    zero_bits: BTreeSet<TrackedBit>,
 
     /// A generator of new registers units to use for qubit wires.
     qubit_reg_generator: RegisterUnitGenerator,
@@ -222,6 +234,10 @@ impl<N: HugrNode> ValueTracker<N> {
             wires: BTreeMap::new(),
             unused_qubits: BTreeSet::new(),
             unused_bits: BTreeSet::new(),
+            bit_wire_counts: HashMap::new(),
+            input_bit_count: 0,
+            read_input_bits: BTreeSet::new(),
+            zero_bits: BTreeSet::new(),
             qubit_reg_generator: RegisterUnitGenerator::default(),
             bit_reg_generator: RegisterUnitGenerator::default(),
             input_params: Vec::with_capacity(param_variable_names.len()),
@@ -229,8 +245,8 @@ impl<N: HugrNode> ValueTracker<N> {
 
         tracker.unused_qubits = (0..tracker.qubits.len()).map(TrackedQubit).collect();
         tracker.unused_bits = (0..tracker.bits.len()).map(TrackedBit).collect();
-        tracker.qubit_reg_generator = RegisterUnitGenerator::new("q", tracker.qubits.iter());
-        tracker.bit_reg_generator = RegisterUnitGenerator::new("c", tracker.bits.iter());
+        tracker.qubit_reg_generator = RegisterUnitGenerator::new("q", tracker.qubits.iter().chain(&tracker.bits));
+        tracker.bit_reg_generator = RegisterUnitGenerator::new("c", tracker.bits.iter().chain(&tracker.qubits));
 
         // Generator of input parameter variable names.
         let existing_param_vars: HashSet<String> = param_variable_names.iter().cloned().collect();
@@ -247,6 +263,7 @@ impl<N: HugrNode> ValueTracker<N> {
             PytketEncodeError::NonDataflowRegion { region, optype }
         })?;
         let inp_node = circ.hugr().get_io(region).unwrap()[0];
+        let mut input_wires = Vec::with_capacity(signature.input_count());
         for (port, typ) in circ
             .hugr()
             .node_outputs(inp_node)
@@ -267,8 +284,13 @@ impl<N: HugrNode> ValueTracker<N> {
                 let qb = tracker.new_qubit();
                 wire_values.push(TrackedValue::Qubit(qb));
             }
+            let is_read = circ.hugr().linked_ports(inp_node, port).next().is_some();
             for _ in 0..count.bits {
                 let bit = tracker.new_bit();
+                tracker.input_bit_count += 1;
+                if is_read {
+                    tracker.read_input_bits.insert(bit);
+                }
                 wire_values.push(TrackedValue::Bit(bit));
             }
             for _ in 0..count.params {
@@ -278,6 +300,12 @@ impl<N: HugrNode> ValueTracker<N> {
                 wire_values.push(TrackedValue::Param(param));
             }
 
+            input_wires.push((wire, wire_values));
+        }
+
+        // Register the wires once all the inputs got their registers assigned.
+        // This frees the registers of the unused inputs, so they can be reused.
+        for (wire, wire_values) in input_wires {
             tracker.register_wire(wire, wire_values, circ)?;
         }
 
@@ -299,11 +327,52 @@ impl<N: HugrNode> ValueTracker<N> {
     ///
     /// Picks unused names from the `bits` list, if available, or generates
     /// a new one with the internal generator.
+    ///
+    /// The bit may contain a value from a previous operation, use
+    /// [`ValueTracker::new_zero_bit`] if it must be `false`.
     pub fn new_bit(&mut self) -> TrackedBit {
-        self.unused_bits.pop_first().unwrap_or_else(|| {
-            self.bits.push(self.bit_reg_generator.next());
-            TrackedBit(self.bits.len() - 1)
-        })
+        self.new_bit_excluding(&[])
+    }
+
+    /// Create a new bit register name that is not one of the given bits.
+    ///
+    /// See [`ValueTracker::new_bit`].
+    pub(super) fn new_bit_excluding(&mut self, excluded: &[TrackedBit]) -> TrackedBit {
+        let unused = self
+            .unused_bits
+            .iter()
+            .find(|bit| !excluded.contains(bit))
+            .copied();
+        match unused {
+            Some(bit) => {
+                self.unused_bits.remove(&bit);
+                bit
+            }
+            None => self.fresh_bit(),
+        }
+    }
+
+    /// Create a new bit register name, that no other operation has used before.
+    ///
+    /// The bit is `false` at the start of the circuit.
+    pub fn new_zero_bit(&mut self) -> TrackedBit {
+        let bit = self.fresh_bit();
+        self.zero_bits.insert(bit);
+        bit
+    }
+
+    /// Create a new bit register name with the internal generator.
+    fn fresh_bit(&mut self) -> TrackedBit {
+        self.bits.push(self.bit_reg_generator.next());
+        TrackedBit(self.bits.len() - 1)
+    }
+
+    /// Returns `true` if a wire that has not been fully explored yet contains
+    /// the bit.
+    ///
+    /// The bit's register must not be overwritten while this is the case.
+    pub fn bit_in_use(&self, bit: TrackedBit) -> bool {
+        self.bit_wire_counts.get(&bit).is_some_and(|&c| c > 0)
     }
 
     /// Register a new parameter string expression.
@@ -341,6 +410,7 @@ impl<N: HugrNode> ValueTracker<N> {
                 }
                 TrackedValue::Bit(bit) => {
                     self.unused_bits.remove(bit);
+                    *self.bit_wire_counts.entry(*bit).or_default() += 1;
                 }
                 TrackedValue::Param(_) => {}
             }
@@ -406,14 +476,23 @@ impl<N: HugrNode> ValueTracker<N> {
         let wire = self.wires.remove(&wire).unwrap();
         let values = wire.values?;
 
-        // Free up the qubit and bit registers associated with the wire.
+        // Free up the bit registers associated with the wire, unless some other
+        // wire still uses their value.
+        //
+        // Qubit registers are never reused. We could not tell apart the
+        // newly allocated qubits from the discarded ones.
         for value in &values {
             match value {
-                TrackedValue::Qubit(qb) => {
-                    self.unused_qubits.insert(*qb);
-                }
+                TrackedValue::Qubit(_) => {}
                 TrackedValue::Bit(bit) => {
-                    self.unused_bits.insert(*bit);
+                    let count = self
+                        .bit_wire_counts
+                        .get_mut(bit)
+                        .expect("Bit should be in a tracked wire");
+                    *count -= 1;
+                    if *count == 0 {
+                        self.unused_bits.insert(*bit);
+                    }
                 }
                 TrackedValue::Param(_) => {}
             }
@@ -437,6 +516,106 @@ impl<N: HugrNode> ValueTracker<N> {
         &self.params[param.0]
     }
 
+    /// Ensure that the bits at the output of the region appear in the order of
+    /// the declared registers.
+    ///
+    /// The `k`-th output bit must be stored in the `k`-th declared register.
+    /// We rename the registers of the commands emitted so far when possible,
+    /// and copy the bits otherwise.
+    ///
+    /// Returns the new name for each of the current registers, followed by a
+    /// list of `(source, target)` copies to append to the circuit.
+    pub(super) fn arrange_output_bits(
+        &mut self,
+        circ: &Circuit<impl HugrView<Node = N>>,
+        region: N,
+    ) -> (
+        HashMap<RegisterUnit, RegisterUnit>,
+        Vec<(RegisterUnit, RegisterUnit)>,
+    ) {
+        let [_, output_node] = circ.hugr().get_io(region).unwrap();
+        let outputs: Vec<usize> = circ
+            .hugr()
+            .node_inputs(output_node)
+            .flat_map(|port| circ.hugr().linked_outputs(output_node, port))
+            .filter_map(|(node, port)| self.peek_wire_values(Wire::new(node, port)))
+            .flatten()
+            .filter_map(|value| match value {
+                TrackedValue::Bit(bit) => Some(bit.0),
+                _ => None,
+            })
+            .collect();
+
+        // The new index of each register, and the indices already in use.
+        let register_count = self.bits.len();
+        let mut indices: Vec<Option<usize>> = vec![None; register_count];
+        let mut taken: BTreeSet<usize> = BTreeSet::new();
+        let n_inputs = self.input_bit_count;
+        let zero_bits = &self.zero_bits;
+        // Only the registers after the inputs are initialised to `false`.
+        let allowed =
+            |bit: usize, index: usize| index >= n_inputs || !zero_bits.contains(&TrackedBit(bit));
+
+        for bit in &self.read_input_bits {
+            indices[bit.0] = Some(bit.0);
+            taken.insert(bit.0);
+        }
+        for (index, &bit) in outputs.iter().enumerate() {
+            if indices[bit].is_none() && allowed(bit, index) && taken.insert(index) {
+                indices[bit] = Some(index);
+            }
+        }
+        let (zero, other): (Vec<usize>, Vec<usize>) = (0..register_count)
+            .filter(|bit| indices[*bit].is_none())
+            .partition(|&bit| zero_bits.contains(&TrackedBit(bit)));
+        for bit in zero.into_iter().chain(other) {
+            let index = std::iter::once(bit)
+                .chain(0..)
+                .find(|&index| allowed(bit, index) && !taken.contains(&index))
+                .expect("There is always a free index");
+            taken.insert(index);
+            indices[bit] = Some(index);
+        }
+
+        let max_index = taken.last().map_or(0, |&index| index + 1);
+        while self.bits.len() < max_index.max(outputs.len()) {
+            self.fresh_bit();
+        }
+        let renames = indices
+            .iter()
+            .enumerate()
+            .map(|(bit, index)| {
+                let name = &self.bits[index.unwrap()];
+                (self.bits[bit].clone(), name.clone())
+            })
+            .collect();
+
+        // Copy the bits that could not be renamed.
+        let mut copies: Vec<(usize, usize)> = outputs
+            .iter()
+            .enumerate()
+            .map(|(target, &bit)| (indices[bit].unwrap(), target))
+            .filter(|(source, target)| source != target)
+            .collect();
+        // Use temporary bits for the sources that would be overwritten.
+        let targets: BTreeSet<usize> = copies.iter().map(|&(_, target)| target).collect();
+        let mut commands: Vec<(usize, usize)> = Vec::new();
+        for (source, _) in copies.iter_mut() {
+            if targets.contains(source) {
+                let temporary = self.fresh_bit().0;
+                commands.push((*source, temporary));
+                *source = temporary;
+            }
+        }
+        commands.extend(copies);
+        let commands = commands
+            .into_iter()
+            .map(|(source, target)| (self.bits[source].clone(), self.bits[target].clone()))
+            .collect();
+
+        (renames, commands)
+    }
+
     /// Finish the tracker and return the final list of qubit and bit registers.
     ///
     /// Looks at the circuit's output node to determine the final order of
@@ -448,10 +627,9 @@ impl<N: HugrNode> ValueTracker<N> {
     ) -> Result<ValueTrackerResult, PytketEncodeOpError<N>> {
         let [input_node, output_node] = circ.hugr().get_io(region).unwrap();
 
-        // Ordered list of qubits and bits at the output of the circuit.
+        // Ordered list of qubits at the output of the circuit.
         let mut straight_through_wires = Vec::new();
         let mut qubit_outputs = Vec::with_capacity(self.qubits.len() - self.unused_qubits.len());
-        let mut bit_outputs = Vec::with_capacity(self.bits.len() - self.unused_bits.len());
         let mut param_outputs = Vec::new();
         for tgt_port in circ.hugr().node_inputs(output_node) {
             for (src_node, src_port) in circ.hugr().linked_outputs(output_node, tgt_port) {
@@ -472,7 +650,8 @@ impl<N: HugrNode> ValueTracker<N> {
                         TrackedValue::Qubit(qb) => {
                             qubit_outputs.push(self.qubit_register(*qb).clone())
                         }
-                        TrackedValue::Bit(bit) => bit_outputs.push(self.bit_register(*bit).clone()),
+                        // The bits are already in order, see `arrange_output_bits`.
+                        TrackedValue::Bit(_) => {}
                         TrackedValue::Param(param) => {
                             param_outputs.push(self.param_expression(*param).to_string())
                         }
-- 
2.43.0


From b95bee3f6d37bbf04cd5a2735efc6ad40b03aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 41/53] fix: apply the implicit permutation of pytket circuits
 in the right direction

---
 tket/src/serialize/pytket/decoder.rs          |  2 +-
 tket/src/serialize/pytket/decoder/wires.rs    | 31 ++++++++++++-------
 .../serialize/pytket/encoder/value_tracker.rs | 21 +++++--------
 3 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 5a5cb20..99b525f 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -285,7 +285,7 @@ impl<'h> PytketDecoderContext<'h> {
             wire_tracker.track_bit(b.pytket_register_arc(), Some(b.reg_hash()))?;
         }
 
-        wire_tracker.compute_output_permutation(&serialcirc.implicit_permutation);
+        wire_tracker.compute_output_permutation(&serialcirc.implicit_permutation)?;
 
         Ok(wire_tracker)
     }
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 5cc6402..84f4361 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1,6 +1,6 @@
 //! Structures to keep track of pytket [`ElementId`][tket_json_rs::register::ElementId]s and
 //! their correspondence to wires in the hugr being defined.
-use std::collections::{BTreeMap, VecDeque};
+use std::collections::VecDeque;
 use std::sync::Arc;
 
 use hugr::builder::{DFGBuilder, Dataflow as _};
@@ -416,20 +416,29 @@ impl WireTracker {
     ///
     /// This is used to reorder the qubit registers at the output, according to
     /// pytket's implicit permutation.
-    pub(super) fn compute_output_permutation(&mut self, permutation: &Vec<ImplicitPermutation>) {
-        let mut reordered: BTreeMap<usize, usize> = BTreeMap::new();
-
-        let position = |id: &tket_json_rs::register::Qubit| {
-            let hash = RegisterHash::from(id);
-            self.latest_qubit_tracker.get_index_of(&hash).unwrap()
+    pub(super) fn compute_output_permutation(
+        &mut self,
+        permutation: &[ImplicitPermutation],
+    ) -> Result<(), PytketDecodeError> {
+        let position = |qubit: &tket_json_rs::register::Qubit| {
+            let hash = RegisterHash::from(qubit);
+            self.latest_qubit_tracker
+                .get_index_of(&hash)
+                .ok_or_else(|| PytketDecodeError::unknown_qubit_reg(&qubit.id))
         };
 
+        // Qubits not mentioned in the permutation stay in place.
+        let mut reordered = (0..self.latest_qubit_tracker.len()).collect_vec();
         for ImplicitPermutation(input, output) in permutation {
-            let input_pos = position(input);
-            let output_pos = position(output);
-            reordered.insert(output_pos, input_pos);
+            reordered[position(output)?] = position(input)?;
         }
-        self.output_qubit_permutation = reordered.values().copied().collect();
+        if !reordered.iter().all_unique() {
+            return Err(PytketDecodeError::custom(
+                "The circuit's implicit permutation is not a bijection.",
+            ));
+        }
+        self.output_qubit_permutation = reordered;
+        Ok(())
     }
 
     /// Returns a reference to the tracked qubit at the given index.
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 2a52b88..128b8a9 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -775,11 +775,6 @@ pub(super) fn compute_final_permutation(
     let declared_outputs: Vec<&RegisterUnit> = all_inputs.iter().collect();
     let mut actual_outputs_hashes: HashSet<RegisterHash> =
         actual_outputs.iter().map(RegisterHash::from).collect();
-    let mut input_hashes: HashMap<RegisterHash, usize> = HashMap::default();
-    for (i, inp) in all_inputs.iter().enumerate() {
-        let hash = inp.into();
-        input_hashes.insert(hash, i);
-    }
     // Extend `actual_outputs` with extra registers seen in the circuit.
     for reg in all_inputs {
         let hash = reg.into();
@@ -791,17 +786,15 @@ pub(super) fn compute_final_permutation(
 
     // Compute the final permutation.
     //
-    // For each element `reg` at the output of the circuit, we find its position `i` at the input,
-    // and find out the pytket output register associated with that position in the `declared_outputs` list.
+    // The `i`-th element `reg` at the output of the circuit must appear in the
+    // `i`-th declared pytket register.
     let permutation = actual_outputs
-        .iter()
-        .map(|reg| {
-            let hash = reg.into();
-            let i = input_hashes.get(&hash).unwrap();
-            let out = declared_outputs[*i].clone();
+        .into_iter()
+        .zip_eq(declared_outputs)
+        .map(|(reg, out)| {
             circuit_json::ImplicitPermutation(
-                tket_json_rs::register::Qubit { id: reg.clone() },
-                tket_json_rs::register::Qubit { id: out },
+                tket_json_rs::register::Qubit { id: reg },
+                tket_json_rs::register::Qubit { id: out.clone() },
             )
         })
         .collect_vec();
-- 
2.43.0


From 03fa8a8080a0d2c230188e953e99428a8b071ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 42/53] fix: read classical pytket operations on the bits they
 refer to

---
 tket/src/serialize/pytket/decoder/wires.rs  |   3 +-
 tket/src/serialize/pytket/extension/bool.rs | 152 ++++++++++++++------
 2 files changed, 109 insertions(+), 46 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 84f4361..67605ab 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -787,8 +787,7 @@ impl WireTracker {
         if wire == new_wire {
             Ok(FoundWire::Register(self.wires[&wire].clone()))
         } else {
-            let ty: Arc<Type> = wire_data.ty.clone();
-            self.track_wire(new_wire, ty, wire_qubits, wire_bits)?;
+            self.track_wire(new_wire, Arc::new(ty.clone()), wire_qubits, wire_bits)?;
             self.mark_wire_outdated(wire);
             Ok(FoundWire::Register(self.wires[&new_wire].clone()))
         }
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 4ae5fed..880d497 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -1,7 +1,7 @@
 //! Encoder and decoder for the tket.bool extension
 
 use super::PytketEmitter;
-use crate::extension::bool::{BoolOp, ConstBool, BOOL_EXTENSION_ID, BOOL_TYPE_NAME};
+use crate::extension::bool::{bool_type, BoolOp, ConstBool, BOOL_EXTENSION_ID, BOOL_TYPE_NAME};
 use crate::serialize::pytket::config::TypeTranslatorSet;
 use crate::serialize::pytket::decoder::{
     DecodeStatus, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
@@ -13,13 +13,18 @@ use crate::serialize::pytket::encoder::{
 use crate::serialize::pytket::extension::{PytketDecoder, PytketTypeTranslator, RegisterCount};
 use crate::serialize::pytket::{PytketDecodeError, PytketEncodeError};
 use crate::Circuit;
+use hugr::builder::Dataflow;
+use hugr::extension::prelude::{bool_t, Noop};
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
 use hugr::ops::constant::OpaqueValue;
-use hugr::ops::ExtensionOp;
+use hugr::ops::handle::NodeHandle;
+use hugr::ops::{ExtensionOp, Value};
 use hugr::HugrView;
 use itertools::Itertools;
+use tket_json_rs::circuit_json::Classical;
 use tket_json_rs::clexpr::op::ClOp;
+use tket_json_rs::clexpr::ClExpr;
 use tket_json_rs::clexpr::operator::{ClArgument, ClOperator, ClTerminal, ClVariable};
 
 /// Encoder for [prelude](hugr::extension::prelude) operations.
@@ -59,7 +64,9 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         // We assume here all operations are a single expression node, with only
         // variable inputs. If new [`BoolOp`]s are added that do not follow
         // this, the following code will need to be adjusted.
-        let bit_count = (num_inputs + num_outputs) as usize;
+        //
+        // The result overwrites the first input bit.
+        let bit_count = num_inputs as usize;
         let output_bits = (0..num_outputs).collect_vec();
         let mut expression = ClOperator::default();
         expression.op = clop;
@@ -81,7 +88,7 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
             return Ok(None);
         };
 
-        let new_bit = encoder.values.new_bit();
+        let new_bit = encoder.values.new_zero_bit();
         if const_b.value() {
             let op = set_bits_op(&[true]);
             encoder.emit_command(op, &[], &[new_bit], None);
@@ -111,7 +118,11 @@ impl PytketTypeTranslator for BoolEmitter {
 
 impl PytketDecoder for BoolEmitter {
     fn op_types(&self) -> Vec<tket_json_rs::OpType> {
-        vec![tket_json_rs::OpType::ClExpr]
+        vec![
+            tket_json_rs::OpType::ClExpr,
+            tket_json_rs::OpType::CopyBits,
+            tket_json_rs::OpType::SetBits,
+        ]
     }
 
     fn op_to_hugr<'h>(
@@ -123,61 +134,114 @@ impl PytketDecoder for BoolEmitter {
         _opgroup: Option<&str>,
         decoder: &mut PytketDecoderContext<'h>,
     ) -> Result<DecodeStatus, PytketDecodeError> {
-        let Some(clexpr) = &op.classical_expr else {
-            return Ok(DecodeStatus::Unsupported);
-        };
-
-        // We only decode classical expressions if their operands are the input
-        // bits in 0..n order, and the output comes immediately after.
-        //
-        // This can be easily relaxed if needed.
-        for (i, reg) in clexpr.reg_posn.iter().enumerate() {
-            if reg.index != i as u32 || reg.bits.0.len() != 1 {
-                return Ok(DecodeStatus::Unsupported);
-            }
-        }
-        for (i, arg) in clexpr.expr.args.iter().enumerate() {
-            match arg {
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
+        match op.classical.as_deref() {
+            Some(Classical::CopyBits { n_i })
+                if op.op_type == tket_json_rs::OpType::CopyBits
+                    && qubits.is_empty()
+                    && bits.len() == 2 * *n_i as usize =>
+            {
+                // Read all the values first, the targets may also be sources.
+                let (sources, targets) = bits.split_at(*n_i as usize);
+                let types = vec![bool_t(); sources.len()];
+                let wires = decoder.find_typed_wires(&types, &[], sources, &[])?;
+                let wires = wires.value_wires().collect_vec();
+                for (wire, target) in wires.into_iter().zip(targets) {
+                    let node = decoder
+                        .builder
+                        .add_dataflow_op(Noop::new(bool_t()), [wire])
+                        .map_err(PytketDecodeError::custom)?;
+                    decoder.register_node_outputs(node.node(), [], [target.clone()])?;
                 }
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
+                return Ok(DecodeStatus::Success);
+            }
+            Some(Classical::SetBits { values })
+                if op.op_type == tket_json_rs::OpType::SetBits
+                    && qubits.is_empty()
+                    && bits.len() == values.len() =>
+            {
+                for (value, target) in values.iter().zip(bits) {
+                    let wire = decoder.builder.add_load_value(Value::from_bool(*value));
+                    decoder.register_node_outputs(wire.node(), [], [target.clone()])?;
                 }
-                _ => continue,
+                return Ok(DecodeStatus::Success);
             }
+            _ => {}
         }
+        let Some(clexpr) = &op.classical_expr else {
+            return Ok(DecodeStatus::Unsupported);
+        };
 
-        let (op, num_inputs) = match clexpr.expr.op {
-            ClOp::BitEq => (BoolOp::eq, 2),
-            ClOp::BitNot => (BoolOp::not, 1),
-            ClOp::BitAnd => (BoolOp::and, 2),
-            ClOp::BitOr => (BoolOp::or, 2),
-            ClOp::BitXor => (BoolOp::xor, 2),
+        let op = match clexpr.expr.op {
+            ClOp::BitEq => BoolOp::eq,
+            ClOp::BitNot => BoolOp::not,
+            ClOp::BitAnd => BoolOp::and,
+            ClOp::BitOr => BoolOp::or,
+            ClOp::BitXor => BoolOp::xor,
             _ => return Ok(DecodeStatus::Unsupported),
         };
+        let num_inputs = match op {
+            BoolOp::not => 1,
+            _ => 2,
+        };
 
-        if !params.is_empty() {
+        if !params.is_empty() || !qubits.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
 
-        decoder.add_node_with_wires(
-            op,
-            qubits,
-            qubits,
-            &bits[..num_inputs],
-            &bits[num_inputs..],
-            &[],
-        )?;
+        // We only decode single operations on bits. The command's arguments
+        // may appear in any order, and may be both inputs and outputs.
+        let input_bits: Option<Vec<TrackedBit>> = clexpr
+            .expr
+            .args
+            .iter()
+            .map(|arg| Some(bits.get(argument_position(arg, clexpr)?)?.clone()))
+            .collect();
+        let output_bit = match clexpr.output_posn.0.as_slice() {
+            [position] => bits.get(*position as usize),
+            _ => None,
+        };
+        let (Some(input_bits), Some(output_bit)) = (input_bits, output_bit) else {
+            return Ok(DecodeStatus::Unsupported);
+        };
+        if input_bits.len() != num_inputs {
+            return Ok(DecodeStatus::Unsupported);
+        }
+
+        // The input bits keep their value, except for the output one.
+        let input_types = vec![bool_type(); num_inputs];
+        let wires = decoder.find_typed_wires(&input_types, &[], &input_bits, &[])?;
+        let node = decoder
+            .builder
+            .add_dataflow_op(op, wires.value_wires())
+            .map_err(PytketDecodeError::custom)?;
+        decoder.register_node_outputs(node.node(), [], [output_bit.clone()])?;
 
         Ok(DecodeStatus::Success)
     }
 }
 
+/// Returns the position in the command's arguments of a bit used as an argument
+/// in a classical expression.
+///
+/// Returns `None` if the argument is not a single bit.
+fn argument_position(arg: &ClArgument, clexpr: &ClExpr) -> Option<usize> {
+    let ClArgument::Terminal(ClTerminal::Variable(variable)) = arg else {
+        return None;
+    };
+    let position = match variable {
+        ClVariable::Bit { index } => clexpr.bit_posn.iter().find(|(i, _)| i == index)?.1,
+        ClVariable::Register { index } => {
+            let register = clexpr.reg_posn.iter().find(|reg| reg.index == *index)?;
+            match register.bits.0.as_slice() {
+                [position] => *position,
+                _ => return None,
+            }
+        }
+        _ => return None,
+    };
+    Some(position as usize)
+}
+
 /// Return a pytket operation setting the values of a list of bits.
 pub(crate) fn set_bits_op(values: &[bool]) -> tket_json_rs::circuit_json::Operation {
     make_tk1_classical_operation(
-- 
2.43.0


From 95b5698ec6b3de9b13a8a43065cf4317314ea1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 43/53] fix: keep the bits of pytket barriers

---
 tket/src/serialize/pytket/extension/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index b525c8f..0cb75e1 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -158,7 +158,7 @@ impl PytketDecoder for PreludeEmitter {
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-        decoder.add_node_with_wires(op, qubits, qubits, bits, &[], &[])?;
+        decoder.add_node_with_wires(op, qubits, qubits, bits, bits, &[])?;
 
         Ok(DecodeStatus::Success)
     }
-- 
2.43.0


From 50a519eeb50d31dd1da4cde62bf5557be120e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 44/53] fix: write no-ops as pytket operations

---
 tket/src/serialize/pytket/extension/prelude.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index 0cb75e1..566c4c5 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -46,6 +46,18 @@ impl<H: HugrView> PytketEmitter<H> for PreludeEmitter {
             )?;
             return Ok(EncodeStatus::Success);
         };
+        if let Ok(noop) = Noop::from_extension_op(op) {
+            match &noop.0 {
+                typ if *typ == qb_t() => {
+                    encoder.emit_node(PytketOptype::noop, node, circ, EmitCommandOptions::new())?;
+                }
+                typ if encoder.config().type_to_pytket(typ).is_some() => {
+                    encoder.emit_transparent_node(node, circ, |ps| ps.input_params.to_owned())?;
+                }
+                _ => return Ok(EncodeStatus::Unsupported),
+            }
+            return Ok(EncodeStatus::Success);
+        }
         Ok(EncodeStatus::Unsupported)
     }
 }
-- 
2.43.0


From 7a27c26712402ba80a850721f73def13918352d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 45/53] fix: pack and unpack tuples when decoding pytket
 circuits

---
 tket/src/serialize/pytket/decoder/wires.rs | 202 ++++++++++++++++++---
 1 file changed, 176 insertions(+), 26 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 67605ab..2c10289 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -4,11 +4,11 @@ use std::collections::VecDeque;
 use std::sync::Arc;
 
 use hugr::builder::{DFGBuilder, Dataflow as _};
-use hugr::extension::prelude::{bool_t, qb_t};
+use hugr::extension::prelude::{bool_t, qb_t, MakeTuple, UnpackTuple};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::Value;
 use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
-use hugr::types::Type;
+use hugr::types::{Type, TypeEnum};
 use hugr::{Hugr, IncomingPort, Node, Wire};
 use indexmap::{IndexMap, IndexSet};
 use itertools::Itertools;
@@ -701,17 +701,6 @@ impl WireTracker {
                 });
         };
 
-        // List candidate wires that contain the qubits and bits we need.
-        let qubit_candidates = qubit_args
-            .first()
-            .into_iter()
-            .flat_map(|qb| self.qubit_wires(qb));
-        let bit_candidates = bit_args
-            .first()
-            .into_iter()
-            .flat_map(|bit| self.bit_wires(bit));
-        let candidates = qubit_candidates.chain(bit_candidates).collect_vec();
-
         // The bits and qubits we expect the wire to contain.
         let wire_qubits = qubit_args
             .iter()
@@ -723,13 +712,34 @@ impl WireTracker {
         let wire_bit_ids = wire_bits.iter().map(|bit| bit.id()).collect_vec();
 
         // Find a wire that contains the correct type..
-        let check_wire = |w: &Wire| {
-            let wire_data = &self.wires[w];
+        let check_wire = |tracker: &Self, w: &Wire| {
+            let wire_data = &tracker.wires[w];
             wire_data.qubits == wire_qubit_ids
                 && wire_data.bits == wire_bit_ids
                 && config.types_are_isomorphic(wire_data.ty(), ty)
         };
-        let wire = match candidates.into_iter().find(check_wire) {
+        let mut found = self
+            .candidate_wires(qubit_args, bit_args)
+            .into_iter()
+            .find(|w| check_wire(self, w));
+        if found.is_none() {
+            // The value may be an element of a tuple.
+            while let Some(tuple) = self
+                .candidate_wires(qubit_args, bit_args)
+                .into_iter()
+                .find(|w| tuple_types(self.wires[w].ty()).is_some())
+            {
+                self.unpack_tuple_wire(config, builder, tuple)?;
+            }
+            found = self
+                .candidate_wires(qubit_args, bit_args)
+                .into_iter()
+                .find(|w| check_wire(self, w));
+        }
+        if let (None, Some(elems)) = (found, tuple_types(ty)) {
+            return self.pack_tuple_wire(config, builder, ty, elems, qubit_args, bit_args);
+        }
+        let wire = match found {
             Some(wire) => wire,
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
@@ -793,6 +803,122 @@ impl WireTracker {
         }
     }
 
+    /// Lists the wires that contain the first of the given qubits, or the first
+    /// of the given bits.
+    fn candidate_wires(&self, qubit_args: &[TrackedQubit], bit_args: &[TrackedBit]) -> Vec<Wire> {
+        let qubit_candidates = qubit_args
+            .first()
+            .into_iter()
+            .flat_map(|qb| self.qubit_wires(qb));
+        let bit_candidates = bit_args
+            .first()
+            .into_iter()
+            .flat_map(|bit| self.bit_wires(bit));
+        qubit_candidates.chain(bit_candidates).collect_vec()
+    }
+
+    /// Split a wire containing a tuple into its elements.
+    ///
+    /// The registers in the wire are found in the elements' wires from now on.
+    fn unpack_tuple_wire(
+        &mut self,
+        config: &PytketDecoderConfig,
+        builder: &mut DFGBuilder<&mut Hugr>,
+        tuple: Wire,
+    ) -> Result<(), PytketDecodeError> {
+        let data = self.wires[&tuple].clone();
+        let types = tuple_types(data.ty()).expect("the wire contains a tuple");
+        let unpack = builder
+            .add_dataflow_op(UnpackTuple::new(types.clone().into()), [tuple])
+            .map_err(PytketDecodeError::custom)?;
+
+        for wires in self
+            .qubit_wires
+            .values_mut()
+            .chain(self.bit_wires.values_mut())
+        {
+            wires.retain(|w| *w != tuple);
+        }
+        let (mut qubits, mut bits) = (data.qubits.as_slice(), data.bits.as_slice());
+        for (ty, wire) in types.into_iter().zip(unpack.outputs()) {
+            let count = config.type_to_pytket(&ty).unwrap_or_default();
+            let (elem_qubits, elem_bits);
+            (elem_qubits, qubits) = qubits.split_at(count.qubits);
+            (elem_bits, bits) = bits.split_at(count.bits);
+            self.insert_wire(WireData {
+                wire,
+                ty: Arc::new(ty),
+                qubits: elem_qubits.to_vec(),
+                bits: elem_bits.to_vec(),
+            });
+        }
+        Ok(())
+    }
+
+    /// Pack the registers that a tuple type requires into a new wire.
+    ///
+    /// The qubits in the tuple are not found in other wires from now on.
+    fn pack_tuple_wire(
+        &mut self,
+        config: &PytketDecoderConfig,
+        builder: &mut DFGBuilder<&mut Hugr>,
+        ty: &Type,
+        elems: Vec<Type>,
+        qubit_args: &mut &[TrackedQubit],
+        bit_args: &mut &[TrackedBit],
+    ) -> Result<FoundWire, PytketDecodeError> {
+        let mut inputs = Vec::with_capacity(elems.len());
+        let mut tuple = WireData {
+            // Replaced below, once the tuple has been created.
+            wire: builder.input().out_wire(0),
+            ty: Arc::new(ty.clone()),
+            qubits: Vec::new(),
+            bits: Vec::new(),
+        };
+        for elem in &elems {
+            // Elements without any register, such as units.
+            if config.type_to_pytket(elem).is_none() && tuple_types(elem).is_some() {
+                inputs.push(add_empty_tuple(builder, elem)?);
+                continue;
+            }
+            let found = self.find_typed_wire(
+                config,
+                builder,
+                elem,
+                qubit_args,
+                bit_args,
+                &mut [].as_slice(),
+                None,
+            )?;
+            let FoundWire::Register(data) = found else {
+                unreachable!("tuples of registers do not contain parameters")
+            };
+            inputs.push(data.wire());
+            tuple.qubits.extend(data.qubits);
+            tuple.bits.extend(data.bits);
+        }
+        tuple.wire = builder
+            .add_dataflow_op(MakeTuple::new(elems.into()), inputs)
+            .map_err(PytketDecodeError::custom)?
+            .out_wire(0);
+        for q in &tuple.qubits {
+            self.qubit_wires[q].clear();
+        }
+        self.insert_wire(tuple.clone());
+        Ok(FoundWire::Register(tuple))
+    }
+
+    /// Associate a wire with the registers that it contains.
+    fn insert_wire(&mut self, data: WireData) {
+        for q in &data.qubits {
+            self.qubit_wires[q].push(data.wire);
+        }
+        for b in &data.bits {
+            self.bit_wires[b].push(data.wire);
+        }
+        self.wires.insert(data.wire, data);
+    }
+
     /// Returns a new [TrackedWires] set for a list of [`TrackedQubit`]s,
     /// [`TrackedBit`]s, and [`LoadedParameter`]s following the required types.
     ///
@@ -1029,20 +1155,12 @@ impl WireTracker {
             })
             .collect::<Result<_, _>>()?;
 
-        for &q in &qubits {
-            self.qubit_wires[&q].push(wire);
-        }
-        for &b in &bits {
-            self.bit_wires[&b].push(wire);
-        }
-
-        let wire_data = WireData {
+        self.insert_wire(WireData {
             wire,
             ty,
             qubits,
             bits,
-        };
-        self.wires.insert(wire, wire_data);
+        });
 
         Ok(())
     }
@@ -1157,6 +1275,38 @@ impl WireTracker {
     }
 }
 
+/// Returns the types of the elements of a tuple.
+///
+/// Returns `None` if the type is not a tuple.
+fn tuple_types(ty: &Type) -> Option<Vec<Type>> {
+    let TypeEnum::Sum(sum) = ty.as_type_enum() else {
+        return None;
+    };
+    if sum.num_variants() != 1 {
+        return None;
+    }
+    sum.as_tuple()?
+        .iter()
+        .map(|elem| elem.clone().try_into().ok())
+        .collect()
+}
+
+/// Create a tuple that does not contain any values.
+fn add_empty_tuple(
+    builder: &mut DFGBuilder<&mut Hugr>,
+    ty: &Type,
+) -> Result<Wire, PytketDecodeError> {
+    let elems = tuple_types(ty).expect("a tuple type");
+    let inputs = elems
+        .iter()
+        .map(|elem| add_empty_tuple(builder, elem))
+        .collect::<Result<Vec<_>, _>>()?;
+    let tuple = builder
+        .add_dataflow_op(MakeTuple::new(elems.into()), inputs)
+        .map_err(PytketDecodeError::custom)?;
+    Ok(tuple.out_wire(0))
+}
+
 /// Only single-indexed registers are supported.
 fn check_register(register: &PytketRegister) -> Result<(), PytketDecodeError> {
     if register.1.len() != 1 {
-- 
2.43.0


From 4464f7d1f6bc0eeb24fb5c29be5a46adddd96de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 46/53] fix: list the parameters of leftover pytket subgraphs
 in input order

---
 tket/src/serialize/pytket/encoder.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index def36d3..ce916f4 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -16,7 +16,7 @@ use hugr::ops::{OpTrait, OpType};
 use hugr::types::EdgeKind;
 
 use std::borrow::Cow;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::ops::RangeTo;
 use std::sync::{Arc, RwLock};
 
@@ -225,7 +225,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
     ) -> Result<(EncodedCircuitInfo, OpaqueSubgraphs<H::Node>), PytketEncodeError<H::Node>> {
         // Add any remaining unsupported nodes
         let mut extra_subgraph: Option<BTreeSet<H::Node>> = None;
-        let mut extra_subgraph_params = Vec::new();
+        let mut extra_params_by_port = BTreeMap::new();
         while !self.unsupported.is_empty() {
             let node = self.unsupported.iter().next().unwrap();
             let opaque_subgraphs = self.unsupported.extract_component(node, circ.hugr())?;
@@ -237,14 +237,32 @@ impl<H: HugrView> PytketEncoderContext<H> {
                     extra_subgraph
                         .get_or_insert_default()
                         .extend(opaque_subgraphs.nodes().iter().cloned());
-                    extra_subgraph_params.extend(params);
+                    let param_ports = opaque_subgraphs
+                        .incoming_ports()
+                        .iter()
+                        .zip(opaque_subgraphs.signature().input().iter())
+                        .filter(|(_, ty)| {
+                            self.config()
+                                .type_to_pytket(ty)
+                                .is_some_and(|count| count.params > 0)
+                        })
+                        .map(|(port, _)| *port);
+                    extra_params_by_port.extend(param_ports.zip(params));
                 }
                 Err(e) => return Err(e),
             }
         }
+        let mut extra_subgraph_params = Vec::new();
         let extra_subgraph = extra_subgraph
             .map(|nodes| -> Result<_, PytketEncodeError<H::Node>> {
                 let subgraph = OpaqueSubgraph::try_from_nodes(nodes, circ.hugr())?;
+                // List the parameters in the order of the subgraph's inputs.
+                extra_subgraph_params.extend(
+                    subgraph
+                        .incoming_ports()
+                        .iter()
+                        .filter_map(|port| extra_params_by_port.remove(port)),
+                );
                 Ok(self.opaque_subgraphs.register_opaque_subgraph(subgraph))
             })
             .transpose()?;
-- 
2.43.0


From f604771008e2b050aba327d4013aee4247f2824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 47/53] fix: keep the wires of opaque pytket subgraphs
 connected

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 78 ++++++++++++++-----
 tket/src/serialize/pytket/decoder/wires.rs    | 15 ++++
 tket/src/serialize/pytket/encoder.rs          | 11 ++-
 tket/src/serialize/pytket/opaque/payload.rs   |  6 ++
 4 files changed, 85 insertions(+), 25 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index b74d2a2..57ccc4e 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -30,7 +30,7 @@ impl<'h> PytketDecoderContext<'h> {
         params: &[LoadedParameter],
         payload: &OpaqueSubgraphPayload,
     ) -> Result<DecodeStatus, PytketDecodeError> {
-        let status = match payload {
+        match payload {
             OpaqueSubgraphPayload::External { id } => {
                 self.insert_external_subgraph(*id, qubits, bits, params)
             }
@@ -39,17 +39,33 @@ impl<'h> PytketDecoderContext<'h> {
                 inputs,
                 outputs,
             } => self.insert_inline_subgraph(hugr_envelope, inputs, outputs, qubits, bits, params),
-        }?;
-
-        // Mark the used qubits and bits as outdated.
-        qubits.iter().for_each(|q| {
-            self.wire_tracker.mark_qubit_outdated(q.clone());
-        });
-        bits.iter().for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
+        }
+    }
 
-        Ok(status)
+    /// Mark the qubits and bits used by a subgraph as outdated.
+    ///
+    /// This must be done after finding the subgraph's input wires, which may
+    /// have initialized the registers, and before tracking the outputs.
+    fn mark_subgraph_args_outdated(
+        &mut self,
+        qubits: &[TrackedQubit],
+        bits: &[TrackedBit],
+    ) -> Result<(), PytketDecodeError> {
+        for q in qubits {
+            let latest = self
+                .wire_tracker
+                .tracked_qubit_for_register(q.pytket_register())?
+                .clone();
+            self.wire_tracker.mark_qubit_outdated(latest);
+        }
+        for b in bits {
+            let latest = self
+                .wire_tracker
+                .tracked_bit_for_register(b.pytket_register())?
+                .clone();
+            self.wire_tracker.mark_bit_outdated(latest);
+        }
+        Ok(())
     }
 
     /// Move the subgraph nodes referenced by an
@@ -81,6 +97,8 @@ impl<'h> PytketDecoderContext<'h> {
             subgraph, qubits, bits, params, old_parent, new_parent,
         )?;
 
+        self.mark_subgraph_args_outdated(qubits, bits)?;
+
         self.rewire_external_subgraph_outputs(subgraph, qubits, bits, old_parent, new_parent)?;
 
         Ok(DecodeStatus::Success)
@@ -181,13 +199,30 @@ impl<'h> PytketDecoderContext<'h> {
             // to track new qubits and bits, re-connect it to some output, or
             // leave it untouched.
             let wire = Wire::new(*src, *src_port);
-            if let Some(counts) = self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
-                // This port declares new outputs to be tracked by the decoder.
-                // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
+            if let Some(counts) = self.config().type_to_pytket(ty) {
+                // Make sure to disconnect the old wire, except for the
+                // connections to other nodes in the subgraph.
+                let old_targets = self
+                    .builder
+                    .hugr()
+                    .linked_inputs(*src, *src_port)
+                    .filter(|(tgt, _)| !subgraph.nodes().contains(tgt))
+                    .collect_vec();
+                for (tgt, tgt_port) in old_targets {
+                    self.builder.hugr_mut().disconnect(tgt, tgt_port);
+                }
 
-                // Make sure to disconnect the old wire.
-                self.builder.hugr_mut().disconnect(*src, *src_port);
+                // Output parameters are referred to by a variable.
+                if counts.params > 0 {
+                    self.wire_tracker.register_subgraph_parameter(
+                        wire,
+                        ty,
+                        EncodedEdgeID::new(wire),
+                    );
+                    continue;
+                }
 
+                // This port declares new outputs to be tracked by the decoder.
                 let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                 let wire_bits = split_off(&mut output_bits, ..counts.bits);
                 if wire_qubits.is_none() || wire_bits.is_none() {
@@ -324,6 +359,8 @@ impl<'h> PytketDecoderContext<'h> {
             &insertion_result,
         )?;
 
+        self.mark_subgraph_args_outdated(qubits, bits)?;
+
         self.wire_inline_subgraph_outputs(
             qubits,
             bits,
@@ -407,11 +444,14 @@ impl<'h> PytketDecoderContext<'h> {
         {
             let node = *insertion_result.node_map.get(&to_insert_node).unwrap();
             let wire = Wire::new(node, port);
-            match self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
+            match self.config().type_to_pytket(ty) {
+                Some(counts) if counts.params > 0 => {
+                    // Output parameters are referred to by a variable.
+                    self.wire_tracker
+                        .register_subgraph_parameter(wire, ty, *edge_id);
+                }
                 Some(counts) => {
                     // Track the registers in the subgraph output wires.
-                    // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
-                    // We only track qubit/bit wires here.
                     let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                     let wire_bits = split_off(&mut output_bits, ..counts.bits);
                     if wire_qubits.is_none() || wire_bits.is_none() {
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 2c10289..ec04be2 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1183,6 +1183,21 @@ impl WireTracker {
         Ok(())
     }
 
+    /// Associate the parameter output of an opaque subgraph with the variable
+    /// that refers to it in pytket expressions.
+    ///
+    /// Does nothing if the wire does not contain a parameter.
+    pub(super) fn register_subgraph_parameter(&mut self, wire: Wire, ty: &Type, id: EncodedEdgeID) {
+        let loaded = if ty == &rotation_type() {
+            LoadedParameter::rotation(wire)
+        } else if ty == &float64_type() {
+            LoadedParameter::float_half_turns(wire)
+        } else {
+            return;
+        };
+        self.parameters.insert(id.parameter_name(), loaded);
+    }
+
     /// Track a parameter input to the region for which we don't have a variable name yet.
     pub(super) fn register_unused_parameter_input(&mut self, loaded: LoadedParameter) {
         self.unused_parameter_inputs.push_back(loaded);
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index ce916f4..c9cfcff 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -33,7 +33,7 @@ use crate::circuit::Circuit;
 use crate::serialize::pytket::circuit::{AdditionalNodesAndWires, EncodedCircuitInfo};
 use crate::serialize::pytket::config::PytketEncoderConfig;
 use crate::serialize::pytket::extension::RegisterCount;
-use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload};
+use crate::serialize::pytket::opaque::{EncodedEdgeID, OpaqueSubgraph, OpaqueSubgraphPayload};
 
 /// The state of an in-progress [`SerialCircuit`] being built from a [`Circuit`].
 #[derive(derive_more::Debug)]
@@ -642,8 +642,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // any new output values.
         //
         // Output parameters are mapped to a fresh variable, that can be tracked
-        // back to the encoded subcircuit's function name.
-        let mut out_param_count = 0;
+        // back to the subgraph's output wire.
         let input_qubits = op_values.qubits.clone();
         let input_bits = op_values.bits.clone();
         let mut out_qubits = input_qubits.as_slice();
@@ -670,9 +669,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 &used_bits,
                 &input_param_exprs,
                 |p| {
-                    let range = out_param_count..out_param_count + p.expected_count;
-                    out_param_count += p.expected_count;
-                    range.map(|i| format!("{subgraph_id}_out{i}")).collect_vec()
+                    debug_assert!(p.expected_count <= 1);
+                    let edge = EncodedEdgeID::new(Wire::new(*out_node, *out_port));
+                    vec![edge.parameter_name(); p.expected_count]
                 },
             )?;
             used_bits.extend(&new_outputs.bits);
diff --git a/tket/src/serialize/pytket/opaque/payload.rs b/tket/src/serialize/pytket/opaque/payload.rs
index 5794f33..32ef8d1 100644
--- a/tket/src/serialize/pytket/opaque/payload.rs
+++ b/tket/src/serialize/pytket/opaque/payload.rs
@@ -60,6 +60,12 @@ impl EncodedEdgeID {
         let hash = fxhash::hash64(&wire);
         Self(hash)
     }
+
+    /// The variable used in pytket parameter expressions to refer to the value
+    /// of a parameter wire that comes out of an opaque subgraph.
+    pub(in crate::serialize::pytket) fn parameter_name(&self) -> String {
+        format!("edge_{id}", id = self.0)
+    }
 }
 
 /// Payload for a pytket barrier metadata that indicates the barrier represents
-- 
2.43.0


From cced47eab6ba1b652d48f5b305058f641ef7b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 48/53] fix: only encode futures that are read in the same
 pytket circuit

---
 tket-qsystem/src/pytket.rs         |   4 -
 tket-qsystem/src/pytket/futures.rs | 118 +++++++++++++++++++++--------
 tket-qsystem/src/pytket/qsystem.rs |  27 ++++++-
 3 files changed, 111 insertions(+), 38 deletions(-)

diff --git a/tket-qsystem/src/pytket.rs b/tket-qsystem/src/pytket.rs
index d696e57..e5239a4 100644
--- a/tket-qsystem/src/pytket.rs
+++ b/tket-qsystem/src/pytket.rs
@@ -19,8 +19,6 @@ pub fn qsystem_decoder_config() -> PytketDecoderConfig {
     let mut config = default_decoder_config();
     config.add_decoder(QSystemEmitter);
 
-    config.add_type_translator(FutureEmitter);
-
     config
 }
 
@@ -33,8 +31,6 @@ pub fn qsystem_encoder_config<H: HugrView>() -> PytketEncoderConfig<H> {
     config.add_emitter(QSystemEmitter);
     config.add_emitter(FutureEmitter);
 
-    config.add_type_translator(FutureEmitter);
-
     config
 }
 
diff --git a/tket-qsystem/src/pytket/futures.rs b/tket-qsystem/src/pytket/futures.rs
index b687493..16bac99 100644
--- a/tket-qsystem/src/pytket/futures.rs
+++ b/tket-qsystem/src/pytket/futures.rs
@@ -1,25 +1,25 @@
-//! Encoder and decoder for floating point operations.
+//! Encoder for operations on futures.
 
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
 use hugr::ops::ExtensionOp;
-use hugr::types::Term;
-use hugr::HugrView;
+use hugr::{Direction, HugrView, Wire};
 use itertools::Itertools;
 use tket::serialize::pytket::encoder::EncodeStatus;
-use tket::serialize::pytket::extension::{PytketTypeTranslator, RegisterCount};
-use tket::serialize::pytket::{
-    PytketEmitter, PytketEncodeError, PytketEncoderContext, TypeTranslatorSet,
-};
+use tket::serialize::pytket::{PytketEmitter, PytketEncodeError, PytketEncoderContext};
 use tket::Circuit;
 
 use crate::extension::futures::{self, FutureOpDef};
+use crate::extension::qsystem::QSystemOp;
 
-/// Emitter for [futures](crate::extension::futures) operations and types.
+/// Emitter for [futures](crate::extension::futures) operations.
 ///
-/// The `Future<T>` type is treated as a transparent wrapper when translated to
-/// pytket circuits, and operations dealing with futures do not produce pytket
-/// commands.
+/// The result of a lazy measurement is treated as a transparent wrapper around a
+/// pytket bit when it is created and read in the same region, and operations
+/// dealing with it do not produce pytket commands.
+///
+/// There is no pytket counterpart for other `Future<T>` values, so the
+/// operations using those are not encoded.
 #[derive(Debug, Clone, Default)]
 pub struct FutureEmitter;
 
@@ -39,46 +39,102 @@ impl<H: HugrView> PytketEmitter<H> for FutureEmitter {
             return Ok(EncodeStatus::Unsupported);
         };
 
+        // There are no futures in pytket, we can only encode the operations
+        // when the future is always produced and consumed inside the circuit.
+        let future = circ.hugr().single_linked_output(node, 0);
+        if !future.is_some_and(|(n, p)| is_pytket_bit(Wire::new(n, p), circ)) {
+            return Ok(EncodeStatus::Unsupported);
+        }
+
         match rot_op {
             FutureOpDef::Read => {
-                // Transparent map
-                encoder.emit_transparent_node(node, circ, |ps| ps.input_params.to_vec())?;
+                // Register the value of the future in the output.
+                let values = encoder.get_input_values(node, circ)?;
+                encoder
+                    .values
+                    .register_wire(Wire::new(node, 0), values, circ)?;
+
                 Ok(EncodeStatus::Success)
             }
             FutureOpDef::Dup => {
                 // Register the same input values for each output.
                 let values = encoder.get_input_values(node, circ)?;
                 let outputs = circ.hugr().node_outputs(node).collect_vec();
-                let out0 = hugr::Wire::new(node, outputs[0]);
-                let out1 = hugr::Wire::new(node, outputs[1]);
+                let out0 = Wire::new(node, outputs[0]);
+                let out1 = Wire::new(node, outputs[1]);
 
                 encoder.values.register_wire(out0, values.clone(), circ)?;
                 encoder.values.register_wire(out1, values, circ)?;
 
                 Ok(EncodeStatus::Success)
             }
-            FutureOpDef::Free => Ok(EncodeStatus::Success),
+            FutureOpDef::Free => {
+                // Mark the future as explored and forget about it.
+                encoder.get_input_values(node, circ)?;
+                Ok(EncodeStatus::Success)
+            }
         }
     }
 }
 
-impl PytketTypeTranslator for FutureEmitter {
-    fn extensions(&self) -> Vec<ExtensionId> {
-        vec![futures::EXTENSION_ID]
-    }
+/// Returns `true` if a future can be replaced with a pytket bit.
+///
+/// That is, if it is the result of a [`QSystemOp::LazyMeasure`], it is only used
+/// by [`FutureOpDef`] operations, and there are no order requirements between
+/// those and other operations.
+pub(super) fn is_pytket_bit<H: HugrView>(future: Wire<H::Node>, circ: &Circuit<H>) -> bool {
+    let hugr = circ.hugr();
 
-    fn type_to_pytket(
-        &self,
-        typ: &hugr::types::CustomType,
-        type_translators: &TypeTranslatorSet,
-    ) -> Option<RegisterCount> {
-        if typ.name() != futures::FUTURE_TYPE_NAME.as_str() {
-            return None;
-        }
-        let Some(Term::Runtime(inner_ty)) = typ.args().first() else {
-            return None;
+    // Find the operation that originated the future.
+    let mut root = future;
+    while is_future_op(root.node(), circ) {
+        let Some((node, port)) = hugr.single_linked_output(root.node(), 0) else {
+            return false;
         };
+        root = Wire::new(node, port);
+    }
+    let is_lazy_measure = hugr
+        .get_optype(root.node())
+        .as_extension_op()
+        .and_then(|op| QSystemOp::from_extension_op(op).ok())
+        == Some(QSystemOp::LazyMeasure);
+    if !is_lazy_measure || has_order_edges(root.node(), circ) {
+        return false;
+    }
 
-        type_translators.type_to_pytket(inner_ty)
+    // Check that all copies are used by future operations.
+    let mut targets = hugr
+        .linked_inputs(root.node(), root.source())
+        .map(|(node, _)| node)
+        .collect_vec();
+    while let Some(node) = targets.pop() {
+        if !is_future_op(node, circ) || has_order_edges(node, circ) {
+            return false;
+        }
+        let is_dup = hugr
+            .get_optype(node)
+            .as_extension_op()
+            .and_then(|op| FutureOpDef::from_extension_op(op).ok())
+            == Some(FutureOpDef::Dup);
+        if is_dup {
+            targets.extend(hugr.output_neighbours(node));
+        }
     }
+    true
+}
+
+/// Returns `true` if the node is an operation on futures.
+fn is_future_op<H: HugrView>(node: H::Node, circ: &Circuit<H>) -> bool {
+    let op = circ.hugr().get_optype(node).as_extension_op();
+    op.is_some_and(|op| FutureOpDef::from_extension_op(op).is_ok())
+}
+
+/// Returns `true` if the node has state order edges.
+fn has_order_edges<H: HugrView>(node: H::Node, circ: &Circuit<H>) -> bool {
+    let hugr = circ.hugr();
+    let op = hugr.get_optype(node);
+    [Direction::Incoming, Direction::Outgoing]
+        .into_iter()
+        .filter_map(|dir| op.other_port(dir))
+        .any(|port| hugr.is_linked(node, port))
 }
diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 849b04d..6200619 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -1,14 +1,18 @@
 //! Encoder/decoder for [qsystem::EXTENSION][use crate::extension::qsystem::EXTENSION] operations.
 
+use std::borrow::Cow;
+
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
 use hugr::ops::ExtensionOp;
-use hugr::HugrView;
+use hugr::{HugrView, Wire};
 use itertools::Itertools as _;
 use tket::serialize::pytket::decoder::{
     DecodeStatus, LoadedParameter, ParameterType, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
-use tket::serialize::pytket::encoder::{make_tk1_operation, EmitCommandOptions, EncodeStatus};
+use tket::serialize::pytket::encoder::{
+    make_tk1_operation, EmitCommandOptions, EncodeStatus, MakeOperationArgs,
+};
 use tket::serialize::pytket::extension::PytketDecoder;
 use tket::serialize::pytket::{
     PytketDecodeError, PytketEmitter, PytketEncodeError, PytketEncoderContext,
@@ -18,6 +22,7 @@ use tket_json_rs::optype::OpType as PytketOptype;
 
 use crate::extension;
 use crate::extension::qsystem::{QSystemOp, RuntimeBarrierDef};
+use crate::pytket::futures::is_pytket_bit;
 
 /// Encoder for [futures](crate::extension::futures) operations.
 #[derive(Debug, Clone, Default)]
@@ -58,7 +63,23 @@ impl QSystemEmitter {
             QSystemOp::Measure => PytketOptype::Measure,
             // "Lazy" operations are translated as eager measurements in pytket,
             // as there is no `Future<T>` type there.
-            QSystemOp::LazyMeasure => PytketOptype::Measure,
+            QSystemOp::LazyMeasure => {
+                let future = Wire::new(node, 0);
+                if !is_pytket_bit(future, circ) {
+                    return Ok(EncodeStatus::Unsupported);
+                }
+                let inputs = encoder.get_input_values(node, circ)?;
+                let bit = encoder.values.new_bit();
+                let args = MakeOperationArgs {
+                    num_qubits: 1,
+                    num_bits: 1,
+                    params: Cow::Borrowed(&[]),
+                };
+                let measure = make_tk1_operation(PytketOptype::Measure, args);
+                encoder.emit_command(measure, &inputs.qubits, &[bit], None);
+                encoder.values.register_wire(future, [bit], circ)?;
+                return Ok(EncodeStatus::Success);
+            }
             QSystemOp::Rz => PytketOptype::Rz,
             QSystemOp::PhasedX => PytketOptype::PhasedX,
             QSystemOp::ZZPhase => PytketOptype::ZZPhase,
-- 
2.43.0


From b894459a1e82ad2518808ff59e69328c01515fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 49/53] fix: keep runtime barriers on arrays out of pytket
 circuits

---
 tket-qsystem/src/pytket/qsystem.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 6200619..29b6180 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -125,6 +125,18 @@ impl QSystemEmitter {
         circ: &Circuit<H>,
         encoder: &mut PytketEncoderContext<H>,
     ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
+        // Array types do not have a pytket counterpart, unless the configuration
+        // defines one.
+        let array_type = circ.hugr().signature(node);
+        let is_supported = array_type.is_some_and(|sig| {
+            sig.input_types()
+                .iter()
+                .all(|ty| encoder.config().type_to_pytket(ty).is_some())
+        });
+        if !is_supported {
+            return Ok(EncodeStatus::Unsupported);
+        }
+
         encoder.emit_node(
             PytketOptype::Barrier,
             node,
-- 
2.43.0


From 3e2f3a056040ceff877a0a27aca0985caaff7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 50/53] fix: report integers narrower than 64 bits

result_int and result_uint of an int<N> with N < 6 gave invalid LLVM code (a
narrow integer passed to print_int), and arrays of narrow integers were passed
to the runtime as if they held 64-bit integers.
---
 tket-qsystem/src/llvm/result.rs | 76 ++++++++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 7 deletions(-)

diff --git a/tket-qsystem/src/llvm/result.rs b/tket-qsystem/src/llvm/result.rs
index c63bb8c..3fec264 100644
--- a/tket-qsystem/src/llvm/result.rs
+++ b/tket-qsystem/src/llvm/result.rs
@@ -1,6 +1,6 @@
 //! LLVM lowering implementations for "tket.results" extension.
 
-use crate::extension::result::{ResultArgs, ResultOp, ResultOpDef};
+use crate::extension::result::{ResultArgs, ResultOp, ResultOpDef, SimpleArgs};
 use crate::llvm::prelude::emit_global_string;
 use anyhow::{anyhow, bail, Result};
 use hugr::llvm::custom::CodegenExtension;
@@ -12,13 +12,15 @@ use hugr::llvm::CodegenExtsBuilder;
 use inkwell::builder::Builder;
 use inkwell::context::Context;
 use inkwell::types::{FloatType, IntType, PointerType, VoidType};
-use inkwell::values::{BasicValueEnum, FunctionValue, IntValue};
+use inkwell::values::{BasicValueEnum, FunctionValue, IntValue, PointerValue};
 use inkwell::AddressSpace;
 use tket::hugr::extension::simple_op::MakeExtensionOp;
 use tket::hugr::ops::ExtensionOp;
 use tket::hugr::{HugrView, Node};
 
-use super::array_utils::{struct_1d_arr_alloc, struct_1d_arr_ptr_t, ArrayLowering, ElemType};
+use super::array_utils::{
+    build_array_alloca, struct_1d_arr_alloc, struct_1d_arr_ptr_t, ArrayLowering, ElemType,
+};
 
 static TAG_PREFIX: &str = "USER:";
 
@@ -159,25 +161,77 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
         Ok((tag_ptr, tag_len))
     }
 
+    /// Extend an integer of the given width to the 64 bits expected by the runtime.
+    fn build_int_extend(
+        &self,
+        val: IntValue<'c>,
+        log_width: u8,
+        signed: bool,
+    ) -> Result<IntValue<'c>> {
+        let width_t = self.iw_context().custom_width_int_type(1 << log_width);
+        let val = if val.get_type().get_bit_width() > width_t.get_bit_width() {
+            self.builder().build_int_truncate(val, width_t, "")?
+        } else {
+            val
+        };
+        Ok(if val.get_type() == self.int_t() {
+            val
+        } else if signed {
+            self.builder().build_int_s_extend(val, self.int_t(), "")?
+        } else {
+            self.builder().build_int_z_extend(val, self.int_t(), "")?
+        })
+    }
+
+    /// Copy an array of narrow integers to an array of the 64-bit integers expected by the runtime.
+    fn build_int_array_extend(
+        &self,
+        array: PointerValue<'c>,
+        length: u32,
+        log_width: u8,
+        signed: bool,
+    ) -> Result<PointerValue<'c>> {
+        let mut extended = self.int_t().array_type(length).get_undef();
+        for i in 0..length {
+            let index = self.int_t().const_int(i.into(), false);
+            let elem_ptr = unsafe { self.builder().build_in_bounds_gep(array, &[index], "")? };
+            let elem = self.builder().build_load(elem_ptr, "")?.into_int_value();
+            let elem = self.build_int_extend(elem, log_width, signed)?;
+            extended = self
+                .builder()
+                .build_insert_value(extended, elem, i, "")?
+                .into_array_value();
+        }
+        let (elem_ptr, _) = build_array_alloca(self.builder(), extended)?;
+        Ok(elem_ptr)
+    }
+
     fn build_print_array_call(
         &self,
-        val: BasicValueEnum,
+        val: BasicValueEnum<'c>,
         op: &ResultOp,
         data_type: &ElemType,
         tag_ptr: BasicValueEnum,
         tag_len: IntValue,
     ) -> Result<()> {
         // TODO update to return array after https://github.com/CQCL/tket2/issues/922
-        let ResultArgs::Array(_, length) = op.args else {
+        let ResultArgs::Array(elem_args, length) = &op.args else {
             bail!("Expected array argument")
         };
 
         let print_fn = self.get_func_print(op)?;
-        let array = self.1.array_to_ptr(self.builder(), val)?;
+        let length: u32 = (*length).try_into()?;
+        let mut array = self.1.array_to_ptr(self.builder(), val)?;
+        if let SimpleArgs::Int(log_width) = elem_args {
+            if 1 << log_width < self.int_t().get_bit_width() {
+                let signed = matches!(data_type, ElemType::Int);
+                array = self.build_int_array_extend(array, length, *log_width, signed)?;
+            }
+        }
         let (array_ptr, _) = struct_1d_arr_alloc(
             self.iw_context(),
             self.builder(),
-            length.try_into()?,
+            length,
             data_type,
             array,
         )?;
@@ -217,6 +271,10 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                     .inputs
                     .try_into()
                     .map_err(|_| anyhow!("result_int expects one input"))?;
+                let ResultArgs::Simple(SimpleArgs::Int(log_width)) = &op.args else {
+                    bail!("Expected integer argument")
+                };
+                let val = self.build_int_extend(val.into_int_value(), *log_width, true)?;
                 self.builder().build_call(
                     print_fn,
                     &[tag_ptr.into(), tag_len.into(), val.into()],
@@ -229,6 +287,10 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                     .inputs
                     .try_into()
                     .map_err(|_| anyhow!("result_uint expects one input"))?;
+                let ResultArgs::Simple(SimpleArgs::Int(log_width)) = &op.args else {
+                    bail!("Expected integer argument")
+                };
+                let val = self.build_int_extend(val.into_int_value(), *log_width, false)?;
                 self.builder().build_call(
                     print_fn,
                     &[tag_ptr.into(), tag_len.into(), val.into()],
-- 
2.43.0


From 51c054f44cc1e9d0d8e6b95f0302e53e1f61c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:02 +0000
Subject: [PATCH 51/53] fix: tell circuits apart that share a value none of
 their outputs depend on

A copyable value used by two operations that the outputs do not depend on, and two such
values used by one each, gave circuits with the same hash, which compared equal.
---
 tket/src/circuit/hash.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 9da6c62..4410040 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -18,7 +18,7 @@ pub trait CircuitHash {
     ///
     /// We compute a hash for each node from its operation and the hash of
     /// the predecessors. The hash of the circuit combines the hash of its
-    /// output node with those of the operations whose results are not used.
+    /// output node with those of the operations that it does not depend on.
     ///
     /// This hash is independent from the operation traversal order.
     ///
@@ -56,18 +56,36 @@ fn hash_region(
     };
 
     number_nodes(circ, output_node, state);
-    let mut unused_hash = 0u64;
 
     let (region, node_map) = circ.region_portgraph(parent);
+    let mut nodes = Vec::new();
     for pg_node in pg::Topo::new(&region).iter(&region) {
         let node = node_map.from_portgraph(pg_node);
         let hash = hash_node(circ, node, state)?;
         if state.set_hash(node, hash).is_some() {
             panic!("Hash already set for node {node}");
         }
-        if node != output_node && circ.output_neighbours(node).next().is_none() {
-            unused_hash = unused_hash.wrapping_add(hash);
+        nodes.push(node);
+    }
+
+    // The operations that the output does not depend on have no number. They are told
+    // apart by the operations that use their results, as well as by their predecessors.
+    let mut use_hashes: FxHashMap<Node, u64> = FxHashMap::default();
+    let mut unused_hash = 0u64;
+    for node in nodes.into_iter().rev() {
+        if state.numbers.contains_key(&node) {
+            continue;
         }
+        let uses = circ
+            .node_outputs(node)
+            .flat_map(|port| circ.linked_inputs(node, port).map(move |link| (port, link)))
+            .map(|(port, (user, user_port))| {
+                fxhash::hash64(&(port, user_port, use_hashes.get(&user)))
+            })
+            .fold(0u64, u64::wrapping_add);
+        let hash = fxhash::hash64(&(state.node_hash(node), uses));
+        use_hashes.insert(node, hash);
+        unused_hash = unused_hash.wrapping_add(hash);
     }
 
     // If the output node has no hash, the topological sort failed due to a cycle.
-- 
2.43.0


From 89fe61a4f11a8e775c620962c63d95a4d2d964d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:01 +0000
Subject: [PATCH 52/53] fix: lowering a circuit for pytket fails or mixes up
 values when a packed tuple is also used elsewhere, and misses nested tuples

---
 tket/src/passes/pytket.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tket/src/passes/pytket.rs b/tket/src/passes/pytket.rs
index e77726a..90c259a 100644
--- a/tket/src/passes/pytket.rs
+++ b/tket/src/passes/pytket.rs
@@ -4,10 +4,10 @@
 //! This is a best-effort attempt, and may not always succeed.
 
 use derive_more::{Display, Error, From};
-use hugr::algorithms::untuple::{UntupleError, UntupleRecursive};
-use hugr::algorithms::{ComposablePass, UntuplePass};
+use hugr::algorithms::untuple::UntupleError;
 use hugr::{HugrView, Node};
 
+use super::tuple_unpack::remove_tuple_unpacks;
 use crate::serialize::pytket::PytketEncodeOpError;
 use crate::Circuit;
 
@@ -21,7 +21,7 @@ pub fn lower_to_pytket<T: HugrView<Node = Node>>(
 
     // Remove sequences of tuple pack-unpack operations,
     // typically generated by guppy.
-    UntuplePass::new(UntupleRecursive::NonRecursive).run(circ.hugr_mut())?;
+    remove_tuple_unpacks(circ.hugr_mut());
 
     Ok(circ)
 }
-- 
2.43.0


From 86f916347077c6bc05e39e0832a5debc11e54899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:21 +0000
Subject: [PATCH 53/53] fix: adjoint of regions and calls whose classical
 values stand before or between qubits

---
 tket/src/modifier/modifier_resolver.rs        | 123 ++++++------------
 .../modifier/modifier_resolver/call_modify.rs |   2 +-
 .../modifier/modifier_resolver/dfg_modify.rs  |   2 +-
 3 files changed, 40 insertions(+), 87 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index cd7e367..36ae3d6 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -802,19 +802,8 @@ impl<N: HugrNode> ModifierResolver<N> {
     ///     So the `input_offset` is 1.
     /// * `new_offset`: the offset of the ports of the new node, especially the number of control qubits.
     ///
-    /// The order of the resulting ports is determined as follows:
-    /// - Every ports are devided into quantum ports and non-quantum ports.
-    /// - Until the first quantum port is reached, the non-quantum ports are wired in order.
-    /// - When a quantum port is reached for both inputs and outputs,
-    ///   if the dagger is applied, the quantum input is wired to the output,
-    ///   and the quantum output is wired to the input until they reaches the next non-quantum port.
-    /// - This is repeated until all ports are wired.
-    ///
-    /// For example, if the input types are `[qubit, int, qubit, qubit, int]` and
-    /// the output types are `[qubit, array[qubit, _]]`,
-    /// and the dagger is applied, the wiring is as follows:
-    /// - input: [out0:qubit, in1:int, out1:array[qubit, _], in4:int]
-    /// - output: [in0:qubit, in2:qubit, in3:qubit]
+    /// Non-quantum ports keep their place. If the dagger is applied, the n-th quantum input is wired
+    /// to the n-th quantum output and vice versa, wherever they stand among the other ports.
     ///
     /// FIXME: This reverses everything that can contain qubits, which might not be intended in general.
     /// TODO: Handle state order edges.
@@ -840,82 +829,46 @@ impl<N: HugrNode> ModifierResolver<N> {
         &mut self,
         (old_in, old_out): (N, N),
         (new_in, new_out): (Node, Node),
-        (mut inputs, mut outputs): (
+        (inputs, outputs): (
             impl Iterator<Item = &'a Type>,
             impl Iterator<Item = &'a Type>,
         ),
         (input_offset, output_offset, new_offset): (usize, usize, usize),
     ) -> Result<(), ModifierResolverErrors<N>> {
-        let mut old_in_wire = (old_in, IncomingPort::from(input_offset)).into();
-        let mut old_out_wire = (old_out, OutgoingPort::from(output_offset)).into();
-        let mut new_in_wire = (new_in, IncomingPort::from(input_offset + new_offset)).into();
-        let mut new_out_wire = (new_out, OutgoingPort::from(output_offset + new_offset)).into();
-        let mut in_ty = inputs.next();
-        let mut out_ty = outputs.next();
-
-        loop {
-            // Wire inputs until the first quantum type
-            while let Some(ty) = in_ty {
-                if self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                self.map_insert(old_in_wire, new_in_wire)?;
-                old_in_wire = old_in_wire.shift(1);
-                new_in_wire = new_in_wire.shift(1);
-                in_ty = inputs.next();
-            }
-
-            // Wire outputs until the first quantum type
-            while let Some(ty) = out_ty {
-                if self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                self.map_insert(old_out_wire, new_out_wire)?;
-                old_out_wire = old_out_wire.shift(1);
-                new_out_wire = new_out_wire.shift(1);
-                out_ty = outputs.next();
-            }
-
-            // If both are quantum types, wire them in the opposite direction until the next non-quantum type
-            while let Some(ty) = in_ty {
-                if !self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                let new_in = if !self.modifiers.dagger {
-                    let new_in = new_in_wire;
-                    new_in_wire = new_in_wire.shift(1);
-                    new_in
-                } else {
-                    let new_in = new_out_wire;
-                    new_out_wire = new_out_wire.shift(1);
-                    new_in
-                };
-                self.map_insert(old_in_wire, new_in)?;
-                old_in_wire = old_in_wire.shift(1);
-                in_ty = inputs.next();
-            }
-            while let Some(ty) = out_ty {
-                if !self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                let new_out = if !self.modifiers.dagger {
-                    let new_out = new_out_wire;
-                    new_out_wire = new_out_wire.shift(1);
-                    new_out
-                } else {
-                    let new_out = new_in_wire;
-                    new_in_wire = new_in_wire.shift(1);
-                    new_out
-                };
-                self.map_insert(old_out_wire, new_out)?;
-                old_out_wire = old_out_wire.shift(1);
-                out_ty = outputs.next();
-            }
-
-            // Break if ended
-            if in_ty.is_none() && out_ty.is_none() {
-                break;
-            }
+        let is_quantum = |ty| self.qubit_finder.contains_element_type(ty);
+        let inputs = inputs.map(is_quantum).collect_vec();
+        let outputs = outputs.map(is_quantum).collect_vec();
+        let quantum_inputs = inputs.iter().positions(|q| *q).collect_vec();
+        let quantum_outputs = outputs.iter().positions(|q| *q).collect_vec();
+        let dagger = self.modifiers.dagger;
+        if dagger && quantum_inputs.len() != quantum_outputs.len() {
+            return Err(ModifierResolverErrors::unreachable(format!(
+                "Cannot invert {old_in} with {} quantum inputs and {} quantum outputs.",
+                quantum_inputs.len(),
+                quantum_outputs.len()
+            )));
+        }
+        let new_input =
+            |i| DirWire::from((new_in, IncomingPort::from(i + input_offset + new_offset)));
+        let new_output =
+            |i| DirWire::from((new_out, OutgoingPort::from(i + output_offset + new_offset)));
+
+        // Since the types are kept, the n-th quantum input is swapped with the n-th quantum output.
+        let mut swapped_outputs = quantum_outputs.iter();
+        for (i, quantum) in inputs.into_iter().enumerate() {
+            let new = match dagger && quantum {
+                true => new_output(*swapped_outputs.next().unwrap()),
+                false => new_input(i),
+            };
+            self.map_insert((old_in, IncomingPort::from(i + input_offset)).into(), new)?;
+        }
+        let mut swapped_inputs = quantum_inputs.iter();
+        for (i, quantum) in outputs.into_iter().enumerate() {
+            let new = match dagger && quantum {
+                true => new_input(*swapped_inputs.next().unwrap()),
+                false => new_output(i),
+            };
+            self.map_insert((old_out, OutgoingPort::from(i + output_offset)).into(), new)?;
         }
 
         Ok(())
@@ -1051,7 +1004,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new,
-            (signature.input.iter(), signature.output.iter()),
+            (cfg.signature.input.iter(), cfg.signature.output.iter()),
             (0, 0, offset),
         )?;
         // self.wire_others(n, cfg.into(), new, new_dfg.hugr().get_optype(new))?;
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index c8c302f..d2ad284 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -43,7 +43,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let type_args = call.type_args.clone();
         self.modify_signature(poly_sig.body_mut(), false);
         let new_call = Call::try_new(poly_sig, type_args).map_err(BuildError::from)?;
-        let signature = (*new_call.signature()).clone();
+        let signature = call.signature();
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 35908d4..311aa47 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -462,7 +462,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new_dfg,
-            (signature.input.iter(), signature.output.iter()),
+            (dfg.signature.input.iter(), dfg.signature.output.iter()),
             (0, 0, offset),
         )?;
 
-- 
2.43.0

