From 6c9e2f60944e6bb0f9cbea2780ec2cb0b1ca3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 01/25] fix: prev_power_of_two overflowed for arguments of 2^63
 and above

---
 expander_compiler/src/utils/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/utils/misc.rs b/expander_compiler/src/utils/misc.rs
index 58cb103..4b04517 100644
--- a/expander_compiler/src/utils/misc.rs
+++ b/expander_compiler/src/utils/misc.rs
@@ -5,7 +5,7 @@ pub fn prev_power_of_two(x: usize) -> usize {
         return 0;
     }
     let mut padk: usize = 0;
-    while (1 << padk) <= x {
+    while padk < usize::BITS as usize && (1 << padk) <= x {
         padk += 1;
     }
     1 << (padk - 1)
-- 
2.43.0


From 662264134500204424334bfa077ca65a6e2b0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 02/25] fix: bit order of transposed shapes with merged or unit
 dimensions

---
 expander_compiler/src/zkcuda/shape.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 46ffd1c..a3e6ddc 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -46,6 +46,24 @@ impl Entry {
             }
             Some(axes) => axes,
         };
+        if self.shape.contains(&1) {
+            // Dimensions of length 1 don't move any element, so they can be dropped
+            let mut new_id = vec![0; self.shape.len()];
+            let mut shape = Vec::with_capacity(self.shape.len());
+            for (i, &s) in self.shape.iter().enumerate() {
+                new_id[i] = shape.len();
+                if s != 1 {
+                    shape.push(s);
+                }
+            }
+            let keep_first_dim = keep_first_dim && self.shape[axes[0]] != 1;
+            let axes = axes.iter().filter(|&&a| self.shape[a] != 1);
+            return Entry {
+                shape,
+                axes: Some(axes.map(|&a| new_id[a]).collect()),
+            }
+            .minimize(keep_first_dim);
+        }
         let mut merge_shape = vec![false; self.shape.len()];
         for (i, (&a, &b)) in axes.iter().zip(axes.iter().skip(1)).enumerate() {
             if a + 1 == b && (!keep_first_dim || i > 0) {
@@ -88,6 +106,9 @@ impl Entry {
         let mut target = 1;
         let mut self_shape_iter = self.shape.iter();
         for &x in shape.iter() {
+            if x.0 == 1 {
+                continue;
+            }
             if cur_prod == target {
                 cur_prod = x.0;
                 target = *self_shape_iter.next().unwrap();
@@ -327,6 +348,8 @@ impl ShapeHistory {
                 .collect::<Vec<_>>()
         };
         for e in self.entries.iter() {
+            // The shape is only guaranteed to be split where the minimized entry needs it
+            let e = e.minimize(false);
             cur = if e.axes.as_ref().is_none() {
                 cur
             } else if cur.is_none() {
-- 
2.43.0


From 786955fcdd8920ee00e31969b7eda15a074b0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 03/25] hook (cfg vp_hooks): layout merging visible to the
 verification harness

---
 expander_compiler/src/layering/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expander_compiler/src/layering/mod.rs b/expander_compiler/src/layering/mod.rs
index cdf9aef..a1407fe 100644
--- a/expander_compiler/src/layering/mod.rs
+++ b/expander_compiler/src/layering/mod.rs
@@ -19,6 +19,11 @@ mod wire;
 #[cfg(test)]
 mod tests;
 
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use super::layer_layout::{merge_layouts, subs_map};
+}
+
 pub struct CompileOptions {
     pub allow_input_reorder: bool,
 }
-- 
2.43.0


From 735c2748ff414aea6a7248ea4e66c78355eca3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 04/25] fix: layered validation panicked on a gate reading a
 layer its segment has no input for

The gate checks compared the input layer with the number of layers of the
circuit and then asked for the width of that input of the segment, which
panics when the segment reads fewer layers than the circuit has.
---
 expander_compiler/src/circuit/layered/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 97aa798..42640bd 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -395,13 +395,13 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 )));
             }
             for m in seg.gate_muls.iter() {
-                if m.inputs[0].layer() >= self.layer_ids.len() {
+                if m.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 0 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
                     )));
                 }
-                if m.inputs[1].layer() >= self.layer_ids.len() {
+                if m.inputs[1].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 1 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
@@ -427,7 +427,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for a in seg.gate_adds.iter() {
-                if a.inputs[0].layer() >= self.layer_ids.len() {
+                if a.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) input layer out of range",
                         i, a.inputs[0], a.output
@@ -456,7 +456,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
             }
             for cu in seg.gate_customs.iter() {
                 for input in cu.inputs.iter() {
-                    if input.layer() >= self.layer_ids.len() {
+                    if input.layer() >= seg.num_inputs.len() {
                         return Err(Error::InternalError(format!(
                             "segment {} custom gate {} input layer out of range",
                             i, cu.output
-- 
2.43.0


From 3349950ef86f8f7e3d5b8c2a088ad8156a480d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 05/25] fix: layered validation accepted child placements whose
 offset overflows

offset + width was computed in usize, so an offset close to 2^64 wrapped
around the range check (or panicked with overflow checks on) and the masks
were then indexed out of bounds.
---
 expander_compiler/src/circuit/layered/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 42640bd..028aa19 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -513,7 +513,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                                 "segment {i} subcircuit {sub_id} input offset {x} not aligned to {y}"
                             )));
                         }
-                        if x + y > z {
+                        if y > z || x > z - y {
                             return Err(Error::InternalError(format!(
                                 "segment {i} subcircuit {sub_id} input offset {x} out of range"
                             )));
@@ -525,7 +525,9 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                             i, sub_id, a.output_offset, subc.num_outputs
                         )));
                     }
-                    if a.output_offset + subc.num_outputs > seg.num_outputs {
+                    if subc.num_outputs > seg.num_outputs
+                        || a.output_offset > seg.num_outputs - subc.num_outputs
+                    {
                         return Err(Error::InternalError(format!(
                             "segment {} subcircuit {} output offset {} out of range",
                             i, sub_id, a.output_offset
-- 
2.43.0


From 9e4dfe8a370d1687b0741890f54d58086ca8b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 06/25] fix: reject custom gates of several inputs when
 exporting

---
 expander_compiler/src/circuit/layered/export.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expander_compiler/src/circuit/layered/export.rs b/expander_compiler/src/circuit/layered/export.rs
index 558d5ab..d3fcc4d 100644
--- a/expander_compiler/src/circuit/layered/export.rs
+++ b/expander_compiler/src/circuit/layered/export.rs
@@ -33,6 +33,8 @@ impl<C: Config> Circuit<C, NormalInputType> {
                     .gate_customs
                     .iter()
                     .map(|gate| {
+                        // the format only has one-input custom gates
+                        assert_eq!(gate.inputs.len(), 1);
                         let (c, r) = gate.coef.export_to_expander();
                         expander_circuit::GateUni {
                             i_ids: [gate.inputs[0].offset()],
-- 
2.43.0


From f4d2a4af7d5da51c5addc2c2d7ca333191c1f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 07/25] fix: report a circuit with too many variables as an
 error

---
 expander_compiler/src/circuit/ir/common/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/common/mod.rs b/expander_compiler/src/circuit/ir/common/mod.rs
index 18b7f27..05ba297 100644
--- a/expander_compiler/src/circuit/ir/common/mod.rs
+++ b/expander_compiler/src/circuit/ir/common/mod.rs
@@ -115,7 +115,9 @@ impl<Irc: IrConfig> Circuit<Irc> {
                 }
             }
             insn.validate(num_public_inputs)?;
-            cur_var_max += insn.num_outputs();
+            cur_var_max = cur_var_max
+                .checked_add(insn.num_outputs())
+                .ok_or_else(|| Error::InternalError("too many variables".to_string()))?;
             if !Irc::ALLOW_DUPLICATE_SUB_CIRCUIT_INPUTS {
                 if let Some((_, inputs, _)) = insn.as_sub_circuit_call() {
                     let mut set = HashSet::new();
-- 
2.43.0


From 53bd2ff8e20cc792d85328b20eafe87ca2eb6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 08/25] fix: report a value too large for the ToBinary hint as
 an error

---
 expander_compiler/src/hints/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expander_compiler/src/hints/mod.rs b/expander_compiler/src/hints/mod.rs
index 5b56752..57fa19d 100644
--- a/expander_compiler/src/hints/mod.rs
+++ b/expander_compiler/src/hints/mod.rs
@@ -14,6 +14,7 @@ pub fn safe_impl<F: Field>(
     num_outputs: usize,
 ) -> Result<Vec<F>, Error> {
     match BuiltinHintIds::from_usize(hint_id) {
+        Some(BuiltinHintIds::ToBinary) => to_binary(inputs[0], num_outputs),
         Some(hint_id) => Ok(impl_builtin_hint(hint_id, inputs, num_outputs)),
         None => hint_caller.call(hint_id, inputs, num_outputs),
     }
-- 
2.43.0


From 099b980c491df90b0f7a0de6dd0d334490efcdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 09/25] fix: report a custom gate in batched witness solving as
 an error

---
 expander_compiler/src/circuit/ir/hint_normalized/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
index 012a3dd..a9ae41a 100644
--- a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
+++ b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
@@ -624,7 +624,9 @@ impl<C: Config> RootCircuit<C> {
                     )?;
                 }
                 Instruction::CustomGate { .. } => {
-                    panic!("CustomGate currently unsupported");
+                    return Err(Error::UserError(
+                        "CustomGate currently unsupported".to_string(),
+                    ));
                 }
             }
         }
-- 
2.43.0


From eb49e8fe14e96b3d06dada6ed9bb8b8ff66b9e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 10/25] fix: report a call of an unregistered hint as an error

---
 expander_compiler/src/hints/registry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/hints/registry.rs b/expander_compiler/src/hints/registry.rs
index d3259be..1809383 100644
--- a/expander_compiler/src/hints/registry.rs
+++ b/expander_compiler/src/hints/registry.rs
@@ -42,7 +42,7 @@ impl<F: Field> HintRegistry<F> {
             let mut outputs = vec![F::zero(); num_outputs];
             hint(args, &mut outputs).map(|_| outputs)
         } else {
-            panic!("Hint with id {id} not found");
+            Err(Error::UserError(format!("Hint with id {id} not found")))
         }
     }
 }
-- 
2.43.0


From 62b5ecd2644c02c91846a58c275100ff44953655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 11/25] fix: packing a witness without values divided by zero

---
 expander_compiler/src/circuit/layered/witness.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/layered/witness.rs b/expander_compiler/src/circuit/layered/witness.rs
index c8313af..6ff38e4 100644
--- a/expander_compiler/src/circuit/layered/witness.rs
+++ b/expander_compiler/src/circuit/layered/witness.rs
@@ -54,7 +54,8 @@ fn pack_block<F: Field, SF: arith::SimdField<Scalar = F>>(
     let pack_size = SF::PACK_SIZE;
     let mut res = Vec::with_capacity(a);
     let mut res2 = Vec::with_capacity(b);
-    let s_size = (s.len() / (a + b)).min(pack_size);
+    // a witness may hold no values at all
+    let s_size = (s.len() / (a + b).max(1)).min(pack_size);
     for i in 0..a {
         let mut tmp = Vec::with_capacity(pack_size);
         for j in 0..s_size {
-- 
2.43.0


From aa71bbdd1d8df2b629860d594ad53e159f18035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 12/25] fix: a witness file whose sizes overflow is an error

---
 .../src/circuit/layered/witness.rs             | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/witness.rs b/expander_compiler/src/circuit/layered/witness.rs
index 6ff38e4..a9d1125 100644
--- a/expander_compiler/src/circuit/layered/witness.rs
+++ b/expander_compiler/src/circuit/layered/witness.rs
@@ -306,10 +306,20 @@ impl<C: Config> ExpSerde for Witness<C> {
                 "invalid modulus",
             ))?;
         }
-        let mut values = Vec::with_capacity(
-            num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness),
-        );
-        for _ in 0..num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness) {
+        let num_values = match num_inputs_per_witness
+            .checked_add(num_public_inputs_per_witness)
+            .and_then(|n| n.checked_mul(num_witnesses))
+        {
+            Some(n) => n,
+            None => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "invalid witness size",
+                ))?
+            }
+        };
+        let mut values = Vec::new();
+        for _ in 0..num_values {
             values.push(CircuitField::<C>::deserialize_from(&mut reader)?);
         }
         let mut res = Self {
-- 
2.43.0


From 85a9cf891aa36a987078d22d3f0461474d0ee3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:57 +0000
Subject: [PATCH 13/25] fix: factoring out common gates keeps repeated gates of
 a segment

remove_gates dropped every copy of a shared gate while the common segment
puts back only one, so a segment holding the same gate twice (two equal
public-input gates, or two constant gates before deduplication) lost value.
---
 expander_compiler/src/circuit/layered/opt.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/opt.rs b/expander_compiler/src/circuit/layered/opt.rs
index 21c50c1..d05b00b 100644
--- a/expander_compiler/src/circuit/layered/opt.rs
+++ b/expander_compiler/src/circuit/layered/opt.rs
@@ -299,31 +299,33 @@ impl<C: Config, I: InputType> Segment<C, I> {
             + self.gate_customs.len()
     }
 
+    // removes one copy of each of the gates
     fn remove_gates(&mut self, gates: &HashSet<UniGate<C, I>>) {
+        let mut gates = gates.clone();
         let mut new_gates = Vec::new();
         for gate in self.gate_muls.iter() {
-            if !gates.contains(&UniGate::Mul(gate.clone())) {
+            if !gates.remove(&UniGate::Mul(gate.clone())) {
                 new_gates.push(gate.clone());
             }
         }
         self.gate_muls = new_gates;
         let mut new_gates = Vec::new();
         for gate in self.gate_adds.iter() {
-            if !gates.contains(&UniGate::Add(gate.clone())) {
+            if !gates.remove(&UniGate::Add(gate.clone())) {
                 new_gates.push(gate.clone());
             }
         }
         self.gate_adds = new_gates;
         let mut new_gates = Vec::new();
         for gate in self.gate_consts.iter() {
-            if !gates.contains(&UniGate::Const(gate.clone())) {
+            if !gates.remove(&UniGate::Const(gate.clone())) {
                 new_gates.push(gate.clone());
             }
         }
         self.gate_consts = new_gates;
         let mut new_gates = Vec::new();
         for gate in self.gate_customs.iter() {
-            if !gates.contains(&UniGate::Custom(gate.clone())) {
+            if !gates.remove(&UniGate::Custom(gate.clone())) {
                 new_gates.push(gate.clone());
             }
         }
-- 
2.43.0


From 87dd8665b6348966df3a97df7ed9bc407ee9ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 14/25] fix: no combined constraint is expected where the
 circuit has no constraints

split_to_single_layer announced one leading zero output whenever random
combination is enabled, also for circuits without any constraint, so that the
first real output was taken for it and had to be zero.
---
 expander_compiler/src/layering/ir_split.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/layering/ir_split.rs b/expander_compiler/src/layering/ir_split.rs
index 240f6d8..f4f89ad 100644
--- a/expander_compiler/src/layering/ir_split.rs
+++ b/expander_compiler/src/layering/ir_split.rs
@@ -479,6 +479,8 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     ctx.compute_output_layers(0, vec![0; root.circuits[&0].num_inputs]);
     ctx.split_circuit(0, vec![0; root.circuits[&0].num_inputs], &[0]);
     let new_circuit0 = ctx.new_circuit0.take().unwrap();
+    // the combined constraint, if there is any constraint
+    let num_add_outputs = new_circuit0.outputs.len() - root.circuits[&0].outputs.len();
     let mut new_circuits = HashMap::new();
     new_circuits.insert(0, new_circuit0);
     for (id, cir) in ctx.new_circuits.vec().iter().enumerate().skip(1) {
@@ -487,8 +489,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     IrRootCircuit {
         circuits: new_circuits,
         num_public_inputs: root.num_public_inputs,
-        expected_num_output_zeroes: root.expected_num_output_zeroes
-            + C::ENABLE_RANDOM_COMBINATION as usize,
+        expected_num_output_zeroes: root.expected_num_output_zeroes + num_add_outputs,
     }
 }
 
-- 
2.43.0


From 7708fbf2edc7eda9a4e1c3a3a59b3fec287b8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 15/25] fix: a sub-circuit given the same random value twice
 gets one value

solve_duplicates resolved a repeated argument by cloning the instruction that
makes it; the clone of a random instruction draws another value. Such a
variable is relayed instead.
---
 expander_compiler/src/circuit/ir/dest/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/dest/mod.rs b/expander_compiler/src/circuit/ir/dest/mod.rs
index c7f93f7..a97b09d 100644
--- a/expander_compiler/src/circuit/ir/dest/mod.rs
+++ b/expander_compiler/src/circuit/ir/dest/mod.rs
@@ -157,6 +157,19 @@ impl<C: Config> common::Instruction<C> for Instruction<C> {
     }
 }
 
+impl<C: Config> Instruction<C> {
+    // whether evaluating the instruction again may give another value
+    fn is_random(&self) -> bool {
+        match self {
+            Instruction::ConstantLike { value } => matches!(value, Coef::Random),
+            Instruction::InternalVariable { expr } => expr
+                .iter()
+                .any(|term| matches!(term.vars, VarSpec::RandomLinear(_))),
+            Instruction::SubCircuitCall { .. } => false,
+        }
+    }
+}
+
 pub type Circuit<C> = common::Circuit<Irc<C>>;
 pub type RootCircuit<C> = common::RootCircuit<Irc<C>>;
 pub type CircuitRelaxed<C> = common::Circuit<IrcRelaxed<C>>;
@@ -195,8 +208,11 @@ impl<C: Config> CircuitRelaxed<C> {
                             new_inputs.push(i);
                         } else {
                             let copy_insn = match &insn_of_var[i] {
-                                Some(insn_id) => new_instructions[*insn_id].clone(),
-                                None => Instruction::InternalVariable {
+                                Some(insn_id) if !new_instructions[*insn_id].is_random() => {
+                                    new_instructions[*insn_id].clone()
+                                }
+                                // a copy of a random instruction would draw another value
+                                _ => Instruction::InternalVariable {
                                     expr: Expression::new_linear(CircuitField::<C>::one(), i),
                                 },
                             };
-- 
2.43.0


From 76022516f904c9b5d883d639e6df32a8aab9b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 16/25] fix: limiting multiplication fan-out does not copy
 random values

The copies of a ConstantLike(Random) made for further uses were independent
random values. Relays are used instead.
---
 .../src/circuit/ir/dest/mul_fanout_limit.rs         | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
index fce6b72..f7f0a2a 100644
--- a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
+++ b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
@@ -5,6 +5,7 @@ use super::*;
 // 1. Copy the whole expression to a new variable. This will copy all gates, and may increase the number of gates by a lot.
 // 2. Create a relay expression of the variable. This may increase the layer of the circuit by 1.
 
+// A random value must not be copied by the first method: the copy would be another value.
 // These are the limits for the first method.
 const MAX_COPIES_OF_VARIABLES: usize = 4;
 const MAX_COPIES_OF_GATES: usize = 64;
@@ -58,7 +59,11 @@ impl<C: Config> CircuitRelaxed<C> {
             match insn {
                 Instruction::ConstantLike { .. } => {
                     mul_ref_cnt.push(0);
-                    max_copy_cnt.push(compute_max_copy_cnt(1));
+                    max_copy_cnt.push(if insn.is_random() {
+                        0
+                    } else {
+                        compute_max_copy_cnt(1)
+                    });
                     internal_var_insn_id.push(None);
                 }
                 Instruction::SubCircuitCall { num_outputs, .. } => {
@@ -76,7 +81,11 @@ impl<C: Config> CircuitRelaxed<C> {
                         }
                     }
                     mul_ref_cnt.push(0);
-                    max_copy_cnt.push(compute_max_copy_cnt(expr.len()));
+                    max_copy_cnt.push(if insn.is_random() {
+                        0
+                    } else {
+                        compute_max_copy_cnt(expr.len())
+                    });
                     internal_var_insn_id.push(Some(i))
                 }
             }
-- 
2.43.0


From 5eed4399577f9a5239a35c2e5dd9c1ef7e1a093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 17/25] fix: sub-circuits made with #[memorized] are told apart
 by function

---
 expander_compiler/macros/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index ba48d23..2b266c1 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -251,6 +251,20 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            {
+                // which function this is, generic arguments included
+                let marker = || ();
+                let fn_id = format!(
+                    "{}:{}:{}:{}",
+                    std::any::type_name_of_val(&marker),
+                    file!(),
+                    line!(),
+                    column!()
+                );
+                hasher.update(fn_id.len().to_string().as_bytes());
+                hasher.update(b",");
+                hasher.update(fn_id.as_bytes());
+            }
 
             #(#hash_primitive_calls)*
 
-- 
2.43.0


From 6197955f649081a9139d24dcb5381be2ffbcdf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:54 +0000
Subject: [PATCH 18/25] fix: memorized_simple_call does not share function
 pointers and capturing closures by type

---
 expander_compiler/src/frontend/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expander_compiler/src/frontend/builder.rs b/expander_compiler/src/frontend/builder.rs
index 54659cc..2758a51 100644
--- a/expander_compiler/src/frontend/builder.rs
+++ b/expander_compiler/src/frontend/builder.rs
@@ -719,6 +719,10 @@ impl<C: Config> RootAPI<C> for RootBuilder<C> {
         hasher.update(b"simple");
         hasher.update(&inputs.len().to_le_bytes());
         hasher.update(&get_function_id::<F>().to_le_bytes());
+        if std::mem::size_of::<F>() != 0 {
+            // The type does not tell what a function pointer or a closure with captured values does.
+            hasher.update(&self.full_hash_id.len().to_le_bytes());
+        }
         let mut hash = [0u8; 32];
         hasher.finalize(&mut hash);
 
-- 
2.43.0


From 94f6440a3619ac972be2a003d896727c728756cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:33 +0000
Subject: [PATCH 19/25] fix: the debug builder can call a memorized function
 twice

---
 expander_compiler/src/frontend/debug.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index 79bafb5..6a536b6 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -478,13 +478,9 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> RootAPI<C> for DebugBuilder<C, H
     }
 
     fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>) {
-        if self
-            .sub_circuit_output_structure
-            .insert(circuit_id, structure)
-            .is_some()
-        {
-            panic!("subcircuit output structure already registered");
-        }
+        // every call runs the function again
+        self.sub_circuit_output_structure
+            .insert(circuit_id, structure);
     }
 
     fn get_sub_circuit_output_structure(&self, circuit_id: usize) -> Vec<usize> {
-- 
2.43.0


From ebcee2b5e3c45c70598fc17414371bf93c13efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 20/25] fix: an array of no elements has no variables

---
 expander_compiler/src/frontend/variables.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/frontend/variables.rs b/expander_compiler/src/frontend/variables.rs
index b74d87c..3c70117 100644
--- a/expander_compiler/src/frontend/variables.rs
+++ b/expander_compiler/src/frontend/variables.rs
@@ -54,6 +54,6 @@ where
         }
     }
     fn num_vars(&self) -> usize {
-        N * self[0].num_vars()
+        self.iter().map(|x| x.num_vars()).sum()
     }
 }
-- 
2.43.0


From 8c706cee0cd541de2f65d4026ab04c1e97721383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 21/25] fix: a kernel at an address used before was taken for
 the kernel that had been there

---
 expander_compiler/src/zkcuda/context.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2040731..787527d 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -396,12 +396,15 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         // because it recursively hashes nested generic structs.
         // Fast kernel registration: pointer-identity cache + skip clone on second call.
         let ptr = kernel as *const _ as usize;
-        let kernel_id = if let Some(&cached_id) = self.kernel_ptr_cache.get(&ptr) {
-            cached_id
-        } else {
-            let id = self.kernel_primitives.add(kernel);
-            self.kernel_ptr_cache.insert(ptr, id);
-            id
+        let cached_id = self.kernel_ptr_cache.get(&ptr).copied();
+        let kernel_id = match cached_id {
+            // Another kernel may be at this address by now, so a hit only counts if the kernels are equal.
+            Some(id) if self.kernel_primitives.get(id) == kernel => id,
+            _ => {
+                let id = self.kernel_primitives.add(kernel);
+                self.kernel_ptr_cache.insert(ptr, id);
+                id
+            }
         };
 
         let has_outputs = kernel.io_specs().iter().any(|s| s.is_output);
-- 
2.43.0


From 55810d0a5d23451096a98d0c66425c75c5e3b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 22/25] fix: an output-only kernel argument that held a handle
 was treated as an input

---
 expander_compiler/src/zkcuda/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 787527d..7f6edb3 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -390,6 +390,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 panic!("Output is broadcasted, but it shouldn't be");
             }
         }
+        // What an output-only argument held before the call is not an input of the kernel.
+        for (io, io_spec) in ios.iter_mut().zip(kernel.io_specs().iter()) {
+            if !io_spec.is_input {
+                *io = None;
+            }
+        }
 
         // Use pointer-identity cache to skip O(circuit_size) Hash+Clone.
         // KernelPrimitive's derived Hash is pathologically slow (250× vs raw hash)
-- 
2.43.0


From 3f3786b096efee66b00969dc139ed4227c5559cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 23/25] fix: zkcuda hint memory was not laid out in the padded
 parallel shape of the call

---
 expander_compiler/src/zkcuda/context.rs | 37 ++++++++++++-------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 7f6edb3..c287081 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -217,6 +217,21 @@ fn make_device_mem<C: Config>(
     })
 }
 
+// The shape in which the parallel instances of a kernel call are laid out.
+fn parallel_shape(kernel_call: &KernelCall, dm_shapes: &[Shape]) -> Shape {
+    for handles in [&kernel_call.input_handles, &kernel_call.output_handles] {
+        for (handle, &ib) in handles.iter().zip(kernel_call.is_broadcast.iter()) {
+            if let (Some(handle), false) = (handle, ib) {
+                let (shape, _) = handle
+                    .shape_history
+                    .get_transposed_shape_and_bit_order(&dm_shapes[handle.id]);
+                return keep_shape_until(&shape, kernel_call.num_parallel);
+            }
+        }
+    }
+    vec![kernel_call.num_parallel]
+}
+
 impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
     pub fn new(hint_caller: H) -> Self {
         Context {
@@ -707,7 +722,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
 
             let mut commitment_indices: Vec<usize> = Vec::new();
             let mut commitment_bit_orders: Vec<BitOrder> = Vec::new();
-            let mut any_shape = None;
             let mut is_broadcast = Vec::new();
             for (((spec, pad_shape), handle), &ib) in kernel_primitive
                 .io_specs()
@@ -721,9 +735,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     commitment_indices.push(handle.as_ref().unwrap().id);
                     commitment_bit_orders.push(shape.1.clone());
                     is_broadcast.push(ib);
-                    if !ib {
-                        any_shape = Some(shape.0.clone());
-                    }
                 }
             }
             for (((spec, pad_shape), handle), &ib) in kernel_primitive
@@ -738,15 +749,10 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     commitment_indices.push(handle.as_ref().unwrap().id);
                     commitment_bit_orders.push(shape.1.clone());
                     is_broadcast.push(ib);
-                    if !ib {
-                        any_shape = Some(shape.0.clone());
-                    }
                 }
             }
 
-            let any_shape = any_shape.unwrap();
-            let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
-            let dim0_len = shape_vec_padded_len(&any_shape);
+            let dim0_len = shape_vec_padded_len(&parallel_shape(kernel_call, &dm_shapes));
 
             if kernel.hint_solver().is_some() {
                 // if the kernel has a hint solver, we need to add another input
@@ -805,6 +811,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         }
         self.state = ContextState::WitnessDone;
 
+        let dm_shapes = self.get_current_device_memory_shapes();
         for (kernel_call, proof_template) in
             self.kernel_calls.iter().zip(self.proof_templates.iter())
         {
@@ -821,7 +828,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 vec![None; kernel_primitive.io_specs().len()];
             let mut output_chunk_sizes: Vec<Option<usize>> =
                 vec![None; kernel_primitive.io_specs().len()];
-            let mut any_shape = None;
             for (((input, &ib), ir_inputs), chunk_size) in kernel_call
                 .input_handles
                 .iter()
@@ -833,9 +839,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(input.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
-                }
                 let values = handle
                     .shape_history
                     .permute_vec(&self.device_memories[handle.id].values);
@@ -855,9 +858,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(output.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
-                }
                 let values = handle
                     .shape_history
                     .permute_vec(&self.device_memories[handle.id].values);
@@ -926,9 +926,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .unwrap()
                 .id;
             // we need to assign correct shape to it
-            let any_shape = any_shape.unwrap();
             let mut any_shape_products =
-                keep_shape_products_until(&prefix_products(&any_shape), kernel_call.num_parallel);
+                prefix_products(&parallel_shape(kernel_call, &dm_shapes));
             if kernel_call.num_parallel != hints_len {
                 any_shape_products.push(hints_len);
             }
-- 
2.43.0


From c77ee094e088bfde65121b8db6ea8e03be2fe24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 24/25] fix: loading a computation graph looked up compiled
 kernels by primitive id

---
 expander_compiler/src/zkcuda/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index c287081..c9af235 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -678,7 +678,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             })
         };
         let mut dm_max = self.device_memories.len();
-        for kernel_call in self.kernel_calls.iter() {
+        for (call_idx, kernel_call) in self.kernel_calls.iter().enumerate() {
             let pad_shapes_input = kernel_call
                 .input_handles
                 .iter()
@@ -690,9 +690,9 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .map(get_pad_shape)
                 .collect::<Vec<_>>();
             let kernel_primitive = self.kernel_primitives.get(kernel_call.kernel_id);
-            let kernel = if cg_kernels.is_some() {
-                // Get kernel from loaded kernels by kernel_id
-                self.kernels.get(kernel_call.kernel_id).clone()
+            let kernel = if let Some(templates) = cg_proof_templates.as_ref() {
+                // Get kernel from loaded kernels by the kernel_id recorded for this call
+                self.kernels.get(templates[call_idx].kernel_id).clone()
             } else {
                 let mut psi = Vec::new();
                 for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
-- 
2.43.0


From e32465fbd68d30330c050c349fa7f75d30034de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:48 +0000
Subject: [PATCH 25/25] fix: expand_small_segments drops children listed with
 no allocation instead of giving them the id !0

---
 expander_compiler/src/circuit/layered/opt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/layered/opt.rs b/expander_compiler/src/circuit/layered/opt.rs
index d05b00b..074de63 100644
--- a/expander_compiler/src/circuit/layered/opt.rs
+++ b/expander_compiler/src/circuit/layered/opt.rs
@@ -561,7 +561,10 @@ impl<C: Config, I: InputType> Circuit<C, I> {
             if used_count[segment_id] > 0 && !expand_range.contains(&segment_id) {
                 let mut new_child_segs = Vec::new();
                 for sub_segment in segment.child_segs.iter() {
-                    new_child_segs.push((new_id[sub_segment.0], sub_segment.1.clone()));
+                    // a child listed with no allocation may be an unused segment, which has no new id
+                    if !sub_segment.1.is_empty() {
+                        new_child_segs.push((new_id[sub_segment.0], sub_segment.1.clone()));
+                    }
                 }
                 let mut seg = Segment {
                     num_inputs: segment.num_inputs.clone(),
-- 
2.43.0

