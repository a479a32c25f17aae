From 9c37a1171f8fcec92534bb5ec5ca350a319dfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 01/18] fix: keep output gates evaluated until every output is
 read

eval_output dropped the bit of a gate once all gates depending on it were
evaluated, even if the gate was itself an output read later; evaluation then
failed with UnknownEvaledBit.
---
 src/evaluator.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 9b7e4e7..5ef74ae 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -52,6 +52,12 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
             last_input_wire_id += WireId(1);
         }
 
+        // An output is read again after its dependents, so it also depends on its gate.
+        for i in 0..output_len {
+            let output_gate_id = circuit.output_to_gate_id(&WireId(i as u64))?;
+            *num_depend_map.entry(output_gate_id).or_insert(0) += 1;
+        }
+
         for i in 0..output_len {
             let wire_id = WireId(i as u64);
             let output = self.eval_single_output(inputs, &wire_id, Some(&mut evaled_map), Some(&mut num_depend_map))?;
@@ -119,7 +125,7 @@ impl NXAOBoolEvaluator {
             NXAOBoolGate::Const(gate) => {
                 evaled_map.insert(*gate_id, gate.value);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
@@ -138,7 +144,7 @@ impl NXAOBoolEvaluator {
                 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
@@ -168,7 +174,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
@@ -198,7 +204,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
@@ -228,7 +234,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Module(gate) => {
@@ -260,7 +266,7 @@ impl NXAOBoolEvaluator {
                     let output_id = GateId(first_output_id.0 + (i as u64));
                     evaled_map.insert(output_id, output_bits[i]);
                     let num_depend = self.circuit.get_depended_gates(&output_id)?.len();
-                    num_depend_map.insert(output_id, num_depend);
+                    *num_depend_map.entry(output_id).or_insert(0) += num_depend;
                 }
                 Ok(())
             }
-- 
2.43.0


From 9a4875e530dc6b4edf536cb9d4a1ef5436b3e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 02/18] fix: report a wrong number of inputs as InvalidInputLen

eval_output panicked on an assertion before the check that returns the error.
---
 src/evaluator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 5ef74ae..59d3fea 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -38,7 +38,12 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         let mut num_depend_map = HashMap::<GateId, usize>::new();
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
-        assert_eq!(inputs.len(), circuit.input_len());
+        if inputs.len() != circuit.input_len() {
+            return Err(EvaluatorError::InvalidInputLen(
+                inputs.len(),
+                circuit.input_len(),
+            ));
+        }
         while i < inputs.len() {
             let gate_id = circuit.input_to_gate_id(&last_input_wire_id)?;
             match gate_id {
-- 
2.43.0


From 238aad5febe7173c6a0df0c20de8b9022dc50589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 03/18] fix: do not underflow the wire count of a module that
 forwards its inputs

num_wire - input_len - output_len is negative for a module whose outputs are
its inputs or repeat a gate, so calling it panicked in debug builds.
---
 src/bool_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 2c59ae4..8fcc7ac 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -593,7 +593,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
-        self.num_wire += num_wire - input_len - output_len;
+        self.num_wire += num_wire - input_len;
         self.num_gate += num_gate;
         self.num_const += num_const;
         let new_gate_ids = (0..output_len)
@@ -609,6 +609,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
                 self.add_gate(NXAOBoolGate::Module(module_gate))
             })
             .collect::<Vec<GateId>>();
+        // The outputs of the module are its own wires: they were counted in num_wire above.
+        self.num_wire -= output_len;
         for input_id in gate_ids.into_iter() {
             for out_id in new_gate_ids.iter() {
                 self.add_dependence(input_id, out_id)?;
-- 
2.43.0


From f7221fa4e89eb56ca2bd9edbc4197353c8bcb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 04/18] fix: accept every value of N bits in
 AllocInt::from_biguint

The value was measured in whole bytes, so a width that is not a multiple of 8
rejected values that fit (and every value, zero included, below 8 bits).
---
 src/circuits/arithmetic/int.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 54b58fb..d21e787 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -43,16 +43,11 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
     ) -> Result<Self, BuildCircuitError> {
         let mut config = config.clone();
         let new_ref = &mut config.c_ref;
-        let bytes_le = val.to_bytes_le();
-        let bits_le = bytes2bits_le(&bytes_le[..]);
-        assert!(bits_le.len() <= N);
+        assert!(val.bits() <= N as u64);
 
         let mut val_le = Vec::new();
-        for i in 0..bits_le.len() {
-            val_le.push(new_ref.constant(bits_le[i])?);
-        }
-        for _ in 0..(N - bits_le.len()) {
-            val_le.push(new_ref.constant(false)?);
+        for i in 0..N {
+            val_le.push(new_ref.constant(val.bit(i as u64))?);
         }
         Ok(Self {
             val_le,
-- 
2.43.0


From 734288810fe956fcdf798e6d757339596f2cbf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 05/18] fix: shift an AllocInt by more than its width

shift_left returned more than N bits and shift_right panicked.
---
 src/circuits/arithmetic/int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index d21e787..a273288 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -126,6 +126,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let mut config = self.config.clone();
         let new_ref = &mut config.c_ref;
         let mut new_val_le = Vec::new();
+        let shift_bits = shift_bits.min(N);
         for _ in 0..shift_bits {
             new_val_le.push(new_ref.constant(false)?);
         }
@@ -142,6 +143,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
     pub fn shift_right(&self, shift_bits: usize) -> Result<Self, BuildCircuitError> {
         let config = self.config.clone();
         let mut new_val_le = Vec::new();
+        let shift_bits = shift_bits.min(N);
         let sign_bit = self.val_le[N - 1];
         for i in 0..(N - shift_bits) {
             new_val_le.push(self.val_le[i + shift_bits]);
-- 
2.43.0


From e285a34af31d693b048cf44e852281e59c70529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 06/18] fix: compare AllocInts whose difference overflows

less took the sign of a - b, which is wrong when the difference of the two
signed values does not fit in N bits: -128 < 1 was false for N = 8.
---
 src/circuits/arithmetic/int.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index a273288..5768029 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -479,9 +479,13 @@ pub fn build_less_circuit<G: Gate, C: BoolCircuit<G>>(
     }
 
     let inputs = [a_inputs, b_inputs].concat();
+    let (a_sign, b_sign) = (inputs[n_bits - 1], inputs[2 * n_bits - 1]);
     let sub = sub_ref.module(&suber_mid, &inputs)?;
-    let one = sub_ref.constant(true)?;
-    let is_less = sub_ref.equivalent(&sub[n_bits - 1], &one)?;
+    // The subtraction overflows only if the signs differ; then the sign of a decides.
+    let signs_differ = sub_ref.xor(&a_sign, &b_sign)?;
+    let overflow = sub_ref.xor(&sub[n_bits - 1], &a_sign)?;
+    let overflow = sub_ref.and(&signs_differ, &overflow)?;
+    let is_less = sub_ref.xor(&sub[n_bits - 1], &overflow)?;
     sub_ref.output(is_less)?;
     Ok(sub_mid)
 }
-- 
2.43.0


From 623ed1fec5eb614398192dd7c620625fd1f0c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 07/18] fix: reduce a field sum that equals the modulus

5 + 6 mod 11 gave 11 instead of 0, so it was not equal to zero.
---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 538f4b7..4c1ea57 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -222,7 +222,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let p_int = AllocInt::from_biguint(p, &int_config)?;
 
         let sum = (&l) + (&r);
-        let is_plus_larger = sum.larger(&p_int)?;
+        let is_plus_larger = sum.larger_or_eq(&p_int)?;
         let is_plus_larger_int = AllocInt::from_gate_ids(vec![is_plus_larger], &int_config)?;
         let is_minus_less = sum.less(&(-&AllocInt::zero(&int_config)?))?;
         let is_minus_less_int = AllocInt::from_gate_ids(vec![is_minus_less], &int_config)?;
-- 
2.43.0


From d9cef6153c3f0c931928de06875c73c65cb3ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 08/18] fix: return t, not -t, from the Montgomery reduction
 when t < p

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 4c1ea57..3fe15c5 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -309,7 +309,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let is_larger_or_eq_int = AllocInt::from_gate_ids(vec![is_larger_or_eq], &int_config)?;
         let else_int = (&AllocInt::one(&int_config)?) - (&is_larger_or_eq_int);
         let p_subed_t = (&t) - (&p_int);
-        let out = &(&is_larger_or_eq_int * &p_subed_t) - &(&else_int * &t);
+        let out = &(&is_larger_or_eq_int * &p_subed_t) + &(&else_int * &t);
         out.output()?;
         Ok(mid)
     }
-- 
2.43.0


From dbbb4a872e5fa192139013ab34223909c99fad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 09/18] fix: return an error for a malformed bristol file
 instead of panicking

A gate line with too few operands, an output wire that no gate defines and an
output longer than the circuit panicked with an index, key or overflow error.
---
 src/bristol_converter.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f0e4dd..d4fbc8c 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -135,6 +135,14 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 output_wire_ids.push(output_wire_id);
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
+            let expected_len = match gate_type {
+                "XOR" | "AND" | "OR" => 2,
+                "INV" | "EQ" | "EQW" => 1,
+                _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
+            };
+            if input_len != expected_len || output_len != 1 {
+                return Err(BristolError::LineSplitError);
+            }
 
             match gate_type {
                 "INV" => {
@@ -161,9 +169,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             };
         }
 
-        for i in (num_wire - output_len_sum)..num_wire {
-            let gate_id = self.gate_of_wire[&i];
-            c_ref.output(gate_id)?;
+        let first_output = num_wire
+            .checked_sub(output_len_sum)
+            .ok_or(BristolError::UnknownWire(num_wire))?;
+        for i in first_output..num_wire {
+            let gate_id = self
+                .gate_of_wire
+                .get(&i)
+                .ok_or(BristolError::UnknownWire(i))?;
+            c_ref.output(*gate_id)?;
         }
         Ok(())
     }
-- 
2.43.0


From e78a399c6db359d788e18972ebb8eb0f1505bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 10/18] fix: forget the wires of the previous file when a
 reader reads another

A wire that the second file never defines was resolved to a gate of the first.
---
 src/bristol_converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index d4fbc8c..62be874 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -55,6 +55,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
         reader: R,
         c_ref: &mut BoolCircuitRef<G, C>,
     ) -> Result<(), BristolError> {
+        self.gate_of_wire.clear();
         let mut lines_iter = reader.lines();
         let first_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(1))??;
         let mut first_strs = first_strs.split_whitespace();
-- 
2.43.0


From 61eeb7cfca4b07a3d7106b9a6205d3e36813fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 11/18] fix: read EQ as the assignment of a constant bit

In the Bristol Fashion format the operand of EQ is the bit 0 or 1; it was read as
a wire, as in EQW, so the gate copied wire 0 or 1.
---
 src/bristol_converter.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 62be874..2b8c295 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -115,17 +115,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            let mut input_gates = Vec::new();
+            let mut input_wire_ids = Vec::new();
             for _ in 0..input_len {
                 let wire_id = l
                     .next()
                     .ok_or(BristolError::LineSplitError)?
                     .parse::<usize>()?;
-                let gate_id = self
-                    .gate_of_wire
-                    .get(&wire_id)
-                    .ok_or(BristolError::UnknownWire(wire_id))?;
-                input_gates.push(gate_id);
+                input_wire_ids.push(wire_id);
             }
             let mut output_wire_ids = Vec::new();
             for _ in 0..output_len {
@@ -144,6 +140,25 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             if input_len != expected_len || output_len != 1 {
                 return Err(BristolError::LineSplitError);
             }
+            // The operand of EQ is a constant bit, not a wire.
+            if gate_type == "EQ" {
+                let value = match input_wire_ids[0] {
+                    0 => false,
+                    1 => true,
+                    _ => return Err(BristolError::LineSplitError),
+                };
+                let output_gate = c_ref.constant(value)?;
+                self.gate_of_wire.insert(output_wire_ids[0], output_gate);
+                continue;
+            }
+            let mut input_gates = Vec::new();
+            for wire_id in input_wire_ids {
+                let gate_id = self
+                    .gate_of_wire
+                    .get(&wire_id)
+                    .ok_or(BristolError::UnknownWire(wire_id))?;
+                input_gates.push(gate_id);
+            }
 
             match gate_type {
                 "INV" => {
@@ -162,7 +177,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                     let output_gate = c_ref.or(input_gates[0], input_gates[1])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-                "EQ" | "EQW" => {
+                "EQW" => {
                     let output_gate = c_ref.identity(input_gates[0])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-- 
2.43.0


From 21275a3b1549cb4eb459a57c7ee973c94295186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 12/18] fix: write a bristol header and output wires that match
 the gates

The header counted every constant twice and the gates that no output depends
on, which are not written; and outputs that are inputs, repeated, read by other
gates or results of several modules were not the last wires. Reading such a
file back failed or gave other outputs. The header is now written from the gate
lines, and outputs that are not the last wires are copied with EQW.
---
 src/bristol_converter.rs | 67 ++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2b8c295..548d734 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -207,6 +207,8 @@ pub struct BristolNXAOWriter<W: Write> {
     pub num_wire: usize,
     pub last_const_wire: usize,
     pub writer: BufWriter<W>,
+    // The gate lines written so far: the header, which counts them, comes first.
+    gate_lines: Vec<String>,
 }
 
 impl<W: Write> BristolNXAOWriter<W> {
@@ -216,6 +218,7 @@ impl<W: Write> BristolNXAOWriter<W> {
             num_wire: 0,
             last_const_wire: 0,
             writer,
+            gate_lines: Vec::new(),
         }
     }
 
@@ -227,22 +230,8 @@ impl<W: Write> BristolNXAOWriter<W> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
         let num_const = self.c_ref.num_const();
-        let num_gate = self.c_ref.num_gate();
-        let num_wire = self.c_ref.num_wire();
-        let first_line = format!("{} {}\n", num_gate, num_wire + num_const);
-        self.writer.write_all(first_line.as_bytes())?;
-
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
-        let second_line = format!(
-            "2 {} {}\n",
-            num_first_input,
-            num_all_input - num_first_input
-        );
-        self.writer.write_all(second_line.as_bytes())?;
-        let third_line = format!("1 {}\n", output_len);
-        self.writer.write_all(third_line.as_bytes())?;
-        self.writer.write_all(b"\n")?;
 
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
         let wire_of_gate = match wire_of_gate {
@@ -267,13 +256,57 @@ impl<W: Write> BristolNXAOWriter<W> {
         self.last_const_wire = input_len;
         self.num_wire += num_const;
         self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+        self.write_output_wires(wire_of_gate)?;
+
+        let first_line = format!("{} {}\n", self.gate_lines.len(), self.num_wire);
+        self.writer.write_all(first_line.as_bytes())?;
+        let second_line = format!(
+            "2 {} {}\n",
+            num_first_input,
+            num_all_input - num_first_input
+        );
+        self.writer.write_all(second_line.as_bytes())?;
+        let third_line = format!("1 {}\n", output_len);
+        self.writer.write_all(third_line.as_bytes())?;
+        self.writer.write_all(b"\n")?;
+        for line in self.gate_lines.drain(..) {
+            self.writer.write_all(line.as_bytes())?;
+        }
+
+        // A constant of a module that no output depends on has a wire that no gate reads.
         let mut const_vals = Vec::new();
-        for wire in input_len..self.last_const_wire {
-            const_vals.push(const_of_wire[&wire]);
+        for wire in input_len..num_all_input {
+            const_vals.push(const_of_wire.get(&wire).copied().unwrap_or(false));
         }
         Ok(const_vals)
     }
 
+    /// The outputs of a bristol circuit are its last wires: if the wires of the outputs are not,
+    /// they are copied.
+    fn write_output_wires(
+        &mut self,
+        wire_of_gate: &HashMap<GateId, usize>,
+    ) -> Result<(), BristolError> {
+        let mut output_wires = Vec::new();
+        for i in 0..self.c_ref.output_len() {
+            let gate_id = self.c_ref.output_to_gate_id(&WireId(i as u64))?;
+            output_wires.push(wire_of_gate[&gate_id]);
+        }
+        let first_output = self.num_wire.checked_sub(output_wires.len());
+        let is_last = match first_output {
+            Some(first) => output_wires.iter().copied().eq(first..self.num_wire),
+            None => false,
+        };
+        if !is_last {
+            for wire in output_wires {
+                self.gate_lines
+                    .push(format!("1 1 {} {} EQW\n", wire, self.num_wire));
+                self.num_wire += 1;
+            }
+        }
+        Ok(())
+    }
+
     fn write_all_gates(
         &mut self,
         wire_of_gate: &mut HashMap<GateId, usize>,
@@ -574,7 +607,7 @@ impl<W: Write> BristolNXAOWriter<W> {
                     write_str = write_str + &format!("{} ", wires[i]);
                 }
                 write_str = write_str + &format!("{} ", self.num_wire) + gate_str + "\n";
-                self.writer.write_all(write_str.as_bytes())?;
+                self.gate_lines.push(write_str);
             }
             None => {}
         };
-- 
2.43.0


From 8f90c17e0473921f653d9ee75abe1dba68d9b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 13/18] fix: reject a module call with a wrong number of
 operands

The call succeeded; evaluating it failed later, and writing it with too few
operands produced a file whose gates read wires that nothing defines.
---
 src/bool_circuit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 8fcc7ac..be31eee 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -589,6 +589,9 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     ) -> Result<Vec<GateId>, BoolCircuitError> {
         let module_circuit = self.get_module(module_id)?;
         let input_len = module_circuit.input_len();
+        if gate_ids.len() != input_len {
+            return Err(BoolCircuitError::InvalidModuleInputGate);
+        }
         let output_len = module_circuit.output_len();
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
-- 
2.43.0


From 250485b089dd56388bf1fc787cdda58489191d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 14/18] fix: a Bristol writer that is used again starts a new
 file

---
 src/bristol_converter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 548d734..2485936 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -232,6 +232,8 @@ impl<W: Write> BristolNXAOWriter<W> {
         let num_const = self.c_ref.num_const();
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
+        self.num_wire = 0;
+        self.gate_lines.clear();
 
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
         let wire_of_gate = match wire_of_gate {
-- 
2.43.0


From f2f36b80ec6c010e6df9f22205313ddb8fb83351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 15/18] fix: a wire map given to the Bristol writer does not
 keep old wires

---
 src/bristol_converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2485936..bf675b2 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -237,7 +237,10 @@ impl<W: Write> BristolNXAOWriter<W> {
 
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
         let wire_of_gate = match wire_of_gate {
-            Some(m) => m,
+            Some(m) => {
+                m.clear();
+                m
+            }
             None => &mut new_wire_of_gate,
         };
         let mut const_of_wire = HashMap::new();
-- 
2.43.0


From 352b50e3d321dd8100e3dd49d184445a86fa5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 16/18] fix: calling the circuit itself as a module is an error

Through a handle the circuit is borrowed for the whole call, so looking at the
module's sizes panicked, whatever the number of operands.
---
 src/bool_circuit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index be31eee..50dd5e8 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -27,6 +27,8 @@ pub enum BoolCircuitError {
     UnknownInputOfModule(GateId, ModuleId),
     #[error("There is no valid gate in input gates of the module.")]
     InvalidModuleInputGate,
+    #[error("The module of id {0} is the calling circuit itself.")]
+    RecursiveModule(ModuleId),
 }
 
 pub trait BoolCircuit<G: Gate>: Sized + Clone + PartialEq + Eq {
@@ -200,6 +202,11 @@ impl<G: Gate, C: BoolCircuit<G>> BoolCircuitRef<G, C> {
         module_id: &ModuleId,
         gate_ids: &[GateId],
     ) -> Result<Vec<GateId>, BoolCircuitError> {
+        // The circuit is borrowed during the call: as its own module it could not be read.
+        let module_circuit = self.borrow().get_module(module_id)?;
+        if Rc::ptr_eq(self.inner(), module_circuit.inner()) {
+            return Err(BoolCircuitError::RecursiveModule(*module_id));
+        }
         self.borrow_mut().module(module_id, gate_ids)
     }
 
-- 
2.43.0


From 8ff52212600280c1764d583b8d384f6ba2fa3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 17/18] fix: output groups of a bristol header whose sum
 overflows are an error

---
 src/bristol_converter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index bf675b2..79013a7 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -90,13 +90,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             .next()
             .ok_or(BristolError::LineSplitError)?
             .parse::<usize>()?;
-        let mut output_len_sum = 0;
+        let mut output_len_sum = 0usize;
         for _ in 0..num_output {
             let output_bit = third_strs
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            output_len_sum += output_bit;
+            output_len_sum = output_len_sum
+                .checked_add(output_bit)
+                .ok_or(BristolError::UnknownWire(num_wire))?;
         }
         //skip one row.
         let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
-- 
2.43.0


From 0d69ccb1ca44e558c331e7dd3429fe289ead0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:25 +0000
Subject: [PATCH 18/18] fix: more input bits than wires in a bristol header are
 an error

---
 src/bristol_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 79013a7..331eb08 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -79,6 +79,9 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
+            if input_bit > num_wire - input_len_sum {
+                return Err(BristolError::UnknownWire(num_wire));
+            }
             for j in 0..input_bit {
                 self.gate_of_wire.insert(input_len_sum + j, c_ref.input()?);
             }
-- 
2.43.0

