From b766a8ad22c6da06c6269cfdc92c316f910dc922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 01/33] fix: Fq6::is_zero must look at all three coefficients

---
 halo2curves/src/bn256/fq6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2curves/src/bn256/fq6.rs b/halo2curves/src/bn256/fq6.rs
index cbf8cb1..4679d6e 100644
--- a/halo2curves/src/bn256/fq6.rs
+++ b/halo2curves/src/bn256/fq6.rs
@@ -401,7 +401,7 @@ impl Field for Fq6 {
     }
 
     fn is_zero(&self) -> Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From ba8043882d97ce3be33c777be180129a6b8785a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 02/33] fix: Fq2 decoders reject non-canonical coefficients
 instead of panicking

---
 halo2curves/src/bn256/fq2.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/halo2curves/src/bn256/fq2.rs b/halo2curves/src/bn256/fq2.rs
index 56a5674..b6fd949 100644
--- a/halo2curves/src/bn256/fq2.rs
+++ b/halo2curves/src/bn256/fq2.rs
@@ -135,8 +135,8 @@ impl Fq2 {
         let c1 = Fq::from_bytes(bytes[32..64].try_into().unwrap());
         CtOption::new(
             Fq2 {
-                c0: c0.unwrap(),
-                c1: c1.unwrap(),
+                c0: c0.unwrap_or(Fq::zero()),
+                c1: c1.unwrap_or(Fq::zero()),
             },
             c0.is_some() & c1.is_some(),
         )
@@ -551,7 +551,10 @@ impl ff::PrimeField for Fq2 {
         let c0 = Fq::from_bytes(&repr.0[..32].try_into().unwrap());
         let c1 = Fq::from_bytes(&repr.0[32..].try_into().unwrap());
         // Disallow overflow representation
-        CtOption::new(Fq2::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+        CtOption::new(
+            Fq2::new(c0.unwrap_or(Fq::zero()), c1.unwrap_or(Fq::zero())),
+            c0.is_some() & c1.is_some(),
+        )
     }
 
     fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 823686798d646a1af5b143bfc23d417b4a226caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 03/33] fix: checked raw point readers verify that the point is
 on the curve

---
 halo2curves/src/derive/curve.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index d8d6c98..4f734e5 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -512,7 +512,11 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve())
+                    .then(|| res)
+                    .ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -677,7 +681,11 @@ macro_rules! new_curve_impl {
             fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve())
+                    .then(|| res)
+                    .ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 2cb240e124e8ac94f5c47bb6449d700f7067e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 04/33] fix: compressed points with stray bits beside the sign
 bit are not valid encodings

---
 halo2curves/src/derive/curve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index 4f734e5..8beb2a4 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -613,7 +613,11 @@ macro_rules! new_curve_impl {
                 let mut xbytes = [0u8; $base::size()];
                 xbytes.copy_from_slice(&tmp[ ..$base::size()]);
 
-                $base::from_bytes(&xbytes).and_then(|x| {
+                // Encodings longer than the base field only carry the sign in the extra byte.
+                let no_stray_bits =
+                    Choice::from(tmp[$base::size()..].iter().all(|b| *b == 0) as u8);
+
+                $base::from_bytes(&xbytes).and_then(|x| CtOption::new(x, no_stray_bits)).and_then(|x| {
                     CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {
                         let x3 = x.square() * x;
                         (x3 + $name::curve_constant_b()).sqrt().and_then(|y| {
-- 
2.43.0


From 52543166a7c2e1b6c735321f3fae0936332f7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:17 +0000
Subject: [PATCH 05/33] fix: run a program without any command instead of
 panicking

---
 ckb_bf_vm/src/interpreter.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ckb_bf_vm/src/interpreter.rs b/ckb_bf_vm/src/interpreter.rs
index 48e025e..ac7ac64 100644
--- a/ckb_bf_vm/src/interpreter.rs
+++ b/ckb_bf_vm/src/interpreter.rs
@@ -61,12 +61,8 @@ impl Interpreter {
     }
 
     pub fn run(&mut self) {
-        self.register.current_instruction = self.code[0];
-        if self.code.len() == 1 {
-            self.register.next_instruction = Fr::zero()
-        } else {
-            self.register.next_instruction = self.code[1];
-        }
+        self.register.current_instruction = self.code.get(0).copied().unwrap_or(Fr::zero());
+        self.register.next_instruction = self.code.get(1).copied().unwrap_or(Fr::zero());
         for i in 0..self.code.len() {
             self.matrix.instruction_matrix.push(InstructionMatrixRow {
                 instruction_pointer: Fr::from(i as u64),
-- 
2.43.0


From abe97456a6f0bbbe89323057b4f9aca51ee4d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:12 +0000
Subject: [PATCH 06/33] fix: bind the running sums of the processor and
 instruction tables

The cell handed out as the final running sum was the one after the last
row, which no gate constrains, so the program and the input executed were
not tied to the public ones at all.
---
 ckb_bf_base/src/instruction_table.rs | 4 ++++
 ckb_bf_base/src/processor_table.rs   | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index d245cd9..1235422 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -175,6 +175,10 @@ impl InstructionTable for InstructionTableConfig {
                         prp_prev.value().map(|x| *x)
                     };
                     prp_prev = region.assign_advice(|| "prp", self.prp, idx + 1, || prp)?;
+                    // The running sum has no transition out of the last row
+                    if idx == instruction_matrix.len() - 1 {
+                        break;
+                    }
                     // cal and assign rs
                     let rs = if ip_next != ip_cur {
                         gamma * rs_prev.value() + ci.value()
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 1ea21e6..2331e55 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -356,6 +356,12 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                         mem_prp_prev.value() * (m_alpha - m_d * clk.value() - m_e * mp.value() - m_f * mv.value());
                     let inst_prp =
                         inst_prp_prev.value() * (i_alpha - i_d * ip.value() - i_e * ci.value() - i_f * ni.value());
+                    mem_prp_prev = region.assign_advice(|| "mem_prp", self.mem_prp, idx + 1, || mem_prp)?;
+                    inst_prp_prev = region.assign_advice(|| "inst prp", self.inst_prp, idx + 1, || inst_prp)?;
+                    // The running sums have no transition out of the last row
+                    if idx == processor_matrix.len() - 1 {
+                        break;
+                    }
                     let output_rs = if reg.current_instruction == putchar_fr {
                         output_rs_prev.value() * out_gamma + mv.value()
                     } else {
@@ -370,8 +376,6 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     } else {
                         input_rs_prev.value().map(|x| *x)
                     };
-                    mem_prp_prev = region.assign_advice(|| "mem_prp", self.mem_prp, idx + 1, || mem_prp)?;
-                    inst_prp_prev = region.assign_advice(|| "inst prp", self.inst_prp, idx + 1, || inst_prp)?;
                     output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
                     input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
                 }
-- 
2.43.0


From a1d307982d2f28c1037e2bf2be2ab80f9e48adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 07/33] fix: fix the initial values of running products/sums
 and the table lengths

They were free advice cells: a prover could start both running products
at zero, which makes the permutation arguments hold for any tables, or
claim any program/input length.  Starting the running sums at zero also
ignored leading zero values.
---
 ckb_bf_base/src/input_table.rs       |  8 ++++----
 ckb_bf_base/src/instruction_table.rs |  4 ++--
 ckb_bf_base/src/main_config.rs       |  3 +++
 ckb_bf_base/src/memory_table.rs      |  2 +-
 ckb_bf_base/src/output_table.rs      |  2 +-
 ckb_bf_base/src/processor_table.rs   | 14 +++++---------
 ckb_bf_base/src/program_table.rs     |  9 +++++----
 ckb_bf_base/src/utils.rs             |  3 +++
 8 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index a79371c..607800a 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -1,6 +1,6 @@
 use crate::utils::*;
 use ckb_bf_vm::matrix::Matrix;
-use halo2_proofs::circuit::{Layouter, Value};
+use halo2_proofs::circuit::Layouter;
 use halo2_proofs::halo2curves::bn256::Fr;
 use halo2_proofs::plonk::*;
 use halo2_proofs::poly::Rotation;
@@ -65,12 +65,12 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
-                let len = region.assign_advice(
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
+                let len = region.assign_advice_from_constant(
                     || "Input length",
                     self.input_len,
                     0,
-                    || Value::known(Fr::from(matrix.input_matrix.len() as u64)),
+                    Fr::from(matrix.input_matrix.len() as u64),
                 )?;
                 for idx in 0..matrix.input_matrix.len() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 1235422..6aee96e 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -148,8 +148,8 @@ impl InstructionTable for InstructionTableConfig {
             || "Load Instruction Table",
             |mut region| {
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.inst_prp_init))?;
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
diff --git a/ckb_bf_base/src/main_config.rs b/ckb_bf_base/src/main_config.rs
index 8358f41..b4cec2c 100644
--- a/ckb_bf_base/src/main_config.rs
+++ b/ckb_bf_base/src/main_config.rs
@@ -39,6 +39,9 @@ impl<const RANGE: usize> MainTable for MainConfig<RANGE> {
         cs.enable_equality(code);
         let input = cs.instance_column();
         cs.enable_equality(input);
+        // Initial values of running products/sums and table lengths are constants of the circuit
+        let constants = cs.fixed_column();
+        cs.enable_constant(constants);
         // First phase gates and tables
         let p_config = ProcessorTableConfig::configure(cs);
         let m_config = MemoryTableConfig::configure(cs);
diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 0a29020..15f5ada 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -107,7 +107,7 @@ impl MemoryTable for MemoryTableConfig {
             |mut region| {
                 // init prp
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.mem_prp_init))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index db47791..9f68037 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -55,7 +55,7 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 2331e55..5e1e79c 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -320,17 +320,13 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
             |mut region| {
                 // init prp and rs
                 let mut mem_prp_prev =
-                    region.assign_advice(|| "mem prp", self.mem_prp, 0, || Value::known(challenges.mem_prp_init))?;
-                let mut inst_prp_prev = region.assign_advice(
-                    || "inst prp",
-                    self.inst_prp,
-                    0,
-                    || Value::known(challenges.inst_prp_init),
-                )?;
+                    region.assign_advice_from_constant(|| "mem prp", self.mem_prp, 0, challenges.mem_prp_init)?;
+                let mut inst_prp_prev =
+                    region.assign_advice_from_constant(|| "inst prp", self.inst_prp, 0, challenges.inst_prp_init)?;
                 let mut output_rs_prev =
-                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, challenges.rs_init)?;
                 let mut input_rs_prev =
-                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, challenges.rs_init)?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 8a9ec0b..e73fcc3 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -1,6 +1,6 @@
 use crate::utils::*;
 use ckb_bf_vm::matrix::Matrix;
-use halo2_proofs::circuit::{Layouter, Value};
+use halo2_proofs::circuit::Layouter;
 use halo2_proofs::halo2curves::bn256::Fr;
 use halo2_proofs::plonk::*;
 use halo2_proofs::poly::Rotation;
@@ -69,14 +69,15 @@ impl ProgramTable for ProgramTableConfig {
                 // The solution here is to let prover provide the program length, expose the
                 // program length as public
                 // And use constraint_instance to make sure the length is correct
-                let len = region.assign_advice(
+                let len = region.assign_advice_from_constant(
                     || "Program length",
                     self.program_len,
                     0,
-                    || Value::known(Fr::from(matrix.program.len() as u64)),
+                    Fr::from(matrix.program.len() as u64),
                 )?;
 
-                let mut rs_prev = region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev =
+                    region.assign_advice_from_constant(|| "rs", self.code_rs, 0, challenges.rs_init)?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 674d5b8..d0e7377 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -40,6 +40,8 @@ pub type BFCell = AssignedCell<Fr, Fr>;
 pub struct BFChallenge {
     pub(crate) mem_prp_init: Fr,
     pub(crate) inst_prp_init: Fr,
+    // Non-zero, such that a running sum depends on the number of its terms as well
+    pub(crate) rs_init: Fr,
     challenges: [Challenge; 11],
 }
 
@@ -49,6 +51,7 @@ impl BFChallenge {
             // TODO: make it random
             mem_prp_init: Fr::from(3),
             inst_prp_init: Fr::from(9),
+            rs_init: Fr::one(),
             challenges: [(); 11].map(|_| cs.challenge_usable_after(FirstPhase)),
         }
     }
-- 
2.43.0


From b2108099ed0d8559d8ad509ebde172952bcd8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:42 +0000
Subject: [PATCH 08/33] fix: instruction table starts at address 0 and ties ni
 to the next word

Nothing forced the first address to be 0 (so a run could skip leading
instructions) nor the next-instruction column to be the following program
word (so jump targets were chosen by the prover).
---
 ckb_bf_base/src/instruction_table.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 6aee96e..49f186b 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -28,6 +28,7 @@ pub struct InstructionTableConfig {
     s_prp_adhoc: Selector,
     s_rs: Selector,
     s_i: Selector, // Selector for condition I category (Instruction Table)
+    s_b: Selector, // Selector for condition B category (Boundary Constraints)
 }
 
 impl InstructionTable for InstructionTableConfig {
@@ -45,6 +46,13 @@ impl InstructionTable for InstructionTableConfig {
         let s_rs = cs.selector();
         let s_prp_adhoc = cs.selector();
         let s_i = cs.selector();
+        let s_b = cs.selector();
+
+        cs.create_gate("B0: ip_0 = 0", |vc| {
+            let ip = vc.query_advice(ip, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b * ip]
+        });
 
         cs.create_gate("I0: Instruction pointer increases by 0 or 1", |vc| {
             let cur_ip = vc.query_advice(ip, Rotation::cur());
@@ -70,6 +78,22 @@ impl InstructionTable for InstructionTableConfig {
             let s_i = vc.query_selector(s_i);
             vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ni.clone() - cur_ni.clone())]
         });
+
+        cs.create_gate("I3: If ip increases, then ni is the ci it increases to.", |vc| {
+            let cur_ip = vc.query_advice(ip, Rotation::cur());
+            let next_ip = vc.query_advice(ip, Rotation::next());
+            let cur_ni = vc.query_advice(ni, Rotation::cur());
+            let next_ci = vc.query_advice(ci, Rotation::next());
+            let s_i = vc.query_selector(s_i);
+            vec![s_i * (next_ip - cur_ip) * (cur_ni - next_ci)]
+        });
+
+        cs.create_gate("I4: The dummy row after termination has ci = ni = 0.", |vc| {
+            let ci_prev = vc.query_advice(ci, Rotation::prev());
+            let ni_prev = vc.query_advice(ni, Rotation::prev());
+            let s_prp_adhoc = vc.query_selector(s_prp_adhoc);
+            vec![s_prp_adhoc.clone() * ci_prev, s_prp_adhoc * ni_prev]
+        });
         Self {
             ip,
             ci,
@@ -77,6 +101,7 @@ impl InstructionTable for InstructionTableConfig {
             prp,
             rs,
             s_i,
+            s_b,
             s_prp,
             s_prp_adhoc,
             s_rs,
@@ -151,6 +176,7 @@ impl InstructionTable for InstructionTableConfig {
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
                 let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
                     if idx < instruction_matrix.len() - 1 {
-- 
2.43.0


From 00ea0326a2c65f6703568e9f754c1de37d015b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:20 +0000
Subject: [PATCH 09/33] fix: memory table starts at cell 0 and visits each cell
 in clk order

Accesses to a cell could be listed in any clk order, so a read could
return a value the cell held at another time, and the first listed cell
could hold any initial value.
---
 ckb_bf_base/src/memory_table.rs | 37 ++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 15f5ada..9063272 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -25,6 +25,8 @@ pub struct MemoryTableConfig {
     prp: Column<Advice>,
     s_m: Selector, // selector for condition m category (memory table)
     s_prp: Selector,
+    s_b: Selector, // selector for condition b category (boundary constraints)
+    clk_gap: TableColumn, // Lookup table of how far apart two accesses of a run can be
 }
 
 impl MemoryTable for MemoryTableConfig {
@@ -36,8 +38,16 @@ impl MemoryTable for MemoryTableConfig {
         let mv = cs.advice_column_in(FirstPhase);
         let prp = cs.advice_column_in(SecondPhase);
         cs.enable_equality(prp);
-        let s_m = cs.selector();
+        let s_m = cs.complex_selector();
         let s_prp = cs.selector();
+        let s_b = cs.selector();
+        let clk_gap = cs.lookup_table_column();
+
+        cs.create_gate("B0: mp_0 = 0", |vc| {
+            let mp = vc.query_advice(mp, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b * mp]
+        });
 
         cs.create_gate("M0: memory pointer either increase by one or by zero", |vc| {
             let cur_mp = vc.query_advice(mp, Rotation::cur());
@@ -71,6 +81,19 @@ impl MemoryTable for MemoryTableConfig {
             let s_m = vc.query_selector(s_m);
             vec![s_m * (next_mp.clone() - cur_mp.clone()) * (next_mv)]
         });
+
+        // Otherwise a cell could be read at a later clk as it was at an earlier one
+        cs.lookup("M3: If mp is unchanged, clk must increase.", |vc| {
+            let cur_mp = vc.query_advice(mp, Rotation::cur());
+            let next_mp = vc.query_advice(mp, Rotation::next());
+            let cur_clk = vc.query_advice(clk, Rotation::cur());
+            let next_clk = vc.query_advice(clk, Rotation::next());
+            let s_m = vc.query_selector(s_m);
+            vec![(
+                s_m * (one.clone() - (next_mp - cur_mp)) * (next_clk - cur_clk - one.clone()),
+                clk_gap,
+            )]
+        });
         Self {
             clk,
             mp,
@@ -78,6 +101,8 @@ impl MemoryTable for MemoryTableConfig {
             prp,
             s_m,
             s_prp,
+            s_b,
+            clk_gap,
         }
     }
 
@@ -102,6 +127,15 @@ impl MemoryTable for MemoryTableConfig {
     ) -> Result<BFCell, Error> {
         // Read challenges
         let [alpha, d, e, f] = challenges.get_mem_prp_challenges().map(|c| layouter.get_challenge(c));
+        layouter.assign_table(
+            || "load clk gap table",
+            |mut table| {
+                for gap in 0..matrix.memory_matrix.len().max(1) {
+                    table.assign_cell(|| "gap", self.clk_gap, gap, || Value::known(Fr::from(gap as u64)))?;
+                }
+                Ok(())
+            },
+        )?;
         layouter.assign_region(
             || "Load Memory Table",
             |mut region| {
@@ -109,6 +143,7 @@ impl MemoryTable for MemoryTableConfig {
                 let mut prp_prev =
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
                         // M condition is enabled except last row
-- 
2.43.0


From 04ef3008eda2c6e4b940d8094626656e019d6f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:55 +0000
Subject: [PATCH 10/33] fix: prover leaves room for the last table row and the
 unusable rows

k was the smallest power of two holding the instruction matrix, so traces
a little below a power of two failed with NotEnoughRowsAvailable.
---
 ckb_bf_prover/src/main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index e58063c..cfc92e7 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -7,7 +7,9 @@ use ckb_bf_vm::code;
 use ckb_bf_vm::interpreter::Interpreter;
 use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
 use halo2_proofs::halo2curves::FieldExt;
-use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, verify_proof, VerifyingKey};
+use halo2_proofs::plonk::{
+    create_proof, keygen_pk, keygen_vk, verify_proof, Circuit, ConstraintSystem, VerifyingKey,
+};
 use halo2_proofs::poly::commitment::{Params, ParamsProver};
 use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG, ParamsVerifierKZG};
 use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
@@ -147,11 +149,12 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     }
     i.set_code(code.clone());
     i.run();
-    // the bf lookup table has k=8
-    let k = std::cmp::max(
-        i.matrix.instruction_matrix.len().next_power_of_two().trailing_zeros(),
-        9,
-    );
+    // the bf lookup table has k=8, the largest table has one row more than the instruction matrix
+    // and the last rows of the circuit are not usable
+    let mut cs = ConstraintSystem::default();
+    MyCircuit::<Fr, { DOMAIN }>::configure(&mut cs);
+    let rows = i.matrix.instruction_matrix.len() + 1 + cs.minimum_rows();
+    let k = std::cmp::max(rows.next_power_of_two().trailing_zeros(), 9);
 
     let circuit = MyCircuit::<Fr, { DOMAIN }>::new(i.matrix);
     prove_and_verify(k, circuit, c, input.into_bytes());
-- 
2.43.0


From 3f23024999f11854be69b4bffa3c61977ce930a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:55 +0000
Subject: [PATCH 11/33] fix: prover publishes the input bytes the program reads

With more input than the program reads, the published input was not the
one in the circuit and the prover failed on its own proof.
---
 ckb_bf_prover/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index cfc92e7..26b2f3d 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -156,7 +156,11 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     let rows = i.matrix.instruction_matrix.len() + 1 + cs.minimum_rows();
     let k = std::cmp::max(rows.next_power_of_two().trailing_zeros(), 9);
 
+    // the statement covers what the program reads, not what is left over
+    let mut input = input.into_bytes();
+    input.truncate(i.matrix.input_matrix.len());
+
     let circuit = MyCircuit::<Fr, { DOMAIN }>::new(i.matrix);
-    prove_and_verify(k, circuit, c, input.into_bytes());
+    prove_and_verify(k, circuit, c, input);
     Ok(())
 }
-- 
2.43.0


From 2b54aeef411783a8f719e391010e9ba036a206d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:55 +0000
Subject: [PATCH 12/33] fix: verifier has room for the length before 1024 words
 of program or input

---
 ckb_bf_verifier/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckb_bf_verifier/src/main.rs b/ckb_bf_verifier/src/main.rs
index debd681..644267e 100644
--- a/ckb_bf_verifier/src/main.rs
+++ b/ckb_bf_verifier/src/main.rs
@@ -76,7 +76,7 @@ pub fn program_entry() -> i8 {
     };
     assert!(raw_code_len % 2 == 0); // san-check
     let code_len = raw_code_len / 2;
-    let mut code = [Fr::zero(); 1024];
+    let mut code = [Fr::zero(); 1024 + 1];
     code[0] = Fr::from(code_len as u64);
     (0..code_len).for_each(|idx| {
         code[idx + 1] = Fr::from(u16::from_le_bytes([code_buffer[idx * 2], code_buffer[idx * 2 + 1]]) as u64)
@@ -93,7 +93,7 @@ pub fn program_entry() -> i8 {
             return -1;
         }
     };
-    let mut input = [Fr::zero(); 1024];
+    let mut input = [Fr::zero(); 1024 + 1];
     input[0] = Fr::from(input_len as u64);
     (0..input_len).for_each(|idx| {
         input[idx+1] = Fr::from(input_buffer[idx] as u64);
-- 
2.43.0


From d21e2cd17573c2ad37c655960b59a4c2ba93fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:41 +0000
Subject: [PATCH 13/33] fix: verifier has room for the verifying key of a
 program without commands

---
 ckb_bf_verifier/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckb_bf_verifier/src/main.rs b/ckb_bf_verifier/src/main.rs
index 644267e..38cab9e 100644
--- a/ckb_bf_verifier/src/main.rs
+++ b/ckb_bf_verifier/src/main.rs
@@ -40,7 +40,7 @@ pub fn program_entry() -> i8 {
             return -1;
         }
     };
-    let mut vk_buffer = [0u8; 4096];
+    let mut vk_buffer = [0u8; 8192];
     let vk_len = match load_witness(&mut vk_buffer, 0, 1, Source::Input) {
         Ok(l) => {
             debug(format!("Loading vk length: {:?}", l));
-- 
2.43.0


From 69abd310e0a7cab9a5f018af44dd9e4f5d608d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:21 +0000
Subject: [PATCH 14/33] fix: MockProver does not ask for instance cells to be
 assigned in a region

---
 halo2_proofs/src/dev.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index dcd40b7..7e6c96e 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -728,6 +728,12 @@ impl<F: FieldExt> MockProver<F> {
                             let gate_row = *selector_row as i32;
 
                             gate.queried_cells().iter().filter_map(move |cell| {
+                                // Instance cells are given to the verifier, and are never
+                                // assigned in a region.
+                                if cell.column.column_type() == &Any::Instance {
+                                    return None;
+                                }
+
                                 // Determine where this cell should have been assigned.
                                 let cell_row = ((gate_row + n + cell.rotation.0) % n) as usize;
 
@@ -1089,6 +1095,12 @@ impl<F: FieldExt> MockProver<F> {
                                 gate.queried_cells()
                                     .iter()
                                     .filter_map(move |cell| {
+                                        // Instance cells are given to the verifier, and are never
+                                        // assigned in a region.
+                                        if cell.column.column_type() == &Any::Instance {
+                                            return None;
+                                        }
+
                                         // Determine where this cell should have been assigned.
                                         let cell_row =
                                             ((gate_row + n + cell.rotation.0) % n) as usize;
-- 
2.43.0


From 34a324a024397a058b38a7ebbb229b3564e5944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:21 +0000
Subject: [PATCH 15/33] fix: MockProver reports unassigned cells of a region
 that only enables a selector

---
 halo2_proofs/src/dev.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index 7e6c96e..a91cf7c 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -746,7 +746,8 @@ impl<F: FieldExt> MockProver<F> {
                                         region: (r_i, r.name.clone(), r.annotations.clone()).into(),
                                         gate_offset: *selector_row,
                                         column: cell.column,
-                                        offset: cell_row as isize - r.rows.unwrap().0 as isize,
+                                        offset: cell_row as isize
+                                            - r.rows.map_or(*selector_row, |rows| rows.0) as isize,
                                     })
                                 }
                             })
@@ -1120,7 +1121,8 @@ impl<F: FieldExt> MockProver<F> {
                                                 gate_offset: *selector_row,
                                                 column: cell.column,
                                                 offset: cell_row as isize
-                                                    - r.rows.unwrap().0 as isize,
+                                                    - r.rows.map_or(*selector_row, |rows| rows.0)
+                                                        as isize,
                                             })
                                         }
                                     })
-- 
2.43.0


From e76356b7c801ab3d0b54ff24070b8d550fbd2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:22 +0000
Subject: [PATCH 16/33] fix: MockProver reports a constraint that fails next to
 a poisoned cell

---
 halo2_proofs/src/dev/failure.rs | 3 ++-
 halo2_proofs/src/dev/util.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/dev/failure.rs b/halo2_proofs/src/dev/failure.rs
index 445cfc3..c315ecf 100644
--- a/halo2_proofs/src/dev/failure.rs
+++ b/halo2_proofs/src/dev/failure.rs
@@ -527,7 +527,8 @@ fn render_lookup<F: FieldExt>(
                 ((column_type, column_index).into(), rotation.0).into(),
                 match load(query) {
                     Value::Real(v) => util::format_value(v),
-                    Value::Poison => unreachable!(),
+                    // A poisoned cell may still be multiplied by zero.
+                    Value::Poison => "<poisoned>".into(),
                 },
             ))
             .into_iter()
diff --git a/halo2_proofs/src/dev/util.rs b/halo2_proofs/src/dev/util.rs
index e428c87..88bce0d 100644
--- a/halo2_proofs/src/dev/util.rs
+++ b/halo2_proofs/src/dev/util.rs
@@ -125,7 +125,8 @@ fn cell_value<'a, F: FieldExt, Q: Into<AnyQuery> + Copy>(
                     cell.clone().into(),
                     match load(query) {
                         Value::Real(v) => format_value(v),
-                        Value::Poison => unreachable!(),
+                        // A poisoned cell may still be multiplied by zero.
+                        Value::Poison => "<poisoned>".into(),
                     },
                 )
             })
-- 
2.43.0


From 3fd6ff337e0fd4944ac49996a9cd11a433ff6823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:22 +0000
Subject: [PATCH 17/33] fix: assert_satisfied renders lookups with negative
 rotations

---
 halo2_proofs/src/dev/failure.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/halo2_proofs/src/dev/failure.rs b/halo2_proofs/src/dev/failure.rs
index c315ecf..aaca5c6 100644
--- a/halo2_proofs/src/dev/failure.rs
+++ b/halo2_proofs/src/dev/failure.rs
@@ -464,7 +464,8 @@ fn render_lookup<F: FieldExt>(
             prover.regions[region.index].rows.unwrap().0 + offset
         }
         FailureLocation::OutsideRegion { row } => *row,
-    } as i32;
+    } as i32
+        + n;
 
     // Recover the fixed columns from the table expressions. We don't allow composite
     // expressions for the table side of lookups.
-- 
2.43.0


From 7dd8c3b399d6a6a87959bbd230032f6462b5be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:27 +0000
Subject: [PATCH 18/33] fix: read selector assignments of a verifying key in
 the format they were written

---
 halo2_proofs/src/plonk.rs                            | 2 +-
 halo2_proofs/src/plonk/circuit/compress_selectors.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 764f06b..d5410c0 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -119,7 +119,7 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader).unwrap()).collect::<Vec<_>>();
+        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader, format).unwrap()).collect::<Vec<_>>();
         let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
 
         Ok(Self::from_parts(
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index d50b391..07f744c 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -42,14 +42,14 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         Ok(())
     }
 
-    pub fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+    pub fn read<R: io::Read>(reader: &mut R, format: SerdeFormat) -> io::Result<Self> {
         let mut selector = [0u8; 4];
         reader.read_exact(&mut selector)?;
         let selector = u32::from_be_bytes(selector) as usize;
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, SerdeFormat::RawBytes).unwrap();
+        let expression = Expression::read(reader, format).unwrap();
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From 43c25fc3b15723d5cb4d5caca7a4b6800f105da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:27 +0000
Subject: [PATCH 19/33] fix: report truncated or invalid selector assignments
 of a verifying key as an error

---
 halo2_proofs/src/plonk.rs                            | 4 +++-
 halo2_proofs/src/plonk/circuit.rs                    | 2 +-
 halo2_proofs/src/plonk/circuit/compress_selectors.rs | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index d5410c0..03f40a1 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -119,7 +119,9 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader, format).unwrap()).collect::<Vec<_>>();
+        let selector_assignments = (0..length)
+            .map(|_| SelectorAssignment::read(reader, format))
+            .collect::<Result<Vec<_>, _>>()?;
         let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
 
         Ok(Self::from_parts(
diff --git a/halo2_proofs/src/plonk/circuit.rs b/halo2_proofs/src/plonk/circuit.rs
index 497da2e..275883c 100644
--- a/halo2_proofs/src/plonk/circuit.rs
+++ b/halo2_proofs/src/plonk/circuit.rs
@@ -782,7 +782,7 @@ impl<F: SerdePrimeField> Expression<F> {
         reader.read_exact(&mut typ)?;
         let expression = match typ[0] {
             0x00 => {
-                let scalar = F::read(reader, format).unwrap();
+                let scalar = F::read(reader, format)?;
                 Ok(Expression::Constant(scalar))
             }
             0x01 => {
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index 07f744c..95f5f0f 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -49,7 +49,7 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, format).unwrap();
+        let expression = Expression::read(reader, format)?;
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From c173005960fab4b74659f7e106243cf1f3392294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 20/33] fix: to_bytes of verifying and proving keys panicked

---
 halo2_proofs/src/plonk.rs | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 03f40a1..ca0c6f3 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -135,7 +135,7 @@ where
 
     /// Writes a verifying key to a vector of bytes using [`Self::write`].
     pub fn to_bytes(&self, format: SerdeFormat) -> Vec<u8> {
-        let mut bytes = Vec::<u8>::with_capacity(self.bytes_length());
+        let mut bytes = Vec::<u8>::new();
         Self::write(self, &mut bytes, format).expect("Writing to vector should not fail");
         bytes
     }
@@ -150,14 +150,6 @@ where
 }
 
 impl<C: CurveAffine> VerifyingKey<C> {
-    fn bytes_length(&self) -> usize {
-        // Xiaowen: TODO bytes_length cannot work due to CurveAffine doesn't have a serialization
-        // trait and hence size of selector_assignments cannot be calcualted.
-        panic!("Should not be called");
-        8 + (self.fixed_commitments.len() * C::default().to_bytes().as_ref().len())
-            + self.permutation.bytes_length()
-    }
-
     fn from_parts(
         domain: EvaluationDomain<C::Scalar>,
         fixed_commitments: Vec<C>,
@@ -265,18 +257,6 @@ impl<C: CurveAffine> ProvingKey<C> {
     pub fn get_vk(&self) -> &VerifyingKey<C> {
         &self.vk
     }
-
-    /// Gets the total number of bytes in the serialization of `self`
-    fn bytes_length(&self) -> usize {
-        let scalar_len = C::Scalar::default().to_repr().as_ref().len();
-        self.vk.bytes_length()
-            + 12
-            + scalar_len * (self.l0.len() + self.l_last.len() + self.l_active_row.len())
-            + polynomial_slice_byte_length(&self.fixed_values)
-            + polynomial_slice_byte_length(&self.fixed_polys)
-            //+ polynomial_slice_byte_length(&self.fixed_cosets)
-            + self.permutation.bytes_length()
-    }
 }
 
 impl<C: SerdeCurveAffine> ProvingKey<C>
@@ -344,7 +324,7 @@ where
 
     /// Writes a proving key to a vector of bytes using [`Self::write`].
     pub fn to_bytes(&self, format: SerdeFormat) -> Vec<u8> {
-        let mut bytes = Vec::<u8>::with_capacity(self.bytes_length());
+        let mut bytes = Vec::<u8>::new();
         Self::write(self, &mut bytes, format).expect("Writing to vector should not fail");
         bytes
     }
-- 
2.43.0


From 50e2f958747508617198fb7c7e3dc79e5b4ad3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:33 +0000
Subject: [PATCH 21/33] verif-hooks: constructor for prover queries (feature
 off by default)

---
 halo2_proofs/Cargo.toml        |  2 ++
 halo2_proofs/src/poly/query.rs | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/halo2_proofs/Cargo.toml b/halo2_proofs/Cargo.toml
index 0551e53..50d76f0 100644
--- a/halo2_proofs/Cargo.toml
+++ b/halo2_proofs/Cargo.toml
@@ -78,6 +78,8 @@ batch = ["rand_core/getrandom"]
 shplonk = []
 gwc = []
 phase-check = []
+# constructors for verification harnesses
+verif-hooks = []
 
 [lib]
 bench = false
diff --git a/halo2_proofs/src/poly/query.rs b/halo2_proofs/src/poly/query.rs
index d66a488..7f414b1 100644
--- a/halo2_proofs/src/poly/query.rs
+++ b/halo2_proofs/src/poly/query.rs
@@ -28,6 +28,18 @@ pub struct ProverQuery<'com, C: CurveAffine> {
     pub(crate) blind: Blind<C::Scalar>,
 }
 
+#[cfg(feature = "verif-hooks")]
+impl<'com, C: CurveAffine> ProverQuery<'com, C> {
+    /// Query of `poly`, committed to under `blind`, at `point`
+    pub fn new(
+        point: C::Scalar,
+        poly: &'com Polynomial<C::Scalar, Coeff>,
+        blind: Blind<C::Scalar>,
+    ) -> Self {
+        ProverQuery { point, poly, blind }
+    }
+}
+
 #[doc(hidden)]
 #[derive(Copy, Clone)]
 pub struct PolynomialPointer<'com, C: CurveAffine> {
-- 
2.43.0


From 390fa3e6a164d030440665eb14610196b527c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:33 +0000
Subject: [PATCH 22/33] fix: batch verification with a predictable factor
 accepted false proofs that cancel

AccumulatorStrategy separated the proofs of a batch by a constant (IPA) or by a
number drawn from a fixed seed (KZG): whoever knows it can write two false
proofs whose errors cancel. Derive the factor of each proof from a hash of
everything accumulated up to and including it.
---
 halo2_proofs/src/poly/ipa/msm.rs      | 20 +++++++++++++++++
 halo2_proofs/src/poly/ipa/strategy.rs | 23 +++++++++++++------
 halo2_proofs/src/poly/kzg/msm.rs      | 16 ++++++++++++++
 halo2_proofs/src/poly/kzg/strategy.rs | 32 +++++++++++++++++----------
 4 files changed, 72 insertions(+), 19 deletions(-)

diff --git a/halo2_proofs/src/poly/ipa/msm.rs b/halo2_proofs/src/poly/ipa/msm.rs
index 0f5b0e9..ba5d6de 100644
--- a/halo2_proofs/src/poly/ipa/msm.rs
+++ b/halo2_proofs/src/poly/ipa/msm.rs
@@ -210,6 +210,26 @@ impl<'a, C: CurveAffine> MSMIPA<'a, C> {
             self.g_scalars = Some(scalars.to_vec());
         }
     }
+    /// Feeds every term into `hash`.
+    pub(crate) fn hash_into(&self, hash: &mut blake2b_simd::State) {
+        use ff::PrimeField;
+
+        let mut part = |scalars: &[C::Scalar]| {
+            hash.update(&(scalars.len() as u64).to_le_bytes());
+            for scalar in scalars {
+                hash.update(scalar.to_repr().as_ref());
+            }
+        };
+        part(self.g_scalars.as_deref().unwrap_or(&[]));
+        part(self.w_scalar.as_ref().map_or(&[], core::slice::from_ref));
+        part(self.u_scalar.as_ref().map_or(&[], core::slice::from_ref));
+        part(&self.scalars());
+        for (x, (_, y)) in self.other.iter() {
+            hash.update(x.to_repr().as_ref());
+            hash.update(y.to_repr().as_ref());
+        }
+    }
+
     /// Add to `w_scalar`
     pub fn add_to_w_scalar(&mut self, scalar: C::Scalar) {
         self.w_scalar = self.w_scalar.map_or(Some(scalar), |a| Some(a + &scalar));
diff --git a/halo2_proofs/src/poly/ipa/strategy.rs b/halo2_proofs/src/poly/ipa/strategy.rs
index 6e3f96c..3938aec 100644
--- a/halo2_proofs/src/poly/ipa/strategy.rs
+++ b/halo2_proofs/src/poly/ipa/strategy.rs
@@ -17,7 +17,7 @@ use crate::{
 };
 use ff::Field;
 use group::Curve;
-use halo2curves::CurveAffine;
+use halo2curves::{CurveAffine, FieldExt};
 use rand_core::RngCore;
 
 /// Wrapper for verification accumulator
@@ -81,6 +81,8 @@ impl<'params, C: CurveAffine> GuardIPA<'params, C> {
 #[derive(Debug)]
 pub struct AccumulatorStrategy<'params, C: CurveAffine> {
     msm: MSMIPA<'params, C>,
+    /// Everything accumulated so far.
+    hash: blake2b_simd::State,
 }
 
 impl<'params, C: CurveAffine>
@@ -92,6 +94,7 @@ impl<'params, C: CurveAffine>
     fn new(params: &'params ParamsIPA<C>) -> Self {
         AccumulatorStrategy {
             msm: MSMIPA::new(params),
+            hash: blake2b_simd::State::new(),
         }
     }
 
@@ -99,12 +102,18 @@ impl<'params, C: CurveAffine>
         mut self,
         f: impl FnOnce(MSMIPA<'params, C>) -> Result<GuardIPA<'params, C>, Error>,
     ) -> Result<Self::Output, Error> {
-        self.msm.scale(C::Scalar::from(42));
-        let guard = f(self.msm)?;
-
-        Ok(Self {
-            msm: guard.use_challenges(),
-        })
+        let guard = f(MSMIPA::new(self.msm.params))?;
+        let mut msm = guard.use_challenges();
+
+        // The proofs of a batch are kept apart by a factor that nobody knows before the
+        // proof is fixed: a hash of it and of everything accumulated before.
+        msm.hash_into(&mut self.hash);
+        msm.scale(C::Scalar::from_bytes_wide(
+            self.hash.finalize().as_array(),
+        ));
+        self.msm.add_msm(&msm);
+
+        Ok(self)
     }
 
     /// Finalizes the batch and checks its validity.
diff --git a/halo2_proofs/src/poly/kzg/msm.rs b/halo2_proofs/src/poly/kzg/msm.rs
index 6920989..16f827f 100644
--- a/halo2_proofs/src/poly/kzg/msm.rs
+++ b/halo2_proofs/src/poly/kzg/msm.rs
@@ -148,6 +148,22 @@ impl<'a, E: MultiMillerLoop + Debug> DualMSM<'a, E> {
         self.right.add_msm(&other.right);
     }
 
+    /// Feeds every term of both channels into `hash`.
+    pub(crate) fn hash_into(&self, hash: &mut blake2b_simd::State) {
+        use ff::PrimeField;
+        use group::{prime::PrimeCurveAffine, GroupEncoding};
+
+        for msm in [&self.left, &self.right] {
+            let mut bases = vec![E::G1Affine::identity(); msm.bases.len()];
+            E::G1::batch_normalize(&msm.bases, &mut bases);
+            hash.update(&(bases.len() as u64).to_le_bytes());
+            for (scalar, base) in msm.scalars.iter().zip(bases.iter()) {
+                hash.update(scalar.to_repr().as_ref());
+                hash.update(base.to_bytes().as_ref());
+            }
+        }
+    }
+
     /// Performs final pairing check with given verifier params and two channel linear combination
     pub fn check(self) -> bool {
         let s_g2_prepared = E::G2Prepared::from(self.params.s_g2);
diff --git a/halo2_proofs/src/poly/kzg/strategy.rs b/halo2_proofs/src/poly/kzg/strategy.rs
index b169332..d54541b 100644
--- a/halo2_proofs/src/poly/kzg/strategy.rs
+++ b/halo2_proofs/src/poly/kzg/strategy.rs
@@ -19,7 +19,7 @@ use ff::Field;
 use group::Group;
 use halo2curves::{
     pairing::{Engine, MillerLoopResult, MultiMillerLoop},
-    CurveAffine,
+    CurveAffine, FieldExt,
 };
 
 /// Wrapper for linear verification accumulator
@@ -49,19 +49,24 @@ impl<'params, E: MultiMillerLoop + Debug> GuardKZG<'params, E> {
 #[derive(Clone, Debug)]
 pub struct AccumulatorStrategy<'params, E: Engine> {
     pub(crate) msm_accumulator: DualMSM<'params, E>,
+    /// Everything accumulated so far.
+    hash: blake2b_simd::State,
 }
 
 impl<'params, E: MultiMillerLoop + Debug> AccumulatorStrategy<'params, E> {
     /// Constructs an empty batch verifier
     pub fn new(params: &'params ParamsKZG<E>) -> Self {
-        AccumulatorStrategy {
-            msm_accumulator: DualMSM::new(params),
-        }
+        Self::with(DualMSM::new(params))
     }
 
     /// Constructs and initialized new batch verifier
     pub fn with(msm_accumulator: DualMSM<'params, E>) -> Self {
-        AccumulatorStrategy { msm_accumulator }
+        let mut hash = blake2b_simd::State::new();
+        msm_accumulator.hash_into(&mut hash);
+        AccumulatorStrategy {
+            msm_accumulator,
+            hash,
+        }
     }
 }
 
@@ -104,14 +109,17 @@ where
         mut self,
         f: impl FnOnce(V::MSMAccumulator) -> Result<V::Guard, Error>,
     ) -> Result<Self::Output, Error> {
-        self.msm_accumulator
-            .scale(E::Scalar::random(crate::get_rng()));
-
         // Guard is updated with new msm contributions
-        let guard = f(self.msm_accumulator)?;
-        Ok(Self {
-            msm_accumulator: guard.msm_accumulator,
-        })
+        let guard = f(DualMSM::new(self.msm_accumulator.params))?;
+        let mut msm = guard.msm_accumulator;
+
+        // The proofs of a batch are kept apart by a factor that nobody knows before the
+        // proof is fixed: a hash of it and of everything accumulated before.
+        msm.hash_into(&mut self.hash);
+        msm.scale(E::Scalar::from_bytes_wide(self.hash.finalize().as_array()));
+        self.msm_accumulator.add_msm(msm);
+
+        Ok(self)
     }
 
     fn finalize(self) -> bool {
-- 
2.43.0


From 6cae9f24a9a2247fca211977482026809acd9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:37 +0000
Subject: [PATCH 23/33] fix: openings claiming two values of one commitment at
 one point were accepted

The SHPLONK and IPA verifiers check one value per commitment and point; a
second claim about the same pair was dropped without being checked.
---
 halo2_proofs/src/poly/ipa/multiopen/verifier.rs    |  6 +++++-
 .../src/poly/kzg/multiopen/shplonk/verifier.rs     |  6 +++++-
 halo2_proofs/src/poly/query.rs                     | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/poly/ipa/multiopen/verifier.rs b/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
index 0c4888f..abf9f0d 100644
--- a/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
+++ b/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
@@ -13,7 +13,7 @@ use crate::poly::commitment::{Params, Verifier, MSM};
 use crate::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA, ParamsVerifierIPA};
 use crate::poly::ipa::msm::MSMIPA;
 use crate::poly::ipa::strategy::GuardIPA;
-use crate::poly::query::{CommitmentReference, VerifierQuery};
+use crate::poly::query::{is_consistent, CommitmentReference, VerifierQuery};
 use crate::poly::strategy::VerificationStrategy;
 use crate::poly::Error;
 use crate::transcript::{EncodedChallenge, TranscriptRead};
@@ -47,6 +47,10 @@ impl<'params, C: CurveAffine> Verifier<'params, IPACommitmentScheme<C>>
         'params: 'com,
         I: IntoIterator<Item = VerifierQuery<'com, C, MSMIPA<'params, C>>> + Clone,
     {
+        if !is_consistent(queries.clone()) {
+            return Err(Error::OpeningError);
+        }
+
         // Sample x_1 for compressing openings at the same point sets together
         let x_1: ChallengeX1<_> = transcript.squeeze_challenge_scalar();
 
diff --git a/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs b/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
index f6845f7..b1e9bfb 100644
--- a/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
+++ b/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
@@ -15,7 +15,7 @@ use crate::poly::kzg::msm::DualMSM;
 use crate::poly::kzg::msm::{PreMSM, MSMKZG};
 use crate::poly::kzg::strategy::{AccumulatorStrategy, GuardKZG, SingleStrategy};
 use crate::poly::query::Query;
-use crate::poly::query::{CommitmentReference, VerifierQuery};
+use crate::poly::query::{is_consistent, CommitmentReference, VerifierQuery};
 use crate::poly::strategy::VerificationStrategy;
 use crate::poly::{
     commitment::{Params, ParamsVerifier},
@@ -64,6 +64,10 @@ where
     where
         I: IntoIterator<Item = VerifierQuery<'com, E::G1Affine, MSMKZG<E>>> + Clone,
     {
+        if !is_consistent(queries.clone()) {
+            return Err(Error::OpeningError);
+        }
+
         let intermediate_sets = construct_intermediate_sets(queries);
         let (rotation_sets, super_point_set) = (
             intermediate_sets.rotation_sets,
diff --git a/halo2_proofs/src/poly/query.rs b/halo2_proofs/src/poly/query.rs
index 7f414b1..87f17e9 100644
--- a/halo2_proofs/src/poly/query.rs
+++ b/halo2_proofs/src/poly/query.rs
@@ -4,6 +4,7 @@ use super::commitment::{Blind, CommitmentScheme, Params, MSM};
 use crate::{
     arithmetic::eval_polynomial,
     poly::{commitment, Coeff, Polynomial},
+    Vec,
 };
 use ff::Field;
 use halo2curves::CurveAffine;
@@ -147,3 +148,16 @@ impl<'com, C: CurveAffine, M: MSM<C>> Query<C::Scalar> for VerifierQuery<'com, C
         self.commitment
     }
 }
+
+/// Whether no commitment is claimed to have two values at the same point. The openings
+/// cover one value for each commitment and point, so a second one would go unchecked.
+pub(crate) fn is_consistent<'com, C: CurveAffine, M: MSM<C> + 'com>(
+    queries: impl IntoIterator<Item = VerifierQuery<'com, C, M>>,
+) -> bool {
+    let queries: Vec<_> = queries.into_iter().collect();
+    queries.iter().enumerate().all(|(i, a)| {
+        queries[..i]
+            .iter()
+            .all(|b| a.commitment != b.commitment || a.point != b.point || a.eval == b.eval)
+    })
+}
-- 
2.43.0


From 900dfe7ba967794eef92723cb3b878688e422ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:55 +0000
Subject: [PATCH 24/33] fix: a table cell could be assigned twice, the second
 value replacing the first

---
 halo2_proofs/src/circuit/floor_planner/single_pass.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/halo2_proofs/src/circuit/floor_planner/single_pass.rs b/halo2_proofs/src/circuit/floor_planner/single_pass.rs
index 4d9f0da..7c9fba5 100644
--- a/halo2_proofs/src/circuit/floor_planner/single_pass.rs
+++ b/halo2_proofs/src/circuit/floor_planner/single_pass.rs
@@ -439,6 +439,9 @@ impl<'r, 'a, F: Field, CS: Assignment<F> + 'a> TableLayouter<F>
         }
 
         let entry = self.default_and_assigned.entry(column).or_default();
+        if entry.1.get(offset) == Some(&true) {
+            return Err(Error::Synthesis); // TODO better error
+        }
 
         let mut value = Value::unknown();
         self.cs.assign_fixed(
-- 
2.43.0


From c77d45b1419b2e3342fd4725e3091662b06a9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:55 +0000
Subject: [PATCH 25/33] fix: proving failed when the value of a fixed cell was
 copied to an advice cell

The prover never computed the value given to assign_fixed, so the returned cell
had an unknown value, and copying it into an advice column was refused although
the mock prover accepts the circuit.
---
 halo2_proofs/src/plonk/prover.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/plonk/prover.rs b/halo2_proofs/src/plonk/prover.rs
index b0a49da..a789754 100644
--- a/halo2_proofs/src/plonk/prover.rs
+++ b/halo2_proofs/src/plonk/prover.rs
@@ -225,7 +225,7 @@ pub fn create_proof<
             _: A,
             _: Column<Fixed>,
             _: usize,
-            _: V,
+            to: V,
         ) -> Result<(), Error>
         where
             V: FnOnce() -> Value<VR>,
@@ -233,7 +233,9 @@ pub fn create_proof<
             A: FnOnce() -> AR,
             AR: Into<String>,
         {
-            // We only care about advice columns here
+            // We only care about advice columns here, but the assigned cell carries its
+            // value, which may be copied to one of them.
+            let _ = to();
 
             Ok(())
         }
-- 
2.43.0


From e96ddcfc507ee29cbdd0b1412aaa13bc45727e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:43 +0000
Subject: [PATCH 26/33] fix: the sha256 gadget (feature unstable) did not
 compile without std

---
 halo2_gadgets/src/sha256.rs                                      | 1 +
 halo2_gadgets/src/sha256/table16.rs                              | 1 +
 halo2_gadgets/src/sha256/table16/compression.rs                  | 1 +
 halo2_gadgets/src/sha256/table16/compression/compression_util.rs | 1 +
 halo2_gadgets/src/sha256/table16/gates.rs                        | 1 +
 halo2_gadgets/src/sha256/table16/message_schedule.rs             | 1 +
 .../src/sha256/table16/message_schedule/schedule_util.rs         | 1 +
 halo2_gadgets/src/sha256/table16/message_schedule/subregion1.rs  | 1 +
 halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs  | 1 +
 halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs  | 1 +
 halo2_gadgets/src/sha256/table16/spread_table.rs                 | 1 +
 halo2_gadgets/src/sha256/table16/util.rs                         | 1 +
 12 files changed, 12 insertions(+)

diff --git a/halo2_gadgets/src/sha256.rs b/halo2_gadgets/src/sha256.rs
index 1825426..d09ffc7 100644
--- a/halo2_gadgets/src/sha256.rs
+++ b/halo2_gadgets/src/sha256.rs
@@ -2,6 +2,7 @@
 //!
 //! [SHA-256]: https://tools.ietf.org/html/rfc6234
 
+use crate::{vec, Vec};
 use core::cmp::min;
 use core::convert::TryInto;
 use core::fmt;
diff --git a/halo2_gadgets/src/sha256/table16.rs b/halo2_gadgets/src/sha256/table16.rs
index d37e3c1..caea1ba 100644
--- a/halo2_gadgets/src/sha256/table16.rs
+++ b/halo2_gadgets/src/sha256/table16.rs
@@ -1,3 +1,4 @@
+use crate::String;
 use core::convert::TryInto;
 use core::marker::PhantomData;
 
diff --git a/halo2_gadgets/src/sha256/table16/compression.rs b/halo2_gadgets/src/sha256/table16/compression.rs
index 651d48f..3aeab56 100644
--- a/halo2_gadgets/src/sha256/table16/compression.rs
+++ b/halo2_gadgets/src/sha256/table16/compression.rs
@@ -1,3 +1,4 @@
+use crate::{vec, Vec};
 use super::{
     super::DIGEST_SIZE,
     util::{i2lebsp, lebs2ip},
diff --git a/halo2_gadgets/src/sha256/table16/compression/compression_util.rs b/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
index ee21629..6961c5d 100644
--- a/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
@@ -1,3 +1,4 @@
+use crate::vec;
 use super::{
     AbcdVar, CompressionConfig, EfghVar, RoundWord, RoundWordA, RoundWordDense, RoundWordE,
     RoundWordSpread, State, UpperSigmaVar,
diff --git a/halo2_gadgets/src/sha256/table16/gates.rs b/halo2_gadgets/src/sha256/table16/gates.rs
index e28ffa0..89fa294 100644
--- a/halo2_gadgets/src/sha256/table16/gates.rs
+++ b/halo2_gadgets/src/sha256/table16/gates.rs
@@ -1,3 +1,4 @@
+use crate::{vec, Vec};
 use halo2_proofs::{arithmetic::FieldExt, plonk::Expression};
 
 pub struct Gate<F: FieldExt>(pub Expression<F>);
diff --git a/halo2_gadgets/src/sha256/table16/message_schedule.rs b/halo2_gadgets/src/sha256/table16/message_schedule.rs
index f698452..05b392c 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule.rs
@@ -1,3 +1,4 @@
+use crate::Vec;
 use core::convert::TryInto;
 
 use super::{super::BLOCK_SIZE, AssignedBits, BlockWord, SpreadInputs, Table16Assignment, ROUNDS};
diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/schedule_util.rs b/halo2_gadgets/src/sha256/table16/message_schedule/schedule_util.rs
index 79a9fa2..ed34e3c 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/schedule_util.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/schedule_util.rs
@@ -1,3 +1,4 @@
+use crate::format;
 use super::super::AssignedBits;
 use super::MessageScheduleConfig;
 use halo2_proofs::{
diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/subregion1.rs b/halo2_gadgets/src/sha256/table16/message_schedule/subregion1.rs
index d1e49bc..40181f6 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/subregion1.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/subregion1.rs
@@ -1,3 +1,4 @@
+use crate::{vec, Vec};
 use super::super::{util::*, AssignedBits, BlockWord, SpreadVar, SpreadWord, Table16Assignment};
 use super::{schedule_util::*, MessageScheduleConfig};
 use halo2_proofs::{
diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs b/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
index 69b9fef..5f9b9fc 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
@@ -1,3 +1,4 @@
+use crate::{format, vec, Vec};
 use super::super::{util::*, AssignedBits, Bits, SpreadVar, SpreadWord, Table16Assignment};
 use super::{schedule_util::*, MessageScheduleConfig, MessageWord};
 use halo2_proofs::{
diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs b/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
index 35b0bf8..024b94c 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
@@ -1,3 +1,4 @@
+use crate::{format, vec, Vec};
 use super::super::{util::*, AssignedBits, Bits, SpreadVar, SpreadWord, Table16Assignment};
 use super::{schedule_util::*, MessageScheduleConfig, MessageWord};
 use halo2_proofs::{
diff --git a/halo2_gadgets/src/sha256/table16/spread_table.rs b/halo2_gadgets/src/sha256/table16/spread_table.rs
index aced7f7..325ac1e 100644
--- a/halo2_gadgets/src/sha256/table16/spread_table.rs
+++ b/halo2_gadgets/src/sha256/table16/spread_table.rs
@@ -1,3 +1,4 @@
+use crate::vec;
 use super::{util::*, AssignedBits};
 use halo2_proofs::{
     arithmetic::FieldExt,
diff --git a/halo2_gadgets/src/sha256/table16/util.rs b/halo2_gadgets/src/sha256/table16/util.rs
index 6a790d3..19af1e6 100644
--- a/halo2_gadgets/src/sha256/table16/util.rs
+++ b/halo2_gadgets/src/sha256/table16/util.rs
@@ -1,3 +1,4 @@
+use crate::Vec;
 use halo2_proofs::circuit::Value;
 
 pub const MASK_EVEN_32: u32 = 0x55555555;
-- 
2.43.0


From 38d01e16d3ac1205ada0fa2543c97e5448731526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 27/33] fix: the Sinsemilla chip computed undefined hashes

Hashing a message whose incomplete additions meet equal or opposite points
returned a made-up point, and the assignment satisfied the circuit when the
accumulator equals the generator. Raise the documented synthesis error.
---
 halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs b/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
index 1b1ab59..7d252a7 100644
--- a/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
+++ b/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
@@ -317,6 +317,9 @@ where
             // Assign `x_p`
             region.assign_advice(|| "x_p", config.double_and_add.x_p, offset + row, || x_p)?;
 
+            // Incomplete addition is undefined when `x_a = x_p`, and then so is the hash.
+            (x_a.value() - x_p).error_if_known_and(|diff| diff.is_zero_vartime())?;
+
             // Compute and assign `lambda_1`
             let lambda_1 = {
                 let lambda_1 = (y_a.0 - y_p) * (x_a.value() - x_p).invert();
@@ -335,6 +338,9 @@ where
             // Compute `x_r`
             let x_r = lambda_1.square() - x_a.value() - x_p;
 
+            // Nor is it defined when `x_a = x_r`.
+            (x_a.value() - x_r).error_if_known_and(|diff| diff.is_zero_vartime())?;
+
             // Compute and assign `lambda_2`
             let lambda_2 = {
                 let lambda_2 =
-- 
2.43.0


From eee22206f2e7a9a7264c1e334a4c41f043e1d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 28/33] fix: Sinsemilla messages of exactly the maximum number
 of words panicked

---
 halo2_gadgets/src/sinsemilla/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2_gadgets/src/sinsemilla/message.rs b/halo2_gadgets/src/sinsemilla/message.rs
index 638a971..1e31ba6 100644
--- a/halo2_gadgets/src/sinsemilla/message.rs
+++ b/halo2_gadgets/src/sinsemilla/message.rs
@@ -16,7 +16,7 @@ impl<F: FieldExt + PrimeFieldBits, const K: usize, const MAX_WORDS: usize>
 {
     fn from(pieces: Vec<MessagePiece<F, K>>) -> Self {
         // A message cannot contain more than `MAX_WORDS` words.
-        assert!(pieces.iter().map(|piece| piece.num_words()).sum::<usize>() < MAX_WORDS);
+        assert!(pieces.iter().map(|piece| piece.num_words()).sum::<usize>() <= MAX_WORDS);
         Message(pieces)
     }
 }
-- 
2.43.0


From eb2ddae15bb638bec73c489c13b156c75f8fc29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 29/33] fix: Sha256::update did not decompose the state again
 between blocks given in several updates

---
 halo2_gadgets/src/sha256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/halo2_gadgets/src/sha256.rs b/halo2_gadgets/src/sha256.rs
index d09ffc7..e1f4058 100644
--- a/halo2_gadgets/src/sha256.rs
+++ b/halo2_gadgets/src/sha256.rs
@@ -89,6 +89,8 @@ impl<F: FieldExt, Sha256Chip: Sha256Instructions<F>> Sha256<F, Sha256Chip> {
         mut layouter: impl Layouter<F>,
         mut data: &[Sha256Chip::BlockWord],
     ) -> Result<(), Error> {
+        // The state is initialized for the first block only.
+        let first_block = self.length / 32 < BLOCK_SIZE;
         self.length += data.len() * 32;
 
         // Fill the current block, if possible.
@@ -103,6 +105,9 @@ impl<F: FieldExt, Sha256Chip: Sha256Instructions<F>> Sha256<F, Sha256Chip> {
         }
 
         // Process the now-full current block.
+        if !first_block {
+            self.state = self.chip.initialization(&mut layouter, &self.state)?;
+        }
         self.state = self.chip.compress(
             &mut layouter,
             &self.state,
-- 
2.43.0


From b9e8f1d559aaf06305525d22344822dd081ecb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:03 +0000
Subject: [PATCH 30/33] verif-hooks: let a harness replace the vectors a prover
 chooses (feature off by default)

---
 halo2_proofs/src/lib.rs                      |  2 +
 halo2_proofs/src/plonk/lookup/prover.rs      | 17 ++++-
 halo2_proofs/src/plonk/permutation/prover.rs |  2 +
 halo2_proofs/src/verif_hooks.rs              | 68 ++++++++++++++++++++
 4 files changed, 87 insertions(+), 2 deletions(-)
 create mode 100644 halo2_proofs/src/verif_hooks.rs

diff --git a/halo2_proofs/src/lib.rs b/halo2_proofs/src/lib.rs
index 6560f8d..4d40363 100644
--- a/halo2_proofs/src/lib.rs
+++ b/halo2_proofs/src/lib.rs
@@ -55,6 +55,8 @@ pub mod transcript;
 
 pub mod dev;
 pub mod helpers;
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks;
 pub use helpers::SerdeFormat;
 
 pub(crate) fn get_rng() -> rand_chacha::ChaCha20Rng {
diff --git a/halo2_proofs/src/plonk/lookup/prover.rs b/halo2_proofs/src/plonk/lookup/prover.rs
index 7060a2f..26febab 100644
--- a/halo2_proofs/src/plonk/lookup/prover.rs
+++ b/halo2_proofs/src/plonk/lookup/prover.rs
@@ -116,14 +116,21 @@ impl<F: FieldExt> Argument<F> {
         let compressed_table_expression = compress_expressions(&self.table_expressions);
 
         // Permute compressed (InputExpression, TableExpression) pair
-        let (permuted_input_expression, permuted_table_expression) = permute_expression_pair(
+        let permuted = permute_expression_pair(
             pk,
             params,
             domain,
             &mut rng,
             &compressed_input_expression,
             &compressed_table_expression,
-        )?;
+        );
+        #[cfg(feature = "verif-hooks")]
+        let permuted = crate::verif_hooks::permuted(
+            permuted,
+            &compressed_input_expression,
+            &compressed_table_expression,
+        );
+        let (permuted_input_expression, permuted_table_expression) = permuted?;
 
         // Closure to construct commitment to vector of values
         let mut commit_values = |values: &Polynomial<C::Scalar, LagrangeCoeff>| {
@@ -249,6 +256,12 @@ impl<C: CurveAffine> Permuted<C> {
             .chain((0..blinding_factors).map(|_| C::Scalar::random(&mut rng)))
             .collect::<Vec<_>>();
         assert_eq!(z.len(), params.n() as usize);
+        #[cfg(feature = "verif-hooks")]
+        let z = {
+            let mut z = z;
+            crate::verif_hooks::cheat("lookup product", &mut z);
+            z
+        };
         let z = pk.vk.domain.lagrange_from_vec(z);
 
         #[cfg(feature = "sanity-checks")]
diff --git a/halo2_proofs/src/plonk/permutation/prover.rs b/halo2_proofs/src/plonk/permutation/prover.rs
index 175a4a6..3200de3 100644
--- a/halo2_proofs/src/plonk/permutation/prover.rs
+++ b/halo2_proofs/src/plonk/permutation/prover.rs
@@ -162,6 +162,8 @@ impl Argument {
             for z in &mut z[params.n() as usize - blinding_factors..] {
                 *z = C::Scalar::random(&mut rng);
             }
+            #[cfg(feature = "verif-hooks")]
+            crate::verif_hooks::cheat("permutation product", &mut z.values);
             // Set new last_z
             last_z = z[params.n() as usize - (blinding_factors + 1)];
 
diff --git a/halo2_proofs/src/verif_hooks.rs b/halo2_proofs/src/verif_hooks.rs
new file mode 100644
index 0000000..215a048
--- /dev/null
+++ b/halo2_proofs/src/verif_hooks.rs
@@ -0,0 +1,68 @@
+//! Lets a verification harness play a cheating prover: `create_proof` shows the vectors that the
+//! arguments let a prover choose to the installed function, which may replace them.
+extern crate std;
+
+use crate::plonk::Error;
+use crate::poly::{LagrangeCoeff, Polynomial};
+use alloc::{boxed::Box, vec::Vec};
+use core::any::Any;
+use core::cell::RefCell;
+use ff::Field;
+
+/// Receives the name of the argument and a `&mut Vec<F>` or a `&mut Permuted<F>`
+pub type Cheat = Box<dyn FnMut(&'static str, &mut dyn Any)>;
+
+std::thread_local! {
+    static CHEAT: RefCell<Option<Cheat>> = RefCell::new(None);
+}
+
+/// The compressed expressions of a lookup, and their permuted versions if there are any
+#[derive(Debug)]
+pub struct Permuted<F> {
+    /// compressed input expression
+    pub input: Vec<F>,
+    /// compressed table expression
+    pub table: Vec<F>,
+    /// the permuted input and table
+    pub permuted: Option<(Vec<F>, Vec<F>)>,
+}
+
+/// Installs a function for the current thread
+pub fn set_cheat(f: Option<Cheat>) {
+    CHEAT.with(|c| *c.borrow_mut() = f);
+}
+
+pub(crate) fn cheat(what: &'static str, v: &mut dyn Any) {
+    CHEAT.with(|c| {
+        if let Some(f) = c.borrow_mut().as_mut() {
+            f(what, v)
+        }
+    })
+}
+
+pub(crate) type Pair<F> = (Polynomial<F, LagrangeCoeff>, Polynomial<F, LagrangeCoeff>);
+
+pub(crate) fn permuted<F: Field>(
+    honest: Result<Pair<F>, Error>,
+    input: &Polynomial<F, LagrangeCoeff>,
+    table: &Polynomial<F, LagrangeCoeff>,
+) -> Result<Pair<F>, Error> {
+    let mut p = Permuted {
+        input: input.values.clone(),
+        table: table.values.clone(),
+        permuted: honest
+            .as_ref()
+            .ok()
+            .map(|(a, s)| (a.values.clone(), s.values.clone())),
+    };
+    cheat("lookup permutation", &mut p);
+    match p.permuted {
+        Some((a, s)) => {
+            let (mut x, mut y) = (input.clone(), table.clone());
+            x.values = a;
+            y.values = s;
+            Ok((x, y))
+        }
+        None => honest,
+    }
+}
-- 
2.43.0


From 41f4b78748b0ecbc0d756457ee51ef1881534e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:18 +0000
Subject: [PATCH 31/33] fix: the incomplete rows of variable-base
 multiplication were not tied to the base

x_p and y_p were only constrained to stay constant over the rows, so a prover could run the double-and-add of the incomplete rows with another point.
---
 halo2_gadgets/src/ecc/chip/mul/incomplete.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
index 9d99759..d5247bd 100644
--- a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
@@ -82,6 +82,8 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
     ) -> Self {
         meta.enable_equality(z);
         meta.enable_equality(lambda_1);
+        meta.enable_equality(x_p);
+        meta.enable_equality(y_p);
 
         let config = Self {
             q_mul_1: meta.selector(),
@@ -304,9 +306,16 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
             z = region.assign_advice(|| "z", self.z, row + offset, || z_val)?;
             zs.push(Z(z.clone()));
 
-            // Assign `x_p`, `y_p`
-            region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
-            region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            // Assign `x_p`, `y_p`. The gates keep them constant over the rows; the first
+            // row has to be the base itself.
+            if row == 0 {
+                base.x
+                    .copy_advice(|| "x_p", region, self.double_and_add.x_p, row + offset)?;
+                base.y.copy_advice(|| "y_p", region, self.y_p, row + offset)?;
+            } else {
+                region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
+                region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            }
 
             // If the bit is set, use `y`; if the bit is not set, use `-y`
             let y_p = y_p
-- 
2.43.0


From b9584145aae1b63f377761644d769468b6ee11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:18 +0000
Subject: [PATCH 32/33] fix: CircuitCost::marginal_proof_size overflowed for
 circuits without equality columns

---
 halo2_proofs/src/dev/cost.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/dev/cost.rs b/halo2_proofs/src/dev/cost.rs
index 6979568..959b8d6 100644
--- a/halo2_proofs/src/dev/cost.rs
+++ b/halo2_proofs/src/dev/cost.rs
@@ -246,8 +246,8 @@ impl<G: PrimeGroup, ConcreteCircuit: Circuit<G::Scalar>> CircuitCost<G, Concrete
 
             // Global permutation argument:
             // - chunks commitments per instance
-            // - 2*chunks + (chunks - 1) evals per instance
-            equality: ProofContribution::new(chunks, 3 * chunks - 1),
+            // - 2*chunks + (chunks - 1) evals per instance (none without chunks)
+            equality: ProofContribution::new(chunks, (3 * chunks).saturating_sub(1)),
 
             _marker: PhantomData::default(),
         }
-- 
2.43.0


From 5688f4bb952701aee97b8f23b787bd612bd0a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:18 +0000
Subject: [PATCH 33/33] fix: CircuitCost counted point sets of lookup and
 permutation arguments that do not exist

---
 halo2_proofs/src/dev/cost.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/dev/cost.rs b/halo2_proofs/src/dev/cost.rs
index 959b8d6..cd50063 100644
--- a/halo2_proofs/src/dev/cost.rs
+++ b/halo2_proofs/src/dev/cost.rs
@@ -194,15 +194,22 @@ impl<G: PrimeGroup, ConcreteCircuit: Circuit<G::Scalar>> CircuitCost<G, Concrete
             point_sets.insert(query_set);
         }
 
+        // Include the vanishing argument in point sets; the fixed part of the permutation
+        // argument and the permuted_table_poly of lookups are opened there as well.
+        point_sets.insert(vec![0]);
+
         // Include lookup polynomials in point sets:
-        point_sets.insert(vec![0, 1]); // product_poly
-        point_sets.insert(vec![-1, 0]); // permuted_input_poly
-        point_sets.insert(vec![0]); // permuted_table_poly
+        if !cs.lookups.is_empty() {
+            point_sets.insert(vec![0, 1]); // product_poly
+            point_sets.insert(vec![-1, 0]); // permuted_input_poly
+        }
 
         // Include permutation polynomials in point sets.
-        point_sets.insert(vec![0, 1]); // permutation_product_poly
         let max_deg = cs.degree();
         let permutation_cols = cs.permutation.get_columns().len();
+        if permutation_cols > 0 {
+            point_sets.insert(vec![0, 1]); // permutation_product_poly
+        }
         if permutation_cols > max_deg - 2 {
             // permutation_product_poly for chaining chunks.
             point_sets.insert(vec![-((cs.blinding_factors() + 1) as i32), 0, 1]);
-- 
2.43.0

