From 9d250104a88b21e388d017cc21b86b2cdd51d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 01/37] fix: encode f32.const immediates as four bytes

---
 src/back_end/float_encoding.rs    | 4 ++++
 src/back_end/wasm_instructions.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/back_end/float_encoding.rs b/src/back_end/float_encoding.rs
index a42cfe9..adfebd4 100644
--- a/src/back_end/float_encoding.rs
+++ b/src/back_end/float_encoding.rs
@@ -1,3 +1,7 @@
 pub fn encode_float(value: f64) -> Vec<u8> {
     value.to_le_bytes().to_vec()
 }
+
+pub fn encode_single_float(value: f32) -> Vec<u8> {
+    value.to_le_bytes().to_vec()
+}
diff --git a/src/back_end/wasm_instructions.rs b/src/back_end/wasm_instructions.rs
index 91f1d49..f53cb8a 100644
--- a/src/back_end/wasm_instructions.rs
+++ b/src/back_end/wasm_instructions.rs
@@ -1,4 +1,4 @@
-use crate::back_end::float_encoding::encode_float;
+use crate::back_end::float_encoding::{encode_float, encode_single_float};
 use crate::back_end::integer_encoding::{encode_signed_int, encode_unsigned_int};
 use crate::back_end::to_bytes::ToBytes;
 use crate::back_end::vector_encoding::encode_vector;
@@ -745,7 +745,7 @@ impl ToBytes for WasmInstruction {
             }
             WasmInstruction::F32Const { z } => {
                 let mut bytes = vec![0x43];
-                bytes.append(&mut encode_float(*z as f64));
+                bytes.append(&mut encode_single_float(*z));
                 bytes
             }
             WasmInstruction::F64Const { z } => {
-- 
2.43.0


From d0c23a8e9cb6354515236e412cab970fce204200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 02/37] fix: give integer constants type int whenever int can
 represent them

---
 src/middle_end/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index dc5bfdd..76c401a 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -27,8 +27,8 @@ impl Constant {
                     -128..=127 => IrType::I8,
                     0..=65_535 => IrType::U16,
                     -32_768..=32_767 => IrType::I16,
-                    0..=4_294_967_296 => IrType::U32,
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
+                    0..=4_294_967_295 => IrType::U32,
                     0..=18_446_744_073_709_551_615 => IrType::U64,
                     _ => IrType::I64,
                 }
@@ -40,8 +40,8 @@ impl Constant {
     pub fn get_type_minimum_i32(&self) -> IrType {
         match self {
             Constant::Int(i) => match i {
-                0..=4_294_967_296 => IrType::U32,
                 -2_147_483_648..=2_147_483_647 => IrType::I32,
+                0..=4_294_967_295 => IrType::U32,
                 0..=18_446_744_073_709_551_615 => IrType::U64,
                 _ => IrType::I64,
             },
-- 
2.43.0


From af3cebdfe0083fba749ccbd1a10df46933833143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 03/37] fix: convert signed char and short to floating point
 through signed types

---
 src/middle_end/type_conversions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 5f140c9..ccfa072 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -321,7 +321,7 @@ pub fn get_type_conversion_instrs(
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() {
+            if dest_type.is_signed_integral() || matches!(dest_type, IrType::F32 | IrType::F64) {
                 instrs.push(Instruction::I8toI16(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
@@ -385,7 +385,7 @@ pub fn get_type_conversion_instrs(
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() {
+            if dest_type.is_signed_integral() || matches!(dest_type, IrType::F32 | IrType::F64) {
                 instrs.push(Instruction::I16toI32(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
-- 
2.43.0


From 679fe2796abd17fc6bfdabd30ab646f989def29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 04/37] fix: load integer constants of floating type as
 floating constants

---
 src/back_end/memory_operations.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/back_end/memory_operations.rs b/src/back_end/memory_operations.rs
index 06bbbac..2761865 100644
--- a/src/back_end/memory_operations.rs
+++ b/src/back_end/memory_operations.rs
@@ -182,15 +182,11 @@ pub fn load_constant(
         },
         IrType::F32 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F32Const { z: z as f32 }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F32Const { z: n as f32 }),
         },
         IrType::F64 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F64Const { z }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F64Const { z: n as f64 }),
         },
         t => {
             debug!("{}", t);
-- 
2.43.0


From e938446d8dfb0f4d8f4011ede2e9b08ff6b8379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 05/37] fix: test operands of logical operators at their own
 type

---
 src/back_end/target_code_generation.rs | 66 +++++++-------------------
 src/middle_end/ast_to_ir.rs            |  4 +-
 2 files changed, 19 insertions(+), 51 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 887ba25..9f63e23 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -635,12 +635,12 @@ fn convert_ir_instr_to_wasm(
             // logical not is implemented as a test-for-zero and set
             //
             // load src
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let src_type = src.get_type(prog_metadata).unwrap();
 
             let mut temp_instrs = Vec::new();
             load_src(
                 src,
-                dest_type.to_owned(),
+                src_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
@@ -648,7 +648,7 @@ fn convert_ir_instr_to_wasm(
 
             // logical not
             // test if src is zero
-            match dest_type {
+            match src_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1205,16 +1205,17 @@ fn convert_ir_instr_to_wasm(
             //   bitwise AND
             let mut temp_instrs = Vec::new();
             // load srcs onto wasm stack
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let left_type = left_src.get_type(prog_metadata).unwrap();
+            let right_type = right_src.get_type(prog_metadata).unwrap();
             load_src(
                 left_src,
-                dest_type.to_owned(),
+                left_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it left_src is zero
-            match dest_type {
+            match left_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1249,13 +1250,13 @@ fn convert_ir_instr_to_wasm(
 
             load_src(
                 right_src,
-                dest_type.to_owned(),
+                right_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it right_src is zero
-            match dest_type {
+            match right_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1289,24 +1290,7 @@ fn convert_ir_instr_to_wasm(
             });
 
             // bitwise AND
-            match dest_type {
-                IrType::I8
-                | IrType::U8
-                | IrType::I16
-                | IrType::U16
-                | IrType::I32
-                | IrType::U32
-                | IrType::PointerTo(_)
-                | IrType::ArrayOf(_, _) => {
-                    temp_instrs.push(WasmInstruction::I32And);
-                }
-                IrType::I64 | IrType::U64 => {
-                    temp_instrs.push(WasmInstruction::I64And);
-                }
-                _ => {
-                    unreachable!()
-                }
-            }
+            temp_instrs.push(WasmInstruction::I32And);
 
             // store to dest
             store_var(
@@ -1324,17 +1308,18 @@ fn convert_ir_instr_to_wasm(
             //   bitwise OR
             let mut temp_instrs = Vec::new();
             // load srcs onto wasm stack
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let left_type = left_src.get_type(prog_metadata).unwrap();
+            let right_type = right_src.get_type(prog_metadata).unwrap();
 
             load_src(
                 left_src,
-                dest_type.to_owned(),
+                left_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it left_src is zero
-            match dest_type {
+            match left_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1369,13 +1354,13 @@ fn convert_ir_instr_to_wasm(
 
             load_src(
                 right_src,
-                dest_type.to_owned(),
+                right_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it right_src is zero
-            match dest_type {
+            match right_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1409,24 +1394,7 @@ fn convert_ir_instr_to_wasm(
             });
 
             // bitwise OR
-            match dest_type {
-                IrType::I8
-                | IrType::U8
-                | IrType::I16
-                | IrType::U16
-                | IrType::I32
-                | IrType::U32
-                | IrType::PointerTo(_)
-                | IrType::ArrayOf(_, _) => {
-                    temp_instrs.push(WasmInstruction::I32Or);
-                }
-                IrType::I64 | IrType::U64 => {
-                    temp_instrs.push(WasmInstruction::I64Or);
-                }
-                _ => {
-                    unreachable!()
-                }
-            }
+            temp_instrs.push(WasmInstruction::I32Or);
 
             // store to dest
             store_var(
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b59e47..67a1a06 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1491,8 +1491,8 @@ pub fn convert_expression_to_ir(
                             "Logical not of a non-scalar type",
                         ));
                     }
-                    // dest type is same as src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    // result is always int 0 or 1
+                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 _ => unreachable!("other cases handled separately"),
-- 
2.43.0


From 58b89c5eb1d66880edbf04c02048b08d67e04350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 06/37] fix: sizeof an array counts bytes, not elements

---
 src/middle_end/ast_to_ir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 67a1a06..fb4c4bd 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1504,7 +1504,7 @@ pub fn convert_expression_to_ir(
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
 
             let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_size()?
+                expr_var_type.get_array_byte_size(&prog.program_metadata)?
             } else {
                 expr_var_type.get_byte_size(&prog.program_metadata)
             };
@@ -1532,7 +1532,7 @@ pub fn convert_expression_to_ir(
                 Some(x) => x,
             };
             let type_size = if type_info.is_array_type() {
-                type_info.get_array_size()?
+                type_info.get_array_byte_size(&prog.program_metadata)?
             } else {
                 type_info.get_byte_size(&prog.program_metadata)
             };
-- 
2.43.0


From ceb83df832c4a4ebb35941bc558068185e92b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:16 +0000
Subject: [PATCH 07/37] fix: keep copied tail call arguments clear of the frame
 being written

---
 src/back_end/stack_frame_operations.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index d5b2e1b..a7ea797 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -392,6 +392,19 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
     let mut param_var_stack_ptr_offsets = HashMap::new();
     for param_index in 0..params.len() {
         let param = params.get(param_index).unwrap();
+        if let Src::Constant(constant) = param {
+            // constants need no temp copy, but leave a gap for them: a var param's temp copy must
+            // never be below its final position, or it's overwritten before it's moved there
+            let param_type = if param_index >= param_types.len() {
+                constant.get_type_minimum_i32()
+            } else {
+                param_types.get(param_index).unwrap().to_owned()
+            };
+            temp_stack_ptr_offset += param_type
+                .get_byte_size(prog_metadata)
+                .get_compile_time_value()
+                .unwrap();
+        }
         if let Src::Var(var_id) = param {
             // offset from top of stack to store param
             load_temp_frame_ptr(wasm_instrs);
-- 
2.43.0


From 3ddf5ae52a8c02d1e48ed2f526697e132ef08670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 08/37] fix: apply several tail call replacements from the last
 to the first

---
 src/middle_end/middle_end_optimiser/tail_call_optimise.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5b2106c..07ff518 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -97,7 +97,8 @@ pub fn tail_call_optimise(
         }
     }
 
-    for (replace_index, remove_count, new_instrs) in replace_instrs {
+    // replace from last to first, so that the indices of earlier instrs stay valid
+    for (replace_index, remove_count, new_instrs) in replace_instrs.into_iter().rev() {
         for _ in 0..remove_count {
             fun_instrs.remove(replace_index);
         }
-- 
2.43.0


From 817593b184d0bcf6d30d0dd92beb561d87a80983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:11 +0000
Subject: [PATCH 09/37] fix: removing an instruction from the flow graph joins
 its own neighbours only

---
 src/back_end/dataflow_analysis/flowgraph.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index de93829..078c74d 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -61,13 +61,16 @@ impl Flowgraph {
         self.successors.remove(instr_id);
         self.predecessors.remove(instr_id);
 
-        for successor_id in self.successors.keys() {
-            self.predecessors
-                .insert(successor_id.to_owned(), predecessors.to_owned());
+        // connect each predecessor to each successor, keeping all their other edges
+        for successor_id in &successors {
+            let successor_predecessors = self.predecessors.get_mut(successor_id).unwrap();
+            successor_predecessors.remove(instr_id);
+            successor_predecessors.extend(predecessors.to_owned());
         }
-        for predecessor_id in self.predecessors.keys() {
-            self.successors
-                .insert(predecessor_id.to_owned(), successors.to_owned());
+        for predecessor_id in &predecessors {
+            let predecessor_successors = self.successors.get_mut(predecessor_id).unwrap();
+            predecessor_successors.remove(instr_id);
+            predecessor_successors.extend(successors.to_owned());
         }
 
         if self.entries.contains(instr_id) {
-- 
2.43.0


From abff8471ee87450b7badf8b3d20f02e38d474dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 10/37] fix: give a constant argument of a tail-recursive call
 its parameter's type

---
 .../middle_end_optimiser/tail_call_optimise.rs     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 07ff518..2967119 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -45,11 +45,17 @@ pub fn tail_call_optimise(
                                 for param_i in 0..params.len() {
                                     let new_param_src = params.get(param_i).unwrap();
                                     let temp_var = prog_metadata.new_var(ValueType::RValue);
+                                    // constants are passed as the type of the param
+                                    let temp_var_type = match new_param_src {
+                                        Src::Constant(_) => {
+                                            let param_var =
+                                                param_var_mappings.get(param_i).unwrap();
+                                            prog_metadata.get_var_type(param_var).unwrap()
+                                        }
+                                        _ => new_param_src.get_type(prog_metadata).unwrap(),
+                                    };
                                     prog_metadata
-                                        .add_var_type(
-                                            temp_var.to_owned(),
-                                            new_param_src.get_type(prog_metadata).unwrap(),
-                                        )
+                                        .add_var_type(temp_var.to_owned(), temp_var_type)
                                         .unwrap();
                                     temp_param_vars.push(temp_var.to_owned());
                                     new_instrs.push(Instruction::SimpleAssignment(
-- 
2.43.0


From df3e0343e9210a5eeeeb8deaac2b2887199a31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 11/37] fix: an assigned variable interferes with every
 variable live after the assignment

---
 src/back_end/dataflow_analysis/clash_graph.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/back_end/dataflow_analysis/clash_graph.rs b/src/back_end/dataflow_analysis/clash_graph.rs
index 431d579..06b0f0a 100644
--- a/src/back_end/dataflow_analysis/clash_graph.rs
+++ b/src/back_end/dataflow_analysis/clash_graph.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::fmt::Formatter;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
+use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
@@ -108,7 +109,7 @@ pub fn generate_clash_graph(block: &Block) -> ClashGraph {
 
     let mut clash_graph = ClashGraph::new();
 
-    for (_instr, simultaneously_live_vars) in live_vars {
+    for simultaneously_live_vars in live_vars.values() {
         if simultaneously_live_vars.len() < 2 {
             // no clashes
             for var in simultaneously_live_vars {
@@ -128,6 +129,20 @@ pub fn generate_clash_graph(block: &Block) -> ClashGraph {
         }
     }
 
+    // assigning to a var must not overwrite any var that is live afterwards, even if the
+    // assigned value itself is never read
+    for (instr_id, instr) in &flowgraph.instrs {
+        for def_var in def_set(instr) {
+            for successor in flowgraph.successors.get(instr_id).unwrap() {
+                for live_var in live_vars.get(successor).unwrap() {
+                    if live_var != &def_var {
+                        clash_graph.add_clash(def_var.to_owned(), live_var.to_owned());
+                    }
+                }
+            }
+        }
+    }
+
     // any var that we take address of should clash with everything else,
     // to ensure safety of analysis
     insert_universal_clashes_for_address_taken_vars(&mut clash_graph, &flowgraph);
-- 
2.43.0


From 48521644186a7f6b647e687bdcab17faf9fcb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:19 +0000
Subject: [PATCH 12/37] fix: do not eliminate assignments to variables whose
 address is taken

---
 .../dataflow_analysis/dead_code_analysis.rs     | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 699fa22..454d1c6 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -1,10 +1,11 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::debug;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
+use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
@@ -12,6 +13,16 @@ use crate::relooper::blocks::Block;
 pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
+    // vars that can be read through a pointer are never dead
+    let address_taken_vars: HashSet<VarId> = flowgraph
+        .instrs
+        .values()
+        .filter_map(|instr| match instr {
+            Instruction::AddressOf(_, _, src) => src.unwrap_var().ok(),
+            _ => None,
+        })
+        .collect();
+
     let mut changes = true;
     while changes {
         changes = false;
@@ -32,6 +43,10 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
             for def_var in defs {
                 // if none of the defined vars are live at any of the successors of this instr,
                 // the instr is dead
+                if address_taken_vars.contains(&def_var) {
+                    at_least_one_def_is_live = true;
+                    break;
+                }
 
                 for successor in flowgraph.successors.get(instr_id).unwrap() {
                     let is_live_at_successor = live_vars.get(successor).unwrap().contains(&def_var);
-- 
2.43.0


From 8d25724f3d80f7bf7985d0334bb3ab386a7642a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 13/37] fix: assign to global variables at their own address

---
 src/back_end/dataflow_analysis/dead_code_analysis.rs  | 11 +++++++++--
 src/back_end/stack_allocation/allocate_vars.rs        |  3 +++
 src/back_end/stack_allocation/naive_allocation.rs     |  5 +++++
 src/back_end/stack_allocation/optimised_allocation.rs |  7 ++++++-
 src/back_end/target_code_generation.rs                |  1 +
 5 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 454d1c6..b457302 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -5,12 +5,17 @@ use log::debug;
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
+use crate::back_end::stack_allocation::allocate_vars::VariableAllocationMap;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
-pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
+pub fn remove_dead_vars(
+    block: &mut Block,
+    global_var_addrs: &VariableAllocationMap,
+    prog_metadata: &mut ProgramMetadata,
+) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
     // vars that can be read through a pointer are never dead
@@ -43,7 +48,9 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
             for def_var in defs {
                 // if none of the defined vars are live at any of the successors of this instr,
                 // the instr is dead
-                if address_taken_vars.contains(&def_var) {
+                // (other functions may read a global var)
+                if address_taken_vars.contains(&def_var) || global_var_addrs.contains_key(&def_var)
+                {
                     at_least_one_def_is_live = true;
                     break;
                 }
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7832453..7e5c2e5 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -20,6 +20,7 @@ pub fn allocate_local_vars(
     wasm_instrs: &mut Vec<WasmInstruction>,
     fun_type: IrType,
     fun_param_var_mappings: Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
     enabled_optimisations: &EnabledOptimisations,
@@ -59,6 +60,7 @@ pub fn allocate_local_vars(
         optimised_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
@@ -69,6 +71,7 @@ pub fn allocate_local_vars(
         naive_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4e86782..c6edbf4 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -13,6 +13,7 @@ use crate::relooper::blocks::Block;
 pub fn naive_allocate_local_vars(
     block: &Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     mut var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
@@ -25,6 +26,10 @@ pub fn naive_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars.remove(param_var);
     }
+    // global vars already have an address of their own
+    for global_var in global_var_addrs.keys() {
+        vars.remove(global_var);
+    }
 
     let mut offset = 0;
 
diff --git a/src/back_end/stack_allocation/optimised_allocation.rs b/src/back_end/stack_allocation/optimised_allocation.rs
index 4ff43a9..5b93791 100644
--- a/src/back_end/stack_allocation/optimised_allocation.rs
+++ b/src/back_end/stack_allocation/optimised_allocation.rs
@@ -22,13 +22,14 @@ type VarAllocationStack = Vec<VarAndByteSizePair>;
 pub fn optimised_allocate_local_vars(
     block: &mut Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
 ) -> VariableAllocationMap {
-    remove_dead_vars(block, prog_metadata);
+    remove_dead_vars(block, global_var_addrs, prog_metadata);
 
     debug!("removed dead vars: {}", block);
 
@@ -42,6 +43,10 @@ pub fn optimised_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars_to_allocate.remove(param_var);
     }
+    // global vars already have an address of their own
+    for global_var in global_var_addrs.keys() {
+        vars_to_allocate.remove(global_var);
+    }
 
     // pop vars from clash graph onto a stack
     let mut var_allocation_stack: VarAllocationStack = Vec::new();
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 9f63e23..b21f874 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -262,6 +262,7 @@ pub fn generate_target_code(
                 &mut function_wasm_instrs,
                 function.type_info,
                 function.param_var_mappings,
+                &global_var_addrs,
                 &module_context,
                 &mut prog.program_metadata,
                 enabled_optimisations,
-- 
2.43.0


From fe995da9f6950b56a6939ce8e2f2f410de5d1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 14/37] fix: keep the stack frame when a pointer into it may be
 in use after a tail call

---
 .../middle_end_optimiser/tail_call_optimise.rs       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 2967119..0d53a16 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -8,6 +8,18 @@ pub fn tail_call_optimise(
     param_var_mappings: &[VarId],
     prog_metadata: &mut ProgramMetadata,
 ) {
+    // a pointer into this function's stack frame might still be in use after the tail call, so
+    // the frame can't be reused
+    let may_have_ptr_into_frame = fun_instrs.iter().any(|instr| {
+        matches!(
+            instr,
+            Instruction::AddressOf(..) | Instruction::AllocateVariable(..)
+        )
+    });
+    if may_have_ptr_into_frame {
+        return;
+    }
+
     // find any call instructions that are the last instruction of a function
 
     // instr index, call instr parameters
-- 
2.43.0


From 6baa18a0b10e5daadc2091cfd50f433d7f7f8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:19 +0000
Subject: [PATCH 15/37] fix: keep global variables clear of the program
 arguments

---
 src/back_end/initialise_memory.rs             | 14 +++++++---
 .../stack_allocation/allocate_vars.rs         | 26 ++++++++++++-------
 .../stack_allocation/naive_allocation.rs      | 11 ++------
 src/back_end/target_code_generation.rs        | 20 +++++++-------
 4 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 5c209bb..23da24b 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -15,11 +15,12 @@ use crate::program_config::program_constants::{
 pub fn initialise_memory(
     wasm_module: &mut WasmModule,
     module_context: &mut ModuleContext,
+    global_vars_byte_size: u64,
     prog_metadata: &ProgramMetadata,
 ) -> u32 {
-    // ----------------------------------------------------------
-    // | FP | temp FP | SP | String literals | ...stack frames...
-    // ----------------------------------------------------------
+    // ----------------------------------------------------------------------------------
+    // | FP | temp FP | SP | String literals | Global vars | ...program args, stack frames...
+    // ----------------------------------------------------------------------------------
     // initialise with placeholder values for frame ptr and stack ptr
     let mut data: Vec<u8> = vec![0x00; (3 * PTR_SIZE) as usize];
 
@@ -40,6 +41,11 @@ pub fn initialise_memory(
         data.push(0x00);
     }
 
+    // zero-initialised space for global vars, below the program arguments that the runtime puts at
+    // the top of the stack
+    let global_vars_addr = data.len();
+    data.resize(global_vars_addr + global_vars_byte_size as usize, 0x00);
+
     // set stack ptr to point at top of stack
     let stack_ptr_value = data.len();
     info!("Setting stack ptr to {}", stack_ptr_value);
@@ -69,5 +75,5 @@ pub fn initialise_memory(
     };
     wasm_module.imports_section.imports.push(memory_import);
 
-    stack_ptr_value as u32
+    global_vars_addr as u32
 }
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7e5c2e5..f08951c 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use crate::back_end::memory_constants::PTR_SIZE;
+use crate::back_end::stack_allocation::get_vars_from_block::get_vars_from_block;
 use crate::back_end::stack_allocation::naive_allocation::{
     naive_allocate_global_vars, naive_allocate_local_vars,
 };
@@ -81,18 +82,23 @@ pub fn allocate_local_vars(
     }
 }
 
+/// The number of bytes that all the global vars take up together
+pub fn get_global_vars_byte_size(block: &Block, prog_metadata: &ProgramMetadata) -> u64 {
+    get_vars_from_block(block, prog_metadata)
+        .values()
+        .map(|var_type| {
+            var_type
+                .get_byte_size(prog_metadata)
+                .get_compile_time_value()
+                .unwrap()
+        })
+        .sum()
+}
+
 pub fn allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    global_vars_addr: u32,
     prog_metadata: &ProgramMetadata,
 ) -> VariableAllocationMap {
-    naive_allocate_global_vars(
-        block,
-        initial_top_of_stack_addr,
-        wasm_instrs,
-        module_context,
-        prog_metadata,
-    )
+    naive_allocate_global_vars(block, global_vars_addr, prog_metadata)
 }
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index c6edbf4..06e198b 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -56,17 +56,13 @@ pub fn naive_allocate_local_vars(
 
 pub fn naive_allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    global_vars_addr: u32,
     prog_metadata: &ProgramMetadata,
 ) -> VariableAllocationMap {
     let global_vars = get_vars_from_block(block, prog_metadata);
 
     let mut var_addrs = HashMap::new();
-    let mut addr = initial_top_of_stack_addr;
-    // how much to increment the stack pointer by when we've allocated all vars
-    let mut stack_ptr_increment = 0;
+    let mut addr = global_vars_addr;
 
     // calculate addr of each global var
     for (var_id, var_type) in global_vars {
@@ -78,10 +74,7 @@ pub fn naive_allocate_global_vars(
         };
         var_addrs.insert(var_id, addr);
         addr += byte_size as u32;
-        stack_ptr_increment += byte_size as u32;
     }
 
-    increment_stack_ptr_by_known_offset(stack_ptr_increment, wasm_instrs, module_context);
-
     var_addrs
 }
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index b21f874..650459e 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -10,7 +10,9 @@ use crate::back_end::memory_operations::{
     load, load_constant, load_src, load_var, load_var_address, store, store_var,
 };
 use crate::back_end::profiler::initialise_profiler;
-use crate::back_end::stack_allocation::allocate_vars::{allocate_global_vars, allocate_local_vars};
+use crate::back_end::stack_allocation::allocate_vars::{
+    allocate_global_vars, allocate_local_vars, get_global_vars_byte_size,
+};
 use crate::back_end::stack_frame_operations::{
     increment_stack_ptr_by_known_offset, increment_stack_ptr_dynamic, load_frame_ptr,
     load_stack_ptr, overwrite_current_stack_frame_with_new_stack_frame, pop_stack_frame,
@@ -56,9 +58,14 @@ pub fn generate_target_code(
 
     module_context.calculate_func_idxs(&imported_functions, &defined_functions);
 
-    let initial_top_of_stack_addr = initialise_memory(
+    let global_vars_byte_size = match &prog.program_blocks.global_instrs {
+        Some(global_block) => get_global_vars_byte_size(global_block, &prog.program_metadata),
+        None => 0,
+    };
+    let global_vars_addr = initialise_memory(
         &mut wasm_module,
         &mut module_context,
+        global_vars_byte_size,
         &prog.program_metadata,
     );
 
@@ -101,13 +108,8 @@ pub fn generate_target_code(
 
     let mut global_var_addrs = HashMap::new();
     if let Some(global_block) = prog.program_blocks.global_instrs {
-        global_var_addrs = allocate_global_vars(
-            &global_block,
-            initial_top_of_stack_addr,
-            &mut global_wasm_instrs,
-            &module_context,
-            &prog.program_metadata,
-        );
+        global_var_addrs =
+            allocate_global_vars(&global_block, global_vars_addr, &prog.program_metadata);
 
         // let var_offsets = allocate_local_vars(
         //     &global_block,
-- 
2.43.0


From a9414acd03ef9bf3b9861971c9fc4a0b3352b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 16/37] fix: sign-extend signed char and short when converting
 to wider unsigned types

---
 src/middle_end/type_conversions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index ccfa072..51d1247 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -321,7 +321,7 @@ pub fn get_type_conversion_instrs(
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() || matches!(dest_type, IrType::F32 | IrType::F64) {
+            if dest_type != IrType::U16 {
                 instrs.push(Instruction::I8toI16(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
@@ -385,7 +385,7 @@ pub fn get_type_conversion_instrs(
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() || matches!(dest_type, IrType::F32 | IrType::F64) {
+            if dest_type != IrType::U32 {
                 instrs.push(Instruction::I16toI32(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
-- 
2.43.0


From 6a82bc8611ca22b684b1587ef927fc6d0cd23c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 17/37] fix: a conditional with an empty branch goes straight
 on in the flowgraph

---
 src/back_end/dataflow_analysis/flowgraph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index 078c74d..d7b3459 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -328,6 +328,9 @@ fn add_instrs_to_flowgraph(
                 let (instrs2_entry, instrs2_exits, instrs2_jump_exits) =
                     add_instrs_to_flowgraph(instrs2, flowgraph);
 
+                // an empty branch goes straight on to the next instr
+                let has_empty_branch = instrs1_entry.is_none() || instrs2_entry.is_none();
+
                 if let Some(entry) = instrs1_entry {
                     flowgraph.add_successor(instr_id.to_owned(), entry);
                 }
@@ -338,6 +341,9 @@ fn add_instrs_to_flowgraph(
                 prev_instrs.clear();
                 prev_instrs.extend(instrs1_exits.to_owned());
                 prev_instrs.extend(instrs2_exits.to_owned());
+                if has_empty_branch {
+                    prev_instrs.insert(instr_id.to_owned());
+                }
 
                 jump_exit_instrs.extend(instrs1_jump_exits);
                 jump_exit_instrs.extend(instrs2_jump_exits);
@@ -348,6 +354,9 @@ fn add_instrs_to_flowgraph(
                 if i == instrs.len() - 1 {
                     exit_instrs.extend(instrs1_exits);
                     exit_instrs.extend(instrs2_exits);
+                    if has_empty_branch {
+                        exit_instrs.insert(instr_id.to_owned());
+                    }
                 }
             }
             _ => {
-- 
2.43.0


From bc43309965c2e42cabd704ca59930791af8de089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 18/37] fix: drop unreachable instructions after a branch when
 splitting into labels

Statements behind a break, continue or goto (with a jump of their own at the
end) left a second branch inside the label, which the relooper cannot replace,
so the compiler panicked.
---
 src/relooper/soupify.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 01131cd..f822e0a 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -227,9 +227,13 @@ fn instructions_to_soup_of_labels(instrs: Vec<Instruction>) -> (HashMap<LabelId,
                 labels.insert(label_id, new_label);
             }
             i => {
-                // any other instruction is continuation of the current block
+                // any other instruction is continuation of the current block, unless the block
+                // has already branched away, in which case the instruction can't be reached
                 if let Some(current_label_id) = &current_label_id {
-                    labels.get_mut(current_label_id).unwrap().instrs.push(i);
+                    let current_label = labels.get_mut(current_label_id).unwrap();
+                    if !matches!(current_label.instrs.last(), Some(Instruction::Br(..))) {
+                        current_label.instrs.push(i);
+                    }
                 }
             }
         }
-- 
2.43.0


From c83c8f94d3692dd80174838438e7eb674172e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 19/37] fix: do not take entries that cannot return to an entry
 for loop entries

---
 src/relooper/relooper.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index c4e42e2..65781e2 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -233,7 +233,13 @@ fn create_block_from_labels(
     let mut can_return_to_all_entries = true;
     for entry in &entries {
         let reachable = reachability_from_entries.contains(entry);
-        if !reachable {
+        // an entry that none of the entries can be reached from isn't part of a loop
+        let can_return = reachability
+            .get(entry)
+            .unwrap()
+            .iter()
+            .any(|label| entries.contains(label));
+        if !reachable || !can_return {
             can_return_to_all_entries = false;
             break;
         }
@@ -493,8 +499,9 @@ fn create_loop_block(
     let mut inner_labels: Labels = HashMap::new();
     let mut next_labels: Labels = HashMap::new();
     // find the labels that can return to one of the entries, and those that can't
+    // (the entries themselves are always inside the loop)
     for (label_id, label) in labels {
-        let mut can_return = false;
+        let mut can_return = entries.contains(&label_id);
         for entry in &entries {
             if reachability.get(&label_id).unwrap().contains(entry) {
                 can_return = true;
-- 
2.43.0


From 6e61eb9fcc1cbc71adaba58077cb9dbb28e66b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 20/37] fix: leave unreachable labels out when creating blocks

---
 src/relooper/relooper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index 65781e2..3e28951 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -212,6 +212,11 @@ fn create_block_from_labels(
         return None;
     }
 
+    // labels that can't be reached from the entries will never be executed
+    labels.retain(|label_id, _| {
+        entries.contains(label_id) || reachability_from_entries.contains(label_id)
+    });
+
     // if we have a single entry that we can't return to, create a simple block
     if entries.len() == 1 {
         let single_entry = entries.first().unwrap();
-- 
2.43.0


From 0dd93ec668b2ea4559c5c23281026918a4fba6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 21/37] fix: report hexadecimal escapes that are too long
 instead of panicking

---
 src/front_end/interpret_string.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 0b846ef..55633d1 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -54,10 +54,12 @@ impl Iterator for InterpretString<'_> {
                                 }
                                 // convert the hex code to an int, and then to
                                 // the corresponding char
-                                let hex_code = u32::from_str_radix(&buffer, 16).unwrap();
-                                match char::from_u32(hex_code) {
-                                    Some(c) => Ok(c),
-                                    None => Err(Error::InvalidCharCode(buffer)),
+                                match u32::from_str_radix(&buffer, 16) {
+                                    Ok(hex_code) => match char::from_u32(hex_code) {
+                                        Some(c) => Ok(c),
+                                        None => Err(Error::InvalidCharCode(buffer)),
+                                    },
+                                    Err(_) => Err(Error::InvalidCharCode(buffer)),
                                 }
                             }
                             Some(c) => Err(Error::InvalidEscapeChar(*c)),
-- 
2.43.0


From c6be54203cf6ecf46b604f536c63b4be16b36eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 22/37] fix: decode the escapes \a, \b, \f and \v

---
 src/front_end/interpret_string.rs |  4 ++++
 src/front_end/lexer.rs            | 21 ++++++++++-----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 55633d1..6694355 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -34,6 +34,10 @@ impl Iterator for InterpretString<'_> {
                     Some('n') => Ok('\n'),
                     Some('r') => Ok('\r'),
                     Some('t') => Ok('\t'),
+                    Some('a') => Ok('\x07'),
+                    Some('b') => Ok('\x08'),
+                    Some('f') => Ok('\x0c'),
+                    Some('v') => Ok('\x0b'),
                     Some('x') => {
                         // hex char code
                         // check whether the next digit is a valid hex digit,
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 687f9a2..e17d75b 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -1024,18 +1024,17 @@ impl Fsm {
                 }),
             },
             State::Char2 => match input {
-                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' => {
-                    match self.token {
-                        Some(Token::CharConstant(mut s)) => {
-                            s.push(c);
-                            Some(Fsm {
-                                state: State::Char3,
-                                token: Some(Token::CharConstant(s)),
-                            })
-                        }
-                        _ => None,
+                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' | c @ 'a'
+                | c @ 'b' | c @ 'f' | c @ 'v' => match self.token {
+                    Some(Token::CharConstant(mut s)) => {
+                        s.push(c);
+                        Some(Fsm {
+                            state: State::Char3,
+                            token: Some(Token::CharConstant(s)),
+                        })
                     }
-                }
+                    _ => None,
+                },
                 'x' => match self.token {
                     Some(Token::CharConstant(mut s)) => {
                         s.push('x');
-- 
2.43.0


From 478b0ac92f6cccc5f1072f13fde0725118af0f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 23/37] fix: report malformed escapes as a parse error instead
 of panicking

---
 src/front_end/c_parser.lalrpop | 9 +++++++--
 src/front_end/lexer.rs         | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index b679a5a..e3e7109 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -1,6 +1,7 @@
 use crate::front_end::ast;
 use crate::front_end::lexer;
 use crate::front_end::interpret_string::interpret_string;
+use lalrpop_util::ParseError;
 
 grammar;
 
@@ -161,9 +162,13 @@ HexConstant: u128 = "HexConstant" => u128::from_str_radix(&<>[2..], 16).unwrap()
 DecimalFloatingConstant: f64 = "FloatingConstant" => <>.parse::<f64>().unwrap();
 
 // remove leading and trailing double quote using slice
-pub StringLiteral: String = "StringLiteral" => interpret_string(&<>).unwrap();
+pub StringLiteral: String = "StringLiteral" =>? interpret_string(&<>)
+    .map_err(|_| ParseError::User { error: lexer::LexError::InvalidEscapeSequence });
 
-CharConstant: char = "CharConstant" => interpret_string(&<>).unwrap().chars().nth(0).unwrap();
+CharConstant: char = "CharConstant" =>? interpret_string(&<>)
+    .ok()
+    .and_then(|s| s.chars().nth(0))
+    .ok_or(ParseError::User { error: lexer::LexError::InvalidEscapeSequence });
 
 // STATEMENTS -------------------------------
 
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index e17d75b..7a160bf 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -338,6 +338,7 @@ pub enum LexError {
     InvalidToken(usize, usize),
     InvalidEOF,
     InvalidTypedefDeclaration,
+    InvalidEscapeSequence,
 }
 
 impl fmt::Display for LexError {
@@ -348,6 +349,9 @@ impl fmt::Display for LexError {
             }
             LexError::InvalidEOF => write!(f, "Invalid end of file"),
             InvalidTypedefDeclaration => write!(f, "Invalid typedef declaration"),
+            LexError::InvalidEscapeSequence => {
+                write!(f, "Invalid escape sequence in string literal or char constant")
+            }
         }
     }
 }
-- 
2.43.0


From e3149b693b1599dff22561b344cecc7c08b4b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 24/37] fix: logical not of a negative constant is 0

---
 src/middle_end/compile_time_eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 41dcc1f..5c64d78 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -58,10 +58,10 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 UnaryOperator::LogicalNot => match expr_result {
                     ConstantExpressionType::Int(i) => {
-                        Ok(ConstantExpressionType::Int(!(i > 0) as i128))
+                        Ok(ConstantExpressionType::Int((i == 0) as i128))
                     }
                     ConstantExpressionType::Float(f) => {
-                        Ok(ConstantExpressionType::Int(!(f > 0.) as i128))
+                        Ok(ConstantExpressionType::Int((f == 0.) as i128))
                     }
                 },
             }
-- 
2.43.0


From 307030a03abb921bcb81d5ad74a1f71bc3fa9d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 25/37] fix: reject undefined operations in constant
 expressions instead of panicking

---
 src/middle_end/compile_time_eval.rs | 41 +++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 5c64d78..7670853 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -26,6 +26,31 @@ enum ConstantExpressionType {
     Float(f64),
 }
 
+/// a division by zero, an out-of-range shift or an overflow doesn't give a value
+fn integer_result(result: Option<i128>) -> Result<ConstantExpressionType, MiddleEndError> {
+    match result {
+        Some(i) => Ok(ConstantExpressionType::Int(i)),
+        None => Err(MiddleEndError::InvalidConstantExpression),
+    }
+}
+
+/// the widest integer type has 64 bits
+const MAX_SHIFT: i128 = 63;
+
+fn shift_left(l: i128, r: i128) -> Option<i128> {
+    if !(0..=MAX_SHIFT).contains(&r) {
+        return None;
+    }
+    l.checked_mul(1 << r)
+}
+
+fn shift_right(l: i128, r: i128) -> Option<i128> {
+    if !(0..=MAX_SHIFT).contains(&r) {
+        return None;
+    }
+    Some(l >> r)
+}
+
 fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
     match expr {
         Expression::Identifier(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
@@ -49,7 +74,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                     }
                 },
                 UnaryOperator::Minus => match expr_result {
-                    ConstantExpressionType::Int(i) => Ok(ConstantExpressionType::Int(-i)),
+                    ConstantExpressionType::Int(i) => integer_result(i.checked_neg()),
                     ConstantExpressionType::Float(f) => Ok(ConstantExpressionType::Float(-f)),
                 },
                 UnaryOperator::BitwiseNot => match expr_result {
@@ -74,7 +99,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
             match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l * r))
+                        integer_result(l.checked_mul(r))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
@@ -86,7 +111,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Div => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l / r))
+                        integer_result(l.checked_div(r))
                     }
                     (ConstantExpressionType::Float(l), ConstantExpressionType::Int(r)) => {
                         Ok(ConstantExpressionType::Float(l / r as f64))
@@ -100,13 +125,13 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Mod => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l % r))
+                        integer_result(l.checked_rem(r))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
                 BinaryOperator::Add => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l + r))
+                        integer_result(l.checked_add(r))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
@@ -118,7 +143,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Sub => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l - r))
+                        integer_result(l.checked_sub(r))
                     }
                     (ConstantExpressionType::Float(l), ConstantExpressionType::Int(r)) => {
                         Ok(ConstantExpressionType::Float(l - r as f64))
@@ -132,13 +157,13 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::LeftShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l << r))
+                        integer_result(shift_left(l, r))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
                 BinaryOperator::RightShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l >> r))
+                        integer_result(shift_right(l, r))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
-- 
2.43.0


From 687fc9aa77e28e132ca120976fcfc7a4d7d3ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 26/37] fix: reject negative array bounds instead of panicking

---
 src/middle_end/get_ast_type_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 837eace..1a59abd 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -244,7 +244,10 @@ fn add_type_info_from_declarator(
             let size = match size_expr {
                 None => None,
                 Some(size_expr) => match eval_integral_constant_expression(*size_expr.to_owned()) {
-                    Ok(size) => Some(TypeSize::CompileTime(size as u64)),
+                    Ok(size) => match u64::try_from(size) {
+                        Ok(size) => Some(TypeSize::CompileTime(size)),
+                        Err(_) => return Err(MiddleEndError::InvalidConstantExpression),
+                    },
                     Err(_) => Some(TypeSize::Runtime(*size_expr)),
                 },
             };
-- 
2.43.0


From 8202ce5af47bd40e6a6fec9dd54d4f9f1b9ef0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 27/37] fix: leave a function at its end instead of running
 into the next block

---
 src/relooper/relooper.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index 3e28951..3ba96f9 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -84,7 +84,13 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
             continue;
         }
         let label_var = init_label_variable(&mut prog.program_metadata);
-        let (labels, entry) = soupify(function.instrs, &mut prog.program_metadata);
+        let mut fun_instrs = function.instrs;
+        // the end of the function may end up in a handled block, from where control would go on to
+        // the next block, so leave the function explicitly
+        if !matches!(fun_instrs.last(), Some(Instruction::Ret(..))) {
+            fun_instrs.push(Instruction::Ret(prog.program_metadata.new_instr_id(), None));
+        }
+        let (labels, entry) = soupify(fun_instrs, &mut prog.program_metadata);
 
         let mut context = RelooperContext::new(
             &mut loop_block_id_generator,
-- 
2.43.0


From 2f70d4101d75db33c8b11118f175a6995b3f017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 28/37] fix: look up one-letter words among the typedef names

---
 src/front_end/lexer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 7a160bf..c39f39e 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -560,14 +560,8 @@ impl Fsm {
                     token: None,
                 }),
                 // identifiers only start with letters or underscore, not number
-                c if c.is_ascii_alphabetic() => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier(c.to_string())),
-                }),
-                '_' => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier("_".to_owned())),
-                }),
+                c if c.is_ascii_alphabetic() => Some(lex_identifier(c.to_string(), typedef_names)),
+                '_' => Some(lex_identifier("_".to_owned(), typedef_names)),
                 '0' => Some(Fsm {
                     state: State::Oct1,
                     token: Some(Token::OctalConstant("0".to_owned())),
-- 
2.43.0


From 7a2fc3eccb8f54c242ce7684ff695faa5f75078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 29/37] fix: a closing brace outside of any in a typedef
 overflowed the nesting depth

---
 src/front_end/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index c39f39e..7abf249 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -301,7 +301,9 @@ impl<'input> Iterator for Lexer<'input> {
                                 } else if t == Token::LeftCurly {
                                     self.typedef_stmt_nesting_depth += 1;
                                 } else if t == Token::RightCurly {
-                                    self.typedef_stmt_nesting_depth -= 1;
+                                    // a brace that closes nothing is left to the parser
+                                    self.typedef_stmt_nesting_depth =
+                                        self.typedef_stmt_nesting_depth.saturating_sub(1);
                                 }
                             }
                             Some(Ok((start.unwrap(), t, end.unwrap())))
-- 
2.43.0


From 35c0a65befe5efe63b05e7f081f561cf0b55776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 30/37] fix: reject incomplete constants and literals instead
 of taking them for tokens

---
 src/front_end/lexer.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 7abf249..731e17f 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -248,7 +248,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return match fsm.state {
                         // EOF
                         State::Start => None,
-                        _ => match fsm.token {
+                        _ => match fsm.complete_token() {
                             Some(t) => Some(Ok((start.unwrap(), t, end.unwrap() + 1))),
                             None => Some(Err(LexError::InvalidEOF)),
                         },
@@ -264,7 +264,7 @@ impl<'input> Iterator for Lexer<'input> {
                 start = Some(i.to_owned());
             }
             end = Some(i.to_owned());
-            let current_token = fsm.token.to_owned();
+            let current_token = fsm.complete_token();
             let new_state = fsm.step(c.to_owned(), &self.typedef_names);
             match new_state {
                 Some(f) => {
@@ -454,6 +454,30 @@ impl Fsm {
         }
     }
 
+    /// The token that the characters so far make up, if they are all of it
+    fn complete_token(&self) -> Option<Token> {
+        match self.state {
+            // constants that need more digits, literals without the closing quote
+            State::Bin1
+            | State::Hex1
+            | State::Float2
+            | State::Float3
+            | State::String1
+            | State::String2
+            | State::String3
+            | State::Char1
+            | State::Char2
+            | State::Char3
+            | State::Char4
+            | State::Char5
+            | State::Char6
+            | State::Char7
+            | State::Char8
+            | State::Char9 => None,
+            _ => self.token.to_owned(),
+        }
+    }
+
     fn step(self, input: char, typedef_names: &[String]) -> Option<Self> {
         match self.state {
             State::Start => match input {
-- 
2.43.0


From 9d9d5f4d49c886fbc6d6557a3b4ead9c326518bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 31/37] fix: report malformed type specifiers as a parse error
 instead of panicking

---
 src/front_end/c_parser.lalrpop | 21 ++++++++++++---------
 src/front_end/lexer.rs         |  2 ++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index e3e7109..41b9cb8 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -218,18 +218,21 @@ Block: ast::Statement = {
 #[inline]
 ExpressionOrDeclaration: ast::ExpressionOrDeclaration = {
   <Expression> => ast::ExpressionOrDeclaration::Expression(<>),
-  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> => ast::ExpressionOrDeclaration::Declaration(Box::new(ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).unwrap(), d))),
+  <sq:SpecifierQualifierList> <d:DeclaratorInitialiserList> => ast::ExpressionOrDeclaration::Declaration(Box::new(ast::Statement::Declaration(sq, d))),
 };
 
 // DECLARATIONS -----------------------------
 
 pub Declaration: ast::Statement = {
-  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> ";" => ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).unwrap(), d),
-  <sqs:SpecifierQualifier+> <d:Declarator> <b:Block> => ast::Statement::FunctionDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d, Box::new(b)),
+  <sq:SpecifierQualifierList> <d:DeclaratorInitialiserList> ";" => ast::Statement::Declaration(sq, d),
+  <sq:SpecifierQualifierList> <d:Declarator> <b:Block> => ast::Statement::FunctionDeclaration(sq, d, Box::new(b)),
   // for structs, unions, enums
-  <SpecifierQualifier+> ";" => ast::Statement::EmptyDeclaration(ast::SpecifierQualifier::create(<>).unwrap()),
+  <SpecifierQualifierList> ";" => ast::Statement::EmptyDeclaration(<>),
 };
 
+SpecifierQualifierList: ast::SpecifierQualifier = <SpecifierQualifier+> =>? ast::SpecifierQualifier::create(<>)
+    .map_err(|_| ParseError::User { error: lexer::LexError::InvalidTypeSpecifiers });
+
 pub SpecifierQualifier: ast::SpecifierQualifierToken = {
   <TypeSpecifier> => ast::SpecifierQualifierToken::TypeSpecifier(<>),
   <StorageClassSpecifier> => ast::SpecifierQualifierToken::StorageClassSpecifier(<>),
@@ -281,7 +284,7 @@ StructDeclaration: ast::StructType = {
 };
 
 StructMemberDeclaration: ast::StructMemberDeclaration = {
-  <sqs:SpecifierQualifier+> <d:DeclaratorList> ";" => ast::StructMemberDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d),
+  <sq:SpecifierQualifierList> <d:DeclaratorList> ";" => ast::StructMemberDeclaration(sq, d),
 };
 
 UnionDeclaration: ast::UnionType = {
@@ -333,8 +336,8 @@ ParameterTypeList: ast::ParameterTypeList = {
 ParameterList = CommaSepList<ParameterDeclaration>;
 
 ParameterDeclaration: ast::ParameterDeclaration = {
-  <sqs:SpecifierQualifier+> <d:Declarator?> => {
-    ast::ParameterDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d)
+  <sq:SpecifierQualifierList> <d:Declarator?> => {
+    ast::ParameterDeclaration(sq, d)
   }
 };
 
@@ -480,7 +483,7 @@ MultiplicativeExpression: ast::Expression = {
 
 CastExpression: ast::Expression = {
   UnaryExpression,
-  "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" <e:CastExpression> => ast::Expression::Cast(ast::TypeName(ast::SpecifierQualifier::create(sqs).unwrap(), d), Box::new(e)),
+  "(" <sq:SpecifierQualifierList> <d:Declarator?> ")" <e:CastExpression> => ast::Expression::Cast(ast::TypeName(sq, d), Box::new(e)),
 };
 
 UnaryExpression: ast::Expression = {
@@ -489,7 +492,7 @@ UnaryExpression: ast::Expression = {
   "--" <UnaryExpression> => ast::Expression::PrefixDecrement(Box::new(<>)),
   <op:UnaryOperator> <e:CastExpression> => ast::Expression::UnaryOp(op, Box::new(e)),
   "sizeof" <UnaryExpression> => ast::Expression::SizeOfExpr(Box::new(<>)),
-   "sizeof" "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" => ast::Expression::SizeOfType(ast::TypeName(ast::SpecifierQualifier::create(sqs).unwrap(), d)),
+   "sizeof" "(" <sq:SpecifierQualifierList> <d:Declarator?> ")" => ast::Expression::SizeOfType(ast::TypeName(sq, d)),
 };
 
 UnaryOperator: ast::UnaryOperator = {
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 731e17f..fdfd2cc 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -341,6 +341,7 @@ pub enum LexError {
     InvalidEOF,
     InvalidTypedefDeclaration,
     InvalidEscapeSequence,
+    InvalidTypeSpecifiers,
 }
 
 impl fmt::Display for LexError {
@@ -354,6 +355,7 @@ impl fmt::Display for LexError {
             LexError::InvalidEscapeSequence => {
                 write!(f, "Invalid escape sequence in string literal or char constant")
             }
+            LexError::InvalidTypeSpecifiers => write!(f, "Invalid type specifiers"),
         }
     }
 }
-- 
2.43.0


From 6585c090104bdc7b6c8656f414f24a4128b1ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:03 +0000
Subject: [PATCH 32/37] fix: report integer constants above u128 as a parse
 error instead of panicking

---
 src/front_end/c_parser.lalrpop | 12 ++++++++----
 src/front_end/lexer.rs         |  2 ++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 41b9cb8..46331bc 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -151,13 +151,17 @@ IntegerConstant: u128 = {
   HexConstant,
 };
 
-DecimalConstant: u128 = "DecimalConstant" => u128::from_str_radix(&<>, 10).unwrap();
+DecimalConstant: u128 = "DecimalConstant" =>? u128::from_str_radix(&<>, 10)
+    .map_err(|_| ParseError::User { error: lexer::LexError::ConstantTooLarge });
 
-BinaryConstant: u128 = "BinaryConstant" => u128::from_str_radix(&<>[2..], 2).unwrap();
+BinaryConstant: u128 = "BinaryConstant" =>? u128::from_str_radix(&<>[2..], 2)
+    .map_err(|_| ParseError::User { error: lexer::LexError::ConstantTooLarge });
 
-OctalConstant: u128 = "OctalConstant" => u128::from_str_radix(&<>, 8).unwrap();
+OctalConstant: u128 = "OctalConstant" =>? u128::from_str_radix(&<>, 8)
+    .map_err(|_| ParseError::User { error: lexer::LexError::ConstantTooLarge });
 
-HexConstant: u128 = "HexConstant" => u128::from_str_radix(&<>[2..], 16).unwrap();
+HexConstant: u128 = "HexConstant" =>? u128::from_str_radix(&<>[2..], 16)
+    .map_err(|_| ParseError::User { error: lexer::LexError::ConstantTooLarge });
 
 DecimalFloatingConstant: f64 = "FloatingConstant" => <>.parse::<f64>().unwrap();
 
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index fdfd2cc..5ffaf21 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -342,6 +342,7 @@ pub enum LexError {
     InvalidTypedefDeclaration,
     InvalidEscapeSequence,
     InvalidTypeSpecifiers,
+    ConstantTooLarge,
 }
 
 impl fmt::Display for LexError {
@@ -356,6 +357,7 @@ impl fmt::Display for LexError {
                 write!(f, "Invalid escape sequence in string literal or char constant")
             }
             LexError::InvalidTypeSpecifiers => write!(f, "Invalid type specifiers"),
+            LexError::ConstantTooLarge => write!(f, "Integer constant too large"),
         }
     }
 }
-- 
2.43.0


From 18f948de3dcac989cb759cb830d45f3b60dd9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:21 +0000
Subject: [PATCH 33/37] fix: report a continue in a switch outside of any loop
 instead of panicking

---
 src/middle_end/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 364dd08..07d6aa5 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -76,6 +76,9 @@ impl Context {
                 Some(LoopOrSwitchContext::Switch(_)) => {}
             }
             // if context was a switch context, keep looking backwards for the top loop context
+            if i == 0 {
+                return None;
+            }
             i -= 1;
         }
     }
-- 
2.43.0


From dc00832e354084a2626c7a2dd1cc1335bf75084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:21 +0000
Subject: [PATCH 34/37] fix: end the scope of a for loop's declaration with the
 loop

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index fb4c4bd..97c090f 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -147,6 +147,8 @@ fn convert_statement_to_ir(
             let loop_start_label = prog.new_label();
             let loop_end_label = prog.new_label();
             let loop_continue_label = prog.new_label();
+            // a declaration in the initialiser is only in scope in the loop
+            context.push_scope();
             // optional initialiser statement - runs before the loop starts
             match init {
                 None => {}
@@ -211,6 +213,7 @@ fn convert_statement_to_ir(
             // end of loop label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_end_label));
             context.pop_loop();
+            context.pop_scope();
         }
         Statement::If(cond, body) => {
             // if statement condition
-- 
2.43.0


From dfb16042eb39e0ecd693f0f3a218e80212dbcd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 35/37] fix: let a goto name a label that comes later, and
 labels belong to their function

---
 src/middle_end/ast_to_ir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 97c090f..94d9d85 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -310,7 +310,11 @@ fn convert_statement_to_ir(
         Statement::Labelled(stmt) => {
             match stmt {
                 LabelledStatement::Named(Identifier(label_name), stmt) => {
-                    let label = prog.new_identifier_label(label_name);
+                    // an earlier goto may have named the label already
+                    let label = match prog.resolve_identifier_to_label(&label_name) {
+                        Some(label) => label.to_owned(),
+                        None => prog.new_identifier_label(label_name),
+                    };
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
                     instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
@@ -684,6 +688,8 @@ fn convert_statement_to_ir(
             let fun_declaration = Function::declaration(type_info.to_owned());
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
+            // label names belong to the function they are in
+            prog.program_metadata.label_ids.clear();
             // function body instructions
             let instrs = convert_statement_to_ir(*body, prog, context)?;
             // update function in program with full body
-- 
2.43.0


From f4587e739433215a0ee385ab6737c7bea9884296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 36/37] fix: keep the statements inside of a switch case
 together with the statement they are part of

---
 src/middle_end/ast_to_ir.rs | 40 +++++++++++++++++++++++++++----------
 src/middle_end/context.rs   |  9 +++++++++
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 94d9d85..b8558f0 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1,3 +1,5 @@
+use std::mem;
+
 use log::{debug, trace};
 
 use crate::front_end::ast;
@@ -104,7 +106,7 @@ fn convert_statement_to_ir(
                 loop_end_label.to_owned(),
             ));
             // loop body
-            instrs.append(&mut convert_statement_to_ir(*body, prog, context)?);
+            instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);
             // jump back to start of loop to evaluate condition again
             instrs.push(Instruction::Br(prog.new_instr_id(), loop_start_label));
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_end_label));
@@ -125,7 +127,7 @@ fn convert_statement_to_ir(
                 loop_continue_label.to_owned(),
             ));
             // loop body
-            instrs.append(&mut convert_statement_to_ir(*body, prog, context)?);
+            instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);
             // continue label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_continue_label));
             // loop condition
@@ -158,7 +160,7 @@ fn convert_statement_to_ir(
                         instrs.append(&mut expr_instrs);
                     }
                     ExpressionOrDeclaration::Declaration(d) => {
-                        instrs.append(&mut convert_statement_to_ir(*d, prog, context)?);
+                        instrs.append(&mut convert_nested_statement_to_ir(*d, prog, context)?);
                     }
                 },
             }
@@ -197,7 +199,7 @@ fn convert_statement_to_ir(
                 loop_end_label.to_owned(),
             ));
             // loop body
-            instrs.append(&mut convert_statement_to_ir(*body, prog, context)?);
+            instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);
             // continue label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_continue_label));
             // end-of-loop expression, before looping back to condition again
@@ -228,7 +230,7 @@ fn convert_statement_to_ir(
                 if_end_label.to_owned(),
             ));
             // if statement body
-            instrs.append(&mut convert_statement_to_ir(*body, prog, context)?);
+            instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);
             // end of if statement label
             instrs.push(Instruction::Label(prog.new_instr_id(), if_end_label));
         }
@@ -244,7 +246,7 @@ fn convert_statement_to_ir(
                 else_label.to_owned(),
             ));
             // if body
-            instrs.append(&mut convert_statement_to_ir(*true_body, prog, context)?);
+            instrs.append(&mut convert_nested_statement_to_ir(*true_body, prog, context)?);
             // jump to after else body
             let else_end_label = prog.new_label();
             instrs.push(Instruction::Br(
@@ -253,7 +255,7 @@ fn convert_statement_to_ir(
             ));
             // else body
             instrs.push(Instruction::Label(prog.new_instr_id(), else_label));
-            instrs.append(&mut convert_statement_to_ir(*false_body, prog, context)?);
+            instrs.append(&mut convert_nested_statement_to_ir(*false_body, prog, context)?);
             instrs.push(Instruction::Label(prog.new_instr_id(), else_end_label));
         }
         Statement::Switch(switch_expr, body) => {
@@ -278,7 +280,9 @@ fn convert_statement_to_ir(
             context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
             // convert switch body - ignore the return, because the instrs will
             // be stored into the SwitchContext, and we'll get them from there after
+            let outer_depth = mem::replace(&mut context.statement_depth, 0);
             convert_statement_to_ir(*body, prog, context)?;
+            context.statement_depth = outer_depth;
 
             let mut switch_context = context.pop_switch()?;
 
@@ -316,11 +320,11 @@ fn convert_statement_to_ir(
                         None => prog.new_identifier_label(label_name),
                     };
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
-                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
+                    instrs.append(&mut convert_nested_statement_to_ir(*stmt, prog, context)?);
                 }
                 LabelledStatement::Case(expr, stmt) => {
                     // case statements are only allowed in a switch context
-                    if !context.is_in_switch_context() {
+                    if !context.is_directly_in_switch_context() {
                         return Err(MiddleEndError::CaseOutsideSwitchContext);
                     }
                     let (mut condition_instrs, expr_var) =
@@ -345,6 +349,9 @@ fn convert_statement_to_ir(
                     return Ok(instrs);
                 }
                 LabelledStatement::Default(stmt) => {
+                    if !context.is_directly_in_switch_context() {
+                        return Err(MiddleEndError::DefaultOutsideSwitchContext);
+                    }
                     let case_body_label = prog.new_label();
                     context.add_default_switch_block_label(case_body_label.to_owned())?;
                     // default case has no condition instruction to add, because it'll get added
@@ -700,7 +707,7 @@ fn convert_statement_to_ir(
         Statement::Empty => {}
     }
 
-    if context.is_in_switch_context() {
+    if context.is_directly_in_switch_context() {
         context.push_instrs_to_switch_case_block(instrs)?;
         return Ok(Vec::new());
     }
@@ -708,6 +715,19 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// Converts a statement that is part of another one, so that the instructions are returned even in
+/// a switch
+fn convert_nested_statement_to_ir(
+    stmt: Statement,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<Vec<Instruction>, MiddleEndError> {
+    context.statement_depth += 1;
+    let instrs = convert_statement_to_ir(stmt, prog, context);
+    context.statement_depth -= 1;
+    instrs
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 07d6aa5..694bc26 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -12,6 +12,8 @@ use crate::middle_end::middle_end_error::MiddleEndError;
 pub struct Context {
     loop_stack: Vec<LoopOrSwitchContext>,
     scope_stack: Vec<Scope>,
+    /// how many statements are around the current one, inside of the innermost switch
+    pub statement_depth: usize,
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
     pub directly_on_lhs_of_assignment: bool,
@@ -27,6 +29,7 @@ impl Context {
         Context {
             loop_stack: Vec::new(),
             scope_stack: vec![Scope::new()], // start with a global scope
+            statement_depth: 0,
             in_function_name_expr: false,
             function_names: HashMap::new(),
             directly_on_lhs_of_assignment: false,
@@ -101,6 +104,12 @@ impl Context {
         }
     }
 
+    /// Whether the current statement is part of a case block itself, rather than of another
+    /// statement in the switch
+    pub fn is_directly_in_switch_context(&self) -> bool {
+        self.statement_depth == 0 && self.is_in_switch_context()
+    }
+
     pub fn get_switch_variable(&self) -> Option<VarId> {
         if self.loop_stack.is_empty() {
             return None;
-- 
2.43.0


From 1ec978ab04673ade3258a8d6e9b3bf1d31291b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 37/37] fix: report an error in a switch inside of another
 statement instead of overflowing

---
 src/middle_end/ast_to_ir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b8558f0..e9bb245 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -723,9 +723,9 @@ fn convert_nested_statement_to_ir(
     context: &mut Context,
 ) -> Result<Vec<Instruction>, MiddleEndError> {
     context.statement_depth += 1;
-    let instrs = convert_statement_to_ir(stmt, prog, context);
+    let instrs = convert_statement_to_ir(stmt, prog, context)?;
     context.statement_depth -= 1;
-    instrs
+    Ok(instrs)
 }
 
 /// returns the list of instructions generated, and the name of the temp variable
-- 
2.43.0

