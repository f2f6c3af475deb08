//@arm Instruction::LogicalAnd
    let ghost (lg, rg) = (left_src, right_src);
//@arm Instruction::LogicalOr
    let ghost (lg, rg) = (left_src, right_src);
//@before temp_instrs.push(WasmInstruction::I32And);##1
    proof { assert(temp_instrs@ =~= function_context.truth_code(lg, 0, 1, prog_metadata) + function_context.truth_code(rg, 0, 1, prog_metadata)); }
//@before temp_instrs.push(WasmInstruction::I32Or);##1
    proof { assert(temp_instrs@ =~= function_context.truth_code(lg, 0, 1, prog_metadata) + function_context.truth_code(rg, 0, 1, prog_metadata)); }
