//@include ir.inc
//@include fn_sizes.inc
//@include fn_widx.inc
//@include types_wasm.inc
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
//@include fn_memops.inc
//@include fn_const.inc
//@include types_ctx.inc
//@include fn_frames.inc
//@include fn_calls.inc
//@include fn_tailcalls.inc
//@include lower.inc
#[verifier::external_body]
pub fn vskip<T>() -> (r: T) ensures false { unimplemented!() }
//@fn src/back_end/target_code_generation.rs convert_ir_instr_to_wasm
//@split 14
//@only SimpleAssignment LoadFromAddress StoreToAddress DeclareVariable AllocateVariable AddressOf BitwiseNot LogicalNot Mult Div Mod Add Sub LeftShift RightShift BitwiseAnd BitwiseOr BitwiseXor LogicalAnd LogicalOr LessThan GreaterThan LessThanEq GreaterThanEq Equal NotEqual IfEqElse IfNotEqElse
//@attr #[verifier::spinoff_prover]
//@spec
    requires can_lower(instr, old(function_context), module_context, prog_metadata),
    ensures
        final(wasm_instrs)@ =~= old(wasm_instrs)@ + lower(instr, old(function_context), module_context, prog_metadata),
        *final(function_context) == *old(function_context),
//@include fn_lower_ifs.inc
//@include fn_lower_logic.inc
//@end
