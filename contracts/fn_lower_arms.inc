#[verifier::external_body]
pub fn vskip<T>() -> (r: T) ensures false { unimplemented!() }
//@fn src/back_end/target_code_generation.rs convert_ir_instr_to_wasm
//@split 3
//@only Call TailCall Ret
//@attr #[verifier::spinoff_prover]
//@spec
    requires can_lower(instr, old(function_context), module_context, prog_metadata),
    ensures
        final(wasm_instrs)@ =~= old(wasm_instrs)@ + lower(instr, old(function_context), module_context, prog_metadata),
        *final(function_context) == *old(function_context),
//@include fn_lower_ifs.inc
//@include fn_lower_logic.inc
//@end
