// stack frames
pub open spec fn stack_ptr_code() -> Seq<WasmInstruction> { seq![c32(8), WasmInstruction::I32Load { mem_arg: at2() }] }
pub open spec fn temp_ptr_code() -> Seq<WasmInstruction> { seq![c32(4), WasmInstruction::I32Load { mem_arg: at2() }] }
/// store a value at an absolute address
pub open spec fn set_code(addr: int, value: Seq<WasmInstruction>) -> Seq<WasmInstruction> {
    seq![c32(addr)] + value + seq![WasmInstruction::I32Store { mem_arg: at2() }]
}
impl<'a> ModuleContext<'a> {
    /// the stack pointer logger, when there is one
    pub open spec fn log_code(&self) -> Seq<WasmInstruction> {
        if self.enabled_profiling.stack_ptr_logging && self.log_stack_ptr_fun_id is Some {
            seq![WasmInstruction::Call { func_idx: self.fun_id_to_func_idx_map@[self.log_stack_ptr_fun_id->0] }]
        } else { seq![] }
    }
    /// the logger is a function of the module
    pub open spec fn ready(&self) -> bool {
        self.enabled_profiling.stack_ptr_logging && self.log_stack_ptr_fun_id is Some ==> self.fun_id_to_func_idx_map@.contains_key(self.log_stack_ptr_fun_id->0)
    }
    /// move the stack pointer up
    pub open spec fn bump_code(&self, by: Seq<WasmInstruction>) -> Seq<WasmInstruction> {
        set_code(8, stack_ptr_code() + by + seq![WasmInstruction::I32Add]) + self.log_code()
    }
    pub open spec fn bump(&self, n: int) -> Seq<WasmInstruction> { self.bump_code(seq![c32(n)]) }
    pub open spec fn to_frame_code(&self) -> Seq<WasmInstruction> { set_code(8, frame_ptr_code()) + self.log_code() }
}
//@fn src/back_end/profiler.rs log_stack_ptr
//@spec
    requires module_context.ready(),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + module_context.log_code(),
//@end
//@fn src/back_end/stack_frame_operations.rs load_temp_frame_ptr
//@spec
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + temp_ptr_code(),
//@end
//@fn src/back_end/stack_frame_operations.rs load_stack_ptr
//@spec
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + stack_ptr_code(),
//@end
//@fn src/back_end/stack_frame_operations.rs restore_previous_frame_ptr
//@spec
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + set_code(0, frame_ptr_code() + seq![WasmInstruction::I32Load { mem_arg: at0() }]),
//@end
//@fn src/back_end/stack_frame_operations.rs increment_stack_ptr_by_known_offset
//@spec
    requires module_context.ready(),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + module_context.bump(offset as i32 as int),
//@end
//@fn src/back_end/stack_frame_operations.rs increment_stack_ptr_dynamic
//@spec
    requires module_context.ready(),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + module_context.bump_code(load_byte_size_instrs@),
//@end
//@fn src/back_end/stack_frame_operations.rs set_stack_ptr_to_frame_ptr
//@spec
    requires module_context.ready(),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + module_context.to_frame_code(),
//@end
//@fn src/back_end/stack_frame_operations.rs set_temp_frame_ptr_to_stack_ptr
//@spec
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + set_code(4, stack_ptr_code()),
//@end
//@fn src/back_end/stack_frame_operations.rs set_frame_ptr_to_temp_frame_ptr
//@spec
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + set_code(0, temp_ptr_code()),
//@end
//@fn src/back_end/stack_frame_operations.rs set_frame_ptr_to_stack_ptr
//@spec
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + set_code(0, stack_ptr_code()),
//@end
