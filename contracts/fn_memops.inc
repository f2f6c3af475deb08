// memory operations
pub open spec fn at0() -> MemArg { MemArg { align: 0, offset: 0 } }
pub open spec fn at2() -> MemArg { MemArg { align: 2, offset: 0 } }
pub open spec fn c32(n: int) -> WasmInstruction { WasmInstruction::I32Const { n: n as i32 } }
impl IrType {
    /// a value of the type is held in one machine value
    pub open spec fn single(&self) -> bool { self.arithmetic() || *self is PointerTo || *self is ArrayOf }
}
/// the load of exactly the width of the type, sign-extending exactly when the type is signed
pub open spec fn load_op(t: IrType) -> WasmInstruction {
    match t {
        IrType::I8 => WasmInstruction::I32Load8S { mem_arg: at0() },
        IrType::U8 => WasmInstruction::I32Load8U { mem_arg: at0() },
        IrType::I16 => WasmInstruction::I32Load16S { mem_arg: at0() },
        IrType::U16 => WasmInstruction::I32Load16U { mem_arg: at0() },
        IrType::I64 | IrType::U64 => WasmInstruction::I64Load { mem_arg: at0() },
        IrType::F32 => WasmInstruction::F32Load { mem_arg: at0() },
        IrType::F64 => WasmInstruction::F64Load { mem_arg: at0() },
        _ => WasmInstruction::I32Load { mem_arg: at0() },
    }
}
/// the store of exactly the width of the type
pub open spec fn store_op(t: IrType) -> WasmInstruction {
    match t {
        IrType::I8 | IrType::U8 => WasmInstruction::I32Store8 { mem_arg: at0() },
        IrType::I16 | IrType::U16 => WasmInstruction::I32Store16 { mem_arg: at0() },
        IrType::I64 | IrType::U64 => WasmInstruction::I64Store { mem_arg: at0() },
        IrType::F32 => WasmInstruction::F32Store { mem_arg: at0() },
        IrType::F64 => WasmInstruction::F64Store { mem_arg: at0() },
        _ => WasmInstruction::I32Store { mem_arg: at0() },
    }
}
pub open spec fn frame_ptr_code() -> Seq<WasmInstruction> { seq![c32(0), WasmInstruction::I32Load { mem_arg: at2() }] }
impl ProgramMetadata {
    pub open spec fn is_null(&self, v: VarId) -> bool { self.null_dest_var == Some(v) }
}
impl FunctionContext {
    pub open spec fn places(&self, v: VarId) -> bool { self.var_fp_offsets@.contains_key(v) || self.global_var_addrs@.contains_key(v) }
    /// the address of a variable: its offset from the frame pointer, or its absolute address when global
    pub open spec fn addr_code(&self, v: VarId) -> Seq<WasmInstruction> {
        if self.var_fp_offsets@.contains_key(v) { frame_ptr_code() + seq![c32(self.var_fp_offsets@[v] as i32 as int), WasmInstruction::I32Add] }
        else { seq![c32(self.global_var_addrs@[v] as i32 as int)] }
    }
    /// a variable that the function can access
    pub open spec fn has(&self, v: VarId, p: &ProgramMetadata) -> bool {
        p.is_null(v) || (self.places(v) && p.var_types@.contains_key(v) && p.var_types@[v].single())
    }
    pub open spec fn load_var_code(&self, v: VarId, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        if p.is_null(v) { seq![] } else { self.addr_code(v).push(load_op(p.var_types@[v])) }
    }
    pub open spec fn store_var_code(&self, v: VarId, value: Seq<WasmInstruction>, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        if p.is_null(v) { seq![] } else { self.addr_code(v) + value + seq![store_op(p.var_types@[v])] }
    }
    pub open spec fn can_load(&self, s: Src, t: IrType, p: &ProgramMetadata) -> bool {
        match s {
            Src::Var(v) => self.has(v, p),
            Src::Constant(c) => constant_of(c, t),
            _ => false,
        }
    }
    pub open spec fn load_src_code(&self, s: Src, t: IrType, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        match s {
            Src::Var(v) => self.load_var_code(v, p),
            Src::Constant(c) => const_code(c, t),
            _ => seq![],
        }
    }
}
/// a constant can be loaded as a value of the type
pub open spec fn constant_of(c: Constant, t: IrType) -> bool { (t.arithmetic() || t is PointerTo) && (c is Int || t.floating()) }
pub uninterp spec fn int_f32(n: i128) -> f32;
pub uninterp spec fn int_f64(n: i128) -> f64;
pub uninterp spec fn f64_f32(z: f64) -> f32;
/// Rust's casts to floating point are functions of the value (no NaN payloads are involved)
pub broadcast axiom fn cast_i_f32(n: i128, r: f32) requires #[trigger] vstd::float::float_cast_spec(n, r) ensures r == int_f32(n);
pub broadcast axiom fn cast_i_f64(n: i128, r: f64) requires #[trigger] vstd::float::float_cast_spec(n, r) ensures r == int_f64(n);
pub broadcast axiom fn cast_f_f32(n: f64, r: f32) requires #[trigger] vstd::float::float_cast_spec(n, r) ensures r == f64_f32(n);
broadcast use cast_i_f32;
broadcast use cast_i_f64;
broadcast use cast_f_f32;
pub open spec fn const_code(c: Constant, t: IrType) -> Seq<WasmInstruction> {
    seq![match (t, c) {
        (IrType::I64 | IrType::U64, Constant::Int(n)) => WasmInstruction::I64Const { n: n as i64 },
        (IrType::F32, Constant::Int(n)) => WasmInstruction::F32Const { z: int_f32(n) },
        (IrType::F32, Constant::Float(z)) => WasmInstruction::F32Const { z: f64_f32(z) },
        (IrType::F64, Constant::Int(n)) => WasmInstruction::F64Const { z: int_f64(n) },
        (IrType::F64, Constant::Float(z)) => WasmInstruction::F64Const { z },
        (_, Constant::Int(n)) => WasmInstruction::I32Const { n: n as i32 },
        _ => WasmInstruction::Nop,
    }]
}
//@fn src/middle_end/ir.rs ProgramMetadata::get_var_type
//@ret r
//@spec
    ensures match r { Ok(t) => self.var_types@.contains_key(*var) && t == self.var_types@[*var], Err(_) => !self.var_types@.contains_key(*var) },
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::is_var_the_null_dest
//@ret r
//@spec
    ensures r == self.is_null(*dest),
//@end
//@fn src/back_end/wasm_instructions.rs MemArg::zero
//@ret r
//@spec
    ensures r == at0(),
//@end
//@fn src/back_end/stack_frame_operations.rs load_frame_ptr
//@spec
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + frame_ptr_code(),
//@end
//@fn src/back_end/memory_operations.rs load
//@spec
    requires value_type.single(),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@.push(load_op(value_type)),
//@end
//@fn src/back_end/memory_operations.rs store
//@spec
    requires value_type.single(),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@.push(store_op(value_type)),
//@end
//@fn src/back_end/memory_operations.rs load_var_address
//@spec
    requires prog_metadata.is_null(*var_id) || function_context.places(*var_id),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + if prog_metadata.is_null(*var_id) { seq![] } else { function_context.addr_code(*var_id) },
//@end
//@fn src/back_end/memory_operations.rs load_var
//@spec
    requires function_context.has(var_id, prog_metadata),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + function_context.load_var_code(var_id, prog_metadata),
//@end
//@fn src/back_end/memory_operations.rs store_var
//@spec
    requires function_context.has(var_id, prog_metadata),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + function_context.store_var_code(var_id, store_value_instrs@, prog_metadata),
//@end
//@fn src/back_end/memory_operations.rs load_constant
//@spec
    requires constant_of(constant, constant_type),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + const_code(constant, constant_type),
//@end
//@fn src/back_end/memory_operations.rs load_src
//@spec
    requires function_context.can_load(src, dest_type, prog_metadata),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + function_context.load_src_code(src, dest_type, prog_metadata),
//@end
