//@include ir.inc
//@include fn_sizes.inc
//@include fn_widx.inc
//@include types_wasm.inc
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
//@include fn_memops.inc
//@include fn_const.inc
//@include types_ctx.inc
//@include fn_frames.inc
//@include fn_calls.inc
//@include fn_tailcalls.inc
//@include lower.inc
#[verifier::external_body]
pub fn vskip<T>() -> (r: T) ensures false { unimplemented!() }
//@include fn_progvars.inc
//@include fn_convert.inc
//@include lib_access.inc
/// the access acts on 64-bit machine values
pub open spec fn wide(i: WasmInstruction) -> bool { i is I64Load || i is I64Load32S || i is I64Load32U || i is I64Store }
pub open spec fn pow_of(bytes: int) -> int { if bytes == 1 { 0x100 } else if bytes == 2 { 0x1_0000 } else if bytes == 4 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000 } }
/// the machine value (as an unsigned number) that the load makes of the bytes of a value
pub open spec fn loaded(op: WasmInstruction, v: int) -> int {
    let m = pow_of(access(op).0);
    let u = v % m;
    let full: int = if wide(op) { 0x1_0000_0000_0000_0000 } else { 0x1_0000_0000 };
    if access(op).1 && u >= m / 2 { u - m + full } else { u }
}
/// what a machine operation on an integer reads its operand as, or gives
pub open spec fn operand(op: WasmInstruction, u: int) -> int {
    match op {
        WasmInstruction::I32WrapI64 => u % 0x1_0000_0000,
        WasmInstruction::F32ConvertI32S | WasmInstruction::F64ConvertI32S => if u >= 0x8000_0000 { u - 0x1_0000_0000 } else { u },
        WasmInstruction::F32ConvertI64S | WasmInstruction::F64ConvertI64S => if u >= 0x8000_0000_0000_0000 { u - 0x1_0000_0000_0000_0000 } else { u },
        _ => u,
    }
}
/// the operation reads a 64-bit operand, and gives a machine value of the kind
pub open spec fn op_wide(op: WasmInstruction) -> bool { op is I32WrapI64 || op is F32ConvertI64S || op is F32ConvertI64U || op is F64ConvertI64S || op is F64ConvertI64U }
pub open spec fn op_kind(op: WasmInstruction) -> int {
    match op { WasmInstruction::F32ConvertI32S | WasmInstruction::F32ConvertI32U | WasmInstruction::F32ConvertI64S | WasmInstruction::F32ConvertI64U => 2, WasmInstruction::F64ConvertI32S | WasmInstruction::F64ConvertI32U | WasmInstruction::F64ConvertI64S | WasmInstruction::F64ConvertI64U => 3, _ => 0 }
}
/// load and operations of a conversion step from an integer variable
pub open spec fn step_code(i: Instruction, from: IrType) -> Seq<WasmInstruction> {
    match i {
        Instruction::I32toU64(..) | Instruction::I32toI64(..) => seq![WasmInstruction::I64Load32S { mem_arg: at0() }],
        Instruction::U32toU64(..) | Instruction::U32toI64(..) => seq![WasmInstruction::I64Load32U { mem_arg: at0() }],
        Instruction::I64toI32(..) | Instruction::U64toI32(..) | Instruction::I64toI8(..) | Instruction::U64toI8(..) | Instruction::I64toU8(..) | Instruction::U64toU8(..) => seq![load_op(from), WasmInstruction::I32WrapI64],
        Instruction::U32toF32(..) => seq![load_op(from), WasmInstruction::F32ConvertI32U],
        Instruction::I32toF32(..) => seq![load_op(from), WasmInstruction::F32ConvertI32S],
        Instruction::U64toF32(..) => seq![load_op(from), WasmInstruction::F32ConvertI64U],
        Instruction::I64toF32(..) => seq![load_op(from), WasmInstruction::F32ConvertI64S],
        Instruction::U32toF64(..) => seq![load_op(from), WasmInstruction::F64ConvertI32U],
        Instruction::I32toF64(..) => seq![load_op(from), WasmInstruction::F64ConvertI32S],
        Instruction::U64toF64(..) => seq![load_op(from), WasmInstruction::F64ConvertI64U],
        Instruction::I64toF64(..) => seq![load_op(from), WasmInstruction::F64ConvertI64S],
        _ => seq![load_op(from)],
    }
}
/// the code of a step between variables is: destination address, source address, load and operations, store
pub proof fn lemma_step_code(i: Instruction, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata, s: VarId)
    requires
        step_parts(i) is Some, step_src(i) == Src::Var(s), p.var_types@[s].integral(), step_from(i, p.var_types@[s]), step_to(i, p.var_types@[step_dest(i)]), !p.is_null(s), !p.is_null(step_dest(i)),
    ensures
        lower(i, fc, mc, p) =~= fc.addr_code(step_dest(i)) + fc.addr_code(s) + step_code(i, p.var_types@[s]) + seq![store_op(p.var_types@[step_dest(i)])],
{}
/// the code of the step computes C's converted value: the stored bytes are those of the wrapped value, an operand converted to floating point is the exact value
pub open spec fn step_good(i: Instruction, from: IrType, to: IrType, v: int) -> bool {
    let code = step_code(i, from);
    &&& access(code[0]).0 == pow_bytes(from)
    &&& code.len() == 1 ==> to.integral() && wide(code[0]) == (kind(to) == 1) && loaded(code[0], v) % modulus(to) == wrap(to, v) % modulus(to)
    &&& code.len() == 2 ==> op_wide(code[1]) == wide(code[0]) && op_kind(code[1]) == kind(to)
        && (to.integral() ==> operand(code[1], loaded(code[0], v)) % modulus(to) == wrap(to, v) % modulus(to))
        && (to.floating() ==> operand(code[1], loaded(code[0], v)) == v)
    &&& 1 <= code.len() <= 2
    &&& access(store_op(to)).0 == pow_bytes(to)
}
#[verifier::spinoff_prover]
proof fn lemma_step_i8(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from == IrType::I8,
    ensures step_good(i, from, to, v),
{
    assert(v % 0x100 == if v < 0 { v + 0x100 } else { v });
    match to {
        IrType::I8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        _ => { assert(step_good(i, from, to, v)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_u8(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from == IrType::U8,
    ensures step_good(i, from, to, v),
{
    assert(v % 0x100 == if v < 0 { v + 0x100 } else { v });
    match to {
        IrType::I8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        _ => { assert(step_good(i, from, to, v)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_i16(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from == IrType::I16,
    ensures step_good(i, from, to, v),
{
    assert(v % 0x1_0000 == if v < 0 { v + 0x1_0000 } else { v });
    match to {
        IrType::I8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        _ => { assert(step_good(i, from, to, v)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_u16(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from == IrType::U16,
    ensures step_good(i, from, to, v),
{
    assert(v % 0x1_0000 == if v < 0 { v + 0x1_0000 } else { v });
    match to {
        IrType::I8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        _ => { assert(step_good(i, from, to, v)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_i32(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from == IrType::I32,
    ensures step_good(i, from, to, v),
{
    assert(v % 0x1_0000_0000 == if v < 0 { v + 0x1_0000_0000 } else { v });
    match to {
        IrType::I8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        _ => { assert(step_good(i, from, to, v)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_u32(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from == IrType::U32,
    ensures step_good(i, from, to, v),
{
    assert(v % 0x1_0000_0000 == if v < 0 { v + 0x1_0000_0000 } else { v });
    match to {
        IrType::I8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        _ => { assert(step_good(i, from, to, v)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_i64(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from == IrType::I64,
    ensures step_good(i, from, to, v),
{
    assert(v % 0x1_0000_0000_0000_0000 == if v < 0 { v + 0x1_0000_0000_0000_0000 } else { v });
    match to {
        IrType::I8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        _ => { assert(step_good(i, from, to, v)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_u64(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from == IrType::U64,
    ensures step_good(i, from, to, v),
{
    assert(v % 0x1_0000_0000_0000_0000 == if v < 0 { v + 0x1_0000_0000_0000_0000 } else { v });
    match to {
        IrType::I8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U8 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U16 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U32 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::I64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        IrType::U64 => { lemma_wrap_mod(to, v); assert(step_good(i, from, to, v)); }
        _ => { assert(step_good(i, from, to, v)); }
    }
}
pub proof fn lemma_step_value(i: Instruction, from: IrType, to: IrType, v: int)
    requires step_parts(i) is Some, to.arithmetic(), step_from(i, from), step_to(i, to), represents(from, v), from.integral(),
    ensures step_good(i, from, to, v),
{
    hide(step_good);
    match from {
        IrType::I8 => lemma_step_i8(i, from, to, v),
        IrType::U8 => lemma_step_u8(i, from, to, v),
        IrType::I16 => lemma_step_i16(i, from, to, v),
        IrType::U16 => lemma_step_u16(i, from, to, v),
        IrType::I32 => lemma_step_i32(i, from, to, v),
        IrType::U32 => lemma_step_u32(i, from, to, v),
        IrType::I64 => lemma_step_i64(i, from, to, v),
        IrType::U64 => lemma_step_u64(i, from, to, v),
        _ => {}
    }
}
pub open spec fn pow_bytes(t: IrType) -> int { if kind(t) == 2 { 4 } else if kind(t) == 3 { 8 } else { t.bits() / 8 } }
//@fn src/back_end/target_code_generation.rs convert_ir_instr_to_wasm
//@split 4
//@only SimpleAssignment I8toI16 I8toU16 U8toI16 U8toU16 I16toI32 U16toI32 I16toU32 U16toU32 I32toU32 I32toU64 U32toU64 I64toU64 I32toI64 U32toI64 I32toI8 U32toI8 I64toI8 U64toI8 I32toU8 U32toU8 I64toU8 U64toU8 I64toI32 U64toI32 U32toF32 I32toF32 U64toF32 I64toF32 U32toF64 I32toF64 U64toF64 I64toF64 F32toF64 F64toI32 U32toPtr I32toPtr PtrToI32
//@attr #[verifier::spinoff_prover]
//@spec
    requires can_lower(instr, old(function_context), module_context, prog_metadata),
    ensures
        final(wasm_instrs)@ =~= old(wasm_instrs)@ + lower(instr, old(function_context), module_context, prog_metadata),
        *final(function_context) == *old(function_context),
//@end
