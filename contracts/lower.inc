// lowering of one instruction: the specification
broadcast use instrs_ext;
/// the vector of a sequence of instructions
pub uninterp spec fn vec_of(s: Seq<WasmInstruction>) -> Vec<WasmInstruction>;
pub broadcast axiom fn vec_of_view(v: Vec<WasmInstruction>) ensures #[trigger] vec_of(v@) == v;
broadcast use vec_of_view;
/// (sequence extensionality)
pub broadcast axiom fn one_instr(v: Vec<WasmInstruction>) requires v@.len() == 1 ensures #[trigger] v@ == seq![v@[0]];
broadcast use one_instr;
/// the kind of machine value: 0 i32, 1 i64, 2 f32, 3 f64
pub open spec fn kind(t: IrType) -> int {
    match t { IrType::I64 | IrType::U64 => 1, IrType::F32 => 2, IrType::F64 => 3, _ => 0 }
}
/// the machine value kind of an operand at a type that is not floating
pub open spec fn whole(t: IrType) -> bool { t.single() && !t.floating() }
/// a unary or binary operator: the machine operation for operands of the type, in the signed variant exactly for signed types
pub open spec fn op_of(i: Instruction, t: IrType) -> WasmInstruction {
    let (k, s) = (kind(t), t.signed());
    match i {
        Instruction::Mult(..) => if k == 0 { WasmInstruction::I32Mul } else if k == 1 { WasmInstruction::I64Mul } else if k == 2 { WasmInstruction::F32Mul } else { WasmInstruction::F64Mul },
        Instruction::Add(..) => if k == 0 { WasmInstruction::I32Add } else if k == 1 { WasmInstruction::I64Add } else if k == 2 { WasmInstruction::F32Add } else { WasmInstruction::F64Add },
        Instruction::Sub(..) => if k == 0 { WasmInstruction::I32Sub } else if k == 1 { WasmInstruction::I64Sub } else if k == 2 { WasmInstruction::F32Sub } else { WasmInstruction::F64Sub },
        Instruction::Div(..) => if k == 0 { if s { WasmInstruction::I32DivS } else { WasmInstruction::I32DivU } } else if k == 1 { if s { WasmInstruction::I64DivS } else { WasmInstruction::I64DivU } } else if k == 2 { WasmInstruction::F32Div } else { WasmInstruction::F64Div },
        Instruction::Mod(..) => if k == 0 { if s { WasmInstruction::I32RemS } else { WasmInstruction::I32RemU } } else { if s { WasmInstruction::I64RemS } else { WasmInstruction::I64RemU } },
        Instruction::LeftShift(..) => if k == 0 { WasmInstruction::I32Shl } else { WasmInstruction::I64Shl },
        Instruction::RightShift(..) => if k == 0 { if s { WasmInstruction::I32ShrS } else { WasmInstruction::I32ShrU } } else { if s { WasmInstruction::I64ShrS } else { WasmInstruction::I64ShrU } },
        Instruction::BitwiseAnd(..) => if k == 0 { WasmInstruction::I32And } else { WasmInstruction::I64And },
        Instruction::BitwiseOr(..) => if k == 0 { WasmInstruction::I32Or } else { WasmInstruction::I64Or },
        Instruction::BitwiseXor(..) => if k == 0 { WasmInstruction::I32Xor } else { WasmInstruction::I64Xor },
        Instruction::LessThan(..) => if k == 0 { if s { WasmInstruction::I32LtS } else { WasmInstruction::I32LtU } } else if k == 1 { if s { WasmInstruction::I64LtS } else { WasmInstruction::I64LtU } } else if k == 2 { WasmInstruction::F32Lt } else { WasmInstruction::F64Lt },
        Instruction::GreaterThan(..) => if k == 0 { if s { WasmInstruction::I32GtS } else { WasmInstruction::I32GtU } } else if k == 1 { if s { WasmInstruction::I64GtS } else { WasmInstruction::I64GtU } } else if k == 2 { WasmInstruction::F32Gt } else { WasmInstruction::F64Gt },
        Instruction::LessThanEq(..) => if k == 0 { if s { WasmInstruction::I32LeS } else { WasmInstruction::I32LeU } } else if k == 1 { if s { WasmInstruction::I64LeS } else { WasmInstruction::I64LeU } } else if k == 2 { WasmInstruction::F32Le } else { WasmInstruction::F64Le },
        Instruction::GreaterThanEq(..) => if k == 0 { if s { WasmInstruction::I32GeS } else { WasmInstruction::I32GeU } } else if k == 1 { if s { WasmInstruction::I64GeS } else { WasmInstruction::I64GeU } } else if k == 2 { WasmInstruction::F32Ge } else { WasmInstruction::F64Ge },
        Instruction::Equal(..) | Instruction::IfEqElse(..) => if k == 0 { WasmInstruction::I32Eq } else if k == 1 { WasmInstruction::I64Eq } else if k == 2 { WasmInstruction::F32Eq } else { WasmInstruction::F64Eq },
        Instruction::NotEqual(..) | Instruction::IfNotEqElse(..) => if k == 0 { WasmInstruction::I32Ne } else if k == 1 { WasmInstruction::I64Ne } else if k == 2 { WasmInstruction::F32Ne } else { WasmInstruction::F64Ne },
        _ => WasmInstruction::Nop,
    }
}
/// 1 when the value on the operand stack, of the type, is zero
pub open spec fn is_zero_code(t: IrType) -> Seq<WasmInstruction> {
    if kind(t) == 0 { seq![WasmInstruction::I32Eqz] } else if kind(t) == 1 { seq![WasmInstruction::I64Eqz] }
    else if kind(t) == 2 { seq![WasmInstruction::F32Const { z: 0.0f32 }, WasmInstruction::F32Eq] } else { seq![WasmInstruction::F64Const { z: 0.0f64 }, WasmInstruction::F64Eq] }
}
pub open spec fn i32_block() -> BlockType { BlockType::ValType(ValType::NumType(NumType::I32)) }
/// a when the operand is true, else b
pub open spec fn pick_code(a: int, b: int) -> WasmInstruction {
    WasmInstruction::IfElse { blocktype: i32_block(), if_instrs: vec_of(seq![c32(a)]), else_instrs: vec_of(seq![c32(b)]) }
}
/// the type at which two operands are compared
pub open spec fn cmp_type(l: Src, r: Src, p: &ProgramMetadata) -> IrType {
    match (l, r) { (Src::Var(v), _) => p.var_types@[v], (_, Src::Var(v)) => p.var_types@[v], (_, Src::Constant(c)) => const_type(c), _ => IrType::Void }
}
pub open spec fn cmp_ok(l: Src, r: Src, p: &ProgramMetadata) -> bool {
    match (l, r) { (Src::Var(v), _) => p.var_types@.contains_key(v), (Src::Constant(_), Src::Var(v)) => p.var_types@.contains_key(v), (Src::Constant(_), Src::Constant(_)) => true, _ => false }
}
impl FunctionContext {
    /// the destination can be written
    pub open spec fn dest_ok(&self, d: VarId, p: &ProgramMetadata) -> bool { self.has(d, p) && p.var_types@.contains_key(d) }
    /// evaluate left then right, apply the operation, store the result in the destination only
    pub open spec fn binary_code(&self, i: Instruction, d: VarId, l: Src, r: Src, t: IrType, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        self.store_var_code(d, self.load_src_code(l, t, p) + self.load_src_code(r, t, p) + seq![op_of(i, t)], p)
    }
    /// one operand's truth value, as a when zero, b otherwise
    pub open spec fn truth_code(&self, s: Src, a: int, b: int, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        self.load_src_code(s, s.ty(p), p) + is_zero_code(s.ty(p)) + seq![pick_code(a, b)]
    }
    pub open spec fn truth_ok(&self, s: Src, p: &ProgramMetadata) -> bool { s.typed(p) && self.can_load(s, s.ty(p), p) && s.ty(p).single() }
    pub open spec fn inside(&self, e: ControlFlowElement) -> FunctionContext {
        FunctionContext { var_fp_offsets: self.var_fp_offsets, global_var_addrs: self.global_var_addrs, label_variable: self.label_variable, control_flow_stack: cf_of(self.control_flow_stack@.push(e)) }
    }
    /// how many constructs are inside the innermost one with the identifier
    pub open spec fn depth_of(&self, e: ControlFlowElement) -> int { cf_depth(self.control_flow_stack@, e) }
}
pub broadcast axiom fn cf_ext(a: Vec<ControlFlowElement>, b: Vec<ControlFlowElement>) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
broadcast use cf_ext;
pub uninterp spec fn cf_of(s: Seq<ControlFlowElement>) -> Vec<ControlFlowElement>;
pub broadcast axiom fn cf_of_view(v: Vec<ControlFlowElement>) ensures #[trigger] cf_of(v@) == v;
broadcast use cf_of_view;
/// constructs entered after the last one equal to e
pub open spec fn cf_depth(s: Seq<ControlFlowElement>, e: ControlFlowElement) -> int
    decreases s.len(),
{
    if s.len() == 0 { -1 } else if s.last() == e { 0 } else { let d = cf_depth(s.drop_last(), e); if d < 0 { -1 } else { d + 1 } }
}
pub open spec fn br(l: int) -> WasmInstruction { WasmInstruction::Br { label_idx: LabelIdx { l: l as u32 } } }
/// the instruction is well formed in the function: what it names exists, with types that its operator has
pub open spec fn can_lower(i: Instruction, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata) -> bool
    decreases i,
{
    match i {
        Instruction::SimpleAssignment(_, d, s) => fc.dest_ok(d, p) && fc.can_load(s, p.var_types@[d], p),
        Instruction::LoadFromAddress(_, d, s) => fc.dest_ok(d, p) && fc.can_load(s, p.var_types@[d], p) && p.var_types@[d].single(),
        Instruction::StoreToAddress(_, d, s) => fc.dest_ok(d, p) && p.var_types@[d] is PointerTo && fc.can_load(s, *p.var_types@[d]->PointerTo_0, p) && p.var_types@[d]->PointerTo_0.single(),
        Instruction::DeclareVariable(..) | Instruction::ReferenceVariable(..) | Instruction::Label(..) | Instruction::Nop(..) => true,
        Instruction::AllocateVariable(_, d, s) => fc.dest_ok(d, p) && fc.can_load(s, IrType::I32, p) && mc.ready(),
        Instruction::AddressOf(_, d, s) => fc.has(d, p) && s is Var && (p.is_null(s->Var_0) || fc.places(s->Var_0)),
        Instruction::BitwiseNot(_, d, s) => fc.dest_ok(d, p) && p.var_types@[d].integral() && fc.can_load(s, p.var_types@[d], p),
        Instruction::LogicalNot(_, d, s) => fc.has(d, p) && fc.truth_ok(s, p) && !(s.ty(p) is ArrayOf),
        Instruction::Mult(_, d, l, r) | Instruction::Div(_, d, l, r) | Instruction::Add(_, d, l, r) | Instruction::Sub(_, d, l, r) =>
            fc.dest_ok(d, p) && p.var_types@[d].single() && fc.can_load(l, p.var_types@[d], p) && fc.can_load(r, p.var_types@[d], p),
        Instruction::Mod(_, d, l, r) | Instruction::LeftShift(_, d, l, r) | Instruction::RightShift(_, d, l, r) | Instruction::BitwiseAnd(_, d, l, r) | Instruction::BitwiseOr(_, d, l, r) | Instruction::BitwiseXor(_, d, l, r) =>
            fc.dest_ok(d, p) && whole(p.var_types@[d]) && fc.can_load(l, p.var_types@[d], p) && fc.can_load(r, p.var_types@[d], p),
        Instruction::LogicalAnd(_, d, l, r) | Instruction::LogicalOr(_, d, l, r) => fc.has(d, p) && fc.truth_ok(l, p) && fc.truth_ok(r, p),
        Instruction::LessThan(_, d, l, r) | Instruction::GreaterThan(_, d, l, r) | Instruction::LessThanEq(_, d, l, r) | Instruction::GreaterThanEq(_, d, l, r) | Instruction::Equal(_, d, l, r) | Instruction::NotEqual(_, d, l, r) =>
            fc.has(d, p) && cmp_ok(l, r, p) && cmp_type(l, r, p).single() && fc.can_load(l, cmp_type(l, r, p), p) && fc.can_load(r, cmp_type(l, r, p), p),
        Instruction::Call(_, d, f, args) =>
            p.function_types@.contains_key(f) && mc.ready() && fc.can_call(p.function_types@[f], args@, p) && mc.fun_id_to_func_idx_map@.contains_key(f)
            && (p.function_types@[f].ret() is Void || (p.function_types@[f].ret().single() && fc.has(d, p))),
        Instruction::TailCall(_, f, args) =>
            p.function_types@.contains_key(f) && mc.ready() && fc.can_call(p.function_types@[f], args@, p) && mc.fun_id_to_func_idx_map@.contains_key(f)
            && args_size(p.function_types@[f], args@, args@.len() as int, p) <= u64::MAX,
        Instruction::Ret(_, s) => s is Some ==> s->0.typed(p) && s->0.ty(p).single() && fc.can_load(s->0, s->0.ty(p), p),
        Instruction::Br(..) | Instruction::BrIfEq(..) | Instruction::BrIfNotEq(..) => false,
        Instruction::PointerToStringLiteral(_, d, l) => fc.has(d, p) && mc.string_literal_id_to_ptr_map@.contains_key(l),
        Instruction::I8toI16(_, d, s) | Instruction::I8toU16(_, d, s) | Instruction::U8toI16(_, d, s) | Instruction::U8toU16(_, d, s) | Instruction::I16toI32(_, d, s) | Instruction::U16toI32(_, d, s)
        | Instruction::I16toU32(_, d, s) | Instruction::U16toU32(_, d, s) | Instruction::I32toU32(_, d, s) | Instruction::I32toI8(_, d, s) | Instruction::U32toI8(_, d, s) | Instruction::I32toU8(_, d, s)
        | Instruction::U32toU8(_, d, s) | Instruction::I64toU64(_, d, s) | Instruction::U32toPtr(_, d, s) | Instruction::I32toPtr(_, d, s) | Instruction::PtrToI32(_, d, s) =>
            fc.dest_ok(d, p) && fc.can_load(s, p.var_types@[d], p),
        Instruction::I32toU64(_, d, s) | Instruction::I32toI64(_, d, s) | Instruction::U32toU64(_, d, s) | Instruction::U32toI64(_, d, s) =>
            fc.has(d, p) && match s { Src::Var(v) => p.is_null(v) || fc.places(v), Src::Constant(c) => c is Int, _ => false },
        Instruction::I64toI32(_, d, s) | Instruction::U64toI32(_, d, s) | Instruction::I64toI8(_, d, s) | Instruction::U64toI8(_, d, s) | Instruction::I64toU8(_, d, s) | Instruction::U64toU8(_, d, s) =>
            fc.has(d, p) && fc.can_load(s, IrType::I64, p),
        Instruction::U32toF32(_, d, s) | Instruction::U32toF64(_, d, s) => fc.has(d, p) && fc.can_load(s, IrType::U32, p),
        Instruction::I32toF32(_, d, s) | Instruction::I32toF64(_, d, s) => fc.has(d, p) && fc.can_load(s, IrType::I32, p),
        Instruction::U64toF32(_, d, s) | Instruction::U64toF64(_, d, s) => fc.has(d, p) && fc.can_load(s, IrType::U64, p),
        Instruction::I64toF32(_, d, s) | Instruction::I64toF64(_, d, s) => fc.has(d, p) && fc.can_load(s, IrType::I64, p),
        Instruction::F32toF64(_, d, s) => fc.has(d, p) && fc.can_load(s, IrType::F32, p),
        Instruction::F64toI32(_, d, s) => fc.has(d, p) && fc.can_load(s, IrType::F64, p),
        Instruction::Break(_, b) => fc.control_flow_stack@.len() <= u32::MAX && fc.depth_of(ControlFlowElement::Block(b)) >= 0,
        Instruction::Continue(_, b) => fc.control_flow_stack@.len() <= u32::MAX && fc.depth_of(ControlFlowElement::Loop(b)) >= 0,
        Instruction::EndHandledBlock(_, b) => fc.control_flow_stack@.len() <= u32::MAX && fc.depth_of(ControlFlowElement::If(b)) >= 0,
        Instruction::IfEqElse(_, l, r, a, b) | Instruction::IfNotEqElse(_, l, r, a, b) =>
            l.typed(p) && l.ty(p).single() && fc.can_load(l, l.ty(p), p) && fc.can_load(r, l.ty(p), p)
            && can_lower_all(a@, &fc.inside(ControlFlowElement::UnlabelledIf), mc, p)
            && can_lower_all(b@, &fc.inside(ControlFlowElement::UnlabelledIf), mc, p),
    }
}
pub open spec fn can_lower_all(s: Seq<Instruction>, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata) -> bool
    decreases s,
{
    s.len() > 0 ==> can_lower_all(s.drop_last(), fc, mc, p) && can_lower(s.last(), fc, mc, p)
}
pub proof fn lemma_can_lower(s: Seq<Instruction>, k: int, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata)
    requires 0 <= k < s.len(), can_lower_all(s, fc, mc, p),
    ensures can_lower(s[k], fc, mc, p),
    decreases s.len(),
{
    if k < s.len() - 1 { lemma_can_lower(s.drop_last(), k, fc, mc, p); }
}
/// the code of one instruction
pub open spec fn lower(i: Instruction, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata) -> Seq<WasmInstruction>
    decreases i,
{
    match i {
        Instruction::SimpleAssignment(_, d, s) => fc.store_var_code(d, fc.load_src_code(s, p.var_types@[d], p), p),
        Instruction::LoadFromAddress(_, d, s) => fc.store_var_code(d, fc.load_src_code(s, p.var_types@[d], p) + seq![load_op(p.var_types@[d])], p),
        Instruction::StoreToAddress(_, d, s) => fc.load_var_code(d, p) + fc.load_src_code(s, *p.var_types@[d]->PointerTo_0, p) + seq![store_op(*p.var_types@[d]->PointerTo_0)],
        Instruction::AllocateVariable(_, d, s) =>
            (if p.is_null(d) { seq![] } else { fc.addr_code(d) }) + stack_ptr_code() + seq![WasmInstruction::I32Store { mem_arg: at0() }] + mc.bump_code(fc.load_src_code(s, IrType::I32, p)),
        Instruction::AddressOf(_, d, s) => fc.store_var_code(d, if p.is_null(s->Var_0) { seq![] } else { fc.addr_code(s->Var_0) }, p),
        Instruction::BitwiseNot(_, d, s) => fc.store_var_code(d, fc.load_src_code(s, p.var_types@[d], p)
            + if kind(p.var_types@[d]) == 0 { seq![c32(-1), WasmInstruction::I32Xor] } else { seq![WasmInstruction::I64Const { n: -1i64 }, WasmInstruction::I64Xor] }, p),
        Instruction::LogicalNot(_, d, s) => fc.store_var_code(d, fc.truth_code(s, 1, 0, p), p),
        Instruction::Mult(_, d, l, r) | Instruction::Div(_, d, l, r) | Instruction::Add(_, d, l, r) | Instruction::Sub(_, d, l, r)
        | Instruction::Mod(_, d, l, r) | Instruction::LeftShift(_, d, l, r) | Instruction::RightShift(_, d, l, r) | Instruction::BitwiseAnd(_, d, l, r) | Instruction::BitwiseOr(_, d, l, r) | Instruction::BitwiseXor(_, d, l, r) =>
            fc.binary_code(i, d, l, r, p.var_types@[d], p),
        Instruction::LogicalAnd(_, d, l, r) => fc.store_var_code(d, fc.truth_code(l, 0, 1, p) + fc.truth_code(r, 0, 1, p) + seq![WasmInstruction::I32And], p),
        Instruction::LogicalOr(_, d, l, r) => fc.store_var_code(d, fc.truth_code(l, 0, 1, p) + fc.truth_code(r, 0, 1, p) + seq![WasmInstruction::I32Or], p),
        Instruction::LessThan(_, d, l, r) | Instruction::GreaterThan(_, d, l, r) | Instruction::LessThanEq(_, d, l, r) | Instruction::GreaterThanEq(_, d, l, r) | Instruction::Equal(_, d, l, r) | Instruction::NotEqual(_, d, l, r) =>
            fc.binary_code(i, d, l, r, cmp_type(l, r, p), p),
        Instruction::Call(_, d, f, args) =>
            fc.frame_code(p.function_types@[f], args@, p, mc) + seq![WasmInstruction::Call { func_idx: mc.fun_id_to_func_idx_map@[f] }] + fc.pop_code(d, p.function_types@[f], p, mc),
        Instruction::TailCall(_, f, args) =>
            fc.tail_code(p.function_types@[f], args@, p, mc) + seq![WasmInstruction::Call { func_idx: mc.fun_id_to_func_idx_map@[f] }, WasmInstruction::Return],
        Instruction::Ret(_, s) => (if s is Some { frame_ptr_code() + seq![c32(4), WasmInstruction::I32Add] + fc.load_src_code(s->0, s->0.ty(p), p) + seq![store_op(s->0.ty(p))] } else { seq![] }) + seq![WasmInstruction::Return],
        Instruction::PointerToStringLiteral(_, d, l) => fc.store_var_code(d, seq![c32(mc.string_literal_id_to_ptr_map@[l] as i32 as int)], p),
        // the load of the source extends by the source's sign, the store of the destination keeps its low bits
        Instruction::I8toI16(_, d, s) | Instruction::I8toU16(_, d, s) | Instruction::U8toI16(_, d, s) | Instruction::U8toU16(_, d, s) | Instruction::I16toI32(_, d, s) | Instruction::U16toI32(_, d, s)
        | Instruction::I16toU32(_, d, s) | Instruction::U16toU32(_, d, s) | Instruction::I32toU32(_, d, s) | Instruction::I32toI8(_, d, s) | Instruction::U32toI8(_, d, s) | Instruction::I32toU8(_, d, s)
        | Instruction::U32toU8(_, d, s) | Instruction::I64toU64(_, d, s) | Instruction::U32toPtr(_, d, s) | Instruction::I32toPtr(_, d, s) | Instruction::PtrToI32(_, d, s) =>
            fc.store_var_code(d, fc.load_src_code(s, p.var_types@[d], p), p),
        Instruction::I32toU64(_, d, s) | Instruction::I32toI64(_, d, s) => fc.store_var_code(d, fc.widen_code(s, WasmInstruction::I64Load32S { mem_arg: at0() }, p), p),
        Instruction::U32toU64(_, d, s) | Instruction::U32toI64(_, d, s) => fc.store_var_code(d, fc.widen_code(s, WasmInstruction::I64Load32U { mem_arg: at0() }, p), p),
        Instruction::I64toI32(_, d, s) | Instruction::U64toI32(_, d, s) | Instruction::I64toI8(_, d, s) | Instruction::U64toI8(_, d, s) | Instruction::I64toU8(_, d, s) | Instruction::U64toU8(_, d, s) =>
            fc.convert_code(d, s, IrType::I64, WasmInstruction::I32WrapI64, p),
        Instruction::U32toF32(_, d, s) => fc.convert_code(d, s, IrType::U32, WasmInstruction::F32ConvertI32U, p),
        Instruction::I32toF32(_, d, s) => fc.convert_code(d, s, IrType::I32, WasmInstruction::F32ConvertI32S, p),
        Instruction::U64toF32(_, d, s) => fc.convert_code(d, s, IrType::U64, WasmInstruction::F32ConvertI64U, p),
        Instruction::I64toF32(_, d, s) => fc.convert_code(d, s, IrType::I64, WasmInstruction::F32ConvertI64S, p),
        Instruction::U32toF64(_, d, s) => fc.convert_code(d, s, IrType::U32, WasmInstruction::F64ConvertI32U, p),
        Instruction::I32toF64(_, d, s) => fc.convert_code(d, s, IrType::I32, WasmInstruction::F64ConvertI32S, p),
        Instruction::U64toF64(_, d, s) => fc.convert_code(d, s, IrType::U64, WasmInstruction::F64ConvertI64U, p),
        Instruction::I64toF64(_, d, s) => fc.convert_code(d, s, IrType::I64, WasmInstruction::F64ConvertI64S, p),
        Instruction::F32toF64(_, d, s) => fc.convert_code(d, s, IrType::F32, WasmInstruction::F64PromoteF32, p),
        Instruction::F64toI32(_, d, s) => fc.convert_code(d, s, IrType::F64, WasmInstruction::I32TruncF64S, p),
        Instruction::Break(_, b) => seq![br(fc.depth_of(ControlFlowElement::Block(b)))],
        Instruction::Continue(_, b) => seq![br(fc.depth_of(ControlFlowElement::Loop(b)))],
        Instruction::EndHandledBlock(_, b) => seq![br(fc.depth_of(ControlFlowElement::If(b)))],
        Instruction::IfEqElse(_, l, r, a, b) | Instruction::IfNotEqElse(_, l, r, a, b) =>
            fc.load_src_code(l, l.ty(p), p) + fc.load_src_code(r, l.ty(p), p) + seq![op_of(i, l.ty(p)), WasmInstruction::IfElse {
                blocktype: BlockType::None,
                if_instrs: vec_of(lower_all(a@, &fc.inside(ControlFlowElement::UnlabelledIf), mc, p)),
                else_instrs: vec_of(lower_all(b@, &fc.inside(ControlFlowElement::UnlabelledIf), mc, p)),
            }],
        _ => seq![],
    }
}
pub open spec fn lower_all(s: Seq<Instruction>, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata) -> Seq<WasmInstruction>
    decreases s,
{
    if s.len() == 0 { seq![] } else { lower_all(s.drop_last(), fc, mc, p) + lower(s.last(), fc, mc, p) }
}
pub proof fn lemma_lower_step(s: Seq<Instruction>, k: int, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata)
    requires 0 <= k < s.len(),
    ensures lower_all(s.subrange(0, k + 1), fc, mc, p) == lower_all(s.subrange(0, k), fc, mc, p) + lower(s[k], fc, mc, p),
{
    let t = s.subrange(0, k + 1);
    assert(t.drop_last() =~= s.subrange(0, k));
    assert(t.last() == s[k]);
}
impl FunctionContext {
    pub open spec fn convert_code(&self, d: VarId, s: Src, t: IrType, op: WasmInstruction, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        self.store_var_code(d, self.load_src_code(s, t, p) + seq![op], p)
    }
    pub open spec fn widen_code(&self, s: Src, op: WasmInstruction, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        match s {
            Src::Var(v) => (if p.is_null(v) { seq![] } else { self.addr_code(v) }) + seq![op],
            Src::Constant(c) => const_code(c, IrType::I64),
            _ => seq![],
        }
    }
}
//@fn src/middle_end/ir_types.rs IrType::dereference_pointer_type
//@ret r
//@spec
    ensures match r { Ok(t) => self is PointerTo && t == *self->PointerTo_0, Err(_) => !(self is PointerTo) },
//@end
//@fn src/back_end/target_code_generation.rs get_src_type_preferably_from_var
//@ret r
//@spec
    requires cmp_ok(*left_src, *right_src, prog_metadata),
    ensures r == cmp_type(*left_src, *right_src, prog_metadata),
//@end
