// what an instruction assigns and what it reads
pub open spec fn src_vars(s: Src) -> Set<VarId> {
    match s { Src::Var(v) => set![v], Src::StoreAddressVar(v) => set![v], _ => Set::empty() }
}
pub open spec fn srcs_vars(s: Seq<Src>) -> Set<VarId>
    decreases s.len(),
{
    if s.len() == 0 { Set::empty() } else { srcs_vars(s.drop_last()).union(src_vars(s.last())) }
}
/// the variable an instruction assigns
pub open spec fn def_var(i: Instruction) -> Option<VarId> {
    match i {
        Instruction::SimpleAssignment(_, d, _) | Instruction::LoadFromAddress(_, d, _) | Instruction::AllocateVariable(_, d, _) | Instruction::AddressOf(_, d, _) | Instruction::BitwiseNot(_, d, _) | Instruction::LogicalNot(_, d, _) | Instruction::I8toI16(_, d, _) | Instruction::I8toU16(_, d, _) | Instruction::U8toI16(_, d, _) | Instruction::U8toU16(_, d, _) | Instruction::I16toI32(_, d, _) | Instruction::U16toI32(_, d, _) | Instruction::I16toU32(_, d, _) | Instruction::U16toU32(_, d, _) | Instruction::I32toU32(_, d, _) | Instruction::I32toU64(_, d, _) | Instruction::U32toU64(_, d, _) | Instruction::I64toU64(_, d, _) | Instruction::I32toI64(_, d, _) | Instruction::U32toI64(_, d, _) | Instruction::U32toF32(_, d, _) | Instruction::I32toF32(_, d, _) | Instruction::U64toF32(_, d, _) | Instruction::I64toF32(_, d, _) | Instruction::U32toF64(_, d, _) | Instruction::I32toF64(_, d, _) | Instruction::U64toF64(_, d, _) | Instruction::I64toF64(_, d, _) | Instruction::F32toF64(_, d, _) | Instruction::F64toI32(_, d, _) | Instruction::I32toI8(_, d, _) | Instruction::U32toI8(_, d, _) | Instruction::I64toI8(_, d, _) | Instruction::U64toI8(_, d, _) | Instruction::I32toU8(_, d, _) | Instruction::U32toU8(_, d, _) | Instruction::I64toU8(_, d, _) | Instruction::U64toU8(_, d, _) | Instruction::I64toI32(_, d, _) | Instruction::U64toI32(_, d, _) | Instruction::U32toPtr(_, d, _) | Instruction::I32toPtr(_, d, _) | Instruction::PtrToI32(_, d, _) => Some(d),
        Instruction::Mult(_, d, _, _) | Instruction::Div(_, d, _, _) | Instruction::Mod(_, d, _, _) | Instruction::Add(_, d, _, _) | Instruction::Sub(_, d, _, _) | Instruction::LeftShift(_, d, _, _) | Instruction::RightShift(_, d, _, _) | Instruction::BitwiseAnd(_, d, _, _) | Instruction::BitwiseOr(_, d, _, _) | Instruction::BitwiseXor(_, d, _, _) | Instruction::LogicalAnd(_, d, _, _) | Instruction::LogicalOr(_, d, _, _) | Instruction::LessThan(_, d, _, _) | Instruction::GreaterThan(_, d, _, _) | Instruction::LessThanEq(_, d, _, _) | Instruction::GreaterThanEq(_, d, _, _) | Instruction::Equal(_, d, _, _) | Instruction::NotEqual(_, d, _, _) => Some(d),
        Instruction::DeclareVariable(_, d) => Some(d),
        Instruction::Call(_, d, _, _) => Some(d),
        Instruction::PointerToStringLiteral(_, d, _) => Some(d),
        _ => None,
    }
}
pub open spec fn defs(i: Instruction) -> Set<VarId> { match def_var(i) { Some(d) => set![d], None => Set::empty() } }
/// the variables an instruction reads (taking an address counts; storing through a pointer reads the pointer)
pub open spec fn refs(i: Instruction) -> Set<VarId> {
    match i {
        Instruction::SimpleAssignment(_, _, s) | Instruction::LoadFromAddress(_, _, s) | Instruction::AllocateVariable(_, _, s) | Instruction::AddressOf(_, _, s) | Instruction::BitwiseNot(_, _, s) | Instruction::LogicalNot(_, _, s) | Instruction::I8toI16(_, _, s) | Instruction::I8toU16(_, _, s) | Instruction::U8toI16(_, _, s) | Instruction::U8toU16(_, _, s) | Instruction::I16toI32(_, _, s) | Instruction::U16toI32(_, _, s) | Instruction::I16toU32(_, _, s) | Instruction::U16toU32(_, _, s) | Instruction::I32toU32(_, _, s) | Instruction::I32toU64(_, _, s) | Instruction::U32toU64(_, _, s) | Instruction::I64toU64(_, _, s) | Instruction::I32toI64(_, _, s) | Instruction::U32toI64(_, _, s) | Instruction::U32toF32(_, _, s) | Instruction::I32toF32(_, _, s) | Instruction::U64toF32(_, _, s) | Instruction::I64toF32(_, _, s) | Instruction::U32toF64(_, _, s) | Instruction::I32toF64(_, _, s) | Instruction::U64toF64(_, _, s) | Instruction::I64toF64(_, _, s) | Instruction::F32toF64(_, _, s) | Instruction::F64toI32(_, _, s) | Instruction::I32toI8(_, _, s) | Instruction::U32toI8(_, _, s) | Instruction::I64toI8(_, _, s) | Instruction::U64toI8(_, _, s) | Instruction::I32toU8(_, _, s) | Instruction::U32toU8(_, _, s) | Instruction::I64toU8(_, _, s) | Instruction::U64toU8(_, _, s) | Instruction::I64toI32(_, _, s) | Instruction::U64toI32(_, _, s) | Instruction::U32toPtr(_, _, s) | Instruction::I32toPtr(_, _, s) | Instruction::PtrToI32(_, _, s) => src_vars(s),
        Instruction::Mult(_, _, l, r) | Instruction::Div(_, _, l, r) | Instruction::Mod(_, _, l, r) | Instruction::Add(_, _, l, r) | Instruction::Sub(_, _, l, r) | Instruction::LeftShift(_, _, l, r) | Instruction::RightShift(_, _, l, r) | Instruction::BitwiseAnd(_, _, l, r) | Instruction::BitwiseOr(_, _, l, r) | Instruction::BitwiseXor(_, _, l, r) | Instruction::LogicalAnd(_, _, l, r) | Instruction::LogicalOr(_, _, l, r) | Instruction::LessThan(_, _, l, r) | Instruction::GreaterThan(_, _, l, r) | Instruction::LessThanEq(_, _, l, r) | Instruction::GreaterThanEq(_, _, l, r) | Instruction::Equal(_, _, l, r) | Instruction::NotEqual(_, _, l, r) => src_vars(l).union(src_vars(r)),
        Instruction::StoreToAddress(_, p, s) => set![p].union(src_vars(s)),
        Instruction::ReferenceVariable(_, v) => set![v],
        Instruction::Call(_, _, _, args) | Instruction::TailCall(_, _, args) => srcs_vars(args@),
        Instruction::Ret(_, Some(s)) => src_vars(s),
        Instruction::IfEqElse(_, l, r, _, _) | Instruction::IfNotEqElse(_, l, r, _, _) | Instruction::BrIfEq(_, l, r, _) | Instruction::BrIfNotEq(_, l, r, _) => src_vars(l).union(src_vars(r)),
        _ => Set::empty(),
    }
}
/// branches that the relooper has removed before any of this
pub open spec fn unstructured(i: Instruction) -> bool { i is Br || i is BrIfEq || i is BrIfNotEq }
//@fn src/back_end/dataflow_analysis/instruction_def_ref.rs def_set
//@ret r
//@spec
    ensures r@ =~= defs(*instr),
//@end
//@fn src/back_end/dataflow_analysis/instruction_def_ref.rs ref_set
//@ret r
//@spec
    requires !unstructured(*instr),
    ensures r@ =~= refs(*instr),
//@iter 0 it
//@loop 0
    invariant
        it.seq().len() == srcs@.len(),
        forall|j: int| 0 <= j < srcs@.len() ==> *#[trigger] it.seq()[j] == srcs@[j],
        referenced_vars@ =~= srcs_vars(srcs@.subrange(0, it.index@ as int)),
//@loop 0 start
    proof { let t = srcs@.subrange(0, it.index@ + 1); assert(t.drop_last() =~= srcs@.subrange(0, it.index@ as int)); }
//@loop 0 after
    proof { assert(srcs@.subrange(0, srcs@.len() as int) =~= srcs@); }
//@end
