// conversion steps
/// the step, from a value of which type, to a value of which type
pub open spec fn step_from(i: Instruction, t: IrType) -> bool {
    match i {
        Instruction::SimpleAssignment(..) => t is Function || t is ArrayOf || t is PointerTo,
        Instruction::I8toI16(..) | Instruction::I8toU16(..) => t is I8,
        Instruction::U8toI16(..) | Instruction::U8toU16(..) => t is U8,
        Instruction::I16toI32(..) | Instruction::I16toU32(..) => t is I16,
        Instruction::U16toI32(..) | Instruction::U16toU32(..) => t is U16,
        Instruction::I32toU32(..) | Instruction::I32toU64(..) | Instruction::I32toI64(..) | Instruction::I32toI8(..) | Instruction::I32toU8(..) | Instruction::I32toF32(..) | Instruction::I32toF64(..) | Instruction::I32toPtr(..) => t is I32,
        Instruction::U32toU64(..) | Instruction::U32toI64(..) | Instruction::U32toI8(..) | Instruction::U32toU8(..) | Instruction::U32toF32(..) | Instruction::U32toF64(..) | Instruction::U32toPtr(..) => t is U32,
        Instruction::I64toU64(..) | Instruction::I64toI8(..) | Instruction::I64toU8(..) | Instruction::I64toI32(..) | Instruction::I64toF32(..) | Instruction::I64toF64(..) => t is I64,
        Instruction::U64toI8(..) | Instruction::U64toU8(..) | Instruction::U64toI32(..) | Instruction::U64toF32(..) | Instruction::U64toF64(..) => t is U64,
        Instruction::F32toF64(..) => t is F32,
        Instruction::F64toI32(..) => t is F64,
        Instruction::PtrToI32(..) => t is PointerTo,
        _ => false,
    }
}
pub open spec fn step_to(i: Instruction, t: IrType) -> bool {
    match i {
        Instruction::SimpleAssignment(..) => t is PointerTo,
        Instruction::I8toI16(..) | Instruction::U8toI16(..) => t is I16,
        Instruction::I8toU16(..) | Instruction::U8toU16(..) => t is U16,
        Instruction::I16toI32(..) | Instruction::U16toI32(..) | Instruction::I64toI32(..) | Instruction::U64toI32(..) | Instruction::F64toI32(..) | Instruction::PtrToI32(..) => t is I32,
        Instruction::I16toU32(..) | Instruction::U16toU32(..) | Instruction::I32toU32(..) => t is U32,
        Instruction::I32toU64(..) | Instruction::U32toU64(..) | Instruction::I64toU64(..) => t is U64,
        Instruction::I32toI64(..) | Instruction::U32toI64(..) => t is I64,
        Instruction::I32toI8(..) | Instruction::U32toI8(..) | Instruction::I64toI8(..) | Instruction::U64toI8(..) => t is I8,
        Instruction::I32toU8(..) | Instruction::U32toU8(..) | Instruction::I64toU8(..) | Instruction::U64toU8(..) => t is U8,
        Instruction::U32toF32(..) | Instruction::I32toF32(..) | Instruction::U64toF32(..) | Instruction::I64toF32(..) => t is F32,
        Instruction::U32toF64(..) | Instruction::I32toF64(..) | Instruction::U64toF64(..) | Instruction::I64toF64(..) | Instruction::F32toF64(..) => t is F64,
        Instruction::U32toPtr(..) | Instruction::I32toPtr(..) => t is PointerTo,
        _ => false,
    }
}
pub open spec fn step_parts(i: Instruction) -> Option<(VarId, Src)> {
    match i {
        Instruction::SimpleAssignment(_, d, s) | Instruction::I8toI16(_, d, s) | Instruction::I8toU16(_, d, s) | Instruction::U8toI16(_, d, s) | Instruction::U8toU16(_, d, s) | Instruction::I16toI32(_, d, s) | Instruction::U16toI32(_, d, s) | Instruction::I16toU32(_, d, s) | Instruction::U16toU32(_, d, s) | Instruction::I32toU32(_, d, s) | Instruction::I32toU64(_, d, s) | Instruction::U32toU64(_, d, s) | Instruction::I64toU64(_, d, s) | Instruction::I32toI64(_, d, s) | Instruction::U32toI64(_, d, s) | Instruction::I32toI8(_, d, s) | Instruction::U32toI8(_, d, s) | Instruction::I64toI8(_, d, s) | Instruction::U64toI8(_, d, s) | Instruction::I32toU8(_, d, s) | Instruction::U32toU8(_, d, s) | Instruction::I64toU8(_, d, s) | Instruction::U64toU8(_, d, s) | Instruction::I64toI32(_, d, s) | Instruction::U64toI32(_, d, s) | Instruction::U32toF32(_, d, s) | Instruction::I32toF32(_, d, s) | Instruction::U64toF32(_, d, s) | Instruction::I64toF32(_, d, s) | Instruction::U32toF64(_, d, s) | Instruction::I32toF64(_, d, s) | Instruction::U64toF64(_, d, s) | Instruction::I64toF64(_, d, s) | Instruction::F32toF64(_, d, s) | Instruction::F64toI32(_, d, s) | Instruction::U32toPtr(_, d, s) | Instruction::I32toPtr(_, d, s) | Instruction::PtrToI32(_, d, s) => Some((d, s)),
        _ => None,
    }
}
