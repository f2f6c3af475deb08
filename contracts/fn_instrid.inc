// the identity of an instruction
impl Instruction {
    pub open spec fn id(&self) -> InstructionId {
        match *self {
            Instruction::SimpleAssignment(i, ..) | Instruction::LoadFromAddress(i, ..) | Instruction::StoreToAddress(i, ..) | Instruction::DeclareVariable(i, ..) | Instruction::AllocateVariable(i, ..) | Instruction::ReferenceVariable(i, ..) | Instruction::AddressOf(i, ..) | Instruction::BitwiseNot(i, ..) | Instruction::LogicalNot(i, ..) | Instruction::Mult(i, ..) | Instruction::Div(i, ..) | Instruction::Mod(i, ..) | Instruction::Add(i, ..) | Instruction::Sub(i, ..) | Instruction::LeftShift(i, ..) | Instruction::RightShift(i, ..) | Instruction::BitwiseAnd(i, ..) | Instruction::BitwiseOr(i, ..) | Instruction::BitwiseXor(i, ..) | Instruction::LogicalAnd(i, ..) | Instruction::LogicalOr(i, ..) | Instruction::LessThan(i, ..) | Instruction::GreaterThan(i, ..) | Instruction::LessThanEq(i, ..) | Instruction::GreaterThanEq(i, ..) | Instruction::Equal(i, ..) | Instruction::NotEqual(i, ..) | Instruction::Call(i, ..) | Instruction::TailCall(i, ..) | Instruction::Ret(i, ..) | Instruction::Label(i, ..) | Instruction::Br(i, ..) | Instruction::BrIfEq(i, ..) | Instruction::BrIfNotEq(i, ..) | Instruction::PointerToStringLiteral(i, ..) | Instruction::I8toI16(i, ..) | Instruction::I8toU16(i, ..) | Instruction::U8toI16(i, ..) | Instruction::U8toU16(i, ..) | Instruction::I16toI32(i, ..) | Instruction::U16toI32(i, ..) | Instruction::I16toU32(i, ..) | Instruction::U16toU32(i, ..) | Instruction::I32toU32(i, ..) | Instruction::I32toU64(i, ..) | Instruction::U32toU64(i, ..) | Instruction::I64toU64(i, ..) | Instruction::I32toI64(i, ..) | Instruction::U32toI64(i, ..) | Instruction::U32toF32(i, ..) | Instruction::I32toF32(i, ..) | Instruction::U64toF32(i, ..) | Instruction::I64toF32(i, ..) | Instruction::U32toF64(i, ..) | Instruction::I32toF64(i, ..) | Instruction::U64toF64(i, ..) | Instruction::I64toF64(i, ..) | Instruction::F32toF64(i, ..) | Instruction::F64toI32(i, ..) | Instruction::I32toI8(i, ..) | Instruction::U32toI8(i, ..) | Instruction::I64toI8(i, ..) | Instruction::U64toI8(i, ..) | Instruction::I32toU8(i, ..) | Instruction::U32toU8(i, ..) | Instruction::I64toU8(i, ..) | Instruction::U64toU8(i, ..) | Instruction::I64toI32(i, ..) | Instruction::U64toI32(i, ..) | Instruction::U32toPtr(i, ..) | Instruction::I32toPtr(i, ..) | Instruction::PtrToI32(i, ..) | Instruction::Nop(i, ..) | Instruction::Break(i, ..) | Instruction::Continue(i, ..) | Instruction::EndHandledBlock(i, ..) | Instruction::IfEqElse(i, ..) | Instruction::IfNotEqElse(i, ..) => i,
        }
    }
}
//@fn src/middle_end/instructions.rs Instruction::get_instr_id
//@ret r
//@spec
    ensures r == self.id(),
//@end
