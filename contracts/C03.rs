// GENERATED by tools/gen/c03.py (oracle: opcode table of the WebAssembly core specification).
//@include lib_leb.inc
//@include fn_uleb.inc
//@include fn_sleb.inc
//@include lib_enc.inc
//@include fn_wasm_types.inc
//@include fn_wasm_indices.inc
//@type src/back_end/wasm_instructions.rs WasmExpression
//@type src/back_end/wasm_instructions.rs BlockType
//@type src/back_end/wasm_instructions.rs MemArg
//@type src/back_end/wasm_instructions.rs WasmInstruction

//@fn src/back_end/wasm_instructions.rs ToBytes for BlockType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> {
        match self { BlockType::None => seq![0x40u8], BlockType::ValType(t) => t.enc(), BlockType::TypeIndex(i) => sleb(*i as int) }
    }
//@ret r
//@end

//@fn src/back_end/wasm_instructions.rs ToBytes for MemArg::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.align as nat) + uleb(self.offset as nat) }
//@ret r
//@end

// ---- the instruction encoding of the specification -----------------------------------------
/// opcode byte
pub open spec fn op_first(i: WasmInstruction) -> u8 {
    match i {
        WasmInstruction::Unreachable => 0,
        WasmInstruction::Nop => 1,
        WasmInstruction::Br { .. } => 12,
        WasmInstruction::BrIf { .. } => 13,
        WasmInstruction::BrTable { .. } => 14,
        WasmInstruction::Return => 15,
        WasmInstruction::Call { .. } => 16,
        WasmInstruction::CallIndirect { .. } => 17,
        WasmInstruction::RefNull { .. } => 208,
        WasmInstruction::RefIsNull => 209,
        WasmInstruction::RefFunc { .. } => 210,
        WasmInstruction::Drop => 26,
        WasmInstruction::Select => 27,
        WasmInstruction::SelectTyped { .. } => 28,
        WasmInstruction::LocalGet { .. } => 32,
        WasmInstruction::LocalSet { .. } => 33,
        WasmInstruction::LocalTee { .. } => 34,
        WasmInstruction::GlobalGet { .. } => 35,
        WasmInstruction::GlobalSet { .. } => 36,
        WasmInstruction::TableGet { .. } => 37,
        WasmInstruction::TableSet { .. } => 38,
        WasmInstruction::TableInit { .. } => 252,
        WasmInstruction::ElemDrop { .. } => 252,
        WasmInstruction::TableCopy { .. } => 252,
        WasmInstruction::TableGrow { .. } => 252,
        WasmInstruction::TableSize { .. } => 252,
        WasmInstruction::TableFill { .. } => 252,
        WasmInstruction::I32Load { .. } => 40,
        WasmInstruction::I64Load { .. } => 41,
        WasmInstruction::F32Load { .. } => 42,
        WasmInstruction::F64Load { .. } => 43,
        WasmInstruction::I32Load8S { .. } => 44,
        WasmInstruction::I32Load8U { .. } => 45,
        WasmInstruction::I32Load16S { .. } => 46,
        WasmInstruction::I32Load16U { .. } => 47,
        WasmInstruction::I64Load8S { .. } => 48,
        WasmInstruction::I64Load8U { .. } => 49,
        WasmInstruction::I64Load16S { .. } => 50,
        WasmInstruction::I64Load16U { .. } => 51,
        WasmInstruction::I64Load32S { .. } => 52,
        WasmInstruction::I64Load32U { .. } => 53,
        WasmInstruction::I32Store { .. } => 54,
        WasmInstruction::I64Store { .. } => 55,
        WasmInstruction::F32Store { .. } => 56,
        WasmInstruction::F64Store { .. } => 57,
        WasmInstruction::I32Store8 { .. } => 58,
        WasmInstruction::I32Store16 { .. } => 59,
        WasmInstruction::I64Store8 { .. } => 60,
        WasmInstruction::I64Store16 { .. } => 61,
        WasmInstruction::I64Store32 { .. } => 62,
        WasmInstruction::MemorySize => 63,
        WasmInstruction::MemoryGrow => 64,
        WasmInstruction::MemoryInit { .. } => 252,
        WasmInstruction::DataDrop { .. } => 252,
        WasmInstruction::MemoryCopy => 252,
        WasmInstruction::MemoryFill => 252,
        WasmInstruction::I32Const { .. } => 65,
        WasmInstruction::I64Const { .. } => 66,
        WasmInstruction::F32Const { .. } => 67,
        WasmInstruction::F64Const { .. } => 68,
        WasmInstruction::I32Eqz => 69,
        WasmInstruction::I32Eq => 70,
        WasmInstruction::I32Ne => 71,
        WasmInstruction::I32LtS => 72,
        WasmInstruction::I32LtU => 73,
        WasmInstruction::I32GtS => 74,
        WasmInstruction::I32GtU => 75,
        WasmInstruction::I32LeS => 76,
        WasmInstruction::I32LeU => 77,
        WasmInstruction::I32GeS => 78,
        WasmInstruction::I32GeU => 79,
        WasmInstruction::I64Eqz => 80,
        WasmInstruction::I64Eq => 81,
        WasmInstruction::I64Ne => 82,
        WasmInstruction::I64LtS => 83,
        WasmInstruction::I64LtU => 84,
        WasmInstruction::I64GtS => 85,
        WasmInstruction::I64GtU => 86,
        WasmInstruction::I64LeS => 87,
        WasmInstruction::I64LeU => 88,
        WasmInstruction::I64GeS => 89,
        WasmInstruction::I64GeU => 90,
        WasmInstruction::F32Eq => 91,
        WasmInstruction::F32Ne => 92,
        WasmInstruction::F32Lt => 93,
        WasmInstruction::F32Gt => 94,
        WasmInstruction::F32Le => 95,
        WasmInstruction::F32Ge => 96,
        WasmInstruction::F64Eq => 97,
        WasmInstruction::F64Ne => 98,
        WasmInstruction::F64Lt => 99,
        WasmInstruction::F64Gt => 100,
        WasmInstruction::F64Le => 101,
        WasmInstruction::F64Ge => 102,
        WasmInstruction::I32Clz => 103,
        WasmInstruction::I32Ctz => 104,
        WasmInstruction::I32PopCnt => 105,
        WasmInstruction::I32Add => 106,
        WasmInstruction::I32Sub => 107,
        WasmInstruction::I32Mul => 108,
        WasmInstruction::I32DivS => 109,
        WasmInstruction::I32DivU => 110,
        WasmInstruction::I32RemS => 111,
        WasmInstruction::I32RemU => 112,
        WasmInstruction::I32And => 113,
        WasmInstruction::I32Or => 114,
        WasmInstruction::I32Xor => 115,
        WasmInstruction::I32Shl => 116,
        WasmInstruction::I32ShrS => 117,
        WasmInstruction::I32ShrU => 118,
        WasmInstruction::I32RotL => 119,
        WasmInstruction::I32RotR => 120,
        WasmInstruction::I64Clz => 121,
        WasmInstruction::I64Ctz => 122,
        WasmInstruction::I64PopCnt => 123,
        WasmInstruction::I64Add => 124,
        WasmInstruction::I64Sub => 125,
        WasmInstruction::I64Mul => 126,
        WasmInstruction::I64DivS => 127,
        WasmInstruction::I64DivU => 128,
        WasmInstruction::I64RemS => 129,
        WasmInstruction::I64RemU => 130,
        WasmInstruction::I64And => 131,
        WasmInstruction::I64Or => 132,
        WasmInstruction::I64Xor => 133,
        WasmInstruction::I64Shl => 134,
        WasmInstruction::I64ShrS => 135,
        WasmInstruction::I64ShrU => 136,
        WasmInstruction::I64RotL => 137,
        WasmInstruction::I64RotR => 138,
        WasmInstruction::F32Abs => 139,
        WasmInstruction::F32Neg => 140,
        WasmInstruction::F32Ceil => 141,
        WasmInstruction::F32Floor => 142,
        WasmInstruction::F32Trunc => 143,
        WasmInstruction::F32Nearest => 144,
        WasmInstruction::F32Sqrt => 145,
        WasmInstruction::F32Add => 146,
        WasmInstruction::F32Sub => 147,
        WasmInstruction::F32Mul => 148,
        WasmInstruction::F32Div => 149,
        WasmInstruction::F32Min => 150,
        WasmInstruction::F32Max => 151,
        WasmInstruction::F32CopySign => 152,
        WasmInstruction::F64Abs => 153,
        WasmInstruction::F64Neg => 154,
        WasmInstruction::F64Ceil => 155,
        WasmInstruction::F64Floor => 156,
        WasmInstruction::F64Trunc => 157,
        WasmInstruction::F64Nearest => 158,
        WasmInstruction::F64Sqrt => 159,
        WasmInstruction::F64Add => 160,
        WasmInstruction::F64Sub => 161,
        WasmInstruction::F64Mul => 162,
        WasmInstruction::F64Div => 163,
        WasmInstruction::F64Min => 164,
        WasmInstruction::F64Max => 165,
        WasmInstruction::F64CopySign => 166,
        WasmInstruction::I32WrapI64 => 167,
        WasmInstruction::I32TruncF32S => 168,
        WasmInstruction::I32TruncF32U => 169,
        WasmInstruction::I32TruncF64S => 170,
        WasmInstruction::I32TruncF64U => 171,
        WasmInstruction::I64ExtendI32S => 172,
        WasmInstruction::I64ExtendI32U => 173,
        WasmInstruction::I64TruncF32S => 174,
        WasmInstruction::I64TruncF32U => 175,
        WasmInstruction::I64TruncF64S => 176,
        WasmInstruction::I64TruncF64U => 177,
        WasmInstruction::F32ConvertI32S => 178,
        WasmInstruction::F32ConvertI32U => 179,
        WasmInstruction::F32ConvertI64S => 180,
        WasmInstruction::F32ConvertI64U => 181,
        WasmInstruction::F32DemoteF64 => 182,
        WasmInstruction::F64ConvertI32S => 183,
        WasmInstruction::F64ConvertI32U => 184,
        WasmInstruction::F64ConvertI64S => 185,
        WasmInstruction::F64ConvertI64U => 186,
        WasmInstruction::F64PromoteF32 => 187,
        WasmInstruction::I32ReinterpretF32 => 188,
        WasmInstruction::I64ReinterpretF64 => 189,
        WasmInstruction::F32ReinterpretI32 => 190,
        WasmInstruction::F64ReinterpretI64 => 191,
        WasmInstruction::I32Extend8S => 192,
        WasmInstruction::I32Extend16S => 193,
        WasmInstruction::I64Extend8S => 194,
        WasmInstruction::I64Extend16S => 195,
        WasmInstruction::I64Extend32S => 196,
        WasmInstruction::I32TruncSatF32S => 252,
        WasmInstruction::I32TruncSatF32U => 252,
        WasmInstruction::I32TruncSatF64S => 252,
        WasmInstruction::I32TruncSatF64U => 252,
        WasmInstruction::I64TruncSatF32S => 252,
        WasmInstruction::I64TruncSatF32U => 252,
        WasmInstruction::I64TruncSatF64S => 252,
        WasmInstruction::I64TruncSatF64U => 252,
        WasmInstruction::Block { .. } => 2,
        WasmInstruction::Loop { .. } => 3,
        WasmInstruction::IfElse { .. } => 4,
    }
}
/// sub-opcode behind the 0xFC prefix, -1 without one
pub open spec fn op_second(i: WasmInstruction) -> int {
    match i {
        WasmInstruction::TableInit { .. } => 12,
        WasmInstruction::ElemDrop { .. } => 13,
        WasmInstruction::TableCopy { .. } => 14,
        WasmInstruction::TableGrow { .. } => 15,
        WasmInstruction::TableSize { .. } => 16,
        WasmInstruction::TableFill { .. } => 17,
        WasmInstruction::MemoryInit { .. } => 8,
        WasmInstruction::DataDrop { .. } => 9,
        WasmInstruction::MemoryCopy => 10,
        WasmInstruction::MemoryFill => 11,
        WasmInstruction::I32TruncSatF32S => 0,
        WasmInstruction::I32TruncSatF32U => 1,
        WasmInstruction::I32TruncSatF64S => 2,
        WasmInstruction::I32TruncSatF64U => 3,
        WasmInstruction::I64TruncSatF32S => 4,
        WasmInstruction::I64TruncSatF32U => 5,
        WasmInstruction::I64TruncSatF64S => 6,
        WasmInstruction::I64TruncSatF64U => 7,
        _ => -1,
    }
}
pub open spec fn opcode(i: WasmInstruction) -> Seq<u8> {
    if op_second(i) < 0 { seq![op_first(i)] } else { seq![op_first(i)] + uleb(op_second(i) as nat) }
}
/// everything behind the opcode of an instruction without a body
pub open spec fn immediates(i: WasmInstruction) -> Seq<u8> {
    match i {
        WasmInstruction::Br { label_idx } => label_idx.enc(),
        WasmInstruction::BrIf { label_idx } => label_idx.enc(),
        WasmInstruction::BrTable { labels, label_idx } => enc_vec(labels@) + label_idx.enc(),
        WasmInstruction::Call { func_idx } => func_idx.enc(),
        WasmInstruction::CallIndirect { type_idx, table_idx } => type_idx.enc() + table_idx.enc(),
        WasmInstruction::RefNull { ref_type } => ref_type.enc(),
        WasmInstruction::RefFunc { func_idx } => func_idx.enc(),
        WasmInstruction::SelectTyped { types } => enc_vec(types@),
        WasmInstruction::LocalGet { local_idx } => local_idx.enc(),
        WasmInstruction::LocalSet { local_idx } => local_idx.enc(),
        WasmInstruction::LocalTee { local_idx } => local_idx.enc(),
        WasmInstruction::GlobalGet { global_idx } => global_idx.enc(),
        WasmInstruction::GlobalSet { global_idx } => global_idx.enc(),
        WasmInstruction::TableGet { table_idx } => table_idx.enc(),
        WasmInstruction::TableSet { table_idx } => table_idx.enc(),
        WasmInstruction::TableInit { elem_idx, table_idx } => elem_idx.enc() + table_idx.enc(),
        WasmInstruction::ElemDrop { elem_idx } => elem_idx.enc(),
        WasmInstruction::TableCopy { table_idx1, table_idx2 } => table_idx1.enc() + table_idx2.enc(),
        WasmInstruction::TableGrow { table_idx } => table_idx.enc(),
        WasmInstruction::TableSize { table_idx } => table_idx.enc(),
        WasmInstruction::TableFill { table_idx } => table_idx.enc(),
        WasmInstruction::I32Load { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Load { mem_arg } => mem_arg.enc(),
        WasmInstruction::F32Load { mem_arg } => mem_arg.enc(),
        WasmInstruction::F64Load { mem_arg } => mem_arg.enc(),
        WasmInstruction::I32Load8S { mem_arg } => mem_arg.enc(),
        WasmInstruction::I32Load8U { mem_arg } => mem_arg.enc(),
        WasmInstruction::I32Load16S { mem_arg } => mem_arg.enc(),
        WasmInstruction::I32Load16U { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Load8S { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Load8U { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Load16S { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Load16U { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Load32S { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Load32U { mem_arg } => mem_arg.enc(),
        WasmInstruction::I32Store { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Store { mem_arg } => mem_arg.enc(),
        WasmInstruction::F32Store { mem_arg } => mem_arg.enc(),
        WasmInstruction::F64Store { mem_arg } => mem_arg.enc(),
        WasmInstruction::I32Store8 { mem_arg } => mem_arg.enc(),
        WasmInstruction::I32Store16 { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Store8 { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Store16 { mem_arg } => mem_arg.enc(),
        WasmInstruction::I64Store32 { mem_arg } => mem_arg.enc(),
        WasmInstruction::MemorySize => seq![0u8],
        WasmInstruction::MemoryGrow => seq![0u8],
        WasmInstruction::MemoryInit { data_idx } => data_idx.enc() + seq![0u8],
        WasmInstruction::DataDrop { data_idx } => data_idx.enc(),
        WasmInstruction::MemoryCopy => seq![0u8] + seq![0u8],
        WasmInstruction::MemoryFill => seq![0u8],
        WasmInstruction::I32Const { n } => sleb(n as int),
        WasmInstruction::I64Const { n } => sleb(n as int),
        WasmInstruction::F32Const { z } => f32_le(z),
        WasmInstruction::F64Const { z } => f64_le(z),
        _ => Seq::<u8>::empty(),
    }
}

pub open spec fn instr_enc(i: WasmInstruction) -> Seq<u8>
    decreases i,
{
    match i {
        WasmInstruction::Block { blocktype, instrs } => opcode(i) + blocktype.enc() + body_enc(instrs@) + seq![0x0bu8],
        WasmInstruction::Loop { blocktype, instrs } => opcode(i) + blocktype.enc() + body_enc(instrs@) + seq![0x0bu8],
        WasmInstruction::IfElse { blocktype, if_instrs, else_instrs } =>
            opcode(i) + blocktype.enc() + body_enc(if_instrs@)
                + (if else_instrs@.len() > 0 { seq![0x05u8] + body_enc(else_instrs@) } else { Seq::<u8>::empty() }) + seq![0x0bu8],
        _ => opcode(i) + immediates(i),
    }
}
pub open spec fn body_enc(s: Seq<WasmInstruction>) -> Seq<u8>
    decreases s,
{
    if s.len() == 0 { Seq::<u8>::empty() } else { body_enc(s.drop_last()) + instr_enc(s.last()) }
}
pub proof fn lemma_body_step(s: Seq<WasmInstruction>, k: int)
    requires 0 <= k < s.len(),
    ensures body_enc(s.subrange(0, k + 1)) == body_enc(s.subrange(0, k)) + instr_enc(s[k]),
{
    let t = s.subrange(0, k + 1);
    assert(t.drop_last() =~= s.subrange(0, k));
    assert(t.last() == s[k]);
}
#[verifier::external_body]
pub fn vskip<T>() -> (r: T) ensures false { unimplemented!() }

//@fn src/back_end/wasm_instructions.rs ToBytes for WasmExpression::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { body_enc(self.instrs@) + seq![0x0bu8] }
//@ret r
//@nloops 1
//@iter 0 it
//@loop 0
    invariant bytes@ == body_enc(self.instrs@.subrange(0, it.index@ as int)),
//@loop 0 start
    proof { lemma_body_step(self.instrs@, it.index@ as int); }
//@end_
    proof { assert(self.instrs@.subrange(0, self.instrs@.len() as int) =~= self.instrs@); }
//@end

//@fn src/back_end/wasm_instructions.rs ToBytes for WasmInstruction::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { instr_enc(*self) }
//@ret r
//@nloops 4
//@split 12
//@attr #[verifier::spinoff_prover]
//@partspec
    ensures r@ == instr_enc(*self),
//@start
    proof { lemma_small_uleb(); }
//@tailarms
    proof { assert(__r@ =~= instr_enc(*self)); }
//@iter 0 it0
//@loop 0 before
    let ghost pre0 = bytes@;
//@loop 0
    invariant bytes@ == pre0 + body_enc(instrs@.subrange(0, it0.index@ as int)),
//@loop 0 start
    proof { lemma_body_step(instrs@, it0.index@ as int); }
    let ghost b0 = bytes@;
//@loop 0 end
    proof { assert(bytes@ =~= pre0 + body_enc(instrs@.subrange(0, it0.index@ + 1))); }
//@loop 0 after
    proof { assert(instrs@.subrange(0, instrs@.len() as int) =~= instrs@); }
//@iter 1 it1
//@loop 1 before
    let ghost pre1 = bytes@;
//@loop 1
    invariant bytes@ == pre1 + body_enc(instrs@.subrange(0, it1.index@ as int)),
//@loop 1 start
    proof { lemma_body_step(instrs@, it1.index@ as int); }
    let ghost b1 = bytes@;
//@loop 1 end
    proof { assert(bytes@ =~= pre1 + body_enc(instrs@.subrange(0, it1.index@ + 1))); }
//@loop 1 after
    proof { assert(instrs@.subrange(0, instrs@.len() as int) =~= instrs@); }
//@iter 2 it2
//@loop 2 before
    let ghost pre2 = bytes@;
//@loop 2
    invariant bytes@ == pre2 + body_enc(if_instrs@.subrange(0, it2.index@ as int)),
//@loop 2 start
    proof { lemma_body_step(if_instrs@, it2.index@ as int); }
    let ghost b2 = bytes@;
//@loop 2 end
    proof { assert(bytes@ =~= pre2 + body_enc(if_instrs@.subrange(0, it2.index@ + 1))); }
//@loop 2 after
    proof { assert(if_instrs@.subrange(0, if_instrs@.len() as int) =~= if_instrs@); }
//@iter 3 it3
//@loop 3 before
    let ghost pre3 = bytes@;
//@loop 3
    invariant bytes@ == pre3 + body_enc(else_instrs@.subrange(0, it3.index@ as int)),
//@loop 3 start
    proof { lemma_body_step(else_instrs@, it3.index@ as int); }
    let ghost b3 = bytes@;
//@loop 3 end
    proof { assert(bytes@ =~= pre3 + body_enc(else_instrs@.subrange(0, it3.index@ + 1))); }
//@loop 3 after
    proof { assert(else_instrs@.subrange(0, else_instrs@.len() as int) =~= else_instrs@); }
//@end

/// position of an operation in the instruction enumeration (identity of the operation)
pub open spec fn op_id(i: WasmInstruction) -> int {
    match i {
        WasmInstruction::Unreachable => 0,
        WasmInstruction::Nop => 1,
        WasmInstruction::Br { .. } => 2,
        WasmInstruction::BrIf { .. } => 3,
        WasmInstruction::BrTable { .. } => 4,
        WasmInstruction::Return => 5,
        WasmInstruction::Call { .. } => 6,
        WasmInstruction::CallIndirect { .. } => 7,
        WasmInstruction::RefNull { .. } => 8,
        WasmInstruction::RefIsNull => 9,
        WasmInstruction::RefFunc { .. } => 10,
        WasmInstruction::Drop => 11,
        WasmInstruction::Select => 12,
        WasmInstruction::SelectTyped { .. } => 13,
        WasmInstruction::LocalGet { .. } => 14,
        WasmInstruction::LocalSet { .. } => 15,
        WasmInstruction::LocalTee { .. } => 16,
        WasmInstruction::GlobalGet { .. } => 17,
        WasmInstruction::GlobalSet { .. } => 18,
        WasmInstruction::TableGet { .. } => 19,
        WasmInstruction::TableSet { .. } => 20,
        WasmInstruction::TableInit { .. } => 21,
        WasmInstruction::ElemDrop { .. } => 22,
        WasmInstruction::TableCopy { .. } => 23,
        WasmInstruction::TableGrow { .. } => 24,
        WasmInstruction::TableSize { .. } => 25,
        WasmInstruction::TableFill { .. } => 26,
        WasmInstruction::I32Load { .. } => 27,
        WasmInstruction::I64Load { .. } => 28,
        WasmInstruction::F32Load { .. } => 29,
        WasmInstruction::F64Load { .. } => 30,
        WasmInstruction::I32Load8S { .. } => 31,
        WasmInstruction::I32Load8U { .. } => 32,
        WasmInstruction::I32Load16S { .. } => 33,
        WasmInstruction::I32Load16U { .. } => 34,
        WasmInstruction::I64Load8S { .. } => 35,
        WasmInstruction::I64Load8U { .. } => 36,
        WasmInstruction::I64Load16S { .. } => 37,
        WasmInstruction::I64Load16U { .. } => 38,
        WasmInstruction::I64Load32S { .. } => 39,
        WasmInstruction::I64Load32U { .. } => 40,
        WasmInstruction::I32Store { .. } => 41,
        WasmInstruction::I64Store { .. } => 42,
        WasmInstruction::F32Store { .. } => 43,
        WasmInstruction::F64Store { .. } => 44,
        WasmInstruction::I32Store8 { .. } => 45,
        WasmInstruction::I32Store16 { .. } => 46,
        WasmInstruction::I64Store8 { .. } => 47,
        WasmInstruction::I64Store16 { .. } => 48,
        WasmInstruction::I64Store32 { .. } => 49,
        WasmInstruction::MemorySize => 50,
        WasmInstruction::MemoryGrow => 51,
        WasmInstruction::MemoryInit { .. } => 52,
        WasmInstruction::DataDrop { .. } => 53,
        WasmInstruction::MemoryCopy => 54,
        WasmInstruction::MemoryFill => 55,
        WasmInstruction::I32Const { .. } => 56,
        WasmInstruction::I64Const { .. } => 57,
        WasmInstruction::F32Const { .. } => 58,
        WasmInstruction::F64Const { .. } => 59,
        WasmInstruction::I32Eqz => 60,
        WasmInstruction::I32Eq => 61,
        WasmInstruction::I32Ne => 62,
        WasmInstruction::I32LtS => 63,
        WasmInstruction::I32LtU => 64,
        WasmInstruction::I32GtS => 65,
        WasmInstruction::I32GtU => 66,
        WasmInstruction::I32LeS => 67,
        WasmInstruction::I32LeU => 68,
        WasmInstruction::I32GeS => 69,
        WasmInstruction::I32GeU => 70,
        WasmInstruction::I64Eqz => 71,
        WasmInstruction::I64Eq => 72,
        WasmInstruction::I64Ne => 73,
        WasmInstruction::I64LtS => 74,
        WasmInstruction::I64LtU => 75,
        WasmInstruction::I64GtS => 76,
        WasmInstruction::I64GtU => 77,
        WasmInstruction::I64LeS => 78,
        WasmInstruction::I64LeU => 79,
        WasmInstruction::I64GeS => 80,
        WasmInstruction::I64GeU => 81,
        WasmInstruction::F32Eq => 82,
        WasmInstruction::F32Ne => 83,
        WasmInstruction::F32Lt => 84,
        WasmInstruction::F32Gt => 85,
        WasmInstruction::F32Le => 86,
        WasmInstruction::F32Ge => 87,
        WasmInstruction::F64Eq => 88,
        WasmInstruction::F64Ne => 89,
        WasmInstruction::F64Lt => 90,
        WasmInstruction::F64Gt => 91,
        WasmInstruction::F64Le => 92,
        WasmInstruction::F64Ge => 93,
        WasmInstruction::I32Clz => 94,
        WasmInstruction::I32Ctz => 95,
        WasmInstruction::I32PopCnt => 96,
        WasmInstruction::I32Add => 97,
        WasmInstruction::I32Sub => 98,
        WasmInstruction::I32Mul => 99,
        WasmInstruction::I32DivS => 100,
        WasmInstruction::I32DivU => 101,
        WasmInstruction::I32RemS => 102,
        WasmInstruction::I32RemU => 103,
        WasmInstruction::I32And => 104,
        WasmInstruction::I32Or => 105,
        WasmInstruction::I32Xor => 106,
        WasmInstruction::I32Shl => 107,
        WasmInstruction::I32ShrS => 108,
        WasmInstruction::I32ShrU => 109,
        WasmInstruction::I32RotL => 110,
        WasmInstruction::I32RotR => 111,
        WasmInstruction::I64Clz => 112,
        WasmInstruction::I64Ctz => 113,
        WasmInstruction::I64PopCnt => 114,
        WasmInstruction::I64Add => 115,
        WasmInstruction::I64Sub => 116,
        WasmInstruction::I64Mul => 117,
        WasmInstruction::I64DivS => 118,
        WasmInstruction::I64DivU => 119,
        WasmInstruction::I64RemS => 120,
        WasmInstruction::I64RemU => 121,
        WasmInstruction::I64And => 122,
        WasmInstruction::I64Or => 123,
        WasmInstruction::I64Xor => 124,
        WasmInstruction::I64Shl => 125,
        WasmInstruction::I64ShrS => 126,
        WasmInstruction::I64ShrU => 127,
        WasmInstruction::I64RotL => 128,
        WasmInstruction::I64RotR => 129,
        WasmInstruction::F32Abs => 130,
        WasmInstruction::F32Neg => 131,
        WasmInstruction::F32Ceil => 132,
        WasmInstruction::F32Floor => 133,
        WasmInstruction::F32Trunc => 134,
        WasmInstruction::F32Nearest => 135,
        WasmInstruction::F32Sqrt => 136,
        WasmInstruction::F32Add => 137,
        WasmInstruction::F32Sub => 138,
        WasmInstruction::F32Mul => 139,
        WasmInstruction::F32Div => 140,
        WasmInstruction::F32Min => 141,
        WasmInstruction::F32Max => 142,
        WasmInstruction::F32CopySign => 143,
        WasmInstruction::F64Abs => 144,
        WasmInstruction::F64Neg => 145,
        WasmInstruction::F64Ceil => 146,
        WasmInstruction::F64Floor => 147,
        WasmInstruction::F64Trunc => 148,
        WasmInstruction::F64Nearest => 149,
        WasmInstruction::F64Sqrt => 150,
        WasmInstruction::F64Add => 151,
        WasmInstruction::F64Sub => 152,
        WasmInstruction::F64Mul => 153,
        WasmInstruction::F64Div => 154,
        WasmInstruction::F64Min => 155,
        WasmInstruction::F64Max => 156,
        WasmInstruction::F64CopySign => 157,
        WasmInstruction::I32WrapI64 => 158,
        WasmInstruction::I32TruncF32S => 159,
        WasmInstruction::I32TruncF32U => 160,
        WasmInstruction::I32TruncF64S => 161,
        WasmInstruction::I32TruncF64U => 162,
        WasmInstruction::I64ExtendI32S => 163,
        WasmInstruction::I64ExtendI32U => 164,
        WasmInstruction::I64TruncF32S => 165,
        WasmInstruction::I64TruncF32U => 166,
        WasmInstruction::I64TruncF64S => 167,
        WasmInstruction::I64TruncF64U => 168,
        WasmInstruction::F32ConvertI32S => 169,
        WasmInstruction::F32ConvertI32U => 170,
        WasmInstruction::F32ConvertI64S => 171,
        WasmInstruction::F32ConvertI64U => 172,
        WasmInstruction::F32DemoteF64 => 173,
        WasmInstruction::F64ConvertI32S => 174,
        WasmInstruction::F64ConvertI32U => 175,
        WasmInstruction::F64ConvertI64S => 176,
        WasmInstruction::F64ConvertI64U => 177,
        WasmInstruction::F64PromoteF32 => 178,
        WasmInstruction::I32ReinterpretF32 => 179,
        WasmInstruction::I64ReinterpretF64 => 180,
        WasmInstruction::F32ReinterpretI32 => 181,
        WasmInstruction::F64ReinterpretI64 => 182,
        WasmInstruction::I32Extend8S => 183,
        WasmInstruction::I32Extend16S => 184,
        WasmInstruction::I64Extend8S => 185,
        WasmInstruction::I64Extend16S => 186,
        WasmInstruction::I64Extend32S => 187,
        WasmInstruction::I32TruncSatF32S => 188,
        WasmInstruction::I32TruncSatF32U => 189,
        WasmInstruction::I32TruncSatF64S => 190,
        WasmInstruction::I32TruncSatF64U => 191,
        WasmInstruction::I64TruncSatF32S => 192,
        WasmInstruction::I64TruncSatF32U => 193,
        WasmInstruction::I64TruncSatF64S => 194,
        WasmInstruction::I64TruncSatF64U => 195,
        WasmInstruction::Block { .. } => 196,
        WasmInstruction::Loop { .. } => 197,
        WasmInstruction::IfElse { .. } => 198,
    }
}
/// what a decoder reads off the first two bytes
pub open spec fn decode_op(b0: u8, b1: int) -> int {
    if b0 < 118 { if b0 < 68 { if b0 < 43 { if b0 < 27 { if b0 < 13 { if b0 < 3 { if b0 < 1 { if b0 == 0 && b1 == -1 { 0 } else { -1 } } else { if b0 < 2 { if b0 == 1 && b1 == -1 { 1 } else { -1 } } else { if b0 == 2 && b1 == -1 { 196 } else { -1 } } } } else { if b0 < 4 { if b0 == 3 && b1 == -1 { 197 } else { -1 } } else { if b0 < 12 { if b0 == 4 && b1 == -1 { 198 } else { -1 } } else { if b0 == 12 && b1 == -1 { 2 } else { -1 } } } } } else { if b0 < 16 { if b0 < 14 { if b0 == 13 && b1 == -1 { 3 } else { -1 } } else { if b0 < 15 { if b0 == 14 && b1 == -1 { 4 } else { -1 } } else { if b0 == 15 && b1 == -1 { 5 } else { -1 } } } } else { if b0 < 17 { if b0 == 16 && b1 == -1 { 6 } else { -1 } } else { if b0 < 26 { if b0 == 17 && b1 == -1 { 7 } else { -1 } } else { if b0 == 26 && b1 == -1 { 11 } else { -1 } } } } } } else { if b0 < 36 { if b0 < 33 { if b0 < 28 { if b0 == 27 && b1 == -1 { 12 } else { -1 } } else { if b0 < 32 { if b0 == 28 && b1 == -1 { 13 } else { -1 } } else { if b0 == 32 && b1 == -1 { 14 } else { -1 } } } } else { if b0 < 34 { if b0 == 33 && b1 == -1 { 15 } else { -1 } } else { if b0 < 35 { if b0 == 34 && b1 == -1 { 16 } else { -1 } } else { if b0 == 35 && b1 == -1 { 17 } else { -1 } } } } } else { if b0 < 40 { if b0 < 37 { if b0 == 36 && b1 == -1 { 18 } else { -1 } } else { if b0 < 38 { if b0 == 37 && b1 == -1 { 19 } else { -1 } } else { if b0 == 38 && b1 == -1 { 20 } else { -1 } } } } else { if b0 < 41 { if b0 == 40 && b1 == -1 { 27 } else { -1 } } else { if b0 < 42 { if b0 == 41 && b1 == -1 { 28 } else { -1 } } else { if b0 == 42 && b1 == -1 { 29 } else { -1 } } } } } } } else { if b0 < 55 { if b0 < 49 { if b0 < 46 { if b0 < 44 { if b0 == 43 && b1 == -1 { 30 } else { -1 } } else { if b0 < 45 { if b0 == 44 && b1 == -1 { 31 } else { -1 } } else { if b0 == 45 && b1 == -1 { 32 } else { -1 } } } } else { if b0 < 47 { if b0 == 46 && b1 == -1 { 33 } else { -1 } } else { if b0 < 48 { if b0 == 47 && b1 == -1 { 34 } else { -1 } } else { if b0 == 48 && b1 == -1 { 35 } else { -1 } } } } } else { if b0 < 52 { if b0 < 50 { if b0 == 49 && b1 == -1 { 36 } else { -1 } } else { if b0 < 51 { if b0 == 50 && b1 == -1 { 37 } else { -1 } } else { if b0 == 51 && b1 == -1 { 38 } else { -1 } } } } else { if b0 < 53 { if b0 == 52 && b1 == -1 { 39 } else { -1 } } else { if b0 < 54 { if b0 == 53 && b1 == -1 { 40 } else { -1 } } else { if b0 == 54 && b1 == -1 { 41 } else { -1 } } } } } } else { if b0 < 61 { if b0 < 58 { if b0 < 56 { if b0 == 55 && b1 == -1 { 42 } else { -1 } } else { if b0 < 57 { if b0 == 56 && b1 == -1 { 43 } else { -1 } } else { if b0 == 57 && b1 == -1 { 44 } else { -1 } } } } else { if b0 < 59 { if b0 == 58 && b1 == -1 { 45 } else { -1 } } else { if b0 < 60 { if b0 == 59 && b1 == -1 { 46 } else { -1 } } else { if b0 == 60 && b1 == -1 { 47 } else { -1 } } } } } else { if b0 < 64 { if b0 < 62 { if b0 == 61 && b1 == -1 { 48 } else { -1 } } else { if b0 < 63 { if b0 == 62 && b1 == -1 { 49 } else { -1 } } else { if b0 == 63 && b1 == -1 { 50 } else { -1 } } } } else { if b0 < 66 { if b0 < 65 { if b0 == 64 && b1 == -1 { 51 } else { -1 } } else { if b0 == 65 && b1 == -1 { 56 } else { -1 } } } else { if b0 < 67 { if b0 == 66 && b1 == -1 { 57 } else { -1 } } else { if b0 == 67 && b1 == -1 { 58 } else { -1 } } } } } } } } else { if b0 < 93 { if b0 < 80 { if b0 < 74 { if b0 < 71 { if b0 < 69 { if b0 == 68 && b1 == -1 { 59 } else { -1 } } else { if b0 < 70 { if b0 == 69 && b1 == -1 { 60 } else { -1 } } else { if b0 == 70 && b1 == -1 { 61 } else { -1 } } } } else { if b0 < 72 { if b0 == 71 && b1 == -1 { 62 } else { -1 } } else { if b0 < 73 { if b0 == 72 && b1 == -1 { 63 } else { -1 } } else { if b0 == 73 && b1 == -1 { 64 } else { -1 } } } } } else { if b0 < 77 { if b0 < 75 { if b0 == 74 && b1 == -1 { 65 } else { -1 } } else { if b0 < 76 { if b0 == 75 && b1 == -1 { 66 } else { -1 } } else { if b0 == 76 && b1 == -1 { 67 } else { -1 } } } } else { if b0 < 78 { if b0 == 77 && b1 == -1 { 68 } else { -1 } } else { if b0 < 79 { if b0 == 78 && b1 == -1 { 69 } else { -1 } } else { if b0 == 79 && b1 == -1 { 70 } else { -1 } } } } } } else { if b0 < 86 { if b0 < 83 { if b0 < 81 { if b0 == 80 && b1 == -1 { 71 } else { -1 } } else { if b0 < 82 { if b0 == 81 && b1 == -1 { 72 } else { -1 } } else { if b0 == 82 && b1 == -1 { 73 } else { -1 } } } } else { if b0 < 84 { if b0 == 83 && b1 == -1 { 74 } else { -1 } } else { if b0 < 85 { if b0 == 84 && b1 == -1 { 75 } else { -1 } } else { if b0 == 85 && b1 == -1 { 76 } else { -1 } } } } } else { if b0 < 89 { if b0 < 87 { if b0 == 86 && b1 == -1 { 77 } else { -1 } } else { if b0 < 88 { if b0 == 87 && b1 == -1 { 78 } else { -1 } } else { if b0 == 88 && b1 == -1 { 79 } else { -1 } } } } else { if b0 < 91 { if b0 < 90 { if b0 == 89 && b1 == -1 { 80 } else { -1 } } else { if b0 == 90 && b1 == -1 { 81 } else { -1 } } } else { if b0 < 92 { if b0 == 91 && b1 == -1 { 82 } else { -1 } } else { if b0 == 92 && b1 == -1 { 83 } else { -1 } } } } } } } else { if b0 < 105 { if b0 < 99 { if b0 < 96 { if b0 < 94 { if b0 == 93 && b1 == -1 { 84 } else { -1 } } else { if b0 < 95 { if b0 == 94 && b1 == -1 { 85 } else { -1 } } else { if b0 == 95 && b1 == -1 { 86 } else { -1 } } } } else { if b0 < 97 { if b0 == 96 && b1 == -1 { 87 } else { -1 } } else { if b0 < 98 { if b0 == 97 && b1 == -1 { 88 } else { -1 } } else { if b0 == 98 && b1 == -1 { 89 } else { -1 } } } } } else { if b0 < 102 { if b0 < 100 { if b0 == 99 && b1 == -1 { 90 } else { -1 } } else { if b0 < 101 { if b0 == 100 && b1 == -1 { 91 } else { -1 } } else { if b0 == 101 && b1 == -1 { 92 } else { -1 } } } } else { if b0 < 103 { if b0 == 102 && b1 == -1 { 93 } else { -1 } } else { if b0 < 104 { if b0 == 103 && b1 == -1 { 94 } else { -1 } } else { if b0 == 104 && b1 == -1 { 95 } else { -1 } } } } } } else { if b0 < 111 { if b0 < 108 { if b0 < 106 { if b0 == 105 && b1 == -1 { 96 } else { -1 } } else { if b0 < 107 { if b0 == 106 && b1 == -1 { 97 } else { -1 } } else { if b0 == 107 && b1 == -1 { 98 } else { -1 } } } } else { if b0 < 109 { if b0 == 108 && b1 == -1 { 99 } else { -1 } } else { if b0 < 110 { if b0 == 109 && b1 == -1 { 100 } else { -1 } } else { if b0 == 110 && b1 == -1 { 101 } else { -1 } } } } } else { if b0 < 114 { if b0 < 112 { if b0 == 111 && b1 == -1 { 102 } else { -1 } } else { if b0 < 113 { if b0 == 112 && b1 == -1 { 103 } else { -1 } } else { if b0 == 113 && b1 == -1 { 104 } else { -1 } } } } else { if b0 < 116 { if b0 < 115 { if b0 == 114 && b1 == -1 { 105 } else { -1 } } else { if b0 == 115 && b1 == -1 { 106 } else { -1 } } } else { if b0 < 117 { if b0 == 116 && b1 == -1 { 107 } else { -1 } } else { if b0 == 117 && b1 == -1 { 108 } else { -1 } } } } } } } } } else { if b0 < 168 { if b0 < 143 { if b0 < 130 { if b0 < 124 { if b0 < 121 { if b0 < 119 { if b0 == 118 && b1 == -1 { 109 } else { -1 } } else { if b0 < 120 { if b0 == 119 && b1 == -1 { 110 } else { -1 } } else { if b0 == 120 && b1 == -1 { 111 } else { -1 } } } } else { if b0 < 122 { if b0 == 121 && b1 == -1 { 112 } else { -1 } } else { if b0 < 123 { if b0 == 122 && b1 == -1 { 113 } else { -1 } } else { if b0 == 123 && b1 == -1 { 114 } else { -1 } } } } } else { if b0 < 127 { if b0 < 125 { if b0 == 124 && b1 == -1 { 115 } else { -1 } } else { if b0 < 126 { if b0 == 125 && b1 == -1 { 116 } else { -1 } } else { if b0 == 126 && b1 == -1 { 117 } else { -1 } } } } else { if b0 < 128 { if b0 == 127 && b1 == -1 { 118 } else { -1 } } else { if b0 < 129 { if b0 == 128 && b1 == -1 { 119 } else { -1 } } else { if b0 == 129 && b1 == -1 { 120 } else { -1 } } } } } } else { if b0 < 136 { if b0 < 133 { if b0 < 131 { if b0 == 130 && b1 == -1 { 121 } else { -1 } } else { if b0 < 132 { if b0 == 131 && b1 == -1 { 122 } else { -1 } } else { if b0 == 132 && b1 == -1 { 123 } else { -1 } } } } else { if b0 < 134 { if b0 == 133 && b1 == -1 { 124 } else { -1 } } else { if b0 < 135 { if b0 == 134 && b1 == -1 { 125 } else { -1 } } else { if b0 == 135 && b1 == -1 { 126 } else { -1 } } } } } else { if b0 < 139 { if b0 < 137 { if b0 == 136 && b1 == -1 { 127 } else { -1 } } else { if b0 < 138 { if b0 == 137 && b1 == -1 { 128 } else { -1 } } else { if b0 == 138 && b1 == -1 { 129 } else { -1 } } } } else { if b0 < 141 { if b0 < 140 { if b0 == 139 && b1 == -1 { 130 } else { -1 } } else { if b0 == 140 && b1 == -1 { 131 } else { -1 } } } else { if b0 < 142 { if b0 == 141 && b1 == -1 { 132 } else { -1 } } else { if b0 == 142 && b1 == -1 { 133 } else { -1 } } } } } } } else { if b0 < 155 { if b0 < 149 { if b0 < 146 { if b0 < 144 { if b0 == 143 && b1 == -1 { 134 } else { -1 } } else { if b0 < 145 { if b0 == 144 && b1 == -1 { 135 } else { -1 } } else { if b0 == 145 && b1 == -1 { 136 } else { -1 } } } } else { if b0 < 147 { if b0 == 146 && b1 == -1 { 137 } else { -1 } } else { if b0 < 148 { if b0 == 147 && b1 == -1 { 138 } else { -1 } } else { if b0 == 148 && b1 == -1 { 139 } else { -1 } } } } } else { if b0 < 152 { if b0 < 150 { if b0 == 149 && b1 == -1 { 140 } else { -1 } } else { if b0 < 151 { if b0 == 150 && b1 == -1 { 141 } else { -1 } } else { if b0 == 151 && b1 == -1 { 142 } else { -1 } } } } else { if b0 < 153 { if b0 == 152 && b1 == -1 { 143 } else { -1 } } else { if b0 < 154 { if b0 == 153 && b1 == -1 { 144 } else { -1 } } else { if b0 == 154 && b1 == -1 { 145 } else { -1 } } } } } } else { if b0 < 161 { if b0 < 158 { if b0 < 156 { if b0 == 155 && b1 == -1 { 146 } else { -1 } } else { if b0 < 157 { if b0 == 156 && b1 == -1 { 147 } else { -1 } } else { if b0 == 157 && b1 == -1 { 148 } else { -1 } } } } else { if b0 < 159 { if b0 == 158 && b1 == -1 { 149 } else { -1 } } else { if b0 < 160 { if b0 == 159 && b1 == -1 { 150 } else { -1 } } else { if b0 == 160 && b1 == -1 { 151 } else { -1 } } } } } else { if b0 < 164 { if b0 < 162 { if b0 == 161 && b1 == -1 { 152 } else { -1 } } else { if b0 < 163 { if b0 == 162 && b1 == -1 { 153 } else { -1 } } else { if b0 == 163 && b1 == -1 { 154 } else { -1 } } } } else { if b0 < 166 { if b0 < 165 { if b0 == 164 && b1 == -1 { 155 } else { -1 } } else { if b0 == 165 && b1 == -1 { 156 } else { -1 } } } else { if b0 < 167 { if b0 == 166 && b1 == -1 { 157 } else { -1 } } else { if b0 == 167 && b1 == -1 { 158 } else { -1 } } } } } } } } else { if b0 < 193 { if b0 < 180 { if b0 < 174 { if b0 < 171 { if b0 < 169 { if b0 == 168 && b1 == -1 { 159 } else { -1 } } else { if b0 < 170 { if b0 == 169 && b1 == -1 { 160 } else { -1 } } else { if b0 == 170 && b1 == -1 { 161 } else { -1 } } } } else { if b0 < 172 { if b0 == 171 && b1 == -1 { 162 } else { -1 } } else { if b0 < 173 { if b0 == 172 && b1 == -1 { 163 } else { -1 } } else { if b0 == 173 && b1 == -1 { 164 } else { -1 } } } } } else { if b0 < 177 { if b0 < 175 { if b0 == 174 && b1 == -1 { 165 } else { -1 } } else { if b0 < 176 { if b0 == 175 && b1 == -1 { 166 } else { -1 } } else { if b0 == 176 && b1 == -1 { 167 } else { -1 } } } } else { if b0 < 178 { if b0 == 177 && b1 == -1 { 168 } else { -1 } } else { if b0 < 179 { if b0 == 178 && b1 == -1 { 169 } else { -1 } } else { if b0 == 179 && b1 == -1 { 170 } else { -1 } } } } } } else { if b0 < 186 { if b0 < 183 { if b0 < 181 { if b0 == 180 && b1 == -1 { 171 } else { -1 } } else { if b0 < 182 { if b0 == 181 && b1 == -1 { 172 } else { -1 } } else { if b0 == 182 && b1 == -1 { 173 } else { -1 } } } } else { if b0 < 184 { if b0 == 183 && b1 == -1 { 174 } else { -1 } } else { if b0 < 185 { if b0 == 184 && b1 == -1 { 175 } else { -1 } } else { if b0 == 185 && b1 == -1 { 176 } else { -1 } } } } } else { if b0 < 189 { if b0 < 187 { if b0 == 186 && b1 == -1 { 177 } else { -1 } } else { if b0 < 188 { if b0 == 187 && b1 == -1 { 178 } else { -1 } } else { if b0 == 188 && b1 == -1 { 179 } else { -1 } } } } else { if b0 < 191 { if b0 < 190 { if b0 == 189 && b1 == -1 { 180 } else { -1 } } else { if b0 == 190 && b1 == -1 { 181 } else { -1 } } } else { if b0 < 192 { if b0 == 191 && b1 == -1 { 182 } else { -1 } } else { if b0 == 192 && b1 == -1 { 183 } else { -1 } } } } } } } else { if b0 < 252 || (b0 == 252 && b1 < 5) { if b0 < 210 { if b0 < 196 { if b0 < 194 { if b0 == 193 && b1 == -1 { 184 } else { -1 } } else { if b0 < 195 { if b0 == 194 && b1 == -1 { 185 } else { -1 } } else { if b0 == 195 && b1 == -1 { 186 } else { -1 } } } } else { if b0 < 208 { if b0 == 196 && b1 == -1 { 187 } else { -1 } } else { if b0 < 209 { if b0 == 208 && b1 == -1 { 8 } else { -1 } } else { if b0 == 209 && b1 == -1 { 9 } else { -1 } } } } } else { if b0 < 252 || (b0 == 252 && b1 < 2) { if b0 < 252 || (b0 == 252 && b1 < 0) { if b0 == 210 && b1 == -1 { 10 } else { -1 } } else { if b0 < 252 || (b0 == 252 && b1 < 1) { if b0 == 252 && b1 == 0 { 188 } else { -1 } } else { if b0 == 252 && b1 == 1 { 189 } else { -1 } } } } else { if b0 < 252 || (b0 == 252 && b1 < 3) { if b0 == 252 && b1 == 2 { 190 } else { -1 } } else { if b0 < 252 || (b0 == 252 && b1 < 4) { if b0 == 252 && b1 == 3 { 191 } else { -1 } } else { if b0 == 252 && b1 == 4 { 192 } else { -1 } } } } } } else { if b0 < 252 || (b0 == 252 && b1 < 11) { if b0 < 252 || (b0 == 252 && b1 < 8) { if b0 < 252 || (b0 == 252 && b1 < 6) { if b0 == 252 && b1 == 5 { 193 } else { -1 } } else { if b0 < 252 || (b0 == 252 && b1 < 7) { if b0 == 252 && b1 == 6 { 194 } else { -1 } } else { if b0 == 252 && b1 == 7 { 195 } else { -1 } } } } else { if b0 < 252 || (b0 == 252 && b1 < 9) { if b0 == 252 && b1 == 8 { 52 } else { -1 } } else { if b0 < 252 || (b0 == 252 && b1 < 10) { if b0 == 252 && b1 == 9 { 53 } else { -1 } } else { if b0 == 252 && b1 == 10 { 54 } else { -1 } } } } } else { if b0 < 252 || (b0 == 252 && b1 < 14) { if b0 < 252 || (b0 == 252 && b1 < 12) { if b0 == 252 && b1 == 11 { 55 } else { -1 } } else { if b0 < 252 || (b0 == 252 && b1 < 13) { if b0 == 252 && b1 == 12 { 21 } else { -1 } } else { if b0 == 252 && b1 == 13 { 22 } else { -1 } } } } else { if b0 < 252 || (b0 == 252 && b1 < 16) { if b0 < 252 || (b0 == 252 && b1 < 15) { if b0 == 252 && b1 == 14 { 23 } else { -1 } } else { if b0 == 252 && b1 == 15 { 24 } else { -1 } } } else { if b0 < 252 || (b0 == 252 && b1 < 17) { if b0 == 252 && b1 == 16 { 25 } else { -1 } } else { if b0 == 252 && b1 == 17 { 26 } else { -1 } } } } } } } } }
}
pub proof fn lemma_op_table(i: WasmInstruction)
    ensures op_id(i) == decode_op(op_first(i), op_second(i)), op_first(i) == 0xFC <==> op_second(i) >= 0, -1 <= op_second(i) < 128,
{
}
pub proof fn lemma_op_decodes(i: WasmInstruction)
    ensures
        instr_enc(i).len() >= 1,
        instr_enc(i)[0] == 0xFC ==> instr_enc(i).len() >= 2,
        op_id(i) == decode_op(instr_enc(i)[0], if instr_enc(i)[0] == 0xFC { instr_enc(i)[1] as int } else { -1 }),
{
    hide(op_first);
    hide(op_second);
    hide(immediates);
    hide(op_id);
    hide(decode_op);
    lemma_op_table(i);
    lemma_small_uleb();
    assert(instr_enc(i)[0] == op_first(i));
    assert(op_second(i) >= 0 ==> instr_enc(i).len() >= 2 && instr_enc(i)[1] == op_second(i));
}
/// no two different operations share an encoding
pub proof fn lemma_no_shared_encoding(a: WasmInstruction, b: WasmInstruction)
    requires op_id(a) != op_id(b),
    ensures instr_enc(a) != instr_enc(b),
{
    lemma_op_decodes(a);
    lemma_op_decodes(b);
}
