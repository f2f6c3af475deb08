#!/usr/bin/env python3
"""Writes contracts/C03.rs and rac/src/bin/c03.rs from the opcode table of the WebAssembly core
specification (binary format, instructions). The table is the oracle; it was typed from the
specification's index of instructions, not from /repo."""
import os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# name -> (opcode bytes, immediates); immediates: field:kind
T = []
def op(name, code, *imm): T.append((name, code if isinstance(code, list) else [code], list(imm)))
op("Unreachable", 0x00); op("Nop", 0x01)
op("Br", 0x0C, "label_idx:idx"); op("BrIf", 0x0D, "label_idx:idx"); op("BrTable", 0x0E, "labels:vecidx", "label_idx:idx")
op("Return", 0x0F); op("Call", 0x10, "func_idx:idx"); op("CallIndirect", 0x11, "type_idx:idx", "table_idx:idx")
op("RefNull", 0xD0, "ref_type:reft"); op("RefIsNull", 0xD1); op("RefFunc", 0xD2, "func_idx:idx")
op("Drop", 0x1A); op("Select", 0x1B); op("SelectTyped", 0x1C, "types:vecty")
for i, n in enumerate(["LocalGet", "LocalSet", "LocalTee"]): op(n, 0x20 + i, "local_idx:idx")
for i, n in enumerate(["GlobalGet", "GlobalSet"]): op(n, 0x23 + i, "global_idx:idx")
for i, n in enumerate(["TableGet", "TableSet"]): op(n, 0x25 + i, "table_idx:idx")
op("TableInit", [0xFC, 12], "elem_idx:idx", "table_idx:idx"); op("ElemDrop", [0xFC, 13], "elem_idx:idx")
op("TableCopy", [0xFC, 14], "table_idx1:idx", "table_idx2:idx"); op("TableGrow", [0xFC, 15], "table_idx:idx")
op("TableSize", [0xFC, 16], "table_idx:idx"); op("TableFill", [0xFC, 17], "table_idx:idx")
MEM = "I32Load I64Load F32Load F64Load I32Load8S I32Load8U I32Load16S I32Load16U I64Load8S I64Load8U I64Load16S I64Load16U I64Load32S I64Load32U I32Store I64Store F32Store F64Store I32Store8 I32Store16 I64Store8 I64Store16 I64Store32".split()
for i, n in enumerate(MEM): op(n, 0x28 + i, "mem_arg:memarg")
op("MemorySize", [0x3F], ":zero"); op("MemoryGrow", [0x40], ":zero")
op("MemoryInit", [0xFC, 8], "data_idx:idx", ":zero"); op("DataDrop", [0xFC, 9], "data_idx:idx")
op("MemoryCopy", [0xFC, 10], ":zero", ":zero"); op("MemoryFill", [0xFC, 11], ":zero")
op("I32Const", 0x41, "n:s32"); op("I64Const", 0x42, "n:s64"); op("F32Const", 0x43, "z:f32"); op("F64Const", 0x44, "z:f64")
c = 0x45
def run(names):
    global c
    for n in names.split():
        op(n, c); c += 1
for w in ("I32", "I64"): run(" ".join(w + x for x in "Eqz Eq Ne LtS LtU GtS GtU LeS LeU GeS GeU".split()))
for w in ("F32", "F64"): run(" ".join(w + x for x in "Eq Ne Lt Gt Le Ge".split()))
assert c == 0x67
for w in ("I32", "I64"): run(" ".join(w + x for x in "Clz Ctz PopCnt Add Sub Mul DivS DivU RemS RemU And Or Xor Shl ShrS ShrU RotL RotR".split()))
assert c == 0x8B
for w in ("F32", "F64"): run(" ".join(w + x for x in "Abs Neg Ceil Floor Trunc Nearest Sqrt Add Sub Mul Div Min Max CopySign".split()))
assert c == 0xA7
run("I32WrapI64 I32TruncF32S I32TruncF32U I32TruncF64S I32TruncF64U I64ExtendI32S I64ExtendI32U I64TruncF32S I64TruncF32U I64TruncF64S I64TruncF64U F32ConvertI32S F32ConvertI32U F32ConvertI64S F32ConvertI64U F32DemoteF64 F64ConvertI32S F64ConvertI32U F64ConvertI64S F64ConvertI64U F64PromoteF32 I32ReinterpretF32 I64ReinterpretF64 F32ReinterpretI32 F64ReinterpretI64 I32Extend8S I32Extend16S I64Extend8S I64Extend16S I64Extend32S")
assert c == 0xC5
for i, n in enumerate("I32TruncSatF32S I32TruncSatF32U I32TruncSatF64S I32TruncSatF64U I64TruncSatF32S I64TruncSatF32U I64TruncSatF64S I64TruncSatF64U".split()): op(n, [0xFC, i])
BODY = [("Block", 0x02), ("Loop", 0x03), ("IfElse", 0x04)]

def seq(bs): return "seq![" + ", ".join(f"{b}u8" for b in bs) + "]"
def imm(f, k):
    return {"idx": f"{f}.enc()", "vecidx": f"enc_vec({f}@)", "vecty": f"enc_vec({f}@)", "reft": f"{f}.enc()", "memarg": f"{f}.enc()", "zero": "seq![0u8]",
            "s32": f"sleb(*{f} as int)", "s64": f"sleb(*{f} as int)", "f32": f"f32_le(*{f})", "f64": f"f64_le(*{f})"}[k].replace("*n", "n").replace("*z", "z")

o = []
o.append("""// GENERATED by tools/gen/c03.py (oracle: opcode table of the WebAssembly core specification).
//@include lib_leb.inc
//@include fn_uleb.inc
//@include fn_sleb.inc
//@include lib_enc.inc
//@include fn_wasm_types.inc
//@include fn_wasm_indices.inc
//@type src/back_end/wasm_instructions.rs WasmExpression
//@type src/back_end/wasm_instructions.rs BlockType
//@type src/back_end/wasm_instructions.rs MemArg
//@type src/back_end/wasm_instructions.rs WasmInstruction

//@fn src/back_end/wasm_instructions.rs ToBytes for BlockType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> {
        match self { BlockType::None => seq![0x40u8], BlockType::ValType(t) => t.enc(), BlockType::TypeIndex(i) => sleb(*i as int) }
    }
//@ret r
//@end

//@fn src/back_end/wasm_instructions.rs ToBytes for MemArg::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.align as nat) + uleb(self.offset as nat) }
//@ret r
//@end

// ---- the instruction encoding of the specification -----------------------------------------
""")
for fn, ty, g in (("op_first", "u8", lambda c: c[0]), ("op_second", "int", lambda c: c[1] if len(c) > 1 else -1)):
    o.append(f"/// {'opcode byte' if fn == 'op_first' else 'sub-opcode behind the 0xFC prefix, -1 without one'}\npub open spec fn {fn}(i: WasmInstruction) -> {ty} {{\n    match i {{\n")
    for n, c, im in T:
        if fn == "op_first" or len(c) > 1:
            o.append(f"        WasmInstruction::{n}{' { .. }' if any(x.split(':')[0] for x in im) else ''} => {g(c)},\n")
    if fn == "op_first":
        for n, c in BODY: o.append(f"        WasmInstruction::{n} {{ .. }} => {g([c])},\n")
    else: o.append("        _ => -1,\n")
    o.append("    }\n}\n")
o.append("pub open spec fn opcode(i: WasmInstruction) -> Seq<u8> {\n    if op_second(i) < 0 { seq![op_first(i)] } else { seq![op_first(i)] + uleb(op_second(i) as nat) }\n}\n")
o.append("/// everything behind the opcode of an instruction without a body\npub open spec fn immediates(i: WasmInstruction) -> Seq<u8> {\n    match i {\n")
for n, c, im in T:
    if not im: continue
    fs = [x.split(":")[0] for x in im if x.split(":")[0]]
    pat = f" {{ {', '.join(fs)} }}" if fs else ""
    o.append(f"        WasmInstruction::{n}{pat} => {' + '.join(imm(*x.split(':')) for x in im)},\n")
o.append("        _ => Seq::<u8>::empty(),\n    }\n}\n")
o.append("""
pub open spec fn instr_enc(i: WasmInstruction) -> Seq<u8>
    decreases i,
{
    match i {
        WasmInstruction::Block { blocktype, instrs } => opcode(i) + blocktype.enc() + body_enc(instrs@) + seq![0x0bu8],
        WasmInstruction::Loop { blocktype, instrs } => opcode(i) + blocktype.enc() + body_enc(instrs@) + seq![0x0bu8],
        WasmInstruction::IfElse { blocktype, if_instrs, else_instrs } =>
            opcode(i) + blocktype.enc() + body_enc(if_instrs@)
                + (if else_instrs@.len() > 0 { seq![0x05u8] + body_enc(else_instrs@) } else { Seq::<u8>::empty() }) + seq![0x0bu8],
        _ => opcode(i) + immediates(i),
    }
}
pub open spec fn body_enc(s: Seq<WasmInstruction>) -> Seq<u8>
    decreases s,
{
    if s.len() == 0 { Seq::<u8>::empty() } else { body_enc(s.drop_last()) + instr_enc(s.last()) }
}
pub proof fn lemma_body_step(s: Seq<WasmInstruction>, k: int)
    requires 0 <= k < s.len(),
    ensures body_enc(s.subrange(0, k + 1)) == body_enc(s.subrange(0, k)) + instr_enc(s[k]),
{
    let t = s.subrange(0, k + 1);
    assert(t.drop_last() =~= s.subrange(0, k));
    assert(t.last() == s[k]);
}
#[verifier::external_body]
pub fn vskip<T>() -> (r: T) ensures false { unimplemented!() }

//@fn src/back_end/wasm_instructions.rs ToBytes for WasmExpression::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { body_enc(self.instrs@) + seq![0x0bu8] }
//@ret r
//@nloops 1
//@iter 0 it
//@loop 0
    invariant bytes@ == body_enc(self.instrs@.subrange(0, it.index@ as int)),
//@loop 0 start
    proof { lemma_body_step(self.instrs@, it.index@ as int); }
//@end_
    proof { assert(self.instrs@.subrange(0, self.instrs@.len() as int) =~= self.instrs@); }
//@end

//@fn src/back_end/wasm_instructions.rs ToBytes for WasmInstruction::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { instr_enc(*self) }
//@ret r
//@nloops 4
//@split 12
//@attr #[verifier::spinoff_prover]
//@partspec
    ensures r@ == instr_enc(*self),
//@start
    proof { lemma_small_uleb(); }
//@tailarms
    proof { assert(__r@ =~= instr_enc(*self)); }
""")
for k, (pre, vec, pref) in enumerate([("", "instrs", ""), ("", "instrs", ""), ("", "if_instrs", ""), ("", "else_instrs", "")]):
    o.append(f"""//@iter {k} it{k}
//@loop {k} before
    let ghost pre{k} = bytes@;
//@loop {k}
    invariant bytes@ == pre{k} + body_enc({vec}@.subrange(0, it{k}.index@ as int)),
//@loop {k} start
    proof {{ lemma_body_step({vec}@, it{k}.index@ as int); }}
    let ghost b{k} = bytes@;
//@loop {k} end
    proof {{ assert(bytes@ =~= pre{k} + body_enc({vec}@.subrange(0, it{k}.index@ + 1))); }}
//@loop {k} after
    proof {{ assert({vec}@.subrange(0, {vec}@.len() as int) =~= {vec}@); }}
""")
o.append("//@end\n\n")
# injectivity of opcodes
o.append("/// position of an operation in the instruction enumeration (identity of the operation)\npub open spec fn op_id(i: WasmInstruction) -> int {\n    match i {\n")
allops = [(n, c, bool([x for x in im if x.split(':')[0]])) for n, c, im in T] + [(n, [c], True) for n, c in BODY]
for k, (n, c, f) in enumerate(allops): o.append(f"        WasmInstruction::{n}{' { .. }' if f else ''} => {k},\n")
o.append("    }\n}\n/// what a decoder reads off the first two bytes\npub open spec fn decode_op(b0: u8, b1: int) -> int {\n    ")
keys = sorted(((c[0], c[1] if len(c) > 1 else -1), k) for k, (n, c, f) in enumerate(allops))
def tree(ks):
    if len(ks) == 1:
        (b0, b1), k = ks[0]
        return f"if b0 == {b0} && b1 == {b1} {{ {k} }} else {{ -1 }}"
    m = len(ks) // 2
    b0, b1 = ks[m][0]
    c = f"b0 < {b0} || (b0 == {b0} && b1 < {b1})" if b0 == 0xFC else f"b0 < {b0}"
    return f"if {c} {{ {tree(ks[:m])} }} else {{ {tree(ks[m:])} }}"
o.append(tree(keys))
o.append("""
}
pub proof fn lemma_op_table(i: WasmInstruction)
    ensures op_id(i) == decode_op(op_first(i), op_second(i)), op_first(i) == 0xFC <==> op_second(i) >= 0, -1 <= op_second(i) < 128,
{
}
pub proof fn lemma_op_decodes(i: WasmInstruction)
    ensures
        instr_enc(i).len() >= 1,
        instr_enc(i)[0] == 0xFC ==> instr_enc(i).len() >= 2,
        op_id(i) == decode_op(instr_enc(i)[0], if instr_enc(i)[0] == 0xFC { instr_enc(i)[1] as int } else { -1 }),
{
    hide(op_first);
    hide(op_second);
    hide(immediates);
    hide(op_id);
    hide(decode_op);
    lemma_op_table(i);
    lemma_small_uleb();
    assert(instr_enc(i)[0] == op_first(i));
    assert(op_second(i) >= 0 ==> instr_enc(i).len() >= 2 && instr_enc(i)[1] == op_second(i));
}
/// no two different operations share an encoding
pub proof fn lemma_no_shared_encoding(a: WasmInstruction, b: WasmInstruction)
    requires op_id(a) != op_id(b),
    ensures instr_enc(a) != instr_enc(b),
{
    lemma_op_decodes(a);
    lemma_op_decodes(b);
}
""")
open(f"{V}/contracts/C03.rs", "w").write("".join(o))

# ---- the same table for the run-time evaluation ---------------------------------------------
TY = {"label_idx": "LabelIdx { l: V }", "func_idx": "FuncIdx { x: V }", "type_idx": "TypeIdx { x: V }", "local_idx": "LocalIdx { x: V }", "global_idx": "GlobalIdx { x: V }",
      "table_idx": "TableIdx { x: V }", "table_idx1": "TableIdx { x: V }", "table_idx2": "TableIdx { x: V }", "elem_idx": "ElemIdx { x: V }", "data_idx": "DataIdx { x: V }"}
o = ["// GENERATED by tools/gen/c03.py\n", f"pub const N_PLAIN: u64 = {len(T)};\n", "pub fn plain(r: &mut Rng, k: usize) -> (WasmInstruction, Vec<u8>) {\n    match k {\n"]
for k, (n, c, im) in enumerate(T):
    pre, fields, enc = [], [], ["vec![" + ", ".join(map(str, c)) + "]"]
    for j, x in enumerate(im):
        f, kd = x.split(":")
        if kd == "zero": enc.append("vec![0]")
        elif kd == "idx":
            pre.append(f"let v{j} = num(r);"); fields.append(f"{f}: " + TY[f].replace("V", f"v{j}")); enc.append(f"u(v{j} as u128)")
        elif kd == "vecidx":
            pre.append(f"let v{j}: Vec<u32> = (0..r.below(200)).map(|_| num(r)).collect();"); fields.append(f"{f}: v{j}.iter().map(|x| LabelIdx {{ l: *x }}).collect()"); enc.append(f"vecof(v{j}.iter().map(|x| u(*x as u128)).collect())")
        elif kd == "vecty":
            pre.append(f"let (v{j}, w{j}): (Vec<_>, Vec<_>) = (0..r.below(5)).map(|_| valtype(r)).unzip();"); fields.append(f"{f}: v{j}"); enc.append(f"vecof(w{j})")
        elif kd == "reft":
            pre.append(f"let v{j} = r.chance(1, 2);"); fields.append(f"{f}: if v{j} {{ RefType::FuncRef }} else {{ RefType::ExternRef }}"); enc.append(f"vec![if v{j} {{ 0x70 }} else {{ 0x6f }}]")
        elif kd == "memarg":
            pre.append(f"let (v{j}, w{j}) = (num(r), num(r));"); fields.append(f"{f}: MemArg {{ align: v{j}, offset: w{j} }}"); enc.append(f"u(v{j} as u128), u(w{j} as u128)")
        elif kd in ("s32", "s64"):
            t = "i" + kd[1:]; pre.append(f"let v{j} = ((r.u64() as i64) >> r.below(64)) as {t};"); fields.append(f"{f}: v{j}"); enc.append(f"s(v{j} as i128)")
        else:
            b = kd[1:]; pre.append(f"let v{j} = f{b}::from_bits(r.u64() as u{b} & !(1 << {20 if b == '32' else 50}));"); fields.append(f"{f}: v{j}"); enc.append(f"(0..{int(b) // 8}).map(|i| (v{j}.to_bits() >> (8 * i)) as u8).collect()")
    o.append(f"        {k} => {{ {' '.join(pre)} (WasmInstruction::{n}{' { ' + ', '.join(fields) + ' }' if fields else ''}, cat(vec![{', '.join(enc)}])) }}\n")
o.append('        _ => unreachable!(),\n    }\n}\n')
open(f"{V}/rac/src/wasm_table.rs", "w").write("".join(o))
