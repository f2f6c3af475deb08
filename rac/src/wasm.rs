//! Independent encoders from the WebAssembly binary format, and random values.
use crate::Rng;
use cc::back_end::wasm_indices::*;
use cc::back_end::wasm_instructions::*;
use cc::back_end::wasm_types::*;
use crate::cc;

pub fn u(mut v: u128) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v % 128) as u8;
        v /= 128;
        if v == 0 { o.push(b); return o; }
        o.push(b + 128);
    }
}
pub fn s(v: i128) -> Vec<u8> {
    let mut v = v;
    let mut o = vec![];
    loop {
        let b = v.rem_euclid(128) as u8;
        v = v.div_euclid(128);
        if (v == 0 && b < 64) || (v == -1 && b >= 64) { o.push(b); return o; }
        o.push(b + 128);
    }
}
pub fn cat(v: Vec<Vec<u8>>) -> Vec<u8> { v.concat() }
/// a vector of already encoded items
pub fn vecof(items: Vec<Vec<u8>>) -> Vec<u8> { cat(vec![u(items.len() as u128), cat(items)]) }
pub fn name(n: &str) -> Vec<u8> { cat(vec![u(n.len() as u128), n.as_bytes().to_vec()]) }
pub fn num(r: &mut Rng) -> u32 {
    match r.below(6) { 0 => r.below(4) as u32, 1 => 127 + r.below(3) as u32, 2 => 16383 + r.below(3) as u32, 3 => u32::MAX - r.below(2) as u32, _ => (r.u64() >> r.below(64)) as u32 }
}
pub fn valtype(r: &mut Rng) -> (ValType, Vec<u8>) {
    match r.below(6) {
        0 => (ValType::NumType(NumType::I32), vec![0x7f]),
        1 => (ValType::NumType(NumType::I64), vec![0x7e]),
        2 => (ValType::NumType(NumType::F32), vec![0x7d]),
        3 => (ValType::NumType(NumType::F64), vec![0x7c]),
        4 => (ValType::RefType(RefType::FuncRef), vec![0x70]),
        _ => (ValType::RefType(RefType::ExternRef), vec![0x6f]),
    }
}
pub fn limits(r: &mut Rng) -> (Limits, Vec<u8>) {
    let (a, b) = (num(r), num(r));
    if r.chance(1, 2) { (Limits { min: a, max: None }, cat(vec![vec![0], u(a as u128)])) } else { (Limits { min: a, max: Some(b) }, cat(vec![vec![1], u(a as u128), u(b as u128)])) }
}
pub fn blocktype(r: &mut Rng) -> (BlockType, Vec<u8>) {
    match r.below(3) {
        0 => (BlockType::None, vec![0x40]),
        1 => { let (t, b) = valtype(r); (BlockType::ValType(t), b) }
        _ => { let i = num(r) as i32 & i32::MAX; (BlockType::TypeIndex(i), s(i as i128)) }
    }
}
include!("wasm_table.rs");

/// a random instruction tree with the bytes the specification gives it
pub fn instr(r: &mut Rng, depth: u32) -> (WasmInstruction, Vec<u8>) {
    if depth > 0 && r.chance(1, 4) {
        let (bt, bb) = blocktype(r);
        let (i1, b1) = body(r, depth - 1);
        return match r.below(3) {
            0 => (WasmInstruction::Block { blocktype: bt, instrs: i1 }, cat(vec![vec![0x02], bb, b1, vec![0x0b]])),
            1 => (WasmInstruction::Loop { blocktype: bt, instrs: i1 }, cat(vec![vec![0x03], bb, b1, vec![0x0b]])),
            _ => {
                let (i2, b2) = body(r, depth - 1);
                let e = if i2.is_empty() { vec![] } else { cat(vec![vec![0x05], b2]) };
                (WasmInstruction::IfElse { blocktype: bt, if_instrs: i1, else_instrs: i2 }, cat(vec![vec![0x04], bb, b1, e, vec![0x0b]]))
            }
        };
    }
    let k = r.below(N_PLAIN) as usize;
    plain(r, k)
}
pub fn body(r: &mut Rng, depth: u32) -> (Vec<WasmInstruction>, Vec<u8>) {
    let (mut is, mut bs) = (vec![], vec![]);
    for _ in 0..r.below(5) {
        let (i, b) = instr(r, depth);
        is.push(i);
        bs.extend(b);
    }
    (is, bs)
}
pub fn expr(r: &mut Rng) -> (WasmExpression, Vec<u8>) {
    let (i, mut b) = body(r, 2);
    b.push(0x0b);
    (WasmExpression { instrs: i }, b)
}
