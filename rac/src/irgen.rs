//! Hand-made IR worlds: a program with variables of given types, placed in a frame or globally.
use crate::cc;
use crate::interp::*;
use crate::Rng;
use cc::back_end::target_code_generation_context::FunctionContext;
use cc::id::Id;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::ProgramMetadata;
use cc::middle_end::ir_types::*;
use std::collections::HashMap;

pub const FP: u32 = 4096;
pub const GLOBALS: u32 = 64;
pub fn arith() -> Vec<IrType> { vec![IrType::I8, IrType::U8, IrType::I16, IrType::U16, IrType::I32, IrType::U32, IrType::I64, IrType::U64, IrType::F32, IrType::F64] }
pub fn width(t: &IrType) -> usize { match t { IrType::I8 | IrType::U8 => 1, IrType::I16 | IrType::U16 => 2, IrType::I64 | IrType::U64 | IrType::F64 => 8, _ => 4 } }
pub fn signed(t: &IrType) -> bool { matches!(t, IrType::I8 | IrType::I16 | IrType::I32 | IrType::I64) }
pub fn floating(t: &IrType) -> bool { matches!(t, IrType::F32 | IrType::F64) }
/// the machine value a stored bit pattern of the type has
pub fn value(t: &IrType, b: u64) -> V {
    match t {
        IrType::I8 => V::I(b as i8 as i32),
        IrType::U8 => V::I(b as u8 as i32),
        IrType::I16 => V::I(b as i16 as i32),
        IrType::U16 => V::I(b as u16 as i32),
        IrType::I64 | IrType::U64 => V::L(b as i64),
        IrType::F32 => V::F(f32::from_bits(b as u32)),
        IrType::F64 => V::D(f64::from_bits(b)),
        _ => V::I(b as i32),
    }
}
/// the mathematical integer of a bit pattern of an integer type
pub fn integer(t: &IrType, b: u64) -> i128 {
    let n = width(t) as u32 * 8;
    let m = if n == 64 { b as i128 } else { (b & ((1 << n) - 1)) as i128 };
    if signed(t) && m >> (n - 1) & 1 == 1 { m - (1i128 << n) } else { m }
}
pub fn mask(t: &IrType, i: i128) -> u64 { let n = width(t) as u32 * 8; if n == 64 { i as u64 } else { (i & ((1i128 << n) - 1)) as u64 } }
/// interesting bit patterns of a type
pub fn bits(r: &mut Rng, t: &IrType) -> u64 {
    match t {
        IrType::F32 => {
            let f = match r.below(10) { 0 => 0.0, 1 => -0.0, 2 => f32::NAN, 3 => f32::INFINITY, 4 => -1.5, 5 => r.range(-1000, 1000) as f32, 6 => r.u64() as i64 as f32, 7 => r.u64() as f32, 8 => f32::MIN_POSITIVE / 2.0, _ => f32::from_bits(r.u64() as u32) };
            f.to_bits() as u64
        }
        IrType::F64 => {
            let f = match r.below(10) { 0 => 0.0, 1 => -0.0, 2 => f64::NAN, 3 => f64::NEG_INFINITY, 4 => -1.5, 5 => r.range(-1000, 1000) as f64, 6 => r.u64() as i64 as f64, 7 => r.u64() as f64, 8 => f64::MIN_POSITIVE / 2.0, _ => f64::from_bits(r.u64()) };
            f.to_bits()
        }
        _ => {
            let n = width(t) as u32 * 8;
            let v = match r.below(8) { 0 => 0, 1 => u64::MAX, 2 => 1u64 << (n - 1), 3 => (1u64 << (n - 1)) - 1, 4 => 1 << r.below(n as u64), 5 => r.below(200), 6 => (-(r.below(200) as i64)) as u64, _ => r.u64() };
            if n == 64 { v } else { v & ((1u64 << n) - 1) }
        }
    }
}
pub struct World {
    pub meta: ProgramMetadata,
    pub vars: Vec<(VarId, IrType, u32, bool)>,
    pub next_fp: u32,
    pub next_glob: u32,
}
impl World {
    pub fn new() -> Self { World { meta: ProgramMetadata::new(), vars: vec![], next_fp: 8, next_glob: GLOBALS } }
    pub fn var(&mut self, r: &mut Rng, t: &IrType) -> VarId {
        let v = self.meta.new_var(if r.chance(1, 2) { ValueType::LValue } else { ValueType::RValue });
        self.meta.add_var_type(v.clone(), t.clone()).unwrap();
        let global = r.chance(1, 4);
        let at = if global { let a = self.next_glob; self.next_glob += width(t) as u32 + r.below(3) as u32; a } else { let a = self.next_fp; self.next_fp += width(t) as u32 + r.below(3) as u32; a };
        self.vars.push((v.clone(), t.clone(), at, global));
        v
    }
    pub fn context(&mut self) -> FunctionContext {
        let (mut f, mut g) = (HashMap::new(), HashMap::new());
        for (v, _, at, glob) in &self.vars { if *glob { g.insert(v.clone(), *at); } else { f.insert(v.clone(), *at); } }
        FunctionContext::new(f, g, VarId::initial_id())
    }
    pub fn addr(&self, v: &VarId) -> u32 { let x = self.vars.iter().find(|x| x.0 == *v).unwrap(); if x.3 { x.2 } else { FP + x.2 } }
    pub fn ty(&self, v: &VarId) -> IrType { self.vars.iter().find(|x| x.0 == *v).unwrap().1.clone() }
    /// a machine with random memory, the frame pointer set
    pub fn machine(&self, r: &mut Rng) -> Machine<'static> {
        let mut m = Machine::new(8192);
        for b in m.mem.iter_mut() { *b = r.u64() as u8; }
        m.wr(0, 4, FP as u64);
        m.wr(8, 4, 6000);
        m
    }
    pub fn set(&self, m: &mut Machine, v: &VarId, b: u64) { m.wr(self.addr(v), width(&self.ty(v)), b) }
    pub fn get(&self, m: &Machine, v: &VarId) -> u64 { m.rd(self.addr(v), width(&self.ty(v))) }
}
/// addresses at which two memories differ
pub fn diff(a: &[u8], b: &[u8]) -> Vec<usize> { (0..a.len()).filter(|i| a[*i] != b[*i]).collect() }
