//! Random structured blocks of the shapes the relooper makes, with what each instruction assigns and reads,
//! and a machine that walks them: every branch decision is a function of the values read, so a walk can be
//! replayed on a rewritten block.
use crate::cc;
use crate::Rng;
use cc::id::Id;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::ProgramMetadata;
use cc::middle_end::ir_types::*;
use cc::relooper::blocks::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn nth<T: Id>(n: u64) -> T { let mut x = T::initial_id(); for _ in 0..n { x = x.next_id(); } x }
/// a printable key of an identifier (its text)
pub fn vk(v: &VarId) -> String { format!("{v}") }
pub fn ik(i: &InstructionId) -> u64 { i.as_u64() }

macro_rules! kinds {
    ($r:expr, $i:expr, $d:expr, $a:expr, $b:expr; un: $($u:ident)*; bin: $($v:ident)*) => {{
        let un: Vec<fn(InstructionId, VarId, Src) -> Instruction> = vec![$(Instruction::$u),*];
        let bin: Vec<fn(InstructionId, VarId, Src, Src) -> Instruction> = vec![$(Instruction::$v),*];
        let n = $r.below((un.len() + 2 * bin.len()) as u64) as usize;
        if n < un.len() { (un[n]($i, $d, $a.clone()), vec![$a]) } else { (bin[(n - un.len()) / 2]($i, $d, $a.clone(), $b.clone()), vec![$a, $b]) }
    }};
}
/// destination and sources of an instruction, by its declaration
pub fn parts(i: &Instruction) -> (Option<VarId>, Vec<Src>) {
    macro_rules! split {
        (un: $($u:ident)*; bin: $($v:ident)*) => {
            match i {
                $(Instruction::$u(_, d, s))|* => (Some(d.clone()), vec![s.clone()]),
                $(Instruction::$v(_, d, a, b))|* => (Some(d.clone()), vec![a.clone(), b.clone()]),
                Instruction::StoreToAddress(_, p, s) => (None, vec![Src::Var(p.clone()), s.clone()]),
                Instruction::DeclareVariable(_, d) => (Some(d.clone()), vec![]),
                Instruction::PointerToStringLiteral(_, d, _) => (Some(d.clone()), vec![]),
                Instruction::ReferenceVariable(_, v) => (None, vec![Src::Var(v.clone())]),
                Instruction::Call(_, d, _, a) => (Some(d.clone()), a.clone()),
                Instruction::TailCall(_, _, a) => (None, a.clone()),
                Instruction::Ret(_, Some(s)) => (None, vec![s.clone()]),
                Instruction::IfEqElse(_, a, b, _, _) | Instruction::IfNotEqElse(_, a, b, _, _) => (None, vec![a.clone(), b.clone()]),
                _ => (None, vec![]),
            }
        };
    }
    split!(un: SimpleAssignment LoadFromAddress AllocateVariable AddressOf BitwiseNot LogicalNot I8toI16 I8toU16 U8toI16 U8toU16 I16toI32 U16toI32 I16toU32 U16toU32 I32toU32 I32toU64 U32toU64 I64toU64 I32toI64 U32toI64 U32toF32 I32toF32 U64toF32 I64toF32 U32toF64 I32toF64 U64toF64 I64toF64 F32toF64 F64toI32 I32toI8 U32toI8 I64toI8 U64toI8 I32toU8 U32toU8 I64toU8 U64toU8 I64toI32 U64toI32 U32toPtr I32toPtr PtrToI32;
        bin: Mult Div Mod Add Sub LeftShift RightShift BitwiseAnd BitwiseOr BitwiseXor LogicalAnd LogicalOr LessThan GreaterThan LessThanEq GreaterThanEq Equal NotEqual)
}
pub fn def_of(i: &Instruction) -> Option<String> { parts(i).0.map(|d| vk(&d)) }
pub fn src_var(s: &Src) -> Option<String> { match s { Src::Var(v) | Src::StoreAddressVar(v) => Some(vk(v)), _ => None } }
pub fn refs_of(i: &Instruction) -> BTreeSet<String> { parts(i).1.iter().filter_map(src_var).collect() }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Encl { Loop(u64), Mult(u64) }
pub struct BG {
    pub r: Rng,
    pub meta: ProgramMetadata,
    pub vars: Vec<VarId>,
    pub aggregates: Vec<VarId>,
    pub globals: Vec<VarId>,
    pub params: Vec<VarId>,
    pub label: VarId,
    pub size: i64,
    pub next_id: u64,
    pub next_label: u64,
    pub funs: u64,
    pub addresses: bool,
}
impl BG {
    pub fn new(seed: u64, nvars: u64, size: i64) -> Self {
        let mut r = Rng::new(seed);
        let mut meta = ProgramMetadata::new();
        let label = meta.new_var(ValueType::LValue);
        meta.add_var_type(label.clone(), IrType::U64).unwrap();
        let (mut vars, mut aggregates, mut globals, mut params) = (vec![], vec![], vec![], vec![]);
        let ts = [IrType::I8, IrType::U8, IrType::I16, IrType::U16, IrType::I32, IrType::I32, IrType::U32, IrType::I64, IrType::U64, IrType::F32, IrType::F64, IrType::PointerTo(Box::new(IrType::I32))];
        for i in 0..nvars {
            let v = meta.new_var(if r.chance(1, 2) { ValueType::LValue } else { ValueType::RValue });
            meta.add_var_type(v.clone(), r.pick(&ts).clone()).unwrap();
            if i > 2 && r.chance(1, 12) { globals.push(v.clone()) } else if i > 2 && r.chance(1, 10) { params.push(v.clone()) }
            vars.push(v);
        }
        for _ in 0..r.below(3) {
            let v = meta.new_var(ValueType::LValue);
            let mut t = StructType::named(format!("s{}", aggregates.len()));
            for k in 0..1 + r.below(4) { t.push_member(format!("m{k}"), r.pick(&ts).clone(), &meta).unwrap(); }
            let id = meta.add_struct_type(t).unwrap();
            meta.add_var_type(v.clone(), IrType::Struct(id)).unwrap();
            aggregates.push(v);
        }
        let addresses = r.chance(1, 2);
        BG { r, meta, vars, aggregates, globals, params, label, size, next_id: 0, next_label: 0, funs: 4, addresses }
    }
    fn id(&mut self) -> InstructionId { self.meta.new_instr_id() }
    fn var(&mut self) -> VarId { self.r.pick(&self.vars).clone() }
    fn src(&mut self) -> Src {
        if self.r.chance(1, 4) { Src::Constant(if self.r.chance(1, 5) { Constant::Float(1.5) } else { Constant::Int(self.r.range(-9, 300) as i128) }) } else if self.r.chance(1, 25) { Src::StoreAddressVar(self.var()) } else { Src::Var(self.var()) }
    }
    fn srcs(&mut self) -> Vec<Src> { (0..self.r.below(4)).map(|_| self.src()).collect() }
    pub fn op(&mut self) -> Instruction {
        let (i, d, a, b) = (self.id(), self.var(), self.src(), self.src());
        match self.r.below(if self.addresses { 20 } else { 17 }) {
            0 => Instruction::StoreToAddress(i, d, a),
            1 => { let f = nth(self.r.below(self.funs)); Instruction::Call(i, d, f, self.srcs()) }
            2 => Instruction::PointerToStringLiteral(i, d, nth(0)),
            3 => Instruction::Nop(i),
            4 => { let v = if !self.aggregates.is_empty() && self.r.chance(1, 2) { self.r.pick(&self.aggregates).clone() } else { d }; Instruction::DeclareVariable(i, v) }
            5 => Instruction::LoadFromAddress(i, d, a),
            17 => { let v = if !self.aggregates.is_empty() && self.r.chance(2, 3) { self.r.pick(&self.aggregates).clone() } else { self.var() }; Instruction::AddressOf(i, d, Src::Var(v)) }
            6 | 7 | 8 => Instruction::SimpleAssignment(i, d, a),
            _ => kinds!(self.r, i, d, a, b; un: SimpleAssignment AllocateVariable BitwiseNot LogicalNot I8toI16 I8toU16 U8toI16 U8toU16 I16toI32 U16toI32 I16toU32 U16toU32 I32toU32 I32toU64 U32toU64 I64toU64 I32toI64 U32toI64 U32toF32 I32toF32 U64toF32 I64toF32 U32toF64 I32toF64 U64toF64 I64toF64 F32toF64 F64toI32 I32toI8 U32toI8 I64toI8 U64toI8 I32toU8 U32toU8 I64toU8 U64toU8 I64toI32 U64toI32 U32toPtr I32toPtr PtrToI32;
                bin: Mult Div Mod Add Sub LeftShift RightShift BitwiseAnd BitwiseOr BitwiseXor LogicalAnd LogicalOr LessThan GreaterThan LessThanEq GreaterThanEq Equal NotEqual).0,
        }
    }
    fn jump(&mut self, encl: &[Encl]) -> Instruction {
        let i = self.id();
        if encl.is_empty() || self.r.chance(1, 8) {
            return match self.r.below(4) { 0 => { let f = nth(self.r.below(self.funs)); Instruction::TailCall(i, f, self.srcs()) } 1 => Instruction::Ret(i, None), _ => { let s = self.src(); Instruction::Ret(i, Some(s)) } };
        }
        match *self.r.pick(encl) {
            Encl::Loop(n) => if self.r.chance(1, 2) { Instruction::Break(i, nth(n)) } else { Instruction::Continue(i, nth(n)) },
            Encl::Mult(n) => Instruction::EndHandledBlock(i, nth(n)),
        }
    }
    fn label_set(&mut self) -> Instruction { let (i, n) = (self.id(), self.r.below(self.next_label + 2)); Instruction::SimpleAssignment(i, self.label.clone(), Src::Constant(Constant::Int(n as i128))) }
    fn arm(&mut self, encl: &[Encl], depth: u64) -> Vec<Instruction> {
        let mut o = vec![];
        if self.r.chance(1, 4) { return o; }
        for _ in 0..self.r.below(3) { o.push(self.op()); }
        if depth > 0 && self.r.chance(1, 3) { let c = self.cond(encl, depth - 1); o.push(c); if self.r.chance(1, 2) { o.push(self.op()); } }
        if self.r.chance(1, 3) { o.push(self.label_set()); }
        if self.r.chance(1, 3) { o.push(self.jump(encl)); if self.r.chance(1, 10) { o.push(self.op()); } }
        o
    }
    fn cond(&mut self, encl: &[Encl], depth: u64) -> Instruction {
        let (a, b) = (self.arm(encl, depth), self.arm(encl, depth));
        let (i, l, r) = (self.id(), self.src(), self.src());
        if self.r.chance(1, 2) { Instruction::IfEqElse(i, l, r, a, b) } else { Instruction::IfNotEqElse(i, l, r, a, b) }
    }
    fn simple(&mut self, encl: &[Encl], depth: u64, stays: bool) -> Block {
        self.next_label += 1;
        let l = nth(self.next_label);
        let mut is = vec![];
        for _ in 0..self.r.below(6) { is.push(self.op()); }
        if self.r.chance(1, 3) { let d = self.r.below(3); let c = self.cond(encl, d); is.push(c); for _ in 0..self.r.below(3) { is.push(self.op()); } }
        if self.r.chance(1, 3) { is.push(self.label_set()); }
        if self.r.chance(1, 4) { let c = self.cond(encl, 1); is.push(c); }
        let next = if depth > 0 && self.size > 0 && self.r.chance(3, 4) { Some(Box::new(self.block(encl, depth - 1, stays))) } else { None };
        if next.is_none() && (self.r.chance(1, 2) || stays) { is.push(self.jump(encl)); }
        if is.is_empty() && (next.is_none() || self.r.chance(3, 4)) { let i = self.id(); is.push(Instruction::Nop(i)); }
        Block::Simple { internal: Label { label: l, instrs: is }, next }
    }
    /// `stays`: some instruction of the block must stay even when dead code goes
    pub fn block(&mut self, encl: &[Encl], depth: u64, stays: bool) -> Block {
        self.size -= 1;
        let what = if depth == 0 || self.size < 0 { 0 } else { self.r.below(4) };
        if what <= 1 { return self.simple(encl, depth, stays); }
        self.next_id += 1;
        let n = self.next_id;
        let mut e = encl.to_vec();
        if what == 2 {
            e.push(Encl::Loop(n));
            let inner = Box::new(self.block(&e, depth - 1, true));
            let next = if self.r.chance(2, 3) { Some(Box::new(self.block(encl, depth - 1, stays))) } else { None };
            return Block::Loop { id: nth(n), inner, next };
        }
        e.push(Encl::Mult(n));
        let mut hs = vec![];
        for _ in 0..1 + self.r.below(3) { hs.push(self.block(&e, depth - 1, true)); }
        let next = if self.r.chance(3, 4) { Some(Box::new(self.block(encl, depth - 1, stays))) } else { None };
        let pre = vec![Instruction::ReferenceVariable(self.id(), self.label.clone())];
        Block::Multiple { id: nth(n), pre_handled_blocks_instrs: pre, handled_blocks: hs, next }
    }
}
/// all instructions of a block, in order, with those inside conditionals
pub fn all(b: &Block) -> Vec<Instruction> {
    fn list(is: &[Instruction], o: &mut Vec<Instruction>) { for i in is { o.push(i.clone()); if let Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) = i { list(a, o); list(b, o); } } }
    fn go(b: &Block, o: &mut Vec<Instruction>) {
        match b {
            Block::Simple { internal, next } => { list(&internal.instrs, o); if let Some(n) = next { go(n, o) } }
            Block::Loop { inner, next, .. } => { go(inner, o); if let Some(n) = next { go(n, o) } }
            Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } => { list(pre_handled_blocks_instrs, o); for h in handled_blocks { go(h, o) } if let Some(n) = next { go(n, o) } }
        }
    }
    let mut o = vec![];
    go(b, &mut o);
    o
}
/// the instruction without the instructions inside it
pub fn head(i: &Instruction) -> String {
    match i {
        Instruction::IfEqElse(n, l, r, _, _) => format!("{:?}", Instruction::IfEqElse(n.clone(), l.clone(), r.clone(), vec![], vec![])),
        Instruction::IfNotEqElse(n, l, r, _, _) => format!("{:?}", Instruction::IfNotEqElse(n.clone(), l.clone(), r.clone(), vec![], vec![])),
        _ => format!("{i:?}"),
    }
}
fn mix(a: u64, b: u64) -> u64 { let mut z = (a ^ b.rotate_left(29)).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567); z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z ^ (z >> 27) }
fn hs(s: &str) -> u64 { s.bytes().fold(7, |h, b| mix(h, b as u64)) }
#[derive(Debug, PartialEq, Clone)]
pub enum F { Next, Break(u64), Continue(u64), End(u64), Stop }
/// a walk through a block
pub struct Walk<'a> {
    pub vals: BTreeMap<String, u64>,
    pub mem: u64,
    /// what may be read and written through pointers and by other functions
    pub exposed: BTreeSet<String>,
    pub salt: u64,
    /// decisions and loop rounds left; dead code elimination changes neither
    pub fuel: i64,
    pub steps: Vec<Instruction>,
    pub events: Vec<String>,
    pub meta: &'a ProgramMetadata,
}
impl<'a> Walk<'a> {
    pub fn new(meta: &'a ProgramMetadata, exposed: BTreeSet<String>, salt: u64, fuel: i64) -> Self { Walk { vals: BTreeMap::new(), mem: 0, exposed, salt, fuel, steps: vec![], events: vec![], meta } }
    fn get(&self, v: &str) -> u64 { match self.vals.get(v) { Some(x) => *x, None => mix(self.salt, hs(v)) } }
    fn src(&self, s: &Src) -> u64 { match s { Src::Var(v) | Src::StoreAddressVar(v) => self.get(&vk(v)), Src::Constant(c) => hs(&format!("{c}")), Src::Fun(f) => hs(&format!("{f}")) } }
    fn world(&self) -> u64 { self.exposed.iter().fold(self.mem, |h, v| mix(h, self.get(v))) }
    fn disturb(&mut self, x: u64) { self.mem = mix(self.mem, x); for v in self.exposed.clone() { let n = mix(self.get(&v), self.mem); self.vals.insert(v, n); } }
    fn spend(&mut self) -> bool { self.fuel -= 1; self.fuel < 0 }
    fn decide(&self, x: u64) -> u64 { mix(x, mix(self.salt, self.fuel as u64)) }
    fn instrs(&mut self, is: &[Instruction]) -> F {
        for i in is {
            self.steps.push(i.clone());
            let (d, ss) = parts(i);
            let mut x = ss.iter().fold(hs(&format!("{:?}", std::mem::discriminant(i))), |h, s| mix(h, self.src(s)));
            match i {
                Instruction::Nop(_) | Instruction::ReferenceVariable(..) => {}
                Instruction::StoreToAddress(..) => { self.events.push(format!("store {x}")); self.disturb(x); }
                Instruction::Call(_, _, f, _) => { x = mix(x, self.world()); self.events.push(format!("call {f} {x}")); self.disturb(x); }
                Instruction::TailCall(_, f, _) => { x = mix(x, self.world()); self.events.push(format!("tailcall {f} {x}")); return F::Stop; }
                Instruction::Ret(..) => { x = mix(x, self.world()); self.events.push(format!("ret {x}")); return F::Stop; }
                Instruction::LoadFromAddress(..) => x = mix(x, self.world()),
                Instruction::SimpleAssignment(..) => x = self.src(&ss[0]),
                Instruction::DeclareVariable(_, v) => x = mix(self.salt, hs(&vk(v))),
                Instruction::AddressOf(_, _, Src::Var(v)) => x = hs(&vk(v)),
                Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => {
                    if self.spend() { return F::Stop; }
                    let f = if self.decide(x) & 1 == 0 { self.instrs(a) } else { self.instrs(b) };
                    if f != F::Next { return f; }
                }
                Instruction::Break(_, n) => return F::Break(n.as_u64()),
                Instruction::Continue(_, n) => return F::Continue(n.as_u64()),
                Instruction::EndHandledBlock(_, n) => return F::End(n.as_u64()),
                _ => {}
            }
            if let Some(d) = d { if !self.meta.is_var_the_null_dest(&d) { self.vals.insert(vk(&d), x); } }
        }
        F::Next
    }
    /// walk the whole block; what the outside can see at its end counts too
    pub fn run(&mut self, b: &Block) { if self.block(b) == F::Next { let x = self.world(); self.events.push(format!("end {x}")); } }
    fn block(&mut self, b: &Block) -> F {
        let next = match b {
            Block::Simple { internal, next } => { let f = self.instrs(&internal.instrs); if f != F::Next { return f; } next }
            Block::Loop { id, inner, next } => {
                loop {
                    if self.spend() { return F::Stop; }
                    match self.block(inner) {
                        F::Next => {}
                        F::Continue(i) if i == id.as_u64() => {}
                        F::Break(i) if i == id.as_u64() => break,
                        f => return f,
                    }
                }
                next
            }
            Block::Multiple { id, pre_handled_blocks_instrs, handled_blocks, next } => {
                let f = self.instrs(pre_handled_blocks_instrs);
                if f != F::Next { return f; }
                let x = match parts(&pre_handled_blocks_instrs[0]).1.first() { Some(s) => self.src(s), None => 0 };
                let n = handled_blocks.len() as u64 + next.is_some() as u64;
                if self.spend() { return F::Stop; }
                let k = self.decide(x) % n;
                if k < handled_blocks.len() as u64 {
                    match self.block(&handled_blocks[k as usize]) { F::Next => {} F::End(i) if i == id.as_u64() => {} f => return f }
                }
                next
            }
        };
        match next { Some(n) => self.block(n), None => F::Next }
    }
}
