//! C27: names and jumps resolve to the innermost enclosing declaration or construct.
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::id::Id;
use cc::middle_end::context::*;
use cc::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
use cc::middle_end::instructions::Instruction;
use cc::middle_end::ir::ProgramMetadata;
use cc::middle_end::ir_types::IrType;
use std::collections::HashMap;

// ---- the scopes and the loop stack themselves, against a model
#[derive(Default, Clone)]
struct Sc { vars: HashMap<String, u64>, enums: HashMap<String, i32>, types: HashMap<String, IrType>, structs: HashMap<String, u64>, unions: HashMap<String, u64>, etags: Vec<String> }
#[derive(Clone)]
enum Lp { Loop { end: u64, cont: u64 }, Switch { end: u64, var: u64, blocks: Vec<Vec<u64>>, conds: Vec<u64>, dflt: Option<u64> } }
/// ids in order of creation
struct Ids<T> { all: Vec<T> }
impl<T: Id + Clone + PartialEq> Ids<T> {
    fn new() -> Self { Ids { all: vec![] } }
    fn fresh(&mut self) -> (T, u64) { let n = match self.all.last() { None => T::initial_id(), Some(l) => l.next_id() }; self.all.push(n.clone()); (n, self.all.len() as u64 - 1) }
    fn num(&self, t: &T) -> u64 { self.all.iter().position(|x| x == t).map(|x| x as u64).unwrap_or(u64::MAX) }
}
const NAMES: &[&str] = &["a", "b", "ab", "c"];
fn model(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut x = Context::new();
    let mut meta = ProgramMetadata::new();
    let (mut vs, mut ls, mut ss, mut us, mut fs) = (Ids::<VarId>::new(), Ids::<LabelId>::new(), Ids::<StructId>::new(), Ids::<UnionId>::new(), Ids::<FunId>::new());
    let mut instrs: Vec<Instruction> = vec![];
    let mut scopes: Vec<Sc> = vec![Sc::default()];
    let mut loops: Vec<Lp> = vec![];
    let mut funs: HashMap<String, u64> = HashMap::new();
    let mut log: Vec<String> = vec![];
    let tys = [IrType::I8, IrType::U64, IrType::F32];
    let steps = 4 + r.below(26);
    for _ in 0..steps {
        let n = *r.pick(NAMES);
        let name = n.to_string();
        macro_rules! agree { ($what:expr, $want:expr, $got:expr) => { let (w, g) = ($want, $got); if w != g {
            c.fail(format!("{}", $what), "names and jumps resolve to the innermost enclosing declaration or construct", log.join("; "), format!("{} gives {w:?}", $what), format!("{g:?}")); return; } } }
        let inner = |loops: &Vec<Lp>| loops.iter().rposition(|l| matches!(l, Lp::Switch { .. }));
        match r.below(19) {
            0 | 1 => { log.push("push_scope".into()); x.push_scope(); scopes.push(Sc::default()); }
            2 => if scopes.len() > 1 { log.push("pop_scope".into()); x.pop_scope(); scopes.pop(); },
            3 | 4 => { let (v, k) = vs.fresh(); log.push(format!("declare {n} = variable {k}")); let ok = x.add_variable_to_scope(name.clone(), v, r.pick(&tys).clone()).is_ok(); scopes.last_mut().unwrap().vars.insert(name, k); agree!("declare", true, ok); }
            5 => { let k = r.range(-5, 5) as i32; log.push(format!("enum constant {n} = {k}")); let ok = x.add_enum_constant(name.clone(), k).is_ok(); let s = scopes.last_mut().unwrap(); let want = !s.enums.contains_key(n); if want { s.enums.insert(name, k); } agree!("enum constant", want, ok); }
            6 => { log.push(format!("enum tag {n}")); let ok = x.add_enum_tag(name.clone()).is_ok(); let s = scopes.last_mut().unwrap(); let want = !s.etags.contains(&name); if want { s.etags.push(name); } agree!("enum tag", want, ok); }
            7 => { let (v, k) = ss.fresh(); log.push(format!("struct tag {n} = {k}")); let ok = x.add_struct_tag(name.clone(), v).is_ok(); let s = scopes.last_mut().unwrap(); let want = !s.structs.contains_key(n); if want { s.structs.insert(name, k); } agree!("struct tag", want, ok); }
            8 => { let (v, k) = us.fresh(); log.push(format!("union tag {n} = {k}")); let ok = x.add_union_tag(name.clone(), v).is_ok(); let s = scopes.last_mut().unwrap(); let want = !s.unions.contains_key(n); if want { s.unions.insert(name, k); } agree!("union tag", want, ok); }
            9 => { let t = r.pick(&tys).clone(); log.push(format!("typedef {n} = {t}"));
                // a name that has one meaning may be given it again
                if let Some(old) = scopes.iter().rev().find_map(|s| s.types.get(n)) { if *old != t { continue; } }
                let ok = x.add_typedef(name.clone(), t.clone()).is_ok(); scopes.last_mut().unwrap().types.insert(name, t); agree!("typedef", true, ok); }
            10 => { let (f, k) = if !fs.all.is_empty() && r.chance(1, 2) { let k = r.below(fs.all.len() as u64); (fs.all[k as usize].clone(), k) } else { fs.fresh() }; log.push(format!("function {n} = {k}"));
                let ok = x.add_function_declaration(name.clone(), f).is_ok(); let want = funs.get(n).map_or(true, |o| *o == k); if want { funs.insert(name, k); } agree!("function", want, ok); }
            11 => { let ((s, _), (e, ek), (k, kk)) = (ls.fresh(), ls.fresh(), ls.fresh()); match r.below(3) {
                0 => { log.push(format!("while loop, start {kk}, end {ek}")); x.push_loop(LoopContext::while_loop(k, e)); }
                1 => { log.push(format!("do loop, end {ek}, continue {kk}")); x.push_loop(LoopContext::do_while_loop(s, e, k)); }
                _ => { log.push(format!("for loop, end {ek}, continue {kk}")); x.push_loop(LoopContext::for_loop(s, e, k)); } }
                loops.push(Lp::Loop { end: ek, cont: kk }); }
            12 => { let ((e, ek), (v, vk)) = (ls.fresh(), vs.fresh()); log.push(format!("switch on variable {vk}, end {ek}")); x.push_switch(SwitchContext::new(e, v)); loops.push(Lp::Switch { end: ek, var: vk, blocks: vec![], conds: vec![], dflt: None }); }
            13 => match loops.last() {
                Some(Lp::Loop { .. }) if r.chance(1, 2) => { log.push("pop_loop".into()); x.pop_loop(); loops.pop(); }
                Some(Lp::Switch { .. }) if r.chance(1, 2) => { log.push("pop_switch".into());
                    let Some(Lp::Switch { end, var, blocks, conds, dflt }) = loops.pop() else { return };
                    match x.pop_switch() {
                        Err(_) => { c.fail("pop_switch", "the innermost switch ends", log.join("; "), "the switch", "an error"); return; }
                        Ok(s) => {
                            agree!("pop_switch: end label", end, ls.num(&s.end_label));
                            agree!("pop_switch: variable", var, vs.num(&s.switch_var));
                            agree!("pop_switch: default", dflt, s.default_block_label.as_ref().map(|l| ls.num(l)));
                            let num = |i: &Instruction| match i { Instruction::Label(_, l) => ls.num(l), Instruction::Br(_, l) => 1_000_000 + ls.num(l), _ => 9_999_999 };
                            agree!("pop_switch: case blocks", blocks, s.case_blocks.iter().map(|b| b.iter().map(num).collect::<Vec<u64>>()).collect::<Vec<_>>());
                            agree!("pop_switch: case conditions", conds, s.case_condition_instrs.iter().map(num).collect::<Vec<u64>>());
                        }
                    } }
                _ => {}
            },
            14 => { let (l, k) = ls.fresh(); let conds: Vec<Instruction> = (0..r.below(3)).map(|_| { let (l, _) = ls.fresh(); Instruction::Br(meta.new_instr_id(), l) }).collect(); let nums: Vec<u64> = conds.iter().map(|i| match i { Instruction::Br(_, l) => 1_000_000 + ls.num(l), _ => 0 }).collect();
                log.push(format!("case block {k}, conditions {nums:?}")); let ok = x.new_switch_case_block(l, conds, &mut meta).is_ok(); let want = inner(&loops);
                if let Some(i) = want { if let Lp::Switch { blocks, conds, .. } = &mut loops[i] { blocks.push(vec![k]); conds.extend(nums); } } agree!("case block", want.is_some(), ok); }
            15 => { let is: Vec<Instruction> = (0..r.below(3)).map(|_| { let (l, _) = ls.fresh(); Instruction::Br(meta.new_instr_id(), l) }).collect(); instrs.extend(is.clone()); let nums: Vec<u64> = is.iter().map(|i| match i { Instruction::Br(_, l) => 1_000_000 + ls.num(l), _ => 0 }).collect();
                log.push(format!("instructions {nums:?} to the case")); let ok = x.push_instrs_to_switch_case_block(is).is_ok(); let mut want = false;
                if let Some(i) = inner(&loops) { if let Lp::Switch { blocks, .. } = &mut loops[i] { if let Some(b) = blocks.last_mut() { b.extend(nums); want = true; } } } agree!("instructions of a case", want, ok); }
            16 => { let (l, k) = ls.fresh(); log.push(format!("default {k}")); let ok = x.add_default_switch_block_label(l).is_ok(); let mut want = false;
                if let Some(i) = inner(&loops) { if let Lp::Switch { dflt, .. } = &mut loops[i] { if dflt.is_none() { *dflt = Some(k); want = true; } } } agree!("default", want, ok); }
            _ => {}
        }
        // everything that can be asked, asked
        for n in NAMES {
            let want = scopes.iter().rev().find_map(|s| s.vars.get(*n).map(|v| (0, *v as i64)).or(s.enums.get(*n).map(|k| (1, *k as i64))));
            let got = match x.resolve_identifier_to_var_or_const(n) { Ok(IdentifierResolveResult::Var(v)) => Some((0, vs.num(&v) as i64)), Ok(IdentifierResolveResult::EnumConst(k)) => Some((1, k as i64)), Err(_) => None };
            agree!(format!("identifier {n}"), want, got);
            agree!(format!("typedef name {n}"), scopes.iter().rev().find_map(|s| s.types.get(*n).cloned()), x.resolve_typedef(n).ok());
            agree!(format!("struct {n}"), scopes.iter().rev().find_map(|s| s.structs.get(*n).cloned()), x.resolve_struct_tag_to_struct_id(n).ok().map(|s| ss.num(&s)));
            agree!(format!("union {n}"), scopes.iter().rev().find_map(|s| s.unions.get(*n).cloned()), x.resolve_union_tag_to_union_id(n).ok().map(|s| us.num(&s)));
            agree!(format!("enum {n}"), scopes.iter().any(|s| s.etags.iter().any(|t| t == n)), x.resolve_identifier_to_enum_tag(n).is_ok());
            agree!(format!("function {n}"), funs.get(*n).copied(), x.resolve_identifier_to_fun(n).ok().map(|f| fs.num(&f)));
        }
        agree!("break", loops.last().map(|l| match l { Lp::Loop { end, .. } => *end, Lp::Switch { end, .. } => *end }), x.get_break_label().map(|l| ls.num(l)));
        agree!("continue", loops.iter().rev().find_map(|l| match l { Lp::Loop { cont, .. } => Some(*cont), _ => None }), x.get_continue_label().map(|l| ls.num(l)));
        agree!("in a switch", inner(&loops).is_some(), x.is_in_switch_context());
        agree!("switch variable", inner(&loops).and_then(|i| match &loops[i] { Lp::Switch { var, .. } => Some(*var), _ => None }), x.get_switch_variable().map(|v| vs.num(&v)));
    }
    c.case(|| log.join("; "));
}

// ---- whole programs
#[derive(Debug, Clone)]
enum E { Num(u32), Name(&'static str), Add(Box<E>, Box<E>), Mul(Box<E>, u32), SizeStruct(&'static str), SizeUnion(&'static str), SizeType(&'static str) }
#[derive(Debug, Clone)]
enum S {
    Decl(&'static str, E), Enum(Vec<(&'static str, Option<i32>)>), Struct(&'static str, u32), Union(&'static str, u32), Typedef(&'static str, u32),
    Acc(E), Set(&'static str, E), Block(Vec<S>), If(E, u32, Box<S>, Option<Box<S>>),
    While(&'static str, u32, Vec<S>), Do(&'static str, u32, Vec<S>), For(&'static str, u32, u32, bool, Box<S>), Switch(E, u32, Vec<Sw>), Break, Continue, Goto(usize), Label(usize, Box<S>), BackGoto(usize, u32), Return(E),
}
#[derive(Debug, Clone)]
enum Sw { Case(u32), Default, Stmt(S) }
const IDS: &[&str] = &["a", "b", "c", "dd"];
const TAGS: &[&str] = &["S", "T"];
#[derive(Clone, Default)]
struct Known { vals: Vec<&'static str>, vars: Vec<&'static str>, st: Vec<&'static str>, un: Vec<&'static str>, ty: Vec<&'static str> }
struct Gen { r: Rng, left: i64, counters: u64, labels: usize, types: Vec<&'static str> }
const COUNTERS: &[&str] = &["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"];
const TYPES: &[&str] = &["t1", "t2", "t3", "t4", "t5", "t6"];
impl Gen {
    fn e(&mut self, k: &Known, d: u32) -> E {
        match self.r.below(8) {
            0 => E::Num(self.r.below(20) as u32),
            1 if d > 0 => E::Add(Box::new(self.e(k, d - 1)), Box::new(self.e(k, d - 1))),
            2 if d > 0 => E::Mul(Box::new(self.e(k, d - 1)), 2 + self.r.below(3) as u32),
            3 if !k.st.is_empty() => E::SizeStruct(*self.r.pick(&k.st)),
            4 if !k.un.is_empty() => E::SizeUnion(*self.r.pick(&k.un)),
            5 if !k.ty.is_empty() => E::SizeType(*self.r.pick(&k.ty)),
            _ => if k.vals.is_empty() { E::Num(3) } else { E::Name(*self.r.pick(&k.vals)) },
        }
    }
    /// a new scope's declarations and statements
    fn block(&mut self, k: &Known, depth: u32, inl: bool, insw: bool) -> Vec<S> {
        let mut k = k.clone();
        let mut out = vec![];
        let mut here: Vec<&str> = vec![];
        let mut tags: Vec<&str> = vec![];
        let n = 1 + self.r.below(4);
        for _ in 0..n {
            match self.r.below(12) {
                0 | 1 | 2 => { let n = *self.r.pick(IDS); if here.contains(&n) { continue; } let e = loop { let e = self.e(&k, 1); if !uses(&e, n) { break e; } }; here.push(n); k.vals.push(n); if !k.vars.contains(&n) { k.vars.push(n); } out.push(S::Decl(n, e)); }
                3 => { let n = *self.r.pick(IDS); if here.contains(&n) { continue; } let m = *self.r.pick(IDS); here.push(n); k.vals.push(n); k.vars.retain(|x| *x != n); let mut v = vec![(n, if self.r.chance(1, 2) { Some(self.r.below(50) as i32) } else { None })]; if !here.contains(&m) { here.push(m); k.vals.push(m); k.vars.retain(|x| *x != m); v.push((m, if self.r.chance(1, 3) { Some(self.r.below(50) as i32) } else { None })); } out.push(S::Enum(v)); }
                4 => { let t = *self.r.pick(TAGS); if tags.contains(&t) { continue; } tags.push(t); let n = 1 + self.r.below(9) as u32; if self.r.chance(1, 2) { k.st.push(t); k.un.retain(|x| *x != t); out.push(S::Struct(t, n)); } else { k.un.push(t); k.st.retain(|x| *x != t); out.push(S::Union(t, n)); } }
                5 => { if let Some(t) = self.types.pop() { k.ty.push(t); out.push(S::Typedef(t, self.r.below(4) as u32)); } }
                _ => { let s = self.stmt(&k, depth, inl, insw); out.push(s); }
            }
        }
        let s = self.stmt(&k, 0, inl, insw); out.push(s);
        out
    }
    fn nested(&mut self, k: &Known, depth: u32, inl: bool, insw: bool) -> S { if self.r.chance(1, 3) { self.stmt(k, depth, inl, insw) } else { S::Block(self.block(k, depth, inl, insw)) } }
    fn stmt(&mut self, k: &Known, depth: u32, inl: bool, insw: bool) -> S {
        self.left -= 1;
        let pick = if depth == 0 || self.left < 0 { self.r.below(6) } else { self.r.below(14) };
        match pick {
            4 if inl || insw => S::If(self.e(k, 1), 3, Box::new(if inl && (!insw || self.r.chance(1, 2)) && self.r.chance(1, 2) { S::Continue } else { S::Break }), None),
            5 if self.labels > 0 && self.r.chance(1, 2) => { let l = self.r.below(self.labels as u64) as usize; S::If(self.e(k, 1), 5, Box::new(S::Goto(l)), None) }
            5 if self.r.chance(1, 8) => { let e = self.e(k, 1); S::If(self.e(k, 1), 5, Box::new(S::Return(e)), None) }
            3 if !k.vars.is_empty() => S::Set(*self.r.pick(&k.vars.clone()), self.e(k, 1)),
            6 | 7 => S::Block(self.block(k, depth - 1, inl, insw)),
            8 => { let c = self.e(k, 1); let t = self.nested(k, depth - 1, inl, insw); let t = if matches!(t, S::If(..) | S::For(..) | S::Label(..)) { S::Block(vec![t]) } else { t }; let e = if self.r.chance(1, 2) { Some(Box::new(self.nested(k, depth - 1, inl, insw))) } else { None }; S::If(c, 2 + self.r.below(2) as u32, Box::new(t), e) }
            9 if self.counters < 8 => { let v = COUNTERS[self.counters as usize]; self.counters += 1; S::While(v, 1 + self.r.below(3) as u32, self.block(k, depth - 1, true, false)) }
            10 if self.counters < 8 => { let v = COUNTERS[self.counters as usize]; self.counters += 1; S::Do(v, 1 + self.r.below(3) as u32, self.block(k, depth - 1, true, false)) }
            11 => { let n = *self.r.pick(IDS); let decl = self.r.chance(3, 4) || !k.vars.contains(&n); let mut kk = k.clone(); kk.vals.push(n); kk.vars.retain(|x| *x != n); S::For(n, self.r.below(2) as u32, 1 + self.r.below(4) as u32, decl, Box::new(self.nested(&kk, depth - 1, true, false))) }
            12 | 13 => {
                let mut body = vec![]; let mut ks: Vec<u32> = (0..4).collect(); self.r.shuffle(&mut ks); let mut dflt = false;
                let m = 2 + self.r.below(2) as u32;
                for g in 0..1 + self.r.below(4) { if !dflt && self.r.chance(1, 4) { dflt = true; body.push(Sw::Default); } else { match ks.pop() { Some(q) => body.push(Sw::Case(q)), None => break } } let _ = g;
                    for _ in 0..self.r.below(3) { let s = self.nested(k, depth - 1, inl, true); body.push(Sw::Stmt(s)); }
                    if self.r.chance(1, 2) { body.push(Sw::Stmt(S::Break)); } }
                S::Switch(self.e(k, 1), m, body)
            }
            _ => S::Acc(self.e(k, 2)),
        }
    }
}
fn uses(e: &E, n: &str) -> bool { match e { E::Name(m) => *m == n, E::Add(a, b) => uses(a, n) || uses(b, n), E::Mul(a, _) => uses(a, n), _ => false } }
const TY: &[(&str, u32)] = &[("char", 1), ("short", 2), ("int", 4), ("long", 8)];
fn pe(e: &E) -> String { match e { E::Num(n) => n.to_string(), E::Name(n) => n.to_string(), E::Add(a, b) => format!("({} + {})", pe(a), pe(b)), E::Mul(a, n) => format!("({} * {n})", pe(a)), E::SizeStruct(t) => format!("sizeof(struct {t})"), E::SizeUnion(t) => format!("sizeof(union {t})"), E::SizeType(t) => format!("sizeof({t})") } }
fn members(kind: &str, t: &str, n: u32) -> String { let mut s = format!("{kind} {t} {{ "); if kind == "struct" { for i in 0..n { s += &format!("char m{i}; "); } } else { for i in 0..=n % 4 { s += &format!("{} m{i}; ", TY[i as usize].0); } } s + "};" }
fn pb(b: &[S]) -> String { b.iter().map(ps).collect::<Vec<_>>().join(" ") }
fn ps(s: &S) -> String {
    match s {
        S::Decl(n, e) => format!("unsigned int {n} = {};", pe(e)),
        S::Enum(v) => format!("enum {{ {} }};", v.iter().map(|(n, k)| match k { Some(k) => format!("{n} = {k}"), None => n.to_string() }).collect::<Vec<_>>().join(", ")),
        S::Struct(t, n) => members("struct", t, *n),
        S::Union(t, n) => members("union", t, *n),
        S::Typedef(t, n) => format!("typedef {} {t};", TY[*n as usize].0),
        S::Acc(e) => format!("acc = acc * 3 + {};", pe(e)),
        S::Set(n, e) => format!("{n} = {};", pe(e)),
        S::Block(b) => format!("{{ {} }}", pb(b)),
        S::If(c, m, t, e) => match e { None => format!("if ((acc + {}) % {m} == 1) {}", pe(c), ps(t)), Some(e) => format!("if ((acc + {}) % {m} == 1) {} else {}", pe(c), ps(t), ps(e)) },
        S::While(k, n, b) => format!("{{ {k} = 0; while ({k} < {n}) {{ {k} = {k} + 1; {} }} }}", pb(b)),
        S::Do(k, n, b) => format!("{{ {k} = 0; do {{ {k} = {k} + 1; {} }} while ({k} < {n}); }}", pb(b)),
        S::For(n, a, z, d, b) => format!("for ({}{n} = {a}; {n} < {z}; {n} = {n} + 1) {}", if *d { "unsigned int " } else { "" }, ps(b)),
        S::Switch(e, m, b) => format!("switch ((acc + {}) % {m}) {{ {} }}", pe(e), b.iter().map(|x| match x { Sw::Case(k) => format!("case {k}:"), Sw::Default => "default:".into(), Sw::Stmt(s) => ps(s) }).collect::<Vec<_>>().join(" ") + if matches!(b.last(), Some(Sw::Stmt(_))) { "" } else { " ;" }),
        S::Break => "break;".into(),
        S::Continue => "continue;".into(),
        S::Goto(l) => format!("goto l{l};"),
        S::Label(l, s) => format!("l{l}: {}", ps(s)),
        S::BackGoto(l, n) => format!("back = back + 1; if (back < {n}) goto l{l};"),
        S::Return(e) => format!("return ({}) % 200;", pe(e)),
    }
}
#[derive(PartialEq, Debug)]
enum C { Next, Break, Continue, Goto(usize), Return(u32), Stop }
#[derive(Clone, Copy)]
enum V { Cell(usize), Const(u32) }
#[derive(Default)]
struct Scope2 { vals: HashMap<&'static str, V>, st: HashMap<&'static str, u32>, un: HashMap<&'static str, u32>, ty: HashMap<&'static str, u32> }
struct Run { scopes: Vec<Scope2>, cells: Vec<u32>, acc: u32, fuel: i64, back: u32 }
impl Run {
    fn name(&self, n: &str) -> V { self.scopes.iter().rev().find_map(|s| s.vals.get(n).copied()).unwrap_or(V::Const(0)) }
    fn e(&self, e: &E) -> u32 { match e {
        E::Num(n) => *n, E::Name(n) => match self.name(n) { V::Cell(c) => self.cells[c], V::Const(k) => k }, E::Add(a, b) => self.e(a).wrapping_add(self.e(b)), E::Mul(a, n) => self.e(a).wrapping_mul(*n),
        E::SizeStruct(t) => self.scopes.iter().rev().find_map(|s| s.st.get(t).copied()).unwrap_or(0), E::SizeUnion(t) => self.scopes.iter().rev().find_map(|s| s.un.get(t).copied()).unwrap_or(0), E::SizeType(t) => self.scopes.iter().rev().find_map(|s| s.ty.get(t).copied()).unwrap_or(0) } }
    fn declare(&mut self, n: &'static str, v: u32) { self.cells.push(v); let c = self.cells.len() - 1; self.scopes.last_mut().unwrap().vals.insert(n, V::Cell(c)); }
    fn block(&mut self, b: &[S]) -> C { self.scopes.push(Scope2::default()); let r = self.seq(b); self.scopes.pop(); r }
    fn seq(&mut self, b: &[S]) -> C {
        let mut i = 0;
        while i < b.len() {
            match self.s(&b[i]) { C::Next => i += 1, C::Goto(l) => match b.iter().position(|s| matches!(s, S::Label(m, _) if *m == l)) { Some(k) => i = k, None => return C::Goto(l) }, c => return c }
        }
        C::Next
    }
    fn s(&mut self, s: &S) -> C {
        self.fuel -= 1;
        if self.fuel < 0 { return C::Stop; }
        match s {
            S::Decl(n, e) => { let v = self.e(e); self.declare(n, v); C::Next }
            S::Enum(v) => { let mut next = 0; for (n, k) in v { let x = k.unwrap_or(next); next = x + 1; self.scopes.last_mut().unwrap().vals.insert(n, V::Const(x as u32)); } C::Next }
            S::Struct(t, n) => { self.scopes.last_mut().unwrap().st.insert(t, *n); C::Next }
            S::Union(t, n) => { self.scopes.last_mut().unwrap().un.insert(t, TY[(*n % 4) as usize].1); C::Next }
            S::Typedef(t, n) => { self.scopes.last_mut().unwrap().ty.insert(t, TY[*n as usize].1); C::Next }
            S::Acc(e) => { self.acc = self.acc.wrapping_mul(3).wrapping_add(self.e(e)); C::Next }
            S::Set(n, e) => { let v = self.e(e); if let V::Cell(c) = self.name(n) { self.cells[c] = v; } C::Next }
            S::Block(b) => self.block(b),
            S::If(c, m, t, e) => if self.acc.wrapping_add(self.e(c)) % m == 1 { self.s(t) } else if let Some(e) = e { self.s(e) } else { C::Next },
            S::While(_, n, b) => { for _ in 0..*n { match self.block(b) { C::Next | C::Continue => {} C::Break => break, c => return c } } C::Next }
            S::Do(_, n, b) => { for _ in 0..*n { match self.block(b) { C::Next | C::Continue => {} C::Break => break, c => return c } } C::Next }
            S::For(n, a, z, d, b) => {
                self.scopes.push(Scope2::default());
                if *d { self.declare(n, *a); } else if let V::Cell(c) = self.name(n) { self.cells[c] = *a; }
                let V::Cell(c) = self.name(n) else { self.scopes.pop(); return C::Stop };
                let mut out = C::Next;
                loop { self.fuel -= 1; if self.fuel < 0 { out = C::Stop; break; } if self.cells[c] >= *z { break; } match self.s(b) { C::Next | C::Continue => {} C::Break => break, k => { out = k; break; } } self.cells[c] = self.cells[c].wrapping_add(1); }
                self.scopes.pop(); out
            }
            S::Switch(e, m, b) => {
                let v = self.acc.wrapping_add(self.e(e)) % m;
                let at = b.iter().position(|x| matches!(x, Sw::Case(k) if *k == v)).or(b.iter().position(|x| matches!(x, Sw::Default)));
                let Some(at) = at else { return C::Next };
                for x in &b[at..] { if let Sw::Stmt(s) = x { match self.s(s) { C::Next => {} C::Break => return C::Next, c => return c } } }
                C::Next
            }
            S::Break => C::Break, S::Continue => C::Continue, S::Goto(l) => C::Goto(*l), S::Label(_, s) => self.s(s),
            S::BackGoto(l, n) => { self.back += 1; if self.back < *n { C::Goto(*l) } else { C::Next } }
            S::Return(e) => C::Return(self.e(e) % 200),
        }
    }
}
/// (a typedef's name is given once in a program: the parser keeps it for the rest of the text)
fn function(r: &mut Rng, globals: &Known, types: &[&'static str]) -> Vec<S> {
    let mut g = Gen { r: Rng::new(r.u64()), left: 14, counters: 0, labels: 2, types: types.to_vec() };
    let mut k = globals.clone();
    // what is declared before any label stays declared
    let mut body = vec![];
    for n in IDS { if g.r.chance(1, 2) { body.push(S::Decl(n, E::Num(g.r.below(9) as u32))); if !k.vals.contains(n) { k.vals.push(n); } if !k.vars.contains(n) { k.vars.push(n); } } }
    if g.r.chance(1, 2) { body.push(S::Struct("S", 3)); k.st.push("S"); k.un.retain(|t| *t != "S"); }
    let depth = 3;
    body.push(g.stmt(&k, depth, false, false));
    // a label to jump back to
    let s = g.stmt(&k, 1, false, false); 
        body.push(S::Label(9, Box::new(s)));
    g.labels = 2;
    body.push(g.stmt(&k, depth, false, false));
    body.push(S::BackGoto(9, 1 + g.r.below(3) as u32));
    body.push(g.stmt(&k, depth, false, false));
    g.labels = 1;
    body.push(S::Label(1, Box::new(S::Acc(E::Num(7)))));
    body.push(g.stmt(&k, 2, false, false));
    g.labels = 0;
    body.push(S::Label(0, Box::new(S::Acc(E::Num(11)))));
    body.push(g.stmt(&k, 2, false, false));
    body
}
fn program(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut src = String::new();
    let mut globals = Known::default();
    let mut gl: Vec<S> = vec![];
    for n in IDS { if r.chance(1, 3) { globals.vals.push(n); if r.chance(1, 3) { gl.push(S::Enum(vec![(n, Some(40 + r.below(9) as i32))])); } else { globals.vars.push(n); gl.push(S::Decl(n, E::Num(20 + r.below(9) as u32))); } } }
    if r.chance(1, 2) { gl.push(S::Struct("S", 5)); globals.st.push("S"); }
    if r.chance(1, 2) { gl.push(S::Union("T", 3)); globals.un.push("T"); }
    if r.chance(1, 2) { gl.push(S::Typedef("t0", 1)); globals.ty.push("t0"); }
    // a function with a parameter that hides something, then main
    let mut kf = globals.clone();
    let p = *r.pick(IDS);
    kf.vals.push(p); if !kf.vars.contains(&p) { kf.vars.push(p); }
    let mut f = function(&mut r, &kf, &TYPES[..3]);
    f.retain(|s| !matches!(s, S::Decl(n, _) if *n == p)); // a parameter is in the body's scope
    let m = function(&mut r, &globals, &TYPES[3..]);
    src += &pb(&gl);
    let pre = format!("unsigned int acc = 0; unsigned int back = 0; {} ", COUNTERS.iter().map(|k| format!("unsigned int {k} = 0;")).collect::<String>());
    src += &format!(" unsigned int f(unsigned int {p}) {{ {pre}{} return acc % 100; }} unsigned int main() {{ {pre} acc = f(6); {} return acc % 200; }}", pb(&f), pb(&m));
    // what it does
    let mut run = Run { scopes: vec![Scope2::default()], cells: vec![], acc: 0, fuel: 4000, back: 0 };
    run.seq(&gl);
    run.scopes.push(Scope2::default());
    run.declare(p, 6);
    let fv = match run.seq(&f) { C::Next => run.acc % 100, C::Return(k) => k, _ => return };
    run.scopes.pop();
    run.scopes.push(Scope2::default());
    run.acc = fv; run.back = 0;
    let want = match run.seq(&m) { C::Next => run.acc % 200, C::Return(k) => k, _ => return };
    c.case(|| src.clone());
    match exit_of(&src, NOOPT) {
        Ok(k) if k == want as i32 => {}
        Ok(k) => c.fail("program", "names and jumps reach what C says", src, format!("exit status {want}"), format!("exit status {k}")),
        Err(e) => c.fail("program-fails", "the program compiles and runs", src, format!("exit status {want}"), e),
    }
}
/// what must not be accepted
fn rejected(c: &mut Ctx) {
    for (src, what) in [
        ("int main() { int a = 1; { int b = 2; a = b; } return b; }", "a block's variable is gone after it"),
        ("int main() { for (int i = 0; i < 3; i = i + 1) { ; } return i; }", "a for loop's variable is gone after it"),
        ("int f(int p) { return p; } int main() { return p; }", "a parameter is gone after its function"),
        ("int main() { { enum { K = 3 }; } return K; }", "a block's enumerator is gone after it"),
        ("int main() { { struct S { char c; }; } struct S s; s.c = 1; return s.c; }", "a block's struct tag is gone after it"),
        ("int main() { break; return 0; }", "break needs a loop or switch"),
        ("int main() { continue; return 0; }", "continue needs a loop"),
        ("int main() { switch (1) { case 1: continue; } return 0; }", "continue needs a loop, not a switch"),
        ("int main() { while (0) { ; } break; return 0; }", "the loop has ended"),
        ("int main() { case 1: return 0; }", "case needs a switch"),
        ("int main() { default: return 0; }", "default needs a switch"),
        ("int main() { switch (1) { default: break; default: break; } return 0; }", "one default in a switch"),
        ("int main() { goto nowhere; return 0; }", "a goto needs its label"),
        ("int f() { there: return 1; } int main() { goto there; return 0; }", "a goto reaches labels of its own function only"),
        ("int main() { return x; }", "an undeclared name"),
        ("int main() { if (1) { switch (1) { case 1: x = 1; break; } } return 0; }", "an undeclared name in a switch in a statement"),
        ("int main() { return f(); }", "an undeclared function"),
    ] {
        c.case(|| src.into());
        match guard(|| compile(src, NOOPT).map(|_| ())) { Ok(Err(_)) => {}, Ok(Ok(())) => c.fail(format!("accepted: {what}"), what, src, "an error", "compiled"), Err(e) => c.fail(format!("panic: {what}"), what, src, "an error", format!("panic: {e}")) }
    }
}
fn main() {
    run("C27", "random histories of scope, declaration, loop and switch operations against a model of innermost resolution, everything asked after every step; random programs of nested scopes with shadowed variables, enumerators, tags, typedefs and parameters, loops, switches with fall-through, break, continue, goto, against an interpreter; programs that must be rejected", |c| {
        rejected(c);
        for _ in 0..c.n(20_000, 400_000) { model(c); if c.too_many() { break; } }
        for _ in 0..c.n(1500, 30_000) { program(c); if c.too_many() { break; } }
    });
}
