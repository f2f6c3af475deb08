//! C24: identifiers handed out are pairwise different, in random histories of all requests.
use c2w_rac::*;
use cc::back_end::wasm_indices::*;
use cc::id::{Id, IdGenerator};
use cc::middle_end::ids::*;
use cc::middle_end::instructions::Instruction;
use cc::middle_end::ir::*;
use cc::middle_end::ir_types::*;
use cc::relooper::blocks::{LoopBlockId, MultipleBlockId};
use std::collections::{BTreeMap, HashSet};

fn gen<T: Id + Clone>(c: &mut Ctx, what: &str, n: u64) {
    c.case(|| format!("{n} identifiers of kind {what}"));
    let r = guard(|| {
        let mut g: IdGenerator<T> = IdGenerator::new();
        let mut v = vec![];
        for _ in 0..n { v.push(g.new_id().as_u64()); }
        v
    });
    match r {
        Ok(v) => {
            let s: HashSet<u64> = v.iter().cloned().collect();
            if s.len() != v.len() { c.fail(format!("generator {what}"), "no identifier repeats", format!("{n} requests"), "all different", format!("{:?}..", &v[..v.len().min(20)])); }
        }
        Err(e) => c.fail(format!("generator {what}"), "no panic", format!("{n} requests"), "identifiers", e),
    }
}
fn idx<T: WasmIdx + Clone>(c: &mut Ctx, what: &str, n: u64, x: fn(&T) -> u32) {
    c.case(|| format!("{n} indices of kind {what}"));
    let r = guard(|| {
        let mut g: WasmIdxGenerator<T> = WasmIdxGenerator::new();
        (0..n).map(|_| x(&g.new_idx()) as u64).collect::<Vec<_>>()
    });
    if r != Ok((0..n).collect()) { c.fail(format!("index generator {what}"), "indices are 0, 1, 2, ...", format!("{n} requests"), "0, 1, 2, ...", format!("{:?}", r.map(|v| v[..v.len().min(20)].to_vec()))); }
}

fn history(c: &mut Ctx, len: u64, program_level: bool) {
    let seed = c.rng.u64();
    let mut r = Rng::new(seed);
    let mut log: Vec<String> = vec![];
    let mut p = Program::new();
    let mut seen: BTreeMap<&'static str, Vec<u64>> = BTreeMap::new();
    let mut structs: Vec<(StructType, u64)> = vec![];
    let mut unions: Vec<(UnionType, u64)> = vec![];
    let mut null: Option<u64> = None;
    c.case(|| format!("history of {len} requests, seed {seed}"));
    let mut bad: Option<(String, String)> = None;
    let res = guard(|| {
        for step in 0..len {
            let mut fresh = |kind: &'static str, id: u64, log: &Vec<String>| -> Option<(String, String)> {
                let v = seen.entry(kind).or_default();
                if v.contains(&id) { return Some((format!("{kind} repeats"), format!("{kind} {id} handed out again after {} others; last requests {:?}", v.len(), &log[log.len().saturating_sub(12)..]))); }
                v.push(id);
                None
            };
            let b = match r.below(13) {
                0 => { log.push("label".into()); fresh("label", if program_level { p.new_label() } else { p.program_metadata.new_label() }.as_u64(), &log) }
                1 => { let n = format!("l{}", r.below(6)); log.push(format!("label {n}")); let l = if program_level { p.new_identifier_label(n.clone()) } else { p.program_metadata.new_identifier_label(n.clone()) };
                       let back = p.resolve_identifier_to_label(&n).map(|x| x.as_u64());
                       if back != Some(l.as_u64()) { Some(("label name".into(), format!("label {n} resolves to {back:?}, handed out {}", l.as_u64()))) } else { fresh("label", l.as_u64(), &log) } }
                2 | 3 => { let vt = match r.below(3) { 0 => ValueType::LValue, 1 => ValueType::RValue, _ => ValueType::None }; log.push(format!("var {vt:?}")); let v = if program_level { p.new_var(vt.clone()) } else { p.program_metadata.new_var(vt.clone()) };
                       if v.get_value_type() != vt { Some(("var kind".into(), format!("asked for {vt:?}, got {:?}", v.get_value_type()))) } else { fresh("variable", v.as_u64(), &log) } }
                4 => { log.push("instr".into()); fresh("instruction", if program_level { p.new_instr_id() } else { p.program_metadata.new_instr_id() }.as_u64(), &log) }
                5 => { let s = format!("s{}", r.below(4)); log.push(format!("string {s}")); let i = if program_level { p.new_string_literal(s.clone()) } else { p.program_metadata.new_string_literal(s.clone()) };
                       if p.program_metadata.string_literals.get(&i) != Some(&s) { Some(("string table".into(), format!("string {s:?} not stored under its identifier"))) } else { fresh("string", i.as_u64(), &log) } }
                6 => { let n = format!("f{}", r.below(30)); let known = p.program_metadata.function_ids.contains_key(&n); log.push(format!("function {n}"));
                       let f = Function::declaration(IrType::Function(Box::new(IrType::I32), vec![], false));
                       let res = if program_level { p.new_fun_declaration(n.clone(), f) } else { p.program_metadata.new_fun_declaration(n.clone()) };
                       match res { Ok(i) => if known { Some(("function declared twice".into(), n)) } else { fresh("function", i.as_u64(), &log) }, Err(_) => if known { None } else { Some(("function refused".into(), n)) } } }
                7 if program_level => { let n = format!("f{}", r.below(30)); let known = p.program_metadata.function_ids.get(&n).map(|x| x.as_u64()); log.push(format!("function body {n}"));
                       let f = Function::new(vec![Instruction::Nop(p.new_instr_id())], IrType::Function(Box::new(IrType::I32), vec![], false), vec![]);
                       let k = p.program_metadata.function_ids.len();
                       let _ = k;
                       let last = seen.entry("instruction").or_default().last().cloned();
                       let nid = last.map(|x| x + 1).unwrap_or(0);
                       seen.get_mut("instruction").unwrap().push(nid);
                       match (p.new_fun_body(n.clone(), f), known) {
                           (Ok(i), Some(k)) => if i.as_u64() != k { Some(("function body".into(), format!("{n} was {k}, body stored under {}", i.as_u64()))) } else { None },
                           (Ok(i), None) => { let v = seen.entry("function").or_default(); if v.contains(&i.as_u64()) { Some(("function repeats".into(), n)) } else { v.push(i.as_u64()); None } },
                           (Err(_), _) => None } }
                8 | 9 => { let mut s = if r.chance(1, 2) { StructType::named(format!("S{}", r.below(3))) } else { StructType::unnamed() };
                       for k in 0..r.below(3) { let t = match r.below(3) { 0 => IrType::I32, 1 => IrType::U8, _ => IrType::F64 }; let _ = s.push_member(format!("m{k}"), t, &p.program_metadata); }
                       log.push(format!("struct {s:?}"));
                       let i = if program_level { p.add_struct_type(s.clone()) } else { p.program_metadata.add_struct_type(s.clone()) };
                       match i { Err(_) => Some(("struct refused".into(), "error".into())), Ok(i) => {
                           let same = p.get_struct_type(&i).map(|t| t == s).unwrap_or(false);
                           if !same { Some(("struct table".into(), format!("identifier {} does not stand for the type it was given for; last requests {:?}", i.as_u64(), &log[log.len().saturating_sub(6)..]))) }
                           else if let Some((_, k)) = structs.iter().find(|(t, _)| *t == s) { if *k != i.as_u64() { Some(("struct known".into(), format!("{k} became {}", i.as_u64()))) } else { None } }
                           else { structs.push((s, i.as_u64())); fresh("struct", i.as_u64(), &log) } } } }
                10 | 11 => { let mut s = if r.chance(1, 2) { UnionType::named(format!("S{}", r.below(3))) } else { UnionType::unnamed() };
                       for k in 0..r.below(3) { let t = match r.below(3) { 0 => IrType::I32, 1 => IrType::U8, _ => IrType::F64 }; let _ = s.push_member(format!("m{k}"), t, &p.program_metadata); }
                       log.push(format!("union {s:?}"));
                       let i = if program_level { p.add_union_type(s.clone()) } else { p.program_metadata.add_union_type(s.clone()) };
                       match i { Err(_) => Some(("union refused".into(), "error".into())), Ok(i) => {
                           let same = p.get_union_type(&i).map(|t| t == s).unwrap_or(false);
                           if !same { Some(("union table".into(), format!("identifier {} does not stand for the type it was given for", i.as_u64()))) }
                           else if let Some((_, k)) = unions.iter().find(|(t, _)| *t == s) { if *k != i.as_u64() { Some(("union known".into(), format!("{k} became {}", i.as_u64()))) } else { None } }
                           else { unions.push((s, i.as_u64())); fresh("union", i.as_u64(), &log) } } } }
                _ => { log.push("null variable".into()); let v = p.program_metadata.init_null_dest_var();
                       match null { Some(k) => if k != v.as_u64() || !p.program_metadata.is_var_the_null_dest(&v) { Some(("null variable".into(), format!("{k} became {}", v.as_u64()))) } else { None },
                           None => { null = Some(v.as_u64()); fresh("variable", v.as_u64(), &log) } } }
            };
            if b.is_some() { bad = b; return step; }
        }
        len
    });
    if let Err(e) = res { bad = Some(("panic".into(), format!("{e}; last requests {:?}", &log[log.len().saturating_sub(6)..]))); }
    if let Some((k, d)) = bad { c.fail(k, "every identifier handed out differs from all earlier ones of its kind", format!("history of {len} requests generated from seed {seed}: {:?}..", &log[..log.len().min(10)]), "a new identifier (or the one already standing for the same type)", d); }
}

fn main() {
    run("C24", "histories of random requests for all identifier kinds through Program and ProgramMetadata, and long runs of every generator; non-trivial = at least two requests of a kind", |c| {
        for n in [1, 2, 3, 10, 300, 70_000] {
            gen::<InstructionId>(c, "instruction", n); gen::<FunId>(c, "function", n); gen::<LabelId>(c, "label", n); gen::<StringLiteralId>(c, "string", n);
            gen::<StructId>(c, "struct", n); gen::<UnionId>(c, "union", n); gen::<VarId>(c, "variable", n); gen::<LoopBlockId>(c, "loop block", n); gen::<MultipleBlockId>(c, "multiple block", n);
            idx::<TypeIdx>(c, "type", n, |i| i.x); idx::<TableIdx>(c, "table", n, |i| i.x); idx::<MemIdx>(c, "memory", n, |i| i.x); idx::<ElemIdx>(c, "element", n, |i| i.x);
            idx::<DataIdx>(c, "data", n, |i| i.x); idx::<FuncIdx>(c, "function", n, |i| i.x); idx::<LocalIdx>(c, "local", n, |i| i.x); idx::<GlobalIdx>(c, "global", n, |i| i.x);
        }
        for i in 0..c.n(400, 6000) { let len = if i % 20 == 0 { 400 } else { 40 }; history(c, len, i % 2 == 0); }
    });
}
