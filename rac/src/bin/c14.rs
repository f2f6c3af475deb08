//! C14: stack slots of random structured blocks: walks through the block never read a variable whose slot
//! was written on behalf of another one since, and every slot is inside the frame.
use c2w_rac::blockgen::*;
use c2w_rac::interp::*;
use c2w_rac::*;
use cc::back_end::stack_allocation::allocate_vars::*;
use cc::back_end::target_code_generation_context::ModuleContext;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::ProgramMetadata;
use cc::middle_end::ir_types::*;
use cc::program_config::enabled_optimisations::EnabledOptimisations;
use cc::program_config::enabled_profiling::EnabledProfiling;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn size(m: &ProgramMetadata, t: &IrType) -> u32 {
    match t { IrType::I8 | IrType::U8 => 1, IrType::I16 | IrType::U16 => 2, IrType::I64 | IrType::U64 | IrType::F64 => 8, IrType::Void => 0, IrType::Struct(s) => m.structs[s].member_types.values().map(|t| size(m, t)).sum(), _ => 4 }
}
fn type_of(m: &ProgramMetadata, v: &VarId) -> IrType { m.var_types[v].clone() }
fn one(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 4 + i % 14, 1 + (i % 13) as i64);
    let mut b = g.block(&[], 4, false);
    let ret = g.r.pick(&[IrType::Void, IrType::I8, IrType::I32, IrType::F64, IrType::I64]).clone();
    let ptypes: Vec<IrType> = g.params.iter().map(|v| type_of(&g.meta, v)).collect();
    let mut globals = HashMap::new();
    for (n, v) in g.globals.iter().enumerate() { globals.insert(v.clone(), 64 + 8 * n as u32); }
    let opt = g.r.chance(4, 5);
    let text = format!("block #{seed} ({}, parameters {:?}, globals {:?}): {b}", if opt { "optimised" } else { "plain" }, g.params.iter().map(vk).collect::<Vec<_>>(), g.globals.iter().map(vk).collect::<Vec<_>>());
    c.case(|| text.clone());
    let ep = EnabledProfiling { stack_ptr_logging: false };
    let mc = ModuleContext::new(&ep);
    let eo = EnabledOptimisations { tail_call: true, unreachable_procedure: true, stack_allocation: opt };
    let mut code = vec![];
    let (params, mut meta) = (g.params.clone(), std::mem::replace(&mut g.meta, ProgramMetadata::new()));
    let slots = match guard(|| allocate_local_vars(&mut b, &mut code, IrType::Function(Box::new(ret.clone()), ptypes.clone(), false), params.clone(), &globals, &mc, &mut meta, &eo)) { Ok(x) => x, Err(e) => { c.fail(format!("panic {}", e.split(':').next().unwrap_or("")), "slots are found for every structured block", text, "slots", e); return; } };
    // the frame: previous frame pointer, result, parameters in order, then the slots
    let mut at = 4 + size(&meta, &ret);
    for p in &g.params { if slots.get(p) != Some(&at) { c.fail("parameter", "each parameter is at the offset the calling convention gives it", text.clone(), format!("{} at {at}", vk(p)), format!("{:?}", slots.get(p))); return; } at += size(&meta, &type_of(&meta, p)); }
    let mut m = Machine::new(65536);
    m.wr(8, 4, 1000);
    let _ = m.run(&code);
    let end = at + (m.rd(8, 4) as u32).wrapping_sub(1000);
    let locals: BTreeMap<String, (u32, u32)> = slots.iter().filter(|(v, _)| !g.params.contains(v)).map(|(v, o)| (vk(v), (*o, *o + size(&meta, &type_of(&meta, v))))).collect();
    for (v, (s, e)) in &locals { if *s < at || *e > end { c.fail("frame", "every slot lies behind the parameters and inside the space the frame reserves", text.clone(), format!("{v} within {at}..{end}"), format!("{s}..{e}")); return; } }
    if let Some(v) = g.globals.iter().find(|v| slots.contains_key(*v)) { c.fail("global", "global variables have no slot", text.clone(), format!("no slot for {}", vk(v)), format!("{}", slots[v])); return; }
    let is = all(&b);
    let mut touched: BTreeSet<String> = is.iter().filter_map(def_of).collect();
    touched.retain(|v| meta.null_dest_var.as_ref().map(|n| vk(n) != *v).unwrap_or(true));
    let elsewhere: BTreeSet<String> = g.params.iter().chain(&g.globals).map(vk).collect();
    if let Some(v) = touched.iter().find(|v| !locals.contains_key(*v) && !elsewhere.contains(*v)) { c.fail("none", "every variable that is assigned has a slot", text.clone(), format!("a slot for {v}"), "none"); return; }
    let over = |a: &str, b: &str| -> bool { match (locals.get(a), locals.get(b)) { (Some(x), Some(y)) => x.0 < y.1 && y.0 < x.1, _ => false } };
    let taken: BTreeSet<String> = is.iter().filter_map(|i| match i { Instruction::AddressOf(_, _, s) => src_var(s), _ => None }).collect();
    for a in &taken { if let Some(o) = locals.keys().find(|o| *o != a && over(a, o)) { c.fail("address", "a variable whose address is taken shares no byte with another", text.clone(), format!("{a} {:?} and {o} {:?} apart", locals[a], locals[o]), "they overlap"); return; } }
    for salt in 0..6 {
        let mut w = Walk::new(&meta, taken.clone(), seed ^ salt, 40);
        w.run(&b);
        let mut holds: BTreeSet<String> = BTreeSet::new();
        let mut lost: BTreeMap<String, String> = BTreeMap::new();
        for s in &w.steps {
            for v in refs_of(s) { if let Some(o) = lost.get(&v) { c.fail("overlap", "variables that interfere have disjoint slots", text.clone(), format!("{v} still has its value at {}", head(s)), format!("{o} {:?} was written over {v} {:?}; block now {b}", locals[o], locals[&v])); return; } }
            if let Instruction::DeclareVariable(_, d) = s { holds.remove(&vk(d)); lost.remove(&vk(d)); continue; }
            if let Some(d) = def_of(s) {
                for o in holds.clone() { if o != d && over(&o, &d) { holds.remove(&o); lost.insert(o, d.clone()); } }
                lost.remove(&d);
                holds.insert(d);
            }
        }
    }
}
fn global(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 3 + i % 9, 1 + (i % 7) as i64);
    let b = g.block(&[], 3, false);
    let at = 12 + (seed % 500) as u32;
    let text = format!("globals of block #{seed} from {at}: {b}");
    c.case(|| text.clone());
    let places = match guard(|| allocate_global_vars(&b, at, &g.meta)) { Ok(x) => x, Err(e) => { c.fail(format!("panic {}", e.split(':').next().unwrap_or("")), "every global gets an address", text, "addresses", e); return; } };
    let total = get_global_vars_byte_size(&b, &g.meta) as u32;
    let ps: Vec<(String, u32, u32)> = places.iter().map(|(v, o)| (vk(v), *o, *o + size(&g.meta, &type_of(&g.meta, v)))).collect();
    for (v, s, e) in &ps {
        if *s < at || *e > at + total { c.fail("globals", "globals lie inside the bytes set aside for them", text, format!("{v} within {at}..{}", at + total), format!("{s}..{e}")); return; }
        if let Some((o, t, f)) = ps.iter().find(|(o, t, f)| o != v && t < e && s < f) { c.fail("globals", "globals have bytes of their own", text, "apart", format!("{v} {s}..{e}, {o} {t}..{f}")); return; }
    }
    for v in all(&b).iter().filter_map(def_of) { if !ps.iter().any(|p| p.0 == v) { c.fail("globals", "every global that is assigned has an address", text, v, "none"); return; } }
}
fn main() {
    run("C14", "random structured blocks with parameters, globals, arrays and variables whose address is taken, allocated with and without optimisation, then walked; non-trivial = some local variable", |c| {
        for i in 0..c.n(2500, 30_000) { one(c, i); if i % 10 == 0 { global(c, i / 10); } if c.too_many() { return; } }
    });
}
