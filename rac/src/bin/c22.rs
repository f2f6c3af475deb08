//! C22: the label clean-up on random instruction lists, alone and as part of the middle-end's optimiser.
use c2w_rac::blockgen::*;
use c2w_rac::flatgen::*;
use c2w_rac::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::*;
use cc::middle_end::ir_types::*;
use cc::middle_end::middle_end_optimiser::ir_optimiser::optimise_ir;
use cc::middle_end::middle_end_optimiser::remove_redundancy::remove_unused_labels;
use cc::program_config::enabled_optimisations::EnabledOptimisations;

fn kept(s: &[Instruction]) -> Vec<String> {
    s.iter().filter(|i| !matches!(i, Instruction::Nop(_)) && label(i).map(|l| s.iter().any(|j| target(j) == Some(l.clone()))).unwrap_or(true)).map(|i| format!("{i:?}")).collect()
}
fn check(c: &mut Ctx, what: &str, was: &[Instruction], now: &[Instruction]) -> bool {
    let want = kept(was);
    let got: Vec<String> = now.iter().map(|i| format!("{i:?}")).collect();
    if want == got { return true; }
    let k = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)).unwrap();
    c.fail(what, "every instruction stays, in order, but labels that no jump refers to and those that do nothing", text(was), format!("at {k}: {:?}", want.get(k)), format!("{:?}", got.get(k)));
    false
}
fn one(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 4, 1);
    let labels = i % 9;
    let s = g.flat(1 + i % 25, labels, i % 5 == 0);
    c.case(|| text(&s));
    let mut t = s.clone();
    match guard(|| remove_unused_labels(&mut t)) {
        Err(e) => { c.fail("panic", "the clean-up takes every instruction list", text(&s), "a list", e); return; }
        Ok(Err(e)) => { c.fail("error", "the clean-up takes every instruction list", text(&s), "a list", format!("{e}")); return; }
        Ok(Ok(())) => {}
    }
    if !check(c, "list", &s, &t) { return; }
    // the same within a program: functions and global code
    let mut p = Program::new();
    let n = 1 + g.r.below(3);
    let mut was = vec![];
    for k in 0..n {
        let ft = IrType::Function(Box::new(IrType::I32), vec![], false);
        let l = g.r.below(5);
        let body = g.flat(1 + i % 11, l, false);
        let f = match p.new_fun_declaration(format!("f{k}"), Function { instrs: body.clone(), type_info: ft, param_var_mappings: vec![], body_is_defined: true }) { Ok(f) => f, Err(_) => return };
        was.push((f, body));
    }
    let l = g.r.below(3);
    let global = g.flat(i % 4, l, false);
    p.program_instructions.global_instrs = global.clone();
    let o = EnabledOptimisations { unreachable_procedure: false, tail_call: false, stack_allocation: false };
    if let Err(e) = guard(|| optimise_ir(&mut p, &o).map_err(|e| format!("{e}"))).and_then(|x| x) { c.fail("optimiser", "the optimiser takes every program", text(&global), "a program", e); return; }
    for (f, body) in was { if !check(c, "function", &body, &p.program_instructions.functions[&f].instrs) { return; } }
    check(c, "global code", &global, &p.program_instructions.global_instrs);
}
fn main() {
    run("C22", "random instruction lists with labels, jumps and instructions that do nothing, alone and as functions and global code of a program; non-trivial = at least one label", |c| {
        for i in 0..c.n(6000, 80_000) { one(c, i); if c.too_many() { return; } }
    });
}
