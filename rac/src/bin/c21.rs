//! C21: unreachable procedures of random programs, and of real ones.
use c2w_rac::blockgen::*;
use c2w_rac::flatgen::*;
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::*;
use cc::middle_end::ir_types::*;
use cc::middle_end::middle_end_optimiser::unreachable_procedure_elimination::remove_unused_functions;
use std::collections::BTreeSet;

fn callees(s: &[Instruction]) -> Vec<FunId> { s.iter().filter_map(|i| match i { Instruction::Call(_, _, f, _) | Instruction::TailCall(_, f, _) => Some(f.clone()), _ => None }).collect() }
fn one(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 4, 1);
    // now and then many functions, all called by one
    let wide = i % 25 == 24;
    let n = if wide { 15 + g.r.below(40) } else { 1 + i % 14 };
    g.funs = n;
    let mut p = Program::new();
    let mut was: Vec<(FunId, String, Vec<Instruction>)> = vec![];
    let main = g.r.below(n);
    let no_main = g.r.chance(1, 20);
    for k in 0..n {
        let (m, l) = (g.r.below(9), g.r.below(3));
        let mut body = g.flat(m, l, false);
        // few calls, some of them tail calls, so that graphs are sparse
        let sparse = g.r.chance(2, 3);
        let mut seen = 0;
        let drop = g.r.below(4);
        body.retain(|x| { if matches!(x, Instruction::Call(..) | Instruction::TailCall(..)) { seen += 1; !sparse || (seen % 4) == drop } else { true } });
        for x in body.iter_mut() { if let Instruction::Call(i, _, f, a) = x { if g.r.chance(1, 3) { *x = Instruction::TailCall(i.clone(), f.clone(), a.clone()); } } }
        if g.r.chance(1, 2) { let f = nth((k + 1) % n); let i = g.meta.new_instr_id(); let at = g.r.below(body.len() as u64 + 1) as usize; let v = g.vars[0].clone(); body.insert(at, if g.r.chance(1, 2) { Instruction::TailCall(i, f, vec![]) } else { Instruction::Call(i, v, f, vec![]) }); }
        if wide && k == main { for j in 0..n { if g.r.chance(5, 6) { let (i, v) = (g.meta.new_instr_id(), g.vars[0].clone()); let at = g.r.below(body.len() as u64 + 1) as usize; body.insert(at, Instruction::Call(i, v, nth(j), vec![])); } } }
        let defined = wide || g.r.chance(5, 6);
        if !defined { body.clear(); }
        let name = if k == main && !no_main { "main".to_string() } else { format!("f{k}") };
        let ft = IrType::Function(Box::new(IrType::I32), vec![], false);
        match p.new_fun_declaration(name.clone(), Function { instrs: body.clone(), type_info: ft, param_var_mappings: vec![], body_is_defined: defined }) {
            Ok(f) => { if defined { p.program_metadata.function_param_var_mappings.insert(f.clone(), vec![g.vars[0].clone()]); } was.push((f, name, body)); }
            Err(_) => return,
        }
    }
    if g.r.chance(1, 4) { let l = g.r.below(2); p.program_instructions.global_instrs = g.flat(4, l, false); }
    let globals = p.program_instructions.global_instrs.clone();
    let shown = format!("main f{main}; globals: {}; {}", text(&globals), was.iter().map(|(f, n, b)| format!("{n} {f}: {}", text(b))).collect::<Vec<_>>().join(" || "));
    c.case(|| shown.clone());
    // least fixed point, in rounds
    let mut live: BTreeSet<String> = callees(&globals).iter().map(|f| format!("{f}")).collect();
    if !no_main { live.insert(format!("{}", was[main as usize].0)); }
    for _ in 0..=n { for (f, _, b) in &was { if live.contains(&format!("{f}")) { live.extend(callees(b).iter().map(|f| format!("{f}"))); } } }
    let (types, maps) = (p.program_metadata.function_types.len(), p.program_metadata.function_param_var_mappings.len());
    let _ = (types, maps);
    match guard(|| remove_unused_functions(&mut p)) {
        Err(e) => { c.fail("panic", "every call graph is taken", shown, "a program", e); return; }
        Ok(Err(e)) => { if !no_main { c.fail("error", "a program with main is taken", shown, "a program", format!("{e}")); } return; }
        Ok(Ok(())) => { if no_main { c.fail("no main", "a program without main is refused", shown, "an error", "none"); return; } }
    }
    for (f, name, b) in &was {
        let want = live.contains(&format!("{f}"));
        let now = p.program_instructions.functions.get(f);
        if now.is_some() != want { c.fail(if want { "lost" } else { "kept" }, "a function stays exactly if a chain of calls from main reaches it", shown, format!("{name} {}", if want { "stays" } else { "goes" }), format!("{}", now.is_some())); return; }
        if let Some(x) = now { if text(&x.instrs) != text(b) { c.fail("changed", "functions that stay are not modified", shown, text(b), text(&x.instrs)); return; } }
        let id = p.program_metadata.function_ids.get(name) == Some(f);
        let ty = p.program_metadata.function_types.contains_key(f);
        if id != want || ty != want { c.fail("tables", "name and type of a function stay exactly if it does", shown, format!("{name} {want}"), format!("name {id} type {ty}")); return; }
        if p.program_metadata.function_param_var_mappings.contains_key(f) && !want { c.fail("tables", "the parameters of a function that goes are forgotten", shown, format!("{name} gone"), "parameters still there"); return; }
    }
    if text(&globals) != text(&p.program_instructions.global_instrs) { c.fail("globals", "global code stays", shown, text(&globals), text(&p.program_instructions.global_instrs)); }
}
/// programs where functions are reached in different ways
fn programs(c: &mut Ctx) {
    let a = c.rng.below(40) as i32;
    let k = c.rng.below(20) as i32;
    let progs: Vec<(String, i32)> = vec![
        (format!("int un(int x) {{ return x * 3; }} int od(int n); int ev(int n) {{ if (n == 0) {{ return 1; }} return od(n - 1); }} int od(int n) {{ if (n == 0) {{ return 0; }} int r = ev(n - 1); return r + 0; }} int main() {{ return ev({k}) + {a}; }}"), a + (k % 2 == 0) as i32),
        (format!("int t(int x) {{ return x + {a}; }} int s(int x) {{ return t(x); }} int r(int x) {{ int y = s(x); return y; }} int dead(int x) {{ return main2(x); }} int main2(int x) {{ return r(x); }} int main() {{ return r({k}); }}").replace("int dead(int x) { return main2(x); } ", ""), a + k),
        (format!("int a1(int n) {{ if (n <= 0) {{ return {a}; }} return a1(n - 1) + 1; }} int b1() {{ return b1(); }} int main() {{ int i; int z = 0; for (i = 0; i < 3; i++) {{ z = a1({k}); }} return z; }}"), a + k),
    ];
    for (src, want) in progs {
        c.case(|| src.clone());
        for o in [OPT, NOOPT, Opts { tail: false, unreachable: true, stack: false }] {
            let got = exit_of(&src, o);
            if got != Ok(want) { c.fail("behaviour", "a program without its unreached functions does what it did", format!("{src} {o:?}"), want.to_string(), format!("{got:?}")); return; }
        }
    }
}
fn main() {
    run("C21", "random programs of up to 14 (now and then 55) functions with calls and tail calls, entered from main and global code, and real programs; non-trivial = at least one function", |c| {
        for i in 0..c.n(4000, 50_000) { one(c, i); if c.too_many() { return; } }
        for _ in 0..c.n(40, 400) { programs(c); if c.too_many() { return; } }
    });
}
