//! C05: imports, types, bodies and calls of modules made from random sets of functions.
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::back_end::wasm_instructions::WasmInstruction as W;
use cc::back_end::wasm_module::exports_section::ExportDescriptor;
use cc::back_end::wasm_module::imports_section::ImportDescriptor;
use cc::back_end::wasm_module::module::WasmModule;
use cc::back_end::wasm_types::*;
use cc::program_config::enabled_optimisations::EnabledOptimisations;
use cc::program_config::enabled_profiling::EnabledProfiling;
use std::collections::BTreeSet;

const IMPORTS: [(&str, &str, &str); 5] = [
    ("printf", "int printf(const char *f, ...);", "printf(\"x\");"),
    ("strlen", "int strlen(const char *s);", "strlen(\"ab\");"),
    ("strstr", "char *strstr(const char *a, const char *b);", "strstr(\"ab\", \"b\");"),
    ("strtol", "long strtol(const char *s, char **e, int b);", "strtol(\"1\", 0, 10);"),
    ("strtoul", "unsigned long strtoul(const char *s, char **e, int b);", "strtoul(\"1\", 0, 10);"),
];
fn calls(is: &[W], out: &mut Vec<u32>) {
    for i in is {
        match i {
            W::Call { func_idx } => out.push(func_idx.x),
            W::Block { instrs, .. } | W::Loop { instrs, .. } => calls(instrs, out),
            W::IfElse { if_instrs, else_instrs, .. } => { calls(if_instrs, out); calls(else_instrs, out); }
            _ => {}
        }
    }
}
fn consts(is: &[W], out: &mut BTreeSet<i32>) {
    for i in is {
        match i {
            W::I32Const { n } => { out.insert(*n); }
            W::Block { instrs, .. } | W::Loop { instrs, .. } => consts(instrs, out),
            W::IfElse { if_instrs, else_instrs, .. } => { consts(if_instrs, out); consts(else_instrs, out); }
            _ => {}
        }
    }
}
fn build(src: &str, o: Opts, log: bool) -> Result<WasmModule, String> {
    guard(|| {
        let eo = EnabledOptimisations { tail_call: o.tail, unreachable_procedure: o.unreachable, stack_allocation: o.stack };
        let ep = EnabledProfiling { stack_ptr_logging: log };
        let ast = cc::front_end::parser::parse(src.to_string()).map_err(|e| format!("parse: {e}"))?;
        let mut ir = cc::middle_end::ast_to_ir::convert_to_ir(ast).map_err(|e| format!("ir: {e}"))?;
        cc::middle_end::middle_end_optimiser::ir_optimiser::optimise_ir(&mut ir, &eo).map_err(|e| format!("opt: {e}"))?;
        let r = cc::relooper::relooper::reloop(ir);
        cc::back_end::target_code_generation::generate_target_code(r, &eo, &ep).map_err(|e| format!("codegen: {e}"))
    })
    .unwrap_or_else(|p| Err(format!("panic: {p}")))
}
fn i32t(t: &ValType) -> bool { matches!(t, ValType::NumType(NumType::I32)) }
/// a function: the imports and functions it calls, in order
#[derive(Clone)]
struct F { name: String, mark: i32, does: Vec<String>, proto: bool }
fn one(c: &mut Ctx, i: u64) {
    let n = 1 + (i % 9) as usize;
    let o = Opts { tail: c.rng.chance(1, 2), unreachable: c.rng.chance(1, 2), stack: c.rng.chance(1, 2) };
    let log = c.rng.chance(1, 4);
    let used: Vec<usize> = (0..5).filter(|_| c.rng.chance(1, 2)).collect();
    let main = c.rng.below(n as u64) as usize;
    let globals = c.rng.chance(1, 3);
    let mut fs: Vec<F> = vec![];
    for k in 0..n {
        let name = if k == main { "main".to_string() } else { format!("f{k}") };
        let proto = k != main && c.rng.chance(1, 8);
        let mut does = vec![];
        if !proto { for _ in 0..c.rng.below(5) {
            if !used.is_empty() && c.rng.chance(1, 3) { does.push(IMPORTS[*c.rng.pick(&used)].0.to_string()); }
            else if k > 0 { let j = c.rng.below(k as u64) as usize; if j != main { does.push(format!("f{j}")); } }
        } }
        fs.push(F { name, mark: 7_000_000 + 131 * k as i32, does, proto });
    }
    let mut src = String::new();
    for u in &used { src += IMPORTS[*u].1; src.push('\n'); }
    if globals { src += "int g = 5;\n"; }
    let mut order: Vec<usize> = (0..n).collect();
    if c.rng.chance(1, 2) { for f in &fs { if f.name != "main" { src += &format!("int {}(int x);\n", f.name); } } c.rng.shuffle(&mut order); } else { for f in &fs { if f.proto { src += &format!("int {}(int x);\n", f.name); } } }
    for k in order {
        let f = &fs[k];
        if f.proto { continue; }
        let args = if f.name == "main" { "" } else { "int x" };
        src += &format!("int {}({args}) {{ int r = {};", f.name, f.mark);
        for d in &f.does { match IMPORTS.iter().find(|m| m.0 == d) { Some(m) => { src.push(' '); src += m.2; } None => src += &format!(" r = r + {d}(r);") } }
        src += " return r; }\n";
    }
    let shown = format!("{o:?} log {log}\n{src}");
    c.case(|| shown.clone());
    // which functions are in the module
    let mut live: BTreeSet<String> = BTreeSet::new();
    live.insert("main".into());
    for _ in 0..=n { for f in &fs { if live.contains(&f.name) { live.extend(f.does.iter().cloned()); } } }
    let mut imports: BTreeSet<String> = used.iter().map(|u| IMPORTS[*u].0.to_string()).filter(|x| !o.unreachable || live.contains(x)).collect();
    if log { imports.insert("log_stack_ptr".into()); }
    let defined: Vec<&F> = fs.iter().filter(|f| !o.unreachable || live.contains(&f.name)).collect();
    let m = match build(&src, o, log) { Ok(m) => m, Err(e) => { c.fail("refused", "the program compiles", shown, "a module", e); return; } };
    let types = &m.types_section.function_types;
    let plain = |t: u32| types.get(t as usize).map_or(false, |t| t.param_types.is_empty() && t.result_types.is_empty());
    let mut names = vec![];
    for im in &m.imports_section.imports {
        if let ImportDescriptor::Func { func_type_idx } = &im.import_descriptor {
            names.push(im.field_name.clone());
            if !plain(func_type_idx.x) { c.fail("import type", "an import has the type its callers use", shown, format!("{} takes and gives nothing", im.field_name), format!("type {}", func_type_idx.x)); return; }
        }
    }
    let set: BTreeSet<String> = names.iter().cloned().collect();
    if set != imports || set.len() != names.len() { c.fail("imports", "every function of the runtime that the program knows is imported once", shown, format!("{imports:?}"), format!("{names:?}")); return; }
    let bodies = &m.code_section.function_bodies;
    let sigs = &m.functions_section.function_type_idxs;
    if bodies.len() != defined.len() + 1 || sigs.len() != bodies.len() { c.fail("functions", "every defined function and the entry have one body and one type", shown, format!("{}", defined.len() + 1), format!("{} bodies, {} types", bodies.len(), sigs.len())); return; }
    let entry = match m.exports_section.exports.iter().find(|e| e.name == "main").map(|e| &e.export_descriptor) { Some(ExportDescriptor::Func { func_idx }) => func_idx.x as usize, _ => { c.fail("export", "main is exported", shown, "a function", "none"); return; } };
    if entry < names.len() || entry - names.len() >= bodies.len() { c.fail("export", "the exported function is defined", shown, "an index of a body", entry.to_string()); return; }
    let entry = entry - names.len();
    // what stands at each index
    let mut at: Vec<String> = names.clone();
    for (k, b) in bodies.iter().enumerate() {
        let mut cs = BTreeSet::new();
        consts(&b.function_body.instrs, &mut cs);
        let who: Vec<&&F> = defined.iter().filter(|f| cs.contains(&f.mark)).collect();
        let empty = b.function_body.instrs.is_empty();
        at.push(if k == entry { "entry".into() } else if empty { "empty".into() } else if who.len() == 1 { who[0].name.clone() } else { c.fail("bodies", "a body is that of one function", shown, "one mark", format!("{cs:?}")); return; });
        let t = sigs[k].x;
        let good = if k == entry { types.get(t as usize).map_or(false, |t| t.param_types.len() == 2 && t.param_types.iter().all(i32t) && t.result_types.len() == 1 && t.result_types.iter().all(i32t)) } else { plain(t) };
        if !good { c.fail("types", "the type at an index belongs to the function there", shown, at.last().unwrap().clone(), format!("type {t}")); return; }
    }
    for f in &defined { let k = if f.proto { "empty" } else { &f.name }; if !at.iter().any(|a| a == k) { c.fail("bodies", "every function has an index", shown, f.name.clone(), format!("{at:?}")); return; } }
    // calls reach what the source names
    for (k, b) in bodies.iter().enumerate() {
        let who = at[names.len() + k].clone();
        let mut got = vec![];
        calls(&b.function_body.instrs, &mut got);
        let got: Vec<String> = got.into_iter().map(|x| at.get(x as usize).cloned().unwrap_or(format!("index {x}"))).filter(|x| x != "log_stack_ptr").collect();
        let want: Vec<String> = if who == "entry" { vec!["main".into()] } else if who == "empty" { vec![] } else { fs.iter().find(|f| f.name == who).unwrap().does.iter().map(|d| if fs.iter().any(|f| f.name == *d && f.proto) { "empty".into() } else { d.clone() }).collect() };
        if got != want { c.fail("calls", "a call names the index of the function it calls", shown, format!("{who}: {want:?}"), format!("{got:?}; functions {at:?}")); return; }
    }
}
fn main() {
    run("C05", "random C programs of up to 9 functions and 5 imports, with and without bodies, profiling and optimisations; every index is resolved; non-trivial = at least one function", |c| {
        for i in 0..c.n(2500, 40_000) { one(c, i); if c.too_many() { return; } }
    });
}
