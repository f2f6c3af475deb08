//! C09: every pair of arithmetic types, boundary and random values: when the real conversion is accepted,
//! the steps are lowered by the real back end, executed, and compared with C's converted value.
use c2w_rac::interp::*;
use c2w_rac::irgen::*;
use c2w_rac::pipeline;
use c2w_rac::*;
use cc::back_end::target_code_generation::*;
use cc::back_end::target_code_generation_context::ModuleContext;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::Program;
use cc::middle_end::ir_types::*;
use cc::middle_end::type_conversions::*;
use cc::program_config::enabled_profiling::EnabledProfiling;

/// bits of C's converted value, None where C leaves it undefined
fn meaning(s: &IrType, d: &IrType, b: u64) -> Option<u64> {
    Some(match (floating(s), floating(d)) {
        (false, false) => mask(d, integer(s, b)),
        (false, true) => { let i = integer(s, b); if *d == IrType::F32 { (i as f32).to_bits() as u64 } else { (i as f64).to_bits() } }
        (true, true) => {
            if s == d { return Some(b); }
            if *d == IrType::F64 { (f32::from_bits(b as u32) as f64).to_bits() } else { (f64::from_bits(b) as f32).to_bits() as u64 }
        }
        (true, false) => {
            let x = if *s == IrType::F32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
            if !x.is_finite() { return None; }
            let t = x.trunc() as i128;
            if integer(d, mask(d, t)) != t { return None; }
            mask(d, t)
        }
    })
}
fn one(c: &mut Ctx, st: &IrType, dt: &IrType) {
    let mut r = Rng::new(c.rng.u64());
    let mut w = World::new();
    let ts = arith();
    for _ in 0..r.below(3) { let t = r.pick(&ts).clone(); w.var(&mut r, &t); }
    let b = bits(&mut r, st);
    let konst = r.chance(1, 4);
    let own = Constant::Int(if floating(st) { 0 } else { integer(st, b) }).get_type(None);
    let (src, st, sv) = if konst && !floating(st) { (Src::Constant(Constant::Int(integer(st, b))), own, None) }
        else if konst && *st == IrType::F64 { (Src::Constant(Constant::Float(f64::from_bits(b))), IrType::F64, None) }
        else { let v = w.var(&mut r, st); (Src::Var(v.clone()), st.clone(), Some(v)) };
    let want = match meaning(&st, dt, b) { Some(x) => x, None => return };
    let desc = format!("{src} : {st} bits {b:#x} converted to {dt}");
    c.case(|| desc.clone());
    let mut prog = Program::new();
    std::mem::swap(&mut prog.program_metadata, &mut w.meta);
    let old = prog.program_metadata.var_types.clone();
    let made = guard(|| get_type_conversion_instrs(src.clone(), st.clone(), dt.clone(), &mut prog));
    let (instrs, res) = match made {
        Ok(Ok(x)) => x,
        Ok(Err(_)) => return,
        Err(p) => { c.fail(format!("convert-{st}-{dt}"), "conversion returns", desc, "steps or an error", p); return }
    };
    std::mem::swap(&mut prog.program_metadata, &mut w.meta);
    for (v, t) in &old { if w.meta.var_types.get(v) != Some(t) { c.fail(format!("frame-{st}-{dt}"), "existing variables keep their types", desc.clone(), format!("{v}: {t}"), "another"); } }
    // place the new variables
    let new: Vec<_> = { let mut n: Vec<_> = w.meta.var_types.iter().filter(|(v, _)| !old.contains_key(v)).map(|(v, t)| (v.clone(), t.clone())).collect(); n.sort_by_key(|x| x.0.to_string()); n };
    for (v, t) in new { let at = w.next_fp; w.next_fp += width(&t) as u32 + r.below(3) as u32; w.vars.push((v, t, at, false)); }
    let mut fc = w.context();
    let ep = EnabledProfiling { stack_ptr_logging: false };
    let mc = ModuleContext::new(&ep);
    let mut m = w.machine(&mut r);
    if let Some(v) = &sv { w.set(&mut m, v, b); }
    let before = m.mem.clone();
    let ran = guard(|| { let mut o = vec![]; for i in instrs.clone() { convert_ir_instr_to_wasm(i, &mut o, &mut fc, &mc, &w.meta); } o }).and_then(|o| m.run(&o).map_err(|e| format!("{e:?}")).map(|_| m.stack.len()));
    let shown = instrs.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("; ");
    if ran != Ok(0) { c.fail(format!("run-{st}-{dt}"), "the steps run", desc, "end", format!("{ran:?} for {shown}")); return; }
    let (have, ty) = match &res {
        Src::Var(v) => (w.get(&m, v), w.meta.var_types.get(v).cloned()),
        Src::Constant(Constant::Int(i)) => (mask(dt, *i), Some(dt.clone())),
        Src::Constant(Constant::Float(f)) => (if *dt == IrType::F32 { (*f as f32).to_bits() as u64 } else { f.to_bits() }, Some(dt.clone())),
        _ => (0, None),
    };
    let nan = |b: u64| match dt { IrType::F32 => f32::from_bits(b as u32).is_nan(), IrType::F64 => f64::from_bits(b).is_nan(), _ => false };
    if ty.as_ref() != Some(dt) { c.fail(format!("type-{st}-{dt}"), "the result is declared with the requested type", desc.clone(), format!("{dt}"), format!("{ty:?}")); }
    if have != want && !(nan(have) && nan(want)) { c.fail(format!("value-{st}-{dt}"), "C's converted value", desc.clone(), format!("{want:#x}"), format!("{have:#x} by {shown}")); }
    let other: Vec<usize> = diff(&before, &m.mem).into_iter().filter(|a| w.vars.iter().any(|(v, t, _, _)| old.contains_key(v) && w.addr(v) as usize <= *a && *a < w.addr(v) as usize + width(t))).collect();
    if !other.is_empty() { c.fail(format!("clobber-{st}-{dt}"), "existing variables keep their values", desc, "unchanged", format!("bytes {other:?} by {shown}")); }
}
const CTY: &[(&str, usize, bool)] = &[("signed char", 1, true), ("unsigned char", 1, false), ("char", 1, true), ("short", 2, true), ("unsigned short", 2, false), ("int", 4, true), ("unsigned int", 4, false), ("long", 8, true), ("unsigned long", 8, false), ("double", 8, true), ("float", 4, true)];
/// a C program that converts a variable by initialisation or cast, and yields one byte of the result
fn program(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, sn, ss) = *r.pick(&CTY[..9]);
    let (d, dn, _) = *r.pick(CTY);
    let it = match (sn, ss) { (1, true) => IrType::I8, (1, false) => IrType::U8, (2, true) => IrType::I16, (2, false) => IrType::U16, (4, true) => IrType::I32, (4, false) => IrType::U32, (_, true) => IrType::I64, _ => IrType::U64 };
    let v = integer(&it, bits(&mut r, &it));
    let want: u64 = if d == "double" { (v as f64).to_bits() } else if d == "float" { (v as f32).to_bits() as u64 } else { v as u64 };
    // built from bytes, so that no other conversion is involved
    let raw = v as u64;
    let mut set = String::new();
    for k in 0..sn { set += &format!("q[{k}] = {}; ", raw >> (8 * k) & 255); }
    let k = r.below(dn as u64) as usize;
    let conv = if r.chance(1, 2) { format!("{d} b = a;") } else { format!("{d} b; b = ({d}) a;") };
    let src = format!("int main() {{\n {s} a; unsigned char *q = (unsigned char *) &a; {set}\n {conv}\n unsigned char *p = (unsigned char *) &b;\n return p[{k}];\n}}\n");
    let e = (want >> (8 * k) & 255) as i32;
    for o in [pipeline::OPT, pipeline::NOOPT] {
        match pipeline::exit_of(&src, o) {
            Ok(x) => { c.case(|| src.clone()); if x != e { c.fail(format!("program-{s}-{d}"), "C's converted value", src.clone(), format!("byte {k} = {e}"), x.to_string()); } }
            Err(_) => return,
        }
    }
}
fn main() {
    run("C09", "every ordered pair of arithmetic types, source a variable (frame or global) or a constant, boundary and random values: accepted conversions are lowered, executed and compared with C's converted value; C programs converting by initialisation and cast", |c| {
        let ts = arith();
        for _ in 0..c.n(150, 2500) {
            for s in &ts { for d in &ts { one(c, s, d); } }
            for _ in 0..6 { program(c); }
            if c.too_many() { break; }
        }
    });
}
