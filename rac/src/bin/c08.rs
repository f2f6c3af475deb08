//! C08: every ordered pair of arithmetic operand types: the real conversions are run on variables and constants,
//! lowered, executed, and compared with C's usual arithmetic conversions; and C programs with mixed operands.
use c2w_rac::irgen::*;
use c2w_rac::pipeline;
use c2w_rac::*;
use cc::back_end::target_code_generation::*;
use cc::back_end::target_code_generation_context::ModuleContext;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::Program;
use cc::middle_end::ir_types::*;
use cc::middle_end::type_conversions::*;
use cc::program_config::enabled_profiling::EnabledProfiling;

fn promote(t: &IrType) -> IrType { match t { IrType::I8 | IrType::U8 | IrType::I16 | IrType::U16 => IrType::I32, _ => t.clone() } }
/// C's usual arithmetic conversions, by rank and signedness
fn usual(a: &IrType, b: &IrType) -> IrType {
    let (a, b) = (promote(a), promote(b));
    if a == IrType::F64 || b == IrType::F64 { return IrType::F64; }
    if a == IrType::F32 || b == IrType::F32 { return IrType::F32; }
    if a == b { return a; }
    if signed(&a) == signed(&b) { return if width(&a) > width(&b) { a } else { b }; }
    let (s, u) = if signed(&a) { (a, b) } else { (b, a) };
    if width(&s) > width(&u) { s } else { u }
}
/// bits of the value converted to the type
fn to(s: &IrType, d: &IrType, b: u64) -> u64 {
    match (floating(s), floating(d)) {
        (false, false) => mask(d, integer(s, b)),
        (false, true) => { let i = integer(s, b); if *d == IrType::F32 { (i as f32).to_bits() as u64 } else { (i as f64).to_bits() } }
        _ => if s == d { b } else { (f32::from_bits(b as u32) as f64).to_bits() },
    }
}
fn one(c: &mut Ctx, lt: &IrType, rt: &IrType) {
    let mut r = Rng::new(c.rng.u64());
    let mut w = World::new();
    let operand = |r: &mut Rng, w: &mut World, t: &IrType| {
        let b = bits(r, t);
        if r.chance(1, 4) && *t == IrType::F64 { return (Src::Constant(Constant::Float(f64::from_bits(b))), t.clone(), b, None); }
        if r.chance(1, 4) && !floating(t) { let k = Constant::Int(integer(t, b)); let ty = k.get_type(None); return (Src::Constant(k), ty.clone(), mask(&ty, integer(t, b)), None); }
        let v = w.var(r, t);
        (Src::Var(v.clone()), t.clone(), b, Some(v))
    };
    let (ls, lt, a, lv) = operand(&mut r, &mut w, lt);
    let (rs, rt, b, rv) = if lv.is_some() && lt == *rt && r.chance(1, 8) { (ls.clone(), lt.clone(), a, lv.clone()) } else { operand(&mut r, &mut w, rt) };
    let unary = r.chance(1, 6);
    let desc = format!("{ls} : {lt} {a:#x} with {rs} : {rt} {b:#x}{}", if unary { ", left promoted" } else { "" });
    c.case(|| desc.clone());
    let (want_l, want_r) = if unary { (promote(&lt), promote(&rt)) } else { (usual(&lt, &rt), usual(&lt, &rt)) };
    let mut prog = Program::new();
    std::mem::swap(&mut prog.program_metadata, &mut w.meta);
    let old = prog.program_metadata.var_types.clone();
    let both = r.chance(1, 2);
    let made = guard(|| if unary { unary_convert(ls.clone(), &mut prog).map(|(i, s)| (i, vec![], s, Src::Constant(Constant::Int(0)))) }
        else if both { binary_convert(ls.clone(), rs.clone(), &mut prog).map(|(i, l, r)| (i, vec![], l, r)) }
        else { binary_convert_separately(ls.clone(), rs.clone(), &mut prog) });
    std::mem::swap(&mut prog.program_metadata, &mut w.meta);
    let (li, ri, lr, rr) = match made {
        Ok(Ok(x)) => x,
        other => { c.fail(format!("convert-{lt}-{rt}"), "arithmetic operands are converted", desc, "steps", format!("{:?}", other.map(|x| x.map(|_| ()).map_err(|e| format!("{e:?}"))))); return }
    };
    if li.iter().chain(&ri).count() > 0 && lt == want_l && (unary || rt == want_r) { c.fail(format!("left-alone-{lt}-{rt}"), "operands already of the type are left alone", desc.clone(), "no steps", li.iter().chain(&ri).map(|i| i.to_string()).collect::<Vec<_>>().join("; ")); }
    if !unary && !both && ((lt == want_l && !li.is_empty()) || (rt == want_r && !ri.is_empty())) { c.fail(format!("left-alone-{lt}-{rt}"), "an operand already of the type is left alone", desc.clone(), "no steps", li.iter().chain(&ri).map(|i| i.to_string()).collect::<Vec<_>>().join("; ")); }
    let mut new: Vec<_> = w.meta.var_types.iter().filter(|(v, _)| !old.contains_key(v)).map(|(v, t)| (v.clone(), t.clone())).collect();
    new.sort_by_key(|x| x.0.to_string());
    for (v, t) in new { let at = w.next_fp; w.next_fp += width(&t) as u32; w.vars.push((v, t, at, false)); }
    let mut fc = w.context();
    let ep = EnabledProfiling { stack_ptr_logging: false };
    let mc = ModuleContext::new(&ep);
    let mut m = w.machine(&mut r);
    if let Some(v) = &lv { w.set(&mut m, v, a); }
    if let Some(v) = &rv { w.set(&mut m, v, b); }
    let all: Vec<Instruction> = li.iter().chain(&ri).cloned().collect();
    let ran = guard(|| { let mut o = vec![]; for i in all.clone() { convert_ir_instr_to_wasm(i, &mut o, &mut fc, &mc, &w.meta); } o }).and_then(|o| m.run(&o).map_err(|e| format!("{e:?}")).map(|_| m.stack.len()));
    let shown = all.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("; ");
    if ran != Ok(0) { c.fail(format!("run-{lt}-{rt}"), "the steps run", desc, "end", format!("{ran:?} for {shown}")); return; }
    for (side, s, st, b, want) in [("left", &lr, &lt, a, &want_l), ("right", &rr, &rt, b, &want_r)] {
        if unary && side == "right" { continue; }
        let (have, ty) = match s {
            Src::Var(v) => (w.get(&m, v), w.meta.var_types.get(v).cloned()),
            Src::Constant(Constant::Int(i)) => (mask(want, *i), Some(Constant::Int(*i).get_type(None))),
            Src::Constant(Constant::Float(f)) => (f.to_bits(), Some(IrType::F64)),
            _ => (0, None),
        };
        if ty.as_ref() != Some(want) { c.fail(format!("type-{lt}-{rt}"), "the common type", desc.clone(), format!("{side}: {want}"), format!("{ty:?} by {shown}")); continue; }
        let e = to(st, want, b);
        let nan = |b: u64| match want { IrType::F32 => f32::from_bits(b as u32).is_nan(), IrType::F64 => f64::from_bits(b).is_nan(), _ => false };
        if have != e && !(nan(have) && nan(e)) { c.fail(format!("value-{lt}-{rt}"), "the converted operand has C's value", desc.clone(), format!("{side}: {e:#x}"), format!("{have:#x} by {shown}")); }
    }
}
const CTY: &[(&str, IrType)] = &[("signed char", IrType::I8), ("unsigned char", IrType::U8), ("short", IrType::I16), ("unsigned short", IrType::U16), ("int", IrType::I32), ("unsigned int", IrType::U32), ("long", IrType::I64), ("unsigned long", IrType::U64)];
/// a C expression on two integer variables; one byte of the result
fn program(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let ((s, st), (d, dt)) = (r.pick(CTY).clone(), r.pick(CTY).clone());
    let t = usual(&st, &dt);
    let (a, b) = (bits(&mut r, &st), bits(&mut r, &dt));
    let (x, y) = (integer(&t, to(&st, &t, a)), integer(&t, to(&dt, &t, b)));
    let op = *r.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "<=", ">=", "==", "!="]);
    let v = match op {
        "+" => x + y, "-" => x - y, "*" => x.wrapping_mul(y), "&" => x & y, "|" => x | y, "^" => x ^ y,
        "/" | "%" => { if y == 0 || (y == -1 && signed(&t)) { return; } if op == "/" { x / y } else { x % y } }
        "<" => (x < y) as i128, ">" => (x > y) as i128, "<=" => (x <= y) as i128, ">=" => (x >= y) as i128, "==" => (x == y) as i128, _ => (x != y) as i128,
    };
    let rel = ["<", ">", "<=", ">=", "==", "!="].contains(&op);
    let rt = if rel { IrType::I32 } else { t.clone() };
    let rn = CTY.iter().find(|z| z.1 == rt).unwrap().0;
    let e = mask(&rt, v);
    let k = r.below(width(&rt) as u64) as usize;
    let mut set = String::new();
    for k in 0..width(&st) { set += &format!("q[{k}] = {}; ", a >> (8 * k) & 255); }
    for k in 0..width(&dt) { set += &format!("p[{k}] = {}; ", b >> (8 * k) & 255); }
    let expr = match r.below(3) {
        1 if !rel && dt == t && ["+", "-", "*", "&", "|", "^"].contains(&op) => format!("{rn} z; z = b; z = a {op} z;"),
        _ => format!("{rn} z = a {op} b;"),
    };
    let src = format!("int main() {{\n {s} a; {d} b; unsigned char *q = (unsigned char *) &a; unsigned char *p = (unsigned char *) &b; {set}\n {expr}\n unsigned char *o = (unsigned char *) &z;\n return o[{k}];\n}}\n");
    let want = (e >> (8 * k) & 255) as i32;
    for o in [pipeline::OPT, pipeline::NOOPT] {
        match pipeline::exit_of(&src, o) {
            Ok(g) => { c.case(|| src.clone()); if g != want { c.fail(format!("program-{s}{op}{d}"), "C's usual arithmetic conversions", src.clone(), format!("byte {k} = {want} ({s} {x} {op} {d} {y} at {t})"), g.to_string()); } }
            Err(_) => return,
        }
    }
}
fn main() {
    run("C08", "every ordered pair of arithmetic operand types, variables and constants, by the unary, joint and separate conversions, boundary and random values, lowered and executed; C programs with every binary operator on mixed integer operands", |c| {
        let ts = arith();
        for _ in 0..c.n(150, 2500) {
            for s in &ts { for d in &ts { one(c, s, d); } }
            for _ in 0..20 { program(c); }
            if c.too_many() { break; }
        }
    });
}
