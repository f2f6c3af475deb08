//! C12: every operator at every operand type: the lowered code is executed and compared with the
//! operator's mathematical meaning at that type.
use c2w_rac::interp::*;
use c2w_rac::irgen::*;
use c2w_rac::*;
use cc::back_end::target_code_generation::*;
use cc::back_end::target_code_generation_context::ModuleContext;
use cc::id::Id;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir_types::*;
use cc::program_config::enabled_profiling::EnabledProfiling;

const ARITH: &[&str] = &["mult", "div", "mod", "add", "sub", "shl", "shr", "and", "or", "xor"];
const CMP: &[&str] = &["lt", "gt", "le", "ge", "eq", "ne", "ifeq", "ifne"];
const LOGIC: &[&str] = &["not", "land", "lor", "bnot"];
fn iid() -> InstructionId { InstructionId::initial_id() }
fn make(op: &str, d: VarId, l: Src, r: Src) -> Instruction {
    use Instruction::*;
    match op {
        "mult" => Mult(iid(), d, l, r), "div" => Div(iid(), d, l, r), "mod" => Mod(iid(), d, l, r), "add" => Add(iid(), d, l, r), "sub" => Sub(iid(), d, l, r),
        "shl" => LeftShift(iid(), d, l, r), "shr" => RightShift(iid(), d, l, r), "and" => BitwiseAnd(iid(), d, l, r), "or" => BitwiseOr(iid(), d, l, r), "xor" => BitwiseXor(iid(), d, l, r),
        "lt" => LessThan(iid(), d, l, r), "gt" => GreaterThan(iid(), d, l, r), "le" => LessThanEq(iid(), d, l, r), "ge" => GreaterThanEq(iid(), d, l, r), "eq" => Equal(iid(), d, l, r), "ne" => NotEqual(iid(), d, l, r),
        "not" => LogicalNot(iid(), d, l), "bnot" => BitwiseNot(iid(), d, l), "land" => LogicalAnd(iid(), d, l, r), "lor" => LogicalOr(iid(), d, l, r),
        "ifeq" => IfEqElse(iid(), l, r, vec![SimpleAssignment(iid(), d.clone(), Src::Constant(Constant::Int(1)))], vec![SimpleAssignment(iid(), d, Src::Constant(Constant::Int(0)))]),
        _ => IfNotEqElse(iid(), l, r, vec![SimpleAssignment(iid(), d.clone(), Src::Constant(Constant::Int(1)))], vec![SimpleAssignment(iid(), d, Src::Constant(Constant::Int(0)))]),
    }
}
fn fv(t: &IrType, b: u64) -> f64 { if *t == IrType::F32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) } }
fn fbits(t: &IrType, f: f64) -> u64 { if *t == IrType::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() } }
/// the result's bits, or None where C leaves the result open
fn meaning(op: &str, t: &IrType, lt: &IrType, rt: &IrType, a: u64, b: u64) -> Option<u64> {
    let t_f = floating(t);
    let bool_ = |x: bool| Some(x as u64);
    let zero = |t: &IrType, b: u64| if floating(t) { fv(t, b) == 0.0 } else { integer(t, b) == 0 };
    match op {
        "not" => return bool_(zero(lt, a)),
        "land" => return bool_(!zero(lt, a) && !zero(rt, b)),
        "lor" => return bool_(!zero(lt, a) || !zero(rt, b)),
        _ => {}
    }
    if t_f {
        let single = *t == IrType::F32;
        let (x, y) = (fv(t, a), fv(t, b));
        let (xs, ys) = (x as f32, y as f32);
        return match op {
            "mult" => Some(if single { (xs * ys).to_bits() as u64 } else { fbits(t, x * y) }),
            "div" => Some(if single { (xs / ys).to_bits() as u64 } else { fbits(t, x / y) }),
            "add" => Some(if single { (xs + ys).to_bits() as u64 } else { fbits(t, x + y) }),
            "sub" => Some(if single { (xs - ys).to_bits() as u64 } else { fbits(t, x - y) }),
            "lt" => bool_(x < y), "gt" => bool_(x > y), "le" => bool_(x <= y), "ge" => bool_(x >= y), "eq" | "ifeq" => bool_(x == y), "ne" | "ifne" => bool_(x != y),
            _ => None,
        };
    }
    let (x, y) = (integer(t, a), integer(t, b));
    let w = 8 * width(t) as i128;
    Some(mask(t, match op {
        "mult" => x.checked_mul(y).unwrap_or_else(|| (x as u128).wrapping_mul(y as u128) as i128),
        "add" => x + y, "sub" => x - y, "and" => x & y, "or" => x | y, "xor" => x ^ y, "bnot" => !x,
        "div" | "mod" => {
            if y == 0 || (y == -1 && (x == -(1 << 31) || x == -(1 << 63))) { return None; }
            if op == "div" { x / y } else { x % y }
        }
        "shl" | "shr" => {
            if y < 0 || y >= w { return None; }
            if op == "shl" { x << y } else { x >> y }
        }
        "lt" => return bool_(x < y), "gt" => return bool_(x > y), "le" => return bool_(x <= y), "ge" => return bool_(x >= y), "eq" | "ifeq" => return bool_(x == y), "ne" | "ifne" => return bool_(x != y),
        _ => return None,
    }))
}
fn one(c: &mut Ctx, op: &str, lt: &IrType, rt: &IrType) {
    let mut r = Rng::new(c.rng.u64());
    let mut w = World::new();
    let ts = arith();
    if r.chance(1, 3) { let t = r.pick(&ts).clone(); w.var(&mut r, &t); }
    let truth = CMP.contains(&op) || op == "not" || op == "land" || op == "lor";
    let dt = if truth { IrType::I32 } else { lt.clone() };
    let operand = |r: &mut Rng, w: &mut World, t: &IrType, konst: bool, shift: bool| -> (Src, u64, Option<VarId>) {
        let mut b = bits(r, t);
        if shift { b = r.below(8 * width(t) as u64 + 1); }
        if konst && !floating(t) { (Src::Constant(Constant::Int(integer(t, b))), b, None) }
        else if konst { let f = match r.below(3) { 0 => 0.0, 1 => 1.5, _ => -3.25 }; (Src::Constant(Constant::Float(f)), fbits(t, f), None) }
        else { let v = w.var(r, t); (Src::Var(v.clone()), b, Some(v)) }
    };
    // a constant's own type is chosen by its value; the operand types of a logical operator may differ
    let own = LOGIC.contains(&op) && op != "bnot";
    let kl = !own && !op.starts_with("if") && r.chance(1, 5);
    let (ls, a, lv) = operand(&mut r, &mut w, lt, kl, false);
    let kr = !own && !kl && r.chance(1, 4);
    let (rs, b, rv) = if !kl && !kr && lt == rt && r.chance(1, 12) { (ls.clone(), a, lv.clone()) } else { operand(&mut r, &mut w, rt, kr, op == "shl" || op == "shr") };
    // the destination may be one of the operands
    let d = match (&lv, &rv) { (Some(v), _) if *lt == dt && r.chance(1, 5) => v.clone(), (_, Some(v)) if *rt == dt && r.chance(1, 5) => v.clone(), _ => w.var(&mut r, &dt) };
    let want = match meaning(op, lt, lt, rt, a, b) { Some(x) => x, None => return };
    if r.chance(1, 3) { let t = r.pick(&ts).clone(); w.var(&mut r, &t); }
    let i = make(op, d.clone(), ls, rs);
    let desc = format!("{i} with {lt} {a:#x}, {rt} {b:#x}");
    c.case(|| desc.clone());
    let mut fc = w.context();
    let ep = EnabledProfiling { stack_ptr_logging: false };
    let mc = ModuleContext::new(&ep);
    let mut m = w.machine(&mut r);
    if let Some(v) = &lv { w.set(&mut m, v, a); }
    if let Some(v) = &rv { w.set(&mut m, v, b); }
    let before = m.mem.clone();
    let got = guard(|| { let mut o = vec![]; convert_ir_instr_to_wasm(i, &mut o, &mut fc, &mc, &w.meta); o }).and_then(|o| m.run(&o).map_err(|e| format!("{e:?}")).map(|_| m.stack.len()));
    let have = w.get(&m, &d);
    let same = have == want || (floating(&dt) && fv(&dt, have).is_nan() && fv(&dt, want).is_nan());
    let at = w.addr(&d) as usize;
    let other: Vec<usize> = diff(&before, &m.mem).into_iter().filter(|x| *x < at || *x >= at + width(&dt)).collect();
    if got != Ok(0) || !same || !other.is_empty() || !fc.control_flow_stack.is_empty() {
        c.fail(format!("{op}-{lt}"), "the operator at its operand type, into the destination only", desc, format!("{dt} bits {want:#x}"), format!("{have:#x}, run {got:?}, other bytes changed at {other:?}"));
    }
}
/// assignments, loads and stores through pointers, addresses, allocation
fn memory(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut w = World::new();
    let mut ts = arith();
    ts.push(IrType::PointerTo(Box::new(IrType::I16)));
    let t = r.pick(&ts).clone();
    for _ in 0..r.below(3) { let t = r.pick(&ts).clone(); w.var(&mut r, &t); }
    let d = w.var(&mut r, &t);
    let s = w.var(&mut r, &t);
    let pt = IrType::PointerTo(Box::new(t.clone()));
    let p = w.var(&mut r, &pt);
    let q = w.var(&mut r, &pt);
    let mut fc = w.context();
    let ep = EnabledProfiling { stack_ptr_logging: false };
    let mc = ModuleContext::new(&ep);
    let mut m = w.machine(&mut r);
    let (sb, xb, target) = (bits(&mut r, &t), bits(&mut r, &t), 7000 + r.below(500) as u32);
    w.set(&mut m, &s, sb);
    w.set(&mut m, &p, target as u64);
    m.wr(target, width(&t), xb);
    let mut want = m.mem.clone();
    let put = |m: &mut Vec<u8>, at: u32, n: usize, b: u64| for k in 0..n { m[at as usize + k] = (b >> (8 * k)) as u8; };
    let konst = !floating(&t) && r.chance(1, 3);
    let (src, cb) = if konst { (Src::Constant(Constant::Int(integer(&t, sb))), sb) } else { (Src::Var(s.clone()), sb) };
    let n = r.below(64);
    let i = match r.below(6) {
        0 => { put(&mut want, w.addr(&d), width(&t), cb); Instruction::SimpleAssignment(iid(), d, src) }
        1 => { put(&mut want, w.addr(&d), width(&t), xb); Instruction::LoadFromAddress(iid(), d, Src::Var(p)) }
        2 => { put(&mut want, target, width(&t), cb); Instruction::StoreToAddress(iid(), p, src) }
        3 => { put(&mut want, w.addr(&q), 4, w.addr(&s) as u64); Instruction::AddressOf(iid(), q, Src::Var(s)) }
        4 => { put(&mut want, w.addr(&q), 4, 6000); put(&mut want, 8, 4, 6000 + n); Instruction::AllocateVariable(iid(), q, Src::Constant(Constant::Int(n as i128))) }
        _ => if r.chance(1, 2) { Instruction::DeclareVariable(iid(), d) } else { Instruction::ReferenceVariable(iid(), d) },
    };
    let desc = format!("{i} at {t}, source bits {sb:#x}, pointee bits {xb:#x}");
    c.case(|| desc.clone());
    let got = guard(|| { let mut o = vec![]; convert_ir_instr_to_wasm(i, &mut o, &mut fc, &mc, &w.meta); o }).and_then(|o| m.run(&o).map_err(|e| format!("{e:?}")).map(|_| m.stack.len()));
    if got != Ok(0) || m.mem != want { c.fail(format!("memory-{t}"), "the instruction's effect on memory", desc, "its bytes only", format!("{got:?}, wrong bytes at {:?}", diff(&want, &m.mem))); }
}
fn main() {
    run("C12", "every operator at every operand type, operands variables (frame, global, aliased with the destination) and constants, boundary and random values: the lowered code is executed and its result and frame compared with the operator's meaning", |c| {
        let mut ts = arith();
        ts.push(IrType::PointerTo(Box::new(IrType::I32)));
        for _ in 0..c.n(40, 1500) {
            for op in ARITH.iter().chain(CMP).chain(LOGIC) {
                for t in &ts {
                    if floating(t) && ["mod", "shl", "shr", "and", "or", "xor", "bnot"].contains(op) { continue; }
                    if *op == "bnot" && matches!(t, IrType::PointerTo(_)) { continue; }
                    let rt = if ["land", "lor"].contains(op) { c.rng.pick(&ts).clone() } else { t.clone() };
                    one(c, op, t, &rt);
                }
            }
            for _ in 0..40 { memory(c); }
            if c.too_many() { break; }
        }
    });
}
