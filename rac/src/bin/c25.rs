//! C25: call sequences, executed against a model of the stack discipline.
use c2w_rac::interp::*;
use c2w_rac::irgen::*;
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::back_end::stack_frame_operations::*;
use cc::back_end::target_code_generation_context::ModuleContext;
use cc::id::Id;
use cc::middle_end::ids::{FunId, VarId};
use cc::middle_end::instructions::*;
use cc::middle_end::ir_types::*;
use cc::program_config::enabled_profiling::EnabledProfiling;

fn types() -> Vec<IrType> { let mut ts = arith(); ts.push(IrType::PointerTo(Box::new(IrType::I8))); ts }
/// one argument: its source, type and bits
fn arg(r: &mut Rng, w: &mut World, t: &IrType, reuse: &[(VarId, IrType)]) -> (Src, Option<VarId>) {
    if r.chance(1, 3) && !floating(t) { return (Src::Constant(Constant::Int(0)), None); }
    if r.chance(1, 2) { if let Some(x) = reuse.iter().find(|x| x.1 == *t) { return (Src::Var(x.0.clone()), Some(x.0.clone())); } }
    let v = w.var(r, t);
    (Src::Var(v.clone()), Some(v))
}
fn sequences(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut w = World::new();
    let ts = types();
    for _ in 0..r.below(3) { let t = r.pick(&ts).clone(); w.var(&mut r, &t); }
    let n = r.below(7) as usize;
    let ret = if r.chance(1, 4) { IrType::Void } else { r.pick(&ts).clone() };
    let ptypes: Vec<IrType> = (0..n).map(|_| r.pick(&ts).clone()).collect();
    let variadic = r.chance(1, 5);
    let mut atypes = ptypes.clone();
    let mut srcs = vec![];
    let mut bitsof = vec![];
    let mut vars: Vec<(VarId, IrType)> = vec![];
    let mut mem_vals: Vec<(VarId, u64)> = vec![];
    let extra = if variadic { r.below(3) as usize } else { 0 };
    for k in 0..n + extra {
        if k >= n { let t = r.pick(&[IrType::I32, IrType::I64, IrType::F64]).clone(); atypes.push(t); }
        let t = atypes[k].clone();
        let (s, v) = arg(&mut r, &mut w, &t, &vars);
        match v {
            Some(v) => {
                let b = match mem_vals.iter().find(|x| x.0 == v) { Some(x) => x.1, None => { let b = bits(&mut r, &t); mem_vals.push((v.clone(), b)); vars.push((v, t)); b } };
                srcs.push(s); bitsof.push(b);
            }
            None => {
                let mut b = bits(&mut r, &t);
                if k >= n { b &= 0x3fff_ffff; atypes[k] = IrType::I32; }
                let b = b & if width(&atypes[k]) == 8 { u64::MAX } else { (1u64 << (8 * width(&atypes[k]))) - 1 };
                srcs.push(Src::Constant(Constant::Int(integer(&atypes[k], b)))); bitsof.push(b);
            }
        }
    }
    let dest = if ret == IrType::Void { let d = w.var(&mut r, &IrType::I32); if r.chance(1, 2) { w.meta.init_null_dest_var() } else { d } } else { w.var(&mut r, &ret) };
    for _ in 0..r.below(3) { let t = r.pick(&ts).clone(); w.var(&mut r, &t); }
    let fc = w.context();
    let ep = EnabledProfiling { stack_ptr_logging: false };
    let mut mc = ModuleContext::new(&ep);
    let _ = &mut mc;
    let f = IrType::Function(Box::new(ret.clone()), ptypes.clone(), variadic);
    let tail = r.chance(1, 2);
    // where everything must end up
    let rs = if ret == IrType::Void { 0 } else { width(&ret) as u32 };
    let frame_end = FP + w.next_fp;
    let sp = frame_end + r.below(16) as u32;
    let base = if tail { FP } else { sp };
    let mut offs = vec![];
    let mut at = base + 4 + rs;
    for t in &atypes { offs.push(at); at += width(t) as u32; }
    let end = at;
    // a tail call needs the frame to have the result and its own parameters; the copies go above sp
    let tail_ok = base + 4 + rs <= sp;
    if tail && !tail_ok { return; }
    let desc = format!("{} {f} with {}", if tail { "tail call of" } else { "call of" }, srcs.iter().zip(&bitsof).map(|(s, b)| format!("{s} (bits {b:#x})")).collect::<Vec<_>>().join(", "));
    c.case(|| desc.clone());
    let mut m = w.machine(&mut r);
    for (v, b) in &mem_vals { w.set(&mut m, v, *b); }
    m.wr(8, 4, sp as u64);
    let before = m.mem.clone();
    let code = guard(|| { let mut o = vec![]; if tail { overwrite_current_stack_frame_with_new_stack_frame(&f, srcs.clone(), &mut o, &fc, &mc, &w.meta) } else { set_up_new_stack_frame(&f, srcs.clone(), &mut o, &fc, &mc, &w.meta) } o });
    let key = if tail { "tail-frame" } else { "call-frame" };
    let ran = code.and_then(|o| m.run(&o).map_err(|e| format!("{e:?}")).map(|_| m.stack.len()));
    if ran != Ok(0) { c.fail(key, "the frame is built", desc, "code that runs and leaves the operand stack as it was", format!("{ran:?}")); return; }
    let (fp2, sp2) = (m.rd(0, 4) as u32, m.rd(8, 4) as u32);
    if fp2 != base { c.fail(key, "the new frame is current", desc, format!("frame pointer {base}"), format!("{fp2}")); return; }
    if sp2 != end { c.fail(key, "the stack pointer is past the arguments", desc, format!("{end} (frame at {base})"), format!("{sp2}")); return; }
    for (k, t) in atypes.iter().enumerate() {
        let got = m.rd(offs[k], width(t));
        if got != bitsof[k] { c.fail(key, "each argument is where the callee reads the parameter", desc, format!("argument {k}: bits {:#x} at frame + {}", bitsof[k], offs[k] - base), format!("{got:#x}")); return; }
    }
    let prev = m.rd(base, 4) as u32;
    let want_prev = if tail { u32::from_le_bytes(before[FP as usize..FP as usize + 4].try_into().unwrap()) } else { FP };
    if prev != want_prev { c.fail(key, "the frame holds the caller's frame pointer", desc, format!("{want_prev}"), format!("{prev}")); return; }
    // nothing else changed below the frame
    let lo: Vec<usize> = diff(&before[..base as usize], &m.mem[..base as usize]).into_iter().filter(|a| *a >= 12).collect();
    if !lo.is_empty() { c.fail(key, "memory below the new frame is untouched", desc, "no change", format!("changed {lo:?}")); return; }
    if tail { return; }
    // the callee: writes its result, may scribble over its frame and everything above
    let rb = if ret == IrType::Void { 0 } else { bits(&mut r, &ret) };
    for a in base as usize + 4..m.mem.len() { m.mem[a] = r.u64() as u8; }
    if rs > 0 { m.wr(base + 4, rs as usize, rb); }
    m.wr(8, 4, end as u64 + r.below(64));
    m.wr(4, 4, r.u64() & 0xffff_ffff);
    let mut want = m.mem.clone();
    want[0..4].copy_from_slice(&FP.to_le_bytes());
    want[8..12].copy_from_slice(&sp.to_le_bytes());
    if rs > 0 { let a = w.addr(&dest) as usize; for k in 0..rs as usize { want[a + k] = (rb >> (8 * k)) as u8; } }
    let got = guard(|| { let mut o = vec![]; pop_stack_frame(dest, &f, &mut o, &fc, &mc, &w.meta); o }).and_then(|o| m.run(&o).map_err(|e| format!("{e:?}")).map(|_| m.stack.len()));
    let d: Vec<usize> = diff(&want, &m.mem).into_iter().filter(|a| !(4..8).contains(a)).collect();
    if got != Ok(0) || !d.is_empty() { c.fail("return", "after the call the caller's frame and stack pointers are as before and the result is in the destination", desc, format!("frame {FP}, stack {sp}, result bits {rb:#x}"), format!("{got:?}, wrong bytes at {d:?}")); }
}
const CT: &[&str] = &["char", "unsigned char", "int", "unsigned int", "long", "unsigned long", "float", "double"];
/// functions that check every parameter, called in nested and repeated fashion
fn program(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let nf = r.below(3) + 2;
    let mut src = String::new();
    let mut sigs: Vec<(Vec<&str>, &str)> = vec![];
    for f in 0..nf {
        let n = r.below(6) as usize;
        let ps: Vec<&str> = (0..n).map(|_| *r.pick(CT)).collect();
        let rt = *r.pick(CT);
        let plist = ps.iter().enumerate().map(|(k, t)| format!("{t} p{k}")).collect::<Vec<_>>().join(", ");
        let plist = format!("int base{}{plist}", if n > 0 { ", " } else { "" });
        let mut body = String::from("int bad = 0; ");
        for k in 0..n { body += &format!("if (p{k} != base + {k}) bad = {}; ", k + 1); }
        // use some earlier function in between, then check again
        if f > 0 && r.chance(2, 3) {
            let g = r.below(f) as usize;
            body += &call(&sigs[g], g, "base", &mut r, "q");
            for k in 0..n { body += &format!("if (p{k} != base + {k}) bad = {}; ", 20 + k); }
        }
        body += &format!("{rt} result; result = base + {n} + bad * 7; return result;");
        src += &format!("{rt} f{f}({plist}) {{ {body} }} ");
        sigs.push((ps, rt));
    }
    let mut body = String::from("int bad = 0; int base = 3; int keep = 77; long keep2 = 88; ");
    for i in 0..3 { let g = r.below(nf) as usize; body += &format!("base = {}; ", r.below(40)); body += &call(&sigs[g], g, "base", &mut r, &format!("m{i}")); }
    src += &format!("int main() {{ {body} if (keep != 77) bad = 90; if (keep2 != 88) bad = 91; return bad + 5; }}");
    c.case(|| src.clone());
    match exit_of(&src, NOOPT) {
        Ok(5) => {}
        Ok(k) => c.fail("program", "every parameter has the argument's value, results come back, the caller's variables keep theirs", src, "exit status 5", format!("exit status {k}")),
        Err(e) => c.fail("program-fails", "the program compiles and runs", src, "exit status 5", e),
    }
}
fn call(sig: &(Vec<&'static str>, &'static str), g: usize, base: &str, r: &mut Rng, p: &str) -> String {
    let _ = r;
    let mut s = String::from("{ ");
    for (k, t) in sig.0.iter().enumerate() { s += &format!("{t} {p}a{k}; {p}a{k} = {base} + {k}; "); }
    let args = sig.0.iter().enumerate().map(|(k, _)| format!(", {p}a{k}")).collect::<String>();
    s += &format!("{} {p}r; {p}r = f{g}({base}{args}); if ({p}r != {base} + {}) bad = 50; ", sig.1, sig.0.len());
    for (k, _) in sig.0.iter().enumerate() { s += &format!("if ({p}a{k} != {base} + {k}) bad = 60; "); }
    s + "} "
}
fn main() {
    run("C25", "random callee signatures, argument lists (variables of every type in frame or global, constants, repeated variables, variadic) and stack positions: the emitted set-up, tail and removal sequences are executed and every byte compared; small programs of nested calls through the whole compiler", |c| {
        let _ = FunId::initial_id();
        for _ in 0..c.n(12_000, 300_000) { sequences(c); if c.too_many() { break; } }
        for _ in 0..c.n(40, 1000) { program(c); if c.too_many() { break; } }
        for (key, src, want, what) in [
            ("argument-conversion", "int f(double a) { if (a == 5) return 1; return 0; } int main() { int x = 5; return f(x); }", 1, "an argument reaches the callee with its value when its type differs from the parameter's"),
            ("return-conversion", "double f(int a) { return a; } int main() { double r; r = f(5); if (r == 5) return 1; return 0; }", 1, "a result reaches the caller with its value when the returned expression's type differs from the declared one"),
        ] {
            c.case(|| src.into());
            let got = exit_of(src, NOOPT);
            if got != Ok(want) { c.fail(key, what, src, format!("exit status {want}"), format!("{got:?}")); }
        }
    });
}
