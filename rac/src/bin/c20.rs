//! C20: tail calls on random instruction lists, alone and as part of the middle-end's optimiser, and of real programs.
use c2w_rac::blockgen::*;
use c2w_rac::flatgen::*;
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::*;
use cc::middle_end::ir_types::*;
use cc::middle_end::middle_end_optimiser::ir_optimiser::optimise_ir;
use cc::middle_end::middle_end_optimiser::tail_call_optimise::tail_call_optimise;
use cc::program_config::enabled_optimisations::EnabledOptimisations;
use std::collections::BTreeSet;

fn pointers(s: &[Instruction]) -> bool { s.iter().any(|i| matches!(i, Instruction::AddressOf(..) | Instruction::AllocateVariable(..))) }
/// a list with calls of function 0 that fit its parameters
fn list(g: &mut BG, n: u64, labels: u64, params: &[VarId]) -> Vec<Instruction> {
    let me: FunId = nth(0);
    let mut s = g.flat(n, labels, false);
    if g.r.chance(4, 5) { s.retain(|i| !pointers(std::slice::from_ref(i))); }
    for i in s.iter_mut() {
        if let Instruction::Call(_, _, f, a) = i {
            for x in a.iter_mut() { if g.r.chance(1, 4) { *x = Src::Constant(Constant::Int(7)); } }
            if *f == me {
                a.truncate(params.len());
                // parameters in other places
                for x in a.iter_mut() { if g.r.chance(1, 2) { *x = Src::Var(g.r.pick(params).clone()); } }
            }
        }
    }
    s
}
/// the new list against the old one; Err(what, expected, actual)
fn check(me: &FunId, params: &[VarId], was: &[Instruction], now: &[Instruction], meta: &ProgramMetadata, old_vars: &BTreeSet<String>, labelled: bool) -> Result<(), (String, String, String)> {
    if pointers(was) {
        if text(was) != text(now) { return Err(("pointers".into(), "a function that takes an address is left alone".into(), text(now))); }
        return Ok(());
    }
    let e = |k: &str, w: String, g: Option<&Instruction>| Err((k.to_string(), w, format!("{g:?}")));
    let mut rest = now.iter().peekable();
    let mut start = None;
    // the label at the start is only there when needed once the list has been cleaned up
    if labelled { match rest.next() { Some(Instruction::Label(_, l)) => start = Some(l.clone()), x => return e("start", "a label at the start".into(), x) } }
    else if let Some(Instruction::Label(_, l)) = rest.peek() { if !was.iter().any(|i| label(i) == Some(l.clone())) { start = Some(l.clone()); rest.next(); } }
    if let Some(l) = &start { if was.iter().any(|i| label(i) == Some(l.clone()) || target(i) == Some(l.clone())) { return Err(("start".into(), "a new label".into(), format!("{l}"))); } }
    let mut k = 0;
    while k < was.len() {
        let pair = match (&was[k], was.get(k + 1)) { (Instruction::Call(_, d, f, a), Some(Instruction::Ret(_, Some(Src::Var(v))))) if d == v => Some((f, a)), _ => None };
        match pair {
            None => { let x = rest.next(); if x.map(|x| format!("{x:?}")) != Some(format!("{:?}", was[k])) { return e("changed", format!("{:?} stays", was[k]), x); } k += 1; }
            Some((f, a)) if f != me => {
                match rest.next() { Some(Instruction::TailCall(_, g, b)) if g == f && format!("{a:?}") == format!("{b:?}") => {} x => return e("tail call", format!("a tail call in place of {:?}", was[k]), x) }
                k += 2;
            }
            Some((_, a)) => {
                let mut temps: Vec<VarId> = vec![];
                for (j, s) in a.iter().enumerate() {
                    match rest.next() {
                        Some(Instruction::SimpleAssignment(_, t, u)) if format!("{s:?}") == format!("{u:?}") && !old_vars.contains(&vk(t)) && !temps.contains(t) => {
                            let want = match s { Src::Constant(_) => meta.get_var_type(&params[j]), Src::Var(v) | Src::StoreAddressVar(v) => meta.get_var_type(v), _ => unreachable!() }.ok();
                            let got = meta.get_var_type(t).ok();
                            if want != got { return Err(("type".into(), format!("the copy of argument {j} of {:?} has type {want:?}", was[k]), format!("{got:?}"))); }
                            temps.push(t.clone());
                        }
                        x => return e("argument", format!("argument {j} of {:?} is copied into a new variable", was[k]), x),
                    }
                }
                for (j, t) in temps.iter().enumerate() {
                    match rest.next() { Some(Instruction::SimpleAssignment(_, p, Src::Var(u))) if *p == params[j] && u == t => {} x => return e("parameter", format!("parameter {j} gets the copy of argument {j} of {:?}", was[k]), x) }
                }
                match rest.next() { Some(Instruction::Br(_, l)) if start.as_ref() == Some(l) => {} x => return e("jump", format!("a jump to the start in place of {:?}", was[k]), x) }
                k += 2;
            }
        }
    }
    match rest.next() { None => Ok(()), x => e("added", "nothing else".into(), x) }
}
/// Nop and unused labels away, as the clean-up that follows does
fn clean(s: &[Instruction]) -> Vec<Instruction> { s.iter().filter(|i| !matches!(i, Instruction::Nop(_)) && label(i).map(|l| s.iter().any(|j| target(j) == Some(l.clone()))).unwrap_or(true)).cloned().collect() }
fn one(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 5, 1);
    g.addresses = i % 3 == 0;
    let me: FunId = nth(0);
    let params: Vec<VarId> = g.vars.iter().take(1 + (i % 4) as usize).cloned().collect();
    let old: BTreeSet<String> = g.meta.var_types.keys().map(vk).collect();
    let s = list(&mut g, i % 30, i % 4, &params);
    c.case(|| text(&s));
    let mut t = s.clone();
    if let Err(e) = guard(|| tail_call_optimise(&mut t, &me, &params, &mut g.meta)) { c.fail("panic", "every function body is taken", text(&s), "a list", e); return; }
    if let Err((k, w, got)) = check(&me, &params, &s, &t, &g.meta, &old, true) { c.fail(k, "a call becomes a tail call exactly when the next step returns its result; all else stays in order", text(&s), w, format!("{got} in {}", text(&t))); return; }
    // within a program
    let mut p = Program::new();
    std::mem::swap(&mut p.program_metadata, &mut g.meta);
    let mut was = vec![];
    for k in 0..1 + g.r.below(3) {
        std::mem::swap(&mut p.program_metadata, &mut g.meta);
        let l = g.r.below(4);
        let n = g.r.below(20);
        let mut body = list(&mut g, n, l, &[]);
        std::mem::swap(&mut p.program_metadata, &mut g.meta);
        let id: FunId = nth(k);
        let ps: Vec<VarId> = g.vars.iter().skip(k as usize).cloned().collect();
        for i in body.iter_mut() { if let Instruction::Call(_, _, f, a) = i { if *f == id { a.truncate(ps.len()); } } }
        let ft = IrType::Function(Box::new(IrType::I32), vec![], false);
        match p.new_fun_declaration(format!("f{k}"), Function { instrs: body.clone(), type_info: ft, param_var_mappings: ps.clone(), body_is_defined: true }) { Ok(f) => { assert!(f == id); was.push((f, ps, body)); } Err(_) => return }
    }
    let old: BTreeSet<String> = p.program_metadata.var_types.keys().map(vk).collect();
    {
        let tail_call = i % 5 != 0;
        let mut q = p;
        let o = EnabledOptimisations { unreachable_procedure: false, tail_call, stack_allocation: false };
        if let Err(e) = guard(|| optimise_ir(&mut q, &o).map_err(|e| format!("{e}"))).and_then(|x| x) { c.fail("optimiser", "the optimiser takes every program", was.iter().map(|x| text(&x.2)).collect::<Vec<_>>().join(" || "), "a program", e); return; }
        for (f, ps, body) in &was {
            let now = q.program_instructions.functions[f].instrs.clone();
            // the clean-up takes what does nothing out of the list; a label nobody jumps to may also go
            if !tail_call { if text(&clean(body)) != text(&now) { c.fail("off", "without the optimisation no call is rewritten", text(body), text(&clean(body)), text(&now)); return; } continue; }
            let mut b = body.clone();
            b.retain(|i| !matches!(i, Instruction::Nop(_)));
            if b.len() != body.len() && !pointers(body) {
                // a step that does nothing between call and return keeps them apart
                if body.windows(3).any(|w| matches!(w[0], Instruction::Call(..)) && matches!(w[1], Instruction::Nop(_)) ) { continue; }
            }
            let used: Vec<LabelId> = b.iter().filter_map(target).collect();
            let split = body.windows(2).any(|w| matches!(w[0], Instruction::Call(..)) && label(&w[1]).is_some());
            if split { continue; }
            b.retain(|i| label(i).map(|l| used.contains(&l)).unwrap_or(true));
            if let Err((k, w, got)) = check(f, ps, &b, &now, &q.program_metadata, &old, false) { c.fail(format!("program {k}"), "a call becomes a tail call exactly when the next step returns its result; all else stays in order", text(body), w, format!("{got} in {}", text(&now))); return; }
        }
    }
}
/// real programs whose functions end in calls, with and without the optimisation
fn programs(c: &mut Ctx) {
    let a = c.rng.below(40) as i32;
    let b = 1 + c.rng.below(20) as i32;
    let k = c.rng.below(30) as i32;
    let gcd = { let (mut x, mut y) = (a, b); while y != 0 { let t = x % y; x = y; y = t; } x };
    let progs: Vec<(String, i32)> = vec![
        (format!("int g(int a, int b) {{ if (b == 0) {{ return a; }} return g(b, a % b); }} int main() {{ return g({a}, {b}); }}"), gcd),
        (format!("int f(int n, int a, int b) {{ if (n == 0) {{ return a - b; }} return f(n - 1, b, a); }} int main() {{ return f({k}, {a}, {b}) + 64; }}"), if k % 2 == 0 { a - b + 64 } else { b - a + 64 }),
        (format!("int od(int n); int ev(int n) {{ if (n == 0) {{ return 1; }} return od(n - 1); }} int od(int n) {{ if (n == 0) {{ return 0; }} return ev(n - 1); }} int main() {{ return ev({k}); }}"), (k % 2 == 0) as i32),
        (format!("int c(int n, int s) {{ if (n <= 0) {{ return s; }} if (n % 2 == 0) {{ return c(n - 2, s + n); }} if (n % 3 == 0) {{ return c(n - 1, s + 1); }} return c(n - 1, s); }} int main() {{ return c({k}, {a}); }}"), { let (mut n, mut s) = (k, a); while n > 0 { if n % 2 == 0 { s += n; n -= 2; } else { if n % 3 == 0 { s += 1; } n -= 1; } } s }),
        (format!("long w(long n, int a, char c, long s) {{ if (n == 0) {{ return s + a + c; }} return w(n - 1, a, 3, s + c); }} int main() {{ return w({k}, {b}, 5, {a}); }}"), if k == 0 { a + b + 5 } else { a + b + 3 + 5 + 3 * (k - 1) }),
        (format!("int p(int *q, int n) {{ if (n == 0) {{ return *q; }} *q = *q + n; return p(q, n - 1); }} int main() {{ int x = {b}; return p(&x, {}); }}", k % 15), b + (k % 15) * (k % 15 + 1) / 2),
        (format!("int p(int *q, int n) {{ int y = n; if (q == 0) {{ return p(&y, n + 1); }} if (n > {k}) {{ return *q; }} return p(q, n + 1); }} int main() {{ return p(0, {b}); }}"), b),
        (format!("int id(int x) {{ return x; }} int sum(int a, int b) {{ int t = a * 2; return id(t + b); }} int pick(int n) {{ if (n == 1) {{ return sum(n, 4); }} if (n == 2) {{ return id(n); }} return sum({a}, n); }} int main() {{ return pick(1) + pick(2) + pick(3); }}"), 6 + 2 + 2 * a + 3),
    ];
    for (src, want) in progs {
        c.case(|| src.clone());
        for o in [OPT, NOOPT, Opts { tail: true, unreachable: false, stack: false }] {
            let got = exit_of(&src, o);
            if got != Ok(want) { c.fail("behaviour", "a program with tail calls does what it does without", format!("{src} {o:?}"), want.to_string(), format!("{got:?}")); return; }
        }
    }
}
fn main() {
    run("C20", "random instruction lists with calls before returns, alone and as functions of a program, and real programs ending in calls; non-trivial = at least one call", |c| {
        for i in 0..c.n(6000, 80_000) { one(c, i); if c.too_many() { return; } }
        for _ in 0..c.n(40, 400) { programs(c); if c.too_many() { return; } }
    });
}
