//! C13: random nestings of blocks, loops and conditionals, with jumps to random enclosing constructs: the
//! generated code is executed and its trace compared with the nesting's own meaning.
use c2w_rac::interp::*;
use c2w_rac::irgen::*;
use c2w_rac::*;
use cc::back_end::target_code_generation::*;
use cc::back_end::target_code_generation_context::*;
use cc::id::Id;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir_types::*;
use cc::program_config::enabled_profiling::EnabledProfiling;
use cc::relooper::blocks::*;

fn iid() -> InstructionId { InstructionId::initial_id() }
fn nth<T: Id>(n: u64) -> T { let mut x = T::initial_id(); for _ in 0..n { x = x.next_id(); } x }
fn k(n: i128) -> Src { Src::Constant(Constant::Int(n)) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Encl { Loop(u64), Mult(u64), Other }
/// a construct already around the code under test, as it is on the stack
#[derive(Clone, Copy, PartialEq, Debug)]
enum Outer { Block(u64), Loop(u64), If(u64), Un }
struct G { r: Rng, t: VarId, c: VarId, label: VarId, next_label: u64, next_id: u64, marks: i128, size: i64, deep: u64 }
#[derive(Debug, PartialEq, Clone)]
enum F { Next, Break(u64), Continue(u64), End(u64), Fuel }
impl G {
    fn mark(&mut self, o: &mut Vec<Instruction>) {
        self.marks += 1;
        o.push(Instruction::Mult(iid(), self.t.clone(), Src::Var(self.t.clone()), k(31)));
        o.push(Instruction::Add(iid(), self.t.clone(), Src::Var(self.t.clone()), k(self.marks)));
    }
    fn jump(&mut self, encl: &[Encl]) -> Option<Instruction> {
        let here: Vec<Encl> = encl.iter().cloned().filter(|e| *e != Encl::Other).collect();
        if here.is_empty() { return None; }
        // near and far targets alike
        Some(match *self.r.pick(&here) {
            Encl::Loop(i) => if self.r.chance(1, 2) { Instruction::Break(iid(), nth(i)) } else { Instruction::Continue(iid(), nth(i)) },
            Encl::Mult(i) => Instruction::EndHandledBlock(iid(), nth(i)),
            Encl::Other => unreachable!(),
        })
    }
    fn arm(&mut self, encl: &[Encl], depth: u64) -> Vec<Instruction> {
        let mut o = vec![];
        if self.r.chance(1, 2) { self.mark(&mut o); }
        if depth > 0 && self.r.chance(1, 3) { self.cond(encl, depth - 1, &mut o); }
        if self.r.chance(1, 2) { if let Some(j) = self.jump(encl) { o.push(j); } }
        o
    }
    fn cond(&mut self, encl: &[Encl], depth: u64, o: &mut Vec<Instruction>) {
        let m = self.r.range(2, 4) as i128;
        o.push(Instruction::Mod(iid(), self.c.clone(), Src::Var(self.t.clone()), k(m)));
        let (a, b) = (self.arm(encl, depth), self.arm(encl, depth));
        let w = k(self.r.below(m as u64) as i128);
        o.push(if self.r.chance(1, 2) { Instruction::IfEqElse(iid(), Src::Var(self.c.clone()), w, a, b) } else { Instruction::IfNotEqElse(iid(), Src::Var(self.c.clone()), w, a, b) });
    }
    fn label(&mut self) -> LabelId { self.next_label += 1; nth(self.next_label) }
    fn simple(&mut self, encl: &[Encl], may_jump: bool, choose: &[LabelId], next: Option<Box<Block>>) -> Block {
        let l = self.label();
        let mut is = vec![];
        if self.r.chance(1, 2) { is.push(Instruction::Label(iid(), l.clone())); }
        self.mark(&mut is);
        if !choose.is_empty() {
            is.push(Instruction::Mod(iid(), self.c.clone(), Src::Var(self.t.clone()), k(choose.len() as i128 + 1)));
            for (n, x) in choose.iter().enumerate() {
                is.push(Instruction::IfEqElse(iid(), Src::Var(self.c.clone()), k(n as i128), vec![Instruction::SimpleAssignment(iid(), self.label.clone(), k(x.as_u64() as i128))], vec![]));
            }
        } else if self.r.chance(1, 4) { is.push(Instruction::Nop(iid())); }
        if may_jump { for _ in 0..self.r.below(3) { let d = self.r.below(3); self.cond(encl, d, &mut is); } if self.r.chance(1, 6) { if let Some(j) = self.jump(encl) { is.push(j); } } }
        Block::Simple { internal: Label { label: l, instrs: is }, next }
    }
    fn id(&mut self, encl: &[Encl], mult: bool) -> u64 {
        // now and then the identifier of an enclosing construct again: the innermost one is meant
        if self.r.chance(1, 8) { for e in encl { match e { Encl::Loop(i) if !mult => return *i, Encl::Mult(i) if mult => return *i, _ => {} } } }
        self.next_id += 1;
        self.next_id % 7
    }
    fn next(&mut self, encl: &[Encl], depth: u64) -> Option<Box<Block>> { if self.r.chance(1, 2) { Some(Box::new(self.block(encl, depth))) } else { None } }
    fn block(&mut self, encl: &[Encl], depth: u64) -> Block {
        self.size -= 1;
        let what = if depth == 0 || self.size < 0 { 0 } else { self.r.below(4) };
        if what == 0 {
            let next = if depth > 0 && self.size > 0 { self.next(encl, depth - 1) } else { None };
            return self.simple(encl, true, &[], next);
        }
        self.deep = self.deep.max(encl.len() as u64 + 1);
        if what == 1 {
            let id = self.id(encl, false);
            let mut e = encl.to_vec();
            e.push(Encl::Loop(id));
            let inner = Box::new(self.block(&e, depth - 1));
            let next = self.next(encl, depth - 1);
            return Block::Loop { id: nth(id), inner, next };
        }
        let id = self.id(encl, true);
        let mut e = encl.to_vec();
        let mut hs = vec![];
        for _ in 0..1 + self.r.below(3) { e.push(Encl::Mult(id)); hs.push(self.block(&e, depth - 1)); }
        let next = self.next(encl, depth - 1);
        let mut ls = vec![];
        for h in &hs { entries(h, &mut ls); }
        let m = Block::Multiple { id: nth(id), pre_handled_blocks_instrs: vec![], handled_blocks: hs, next };
        // choose an entry first; sometimes leave the label as it was
        if self.r.chance(7, 8) { self.simple(encl, false, &ls, Some(Box::new(m))) } else { m }
    }
}
fn entries(b: &Block, o: &mut Vec<LabelId>) {
    match b {
        Block::Simple { internal, .. } => o.push(internal.label.clone()),
        Block::Loop { inner, .. } => entries(inner, o),
        Block::Multiple { handled_blocks, next, .. } => { for h in handled_blocks { entries(h, o); } if let Some(n) = next { entries(n, o); } }
    }
}
/// the nesting's own meaning
struct Ref { t: u64, c: u64, label: u64, g: (VarId, VarId, VarId), fuel: i64 }
impl Ref {
    fn src(&self, s: &Src) -> u64 { match s { Src::Var(v) => if *v == self.g.0 { self.t } else if *v == self.g.1 { self.c } else { self.label }, Src::Constant(Constant::Int(n)) => *n as u64, _ => 0 } }
    fn set(&mut self, d: &VarId, x: u64) { if *d == self.g.0 { self.t = x } else if *d == self.g.1 { self.c = x } else { self.label = x } }
    fn instrs(&mut self, is: &[Instruction]) -> F {
        for i in is {
            self.fuel -= 1;
            if self.fuel < 0 { return F::Fuel; }
            match i {
                Instruction::Mult(_, d, l, r) => { let x = self.src(l).wrapping_mul(self.src(r)); self.set(d, x) }
                Instruction::Add(_, d, l, r) => { let x = self.src(l).wrapping_add(self.src(r)); self.set(d, x) }
                Instruction::Mod(_, d, l, r) => { let x = self.src(l) % self.src(r); self.set(d, x) }
                Instruction::SimpleAssignment(_, d, s) => { let x = self.src(s); self.set(d, x) }
                Instruction::IfEqElse(_, l, r, a, b) => { let f = if self.src(l) == self.src(r) { self.instrs(a) } else { self.instrs(b) }; if f != F::Next { return f; } }
                Instruction::IfNotEqElse(_, l, r, a, b) => { let f = if self.src(l) != self.src(r) { self.instrs(a) } else { self.instrs(b) }; if f != F::Next { return f; } }
                Instruction::Break(_, i) => return F::Break(i.as_u64()),
                Instruction::Continue(_, i) => return F::Continue(i.as_u64()),
                Instruction::EndHandledBlock(_, i) => return F::End(i.as_u64()),
                _ => {}
            }
        }
        F::Next
    }
    fn block(&mut self, b: &Block) -> F {
        let next = match b {
            Block::Simple { internal, next } => { let f = self.instrs(&internal.instrs); if f != F::Next { return f; } next }
            Block::Loop { id, inner, next } => {
                loop {
                    self.fuel -= 1;
                    if self.fuel < 0 { return F::Fuel; }
                    match self.block(inner) { F::Next => {} F::Continue(i) if i == id.as_u64() => {} F::Break(i) if i == id.as_u64() => break, f => return f }
                }
                next
            }
            Block::Multiple { id, handled_blocks, next, .. } => {
                for h in handled_blocks {
                    let mut ls = vec![];
                    entries(h, &mut ls);
                    if ls.iter().any(|l| l.as_u64() == self.label) { match self.block(h) { F::Next => {} F::End(i) if i == id.as_u64() => {} f => return f } break; }
                }
                next
            }
        };
        match next { Some(n) => self.block(n), None => F::Next }
    }
}
fn stack(outer: &[Outer]) -> Vec<ControlFlowElement> {
    outer.iter().map(|o| match o { Outer::Block(i) => ControlFlowElement::Block(nth(*i)), Outer::Loop(i) => ControlFlowElement::Loop(nth(*i)), Outer::If(i) => ControlFlowElement::If(nth(*i)), Outer::Un => ControlFlowElement::UnlabelledIf }).collect()
}
fn same_stack(a: &[ControlFlowElement], b: &[Outer]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| match (a, b) { (ControlFlowElement::Block(x), Outer::Block(y)) | (ControlFlowElement::Loop(x), Outer::Loop(y)) => x.as_u64() == *y, (ControlFlowElement::If(x), Outer::If(y)) => x.as_u64() == *y, (ControlFlowElement::UnlabelledIf, Outer::Un) => true, _ => false })
}
fn depth(outer: &[Outer], e: Outer) -> Option<u32> { outer.iter().rev().position(|o| *o == e).map(|x| x as u32) }
/// depth resolution on its own
fn depths(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = if r.chance(1, 10) { 200 + r.below(400) } else { r.below(12) };
    let ids = 1 + r.below(6);
    let outer: Vec<Outer> = (0..n).map(|_| { let i = r.below(ids); match r.below(4) { 0 => Outer::Block(i), 1 => Outer::Loop(i), 2 => Outer::If(i), _ => Outer::Un } }).collect();
    let mut w = World::new();
    let mut fc = w.context();
    fc.control_flow_stack = stack(&outer);
    let i = r.below(ids + 1);
    c.case(|| format!("{} enclosing constructs {:?}, identifier {i}", n, &outer[..outer.len().min(14)]));
    let want = (depth(&outer, Outer::Block(i)), depth(&outer, Outer::Loop(i)), depth(&outer, Outer::If(i)));
    let got = guard(|| (fc.get_depth_of_block(&nth(i)), fc.get_depth_of_loop(&nth(i)), fc.get_depth_of_if(&nth(i))));
    if got != Ok(want) { c.fail("depth", "the depth is that of the innermost enclosing construct with the identifier", format!("enclosing {outer:?}, identifier {i}"), format!("{want:?}"), format!("{got:?}")); }
}
fn one(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut w = World::new();
    let mut v = |r: &mut Rng, w: &mut World| w.var(r, &IrType::U64);
    let (t, cv, label) = (v(&mut r, &mut w), v(&mut r, &mut w), v(&mut r, &mut w));
    let outer: Vec<Outer> = (0..r.below(4)).map(|_| { let i = 10 + r.below(3); match r.below(4) { 0 => Outer::Block(i), 1 => Outer::Loop(i), 2 => Outer::If(i), _ => Outer::Un } }).collect();
    let mut g = G { r: Rng::new(r.u64()), t: t.clone(), c: cv.clone(), label: label.clone(), next_label: 0, next_id: r.below(7), marks: 0, size: 6 + r.below(20) as i64, deep: 0 };
    // constructs that enclose the code from outside can be left only by a jump of the kind that is on the stack
    let mut encl: Vec<Encl> = vec![];
    for o in &outer { if let Outer::If(i) = o { encl.push(Encl::Mult(*i)); } }
    for o in &outer { if let Outer::Block(i) = o { if outer.contains(&Outer::Loop(*i)) { encl.push(Encl::Loop(*i)); } } }
    let levels = 1 + g.r.below(5);
    let b = g.block(&encl, levels);
    let text = format!("enclosing {outer:?}: {b}");
    c.case(|| format!("{} constructs deep, {} jumps: {}", g.deep, text.matches("break").count() + text.matches("continue").count() + text.matches("endHandled").count(), text.chars().take(400).collect::<String>()));
    let mut want = Ref { t: 1, c: 0, label: 0, g: (t.clone(), cv, label.clone()), fuel: 3000 };
    let flow = want.block(&b);
    let mut fc = w.context();
    fc.label_variable = label.clone();
    fc.control_flow_stack = stack(&outer);
    let ep = EnabledProfiling { stack_ptr_logging: false };
    let mc = ModuleContext::new(&ep);
    let code = match guard(|| convert_block_to_wasm(b, &mut fc, &mc, &w.meta)) { Ok(x) => x, Err(e) => { c.fail("panic", "every jump inside the construct it names is converted", text, "code", e); return; } };
    if !same_stack(&fc.control_flow_stack, &outer) { c.fail("restored", "emitting code leaves the enclosing constructs as they were", text.clone(), format!("{} enclosing", outer.len()), format!("{} enclosing", fc.control_flow_stack.len())); }
    if flow == F::Fuel { return; }
    let mut m = w.machine(&mut r);
    w.set(&mut m, &t, 1);
    w.set(&mut m, &label, 0);
    m.fuel = 300_000;
    let want_flow = match flow { F::Next => Some("end".to_string()), F::Break(i) => depth(&outer, Outer::Block(i)).map(|d| format!("br {d}")), F::Continue(i) => depth(&outer, Outer::Loop(i)).map(|d| format!("br {d}")), F::End(i) => depth(&outer, Outer::If(i)).map(|d| format!("br {d}")), F::Fuel => None };
    let got = m.run(&code).map(|f| match f { Flow::Next => "end".to_string(), Flow::Br(d) => format!("br {d}"), Flow::Return => "return".into() });
    let have = (w.get(&m, &t), w.get(&m, &label));
    if got != want_flow.clone().ok_or(Stop::Fuel) || have != (want.t, want.label) {
        c.fail("jump", "each jump reaches the innermost enclosing construct it names", text, format!("{want_flow:?}, trace {:#x}, label {}", want.t, want.label), format!("{got:?}, trace {:#x}, label {}", have.0, have.1));
    }
}
fn main() {
    run("C13", "random nestings of blocks, loops and conditionals, inside given enclosing constructs, with jumps to near and far targets and repeated identifiers: the generated code is executed and its trace compared with the nesting's own meaning, and depth resolution is compared on random stacks", |c| {
        for n in 0..c.n(6000, 200_000) {
            one(c);
            if n % 4 == 0 { depths(c); }
            if c.too_many() { break; }
        }
    });
}
