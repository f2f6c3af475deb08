//! C28: control statements run the way C says (a structured interpreter is the reference).
use c2w_rac::pipeline::*;
use c2w_rac::*;

/// conditions come from one stream of bits, which the program and the interpreter both compute
#[derive(Debug, Clone)]
enum S {
    Acc(u32), Empty, Block(Vec<S>), If(Cond, Box<S>), IfElse(Cond, Box<S>, Box<S>), While(Cond, Box<S>), Do(Cond, Box<S>),
    /// counted or not, with a condition or not, the third part there or not
    For(Option<(usize, u32, bool)>, bool, bool, Box<S>),
    Switch(u32, Vec<I>), Break, Continue, Return, Goto(usize), Label(usize, Box<S>),
}
#[derive(Debug, Clone)]
enum I { Case(u32), Default, Stmt(S) }
/// the stream, or a constant (as 0, 1, 7, 0.0 or 0.5, or in parentheses)
#[derive(Debug, Clone, Copy)]
enum Cond { Stream, Is(bool, u32) }
fn pc(c: &Cond) -> &'static str { match c { Cond::Stream => "c()", Cond::Is(false, k) => ["0", "(0)", "0 * 5", "1 - 1"][*k as usize % 4], Cond::Is(true, k) => ["1", "(7)", "-1", "0 == 0"][*k as usize % 4] } }
struct Gen { r: Rng, left: i64, leaf: u32, counters: usize, labels: usize, placed: usize, gotos: bool }
impl Gen {
    fn cond(&mut self) -> Cond { if self.r.chance(1, 6) { Cond::Is(self.r.chance(1, 2), self.r.below(4) as u32) } else { Cond::Stream } }
    /// one that a loop can have
    fn stop(&mut self) -> Cond { if self.r.chance(1, 6) { Cond::Is(false, self.r.below(4) as u32) } else { Cond::Stream } }
    fn leaf(&mut self) -> S { self.leaf += 1; S::Acc(self.leaf) }
    /// part of another statement: most often a block, but not always
    fn part(&mut self, d: u32, l: bool, s: bool) -> S { if self.r.chance(2, 5) { self.stmt(d, l, s) } else { S::Block(self.list(d, l, s)) } }
    fn list(&mut self, d: u32, l: bool, s: bool) -> Vec<S> { (0..self.r.below(4)).map(|_| self.stmt(d, l, s)).collect() }
    fn stmt(&mut self, d: u32, l: bool, s: bool) -> S {
        self.left -= 1;
        if d == 0 || self.left < 0 { return self.simple(l, s); }
        match self.r.below(16) {
            0..=2 => self.simple(l, s),
            3 => S::If(self.cond(), Box::new(self.part(d - 1, l, s))),
            4 => { let a = self.part(d - 1, l, s); let a = if dangles(&a) { S::Block(vec![a]) } else { a }; S::IfElse(self.cond(), Box::new(a), Box::new(self.part(d - 1, l, s))) }
            5 => { let a = self.leaf(); let e = S::IfElse(self.cond(), Box::new(self.leaf()), Box::new(self.part(d - 1, l, s))); S::IfElse(self.cond(), Box::new(a), Box::new(e)) }
            6 | 7 => S::While(self.stop(), Box::new(self.part(d - 1, true, s))),
            8 | 9 => S::Do(self.stop(), Box::new(self.part(d - 1, true, s))),
            10 | 11 => {
                let c = if self.r.chance(1, 2) { self.counters += 1; Some((self.counters, self.r.below(4) as u32, self.r.chance(1, 3))) } else { None };
                S::For(c, c.is_some() || self.r.chance(1, 2), self.r.chance(1, 2), Box::new(self.part(d - 1, true, s)))
            }
            12..=14 => {
                let n = 2 + self.r.below(3) as u32;
                let mut ks: Vec<u32> = (0..n + 1).collect(); for i in 0..ks.len() { let j = self.r.below(ks.len() as u64) as usize; ks.swap(i, j); }
                let dflt = self.r.below(5);
                let mut v = vec![];
                for g in 0..1 + self.r.below(4) {
                    if g == dflt { v.push(I::Default); if self.r.chance(1, 4) { if let Some(k) = ks.pop() { v.push(I::Case(k)); } } }
                    else { let Some(k) = ks.pop() else { break }; v.push(I::Case(k)); if self.r.chance(1, 5) { if let Some(k) = ks.pop() { v.push(I::Case(k)); } } }
                    let m = 1 + self.r.below(3);
                    for _ in 0..m { let x = self.stmt(d - 1, l, true); v.push(I::Stmt(x)); }
                    if self.r.chance(1, 2) { v.push(I::Stmt(S::Break)); }
                }
                S::Switch(n, v)
            }
            _ => if self.gotos && self.r.chance(1, 2) { if self.r.chance(1, 2) { self.label(d, l, s) } else { S::Goto(self.r.below(self.labels as u64) as usize) } } else { S::Block(self.list(d - 1, l, s)) },
        }
    }
    fn label(&mut self, d: u32, l: bool, s: bool) -> S { if self.placed == self.labels { return self.leaf(); } let k = self.placed; self.placed += 1; S::Label(k, Box::new(self.stmt(d - 1, l, s))) }
    fn simple(&mut self, l: bool, s: bool) -> S {
        match self.r.below(10) {
            0 => S::Empty,
            1 | 2 if l || s => S::If(Cond::Stream, Box::new(S::Break)),
            3 if l => S::If(Cond::Stream, Box::new(S::Continue)),
            4 if l => S::Continue,
            5 if self.r.chance(1, 3) => S::If(Cond::Stream, Box::new(S::Return)),
            6 if self.gotos => S::Goto(self.r.below(self.labels as u64) as usize),
            _ => self.leaf(),
        }
    }
}
/// an else after it would be taken for its own
fn dangles(s: &S) -> bool { match s { S::If(..) | S::Goto(_) => true, S::IfElse(_, _, b) => dangles(b), S::While(_, b) | S::For(_, _, _, b) | S::Label(_, b) => dangles(b), _ => false } }
fn pt(s: &S) -> String {
    match s {
        S::Acc(k) => format!("t = t * 31 + {k};"),
        S::Empty => ";".into(),
        S::Block(v) => format!("{{ {} }}", v.iter().map(pt).collect::<Vec<_>>().join(" ")),
        S::If(c, a) => format!("if ({}) {}", pc(c), pt(a)),
        S::IfElse(c, a, b) => format!("if ({}) {} else {}", pc(c), pt(a), pt(b)),
        S::While(c, a) => format!("while ({}) {}", pc(c), pt(a)),
        S::Do(c, a) => format!("do {} while ({});", pt(a), pc(c)),
        S::For(k, c, e, b) => match k {
            Some((k, n, true)) => format!("for (int i{k} = 0; i{k} < {n}; i{k} = i{k} + 1) {}", pt(b)),
            Some((k, n, false)) => format!("for (k{k} = 0; k{k} < {n}; k{k} = k{k} + 1) {}", pt(b)),
            // without a condition something in the body has to end it
            None => format!("for (; {}; {}) {}", if *c { "c()" } else { "" }, if *e { "t = t * 7 + 1" } else { "" }, if *c { pt(b) } else { format!("{{ if (d()) break; {} }}", pt(b)) }),
        },
        S::Switch(n, v) => format!("switch (w({n})) {{ {}{} }}", v.iter().map(|i| match i { I::Case(k) => format!("case {k}:"), I::Default => "default:".into(), I::Stmt(s) => pt(s) }).collect::<Vec<_>>().join(" "), if matches!(v.last(), Some(I::Stmt(_))) { "" } else { " ;" }),
        S::Break => "break;".into(), S::Continue => "continue;".into(), S::Return => "return t % 251;".into(),
        S::Goto(l) => format!("if (c()) goto l{l};"),
        S::Label(l, b) => format!("l{l}: {}", pt(b)),
    }
}
fn has(s: &S, l: usize) -> bool {
    match s {
        S::Label(k, b) => *k == l || has(b, l),
        S::Block(v) => v.iter().any(|s| has(s, l)),
        S::If(_, a) | S::While(_, a) | S::Do(_, a) | S::For(_, _, _, a) => has(a, l),
        S::IfElse(_, a, b) => has(a, l) || has(b, l),
        S::Switch(_, v) => v.iter().any(|i| matches!(i, I::Stmt(s) if has(s, l))),
        _ => false,
    }
}
#[derive(PartialEq, Clone, Copy)]
enum Fl { Next, Break, Continue, Return, Goto(usize) }
struct Run { t: u32, s: u32, n: u32, k: std::collections::HashMap<usize, u32>, seek: Option<usize>, steps: u32 }
const FUEL: u32 = 60;
impl Run {
    fn bits(&mut self) -> u32 { self.s = self.s.wrapping_mul(1103515245).wrapping_add(12345); self.n += 1; (self.s / 65536) % 32768 }
    fn cond(&mut self, c: &Cond) -> bool { match c { Cond::Stream => self.c(), Cond::Is(b, _) => *b } }
    fn c(&mut self) -> bool { let b = self.bits(); if self.n > FUEL { false } else { b % 2 == 1 } }
    fn d(&mut self) -> bool { let b = self.bits(); if self.n > FUEL { true } else { b % 3 == 0 } }
    fn w(&mut self, n: u32) -> u32 { self.bits() % (n + 1) }
    /// whether a goto is looking for something in s
    fn in_(&self, s: &S) -> bool { matches!(self.seek, Some(l) if has(s, l)) }
    fn s(&mut self, s: &S) -> Fl {
        self.steps += 1; if self.steps > 100_000 { return Fl::Return; }
        match s {
            S::Acc(k) => { self.t = self.t.wrapping_mul(31).wrapping_add(*k); Fl::Next }
            S::Empty => Fl::Next,
            S::Block(v) => { for x in v { if self.seek.is_some() && !self.in_(x) { continue; } let f = self.s(x); if f != Fl::Next { return f; } } Fl::Next }
            S::If(c, a) => if self.seek.is_some() || self.cond(c) { self.s(a) } else { Fl::Next },
            S::IfElse(c, a, b) => { let yes = if self.seek.is_some() { self.in_(a) } else { self.cond(c) }; if yes { self.s(a) } else { self.s(b) } }
            S::While(c, b) => loop { if self.seek.is_none() && !self.cond(c) { return Fl::Next; } match self.s(b) { Fl::Next | Fl::Continue => {} Fl::Break => return Fl::Next, f => return f } },
            S::Do(c, b) => loop { match self.s(b) { Fl::Next | Fl::Continue => {} Fl::Break => return Fl::Next, f => return f } if !self.cond(c) { return Fl::Next; } },
            S::For(k, c, e, b) => {
                if self.seek.is_none() { if let Some((k, _, _)) = k { self.k.insert(*k, 0); } }
                loop {
                    if self.seek.is_none() {
                        let go = match k { Some((k, n, _)) => self.k.get(k).copied().unwrap_or(0) < *n, None => if *c { self.c() } else { true } };
                        if !go { return Fl::Next; }
                        if k.is_none() && !*c && self.d() { return Fl::Next; }
                    }
                    match self.s(b) { Fl::Next | Fl::Continue => {} Fl::Break => return Fl::Next, f => return f }
                    match k { Some((k, _, _)) => { *self.k.entry(*k).or_insert(0) += 1; } None => if *e { self.t = self.t.wrapping_mul(7).wrapping_add(1); } }
                }
            }
            S::Switch(n, v) => {
                let mut from = 0;
                if self.seek.is_none() {
                    let w = self.w(*n);
                    let at = v.iter().position(|i| matches!(i, I::Case(k) if *k == w)).or_else(|| v.iter().position(|i| matches!(i, I::Default)));
                    match at { Some(a) => from = a, None => return Fl::Next }
                }
                for i in &v[from..] { if let I::Stmt(x) = i { if self.seek.is_some() && !self.in_(x) { continue; } match self.s(x) { Fl::Next => {} Fl::Break => return Fl::Next, f => return f } } }
                Fl::Next
            }
            S::Break => Fl::Break, S::Continue => Fl::Continue, S::Return => Fl::Return,
            S::Goto(l) => if self.c() { Fl::Goto(*l) } else { Fl::Next },
            S::Label(l, b) => { if self.seek == Some(*l) { self.seek = None; } self.s(b) }
        }
    }
    fn top(&mut self, b: &S) -> u32 { loop { match self.s(b) { Fl::Goto(l) => self.seek = Some(l), _ => return self.t % 251 } } }
}
fn program(c: &mut Ctx) {
    let gotos = c.rng.chance(1, 2);
    let mut g = Gen { r: Rng::new(c.rng.u64()), left: 40, leaf: 0, counters: 0, labels: 3, placed: 0, gotos };
    let mut body = vec![];
    for _ in 0..1 + g.r.below(4) { let s = g.stmt(4, false, false); body.push(s); }
    let z = g.leaf(); body.push(z);
    if gotos { while g.placed < g.labels { let l = g.placed; g.placed += 1; let x = g.leaf(); let at = g.r.below(body.len() as u64 + 1) as usize; body.insert(at, S::Label(l, Box::new(x))); } }
    let seed = c.rng.below(1 << 31) as u32;
    let counters: String = (1..=g.counters).map(|k| format!("int k{k} = 0; ")).collect();
    let body = S::Block(body);
    let src = format!("unsigned int t = 0; unsigned int s = {seed}; int n = 0; {counters} unsigned int bits() {{ s = s * 1103515245 + 12345; n = n + 1; return (s / 65536) % 32768; }} int c() {{ unsigned int b = bits(); if (n > {FUEL}) return 0; return b % 2; }} int d() {{ unsigned int b = bits(); if (n > {FUEL}) return 1; return b % 3 == 0; }} int w(int m) {{ return bits() % (m + 1); }} int run() {{ {} return t % 251; }} int main() {{ return run(); }}", pt(&body));
    let mut run = Run { t: 0, s: seed, n: 0, k: Default::default(), seek: None, steps: 0 };
    let want = run.top(&body);
    if run.steps > 100_000 { return; }
    c.case(|| src.clone());
    match exit_of(&src, NOOPT) {
        Ok(k) if k == want as i32 => {}
        Ok(k) => c.fail("program", "control statements run as C says", src, format!("exit status {want}"), format!("exit status {k}")),
        Err(e) => c.fail("program-fails", "the program compiles and runs", src, format!("exit status {want}"), e),
    }
}
fn main() {
    run("C28", "random programs of if, else, while, do, for with any of its parts left out, switch with fall-through, several labels on a statement and the default anywhere, break, continue, return, goto in and out of statements, with conditions from a pseudo-random stream, against an interpreter of the structured program", |c| {
        for _ in 0..c.n(3000, 40_000) { program(c); if c.too_many() { break; } }
    });
}
