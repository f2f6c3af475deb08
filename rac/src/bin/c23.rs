//! C23: splitting random instruction lists into pieces, the reachability between the pieces, and the structured blocks made of them, run against the list itself.
use c2w_rac::blockgen::*;
use c2w_rac::flatgen::*;
use c2w_rac::*;
use cc::id::{Id, IdGenerator};
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir::*;
use cc::middle_end::ir_types::*;
use cc::relooper::blocks::*;
use cc::relooper::relooper::*;
use cc::relooper::soupify::soupify;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const MOST: usize = 120;
/// a run: the instructions done, and the outcomes of comparisons; what a comparison gives depends on how many there were
struct Run { log: Vec<String>, cmps: u64, fuel: i64, salt: u64 }
enum Way { On, Out(u64), Again(u64), Done(u64), Stop }
/// a return without a value is what the end of a function does
fn shown(i: &Instruction) -> String { if matches!(i, Instruction::Ret(_, None)) { "end".to_string() } else { format!("{i}") } }
impl Run {
    fn new(salt: u64) -> Run { Run { log: vec![], cmps: 0, fuel: 3000, salt } }
    fn full(&mut self) -> bool { self.fuel -= 1; self.fuel < 0 || self.log.len() >= MOST }
    fn equal(&mut self, a: &Src, b: &Src) -> bool {
        self.cmps += 1;
        let e = Rng::new(self.salt.wrapping_mul(0x9E37).wrapping_add(self.cmps)).chance(1, 2);
        self.log.push(format!("compare {a} with {b}: {}", if e { "equal" } else { "different" }));
        e
    }
    /// a list with labels, from the start
    fn flat(&mut self, s: &[Instruction]) {
        let at = |l: &LabelId| s.iter().position(|i| label(i).as_ref() == Some(l));
        let mut p = 0;
        while p < s.len() {
            if self.full() { return; }
            let to = match &s[p] {
                Instruction::Label(..) => None,
                Instruction::Br(_, l) => Some(l.clone()),
                Instruction::BrIfEq(_, a, b, l) => if self.equal(a, b) { Some(l.clone()) } else { None },
                Instruction::BrIfNotEq(_, a, b, l) => if self.equal(a, b) { None } else { Some(l.clone()) },
                i => { self.log.push(shown(i)); if matches!(i, Instruction::Ret(..) | Instruction::TailCall(..)) { return; } None }
            };
            p = match to { Some(l) => match at(&l) { Some(q) => q, None => { self.log.push(format!("no {l}")); return; } }, None => p + 1 };
        }
        self.log.push("end".to_string());
    }
    fn pieces(&mut self, m: &HashMap<LabelId, Label>, entry: &LabelId) {
        let mut l = entry.clone();
        'piece: loop {
            let Some(b) = m.get(&l) else { self.log.push(format!("no {l}")); return; };
            for i in &b.instrs {
                if self.full() { return; }
                let to = match i {
                    Instruction::Br(_, l) => Some(l.clone()),
                    Instruction::BrIfEq(_, a, b, l) => if self.equal(a, b) { Some(l.clone()) } else { None },
                    Instruction::BrIfNotEq(_, a, b, l) => if self.equal(a, b) { None } else { Some(l.clone()) },
                    i => { self.log.push(shown(i)); if matches!(i, Instruction::Ret(..) | Instruction::TailCall(..)) { return; } None }
                };
                if let Some(t) = to { l = t; continue 'piece; }
            }
            self.log.push("end".to_string());
            return;
        }
    }
    fn instrs(&mut self, s: &[Instruction], next: &mut Option<i128>, label_var: &VarId) -> Way {
        for i in s {
            if self.full() { return Way::Stop; }
            let side = match i {
                Instruction::SimpleAssignment(_, d, Src::Constant(Constant::Int(n))) if d == label_var => { *next = Some(*n); continue; }
                Instruction::IfEqElse(_, a, b, x, y) | Instruction::IfNotEqElse(_, a, b, x, y) => {
                    let e = self.equal(a, b);
                    if e == matches!(i, Instruction::IfEqElse(..)) { x } else { y }
                }
                Instruction::Break(_, n) => return Way::Out(n.as_u64()),
                Instruction::Continue(_, n) => return Way::Again(n.as_u64()),
                Instruction::EndHandledBlock(_, n) => return Way::Done(n.as_u64()),
                i => { self.log.push(shown(i)); if matches!(i, Instruction::Ret(..) | Instruction::TailCall(..)) { return Way::Stop; } continue; }
            };
            match self.instrs(side, next, label_var) { Way::On => {} w => return w }
        }
        Way::On
    }
    fn block(&mut self, b: &Block, next: &mut Option<i128>, lv: &VarId) -> Way {
        let after = match b {
            Block::Simple { internal, next: n } => { match self.instrs(&internal.instrs, next, lv) { Way::On => {} w => return w } n }
            Block::Loop { id, inner, next: n } => {
                loop {
                    if self.full() { return Way::Stop; }
                    match self.block(inner, next, lv) { Way::On => {} Way::Again(i) if i == id.as_u64() => {} Way::Out(i) if i == id.as_u64() => break, w => return w }
                }
                n
            }
            Block::Multiple { id, handled_blocks, next: n, .. } => {
                if let Some(h) = handled_blocks.iter().find(|h| heads(h).iter().any(|l| Some(l.as_u64() as i128) == *next)) {
                    match self.block(h, next, lv) { Way::On => {} Way::Done(i) if i == id.as_u64() => {} w => return w }
                }
                n
            }
        };
        match after { Some(n) => self.block(n, next, lv), None => Way::On }
    }
}
/// where a block can be entered
fn heads(b: &Block) -> Vec<LabelId> {
    match b {
        Block::Simple { internal, .. } => vec![internal.label.clone()],
        Block::Loop { inner, .. } => heads(inner),
        Block::Multiple { handled_blocks, next, .. } => handled_blocks.iter().flat_map(heads).chain(next.iter().flat_map(|n| heads(n))).collect(),
    }
}
fn same(a: &[String], b: &[String]) -> Option<usize> { let k = a.iter().zip(b).take_while(|(x, y)| x == y).count(); if k < a.len() && k < b.len() || (a.len() != b.len() && a.len().max(b.len()) < MOST) { Some(k) } else { None } }
fn plain(i: &Instruction) -> bool { label(i).is_none() && !matches!(i, Instruction::Br(..)) }
fn jumps(i: &Instruction) -> bool { target(i).is_some() }
fn name(i: &Instruction) -> String { match i { Instruction::BrIfEq(_, a, b, _) => format!("eq {a} {b} {}", i.get_instr_id().as_u64()), Instruction::BrIfNotEq(_, a, b, _) => format!("ne {a} {b} {}", i.get_instr_id().as_u64()), _ => format!("{i:?}") } }

/// the pieces against the list
fn split(c: &mut Ctx, s: &[Instruction], m: &HashMap<LabelId, Label>, entry: &LabelId) -> bool {
    let shown = |m: &HashMap<LabelId, Label>| { let mut v: Vec<String> = m.values().map(|l| format!("{}: {}", l.label, text(&l.instrs))).collect(); v.sort(); v.join(" | ") };
    if !m.contains_key(entry) { c.fail("entry", "the first piece is one of the pieces", text(s), "a piece", shown(m)); return false; }
    // what a plain jump makes unreachable may be missing
    let mut dead = false;
    let (mut must, mut may, mut order) = (BTreeSet::new(), BTreeSet::new(), BTreeMap::new());
    for (k, i) in s.iter().enumerate() {
        if label(i).is_some() { dead = false }
        else if plain(i) { if !dead { must.insert(name(i)); } may.insert(name(i)); order.insert(name(i), k); if matches!(i, Instruction::BrIfEq(..) | Instruction::BrIfNotEq(..)) { dead = false } }
        else if matches!(i, Instruction::Br(..)) { dead = true }
    }
    let mut got = BTreeSet::new();
    let mut open = 0;
    for (k, l) in m {
        if *k != l.label { c.fail("filed", "a piece is filed under its label", text(s), format!("{k}"), format!("{}", l.label)); return false; }
        let n = l.instrs.len();
        let mut last = None;
        for (j, i) in l.instrs.iter().enumerate() {
            if label(i).is_some() { c.fail("label inside", "a piece has no label inside", text(s), "none", text(&l.instrs)); return false; }
            if plain(i) {
                if !may.contains(&name(i)) || !got.insert(name(i)) { c.fail("new or twice", "every instruction of the pieces stands in the list, once", text(s), "once", format!("{i:?}")); return false; }
                let at = order[&name(i)];
                if let Some(p) = last { if at <= p || (p + 1..at).any(|q| plain(&s[q])) { c.fail("order", "instructions of a piece follow one another as in the list", text(s), "as in the list", text(&l.instrs)); return false; } }
                last = Some(at);
            }
            let at_end = match i { Instruction::Br(..) => j + 1 == n, Instruction::BrIfEq(..) | Instruction::BrIfNotEq(..) => j + 2 == n && matches!(l.instrs[n - 1], Instruction::Br(..)), _ => true };
            if !at_end { c.fail("jump inside", "jumps stand at the end of a piece: a plain one last, a conditional one right before it", text(s), "at the end", text(&l.instrs)); return false; }
            if let Some(t) = target(i) { if !m.contains_key(&t) { c.fail("jump lost", "a jump goes to a piece", text(s), format!("a piece {t}"), shown(m)); return false; } }
        }
        if !matches!(l.instrs.last(), Some(Instruction::Br(..))) { open += 1; if matches!(l.instrs.last(), Some(i) if jumps(i)) { open += 1; } }
    }
    if let Some(x) = must.difference(&got).next() { c.fail("instruction lost", "every instruction is in a piece", text(s), x.clone(), shown(m)); return false; }
    if open > 1 { c.fail("falls", "every piece but the one at the end of the list ends in a jump", text(s), "one open piece at most", shown(m)); return false; }
    true
}
fn closure(m: &HashMap<LabelId, Label>) -> BTreeMap<u64, BTreeSet<u64>> {
    let one: BTreeMap<u64, BTreeSet<u64>> = m.iter().map(|(k, l)| (k.as_u64(), l.instrs.iter().filter_map(|i| target(i).map(|t| t.as_u64())).collect())).collect();
    let mut r = BTreeMap::new();
    for k in one.keys() {
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let mut todo: Vec<u64> = one[k].iter().cloned().collect();
        while let Some(x) = todo.pop() { if seen.insert(x) { if let Some(t) = one.get(&x) { todo.extend(t.iter().cloned()) } } }
        r.insert(*k, seen);
    }
    r
}
fn reach(c: &mut Ctx, what: &str, m: &HashMap<LabelId, Label>, entries: &[LabelId]) -> bool {
    let shown = || { let mut v: Vec<String> = m.values().map(|l| format!("{}: {}", l.label, text(&l.instrs))).collect(); v.sort(); v.join(" | ") };
    let want = closure(m);
    let got = match guard(|| calculate_reachability(m)) { Ok(r) => r, Err(e) => { c.fail(what, "reachability takes every set of pieces", shown(), "a table", e); return false; } };
    for l in m.values() {
        let t: Vec<u64> = l.possible_branch_targets().iter().map(|x| x.as_u64()).collect();
        let u: BTreeSet<u64> = l.instrs.iter().filter_map(|i| target(i).map(|t| t.as_u64())).collect();
        if t.len() != u.len() || t.iter().cloned().collect::<BTreeSet<u64>>() != u { c.fail(what, "the targets of a piece are those of its jumps, each once", text(&l.instrs), format!("{u:?}"), format!("{t:?}")); return false; }
    }
    let flat: BTreeMap<u64, BTreeSet<u64>> = got.iter().map(|(k, v)| (k.as_u64(), v.iter().map(|x| x.as_u64()).collect())).collect();
    if flat != want || got.values().any(|v| v.len() != v.iter().map(|x| x.as_u64()).collect::<BTreeSet<u64>>().len()) { c.fail(what, "reachability is the transitive closure of the jumps, each label once", shown(), format!("{want:?}"), format!("{got:?}")); return false; }
    let es: Vec<LabelId> = entries.to_vec();
    let w: BTreeSet<u64> = es.iter().flat_map(|e| want[&e.as_u64()].iter().cloned()).collect();
    let g = match guard(|| combine_reachability_from_entries(&got, &es)) { Ok(g) => g, Err(e) => { c.fail(what, "reachability from several entries", shown(), format!("{w:?}"), e); return false; } };
    if g.len() != w.len() || g.iter().map(|x| x.as_u64()).collect::<BTreeSet<u64>>() != w { c.fail(what, "what several entries reach is what one of them reaches", format!("{} from {entries:?}", shown()), format!("{w:?}"), format!("{g:?}")); return false; }
    true
}
fn runs(c: &mut Ctx, what: &str, s: &[Instruction], salt: u64, got: Run, shown: String) -> bool {
    let mut want = Run::new(salt);
    want.flat(s);
    if want.fuel < 0 || got.fuel < 0 { let n = want.log.len().min(got.log.len()); return match same(&want.log[..n], &got.log[..n]) { None => true, Some(k) => { c.fail(what, "the same instructions run, with the same comparisons", format!("{} as {shown}", text(s)), want.log[k].clone(), got.log[k].clone()); false } }; }
    match same(&want.log, &got.log) {
        None => true,
        Some(k) => { c.fail(what, "the same instructions run, with the same comparisons", format!("{} as {shown}", text(s)), format!("at {k}: {:?}", want.log.get(k)), format!("{:?}", got.log.get(k))); false }
    }
}
fn structured(c: &mut Ctx, what: &str, s: &[Instruction], b: &Block, lv: &VarId, seed: u64) -> bool {
    if all(b).iter().any(jumps) { c.fail(what, "no jump is left as it was", text(s), "none", format!("{b}")); return false; }
    for k in 0..6 {
        let salt = seed.wrapping_add(k * 77);
        let mut r = Run::new(salt);
        if let Way::Stop = r.block(b, &mut None, lv) {} else { r.log.push("end".to_string()); }
        if !runs(c, what, s, salt, r, format!("{b}")) { return false; }
    }
    true
}
fn one(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 4, 1);
    g.addresses = false;
    let labels = i % 8;
    let mut s = g.flat(1 + i % 27, labels, false);
    if i % 3 != 0 { let j = g.meta.new_instr_id(); s.push(Instruction::Ret(j, None)); }
    c.case(|| text(&s));
    // what may follow a jump that always happens, often nothing
    if i % 4 < 2 { let mut t: Vec<Instruction> = vec![]; for x in s { if matches!(t.last(), Some(Instruction::Br(..))) && label(&x).is_none() { continue; } t.push(x); } s = t; }
    if s.is_empty() { return; }
    let (m, entry) = match guard(|| soupify(s.clone(), &mut g.meta)) { Ok(x) => x, Err(e) => { c.fail("panic", "splitting takes every instruction list", text(&s), "pieces", e); return; } };
    if !split(c, &s, &m, &entry) { return; }
    for k in 0..4 {
        let mut r = Run::new(seed.wrapping_add(k));
        r.pieces(&m, &entry);
        if !runs(c, "pieces", &s, seed.wrapping_add(k), r, "pieces".to_string()) { return; }
    }
    let mut es: Vec<LabelId> = m.keys().cloned().collect();
    es.sort_by_key(|l| l.as_u64());
    g.r.shuffle(&mut es);
    es.truncate(1 + g.r.below(3) as usize);
    if !reach(c, "reachability", &m, &es) { return; }
    // structured: a function leaves at its end
    if !matches!(s.last(), Some(Instruction::Ret(..) | Instruction::Br(..))) { return; }
    let lv = g.label.clone();
    let (mut li, mut mi) = (IdGenerator::<LoopBlockId>::new(), IdGenerator::<MultipleBlockId>::new());
    let built = guard(|| { let mut x = RelooperContext::new(&mut li, &mut mi, &lv); create_block_from_labels(m.clone(), vec![entry.clone()], &mut x, &mut g.meta) });
    match built {
        Err(e) => c.fail("structuring", "structuring takes every set of pieces", { let mut v: Vec<String> = m.values().map(|l| format!("{}: {}", l.label, l.instrs.iter().map(|i| format!("{i}")).collect::<Vec<_>>().join("; "))).collect(); v.sort(); format!("enter {entry}: {}", v.join(" | ")) }, "a block", e),
        Ok(None) => c.fail("structuring", "pieces become a block", text(&s), "a block", "nothing"),
        Ok(Some(b)) => { structured(c, "structured", &s, &b, &lv, seed); }
    }
}
/// pieces that no list gives: several entries, jumps to where there is no piece (any more)
fn soup(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 3, 1);
    let n = 1 + i % 9;
    let ls: Vec<LabelId> = (0..n + 2).map(|_| g.meta.new_label()).collect();
    let mut m: HashMap<LabelId, Label> = HashMap::new();
    for l in &ls[..n as usize] {
        let mut b = Label::new(l.clone());
        for _ in 0..g.r.below(3) { let o = g.op(); b.instrs.push(o); }
        for _ in 0..g.r.below(4) {
            let (j, t, v) = (g.meta.new_instr_id(), g.r.pick(&ls).clone(), Src::Var(g.r.pick(&g.vars.clone()).clone()));
            b.instrs.push(match g.r.below(3) { 0 => Instruction::Br(j, t), 1 => Instruction::BrIfEq(j, v, Src::Constant(Constant::Int(1)), t), _ => Instruction::BrIfNotEq(j, v, Src::Constant(Constant::Int(1)), t) });
        }
        m.insert(l.clone(), b);
    }
    let mut es = ls[..n as usize].to_vec();
    g.r.shuffle(&mut es);
    es.truncate(g.r.below(4) as usize);
    reach(c, "reachability of any pieces", &m, &es);
}
/// whole programs
fn program(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut p = Program::new();
    let mut g = BG::new(seed, 4, 1);
    g.addresses = false;
    p.program_metadata = ProgramMetadata::new();
    std::mem::swap(&mut p.program_metadata, &mut g.meta);
    let mut was = vec![];
    for k in 0..1 + i % 3 {
        std::mem::swap(&mut p.program_metadata, &mut g.meta);
        let l = g.r.below(6);
        let mut body = g.flat(1 + i % 17, l, false);
        if k != 1 { let j = g.meta.new_instr_id(); body.push(Instruction::Ret(j, None)); }
        std::mem::swap(&mut p.program_metadata, &mut g.meta);
        let ft = IrType::Function(Box::new(IrType::I32), vec![], false);
        match p.new_fun_declaration(format!("f{k}"), Function { instrs: body.clone(), type_info: ft, param_var_mappings: vec![], body_is_defined: true }) { Ok(f) => was.push((f, body)), Err(_) => return }
    }
    std::mem::swap(&mut p.program_metadata, &mut g.meta);
    let l = g.r.below(3);
    let mut global = g.flat(i % 5, l, false);
    // code of initialisers only jumps on
    let mut before = BTreeSet::new();
    global.retain(|i| { if let Some(l) = label(i) { before.insert(l.as_u64()); } target(i).map_or(true, |l| !before.contains(&l.as_u64())) });
    std::mem::swap(&mut p.program_metadata, &mut g.meta);
    p.program_instructions.global_instrs = global.clone();
    c.case(|| text(&global));
    let all_text = was.iter().map(|(_, b)| text(b)).collect::<Vec<_>>().join(" // ");
    let r = match guard(|| reloop(p)) { Ok(r) => r, Err(e) => { c.fail("program", "structuring takes every program", all_text, "blocks", e); return; } };
    for (f, body) in &was {
        let Some(x) = r.program_blocks.functions.get(f) else { c.fail("program", "every function is kept", all_text, "a function", "none"); return };
        match (&x.block, &x.label_variable) { (Some(b), Some(lv)) => { if !structured(c, "function", body, b, lv, seed) { return; } } _ => { c.fail("program", "a function with instructions gets a block", text(body), "a block", "none"); return; } }
    }
    match &r.program_blocks.global_instrs {
        Some(b) => {
            // the variable that says where to go next is the one the blocks are chosen by
            let lv = all(b).iter().find_map(|i| match i { Instruction::ReferenceVariable(_, v) => Some(v.clone()), _ => None }).unwrap_or_else(|| (0..r.program_metadata.var_types.len() as u64 + 99).map(nth::<VarId>).next().unwrap());
            if all(b).iter().any(|i| matches!(i, Instruction::ReferenceVariable(..))) { structured(c, "global code", &global, b, &lv, seed); }
        }
        None => if !global.is_empty() { c.fail("program", "global code gets a block", text(&global), "a block", "none"); },
    }
}
fn main() {
    run("C23", "random instruction lists with jumps and labels, split and structured, run against the list; random pieces; whole programs; non-trivial = at least one jump", |c| {
        for i in 0..c.n(2500, 60_000) { one(c, i); if c.too_many() { return; } }
        for i in 0..c.n(2000, 30_000) { soup(c, i); if c.too_many() { return; } }
        for i in 0..c.n(1200, 12000) { program(c, i); if c.too_many() { return; } }
    });
}
