//! C16: every step a walk through a random structured block takes is an edge of its flow graph; edits of
//! random graphs are compared with the edits' own meaning.
use c2w_rac::blockgen::*;
use c2w_rac::*;
use cc::back_end::dataflow_analysis::flowgraph::*;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use cc::relooper::blocks::*;
use std::collections::{BTreeMap, BTreeSet};

type Edges = BTreeSet<(u64, u64)>;
fn edges(g: &Flowgraph) -> Result<Edges, String> {
    let mut s = Edges::new();
    for (a, bs) in &g.successors { for b in bs { s.insert((ik(a), ik(b))); } }
    let mut p = Edges::new();
    for (b, as_) in &g.predecessors { for a in as_ { p.insert((ik(a), ik(b))); } }
    if s != p { return Err(format!("successors and predecessors disagree on {:?}", s.symmetric_difference(&p).next())); }
    for (a, b) in &s { for n in [a, b] { if !g.instrs.contains_key(&nth::<InstructionId>(*n)) { return Err(format!("edge {a}->{b} names an instruction that is not in the graph")); } } }
    if g.successors.len() != g.instrs.len() || g.predecessors.len() != g.instrs.len() { return Err("adjacency lists for other instructions than those of the graph".into()); }
    Ok(s)
}
fn flow(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 6, 2 + (i % 14) as i64);
    let b = g.block(&[], 4, false);
    let text = format!("block #{seed}: {b}");
    c.case(|| text.clone());
    let graph = match guard(|| generate_flowgraph(&b)) { Ok(x) => x, Err(e) => { c.fail("panic", "a flow graph is made for every structured block", text, "a flow graph", e); return; } };
    let es = match edges(&graph) { Ok(e) => e, Err(e) => { c.fail("inverse", "successors and predecessors are mutual inverses over the instructions of the graph", text, "mutual inverses", e); return; } };
    let here: BTreeMap<u64, String> = all(&b).iter().map(|i| (ik(&i.get_instr_id()), format!("{i:?}"))).collect();
    let there: BTreeMap<u64, String> = graph.instrs.iter().map(|(k, v)| (ik(k), format!("{v:?}"))).collect();
    if here != there { c.fail("instrs", "the flow graph holds exactly the block's instructions", text.clone(), format!("{} instructions", here.len()), format!("{} instructions", there.len())); }
    for salt in 0..6 {
        let mut w = Walk::new(&g.meta, BTreeSet::new(), seed ^ salt, 40);
        w.run(&b);
        for p in w.steps.windows(2) {
            let e = (ik(&p[0].get_instr_id()), ik(&p[1].get_instr_id()));
            if !es.contains(&e) { c.fail(format!("edge {}", kind(&p[0])), "every step from one instruction to the next is an edge of the flow graph", text.clone(), format!("an edge from {} to {}", head(&p[0]), head(&p[1])), format!("successors of the first: {:?}", graph.successors[&p[0].get_instr_id()])); return; }
        }
    }
}
fn kind(i: &Instruction) -> String { let s = format!("{i:?}"); s.split('(').next().unwrap().to_string() }
fn edit(c: &mut Ctx) {
    let seed = c.rng.u64();
    let mut r = Rng::new(seed);
    let n = 2 + r.below(8);
    let mut g = Flowgraph::new();
    let mut es = Edges::new();
    let mut left: Vec<u64> = (0..n).collect();
    let (mut ent, mut ext) = (BTreeSet::new(), BTreeSet::new());
    let mut log = vec![];
    let res = guard(|| {
        for k in 0..n { g.add_instr(Instruction::Nop(nth(k))); }
        for _ in 0..r.below(2 * n) { let (a, b) = (r.below(n), r.below(n)); log.push(format!("add {a}->{b}")); g.add_successor(nth(a), nth(b)); es.insert((a, b)); }
        for k in 0..n { if r.chance(1, 4) { g.entries.insert(nth(k)); ent.insert(k); } if r.chance(1, 4) { g.exits.insert(nth(k)); ext.insert(k); } }
        for _ in 0..r.below(n + 1) {
            let k = r.below(n + 1);
            log.push(format!("remove {k}"));
            g.remove_instr(&nth(k));
            if left.contains(&k) {
                left.retain(|x| *x != k);
                let ps: Vec<u64> = es.iter().filter(|e| e.1 == k && e.0 != k).map(|e| e.0).collect();
                let ss: Vec<u64> = es.iter().filter(|e| e.0 == k && e.1 != k).map(|e| e.1).collect();
                es.retain(|e| e.0 != k && e.1 != k);
                for p in &ps { for s in &ss { es.insert((*p, *s)); } }
                if ent.remove(&k) { ent.extend(ss.iter()); }
                if ext.remove(&k) { ext.extend(ps.iter()); }
            }
            let got = edges(&g)?;
            if got != es { return Err(format!("after removing {k} edge {:?} differs", got.symmetric_difference(&es).next())); }
            let have: BTreeSet<u64> = g.instrs.keys().map(ik).collect();
            if have != left.iter().cloned().collect() { return Err(format!("instructions {have:?} are left instead of {left:?}")); }
            let (e, x): (BTreeSet<u64>, BTreeSet<u64>) = (g.entries.iter().map(ik).collect(), g.exits.iter().map(ik).collect());
            if e != ent || x != ext { return Err(format!("entries {e:?} and exits {x:?} instead of {ent:?} and {ext:?}")); }
        }
        Ok(())
    });
    let text = format!("{n} instructions: {}", log.join(", "));
    c.case(|| text.clone());
    if let Err(e) = res.and_then(|x| x) { c.fail("edit", "removing an instruction connects its predecessors to its successors and changes no other edge", text, "exactly those edges", e); }
}
fn main() {
    run("C16", "random structured blocks with walks through them, and random graphs with histories of removals; non-trivial = at least two instructions", |c| {
        for i in 0..c.n(1500, 20_000) { flow(c, i); if c.too_many() { return; } }
        for _ in 0..c.n(2000, 20_000) { edit(c); if c.too_many() { return; } }
    });
}
