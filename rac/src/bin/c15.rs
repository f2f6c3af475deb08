//! C15: liveness and interference of random structured blocks, compared with their definitions and with
//! what walks through the block really read.
use c2w_rac::blockgen::*;
use c2w_rac::*;
use cc::back_end::dataflow_analysis::clash_graph::*;
use cc::back_end::dataflow_analysis::flowgraph::*;
use cc::back_end::dataflow_analysis::live_variable_analysis::*;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;
use std::collections::{BTreeMap, BTreeSet};

fn one(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 3 + i % 9, 1 + (i % 13) as i64);
    let b = g.block(&[], 4, false);
    let text = format!("block #{seed}: {b}");
    c.case(|| text.clone());
    let (graph, live) = match guard(|| { let f = generate_flowgraph(&b); let l = live_variable_analysis(&f); (f, l) }) { Ok(x) => x, Err(e) => { c.fail("panic", "liveness is computed for every structured block", text, "a table", e); return; } };
    let set = |i: &InstructionId| -> Option<BTreeSet<String>> { live.get(i).map(|s| s.iter().map(vk).collect()) };
    let mut table = BTreeMap::new();
    for (id, ins) in &graph.instrs {
        let Some(got) = set(id) else { c.fail("missing", "every instruction has its live variables", text.clone(), "a set of variables", format!("nothing for {}", head(ins))); return; };
        let mut want: BTreeSet<String> = BTreeSet::new();
        for s in &graph.successors[id] { want.extend(set(s).unwrap_or_default()); }
        if let Some(d) = def_of(ins) { want.remove(&d); }
        want.extend(refs_of(ins));
        if got != want { c.fail(format!("equation {}", format!("{ins:?}").split('(').next().unwrap()), "the variables live before an instruction are those it reads and those live before a successor that it does not assign", text.clone(), format!("{want:?} before {}", head(ins)), format!("{got:?}")); return; }
        table.insert(ik(id), got);
    }
    for salt in 0..4 {
        let mut w = Walk::new(&g.meta, BTreeSet::new(), seed ^ salt, 30);
        w.run(&b);
        let mut wanted: BTreeSet<String> = BTreeSet::new();
        for ins in w.steps.iter().rev() {
            if let Some(d) = def_of(ins) { wanted.remove(&d); }
            wanted.extend(refs_of(ins));
            if let Some(v) = wanted.iter().find(|v| !table[&ik(&ins.get_instr_id())].contains(*v)) { c.fail("walk", "a variable that is still read before being assigned again is live", text.clone(), format!("{v} live before {}", head(ins)), format!("{:?}", table[&ik(&ins.get_instr_id())])); return; }
        }
    }
    let mut cg = match guard(|| generate_clash_graph(&b)) { Ok(x) => x, Err(e) => { c.fail("panic clash", "interference is computed for every structured block", text, "a table", e); return; } };
    let taken: BTreeSet<String> = graph.instrs.values().filter_map(|i| match i { Instruction::AddressOf(_, _, s) => src_var(s), _ => None }).collect();
    let ids: BTreeMap<String, VarId> = g.vars.iter().chain(&g.aggregates).chain([&g.label]).map(|v| (vk(v), v.clone())).collect();
    for v in &taken {
        if !cg.does_var_clash_universally(&ids[v]) { c.fail("address", "a variable whose address is taken interferes with every variable", text.clone(), format!("{v} interferes with all"), "it does not"); return; }
        if let Some((o, _)) = ids.iter().find(|(_, o)| !cg.do_vars_clash(o, &ids[v]) || !cg.do_vars_clash(&ids[v], o)) { c.fail("address", "a variable whose address is taken interferes with every variable", text.clone(), format!("{v} interferes with {o}"), "it does not"); return; }
    }
    if let Some((v, _)) = ids.iter().find(|(v, o)| !taken.contains(*v) && cg.does_var_clash_universally(o)) { c.fail("universal", "only variables whose address is taken interfere with all", text.clone(), format!("{v} does not"), "it does"); }
    let mut need: BTreeSet<(String, String)> = BTreeSet::new();
    for (id, ins) in &graph.instrs {
        let l = &table[&ik(id)];
        for a in l { for b in l { if a != b { need.insert((a.clone(), b.clone())); } } }
        if let Some(d) = def_of(ins) { for s in &graph.successors[id] { for o in &table[&ik(s)] { if *o != d { need.insert((d.clone(), o.clone())); need.insert((o.clone(), d.clone())); } } } }
    }
    let check = |cg: &ClashGraph, gone: &BTreeSet<String>| -> Option<(String, String)> {
        for (a, b) in &need {
            if gone.contains(a) || gone.contains(b) { continue; }
            if !cg.do_vars_clash(&ids[a], &ids[b]) { return Some((a.clone(), b.clone())); }
            let all = cg.get_all_clashes(&ids[a]);
            if !taken.contains(a) && !taken.contains(b) && !all.contains(&ids[b]) { return Some((a.clone(), b.clone())); }
            if !taken.contains(a) && cg.count_clashes(&ids[a]) != all.len() { return Some((a.clone(), format!("{} others", all.len()))); }
        }
        None
    };
    if let Some((x, y)) = check(&cg, &BTreeSet::new()) { c.fail("clash", "variables live together, or of which one is assigned while the other is live, interfere", text.clone(), format!("{x} interferes with {y}"), "it does not"); return; }
    for (a, x) in &ids { for (b, y) in &ids {
        if cg.clashes.contains_key(x) && cg.clashes.contains_key(y) && cg.do_vars_clash(x, y) != cg.do_vars_clash(y, x) { c.fail("symmetry", "interference is symmetric", text.clone(), format!("{a} and {b} alike in either order"), "they differ"); return; }
    } }
    // taking variables out leaves the others' interferences
    let mut gone = BTreeSet::new();
    for _ in 0..g.r.below(3) { let v = g.r.pick(&ids.values().cloned().collect::<Vec<_>>()).clone(); cg.remove_var(&v); gone.insert(vk(&v)); }
    let bad = need.iter().find(|(a, b)| !gone.contains(a) && !gone.contains(b) && !cg.do_vars_clash(&ids[a], &ids[b]));
    if let Some((x, y)) = bad { c.fail("removal", "taking a variable out leaves the others' interferences", text, format!("{x} interferes with {y} after removing {gone:?}"), "it does not"); }
}
fn main() {
    run("C15", "random structured blocks over few variables, with walks through them; non-trivial = some variable is live somewhere", |c| {
        for i in 0..c.n(1200, 20_000) { one(c, i); if c.too_many() { return; } }
    });
}
