//! C17: dead code elimination of random structured blocks: what is left does the same, in the same order.
use c2w_rac::blockgen::*;
use c2w_rac::*;
use cc::back_end::dataflow_analysis::dead_code_analysis::*;
use cc::middle_end::instructions::*;
use cc::relooper::blocks::*;
use std::collections::{BTreeSet, HashMap};

fn survives(i: &Instruction) -> bool { parts(i).0.is_none() || matches!(i, Instruction::Call(..)) }
/// a call without its destination
fn callee(i: &Instruction) -> String { match i { Instruction::Call(n, _, f, a) => format!("Call {n:?} {f:?} {a:?}"), _ => head(i) } }
fn one(c: &mut Ctx, i: u64) {
    let seed = c.rng.u64();
    let mut g = BG::new(seed, 3 + i % 12, 1 + (i % 13) as i64);
    let mut b = g.block(&[], 4, false);
    let text = format!("block #{seed} (globals {:?}): {b}", g.globals.iter().map(vk).collect::<Vec<_>>());
    c.case(|| text.clone());
    let before = all(&b);
    let mut exposed: BTreeSet<String> = before.iter().filter_map(|i| match i { Instruction::AddressOf(_, _, s) => src_var(s), _ => None }).collect();
    exposed.extend(g.globals.iter().map(vk));
    let walk = |b: &Block, meta: &cc::middle_end::ir::ProgramMetadata, salt: u64| { let mut w = Walk::new(meta, exposed.clone(), seed ^ salt, 40); w.run(b); w.events };
    let was: Vec<Vec<String>> = (0..6).map(|s| walk(&b, &g.meta, s)).collect();
    let globals: HashMap<_, _> = g.globals.iter().map(|v| (v.clone(), 64)).collect();
    if let Err(e) = guard(|| { remove_dead_vars(&mut b, &globals, &mut g.meta); }) { c.fail("panic", "dead code is removed from every structured block", text, "a block", e); return; }
    let after = all(&b);
    // in order: each instruction is as it was, or a call lost its destination; only assignments without other effect went
    let mut rest = after.iter().peekable();
    for o in &before {
        let same = rest.peek().map(|n| n.get_instr_id() == o.get_instr_id()).unwrap_or(false);
        if same {
            let n = rest.next().unwrap();
            if head(n) != head(o) {
                let dropped = matches!((o, n), (Instruction::Call(..), Instruction::Call(_, d, _, _)) if g.meta.is_var_the_null_dest(d)) && callee(o) == callee(n);
                if !dropped { c.fail("changed", "instructions that stay are unchanged, except that a call may lose its destination", text.clone(), head(o), head(n)); return; }
            }
        } else if survives(o) {
            c.fail(format!("lost {}", format!("{o:?}").split('(').next().unwrap()), "calls, stores through pointers, returns, jumps and conditionals survive", text.clone(), format!("{} is kept", head(o)), "it is gone or out of place"); return;
        }
    }
    if let Some(n) = rest.next() { c.fail("new", "nothing is added or reordered", text.clone(), "the instructions of before", head(n)); return; }
    for s in 0..6 {
        let now = walk(&b, &g.meta, s as u64);
        if now != was[s] {
            let k = (0..now.len().max(was[s].len())).find(|k| now.get(*k) != was[s].get(*k)).unwrap();
            c.fail("behaviour", "what the block does that can be seen from outside is as before", text, format!("event {k}: {:?}", was[s].get(k)), format!("{:?}; left is {b}", now.get(k))); return;
        }
    }
}
fn main() {
    run("C17", "random structured blocks with dead assignments, globals and variables whose address is taken, walked before and after; non-trivial = at least one instruction", |c| {
        for i in 0..c.n(2500, 30_000) { one(c, i); if c.too_many() { return; } }
    });
}
