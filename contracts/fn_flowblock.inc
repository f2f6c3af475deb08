// the same for blocks
pub open spec fn ids_block(b: Block) -> Set<InstructionId> decreases b {
    match b {
        Block::Simple { internal, next } => ids_of(internal.instrs@).union(match next { Some(n) => ids_block(*n), None => Set::empty() }),
        Block::Loop { inner, next, .. } => ids_block(*inner).union(match next { Some(n) => ids_block(*n), None => Set::empty() }),
        Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } => ids_of(pre_handled_blocks_instrs@).union(ids_blocks(handled_blocks@)).union(match next { Some(n) => ids_block(*n), None => Set::empty() }),
    }
}
pub open spec fn ids_blocks(s: Seq<Block>) -> Set<InstructionId> decreases s { if s.len() == 0 { Set::empty() } else { ids_blocks(s.drop_last()).union(ids_block(s.last())) } }
pub open spec fn ids_next(n: Option<Box<Block>>) -> Set<InstructionId> { match n { Some(n) => ids_block(*n), None => Set::empty() } }
pub open spec fn occurs_block(b: Block, x: Instruction) -> bool decreases b {
    match b {
        Block::Simple { internal, next } => occurs(internal.instrs@, x) || match next { Some(n) => occurs_block(*n, x), None => false },
        Block::Loop { inner, next, .. } => occurs_block(*inner, x) || match next { Some(n) => occurs_block(*n, x), None => false },
        Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } => occurs(pre_handled_blocks_instrs@, x) || occurs_blocks(handled_blocks@, x) || match next { Some(n) => occurs_block(*n, x), None => false },
    }
}
pub open spec fn occurs_blocks(s: Seq<Block>, x: Instruction) -> bool decreases s { s.len() > 0 && (occurs_blocks(s.drop_last(), x) || occurs_block(s.last(), x)) }
pub open spec fn distinct_block(b: Block) -> bool decreases b {
    match b {
        Block::Simple { internal, next } => distinct(internal.instrs@) && match next { Some(n) => distinct_block(*n) && ids_of(internal.instrs@).disjoint(ids_block(*n)), None => true },
        Block::Loop { inner, next, .. } => distinct_block(*inner) && match next { Some(n) => distinct_block(*n) && ids_block(*inner).disjoint(ids_block(*n)), None => true },
        Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } => {
            &&& distinct(pre_handled_blocks_instrs@)
            &&& distinct_blocks(handled_blocks@)
            &&& ids_of(pre_handled_blocks_instrs@).disjoint(ids_blocks(handled_blocks@))
            &&& match next { Some(n) => distinct_block(*n) && ids_of(pre_handled_blocks_instrs@).disjoint(ids_block(*n)) && ids_blocks(handled_blocks@).disjoint(ids_block(*n)), None => true }
        }
    }
}
pub open spec fn distinct_blocks(s: Seq<Block>) -> bool decreases s { s.len() > 0 ==> distinct_blocks(s.drop_last()) && distinct_block(s.last()) && ids_blocks(s.drop_last()).disjoint(ids_block(s.last())) }
/// what the relooper makes: no piece of code that is empty and leads nowhere, and what stands for the tests of a multiple block does not jump
pub open spec fn good_block(b: Block) -> bool decreases b {
    match b {
        Block::Simple { internal, next } => (internal.instrs@.len() > 0 || next is Some) && good(internal.instrs@) && match next { Some(n) => good_block(*n), None => true },
        Block::Loop { inner, next, .. } => good_block(*inner) && match next { Some(n) => good_block(*n), None => true },
        Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } => {
            &&& good(pre_handled_blocks_instrs@)
            &&& good_blocks(handled_blocks@)
            &&& match next { Some(n) => good_block(*n), None => true }
        }
    }
}
pub open spec fn good_blocks(s: Seq<Block>) -> bool decreases s { s.len() > 0 ==> good_blocks(s.drop_last()) && good_block(s.last()) }
/// where control enters
pub open spec fn first_of(s: Seq<Instruction>) -> Set<InstructionId> { if s.len() == 0 { Set::empty() } else { set![s[0].id()] } }
pub open spec fn entry_block(b: Block) -> Set<InstructionId> decreases b {
    match b {
        Block::Simple { internal, next } => if internal.instrs@.len() > 0 { first_of(internal.instrs@) } else { match next { Some(n) => entry_block(*n), None => Set::empty() } },
        Block::Loop { inner, next, .. } => entry_block(*inner),
        Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } =>
            if pre_handled_blocks_instrs@.len() > 0 { first_of(pre_handled_blocks_instrs@) } else { entry_blocks(handled_blocks@).union(match next { Some(n) => entry_block(*n), None => Set::empty() }) },
    }
}
pub open spec fn entry_blocks(s: Seq<Block>) -> Set<InstructionId> decreases s { if s.len() == 0 { Set::empty() } else { entry_blocks(s.drop_last()).union(entry_block(s.last())) } }
pub open spec fn entry_next(n: Option<Box<Block>>) -> Set<InstructionId> { match n { Some(n) => entry_block(*n), None => Set::empty() } }
/// the jumps to t
pub open spec fn jumps_block(b: Block, t: JumpTo) -> Set<InstructionId> decreases b {
    match b {
        Block::Simple { internal, next } => jumps(internal.instrs@, t).union(match next { Some(n) => jumps_block(*n, t), None => Set::empty() }),
        Block::Loop { inner, next, .. } => jumps_block(*inner, t).union(match next { Some(n) => jumps_block(*n, t), None => Set::empty() }),
        Block::Multiple { handled_blocks, next, .. } => jumps_blocks(handled_blocks@, t).union(match next { Some(n) => jumps_block(*n, t), None => Set::empty() }),
    }
}
pub open spec fn jumps_blocks(s: Seq<Block>, t: JumpTo) -> Set<InstructionId> decreases s { if s.len() == 0 { Set::empty() } else { jumps_blocks(s.drop_last(), t).union(jumps_block(s.last(), t)) } }
/// the instructions after which control goes on to what follows the block
pub open spec fn outs_block(b: Block) -> Set<InstructionId> decreases b {
    match b {
        Block::Simple { internal, next } => match next { Some(n) => outs_block(*n), None => outs(internal.instrs@) },
        Block::Loop { id, inner, next } => match next { Some(n) => outs_block(*n), None => jumps_block(*inner, JumpTo::Break(id)) },
        Block::Multiple { id, handled_blocks, next, .. } => match next { Some(n) => outs_block(*n), None => outs_blocks(handled_blocks@).union(jumps_blocks(handled_blocks@, JumpTo::End(id))) },
    }
}
pub open spec fn outs_blocks(s: Seq<Block>) -> Set<InstructionId> decreases s { if s.len() == 0 { Set::empty() } else { outs_blocks(s.drop_last()).union(outs_block(s.last())) } }
/// control can go straight from a to c: on to what follows, back to the start of a loop, out of a loop to what follows it,
/// into one of several handled blocks or past them, from the end of a handled block to what follows
pub open spec fn steps_block(b: Block, a: InstructionId, c: InstructionId) -> bool decreases b {
    match b {
        Block::Simple { internal, next } => {
            ||| steps(internal.instrs@, a, c)
            ||| match next { Some(n) => steps_block(*n, a, c), None => false }
            ||| outs(internal.instrs@).contains(a) && entry_next(next).contains(c)
        }
        Block::Loop { id, inner, next } => {
            ||| steps_block(*inner, a, c)
            ||| match next { Some(n) => steps_block(*n, a, c), None => false }
            ||| (outs_block(*inner).contains(a) || jumps_block(*inner, JumpTo::Continue(id)).contains(a)) && entry_block(*inner).contains(c)
            ||| jumps_block(*inner, JumpTo::Break(id)).contains(a) && entry_next(next).contains(c)
        }
        Block::Multiple { id, pre_handled_blocks_instrs, handled_blocks, next } => {
            ||| steps(pre_handled_blocks_instrs@, a, c)
            ||| steps_blocks(handled_blocks@, a, c)
            ||| match next { Some(n) => steps_block(*n, a, c), None => false }
            ||| outs(pre_handled_blocks_instrs@).contains(a) && (entry_blocks(handled_blocks@).contains(c) || entry_next(next).contains(c))
            ||| (outs_blocks(handled_blocks@).contains(a) || jumps_blocks(handled_blocks@, JumpTo::End(id)).contains(a)) && entry_next(next).contains(c)
        }
    }
}
pub open spec fn steps_blocks(s: Seq<Block>, a: InstructionId, c: InstructionId) -> bool decreases s { s.len() > 0 && (steps_blocks(s.drop_last(), a, c) || steps_block(s.last(), a, c)) }
pub open spec fn all_jumps_block(b: Block, x: Set<InstructionId>) -> bool { forall|t: JumpTo, n: InstructionId| #[trigger] jumps_block(b, t).contains(n) ==> x.contains(n) }
pub open spec fn all_jumps_blocks(s: Seq<Block>, x: Set<InstructionId>) -> bool { forall|t: JumpTo, n: InstructionId| #[trigger] jumps_blocks(s, t).contains(n) ==> x.contains(n) }
/// g is o with exactly the instructions of b and all its steps
pub open spec fn with_block(g: Flowgraph, o: Flowgraph, b: Block) -> bool {
    &&& grown(g, o)
    &&& g.instrs@.dom() =~= o.instrs@.dom().union(ids_block(b))
    &&& forall|n: InstructionId| #[trigger] ids_block(b).contains(n) ==> occurs_block(b, g.instrs@[n])
    &&& forall|a: InstructionId, c: InstructionId| #[trigger] steps_block(b, a, c) ==> g.edge(a, c)
}
pub open spec fn with_blocks(g: Flowgraph, o: Flowgraph, s: Seq<Block>) -> bool {
    &&& grown(g, o)
    &&& g.instrs@.dom() =~= o.instrs@.dom().union(ids_blocks(s))
    &&& forall|n: InstructionId| #[trigger] ids_blocks(s).contains(n) ==> occurs_blocks(s, g.instrs@[n])
    &&& forall|a: InstructionId, c: InstructionId| #[trigger] steps_blocks(s, a, c) ==> g.edge(a, c)
}
/// from each of x to each of y
pub open spec fn cross(g: Flowgraph, x: Set<InstructionId>, y: Set<InstructionId>) -> bool { forall|a: InstructionId, c: InstructionId| x.contains(a) && y.contains(c) ==> #[trigger] g.edge(a, c) }
pub open spec fn all_from(g: Flowgraph, a: InstructionId, y: Set<InstructionId>) -> bool { forall|c: InstructionId| #[trigger] y.contains(c) ==> g.edge(a, c) }
/// what is said of a block once it is in the graph: where control enters and leaves
pub open spec fn block_ends(b: Block, entries: Set<InstructionId>, exits: Set<InstructionId>, jump_exits: Set<InstructionId>) -> bool {
    &&& entry_block(b).subset_of(entries) && entries.subset_of(ids_block(b))
    &&& exits.subset_of(ids_block(b)) && jump_exits.subset_of(ids_block(b))
    &&& outs_block(b).subset_of(exits.union(jump_exits))
    &&& all_jumps_block(b, jump_exits)
}
/// an empty piece of code is what follows it
pub proof fn lemma_pass(b: Block, n: Block)
    requires b is Simple, b->internal.instrs@.len() == 0, b->Simple_next is Some, *b->Simple_next->0 == n,
    ensures
        forall|g: Flowgraph, o: Flowgraph| #[trigger] with_block(g, o, n) ==> with_block(g, o, b),
        forall|x: Set<InstructionId>, y: Set<InstructionId>, z: Set<InstructionId>| #[trigger] block_ends(n, x, y, z) ==> block_ends(b, x, y, z),
        ids_block(b) =~= ids_block(n), good_block(b) == good_block(n), distinct_block(b) == distinct_block(n),
{
    let s = b->internal.instrs@;
    assert(ids_of(s) =~= Set::<InstructionId>::empty());
    assert forall|x: Instruction| occurs_block(b, x) == #[trigger] occurs_block(n, x) by {}
    assert forall|a: InstructionId, c: InstructionId| #[trigger] steps_block(b, a, c) implies steps_block(n, a, c) by {}
    assert forall|t: JumpTo, m: InstructionId| #[trigger] jumps_block(b, t).contains(m) implies jumps_block(n, t).contains(m) by {}
    assert forall|g: Flowgraph, o: Flowgraph| #[trigger] with_block(g, o, n) implies with_block(g, o, b) by {
        assert forall|m: InstructionId| #[trigger] ids_block(b).contains(m) implies occurs_block(b, g.instrs@[m]) by { assert(ids_block(n).contains(m)); assert(occurs_block(n, g.instrs@[m])); }
    }
    assert forall|x: Set<InstructionId>, y: Set<InstructionId>, z: Set<InstructionId>| #[trigger] block_ends(n, x, y, z) implies block_ends(b, x, y, z) by { }
}
pub proof fn lemma_simple(g: Flowgraph, g2: Flowgraph, g1: Flowgraph, o: Flowgraph, b: Block, x: Set<InstructionId>, y: Set<InstructionId>)
    requires
        b is Simple, with_list(g1, o, b->internal.instrs@), same_nodes(g, g2),
        match b->Simple_next { Some(n) => with_block(g2, g1, *n), None => g2 == g1 },
        outs(b->internal.instrs@).subset_of(x), entry_next(b->Simple_next).subset_of(y), cross(g, x, y),
    ensures with_block(g, o, b),
{
    let s = b->internal.instrs@;
    lemma_grown_trans(g2, g1, o);
    lemma_grown_trans(g, g2, o);
    assert forall|n: InstructionId| #[trigger] ids_block(b).contains(n) implies occurs_block(b, g.instrs@[n]) by {
        if ids_of(s).contains(n) { assert(g1.instrs@.contains_key(n)); assert(g2.instrs@[n] == g1.instrs@[n]); assert(occurs(s, g1.instrs@[n])); }
    }
    assert forall|a: InstructionId, c: InstructionId| #[trigger] steps_block(b, a, c) implies g.edge(a, c) by {
        if steps(s, a, c) { assert(g1.edge(a, c)); assert(g2.edge(a, c)); } else if outs(s).contains(a) && entry_next(b->Simple_next).contains(c) {} else { match b->Simple_next { Some(n) => { assert(steps_block(*n, a, c)); assert(g2.edge(a, c)); } None => {} } }
    }
}
pub proof fn lemma_loop(g: Flowgraph, g3: Flowgraph, g2: Flowgraph, g1: Flowgraph, o: Flowgraph, b: Block, e: Set<InstructionId>, x: Set<InstructionId>, j: Set<InstructionId>, y: Set<InstructionId>)
    requires
        b is Loop, with_block(g1, o, *b->inner), block_ends(*b->inner, e, x, j), same_nodes(g2, g1), cross(g2, x, e), cross(g2, j, e),
        match b->Loop_next { Some(n) => with_block(g3, g2, *n), None => g3 == g2 }, same_nodes(g, g3),
        entry_next(b->Loop_next).subset_of(y), cross(g, j, y),
    ensures with_block(g, o, b),
{
    lemma_grown_trans(g2, g1, o);
    lemma_grown_trans(g3, g2, o);
    lemma_grown_trans(g, g3, o);
    assert forall|n: InstructionId| #[trigger] ids_block(b).contains(n) implies occurs_block(b, g.instrs@[n]) by {
        if ids_block(*b->inner).contains(n) { assert(g1.instrs@.contains_key(n)); assert(g2.instrs@.contains_key(n)); assert(g3.instrs@[n] == g1.instrs@[n]); assert(occurs_block(*b->inner, g1.instrs@[n])); }
    }
    assert forall|a: InstructionId, c: InstructionId| #[trigger] steps_block(b, a, c) implies g.edge(a, c) by {
        if steps_block(*b->inner, a, c) { assert(g1.edge(a, c)); assert(g2.edge(a, c)); assert(g3.edge(a, c)); }
        else if (outs_block(*b->inner).contains(a) || jumps_block(*b->inner, JumpTo::Continue(b->Loop_id)).contains(a)) && entry_block(*b->inner).contains(c) {
            assert(x.contains(a) || j.contains(a)); assert(e.contains(c)); assert(g2.edge(a, c)); assert(g3.edge(a, c));
        }
        else if jumps_block(*b->inner, JumpTo::Break(b->Loop_id)).contains(a) && entry_next(b->Loop_next).contains(c) { assert(j.contains(a)); assert(y.contains(c)); }
        else { match b->Loop_next { Some(n) => { assert(steps_block(*n, a, c)); assert(g3.edge(a, c)); } None => {} } }
    }
}
pub proof fn lemma_blocks(g: Flowgraph, m1: Flowgraph, m: Flowgraph, o: Flowgraph, t0: Seq<Block>, b: Block)
    requires with_blocks(m, o, t0), with_block(m1, m, b), same_nodes(g, m1),
    ensures with_blocks(g, o, t0.push(b)),
{
    let t1 = t0.push(b);
    assert(t1.drop_last() =~= t0);
    lemma_grown_trans(m1, m, o);
    lemma_grown_trans(g, m1, o);
    assert forall|n: InstructionId| #[trigger] ids_blocks(t1).contains(n) implies occurs_blocks(t1, g.instrs@[n]) by {
        if ids_blocks(t0).contains(n) { assert(m.instrs@.contains_key(n)); assert(m1.instrs@[n] == m.instrs@[n]); assert(occurs_blocks(t0, m.instrs@[n])); } else { assert(ids_block(b).contains(n)); }
    }
    assert forall|a: InstructionId, c: InstructionId| #[trigger] steps_blocks(t1, a, c) implies g.edge(a, c) by {
        if steps_blocks(t0, a, c) { assert(m.edge(a, c)); assert(m1.edge(a, c)); } else { assert(t1.last() == b); assert(steps_block(b, a, c)); assert(m1.edge(a, c)); }
    }
}
pub proof fn lemma_jumps(b: Block, x: Set<InstructionId>)
    requires
        match b {
            Block::Simple { internal, next } => all_jumps(internal.instrs@, x) && match next { Some(n) => all_jumps_block(*n, x), None => true },
            Block::Loop { inner, next, .. } => all_jumps_block(*inner, x) && match next { Some(n) => all_jumps_block(*n, x), None => true },
            Block::Multiple { handled_blocks, next, .. } => all_jumps_blocks(handled_blocks@, x) && match next { Some(n) => all_jumps_block(*n, x), None => true },
        },
    ensures all_jumps_block(b, x),
{
    assert forall|t: JumpTo, n: InstructionId| #[trigger] jumps_block(b, t).contains(n) implies x.contains(n) by {
        match b {
            Block::Simple { internal, next } => { if !jumps(internal.instrs@, t).contains(n) { match next { Some(m) => { assert(jumps_block(*m, t).contains(n)); } None => {} } } }
            Block::Loop { inner, next, .. } => { if !jumps_block(*inner, t).contains(n) { match next { Some(m) => { assert(jumps_block(*m, t).contains(n)); } None => {} } } }
            Block::Multiple { handled_blocks, next, .. } => { if !jumps_blocks(handled_blocks@, t).contains(n) { match next { Some(m) => { assert(jumps_block(*m, t).contains(n)); } None => {} } } }
        }
    }
}
pub proof fn lemma_take_blocks(s: Seq<Block>, k: int)
    requires 0 <= k <= s.len(),
    ensures ids_blocks(s.take(k)).subset_of(ids_blocks(s)), good_blocks(s) ==> good_blocks(s.take(k)), distinct_blocks(s) ==> distinct_blocks(s.take(k)),
    decreases s.len(),
{
    if k == s.len() { assert(s.take(k) =~= s); } else { lemma_take_blocks(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); }
}
pub proof fn lemma_multiple(g: Flowgraph, g3: Flowgraph, g2: Flowgraph, g1: Flowgraph, o: Flowgraph, b: Block, p: Set<InstructionId>, x: Set<InstructionId>, j: Set<InstructionId>, y: Set<InstructionId>)
    requires
        b is Multiple, with_list(g1, o, b->pre_handled_blocks_instrs@), outs(b->pre_handled_blocks_instrs@).subset_of(p),
        with_blocks(g2, g1, b->handled_blocks@), cross(g2, p, entry_blocks(b->handled_blocks@)),
        match b->Multiple_next { Some(n) => with_block(g3, g2, *n), None => g3 == g2 }, same_nodes(g, g3),
        entry_next(b->Multiple_next).subset_of(y), cross(g, p, y), cross(g, x, y), cross(g, j, y),
        outs_blocks(b->handled_blocks@).subset_of(x.union(j)), all_jumps_blocks(b->handled_blocks@, j),
    ensures with_block(g, o, b),
{
    let (s, h) = (b->pre_handled_blocks_instrs@, b->handled_blocks@);
    lemma_grown_trans(g2, g1, o);
    lemma_grown_trans(g3, g2, o);
    lemma_grown_trans(g, g3, o);
    assert forall|n: InstructionId| #[trigger] ids_block(b).contains(n) implies occurs_block(b, g.instrs@[n]) by {
        if ids_of(s).contains(n) { assert(g1.instrs@.contains_key(n)); assert(g2.instrs@.contains_key(n)); assert(g3.instrs@[n] == g1.instrs@[n]); assert(occurs(s, g1.instrs@[n])); }
        else if ids_blocks(h).contains(n) { assert(g2.instrs@.contains_key(n)); assert(g3.instrs@[n] == g2.instrs@[n]); assert(occurs_blocks(h, g2.instrs@[n])); }
    }
    assert forall|a: InstructionId, c: InstructionId| #[trigger] steps_block(b, a, c) implies g.edge(a, c) by {
        if steps(s, a, c) { assert(g1.edge(a, c)); assert(g2.edge(a, c)); assert(g3.edge(a, c)); }
        else if steps_blocks(h, a, c) { assert(g2.edge(a, c)); assert(g3.edge(a, c)); }
        else if outs(s).contains(a) && entry_blocks(h).contains(c) { assert(g2.edge(a, c)); assert(g3.edge(a, c)); }
        else if outs(s).contains(a) && entry_next(b->Multiple_next).contains(c) { assert(p.contains(a)); }
        else if (outs_blocks(h).contains(a) || jumps_blocks(h, JumpTo::End(b->Multiple_id)).contains(a)) && entry_next(b->Multiple_next).contains(c) { assert(x.contains(a) || j.contains(a)); }
        else { match b->Multiple_next { Some(n) => { assert(steps_block(*n, a, c)); assert(g3.edge(a, c)); } None => {} } }
    }
}
//@fn src/back_end/dataflow_analysis/flowgraph.rs add_block_to_flowgraph_and_get_entries_and_exits
//@ret r
//@attr #[verifier::rlimit(60)]
//@spec
    requires old(flowgraph).wf(), good_block(*block), distinct_block(*block), old(flowgraph).instrs@.dom().disjoint(ids_block(*block)),
    ensures with_block(*final(flowgraph), *old(flowgraph), *block), block_ends(*block, r.0@, r.1@, r.2@),
    decreases block,
//@start
    let ghost g0 = *flowgraph;
    let ghost b = *block;
    let ghost y_none = Set::<InstructionId>::empty();
//@after let (block_entry_instr
            let ghost g1 = *flowgraph;
            proof {
                assert(b == *block && b is Simple && b->internal == *internal && b->Simple_next == *next);
                lemma_first(internal.instrs@);
                assert(ids_of(internal.instrs@).subset_of(ids_block(b)));
                assert(decreases_to!(*block => *next));
            }
//@after let (successors,
                let ghost g2 = *flowgraph;
                let ghost x = block_exit_instrs@;
                proof { assert(x.subset_of(ids_of(internal.instrs@))); assert(ids_block(b) =~= ids_of(internal.instrs@).union(ids_block(**next))); }
//@iterval 0
//@iter 0 it0
//@loop 0
                invariant
                    g2.wf(), same_nodes(*flowgraph, g2), __s0@.subset_of(g2.instrs@.dom()), block_exit_instrs@.subset_of(g2.instrs@.dom()),
                    forall|j: int| #![trigger it0.seq()[j]] 0 <= j < it0.index@ ==> all_to(*flowgraph, block_exit_instrs@, *it0.seq()[j]),
//@loop 0 start
                let ghost gi0 = *flowgraph;
                let ghost y0 = *__r0;
                proof { assert(__s0@.contains(*__r0)); assert(g2.instrs@.dom().contains(*__r0)); }
//@before return add_block_to
                    proof { lemma_pass(*block, **next); assert(decreases_to!(*block => *next)); }
//@iterref 1
//@iter 1 it1
//@loop 1
                    invariant
                        gi0.wf(), same_nodes(*flowgraph, gi0), gi0.has(y0), y0 == successor, block_exit_instrs@.subset_of(gi0.instrs@.dom()),
                        forall|j: int| #![trigger it1.seq()[j]] 0 <= j < it1.index@ ==> flowgraph.edge(*it1.seq()[j], y0),
//@loop 1 start
                    proof { assert(block_exit_instrs@.contains(*end_of_block_instr)); assert(gi0.instrs@.dom().contains(*end_of_block_instr)); }
//@loop 1 after
                    proof { assert(forall|a: InstructionId| #[trigger] block_exit_instrs@.contains(a) ==> flowgraph.edge(a, y0)); }
//@loop 0 end
                    proof {
                        assert(all_to(*flowgraph, block_exit_instrs@, y0));
                        assert forall|j: int| #![trigger it0.seq()[j]] 0 <= j < it0.index@ implies all_to(*flowgraph, block_exit_instrs@, *it0.seq()[j]) by { assert(all_to(gi0, block_exit_instrs@, *it0.seq()[j])); }
                    }
//@loop 0 after
                proof {
                    assert(forall|c: InstructionId| #[trigger] __s0@.contains(c) ==> all_to(*flowgraph, block_exit_instrs@, c));
                    assert(cross(*flowgraph, block_exit_instrs@, __s0@));
                    lemma_simple(*flowgraph, g2, g1, g0, b, block_exit_instrs@, __s0@);
                    lemma_jumps(b, jump_exit_instrs@);
                }
//@before if let Some(next) = next {##1
            proof {
                if next is None { assert(ids_block(b) =~= ids_of(internal.instrs@)); lemma_simple(*flowgraph, g1, g1, g0, b, block_exit_instrs@, y_none); lemma_jumps(b, jump_exit_instrs@); }
            }
//@after let (inner_entry_instrs
            let ghost g1 = *flowgraph;
            let ghost j0 = inner_jump_exit_instrs@;
            proof {
                assert(b == *block && b is Loop && b->inner == *inner && b->Loop_next == *next);
                assert(decreases_to!(*block => *next));
            }
//@before let (inner_entry_instrs
            proof { assert(decreases_to!(*block => *inner)); assert(b == *block && b is Loop && b->inner == *inner && b->Loop_next == *next); assert(ids_block(**inner).subset_of(ids_block(b))); }
//@iterref 2
//@iter 2 it2
//@loop 2
                invariant
                    g1.wf(), same_nodes(*flowgraph, g1), inner_entry_instrs@.subset_of(g1.instrs@.dom()), inner_exit_instrs@.subset_of(g1.instrs@.dom()), inner_jump_exit_instrs@.subset_of(g1.instrs@.dom()),
                    forall|j: int| #![trigger it2.seq()[j]] 0 <= j < it2.index@ ==> all_to(*flowgraph, inner_exit_instrs@, *it2.seq()[j]),
                    forall|j: int| #![trigger it2.seq()[j]] 0 <= j < it2.index@ ==> all_to(*flowgraph, inner_jump_exit_instrs@, *it2.seq()[j]),
//@loop 2 start
                let ghost gi2 = *flowgraph;
                let ghost y2 = *start_of_loop_instr;
                proof { assert(inner_entry_instrs@.contains(*start_of_loop_instr)); assert(g1.instrs@.dom().contains(*start_of_loop_instr)); }
//@iterref 3
//@iter 3 it3
//@loop 3
                    invariant
                        gi2.wf(), same_nodes(*flowgraph, gi2), gi2.has(y2), y2 == *start_of_loop_instr, inner_exit_instrs@.subset_of(gi2.instrs@.dom()),
                        forall|j: int| #![trigger it3.seq()[j]] 0 <= j < it3.index@ ==> flowgraph.edge(*it3.seq()[j], y2),
//@loop 3 start
                    proof { assert(inner_exit_instrs@.contains(*end_of_loop_instr)); assert(gi2.instrs@.dom().contains(*end_of_loop_instr)); }
//@loop 3 after
                    proof { assert(forall|a: InstructionId| #[trigger] inner_exit_instrs@.contains(a) ==> flowgraph.edge(a, y2)); }
//@iterref 4
//@iter 4 it4
//@loop 4
                    invariant
                        gi2.wf(), same_nodes(*flowgraph, gi2), gi2.has(y2), y2 == *start_of_loop_instr, inner_jump_exit_instrs@.subset_of(gi2.instrs@.dom()),
                        forall|j: int| #![trigger it4.seq()[j]] 0 <= j < it4.index@ ==> flowgraph.edge(*it4.seq()[j], y2),
                        all_to(*flowgraph, inner_exit_instrs@, y2),
//@loop 4 start
                    proof { assert(inner_jump_exit_instrs@.contains(*jump_exit_instr)); assert(gi2.instrs@.dom().contains(*jump_exit_instr)); }
//@loop 4 after
                    proof { assert(forall|a: InstructionId| #[trigger] inner_jump_exit_instrs@.contains(a) ==> flowgraph.edge(a, y2)); }
//@loop 2 end
                proof {
                    assert(all_to(*flowgraph, inner_exit_instrs@, y2));
                    assert forall|j: int| #![trigger it2.seq()[j]] 0 <= j < it2.index@ implies all_to(*flowgraph, inner_exit_instrs@, *it2.seq()[j]) by { assert(all_to(gi2, inner_exit_instrs@, *it2.seq()[j])); }
                    assert(all_to(*flowgraph, inner_jump_exit_instrs@, y2));
                    assert forall|j: int| #![trigger it2.seq()[j]] 0 <= j < it2.index@ implies all_to(*flowgraph, inner_jump_exit_instrs@, *it2.seq()[j]) by { assert(all_to(gi2, inner_jump_exit_instrs@, *it2.seq()[j])); }
                }
//@loop 2 after
            proof {
                assert(forall|c: InstructionId| #[trigger] inner_entry_instrs@.contains(c) ==> all_to(*flowgraph, inner_exit_instrs@, c));
                assert(cross(*flowgraph, inner_exit_instrs@, inner_entry_instrs@));
                assert(forall|c: InstructionId| #[trigger] inner_entry_instrs@.contains(c) ==> all_to(*flowgraph, inner_jump_exit_instrs@, c));
                assert(cross(*flowgraph, inner_jump_exit_instrs@, inner_entry_instrs@));
            }
//@before if let Some(next) = next {##2
            let ghost g2 = *flowgraph;
            proof {
                if next is None { assert(ids_block(b) =~= ids_block(**inner)); lemma_loop(g2, g2, g2, g1, g0, b, inner_entry_instrs@, inner_exit_instrs@, j0, y_none); lemma_jumps(b, j0); }
            }
//@after let (next_entry_instrs##0
                let ghost g3 = *flowgraph;
                proof { assert(ids_block(b) =~= ids_block(**inner).union(ids_block(**next))); }
//@iterval 5
//@iter 5 it5
//@loop 5
                    invariant
                        g3.wf(), same_nodes(*flowgraph, g3), __s5@.subset_of(g3.instrs@.dom()), inner_exit_instrs@.subset_of(g3.instrs@.dom()), inner_jump_exit_instrs@.subset_of(g3.instrs@.dom()),
                        forall|j: int| #![trigger it5.seq()[j]] 0 <= j < it5.index@ ==> all_to(*flowgraph, inner_exit_instrs@, *it5.seq()[j]),
                        forall|j: int| #![trigger it5.seq()[j]] 0 <= j < it5.index@ ==> all_to(*flowgraph, inner_jump_exit_instrs@, *it5.seq()[j]),
//@loop 5 start
                    let ghost gi5 = *flowgraph;
                    let ghost y5 = *__r5;
                    proof { assert(__s5@.contains(*__r5)); assert(g3.instrs@.dom().contains(*__r5)); }
//@iterref 6
//@iter 6 it6
//@loop 6
                        invariant
                            gi5.wf(), same_nodes(*flowgraph, gi5), gi5.has(y5), y5 == successor, inner_exit_instrs@.subset_of(gi5.instrs@.dom()),
                            forall|j: int| #![trigger it6.seq()[j]] 0 <= j < it6.index@ ==> flowgraph.edge(*it6.seq()[j], y5),
//@loop 6 start
                        proof { assert(inner_exit_instrs@.contains(*end_of_loop_instr)); assert(gi5.instrs@.dom().contains(*end_of_loop_instr)); }
//@loop 6 after
                        proof { assert(forall|a: InstructionId| #[trigger] inner_exit_instrs@.contains(a) ==> flowgraph.edge(a, y5)); }
//@iterref 7
//@iter 7 it7
//@loop 7
                        invariant
                            gi5.wf(), same_nodes(*flowgraph, gi5), gi5.has(y5), y5 == successor, inner_jump_exit_instrs@.subset_of(gi5.instrs@.dom()),
                            forall|j: int| #![trigger it7.seq()[j]] 0 <= j < it7.index@ ==> flowgraph.edge(*it7.seq()[j], y5),
                            all_to(*flowgraph, inner_exit_instrs@, y5),
//@loop 7 start
                        proof { assert(inner_jump_exit_instrs@.contains(*jump_exit_instr)); assert(gi5.instrs@.dom().contains(*jump_exit_instr)); }
//@loop 7 after
                        proof { assert(forall|a: InstructionId| #[trigger] inner_jump_exit_instrs@.contains(a) ==> flowgraph.edge(a, y5)); }
//@loop 5 end
                    proof {
                        assert(all_to(*flowgraph, inner_exit_instrs@, y5));
                        assert forall|j: int| #![trigger it5.seq()[j]] 0 <= j < it5.index@ implies all_to(*flowgraph, inner_exit_instrs@, *it5.seq()[j]) by { assert(all_to(gi5, inner_exit_instrs@, *it5.seq()[j])); }
                        assert(all_to(*flowgraph, inner_jump_exit_instrs@, y5));
                        assert forall|j: int| #![trigger it5.seq()[j]] 0 <= j < it5.index@ implies all_to(*flowgraph, inner_jump_exit_instrs@, *it5.seq()[j]) by { assert(all_to(gi5, inner_jump_exit_instrs@, *it5.seq()[j])); }
                    }
//@loop 5 after
                proof {
                    assert(forall|c: InstructionId| #[trigger] __s5@.contains(c) ==> all_to(*flowgraph, inner_exit_instrs@, c));
                    assert(cross(*flowgraph, inner_exit_instrs@, __s5@));
                    assert(forall|c: InstructionId| #[trigger] __s5@.contains(c) ==> all_to(*flowgraph, inner_jump_exit_instrs@, c));
                    assert(cross(*flowgraph, inner_jump_exit_instrs@, __s5@));
                    lemma_loop(*flowgraph, g3, g2, g1, g0, b, inner_entry_instrs@, inner_exit_instrs@, j0, __s5@);
                }
//@after inner_jump_exit_instrs.extend(next_jump
                proof { lemma_jumps(b, inner_jump_exit_instrs@); }
//@before let (pre_handled_entry
            let ghost s = pre_handled_blocks_instrs@;
            let ghost h = handled_blocks@;
            proof {
                assert(b == *block && b is Multiple && b->pre_handled_blocks_instrs == *pre_handled_blocks_instrs && b->handled_blocks == *handled_blocks && b->Multiple_next == *next);
                assert(decreases_to!(*block => *next));
                assert(decreases_to!(*block => *handled_blocks));
                assert(ids_of(s).subset_of(ids_block(b)));
                assert(ids_blocks(h).subset_of(ids_block(b)));
                assert(distinct(s) && distinct_blocks(h) && ids_of(s).disjoint(ids_blocks(h)));
                assert(good(s) && good_blocks(h));
            }
//@after let (pre_handled_entry
            let ghost g1 = *flowgraph;
            let ghost p = pre_handled_exits@;
            proof { if s.len() > 0 { lemma_first(s); } }
//@iter 8 it8
//@loop 8 before
            proof { assert(entry_instrs@ =~= first_of(s)); assert(h.take(0).len() == 0); assert(g1.instrs@.dom().disjoint(ids_blocks(h))); }
//@loop 8
                invariant
                    b == *block, b is Multiple, b->handled_blocks == *handled_blocks, h == handled_blocks@, p == pre_handled_exits@, p.subset_of(ids_of(s)), ids_of(s).subset_of(g1.instrs@.dom()), g1.wf(),
                    decreases_to!(*block => *handled_blocks),
                    good_blocks(h), distinct_blocks(h), ids_of(s).disjoint(ids_blocks(h)), g1.instrs@.dom().disjoint(ids_blocks(h)),
                    it8.seq().len() == h.len(),
                    forall|j: int| 0 <= j < h.len() ==> *#[trigger] it8.seq()[j] == h[j],
                    with_blocks(*flowgraph, g1, h.take(it8.index@ as int)),
                    cross(*flowgraph, p, entry_blocks(h.take(it8.index@ as int))),
                    first_of(s).subset_of(entry_instrs@), entry_instrs@.subset_of(ids_of(s).union(ids_blocks(h.take(it8.index@ as int)))),
                    p.len() == 0 ==> entry_blocks(h.take(it8.index@ as int)).subset_of(entry_instrs@),
                    all_handled_exit_instrs@.subset_of(ids_blocks(h.take(it8.index@ as int))), all_handled_jump_exit_instrs@.subset_of(ids_blocks(h.take(it8.index@ as int))),
                    outs_blocks(h.take(it8.index@ as int)).subset_of(all_handled_exit_instrs@.union(all_handled_jump_exit_instrs@)),
                    all_jumps_blocks(h.take(it8.index@ as int), all_handled_jump_exit_instrs@),
//@loop 8 start
                let ghost k = it8.index@ as int;
                let ghost t0 = h.take(k);
                let ghost t1 = h.take(k + 1);
                let ghost gm = *flowgraph;
                let ghost (x0, j0) = (all_handled_exit_instrs@, all_handled_jump_exit_instrs@);
                proof {
                    assert(t1.drop_last() =~= t0);
                    assert(t1.last() == h[k]);
                    assert(t0.push(h[k]) =~= t1);
                    lemma_take_blocks(h, k + 1);
                    assert(decreases_to!(*handled_blocks => handled_blocks@[k]));
                    assert(good_block(h[k]) && distinct_block(h[k]) && ids_blocks(t0).disjoint(ids_block(h[k])));
                    assert(ids_block(h[k]).subset_of(ids_blocks(h)));
                }
//@after let (handled_entry_instrs
                let ghost gn = *flowgraph;
                let ghost (he, hx, hj) = (handled_entry_instrs@, handled_exit_instrs@, handled_jump_exit_instrs@);
                proof { assert(p.subset_of(gn.instrs@.dom())) by { assert forall|n: InstructionId| p.contains(n) implies gn.instrs@.contains_key(n) by { assert(g1.instrs@.dom().contains(n)); assert(g1.instrs@.contains_key(n)); assert(gm.instrs@.contains_key(n)); } } }
//@iterref 9
//@iter 9 it9
//@loop 9
                    invariant
                        gn.wf(), same_nodes(*flowgraph, gn), pre_handled_exits@.subset_of(gn.instrs@.dom()), handled_entry_instrs@.subset_of(gn.instrs@.dom()),
                        forall|j: int| #![trigger it9.seq()[j]] 0 <= j < it9.index@ ==> all_from(*flowgraph, *it9.seq()[j], handled_entry_instrs@),
//@loop 9 start
                    let ghost gi9 = *flowgraph;
                    let ghost a9 = *pre_handled;
                    proof { assert(pre_handled_exits@.contains(*pre_handled)); assert(gn.instrs@.dom().contains(*pre_handled)); }
//@loop 9 end
                    proof {
                        assert(all_from(*flowgraph, a9, handled_entry_instrs@));
                        assert forall|j: int| #![trigger it9.seq()[j]] 0 <= j < it9.index@ implies all_from(*flowgraph, *it9.seq()[j], handled_entry_instrs@) by { assert(all_from(gi9, *it9.seq()[j], handled_entry_instrs@)); }
                    }
//@loop 9 after
                    proof { assert(forall|a: InstructionId| #[trigger] pre_handled_exits@.contains(a) ==> all_from(*flowgraph, a, handled_entry_instrs@)); assert(cross(*flowgraph, pre_handled_exits@, handled_entry_instrs@)); }
//@iterref 10
//@iter 10 it10
//@loop 10
                        invariant
                            gi9.wf(), same_nodes(*flowgraph, gi9), gi9.has(a9), a9 == *pre_handled, handled_entry_instrs@.subset_of(gi9.instrs@.dom()),
                            forall|j: int| #![trigger it10.seq()[j]] 0 <= j < it10.index@ ==> flowgraph.edge(a9, *it10.seq()[j]),
//@loop 10 start
                        proof { assert(handled_entry_instrs@.contains(*handled_entry)); assert(gi9.instrs@.dom().contains(*handled_entry)); }
//@loop 10 after
                        proof { assert(forall|c: InstructionId| #[trigger] handled_entry_instrs@.contains(c) ==> flowgraph.edge(a9, c)); }
//@loop 8 end
                proof {
                    assert(cross(*flowgraph, p, he));
                    lemma_blocks(*flowgraph, gn, gm, g1, t0, h[k]);
                    assert forall|a: InstructionId, c: InstructionId| p.contains(a) && entry_blocks(t1).contains(c) implies #[trigger] flowgraph.edge(a, c) by {
                        if entry_blocks(t0).contains(c) { assert(gm.edge(a, c)); assert(gn.edge(a, c)); } else { assert(he.contains(c)); }
                    }
                    assert forall|t: JumpTo, n: InstructionId| #[trigger] jumps_blocks(t1, t).contains(n) implies all_handled_jump_exit_instrs@.contains(n) by { if jumps_blocks(t0, t).contains(n) {} else { assert(jumps_block(h[k], t).contains(n)); } }
                }
//@loop 8 after
            let ghost g2 = *flowgraph;
            let ghost (hx, hj) = (all_handled_exit_instrs@, all_handled_jump_exit_instrs@);
            proof {
                assert(h.take(h.len() as int) =~= h);
                if s.len() == 0 { assert(ids_of(s) =~= Set::empty()); assert(p =~= Set::empty()); }
                if next is None { assert(ids_block(b) =~= ids_of(s).union(ids_blocks(h))); lemma_multiple(g2, g2, g2, g1, g0, b, p, hx, hj, y_none); lemma_jumps(b, hj); }
            }
//@before let (next_entry_instrs##1
                proof {
                    assert(ids_block(b) =~= ids_of(s).union(ids_blocks(h)).union(ids_block(**next)));
                    assert(g2.instrs@.dom() =~= g0.instrs@.dom().union(ids_of(s)).union(ids_blocks(h)));
                    assert(g2.instrs@.dom().disjoint(ids_block(**next)));
                }
//@after let (next_entry_instrs##1
                let ghost g3 = *flowgraph;
                let ghost y = next_entry_instrs@;
                proof { assert(p.subset_of(g3.instrs@.dom())); }
//@iterref 11
//@iter 11 it11
//@loop 11
                    invariant
                        g3.wf(), same_nodes(*flowgraph, g3), pre_handled_exits@.subset_of(g3.instrs@.dom()), next_entry_instrs@.subset_of(g3.instrs@.dom()),
                        forall|j: int| #![trigger it11.seq()[j]] 0 <= j < it11.index@ ==> all_from(*flowgraph, *it11.seq()[j], next_entry_instrs@),
//@loop 11 start
                    let ghost gi11 = *flowgraph;
                    let ghost a11 = *pre_handled;
                    proof { assert(pre_handled_exits@.contains(*pre_handled)); assert(g3.instrs@.dom().contains(*pre_handled)); }
//@loop 11 end
                    proof {
                        assert(all_from(*flowgraph, a11, next_entry_instrs@));
                        assert forall|j: int| #![trigger it11.seq()[j]] 0 <= j < it11.index@ implies all_from(*flowgraph, *it11.seq()[j], next_entry_instrs@) by { assert(all_from(gi11, *it11.seq()[j], next_entry_instrs@)); }
                    }
//@loop 11 after
                    proof { assert(forall|a: InstructionId| #[trigger] pre_handled_exits@.contains(a) ==> all_from(*flowgraph, a, next_entry_instrs@)); assert(cross(*flowgraph, pre_handled_exits@, next_entry_instrs@)); }
//@iterref 12
//@iter 12 it12
//@loop 12
                        invariant
                            gi11.wf(), same_nodes(*flowgraph, gi11), gi11.has(a11), a11 == *pre_handled, next_entry_instrs@.subset_of(gi11.instrs@.dom()),
                            forall|j: int| #![trigger it12.seq()[j]] 0 <= j < it12.index@ ==> flowgraph.edge(a11, *it12.seq()[j]),
//@loop 12 start
                        proof { assert(next_entry_instrs@.contains(*next_entry)); assert(gi11.instrs@.dom().contains(*next_entry)); }
//@loop 12 after
                        proof { assert(forall|c: InstructionId| #[trigger] next_entry_instrs@.contains(c) ==> flowgraph.edge(a11, c)); }
//@loop 13 before
                let ghost g4 = *flowgraph;
                proof { assert(cross(g4, p, y)); }
//@iterval 13
//@iter 13 it13
//@loop 13
                    invariant
                        g4.wf(), same_nodes(*flowgraph, g4), __s13@.subset_of(g4.instrs@.dom()), all_handled_exit_instrs@.subset_of(g4.instrs@.dom()), all_handled_jump_exit_instrs@.subset_of(g4.instrs@.dom()),
                        forall|j: int| #![trigger it13.seq()[j]] 0 <= j < it13.index@ ==> all_to(*flowgraph, all_handled_exit_instrs@, *it13.seq()[j]),
                        forall|j: int| #![trigger it13.seq()[j]] 0 <= j < it13.index@ ==> all_to(*flowgraph, all_handled_jump_exit_instrs@, *it13.seq()[j]),
//@loop 13 start
                    let ghost gi13 = *flowgraph;
                    let ghost y13 = *__r13;
                    proof { assert(__s13@.contains(*__r13)); assert(g4.instrs@.dom().contains(*__r13)); }
//@iterref 14
//@iter 14 it14
//@loop 14
                        invariant
                            gi13.wf(), same_nodes(*flowgraph, gi13), gi13.has(y13), y13 == successor, all_handled_exit_instrs@.subset_of(gi13.instrs@.dom()),
                            forall|j: int| #![trigger it14.seq()[j]] 0 <= j < it14.index@ ==> flowgraph.edge(*it14.seq()[j], y13),
//@loop 14 start
                        proof { assert(all_handled_exit_instrs@.contains(*end_of_handled_instr)); assert(gi13.instrs@.dom().contains(*end_of_handled_instr)); }
//@loop 14 after
                        proof { assert(forall|a: InstructionId| #[trigger] all_handled_exit_instrs@.contains(a) ==> flowgraph.edge(a, y13)); }
//@iterref 15
//@iter 15 it15
//@loop 15
                        invariant
                            gi13.wf(), same_nodes(*flowgraph, gi13), gi13.has(y13), y13 == successor, all_handled_jump_exit_instrs@.subset_of(gi13.instrs@.dom()),
                            forall|j: int| #![trigger it15.seq()[j]] 0 <= j < it15.index@ ==> flowgraph.edge(*it15.seq()[j], y13),
                            all_to(*flowgraph, all_handled_exit_instrs@, y13),
//@loop 15 start
                        proof { assert(all_handled_jump_exit_instrs@.contains(*jump_exit_instr)); assert(gi13.instrs@.dom().contains(*jump_exit_instr)); }
//@loop 15 after
                        proof { assert(forall|a: InstructionId| #[trigger] all_handled_jump_exit_instrs@.contains(a) ==> flowgraph.edge(a, y13)); }
//@loop 13 end
                    proof {
                        assert(all_to(*flowgraph, all_handled_exit_instrs@, y13));
                        assert forall|j: int| #![trigger it13.seq()[j]] 0 <= j < it13.index@ implies all_to(*flowgraph, all_handled_exit_instrs@, *it13.seq()[j]) by { assert(all_to(gi13, all_handled_exit_instrs@, *it13.seq()[j])); }
                        assert(all_to(*flowgraph, all_handled_jump_exit_instrs@, y13));
                        assert forall|j: int| #![trigger it13.seq()[j]] 0 <= j < it13.index@ implies all_to(*flowgraph, all_handled_jump_exit_instrs@, *it13.seq()[j]) by { assert(all_to(gi13, all_handled_jump_exit_instrs@, *it13.seq()[j])); }
                    }
//@loop 13 after
                proof {
                    assert(forall|c: InstructionId| #[trigger] __s13@.contains(c) ==> all_to(*flowgraph, all_handled_exit_instrs@, c));
                    assert(cross(*flowgraph, all_handled_exit_instrs@, __s13@));
                    assert(forall|c: InstructionId| #[trigger] __s13@.contains(c) ==> all_to(*flowgraph, all_handled_jump_exit_instrs@, c));
                    assert(cross(*flowgraph, all_handled_jump_exit_instrs@, __s13@));
                    assert(cross(*flowgraph, p, y)) by { assert forall|a: InstructionId, c: InstructionId| p.contains(a) && y.contains(c) implies #[trigger] flowgraph.edge(a, c) by { assert(g4.edge(a, c)); } }
                    lemma_multiple(*flowgraph, g3, g2, g1, g0, b, p, hx, hj, y);
                }
//@before (block_entry_instrs, next_exit
                proof { assert(outs_block(b) == outs_block(**next)); assert(block_ends(b, block_entry_instrs@, next_exit_instrs@, jump_exit_instrs@)); }
//@before (block_entry_instrs, block_exit
                proof { assert(block_ends(b, block_entry_instrs@, block_exit_instrs@, jump_exit_instrs@)); }
//@before (inner_entry_instrs, next_exit
                proof { assert(outs_block(b) == outs_block(**next)); assert(block_ends(b, inner_entry_instrs@, next_exit_instrs@, inner_jump_exit_instrs@)); }
//@before ( inner_entry_instrs, inner_exit
                proof { assert(block_ends(b, inner_entry_instrs@, inner_exit_instrs@, inner_jump_exit_instrs@)); }
//@before ( entry_instrs, all_handled_exit
                proof { assert(block_ends(b, entry_instrs@, all_handled_exit_instrs@, all_handled_jump_exit_instrs@)); }
//@before (entry_instrs, next_exit
                proof { assert(outs_block(b) == outs_block(**next)); assert(block_ends(b, entry_instrs@, next_exit_instrs@, all_handled_jump_exit_instrs@)); }
//@after all_handled_jump_exit_instrs.extend(next_jump
                proof { lemma_jumps(b, all_handled_jump_exit_instrs@); }
//@end
/// the flow graph of a block: its instructions, at least its steps, and control enters where it enters
pub open spec fn flow_of(b: Block, g: Flowgraph) -> bool {
    &&& g.wf()
    &&& g.instrs@.dom() =~= ids_block(b)
    &&& forall|n: InstructionId| #[trigger] g.instrs@.contains_key(n) ==> occurs_block(b, g.instrs@[n])
    &&& forall|a: InstructionId, c: InstructionId| #[trigger] steps_block(b, a, c) ==> g.edge(a, c)
    &&& entry_block(b).subset_of(g.entries@) && outs_block(b).subset_of(g.exits@)
}
//@fn src/back_end/dataflow_analysis/flowgraph.rs generate_flowgraph
//@ret r
//@spec
    requires good_block(*relooper_block), distinct_block(*relooper_block),
    ensures flow_of(*relooper_block, r),
//@end
/// every instruction of structured code is structured
pub proof fn lemma_good(s: Seq<Instruction>, x: Instruction)
    requires good(s), occurs(s, x),
    ensures good_in(x),
    decreases s,
{
    if occurs(s.drop_last(), x) { lemma_good(s.drop_last(), x); } else { lemma_good_in(s.last(), x); }
}
pub proof fn lemma_good_in(i: Instruction, x: Instruction)
    requires good_in(i), occurs_in(i, x),
    ensures good_in(x),
    decreases i,
{
    match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => { if x != i { if occurs(a@, x) { lemma_good(a@, x); } else { lemma_good(b@, x); } } } _ => {} }
}
pub proof fn lemma_good_block(b: Block, x: Instruction)
    requires good_block(b), occurs_block(b, x),
    ensures good_in(x),
    decreases b,
{
    match b {
        Block::Simple { internal, next } => { if occurs(internal.instrs@, x) { lemma_good(internal.instrs@, x); } else { match next { Some(n) => lemma_good_block(*n, x), None => {} } } }
        Block::Loop { inner, next, .. } => { if occurs_block(*inner, x) { lemma_good_block(*inner, x); } else { match next { Some(n) => lemma_good_block(*n, x), None => {} } } }
        Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } => {
            if occurs(pre_handled_blocks_instrs@, x) { lemma_good(pre_handled_blocks_instrs@, x); }
            else if occurs_blocks(handled_blocks@, x) { lemma_good_blocks(handled_blocks@, x); }
            else { match next { Some(n) => lemma_good_block(*n, x), None => {} } }
        }
    }
}
pub proof fn lemma_good_blocks(s: Seq<Block>, x: Instruction)
    requires good_blocks(s), occurs_blocks(s, x),
    ensures good_in(x),
    decreases s,
{
    if occurs_blocks(s.drop_last(), x) { lemma_good_blocks(s.drop_last(), x); } else { lemma_good_block(s.last(), x); }
}
/// the flow graph of structured code has structured instructions
pub proof fn lemma_graph_good(b: Block, g: Flowgraph)
    requires good_block(b), flow_of(b, g),
    ensures structured(g), addresses_ok(g),
{
    assert forall|n: InstructionId| #[trigger] g.instrs@.contains_key(n) implies good_in(g.instrs@[n]) by { lemma_good_block(b, g.instrs@[n]); }
}
