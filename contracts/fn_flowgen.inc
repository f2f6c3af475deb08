// the flow graph of structured code: every step control can take is an edge
pub enum JumpTo { Break(LoopBlockId), Continue(LoopBlockId), End(MultipleBlockId) }
/// the construct that a jump names
pub open spec fn jump_of(i: Instruction) -> Option<JumpTo> {
    match i { Instruction::Break(_, l) => Some(JumpTo::Break(l)), Instruction::Continue(_, l) => Some(JumpTo::Continue(l)), Instruction::EndHandledBlock(_, m) => Some(JumpTo::End(m)), _ => None }
}
/// control does not go on to what follows in the list
pub open spec fn leaves(i: Instruction) -> bool { jump_of(i) is Some || i is Ret || i is TailCall }
/// the variable whose address an instruction takes
pub open spec fn address_of(i: Instruction) -> Option<VarId> { match i { Instruction::AddressOf(_, _, Src::Var(v)) | Instruction::AddressOf(_, _, Src::StoreAddressVar(v)) => Some(v), _ => None } }
/// structured branches only
pub open spec fn structured(g: Flowgraph) -> bool { forall|n: InstructionId| #[trigger] g.instrs@.contains_key(n) ==> !unstructured(g.instrs@[n]) }
/// addresses are taken of variables
pub open spec fn addresses_ok(g: Flowgraph) -> bool { forall|n: InstructionId| #[trigger] g.instrs@.contains_key(n) ==> (g.instrs@[n] is AddressOf ==> address_of(g.instrs@[n]) is Some) }
pub open spec fn branch_of(i: Instruction, k: int) -> Seq<Instruction> {
    match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => if k == 0 { a@ } else { b@ }, _ => seq![] }
}
pub open spec fn branches(i: Instruction) -> bool { i is IfEqElse || i is IfNotEqElse }
/// the instructions of a list, those in its branches included
pub open spec fn ids_of(s: Seq<Instruction>) -> Set<InstructionId> decreases s { if s.len() == 0 { Set::empty() } else { ids_of(s.drop_last()).union(ids_in(s.last())) } }
pub open spec fn ids_in(i: Instruction) -> Set<InstructionId> decreases i { match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => ids_of(a@).union(ids_of(b@)).insert(i.id()), _ => set![i.id()] } }
pub open spec fn occurs(s: Seq<Instruction>, x: Instruction) -> bool decreases s { s.len() > 0 && (occurs(s.drop_last(), x) || occurs_in(s.last(), x)) }
pub open spec fn occurs_in(i: Instruction, x: Instruction) -> bool decreases i { x == i || match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => occurs(a@, x) || occurs(b@, x), _ => false } }
/// no identity is used twice
pub open spec fn distinct(s: Seq<Instruction>) -> bool decreases s { s.len() > 0 ==> distinct(s.drop_last()) && distinct_in(s.last()) && ids_of(s.drop_last()).disjoint(ids_in(s.last())) }
pub open spec fn distinct_in(i: Instruction) -> bool decreases i {
    match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => distinct(a@) && distinct(b@) && ids_of(a@).disjoint(ids_of(b@)) && !ids_of(a@).contains(i.id()) && !ids_of(b@).contains(i.id()), _ => true }
}
/// structured, and addresses are taken of variables
pub open spec fn good(s: Seq<Instruction>) -> bool decreases s { s.len() > 0 ==> good(s.drop_last()) && good_in(s.last()) }
pub open spec fn good_in(i: Instruction) -> bool decreases i {
    !unstructured(i) && (i is AddressOf ==> address_of(i) is Some) && match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => good(a@) && good(b@), _ => true }
}
/// the instructions after which control goes on to what follows
pub open spec fn outs(s: Seq<Instruction>) -> Set<InstructionId> decreases s { if s.len() == 0 { Set::empty() } else { outs_in(s.last()) } }
pub open spec fn outs_in(i: Instruction) -> Set<InstructionId> decreases i {
    match i {
        Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) =>
            (if a@.len() == 0 { set![i.id()] } else { outs(a@) }).union(if b@.len() == 0 { set![i.id()] } else { outs(b@) }),
        _ => if leaves(i) { Set::empty() } else { set![i.id()] },
    }
}
/// the jumps to t
pub open spec fn jumps(s: Seq<Instruction>, t: JumpTo) -> Set<InstructionId> decreases s { if s.len() == 0 { Set::empty() } else { jumps(s.drop_last(), t).union(jumps_in(s.last(), t)) } }
pub open spec fn jumps_in(i: Instruction, t: JumpTo) -> Set<InstructionId> decreases i {
    match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => jumps(a@, t).union(jumps(b@, t)), _ => if jump_of(i) == Some(t) { set![i.id()] } else { Set::empty() } }
}
pub open spec fn all_jumps(s: Seq<Instruction>, x: Set<InstructionId>) -> bool { forall|t: JumpTo, n: InstructionId| #[trigger] jumps(s, t).contains(n) ==> x.contains(n) }
pub open spec fn all_jumps_in(i: Instruction, x: Set<InstructionId>) -> bool { forall|t: JumpTo, n: InstructionId| #[trigger] jumps_in(i, t).contains(n) ==> x.contains(n) }
pub open spec fn starts(s: Seq<Instruction>, n: InstructionId) -> bool { s.len() > 0 && s[0].id() == n }
/// control can go straight from a to b
pub open spec fn steps(s: Seq<Instruction>, a: InstructionId, b: InstructionId) -> bool decreases s {
    s.len() > 0 && (steps(s.drop_last(), a, b) || steps_in(s.last(), a, b) || outs(s.drop_last()).contains(a) && b == s.last().id())
}
pub open spec fn steps_in(i: Instruction, a: InstructionId, b: InstructionId) -> bool decreases i {
    match i {
        Instruction::IfEqElse(_, _, _, x, y) | Instruction::IfNotEqElse(_, _, _, x, y) => steps(x@, a, b) || steps(y@, a, b) || a == i.id() && (starts(x@, b) || starts(y@, b)),
        _ => false,
    }
}
/// the graph before is a part of the graph
pub open spec fn grown(g: Flowgraph, o: Flowgraph) -> bool {
    &&& g.wf()
    &&& forall|n: InstructionId| #[trigger] o.instrs@.contains_key(n) ==> g.instrs@.contains_key(n) && g.instrs@[n] == o.instrs@[n]
    &&& forall|a: InstructionId, b: InstructionId| #[trigger] o.edge(a, b) ==> g.edge(a, b)
}
/// g is o with exactly the instructions of s and all its steps
pub open spec fn with_list(g: Flowgraph, o: Flowgraph, s: Seq<Instruction>) -> bool {
    &&& grown(g, o)
    &&& g.instrs@.dom() =~= o.instrs@.dom().union(ids_of(s))
    &&& forall|n: InstructionId| #[trigger] ids_of(s).contains(n) ==> occurs(s, g.instrs@[n])
    &&& forall|a: InstructionId, b: InstructionId| #[trigger] steps(s, a, b) ==> g.edge(a, b)
}
pub open spec fn all_to(g: Flowgraph, x: Set<InstructionId>, b: InstructionId) -> bool { forall|a: InstructionId| #[trigger] x.contains(a) ==> g.edge(a, b) }
pub open spec fn same_nodes(g: Flowgraph, o: Flowgraph) -> bool { grown(g, o) && g.instrs == o.instrs && g.entries == o.entries && g.exits == o.exits }
/// g is o with exactly the instruction i, what is in it, and its steps
pub open spec fn with_one(g: Flowgraph, o: Flowgraph, i: Instruction) -> bool {
    &&& grown(g, o)
    &&& g.instrs@.dom() =~= o.instrs@.dom().union(ids_in(i))
    &&& forall|n: InstructionId| #[trigger] ids_in(i).contains(n) ==> occurs_in(i, g.instrs@[n])
    &&& forall|a: InstructionId, b: InstructionId| #[trigger] steps_in(i, a, b) ==> g.edge(a, b)
}
pub proof fn lemma_grown_trans(g: Flowgraph, m: Flowgraph, o: Flowgraph)
    requires grown(g, m), grown(m, o),
    ensures grown(g, o),
{}
pub proof fn lemma_take(s: Seq<Instruction>, k: int)
    requires 0 <= k <= s.len(),
    ensures ids_of(s.take(k)).subset_of(ids_of(s)), good(s) ==> good(s.take(k)), distinct(s) ==> distinct(s.take(k)),
    decreases s.len(),
{
    if k == s.len() { assert(s.take(k) =~= s); } else { lemma_take(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); }
}
pub proof fn lemma_append(g: Flowgraph, m: Flowgraph, o: Flowgraph, t0: Seq<Instruction>, i: Instruction, prev: Set<InstructionId>)
    requires with_list(m, o, t0), with_one(g, m, i), outs(t0).subset_of(prev), all_to(g, prev, i.id()), ids_of(t0).disjoint(ids_in(i)),
    ensures with_list(g, o, t0.push(i)),
{
    let t1 = t0.push(i);
    assert(t1.drop_last() =~= t0);
    assert forall|n: InstructionId| #[trigger] ids_of(t1).contains(n) implies occurs(t1, g.instrs@[n]) by {
        if ids_of(t0).contains(n) { assert(m.instrs@.contains_key(n)); assert(g.instrs@[n] == m.instrs@[n]); assert(occurs(t0, m.instrs@[n])); } else { assert(ids_in(i).contains(n)); }
    }
    assert forall|a: InstructionId, b: InstructionId| #[trigger] steps(t1, a, b) implies g.edge(a, b) by {
        if steps(t0, a, b) { assert(m.edge(a, b)); } else if steps_in(i, a, b) {} else { assert(prev.contains(a)); }
    }
}
pub proof fn lemma_first(s: Seq<Instruction>)
    requires s.len() > 0,
    ensures ids_of(s).contains(s[0].id()),
    decreases s.len(),
{
    assert(ids_in(s.last()).contains(s.last().id()));
    if s.len() > 1 { lemma_first(s.drop_last()); assert(s.drop_last()[0] == s[0]); }
}
/// a conditional: its own node, then both branches
pub proof fn lemma_branches(g: Flowgraph, g2: Flowgraph, g1: Flowgraph, gc: Flowgraph, o: Flowgraph, i: Instruction)
    requires
        branches(i), distinct_in(i), grown(gc, o), gc.instrs@ == o.instrs@.insert(i.id(), i), !o.has(i.id()),
        with_list(g1, gc, branch_of(i, 0)), with_list(g2, g1, branch_of(i, 1)), same_nodes(g, g2),
        forall|b: InstructionId| starts(branch_of(i, 0), b) || starts(branch_of(i, 1), b) ==> #[trigger] g.edge(i.id(), b),
    ensures with_one(g, o, i),
{
    let (x, y) = (branch_of(i, 0), branch_of(i, 1));
    assert(ids_in(i) =~= ids_of(x).union(ids_of(y)).insert(i.id()));
    assert forall|n: InstructionId| #[trigger] ids_in(i).contains(n) implies occurs_in(i, g.instrs@[n]) by {
        if n == i.id() { assert(gc.instrs@.contains_key(n) && g1.instrs@.contains_key(n) && g2.instrs@.contains_key(n)); assert(g.instrs@[n] == i); }
        else if ids_of(x).contains(n) { assert(g1.instrs@.contains_key(n)); assert(g2.instrs@[n] == g1.instrs@[n]); assert(occurs(x, g1.instrs@[n])); }
        else { assert(ids_of(y).contains(n)); assert(occurs(y, g2.instrs@[n])); }
    }
    assert forall|a: InstructionId, b: InstructionId| #[trigger] steps_in(i, a, b) implies g.edge(a, b) by {
        if steps(x, a, b) { assert(g1.edge(a, b)); assert(g2.edge(a, b)); } else if steps(y, a, b) { assert(g2.edge(a, b)); }
    }
    assert forall|n: InstructionId| #[trigger] o.instrs@.contains_key(n) implies g.instrs@.contains_key(n) && g.instrs@[n] == o.instrs@[n] by {
        assert(n != i.id()); assert(gc.instrs@.contains_key(n)); assert(g1.instrs@.contains_key(n)); assert(g2.instrs@.contains_key(n));
    }
}
//@fn src/back_end/dataflow_analysis/flowgraph.rs add_instrs_to_flowgraph
//@ret r
//@spec
    requires old(flowgraph).wf(), good(instrs@), distinct(instrs@), old(flowgraph).instrs@.dom().disjoint(ids_of(instrs@)),
    ensures
        with_list(*final(flowgraph), *old(flowgraph), instrs@),
        r.0 == (if instrs@.len() == 0 { None } else { Some(instrs@[0].id()) }),
        outs(instrs@).subset_of(r.1@), r.1@.subset_of(ids_of(instrs@)), r.2@.subset_of(ids_of(instrs@)),
        all_jumps(instrs@, r.2@),
    decreases instrs,
//@iterref 1
//@iter 1 it1
//@iterref 2
//@iter 2 it2
//@iterref 3
//@iter 3 it3
//@start
    let ghost g0 = *flowgraph;
    let ghost s = instrs@;
//@loop 0
    invariant
        s == instrs@, g0.wf(), good(s), distinct(s), g0.instrs@.dom().disjoint(ids_of(s)),
        with_list(*flowgraph, g0, s.take(i as int)),
        entry_instr == (if i == 0 { None } else { Some(s[0].id()) }),
        outs(s.take(i as int)).subset_of(prev_instrs@), prev_instrs@.subset_of(ids_of(s.take(i as int))),
        i > 0 && i == s.len() ==> outs(s).subset_of(exit_instrs@),
        exit_instrs@.subset_of(ids_of(s.take(i as int))), jump_exit_instrs@.subset_of(ids_of(s.take(i as int))),
        all_jumps(s.take(i as int), jump_exit_instrs@),
//@loop 0 start
        let ghost t0 = s.take(i as int);
        let ghost t1 = s.take(i + 1);
        let ghost ga = *flowgraph;
        let ghost prev0 = prev_instrs@;
        proof {
            assert(t1.drop_last() =~= t0);
            assert(t1.last() == s[i as int]);
            lemma_take(s, i + 1);
            assert(decreases_to!(*instrs => instrs@[i as int]));
            assert(good_in(s[i as int]) && distinct_in(s[i as int]) && ids_of(t0).disjoint(ids_in(s[i as int])));
        }
//@before flowgraph.add_instr(
        proof {
            assert(ids_in(*instr).contains(instr.id()));
            assert(ids_of(t1).contains(instr.id()));
            assert(!ga.instrs@.contains_key(instr.id()));
        }
//@after flowgraph.add_instr(
        let ghost gb = *flowgraph;
        proof {
            assert(grown(gb, ga));
            assert(prev_instrs@.subset_of(gb.instrs@.dom()));
        }
//@loop 1
                invariant
                    gb.wf(), gb.has(instr_id), same_nodes(*flowgraph, gb), prev_instrs@.subset_of(gb.instrs@.dom()),
                    forall|j: int| #![trigger it1.seq()[j]] 0 <= j < it1.index@ ==> flowgraph.edge(*it1.seq()[j], instr_id),
//@loop 1 start
                    proof { assert(prev_instrs@.contains(*prev_instr_id)); assert(gb.instrs@.dom().contains(*prev_instr_id)); }
//@loop 1 after
                proof { assert(forall|a: InstructionId| #[trigger] prev_instrs@.contains(a) ==> flowgraph.edge(a, instr_id)); assert(all_to(*flowgraph, prev0, instr_id)); }
//@loop 2
                invariant
                    gb.wf(), gb.has(instr_id), same_nodes(*flowgraph, gb), prev_instrs@.subset_of(gb.instrs@.dom()),
                    forall|j: int| #![trigger it2.seq()[j]] 0 <= j < it2.index@ ==> flowgraph.edge(*it2.seq()[j], instr_id),
//@loop 2 start
                    proof { assert(prev_instrs@.contains(*prev_instr_id)); assert(gb.instrs@.dom().contains(*prev_instr_id)); }
//@loop 2 after
                proof { assert(forall|a: InstructionId| #[trigger] prev_instrs@.contains(a) ==> flowgraph.edge(a, instr_id)); assert(all_to(*flowgraph, prev0, instr_id)); }
//@loop 3
                invariant
                    gb.wf(), gb.has(instr_id), same_nodes(*flowgraph, gb), prev_instrs@.subset_of(gb.instrs@.dom()),
                    forall|j: int| #![trigger it3.seq()[j]] 0 <= j < it3.index@ ==> flowgraph.edge(*it3.seq()[j], instr_id),
//@loop 3 start
                    proof { assert(prev_instrs@.contains(*prev_instr_id)); assert(gb.instrs@.dom().contains(*prev_instr_id)); }
//@loop 3 after
                proof { assert(forall|a: InstructionId| #[trigger] prev_instrs@.contains(a) ==> flowgraph.edge(a, instr_id)); assert(all_to(*flowgraph, prev0, instr_id)); }
//@before let (instrs1_entry
                let ghost gc = *flowgraph;
                proof {
                    assert(decreases_to!(*instr => *instrs1));
                    assert(decreases_to!(*instr => *instrs2));
                    assert(instrs1@ == branch_of(*instr, 0) && instrs2@ == branch_of(*instr, 1));
                    assert(ids_in(*instr) =~= ids_of(instrs1@).union(ids_of(instrs2@)).insert(instr_id));
                    assert(ids_of(t1) =~= ids_of(t0).union(ids_in(*instr)));
                    assert(gc.instrs@.dom() =~= g0.instrs@.dom().union(ids_of(t0)).insert(instr_id));
                    assert(gc.instrs@.dom().disjoint(ids_of(instrs1@)));
                }
//@after let (instrs1_entry
                let ghost gd = *flowgraph;
//@after let (instrs2_entry
                let ghost ge = *flowgraph;
                proof {
                    assert(ge.has(instr_id)) by { assert(gc.instrs@.contains_key(instr_id)); assert(gd.instrs@.contains_key(instr_id)); }
                    if instrs1@.len() > 0 { lemma_first(instrs1@); assert(gd.instrs@.dom().contains(instrs1@[0].id())); assert(gd.instrs@.contains_key(instrs1@[0].id())); }
                    if instrs2@.len() > 0 { lemma_first(instrs2@); assert(ge.instrs@.dom().contains(instrs2@[0].id())); }
                }
//@before prev_instrs.clear();##1
                proof {
                    lemma_branches(*flowgraph, ge, gd, gc, ga, *instr);
                    assert(all_to(*flowgraph, prev0, instr_id)) by {
                        assert forall|a: InstructionId| #[trigger] prev0.contains(a) implies flowgraph.edge(a, instr_id) by { assert(gc.edge(a, instr_id)); assert(gd.edge(a, instr_id)); assert(ge.edge(a, instr_id)); }
                    }
                }
//@after jump_exit_instrs.extend(instrs2
                proof {
                    assert forall|t: JumpTo, n: InstructionId| #[trigger] jumps_in(*instr, t).contains(n) implies jump_exit_instrs@.contains(n) by { assert(jumps(instrs1@, t).contains(n) || jumps(instrs2@, t).contains(n)); }
                }
//@loop 0 end
        proof {
            assert(all_jumps_in(*instr, jump_exit_instrs@));
            assert forall|t: JumpTo, n: InstructionId| #[trigger] jumps(t1, t).contains(n) implies jump_exit_instrs@.contains(n) by { assert(jumps(t0, t).contains(n) || jumps_in(*instr, t).contains(n)); }
            assert(with_one(*flowgraph, ga, *instr));
            assert(t0.push(*instr) =~= t1);
            lemma_append(*flowgraph, ga, g0, t0, *instr, prev0);
            if i + 1 == s.len() { assert(t1 =~= s); }
        }
//@loop 0 after
    proof { assert(s.take(s.len() as int) =~= s); }
//@end
