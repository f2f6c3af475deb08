// interference
//@type src/back_end/dataflow_analysis/clash_graph.rs ClashGraph clone
pub type ClashTable = Map<VarId, HashSet<VarId>>;
pub open spec fn clash_in(t: ClashTable, a: VarId, b: VarId) -> bool { t.contains_key(a) && t[a]@.contains(b) }
impl ClashGraph {
    /// reported as interfering with each other
    pub open spec fn clash(&self, a: VarId, b: VarId) -> bool { clash_in(self.clashes@, a, b) }
    pub closed spec fn universals(&self) -> Set<VarId> { self.universal_clashes@ }
    /// reported as interfering with every other
    pub open spec fn universal(&self, v: VarId) -> bool { self.universals().contains(v) }
    pub open spec fn symmetric(&self) -> bool { forall|a: VarId, b: VarId| #[trigger] clash_in(self.clashes@, a, b) ==> clash_in(self.clashes@, b, a) }
    /// nothing was lost
    pub open spec fn extends(&self, o: ClashGraph) -> bool {
        &&& forall|a: VarId, b: VarId| #[trigger] clash_in(o.clashes@, a, b) ==> clash_in(self.clashes@, a, b)
        &&& forall|a: VarId| o.clashes@.contains_key(a) ==> #[trigger] self.clashes@.contains_key(a)
        &&& forall|a: VarId| #[trigger] o.universal(a) ==> self.universal(a)
    }
}
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::new
//@ret r
//@spec
    ensures r.symmetric(), forall|a: VarId, b: VarId| !#[trigger] clash_in(r.clashes@, a, b), forall|a: VarId| !#[trigger] r.universal(a),
//@end
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::add_var
//@spec
    ensures
        forall|a: VarId, b: VarId| #[trigger] clash_in(final(self).clashes@, a, b) == clash_in(old(self).clashes@, a, b),
        forall|a: VarId| #[trigger] final(self).clashes@.contains_key(a) == (old(self).clashes@.contains_key(a) || a == var),
        final(self).universals() == old(self).universals(),
//@end
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::add_clash
//@spec
    ensures
        forall|a: VarId, b: VarId| #[trigger] clash_in(final(self).clashes@, a, b) == (clash_in(old(self).clashes@, a, b) || a == var1 && b == var2 || a == var2 && b == var1),
        forall|a: VarId| #[trigger] final(self).clashes@.contains_key(a) == (old(self).clashes@.contains_key(a) || a == var1 || a == var2),
        final(self).universals() == old(self).universals(),
//@after self.clashes.get_mut(&var1)
        let ghost t2 = self.clashes@;
//@before self.clashes.get_mut(&var1)
        let ghost t1 = self.clashes@;
//@before self.clashes.get_mut(&var2)
        let ghost t3 = self.clashes@;
//@end_
        proof {
            assert forall|a: VarId, b: VarId| #[trigger] clash_in(self.clashes@, a, b) == (clash_in(old(self).clashes@, a, b) || a == var1 && b == var2 || a == var2 && b == var1) by {
                assert(clash_in(t1, a, b) == clash_in(old(self).clashes@, a, b));
                assert(clash_in(t2, a, b) == (clash_in(t1, a, b) || a == var1 && b == var2));
                assert(clash_in(t3, a, b) == clash_in(t2, a, b));
            }
        }
//@end
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::add_universal_clash
//@spec
    ensures final(self).clashes == old(self).clashes, forall|a: VarId| #[trigger] final(self).universal(a) == (old(self).universal(a) || a == var),
//@end
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::does_var_clash_universally
//@ret r
//@spec
    ensures r == self.universal(*var),
//@end
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::do_vars_clash
//@ret r
//@spec
    ensures r == (self.universal(*var1) || self.universal(*var2) || !self.clashes@.contains_key(*var1) || self.clash(*var1, *var2)),
//@end
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::get_all_clashes
//@ret r
//@spec
    ensures forall|b: VarId| #[trigger] r@.contains(b) == clash_in(self.clashes@, *var, b),
//@end
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::count_clashes
//@ret r
//@spec
    ensures self.universal(*var) ==> r == usize::MAX, !self.universal(*var) && !self.clashes@.contains_key(*var) ==> r == 0, !self.universal(*var) && self.clashes@.contains_key(*var) ==> r == self.clashes@[*var]@.len(),
//@end
/// both live before one instruction
pub open spec fn live_pair(t: LiveTable, n: InstructionId, a: VarId, b: VarId) -> bool { a != b && live_at(t, n, a) && live_at(t, n, b) }
/// a is assigned by n while b is live right after it
pub open spec fn assigned_over(g: Flowgraph, t: LiveTable, n: InstructionId, s: InstructionId, a: VarId, b: VarId) -> bool { a != b && g.edge(n, s) && defs(g.instrs@[n]).contains(a) && live_at(t, s, b) }
pub open spec fn pairs_clash(c: ClashGraph, t: LiveTable) -> bool { forall|n: InstructionId, a: VarId, b: VarId| #[trigger] live_pair(t, n, a, b) ==> c.clash(a, b) }
pub open spec fn assigned_clash(c: ClashGraph, g: Flowgraph, t: LiveTable) -> bool { forall|n: InstructionId, s: InstructionId, a: VarId, b: VarId| #[trigger] assigned_over(g, t, n, s, a, b) ==> c.clash(a, b) }
pub open spec fn addresses_clash(c: ClashGraph, g: Flowgraph) -> bool { forall|n: InstructionId| #![trigger g.instrs@.contains_key(n)] g.has(n) ==> match address_of(g.instrs@[n]) { Some(v) => c.universal(v), None => true } }
/// every two variables that must not share memory are reported
pub open spec fn interference(c: ClashGraph, g: Flowgraph, t: LiveTable) -> bool { c.symmetric() && pairs_clash(c, t) && assigned_clash(c, g, t) && addresses_clash(c, g) }
pub open spec fn set_clash(c: ClashGraph, s: Set<VarId>) -> bool { forall|a: VarId, b: VarId| #![trigger s.contains(a), s.contains(b)] s.contains(a) && s.contains(b) && a != b ==> c.clash(a, b) }
pub open spec fn in_vec(v: Seq<&VarId>, x: VarId) -> bool { exists|j: int| 0 <= j < v.len() && *#[trigger] v[j] == x }
pub open spec fn rest_clash(c: ClashGraph, s: Set<VarId>, v: Seq<&VarId>) -> bool { forall|a: VarId, b: VarId| #![trigger s.contains(a), s.contains(b)] s.contains(a) && s.contains(b) && a != b ==> c.clash(a, b) || in_vec(v, a) && in_vec(v, b) }
//@fn src/back_end/dataflow_analysis/clash_graph.rs insert_universal_clashes_for_address_taken_vars
//@spec
    requires addresses_ok(*flowgraph),
    ensures final(clash_graph).clashes == old(clash_graph).clashes, addresses_clash(*final(clash_graph), *flowgraph),
//@iter 0 it
//@loop 0
    invariant
        addresses_ok(*flowgraph), clash_graph.clashes == old(clash_graph).clashes,
        forall|j: int| 0 <= j < it.index@ ==> match address_of(*#[trigger] it.seq()[j]) { Some(v) => clash_graph.universal(v), None => true },
//@loop 0 start
        proof { assert(flowgraph.instrs@.values().contains(*instr)); }
//@loop 0 after
    proof {
        assert forall|n: InstructionId| #[trigger] flowgraph.instrs@.contains_key(n) implies match address_of(flowgraph.instrs@[n]) { Some(v) => clash_graph.universal(v), None => true } by { assert(flowgraph.instrs@.values().contains(flowgraph.instrs@[n])); }
    }
//@end
pub open spec fn succ_done(c: ClashGraph, t: LiveTable, s: InstructionId, a: VarId) -> bool { forall|b: VarId| #[trigger] live_at(t, s, b) && b != a ==> c.clash(a, b) }
pub open spec fn def_done(c: ClashGraph, g: Flowgraph, t: LiveTable, n: InstructionId, a: VarId) -> bool { forall|s: InstructionId| #[trigger] g.edge(n, s) ==> succ_done(c, t, s, a) }
pub open spec fn done_with(c: ClashGraph, g: Flowgraph, t: LiveTable, n: InstructionId) -> bool { forall|a: VarId| #[trigger] defs(g.instrs@[n]).contains(a) ==> def_done(c, g, t, n, a) }
/// a set of fewer than two elements has no two different ones
pub proof fn lemma_small(s: Set<VarId>, a: VarId, b: VarId)
    requires s.finite(), s.len() < 2, s.contains(a), s.contains(b),
    ensures a == b,
{
    if a != b { assert(s.remove(a).contains(b)); assert(s.remove(a).len() == 0 ==> s.remove(a) =~= Set::empty()); }
}
//@fn src/back_end/dataflow_analysis/clash_graph.rs generate_clash_graph
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires good_block(*block), distinct_block(*block),
    ensures exists|g: Flowgraph, t: LiveTable| flow_of(*block, g) && is_liveness(g, t) && #[trigger] interference(r, g, t),
//@iter 0 it
//@iterref 1
//@iterref 3
//@iter 3 it3
//@iterref 4
//@iter 4 it4
//@iterval 5
//@iter 5 it5
//@iterref 6
//@iter 6 it6
//@iterref 7
//@iter 7 it7
//@before let live_vars
    proof { lemma_graph_good(*block, flowgraph); }
//@loop 0 before
    let ghost t = live_vars@;
//@loop 0
    invariant
        t == live_vars@, clash_graph.symmetric(),
        forall|j: int| 0 <= j < it.index@ ==> set_clash(clash_graph, (*#[trigger] it.seq()[j])@),
//@loop 0 start
        let ghost c0 = clash_graph;
        let ghost sv = simultaneously_live_vars@;
//@loop 1
                invariant clash_graph.symmetric(), clash_graph.extends(c0),
//@loop 1 after
            proof {
                assert forall|a: VarId, b: VarId| sv.contains(a) && sv.contains(b) && a != b implies clash_graph.clash(a, b) by { lemma_small(sv, a, b); }
                assert forall|j: int| 0 <= j < it.index@ implies set_clash(clash_graph, (*#[trigger] it.seq()[j])@) by { assert(set_clash(c0, (*it.seq()[j])@)); }
            }
//@loop 2 before
        proof { assert forall|a: VarId| #[trigger] sv.contains(a) implies in_vec(simultaneously_live_vars_vec@, a) by { assert(exists|j: int| 0 <= j < simultaneously_live_vars_vec@.len() && *#[trigger] simultaneously_live_vars_vec@[j] == a); } }
//@loop 2
            invariant
                clash_graph.symmetric(), clash_graph.extends(c0), rest_clash(clash_graph, sv, simultaneously_live_vars_vec@),
            ensures simultaneously_live_vars_vec@.len() == 0,
            decreases simultaneously_live_vars_vec@.len(),
//@loop 2 start
            let ghost c1 = clash_graph;
            let ghost v0 = simultaneously_live_vars_vec@.push(var);
            proof { assert(exists|o: Seq<&VarId>| #[trigger] rest_clash(c1, sv, o) && v0 =~= o); }
//@loop 3
                invariant
                    clash_graph.symmetric(), clash_graph.extends(c0), clash_graph.extends(c1),
                    it3.seq().len() == simultaneously_live_vars_vec@.len(),
                    forall|j: int| 0 <= j < it3.index@ ==> clash_graph.clash(*var, *#[trigger] simultaneously_live_vars_vec@[j]),
                    forall|j: int| 0 <= j < simultaneously_live_vars_vec@.len() ==> *#[trigger] it3.seq()[j] == simultaneously_live_vars_vec@[j],
//@loop 3 after
            proof {
                assert forall|a: VarId, b: VarId| sv.contains(a) && sv.contains(b) && a != b implies clash_graph.clash(a, b) || in_vec(simultaneously_live_vars_vec@, a) && in_vec(simultaneously_live_vars_vec@, b) by {
                    if !c1.clash(a, b) {
                        assert(in_vec(v0, a) && in_vec(v0, b));
                        let ja = choose|j: int| 0 <= j < v0.len() && *#[trigger] v0[j] == a;
                        let jb = choose|j: int| 0 <= j < v0.len() && *#[trigger] v0[j] == b;
                        if ja == v0.len() - 1 && jb < v0.len() - 1 { assert(clash_graph.clash(*var, *simultaneously_live_vars_vec@[jb])); }
                        if jb == v0.len() - 1 && ja < v0.len() - 1 { assert(clash_graph.clash(*var, *simultaneously_live_vars_vec@[ja])); }
                        if ja < v0.len() - 1 { assert(*simultaneously_live_vars_vec@[ja] == a); }
                        if jb < v0.len() - 1 { assert(*simultaneously_live_vars_vec@[jb] == b); }
                    }
                }
            }
//@loop 0 end
        proof {
            assert(set_clash(clash_graph, sv));
            assert forall|j: int| 0 <= j < it.index@ implies set_clash(clash_graph, (*#[trigger] it.seq()[j])@) by { assert(set_clash(c0, (*it.seq()[j])@)); }
        }
//@loop 0 after
    proof {
        assert forall|n: InstructionId| #[trigger] t.contains_key(n) implies set_clash(clash_graph, t[n]@) by { assert(t.values().contains(t[n])); }
        assert(pairs_clash(clash_graph, t));
    }
//@loop 4
        invariant
            flowgraph.wf(), t == live_vars@, is_liveness(flowgraph, t),
            clash_graph.symmetric(), pairs_clash(clash_graph, t),
            forall|j: int| #![trigger it4.seq()[j]] 0 <= j < it4.index@ ==> done_with(clash_graph, flowgraph, t, *it4.seq()[j].0),
//@loop 4 start
        let ghost n = *instr_id;
        let ghost c0 = clash_graph;
        proof { assert(flowgraph.instrs@.contains_key(*instr_id)); assert(flowgraph.instrs@[n] == *instr); }
//@loop 5
            invariant
                flowgraph.wf(), t == live_vars@, is_liveness(flowgraph, t), flowgraph.has(n), n == *instr_id,
                __s5@ =~= defs(*instr),
                clash_graph.symmetric(), clash_graph.extends(c0),
                forall|j: int| #![trigger it5.seq()[j]] 0 <= j < it5.index@ ==> def_done(clash_graph, flowgraph, t, n, *it5.seq()[j]),
//@loop 5 start
            let ghost c1 = clash_graph;
            let ghost a = def_var;
            proof { assert(__s5@.contains(def_var)); }
//@loop 6
                invariant
                    flowgraph.wf(), t == live_vars@, is_liveness(flowgraph, t), flowgraph.has(n), n == *instr_id, a == def_var, *__s6 == flowgraph.successors@[n],
                    clash_graph.symmetric(), clash_graph.extends(c0), clash_graph.extends(c1),
                    forall|j: int| #![trigger it6.seq()[j]] 0 <= j < it6.index@ ==> succ_done(clash_graph, t, *it6.seq()[j], a),
//@loop 6 start
                let ghost c2 = clash_graph;
                let ghost s = *successor;
                proof { assert(__s6@.contains(*successor)); assert(flowgraph.edge(n, *successor)); assert(flowgraph.has(s)); assert(t.contains_key(s)); }
//@loop 7
                    invariant
                        t == live_vars@, a == def_var, t.contains_key(s), *__s7 == t[s],
                        clash_graph.symmetric(), clash_graph.extends(c0), clash_graph.extends(c1), clash_graph.extends(c2),
                        forall|j: int| #![trigger it7.seq()[j]] 0 <= j < it7.index@ ==> *it7.seq()[j] == a || clash_graph.clash(a, *it7.seq()[j]),
//@loop 7 start
                    let ghost c3 = clash_graph;
//@loop 7 after
                proof {
                    assert(forall|v: VarId| #[trigger] __s7@.contains(v) ==> v == a || clash_graph.clash(a, v));
                    assert(succ_done(clash_graph, t, s, a));
                }
//@loop 6 after
            proof {
                assert(forall|s: InstructionId| #[trigger] __s6@.contains(s) ==> succ_done(clash_graph, t, s, a));
                assert(def_done(clash_graph, flowgraph, t, n, a)) by {
                    assert forall|s: InstructionId| #[trigger] flowgraph.edge(n, s) implies succ_done(clash_graph, t, s, a) by { assert(__s6@.contains(s)); }
                }
            }
//@loop 5 after
        proof {
            assert(forall|a: VarId| #[trigger] __s5@.contains(a) ==> def_done(clash_graph, flowgraph, t, n, a));
            assert(done_with(clash_graph, flowgraph, t, n)) by {
                assert forall|a: VarId| #[trigger] defs(flowgraph.instrs@[n]).contains(a) implies def_done(clash_graph, flowgraph, t, n, a) by { assert(__s5@.contains(a)); }
            }
            assert(pairs_clash(clash_graph, t)) by { assert(clash_graph.extends(c0)); }
        }
//@loop 4 after
    proof {
        assert(forall|n: InstructionId| #[trigger] flowgraph.instrs@.contains_key(n) ==> done_with(clash_graph, flowgraph, t, n));
        assert(assigned_clash(clash_graph, flowgraph, t)) by {
            assert forall|n: InstructionId, s: InstructionId, a: VarId, b: VarId| #[trigger] assigned_over(flowgraph, t, n, s, a, b) implies clash_graph.clash(a, b) by {
                assert(flowgraph.instrs@.contains_key(n));
                assert(def_done(clash_graph, flowgraph, t, n, a));
                assert(succ_done(clash_graph, t, s, a));
            }
        }
    }
//@end_
    proof { assert(interference(clash_graph, flowgraph, t)); }
//@end
