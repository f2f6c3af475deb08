//@fn src/middle_end/instructions.rs Src::unwrap_var
//@ret r
//@spec
    ensures match *self { Src::Var(v) => r is Ok && r->Ok_0 == v, Src::StoreAddressVar(v) => r is Ok && r->Ok_0 == v, _ => r is Err },
//@end
// flow graphs
//@type src/back_end/dataflow_analysis/flowgraph.rs Flowgraph
pub open spec fn edge_in(t: Map<InstructionId, HashSet<InstructionId>>, a: InstructionId, b: InstructionId) -> bool { t.contains_key(a) && t[a]@.contains(b) }
impl Flowgraph {
    pub open spec fn has(&self, n: InstructionId) -> bool { self.instrs@.contains_key(n) }
    pub open spec fn edge(&self, a: InstructionId, b: InstructionId) -> bool { edge_in(self.successors@, a, b) }
    /// every instruction under its own identity, with its neighbours; the neighbours are instructions of the graph
    pub open spec fn wf(&self) -> bool {
        &&& self.successors@.dom() =~= self.instrs@.dom()
        &&& self.predecessors@.dom() =~= self.instrs@.dom()
        &&& forall|n: InstructionId| #[trigger] self.instrs@.contains_key(n) ==> self.instrs@[n].id() == n
        &&& forall|a: InstructionId, b: InstructionId| #[trigger] edge_in(self.successors@, a, b) ==> self.has(a) && self.has(b)
        &&& self.inverse()
    }
    /// successors and predecessors say the same
    pub open spec fn inverse(&self) -> bool { forall|a: InstructionId, b: InstructionId| #![trigger edge_in(self.successors@, a, b)] #![trigger edge_in(self.predecessors@, b, a)] edge_in(self.successors@, a, b) == edge_in(self.predecessors@, b, a) }
}
//@fn src/back_end/dataflow_analysis/flowgraph.rs Flowgraph::new
//@ret r
//@spec
    ensures r.wf(), r.instrs@ =~= Map::<InstructionId, Instruction>::empty(), r.entries@ =~= Set::<InstructionId>::empty(), r.exits@ =~= Set::<InstructionId>::empty(),
        forall|a: InstructionId, b: InstructionId| !#[trigger] r.edge(a, b),
//@end
//@fn src/back_end/dataflow_analysis/flowgraph.rs Flowgraph::add_instr
//@spec
    requires old(self).wf(), !old(self).has(instr.id()),
    ensures final(self).wf(),
        final(self).instrs@ == old(self).instrs@.insert(instr.id(), instr),
        forall|a: InstructionId, b: InstructionId| #[trigger] final(self).edge(a, b) == old(self).edge(a, b),
        final(self).entries == old(self).entries, final(self).exits == old(self).exits,
//@end_
        proof {
            assert forall|a: InstructionId, b: InstructionId| #[trigger] edge_in(self.successors@, a, b) == edge_in(old(self).successors@, a, b) by {}
            assert forall|a: InstructionId, b: InstructionId| #[trigger] edge_in(self.predecessors@, b, a) == edge_in(old(self).predecessors@, b, a) by {}
        }
//@end
//@fn src/back_end/dataflow_analysis/flowgraph.rs Flowgraph::add_successor
//@spec
    requires old(self).wf(), old(self).has(instr_id), old(self).has(successor_id),
    ensures final(self).wf(),
        final(self).instrs == old(self).instrs,
        forall|a: InstructionId, b: InstructionId| #[trigger] final(self).edge(a, b) == (old(self).edge(a, b) || a == instr_id && b == successor_id),
        final(self).entries == old(self).entries, final(self).exits == old(self).exits,
//@end_
        proof {
            assert forall|a: InstructionId, b: InstructionId| #[trigger] edge_in(self.successors@, a, b) == (edge_in(old(self).successors@, a, b) || a == instr_id && b == successor_id) by {}
            assert forall|a: InstructionId, b: InstructionId| #[trigger] edge_in(self.predecessors@, b, a) == (edge_in(old(self).predecessors@, b, a) || a == instr_id && b == successor_id) by {}
        }
//@end
/// a set of neighbours in which `n` has been replaced by `more`
pub open spec fn bypass(s: Set<InstructionId>, n: InstructionId, more: Set<InstructionId>) -> Set<InstructionId> { s.remove(n).union(more) }
/// of the neighbour sets in `t`, those of the members of `done` bypass `n`, the others are those of `o`
pub open spec fn rewired(t: Map<InstructionId, HashSet<InstructionId>>, o: Map<InstructionId, HashSet<InstructionId>>, done: Set<InstructionId>, n: InstructionId, more: Set<InstructionId>) -> bool {
    &&& t.dom() =~= o.dom()
    &&& forall|k: InstructionId| #[trigger] t.contains_key(k) ==> t[k]@ == (if done.contains(k) { bypass(o[k]@, n, more) } else { o[k]@ })
}
/// some of the members of `done` are still to do
pub open spec fn rewiring(t: Map<InstructionId, HashSet<InstructionId>>, o: Map<InstructionId, HashSet<InstructionId>>, done: Set<InstructionId>, n: InstructionId, more: Set<InstructionId>) -> bool {
    &&& t.dom() =~= o.dom()
    &&& forall|k: InstructionId| #[trigger] t.contains_key(k) ==> t[k]@ == o[k]@ || done.contains(k) && t[k]@ == bypass(o[k]@, n, more)
}
//@fn src/back_end/dataflow_analysis/flowgraph.rs Flowgraph::remove_instr
//@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        !old(self).has(*instr_id) ==> *final(self) == *old(self),
        final(self).instrs@ == old(self).instrs@.remove(*instr_id),
        // the edges that are left, and one from each predecessor to each successor
        forall|a: InstructionId, b: InstructionId| #[trigger] final(self).edge(a, b) == (a != *instr_id && b != *instr_id && (old(self).edge(a, b) || old(self).edge(a, *instr_id) && old(self).edge(*instr_id, b))),
        old(self).has(*instr_id) ==> final(self).entries@ =~= (if old(self).entries@.contains(*instr_id) { bypass(old(self).entries@, *instr_id, old(self).successors@[*instr_id]@.remove(*instr_id)) } else { old(self).entries@ }),
        old(self).has(*instr_id) ==> final(self).exits@ =~= (if old(self).exits@.contains(*instr_id) { bypass(old(self).exits@, *instr_id, old(self).predecessors@[*instr_id]@.remove(*instr_id)) } else { old(self).exits@ }),
//@iterref 0
//@iterref 1
//@iter 0 it
//@iter 1 it2
//@loop 0 before
        let ghost n = *instr_id;
        let ghost p0 = self.predecessors@;
        let ghost s0 = self.successors@;
        proof {
            assert(p0 =~= old(self).predecessors@.remove(n));
            assert(s0 =~= old(self).successors@.remove(n));
            assert forall|b: InstructionId| #[trigger] successors@.contains(b) implies p0.contains_key(b) by { assert(edge_in(old(self).successors@, n, b)); }
            assert forall|a: InstructionId| #[trigger] predecessors@.contains(a) implies s0.contains_key(a) by { assert(edge_in(old(self).predecessors@, n, a)); assert(edge_in(old(self).successors@, a, n)); }
        }
//@loop 0
    invariant
        n == *instr_id,
        p0 =~= old(self).predecessors@.remove(n), s0 == self.successors@, self.instrs@ == old(self).instrs@.remove(n), self.entries == old(self).entries, self.exits == old(self).exits,
        forall|b: InstructionId| #[trigger] successors@.contains(b) ==> p0.contains_key(b),
        rewiring(self.predecessors@, p0, successors@, n, predecessors@),
        forall|j: int| 0 <= j < it.index@ ==> self.predecessors@[*#[trigger] it.seq()[j]]@ == bypass(p0[*it.seq()[j]]@, n, predecessors@),
//@loop 0 start
            let ghost before = self.predecessors@;
            proof { assert(successors@.contains(*successor_id)); assert(before.contains_key(*successor_id)); }
//@loop 0 end
            proof {
                let x = *successor_id;
                assert(self.predecessors@[x]@ =~= bypass(p0[x]@, n, predecessors@));
                assert forall|k: InstructionId| k != x && before.contains_key(k) implies #[trigger] self.predecessors@[k] == before[k] by {}
            }
//@loop 0 after
        proof { assert(rewired(self.predecessors@, p0, successors@, n, predecessors@)); }
        let ghost p1 = self.predecessors@;
//@loop 1
    invariant
        n == *instr_id,
        s0 =~= old(self).successors@.remove(n), p1 == self.predecessors@, self.instrs@ == old(self).instrs@.remove(n), self.entries == old(self).entries, self.exits == old(self).exits,
        forall|a: InstructionId| #[trigger] predecessors@.contains(a) ==> s0.contains_key(a),
        rewiring(self.successors@, s0, predecessors@, n, successors@),
        forall|j: int| 0 <= j < it2.index@ ==> self.successors@[*#[trigger] it2.seq()[j]]@ == bypass(s0[*it2.seq()[j]]@, n, successors@),
//@loop 1 start
            let ghost before = self.successors@;
            proof { assert(predecessors@.contains(*predecessor_id)); assert(before.contains_key(*predecessor_id)); }
//@loop 1 end
            proof {
                let x = *predecessor_id;
                assert(self.successors@[x]@ =~= bypass(s0[x]@, n, successors@));
                assert forall|k: InstructionId| k != x && before.contains_key(k) implies #[trigger] self.successors@[k] == before[k] by {}
            }
//@loop 1 after
        proof {
            assert(rewired(self.successors@, s0, predecessors@, n, successors@));
            assert forall|a: InstructionId, b: InstructionId| #[trigger] edge_in(self.successors@, a, b) == (a != n && b != n && (old(self).edge(a, b) || old(self).edge(a, n) && old(self).edge(n, b))) by {
                assert(edge_in(old(self).successors@, a, n) == edge_in(old(self).predecessors@, n, a));
            }
            assert forall|a: InstructionId, b: InstructionId| #[trigger] edge_in(self.predecessors@, b, a) == (a != n && b != n && (old(self).edge(a, b) || old(self).edge(a, n) && old(self).edge(n, b))) by {
                assert(edge_in(old(self).successors@, a, b) == edge_in(old(self).predecessors@, b, a));
                assert(edge_in(old(self).successors@, a, n) == edge_in(old(self).predecessors@, n, a));
                assert(edge_in(old(self).successors@, n, b) == edge_in(old(self).predecessors@, b, n));
            }
            assert(self.wf());
        }
//@end
