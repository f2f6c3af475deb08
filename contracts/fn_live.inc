// liveness
//@type src/back_end/dataflow_analysis/live_variable_analysis.rs LiveVariableMap
pub type LiveTable = Map<InstructionId, HashSet<VarId>>;
pub open spec fn live_at(t: LiveTable, n: InstructionId, v: VarId) -> bool { t.contains_key(n) && t[n]@.contains(v) }
/// live before some successor
pub open spec fn live_after(g: Flowgraph, t: LiveTable, n: InstructionId, v: VarId) -> bool { exists|s: InstructionId| #[trigger] g.edge(n, s) && live_at(t, s, v) }
/// read here, or live before some successor and not assigned here
pub open spec fn needed(g: Flowgraph, t: LiveTable, n: InstructionId, v: VarId) -> bool { refs(g.instrs@[n]).contains(v) || !defs(g.instrs@[n]).contains(v) && live_after(g, t, n, v) }
/// the table is right about n
pub open spec fn right_at(g: Flowgraph, t: LiveTable, n: InstructionId) -> bool { t.contains_key(n) && forall|v: VarId| #[trigger] t[n]@.contains(v) == needed(g, t, n, v) }
pub open spec fn is_liveness(g: Flowgraph, t: LiveTable) -> bool { t.dom() =~= g.instrs@.dom() && forall|n: InstructionId| #[trigger] g.has(n) ==> right_at(g, t, n) }
/// a path through the graph
pub open spec fn is_path(g: Flowgraph, p: Seq<InstructionId>) -> bool { p.len() > 0 && forall|k: int| 0 <= k < p.len() - 1 ==> g.edge(#[trigger] p[k], p[k + 1]) }
/// a variable that some path reads before assigning it is live at the path's start
pub proof fn read_later_is_live(g: Flowgraph, t: LiveTable, p: Seq<InstructionId>, v: VarId)
    requires g.wf(), is_liveness(g, t), is_path(g, p), g.has(p[0]), refs(g.instrs@[p.last()]).contains(v), forall|k: int| 0 <= k < p.len() - 1 ==> !defs(g.instrs@[#[trigger] p[k]]).contains(v),
    ensures live_at(t, p[0], v),
    decreases p.len(),
{
    assert(right_at(g, t, p[0]));
    if p.len() > 1 {
        assert(g.edge(p[0], p[1]));
        let q = p.drop_first();
        assert forall|k: int| 0 <= k < q.len() - 1 implies g.edge(#[trigger] q[k], q[k + 1]) by { assert(g.edge(p[k + 1], p[k + 2])); }
        assert forall|k: int| 0 <= k < q.len() - 1 implies !defs(g.instrs@[#[trigger] q[k]]).contains(v) by { assert(!defs(g.instrs@[p[k + 1]]).contains(v)); }
        read_later_is_live(g, t, q, v);
        assert(needed(g, t, p[0], v));
        assert(t[p[0]]@.contains(v));
    }
}
//@fn src/back_end/dataflow_analysis/live_variable_analysis.rs live_variable_analysis
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires flowgraph.wf(), structured(*flowgraph),
    ensures is_liveness(*flowgraph, r@),
//@iterref 1
//@iter 1 it
//@iterref 2
//@iter 2 it2
//@iterval 3
//@iter 3 it3
//@iterval 4
//@iter 4 it4
//@loop 0
    invariant
        flowgraph.wf(), structured(*flowgraph),
        live@.dom() <= flowgraph.instrs@.dom(),
        !changes ==> is_liveness(*flowgraph, live@),
//@loop 1 before
        let ghost t0 = live@;
//@loop 1
        invariant
            flowgraph.wf(), structured(*flowgraph),
            live@.dom() <= flowgraph.instrs@.dom(),
            !changes ==> live@ == t0,
            !changes ==> forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.index@ ==> right_at(*flowgraph, t0, *it.seq()[j].0),
//@loop 1 start
            let ghost t1 = live@;
            let ghost n = *instr_id;
            proof { assert(flowgraph.instrs@.contains_key(*instr_id)); assert(flowgraph.instrs@[n] == *instr); }
//@loop 2
                invariant
                    flowgraph.wf(), live@ == t1, flowgraph.has(n), n == *instr_id, *__s2 == flowgraph.successors@[n],
                    forall|v: VarId| #[trigger] out_live@.contains(v) ==> live_after(*flowgraph, t1, n, v),
                    forall|j: int, v: VarId| 0 <= j < it2.index@ && live_at(t1, *#[trigger] it2.seq()[j], v) ==> #[trigger] out_live@.contains(v),
//@loop 2 start
                proof { assert(__s2@.contains(*successor)); assert(flowgraph.edge(n, *successor)); }
//@loop 3 before
            proof {
                assert forall|v: VarId| #[trigger] out_live@.contains(v) == live_after(*flowgraph, t1, n, v) by {
                    if live_after(*flowgraph, t1, n, v) {
                        let s = choose|s: InstructionId| #[trigger] flowgraph.edge(n, s) && live_at(t1, s, v);
                        assert(__s2@.contains(s));
                    }
                }
            }
            let ghost out = out_live@;
//@loop 3
                invariant
                    __s3@ =~= defs(*instr),
                    forall|v: VarId| #[trigger] out_live@.contains(v) ==> out.contains(v),
                    forall|v: VarId| #[trigger] out.contains(v) && !defs(*instr).contains(v) ==> out_live@.contains(v),
                    forall|j: int| 0 <= j < it3.index@ ==> !out_live@.contains(*#[trigger] it3.seq()[j]),
//@loop 3 start
                proof { assert(__s3@.contains(def_var)); }
//@loop 4 start
                proof { assert(__s4@.contains(ref_var)); }
//@loop 4 before
            proof { assert(forall|v: VarId| #[trigger] out_live@.contains(v) == (out.contains(v) && !defs(*instr).contains(v))); }
            let ghost kept = out_live@;
//@loop 4
                invariant
                    __s4@ =~= refs(*instr),
                    forall|v: VarId| #[trigger] out_live@.contains(v) ==> kept.contains(v) || refs(*instr).contains(v),
                    forall|v: VarId| #[trigger] kept.contains(v) ==> out_live@.contains(v),
                    forall|j: int| 0 <= j < it4.index@ ==> out_live@.contains(*#[trigger] it4.seq()[j]),
//@loop 4 after
            proof {
                assert(forall|v: VarId| #[trigger] __s4@.contains(v) ==> out_live@.contains(v));
                assert forall|v: VarId| #[trigger] out_live@.contains(v) == needed(*flowgraph, t1, n, v) by { assert(__s4@.contains(v) == refs(*instr).contains(v)); assert(kept.contains(v) == (out.contains(v) && !defs(*instr).contains(v))); assert(out.contains(v) == live_after(*flowgraph, t1, n, v)); }
            }
            let ghost put = out_live@;
//@loop 1 end
            proof {
                assert(live@.contains_key(n) && live@[n]@ == put);
                assert(!changes ==> t1.contains_key(n) && t1[n]@ == put);
                assert(!changes ==> live@ =~= t1);
            }
//@loop 1 after
        proof {
            if !changes {
                assert(forall|k: InstructionId| #[trigger] flowgraph.instrs@.contains_key(k) ==> right_at(*flowgraph, t0, k));
                assert(live@.dom() =~= flowgraph.instrs@.dom());
            }
        }
//@end
