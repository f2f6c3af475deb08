// pieces made ready to be structured
//@type src/relooper/relooper.rs RelooperContext
/// notes where control is to go next
pub open spec fn sets(i: Instruction, v: VarId, l: LabelId) -> bool { match i { Instruction::SimpleAssignment(_, d, Src::Constant(Constant::Int(n))) => d == v && n == l.idx(), _ => false } }
pub open spec fn sets_only(s: Seq<Instruction>, v: VarId, l: LabelId) -> bool { s.len() == 1 && sets(s[0], v, l) }
/// the conditional jump c as a choice: where it jumps, `then` notes the target; otherwise `other` is done
pub open spec fn chooses(i: Instruction, c: Instruction, v: VarId, other: Seq<Instruction>) -> bool {
    match (c, i) {
        (Instruction::BrIfEq(_, a, b, l), Instruction::IfEqElse(_, x, y, t, e)) => a == x && b == y && sets_only(t@, v, l) && e@ == other,
        (Instruction::BrIfNotEq(_, a, b, l), Instruction::IfNotEqElse(_, x, y, t, e)) => a == x && b == y && sets_only(t@, v, l) && e@ == other,
        _ => false,
    }
}
/// the conditional jump c as a choice, with one noted target on either side
pub open spec fn chooses_between(i: Instruction, c: Instruction, v: VarId, l: LabelId) -> bool {
    match i { Instruction::IfEqElse(_, _, _, _, e) | Instruction::IfNotEqElse(_, _, _, _, e) => sets_only(e@, v, l) && chooses(i, c, v, e@), _ => false }
}
/// t is s with the jumps at its end turned into notes of where control goes
pub open spec fn noted(s: Seq<Instruction>, t: Seq<Instruction>, v: VarId) -> bool {
    let n = s.len() as int;
    if br_at(s, n - 1) {
        if cond_at(s, n - 2) { t.len() == n - 1 && t.take(n - 2) == s.take(n - 2) && chooses_between(t[n - 2], s[n - 2], v, target_of(s[n - 1])->0) }
        else { t.len() == n && t.take(n - 1) == s.take(n - 1) && sets(t[n - 1], v, target_of(s[n - 1])->0) }
    } else if cond_at(s, n - 3) { t.len() == n - 2 && t.take(n - 3) == s.take(n - 3) && chooses(t[n - 3], s[n - 3], v, seq![s[n - 2], s[n - 1]]) }
    else { t == s }
}
//@fn src/relooper/relooper.rs replace_branch_instrs
//@spec
    requires old(prog_metadata).spare_instrs(3),
    ensures
        noted(old(label).instrs@, final(label).instrs@, *context.label_variable), final(label).label == old(label).label,
        *final(prog_metadata) == (ProgramMetadata { instr_id_generator: final(prog_metadata).instr_id_generator, ..*old(prog_metadata) }),
//@start
    let ghost s = label.instrs@;
    let ghost n = s.len() as int;
    let ghost v = *context.label_variable;
//@after label.instrs.push(new_instr);##0
            proof {
                let t = label.instrs@;
                assert(br_at(s, n - 1));
                assert(!cond_at(s, n - 2));
                assert(t.take(n - 1) =~= s.take(n - 1));
                assert(sets(t[n - 1], v, target_of(s[n - 1])->0));
            }
//@after label.instrs.push(new_instr);##1
            proof {
                let t = label.instrs@;
                assert(!br_at(s, n - 1));
                assert(cond_at(s, n - 3));
                assert(t.take(n - 3) =~= s.take(n - 3));
                match t[n - 3] { Instruction::IfEqElse(_, _, _, a, e) | Instruction::IfNotEqElse(_, _, _, a, e) => { assert(e@ =~= seq![s[n - 2], s[n - 1]]); assert(sets_only(a@, v, target_of(s[n - 3])->0)); } _ => { assert(false); } }
                assert(chooses(t[n - 3], s[n - 3], v, seq![s[n - 2], s[n - 1]]));
            }
//@after label.instrs.push(new_instr);##2
            proof {
                let t = label.instrs@;
                assert(br_at(s, n - 1));
                assert(cond_at(s, n - 2));
                assert(t.take(n - 2) =~= s.take(n - 2));
                match t[n - 2] { Instruction::IfEqElse(_, _, _, a, e) | Instruction::IfNotEqElse(_, _, _, a, e) => { assert(sets_only(e@, v, target_of(s[n - 1])->0)); assert(sets_only(a@, v, target_of(s[n - 2])->0)); } _ => { assert(false); } }
                assert(chooses_between(t[n - 2], s[n - 2], v, target_of(s[n - 1])->0));
            }
//@end
pub open spec fn reached_from(m: Map<LabelId, Vec<LabelId>>, e: Seq<LabelId>, l: LabelId) -> bool { exists|j: int| 0 <= j < e.len() && #[trigger] m[e[j]]@.contains(l) }
pub proof fn lemma_reached_push(m: Map<LabelId, Vec<LabelId>>, e: Seq<LabelId>, k: int)
    requires 0 <= k < e.len(),
    ensures forall|l: LabelId| #[trigger] reached_from(m, e.take(k + 1), l) == (reached_from(m, e.take(k), l) || m[e[k]]@.contains(l)),
{
    let (a, b) = (e.take(k), e.take(k + 1));
    assert forall|l: LabelId| #[trigger] reached_from(m, b, l) == (reached_from(m, a, l) || m[e[k]]@.contains(l)) by {
        if reached_from(m, b, l) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] m[b[j]]@.contains(l); if j < k { assert(m[a[j]]@.contains(l)); } }
        if reached_from(m, a, l) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] m[a[j]]@.contains(l); assert(m[b[j]]@.contains(l)); }
        if m[e[k]]@.contains(l) { assert(m[b[k]]@.contains(l)); }
    }
}
/// `Vec::from_iter` of a set
#[verifier::external_body]
pub fn list_of(s: HashSet<LabelId>) -> (r: Vec<LabelId>)
    ensures nodup(r@), forall|l: LabelId| #[trigger] r@.contains(l) == s@.contains(l),
{ Vec::from_iter(s) }
//@fn src/relooper/relooper.rs combine_reachability_from_entries
//@ret r
//@iter 0 itE
//@iter 1 itR
//@subst let mut combined_reachability = HashSet::new(); => let mut combined_reachability: HashSet<LabelId> = HashSet::new();
//@subst Vec::from_iter( => list_of(
//@spec
    requires forall|j: int| 0 <= j < entries@.len() ==> reachability@.contains_key(#[trigger] entries@[j]),
    ensures nodup(r@), forall|l: LabelId| #[trigger] r@.contains(l) == reached_from(reachability@, entries@, l),
//@loop 0
    invariant
        itE.seq().len() == entries@.len(), forall|j: int| 0 <= j < itE.seq().len() ==> *#[trigger] itE.seq()[j] == entries@[j],
        forall|j: int| 0 <= j < entries@.len() ==> reachability@.contains_key(#[trigger] entries@[j]),
        forall|l: LabelId| #[trigger] combined_reachability@.contains(l) == reached_from(reachability@, entries@.take(itE.index@ as int), l),
//@loop 0 start
        let ghost k = itE.index@ as int;
        let ghost was = combined_reachability@;
        let ghost v = reachability@[entries@[k]]@;
        proof { assert(*entry == entries@[k]); }
//@loop 0 end
        proof { assert(v.take(v.len() as int) =~= v); lemma_reached_push(reachability@, entries@, k); }
//@loop 1
    invariant
        itR.seq().len() == v.len(), forall|j: int| 0 <= j < itR.seq().len() ==> *#[trigger] itR.seq()[j] == v[j],
        forall|l: LabelId| #[trigger] combined_reachability@.contains(l) == (was.contains(l) || v.take(itR.index@ as int).contains(l)),
//@loop 1 start
            proof { let j = itR.index@ as int; assert(v.take(j + 1) =~= v.take(j).push(v[j])); lemma_listed_push(v.take(j), v[j]); }
//@loop 0 after
    proof { assert(entries@.take(entries@.len() as int) =~= entries@); }
//@end
