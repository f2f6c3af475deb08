// redundant labels
//@rename retain retain_of
/// `retain`: the elements for which the function is true, in the same order
pub open spec fn agrees<T, F: Fn(&T) -> bool>(f: F, s: Seq<T>, p: spec_fn(T) -> bool) -> bool { forall|k: int, b: bool| 0 <= k < s.len() && #[trigger] f.ensures((&s[k],), b) ==> b == p(s[k]) }
pub trait RetainOf<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn retain_of<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|k: int| 0 <= k < old(self).items().len() ==> f.requires((&#[trigger] old(self).items()[k],)),
        ensures forall|p: spec_fn(T) -> bool| agrees(f, old(self).items(), p) ==> final(self).items() == #[trigger] old(self).items().filter(p);
}
impl<T> RetainOf<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn retain_of<F: Fn(&T) -> bool>(&mut self, f: F) { self.retain(f) }
}
/// the label an instruction may jump to
pub open spec fn target_of(i: Instruction) -> Option<LabelId> { match i { Instruction::Br(_, l) | Instruction::BrIfEq(_, _, _, l) | Instruction::BrIfNotEq(_, _, _, l) => Some(l), _ => None } }
pub open spec fn label_of(i: Instruction) -> Option<LabelId> { match i { Instruction::Label(_, l) => Some(l), _ => None } }
pub open spec fn is_target(s: Seq<Instruction>, l: LabelId) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] target_of(s[k]) == Some(l) }
/// what the clean-up keeps
pub open spec fn stays(s: Seq<Instruction>, i: Instruction) -> bool { !(i is Nop) && match label_of(i) { Some(l) => is_target(s, l), None => true } }
pub open spec fn cleaned(s: Seq<Instruction>) -> Seq<Instruction> { s.filter(stayer(s)) }
pub open spec fn stayer(s: Seq<Instruction>) -> spec_fn(Instruction) -> bool { |i: Instruction| stays(s, i) }
pub open spec fn used(m: Map<LabelId, bool>, l: LabelId) -> bool { m.contains_key(l) && m[l] }
//@fn src/middle_end/middle_end_optimiser/remove_redundancy.rs remove_unused_labels
//@ret r
//@subst instrs.retain_of(|instr| { => instrs.retain_of(|instr: &Instruction| -> (r: bool) requires labels_known(*instr, labels@) ensures r == keeps(*instr, labels@) {
//@spec
    ensures r is Ok, final(instrs)@ == cleaned(old(instrs)@),
//@iter 0 it
//@start
    let ghost s = instrs@;
//@loop 0
    invariant
        it.seq().len() == s.len(), instrs@ == s,
        forall|j: int| 0 <= j < s.len() ==> *#[trigger] it.seq()[j] == s[j],
        forall|l: LabelId| used(labels@, l) == is_target(s.take(it.index@ as int), l),
        forall|j: int| 0 <= j < it.index@ ==> labels_known(#[trigger] s[j], labels@),
//@loop 0 start
        let ghost k = it.index@ as int;
        let ghost was = labels@;
        let ghost now = s[k];
        proof { lemma_target_push(s, k); }
//@loop 0 end
        proof {
            assert forall|l: LabelId| used(labels@, l) == is_target(s.take(k + 1), l) by {
                assert(is_target(s.take(k + 1), l) == (is_target(s.take(k), l) || target_of(now) == Some(l)));
                assert(used(was, l) == is_target(s.take(k), l));
                assert(used(labels@, l) == (used(was, l) || target_of(now) == Some(l)));
            }
            assert forall|j: int| 0 <= j < k + 1 implies labels_known(#[trigger] s[j], labels@) by { if j < k { assert(labels_known(s[j], was)); } }
        }
//@loop 0 after
    proof { assert(s.take(s.len() as int) =~= s); }
    let ghost m = labels@;
    let ghost v = *instrs;
    proof {
        assert(v.items() == s);
        assert(v.items().filter(stayer(s)) == s.filter(stayer(s)));
        let p = stayer(s);
        assert forall|k: int| 0 <= k < s.len() implies keeps(#[trigger] s[k], m) == stays(s, s[k]) && p(s[k]) == stays(s, s[k]) by {
            match label_of(s[k]) { Some(l) => { assert(labels_known(s[k], m)); assert(used(m, l) == is_target(s, l)); } None => {} }
        }
    }
//@end_
    proof { assert(instrs.items() == instrs@); assert(instrs.items() == v.items().filter(stayer(s))); assert(instrs@ == s.filter(stayer(s))); }
//@end
pub open spec fn labels_known(i: Instruction, m: Map<LabelId, bool>) -> bool { match label_of(i) { Some(l) => m.contains_key(l), None => true } }
pub open spec fn keeps(i: Instruction, m: Map<LabelId, bool>) -> bool { !(i is Nop) && match label_of(i) { Some(l) => m[l], None => true } }
pub proof fn lemma_target_push(s: Seq<Instruction>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|l: LabelId| #![trigger is_target(s.take(k + 1), l)] is_target(s.take(k + 1), l) == (is_target(s.take(k), l) || target_of(s[k]) == Some(l)),
{
    assert forall|l: LabelId| #![trigger is_target(s.take(k + 1), l)] is_target(s.take(k + 1), l) == (is_target(s.take(k), l) || target_of(s[k]) == Some(l)) by {
        if is_target(s.take(k + 1), l) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] target_of(s.take(k + 1)[j]) == Some(l); if j < k { assert(target_of(s.take(k)[j]) == Some(l)); } }
        if is_target(s.take(k), l) { let j = choose|j: int| 0 <= j < k && #[trigger] target_of(s.take(k)[j]) == Some(l); assert(target_of(s.take(k + 1)[j]) == Some(l)); }
        if target_of(s[k]) == Some(l) { assert(target_of(s.take(k + 1)[k]) == Some(l)); }
    }
}
