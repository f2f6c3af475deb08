// from a list of instructions to labelled pieces
/// a jump to that label
pub open spec fn jump_to(i: Instruction, l: LabelId) -> bool { i is Br && target_of(i) == Some(l) }
pub open spec fn marks(i: Instruction, l: LabelId) -> bool { label_of(i) == Some(l) }
pub open spec fn jumps(i: Instruction) -> bool { target_of(i) is Some }
pub open spec fn conditional(i: Instruction) -> bool { i is BrIfEq || i is BrIfNotEq }
/// control runs from the list into a label after it
pub open spec fn falls(s: Seq<Instruction>) -> bool { s.len() == 0 || !jumps(s.last()) }
/// t is s with every fall into a label made a jump
pub open spec fn explicit(s: Seq<Instruction>, t: Seq<Instruction>) -> bool
    decreases s.len(),
{
    if s.len() == 0 { t.len() == 0 } else {
        &&& t.len() > 0 && t.last() == s.last()
        &&& match label_of(s.last()) {
            Some(l) if falls(s.drop_last()) => t.len() > 1 && jump_to(t[t.len() - 2], l) && explicit(s.drop_last(), t.drop_last().drop_last()),
            _ => explicit(s.drop_last(), t.drop_last()),
        }
    }
}
/// t is s with a jump to a fresh label, and that label, after every conditional jump; fresh labels are numbered from lo up to hi
pub open spec fn gaps(s: Seq<Instruction>, t: Seq<Instruction>, lo: nat, hi: nat) -> bool
    decreases s.len(),
{
    if s.len() == 0 { t.len() == 0 && lo == hi } else if conditional(s.last()) {
        &&& t.len() > 2 && t[t.len() - 3] == s.last() && hi > lo && label_of(t.last()) is Some && label_of(t.last())->0.idx() == hi - 1 && jump_to(t[t.len() - 2], label_of(t.last())->0)
        &&& gaps(s.drop_last(), t.drop_last().drop_last().drop_last(), lo, (hi - 1) as nat)
    } else { t.len() > 0 && t.last() == s.last() && gaps(s.drop_last(), t.drop_last(), lo, hi) }
}
/// t is s with a fresh label in front when it starts with none
pub open spec fn entered(s: Seq<Instruction>, t: Seq<Instruction>, lo: nat, hi: nat) -> bool {
    if s.len() > 0 && s[0] is Label { t == s && hi == lo } else { hi == lo + 1 && t.len() > 0 && t[0] is Label && label_of(t[0])->0.idx() == lo && t.drop_first() == s }
}
//@fn src/relooper/soupify.rs remove_label_fallthrough
//@spec
    requires old(prog_metadata).spare_instrs(old(instrs)@.len() as int), old(instrs)@.len() * 2 <= usize::MAX,
    ensures
        explicit(old(instrs)@, final(instrs)@), final(prog_metadata).instr_id_generator.count() <= old(prog_metadata).instr_id_generator.count() + old(instrs)@.len(),
        *final(prog_metadata) == (ProgramMetadata { instr_id_generator: final(prog_metadata).instr_id_generator, ..*old(prog_metadata) }),
//@start
    let ghost s = instrs@;
    let ghost mut k: int = 0;
//@loop 0
    invariant
        0 <= k <= s.len(), k <= i <= 2 * k, s.len() * 2 <= usize::MAX, i + (s.len() - k) == instrs@.len(), instrs@.skip(i as int) =~= s.skip(k), explicit(s.take(k), instrs@.take(i as int)),
        prev_instr_was_branch == !falls(s.take(k)),
        prog_metadata.instr_id_generator.count() <= old(prog_metadata).instr_id_generator.count() + k, old(prog_metadata).spare_instrs(s.len() as int),
        *prog_metadata == (ProgramMetadata { instr_id_generator: prog_metadata.instr_id_generator, ..*old(prog_metadata) }),
    ensures
        k == s.len(), i == instrs@.len(),
    decreases s.len() - k,
//@loop 0 start
        let ghost now = instrs@;
        let ghost i0 = i as int;
        proof { if i < instrs@.len() { assert(now[i0] == now.skip(i0)[0]); assert(s.skip(k)[0] == s[k]); assert(now[i0] == s[k]); } }
//@loop 0 end
        proof {
            let (a, b) = (s.take(k), s.take(k + 1));
            assert(b.drop_last() =~= a);
            assert(b.last() == s[k]);
            let t = instrs@.take(i as int);
            if i == i0 + 1 { assert(t.drop_last() =~= now.take(i0)); assert(t.last() == s[k]); }
            else { assert(t.last() == s[k]); assert(t.drop_last().drop_last() =~= now.take(i0)); assert(jump_to(t[t.len() - 2], label_of(s[k])->0)); }
            assert(explicit(b, t));
            assert forall|j: int| 0 <= j < s.len() - k - 1 implies #[trigger] instrs@.skip(i as int)[j] == s.skip(k + 1)[j] by { assert(instrs@[i + j] == now[i0 + 1 + j]); assert(now.skip(i0)[1 + j] == s.skip(k)[1 + j]); }
            assert(instrs@.skip(i as int) =~= s.skip(k + 1));
            k = k + 1;
        }
//@loop 0 after
    proof { assert(s.take(k) =~= s); assert(instrs@.take(i as int) =~= instrs@); }
//@end
//@fn src/relooper/soupify.rs add_block_gap_labels_after_conditionals
//@spec
    requires old(prog_metadata).spare_instrs(2 * old(instrs)@.len() as int), old(prog_metadata).label_id_generator.count() + old(instrs)@.len() <= u64::MAX, old(instrs)@.len() * 3 <= usize::MAX,
    ensures
        gaps(old(instrs)@, final(instrs)@, old(prog_metadata).label_id_generator.count(), final(prog_metadata).label_id_generator.count()),
        final(prog_metadata).instr_id_generator.count() <= old(prog_metadata).instr_id_generator.count() + 2 * old(instrs)@.len(), final(prog_metadata).label_id_generator.count() <= old(prog_metadata).label_id_generator.count() + old(instrs)@.len(),
        *final(prog_metadata) == (ProgramMetadata { instr_id_generator: final(prog_metadata).instr_id_generator, label_id_generator: final(prog_metadata).label_id_generator, ..*old(prog_metadata) }),
//@start
    let ghost s = instrs@;
    let ghost lo = prog_metadata.label_id_generator.count();
    let ghost mut k: int = 0;
//@loop 0
    invariant
        0 <= k <= s.len(), k <= i <= 3 * k, s.len() * 3 <= usize::MAX, i + (s.len() - k) == instrs@.len(), instrs@.skip(i as int) =~= s.skip(k), lo == old(prog_metadata).label_id_generator.count(),
        gaps(s.take(k), instrs@.take(i as int), lo, prog_metadata.label_id_generator.count()),
        prog_metadata.instr_id_generator.count() <= old(prog_metadata).instr_id_generator.count() + 2 * k, old(prog_metadata).spare_instrs(2 * s.len() as int),
        lo <= prog_metadata.label_id_generator.count() <= lo + k, lo + s.len() <= u64::MAX,
        *prog_metadata == (ProgramMetadata { instr_id_generator: prog_metadata.instr_id_generator, label_id_generator: prog_metadata.label_id_generator, ..*old(prog_metadata) }),
    ensures
        k == s.len(), i == instrs@.len(),
    decreases s.len() - k,
//@loop 0 start
        let ghost now = instrs@;
        let ghost i0 = i as int;
        let ghost c0 = prog_metadata.label_id_generator.count();
        proof { if i < instrs@.len() { assert(now[i0] == now.skip(i0)[0]); assert(s.skip(k)[0] == s[k]); assert(now[i0] == s[k]); } }
//@loop 0 end
        proof {
            let (a, b) = (s.take(k), s.take(k + 1));
            assert(b.drop_last() =~= a);
            assert(b.last() == s[k]);
            let t = instrs@.take(i as int);
            if i == i0 + 1 { assert(t.drop_last() =~= now.take(i0)); assert(t.last() == s[k]); }
            else { assert(t[t.len() - 3] == s[k]); assert(t.drop_last().drop_last().drop_last() =~= now.take(i0)); assert(label_of(t.last()) is Some); assert(prog_metadata.label_id_generator.count() == c0 + 1); assert(label_of(t.last())->0.idx() == c0); assert(conditional(b.last())); assert(gaps(a, now.take(i0), lo, c0)); assert(jump_to(t[t.len() - 2], label_of(t.last())->0)); }
            if conditional(s[k]) { assert(gaps(b, t, lo, (c0 + 1) as nat)); } else { assert(i == i0 + 1); assert(prog_metadata.label_id_generator.count() == c0); assert(gaps(b, t, lo, c0)); }
            assert forall|j: int| 0 <= j < s.len() - k - 1 implies #[trigger] instrs@.skip(i as int)[j] == s.skip(k + 1)[j] by { assert(instrs@[i + j] == now[i0 + 1 + j]); assert(now.skip(i0)[1 + j] == s.skip(k)[1 + j]); }
            assert(instrs@.skip(i as int) =~= s.skip(k + 1));
            k = k + 1;
        }
//@loop 0 after
    proof { assert(s.take(k) =~= s); assert(instrs@.take(i as int) =~= instrs@); }
//@end
//@fn src/relooper/soupify.rs insert_entry_label_if_necessary
//@spec
    requires old(instrs)@.len() > 0, old(prog_metadata).spare_instrs(1), old(prog_metadata).label_id_generator.count() < u64::MAX,
    ensures
        entered(old(instrs)@, final(instrs)@, old(prog_metadata).label_id_generator.count(), final(prog_metadata).label_id_generator.count()),
        *final(prog_metadata) == (ProgramMetadata { instr_id_generator: final(prog_metadata).instr_id_generator, label_id_generator: final(prog_metadata).label_id_generator, ..*old(prog_metadata) }),
//@after instrs.insert(
            proof { assert(instrs@.drop_first() =~= old(instrs)@); }
//@end
/// where the run of labels that ends at p begins
pub open spec fn run_start(s: Seq<Instruction>, p: int) -> int
    decreases p,
{
    if 0 < p && s[p - 1] is Label { run_start(s, p - 1) } else { p }
}
/// not the first label of its run
pub open spec fn follows_label(s: Seq<Instruction>, p: int) -> bool { 0 < p < s.len() && s[p] is Label && s[p - 1] is Label }
/// the label every label stands for: those that follow another label stand for the first of the run
pub open spec fn merges(s: Seq<Instruction>, m: Map<LabelId, LabelId>) -> bool {
    &&& forall|p: int| #[trigger] follows_label(s, p) ==> m.contains_key(label_of(s[p])->0) && Some(m[label_of(s[p])->0]) == label_of(s[run_start(s, p)])
    &&& forall|l: LabelId| #[trigger] m.contains_key(l) ==> exists|p: int| #[trigger] follows_label(s, p) && label_of(s[p]) == Some(l)
}
pub open spec fn renamed(m: Map<LabelId, LabelId>, l: LabelId) -> LabelId { if m.contains_key(l) { m[l] } else { l } }
pub open spec fn retarget(m: Map<LabelId, LabelId>, i: Instruction) -> Instruction {
    match i {
        Instruction::Br(id, l) => Instruction::Br(id, renamed(m, l)),
        Instruction::BrIfEq(id, a, b, l) => Instruction::BrIfEq(id, a, b, renamed(m, l)),
        Instruction::BrIfNotEq(id, a, b, l) => Instruction::BrIfNotEq(id, a, b, renamed(m, l)),
        i => i,
    }
}
pub open spec fn retargeted(m: Map<LabelId, LabelId>, s: Seq<Instruction>) -> Seq<Instruction> { s.map_values(|i: Instruction| retarget(m, i)) }
pub open spec fn not_merged(m: Map<LabelId, LabelId>, i: Instruction) -> bool { match label_of(i) { Some(l) => !m.contains_key(l), None => true } }
pub open spec fn keeper(m: Map<LabelId, LabelId>) -> spec_fn(Instruction) -> bool { |i: Instruction| not_merged(m, i) }
pub open spec fn merged_by(s: Seq<Instruction>, t: Seq<Instruction>, m: Map<LabelId, LabelId>) -> bool { merges(s, m) && t == retargeted(m, s).filter(keeper(m)) }
pub open spec fn merged(s: Seq<Instruction>, t: Seq<Instruction>) -> bool { exists|m: Map<LabelId, LabelId>| merged_by(s, t, m) }
/// every label stands once
pub open spec fn distinct_labels(s: Seq<Instruction>) -> bool { forall|p: int, q: int| 0 <= p < q < s.len() && #[trigger] s[p] is Label && #[trigger] s[q] is Label ==> label_of(s[p]) != label_of(s[q]) }
pub open spec fn label_before(s: Seq<Instruction>, k: int) -> Option<LabelId> { if 0 < k && s[k - 1] is Label { label_of(s[run_start(s, k - 1)]) } else { None } }
pub proof fn lemma_run_start(s: Seq<Instruction>, p: int)
    requires 0 <= p < s.len(), s[p] is Label,
    ensures 0 <= run_start(s, p) <= p, s[run_start(s, p)] is Label,
    decreases p,
{ if 0 < p && s[p - 1] is Label { lemma_run_start(s, p - 1); } }
//@fn src/relooper/soupify.rs remove_consecutive_labels
//@subst true }) => true }); proof { assert(instrs.items() == instrs@); assert(instrs.items() == v.items().filter(keeper(m))); assert(merged_by(s, instrs@, m)); }
//@subst let mut label_remappings = HashMap::new(); => let mut label_remappings: HashMap<LabelId, LabelId> = HashMap::new();
//@subst instrs.retain_of(|instr| { => let ghost m1 = label_remappings@; instrs.retain_of(|instr: &Instruction| -> (r: bool) ensures r == not_merged(label_remappings@, *instr) {
//@iter 0 it
//@iter 1 it1
//@spec
    requires distinct_labels(old(instrs)@),
    ensures merged(old(instrs)@, final(instrs)@),
//@start
    let ghost s = instrs@;
//@loop 0
    invariant
        it.seq().len() == s.len(), instrs@ == s, forall|j: int| 0 <= j < s.len() ==> *#[trigger] it.seq()[j] == s[j], distinct_labels(s),
        match prev_instr_label { Some(l) => label_before(s, it.index@ as int) == Some(*l), None => label_before(s, it.index@ as int) is None },
        forall|p: int| #[trigger] follows_label(s, p) && p < it.index@ ==> label_remappings@.contains_key(label_of(s[p])->0) && Some(label_remappings@[label_of(s[p])->0]) == label_of(s[run_start(s, p)]),
        forall|l: LabelId| #[trigger] label_remappings@.contains_key(l) ==> exists|p: int| #[trigger] follows_label(s, p) && p < it.index@ && label_of(s[p]) == Some(l),
//@loop 0 start
        let ghost k = it.index@ as int;
        let ghost m0 = label_remappings@;
        proof { assert(*instr == s[k]); }
//@loop 0 end
        proof {
            if 0 < k && s[k - 1] is Label { lemma_run_start(s, k - 1); }
            assert(s[k] is Label ==> label_before(s, k + 1) == match label_before(s, k) { Some(l) => Some(l), None => label_of(s[k]) });
            assert(follows_label(s, k) ==> label_of(s[run_start(s, k)]) == label_before(s, k));
            assert forall|l: LabelId| #[trigger] label_remappings@.contains_key(l) implies exists|p: int| #[trigger] follows_label(s, p) && p < k + 1 && label_of(s[p]) == Some(l) by {
                if m0.contains_key(l) { let p = choose|p: int| #[trigger] follows_label(s, p) && p < k && label_of(s[p]) == Some(l); assert(follows_label(s, p)); } else { assert(follows_label(s, k)); }
            }
        }
//@loop 0 after
    let ghost m = label_remappings@;
    proof { assert(merges(s, m)); }
//@loop 1
    invariant
        instrs@.len() == s.len(), label_remappings@ == m, it1.seq().len() == s.len(), i == it1.index@,
        forall|j: int| 0 <= j < s.len() ==> #[trigger] instrs@[j] == if j < i { retarget(m, s[j]) } else { s[j] },
//@loop 1 after
    let ghost v = *instrs;
    proof {
        assert(instrs@ =~= retargeted(m, s));
        assert(v.items() == retargeted(m, s));
        assert(v.items().filter(keeper(m)) == retargeted(m, s).filter(keeper(m)));
    }
//@end
pub open spec fn has_label(s: Seq<Instruction>, l: LabelId) -> bool { exists|p: int| 0 <= p < s.len() && label_of(#[trigger] s[p]) == Some(l) }
/// the instructions after the label at p, up to the next label, or up to a plain jump (what stands between that jump and the next label cannot be reached)
pub open spec fn piece(s: Seq<Instruction>, p: int, b: Seq<Instruction>) -> bool {
    let e = p + 1 + b.len();
    &&& e <= s.len() && b == s.subrange(p + 1, e)
    &&& forall|q: int| p < q < e ==> !(#[trigger] s[q] is Label)
    &&& forall|j: int| 0 <= j < b.len() - 1 ==> !(#[trigger] b[j] is Br)
    &&& e < s.len() ==> s[e] is Label || (b.len() > 0 && b.last() is Br)
}
/// every label with its piece, and nothing else
pub open spec fn pieces(s: Seq<Instruction>, m: Map<LabelId, Label>) -> bool {
    &&& forall|p: int| 0 <= p < s.len() && #[trigger] s[p] is Label ==> m.contains_key(label_of(s[p])->0) && m[label_of(s[p])->0].label == label_of(s[p])->0 && piece(s, p, m[label_of(s[p])->0].instrs@)
    &&& forall|l: LabelId| #[trigger] m.contains_key(l) ==> has_label(s, l)
}
//@fn src/relooper/blocks.rs Label::new
//@ret r
//@spec
    ensures r.label == label, r.instrs@.len() == 0,
//@end
//@fn src/relooper/soupify.rs instructions_to_soup_of_labels
//@ret r
//@iter 0 it
//@subst let mut labels = HashMap::new(); => let mut labels: HashMap<LabelId, Label> = HashMap::new();
//@spec
    requires instrs@.len() > 0, instrs@[0] is Label, distinct_labels(instrs@),
    ensures pieces(instrs@, r.0@), label_of(instrs@[0]) == Some(r.1),
//@start
    let ghost s = instrs@;
    let ghost mut at: int = 0;
//@loop 0
    invariant
        it.seq() == s, s.len() > 0, s[0] is Label, distinct_labels(s), pieces(s.take(it.index@ as int), labels@), 0 <= at,
        it.index@ == 0 ==> current_label_id is None,
        it.index@ > 0 ==> entry == label_of(s[0]) && current_label_id is Some && at < it.index@ && label_of(s[at]) == current_label_id && forall|q: int| at < q < it.index@ ==> !(#[trigger] s[q] is Label),
//@loop 0 start
        let ghost k = it.index@ as int;
        let ghost m0 = labels@;
        let ghost now = instr;
        let ghost (u, w) = (s.take(k), s.take(k + 1));
        proof {
            assert(now == s[k]);
            assert forall|p: int| 0 <= p < k implies #[trigger] w[p] == u[p] by { }
            assert forall|l: LabelId| #[trigger] m0.contains_key(l) implies has_label(w, l) by { let p = choose|p: int| 0 <= p < u.len() && label_of(#[trigger] u[p]) == Some(l); assert(label_of(w[p]) == Some(l)); }
            if k > 0 { assert(u[at] is Label); }
        }
//@loop 0 end
        proof {
            if now is Label { at = k; assert(label_of(w[k]) == label_of(s[k])); }
            assert forall|p: int| 0 <= p < w.len() && #[trigger] w[p] is Label implies labels@.contains_key(label_of(w[p])->0) && labels@[label_of(w[p])->0].label == label_of(w[p])->0 && piece(w, p, labels@[label_of(w[p])->0].instrs@) by {
                let l = label_of(w[p])->0;
                if p < k {
                    assert(u[p] is Label);
                    assert(label_of(s[p]) == Some(l));
                    let b = m0[l].instrs@;
                    let e = p + 1 + b.len();
                    assert(piece(u, p, b));
                    assert(b =~= w.subrange(p + 1, e));
                    assert(e < k ==> w[e] == u[e]);
                    if now is Label { assert(s[p] is Label && s[k] is Label); assert(labels@[l] == m0[l]); assert(e == k ==> w[e] is Label); }
                    else if p == at {
                        if b.len() > 0 && b.last() is Br { assert(labels@[l].instrs@ == b); }
                        else {
                            assert(e == k) by { if e < k { assert(u[e] is Label); assert(s[e] is Label); } }
                            assert(labels@[l].instrs@ =~= b.push(now)); assert(labels@[l].instrs@ =~= w.subrange(p + 1, k + 1));
                        }
                    }
                    else { assert(s[at] is Label && s[p] is Label); assert(p < at); assert(labels@[l] == m0[l]); assert(e <= at) by { if e > at { assert(u[at] is Label); } } }
                } else { assert(w.subrange(k + 1, k + 1) =~= labels@[l].instrs@); }
            }
        }
//@loop 0 after
    proof { assert(s.take(s.len() as int) =~= s); }
//@end
/// labels have been handed out
pub open spec fn labels_below(s: Seq<Instruction>, n: nat) -> bool { forall|p: int| 0 <= p < s.len() && #[trigger] s[p] is Label ==> label_of(s[p])->0.idx() < n }
pub open spec fn targets_known(s: Seq<Instruction>, t: Seq<Instruction>) -> bool { forall|p: int| 0 <= p < s.len() && jumps(#[trigger] s[p]) ==> has_label(t, target_of(s[p])->0) }
/// a jump stands before every label
pub open spec fn led(s: Seq<Instruction>) -> bool { forall|p: int| 0 <= p < s.len() && #[trigger] s[p] is Label ==> p > 0 && jumps(s[p - 1]) }
/// what stands before a label is a plain jump, or a label
pub open spec fn joined(s: Seq<Instruction>, p: int) -> bool { p > 0 && (s[p - 1] is Br || s[p - 1] is Label) }
/// neither label nor plain jump
pub open spec fn plain(i: Instruction) -> bool { !(i is Label) && !(i is Br) }
pub open spec fn plains(s: Seq<Instruction>) -> Seq<Instruction>
    decreases s.len(),
{
    if s.len() == 0 { s } else if plain(s.last()) { plains(s.drop_last()).push(s.last()) } else { plains(s.drop_last()) }
}
pub proof fn lemma_has_push(s: Seq<Instruction>, i: Instruction)
    ensures forall|l: LabelId| #[trigger] has_label(s.push(i), l) == (has_label(s, l) || label_of(i) == Some(l)),
{
    let t = s.push(i);
    assert forall|l: LabelId| #[trigger] has_label(t, l) == (has_label(s, l) || label_of(i) == Some(l)) by {
        if has_label(t, l) { let p = choose|p: int| 0 <= p < t.len() && label_of(#[trigger] t[p]) == Some(l); if p < s.len() { assert(label_of(s[p]) == Some(l)); } }
        if has_label(s, l) { let p = choose|p: int| 0 <= p < s.len() && label_of(#[trigger] s[p]) == Some(l); assert(label_of(t[p]) == Some(l)); }
        if label_of(i) == Some(l) { assert(label_of(t[s.len() as int]) == Some(l)); }
    }
}
pub proof fn lemma_distinct_push(s: Seq<Instruction>, i: Instruction)
    requires distinct_labels(s), i is Label ==> !has_label(s, label_of(i)->0),
    ensures distinct_labels(s.push(i)),
{
    let t = s.push(i);
    assert forall|p: int, q: int| 0 <= p < q < t.len() && #[trigger] t[p] is Label && #[trigger] t[q] is Label implies label_of(t[p]) != label_of(t[q]) by { assert(t[p] == s[p]); if q < s.len() { assert(t[q] == s[q]); } else { assert(label_of(s[p]) == label_of(t[p])); } }
}
pub proof fn lemma_distinct_pop(s: Seq<Instruction>)
    requires distinct_labels(s), s.len() > 0,
    ensures distinct_labels(s.drop_last()), s.last() is Label ==> !has_label(s.drop_last(), label_of(s.last())->0), s == s.drop_last().push(s.last()),
{
    let u = s.drop_last();
    assert(s =~= u.push(s.last()));
    assert forall|p: int, q: int| 0 <= p < q < u.len() && #[trigger] u[p] is Label && #[trigger] u[q] is Label implies label_of(u[p]) != label_of(u[q]) by { assert(s[p] is Label && s[q] is Label); }
    if s.last() is Label && has_label(u, label_of(s.last())->0) { let p = choose|p: int| 0 <= p < u.len() && label_of(#[trigger] u[p]) == label_of(s.last()); assert(s[p] is Label && s[s.len() - 1] is Label); }
}
pub proof fn lemma_explicit(s: Seq<Instruction>, t: Seq<Instruction>)
    requires explicit(s, t), distinct_labels(s),
    ensures distinct_labels(t), led(t), t.len() <= 2 * s.len(), t.len() >= s.len(), forall|l: LabelId| #[trigger] has_label(t, l) == has_label(s, l), s.len() > 0 ==> t.last() == s.last(), plains(t) == plains(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let (s1, i) = (s.drop_last(), s.last());
        lemma_distinct_pop(s);
        lemma_has_push(s1, i);
        if i is Label && falls(s1) {
            let t1 = t.drop_last().drop_last();
            let j = t[t.len() - 2];
            lemma_explicit(s1, t1);
            assert(t =~= t1.push(j).push(i));
            lemma_has_push(t1, j);
            lemma_has_push(t1.push(j), i);
            lemma_distinct_push(t1, j);
            lemma_distinct_push(t1.push(j), i);
            assert(t.drop_last() =~= t1.push(j));
            assert(plains(t) == plains(t.drop_last()));
            assert(plains(t.drop_last()) == plains(t.drop_last().drop_last()));
            assert forall|p: int| 0 <= p < t.len() && #[trigger] t[p] is Label implies p > 0 && jumps(t[p - 1]) by { if p < t1.len() { assert(t1[p] is Label); assert(t[p - 1] == t1[p - 1]); } }
        } else {
            let t1 = t.drop_last();
            lemma_explicit(s1, t1);
            assert(t =~= t1.push(i));
            lemma_has_push(t1, i);
            lemma_distinct_push(t1, i);
            assert forall|p: int| 0 <= p < t.len() && #[trigger] t[p] is Label implies p > 0 && jumps(t[p - 1]) by { if p < t1.len() { assert(t1[p] is Label); assert(t[p - 1] == t1[p - 1]); } else { assert(jumps(s1.last())); assert(t[p - 1] == t1.last()); } }
        }
    } else { assert(t =~= s); }
}
pub proof fn lemma_gaps(s: Seq<Instruction>, t: Seq<Instruction>, lo: nat, hi: nat)
    requires gaps(s, t, lo, hi), distinct_labels(s), labels_below(s, lo), led(s),
    ensures
        distinct_labels(t), labels_below(t, hi), lo <= hi, t.len() >= s.len(), t.len() <= 3 * s.len(), forall|l: LabelId| has_label(s, l) ==> #[trigger] has_label(t, l), forall|l: LabelId| #[trigger] has_label(t, l) ==> has_label(s, l) || lo <= l.idx() < hi,
        forall|p: int| 0 <= p < t.len() && #[trigger] t[p] is Label ==> joined(t, p), s.len() > 0 ==> t.last() == if conditional(s.last()) { t.last() } else { s.last() }, s.len() > 0 && conditional(s.last()) ==> t.last() is Label, plains(t) == plains(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let (s1, i) = (s.drop_last(), s.last());
        lemma_distinct_pop(s);
        lemma_has_push(s1, i);
        assert(labels_below(s1, lo)) by { assert forall|p: int| 0 <= p < s1.len() && #[trigger] s1[p] is Label implies label_of(s1[p])->0.idx() < lo by { assert(s[p] is Label); } }
        assert(led(s1)) by { assert forall|p: int| 0 <= p < s1.len() && #[trigger] s1[p] is Label implies p > 0 && jumps(s1[p - 1]) by { assert(s[p] is Label); } }
        if conditional(i) {
            let t1 = t.drop_last().drop_last().drop_last();
            let (a, b) = (t[t.len() - 2], t.last());
            let h = (hi - 1) as nat;
            lemma_gaps(s1, t1, lo, h);
            assert(t =~= t1.push(i).push(a).push(b));
            lemma_has_push(t1, i);
            lemma_has_push(t1.push(i), a);
            lemma_has_push(t1.push(i).push(a), b);
            lemma_distinct_push(t1, i);
            lemma_distinct_push(t1.push(i), a);
            let u = t1.push(i).push(a);
            assert(!has_label(u, label_of(b)->0)) by { if has_label(u, label_of(b)->0) { assert(has_label(t1, label_of(b)->0)); let p = choose|p: int| 0 <= p < t1.len() && label_of(#[trigger] t1[p]) == Some(label_of(b)->0); assert(t1[p] is Label); } }
            lemma_distinct_push(u, b);
            assert(t.drop_last() =~= u);
            assert(u.drop_last() =~= t1.push(i));
            assert(t1.push(i).drop_last() =~= t1);
            assert(plains(t) == plains(u));
            assert(plains(u) == plains(t1.push(i)));
            assert(plains(t1.push(i)) == plains(t1).push(i));
            assert forall|p: int| 0 <= p < t.len() && #[trigger] t[p] is Label implies joined(t, p) && label_of(t[p])->0.idx() < hi by { if p < t1.len() { assert(t1[p] is Label); assert(joined(t1, p)); assert(t[p - 1] == t1[p - 1]); } else { assert(p == t.len() - 1); } }
        } else {
            let t1 = t.drop_last();
            lemma_gaps(s1, t1, lo, hi);
            assert(t =~= t1.push(i));
            lemma_has_push(t1, i);
            if i is Label { assert(s[s.len() - 1] is Label); if has_label(t1, label_of(i)->0) { assert(label_of(i)->0.idx() < lo); assert(has_label(s1, label_of(i)->0)); } assert(s.len() > 1 && jumps(s[s.len() - 2])); assert(s1.last() == s[s.len() - 2]); }
            lemma_distinct_push(t1, i);
            assert forall|p: int| 0 <= p < t.len() && #[trigger] t[p] is Label implies joined(t, p) && label_of(t[p])->0.idx() < hi by {
                if p < t1.len() { assert(t1[p] is Label); assert(joined(t1, p)); assert(t[p - 1] == t1[p - 1]); } else { assert(t[p - 1] == t1.last()); }
            }
        }
    } else { assert(t =~= s); }
}
/// ready for merging: starts with a label, and what stands before any other is a plain jump or a label
pub open spec fn tidy(s: Seq<Instruction>) -> bool { s.len() > 0 && s[0] is Label && distinct_labels(s) && forall|p: int| 0 < p < s.len() && #[trigger] s[p] is Label ==> joined(s, p) }
/// a label that stays
pub open spec fn head_at(s: Seq<Instruction>, p: int, l: LabelId) -> bool { 0 <= p < s.len() && label_of(s[p]) == Some(l) && !follows_label(s, p) }
pub open spec fn part(s: Seq<Instruction>, m: Map<LabelId, LabelId>, k: int) -> Seq<Instruction> { retargeted(m, s).take(k).filter(keeper(m)) }
pub proof fn lemma_part(s: Seq<Instruction>, m: Map<LabelId, LabelId>, k: int)
    requires merges(s, m), tidy(s), 0 <= k <= s.len(),
    ensures
        distinct_labels(part(s, m, k)), k > 0 ==> part(s, m, k).len() > 0 && part(s, m, k)[0] == s[0], part(s, m, k).len() <= k,
        k > 0 && s[k - 1] is Label ==> part(s, m, k).last() is Label, k > 0 && !(s[k - 1] is Label) ==> part(s, m, k).last() == retarget(m, s[k - 1]),
        forall|p: int| 0 < p < part(s, m, k).len() && #[trigger] part(s, m, k)[p] is Label ==> part(s, m, k)[p - 1] is Br,
        forall|l: LabelId| #[trigger] has_label(part(s, m, k), l) ==> has_label(s.take(k), l),
        forall|p: int, l: LabelId| #[trigger] head_at(s, p, l) && p < k ==> has_label(part(s, m, k), l),
        plains(part(s, m, k)) == retargeted(m, plains(s.take(k))),
    decreases k,
{
    reveal(Seq::filter);
    let r = retargeted(m, s);
    if k > 0 {
        let j = k - 1;
        let (u, w) = (part(s, m, j), part(s, m, k));
        lemma_part(s, m, j);
        let i = r[j];
        assert(r.take(k).drop_last() =~= r.take(j));
        assert(r.take(k).last() == i);
        assert(s.take(k).drop_last() =~= s.take(j));
        assert(s.take(k) =~= s.take(j).push(s[j]));
        lemma_has_push(s.take(j), s[j]);
        lemma_has_push(u, i);
        assert(label_of(i) == label_of(s[j]));
        let kept = not_merged(m, i);
        assert(keeper(m)(i) == kept);
        assert(w == if kept { u.push(i) } else { u });
        assert(u.push(i).drop_last() =~= u);
        if s[j] is Label {
            let l = label_of(s[j])->0;
            if m.contains_key(l) { let p = choose|p: int| #[trigger] follows_label(s, p) && label_of(s[p]) == Some(l); assert(s[p] is Label && s[j] is Label); assert(p == j); assert(follows_label(s, j)); }
            assert(kept == !follows_label(s, j));
            if kept && j > 0 { assert(joined(s, j)); assert(s[j - 1] is Br); assert(u.last() is Br); }
            if has_label(u, l) { assert(has_label(s.take(j), l)); let p = choose|p: int| 0 <= p < j && label_of(#[trigger] s.take(j)[p]) == Some(l); assert(s[p] is Label && s[j] is Label); }
        }
        if kept { lemma_distinct_push(u, i); }
        assert forall|p: int| 0 < p < w.len() && #[trigger] w[p] is Label implies w[p - 1] is Br by { if p < u.len() { assert(u[p] is Label); assert(w[p - 1] == u[p - 1]); } else { assert(w[p - 1] == u.last()); } }
        assert forall|p: int, l: LabelId| #[trigger] head_at(s, p, l) && p < k implies has_label(w, l) by { if p == j { assert(kept); } }
        let q = plains(s.take(j));
        assert(retargeted(m, q.push(s[j])) =~= retargeted(m, q).push(i));
        assert(plain(i) == plain(s[j]));
        assert(plain(i) ==> kept);
    } else { assert(r.take(0).filter(keeper(m)) =~= Seq::<Instruction>::empty()); assert(retargeted(m, plains(s.take(0))) =~= Seq::<Instruction>::empty()); }
}
/// what cutting into pieces starts from
pub open spec fn cuttable(t: Seq<Instruction>) -> bool { t.len() > 0 && t[0] is Label && distinct_labels(t) && forall|p: int| 0 < p < t.len() && #[trigger] t[p] is Label ==> t[p - 1] is Br }
/// the instructions except labels and plain jumps are the same, but for the labels that stand for others
pub open spec fn same_plains(s: Seq<Instruction>, t: Seq<Instruction>, m: Map<LabelId, LabelId>) -> bool { plains(t) == retargeted(m, plains(s)) }
pub proof fn lemma_merged(s: Seq<Instruction>, t: Seq<Instruction>, m: Map<LabelId, LabelId>)
    requires merged_by(s, t, m), tidy(s),
    ensures cuttable(t), same_plains(s, t, m), t.len() <= s.len(), targets_known(s, s) ==> targets_known(t, t),
{
    let r = retargeted(m, s);
    lemma_part(s, m, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert(r.take(s.len() as int) =~= r);
    assert(part(s, m, s.len() as int) == t);
    if targets_known(s, s) {
        assert forall|p: int| 0 <= p < t.len() && jumps(#[trigger] t[p]) implies has_label(t, target_of(t[p])->0) by {
            assert(t.contains(t[p]));
            lemma_filter_from(r, keeper(m), t[p]);
            let q = choose|q: int| 0 <= q < r.len() && #[trigger] r[q] == t[p];
            assert(jumps(s[q]));
            let l = target_of(s[q])->0;
            assert(target_of(t[p]) == Some(renamed(m, l)));
            let a = choose|a: int| 0 <= a < s.len() && label_of(#[trigger] s[a]) == Some(l);
            if m.contains_key(l) {
                let b = choose|b: int| #[trigger] follows_label(s, b) && label_of(s[b]) == Some(l);
                lemma_run_head(s, b);
                assert(head_at(s, run_start(s, b), m[l]));
            } else { assert(!follows_label(s, a)) by { if follows_label(s, a) { assert(m.contains_key(l)); } } assert(head_at(s, a, l)); }
        }
    }
}
pub proof fn lemma_run_head(s: Seq<Instruction>, p: int)
    requires 0 <= p < s.len(), s[p] is Label,
    ensures 0 <= run_start(s, p) <= p, s[run_start(s, p)] is Label, !follows_label(s, run_start(s, p)),
    decreases p,
{ if 0 < p && s[p - 1] is Label { lemma_run_head(s, p - 1); } }
pub proof fn lemma_filter_from<T>(s: Seq<T>, f: spec_fn(T) -> bool, x: T)
    requires s.filter(f).contains(x),
    ensures exists|q: int| 0 <= q < s.len() && #[trigger] s[q] == x,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let u = s.drop_last();
        if u.filter(f).contains(x) { lemma_filter_from(u, f, x); let q = choose|q: int| 0 <= q < u.len() && #[trigger] u[q] == x; assert(s[q] == x); }
        else { assert(s.filter(f) == u.filter(f).push(s.last())); let q = choose|q: int| 0 <= q < s.filter(f).len() && s.filter(f)[q] == x; if q < u.filter(f).len() { assert(u.filter(f)[q] == x); } assert(s[s.len() - 1] == x); }
    }
}
pub proof fn lemma_entered(s: Seq<Instruction>, t: Seq<Instruction>, lo: nat, hi: nat)
    requires entered(s, t, lo, hi), distinct_labels(s), labels_below(s, lo), forall|p: int| 0 <= p < s.len() && #[trigger] s[p] is Label ==> joined(s, p),
    ensures tidy(t), t.len() <= s.len() + 1, plains(t) == plains(s), targets_known(s, s) ==> targets_known(t, t), hi == lo + 1,
{
    if s.len() > 0 && s[0] is Label { assert(joined(s, 0)); }
    let f = t[0];
    assert forall|p: int| 0 < p < t.len() implies #[trigger] t[p] == s[p - 1] by { assert(t.drop_first()[p - 1] == s[p - 1]); }
    assert forall|p: int, q: int| 0 <= p < q < t.len() && #[trigger] t[p] is Label && #[trigger] t[q] is Label implies label_of(t[p]) != label_of(t[q]) by { assert(s[q - 1] is Label); if p > 0 { assert(s[p - 1] is Label); } }
    assert forall|p: int| 0 < p < t.len() && #[trigger] t[p] is Label implies joined(t, p) by { assert(s[p - 1] is Label); assert(joined(s, p - 1)); assert(t[p - 1] == s[p - 2]); }
    lemma_plains_front(s, f);
    assert(t =~= seq![f] + s);
    if targets_known(s, s) {
        assert forall|p: int| 0 <= p < t.len() && jumps(#[trigger] t[p]) implies has_label(t, target_of(t[p])->0) by {
            let l = target_of(t[p])->0;
            assert(jumps(s[p - 1]));
            let a = choose|a: int| 0 <= a < s.len() && label_of(#[trigger] s[a]) == Some(l);
            assert(label_of(t[a + 1]) == Some(l));
        }
    }
}
pub proof fn lemma_plains_front(s: Seq<Instruction>, f: Instruction)
    requires f is Label,
    ensures plains(seq![f] + s) == plains(s),
    decreases s.len(),
{
    let t = seq![f] + s;
    if s.len() > 0 { lemma_plains_front(s.drop_last(), f); assert(t.drop_last() =~= seq![f] + s.drop_last()); assert(t.last() == s.last()); } else { assert(t.drop_last() =~= Seq::<Instruction>::empty()); assert(t.last() == f); assert(t.len() == 1); assert(!plain(f)); assert(plains(t) == plains(t.drop_last())); assert(plains(t.drop_last()) =~= Seq::<Instruction>::empty()); assert(plains(s) =~= Seq::<Instruction>::empty()); }
}
pub proof fn lemma_explicit_targets(s: Seq<Instruction>, t: Seq<Instruction>, o: Seq<Instruction>)
    requires explicit(s, t), targets_known(s, o), forall|l: LabelId| has_label(s, l) ==> #[trigger] has_label(o, l),
    ensures targets_known(t, o),
    decreases s.len(),
{
    if s.len() > 0 {
        let (s1, i) = (s.drop_last(), s.last());
        assert(s =~= s1.push(i));
        lemma_has_push(s1, i);
        assert(targets_known(s1, o)) by { assert forall|p: int| 0 <= p < s1.len() && jumps(#[trigger] s1[p]) implies has_label(o, target_of(s1[p])->0) by { assert(jumps(s[p])); } }
        assert(jumps(i) ==> has_label(o, target_of(i)->0)) by { if jumps(i) { assert(jumps(s[s.len() - 1])); } }
        if i is Label && falls(s1) {
            let t1 = t.drop_last().drop_last();
            lemma_explicit_targets(s1, t1, o);
            assert(has_label(s, label_of(i)->0));
            assert forall|p: int| 0 <= p < t.len() && jumps(#[trigger] t[p]) implies has_label(o, target_of(t[p])->0) by { if p < t1.len() { assert(jumps(t1[p])); } }
        } else {
            let t1 = t.drop_last();
            lemma_explicit_targets(s1, t1, o);
            assert forall|p: int| 0 <= p < t.len() && jumps(#[trigger] t[p]) implies has_label(o, target_of(t[p])->0) by { if p < t1.len() { assert(jumps(t1[p])); } }
        }
    }
}
pub proof fn lemma_gaps_targets(s: Seq<Instruction>, t: Seq<Instruction>, lo: nat, hi: nat, o: Seq<Instruction>)
    requires gaps(s, t, lo, hi), targets_known(s, o), forall|l: LabelId| has_label(t, l) ==> #[trigger] has_label(o, l),
    ensures targets_known(t, o),
    decreases s.len(),
{
    if s.len() > 0 {
        let (s1, i) = (s.drop_last(), s.last());
        assert(targets_known(s1, o)) by { assert forall|p: int| 0 <= p < s1.len() && jumps(#[trigger] s1[p]) implies has_label(o, target_of(s1[p])->0) by { assert(jumps(s[p])); } }
        assert(jumps(i) ==> has_label(o, target_of(i)->0)) by { if jumps(i) { assert(jumps(s[s.len() - 1])); } }
        let t1 = if conditional(i) { t.drop_last().drop_last().drop_last() } else { t.drop_last() };
        assert forall|l: LabelId| has_label(t1, l) implies #[trigger] has_label(o, l) by { let p = choose|p: int| 0 <= p < t1.len() && label_of(#[trigger] t1[p]) == Some(l); assert(label_of(t[p]) == Some(l)); assert(has_label(t, l)); }
        lemma_gaps_targets(s1, t1, lo, if conditional(i) { (hi - 1) as nat } else { hi }, o);
        assert forall|p: int| 0 <= p < t.len() && jumps(#[trigger] t[p]) implies has_label(o, target_of(t[p])->0) by {
            if p < t1.len() { assert(jumps(t1[p])); } else if conditional(i) && p == t.len() - 2 { assert(label_of(t[t.len() - 1]) is Some); assert(has_label(t, label_of(t.last())->0)); }
        }
    }
}
/// the lists between the four steps, and the labels merged away
pub struct Steps { pub explicit: Seq<Instruction>, pub gaps: Seq<Instruction>, pub mid: nat, pub entered: Seq<Instruction>, pub merged: Seq<Instruction>, pub m: Map<LabelId, LabelId> }
impl Steps {
    pub open spec fn of(&self, s: Seq<Instruction>, lo: nat, hi: nat) -> bool {
        explicit(s, self.explicit) && gaps(self.explicit, self.gaps, lo, self.mid) && entered(self.gaps, self.entered, self.mid, hi) && merged_by(self.entered, self.merged, self.m)
    }
}
/// every piece leads on by a jump, but for the last, which ends where the list does
pub open spec fn leads_on(b: Seq<Instruction>, t: Seq<Instruction>) -> bool { (b.len() > 0 && b.last() is Br) || (b.len() < t.len() && b == t.skip(t.len() - b.len())) }
/// jumps go to pieces
pub open spec fn closed(m: Map<LabelId, Label>) -> bool { forall|l: LabelId, j: int| #![trigger m[l].instrs@[j]] m.contains_key(l) && 0 <= j < m[l].instrs@.len() && jumps(m[l].instrs@[j]) ==> m.contains_key(target_of(m[l].instrs@[j])->0) }
pub proof fn lemma_piece_at(t: Seq<Instruction>, m: Map<LabelId, Label>, l: LabelId) -> (p: int)
    requires pieces(t, m), m.contains_key(l),
    ensures 0 <= p < t.len(), t[p] is Label, label_of(t[p]) == Some(l), piece(t, p, m[l].instrs@),
{
    assert(has_label(t, l));
    let p = choose|p: int| 0 <= p < t.len() && label_of(#[trigger] t[p]) == Some(l);
    assert(t[p] is Label);
    p
}
pub proof fn lemma_has_piece(t: Seq<Instruction>, m: Map<LabelId, Label>, l: LabelId)
    requires pieces(t, m), has_label(t, l),
    ensures m.contains_key(l),
{
    let p = choose|p: int| 0 <= p < t.len() && label_of(#[trigger] t[p]) == Some(l);
    assert(t[p] is Label);
}
pub proof fn lemma_piece_leads(t: Seq<Instruction>, m: Map<LabelId, Label>, l: LabelId)
    requires pieces(t, m), cuttable(t), m.contains_key(l),
    ensures leads_on(m[l].instrs@, t),
{
    hide(pieces);
    let p = lemma_piece_at(t, m, l);
    let b = m[l].instrs@;
    let e = p + 1 + b.len();
    if e < t.len() { if !(b.len() > 0 && b.last() is Br) { assert(t[e] is Label); assert(t[e - 1] is Br); assert(e - 1 != p); assert(b.last() == t[e - 1]); } } else { assert(b =~= t.skip(t.len() - b.len())); }
}
pub proof fn lemma_piece_closed(t: Seq<Instruction>, m: Map<LabelId, Label>, l: LabelId, j: int)
    requires pieces(t, m), targets_known(t, t), m.contains_key(l), 0 <= j < m[l].instrs@.len(), jumps(m[l].instrs@[j]),
    ensures m.contains_key(target_of(m[l].instrs@[j])->0),
{
    hide(pieces);
    let p = lemma_piece_at(t, m, l);
    let b = m[l].instrs@;
    assert(b[j] == t[p + 1 + j]);
    assert(jumps(t[p + 1 + j]));
    assert(has_label(t, target_of(t[p + 1 + j])->0));
    lemma_has_piece(t, m, target_of(b[j])->0);
}
pub proof fn lemma_pieces(t: Seq<Instruction>, m: Map<LabelId, Label>)
    requires pieces(t, m), cuttable(t), paired(t),
    ensures forall|l: LabelId| #[trigger] m.contains_key(l) ==> leads_on(m[l].instrs@, t), forall|l: LabelId| #[trigger] m.contains_key(l) ==> neat(m[l].instrs@), targets_known(t, t) ==> closed(m),
{
    hide(pieces); hide(cuttable); hide(targets_known); hide(leads_on); hide(paired); hide(neat);
    assert forall|l: LabelId| #[trigger] m.contains_key(l) implies neat(m[l].instrs@) by { lemma_piece_neat(t, m, l); }
    assert forall|l: LabelId| #[trigger] m.contains_key(l) implies leads_on(m[l].instrs@, t) by { lemma_piece_leads(t, m, l); }
    if targets_known(t, t) {
        assert forall|l: LabelId, j: int| #![trigger m[l].instrs@[j]] m.contains_key(l) && 0 <= j < m[l].instrs@.len() && jumps(m[l].instrs@[j]) implies m.contains_key(target_of(m[l].instrs@[j])->0) by { lemma_piece_closed(t, m, l, j); }
    }
}
pub open spec fn cond_at(s: Seq<Instruction>, p: int) -> bool { 0 <= p < s.len() && conditional(s[p]) }
pub open spec fn br_at(s: Seq<Instruction>, p: int) -> bool { 0 <= p < s.len() && s[p] is Br }
/// a plain jump stands right behind every conditional one
pub open spec fn paired(s: Seq<Instruction>) -> bool { forall|p: int| #[trigger] cond_at(s, p) ==> br_at(s, p + 1) }
/// jumps stand at the end: a plain one last, a conditional one right before it
pub open spec fn neat(b: Seq<Instruction>) -> bool { (forall|j: int| #[trigger] cond_at(b, j) ==> j + 2 == b.len() && b.last() is Br) && forall|j: int| 0 <= j < b.len() - 1 ==> !(#[trigger] b[j] is Br) }
pub proof fn lemma_gaps_paired(s: Seq<Instruction>, t: Seq<Instruction>, lo: nat, hi: nat)
    requires gaps(s, t, lo, hi),
    ensures paired(t),
    decreases s.len(),
{
    if s.len() > 0 {
        let t1 = if conditional(s.last()) { t.drop_last().drop_last().drop_last() } else { t.drop_last() };
        lemma_gaps_paired(s.drop_last(), t1, lo, if conditional(s.last()) { (hi - 1) as nat } else { hi });
        assert forall|p: int| #[trigger] cond_at(t, p) implies br_at(t, p + 1) by {
            if p < t1.len() { assert(t1[p] == t[p]); assert(cond_at(t1, p)); assert(br_at(t1, p + 1)); assert(t1[p + 1] == t[p + 1]); }
            else if conditional(s.last()) { assert(t1.len() == t.len() - 3); if p == t.len() - 3 { assert(t[p + 1] is Br); } else if p == t.len() - 2 { assert(t[p] is Br); } else { assert(t[p] is Label); } }
            else { assert(p == t.len() - 1); }
        }
    }
}
pub proof fn lemma_entered_paired(s: Seq<Instruction>, t: Seq<Instruction>, lo: nat, hi: nat)
    requires entered(s, t, lo, hi), paired(s),
    ensures paired(t),
{
    if !(s.len() > 0 && s[0] is Label) {
        assert forall|p: int| #[trigger] cond_at(t, p) implies br_at(t, p + 1) by {
            if p > 0 { assert(t.drop_first()[p - 1] == t[p]); assert(cond_at(s, p - 1)); assert(br_at(s, p)); assert(t.drop_first()[p] == t[p + 1]); }
        }
    }
}
pub proof fn lemma_part_paired(s: Seq<Instruction>, m: Map<LabelId, LabelId>, k: int)
    requires paired(s), 0 <= k <= s.len(),
    ensures forall|p: int| #[trigger] cond_at(part(s, m, k), p) ==> br_at(part(s, m, k), p + 1) || (p == part(s, m, k).len() - 1 && cond_at(s, k - 1)),
    decreases k,
{
    reveal(Seq::filter);
    let r = retargeted(m, s);
    if k > 0 {
        let j = k - 1;
        let (u, w) = (part(s, m, j), part(s, m, k));
        lemma_part_paired(s, m, j);
        let i = r[j];
        assert(r.take(k).drop_last() =~= r.take(j));
        assert(r.take(k).last() == i);
        let kept = not_merged(m, i);
        assert(keeper(m)(i) == kept);
        assert(w == if kept { u.push(i) } else { u });
        assert(conditional(i) == conditional(s[j]));
        assert((i is Br) == (s[j] is Br));
        assert forall|p: int| #[trigger] cond_at(w, p) implies br_at(w, p + 1) || (p == w.len() - 1 && cond_at(s, k - 1)) by {
            if p < u.len() {
                assert(u[p] == w[p]);
                assert(cond_at(u, p));
                if br_at(u, p + 1) { assert(w[p + 1] == u[p + 1]); }
                else { assert(cond_at(s, j - 1)); assert(br_at(s, j)); assert(kept); }
            } else { assert(w[p] == i); assert(cond_at(s, j)); }
        }
    } else { assert(r.take(0).filter(keeper(m)) =~= Seq::<Instruction>::empty()); }
}
pub proof fn lemma_merged_paired(s: Seq<Instruction>, t: Seq<Instruction>, m: Map<LabelId, LabelId>)
    requires merged_by(s, t, m), paired(s),
    ensures paired(t),
{
    let r = retargeted(m, s);
    lemma_part_paired(s, m, s.len() as int);
    assert(r.take(s.len() as int) =~= r);
    assert(part(s, m, s.len() as int) == t);
    assert forall|p: int| #[trigger] cond_at(t, p) implies br_at(t, p + 1) by { if !br_at(t, p + 1) { assert(cond_at(s, s.len() - 1)); assert(br_at(s, s.len() as int)); } }
}
pub proof fn lemma_piece_neat(t: Seq<Instruction>, m: Map<LabelId, Label>, l: LabelId)
    requires pieces(t, m), paired(t), m.contains_key(l),
    ensures neat(m[l].instrs@),
{
    hide(pieces);
    let p = lemma_piece_at(t, m, l);
    let b = m[l].instrs@;
    let e = p + 1 + b.len();
    assert forall|j: int| #[trigger] cond_at(b, j) implies j + 2 == b.len() && b.last() is Br by {
        let q = p + 1 + j;
        assert(b[j] == t[q]);
        assert(cond_at(t, q));
        assert(br_at(t, q + 1));
        if q + 1 < e { assert(b[j + 1] == t[q + 1]); } else { assert(j == b.len() - 1); assert(t[e] is Br); }
    }
}
pub proof fn lemma_cuttable(t: Seq<Instruction>)
    requires cuttable(t),
    ensures t.len() > 0, t[0] is Label, distinct_labels(t),
{ }
pub proof fn lemma_cut_up(s: Seq<Instruction>, lo: nat, hi: nat, m: Map<LabelId, Label>, e: LabelId, w: Steps)
    requires w.of(s, lo, hi), distinct_labels(s), labels_below(s, lo), pieces(w.merged, m), label_of(w.merged[0]) == Some(e),
    ensures cut_up(s, lo, hi, m, e, w),
{
    hide(pieces);
    lemma_steps(s, lo, hi, w);
    lemma_pieces(w.merged, m);
}
pub open spec fn cut_up(s: Seq<Instruction>, lo: nat, hi: nat, m: Map<LabelId, Label>, entry: LabelId, w: Steps) -> bool {
    &&& w.of(s, lo, hi) && cuttable(w.merged) && pieces(w.merged, m) && label_of(w.merged[0]) == Some(entry)
    &&& same_plains(s, w.merged, w.m)
    &&& forall|l: LabelId| #[trigger] m.contains_key(l) ==> leads_on(m[l].instrs@, w.merged)
    &&& forall|l: LabelId| #[trigger] m.contains_key(l) ==> neat(m[l].instrs@)
    &&& targets_known(s, s) ==> closed(m)
}
pub proof fn lemma_below(s: Seq<Instruction>, t: Seq<Instruction>, lo: nat)
    requires labels_below(s, lo), forall|l: LabelId| #[trigger] has_label(t, l) == has_label(s, l),
    ensures labels_below(t, lo),
{
    assert forall|p: int| 0 <= p < t.len() && #[trigger] t[p] is Label implies label_of(t[p])->0.idx() < lo by { let l = label_of(t[p])->0; assert(has_label(t, l)); let q = choose|q: int| 0 <= q < s.len() && label_of(#[trigger] s[q]) == Some(l); assert(s[q] is Label); }
}
pub proof fn lemma_steps(s: Seq<Instruction>, lo: nat, hi: nat, w: Steps)
    requires w.of(s, lo, hi), distinct_labels(s), labels_below(s, lo),
    ensures cuttable(w.merged), paired(w.merged), same_plains(s, w.merged, w.m), targets_known(s, s) ==> targets_known(w.merged, w.merged),
{
    lemma_gaps_paired(w.explicit, w.gaps, lo, w.mid);
    lemma_entered_paired(w.gaps, w.entered, w.mid, hi);
    lemma_merged_paired(w.entered, w.merged, w.m);
    lemma_explicit(s, w.explicit);
    lemma_below(s, w.explicit, lo);
    lemma_gaps(w.explicit, w.gaps, lo, w.mid);
    lemma_entered(w.gaps, w.entered, w.mid, hi);
    lemma_merged(w.entered, w.merged, w.m);
    if targets_known(s, s) {
        lemma_explicit_targets(s, w.explicit, w.explicit) ;
        assert(targets_known(w.explicit, w.gaps)) by { assert forall|p: int| 0 <= p < w.explicit.len() && jumps(#[trigger] w.explicit[p]) implies has_label(w.gaps, target_of(w.explicit[p])->0) by { assert(has_label(w.explicit, target_of(w.explicit[p])->0)); } }
        lemma_gaps_targets(w.explicit, w.gaps, lo, w.mid, w.gaps);
    }
}
//@fn src/relooper/soupify.rs soupify
//@ret r
//@subst instructions_to_soup_of_labels(instrs) => { let out = instructions_to_soup_of_labels(instrs); proof { lemma_cut_up(s, lo, hi, out.0@, out.1, w); } out }
//@spec
    requires
        instrs@.len() > 0, distinct_labels(instrs@), labels_below(instrs@, old(prog_metadata).label_id_generator.count()),
        instrs@.len() * 7 + 1 <= usize::MAX, old(prog_metadata).spare_instrs((5 * instrs@.len() + 1) as int), old(prog_metadata).label_id_generator.count() + 2 * instrs@.len() + 1 <= u64::MAX,
    ensures
        exists|w: Steps| #[trigger] cut_up(instrs@, old(prog_metadata).label_id_generator.count(), final(prog_metadata).label_id_generator.count(), r.0@, r.1, w),
        *final(prog_metadata) == (ProgramMetadata { instr_id_generator: final(prog_metadata).instr_id_generator, label_id_generator: final(prog_metadata).label_id_generator, ..*old(prog_metadata) }),
//@start
    hide(pieces); hide(cut_up); hide(cuttable); hide(explicit); hide(gaps); hide(entered); hide(merged_by); hide(merges); hide(targets_known); hide(same_plains); hide(labels_below); hide(distinct_labels);
    let ghost s = instrs@;
    let ghost lo = prog_metadata.label_id_generator.count();
//@after remove_label_fallthrough
    let ghost t1 = instrs@;
    proof { lemma_explicit(s, t1); lemma_below(s, t1, lo); }
//@after add_block_gap_labels_after_conditionals
    let ghost t2 = instrs@;
    let ghost mid = prog_metadata.label_id_generator.count();
    proof { lemma_gaps(t1, t2, lo, mid); }
//@after insert_entry_label_if_necessary
    let ghost t3 = instrs@;
    let ghost hi = prog_metadata.label_id_generator.count();
    proof { lemma_entered(t2, t3, mid, hi); }
//@after remove_consecutive_labels
    let ghost t4 = instrs@;
    let ghost m = choose|m: Map<LabelId, LabelId>| merged_by(t3, t4, m);
    let ghost w = Steps { explicit: t1, gaps: t2, mid, entered: t3, merged: t4, m };
    proof { assert(w.of(s, lo, hi)); lemma_steps(s, lo, hi, w); lemma_cuttable(t4); }
//@end
// which piece leads to which
pub open spec fn goes(s: Seq<Instruction>, l: LabelId) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] target_of(s[k]) == Some(l) }
pub open spec fn nodup(s: Seq<LabelId>) -> bool { forall|p: int, q: int| 0 <= p < q < s.len() ==> #[trigger] s[p] != #[trigger] s[q] }
/// the list holds the targets of the instructions, each once
pub open spec fn targets_are(s: Seq<Instruction>, v: Seq<LabelId>) -> bool { nodup(v) && forall|l: LabelId| #[trigger] v.contains(l) == goes(s, l) }
pub proof fn lemma_goes_push(s: Seq<Instruction>, i: Instruction)
    ensures forall|l: LabelId| #[trigger] goes(s.push(i), l) == (goes(s, l) || target_of(i) == Some(l)),
{
    let t = s.push(i);
    assert forall|l: LabelId| #[trigger] goes(t, l) == (goes(s, l) || target_of(i) == Some(l)) by {
        if goes(t, l) { let p = choose|p: int| 0 <= p < t.len() && #[trigger] target_of(t[p]) == Some(l); if p < s.len() { assert(target_of(s[p]) == Some(l)); } }
        if goes(s, l) { let p = choose|p: int| 0 <= p < s.len() && #[trigger] target_of(s[p]) == Some(l); assert(target_of(t[p]) == Some(l)); }
        if target_of(i) == Some(l) { assert(target_of(t[s.len() as int]) == Some(l)); }
    }
}
pub proof fn lemma_listed_push(v: Seq<LabelId>, x: LabelId)
    ensures forall|l: LabelId| #[trigger] v.push(x).contains(l) == (v.contains(l) || l == x), nodup(v) && !v.contains(x) ==> nodup(v.push(x)),
{
    let w = v.push(x);
    assert forall|l: LabelId| #[trigger] w.contains(l) == (v.contains(l) || l == x) by {
        if w.contains(l) { let p = choose|p: int| 0 <= p < w.len() && w[p] == l; if p < v.len() { assert(v[p] == l); } }
        if v.contains(l) { let p = choose|p: int| 0 <= p < v.len() && v[p] == l; assert(w[p] == l); }
        if l == x { assert(w[v.len() as int] == l); }
    }
}
/// `contains` of a list: some element is equal
pub assume_specification<T: PartialEq>[<[T]>::contains](s: &[T], x: &T) -> (b: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> b == exists|k: int| 0 <= k < s@.len() && <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&#[trigger] s@[k], x),
;
//@fn src/relooper/blocks.rs Label::possible_branch_targets
//@ret r
//@subst let mut targets = Vec::new(); => let mut targets: Vec<LabelId> = Vec::new();
//@spec
    ensures targets_are(self.instrs@, r@),
//@iter 0 it
//@loop 0
    invariant
        it.seq().len() == self.instrs@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.instrs@[j],
        targets_are(self.instrs@.take(it.index@ as int), targets@),
//@loop 0 start
        let ghost k = it.index@ as int;
        let ghost was = targets@;
        proof { assert(self.instrs@.take(k + 1) =~= self.instrs@.take(k).push(self.instrs@[k])); lemma_goes_push(self.instrs@.take(k), self.instrs@[k]); if target_of(self.instrs@[k]) is Some { lemma_listed_push(was, target_of(self.instrs@[k])->0); } }
//@loop 0 after
    proof { assert(self.instrs@.take(self.instrs@.len() as int) =~= self.instrs@); }
//@end
/// one jump
pub open spec fn hop(m: Map<LabelId, Label>, a: LabelId, b: LabelId) -> bool { m.contains_key(a) && goes(m[a].instrs@, b) }
/// there is a way of n jumps from piece to piece
pub open spec fn way(m: Map<LabelId, Label>, a: LabelId, b: LabelId, n: nat) -> bool
    decreases n,
{
    if n == 0 { a == b } else { exists|c: LabelId| #[trigger] hop(m, c, b) && way(m, a, c, (n - 1) as nat) }
}
/// at least one jump
pub open spec fn reaches(m: Map<LabelId, Label>, a: LabelId, b: LabelId) -> bool { exists|n: nat| n > 0 && #[trigger] way(m, a, b, n) }
/// the list holds exactly what can be reached from a, each once
pub open spec fn reach_list(m: Map<LabelId, Label>, a: LabelId, v: Seq<LabelId>) -> bool { nodup(v) && forall|l: LabelId| #[trigger] v.contains(l) == reaches(m, a, l) }
pub open spec fn reach_map(m: Map<LabelId, Label>, r: Map<LabelId, Vec<LabelId>>) -> bool { r.dom() =~= m.dom() && forall|a: LabelId| #[trigger] r.contains_key(a) ==> reach_list(m, a, r[a]@) }
/// what is listed can be reached
pub open spec fn sound_list(m: Map<LabelId, Label>, a: LabelId, v: Seq<LabelId>) -> bool { nodup(v) && (forall|l: LabelId| #[trigger] v.contains(l) ==> reaches(m, a, l)) && forall|l: LabelId| m.contains_key(a) && #[trigger] goes(m[a].instrs@, l) ==> v.contains(l) }
/// one jump further from the first k entries is listed too
pub open spec fn closed_to(m: Map<LabelId, Label>, v: Seq<LabelId>, k: int) -> bool { forall|p: int, l: LabelId| 0 <= p < k && m.contains_key(v[p]) && #[trigger] goes(m[#[trigger] v[p]].instrs@, l) ==> v.contains(l) }
pub proof fn lemma_one_jump(m: Map<LabelId, Label>, a: LabelId, b: LabelId)
    requires m.contains_key(a), goes(m[a].instrs@, b),
    ensures reaches(m, a, b),
{ assert(way(m, a, a, 0)); assert(hop(m, a, b)); assert(way(m, a, b, 1)); }
pub proof fn lemma_jump_more(m: Map<LabelId, Label>, a: LabelId, c: LabelId, b: LabelId)
    requires reaches(m, a, c), m.contains_key(c), goes(m[c].instrs@, b),
    ensures reaches(m, a, b),
{ let n = choose|n: nat| n > 0 && #[trigger] way(m, a, c, n); assert(hop(m, c, b)); assert(way(m, a, b, n + 1)); }
pub proof fn lemma_way_listed(m: Map<LabelId, Label>, a: LabelId, v: Seq<LabelId>, b: LabelId, n: nat)
    requires m.contains_key(a), sound_list(m, a, v), closed_to(m, v, v.len() as int), n > 0, way(m, a, b, n),
    ensures v.contains(b),
    decreases n,
{
    let c = choose|c: LabelId| #[trigger] hop(m, c, b) && way(m, a, c, (n - 1) as nat);
    if n == 1 { assert(c == a); } else {
        lemma_way_listed(m, a, v, c, (n - 1) as nat);
        let p = choose|p: int| 0 <= p < v.len() && v[p] == c;
        assert(goes(m[v[p]].instrs@, b));
    }
}
pub proof fn lemma_closed_list(m: Map<LabelId, Label>, a: LabelId, v: Seq<LabelId>)
    requires m.contains_key(a), sound_list(m, a, v), closed_to(m, v, v.len() as int),
    ensures reach_list(m, a, v),
{ assert forall|l: LabelId| #[trigger] v.contains(l) == reaches(m, a, l) by { if reaches(m, a, l) { let n = choose|n: nat| n > 0 && #[trigger] way(m, a, l, n); lemma_way_listed(m, a, v, l, n); } } }
/// the keys of a table, each once
#[verifier::external_body]
pub fn keys_of(m: &HashMap<LabelId, Vec<LabelId>>) -> (r: Vec<LabelId>)
    ensures nodup(r@), forall|l: LabelId| #[trigger] r@.contains(l) == m@.contains_key(l),
{
    m.keys().cloned().collect()
}
pub open spec fn all_sound(m: Map<LabelId, Label>, r: Map<LabelId, Vec<LabelId>>) -> bool { r.dom() =~= m.dom() && forall|a: LabelId| #[trigger] r.contains_key(a) ==> sound_list(m, a, r[a]@) }
pub open spec fn jump_map(m: Map<LabelId, Label>, t: Map<LabelId, Vec<LabelId>>) -> bool { t.dom() =~= m.dom() && forall|a: LabelId| #[trigger] t.contains_key(a) ==> targets_are(m[a].instrs@, t[a]@) }
/// pieces are filed under their own labels
pub open spec fn filed(m: Map<LabelId, Label>) -> bool { forall|l: LabelId| #[trigger] m.contains_key(l) ==> m[l].label == l }
pub proof fn lemma_jumps_sound(m: Map<LabelId, Label>, t: Map<LabelId, Vec<LabelId>>)
    requires jump_map(m, t),
    ensures all_sound(m, t),
{
    assert forall|a: LabelId| #[trigger] t.contains_key(a) implies sound_list(m, a, t[a]@) by {
        assert(targets_are(m[a].instrs@, t[a]@));
        assert forall|l: LabelId| #[trigger] t[a]@.contains(l) implies reaches(m, a, l) by { lemma_one_jump(m, a, l); }
        assert forall|l: LabelId| m.contains_key(a) && #[trigger] goes(m[a].instrs@, l) implies t[a]@.contains(l) by { }
    }
}
pub proof fn lemma_sound_push(m: Map<LabelId, Label>, a: LabelId, v: Seq<LabelId>, x: LabelId, k: int)
    requires sound_list(m, a, v), !v.contains(x), reaches(m, a, x), closed_to(m, v, k), 0 <= k <= v.len(),
    ensures sound_list(m, a, v.push(x)), closed_to(m, v.push(x), k),
{
    lemma_listed_push(v, x);
    let w = v.push(x);
    assert forall|p: int, l: LabelId| 0 <= p < k && m.contains_key(w[p]) && #[trigger] goes(m[#[trigger] w[p]].instrs@, l) implies w.contains(l) by { assert(w[p] == v[p]); assert(v.contains(l)); }
}
pub proof fn lemma_closed_next(m: Map<LabelId, Label>, t: Map<LabelId, Vec<LabelId>>, v: Seq<LabelId>, k: int)
    requires jump_map(m, t), closed_to(m, v, k), 0 <= k < v.len(), m.contains_key(v[k]) ==> forall|j: int| 0 <= j < t[v[k]]@.len() ==> v.contains(#[trigger] t[v[k]]@[j]),
    ensures closed_to(m, v, k + 1),
{
    assert forall|p: int, l: LabelId| 0 <= p < k + 1 && m.contains_key(v[p]) && #[trigger] goes(m[#[trigger] v[p]].instrs@, l) implies v.contains(l) by {
        if p == k { assert(t.contains_key(v[k])); assert(targets_are(m[v[k]].instrs@, t[v[k]]@)); assert(t[v[k]]@.contains(l)); let j = choose|j: int| 0 <= j < t[v[k]]@.len() && t[v[k]]@[j] == l; assert(v.contains(t[v[k]]@[j])); }
    }
}
//@type src/relooper/relooper.rs ReachabilityMap
//@fn src/relooper/relooper.rs calculate_reachability
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst let mut possible_branch_targets = HashMap::new(); => let mut possible_branch_targets: HashMap<LabelId, Vec<LabelId>> = HashMap::new();
//@subst let mut reachability: ReachabilityMap = => let mut reachability: HashMap<LabelId, Vec<LabelId>> =
//@subst for (_source_label, reachable_labels) in reachability.iter_mut() => let keys = keys_of(&reachability); for _source_label in itK: &keys
//@subst let mut i = 0; => let reachable_labels = reachability.get_mut_of(_source_label).unwrap(); let mut i: usize = 0;
//@subst let reachable_label = => let none: Vec<LabelId> = Vec::new(); let reachable_label =
//@subst .unwrap_or(&Vec::<LabelId>::new()) => .unwrap_or(&none)
//@iter 0 itL
//@iter 4 itD
//@spec
    requires filed(labels@),
    ensures reach_map(labels@, r@),
//@start
    let ghost m = labels@;
//@loop 0
    invariant
        m == labels@, filed(m),
        forall|a: LabelId| #[trigger] possible_branch_targets@.contains_key(a) ==> m.contains_key(a) && targets_are(m[a].instrs@, possible_branch_targets@[a]@),
        forall|j: int| #![trigger itL.seq()[j]] 0 <= j < itL.index@ ==> possible_branch_targets@.contains_key(itL.seq()[j].label),
//@loop 0 start
        proof { assert(m.values().contains(*label)); assert(m.contains_key(label.label)); }
//@loop 0 after
    let ghost t = possible_branch_targets@;
    proof {
        assert forall|a: LabelId| m.contains_key(a) implies t.contains_key(a) by { assert(m.values().contains(m[a])); }
        assert(jump_map(m, t));
    }
//@before loop {
    proof { lemma_jumps_sound(m, t); assert(reachability@ =~= t); }
//@loop 1 after
    proof { assert forall|b: LabelId| #[trigger] reachability@.contains_key(b) implies reach_list(m, b, reachability@[b]@) by { lemma_closed_list(m, b, reachability@[b]@); } }
//@loop 1
    invariant_except_break
        m == labels@, jump_map(m, possible_branch_targets@), all_sound(m, reachability@),
    ensures
        all_sound(m, reachability@), forall|a: LabelId| #[trigger] reachability@.contains_key(a) ==> closed_to(m, reachability@[a]@, reachability@[a]@.len() as int),
//@loop 2
    invariant
        m == labels@, jump_map(m, possible_branch_targets@), all_sound(m, reachability@), nodup(keys@), forall|l: LabelId| #[trigger] keys@.contains(l) == m.contains_key(l),
        itK.seq().len() == keys@.len(), forall|j: int| 0 <= j < itK.seq().len() ==> *#[trigger] itK.seq()[j] == keys@[j],
        forall|j: int| #![trigger keys@[j]] 0 <= j < itK.index@ ==> closed_to(m, reachability@[keys@[j]]@, reachability@[keys@[j]]@.len() as int),
//@loop 2 start
        let ghost a = *_source_label;
        let ghost before = reachability@;
        proof { assert(a == keys@[itK.index@ as int]); assert(keys@.contains(a)); assert(before.contains_key(a)); assert(sound_list(m, a, before[a]@)); }
//@loop 2 end
        proof {
            assert(reachability@ =~= before.insert(a, *reachable_labels));
        }
//@loop 2 after
        proof { assert forall|b: LabelId| #[trigger] reachability@.contains_key(b) implies closed_to(m, reachability@[b]@, reachability@[b]@.len() as int) by { assert(keys@.contains(b)); let j = choose|j: int| 0 <= j < keys@.len() && keys@[j] == b; assert(closed_to(m, reachability@[keys@[j]]@, reachability@[keys@[j]]@.len() as int)); } }
//@loop 3
    invariant_except_break
        m == labels@, m.contains_key(a), jump_map(m, possible_branch_targets@), sound_list(m, a, reachable_labels@), closed_to(m, reachable_labels@, i as int), 0 <= i <= reachable_labels@.len(),
    ensures
        sound_list(m, a, reachable_labels@), closed_to(m, reachable_labels@, reachable_labels@.len() as int),
//@loop 3 start
            let ghost x = reachable_labels@[i as int];
            proof { if i < reachable_labels@.len() { assert(reachable_labels@[i as int] == x); assert(reachable_labels@.contains(x)); } }
//@loop 4
    invariant
        m == labels@, m.contains_key(a), jump_map(m, possible_branch_targets@), sound_list(m, a, reachable_labels@), closed_to(m, reachable_labels@, i as int), 0 <= i < reachable_labels@.len(),
        reachable_labels@[i as int] == x, reaches(m, a, x),
        possible_branch_targets@.contains_key(x) ==> itD.seq().len() == possible_branch_targets@[x]@.len() && forall|j: int| 0 <= j < itD.seq().len() ==> *#[trigger] itD.seq()[j] == possible_branch_targets@[x]@[j],
        !possible_branch_targets@.contains_key(x) ==> itD.seq().len() == 0,
        possible_branch_targets@.contains_key(x) ==> forall|j: int| 0 <= j < itD.index@ ==> reachable_labels@.contains(#[trigger] possible_branch_targets@[x]@[j]),
//@loop 4 start
                let ghost was = reachable_labels@;
                let ghost d = *dest_label;
                proof {
                    let k = itD.index@ as int;
                    assert(possible_branch_targets@[x]@[k] == d);
                    assert(possible_branch_targets@[x]@.contains(d));
                    assert(targets_are(m[x].instrs@, possible_branch_targets@[x]@));
                    lemma_jump_more(m, a, x, d);
                    if !was.contains(d) { lemma_sound_push(m, a, was, d, i as int); lemma_listed_push(was, d); }
                }
//@loop 4 after
            proof {
                let t = possible_branch_targets@;
                if m.contains_key(x) { assert forall|j: int| 0 <= j < t[x]@.len() implies reachable_labels@.contains(#[trigger] t[x]@[j]) by { } }
                lemma_closed_next(m, t, reachable_labels@, i as int);
            }
//@end
