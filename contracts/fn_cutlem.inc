// what cutting keeps
pub open spec fn clear_of(s: Set<InstructionId>, d: Set<InstructionId>, r: NewInstrs) -> bool { forall|n: InstructionId| #[trigger] s.contains(n) ==> !d.contains(n) && !r.contains_key(n) }
/// nothing to cut
pub proof fn lemma_uncut(s: Seq<Instruction>, d: Set<InstructionId>, r: NewInstrs)
    requires clear_of(ids_of(s), d, r),
    ensures is_cut(s, s, d, r),
    decreases s,
{
    if s.len() > 0 {
        assert(ids_of(s).contains(s.last().id())) by { assert(ids_in(s.last()).contains(s.last().id())); }
        assert(clear_of(ids_of(s.drop_last()), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_of(s.drop_last()).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_of(s).contains(n)); } }
        assert(clear_of(ids_in(s.last()), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_in(s.last()).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_of(s).contains(n)); } }
        lemma_uncut(s.drop_last(), d, r);
        lemma_uncut_in(s.last(), d, r);
    }
}
pub proof fn lemma_uncut_in(i: Instruction, d: Set<InstructionId>, r: NewInstrs)
    requires clear_of(ids_in(i), d, r),
    ensures is_cut_in(i, i, d, r),
    decreases i,
{
    assert(ids_in(i).contains(i.id()));
    match i {
        Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => {
            assert(clear_of(ids_of(a@), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_of(a@).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_in(i).contains(n)); } }
            assert(clear_of(ids_of(b@), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_of(b@).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_in(i).contains(n)); } }
            lemma_uncut(a@, d, r);
            lemma_uncut(b@, d, r);
        }
        _ => {}
    }
}
pub proof fn lemma_uncut_block(b: Block, d: Set<InstructionId>, r: NewInstrs)
    requires clear_of(ids_block(b), d, r),
    ensures is_cut_block(b, b, d, r),
    decreases b,
{
    match b {
        Block::Simple { internal, next } => {
            assert(clear_of(ids_of(internal.instrs@), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_of(internal.instrs@).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_block(b).contains(n)); } }
            lemma_uncut(internal.instrs@, d, r);
            match next { Some(x) => { assert(clear_of(ids_block(*x), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_block(*x).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_block(b).contains(n)); } } lemma_uncut_block(*x, d, r); } None => {} }
        }
        Block::Loop { inner, next, .. } => {
            assert(clear_of(ids_block(*inner), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_block(*inner).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_block(b).contains(n)); } }
            lemma_uncut_block(*inner, d, r);
            match next { Some(x) => { assert(clear_of(ids_block(*x), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_block(*x).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_block(b).contains(n)); } } lemma_uncut_block(*x, d, r); } None => {} }
        }
        Block::Multiple { handled_blocks, next, .. } => {
            assert(clear_of(ids_blocks(handled_blocks@), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_blocks(handled_blocks@).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_block(b).contains(n)); } }
            lemma_uncut_blocks(handled_blocks@, d, r);
            match next { Some(x) => { assert(clear_of(ids_block(*x), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_block(*x).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_block(b).contains(n)); } } lemma_uncut_block(*x, d, r); } None => {} }
        }
    }
}
pub proof fn lemma_uncut_blocks(s: Seq<Block>, d: Set<InstructionId>, r: NewInstrs)
    requires clear_of(ids_blocks(s), d, r),
    ensures is_cut_blocks(s, s, d, r),
    decreases s,
{
    if s.len() > 0 {
        assert(clear_of(ids_blocks(s.drop_last()), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_blocks(s.drop_last()).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_blocks(s).contains(n)); } }
        assert(clear_of(ids_block(s.last()), d, r)) by { assert forall|n: InstructionId| #[trigger] ids_block(s.last()).contains(n) implies !d.contains(n) && !r.contains_key(n) by { assert(ids_blocks(s).contains(n)); } }
        lemma_uncut_blocks(s.drop_last(), d, r);
        lemma_uncut_block(s.last(), d, r);
    }
}
/// one after the other
pub proof fn lemma_cut_join(a: Seq<Instruction>, a2: Seq<Instruction>, b: Seq<Instruction>, b2: Seq<Instruction>, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut(a, a2, d, r), is_cut(b, b2, d, r),
    ensures is_cut(a + b, a2 + b2, d, r),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(a2 + b2 =~= a2); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        if d.contains(b.last().id()) { lemma_cut_join(a, a2, b.drop_last(), b2, d, r); } else {
            lemma_cut_join(a, a2, b.drop_last(), b2.drop_last(), d, r);
            assert((a2 + b2).drop_last() =~= a2 + b2.drop_last());
            assert((a2 + b2).last() == b2.last());
        }
    }
}
pub proof fn lemma_blocks_join(a: Seq<Block>, a2: Seq<Block>, b: Seq<Block>, b2: Seq<Block>, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut_blocks(a, a2, d, r), is_cut_blocks(b, b2, d, r),
    ensures is_cut_blocks(a + b, a2 + b2, d, r),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(a2 + b2 =~= a2); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a2 + b2).drop_last() =~= a2 + b2.drop_last());
        assert((a + b).last() == b.last() && (a2 + b2).last() == b2.last());
        lemma_blocks_join(a, a2, b.drop_last(), b2.drop_last(), d, r);
    }
}
/// a part and the rest have no identity in common
pub proof fn lemma_parts(s: Seq<Instruction>, k: int)
    requires 0 <= k <= s.len(),
    ensures ids_of(s) =~= ids_of(s.take(k)).union(ids_of(s.skip(k))), distinct(s) ==> distinct(s.take(k)) && distinct(s.skip(k)) && ids_of(s.take(k)).disjoint(ids_of(s.skip(k))),
    decreases s.len(),
{
    if k == s.len() { assert(s.take(k) =~= s); assert(s.skip(k).len() == 0); } else {
        let t = s.drop_last();
        lemma_parts(t, k);
        assert(t.take(k) =~= s.take(k));
        assert(s.skip(k).drop_last() =~= t.skip(k));
        assert(s.skip(k).last() == s.last());
    }
}
pub proof fn lemma_parts_blocks(s: Seq<Block>, k: int)
    requires 0 <= k <= s.len(),
    ensures ids_blocks(s) =~= ids_blocks(s.take(k)).union(ids_blocks(s.skip(k))), distinct_blocks(s) ==> distinct_blocks(s.take(k)) && distinct_blocks(s.skip(k)) && ids_blocks(s.take(k)).disjoint(ids_blocks(s.skip(k))),
    decreases s.len(),
{
    if k == s.len() { assert(s.take(k) =~= s); assert(s.skip(k).len() == 0); } else {
        let t = s.drop_last();
        lemma_parts_blocks(t, k);
        assert(t.take(k) =~= s.take(k));
        assert(s.skip(k).drop_last() =~= t.skip(k));
        assert(s.skip(k).last() == s.last());
    }
}
/// replacements are calls under the same identity
pub open spec fn calls(r: NewInstrs) -> bool { forall|n: InstructionId| #[trigger] r.contains_key(n) ==> r[n].id() == n && r[n] is Call }
// cut and cut again
pub proof fn lemma_again(s: Seq<Instruction>, t: Seq<Instruction>, u: Seq<Instruction>, d: Set<InstructionId>, r: NewInstrs, e: Set<InstructionId>, q: NewInstrs)
    requires is_cut(s, t, d, r), is_cut(t, u, e, q), calls(r),
    ensures is_cut(s, u, d.union(e), r.union_prefer_right(q)),
    decreases s,
{
    if s.len() > 0 {
        if d.contains(s.last().id()) { lemma_again(s.drop_last(), t, u, d, r, e, q); } else {
            lemma_cut_id(s.last(), t.last(), d, r);
            if e.contains(t.last().id()) { lemma_again(s.drop_last(), t.drop_last(), u, d, r, e, q); } else {
                lemma_again(s.drop_last(), t.drop_last(), u.drop_last(), d, r, e, q);
                lemma_again_in(s.last(), t.last(), u.last(), d, r, e, q);
            }
        }
    }
}
pub proof fn lemma_cut_id(i: Instruction, j: Instruction, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut_in(i, j, d, r), calls(r),
    ensures j.id() == i.id(),
{}
pub proof fn lemma_again_in(i: Instruction, j: Instruction, k: Instruction, d: Set<InstructionId>, r: NewInstrs, e: Set<InstructionId>, q: NewInstrs)
    requires is_cut_in(i, j, d, r), is_cut_in(j, k, e, q), calls(r),
    ensures is_cut_in(i, k, d.union(e), r.union_prefer_right(q)),
    decreases i,
{
    lemma_cut_id(i, j, d, r);
    let m = r.union_prefer_right(q);
    if !q.contains_key(i.id()) && !r.contains_key(i.id()) {
        match (i, j, k) {
            (Instruction::IfEqElse(_, _, _, a, b), Instruction::IfEqElse(_, _, _, a1, b1), Instruction::IfEqElse(_, _, _, a2, b2)) => { lemma_again(a@, a1@, a2@, d, r, e, q); lemma_again(b@, b1@, b2@, d, r, e, q); }
            (Instruction::IfNotEqElse(_, _, _, a, b), Instruction::IfNotEqElse(_, _, _, a1, b1), Instruction::IfNotEqElse(_, _, _, a2, b2)) => { lemma_again(a@, a1@, a2@, d, r, e, q); lemma_again(b@, b1@, b2@, d, r, e, q); }
            _ => {}
        }
    }
}
pub proof fn lemma_again_block(b: Block, c: Block, f: Block, d: Set<InstructionId>, r: NewInstrs, e: Set<InstructionId>, q: NewInstrs)
    requires is_cut_block(b, c, d, r), is_cut_block(c, f, e, q), calls(r),
    ensures is_cut_block(b, f, d.union(e), r.union_prefer_right(q)),
    decreases b,
{
    match (b, c, f) {
        (Block::Simple { internal: i, next: x }, Block::Simple { internal: j, next: y }, Block::Simple { internal: k, next: z }) => {
            lemma_again(i.instrs@, j.instrs@, k.instrs@, d, r, e, q);
            if x is Some { lemma_again_block(*x->0, *y->0, *z->0, d, r, e, q); }
        }
        (Block::Loop { inner: i, next: x, .. }, Block::Loop { inner: j, next: y, .. }, Block::Loop { inner: k, next: z, .. }) => {
            lemma_again_block(*i, *j, *k, d, r, e, q);
            if x is Some { lemma_again_block(*x->0, *y->0, *z->0, d, r, e, q); }
        }
        (Block::Multiple { handled_blocks: i, next: x, .. }, Block::Multiple { handled_blocks: j, next: y, .. }, Block::Multiple { handled_blocks: k, next: z, .. }) => {
            lemma_again_blocks(i@, j@, k@, d, r, e, q);
            if x is Some { lemma_again_block(*x->0, *y->0, *z->0, d, r, e, q); }
        }
        _ => {}
    }
}
pub proof fn lemma_again_blocks(s: Seq<Block>, t: Seq<Block>, u: Seq<Block>, d: Set<InstructionId>, r: NewInstrs, e: Set<InstructionId>, q: NewInstrs)
    requires is_cut_blocks(s, t, d, r), is_cut_blocks(t, u, e, q), calls(r),
    ensures is_cut_blocks(s, u, d.union(e), r.union_prefer_right(q)),
    decreases s,
{
    if s.len() > 0 { lemma_again_blocks(s.drop_last(), t.drop_last(), u.drop_last(), d, r, e, q); lemma_again_block(s.last(), t.last(), u.last(), d, r, e, q); }
}
// what is left has the same form
pub open spec fn left(s: Seq<Instruction>, t: Seq<Instruction>) -> bool { ids_of(t).subset_of(ids_of(s)) && (distinct(s) ==> distinct(t)) && (good(s) ==> good(t)) }
pub open spec fn left_in(i: Instruction, j: Instruction) -> bool { ids_in(j).subset_of(ids_in(i)) && (distinct_in(i) ==> distinct_in(j)) && (good_in(i) ==> good_in(j)) }
pub open spec fn left_block(b: Block, c: Block) -> bool { ids_block(c).subset_of(ids_block(b)) && (distinct_block(b) ==> distinct_block(c)) }
pub open spec fn left_blocks(s: Seq<Block>, t: Seq<Block>) -> bool { ids_blocks(t).subset_of(ids_blocks(s)) && (distinct_blocks(s) ==> distinct_blocks(t)) }
pub proof fn lemma_left(s: Seq<Instruction>, t: Seq<Instruction>, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut(s, t, d, r), calls(r),
    ensures left(s, t),
    decreases s,
{
    if s.len() > 0 {
        if d.contains(s.last().id()) { lemma_left(s.drop_last(), t, d, r); } else { lemma_left(s.drop_last(), t.drop_last(), d, r); lemma_left_in(s.last(), t.last(), d, r); }
    }
}
pub proof fn lemma_left_in(i: Instruction, j: Instruction, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut_in(i, j, d, r), calls(r),
    ensures left_in(i, j),
    decreases i,
{
    assert(ids_in(i).contains(i.id()));
    if r.contains_key(i.id()) { assert(ids_in(j) =~= set![i.id()]); } else {
        match (i, j) {
            (Instruction::IfEqElse(_, _, _, a, b), Instruction::IfEqElse(_, _, _, a1, b1)) => { lemma_left(a@, a1@, d, r); lemma_left(b@, b1@, d, r); }
            (Instruction::IfNotEqElse(_, _, _, a, b), Instruction::IfNotEqElse(_, _, _, a1, b1)) => { lemma_left(a@, a1@, d, r); lemma_left(b@, b1@, d, r); }
            _ => {}
        }
    }
}
pub proof fn lemma_left_block(b: Block, c: Block, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut_block(b, c, d, r), calls(r),
    ensures left_block(b, c),
    decreases b,
{
    match (b, c) {
        (Block::Simple { internal: i, next: x }, Block::Simple { internal: j, next: y }) => {
            lemma_left(i.instrs@, j.instrs@, d, r);
            if x is Some { lemma_left_block(*x->0, *y->0, d, r); }
        }
        (Block::Loop { inner: i, next: x, .. }, Block::Loop { inner: j, next: y, .. }) => {
            lemma_left_block(*i, *j, d, r);
            if x is Some { lemma_left_block(*x->0, *y->0, d, r); }
        }
        (Block::Multiple { handled_blocks: i, next: x, .. }, Block::Multiple { handled_blocks: j, next: y, .. }) => {
            lemma_left_blocks(i@, j@, d, r);
            if x is Some { lemma_left_block(*x->0, *y->0, d, r); }
        }
        _ => {}
    }
}
pub proof fn lemma_left_blocks(s: Seq<Block>, t: Seq<Block>, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut_blocks(s, t, d, r), calls(r),
    ensures left_blocks(s, t),
    decreases s,
{
    if s.len() > 0 { lemma_left_blocks(s.drop_last(), t.drop_last(), d, r); lemma_left_block(s.last(), t.last(), d, r); }
}
// the last instruction of a piece of code that leads nowhere stays
pub open spec fn end_ids(b: Block) -> Set<InstructionId> decreases b {
    match b {
        Block::Simple { internal, next } => match next { Some(n) => end_ids(*n), None => if internal.instrs@.len() > 0 { set![internal.instrs@.last().id()] } else { Set::empty() } },
        Block::Loop { inner, next, .. } => end_ids(*inner).union(match next { Some(n) => end_ids(*n), None => Set::empty() }),
        Block::Multiple { handled_blocks, next, .. } => end_ids_of(handled_blocks@).union(match next { Some(n) => end_ids(*n), None => Set::empty() }),
    }
}
pub open spec fn end_ids_of(s: Seq<Block>) -> Set<InstructionId> decreases s { if s.len() == 0 { Set::empty() } else { end_ids_of(s.drop_last()).union(end_ids(s.last())) } }
pub proof fn lemma_ends_in(b: Block)
    ensures end_ids(b).subset_of(ids_block(b)),
    decreases b,
{
    match b {
        Block::Simple { internal, next } => { match next { Some(n) => lemma_ends_in(*n), None => if internal.instrs@.len() > 0 { let i = internal.instrs@.last(); assert(ids_in(i).contains(i.id())); } } }
        Block::Loop { inner, next, .. } => { lemma_ends_in(*inner); match next { Some(n) => lemma_ends_in(*n), None => {} } }
        Block::Multiple { handled_blocks, next, .. } => { lemma_ends_in_of(handled_blocks@); match next { Some(n) => lemma_ends_in(*n), None => {} } }
    }
}
pub proof fn lemma_ends_in_of(s: Seq<Block>)
    ensures end_ids_of(s).subset_of(ids_blocks(s)),
    decreases s,
{ if s.len() > 0 { lemma_ends_in_of(s.drop_last()); lemma_ends_in(s.last()); } }
pub proof fn lemma_occurs_id(s: Seq<Instruction>, x: Instruction)
    requires occurs(s, x),
    ensures ids_of(s).contains(x.id()),
    decreases s,
{ if occurs(s.drop_last(), x) { lemma_occurs_id(s.drop_last(), x); } else { lemma_occurs_id_in(s.last(), x); } }
pub proof fn lemma_occurs_id_in(i: Instruction, x: Instruction)
    requires occurs_in(i, x),
    ensures ids_in(i).contains(x.id()),
    decreases i,
{ if x != i { match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => { if occurs(a@, x) { lemma_occurs_id(a@, x); } else { lemma_occurs_id(b@, x); } } _ => {} } } }
pub proof fn lemma_occurs_id_block(b: Block, x: Instruction)
    requires occurs_block(b, x),
    ensures ids_block(b).contains(x.id()),
    decreases b,
{
    match b {
        Block::Simple { internal, next } => { if occurs(internal.instrs@, x) { lemma_occurs_id(internal.instrs@, x); } else { match next { Some(n) => lemma_occurs_id_block(*n, x), None => {} } } }
        Block::Loop { inner, next, .. } => { if occurs_block(*inner, x) { lemma_occurs_id_block(*inner, x); } else { match next { Some(n) => lemma_occurs_id_block(*n, x), None => {} } } }
        Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } => {
            if occurs(pre_handled_blocks_instrs@, x) { lemma_occurs_id(pre_handled_blocks_instrs@, x); }
            else if occurs_blocks(handled_blocks@, x) { lemma_occurs_id_blocks(handled_blocks@, x); }
            else { match next { Some(n) => lemma_occurs_id_block(*n, x), None => {} } }
        }
    }
}
pub proof fn lemma_occurs_id_blocks(s: Seq<Block>, x: Instruction)
    requires occurs_blocks(s, x),
    ensures ids_blocks(s).contains(x.id()),
    decreases s,
{ if occurs_blocks(s.drop_last(), x) { lemma_occurs_id_blocks(s.drop_last(), x); } else { lemma_occurs_id_block(s.last(), x); } }
/// an instruction that assigns something is not the last one of such a list
pub proof fn lemma_not_last(s: Seq<Instruction>, x: Instruction)
    requires distinct(s), s.len() > 0, def_var(s.last()) is None, occurs(s, x), def_var(x) is Some,
    ensures s.last().id() != x.id(),
{
    let l = s.last();
    let n = x.id();
    assert(ids_in(l).contains(l.id()));
    assert(distinct_in(l));
    if occurs(s.drop_last(), x) {
        lemma_occurs_id(s.drop_last(), x);
        assert(ids_of(s.drop_last()).disjoint(ids_in(l)));
        assert(ids_of(s.drop_last()).contains(n));
        assert(!ids_in(l).contains(n));
    } else {
        assert(occurs_in(l, x));
        assert(x != l);
        match l {
            Instruction::IfEqElse(_, _, _, a, c) | Instruction::IfNotEqElse(_, _, _, a, c) => {
                if occurs(a@, x) { lemma_occurs_id(a@, x); assert(ids_of(a@).contains(n) && !ids_of(a@).contains(l.id())); } else { lemma_occurs_id(c@, x); assert(ids_of(c@).contains(n) && !ids_of(c@).contains(l.id())); }
                assert(n != l.id());
            }
            _ => { assert(false); }
        }
    }
    assert(n != l.id());
}
/// an instruction that assigns something is not such a last one
pub proof fn lemma_not_end(b: Block, x: Instruction)
    requires distinct_block(b), ends_block(b), occurs_block(b, x), def_var(x) is Some,
    ensures !end_ids(b).contains(x.id()),
    decreases b,
{
    match b {
        Block::Simple { internal, next } => {
            let s = internal.instrs@;
            if occurs(s, x) { lemma_occurs_id(s, x); }
            match next {
                Some(n) => {
                    lemma_ends_in(*n);
                    assert(end_ids(b) == end_ids(*n));
                    if !occurs(s, x) { assert(occurs_block(*n, x)); lemma_not_end(*n, x); } else { assert(ids_of(s).disjoint(ids_block(*n))); }
                }
                None => { lemma_not_last(s, x); assert(end_ids(b) =~= set![s.last().id()]); }
            }
            assert(!end_ids(b).contains(x.id()));
        }
        Block::Loop { inner, next, .. } => {
            lemma_ends_in(*inner);
            if next is Some { lemma_ends_in(*next->0); }
            if occurs_block(*inner, x) { lemma_not_end(*inner, x); lemma_occurs_id_block(*inner, x); } else { lemma_not_end(*next->0, x); lemma_occurs_id_block(*next->0, x); }
        }
        Block::Multiple { pre_handled_blocks_instrs, handled_blocks, next, .. } => {
            lemma_ends_in_of(handled_blocks@);
            if next is Some { lemma_ends_in(*next->0); }
            if occurs(pre_handled_blocks_instrs@, x) { lemma_occurs_id(pre_handled_blocks_instrs@, x); }
            else if occurs_blocks(handled_blocks@, x) { lemma_not_end_of(handled_blocks@, x); lemma_occurs_id_blocks(handled_blocks@, x); }
            else { lemma_not_end(*next->0, x); lemma_occurs_id_block(*next->0, x); }
        }
    }
}
pub proof fn lemma_not_end_of(s: Seq<Block>, x: Instruction)
    requires distinct_blocks(s), ends_blocks(s), occurs_blocks(s, x), def_var(x) is Some,
    ensures !end_ids_of(s).contains(x.id()),
    decreases s,
{
    lemma_ends_in_of(s.drop_last());
    lemma_ends_in(s.last());
    if occurs_blocks(s.drop_last(), x) { lemma_not_end_of(s.drop_last(), x); lemma_occurs_id_blocks(s.drop_last(), x); } else { lemma_not_end(s.last(), x); lemma_occurs_id_block(s.last(), x); }
}
pub proof fn lemma_good_left(b: Block, c: Block, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut_block(b, c, d, r), calls(r), good_block(b), d.disjoint(end_ids(b)),
    ensures good_block(c),
    decreases b,
{
    match (b, c) {
        (Block::Simple { internal: i, next: x }, Block::Simple { internal: j, next: y }) => {
            lemma_left(i.instrs@, j.instrs@, d, r);
            if x is Some { lemma_good_left(*x->0, *y->0, d, r); } else { assert(end_ids(b).contains(i.instrs@.last().id())); }
        }
        (Block::Loop { inner: i, next: x, .. }, Block::Loop { inner: j, next: y, .. }) => {
            lemma_good_left(*i, *j, d, r);
            if x is Some { lemma_good_left(*x->0, *y->0, d, r); }
        }
        (Block::Multiple { handled_blocks: i, next: x, .. }, Block::Multiple { handled_blocks: j, next: y, .. }) => {
            lemma_good_left_of(i@, j@, d, r);
            if x is Some { lemma_good_left(*x->0, *y->0, d, r); }
        }
        _ => {}
    }
}
pub proof fn lemma_good_left_of(s: Seq<Block>, t: Seq<Block>, d: Set<InstructionId>, r: NewInstrs)
    requires is_cut_blocks(s, t, d, r), calls(r), good_blocks(s), d.disjoint(end_ids_of(s)),
    ensures good_blocks(t),
    decreases s,
{ if s.len() > 0 { lemma_good_left_of(s.drop_last(), t.drop_last(), d, r); lemma_good_left(s.last(), t.last(), d, r); } }
// no new variable needs a place
pub open spec fn nulls(r: NewInstrs, p: &ProgramMetadata) -> bool { forall|n: InstructionId| #[trigger] r.contains_key(n) ==> r[n] is Call && p.is_null(r[n]->Call_1) }
pub open spec fn nulls_kept(o: &ProgramMetadata, p: &ProgramMetadata) -> bool { o.null_dest_var is Some ==> p.null_dest_var == o.null_dest_var }
pub proof fn lemma_slots_left(s: Seq<Instruction>, t: Seq<Instruction>, d: Set<InstructionId>, r: NewInstrs, o: &ProgramMetadata, p: &ProgramMetadata)
    requires is_cut(s, t, d, r), nulls(r, p), nulls_kept(o, p),
    ensures slots(t, p).subset_of(slots(s, o)),
    decreases s,
{
    if s.len() > 0 {
        if d.contains(s.last().id()) { lemma_slots_left(s.drop_last(), t, d, r, o, p); } else { lemma_slots_left(s.drop_last(), t.drop_last(), d, r, o, p); lemma_slots_left_in(s.last(), t.last(), d, r, o, p); }
    }
}
pub proof fn lemma_slots_left_in(i: Instruction, j: Instruction, d: Set<InstructionId>, r: NewInstrs, o: &ProgramMetadata, p: &ProgramMetadata)
    requires is_cut_in(i, j, d, r), nulls(r, p), nulls_kept(o, p),
    ensures slots_in(j, p).subset_of(slots_in(i, o)),
    decreases i,
{
    if !r.contains_key(i.id()) {
        match (i, j) {
            (Instruction::IfEqElse(_, _, _, a, b), Instruction::IfEqElse(_, _, _, a1, b1)) => { lemma_slots_left(a@, a1@, d, r, o, p); lemma_slots_left(b@, b1@, d, r, o, p); }
            (Instruction::IfNotEqElse(_, _, _, a, b), Instruction::IfNotEqElse(_, _, _, a1, b1)) => { lemma_slots_left(a@, a1@, d, r, o, p); lemma_slots_left(b@, b1@, d, r, o, p); }
            _ => {}
        }
    }
}
pub proof fn lemma_slots_left_block(b: Block, c: Block, d: Set<InstructionId>, r: NewInstrs, o: &ProgramMetadata, p: &ProgramMetadata)
    requires is_cut_block(b, c, d, r), nulls(r, p), nulls_kept(o, p),
    ensures slots_block(c, p).subset_of(slots_block(b, o)),
    decreases b,
{
    match (b, c) {
        (Block::Simple { internal: i, next: x }, Block::Simple { internal: j, next: y }) => {
            lemma_slots_left(i.instrs@, j.instrs@, d, r, o, p);
            if x is Some { lemma_slots_left_block(*x->0, *y->0, d, r, o, p); }
        }
        (Block::Loop { inner: i, next: x, .. }, Block::Loop { inner: j, next: y, .. }) => {
            lemma_slots_left_block(*i, *j, d, r, o, p);
            if x is Some { lemma_slots_left_block(*x->0, *y->0, d, r, o, p); }
        }
        (Block::Multiple { handled_blocks: i, next: x, .. }, Block::Multiple { handled_blocks: j, next: y, .. }) => {
            lemma_slots_left_blocks(i@, j@, d, r, o, p);
            if x is Some { lemma_slots_left_block(*x->0, *y->0, d, r, o, p); }
        }
        _ => {}
    }
}
pub proof fn lemma_slots_left_blocks(s: Seq<Block>, t: Seq<Block>, d: Set<InstructionId>, r: NewInstrs, o: &ProgramMetadata, p: &ProgramMetadata)
    requires is_cut_blocks(s, t, d, r), nulls(r, p), nulls_kept(o, p),
    ensures slots_blocks(t, p).subset_of(slots_blocks(s, o)),
    decreases s,
{ if s.len() > 0 { lemma_slots_left_blocks(s.drop_last(), t.drop_last(), d, r, o, p); lemma_slots_left_block(s.last(), t.last(), d, r, o, p); } }
