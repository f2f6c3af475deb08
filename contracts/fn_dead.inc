// dead code elimination
/// a list of which the first n instructions are dealt with: `t` is what has become of them, the n-th is now `x` (or gone), the rest is as it was
#[verifier::rlimit(60)]
pub proof fn lemma_cut_at(s: Seq<Instruction>, n: int, t: Seq<Instruction>, u: Seq<Instruction>, d: Set<InstructionId>, r: NewInstrs)
    requires 0 <= n < s.len(), distinct(s), is_cut(s.take(n), t, d, r),
        d.contains(s[n].id()) && u == t + s.skip(n + 1) || !d.contains(s[n].id()) && u.len() == s.len() && t.len() == n && u.take(n) == t && u.skip(n + 1) == s.skip(n + 1) && is_cut_in(s[n], u[n], d, r),
        clear_of(ids_of(s.skip(n + 1)), d, r),
    ensures is_cut(s, u, d, r),
{
    let a = s.take(n + 1);
    assert(a.drop_last() =~= s.take(n));
    assert(a.last() == s[n]);
    let rest = s.skip(n + 1);
    lemma_uncut(rest, d, r);
    assert(a + rest =~= s);
    if d.contains(s[n].id()) { lemma_cut_join(a, t, rest, rest, d, r); } else {
        let b = u.take(n + 1);
        assert(b.drop_last() =~= t);
        assert(b.last() == u[n]);
        lemma_cut_join(a, b, rest, rest, d, r);
        assert(b + rest =~= u);
    }
}
/// the rest does not hold what one instruction does
pub proof fn lemma_rest(s: Seq<Instruction>, n: int)
    requires 0 <= n < s.len(), distinct(s),
    ensures distinct_in(s[n]), ids_in(s[n]).disjoint(ids_of(s.skip(n + 1))), ids_of(s.take(n + 1)) =~= ids_of(s.take(n)).union(ids_in(s[n])), ids_of(s) =~= ids_of(s.take(n + 1)).union(ids_of(s.skip(n + 1))),
{
    lemma_parts(s, n + 1);
    let a = s.take(n + 1);
    assert(a.drop_last() =~= s.take(n));
    assert(a.last() == s[n]);
}
//@fn src/middle_end/instructions.rs remove_instr_from_instr_list
//@ret r
//@splitor
//@attr #[verifier::rlimit(60)]
//@spec
    requires distinct(old(instrs)@),
    ensures r == ids_of(old(instrs)@).contains(*instr_id), is_cut(old(instrs)@, final(instrs)@, set![*instr_id], Map::empty()),
    decreases old(instrs)@,
//@start
    let ghost s0 = instrs@;
    let ghost id = *instr_id;
    let ghost d = set![id];
    let ghost r0: NewInstrs = Map::empty();
//@loop 0
    invariant
        distinct(s0), id == *instr_id, d == set![id], r0 == Map::<InstructionId, Instruction>::empty(), s0 == old(instrs)@,
        instrs@.len() == s0.len(), is_cut(s0.take(i as int), instrs@.take(i as int), d, r0), !ids_of(s0.take(i as int)).contains(id), instrs@.skip(i as int) == s0.skip(i as int),
//@loop 0 start
        let ghost k = i as int;
        let ghost s1 = instrs@;
        proof {
            assert(s1.skip(k)[0] == s0.skip(k)[0]);
            assert(s1[k] == s0[k]);
            assert(s1.skip(k + 1) =~= s1.skip(k).skip(1));
            assert(s0.skip(k + 1) =~= s0.skip(k).skip(1));
            lemma_rest(s0, k);
            assert(decreases_to!(s0 => s0[k]));
        }
//@before return true
            proof {
                assert(instrs@ =~= s1.take(k) + s0.skip(k + 1));
                assert(ids_in(s0[k]).contains(id));
                lemma_cut_at(s0, k, s1.take(k), instrs@, d, r0);
            }
//@before return true ##1
            proof {
                let u = instrs@;
                if ids_of(branch_of(s0[k], 0)).contains(id) { lemma_uncut(branch_of(s0[k], 1), d, r0); }
                assert(u.take(k) =~= s1.take(k));
                assert(u.skip(k + 1) =~= s1.skip(k + 1));
                assert(is_cut_in(s0[k], u[k], d, r0));
                assert(ids_in(s0[k]).contains(id));
                lemma_cut_at(s0, k, s1.take(k), u, d, r0);
            }
//@before return true ##2
            proof {
                let u = instrs@;
                if ids_of(branch_of(s0[k], 0)).contains(id) { lemma_uncut(branch_of(s0[k], 1), d, r0); }
                assert(u.take(k) =~= s1.take(k));
                assert(u.skip(k + 1) =~= s1.skip(k + 1));
                assert(is_cut_in(s0[k], u[k], d, r0));
                assert(ids_in(s0[k]).contains(id));
                lemma_cut_at(s0, k, s1.take(k), u, d, r0);
            }
//@loop 0 end
        proof {
            let a = s0.take(k + 1);
            let b = instrs@.take(k + 1);
            assert(a.drop_last() =~= s0.take(k));
            assert(b.drop_last() =~= s1.take(k));
            assert(a.last() == s0[k] && b.last() == instrs@[k]);
            assert(is_cut_in(s0[k], instrs@[k], d, r0));
            assert(instrs@.skip(k + 1) =~= s1.skip(k + 1));
        }
//@loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); assert(instrs@.take(s0.len() as int) =~= instrs@); }
//@end
//@fn src/middle_end/instructions.rs replace_instr_from_instr_list
//@ret r
//@splitor
//@attr #[verifier::rlimit(60)]
//@spec
    requires distinct(old(instrs)@),
    ensures r == ids_of(old(instrs)@).contains(*instr_id), is_cut(old(instrs)@, final(instrs)@, Set::empty(), map![*instr_id => new_instr]),
    decreases old(instrs)@,
//@start
    let ghost s0 = instrs@;
    let ghost id = *instr_id;
    let ghost new = new_instr;
    let ghost d = Set::<InstructionId>::empty();
    let ghost r0: NewInstrs = map![id => new];
//@loop 0
    invariant
        distinct(s0), id == *instr_id, new == new_instr, d == Set::<InstructionId>::empty(), r0 == map![id => new], s0 == old(instrs)@,
        instrs@.len() == s0.len(), is_cut(s0.take(i as int), instrs@.take(i as int), d, r0), !ids_of(s0.take(i as int)).contains(id), instrs@.skip(i as int) == s0.skip(i as int),
//@loop 0 start
        let ghost k = i as int;
        let ghost s1 = instrs@;
        proof {
            assert(s1.skip(k)[0] == s0.skip(k)[0]);
            assert(s1[k] == s0[k]);
            assert(s1.skip(k + 1) =~= s1.skip(k).skip(1));
            assert(s0.skip(k + 1) =~= s0.skip(k).skip(1));
            lemma_rest(s0, k);
            assert(decreases_to!(s0 => s0[k]));
        }
//@before return true
            proof {
                assert(instrs@ =~= s1.update(k, new));
                assert(instrs@.take(k) =~= s1.take(k));
                assert(instrs@.skip(k + 1) =~= s1.skip(k + 1));
                assert(is_cut_in(s0[k], instrs@[k], d, r0));
                assert(ids_in(s0[k]).contains(id));
                lemma_cut_at(s0, k, s1.take(k), instrs@, d, r0);
            }
//@before return true ##1
            proof {
                let u = instrs@;
                if ids_of(branch_of(s0[k], 0)).contains(id) { lemma_uncut(branch_of(s0[k], 1), d, r0); }
                assert(u.take(k) =~= s1.take(k));
                assert(u.skip(k + 1) =~= s1.skip(k + 1));
                assert(is_cut_in(s0[k], u[k], d, r0));
                assert(ids_in(s0[k]).contains(id));
                lemma_cut_at(s0, k, s1.take(k), u, d, r0);
            }
//@before return true ##2
            proof {
                let u = instrs@;
                if ids_of(branch_of(s0[k], 0)).contains(id) { lemma_uncut(branch_of(s0[k], 1), d, r0); }
                assert(u.take(k) =~= s1.take(k));
                assert(u.skip(k + 1) =~= s1.skip(k + 1));
                assert(is_cut_in(s0[k], u[k], d, r0));
                assert(ids_in(s0[k]).contains(id));
                lemma_cut_at(s0, k, s1.take(k), u, d, r0);
            }
//@loop 0 end
        proof {
            let a = s0.take(k + 1);
            let b = instrs@.take(k + 1);
            assert(a.drop_last() =~= s0.take(k));
            assert(b.drop_last() =~= s1.take(k));
            assert(a.last() == s0[k] && b.last() == instrs@[k]);
            assert(is_cut_in(s0[k], instrs@[k], d, r0));
            assert(instrs@.skip(k + 1) =~= s1.skip(k + 1));
        }
//@loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); assert(instrs@.take(s0.len() as int) =~= instrs@); }
//@end
/// the parts of a block that follow the one that has the identity do not
pub proof fn lemma_block_clear(b: Block, id: InstructionId, d: Set<InstructionId>, r: NewInstrs)
    requires distinct_block(b), forall|n: InstructionId| d.contains(n) || r.contains_key(n) ==> n == id,
    ensures match b {
        Block::Simple { internal, next } => ids_of(internal.instrs@).contains(id) ==> match next { Some(n) => clear_of(ids_block(*n), d, r), None => true },
        Block::Loop { inner, next, .. } => ids_block(*inner).contains(id) ==> match next { Some(n) => clear_of(ids_block(*n), d, r), None => true },
        Block::Multiple { handled_blocks, next, .. } => ids_blocks(handled_blocks@).contains(id) ==> match next { Some(n) => clear_of(ids_block(*n), d, r), None => true },
    },
{}
pub proof fn lemma_blocks_rest(s: Seq<Block>, n: int)
    requires 0 <= n < s.len(), distinct_blocks(s),
    ensures distinct_block(s[n]), ids_block(s[n]).disjoint(ids_blocks(s.skip(n + 1))), ids_blocks(s.take(n + 1)) =~= ids_blocks(s.take(n)).union(ids_block(s[n])), ids_blocks(s) =~= ids_blocks(s.take(n + 1)).union(ids_blocks(s.skip(n + 1))),
{
    lemma_parts_blocks(s, n + 1);
    let a = s.take(n + 1);
    assert(a.drop_last() =~= s.take(n));
    assert(a.last() == s[n]);
}
pub proof fn lemma_blocks_at(s: Seq<Block>, n: int, t: Seq<Block>, u: Seq<Block>, id: InstructionId, d: Set<InstructionId>, r: NewInstrs)
    requires 0 <= n < s.len(), distinct_blocks(s), ids_block(s[n]).contains(id), forall|n: InstructionId| d.contains(n) || r.contains_key(n) ==> n == id,
        t.len() == s.len(), u.len() == s.len(), is_cut_blocks(s.take(n), t.take(n), d, r), t.skip(n) == s.skip(n), is_cut_block(s[n], u[n], d, r), u == t.update(n, u[n]),
    ensures is_cut_blocks(s, u, d, r), ids_blocks(s).contains(id),
{
    lemma_blocks_rest(s, n);
    let rest = s.skip(n + 1);
    lemma_uncut_blocks(rest, d, r);
    let a = s.take(n + 1);
    let b = u.take(n + 1);
    assert(a.drop_last() =~= s.take(n));
    assert(b.drop_last() =~= t.take(n));
    assert(a.last() == s[n] && b.last() == u[n]);
    lemma_blocks_join(a, b, rest, rest, d, r);
    assert(u.skip(n + 1) =~= t.skip(n).skip(1));
    assert(rest =~= s.skip(n).skip(1));
    assert(a + rest =~= s);
    assert(b + rest =~= u);
}
// blocks
//@fn src/relooper/blocks.rs Label::remove_instr
//@ret r
//@spec
    requires distinct(old(self).instrs@),
    ensures r == ids_of(old(self).instrs@).contains(*instr_id), final(self).label == old(self).label, is_cut(old(self).instrs@, final(self).instrs@, set![*instr_id], Map::empty()),
//@end
//@fn src/relooper/blocks.rs Block::remove_instr
//@ret r
//@itermut 0
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(60)]
//@spec
    requires distinct_block(*old(self)),
    ensures r ==> ids_block(*old(self)).contains(*instr_id), is_cut_block(*old(self), *final(self), set![*instr_id], Map::empty()),
    decreases *old(self),
//@start
        let ghost b0 = *self;
        let ghost id = *instr_id;
        let ghost d: Set<InstructionId> = set![*instr_id];
        let ghost r0: NewInstrs = Map::empty();
        proof { lemma_block_clear(b0, id, d, r0); }
//@before return true
                    proof { match next { Some(n) => lemma_uncut_block(**n, d, r0), None => {} } }
//@before return true ##1
                    proof { match next { Some(n) => lemma_uncut_block(**n, d, r0), None => {} } }
//@before return true ##2
                        proof {
                            let k = __m0 as int;
                            let u = handled_blocks@;
                            lemma_blocks_at(h0, k, h1, u, id, d, r0);
                            match b0->Multiple_next { Some(n) => lemma_uncut_block(*n, d, r0), None => {} }
                        }
//@loop 0 before
                let ghost h0 = handled_blocks@;
//@loop 0
                    invariant
                        b0 is Multiple, h0 == b0->handled_blocks@, distinct_blocks(h0), id == *instr_id, d == set![*instr_id], r0 == Map::empty(),
                        handled_blocks@.len() == h0.len(), is_cut_blocks(h0.take(__m0 as int), handled_blocks@.take(__m0 as int), d, r0), handled_blocks@.skip(__m0 as int) == h0.skip(__m0 as int),
                        b0 == *old(self), __n0 == h0.len(),
//@loop 0 start
                    let ghost h1 = handled_blocks@;
                    proof {
                        let k = __m0 as int;
                        assert(h1.skip(k)[0] == h0.skip(k)[0]);
                        assert(h1[k] == h0[k]);
                        lemma_blocks_rest(h0, k);
                        assert(decreases_to!(b0 => h0[k]));
                    }
//@loop 0 end
                    proof {
                        let k = __m0 as int;
                        let a = h0.take(k + 1);
                        let b = handled_blocks@.take(k + 1);
                        assert(a.drop_last() =~= h0.take(k));
                        assert(b.drop_last() =~= h1.take(k));
                        assert(a.last() == h0[k] && b.last() == handled_blocks@[k]);
                        assert(handled_blocks@.skip(k + 1) =~= h1.skip(k).skip(1));
                        assert(h0.skip(k + 1) =~= h0.skip(k).skip(1));
                    }
//@loop 0 after
                proof { assert(h0.take(h0.len() as int) =~= h0); assert(handled_blocks@.take(h0.len() as int) =~= handled_blocks@); }
//@end
// blocks
//@fn src/relooper/blocks.rs Label::replace_instr
//@ret r
//@spec
    requires distinct(old(self).instrs@),
    ensures r == ids_of(old(self).instrs@).contains(*instr_id), final(self).label == old(self).label, is_cut(old(self).instrs@, final(self).instrs@, Set::empty(), map![*instr_id => new_instr]),
//@end
//@fn src/relooper/blocks.rs Block::replace_instr
//@ret r
//@itermut 0
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(60)]
//@spec
    requires distinct_block(*old(self)),
    ensures r ==> ids_block(*old(self)).contains(*instr_id), is_cut_block(*old(self), *final(self), Set::empty(), map![*instr_id => new_instr]),
    decreases *old(self),
//@start
        let ghost b0 = *self;
        let ghost id = *instr_id;
        let ghost d: Set<InstructionId> = Set::empty();
        let ghost r0: NewInstrs = map![*instr_id => new_instr];
        proof { lemma_block_clear(b0, id, d, r0); }
//@before return true
                    proof { match next { Some(n) => lemma_uncut_block(**n, d, r0), None => {} } }
//@before return true ##1
                    proof { match next { Some(n) => lemma_uncut_block(**n, d, r0), None => {} } }
//@before return true ##2
                        proof {
                            let k = __m0 as int;
                            let u = handled_blocks@;
                            lemma_blocks_at(h0, k, h1, u, id, d, r0);
                            match b0->Multiple_next { Some(n) => lemma_uncut_block(*n, d, r0), None => {} }
                        }
//@loop 0 before
                let ghost h0 = handled_blocks@;
//@loop 0
                    invariant
                        b0 is Multiple, h0 == b0->handled_blocks@, distinct_blocks(h0), id == *instr_id, d == Set::empty(), r0 == map![*instr_id => new_instr],
                        handled_blocks@.len() == h0.len(), is_cut_blocks(h0.take(__m0 as int), handled_blocks@.take(__m0 as int), d, r0), handled_blocks@.skip(__m0 as int) == h0.skip(__m0 as int),
                        b0 == *old(self), __n0 == h0.len(),
//@loop 0 start
                    let ghost h1 = handled_blocks@;
                    proof {
                        let k = __m0 as int;
                        assert(h1.skip(k)[0] == h0.skip(k)[0]);
                        assert(h1[k] == h0[k]);
                        lemma_blocks_rest(h0, k);
                        assert(decreases_to!(b0 => h0[k]));
                    }
//@loop 0 end
                    proof {
                        let k = __m0 as int;
                        let a = h0.take(k + 1);
                        let b = handled_blocks@.take(k + 1);
                        assert(a.drop_last() =~= h0.take(k));
                        assert(b.drop_last() =~= h1.take(k));
                        assert(a.last() == h0[k] && b.last() == handled_blocks@[k]);
                        assert(handled_blocks@.skip(k + 1) =~= h1.skip(k).skip(1));
                        assert(h0.skip(k + 1) =~= h0.skip(k).skip(1));
                    }
//@loop 0 after
                proof { assert(h0.take(h0.len() as int) =~= h0); assert(handled_blocks@.take(h0.len() as int) =~= handled_blocks@); }
//@end

//@fn src/middle_end/instructions.rs Instruction::has_side_effect
//@ret r
//@spec
    ensures r == (*self is Call || *self is TailCall),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::init_null_dest_var
//@ret r
//@spec
    requires old(self).null_dest_var is None ==> old(self).spare_vars(1) && old(self).vars_handed_out(),
    ensures final(self).null_dest_var == Some(r), null_added(final(self), old(self)), final(self).var_id_generator.count() <= old(self).var_id_generator.count() + 1, old(self).null_dest_var is Some ==> *final(self) == *old(self),
//@end
/// `values().filter_map(f).collect()`
#[verifier::external_body]
pub fn filter_map_values<K, V, T: Eq + std::hash::Hash, F: Fn(&V) -> Option<T>>(m: &HashMap<K, V>, f: F) -> (r: HashSet<T>)
    requires forall|k: K| #[trigger] m@.contains_key(k) ==> f.requires((&m@[k],)),
    ensures
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|o: Option<T>| f.ensures((&m@[k],), o) && match o { Some(t) => r@.contains(t), None => true },
        forall|t: T| #[trigger] r@.contains(t) ==> exists|k: K| #[trigger] m@.contains_key(k) && f.ensures((&m@[k],), Some(t)),
{ m.values().filter_map(f).collect() }
pub open spec fn assigned(i: Instruction) -> Set<VarId> { defs(i) }
/// what is to go
pub open spec fn to_remove(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, n: InstructionId) -> bool { dead(g, t, globals, n) && !(g.instrs@[n] is Call) && !(g.instrs@[n] is TailCall) }
/// what is to lose its destination
pub open spec fn to_replace(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, n: InstructionId, j: Instruction, p: &ProgramMetadata) -> bool { dead(g, t, globals, n) && null_call(g.instrs@[n], j, p) }
pub open spec fn removals(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, s: Seq<InstructionId>) -> bool { forall|k: int| 0 <= k < s.len() ==> to_remove(g, t, globals, #[trigger] s[k]) }
pub open spec fn replacements(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, r: NewInstrs, p: &ProgramMetadata) -> bool { forall|n: InstructionId| #[trigger] r.contains_key(n) ==> to_replace(g, t, globals, n, r[n], p) }
pub open spec fn all_removals(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, d: Set<InstructionId>) -> bool { forall|n: InstructionId| #[trigger] d.contains(n) ==> to_remove(g, t, globals, n) }
pub open spec fn live_var(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, n: InstructionId, v: VarId) -> bool { exposed(g, globals, v) || live_after(g, t, n, v) }
/// cut out one more
pub proof fn lemma_one_more(b: Block, c: Block, f: Block, d: Set<InstructionId>, r: NewInstrs, n: InstructionId)
    requires is_cut_block(b, c, d, r), is_cut_block(c, f, set![n], Map::empty()), calls(r),
    ensures is_cut_block(b, f, d.insert(n), r),
{
    lemma_again_block(b, c, f, d, r, set![n], Map::empty());
    assert(d.union(set![n]) =~= d.insert(n));
    assert(r.union_prefer_right(Map::<InstructionId, Instruction>::empty()) =~= r);
}
pub proof fn lemma_one_replaced(b: Block, c: Block, f: Block, d: Set<InstructionId>, r: NewInstrs, n: InstructionId, j: Instruction)
    requires is_cut_block(b, c, d, r), is_cut_block(c, f, Set::empty(), map![n => j]), calls(r),
    ensures is_cut_block(b, f, d, r.insert(n, j)),
{
    lemma_again_block(b, c, f, d, r, Set::empty(), map![n => j]);
    assert(d.union(Set::<InstructionId>::empty()) =~= d);
    assert(r.union_prefer_right(map![n => j]) =~= r.insert(n, j));
}
pub proof fn lemma_calls(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, r: NewInstrs, p: &ProgramMetadata)
    requires g.wf(), replacements(g, t, globals, r, p),
    ensures calls(r), nulls(r, p),
{
    assert forall|n: InstructionId| #[trigger] r.contains_key(n) implies r[n].id() == n && r[n] is Call && p.is_null(r[n]->Call_1) by { assert(to_replace(g, t, globals, n, r[n], p)); assert(g.instrs@.contains_key(n)); assert(g.instrs@[n].id() == n); }
}
/// what is left when all of them are done
pub proof fn lemma_thinned(b: Block, c: Block, g: Flowgraph, t: LiveTable, d: Set<InstructionId>, r: NewInstrs, globals: Map<VarId, u32>, o: &ProgramMetadata, p: &ProgramMetadata)
    requires flow_of(b, g), is_liveness(g, t), is_cut_block(b, c, d, r), all_removals(g, t, globals, d), replacements(g, t, globals, r, p),
        good_block(b), distinct_block(b), ends_block(b), null_added(p, o),
    ensures thinned(b, c, globals, p), good_block(c), distinct_block(c), slots_block(c, p).subset_of(slots_block(b, o)),
{
    lemma_calls(g, t, globals, r, p);
    assert forall|n: InstructionId| #[trigger] d.contains(n) implies !end_ids(b).contains(n) by {
        assert(to_remove(g, t, globals, n));
        assert(g.instrs@.contains_key(n));
        let x = g.instrs@[n];
        assert(occurs_block(b, x));
        lemma_not_end(b, x);
    }
    assert(d.disjoint(end_ids(b)));
    lemma_good_left(b, c, d, r);
    lemma_left_block(b, c, d, r);
    lemma_slots_left_block(b, c, d, r, o, p);
    assert(only_dead(g, t, globals, d, r, p)) by {
        assert forall|n: InstructionId| #[trigger] d.contains(n) implies dead(g, t, globals, n) && !(g.instrs@[n] is Call) && !(g.instrs@[n] is TailCall) by { assert(to_remove(g, t, globals, n)); }
        assert forall|n: InstructionId| #[trigger] r.contains_key(n) implies dead(g, t, globals, n) && null_call(g.instrs@[n], r[n], p) by { assert(to_replace(g, t, globals, n, r[n], p)); }
    }
}
//@type src/back_end/stack_allocation/allocate_vars.rs VariableAllocationMap
//@fn src/back_end/dataflow_analysis/dead_code_analysis.rs remove_dead_vars
//@attr #[verifier::rlimit(60)]
//@subst flowgraph.instrs.values().filter_map(|instr| match instr { => filter_map_values(&flowgraph.instrs, |instr: &Instruction| -> (r: Option<VarId>) ensures r == address_of(*instr) { match instr {
//@subst None, }).collect(); => None, } });
//@iterref 1
//@iter 1 it
//@iterval 2
//@iter 2 it2
//@iterref 3
//@iter 3 it3
//@iterval 4
//@iter 4 it4
//@iterval 5
//@iter 5 it5
//@spec
//@include spec_dead.inc
//@start
    let ghost b0 = *block;
    let ghost pm0 = *prog_metadata;
    let ghost o: &ProgramMetadata = &pm0;
    let ghost globals = global_var_addrs@;
//@loop 0 before
    let ghost g = flowgraph;
    proof {
        assert forall|n: InstructionId| #![trigger g.instrs@.contains_key(n)] g.instrs@.contains_key(n) && address_of(g.instrs@[n]) is Some implies address_taken_vars@.contains(address_of(g.instrs@[n])->0) by {}
        lemma_graph_good(b0, g);
    }
//@loop 0
    invariant
        good_block(b0), distinct_block(b0), ends_block(b0), o.spare_vars(1), o.vars_handed_out(), flow_of(b0, g), structured(g), globals == global_var_addrs@, *o == *old(prog_metadata),
        forall|n: InstructionId| #![trigger g.instrs@.contains_key(n)] g.instrs@.contains_key(n) && address_of(g.instrs@[n]) is Some ==> address_taken_vars@.contains(address_of(g.instrs@[n])->0),
        changes ==> flowgraph == g && *block == b0 && *prog_metadata == *o,
        !changes ==> thinned(b0, *block, globals, &*prog_metadata) && null_added(&*prog_metadata, o) && good_block(*block) && distinct_block(*block) && slots_block(*block, &*prog_metadata).subset_of(slots_block(b0, o)),
    decreases (if changes { 1int } else { 0 }),
//@loop 1 before
        let ghost t = live_vars@;
//@loop 1
            invariant
                !changes, flowgraph == g, *block == b0, flow_of(b0, g), live_vars@ == t, is_liveness(g, t), globals == global_var_addrs@, *o == *old(prog_metadata), o.spare_vars(1), o.vars_handed_out(),
                forall|n: InstructionId| #![trigger g.instrs@.contains_key(n)] g.instrs@.contains_key(n) && address_of(g.instrs@[n]) is Some ==> address_taken_vars@.contains(address_of(g.instrs@[n])->0),
                null_added(&*prog_metadata, o), prog_metadata.null_dest_var is None ==> *prog_metadata == *o,
                removals(g, t, globals, remove_instrs@), replacements(g, t, globals, replace_instrs@, &*prog_metadata),
//@loop 1 start
            let ghost n = *instr_id;
            proof { assert(flowgraph.instrs@.contains_key(*instr_id)); assert(g.instrs@[n] == *instr); }
//@loop 2
                invariant
                    __s2@ =~= assigned(*instr), flowgraph == g, g.wf(), g.has(n), n == *instr_id, *instr == g.instrs@[n], live_vars@ == t, is_liveness(g, t), globals == global_var_addrs@,
                    forall|m: InstructionId| #![trigger g.instrs@.contains_key(m)] g.instrs@.contains_key(m) && address_of(g.instrs@[m]) is Some ==> address_taken_vars@.contains(address_of(g.instrs@[m])->0),
                    !at_least_one_def_is_live ==> forall|j: int| 0 <= j < it2.index@ ==> !live_var(g, t, globals, n, *#[trigger] it2.seq()[j]),
                ensures
                    !at_least_one_def_is_live ==> forall|v: VarId| #[trigger] __s2@.contains(v) ==> !live_var(g, t, globals, n, v),
//@loop 2 start
                let ghost v = def_var;
                proof { assert(__s2@.contains(def_var)); }
//@loop 3 before
                proof {
                    assert(!exposed(g, globals, v));
                }
//@loop 3
                    invariant
                        flowgraph == g, g.wf(), g.has(n), n == *instr_id, live_vars@ == t, is_liveness(g, t), *__s3 == g.successors@[n], v == def_var,
                        !at_least_one_def_is_live ==> forall|j: int| 0 <= j < it3.index@ ==> !live_at(t, *#[trigger] it3.seq()[j], v),
                    ensures
                        !at_least_one_def_is_live ==> !live_after(g, t, n, v),
//@loop 3 start
                    proof { assert(__s3@.contains(*successor)); assert(g.edge(n, *successor)); assert(g.has(*successor)); }
//@before if !instr.has_side_effect()
            proof {
                assert(dead(g, t, globals, n));
            }
//@loop 4 before
        let ghost mut d = Set::<InstructionId>::empty();
        let ghost pm = *prog_metadata;
        let ghost p: &ProgramMetadata = &pm;
        let ghost r0 = replace_instrs@;
        let ghost none = Map::<InstructionId, Instruction>::empty();
        proof { lemma_uncut_block(b0, d, none); }
//@loop 4
            invariant
                pm == *prog_metadata, *p == pm, flowgraph.wf(), none == Map::<InstructionId, Instruction>::empty(), distinct_block(b0),
                removals(g, t, globals, __s4@), all_removals(g, t, globals, d), is_cut_block(b0, *block, d, none),
//@loop 4 start
            let ghost b1 = *block;
            let ghost k = it4.index@ as int;
            proof { assert(to_remove(g, t, globals, __s4@[k])); lemma_left_block(b0, b1, d, none); }
//@loop 4 end
            proof { lemma_one_more(b0, b1, *block, d, none, instr_id); d = d.insert(instr_id); }
//@loop 5 before
        let ghost mut r = none;
//@loop 5
            invariant
                pm == *prog_metadata, *p == pm, distinct_block(b0), g.wf(),
                replacements(g, t, globals, __s5@, p), all_removals(g, t, globals, d), replacements(g, t, globals, r, p), is_cut_block(b0, *block, d, r),
//@loop 5 start
            let ghost b1 = *block;
            let ghost id = instr_id;
            let ghost j = new_instr;
            proof { assert(__s5@.contains_key(instr_id)); assert(__s5@[instr_id] == new_instr); lemma_calls(g, t, globals, r, p); lemma_left_block(b0, b1, d, r); }
//@loop 5 end
            proof { lemma_one_replaced(b0, b1, *block, d, r, id, j); r = r.insert(id, j); }
//@loop 5 after
        proof { lemma_thinned(b0, *block, g, t, d, r, globals, o, p); }
//@end
