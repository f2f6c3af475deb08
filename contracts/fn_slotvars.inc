// the variables of a block and their places in the frame
/// the variable that needs a slot because of the instruction (a store through a pointer names the pointer)
pub open spec fn slot_of(i: Instruction) -> Option<VarId> { match i { Instruction::StoreToAddress(_, d, _) => Some(d), _ => def_var(i) } }
pub open spec fn one_slot(i: Instruction, p: &ProgramMetadata) -> Set<VarId> { match slot_of(i) { Some(d) => if p.is_null(d) { Set::empty() } else { set![d] }, None => Set::empty() } }
pub open spec fn slots(s: Seq<Instruction>, p: &ProgramMetadata) -> Set<VarId> decreases s { if s.len() == 0 { Set::empty() } else { slots(s.drop_last(), p).union(slots_in(s.last(), p)) } }
pub open spec fn slots_in(i: Instruction, p: &ProgramMetadata) -> Set<VarId> decreases i { match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => slots(a@, p).union(slots(b@, p)), _ => one_slot(i, p) } }
/// (what stands for the tests of a multiple block assigns nothing)
pub open spec fn slots_block(b: Block, p: &ProgramMetadata) -> Set<VarId> decreases b {
    match b {
        Block::Simple { internal, next } => slots(internal.instrs@, p).union(match next { Some(n) => slots_block(*n, p), None => Set::empty() }),
        Block::Loop { inner, next, .. } => slots_block(*inner, p).union(match next { Some(n) => slots_block(*n, p), None => Set::empty() }),
        Block::Multiple { handled_blocks, next, .. } => slots_blocks(handled_blocks@, p).union(match next { Some(n) => slots_block(*n, p), None => Set::empty() }),
    }
}
pub open spec fn slots_blocks(s: Seq<Block>, p: &ProgramMetadata) -> Set<VarId> decreases s { if s.len() == 0 { Set::empty() } else { slots_blocks(s.drop_last(), p).union(slots_block(s.last(), p)) } }
pub open spec fn typed(s: Set<VarId>, p: &ProgramMetadata) -> bool { s.subset_of(p.var_types@.dom()) }
/// the variables with their types
pub open spec fn typing(m: Map<VarId, IrType>, s: Set<VarId>, p: &ProgramMetadata) -> bool { m.dom() =~= s && forall|v: VarId| #[trigger] m.contains_key(v) ==> m[v] == p.var_types@[v] }
//@fn src/back_end/stack_allocation/get_vars_from_block.rs get_vars_from_instrs
//@ret r
//@attr #[verifier::rlimit(60)]
//@spec
    requires typed(slots(instrs@, prog_metadata), prog_metadata),
    ensures typing(r@, slots(instrs@, prog_metadata), prog_metadata),
    decreases instrs,
//@iter 0 it
//@loop 0
    invariant
        it.seq().len() == instrs@.len(),
        forall|j: int| 0 <= j < instrs@.len() ==> *#[trigger] it.seq()[j] == instrs@[j],
        typed(slots(instrs@, prog_metadata), prog_metadata),
        typing(vars@, slots(instrs@.take(it.index@ as int), prog_metadata), prog_metadata),
//@loop 0 start
        let ghost k = it.index@ as int;
        proof {
            assert(instrs@.take(k + 1).drop_last() =~= instrs@.take(k));
            assert(slots(instrs@.take(k + 1), prog_metadata) =~= slots(instrs@.take(k), prog_metadata).union(slots_in(instrs@[k], prog_metadata)));
            lemma_slots_take(instrs@, k + 1, prog_metadata);
            assert(decreases_to!(*instrs => instrs@[k]));
        }
//@loop 0 after
    proof { assert(instrs@.take(instrs@.len() as int) =~= instrs@); }
//@end
pub proof fn lemma_slots_take(s: Seq<Instruction>, k: int, p: &ProgramMetadata)
    requires 0 <= k <= s.len(),
    ensures slots(s.take(k), p).subset_of(slots(s, p)),
    decreases s.len(),
{ if k == s.len() { assert(s.take(k) =~= s); } else { lemma_slots_take(s.drop_last(), k, p); assert(s.drop_last().take(k) =~= s.take(k)); } }
pub proof fn lemma_slots_blocks_take(s: Seq<Block>, k: int, p: &ProgramMetadata)
    requires 0 <= k <= s.len(),
    ensures slots_blocks(s.take(k), p).subset_of(slots_blocks(s, p)),
    decreases s.len(),
{ if k == s.len() { assert(s.take(k) =~= s); } else { lemma_slots_blocks_take(s.drop_last(), k, p); assert(s.drop_last().take(k) =~= s.take(k)); } }
//@fn src/back_end/stack_allocation/get_vars_from_block.rs get_vars_from_block
//@ret r
//@spec
    requires typed(slots_block(*block, prog_metadata), prog_metadata),
    ensures typing(r@, slots_block(*block, prog_metadata), prog_metadata),
    decreases block,
//@iter 0 it
//@loop 0
                invariant
                    it.seq().len() == handled_blocks@.len(),
                    forall|j: int| 0 <= j < handled_blocks@.len() ==> *#[trigger] it.seq()[j] == handled_blocks@[j],
                    *block is Multiple, (*block)->handled_blocks == *handled_blocks,
                    typed(slots_blocks(handled_blocks@, prog_metadata), prog_metadata),
                    typing(vars@, slots_blocks(handled_blocks@.take(it.index@ as int), prog_metadata), prog_metadata),
//@loop 0 start
                let ghost k = it.index@ as int;
                proof {
                    assert(handled_blocks@.take(k + 1).drop_last() =~= handled_blocks@.take(k));
                    assert(slots_blocks(handled_blocks@.take(k + 1), prog_metadata) =~= slots_blocks(handled_blocks@.take(k), prog_metadata).union(slots_block(handled_blocks@[k], prog_metadata)));
                    lemma_slots_blocks_take(handled_blocks@, k + 1, prog_metadata);
                    assert(decreases_to!(*block => *handled_blocks));
                    assert(decreases_to!(*handled_blocks => handled_blocks@[k]));
                }
//@loop 0 after
            proof { assert(handled_blocks@.take(handled_blocks@.len() as int) =~= handled_blocks@); }
//@end
