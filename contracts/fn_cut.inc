// code from which instructions have been cut
pub type NewInstrs = Map<InstructionId, Instruction>;
/// t is s without the instructions in d, with those in r replaced; order and everything else as in s
pub open spec fn is_cut(s: Seq<Instruction>, t: Seq<Instruction>, d: Set<InstructionId>, r: NewInstrs) -> bool decreases s {
    if s.len() == 0 { t.len() == 0 }
    else if d.contains(s.last().id()) { is_cut(s.drop_last(), t, d, r) }
    else { t.len() > 0 && is_cut(s.drop_last(), t.drop_last(), d, r) && is_cut_in(s.last(), t.last(), d, r) }
}
pub open spec fn is_cut_in(i: Instruction, j: Instruction, d: Set<InstructionId>, r: NewInstrs) -> bool decreases i {
    if r.contains_key(i.id()) { j == r[i.id()] } else {
        match i {
            Instruction::IfEqElse(n, x, y, a, b) => j is IfEqElse && j->IfEqElse_0 == n && j->IfEqElse_1 == x && j->IfEqElse_2 == y && is_cut(a@, j->IfEqElse_3@, d, r) && is_cut(b@, j->IfEqElse_4@, d, r),
            Instruction::IfNotEqElse(n, x, y, a, b) => j is IfNotEqElse && j->IfNotEqElse_0 == n && j->IfNotEqElse_1 == x && j->IfNotEqElse_2 == y && is_cut(a@, j->IfNotEqElse_3@, d, r) && is_cut(b@, j->IfNotEqElse_4@, d, r),
            _ => j == i,
        }
    }
}
pub open spec fn is_cut_block(b: Block, c: Block, d: Set<InstructionId>, r: NewInstrs) -> bool decreases b {
    match b {
        Block::Simple { internal, next } => c is Simple && c->internal.label == internal.label && is_cut(internal.instrs@, c->internal.instrs@, d, r)
            && match next { Some(n) => c->Simple_next is Some && is_cut_block(*n, *c->Simple_next->0, d, r), None => c->Simple_next is None },
        Block::Loop { id, inner, next } => c is Loop && c->Loop_id == id && is_cut_block(*inner, *c->inner, d, r)
            && match next { Some(n) => c->Loop_next is Some && is_cut_block(*n, *c->Loop_next->0, d, r), None => c->Loop_next is None },
        Block::Multiple { id, pre_handled_blocks_instrs, handled_blocks, next } => c is Multiple && c->Multiple_id == id && c->pre_handled_blocks_instrs == pre_handled_blocks_instrs && is_cut_blocks(handled_blocks@, c->handled_blocks@, d, r)
            && match next { Some(n) => c->Multiple_next is Some && is_cut_block(*n, *c->Multiple_next->0, d, r), None => c->Multiple_next is None },
    }
}
pub open spec fn is_cut_blocks(s: Seq<Block>, t: Seq<Block>, d: Set<InstructionId>, r: NewInstrs) -> bool decreases s {
    if s.len() == 0 { t.len() == 0 } else { t.len() > 0 && is_cut_blocks(s.drop_last(), t.drop_last(), d, r) && is_cut_block(s.last(), t.last(), d, r) }
}
/// a piece of code that leads nowhere ends in an instruction that assigns nothing (a return or a jump)
pub open spec fn ends_block(b: Block) -> bool decreases b {
    match b {
        Block::Simple { internal, next } => match next { Some(n) => ends_block(*n), None => internal.instrs@.len() > 0 && def_var(internal.instrs@.last()) is None },
        Block::Loop { inner, next, .. } => ends_block(*inner) && match next { Some(n) => ends_block(*n), None => true },
        Block::Multiple { handled_blocks, next, .. } => ends_blocks(handled_blocks@) && match next { Some(n) => ends_block(*n), None => true },
    }
}
pub open spec fn ends_blocks(s: Seq<Block>) -> bool decreases s { s.len() > 0 ==> ends_blocks(s.drop_last()) && ends_block(s.last()) }
/// the variable's value may be asked for elsewhere: it is global, or its address is taken
pub open spec fn exposed(g: Flowgraph, globals: Map<VarId, u32>, v: VarId) -> bool { globals.contains_key(v) || exists|n: InstructionId| #[trigger] g.instrs@.contains_key(n) && address_of(g.instrs@[n]) == Some(v) }
/// nothing asks for what the instruction assigns
pub open spec fn dead(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, n: InstructionId) -> bool {
    g.has(n) && match def_var(g.instrs@[n]) { Some(v) => !exposed(g, globals, v) && !live_after(g, t, n, v), None => false }
}
/// only dead assignments without other effect are removed, and only calls lose a dead destination
pub open spec fn only_dead(g: Flowgraph, t: LiveTable, globals: Map<VarId, u32>, d: Set<InstructionId>, r: NewInstrs, p: &ProgramMetadata) -> bool {
    &&& forall|n: InstructionId| #[trigger] d.contains(n) ==> dead(g, t, globals, n) && !(g.instrs@[n] is Call) && !(g.instrs@[n] is TailCall)
    &&& forall|n: InstructionId| #[trigger] r.contains_key(n) ==> dead(g, t, globals, n) && null_call(g.instrs@[n], r[n], p)
}
/// the same call, with the null destination
pub open spec fn null_call(i: Instruction, j: Instruction, p: &ProgramMetadata) -> bool {
    i is Call && j is Call && j->Call_0 == i->Call_0 && p.is_null(j->Call_1) && j->Call_2 == i->Call_2 && j->Call_3 == i->Call_3
}
/// at most the null destination is new
pub open spec fn null_added(n: &ProgramMetadata, o: &ProgramMetadata) -> bool {
    *n == (ProgramMetadata { null_dest_var: n.null_dest_var, var_id_generator: n.var_id_generator, ..*o }) && match o.null_dest_var { Some(v) => n.null_dest_var == o.null_dest_var, None => match n.null_dest_var { Some(v) => !o.var_types@.contains_key(v), None => true } }
}
/// what dead code elimination does to the block
pub open spec fn thinned(b: Block, c: Block, globals: Map<VarId, u32>, p: &ProgramMetadata) -> bool {
    exists|g: Flowgraph, t: LiveTable, d: Set<InstructionId>, r: NewInstrs| flow_of(b, g) && is_liveness(g, t) && is_cut_block(b, c, d, r) && #[trigger] only_dead(g, t, globals, d, r, p)
}
