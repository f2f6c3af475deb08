use std::collections::VecDeque;
//@type src/relooper/blocks.rs Label
//@type src/relooper/blocks.rs Block
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (d: &std::collections::VecDeque<T, A>) -> (r: bool) ensures r == (d@.len() == 0);
pub assume_specification<T, A: std::alloc::Allocator> [<VecDeque<T, A> as From<Vec<T, A>>>::from] (v: Vec<T, A>) -> (d: VecDeque<T, A>) ensures d@ == v@;
/// the labels at which control can enter a block
pub open spec fn entries(b: Block) -> Seq<LabelId>
    decreases b,
{
    match b {
        Block::Simple { internal, .. } => seq![internal.label],
        Block::Loop { inner, .. } => entries(*inner),
        Block::Multiple { handled_blocks, next, .. } => entries_all(handled_blocks@) + match next { Some(n) => entries(*n), None => seq![] },
    }
}
pub open spec fn entries_all(s: Seq<Block>) -> Seq<LabelId>
    decreases s,
{
    if s.len() == 0 { seq![] } else { entries_all(s.drop_last()) + entries(s.last()) }
}
impl FunctionContext {
    /// the label variable equals one of the labels
    pub open spec fn test_code(&self, labels: Seq<LabelId>, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        self.tests_code(labels, p) + ors(labels.len() - 1)
    }
    pub open spec fn tests_code(&self, labels: Seq<LabelId>, p: &ProgramMetadata) -> Seq<WasmInstruction>
        decreases labels.len(),
    {
        if labels.len() == 0 { seq![] } else {
            self.tests_code(labels.drop_last(), p) + self.load_var_code(self.label_variable, p) + seq![WasmInstruction::I64Const { n: labels.last().idx() as u64 as i64 }, WasmInstruction::I64Eq]
        }
    }
}
pub open spec fn ors(n: int) -> Seq<WasmInstruction> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| WasmInstruction::I32Or) }
/// every jump in the block is inside the construct it names
pub open spec fn block_ok(b: Block, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata) -> bool
    decreases b,
{
    match b {
        Block::Simple { internal, next } => can_lower_all(internal.instrs@, fc, mc, p) && match next { Some(n) => block_ok(*n, fc, mc, p), None => true },
        Block::Loop { id, inner, next } =>
            block_ok(*inner, &fc.inside(ControlFlowElement::Block(id)).inside(ControlFlowElement::Loop(id)), mc, p) && match next { Some(n) => block_ok(*n, fc, mc, p), None => true },
        Block::Multiple { id, handled_blocks, next, .. } =>
            handled_ok(handled_blocks@, id, fc, mc, p) && match next { Some(n) => block_ok(*n, fc, mc, p), None => true },
    }
}
pub open spec fn handled_ok(s: Seq<Block>, id: MultipleBlockId, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata) -> bool
    decreases s,
{
    s.len() > 0 ==> {
        let inner = fc.inside(ControlFlowElement::If(id));
        fc.has(fc.label_variable, p) && entries(s[0]).len() > 0 && block_ok(s[0], &inner, mc, p) && handled_ok(s.drop_first(), id, &inner, mc, p)
    }
}
/// the code of a block: each construct entered puts one more enclosing construct around what is inside it, and nothing around what follows it
pub open spec fn block_code(b: Block, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata) -> Seq<WasmInstruction>
    decreases b,
{
    match b {
        Block::Simple { internal, next } => lower_all(internal.instrs@, fc, mc, p) + match next { Some(n) => block_code(*n, fc, mc, p), None => seq![] },
        Block::Loop { id, inner, next } =>
            seq![WasmInstruction::Block { blocktype: BlockType::None, instrs: vec_of(seq![WasmInstruction::Loop { blocktype: BlockType::None,
                // the end of the loop body goes back to its start
                instrs: vec_of(block_code(*inner, &fc.inside(ControlFlowElement::Block(id)).inside(ControlFlowElement::Loop(id)), mc, p).push(br(0))) }]) }]
            + match next { Some(n) => block_code(*n, fc, mc, p), None => seq![] },
        Block::Multiple { id, handled_blocks, next, .. } => handled_code(handled_blocks@, id, fc, mc, p) + match next { Some(n) => block_code(*n, fc, mc, p), None => seq![] },
    }
}
pub open spec fn handled_code(s: Seq<Block>, id: MultipleBlockId, fc: &FunctionContext, mc: &ModuleContext, p: &ProgramMetadata) -> Seq<WasmInstruction>
    decreases s,
{
    if s.len() == 0 { seq![] } else {
        fc.test_code(entries(s[0]), p) + seq![WasmInstruction::IfElse {
            blocktype: BlockType::None,
            if_instrs: vec_of(block_code(s[0], &fc.inside(ControlFlowElement::If(id)), mc, p)),
            else_instrs: vec_of(handled_code(s.drop_first(), id, &fc.inside(ControlFlowElement::If(id)), mc, p)),
        }]
    }
}
//@fn src/relooper/blocks.rs Block::get_entry_labels
//@ret r
//@spec
    ensures r@ == entries(*self),
    decreases self,
//@iter 0 it
//@loop 0
    invariant
        self is Multiple, *handled_blocks == self->handled_blocks,
        it.seq().len() == handled_blocks@.len(),
        forall|j: int| 0 <= j < handled_blocks@.len() ==> *#[trigger] it.seq()[j] == handled_blocks@[j],
        labels@ == entries_all(handled_blocks@.subrange(0, it.index@ as int)),
//@loop 0 start
    proof {
        let t = handled_blocks@.subrange(0, it.index@ + 1);
        assert(t.drop_last() =~= handled_blocks@.subrange(0, it.index@ as int));
        assert(decreases_to!(*self => self->handled_blocks));
        assert(decreases_to!(self->handled_blocks => self->handled_blocks@[it.index@ as int]));
    }
//@loop 0 after
    proof { assert(handled_blocks@.subrange(0, handled_blocks@.len() as int) =~= handled_blocks@); }
//@end
//@fn src/back_end/target_code_generation.rs test_label_equality
//@spec
    requires labels@.len() > 0, function_context.has(function_context.label_variable, prog_metadata),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + function_context.test_code(labels@, prog_metadata),
//@start
    let ghost s0 = wasm_instrs@;
    let ghost one = labels@.subrange(0, 0);
    proof {
        reveal_with_fuel(FunctionContext::tests_code, 3);
        assert(labels@.subrange(0, labels@.len() as int) =~= labels@);
    }
//@iter 0 it
//@loop 0
    invariant
        function_context.has(function_context.label_variable, prog_metadata),
        it.seq().len() == labels@.len(),
        forall|j: int| 0 <= j < labels@.len() ==> *#[trigger] it.seq()[j] == labels@[j],
        wasm_instrs@ == s0 + function_context.tests_code(labels@.subrange(0, it.index@ as int), prog_metadata),
//@loop 0 start
    proof {
        let t = labels@.subrange(0, it.index@ + 1);
        assert(t.drop_last() =~= labels@.subrange(0, it.index@ as int));
    }
//@loop 0 end
    proof { assert(wasm_instrs@ =~= s0 + function_context.tests_code(labels@.subrange(0, it.index@ + 1), prog_metadata)); }
//@loop 0 after
    proof { assert(labels@.subrange(0, labels@.len() as int) =~= labels@); }
//@iter 1 it
//@loop 1 before
    let ghost s1 = wasm_instrs@;
//@loop 1
    invariant
        wasm_instrs@ =~= s1 + ors(it.index@ as int),
//@end
pub fn vassert(b: bool) requires b {}
#[verifier::external_body]
pub fn vskip<T>() -> (r: T) ensures false { unimplemented!() }
//@fn src/back_end/target_code_generation.rs convert_ir_instr_to_wasm
//@split 4
//@only Break Continue EndHandledBlock IfEqElse IfNotEqElse Nop Label
//@attr #[verifier::spinoff_prover]
//@spec
    requires can_lower(instr, old(function_context), module_context, prog_metadata),
    ensures
        final(wasm_instrs)@ =~= old(wasm_instrs)@ + lower(instr, old(function_context), module_context, prog_metadata),
        *final(function_context) == *old(function_context),
//@include fn_lower_ifs.inc
//@include fn_lower_logic.inc
//@end
//@fn src/back_end/target_code_generation.rs convert_block_to_wasm
//@ret r
//@spec
    requires block_ok(block, old(function_context), module_context, prog_metadata),
    ensures
        r@ =~= block_code(block, old(function_context), module_context, prog_metadata),
        *final(function_context) == *old(function_context),
    decreases block,
//@start
    proof {
        let s = old(function_context).control_flow_stack@;
        assert forall|a: ControlFlowElement, b: ControlFlowElement| #![trigger s.push(a).push(b)] s.push(a).push(b).drop_last().drop_last() == s by { assert(s.push(a).push(b).drop_last() =~= s.push(a)); assert(s.push(a).drop_last() =~= s); }
        if block is Multiple { assert(decreases_to!(block => block->handled_blocks)); assert(decreases_to!(block->handled_blocks => block->handled_blocks@)); }
    }
//@iter 0 it
//@loop 0 before
    let ghost s0 = internal.instrs@;
//@loop 0
    invariant
        it.seq() == s0,
        *function_context == *old(function_context),
        can_lower_all(s0, old(function_context), module_context, prog_metadata),
        wasm_instrs@ =~= lower_all(s0.subrange(0, it.index@ as int), old(function_context), module_context, prog_metadata),
//@loop 0 start
    proof { lemma_lower_step(s0, it.index@ as int, old(function_context), module_context, prog_metadata); lemma_can_lower(s0, it.index@ as int, old(function_context), module_context, prog_metadata); }
//@loop 0 after
    proof { assert(s0.subrange(0, s0.len() as int) =~= s0); }
//@end
//@fn src/back_end/target_code_generation.rs convert_handled_blocks
//@ret r
//@spec
    requires handled_ok(handled_blocks@, multiple_block_id, old(function_context), module_context, prog_metadata),
    ensures
        r@ =~= handled_code(handled_blocks@, multiple_block_id, old(function_context), module_context, prog_metadata),
        *final(function_context) == *old(function_context),
    decreases handled_blocks@,
//@start
    proof {
        let s = old(function_context).control_flow_stack@;
        assert forall|a: ControlFlowElement| #![trigger s.push(a)] s.push(a).drop_last() == s by { assert(s.push(a).drop_last() =~= s); }
    }
//@end
