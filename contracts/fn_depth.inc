/// where the search has got to: i is the next element to look at, depth how many were looked at, none of which is e
pub open spec fn searching(s: Seq<ControlFlowElement>, e: ControlFlowElement, i: int, depth: int) -> bool {
    0 <= i < s.len() && depth == s.len() - 1 - i && cf_depth(s, e) == { let d = cf_depth(s.subrange(0, i + 1), e); if d < 0 { -1 } else { d + depth } }
}
pub proof fn lemma_search(s: Seq<ControlFlowElement>, e: ControlFlowElement, i: int)
    requires 0 <= i < s.len(),
    ensures s.subrange(0, i + 1).drop_last() == s.subrange(0, i), s.subrange(0, i + 1).last() == s[i], s.subrange(0, s.len() as int) == s, cf_depth(s.subrange(0, 0), e) == -1,
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    assert(s.subrange(0, s.len() as int) =~= s);
}
//@fn src/back_end/target_code_generation_context.rs FunctionContext::get_depth_of_block
//@ret r
//@spec
    requires self.control_flow_stack@.len() <= u32::MAX,
    ensures match r { Some(d) => d == self.depth_of(ControlFlowElement::Block(*loop_block_id)), None => self.depth_of(ControlFlowElement::Block(*loop_block_id)) < 0 },
//@loop 0 before
    proof { lemma_search(self.control_flow_stack@, ControlFlowElement::Block(*loop_block_id), i as int); }
//@loop 0
    invariant
        self.control_flow_stack@.len() <= u32::MAX,
        searching(self.control_flow_stack@, ControlFlowElement::Block(*loop_block_id), i as int, depth as int),
    decreases i,
//@loop 0 start
    proof { lemma_search(self.control_flow_stack@, ControlFlowElement::Block(*loop_block_id), i as int); }
//@end
//@fn src/back_end/target_code_generation_context.rs FunctionContext::get_depth_of_loop
//@ret r
//@spec
    requires self.control_flow_stack@.len() <= u32::MAX,
    ensures match r { Some(d) => d == self.depth_of(ControlFlowElement::Loop(*loop_block_id)), None => self.depth_of(ControlFlowElement::Loop(*loop_block_id)) < 0 },
//@loop 0 before
    proof { lemma_search(self.control_flow_stack@, ControlFlowElement::Loop(*loop_block_id), i as int); }
//@loop 0
    invariant
        self.control_flow_stack@.len() <= u32::MAX,
        searching(self.control_flow_stack@, ControlFlowElement::Loop(*loop_block_id), i as int, depth as int),
    decreases i,
//@loop 0 start
    proof { lemma_search(self.control_flow_stack@, ControlFlowElement::Loop(*loop_block_id), i as int); }
//@end
//@fn src/back_end/target_code_generation_context.rs FunctionContext::get_depth_of_if
//@ret r
//@spec
    requires self.control_flow_stack@.len() <= u32::MAX,
    ensures match r { Some(d) => d == self.depth_of(ControlFlowElement::If(*multiple_block_id)), None => self.depth_of(ControlFlowElement::If(*multiple_block_id)) < 0 },
//@loop 0 before
    proof { lemma_search(self.control_flow_stack@, ControlFlowElement::If(*multiple_block_id), i as int); }
//@loop 0
    invariant
        self.control_flow_stack@.len() <= u32::MAX,
        searching(self.control_flow_stack@, ControlFlowElement::If(*multiple_block_id), i as int, depth as int),
    decreases i,
//@loop 0 start
    proof { lemma_search(self.control_flow_stack@, ControlFlowElement::If(*multiple_block_id), i as int); }
//@end
