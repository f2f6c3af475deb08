//@iter 0 it0
//@loop 0 before
    let ghost s0 = true_instrs@;
    let ghost fc0 = *function_context;
    proof { assert(fc0 == old(function_context).inside(ControlFlowElement::UnlabelledIf)); }
//@loop 0
    invariant
        it0.seq() == s0,
        *function_context == fc0,
        can_lower_all(s0, &fc0, module_context, prog_metadata),
        if_instrs@ == lower_all(s0.subrange(0, it0.index@ as int), &fc0, module_context, prog_metadata),
//@loop 0 start
    proof { lemma_lower_step(s0, it0.index@ as int, &fc0, module_context, prog_metadata); lemma_can_lower(s0, it0.index@ as int, &fc0, module_context, prog_metadata); }
//@loop 0 after
    proof {
        assert(s0.subrange(0, s0.len() as int) =~= s0);
        assert(old(function_context).control_flow_stack@.push(ControlFlowElement::UnlabelledIf).drop_last() =~= old(function_context).control_flow_stack@);
    }
//@iter 1 it1
//@loop 1 before
    let ghost s1 = false_instrs@;
    let ghost fc1 = *function_context;
    proof { assert(fc1 == old(function_context).inside(ControlFlowElement::UnlabelledIf)); }
//@loop 1
    invariant
        it1.seq() == s1,
        *function_context == fc1,
        can_lower_all(s1, &fc1, module_context, prog_metadata),
        else_instrs@ == lower_all(s1.subrange(0, it1.index@ as int), &fc1, module_context, prog_metadata),
//@loop 1 start
    proof { lemma_lower_step(s1, it1.index@ as int, &fc1, module_context, prog_metadata); lemma_can_lower(s1, it1.index@ as int, &fc1, module_context, prog_metadata); }
//@loop 1 after
    proof {
        assert(s1.subrange(0, s1.len() as int) =~= s1);
        assert(old(function_context).control_flow_stack@.push(ControlFlowElement::UnlabelledIf).drop_last() =~= old(function_context).control_flow_stack@);
    }
//@iter 2 it2
//@loop 2 before
    let ghost s2 = true_instrs@;
    let ghost fc2 = *function_context;
    proof { assert(fc2 == old(function_context).inside(ControlFlowElement::UnlabelledIf)); }
//@loop 2
    invariant
        it2.seq() == s2,
        *function_context == fc2,
        can_lower_all(s2, &fc2, module_context, prog_metadata),
        if_instrs@ == lower_all(s2.subrange(0, it2.index@ as int), &fc2, module_context, prog_metadata),
//@loop 2 start
    proof { lemma_lower_step(s2, it2.index@ as int, &fc2, module_context, prog_metadata); lemma_can_lower(s2, it2.index@ as int, &fc2, module_context, prog_metadata); }
//@loop 2 after
    proof {
        assert(s2.subrange(0, s2.len() as int) =~= s2);
        assert(old(function_context).control_flow_stack@.push(ControlFlowElement::UnlabelledIf).drop_last() =~= old(function_context).control_flow_stack@);
    }
//@iter 3 it3
//@loop 3 before
    let ghost s3 = false_instrs@;
    let ghost fc3 = *function_context;
    proof { assert(fc3 == old(function_context).inside(ControlFlowElement::UnlabelledIf)); }
//@loop 3
    invariant
        it3.seq() == s3,
        *function_context == fc3,
        can_lower_all(s3, &fc3, module_context, prog_metadata),
        else_instrs@ == lower_all(s3.subrange(0, it3.index@ as int), &fc3, module_context, prog_metadata),
//@loop 3 start
    proof { lemma_lower_step(s3, it3.index@ as int, &fc3, module_context, prog_metadata); lemma_can_lower(s3, it3.index@ as int, &fc3, module_context, prog_metadata); }
//@loop 3 after
    proof {
        assert(s3.subrange(0, s3.len() as int) =~= s3);
        assert(old(function_context).control_flow_stack@.push(ControlFlowElement::UnlabelledIf).drop_last() =~= old(function_context).control_flow_stack@);
    }
