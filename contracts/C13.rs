//@include ir.inc
//@include fn_sizes.inc
//@include fn_widx.inc
//@include types_wasm.inc
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
//@include fn_memops.inc
//@include fn_const.inc
//@include types_ctx.inc
//@include fn_frames.inc
//@include fn_calls.inc
//@include fn_tailcalls.inc
//@include lower.inc
//@include fn_depth.inc
//@include fn_blocks.inc
/// the depth given to a jump is that of the innermost enclosing construct with the identifier: an element equal to e
/// that many places below the top, and none above it
pub proof fn lemma_depth_is_innermost(s: Seq<ControlFlowElement>, e: ControlFlowElement)
    ensures
        cf_depth(s, e) >= 0 ==> cf_depth(s, e) < s.len() && s[s.len() - 1 - cf_depth(s, e)] == e
            && forall|j: int| s.len() - 1 - cf_depth(s, e) < j < s.len() ==> #[trigger] s[j] != e,
        cf_depth(s, e) < 0 <==> !s.contains(e),
    decreases s.len(),
{
    if s.len() > 0 {
        if s.last() == e { assert(s[s.len() - 1] == e); assert(s.contains(e)); } else {
            let t = s.drop_last();
            assert(cf_depth(s, e) == if cf_depth(t, e) < 0 { -1 } else { cf_depth(t, e) + 1 });
            lemma_depth_is_innermost(t, e);
            assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == s[j] by {}
            if cf_depth(s, e) >= 0 {
                let d = cf_depth(s, e);
                assert(s[s.len() - 1 - d] == t[t.len() - 1 - (d - 1)]);
                assert forall|j: int| s.len() - 1 - d < j < s.len() implies #[trigger] s[j] != e by { if j < t.len() { assert(t[j] == s[j]); } }
            }
            if s.contains(e) { let k = choose|k: int| 0 <= k < s.len() && s[k] == e; assert(t[k] == e); assert(t.contains(e)); }
            if t.contains(e) { let k = choose|k: int| 0 <= k < t.len() && t[k] == e; assert(s[k] == e); assert(s.contains(e)); }
        }
    }
}
/// entering one more construct that is not the target makes every jump to the target one deeper
pub proof fn lemma_depth_inside(s: Seq<ControlFlowElement>, x: ControlFlowElement, e: ControlFlowElement)
    ensures cf_depth(s.push(x), e) == if x == e { 0 } else if cf_depth(s, e) < 0 { -1 } else { cf_depth(s, e) + 1 },
{
    assert(s.push(x).drop_last() =~= s);
}
