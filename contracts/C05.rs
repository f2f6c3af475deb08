//@include ir.inc
//@include fn_sizes.inc
//@include fn_widx.inc
//@include types_wasm.inc
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn vassert(b: bool) requires b { }
//@include fn_memops.inc
//@include fn_const.inc
//@include types_ctx.inc
//@include fn_frames.inc
//@include types_module.inc
//@include fn_memimage.inc
//@type src/relooper/blocks.rs Label
//@type src/relooper/blocks.rs Block
//@type src/relooper/relooper.rs ReloopedFunction
//@include fn_numbering.inc
//@include fn_module.inc
