//@include ir.inc
//@include fn_sizes.inc
//@include fn_widx.inc
//@include types_wasm.inc
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn vassert(b: bool) requires b { }
//@include fn_memops.inc
//@include lib_sets.inc
//@include fn_defref.inc
//@include fn_instrid.inc
//@include fn_flow.inc
//@type src/relooper/blocks.rs Label
//@type src/relooper/blocks.rs Block
//@include fn_flowgen.inc
//@include fn_flowblock.inc
//@include fn_live.inc
//@include fn_progvars.inc
//@include fn_slotvars.inc
//@include fn_cut.inc
//@include fn_cutlem.inc
//@include fn_dead.inc
