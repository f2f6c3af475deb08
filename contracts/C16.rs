//@include ir.inc
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
//@include lib_sets.inc
//@include fn_defref.inc
//@include fn_instrid.inc
//@include fn_flow.inc
//@type src/relooper/blocks.rs Label
//@type src/relooper/blocks.rs Block
//@include fn_flowgen.inc
//@include fn_flowblock.inc
