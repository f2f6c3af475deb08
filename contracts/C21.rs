//@include ir.inc
//@include fn_sizes.inc
//@include fn_reach.inc
