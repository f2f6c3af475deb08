//@include lib_std.inc
//@include fn_ids.inc
//@include fn_idgen.inc
//@include types_ir.inc
//@include lib_types.inc
