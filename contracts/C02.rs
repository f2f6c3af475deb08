//@include lib_leb.inc
//@include fn_sleb.inc
