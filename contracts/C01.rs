//@include lib_leb.inc
//@include fn_uleb.inc
