//@include ir.inc
//@include fn_unlabel.inc
