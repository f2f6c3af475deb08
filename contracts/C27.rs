//@include fn_context.inc
