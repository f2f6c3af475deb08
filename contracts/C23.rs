//@include ir.inc
//@include fn_sizes.inc
//@include fn_progvars.inc
//@include lib_sets.inc
//@include fn_unlabel.inc
//@type src/relooper/blocks.rs Label
//@type src/relooper/relooper.rs Labels

#[verifier::external_body]
pub fn vassert(b: bool)
    requires b,
{
}

#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{
    panic!()
}
//@include fn_soup.inc
//@include fn_structure.inc
