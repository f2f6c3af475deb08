//@include ir.inc
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn vassert(b: bool) requires b { }
//@fn src/middle_end/ir.rs ProgramMetadata::get_var_type
//@ret r
//@spec
    ensures match r { Ok(t) => self.var_types@.contains_key(*var) && t == self.var_types@[*var], Err(_) => !self.var_types@.contains_key(*var) },
//@end
//@include fn_const.inc
//@include fn_progvars.inc
//@include fn_tailrw.inc
