//@include ir.inc
//@include lib_represents.inc
/// values some C integer type has
pub open spec fn c_integer(i: int) -> bool { -0x8000_0000_0000_0000 <= i <= 0xffff_ffff_ffff_ffff }

//@fn src/middle_end/instructions.rs Constant::get_type
//@ret r
//@spec
    ensures match *self {
        Constant::Int(i) => {
            if expected matches Some(t) && t.integral() { r == expected->0 } else {
                c_integer(i as int) ==> represents(r, i as int)
                    && forall|t: IrType| #[trigger] t.bits() < r.bits() && t.signed() == r.signed() ==> !represents(t, i as int)
            }
        }
        Constant::Float(_) => r is F64,
    },
//@end
//@fn src/middle_end/instructions.rs Constant::get_type_minimum_i32
//@ret r
//@spec
    ensures match *self {
        Constant::Int(i) => c_integer(i as int) ==> {
            &&& represents(r, i as int)
            &&& r.bits() >= 32
            &&& r is I32 <==> represents(IrType::I32, i as int)
            &&& forall|t: IrType| 32 <= #[trigger] t.bits() < r.bits() && t.signed() == r.signed() ==> !represents(t, i as int)
        },
        Constant::Float(_) => r is F64,
    },
//@end
/// the type of a constant operand is the type of the constant
//@fn src/middle_end/ir.rs ProgramMetadata::get_var_type
//@ret r
//@spec
    ensures match r { Ok(t) => self.var_types@.contains_key(*var) && t == self.var_types@[*var], Err(_) => !self.var_types@.contains_key(*var) },
//@end
