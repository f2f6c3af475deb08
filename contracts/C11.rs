//@include ir.inc
//@include fn_widx.inc
//@include types_wasm.inc
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
//@include fn_memops.inc
//@include lib_access.inc
/// every access has the width of the type, and narrow loads extend the sign exactly for signed types
pub proof fn lemma_access(t: IrType)
    requires t.single(),
    ensures
        t.integral() ==> access(load_op(t)).0 * 8 == t.bits() && access(store_op(t)).0 * 8 == t.bits(),
        t is F32 || t is PointerTo || t is ArrayOf ==> access(load_op(t)).0 == 4 && access(store_op(t)).0 == 4,
        t is F64 ==> access(load_op(t)).0 == 8 && access(store_op(t)).0 == 8,
        t.integral() && t.bits() < 32 ==> access(load_op(t)).1 == t.signed(),
{}
