// classification of IR types
impl IrType {
    pub open spec fn integral(&self) -> bool {
        *self is I8 || *self is U8 || *self is I16 || *self is U16 || *self is I32 || *self is U32 || *self is I64 || *self is U64
    }
    pub open spec fn floating(&self) -> bool { *self is F32 || *self is F64 }
    pub open spec fn arithmetic(&self) -> bool { self.integral() || self.floating() }
    pub open spec fn signed(&self) -> bool { *self is I8 || *self is I16 || *self is I32 || *self is I64 }
    /// bits of an integer type
    pub open spec fn bits(&self) -> int {
        if *self is I8 || *self is U8 { 8 } else if *self is I16 || *self is U16 { 16 } else if *self is I32 || *self is U32 { 32 } else { 64 }
    }
}
//@fn src/middle_end/ir_types.rs IrType::is_integral_type
//@ret r
//@spec
    ensures r == self.integral(),
//@end
