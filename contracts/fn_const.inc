/// the type of an integer constant: the narrowest that represents it
pub open spec fn int_type(i: int) -> IrType {
    if 0 <= i <= 255 { IrType::U8 } else if -128 <= i <= 127 { IrType::I8 } else if 0 <= i <= 65535 { IrType::U16 }
    else if -32768 <= i <= 32767 { IrType::I16 } else if -0x8000_0000 <= i <= 0x7fff_ffff { IrType::I32 }
    else if 0 <= i <= 0xffff_ffff { IrType::U32 } else if 0 <= i <= 0xffff_ffff_ffff_ffff { IrType::U64 } else { IrType::I64 }
}
/// the type an integer constant has as an argument without a prototype: at least int
pub open spec fn int_type_32(i: int) -> IrType {
    if -0x8000_0000 <= i <= 0x7fff_ffff { IrType::I32 } else if 0 <= i <= 0xffff_ffff { IrType::U32 }
    else if 0 <= i <= 0xffff_ffff_ffff_ffff { IrType::U64 } else { IrType::I64 }
}
pub open spec fn const_type(c: Constant) -> IrType { match c { Constant::Int(i) => int_type(i as int), Constant::Float(_) => IrType::F64 } }
pub open spec fn const_type_32(c: Constant) -> IrType { match c { Constant::Int(i) => int_type_32(i as int), Constant::Float(_) => IrType::F64 } }
//@fn src/middle_end/instructions.rs Constant::get_type
//@ret r
//@spec
    ensures r == if self is Int && expected is Some && expected->0.integral() { expected->0 } else { const_type(*self) },
//@end
//@fn src/middle_end/instructions.rs Constant::get_type_minimum_i32
//@ret r
//@spec
    ensures r == const_type_32(*self),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::get_fun_type
//@ret r
//@spec
    ensures match r { Ok(t) => self.function_types@.contains_key(*fun_id) && t == self.function_types@[*fun_id], Err(_) => !self.function_types@.contains_key(*fun_id) },
//@end
impl Src {
    pub open spec fn typed(&self, p: &ProgramMetadata) -> bool {
        match *self {
            Src::Var(v) | Src::StoreAddressVar(v) => p.var_types@.contains_key(v),
            Src::Constant(_) => true,
            Src::Fun(f) => p.function_types@.contains_key(f),
        }
    }
    pub open spec fn ty(&self, p: &ProgramMetadata) -> IrType {
        match *self {
            Src::Var(v) | Src::StoreAddressVar(v) => p.var_types@[v],
            Src::Constant(c) => const_type(c),
            Src::Fun(f) => p.function_types@[f],
        }
    }
}
//@fn src/middle_end/instructions.rs Src::get_type
//@ret r
//@spec
    ensures match r { Ok(t) => self.typed(prog_metadata) && t == self.ty(prog_metadata), Err(_) => !self.typed(prog_metadata) },
//@end
