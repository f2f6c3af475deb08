/// whether an integer type represents the value without change
pub open spec fn represents(t: IrType, i: int) -> bool {
    match t {
        IrType::I8 => -0x80 <= i <= 0x7f,
        IrType::U8 => 0 <= i <= 0xff,
        IrType::I16 => -0x8000 <= i <= 0x7fff,
        IrType::U16 => 0 <= i <= 0xffff,
        IrType::I32 => -0x8000_0000 <= i <= 0x7fff_ffff,
        IrType::U32 => 0 <= i <= 0xffff_ffff,
        IrType::I64 => -0x8000_0000_0000_0000 <= i <= 0x7fff_ffff_ffff_ffff,
        IrType::U64 => 0 <= i <= 0xffff_ffff_ffff_ffff,
        _ => false,
    }
}
