// byte sizes
pub broadcast axiom fn borrowed_str_contains<V>(m: Map<String, V>, k: &str) ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k) <==> (exists|s: String| s@ == k@ && #[trigger] m.contains_key(s));
pub broadcast axiom fn borrowed_str_maps<V>(m: Map<String, V>, k: &str, v: V) ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> (exists|s: String| s@ == k@ && #[trigger] m.contains_key(s) && m[s] == v);
pub broadcast axiom fn string_ext(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
broadcast use borrowed_str_contains;
broadcast use borrowed_str_maps;
broadcast use string_ext;
//@const src/middle_end/ir_types.rs POINTER_SIZE
impl TypeSize {
    pub open spec fn known(&self) -> nat { match *self { TypeSize::CompileTime(n) => n as nat, TypeSize::Runtime(_) => 0 } }
}
impl IrType {
    /// struct and union types are defined in the program
    pub open spec fn defined(&self, prog: &ProgramMetadata) -> bool {
        match *self {
            IrType::Struct(id) => prog.structs@.contains_key(id),
            IrType::Union(id) => prog.unions@.contains_key(id),
            _ => true,
        }
    }
    /// bytes that a value of the type occupies (an array is held by its address)
    pub open spec fn size(&self, prog: &ProgramMetadata) -> nat {
        match *self {
            IrType::I8 | IrType::U8 => 1,
            IrType::I16 | IrType::U16 => 2,
            IrType::I32 | IrType::U32 | IrType::F32 => 4,
            IrType::I64 | IrType::U64 | IrType::F64 => 8,
            IrType::PointerTo(_) | IrType::ArrayOf(_, _) | IrType::Function(_, _, _) => 4,
            IrType::Void => 0,
            IrType::Struct(id) => prog.structs@[id].total_byte_size as nat,
            IrType::Union(id) => prog.unions@[id].total_byte_size as nat,
        }
    }
}
//@fn src/middle_end/ir.rs ProgramMetadata::get_struct_type
//@ret r
//@spec
    ensures match r { Ok(t) => self.structs@.contains_key(*struct_id) && t == self.structs@[*struct_id], Err(_) => !self.structs@.contains_key(*struct_id) },
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::get_union_type
//@ret r
//@spec
    ensures match r { Ok(t) => self.unions@.contains_key(*union_id) && t == self.unions@[*union_id], Err(_) => !self.unions@.contains_key(*union_id) },
//@end
//@fn src/middle_end/ir_types.rs TypeSize::get_compile_time_value
//@ret r
//@spec
    ensures match r { Ok(n) => *self == TypeSize::CompileTime(n), Err(_) => *self is Runtime },
//@end
//@fn src/middle_end/ir_types.rs IrType::get_byte_size
//@ret r
//@spec
    requires self.defined(prog),
    ensures r is CompileTime, r.known() == self.size(prog),
//@end
