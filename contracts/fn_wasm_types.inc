//@type src/back_end/wasm_types.rs ValType
//@type src/back_end/wasm_types.rs NumType
//@type src/back_end/wasm_types.rs RefType
//@type src/back_end/wasm_types.rs TableType
//@type src/back_end/wasm_types.rs MemoryType
//@type src/back_end/wasm_types.rs GlobalType
//@type src/back_end/wasm_types.rs Limits
//@fn src/back_end/wasm_types.rs ToBytes for ValType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { match self { ValType::NumType(t) => t.enc(), ValType::RefType(t) => t.enc() } }
//@ret r
//@end
//@fn src/back_end/wasm_types.rs ToBytes for NumType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { match self { NumType::I32 => seq![0x7fu8], NumType::I64 => seq![0x7eu8], NumType::F32 => seq![0x7du8], NumType::F64 => seq![0x7cu8] } }
//@ret r
//@end
//@fn src/back_end/wasm_types.rs ToBytes for RefType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { match self { RefType::FuncRef => seq![0x70u8], RefType::ExternRef => seq![0x6fu8] } }
//@ret r
//@end
//@fn src/back_end/wasm_types.rs ToBytes for TableType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { self.element_ref_type.enc() + self.limits.enc() }
//@ret r
//@end
//@fn src/back_end/wasm_types.rs ToBytes for MemoryType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { self.limits.enc() }
//@ret r
//@end
//@fn src/back_end/wasm_types.rs ToBytes for GlobalType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { self.value_type.enc() + (if self.is_mutable { seq![1u8] } else { seq![0u8] }) }
//@ret r
//@end
//@fn src/back_end/wasm_types.rs ToBytes for Limits::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> {
        match self.max { None => seq![0u8] + uleb(self.min as nat), Some(m) => seq![1u8] + uleb(self.min as nat) + uleb(m as nat) }
    }
//@ret r
//@end
