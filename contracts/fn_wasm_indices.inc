//@type src/back_end/wasm_indices.rs TypeIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for TypeIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.x as nat) }
//@ret r
//@end
//@type src/back_end/wasm_indices.rs TableIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for TableIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.x as nat) }
//@ret r
//@end
//@type src/back_end/wasm_indices.rs MemIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for MemIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.x as nat) }
//@ret r
//@end
//@type src/back_end/wasm_indices.rs ElemIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for ElemIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.x as nat) }
//@ret r
//@end
//@type src/back_end/wasm_indices.rs DataIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for DataIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.x as nat) }
//@ret r
//@end
//@type src/back_end/wasm_indices.rs FuncIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for FuncIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.x as nat) }
//@ret r
//@end
//@type src/back_end/wasm_indices.rs LocalIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for LocalIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.x as nat) }
//@ret r
//@end
//@type src/back_end/wasm_indices.rs GlobalIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for GlobalIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.x as nat) }
//@ret r
//@end
//@type src/back_end/wasm_indices.rs LabelIdx clone eq
//@fn src/back_end/wasm_indices.rs ToBytes for LabelIdx::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.l as nat) }
//@ret r
//@end
