// module entity indices
pub trait WasmIdx: Sized {
    spec fn ix(&self) -> nat;
    fn initial_idx() -> (r: Self)
        ensures r.ix() == 0;
    fn next_idx(&self) -> (r: Self)
        requires self.ix() < u32::MAX,
        ensures r.ix() == self.ix() + 1;
}
//@type src/back_end/wasm_indices.rs TypeIdx clone eq hash
//@fn src/back_end/wasm_indices.rs WasmIdx for TypeIdx::initial_idx
//@implitems
    open spec fn ix(&self) -> nat { self.x as nat }
//@ret r
//@end
//@fn src/back_end/wasm_indices.rs WasmIdx for TypeIdx::next_idx
//@join
//@ret r
//@end
//@type src/back_end/wasm_indices.rs TableIdx clone eq hash
//@fn src/back_end/wasm_indices.rs WasmIdx for TableIdx::initial_idx
//@implitems
    open spec fn ix(&self) -> nat { self.x as nat }
//@ret r
//@end
//@fn src/back_end/wasm_indices.rs WasmIdx for TableIdx::next_idx
//@join
//@ret r
//@end
//@type src/back_end/wasm_indices.rs MemIdx clone eq hash
//@fn src/back_end/wasm_indices.rs WasmIdx for MemIdx::initial_idx
//@implitems
    open spec fn ix(&self) -> nat { self.x as nat }
//@ret r
//@end
//@fn src/back_end/wasm_indices.rs WasmIdx for MemIdx::next_idx
//@join
//@ret r
//@end
//@type src/back_end/wasm_indices.rs ElemIdx clone eq hash
//@fn src/back_end/wasm_indices.rs WasmIdx for ElemIdx::initial_idx
//@implitems
    open spec fn ix(&self) -> nat { self.x as nat }
//@ret r
//@end
//@fn src/back_end/wasm_indices.rs WasmIdx for ElemIdx::next_idx
//@join
//@ret r
//@end
//@type src/back_end/wasm_indices.rs DataIdx clone eq hash
//@fn src/back_end/wasm_indices.rs WasmIdx for DataIdx::initial_idx
//@implitems
    open spec fn ix(&self) -> nat { self.x as nat }
//@ret r
//@end
//@fn src/back_end/wasm_indices.rs WasmIdx for DataIdx::next_idx
//@join
//@ret r
//@end
//@type src/back_end/wasm_indices.rs FuncIdx clone eq hash
//@fn src/back_end/wasm_indices.rs WasmIdx for FuncIdx::initial_idx
//@implitems
    open spec fn ix(&self) -> nat { self.x as nat }
//@ret r
//@end
//@fn src/back_end/wasm_indices.rs WasmIdx for FuncIdx::next_idx
//@join
//@ret r
//@end
//@type src/back_end/wasm_indices.rs LocalIdx clone eq hash
//@fn src/back_end/wasm_indices.rs WasmIdx for LocalIdx::initial_idx
//@implitems
    open spec fn ix(&self) -> nat { self.x as nat }
//@ret r
//@end
//@fn src/back_end/wasm_indices.rs WasmIdx for LocalIdx::next_idx
//@join
//@ret r
//@end
//@type src/back_end/wasm_indices.rs GlobalIdx clone eq hash
//@fn src/back_end/wasm_indices.rs WasmIdx for GlobalIdx::initial_idx
//@implitems
    open spec fn ix(&self) -> nat { self.x as nat }
//@ret r
//@end
//@fn src/back_end/wasm_indices.rs WasmIdx for GlobalIdx::next_idx
//@join
//@ret r
//@end
//@type src/back_end/wasm_indices.rs WasmIdxGenerator
impl<T: WasmIdx + Clone> WasmIdxGenerator<T> {
    /// how many indices have been handed out
    pub open spec fn count(&self) -> nat { match self.max_idx { None => 0, Some(i) => i.ix() + 1 } }
}
//@fn src/back_end/wasm_indices.rs WasmIdxGenerator::new
//@ret r
//@spec
    ensures r.count() == 0,
//@end
//@fn src/back_end/wasm_indices.rs WasmIdxGenerator::new_idx
//@ret r
//@spec
    requires old(self).count() <= u32::MAX,
    ensures r.ix() == old(self).count(), final(self).count() == old(self).count() + 1,
//@end
