// the initial memory image
global size_of usize == 8;
/// a string is its UTF-8 bytes
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == utf8(s@);
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
/// a Rust vector of bytes never has more than isize::MAX of them
pub proof fn vec_fits(v: &Vec<u8>) ensures v@.len() <= isize::MAX { admit(); }
//@const src/program_config/program_constants.rs MEMORY_IMPORT_FIELD_NAME
//@const src/program_config/program_constants.rs MEMORY_IMPORT_MODULE_NAME
/// the little-endian 32-bit number at a
pub open spec fn word(d: Seq<u8>, a: int) -> int { d[a] + 256 * d[a + 1] + 65536 * d[a + 2] + 16777216 * d[a + 3] }
pub open spec fn reserved() -> int { 3 * PTR_SIZE }
/// where a literal's bytes and its terminating zero are
pub open spec fn end_of(l: String, p: u32) -> int { p + utf8(l@).len() + 1 }
pub open spec fn literal_at(d: Seq<u8>, l: String, p: u32) -> bool {
    reserved() <= p && end_of(l, p) <= d.len() && d.subrange(p as int, p + utf8(l@).len()) == utf8(l@) && d[end_of(l, p) - 1] == 0
}
/// every known literal of m has its own place
pub open spec fn placed(d: Seq<u8>, m: Map<StringLiteralId, String>, ptrs: Map<StringLiteralId, u32>, known: Set<StringLiteralId>) -> bool {
    &&& forall|i: StringLiteralId| #[trigger] known.contains(i) ==> m.contains_key(i) && ptrs.contains_key(i) && literal_at(d, m[i], ptrs[i])
    &&& forall|i: StringLiteralId, j: StringLiteralId| #[trigger] known.contains(i) && #[trigger] known.contains(j) && i != j ==> end_of(m[i], ptrs[i]) <= ptrs[j] || end_of(m[j], ptrs[j]) <= ptrs[i]
}
pub open spec fn zeros(d: Seq<u8>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> #[trigger] d[k] == 0 }
/// the image: pointer cells with the stack pointer at the end of the image, literals, zeros for global variables from g
pub open spec fn image(d: Seq<u8>, m: Map<StringLiteralId, String>, ptrs: Map<StringLiteralId, u32>, g: int, size: int) -> bool {
    &&& reserved() <= g && d.len() == g + size
    &&& zeros(d, 0, STACK_PTR_ADDR as int) && word(d, STACK_PTR_ADDR as int) == d.len() && STACK_PTR_ADDR + 4 == reserved()
    &&& placed(d, m, ptrs, m.dom())
    &&& forall|i: StringLiteralId| #[trigger] m.contains_key(i) ==> end_of(m[i], ptrs[i]) <= g
    &&& zeros(d, g, d.len() as int)
}
pub open spec fn at_zero(e: WasmExpression) -> bool { e.instrs@.len() == 1 && e.instrs@[0] == (WasmInstruction::I32Const { n: 0 }) }
pub proof fn lemma_word(x: usize)
    requires x <= u32::MAX,
    ensures ((x & 0xFF) as u8) + 256 * (((x >> 8) & 0xFF) as u8) + 65536 * (((x >> 16) & 0xFF) as u8) + 16777216 * (((x >> 24) & 0xFF) as u8) == x,
{
    let y = x as u32;
    assert(y == ((y & 0xFF) as u8) + 256 * (((y >> 8) & 0xFF) as u8) + 65536 * (((y >> 16) & 0xFF) as u8) + 16777216 * (((y >> 24) & 0xFF) as u8)) by (bit_vector);
    assert(x <= 0xFFFF_FFFF ==> (x & 0xFF) as u8 == ((x as u32) & 0xFF) as u8 && ((x >> 8) & 0xFF) as u8 == (((x as u32) >> 8) & 0xFF) as u8 && ((x >> 16) & 0xFF) as u8 == (((x as u32) >> 16) & 0xFF) as u8 && ((x >> 24) & 0xFF) as u8 == (((x as u32) >> 24) & 0xFF) as u8) by (bit_vector);
}
//@fn src/back_end/initialise_memory.rs initialise_memory
//@ret r
//@iterref 0
//@iter 0 it
//@spec
    requires global_vars_byte_size <= u32::MAX,
    ensures
        *final(module_context) == (ModuleContext { string_literal_id_to_ptr_map: final(module_context).string_literal_id_to_ptr_map, ..*old(module_context) }),
        *final(wasm_module) == (WasmModule { data_section: final(wasm_module).data_section, imports_section: final(wasm_module).imports_section, ..*old(wasm_module) }),
        final(wasm_module).imports_section.imports@.len() == old(wasm_module).imports_section.imports@.len() + 1, final(wasm_module).imports_section.imports@.last().import_descriptor is Mem,
        final(wasm_module).imports_section.imports@ =~= old(wasm_module).imports_section.imports@.push(final(wasm_module).imports_section.imports@.last()),
        final(wasm_module).data_section.data_segments@.len() == old(wasm_module).data_section.data_segments@.len() + 1,
        match final(wasm_module).data_section.data_segments@.last() {
            DataSegment::ActiveSegmentMemIndexZero { offset_expr, data } => at_zero(offset_expr) && (data@.len() <= u32::MAX ==> image(data@, prog_metadata.string_literals@, final(module_context).string_literal_id_to_ptr_map@, r as int, global_vars_byte_size as int)),
            _ => false,
        },
//@start
    let ghost m = prog_metadata.string_literals@;
    let ghost mut known = Set::<StringLiteralId>::empty();
//@loop 0
    invariant
        m == prog_metadata.string_literals@,
        *module_context == (ModuleContext { string_literal_id_to_ptr_map: module_context.string_literal_id_to_ptr_map, ..*old(module_context) }),
        *wasm_module == *old(wasm_module),
        data@.len() >= reserved(), zeros(data@, 0, reserved()),
        data@.len() <= u32::MAX ==> placed(data@, m, module_context.string_literal_id_to_ptr_map@, known),
        forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.index@ ==> known.contains(*it.seq()[j].0),
//@loop 0 start
        let ghost d0 = data@;
        let ghost p0 = module_context.string_literal_id_to_ptr_map@;
        let ghost k0 = known;
        let ghost id = *string_literal_id;
        proof { vec_fits(&data); assert(m.contains_key(id) && m[id] == *string); known = known.insert(id); }
//@loop 0 end
        proof {
            let ptrs = module_context.string_literal_id_to_ptr_map@;
            assert(data@ =~= d0 + utf8(string@) + seq![0u8]);
            if data@.len() <= u32::MAX {
                assert forall|i: StringLiteralId| #[trigger] known.contains(i) implies m.contains_key(i) && ptrs.contains_key(i) && literal_at(data@, m[i], ptrs[i]) by {
                    if i != id { assert(k0.contains(i)); assert(literal_at(d0, m[i], p0[i])); let p = p0[i] as int; let n = utf8(m[i]@).len(); assert(data@.subrange(p, p + n) =~= d0.subrange(p, p + n)); }
                    else { assert(data@.subrange(d0.len() as int, (d0.len() + utf8(string@).len()) as int) =~= utf8(string@)); }
                }
                assert(placed(data@, m, ptrs, known));
            }
        }
//@loop 0 after
    let ghost d1 = data@;
    proof {
        vec_fits(&data);
        assert forall|i: StringLiteralId| #[trigger] m.contains_key(i) implies known.contains(i) by { }
    }
//@before let data_segment
    proof {
        let ptrs = module_context.string_literal_id_to_ptr_map@;
        if data@.len() <= u32::MAX {
            assert forall|i: StringLiteralId| #[trigger] m.dom().contains(i) implies m.contains_key(i) && ptrs.contains_key(i) && literal_at(data@, m[i], ptrs[i]) && end_of(m[i], ptrs[i]) <= global_vars_addr by {
                assert(known.contains(i));
                assert(literal_at(d1, m[i], ptrs[i]));
                let p = ptrs[i] as int;
                let n = utf8(m[i]@).len();
                assert(data@.subrange(p, p + n) =~= d1.subrange(p, p + n));
            }
            lemma_word(stack_ptr_value);
            assert(placed(data@, m, ptrs, m.dom()));
            assert forall|k: int| 0 <= k < STACK_PTR_ADDR implies #[trigger] data@[k] == 0 by { assert(d1[k] == 0); }
            assert(zeros(data@, global_vars_addr as int, data@.len() as int));
            assert(word(data@, STACK_PTR_ADDR as int) == data@.len());
            assert(image(data@, m, ptrs, global_vars_addr as int, global_vars_byte_size as int));
        }
    }
//@end
