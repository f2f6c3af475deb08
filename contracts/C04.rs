//@include lib_leb.inc
//@include fn_uleb.inc
//@include fn_sleb.inc
//@include lib_enc.inc
//@include fn_wasm_types.inc
//@include fn_wasm_indices.inc

#[verifier::external_body]
pub struct WasmInstruction {}
/// the encoding of one instruction is the subject of C03; here any encoding will do
pub uninterp spec fn instr_enc(i: WasmInstruction) -> Seq<u8>;
impl ToBytes for WasmInstruction {
    open spec fn enc(&self) -> Seq<u8> { instr_enc(*self) }
    #[verifier::external_body]
    fn to_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
}
//@type src/back_end/wasm_instructions.rs WasmExpression
//@fn src/back_end/wasm_instructions.rs ToBytes for WasmExpression::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { enc_items(self.instrs@) + seq![0x0bu8] }
//@ret r
//@nloops 1
//@iter 0 it
//@loop 0
    invariant bytes@ == enc_items(self.instrs@.subrange(0, it.index@ as int)),
//@loop 0 start
    proof { lemma_items_step(self.instrs@, it.index@ as int); }
//@end_
    proof { assert(self.instrs@.subrange(0, self.instrs@.len() as int) =~= self.instrs@); }
//@end

// ---- the layout of sections in the specification --------------------------------------------
pub open spec fn section(id: u8, body: Seq<u8>) -> Seq<u8> {
    if body.len() == 0 { Seq::<u8>::empty() } else { seq![id] + uleb(body.len()) + body }
}
pub open spec fn sized(body: Seq<u8>) -> Seq<u8> { uleb(body.len()) + body }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub open spec fn enc_name(s: Seq<char>) -> Seq<u8> { sized(utf8(s)) }
/// library contract: the bytes of a String are its UTF-8 encoding (a function of its characters)
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == utf8(s@);

//@fn src/back_end/wasm_module/module.rs encode_section
//@ret r
//@spec
    ensures r@ == section(section_code, body@),
//@start
    let ghost body0 = body@;
//@end_
    proof { assert(bytes@ =~= section(section_code, body0)); }
//@end
//@type src/back_end/wasm_module/types_section.rs WasmFunctionType
//@fn src/back_end/wasm_module/types_section.rs ToBytes for WasmFunctionType::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { seq![0x60u8] + enc_vec(self.param_types@) + enc_vec(self.result_types@) }
//@ret r
//@end_
    proof { assert(bytes@ =~= self.enc()); }
//@end
//@type src/back_end/wasm_module/types_section.rs TypesSection
//@fn src/back_end/wasm_module/types_section.rs ToBytes for TypesSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(1, enc_vec(self.function_types@)) }
//@ret r
//@end
//@type src/back_end/wasm_module/imports_section.rs ImportDescriptor
//@fn src/back_end/wasm_module/imports_section.rs ToBytes for ImportDescriptor::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { match self { ImportDescriptor::Func { func_type_idx } => seq![0u8] + func_type_idx.enc(), ImportDescriptor::Table { table_type } => seq![1u8] + table_type.enc(), ImportDescriptor::Mem { mem_type } => seq![2u8] + mem_type.enc(), ImportDescriptor::Global { global_type } => seq![3u8] + global_type.enc() } }
//@ret r
//@tailarms
    proof { assert(__r@ =~= self.enc()); }
//@end
//@type src/back_end/wasm_module/imports_section.rs WasmImport
//@fn src/back_end/wasm_module/imports_section.rs ToBytes for WasmImport::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { enc_name(self.module_name@) + enc_name(self.field_name@) + self.import_descriptor.enc() }
//@ret r
//@end_
    proof { assert(bytes@ =~= self.enc()); }
//@end
//@type src/back_end/wasm_module/imports_section.rs ImportsSection
//@fn src/back_end/wasm_module/imports_section.rs ToBytes for ImportsSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(2, enc_vec(self.imports@)) }
//@ret r
//@end
//@type src/back_end/wasm_module/functions_section.rs FunctionsSection
//@fn src/back_end/wasm_module/functions_section.rs ToBytes for FunctionsSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(3, enc_vec(self.function_type_idxs@)) }
//@ret r
//@end
//@type src/back_end/wasm_module/tables_section.rs TablesSection
//@fn src/back_end/wasm_module/tables_section.rs ToBytes for TablesSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(4, enc_vec(self.table_types@)) }
//@ret r
//@end
//@type src/back_end/wasm_module/memory_section.rs MemorySection
//@fn src/back_end/wasm_module/memory_section.rs ToBytes for MemorySection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(5, enc_vec(self.memory_types@)) }
//@ret r
//@end
//@type src/back_end/wasm_module/globals_section.rs WasmGlobal
//@fn src/back_end/wasm_module/globals_section.rs ToBytes for WasmGlobal::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { self.global_type.enc() + self.init_expr.enc() }
//@ret r
//@end
//@type src/back_end/wasm_module/globals_section.rs GlobalsSection
//@fn src/back_end/wasm_module/globals_section.rs ToBytes for GlobalsSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(6, enc_vec(self.globals@)) }
//@ret r
//@end
//@type src/back_end/wasm_module/exports_section.rs ExportDescriptor
//@fn src/back_end/wasm_module/exports_section.rs ToBytes for ExportDescriptor::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { match self { ExportDescriptor::Func { func_idx } => seq![0u8] + func_idx.enc(), ExportDescriptor::Table { table_idx } => seq![1u8] + table_idx.enc(), ExportDescriptor::Mem { mem_idx } => seq![2u8] + mem_idx.enc(), ExportDescriptor::Global { global_idx } => seq![3u8] + global_idx.enc() } }
//@ret r
//@tailarms
    proof { assert(__r@ =~= self.enc()); }
//@end
//@type src/back_end/wasm_module/exports_section.rs WasmExport
//@fn src/back_end/wasm_module/exports_section.rs ToBytes for WasmExport::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { enc_name(self.name@) + self.export_descriptor.enc() }
//@ret r
//@end_
    proof { assert(bytes@ =~= self.enc()); }
//@end
//@type src/back_end/wasm_module/exports_section.rs ExportsSection
//@fn src/back_end/wasm_module/exports_section.rs ToBytes for ExportsSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(7, enc_vec(self.exports@)) }
//@ret r
//@end
//@type src/back_end/wasm_module/start_section.rs StartSection
//@fn src/back_end/wasm_module/start_section.rs ToBytes for StartSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(8, match self.start_func_idx { None => Seq::<u8>::empty(), Some(f) => f.enc() }) }
//@ret r
//@end
//@type src/back_end/wasm_module/element_section.rs ElementSection
//@fn src/back_end/wasm_module/element_section.rs ToBytes for ElementSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(9, Seq::<u8>::empty()) }
//@ret r
//@end
//@type src/back_end/wasm_module/code_section.rs LocalDeclaration
//@fn src/back_end/wasm_module/code_section.rs ToBytes for LocalDeclaration::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { uleb(self.count as nat) + self.value_type.enc() }
//@ret r
//@end
//@type src/back_end/wasm_module/code_section.rs WasmFunctionCode
//@fn src/back_end/wasm_module/code_section.rs ToBytes for WasmFunctionCode::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { sized(enc_vec(self.local_declarations@) + self.function_body.enc()) }
//@ret r
//@end
//@type src/back_end/wasm_module/code_section.rs CodeSection
//@fn src/back_end/wasm_module/code_section.rs ToBytes for CodeSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(10, enc_vec(self.function_bodies@)) }
//@ret r
//@end
//@type src/back_end/wasm_module/data_section.rs DataSegment
//@fn src/back_end/wasm_module/data_section.rs ToBytes for DataSegment::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { match self { DataSegment::ActiveSegmentMemIndexZero { offset_expr, data } => uleb(0) + offset_expr.enc() + sized(data@), DataSegment::PassiveSegment { data } => uleb(1) + sized(data@), DataSegment::ActiveSegmentExplicitMemIndex { memory_idx, offset_expr, data } => uleb(2) + memory_idx.enc() + offset_expr.enc() + sized(data@) } }
//@ret r
//@tailarms
    proof { assert(__r@ =~= self.enc()); }
//@end
//@type src/back_end/wasm_module/data_section.rs DataSection
//@fn src/back_end/wasm_module/data_section.rs ToBytes for DataSection::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { section(11, enc_vec(self.data_segments@)) }
//@ret r
//@end

pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (t: &T) -> (r: T) ensures r == *t;
pub trait WasmIdx: Sized {}
impl WasmIdx for TypeIdx {}
//@type src/back_end/wasm_indices.rs WasmIdxGenerator
//@type src/back_end/wasm_module/module.rs WasmModule

/// the sections of a module: identifier and encoding, in module order
pub open spec fn module_sections(m: WasmModule) -> Seq<(u8, Seq<u8>)> {
    seq![
        (1u8, m.types_section.enc()), (2u8, m.imports_section.enc()), (3u8, m.functions_section.enc()),
        (4u8, m.tables_section.enc()), (5u8, m.memory_section.enc()), (6u8, m.globals_section.enc()),
        (7u8, m.exports_section.enc()), (8u8, m.start_section.enc()), (9u8, m.element_section.enc()),
        (10u8, m.code_section.enc()), (11u8, m.data_section.enc()),
    ]
}
/// `head` followed by the sections in order
pub open spec fn with_sections(head: Seq<u8>, s: Seq<(u8, Seq<u8>)>, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { head } else { with_sections(head, s, (n - 1) as nat) + s[n - 1].1 }
}
pub open spec fn module_header() -> Seq<u8> { seq![0x00u8, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00] }
//@fn src/back_end/wasm_module/module.rs ToBytes for WasmModule::to_bytes
//@implitems
    open spec fn enc(&self) -> Seq<u8> { with_sections(module_header(), module_sections(*self), 11) }
//@ret r
//@before bytes.append(&mut self.types_section
    proof { assert(bytes@ =~= module_header()); reveal_with_fuel(with_sections, 12); }
//@end
pub open spec fn framed_section(id: u8, bytes: Seq<u8>) -> bool {
    bytes.len() == 0 || exists|b: Seq<u8>| b.len() > 0 && bytes == #[trigger] section(id, b)
}
/// strictly ascending identifiers; each section empty or [id] + declared length + that many bytes
pub proof fn lemma_sections_framed(m: WasmModule)
    ensures
        forall|i: int, j: int| 0 <= i < j < 11 ==> (#[trigger] module_sections(m)[i]).0 < (#[trigger] module_sections(m)[j]).0,
        framed_section(1, module_sections(m)[0].1),
        framed_section(2, module_sections(m)[1].1),
        framed_section(3, module_sections(m)[2].1),
        framed_section(4, module_sections(m)[3].1),
        framed_section(5, module_sections(m)[4].1),
        framed_section(6, module_sections(m)[5].1),
        framed_section(7, module_sections(m)[6].1),
        framed_section(8, module_sections(m)[7].1),
        framed_section(9, module_sections(m)[8].1),
        framed_section(10, module_sections(m)[9].1),
        framed_section(11, module_sections(m)[10].1),
{
    lemma_section(1, enc_vec(m.types_section.function_types@));
    lemma_section(2, enc_vec(m.imports_section.imports@));
    lemma_section(3, enc_vec(m.functions_section.function_type_idxs@));
    lemma_section(4, enc_vec(m.tables_section.table_types@));
    lemma_section(5, enc_vec(m.memory_section.memory_types@));
    lemma_section(6, enc_vec(m.globals_section.globals@));
    lemma_section(7, enc_vec(m.exports_section.exports@));
    lemma_section(8, match m.start_section.start_func_idx { None => Seq::<u8>::empty(), Some(f) => f.enc() });
    lemma_section(9, Seq::<u8>::empty());
    lemma_section(10, enc_vec(m.code_section.function_bodies@));
    lemma_section(11, enc_vec(m.data_section.data_segments@));
}
pub proof fn lemma_section(id: u8, body: Seq<u8>)
    ensures framed_section(id, section(id, body)),
{
    if body.len() > 0 { assert(section(id, body) == section(id, body)); }
}
/// the declared length of a section is what a decoder reads
pub proof fn lemma_section_length(id: u8, body: Seq<u8>)
    requires body.len() > 0,
    ensures
        section(id, body) == seq![id] + uleb(body.len()) + body,
        leb_framed(uleb(body.len())), uleb_value(uleb(body.len())) == body.len(),
{
    lemma_uleb_roundtrip(body.len());
}
/// the declared count of a vector is the number of its elements (decoding what was written)
pub proof fn lemma_vector_count<T: ToBytes>(s: Seq<T>)
    ensures
        leb_framed(uleb(s.len())), uleb_value(uleb(s.len())) == s.len(),
        enc_vec(s) == uleb(s.len()) + enc_items(s),
{
    lemma_uleb_roundtrip(s.len());
}
