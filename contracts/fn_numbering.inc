// function numbering
/// every entry of a table, once
#[verifier::external_body]
pub fn entries_of<K, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>)
    ensures
        forall|j: int| 0 <= j < r@.len() ==> m@.contains_key((#[trigger] r@[j]).0) && m@[r@[j].0] == r@[j].1,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|j: int| 0 <= j < r@.len() && (#[trigger] r@[j]).0 == k,
{ m.into_iter().collect() }
pub open spec fn fidx(n: int) -> FuncIdx { FuncIdx { x: n as u32 } }
pub type Imported = Seq<(FunId, String, ReloopedFunction)>;
pub type Defined = Seq<(FunId, ReloopedFunction)>;
pub open spec fn in_imported(s: Imported, f: FunId) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == f }
pub open spec fn in_defined(s: Defined, f: FunId) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == f }
/// no function is listed twice
pub open spec fn apart(a: Imported, b: Defined) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).0 != (#[trigger] a[j]).0
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 != (#[trigger] b[j]).0
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> (#[trigger] a[i]).0 != (#[trigger] b[j]).0
}
/// imports are numbered from zero, definitions follow, nothing else has a number
pub open spec fn numbered(m: Map<FunId, FuncIdx>, a: Imported, b: Defined) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> m.contains_key((#[trigger] a[i]).0) && m[a[i].0] == fidx(i)
    &&& forall|i: int| 0 <= i < b.len() ==> m.contains_key((#[trigger] b[i]).0) && m[b[i].0] == fidx(a.len() + i)
    &&& forall|f: FunId| #[trigger] m.contains_key(f) ==> in_imported(a, f) || in_defined(b, f)
}
/// no index is given twice
pub proof fn lemma_no_index_twice(m: Map<FunId, FuncIdx>, a: Imported, b: Defined, f: FunId, g: FunId)
    requires numbered(m, a, b), a.len() + b.len() <= u32::MAX, m.contains_key(f), m.contains_key(g), f != g,
    ensures m[f] != m[g], m[f].x < a.len() + b.len(),
{
    if in_imported(a, f) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == f; assert(m[a[k].0] == fidx(k)); } else { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == f; assert(m[b[k].0] == fidx(a.len() + k)); }
    if in_imported(a, g) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == g; assert(m[a[k].0] == fidx(k)); } else { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == g; assert(m[b[k].0] == fidx(a.len() + k)); }
}
//@fn src/back_end/target_code_generation_context.rs ModuleContext::new
//@ret r
//@spec
    ensures r.fun_id_to_func_idx_map@ == Map::<FunId, FuncIdx>::empty(), r.enabled_profiling == enabled_profiling, r.log_stack_ptr_fun_id is None, r.string_literal_id_to_ptr_map@ == Map::<StringLiteralId, u32>::empty(),
//@end
//@fn src/back_end/target_code_generation_context.rs ModuleContext::new_defined_func_idx
//@ret r
//@spec
    requires old(self).defined_func_idx_range.1.x < u32::MAX,
    ensures r == old(self).defined_func_idx_range.1, final(self).defined_func_idx_range.1.x == r.x + 1,
        *final(self) == (ModuleContext { defined_func_idx_range: (old(self).defined_func_idx_range.0, final(self).defined_func_idx_range.1), ..*old(self) }),
//@end
//@fn src/back_end/target_code_generation_context.rs ModuleContext::calculate_func_idxs
//@iterref 0
//@iter 0 it
//@iterref 1
//@iter 1 it1
//@spec
    requires old(self).fun_id_to_func_idx_map@ == Map::<FunId, FuncIdx>::empty(), imported_functions@.len() + defined_functions@.len() <= u32::MAX, apart(imported_functions@, defined_functions@),
    ensures
        numbered(final(self).fun_id_to_func_idx_map@, imported_functions@, defined_functions@),
        final(self).imported_func_idx_range == (fidx(0), fidx(imported_functions@.len() as int)),
        final(self).defined_func_idx_range == (fidx(imported_functions@.len() as int), fidx((imported_functions@.len() + defined_functions@.len()) as int)),
        *final(self) == (ModuleContext { fun_id_to_func_idx_map: final(self).fun_id_to_func_idx_map, imported_func_idx_range: final(self).imported_func_idx_range, defined_func_idx_range: final(self).defined_func_idx_range, ..*old(self) }),
//@start
    let ghost a = imported_functions@;
    let ghost b = defined_functions@;
//@loop 0
    invariant
        a == imported_functions@, b == defined_functions@, apart(a, b), a.len() + b.len() <= u32::MAX, it.seq().len() == a.len(), forall|j: int| 0 <= j < a.len() ==> *#[trigger] it.seq()[j] == a[j],
        func_idx == fidx(it.index@ as int), imported_funcs_start_idx == fidx(0),
        *self == (ModuleContext { fun_id_to_func_idx_map: self.fun_id_to_func_idx_map, ..*old(self) }),
        numbered(self.fun_id_to_func_idx_map@, a.take(it.index@ as int), b.take(0)),
//@loop 0 start
        let ghost k = it.index@ as int;
        let ghost m0 = self.fun_id_to_func_idx_map@;
        proof { assert(*imported_fun_id == a[k].0); }
//@loop 0 end
        proof { lemma_number_imported(m0, a, b, k); assert(self.fun_id_to_func_idx_map@ =~= m0.insert(a[k].0, fidx(k))); }
//@loop 1
    invariant
        a == imported_functions@, b == defined_functions@, apart(a, b), a.len() + b.len() <= u32::MAX, it1.seq().len() == b.len(), forall|j: int| 0 <= j < b.len() ==> *#[trigger] it1.seq()[j] == b[j],
        func_idx == fidx(a.len() + it1.index@), self.imported_func_idx_range == (fidx(0), fidx(a.len() as int)), defined_funcs_start_idx == fidx(a.len() as int),
        *self == (ModuleContext { fun_id_to_func_idx_map: self.fun_id_to_func_idx_map, imported_func_idx_range: self.imported_func_idx_range, ..*old(self) }),
        numbered(self.fun_id_to_func_idx_map@, a, b.take(it1.index@ as int)),
//@loop 1 before
        proof { assert(a.take(a.len() as int) =~= a); }
//@loop 1 start
        let ghost k = it1.index@ as int;
        let ghost m0 = self.fun_id_to_func_idx_map@;
        proof { assert(*defined_fun_id == b[k].0); }
//@loop 1 end
        proof { lemma_number_defined(m0, a, b, k); assert(self.fun_id_to_func_idx_map@ =~= m0.insert(b[k].0, fidx(a.len() + k))); }
//@loop 1 after
    proof { assert(b.take(b.len() as int) =~= b); }
//@end
pub proof fn lemma_number_imported(m: Map<FunId, FuncIdx>, a: Imported, b: Defined, k: int)
    requires numbered(m, a.take(k), b.take(0)), 0 <= k < a.len(), apart(a, b),
    ensures numbered(m.insert(a[k].0, fidx(k)), a.take(k + 1), b.take(0)),
{
    let n = m.insert(a[k].0, fidx(k));
    let (s, t) = (a.take(k), a.take(k + 1));
    assert forall|i: int| 0 <= i < t.len() implies n.contains_key((#[trigger] t[i]).0) && n[t[i].0] == fidx(i) by { if i < k { assert(t[i] == s[i]); assert(a[i].0 != a[k].0); } }
    assert forall|f: FunId| #[trigger] n.contains_key(f) implies in_imported(t, f) || in_defined(b.take(0), f) by {
        if f == a[k].0 { assert(t[k].0 == f); } else { assert(m.contains_key(f)); assert(in_imported(s, f)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == f; assert(t[j].0 == f); }
    }
}
pub proof fn lemma_number_defined(m: Map<FunId, FuncIdx>, a: Imported, b: Defined, k: int)
    requires numbered(m, a, b.take(k)), 0 <= k < b.len(), apart(a, b),
    ensures numbered(m.insert(b[k].0, fidx(a.len() + k)), a, b.take(k + 1)),
{
    let n = m.insert(b[k].0, fidx(a.len() + k));
    let (s, t) = (b.take(k), b.take(k + 1));
    assert forall|i: int| 0 <= i < t.len() implies n.contains_key((#[trigger] t[i]).0) && n[t[i].0] == fidx(a.len() + i) by { if i < k { assert(t[i] == s[i]); assert(b[i].0 != b[k].0); } }
    assert forall|f: FunId| #[trigger] n.contains_key(f) implies in_imported(a, f) || in_defined(t, f) by {
        if f == b[k].0 { assert(t[k].0 == f); } else { assert(m.contains_key(f)); if in_defined(s, f) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == f; assert(t[j].0 == f); } }
    }
}
/// the entries of a table are exactly the indices from lo up to hi
pub open spec fn covers<V>(m: Map<FuncIdx, V>, lo: FuncIdx, hi: FuncIdx) -> bool { lo.x <= hi.x && forall|i: FuncIdx| #[trigger] m.contains_key(i) <==> lo.x <= i.x < hi.x }
/// the values at the indices from lo up to hi
pub open spec fn listing<V>(m: Map<FuncIdx, V>, lo: FuncIdx, hi: int) -> Seq<V> { Seq::new((hi - lo.x) as nat, |j: int| m[fidx(lo.x + j)]) }
pub open spec fn code_of(b: WasmExpression, c: WasmFunctionCode) -> bool { c.local_declarations@.len() == 0 && c.function_body == b }
pub open spec fn codes(m: Map<FuncIdx, WasmExpression>, lo: FuncIdx, hi: int, s: Seq<WasmFunctionCode>) -> bool { s.len() == hi - lo.x && forall|j: int| 0 <= j < s.len() ==> code_of(m[fidx(lo.x + j)], #[trigger] s[j]) }
//@const src/back_end/wasm_module/module.rs STDLIB_IMPORTS_MODULE_NAME
pub open spec fn import_of(t: TypeIdx, name: String, i: WasmImport) -> bool { i.module_name@ == STDLIB_IMPORTS_MODULE_NAME@ && i.field_name == name && match i.import_descriptor { ImportDescriptor::Func { func_type_idx } => func_type_idx == t, _ => false } }
pub open spec fn import_list(t: Map<FuncIdx, TypeIdx>, n: Map<FuncIdx, String>, lo: FuncIdx, hi: int, s: Seq<WasmImport>) -> bool { s.len() == hi - lo.x && forall|j: int| 0 <= j < s.len() ==> import_of(t[fidx(lo.x + j)], n[fidx(lo.x + j)], #[trigger] s[j]) }
//@fn src/back_end/wasm_module/module.rs WasmModule::insert_defined_functions
//@spec
    requires
        covers(func_idx_to_body_code_map@, module_context.defined_func_idx_range.0, module_context.defined_func_idx_range.1),
        covers(func_idx_to_type_idx_map@, module_context.defined_func_idx_range.0, module_context.defined_func_idx_range.1),
    ensures
        *final(self) == (WasmModule { functions_section: final(self).functions_section, code_section: final(self).code_section, ..*old(self) }),
        final(self).functions_section.function_type_idxs@ == old(self).functions_section.function_type_idxs@ + listing(func_idx_to_type_idx_map@, module_context.defined_func_idx_range.0, module_context.defined_func_idx_range.1.x as int),
        exists|s: Seq<WasmFunctionCode>| final(self).code_section.function_bodies@ == old(self).code_section.function_bodies@ + s && #[trigger] codes(func_idx_to_body_code_map@, module_context.defined_func_idx_range.0, module_context.defined_func_idx_range.1.x as int, s),
//@start
    let ghost t = func_idx_to_type_idx_map@;
    let ghost b = func_idx_to_body_code_map@;
    let ghost lo = module_context.defined_func_idx_range.0;
    let ghost hi = module_context.defined_func_idx_range.1;
    let ghost mut s = Seq::<WasmFunctionCode>::empty();
//@loop 0
    invariant
        lo == module_context.defined_func_idx_range.0, hi == module_context.defined_func_idx_range.1, covers(b, lo, hi), covers(t, lo, hi), lo.x <= func_idx.x <= hi.x,
        forall|i: FuncIdx| #[trigger] func_idx_to_type_idx_map@.contains_key(i) <==> func_idx.x <= i.x < hi.x,
        forall|i: FuncIdx| #[trigger] func_idx_to_body_code_map@.contains_key(i) <==> func_idx.x <= i.x < hi.x,
        forall|i: FuncIdx| func_idx.x <= i.x < hi.x ==> #[trigger] func_idx_to_type_idx_map@[i] == t[i],
        forall|i: FuncIdx| func_idx.x <= i.x < hi.x ==> #[trigger] func_idx_to_body_code_map@[i] == b[i],
        *self == (WasmModule { functions_section: self.functions_section, code_section: self.code_section, ..*old(self) }),
        self.functions_section.function_type_idxs@ == old(self).functions_section.function_type_idxs@ + listing(t, lo, func_idx.x as int),
        self.code_section.function_bodies@ == old(self).code_section.function_bodies@ + s, codes(b, lo, func_idx.x as int, s),
    ensures
        func_idx == hi,
    decreases hi.x - func_idx.x,
//@loop 0 start
        let ghost i0 = func_idx;
        let ghost ts = self.functions_section.function_type_idxs@;
        let ghost bs = self.code_section.function_bodies@;
        proof { if i0 != hi { assert(func_idx_to_type_idx_map@.contains_key(i0)); assert(func_idx_to_body_code_map@.contains_key(i0)); } }
//@loop 0 end
        proof {
            assert(fidx(lo.x + (i0.x - lo.x)) == i0);
            let c = self.code_section.function_bodies@.last();
            assert(code_of(b[i0], c));
            s = s.push(c);
            assert(self.code_section.function_bodies@ =~= old(self).code_section.function_bodies@ + s);
            assert(listing(t, lo, i0.x + 1) =~= listing(t, lo, i0.x as int).push(t[i0]));
            assert(self.functions_section.function_type_idxs@ =~= old(self).functions_section.function_type_idxs@ + listing(t, lo, i0.x + 1));
        }
//@end
pub open spec fn lists_imports(t: Map<FuncIdx, TypeIdx>, n: Map<FuncIdx, String>, lo: FuncIdx, hi: FuncIdx, old_: Seq<WasmImport>, new_: Seq<WasmImport>) -> bool { exists|s: Seq<WasmImport>| new_ == old_ + s && #[trigger] import_list(t, n, lo, hi.x as int, s) }
//@fn src/back_end/wasm_module/module.rs WasmModule::insert_imported_functions
//@spec
    requires
        covers(imported_func_idx_to_type_idx_map@, module_context.imported_func_idx_range.0, module_context.imported_func_idx_range.1),
        covers(imported_func_idx_to_name_map@, module_context.imported_func_idx_range.0, module_context.imported_func_idx_range.1),
    ensures
        *final(self) == (WasmModule { imports_section: final(self).imports_section, ..*old(self) }),
        lists_imports(imported_func_idx_to_type_idx_map@, imported_func_idx_to_name_map@, module_context.imported_func_idx_range.0, module_context.imported_func_idx_range.1, old(self).imports_section.imports@, final(self).imports_section.imports@),
//@start
    let ghost t = imported_func_idx_to_type_idx_map@;
    let ghost b = imported_func_idx_to_name_map@;
    let ghost lo = module_context.imported_func_idx_range.0;
    let ghost hi = module_context.imported_func_idx_range.1;
    let ghost mut s = Seq::<WasmImport>::empty();
//@loop 0
    invariant
        lo == module_context.imported_func_idx_range.0, hi == module_context.imported_func_idx_range.1, covers(b, lo, hi), covers(t, lo, hi), lo.x <= func_idx.x <= hi.x,
        forall|i: FuncIdx| #[trigger] imported_func_idx_to_type_idx_map@.contains_key(i) <==> func_idx.x <= i.x < hi.x,
        forall|i: FuncIdx| #[trigger] imported_func_idx_to_name_map@.contains_key(i) <==> func_idx.x <= i.x < hi.x,
        forall|i: FuncIdx| func_idx.x <= i.x < hi.x ==> #[trigger] imported_func_idx_to_type_idx_map@[i] == t[i],
        forall|i: FuncIdx| func_idx.x <= i.x < hi.x ==> #[trigger] imported_func_idx_to_name_map@[i] == b[i],
        *self == (WasmModule { imports_section: self.imports_section, ..*old(self) }),
        self.imports_section.imports@ == old(self).imports_section.imports@ + s, import_list(t, b, lo, func_idx.x as int, s),
    ensures
        func_idx == hi,
    decreases hi.x - func_idx.x,
//@loop 0 start
        let ghost i0 = func_idx;
        proof { if i0 != hi { assert(imported_func_idx_to_type_idx_map@.contains_key(i0)); assert(imported_func_idx_to_name_map@.contains_key(i0)); } }
//@loop 0 end
        proof {
            assert(fidx(lo.x + (i0.x - lo.x)) == i0);
            let c = self.imports_section.imports@.last();
            assert(import_of(t[i0], b[i0], c));
            s = s.push(c);
            assert(self.imports_section.imports@ =~= old(self).imports_section.imports@ + s);
        }
//@end
/// the functions the runtime provides
pub open spec fn provided(n: Seq<char>) -> bool { n == "printf"@ || n == "strtoul"@ || n == "strtol"@ || n == "strlen"@ || n == "strstr"@ || n == LOG_STACK_PTR_IMPORT_NAME@ }
pub open spec fn among(s: Seq<String>, n: Seq<char>) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == n }
//@const src/program_config/program_constants.rs LOG_STACK_PTR_IMPORT_NAME
//@const src/program_config/program_constants.rs MAIN_FUNCTION_SOURCE_NAME
//@const src/program_config/program_constants.rs MAIN_FUNCTION_EXPORT_NAME
//@fn src/program_config/program_constants.rs get_imported_function_names
//@ret r
//@spec
    ensures forall|n: Seq<char>| provided(n) <==> #[trigger] among(r@, n),
//@before vec!
    let ghost l = seq!["printf"@, "strtoul"@, "strtol"@, "strlen"@, "strstr"@, LOG_STACK_PTR_IMPORT_NAME@];
//@end
pub open spec fn ids_of(a: Imported, b: Defined) -> Seq<FunId> { Seq::new(a.len() + b.len(), |i: int| if i < a.len() { a[i].0 } else { b[i - a.len()].0 }) }
pub proof fn lemma_how_many(a: Imported, b: Defined, m: Map<FunId, ReloopedFunction>)
    requires apart(a, b), forall|i: int| 0 <= i < a.len() ==> m.contains_key((#[trigger] a[i]).0), forall|i: int| 0 <= i < b.len() ==> m.contains_key((#[trigger] b[i]).0),
    ensures a.len() + b.len() <= m.len(),
{
    let s = ids_of(a, b);
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    assert(s.to_set().subset_of(m.dom())) by { assert forall|f: FunId| #[trigger] s.to_set().contains(f) implies m.dom().contains(f) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == f; if i < a.len() { assert(m.contains_key(a[i].0)); } else { assert(m.contains_key(b[i - a.len()].0)); } } }
    vstd::set_lib::lemma_len_subset(s.to_set(), m.dom());
}
/// the function a name stands for, if the runtime provides it
pub open spec fn is_import(p: &ProgramMetadata, f: FunId, n: String) -> bool { provided(n@) && p.function_ids@.contains_key(n) && p.function_ids@[n] == f }
pub open spec fn imported(p: &ProgramMetadata, f: FunId) -> bool { exists|n: String| #[trigger] is_import(p, f, n) }
pub open spec fn imports_of(p: &ProgramMetadata, m: Map<FunId, ReloopedFunction>, a: Imported) -> bool { forall|i: int| 0 <= i < a.len() ==> m.contains_key((#[trigger] a[i]).0) && m[a[i].0] == a[i].2 && is_import(p, a[i].0, a[i].1) }
pub open spec fn definitions_of(p: &ProgramMetadata, m: Map<FunId, ReloopedFunction>, b: Defined) -> bool { forall|i: int| 0 <= i < b.len() ==> m.contains_key((#[trigger] b[i]).0) && m[b[i].0] == b[i].1 && !imported(p, b[i].0) }
//@fn src/back_end/target_code_generation.rs separate_imported_and_defined_functions
//@ret r
//@subst in it1: functions => in it1: entries_of(functions)
//@iter 0 it
//@iter 1 it1
//@spec
    ensures
        r.0@.len() + r.1@.len() <= functions@.len(),
        imports_of(prog_metadata, functions@, r.0@), definitions_of(prog_metadata, functions@, r.1@), apart(r.0@, r.1@),
        forall|f: FunId| #[trigger] functions@.contains_key(f) ==> in_imported(r.0@, f) || in_defined(r.1@, f),
//@start
    let ghost fs = functions@;
//@after let imported_function_names
    let ghost names = imported_function_names@;
//@loop 0
    invariant
        it.seq() == names, forall|n: Seq<char>| provided(n) <==> #[trigger] among(names, n),
        forall|f: FunId| #[trigger] imported_function_ids@.contains_key(f) ==> is_import(prog_metadata, f, imported_function_ids@[f]),
        forall|j: int| 0 <= j < it.index@ && prog_metadata.function_ids@.contains_key(#[trigger] it.seq()[j]) ==> imported_function_ids@.contains_key(prog_metadata.function_ids@[it.seq()[j]]),
//@loop 0 start
        proof { assert(imported_function_name == names[it.index@ as int]); assert(among(names, imported_function_name@)); }
//@loop 0 after
    proof {
        assert forall|f: FunId| #[trigger] imported_function_ids@.contains_key(f) == imported(prog_metadata, f) by {
            if imported(prog_metadata, f) {
                let n = choose|n: String| #[trigger] is_import(prog_metadata, f, n);
                assert(among(names, n@));
                let j = choose|j: int| 0 <= j < names.len() && (#[trigger] names[j])@ == n@;
                assert(names[j] == n);
            }
        }
    }
//@loop 1
    invariant
        fs == functions@, forall|f: FunId| #[trigger] imported_function_ids@.contains_key(f) == imported(prog_metadata, f),
        forall|f: FunId| #[trigger] imported_function_ids@.contains_key(f) ==> is_import(prog_metadata, f, imported_function_ids@[f]),
        forall|j: int| 0 <= j < it1.seq().len() ==> fs.contains_key((#[trigger] it1.seq()[j]).0) && fs[it1.seq()[j].0] == it1.seq()[j].1,
        forall|i: int, j: int| 0 <= i < j < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 != (#[trigger] it1.seq()[j]).0,
        imports_of(prog_metadata, fs, imported_functions@), definitions_of(prog_metadata, fs, defined_functions@), apart(imported_functions@, defined_functions@),
        forall|i: int, j: int| 0 <= i < imported_functions@.len() && it1.index@ <= j < it1.seq().len() ==> (#[trigger] imported_functions@[i]).0 != (#[trigger] it1.seq()[j]).0,
        forall|i: int, j: int| 0 <= i < defined_functions@.len() && it1.index@ <= j < it1.seq().len() ==> (#[trigger] defined_functions@[i]).0 != (#[trigger] it1.seq()[j]).0,
        forall|j: int| 0 <= j < it1.index@ ==> in_imported(imported_functions@, (#[trigger] it1.seq()[j]).0) || in_defined(defined_functions@, it1.seq()[j].0),
        forall|k: FunId| #[trigger] fs.contains_key(k) ==> exists|j: int| 0 <= j < it1.seq().len() && (#[trigger] it1.seq()[j]).0 == k,
//@loop 1 start
        let ghost a0 = imported_functions@;
        let ghost b0 = defined_functions@;
        let ghost f0 = fun_id;
        proof { assert(fun_id == it1.seq()[it1.index@ as int].0); }
//@loop 1 end
        proof {
            if imported(prog_metadata, f0) { assert(imported_functions@[a0.len() as int].0 == f0); } else { assert(defined_functions@[b0.len() as int].0 == f0); }
            assert forall|g: FunId| in_imported(a0, g) implies in_imported(imported_functions@, g) by { let j = choose|j: int| 0 <= j < a0.len() && (#[trigger] a0[j]).0 == g; assert(imported_functions@[j].0 == g); }
            assert forall|g: FunId| in_defined(b0, g) implies in_defined(defined_functions@, g) by { let j = choose|j: int| 0 <= j < b0.len() && (#[trigger] b0[j]).0 == g; assert(defined_functions@[j].0 == g); }
        }
//@loop 1 after
    proof { lemma_how_many(imported_functions@, defined_functions@, fs); }
//@end
