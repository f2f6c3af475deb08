// the whole module
//@type src/relooper/relooper.rs ProgramBlocks
//@type src/relooper/relooper.rs ReloopedProgram
//@type src/program_config/enabled_optimisations.rs EnabledOptimisations
//@type src/back_end/backend_error.rs BackendError
//@type src/back_end/stack_allocation/allocate_vars.rs VariableAllocationMap
//@fn src/back_end/target_code_generation_context.rs FunctionContext::new
//@ret r
//@spec
    ensures r.var_fp_offsets == var_fp_offsets, r.global_var_addrs == global_var_addrs, r.label_variable == label_variable, r.control_flow_stack@.len() == 0,
//@end
//@fn src/back_end/target_code_generation_context.rs FunctionContext::global_context
//@ret r
//@spec
    ensures r.var_fp_offsets@ == Map::<VarId, u32>::empty(), r.global_var_addrs == global_var_addrs, r.control_flow_stack@.len() == 0,
//@end
//@fn src/back_end/wasm_module/types_section.rs TypesSection::new
//@ret r
//@spec
    ensures r.function_types@.len() == 0,
//@end
//@fn src/back_end/wasm_module/imports_section.rs ImportsSection::new
//@ret r
//@spec
    ensures r.imports@.len() == 0,
//@end
//@fn src/back_end/wasm_module/functions_section.rs FunctionsSection::new
//@ret r
//@spec
    ensures r.function_type_idxs@.len() == 0,
//@end
//@fn src/back_end/wasm_module/tables_section.rs TablesSection::new
//@end
//@fn src/back_end/wasm_module/memory_section.rs MemorySection::new
//@end
//@fn src/back_end/wasm_module/globals_section.rs GlobalsSection::new
//@end
//@fn src/back_end/wasm_module/exports_section.rs ExportsSection::new
//@ret r
//@spec
    ensures r.exports@.len() == 0,
//@end
//@fn src/back_end/wasm_module/start_section.rs StartSection::new
//@end
//@fn src/back_end/wasm_module/element_section.rs ElementSection::new
//@end
//@fn src/back_end/wasm_module/code_section.rs CodeSection::new
//@ret r
//@spec
    ensures r.function_bodies@.len() == 0,
//@end
//@fn src/back_end/wasm_module/data_section.rs DataSection::new
//@ret r
//@spec
    ensures r.data_segments@.len() == 0,
//@end
impl WasmModule {
    /// nothing has been put in
    pub open spec fn blank(&self) -> bool {
        &&& self.types_section.function_types@.len() == 0 && self.type_idx_generator.count() == 0 && self.imports_section.imports@.len() == 0
        &&& self.functions_section.function_type_idxs@.len() == 0 && self.exports_section.exports@.len() == 0 && self.code_section.function_bodies@.len() == 0
    }
}
//@fn src/back_end/wasm_module/module.rs WasmModule::new
//@ret r
//@spec
    ensures r.blank(),
//@end
//@fn src/back_end/wasm_module/module.rs WasmModule::insert_type
//@ret r
//@spec
    requires old(self).type_idx_generator.count() < u32::MAX,
    ensures r.x == old(self).type_idx_generator.count(), final(self).type_idx_generator.count() == r.x + 1, final(self).types_section.function_types@ =~= old(self).types_section.function_types@.push(function_type),
        *final(self) == (WasmModule { types_section: final(self).types_section, type_idx_generator: final(self).type_idx_generator, ..*old(self) }),
//@end
pub open spec fn funs_handed_out(m: Map<FunId, ReloopedFunction>, p: &ProgramMetadata) -> bool { forall|f: FunId| #[trigger] m.contains_key(f) ==> f.idx() < p.fun_id_generator.count() }
/// the function of that name
pub open spec fn named(p: &ProgramMetadata, n: Seq<char>, f: FunId) -> bool { exists|s: String| s@ == n && #[trigger] p.function_ids@.contains_key(s) && p.function_ids@[s] == f }
//@fn src/middle_end/ir.rs ProgramMetadata::new_fun_declaration
//@ret r
//@spec
    requires old(self).fun_id_generator.count() <= u64::MAX,
    ensures
        match r {
            Ok(f) => !old(self).function_ids@.contains_key(name) && f.idx() == old(self).fun_id_generator.count() && final(self).fun_id_generator.count() == f.idx() + 1 && *final(self) == (ProgramMetadata { function_ids: final(self).function_ids, fun_id_generator: final(self).fun_id_generator, ..*old(self) }) && final(self).function_ids@ == old(self).function_ids@.insert(name, f),
            Err(_) => old(self).function_ids@.contains_key(name) && *final(self) == *old(self),
        },
//@end
/// the functions of a module: those of the program, and the logger when the stack is profiled
pub open spec fn with_logger(on: bool, m: Map<FunId, ReloopedFunction>, p: &ProgramMetadata, m2: Map<FunId, ReloopedFunction>, p2: &ProgramMetadata, logger: Option<FunId>) -> bool {
    if on {
        &&& logger is Some && !m.contains_key(logger->0) && m2.contains_key(logger->0) && m2[logger->0].block is None && m2 == m.insert(logger->0, m2[logger->0]) && named(p2, LOG_STACK_PTR_IMPORT_NAME@, logger->0)
        &&& forall|n: String| #[trigger] p2.function_ids@.contains_key(n) <==> p.function_ids@.contains_key(n) || n@ == LOG_STACK_PTR_IMPORT_NAME@
        &&& forall|n: String| #[trigger] p.function_ids@.contains_key(n) ==> p2.function_ids@[n] == p.function_ids@[n]
        &&& *p2 == (ProgramMetadata { function_ids: p2.function_ids, fun_id_generator: p2.fun_id_generator, ..*p })
    } else { m2 == m && *p2 == *p && logger is None }
}
pub open spec fn unclaimed(p: &ProgramMetadata, n: Seq<char>) -> bool { forall|s: String| s@ == n ==> !#[trigger] p.function_ids@.contains_key(s) }
//@fn src/back_end/profiler.rs initialise_profiler
//@spec
    requires
        old(module_context).log_stack_ptr_fun_id is None, old(module_context).enabled_profiling.stack_ptr_logging ==> unclaimed(&old(prog).program_metadata, LOG_STACK_PTR_IMPORT_NAME@),
        old(prog).program_metadata.fun_id_generator.count() <= u64::MAX, funs_handed_out(old(prog).program_blocks.functions@, &old(prog).program_metadata),
    ensures
        with_logger(old(module_context).enabled_profiling.stack_ptr_logging, old(prog).program_blocks.functions@, &old(prog).program_metadata, final(prog).program_blocks.functions@, &final(prog).program_metadata, final(module_context).log_stack_ptr_fun_id),
        *final(module_context) == (ModuleContext { log_stack_ptr_fun_id: final(module_context).log_stack_ptr_fun_id, ..*old(module_context) }),
        final(prog).program_blocks.global_instrs == old(prog).program_blocks.global_instrs,
//@after let log_stack_ptr_fun_id
    proof {
        let f = log_stack_ptr_fun_id;
        let n0 = old(prog).program_metadata.function_ids@;
        let s = choose|s: String| s@ == LOG_STACK_PTR_IMPORT_NAME@ && prog.program_metadata.function_ids@ == #[trigger] n0.insert(s, f);
        assert(prog.program_metadata.function_ids@.contains_key(s));
        assert(named(&prog.program_metadata, LOG_STACK_PTR_IMPORT_NAME@, f));
        assert forall|n: String| #[trigger] prog.program_metadata.function_ids@.contains_key(n) implies n0.contains_key(n) || n@ == LOG_STACK_PTR_IMPORT_NAME@ by { }
        assert forall|n: String| n@ == LOG_STACK_PTR_IMPORT_NAME@ implies #[trigger] prog.program_metadata.function_ids@.contains_key(n) by { assert(n == s); }
    }
//@end
/// what the allocator may do to a function, and what the code generator may make of a block (decided elsewhere)
pub uninterp spec fn allocated(b: Block, t: IrType, params: Seq<VarId>, globals: Map<VarId, u32>, n: Map<FunId, FuncIdx>, b2: Block, code: Seq<WasmInstruction>, off: Map<VarId, u32>) -> bool;
pub uninterp spec fn converted(b: Block, off: Map<VarId, u32>, globals: Map<VarId, u32>, n: Map<FunId, FuncIdx>, code: Seq<WasmInstruction>) -> bool;
pub uninterp spec fn converted_fun(b: Block, off: Map<VarId, u32>, globals: Map<VarId, u32>, label: VarId, n: Map<FunId, FuncIdx>, code: Seq<WasmInstruction>) -> bool;
//@fn src/back_end/stack_allocation/allocate_vars.rs get_global_vars_byte_size
//@external
//@ret r
//@spec
    ensures r <= u32::MAX,
//@end
//@fn src/back_end/stack_allocation/allocate_vars.rs allocate_global_vars
//@external
//@end
//@fn src/back_end/stack_allocation/allocate_vars.rs allocate_local_vars
//@external
//@ret r
//@spec
    ensures
        exists|code: Seq<WasmInstruction>| final(wasm_instrs)@ == old(wasm_instrs)@ + code && #[trigger] allocated(*old(block), fun_type, fun_param_var_mappings@, global_var_addrs@, module_context.fun_id_to_func_idx_map@, *final(block), code, r@),
        final(prog_metadata).function_ids == old(prog_metadata).function_ids,
//@end
//@fn src/back_end/target_code_generation.rs convert_block_to_wasm
//@external
//@ret r
//@spec
    ensures
        converted_fun(block, old(function_context).var_fp_offsets@, old(function_context).global_var_addrs@, old(function_context).label_variable, module_context.fun_id_to_func_idx_map@, r@),
        converted(block, old(function_context).var_fp_offsets@, old(function_context).global_var_addrs@, module_context.fun_id_to_func_idx_map@, r@),
//@end
pub open spec fn body_with(f: ReloopedFunction, n: Map<FunId, FuncIdx>, b2: Block, globals: Map<VarId, u32>, off: Map<VarId, u32>, frame: Seq<WasmInstruction>, code: Seq<WasmInstruction>) -> bool {
    f.block is Some && f.label_variable is Some && allocated(f.block->0, f.type_info, f.param_var_mappings@, globals, n, b2, frame, off) && converted_fun(b2, off, globals, f.label_variable->0, n, code)
}
/// the code of a function
pub open spec fn body_of(f: ReloopedFunction, n: Map<FunId, FuncIdx>, s: Seq<WasmInstruction>) -> bool {
    if f.block is None { s.len() == 0 } else { exists|b2: Block, globals: Map<VarId, u32>, off: Map<VarId, u32>, frame: Seq<WasmInstruction>, code: Seq<WasmInstruction>| s == frame + code && #[trigger] body_with(f, n, b2, globals, off, frame, code) }
}
pub open spec fn put_arg(k: int, mc: &ModuleContext) -> Seq<WasmInstruction> { stack_ptr_code() + seq![WasmInstruction::LocalGet { local_idx: LocalIdx { x: k as u32 } }, WasmInstruction::I32Store { mem_arg: at0() }] + mc.bump(4) }
/// the exported function: set the stack up, run the initialisers, call main with the program's arguments, return its result
pub open spec fn entry_code(g: Seq<WasmInstruction>, main: FuncIdx, mc: &ModuleContext) -> Seq<WasmInstruction> {
    stack_ptr_code() + seq![WasmInstruction::I32Const { n: 0 }, WasmInstruction::I32Store { mem_arg: at0() }] + set_code(0, stack_ptr_code()) + g
    + stack_ptr_code() + frame_ptr_code() + seq![WasmInstruction::I32Store { mem_arg: at0() }] + set_code(0, stack_ptr_code()) + mc.bump(8) + put_arg(0, mc) + put_arg(1, mc)
    + seq![WasmInstruction::Call { func_idx: main }] + frame_ptr_code() + seq![WasmInstruction::I32Const { n: 4 }, WasmInstruction::I32Add, WasmInstruction::I32Load { mem_arg: at0() }, WasmInstruction::Return]
}
pub open spec fn initialisers(g: Option<Block>, n: Map<FunId, FuncIdx>, code: Seq<WasmInstruction>) -> bool {
    match g { None => code.len() == 0, Some(b) => exists|globals: Map<VarId, u32>| #[trigger] converted(b, Map::empty(), globals, n, code) }
}
/// the functions of a program, numbered
pub struct Numbering { pub a: Imported, pub b: Defined, pub n: Map<FunId, FuncIdx> }
impl Numbering {
    pub open spec fn ok(&self, m: Map<FunId, ReloopedFunction>, p: &ProgramMetadata) -> bool {
        &&& numbered(self.n, self.a, self.b) && apart(self.a, self.b) && imports_of(p, m, self.a) && definitions_of(p, m, self.b)
        &&& forall|f: FunId| #[trigger] m.contains_key(f) ==> in_imported(self.a, f) || in_defined(self.b, f)
    }
    /// every number stands for its function
    pub open spec fn module(&self, w: &WasmModule) -> bool {
        let (a, b) = (self.a, self.b);
        let imports = w.imports_section.imports@;
        let types = w.functions_section.function_type_idxs@;
        let bodies = w.code_section.function_bodies@;
        &&& imports.len() == a.len() + 1 && imports[0].import_descriptor is Mem && forall|i: int| 0 <= i < a.len() ==> import_of(TypeIdx { x: 1 }, (#[trigger] a[i]).1, imports[i + 1])
        &&& types.len() == b.len() + 1 && bodies.len() == b.len() + 1
        &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] types[i]).x == 1 && bodies[i].local_declarations@.len() == 0 && body_of(b[i].1, self.n, bodies[i].function_body.instrs@)
        &&& types[b.len() as int].x == 0 && bodies[b.len() as int].local_declarations@.len() == 0
        &&& w.types_section.function_types@.len() == 2 && entry_type(w.types_section.function_types@[0]) && w.types_section.function_types@[1].param_types@.len() == 0 && w.types_section.function_types@[1].result_types@.len() == 0
        &&& w.exports_section.exports@.len() == 1 && w.exports_section.exports@[0].name@ == MAIN_FUNCTION_EXPORT_NAME@ && match w.exports_section.exports@[0].export_descriptor { ExportDescriptor::Func { func_idx } => func_idx == fidx((a.len() + b.len()) as int), _ => false }
    }
}
pub open spec fn i32_type(t: ValType) -> bool { t is NumType && t->NumType_0 is I32 }
pub open spec fn entry_type(t: WasmFunctionType) -> bool { t.param_types@.len() == 2 && i32_type(t.param_types@[0]) && i32_type(t.param_types@[1]) && t.result_types@.len() == 1 && i32_type(t.result_types@[0]) }
/// the exported function starts the program
pub open spec fn starts(w: &WasmModule, n: Map<FunId, FuncIdx>, main: FunId, g: Option<Block>, code: Seq<WasmInstruction>, mc: &ModuleContext) -> bool {
    &&& n.contains_key(main) && mc.fun_id_to_func_idx_map@ == n && initialisers(g, n, code)
    &&& w.code_section.function_bodies@.last().function_body.instrs@ =~= entry_code(code, n[main], mc)
}
impl ReloopedProgram {
    pub open spec fn well_formed(&self) -> bool {
        &&& funs_handed_out(self.program_blocks.functions@, &self.program_metadata) && self.program_metadata.fun_id_generator.count() <= u64::MAX
        &&& forall|f: FunId| #[trigger] self.program_blocks.functions@.contains_key(f) && self.program_blocks.functions@[f].block is Some ==> self.program_blocks.functions@[f].label_variable is Some
        &&& forall|n: String| #[trigger] self.program_metadata.function_ids@.contains_key(n) ==> self.program_blocks.functions@.contains_key(self.program_metadata.function_ids@[n])
    }
}
//@fn src/back_end/target_code_generation.rs generate_target_code
//@ret r
//@attr #[verifier::rlimit(60)]
//@iter 0 it
//@iter 1 it1
//@spec
    requires
        prog.well_formed(), prog.program_blocks.functions@.len() < u32::MAX - 2, enabled_profiling.stack_ptr_logging ==> unclaimed(&prog.program_metadata, LOG_STACK_PTR_IMPORT_NAME@),
    ensures
        match r {
            Ok(w) => exists|m: Map<FunId, ReloopedFunction>, p: ProgramMetadata, l: Option<FunId>, t: Numbering| #[trigger] with_logger(enabled_profiling.stack_ptr_logging, prog.program_blocks.functions@, &prog.program_metadata, m, &p, l) && #[trigger] t.ok(m, &p) && t.module(&w)
                && exists|main: FunId, code: Seq<WasmInstruction>, mc: &ModuleContext| named(&p, MAIN_FUNCTION_SOURCE_NAME@, main) && #[trigger] starts(&w, t.n, main, prog.program_blocks.global_instrs, code, mc),
            Err(_) => unclaimed(&prog.program_metadata, MAIN_FUNCTION_SOURCE_NAME@),
        },
//@after initialise_profiler
    let ghost fs = prog.program_blocks.functions@;
    let ghost meta = prog.program_metadata;
    let ghost g = prog.program_blocks.global_instrs;
    let ghost logger = module_context.log_stack_ptr_fun_id;
    proof {
        assert forall|n: String| #[trigger] meta.function_ids@.contains_key(n) implies fs.contains_key(meta.function_ids@[n]) by {
            if !prog0.program_metadata.function_ids@.contains_key(n) { let s = choose|s: String| s@ == LOG_STACK_PTR_IMPORT_NAME@ && #[trigger] meta.function_ids@.contains_key(s) && meta.function_ids@[s] == logger->0; assert(s == n); }
        }
    }
//@start
    let ghost prog0 = prog;
//@after module_context.calculate_func_idxs
    let ghost a = imported_functions@;
    let ghost b = defined_functions@;
    let ghost n = module_context.fun_id_to_func_idx_map@;
    let ghost t = Numbering { a, b, n };
    let ghost entry = fidx((a.len() + b.len()) as int);
    proof {
        assert(a.len() + b.len() < u32::MAX - 1);
        assert(t.ok(fs, &meta));
        assert forall|f: FunId| #[trigger] fs.contains_key(f) implies n.contains_key(f) by {
            if in_imported(a, f) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == f; assert(n.contains_key(a[k].0)); } else { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == f; assert(n.contains_key(b[k].0)); }
        }
        assert(module_context.ready());
    }
//@before if let Some(global_block)
    let ghost pre = global_wasm_instrs@;
    let ghost mut init = Seq::<WasmInstruction>::empty();
    let ghost mut main = arbitrary::<FunId>();
    let ghost mc = module_context;
//@after global_wasm_instrs.append
        proof {
            init = choose|c: Seq<WasmInstruction>| global_wasm_instrs@ == pre + c && #[trigger] converted(g->0, Map::<VarId, u32>::empty(), global_var_addrs@, n, c);
            assert(initialisers(g, n, init));
        }
//@before return Err
            proof {
                assert forall|s: String| s@ == MAIN_FUNCTION_SOURCE_NAME@ implies !#[trigger] prog0.program_metadata.function_ids@.contains_key(s) by { assert(!meta.function_ids@.contains_key(s)); }
            }
//@before let main_func_idx
            proof { main = *main_fun_id; assert(named(&meta, MAIN_FUNCTION_SOURCE_NAME@, main)); assert(fs.contains_key(main)); assert(n.contains_key(main)); }
//@before func_idx_to_body_code_map.insert(
    proof { assert(initialisers(g, n, init)); assert(global_wasm_instrs@ =~= entry_code(init, n[main], &mc)); }
//@loop 0 before
    let ghost entry_body = func_idx_to_body_code_map@[entry];
//@loop 0
    invariant
        it.seq() == b, n == module_context.fun_id_to_func_idx_map@, numbered(n, a, b), apart(a, b), a.len() + b.len() < u32::MAX - 1, entry == fidx((a.len() + b.len()) as int),
        forall|j: int| 0 <= j < b.len() && (#[trigger] b[j]).1.block is Some ==> b[j].1.label_variable is Some,
        module_context.ready(), empty_type_idx.x == 1,
        forall|i: FuncIdx| #[trigger] func_idx_to_type_idx_map@.contains_key(i) <==> i == entry || a.len() <= i.x < a.len() + it.index@,
        forall|i: FuncIdx| #[trigger] func_idx_to_body_code_map@.contains_key(i) <==> i == entry || a.len() <= i.x < a.len() + it.index@,
        func_idx_to_type_idx_map@[entry].x == 0, func_idx_to_body_code_map@[entry] == entry_body,
        forall|j: int| 0 <= j < it.index@ ==> (#[trigger] func_idx_to_type_idx_map@[fidx(a.len() + j)]).x == 1,
        forall|j: int| #![trigger b[j]] 0 <= j < it.index@ ==> body_of(b[j].1, n, func_idx_to_body_code_map@[fidx(a.len() + j)].instrs@),
//@loop 0 start
        let ghost k = it.index@ as int;
        let ghost fun0 = function;
        let ghost here = fidx(a.len() + k);
        proof { assert(fun_id == b[k].0); assert(n.contains_key(b[k].0)); assert(fun0 == b[k].1); }
//@after let var_offsets
            let ghost b2 = block;
            let ghost off = var_offsets@;
            let ghost frame = function_wasm_instrs@;
            proof {
                let c = choose|c: Seq<WasmInstruction>| frame == Seq::<WasmInstruction>::empty() + c && #[trigger] allocated(fun0.block->0, fun0.type_info, fun0.param_var_mappings@, global_var_addrs@, n, b2, c, off);
                assert(frame =~= c);
            }
//@before func_idx_to_body_code_map.insert(##1
            proof {
                let code = choose|c: Seq<WasmInstruction>| function_wasm_instrs@ == frame + c && #[trigger] converted_fun(b2, off, global_var_addrs@, fun0.label_variable->0, n, c);
                assert(body_with(fun0, n, b2, global_var_addrs@, off, frame, code));
            }
//@loop 0 end
        proof { assert(body_of(fun0, n, func_idx_to_body_code_map@[here].instrs@)); }
//@loop 1
    invariant
        it1.seq() == a, n == module_context.fun_id_to_func_idx_map@, numbered(n, a, b), apart(a, b), a.len() + b.len() < u32::MAX - 1, empty_type_idx.x == 1,
        forall|i: FuncIdx| #[trigger] imported_func_idx_to_type_idx_map@.contains_key(i) <==> i.x < it1.index@,
        forall|i: FuncIdx| #[trigger] imported_func_idx_to_name_map@.contains_key(i) <==> i.x < it1.index@,
        forall|j: int| 0 <= j < it1.index@ ==> (#[trigger] imported_func_idx_to_type_idx_map@[fidx(j)]).x == 1,
        forall|j: int| #![trigger a[j]] 0 <= j < it1.index@ ==> imported_func_idx_to_name_map@[fidx(j)] == a[j].1,
//@loop 1 start
        let ghost k = it1.index@ as int;
        proof { assert(fun_id == a[k].0); assert(n.contains_key(a[k].0)); }
//@end_
    proof {
        assert(with_logger(enabled_profiling.stack_ptr_logging, prog0.program_blocks.functions@, &prog0.program_metadata, fs, &meta, logger));
        assert(t.module(&wasm_module));
        assert(starts(&wasm_module, t.n, main, prog0.program_blocks.global_instrs, init, &mc));
    }
//@end
// programs to blocks
//@type src/relooper/relooper.rs Labels
//@type src/relooper/relooper.rs Entries
//@type src/relooper/relooper.rs RelooperContext
/// what becomes of the instructions of a function (decided elsewhere)
pub uninterp spec fn soup(instrs: Seq<Instruction>, labels: Map<LabelId, Label>, entry: LabelId) -> bool;
pub uninterp spec fn shape(labels: Map<LabelId, Label>, entries: Seq<LabelId>, label_var: VarId, b: Block) -> bool;
pub open spec fn structured_by(instrs: Seq<Instruction>, label_var: VarId, b: Block, labels: Map<LabelId, Label>, entry: LabelId) -> bool { soup(instrs, labels, entry) && shape(labels, seq![entry], label_var, b) }
pub open spec fn structured(instrs: Seq<Instruction>, label_var: VarId, b: Block) -> bool { exists|labels: Map<LabelId, Label>, entry: LabelId| #[trigger] structured_by(instrs, label_var, b, labels, entry) }
pub open spec fn tables_kept(a: &ProgramMetadata, b: &ProgramMetadata) -> bool { a.function_ids == b.function_ids && a.fun_id_generator == b.fun_id_generator && a.function_types == b.function_types && a.function_param_var_mappings == b.function_param_var_mappings && a.string_literals == b.string_literals && a.structs == b.structs }
//@fn src/relooper/relooper.rs RelooperContext::new
//@ret r
//@spec
    ensures r.label_variable == label_variable,
//@end
//@fn src/relooper/soupify.rs soupify
//@external
//@ret r
//@spec
    requires instrs@.len() > 0,
    ensures soup(instrs@, r.0@, r.1), r.0@.contains_key(r.1), tables_kept(old(prog_metadata), final(prog_metadata)),
//@end
//@fn src/relooper/relooper.rs create_block_from_labels
//@external
//@ret r
//@spec
    ensures labels@.len() > 0 && entries@.len() > 0 ==> r is Some, r is Some ==> shape(labels@, entries@, *old(context).label_variable, r->0), tables_kept(old(prog_metadata), final(prog_metadata)),
//@end
//@fn src/relooper/relooper.rs assert_no_branch_instrs_left
//@external
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::new_instr_id
//@external
//@ret r
//@spec
    ensures tables_kept(old(self), final(self)),
//@end
//@fn src/relooper/relooper.rs init_label_variable
//@external
//@ret r
//@spec
    ensures tables_kept(old(prog_metadata), final(prog_metadata)),
//@end
//@fn src/relooper/relooper.rs ProgramBlocks::new
//@ret r
//@spec
    ensures r.functions@ == Map::<FunId, ReloopedFunction>::empty(), r.global_instrs is None,
//@end
/// a function leaves at its end
pub open spec fn leaves(s: Seq<Instruction>, t: Seq<Instruction>) -> bool { if s.len() > 0 && s.last() is Ret { t == s } else { exists|id: InstructionId| t == #[trigger] s.push(Instruction::Ret(id, None)) } }
pub open spec fn body_structured(s: Seq<Instruction>, t: Seq<Instruction>, v: VarId, b: Block) -> bool { leaves(s, t) && structured(t, v, b) }
/// a function and what it became
pub open spec fn relooped(f: Function, r: ReloopedFunction) -> bool {
    &&& r.type_info == f.type_info && r.param_var_mappings == f.param_var_mappings && r.body_is_defined == f.body_is_defined
    &&& if f.body_is_defined && f.instrs@.len() > 0 { r.block is Some && r.label_variable is Some && (exists|t: Seq<Instruction>| #[trigger] body_structured(f.instrs@, t, r.label_variable->0, r.block->0)) } else { r.block is None && r.label_variable is None }
}
pub open spec fn relooped_globals(g: Seq<Instruction>, b: Option<Block>) -> bool { if g.len() == 0 { b is None } else { b is Some && exists|v: VarId| #[trigger] structured(g, v, b->0) } }
/// names stand for functions of the program
pub open spec fn linked(p: &Program) -> bool {
    &&& p.program_metadata.fun_id_generator.count() <= u64::MAX
    &&& forall|f: FunId| #[trigger] p.program_instructions.functions@.contains_key(f) ==> f.idx() < p.program_metadata.fun_id_generator.count()
    &&& forall|n: String| #[trigger] p.program_metadata.function_ids@.contains_key(n) ==> p.program_instructions.functions@.contains_key(p.program_metadata.function_ids@[n])
}
//@fn src/relooper/relooper.rs reloop
//@ret r
//@iter 0 it
//@subst it: prog.program_instructions.functions => it: entries_of(prog.program_instructions.functions)
//@spec
    ensures
        tables_kept(&prog.program_metadata, &r.program_metadata),
        r.program_blocks.functions@.dom() =~= prog.program_instructions.functions@.dom(),
        forall|f: FunId| #[trigger] r.program_blocks.functions@.contains_key(f) ==> relooped(prog.program_instructions.functions@[f], r.program_blocks.functions@[f]),
        relooped_globals(prog.program_instructions.global_instrs@, r.program_blocks.global_instrs),
        linked(&prog) ==> r.well_formed(),
//@start
    let ghost prog0 = prog;
    let ghost fs = prog.program_instructions.functions@;
//@loop 0
    invariant
        prog.program_instructions.global_instrs == prog0.program_instructions.global_instrs, tables_kept(&prog0.program_metadata, &prog.program_metadata), program_blocks.global_instrs is None,
        forall|j: int| 0 <= j < it.seq().len() ==> fs.contains_key((#[trigger] it.seq()[j]).0) && fs[it.seq()[j].0] == it.seq()[j].1,
        forall|i: int, j: int| 0 <= i < j < it.seq().len() ==> (#[trigger] it.seq()[i]).0 != (#[trigger] it.seq()[j]).0,
        forall|k: FunId| #[trigger] fs.contains_key(k) ==> exists|j: int| 0 <= j < it.seq().len() && (#[trigger] it.seq()[j]).0 == k,
        forall|j: int| 0 <= j < it.index@ ==> program_blocks.functions@.contains_key((#[trigger] it.seq()[j]).0),
        forall|f: FunId| #[trigger] program_blocks.functions@.contains_key(f) ==> fs.contains_key(f) && relooped(fs[f], program_blocks.functions@[f]),
//@loop 0 start
        let ghost f0 = function;
        let ghost id0 = fun_id;
        let ghost was = program_blocks.functions@;
        proof { assert(id0 == it.seq()[it.index@ as int].0); }
//@before let (labels, entry)##0
        let ghost body = fun_instrs@;
        proof {
            if f0.instrs@.last() is Ret {} else { assert(fun_instrs@ =~= f0.instrs@.push(fun_instrs@.last())); assert(fun_instrs@.last() is Ret && fun_instrs@.last()->Ret_1 is None); assert(fun_instrs@ == f0.instrs@.push(Instruction::Ret(fun_instrs@.last()->Ret_0, None))); }
            assert(leaves(f0.instrs@, body));
        }
//@after let (labels, entry)##0
        let ghost ls = labels@;
        let ghost en = entry;
//@after let block##0
        proof {
            if block is Some {
                let e = choose|e: Seq<LabelId>| #[trigger] shape(ls, e, label_var, block->0) && e.len() == 1 && e[0] == en;
                assert(e =~= seq![en]);
                assert(structured_by(body, label_var, block->0, ls, en)); assert(body_structured(f0.instrs@, body, label_var, block->0));
            }
        }
//@before assert_no_branch_instrs_left(##0
                let ghost bb = block;
//@after program_blocks.functions.insert(##1
                proof {
                    let r = program_blocks.functions@[id0];
                    assert(r.block == Some(bb) && r.label_variable == Some(label_var));
                    assert(body_structured(f0.instrs@, body, r.label_variable->0, r.block->0));
                    assert(relooped(f0, r));
                }
//@after let (labels, entry)##1
        let ghost ls = labels@;
        let ghost en = entry;
//@after let block##1
        proof {
            if block is Some {
                let e = choose|e: Seq<LabelId>| #[trigger] shape(ls, e, label_var, block->0) && e.len() == 1 && e[0] == en;
                assert(e =~= seq![en]);
                assert(structured_by(prog0.program_instructions.global_instrs@, label_var, block->0, ls, en)); assert(structured(prog0.program_instructions.global_instrs@, label_var, block->0));
            }
        }
//@end
