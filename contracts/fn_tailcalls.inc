// tail calls
/// bytes that the first n arguments take up
pub open spec fn args_size(f: IrType, args: Seq<Src>, n: int, p: &ProgramMetadata) -> int
    decreases n,
{
    if n <= 0 { 0 } else { args_size(f, args, n - 1, p) + arg_type(f, args[n - 1], n - 1, p).size(p) }
}
/// where the first n arguments leave the copy of a variable, above the stack pointer
pub open spec fn copy_at(f: IrType, args: Seq<Src>, v: VarId, n: int, p: &ProgramMetadata) -> int
    decreases n,
{
    if n <= 0 { 0 } else if args[n - 1] == Src::Var(v) { args_size(f, args, n - 1, p) } else { copy_at(f, args, v, n - 1, p) }
}
/// the variable is among the first n arguments
pub open spec fn passed(args: Seq<Src>, v: VarId, n: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] args[j] == Src::Var(v) }
impl FunctionContext {
    /// copy argument k, if it is a variable, above the stack pointer
    pub open spec fn copy_code(&self, f: IrType, args: Seq<Src>, k: int, p: &ProgramMetadata) -> Seq<WasmInstruction> {
        match args[k] {
            Src::Var(v) => temp_ptr_code() + seq![c32(args_size(f, args, k, p) as i32 as int), WasmInstruction::I32Add] + self.load_var_code(v, p) + seq![store_op(p.var_types@[v])],
            _ => seq![],
        }
    }
    pub open spec fn copies_code(&self, f: IrType, args: Seq<Src>, n: int, p: &ProgramMetadata) -> Seq<WasmInstruction>
        decreases n,
    {
        if n <= 0 { seq![] } else { self.copies_code(f, args, n - 1, p) + self.copy_code(f, args, n - 1, p) }
    }
    /// write argument k at the stack pointer, from its copy, and move the stack pointer past it
    pub open spec fn move_code(&self, f: IrType, args: Seq<Src>, k: int, p: &ProgramMetadata, mc: &ModuleContext) -> Seq<WasmInstruction> {
        match args[k] {
            Src::Var(v) => stack_ptr_code() + temp_ptr_code()
                + seq![c32(copy_at(f, args, v, args.len() as int, p) as i32 as int), WasmInstruction::I32Add, load_op(p.var_types@[v]), store_op(p.var_types@[v])]
                + mc.bump(p.var_types@[v].size(p) as int),
            _ => self.arg_code(f, args[k], k, p, mc),
        }
    }
    pub open spec fn moves_code(&self, f: IrType, args: Seq<Src>, n: int, p: &ProgramMetadata, mc: &ModuleContext) -> Seq<WasmInstruction>
        decreases n,
    {
        if n <= 0 { seq![] } else { self.moves_code(f, args, n - 1, p, mc) + self.move_code(f, args, n - 1, p, mc) }
    }
    /// the current frame becomes the callee's: the previous frame pointer stays, the arguments are replaced
    pub open spec fn tail_code(&self, f: IrType, args: Seq<Src>, p: &ProgramMetadata, mc: &ModuleContext) -> Seq<WasmInstruction> {
        set_code(4, stack_ptr_code()) + self.copies_code(f, args, args.len() as int, p)
            + mc.to_frame_code() + mc.bump(4) + mc.bump(f.ret().size(p) as u32 as i32 as int)
            + self.moves_code(f, args, args.len() as int, p, mc)
    }
}
pub proof fn lemma_args_size(f: IrType, args: Seq<Src>, i: int, j: int, p: &ProgramMetadata)
    requires i <= j,
    ensures args_size(f, args, i, p) <= args_size(f, args, j, p), 0 <= args_size(f, args, i, p),
    decreases if j > i { j - i } else { 0 }, if i > 0 { i } else { 0 },
{
    if i < j { lemma_args_size(f, args, i, j - 1, p); } else if i > 0 { lemma_args_size(f, args, i - 1, i - 1, p); }
}
pub proof fn lemma_copy_at(f: IrType, args: Seq<Src>, j: int, n: int, p: &ProgramMetadata)
    requires 0 <= j < n <= args.len(), args[j] is Var,
    ensures args_size(f, args, j, p) <= copy_at(f, args, args[j]->Var_0, n, p) <= args_size(f, args, n, p),
    decreases n,
{
    if args[n - 1] == args[j] { lemma_args_size(f, args, j, n - 1, p); lemma_args_size(f, args, n - 1, n, p); } else { lemma_copy_at(f, args, j, n - 1, p); lemma_args_size(f, args, n - 1, n, p); }
}
/// writing argument i into the frame (frame pointer fp, stack pointer sp) leaves the copies of all later arguments alone
pub proof fn lemma_copies_kept(f: IrType, args: Seq<Src>, i: int, j: int, fp: int, sp: int, p: &ProgramMetadata)
    requires 0 <= i < j < args.len(), args[j] is Var, fp + 4 + f.ret().size(p) <= sp,
    ensures fp + 4 + f.ret().size(p) + args_size(f, args, i + 1, p) <= sp + copy_at(f, args, args[j]->Var_0, args.len() as int, p),
{
    lemma_args_size(f, args, i + 1, j, p);
    lemma_copy_at(f, args, j, args.len() as int, p);
}
/// every variable among the first n arguments is known to be at the place of its copy
pub open spec fn copied(f: IrType, args: Seq<Src>, m: Map<VarId, u64>, n: int, p: &ProgramMetadata) -> bool {
    forall|v: VarId| #[trigger] passed(args, v, n) ==> m.contains_key(v) && m[v] == copy_at(f, args, v, n, p)
}
pub proof fn lemma_copied(f: IrType, args: Seq<Src>, m: Map<VarId, u64>, m2: Map<VarId, u64>, k: int, p: &ProgramMetadata)
    requires
        0 <= k < args.len(), copied(f, args, m, k, p),
        args[k] is Var ==> args_size(f, args, k, p) <= u64::MAX && m2 == m.insert(args[k]->Var_0, args_size(f, args, k, p) as u64),
        !(args[k] is Var) ==> m2 == m,
    ensures copied(f, args, m2, k + 1, p),
{
    lemma_args_size(f, args, k, k, p);
    assert forall|v: VarId| #[trigger] passed(args, v, k + 1) implies m2.contains_key(v) && m2[v] == copy_at(f, args, v, k + 1, p) by {
        if args[k] != Src::Var(v) {
            let j = choose|j: int| 0 <= j < k + 1 && #[trigger] args[j] == Src::Var(v);
            assert(0 <= j < k && args[j] == Src::Var(v));
            assert(passed(args, v, k));
        }
    }
}
//@fn src/back_end/stack_frame_operations.rs overwrite_current_stack_frame_with_new_stack_frame
//@attr #[verifier::rlimit(80)]
//@attr #[verifier::spinoff_prover]
//@nloops 2
//@spec
    requires
        module_context.ready(), function_context.can_call(*callee_function_type, params@, prog_metadata),
        args_size(*callee_function_type, params@, params@.len() as int, prog_metadata) <= u64::MAX,
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + function_context.tail_code(*callee_function_type, params@, prog_metadata, module_context),
//@loop 0 before
    let ghost ft = *callee_function_type;
    let ghost args = params@;
    let ghost pre = wasm_instrs@;
//@loop 0
    invariant
        ft == *callee_function_type, args == params@,
        function_context.can_call(ft, args, prog_metadata),
        args_size(ft, args, args.len() as int, prog_metadata) <= u64::MAX,
        param_types@ == ft.params(),
        temp_stack_ptr_offset == args_size(ft, args, param_index as int, prog_metadata),
        copied(ft, args, param_var_stack_ptr_offsets@, param_index as int, prog_metadata),
        wasm_instrs@ =~= pre + function_context.copies_code(ft, args, param_index as int, prog_metadata),
//@loop 0 start
    let ghost mid = wasm_instrs@;
    let ghost omap = param_var_stack_ptr_offsets@;
    assert(copied(ft, args, omap, param_index as int, prog_metadata));
    proof {
        lemma_args_size(ft, args, param_index as int + 1, args.len() as int, prog_metadata);
        assert(function_context.can_pass(ft, args[param_index as int], param_index as int, prog_metadata));
    }
//@loop 0 end
    proof {
        assert(wasm_instrs@ =~= mid + function_context.copy_code(ft, args, param_index as int, prog_metadata));
        lemma_copied(ft, args, omap, param_var_stack_ptr_offsets@, param_index as int, prog_metadata);
    }
//@loop 1 before
    let ghost pre2 = wasm_instrs@;
//@loop 1
    invariant
        ft == *callee_function_type, args == params@,
        module_context.ready(),
        function_context.can_call(ft, args, prog_metadata),
        param_types@ == ft.params(),
        copied(ft, args, param_var_stack_ptr_offsets@, args.len() as int, prog_metadata),
        wasm_instrs@ =~= pre2 + function_context.moves_code(ft, args, param_index as int, prog_metadata, module_context),
//@loop 1 start
    let ghost mid = wasm_instrs@;
    proof {
        assert(function_context.can_pass(ft, args[param_index as int], param_index as int, prog_metadata));
        if args[param_index as int] is Var { assert(passed(args, args[param_index as int]->Var_0, args.len() as int)); }
    }
//@loop 1 end
    proof { assert(wasm_instrs@ =~= mid + function_context.move_code(ft, args, param_index as int, prog_metadata, module_context)); }
//@end
