// calls
impl IrType {
    pub open spec fn ret(&self) -> IrType { match *self { IrType::Function(r, _, _) => *r, _ => IrType::Void } }
    pub open spec fn params(&self) -> Seq<IrType> { match *self { IrType::Function(_, p, _) => p@, _ => seq![] } }
}
/// the type with which argument k is passed
pub open spec fn arg_type(f: IrType, s: Src, k: int, p: &ProgramMetadata) -> IrType {
    match s {
        Src::Constant(c) => if k >= f.params().len() { const_type_32(c) } else { f.params()[k] },
        _ => s.ty(p),
    }
}
impl FunctionContext {
    /// argument k can be passed
    pub open spec fn can_pass(&self, f: IrType, s: Src, k: int, p: &ProgramMetadata) -> bool {
        &&& s is Var || s is Constant
        &&& s is Var ==> !p.is_null(s->Var_0)
        &&& self.can_load(s, arg_type(f, s, k, p), p)
        &&& arg_type(f, s, k, p).single()
    }
    pub open spec fn can_call(&self, f: IrType, args: Seq<Src>, p: &ProgramMetadata) -> bool {
        &&& f is Function && f.ret().defined(p) && f.ret().size(p) <= u32::MAX
        &&& forall|k: int| 0 <= k < args.len() ==> #[trigger] self.can_pass(f, args[k], k, p)
    }
    /// write argument k at the stack pointer and move the stack pointer past it
    pub open spec fn arg_code(&self, f: IrType, s: Src, k: int, p: &ProgramMetadata, mc: &ModuleContext) -> Seq<WasmInstruction> {
        stack_ptr_code() + self.load_src_code(s, arg_type(f, s, k, p), p) + seq![store_op(arg_type(f, s, k, p))] + mc.bump(arg_type(f, s, k, p).size(p) as int)
    }
    pub open spec fn args_code(&self, f: IrType, args: Seq<Src>, p: &ProgramMetadata, mc: &ModuleContext) -> Seq<WasmInstruction>
        decreases args.len(),
    {
        if args.len() == 0 { seq![] } else { self.args_code(f, args.drop_last(), p, mc) + self.arg_code(f, args.last(), args.len() - 1, p, mc) }
    }
    /// a new frame: the caller's frame pointer, space for the result, the arguments
    pub open spec fn frame_code(&self, f: IrType, args: Seq<Src>, p: &ProgramMetadata, mc: &ModuleContext) -> Seq<WasmInstruction> {
        stack_ptr_code() + frame_ptr_code() + seq![WasmInstruction::I32Store { mem_arg: at0() }]
            + set_code(4, stack_ptr_code())
            + mc.bump(4) + mc.bump(f.ret().size(p) as u32 as i32 as int)
            + self.args_code(f, args, p, mc)
            + set_code(0, temp_ptr_code())
    }
    /// remove the callee's frame and fetch its result
    pub open spec fn pop_code(&self, dest: VarId, f: IrType, p: &ProgramMetadata, mc: &ModuleContext) -> Seq<WasmInstruction> {
        mc.to_frame_code()
            + set_code(0, frame_ptr_code() + seq![WasmInstruction::I32Load { mem_arg: at0() }])
            + if f.ret() is Void { seq![] } else {
                self.store_var_code(dest, stack_ptr_code() + seq![c32(4), WasmInstruction::I32Add] + seq![load_op(f.ret())], p)
            }
    }
}
pub proof fn lemma_args_step(fc: &FunctionContext, f: IrType, args: Seq<Src>, k: int, p: &ProgramMetadata, mc: &ModuleContext)
    requires 0 <= k < args.len(),
    ensures fc.args_code(f, args.subrange(0, k + 1), p, mc) == fc.args_code(f, args.subrange(0, k), p, mc) + fc.arg_code(f, args[k], k, p, mc),
{
    let t = args.subrange(0, k + 1);
    assert(t.drop_last() =~= args.subrange(0, k));
    assert(t.last() == args[k]);
}
//@fn src/back_end/stack_frame_operations.rs set_up_new_stack_frame
//@nloops 1
//@spec
    requires module_context.ready(), function_context.can_call(*callee_function_type, params@, prog_metadata),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + function_context.frame_code(*callee_function_type, params@, prog_metadata, module_context),
//@iter 0 it
//@loop 0 before
    let ghost args = params@;
    let ghost pre = wasm_instrs@;
    proof { assert(params.len() <= usize::MAX); }
//@loop 0
    invariant
        module_context.ready(),
        function_context.can_call(*callee_function_type, args, prog_metadata),
        param_types@ == callee_function_type.params(),
        it.seq() == args, args.len() <= usize::MAX, __en0 == it.index@,
        wasm_instrs@ == pre + function_context.args_code(*callee_function_type, args.subrange(0, it.index@ as int), prog_metadata, module_context),
//@loop 0 start
    let ghost k = it.index@ as int;
    let ghost mid = wasm_instrs@;
    proof { lemma_args_step(function_context, *callee_function_type, args, k, prog_metadata, module_context); assert(function_context.can_pass(*callee_function_type, args[k], k, prog_metadata)); }
//@loop 0 end
    proof { assert(wasm_instrs@ =~= mid + function_context.arg_code(*callee_function_type, args[k], k, prog_metadata, module_context)); }
//@loop 0 after
    proof { assert(args.subrange(0, args.len() as int) =~= args); }
//@end
//@fn src/back_end/stack_frame_operations.rs pop_stack_frame
//@spec
    requires
        module_context.ready(), callee_function_type is Function,
        !(callee_function_type.ret() is Void) ==> callee_function_type.ret().single() && function_context.has(result_dest, prog_metadata),
    ensures final(wasm_instrs)@ =~= old(wasm_instrs)@ + function_context.pop_code(result_dest, *callee_function_type, prog_metadata, module_context),
//@end
