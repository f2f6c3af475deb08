//@include lib_represents.inc
//@include lib_steps.inc
pub open spec fn step_dest(i: Instruction) -> VarId { (step_parts(i)->Some_0).0 }
pub open spec fn step_src(i: Instruction) -> Src { (step_parts(i)->Some_0).1 }
/// 2^bits
pub open spec fn modulus(t: IrType) -> int {
    match t { IrType::I8 | IrType::U8 => 0x100, IrType::I16 | IrType::U16 => 0x1_0000, IrType::I64 | IrType::U64 => 0x1_0000_0000_0000_0000, _ => 0x1_0000_0000 }
}
/// the value C's conversion to an integer type gives: congruent modulo 2^bits, and representable
pub open spec fn wrap(t: IrType, v: int) -> int {
    let u = v % modulus(t);
    if t.signed() && u >= modulus(t) / 2 { u - modulus(t) } else { u }
}
pub proof fn lemma_wrap(t: IrType, v: int)
    requires t.integral(),
    ensures represents(t, wrap(t, v)), represents(t, v) ==> wrap(t, v) == v, wrap(t, v) % modulus(t) == v % modulus(t),
{
    lemma_wrap_mod(t, v);
}
pub proof fn lemma_wrap_mod(t: IrType, v: int)
    requires t.integral(),
    ensures wrap(t, v) % modulus(t) == v % modulus(t),
{
    let m = modulus(t);
    assert(forall|u: int| 0 <= u < m ==> #[trigger] ((u - m) % m) == u) by {
        assert forall|u: int| 0 <= u < m implies #[trigger] ((u - m) % m) == u by { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(u - m, m); vstd::arithmetic::div_mod::lemma_small_mod(u as nat, m as nat); }
    }
    vstd::arithmetic::div_mod::lemma_mod_bound(v, m);
    vstd::arithmetic::div_mod::lemma_small_mod((v % m) as nat, m as nat);
}
/// the value after a step that converts to the type (a conversion to floating point is of the exact value)
pub open spec fn step_value(t: IrType, v: int) -> int { if t.integral() { wrap(t, v) } else { v } }
/// the steps lead from the source at its type to the result at its type, through new variables declared with the types of the steps
pub open spec fn converts(steps: Seq<Instruction>, src: Src, st: IrType, res: Src, rt: IrType, types: Map<VarId, IrType>) -> bool
    decreases steps.len(),
{
    if steps.len() == 0 { src == res && st == rt } else {
        &&& step_parts(steps[0]) is Some
        &&& step_src(steps[0]) == src
        &&& types.contains_key(step_dest(steps[0]))
        &&& step_from(steps[0], st)
        &&& step_to(steps[0], types[step_dest(steps[0])])
        &&& converts(steps.drop_first(), Src::Var(step_dest(steps[0])), types[step_dest(steps[0])], res, rt, types)
    }
}
/// the steps write variables numbered from first up to last only
pub open spec fn writes_in(steps: Seq<Instruction>, first: nat, last: nat) -> bool {
    forall|k: int| 0 <= k < steps.len() ==> first <= (#[trigger] step_dest(steps[k])).idx() < last
}
/// the integer value that the steps turn a source value into
pub open spec fn value_after(steps: Seq<Instruction>, v: int, types: Map<VarId, IrType>) -> int
    decreases steps.len(),
{
    if steps.len() == 0 { v } else { value_after(steps.drop_first(), step_value(types[step_dest(steps[0])], v), types) }
}
/// every value of the source type becomes C's converted value
pub open spec fn c_conversion(steps: Seq<Instruction>, st: IrType, rt: IrType, types: Map<VarId, IrType>) -> bool {
    forall|v: int| represents(st, v) ==> #[trigger] value_after(steps, v, types) == step_value(rt, v)
}
pub open spec fn rank(t: IrType) -> nat { match t { IrType::I8 | IrType::U8 => 2, IrType::I16 | IrType::U16 => 1, _ => 0 } }
/// what conversion does to the program: new variables only
pub open spec fn only_new_vars(p: &Program, o: &Program) -> bool {
    &&& *p == (Program { program_metadata: p.program_metadata, ..*o })
    &&& p.program_metadata.same_but_vars(&o.program_metadata)
    &&& p.program_metadata.vars_handed_out()
    &&& p.program_metadata.var_id_generator.count() >= o.program_metadata.var_id_generator.count()
    &&& forall|v: VarId| #[trigger] o.program_metadata.var_types@.contains_key(v) ==> p.program_metadata.var_types@.contains_key(v) && p.program_metadata.var_types@[v] == o.program_metadata.var_types@[v]
}
pub open spec fn used_ids(p: &Program, o: &Program, n: int) -> bool {
    p.program_metadata.var_id_generator.count() <= o.program_metadata.var_id_generator.count() + n && p.program_metadata.instr_id_generator.count() <= o.program_metadata.instr_id_generator.count() + n
}
pub broadcast proof fn lemma_new_vars(a: &Program, b: &Program, c: &Program)
    requires #[trigger] only_new_vars(a, b), #[trigger] only_new_vars(b, c),
    ensures only_new_vars(a, c),
{
    assert forall|v: VarId| #[trigger] c.program_metadata.var_types@.contains_key(v) implies a.program_metadata.var_types@.contains_key(v) && a.program_metadata.var_types@[v] == c.program_metadata.var_types@[v] by {
        assert(b.program_metadata.var_types@.contains_key(v));
    }
}
/// a step in front
pub proof fn lemma_step_first(steps: Seq<Instruction>, rest: Seq<Instruction>, st: IrType, rt: IrType, types: Map<VarId, IrType>)
    requires
        steps.len() > 0, rest == steps.drop_first(), st.integral(), rt.arithmetic(), step_parts(steps[0]) is Some, types[step_dest(steps[0])].integral(),
        c_conversion(rest, types[step_dest(steps[0])], rt, types),
        forall|v: int| represents(st, v) ==> #[trigger] represents(types[step_dest(steps[0])], v) || types[step_dest(steps[0])] == rt,
    ensures c_conversion(steps, st, rt, types),
{
    let mt = types[step_dest(steps[0])];
    assert forall|v: int| represents(st, v) implies #[trigger] value_after(steps, v, types) == step_value(rt, v) by {
        lemma_wrap(mt, v);
        lemma_wrap(mt, wrap(mt, v));
        assert(represents(mt, v) || mt == rt);
        assert(value_after(steps, v, types) == value_after(rest, wrap(mt, v), types));
    }
}
pub proof fn lemma_one_step(steps: Seq<Instruction>, rt: IrType, types: Map<VarId, IrType>)
    requires steps.len() == 1, step_parts(steps[0]) is Some, types[step_dest(steps[0])] == rt,
    ensures forall|st: IrType| #[trigger] c_conversion(steps, st, rt, types),
{
    reveal_with_fuel(value_after, 2);
}
//@fn src/middle_end/ir_types.rs IrType::is_signed_integral
//@ret r
//@spec
    ensures r == self.signed(),
//@end
//@fn src/middle_end/type_conversions.rs get_type_conversion_instrs
//@split 8
//@attr #[verifier::spinoff_prover]
//@ret r
//@spec
    requires old(prog).program_metadata.spare(1 + rank(src_type) as int), old(prog).program_metadata.vars_handed_out(),
    ensures
        only_new_vars(final(prog), old(prog)), used_ids(final(prog), old(prog), 1 + rank(src_type) as int),
        r matches Ok(x) ==> converts(x.0@, src, src_type, x.1, dest_type, final(prog).program_metadata.var_types@)
            && writes_in(x.0@, old(prog).program_metadata.var_id_generator.count(), final(prog).program_metadata.var_id_generator.count())
            && (src_type == dest_type ==> x.0@.len() == 0),
        r matches Ok(x) ==> src_type.integral() && dest_type.arithmetic() ==> c_conversion(x.0@, src_type, dest_type, final(prog).program_metadata.var_types@),
    decreases rank(src_type),
//@start
    broadcast use lemma_new_vars;
    let ghost (src_type_, dest_type_) = (src_type, dest_type);
    let ghost first = prog.program_metadata.var_id_generator.count();
    proof { reveal_with_fuel(converts, 2); reveal_with_fuel(value_after, 2); }
//@after prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?##0
    assert(only_new_vars(prog, old(prog)));
    let ghost mid_type = intermediate_type;
    let ghost mid_var = intermediate_var;
    assert(prog.program_metadata.var_types@.contains_key(mid_var));
    assert(prog.program_metadata.var_types@[mid_var] == mid_type);
    let ghost mid_prog = *prog;
//@before instrs.append(&mut convert_instrs)##0
    let ghost rest = convert_instrs@;
//@after instrs.append(&mut convert_instrs)##0
    proof {
        assert(instrs@.drop_first() =~= rest);
        assert(only_new_vars(prog, old(prog)));
        assert(step_dest(instrs@[0]) == mid_var);
        assert(prog.program_metadata.var_types@[mid_var] == mid_type);
        assert(writes_in(instrs@, first, prog.program_metadata.var_id_generator.count())) by { assert forall|k: int| 0 <= k < instrs@.len() implies first <= (#[trigger] step_dest(instrs@[k])).idx() < prog.program_metadata.var_id_generator.count() by { if k > 0 { assert(instrs@[k] == rest[k - 1]); } } }
        if dest_type_.arithmetic() { lemma_step_first(instrs@, rest, src_type_, dest_type_, prog.program_metadata.var_types@); }
    }
//@after prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?##1
    assert(only_new_vars(prog, old(prog)));
    let ghost mid_type = intermediate_type;
    let ghost mid_var = intermediate_var;
    assert(prog.program_metadata.var_types@.contains_key(mid_var));
    assert(prog.program_metadata.var_types@[mid_var] == mid_type);
    let ghost mid_prog = *prog;
//@before instrs.append(&mut convert_instrs)##1
    let ghost rest = convert_instrs@;
//@after instrs.append(&mut convert_instrs)##1
    proof {
        assert(instrs@.drop_first() =~= rest);
        assert(only_new_vars(prog, old(prog)));
        assert(step_dest(instrs@[0]) == mid_var);
        assert(prog.program_metadata.var_types@[mid_var] == mid_type);
        assert(writes_in(instrs@, first, prog.program_metadata.var_id_generator.count())) by { assert forall|k: int| 0 <= k < instrs@.len() implies first <= (#[trigger] step_dest(instrs@[k])).idx() < prog.program_metadata.var_id_generator.count() by { if k > 0 { assert(instrs@[k] == rest[k - 1]); } } }
        if dest_type_.arithmetic() { lemma_step_first(instrs@, rest, src_type_, dest_type_, prog.program_metadata.var_types@); }
    }
//@after prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?##2
    assert(only_new_vars(prog, old(prog)));
    let ghost mid_type = intermediate_type;
    let ghost mid_var = intermediate_var;
    assert(prog.program_metadata.var_types@.contains_key(mid_var));
    assert(prog.program_metadata.var_types@[mid_var] == mid_type);
    let ghost mid_prog = *prog;
//@before instrs.append(&mut convert_instrs)##2
    let ghost rest = convert_instrs@;
//@after instrs.append(&mut convert_instrs)##2
    proof {
        assert(instrs@.drop_first() =~= rest);
        assert(only_new_vars(prog, old(prog)));
        assert(step_dest(instrs@[0]) == mid_var);
        assert(prog.program_metadata.var_types@[mid_var] == mid_type);
        assert(writes_in(instrs@, first, prog.program_metadata.var_id_generator.count())) by { assert forall|k: int| 0 <= k < instrs@.len() implies first <= (#[trigger] step_dest(instrs@[k])).idx() < prog.program_metadata.var_id_generator.count() by { if k > 0 { assert(instrs@[k] == rest[k - 1]); } } }
        if dest_type_.arithmetic() { lemma_step_first(instrs@, rest, src_type_, dest_type_, prog.program_metadata.var_types@); }
    }
//@after prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?##3
    assert(only_new_vars(prog, old(prog)));
    let ghost mid_type = intermediate_type;
    let ghost mid_var = intermediate_var;
    assert(prog.program_metadata.var_types@.contains_key(mid_var));
    assert(prog.program_metadata.var_types@[mid_var] == mid_type);
    let ghost mid_prog = *prog;
//@before instrs.append(&mut convert_instrs)##3
    let ghost rest = convert_instrs@;
//@after instrs.append(&mut convert_instrs)##3
    proof {
        assert(instrs@.drop_first() =~= rest);
        assert(only_new_vars(prog, old(prog)));
        assert(step_dest(instrs@[0]) == mid_var);
        assert(prog.program_metadata.var_types@[mid_var] == mid_type);
        assert(writes_in(instrs@, first, prog.program_metadata.var_id_generator.count())) by { assert forall|k: int| 0 <= k < instrs@.len() implies first <= (#[trigger] step_dest(instrs@[k])).idx() < prog.program_metadata.var_id_generator.count() by { if k > 0 { assert(instrs@[k] == rest[k - 1]); } } }
        if dest_type_.arithmetic() { lemma_step_first(instrs@, rest, src_type_, dest_type_, prog.program_metadata.var_types@); }
    }
//@end
