// integer promotions and usual arithmetic conversions
impl IrType {
    /// C's integer promotions (and an array's conversion to a pointer)
    pub open spec fn promoted(&self) -> IrType {
        match *self {
            IrType::I8 | IrType::U8 | IrType::I16 | IrType::U16 => IrType::I32,
            IrType::ArrayOf(t, _) => IrType::PointerTo(t),
            _ => *self,
        }
    }
}
/// C's usual arithmetic conversions of two promoted types
pub open spec fn usual(a: IrType, b: IrType) -> IrType {
    if a is F64 || b is F64 { IrType::F64 } else if a is F32 || b is F32 { IrType::F32 }
    // same signedness: the wider; otherwise the unsigned type unless the signed one represents all its values
    else if a.signed() == b.signed() { if a.bits() >= b.bits() { a } else { b } }
    else if a.signed() { if a.bits() > b.bits() { a } else { b } }
    else { if b.bits() > a.bits() { b } else { a } }
}
/// the common type of the pair; pairs that are not arithmetic are only promoted
pub open spec fn common(a: IrType, b: IrType) -> (IrType, IrType) {
    let (p, q) = (a.promoted(), b.promoted());
    if p.arithmetic() && q.arithmetic() { (usual(p, q), usual(p, q)) } else { (p, q) }
}
/// the same for either operand order
pub proof fn lemma_common_symmetric(a: IrType, b: IrType)
    ensures common(a, b).0 == common(b, a).1, common(a, b).1 == common(b, a).0,
{}
/// the operand is converted to the type: by steps that are C's conversion of its values, none when it has the type already
pub open spec fn converted(steps: Seq<Instruction>, src: Src, res: Src, t: IrType, o: &ProgramMetadata, p: &ProgramMetadata) -> bool {
    &&& src.typed(o)
    &&& converts(steps, src, src.ty(o), res, t, p.var_types@)
    &&& (src.ty(o) == t ==> steps.len() == 0)
    &&& (src.ty(o).integral() && t.arithmetic() ==> c_conversion(steps, src.ty(o), t, p.var_types@))
}
pub open spec fn keeps(a: Map<VarId, IrType>, b: Map<VarId, IrType>) -> bool { forall|v: VarId| #[trigger] a.contains_key(v) ==> b.contains_key(v) && b[v] == a[v] }
pub proof fn lemma_converts_keeps(s: Seq<Instruction>, src: Src, st: IrType, res: Src, rt: IrType, a: Map<VarId, IrType>, b: Map<VarId, IrType>)
    requires converts(s, src, st, res, rt, a), keeps(a, b),
    ensures converts(s, src, st, res, rt, b), s.len() > 0 ==> res is Var && a.contains_key(res->Var_0) && a[res->Var_0] == rt,
        forall|v: int| #[trigger] value_after(s, v, a) == value_after(s, v, b),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = step_dest(s[0]);
        lemma_converts_keeps(s.drop_first(), Src::Var(d), a[d], res, rt, a, b);
        assert forall|v: int| #[trigger] value_after(s, v, a) == value_after(s, v, b) by {
            assert(a.contains_key(d));
            assert(value_after(s, v, a) == value_after(s.drop_first(), step_value(a[d], v), a));
            assert(value_after(s, v, b) == value_after(s.drop_first(), step_value(b[d], v), b));
        }
    }
}
pub proof fn lemma_later(s: Seq<Instruction>, src: Src, res: Src, t: IrType, o: &ProgramMetadata, m: &ProgramMetadata, p: &ProgramMetadata)
    requires converted(s, src, res, t, o, m), keeps(m.var_types@, p.var_types@),
    ensures converted(s, src, res, t, o, p),
{
    lemma_converts_keeps(s, src, src.ty(o), res, t, m.var_types@, p.var_types@);
    if src.ty(o).integral() && t.arithmetic() {
        assert forall|v: int| represents(src.ty(o), v) implies #[trigger] value_after(s, v, p.var_types@) == step_value(t, v) by { assert(value_after(s, v, m.var_types@) == step_value(t, v)); }
    }
}
/// the type of a converted operand is the type it was converted to
pub proof fn lemma_result_type(s: Seq<Instruction>, src: Src, res: Src, t: IrType, o: &ProgramMetadata, p: &ProgramMetadata)
    requires converted(s, src, res, t, o, p), keeps(o.var_types@, p.var_types@), o.function_types == p.function_types,
    ensures res.typed(p), res.ty(p) == t, s.len() == 0 ==> res == src && src.ty(o) == t,
{
    lemma_converts_keeps(s, src, src.ty(o), res, t, p.var_types@, p.var_types@);
}
/// one more step at the end
pub proof fn lemma_push_step(s: Seq<Instruction>, i: Instruction, src: Src, st: IrType, mid: Src, mt: IrType, rt: IrType, types: Map<VarId, IrType>)
    requires
        converts(s, src, st, mid, mt, types), step_parts(i) is Some, step_src(i) == mid, types.contains_key(step_dest(i)), types[step_dest(i)] == rt, step_from(i, mt), step_to(i, rt),
    ensures
        converts(s.push(i), src, st, Src::Var(step_dest(i)), rt, types),
        forall|v: int| #[trigger] value_after(s.push(i), v, types) == step_value(rt, value_after(s, v, types)),
    decreases s.len(),
{
    reveal_with_fuel(converts, 2);
    reveal_with_fuel(value_after, 2);
    let t = s.push(i);
    if s.len() == 0 {
        assert(t.drop_first().len() == 0);
    } else {
        let d = step_dest(s[0]);
        assert(t.drop_first() =~= s.drop_first().push(i));
        assert(t[0] == s[0]);
        lemma_push_step(s.drop_first(), i, Src::Var(d), types[d], mid, mt, rt, types);
        assert forall|v: int| #[trigger] value_after(t, v, types) == step_value(rt, value_after(s, v, types)) by {
            assert(value_after(t, v, types) == value_after(t.drop_first(), step_value(types[d], v), types));
        }
    }
}
/// a promoted operand, converted by one more step to the common type
pub proof fn lemma_widened(s: Seq<Instruction>, t: Seq<Instruction>, i: Instruction, src: Src, mid: Src, rt: IrType, o: &ProgramMetadata, m: &ProgramMetadata, p: &ProgramMetadata)
    requires
        t == s.push(i),
        converted(s, src, mid, src.ty(o).promoted(), o, m), keeps(o.var_types@, m.var_types@), keeps(m.var_types@, p.var_types@),
        step_parts(i) is Some, step_src(i) == mid, p.var_types@.contains_key(step_dest(i)), p.var_types@[step_dest(i)] == rt,
        src.ty(o).promoted().arithmetic(), rt.arithmetic(), src.ty(o).promoted() != rt, src.ty(o) != rt,
        step_from(i, src.ty(o).promoted()), step_to(i, rt),
    ensures converted(t, src, Src::Var(step_dest(i)), rt, o, p),
{
    let (st, pt) = (src.ty(o), src.ty(o).promoted());
    lemma_converts_keeps(s, src, st, mid, pt, m.var_types@, p.var_types@);
    lemma_push_step(s, i, src, st, mid, pt, rt, p.var_types@);
    if st.integral() {
        assert forall|v: int| represents(st, v) implies #[trigger] value_after(t, v, p.var_types@) == step_value(rt, v) by {
            assert(value_after(s, v, m.var_types@) == step_value(pt, v));
            lemma_wrap(pt, v);
            assert(represents(pt, v));
        }
    }
}
/// no step of one writes what a step of the other writes
pub open spec fn apart(a: Seq<Instruction>, b: Seq<Instruction>) -> bool {
    forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] step_dest(a[i]) != #[trigger] step_dest(b[j])
}
/// both operands are converted to the common type, neither's steps disturbing the other's
pub open spec fn binary_converted(a: Seq<Instruction>, b: Seq<Instruction>, left: Src, right: Src, lr: Src, rr: Src, o: &ProgramMetadata, p: &ProgramMetadata) -> bool {
    let c = common(left.ty(o), right.ty(o));
    &&& converted(a, left, lr, c.0, o, p)
    &&& converted(b, right, rr, c.1, o, p)
    &&& writes_in(a, o.var_id_generator.count(), p.var_id_generator.count())
    &&& writes_in(b, o.var_id_generator.count(), p.var_id_generator.count())
    &&& apart(a, b)
}
pub proof fn lemma_new_keeps(a: &Program, b: &Program)
    requires only_new_vars(a, b),
    ensures keeps(b.program_metadata.var_types@, a.program_metadata.var_types@), a.program_metadata.function_types == b.program_metadata.function_types,
        a.program_metadata.vars_handed_out(), a.program_metadata.var_id_generator.count() >= b.program_metadata.var_id_generator.count(),
{}
pub proof fn lemma_added(a: &Program, b: &Program, v: VarId)
    requires b.program_metadata.vars_handed_out(), v.idx() == b.program_metadata.var_id_generator.count(), a.program_metadata.var_id_generator.count() == v.idx() + 1,
        a.program_metadata.var_types@ == b.program_metadata.var_types@.insert(v, a.program_metadata.var_types@[v]),
        *a == (Program { program_metadata: a.program_metadata, ..*b }), a.program_metadata.same_but_vars(&b.program_metadata),
    ensures only_new_vars(a, b),
{
}
/// typed operands have the same type later
pub proof fn lemma_from(s: Seq<Instruction>, src: Src, res: Src, t: IrType, o: &ProgramMetadata, m: &ProgramMetadata, p: &ProgramMetadata)
    requires converted(s, src, res, t, m, p), keeps(o.var_types@, m.var_types@), o.function_types == m.function_types, src.typed(o),
    ensures converted(s, src, res, t, o, p), src.ty(o) == src.ty(m),
{}
pub proof fn lemma_no_shared(a: Seq<Instruction>, b: Seq<Instruction>, x: nat, y: nat, z: nat)
    requires writes_in(a, x, y), writes_in(b, y, z), x <= y <= z,
    ensures writes_in(a, x, z), writes_in(b, x, z), apart(a, b), apart(b, a),
{}
pub proof fn lemma_no_shared_push(a: Seq<Instruction>, b: Seq<Instruction>, i: Instruction, x: nat, z: nat)
    requires writes_in(a, x, z), writes_in(b, x, z), step_dest(i).idx() == z, x <= z,
        apart(a, b),
    ensures writes_in(a, x, z + 1), writes_in(b.push(i), x, z + 1), apart(a, b.push(i)), apart(b.push(i), a),
{}
/// the left operand's steps, then the right operand's
pub open spec fn binary_converted_together(s: Seq<Instruction>, left: Src, right: Src, lr: Src, rr: Src, o: &ProgramMetadata, p: &ProgramMetadata) -> bool {
    exists|a: Seq<Instruction>, b: Seq<Instruction>| s == a + b && #[trigger] binary_converted(a, b, left, right, lr, rr, o, p)
}
//@fn src/middle_end/ir_types.rs IrType::is_arithmetic_type
//@ret r
//@spec
    ensures r == self.arithmetic(),
//@end
//@fn src/middle_end/ir_types.rs IrType::unary_convert
//@ret r
//@spec
    ensures r == self.promoted(),
//@end
//@fn src/middle_end/type_conversions.rs unary_convert
//@ret r
//@spec
    requires old(prog).program_metadata.spare(3), old(prog).program_metadata.vars_handed_out(),
    ensures
        r is Ok ==> only_new_vars(final(prog), old(prog)), used_ids(final(prog), old(prog), 3),
        r matches Ok(x) ==> converted(x.0@, src, x.1, src.ty(&old(prog).program_metadata).promoted(), &old(prog).program_metadata, &final(prog).program_metadata)
            && writes_in(x.0@, old(prog).program_metadata.var_id_generator.count(), final(prog).program_metadata.var_id_generator.count()),
//@end
//@fn src/middle_end/type_conversions.rs binary_convert_separately
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::rlimit(60)]
//@ret r
//@spec
    requires old(prog).program_metadata.spare(8), old(prog).program_metadata.vars_handed_out(), right.typed(&old(prog).program_metadata),
    ensures
        r is Ok ==> only_new_vars(final(prog), old(prog)), used_ids(final(prog), old(prog), 7),
        r matches Ok(x) ==> binary_converted(x.0@, x.1@, left, right, x.2, x.3, &old(prog).program_metadata, &final(prog).program_metadata),
//@start
    hide(converted);
    hide(c_conversion);
    hide(only_new_vars);
    hide(writes_in);
    hide(apart);
    hide(keeps);
    let ghost (o0, m0, l0, r0) = (*prog, prog.program_metadata, left, right);
//@after left_instrs.append(&mut left_unary_convert_instrs)
    let ghost (p1, m1) = (*prog, prog.program_metadata);
    proof { lemma_new_keeps(&p1, &o0); }
//@after right_instrs.append(&mut right_unary_convert_instrs)
    let ghost (p2, m2, la, ra, ul, ur) = (*prog, prog.program_metadata, left_instrs@, right_instrs@, unary_left, unary_right);
    proof {
        assert(only_new_vars(&p1, &o0));
        assert(only_new_vars(&p2, &p1));
        lemma_new_vars(&p2, &p1, &o0);
        lemma_new_keeps(&p1, &o0); lemma_new_keeps(&p2, &p1); lemma_new_keeps(&p2, &o0);
        lemma_later(la, l0, ul, l0.ty(&m0).promoted(), &m0, &m1, &m2);
        lemma_from(ra, r0, ur, r0.ty(&m1).promoted(), &m0, &m1, &m2);
        lemma_result_type(la, l0, ul, l0.ty(&m0).promoted(), &m0, &m2);
        lemma_result_type(ra, r0, ur, r0.ty(&m0).promoted(), &m0, &m2);
        lemma_no_shared(la, ra, m0.var_id_generator.count(), m1.var_id_generator.count(), m2.var_id_generator.count());
    }
//@after let right_type
    proof {
        assert(left_type == l0.ty(&m0).promoted());
        assert(right_type == r0.ty(&m0).promoted());
    }
//@before return Ok((left_instrs, right_instrs, unary_left, Src::Var(right_dest)))##0
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = right_instrs@.last();
        assert(right_instrs@ == ra.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == right_dest);
        lemma_widened(ra, right_instrs@, i, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_later(la, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(la, ra, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, Src::Var(left_dest), unary_right))##0
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = left_instrs@.last();
        assert(left_instrs@ == la.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == left_dest);
        lemma_widened(la, left_instrs@, i, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_later(ra, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(ra, la, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, unary_left, Src::Var(right_dest)))##1
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = right_instrs@.last();
        assert(right_instrs@ == ra.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == right_dest);
        lemma_widened(ra, right_instrs@, i, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_later(la, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(la, ra, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, Src::Var(left_dest), unary_right))##1
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = left_instrs@.last();
        assert(left_instrs@ == la.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == left_dest);
        lemma_widened(la, left_instrs@, i, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_later(ra, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(ra, la, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, unary_left, Src::Var(right_dest)))##2
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = right_instrs@.last();
        assert(right_instrs@ == ra.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == right_dest);
        lemma_widened(ra, right_instrs@, i, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_later(la, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(la, ra, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, Src::Var(left_dest), unary_right))##2
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = left_instrs@.last();
        assert(left_instrs@ == la.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == left_dest);
        lemma_widened(la, left_instrs@, i, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_later(ra, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(ra, la, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, unary_left, Src::Var(right_dest)))##3
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = right_instrs@.last();
        assert(right_instrs@ == ra.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == right_dest);
        lemma_widened(ra, right_instrs@, i, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_later(la, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(la, ra, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, Src::Var(left_dest), unary_right))##3
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = left_instrs@.last();
        assert(left_instrs@ == la.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == left_dest);
        lemma_widened(la, left_instrs@, i, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_later(ra, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(ra, la, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, unary_left, Src::Var(right_dest)))##4
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = right_instrs@.last();
        assert(right_instrs@ == ra.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == right_dest);
        lemma_widened(ra, right_instrs@, i, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_later(la, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(la, ra, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@before return Ok((left_instrs, right_instrs, Src::Var(left_dest), unary_right))##4
    proof {
        let c = common(l0.ty(&m0), r0.ty(&m0)).0;
        let ghost i = left_instrs@.last();
        assert(left_instrs@ == la.push(i));
        lemma_added(prog, &p2, step_dest(i));
        lemma_new_keeps(prog, &p2);
        lemma_new_vars(prog, &p2, &o0);
        assert(step_dest(i) == left_dest);
        lemma_widened(la, left_instrs@, i, l0, ul, c, &m0, &m2, &prog.program_metadata);
        lemma_later(ra, r0, ur, c, &m0, &m2, &prog.program_metadata);
        lemma_no_shared_push(ra, la, i, m0.var_id_generator.count(), m2.var_id_generator.count());
    }
//@end
//@fn src/middle_end/type_conversions.rs binary_convert
//@ret r
//@spec
    requires old(prog).program_metadata.spare(8), old(prog).program_metadata.vars_handed_out(), right.typed(&old(prog).program_metadata),
    ensures
        r is Ok ==> only_new_vars(final(prog), old(prog)), used_ids(final(prog), old(prog), 7),
        r matches Ok(x) ==> binary_converted_together(x.0@, left, right, x.1, x.2, &old(prog).program_metadata, &final(prog).program_metadata),
//@start
    let ghost (m0, l0, r0) = (prog.program_metadata, left, right);
//@after let (mut left_convert_instrs
    let ghost (a, b) = (left_convert_instrs@, right_convert_instrs@);
//@end_
    proof {
        assert(left_convert_instrs@ == a + b);
        assert(binary_converted(a, b, l0, r0, left_result, right_result, &m0, &prog.program_metadata));
    }
//@end
