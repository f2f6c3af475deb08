//verus-args: --rlimit 60
//@include fn_context.inc
//@type src/front_end/ast.rs Identifier clone
#[verifier::external_body] pub struct SpecifierQualifier {}
#[verifier::external_body] pub struct DeclaratorInitialiser {}
#[verifier::external_body] pub struct Declarator {}
impl Clone for SpecifierQualifier { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for DeclaratorInitialiser { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Declarator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@type src/front_end/ast.rs ExpressionOrDeclaration clone
//@type src/front_end/ast.rs LabelledStatement clone
//@type src/front_end/ast.rs Statement clone

// ---- what control statements mean in terms of labels and jumps --------------------------------
/// an instruction without its id
pub enum P { Label(LabelId), Br(LabelId), BrIfEq(Src, Src, LabelId), BrIfNotEq(Src, Src, LabelId), Ret(Option<Src>), Set(VarId, Src), Other(Instruction) }
pub open spec fn p(i: Instruction) -> P {
    match i {
        Instruction::Label(_, l) => P::Label(l), Instruction::Br(_, l) => P::Br(l), Instruction::BrIfEq(_, a, b, l) => P::BrIfEq(a, b, l), Instruction::BrIfNotEq(_, a, b, l) => P::BrIfNotEq(a, b, l),
        Instruction::Ret(_, v) => P::Ret(v), Instruction::SimpleAssignment(_, d, s) => P::Set(d, s), i => P::Other(i),
    }
}
pub open spec fn ps(s: Seq<Instruction>) -> Seq<P> { Seq::new(s.len(), |k: int| p(s[k])) }
pub broadcast proof fn lemma_ps_add(a: Seq<Instruction>, b: Seq<Instruction>) ensures #[trigger] ps(a + b) == ps(a) + ps(b) { assert(ps(a + b) =~= ps(a) + ps(b)); }
pub broadcast proof fn lemma_ps_push(a: Seq<Instruction>, i: Instruction) ensures #[trigger] ps(a.push(i)) == ps(a).push(p(i)) { assert(ps(a.push(i)) =~= ps(a).push(p(i))); }
pub broadcast proof fn lemma_ps_empty(a: Seq<Instruction>) requires a.len() == 0 ensures #[trigger] ps(a) == Seq::<P>::empty() { assert(ps(a) =~= Seq::<P>::empty()); }
/// what was appended
pub broadcast proof fn lemma_skip_sum(a: Seq<Instruction>, b: Seq<Instruction>, n: int) requires n == a.len() ensures #[trigger] (a + b).skip(n) == b { assert((a + b).skip(n) =~= b); }
/// what a names, b names the same
pub open spec fn sub(a: Map<String, LabelId>, b: Map<String, LabelId>) -> bool { forall|k: String| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
pub broadcast proof fn lemma_submap(a: Map<String, LabelId>, b: Map<String, LabelId>, c: Map<String, LabelId>) requires #[trigger] sub(a, b), #[trigger] sub(b, c) ensures sub(a, c) {}
pub open spec fn glue(q: Seq<Seq<P>>) -> Seq<P> decreases q.len() { if q.len() == 0 { Seq::empty() } else { glue(q.drop_last()) + q.last() } }
pub proof fn lemma_glue(q: Seq<Seq<P>>, x: Seq<P>) ensures glue(q.push(x)) == glue(q) + x { assert(q.push(x).drop_last() =~= q); }

/// what a jump may refer to: a loop (its end, where continue goes) or a switch (its end, what is compared)
pub enum J { Loop(LabelId, LabelId), Switch(LabelId, VarId) }
pub open spec fn jump(l: LoopOrSwitchContext) -> J { match l { LoopOrSwitchContext::Loop(c) => J::Loop(c.end_label, c.continue_label), LoopOrSwitchContext::Switch(s) => J::Switch(s.end_label, s.switch_var) } }
pub open spec fn jumps(s: Seq<LoopOrSwitchContext>) -> Seq<J> { Seq::new(s.len(), |k: int| jump(s[k])) }
pub open spec fn break_of(js: Seq<J>) -> Option<LabelId> { if js.len() == 0 { None } else { match js.last() { J::Loop(e, _) => Some(e), J::Switch(e, _) => Some(e) } } }
pub open spec fn continue_of(js: Seq<J>) -> Option<LabelId> decreases js.len() { if js.len() == 0 { None } else { match js.last() { J::Loop(_, c) => Some(c), J::Switch(..) => continue_of(js.drop_last()) } } }
pub proof fn lemma_continue(s: Seq<LoopOrSwitchContext>)
    ensures continue_of(jumps(s)) == (match inner_loop(s) { Some(i) => Some(s[i]->Loop_0.continue_label), None => None }),
    decreases s.len(),
{ if s.len() > 0 { lemma_continue(s.drop_last()); lemma_inner_sound(s.drop_last()); assert(jumps(s).drop_last() =~= jumps(s.drop_last())); } }

/// a switch as far as its body has been converted
pub struct Sw { pub conds: Seq<P>, pub blocks: Seq<Seq<P>>, pub dflt: Option<LabelId> }
pub open spec fn sw(s: SwitchContext) -> Sw { Sw { conds: ps(s.case_condition_instrs@), blocks: Seq::new(s.case_blocks@.len(), |k: int| ps(s.case_blocks@[k]@)), dflt: s.default_block_label } }
pub open spec fn no_cases() -> Sw { Sw { conds: Seq::empty(), blocks: Seq::empty(), dflt: None } }
pub open spec fn with_code(a: Sw, out: Seq<P>) -> Sw { Sw { blocks: a.blocks.drop_last().push(a.blocks.last() + out), ..a } }

/// the code of an expression and where its value is (what convert_expression_to_ir gives)
pub uninterp spec fn value(e: Expression, code: Seq<P>, v: Src) -> bool;
pub open spec fn zero() -> Src { Src::Constant(Constant::Int(0)) }
pub open spec fn while_code(start: LabelId, end: LabelId, ci: Seq<P>, cv: Src, body: Seq<P>) -> Seq<P> {
    seq![P::Label(start)] + ci + seq![P::BrIfEq(cv, zero(), end)] + body + seq![P::Br(start), P::Label(end)]
}
pub open spec fn do_code(start: LabelId, end: LabelId, cont: LabelId, ci: Seq<P>, cv: Src, body: Seq<P>) -> Seq<P> {
    seq![P::Label(start)] + body + seq![P::Label(cont)] + ci + seq![P::BrIfNotEq(cv, zero(), start), P::Label(end)]
}
pub open spec fn for_code(start: LabelId, end: LabelId, cont: LabelId, init: Seq<P>, ci: Seq<P>, cv: Src, body: Seq<P>, step: Seq<P>) -> Seq<P> {
    init + seq![P::Label(start)] + ci + seq![P::BrIfEq(cv, zero(), end)] + body + seq![P::Label(cont)] + step + seq![P::Br(start), P::Label(end)]
}
pub open spec fn if_code(end: LabelId, ci: Seq<P>, cv: Src, body: Seq<P>) -> Seq<P> { ci + seq![P::BrIfEq(cv, zero(), end)] + body + seq![P::Label(end)] }
pub open spec fn else_code(other: LabelId, end: LabelId, ci: Seq<P>, cv: Src, yes: Seq<P>, no: Seq<P>) -> Seq<P> {
    ci + seq![P::BrIfEq(cv, zero(), other)] + yes + seq![P::Br(end), P::Label(other)] + no + seq![P::Label(end)]
}
pub open spec fn switch_code(end: LabelId, ci: Seq<P>, setup: Seq<P>, s: Sw) -> Seq<P> {
    ci + setup + s.conds + seq![P::Br(match s.dflt { Some(l) => l, None => end })] + glue(s.blocks) + seq![P::Label(end)]
}
pub open spec fn return_code(ci: Seq<P>, v: Src) -> Seq<P> { ci.push(P::Ret(Some(v))) }
pub open spec fn case_entry(a: Sw, ci: Seq<P>, v: Src, what: VarId, l: LabelId) -> Sw { Sw { conds: a.conds + ci.push(P::BrIfEq(Src::Var(what), v, l)), blocks: a.blocks.push(seq![P::Label(l)]), dflt: a.dflt } }
pub open spec fn default_entry(a: Sw, l: LabelId) -> Sw { Sw { conds: a.conds, blocks: a.blocks.push(seq![P::Label(l)]), dflt: Some(l) } }
/// `out` is code for statement s inside of the loops and switches js, where g gives the labels of names
pub open spec fn made(s: Statement, js: Seq<J>, g: Map<String, LabelId>, out: Seq<P>) -> bool
    decreases s, 0int,
{
    match s {
        Statement::Block(v) => exists|q: Seq<Seq<P>>| out == #[trigger] glue(q) && q.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> made(#[trigger] v@[i], js, g, q[i]),
        Statement::Goto(x) => g.contains_key(x.0) && out == seq![P::Br(g[x.0])],
        Statement::Continue => match continue_of(js) { Some(l) => out == seq![P::Br(l)], None => false },
        Statement::Break => match break_of(js) { Some(l) => out == seq![P::Br(l)], None => false },
        Statement::Return(None) => out == seq![P::Ret(None)],
        Statement::Return(Some(e)) => exists|ci: Seq<P>, v: Src| out == #[trigger] return_code(ci, v) && value(e, ci, v),
        Statement::While(c, b) => exists|start: LabelId, end: LabelId, ci: Seq<P>, cv: Src, bi: Seq<P>| out == #[trigger] while_code(start, end, ci, cv, bi) && start != end && value(c, ci, cv) && made(*b, js.push(J::Loop(end, start)), g, bi),
        Statement::DoWhile(b, c) => exists|start: LabelId, end: LabelId, cont: LabelId, ci: Seq<P>, cv: Src, bi: Seq<P>| out == #[trigger] do_code(start, end, cont, ci, cv, bi) && start != end && start != cont && end != cont && value(c, ci, cv) && made(*b, js.push(J::Loop(end, cont)), g, bi),
        Statement::For(i, c, e, b) => exists|start: LabelId, end: LabelId, cont: LabelId, ini: Seq<P>, ci: Seq<P>, cv: Src, bi: Seq<P>, ei: Seq<P>| out == #[trigger] for_code(start, end, cont, ini, ci, cv, bi, ei) && start != end && start != cont && end != cont
            && (match i { None => ini.len() == 0, Some(ExpressionOrDeclaration::Expression(x)) => exists|v: Src| value(x, ini, v), Some(ExpressionOrDeclaration::Declaration(d)) => made(*d, js, g, ini) })
            && (match c { None => ci.len() == 1 && cv is Var && ci[0] == P::Set(cv->Var_0, Src::Constant(Constant::Int(1))), Some(x) => value(x, ci, cv) })
            && (match e { None => ei.len() == 0, Some(x) => exists|v: Src| value(x, ei, v) })
            && made(*b, js.push(J::Loop(end, cont)), g, bi),
        Statement::If(c, b) => exists|end: LabelId, ci: Seq<P>, cv: Src, bi: Seq<P>| out == #[trigger] if_code(end, ci, cv, bi) && value(c, ci, cv) && made(*b, js, g, bi),
        Statement::IfElse(c, b, d) => exists|other: LabelId, end: LabelId, ci: Seq<P>, cv: Src, bi: Seq<P>, di: Seq<P>| out == #[trigger] else_code(other, end, ci, cv, bi, di) && other != end && value(c, ci, cv) && made(*b, js, g, bi) && made(*d, js, g, di),
        Statement::Switch(c, b) => exists|end: LabelId, ci: Seq<P>, cv: Src, what: VarId, setup: Seq<P>, s: Sw| out == #[trigger] switch_code(end, ci, setup, s) && value(c, ci, cv) && #[trigger] compared(cv, what, setup) && cased(*b, js.push(J::Switch(end, what)), g, no_cases(), s),
        Statement::Labelled(LabelledStatement::Named(x, b)) => g.contains_key(x.0) && out.len() > 0 && out[0] == P::Label(g[x.0]) && made(*b, js, g, out.skip(1)),
        Statement::Labelled(_) => false,
        Statement::Expr(e) => exists|v: Src| value(e, out, v),
        Statement::Empty => out.len() == 0,
        // declarations: not part of this contract
        Statement::Declaration(..) | Statement::EmptyDeclaration(..) | Statement::FunctionDeclaration(..) => true,
    }
}
/// the variable holding the switched value, and the code that puts it there
pub open spec fn compared(cv: Src, what: VarId, setup: Seq<P>) -> bool { match cv { Src::Var(v) => what == v && setup.len() == 0, c => setup == seq![P::Set(what, c)] } }
pub open spec fn ends(q: Seq<Sw>, a: Sw, b: Sw) -> bool { q.len() > 0 && q[0] == a && q.last() == b }
/// what statement s, directly in a switch, adds to it
pub open spec fn cased(s: Statement, js: Seq<J>, g: Map<String, LabelId>, a: Sw, b: Sw) -> bool
    decreases s, 1int,
{
    match s {
        Statement::Block(v) => exists|q: Seq<Sw>| #[trigger] ends(q, a, b) && q.len() == v@.len() + 1 && forall|i: int| 0 <= i < v@.len() ==> cased(#[trigger] v@[i], js, g, q[i], q[i + 1]),
        Statement::Labelled(LabelledStatement::Case(e, st)) => js.len() > 0 && js.last() is Switch && exists|ci: Seq<P>, v: Src, l: LabelId| value(e, ci, v) && cased(*st, js, g, #[trigger] case_entry(a, ci, v, js.last()->Switch_1, l), b),
        Statement::Labelled(LabelledStatement::Default(st)) => a.dflt is None && exists|l: LabelId| cased(*st, js, g, #[trigger] default_entry(a, l), b),
        _ => exists|out: Seq<P>| b == #[trigger] with_code(a, out) && a.blocks.len() > 0 && made(s, js, g, out),
    }
}

/// no function is defined inside of it
pub open spec fn plain(s: Statement) -> bool decreases s {
    match s {
        Statement::FunctionDeclaration(..) => false,
        Statement::Block(v) => forall|i: int| 0 <= i < v@.len() ==> plain(#[trigger] v@[i]),
        Statement::While(_, b) => plain(*b), Statement::DoWhile(b, _) => plain(*b), Statement::If(_, b) => plain(*b), Statement::Switch(_, b) => plain(*b),
        Statement::For(i, _, _, b) => plain(*b) && (match i { Some(ExpressionOrDeclaration::Declaration(d)) => plain(*d), _ => true }),
        Statement::IfElse(_, b, d) => plain(*b) && plain(*d),
        Statement::Labelled(LabelledStatement::Case(_, b)) => plain(*b), Statement::Labelled(LabelledStatement::Default(b)) => plain(*b), Statement::Labelled(LabelledStatement::Named(_, b)) => plain(*b),
        _ => true,
    }
}
/// labels of names stay, and no label is handed out twice
pub open spec fn grows(a: &Program, b: &Program) -> bool { sub(names_of(a), names_of(b)) && labels_of(a) <= labels_of(b) }
pub open spec fn names_of(a: &Program) -> Map<String, LabelId> { a.program_metadata.label_ids@ }
pub open spec fn labels_of(a: &Program) -> nat { a.program_metadata.label_id_generator.count() }
/// outer scopes stay as they are
pub open spec fn keeps(a: &Context, b: &Context) -> bool { a.statement_depth == b.statement_depth && a.scope_stack@.len() > 0 && b.scope_stack@.len() == a.scope_stack@.len() && b.scope_stack@.drop_last() == a.scope_stack@.drop_last() }
/// statements of a switch are directly in it, or part of another statement
pub open spec fn placed(c: &Context) -> bool { c.scope_stack@.len() > 0 && (c.statement_depth == 0 ==> c.loop_stack@.len() == 0 || c.loop_stack@.last() is Switch) }
pub open spec fn direct(c: &Context) -> bool { c.statement_depth == 0 && c.loop_stack@.len() > 0 }
/// the innermost switch took in b
pub open spec fn took(a: &Context, b: &Context) -> bool { b.loop_stack@.len() == a.loop_stack@.len() && b.loop_stack@.drop_last() =~= a.loop_stack@.drop_last() && b.loop_stack@.last() is Switch && jump(b.loop_stack@.last()) == jump(a.loop_stack@.last()) }
pub open spec fn top(c: &Context) -> Sw { sw(c.loop_stack@.last()->Switch_0) }
pub open spec fn converted(s: Statement, pa: &Program, ca: &Context, pb: &Program, cb: &Context, out: Seq<Instruction>) -> bool {
    keeps(ca, cb) && grows(pa, pb) && placed(cb)
    && ((s is Block || s is For) ==> cb.scope_stack@ == ca.scope_stack@)
    && if direct(ca) { out.len() == 0 && took(ca, cb) && forall|g: Map<String, LabelId>| sub(names_of(pb), g) ==> #[trigger] cased(s, jumps(ca.loop_stack@), g, top(ca), top(cb)) }
       else { cb.loop_stack@ == ca.loop_stack@ && forall|g: Map<String, LabelId>| sub(names_of(pb), g) ==> #[trigger] made(s, jumps(ca.loop_stack@), g, ps(out)) }
}
pub proof fn lemma_took(a: Seq<LoopOrSwitchContext>, b: Seq<LoopOrSwitchContext>)
    requires b.len() == a.len(), a.len() > 0, b.drop_last() =~= a.drop_last(), jump(b.last()) == jump(a.last()),
    ensures jumps(b) == jumps(a),
{ assert forall|k: int| 0 <= k < a.len() implies jump(a[k]) == jump(b[k]) by { if k < a.len() - 1 { assert(a.drop_last()[k] == b.drop_last()[k]); } } assert(jumps(b) =~= jumps(a)); }
pub proof fn lemma_put(s: SwitchContext, t: SwitchContext, all: Seq<Instruction>)
    requires s.case_blocks@.len() > 0, t == (SwitchContext { case_blocks: t.case_blocks, ..s }), t.case_blocks@.len() == s.case_blocks@.len(), t.case_blocks@.drop_last() =~= s.case_blocks@.drop_last(), t.case_blocks@.last()@ == s.case_blocks@.last()@ + all,
    ensures sw(t) == with_code(sw(s), ps(all)), all.len() == 0 ==> sw(t) == sw(s),
{
    broadcast use {lemma_ps_add, lemma_ps_empty};
    let a = sw(s).blocks; let b = with_code(sw(s), ps(all)).blocks; let c = sw(t).blocks;
    assert(b.len() == c.len());
    assert forall|k: int| 0 <= k < b.len() implies b[k] == c[k] by { if k < b.len() - 1 { assert(s.case_blocks@.drop_last()[k] == t.case_blocks@.drop_last()[k]); assert(b[k] == a.drop_last()[k]); } }
    assert(b =~= c);
    if all.len() == 0 { assert(a.last() + ps(all) =~= a.last()); assert(a =~= c); }
}
pub proof fn lemma_entry(s: SwitchContext, t: SwitchContext, ci: Seq<Instruction>, dflt: Option<LabelId>, l: LabelId)
    requires t == (SwitchContext { case_blocks: t.case_blocks, case_condition_instrs: t.case_condition_instrs, default_block_label: dflt, ..s }), t.case_condition_instrs@ =~= s.case_condition_instrs@ + ci, t.case_blocks@.len() == s.case_blocks@.len() + 1, t.case_blocks@.drop_last() =~= s.case_blocks@, t.case_blocks@.last()@.len() == 1, t.case_blocks@.last()@[0] is Label, t.case_blocks@.last()@[0]->Label_1 == l,
    ensures sw(t) == (Sw { conds: sw(s).conds + ps(ci), blocks: sw(s).blocks.push(seq![P::Label(l)]), dflt }),
{
    broadcast use {lemma_ps_add, lemma_ps_empty};
    let b = sw(s).blocks.push(seq![P::Label(l)]); let c = sw(t).blocks;
    assert(b.len() == c.len());
    assert forall|k: int| 0 <= k < b.len() implies b[k] == c[k] by { if k < b.len() - 1 { assert(t.case_blocks@.drop_last()[k] == s.case_blocks@[k]); } else { assert(c[k] =~= seq![P::Label(l)]); } }
    assert(b =~= c);
}
//@fn src/middle_end/ir.rs Program::new_label
//@external
//@ret r
//@spec
    ensures r.idx() == labels_of(old(self)), labels_of(final(self)) == labels_of(old(self)) + 1, names_of(final(self)) == names_of(old(self)),
//@end
//@fn src/middle_end/ir.rs Program::new_identifier_label
//@external
//@ret r
//@spec
    ensures labels_of(final(self)) == labels_of(old(self)) + 1, names_of(final(self)) == names_of(old(self)).insert(name, r),
//@end
//@fn src/middle_end/ir.rs Program::resolve_identifier_to_label
//@ret r
//@spec
    ensures match r { Some(l) => at(names_of(self), name_of(name@)) == Some(*l), None => !names_of(self).contains_key(name_of(name@)) },
//@end
//@fn src/middle_end/ir.rs Program::new_var
//@external
//@ret r
//@spec
    ensures labels_of(final(self)) == labels_of(old(self)), names_of(final(self)) == names_of(old(self)),
//@end
//@fn src/middle_end/ir.rs Program::add_var_type
//@external
//@ret r
//@spec
    ensures labels_of(final(self)) == labels_of(old(self)), names_of(final(self)) == names_of(old(self)),
//@end
//@fn src/middle_end/ir.rs Program::new_instr_id
//@external
//@ret r
//@spec
    ensures labels_of(final(self)) == labels_of(old(self)), names_of(final(self)) == names_of(old(self)),
//@end
//@fn src/middle_end/instructions.rs Constant::get_type
//@external
//@end
/// identifiers of instructions are left, and statements nest less than 2^64 deep
#[verifier::external_body]
pub fn enough(p: &ProgramMetadata, c: &Context) ensures p.instr_id_generator.count() <= u64::MAX, c.statement_depth < usize::MAX {}
#[verifier::external_body]
pub fn vskip<T>() -> (r: T) ensures false { unimplemented!() }
/// a panic: not claimed not to happen here
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) ensures false { unimplemented!() }
use std::mem;
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src;
//@fn src/middle_end/ast_to_ir.rs convert_expression_to_ir
//@external
//@ret r
//@spec
    requires old(context).scope_stack@.len() > 0,
    ensures match r { Ok((i, v)) => value(src_expr, ps(i@), v) && keeps(old(context), final(context)) && final(context).loop_stack == old(context).loop_stack && grows(old(prog), final(prog)), Err(_) => true },
//@end
//@fn src/middle_end/ast_to_ir.rs convert_nested_statement_to_ir
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires plain(stmt), old(context).scope_stack@.len() > 0,
    ensures match r { Ok(v) => keeps(old(context), final(context)) && grows(old(prog), final(prog)) && final(context).loop_stack@ == old(context).loop_stack@
            && ((stmt is Block || stmt is For) ==> final(context).scope_stack@ == old(context).scope_stack@)
            && forall|g: Map<String, LabelId>| sub(names_of(final(prog)), g) ==> #[trigger] made(stmt, jumps(old(context).loop_stack@), g, ps(v@)), Err(_) => true },
//@start
    enough(&prog.program_metadata, context);
//@end
//@fn src/middle_end/ast_to_ir.rs convert_statement_to_ir
//@split 16
//@only Block Goto Continue Break Return While DoWhile For If IfElse Switch Labelled Expr Empty
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@iterval 0
//@iter 0 it
//@iterval 1
//@iter 1 jt
//@spec
    requires plain(stmt), placed(old(context)),
    ensures match r { Ok(v) => converted(stmt, old(prog), old(context), final(prog), final(context), v@), Err(_) => true },
//@start
    broadcast use {lemma_ps_add, lemma_ps_push, lemma_ps_empty, lemma_skip_sum, lemma_submap};
    let ghost c0 = *context;
    let ghost p0 = *prog;
    let ghost st = stmt;
    let ghost js = jumps(context.loop_stack@);
    proof { lemma_inner_sound(context.loop_stack@); lemma_continue(context.loop_stack@); }
//@before if context.is_directly_in_switch_context()
    let ghost c1 = *context;
    let ghost all = instrs@;
    proof { lemma_inner_sound(context.loop_stack@);
        if !(st is Block && direct(&c0)) {
            assert(context.loop_stack@ == c0.loop_stack@);
            assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(all)) by {}
        }
    }
//@after context.push_instrs_to_switch_case_block(instrs)?;
        proof {
            lemma_put(c1.loop_stack@.last()->Switch_0, context.loop_stack@.last()->Switch_0, all);
            if !(st is Block) {
                assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] cased(st, js, g, top(&c0), top(context)) by { assert(made(st, js, g, ps(all))); }
            }
        }
//@loop 0 before
            let ghost l = stmts@;
            let ghost mut qm: Seq<Seq<P>> = Seq::empty();
            let ghost mut qs: Seq<Sw> = seq![top(&c0)];
            proof { assert(glue(qm) =~= Seq::<P>::empty()); }
//@loop 0
                invariant
                    __s0@ == l, st is Block, st->Block_0@ == l, plain(st), placed(context), placed(&c0), grows(&p0, prog), js == jumps(c0.loop_stack@),
                    context.statement_depth == c0.statement_depth, context.scope_stack@.len() == c0.scope_stack@.len() + 1, context.scope_stack@.drop_last() == c0.scope_stack@,
                    it.seq().len() == l.len(), forall|j: int| 0 <= j < l.len() ==> *#[trigger] it.seq()[j] == l[j],
                    direct(&c0) ==> instrs@.len() == 0 && took(&c0, context) && qs.len() == it.index@ + 1 && qs[0] == top(&c0) && qs.last() == top(context),
                    direct(&c0) ==> forall|j: int, g: Map<String, LabelId>| 0 <= j < it.index@ && sub(names_of(prog), g) ==> #[trigger] cased(l[j], js, g, qs[j], qs[j + 1]),
                    !direct(&c0) ==> context.loop_stack@ == c0.loop_stack@ && ps(instrs@) == glue(qm) && qm.len() == it.index@,
                    !direct(&c0) ==> forall|j: int, g: Map<String, LabelId>| 0 <= j < it.index@ && sub(names_of(prog), g) ==> #[trigger] made(l[j], js, g, qm[j]),
//@loop 0 start
                let ghost k = it.index@ as int;
                let ghost b0 = instrs@;
                let ghost cc = *context;
                let ghost pp = *prog;
                proof { assert(s == l[k]); if direct(&c0) { lemma_took(c0.loop_stack@, context.loop_stack@); } assert(jumps(context.loop_stack@) == js); }
//@loop 0 end
                proof {
                    broadcast use {lemma_ps_add, lemma_ps_push, lemma_ps_empty, lemma_skip_sum, lemma_submap};
                    let out = instrs@.skip(b0.len() as int);
                    if direct(&c0) {
                        assert(top(&cc) == qs[k]);
                        qs = qs.push(top(context));
                        assert forall|j: int, g: Map<String, LabelId>| 0 <= j < k + 1 && sub(names_of(prog), g) implies #[trigger] cased(l[j], js, g, qs[j], qs[j + 1]) by { if j < k { assert(sub(names_of(&pp), g)); } }
                    } else {
                        lemma_glue(qm, ps(out)); assert(instrs@ =~= b0 + out);
                        qm = qm.push(ps(out));
                        assert(qm[k] == ps(out));
                        assert forall|j: int, g: Map<String, LabelId>| 0 <= j < k + 1 && sub(names_of(prog), g) implies #[trigger] made(l[j], js, g, qm[j]) by { if j < k { assert(sub(names_of(&pp), g)); } else { assert(made(l[k], js, g, ps(out))); } }
                    }
                }
//@loop 0 after
            proof {
                if direct(&c0) {
                    assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] cased(st, js, g, top(&c0), top(context)) by { assert(ends(qs, top(&c0), top(context))); assert(forall|j: int| 0 <= j < l.len() ==> cased(#[trigger] st->Block_0@[j], js, g, qs[j], qs[j + 1])); }
                } else {
                    assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(instrs@)) by { assert(ps(instrs@) == glue(qm)); assert(qm.len() == l.len()); assert(forall|j: int| 0 <= j < l.len() ==> made(#[trigger] st->Block_0@[j], js, g, qm[j])); }
                }
            }
//@after let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;##0
            let ghost ci = ps(cond_instrs@);
//@before instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);##0
            let ghost b0 = instrs@;
            proof { assert(jumps(context.loop_stack@) =~= js.push(J::Loop(loop_end_label, loop_start_label))); }
//@after instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);##0
            let ghost bi = ps(instrs@.skip(b0.len() as int));
//@before context.pop_loop();##0
            proof {
                assert(ps(instrs@) =~= while_code(loop_start_label, loop_end_label, ci, cond_var, bi));
                assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(instrs@)) by { assert(ps(instrs@) == while_code(loop_start_label, loop_end_label, ci, cond_var, bi)); assert(loop_start_label != loop_end_label); assert(st is While); assert(value(st->While_0, ci, cond_var)); assert(made(*st->While_1, js.push(J::Loop(loop_end_label, loop_start_label)), g, bi)); }
            }
//@after context.pop_loop();##0
            proof { assert(context.loop_stack@ =~= c0.loop_stack@); }
//@before instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);##1
            let ghost b0 = instrs@;
            proof { assert(jumps(context.loop_stack@) =~= js.push(J::Loop(loop_end_label, loop_continue_label))); }
//@after instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);##1
            let ghost bi = ps(instrs@.skip(b0.len() as int));
//@after let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;##1
            let ghost ci = ps(cond_instrs@);
//@before context.pop_loop();##1
            proof {
                assert(ps(instrs@) =~= do_code(loop_start_label, loop_end_label, loop_continue_label, ci, cond_var, bi));
                assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(instrs@)) by { assert(ps(instrs@) == do_code(loop_start_label, loop_end_label, loop_continue_label, ci, cond_var, bi)); assert(loop_start_label != loop_end_label && loop_start_label != loop_continue_label && loop_end_label != loop_continue_label); assert(st is DoWhile); assert(value(st->DoWhile_1, ci, cond_var)); assert(made(*st->DoWhile_0, js.push(J::Loop(loop_end_label, loop_continue_label)), g, bi)); }
            }
//@after context.pop_loop();##1
            proof { assert(context.loop_stack@ =~= c0.loop_stack@); }
//@after let (mut expr_instrs, _) = convert_expression_to_ir(e, prog, context)?;##0
                        let ghost ini0 = ps(expr_instrs@);
//@before instrs.push(Instruction::Label(prog.new_instr_id(), loop_start_label.to_owned(),));##2
            let ghost ini = ps(instrs@);
            let ghost a0 = instrs@;
            let ghost pi = *prog;
            proof {
                assert(context.loop_stack@ == c0.loop_stack@);
                assert(match st->For_0 { None => ini.len() == 0, Some(ExpressionOrDeclaration::Expression(x)) => exists|v: Src| value(x, ini, v), Some(ExpressionOrDeclaration::Declaration(d)) => forall|g: Map<String, LabelId>| sub(names_of(prog), g) ==> #[trigger] made(*d, js, g, ini) });
            }
//@before instrs.push(Instruction::BrIfEq(prog.new_instr_id(), cond_var, Src::Constant(Constant::Int(0)), loop_end_label.to_owned(),));##1
            let ghost ci = ps(instrs@.skip(a0.len() as int + 1));
            proof {
                assert(ps(instrs@) =~= ini + seq![P::Label(loop_start_label)] + ci);
                assert(match st->For_1 { None => ci.len() == 1 && cond_var is Var && ci[0] == P::Set(cond_var->Var_0, Src::Constant(Constant::Int(1))), Some(x) => value(x, ci, cond_var) });
                assert(context.loop_stack@ == c0.loop_stack@.push(context.loop_stack@.last()));
            }
//@before instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);##2
            let ghost b0 = instrs@;
            proof { assert(jumps(context.loop_stack@) =~= js.push(J::Loop(loop_end_label, loop_continue_label))); }
//@after instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);##2
            let ghost bi = ps(instrs@.skip(b0.len() as int));
            let ghost e0 = instrs@;
            proof { assert(ps(b0) =~= ini + seq![P::Label(loop_start_label)] + ci + seq![P::BrIfEq(cond_var, zero(), loop_end_label)]); assert(ps(e0) =~= ps(b0) + bi); }
//@before instrs.push(Instruction::Br(prog.new_instr_id(), loop_start_label));##1
            let ghost ei = ps(instrs@.skip(e0.len() as int + 1));
            proof {
                assert(ps(instrs@) =~= ps(e0) + seq![P::Label(loop_continue_label)] + ei);
                assert(match st->For_2 { None => ei.len() == 0, Some(x) => exists|v: Src| value(x, ei, v) });
            }
//@before context.pop_loop();##2
            proof {
                assert(ps(instrs@) =~= for_code(loop_start_label, loop_end_label, loop_continue_label, ini, ci, cond_var, bi, ei));
                assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(instrs@)) by { assert(ps(instrs@) == for_code(loop_start_label, loop_end_label, loop_continue_label, ini, ci, cond_var, bi, ei)); assert(loop_start_label != loop_end_label && loop_start_label != loop_continue_label && loop_end_label != loop_continue_label); assert(st is For); assert(sub(names_of(&pi), g)); assert(match st->For_0 { None => ini.len() == 0, Some(ExpressionOrDeclaration::Expression(x)) => exists|v: Src| value(x, ini, v), Some(ExpressionOrDeclaration::Declaration(d)) => made(*d, js, g, ini) }); assert(match st->For_1 { None => ci.len() == 1 && cond_var is Var && ci[0] == P::Set(cond_var->Var_0, Src::Constant(Constant::Int(1))), Some(x) => value(x, ci, cond_var) }); assert(match st->For_2 { None => ei.len() == 0, Some(x) => exists|v: Src| value(x, ei, v) }); assert(made(*st->For_3, js.push(J::Loop(loop_end_label, loop_continue_label)), g, bi)); }
            }
//@after context.pop_loop();##2
            proof { assert(context.loop_stack@ =~= c0.loop_stack@); }
//@after let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;##2
            let ghost ci = ps(cond_instrs@);
//@before instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);##3
            let ghost b0 = instrs@;
//@after instrs.append(&mut convert_nested_statement_to_ir(*body, prog, context)?);##3
            let ghost bi = ps(instrs@.skip(b0.len() as int));
//@after instrs.push(Instruction::Label(prog.new_instr_id(), if_end_label));
            proof {
                assert(ps(instrs@) =~= if_code(if_end_label, ci, cond_var, bi));
                assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(instrs@)) by { assert(ps(instrs@) == if_code(if_end_label, ci, cond_var, bi)); assert(st is If); assert(value(st->If_0, ci, cond_var)); assert(made(*st->If_1, js, g, bi)); }
            }
//@after let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;##3
            let ghost ci = ps(cond_instrs@);
//@before instrs.append(&mut convert_nested_statement_to_ir(*true_body, prog, context)?);
            let ghost b0 = instrs@;
//@after instrs.append(&mut convert_nested_statement_to_ir(*true_body, prog, context)?);
            let ghost bi = ps(instrs@.skip(b0.len() as int));
//@before instrs.append(&mut convert_nested_statement_to_ir(*false_body, prog, context)?);
            let ghost d0 = instrs@;
//@after instrs.append(&mut convert_nested_statement_to_ir(*false_body, prog, context)?);
            let ghost di = ps(instrs@.skip(d0.len() as int));
//@after instrs.push(Instruction::Label(prog.new_instr_id(), else_end_label));
            proof {
                assert(ps(instrs@) =~= else_code(else_label, else_end_label, ci, cond_var, bi, di));
                assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(instrs@)) by { assert(ps(instrs@) == else_code(else_label, else_end_label, ci, cond_var, bi, di)); assert(else_label != else_end_label); assert(st is IfElse); assert(value(st->IfElse_0, ci, cond_var)); assert(made(*st->IfElse_1, js, g, bi)); assert(made(*st->IfElse_2, js, g, di)); }
            }
//@before context.new_switch_case_block(case_body_label, condition_instrs, &mut prog.program_metadata,)?;
                    enough(&prog.program_metadata, context);
//@before context.new_switch_case_block(case_body_label, Vec::new(), &mut prog.program_metadata,)?;
                    enough(&prog.program_metadata, context);
//@before instrs.append(&mut convert_nested_statement_to_ir(*stmt, prog, context)?);
                    let ghost b0 = instrs@;
                    proof { assert(ps(b0) =~= seq![P::Label(label)]); assert(sub(names_of(&p0), names_of(prog))); assert(names_of(prog).contains_key(st->Labelled_0->Named_0.0) && names_of(prog)[st->Labelled_0->Named_0.0] == label); }
//@after instrs.append(&mut convert_nested_statement_to_ir(*stmt, prog, context)?);
                    proof {
                        let bi = ps(instrs@.skip(1));
                        assert(ps(instrs@).skip(1) =~= bi); assert(ps(instrs@)[0] == P::Label(label));
                        assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(instrs@)) by { assert(st->Labelled_0 is Named); assert(made(*st->Labelled_0->Named_1, js, g, bi)); assert(g[st->Labelled_0->Named_0.0] == label); }
                    }
//@after let (mut expr_instrs, _) = convert_expression_to_ir(e, prog, context)?;##2
            proof { assert(instrs@ + expr_instrs@ =~= expr_instrs@); assert(st is Expr); assert(exists|v: Src| value(st->Expr_0, ps(expr_instrs@), v)); }
//@after let (mut expr_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;##0
                let ghost ri = ps(expr_instrs@);
                proof { assert(expr_instrs@ =~= instrs@ + expr_instrs@); assert(value(st->Return_0->0, ri, expr_var)); }
//@after instrs.push(Instruction::Ret(prog.new_instr_id(), Some(expr_var)));
                proof { assert(ps(instrs@) == return_code(ri, expr_var)); }
//@after instrs.push(Instruction::Br(prog.new_instr_id(), label));
            proof { if st is Goto { assert(names_of(prog).contains_key(st->Goto_0.0) && names_of(prog)[st->Goto_0.0] == label); assert(ps(instrs@) =~= seq![P::Br(label)]); } }
//@after let (mut expr_instrs, switch_src) = convert_expression_to_ir(switch_expr, prog, context)?;
            let ghost ci = ps(expr_instrs@);
            proof { assert(value(st->Switch_0, ci, switch_src)); assert(context.loop_stack@ == c0.loop_stack@); }
//@before context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
            let ghost setup = ps(instrs@.skip(ci.len() as int));
            let ghost what = switch_var;
            proof { assert(ps(instrs@) =~= ci + setup); assert(setup =~= (match switch_src { Src::Var(v) => Seq::<P>::empty(), c => seq![P::Set(what, c)] })); assert(compared(switch_src, what, setup)); }
//@before convert_statement_to_ir(*body, prog, context)?;
            proof {
                assert(jumps(context.loop_stack@) =~= js.push(J::Switch(switch_end_label, what)));
                assert(top(context).blocks =~= no_cases().blocks); assert(top(context).conds =~= no_cases().conds); assert(top(context) == no_cases());
            }
//@after let mut switch_context = context.pop_switch()?;
            let ghost done = sw(switch_context);
            let ghost blocks = switch_context.case_blocks@;
            proof {
                assert(context.loop_stack@ =~= c0.loop_stack@);
                assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] cased(*st->Switch_1, js.push(J::Switch(switch_end_label, what)), g, no_cases(), done) by {}
            }
//@loop 1 before
            let ghost h0 = instrs@;
            proof { assert(ps(h0) =~= ci + setup + done.conds + seq![P::Br(match done.dflt { Some(l) => l, None => switch_end_label })]); assert(glue(done.blocks.take(0)) =~= Seq::<P>::empty()); assert(ps(h0) + Seq::<P>::empty() =~= ps(h0)); }
//@loop 1
                invariant
                    __s1@ == blocks, jt.seq().len() == blocks.len(), forall|j: int| 0 <= j < blocks.len() ==> *#[trigger] jt.seq()[j] == blocks[j],
                    done.blocks == Seq::new(blocks.len(), |k: int| ps(blocks[k]@)), ps(instrs@) == ps(h0) + glue(done.blocks.take(jt.index@ as int)),
//@loop 1 start
                let ghost k = jt.index@ as int;
                let ghost b0 = instrs@;
                proof { assert(case_body_instrs@ =~= blocks[k]@); }
//@loop 1 end
                proof {
                    broadcast use {lemma_ps_add};
                    assert(instrs@ =~= b0 + blocks[k]@);
                    assert(done.blocks.take(k + 1).drop_last() =~= done.blocks.take(k)); assert(done.blocks.take(k + 1).last() == ps(blocks[k]@));
                    assert(ps(instrs@) =~= ps(h0) + glue(done.blocks.take(k + 1)));
                }
//@after instrs.push(Instruction::Label(prog.new_instr_id(), switch_end_label));
            proof {
                assert(done.blocks.take(blocks.len() as int) =~= done.blocks);
                assert(ps(instrs@) =~= switch_code(switch_end_label, ci, setup, done));
                assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] made(st, js, g, ps(instrs@)) by {
                    assert(ps(instrs@) == switch_code(switch_end_label, ci, setup, done)); assert(compared(switch_src, what, setup)); assert(st is Switch); assert(value(st->Switch_0, ci, switch_src));
                    assert(cased(*st->Switch_1, js.push(J::Switch(switch_end_label, what)), g, no_cases(), done));
                }
            }
//@after let (mut condition_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
                    let ghost ci = ps(condition_instrs@);
                    let ghost s0 = context.loop_stack@.last()->Switch_0;
                    proof { assert(context.loop_stack@ == c0.loop_stack@); assert(direct(&c0)); assert(value(st->Labelled_0->Case_0, ci, expr_var)); }
//@after context.new_switch_case_block(case_body_label, condition_instrs, &mut prog.program_metadata,)?;
                    let ghost cm = *context;
                    proof {
                        let t0 = context.loop_stack@.last()->Switch_0;
                        let all = t0.case_condition_instrs@.skip(s0.case_condition_instrs@.len() as int);
                        assert(ps(all) =~= ci.push(P::BrIfEq(Src::Var(s0.switch_var), expr_var, case_body_label)));
                        assert(t0.case_condition_instrs@ =~= s0.case_condition_instrs@ + all);
                        lemma_entry(s0, t0, all, s0.default_block_label, case_body_label);
                        assert(jump(context.loop_stack@.last()) == jump(c0.loop_stack@.last()));
                        lemma_took(c0.loop_stack@, context.loop_stack@);
                        assert(top(context) == case_entry(top(&c0), ci, expr_var, js.last()->Switch_1, case_body_label));
                    }
//@after convert_statement_to_ir(*stmt, prog, context)?;##0
                    proof {
                        assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] cased(st, js, g, top(&c0), top(context)) by {
                            assert(cased(*st->Labelled_0->Case_1, js, g, case_entry(top(&c0), ci, expr_var, js.last()->Switch_1, case_body_label), top(context)));
                        }
                    }
//@before context.add_default_switch_block_label(case_body_label.to_owned())?;
                    let ghost s0 = context.loop_stack@.last()->Switch_0;
//@after context.new_switch_case_block(case_body_label, Vec::new(), &mut prog.program_metadata,)?;
                    let ghost cm = *context;
                    proof {
                        let t0 = context.loop_stack@.last()->Switch_0;
                        lemma_entry(s0, t0, Seq::empty(), Some(case_body_label), case_body_label);
                        assert(top(&c0).conds + ps(Seq::<Instruction>::empty()) =~= top(&c0).conds);
                        assert(jump(context.loop_stack@.last()) == jump(c0.loop_stack@.last()));
                        lemma_took(c0.loop_stack@, context.loop_stack@);
                        assert(top(context) == default_entry(top(&c0), case_body_label));
                    }
//@after convert_statement_to_ir(*stmt, prog, context)?;##1
                    proof {
                        assert forall|g: Map<String, LabelId>| sub(names_of(prog), g) implies #[trigger] cased(st, js, g, top(&c0), top(context)) by {
                            assert(cased(*st->Labelled_0->Default_0, js, g, default_entry(top(&c0), case_body_label), top(context)));
                        }
                    }
//@end
