// tail calls in place of call-then-return
/// the next step returns the call's result
pub open spec fn tail_pair(a: Instruction, b: Instruction) -> bool { a is Call && b is Ret && b->Ret_1 == Some(Src::Var(a->Call_1)) }
/// a pointer into the frame may exist
pub open spec fn makes_pointer(i: Instruction) -> bool { i is AddressOf || i is AllocateVariable }
pub open spec fn pointers(s: Seq<Instruction>) -> bool { exists|k: int| 0 <= k < s.len() && makes_pointer(#[trigger] s[k]) }
/// the function a call names
pub open spec fn same_fun(i: Instruction, f: FunId) -> bool { i->Call_2 == f }
pub open spec fn new_len(i: Instruction, f: FunId) -> int { if same_fun(i, f) { 2 * i->Call_3@.len() as int + 1 } else { 1int } }
/// new identifiers and variables only
pub open spec fn grew(n: &ProgramMetadata, o: &ProgramMetadata) -> bool {
    &&& *n == (ProgramMetadata { var_types: n.var_types, var_id_generator: n.var_id_generator, instr_id_generator: n.instr_id_generator, label_id_generator: n.label_id_generator, ..*o })
    &&& n.vars_handed_out()
    &&& o.var_id_generator.count() <= n.var_id_generator.count()
    &&& forall|v: VarId| #[trigger] o.var_types@.contains_key(v) ==> n.var_types@.contains_key(v) && n.var_types@[v] == o.var_types@[v]
    &&& forall|v: VarId| #[trigger] n.var_types@.contains_key(v) && v.idx() < o.var_id_generator.count() ==> o.var_types@.contains_key(v)
}
/// the type under which an argument is passed to the parameter
pub open spec fn arg_type_for(a: Src, pv: VarId, o: &ProgramMetadata) -> IrType { match a { Src::Constant(_) => o.var_types@[pv], _ => a.ty(o) } }
pub open spec fn arg_ok(a: Src, pv: VarId, o: &ProgramMetadata) -> bool { match a { Src::Constant(_) => o.var_types@.contains_key(pv), _ => a.typed(o) } }
/// the function calls itself with arguments for its parameters
pub open spec fn callable(s: Seq<Instruction>, f: FunId, pv: Seq<VarId>, o: &ProgramMetadata) -> bool {
    forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Call && same_fun(s[k], f) ==> args_ok(s[k]->Call_3@, pv, o)
}
pub open spec fn args_ok(a: Seq<Src>, pv: Seq<VarId>, o: &ProgramMetadata) -> bool { a.len() <= pv.len() && forall|j: int| 0 <= j < a.len() ==> arg_ok(#[trigger] a[j], pv[j], o) }
/// a copy of an argument into a new variable of its type
pub open spec fn is_copy(i: Instruction, a: Src, pv: VarId, o: &ProgramMetadata, n: &ProgramMetadata) -> bool {
    i is SimpleAssignment && i->SimpleAssignment_2 == a && i->SimpleAssignment_1.idx() >= o.var_id_generator.count() && n.var_types@.contains_key(i->SimpleAssignment_1) && n.var_types@[i->SimpleAssignment_1] == arg_type_for(a, pv, o)
}
/// a copy of the new variable into the parameter
pub open spec fn is_store(i: Instruction, c: Instruction, pv: VarId) -> bool { i is SimpleAssignment && i->SimpleAssignment_1 == pv && i->SimpleAssignment_2 == Src::Var(c->SimpleAssignment_1) }
/// the first k arguments are in new variables, all different
pub open spec fn copies(u: Seq<Instruction>, a: Seq<Src>, k: int, pv: Seq<VarId>, o: &ProgramMetadata, n: &ProgramMetadata) -> bool {
    &&& forall|j: int| 0 <= j < k ==> is_copy(#[trigger] u[j], a[j], pv[j], o, n)
    &&& forall|i: int, j: int| 0 <= i < j < k ==> (#[trigger] u[i])->SimpleAssignment_1 != (#[trigger] u[j])->SimpleAssignment_1
}
/// the first k parameters have been given their new values
pub open spec fn stores(u: Seq<Instruction>, m: int, k: int, pv: Seq<VarId>) -> bool { forall|j: int| 0 <= j < k ==> is_store(#[trigger] u[m + j], u[j], pv[j]) }
/// what stands for the call and the return: a tail call of the same function with the same arguments; for the
/// function itself, all arguments copied, then moved into the parameters, then a jump to the start
pub open spec fn tail_form(c: Instruction, u: Seq<Instruction>, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, n: &ProgramMetadata) -> bool {
    let a = c->Call_3@;
    &&& u.len() == new_len(c, f)
    &&& if same_fun(c, f) {
        copies(u, a, a.len() as int, pv, o, n) && stores(u, a.len() as int, a.len() as int, pv) && u[2 * a.len() as int] is Br && u[2 * a.len() as int]->Br_1 == l
    } else { u[0] is TailCall && u[0]->TailCall_1 == c->Call_2 && u[0]->TailCall_2@ == a }
}
/// every call whose result the next step returns is replaced, everything else is as before
pub open spec fn rewritten(s: Seq<Instruction>, t: Seq<Instruction>, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, n: &ProgramMetadata) -> bool
    decreases s.len(),
{
    if s.len() == 0 { t.len() == 0 }
    else if s.len() >= 2 && tail_pair(s[0], s[1]) { t.len() >= new_len(s[0], f) && tail_form(s[0], t.take(new_len(s[0], f)), f, pv, l, o, n) && rewritten(s.skip(2), t.skip(new_len(s[0], f)), f, pv, l, o, n) }
    else { t.len() > 0 && t[0] == s[0] && rewritten(s.skip(1), t.skip(1), f, pv, l, o, n) }
}
/// identifiers needed at most
pub open spec fn cost(s: Seq<Instruction>) -> int decreases s.len() { if s.len() == 0 { 0 } else { cost(s.drop_last()) + match s.last() { Instruction::Call(_, _, _, a) => 2 * a@.len() as int + 1, _ => 0int } } }
pub proof fn lemma_cost(s: Seq<Instruction>, k: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= cost(s.take(k)) <= cost(s), k < s.len() ==> cost(s.take(k + 1)) == cost(s.take(k)) + match s[k] { Instruction::Call(_, _, _, a) => 2 * a@.len() as int + 1, _ => 0int },
    decreases s.len(),
{
    if k < s.len() {
        let t = s.take(k + 1);
        assert(t.drop_last() =~= s.take(k));
        assert(t.last() == s[k]);
    }
    if s.len() == 0 { assert(s.take(k) =~= s); }
    else if k == s.len() { lemma_cost(s.drop_last(), k - 1); assert(s.take(k) =~= s); }
    else { lemma_cost(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); }
}
pub proof fn lemma_cost_front(s: Seq<Instruction>, x: Instruction)
    requires !(x is Call),
    ensures cost(seq![x] + s) == cost(s),
    decreases s.len(),
{
    let t = seq![x] + s;
    if s.len() == 0 { assert(t.drop_last() =~= s); assert(t.last() == x); } else {
        assert(t.drop_last() =~= seq![x] + s.drop_last());
        assert(t.last() == s.last());
        lemma_cost_front(s.drop_last(), x);
    }
}
/// growing further keeps what has been made
pub proof fn lemma_form_kept(c: Instruction, u: Seq<Instruction>, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, m: &ProgramMetadata, n: &ProgramMetadata)
    requires tail_form(c, u, f, pv, l, o, m), grew(n, m),
    ensures tail_form(c, u, f, pv, l, o, n),
{}
pub type Site = (usize, u32, Vec<Instruction>);
/// a place to rewrite
pub open spec fn site_ok(x: Site, s: Seq<Instruction>, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, n: &ProgramMetadata) -> bool {
    x.1 == 2 && x.0 + 2 <= s.len() && tail_pair(s[x.0 as int], s[x.0 + 1]) && tail_form(s[x.0 as int], x.2@, f, pv, l, o, n)
}
pub open spec fn has_site(r: Seq<Site>, k: int) -> bool { exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).0 == k }
/// all places before position b, in order
pub open spec fn sites(r: Seq<Site>, s: Seq<Instruction>, b: int, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, n: &ProgramMetadata) -> bool {
    &&& forall|j: int| 0 <= j < r.len() ==> site_ok(#[trigger] r[j], s, f, pv, l, o, n) && r[j].0 + 2 <= b
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 + 2 <= (#[trigger] r[j]).0
    &&& forall|k: int| 0 <= k < b - 1 && tail_pair(#[trigger] s[k], s[k + 1]) ==> has_site(r, k)
}
pub type Current<'a> = (usize, &'a Dest, &'a FunId, &'a Vec<Src>);
/// the call just before position i
pub open spec fn is_current(x: Current, s: Seq<Instruction>, i: int) -> bool { x.0 + 1 == i && i <= s.len() && s[x.0 as int] is Call && s[x.0 as int]->Call_1 == *x.1 && s[x.0 as int]->Call_2 == *x.2 && s[x.0 as int]->Call_3 == *x.3 }
pub proof fn lemma_sites_kept(r: Seq<Site>, s: Seq<Instruction>, b: int, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, m: &ProgramMetadata, n: &ProgramMetadata)
    requires sites(r, s, b, f, pv, l, o, m), grew(n, m),
    ensures sites(r, s, b, f, pv, l, o, n),
{
    assert forall|j: int| 0 <= j < r.len() implies site_ok(#[trigger] r[j], s, f, pv, l, o, n) && r[j].0 + 2 <= b by { assert(site_ok(r[j], s, f, pv, l, o, m)); lemma_form_kept(s[r[j].0 as int], r[j].2@, f, pv, l, o, m, n); }
}
pub proof fn lemma_sites_push(r: Seq<Site>, x: Site, s: Seq<Instruction>, i: int, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, n: &ProgramMetadata)
    requires sites(r, s, i, f, pv, l, o, n), site_ok(x, s, f, pv, l, o, n), x.0 + 1 == i, i < s.len(), !(s[i] is Call),
    ensures sites(r.push(x), s, i + 1, f, pv, l, o, n),
{
    let t = r.push(x);
    assert forall|j: int| 0 <= j < t.len() implies site_ok(#[trigger] t[j], s, f, pv, l, o, n) && t[j].0 + 2 <= i + 1 by { if j < r.len() { assert(t[j] == r[j]); } }
    assert forall|a: int, j: int| 0 <= a < j < t.len() implies (#[trigger] t[a]).0 + 2 <= (#[trigger] t[j]).0 by {
        assert(t[a] == r[a]);
        if j < r.len() { assert(t[j] == r[j]); } else { assert(r[a].0 + 2 <= i); assert(s[x.0 as int] is Call); assert(s[r[a].0 + 1] is Ret); }
    }
    assert forall|k: int| 0 <= k < i && tail_pair(#[trigger] s[k], s[k + 1]) implies has_site(t, k) by {
        if k < i - 1 { assert(has_site(r, k)); let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).0 == k; assert(t[j].0 == k); } else { assert(t[r.len() as int].0 == k); }
    }
}
pub proof fn lemma_sites_on(r: Seq<Site>, s: Seq<Instruction>, i: int, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, n: &ProgramMetadata)
    requires sites(r, s, i, f, pv, l, o, n), 0 <= i < s.len(), i == 0 || !tail_pair(s[i - 1], s[i]),
    ensures sites(r, s, i + 1, f, pv, l, o, n),
{
    assert forall|k: int| 0 <= k < i && tail_pair(#[trigger] s[k], s[k + 1]) implies has_site(r, k) by {}
}
/// code without such a place is kept
pub proof fn lemma_between(s: Seq<Instruction>, a: int, b: int, done: Seq<Instruction>, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, n: &ProgramMetadata)
    requires 0 <= a <= b <= s.len(), rewritten(s.skip(b), done, f, pv, l, o, n), forall|k: int| a <= k < b && k + 1 < s.len() ==> !tail_pair(#[trigger] s[k], s[k + 1]),
    ensures rewritten(s.skip(a), s.subrange(a, b) + done, f, pv, l, o, n),
    decreases b - a,
{
    let t = s.subrange(a, b) + done;
    if a == b { assert(t =~= done); } else {
        lemma_between(s, a + 1, b, done, f, pv, l, o, n);
        let u = s.skip(a);
        assert(u[0] == s[a]);
        if u.len() >= 2 { assert(u[1] == s[a + 1]); assert(!tail_pair(s[a], s[a + 1])); }
        assert(u.skip(1) =~= s.skip(a + 1));
        assert(t.skip(1) =~= s.subrange(a + 1, b) + done);
        assert(t[0] == s[a]);
    }
}
/// one more place, from the back
pub proof fn lemma_site(s: Seq<Instruction>, a: int, b: int, u: Seq<Instruction>, done: Seq<Instruction>, f: FunId, pv: Seq<VarId>, l: LabelId, o: &ProgramMetadata, n: &ProgramMetadata)
    requires 0 <= a, a + 2 <= b <= s.len(), rewritten(s.skip(b), done, f, pv, l, o, n), forall|k: int| a + 2 <= k < b && k + 1 < s.len() ==> !tail_pair(#[trigger] s[k], s[k + 1]),
        tail_pair(s[a], s[a + 1]), tail_form(s[a], u, f, pv, l, o, n),
    ensures rewritten(s.skip(a), u + (s.subrange(a + 2, b) + done), f, pv, l, o, n),
{
    lemma_between(s, a + 2, b, done, f, pv, l, o, n);
    let t = u + (s.subrange(a + 2, b) + done);
    let m = new_len(s[a], f);
    let v = s.skip(a);
    assert(v[0] == s[a] && v[1] == s[a + 1]);
    assert(t.take(m) =~= u);
    assert(t.skip(m) =~= s.subrange(a + 2, b) + done);
    assert(v.skip(2) =~= s.skip(a + 2));
}
/// `iter().any(f)`
#[verifier::external_body]
pub fn any_of<T, F: Fn(&T) -> bool>(s: &Vec<T>, f: F) -> (r: bool)
    requires forall|k: int| 0 <= k < s@.len() ==> f.requires((&#[trigger] s@[k],)),
    ensures r ==> exists|k: int| 0 <= k < s@.len() && f.ensures((&#[trigger] s@[k],), true), !r ==> forall|k: int| 0 <= k < s@.len() ==> f.ensures((&#[trigger] s@[k],), false),
{ s.iter().any(f) }
/// `into_iter().rev()`
#[verifier::external_body]
pub fn reversed<T>(s: Vec<T>) -> (r: Vec<T>)
    ensures r@ == s@.reverse(),
{ s.into_iter().rev().collect() }
//@fn src/middle_end/ir.rs ProgramMetadata::new_label
//@ret r
//@spec
    requires old(self).label_id_generator.count() <= u64::MAX,
    ensures *final(self) == (ProgramMetadata { label_id_generator: final(self).label_id_generator, ..*old(self) }), r.idx() == old(self).label_id_generator.count(),
//@end
/// `to_vec()`
#[verifier::external_body]
pub fn to_vec_of(s: &Vec<Src>) -> (r: Vec<Src>)
    ensures r@ == s@,
{ s.to_vec() }
//@fn src/middle_end/middle_end_optimiser/tail_call_optimise.rs tail_call_optimise
//@subst params.to_vec() => to_vec_of(params)
//@attr #[verifier::rlimit(60)]
//@subst fun_instrs.iter().any(|instr| { => any_of(fun_instrs, |instr: &Instruction| -> (r: bool) ensures r == makes_pointer(*instr) {
//@subst let mut new_instrs = Vec::new(); => let mut new_instrs: Vec<Instruction> = Vec::new();
//@subst let mut temp_param_vars = Vec::new(); => let mut temp_param_vars: Vec<VarId> = Vec::new();
//@subst replace_instrs.into_iter().rev() => reversed(replace_instrs)
//@spec
    requires
        callable(old(fun_instrs)@, *this_fun_id, param_var_mappings@, old(prog_metadata)),
        old(prog_metadata).spare(cost(old(fun_instrs)@) + 1), old(prog_metadata).label_id_generator.count() <= u64::MAX, old(prog_metadata).vars_handed_out(),
        cost(old(fun_instrs)@) + old(fun_instrs)@.len() < usize::MAX,
    ensures
        grew(final(prog_metadata), old(prog_metadata)),
        pointers(old(fun_instrs)@) ==> final(fun_instrs)@ == old(fun_instrs)@,
        !pointers(old(fun_instrs)@) ==> final(fun_instrs)@.len() > 0 && final(fun_instrs)@[0] is Label && final(fun_instrs)@[0]->Label_1.idx() == old(prog_metadata).label_id_generator.count()
            && rewritten(old(fun_instrs)@, final(fun_instrs)@.skip(1), *this_fun_id, param_var_mappings@, final(fun_instrs)@[0]->Label_1, old(prog_metadata), final(prog_metadata)),
//@start
    let ghost s0 = fun_instrs@;
    let ghost pm0 = *prog_metadata;
    let ghost o: &ProgramMetadata = &pm0;
    let ghost f = *this_fun_id;
    let ghost pv = param_var_mappings@;
//@before let mut current_call_instr
    proof { assert(!pointers(s0)); lemma_cost(s0, s0.len() as int); }
//@loop 0 before
    let ghost s1 = fun_instrs@;
    let ghost l = start_of_fun_label;
    proof {
        assert(s1 =~= seq![s1[0]] + s0);
        assert(s1.skip(1) =~= s0);
        lemma_cost_front(s0, s1[0]);
        assert forall|k: int| 0 <= k < s1.len() && (#[trigger] s1[k]) is Call && same_fun(s1[k], f) implies args_ok(s1[k]->Call_3@, pv, o) by { assert(s0[k - 1] == s1[k]); }
        assert(s1.take(0).len() == 0);
    }
//@loop 0
        invariant
            fun_instrs@ == s1, s1.len() > 0, *o == pm0, f == *this_fun_id, pv == param_var_mappings@, l == start_of_fun_label, callable(s1, f, pv, o), cost(s1) + s1.len() <= usize::MAX,
            o.spare(cost(s1) + 1),
            grew(&*prog_metadata, o),
            prog_metadata.var_id_generator.count() <= o.var_id_generator.count() + cost(s1.take(if current_call_instr is Some { instr_i - 1 } else { instr_i as int })),
            prog_metadata.instr_id_generator.count() <= o.instr_id_generator.count() + 1 + cost(s1.take(if current_call_instr is Some { instr_i - 1 } else { instr_i as int })),
            match current_call_instr { Some(x) => is_current(x, s1, instr_i as int), None => instr_i == 0 || !(s1[instr_i - 1] is Call) },
            sites(replace_instrs@, s1, instr_i as int, f, pv, l, o, &*prog_metadata),
//@loop 0 start
        let ghost i = instr_i as int;
        let ghost pm1 = *prog_metadata;
        let ghost r1 = replace_instrs@;
        proof { lemma_cost(s1, i); if i > 0 { lemma_cost(s1, i - 1); } lemma_cost(s1, i + 1); }
//@loop 1 before
                                let ghost n = params@.len() as int;
                                let ghost c = s1[i - 1];
                                proof { assert(args_ok(c->Call_3@, pv, o)); }
//@loop 1
                                    invariant
                                        n == params@.len(), params@ == c->Call_3@, args_ok(params@, pv, o), pv == param_var_mappings@, *o == pm0,
                                        grew(&*prog_metadata, o), grew(&*prog_metadata, &pm1), grew(&pm1, o),
                                        prog_metadata.var_id_generator.count() == pm1.var_id_generator.count() + param_i,
                                        prog_metadata.instr_id_generator.count() == pm1.instr_id_generator.count() + param_i,
                                        pm1.var_id_generator.count() + n <= u64::MAX, pm1.instr_id_generator.count() + 2 * n + 1 <= u64::MAX,
                                        new_instrs@.len() == param_i, temp_param_vars@.len() == param_i,
                                        forall|j: int| 0 <= j < param_i ==> (#[trigger] new_instrs@[j])->SimpleAssignment_1 == temp_param_vars@[j] && temp_param_vars@[j].idx() < prog_metadata.var_id_generator.count(),
                                        copies(new_instrs@, params@, param_i as int, pv, o, &*prog_metadata),
//@loop 1 start
                                    let ghost pm2 = *prog_metadata;
                                    let ghost u2 = new_instrs@;
                                    let ghost k = param_i as int;
                                    proof { assert(arg_ok(params@[k], pv[k], o)); }
//@loop 1 end
                                    proof {
                                        let v = temp_param_vars@[k];
                                        assert(new_instrs@[k]->SimpleAssignment_1 == v);
                                        assert(v.idx() == pm2.var_id_generator.count());
                                        assert(is_copy(new_instrs@[k], params@[k], pv[k], o, &*prog_metadata));
                                        assert forall|j: int| 0 <= j < k + 1 implies is_copy(#[trigger] new_instrs@[j], params@[j], pv[j], o, &*prog_metadata) by { if j < k { assert(new_instrs@[j] == u2[j]); assert(is_copy(u2[j], params@[j], pv[j], o, &pm2)); } }
                                        assert forall|a: int, j: int| 0 <= a < j < k + 1 implies (#[trigger] new_instrs@[a])->SimpleAssignment_1 != (#[trigger] new_instrs@[j])->SimpleAssignment_1 by {
                                            assert(new_instrs@[a] == u2[a]);
                                            if j < k { assert(new_instrs@[j] == u2[j]); } else { assert(temp_param_vars@[a].idx() < v.idx()); }
                                        }
                                    }
//@loop 2
                                    invariant
                                        n == params@.len(), params@ == c->Call_3@, args_ok(params@, pv, o), pv == param_var_mappings@, *o == pm0,
                                        grew(&*prog_metadata, o), grew(&*prog_metadata, &pm1),
                                        prog_metadata.var_id_generator.count() == pm1.var_id_generator.count() + n,
                                        prog_metadata.instr_id_generator.count() == pm1.instr_id_generator.count() + n + param_i,
                                        pm1.instr_id_generator.count() + 2 * n + 1 <= u64::MAX,
                                        new_instrs@.len() == n + param_i, temp_param_vars@.len() == n,
                                        forall|j: int| 0 <= j < n ==> (#[trigger] new_instrs@[j])->SimpleAssignment_1 == temp_param_vars@[j],
                                        copies(new_instrs@, params@, n, pv, o, &*prog_metadata), stores(new_instrs@, n, param_i as int, pv),
//@loop 2 start
                                    let ghost u2 = new_instrs@;
                                    let ghost k = param_i as int;
//@loop 2 end
                                    proof {
                                        assert(forall|j: int| 0 <= j < u2.len() ==> #[trigger] new_instrs@[j] == u2[j]);
                                        assert forall|j: int| 0 <= j < k + 1 implies is_store(#[trigger] new_instrs@[n + j], new_instrs@[j], pv[j]) by { if j < k { assert(is_store(u2[n + j], u2[j], pv[j])); } }
                                    }
//@before replace_instrs.push((
                            proof {
                                assert(tail_form(s1[i - 1], new_instrs@, f, pv, l, o, &*prog_metadata));
                                lemma_sites_kept(r1, s1, i, f, pv, l, o, &pm1, &*prog_metadata);
                            }
//@loop 0 end
        proof {
            if replace_instrs@.len() > r1.len() {
                let x = replace_instrs@.last();
                assert(replace_instrs@ == r1.push(x));
                assert(site_ok(x, s1, f, pv, l, o, &*prog_metadata));
                lemma_sites_push(r1, x, s1, i, f, pv, l, o, &*prog_metadata);
            } else {
                assert(*prog_metadata == pm1);
                assert(replace_instrs@ == r1);
                assert(i == 0 || !tail_pair(s1[i - 1], s1[i]));
                lemma_sites_on(r1, s1, i, f, pv, l, o, &*prog_metadata);
            }
        }
//@loop 3 before
    let ghost r = replace_instrs@;
    let ghost mut b = s1.len() as int;
    let ghost mut done = Seq::<Instruction>::empty();
    let ghost pm = *prog_metadata;
    let ghost q: &ProgramMetadata = &pm;
    proof { assert(s1.take(b) + done =~= s1); assert(s1.skip(b).len() == 0); }
//@iter 3 it
//@loop 3
        invariant
            it.seq() == r.reverse(), sites(r, s1, s1.len() as int, f, pv, l, o, q), pm == *prog_metadata, *q == pm, cost(s1) + s1.len() <= usize::MAX,
            0 <= b <= s1.len(), fun_instrs@ == s1.take(b) + done, rewritten(s1.skip(b), done, f, pv, l, o, q),
            b == (if it.index@ == 0 { s1.len() as int } else { r[r.len() - it.index@].0 as int }),
//@loop 3 start
        let ghost j = r.len() - 1 - it.index@;
        let ghost x = r[j];
        let ghost a = x.0 as int;
        let ghost f1 = fun_instrs@;
        let ghost b1 = b;
        let ghost done1 = done;
        proof {
            assert(r.reverse()[it.index@ as int] == x);
            assert(site_ok(x, s1, f, pv, l, o, q));
            assert(new_instrs == x.2);
            if it.index@ > 0 { assert(r[j].0 + 2 <= r[j + 1].0); }
            lemma_cost(s1, a);
            lemma_cost(s1, a + 1);
            assert forall|k: int| a + 2 <= k < b1 && k + 1 < s1.len() implies !tail_pair(#[trigger] s1[k], s1[k + 1]) by {
                if tail_pair(s1[k], s1[k + 1]) {
                    assert(has_site(r, k));
                    let m = choose|m: int| 0 <= m < r.len() && (#[trigger] r[m]).0 == k;
                    if m < j { assert(r[m].0 + 2 <= r[j].0); } else if m > j { if m > j + 1 { assert(r[j + 1].0 + 2 <= r[m].0); } }
                }
            }
        }
//@iter 4 it4
//@loop 4
            invariant
                remove_count == 2, replace_index == a, 0 <= a, a + 2 <= f1.len(),
                fun_instrs@ == f1.take(a) + f1.skip(a + it4.index@),
//@loop 4 start
            let ghost g1 = fun_instrs@;
            let ghost k4 = it4.index@;
//@loop 4 end
            proof { assert(fun_instrs@ =~= f1.take(a) + f1.skip(a + k4 + 1)); }
//@before let mut i = replace_index
        let ghost f2 = fun_instrs@;
        proof { assert(f2 == f1.take(a) + f1.skip(a + 2)); }
//@iter 5 it5
//@loop 5
            invariant
                it5.seq() == x.2@, 0 <= a <= f2.len(), i == a + it5.index@, a + x.2@.len() <= usize::MAX,
                fun_instrs@ == f2.take(a) + (x.2@.take(it5.index@ as int) + f2.skip(a)),
//@loop 5 before
        proof { assert(f2.take(a) + (x.2@.take(0) + f2.skip(a)) =~= f2); }
//@loop 5 start
            let ghost k5 = it5.index@ as int;
            let ghost g1 = fun_instrs@;
//@loop 5 end
            proof {
                assert(x.2@.take(k5 + 1) =~= x.2@.take(k5).push(x.2@[k5]));
                assert(fun_instrs@ =~= f2.take(a) + (x.2@.take(k5 + 1) + f2.skip(a)));
            }
//@loop 3 end
        proof {
            assert(x.2@.take(x.2@.len() as int) =~= x.2@);
            lemma_site(s1, a, b1, x.2@, done1, f, pv, l, o, q);
            done = x.2@ + (s1.subrange(a + 2, b1) + done1);
            b = a;
            assert(f1.take(a) =~= s1.take(a));
            assert(f1.skip(a + 2) =~= s1.subrange(a + 2, b1) + done1);
            assert(f2.take(a) =~= s1.take(a));
            assert(f2.skip(a) =~= f1.skip(a + 2));
            assert(fun_instrs@ =~= s1.take(a) + done);
        }
//@loop 3 after
    proof {
        assert forall|k: int| 0 <= k < b && k + 1 < s1.len() implies !tail_pair(#[trigger] s1[k], s1[k + 1]) by {
            if tail_pair(s1[k], s1[k + 1]) {
                assert(has_site(r, k));
                let m = choose|m: int| 0 <= m < r.len() && (#[trigger] r[m]).0 == k;
                if m > 0 { assert(r[0].0 + 2 <= r[m].0); }
            }
        }
        lemma_between(s1, 0, b, done, f, pv, l, o, q);
        assert(s1.skip(0) =~= s1);
        assert(s1.subrange(0, b) =~= s1.take(b));
        assert(s1.skip(1) =~= s0);
    }
//@end
