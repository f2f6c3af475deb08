//@include lib_std.inc
//@include lib_sets.inc
//@include fn_ids.inc
//@include fn_idgen.inc
//@include types_ir.inc
//@fn src/middle_end/ir.rs ProgramMetadata::new_instr_id
//@spec
    requires old(self).instr_id_generator.count() <= u64::MAX,
    ensures only_ids(*old(self), *final(self)),
//@end
/// everything but the identifiers of instructions
pub open spec fn only_ids(a: ProgramMetadata, b: ProgramMetadata) -> bool { b == (ProgramMetadata { instr_id_generator: b.instr_id_generator, ..a }) }
pub type EnumConstant = i32;
//@type src/middle_end/context.rs LoopContext
//@type src/middle_end/context.rs SwitchContext
//@type src/middle_end/context.rs LoopOrSwitchContext
//@type src/middle_end/context.rs Scope
//@type src/middle_end/context.rs Context
//@type src/middle_end/context.rs IdentifierResolveResult

/// names are their texts
pub uninterp spec fn name_of(s: Seq<char>) -> String;
pub broadcast axiom fn names(s: Seq<char>) ensures (#[trigger] name_of(s))@ == s;
pub broadcast axiom fn own_name(n: String) ensures #[trigger] name_of(n@) == n;
pub broadcast axiom fn same_name(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub broadcast axiom fn has_name<V>(m: Map<String, V>, k: &str) ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k) == m.contains_key(name_of(k@));
pub broadcast axiom fn maps_name<V>(m: Map<String, V>, k: &str, v: V) ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v) == (m.contains_key(name_of(k@)) && m[name_of(k@)] == v);
broadcast use names;
broadcast use own_name;
broadcast use same_name;
broadcast use has_name;
broadcast use maps_name;
#[verifier::external_body]
pub fn text(s: &str) -> (r: String) ensures r@ == s@, r == name_of(s@) { s.to_owned() }
/// `contains` of a list of names
#[verifier::external_body]
pub fn lists(v: &Vec<String>, n: &String) -> (r: bool) ensures r == v@.contains(*n) { v.contains(n) }

pub open spec fn at<V>(m: Map<String, V>, n: String) -> Option<V> { if m.contains_key(n) { Some(m[n]) } else { None } }
/// what an ordinary identifier means in one scope
pub enum Ordinary { Var(VarId), Enum(EnumConstant) }
impl Scope {
    pub open spec fn ordinary(&self, n: String) -> Option<Ordinary> {
        if self.variable_names@.contains_key(n) { Some(Ordinary::Var(self.variable_names@[n])) }
        else if self.enum_constants@.contains_key(n) { Some(Ordinary::Enum(self.enum_constants@[n])) }
        else { None }
    }
    pub open spec fn typedef(&self, n: String) -> Option<IrType> { at(self.typedef_types@, n) }
    pub open spec fn struct_tag(&self, n: String) -> Option<StructId> { at(self.struct_tags@, n) }
    pub open spec fn union_tag(&self, n: String) -> Option<UnionId> { at(self.union_tags@, n) }
    pub open spec fn enum_tag(&self, n: String) -> Option<()> { if self.enum_tags@.contains(n) { Some(()) } else { None } }
    pub open spec fn empty(&self) -> bool {
        self.variable_names@ == Map::<String, VarId>::empty() && self.typedef_types@ == Map::<String, IrType>::empty() && self.enum_constants@ == Map::<String, EnumConstant>::empty()
        && self.enum_tags@.len() == 0 && self.struct_tags@ == Map::<String, StructId>::empty() && self.union_tags@ == Map::<String, UnionId>::empty()
    }
}
/// the meaning the innermost scope that has one gives
pub open spec fn innermost<V>(scopes: Seq<Scope>, f: spec_fn(Scope) -> Option<V>) -> Option<V> decreases scopes.len() {
    if scopes.len() == 0 { None } else { match f(scopes.last()) { Some(v) => Some(v), None => innermost(scopes.drop_last(), f) } }
}
pub proof fn lemma_up<V>(scopes: Seq<Scope>, i: int, f: spec_fn(Scope) -> Option<V>)
    requires 0 <= i < scopes.len(),
    ensures innermost(scopes.take(i + 1), f) == (match f(scopes[i]) { Some(v) => Some(v), None => innermost(scopes.take(i), f) }), scopes.take(scopes.len() as int) == scopes,
{ assert(scopes.take(i + 1).drop_last() =~= scopes.take(i)); assert(scopes.take(scopes.len() as int) =~= scopes); }
pub open spec fn ordinary_of(n: String) -> spec_fn(Scope) -> Option<Ordinary> { |s: Scope| s.ordinary(n) }
pub open spec fn typedef_of(n: String) -> spec_fn(Scope) -> Option<IrType> { |s: Scope| s.typedef(n) }
pub open spec fn struct_of(n: String) -> spec_fn(Scope) -> Option<StructId> { |s: Scope| s.struct_tag(n) }
pub open spec fn union_of(n: String) -> spec_fn(Scope) -> Option<UnionId> { |s: Scope| s.union_tag(n) }
pub open spec fn enum_of(n: String) -> spec_fn(Scope) -> Option<()> { |s: Scope| s.enum_tag(n) }
/// a declaration hides the outer ones of its name, and nothing else
pub proof fn lemma_hides(scopes: Seq<Scope>, s: Scope, n: String)
    ensures innermost(scopes.push(s), ordinary_of(n)) == (match s.ordinary(n) { Some(v) => Some(v), None => innermost(scopes, ordinary_of(n)) }),
        s.empty() ==> innermost(scopes.push(s), ordinary_of(n)) == innermost(scopes, ordinary_of(n)),
        s.empty() ==> innermost(scopes.push(s), typedef_of(n)) == innermost(scopes, typedef_of(n)),
        s.empty() ==> innermost(scopes.push(s), struct_of(n)) == innermost(scopes, struct_of(n)),
        s.empty() ==> innermost(scopes.push(s), union_of(n)) == innermost(scopes, union_of(n)),
        s.empty() ==> innermost(scopes.push(s), enum_of(n)) == innermost(scopes, enum_of(n)),
{ assert(scopes.push(s).drop_last() =~= scopes); }
/// everything but the scopes
pub open spec fn only_scopes(a: Context, b: Context) -> bool { a.loop_stack == b.loop_stack && a.function_names == b.function_names && a.in_function_name_expr == b.in_function_name_expr && a.directly_on_lhs_of_assignment == b.directly_on_lhs_of_assignment && a.statement_depth == b.statement_depth }
/// everything but the loops and switches
pub open spec fn only_loops(a: Context, b: Context) -> bool { a.scope_stack == b.scope_stack && a.function_names == b.function_names && a.in_function_name_expr == b.in_function_name_expr && a.directly_on_lhs_of_assignment == b.directly_on_lhs_of_assignment && a.statement_depth == b.statement_depth }
/// one scope changed, the innermost
pub open spec fn top_changed(a: Context, b: Context) -> bool { only_scopes(a, b) && a.scope_stack@.len() == b.scope_stack@.len() && a.scope_stack@.len() > 0 && a.scope_stack@.drop_last() =~= b.scope_stack@.drop_last() }

/// the innermost loop, and the innermost switch
pub open spec fn inner_loop(s: Seq<LoopOrSwitchContext>) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if s.last() is Loop { Some(s.len() - 1) } else { inner_loop(s.drop_last()) }
}
pub open spec fn inner_switch(s: Seq<LoopOrSwitchContext>) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if s.last() is Switch { Some(s.len() - 1) } else { inner_switch(s.drop_last()) }
}
pub proof fn lemma_inner(s: Seq<LoopOrSwitchContext>, i: int)
    requires 0 <= i < s.len(),
    ensures inner_loop(s.take(i + 1)) == (if s[i] is Loop { Some(i) } else { inner_loop(s.take(i)) }),
        inner_switch(s.take(i + 1)) == (if s[i] is Switch { Some(i) } else { inner_switch(s.take(i)) }),
        s.take(s.len() as int) == s, inner_loop(s.take(0)) is None, inner_switch(s.take(0)) is None,
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_inner_sound(s: Seq<LoopOrSwitchContext>)
    ensures match inner_loop(s) { Some(i) => 0 <= i < s.len() && s[i] is Loop && forall|j: int| i < j < s.len() ==> #[trigger] s[j] is Switch, None => forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] is Switch },
        match inner_switch(s) { Some(i) => 0 <= i < s.len() && s[i] is Switch && forall|j: int| i < j < s.len() ==> #[trigger] s[j] is Loop, None => forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] is Loop },
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_inner_sound(d);
        assert(forall|j: int| 0 <= j < d.len() ==> #[trigger] s[j] == d[j]);
        assert(s[s.len() - 1] == s.last());
    }
}
pub open spec fn same_loops(a: Context, b: Context) -> bool { only_loops(a, b) && a.loop_stack@ =~= b.loop_stack@ }
/// the switch context at i, replaced
pub open spec fn with_switch(a: Context, b: Context, i: int, s: SwitchContext) -> bool { only_loops(a, b) && b.loop_stack@ =~= a.loop_stack@.update(i, LoopOrSwitchContext::Switch(s)) }

//@fn src/middle_end/context.rs Scope::new
//@ret r
//@spec
    ensures r.empty(),
//@end
//@fn src/middle_end/context.rs Scope::add_var
//@ret r
//@spec
    ensures r is Ok, final(self).variable_names@ == old(self).variable_names@.insert(identifier_name, var), *final(self) == (Scope { variable_names: final(self).variable_names, variable_types: final(self).variable_types, ..*old(self) }),
//@end
//@fn src/middle_end/context.rs Scope::resolve_identifier_to_var
//@ret r
//@subst .map(|var| var.to_owned()) => .map(|var: &VarId| -> (v: VarId) ensures v == *var { var.to_owned() })
//@spec
    ensures r == at(self.variable_names@, name_of(identifier_name@)),
//@end
//@fn src/middle_end/context.rs Scope::add_typedef
//@ret r
//@spec
    ensures r is Ok, final(self).typedef_types@ == old(self).typedef_types@.insert(typedef_name, type_info), *final(self) == (Scope { typedef_types: final(self).typedef_types, ..*old(self) }),
//@end
//@fn src/middle_end/context.rs Scope::resolve_identifier_to_type
//@ret r
//@subst .map(|t| t.to_owned()) => .map(|t: &IrType| -> (v: IrType) ensures v == *t { t.to_owned() })
//@spec
    ensures r == self.typedef(name_of(typedef_name@)),
//@end
//@fn src/middle_end/context.rs Scope::add_enum_constant
//@ret r
//@spec
    ensures if old(self).enum_constants@.contains_key(name) { r is Err && *final(self) == *old(self) }
        else { r is Ok && final(self).enum_constants@ == old(self).enum_constants@.insert(name, value) && *final(self) == (Scope { enum_constants: final(self).enum_constants, ..*old(self) }) },
//@end
//@fn src/middle_end/context.rs Scope::add_enum_tag
//@ret r
//@subst self.enum_tags.contains(&name) => lists(&self.enum_tags, &name)
//@spec
    ensures if old(self).enum_tags@.contains(name) { r is Err && *final(self) == *old(self) }
        else { r is Ok && final(self).enum_tags@ == old(self).enum_tags@.push(name) && *final(self) == (Scope { enum_tags: final(self).enum_tags, ..*old(self) }) },
//@end
//@fn src/middle_end/context.rs Scope::resolve_identifier_to_enum_constant
//@ret r
//@subst .map(|c| c.to_owned()) => .map(|c: &EnumConstant| -> (v: EnumConstant) ensures v == *c { c.to_owned() })
//@spec
    ensures r == at(self.enum_constants@, name_of(identifier_name@)),
//@end
//@fn src/middle_end/context.rs Scope::resolve_identifier_to_enum_tag
//@ret r
//@subst self.enum_tags.contains(&identifier_name.to_owned()) => lists(&self.enum_tags, &text(identifier_name))
//@spec
    ensures r == (self.enum_tag(name_of(identifier_name@)) is Some),
//@end
//@fn src/middle_end/context.rs Scope::add_struct_tag
//@ret r
//@spec
    ensures if old(self).struct_tags@.contains_key(name) { r is Err && *final(self) == *old(self) }
        else { r is Ok && final(self).struct_tags@ == old(self).struct_tags@.insert(name, struct_id) && *final(self) == (Scope { struct_tags: final(self).struct_tags, ..*old(self) }) },
//@end
//@fn src/middle_end/context.rs Scope::resolve_struct_tag_to_struct_id
//@ret r
//@subst identifier_name.to_owned() => text(identifier_name)
//@spec
    ensures match r { Ok(v) => self.struct_tag(name_of(identifier_name@)) == Some(v), Err(_) => self.struct_tag(name_of(identifier_name@)) is None },
//@end
//@fn src/middle_end/context.rs Scope::add_union_tag
//@ret r
//@spec
    ensures if old(self).union_tags@.contains_key(name) { r is Err && *final(self) == *old(self) }
        else { r is Ok && final(self).union_tags@ == old(self).union_tags@.insert(name, union_id) && *final(self) == (Scope { union_tags: final(self).union_tags, ..*old(self) }) },
//@end
//@fn src/middle_end/context.rs Scope::resolve_union_tag_to_union_id
//@ret r
//@subst identifier_name.to_owned() => text(identifier_name)
//@spec
    ensures match r { Ok(v) => self.union_tag(name_of(identifier_name@)) == Some(v), Err(_) => self.union_tag(name_of(identifier_name@)) is None },
//@end
//@fn src/middle_end/context.rs LoopContext::while_loop
//@ret r
//@spec
    ensures r.end_label == end_label, r.continue_label == start_label, r.start_label == start_label,
//@end
//@fn src/middle_end/context.rs LoopContext::do_while_loop
//@ret r
//@spec
    ensures r.end_label == end_label, r.continue_label == continue_label, r.start_label == start_label,
//@end
//@fn src/middle_end/context.rs LoopContext::for_loop
//@ret r
//@spec
    ensures r.end_label == end_label, r.continue_label == continue_label, r.start_label == start_label,
//@end
//@fn src/middle_end/context.rs SwitchContext::new
//@ret r
//@spec
    ensures r.end_label == end_label, r.switch_var == switch_var, r.case_condition_instrs@.len() == 0, r.case_blocks@.len() == 0, r.default_block_label is None,
//@end
//@fn src/middle_end/context.rs SwitchContext::push_instrs_to_last_case_block
//@ret r
//@spec
    ensures if old(self).case_blocks@.len() == 0 { r is Err && final(self).case_blocks@ == old(self).case_blocks@ && *final(self) == (SwitchContext { case_blocks: final(self).case_blocks, ..*old(self) }) }
        else { r is Ok && final(self).case_blocks@.len() == old(self).case_blocks@.len() && final(self).case_blocks@.drop_last() =~= old(self).case_blocks@.drop_last()
            && final(self).case_blocks@.last()@ =~= old(self).case_blocks@.last()@ + instrs@ && *final(self) == (SwitchContext { case_blocks: final(self).case_blocks, ..*old(self) }) },
//@end
//@fn src/middle_end/context.rs SwitchContext::add_default_block_label
//@ret r
//@spec
    ensures if old(self).default_block_label is Some { r is Err && *final(self) == *old(self) }
        else { r is Ok && *final(self) == (SwitchContext { default_block_label: Some(label), ..*old(self) }) },
//@end
//@fn src/middle_end/context.rs Context::new
//@ret r
//@spec
    ensures r.loop_stack@.len() == 0, r.scope_stack@.len() == 1, r.scope_stack@[0].empty(), r.function_names@ == Map::<String, FunId>::empty(), r.statement_depth == 0,
//@end
//@fn src/middle_end/context.rs Context::push_loop
//@spec
    ensures only_loops(*old(self), *final(self)), final(self).loop_stack@ == old(self).loop_stack@.push(LoopOrSwitchContext::Loop(loop_context)),
//@end
//@fn src/middle_end/context.rs Context::pop_loop
//@spec
    ensures only_loops(*old(self), *final(self)), final(self).loop_stack@ == (if old(self).loop_stack@.len() > 0 { old(self).loop_stack@.drop_last() } else { old(self).loop_stack@ }),
//@end
//@fn src/middle_end/context.rs Context::push_switch
//@spec
    ensures only_loops(*old(self), *final(self)), final(self).loop_stack@ == old(self).loop_stack@.push(LoopOrSwitchContext::Switch(switch_context)),
//@end
//@fn src/middle_end/context.rs Context::pop_switch
//@ret r
//@spec
    ensures only_loops(*old(self), *final(self)), match r { Ok(s) => old(self).loop_stack@.len() > 0 && old(self).loop_stack@.last() == LoopOrSwitchContext::Switch(s) && final(self).loop_stack@ == old(self).loop_stack@.drop_last(), Err(_) => old(self).loop_stack@.len() == 0 || old(self).loop_stack@.last() is Loop },
//@end
//@fn src/middle_end/context.rs Context::get_break_label
//@ret r
//@spec
    ensures match r {
            Some(l) => self.loop_stack@.len() > 0 && *l == (match self.loop_stack@.last() { LoopOrSwitchContext::Loop(c) => c.end_label, LoopOrSwitchContext::Switch(c) => c.end_label }),
            None => self.loop_stack@.len() == 0,
        },
//@end
//@fn src/middle_end/context.rs Context::get_continue_label
//@ret r
//@nloops 1
//@spec
    ensures match r { Some(l) => inner_loop(self.loop_stack@) is Some && *l == self.loop_stack@[inner_loop(self.loop_stack@)->0]->Loop_0.continue_label, None => inner_loop(self.loop_stack@) is None },
//@start
    proof { lemma_inner_sound(self.loop_stack@); if self.loop_stack@.len() == 0 { assert(inner_loop(self.loop_stack@) is None && inner_switch(self.loop_stack@) is None); } }
//@loop 0
    invariant true, 0 <= i < self.loop_stack@.len(), inner_loop(self.loop_stack@) == inner_loop(self.loop_stack@.take(i + 1)),
    decreases i,
//@loop 0 start
            proof { lemma_inner(self.loop_stack@, i as int); }
//@loop 0 before
        proof { lemma_inner(self.loop_stack@, i as int); }
//@end
//@fn src/middle_end/context.rs Context::is_in_switch_context
//@ret r
//@nloops 1
//@spec
    ensures r == (inner_switch(self.loop_stack@) is Some),
//@loop 0
    invariant true, 0 <= i < self.loop_stack@.len(), inner_switch(self.loop_stack@) == inner_switch(self.loop_stack@.take(i + 1)),
    decreases i,
//@loop 0 start
            proof { lemma_inner(self.loop_stack@, i as int); }
//@loop 0 before
        proof { lemma_inner(self.loop_stack@, i as int); }
//@end
//@fn src/middle_end/context.rs Context::is_directly_in_switch_context
//@ret r
//@spec
    ensures r == (self.statement_depth == 0 && inner_switch(self.loop_stack@) is Some),
//@end
//@fn src/middle_end/context.rs Context::get_switch_variable
//@ret r
//@nloops 1
//@spec
    ensures match r { Some(v) => inner_switch(self.loop_stack@) is Some && v == self.loop_stack@[inner_switch(self.loop_stack@)->0]->Switch_0.switch_var, None => inner_switch(self.loop_stack@) is None },
//@start
    proof { lemma_inner_sound(self.loop_stack@); if self.loop_stack@.len() == 0 { assert(inner_loop(self.loop_stack@) is None && inner_switch(self.loop_stack@) is None); } }
//@loop 0
    invariant true, 0 <= i < self.loop_stack@.len(), inner_switch(self.loop_stack@) == inner_switch(self.loop_stack@.take(i + 1)),
    decreases i,
//@loop 0 start
            proof { lemma_inner(self.loop_stack@, i as int); }
//@loop 0 before
        proof { lemma_inner(self.loop_stack@, i as int); }
//@end
//@fn src/middle_end/context.rs Context::new_switch_case_block
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@nloops 1
//@spec
    requires old(prog_metadata).instr_id_generator.count() <= u64::MAX,
    ensures only_ids(*old(prog_metadata), *final(prog_metadata)), match inner_switch(old(self).loop_stack@) {
            None => r is Err && same_loops(*old(self), *final(self)),
            Some(i) => ({
                let s = old(self).loop_stack@[i]->Switch_0;
                match r {
                    Ok(_) => final(self).loop_stack@.len() == old(self).loop_stack@.len() && final(self).loop_stack@[i] is Switch && ({
                        let t = final(self).loop_stack@[i]->Switch_0;
                        with_switch(*old(self), *final(self), i, t) && t == (SwitchContext { case_blocks: t.case_blocks, case_condition_instrs: t.case_condition_instrs, ..s }) && t.case_condition_instrs@ =~= s.case_condition_instrs@ + case_condition_instrs@ && t.case_blocks@.len() == s.case_blocks@.len() + 1 && t.case_blocks@.drop_last() =~= s.case_blocks@ && t.case_blocks@.last()@.len() == 1 && t.case_blocks@.last()@[0] is Label && t.case_blocks@.last()@[0]->Label_1 == case_body_label
                    }),
                    Err(_) => same_loops(*old(self), *final(self)) && false,
                }
            }),
        },
//@start
    proof { lemma_inner_sound(self.loop_stack@); if self.loop_stack@.len() == 0 { assert(inner_loop(self.loop_stack@) is None && inner_switch(self.loop_stack@) is None); } }
//@loop 0
    invariant same_loops(*old(self), *self), 0 <= i < self.loop_stack@.len(), inner_switch(self.loop_stack@) == inner_switch(self.loop_stack@.take(i + 1)),
        old(prog_metadata).instr_id_generator.count() <= u64::MAX, *prog_metadata == *old(prog_metadata), case_condition_instrs == old_instrs,
    decreases i,
//@loop 0 start
            let ghost was = self.loop_stack@;
            proof { lemma_inner(self.loop_stack@, i as int); }
//@loop 0 before
        let ghost old_instrs = case_condition_instrs;
        proof { lemma_inner(self.loop_stack@, i as int); }
//@before if i == 0
            proof { assert(self.loop_stack@ =~= was); }
//@end
//@fn src/middle_end/context.rs Context::push_instrs_to_switch_case_block
//@ret r
//@nloops 1
//@spec
    ensures match inner_switch(old(self).loop_stack@) {
            None => r is Err && same_loops(*old(self), *final(self)),
            Some(i) => ({
                let s = old(self).loop_stack@[i]->Switch_0;
                match r {
                    Ok(_) => final(self).loop_stack@.len() == old(self).loop_stack@.len() && final(self).loop_stack@[i] is Switch && ({
                        let t = final(self).loop_stack@[i]->Switch_0;
                        with_switch(*old(self), *final(self), i, t) && s.case_blocks@.len() > 0 && t == (SwitchContext { case_blocks: t.case_blocks, ..s }) && t.case_blocks@.len() == s.case_blocks@.len() && t.case_blocks@.drop_last() =~= s.case_blocks@.drop_last() && t.case_blocks@.last()@ == s.case_blocks@.last()@ + instrs@
                    }),
                    Err(_) => s.case_blocks@.len() == 0,
                }
            }),
        },
//@start
    proof { lemma_inner_sound(self.loop_stack@); if self.loop_stack@.len() == 0 { assert(inner_loop(self.loop_stack@) is None && inner_switch(self.loop_stack@) is None); } }
//@loop 0
    invariant same_loops(*old(self), *self), 0 <= i < self.loop_stack@.len(), inner_switch(self.loop_stack@) == inner_switch(self.loop_stack@.take(i + 1)),
    decreases i,
//@loop 0 start
            let ghost was = self.loop_stack@;
            proof { lemma_inner(self.loop_stack@, i as int); }
//@loop 0 before
        proof { lemma_inner(self.loop_stack@, i as int); }
//@before if i == 0
            proof { assert(self.loop_stack@ =~= was); }
//@end
//@fn src/middle_end/context.rs Context::add_default_switch_block_label
//@ret r
//@nloops 1
//@spec
    ensures match inner_switch(old(self).loop_stack@) {
            None => r is Err && same_loops(*old(self), *final(self)),
            Some(i) => ({
                let s = old(self).loop_stack@[i]->Switch_0;
                match r {
                    Ok(_) => final(self).loop_stack@.len() == old(self).loop_stack@.len() && final(self).loop_stack@[i] is Switch && ({
                        let t = final(self).loop_stack@[i]->Switch_0;
                        with_switch(*old(self), *final(self), i, t) && s.default_block_label is None && t == (SwitchContext { default_block_label: Some(label), ..s })
                    }),
                    Err(_) => same_loops(*old(self), *final(self)) && s.default_block_label is Some,
                }
            }),
        },
//@start
    proof { lemma_inner_sound(self.loop_stack@); if self.loop_stack@.len() == 0 { assert(inner_loop(self.loop_stack@) is None && inner_switch(self.loop_stack@) is None); } }
//@loop 0
    invariant same_loops(*old(self), *self), 0 <= i < self.loop_stack@.len(), inner_switch(self.loop_stack@) == inner_switch(self.loop_stack@.take(i + 1)),
    decreases i,
//@loop 0 start
            let ghost was = self.loop_stack@;
            proof { lemma_inner(self.loop_stack@, i as int); }
//@loop 0 before
        proof { lemma_inner(self.loop_stack@, i as int); }
//@before if i == 0
            proof { assert(self.loop_stack@ =~= was); }
//@end
//@fn src/middle_end/context.rs Context::push_scope
//@spec
    ensures only_scopes(*old(self), *final(self)), final(self).scope_stack@.len() == old(self).scope_stack@.len() + 1, final(self).scope_stack@.drop_last() == old(self).scope_stack@, final(self).scope_stack@.last().empty(),
//@end
//@fn src/middle_end/context.rs Context::pop_scope
//@spec
    ensures only_scopes(*old(self), *final(self)), final(self).scope_stack@ == (if old(self).scope_stack@.len() > 0 { old(self).scope_stack@.drop_last() } else { old(self).scope_stack@ }),
//@end
//@fn src/middle_end/context.rs Context::add_variable_to_scope
//@ret r
//@spec
    requires old(self).scope_stack@.len() > 0,
    ensures top_changed(*old(self), *final(self)), ({ let s = old(self).scope_stack@.last(); let t = final(self).scope_stack@.last();
        if false { r is Err && t == s } else { r is Ok && t.variable_names@ == s.variable_names@.insert(name, var) && t == (Scope { variable_names: t.variable_names, variable_types: t.variable_types, ..s }) } }),
//@end
//@fn src/middle_end/context.rs Context::add_enum_constant
//@ret r
//@spec
    requires old(self).scope_stack@.len() > 0,
    ensures top_changed(*old(self), *final(self)), ({ let s = old(self).scope_stack@.last(); let t = final(self).scope_stack@.last();
        if s.enum_constants@.contains_key(name) { r is Err && t == s } else { r is Ok && t.enum_constants@ == s.enum_constants@.insert(name, value) && t == (Scope { enum_constants: t.enum_constants, ..s }) } }),
//@end
//@fn src/middle_end/context.rs Context::add_enum_tag
//@ret r
//@spec
    requires old(self).scope_stack@.len() > 0,
    ensures top_changed(*old(self), *final(self)), ({ let s = old(self).scope_stack@.last(); let t = final(self).scope_stack@.last();
        if s.enum_tags@.contains(name) { r is Err && t == s } else { r is Ok && t.enum_tags@ == s.enum_tags@.push(name) && t == (Scope { enum_tags: t.enum_tags, ..s }) } }),
//@end
//@fn src/middle_end/context.rs Context::add_struct_tag
//@ret r
//@spec
    requires old(self).scope_stack@.len() > 0,
    ensures top_changed(*old(self), *final(self)), ({ let s = old(self).scope_stack@.last(); let t = final(self).scope_stack@.last();
        if s.struct_tags@.contains_key(name) { r is Err && t == s } else { r is Ok && t.struct_tags@ == s.struct_tags@.insert(name, struct_id) && t == (Scope { struct_tags: t.struct_tags, ..s }) } }),
//@end
//@fn src/middle_end/context.rs Context::add_union_tag
//@ret r
//@spec
    requires old(self).scope_stack@.len() > 0,
    ensures top_changed(*old(self), *final(self)), ({ let s = old(self).scope_stack@.last(); let t = final(self).scope_stack@.last();
        if s.union_tags@.contains_key(name) { r is Err && t == s } else { r is Ok && t.union_tags@ == s.union_tags@.insert(name, union_id) && t == (Scope { union_tags: t.union_tags, ..s }) } }),
//@end
//@fn src/middle_end/context.rs Context::add_typedef
//@ret r
//@spec
    requires old(self).scope_stack@.len() > 0,
    ensures top_changed(*old(self), *final(self)), ({ let s = old(self).scope_stack@.last(); let t = final(self).scope_stack@.last();
        if innermost(old(self).scope_stack@, typedef_of(typedef_name)) is Some && innermost(old(self).scope_stack@, typedef_of(typedef_name)) != Some(type_info) { r is Err && t == s } else { r is Ok && t.typedef_types@ == s.typedef_types@.insert(typedef_name, type_info) && t == (Scope { typedef_types: t.typedef_types, ..s }) } }),
//@end
//@fn src/middle_end/context.rs Context::resolve_identifier_to_var_or_const
//@ret r
//@nloops 1
//@subst identifier_name.to_owned() => text(identifier_name)
//@spec
    requires self.scope_stack@.len() > 0,
    ensures match r { Ok(v) => innermost(self.scope_stack@, ordinary_of(name_of(identifier_name@))) == Some((match v { IdentifierResolveResult::Var(x) => Ordinary::Var(x), IdentifierResolveResult::EnumConst(c) => Ordinary::Enum(c) })), Err(_) => innermost(self.scope_stack@, ordinary_of(name_of(identifier_name@))) is None },
//@loop 0
    invariant 0 <= i < self.scope_stack@.len(), innermost(self.scope_stack@, ordinary_of(name_of(identifier_name@))) == innermost(self.scope_stack@.take(i + 1), ordinary_of(name_of(identifier_name@))),
    decreases i,
//@loop 0 start
            proof { lemma_up(self.scope_stack@, i as int, ordinary_of(name_of(identifier_name@))); assert(self.scope_stack@.take(0) =~= Seq::<Scope>::empty()); }
//@loop 0 before
        proof { lemma_up(self.scope_stack@, i as int, ordinary_of(name_of(identifier_name@))); }
//@end
//@fn src/middle_end/context.rs Context::resolve_identifier_to_enum_tag
//@ret r
//@nloops 1
//@subst identifier_name.to_owned() => text(identifier_name)
//@spec
    requires self.scope_stack@.len() > 0,
    ensures match r { Ok(v) => innermost(self.scope_stack@, enum_of(name_of(identifier_name@))) == Some(v), Err(_) => innermost(self.scope_stack@, enum_of(name_of(identifier_name@))) is None },
//@loop 0
    invariant 0 <= i < self.scope_stack@.len(), innermost(self.scope_stack@, enum_of(name_of(identifier_name@))) == innermost(self.scope_stack@.take(i + 1), enum_of(name_of(identifier_name@))),
    decreases i,
//@loop 0 start
            proof { lemma_up(self.scope_stack@, i as int, enum_of(name_of(identifier_name@))); assert(self.scope_stack@.take(0) =~= Seq::<Scope>::empty()); }
//@loop 0 before
        proof { lemma_up(self.scope_stack@, i as int, enum_of(name_of(identifier_name@))); }
//@end
//@fn src/middle_end/context.rs Context::resolve_struct_tag_to_struct_id
//@ret r
//@nloops 1
//@subst identifier_name.to_owned() => text(identifier_name)
//@spec
    requires self.scope_stack@.len() > 0,
    ensures match r { Ok(v) => innermost(self.scope_stack@, struct_of(name_of(identifier_name@))) == Some(v), Err(_) => innermost(self.scope_stack@, struct_of(name_of(identifier_name@))) is None },
//@loop 0
    invariant 0 <= i < self.scope_stack@.len(), innermost(self.scope_stack@, struct_of(name_of(identifier_name@))) == innermost(self.scope_stack@.take(i + 1), struct_of(name_of(identifier_name@))),
    decreases i,
//@loop 0 start
            proof { lemma_up(self.scope_stack@, i as int, struct_of(name_of(identifier_name@))); assert(self.scope_stack@.take(0) =~= Seq::<Scope>::empty()); }
//@loop 0 before
        proof { lemma_up(self.scope_stack@, i as int, struct_of(name_of(identifier_name@))); }
//@end
//@fn src/middle_end/context.rs Context::resolve_union_tag_to_union_id
//@ret r
//@nloops 1
//@subst identifier_name.to_owned() => text(identifier_name)
//@spec
    requires self.scope_stack@.len() > 0,
    ensures match r { Ok(v) => innermost(self.scope_stack@, union_of(name_of(identifier_name@))) == Some(v), Err(_) => innermost(self.scope_stack@, union_of(name_of(identifier_name@))) is None },
//@loop 0
    invariant 0 <= i < self.scope_stack@.len(), innermost(self.scope_stack@, union_of(name_of(identifier_name@))) == innermost(self.scope_stack@.take(i + 1), union_of(name_of(identifier_name@))),
    decreases i,
//@loop 0 start
            proof { lemma_up(self.scope_stack@, i as int, union_of(name_of(identifier_name@))); assert(self.scope_stack@.take(0) =~= Seq::<Scope>::empty()); }
//@loop 0 before
        proof { lemma_up(self.scope_stack@, i as int, union_of(name_of(identifier_name@))); }
//@end
//@fn src/middle_end/context.rs Context::resolve_typedef
//@ret r
//@nloops 1
//@subst typedef_name.to_owned() => text(typedef_name)
//@spec
    requires self.scope_stack@.len() > 0,
    ensures match r { Ok(v) => innermost(self.scope_stack@, typedef_of(name_of(typedef_name@))) == Some(v), Err(_) => innermost(self.scope_stack@, typedef_of(name_of(typedef_name@))) is None },
//@loop 0
    invariant 0 <= i < self.scope_stack@.len(), innermost(self.scope_stack@, typedef_of(name_of(typedef_name@))) == innermost(self.scope_stack@.take(i + 1), typedef_of(name_of(typedef_name@))),
    decreases i,
//@loop 0 start
            proof { lemma_up(self.scope_stack@, i as int, typedef_of(name_of(typedef_name@))); assert(self.scope_stack@.take(0) =~= Seq::<Scope>::empty()); }
//@loop 0 before
        proof { lemma_up(self.scope_stack@, i as int, typedef_of(name_of(typedef_name@))); }
//@end
//@fn src/middle_end/context.rs Context::resolve_identifier_to_fun
//@ret r
//@subst identifier_name.to_owned() => text(identifier_name)
//@spec
    ensures match r { Ok(v) => at(self.function_names@, name_of(identifier_name@)) == Some(v), Err(_) => !self.function_names@.contains_key(name_of(identifier_name@)) },
//@end
//@fn src/middle_end/context.rs Context::add_function_declaration
//@ret r
//@spec
    ensures final(self).scope_stack == old(self).scope_stack, final(self).loop_stack == old(self).loop_stack,
        match at(old(self).function_names@, name) {
            Some(f) => *final(self) == *old(self) && r is Ok == (f == fun_id),
            None => r is Ok && final(self).function_names@ == old(self).function_names@.insert(name, fun_id),
        },
//@end
