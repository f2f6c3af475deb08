// places of variables in the frame
/// bytes of a variable
pub open spec fn var_size(v: VarId, p: &ProgramMetadata) -> nat { p.var_types@[v].size(p) }
/// bytes of a set of variables together
pub open spec fn room(s: Set<VarId>, p: &ProgramMetadata) -> nat decreases s.len() {
    if !s.finite() || s.len() == 0 { 0 } else { let v = s.choose(); var_size(v, p) + room(s.remove(v), p) }
}
pub proof fn lemma_room(s: Set<VarId>, v: VarId, p: &ProgramMetadata)
    requires s.finite(), s.contains(v),
    ensures room(s, p) == var_size(v, p) + room(s.remove(v), p),
    decreases s.len(),
{
    let c = s.choose();
    assert(s.contains(c));
    if c != v {
        lemma_room(s.remove(c), v, p);
        lemma_room(s.remove(v), c, p);
        assert(s.remove(c).remove(v) =~= s.remove(v).remove(c));
    }
}
pub proof fn lemma_room_part(a: Set<VarId>, b: Set<VarId>, p: &ProgramMetadata)
    requires b.finite(), a.subset_of(b),
    ensures a.finite(), room(a, p) <= room(b, p),
    decreases b.len(),
{
    if b.len() == 0 { assert(a =~= b); } else {
        let v = b.choose();
        assert(b.contains(v));
        lemma_room(b, v, p);
        if a.contains(v) { lemma_room_part(a.remove(v), b.remove(v), p); assert(a =~= a.remove(v).insert(v)); lemma_room(a, v, p); } else { lemma_room_part(a, b.remove(v), p); }
    }
}
pub proof fn lemma_slots_finite(s: Seq<Instruction>, p: &ProgramMetadata)
    ensures slots(s, p).finite(),
    decreases s,
{ if s.len() > 0 { lemma_slots_finite(s.drop_last(), p); lemma_slots_in_finite(s.last(), p); } }
pub proof fn lemma_slots_in_finite(i: Instruction, p: &ProgramMetadata)
    ensures slots_in(i, p).finite(),
    decreases i,
{ match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => { lemma_slots_finite(a@, p); lemma_slots_finite(b@, p); } _ => {} } }
/// the types are those of the program, defined there
pub open spec fn right_types(m: Map<VarId, IrType>, p: &ProgramMetadata) -> bool { forall|v: VarId| #[trigger] m.contains_key(v) ==> p.var_types@.contains_key(v) && m[v] == p.var_types@[v] && m[v].defined(p) }
//@type src/back_end/stack_allocation/optimised_allocation.rs VarAndByteSizePair
//@type src/back_end/stack_allocation/optimised_allocation.rs VarAllocationStack
//@type src/back_end/stack_allocation/allocate_vars.rs VariableAllocationMap
// (it only steers the order in which places are looked for)
//@fn src/back_end/dataflow_analysis/clash_graph.rs ClashGraph::remove_var
//@external
//@end
//@fn src/back_end/stack_allocation/optimised_allocation.rs pop_smallest_least_clashed_var
//@ret r
//@subst min_var.map(|min_var| (min_var, min_var_byte_size)) => min_var.map(|min_var: VarId| -> (r: VarAndByteSizePair) ensures r == (min_var, min_var_byte_size) { (min_var, min_var_byte_size) })
//@spec
    requires right_types(old(vars_left_to_allocate)@, prog_metadata),
    ensures match r {
        Some(x) => old(vars_left_to_allocate)@.contains_key(x.0) && x.1 == var_size(x.0, prog_metadata) && final(vars_left_to_allocate)@ == old(vars_left_to_allocate)@.remove(x.0),
        None => old(vars_left_to_allocate)@.len() == 0 && final(vars_left_to_allocate)@ == old(vars_left_to_allocate)@,
    },
//@iter 0 it
//@loop 0
    invariant
        right_types(vars_left_to_allocate@, prog_metadata), vars_left_to_allocate@ == old(vars_left_to_allocate)@,
        it.index@ > 0 ==> min_var is Some,
        match min_var { Some(v) => vars_left_to_allocate@.contains_key(v) && min_var_byte_size == var_size(v, prog_metadata), None => true },
//@loop 0 start
        proof { assert(vars_left_to_allocate@.contains_key(*var)); assert(vars_left_to_allocate@[*var] == *var_type); }
//@end
/// bytes of what is on the stack together
pub open spec fn stack_room(s: Seq<VarAndByteSizePair>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { stack_room(s.drop_last()) + s.last().1 as nat } }
pub proof fn lemma_stack_front(s: Seq<VarAndByteSizePair>, x: VarAndByteSizePair)
    ensures stack_room(s.insert(0, x)) == x.1 as nat + stack_room(s),
    decreases s.len(),
{
    let t = s.insert(0, x);
    if s.len() == 0 { assert(t.drop_last() =~= s); } else { lemma_stack_front(s.drop_last(), x); assert(t.drop_last() =~= s.drop_last().insert(0, x)); assert(t.last() == s.last()); }
}
pub open spec fn one_each(s: Seq<VarAndByteSizePair>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0 }
pub open spec fn on_stack(s: Seq<VarAndByteSizePair>, v: VarId, n: u32) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == v && s[i].1 == n }
pub open spec fn placed(l: Set<VarLocation>, v: VarId, n: u64) -> bool { exists|x: VarLocation| #[trigger] l.contains(x) && x.var == v && x.byte_size == n }
pub open spec fn single_places(l: Set<VarLocation>) -> bool { forall|x: VarLocation, y: VarLocation| #![trigger l.contains(x), l.contains(y)] l.contains(x) && l.contains(y) && x.var == y.var ==> x == y }
/// everything on the stack but the null destination has a place of its size, and nothing else has
pub open spec fn all_placed(l: Set<VarLocation>, s: Seq<VarAndByteSizePair>, p: &ProgramMetadata) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && !p.is_null((#[trigger] s[i]).0) ==> placed(l, s[i].0, s[i].1)
    &&& forall|x: VarLocation| #[trigger] l.contains(x) ==> on_stack(s, x.var, x.byte_size)
    &&& single_places(l)
}
pub proof fn lemma_place(l: Set<VarLocation>, m: Set<VarLocation>, s: Seq<VarAndByteSizePair>, n: int, p: &ProgramMetadata)
    requires
        0 <= n < s.len(), all_placed(l, s.skip(n + 1), p), one_each(s),
        p.is_null(s[n].0) && m == l || exists|x: VarLocation| x.var == s[n].0 && x.byte_size == s[n].1 && m == #[trigger] l.insert(x),
    ensures all_placed(m, s.skip(n), p),
{
    let a = s.skip(n);
    let b = s.skip(n + 1);
    assert(a[0] == s[n]);
    assert forall|i: int| 0 <= i < a.len() && !p.is_null((#[trigger] a[i]).0) implies placed(m, a[i].0, a[i].1) by {
        if i > 0 {
            assert(a[i] == b[i - 1]);
            assert(placed(l, a[i].0, a[i].1));
            let x = choose|x: VarLocation| #[trigger] l.contains(x) && x.var == a[i].0 && x.byte_size == a[i].1;
            assert(m.contains(x));
        } else {
            let x = choose|x: VarLocation| x.var == s[n].0 && x.byte_size == s[n].1 && m == #[trigger] l.insert(x);
            assert(m.contains(x));
        }
    }
    assert forall|x: VarLocation| #[trigger] m.contains(x) implies on_stack(a, x.var, x.byte_size) by {
        if l.contains(x) {
            assert(on_stack(b, x.var, x.byte_size));
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == x.var && b[i].1 == x.byte_size;
            assert(a[i + 1] == b[i]);
        } else { assert(a[0].0 == x.var && a[0].1 == x.byte_size); }
    }
    assert forall|x: VarLocation| #[trigger] l.contains(x) implies x.var != s[n].0 by {
        assert(on_stack(b, x.var, x.byte_size));
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == x.var && b[i].1 == x.byte_size;
        assert(b[i] == s[n + 1 + i]);
    }
    assert(single_places(m));
}
//@fn src/back_end/stack_allocation/optimised_allocation.rs allocate_vars_from_stack
//@ret r
//@spec
    requires
        clash_graph.symmetric(), one_each(var_allocation_stack@), stack_room(var_allocation_stack@) <= i32::MAX,
        forall|i: int| 0 <= i < var_allocation_stack@.len() && !prog_metadata.is_null((#[trigger] var_allocation_stack@[i]).0) ==> var_allocation_stack@[i].1 > 0,
    ensures laid_out(r@, *clash_graph, stack_room(var_allocation_stack@) as int), all_placed(r@, var_allocation_stack@, prog_metadata),
//@start
    let ghost s0 = var_allocation_stack@;
    let ghost top = stack_room(s0) as int;
    let ghost mut hi: int = 0;
    proof { assert(s0.subrange(s0.len() as int, s0.len() as int).len() == 0); assert(s0.take(s0.len() as int) =~= s0); }
//@loop 0
        invariant
            clash_graph.symmetric(), one_each(s0), top <= i32::MAX,
            forall|i: int| 0 <= i < s0.len() && !prog_metadata.is_null((#[trigger] s0[i]).0) ==> s0[i].1 > 0,
            var_allocation_stack@.len() <= s0.len(), var_allocation_stack@ == s0.take(var_allocation_stack@.len() as int),
            0 <= hi, hi + stack_room(var_allocation_stack@) <= top, var_locations.wf(*clash_graph, hi),
            all_placed(var_locations.given(), s0.skip(var_allocation_stack@.len() as int), prog_metadata),
        ensures var_allocation_stack@.len() == 0,
        decreases var_allocation_stack@.len(),
//@loop 0 start
        let ghost n = var_allocation_stack@.len() as int;
        let ghost l0 = var_locations.given();
        let ghost after = s0.skip(n + 1);
        proof {
            assert(s0.take(n + 1).drop_last() =~= s0.take(n));
            assert(var_allocation_stack@ =~= s0.take(n));
            assert(s0[n].0 == var && s0[n].1 == byte_size);
            assert(s0.skip(n)[0] == s0[n]);
            if prog_metadata.is_null(var) { lemma_place(l0, l0, s0, n, prog_metadata); }
        }
//@before var_locations.insert
        let ghost x = lowest_possible_location;
//@after var_locations.insert
        proof {
            assert(var_locations.given() == l0.insert(x));
            hi = hi + byte_size;
            lemma_place(l0, var_locations.given(), s0, n, prog_metadata);
        }
//@end
pub open spec fn has_place(l: Set<VarLocation>, v: VarId) -> bool { exists|x: VarLocation| #[trigger] l.contains(x) && x.var == v }
pub open spec fn ends_by(l: Set<VarLocation>, hi: int) -> bool { 0 <= hi && forall|x: VarLocation| #[trigger] l.contains(x) ==> x.proper() && x.end() <= hi }
//@fn src/back_end/stack_allocation/optimised_allocation.rs calculate_var_offsets
//@ret r
//@spec
    requires single_places(var_locations@), exists|hi: int| #[trigger] ends_by(var_locations@, hi) && hi + start_offset <= u32::MAX,
    ensures
        forall|x: VarLocation| #[trigger] var_locations@.contains(x) ==> r.0@.contains_key(x.var) && r.0@[x.var] == x.start + start_offset && x.end() <= r.1,
        forall|v: VarId| #[trigger] r.0@.contains_key(v) ==> var_offsets@.contains_key(v) || has_place(var_locations@, v),
        forall|v: VarId| !has_place(var_locations@, v) && #[trigger] var_offsets@.contains_key(v) ==> r.0@.contains_key(v) && r.0@[v] == var_offsets@[v],
        forall|hi: int| #[trigger] ends_by(var_locations@, hi) ==> r.1 <= hi,
//@iterval 0
//@iter 0 it
//@start
    let ghost o0 = var_offsets@;
    let ghost top = choose|hi: int| #[trigger] ends_by(var_locations@, hi) && hi + start_offset <= u32::MAX;
    let ghost l = var_locations@;
//@loop 0
        invariant
            __s0@ == l, single_places(l), ends_by(l, top), top + start_offset <= u32::MAX,
            forall|j: int| 0 <= j < it.index@ ==> var_offsets@.contains_key((*#[trigger] it.seq()[j]).var) && var_offsets@[(*it.seq()[j]).var] == (*it.seq()[j]).start + start_offset && (*it.seq()[j]).end() <= total_offset,
            forall|v: VarId| #[trigger] var_offsets@.contains_key(v) ==> o0.contains_key(v) || has_place(l, v),
            forall|v: VarId| !has_place(l, v) && #[trigger] o0.contains_key(v) ==> var_offsets@.contains_key(v) && var_offsets@[v] == o0[v],
            forall|hi: int| #[trigger] ends_by(l, hi) ==> total_offset <= hi,
            forall|j: int| 0 <= j < it.index@ ==> l.contains(*#[trigger] it.seq()[j]),
//@loop 0 start
        proof { assert(__s0@.contains(*__r0)); assert(l.contains(var_location)); assert(has_place(l, var_location.var)); }
//@loop 0 after
    proof { assert(forall|x: VarLocation| #[trigger] __s0@.contains(x) ==> var_offsets@.contains_key(x.var) && var_offsets@[x.var] == x.start + start_offset && x.end() <= total_offset); }
//@end
/// where the frame puts its local variables: after everything at base, each in a range of its size below the end
pub open spec fn framed(off: Map<VarId, u32>, base: Map<VarId, u32>, locals: Set<VarId>, start: int, size: int, p: &ProgramMetadata) -> bool {
    &&& off.dom() =~= base.dom().union(locals)
    &&& forall|v: VarId| #[trigger] base.contains_key(v) && !locals.contains(v) ==> off[v] == base[v]
    &&& forall|v: VarId| #[trigger] locals.contains(v) ==> start <= off[v] && off[v] + var_size(v, p) <= start + size
}
/// the ranges of the two have a byte in common
pub open spec fn meet(off: Map<VarId, u32>, a: VarId, b: VarId, p: &ProgramMetadata) -> bool { off[a] < off[b] + var_size(b, p) && off[b] < off[a] + var_size(a, p) }
/// only variables that may share memory do
pub open spec fn separate(off: Map<VarId, u32>, locals: Set<VarId>, p: &ProgramMetadata, c: ClashGraph) -> bool {
    forall|a: VarId, b: VarId| #![trigger locals.contains(a), locals.contains(b)] locals.contains(a) && locals.contains(b) && a != b && meet(off, a, b, p) ==> !c.apart(a, b)
}
/// none do
pub open spec fn disjoint_places(off: Map<VarId, u32>, locals: Set<VarId>, p: &ProgramMetadata) -> bool {
    forall|a: VarId, b: VarId| #![trigger locals.contains(a), locals.contains(b)] locals.contains(a) && locals.contains(b) && a != b ==> !meet(off, a, b, p)
}
/// the variables of the block that the frame holds besides the parameters
pub open spec fn locals_of(b: Block, params: Seq<VarId>, globals: Map<VarId, u32>, p: &ProgramMetadata) -> Set<VarId> { slots_block(b, p).filter(|v: VarId| !params.contains(v) && !globals.contains_key(v)) }
pub open spec fn types_defined(s: Set<VarId>, p: &ProgramMetadata) -> bool { forall|v: VarId| #[trigger] s.contains(v) ==> p.var_types@.contains_key(v) && p.var_types@[v].defined(p) }
pub open spec fn visited(s: Seq<(&VarId, &IrType)>, n: int, v: VarId) -> bool { exists|j: int| 0 <= j < n && *(#[trigger] s[j]).0 == v }
/// all, or all but some that are parameters or globals
pub open spec fn trimmed(m: Map<VarId, IrType>, all: Set<VarId>, params: Seq<VarId>, globals: Map<VarId, u32>, p: &ProgramMetadata) -> bool {
    &&& forall|v: VarId| #[trigger] m.contains_key(v) ==> all.contains(v) && m[v] == p.var_types@[v]
    &&& forall|v: VarId| #[trigger] all.contains(v) && !params.contains(v) && !globals.contains_key(v) ==> m.contains_key(v)
}
pub proof fn lemma_slots_block_finite(b: Block, p: &ProgramMetadata)
    ensures slots_block(b, p).finite(),
    decreases b,
{
    match b {
        Block::Simple { internal, next } => { lemma_slots_finite(internal.instrs@, p); match next { Some(n) => lemma_slots_block_finite(*n, p), None => {} } }
        Block::Loop { inner, next, .. } => { lemma_slots_block_finite(*inner, p); match next { Some(n) => lemma_slots_block_finite(*n, p), None => {} } }
        Block::Multiple { handled_blocks, next, .. } => { lemma_slots_blocks_finite(handled_blocks@, p); match next { Some(n) => lemma_slots_block_finite(*n, p), None => {} } }
    }
}
pub proof fn lemma_slots_blocks_finite(s: Seq<Block>, p: &ProgramMetadata)
    ensures slots_blocks(s, p).finite(),
    decreases s,
{ if s.len() > 0 { lemma_slots_blocks_finite(s.drop_last(), p); lemma_slots_block_finite(s.last(), p); } }
//@fn src/back_end/stack_allocation/naive_allocation.rs naive_allocate_local_vars
//@ret r
//@iter 0 it0
//@iter 1 it1
//@iterval 2
//@iter 2 it2
//@spec
    requires
        module_context.ready(), types_defined(slots_block(*block, prog_metadata), prog_metadata),
        start_offset + room(slots_block(*block, prog_metadata), prog_metadata) <= u32::MAX,
    ensures ({
        let locals = locals_of(*block, param_vars_not_to_allocate_again@, global_var_addrs@, prog_metadata);
        let size = room(locals, prog_metadata) as int;
        framed(r@, var_offsets@, locals, start_offset as int, size, prog_metadata) && disjoint_places(r@, locals, prog_metadata)
            && final(wasm_instrs)@ =~= old(wasm_instrs)@ + module_context.bump(size as i32 as int)
    }),
//@start
    let ghost p = prog_metadata;
    let ghost all = slots_block(*block, p);
    let ghost params = param_vars_not_to_allocate_again@;
    let ghost globals = global_var_addrs@;
    let ghost base = var_offsets@;
//@loop 0
        invariant
            it0.seq().len() == params.len(), params == param_vars_not_to_allocate_again@,
            forall|j: int| 0 <= j < params.len() ==> *#[trigger] it0.seq()[j] == params[j],
            forall|j: int| 0 <= j < it0.index@ ==> !vars@.contains_key(#[trigger] params[j]),
            trimmed(vars@, all, params, Map::empty(), p),
//@loop 1
        invariant
            forall|j: int| 0 <= j < it1.index@ ==> !vars@.contains_key(*#[trigger] it1.seq()[j]),
            forall|v: VarId| #[trigger] params.contains(v) ==> !vars@.contains_key(v),
            trimmed(vars@, all, params, globals, p), globals == global_var_addrs@,
//@loop 1 start
        proof { assert(globals.contains_key(*global_var)); }
//@loop 1 after
    proof { assert(forall|v: VarId| #[trigger] globals.contains_key(v) ==> !vars@.contains_key(v)); }
    let ghost vm = vars@;
    let ghost locals = locals_of(*block, params, globals, p);
    proof { assert(vm.dom() =~= locals); lemma_slots_block_finite(*block, p); lemma_room_part(locals, all, p); }
    let ghost mut seen = Set::<VarId>::empty();
//@loop 2
        invariant
            __s2@ == vm, trimmed(vm, all, params, globals, p), vm.dom() =~= locals, types_defined(all, p), p == prog_metadata,
            seen.finite(), locals.finite(), seen.subset_of(locals), offset == room(seen, p), start_offset + room(locals, p) <= u32::MAX,
            it2.seq().no_duplicates(),
            forall|j: int| #![trigger it2.seq()[j]] 0 <= j < it2.seq().len() ==> vm.contains_key(*it2.seq()[j].0) && vm[*it2.seq()[j].0] == *it2.seq()[j].1,
            forall|j: int| #![trigger it2.seq()[j]] 0 <= j < it2.index@ ==> seen.contains(*it2.seq()[j].0),
            forall|v: VarId| #[trigger] seen.contains(v) ==> visited(it2.seq(), it2.index@ as int, v),
            framed(var_offsets@, base, seen, start_offset as int, offset as int, p), disjoint_places(var_offsets@, seen, p),
//@loop 2 start
        let ghost o1 = var_offsets@;
        let ghost seen1 = seen;
        proof {
            assert(vm.contains_key(*__r2.0)); assert(vm[*__r2.0] == *__r2.1); assert(all.contains(var_id));
            if seen.contains(var_id) {
                let j = choose|j: int| 0 <= j < it2.index@ && *(#[trigger] it2.seq()[j]).0 == var_id;
                assert(it2.seq()[j] == it2.seq()[it2.index@ as int]);
            }
            lemma_room(seen.insert(var_id), var_id, p);
            assert(seen.insert(var_id).remove(var_id) =~= seen);
            lemma_room_part(seen.insert(var_id), locals, p);
        }
//@loop 2 end
        proof {
            seen = seen.insert(var_id);
            assert forall|v: VarId| #[trigger] seen.contains(v) implies visited(it2.seq(), it2.index@ + 1, v) by {
                if v == var_id { assert(*it2.seq()[it2.index@ as int].0 == v); } else {
                    assert(visited(it2.seq(), it2.index@ as int, v));
                    let j = choose|j: int| 0 <= j < it2.index@ && *(#[trigger] it2.seq()[j]).0 == v;
                    assert(*it2.seq()[j].0 == v);
                }
            }
            assert forall|a: VarId, b: VarId| #![trigger seen.contains(a), seen.contains(b)] seen.contains(a) && seen.contains(b) && a != b implies !meet(var_offsets@, a, b, p) by {
                if a != var_id && b != var_id { assert(seen1.contains(a) && seen1.contains(b)); assert(!meet(o1, a, b, p)); }
                else if a == var_id { assert(seen1.contains(b)); } else { assert(seen1.contains(a)); }
            }
        }
//@loop 2 after
    proof {
        assert(forall|v: VarId| #[trigger] vm.contains_key(v) ==> seen.contains(v));
        assert(seen =~= locals);
    }
//@end
// places chosen by interference
/// every variable takes up some room
pub open spec fn no_void(s: Set<VarId>, p: &ProgramMetadata) -> bool { forall|v: VarId| #[trigger] s.contains(v) ==> var_size(v, p) > 0 }
// (its contract is what C17 checks; that nothing is left that assigns a variable of no size is assumed)
//@fn src/back_end/dataflow_analysis/dead_code_analysis.rs remove_dead_vars
//@external
//@spec
//@include spec_dead.inc
        no_void(slots_block(*final(block), final(prog_metadata)), final(prog_metadata)),
//@end
pub proof fn lemma_room_same(s: Set<VarId>, p: &ProgramMetadata, q: &ProgramMetadata)
    requires s.finite(), p.var_types == q.var_types, p.structs == q.structs, p.unions == q.unions,
    ensures room(s, p) == room(s, q),
    decreases s.len(),
{ if s.len() > 0 { let v = s.choose(); assert(s.contains(v)); lemma_room_same(s.remove(v), p, q); } }
/// the frame of a block: the places keep variables that must not share memory apart
pub open spec fn well_framed(off: Map<VarId, u32>, base: Map<VarId, u32>, locals: Set<VarId>, start: int, size: int, b: Block, p: &ProgramMetadata) -> bool {
    framed(off, base, locals, start, size, p) && exists|c: ClashGraph, g: Flowgraph, t: LiveTable| flow_of(b, g) && is_liveness(g, t) && #[trigger] interference(c, g, t) && separate(off, locals, p, c)
}
pub open spec fn stack_of(s: Seq<VarAndByteSizePair>, all: Set<VarId>, left: Set<VarId>, p: &ProgramMetadata) -> bool {
    &&& one_each(s)
    &&& forall|i: int| 0 <= i < s.len() ==> all.contains((#[trigger] s[i]).0) && !left.contains(s[i].0) && s[i].1 == var_size(s[i].0, p)
    &&& forall|v: VarId| #[trigger] all.contains(v) ==> left.contains(v) || stacked(s, v)
}
pub open spec fn stacked(s: Seq<VarAndByteSizePair>, v: VarId) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == v }
/// one more on the stack
pub proof fn lemma_stack_more(s: Seq<VarAndByteSizePair>, x: VarAndByteSizePair, all: Set<VarId>, left: Set<VarId>, p: &ProgramMetadata)
    requires stack_of(s, all, left, p), left.contains(x.0), all.contains(x.0), x.1 == var_size(x.0, p),
    ensures stack_of(s.insert(0, x), all, left.remove(x.0), p), stack_room(s.insert(0, x)) == x.1 + stack_room(s),
{
    let t = s.insert(0, x);
    let l = left.remove(x.0);
    lemma_stack_front(s, x);
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i].0 != t[j].0 by {
        assert(t[j] == s[j - 1]);
        if i > 0 { assert(t[i] == s[i - 1]); }
    }
    assert forall|i: int| 0 <= i < t.len() implies all.contains((#[trigger] t[i]).0) && !l.contains(t[i].0) && t[i].1 == var_size(t[i].0, p) by { if i > 0 { assert(t[i] == s[i - 1]); } }
    assert forall|v: VarId| #[trigger] all.contains(v) implies l.contains(v) || stacked(t, v) by {
        if v == x.0 { assert(t[0].0 == v); } else if !left.contains(v) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == v;
            assert(t[i + 1].0 == v);
        }
    }
}
/// the variable is where its location says
pub open spec fn set_at(off: Map<VarId, u32>, l: Set<VarLocation>, v: VarId, start: int, size: int, p: &ProgramMetadata) -> bool {
    off.contains_key(v) && exists|x: VarLocation| #[trigger] l.contains(x) && x.var == v && x.byte_size == var_size(v, p) && off[v] == x.start + start && x.end() <= size
}
pub proof fn lemma_slots_null(s: Seq<Instruction>, p: &ProgramMetadata, v: VarId)
    requires p.is_null(v),
    ensures !slots(s, p).contains(v),
    decreases s,
{ if s.len() > 0 { lemma_slots_null(s.drop_last(), p, v); lemma_slots_in_null(s.last(), p, v); } }
pub proof fn lemma_slots_in_null(i: Instruction, p: &ProgramMetadata, v: VarId)
    requires p.is_null(v),
    ensures !slots_in(i, p).contains(v),
    decreases i,
{ match i { Instruction::IfEqElse(_, _, _, a, b) | Instruction::IfNotEqElse(_, _, _, a, b) => { lemma_slots_null(a@, p, v); lemma_slots_null(b@, p, v); } _ => {} } }
pub proof fn lemma_slots_block_null(b: Block, p: &ProgramMetadata, v: VarId)
    requires p.is_null(v),
    ensures !slots_block(b, p).contains(v),
    decreases b,
{
    match b {
        Block::Simple { internal, next } => { lemma_slots_null(internal.instrs@, p, v); match next { Some(n) => lemma_slots_block_null(*n, p, v), None => {} } }
        Block::Loop { inner, next, .. } => { lemma_slots_block_null(*inner, p, v); match next { Some(n) => lemma_slots_block_null(*n, p, v), None => {} } }
        Block::Multiple { handled_blocks, next, .. } => { lemma_slots_blocks_null(handled_blocks@, p, v); match next { Some(n) => lemma_slots_block_null(*n, p, v), None => {} } }
    }
}
pub proof fn lemma_slots_blocks_null(s: Seq<Block>, p: &ProgramMetadata, v: VarId)
    requires p.is_null(v),
    ensures !slots_blocks(s, p).contains(v),
    decreases s,
{ if s.len() > 0 { lemma_slots_blocks_null(s.drop_last(), p, v); lemma_slots_block_null(s.last(), p, v); } }
//@fn src/back_end/stack_allocation/optimised_allocation.rs optimised_allocate_local_vars
//@ret r
//@iter 0 it0
//@iter 1 it1
//@spec
    requires
        good_block(*old(block)), distinct_block(*old(block)), ends_block(*old(block)), old(prog_metadata).spare_vars(1), old(prog_metadata).vars_handed_out(),
        module_context.ready(), types_defined(slots_block(*old(block), old(prog_metadata)), old(prog_metadata)),
        start_offset + room(slots_block(*old(block), old(prog_metadata)), old(prog_metadata)) <= i32::MAX,
    ensures
        thinned(*old(block), *final(block), global_var_addrs@, final(prog_metadata)), null_added(final(prog_metadata), old(prog_metadata)),
        exists|size: int| #[trigger] well_framed(r@, var_offsets@, locals_of(*final(block), param_vars_not_to_allocate_again@, global_var_addrs@, final(prog_metadata)), start_offset as int, size, *final(block), final(prog_metadata))
            && final(wasm_instrs)@ =~= old(wasm_instrs)@ + module_context.bump(size),
//@after remove_dead_vars
    let ghost pm = *prog_metadata;
    let ghost p: &ProgramMetadata = &pm;
    let ghost all = slots_block(*block, p);
    let ghost params = param_vars_not_to_allocate_again@;
    let ghost globals = global_var_addrs@;
    let ghost base = var_offsets@;
    let ghost locals = locals_of(*block, params, globals, p);
    let ghost b1 = *block;
    proof {
        let q: &ProgramMetadata = old(prog_metadata);
        let was = slots_block(*old(block), q);
        lemma_slots_block_finite(*old(block), q);
        lemma_room_same(was, p, q);
        lemma_room_part(all, was, p);
        lemma_room_part(locals, all, p);
        assert forall|v: VarId| #[trigger] all.contains(v) implies p.var_types@.contains_key(v) && p.var_types@[v].defined(p) by { assert(was.contains(v)); }
    }
//@loop 0
        invariant
            it0.seq().len() == params.len(), params == param_vars_not_to_allocate_again@,
            forall|j: int| 0 <= j < params.len() ==> *#[trigger] it0.seq()[j] == params[j],
            forall|j: int| 0 <= j < it0.index@ ==> !vars_to_allocate@.contains_key(#[trigger] params[j]),
            trimmed(vars_to_allocate@, all, params, Map::empty(), p),
//@loop 1
        invariant
            forall|j: int| 0 <= j < it1.index@ ==> !vars_to_allocate@.contains_key(*#[trigger] it1.seq()[j]),
            forall|v: VarId| #[trigger] params.contains(v) ==> !vars_to_allocate@.contains_key(v),
            trimmed(vars_to_allocate@, all, params, globals, p), globals == global_var_addrs@,
//@loop 1 start
        proof { assert(globals.contains_key(*global_var)); }
//@loop 1 after
    proof { assert(forall|v: VarId| #[trigger] globals.contains_key(v) ==> !vars_to_allocate@.contains_key(v)); assert(vars_to_allocate@.dom() =~= locals); }
//@loop 2
        invariant
            right_types(vars_to_allocate@, p), *p == *prog_metadata, stack_of(var_allocation_stack@, locals, vars_to_allocate@.dom(), p),
            vars_to_allocate@.dom().finite(), vars_to_allocate@.dom().subset_of(locals),
            stack_room(var_allocation_stack@) + room(vars_to_allocate@.dom(), p) == room(locals, p),
        ensures vars_to_allocate@.dom().len() == 0,
        decreases vars_to_allocate@.dom().len(),
//@loop 2 start
        let ghost s1 = var_allocation_stack@;
        proof {
            let v = var_and_type.0;
            let left = vars_to_allocate@.dom().insert(v);
            lemma_stack_more(s1, var_and_type, locals, left, p);
            lemma_room(left, v, p);
            assert(left.remove(v) =~= vars_to_allocate@.dom());
        }
//@before let var_locations
    let ghost stack = var_allocation_stack@;
    let ghost top = stack_room(stack) as int;
    proof {
        assert(vars_to_allocate@.dom() =~= Set::empty());
        assert(room(vars_to_allocate@.dom(), p) == 0);
        assert forall|i: int| 0 <= i < stack.len() implies (#[trigger] stack[i]).1 > 0 by { assert(all.contains(stack[i].0)); }
    }
//@after let var_locations
    let ghost l = var_locations@;
    proof { assert(ends_by(l, top)); }
//@end_
    proof {
        let off = var_offsets@;
        let size = total_offset as int;
        assert forall|v: VarId| #[trigger] locals.contains(v) implies !p.is_null(v) by { if p.is_null(v) { lemma_slots_block_null(b1, p, v); } }
        assert forall|v: VarId| #[trigger] locals.contains(v) implies has_place(l, v) && set_at(off, l, v, start_offset as int, size, p) by {
            assert(stacked(stack, v));
            let i = choose|i: int| 0 <= i < stack.len() && (#[trigger] stack[i]).0 == v;
            assert(placed(l, stack[i].0, stack[i].1));
        }
        assert forall|v: VarId| has_place(l, v) implies #[trigger] locals.contains(v) by {
            let x = choose|x: VarLocation| #[trigger] l.contains(x) && x.var == v;
            assert(on_stack(stack, x.var, x.byte_size));
        }
        assert(framed(off, base, locals, start_offset as int, size, p));
        assert(separate(off, locals, p, clash_graph)) by {
            assert forall|a: VarId, b: VarId| #![trigger locals.contains(a), locals.contains(b)] locals.contains(a) && locals.contains(b) && a != b && meet(off, a, b, p) implies !clash_graph.apart(a, b) by {
                assert(set_at(off, l, a, start_offset as int, size, p) && set_at(off, l, b, start_offset as int, size, p));
                let x = choose|x: VarLocation| #[trigger] l.contains(x) && x.var == a && x.byte_size == var_size(a, p) && off[a] == x.start + start_offset;
                let y = choose|x: VarLocation| #[trigger] l.contains(x) && x.var == b && x.byte_size == var_size(b, p) && off[b] == x.start + start_offset;
                assert(overlap(x, y));
            }
        }
        let (g, t) = choose|g: Flowgraph, t: LiveTable| flow_of(b1, g) && is_liveness(g, t) && #[trigger] interference(clash_graph, g, t);
        assert(interference(clash_graph, g, t));
        assert(well_framed(off, base, locals, start_offset as int, size, b1, p));
    }
//@end
// globals
//@fn src/back_end/stack_allocation/naive_allocation.rs naive_allocate_global_vars
//@ret r
//@iterval 0
//@iter 0 it
//@spec
    requires
        types_defined(slots_block(*block, prog_metadata), prog_metadata),
        global_vars_addr + room(slots_block(*block, prog_metadata), prog_metadata) <= u32::MAX,
    ensures ({
        let all = slots_block(*block, prog_metadata);
        framed(r@, Map::empty(), all, global_vars_addr as int, room(all, prog_metadata) as int, prog_metadata) && disjoint_places(r@, all, prog_metadata)
    }),
//@start
    let ghost p = prog_metadata;
    let ghost all = slots_block(*block, p);
    proof { lemma_slots_block_finite(*block, p); }
//@before let mut var_addrs
    let ghost vm = global_vars@;
    let ghost base = Map::<VarId, u32>::empty();
    let ghost mut seen = Set::<VarId>::empty();
//@loop 0
        invariant
            __s0@ == vm, typing(vm, all, p), types_defined(all, p), p == prog_metadata, base == Map::<VarId, u32>::empty(),
            seen.finite(), all.finite(), seen.subset_of(all), addr == global_vars_addr + room(seen, p), global_vars_addr + room(all, p) <= u32::MAX,
            it.seq().no_duplicates(),
            forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.seq().len() ==> vm.contains_key(*it.seq()[j].0) && vm[*it.seq()[j].0] == *it.seq()[j].1,
            forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.index@ ==> seen.contains(*it.seq()[j].0),
            forall|v: VarId| #[trigger] seen.contains(v) ==> visited(it.seq(), it.index@ as int, v),
            framed(var_addrs@, base, seen, global_vars_addr as int, room(seen, p) as int, p), disjoint_places(var_addrs@, seen, p),
//@loop 0 start
        let ghost o1 = var_addrs@;
        let ghost seen1 = seen;
        proof {
            assert(vm.contains_key(*__r0.0)); assert(vm[*__r0.0] == *__r0.1); assert(all.contains(var_id));
            if seen.contains(var_id) {
                let j = choose|j: int| 0 <= j < it.index@ && *(#[trigger] it.seq()[j]).0 == var_id;
                assert(it.seq()[j] == it.seq()[it.index@ as int]);
            }
            lemma_room(seen.insert(var_id), var_id, p);
            assert(seen.insert(var_id).remove(var_id) =~= seen);
            lemma_room_part(seen.insert(var_id), all, p);
        }
//@loop 0 end
        proof {
            seen = seen.insert(var_id);
            assert forall|v: VarId| #[trigger] seen.contains(v) implies visited(it.seq(), it.index@ + 1, v) by {
                if v == var_id { assert(*it.seq()[it.index@ as int].0 == v); } else {
                    assert(visited(it.seq(), it.index@ as int, v));
                    let j = choose|j: int| 0 <= j < it.index@ && *(#[trigger] it.seq()[j]).0 == v;
                    assert(*it.seq()[j].0 == v);
                }
            }
            assert forall|a: VarId, b: VarId| #![trigger seen.contains(a), seen.contains(b)] seen.contains(a) && seen.contains(b) && a != b implies !meet(var_addrs@, a, b, p) by {
                if a != var_id && b != var_id { assert(seen1.contains(a) && seen1.contains(b)); assert(!meet(o1, a, b, p)); }
                else if a == var_id { assert(seen1.contains(b)); } else { assert(seen1.contains(a)); }
            }
        }
//@loop 0 after
    proof {
        assert(forall|v: VarId| #[trigger] vm.contains_key(v) ==> seen.contains(v));
        assert(seen =~= all);
    }
//@end
//@fn src/back_end/stack_allocation/allocate_vars.rs allocate_global_vars
//@ret r
//@spec
    requires
        types_defined(slots_block(*block, prog_metadata), prog_metadata),
        global_vars_addr + room(slots_block(*block, prog_metadata), prog_metadata) <= u32::MAX,
    ensures ({
        let all = slots_block(*block, prog_metadata);
        framed(r@, Map::empty(), all, global_vars_addr as int, room(all, prog_metadata) as int, prog_metadata) && disjoint_places(r@, all, prog_metadata)
    }),
//@end
// frames
//@type src/program_config/enabled_optimisations.rs EnabledOptimisations
//@fn src/program_config/enabled_optimisations.rs EnabledOptimisations::is_stack_allocation_optimisation_enabled
//@end
pub open spec fn sizes_sum(t: Seq<IrType>, p: &ProgramMetadata) -> nat decreases t.len() { if t.len() == 0 { 0 } else { sizes_sum(t.drop_last(), p) + t.last().size(p) } }
/// the parameters one after the other
pub open spec fn params_at(base: Map<VarId, u32>, vars: Seq<VarId>, t: Seq<IrType>, n: int, start: int, p: &ProgramMetadata) -> bool {
    &&& forall|i: int| 0 <= i < n ==> base.contains_key(#[trigger] vars[i]) && base[vars[i]] == start + sizes_sum(t.take(i), p)
    &&& forall|v: VarId| #[trigger] base.contains_key(v) ==> exists|i: int| 0 <= i < n && vars[i] == v
}
pub open spec fn callable(t: IrType, p: &ProgramMetadata) -> bool { t is Function && t->Function_0.defined(p) && forall|i: int| 0 <= i < t->Function_1@.len() ==> (#[trigger] t->Function_1@[i]).defined(p) }
/// where the locals start
pub open spec fn locals_start(t: IrType, p: &ProgramMetadata) -> int { POINTER_SIZE + t->Function_0.size(p) + sizes_sum(t->Function_1@, p) }
pub proof fn lemma_sizes_take(t: Seq<IrType>, i: int, p: &ProgramMetadata)
    requires 0 <= i <= t.len(),
    ensures sizes_sum(t.take(i), p) <= sizes_sum(t, p),
    decreases t.len(),
{ if i == t.len() { assert(t.take(i) =~= t); } else { lemma_sizes_take(t.drop_last(), i, p); assert(t.drop_last().take(i) =~= t.take(i)); } }
pub open spec fn good_frame(off: Map<VarId, u32>, base: Map<VarId, u32>, size: int, vars: Seq<VarId>, locals: Set<VarId>, t: IrType, b: Block, p: &ProgramMetadata, o: &ProgramMetadata) -> bool {
    &&& params_at(base, vars, t->Function_1@, t->Function_1@.len() as int, POINTER_SIZE + t->Function_0.size(o), o)
    &&& disjoint_places(off, locals, p) || well_framed(off, base, locals, locals_start(t, o), size, b, p)
}
//@fn src/back_end/stack_allocation/allocate_vars.rs allocate_local_vars
//@ret r
//@spec
    requires
        callable(fun_type, old(prog_metadata)), fun_type->Function_1@.len() <= fun_param_var_mappings@.len(), fun_param_var_mappings@.no_duplicates(),
        good_block(*old(block)), distinct_block(*old(block)), ends_block(*old(block)), old(prog_metadata).spare_vars(1), old(prog_metadata).vars_handed_out(),
        module_context.ready(), types_defined(slots_block(*old(block), old(prog_metadata)), old(prog_metadata)),
        locals_start(fun_type, old(prog_metadata)) + room(slots_block(*old(block), old(prog_metadata)), old(prog_metadata)) <= i32::MAX,
    ensures
        *final(block) == *old(block) && *final(prog_metadata) == *old(prog_metadata) || thinned(*old(block), *final(block), global_var_addrs@, final(prog_metadata)), null_added(final(prog_metadata), old(prog_metadata)),
        exists|base: Map<VarId, u32>, size: int| #[trigger] framed(r@, base, locals_of(*final(block), fun_param_var_mappings@, global_var_addrs@, final(prog_metadata)), locals_start(fun_type, old(prog_metadata)), size, final(prog_metadata))
            && good_frame(r@, base, size, fun_param_var_mappings@, locals_of(*final(block), fun_param_var_mappings@, global_var_addrs@, final(prog_metadata)), fun_type, *final(block), final(prog_metadata), old(prog_metadata))
            && final(wasm_instrs)@ =~= old(wasm_instrs)@ + module_context.bump(size),
//@start
    let ghost o = *prog_metadata;
    let ghost q: &ProgramMetadata = &o;
    let ghost ft = fun_type;
    let ghost vars = fun_param_var_mappings@;
    let ghost start = POINTER_SIZE + fun_type->Function_0.size(q);
    proof { lemma_slots_block_finite(*block, q); }
//@iter 0 it
//@loop 0
        invariant
            callable(ft, q), *q == *prog_metadata, param_types@ == ft->Function_1@, vars == fun_param_var_mappings@, param_types@.len() <= vars.len(), vars.no_duplicates(),
            start + sizes_sum(param_types@, q) <= i32::MAX, start == POINTER_SIZE + ft->Function_0.size(q),
            offset == start + sizes_sum(param_types@.take(param_i as int), q),
            params_at(var_offsets@, vars, param_types@, param_i as int, start as int, q),
//@loop 0 start
        let ghost o1 = var_offsets@;
        let ghost ts = param_types@;
        let ghost i = param_i as int;
        proof {
            assert(ts.take(i + 1).drop_last() =~= ts.take(i));
            lemma_sizes_take(ts, i + 1, q);
            lemma_sizes_take(ts, i, q);
            assert(ts[i].defined(q));
        }
//@loop 0 end
        proof {
            assert forall|v: VarId| #[trigger] var_offsets@.contains_key(v) implies exists|j: int| 0 <= j < i + 1 && vars[j] == v by {
                if v == vars[i] {} else { assert(o1.contains_key(v)); let j = choose|j: int| 0 <= j < i && vars[j] == v; assert(vars[j] == v); }
            }
        }
//@loop 0 after
    let ghost base = var_offsets@;
    let ghost b0 = *block;
    proof {
        assert(param_types@.take(param_types@.len() as int) =~= param_types@);
        let l0 = locals_of(b0, vars, global_var_addrs@, q);
        lemma_room_part(l0, slots_block(b0, q), q);
        assert(room(l0, q) as i32 as int == room(l0, q));
    }
//@end
// all globals together
pub open spec fn sum_map(m: Map<VarId, IrType>, w: spec_fn(IrType) -> nat) -> nat decreases m.dom().len() {
    if !m.dom().finite() || m.dom().len() == 0 { 0 } else { let v = m.dom().choose(); w(m[v]) + sum_map(m.remove(v), w) }
}
pub open spec fn sizing(p: &ProgramMetadata) -> spec_fn(IrType) -> nat { |t: IrType| t.size(p) }
pub proof fn lemma_sum(m: Map<VarId, IrType>, p: &ProgramMetadata)
    requires m.dom().finite(), forall|v: VarId| #[trigger] m.contains_key(v) ==> m[v] == p.var_types@[v],
    ensures sum_map(m, sizing(p)) == room(m.dom(), p),
    decreases m.dom().len(),
{
    if m.dom().len() > 0 {
        let v = m.dom().choose();
        assert(m.contains_key(v));
        lemma_sum(m.remove(v), p);
        assert(m.remove(v).dom() =~= m.dom().remove(v));
    }
}
/// `m.values().map(f).sum()`
#[verifier::external_body]
pub fn sum_of_values<F: Fn(&IrType) -> u64>(m: HashMap<VarId, IrType>, f: F, w: Ghost<spec_fn(IrType) -> nat>) -> (r: u64)
    requires
        forall|v: VarId| #[trigger] m@.contains_key(v) ==> f.requires((&m@[v],)),
        forall|v: VarId, n: u64| m@.contains_key(v) && #[trigger] f.ensures((&m@[v],), n) ==> n == (w@)(m@[v]),
        sum_map(m@, w@) <= u64::MAX,
    ensures r == sum_map(m@, w@),
{ m.values().map(f).sum() }
//@fn src/back_end/stack_allocation/allocate_vars.rs get_global_vars_byte_size
//@ret r
//@subst get_vars_from_block(block, prog_metadata).values().map(|var_type| => let all_vars = get_vars_from_block(block, prog_metadata); proof { lemma_slots_block_finite(*block, prog_metadata); lemma_sum(all_vars@, prog_metadata); assert(all_vars@.dom() =~= slots_block(*block, prog_metadata)); } sum_of_values(all_vars, |var_type: &IrType| -> (n: u64) requires var_type.defined(prog_metadata), ensures n == var_type.size(prog_metadata)
//@subst .unwrap() }) .sum() => .unwrap() }, Ghost(sizing(prog_metadata)))
//@spec
    requires types_defined(slots_block(*block, prog_metadata), prog_metadata), room(slots_block(*block, prog_metadata), prog_metadata) <= u64::MAX,
    ensures r == room(slots_block(*block, prog_metadata), prog_metadata),
//@end
