// functions that no chain of calls reaches
//@const src/program_config/program_constants.rs MAIN_FUNCTION_SOURCE_NAME
pub broadcast axiom fn hash_model_fun_ref() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<&FunId>();
broadcast use hash_model_fun_ref;
pub type Graph = Map<FunId, Set<FunId>>;
pub open spec fn adjacency(m: Map<FunId, HashSet<FunId>>) -> Graph { m.map_values(|s: HashSet<FunId>| s@) }
/// the function an instruction calls
pub open spec fn callee_of(i: Instruction) -> Option<FunId> { match i { Instruction::Call(_, _, f, _) | Instruction::TailCall(_, f, _) => Some(f), _ => None } }
pub open spec fn calls(s: Seq<Instruction>, f: FunId) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] callee_of(s[k]) == Some(f) }
pub open spec fn call_edge(p: Map<FunId, Function>, a: FunId, b: FunId) -> bool { p.contains_key(a) && calls(p[a].instrs@, b) }
/// a chain of calls
pub open spec fn chain(p: Map<FunId, Function>, c: Seq<FunId>) -> bool { c.len() > 0 && forall|i: int| 0 <= i < c.len() - 1 ==> call_edge(p, #[trigger] c[i], c[i + 1]) }
pub open spec fn chain_between(p: Map<FunId, Function>, a: FunId, b: FunId, c: Seq<FunId>) -> bool { chain(p, c) && c[0] == a && c.last() == b }
pub open spec fn leads_to(p: Map<FunId, Function>, a: FunId, b: FunId) -> bool { exists|c: Seq<FunId>| chain_between(p, a, b, c) }
pub open spec fn main_fun(prog: Program, f: FunId) -> bool { exists|s: String| s@ == MAIN_FUNCTION_SOURCE_NAME@ && #[trigger] prog.program_metadata.function_ids@.contains_key(s) && prog.program_metadata.function_ids@[s] == f }
/// called before any function runs
pub open spec fn entry(prog: Program, f: FunId) -> bool { main_fun(prog, f) || calls(prog.program_instructions.global_instrs@, f) }
pub open spec fn reached(prog: Program, f: FunId) -> bool { exists|e: FunId| entry(prog, e) && #[trigger] leads_to(prog.program_instructions.functions@, e, f) }
/// every function that is called is there
pub open spec fn complete(prog: Program) -> bool {
    let p = prog.program_instructions.functions@;
    &&& forall|a: FunId, b: FunId| #[trigger] call_edge(p, a, b) ==> p.contains_key(b)
    &&& forall|f: FunId| #[trigger] entry(prog, f) ==> p.contains_key(f)
}
pub open spec fn graph_of(p: Map<FunId, Function>, g: Graph) -> bool { (forall|a: FunId| #[trigger] g.contains_key(a) <==> p.contains_key(a)) && forall|a: FunId, b: FunId| g.contains_key(a) ==> (#[trigger] g[a].contains(b) <==> call_edge(p, a, b)) }
pub proof fn lemma_step(p: Map<FunId, Function>, a: FunId, b: FunId, c: FunId)
    requires leads_to(p, a, b), call_edge(p, b, c),
    ensures leads_to(p, a, c),
{
    let s = choose|s: Seq<FunId>| chain_between(p, a, b, s);
    let t = s.push(c);
    assert forall|i: int| 0 <= i < t.len() - 1 implies call_edge(p, #[trigger] t[i], t[i + 1]) by { if i < s.len() - 1 { assert(call_edge(p, s[i], s[i + 1])); } }
    assert(chain_between(p, a, c, t));
}
pub proof fn lemma_stay(p: Map<FunId, Function>, a: FunId)
    ensures leads_to(p, a, a),
{ assert(chain_between(p, a, a, seq![a])); }
/// a set that calls do not leave holds whatever its members lead to
pub proof fn lemma_closed(p: Map<FunId, Function>, s: Set<FunId>, c: Seq<FunId>)
    requires chain(p, c), s.contains(c[0]), forall|a: FunId, b: FunId| s.contains(a) && #[trigger] call_edge(p, a, b) ==> s.contains(b),
    ensures s.contains(c.last()),
    decreases c.len(),
{
    if c.len() > 1 {
        let d = c.drop_last();
        assert forall|i: int| 0 <= i < d.len() - 1 implies call_edge(p, #[trigger] d[i], d[i + 1]) by { assert(call_edge(p, c[i], c[i + 1])); }
        lemma_closed(p, s, d);
        assert(call_edge(p, c[c.len() - 2], c[c.len() - 2 + 1]));
    }
}
pub proof fn lemma_calls_push(s: Seq<Instruction>, k: int, f: FunId)
    requires 0 <= k < s.len(),
    ensures calls(s.take(k + 1), f) == (calls(s.take(k), f) || callee_of(s[k]) == Some(f)),
{
    let t = s.take(k + 1);
    let u = s.take(k);
    if calls(t, f) { let j = choose|j: int| 0 <= j < t.len() && #[trigger] callee_of(t[j]) == Some(f); if j < k { assert(callee_of(u[j]) == Some(f)); } }
    if calls(u, f) { let j = choose|j: int| 0 <= j < u.len() && #[trigger] callee_of(u[j]) == Some(f); assert(callee_of(t[j]) == Some(f)); }
    if callee_of(s[k]) == Some(f) { assert(callee_of(t[k]) == Some(f)); }
}
/// `retain` by value
#[verifier::external_body]
pub fn retain_values<F: Fn(&FunId) -> bool>(m: &mut HashMap<String, FunId>, f: F)
    requires forall|v: FunId| #[trigger] f.requires((&v,)),
    ensures forall|p: spec_fn(FunId) -> bool| (forall|v: FunId, b: bool| #[trigger] f.ensures((&v,), b) ==> b == p(v)) ==> #[trigger] retained(old(m)@, final(m)@, p),
{ m.retain(|_k, v| f(v)) }
pub open spec fn retained(a: Map<String, FunId>, b: Map<String, FunId>, p: spec_fn(FunId) -> bool) -> bool { forall|k: String| #![trigger b.contains_key(k)] b.contains_key(k) == (a.contains_key(k) && p(a[k])) && (b.contains_key(k) ==> b[k] == a[k]) }
//@type src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs CallGraph
//@fn src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs CallGraph::new
//@ret r
//@spec
    ensures r.graph@ == Map::<FunId, HashSet<FunId>>::empty(), r.entries@ == Set::<FunId>::empty(),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::get_main_fun_id
//@ret r
//@spec
    ensures match r {
        Ok(f) => exists|s: String| s@ == MAIN_FUNCTION_SOURCE_NAME@ && #[trigger] self.function_ids@.contains_key(s) && self.function_ids@[s] == f,
        Err(_) => forall|s: String| s@ == MAIN_FUNCTION_SOURCE_NAME@ ==> !#[trigger] self.function_ids@.contains_key(s),
    },
//@end
//@fn src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs generate_call_graph
//@ret r
//@subst let mut callee_fun_ids = HashSet::new(); => let mut callee_fun_ids: HashSet<FunId> = HashSet::new();
//@spec
    ensures match r {
        Ok(g) => graph_of(prog.program_instructions.functions@, adjacency(g.graph@)) && forall|f: FunId| #[trigger] g.entries@.contains(f) <==> entry(*prog, f),
        Err(_) => forall|f: FunId| !main_fun(*prog, f),
    },
//@start
    let ghost p = prog.program_instructions.functions@;
//@iterref 0
//@iter 0 it
//@loop 0
    invariant
        p == prog.program_instructions.functions@,
        call_graph.entries@ == Set::<FunId>::empty(),
        forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.index@ ==> call_graph.graph@.contains_key(*it.seq()[j].0),
        forall|a: FunId| #[trigger] call_graph.graph@.contains_key(a) ==> p.contains_key(a),
        forall|a: FunId, b: FunId| call_graph.graph@.contains_key(a) ==> (#[trigger] call_graph.graph@[a]@.contains(b) <==> call_edge(p, a, b)),
//@loop 0 start
        proof { assert(p.contains_key(*fun_id) && p[*fun_id] == *function); }
        let ghost s = function.instrs@;
//@iterref 1
//@iter 1 it1
//@loop 1
        invariant
            s == function.instrs@, it1.seq().len() == s.len(), forall|j: int| 0 <= j < s.len() ==> *#[trigger] it1.seq()[j] == s[j],
            forall|f: FunId| #[trigger] callee_fun_ids@.contains(f) <==> calls(s.take(it1.index@ as int), f),
//@loop 1 start
            let ghost k = it1.index@ as int;
            let ghost was = callee_fun_ids@;
//@loop 1 end
            proof { assert forall|f: FunId| #[trigger] callee_fun_ids@.contains(f) <==> calls(s.take(k + 1), f) by { lemma_calls_push(s, k, f); assert(was.contains(f) <==> calls(s.take(k), f)); } }
//@loop 1 after
        proof { assert(s.take(s.len() as int) =~= s); }
//@loop 0 after
    proof {
        assert forall|a: FunId| #[trigger] adjacency(call_graph.graph@).contains_key(a) <==> p.contains_key(a) by { if p.contains_key(a) { assert(call_graph.graph@.contains_key(a)); } }
        assert(graph_of(p, adjacency(call_graph.graph@)));
    }
    let ghost s = prog.program_instructions.global_instrs@;
//@iterref 2
//@iter 2 it2
//@loop 2
    invariant
        s == prog.program_instructions.global_instrs@, it2.seq().len() == s.len(), forall|j: int| 0 <= j < s.len() ==> *#[trigger] it2.seq()[j] == s[j],
        graph_of(p, adjacency(call_graph.graph@)),
        forall|f: FunId| #[trigger] call_graph.entries@.contains(f) <==> calls(s.take(it2.index@ as int), f),
//@loop 2 start
        let ghost k = it2.index@ as int;
        let ghost was = call_graph.entries@;
//@loop 2 end
        proof { assert forall|f: FunId| #[trigger] call_graph.entries@.contains(f) <==> calls(s.take(k + 1), f) by { lemma_calls_push(s, k, f); assert(was.contains(f) <==> calls(s.take(k), f)); } }
//@loop 2 after
    proof { assert(s.take(s.len() as int) =~= s); }
//@end
/// not yet seen
pub open spec fn unseen(p: Map<FunId, Function>, seen: Set<&FunId>) -> Set<FunId> { p.dom().filter(|f: FunId| !seen.contains(&f)) }
pub open spec fn listed(s: Seq<&FunId>, f: FunId) -> bool { exists|j: int| 0 <= j < s.len() && *#[trigger] s[j] == f }
pub proof fn lemma_listed_push(s: Seq<&FunId>, x: &FunId, f: FunId)
    ensures listed(s.push(x), f) == (listed(s, f) || *x == f),
{
    let t = s.push(x);
    if listed(t, f) { let j = choose|j: int| 0 <= j < t.len() && *#[trigger] t[j] == f; if j < s.len() { assert(*s[j] == f); } }
    if listed(s, f) { let j = choose|j: int| 0 <= j < s.len() && *#[trigger] s[j] == f; assert(*t[j] == f); }
    if *x == f { assert(*t[s.len() as int] == f); }
}
pub proof fn lemma_listed_pop(s: Seq<&FunId>, f: FunId)
    requires s.len() > 0,
    ensures listed(s, f) == (listed(s.drop_last(), f) || *s.last() == f),
{ lemma_listed_push(s.drop_last(), s.last(), f); assert(s.drop_last().push(s.last()) =~= s); }
pub proof fn lemma_unseen(p: Map<FunId, Function>, seen: Set<&FunId>, x: &FunId)
    requires !seen.contains(x), p.contains_key(*x),
    ensures unseen(p, seen.insert(x)).len() + 1 == unseen(p, seen).len(),
{ assert(unseen(p, seen.insert(x)) =~= unseen(p, seen).remove(*x)); }
/// what has been seen: everything in it is reached, and what is not explored yet is on the list
pub open spec fn exploring(p: Map<FunId, Function>, entry: FunId, seen: Set<&FunId>, todo: Seq<&FunId>, done: Set<FunId>) -> bool {
    &&& forall|f: FunId| #[trigger] seen.contains(&f) ==> leads_to(p, entry, f) && p.contains_key(f)
    &&& forall|j: int| 0 <= j < todo.len() ==> seen.contains(#[trigger] todo[j])
    &&& forall|f: FunId| #[trigger] done.contains(f) ==> seen.contains(&f)
    &&& forall|f: FunId| #[trigger] seen.contains(&f) ==> done.contains(f) || listed(todo, f)
}
//@fn src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs walk_graph
//@subst <T: Eq + Hash + Display, F>( => (
//@subst HashMap<T, HashSet<T>> => HashMap<FunId, HashSet<FunId>>
//@subst entry: T, => entry: FunId,
//@subst mut f: F, => unused_fun_ids: &mut HashSet<FunId>, Ghost(p): Ghost<Map<FunId, Function>>,
//@subst where F: FnMut(&T), =>
//@subst f(node); => { unused_fun_ids.remove(node); }
//@subst let mut seen = HashSet::new(); => let mut seen: HashSet<&FunId> = HashSet::new();
//@spec
    requires
        graph_of(p, adjacency(adjacency_list@)), p.contains_key(entry), forall|a: FunId, b: FunId| #[trigger] call_edge(p, a, b) ==> p.contains_key(b),
    ensures
        forall|f: FunId| #[trigger] final(unused_fun_ids)@.contains(f) <==> old(unused_fun_ids)@.contains(f) && !leads_to(p, entry, f),
//@start
    let ghost u0 = unused_fun_ids@;
    let ghost g = adjacency(adjacency_list@);
    let ghost mut done = Set::<FunId>::empty();
//@loop 0 before
    proof {
        lemma_stay(p, entry);
        assert(*to_explore@[0] == entry);
        assert(listed(to_explore@, entry));
        assert forall|f: FunId| #[trigger] seen@.contains(&f) implies f == entry by {}
    }
//@loop 0
    invariant
        u0 == old(unused_fun_ids)@, g == adjacency(adjacency_list@), graph_of(p, g), forall|a: FunId, b: FunId| #[trigger] call_edge(p, a, b) ==> p.contains_key(b),
        seen@.contains(&entry),
        exploring(p, entry, seen@, to_explore@, done),
        forall|a: FunId, b: FunId| done.contains(a) && #[trigger] call_edge(p, a, b) ==> seen@.contains(&b),
        forall|f: FunId| #[trigger] unused_fun_ids@.contains(f) <==> u0.contains(f) && !done.contains(f),
    decreases unseen(p, seen@).len() + to_explore@.len(),
//@loop 0 start
        let ghost t0 = to_explore@;
        let ghost m0 = unseen(p, seen@).len() + to_explore@.len();
        let ghost s0 = seen@;
//@before let children
        let ghost x = *node;
        proof {
            assert(t0.last() == node);
            assert(to_explore@ =~= t0.drop_last());
            assert(seen@.contains(&x));
            assert(g.contains_key(x));
            assert forall|f: FunId| #[trigger] seen@.contains(&f) implies done.contains(f) || f == x || listed(to_explore@, f) by { lemma_listed_pop(t0, f); }
            assert forall|j: int| 0 <= j < to_explore@.len() implies seen@.contains(#[trigger] to_explore@[j]) by { assert(to_explore@[j] == t0[j]); }
        }
//@iterref 1
//@iter 1 it
//@loop 1
            invariant
                graph_of(p, g), g.contains_key(x), g[x] == __s1@, forall|a: FunId, b: FunId| #[trigger] call_edge(p, a, b) ==> p.contains_key(b),
                exploring(p, entry, seen@, to_explore@, done.insert(x)), seen@.contains(&x), leads_to(p, entry, x), seen@.contains(&entry),
                forall|f: FunId| s0.contains(&f) ==> #[trigger] seen@.contains(&f),
                forall|j: int| 0 <= j < it.index@ ==> seen@.contains(#[trigger] it.seq()[j]),
                unseen(p, seen@).len() + to_explore@.len() + 1 == m0,
//@loop 1 start
            let ghost seen1 = seen@;
            let ghost todo1 = to_explore@;
            proof {
                assert(__s1@.contains(*child));
                assert(g[x].contains(*child));
                assert(call_edge(p, x, *child));
                lemma_step(p, entry, x, *child);
            }
//@loop 1 end
            proof {
                let c = *child;
                if !seen1.contains(&c) {
                    lemma_unseen(p, seen1, &c);
                    assert(seen@ =~= seen1.insert(&c));
                    assert forall|f: FunId| #[trigger] seen@.contains(&f) implies done.insert(x).contains(f) || listed(to_explore@, f) by { lemma_listed_push(todo1, child, f); assert(f == c || seen1.contains(&f)); }
                    assert forall|j: int| 0 <= j < to_explore@.len() implies seen@.contains(#[trigger] to_explore@[j]) by { if j < todo1.len() { assert(to_explore@[j] == todo1[j]); } }
                }
                assert(seen@.contains(&c));
            }
//@loop 1 after
        proof {
            assert forall|b: FunId| #[trigger] call_edge(p, x, b) implies seen@.contains(&b) by { assert(g[x].contains(b)); assert(__s1@.contains(b)); }
        }
//@loop 0 end
        proof { done = done.insert(x); }
//@loop 0 after
    proof {
        assert forall|f: FunId| seen@.contains(&f) implies done.contains(f) by { assert(!listed(to_explore@, f)); }
        assert forall|f: FunId| #[trigger] unused_fun_ids@.contains(f) <==> u0.contains(f) && !leads_to(p, entry, f) by {
            if leads_to(p, entry, f) {
                let c = choose|c: Seq<FunId>| chain_between(p, entry, f, c);
                assert forall|a: FunId, b: FunId| done.contains(a) && #[trigger] call_edge(p, a, b) implies done.contains(b) by { assert(seen@.contains(&b)); }
                assert(done.contains(entry));
                lemma_closed(p, done, c);
            }
            if done.contains(f) { assert(seen@.contains(&f)); }
        }
    }
//@end
/// none of them is reached from e
pub open spec fn spares(p: Map<FunId, Function>, s: Set<FunId>, e: FunId) -> bool { forall|f: FunId| #[trigger] s.contains(f) ==> !leads_to(p, e, f) }
pub open spec fn in_set(s: Set<FunId>) -> spec_fn(FunId) -> bool { |f: FunId| s.contains(f) }
/// the program without some functions
pub open spec fn without(n: Program, o: Program, gone: spec_fn(FunId) -> bool) -> bool {
    let (a, b) = (n.program_metadata, o.program_metadata);
    &&& n == (Program { program_instructions: ProgramInstructions { functions: n.program_instructions.functions, ..o.program_instructions }, program_metadata: ProgramMetadata { function_types: a.function_types, function_param_var_mappings: a.function_param_var_mappings, function_ids: a.function_ids, ..b } })
    &&& dropped(o.program_instructions.functions@, n.program_instructions.functions@, gone)
    &&& dropped(b.function_types@, a.function_types@, gone)
    &&& dropped(b.function_param_var_mappings@, a.function_param_var_mappings@, gone)
    &&& retained(b.function_ids@, a.function_ids@, |f: FunId| !gone(f))
}
/// the entries of the functions that are gone, and no others
pub open spec fn dropped<V>(o: Map<FunId, V>, n: Map<FunId, V>, gone: spec_fn(FunId) -> bool) -> bool { forall|f: FunId| #![trigger n.contains_key(f)] n.contains_key(f) == (o.contains_key(f) && !gone(f)) && (n.contains_key(f) ==> n[f] == o[f]) }
pub open spec fn unneeded(prog: Program) -> spec_fn(FunId) -> bool { |f: FunId| prog.program_instructions.functions@.contains_key(f) && !reached(prog, f) }
//@fn src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs remove_unused_functions
//@ret r
//@subst let mut unused_fun_ids = HashSet::new(); => let mut unused_fun_ids: HashSet<FunId> = HashSet::new();
//@subst walk_graph(&call_graph.graph, entry_fun_id, |fun_id| { unused_fun_ids.remove(fun_id); }); => walk_graph(&call_graph.graph, entry_fun_id, &mut unused_fun_ids, Ghost(p));
//@subst prog.program_metadata.function_ids.retain(|_name, fun_id| fun_id != unused_fun_id) => retain_values(&mut prog.program_metadata.function_ids, |fun_id: &FunId| -> (r: bool) ensures r == (*fun_id != *unused_fun_id) { fun_id != unused_fun_id })
//@spec
    requires complete(*old(prog)),
    ensures match r {
        Ok(_) => without(*final(prog), *old(prog), unneeded(*old(prog))),
        Err(_) => *final(prog) == *old(prog) && forall|f: FunId| !main_fun(*old(prog), f),
    },
//@start
    let ghost o = *prog;
    let ghost p = prog.program_instructions.functions@;
//@iter 0 it
//@loop 0
    invariant
        *prog == o, p == prog.program_instructions.functions@,
        forall|j: int| 0 <= j < it.index@ ==> unused_fun_ids@.contains(*#[trigger] it.seq()[j]),
        forall|f: FunId| #[trigger] unused_fun_ids@.contains(f) ==> p.contains_key(f),
//@loop 0 start
        proof { assert(p.contains_key(*fun_id)); }
//@loop 0 after
    proof { assert forall|f: FunId| #[trigger] unused_fun_ids@.contains(f) <==> p.contains_key(f) by {} }
//@iterval 1
//@iter 1 it1
//@loop 1
    invariant
        *prog == o, p == prog.program_instructions.functions@, complete(o), graph_of(p, adjacency(call_graph.graph@)), forall|f: FunId| #[trigger] __s1@.contains(f) <==> entry(o, f),
        forall|f: FunId| #[trigger] unused_fun_ids@.contains(f) ==> p.contains_key(f),
        forall|f: FunId| p.contains_key(f) && !(#[trigger] unused_fun_ids@.contains(f)) ==> reached(o, f),
        forall|j: int| 0 <= j < it1.index@ ==> spares(p, unused_fun_ids@, *#[trigger] it1.seq()[j]),
//@loop 1 start
        proof { assert(__s1@.contains(*__r1)); assert(entry(o, entry_fun_id)); assert(p.contains_key(entry_fun_id)); }
//@loop 1 after
    proof {
        assert forall|f: FunId| #[trigger] unused_fun_ids@.contains(f) <==> unneeded(o)(f) by {
            if unused_fun_ids@.contains(f) && reached(o, f) {
                let e = choose|e: FunId| entry(o, e) && #[trigger] leads_to(p, e, f);
                assert(__s1@.contains(e));
                assert(spares(p, unused_fun_ids@, e));
            }
        }
    }
//@loop 2 before
    let ghost mut gone = Set::<FunId>::empty();
//@iterref 2
//@iter 2 it2
//@loop 2
    invariant
        forall|f: FunId| #[trigger] unused_fun_ids@.contains(f) <==> unneeded(o)(f),
        without(*prog, o, in_set(gone)), forall|f: FunId| #[trigger] gone.contains(f) ==> unused_fun_ids@.contains(f),
        forall|j: int| 0 <= j < it2.index@ ==> gone.contains(*#[trigger] it2.seq()[j]),
//@loop 2 start
        let ghost p1 = *prog;
        let ghost g1 = gone;
        proof { assert(unused_fun_ids@.contains(*unused_fun_id)); gone = gone.insert(*unused_fun_id); }
//@loop 2 end
        proof {
            let x = *unused_fun_id;
            let g2 = in_set(gone);
            assert forall|f: FunId| #[trigger] gone.contains(f) == (g1.contains(f) || f == x) by {}
            assert(dropped(o.program_instructions.functions@, prog.program_instructions.functions@, g2));
            assert(dropped(o.program_metadata.function_types@, prog.program_metadata.function_types@, g2));
            assert(dropped(o.program_metadata.function_param_var_mappings@, prog.program_metadata.function_param_var_mappings@, g2));
            let q = |f: FunId| f != x;
            assert(retained(p1.program_metadata.function_ids@, prog.program_metadata.function_ids@, q));
            let w = |f: FunId| !in_set(g1)(f);
            assert(retained(o.program_metadata.function_ids@, p1.program_metadata.function_ids@, |f: FunId| !in_set(g1)(f)));
            let (i0, i1, i2) = (o.program_metadata.function_ids@, p1.program_metadata.function_ids@, prog.program_metadata.function_ids@);
            let w2 = |f: FunId| !g2(f);
            assert forall|k: String| #![trigger i2.contains_key(k)] i2.contains_key(k) == (i0.contains_key(k) && w2(i0[k])) && (i2.contains_key(k) ==> i2[k] == i0[k]) by {
                assert(i1.contains_key(k) == (i0.contains_key(k) && w(i0[k])));
                assert(i2.contains_key(k) == (i1.contains_key(k) && q(i1[k])));
            }
            assert(retained(i0, i2, w2));
            assert(without(*prog, o, g2));
        }
//@loop 2 after
    proof {
        assert forall|f: FunId| #[trigger] gone.contains(f) <==> unneeded(o)(f) by { if unneeded(o)(f) { assert(unused_fun_ids@.contains(f)); } else { assert(!unused_fun_ids@.contains(f)); } }
        assert(dropped(o.program_instructions.functions@, prog.program_instructions.functions@, unneeded(o)));
        assert(dropped(o.program_metadata.function_types@, prog.program_metadata.function_types@, unneeded(o)));
        assert(dropped(o.program_metadata.function_param_var_mappings@, prog.program_metadata.function_param_var_mappings@, unneeded(o)));
        assert(retained(o.program_metadata.function_ids@, prog.program_metadata.function_ids@, |f: FunId| !in_set(gone)(f)));
        assert(retained(o.program_metadata.function_ids@, prog.program_metadata.function_ids@, |f: FunId| !unneeded(o)(f)));
    }
//@end
