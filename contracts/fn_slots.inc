// byte ranges of variables in a frame
//@type src/back_end/stack_allocation/var_locations.rs VarLocation clone eq hash
//@type src/back_end/stack_allocation/clash_interval_var_locations.rs ClashInterval
//@type src/back_end/stack_allocation/clash_interval_var_locations.rs ClashIntervalVarLocations
impl VarLocation {
    pub open spec fn end(&self) -> int { self.start + self.byte_size }
    /// not empty, and ends where a number can say
    pub open spec fn proper(&self) -> bool { self.byte_size > 0 && self.end() <= u32::MAX }
}
/// the ranges have a byte in common
pub open spec fn overlap(a: VarLocation, b: VarLocation) -> bool { a.start < b.end() && b.start < a.end() }
impl ClashGraph {
    /// the two may not share memory
    pub open spec fn apart(&self, a: VarId, b: VarId) -> bool { self.clash(a, b) || self.universal(a) || self.universal(b) }
}
//@fn src/back_end/stack_allocation/var_locations.rs VarLocation::end_exclusive
//@ret r
//@spec
    requires self.end() <= u32::MAX,
    ensures r == self.end(),
//@end
//@fn src/back_end/stack_allocation/var_locations.rs VarLocation::end_inclusive
//@ret r
//@spec
    requires self.proper(),
    ensures r == self.end() - 1,
//@end
impl ClashInterval {
    pub closed spec fn at(&self, s: int, e: int) -> bool { self.start == s && self.end == e }
    pub closed spec fn before(&self, o: ClashInterval) -> bool { self.start < o.start || self.start == o.start && self.end < o.end }
    pub closed spec fn met(&self, l: VarLocation) -> bool { self.start < l.end() && l.start <= self.end }
    pub closed spec fn sound(&self, hi: int) -> bool { self.start <= self.end && self.end < hi }
    /// the variables in the range may not share memory with v
    pub closed spec fn bars(&self, v: VarId) -> bool { self.clashes@.contains(v) || self.universal_clash }
    /// every variable that the location's may not share memory with is barred
    pub closed spec fn covers(&self, l: VarLocation, g: ClashGraph) -> bool {
        self.start == l.start && self.end == l.end() - 1 && (g.universal(l.var) ==> self.universal_clash) && forall|b: VarId| #[trigger] clash_in(g.clashes@, l.var, b) ==> self.clashes@.contains(b)
    }
    pub closed spec fn keeps(&self, o: ClashInterval) -> bool { self.start == o.start && self.end == o.end && (o.universal_clash ==> self.universal_clash) && o.clashes@.subset_of(self.clashes@) }
}
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs ClashInterval::overlaps
//@ret r
//@spec
    requires var_location.proper(),
    ensures r == self.met(*var_location),
//@end
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs ClashInterval::is_after
//@ret r
//@spec
    requires var_location.proper(),
    ensures r == (self.start >= var_location.end()),
//@end
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs ClashInterval::does_var_clash
//@ret r
//@spec
    ensures r == (self.bars(*var) || clash_graph.universal(*var)),
//@end
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs ClashInterval::merge
//@subst self.universal_clash |= other.universal_clash => self.universal_clash = self.universal_clash || other.universal_clash
//@spec
    ensures final(self).keeps(*old(self)), final(self).keeps(other) || !old(self).at(other.start as int, other.end as int),
//@end
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs PartialEq for ClashInterval::eq
//@inherent
//@ret r
//@spec
    ensures r == (self.start == other.start && self.end == other.end),
//@end
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs PartialOrd for ClashInterval::partial_cmp
//@inherent
//@ret r
//@spec
    ensures self.before(*other) ==> r == Some(Ordering::Less), other.before(*self) ==> r == Some(Ordering::Greater), self.at(other.start as int, other.end as int) ==> r == Some(Ordering::Equal),
//@end
pub open spec fn sorted_intervals(v: Seq<ClashInterval>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> v[i].before(v[j]) }
pub open spec fn sound_intervals(v: Seq<ClashInterval>, hi: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).sound(hi) }
/// some interval is this one, with at least its clashes
pub open spec fn kept(v: Seq<ClashInterval>, c: ClashInterval) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).keeps(c) }
pub open spec fn all_kept(v: Seq<ClashInterval>, o: Seq<ClashInterval>) -> bool { forall|i: int| 0 <= i < o.len() ==> kept(v, #[trigger] o[i]) }
pub open spec fn covered(v: Seq<ClashInterval>, l: VarLocation, g: ClashGraph) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).covers(l, g) }
/// the ranges given out: each proper, and overlapping ones of variables that may share memory
pub open spec fn laid_out(s: Set<VarLocation>, g: ClashGraph, hi: int) -> bool {
    &&& forall|l: VarLocation| #[trigger] s.contains(l) ==> l.proper() && l.end() <= hi
    &&& forall|a: VarLocation, b: VarLocation| #![trigger s.contains(a), s.contains(b)] s.contains(a) && s.contains(b) && a.var != b.var && overlap(a, b) ==> !g.apart(a.var, b.var)
}
impl ClashIntervalVarLocations {
    pub closed spec fn given(&self) -> Set<VarLocation> { self.locations@ }
    pub closed spec fn wf(&self, g: ClashGraph, hi: int) -> bool {
        &&& sorted_intervals(self.clash_intervals@)
        &&& self.clash_intervals@.len() <= hi
        &&& sound_intervals(self.clash_intervals@, hi)
        &&& laid_out(self.locations@, g, hi)
        &&& forall|l: VarLocation| #[trigger] self.locations@.contains(l) ==> covered(self.clash_intervals@, l, g)
    }
    /// the place is free for the variable
    pub open spec fn free(&self, l: VarLocation, g: ClashGraph) -> bool { forall|o: VarLocation| #[trigger] self.given().contains(o) && overlap(o, l) ==> !g.apart(o.var, l.var) }
}
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs ClashIntervalVarLocations::new
//@ret r
//@spec
    ensures forall|g: ClashGraph, hi: int| hi >= 0 ==> #[trigger] r.wf(g, hi), r.given() == Set::<VarLocation>::empty(),
//@end_
//@end
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs ClashIntervalVarLocations::insert_clash_interval
//@subst &clash_interval == mid_interval => clash_interval.eq(mid_interval)
//@subst &clash_interval < mid_interval => matches!(clash_interval.partial_cmp(mid_interval), Some(Ordering::Less))
//@spec
    requires sorted_intervals(old(self).clash_intervals@), 2 * old(self).clash_intervals@.len() < usize::MAX,
    ensures
        final(self).locations == old(self).locations, sorted_intervals(final(self).clash_intervals@),
        all_kept(final(self).clash_intervals@, old(self).clash_intervals@), kept(final(self).clash_intervals@, clash_interval),
        forall|hi: int| #[trigger] sound_intervals(old(self).clash_intervals@, hi) && clash_interval.sound(hi) ==> sound_intervals(final(self).clash_intervals@, hi),
        final(self).clash_intervals@.len() <= old(self).clash_intervals@.len() + 1,
//@loop 0
            invariant
                self.locations == old(self).locations, self.clash_intervals@ == old(self).clash_intervals@, sorted_intervals(self.clash_intervals@), 2 * self.clash_intervals@.len() < usize::MAX, low <= high <= self.clash_intervals@.len(),
                forall|i: int| 0 <= i < low ==> (#[trigger] self.clash_intervals@[i]).before(clash_interval),
                forall|i: int| high <= i < self.clash_intervals@.len() ==> clash_interval.before(#[trigger] self.clash_intervals@[i]),
            decreases high - low,
//@loop 0 end
            proof { assert(self.clash_intervals@ =~= old(self).clash_intervals@); }
//@after mid_interval.merge
                proof {
                    let n = self.clash_intervals@;
                    let o = old(self).clash_intervals@;
                    assert(n[mid as int].keeps(clash_interval));
                    assert forall|i: int| 0 <= i < o.len() implies kept(n, #[trigger] o[i]) by { assert(n[i].keeps(o[i])); }
                }
//@before return
            proof { assert(self.clash_intervals@[0].keeps(clash_interval)); }
//@end_
        proof {
            let n = self.clash_intervals@;
            let o = old(self).clash_intervals@;
            assert(n[low as int].keeps(clash_interval));
            assert forall|i: int| 0 <= i < o.len() implies kept(n, #[trigger] o[i]) by { if i < low { assert(n[i].keeps(o[i])); } else { assert(n[i + 1].keeps(o[i])); } }
        }
//@end
/// no interval that the range reaches is of a variable that may not share memory with this one
pub open spec fn clear_of(v: Seq<ClashInterval>, l: VarLocation, g: ClashGraph, n: int) -> bool { forall|i: int| 0 <= i < n && (#[trigger] v[i]).met(l) ==> !v[i].bars(l.var) && !g.universal(l.var) }
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs VarLocations for ClashIntervalVarLocations::find_lowest_non_clashing_location_for_var
//@inherent
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@ret r
//@spec
    requires exists|hi: int| #[trigger] self.wf(*clash_graph, hi) && 0 <= hi && hi + byte_size <= u32::MAX, byte_size > 0, clash_graph.symmetric(),
    ensures r.var == var, r.byte_size == byte_size, self.free(r, *clash_graph), forall|hi: int| #[trigger] self.wf(*clash_graph, hi) && hi >= 0 ==> r.end() <= hi + byte_size,
//@start
        let ghost top = choose|hi: int| #[trigger] self.wf(*clash_graph, hi) && 0 <= hi && hi + byte_size <= u32::MAX;
        let ghost v = self.clash_intervals@;
//@loop 0
            invariant
                v == self.clash_intervals@, self.wf(*clash_graph, top), top + byte_size <= u32::MAX, 0 < byte_size,
                lowest_possible_location.var == var, lowest_possible_location.byte_size == byte_size,
                forall|hi: int| #[trigger] self.wf(*clash_graph, hi) && hi >= 0 ==> lowest_possible_location.start <= hi,
            ensures clear_of(v, lowest_possible_location, *clash_graph, v.len() as int),
            decreases top - lowest_possible_location.start,
//@loop 0 start
            let ghost l0 = lowest_possible_location;
//@loop 1
                invariant
                    v == self.clash_intervals@, self.wf(*clash_graph, top), top + byte_size <= u32::MAX, 0 < byte_size,
                    lowest_possible_location == l0,
                    forall|hi: int| #[trigger] self.wf(*clash_graph, hi) && hi >= 0 ==> lowest_possible_location.start <= hi,
                    i <= v.len(), clear_of(v, lowest_possible_location, *clash_graph, i as int),
                decreases v.len() - i,
//@end_
        proof {
            let l = lowest_possible_location;
            assert forall|o: VarLocation| #[trigger] self.given().contains(o) && overlap(o, l) implies !clash_graph.apart(o.var, l.var) by {
                assert(covered(v, o, *clash_graph));
                let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).covers(o, *clash_graph);
                assert(v[i].met(l));
            }
        }
//@end
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs VarLocations for ClashIntervalVarLocations::insert
//@inherent
//@spec
    requires location.proper(), clash_graph.symmetric(), exists|hi: int| #[trigger] old(self).wf(*clash_graph, hi) && hi <= i32::MAX, old(self).free(location, *clash_graph), forall|o: VarLocation| #[trigger] old(self).given().contains(o) ==> o.var != location.var,
    ensures final(self).given() == old(self).given().insert(location), forall|hi: int, hj: int| #[trigger] old(self).wf(*clash_graph, hi) && location.end() <= hj && hi < hj ==> #[trigger] final(self).wf(*clash_graph, hj),
//@start
        let ghost l = location;
        let ghost g = *clash_graph;
        let ghost o = self.clash_intervals@;
//@end_
        proof {
            let n = self.clash_intervals@;
            assert forall|hi: int, hj: int| #[trigger] old(self).wf(g, hi) && l.end() <= hj && hi < hj implies #[trigger] self.wf(g, hj) by {
                assert(sound_intervals(o, hj)) by { assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).sound(hj) by { assert(o[i].sound(hi)); } }
                assert(sound_intervals(n, hj));
                assert(laid_out(self.locations@, g, hj)) by {
                    assert forall|x: VarLocation, y: VarLocation| #![trigger self.locations@.contains(x), self.locations@.contains(y)] self.locations@.contains(x) && self.locations@.contains(y) && x.var != y.var && overlap(x, y) implies !g.apart(x.var, y.var) by {
                        if x == l { assert(old(self).given().contains(y) && overlap(y, l)); } else if y == l { assert(old(self).given().contains(x)); } else { assert(old(self).locations@.contains(x) && old(self).locations@.contains(y)); }
                    }
                }
                assert forall|x: VarLocation| #[trigger] self.locations@.contains(x) implies covered(n, x, g) by {
                    if x == l { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).keeps(c); assert(n[i].covers(l, g)); } else {
                        assert(covered(o, x, g));
                        let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).covers(x, g);
                        assert(kept(n, o[j]));
                        let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).keeps(o[j]);
                        assert(n[i].covers(x, g));
                    }
                }
            }
        }
//@before self.insert_clash_interval
        let ghost c = clash_interval;
//@end
//@fn src/back_end/stack_allocation/clash_interval_var_locations.rs VarLocations for ClashIntervalVarLocations::into_hashset
//@inherent
//@ret r
//@spec
    ensures r@ == self.given(),
//@end
