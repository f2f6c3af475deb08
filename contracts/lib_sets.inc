// hash sets and in-place access to tables
//@rename extend extend_all
//@rename get_mut get_mut_of
pub broadcast axiom fn hashset_eq<K: Eq + std::hash::Hash>(a: HashSet<K>, b: HashSet<K>) ensures #[trigger] <HashSet<K> as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn hashset_obeys<K: Eq + std::hash::Hash>() ensures #[trigger] <HashSet<K> as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn hashset_ext<K>(a: HashSet<K>, b: HashSet<K>) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
broadcast use hashset_eq;
broadcast use hashset_obeys;
broadcast use hashset_ext;
/// `extend` with a whole collection of the same kind
pub trait ExtendAll<O> { fn extend_all(&mut self, o: O); }
impl<K: Eq + std::hash::Hash> ExtendAll<HashSet<K>> for HashSet<K> {
    #[verifier::external_body]
    fn extend_all(&mut self, o: HashSet<K>) ensures final(self)@ == old(self)@.union(o@) { self.extend(o) }
}
impl<K: Eq + std::hash::Hash, V> ExtendAll<HashMap<K, V>> for HashMap<K, V> {
    #[verifier::external_body]
    fn extend_all(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { self.extend(o) }
}
/// `get_mut`: the value at the key, or nothing; writing through it changes that value only
pub trait GetMutOf<K, V> { fn get_mut_of(&mut self, k: K) -> (r: Option<&mut V>); }
impl<'k, K: Eq + std::hash::Hash, V> GetMutOf<&'k K, V> for HashMap<K, V> {
    #[verifier::external_body]
    fn get_mut_of(&mut self, k: &'k K) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && *final(self) == *old(self) }
    { self.get_mut(k) }
}
impl<T> GetMutOf<usize, T> for Vec<T> {
    #[verifier::external_body]
    fn get_mut_of(&mut self, k: usize) -> (r: Option<&mut T>)
        ensures match r { Some(v) => k < old(self)@.len() && *v == old(self)@[k as int] && final(self)@ == old(self)@.update(k as int, *final(v)), None => k >= old(self)@.len() && *final(self) == *old(self) }
    { self.get_mut(k) }
}
