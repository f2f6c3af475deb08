//@type src/id.rs IdGenerator
impl<T: Id + Clone> IdGenerator<T> {
    /// how many identifiers have been handed out
    pub open spec fn count(&self) -> nat { match self.max_id { None => 0, Some(i) => i.idx() + 1 } }
}
//@fn src/id.rs IdGenerator::new
//@ret r
//@spec
    ensures r.count() == 0,
//@end
//@fn src/id.rs IdGenerator::new_id
//@ret r
//@spec
    requires old(self).count() <= u64::MAX,
    ensures r.idx() == old(self).count(), final(self).count() == old(self).count() + 1,
//@end

