// identifiers: the trait with its contract, and every identifier type
pub trait Id: Sized {
    /// the number of this identifier
    spec fn idx(&self) -> nat;
    fn initial_id() -> (r: Self)
        ensures r.idx() == 0;
    fn next_id(&self) -> (r: Self)
        requires self.idx() < u64::MAX,
        ensures r.idx() == self.idx() + 1;
    fn as_u64(&self) -> (r: u64)
        ensures r == self.idx();
}
//@type src/middle_end/ids.rs InstructionId clone eq hash
//@fn src/middle_end/ids.rs Id for InstructionId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for InstructionId::next_id
//@join
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for InstructionId::as_u64
//@join
//@ret r
//@end
//@type src/middle_end/ids.rs FunId clone eq hash
//@fn src/middle_end/ids.rs Id for FunId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for FunId::next_id
//@join
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for FunId::as_u64
//@join
//@ret r
//@end
//@type src/middle_end/ids.rs LabelId clone eq hash
//@fn src/middle_end/ids.rs Id for LabelId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for LabelId::next_id
//@join
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for LabelId::as_u64
//@join
//@ret r
//@end
//@type src/middle_end/ids.rs StringLiteralId clone eq hash
//@fn src/middle_end/ids.rs Id for StringLiteralId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for StringLiteralId::next_id
//@join
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for StringLiteralId::as_u64
//@join
//@ret r
//@end
//@type src/middle_end/ids.rs StructId clone eq hash
//@fn src/middle_end/ids.rs Id for StructId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for StructId::next_id
//@join
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for StructId::as_u64
//@join
//@ret r
//@end
//@type src/middle_end/ids.rs UnionId clone eq hash
//@fn src/middle_end/ids.rs Id for UnionId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for UnionId::next_id
//@join
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for UnionId::as_u64
//@join
//@ret r
//@end
//@type src/relooper/blocks.rs LoopBlockId clone eq hash
//@fn src/relooper/blocks.rs Id for LoopBlockId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/relooper/blocks.rs Id for LoopBlockId::next_id
//@join
//@ret r
//@end
//@fn src/relooper/blocks.rs Id for LoopBlockId::as_u64
//@join
//@ret r
//@end
//@type src/relooper/blocks.rs MultipleBlockId clone eq hash
//@fn src/relooper/blocks.rs Id for MultipleBlockId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/relooper/blocks.rs Id for MultipleBlockId::next_id
//@join
//@ret r
//@end
//@fn src/relooper/blocks.rs Id for MultipleBlockId::as_u64
//@join
//@ret r
//@end
//@type src/middle_end/ids.rs ValueType clone eq hash
//@type src/middle_end/ids.rs VarId clone eq hash
//@fn src/middle_end/ids.rs Id for VarId::initial_id
//@implitems
    open spec fn idx(&self) -> nat { self.0 as nat }
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for VarId::next_id
//@join
//@ret r
//@end
//@fn src/middle_end/ids.rs Id for VarId::as_u64
//@join
//@ret r
//@end
//@fn src/middle_end/ids.rs VarId::set_value_type
//@spec
    ensures final(self).idx() == old(self).idx(), final(self).1 == value_type,
//@end
//@fn src/middle_end/ids.rs VarId::get_value_type
//@ret r
//@spec
    ensures r == self.1,
//@end
