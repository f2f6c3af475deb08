//@include lib_std.inc
//@include fn_ids.inc
//@include fn_widx.inc
//@include fn_idgen.inc
/// histories: when every step hands out the number of identifiers handed out so far, no two are the same
pub proof fn lemma_history_unique(handed_out: Seq<nat>, start: nat, i: int, j: int)
    requires forall|k: int| 0 <= k < handed_out.len() ==> #[trigger] handed_out[k] == start + k,
        0 <= i < j < handed_out.len(),
    ensures handed_out[i] != handed_out[j],
{}

//@include types_ir.inc
impl ProgramMetadata {
    /// every identifier in use is one its generator has handed out
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: StructId| #[trigger] self.structs@.contains_key(k) ==> k.idx() < self.struct_id_generator.count()
        &&& forall|k: UnionId| #[trigger] self.unions@.contains_key(k) ==> k.idx() < self.union_id_generator.count()
        &&& forall|k: StringLiteralId| #[trigger] self.string_literals@.contains_key(k) ==> k.idx() < self.string_literal_id_generator.count()
        &&& forall|n: String| #[trigger] self.function_ids@.contains_key(n) ==> self.function_ids@[n].idx() < self.fun_id_generator.count()
        &&& forall|n: String| #[trigger] self.label_ids@.contains_key(n) ==> self.label_ids@[n].idx() < self.label_id_generator.count()
    }
    /// the tables other than those named by identifiers of the kind at hand
    pub open spec fn tables(&self) -> (Map<String, LabelId>, Map<String, FunId>, Map<StringLiteralId, String>, Map<StructId, StructType>, Map<UnionId, UnionType>, Map<VarId, IrType>) {
        (self.label_ids@, self.function_ids@, self.string_literals@, self.structs@, self.unions@, self.var_types@)
    }
    pub open spec fn counts(&self) -> (nat, nat, nat, nat, nat, nat, nat) {
        (self.instr_id_generator.count(), self.label_id_generator.count(), self.fun_id_generator.count(), self.var_id_generator.count(),
         self.string_literal_id_generator.count(), self.struct_id_generator.count(), self.union_id_generator.count())
    }
    pub open spec fn room(&self) -> bool {
        let c = self.counts();
        c.0 <= u64::MAX && c.1 <= u64::MAX && c.2 <= u64::MAX && c.3 <= u64::MAX && c.4 <= u64::MAX && c.5 <= u64::MAX && c.6 <= u64::MAX
    }
}
//@fn src/middle_end/ir.rs ProgramMetadata::new
//@ret r
//@spec
    ensures r.wf(), r.counts() == (0nat, 0nat, 0nat, 0nat, 0nat, 0nat, 0nat), r.null_dest_var is None,
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::new_label
//@ret r
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), r.idx() == old(self).counts().1, final(self).counts() == ({ let c = old(self).counts(); (c.0, c.1 + 1, c.2, c.3, c.4, c.5, c.6) }), final(self).tables() == old(self).tables(),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::new_identifier_label
//@ret r
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), r.idx() == old(self).counts().1, final(self).counts() == ({ let c = old(self).counts(); (c.0, c.1 + 1, c.2, c.3, c.4, c.5, c.6) }), final(self).label_ids@ == old(self).label_ids@.insert(name, r),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::new_fun_declaration
//@ret r
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(),
        match r {
            Ok(f) => f.idx() == old(self).counts().2 && final(self).counts() == ({ let c = old(self).counts(); (c.0, c.1, c.2 + 1, c.3, c.4, c.5, c.6) }) && !old(self).function_ids@.contains_key(name) && final(self).function_ids@ == old(self).function_ids@.insert(name, f),
            Err(_) => final(self).counts() == old(self).counts() && old(self).function_ids@.contains_key(name),
        },
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::new_var
//@ret r
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), r.idx() == old(self).counts().3, final(self).counts() == ({ let c = old(self).counts(); (c.0, c.1, c.2, c.3 + 1, c.4, c.5, c.6) }), r.1 == value_type,
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::new_string_literal
//@ret r
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), r.idx() == old(self).counts().4, final(self).counts() == ({ let c = old(self).counts(); (c.0, c.1, c.2, c.3, c.4 + 1, c.5, c.6) }), !old(self).string_literals@.contains_key(r), final(self).string_literals@ == old(self).string_literals@.insert(r, s),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::new_instr_id
//@ret r
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), r.idx() == old(self).counts().0, final(self).counts() == ({ let c = old(self).counts(); (c.0 + 1, c.1, c.2, c.3, c.4, c.5, c.6) }),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::add_struct_type
//@ret r
//@nloops 1
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), r is Ok,
        ({
            let id = r->Ok_0;
            ||| (old(self).structs@.contains_key(id) && old(self).structs@[id] == struct_type && final(self).counts() == old(self).counts() && final(self).structs@ == old(self).structs@)
            ||| (!old(self).structs@.contains_key(id) && id.idx() == old(self).counts().5 && final(self).counts() == ({ let c = old(self).counts(); (c.0, c.1, c.2, c.3, c.4, c.5 + 1, c.6) }) && final(self).structs@ == old(self).structs@.insert(id, struct_type)
                && !old(self).structs@.contains_value(struct_type))
        }),
//@iter 0 it
//@iterref 0
//@loop 0
    invariant *self == *old(self), self.wf(), self.room(),
        forall|j: int| 0 <= j < it.index@ ==> it.seq()[j].1 != struct_type,
//@loop 0 start
            proof { assert(self.structs@.contains_key(*existing_struct_id)); }
//@loop 0 after
        proof { assert(forall|k: StructId| #[trigger] self.structs@.contains_key(k) ==> self.structs@[k] != struct_type); }
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::add_union_type
//@ret r
//@nloops 1
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), r is Ok,
        ({
            let id = r->Ok_0;
            ||| (old(self).unions@.contains_key(id) && old(self).unions@[id] == union_type && final(self).counts() == old(self).counts() && final(self).unions@ == old(self).unions@)
            ||| (!old(self).unions@.contains_key(id) && id.idx() == old(self).counts().6 && final(self).counts() == ({ let c = old(self).counts(); (c.0, c.1, c.2, c.3, c.4, c.5, c.6 + 1) }) && final(self).unions@ == old(self).unions@.insert(id, union_type)
                && !old(self).unions@.contains_value(union_type))
        }),
//@iter 0 it
//@iterref 0
//@loop 0
    invariant *self == *old(self), self.wf(), self.room(),
        forall|j: int| 0 <= j < it.index@ ==> it.seq()[j].1 != union_type,
//@loop 0 start
            proof { assert(self.unions@.contains_key(*existing_union_id)); }
//@loop 0 after
        proof { assert(forall|k: UnionId| #[trigger] self.unions@.contains_key(k) ==> self.unions@[k] != union_type); }
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::init_null_dest_var
//@ret r
//@spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), final(self).null_dest_var == Some(r),
        match old(self).null_dest_var {
            Some(d) => r == d && final(self).counts() == old(self).counts(),
            None => r.idx() == old(self).counts().3 && final(self).counts() == ({ let c = old(self).counts(); (c.0, c.1, c.2, c.3 + 1, c.4, c.5, c.6) }),
        },
//@end
//@fn src/middle_end/ir.rs Program::new_label
//@ret r
//@spec
    requires old(self).program_metadata.wf(), old(self).program_metadata.room(),
    ensures final(self).program_metadata.wf(), r.idx() == old(self).program_metadata.counts().1, final(self).program_metadata.counts() == ({ let c = old(self).program_metadata.counts(); (c.0, c.1 + 1, c.2, c.3, c.4, c.5, c.6) }),
//@end
//@fn src/middle_end/ir.rs Program::new_identifier_label
//@ret r
//@spec
    requires old(self).program_metadata.wf(), old(self).program_metadata.room(),
    ensures final(self).program_metadata.wf(), r.idx() == old(self).program_metadata.counts().1, final(self).program_metadata.counts() == ({ let c = old(self).program_metadata.counts(); (c.0, c.1 + 1, c.2, c.3, c.4, c.5, c.6) }),
//@end
//@fn src/middle_end/ir.rs Program::new_var
//@ret r
//@spec
    requires old(self).program_metadata.wf(), old(self).program_metadata.room(),
    ensures final(self).program_metadata.wf(), r.idx() == old(self).program_metadata.counts().3, final(self).program_metadata.counts() == ({ let c = old(self).program_metadata.counts(); (c.0, c.1, c.2, c.3 + 1, c.4, c.5, c.6) }),
//@end
//@fn src/middle_end/ir.rs Program::new_string_literal
//@ret r
//@spec
    requires old(self).program_metadata.wf(), old(self).program_metadata.room(),
    ensures final(self).program_metadata.wf(), r.idx() == old(self).program_metadata.counts().4, final(self).program_metadata.counts() == ({ let c = old(self).program_metadata.counts(); (c.0, c.1, c.2, c.3, c.4 + 1, c.5, c.6) }),
//@end
//@fn src/middle_end/ir.rs Program::new_instr_id
//@ret r
//@spec
    requires old(self).program_metadata.wf(), old(self).program_metadata.room(),
    ensures final(self).program_metadata.wf(), r.idx() == old(self).program_metadata.counts().0, final(self).program_metadata.counts() == ({ let c = old(self).program_metadata.counts(); (c.0 + 1, c.1, c.2, c.3, c.4, c.5, c.6) }),
//@end
//@fn src/middle_end/ir.rs Program::add_struct_type
//@ret r
//@spec
    requires old(self).program_metadata.wf(), old(self).program_metadata.room(),
    ensures final(self).program_metadata.wf(), r is Ok,
        (old(self).program_metadata.structs@.contains_key(r->Ok_0) && final(self).program_metadata.counts() == old(self).program_metadata.counts())
        || (r->Ok_0.idx() == old(self).program_metadata.counts().5 && final(self).program_metadata.counts() == ({ let c = old(self).program_metadata.counts(); (c.0, c.1, c.2, c.3, c.4, c.5 + 1, c.6) })),
//@end
//@fn src/middle_end/ir.rs Program::add_union_type
//@ret r
//@spec
    requires old(self).program_metadata.wf(), old(self).program_metadata.room(),
    ensures final(self).program_metadata.wf(), r is Ok,
        (old(self).program_metadata.unions@.contains_key(r->Ok_0) && final(self).program_metadata.counts() == old(self).program_metadata.counts())
        || (r->Ok_0.idx() == old(self).program_metadata.counts().6 && final(self).program_metadata.counts() == ({ let c = old(self).program_metadata.counts(); (c.0, c.1, c.2, c.3, c.4, c.5, c.6 + 1) })),
//@end
