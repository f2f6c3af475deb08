// new variables and instructions of a program
impl ProgramMetadata {
    /// only the generators of variables and instructions, and the table of variable types, differ
    pub open spec fn same_but_vars(&self, o: &ProgramMetadata) -> bool {
        *self == (ProgramMetadata { var_types: self.var_types, var_id_generator: self.var_id_generator, instr_id_generator: self.instr_id_generator, ..*o })
    }
    /// the typed variables have been handed out
    pub open spec fn vars_handed_out(&self) -> bool { forall|v: VarId| #[trigger] self.var_types@.contains_key(v) ==> v.idx() < self.var_id_generator.count() }
    /// identifiers are left
    pub open spec fn spare_vars(&self, n: int) -> bool { self.var_id_generator.count() + n <= u64::MAX }
    pub open spec fn spare_instrs(&self, n: int) -> bool { self.instr_id_generator.count() + n <= u64::MAX }
    pub open spec fn spare(&self, n: int) -> bool { self.spare_vars(n) && self.spare_instrs(n) }
}
//@fn src/middle_end/ir.rs ProgramMetadata::new_var
//@ret r
//@spec
    requires old(self).spare_vars(1),
    ensures r.idx() == old(self).var_id_generator.count(), r.1 == value_type, final(self).var_id_generator.count() == old(self).var_id_generator.count() + 1,
        *final(self) == (ProgramMetadata { var_id_generator: final(self).var_id_generator, ..*old(self) }),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::new_instr_id
//@ret r
//@spec
    requires old(self).spare_instrs(1),
    ensures r.idx() == old(self).instr_id_generator.count(), final(self).instr_id_generator.count() == old(self).instr_id_generator.count() + 1,
        *final(self) == (ProgramMetadata { instr_id_generator: final(self).instr_id_generator, ..*old(self) }),
//@end
//@fn src/middle_end/ir.rs ProgramMetadata::add_var_type
//@ret r
//@spec
    ensures
        match r { Ok(_) => !old(self).var_types@.contains_key(var) && final(self).var_types@ == old(self).var_types@.insert(var, var_type), Err(_) => old(self).var_types@.contains_key(var) && final(self).var_types@ == old(self).var_types@ },
        *final(self) == (ProgramMetadata { var_types: final(self).var_types, ..*old(self) }),
//@end
//@fn src/middle_end/ir.rs Program::new_var
//@ret r
//@spec
    requires old(self).program_metadata.spare_vars(1),
    ensures r.idx() == old(self).program_metadata.var_id_generator.count(), r.1 == value_type, final(self).program_metadata.var_id_generator.count() == old(self).program_metadata.var_id_generator.count() + 1,
        *final(self) == (Program { program_metadata: ProgramMetadata { var_id_generator: final(self).program_metadata.var_id_generator, ..old(self).program_metadata }, ..*old(self) }),
//@end
//@fn src/middle_end/ir.rs Program::new_instr_id
//@ret r
//@spec
    requires old(self).program_metadata.spare_instrs(1),
    ensures r.idx() == old(self).program_metadata.instr_id_generator.count(), final(self).program_metadata.instr_id_generator.count() == old(self).program_metadata.instr_id_generator.count() + 1,
        *final(self) == (Program { program_metadata: ProgramMetadata { instr_id_generator: final(self).program_metadata.instr_id_generator, ..old(self).program_metadata }, ..*old(self) }),
//@end
//@fn src/middle_end/ir.rs Program::add_var_type
//@ret r
//@spec
    ensures
        match r { Ok(_) => !old(self).program_metadata.var_types@.contains_key(var) && final(self).program_metadata.var_types@ == old(self).program_metadata.var_types@.insert(var, var_type), Err(_) => old(self).program_metadata.var_types@.contains_key(var) && final(self).program_metadata.var_types@ == old(self).program_metadata.var_types@ },
        *final(self) == (Program { program_metadata: ProgramMetadata { var_types: final(self).program_metadata.var_types, ..old(self).program_metadata }, ..*old(self) }),
//@end
//@fn src/middle_end/instructions.rs Src::get_value_type
//@end
