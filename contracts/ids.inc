// identifier types
//@type src/middle_end/ids.rs InstructionId clone eq hash
//@type src/middle_end/ids.rs FunId clone eq hash
//@type src/middle_end/ids.rs LabelId clone eq hash
//@type src/middle_end/ids.rs StringLiteralId clone eq hash
//@type src/middle_end/ids.rs StructId clone eq hash
//@type src/middle_end/ids.rs UnionId clone eq hash
//@type src/relooper/blocks.rs LoopBlockId clone eq hash
//@type src/relooper/blocks.rs MultipleBlockId clone eq hash
//@type src/middle_end/ids.rs ValueType clone eq hash
//@type src/middle_end/ids.rs VarId clone eq hash
