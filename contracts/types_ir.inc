// intermediate-representation types
#[verifier::external_body]
pub struct Expression {}
impl Clone for Expression { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@type src/middle_end/ir_types.rs TypeSize clone eq
//@type src/middle_end/ir_types.rs IrType clone eq
//@type src/middle_end/ir_types.rs StructType clone eq
//@type src/middle_end/ir_types.rs UnionType clone eq
//@type src/middle_end/instructions.rs Constant clone
//@type src/middle_end/instructions.rs Src clone
//@type src/middle_end/instructions.rs Dest
//@type src/middle_end/instructions.rs Instruction clone
//@type src/middle_end/middle_end_error.rs MiddleEndError
//@type src/middle_end/ir.rs Function
//@type src/middle_end/ir.rs ProgramInstructions
//@type src/middle_end/ir.rs ProgramMetadata
//@type src/middle_end/ir.rs Program
#[verifier::external]
impl std::fmt::Debug for MiddleEndError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
