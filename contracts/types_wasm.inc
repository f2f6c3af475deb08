// back-end types
//@type src/back_end/wasm_indices.rs LabelIdx clone eq
//@type src/back_end/wasm_types.rs ValType
//@type src/back_end/wasm_types.rs NumType
//@type src/back_end/wasm_types.rs RefType
//@type src/back_end/wasm_types.rs TableType
//@type src/back_end/wasm_types.rs MemoryType
//@type src/back_end/wasm_types.rs GlobalType
//@type src/back_end/wasm_types.rs Limits
//@type src/back_end/wasm_instructions.rs WasmExpression
//@type src/back_end/wasm_instructions.rs BlockType
//@type src/back_end/wasm_instructions.rs MemArg
//@type src/back_end/wasm_instructions.rs WasmInstruction
/// a vector is its sequence of elements
pub broadcast axiom fn instrs_ext(a: Vec<WasmInstruction>, b: Vec<WasmInstruction>) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
//@type src/back_end/target_code_generation_context.rs ControlFlowElement
//@type src/back_end/target_code_generation_context.rs FunctionContext
//@const src/back_end/memory_constants.rs PTR_SIZE
//@const src/back_end/memory_constants.rs FRAME_PTR_ADDR
//@const src/back_end/memory_constants.rs TEMP_FRAME_PTR_ADDR
//@const src/back_end/memory_constants.rs STACK_PTR_ADDR
