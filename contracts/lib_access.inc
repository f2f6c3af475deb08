/// bytes an access touches, and whether a narrow load extends the sign (WebAssembly core specification)
pub open spec fn access(i: WasmInstruction) -> (int, bool) {
    match i {
        WasmInstruction::I32Load8S { .. } | WasmInstruction::I64Load8S { .. } => (1, true),
        WasmInstruction::I32Load8U { .. } | WasmInstruction::I64Load8U { .. } => (1, false),
        WasmInstruction::I32Load16S { .. } | WasmInstruction::I64Load16S { .. } => (2, true),
        WasmInstruction::I32Load16U { .. } | WasmInstruction::I64Load16U { .. } => (2, false),
        WasmInstruction::I64Load32S { .. } => (4, true),
        WasmInstruction::I64Load32U { .. } => (4, false),
        WasmInstruction::I32Load { .. } | WasmInstruction::F32Load { .. } | WasmInstruction::I32Store { .. } | WasmInstruction::F32Store { .. } | WasmInstruction::I64Store32 { .. } => (4, false),
        WasmInstruction::I64Load { .. } | WasmInstruction::F64Load { .. } | WasmInstruction::I64Store { .. } | WasmInstruction::F64Store { .. } => (8, false),
        WasmInstruction::I32Store8 { .. } | WasmInstruction::I64Store8 { .. } => (1, false),
        WasmInstruction::I32Store16 { .. } | WasmInstruction::I64Store16 { .. } => (2, false),
        _ => (0, false),
    }
}
