// module types
//@type src/back_end/wasm_module/types_section.rs WasmFunctionType
//@type src/back_end/wasm_module/types_section.rs TypesSection
//@type src/back_end/wasm_module/imports_section.rs ImportDescriptor
//@type src/back_end/wasm_module/imports_section.rs WasmImport
//@type src/back_end/wasm_module/imports_section.rs ImportsSection
//@type src/back_end/wasm_module/functions_section.rs FunctionsSection
//@type src/back_end/wasm_module/tables_section.rs TablesSection
//@type src/back_end/wasm_module/memory_section.rs MemorySection
//@type src/back_end/wasm_module/globals_section.rs WasmGlobal
//@type src/back_end/wasm_module/globals_section.rs GlobalsSection
//@type src/back_end/wasm_module/exports_section.rs ExportDescriptor
//@type src/back_end/wasm_module/exports_section.rs WasmExport
//@type src/back_end/wasm_module/exports_section.rs ExportsSection
//@type src/back_end/wasm_module/start_section.rs StartSection
//@type src/back_end/wasm_module/element_section.rs ElementSection
//@type src/back_end/wasm_module/code_section.rs LocalDeclaration
//@type src/back_end/wasm_module/code_section.rs WasmFunctionCode
//@type src/back_end/wasm_module/code_section.rs CodeSection
//@type src/back_end/wasm_module/data_section.rs DataSegment
//@type src/back_end/wasm_module/data_section.rs DataSection
//@type src/back_end/wasm_module/module.rs WasmModule
