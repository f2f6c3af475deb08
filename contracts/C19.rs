//@include ir.inc
//@include fn_sizes.inc
//@include fn_widx.inc
//@include types_wasm.inc
//@type src/program_config/enabled_profiling.rs EnabledProfiling
//@type src/back_end/target_code_generation_context.rs ModuleContext
//@include types_module.inc
//@include fn_memimage.inc
