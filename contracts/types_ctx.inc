//@type src/program_config/enabled_profiling.rs EnabledProfiling
//@type src/back_end/target_code_generation_context.rs ModuleContext
//@fn src/program_config/enabled_profiling.rs EnabledProfiling::is_stack_ptr_logging_enabled
//@ret r
//@spec
    ensures r == self.stack_ptr_logging,
//@end
