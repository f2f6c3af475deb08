//! C source to module through the real compiler, and execution of the module.
use crate::cc;
use crate::interp::*;
use cc::back_end::wasm_instructions::WasmInstruction;
use cc::back_end::wasm_module::data_section::DataSegment;
use cc::back_end::wasm_module::imports_section::ImportDescriptor;
use cc::back_end::wasm_module::module::WasmModule;
use cc::program_config::enabled_optimisations::EnabledOptimisations;
use cc::program_config::enabled_profiling::EnabledProfiling;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct Opts { pub tail: bool, pub unreachable: bool, pub stack: bool }
pub const OPT: Opts = Opts { tail: true, unreachable: true, stack: true };
pub const NOOPT: Opts = Opts { tail: false, unreachable: false, stack: false };

/// Ok(module), or the reason the compiler refused; a panic of the compiler is Err("panic: ..")
pub fn compile(src: &str, o: Opts) -> Result<WasmModule, String> {
    crate::guard(|| {
        let eo = EnabledOptimisations { tail_call: o.tail, unreachable_procedure: o.unreachable, stack_allocation: o.stack };
        let ep = EnabledProfiling { stack_ptr_logging: false };
        let ast = cc::front_end::parser::parse(src.to_string()).map_err(|e| format!("parse: {e}"))?;
        let mut ir = cc::middle_end::ast_to_ir::convert_to_ir(ast).map_err(|e| format!("ir: {e}"))?;
        cc::middle_end::middle_end_optimiser::ir_optimiser::optimise_ir(&mut ir, &eo).map_err(|e| format!("opt: {e}"))?;
        let r = cc::relooper::relooper::reloop(ir);
        cc::back_end::target_code_generation::generate_target_code(r, &eo, &ep).map_err(|e| format!("codegen: {e}"))
    })
    .unwrap_or_else(|p| Err(format!("panic: {p}")))
}

pub struct Ran {
    pub exit: i32,
    /// printf calls: the format string and the raw bytes of the argument area after it
    pub output: Vec<(String, Vec<u8>)>,
    pub mem: Vec<u8>,
}
pub const MEM: usize = 1 << 18;

/// run `main(argc = 1, argv = 0)` of the module
pub fn execute(m: WasmModule) -> Result<Ran, Stop> {
    let mut imports = vec![];
    for i in &m.imports_section.imports {
        if let ImportDescriptor::Func { .. } = i.import_descriptor { imports.push(i.field_name.clone()); }
    }
    let n = imports.len() as u32;
    let mut bodies: HashMap<u32, Rc<Vec<WasmInstruction>>> = HashMap::new();
    for (k, f) in m.code_section.function_bodies.into_iter().enumerate() { bodies.insert(n + k as u32, Rc::new(f.function_body.instrs)); }
    let entry = match &m.exports_section.exports.iter().find(|e| e.name == "main").ok_or(Stop::Invalid("no main export".into()))?.export_descriptor {
        cc::back_end::wasm_module::exports_section::ExportDescriptor::Func { func_idx } => func_idx.x,
        _ => return Err(Stop::Invalid("main is no function".into())),
    };
    let out = Rc::new(std::cell::RefCell::new(vec![]));
    let out2 = out.clone();
    let mut vm = Machine::new(MEM);
    for d in &m.data_section.data_segments {
        if let DataSegment::ActiveSegmentMemIndexZero { offset_expr, data } = d {
            let at = match offset_expr.instrs.first() { Some(WasmInstruction::I32Const { n }) => *n as usize, _ => 0 };
            if at + data.len() > MEM { return Err(Stop::Trap("data segment out of bounds".into())); }
            vm.mem[at..at + data.len()].copy_from_slice(data);
        }
    }
    let main = bodies.get(&entry).cloned().ok_or(Stop::Invalid("main body".into()))?;
    vm.bodies = bodies;
    vm.callee = Some(Box::new(move |x, mem: &mut Vec<u8>| {
        let name = imports.get(x as usize).cloned().unwrap_or_default();
        let rd = |mem: &Vec<u8>, a: u32| -> u32 { let a = a as usize; if a + 4 > mem.len() { 0 } else { u32::from_le_bytes([mem[a], mem[a + 1], mem[a + 2], mem[a + 3]]) } };
        let cstr = |mem: &Vec<u8>, a: u32| -> Vec<u8> { mem.iter().skip(a as usize).take_while(|b| **b != 0).cloned().collect() };
        let fp = rd(mem, 0);
        match name.as_str() {
            "printf" => {
                // frame: previous frame pointer, int result, format pointer, further arguments
                let fmt = rd(mem, fp + 8);
                let a = (fp + 12) as usize;
                let bytes = mem.iter().skip(a).take(48).cloned().collect();
                out2.borrow_mut().push((String::from_utf8_lossy(&cstr(mem, fmt)).into_owned(), bytes));
            }
            "strlen" => { let s = rd(mem, fp + 12); let n = cstr(mem, s).len() as u64; let r = (fp + 4) as usize; mem[r..r + 8].copy_from_slice(&n.to_le_bytes()); }
            _ => {}
        }
        Ok(())
    }));
    vm.locals = vec![V::I(1), V::I(0)];
    let fl = vm.run(&main)?;
    let exit = match (fl, vm.stack.last()) { (_, Some(V::I(x))) => *x, (_, v) => return Err(Stop::Invalid(format!("main leaves {v:?}"))) };
    let mem = std::mem::take(&mut vm.mem);
    drop(vm);
    let output = out.borrow().clone();
    Ok(Ran { exit, output, mem })
}
/// the exit status of a program, or what went wrong
pub fn exit_of(src: &str, o: Opts) -> Result<i32, String> {
    execute(compile(src, o)?).map(|r| r.exit).map_err(|e| format!("{e:?}"))
}
