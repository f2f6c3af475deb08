//! C19: the initial memory image for random literals, read back; literals of real programs; the run-time's idea of the pointer cells.
use c2w_rac::blockgen::nth;
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::back_end::initialise_memory::initialise_memory;
use cc::back_end::memory_constants::*;
use cc::back_end::target_code_generation_context::ModuleContext;
use cc::back_end::wasm_instructions::WasmInstruction;
use cc::back_end::wasm_module::data_section::DataSegment;
use cc::back_end::wasm_module::module::WasmModule;
use cc::middle_end::ids::StringLiteralId;
use cc::middle_end::ir::ProgramMetadata;
use cc::program_config::enabled_profiling::EnabledProfiling;

fn literal(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 200 + r.below(300), _ => r.below(20) };
    (0..n).map(|_| match r.below(8) { 0 => '\u{e9}', 1 => '\u{20ac}', 2 => '\u{1f600}', 3 => '\0', 4 => '\u{ff}', _ => (32 + r.below(95)) as u8 as char }).collect()
}
fn one(c: &mut Ctx, i: u64) {
    let mut r = Rng::new(c.rng.u64());
    let ep = EnabledProfiling { stack_ptr_logging: false };
    let mut module = WasmModule::new();
    let mut mc = ModuleContext::new(&ep);
    let mut meta = ProgramMetadata::new();
    let n = i % 12;
    let big = i % 97 == 96;
    for k in 0..n { let s = if big { "x".repeat(9000 + k as usize) } else if k > 0 && r.chance(1, 8) { meta.string_literals.values().next().unwrap().clone() } else { literal(&mut r) }; meta.string_literals.insert(nth::<StringLiteralId>(k), s); }
    let size = match r.below(4) { 0 => 0, 1 => 70_000, _ => r.below(300) };
    let shown = format!("literals {:?}, {size} bytes of global variables", meta.string_literals.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>());
    c.case(|| shown.chars().take(2000).collect());
    let g = match guard(|| initialise_memory(&mut module, &mut mc, size, &meta)) { Ok(g) => g as usize, Err(e) => { c.fail("panic", "every set of literals has an image", shown, "an image", e); return; } };
    let seg = module.data_section.data_segments.last();
    let data = match seg { Some(DataSegment::ActiveSegmentMemIndexZero { offset_expr, data }) if matches!(offset_expr.instrs[..], [WasmInstruction::I32Const { n: 0 }]) => data.clone(), _ => { c.fail("segment", "the image is one segment from address zero", shown, "a segment at 0", "another"); return; } };
    if module.data_section.data_segments.len() != 1 { c.fail("segment", "the image is one segment from address zero", shown, "1", module.data_section.data_segments.len().to_string()); return; }
    let word = |a: u32| u32::from_le_bytes([data[a as usize], data[a as usize + 1], data[a as usize + 2], data[a as usize + 3]]);
    if word(STACK_PTR_ADDR) as usize != data.len() { c.fail("stack pointer", "the stack pointer is the end of the image", shown, data.len().to_string(), word(STACK_PTR_ADDR).to_string()); return; }
    if word(FRAME_PTR_ADDR) != 0 || word(TEMP_FRAME_PTR_ADDR) != 0 { c.fail("pointer cells", "the frame pointer cells start empty", shown, "0", format!("{} {}", word(FRAME_PTR_ADDR), word(TEMP_FRAME_PTR_ADDR))); return; }
    if g + size as usize != data.len() || data[g..].iter().any(|b| *b != 0) { c.fail("globals", "the global variables are zeros at the end of the image", shown, format!("{size} zeros"), format!("from {g} of {}", data.len())); return; }
    let mut taken: Vec<(usize, usize, String)> = vec![(0, 12, "the pointer cells".into()), (g, data.len(), "the global variables".into())];
    for (id, s) in &meta.string_literals {
        let p = match mc.string_literal_id_to_ptr_map.get(id) { Some(p) => *p as usize, None => { c.fail("address", "every literal has an address", shown, "an address", format!("{id:?} has none")); return; } };
        let b = s.as_bytes();
        let e = p + b.len() + 1;
        if e > data.len() || &data[p..e - 1] != b || data[e - 1] != 0 { c.fail("bytes", "a literal's address points at its bytes and a zero", shown, format!("{s:?}"), format!("{:?}", &data[p.min(data.len())..e.min(data.len())])); return; }
        for (x, y, w) in &taken { if p < *y && *x < e { c.fail("overlap", "literals overlap nothing", shown, format!("{s:?} apart from {w}"), format!("{p}..{e} and {x}..{y}")); return; } }
        taken.push((p, e, format!("{s:?}")));
    }
}
/// literals read by compiled programs
fn programs(c: &mut Ctx) {
    let k = 2 + c.rng.below(5) as usize;
    let ls: Vec<String> = (0..k).map(|_| { let n = c.rng.below(12); (0..n).map(|_| (97 + c.rng.below(26)) as u8 as char).collect() }).collect();
    let mut src = String::from("int printf(const char *f, ...);\nint acc = 1;\nint sum(char *s) { int n = 0; while (*s) { n = n * 3 + *s; s = s + 1; } return n; }\nint main() {\n");
    let mut want = 1i32;
    for (j, l) in ls.iter().enumerate() { src += &format!("char *s{j} = \"{l}\"; printf(s{j});\n"); }
    for (j, l) in ls.iter().enumerate().rev() {
        src += &format!("acc = acc * 5 + sum(s{j});\n");
        let n = l.bytes().fold(0i32, |n, b| n.wrapping_mul(3).wrapping_add(b as i32));
        want = want.wrapping_mul(5).wrapping_add(n);
    }
    src += "return acc;\n}\n";
    c.case(|| src.clone());
    for o in [OPT, NOOPT] {
        match compile(&src, o).map_err(|e| e.to_string()).and_then(|m| execute(m).map_err(|e| format!("{e:?}"))) {
            Err(e) => { c.fail("program", "a program with literals runs", src, want.to_string(), e); return; }
            Ok(x) => {
                if x.exit != want { c.fail("program", "a program reads the bytes of its literals", src, want.to_string(), x.exit.to_string()); return; }
                let out: Vec<String> = x.output.iter().map(|o| o.0.clone()).collect();
                if out != ls { c.fail("program", "a program prints the bytes of its literals", src, format!("{ls:?}"), format!("{out:?}")); return; }
            }
        }
    }
}
/// the run-time reads and writes the cells the compiler uses
fn runtime(c: &mut Ctx) {
    let repo = std::env::var("C2W_REPO").unwrap_or("/repo".into());
    let js = format!("import * as o from 'file://{repo}/runtime/memory_operations.mjs'; import * as k from 'file://{repo}/runtime/memory_constants.mjs';
const m = new Uint8Array(64); for (let i = 0; i < 64; i++) m[i] = i; const f = o.read_frame_ptr(m), s = o.read_stack_ptr(m); o.store_stack_ptr(0x04030201, m); console.log([f, s, k.PTR_SIZE, k.FRAME_PTR_ADDR, k.TEMP_FRAME_PTR_ADDR, k.STACK_PTR_ADDR, Array.from(m).join('.')].join(' '));");
    let out = match std::process::Command::new("node").args(["--input-type=module", "-e", &js]).output() { Ok(o) => o, Err(_) => return };
    let got = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if got.is_empty() { return; }
    let cell = |a: u32| { let a = a as u8; u32::from_le_bytes([a, a + 1, a + 2, a + 3]) };
    let mut m: Vec<u8> = (0..64).collect();
    m[STACK_PTR_ADDR as usize..STACK_PTR_ADDR as usize + 4].copy_from_slice(&[1, 2, 3, 4]);
    let want = format!("{} {} {PTR_SIZE} {FRAME_PTR_ADDR} {TEMP_FRAME_PTR_ADDR} {STACK_PTR_ADDR} {}", cell(FRAME_PTR_ADDR), cell(STACK_PTR_ADDR), m.iter().map(|b| b.to_string()).collect::<Vec<_>>().join("."));
    c.case(|| "the run-time's pointer cells".into());
    if got != want { c.fail("run-time", "the pointer cells are where the run-time expects them", "read_frame_ptr, read_stack_ptr, store_stack_ptr on a memory of bytes 0..63", want, got); }
}
fn main() {
    run("C19", "random sets of literals (empty, multi-byte, with zeros, repeated, long) with random amounts of global variables, programs reading their literals, and the run-time's access to the pointer cells; non-trivial = at least one literal", |c| {
        runtime(c);
        for i in 0..c.n(1500, 20_000) { one(c, i); if c.too_many() { return; } }
        for _ in 0..c.n(40, 300) { programs(c); if c.too_many() { return; } }
    });
}
