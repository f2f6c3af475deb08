//! C04: module, section and vector framing against the binary format.
use c2w_rac::*;
use cc::back_end::to_bytes::ToBytes;
use cc::back_end::vector_encoding::encode_vector;
use cc::back_end::wasm_indices::*;
use cc::back_end::wasm_instructions::WasmExpression;
use cc::back_end::wasm_module::code_section::*;
use cc::back_end::wasm_module::data_section::*;
use cc::back_end::wasm_module::exports_section::*;
use cc::back_end::wasm_module::globals_section::*;
use cc::back_end::wasm_module::imports_section::*;
use cc::back_end::wasm_module::module::{encode_section, WasmModule};
use cc::back_end::wasm_module::types_section::*;
use cc::back_end::wasm_types::*;
use wasm::*;

fn many<T>(r: &mut Rng, max: u64, mut f: impl FnMut(&mut Rng) -> (T, Vec<u8>)) -> (Vec<T>, Vec<u8>) {
    let n = if r.chance(1, 40) { 130 + r.below(max * 40) } else { r.below(max) };
    let (a, b): (Vec<_>, Vec<_>) = (0..n).map(|_| f(r)).unzip();
    (a, vecof(b))
}
fn word(r: &mut Rng) -> String {
    let n = if r.chance(1, 20) { 130 } else { r.below(12) };
    (0..n).map(|_| *r.pick(&['a', 'Z', '_', '0', 'é', '漢', '\u{1F600}'])).collect()
}
fn section(id: u8, body: Vec<u8>) -> Vec<u8> {
    if body.is_empty() { vec![] } else { cat(vec![vec![id], u(body.len() as u128), body]) }
}
fn gtype(r: &mut Rng) -> (GlobalType, Vec<u8>) {
    let (t, b) = valtype(r);
    let m = r.chance(1, 2);
    (GlobalType { value_type: t, is_mutable: m }, cat(vec![b, vec![m as u8]]))
}
fn ttype(r: &mut Rng) -> (TableType, Vec<u8>) {
    let f = r.chance(1, 2);
    let (l, b) = limits(r);
    (TableType { element_ref_type: if f { RefType::FuncRef } else { RefType::ExternRef }, limits: l }, cat(vec![vec![if f { 0x70 } else { 0x6f }], b]))
}
fn mtype(r: &mut Rng) -> (MemoryType, Vec<u8>) {
    let (l, b) = limits(r);
    (MemoryType { limits: l }, b)
}
fn bytesv(r: &mut Rng) -> Vec<u8> {
    let n = if r.chance(1, 20) { 20000 } else { r.below(300) };
    (0..n).map(|_| r.u64() as u8).collect()
}

fn main() {
    run("C04", "modules with random sections (0..n elements, sizes on both sides of the one/two/three-byte length boundaries); non-trivial = a section present", |c| {
        for n in (0..300usize).chain([16382, 16383, 16384, 16385, 2097151, 2097152]) {
            let body = vec![7u8; n];
            c.case(|| format!("encode_section(5, {n} bytes)"));
            let want = section(5, body.clone());
            match guard(|| encode_section(5, body.clone())) {
                Ok(g) if g == want => {}
                g => c.fail("encode_section", "identifier, declared length, contents; nothing for an empty body", format!("{n} bytes"), format!("{:02x?}..", &want[..want.len().min(12)]), format!("{:02x?}", g.map(|g| g[..g.len().min(12)].to_vec()))),
            }
            if n < 20000 {
                let v: Vec<FuncIdx> = (0..n).map(|i| FuncIdx { x: i as u32 }).collect();
                let want = vecof((0..n).map(|i| u(i as u128)).collect());
                match guard(|| encode_vector(&v)) {
                    Ok(g) if g == want => {}
                    g => c.fail("encode_vector", "element count then the elements in order", format!("{n} elements"), format!("{:02x?}..", &want[..want.len().min(12)]), format!("{:02x?}", g.map(|g| g[..g.len().min(12)].to_vec()))),
                }
            }
        }
        for _ in 0..c.n(600, 30_000) {
            let seed = c.rng.u64();
            let mut r0 = Rng::new(seed);
            let r = &mut r0;
            c.case(|| format!("module from seed {seed}"));
            c.distinct(&seed.to_string());
            let mut m = WasmModule::new();
            let mut want: Vec<(&str, Vec<u8>)> = vec![("header", vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0])];
            let (v, b) = many(r, 4, |r| {
                let (p, pb) = many(r, 4, valtype);
                let (q, qb) = many(r, 4, valtype);
                (WasmFunctionType { param_types: p, result_types: q }, cat(vec![vec![0x60], pb, qb]))
            });
            m.types_section.function_types = v;
            want.push(("types", section(1, b)));
            let (v, b) = many(r, 4, |r| {
                let (mn, fnm) = (word(r), word(r));
                let (d, db) = match r.below(4) {
                    0 => { let x = num(r); (ImportDescriptor::Func { func_type_idx: TypeIdx { x } }, cat(vec![vec![0], u(x as u128)])) }
                    1 => { let (t, b) = ttype(r); (ImportDescriptor::Table { table_type: t }, cat(vec![vec![1], b])) }
                    2 => { let (t, b) = mtype(r); (ImportDescriptor::Mem { mem_type: t }, cat(vec![vec![2], b])) }
                    _ => { let (t, b) = gtype(r); (ImportDescriptor::Global { global_type: t }, cat(vec![vec![3], b])) }
                };
                let b = cat(vec![name(&mn), name(&fnm), db]);
                (WasmImport { module_name: mn, field_name: fnm, import_descriptor: d }, b)
            });
            m.imports_section.imports = v;
            want.push(("imports", section(2, b)));
            let (v, b) = many(r, 6, |r| { let x = num(r); (TypeIdx { x }, u(x as u128)) });
            m.functions_section.function_type_idxs = v;
            want.push(("functions", section(3, b)));
            let (v, b) = many(r, 3, ttype);
            m.tables_section.table_types = v;
            want.push(("tables", section(4, b)));
            let (v, b) = many(r, 3, mtype);
            m.memory_section.memory_types = v;
            want.push(("memory", section(5, b)));
            let (v, b) = many(r, 3, |r| { let (t, tb) = gtype(r); let (e, eb) = expr(r); (WasmGlobal { global_type: t, init_expr: e }, cat(vec![tb, eb])) });
            m.globals_section.globals = v;
            want.push(("globals", section(6, b)));
            let (v, b) = many(r, 4, |r| {
                let n = word(r);
                let x = num(r);
                let k = r.below(4);
                let d = match k {
                    0 => ExportDescriptor::Func { func_idx: FuncIdx { x } },
                    1 => ExportDescriptor::Table { table_idx: TableIdx { x } },
                    2 => ExportDescriptor::Mem { mem_idx: MemIdx { x } },
                    _ => ExportDescriptor::Global { global_idx: GlobalIdx { x } },
                };
                let b = cat(vec![name(&n), vec![k as u8], u(x as u128)]);
                (WasmExport { name: n, export_descriptor: d }, b)
            });
            m.exports_section.exports = v;
            want.push(("exports", section(7, b)));
            if r.chance(1, 3) {
                let x = num(r);
                m.start_section.start_func_idx = Some(FuncIdx { x });
                want.push(("start", section(8, u(x as u128))));
            }
            let (v, b) = many(r, 4, |r| {
                let (l, lb) = many(r, 3, |r| { let n = num(r); let (t, b) = valtype(r); (LocalDeclaration { count: n, value_type: t }, cat(vec![u(n as u128), b])) });
                let (e, eb) = expr(r);
                let all = cat(vec![lb, eb]);
                (WasmFunctionCode { local_declarations: l, function_body: e }, cat(vec![u(all.len() as u128), all]))
            });
            m.code_section.function_bodies = v;
            want.push(("code", section(10, b)));
            let (v, b) = many(r, 4, |r| {
                let d = bytesv(r);
                let db = cat(vec![u(d.len() as u128), d.clone()]);
                let (e, eb): (WasmExpression, _) = expr(r);
                match r.below(3) {
                    0 => (DataSegment::ActiveSegmentMemIndexZero { offset_expr: e, data: d }, cat(vec![vec![0], eb, db])),
                    1 => (DataSegment::PassiveSegment { data: d }, cat(vec![vec![1], db])),
                    _ => { let x = num(r); (DataSegment::ActiveSegmentExplicitMemIndex { memory_idx: MemIdx { x }, offset_expr: e, data: d }, cat(vec![vec![2], u(x as u128), eb, db])) }
                }
            });
            m.data_section.data_segments = v;
            want.push(("data", section(11, b)));
            match guard(|| m.to_bytes()) {
                Err(e) => c.fail("panic", "never panics", format!("module seed {seed}"), "bytes", e),
                Ok(got) => {
                    let w: Vec<u8> = want.iter().flat_map(|(_, b)| b.clone()).collect();
                    if got != w {
                        // name the first part that differs
                        let mut at = 0;
                        let mut part = "end";
                        let mut ctx = String::new();
                        for (n, b) in &want {
                            if got.len() < at + b.len() || got[at..at + b.len()] != b[..] {
                                part = n;
                                let k = b.iter().zip(&got[at.min(got.len())..]).take_while(|(x, y)| x == y).count();
                                ctx = format!("byte {k} of it: expected {:02x?} got {:02x?}", &b[k..b.len().min(k + 8)], &got[(at + k).min(got.len())..got.len().min(at + k + 8)]);
                                break;
                            }
                            at += b.len();
                        }
                        c.fail(format!("module-{part}"), "the layout of the binary format", format!("module seed {seed}, part {part}"), format!("{} bytes", w.len()), format!("{} bytes; {ctx}", got.len()));
                    }
                }
            }
        }
    });
}
