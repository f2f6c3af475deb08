//! C10: struct, union, array and scalar layout.
use c2w_rac::pipeline::*;
use c2w_rac::*;
use cc::middle_end::ir::ProgramMetadata;
use cc::middle_end::ir_types::*;

fn scalar_size(t: &IrType) -> Option<u64> {
    Some(match t {
        IrType::I8 | IrType::U8 => 1,
        IrType::I16 | IrType::U16 => 2,
        IrType::I32 | IrType::U32 | IrType::F32 => 4,
        IrType::I64 | IrType::U64 | IrType::F64 => 8,
        IrType::PointerTo(_) | IrType::Function(..) => 4,
        IrType::Void => 0,
        _ => return None,
    })
}
struct World { meta: ProgramMetadata, sizes: Vec<(IrType, u64)> }
fn ty(r: &mut Rng, w: &World, depth: u32) -> (IrType, u64) {
    if !w.sizes.is_empty() && r.chance(1, 4) { return r.pick(&w.sizes).clone(); }
    let b = vec![IrType::I8, IrType::U8, IrType::I16, IrType::U16, IrType::I32, IrType::U32, IrType::I64, IrType::U64, IrType::F32, IrType::F64];
    if depth > 0 && r.chance(1, 4) {
        let (t, _) = ty(r, w, depth - 1);
        return (if r.chance(1, 3) { IrType::Function(Box::new(t), vec![], false) } else { IrType::PointerTo(Box::new(t)) }, 4);
    }
    let t = r.pick(&b).clone();
    let s = scalar_size(&t).unwrap();
    (t, s)
}
fn show(v: &[(String, IrType, u64)]) -> String { v.iter().map(|(n, t, _)| format!("{t} {n}")).collect::<Vec<_>>().join("; ") }

fn structs(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut w = World { meta: ProgramMetadata::new(), sizes: vec![] };
    for _ in 0..r.below(6) + 1 {
        let n = r.below(9);
        let mut ms: Vec<(String, IrType, u64)> = vec![];
        let is_union = r.chance(1, 3);
        for k in 0..n { let (t, s) = ty(&mut r, &w, 2); ms.push((format!("m{k}"), t, s)); }
        c.case(|| format!("{} {{ {} }}", if is_union { "union" } else { "struct" }, show(&ms)));
        let input = format!("{} {{ {} }}", if is_union { "union" } else { "struct" }, show(&ms));
        let res = guard(|| -> Result<(IrType, u64), (String, String, String)> {
            let total: u64;
            let t = if is_union {
                let mut u = if n % 2 == 0 { UnionType::unnamed() } else { UnionType::named("u".into()) };
                for (m, t, _) in &ms {
                    u.push_member(m.clone(), t.clone(), &w.meta).map_err(|e| ("member refused".into(), "accepted".into(), format!("{e}")))?;
                    if u.push_member(m.clone(), IrType::F64, &w.meta).is_ok() { return Err(("duplicate member accepted".into(), "an error".into(), m.clone())); }
                }
                total = ms.iter().map(|m| m.2).max().unwrap_or(0);
                if u.total_byte_size != total { return Err(("union size".into(), format!("{total}"), format!("{}", u.total_byte_size))); }
                for (m, t, _) in &ms { if u.get_member_type(m).ok().as_ref() != Some(t) { return Err(("union member type".into(), format!("{t}"), format!("{:?}", u.get_member_type(m)))); } }
                IrType::Union(w.meta.add_union_type(u).unwrap())
            } else {
                let mut u = if n % 2 == 0 { StructType::unnamed() } else { StructType::named("s".into()) };
                let mut at = 0;
                for (k, (m, t, s)) in ms.iter().enumerate() {
                    u.push_member(m.clone(), t.clone(), &w.meta).map_err(|e| ("member refused".into(), "accepted".into(), format!("{e}")))?;
                    if u.push_member(m.clone(), IrType::F64, &w.meta).is_ok() { return Err(("duplicate member accepted".into(), "an error".into(), m.clone())); }
                    at += s;
                    if u.total_byte_size != at { return Err(("struct size".into(), format!("{at} after {m}"), format!("{}", u.total_byte_size))); }
                    if u.member_count() != k + 1 { return Err(("member count".into(), format!("{}", k + 1), format!("{}", u.member_count()))); }
                }
                let mut at = 0;
                for (k, (m, t, s)) in ms.iter().enumerate() {
                    let o = u.get_member_byte_offset(m).ok();
                    let oi = u.get_member_byte_offset_by_index(k).ok();
                    if o != Some(at) || oi != Some(at) { return Err(("member offset".into(), format!("{m} at {at}"), format!("{o:?} by name, {oi:?} by index"))); }
                    if u.get_member_type(m).ok().as_ref() != Some(t) || u.get_member_type_by_index(k).ok().as_ref() != Some(t) { return Err(("member type".into(), format!("{t}"), format!("{:?} {:?}", u.get_member_type(m), u.get_member_type_by_index(k)))); }
                    at += s;
                }
                if u.get_member_byte_offset_by_index(ms.len()).is_ok() || u.get_member_type("nosuch").is_ok() || u.has_member("nosuch") { return Err(("absent member found".into(), "an error".into(), "a member".into())); }
                total = at;
                IrType::Struct(w.meta.add_struct_type(u).unwrap())
            };
            let b = t.get_byte_size(&w.meta).get_compile_time_value().ok();
            if b != Some(total) { return Err(("size of type".into(), format!("{total}"), format!("{b:?}"))); }
            Ok((t, total))
        });
        match res {
            Ok(Ok(x)) => w.sizes.push(x),
            Ok(Err((k, e, a))) => { c.fail(k.replace(' ', "-"), "layout", input, e, a); return; }
            Err(p) => { c.fail("panic", "no panic", input, "layout", p); return; }
        }
    }
    // sizes of all kinds of types
    for _ in 0..6 {
        let (t, s) = ty(&mut r, &w, 2);
        c.case(|| format!("size of {t}"));
        let got = guard(|| t.get_byte_size(&w.meta).get_compile_time_value().ok());
        if got != Ok(Some(s)) { c.fail("size", "the size of a type", format!("{t}"), format!("{s}"), format!("{got:?}")); }
        let n = r.below(1000);
        let a = IrType::ArrayOf(Box::new(t.clone()), Some(TypeSize::CompileTime(n)));
        let got = guard(|| a.get_array_byte_size(&w.meta).ok().and_then(|x| x.get_compile_time_value().ok()));
        if got != Ok(Some(s * n)) { c.fail("array-size", "count times element size", format!("{a}"), format!("{}", s * n), format!("{got:?}")); }
        let p = IrType::PointerTo(Box::new(t.clone()));
        let got = guard(|| p.get_pointer_object_byte_size(&w.meta).ok().and_then(|x| x.get_compile_time_value().ok()));
        if got != Ok(Some(s)) { c.fail("pointee-size", "the size of the object pointed to", format!("{p}"), format!("{s}"), format!("{got:?}")); }
    }
}
const CT: &[(&str, i32)] = &[("char", 1), ("unsigned char", 1), ("short", 2), ("unsigned short", 2), ("int", 4), ("unsigned int", 4), ("long", 8), ("unsigned long", 8), ("float", 4), ("double", 8), ("char *", 4), ("double *", 4)];
fn programs(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    // sizeof and member independence, through the whole compiler
    let n = r.below(4) + 2;
    let ms: Vec<&(&str, i32)> = (0..n).map(|_| r.pick(&CT[..10])).collect();
    let decl: String = ms.iter().enumerate().map(|(k, m)| format!("{} m{k}; ", m.0)).collect();
    let (et, es) = r.pick(CT);
    let cnt = r.below(20) as i32 + 1;
    let set: String = (0..n).map(|k| format!("x.m{k} = {}; ", k * 3 + 5)).collect();
    let test: String = (0..n).map(|k| format!("if (x.m{k} != {}) return {}; ", k * 3 + 5, k + 1)).collect();
    let total: i32 = ms.iter().map(|m| m.1).sum();
    let max: i32 = ms.iter().map(|m| m.1).max().unwrap();
    let src = format!("struct s {{ {decl}}}; union u {{ {decl}}}; int main() {{ struct s x; union u y; {et} a[{cnt}]; {et} e; {set}{test} if (sizeof(x) != {total}) return 51; if (sizeof(y) != {max}) return 52; if (sizeof(a) != {}) return 53; if (sizeof(e) != {es}) return 54; if (sizeof(struct s) != {total}) return 55; return 99; }}", cnt * es);
    c.case(|| src.clone());
    let o = if r.chance(1, 2) { OPT } else { NOOPT };
    match exit_of(&src, o) {
        Ok(99) => {}
        Ok(k) => c.fail(if k < 50 { "program-member" } else { "program-sizeof" }, "members keep their own values; sizeof is the number of bytes", src, "exit status 99", format!("exit status {k}")),
        Err(e) => c.fail("program-fails", "the program compiles and runs", src, "exit status 99", e),
    }
}
fn main() {
    run("C10", "random struct and union types (nested, up to 8 members) with every scalar and pointer member type; sizes of types and arrays; small programs with sizeof and member access through the whole compiler", |c| {
        for _ in 0..c.n(3000, 60_000) { structs(c); if c.too_many() { break; } }
        for _ in 0..c.n(60, 1500) { programs(c); if c.too_many() { break; } }
        // array members are held by an address cell
        let m = ProgramMetadata::new();
        let mut s = StructType::unnamed();
        c.case(|| "struct { int m0[4]; }".into());
        let t = IrType::ArrayOf(Box::new(IrType::I32), Some(TypeSize::CompileTime(4)));
        let r = guard(|| { s.push_member("m0".into(), t.clone(), &m).unwrap(); s.total_byte_size });
        if r != Ok(16) { c.fail("array-member-of-struct", "an array member occupies its elements' bytes", "struct { int m0[4]; }", "16 bytes", format!("{r:?}")); }
        let a2 = IrType::ArrayOf(Box::new(t), Some(TypeSize::CompileTime(3)));
        c.case(|| "int[3][4]".into());
        let r = guard(|| a2.get_array_byte_size(&m).ok().and_then(|x| x.get_compile_time_value().ok()));
        if r != Ok(Some(48)) { c.fail("array-of-arrays", "an array of arrays occupies all elements' bytes", "int[3][4]", "48 bytes", format!("{r:?}")); }
    });
}
