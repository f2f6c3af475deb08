//! C07: a constant's type represents its value, and is the narrowest of its signedness.
use c2w_rac::*;
use cc::middle_end::instructions::Constant;
use cc::middle_end::ir_types::IrType;

fn all() -> Vec<(IrType, i128, i128, u32, bool)> {
    vec![
        (IrType::I8, -128, 127, 8, true), (IrType::U8, 0, 255, 8, false), (IrType::I16, -32768, 32767, 16, true), (IrType::U16, 0, 65535, 16, false),
        (IrType::I32, -(1 << 31), (1 << 31) - 1, 32, true), (IrType::U32, 0, (1 << 32) - 1, 32, false),
        (IrType::I64, -(1 << 63), (1 << 63) - 1, 64, true), (IrType::U64, 0, (1 << 64) - 1, 64, false),
    ]
}
fn check(c: &mut Ctx, i: i128) {
    c.case(|| format!("constant {i}"));
    let others = vec![None, Some(IrType::F64), Some(IrType::F32), Some(IrType::Void), Some(IrType::PointerTo(Box::new(IrType::I8)))];
    for e in others {
        let e2 = e.clone();
        let r = match guard(|| Constant::Int(i).get_type(e2)) {
            Ok(r) => r,
            Err(m) => { c.fail("get_type panics", "a type is returned", format!("{i}"), "a type", m); continue; }
        };
        let bad = |c: &mut Ctx, why: &str| c.fail(format!("get_type {why}"), "the type represents the value and no narrower type of the same signedness does", format!("constant {i}, prescribed type {e:?}"), why.to_string(), format!("{r:?}"));
        match all().into_iter().find(|t| t.0 == r) {
            None => bad(c, "an integer type"),
            Some((_, lo, hi, bits, s)) => {
                if i < lo || i > hi { bad(c, "a type that represents the value"); }
                if all().iter().any(|t| t.4 == s && t.3 < bits && i >= t.1 && i <= t.2) { bad(c, "the narrowest type of its signedness"); }
            }
        }
    }
    for t in all() {
        let r = guard(|| Constant::Int(i).get_type(Some(t.0.clone())));
        if r != Ok(t.0.clone()) { c.fail("prescribed type", "a prescribed integer type is used", format!("constant {i}, prescribed {:?}", t.0), format!("{:?}", t.0), format!("{r:?}")); }
    }
    let m = guard(|| Constant::Int(i).get_type_minimum_i32());
    let ok = match &m {
        Ok(t) => match all().into_iter().find(|x| x.0 == *t) {
            None => false,
            Some((_, lo, hi, bits, s)) => bits >= 32 && i >= lo && i <= hi && !all().iter().any(|t| t.4 == s && t.3 >= 32 && t.3 < bits && i >= t.1 && i <= t.2)
                && ((*t == IrType::I32) == (i >= -(1 << 31) && i < (1 << 31))),
        },
        Err(_) => false,
    };
    if !ok { c.fail("get_type_minimum_i32", "int exactly when int represents the value, else the narrowest type of its signedness", format!("constant {i}"), "see contract", format!("{m:?}")); }
}
fn main() {
    run("C07", "constants at and around every power of two and type limit, and random ones of every magnitude, with and without a prescribed type", |c| {
        for b in 0..65u32 {
            for d in -3i128..=3 {
                for s in [1i128, -1] {
                    let i = s * (1i128 << b) + d;
                    if i >= -(1i128 << 63) && i < (1i128 << 64) { check(c, i); }
                }
            }
        }
        let n = c.n(20_000, 1_000_000);
        for _ in 0..n {
            let bits = c.rng.below(65) as u32;
            let v = (c.rng.u128() & ((1u128 << bits) - 1)) as i128;
            let i = if bits < 64 && c.rng.chance(1, 2) { -v } else { v };
            check(c, i);
            if c.too_many() { break; }
        }
        for f in [0.0, -1.5, 1e300, f64::NAN, f64::INFINITY] {
            for e in [None, Some(IrType::I32), Some(IrType::F32), Some(IrType::F64)] {
                c.case(|| format!("constant {f}, prescribed {e:?}"));
                let r = guard(|| (Constant::Float(f).get_type(e.clone()), Constant::Float(f).get_type_minimum_i32()));
                if r != Ok((IrType::F64, IrType::F64)) { c.fail("floating constant", "floating constants are double", format!("{f}"), "F64", format!("{r:?}")); }
            }
        }
    });
}
