//! C11: loads and stores of variables and constants, observed by executing the emitted code.
use c2w_rac::interp::*;
use c2w_rac::irgen::*;
use c2w_rac::*;
use cc::back_end::memory_operations::*;
use cc::middle_end::instructions::*;
use cc::middle_end::ir_types::*;

fn main() {
    run("C11", "variables of every type in the frame or global, with boundary and random contents: emitted loads, stores and constants are executed and compared byte for byte", |c| {
        for _ in 0..c.n(12_000, 400_000) {
            let mut r = Rng::new(c.rng.u64());
            let mut w = World::new();
            let mut ts = arith();
            ts.push(IrType::PointerTo(Box::new(IrType::I8)));
            ts.push(IrType::ArrayOf(Box::new(IrType::F64), Some(TypeSize::CompileTime(3))));
            for _ in 0..r.below(4) { let t = r.pick(&ts).clone(); w.var(&mut r, &t); }
            let t = r.pick(&ts).clone();
            let v = w.var(&mut r, &t);
            for _ in 0..r.below(3) { let t = r.pick(&ts).clone(); w.var(&mut r, &t); }
            let fc = w.context();
            let b = bits(&mut r, &t);
            let mut m = w.machine(&mut r);
            w.set(&mut m, &v, b);
            let before = m.mem.clone();
            let at = format!("{t} at {} bits {b:#x}", w.addr(&v));
            c.case(|| at.clone());
            // read
            let want = value(&t, b);
            let by_src = r.chance(1, 2);
            let res = guard(|| { let mut o = vec![]; if by_src { load_src(Src::Var(v.clone()), t.clone(), &mut o, &fc, &w.meta) } else { load_var(v.clone(), &mut o, &fc, &w.meta) } o });
            let got = res.map_err(|e| e).and_then(|o| m.run(&o).map_err(|e| format!("{e:?}")).map(|_| std::mem::take(&mut m.stack)));
            let ok = matches!(&got, Ok(s) if s.len() == 1 && s[0].same(&want)) && m.mem == before;
            if !ok { c.fail(format!("read-{t}"), "a read yields the value of the variable and changes nothing", at.clone(), format!("{want:?}"), format!("{got:?}, changed {:?}", diff(&before, &m.mem))); }
            // address
            let got = guard(|| { let mut o = vec![]; load_var_address(&v, &mut o, &fc, &w.meta); o }).and_then(|o| { m.stack.clear(); m.run(&o).map_err(|e| format!("{e:?}")).map(|_| std::mem::take(&mut m.stack)) });
            let wa = V::I(w.addr(&v) as i32);
            if !matches!(&got, Ok(s) if s.len() == 1 && s[0].same(&wa)) { c.fail("address", "a variable's address is its own", at.clone(), format!("{wa:?}"), format!("{got:?}")); }
            // write
            let nb = bits(&mut r, &t);
            let hi = (r.u64() << 8 * width(&t) as u64 % 64) as i32;
            let val: V = match value(&t, nb) { V::I(x) if width(&t) < 4 => V::I((x & ((1i32 << (8 * width(&t))) - 1)) | (hi & !((1i32 << (8 * width(&t))) - 1))), x => x };
            let code = vec![match val { V::I(n) => WI::I32Const { n }, V::L(n) => WI::I64Const { n }, V::F(z) => WI::F32Const { z }, V::D(z) => WI::F64Const { z } }];
            let mut want = m.mem.clone();
            for k in 0..width(&t) { want[w.addr(&v) as usize + k] = (nb >> (8 * k)) as u8; }
            m.stack.clear();
            let got = guard(|| { let mut o = vec![]; store_var(v.clone(), code, &mut o, &fc, &w.meta); o }).and_then(|o| m.run(&o).map_err(|e| format!("{e:?}")).map(|_| m.stack.len()));
            if got != Ok(0) || m.mem != want { c.fail(format!("write-{t}"), "a write stores exactly the bytes of the type at the variable", format!("{at}, value {val:?}"), format!("bytes {nb:#x} at {}", w.addr(&v)), format!("{got:?}, wrong bytes at {:?}", diff(&want, &m.mem))); }
            // constants
            let (k, want) = match &t {
                IrType::ArrayOf(..) => (None, V::I(0)),
                IrType::F32 => if r.chance(1, 2) { let z = r.range(-100000, 100000) as f64 / 7.0; (Some(Constant::Float(z)), V::F(z as f32)) } else { let n = r.u64() as i64 as i128; (Some(Constant::Int(n)), V::F(n as f32)) },
                IrType::F64 => if r.chance(1, 2) { let z = r.range(-100000, 100000) as f64 / 7.0; (Some(Constant::Float(z)), V::D(z)) } else { let n = r.u64() as i64 as i128; (Some(Constant::Int(n)), V::D(n as f64)) },
                IrType::PointerTo(_) => { let n = r.below(1 << 32) as i128; (Some(Constant::Int(n)), V::I(n as i32)) }
                t => { let b = bits(&mut r, t); let n = integer(t, b); (Some(Constant::Int(n)), value(t, b)) }
            };
            if let Some(k) = k {
                let ks = format!("constant {k} as {t}");
                let before = m.mem.clone();
                let use_src = r.chance(1, 2);
                let got = guard(|| { let mut o = vec![]; if use_src { load_src(Src::Constant(k), t.clone(), &mut o, &fc, &w.meta) } else { load_constant(k, t.clone(), &mut o) } o }).and_then(|o| { m.stack.clear(); m.run(&o).map_err(|e| format!("{e:?}")).map(|_| std::mem::take(&mut m.stack)) });
                if !matches!(&got, Ok(s) if s.len() == 1 && s[0].same(&want)) || m.mem != before { c.fail(format!("constant-{t}"), "a constant is loaded with its value", ks, format!("{want:?}"), format!("{got:?}")); }
            }
            if c.too_many() { break; }
        }
    });
}
use cc::back_end::wasm_instructions::WasmInstruction as WI;
