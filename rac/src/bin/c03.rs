//! C03: every instruction against the opcode table of the WebAssembly specification.
use c2w_rac::*;
use cc::back_end::to_bytes::ToBytes;
use wasm::*;

fn main() {
    run("C03", "every instruction variant with boundary and random immediates, random instruction trees up to depth 4; non-trivial = more than one byte", |c| {
        for k in 0..N_PLAIN as usize {
            for _ in 0..c.n(60, 3000) {
                let mut r = Rng::new(c.rng.u64());
                let (i, want) = plain(&mut r, k);
                c.case(|| format!("{i:?}"));
                let nm = format!("{i:?}").split([' ', '{']).next().unwrap().to_string();
                match guard(|| i.to_bytes()) {
                    Ok(got) if got == want => {}
                    g => c.fail(format!("instr-{nm}"), "the opcode and immediates the specification prescribes", format!("{i:?}"), format!("{want:02x?}"), format!("{g:02x?}")),
                }
            }
        }
        for _ in 0..c.n(4000, 200_000) {
            let mut r = Rng::new(c.rng.u64());
            let d = 1 + r.below(4) as u32;
            let (i, want) = instr(&mut r, d);
            c.case(|| format!("{i:?}"));
            match guard(|| i.to_bytes()) {
                Ok(got) if got == want => {}
                g => c.fail("nested", "nested bodies with block type and terminators", format!("{i:?}"), format!("{want:02x?}"), format!("{g:02x?}")),
            }
            let (e, want) = expr(&mut r);
            match guard(|| e.to_bytes()) {
                Ok(got) if got == want => {}
                g => c.fail("expr", "instructions in order followed by end", format!("{e:?}"), format!("{want:02x?}"), format!("{g:02x?}")),
            }
        }
    });
}
