//! C02: signed LEB128. Oracle: an independent sign-extending decoder plus the minimal length.
use c2w_rac::*;
use cc::back_end::integer_encoding::encode_signed_int;

fn check(c: &mut Ctx, v: i128) {
    c.case(|| format!("encode_signed_int({v})"));
    match guard(|| encode_signed_int(v)) {
        Err(e) => c.fail("panic", "never panics", v.to_string(), "bytes", e),
        Ok(b) => {
            // number of significant bits including the sign bit
            let bits = 129 - if v < 0 { (!v).leading_zeros() } else { v.leading_zeros() };
            let want_len = ((bits + 6) / 7) as usize;
            let framed = !b.is_empty() && b[b.len() - 1] < 128 && b[..b.len() - 1].iter().all(|x| *x >= 128);
            // decode most significant group first: value = value * 128 + group, exactly
            let mut val: Option<i128> = None;
            if framed && b.len() <= 19 {
                let mut acc: i128 = 0;
                let mut ok = true;
                for (i, x) in b.iter().enumerate().rev() {
                    let g = (*x & 127) as i128;
                    acc = if i == b.len() - 1 { if g >= 64 { g - 128 } else { g } } else {
                        match acc.checked_mul(128).and_then(|a| a.checked_add(g)) { Some(a) => a, None => { ok = false; 0 } }
                    };
                }
                if ok { val = Some(acc); }
            }
            if val != Some(v) {
                c.fail("decode", "decodes to the encoded integer", v.to_string(), v.to_string(), format!("{b:02x?}"));
            } else if b.len() != want_len {
                c.fail("length", "is the shortest encoding", v.to_string(), format!("{want_len} bytes"), format!("{b:02x?}"));
            }
        }
    }
}

fn main() {
    run("C02", "all values in (-2^16, 2^16), every power of two and its neighbours with both signs, group boundary patterns and random values of every bit length; non-trivial = more than one byte", |c| {
        for v in -(1i128 << 16)..(1i128 << 16) { check(c, v); }
        for s in 0..127 {
            let p = 1i128 << s;
            for d in -3..4 { check(c, p.wrapping_add(d)); check(c, p.wrapping_neg().wrapping_add(d)); }
            check(c, i128::MAX >> s);
            check(c, i128::MIN >> s);
            for t in 0..127 { check(c, p | (1i128 << t)); check(c, !(p | (1i128 << t))); }
        }
        check(c, i128::MIN);
        check(c, i128::MAX);
        for _ in 0..c.n(20_000, 2_000_000) {
            let s = c.rng.below(128) as u32;
            let v = (c.rng.u128() as i128) >> s;
            let m = c.rng.u128() as i128;
            check(c, v);
            check(c, v & (m << 7));
        }
    });
}
