//! C01: unsigned LEB128. Oracle: an independent decoder plus the closed-form minimal length.
use c2w_rac::*;
use cc::back_end::integer_encoding::encode_unsigned_int;

fn check(c: &mut Ctx, v: u128) {
    c.case(|| format!("encode_unsigned_int({v})"));
    match guard(|| encode_unsigned_int(v)) {
        Err(e) => c.fail("panic", "never panics", v.to_string(), "bytes", e),
        Ok(b) => {
            let bits = 128 - v.leading_zeros();
            let want_len = std::cmp::max(1, (bits + 6) / 7) as usize;
            let framed = !b.is_empty() && b[b.len() - 1] < 128 && b[..b.len() - 1].iter().all(|x| *x >= 128);
            let mut val: u128 = 0;
            let mut lost = false;
            for (i, x) in b.iter().enumerate() {
                let p = (*x & 127) as u128;
                if i * 7 >= 128 || (i * 7 > 121 && (p >> (128 - i * 7)) != 0) { lost = lost || p != 0; } else { val |= p << (7 * i); }
            }
            if !framed || lost || val != v {
                c.fail("decode", "decodes to the encoded number, continuation bits on all but the last byte", v.to_string(), v.to_string(), format!("{b:02x?}"));
            } else if b.len() != want_len {
                c.fail("length", "is the shortest encoding", v.to_string(), format!("{want_len} bytes"), format!("{b:02x?}"));
            }
        }
    }
}

fn main() {
    run("C01", "all values below 2^16, every power of two and its neighbours, every 7-bit-group boundary pattern, and random values of every bit length; non-trivial = more than one byte", |c| {
        for v in 0..(1u128 << 16) { check(c, v); }
        for s in 0..128 {
            let p = 1u128 << s;
            for d in 0..4 { check(c, p.wrapping_add(d)); check(c, p.wrapping_sub(d)); }
            check(c, u128::MAX >> s);
            check(c, u128::MAX << s);
            for t in 0..128 { check(c, p | (1u128 << t)); check(c, p ^ ((1u128 << t).wrapping_sub(1))); }
        }
        for _ in 0..c.n(20_000, 2_000_000) {
            let s = c.rng.below(128);
            let v = c.rng.u128() >> s;
            let m = c.rng.u128();
            check(c, v);
            check(c, v & (m << 7));
        }
    });
}
