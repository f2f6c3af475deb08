// ---- LEB128: the mathematical encoding (oracle), and what decoding means --------------------
pub open spec fn uleb(v: nat) -> Seq<u8>
    decreases v,
{
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + uleb(v / 128) }
}

/// The value a well-formed unsigned LEB128 string denotes.
pub open spec fn uleb_value(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { (s[0] % 128) as nat + 128 * uleb_value(s.subrange(1, s.len() as int)) }
}

/// Continuation bit set on every byte but the last.
pub open spec fn leb_framed(s: Seq<u8>) -> bool {
    s.len() > 0 && s[s.len() - 1] < 128 && forall|i: int| 0 <= i < s.len() - 1 ==> s[i] >= 128
}

pub proof fn lemma_uleb_roundtrip(v: nat)
    ensures leb_framed(uleb(v)), uleb_value(uleb(v)) == v,
    decreases v,
{
    reveal_with_fuel(uleb_value, 2);
    if v < 128 {
        assert(uleb(v).subrange(1, 1) =~= Seq::<u8>::empty());
    } else {
        lemma_uleb_roundtrip(v / 128);
        let s = uleb(v);
        let t = uleb(v / 128);
        assert(s.subrange(1, s.len() as int) =~= t);
        assert(s[s.len() - 1] == t[t.len() - 1]);
        assert forall|i: int| 0 <= i < s.len() - 1 implies s[i] >= 128 by {
            if i > 0 { assert(s[i] == t[i - 1]); }
        }
    }
}

/// No well-formed string denoting v is shorter.
pub proof fn lemma_uleb_minimal(s: Seq<u8>)
    requires leb_framed(s),
    ensures uleb(uleb_value(s)).len() <= s.len(),
    decreases s.len(),
{
    let v = uleb_value(s);
    if s.len() == 1 {
        reveal_with_fuel(uleb_value, 2);
        assert(s.subrange(1, 1) =~= Seq::<u8>::empty());
        assert(v < 128);
    } else {
        let t = s.subrange(1, s.len() as int);
        assert(leb_framed(t)) by {
            assert(t[t.len() - 1] == s[s.len() - 1]);
            assert forall|i: int| 0 <= i < t.len() - 1 implies t[i] >= 128 by { assert(t[i] == s[i + 1]); }
        }
        lemma_uleb_minimal(t);
        if v >= 128 {
            assert(v / 128 == uleb_value(t)) by (nonlinear_arith)
                requires v == (s[0] % 128) as nat + 128 * uleb_value(t), (s[0] % 128) < 128;
        }
    }
}

pub open spec fn sleb_done(rest: int, low: int) -> bool {
    (rest == 0 && low < 64) || (rest == -1 && low >= 64)
}

pub open spec fn iabs(v: int) -> nat { if v < 0 { (-v) as nat } else { v as nat } }

pub open spec fn sleb(v: int) -> Seq<u8>
    decreases iabs(v),
{
    let low = v % 128;
    let rest = v / 128;
    if sleb_done(rest, low) || v == 0 || v == -1 { seq![low as u8] } else { seq![(low + 128) as u8] + sleb(rest) }
}

pub open spec fn sleb_value(s: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 }
    else if s.len() == 1 { if s[0] % 128 < 64 { (s[0] % 128) as int } else { (s[0] % 128) as int - 128 } }
    else { (s[0] % 128) as int + 128 * sleb_value(s.subrange(1, s.len() as int)) }
}

pub proof fn lemma_sleb_roundtrip(v: int)
    ensures leb_framed(sleb(v)), sleb_value(sleb(v)) == v,
    decreases iabs(v),
{
    let low = v % 128;
    let rest = v / 128;
    if sleb_done(rest, low) || v == 0 || v == -1 {
    } else {
        lemma_sleb_roundtrip(rest);
        let s = sleb(v);
        let t = sleb(rest);
        assert(s.subrange(1, s.len() as int) =~= t);
        assert(s[s.len() - 1] == t[t.len() - 1]);
        assert forall|i: int| 0 <= i < s.len() - 1 implies s[i] >= 128 by {
            if i > 0 { assert(s[i] == t[i - 1]); }
        }
    }
}

pub proof fn lemma_sleb_minimal(s: Seq<u8>)
    requires leb_framed(s),
    ensures sleb(sleb_value(s)).len() <= s.len(),
    decreases s.len(),
{
    let v = sleb_value(s);
    if s.len() == 1 {
        assert(-64 <= v < 64);
    } else {
        let t = s.subrange(1, s.len() as int);
        assert(leb_framed(t)) by {
            assert(t[t.len() - 1] == s[s.len() - 1]);
            assert forall|i: int| 0 <= i < t.len() - 1 implies t[i] >= 128 by { assert(t[i] == s[i + 1]); }
        }
        lemma_sleb_minimal(t);
        assert(v / 128 == sleb_value(t)) by (nonlinear_arith)
            requires v == (s[0] % 128) as int + 128 * sleb_value(t), 0 <= (s[0] % 128) < 128;
    }
}

// ---- machine-word facts, by bit-vector reasoning ---------------------------------------------
pub proof fn lemma_bits_u128(v: u128)
    ensures (v & 0b0111_1111) as u8 == (v as nat % 128) as u8, (v & 0b0111_1111) < 128,
            (v >> 7) as nat == v as nat / 128,
{
    assert((v & 0b0111_1111) == v % 128) by (bit_vector);
    assert((v >> 7) == v / 128) by (bit_vector);
}

pub proof fn lemma_bits_i128(v: i128)
    ensures (v & 0b0111_1111) as int == v as int % 128, 0 <= (v & 0b0111_1111) < 128,
            (v >> 7) as int == v as int / 128,
{
    assert(0 <= (v & 0b0111_1111) < 128) by (bit_vector);
    let q: i128 = v >> 7;
    let r: i128 = v & 0b0111_1111;
    assert(v == ((v >> 7) << 7) | (v & 0b0111_1111)) by (bit_vector);
    assert(-1329227995784915872903807060280344576i128 <= v >> 7 && v >> 7 <= 1329227995784915872903807060280344575i128) by (bit_vector);
    assert((v >> 7) << 7 == (v >> 7) * 128) by (bit_vector);
    assert((((v >> 7) << 7) | (v & 0b0111_1111)) == add((v >> 7) << 7, v & 0b0111_1111)) by (bit_vector);
    assert(v as int == q as int * 128 + r as int);
    assert(v as int / 128 == q as int && v as int % 128 == r as int) by (nonlinear_arith)
        requires v as int == q as int * 128 + r as int, 0 <= r as int, (r as int) < 128;
}

pub proof fn lemma_bits_byte()
    ensures
        forall|b: u8| b < 128 ==> (#[trigger] (b | 0b1000_0000)) as int == b as int + 128,
        forall|b: u8| b < 128 ==> (#[trigger] (b >> 6)) & 1 == (if b < 64 { 0u8 } else { 1u8 }),
{
    assert(forall|b: u8| b < 128 ==> (#[trigger] (b | 0b1000_0000)) == add(b, 128)) by (bit_vector);
    assert(forall|b: u8| b < 128 ==> (#[trigger] (b >> 6)) & 1 == (if b < 64 { 0u8 } else { 1u8 })) by (bit_vector);
}
