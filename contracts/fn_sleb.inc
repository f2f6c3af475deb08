//@fn src/back_end/integer_encoding.rs encode_signed_int
//@ret r
//@nloops 1
//@spec
    ensures
        r@ == sleb(value as int),
        leb_framed(r@),
        sleb_value(r@) == value as int,
        forall|s: Seq<u8>| leb_framed(s) && sleb_value(s) == value as int ==> r@.len() <= s.len(),
//@start
    let ghost v0 = value as int;
    proof { lemma_bits_byte(); }
//@loop 0
    invariant
        more_bits ==> bytes@ + sleb(value as int) == sleb(v0),
        !more_bits ==> bytes@ == sleb(v0),
        forall|b: u8| b < 128 ==> (#[trigger] (b | 0b1000_0000)) as int == b as int + 128,
        forall|b: u8| b < 128 ==> (#[trigger] (b >> 6)) & 1 == (if b < 64 { 0u8 } else { 1u8 }),
    decreases (if more_bits { 1int } else { 0int }), iabs(value as int),
//@loop 0 start
        let ghost gv = value;
        let ghost gb = bytes@;
        proof { lemma_bits_i128(value); }
//@loop 0 end
        proof {
            if more_bits { assert(bytes@ + sleb(value as int) =~= gb + sleb(gv as int)); }
            else { assert(bytes@ =~= gb + sleb(gv as int)); }
        }
//@end_
    proof {
        lemma_sleb_roundtrip(v0);
        assert forall|s: Seq<u8>| leb_framed(s) && sleb_value(s) == v0 implies bytes@.len() <= s.len() by { lemma_sleb_minimal(s); }
    }
//@end
