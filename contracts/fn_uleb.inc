//@fn src/back_end/integer_encoding.rs encode_unsigned_int
//@ret r
//@nloops 1
//@spec
    ensures
        r@ == uleb(value as nat),
        leb_framed(r@),
        uleb_value(r@) == value as nat,
        forall|s: Seq<u8>| leb_framed(s) && uleb_value(s) == value as nat ==> r@.len() <= s.len(),
//@start
    let ghost v0 = value as nat;
    proof { lemma_bits_byte(); }
//@loop 0
    invariant_except_break
        bytes@ + uleb(value as nat) == uleb(v0),
    invariant
        forall|b: u8| b < 128 ==> (#[trigger] (b | 0b1000_0000)) as int == b as int + 128,
    ensures
        bytes@ == uleb(v0),
    decreases value,
//@loop 0 start
        let ghost gv = value;
        let ghost gb = bytes@;
        proof { lemma_bits_u128(value); }
//@loop 0 end
        proof {
            assert(bytes@ + uleb(value as nat) =~= gb + uleb(gv as nat));
        }
//@end_
    proof {
        lemma_uleb_roundtrip(v0);
        assert forall|s: Seq<u8>| leb_framed(s) && uleb_value(s) == v0 implies bytes@.len() <= s.len() by { lemma_uleb_minimal(s); }
    }
//@end
