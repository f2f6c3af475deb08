pub trait ToBytes: Sized {
    /// the byte string the WebAssembly binary format gives this value
    spec fn enc(&self) -> Seq<u8>;
    fn to_bytes(&self) -> (r: Vec<u8>)
        ensures r@ == self.enc();
}
pub open spec fn enc_items<T: ToBytes>(s: Seq<T>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::<u8>::empty() } else { enc_items(s.drop_last()) + s.last().enc() }
}
/// a vector: element count, then the elements in order
pub open spec fn enc_vec<T: ToBytes>(s: Seq<T>) -> Seq<u8> { uleb(s.len()) + enc_items(s) }

pub proof fn lemma_items_step<T: ToBytes>(s: Seq<T>, k: int)
    requires 0 <= k < s.len(),
    ensures enc_items(s.subrange(0, k + 1)) == enc_items(s.subrange(0, k)) + s[k].enc(),
{
    let t = s.subrange(0, k + 1);
    assert(t.drop_last() =~= s.subrange(0, k));
    assert(t.last() == s[k]);
}

pub uninterp spec fn f32_le(z: f32) -> Seq<u8>;
pub uninterp spec fn f64_le(z: f64) -> Seq<u8>;
/// library contract: the little-endian IEEE 754 bytes, 4 and 8 of them
pub assume_specification [f32::to_le_bytes] (z: f32) -> (r: [u8; 4]) ensures r@ == f32_le(z);
pub assume_specification [f64::to_le_bytes] (z: f64) -> (r: [u8; 8]) ensures r@ == f64_le(z);

/// library contract, used at T = u8 only
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@ == s@;

pub proof fn lemma_small_uleb()
    ensures forall|v: nat| v < 128 ==> #[trigger] uleb(v) == seq![v as u8],
{
    assert forall|v: nat| v < 128 implies #[trigger] uleb(v) == seq![v as u8] by { reveal_with_fuel(uleb, 1); }
}

//@fn src/back_end/float_encoding.rs encode_float
//@ret r
//@spec
    ensures r@ == f64_le(value),
//@end
//@fn src/back_end/float_encoding.rs encode_single_float
//@ret r
//@spec
    ensures r@ == f32_le(value),
//@end

//@fn src/back_end/vector_encoding.rs encode_vector
//@ret r
//@nloops 1
//@spec
    ensures r@ == enc_vec(elements@),
//@iter 0 it
//@loop 0
    invariant bytes@ == uleb(elements@.len()) + enc_items(elements@.subrange(0, it.index@ as int)),
//@loop 0 start
    proof { lemma_items_step(elements@, it.index@ as int); }
//@loop 0 end
    proof { assert(bytes@ =~= uleb(elements@.len()) + enc_items(elements@.subrange(0, it.index@ + 1))); }
//@end_
    proof { assert(elements@.subrange(0, elements@.len() as int) =~= elements@); }
//@end
