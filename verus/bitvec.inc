    // TRUSTED: bit_vec::BitVec; bytes hold bits from the highest to the lowest, the last byte is filled with zeros
    #[verifier::external_body]
    pub struct BitVec { v: Vec<bool> }
    impl View for BitVec { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
    pub open spec fn bit(b: bool) -> int { if b { 1 } else { 0 } }
    pub open spec fn at(s: Seq<bool>, i: int) -> int { if 0 <= i < s.len() { bit(s[i]) } else { 0 } }
    pub open spec fn pack(s: Seq<bool>) -> Seq<u8> {
        Seq::new(((s.len() + 7) / 8) as nat, |j: int|
            (at(s, 8 * j) * 128 + at(s, 8 * j + 1) * 64 + at(s, 8 * j + 2) * 32 + at(s, 8 * j + 3) * 16
            + at(s, 8 * j + 4) * 8 + at(s, 8 * j + 5) * 4 + at(s, 8 * j + 6) * 2 + at(s, 8 * j + 7)) as u8)
    }
    pub open spec fn weight(k: int) -> int {
        if k == 0 { 128 } else if k == 1 { 64 } else if k == 2 { 32 } else if k == 3 { 16 } else if k == 4 { 8 } else if k == 5 { 4 } else if k == 6 { 2 } else { 1 }
    }
    pub open spec fn unpack(b: Seq<u8>) -> Seq<bool> {
        Seq::new((8 * b.len()) as nat, |i: int| (b[i / 8] as int / weight(i % 8)) % 2 == 1)
    }
    impl BitVec {
        #[verifier::external_body]
        pub fn new() -> (r: BitVec) ensures r@ == Seq::<bool>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn push(&mut self, b: bool) ensures final(self)@ == old(self)@.push(b) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == pack(self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn from_bytes(b: &[u8]) -> (r: BitVec) ensures r@ == unpack(b@) { unimplemented!() }
    }
    impl vstd::std_specs::core::IndexSpecImpl<usize> for BitVec {
        open spec fn index_req(&self, index: &usize) -> bool { *index < self@.len() }
    }
    impl std::ops::Index<usize> for BitVec {
        type Output = bool;
        #[verifier::external_body]
        fn index(&self, index: usize) -> (r: &bool) ensures *r == self@[index as int] { unimplemented!() }
    }
    pub proof fn unpack_pack(s: Seq<bool>)
        ensures unpack(pack(s)).len() == 8 * ((s.len() + 7) / 8),
            forall|i: int| 0 <= i < s.len() ==> #[trigger] unpack(pack(s))[i] == s[i],
    {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] unpack(pack(s))[i] == s[i] by {
            let j = i / 8;
            let k = i % 8;
            assert(i == 8 * j + k && 0 <= k < 8);
            assert(0 <= j < pack(s).len());
            let v = pack(s)[j] as int;
            let (a, b, c, d, e, f, g, h) = (at(s, 8 * j), at(s, 8 * j + 1), at(s, 8 * j + 2), at(s, 8 * j + 3), at(s, 8 * j + 4), at(s, 8 * j + 5), at(s, 8 * j + 6), at(s, 8 * j + 7));
            assert(v == a * 128 + b * 64 + c * 32 + d * 16 + e * 8 + f * 4 + g * 2 + h);
            assert(unpack(pack(s))[i] == ((v / weight(k)) % 2 == 1));
            if k == 0 { assert((v / 128) % 2 == a); }
            else if k == 1 { assert((v / 64) % 2 == b); }
            else if k == 2 { assert((v / 32) % 2 == c); }
            else if k == 3 { assert((v / 16) % 2 == d); }
            else if k == 4 { assert((v / 8) % 2 == e); }
            else if k == 5 { assert((v / 4) % 2 == f); }
            else if k == 6 { assert((v / 2) % 2 == g); }
            else { assert(k == 7); assert(v % 2 == h); }
        }
    }
