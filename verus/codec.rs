#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: the sequence encoder and decoder (properties 1, 2, 6).
// Functions marked `fn` below are cut from the repository's source on every run.
use vstd::prelude::*;
use std::sync::Arc;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::bits::*;

macro_rules! bail { ($($t:tt)*) => { return Err(crate::lib_specs::Error) } }

verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- trusted specifications of library code
pub mod lib_specs {
    use super::*;

    /// stands for anyhow::Error; messages are dropped
    pub struct Error;
    pub type Result<T> = core::result::Result<T, Error>;
    impl From<std::collections::TryReserveError> for Error {
        #[verifier::external_body]
        fn from(e: std::collections::TryReserveError) -> Error { Error }
    }
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExFromUtf8Error(std::string::FromUtf8Error);
    impl From<std::string::FromUtf8Error> for Error {
        #[verifier::external_body]
        fn from(e: std::string::FromUtf8Error) -> Error { Error }
    }

    // TRUSTED: std::io::Read on a source that delivers its bytes and then ends
    pub trait Read {
        spec fn rest(&self) -> Seq<u8>;
        proof fn rest_fits(&self) ensures self.rest().len() <= isize::MAX;
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                old(buf)@.len() <= old(self).rest().len() ==> r is Ok
                    && final(buf)@ == old(self).rest().take(old(buf)@.len() as int)
                    && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int),
                old(buf)@.len() > old(self).rest().len() ==> r is Err,
        ;
    }
    impl Read for &[u8] {
        open spec fn rest(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        proof fn rest_fits(&self) { }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
    }
    // TRUSTED: std::io::Write on a sink that accepts every byte
    pub trait Write {
        spec fn sink(&self) -> Seq<u8>;
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures r is Ok, final(self).sink() == old(self).sink() + buf@,
        ;
    }
    impl Write for Vec<u8> {
        open spec fn sink(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
    }

    // TRUSTED: Vec::set_len and Vec::capacity (the caller must have reserved the room)
    pub uninterp spec fn cap<T, A: std::alloc::Allocator>(v: &Vec<T, A>) -> nat;
    pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::set_len ](v: &mut Vec<T, A>, n: usize)
        requires n <= cap(old(v)),
        ensures final(v)@.len() == n, cap(final(v)) == cap(old(v));
    pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
        ensures r == cap(v), r >= v@.len();

    // TRUSTED: with_capacity_safe: an empty vector, or an error when the room cannot be had.
    // Room for as many items as a file of 2^56 bytes can hold is assumed to exist.
    #[verifier::external_body]
    pub fn vec_with_capacity_safe<T>(capacity: usize) -> (r: core::result::Result<Vec<T>, std::collections::TryReserveError>)
        ensures
            r is Ok ==> r->Ok_0@.len() == 0 && cap(&r->Ok_0) >= capacity,
            capacity < 0x100_0000_0000_0000 ==> r is Ok,
    { unimplemented!() }
    // TRUSTED: the same assumption for Vec::try_reserve (calls are redirected here)
    pub trait Reserve {
        spec fn held(&self) -> (nat, nat);
        fn try_reserve_(&mut self, additional: usize) -> (r: core::result::Result<(), std::collections::TryReserveError>)
            ensures
                final(self).held().0 == old(self).held().0,
                r is Ok ==> final(self).held().1 >= old(self).held().0 + additional,
                additional < 0x100_0000_0000_0000 ==> r is Ok;
    }
    impl<T> Reserve for Vec<T> {
        open spec fn held(&self) -> (nat, nat) { (self@.len(), cap(self)) }
        #[verifier::external_body]
        fn try_reserve_(&mut self, additional: usize) -> (r: core::result::Result<(), std::collections::TryReserveError>) { unimplemented!() }
    }

    // TRUSTED: strings and their UTF-8 bytes
    pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
    pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == utf8(s@).len();
    pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == utf8(s@);
    pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
        ensures
            r is Ok ==> utf8(r->Ok_0@) == v@,
            forall|s: Seq<char>| v@ == #[trigger] utf8(s) ==> r is Ok && r->Ok_0@ == s;
    // TRUSTED: byte orders of the standard library
    pub uninterp spec fn be4(f: f32) -> Seq<u8>;
    pub uninterp spec fn be8(f: f64) -> Seq<u8>;
    pub uninterp spec fn le8(n: u64) -> Seq<u8>;
    pub uninterp spec fn le4(n: u32) -> Seq<u8>;
    pub uninterp spec fn le2(n: u16) -> Seq<u8>;
    pub assume_specification[ f32::to_be_bytes ](f: f32) -> (r: [u8; 4]) ensures r@ == be4(f);
    pub assume_specification[ f32::from_be_bytes ](b: [u8; 4]) -> (r: f32) ensures forall|f: f32| (#[trigger] be4(f))[0] == b[0] && be4(f)[1] == b[1] && be4(f)[2] == b[2] && be4(f)[3] == b[3] ==> r == f;
    pub assume_specification[ f64::to_be_bytes ](f: f64) -> (r: [u8; 8]) ensures r@ == be8(f);
    pub assume_specification[ f64::from_be_bytes ](b: [u8; 8]) -> (r: f64) ensures forall|f: f64| (#[trigger] be8(f))[0] == b[0] && be8(f)[1] == b[1] && be8(f)[2] == b[2] && be8(f)[3] == b[3] && be8(f)[4] == b[4] && be8(f)[5] == b[5] && be8(f)[6] == b[6] && be8(f)[7] == b[7] ==> r == f;
    // to_le_bytes / from_le_bytes of the integer types cannot be given a specification by name in this version of
    // Verus (their array length is a private constant), so calls are redirected to this trait
    pub trait Le : Sized {
        spec fn le_bytes(&self) -> Seq<u8>;
    }
    impl Le for u64 { open spec fn le_bytes(&self) -> Seq<u8> { le8(*self) } }
    impl Le for u32 { open spec fn le_bytes(&self) -> Seq<u8> { le4(*self) } }
    impl Le for u16 { open spec fn le_bytes(&self) -> Seq<u8> { le2(*self) } }
    pub trait To<const N: usize> : Le {
        fn to_le_bytes_(&self) -> (r: [u8; N]) ensures r@ == self.le_bytes();
        fn from_le_bytes_(b: [u8; N]) -> (r: Self) ensures forall|n: Self| #[trigger] n.le_bytes() == b@ ==> r == n;
    }
    impl To<8> for u64 {
        #[verifier::external_body]
        fn to_le_bytes_(&self) -> (r: [u8; 8]) { unimplemented!() }
        #[verifier::external_body]
        fn from_le_bytes_(b: [u8; 8]) -> (r: u64) { unimplemented!() }
    }
    impl To<4> for u32 {
        #[verifier::external_body]
        fn to_le_bytes_(&self) -> (r: [u8; 4]) { unimplemented!() }
        #[verifier::external_body]
        fn from_le_bytes_(b: [u8; 4]) -> (r: u32) { unimplemented!() }
    }
    impl To<2> for u16 {
        #[verifier::external_body]
        fn to_le_bytes_(&self) -> (r: [u8; 2]) { unimplemented!() }
        #[verifier::external_body]
        fn from_le_bytes_(b: [u8; 2]) -> (r: u16) { unimplemented!() }
    }
    pub broadcast axiom fn widths4(f: f32) ensures #[trigger] be4(f).len() == 4;
    pub broadcast axiom fn widths8(f: f64) ensures #[trigger] be8(f).len() == 8;
    pub broadcast axiom fn widths_u8(n: u64) ensures #[trigger] le8(n).len() == 8;
    pub broadcast axiom fn widths_u4(n: u32) ensures #[trigger] le4(n).len() == 4;
    pub broadcast axiom fn widths_u2(n: u16) ensures #[trigger] le2(n).len() == 2;
    pub broadcast group widths { widths4, widths8, widths_u8, widths_u4, widths_u2 }

//@ include bitvec.inc
    // TRUSTED: u64::pow
    pub assume_specification[ u64::pow ](b: u64, e: u32) -> (r: u64)
        requires pow(b as int, e as nat) <= u64::MAX,
        ensures r == pow(b as int, e as nat);

}

// ---------------------------------------------------------------- the value type
pub mod kval_enum {
    use super::*;
//@ item dochy_compaction/src/kval_enum.rs enum KVal
//@ item dochy_compaction/src/kval_enum.rs struct Decimal
    impl Decimal {
//@ fn dochy_compaction/src/kval_enum.rs Decimal::new -> r
            ensures r.int_ == int_, r.dot == dot,
//@ end
    }
}

// ---------------------------------------------------------------- the fixed layout
pub mod layout {
    use super::*;
    use super::lib_specs::*;
    use super::kval_enum::*;
    use super::enc_dec::kihon_from_tag::KihonFromTag;

    // the integer layout is proved separately, on the compiled functions (Kani: var_int_i64, var_int_i128, var_int_total)
    pub uninterp spec fn enc_int(i: i64) -> Seq<u8>;
    pub uninterp spec fn dec_int(b: Seq<u8>) -> i64;
    pub uninterp spec fn enc_int128(i: i128) -> Seq<u8>;
    pub uninterp spec fn dec_int128(b: Seq<u8>) -> i128;
    pub broadcast axiom fn int_len(i: i64) ensures 1 <= #[trigger] enc_int(i).len() <= 8;
    pub broadcast axiom fn int_back(i: i64) ensures dec_int(#[trigger] enc_int(i)) == i;
    pub broadcast axiom fn int128_len(i: i128) ensures 1 <= #[trigger] enc_int128(i).len() <= 16;
    pub broadcast axiom fn int128_back(i: i128) ensures dec_int128(#[trigger] enc_int128(i)) == i;
    pub broadcast group ints { int_len, int_back, int128_len, int128_back }

    /// the lowest n bits, highest first
    pub open spec fn bits(v: int, n: nat) -> Seq<bool> decreases n {
        if n == 0 { Seq::empty() } else { bits(v / 2, (n - 1) as nat).push(v % 2 == 1) }
    }
    pub open spec fn value(b: Seq<bool>) -> int decreases b.len() {
        if b.len() == 0 { 0 } else { value(b.drop_last()) * 2 + bit(b.last()) }
    }
    pub proof fn bits_len(v: int, n: nat) ensures bits(v, n).len() == n decreases n {
        if n > 0 { bits_len(v / 2, (n - 1) as nat); }
    }
    pub proof fn value_bits(v: int, n: nat) requires 0 <= v < pow2(n) ensures value(bits(v, n)) == v decreases n {
        if n == 0 { lemma2_to64(); }
        if n > 0 {
            lemma_pow2_unfold(n);
            bits_len(v / 2, (n - 1) as nat);
            value_bits(v / 2, (n - 1) as nat);
            assert(bits(v, n).drop_last() =~= bits(v / 2, (n - 1) as nat));
        }
    }
    pub proof fn bits_value(b: Seq<bool>) ensures bits(value(b), b.len()) == b, 0 <= value(b) < pow2(b.len()) decreases b.len() {
        if b.len() == 0 { lemma2_to64(); }
        if b.len() > 0 {
            lemma_pow2_unfold(b.len());
            bits_value(b.drop_last());
            let v = value(b);
            assert(v / 2 == value(b.drop_last()));
            assert((v % 2 == 1) == b.last());
            assert(bits(v, b.len()) =~= b);
        }
    }
    pub proof fn bits_values()
        ensures
            pow2(3) == 8, pow2(4) == 16,
            forall|v: int| 0 <= v < 8 ==> value(#[trigger] bits(v, 3)) == v,
            forall|v: int| 0 <= v < 16 ==> value(#[trigger] bits(v, 4)) == v,
            forall|v: int| (#[trigger] bits(v, 3)).len() == 3,
            forall|v: int| (#[trigger] bits(v, 4)).len() == 4,
            forall|b: Seq<bool>| b.len() == 3 ==> bits(#[trigger] value(b), 3) == b && 0 <= value(b) < 8,
            forall|b: Seq<bool>| b.len() == 4 ==> bits(#[trigger] value(b), 4) == b && 0 <= value(b) < 16,
    {
        lemma2_to64();
        assert(pow2(3) == 8 && pow2(4) == 16);
        assert forall|v: int| 0 <= v < 8 implies value(#[trigger] bits(v, 3)) == v by { value_bits(v, 3); }
        assert forall|v: int| 0 <= v < 16 implies value(#[trigger] bits(v, 4)) == v by { value_bits(v, 4); }
        assert forall|v: int| (#[trigger] bits(v, 3)).len() == 3 by { bits_len(v, 3); }
        assert forall|v: int| (#[trigger] bits(v, 4)).len() == 4 by { bits_len(v, 4); }
        assert forall|b: Seq<bool>| b.len() == 3 implies bits(#[trigger] value(b), 3) == b && 0 <= value(b) < 8 by { bits_value(b); }
        assert forall|b: Seq<bool>| b.len() == 4 implies bits(#[trigger] value(b), 4) == b && 0 <= value(b) < 16 by { bits_value(b); }
    }

    pub open spec fn zeros(n: nat) -> Seq<bool> { Seq::new(n, |i: int| false) }
    /// the kind marks: zeros up to the first one, again, then the size
    pub open spec fn mark(a: nat, b: nat) -> Seq<bool> { zeros(a) + seq![true] + zeros(b) + seq![true] }
    pub open spec fn tag_bits(t: KihonFromTag) -> Seq<bool> {
        match t {
            KihonFromTag::Bit(b) => seq![true, b],
            KihonFromTag::Byte => mark(1, 0),
            KihonFromTag::Str16(n) => mark(1, 1) + bits(n as int, 4),
            KihonFromTag::Null => mark(1, 2),
            KihonFromTag::Bool(b) => mark(1, 3).push(b),
            KihonFromTag::Decimal(n) => mark(1, 4) + bits(n as int - 1, 4),
            KihonFromTag::Int(n) => mark(2, 0) + bits(n as int - 1, 3),
            KihonFromTag::Str256 => mark(2, 1),
            KihonFromTag::Double => mark(2, 2),
            KihonFromTag::BigStr(n) => mark(2, 3) + bits(n as int - 1, 3),
            KihonFromTag::Float => mark(2, 4),
            KihonFromTag::Binary(n) => mark(3, 0) + bits(n as int - 1, 3),
            KihonFromTag::Binary8(n) => mark(3, 1) + bits(n as int - 1, 3),
            KihonFromTag::Binary4(n) => mark(3, 2) + bits(n as int - 1, 3),
            KihonFromTag::Binary2(n) => mark(3, 3) + bits(n as int - 1, 3),
            KihonFromTag::Undefined(n) => mark(4, n as nat),
        }
    }
    pub open spec fn tag_ok(t: KihonFromTag) -> bool {
        match t {
            KihonFromTag::Str16(n) => n < 16,
            KihonFromTag::Decimal(n) => 1 <= n <= 16,
            KihonFromTag::Int(n) => 1 <= n <= 8,
            KihonFromTag::BigStr(n) => 1 <= n <= 8,
            KihonFromTag::Binary(n) => 1 <= n <= 8,
            KihonFromTag::Binary8(n) => 1 <= n <= 8,
            KihonFromTag::Binary4(n) => 1 <= n <= 8,
            KihonFromTag::Binary2(n) => 1 <= n <= 8,
            _ => true,
        }
    }
    pub open spec fn int_size(n: nat) -> u8 { enc_int(n as i64).len() as u8 }
    pub open spec fn tag_of(v: KVal) -> KihonFromTag {
        match v {
            KVal::Null => KihonFromTag::Null,
            KVal::Bit(b) => KihonFromTag::Bit(b),
            KVal::Bool(b) => KihonFromTag::Bool(b),
            KVal::Byte(_) => KihonFromTag::Byte,
            KVal::Str16(s) => KihonFromTag::Str16(utf8(s@).len() as u8),
            KVal::Int(i) => KihonFromTag::Int(enc_int(i).len() as u8),
            KVal::Float(_) => KihonFromTag::Float,
            KVal::Str256(_) => KihonFromTag::Str256,
            KVal::Double(_) => KihonFromTag::Double,
            KVal::Decimal(d) => KihonFromTag::Decimal(enc_int128(d.int_).len() as u8),
            KVal::BigStr(s) => KihonFromTag::BigStr(int_size(utf8(s@).len())),
            KVal::Binary(v) => KihonFromTag::Binary(int_size(v@.len())),
            KVal::BinaryArc(v) => KihonFromTag::Binary(int_size(v@.len())),
            KVal::Binary8(v) => KihonFromTag::Binary8(int_size(v@.len())),
            KVal::Binary4(v) => KihonFromTag::Binary4(int_size(v@.len())),
            KVal::Binary2(v) => KihonFromTag::Binary2(int_size(v@.len())),
            KVal::Undefined(n) => KihonFromTag::Undefined(n),
        }
    }
    pub open spec fn flat8(s: Seq<u64>, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { flat8(s, (n - 1) as nat) + le8(s[n - 1]) } }
    pub open spec fn flat4(s: Seq<u32>, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { flat4(s, (n - 1) as nat) + le4(s[n - 1]) } }
    pub open spec fn flat2(s: Seq<u16>, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { flat2(s, (n - 1) as nat) + le2(s[n - 1]) } }
    pub proof fn flat_len(a: Seq<u64>, b: Seq<u32>, c: Seq<u16>, n: nat)
        ensures flat8(a, n).len() == 8 * n, flat4(b, n).len() == 4 * n, flat2(c, n).len() == 2 * n
        decreases n
    {
        broadcast use widths;
        if n > 0 { flat_len(a, b, c, (n - 1) as nat); }
    }
    pub open spec fn payload(v: KVal) -> Seq<u8> {
        match v {
            KVal::Null => Seq::empty(),
            KVal::Bit(b) => Seq::empty(),
            KVal::Bool(b) => Seq::empty(),
            KVal::Byte(i) => seq![i as u8],
            KVal::Str16(s) => utf8(s@),
            KVal::Int(i) => enc_int(i),
            KVal::Float(f) => be4(f),
            KVal::Str256(s) => seq![utf8(s@).len() as u8] + utf8(s@),
            KVal::Double(d) => be8(d),
            KVal::Decimal(d) => enc_int128(d.int_).push(d.dot),
            KVal::BigStr(s) => enc_int(utf8(s@).len() as i64) + utf8(s@),
            KVal::Binary(v) => enc_int(v@.len() as i64) + v@,
            KVal::BinaryArc(v) => enc_int(v@.len() as i64) + v@,
            KVal::Binary8(v) => enc_int(v@.len() as i64) + flat8(v@, v@.len()),
            KVal::Binary4(v) => enc_int(v@.len() as i64) + flat4(v@, v@.len()),
            KVal::Binary2(v) => enc_int(v@.len() as i64) + flat2(v@, v@.len()),
            KVal::Undefined(n) => Seq::empty(),
        }
    }
    /// the sizes a value of each kind may have
    pub open spec fn storable(v: KVal) -> bool {
        match v {
            KVal::Str16(s) => utf8(s@).len() < 16,
            KVal::Str256(s) => utf8(s@).len() < 256,
            KVal::BigStr(s) => utf8(s@).len() < 0x10_0000_0000_0000,
            KVal::Binary(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::BinaryArc(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary8(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary4(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary2(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Undefined(n) => n < 8,
            _ => true,
        }
    }
    pub open spec fn storable_seq(s: Seq<KVal>) -> bool {
        &&& s.len() < 0x10_0000_0000_0000
        &&& forall|i: int| 0 <= i < s.len() ==> storable(#[trigger] s[i])
    }
    pub open spec fn tag_stream(s: Seq<KVal>, n: nat) -> Seq<bool> decreases n {
        if n == 0 { Seq::empty() } else { tag_stream(s, (n - 1) as nat) + tag_bits(tag_of(s[n - 1])) }
    }
    pub open spec fn payload_stream(s: Seq<KVal>, n: nat) -> Seq<u8> decreases n {
        if n == 0 { Seq::empty() } else { payload_stream(s, (n - 1) as nat) + payload(s[n - 1]) }
    }
    /// a number in the header: its size in a byte, then its bytes
    pub open spec fn head(n: nat) -> Seq<u8> { seq![enc_int(n as i64).len() as u8] + enc_int(n as i64) }
    pub open spec fn layout(s: Seq<KVal>) -> Seq<u8> {
        head(s.len()) + head(pack(tag_stream(s, s.len())).len()) + pack(tag_stream(s, s.len())) + payload_stream(s, s.len())
    }
    /// same kind and same contents; shared binaries come back as plain binaries
    pub open spec fn same(a: KVal, b: KVal) -> bool {
        match (a, b) {
            (KVal::Null, KVal::Null) => true,
            (KVal::Bit(x), KVal::Bit(y)) => x == y,
            (KVal::Bool(x), KVal::Bool(y)) => x == y,
            (KVal::Byte(x), KVal::Byte(y)) => x == y,
            (KVal::Str16(x), KVal::Str16(y)) => x@ == y@,
            (KVal::Int(x), KVal::Int(y)) => x == y,
            (KVal::Float(x), KVal::Float(y)) => x == y,
            (KVal::Str256(x), KVal::Str256(y)) => x@ == y@,
            (KVal::Double(x), KVal::Double(y)) => x == y,
            (KVal::Decimal(x), KVal::Decimal(y)) => x.int_ == y.int_ && x.dot == y.dot,
            (KVal::BigStr(x), KVal::BigStr(y)) => x@ == y@,
            (KVal::Binary(x), KVal::Binary(y)) => x@ == y@,
            (KVal::Binary(x), KVal::BinaryArc(y)) => x@ == y@,
            (KVal::Binary8(x), KVal::Binary8(y)) => x@ == y@,
            (KVal::Binary4(x), KVal::Binary4(y)) => x@ == y@,
            (KVal::Binary2(x), KVal::Binary2(y)) => x@ == y@,
            (KVal::Undefined(x), KVal::Undefined(y)) => x == y,
            _ => false,
        }
    }
    /// an arbitrary sequence: nothing is assumed about it, so what is proved about it holds for every sequence
    pub uninterp spec fn any_seq() -> Seq<KVal>;

    pub open spec fn agree(a: Seq<u8>, b: Seq<u8>) -> bool { forall|i: int| 0 <= i < a.len() && i < b.len() ==> a[i] == b[i] }

    pub proof fn marks()
        ensures
            bits(0b0100_1, 5) =~= mark(1, 2),
            bits(0b10, 2) =~= seq![true, false],
            bits(0b11, 2) =~= seq![true, true],
            bits(0b0100_010, 7) =~= mark(1, 3).push(false),
            bits(0b0100_011, 7) =~= mark(1, 3).push(true),
            bits(0b011, 3) =~= mark(1, 0),
            bits(0b0101, 4) =~= mark(1, 1),
            bits(0b0011, 4) =~= mark(2, 0),
            bits(0b0010_0001, 8) =~= mark(2, 4),
            bits(0b0010_1, 5) =~= mark(2, 1),
            bits(0b0010_01, 6) =~= mark(2, 2),
            bits(0b0100_001, 7) =~= mark(1, 4),
            bits(0b0010_001, 7) =~= mark(2, 3),
            bits(0b0001_1, 5) =~= mark(3, 0),
            bits(0b0001_01, 6) =~= mark(3, 1),
            bits(0b0001_001, 7) =~= mark(3, 2),
            bits(0b0001_0001, 8) =~= mark(3, 3),
            bits(0b0000_1, 5) =~= zeros(4).push(true),
            bits(1, 1) =~= seq![true],
    {
        reveal_with_fuel(bits, 9);
    }
    pub proof fn bit_test(val: u64, m: nat)
        requires m < 64
        ensures (val & (pow2(m) as u64) != 0) == ((val as int / pow2(m) as int) % 2 == 1)
    {
        lemma_u64_pow2_no_overflow(m);
        let k = m as u64;
        lemma_u64_shl_is_mul(1, k);
        lemma_u64_shr_is_div(val, k);
        assert((val & (1u64 << k) != 0) == ((val >> k) % 2 == 1)) by (bit_vector) requires k < 64;
    }
    /// one more bit from the top
    pub proof fn bits_step(val: int, n: nat, j: nat)
        requires 0 <= val, j < n
        ensures bits(val / pow2((n - j - 1) as nat) as int, (j + 1) as nat)
            == bits(val / pow2((n - j) as nat) as int, j).push((val / pow2((n - j - 1) as nat) as int) % 2 == 1)
    {
        let m = (n - j - 1) as nat;
        lemma_pow2_unfold(m + 1);
        lemma_pow2_pos(m);
        lemma_div_denominator(val, pow2(m) as int, 2);
        assert(pow2(m) * 2 == pow2(m + 1));
    }

    // what reading a tag gives, following the marks
    pub open spec fn next1(v: Seq<bool>, i: nat) -> Option<nat> decreases v.len() - i {
        if i >= v.len() { None } else if v[i as int] { Some(0) } else {
            match next1(v, i + 1) { Some(n) => Some(n + 1), None => None }
        }
    }
    pub open spec fn sized(v: Seq<bool>, i: nat, n: nat) -> Option<(int, nat)> {
        if i + n <= v.len() { Some((value(v.subrange(i as int, (i + n) as int)), i + n)) } else { None }
    }
    pub open spec fn tag_at(v: Seq<bool>, i: nat) -> Option<(KihonFromTag, nat)> {
        match next1(v, i) {
            None => None,
            Some(a) => {
                let j = i + a + 1;
                if a == 0 {
                    if j < v.len() { Some((KihonFromTag::Bit(v[j as int]), j + 1)) } else { None }
                } else if a > 4 { None } else {
                    match next1(v, j) {
                        None => None,
                        Some(b) => {
                            let k = j + b + 1;
                            if a == 1 {
                                if b == 0 { Some((KihonFromTag::Byte, k)) }
                                else if b == 1 { match sized(v, k, 4) { Some((x, e)) => Some((KihonFromTag::Str16(x as u8), e)), None => None } }
                                else if b == 2 { Some((KihonFromTag::Null, k)) }
                                else if b == 3 { if k < v.len() { Some((KihonFromTag::Bool(v[k as int]), k + 1)) } else { None } }
                                else if b == 4 { match sized(v, k, 4) { Some((x, e)) => Some((KihonFromTag::Decimal((x + 1) as u8), e)), None => None } }
                                else { None }
                            } else if a == 2 {
                                if b == 0 { match sized(v, k, 3) { Some((x, e)) => Some((KihonFromTag::Int((x + 1) as u8), e)), None => None } }
                                else if b == 1 { Some((KihonFromTag::Str256, k)) }
                                else if b == 2 { Some((KihonFromTag::Double, k)) }
                                else if b == 3 { match sized(v, k, 3) { Some((x, e)) => Some((KihonFromTag::BigStr((x + 1) as u8), e)), None => None } }
                                else if b == 4 { Some((KihonFromTag::Float, k)) }
                                else { None }
                            } else if a == 3 {
                                if b > 3 { None } else {
                                    match sized(v, k, 3) {
                                        Some((x, e)) => Some((
                                            if b == 0 { KihonFromTag::Binary((x + 1) as u8) }
                                            else if b == 1 { KihonFromTag::Binary8((x + 1) as u8) }
                                            else if b == 2 { KihonFromTag::Binary4((x + 1) as u8) }
                                            else { KihonFromTag::Binary2((x + 1) as u8) }, e)),
                                        None => None,
                                    }
                                }
                            } else {
                                Some((KihonFromTag::Undefined(b as u8), k))
                            }
                        }
                    }
                }
            }
        }
    }
    pub open spec fn here(v: Seq<bool>, i: nat, t: Seq<bool>) -> bool {
        i + t.len() <= v.len() && forall|k: int| 0 <= k < t.len() ==> v[i + k] == #[trigger] t[k]
    }
    pub proof fn next1_zeros(v: Seq<bool>, i: nat, a: nat)
        requires i + a < v.len(), v[(i + a) as int], forall|k: int| i <= k < i + a ==> !#[trigger] v[k]
        ensures next1(v, i) == Some(a)
        decreases a
    {
        if a > 0 { next1_zeros(v, i + 1, (a - 1) as nat); }
    }
    pub proof fn two_marks(v: Seq<bool>, i: nat, a: nat, b: nat, t: Seq<bool>)
        requires here(v, i, t), mark(a, b).len() <= t.len(), forall|k: int| 0 <= k < a + b + 2 ==> #[trigger] t[k] == mark(a, b)[k]
        ensures next1(v, i) == Some(a), next1(v, i + a + 1) == Some(b)
    {
        let m = mark(a, b);
        assert(m.len() == a + b + 2);
        assert(m[a as int] && m[(a + b + 1) as int]);
        assert forall|k: int| i <= k < i + a implies !#[trigger] v[k] by { assert(v[i + (k - i)] == t[k - i]); }
        assert(v[i + (a as int)] == t[a as int]);
        next1_zeros(v, i, a);
        assert forall|k: int| i + a + 1 <= k < i + a + 1 + b implies !#[trigger] v[k] by { assert(v[i + (k - i)] == t[k - i]); assert(!m[k - i]); }
        assert(v[i + (a + b + 1) as int] == t[(a + b + 1) as int]);
        next1_zeros(v, i + a + 1, b);
    }
    pub open spec fn kind(t: KihonFromTag) -> (nat, nat, nat) {
        match t {
            KihonFromTag::Bit(_) => (0, 0, 0),
            KihonFromTag::Byte => (1, 0, 0),
            KihonFromTag::Str16(_) => (1, 1, 4),
            KihonFromTag::Null => (1, 2, 0),
            KihonFromTag::Bool(_) => (1, 3, 1),
            KihonFromTag::Decimal(_) => (1, 4, 4),
            KihonFromTag::Int(_) => (2, 0, 3),
            KihonFromTag::Str256 => (2, 1, 0),
            KihonFromTag::Double => (2, 2, 0),
            KihonFromTag::BigStr(_) => (2, 3, 3),
            KihonFromTag::Float => (2, 4, 0),
            KihonFromTag::Binary(_) => (3, 0, 3),
            KihonFromTag::Binary8(_) => (3, 1, 3),
            KihonFromTag::Binary4(_) => (3, 2, 3),
            KihonFromTag::Binary2(_) => (3, 3, 3),
            KihonFromTag::Undefined(n) => (4, n as nat, 0),
        }
    }
    pub proof fn tag_len(t: KihonFromTag)
        ensures
            t is Bit ==> tag_bits(t).len() == 2,
            !(t is Bit) ==> tag_bits(t).len() == kind(t).0 + kind(t).1 + 2 + kind(t).2
                && forall|k: int| 0 <= k < kind(t).0 + kind(t).1 + 2 ==> #[trigger] tag_bits(t)[k] == mark(kind(t).0, kind(t).1)[k],
            !(t is Undefined) ==> tag_bits(t).len() <= 13,
    {
        bits_values();
    }
    /// the bits written for a tag are read as that tag
    pub proof fn tag_read(v: Seq<bool>, i: nat, t: KihonFromTag)
        requires tag_ok(t), here(v, i, tag_bits(t))
        ensures tag_at(v, i) == Some((t, i + tag_bits(t).len()))
    {
        tag_len(t);
        bits_values();
        let w = tag_bits(t);
        if let KihonFromTag::Bit(b) = t {
            assert(v[i + 0int] == w[0]);
            assert(v[i + 1int] == w[1]);
            assert(next1(v, i) == Some(0nat));
        } else {
            let (a, b, n) = kind(t);
            two_marks(v, i, a, b, w);
            let k = i + a + b + 2;
            let sub = v.subrange(k as int, (k + n) as int);
            assert forall|x: int| 0 <= x < n implies sub[x] == #[trigger] w[a + b + 2 + x] by { assert(v[i + (a + b + 2 + x)] == w[a + b + 2 + x]); }
            match t {
                KihonFromTag::Str16(z) => { assert(sub =~= bits(z as int, 4)) by { assert forall|x: int| 0 <= x < 4 implies #[trigger] sub[x] == bits(z as int, 4)[x] by { assert(sub[x] == w[a + b + 2 + x]); } } }
                KihonFromTag::Decimal(z) => { assert(sub =~= bits(z as int - 1, 4)) by { assert forall|x: int| 0 <= x < 4 implies #[trigger] sub[x] == bits(z as int - 1, 4)[x] by { assert(sub[x] == w[a + b + 2 + x]); } } }
                KihonFromTag::Int(z) | KihonFromTag::BigStr(z) | KihonFromTag::Binary(z) | KihonFromTag::Binary8(z) | KihonFromTag::Binary4(z) | KihonFromTag::Binary2(z) => {
                    assert(sub =~= bits(z as int - 1, 3)) by { assert forall|x: int| 0 <= x < 3 implies #[trigger] sub[x] == bits(z as int - 1, 3)[x] by { assert(sub[x] == w[a + b + 2 + x]); } }
                }
                KihonFromTag::Bool(z) => { assert(v[i + 5int] == w[5]); assert(v[i + 6int] == w[6]); }
                _ => {}
            }
        }
    }
    pub proof fn tag_of_ok(v: KVal)
        requires storable(v)
        ensures tag_ok(tag_of(v)), tag_bits(tag_of(v)).len() <= 13
    {
        broadcast use ints;
        tag_len(tag_of(v));
    }
    pub proof fn tags_len(s: Seq<KVal>, n: nat)
        requires storable_seq(s), n <= s.len()
        ensures tag_stream(s, n).len() <= 13 * n
        decreases n
    {
        if n > 0 { tag_of_ok(s[n - 1]); tags_len(s, (n - 1) as nat); }
    }
    pub proof fn tags_prefix(s: Seq<KVal>, n: nat, m: nat)
        requires n <= m <= s.len()
        ensures tag_stream(s, n).len() <= tag_stream(s, m).len(), forall|k: int| 0 <= k < tag_stream(s, n).len() ==> tag_stream(s, n)[k] == #[trigger] tag_stream(s, m)[k]
        decreases m - n
    {
        if n < m { tags_prefix(s, n, (m - 1) as nat); }
    }
    pub proof fn payload_stream_prefix(s: Seq<KVal>, n: nat, m: nat)
        requires n <= m <= s.len()
        ensures payload_stream(s, n).len() <= payload_stream(s, m).len(), forall|k: int| 0 <= k < payload_stream(s, n).len() ==> payload_stream(s, n)[k] == #[trigger] payload_stream(s, m)[k]
        decreases m - n
    {
        if n < m { payload_stream_prefix(s, n, (m - 1) as nat); }
    }
    /// the tag of item i stands where the tags of the items before it end
    pub proof fn tag_here(s: Seq<KVal>, i: nat, v: Seq<bool>)
        requires storable_seq(s), i < s.len(), v == unpack(pack(tag_stream(s, s.len())))
        ensures tag_at(v, tag_stream(s, i).len()) == Some((tag_of(s[i as int]), tag_stream(s, (i + 1) as nat).len()))
    {
        let t = tag_of(s[i as int]);
        let w = tag_bits(t);
        tag_of_ok(s[i as int]);
        unpack_pack(tag_stream(s, s.len()));
        tags_prefix(s, (i + 1) as nat, s.len());
        let p = tag_stream(s, i).len();
        assert(tag_stream(s, (i + 1) as nat) == tag_stream(s, i) + w);
        assert forall|k: int| 0 <= k < w.len() implies v[p + k] == #[trigger] w[k] by {
            assert(tag_stream(s, (i + 1) as nat)[p + k] == w[k]);
            assert(tag_stream(s, s.len())[p + k] == w[k]);
        }
        tag_read(v, p, t);
    }
    pub open spec fn base(s: Seq<KVal>) -> int {
        (head(s.len()).len() + head(pack(tag_stream(s, s.len())).len()).len() + pack(tag_stream(s, s.len())).len()) as int
    }
    /// what the first bytes mean, as far as they are there
    pub proof fn header(b: Seq<u8>, s: Seq<KVal>)
        requires storable_seq(s), agree(b, layout(s))
        ensures ({
            let n = s.len();
            let t = pack(tag_stream(s, n));
            let k1 = enc_int(n as i64).len() as int;
            let k2 = enc_int(t.len() as i64).len() as int;
            let b1 = b.skip(1 + k1);
            let b2 = b1.skip(1 + k2);
            &&& 1 <= k1 <= 8 && 1 <= k2 <= 8 && t.len() < 0x100_0000_0000_0000
            &&& layout(s).len() == base(s) + payload_stream(s, n).len()
            &&& base(s) == 2 + k1 + k2 + t.len()
            &&& b.len() > 0 ==> b[0] == k1
            &&& 1 + k1 <= b.len() ==> dec_int(b.subrange(1, 1 + k1)) == n && b1.len() == b.len() - 1 - k1
                && (b1.len() > 0 ==> b1[0] == k2)
                && (1 + k2 <= b1.len() ==> dec_int(b1.subrange(1, 1 + k2)) == t.len() && b2.len() == b1.len() - 1 - k2
                    && (t.len() <= b2.len() ==> b2.take(t.len() as int) == t && b2.skip(t.len() as int) == b.skip(base(s))))
        }),
    {
        broadcast use ints;
        let n = s.len();
        let t = pack(tag_stream(s, n));
        tags_len(s, n);
        header_parts(b, enc_int(n as i64), enc_int(t.len() as i64), t, payload_stream(s, n));
    }
    pub proof fn header_parts(b: Seq<u8>, e1: Seq<u8>, e2: Seq<u8>, t: Seq<u8>, p: Seq<u8>)
        requires 1 <= e1.len() <= 8, 1 <= e2.len() <= 8,
            agree(b, (seq![e1.len() as u8] + e1) + (seq![e2.len() as u8] + e2) + t + p)
        ensures ({
            let k1 = e1.len() as int;
            let k2 = e2.len() as int;
            let b1 = b.skip(1 + k1);
            let b2 = b1.skip(1 + k2);
            &&& b.len() > 0 ==> b[0] == k1
            &&& 1 + k1 <= b.len() ==> b.subrange(1, 1 + k1) == e1 && b1.len() == b.len() - 1 - k1
                && (b1.len() > 0 ==> b1[0] == k2)
                && (1 + k2 <= b1.len() ==> b1.subrange(1, 1 + k2) == e2 && b2.len() == b1.len() - 1 - k2
                    && (t.len() <= b2.len() ==> b2.take(t.len() as int) == t && b2.skip(t.len() as int) == b.skip(2 + k1 + k2 + t.len())))
        }),
    {
        let k1 = e1.len() as int;
        let k2 = e2.len() as int;
        let b1 = b.skip(1 + k1);
        let b2 = b1.skip(1 + k2);
        let l = (seq![e1.len() as u8] + e1) + (seq![e2.len() as u8] + e2) + t + p;
        assert(l[0] == k1 as u8);
        if 1 + k1 <= b.len() {
            assert forall|k: int| 0 <= k < k1 implies #[trigger] b.subrange(1, 1 + k1)[k] == e1[k] by { assert(l[1 + k] == e1[k]); assert(b[1 + k] == l[1 + k]); }
            assert(b.subrange(1, 1 + k1) =~= e1);
            assert(l[1 + k1] == k2 as u8);
            if b1.len() > 0 { assert(b1[0] == b[1 + k1]); }
            if 1 + k2 <= b1.len() {
                assert forall|k: int| 0 <= k < k2 implies #[trigger] b1.subrange(1, 1 + k2)[k] == e2[k] by {
                    assert(l[2 + k1 + k] == e2[k]);
                    assert(b[2 + k1 + k] == l[2 + k1 + k]);
                }
                assert(b1.subrange(1, 1 + k2) =~= e2);
                if t.len() <= b2.len() {
                    assert forall|k: int| 0 <= k < t.len() implies #[trigger] b2.take(t.len() as int)[k] == t[k] by {
                        assert(l[2 + k1 + k2 + k] == t[k]);
                        assert(b[2 + k1 + k2 + k] == l[2 + k1 + k2 + k]);
                    }
                    assert(b2.take(t.len() as int) =~= t);
                    assert(b2.skip(t.len() as int) =~= b.skip(2 + k1 + k2 + t.len()));
                }
            }
        }
    }
    /// what the bytes of item i mean, as far as they are there; `r` is what is left of the input
    pub proof fn item(b: Seq<u8>, s: Seq<KVal>, i: nat, r: Seq<u8>)
        requires storable_seq(s), agree(b, layout(s)), i < s.len(),
            base(s) + payload_stream(s, i).len() <= b.len(), r == b.skip(base(s) + payload_stream(s, i).len())
        ensures
            pieces(r, s[i as int]),
            payload_stream(s, (i + 1) as nat).len() == payload_stream(s, i).len() + payload(s[i as int]).len(),
            payload_stream(s, (i + 1) as nat).len() <= payload_stream(s, s.len()).len(),
            payload(s[i as int]).len() <= r.len() ==> r.skip(payload(s[i as int]).len() as int) == b.skip(base(s) + payload_stream(s, (i + 1) as nat).len()),
    {
        broadcast use ints, widths;
        let v = s[i as int];
        let x = payload(v);
        let p = base(s) + payload_stream(s, i).len();
        let l = layout(s);
        payload_stream_prefix(s, (i + 1) as nat, s.len());
        assert forall|k: int| 0 <= k < x.len() && k < r.len() implies #[trigger] r[k] == x[k] by {
            assert(payload_stream(s, (i + 1) as nat)[payload_stream(s, i).len() + k] == x[k]);
            assert(payload_stream(s, s.len())[payload_stream(s, i).len() + k] == x[k]);
            assert(l[p + k] == x[k]);
            assert(b[p + k] == l[p + k]);
        }
        cut(r, v);
        if x.len() <= r.len() { assert(r.skip(x.len() as int) =~= b.skip(p + x.len())); }
    }
    /// `r` begins with `x`, as far as it goes, from position p
    pub open spec fn piece(r: Seq<u8>, p: int, x: Seq<u8>) -> bool {
        p + x.len() <= r.len() ==> r.skip(p).take(x.len() as int) == x
    }
    pub open spec fn pieces(r: Seq<u8>, v: KVal) -> bool {
        match v {
            KVal::Byte(i) => r.len() > 0 ==> r[0] == i as u8 && r[0] as i8 == i,
            KVal::Str16(s) => utf8(s@).len() <= r.len() ==> r.take(utf8(s@).len() as int) == utf8(s@),
            KVal::Int(i) => enc_int(i).len() <= r.len() ==> r.take(enc_int(i).len() as int) == enc_int(i),
            KVal::Float(f) => 4 <= r.len() ==> r.take(4) == be4(f),
            KVal::Str256(s) => (r.len() > 0 ==> r[0] == utf8(s@).len()) && piece(r, 1, utf8(s@)),
            KVal::Double(f) => 8 <= r.len() ==> r.take(8) == be8(f),
            KVal::Decimal(d) => (enc_int128(d.int_).len() <= r.len() ==> r.take(enc_int128(d.int_).len() as int) == enc_int128(d.int_))
                && (enc_int128(d.int_).len() < r.len() ==> r.skip(enc_int128(d.int_).len() as int)[0] == d.dot),
            KVal::BigStr(s) => counted(r, utf8(s@).len(), utf8(s@)),
            KVal::Binary(s) => counted(r, s@.len(), s@),
            KVal::BinaryArc(s) => counted(r, s@.len(), s@),
            KVal::Binary8(s) => counted(r, s@.len(), flat8(s@, s@.len())) && flat8(s@, s@.len()).len() == 8 * s@.len(),
            KVal::Binary4(s) => counted(r, s@.len(), flat4(s@, s@.len())) && flat4(s@, s@.len()).len() == 4 * s@.len(),
            KVal::Binary2(s) => counted(r, s@.len(), flat2(s@, s@.len())) && flat2(s@, s@.len()).len() == 2 * s@.len(),
            _ => true,
        }
    }
    pub open spec fn counted(r: Seq<u8>, n: nat, x: Seq<u8>) -> bool {
        let e = enc_int(n as i64);
        (e.len() <= r.len() ==> r.take(e.len() as int) == e) && piece(r, e.len() as int, x)
    }
    pub proof fn cut(r: Seq<u8>, v: KVal)
        requires storable(v), forall|k: int| #![trigger r[k]] #![trigger payload(v)[k]] 0 <= k < payload(v).len() && k < r.len() ==> r[k] == payload(v)[k]
        ensures pieces(r, v)
    {
        broadcast use ints, widths;
        match v {
            KVal::Byte(i) => { assert((i as u8) as i8 == i) by (bit_vector); if r.len() > 0 { assert(r[0] == payload(v)[0]); } }
            KVal::Str16(s) => { if utf8(s@).len() <= r.len() { assert(r.take(utf8(s@).len() as int) =~= utf8(s@)); } }
            KVal::Int(i) => { if enc_int(i).len() <= r.len() { assert(r.take(enc_int(i).len() as int) =~= enc_int(i)); } }
            KVal::Float(f) => { if 4 <= r.len() { assert(r.take(4) =~= be4(f)); } }
            KVal::Double(f) => { if 8 <= r.len() { assert(r.take(8) =~= be8(f)); } }
            KVal::Str256(s) => {
                assert(payload(v)[0] == utf8(s@).len() as u8);
                cut2(r, seq![utf8(s@).len() as u8], utf8(s@));
            }
            KVal::Decimal(d) => {
                let e = enc_int128(d.int_);
                assert(e + seq![d.dot] =~= e.push(d.dot));
                cut2(r, e, seq![d.dot]);
                if e.len() < r.len() { assert(payload(v)[e.len() as int] == d.dot); }
            }
            KVal::BigStr(s) => { cut2(r, enc_int(utf8(s@).len() as i64), utf8(s@)); }
            KVal::Binary(s) => { cut2(r, enc_int(s@.len() as i64), s@); }
            KVal::BinaryArc(s) => { cut2(r, enc_int(s@.len() as i64), s@); }
            KVal::Binary8(s) => { flat_len(s@, Seq::empty(), Seq::empty(), s@.len()); cut2(r, enc_int(s@.len() as i64), flat8(s@, s@.len())); }
            KVal::Binary4(s) => { flat_len(Seq::empty(), s@, Seq::empty(), s@.len()); cut2(r, enc_int(s@.len() as i64), flat4(s@, s@.len())); }
            KVal::Binary2(s) => { flat_len(Seq::empty(), Seq::empty(), s@, s@.len()); cut2(r, enc_int(s@.len() as i64), flat2(s@, s@.len())); }
            _ => {}
        }
    }
    pub proof fn cut2(r: Seq<u8>, e: Seq<u8>, x: Seq<u8>)
        requires forall|k: int| #![trigger r[k]] #![trigger (e + x)[k]] 0 <= k < e.len() + x.len() && k < r.len() ==> r[k] == (e + x)[k]
        ensures e.len() <= r.len() ==> r.take(e.len() as int) == e, piece(r, e.len() as int, x)
    {
        if e.len() <= r.len() {
            assert forall|k: int| 0 <= k < e.len() implies r[k] == e[k] by { assert(r[k] == (e + x)[k]); }
            assert(r.take(e.len() as int) =~= e);
        }
        if e.len() + x.len() <= r.len() {
            assert forall|k: int| 0 <= k < x.len() implies r[e.len() + k] == x[k] by { assert(r[e.len() + k] == (e + x)[e.len() + k]); }
            assert(r.skip(e.len() as int).take(x.len() as int) =~= x);
        }
    }
    pub broadcast proof fn assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
    pub broadcast proof fn pushed<A>(a: Seq<A>, x: A) ensures #[trigger] a.push(x) == a + seq![x] { assert(a.push(x) =~= a + seq![x]); }
    pub broadcast proof fn nothing<A>(a: Seq<A>) ensures #[trigger] (a + Seq::<A>::empty()) == a { assert(a + Seq::<A>::empty() =~= a); }
    pub broadcast group joins { assoc, pushed, nothing }
    /// the bits appended for a value are its tag
    pub proof fn tag_joined(t0: Seq<bool>, v: KVal)
        requires storable(v)
        ensures t0 + tag_bits(tag_of(v)) == (match tag_of(v) {
            KihonFromTag::Null => t0 + bits(0b0100_1, 5),
            KihonFromTag::Bit(b) => t0 + bits(0b10 + bit(b), 2),
            KihonFromTag::Bool(b) => t0 + bits(0b0100_010 + bit(b), 7),
            KihonFromTag::Byte => t0 + bits(0b011, 3),
            KihonFromTag::Str16(n) => t0 + bits(0b0101, 4) + bits(n as int, 4),
            KihonFromTag::Int(n) => t0 + bits(0b0011, 4) + bits(n as int - 1, 3),
            KihonFromTag::Float => t0 + bits(0b0010_0001, 8),
            KihonFromTag::Str256 => t0 + bits(0b0010_1, 5),
            KihonFromTag::Double => t0 + bits(0b0010_01, 6),
            KihonFromTag::Decimal(n) => t0 + bits(0b0100_001, 7) + bits(n as int - 1, 4),
            KihonFromTag::BigStr(n) => t0 + bits(0b0010_001, 7) + bits(n as int - 1, 3),
            KihonFromTag::Binary(n) => t0 + bits(0b0001_1, 5) + bits(n as int - 1, 3),
            KihonFromTag::Binary8(n) => t0 + bits(0b0001_01, 6) + bits(n as int - 1, 3),
            KihonFromTag::Binary4(n) => t0 + bits(0b0001_001, 7) + bits(n as int - 1, 3),
            KihonFromTag::Binary2(n) => t0 + bits(0b0001_0001, 8) + bits(n as int - 1, 3),
            KihonFromTag::Undefined(n) => t0 + bits(0b0000_1, 5) + bits(0, n as nat) + bits(1, 1),
        })
    {
        marks();
        if let KVal::Undefined(n) = v {
            zero_bits(n as nat);
            assert(zeros(4).push(true) + zeros(n as nat) + seq![true] =~= mark(4, n as nat));
        }
        broadcast use assoc;
    }
    /// the bytes appended for a value are its payload
    pub proof fn payload_joined(d0: Seq<u8>, v: KVal)
        requires storable(v)
        ensures d0 + payload(v) == (match v {
            KVal::Null => d0,
            KVal::Bit(_) => d0,
            KVal::Bool(_) => d0,
            KVal::Undefined(_) => d0,
            KVal::Byte(i) => d0.push(i as u8),
            KVal::Str16(s) => d0 + utf8(s@),
            KVal::Int(i) => d0 + enc_int(i),
            KVal::Float(f) => d0 + be4(f),
            KVal::Double(f) => d0 + be8(f),
            KVal::Str256(s) => d0.push(utf8(s@).len() as u8) + utf8(s@),
            KVal::Decimal(d) => (d0 + enc_int128(d.int_)).push(d.dot),
            KVal::BigStr(s) => d0 + enc_int(utf8(s@).len() as i64) + utf8(s@),
            KVal::Binary(v) => d0 + enc_int(v@.len() as i64) + v@,
            KVal::BinaryArc(v) => d0 + enc_int(v@.len() as i64) + v@,
            KVal::Binary8(v) => d0 + enc_int(v@.len() as i64) + flat8(v@, v@.len()),
            KVal::Binary4(v) => d0 + enc_int(v@.len() as i64) + flat4(v@, v@.len()),
            KVal::Binary2(v) => d0 + enc_int(v@.len() as i64) + flat2(v@, v@.len()),
        })
    {
        broadcast use joins;
    }
    pub proof fn zero_bits(n: nat) ensures bits(0, n) =~= zeros(n) decreases n {
        if n > 0 { zero_bits((n - 1) as nat); }
    }
}

pub mod enc_dec {
    use super::*;

    pub mod kihon_from_tag {
//@ item dochy_compaction/src/enc_dec/kihon_from_tag.rs enum KihonFromTag
    }

    // ------------------------------------------------------------ integers: assumed here, proved by Kani
    pub mod var_int {
        use super::*;
        use super::super::lib_specs::*;
        use super::super::layout::*;
        use super::writer::Writer;
        use super::reader::Reader;
        #[verifier::external_body]
        pub fn encode(val: i64) -> (r: Vec<u8>) ensures r@ == enc_int(val) { unimplemented!() }
        #[verifier::external_body]
        pub fn decode(vec: &[u8]) -> (r: i64) requires vec@.len() <= 8 ensures r == dec_int(vec@) { unimplemented!() }
        #[verifier::external_body]
        pub fn encode128(val: i128) -> (r: Vec<u8>) ensures r@ == enc_int128(val) { unimplemented!() }
        #[verifier::external_body]
        pub fn decode128(vec: &[u8]) -> (r: i128) requires vec@.len() <= 16 ensures r == dec_int128(vec@) { unimplemented!() }

//@ fn dochy_compaction/src/enc_dec/var_int.rs write -> r
            requires old(writer).n() < 0x1000_0000_0000_0000,
            ensures
                r is Ok,
                final(writer).out() == old(writer).out() + seq![enc_int(int_).len() as u8] + enc_int(int_),
                final(writer).n() == old(writer).n() + 1 + enc_int(int_).len(),
                final(writer).dst_final() == old(writer).dst_final(),
//@ start
            broadcast use ints;
//@ end

//@ fn dochy_compaction/src/enc_dec/var_int.rs read -> r
            requires old(reader).wf(),
            ensures
                r is Ok ==> ({
                    let b = old(reader).rest();
                    let n = b[0] as int;
                    &&& n <= 8
                    &&& 1 + n <= b.len()
                    &&& r->Ok_0.0 == dec_int(b.subrange(1, 1 + n))
                    &&& r->Ok_0.1 == n + 1
                    &&& old(reader).took(final(reader), 1 + n)
                }),
                r is Err ==> ({
                    let b = old(reader).rest();
                    b.len() == 0 || b[0] > 8 || 1 + b[0] > b.len()
                }),
                final(reader).src_final() == old(reader).src_final(),
//@ start
            let ghost b = reader.rest();
//@ after let bytes = [^;]*;
            proof {
                assert(b.skip(1).take(bytes_len as int) =~= b.subrange(1, 1 + bytes_len as int));
                assert(b.skip(1).skip(bytes_len as int) =~= b.skip(1 + bytes_len as int));
            }
//@ end
    }

    pub mod writer {
        use super::*;
        use super::super::lib_specs::*;
//@ item dochy_compaction/src/enc_dec/writer.rs struct Writer
        impl<'a, T : Write> Writer<'a, T>{
            #[verifier::prophetic]
            pub open spec fn dst_final(&self) -> T { *final(self.write) }
            pub open spec fn out(&self) -> Seq<u8> { self.write.sink() }
            pub open spec fn n(&self) -> nat { self.len as nat }
//@ fn dochy_compaction/src/enc_dec/writer.rs Writer::new -> r
                ensures r.out() == old(write).sink(), r.n() == 0, r.dst_final() == *final(write),
//@ end
//@ fn dochy_compaction/src/enc_dec/writer.rs Writer::write_byte -> r
                requires old(self).n() < usize::MAX,
                ensures r is Ok, final(self).out() == old(self).out().push(byte), final(self).n() == old(self).n() + 1,
                    final(self).dst_final() == old(self).dst_final(),
//@ end
//@ fn dochy_compaction/src/enc_dec/writer.rs Writer::write -> r
                requires old(self).n() + bytes@.len() <= usize::MAX,
                ensures r is Ok, final(self).out() == old(self).out() + bytes@, final(self).n() == old(self).n() + bytes@.len(),
                    final(self).dst_final() == old(self).dst_final(),
//@ end
//@ fn dochy_compaction/src/enc_dec/writer.rs Writer::bytes_written -> r
                ensures r == self.n(),
//@ end
        }
    }

    pub mod reader {
        use super::*;
        use super::super::layout::*;
        use super::super::lib_specs::*;
//@ item dochy_compaction/src/enc_dec/reader.rs struct Reader
        impl<'a, T : Read> Reader<'a, T>{
            pub open spec fn rest(&self) -> Seq<u8> { self.read.rest() }
            pub open spec fn n(&self) -> nat { self.len as nat }
            #[verifier::prophetic]
            pub open spec fn src_final(&self) -> T { *final(self.read) }
            /// `then` is this reader after n more bytes
            pub open spec fn took(&self, then: &Self, n: int) -> bool {
                &&& then.rest() == self.rest().skip(n)
                &&& then.n() == self.n() + n
                &&& then.wf()
            }
            pub open spec fn wf(&self) -> bool { self.n() + self.rest().len() <= usize::MAX && self.rest().len() <= isize::MAX }
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::new -> r
                ensures r.rest() == old(read).rest(), r.n() == 0, r.wf(), r.src_final() == *final(read),
//@ start
                proof { read.rest_fits(); }
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::read_byte -> r
                requires old(self).wf(),
                ensures
                    r is Ok <==> old(self).rest().len() > 0,
                    r is Ok ==> r->Ok_0 == old(self).rest()[0] && old(self).took(final(self), 1),
                    final(self).src_final() == old(self).src_final(),
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::read -> r
                requires old(self).wf(),
                ensures
                    r is Ok ==> bytes <= old(self).rest().len() && r->Ok_0@ == old(self).rest().take(bytes as int) && old(self).took(final(self), bytes as int),
                    r is Err && bytes < 0x100_0000_0000_0000 ==> bytes > old(self).rest().len(),
                    final(self).src_final() == old(self).src_final(),
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::read_string -> r
                requires old(self).wf(),
                ensures
                    r is Ok ==> bytes <= old(self).rest().len() && utf8(r->Ok_0@) == old(self).rest().take(bytes as int) && old(self).took(final(self), bytes as int),
                    r is Err && bytes < 0x100_0000_0000_0000 ==> bytes > old(self).rest().len()
                        || forall|s: Seq<char>| #[trigger] utf8(s) != old(self).rest().take(bytes as int),
                    forall|s: Seq<char>| bytes < 0x100_0000_0000_0000 && bytes <= old(self).rest().len() && #[trigger] utf8(s) == old(self).rest().take(bytes as int) ==> r is Ok && r->Ok_0@ == s,
                    final(self).src_final() == old(self).src_final(),
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::read_binary -> r
                requires old(self).wf(),
                ensures
                    r is Ok ==> bytes <= old(self).rest().len() && r->Ok_0@ == old(self).rest().take(bytes as int) && old(self).took(final(self), bytes as int),
                    r is Err && bytes < 0x100_0000_0000_0000 ==> bytes > old(self).rest().len(),
                    final(self).src_final() == old(self).src_final(),
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::read_binary8 -> r
//@ sub u64::from_le_bytes\( => <u64 as To<8>>::from_le_bytes_(
//@ loops for
                requires old(self).wf(),
                ensures
                    r is Ok ==> r->Ok_0@.len() == len && 8 * len <= old(self).rest().len() && old(self).took(final(self), 8 * len as int),
                    r is Ok ==> forall|s: Seq<u64>| s.len() == len && #[trigger] flat8(s, len as nat) == old(self).rest().take(8 * len as int) ==> r->Ok_0@ == s,
                    r is Err && len < 0x100_0000_0000_0000 ==> 8 * len > old(self).rest().len(),
                    final(self).src_final() == old(self).src_final(),
//@ start
                let ghost start = *self;
                let ghost b = self.rest();
                proof { assert(b.skip(0) =~= b); }
//@ iter 0 it
//@ loop 0
                    invariant
                        start.wf(),
                        self.src_final() == start.src_final(),
                        b == start.rest(), start == *old(self),
                        buf@.len() == it.index@,
                        it.index@ <= len,
                        8 * it.index@ <= b.len(),
                        start.took(self, 8 * it.index@ as int),
                        forall|s: Seq<u64>| s.len() == len && #[trigger] flat8(s, it.index@ as nat) == b.take(8 * it.index@ as int) ==> buf@ == s.take(it.index@ as int),
                    ensures 8 * len <= b.len(), it.index@ == len, 
//@ in 0
                    let ghost i = it.index@ as int;
                    proof { assert(i < len); assert(self.rest().len() == b.len() - 8 * i); }
//@ last 0
                    proof {
                        assert(b.skip(8 * i).take(8) =~= b.subrange(8 * i, 8 * i + 8));
                        assert(b.skip(8 * i).skip(8) =~= b.skip(8 * i + 8));
                        assert forall|s: Seq<u64>| s.len() == len && #[trigger] flat8(s, (i + 1) as nat) == b.take(8 * (i + 1)) implies buf@ == s.take(i + 1) by {
                            flat_len(s, Seq::empty(), Seq::empty(), i as nat);
                            broadcast use widths;
                            assert(flat8(s, i as nat) =~= b.take(8 * (i + 1)).take(8 * i));
                            assert(b.take(8 * (i + 1)).take(8 * i) =~= b.take(8 * i));
                            assert(le8(s[i]) =~= b.take(8 * (i + 1)).subrange(8 * i, 8 * (i + 1)));
                            assert(le8(s[i]) =~= b.subrange(8 * i, 8 * i + 8));
                            assert(s[i].le_bytes() == temp@);
                            assert(buf@ =~= s.take(i + 1));
                        }
                    }
//@ post 0
                proof {
                    assert forall|s: Seq<u64>| s.len() == len && #[trigger] flat8(s, len as nat) == b.take(8 * len as int) implies buf@ == s by {
                        assert(s.take(len as int) =~= s);
                    }
                }
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::read_binary4 -> r
//@ sub u32::from_le_bytes\( => <u32 as To<4>>::from_le_bytes_(
//@ loops for
                requires old(self).wf(),
                ensures
                    r is Ok ==> r->Ok_0@.len() == len && 4 * len <= old(self).rest().len() && old(self).took(final(self), 4 * len as int),
                    r is Ok ==> forall|s: Seq<u32>| s.len() == len && #[trigger] flat4(s, len as nat) == old(self).rest().take(4 * len as int) ==> r->Ok_0@ == s,
                    r is Err && len < 0x100_0000_0000_0000 ==> 4 * len > old(self).rest().len(),
                    final(self).src_final() == old(self).src_final(),
//@ start
                let ghost start = *self;
                let ghost b = self.rest();
                proof { assert(b.skip(0) =~= b); }
//@ iter 0 it
//@ loop 0
                    invariant
                        start.wf(),
                        self.src_final() == start.src_final(),
                        b == start.rest(), start == *old(self),
                        buf@.len() == it.index@,
                        it.index@ <= len,
                        4 * it.index@ <= b.len(),
                        start.took(self, 4 * it.index@ as int),
                        forall|s: Seq<u32>| s.len() == len && #[trigger] flat4(s, it.index@ as nat) == b.take(4 * it.index@ as int) ==> buf@ == s.take(it.index@ as int),
                    ensures 4 * len <= b.len(), it.index@ == len, 
//@ in 0
                    let ghost i = it.index@ as int;
                    proof { assert(i < len); assert(self.rest().len() == b.len() - 4 * i); }
//@ last 0
                    proof {
                        assert(b.skip(4 * i).take(4) =~= b.subrange(4 * i, 4 * i + 4));
                        assert(b.skip(4 * i).skip(4) =~= b.skip(4 * i + 4));
                        assert forall|s: Seq<u32>| s.len() == len && #[trigger] flat4(s, (i + 1) as nat) == b.take(4 * (i + 1)) implies buf@ == s.take(i + 1) by {
                            flat_len(Seq::empty(), s, Seq::empty(), i as nat);
                            broadcast use widths;
                            assert(flat4(s, i as nat) =~= b.take(4 * (i + 1)).take(4 * i));
                            assert(b.take(4 * (i + 1)).take(4 * i) =~= b.take(4 * i));
                            assert(le4(s[i]) =~= b.take(4 * (i + 1)).subrange(4 * i, 4 * (i + 1)));
                            assert(le4(s[i]) =~= b.subrange(4 * i, 4 * i + 4));
                            assert(s[i].le_bytes() == temp@);
                            assert(buf@ =~= s.take(i + 1));
                        }
                    }
//@ post 0
                proof {
                    assert forall|s: Seq<u32>| s.len() == len && #[trigger] flat4(s, len as nat) == b.take(4 * len as int) implies buf@ == s by {
                        assert(s.take(len as int) =~= s);
                    }
                }
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::read_binary2 -> r
//@ sub u16::from_le_bytes\( => <u16 as To<2>>::from_le_bytes_(
//@ loops for
                requires old(self).wf(),
                ensures
                    r is Ok ==> r->Ok_0@.len() == len && 2 * len <= old(self).rest().len() && old(self).took(final(self), 2 * len as int),
                    r is Ok ==> forall|s: Seq<u16>| s.len() == len && #[trigger] flat2(s, len as nat) == old(self).rest().take(2 * len as int) ==> r->Ok_0@ == s,
                    r is Err && len < 0x100_0000_0000_0000 ==> 2 * len > old(self).rest().len(),
                    final(self).src_final() == old(self).src_final(),
//@ start
                let ghost start = *self;
                let ghost b = self.rest();
                proof { assert(b.skip(0) =~= b); }
//@ iter 0 it
//@ loop 0
                    invariant
                        start.wf(),
                        self.src_final() == start.src_final(),
                        b == start.rest(), start == *old(self),
                        buf@.len() == it.index@,
                        it.index@ <= len,
                        2 * it.index@ <= b.len(),
                        start.took(self, 2 * it.index@ as int),
                        forall|s: Seq<u16>| s.len() == len && #[trigger] flat2(s, it.index@ as nat) == b.take(2 * it.index@ as int) ==> buf@ == s.take(it.index@ as int),
                    ensures 2 * len <= b.len(), it.index@ == len, 
//@ in 0
                    let ghost i = it.index@ as int;
                    proof { assert(i < len); assert(self.rest().len() == b.len() - 2 * i); }
//@ last 0
                    proof {
                        assert(b.skip(2 * i).take(2) =~= b.subrange(2 * i, 2 * i + 2));
                        assert(b.skip(2 * i).skip(2) =~= b.skip(2 * i + 2));
                        assert forall|s: Seq<u16>| s.len() == len && #[trigger] flat2(s, (i + 1) as nat) == b.take(2 * (i + 1)) implies buf@ == s.take(i + 1) by {
                            flat_len(Seq::empty(), Seq::empty(), s, i as nat);
                            broadcast use widths;
                            assert(flat2(s, i as nat) =~= b.take(2 * (i + 1)).take(2 * i));
                            assert(b.take(2 * (i + 1)).take(2 * i) =~= b.take(2 * i));
                            assert(le2(s[i]) =~= b.take(2 * (i + 1)).subrange(2 * i, 2 * (i + 1)));
                            assert(le2(s[i]) =~= b.subrange(2 * i, 2 * i + 2));
                            assert(s[i].le_bytes() == temp@);
                            assert(buf@ =~= s.take(i + 1));
                        }
                    }
//@ post 0
                proof {
                    assert forall|s: Seq<u16>| s.len() == len && #[trigger] flat2(s, len as nat) == b.take(2 * len as int) implies buf@ == s by {
                        assert(s.take(len as int) =~= s);
                    }
                }
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::set_buf_len -> r
//@ sub \.try_reserve\( => .try_reserve_(
                ensures
                    final(self).read == old(self).read,
                    final(self).len == old(self).len,
                    r is Ok ==> final(self).buf@.len() == len,
                    len < 0x100_0000_0000_0000 ==> r is Ok,
//@ end
//@ fn dochy_compaction/src/enc_dec/reader.rs Reader::bytes_read -> r
                ensures r == self.n(),
//@ end
        }
    }

    pub mod tag_storage {
        use super::*;
        use super::super::lib_specs::*;
        use super::super::layout::*;
//@ item dochy_compaction/src/enc_dec/tag_storage.rs struct TagStorage
        impl TagStorage {
//@ fn dochy_compaction/src/enc_dec/tag_storage.rs TagStorage::new -> r
                ensures r.vec@ == Seq::<bool>::empty(),
//@ end
//@ fn dochy_compaction/src/enc_dec/tag_storage.rs TagStorage::append -> r
//@ loops loop
                requires n <= 64,
                ensures final(self).vec@ == old(self).vec@ + bits(val as int, n as nat),
//@ start
                let ghost v0 = self.vec@;
                let ghost mut j: nat = 0;
                proof {
                    if n > 0 {
                        lemma_pow2((n - 1) as nat);
                        lemma_u64_pow2_no_overflow((n - 1) as nat);
                    } else {
                        assert(v0 + bits(val as int, 0) =~= v0);
                    }
                }
//@ pre 0
                proof {
                    assert(bits(val as int / pow2(n as nat) as int, 0) =~= Seq::<bool>::empty());
                    assert(v0 + Seq::<bool>::empty() =~= v0);
                }
//@ loop 0
                    invariant
                        0 < n <= 64, j < n,
                        v0 == old(self).vec@,
                        filter == pow2((n - j - 1) as nat),
                        self.vec@ == v0 + bits(val as int / pow2((n - j) as nat) as int, j),
                    decreases n - j
//@ in 0
                    proof {
                        bit_test(val, (n - j - 1) as nat);
                        bits_step(val as int, n as nat, j);
                        lemma_pow2_pos((n - j - 1) as nat);
                        lemma2_to64();
                        if n - j - 1 > 0 { lemma_pow2_unfold((n - j - 1) as nat); lemma_pow2_pos((n - j - 2) as nat); }
                        assert(v0 + bits(val as int / pow2((n - j - 1) as nat) as int, (j + 1) as nat)
                            =~= (v0 + bits(val as int / pow2((n - j) as nat) as int, j)).push((val as int / pow2((n - j - 1) as nat) as int) % 2 == 1));
                        j = j + 1;
                        if j == n { assert(pow2(0) == 1); assert((n - j) as nat == 0); let d = pow2((n - j) as nat) as int; assert(d == 1); assert(val as int / d == val as int) by (nonlinear_arith) requires d == 1; }
                    }
//@ end
//@ fn dochy_compaction/src/enc_dec/tag_storage.rs TagStorage::to_vec -> r
                ensures r@ == pack(self.vec@),
//@ end
        }
    }

    pub mod tag_reader {
        use super::*;
        use super::super::lib_specs::*;
        use super::super::layout::*;
        use super::kihon_from_tag::KihonFromTag;
//@ item dochy_compaction/src/enc_dec/tag_reader.rs struct TagReader
        impl TagReader {
//@ fn dochy_compaction/src/enc_dec/tag_reader.rs TagReader::new -> r
                ensures r.vec@ == unpack(bytes@), r.index == 0,
//@ end
//@ fn dochy_compaction/src/enc_dec/tag_reader.rs TagReader::read_bit -> r
                ensures
                    final(self).vec == old(self).vec,
                    r is Ok <==> old(self).index < old(self).vec@.len(),
                    r is Ok ==> r->Ok_0 == old(self).vec@[old(self).index as int] && final(self).index == old(self).index + 1,
//@ end
//@ fn dochy_compaction/src/enc_dec/tag_reader.rs TagReader::read_bits -> r
//@ loops for
                requires size < 64, old(self).index <= old(self).vec@.len(),
                ensures
                    final(self).vec == old(self).vec,
                    r is Ok <==> old(self).index + size <= old(self).vec@.len(),
                    r is Ok ==> r->Ok_0 < pow2(size as nat) && final(self).index == old(self).index + size
                        && r->Ok_0 == value(old(self).vec@.subrange(old(self).index as int, old(self).index + size)),
//@ start
                proof { lemma2_to64(); }
//@ iter 0 it
//@ loop 0
                    invariant
                        size < 64,
                        self.vec == old(self).vec,
                        it.index@ <= size,
                        self.index == old(self).index + it.index@,
                        self.index <= self.vec@.len(),
                        r < pow2(it.index@ as nat),
                        r == value(self.vec@.subrange(old(self).index as int, self.index as int)),
//@ in 0
                    let ghost i = it.index@ as nat;
                    proof {
                        assert(i < size);
                        lemma_u64_pow2_no_overflow((i + 1) as nat);
                        lemma_pow2_unfold((i + 1) as nat);
                        if self.index < self.vec@.len() {
                            let b = self.vec@.subrange(old(self).index as int, self.index + 1);
                            assert(b.drop_last() =~= self.vec@.subrange(old(self).index as int, self.index as int));
                        }
                    }
//@ end
//@ fn dochy_compaction/src/enc_dec/tag_reader.rs TagReader::read_next_1 -> r
//@ loops loop
                ensures
                    final(self).vec == old(self).vec,
                    r is Ok <==> next1(old(self).vec@, old(self).index as nat) is Some,
                    r is Ok ==> next1(old(self).vec@, old(self).index as nat) == Some(r->Ok_0 as nat) && final(self).index == old(self).index + r->Ok_0 + 1
                        && final(self).index <= final(self).vec@.len(),
//@ loop 0
                    invariant
                        self.vec == old(self).vec,
                        self.index == old(self).index + count,
                        next1(self.vec@, old(self).index as nat) is Some <==> next1(self.vec@, self.index as nat) is Some,
                        next1(self.vec@, self.index as nat) is Some ==> next1(self.vec@, old(self).index as nat)->Some_0 == next1(self.vec@, self.index as nat)->Some_0 + count,
                    decreases self.vec@.len() - self.index
//@ end
//@ fn dochy_compaction/src/enc_dec/tag_reader.rs TagReader::read_tag -> r
                ensures
                    final(self).vec == old(self).vec,
                    r is Ok <==> tag_at(old(self).vec@, old(self).index as nat) is Some,
                    r is Ok ==> tag_at(old(self).vec@, old(self).index as nat) == Some((r->Ok_0, final(self).index as nat)) && tag_ok(r->Ok_0),
//@ start
                proof { lemma2_to64(); }
//@ end
        }
    }

    pub mod encode {
        use super::*;
        use super::super::lib_specs::*;
        use super::super::layout::*;
        use super::super::kval_enum::*;
        use super::tag_storage::TagStorage;
        use super::writer::Writer;
#[verifier::rlimit(60)]
//@ fn dochy_compaction/src/enc_dec/encode.rs encode -> r
//@ sub \.to_le_bytes\(\) => .to_le_bytes_()
//@ loops for for for for
            requires storable_seq(vec@), layout(vec@).len() <= usize::MAX,
            ensures r is Ok, r->Ok_0 == layout(vec@).len(), final(write).sink() == old(write).sink() + layout(vec@),
//@ start
            broadcast use ints, widths;
//@ iter 0 it
//@ loop 0
                invariant
                    storable_seq(vec@), layout(vec@).len() <= usize::MAX,
                    tag.vec@ == tag_stream(vec@, it.index@ as nat),
                    data@ == payload_stream(vec@, it.index@ as nat),
//@ in 0
                broadcast use ints, widths;
                let ghost i = it.index@ as nat;
                let ghost t0 = tag.vec@;
                let ghost d0 = data@;
                let ghost x = *item;
                proof {
                    assert(storable(vec@[i as int]));
                    assert(x == vec@[i as int]);
                    tag_joined(t0, x);
                    payload_joined(d0, x);
                }
//@ iter 1 it1
//@ loop 1
                    invariant data@ == d0 + enc_int(v@.len() as i64) + flat8(v@, it1.index@ as nat),
//@ pre 1
                proof { assert(d0 + enc_int(v@.len() as i64) + flat8(v@, 0) =~= d0 + enc_int(v@.len() as i64)); }
//@ last 1
                    proof { assert(data@ =~= d0 + enc_int(v@.len() as i64) + flat8(v@, (it1.index@ + 1) as nat)); }
//@ iter 2 it2
//@ loop 2
                    invariant data@ == d0 + enc_int(v@.len() as i64) + flat4(v@, it2.index@ as nat),
//@ pre 2
                proof { assert(d0 + enc_int(v@.len() as i64) + flat4(v@, 0) =~= d0 + enc_int(v@.len() as i64)); }
//@ last 2
                    proof { assert(data@ =~= d0 + enc_int(v@.len() as i64) + flat4(v@, (it2.index@ + 1) as nat)); }
//@ iter 3 it3
//@ loop 3
                    invariant data@ == d0 + enc_int(v@.len() as i64) + flat2(v@, it3.index@ as nat),
//@ pre 3
                proof { assert(d0 + enc_int(v@.len() as i64) + flat2(v@, 0) =~= d0 + enc_int(v@.len() as i64)); }
//@ last 3
                    proof { assert(data@ =~= d0 + enc_int(v@.len() as i64) + flat2(v@, (it3.index@ + 1) as nat)); }
//@ last 0
                proof {
                    assert(tag.vec@ == t0 + tag_bits(tag_of(x)));
                    assert(data@ == d0 + payload(x));
                }
//@ before return Ok
            proof {
                assert(writer.out() =~= old(write).sink() + layout(vec@));
            }
//@ end
    }

    pub mod decode {
        use super::*;
        use super::super::lib_specs::*;
        use super::super::layout::*;
        use super::super::kval_enum::*;
        use super::kihon_from_tag::KihonFromTag;
        use super::tag_reader::TagReader;
        use super::reader::Reader;
        /// the input begins with the layout of any_seq(), or is a part of it that was cut off
        pub open spec fn given(b: Seq<u8>) -> bool { storable_seq(any_seq()) && agree(b, layout(any_seq())) }
#[verifier::rlimit(60)]
//@ fn dochy_compaction/src/enc_dec/decode.rs decode -> r
//@ loops for for
            ensures
                // a whole layout is read back, and nothing after it is touched
                given(old(read).rest()) && old(read).rest().len() >= layout(any_seq()).len() ==> ({
                    &&& r is Ok
                    &&& r->Ok_0.0@.len() == any_seq().len()
                    &&& forall|i: int| 0 <= i < any_seq().len() ==> same(#[trigger] r->Ok_0.0@[i], any_seq()[i])
                    &&& r->Ok_0.1 == layout(any_seq()).len()
                    &&& final(read).rest() == old(read).rest().skip(layout(any_seq()).len() as int)
                }),
                // a layout that was cut off is refused
                given(old(read).rest()) && old(read).rest().len() < layout(any_seq()).len() ==> r is Err,
                // whatever is read, the number of bytes reported is the number of bytes taken
                r is Ok ==> r->Ok_0.1 <= old(read).rest().len() && final(read).rest() == old(read).rest().skip(r->Ok_0.1 as int),
//@ start
            broadcast use ints, widths;
            let ghost b = read.rest();
            let ghost s = any_seq();
            proof { if given(b) { header(b, s); } }
//@ iter 0 it
//@ pre 0
            let ghost vt = tr.vec@;
            proof {
                if given(b) {
                    assert(tag_stream(s, 0).len() == 0);
                    assert(reader.rest() == b.skip(base(s)));
                }
            }
//@ loop 0
                invariant
                    s == any_seq(),
                    b == old(read).rest(),
                    vt == tr.vec@,
                    tags@.len() == it.index@,
                    given(b) ==> count == s.len() && vt == unpack(pack(tag_stream(s, s.len()))) && tr.index == tag_stream(s, it.index@ as nat).len()
                        && forall|j: int| 0 <= j < it.index@ ==> #[trigger] tags@[j] == tag_of(s[j]),
                    forall|j: int| 0 <= j < it.index@ ==> tag_ok(#[trigger] tags@[j]),
//@ in 0
                proof { if given(b) { tag_here(s, it.index@ as nat, vt); } }
//@ iter 1 it1
//@ pre 1
            let ghost all = tags@;
            let ghost reader0 = reader;
//@ loop 1
                invariant
                    s == any_seq(),
                    all == it1.seq(),
                    b == old(read).rest(),
                    reader.wf(),
                    reader.src_final() == reader0.src_final(),
                    reader.n() <= b.len(),
                    reader.rest() == b.skip(reader.n() as int),
                    result@.len() == it1.index@,
                    given(b) ==> all.len() == s.len() && reader.n() == base(s) + payload_stream(s, it1.index@ as nat).len()
                        && layout(s).len() == base(s) + payload_stream(s, s.len()).len()
                        && (forall|j: int| 0 <= j < s.len() ==> #[trigger] all[j] == tag_of(s[j]))
                        && (forall|j: int| 0 <= j < it1.index@ ==> same(#[trigger] result@[j], s[j])),
                    forall|j: int| 0 <= j < all.len() ==> tag_ok(#[trigger] all[j]),
//@ in 1
                broadcast use ints, widths;
                let ghost i = it1.index@ as nat;
                let ghost r0 = reader.rest();
                let ghost n0 = reader.n();
                proof {
                    assert(tag == all[i as int]);
                    if given(b) {
                        assert(storable(s[i as int]));
                        item(b, s, i, r0);
                        payload_stream_prefix(s, i, s.len());
                    }
                }
//@ last 1
                proof {
                    if given(b) {
                        let y = result@[i as int];
                        match s[i as int] {
                            KVal::Null => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Bit(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Bool(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Byte(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Str16(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Int(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Float(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Str256(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Double(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Decimal(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::BigStr(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Binary(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::BinaryArc(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Binary8(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Binary4(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Binary2(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                            KVal::Undefined(_) => { assert(same(y, s[i as int])); assert(reader.n() == n0 + payload(s[i as int]).len()); }
                        }
                    }
                }
//@ end
    }

    pub mod encode_to_vec {
        use super::super::lib_specs::*;
        use super::super::layout::*;
        use super::super::kval_enum::*;
        use super::encode::encode;
        use super::*;
//@ fn dochy_compaction/src/enc_dec/encode_to_vec.rs encode_to_vec -> r
            requires storable_seq(input@), layout(input@).len() <= usize::MAX,
            ensures r is Ok, r->Ok_0@ == layout(input@),
//@ end
    }
    pub mod decode_from_slice {
        use super::super::lib_specs::*;
        use super::super::layout::*;
        use super::super::kval_enum::*;
        use super::decode::*;
        use super::*;
//@ fn dochy_compaction/src/enc_dec/decode_from_slice.rs decode_from_slice -> r
            ensures
                given(slice@) && slice@.len() >= layout(any_seq()).len() ==> ({
                    &&& r is Ok
                    &&& r->Ok_0.0@.len() == any_seq().len()
                    &&& forall|i: int| 0 <= i < any_seq().len() ==> same(#[trigger] r->Ok_0.0@[i], any_seq()[i])
                    &&& r->Ok_0.1 == layout(any_seq()).len()
                }),
                given(slice@) && slice@.len() < layout(any_seq()).len() ==> r is Err,
                r is Ok ==> r->Ok_0.1 <= slice@.len(),
//@ end
    }
}
}
fn main() {}
