#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: folder names of hashes and the file with the creation time (property 15).
use vstd::prelude::*;
use vstd::slice::*;

verus! {
global size_of usize == 8;

pub mod lib_specs {
    use super::*;
    use vstd::utf8::*;
    pub struct FsError;
    pub type FsResult<T> = core::result::Result<T, FsError>;

    // TRUSTED: names of folders. What the program sees of a name is its text (for a name that is not text: with the
    // replacement character), and a name made from a text is seen as that text
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExOsStr(std::ffi::OsStr);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExOsString(std::ffi::OsString);
    pub uninterp spec fn seen(s: &std::ffi::OsStr) -> Seq<char>;
    pub uninterp spec fn made(s: &std::ffi::OsString) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string_lossy(s: &std::ffi::OsStr) -> (r: String)
        ensures r@ == seen(s),
    { s.to_string_lossy().to_string() }
    #[verifier::external_body]
    pub fn os_string(s: String) -> (r: std::ffi::OsString)
        ensures made(&r) == s@,
    { std::ffi::OsString::from(s) }
    pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8])
        ensures r@ == encode_utf8(s@);

    pub assume_specification[ u8::to_ascii_lowercase ](b: &u8) -> (r: u8)
        ensures r == if 65 <= *b <= 90 { (*b + 32) as u8 } else { *b };
    pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
        ensures r@ == Seq::<char>::empty();

    // TRUSTED: std::io::Read on a source that delivers its bytes and then ends, std::io::Write on a sink that takes every byte
    pub trait Read {
        spec fn rest(&self) -> Seq<u8>;
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: FsResult<()>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                old(buf)@.len() <= old(self).rest().len() ==> r is Ok
                    && final(buf)@ == old(self).rest().take(old(buf)@.len() as int)
                    && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int),
        ;
    }
    pub trait Write {
        spec fn sink(&self) -> Seq<u8>;
        fn write_all(&mut self, buf: &[u8]) -> (r: FsResult<()>)
            ensures r is Ok, final(self).sink() == old(self).sink() + buf@,
        ;
    }
    // TRUSTED: to_le_bytes and from_le_bytes are inverse to each other (calls are redirected here)
    pub uninterp spec fn le8(n: u64) -> Seq<u8>;
    pub uninterp spec fn le4(n: u32) -> Seq<u8>;
    pub broadcast axiom fn le8_len(n: u64) ensures #[trigger] le8(n).len() == 8;
    pub broadcast axiom fn le4_len(n: u32) ensures #[trigger] le4(n).len() == 4;
    pub trait Le<const N: usize> : Sized {
        spec fn le_bytes(&self) -> Seq<u8>;
        fn to_le_bytes_(&self) -> (r: [u8; N]) ensures r@ == self.le_bytes();
        fn from_le_bytes_(b: [u8; N]) -> (r: Self) ensures forall|n: Self| #[trigger] n.le_bytes() == b@ ==> r == n;
    }
    impl Le<8> for u64 {
        open spec fn le_bytes(&self) -> Seq<u8> { le8(*self) }
        #[verifier::external_body]
        fn to_le_bytes_(&self) -> (r: [u8; 8]) { self.to_le_bytes() }
        #[verifier::external_body]
        fn from_le_bytes_(b: [u8; 8]) -> (r: u64) { u64::from_le_bytes(b) }
    }
    impl Le<4> for u32 {
        open spec fn le_bytes(&self) -> Seq<u8> { le4(*self) }
        #[verifier::external_body]
        fn to_le_bytes_(&self) -> (r: [u8; 4]) { self.to_le_bytes() }
        #[verifier::external_body]
        fn from_le_bytes_(b: [u8; 4]) -> (r: u32) { u32::from_le_bytes(b) }
    }
    // TRUSTED: a point of time is a number of nanoseconds since 1970, a duration a number of nanoseconds, that of
    // whole seconds fits 64 bits, and adding is exact or panics
    pub struct SystemTime { pub n: Ghost<int> }
    pub struct Duration { pub n: Ghost<int> }
    impl SystemTime {
        #[verifier::external_body]
        pub fn epoch() -> (r: SystemTime) ensures r.n@ == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn duration_since(&self, o: SystemTime) -> (r: FsResult<Duration>)
            ensures
                self.n@ >= o.n@ ==> r is Ok && r->Ok_0.n@ == self.n@ - o.n@,
                self.n@ < o.n@ ==> r is Err,
        { unimplemented!() }
    }
    impl Duration {
        pub open spec fn valid(&self) -> bool { 0 <= self.n@ && self.n@ / 1_000_000_000 <= u64::MAX }
        #[verifier::external_body]
        pub fn as_secs(&self) -> (r: u64) ensures r == self.n@ / 1_000_000_000 { unimplemented!() }
        #[verifier::external_body]
        pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.n@ % 1_000_000_000 { unimplemented!() }
        #[verifier::external_body]
        pub fn from_secs(n: u64) -> (r: Duration) ensures r.n@ == n * 1_000_000_000 { unimplemented!() }
        #[verifier::external_body]
        pub fn from_nanos(n: u64) -> (r: Duration) ensures r.n@ == n { unimplemented!() }
        #[verifier::external_body]
        pub fn from_micros(n: u64) -> (r: Duration) ensures r.n@ == n * 1000 { unimplemented!() }
        #[verifier::external_body]
        pub fn from_millis(n: u64) -> (r: Duration) ensures r.n@ == n * 1_000_000 { unimplemented!() }
        #[verifier::external_body]
        pub fn subsec_micros(&self) -> (r: u32) ensures r == self.n@ % 1_000_000_000 / 1000 { unimplemented!() }
        #[verifier::external_body]
        pub fn subsec_millis(&self) -> (r: u32) ensures r == self.n@ % 1_000_000_000 / 1_000_000 { unimplemented!() }
        #[verifier::external_body]
        pub fn new(s: u64, n: u32) -> (r: Duration) ensures r.n@ == s * 1_000_000_000 + n { unimplemented!() }
    }
    impl vstd::std_specs::ops::AddSpecImpl<Duration> for SystemTime {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, d: Duration) -> bool { true }
        open spec fn add_spec(self, d: Duration) -> SystemTime { SystemTime { n: Ghost(self.n@ + d.n@) } }
    }
    impl std::ops::Add<Duration> for SystemTime {
        type Output = SystemTime;
        #[verifier::external_body]
        fn add(self, d: Duration) -> (r: SystemTime) { unimplemented!() }
    }

    // ------------------------------------------------------------------ hexadecimal notation
    pub open spec fn hexc(d: u64) -> u8 { if d < 10 { (48 + d) as u8 } else { (87 + d) as u8 } }
    pub open spec fn nibble(n: u64, i: int) -> u64 { (n >> ((60 - 4 * i) as u64)) & 15 }
    /// sixteen lower-case hexadecimal digits
    pub open spec fn hex16(n: u64) -> Seq<u8> { Seq::new(16, |i: int| hexc(nibble(n, i))) }
    /// the text of a hash
    pub open spec fn hex32(h: u128) -> Seq<u8> { hex16((h >> 64) as u64) + hex16(h as u64) }
    pub proof fn hexc_digit(a: u64, b: u64)
        requires a < 16, b < 16, hexc(a) == hexc(b),
        ensures a == b,
    { }
    pub proof fn nibble_small(n: u64, i: int)
        ensures nibble(n, i) < 16,
    {
        let k = (60 - 4 * i) as u64;
        assert((n >> k) & 15 < 16) by (bit_vector);
    }
    pub proof fn same_nibbles(a: u64, b: u64)
        requires forall|i: int| 0 <= i < 16 ==> #[trigger] nibble(a, i) == nibble(b, i),
        ensures a == b,
    {
        assert(nibble(a, 0) == nibble(b, 0) && nibble(a, 1) == nibble(b, 1) && nibble(a, 2) == nibble(b, 2) && nibble(a, 3) == nibble(b, 3));
        assert(nibble(a, 4) == nibble(b, 4) && nibble(a, 5) == nibble(b, 5) && nibble(a, 6) == nibble(b, 6) && nibble(a, 7) == nibble(b, 7));
        assert(nibble(a, 8) == nibble(b, 8) && nibble(a, 9) == nibble(b, 9) && nibble(a, 10) == nibble(b, 10) && nibble(a, 11) == nibble(b, 11));
        assert(nibble(a, 12) == nibble(b, 12) && nibble(a, 13) == nibble(b, 13) && nibble(a, 14) == nibble(b, 14) && nibble(a, 15) == nibble(b, 15));
        assert(a == b) by (bit_vector)
            requires
                (a >> 60) & 15 == (b >> 60) & 15, (a >> 56) & 15 == (b >> 56) & 15, (a >> 52) & 15 == (b >> 52) & 15, (a >> 48) & 15 == (b >> 48) & 15,
                (a >> 44) & 15 == (b >> 44) & 15, (a >> 40) & 15 == (b >> 40) & 15, (a >> 36) & 15 == (b >> 36) & 15, (a >> 32) & 15 == (b >> 32) & 15,
                (a >> 28) & 15 == (b >> 28) & 15, (a >> 24) & 15 == (b >> 24) & 15, (a >> 20) & 15 == (b >> 20) & 15, (a >> 16) & 15 == (b >> 16) & 15,
                (a >> 12) & 15 == (b >> 12) & 15, (a >> 8) & 15 == (b >> 8) & 15, (a >> 4) & 15 == (b >> 4) & 15, (a >> 0) & 15 == (b >> 0) & 15;
    }
    pub proof fn hex16_one(a: u64, b: u64)
        requires hex16(a) == hex16(b),
        ensures a == b,
    {
        assert forall|i: int| 0 <= i < 16 implies #[trigger] nibble(a, i) == nibble(b, i) by {
            assert(hex16(a)[i] == hexc(nibble(a, i)) && hex16(b)[i] == hexc(nibble(b, i)));
            nibble_small(a, i);
            nibble_small(b, i);
            hexc_digit(nibble(a, i), nibble(b, i));
        }
        same_nibbles(a, b);
    }
    /// different hashes have different texts
    pub proof fn hex32_one(a: u128, b: u128)
        requires hex32(a) == hex32(b),
        ensures a == b,
    {
        let (x, y, v, w) = ((a >> 64) as u64, a as u64, (b >> 64) as u64, b as u64);
        assert(hex32(a).take(16) =~= hex16(x) && hex32(a).skip(16) =~= hex16(y));
        assert(hex32(b).take(16) =~= hex16(v) && hex32(b).skip(16) =~= hex16(w));
        hex16_one(x, v);
        hex16_one(y, w);
        assert(a == b) by (bit_vector) requires (a >> 64) as u64 == (b >> 64) as u64, a as u64 == b as u64;
    }
    /// a text of hexadecimal digits is as long as its bytes
    pub open spec fn hexdigit(b: u8) -> bool { 48 <= b <= 57 || 97 <= b <= 102 }
    pub proof fn hexc_is(d: u64) requires d < 16 ensures hexdigit(hexc(d)) { }
    pub open spec fn is_text(t: Seq<char>, b: Seq<u8>) -> bool { t.len() == b.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] as u32 == b[i] as u32 }
    /// the text consists of single bytes
    pub proof fn ascii_text(t: Seq<char>)
        requires forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 128,
        ensures is_text(t, encode_utf8(t)),
    {
        is_ascii_chars_encode_utf8(t);
    }
}

pub mod hash {
    use super::*;
    use super::lib_specs::*;
    use vstd::utf8::*;
    use std::ffi::{OsStr, OsString};

//@ fn dochy_fs/src/imp/common/path/hash.rs get_char_and_shift -> r
        ensures
            r == hexc(nibble(*old(num), 0)),
            *final(num) == *old(num) << 4,
//@ start
        let ghost n = *num;
        proof {
            assert((n & 0xf000_0000_0000_0000) >> 60 == (n >> 60) & 15) by (bit_vector);
            assert((n >> 60) & 15 < 16) by (bit_vector);
        }
//@ end

    pub open spec fn latin(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
    pub proof fn shifted(n: u64, m: u64, k: u64)
        requires k < 16, m == n << ((4 * k) as u64),
        ensures nibble(m, 0) == nibble(n, k as int), k < 15 ==> m << 4 == n << ((4 * (k + 1)) as u64),
    {
        assert((m >> 60) & 15 == (n >> ((60 - 4 * k) as u64)) & 15) by (bit_vector) requires k < 16, m == n << ((4 * k) as u64);
        assert(k < 15 ==> m << 4 == n << ((4 * (k + 1)) as u64)) by (bit_vector) requires k < 16, m == n << ((4 * k) as u64);
    }
//@ fn dochy_fs/src/imp/common/path/hash.rs u64_to_hex_file_name -> x
        ensures final(r)@ == old(r)@ + latin(hex16(num)),
//@ start
        let ghost n0 = num;
        let ghost r0 = r@;
        proof { assert(n0 << 0 == n0) by (bit_vector); }
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                0 <= it.index@ <= 16,
                it.index@ < 16 ==> num == n0 << ((4 * it.index@) as u64),
                r@ == r0 + latin(hex16(n0)).take(it.index@ as int),
//@ in 0
            proof {
                shifted(n0, num, it.index@ as u64);
                assert(latin(hex16(n0)).take(it.index@ + 1) =~= latin(hex16(n0)).take(it.index@ as int).push(latin(hex16(n0))[it.index@ as int]));
            }
//@ post 0
        proof { assert(latin(hex16(n0)).take(16) =~= latin(hex16(n0))); }
//@ end
//@ fn dochy_fs/src/imp/common/path/hash.rs hash_to_folder_name -> r
        ensures made(&r) == latin(hex32(hash)),
//@ sub OsString::from\( => os_string(
//@ start
        proof {
            assert(latin(hex32(hash)) =~= latin(hex16((hash >> 64) as u64)) + latin(hex16(hash as u64)));
            assert(Seq::<char>::empty() + latin(hex16((hash >> 64) as u64)) =~= latin(hex16((hash >> 64) as u64)));
        }
//@ end

    /// the first k digits stand for r
    pub open spec fn reads(s: Seq<u8>, k: int, r: u64) -> bool {
        &&& forall|i: int| 0 <= i < k ==> s[i] == #[trigger] hexc((r >> ((4 * (k - 1 - i)) as u64)) & 15)
        &&& k < 16 ==> r < (1u64 << ((4 * k) as u64))
    }
    pub open spec fn digit(b: u8) -> u64 { if b < 58 { (b - 48) as u64 } else { (b - 87) as u64 } }
    /// one more digit
    pub proof fn more(s: Seq<u8>, k: int, r: u64)
        requires 0 <= k < 16, k < s.len(), reads(s, k, r),
        ensures
            hexdigit(s[k]) ==> reads(s, k + 1, ((r << 4) + digit(s[k])) as u64),
            r << 4 <= 0xffff_ffff_ffff_fff0,
    {
        let w = k as u64;
        assert(r << 4 <= 0xffff_ffff_ffff_fff0) by (bit_vector);
        if hexdigit(s[k]) {
            let d = digit(s[k]);
            let m = ((r << 4) + d) as u64;
            assert(m == add(r << 4, d));
            assert(k + 1 < 16 ==> m < (1u64 << ((4 * (k + 1)) as u64))) by {
                if w < 15 {
                    assert(m < (1u64 << ((4 * (w + 1)) as u64))) by (bit_vector) requires w < 15, r < (1u64 << ((4 * w) as u64)), d < 16, m == add(r << 4, d);
                }
            }
            assert forall|i: int| 0 <= i < k + 1 implies s[i] == #[trigger] hexc((m >> ((4 * (k - i)) as u64)) & 15) by {
                if i == k {
                    assert((m >> 0) & 15 == d) by (bit_vector) requires d < 16, m == add(r << 4, d);
                } else {
                    let j = (k - 1 - i) as u64;
                    assert(s[i] == hexc((r >> ((4 * (k - 1 - i)) as u64)) & 15));
                    assert((m >> ((4 * (j + 1)) as u64)) & 15 == (r >> ((4 * j) as u64)) & 15) by (bit_vector)
                        requires w < 16, r < (1u64 << ((4 * w) as u64)), d < 16, m == add(r << 4, d), j < 15;
                }
            }
        }
    }
    pub proof fn end16(s: Seq<u8>, r: u64)
        requires s.len() >= 16, reads(s, 16, r),
        ensures s.take(16) == hex16(r),
    {
        assert forall|i: int| 0 <= i < 16 implies s[i] == #[trigger] hex16(r)[i] by {
            assert(s[i] == hexc((r >> ((4 * (16 - 1 - i)) as u64)) & 15));
        }
        assert(s.take(16) =~= hex16(r));
    }
//@ fn dochy_fs/src/imp/common/path/hash.rs hex_to_u64 -> x
        requires s@.len() == 16,
        ensures
            x is Some ==> s@ == hex16(x->0),
            x is None ==> exists|i: int| 0 <= i < 16 && !hexdigit(#[trigger] s@[i]),
//@ loops loop
//@ pre 0
        proof { assert(0u64 < (1u64 << 0)) by (bit_vector); }
//@ loop 0
            invariant
                s@.len() == 16,
                0 <= index <= 15,
                reads(s@, index as int, r),
            decreases 16 - index,
//@ in 0
            let ghost r0 = r;
            proof {
                more(s@, index as int, r0);
                if index == 15 && hexdigit(s@[15]) { end16(s@, ((r0 << 4) + digit(s@[15])) as u64); assert(s@.take(16) =~= s@); }
            }
//@ end
    pub proof fn digits(h: u128, i: int)
        requires 0 <= i < 32,
        ensures hexdigit(hex32(h)[i]),
    {
        let n = if i < 16 { (h >> 64) as u64 } else { h as u64 };
        nibble_small(n, if i < 16 { i } else { i - 16 });
    }
    pub proof fn written(h: u128)
        ensures encode_utf8(latin(hex32(h))) == hex32(h),
    {
        let b = hex32(h);
        let t = latin(b);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 by { digits(h, i); }
        ascii_text(t);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] encode_utf8(t)[i] == b[i] by { digits(h, i); assert(t[i] as u32 == encode_utf8(t)[i] as u32); }
        assert(encode_utf8(t) =~= b);
    }
    /// two halves that were read
    pub proof fn joined(t: Seq<char>, u: u64, l: u64)
        requires encode_utf8(t).len() == 32, hex16(u) == encode_utf8(t).subrange(0, 16), hex16(l) == encode_utf8(t).subrange(16, 32),
        ensures ((u as u128) << 64) + l as u128 <= u128::MAX, t == latin(hex32((((u as u128) << 64) + l as u128) as u128)),
    {
        assert(((u as u128) << 64) <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) by (bit_vector);
        let h = (((u as u128) << 64) + l as u128) as u128;
        let w = (u as u128) << 64;
        let v = l as u128;
        assert((h >> 64) as u64 == u && h as u64 == l) by (bit_vector) requires h == add(w, v), w == (u as u128) << 64, v == l as u128;
        assert(encode_utf8(t) =~= hex32(h));
        written(h);
        encode_utf8_decode_utf8(t);
        encode_utf8_decode_utf8(latin(hex32(h)));
    }
//@ fn dochy_fs/src/imp/common/path/hash.rs folder_name_to_hash -> r
        ensures
            // a name is read as a hash only if it is the name written for it
            r is Some ==> seen(s) == latin(hex32(r->0)),
            // and every such name is
            forall|h: u128| seen(s) == #[trigger] latin(hex32(h)) ==> r == Some(h),
//@ sub s\.to_string_lossy\(\) => to_string_lossy(s)
//@ start
        let ghost t = seen(s);
        proof {
            assert forall|u: u64, l: u64| encode_utf8(t).len() == 32 && #[trigger] hex16(u) == encode_utf8(t).subrange(0, 16) && #[trigger] hex16(l) == encode_utf8(t).subrange(16, 32)
                implies t == latin(hex32((((u as u128) << 64) + l as u128) as u128)) && ((u as u128) << 64) + l as u128 <= u128::MAX by { joined(t, u, l); }
            assert forall|h: u128| t == #[trigger] latin(hex32(h)) implies encode_utf8(t) == hex32(h) by { written(h); }
            assert forall|h: u128, k: u128| #[trigger] latin(hex32(h)) == #[trigger] latin(hex32(k)) implies h == k by { written(h); written(k); hex32_one(h, k); }
            assert forall|h: u128, i: int| 0 <= i < 32 implies hexdigit(#[trigger] hex32(h)[i]) by { digits(h, i); }
        }
//@ end
}

pub mod created_time_file {
    use super::*;
    use super::lib_specs::*;
    broadcast use {super::lib_specs::le8_len, super::lib_specs::le4_len};

    /// the bytes of a point of time
    pub open spec fn bytes_of(t: int) -> Seq<u8> { le8((t / 1_000_000_000) as u64) + le4((t % 1_000_000_000) as u32) }

//@ fn dochy_fs/src/imp/common/path/created_time_file.rs create_time_dat -> r
        ensures
            0 <= time.n@ ==> r is Ok && final(write).sink() == old(write).sink() + bytes_of(time.n@),
//@ sub SystemTime::UNIX_EPOCH => SystemTime::epoch()
//@ sub \.to_le_bytes\(\) => .to_le_bytes_()
//@ end
//@ fn dochy_fs/src/imp/common/path/created_time_file.rs from_time_dat -> r
        ensures
            forall|t: int| 0 <= t && t / 1_000_000_000 <= u64::MAX && (#[trigger] bytes_of(t)).is_prefix_of(old(read).rest()) ==> r is Ok && r->Ok_0.n@ == t,
//@ sub SystemTime::UNIX_EPOCH => SystemTime::epoch()
//@ sub u64::from_le_bytes\( => <u64 as Le<8>>::from_le_bytes_(
//@ sub u32::from_le_bytes\( => <u32 as Le<4>>::from_le_bytes_(
//@ start
        proof {
            assert forall|t: int| 0 <= t && t / 1_000_000_000 <= u64::MAX && (#[trigger] bytes_of(t)).is_prefix_of(read.rest()) implies
                read.rest().len() >= 12 && ((t / 1_000_000_000) as u64).le_bytes() == read.rest().take(8) && ((t % 1_000_000_000) as u32).le_bytes() == read.rest().skip(8).take(4) by {
                assert(bytes_of(t) == read.rest().take(12));
                assert(le8((t / 1_000_000_000) as u64) =~= read.rest().take(12).take(8));
                assert(read.rest().take(12).take(8) =~= read.rest().take(8));
                assert(le4((t % 1_000_000_000) as u32) =~= read.rest().take(12).skip(8));
                assert(read.rest().take(12).skip(8) =~= read.rest().skip(8).take(4));
            }
        }
//@ end
}
}
fn main() {}
