#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: bytes to URL text and back (property 5).
use vstd::prelude::*;

verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- trusted specifications of library code
pub mod lib_specs {
    use super::*;
//@ include bitvec.inc
}

pub mod url_string {
    use super::*;
    use super::lib_specs::*;

    /// the i-th bit of a sequence of 6 bit groups
    pub open spec fn weight6(k: int) -> int {
        if k == 0 { 32 } else if k == 1 { 16 } else if k == 2 { 8 } else if k == 3 { 4 } else if k == 4 { 2 } else { 1 }
    }
    pub open spec fn bit6(v: Seq<u8>, i: int) -> bool { (v[i / 6] as int / weight6(i % 6)) % 2 == 1 }
    /// the 6 bit groups of a byte sequence, the last group filled up with zeros
    pub open spec fn is_groups(g: Seq<u8>, b: Seq<u8>) -> bool {
        &&& g.len() == (8 * b.len() + 5) / 6
        &&& forall|j: int| 0 <= j < g.len() ==> #[trigger] g[j] < 64
        &&& forall|i: int| 0 <= i < 8 * b.len() ==> #[trigger] bit6(g, i) == unpack(b)[i]
    }
    pub open spec fn is_bytes(b: Seq<u8>, g: Seq<u8>) -> bool {
        &&& b.len() == g.len() * 6 / 8
        &&& forall|i: int| 0 <= i < 8 * b.len() ==> #[trigger] unpack(b)[i] == bit6(g, i)
    }
    pub proof fn same_bits(a: Seq<u8>, b: Seq<u8>)
        requires a.len() == b.len(), forall|i: int| 0 <= i < 8 * a.len() ==> #[trigger] unpack(a)[i] == unpack(b)[i],
        ensures a == b,
    {
        assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by {
            assert forall|k: int| 0 <= k < 8 implies (#[trigger] weight(k) > 0 && ((a[j] as int / weight(k)) % 2 == 1) == ((b[j] as int / weight(k)) % 2 == 1)) by {
                let i = 8 * j + k;
                assert(i / 8 == j && i % 8 == k);
                assert(unpack(a)[i] == unpack(b)[i]);
            }
            byte_of_bits(a[j], b[j]);
        }
        assert(a =~= b);
    }
    pub proof fn byte_of_bits(x: u8, y: u8)
        requires forall|k: int| 0 <= k < 8 ==> (#[trigger] weight(k) > 0 && ((x as int / weight(k)) % 2 == 1) == ((y as int / weight(k)) % 2 == 1)),
        ensures x == y,
    {
        assert(weight(0) == 128 && weight(1) == 64 && weight(2) == 32 && weight(3) == 16 && weight(4) == 8 && weight(5) == 4 && weight(6) == 2 && weight(7) == 1);
        assert((x / 128 % 2 == 1) == (y / 128 % 2 == 1));
        assert((x / 64 % 2 == 1) == (y / 64 % 2 == 1));
        assert((x / 32 % 2 == 1) == (y / 32 % 2 == 1));
        assert((x / 16 % 2 == 1) == (y / 16 % 2 == 1));
        assert((x / 8 % 2 == 1) == (y / 8 % 2 == 1));
        assert((x / 4 % 2 == 1) == (y / 4 % 2 == 1));
        assert((x / 2 % 2 == 1) == (y / 2 % 2 == 1));
        assert((x / 1 % 2 == 1) == (y / 1 % 2 == 1));
        assert(x == y) by (bit_vector)
            requires (x / 128 % 2 == 1) == (y / 128 % 2 == 1), (x / 64 % 2 == 1) == (y / 64 % 2 == 1), (x / 32 % 2 == 1) == (y / 32 % 2 == 1), (x / 16 % 2 == 1) == (y / 16 % 2 == 1),
                (x / 8 % 2 == 1) == (y / 8 % 2 == 1), (x / 4 % 2 == 1) == (y / 4 % 2 == 1), (x / 2 % 2 == 1) == (y / 2 % 2 == 1), (x / 1 % 2 == 1) == (y / 1 % 2 == 1);
    }
    /// going to groups and back gives the bytes
    pub proof fn there_and_back(b: Seq<u8>, g: Seq<u8>, c: Seq<u8>)
        requires is_groups(g, b), is_bytes(c, g),
        ensures c == b,
    {
        assert(c.len() == b.len());
        assert forall|i: int| 0 <= i < 8 * c.len() implies #[trigger] unpack(c)[i] == unpack(b)[i] by {
            assert(bit6(g, i) == unpack(b)[i]);
        }
        same_bits(c, b);
    }

    pub mod b8s_and_b6s {
        use super::*;

        pub open spec fn part(n: usize) -> int { (n - 1) % 6 + 1 }
        pub open spec fn spread(i: int) -> int { 8 * (i / 6) + 2 + i % 6 }
        pub open spec fn clear(out: Seq<bool>, j: int) -> bool { !out[8 * j] && !out[8 * j + 1] }
        /// what has been written after n bits: two zeros before every six bits
        pub open spec fn grouped(out: Seq<bool>, src: Seq<bool>, n: int) -> bool {
            &&& out.len() == n + 2 * ((n + 5) / 6)
            &&& forall|i: int| 0 <= i < n ==> #[trigger] out[spread(i)] == src[i]
            &&& forall|j: int| 0 <= j && 8 * j < out.len() ==> #[trigger] clear(out, j)
        }
        pub proof fn group_bytes(out: Seq<bool>, b: Seq<u8>)
            requires grouped(out, unpack(b), (8 * b.len()) as int),
            ensures is_groups(pack(out), b),
        {
            let g = pack(out);
            unpack_pack(out);
            assert(g.len() == (8 * b.len() + 5) / 6);
            assert forall|j: int| 0 <= j < g.len() implies #[trigger] g[j] < 64 by {
                assert(clear(out, j));
            }
            assert forall|i: int| 0 <= i < 8 * b.len() implies #[trigger] bit6(g, i) == unpack(b)[i] by {
                let j = i / 6;
                let k = i % 6;
                let p = spread(i);
                assert(p / 8 == j && p % 8 == k + 2);
                assert(out[p] == unpack(b)[i]);
                assert(unpack(g)[p] == out[p]);
                assert(weight(k + 2) == weight6(k));
            }
        }
//@ fn dochy_compaction/src/url_string/b8s_and_b6s.rs to_b6s -> r
            requires b8s@.len() <= usize::MAX / 8,
            ensures is_groups(r@, b8s@),
//@ loops loop
//@ loop 0
            invariant_except_break
                0 <= count6 <= 6,
                index == 0 ==> count6 == 6,
                index > 0 ==> count6 as int == part(index),
            invariant
                bytes@ == unpack(b8s@),
                bytes_len == bytes@.len(),
                index <= bytes_len,
                bytes_len == 8 * b8s@.len(),
                grouped(result@, bytes@, index as int),
            ensures
                index == bytes_len,
            decreases bytes_len - index,
//@ in 0
            let ghost before = result@;
            let ghost n = index as int;
//@ last 0
            proof {
                assert(result@[spread(n)] == bytes@[n]);
                assert forall|i: int| 0 <= i < n implies #[trigger] result@[spread(i)] == bytes@[i] by { assert(before[spread(i)] == bytes@[i]); }
                assert forall|j: int| 0 <= j && 8 * j < result@.len() implies #[trigger] clear(result@, j) by {
                    if 8 * j < before.len() { assert(clear(before, j)); }
                }
            }
//@ post 0
            proof { group_bytes(result@, b8s@); }
//@ end

//@ fn dochy_compaction/src/url_string/b8s_and_b6s.rs to_b8s/get_bit -> r
            requires 1 <= bit <= 6,
            ensures r == ((b6 as int / weight6(6 - bit)) % 2 == 1),
//@ start
            proof {
                assert(b6 & 32 != 0 <==> b6 / 32 % 2 == 1) by (bit_vector);
                assert(b6 & 16 != 0 <==> b6 / 16 % 2 == 1) by (bit_vector);
                assert(b6 & 8 != 0 <==> b6 / 8 % 2 == 1) by (bit_vector);
                assert(b6 & 4 != 0 <==> b6 / 4 % 2 == 1) by (bit_vector);
                assert(b6 & 2 != 0 <==> b6 / 2 % 2 == 1) by (bit_vector);
                assert(b6 & 1 != 0 <==> b6 / 1 % 2 == 1) by (bit_vector);
                assert(1u8 << 5u8 == 32 && 1u8 << 4u8 == 16 && 1u8 << 3u8 == 8 && 1u8 << 2u8 == 4 && 1u8 << 1u8 == 2 && 1u8 << 0u8 == 1) by (bit_vector);
            }
//@ end

        pub open spec fn joined(out: Seq<bool>, g: Seq<u8>, n: int) -> bool {
            &&& out.len() == 6 * n
            &&& forall|i: int| 0 <= i < 6 * n ==> #[trigger] out[i] == bit6(g, i)
        }
        pub proof fn join_bytes(out: Seq<bool>, g: Seq<u8>, c: Seq<u8>)
            requires joined(out, g, g.len() as int), c.len() == g.len() * 6 / 8,
                c == pack(out).take(c.len() as int),
            ensures is_bytes(c, g),
        {
            unpack_pack(out);
            assert forall|i: int| 0 <= i < 8 * c.len() implies #[trigger] unpack(c)[i] == bit6(g, i) by {
                assert(c[i / 8] == pack(out)[i / 8]);
                assert(unpack(c)[i] == unpack(pack(out))[i]);
                assert(out[i] == bit6(g, i));
            }
        }
//@ fn dochy_compaction/src/url_string/b8s_and_b6s.rs to_b8s -> r
            requires b6s@.len() <= usize::MAX / 6,
            ensures is_bytes(r@, b6s@),
//@ hoist get_bit
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                it.seq() == b6s@.map_values(|x: u8| &x),
                joined(result@, b6s@, it.index@ as int),
//@ in 0
            let ghost before = result@;
            let ghost n = it.index@ as int;
//@ last 0
            proof {
                assert(*byte == b6s@[n]);
                assert forall|i: int| 0 <= i < 6 * (n + 1) implies #[trigger] result@[i] == bit6(b6s@, i) by {
                    if i < 6 * n { assert(before[i] == bit6(b6s@, i)); }
                    else { assert(i / 6 == n && i % 6 == i - 6 * n); }
                }
            }
//@ after vec\.pop\(\);\s*\}
            proof {
                assert(vec@ =~= pack(result@).take(vec@.len() as int));
                join_bytes(result@, b6s@, vec@);
            }
//@ end
    }

    pub mod char_and_b6 {
        use super::*;

        pub open spec fn alphabet(b: int) -> char {
            if b < 26 { (b + 65) as char } else if b < 52 { (b - 26 + 97) as char } else if b < 62 { (b - 52 + 48) as char } else if b == 62 { '-' } else { '_' }
        }
        pub open spec fn in_alphabet(c: char) -> bool { exists|b: int| 0 <= b < 64 && alphabet(b) == c }
//@ fn dochy_compaction/src/url_string/char_and_b6.rs char_to_b6/sub -> ret
            requires r as u32 <= l as u32 <= 255,
            ensures ret == l as u32 - r as u32,
//@ end
//@ fn dochy_compaction/src/url_string/char_and_b6.rs char_to_b6 -> r
            ensures
                r is Some ==> r->0 < 64 && alphabet(r->0 as int) == c,
                r is None ==> !in_alphabet(c),
//@ hoist sub
//@ end
//@ fn dochy_compaction/src/url_string/char_and_b6.rs b6_to_char/add -> r
            requires l as u32 + diff < 128,
            ensures r as u32 == l as u32 + diff,
//@ end
//@ fn dochy_compaction/src/url_string/char_and_b6.rs b6_to_char -> r
            ensures
                b < 64 ==> r == Some(alphabet(b as int)),
                b >= 64 ==> r is None,
//@ hoist add
//@ end

        /// the text of a sequence of groups
        pub open spec fn text_of(t: Seq<char>, g: Seq<u8>) -> bool {
            t.len() == g.len() && forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] < 64 && t[i] == alphabet(g[i] as int)
        }
        pub proof fn alphabet_injective(a: int, b: int) requires 0 <= a < 64, 0 <= b < 64, alphabet(a) == alphabet(b) ensures a == b { }
        pub proof fn one_text(t: Seq<char>, g: Seq<u8>, h: Seq<u8>) requires text_of(t, g), text_of(t, h) ensures g == h
        {
            assert forall|i: int| 0 <= i < g.len() implies g[i] == h[i] by {
                assert(g[i] < 64 && h[i] < 64);
                alphabet_injective(g[i] as int, h[i] as int);
            }
            assert(g =~= h);
        }
//@ fn dochy_compaction/src/url_string/char_and_b6.rs b6s_to_string -> r
            ensures
                (forall|i: int| 0 <= i < b6s@.len() ==> #[trigger] b6s@[i] < 64) ==> r is Some,
                r is Some ==> text_of(r->0@, b6s@),
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                it.seq() == b6s@.map_values(|x: u8| &x),
                text_of(s@, b6s@.take(it.index@ as int)),
//@ in 0
            let ghost n = it.index@ as int;
            assert(*b6 == b6s@[n]);
//@ last 0
            assert(b6s@.take(n + 1) =~= b6s@.take(n).push(b6s@[n]));
//@ post 0
            assert(b6s@.take(b6s@.len() as int) =~= b6s@);
//@ end
//@ fn dochy_compaction/src/url_string/char_and_b6.rs string_to_b6s -> r
            ensures
                (forall|i: int| 0 <= i < s@.len() ==> in_alphabet(#[trigger] s@[i])) <==> r is Some,
                r is Some ==> text_of(s@, r->0@),
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                it.seq() == s@,
                text_of(s@.take(it.index@ as int), result@),
//@ in 0
            let ghost n = it.index@ as int;
            assert(c == s@[n]);
//@ last 0
            assert(s@.take(n + 1) =~= s@.take(n).push(s@[n]));
//@ post 0
            proof {
                assert(s@.take(s@.len() as int) =~= s@);
                assert forall|i: int| 0 <= i < s@.len() implies in_alphabet(#[trigger] s@[i]) by { assert(result@[i] < 64 && alphabet(result@[i] as int) == s@[i]); }
            }
//@ end
    }

    use char_and_b6::*;
//@ fn dochy_compaction/src/url_string/mod.rs get_url_string -> r
        requires bytes@.len() <= usize::MAX / 8,
        ensures exists|g: Seq<u8>| is_groups(g, bytes@) && #[trigger] text_of(r@, g),
//@ end
//@ fn dochy_compaction/src/url_string/mod.rs get_bytes -> r
        requires url_string@.len() <= usize::MAX / 6,
        ensures
            (forall|i: int| 0 <= i < url_string@.len() ==> in_alphabet(#[trigger] url_string@[i])) <==> r is Some,
            r is Some ==> exists|g: Seq<u8>| #[trigger] text_of(url_string@, g) && is_bytes(r->0@, g),
//@ end

    /// the property, from the two contracts alone
    fn round_trip(bytes: &[u8])
        requires bytes@.len() <= usize::MAX / 8,
    {
        let s = get_url_string(bytes);
        proof {
            let g = choose|g: Seq<u8>| is_groups(g, bytes@) && #[trigger] text_of(s@, g);
            assert(s@.len() == (8 * bytes@.len() + 5) / 6);
            assert forall|i: int| 0 <= i < s@.len() implies in_alphabet(#[trigger] s@[i]) by { assert(g[i] < 64 && s@[i] == alphabet(g[i] as int)); }
        }
        let r = get_bytes(s.as_str());
        assert(r is Some);
        proof {
            let g = choose|g: Seq<u8>| is_groups(g, bytes@) && #[trigger] text_of(s@, g);
            let h = choose|h: Seq<u8>| #[trigger] text_of(s@, h) && is_bytes(r->0@, h);
            one_text(s@, g, h);
            there_and_back(bytes@, g, r->0@);
        }
        assert(r->0@ == bytes@);
    }
}
fn main() {}
}
