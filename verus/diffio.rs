#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_unsafe)]
// Unit: diffs written as values and read back (property 7).
use vstd::prelude::*;
use vstd::utf8::*;
use std::sync::Arc;

verus! {
global size_of usize == 8;

pub mod base {
    use super::*;
//@ include diff.inc
}

/// single values (also property 4: a single string)
pub mod kval {
    use super::*;
    use super::base::*;
    pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == encode_utf8(s@).len();
    // TRUSTED: to_string of a String is a copy
    pub trait ToText: Sized { fn to_text(&self) -> String; }
    impl ToText for String {
        #[verifier::external_body]
        fn to_text(&self) -> (r: String)
            ensures r@ == self@,
        { unimplemented!() }
    }
//@ include tokens.inc
    pub proof fn no_bytes(s: Seq<char>)
        ensures encode_utf8(s).len() == 0 <==> s.len() == 0,
    {
        encode_utf8_decode_utf8(s);
        let e = Seq::<char>::empty();
        assert(encode_utf8(e).len() == 0) by { assert(is_ascii_chars(e)); is_ascii_chars_encode_utf8(e); }
        encode_utf8_decode_utf8(e);
        if encode_utf8(s).len() == 0 { assert(encode_utf8(s) =~= encode_utf8(e)); }
        if s.len() == 0 { assert(s =~= e); }
    }
    impl KVal {
//@ fn dochy_compaction/src/kval_enum.rs KVal::as_i64 -> r
            ensures r == int_of(*self),
//@ end
//@ fn dochy_compaction/src/kval_enum.rs KVal::as_bool -> r
            ensures r == bool_of(*self),
//@ end
//@ fn dochy_compaction/src/kval_enum.rs KVal::as_string -> r
//@ sub \.to_string\(\) => .to_text()
            ensures match string_of(*self) { Some(s) => r is Some && r->0@ == s, None => r is None },
//@ end
        // ASSUMED: proved for every bit pattern by Kani together with comp_double (property 3)
        #[verifier::external_body]
        pub fn as_f64(&self) -> (r: Option<f64>)
            ensures r == float_of(*self),
        { unimplemented!() }
    }
//@ fn dochy_compaction/src/basic_compaction.rs comp_int -> r
        ensures int_of(r) == Some(int_), short(r),
//@ end
//@ fn dochy_compaction/src/basic_compaction.rs comp_str -> r
        ensures string_of(r) == Some(s@), short(r),
//@ start
        proof { no_bytes(s@); }
//@ end
    // ASSUMED: proved for every bit pattern by Kani (property 3)
    #[verifier::external_body]
    pub fn comp_double(num: f64) -> (r: KVal)
        ensures float_of(r) == Some(num), short(r),
    { unimplemented!() }

    pub trait OptToErr {
        fn ast_i64(&self) -> Result<i64, &'static str>;
        fn ast_bool(&self) -> Result<bool, &'static str>;
        fn ast_f64(&self) -> Result<f64, &'static str>;
        fn ast_string(&self) -> Result<String, &'static str>;
    }
    impl OptToErr for KVal {
//@ fn dochy_diff/src/diff_error.rs KVal::ast_i64 -> r
            ensures match int_of(*self) { Some(v) => r == Ok::<i64, &'static str>(v), None => r is Err },
//@ end
//@ fn dochy_diff/src/diff_error.rs KVal::ast_bool -> r
            ensures match bool_of(*self) { Some(v) => r == Ok::<bool, &'static str>(v), None => r is Err },
//@ end
//@ fn dochy_diff/src/diff_error.rs KVal::ast_f64 -> r
            ensures match float_of(*self) { Some(v) => r == Ok::<f64, &'static str>(v), None => r is Err },
//@ end
//@ fn dochy_diff/src/diff_error.rs KVal::ast_string -> r
            ensures match string_of(*self) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err },
//@ end
    }

    pub proof fn nothing(a: Seq<KVal>)
        ensures wrote(a, a, Seq::empty()),
    { }
    pub proof fn both(a: Seq<KVal>, b: Seq<KVal>, c: Seq<KVal>, s: Seq<T>, t: Seq<T>)
        requires wrote(a, b, s), wrote(b, c, t),
        ensures wrote(a, c, s + t),
    {
        assert forall|i: int| a.len() <= i < c.len() implies stands(#[trigger] c[i], (s + t)[i - a.len()]) && short(c[i]) by {
            if i < b.len() { assert(c[i] == b[i]); }
        }
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] by { assert(c[i] == b[i]); }
    }
    pub proof fn pushed(a: Seq<KVal>, b: Seq<KVal>, s: Seq<T>, t: T)
        requires wrote(a, b.drop_last(), s), b.len() > 0, stands(b.last(), t), short(b.last()),
        ensures wrote(a, b, s + seq![t]),
    {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] b[i] == a[i] by { assert(b[i] == b.drop_last()[i]); }
        assert forall|i: int| a.len() <= i < b.len() implies stands(#[trigger] b[i], (s + seq![t])[i - a.len()]) && short(b[i]) by {
            if i < b.len() - 1 { assert(b[i] == b.drop_last()[i]); }
        }
    }
    pub proof fn parts(a: Seq<KVal>, s: Seq<T>, t: Seq<T>)
        ensures starts(a, s + t) <==> starts(a, s) && starts(a.skip(s.len() as int), t), a.skip(s.len() as int).skip(t.len() as int) =~= a.skip((s + t).len() as int) || a.len() < (s + t).len(),
    {
        if starts(a, s + t) {
            assert forall|i: int| 0 <= i < s.len() implies stands(#[trigger] a[i], s[i]) && !(a[i] is BinaryArc) by { assert((s + t)[i] == s[i]); }
            let b = a.skip(s.len() as int);
            assert forall|i: int| 0 <= i < t.len() implies stands(#[trigger] b[i], t[i]) && !(b[i] is BinaryArc) by { assert((s + t)[i + s.len()] == t[i]); assert(b[i] == a[i + s.len()]); }
        }
        if starts(a, s) && starts(a.skip(s.len() as int), t) {
            let b = a.skip(s.len() as int);
            assert forall|i: int| 0 <= i < (s + t).len() implies stands(#[trigger] a[i], (s + t)[i]) && !(a[i] is BinaryArc) by {
                if i >= s.len() { assert(b[i - s.len()] == a[i]); }
            }
        }
    }
    pub proof fn casts()
        ensures
            forall|x: u64| #[trigger] (x as i64) as u64 == x,
            forall|x: usize| #[trigger] (x as i64) as usize == x,
            forall|x: i64| #[trigger] (x as u64) as i64 == x,
    {
        assert forall|x: u64| #[trigger] (x as i64) as u64 == x by { assert((x as i64) as u64 == x) by(bit_vector); }
        assert forall|x: usize| #[trigger] (x as i64) as usize == x by { assert((x as i64) as usize == x) by(bit_vector); }
        assert forall|x: i64| #[trigger] (x as u64) as i64 == x by { assert((x as u64) as i64 == x) by(bit_vector); }
    }
}

/// which members follow: one word, several words, or their numbers
pub mod ids {
    use super::*;
    use super::base::*;
    use super::kval::*;
//@ item dochy_diff/src/imp/write/store_ids.rs enum StoredIDs
//@ item dochy_diff/src/imp/write/store_ids.rs enum StoredIDsType
//@ sub ^\s*enum => pub enum
    pub open spec fn word(ks: Seq<usize>, w: int) -> u64
        decreases ks.len()
    {
        if ks.len() == 0 { 0 } else if ks.last() as int / 64 == w { word(ks.drop_last(), w) | (1u64 << ((ks.last() % 64) as u64)) } else { word(ks.drop_last(), w) }
    }
    pub open spec fn words(ks: Seq<usize>, n: nat) -> Seq<u64> { Seq::new(n, |w: int| word(ks, w)) }
    pub open spec fn has(ks: Seq<usize>, k: int) -> bool { exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k }
    pub proof fn bit(ks: Seq<usize>, w: int, j: u64)
        requires 0 <= w, j < 64,
        ensures word(ks, w) & (1u64 << j) != 0 <==> has(ks, 64 * w + j),
        decreases ks.len()
    {
        if ks.len() == 0 {
            assert(0u64 & (1u64 << j) == 0) by(bit_vector);
        } else {
            let p = ks.drop_last();
            bit(p, w, j);
            let x = word(p, w);
            let b = (ks.last() % 64) as u64;
            assert(has(p, 64 * w + j) ==> has(ks, 64 * w + j)) by {
                if has(p, 64 * w + j) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == 64 * w + j; assert(ks[i] == 64 * w + j); }
            }
            assert(has(ks, 64 * w + j) ==> has(p, 64 * w + j) || ks.last() == 64 * w + j) by {
                if has(ks, 64 * w + j) { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == 64 * w + j; if i < p.len() { assert(p[i] == 64 * w + j); } }
            }
            assert(ks.last() == 64 * w + j ==> has(ks, 64 * w + j)) by { assert(ks[ks.len() - 1] == ks.last()); }
            if ks.last() as int / 64 == w {
                assert((x | (1u64 << b)) & (1u64 << j) != 0 <==> x & (1u64 << j) != 0 || b == j) by(bit_vector) requires b < 64, j < 64;
                assert(ks.last() == 64 * w + j <==> b == j);
            } else {
                assert(ks.last() != 64 * w + j);
            }
        }
    }
    pub open spec fn below(ks: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] < n }
    pub open spec fn top(s: Seq<usize>) -> usize { if s.len() == 0 { 0 } else { s.last() } }
    pub open spec fn larger(a: usize, b: usize) -> usize { if a >= b { a } else { b } }

    /// the words with the numbers ks in place
    pub open spec fn hold(v: Seq<u64>, ks: Seq<usize>) -> bool { forall|w: int| 0 <= w < v.len() ==> #[trigger] v[w] == word(ks, w) }
    // TRUSTED: get_unchecked_mut, only for places the vector has
    #[verifier::external_body]
    pub fn place(v: &mut Vec<u64>, i: usize) -> (r: &mut u64)
        requires i < old(v)@.len(),
        ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
    { unimplemented!() }

    // which of the three is chosen is left open (any choice that can hold the numbers reads back)
    pub uninterp spec fn choice(max: usize, len: usize) -> StoredIDsType;
    pub open spec fn can_hold(c: StoredIDsType, max: usize, len: usize) -> bool {
        (c is Zero ==> len == 0) && (c is U64 ==> max < 64)
    }
//@ fn dochy_diff/src/imp/write/store_ids.rs calc_type -> r
        ensures can_hold(r, max, len),
//@ end
    // TRUSTED: as calc_type (under contract above) says for every pair
    #[verifier::external_body]
    pub proof fn choices(max: usize, len: usize) ensures can_hold(choice(max, len), max, len) { }
    // TRUSTED: calc_type (under contract above) answers the same to the same question
    #[verifier::external_body]
    pub fn calc_type_(max: usize, len: usize) -> (r: StoredIDsType)
        ensures r == choice(max, len), can_hold(r, max, len),
    { calc_type(max, len) }

//@ fn dochy_diff/src/imp/write/store_ids.rs update_bits
//@ sub \*r\.get_unchecked_mut\(ind\) => *place(r, ind)
        requires below(keys(map@), 64 * old(r)@.len() as int),
        ensures final(r)@.len() == old(r)@.len(), forall|p: Seq<usize>| #[trigger] hold(old(r)@, p) ==> hold(final(r)@, p + keys(map@)),
//@ next 0 it
//@ loops while
//@ pre 0
        let ghost ks = keys(map@);
        let ghost r0 = r@;
        let ghost mut n = 0int;
        proof { assert forall|p: Seq<usize>| #[trigger] hold(r0, p) implies hold(r@, p + ks.take(0)) by { assert(p + ks.take(0) =~= p); } }
//@ loop 0
            invariant
                0 <= n <= ks.len(), below(ks, 64 * r0.len() as int), it@ == ks.skip(n), r@.len() == r0.len(),
                forall|p: Seq<usize>| #[trigger] hold(r0, p) ==> hold(r@, p + ks.take(n)),
            ensures n == ks.len(),
            decreases it@.len(),
//@ in 0
            let ghost rb = r@;
            proof { assert(ks.skip(n).skip(1) =~= ks.skip(n + 1)); assert(ks[n] < 64 * r0.len() as int); }
//@ last 0
            proof {
                assert forall|p: Seq<usize>| #[trigger] hold(r0, p) implies hold(r@, p + ks.take(n + 1)) by {
                    let q = p + ks.take(n + 1);
                    assert(q.drop_last() =~= p + ks.take(n));
                    assert(q.last() == i);
                    assert forall|w: int| 0 <= w < r@.len() implies #[trigger] r@[w] == word(q, w) by { assert(rb[w] == word(p + ks.take(n), w)); }
                }
                n = n + 1;
            }
//@ post 0
        proof { assert(ks.take(n) =~= ks); }
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs get_bits -> r
        requires below(keys(params@), 64 * (max / 64 + 1)), below(keys(lists@), 64 * (max / 64 + 1)),
        ensures r@ == words(keys(params@) + keys(lists@), (max / 64 + 1) as nat),
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                r@.len() == it.index@, len < usize::MAX, it.seq().len() == len,
                forall|w: int| 0 <= w < r@.len() ==> r@[w] == 0,
//@ post 0
        proof { assert(hold(r@, Seq::empty())); assert(Seq::<usize>::empty() + keys(params@) =~= keys(params@)); assert forall|v: Seq<u64>| v.len() == len && hold(v, keys(params@) + keys(lists@)) implies v == #[trigger] words(keys(params@) + keys(lists@), v.len()) by { assert(v =~= words(keys(params@) + keys(lists@), v.len())); } }
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs get_bits_ref -> r
        requires below(keys(refs@), 64 * (max / 64 + 1)),
        ensures r@ == words(keys(refs@), (max / 64 + 1) as nat),
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                r@.len() == it.index@, len < usize::MAX, it.seq().len() == len,
                forall|w: int| 0 <= w < r@.len() ==> r@[w] == 0,
//@ post 0
        proof { assert(hold(r@, Seq::empty())); assert(Seq::<usize>::empty() + keys(refs@) =~= keys(refs@)); assert forall|v: Seq<u64>| v.len() == len && hold(v, keys(refs@)) implies v == #[trigger] words(keys(refs@), v.len()) by { assert(v =~= words(keys(refs@), v.len())); } }
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs update_numbers
        ensures final(r)@ == old(r)@ + keys(map@),
//@ next 0 it
//@ loops while
//@ pre 0
        let ghost ks = keys(map@);
        let ghost r0 = r@;
        let ghost mut n = 0int;
        proof { assert(r@ =~= r0 + ks.take(0)); }
//@ loop 0
            invariant
                0 <= n <= ks.len(), it@ == ks.skip(n), r@ == r0 + ks.take(n),
            ensures n == ks.len(),
            decreases it@.len(),
//@ in 0
            proof { assert(ks.skip(n).skip(1) =~= ks.skip(n + 1)); }
//@ last 0
            proof { assert(r@ =~= r0 + ks.take(n + 1)); n = n + 1; }
//@ post 0
        proof { assert(ks.take(n) =~= ks); }
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs get_numbers -> r
        ensures r@ == keys(params@) + keys(lists@),
//@ start
        proof { assert(Seq::<usize>::empty() + keys(params@) =~= keys(params@)); }
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs get_numbers_ref -> r
        ensures r@ == keys(refs@),
//@ start
        proof { assert(Seq::<usize>::empty() + keys(refs@) =~= keys(refs@)); }
//@ end
    pub proof fn tops<V>(s: Seq<(usize, V)>, max: usize)
        requires sorted(s), top(keys(s)) <= max,
        ensures below(keys(s), max + 1),
    {
        assert forall|i: int| 0 <= i < keys(s).len() implies #[trigger] keys(s)[i] <= max by {
            assert(s[i].0 <= s[s.len() - 1].0);
            assert(keys(s)[s.len() - 1] == s[s.len() - 1].0);
        }
    }
//@ fn dochy_diff/src/imp/write/store_ids.rs store_ids -> r
//@ sub \bcalc_type\( => calc_type_(
        requires params@.len() + lists@.len() <= usize::MAX,
        ensures is_ids(r, keys(params@), keys(lists@)),
//@ start
        proof {
            params.is_sorted();
            lists.is_sorted();
            let m = larger(top(keys(params@)), top(keys(lists@)));
            tops(params@, m);
            tops(lists@, m);
        }
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs store_ids_ref -> r
//@ sub \bcalc_type\( => calc_type_(
        ensures is_ids(r, keys(refs@), Seq::empty()),
//@ start
        proof {
            refs.is_sorted();
            tops(refs@, top(keys(refs@)));
            let ks = keys(refs@);
            assert(Seq::<usize>::empty() + ks =~= ks);
            assert(ks + Seq::<usize>::empty() =~= ks);
            assert(word(Seq::empty(), 0) == 0);
        }
//@ end
//@ fn dochy_diff/src/imp/write/write_store_ids.rs write_stored_ids
        ensures forall|a: Seq<usize>, b: Seq<usize>| is_ids(*s, a, b) ==> wrote(old(r)@, final(r)@, #[trigger] ids_ts(a, b)),
//@ loops for for
//@ iter 0 it
//@ iter 1 it
//@ start
        proof { casts(); }
        let ghost r0 = r@;
//@ loop 0
            invariant
                b@ == s->Bits_0@, it.seq() == b@.map_values(|x: u64| &x),
                wrote(r0, r@, seq![T::B(false), T::B(true), T::I(b@.len() as i64)] + ints(b@.take(it.index@))),
//@ pre 0
            proof { assert(ints(b@.take(0)) =~= Seq::empty()); assert(seq![T::B(false), T::B(true), T::I(b@.len() as i64)] + Seq::empty() =~= seq![T::B(false), T::B(true), T::I(b@.len() as i64)]); }
//@ in 0
            let ghost rb = r@;
//@ last 0
            proof {
                assert(r@.drop_last() =~= rb);
                let k = it.index@;
                pushed(r0, r@, seq![T::B(false), T::B(true), T::I(b@.len() as i64)] + ints(b@.take(k)), T::I(b@[k] as i64));
                assert(seq![T::B(false), T::B(true), T::I(b@.len() as i64)] + ints(b@.take(k)) + seq![T::I(b@[k] as i64)] =~= seq![T::B(false), T::B(true), T::I(b@.len() as i64)] + ints(b@.take(k + 1)));
            }
//@ post 0
            proof { assert(b@.take(b@.len() as int) =~= b@); }
//@ loop 1
            invariant
                n@ == s->Numbers_0@, it.seq() == n@.map_values(|x: usize| &x),
                wrote(r0, r@, seq![T::B(false), T::B(false), T::I(n@.len() as i64)] + numbers(n@.take(it.index@))),
//@ pre 1
            proof { assert(numbers(n@.take(0)) =~= Seq::empty()); assert(seq![T::B(false), T::B(false), T::I(n@.len() as i64)] + Seq::empty() =~= seq![T::B(false), T::B(false), T::I(n@.len() as i64)]); }
//@ in 1
            let ghost rb = r@;
//@ last 1
            proof {
                assert(r@.drop_last() =~= rb);
                let k = it.index@;
                pushed(r0, r@, seq![T::B(false), T::B(false), T::I(n@.len() as i64)] + numbers(n@.take(k)), T::I(n@[k] as i64));
                assert(seq![T::B(false), T::B(false), T::I(n@.len() as i64)] + numbers(n@.take(k)) + seq![T::I(n@[k] as i64)] =~= seq![T::B(false), T::B(false), T::I(n@.len() as i64)] + numbers(n@.take(k + 1)));
            }
//@ post 1
            proof { assert(n@.take(n@.len() as int) =~= n@); }
//@ end

    pub open spec fn is_ids(s: StoredIDs, a: Seq<usize>, b: Seq<usize>) -> bool {
        let max = larger(top(a), top(b));
        match choice(max, (a.len() + b.len()) as usize) {
            StoredIDsType::Zero => s is Zero && a.len() == 0 && b.len() == 0,
            StoredIDsType::U64 => s is U64 && s->U64_0 == word(a + b, 0) && below(a + b, 64),
            StoredIDsType::Bits => s is Bits && s->Bits_0@ == words(a + b, (max / 64 + 1) as nat) && below(a + b, 64 * (max / 64 + 1)),
            StoredIDsType::Numbers => s is Numbers && s->Numbers_0@ == a + b,
        }
    }
    pub open spec fn ints(s: Seq<u64>) -> Seq<T> { Seq::new(s.len(), |i: int| T::I(s[i] as i64)) }
    pub open spec fn numbers(s: Seq<usize>) -> Seq<T> { Seq::new(s.len(), |i: int| T::I(s[i] as i64)) }
    pub open spec fn ids_ts(a: Seq<usize>, b: Seq<usize>) -> Seq<T> {
        let max = larger(top(a), top(b));
        match choice(max, (a.len() + b.len()) as usize) {
            StoredIDsType::Zero => seq![T::B(true), T::I(0)],
            StoredIDsType::U64 => seq![T::B(true), T::I(word(a + b, 0) as i64)],
            StoredIDsType::Bits => seq![T::B(false), T::B(true), T::I((max / 64 + 1) as i64)] + ints(words(a + b, (max / 64 + 1) as nat)),
            StoredIDsType::Numbers => seq![T::B(false), T::B(false), T::I((a.len() + b.len()) as i64)] + numbers(a + b),
        }
    }

//@ fn dochy_diff/src/imp/write/store_ids.rs max_and_len -> r
        ensures r.0 == top(keys(map@)), r.1 == map@.len(),
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs update_max_and_len
        requires *old(len) + map@.len() <= usize::MAX,
        ensures *final(len) == *old(len) + map@.len(), *final(max) == larger(*old(max), top(keys(map@))),
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs update_u64
        requires below(keys(map@), 64),
        ensures forall|p: Seq<usize>| *old(r) == word(p, 0) ==> *final(r) == #[trigger] word(p + keys(map@), 0),
//@ next 0 it
//@ loops while
//@ pre 0
        let ghost ks = keys(map@);
        let ghost r0 = *r;
        let ghost mut n = 0int;
        proof { assert forall|p: Seq<usize>| r0 == word(p, 0) implies *r == #[trigger] word(p + ks.take(0), 0) by { assert(p + ks.take(0) =~= p); } }
//@ loop 0
            invariant
                0 <= n <= ks.len(), below(ks, 64), it@ == ks.skip(n),
                forall|p: Seq<usize>| r0 == word(p, 0) ==> *r == #[trigger] word(p + ks.take(n), 0),
            ensures n == ks.len(),
            decreases it@.len(),
//@ in 0
            let ghost rb = *r;
            proof { assert(ks.skip(n).skip(1) =~= ks.skip(n + 1)); assert(ks[n] < 64); }
//@ last 0
            proof {
                assert forall|p: Seq<usize>| r0 == word(p, 0) implies *r == #[trigger] word(p + ks.take(n + 1), 0) by {
                    assert((p + ks.take(n + 1)).drop_last() =~= p + ks.take(n));
                    assert((p + ks.take(n + 1)).last() == i && i < 64 && i % 64 == i);
                    assert(rb == word(p + ks.take(n), 0));
                }
                n = n + 1;
            }
//@ post 0
        proof { assert(ks.take(n) =~= ks); }
//@ end
//@ fn dochy_diff/src/imp/write/store_ids.rs get_u64 -> r
        requires below(keys(params@), 64), below(keys(lists@), 64),
        ensures r == word(keys(params@) + keys(lists@), 0),
//@ start
        proof { assert(Seq::<usize>::empty() + keys(params@) =~= keys(params@)); assert(word(Seq::empty(), 0) == 0); }
//@ end
}

/// the values a diff is written as
pub mod tokens {
    use super::*;
    use super::base::*;
    use super::kval::*;
    use super::ids::*;
    // TRUSTED: a double is determined by its bits
    pub uninterp spec fn bits(f: f64) -> u64;
    pub uninterp spec fn of_bits(u: u64) -> f64;
    #[verifier::external_body]
    pub broadcast proof fn bits_back(f: f64) ensures #[trigger] of_bits(bits(f)) == f { }

    pub open spec fn content_ts(c: Content) -> Seq<T> {
        match c {
            Content::Bool(b) => seq![T::B(b)],
            Content::Int(i) => seq![T::I(i)],
            Content::Float(f) => seq![T::F(f)],
            Content::Str(s) => seq![T::S(s)],
            Content::Ints(s) => seq![T::W(Seq::new(s.len(), |i: int| s[i] as u64))],
            Content::Floats(s) => seq![T::W(Seq::new(s.len(), |i: int| bits(s[i])))],
            Content::Bytes(s) => seq![T::Y(s)],
            _ => Seq::empty(),
        }
    }
    pub open spec fn flags(vt: VarType, null: bool, undefined: bool) -> Seq<T> {
        match vt {
            VarType::Normal => Seq::empty(),
            VarType::Nullable => if null { seq![T::B(false)] } else { seq![T::B(true)] },
            VarType::Undefiable => if undefined { seq![T::B(false)] } else { seq![T::B(true)] },
            VarType::UndefNullable => if null { seq![T::B(false), T::B(true)] } else if undefined { seq![T::B(false), T::B(false)] } else { seq![T::B(true)] },
        }
    }
    pub open spec fn value_ts(v: Value, vt: VarType) -> Seq<T> { flags(vt, v.c is Null, v.c is Undefined) + content_ts(v.c) }
    pub open spec fn id_ts(v: Id, vt: VarType) -> Seq<T> {
        flags(vt, v is Null, v is Undefined) + (match v { Id::Val(s) => seq![T::S(s)], _ => Seq::empty() })
    }
    pub open spec fn vt_at(m: MetaTable, id: usize) -> VarType {
        match meta_at(m, id) { Some((_, MetaValue::Param(p))) => p.var_type, _ => VarType::Normal }
    }
    /// those from the n-th on
    pub open spec fn params_ts(s: Seq<(usize, Value)>, n: int, m: MetaTable) -> Seq<T>
        decreases s.len() - n
    {
        if n < 0 || n >= s.len() { Seq::empty() } else { value_ts(s[n].1, vt_at(m, s[n].0)) + params_ts(s, n + 1, m) }
    }
    pub open spec fn refs_from(s: Seq<(usize, Id)>, n: int, m: MetaTable) -> Seq<T>
        decreases s.len() - n
    {
        if n < 0 || n >= s.len() { Seq::empty() } else { id_ts(s[n].1, vt_at(m, s[n].0)) + refs_from(s, n + 1, m) }
    }
    pub open spec fn refs_ts(s: Seq<(usize, Id)>, m: MetaTable) -> Seq<T> { ids_ts(keys(s), Seq::empty()) + refs_from(s, 0, m) }
    pub open spec fn list_ts(d: ListDiff, m: MetaTables) -> Seq<T>
        decreases d, 1nat, 0int
    {
        seq![T::I(d.items.len() as i64), T::I(d.next as i64)] + changes_ts(d, 0, m)
    }
    pub open spec fn changes_ts(d: ListDiff, n: int, m: MetaTables) -> Seq<T>
        decreases d, 0nat, d.items.len() - n
    {
        if n < 0 || n >= d.items.len() { Seq::empty() } else { seq![T::I(d.items[n].0 as i64)] + change_ts(d.items[n].1, m) + changes_ts(d, n + 1, m) }
    }
    pub open spec fn prev_ts(p: Option<u64>) -> Seq<T> { match p { Some(i) => seq![T::B(true), T::I(i as i64)], None => seq![T::B(false)] } }
    pub open spec fn change_ts(c: Change, m: MetaTables) -> Seq<T>
        decreases c, 0nat, 0int
    {
        match c {
            Change::Modify(x) => seq![T::B(true)] + item_ts(x, m),
            Change::Create(p, x) => seq![T::B(false), T::B(true)] + (prev_ts(p) + item_ts(x, m)),
            Change::Delete => seq![T::B(false), T::B(false)],
        }
    }
    pub open spec fn item_ts(d: ItemDiff, m: MetaTables) -> Seq<T>
        decreases d, 1nat, 0int
    {
        ids_ts(keys(d.params), keys(d.lists)) + (params_ts(d.params, 0, m.items) + (lists_ts(d, 0, m.items) + refs_ts(d.refs, m.refs)))
    }
    pub open spec fn opt_ts(l: Option<ListDiff>, v: MetaValue) -> Seq<T>
        decreases l, 0nat, 0int
    {
        match (v, l) {
            (MetaValue::MList(t), Some(l)) => list_ts(l, t),
            (MetaValue::OptMil(t), Some(l)) => seq![T::B(true)] + list_ts(l, t),
            (MetaValue::OptMil(t), None) => seq![T::B(false)],
            _ => Seq::empty(),
        }
    }
    pub open spec fn lists_ts(d: ItemDiff, n: int, m: MetaTable) -> Seq<T>
        decreases d, 0nat, d.lists.len() - n
    {
        if n < 0 || n >= d.lists.len() { Seq::empty() } else {
            (match meta_at(m, d.lists[n].0) { Some((_, v)) => opt_ts(d.lists[n].1, v), None => Seq::empty() }) + lists_ts(d, n + 1, m)
        }
    }
    pub open spec fn change_fits(d: Change, m: MetaTables) -> bool {
        match d { Change::Delete => true, Change::Create(_, x) => item_fits(x, m), Change::Modify(x) => item_fits(x, m) }
    }
    pub open spec fn opt_fits(l: Option<ListDiff>, v: MetaValue) -> bool {
        match (v, l) { (MetaValue::MList(t), Some(l)) => list_fits(l, t), (MetaValue::OptMil(t), Some(l)) => list_fits(l, t), (MetaValue::OptMil(t), None) => true, _ => false }
    }
    pub open spec fn root_ts(d: ItemDiff, m: MetaTable) -> Seq<T> {
        ids_ts(keys(d.params), keys(d.lists)) + (params_ts(d.params, 0, m) + lists_ts(d, 0, m))
    }
}

pub mod write {
    use super::*;
    use super::base::*;
    use super::kval::*;
    use super::ids::*;
    use super::tokens::*;
    pub trait ToBits: Sized { fn to_bits_(&self) -> u64; }
    impl ToBits for f64 {
        // TRUSTED: f64::to_bits
        #[verifier::external_body]
        fn to_bits_(&self) -> (r: u64)
            ensures r == bits(*self),
        { unimplemented!() }
    }
    // TRUSTED: clone of Arc
    #[verifier::external_body]
    pub fn arc_clone(a: &Arc<Vec<u8>>) -> (r: Arc<Vec<u8>>)
        ensures r == *a,
    { a.clone() }
    pub open spec fn as_word(i: i64) -> u64 { i as u64 }
//@ fn dochy_diff/src/imp/write/write_param.rs write_int_array
//@ sub a\.vec\(\)\.iter\(\)\.map\(\|i\| (.*)\)\.collect\(\) => { let v_ = a.vec(); let mut c_: Vec<u64> = Vec::new(); for i in it_: v_ invariant it_.seq() == v_@.map_values(|x: i64| &x), c_@.len() == it_.index@, forall|k: int| 0 <= k < c_@.len() ==> #[trigger] c_@[k] == as_word(v_@[k]) { c_.push(\1); } c_ }
        ensures wrote(old(r)@, final(r)@, content_ts(Content::Ints(a.b@))),
//@ end
//@ fn dochy_diff/src/imp/write/write_param.rs write_float_array
//@ sub a\.vec\(\)\.iter\(\)\.map\(\|i\| (.*)\)\.collect\(\) => { let v_ = a.vec(); let mut c_: Vec<u64> = Vec::new(); for i in it_: v_ invariant it_.seq() == v_@.map_values(|x: f64| &x), c_@.len() == it_.index@, forall|k: int| 0 <= k < c_@.len() ==> #[trigger] c_@[k] == bits(v_@[k]) { c_.push(\1); } c_ }
//@ sub \.to_bits\( => .to_bits_(
        ensures wrote(old(r)@, final(r)@, content_ts(Content::Floats(a.b@))),
//@ end
//@ fn dochy_diff/src/imp/write/write_param.rs write_binary
//@ sub a\.arc\(\)\.clone\(\) => arc_clone(a.arc())
        ensures wrote(old(r)@, final(r)@, content_ts(Content::Bytes(a.b@))),
//@ end
//@ fn dochy_diff/src/imp/write/write_param.rs write_param2 -> res
        requires state_of(*param) == QvType::Val,
        ensures res is Ok, wrote(old(r)@, final(r)@, content_ts(value_of(*param).c)),
//@ end
//@ fn dochy_diff/src/imp/write/write_param.rs write_param -> res
        requires admits(meta.var_type, state_of(*param) == QvType::Null, state_of(*param) == QvType::Undefined),
        ensures res is Ok, wrote(old(r)@, final(r)@, value_ts(value_of(*param), meta.var_type)),
//@ start
        let ghost r0 = r@;
        let ghost c = value_of(*param).c;
        proof {
            assert(Seq::<T>::empty() + content_ts(c) =~= content_ts(c));
            assert forall|f: Seq<T>, b: Seq<KVal>, x: Seq<KVal>| wrote(r0, b, f) && #[trigger] wrote(b, x, content_ts(c)) implies wrote(r0, x, #[trigger] (f + content_ts(c))) by { both(r0, b, x, f, content_ts(c)); }
        }
//@ end
//@ fn dochy_diff/src/imp/write/write_root.rs write_params -> res
//@ param Ghost(d): Ghost<Seq<(usize, Value)>>
//@ sub in\s+params\b => in params.iter()
        requires params_w(params@, d), params_fit(d, *meta),
        ensures res is Ok, wrote(old(r)@, final(r)@, params_ts(d, 0, *meta)),
//@ next 0 it
//@ loops while
//@ pre 0
        let ghost r0 = r@;
        let ghost ps = params@;
        let ghost mut n = 0int;
        let ghost mut done: Seq<T> = Seq::empty();
        proof { assert(done + params_ts(d, 0, *meta) =~= params_ts(d, 0, *meta)); }
//@ loop 0
            invariant
                0 <= n <= ps.len(), it@ == ps.skip(n), params_w(ps, d), params_fit(d, *meta),
                wrote(r0, r@, done), done + params_ts(d, n, *meta) == params_ts(d, 0, *meta),
            ensures n == ps.len(),
            decreases it@.len(),
//@ in 0
            let ghost rb = r@;
            proof { assert(ps.skip(n).skip(1) =~= ps.skip(n + 1)); assert(ps[n].0 == d[n].0 && param_fits(d[n].1, *meta, d[n].0)); }
//@ last 0
            proof {
                let one = value_ts(d[n].1, vt_at(*meta, d[n].0));
                both(r0, rb, r@, done, one);
                assert((done + one) + params_ts(d, n + 1, *meta) =~= done + params_ts(d, n, *meta));
                done = done + one;
                n = n + 1;
            }
//@ post 0
        proof { assert(done + params_ts(d, n, *meta) =~= done); }
//@ end
//@ fn dochy_diff/src/imp/write/write_refs.rs write_val -> res
//@ sub \.to_string\(\) => .to_text()
        requires state(*s) == QvType::Val,
        ensures res is Ok, id_of(*s) is Val && wrote(old(r)@, final(r)@, seq![T::S(id_of(*s)->Val_0)]),
//@ end
//@ fn dochy_diff/src/imp/write/write_refs.rs write_refs2 -> res
//@ param Ghost(d): Ghost<Seq<(usize, Id)>>
//@ sub in\s+refs\b => in refs.iter()
        requires refs_w(refs@, d), refs_fit(d, *meta),
        ensures res is Ok, wrote(old(r)@, final(r)@, refs_from(d, 0, *meta)),
//@ next 0 it
//@ loops while
//@ pre 0
        let ghost r0 = r@;
        let ghost ps = refs@;
        let ghost mut n = 0int;
        let ghost mut done: Seq<T> = Seq::empty();
        proof { assert(done + refs_from(d, 0, *meta) =~= refs_from(d, 0, *meta)); }
//@ loop 0
            invariant
                0 <= n <= ps.len(), it@ == ps.skip(n), refs_w(ps, d), refs_fit(d, *meta),
                wrote(r0, r@, done), done + refs_from(d, n, *meta) == refs_from(d, 0, *meta),
            ensures n == ps.len(),
            decreases it@.len(),
//@ in 0
            let ghost rb = r@;
            proof {
                assert(ps.skip(n).skip(1) =~= ps.skip(n + 1));
                assert(ps[n].0 == d[n].0 && id_of(*ps[n].1) == d[n].1 && ref_fits(d[n].1, *meta, d[n].0));
                assert forall|f: Seq<T>, b: Seq<KVal>, x: Seq<KVal>, g: Seq<T>| wrote(rb, b, f) && #[trigger] wrote(b, x, g) implies wrote(rb, x, #[trigger] (f + g)) by { both(rb, b, x, f, g); }
            }
//@ last 0
            proof {
                let one = id_ts(d[n].1, vt_at(*meta, d[n].0));
                assert(wrote(rb, r@, one)) by {
                    let f = flags(vt_at(*meta, d[n].0), d[n].1 is Null, d[n].1 is Undefined);
                    if d[n].1 is Val { assert(one == f + seq![T::S(d[n].1->Val_0)]); } else { assert(one =~= f); }
                }
                both(r0, rb, r@, done, one);
                assert((done + one) + refs_from(d, n + 1, *meta) =~= done + refs_from(d, n, *meta));
                done = done + one;
                n = n + 1;
            }
//@ post 0
        proof { assert(done + refs_from(d, n, *meta) =~= done); }
//@ end
//@ fn dochy_diff/src/imp/write/write_refs.rs write_refs -> res
//@ param Ghost(d): Ghost<Seq<(usize, Id)>>
//@ pass write_refs2 Ghost(d)
        requires refs_w(refs@, d), refs_fit(d, *meta),
        ensures res is Ok, wrote(old(r)@, final(r)@, refs_ts(d, *meta)),
//@ start
        let ghost r0 = r@;
        proof {
            let e = Seq::<usize>::empty();
            assert(keys(refs@) =~= keys(d));
            let a = ids_ts(keys(d), e);
            let b = refs_from(d, 0, *meta);
            assert forall|m: Seq<KVal>, x: Seq<KVal>| wrote(r0, m, a) && #[trigger] wrote(m, x, b) implies wrote(r0, x, a + b) by { both(r0, m, x, a, b); }
            if d.len() == 0 { assert(a + b =~= a); }
            assert forall|s: StoredIDs| s is Zero && is_ids(s, keys(d), e) implies d.len() == 0 by { assert(keys(d).len() == 0); }
        }
//@ end
    impl<'a> ListDiffW<'a> {
//@ fn dochy_diff/src/imp/structs_write.rs ListDiffW::items -> r
            ensures *r == self.items,
//@ end
//@ fn dochy_diff/src/imp/structs_write.rs ListDiffW::meta -> r
            ensures *r == *self.meta,
//@ end
//@ fn dochy_diff/src/imp/structs_write.rs ListDiffW::next_id -> r
            ensures r == self.next_id,
//@ end
    }
    impl<'a> ListItemDiffW<'a> {
//@ fn dochy_diff/src/imp/structs_write.rs ListItemDiffW::params -> r
            ensures *r == self.params,
//@ end
//@ fn dochy_diff/src/imp/structs_write.rs ListItemDiffW::refs -> r
            ensures *r == self.refs,
//@ end
//@ fn dochy_diff/src/imp/structs_write.rs ListItemDiffW::lists -> r
            ensures *r == self.lists,
//@ end
    }
    impl<'a> RootDiffW<'a> {
//@ fn dochy_diff/src/imp/structs_write.rs RootDiffW::params -> r
            ensures *r == self.params,
//@ end
//@ fn dochy_diff/src/imp/structs_write.rs RootDiffW::lists -> r
            ensures *r == self.lists,
//@ end
//@ fn dochy_diff/src/imp/structs_write.rs RootDiffW::meta_table -> r
            ensures *r == *self.meta_table,
//@ end
    }
    pub open spec fn change_w(w: ListItemDiffEnumW, d: Change, m: MetaTables) -> bool {
        match (w, d) {
            (ListItemDiffEnumW::Delete, Change::Delete) => true,
            (ListItemDiffEnumW::Create(b), Change::Create(p, x)) => b.prev_id == p && item_w(b.diff, x, m),
            (ListItemDiffEnumW::Modify(b), Change::Modify(x)) => item_w(b, x, m),
            _ => false,
        }
    }
//@ fn dochy_diff/src/imp/write/write_list.rs write_list -> res
//@ param Ghost(d): Ghost<ListDiff>
//@ pass write_list_item Ghost(d.items[n].1)
        requires list_w(*l, d, *l.meta), list_fits(d, *l.meta),
        ensures res is Ok, wrote(old(r)@, final(r)@, list_ts(d, *l.meta)),
        decreases d, 2nat,
//@ loops for
//@ iter 0 it
//@ start
        let ghost r0 = r@;
//@ pre 0
        let ghost mut n = 0int;
        let ghost mut done: Seq<T> = seq![T::I(d.items.len() as i64), T::I(d.next as i64)];
        proof { assert(wrote(r0, r@, done)); }
//@ loop 0
            invariant
                n == it.index@, it.seq() == items@.map_values(|x: (u64, ListItemDiffEnumW)| &x), items@ == l.items@, *meta == *l.meta,
                list_w(*l, d, *l.meta), list_fits(d, *l.meta),
                wrote(r0, r@, done), done + changes_ts(d, n, *meta) == list_ts(d, *meta),
//@ in 0
            let ghost rb = r@;
            proof {
                assert(items@[n].0 == d.items[n].0 && change_w(items@[n].1, d.items[n].1, *meta) && change_fits(d.items[n].1, *meta));
                let a = seq![T::I(d.items[n].0 as i64)];
                let b = change_ts(d.items[n].1, *meta);
                assert forall|m: Seq<KVal>, x: Seq<KVal>| wrote(rb, m, a) && #[trigger] wrote(m, x, b) implies wrote(rb, x, a + b) by { both(rb, m, x, a, b); }
            }
//@ last 0
            proof {
                let one = seq![T::I(d.items[n].0 as i64)] + change_ts(d.items[n].1, *meta);
                both(r0, rb, r@, done, one);
                assert((done + one) + changes_ts(d, n + 1, *meta) =~= done + changes_ts(d, n, *meta));
                done = done + one;
                n = n + 1;
            }
//@ post 0
        proof { assert(done + changes_ts(d, n, *meta) =~= done); }
//@ end
#[verifier::spinoff_prover]
//@ fn dochy_diff/src/imp/write/write_list.rs write_list_item -> res
//@ param Ghost(d): Ghost<Change>
//@ pass write_list_item2 Ghost(d->Modify_0)
//@ pass write_bs Ghost(d->Create_0), Ghost(d->Create_1)
        requires change_w(*item, d, *meta), change_fits(d, *meta),
        ensures res is Ok, wrote(old(r)@, final(r)@, change_ts(d, *meta)),
        decreases d, 2nat,
//@ start
        let ghost r0 = r@;
        proof { assert forall|f: Seq<T>, b: Seq<KVal>, x: Seq<KVal>, g: Seq<T>| wrote(r0, b, f) && #[trigger] wrote(b, x, g) implies wrote(r0, x, #[trigger] (f + g)) by { both(r0, b, x, f, g); } }
//@ end
//@ fn dochy_diff/src/imp/write/write_list.rs write_bs -> res
//@ param Ghost(p): Ghost<Option<u64>>, Ghost(d): Ghost<ItemDiff>
//@ pass write_list_item2 Ghost(d)
        requires bs.prev_id == p, item_w(bs.diff, d, *meta), item_fits(d, *meta),
        ensures res is Ok, wrote(old(r)@, final(r)@, prev_ts(p) + item_ts(d, *meta)),
        decreases d, 3nat,
//@ start
        let ghost r0 = r@;
        proof { assert forall|f: Seq<T>, b: Seq<KVal>, x: Seq<KVal>, g: Seq<T>| wrote(r0, b, f) && #[trigger] wrote(b, x, g) implies wrote(r0, x, #[trigger] (f + g)) by { both(r0, b, x, f, g); } }
//@ end
    /// params and lists together can be counted
    pub proof fn counted(d: ItemDiff, m: MetaTable)
        requires params_fit(d.params, m), lists_fit(d.lists, m),
        ensures d.params.len() + d.lists.len() <= usize::MAX,
    {
        assert(m.table@.len() == m.table.len());
        let a = keys(d.params);
        let b = keys(d.lists);
        let c = a + b;
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < m.table@.len() && (meta_at(m, a[i])->0).1 is Param by { assert(param_fits(d.params[i].1, m, d.params[i].0)); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < m.table@.len() && !((meta_at(m, b[i])->0).1 is Param) by { assert(meta_at(m, d.lists[i].0) is Some); }
        assert(c.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
                if i < a.len() && j < a.len() { assert(d.params[i].0 != d.params[j].0) by { if i < j { } else { } } }
                else if i >= a.len() && j >= a.len() { let x = i - a.len(); let y = j - a.len(); assert(d.lists[x].0 != d.lists[y].0) by { if x < y { } else { } } }
                else if i < a.len() { assert(c[j] == b[j - a.len()]); assert(c[i] == a[i]); }
                else { assert(c[i] == b[i - a.len()]); assert(c[j] == a[j]); }
            }
        }
        let s = c.to_set();
        c.unique_seq_to_set();
        let all = vstd::set_lib::set_int_range(0, m.table@.len() as int);
        vstd::set_lib::lemma_int_range(0, m.table@.len() as int);
        let t = s.map(|x: usize| x as int);
        vstd::set_lib::lemma_map_size(s, t, |x: usize| x as int);
        assert(t.subset_of(all)) by {
            assert forall|x: int| t.contains(x) implies all.contains(x) by {
                let u = choose|u: usize| s.contains(u) && u as int == x;
                assert(c.contains(u));
                let i = choose|i: int| 0 <= i < c.len() && c[i] == u;
                if i < a.len() { assert(a[i] < m.table@.len()); } else { assert(b[i - a.len()] < m.table@.len()); }
            }
        }
        vstd::set_lib::lemma_len_subset(t, all);
    }
#[verifier::spinoff_prover]
//@ fn dochy_diff/src/imp/write/write_list.rs write_list_item2 -> res
//@ param Ghost(d): Ghost<ItemDiff>
//@ pass write_params Ghost(d.params)
//@ pass write_ld_lists Ghost(d)
//@ pass write_refs Ghost(d.refs)
        requires item_w(*ld, d, *meta), item_fits(d, *meta),
        ensures res is Ok, wrote(old(r)@, final(r)@, item_ts(d, *meta)),
        decreases d, 2nat,
//@ start
        let ghost r0 = r@;
        proof {
            assert(lists_w(ld.lists@, d.lists, meta.items));
            assert(lists_fit(d.lists, meta.items));
            counted(d, meta.items);
            assert(keys(ld.params@) =~= keys(d.params));
            assert(keys(ld.lists@) =~= keys(d.lists));
            let i = ids_ts(keys(d.params), keys(d.lists));
            let p = params_ts(d.params, 0, meta.items);
            let l = lists_ts(d, 0, meta.items);
            let f = refs_ts(d.refs, meta.refs);
            assert forall|x1: Seq<KVal>, x2: Seq<KVal>, x3: Seq<KVal>, x4: Seq<KVal>| wrote(r0, x1, i) && #[trigger] wrote(x1, x2, p) && #[trigger] wrote(x2, x3, l) && #[trigger] wrote(x3, x4, f) implies wrote(r0, x4, i + (p + (l + f))) by {
                both(x2, x3, x4, l, f);
                both(x1, x2, x4, p, l + f);
                both(r0, x1, x4, i, p + (l + f));
            }
            if d.params.len() == 0 && d.lists.len() == 0 {
                assert(p + (l + f) =~= f);
                assert forall|x1: Seq<KVal>, x2: Seq<KVal>| wrote(r0, x1, i) && #[trigger] wrote(x1, x2, f) implies wrote(r0, x2, i + f) by { both(r0, x1, x2, i, f); }
            }
            assert(keys(d.params).len() == d.params.len() && keys(d.lists).len() == d.lists.len());
        }
//@ end
#[verifier::spinoff_prover]
//@ fn dochy_diff/src/imp/write/write_list.rs write_ld_lists -> res
//@ param Ghost(d): Ghost<ItemDiff>
//@ sub in\s+lists\b => in lists.iter()
//@ pass write_list Ghost(d.lists[n].1->0)
        requires lists_w(lists@, d.lists, *meta), lists_fit(d.lists, *meta),
        ensures res is Ok, wrote(old(r)@, final(r)@, lists_ts(d, 0, *meta)),
        decreases d, 1nat,
//@ next 0 it
//@ loops while
//@ pre 0
        let ghost r0 = r@;
        let ghost ps = lists@;
        let ghost mut n = 0int;
        let ghost mut done: Seq<T> = Seq::empty();
        proof { assert(done + lists_ts(d, 0, *meta) =~= lists_ts(d, 0, *meta)); }
//@ loop 0
            invariant
                0 <= n <= ps.len(), it@ == ps.skip(n), lists_w(ps, d.lists, *meta), lists_fit(d.lists, *meta),
                wrote(r0, r@, done), done + lists_ts(d, n, *meta) == lists_ts(d, 0, *meta),
            ensures n == ps.len(),
            decreases it@.len(),
//@ in 0
            let ghost rb = r@;
            proof {
                assert(ps.skip(n).skip(1) =~= ps.skip(n + 1));
                assert(ps[n].0 == d.lists[n].0 && meta_at(*meta, d.lists[n].0) is Some);
                assert forall|f: Seq<T>, b: Seq<KVal>, x: Seq<KVal>, g: Seq<T>| wrote(rb, b, f) && #[trigger] wrote(b, x, g) implies wrote(rb, x, #[trigger] (f + g)) by { both(rb, b, x, f, g); }
            }
//@ last 0
            proof {
                let one = opt_ts(d.lists[n].1, (meta_at(*meta, d.lists[n].0)->0).1);
                both(r0, rb, r@, done, one);
                assert((done + one) + lists_ts(d, n + 1, *meta) =~= done + lists_ts(d, n, *meta));
                done = done + one;
                n = n + 1;
            }
//@ post 0
        proof { assert(done + lists_ts(d, n, *meta) =~= done); }
//@ end
//@ fn dochy_diff/src/imp/write/write_root.rs write_root -> res
//@ param Ghost(d): Ghost<ItemDiff>
//@ sub? Vec::with_capacity\(.*\); => Vec::new();
//@ pass write_params Ghost(d.params)
//@ pass write_ld_lists Ghost(d)
        requires params_w(root.params@, d.params), lists_w(root.lists@, d.lists, *root.meta_table), params_fit(d.params, *root.meta_table), lists_fit(d.lists, *root.meta_table),
        ensures res is Ok, wrote(Seq::empty(), res->Ok_0@, root_ts(d, *root.meta_table)),
//@ start
        let ghost r0 = Seq::<KVal>::empty();
        let ghost mt = *root.meta_table;
        proof {
            counted(d, mt);
            assert(keys(root.params@) =~= keys(d.params));
            assert(keys(root.lists@) =~= keys(d.lists));
            let i = ids_ts(keys(d.params), keys(d.lists));
            let p = params_ts(d.params, 0, mt);
            let l = lists_ts(d, 0, mt);
            assert forall|x1: Seq<KVal>, x2: Seq<KVal>, x3: Seq<KVal>| wrote(r0, x1, i) && #[trigger] wrote(x1, x2, p) && #[trigger] wrote(x2, x3, l) implies wrote(r0, x3, i + (p + l)) by {
                both(x1, x2, x3, p, l);
                both(r0, x1, x3, i, p + l);
            }
            if d.params.len() == 0 && d.lists.len() == 0 { assert(i + (p + l) =~= i); }
            assert(keys(d.params).len() == d.params.len() && keys(d.lists).len() == d.lists.len());
        }
//@ end
}

pub mod read {
    use super::*;
    use super::write::counted;
    use super::base::*;
    use super::kval::*;
    use super::ids::*;
    use super::tokens::*;
    // TRUSTED: the iterator that takes the elements out of a vector
    #[verifier::external_body]
    #[verifier::accept_recursive_types(X)]
    pub struct Values<X> { x: Vec<X> }
    impl<X> Values<X> {
        pub uninterp spec fn view(&self) -> Seq<X>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<X>)
            ensures match r {
                Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn values_of<X>(v: Vec<X>) -> (r: Values<X>)
        ensures r@ == v@,
    { unimplemented!() }
    // TRUSTED: there is enough memory
    #[verifier::external_body]
    pub fn vec_with_capacity_safe<X>(len: usize) -> (r: Result<Vec<X>, DiffError>)
        ensures r is Ok, r->Ok_0@.len() == 0,
    { unimplemented!() }
    // TRUSTED: a vector taken apart and put together again, its elements read as another type of the same size
    pub struct Raw { pub g: Ghost<(Seq<u64>, nat)> }
    #[verifier::external_body]
    pub fn raw_parts(v: Vec<u64>) -> (r: (Raw, usize, usize))
        ensures r.0.g@.0 == v@, r.1 == v@.len(), r.2 == r.0.g@.1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw_i64(p: Raw, len: usize, cap: usize) -> (r: Vec<i64>)
        requires len == p.g@.0.len(), cap == p.g@.1,
        ensures r@.len() == len, forall|i: int| 0 <= i < len ==> #[trigger] r@[i] == p.g@.0[i] as i64,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw_f64(p: Raw, len: usize, cap: usize) -> (r: Vec<f64>)
        requires len == p.g@.0.len(), cap == p.g@.1,
        ensures r@.len() == len, forall|i: int| 0 <= i < len ==> #[trigger] r@[i] == of_bits(p.g@.0[i]),
    { unimplemented!() }
    pub broadcast proof fn skip_skip<X>(s: Seq<X>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len(),
        ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
    { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }

//@ item dochy_diff/src/imp/read/reader.rs struct Reader
//@ sub std::vec::IntoIter<KVal> => Values<KVal>
    impl Reader {
//@ fn dochy_diff/src/imp/read/reader.rs Reader::new -> r
//@ sub vec\.into_iter\(\) => values_of(vec)
            ensures r.vec@ == vec@,
//@ end
//@ fn dochy_diff/src/imp/read/reader.rs Reader::read -> res
            ensures
                old(self).vec@.len() > 0 ==> res is Ok && res->Ok_0 == old(self).vec@[0] && final(self).vec@ == old(self).vec@.skip(1),
                old(self).vec@.len() == 0 ==> res is Err,
//@ end
//@ fn dochy_diff/src/imp/read/reader.rs Reader::read_u64_array -> res
//@ param Ghost(v): Ghost<Seq<u64>>
            requires starts(old(self).vec@, seq![T::I(v.len() as i64)] + ints(v)), v.len() <= usize::MAX,
            ensures res is Ok, res->Ok_0@ == v, final(self).vec@ == old(self).vec@.skip(1 + v.len() as int),
//@ loops for
//@ iter 0 it
//@ start
            broadcast use skip_skip;
            let ghost r0 = self.vec@;
            let ghost ts = seq![T::I(v.len() as i64)] + ints(v);
            proof { casts(); assert((v.len() as usize as i64) as usize == v.len()); assert(ts[0] == T::I(v.len() as i64)); }
//@ loop 0
                invariant
                    len == v.len(), it.seq().len() == len, vec@ == v.take(it.index@), self.vec@ == r0.skip(1 + it.index@),
                    starts(r0, ts), ts == seq![T::I(v.len() as i64)] + ints(v),
//@ in 0
                proof { casts(); assert(ts[1 + it.index@] == T::I(v[it.index@] as i64)); assert(stands(r0[1 + it.index@], ts[1 + it.index@])); }
//@ last 0
                proof { assert(vec@ =~= v.take(it.index@ + 1)); }
//@ post 0
            proof { assert(v.take(v.len() as int) =~= v); }
//@ end
//@ fn dochy_diff/src/imp/read/reader.rs Reader::read_usize_array -> res
//@ param Ghost(v): Ghost<Seq<usize>>
            requires starts(old(self).vec@, seq![T::I(v.len() as i64)] + numbers(v)), v.len() <= usize::MAX,
            ensures res is Ok, res->Ok_0@ == v, final(self).vec@ == old(self).vec@.skip(1 + v.len() as int),
//@ loops for
//@ iter 0 it
//@ start
            broadcast use skip_skip;
            let ghost r0 = self.vec@;
            let ghost ts = seq![T::I(v.len() as i64)] + numbers(v);
            proof { casts(); assert((v.len() as usize as i64) as usize == v.len()); assert(ts[0] == T::I(v.len() as i64)); }
//@ loop 0
                invariant
                    len == v.len(), it.seq().len() == len, vec@ == v.take(it.index@), self.vec@ == r0.skip(1 + it.index@),
                    starts(r0, ts), ts == seq![T::I(v.len() as i64)] + numbers(v),
//@ in 0
                proof { casts(); assert(ts[1 + it.index@] == T::I(v[it.index@] as i64)); assert(stands(r0[1 + it.index@], ts[1 + it.index@])); }
//@ last 0
                proof { assert(vec@ =~= v.take(it.index@ + 1)); }
//@ post 0
            proof { assert(v.take(v.len() as int) =~= v); }
//@ end
    }
    /// what the numbers a and b are stored as
    pub open spec fn stored(s: StoredIDs, a: Seq<usize>, b: Seq<usize>) -> bool {
        match s {
            StoredIDs::Zero => a.len() == 0 && b.len() == 0,
            StoredIDs::U64(w) => w == word(a + b, 0) && below(a + b, 64),
            StoredIDs::Bits(v) => v@ == words(a + b, v@.len()) && below(a + b, 64 * v@.len() as int) && 64 * v@.len() <= larger(top(a), top(b)) + 64,
            StoredIDs::Numbers(n) => n@ == a + b,
        }
    }
    pub open spec fn rising(a: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> a[i] < a[j] }
    pub proof fn under_top(a: Seq<usize>)
        requires rising(a),
        ensures below(a, top(a) + 1),
    { }
//@ fn dochy_diff/src/imp/read/read_store_ids.rs read_stored_ids -> res
//@ param Ghost(a): Ghost<Seq<usize>>, Ghost(b): Ghost<Seq<usize>>
//@ pass .read_u64_array Ghost(words(a + b, (larger(top(a), top(b)) / 64 + 1) as nat))
//@ pass .read_usize_array Ghost(a + b)
        requires starts(old(r).vec@, ids_ts(a, b)), rising(a), rising(b), a.len() + b.len() <= usize::MAX,
        ensures res is Ok, stored(res->Ok_0, a, b), final(r).vec@ == old(r).vec@.skip(ids_ts(a, b).len() as int),
//@ start
        broadcast use skip_skip;
        proof {
            casts();
            let max = larger(top(a), top(b));
            let ks = a + b;
            let ts = ids_ts(a, b);
            choices(max, (a.len() + b.len()) as usize);
            under_top(a);
            under_top(b);
            assert(below(ks, max + 1));
            assert(stands(r.vec@[0], ts[0]) && stands(r.vec@[1], ts[1]));
            match choice(max, (a.len() + b.len()) as usize) {
                StoredIDsType::Bits => {
                    let w = words(ks, (max / 64 + 1) as nat);
                    assert(ts =~= seq![T::B(false), T::B(true)] + (seq![T::I(w.len() as i64)] + ints(w)));
                    parts(r.vec@, seq![T::B(false), T::B(true)], seq![T::I(w.len() as i64)] + ints(w));
                }
                StoredIDsType::Numbers => {
                    assert(ts =~= seq![T::B(false), T::B(false)] + (seq![T::I(ks.len() as i64)] + numbers(ks)));
                    parts(r.vec@, seq![T::B(false), T::B(false)], seq![T::I(ks.len() as i64)] + numbers(ks));
                }
                StoredIDsType::U64 => {
                    if ks.len() > 0 { bit(ks, 0, ks[0] as u64); assert(has(ks, ks[0] as int)); assert(0u64 & (1u64 << (ks[0] as u64)) == 0) by(bit_vector); }
                }
                StoredIDsType::Zero => { }
            }
        }
//@ end

    // ------------------------------------------------------------------ values
//@ fn dochy_diff/src/imp/read/get_null.rs get_null -> r
        ensures value_of(r) == (Value { ty: pt, c: Content::Null }),
//@ end
//@ fn dochy_diff/src/imp/read/get_undefined.rs get_undefined -> r
        ensures value_of(r) == (Value { ty: pt, c: Content::Undefined }),
//@ end
//@ fn dochy_diff/src/imp/read/read_param.rs read_int_array -> res
//@ param Ghost(v): Ghost<Seq<i64>>
//@ sub b\.into_raw_parts\(\) => raw_parts(b)
//@ sub Vec::from_raw_parts\(ptr as \*mut (i64|f64)\b => from_raw_\1(ptr
        requires starts(old(r).vec@, content_ts(Content::Ints(v))),
        ensures res is Ok, res->Ok_0.b@ == v, final(r).vec@ == old(r).vec@.skip(1),
//@ start
        proof {
            casts();
            let ts = content_ts(Content::Ints(v));
            assert(stands(r.vec@[0], ts[0]));
            assert forall|x: Seq<i64>, w: Seq<u64>| w =~= Seq::new(v.len(), |i: int| v[i] as u64) && x.len() == w.len() && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == w[i] as i64) implies x == v by {
                assert forall|i: int| 0 <= i < x.len() implies x[i] == v[i] by { assert(x[i] == w[i] as i64); assert((v[i] as u64) as i64 == v[i]); }
                assert(x =~= v);
            }
        }
//@ end
//@ fn dochy_diff/src/imp/read/read_param.rs read_float_array -> res
//@ param Ghost(v): Ghost<Seq<f64>>
//@ sub b\.into_raw_parts\(\) => raw_parts(b)
//@ sub Vec::from_raw_parts\(ptr as \*mut (i64|f64)\b => from_raw_\1(ptr
        requires starts(old(r).vec@, content_ts(Content::Floats(v))),
        ensures res is Ok, res->Ok_0.b@ == v, final(r).vec@ == old(r).vec@.skip(1),
//@ start
        broadcast use bits_back;
        proof {
            let ts = content_ts(Content::Floats(v));
            assert(stands(r.vec@[0], ts[0]));
            assert forall|x: Seq<f64>, w: Seq<u64>| w =~= Seq::new(v.len(), |i: int| bits(v[i])) && x.len() == w.len() && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == of_bits(w[i])) implies x == v by {
                assert forall|i: int| 0 <= i < x.len() implies x[i] == v[i] by { assert(x[i] == of_bits(w[i])); }
                assert(x =~= v);
            }
        }
//@ end
//@ fn dochy_diff/src/imp/read/read_param.rs read_binary -> res
//@ param Ghost(v): Ghost<Seq<u8>>
        requires starts(old(r).vec@, content_ts(Content::Bytes(v))),
        ensures res is Ok, res->Ok_0.b@ == v, final(r).vec@ == old(r).vec@.skip(1),
//@ start
        proof { assert(stands(r.vec@[0], content_ts(Content::Bytes(v))[0])); }
//@ end
//@ fn dochy_diff/src/imp/read/read_param.rs read_param2 -> res
//@ param Ghost(v): Ghost<Value>
//@ pass read_int_array Ghost(v.c->Ints_0)
//@ pass read_float_array Ghost(v.c->Floats_0)
//@ pass read_binary Ghost(v.c->Bytes_0)
        requires starts(old(r).vec@, content_ts(v.c)), v.ty == meta.param_type, typed(v), !(v.c is Null) && !(v.c is Undefined),
        ensures res is Ok, value_of(res->Ok_0) == v, final(r).vec@ == old(r).vec@.skip(1),
//@ start
        proof { assert(stands(r.vec@[0], content_ts(v.c)[0])); }
//@ end
//@ fn dochy_diff/src/imp/read/read_param.rs read_param -> res
//@ param Ghost(v): Ghost<Value>
//@ pass read_param2 Ghost(v)
        requires starts(old(r).vec@, value_ts(v, meta.var_type)), v.ty == meta.param_type, typed(v), admits(meta.var_type, v.c is Null, v.c is Undefined),
        ensures res is Ok, value_of(res->Ok_0) == v, final(r).vec@ == old(r).vec@.skip(value_ts(v, meta.var_type).len() as int),
//@ start
        broadcast use skip_skip;
        proof {
            let f = flags(meta.var_type, v.c is Null, v.c is Undefined);
            parts(r.vec@, f, content_ts(v.c));
            if f.len() > 0 { assert(stands(r.vec@[0], f[0])); }
            if f.len() > 1 { assert(stands(r.vec@[1], f[1])); }
            if f.len() == 0 { assert(r.vec@.skip(0) =~= r.vec@); }
        }
//@ end
//@ fn dochy_diff/src/imp/read/read_refs.rs read_val -> res
//@ param Ghost(v): Ghost<Seq<char>>
        requires starts(old(r).vec@, seq![T::S(v)]),
        ensures res is Ok, id_of(res->Ok_0) == Id::Val(v), final(r).vec@ == old(r).vec@.skip(1),
//@ start
        proof { assert(stands(r.vec@[0], seq![T::S(v)][0])); }
//@ end
//@ fn dochy_diff/src/imp/read/read_refs.rs read_a_ref -> res
//@ param Ghost(v): Ghost<Id>
//@ pass read_val Ghost(v->Val_0)
        requires starts(old(r).vec@, id_ts(v, p.var_type)), admits(p.var_type, v is Null, v is Undefined),
        ensures res is Ok, res->Ok_0 is Some, id_of(res->Ok_0->0) == v, final(r).vec@ == old(r).vec@.skip(id_ts(v, p.var_type).len() as int),
//@ start
        broadcast use skip_skip;
        proof {
            let f = flags(p.var_type, v is Null, v is Undefined);
            parts(r.vec@, f, match v { Id::Val(s) => seq![T::S(s)], _ => Seq::empty() });
            if f.len() > 0 { assert(stands(r.vec@[0], f[0])); }
            if f.len() > 1 { assert(stands(r.vec@[1], f[1])); }
            if f.len() == 0 { assert(r.vec@.skip(0) =~= r.vec@); }
        }
//@ end

    // ------------------------------------------------------------------ words of flags
    /// how many of the (rising) numbers are below b
    pub open spec fn cut(ks: Seq<usize>, b: int) -> int
        decreases ks.len()
    {
        if ks.len() == 0 { 0 } else if ks.last() < b { ks.len() as int } else { cut(ks.drop_last(), b) }
    }
    pub proof fn cuts(ks: Seq<usize>, b: int)
        requires rising(ks),
        ensures
            0 <= cut(ks, b) <= ks.len(),
            forall|i: int| 0 <= i < cut(ks, b) ==> #[trigger] ks[i] < b,
            forall|i: int| cut(ks, b) <= i < ks.len() ==> #[trigger] ks[i] >= b,
        decreases ks.len()
    {
        if ks.len() > 0 && ks.last() >= b {
            let p = ks.drop_last();
            cuts(p, b);
            assert forall|i: int| 0 <= i < cut(ks, b) implies #[trigger] ks[i] < b by { assert(ks[i] == p[i]); }
            assert forall|i: int| cut(ks, b) <= i < ks.len() implies #[trigger] ks[i] >= b by { if i < p.len() { assert(ks[i] == p[i]); } }
        }
    }
    pub proof fn cut_is(ks: Seq<usize>, b: int, n: int)
        requires rising(ks), 0 <= n <= ks.len(), forall|i: int| 0 <= i < n ==> #[trigger] ks[i] < b, forall|i: int| n <= i < ks.len() ==> #[trigger] ks[i] >= b,
        ensures cut(ks, b) == n,
    {
        cuts(ks, b);
        let c = cut(ks, b);
        if c < n { assert(ks[c] < b); assert(ks[c] >= b); }
        if n < c { assert(ks[n] < b); assert(ks[n] >= b); }
    }
    /// the flags of the word that starts at off
    pub open spec fn flagged(bits: u64, all: Seq<usize>, off: usize) -> bool {
        forall|j: u64| j < 64 ==> (#[trigger] (bits & (1u64 << j)) != 0 <==> has(all, off + j))
    }
    pub proof fn flag_next(bits: u64, flag: u64, i: u64)
        requires i < 64, flag == 1u64 << i,
        ensures i < 63 ==> flag << 1 == 1u64 << ((i + 1) as u64), i == 63 ==> flag << 1 == 0,
            bits < (flag << 1) ==> forall|j: u64| i < j < 64 ==> #[trigger] (bits & (1u64 << j)) == 0,
    {
        let f = flag << 1;
        if i < 63 {
            let k = (i + 1) as u64;
            assert(f == 1u64 << k) by(bit_vector) requires i < 63, flag == 1u64 << i, f == flag << 1, k == i + 1;
            if bits < f {
                assert forall|j: u64| i < j < 64 implies #[trigger] (bits & (1u64 << j)) == 0 by {
                    assert(bits & (1u64 << j) == 0) by(bit_vector) requires bits < f, f == 1u64 << k, k == i + 1, i < j, j < 64;
                }
            }
        } else {
            assert(f == 0) by(bit_vector) requires i == 63, flag == 1u64 << i, f == flag << 1;
        }
    }
    pub proof fn first_flag()
        ensures 1u64 == 1u64 << 0u64,
    { assert(1u64 == 1u64 << 0u64) by(bit_vector); }
    /// ks are those of all that are of the kind asked for
    pub open spec fn among(ks: Seq<usize>, all: Seq<usize>, kind: spec_fn(int) -> bool) -> bool {
        &&& forall|k: int| #[trigger] has(ks, k) ==> has(all, k) && kind(k)
        &&& forall|k: int| #[trigger] has(all, k) && kind(k) ==> has(ks, k)
    }
    pub proof fn step(ks: Seq<usize>, b: int)
        requires rising(ks),
        ensures 0 <= cut(ks, b) <= ks.len(), cut(ks, b + 1) == cut(ks, b) + (if has(ks, b) { 1int } else { 0 }), has(ks, b) ==> cut(ks, b) < ks.len() && ks[cut(ks, b)] == b,
    {
        cuts(ks, b);
        let c = cut(ks, b);
        if has(ks, b) {
            let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == b;
            assert(i >= c) by { if i < c { assert(ks[i] < b); } }
            assert(i == c) by { if c < i { assert(ks[c] < ks[i]); assert(ks[c] >= b); } }
            assert forall|j: int| c + 1 <= j < ks.len() implies #[trigger] ks[j] >= b + 1 by { assert(ks[c] < ks[j]); }
            cut_is(ks, b + 1, c + 1);
        } else {
            assert forall|j: int| c <= j < ks.len() implies #[trigger] ks[j] >= b + 1 by { }
            cut_is(ks, b + 1, c);
        }
    }
    pub proof fn no_more(ks: Seq<usize>, b: int, e: int)
        requires rising(ks), b <= e, forall|k: int| b <= k < e ==> !#[trigger] has(ks, k),
        ensures cut(ks, e) == cut(ks, b),
    {
        cuts(ks, b);
        let c = cut(ks, b);
        assert forall|j: int| c <= j < ks.len() implies #[trigger] ks[j] >= e by { if ks[j] < e { assert(has(ks, ks[j] as int)); } }
        cut_is(ks, e, c);
    }
    pub proof fn quiet(bits: u64, all: Seq<usize>, off: usize, index: usize, ks: Seq<usize>)
        requires
            rising(ks), flagged(bits, all, off), index < 64, forall|k: int| #[trigger] has(ks, k) ==> has(all, k),
            forall|j: u64| index < j < 64 ==> #[trigger] (bits & (1u64 << j)) == 0,
        ensures cut(ks, off + index + 1) == cut(ks, off + 64),
    {
        assert forall|k: int| off + index + 1 <= k < off + 64 implies !#[trigger] has(ks, k) by {
            if has(ks, k) { let j = (k - off) as u64; assert(has(all, off + j)); assert(bits & (1u64 << j) != 0); }
        }
        no_more(ks, off + index + 1, off + 64);
    }
    pub open spec fn is_param(m: MetaTable) -> spec_fn(int) -> bool { |k: int| 0 <= k <= usize::MAX && meta_at(m, k as usize) is Some && (meta_at(m, k as usize)->0).1 is Param }
    pub open spec fn is_list(m: MetaTable) -> spec_fn(int) -> bool { |k: int| 0 <= k <= usize::MAX && meta_at(m, k as usize) is Some && !((meta_at(m, k as usize)->0).1 is Param) }

//@ fn dochy_diff/src/imp/read/read_params.rs read_a_param -> res
//@ param Ghost(v): Ghost<Value>
//@ pass read_param Ghost(v)
        requires
            index + offset <= usize::MAX,
            bits & flag != 0 && is_param(*meta)(index + offset) ==> param_fits(v, *meta, (index + offset) as usize) && starts(old(reader).vec@, value_ts(v, vt_at(*meta, (index + offset) as usize))),
        ensures
            res is Ok,
            bits & flag != 0 && is_param(*meta)(index + offset) ==> res->Ok_0 is Some && value_of(res->Ok_0->0) == v && final(reader).vec@ == old(reader).vec@.skip(value_ts(v, vt_at(*meta, (index + offset) as usize)).len() as int),
            !(bits & flag != 0 && is_param(*meta)(index + offset)) ==> res->Ok_0 is None && final(reader).vec@ == old(reader).vec@,
//@ end
//@ fn dochy_diff/src/imp/read/read_params.rs read_params -> res
//@ param Ghost(d): Ghost<Seq<(usize, Value)>>, Ghost(all): Ghost<Seq<usize>>
//@ pass read_a_param Ghost(d[cut(ks, offset + index)].1)
        requires
            params_fit(d, *meta), offset + 64 <= usize::MAX, flagged(bits, all, offset), among(keys(d), all, is_param(*meta)),
            params_r(old(r)@, d.take(cut(keys(d), offset as int))), starts(old(reader).vec@, params_ts(d, cut(keys(d), offset as int), *meta)),
        ensures
            res is Ok, params_r(final(r)@, d.take(cut(keys(d), offset + 64))), starts(final(reader).vec@, params_ts(d, cut(keys(d), offset + 64), *meta)),
            params_ts(d, cut(keys(d), offset + 64), *meta).len() <= params_ts(d, cut(keys(d), offset as int), *meta).len(),
            final(reader).vec@ == old(reader).vec@.skip(params_ts(d, cut(keys(d), offset as int), *meta).len() - params_ts(d, cut(keys(d), offset + 64), *meta).len()),
//@ loops for
//@ iter 0 it
//@ pre 0
        let ghost ks = keys(d);
        let ghost r0 = reader.vec@;
        let ghost n0 = cut(ks, offset as int);
        proof { first_flag(); assert(rising(ks)); assert(r0.skip(0) =~= r0); }
//@ loop 0
            invariant_except_break
                index == it.index@,
                index < 64 ==> flag == 1u64 << (index as u64),
            invariant
                it.seq().len() == 64,
                ks == keys(d), rising(ks), n0 == cut(ks, offset as int), params_ts(d, n0, *meta).len() <= r0.len(),
                params_fit(d, *meta), offset + 64 <= usize::MAX, flagged(bits, all, offset), among(ks, all, is_param(*meta)),
                index <= 64,
                params_r(r@, d.take(cut(ks, offset + index))), starts(reader.vec@, params_ts(d, cut(ks, offset + index), *meta)),
                params_ts(d, cut(ks, offset + index), *meta).len() <= params_ts(d, n0, *meta).len(),
                reader.vec@ == r0.skip(params_ts(d, n0, *meta).len() - params_ts(d, cut(ks, offset + index), *meta).len()),
            ensures
                cut(ks, offset + index) == cut(ks, offset + 64),
//@ in 0
            broadcast use skip_skip;
            proof {
                let b = offset + index;
                let c = cut(ks, b);
                step(ks, b);
                assert(bits & (1u64 << (index as u64)) != 0 <==> has(all, b));
                assert(has(ks, b) <==> has(all, b) && is_param(*meta)(b));
                flag_next(bits, flag, index as u64);
                if has(ks, b) {
                    assert(param_fits(d[c].1, *meta, d[c].0) && d[c].0 == b);
                    parts(reader.vec@, value_ts(d[c].1, vt_at(*meta, d[c].0)), params_ts(d, c + 1, *meta));
                    assert(d.take(c + 1) =~= d.take(c).push(d[c]));
                }
                if bits < (flag << 1) { quiet(bits, all, offset, index, ks); }
            }
//@ end
    // TRUSTED: a vector takes at most isize::MAX bytes
    #[verifier::external_body]
    pub proof fn small(m: MetaTable) ensures m.table@.len() <= isize::MAX { }
    pub proof fn flagged_word(all: Seq<usize>, w: int)
        requires 0 <= w, 64 * w <= usize::MAX,
        ensures flagged(word(all, w), all, (64 * w) as usize),
    {
        assert forall|j: u64| j < 64 implies (#[trigger] (word(all, w) & (1u64 << j)) != 0 <==> has(all, (64 * w) as usize + j)) by { bit(all, w, j); }
    }
    pub proof fn cut_all(ks: Seq<usize>, b: int)
        requires rising(ks), below(ks, b),
        ensures cut(ks, b) == ks.len(),
    { cut_is(ks, b, ks.len() as int); }
    pub proof fn cut_none(ks: Seq<usize>)
        requires rising(ks),
        ensures cut(ks, 0) == 0,
    { cut_is(ks, 0, 0); }
    pub open spec fn in_meta(all: Seq<usize>, m: MetaTable) -> bool { forall|k: int| #[trigger] has(all, k) ==> 0 <= k < m.table@.len() && (is_param(m)(k) || is_list(m)(k)) }
    pub proof fn kinds(d: ItemDiff, m: MetaTable)
        requires params_fit(d.params, m), lists_fit(d.lists, m),
        ensures
            among(keys(d.params), keys(d.params) + keys(d.lists), is_param(m)), among(keys(d.lists), keys(d.params) + keys(d.lists), is_list(m)),
            in_meta(keys(d.params) + keys(d.lists), m), rising(keys(d.params)), rising(keys(d.lists)),
            larger(top(keys(d.params)), top(keys(d.lists))) <= isize::MAX,
    {
        small(m);
        let a = keys(d.params);
        let b = keys(d.lists);
        let all = a + b;
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < m.table@.len() && is_param(m)(a[i] as int) by { assert(param_fits(d.params[i].1, m, d.params[i].0)); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < m.table@.len() && is_list(m)(b[i] as int) by { assert(meta_at(m, d.lists[i].0) is Some); }
        assert forall|k: int| #[trigger] has(all, k) implies has(a, k) || has(b, k) by {
            let i = choose|i: int| 0 <= i < all.len() && #[trigger] all[i] == k;
            if i < a.len() { assert(a[i] == k); } else { assert(b[i - a.len()] == k); }
        }
        assert forall|k: int| #[trigger] has(a, k) implies has(all, k) && is_param(m)(k) by { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == k; assert(all[i] == k); }
        assert forall|k: int| #[trigger] has(b, k) implies has(all, k) && is_list(m)(k) by { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == k; assert(all[i + a.len()] == k); }
    }
    pub proof fn ref_kinds(d: Seq<(usize, Id)>, m: MetaTable)
        requires refs_fit(d, m),
        ensures rising(keys(d)), top(keys(d)) <= isize::MAX, among(keys(d), keys(d), is_param(m)), in_meta(keys(d), m),
    {
        small(m);
        let a = keys(d);
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < m.table@.len() && is_param(m)(a[i] as int) by { assert(ref_fits(d[i].1, m, d[i].0)); }
    }
    pub proof fn meta_holds(d: Seq<(usize, Id)>, m: MetaTable)
        requires refs_fit(d, m),
        ensures d.len() <= isize::MAX,
    {
        small(m);
        let ks = keys(d);
        assert forall|i: int| 0 <= i < d.len() implies i <= #[trigger] ks[i] < m.table@.len() by { assert(ref_fits(d[i].1, m, d[i].0)); climbs(ks, i); }
        if d.len() > 0 { assert(ks[d.len() - 1] < m.table@.len()); }
    }
    pub proof fn climbs(ks: Seq<usize>, i: int)
        requires rising(ks), 0 <= i < ks.len(),
        ensures i <= ks[i],
        decreases i
    { if i > 0 { climbs(ks, i - 1); assert(ks[i - 1] < ks[i]); } }
//@ fn dochy_diff/src/imp/read/read_refs.rs read_refs_bits -> res
//@ param Ghost(d): Ghost<Seq<(usize, Id)>>
//@ pass read_a_ref Ghost(d[cut(ks, offset + index)].1)
        requires
            refs_fit(d, *meta), offset + 64 <= usize::MAX, flagged(bits, keys(d), offset),
            refs_r(old(r)@, d.take(cut(keys(d), offset as int))), starts(old(reader).vec@, refs_from(d, cut(keys(d), offset as int), *meta)),
        ensures
            res is Ok, refs_r(final(r)@, d.take(cut(keys(d), offset + 64))), starts(final(reader).vec@, refs_from(d, cut(keys(d), offset + 64), *meta)),
            refs_from(d, cut(keys(d), offset + 64), *meta).len() <= refs_from(d, cut(keys(d), offset as int), *meta).len(),
            final(reader).vec@ == old(reader).vec@.skip(refs_from(d, cut(keys(d), offset as int), *meta).len() - refs_from(d, cut(keys(d), offset + 64), *meta).len()),
//@ loops for
//@ iter 0 it
//@ pre 0
        let ghost ks = keys(d);
        let ghost r0 = reader.vec@;
        let ghost n0 = cut(ks, offset as int);
        proof { first_flag(); ref_kinds(d, *meta); assert(r0.skip(0) =~= r0); }
//@ loop 0
            invariant_except_break
                index == it.index@,
                index < 64 ==> flag == 1u64 << (index as u64),
            invariant
                it.seq().len() == 64,
                ks == keys(d), rising(ks), n0 == cut(ks, offset as int), refs_from(d, n0, *meta).len() <= r0.len(),
                refs_fit(d, *meta), offset + 64 <= usize::MAX, flagged(bits, ks, offset), among(ks, ks, is_param(*meta)),
                index <= 64,
                refs_r(r@, d.take(cut(ks, offset + index))), starts(reader.vec@, refs_from(d, cut(ks, offset + index), *meta)),
                refs_from(d, cut(ks, offset + index), *meta).len() <= refs_from(d, n0, *meta).len(),
                reader.vec@ == r0.skip(refs_from(d, n0, *meta).len() - refs_from(d, cut(ks, offset + index), *meta).len()),
            ensures
                cut(ks, offset + index) == cut(ks, offset + 64),
//@ in 0
            broadcast use skip_skip;
            proof {
                let b = offset + index;
                let c = cut(ks, b);
                step(ks, b);
                assert(bits & (1u64 << (index as u64)) != 0 <==> has(ks, b));
                flag_next(bits, flag, index as u64);
                if has(ks, b) {
                    assert(ref_fits(d[c].1, *meta, d[c].0) && d[c].0 == b);
                    parts(reader.vec@, id_ts(d[c].1, vt_at(*meta, d[c].0)), refs_from(d, c + 1, *meta));
                    assert(d.take(c + 1) =~= d.take(c).push(d[c]));
                }
                if bits < (flag << 1) { quiet(bits, ks, offset, index, ks); }
            }
//@ end
//@ fn dochy_diff/src/imp/read/read_refs.rs read_refs -> res
//@ param Ghost(d): Ghost<Seq<(usize, Id)>>
//@ pass read_stored_ids Ghost(keys(d)), Ghost(Seq::empty())
//@ pass read_refs_bits Ghost(d)
//@ pass read_a_ref Ghost(d[n_].1)
//@ sub in\s+n\b => in values_of(n)
        requires refs_fit(d, *meta), old(ss)@.len() == 0, starts(old(r).vec@, refs_ts(d, *meta)),
        ensures res is Ok, refs_r(final(ss)@, d), final(r).vec@ == old(r).vec@.skip(refs_ts(d, *meta).len() as int),
//@ iter 0 it
//@ next 1 it
//@ loops for while
//@ start
        broadcast use skip_skip;
        let ghost ks = keys(d);
        let ghost a = ids_ts(ks, Seq::empty());
        let ghost q0 = r.vec@;
        let ghost r1 = q0.skip(a.len() as int);
        let ghost rl = refs_from(d, 0, *meta).len() as int;
        proof {
            parts(r.vec@, a, refs_from(d, 0, *meta));
            ref_kinds(d, *meta);
            small(*meta);
            meta_holds(d, *meta);
            assert(ks + Seq::<usize>::empty() =~= ks);
            cut_none(ks);
            assert(d.take(0) =~= Seq::empty());
            assert(d.take(d.len() as int) =~= d);
            assert(refs_r(Seq::empty(), d.take(0)));
            assert(ss@ =~= Seq::empty());
            if ks.len() == 0 { assert(rl == 0); assert(refs_r(Seq::empty(), d)); }
            if below(ks, 64) { cut_all(ks, 64); }
            flagged_word(ks, 0);
            assert(r1.skip(0) =~= r1);
        }
//@ pre 0
            let ghost bw = b@;
            proof { cut_all(ks, 64 * bw.len() as int); }
//@ loop 0
                invariant
                    it.seq() == bw.map_values(|x: u64| &x), bw == b@, bw == words(ks, bw.len()), ks == keys(d), rising(ks), offset == 64 * it.index@, 64 * bw.len() <= usize::MAX,
                    refs_fit(d, *meta), rl == refs_from(d, 0, *meta).len(), rl <= r1.len(), cut(ks, 64 * bw.len() as int) == ks.len(),
                    refs_r(ss@, d.take(cut(ks, offset as int))), starts(r.vec@, refs_from(d, cut(ks, offset as int), *meta)),
                    refs_from(d, cut(ks, offset as int), *meta).len() <= rl,
                    r.vec@ == r1.skip(rl - refs_from(d, cut(ks, offset as int), *meta).len()),
//@ in 0
                broadcast use skip_skip;
                proof { flagged_word(ks, it.index@); }
//@ pre 1
            let ghost mut n_ = 0int;
//@ loop 1
                invariant
                    ks == keys(d), rising(ks), 0 <= n_ <= ks.len(), it@ == ks.skip(n_),
                    refs_fit(d, *meta), rl == refs_from(d, 0, *meta).len(), rl <= r1.len(),
                    refs_r(ss@, d.take(n_)), starts(r.vec@, refs_from(d, n_, *meta)),
                    refs_from(d, n_, *meta).len() <= rl,
                    r.vec@ == r1.skip(rl - refs_from(d, n_, *meta).len()),
                ensures n_ == ks.len(),
                decreases it@.len(),
//@ in 1
                broadcast use skip_skip;
                proof {
                    assert(ks.skip(n_).skip(1) =~= ks.skip(n_ + 1));
                    assert(ref_fits(d[n_].1, *meta, d[n_].0) && ks[n_] == d[n_].0);
                    parts(r.vec@, id_ts(d[n_].1, vt_at(*meta, d[n_].0)), refs_from(d, n_ + 1, *meta));
                    assert(d.take(n_ + 1) =~= d.take(n_).push(d[n_]));
                }
//@ last 1
                proof { n_ = n_ + 1; }
//@ end

    // ------------------------------------------------------------------ lists
//@ item dochy_diff/src/imp/read/read_lists.rs enum ReadAList
//@ sub ^\s*enum => pub enum
    impl ListDiffR {
//@ fn dochy_diff/src/imp/structs_read.rs ListDiffR::new -> r
            ensures r.items == items, r.next_id == next_id,
//@ end
    }
    impl ListItemDiffR {
//@ fn dochy_diff/src/imp/structs_read.rs ListItemDiffR::new -> r
            ensures r.params == params, r.lists == lists, r.refs == refs,
//@ end
    }
    impl RootDiffR {
//@ fn dochy_diff/src/imp/structs_read.rs RootDiffR::new -> r
            ensures r.params == params, r.lists == lists,
//@ end
//@ fn dochy_diff/src/imp/structs_read.rs RootDiffR::default -> r
            ensures r.params@.len() == 0, r.lists@.len() == 0,
//@ end
    }
//@ fn dochy_diff/src/imp/read/read_list.rs read_list -> res
//@ param Ghost(d): Ghost<ListDiff>
//@ pass read_list_item Ghost(d.items[it.index@].1)
        requires list_fits(d, *meta), starts(old(r).vec@, list_ts(d, *meta)),
        ensures res is Ok, list_r(res->Ok_0, d), final(r).vec@ == old(r).vec@.skip(list_ts(d, *meta).len() as int),
        decreases d, 2nat,
//@ loops for
//@ iter 0 it
//@ start
        broadcast use skip_skip;
        let ghost q0 = r.vec@;
        let ghost h = seq![T::I(d.items.len() as i64), T::I(d.next as i64)];
        let ghost r1 = q0.skip(2);
        let ghost rl = changes_ts(d, 0, *meta).len() as int;
        proof {
            casts();
            parts(q0, h, changes_ts(d, 0, *meta));
            assert(stands(q0[0], h[0]) && stands(q0[1], h[1]));
            assert(r1.skip(0) =~= r1);
        }
//@ loop 0
            invariant
                len == d.items.len(), it.seq().len() == len, list_fits(d, *meta), rl == changes_ts(d, 0, *meta).len(), rl <= r1.len(),
                vec@.len() == it.index@, forall|i: int| 0 <= i < vec@.len() ==> (#[trigger] vec@[i]).0 == d.items[i].0 && change_r(vec@[i].1, d.items[i].1),
                starts(r.vec@, changes_ts(d, it.index@, *meta)), changes_ts(d, it.index@, *meta).len() <= rl,
                r.vec@ == r1.skip(rl - changes_ts(d, it.index@, *meta).len()),
//@ in 0
            broadcast use skip_skip;
            let ghost qb = r.vec@;
            proof {
                let k = it.index@;
                let a = seq![T::I(d.items[k].0 as i64)];
                let b = change_ts(d.items[k].1, *meta);
                let c = changes_ts(d, k + 1, *meta);
                casts();
                parts(r.vec@, a + b, c);
                parts(r.vec@, a, b);
                assert(stands(r.vec@[0], a[0]));
                assert(change_fits(d.items[k].1, *meta));
            }
//@ end
//@ fn dochy_diff/src/imp/read/read_list.rs read_list_item -> res
//@ param Ghost(d): Ghost<Change>
//@ pass read_list_item2 Ghost(d->Modify_0)
//@ pass read_cs Ghost(d->Create_0), Ghost(d->Create_1)
        requires change_fits(d, *meta), starts(old(r).vec@, change_ts(d, *meta)),
        ensures res is Ok, change_r(res->Ok_0, d), final(r).vec@ == old(r).vec@.skip(change_ts(d, *meta).len() as int),
        decreases d, 2nat,
//@ start
        broadcast use skip_skip;
        proof {
            let q0 = r.vec@;
            match d {
                Change::Modify(x) => { let h = seq![T::B(true)]; parts(q0, h, item_ts(x, *meta)); assert(stands(q0[0], h[0])); }
                Change::Create(p, x) => { let h = seq![T::B(false), T::B(true)]; parts(q0, h, prev_ts(p) + item_ts(x, *meta)); assert(stands(q0[0], h[0]) && stands(q0[1], h[1])); }
                Change::Delete => { let h = seq![T::B(false), T::B(false)]; assert(stands(q0[0], h[0]) && stands(q0[1], h[1])); }
            }
        }
//@ end
//@ fn dochy_diff/src/imp/read/read_list.rs read_cs -> res
//@ param Ghost(p): Ghost<Option<u64>>, Ghost(d): Ghost<ItemDiff>
//@ pass read_list_item2 Ghost(d)
        requires item_fits(d, *meta), starts(old(r).vec@, prev_ts(p) + item_ts(d, *meta)),
        ensures res is Ok, res->Ok_0.prev_id == p, item_r(res->Ok_0.diff, d), final(r).vec@ == old(r).vec@.skip((prev_ts(p) + item_ts(d, *meta)).len() as int),
        decreases d, 3nat,
//@ start
        broadcast use skip_skip;
        proof {
            casts();
            let q0 = r.vec@;
            let h = prev_ts(p);
            parts(q0, h, item_ts(d, *meta));
            assert(stands(q0[0], h[0]));
            if h.len() > 1 { assert(stands(q0[1], h[1])); }
        }
//@ end
#[verifier::spinoff_prover]
//@ fn dochy_diff/src/imp/read/read_lists.rs read_a_list -> res
//@ param Ghost(d): Ghost<ItemDiff>, Ghost(c): Ghost<int>
//@ pass read_list Ghost(d.lists[c].1->0)
        requires
            index + offset <= usize::MAX, is_param(*meta)(index + offset) || is_list(*meta)(index + offset),
            is_list(*meta)(index + offset) ==> ({ let v = (meta_at(*meta, (index + offset) as usize)->0).1; 0 <= c < d.lists.len() && opt_fits(d.lists[c].1, v) && starts(old(r).vec@, opt_ts(d.lists[c].1, v)) }),
        ensures
            res is Ok,
            is_list(*meta)(index + offset) ==> res->Ok_0 is Result && opt_r(res->Ok_0->Result_0, d.lists[c].1) && final(r).vec@ == old(r).vec@.skip(opt_ts(d.lists[c].1, (meta_at(*meta, (index + offset) as usize)->0).1).len() as int),
            !is_list(*meta)(index + offset) ==> res->Ok_0 is Skip && final(r).vec@ == old(r).vec@,
        decreases d, 0nat,
//@ start
        broadcast use skip_skip;
        proof {
            let q0 = r.vec@;
            if is_list(*meta)(index + offset) {
                match ((meta_at(*meta, (index + offset) as usize)->0).1, d.lists[c].1) {
                    (MetaValue::OptMil(t), Some(x)) => { let h = seq![T::B(true)]; parts(q0, h, list_ts(x, t)); assert(stands(q0[0], h[0])); }
                    (MetaValue::OptMil(t), None) => { let h = seq![T::B(false)]; assert(stands(q0[0], h[0])); }
                    _ => { }
                }
            }
        }
//@ end
#[verifier::spinoff_prover]
//@ fn dochy_diff/src/imp/read/read_lists.rs read_lists -> res
//@ param Ghost(d): Ghost<ItemDiff>, Ghost(all): Ghost<Seq<usize>>
//@ pass read_a_list Ghost(d), Ghost(cut(ks, offset + index))
        requires
            lists_fit(d.lists, *meta), offset + 64 <= usize::MAX, flagged(bits, all, offset), among(keys(d.lists), all, is_list(*meta)), in_meta(all, *meta),
            lists_r(old(r)@, d.lists.take(cut(keys(d.lists), offset as int))), starts(old(reader).vec@, lists_ts(d, cut(keys(d.lists), offset as int), *meta)),
        ensures
            res is Ok, lists_r(final(r)@, d.lists.take(cut(keys(d.lists), offset + 64))), starts(final(reader).vec@, lists_ts(d, cut(keys(d.lists), offset + 64), *meta)),
            lists_ts(d, cut(keys(d.lists), offset + 64), *meta).len() <= lists_ts(d, cut(keys(d.lists), offset as int), *meta).len(),
            final(reader).vec@ == old(reader).vec@.skip(lists_ts(d, cut(keys(d.lists), offset as int), *meta).len() - lists_ts(d, cut(keys(d.lists), offset + 64), *meta).len()),
        decreases d, 1nat,
//@ loops for
//@ iter 0 it
//@ pre 0
        let ghost ks = keys(d.lists);
        let ghost r0 = reader.vec@;
        let ghost n0 = cut(ks, offset as int);
        proof { first_flag(); assert(rising(ks)); assert(r0.skip(0) =~= r0); }
//@ loop 0
            invariant_except_break
                index == it.index@,
                index < 64 ==> flag == 1u64 << (index as u64),
            invariant
                it.seq().len() == 64,
                ks == keys(d.lists), rising(ks), n0 == cut(ks, offset as int), lists_ts(d, n0, *meta).len() <= r0.len(),
                lists_fit(d.lists, *meta), offset + 64 <= usize::MAX, flagged(bits, all, offset), among(ks, all, is_list(*meta)), in_meta(all, *meta),
                index <= 64,
                lists_r(r@, d.lists.take(cut(ks, offset + index))), starts(reader.vec@, lists_ts(d, cut(ks, offset + index), *meta)),
                lists_ts(d, cut(ks, offset + index), *meta).len() <= lists_ts(d, n0, *meta).len(),
                reader.vec@ == r0.skip(lists_ts(d, n0, *meta).len() - lists_ts(d, cut(ks, offset + index), *meta).len()),
            ensures
                cut(ks, offset + index) == cut(ks, offset + 64),
//@ in 0
            broadcast use skip_skip;
            proof {
                let b = offset + index;
                let c = cut(ks, b);
                step(ks, b);
                assert(bits & (1u64 << (index as u64)) != 0 <==> has(all, b));
                assert(has(ks, b) <==> has(all, b) && is_list(*meta)(b));
                flag_next(bits, flag, index as u64);
                if has(ks, b) {
                    let v = (meta_at(*meta, d.lists[c].0)->0).1;
                    assert(d.lists[c].0 == b && opt_fits(d.lists[c].1, v));
                    parts(reader.vec@, opt_ts(d.lists[c].1, v), lists_ts(d, c + 1, *meta));
                    assert(d.lists.take(c + 1) =~= d.lists.take(c).push(d.lists[c]));
                }
                if bits < (flag << 1) { quiet(bits, all, offset, index, ks); }
            }
//@ end
#[verifier::spinoff_prover]
//@ fn dochy_diff/src/imp/read/read_lists_numbers.rs read_lists_numbers -> res
//@ param Ghost(d): Ghost<ItemDiff>
//@ pass read_list Ghost(d.lists[i_ - pl].1->0)
        requires params_fit(d.params, *meta), lists_fit(d.lists, *meta), n@ == keys(d.params) + keys(d.lists), old(lists)@.len() == 0, starts(old(r).vec@, lists_ts(d, 0, *meta)),
        ensures res is Ok, lists_r(final(lists)@, d.lists), final(r).vec@ == old(r).vec@.skip(lists_ts(d, 0, *meta).len() as int),
        decreases d, 1nat,
//@ loops for
//@ iter 0 it
//@ pre 0
        let ghost r0 = r.vec@;
        let ghost pl = d.params.len() as int;
        let ghost rl = lists_ts(d, 0, *meta).len() as int;
        let ghost mut i_ = 0int;
        let ghost mut k_ = 0int;
        proof { kinds(d, *meta); assert(r0.skip(0) =~= r0); assert(d.lists.take(0) =~= Seq::empty()); }
//@ loop 0
            invariant
                it.seq() == n@.map_values(|x: usize| &x), i_ == it.index@, pl == d.params.len(), k_ == (if i_ <= pl { 0 } else { i_ - pl }),
                params_fit(d.params, *meta), lists_fit(d.lists, *meta), n@ == keys(d.params) + keys(d.lists), rl == lists_ts(d, 0, *meta).len(), rl <= r0.len(),
                lists_r(lists@, d.lists.take(k_)), starts(r.vec@, lists_ts(d, k_, *meta)), lists_ts(d, k_, *meta).len() <= rl,
                r.vec@ == r0.skip(rl - lists_ts(d, k_, *meta).len()),
//@ in 0
            broadcast use skip_skip;
            proof {
                if i_ < pl {
                    assert(n@[i_] == d.params[i_].0 && param_fits(d.params[i_].1, *meta, d.params[i_].0));
                } else {
                    let q0 = r.vec@;
                    let x = d.lists[k_];
                    assert(n@[i_] == x.0);
                    let v = (meta_at(*meta, x.0)->0).1;
                    assert(opt_fits(x.1, v));
                    parts(q0, opt_ts(x.1, v), lists_ts(d, k_ + 1, *meta));
                    assert(d.lists.take(k_ + 1) =~= d.lists.take(k_).push(x));
                    match (v, x.1) {
                        (MetaValue::OptMil(t), Some(y)) => { let h = seq![T::B(true)]; parts(q0, h, list_ts(y, t)); assert(stands(q0[0], h[0])); }
                        (MetaValue::OptMil(t), None) => { let h = seq![T::B(false)]; assert(stands(q0[0], h[0])); }
                        _ => { }
                    }
                }
            }
//@ last 0
            proof { if i_ >= pl { k_ = k_ + 1; } i_ = i_ + 1; }
//@ post 0
        proof { assert(d.lists.take(d.lists.len() as int) =~= d.lists); }
//@ end
    /// all there is to know about the numbers of the members
    pub open spec fn known(d: ItemDiff, m: MetaTable) -> bool {
        let pk = keys(d.params);
        let lk = keys(d.lists);
        let all = pk + lk;
        &&& params_fit(d.params, m) && lists_fit(d.lists, m)
        &&& among(pk, all, is_param(m)) && among(lk, all, is_list(m)) && in_meta(all, m) && rising(pk) && rising(lk)
        &&& larger(top(pk), top(lk)) <= isize::MAX && pk.len() + lk.len() <= usize::MAX
        &&& cut(pk, 0) == 0 && cut(lk, 0) == 0
        &&& forall|b: int| #[trigger] below(all, b) ==> cut(pk, b) == pk.len() && cut(lk, b) == lk.len()
        &&& flagged(word(all, 0), all, 0)
        &&& d.params.take(0).len() == 0 && lists_r(Seq::empty(), d.lists.take(0))
        &&& params_ts(d.params, d.params.len() as int, m).len() == 0 && lists_ts(d, d.lists.len() as int, m).len() == 0
        &&& d.params.take(pk.len() as int) == d.params && d.lists.take(lk.len() as int) == d.lists
    }
    #[verifier::spinoff_prover]
    pub proof fn know(d: ItemDiff, m: MetaTable)
        requires params_fit(d.params, m), lists_fit(d.lists, m),
        ensures known(d, m),
    {
        let pk = keys(d.params);
        let lk = keys(d.lists);
        let all = pk + lk;
        kinds(d, m);
        counted(d, m);
        cut_none(pk);
        cut_none(lk);
        assert(d.params.take(pk.len() as int) =~= d.params && d.lists.take(lk.len() as int) =~= d.lists);
        assert forall|b: int| #[trigger] below(all, b) implies cut(pk, b) == pk.len() && cut(lk, b) == lk.len() by {
            assert forall|i: int| 0 <= i < pk.len() implies #[trigger] pk[i] < b by { assert(all[i] == pk[i]); }
            assert forall|i: int| 0 <= i < lk.len() implies #[trigger] lk[i] < b by { assert(all[i + pk.len()] == lk[i]); }
            cut_all(pk, b);
            cut_all(lk, b);
        }
        flagged_word(all, 0);
    }
    pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
    #[verifier::spinoff_prover]
    pub proof fn root_parts(q: Seq<KVal>, d: ItemDiff, m: MetaTable)
        requires params_fit(d.params, m), lists_fit(d.lists, m), starts(q, root_ts(d, m)),
        ensures ({
            let i = ids_ts(keys(d.params), keys(d.lists));
            let p = params_ts(d.params, 0, m);
            let l = lists_ts(d, 0, m);
            let q1 = q.skip(i.len() as int);
            let q2 = q1.skip(p.len() as int);
            &&& starts(q, i) && starts(q1, p) && starts(q2, l)
            &&& i.len() + p.len() + l.len() <= q.len()
            &&& known(d, m)
            &&& d.params.len() == 0 ==> p.len() == 0
            &&& d.lists.len() == 0 ==> l.len() == 0 && forall|x: Seq<(usize, Option<ListDiffR>)>| x.len() == 0 ==> #[trigger] lists_r(x, d.lists)
        }),
    {
        let i = ids_ts(keys(d.params), keys(d.lists));
        let p = params_ts(d.params, 0, m);
        let l = lists_ts(d, 0, m);
        let q1 = q.skip(i.len() as int);
        parts(q, i, p + l);
        parts(q1, p, l);
        know(d, m);
    }
    #[verifier::spinoff_prover]
    pub proof fn item_parts(q: Seq<KVal>, d: ItemDiff, m: MetaTables)
        requires item_fits(d, m), starts(q, item_ts(d, m)),
        ensures
            starts(q, ids_ts(keys(d.params), keys(d.lists))),
            starts(q.skip(ids_ts(keys(d.params), keys(d.lists)).len() as int), params_ts(d.params, 0, m.items)),
            starts(q.skip(ids_ts(keys(d.params), keys(d.lists)).len() as int).skip(params_ts(d.params, 0, m.items).len() as int), lists_ts(d, 0, m.items)),
            starts(q.skip(ids_ts(keys(d.params), keys(d.lists)).len() as int).skip(params_ts(d.params, 0, m.items).len() as int).skip(lists_ts(d, 0, m.items).len() as int), refs_ts(d.refs, m.refs)),
            item_ts(d, m).len() == ids_ts(keys(d.params), keys(d.lists)).len() + params_ts(d.params, 0, m.items).len() + lists_ts(d, 0, m.items).len() + refs_ts(d.refs, m.refs).len(),
            item_ts(d, m).len() <= q.len(),
            known(d, m.items),
            refs_fit(d.refs, m.refs),
            d.params.len() == 0 ==> params_ts(d.params, 0, m.items).len() == 0,
            d.lists.len() == 0 ==> lists_ts(d, 0, m.items).len() == 0,
            d.lists.len() == 0 ==> forall|x: Seq<(usize, Option<ListDiffR>)>| x.len() == 0 ==> #[trigger] lists_r(x, d.lists),
    {
        hide(params_ts);
        hide(refs_ts);
        hide(ids_ts);
        hide(known);
        hide(starts);
        let i = ids_ts(keys(d.params), keys(d.lists));
        let p = params_ts(d.params, 0, m.items);
        let l = lists_ts(d, 0, m.items);
        let f = refs_ts(d.refs, m.refs);
        let q1 = q.skip(i.len() as int);
        parts(q, i, p + (l + f));
        parts(q1, p, l + f);
        parts(q1.skip(p.len() as int), l, f);
        assert(lists_fit(d.lists, m.items));
        know(d, m.items);
        assert(item_ts(d, m).len() <= q.len()) by { reveal(starts); }
        if d.params.len() == 0 { assert(p.len() == 0) by { reveal(params_ts); } }
        if d.lists.len() == 0 { assert(l.len() == 0); }
    }
    #[verifier::spinoff_prover]
    pub proof fn item_built(d: ItemDiff)
        ensures forall|x: ListItemDiffR| params_r(x.params@, d.params) && lists_r(x.lists@, d.lists) && refs_r(x.refs@, d.refs) ==> #[trigger] item_r(x, d),
    {
        assert forall|x: ListItemDiffR| params_r(x.params@, d.params) && lists_r(x.lists@, d.lists) && refs_r(x.refs@, d.refs) implies #[trigger] item_r(x, d) by {
            reveal_with_fuel(item_r, 1);
        }
    }
#[verifier::spinoff_prover]
//@ fn dochy_diff/src/imp/read/read_list.rs read_list_item2 -> res
//@ param Ghost(d): Ghost<ItemDiff>
//@ pass read_stored_ids Ghost(keys(d.params)), Ghost(keys(d.lists))
//@ pass read_refs Ghost(d.refs)
//@ pass read_params Ghost(d.params), Ghost(all)
//@ pass read_lists Ghost(d), Ghost(all)
//@ pass read_param Ghost(d.params[i_].1)
//@ pass read_lists_numbers Ghost(d)
        requires item_fits(d, *meta), starts(old(r).vec@, item_ts(d, *meta)),
        ensures res is Ok, item_r(res->Ok_0, d), final(r).vec@ == old(r).vec@.skip(item_ts(d, *meta).len() as int),
        decreases d, 2nat,
//@ iter 0 it
//@ iter 1 it
//@ iter 2 it
//@ loops for for for
//@ start
        hide(item_ts);
        hide(item_fits);
        hide(item_r);
        hide(lists_ts);
        hide(refs_ts);
        hide(ids_ts);
        hide(word);
        hide(cut);
        hide(refs_fit);
        hide(refs_r);
        hide(starts);
        hide(flagged);
        hide(among);
        hide(in_meta);
        hide(params_fit);
        hide(lists_fit);
        hide(lists_r);
        hide(params_ts);
        hide(vt_at);
        hide(value_ts);
        hide(meta_at);
        broadcast use skip_skip;
        let ghost pk = keys(d.params);
        let ghost lk = keys(d.lists);
        let ghost all = pk + lk;
        let ghost q0 = r.vec@;
        let ghost il = ids_ts(pk, lk).len() as int;
        let ghost tl = params_ts(d.params, 0, meta.items).len() as int;
        let ghost ll = lists_ts(d, 0, meta.items).len() as int;
        let ghost r1 = q0.skip(il);
        let ghost r2 = r1.skip(tl);
        proof {
            item_parts(q0, d, *meta);
            item_built(d);
            assert(r1.skip(0) =~= r1 && r2.skip(0) =~= r2);
            assert(tl == 0 && ll == 0 ==> r2.skip(ll) == r1);
        }
//@ pre 0
            let ghost bw = bits@;
            proof { assert(below(all, 64 * bw.len() as int)); }
//@ loop 0
                invariant
                    it.seq() == bw.map_values(|x: u64| &x), bw == words(all, bw.len()), offset == 64 * it.index@, 64 * bw.len() + 64 <= usize::MAX,
                    pk == keys(d.params), cut(pk, 64 * bw.len() as int) == pk.len(), params_fit(d.params, meta.items), among(pk, all, is_param(meta.items)),
                    tl == params_ts(d.params, 0, meta.items).len(), tl <= r1.len(),
                    params_r(params@, d.params.take(cut(pk, offset as int))), starts(r.vec@, params_ts(d.params, cut(pk, offset as int), meta.items)),
                    params_ts(d.params, cut(pk, offset as int), meta.items).len() <= tl,
                    r.vec@ == r1.skip(tl - params_ts(d.params, cut(pk, offset as int), meta.items).len()),
//@ in 0
                broadcast use skip_skip;
                proof { flagged_word(all, it.index@); }
//@ loop 1
                invariant
                    it.seq() == bw.map_values(|x: u64| &x), bw == words(all, bw.len()), offset == 64 * it.index@, 64 * bw.len() + 64 <= usize::MAX,
                    lk == keys(d.lists), cut(lk, 64 * bw.len() as int) == lk.len(), lists_fit(d.lists, meta.items), among(lk, all, is_list(meta.items)), in_meta(all, meta.items),
                    ll == lists_ts(d, 0, meta.items).len(), ll <= r2.len(),
                    lists_r(lists@, d.lists.take(cut(lk, offset as int))), starts(r.vec@, lists_ts(d, cut(lk, offset as int), meta.items)),
                    lists_ts(d, cut(lk, offset as int), meta.items).len() <= ll,
                    r.vec@ == r2.skip(ll - lists_ts(d, cut(lk, offset as int), meta.items).len()),
//@ in 1
                broadcast use skip_skip;
                proof { flagged_word(all, it.index@); }
//@ pre 2
            let ghost mut i_ = 0int;
//@ loop 2
                invariant
                    it.seq() == all.map_values(|x: usize| &x), n@ == all, all == pk + lk, pk == keys(d.params), lk == keys(d.lists), i_ == it.index@,
                    params_fit(d.params, meta.items), lists_fit(d.lists, meta.items), tl == params_ts(d.params, 0, meta.items).len(), tl <= r1.len(),
                    params_r(params@, d.params.take(least(i_, pk.len() as int))), starts(r.vec@, params_ts(d.params, least(i_, pk.len() as int), meta.items)),
                    params_ts(d.params, least(i_, pk.len() as int), meta.items).len() <= tl,
                    r.vec@ == r1.skip(tl - params_ts(d.params, least(i_, pk.len() as int), meta.items).len()),
//@ in 2
                broadcast use skip_skip;
                proof {
                    if i_ < pk.len() {
                        assert(all[i_] == d.params[i_].0);
                        assert(param_fits(d.params[i_].1, meta.items, d.params[i_].0) && vt_at(meta.items, d.params[i_].0) == (meta_at(meta.items, d.params[i_].0)->0).1->Param_0.var_type) by { reveal(params_fit); reveal(vt_at); }
                        assert(params_ts(d.params, i_, meta.items) == value_ts(d.params[i_].1, vt_at(meta.items, d.params[i_].0)) + params_ts(d.params, i_ + 1, meta.items)) by { reveal(params_ts); }
                        parts(r.vec@, value_ts(d.params[i_].1, vt_at(meta.items, d.params[i_].0)), params_ts(d.params, i_ + 1, meta.items));
                        assert(d.params.take(i_ + 1) =~= d.params.take(i_).push(d.params[i_]));
                    } else {
                        let x = d.lists[i_ - pk.len()];
                        assert(all[i_] == x.0);
                        assert(meta_at(meta.items, x.0) is Some && !((meta_at(meta.items, x.0)->0).1 is Param)) by { reveal(lists_fit); }
                    }
                }
//@ last 2
                proof { i_ = i_ + 1; }
//@ end
#[verifier::spinoff_prover]
//@ fn dochy_diff/src/imp/read/read_root.rs read_root -> res
//@ param Ghost(d): Ghost<ItemDiff>
//@ pass read_stored_ids Ghost(keys(d.params)), Ghost(keys(d.lists))
//@ pass read_params Ghost(d.params), Ghost(all)
//@ pass read_lists Ghost(d), Ghost(all)
//@ pass read_param Ghost(d.params[i_].1)
//@ pass read_lists_numbers Ghost(d)
        requires params_fit(d.params, *meta), lists_fit(d.lists, *meta), starts(old(r).vec@, root_ts(d, *meta)),
        ensures res is Ok, params_r(res->Ok_0.params@, d.params), lists_r(res->Ok_0.lists@, d.lists),
//@ iter 0 it
//@ iter 1 it
//@ iter 2 it
//@ loops for for for
//@ start
        hide(lists_ts);
        hide(ids_ts);
        hide(word);
        hide(cut);
        hide(starts);
        hide(flagged);
        hide(among);
        hide(in_meta);
        hide(params_fit);
        hide(lists_fit);
        hide(lists_r);
        hide(params_ts);
        hide(vt_at);
        hide(value_ts);
        hide(meta_at);
        broadcast use skip_skip;
        let ghost pk = keys(d.params);
        let ghost lk = keys(d.lists);
        let ghost all = pk + lk;
        let ghost q0 = r.vec@;
        let ghost il = ids_ts(pk, lk).len() as int;
        let ghost tl = params_ts(d.params, 0, *meta).len() as int;
        let ghost ll = lists_ts(d, 0, *meta).len() as int;
        let ghost r1 = q0.skip(il);
        let ghost r2 = r1.skip(tl);
        proof {
            root_parts(q0, d, *meta);
            assert(r1.skip(0) =~= r1 && r2.skip(0) =~= r2);
        }
//@ pre 0
            let ghost bw = b@;
            proof { assert(below(all, 64 * bw.len() as int)); }
//@ loop 0
                invariant
                    it.seq() == bw.map_values(|x: u64| &x), bw == words(all, bw.len()), offset == 64 * it.index@, 64 * bw.len() + 64 <= usize::MAX,
                    pk == keys(d.params), cut(pk, 64 * bw.len() as int) == pk.len(), params_fit(d.params, *meta), among(pk, all, is_param(*meta)),
                    tl == params_ts(d.params, 0, *meta).len(), tl <= r1.len(),
                    params_r(params@, d.params.take(cut(pk, offset as int))), starts(r.vec@, params_ts(d.params, cut(pk, offset as int), *meta)),
                    params_ts(d.params, cut(pk, offset as int), *meta).len() <= tl,
                    r.vec@ == r1.skip(tl - params_ts(d.params, cut(pk, offset as int), *meta).len()),
//@ in 0
                broadcast use skip_skip;
                proof { flagged_word(all, it.index@); }
//@ loop 1
                invariant
                    it.seq() == bw.map_values(|x: u64| &x), bw == words(all, bw.len()), offset == 64 * it.index@, 64 * bw.len() + 64 <= usize::MAX,
                    lk == keys(d.lists), cut(lk, 64 * bw.len() as int) == lk.len(), lists_fit(d.lists, *meta), among(lk, all, is_list(*meta)), in_meta(all, *meta),
                    ll == lists_ts(d, 0, *meta).len(), ll <= r2.len(),
                    lists_r(lists@, d.lists.take(cut(lk, offset as int))), starts(r.vec@, lists_ts(d, cut(lk, offset as int), *meta)),
                    lists_ts(d, cut(lk, offset as int), *meta).len() <= ll,
                    r.vec@ == r2.skip(ll - lists_ts(d, cut(lk, offset as int), *meta).len()),
//@ in 1
                broadcast use skip_skip;
                proof { flagged_word(all, it.index@); }
//@ pre 2
            let ghost mut i_ = 0int;
//@ loop 2
                invariant
                    it.seq() == all.map_values(|x: usize| &x), n@ == all, all == pk + lk, pk == keys(d.params), lk == keys(d.lists), i_ == it.index@,
                    params_fit(d.params, *meta), lists_fit(d.lists, *meta), tl == params_ts(d.params, 0, *meta).len(), tl <= r1.len(),
                    params_r(params@, d.params.take(least(i_, pk.len() as int))), starts(r.vec@, params_ts(d.params, least(i_, pk.len() as int), *meta)),
                    params_ts(d.params, least(i_, pk.len() as int), *meta).len() <= tl,
                    r.vec@ == r1.skip(tl - params_ts(d.params, least(i_, pk.len() as int), *meta).len()),
//@ in 2
                broadcast use skip_skip;
                proof {
                    if i_ < pk.len() {
                        assert(all[i_] == d.params[i_].0);
                        assert(param_fits(d.params[i_].1, *meta, d.params[i_].0) && vt_at(*meta, d.params[i_].0) == (meta_at(*meta, d.params[i_].0)->0).1->Param_0.var_type) by { reveal(params_fit); reveal(vt_at); }
                        assert(params_ts(d.params, i_, *meta) == value_ts(d.params[i_].1, vt_at(*meta, d.params[i_].0)) + params_ts(d.params, i_ + 1, *meta)) by { reveal(params_ts); }
                        parts(r.vec@, value_ts(d.params[i_].1, vt_at(*meta, d.params[i_].0)), params_ts(d.params, i_ + 1, *meta));
                        assert(d.params.take(i_ + 1) =~= d.params.take(i_).push(d.params[i_]));
                    } else {
                        let x = d.lists[i_ - pk.len()];
                        assert(all[i_] == x.0);
                        assert(meta_at(*meta, x.0) is Some && !((meta_at(*meta, x.0)->0).1 is Param)) by { reveal(lists_fit); }
                    }
                }
//@ last 2
                proof { i_ = i_ + 1; }
//@ end
}
}
fn main() {}
