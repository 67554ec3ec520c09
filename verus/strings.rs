#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unreachable_patterns)]
// Unit: lists of strings, some of which look like numbers (property 4).
use vstd::prelude::*;
use std::sync::Arc;

verus! {
global size_of usize == 8;

/// the decimal notation
pub mod notation {
    use super::*;
    use vstd::utf8::*;
    pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
    pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
    pub open spec fn digit(n: nat) -> char { ('0' as u32 + n % 10) as char }
    pub open spec fn worth(c: char) -> nat { (c as u32 - '0' as u32) as nat }
    /// the number digits stand for
    pub open spec fn val(s: Seq<char>) -> nat
        decreases s.len()
    {
        if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + worth(s.last()) }
    }
    /// the decimal notation of a number
    pub open spec fn dec(n: nat) -> Seq<char>
        decreases n
    {
        if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n)) }
    }
    pub open spec fn dec_int(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec((-n) as nat) } else { dec(n as nat) } }
    pub open spec fn zeros(n: nat) -> Seq<char> { Seq::new(n, |i: int| '0') }
    pub proof fn one_digit(c: char)
        requires is_digit(c),
        ensures worth(c) < 10, digit(worth(c)) == c, c != '0' ==> worth(c) > 0,
    { }
    pub proof fn a_digit(n: nat)
        ensures is_digit(digit(n)), worth(digit(n)) == n % 10, n % 10 == 0 ==> digit(n) == '0',
    { }
    pub proof fn dec_digits(n: nat)
        ensures digits(dec(n)), dec(n).len() > 0, is_ascii_chars(dec(n)), encode_utf8(dec(n)).len() == dec(n).len(),
        decreases n
    {
        a_digit(n);
        if n >= 10 { dec_digits(n / 10); }
        assert(is_ascii_chars(dec(n)));
        is_ascii_chars_encode_utf8(dec(n));
    }
    pub proof fn digits_short(s: Seq<char>)
        requires digits(s),
        ensures is_ascii_chars(s), encode_utf8(s).len() == s.len(),
    { is_ascii_chars_encode_utf8(s); }
    /// without a zero in front the notation of the number is the text
    pub proof fn exact(s: Seq<char>)
        requires digits(s), s.len() > 0, s[0] != '0',
        ensures dec(val(s)) == s, val(s) > 0,
        decreases s.len()
    {
        let f = s.drop_last();
        one_digit(s.last());
        if f.len() > 0 {
            assert(digits(f)) by { assert forall|i: int| 0 <= i < f.len() implies is_digit(#[trigger] f[i]) by { assert(f[i] == s[i]); } }
            exact(f);
            assert(val(s) == val(f) * 10 + worth(s.last()));
            assert(val(s) / 10 == val(f) && val(s) % 10 == worth(s.last())) by (nonlinear_arith) requires val(s) == val(f) * 10 + worth(s.last()), worth(s.last()) < 10;
            assert(digit(val(s)) == s.last());
            assert(dec(val(s)) =~= s);
        } else {
            assert(val(f) == 0);
            assert(dec(val(s)) =~= s);
        }
    }
    /// with zeros in front, the notation of the number and the zeros
    pub proof fn padded(s: Seq<char>)
        requires digits(s), s.len() > 0,
        ensures dec(val(s)).len() <= s.len(), zeros((s.len() - dec(val(s)).len()) as nat) + dec(val(s)) == s,
        decreases s.len()
    {
        let f = s.drop_last();
        one_digit(s.last());
        if f.len() > 0 {
            assert(digits(f)) by { assert forall|i: int| 0 <= i < f.len() implies is_digit(#[trigger] f[i]) by { assert(f[i] == s[i]); } }
            padded(f);
            assert(val(s) / 10 == val(f) && val(s) % 10 == worth(s.last())) by (nonlinear_arith) requires val(s) == val(f) * 10 + worth(s.last()), worth(s.last()) < 10;
            assert(digit(val(s)) == s.last());
            let z = zeros((f.len() - dec(val(f)).len()) as nat);
            if val(s) < 10 {
                assert(val(f) == 0);
                assert(dec(val(f)) == seq![digit(0)]);
                assert(digit(0) == '0');
                assert(dec(val(s)) == seq![s.last()]);
                assert forall|i: int| 0 <= i < f.len() implies f[i] == '0' by { assert(f[i] == (z + dec(val(f)))[i]); }
                let y = zeros((s.len() - 1) as nat) + dec(val(s));
                assert(y.len() == s.len());
                assert forall|i: int| 0 <= i < s.len() implies y[i] == s[i] by { if i < f.len() { assert(s[i] == f[i]); } }
                assert(y =~= s);
            } else {
                assert(dec(val(s)) == dec(val(f)).push(s.last()));
                assert(z + dec(val(s)) =~= (z + dec(val(f))).push(s.last()));
                assert(s =~= f.push(s.last()));
            }
        } else {
            assert(val(f) == 0);
            assert(dec(val(s)) =~= s);
            assert(zeros(0) + dec(val(s)) =~= s);
        }
    }
    pub proof fn zero_first(s: Seq<char>)
        requires digits(s),
        ensures val(seq!['0'] + s) == val(s),
        decreases s.len()
    {
        let t = seq!['0'] + s;
        if s.len() > 0 {
            assert(t.drop_last() =~= seq!['0'] + s.drop_last());
            zero_first(s.drop_last());
        } else {
            assert(t.drop_last() =~= Seq::<char>::empty());
            assert(val(t.drop_last()) == 0);
        }
    }
    pub open spec fn pow10(n: nat) -> nat
        decreases n
    { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
    pub proof fn short(n: nat, k: nat)
        requires n < pow10(k), k > 0,
        ensures dec(n).len() <= k,
        decreases k
    {
        if n >= 10 {
            if k == 1 { assert(pow10(0) == 1); assert(pow10(1) == 10); }
            assert(n / 10 < pow10((k - 1) as nat)) by (nonlinear_arith) requires n < 10 * pow10((k - 1) as nat);
            short(n / 10, (k - 1) as nat);
        }
    }
    pub proof fn i128_short(n: i128)
        ensures dec((if n < 0 { -n as int } else { n as int }) as nat).len() <= 39,
    {
        assert(pow10(39) == 1000000000000000000000000000000000000000nat) by (compute);
        short((if n < 0 { -n as int } else { n as int }) as nat, 39);
    }
}

/// the parts of the standard library and of the regex crate
pub mod library {
    use super::*;
    use super::notation::*;
    use vstd::utf8::*;
    // TRUSTED: length, comparison and building of texts
    pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == encode_utf8(s@).len();
    pub trait Compare {
        fn bytes_long(&self) -> usize;
        fn is_text(&self, t: &str) -> bool;
        fn begins_with(&self, t: &str) -> bool;
        fn closes_with(&self, t: &str) -> bool;
        fn parse_i128(&self) -> Result<i128, ()>;
    }
    impl Compare for str {
        #[verifier::external_body]
        fn bytes_long(&self) -> (r: usize) ensures r == encode_utf8(self@).len() { self.len() }
        #[verifier::external_body]
        fn is_text(&self, t: &str) -> (r: bool) ensures r == (self@ == t@) { self == t }
        #[verifier::external_body]
        fn begins_with(&self, t: &str) -> (r: bool) ensures r == (t@.len() <= self@.len() && self@.take(t@.len() as int) == t@) { self.starts_with(t) }
        #[verifier::external_body]
        fn closes_with(&self, t: &str) -> (r: bool) ensures r == (t@.len() <= self@.len() && self@.skip(self@.len() - t@.len()) == t@) { self.ends_with(t) }
        // TRUSTED: what parse reads from digits, with or without a minus, is their number; it may refuse
        #[verifier::external_body]
        fn parse_i128(&self) -> (r: Result<i128, ()>)
            ensures r is Ok && (digits(self@) || (self@.len() > 0 && self@[0] == '-' && digits(self@.skip(1)))) ==> r->Ok_0 == number_of(self@),
        { self.parse::<i128>().map_err(|_| ()) }
    }
    impl Compare for String {
        #[verifier::external_body]
        fn bytes_long(&self) -> (r: usize) ensures r == encode_utf8(self@).len() { self.len() }
        #[verifier::external_body]
        fn is_text(&self, t: &str) -> (r: bool) ensures r == (self@ == t@) { self == t }
        #[verifier::external_body]
        fn begins_with(&self, t: &str) -> (r: bool) ensures r == (t@.len() <= self@.len() && self@.take(t@.len() as int) == t@) { self.starts_with(t) }
        #[verifier::external_body]
        fn closes_with(&self, t: &str) -> (r: bool) ensures r == (t@.len() <= self@.len() && self@.skip(self@.len() - t@.len()) == t@) { self.ends_with(t) }
        #[verifier::external_body]
        fn parse_i128(&self) -> (r: Result<i128, ()>)
            ensures r is Ok && (digits(self@) || (self@.len() > 0 && self@[0] == '-' && digits(self@.skip(1)))) ==> r->Ok_0 == number_of(self@),
        { self.parse::<i128>().map_err(|_| ()) }
    }
    #[verifier::external_body]
    pub fn join3(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { format!("{}{}{}", a, b, c) }
    pub assume_specification[ String::remove ](s: &mut String, i: usize) -> (r: char)
        requires is_ascii_chars(old(s)@) || i == 0, i < old(s)@.len(),
        ensures r == old(s)@[i as int], final(s)@ == old(s)@.remove(i as int);
    pub assume_specification[ String::insert ](s: &mut String, i: usize, c: char)
        requires is_ascii_chars(old(s)@) || i == 0, i <= old(s)@.len(),
        ensures final(s)@ == old(s)@.insert(i as int, c);
    #[verifier::external_body]
    pub fn repeated(c: u8, n: usize) -> (r: String)
        requires c < 0x80,
        ensures r@ == Seq::new(n as nat, |i: int| c as char),
    { String::from_utf8(vec![c; n]).unwrap() }
    // TRUSTED: to_string of an integer is its decimal notation and parse reads it; what else parse reads is left open except that digits stand for their number
    pub trait Text { spec fn says(&self) -> Seq<char>; fn text(&self) -> (r: String) ensures r@ == self.says(); }
    impl Text for i8 { open spec fn says(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn text(&self) -> String { self.to_string() } }
    impl Text for i64 { open spec fn says(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn text(&self) -> String { self.to_string() } }
    impl Text for i128 { open spec fn says(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn text(&self) -> String { self.to_string() } }
    impl Text for f32 { uninterp spec fn says(&self) -> Seq<char>; #[verifier::external_body] fn text(&self) -> String { self.to_string() } }
    impl Text for f64 { uninterp spec fn says(&self) -> Seq<char>; #[verifier::external_body] fn text(&self) -> String { self.to_string() } }
    impl Text for String { open spec fn says(&self) -> Seq<char> { self@ } #[verifier::external_body] fn text(&self) -> String { self.to_string() } }
    impl Text for str { open spec fn says(&self) -> Seq<char> { self@ } #[verifier::external_body] fn text(&self) -> String { self.to_string() } }
    pub open spec fn number_of(s: Seq<char>) -> int { if s.len() > 0 && s[0] == '-' { -(val(s.skip(1)) as int) } else { val(s) as int } }
    /// the debug notation is not part of the property
    #[verifier::external_body]
    pub fn shown<T: std::fmt::Debug>(v: &T) -> String { format!("{:?}", v) }
    #[verifier::external_body]
    pub fn shown_undefined(v: &u8) -> String { format!("undefined{}", v) }

    // TRUSTED: what the regular expression ^(-?)(([0-9]+)(\.?)([0-9]*))$ matches, and its groups (the pattern itself is checked when the source is read)
    pub struct Parts { pub minus: Seq<char>, pub whole: Seq<char>, pub dot: Seq<char>, pub frac: Seq<char> }
    pub open spec fn is_parts(s: Seq<char>, p: Parts) -> bool {
        &&& p.minus == Seq::<char>::empty() || p.minus == seq!['-']
        &&& p.dot == Seq::<char>::empty() || p.dot == seq!['.']
        &&& digits(p.whole) && p.whole.len() > 0 && digits(p.frac)
        &&& p.dot.len() == 0 ==> p.frac.len() == 0
        &&& s == p.minus + p.whole + p.dot + p.frac
    }
    #[verifier::external_body]
    pub struct Captures<'a> { x: &'a str }
    #[verifier::external_body]
    pub struct Match<'a> { x: &'a str }
    impl<'a> Captures<'a> {
        pub uninterp spec fn view(&self) -> Parts;
        pub open spec fn group(&self, i: int) -> Seq<char> {
            if i == 1 { self@.minus } else if i == 2 { self@.whole + self@.dot + self@.frac } else if i == 3 { self@.whole } else if i == 4 { self@.dot } else { self@.frac }
        }
        #[verifier::external_body]
        pub fn at(&self, i: usize) -> (r: &'a str)
            requires 1 <= i <= 5,
            ensures r@ == self.group(i as int),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get(&self, i: usize) -> (r: Option<Match<'a>>)
            requires i == 4,
            ensures r is Some ==> r->0@ == self@.dot && r->0.from() == self@.minus.len() + self@.whole.len(), self@.dot.len() > 0 ==> r is Some,
        { unimplemented!() }
    }
    impl<'a> Match<'a> {
        pub uninterp spec fn view(&self) -> Seq<char>;
        pub uninterp spec fn from(&self) -> nat;
        #[verifier::external_body]
        pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body]
        pub fn start(&self) -> (r: usize) ensures r == self.from() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn captures<'a>(s: &'a str) -> (r: Option<Captures<'a>>)
        ensures r is Some ==> is_parts(s@, r->0@),
    { unimplemented!() }
    pub proof fn parts_short(s: Seq<char>, p: Parts)
        requires is_parts(s, p),
        ensures
            is_ascii_chars(s), encode_utf8(s).len() == s.len(), is_ascii_chars(p.minus), encode_utf8(p.minus).len() == p.minus.len(),
            is_ascii_chars(p.dot), encode_utf8(p.dot).len() == p.dot.len(),
    {
        assert forall|i: int| 0 <= i < s.len() implies (0 <= (#[trigger] s[i]) as u32 && s[i] as u32 <= 127) by {
            if i >= p.minus.len() && i < p.minus.len() + p.whole.len() { assert(s[i] == p.whole[i - p.minus.len()]); }
            if i >= p.minus.len() + p.whole.len() + p.dot.len() { assert(s[i] == p.frac[i - p.minus.len() - p.whole.len() - p.dot.len()]); }
        }
        is_ascii_chars_encode_utf8(s);
        is_ascii_chars_encode_utf8(p.minus);
        is_ascii_chars_encode_utf8(p.dot);
    }
    // TRUSTED: map over the elements in their order, collected into a vector
    pub trait Strings: Sized { spec fn all(&self) -> Seq<Seq<char>>; }
    #[verifier::external_body]
    pub fn each_string<I: Strings, F: Fn(String) -> KVal>(it: I, f: F) -> (r: Vec<KVal>)
        requires forall|s: String| f.requires((s,)),
        ensures r@.len() == it.all().len(), forall|i: int| 0 <= i < r@.len() ==> exists|s: String| s@ == it.all()[i] && #[trigger] f.ensures((s,), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn each_value<F: Fn(&KVal) -> String>(v: &Vec<KVal>, f: F) -> (r: Vec<String>)
        requires forall|k: &KVal| f.requires((k,)),
        ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    use super::values::KVal;
}

pub mod values {
    use super::*;
    use super::notation::*;
    use super::library::*;
    use vstd::utf8::*;
    #[derive(Clone, Copy)]
//@ item dochy_compaction/src/kval_enum.rs struct Decimal
//@ item dochy_compaction/src/kval_enum.rs enum KVal

    /// a number with a dot in it
    pub open spec fn dotted(n: int, dot: nat) -> Seq<char> {
        let s = dec((if n < 0 { -n } else { n }) as nat);
        let t = if dot == 0 { s } else if dot >= s.len() { seq!['0', '.'] + zeros((dot - s.len()) as nat) + s } else { s.insert(s.len() - dot, '.') };
        if n < 0 { seq!['-'] + t } else { t }
    }
    /// the text a value is read back as; the kinds a text never becomes are left open
    pub uninterp spec fn other_text(k: KVal) -> Seq<char>;
    pub open spec fn text_kind(k: KVal) -> bool { k is Bit || k is Bool || k is Byte || k is Int || k is Decimal || k is Str16 || k is Str256 || k is BigStr }
    pub open spec fn text_of(k: KVal) -> Seq<char> {
        match k {
            KVal::Bit(b) => if b { seq!['1'] } else { seq!['0'] },
            KVal::Bool(b) => if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] },
            KVal::Byte(b) => dec_int(b as int),
            KVal::Int(i) => dec_int(i as int),
            KVal::Decimal(d) => dotted(d.int_ as int, d.dot as nat),
            KVal::Str16(s) => s@,
            KVal::Str256(s) => s@,
            KVal::BigStr(s) => s@,
            _ => Seq::empty(),
        }
    }
    /// what the codec asks for
    pub open spec fn fits(k: KVal) -> bool {
        match k { KVal::Str16(s) => encode_utf8(s@).len() < 16, KVal::Str256(s) => encode_utf8(s@).len() < 256, _ => true }
    }
    pub open spec fn stands_for(k: KVal, s: Seq<char>) -> bool { text_kind(k) && text_of(k) == s && fits(k) }
    pub mod decimal_lib {
        use super::*;
//@ fn dochy_compaction/src/enc_dec/decimal_lib.rs to_string -> r
//@ sub num\.to_string\(\) => num.text()
//@ sub String::from_utf8\(vec!\['0' as u8; (zeros as usize)\]\)\.unwrap\(\) => repeated('0' as u8, \1)
            ensures r@ == dotted(num as int, dot as nat),
//@ start
            let ghost a = dec((if num < 0 { -num as int } else { num as int }) as nat);
            proof {
                reveal_strlit("0.");
                i128_short(num);
                dec_digits(a_of(num));
                digits_short(a);
                assert((seq!['-'] + a).remove(0) =~= a);
                assert(Seq::<char>::empty() + a =~= a);
                assert(zeros(0) + a =~= a);
            }
//@ before return result\b
            proof { assert(result@ =~= dotted(num as int, dot as nat)); }
//@ end
        pub open spec fn a_of(num: i128) -> nat { (if num < 0 { -num as int } else { num as int }) as nat }
    }
    impl Decimal {
//@ fn dochy_compaction/src/kval_enum.rs Decimal::new -> r
            ensures r.int_ == int_, r.dot == dot,
//@ end
//@ fn dochy_compaction/src/kval_enum.rs Decimal::to_string -> r
//@ sub crate::enc_dec:: => 
            ensures r@ == dotted(self.int_ as int, self.dot as nat),
//@ end
    }
}

/// a single string as the value of a member
pub mod single {
    use super::*;
    use super::library::*;
    use super::values::*;
    use super::values::{Decimal, KVal};
    use vstd::utf8::*;
    pub open spec fn string_of(k: KVal) -> Option<Seq<char>> {
        match k { KVal::Bit(_) => Some(Seq::empty()), KVal::Str16(s) => Some(s@), KVal::Str256(s) => Some(s@), KVal::BigStr(s) => Some(s@), _ => None }
    }
    pub proof fn no_bytes(s: Seq<char>)
        ensures encode_utf8(s).len() == 0 <==> s.len() == 0,
    {
        encode_utf8_decode_utf8(s);
        let e = Seq::<char>::empty();
        assert(encode_utf8(e).len() == 0) by { assert(is_ascii_chars(e)); is_ascii_chars_encode_utf8(e); }
        encode_utf8_decode_utf8(e);
        if encode_utf8(s).len() == 0 { assert(encode_utf8(s) =~= encode_utf8(e)); }
        if s.len() == 0 { assert(s =~= e); }
    }
    impl KVal {
//@ fn dochy_compaction/src/kval_enum.rs KVal::as_string -> r
//@ sub \.to_string\(\) => .text()
            ensures match string_of(*self) { Some(s) => r is Some && r->0@ == s, None => r is None },
//@ end
    }
//@ fn dochy_compaction/src/basic_compaction.rs comp_str -> r
        ensures string_of(r) == Some(s@), fits(r),
//@ start
        proof { no_bytes(s@); }
//@ end
}

/// strings into values and back
pub mod string_compaction {
    use super::*;
    use super::notation::*;
    use super::library::*;
    use super::values::*;
    use super::values::{Decimal, KVal};
    use vstd::utf8::*;
//@ item dochy_compaction/src/string_compaction.rs struct NumResult
//@ sub ^struct => pub struct
    /// the number, printed, is the text
    pub open spec fn is_number(n: NumResult, s: Seq<char>) -> bool {
        (n.number == 0 && n.minus) || s == dotted(n.number as int, (match n.dot { Some(d) => d as nat, None => 0 }))
    }
    pub proof fn reads(s: Seq<char>, p: Parts, n: NumResult)
        requires
            is_parts(s, p),
            n.minus == (p.minus.len() != 0),
            n.number == number_of(p.minus + p.whole + p.frac),
            p.dot.len() > 0 ==> p.frac.len() > 0 && n.dot == Some(p.frac.len() as u8) && p.frac.len() < 256,
            p.dot.len() == 0 ==> n.dot is None,
            p.whole[0] == '0' ==> p.whole.len() == 1 && p.dot.len() > 0,
        ensures is_number(n, s),
    {
        let d = p.whole + p.frac;
        assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by {
            if i < p.whole.len() { assert(d[i] == p.whole[i]); } else { assert(d[i] == p.frac[i - p.whole.len()]); }
        }
        let t = p.minus + p.whole + p.frac;
        if p.minus.len() > 0 {
            assert(t[0] == '-');
            assert(t.skip(1) =~= d);
        } else {
            assert(t =~= d);
            assert(is_digit(t[0])) by { assert(t[0] == d[0]); }
        }
        let v = val(d);
        assert(n.number == (if n.minus { -(v as int) } else { v as int }));
        if !(n.number == 0 && n.minus) {
            let w = p.whole + p.dot + p.frac;
            if p.whole[0] == '0' {
                assert(d =~= seq!['0'] + p.frac);
                zero_first(p.frac);
                padded(p.frac);
                let z = zeros((p.frac.len() - dec(v).len()) as nat);
                assert(w =~= seq!['0', '.'] + (z + dec(v)));
                assert(w =~= seq!['0', '.'] + z + dec(v));
            } else {
                exact(d);
                if p.dot.len() > 0 {
                    assert(d.insert(p.whole.len() as int, '.') =~= w);
                } else {
                    assert(w =~= d);
                }
            }
            assert(s =~= p.minus + w);
        }
    }
//@ fn dochy_compaction/src/string_compaction.rs rex -> r
//@ sub static RE: Lazy<Regex> = Lazy::new\(\|\| regex::Regex::new\(r#"\^\(-\?\)\(\(\[0-9\]\+\)\(\\\.\?\)\(\[0-9\]\*\)\)\$"#\)\.unwrap\(\)\);\s*return RE\.captures\(s\); => return captures(s);
//@ sub regex::Captures => Captures
        ensures r is Some ==> is_parts(s@, r->0@),
//@ end
//@ fn dochy_compaction/src/string_compaction.rs get_number/get_dot_info -> r
//@ sub? \.len\(\) => .bytes_long()
        requires m is Some && m->0@.len() > 0 ==> m->0.from() < len && is_ascii_chars(m->0@), m is Some ==> encode_utf8(m->0@).len() == m->0@.len(),
        ensures
            m is Some && m->0@.len() > 0 ==> (if len - m->0.from() - 1 < 256 { r == Ok::<Option<u8>, ()>(Some((len - m->0.from() - 1) as u8)) } else { r is Err }),
            m is None || m->0@.len() == 0 ==> r == Ok::<Option<u8>, ()>(None),
//@ end
//@ fn dochy_compaction/src/string_compaction.rs get_number -> r
//@ hoist get_dot_info
//@ sub? \.len\(\) => .bytes_long()
//@ sub &caps\[(\d)\] => caps.at(\1)
//@ sub format!\("\{\}\{\}\{\}", => join3(
//@ sub \.parse::<i128>\(\) => .parse_i128()
//@ sub? \.starts_with\( => .begins_with(
//@ sub? \.ends_with\( => .closes_with(
        ensures r is Some ==> is_number(r->0, s@),
//@ start
        let ghost text = s@;
        proof {
            reveal_strlit("."); reveal_strlit("0"); reveal_strlit("0.");
            assert("."@ =~= seq!['.'] && "0"@ =~= seq!['0'] && "0."@ =~= seq!['0', '.']);
        }
//@ after let minus = [^;]*;
        let ghost p = caps@;
        let ghost w = p.whole + p.dot + p.frac;
        let ghost num = p.minus + p.whole + p.frac;
        proof {
            parts_short(text, p);
            if p.minus.len() > 0 { assert(num.skip(1) =~= p.whole + p.frac); assert(num[0] == '-'); } else { assert(num =~= p.whole + p.frac); }
            assert(digits(p.whole + p.frac));
            if p.dot.len() > 0 && p.frac.len() == 0 { assert(w.skip(w.len() - 1) =~= seq!['.']); }
            if p.dot.len() > 0 && p.frac.len() > 0 {
                assert(w.skip(w.len() - 1)[0] == w.last());
                assert(w.last() == p.frac.last());
            }
            if p.whole[0] == '0' {
                assert(w.take(1) =~= seq!['0']);
                if w.len() >= 2 && w.take(2) == seq!['0', '.'] { assert(w[1] == w.take(2)[1]); if p.whole.len() > 1 { assert(w[1] == p.whole[1]); } }
            } 
        }
//@ after let result = [^;]*;
        proof {
            if (p.dot.len() > 0 ==> p.frac.len() > 0) && (p.whole[0] == '0' ==> p.whole.len() == 1 && p.dot.len() > 0) { reads(text, p, result); }
        }
//@ end
//@ fn dochy_compaction/src/string_compaction.rs get_str -> r
        ensures stands_for(r, s@),
//@ end
//@ fn dochy_compaction/src/string_compaction.rs to_enum -> r
//@ sub? \bs == ("[^"]*") => s.is_text(\1)
        ensures stands_for(r, string@),
//@ start
        proof {
            reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("true"); reveal_strlit("false");
            let s = string@;
            if s == "0"@ { assert(s =~= seq!['0']); }
            if s == "1"@ { assert(s =~= seq!['1']); }
            if s == "true"@ { assert(s =~= seq!['t', 'r', 'u', 'e']); }
            if s == "false"@ { assert(s =~= seq!['f', 'a', 'l', 's', 'e']); }
        }
//@ end
//@ fn dochy_compaction/src/string_compaction.rs to_string/s -> r
//@ sub \.to_string\(\) => .text()
        ensures r@ == t@,
//@ end
//@ fn dochy_compaction/src/string_compaction.rs to_string -> r
//@ hoist s
//@ sub \.to_string\(\) => .text()
//@ sub? d\.text\(\),(\s*KVal::BigStr) => d.to_string(),\1
//@ sub format!\("\{:\?\}", v\) => shown(v)
//@ sub format!\("undefined\{\}", u\) => shown_undefined(u)
        ensures text_kind(*k) ==> r@ == text_of(*k),
//@ start
        proof {
            reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("true"); reveal_strlit("false");
            assert("0"@ =~= seq!['0']); assert("1"@ =~= seq!['1']); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']);
        }
//@ end
//@ fn dochy_compaction/src/string_compaction.rs to_kvals -> r
//@ sub I : Iterator<Item=String> => I: Strings
//@ sub strs\.map\(\|(\w+)\| (.*?)\)\.collect\(\) => each_string(strs, |\1: String| -> (k: KVal) ensures stands_for(k, \1@) { \2 })
        ensures values_of(r@, strs.all()),
//@ end
    /// each value stands for its string
    pub open spec fn values_of(ks: Seq<KVal>, ss: Seq<Seq<char>>) -> bool {
        ks.len() == ss.len() && forall|i: int| 0 <= i < ks.len() ==> stands_for(#[trigger] ks[i], ss[i])
    }
    pub open spec fn strings_of(r: Seq<String>, ss: Seq<Seq<char>>) -> bool {
        r.len() == ss.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == ss[i]
    }
//@ fn dochy_compaction/src/string_compaction.rs to_strings -> r
//@ sub kihons\.iter\(\)\.map\(\|(\w+)\| (.*?)\)\.collect\(\) => each_value(kihons, |\1: &KVal| -> (r: String) ensures text_kind(*\1) ==> r@ == text_of(*\1) { \2 })
        ensures r@.len() == kihons@.len(), forall|i: int| 0 <= i < r@.len() && text_kind(kihons@[i]) ==> (#[trigger] r@[i])@ == text_of(kihons@[i]),
//@ end
    /// the bytes of a sequence of values (unit `codec` gives them)
    pub uninterp spec fn layout(s: Seq<KVal>) -> Seq<u8>;
    pub open spec fn storable(v: KVal) -> bool { text_kind(v) && fits(v) && (v is BigStr ==> encode_utf8(v->BigStr_0@).len() < 0x10_0000_0000_0000) }
    pub open spec fn storable_seq(s: Seq<KVal>) -> bool {
        s.len() < 0x10_0000_0000_0000 && forall|i: int| 0 <= i < s.len() ==> storable(#[trigger] s[i])
    }
    pub open spec fn same(a: KVal, b: KVal) -> bool {
        match (a, b) {
            (KVal::Str16(x), KVal::Str16(y)) => x@ == y@,
            (KVal::Str256(x), KVal::Str256(y)) => x@ == y@,
            (KVal::Decimal(x), KVal::Decimal(y)) => x.int_ == y.int_ && x.dot == y.dot,
            (KVal::BigStr(x), KVal::BigStr(y)) => x@ == y@,
            _ => a == b,
        }
    }
    pub struct CompError;
    // ASSUMED: discharged in unit `codec`
    #[verifier::external_body]
    pub fn encode_to_vec(input: &Vec<KVal>) -> (r: Result<Vec<u8>, CompError>)
        requires storable_seq(input@), layout(input@).len() <= usize::MAX,
        ensures r is Ok, r->Ok_0@ == layout(input@),
    { unimplemented!() }
    pub trait Read: Sized { spec fn rest(&self) -> Seq<u8>; }
    impl<'a> Read for &'a [u8] { open spec fn rest(&self) -> Seq<u8> { self@ } }
    pub open spec fn read_back(r: Seq<KVal>, s: Seq<KVal>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> same(#[trigger] r[i], s[i]) }
    // ASSUMED: discharged in unit `codec`
    #[verifier::external_body]
    pub fn decode<R: Read>(read: &mut R) -> (r: Result<(Vec<KVal>, usize), CompError>)
        ensures forall|s: Seq<KVal>| storable_seq(s) && old(read).rest() == #[trigger] layout(s) ==> r is Ok && read_back(r->Ok_0.0@, s) && r->Ok_0.1 == layout(s).len(),
    { unimplemented!() }
    // TRUSTED: nothing in memory takes 2^52 bytes
    #[verifier::external_body]
    pub proof fn in_memory(v: Vec<KVal>)
        ensures v@.len() < 0x10_0000_0000_0000, layout(v@).len() <= usize::MAX, forall|i: int| 0 <= i < v@.len() ==> match #[trigger] v@[i] {
            KVal::BigStr(s) => encode_utf8(s@).len() < 0x10_0000_0000_0000,
            _ => true,
        },
    { }
    pub open spec fn stores(b: Seq<u8>, ks: Seq<KVal>, ss: Seq<Seq<char>>) -> bool { storable_seq(ks) && b == layout(ks) && values_of(ks, ss) }
    /// bytes that hold a list of strings
    pub open spec fn holds(b: Seq<u8>, ss: Seq<Seq<char>>) -> bool { exists|ks: Seq<KVal>| #[trigger] stores(b, ks, ss) }
//@ fn dochy_compaction/src/string_compaction.rs compress_strings -> r
//@ sub I : Iterator<Item=String> => I: Strings
//@ sub Result<Vec<u8>> => Result<Vec<u8>, CompError>
        ensures r is Ok, holds(r->Ok_0@, strs.all()),
//@ after let vec [^;]*;
        proof { in_memory(vec); }
//@ after let encoded [^;]*;
        proof { assert(stores(encoded@, vec@, strs.all())); }
//@ end
//@ fn dochy_compaction/src/string_compaction.rs decompress -> r
//@ sub Result<\(Vec<String>, usize\)> => Result<(Vec<String>, usize), CompError>
        ensures forall|ss: Seq<Seq<char>>| #[trigger] holds(bytes@, ss) ==> r is Ok && strings_of(r->Ok_0.0@, ss) && r->Ok_0.1 == bytes@.len(),
//@ end
}
} // verus!
fn main() {}
