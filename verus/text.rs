#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_unsafe, unreachable_patterns, unreachable_code, non_camel_case_types)]
// Unit: the values a parsed text stands for (property 12).
use vstd::prelude::*;
use std::rc::Rc;

verus! {
global size_of usize == 8;

pub mod jval {
    use super::*;
    // TRUSTED: LinkedHashMap is a map that also keeps the order its entries were added in
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct LinkedHashMap<K, V> { x: std::collections::HashMap<K, V> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct OccupiedEntry<K, V> { x: std::collections::HashMap<K, V> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct VacantEntry<K, V> { x: std::collections::HashMap<K, V> }
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub enum Entry<K, V> { Occupied(OccupiedEntry<K, V>), Vacant(VacantEntry<K, V>) }
    impl<V> OccupiedEntry<String, V> {
        #[verifier::external_body]
        pub fn key(&self) -> &String { unimplemented!() }
    }
    impl<V> VacantEntry<String, V> {
        pub uninterp spec fn name(&self) -> Seq<char>;
        /// what is put there
        pub uninterp spec fn put(&self) -> Option<V>;
        #[verifier::external_body]
        pub fn insert(self, v: V) ensures self.put() == Some(v) { unimplemented!() }
    }
    impl<V> LinkedHashMap<String, V> {
        pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
        pub uninterp spec fn order(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty(), r.order() == Seq::<Seq<char>>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn entry(&mut self, k: String) -> (r: Entry<String, V>)
            ensures match r {
                Entry::Occupied(_) => old(self)@.dom().contains(k@) && final(self)@ == old(self)@ && final(self).order() == old(self).order(),
                Entry::Vacant(e) => !old(self)@.dom().contains(k@)
                    && (match e.put() {
                        Some(v) => final(self)@ == old(self)@.insert(k@, v) && final(self).order() == old(self).order().push(k@),
                        None => final(self)@ == old(self)@ && final(self).order() == old(self).order(),
                    }),
            },
        { unimplemented!() }
    }
//@ item dochy_json5/src/jval.rs enum JVal
//@ item dochy_json5/src/jval.rs struct Span
}

pub mod mean {
    use super::*;
    use super::jval::JVal;
    use super::jval::LinkedHashMap;
    /// the rules of the grammar that give parts of a text
    pub enum Rule { null, undefined, boolean, string, identifier, number, array, object, char_literal, char_escape_sequence, nul_escape_sequence, hex_escape_sequence, unicode_escape_sequence, other }
    /// a part of a text: by which rule, its characters, its parts
    pub struct Node { pub rule: Rule, pub text: Seq<char>, pub inner: Seq<Node> }
    // ------------------------------------------------------------------ what the grammar gives
    pub open spec fn ascii(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) as u32 <= 127 }
    pub open spec fn quoted(t: Seq<char>) -> bool { t.len() >= 2 && (t[0] == '"' || t[0] == '\'') && t.last() == t[0] }
    pub open spec fn piece(n: Node) -> bool { n.rule is char_literal || n.rule is char_escape_sequence || n.rule is nul_escape_sequence || n.rule is hex_escape_sequence || n.rule is unicode_escape_sequence }
    pub open spec fn pieces(s: Seq<Node>) -> bool { forall|i: int| 0 <= i < s.len() ==> piece(#[trigger] s[i]) }
    pub open spec fn key(n: Node) -> bool { n.rule is identifier || n.rule is string && quoted(n.text) }
    pub open spec fn shaped(n: Node) -> bool
        decreases n,
    {
        match n.rule {
            Rule::null => true,
            Rule::undefined => true,
            Rule::boolean => n.text == "true"@ || n.text == "false"@,
            Rule::string => pieces(n.inner),
            Rule::number => ascii(n.text) && n.text.len() > 0 && (hex_text(n.text) ==> !has_char(n.text, '.')),
            Rule::array => forall|i: int| 0 <= i < n.inner.len() ==> shaped(#[trigger] n.inner[i]),
            Rule::object => n.inner.len() % 2 == 0 && forall|i: int| 0 <= i < n.inner.len() ==> (if i % 2 == 0 { key(#[trigger] n.inner[i]) } else { shaped(n.inner[i]) }),
            _ => false,
        }
    }
    // ------------------------------------------------------------------ what it stands for
    pub open spec fn has_char(t: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == c }
    pub open spec fn hex_text(t: Seq<char>) -> bool { t.len() > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X') }
    /// written without a fraction and an exponent
    pub open spec fn int_text(t: Seq<char>) -> bool { !has_char(t, '.') && (hex_text(t) || !has_char(t, 'e') && !has_char(t, 'E')) }
    // TRUSTED: what the standard library reads out of digits
    pub uninterp spec fn decimal(t: Seq<char>) -> i64;
    pub uninterp spec fn float(t: Seq<char>) -> f64;
    pub uninterp spec fn digits(t: Seq<char>, radix: u32) -> u32;
    pub open spec fn int_of(t: Seq<char>) -> i64 { if hex_text(t) { digits(t.skip(2), 16) as i64 } else { decimal(t) } }
    pub open spec fn escaped(t: Seq<char>) -> Seq<char> {
        if t == "b"@ { seq!['\u{8}'] } else if t == "f"@ { seq!['\u{c}'] } else if t == "n"@ { seq!['\u{a}'] } else if t == "r"@ { seq!['\u{d}'] } else if t == "t"@ { seq!['\u{9}'] } else if t == "v"@ { seq!['\u{b}'] } else { t }
    }
    /// the characters a part of a string stands for
    pub open spec fn piece_is(n: Node, s: Seq<char>) -> bool {
        match n.rule {
            Rule::char_literal => s == n.text,
            Rule::char_escape_sequence => s == escaped(n.text),
            Rule::nul_escape_sequence => s == seq!['\u{0}'],
            _ => s.len() == 1 && s[0] as u32 == digits(n.text, 16),
        }
    }
    pub open spec fn joined(s: Seq<Seq<char>>) -> Seq<char>
        decreases s.len(),
    {
        if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last() }
    }
    pub open spec fn joins(s: Seq<Node>, p: Seq<Seq<char>>, t: Seq<char>) -> bool { p.len() == s.len() && t == joined(p) && forall|i: int| 0 <= i < s.len() ==> piece_is(#[trigger] s[i], p[i]) }
    pub open spec fn string_is(s: Seq<Node>, t: Seq<char>) -> bool { exists|p: Seq<Seq<char>>| #[trigger] joins(s, p, t) }
    pub open spec fn name_of(n: Node) -> Seq<char> { if n.rule is string { n.text.subrange(1, n.text.len() - 1) } else { n.text } }
    pub open spec fn entry_at(s: Seq<Node>, i: int, m: LinkedHashMap<String, JVal>) -> bool { m.order()[i] == name_of(s[2 * i]) && m@.dom().contains(m.order()[i]) }
    pub open spec fn entries(s: Seq<Node>, n: int, m: LinkedHashMap<String, JVal>) -> bool {
        &&& m.order().len() == n
        &&& forall|i: int| 0 <= i < n ==> #[trigger] entry_at(s, i, m)
        &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] m.order()[i] != #[trigger] m.order()[j]
        &&& forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < n && #[trigger] m.order()[i] == k
    }
    pub open spec fn means(n: Node, v: JVal) -> bool
        decreases n,
    {
        match n.rule {
            Rule::null => v is Null,
            Rule::undefined => v is Undefined,
            Rule::boolean => v is Bool && v->Bool_0 == (n.text == "true"@),
            Rule::string => v is String && string_is(n.inner, v->String_0@),
            Rule::number => if int_text(n.text) { v is Int && v->Int_0 == int_of(n.text) } else { v is Double && v->Double_0 == float(n.text) },
            Rule::array => v is Array && v->Array_0@.len() == n.inner.len() && forall|i: int| 0 <= i < n.inner.len() ==> means(#[trigger] n.inner[i], v->Array_0@[i]),
            Rule::object => v is Map && 2 * v->Map_0.order().len() == n.inner.len() && entries(n.inner, v->Map_0.order().len() as int, v->Map_0)
                && forall|i: int| 0 <= i < n.inner.len() && i % 2 == 1 ==> means(#[trigger] n.inner[i], v->Map_0@[v->Map_0.order()[i / 2]]),
            _ => false,
        }
    }
}

pub mod text {
    use super::*;
    use super::mean::*;
    use super::jval::{JVal, LinkedHashMap, Entry};
    type Chars = vstd::seq::Seq<char>;
    // the words of an error are left out
    pub struct MyError;
    pub type Result<T> = std::result::Result<T, MyError>;
    impl MyError {
        #[verifier::external_body]
        pub fn new(s: String, start: usize) -> MyError { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn words() -> String { unimplemented!() }
    #[verifier::external_body]
    pub fn create_err(s: &str, pair: &Pair<'_, Rule>) -> MyError { unimplemented!() }
    // TRUSTED: pest hands out the parts of a text; places in the text are only used in the words of errors
    #[verifier::external_body]
    pub struct Span<'a> { x: &'a str }
    #[verifier::external_body]
    pub struct Pos<'a> { x: &'a str }
    impl<'a> Pos<'a> {
        #[verifier::external_body]
        pub fn line_col(&self) -> (usize, usize) { unimplemented!() }
    }
    impl<'a> Span<'a> {
        #[verifier::external_body]
        pub fn start(&self) -> usize { unimplemented!() }
        #[verifier::external_body]
        pub fn end(&self) -> usize { unimplemented!() }
        #[verifier::external_body]
        pub fn start_pos(&self) -> Pos<'a> { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(R)]
    pub struct Pair<'a, R> { x: &'a R }
    impl<'a> Pair<'a, Rule> {
        pub uninterp spec fn view(&self) -> Node;
        #[verifier::external_body]
        pub fn as_span(&self) -> Span<'a> { unimplemented!() }
        #[verifier::external_body]
        pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule { unimplemented!() }
        #[verifier::external_body]
        pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@.text { unimplemented!() }
        #[verifier::external_body]
        pub fn into_inner(self) -> (r: Pairs<'a, Rule>) ensures r@ == self@.inner { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(R)]
    pub struct Pairs<'a, R> { x: &'a R }
    impl<'a> Pairs<'a, Rule> {
        pub uninterp spec fn view(&self) -> vstd::seq::Seq<Node>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<Pair<'a, Rule>>)
            ensures match r {
                Some(p) => old(self)@.len() > 0 && p@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    // TRUSTED (the grammar is the bounded part of the property): the parts the grammar gives
    pub uninterp spec fn tree(t: Chars) -> Node;
    #[verifier::external_body]
    pub fn parse<'a>(t: &'a str) -> (r: Result<Pair<'a, Rule>>) ensures r is Ok ==> r->Ok_0@ == tree(t@) && shaped(tree(t@)) { unimplemented!() }
    // TRUSTED: texts
    #[verifier::external_body]
    pub fn text_of(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn one(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(s: &str, c: char) -> (r: bool) ensures r == has_char(s@, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn size(s: &str) -> (r: usize) ensures ascii(s@) ==> r == s@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn front(s: &str, n: usize) -> (r: &str) requires ascii(s@), n <= s@.len(), ensures r@ == s@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn rest(s: &str, n: usize) -> (r: &str) requires ascii(s@), n <= s@.len(), ensures r@ == s@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn unquoted(s: &str) -> (r: &str) requires quoted(s@), ensures r@ == s@.subrange(1, s@.len() - 1) { unimplemented!() }
    pub struct NoNumber;
    #[verifier::external_body]
    pub fn to_i64(s: &str) -> (r: std::result::Result<i64, NoNumber>) ensures r is Ok ==> r->Ok_0 == decimal(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_f64(s: &str) -> (r: std::result::Result<f64, NoNumber>) ensures r is Ok ==> r->Ok_0 == float(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u32(s: &str, radix: u32) -> (r: std::result::Result<u32, NoNumber>) ensures r is Ok ==> r->Ok_0 == digits(s@, radix) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(f: f64) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn infinity() -> f64 { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_infinity() -> f64 { unimplemented!() }
    #[verifier::external_body]
    pub fn nan() -> f64 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_float(n: u32) -> f64 { unimplemented!() }
    #[verifier::external_body]
    pub fn char_of(n: u32) -> (r: Option<char>) ensures r is Some ==> r->0 as u32 == n { unimplemented!() }
    pub fn or<T, E, F>(r: std::result::Result<T, E>, e: F) -> (x: std::result::Result<T, F>)
        ensures x is Ok <==> r is Ok, r is Ok ==> x->Ok_0 == r->Ok_0,
    {
        match r { Ok(v) => Ok(v), Err(_) => Err(e) }
    }
    // TRUSTED: collecting texts: all of them one after the other, or the first error
    #[verifier::external_body]
    pub fn collected<'a, F: Fn(Pair<'a, Rule>) -> Result<String>>(ps: Pairs<'a, Rule>, f: F) -> (r: Result<String>)
        requires
            pieces(ps@),
            forall|p: Pair<'a, Rule>| piece(p@) ==> #[trigger] f.requires((p,)),
            forall|p: Pair<'a, Rule>, x: Result<String>| #[trigger] f.ensures((p,), x) && x is Ok ==> piece_is(p@, x->Ok_0@),
        ensures r is Ok ==> string_is(ps@, r->Ok_0@),
    { unimplemented!() }
    pub proof fn nul_text() ensures "\u{0000}"@ == seq!['\u{0}'] { reveal_strlit("\u{0000}"); assert("\u{0000}"@ =~= seq!['\u{0}']); }
//@ item dochy_json5/src/de.rs struct Seq
//@ item dochy_json5/src/de.rs struct Map
//@ fn dochy_json5/src/deserialize_item.rs s
//@ end
//@ fn dochy_json5/src/deserialize_item.rs get_unit -> r
        ensures r is Null,
//@ end
//@ fn dochy_json5/src/deserialize_item.rs get_undefined -> r
        ensures r is Undefined,
//@ end
//@ fn dochy_json5/src/deserialize_item.rs get_bool -> r
        ensures r is Bool && r->Bool_0 == b,
//@ end
//@ fn dochy_json5/src/deserialize_item.rs get_string -> r
        ensures r is String && r->String_0 == st,
//@ end
//@ fn dochy_json5/src/deserialize_item.rs get_i64 -> r
        ensures r is Int && r->Int_0 == i,
//@ end
//@ fn dochy_json5/src/deserialize_item.rs get_f64 -> r
        ensures r is Double && r->Double_0 == f,
//@ end
//@ fn dochy_json5/src/de.rs parse_bool -> r
//@ sub? "(\w+)" =. => x if x == "\1" => 
        requires pair@.text == "true"@ || pair@.text == "false"@,
        ensures r == (pair@.text == "true"@),
//@ start
        proof { reveal_strlit("true"); reveal_strlit("false"); assert("true"@.len() == 4 && "false"@.len() == 5); }
//@ end
//@ fn dochy_json5/src/de.rs parse_char_escape_sequence -> r
//@ sub? String::from\( => text_of(
//@ sub? "(\w)" =. => x if x == "\1" => 
        ensures r@ == escaped(pair@.text),
//@ start
        proof {
            reveal_strlit("b"); reveal_strlit("f"); reveal_strlit("n"); reveal_strlit("r"); reveal_strlit("t"); reveal_strlit("v");
            reveal_strlit("\u{0008}"); reveal_strlit("\u{000C}"); reveal_strlit("\n"); reveal_strlit("\r"); reveal_strlit("\t"); reveal_strlit("\u{000B}");
            assert("b"@[0] == 'b' && "f"@[0] == 'f' && "n"@[0] == 'n' && "r"@[0] == 'r' && "t"@[0] == 't' && "v"@[0] == 'v');
            assert("\u{0008}"@ =~= seq!['\u{8}'] && "\u{000C}"@ =~= seq!['\u{c}'] && "\n"@ =~= seq!['\u{a}'] && "\r"@ =~= seq!['\u{d}'] && "\t"@ =~= seq!['\u{9}'] && "\u{000B}"@ =~= seq!['\u{b}']);
        }
//@ end
//@ fn dochy_json5/src/de.rs is_hex_literal -> r
//@ sub? s\.len\(\) => size(s)
//@ sub? &s\[\.\.(\d+)\] => front(s, \1)
        requires ascii(s@),
        ensures r == hex_text(s@),
//@ start
        proof {
            reveal_strlit("0x"); reveal_strlit("0X");
            assert("0x"@ =~= seq!['0', 'x'] && "0X"@ =~= seq!['0', 'X']);
            if s@.len() > 2 { let h = s@.take(2); assert(h[0] == s@[0] && h[1] == s@[1]); if hex_text(s@) { assert(h =~= seq![h[0], h[1]]); } }
        }
//@ end
//@ fn dochy_json5/src/de.rs is_int -> r
//@ sub? s\.contains\( => contains(s, 
        requires ascii(s@),
        ensures r == int_text(s@),
//@ end
//@ fn dochy_json5/src/de.rs parse_hex -> r
//@ sub u32::from_str_radix\((.+), (\w+)\)\.or\(Err\((create_err\([^()]*\))\)\) => or(to_u32(\1, \2), \3)
        ensures r is Ok ==> r->Ok_0 == digits(s@, 16),
//@ end
//@ fn dochy_json5/src/de.rs parse_integer -> r
//@ sub? &s\[(\d+)\.\.\] => rest(s, \1)
//@ sub s\s*\.parse\(\)\s*\.or\(Err\((create_err\([^()]*\))\)\) => or(to_i64(s), \1)
        requires ascii(pair@.text),
        ensures r is Ok ==> r->Ok_0 == int_of(pair@.text),
//@ end
//@ fn dochy_json5/src/de.rs parse_number -> r
//@ sub? "(-?\w+)" \| "(-?\w+)" =. => x if x == "\1" || x == "\2" => 
//@ sub? (?<!== )"(-?\w+)" =. => x if x == "\1" => 
//@ sub? parse_hex\(&s\[(\d+)\.\.\], pair\)\.map\(f64::from\) => (match parse_hex(rest(s, \1), pair) { Ok(h) => Ok(as_float(h)), Err(e) => Err(e) })
//@ sub? s\.parse::<f64>\(\) => to_f64(s)
//@ sub? r\.is_finite\(\) => is_finite(r)
//@ sub? f64::INFINITY => infinity()
//@ sub? f64::NEG_INFINITY => neg_infinity()
//@ sub? f64::NAN => nan()
        requires ascii(pair@.text), !int_text(pair@.text), !hex_text(pair@.text),
        ensures r is Ok ==> r->Ok_0 == float(pair@.text),
//@ start
        proof {
            reveal_strlit("Infinity"); reveal_strlit("-Infinity"); reveal_strlit("NaN"); reveal_strlit("-NaN");
            assert(int_text("Infinity"@) && int_text("-Infinity"@) && int_text("NaN"@) && int_text("-NaN"@));
        }
//@ end
//@ fn dochy_json5/src/de.rs parse_string -> r
//@ sub pair\.into_inner\(\)\s*\.map\(\|(\w+)\| match => collected(pair.into_inner(), |\1: Pair<'_, Rule>| -> (x: Result<String>) requires piece(\1@) ensures x is Ok ==> piece_is(\1@, x->Ok_0@) { proof { nul_text(); } match
//@ sub \}\)\s*\.collect\(\) => } })
//@ sub? String::from\( => text_of(
//@ sub? char::from_u32 => char_of
//@ sub? s\.to_string\(\) => one(s)
        requires pieces(pair@.inner),
        ensures r is Ok ==> string_is(pair@.inner, r->Ok_0@),
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_json5/src/deserialize_item.rs get_seq -> r
//@ next 0 it
        requires forall|i: int| 0 <= i < seq.pairs@.len() ==> shaped(#[trigger] seq.pairs@[i]),
        ensures r is Ok ==> r->Ok_0 is Array && r->Ok_0->Array_0@.len() == seq.pairs@.len() && forall|i: int| 0 <= i < seq.pairs@.len() ==> means(#[trigger] seq.pairs@[i], r->Ok_0->Array_0@[i]),
//@ start
        let ghost ns = seq.pairs@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                0 <= n <= ns.len(), it@ == ns.skip(n), result@.len() == n,
                forall|i: int| 0 <= i < ns.len() ==> shaped(#[trigger] ns[i]),
                forall|i: int| 0 <= i < n ==> means(#[trigger] ns[i], result@[i]),
            ensures n == ns.len(),
            decreases ns.len() - n,
//@ in 0
            proof { n = n + 1; assert(pair@ == ns[n - 1]); }
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_json5/src/deserialize_item.rs get_map -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? p\.as_str\(\)\.to_string\(\) => text_of(p.as_str())
//@ sub? \(&s\[1\.\.s\.len\(\)-1\]\)\.to_string\(\) => text_of(unquoted(s))
        requires m.pairs@.len() % 2 == 0, forall|i: int| 0 <= i < m.pairs@.len() ==> (if i % 2 == 0 { key(#[trigger] m.pairs@[i]) } else { shaped(m.pairs@[i]) }),
        ensures r is Ok ==> r->Ok_0 is Map && 2 * r->Ok_0->Map_0.order().len() == m.pairs@.len() && entries(m.pairs@, r->Ok_0->Map_0.order().len() as int, r->Ok_0->Map_0)
            && forall|i: int| 0 <= i < m.pairs@.len() && i % 2 == 1 ==> means(#[trigger] m.pairs@[i], r->Ok_0->Map_0@[r->Ok_0->Map_0.order()[i / 2]]),
//@ start
        let ghost ns = m.pairs@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant_except_break
                2 * n <= ns.len(), 
            invariant
                0 <= n, 2 * n <= ns.len(), pairs@ == ns.skip(2 * n), ns.len() % 2 == 0,
                forall|i: int| 0 <= i < ns.len() ==> (if i % 2 == 0 { key(#[trigger] ns[i]) } else { shaped(ns[i]) }),
                entries(ns, n, result),
                forall|i: int| 0 <= i < 2 * n && i % 2 == 1 ==> means(#[trigger] ns[i], result@[result.order()[i / 2]]),
            ensures 2 * n == ns.len(),
            decreases ns.len() - 2 * n,
//@ in 0
            let ghost was = result;
            proof { if 2 * n < ns.len() { assert(key(ns[2 * n])); assert(shaped(ns[2 * n + 1])); } }
//@ last 0
            proof {
                n = n + 1;
                let k = name_of(ns[2 * n - 2]);
                assert(result.order() == was.order().push(k));
                assert forall|i: int| 0 <= i < n implies #[trigger] entry_at(ns, i, result) by { if i < n - 1 { assert(entry_at(ns, i, was)); } }
                assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] result.order()[i] != #[trigger] result.order()[j] by { if j == n - 1 { assert(entry_at(ns, i, was)); } else { assert(was.order()[i] != was.order()[j]); } }
                assert forall|x: Chars| #[trigger] result@.dom().contains(x) implies exists|i: int| 0 <= i < n && #[trigger] result.order()[i] == x by {
                    if x == k { assert(result.order()[n - 1] == x); } else { assert(was@.dom().contains(x)); let i = choose|i: int| 0 <= i < n - 1 && #[trigger] was.order()[i] == x; assert(result.order()[i] == x); }
                }
                assert forall|i: int| 0 <= i < 2 * n && i % 2 == 1 implies means(#[trigger] ns[i], result@[result.order()[i / 2]]) by {
                    if i < 2 * n - 1 { assert(i / 2 < n - 1); assert(entry_at(ns, i / 2, was)); assert(result.order()[i / 2] == was.order()[i / 2]); } else { assert(i / 2 == n - 1); assert(result.order()[n - 1] == k); }
                }
            }
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_json5/src/de.rs deserialize_any -> r
        requires shaped(pair@),
        ensures r is Ok ==> means(pair@, r->Ok_0),
//@ end
//@ fn dochy_json5/src/de.rs from_str -> r
//@ sub Parser::parse\(Rule::text, s\)\?\.next\(\)\.unwrap\(\) => parse(s)?
//@ sub s\.to_string\(\) => text_of(s)
        ensures r is Ok ==> means(tree(s@), r->Ok_0),
//@ end
}

} // verus!
fn main() {}
