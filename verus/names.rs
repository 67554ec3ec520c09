#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: history file names and what they say (property 14).
use vstd::prelude::*;

verus! {
global size_of usize == 8;

pub mod lib_specs {
    use super::*;
    use vstd::utf8::*;
    pub struct FsError;
    pub type FsResult<T> = core::result::Result<T, FsError>;
    impl From<&str> for FsError {
        #[verifier::external_body]
        fn from(e: &str) -> FsError { FsError }
    }
    /// the bytes of a text
    pub closed spec fn by(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
    pub proof fn shown(s: Seq<char>)
        ensures by(s) == encode_utf8(s),
    { }
    pub proof fn shows()
        ensures forall|s: Seq<char>| #[trigger] encode_utf8(s) == by(s),
    { }
    /// certainly between two characters
    pub open spec fn cuttable(b: Seq<u8>, a: int) -> bool { 0 <= a <= b.len() && (a == 0 || a == b.len() || b[a - 1] < 0x80 || b[a] < 0x80) }
    proof fn cut(s: Seq<char>, a: int)
        requires cuttable(by(s), a),
        ensures is_char_boundary(by(s), a),
    {
        let b = by(s);
        encode_utf8_valid_utf8(s);
        if a == b.len() { is_char_boundary_start_end_of_seq(b); }
        else if a > 0 { if b[a] < 0x80 { boundary(b, a); } else { boundary(b, a - 1); } }
    }
    /// a number in decimal notation
    pub open spec fn dec(n: nat) -> Seq<u8>
        decreases n
    {
        if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) }
    }
    // TRUSTED: to_string of a u32 is its decimal notation, and u32::from_str reads it back (calls are redirected here)
    pub trait Dec { fn dec_(&self) -> String; }
    impl Dec for u32 {
        #[verifier::external_body]
        fn dec_(&self) -> (r: String)
            ensures by(r@) == dec(*self as nat),
        { self.to_string() }
    }
    #[verifier::external_body]
    pub fn from_str_(s: &str) -> (r: Result<u32, ()>)
        ensures forall|n: u32| by(s@) == #[trigger] dec(n as nat) ==> r == Ok::<u32, ()>(n),
    { s.parse().map_err(|_| ()) }
    // TRUSTED: slices of a text, which panic unless they start and end between characters (calls are redirected here)
    #[verifier::external_body]
    fn slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
        requires a <= by(s@).len(), is_char_boundary(by(s@), a as int),
        ensures by(r@) == by(s@).skip(a as int),
    { &s[a..] }
    #[verifier::external_body]
    fn slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
        requires a <= b <= by(s@).len(), is_char_boundary(by(s@), a as int), is_char_boundary(by(s@), b as int),
        ensures by(r@) == by(s@).subrange(a as int, b as int),
    { &s[a..b] }
    pub fn from_<'a>(s: &'a str, a: usize) -> (r: &'a str)
        requires cuttable(by(s@), a as int),
        ensures by(r@) == by(s@).skip(a as int),
    {
        proof { cut(s@, a as int); }
        slice_from(s, a)
    }
    pub fn part_<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
        requires a <= b, cuttable(by(s@), a as int), cuttable(by(s@), b as int),
        ensures by(r@) == by(s@).subrange(a as int, b as int),
    {
        proof { cut(s@, a as int); cut(s@, b as int); }
        slice(s, a, b)
    }
    // TRUSTED: ends_with compares the last bytes (calls are redirected here)
    #[verifier::external_body]
    pub fn ends_with_(s: &str, t: &str) -> (r: bool)
        ensures r == (by(s@).len() >= by(t@).len() && by(s@).skip(by(s@).len() - by(t@).len()) == by(t@)),
    { s.ends_with(t) }

    // the following are proved
    pub fn len_(s: &str) -> (r: usize)
        ensures r == by(s@).len(),
    { s.as_bytes().len() }
    pub fn eq_(s: &String, t: &str) -> (r: bool)
        ensures r == (by(s@) == by(t@)),
    {
        proof { same(s@, t@); }
        s.as_str() == t
    }
    pub fn opt_str<'a>(s: &'a Option<String>) -> (r: Option<&'a str>)
        ensures r is Some <==> s is Some, r is Some ==> r->0@ == s->0@,
    { match s { Some(x) => Some(x.as_str()), None => None } }
    pub proof fn same(s: Seq<char>, t: Seq<char>)
        ensures by(s) == by(t) <==> s == t,
    { encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(t); }
    pub proof fn one(c: char)
        requires c as u32 <= 0x7f,
        ensures by(seq![c]) == seq![c as u8],
    { is_ascii_chars_encode_utf8(seq![c]); assert(by(seq![c]) =~= seq![c as u8]); }
    pub proof fn pushed(s: Seq<char>, c: char)
        requires c as u32 <= 0x7f,
        ensures by(s.push(c)) == by(s).push(c as u8),
    {
        one(c);
        encode_utf8_concat(s, seq![c]);
        assert(s.push(c) =~= s + seq![c]);
        assert(by(s) + seq![c as u8] =~= by(s).push(c as u8));
    }
    pub proof fn joined(s: Seq<char>, t: Seq<char>)
        ensures by(s + t) == by(s) + by(t),
    { encode_utf8_concat(s, t); }
    pub proof fn texts()
        ensures
            forall|s: Seq<char>, c: char| c as u32 <= 0x7f ==> by(#[trigger] s.push(c)) == by(s).push(c as u8),
            forall|s: Seq<char>, t: Seq<char>| by(#[trigger] (s + t)) == by(s) + by(t),
    {
        assert forall|s: Seq<char>, c: char| c as u32 <= 0x7f implies by(#[trigger] s.push(c)) == by(s).push(c as u8) by { pushed(s, c); }
        assert forall|s: Seq<char>, t: Seq<char>| by(#[trigger] (s + t)) == by(s) + by(t) by { joined(s, t); }
    }
    pub open spec fn his() -> Seq<u8> { seq![46u8, 104u8, 105u8, 115u8] }
    pub proof fn his_bytes()
        ensures by(".his"@) == his(),
    { reveal_strlit(".his"); is_ascii_chars_encode_utf8(".his"@); assert(by(".his"@) =~= his()); }
    /// a text may be cut before and after a plain character
    pub proof fn boundary(b: Seq<u8>, i: int)
        requires valid_utf8(b), 0 <= i < b.len(), b[i] < 0x80,
        ensures is_char_boundary(b, i), is_char_boundary(b, i + 1),
        decreases b.len(),
    {
        is_char_boundary_iff_not_is_continuation_byte(b, i);
        if i > 0 {
            assert(is_char_boundary(b, i));
            boundary(pop_first_scalar(b), i - length_of_first_scalar(b));
        } else {
            assert(is_char_boundary(pop_first_scalar(b), 0));
        }
    }
    /// `b.iter().skip(n).enumerate()`
    pub struct Numbered<'b> { pub b: &'b [u8], pub n: usize, pub i: usize }
    pub fn numbered<'b>(b: &'b [u8], n: usize) -> (r: Numbered<'b>)
        requires n <= b@.len(),
        ensures r.b@ == b@, r.n == n, r.i == 0, r.wf(),
    { Numbered { b, n, i: 0 } }
    impl<'b> Numbered<'b> {
        pub open spec fn wf(self) -> bool { self.n + self.i <= self.b@.len() }
        pub fn next(&mut self) -> (r: Option<(usize, &'b u8)>)
            requires old(self).wf(),
            ensures
                final(self).wf(),
                final(self).b == old(self).b && final(self).n == old(self).n,
                r is None <==> old(self).n + old(self).i == old(self).b@.len(),
                r is None ==> final(self).i == old(self).i,
                r is Some ==> (r->0).0 == old(self).i && *(r->0).1 == old(self).b@[old(self).n + old(self).i] && final(self).i == old(self).i + 1,
        {
            let k = self.n + self.i;
            if k < self.b.len() { let i = self.i; self.i = i + 1; Some((i, &self.b[k])) } else { None }
        }
    }
}

pub mod spec {
    use super::*;
    use super::lib_specs::*;
    /// what a file name says
    pub struct Meta { pub control: u32, pub prev: u32, pub order: Seq<u32>, pub tag: Option<Seq<u8>> }
    impl Meta {
        pub open spec fn wf(self) -> bool {
            &&& self.order.len() > 0
            &&& self.tag is Some ==> forall|i: int| 0 <= i < self.tag->0.len() ==> #[trigger] self.tag->0[i] != 35u8
        }
        pub open spec fn name(self) -> Seq<u8> { tag_part(self.tag) + self.untagged() }
        pub open spec fn untagged(self) -> Seq<u8> { prev_part(self.control, self.prev) + self.numbers() }
        pub open spec fn numbers(self) -> Seq<u8> { seq![95u8] + dec(self.control as nat) + rest(self.order, 0) }
    }
    pub open spec fn tag_part(t: Option<Seq<u8>>) -> Seq<u8> { match t { Some(t) => seq![35u8] + t + seq![35u8], None => Seq::empty() } }
    pub open spec fn prev_part(c: u32, p: u32) -> Seq<u8> { if c == p { Seq::empty() } else { seq![40u8] + dec(p as nat) + seq![41u8] } }
    /// the numbers from one place on, and the ending
    pub open spec fn rest(o: Seq<u32>, i: int) -> Seq<u8>
        decreases o.len() - i
    {
        if 0 <= i < o.len() { seq![95u8] + dec(o[i] as nat) + rest(o, i + 1) } else { his() }
    }
    /// the numbers before one place
    pub open spec fn upto(o: Seq<u32>, i: int) -> Seq<u8>
        decreases i
    {
        if i <= 0 { Seq::empty() } else { upto(o, i - 1) + seq![95u8] + dec(o[i - 1] as nat) }
    }
    pub proof fn meets(o: Seq<u32>, i: int)
        requires 0 <= i <= o.len(),
        ensures upto(o, i) + rest(o, i) == rest(o, 0),
        decreases i,
    {
        if i > 0 {
            meets(o, i - 1);
            assert(upto(o, i) + rest(o, i) =~= upto(o, i - 1) + rest(o, i - 1));
        } else { assert(upto(o, 0) + rest(o, 0) =~= rest(o, 0)); }
    }
    pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
    /// the number some digits stand for
    pub open spec fn value(s: Seq<u8>) -> nat
        decreases s.len()
    {
        if s.len() == 0 { 0 } else { (value(s.drop_last()) * 10 + (s.last() - 48)) as nat }
    }
    pub proof fn digits(n: nat)
        ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> digit(#[trigger] dec(n)[i]), value(dec(n)) == n,
        decreases n,
    {
        reveal_with_fuel(value, 2);
        if n >= 10 { digits(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); } else { assert(dec(n).drop_last() =~= Seq::empty()); }
    }
    pub proof fn grows(s: Seq<u8>, i: int)
        requires 0 <= i <= s.len(), forall|j: int| 0 <= j < s.len() ==> digit(#[trigger] s[j]),
        ensures value(s.take(i)) <= value(s),
        decreases s.len() - i,
    {
        if i < s.len() {
            grows(s, i + 1);
            assert(s.take(i + 1).drop_last() =~= s.take(i));
            assert(digit(s[i]));
        } else { assert(s.take(i) =~= s); }
    }
    pub open spec fn digits_only(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
    /// a number in front of something that is no digit
    pub open spec fn leads(s: Seq<u8>, n: u32, read: int) -> bool {
        &&& 1 <= read < s.len()
        &&& s[0] == 95u8
        &&& digits_only(s.subrange(1, read))
        &&& !digit(s[read])
        &&& value(s.subrange(1, read)) == n
    }
    pub proof fn rest_shape(o: Seq<u32>, i: int)
        requires 0 <= i <= o.len(),
        ensures rest(o, i).len() > 0, !digit(rest(o, i)[0]), i < o.len() ==> rest(o, i)[0] == 95u8, i == o.len() ==> rest(o, i) == his(),
    { if i < o.len() { assert(rest(o, i)[0] == 95u8); } }
    pub proof fn leading(n: u32, t: Seq<u8>)
        requires t.len() > 0, !digit(t[0]),
        ensures ({ let s = seq![95u8] + dec(n as nat) + t; leads(s, n, 1 + dec(n as nat).len() as int) && s.skip(1 + dec(n as nat).len() as int) == t }),
    {
        digits(n as nat);
        let d = dec(n as nat);
        let s = seq![95u8] + d + t;
        assert(s.subrange(1, 1 + d.len() as int) =~= d);
        assert(s.skip(1 + d.len() as int) =~= t);
    }
    pub open spec fn tagged(s: Seq<u8>, t: Seq<u8>, a: u8, b: u8) -> bool {
        &&& s.len() >= t.len() + 2
        &&& s[0] == a
        &&& s[t.len() as int + 1] == b
        &&& t == s.subrange(1, t.len() as int + 1)
        &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != b
    }
    pub open spec fn untaggable(s: Seq<u8>, a: u8, b: u8) -> bool { s.len() <= 1 || s[0] != a || forall|i: int| 1 <= i < s.len() ==> #[trigger] s[i] != b }
    pub proof fn unique(s: Seq<u8>, n: u32, r: int, m: u32, q: int)
        requires leads(s, n, r), leads(s, m, q),
        ensures n == m, r == q,
    {
        if r < q { assert(s.subrange(1, q)[r - 1] == s[r]); }
        if q < r { assert(s.subrange(1, r)[q - 1] == s[q]); }
    }
    pub proof fn ending(o: Seq<u32>, i: int)
        requires 0 <= i <= o.len(),
        ensures rest(o, i).len() >= 4, rest(o, i).skip(rest(o, i).len() - 4) == his(),
        decreases o.len() - i,
    {
        let r = rest(o, i);
        if i < o.len() {
            ending(o, i + 1);
            assert(r.skip(r.len() - 4) =~= rest(o, i + 1).skip(rest(o, i + 1).len() - 4));
        } else { assert(r.skip(r.len() - 4) =~= his()); }
    }
    /// reading in brackets gives back what was put in
    pub proof fn bracketed(s: Seq<u8>, q: Seq<u8>, t: Seq<u8>, z: Seq<u8>, a: u8, b: u8)
        requires s == seq![a] + q + seq![b] + z, forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] != b, tagged(s, t, a, b),
        ensures t == q, s.skip(t.len() as int + 2) == z,
    {
        if t.len() < q.len() { assert(s[t.len() as int + 1] == q[t.len() as int]); }
        if t.len() > q.len() { assert(t[q.len() as int] == s[q.len() as int + 1]); }
        assert(t =~= q);
        assert(s.skip(t.len() as int + 2) =~= z);
    }
    /// what the steps of reading find in a name
    pub open spec fn readable(p: Meta) -> bool {
        let f = p.name();
        let u = p.untagged();
        let k = p.numbers();
        &&& f.len() >= 4 && f.skip(f.len() - 4) == his()
        &&& forall|t: Seq<u8>| #[trigger] tagged(f, t, 35, 35) ==> p.tag == Some(t) && f.skip(t.len() as int + 2) == u
        &&& untaggable(f, 35, 35) ==> p.tag is None && f == u
        &&& forall|t: Seq<u8>| #[trigger] tagged(u, t, 40, 41) ==> p.prev != p.control && t == dec(p.prev as nat) && u.skip(t.len() as int + 2) == k
        &&& untaggable(u, 40, 41) ==> p.prev == p.control && u == k
        &&& exists|n: u32, r: int| #[trigger] leads(k, n, r)
        &&& forall|n: u32, r: int| #[trigger] leads(k, n, r) ==> n == p.control && k.skip(r) == rest(p.order, 0)
    }
    pub proof fn reads(p: Meta)
        requires p.wf(),
        ensures readable(p),
    {
        let f = p.name();
        let u = p.untagged();
        let k = p.numbers();
        let o = p.order;
        ending(o, 0);
        rest_shape(o, 0);
        assert(f.skip(f.len() - 4) =~= rest(o, 0).skip(rest(o, 0).len() - 4));
        digits(p.prev as nat);
        digits(p.control as nat);
        assert(k[0] == 95);
        assert(u[0] == 95 || u[0] == 40);
        match p.tag {
            Some(q) => {
                assert(f =~= seq![35u8] + q + seq![35u8] + u);
                assert forall|t: Seq<u8>| #[trigger] tagged(f, t, 35, 35) implies p.tag == Some(t) && f.skip(t.len() as int + 2) == u by { bracketed(f, q, t, u, 35, 35); }
                assert(f[0] == 35 && f[q.len() as int + 1] == 35);
            }
            None => { assert(f =~= u); }
        }
        if p.prev != p.control {
            let q = dec(p.prev as nat);
            assert(u =~= seq![40u8] + q + seq![41u8] + k);
            assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != 41 by { assert(digit(q[i])); }
            assert forall|t: Seq<u8>| #[trigger] tagged(u, t, 40, 41) implies t == q && u.skip(t.len() as int + 2) == k by { bracketed(u, q, t, k, 40, 41); }
            assert(u[0] == 40 && u[q.len() as int + 1] == 41);
        } else { assert(u =~= k); }
        leading(p.control, rest(o, 0));
        assert forall|n: u32, r: int| #[trigger] leads(k, n, r) implies n == p.control && k.skip(r) == rest(o, 0) by { unique(k, n, r, p.control, 1 + dec(p.control as nat).len() as int); }
    }
    pub proof fn step(o: Seq<u32>, i: int)
        requires 0 <= i <= o.len(),
        ensures
            rest(o, i).len() > 0,
            i == o.len() ==> rest(o, i) == his(),
            i < o.len() ==> leads(rest(o, i), o[i], 1 + dec(o[i] as nat).len() as int),
            i < o.len() ==> forall|n: u32, r: int| #[trigger] leads(rest(o, i), n, r) ==> n == o[i] && rest(o, i).skip(r) == rest(o, i + 1),
            i < o.len() ==> o.take(i).push(o[i]) == o.take(i + 1),
            o.take(o.len() as int) == o,
    {
        rest_shape(o, i);
        assert(o.take(o.len() as int) =~= o);
        if i < o.len() {
            assert(o.take(i).push(o[i]) =~= o.take(i + 1));
            rest_shape(o, i + 1);
            leading(o[i], rest(o, i + 1));
            assert forall|n: u32, r: int| #[trigger] leads(rest(o, i), n, r) implies n == o[i] && rest(o, i).skip(r) == rest(o, i + 1) by { unique(rest(o, i), n, r, o[i], 1 + dec(o[i] as nat).len() as int); }
        }
    }
}

pub mod file_name {
    use super::*;
    use super::lib_specs::*;
    use super::spec::*;
    use vstd::utf8::*;
//@ item dochy_fs/src/imp/history/file_name/file_name_props.rs struct FileNameProps
    impl FileNameProps {
        pub open spec fn meta(self) -> Meta { Meta { control: self.control, prev: self.prev_ctl, order: self.order@, tag: match self.tag { Some(t) => Some(by(t@)), None => None } } }
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::new -> r
            ensures
                r is Ok <==> order@.len() > 0,
                r is Ok ==> r->Ok_0.control == control && r->Ok_0.prev_ctl == prev_ctl && r->Ok_0.order == order && r->Ok_0.tag == tag,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::control -> r
            ensures r == self.control,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::prev_ctl -> r
            ensures r == self.prev_ctl,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::order -> r
            ensures r@ == self.order@,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::tag -> r
            ensures r is Some <==> self.tag is Some, r is Some ==> r->0@ == self.tag->0@,
//@ sub self\.tag\.as_ref\(\)\.map\(\|(\w+)\|\s*\1\.as_str\(\)\) => opt_str(&self.tag)
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::calc_filename -> r
            ensures by(r@) == self.meta().name(),
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::from -> r
            ensures
                r is Some ==> r->0.meta().name() == by(filename@) && r->0.meta().wf(),
                p.wf() && p.name() == by(filename@) ==> r is Some && r->0.meta() == p,
//@ param Ghost(p): Ghost<Meta>
//@ pass analyze_file_name Ghost(p)
//@ end
    }
//@ fn dochy_fs/src/imp/history/file_name/calc_filename.rs calc_filename -> r
        ensures
            by(r@) == tag_part(match tag { Some(t) => Some(by(t@)), None => None })
                + (match prev_ctl { Some(p) => seq![40u8] + dec(p as nat) + seq![41u8], None => Seq::empty() })
                + (seq![95u8] + dec(control as nat) + rest(order@, 0)),
//@ sub &\*?(\w+)\.to_string\(\) => \1.dec_().as_str()
//@ sub \bin\s+order\b => in order.iter()
//@ start
        let ghost tp = tag_part(match tag { Some(t) => Some(by(t@)), None => None });
        let ghost pp = match prev_ctl { Some(p) => seq![40u8] + dec(p as nat) + seq![41u8], None => Seq::empty() };
        let ghost np = seq![95u8] + dec(control as nat);
        proof {
            texts();
            assert(by(Seq::<char>::empty()) =~= Seq::<u8>::empty()) by { joined(Seq::empty(), Seq::empty()); assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty()); }
            his_bytes();
        }
//@ loops for
//@ iter 0 it
//@ pre 0
        proof { assert(by(s@) =~= tp + pp + np + upto(order@, 0)); }
//@ loop 0
            invariant
                by(s@) == tp + pp + np + upto(order@, it.index@),
                it.seq() == order@.map_values(|x: u32| &x),
//@ in 0
            proof { texts(); }
//@ last 0
            proof { assert(by(s@) =~= tp + pp + np + upto(order@, it.index@ + 1)); }
//@ post 0
        proof {
            meets(order@, order@.len() as int);
            assert(by(s@) + his() =~= tp + pp + (np + rest(order@, 0)));
        }
//@ end

#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/file_name/analyze_file_name.rs get_tag -> r
        ensures
            r is Some ==> tagged(by(s@), by(r->0@), 35, 35),
            r is None ==> untaggable(by(s@), 35, 35),
            by(s@).len() <= usize::MAX,
//@ sub bytes\.iter\(\)\.skip\(1\)\.enumerate\(\) => numbered(bytes, 1)
//@ sub &s\[([^\[\]]+?)\.\.([^\[\]]+?)\] => part_(s, \1, \2)
//@ next 0 zi
//@ loops while
//@ start
        proof { shown(s@); }
//@ loop 0
            invariant_except_break
                zi.wf(), zi.b@ == bytes@, zi.n == 1, bytes@ == by(s@), bytes@.len() > 1, bytes@.len() <= usize::MAX, bytes@[0] == 35,
                forall|i: int| 1 <= i < 1 + zi.i ==> #[trigger] bytes@[i] != 35,
            ensures
                untaggable(by(s@), 35, 35),
                by(s@).len() <= usize::MAX,
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/file_name/analyze_file_name.rs get_prev_ctl -> r
        ensures
            r is Some ==> tagged(by(s@), by(r->0@), 40, 41),
            r is None ==> untaggable(by(s@), 40, 41),
            by(s@).len() <= usize::MAX,
//@ sub bytes\.iter\(\)\.skip\(1\)\.enumerate\(\) => numbered(bytes, 1)
//@ sub &s\[([^\[\]]+?)\.\.([^\[\]]+?)\] => part_(s, \1, \2)
//@ next 0 zi
//@ loops while
//@ start
        proof { shown(s@); }
//@ loop 0
            invariant_except_break
                zi.wf(), zi.b@ == bytes@, zi.n == 1, bytes@ == by(s@), bytes@.len() > 1, bytes@.len() <= usize::MAX, bytes@[0] == 40,
                forall|i: int| 1 <= i < 1 + zi.i ==> #[trigger] bytes@[i] != 41,
            ensures
                untaggable(by(s@), 40, 41),
                by(s@).len() <= usize::MAX,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/analyze_file_name.rs get_num -> r
        ensures
            r is Some ==> leads(s@, (r->0).0, (r->0).1 as int),
            r is None ==> forall|n: u32, read: int| !#[trigger] leads(s@, n, read),
            r is Some ==> s@[(r->0).1 - 1] < 0x80,
//@ loops loop
//@ loop 0
            invariant
                1 <= i <= s@.len(),
                s@[0] == 95,
                s@[i - 1] < 0x80,
                digits_only(s@.subrange(1, i as int)),
                value(s@.subrange(1, i as int)) == result,
            decreases s@.len() - i,
//@ in 0
            proof {
                if i < s@.len() {
                    let t = s@.subrange(1, i as int + 1);
                    assert(t.drop_last() =~= s@.subrange(1, i as int));
                    assert(digit(s@[i as int]) ==> digits_only(t));
                    assert(value(t) == value(t.drop_last()) * 10 + (t.last() - 48) || t.last() < 48);
                }
                assert forall|n: u32, read: int| #[trigger] leads(s@, n, read) implies read >= i && (digit(s@[i as int]) ==> read > i && value(s@.subrange(1, i as int + 1)) <= n) by {
                    let t = s@.subrange(1, read);
                    if read < i { assert(s@.subrange(1, i as int)[read - 1] == s@[read]); }
                    else if digit(s@[i as int]) {
                        grows(t, i as int);
                        assert(t.take(i as int) =~= s@.subrange(1, i as int + 1));
                    }
                }
            }
//@ end
//@ fn dochy_fs/src/imp/history/file_name/analyze_file_name.rs analyze_file_name -> r
        requires hint_max_phase is Some ==> hint_max_phase->0 < usize::MAX,
        ensures
            // the name it stands for is this one
            r is Some ==> r->0.meta().name() == by(file_name@) && r->0.meta().wf(),
            // and every name in this form is read as what it was made from
            p.wf() && p.name() == by(file_name@) ==> r is Some && r->0.meta() == p,
//@ param Ghost(p): Ghost<Meta>
//@ sub s\.ends_with\( => ends_with_(s, 
//@ sub &s\[([^\[\]]+?)\.\.\] => from_(s, \1)
//@ sub \b(tag|prev_ctl)\.len\(\) => len_(\1)
//@ sub \bu32::from_str\( => from_str_(
//@ sub and_then\(\|(\w+)\|\s*(from_str_\(\1\)\.ok\(\))\) => and_then(|\1: &str| -> (x: Option<u32>) ensures forall|k: u32| by(\1@) == #[trigger] dec(k as nat) ==> x == Some(k) { \2 })
//@ sub \.map\(\|(\w+)\|\s*\1\.to_string\(\)\) => .map(|\1: &str| -> (x: String) ensures x@ == \1@ { \1.to_string() })
//@ sub (\w+\.calc_filename\(\))\s*==\s*file_name => eq_(&\1, file_name)
//@ loops loop
//@ start
        let ghost fit = p.wf() && p.name() == by(file_name@);
        proof {
            his_bytes();
            if fit { reads(p); }
            shows();
            assert forall|t: Seq<char>| #[trigger] by(t) == his() implies t == ".his"@ by { same(t, ".his"@); }
        }
//@ loop 0
            invariant
                fit == (p.wf() && p.name() == by(file_name@)),
                by(".his"@) == his(),
                forall|t: Seq<char>| #[trigger] by(t) == his() ==> t == ".his"@,
                forall|s: Seq<char>| #[trigger] encode_utf8(s) == by(s),
                tag is Some ==> forall|i: int| 0 <= i < by(tag->0@).len() ==> #[trigger] by(tag->0@)[i] != 35,
                fit ==> (tag is Some <==> p.tag is Some) && (tag is Some ==> by(tag->0@) == p.tag->0) && n == p.control && prev_ctl == p.prev
                    && order@.len() <= p.order.len() && order@ == p.order.take(order@.len() as int) && by(s@) == rest(p.order, order@.len() as int),
            decreases by(s@).len(),
//@ in 0
            proof { if fit { step(p.order, order@.len() as int); } }
//@ end
}
fn main() {}
}
