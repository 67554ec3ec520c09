#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_unsafe, unreachable_patterns, unreachable_code)]
// Unit: what a definition text stands for once it is parsed (property 12).
use vstd::prelude::*;
use std::sync::Arc;

verus! {
global size_of usize == 8;

pub mod base {
    use super::*;
//@ include values.inc
    // the table of member numbers is made from the definition (units diff and member)
    #[verifier::external_body]
    pub struct MetaTable { x: () }
    pub struct CoreError;
    impl std::fmt::Debug for CoreError {
        #[verifier::external_body]
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
    }
    impl From<String> for CoreError {
        #[verifier::external_body]
        fn from(e: String) -> CoreError { CoreError }
    }
    impl From<&str> for CoreError {
        #[verifier::external_body]
        fn from(e: &str) -> CoreError { CoreError }
    }
    pub type CoreResult<T> = Result<T, CoreError>;
    // the words of an error are left out
    #[verifier::external_body]
    pub fn words() -> String { unimplemented!() }
}

pub mod error {
    pub use super::base::CoreResult;
}

pub mod state {
    use super::*;
    use super::base::*;
//@ include state.inc
    // TRUSTED: a set of texts
    impl HashS<String> {
        pub uninterp spec fn view(&self) -> Set<Seq<char>>;
        #[verifier::external_body]
        pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    }
    pub struct HashSt;
    impl HashSt {
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> (r: HashS<String>) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn new() -> (r: HashS<String>) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    }
    // TRUSTED: a set of numbers
    #[verifier::external_body]
    pub struct NumSet { x: () }
    impl NumSet {
        pub uninterp spec fn view(&self) -> Set<u64>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Set::<u64>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: u64) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn no_entries<V>() -> (r: HashM<String, V>)
        ensures r@ == Map::<Seq<char>, V>::empty(),
    { unimplemented!() }
    // TRUSTED: taking a map apart hands out every entry once
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct HashInto<V> { x: Vec<V> }
    impl<V> HashInto<V> {
        /// the names to come
        pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
        pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
        pub uninterp spec fn done(&self) -> nat;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(String, V)>)
            ensures final(self).map() == old(self).map(), match r {
                Some((k, v)) => old(self)@.len() > 0 && k@ == old(self)@[0] && v == old(self).map()[k@] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    impl<V> HashM<String, V> {
        #[verifier::external_body]
        pub fn apart(self) -> (r: HashInto<V>)
            ensures r.map() == self@, lists_all(r@, self@), r@ == self.order(), r@.len() <= usize::MAX,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn apart_numbered(self) -> (r: HashNumbered<V>)
            ensures r.map() == self@, lists_all(r@, self@), r@ == self.order(), r.from() == 0, r@.len() <= usize::MAX,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn numbered(&self) -> (r: HashNumberedRef<'_, V>)
            ensures r.map() == self@, lists_all(r@, self@), r@ == self.order(), r.from() == 0, r@.len() <= usize::MAX,
        { unimplemented!() }
    }
    // TRUSTED: the same, with numbers from 0
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct HashNumbered<V> { x: Vec<V> }
    impl<V> HashNumbered<V> {
        pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
        pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
        pub uninterp spec fn from(&self) -> int;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(usize, (String, V))>)
            ensures final(self).map() == old(self).map(), match r {
                Some((n, (k, v))) => old(self)@.len() > 0 && k@ == old(self)@[0] && v == old(self).map()[k@] && final(self)@ == old(self)@.skip(1) && n == old(self).from() && final(self).from() == n + 1,
                None => old(self)@.len() == 0 && final(self)@ == old(self)@ && final(self).from() == old(self).from(),
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct HashNumberedRef<'a, V> { x: &'a V }
    impl<'a, V> HashNumberedRef<'a, V> {
        pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
        pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
        pub uninterp spec fn from(&self) -> int;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(usize, (&'a String, &'a V))>)
            ensures final(self).map() == old(self).map(), match r {
                Some((n, (k, v))) => old(self)@.len() > 0 && k@ == old(self)@[0] && *v == old(self).map()[k@] && final(self)@ == old(self)@.skip(1) && n == old(self).from() && final(self).from() == n + 1,
                None => old(self)@.len() == 0 && final(self)@ == old(self)@ && final(self).from() == old(self).from(),
            },
        { unimplemented!() }
    }
    // TRUSTED: taking a vector apart hands out every element once, in order
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct VecInto<T> { x: Vec<T> }
    impl<T> VecInto<T> {
        pub uninterp spec fn view(&self) -> Seq<T>;
        pub uninterp spec fn from(&self) -> int;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures match r {
                Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn apart<T>(v: Vec<T>) -> (r: VecInto<T>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct VecNumbered<T> { x: Vec<T> }
    impl<T> VecNumbered<T> {
        pub uninterp spec fn view(&self) -> Seq<T>;
        pub uninterp spec fn from(&self) -> int;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(usize, T)>)
            ensures match r {
                Some((n, v)) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.skip(1) && n == old(self).from() && final(self).from() == n + 1,
                None => old(self)@.len() == 0 && final(self)@ == old(self)@ && final(self).from() == old(self).from(),
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn apart_numbered<T>(v: Vec<T>) -> (r: VecNumbered<T>) ensures r@ == v@, r.from() == 0, v@.len() <= usize::MAX { unimplemented!() }
    impl<V> LinkedMap<V> {
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn construct(items: Vec<(u64, V)>, next_id: u64) -> (r: Self)
            requires distinct(items@),
            ensures r@ == items@, r.next() == next_id,
        { unimplemented!() }
    }
}

pub mod json {
    use super::*;
    use super::base::*;
    use super::state::*;
    // where in the text something was written: only used in the words of errors
    #[verifier::external_body]
    pub struct Span { x: () }
    impl Clone for Span {
        #[verifier::external_body]
        fn clone(&self) -> Span { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Names<'a> { x: &'a str }
    impl<'a> Names<'a> {
        #[verifier::external_body]
        pub fn append(&'a self, name: &'a str) -> Names<'a> { unimplemented!() }
        #[verifier::external_body]
        pub fn new(name: &'a str) -> Names<'a> { unimplemented!() }
    }
    // TRUSTED: LinkedHashMap is a map that also keeps the order its entries were written in
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct LinkedHashMap<K, V> { x: std::collections::HashMap<K, V> }
    impl<V> LinkedHashMap<String, V> {
        pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
        pub uninterp spec fn order(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn iter(&self) -> (r: HashIter<'_, V>)
            ensures r.map() == self@, lists_all(r@, self@), r@ == self.order(), r@.len() <= usize::MAX,
        { unimplemented!() }
    }
//@ item dochy_json5/src/jval.rs enum JVal
    impl JVal {
//@ fn dochy_json5/src/jval.rs JVal::span -> r
//@ end
    }
    pub type Obj = LinkedHashMap<String, JVal>;
    pub open spec fn inner(v: JVal) -> nat { match v { JVal::Array(b, _) => deep(b@), JVal::Map(m, _) => deep_obj(m), _ => 0 } }
    // TRUSTED: a JSON value is a finite tree
    pub uninterp spec fn deep(a: Seq<JVal>) -> nat;
    pub uninterp spec fn deep_obj(m: Obj) -> nat;
    #[verifier::external_body]
    pub broadcast proof fn deep_elem(a: Seq<JVal>, i: int)
        requires 0 <= i < a.len(),
        ensures
            #![trigger deep(a), a[i]]
            inner(a[i]) < deep(a),
    { }
    #[verifier::external_body]
    pub broadcast proof fn deep_skip(a: Seq<JVal>, n: int)
        requires 0 <= n <= a.len(),
        ensures #[trigger] deep(a.skip(n)) <= deep(a),
    { }
    #[verifier::external_body]
    pub broadcast proof fn deep_member(m: Obj, k: Seq<char>)
        requires m@.dom().contains(k),
        ensures
            #![trigger deep_obj(m), m@[k]]
            inner(m@[k]) < deep_obj(m),
    { }
    // TRUSTED: parts of slices, and going through them
    #[verifier::external_body]
    pub fn tail<T>(a: &[T], n: usize) -> (r: &[T])
        requires n <= a@.len(),
        ensures r@ == a@.skip(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct SliceIter<'a, T> { x: &'a T }
    impl<'a, T> SliceIter<'a, T> {
        pub uninterp spec fn view(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a T>)
            ensures match r {
                Some(v) => old(self)@.len() > 0 && *v == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn each<T>(a: &[T]) -> (r: SliceIter<'_, T>) ensures r@ == a@ { unimplemented!() }
}

pub mod name {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::json::*;
    use SystemNames::*;
//@ item dochy_core/src/imp/json_to_rust/json_name.rs enum SystemNames
//@ item dochy_core/src/imp/json_to_rust/json_name.rs enum NameType
    pub open spec fn name_start(c: char) -> bool { c == '@' || c == '_' || 'a' <= c <= 'z' }
    pub open spec fn name_char(c: char) -> bool { c == '_' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
    pub open spec fn is_name(n: Seq<char>) -> bool { n.len() > 0 && name_start(n[0]) && forall|i: int| 1 <= i < n.len() ==> name_char(#[trigger] n[i]) }
    /// what a key of an object stands for
    pub enum Key { Old, ID, Ref, Enum, Member(Seq<char>, VarType), Bad }
    pub open spec fn key_of(k: Seq<char>) -> Key {
        let n = k.len() as int;
        if k == "Old"@ { Key::Old } else if k == "ID"@ { Key::ID } else if k == "Ref"@ { Key::Ref } else if k == "Enum"@ { Key::Enum }
        else if is_name(k) { Key::Member(k, VarType::Normal) }
        else if n > 1 && k[n - 1] == '?' && is_name(k.take(n - 1)) { Key::Member(k.take(n - 1), VarType::Nullable) }
        else if n > 1 && k[n - 1] == '!' && is_name(k.take(n - 1)) { Key::Member(k.take(n - 1), VarType::Undefiable) }
        else if n > 2 && (k[n - 2] == '!' && k[n - 1] == '?' || k[n - 2] == '?' && k[n - 1] == '!') && is_name(k.take(n - 2)) { Key::Member(k.take(n - 2), VarType::UndefNullable) }
        else { Key::Bad }
    }
    pub open spec fn key_is(t: NameType, k: Key) -> bool {
        match t {
            NameType::Name(n, vt) => k == Key::Member(n@, vt),
            NameType::SystemName(SystemNames::Old) => k == Key::Old,
            NameType::SystemName(SystemNames::ID) => k == Key::ID,
            NameType::SystemName(SystemNames::Ref) => k == Key::Ref,
            NameType::SystemName(SystemNames::Enum) => k == Key::Enum,
        }
    }
    // TRUSTED: the regular expression ^([@a-z_][a-zA-Z0-9_]*)([!?]*)$ and what it captures
    #[verifier::external_body]
    pub struct Captures { x: () }
    impl Captures {
        pub uninterp spec fn first(&self) -> Seq<char>;
        pub uninterp spec fn second(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn name(&self) -> (r: &str) ensures r@ == self.first() { unimplemented!() }
        #[verifier::external_body]
        pub fn marks(&self) -> (r: &str) ensures r@ == self.second() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn captures(s: &str) -> (r: Option<Captures>)
        ensures r is Some ==> s@ == r->0.first() + r->0.second() && is_name(r->0.first()),
    { unimplemented!() }
//@ fn dochy_core/src/imp/json_to_rust/json_name.rs analyze_name -> r
//@ sub static RE : Lazy<Regex> = Lazy::new\(\|\| Regex::new\(r"\^\(\[@a-z_\]\[a-zA-Z0-9_\]\*\)\(\[!\?\]\*\)\$"\)\.unwrap\(\)\);\s*RE\.captures\(s\) => captures(s)
        ensures r is Some ==> s@ == r->0.first() + r->0.second() && is_name(r->0.first()),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/json_name.rs value_type_and_name -> r
//@ sub? cap\[1\]\.to_string\(\) => text_of(cap.name())
//@ sub? &cap\[2\] => cap.marks()
        ensures r is Some && key_of(s@) != Key::Old && key_of(s@) != Key::ID && key_of(s@) != Key::Ref && key_of(s@) != Key::Enum ==> key_of(s@) == Key::Member((r->0).1@, (r->0).0),
//@ start
        proof {
            reveal_strlit("!?"); reveal_strlit("?!"); reveal_strlit("!"); reveal_strlit("?"); reveal_strlit("");
            assert("!?"@ =~= seq!['!', '?'] && "?!"@ =~= seq!['?', '!'] && "!"@ =~= seq!['!'] && "?"@ =~= seq!['?'] && ""@ =~= seq![]);
        }
//@ after let suffix = [^;]*;
        proof {
            let (n, m, k) = (cap.first(), cap.second(), s@);
            assert(k == n + m);
            if m.len() > 0 { assert(k.last() == m.last()); if m.last() == '!' || m.last() == '?' { assert(!name_char(k.last()) && !name_start(k.last())); assert(!is_name(k)); } }
            if m.len() == 0 { assert(k =~= n); }
            if m.len() == 1 { assert(k.take(k.len() - 1) =~= n); }
            if m.len() == 2 {
                assert(k.take(k.len() - 2) =~= n); assert(k[k.len() - 2] == m[0]);
                if m[0] == '!' || m[0] == '?' { let q = k.take(k.len() - 1); assert(q.last() == m[0]); assert(!name_char(q.last()) && !name_start(q.last())); assert(!is_name(q)); }
            }
        }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/json_name.rs json_name/some -> r
        ensures r == Some(NameType::SystemName(sn)),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/json_name.rs json_name -> r
//@ hoist some
//@ sub use SystemNames::\*; =>
//@ sub "(\w+)" =. return => x if x == "\1" => return
        ensures r is Some ==> key_is(r->0, key_of(s@)),
//@ start
        proof {
            reveal_strlit("Old"); reveal_strlit("ID"); reveal_strlit("Ref"); reveal_strlit("Enum");
            assert("Old"@.len() == 3 && "ID"@.len() == 2 && "Ref"@.len() == 3 && "Enum"@.len() == 4);
            assert("Old"@[0] == 'O' && "Ref"@[0] == 'R');
        }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/json_name.rs json_simple_name -> r
        ensures r is Some ==> key_of(s@) is Member && key_of(s@)->Member_1 == VarType::Normal,
//@ end
}


pub mod mean {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::json::*;
    use super::name::*;
    broadcast use { super::json::deep_elem, super::json::deep_skip, super::json::deep_member };
//@ item dochy_core/src/imp/structs/rust_value.rs enum RustValue
//@ item dochy_core/src/imp/structs/array_type.rs enum ArrayType
//@ item dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs struct TmpObj
//@ item dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs struct TmpRefs
//@ item dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs enum IdValue
//@ item dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs struct TmpList

    // ------------------------------------------------------------------ what a value stands for
    pub open spec fn param_is(rv: RustValue, vt: VarType, v: Value) -> bool { rv is Param && rv->Param_1 == vt && value_of(rv->Param_0) == v }
    pub open spec fn val(ty: ParamType, c: Content) -> Value { Value { ty, c } }
    pub open spec fn item_is(v: JVal, vt: VarType, rv: RustValue) -> bool
        decreases inner(v), 5nat,
    {
        match v {
            JVal::Bool(b, _) => param_is(rv, vt, val(ParamType::Bool, Content::Bool(b))),
            JVal::Double(f, _) => param_is(rv, vt, val(ParamType::Float, Content::Float(f))),
            JVal::Int(i, _) => param_is(rv, vt, val(ParamType::Int, Content::Int(i))),
            JVal::String(s, _) => param_is(rv, vt, val(ParamType::String, Content::Str(s@))),
            JVal::Array(a, _) => array_is(a@, vt, rv),
            _ => false,
        }
    }
    pub enum Tag { Ints, Floats, Bytes, Int, Float, Str, Bool, CList, Table, MList, Cil, Mil, CilDef, MilDef, NoList, Bad }
    pub open spec fn tag_of(s: Seq<char>) -> Tag {
        if s == "IntArray"@ { Tag::Ints } else if s == "FloatArray"@ { Tag::Floats } else if s == "Binary"@ { Tag::Bytes }
        else if s == "Int"@ { Tag::Int } else if s == "Float"@ { Tag::Float } else if s == "Str"@ { Tag::Str } else if s == "Bool"@ { Tag::Bool }
        else if s == "CList"@ { Tag::CList } else if s == "Table"@ { Tag::Table } else if s == "MList"@ { Tag::MList }
        else if s == "Cil"@ { Tag::Cil } else if s == "Mil"@ { Tag::Mil } else if s == "CilDef"@ { Tag::CilDef } else if s == "MilDef"@ { Tag::MilDef }
        else if s == "__InnerMutUndefined"@ { Tag::NoList } else { Tag::Bad }
    }
    pub open spec fn array_is(a: Seq<JVal>, vt: VarType, rv: RustValue) -> bool
        decreases deep(a), 4nat,
    {
        a.len() > 0 && match a[0] {
            JVal::Int(_, _) => rv is Param && rv->Param_1 == vt && array_value(a, ArrayType::Int, rv->Param_0),
            JVal::String(s, _) => {
                let rest = a.skip(1);
                match tag_of(s@) {
                    Tag::Ints => rv is Param && rv->Param_1 == vt && array_value(rest, ArrayType::Int, rv->Param_0),
                    Tag::Floats => rv is Param && rv->Param_1 == vt && array_value(rest, ArrayType::Float, rv->Param_0),
                    Tag::Bytes => rv is Param && rv->Param_1 == vt && array_value(rest, ArrayType::Binary, rv->Param_0),
                    Tag::Int => null_is(rest, ParamType::Int, vt, rv),
                    Tag::Float => null_is(rest, ParamType::Float, vt, rv),
                    Tag::Str => null_is(rest, ParamType::String, vt, rv),
                    Tag::Bool => null_is(rest, ParamType::Bool, vt, rv),
                    Tag::NoList => rv == RustValue::Mil(None),
                    Tag::Bad => false,
                    t => (vt == VarType::Normal || vt == VarType::Undefiable && (t is MList || t is MilDef)) && some_list(rest, t, vt == VarType::Undefiable, rv),
                }
            },
            _ => false,
        }
    }
    pub open spec fn some_list(a: Seq<JVal>, t: Tag, u: bool, rv: RustValue) -> bool
        decreases deep(a), 3nat,
    { exists|l: TmpList| list_is(a, l) && #[trigger] made(t, u, l, rv) }
    // TRUSTED: an integer as a floating point number
    pub uninterp spec fn as_float(i: i64) -> f64;
    #[verifier::external_body]
    pub fn to_f64(i: i64) -> (r: f64) ensures r == as_float(i) { unimplemented!() }
    /// ["Int", null] and the like
    pub open spec fn null_is(a: Seq<JVal>, ty: ParamType, vt: VarType, rv: RustValue) -> bool {
        a.len() == 1 && match a[0] {
            JVal::Null(_) => param_is(rv, vt, val(ty, Content::Null)),
            JVal::Undefined(_) => param_is(rv, vt, val(ty, Content::Undefined)),
            JVal::Int(n, _) => ty == ParamType::Float && param_is(rv, vt, val(ty, Content::Float(as_float(n)))),
            JVal::Double(d, _) => ty == ParamType::Float && param_is(rv, vt, val(ty, Content::Float(d))),
            _ => false,
        }
    }
    pub open spec fn array_type(at: ArrayType) -> ParamType { match at { ArrayType::Int => ParamType::IntArray, ArrayType::Float => ParamType::FloatArray, ArrayType::Binary => ParamType::Binary } }
    pub open spec fn array_value(a: Seq<JVal>, at: ArrayType, p: RustParam) -> bool
        decreases deep(a), 2nat,
    {
        &&& value_of(p).ty == array_type(at)
        &&& match value_of(p).c {
            Content::Null => a.len() == 1 && a[0] is Null,
            Content::Undefined => a.len() == 1 && a[0] is Undefined,
            Content::Ints(x) => x.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> elem_is(#[trigger] a[i], at, RustParam::Int(Qv::Val(x[i]))),
            Content::Floats(x) => x.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> elem_is(#[trigger] a[i], at, RustParam::Float(Qv::Val(x[i]))),
            Content::Bytes(x) => x.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> elem_is(#[trigger] a[i], at, RustParam::Int(Qv::Val(x[i] as i64))),
            _ => false,
        }
    }
    pub open spec fn elem_is(v: JVal, at: ArrayType, p: RustParam) -> bool
        decreases inner(v), 5nat,
    {
        match v {
            JVal::Double(f, _) => at is Float && p == RustParam::Float(Qv::Val(f)),
            JVal::Int(i, _) => p == (if at is Float { RustParam::Float(Qv::Val(as_float(i))) } else { RustParam::Int(Qv::Val(i)) }),
            JVal::Array(b, _) => at is Float && p is Float && p->Float_0 is Val && array_is(b@, VarType::Normal, RustValue::Param(p, VarType::Normal)),
            _ => false,
        }
    }
    // ------------------------------------------------------------------ what an object stands for
    pub open spec fn count(ks: Seq<Seq<char>>, n: int) -> nat
        decreases n,
    {
        if n <= 0 { 0 } else { count(ks, n - 1) + (if key_of(ks[n - 1]) is Member { 1nat } else { 0nat }) }
    }
    /// a key of this kind is among the first n
    pub open spec fn has_key(ks: Seq<Seq<char>>, n: int, k: Key) -> bool { exists|i: int| 0 <= i < n && key_of(#[trigger] ks[i]) == k }
    /// a member of this name is among the first n
    pub open spec fn named(ks: Seq<Seq<char>>, n: int, name: Seq<char>) -> bool { exists|i: int| 0 <= i < n && key_of(#[trigger] ks[i]) is Member && key_of(ks[i])->Member_0 == name }
    pub open spec fn keys_ok(ks: Seq<Seq<char>>, n: int) -> bool {
        &&& forall|i: int| 0 <= i < n ==> !(key_of(#[trigger] ks[i]) is Bad)
        &&& forall|i: int, j: int| 0 <= i < j < n && key_of(#[trigger] ks[i]) is Member && key_of(#[trigger] ks[j]) is Member ==> key_of(ks[i])->Member_0 != key_of(ks[j])->Member_0
    }
    pub open spec fn val_is(v: JVal, is_ref: bool, vt: VarType, rv: RustValue) -> bool
        decreases inner(v), 6nat,
    {
        if is_ref { ref_item_is(v, vt, rv) } else { item_is(v, vt, rv) }
    }
    pub open spec fn ref_item_is(v: JVal, vt: VarType, rv: RustValue) -> bool {
        match v {
            JVal::String(s, _) => param_is(rv, vt, val(ParamType::String, Content::Str(s@))),
            JVal::Null(_) => param_is(rv, vt, val(ParamType::String, Content::Null)),
            JVal::Undefined(_) => param_is(rv, vt, val(ParamType::String, Content::Undefined)),
            _ => false,
        }
    }
    pub open spec fn member_at(m: Obj, is_ref: bool, i: int, k: Seq<char>, mem: Map<Seq<char>, (usize, RustValue)>) -> bool
        decreases deep_obj(m), 4nat,
    {
        m@.dom().contains(k) && match key_of(k) {
            Key::Member(name, vt) => mem.dom().contains(name) && mem[name].0 == count(m.order(), i) && val_is(m@[k], is_ref, vt, mem[name].1),
            _ => true,
        }
    }
    pub open spec fn members_are(m: Obj, is_ref: bool, n: int, mem: Map<Seq<char>, (usize, RustValue)>) -> bool
        decreases deep_obj(m), 5nat,
    {
        &&& forall|i: int| 0 <= i < n ==> member_at(m, is_ref, i, #[trigger] m.order()[i], mem)
        &&& forall|name: Seq<char>| #[trigger] mem.dom().contains(name) ==> named(m.order(), n, name)
    }
    pub open spec fn id_is(v: JVal, id: IdValue) -> bool {
        match v {
            JVal::String(s, _) => id is Str && id->Str_0@ == s@,
            JVal::Double(d, _) => is_whole(d) && at_least_0(d) && below_limit(d) && id == IdValue::Num(number(d)),
            _ => false,
        }
    }
    // TRUSTED: a number without a fraction, from 0, below 2^64, and as an integer
    pub uninterp spec fn at_least_0(d: f64) -> bool;
    pub uninterp spec fn below_limit(d: f64) -> bool;
    pub uninterp spec fn is_whole(d: f64) -> bool;
    pub uninterp spec fn number(d: f64) -> u64;
    pub open spec fn ids_are(m: Obj, n: int, id: Option<IdValue>) -> bool {
        &&& forall|i: int| 0 <= i < n && key_of(#[trigger] m.order()[i]) is ID ==> id is Some && id_is(m@[m.order()[i]], id->0)
        &&& id is Some ==> has_key(m.order(), n, Key::ID)
    }
    /// a plain name
    pub open spec fn plain(s: Seq<char>) -> bool { key_of(s) == Key::Member(s, VarType::Normal) }
    pub open spec fn text_in(a: Seq<JVal>, n: int, x: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] a[i]) is String && a[i]->String_0@ == x }
    pub open spec fn texts_are(a: Seq<JVal>, n: int, s: Set<Seq<char>>) -> bool {
        &&& forall|i: int| 0 <= i < n ==> (#[trigger] a[i]) is String && plain(a[i]->String_0@)
        &&& forall|x: Seq<char>| #[trigger] s.contains(x) <==> text_in(a, n, x)
    }
    pub open spec fn names_are(v: JVal, s: Set<Seq<char>>) -> bool { v is Array && texts_are(v->Array_0@, v->Array_0@.len() as int, s) }
    pub open spec fn olds_are(m: Obj, n: int, s: Set<Seq<char>>) -> bool {
        &&& forall|i: int| 0 <= i < n && key_of(#[trigger] m.order()[i]) is Old ==> names_are(m@[m.order()[i]], s)
        &&& !has_key(m.order(), n, Key::Old) ==> s == Set::<Seq<char>>::empty()
    }
    pub open spec fn ref_key(k: Seq<char>) -> bool { key_of(k) is Ref || key_of(k) is Enum }
    /// the last of the first n keys that declares references, or -1
    pub open spec fn last_ref(ks: Seq<Seq<char>>, n: int) -> int
        decreases n,
    {
        if n <= 0 { -1 } else if ref_key(ks[n - 1]) { n - 1 } else { last_ref(ks, n - 1) }
    }
    pub open spec fn no_members(v: JVal) -> bool { v is Map && forall|i: int| 0 <= i < v->Map_0.order().len() ==> !(key_of(#[trigger] v->Map_0.order()[i]) is Member) }
    pub open spec fn ref_is(v: JVal, vt: VarType, r: RefValue) -> bool {
        &&& r.v.value_type == vt
        &&& match v {
            JVal::String(s, _) => id_of(r.v.value) == Id::Val(s@) && (s@.len() == 0 || plain(s@)),
            JVal::Null(_) => r.v.value is Null,
            JVal::Undefined(_) => r.v.value is Undefined,
            _ => false,
        }
    }
    /// numbers from 0, each once
    pub open spec fn numbered<V>(m: Map<Seq<char>, (usize, V)>) -> bool {
        &&& forall|a: Seq<char>| #[trigger] m.dom().contains(a) ==> m[a].0 < m.dom().len()
        &&& forall|a: Seq<char>, b: Seq<char>| #[trigger] m.dom().contains(a) && #[trigger] m.dom().contains(b) && a != b ==> m[a].0 != m[b].0
    }
    pub open spec fn ref_at(m: Obj, i: int, r: Map<Seq<char>, (usize, RefValue)>) -> bool {
        let k = m.order()[i];
        match key_of(k) {
            Key::Member(name, vt) => r.dom().contains(name) && ref_is(m@[k], vt, r[name].1),
            Key::Ref => no_members(m@[k]),
            Key::Enum => no_members(m@[k]),
            Key::Old => true,
            _ => false,
        }
    }
    pub open spec fn refs_is(m: Obj, is_enum: bool, r: TmpRefs) -> bool {
        let n = m.order().len() as int;
        &&& r.is_enum == is_enum
        &&& keys_ok(m.order(), n)
        &&& olds_are(m, n, r.old@)
        &&& forall|i: int| 0 <= i < n ==> #[trigger] ref_at(m, i, r.map@)
        &&& forall|name: Seq<char>| #[trigger] r.map@.dom().contains(name) ==> named(m.order(), n, name)
        &&& numbered(r.map@)
    }
    pub open spec fn refs_are(m: Obj, n: int, r: TmpRefs) -> bool {
        let l = last_ref(m.order(), n);
        &&& forall|i: int| 0 <= i < n && ref_key(#[trigger] m.order()[i]) ==> m@[m.order()[i]] is Map && (i != l ==> no_members(m@[m.order()[i]]))
        &&& if l < 0 { r.map@ == Map::<Seq<char>, (usize, RefValue)>::empty() && r.old@ == Set::<Seq<char>>::empty() && !r.is_enum }
            else { refs_is(m@[m.order()[l]]->Map_0, key_of(m.order()[l]) is Enum, r) }
    }
    pub open spec fn obj_upto(m: Obj, is_ref: bool, n: int, o: TmpObj) -> bool
        decreases deep_obj(m), 6nat,
    {
        &&& keys_ok(m.order(), n)
        &&& members_are(m, is_ref, n, o.default@)
        &&& ids_are(m, n, o.id)
        &&& olds_are(m, n, o.old@)
        &&& refs_are(m, n, o.refs)
        &&& o.include@.len() == 0
    }
    pub open spec fn obj_is(m: Obj, is_ref: bool, o: TmpObj) -> bool
        decreases deep_obj(m), 7nat,
    { obj_upto(m, is_ref, m.order().len() as int, o) }
    // ------------------------------------------------------------------ what a list stands for
    pub enum Attr { Default, Old, NextID, Bad }
    pub open spec fn attr_of(v: JVal) -> Attr {
        if !(v is Array) || v->Array_0@.len() == 0 { Attr::Bad }
        else {
            match v->Array_0@[0] {
                JVal::String(s, _) => if s@ == "Default"@ { Attr::Default } else if s@ == "Old"@ { Attr::Old } else if s@ == "NextID"@ { Attr::NextID } else { Attr::Bad },
                JVal::Map(_, _) => Attr::Default,
                _ => Attr::Bad,
            }
        }
    }
    pub open spec fn default_is(a: Seq<JVal>, d: ListDefObj) -> bool
        decreases deep(a), 1nat,
    { a.len() == 1 && a[0] is Map && def_is(a[0]->Map_0, d) }
    pub open spec fn next_is(a: Seq<JVal>, n: u64) -> bool { a.len() == 1 && a[0] is Int && a[0]->Int_0 >= 0 && a[0]->Int_0 as u64 == n }
    pub open spec fn attr_is(v: JVal, d: Option<ListDefObj>, o: Option<HashS<String>>, x: Option<u64>) -> bool
        decreases inner(v), 2nat,
    {
        match v {
            JVal::Array(a, _) => match attr_of(v) {
                Attr::Default => d is Some && default_is(if a@[0] is Map { a@ } else { a@.skip(1) }, d->0),
                Attr::Old => o is Some && texts_are(a@.skip(1), a@.len() - 1, o->0@),
                Attr::NextID => x is Some && next_is(a@.skip(1), x->0),
                Attr::Bad => false,
            },
            _ => false,
        }
    }
    pub open spec fn has_attr(a: Seq<JVal>, n: int, t: Attr) -> bool { exists|i: int| 0 <= i < n && attr_of(#[trigger] a[i]) == t }
    pub open spec fn attrs_are(a: Seq<JVal>, n: int, d: Option<ListDefObj>, o: Option<HashS<String>>, x: Option<u64>) -> bool
        decreases deep(a), 1nat,
    {
        &&& forall|i: int| 0 <= i < n && 0 <= i < a.len() ==> attr_is(#[trigger] a[i], d, o, x)
        &&& forall|i: int, j: int| 0 <= i < j < n ==> attr_of(#[trigger] a[i]) != attr_of(#[trigger] a[j])
        &&& d is Some ==> has_attr(a, n, Attr::Default)
        &&& o is Some ==> has_attr(a, n, Attr::Old)
        &&& x is Some ==> has_attr(a, n, Attr::NextID)
    }
    pub open spec fn objs_are(a: Seq<JVal>, o: Seq<TmpObj>) -> bool
        decreases deep(a), 1nat,
    { o.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Map && obj_is(a[i]->Map_0, false, o[i]) }
    pub open spec fn list_is(a: Seq<JVal>, l: TmpList) -> bool
        decreases deep(a), 2nat,
    {
        let n = a.len() - l.vec@.len();
        0 <= n <= a.len() && attrs_are(a, n, l.default, l.old, l.next_id) && objs_are(a.skip(n), l.vec@)
    }
    pub open spec fn def_is(m: Obj, d: ListDefObj) -> bool
        decreases deep_obj(m), 8nat,
    { exists|o: TmpObj| obj_is(m, false, o) && #[trigger] def_made(o, d) }
    // ------------------------------------------------------------------ members, items and lists made of what was read
    pub open spec fn listdef_of(v: RustValue) -> Option<ListDefValue> {
        match v { RustValue::Param(p, vt) => Some(ListDefValue::Param(p, vt)), RustValue::CilDef(l) => Some(ListDefValue::CilDef(l)), RustValue::MilDef(m) => Some(ListDefValue::MilDef(m)), _ => None }
    }
    pub open spec fn sab_of(v: RustValue) -> Option<ListSabValue> {
        match v { RustValue::Param(p, _) => Some(ListSabValue::Param(p)), RustValue::Cil(l) => Some(ListSabValue::Cil(l)), RustValue::Mil(m) => Some(ListSabValue::Mil(m)), _ => None }
    }
    pub open spec fn root_of(v: RustValue) -> Option<(RootValue, Option<RootSabValue>)> {
        match v {
            RustValue::Param(p, vt) => Some((RootValue::Param(p, vt), None)), RustValue::Table(t) => Some((RootValue::Table(t), None)), RustValue::CList(t) => Some((RootValue::CList(t), None)),
            RustValue::MList((d, l)) => Some((RootValue::MList(d), Some(RootSabValue::Mut(l)))), _ => None,
        }
    }
    pub open spec fn defs_made(m: Map<Seq<char>, (usize, RustValue)>, r: Map<Seq<char>, (usize, ListDefValue)>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> r.dom().contains(k) && listdef_of(m[k].1) == Some(r[k].1)
        &&& forall|k: Seq<char>| #[trigger] r.dom().contains(k) ==> m.dom().contains(k)
        &&& numbered(r)
    }
    pub open spec fn refdef_made(t: TmpRefs, d: RefDefObj) -> bool { d.refs.map@ == t.map@ && d.is_enum == t.is_enum && d.old@ == t.old@ }
    pub open spec fn def_made(o: TmpObj, d: ListDefObj) -> bool {
        &&& o.id is None
        &&& defs_made(o.default@, d.default.map@)
        &&& refdef_made(o.refs, *d.refs)
        &&& d.old@ == o.old@
    }
    pub open spec fn vals_made(m: Map<Seq<char>, (usize, RustValue)>, r: Map<Seq<char>, ListSabValue>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> r.dom().contains(k) && sab_of(m[k].1) == Some(r[k])
        &&& forall|k: Seq<char>| #[trigger] r.dom().contains(k) ==> m.dom().contains(k)
    }
    pub open spec fn refs_made(m: Map<Seq<char>, (usize, RefValue)>, r: Map<Seq<char>, RefSabValue>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> r.dom().contains(k) && id_of(*r[k].value) == id_of(m[k].1.v.value)
        &&& forall|k: Seq<char>| #[trigger] r.dom().contains(k) ==> m.dom().contains(k)
    }
    pub open spec fn body_made(o: TmpObj, v: Map<Seq<char>, ListSabValue>, r: Map<Seq<char>, RefSabValue>) -> bool {
        o.old@.len() == 0 && o.refs.old@.len() == 0 && vals_made(o.default@, v) && refs_made(o.refs.map@, r)
    }
    pub open spec fn item_made(o: TmpObj, c: ConstItem) -> bool { o.id is None && body_made(o, c.values@, c.refs@) }
    pub open spec fn row_made(o: TmpObj, k: Seq<char>, c: ConstItem) -> bool { o.id is Some && o.id->0 is Str && o.id->0->Str_0@ == k && body_made(o, c.values@, c.refs@) }
    pub open spec fn entry_made(o: TmpObj, i: int, e: (u64, MutItem)) -> bool {
        &&& match o.id { Some(IdValue::Num(n)) => e.0 == n, Some(_) => false, None => e.0 == i }
        &&& body_made(o, e.1.values@, e.1.refs@)
    }
    pub open spec fn items_made(v: Seq<TmpObj>, l: Seq<ConstItem>) -> bool { l.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> item_made(#[trigger] v[i], l[i]) }
    pub open spec fn row_at(v: Seq<TmpObj>, i: int, m: Map<Seq<char>, ConstItem>) -> bool { v[i].id is Some && v[i].id->0 is Str && m.dom().contains(v[i].id->0->Str_0@) && row_made(v[i], v[i].id->0->Str_0@, m[v[i].id->0->Str_0@]) }
    pub open spec fn row_named(v: Seq<TmpObj>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] v[i]).id is Some && v[i].id->0 is Str && v[i].id->0->Str_0@ == k }
    /// a row for each object, each under its own ID
    pub open spec fn rows_made(v: Seq<TmpObj>, n: int, m: Map<Seq<char>, ConstItem>) -> bool {
        &&& forall|i: int| 0 <= i < n ==> #[trigger] row_at(v, i, m)
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> row_named(v, n, k)
        &&& forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] v[i]).id->0->Str_0@ != (#[trigger] v[j]).id->0->Str_0@
    }
    pub open spec fn entries_made(v: Seq<TmpObj>, n: int, l: Seq<(u64, MutItem)>) -> bool { l.len() == n && forall|i: int| 0 <= i < n ==> entry_made(v[i], i, #[trigger] l[i]) }
    /// the first number no entry may have had
    pub open spec fn free(l: Seq<(u64, MutItem)>, n: int, len: int) -> int
        decreases n,
    {
        if n <= 0 { len } else { let f = free(l, n - 1, len); if f <= l[n - 1].0 { l[n - 1].0 + 1 } else { f } }
    }
    pub open spec fn mut_made(v: Seq<TmpObj>, next: Option<u64>, l: LinkedMap<MutItem>) -> bool {
        &&& entries_made(v, v.len() as int, l@)
        &&& distinct(l@)
        &&& match next {
            Some(n) => l.next() == n && forall|i: int| 0 <= i < l@.len() ==> (#[trigger] l@[i]).0 < n,
            None => l.next() == free(l@, l@.len() as int, v.len() as int),
        }
    }
    pub open spec fn made(t: Tag, undefiable: bool, l: TmpList, rv: RustValue) -> bool {
        match t {
            Tag::CList => rv is CList && l.old is None && l.next_id is None && l.default == Some(*rv->CList_0.default) && items_made(l.vec@, rv->CList_0.list@),
            Tag::Table => rv is Table && l.next_id is None && l.default == Some(*rv->Table_0.default) && rows_made(l.vec@, l.vec@.len() as int, rv->Table_0.list@)
                && (match l.old { Some(o) => rv->Table_0.old@ == o@, None => rv->Table_0.old@ == Set::<Seq<char>>::empty() }),
            Tag::MList => rv is MList && l.old is None && l.default == Some(*(rv->MList_0).0.default) && (rv->MList_0).0.undefiable == undefiable && (rv->MList_0).1 is Some && mut_made(l.vec@, l.next_id, *((rv->MList_0).1->0.list)),
            Tag::Cil => rv is Cil && l.old is None && l.next_id is None && l.default is None && items_made(l.vec@, rv->Cil_0.list@),
            Tag::Mil => rv is Mil && l.old is None && l.default is None && rv->Mil_0 is Some && mut_made(l.vec@, l.next_id, *(rv->Mil_0->0.list)),
            Tag::CilDef => rv is CilDef && l.old is None && l.next_id is None && l.vec@.len() == 0 && l.default == Some(rv->CilDef_0),
            Tag::MilDef => rv is MilDef && l.old is None && l.next_id is None && l.vec@.len() == 0 && l.default == Some(*rv->MilDef_0.default) && rv->MilDef_0.undefiable == undefiable,
            _ => false,
        }
    }
    pub open spec fn root_at(m: Map<Seq<char>, (usize, RustValue)>, d: Map<Seq<char>, (usize, RootValue)>, s: Map<Seq<char>, RootSabValue>, k: Seq<char>) -> bool {
        match root_of(m[k].1) {
            Some((v, x)) => d.dom().contains(k) && d[k] == (m[k].0, v) && (match x { Some(y) => s.dom().contains(k) && s[k] == y, None => !s.dom().contains(k) }),
            None => false,
        }
    }
    pub open spec fn roots_made(m: Map<Seq<char>, (usize, RustValue)>, d: Map<Seq<char>, (usize, RootValue)>, s: Map<Seq<char>, RootSabValue>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> root_at(m, d, s, k)
        &&& forall|k: Seq<char>| #[trigger] d.dom().contains(k) ==> m.dom().contains(k)
        &&& forall|k: Seq<char>| #[trigger] s.dom().contains(k) ==> m.dom().contains(k)
    }
    pub open spec fn root_made(o: TmpObj, r: RootObject) -> bool {
        o.id is None && o.refs.map@.dom().len() == 0 && roots_made(o.default@, r.default.def@, r.sabun@) && r.old@ == o.old@
    }
    /// the root the text of root.json stands for
    pub open spec fn root_is(m: Obj, r: RootObject) -> bool { exists|o: TmpObj| #[trigger] obj_is(m, false, o) && root_made(o, r) }
}

pub mod parts {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::json::*;
    use super::name::*;
    use super::mean::*;
    // ------------------------------------------------------------------ arrays of numbers
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustArray
    impl<T> Qv<T> {
//@ fn dochy_core/src/imp/structs/qv.rs Qv::opt_map -> r
//@ optmap
            requires *self is Val ==> f.requires((&self->Val_0,)),
            ensures match *self {
                Qv::Val(v) => exists|x: Option<U>| #[trigger] f.ensures((&v,), x) && r == (match x { Some(y) => Some(Qv::Val(y)), None => None }),
                Qv::Null => r == Some(Qv::<U>::Null),
                Qv::Undefined => r == Some(Qv::<U>::Undefined),
            },
//@ end
    }
    pub open spec fn float_in(p: RustParam) -> Option<f64> { match p { RustParam::Float(Qv::Val(f)) => Some(f), _ => None } }
    pub open spec fn int_in(p: RustParam) -> Option<i64> { match p { RustParam::Int(Qv::Val(i)) => Some(i), _ => None } }
    pub open spec fn byte_in(p: RustParam) -> Option<u8> { match p { RustParam::Int(Qv::Val(i)) => if 0 <= i <= 255 { Some(i as u8) } else { None }, _ => None } }
    impl RustParam {
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::to_float -> r
            ensures r == float_in(*self),
//@ end
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::to_int -> r
            ensures r == int_in(*self),
//@ end
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::to_u8 -> r
            ensures r == byte_in(*self),
//@ start
            proof { if *self is Int && self->Int_0 is Val { let i = self->Int_0->Val_0; assert((i as u8) as i64 == i <==> 0 <= i <= 255) by (bit_vector); } }
//@ end
    }
    // TRUSTED: collecting Options: all of them, or None
    #[verifier::external_body]
    pub fn all_to_float(v: &Vec<RustParam>) -> (r: Option<Vec<f64>>)
        ensures r is Some <==> (forall|i: int| 0 <= i < v@.len() ==> float_in(#[trigger] v@[i]) is Some), r is Some ==> r->0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> Some(#[trigger] r->0@[i]) == float_in(v@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all_to_int(v: &Vec<RustParam>) -> (r: Option<Vec<i64>>)
        ensures r is Some <==> (forall|i: int| 0 <= i < v@.len() ==> int_in(#[trigger] v@[i]) is Some), r is Some ==> r->0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> Some(#[trigger] r->0@[i]) == int_in(v@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all_to_u8(v: &Vec<RustParam>) -> (r: Option<Vec<u8>>)
        ensures r is Some <==> (forall|i: int| 0 <= i < v@.len() ==> byte_in(#[trigger] v@[i]) is Some), r is Some ==> r->0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> Some(#[trigger] r->0@[i]) == byte_in(v@[i]),
    { unimplemented!() }
    pub open spec fn floats_of(v: Seq<RustParam>, r: Option<RustFloatArray>) -> bool { (r is Some <==> (forall|i: int| 0 <= i < v.len() ==> float_in(#[trigger] v[i]) is Some)) && (r is Some ==> r->0.b@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> Some(#[trigger] r->0.b@[i]) == float_in(v[i])) }
    pub open spec fn ints_of(v: Seq<RustParam>, r: Option<RustIntArray>) -> bool { (r is Some <==> (forall|i: int| 0 <= i < v.len() ==> int_in(#[trigger] v[i]) is Some)) && (r is Some ==> r->0.b@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> Some(#[trigger] r->0.b@[i]) == int_in(v[i])) }
    pub open spec fn bytes_of(v: Seq<RustParam>, r: Option<RustBinary>) -> bool { (r is Some <==> (forall|i: int| 0 <= i < v.len() ==> byte_in(#[trigger] v[i]) is Some)) && (r is Some ==> r->0.b@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> Some(#[trigger] r->0.b@[i]) == byte_in(v[i])) }
    impl RustFloatArray {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustFloatArray::from_params -> r
//@ sub v\.iter\(\)\.map\(\|p\| p\.(\w+)\(\)\)\.collect::<Option<Vec<\w+>>>\(\) => all_\1(v)
            ensures floats_of(v@, r),
//@ end
    }
    impl RustIntArray {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustIntArray::from_params -> r
//@ sub v\.iter\(\)\.map\(\|p\| p\.(\w+)\(\)\)\.collect::<Option<Vec<\w+>>>\(\) => all_\1(v)
            ensures ints_of(v@, r),
//@ end
    }
    impl RustBinary {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustBinary::from_params -> r
//@ sub v\.iter\(\)\.map\(\|p\| p\.(\w+)\(\)\)\.collect::<Option<Vec<\w+>>>\(\) => all_\1(v)
            ensures bytes_of(v@, r),
//@ end
    }
    pub open spec fn elems_in(a: Seq<JVal>, at: ArrayType, q: Qv<Vec<RustParam>>) -> bool {
        match q {
            Qv::Null => a.len() == 1 && a[0] is Null,
            Qv::Undefined => a.len() == 1 && a[0] is Undefined,
            Qv::Val(v) => v@.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> elem_is(#[trigger] a[i], at, v@[i]),
        }
    }
    pub open spec fn packs(q: Qv<Vec<RustParam>>, at: ArrayType, p: RustParam) -> bool {
        value_of(p).ty == array_type(at) && match (q, value_of(p).c) {
            (Qv::Null, Content::Null) => true,
            (Qv::Undefined, Content::Undefined) => true,
            (Qv::Val(v), Content::Ints(x)) => x.len() == v@.len() && forall|i: int| 0 <= i < x.len() ==> int_in(v@[i]) == Some(#[trigger] x[i]),
            (Qv::Val(v), Content::Floats(x)) => x.len() == v@.len() && forall|i: int| 0 <= i < x.len() ==> float_in(v@[i]) == Some(#[trigger] x[i]),
            (Qv::Val(v), Content::Bytes(x)) => x.len() == v@.len() && forall|i: int| 0 <= i < x.len() ==> byte_in(v@[i]) == Some(#[trigger] x[i]),
            _ => false,
        }
    }
    pub broadcast proof fn all_ints(a: Seq<JVal>, q: Qv<Vec<RustParam>>)
        requires #[trigger] elems_in(a, ArrayType::Int, q), a.len() > 0, a[0] is Int,
        ensures q is Val, forall|i: int| 0 <= i < q->Val_0@.len() ==> int_in(#[trigger] q->Val_0@[i]) is Some,
    {
        assert forall|i: int| 0 <= i < q->Val_0@.len() implies int_in(#[trigger] q->Val_0@[i]) is Some by { assert(elem_is(a[i], ArrayType::Int, q->Val_0@[i])); }
    }
    pub broadcast proof fn packed(a: Seq<JVal>, at: ArrayType, q: Qv<Vec<RustParam>>, p: RustParam)
        requires #[trigger] elems_in(a, at, q), #[trigger] packs(q, at, p),
        ensures array_value(a, at, p),
    {
        match value_of(p).c {
            Content::Ints(x) => { assert forall|i: int| 0 <= i < a.len() implies elem_is(#[trigger] a[i], at, RustParam::Int(Qv::Val(x[i]))) by { assert(int_in(q->Val_0@[i]) == Some(x[i])); } },
            Content::Floats(x) => { assert forall|i: int| 0 <= i < a.len() implies elem_is(#[trigger] a[i], at, RustParam::Float(Qv::Val(x[i]))) by { assert(float_in(q->Val_0@[i]) == Some(x[i])); } },
            Content::Bytes(x) => { assert forall|i: int| 0 <= i < a.len() implies elem_is(#[trigger] a[i], at, RustParam::Int(Qv::Val(x[i] as i64))) by { assert(byte_in(q->Val_0@[i]) == Some(x[i])); } },
            _ => {},
        }
    }
    impl RustArray {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustArray::new -> r
            ensures *r.array == qv,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustArray::qv -> r
            ensures *r == *self.array,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustArray::to_float_array -> r
//@ sub \|a\| RustFloatArray::from_params\(a\) => |a: &Vec<RustParam>| -> (x: Option<RustFloatArray>) ensures floats_of(a@, x) { RustFloatArray::from_params(a) }
            ensures match *self.array {
                Qv::Null => r == Some(Qv::<RustFloatArray>::Null), Qv::Undefined => r == Some(Qv::<RustFloatArray>::Undefined),
                Qv::Val(v) => exists|x: Option<RustFloatArray>| #[trigger] floats_of(v@, x) && r == (match x { Some(y) => Some(Qv::Val(y)), None => None }),
            },
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustArray::to_int_array -> r
//@ sub \|a\| RustIntArray::from_params\(a\) => |a: &Vec<RustParam>| -> (x: Option<RustIntArray>) ensures ints_of(a@, x) { RustIntArray::from_params(a) }
            ensures match *self.array {
                Qv::Null => r == Some(Qv::<RustIntArray>::Null), Qv::Undefined => r == Some(Qv::<RustIntArray>::Undefined),
                Qv::Val(v) => exists|x: Option<RustIntArray>| #[trigger] ints_of(v@, x) && r == (match x { Some(y) => Some(Qv::Val(y)), None => None }),
            },
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustArray::to_binary -> r
//@ sub \|a\| RustBinary::from_params\(a\) => |a: &Vec<RustParam>| -> (x: Option<RustBinary>) ensures bytes_of(a@, x) { RustBinary::from_params(a) }
            ensures match *self.array {
                Qv::Null => r == Some(Qv::<RustBinary>::Null), Qv::Undefined => r == Some(Qv::<RustBinary>::Undefined),
                Qv::Val(v) => exists|x: Option<RustBinary>| #[trigger] bytes_of(v@, x) && r == (match x { Some(y) => Some(Qv::Val(y)), None => None }),
            },
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustArray::to_param -> r
            ensures
                r is Ok ==> packs(*self.array, *at, r->Ok_0),
                *at is Int && *self.array is Val && (forall|i: int| 0 <= i < self.array->Val_0@.len() ==> int_in(#[trigger] self.array->Val_0@[i]) is Some) ==> r is Ok,
//@ end
    }
    // ------------------------------------------------------------------ the parts of an object
//@ fn dochy_core/src/imp/json_to_rust/get_old.rs get_old -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in array\{ => in each(array) {
//@ next 0 it
        ensures r is Ok ==> texts_are(array@, array@.len() as int, r->Ok_0@),
//@ start
        let ghost mut n: int = 0;
//@ loop 0
            invariant 0 <= n <= array@.len(), it@ == array@.skip(n), texts_are(array@, n, result@),
            ensures n == array@.len(),
            decreases array@.len() - n,
//@ in 0
            let ghost was = result@;
            proof { n = n + 1; assert(*item == array@[n - 1]); }
//@ last 0
            proof {
                let x = array@[n - 1]->String_0@;
                assert(result@ == was.insert(x));
                assert forall|y: Seq<char>| #[trigger] result@.contains(y) <==> text_in(array@, n, y) by {
                    if y == x { assert(text_in(array@, n, y)); } else { assert(was.contains(y) <==> text_in(array@, n - 1, y)); }
                }
            }
//@ end
    // TRUSTED: f64::fract, comparisons of an f64 and the conversion to u64
    #[verifier::external_body]
    pub fn whole(d: f64) -> (r: bool) ensures r == is_whole(d) { unimplemented!() }
    #[verifier::external_body]
    pub fn not_negative(d: f64) -> (r: bool) ensures r == at_least_0(d) { unimplemented!() }
    #[verifier::external_body]
    pub fn in_range(d: f64) -> (r: bool) ensures r == below_limit(d) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_number(d: f64) -> (r: u64) ensures r == number(d) { unimplemented!() }
//@ fn dochy_core/src/imp/json_to_rust/get_id.rs get_id -> r
//@ sub s\.to_string\(\) => text_of(s)
//@ sub \*d >= 0\.0 => not_negative(*d)
//@ sub \*d < u64::MAX as f64 => in_range(*d)
//@ sub d\.fract\(\) == 0\.0 => whole(*d)
//@ sub \*d as u64 => to_number(*d)
        ensures r is Some ==> id_is(*v, r->0),
//@ end
    impl RefValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::new -> r
            ensures r.v.value == value && r.v.value_type == value_type,
//@ end
    }
    impl RefDefMap {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefMap::new -> r
            ensures r.map == map,
//@ end
    }
    impl RefDefObj {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefObj::new -> r
            ensures r.refs.map == refs, r.is_enum == is_enum, *r.old == old,
//@ end
    }
    impl ListDefMap {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::new -> r
            ensures r.map == map,
//@ end
    }
    impl ListDefObj {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::new -> r
            ensures r.default.map == default, *r.refs == refs, *r.old == old,
//@ end
    }
    impl TmpRefs {
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpRefs::new -> r
            ensures r.map@ == Map::<Seq<char>, (usize, RefValue)>::empty(), r.old@ == Set::<Seq<char>>::empty(), !r.is_enum,
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpRefs::into_ref_def_obj -> r
            ensures refdef_made(self, r),
//@ end
    }
}

pub mod tmp {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::json::*;
    use super::name::*;
    use super::mean::*;
    use super::parts::*;
    impl RustValue {
        // only used in the words of errors
        #[verifier::external_body]
        pub fn type_string(&self) -> String { unimplemented!() }
//@ fn dochy_core/src/imp/structs/rust_value.rs RustValue::into_root_value -> r
            ensures match root_of(self) { Some(x) => r == Ok::<(RootValue, Option<RootSabValue>), String>(x), None => r is Err },
//@ end
//@ fn dochy_core/src/imp/structs/rust_value.rs RustValue::into_root_value2 -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures match root_of(self) { Some(x) => r == Ok::<(RootValue, Option<RootSabValue>), CoreError>(x), None => r is Err },
//@ end
//@ fn dochy_core/src/imp/structs/rust_value.rs RustValue::into_list_def_value -> r
            ensures match listdef_of(self) { Some(x) => r == Ok::<ListDefValue, String>(x), None => r is Err },
//@ end
//@ fn dochy_core/src/imp/structs/rust_value.rs RustValue::into_list_sab_value -> r
            ensures match sab_of(self) { Some(x) => r == Ok::<ListSabValue, String>(x), None => r is Err },
//@ end
    }
    // TRUSTED: a copy of a reference equals it
    #[verifier::external_body]
    pub fn qv_copy(q: &Qv<String>) -> (r: Qv<String>) ensures id_of(r) == id_of(*q) { unimplemented!() }
    impl RefSabValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefSabValue::new -> r
            ensures *r.value == value,
//@ end
    }
    impl RefValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::value -> r
            ensures *r == self.v.value,
//@ end
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::into_sab_value -> r
//@ sub self\.value\(\)\.clone\(\) => qv_copy(self.value())
            ensures id_of(*r.value) == id_of(self.v.value),
//@ end
    }
    impl ConstItem {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstItem::new -> r
            ensures *r.values == values, *r.refs == refs,
//@ end
    }
    impl MutItem {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::new -> r
            ensures r.values@ == values@, r.refs@ == refs@,
//@ end
    }
    impl ConstList {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstList::new -> r
            ensures *r.default == default, *r.list == list,
//@ end
    }
    impl ConstListVal {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstListVal::new -> r
            ensures *r.list == list,
//@ end
    }
    impl ConstTable {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstTable::new -> r
            ensures *r.default == default, *r.list == list, *r.old == old,
//@ end
    }
    impl MutListVal {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::new -> r
            ensures *r.list == list,
//@ end
    }
    impl MutListDef {
//@ fn dochy_core/src/imp/structs/mut_list_def.rs MutListDef::new -> r
            ensures *r.default == default, r.undefiable == undefiable,
//@ end
    }
    impl RootDefObj {
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::new -> r
            ensures r.def == def,
//@ end
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::def -> r
            ensures *r == self.def,
//@ end
    }
    impl MetaTable {
        // the table is the subject of unit member
        #[verifier::external_body]
        pub fn from_root(m: &HashM<String, (usize, RootValue)>) -> MetaTable { unimplemented!() }
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::new -> r
            ensures *r.default == default, *r.sabun == sabun, *r.old == old,
//@ end
    }
    /// the entries of the first n names
    pub open spec fn seen(ks: Seq<Seq<char>>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && #[trigger] ks[i] == k }
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs to_list_sab_map -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in map\{ => in map.apart() {
//@ next 0 it
        ensures r is Ok ==> vals_made(map@, r->Ok_0@),
//@ start
        let ghost m = map@;
        let ghost ks = map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                it.map() == m, lists_all(ks, m), 0 <= n <= ks.len(), it@ == ks.skip(n),
                forall|i: int| 0 <= i < n ==> result@.dom().contains(#[trigger] ks[i]) && sab_of(m[ks[i]].1) == Some(result@[ks[i]]),
                forall|k: Seq<char>| #[trigger] result@.dom().contains(k) ==> m.dom().contains(k),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof { n = n + 1; assert(k@ == ks[n - 1]); }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs to_list_def_val_map -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in map\.into_iter\(\)\.enumerate\(\) => in map.apart_numbered()
//@ next 0 it
        ensures r is Ok ==> defs_made(map@, r->Ok_0@),
//@ start
        let ghost m = map@;
        let ghost ks = map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                it.map() == m, lists_all(ks, m), 0 <= n <= ks.len(), it@ == ks.skip(n), it.from() == n,
                forall|i: int| 0 <= i < n ==> result@.dom().contains(#[trigger] ks[i]) && listdef_of(m[ks[i]].1) == Some(result@[ks[i]].1) && result@[ks[i]].0 == i,
                forall|k: Seq<char>| #[trigger] result@.dom().contains(k) ==> seen(ks, n, k),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost was = result@;
            proof { n = n + 1; assert(k@ == ks[n - 1]); }
//@ last 0
            proof {
                assert(result@ == was.insert(ks[n - 1], result@[ks[n - 1]]));
                assert forall|j: Seq<char>| #[trigger] result@.dom().contains(j) implies seen(ks, n, j) by { if j != ks[n - 1] { assert(seen(ks, n - 1, j)); } }
            }
//@ post 0
        proof { all_numbered(ks, m, result@); }
//@ end
    pub proof fn all_numbered<V, W>(ks: Seq<Seq<char>>, m: Map<Seq<char>, V>, r: Map<Seq<char>, (usize, W)>)
        requires
            lists_all(ks, m),
            forall|i: int| 0 <= i < ks.len() ==> r.dom().contains(#[trigger] ks[i]) && r[ks[i]].0 == i,
            forall|k: Seq<char>| #[trigger] r.dom().contains(k) ==> seen(ks, ks.len() as int, k),
        ensures numbered(r), r.dom() == m.dom(),
    {
        assert(ks.no_duplicates());
        ks.unique_seq_to_set();
        assert(r.dom() =~= ks.to_set());
        assert(r.dom() =~= m.dom());
    }
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs to_ref_sab_map -> r
//@ sub for\( => for (
//@ sub in map\{ => in map.apart() {
//@ next 0 it
        ensures refs_made(map@, r@),
//@ start
        let ghost m = map@;
        let ghost ks = map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                it.map() == m, lists_all(ks, m), 0 <= n <= ks.len(), it@ == ks.skip(n),
                forall|i: int| 0 <= i < n ==> result@.dom().contains(#[trigger] ks[i]) && id_of(*result@[ks[i]].value) == id_of(m[ks[i]].1.v.value),
                forall|k: Seq<char>| #[trigger] result@.dom().contains(k) ==> m.dom().contains(k),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof { n = n + 1; assert(k@ == ks[n - 1]); }
//@ end
    impl TmpObj {
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpObj::new -> r
            ensures
                r.default@ == Map::<Seq<char>, (usize, RustValue)>::empty(), r.id is None, r.include@.len() == 0, r.old@ == Set::<Seq<char>>::empty(),
                r.refs.map@ == Map::<Seq<char>, (usize, RefValue)>::empty(), r.refs.old@ == Set::<Seq<char>>::empty(), !r.refs.is_enum,
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpObj::insert_default
            ensures final(self).default@ == old(self).default@.insert(s@, (id, v)), final(self).id == old(self).id, final(self).include == old(self).include, final(self).refs == old(self).refs, final(self).old == old(self).old, final(self).span == old(self).span,
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpObj::into_list_def_obj -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> def_made(self, r->Ok_0),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpObj::into_list_item -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> item_made(self, r->Ok_0),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpObj::into_list_item_with_id -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> row_made(self, (r->Ok_0).0@, (r->Ok_0).1),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpObj::into_mut_list_item -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> entry_made(self, id as int, r->Ok_0),
//@ end
    }
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpObj::into_root_obj/to_root_hash -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in map\{ => in map.apart() {
//@ sub HashMt::new\(\) => no_entries()
//@ sub key\.to_string\(\) => text_of(key.as_str())
//@ next 0 it
        ensures r is Ok ==> roots_made(map@, (r->Ok_0).0@, (r->Ok_0).1@),
//@ start
        let ghost m = map@;
        let ghost ks = map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                it.map() == m, lists_all(ks, m), 0 <= n <= ks.len(), it@ == ks.skip(n),
                forall|i: int| 0 <= i < n ==> root_at(m, result@, sabun@, #[trigger] ks[i]),
                forall|k: Seq<char>| #[trigger] result@.dom().contains(k) ==> m.dom().contains(k),
                forall|k: Seq<char>| #[trigger] sabun@.dom().contains(k) ==> seen(ks, n, k),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost was = sabun@;
            proof { n = n + 1; assert(key@ == ks[n - 1]); assert(!seen(ks, n - 1, key@)); }
            let ghost k0 = key@;
//@ last 0
            proof {
                assert forall|j: Seq<char>| #[trigger] sabun@.dom().contains(j) implies seen(ks, n, j) by { if j != k0 { assert(was.dom().contains(j)); assert(seen(ks, n - 1, j)); } }
                assert forall|i: int| 0 <= i < n implies root_at(m, result@, sabun@, #[trigger] ks[i]) by { if i < n - 1 { assert(ks[i] != k0); } }
            }
//@ end
    impl TmpObj {
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs TmpObj::into_root_obj -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ hoist to_root_hash
            ensures r is Ok ==> root_made(self, r->Ok_0),
//@ end
    }
    impl TmpList {
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs TmpList::new -> r
            ensures r.vec@.len() == 0, r.old is None, r.default is None, r.next_id is None,
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs TmpList::into_const_list -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> made(Tag::CList, false, self, RustValue::CList(r->Ok_0)),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs TmpList::into_inner_list -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> made(Tag::Cil, false, self, RustValue::Cil(r->Ok_0)),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs TmpList::into_const_data -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub self\.old\.unwrap_or_else\(\|\| HashSt::new\(\)\) => or_none(self.old)
            ensures r is Ok ==> made(Tag::Table, false, self, RustValue::Table(r->Ok_0)),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs TmpList::into_mut_list -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> made(Tag::MList, undefiable, self, RustValue::MList(r->Ok_0)),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs TmpList::into_mut_inner_list -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> made(Tag::Mil, false, self, RustValue::Mil(Some(r->Ok_0))),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs TmpList::into_inner_def -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> made(Tag::CilDef, false, self, RustValue::CilDef(r->Ok_0)),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs TmpList::into_inner_mut_def -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
            ensures r is Ok ==> made(Tag::MilDef, undefinable, self, RustValue::MilDef(r->Ok_0)),
//@ end
    }
    // TRUSTED: unwrap_or_else with an empty set
    #[verifier::external_body]
    pub fn or_none(s: Option<HashS<String>>) -> (r: HashS<String>)
        ensures match s { Some(x) => r == x, None => r@ == Set::<Seq<char>>::empty() },
    { unimplemented!() }
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs to_list_items -> r
//@ sub in vec\{ => in apart(vec) {
//@ next 0 it
        ensures r is Ok ==> items_made(vec@, r->Ok_0@),
//@ start
        let ghost v = vec@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                0 <= n <= v.len(), it@ == v.skip(n), result@.len() == n,
                forall|i: int| 0 <= i < n ==> item_made(#[trigger] v[i], result@[i]),
            ensures n == v.len(),
            decreases v.len() - n,
//@ in 0
            proof { n = n + 1; assert(item == v[n - 1]); }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs to_data_items -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in vec\{ => in apart(vec) {
//@ sub contains_key\(&s\) => contains_key(s.as_str())
//@ next 0 it
        ensures r is Ok ==> rows_made(vec@, vec@.len() as int, r->Ok_0@),
//@ start
        let ghost v = vec@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                0 <= n <= v.len(), it@ == v.skip(n), rows_made(v, n, result@),
            ensures n == v.len(),
            decreases v.len() - n,
//@ in 0
            let ghost was = result@;
            proof { n = n + 1; assert(item == v[n - 1]); }
//@ last 0
            proof {
                let k = v[n - 1].id->0->Str_0@;
                assert(result@ == was.insert(k, result@[k]));
                assert forall|i: int| 0 <= i < n implies #[trigger] row_at(v, i, result@) by { if i < n - 1 { assert(row_at(v, i, was)); } }
                assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] v[i]).id->0->Str_0@ != (#[trigger] v[j]).id->0->Str_0@ by { if j == n - 1 { assert(row_at(v, i, was)); } }
                assert forall|x: Seq<char>| #[trigger] result@.dom().contains(x) implies row_named(v, n, x) by { if x == k { assert(v[n - 1].id is Some); } else { assert(row_named(v, n - 1, x)); } }
            }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs to_mut_list_items -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in vec\.into_iter\(\)\.enumerate\(\) => in apart_numbered(vec)
//@ sub HashS<u64> = HashSt::new\(\) => NumSet = NumSet::new()
//@ next 0 it
        ensures r is Ok ==> mut_made(vec@, next_id, r->Ok_0),
//@ start
        let ghost v = vec@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                0 <= n <= v.len(), it@ == v.skip(n), it.from() == n, entries_made(v, n, result@), distinct(result@),
                forall|i: int| 0 <= i < n ==> used@.contains((#[trigger] result@[i]).0),
                forall|x: u64| #[trigger] used@.contains(x) ==> has_id(result@, x),
                next_id is Some ==> forall|i: int| 0 <= i < n ==> (#[trigger] result@[i]).0 < next_id->0,
                unused_id == free(result@, n, v.len() as int),
            ensures n == v.len(),
            decreases v.len() - n,
//@ in 0
            let ghost was = result@;
            let ghost us = used@;
            proof { n = n + 1; assert(tmp_item == v[n - 1]); }
//@ last 0
            proof {
                free_same(was, result@, n - 1, v.len() as int);
                let x = result@[n - 1].0;
                assert(used@ == us.insert(x));
                assert(result@ == was.push(result@[n - 1]));
                assert forall|i: int| 0 <= i < n implies used@.contains((#[trigger] result@[i]).0) by { if i < n - 1 { assert(result@[i] == was[i]); } }
                assert forall|y: u64| #[trigger] used@.contains(y) implies has_id(result@, y) by {
                    if y == x { assert(result@[n - 1].0 == y); } else { assert(has_id(was, y)); let i = choose|i: int| 0 <= i < was.len() && (#[trigger] was[i]).0 == y; assert(result@[i].0 == y); }
                }
            }
//@ end
    pub proof fn free_same(a: Seq<(u64, MutItem)>, b: Seq<(u64, MutItem)>, n: int, len: int)
        requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == #[trigger] b[i],
        ensures free(a, n, len) == free(b, n, len),
        decreases n,
    {
        if n > 0 { free_same(a, b, n - 1, len); assert(a[n - 1] == b[n - 1]); }
    }
}

pub mod steps {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::json::*;
    use super::name::*;
    use super::mean::*;
    use super::parts::*;
    use super::tmp::*;
    // ------------------------------------------------------------------ one more key of an object
    pub proof fn key_differs(m: Obj, i: int, n: int)
        requires lists_all(m.order(), m@), 0 <= i < n - 1, n <= m.order().len(),
        ensures m.order()[i] != m.order()[n - 1],
    { }
    pub proof fn keys_same(m: Obj, is_ref: bool, n: int, mem: Map<Seq<char>, (usize, RustValue)>)
        requires lists_all(m.order(), m@), 0 < n <= m.order().len(), keys_ok(m.order(), n - 1), members_are(m, is_ref, n - 1, mem), !(key_of(m.order()[n - 1]) is Bad), !(key_of(m.order()[n - 1]) is Member),
        ensures keys_ok(m.order(), n), members_are(m, is_ref, n, mem), count(m.order(), n) == count(m.order(), n - 1),
    {
        let ks = m.order();
        assert forall|i: int| 0 <= i < n implies member_at(m, is_ref, i, #[trigger] m.order()[i], mem) by { if i == n - 1 { assert(m@.dom().contains(ks[i])); } }
        assert forall|name: Seq<char>| #[trigger] mem.dom().contains(name) implies named(ks, n, name) by { assert(named(ks, n - 1, name)); }
    }
    pub proof fn keys_more(m: Obj, is_ref: bool, n: int, was: Map<Seq<char>, (usize, RustValue)>, name: Seq<char>, vt: VarType, e: (usize, RustValue))
        requires
            lists_all(m.order(), m@), 0 < n <= m.order().len(), keys_ok(m.order(), n - 1), members_are(m, is_ref, n - 1, was), key_of(m.order()[n - 1]) == Key::Member(name, vt),
            !was.dom().contains(name), e.0 == count(m.order(), n - 1), val_is(m@[m.order()[n - 1]], is_ref, vt, e.1),
        ensures keys_ok(m.order(), n), members_are(m, is_ref, n, was.insert(name, e)), count(m.order(), n) == count(m.order(), n - 1) + 1,
    {
        let ks = m.order();
        let mem = was.insert(name, e);
        assert forall|i: int| 0 <= i < n - 1 && key_of(#[trigger] ks[i]) is Member implies key_of(ks[i])->Member_0 != name by { assert(member_at(m, is_ref, i, m.order()[i], was)); }
        assert forall|i: int| 0 <= i < n implies member_at(m, is_ref, i, #[trigger] m.order()[i], mem) by {
            assert(m@.dom().contains(ks[i]));
            if i < n - 1 { assert(member_at(m, is_ref, i, m.order()[i], was)); }
        }
        assert forall|x: Seq<char>| #[trigger] mem.dom().contains(x) implies named(ks, n, x) by {
            if x == name { assert(key_of(ks[n - 1]) is Member); } else { assert(was.dom().contains(x)); assert(named(ks, n - 1, x)); }
        }
    }
    pub proof fn ids_same(m: Obj, n: int, id: Option<IdValue>)
        requires 0 < n <= m.order().len(), ids_are(m, n - 1, id), !(key_of(m.order()[n - 1]) is ID),
        ensures ids_are(m, n, id),
    {
        if id is Some { assert(has_key(m.order(), n - 1, Key::ID)); }
    }
    pub proof fn ids_more(m: Obj, n: int, id: IdValue)
        requires lists_all(m.order(), m@), 0 < n <= m.order().len(), key_of(m.order()[n - 1]) is ID, id_is(m@[m.order()[n - 1]], id),
        ensures ids_are(m, n, Some(id)),
    {
        let ks = m.order();
        assert(key_of(ks[n - 1]) == Key::ID);
        assert forall|i: int| 0 <= i < n && key_of(#[trigger] ks[i]) is ID implies id_is(m@[ks[i]], id) by { if i < n - 1 { key_differs(m, i, n); assert(ks[i] == "ID"@ && ks[n - 1] == "ID"@); } }
    }
    pub proof fn olds_same(m: Obj, n: int, s: Set<Seq<char>>)
        requires 0 < n <= m.order().len(), olds_are(m, n - 1, s), !(key_of(m.order()[n - 1]) is Old),
        ensures olds_are(m, n, s),
    {
        if !has_key(m.order(), n, Key::Old) && has_key(m.order(), n - 1, Key::Old) {
            let i = choose|i: int| 0 <= i < n - 1 && key_of(#[trigger] m.order()[i]) == Key::Old;
            assert(key_of(m.order()[i]) == Key::Old);
        }
    }
    pub proof fn olds_more(m: Obj, n: int, s: Set<Seq<char>>)
        requires lists_all(m.order(), m@), 0 < n <= m.order().len(), key_of(m.order()[n - 1]) is Old, names_are(m@[m.order()[n - 1]], s),
        ensures olds_are(m, n, s),
    {
        let ks = m.order();
        assert(key_of(ks[n - 1]) == Key::Old);
        assert(has_key(ks, n, Key::Old));
        assert forall|i: int| 0 <= i < n && key_of(#[trigger] ks[i]) is Old implies names_are(m@[ks[i]], s) by { if i < n - 1 { key_differs(m, i, n); assert(ks[i] == "Old"@ && ks[n - 1] == "Old"@); } }
    }
    pub proof fn last_ref_in(ks: Seq<Seq<char>>, n: int)
        requires 0 <= n <= ks.len(),
        ensures last_ref(ks, n) < n, last_ref(ks, n) >= -1, last_ref(ks, n) >= 0 ==> ref_key(ks[last_ref(ks, n)]), forall|i: int| last_ref(ks, n) < i < n ==> !ref_key(#[trigger] ks[i]),
        decreases n,
    {
        if n > 0 { last_ref_in(ks, n - 1); }
    }
    pub proof fn refs_same(m: Obj, n: int, r: TmpRefs)
        requires 0 < n <= m.order().len(), refs_are(m, n - 1, r), !ref_key(m.order()[n - 1]),
        ensures refs_are(m, n, r),
    { }
    /// references without members
    pub proof fn refs_none(m: Obj, is_enum: bool, r: TmpRefs)
        requires refs_is(m, is_enum, r), r.map@.dom().len() == 0,
        ensures forall|i: int| 0 <= i < m.order().len() ==> !(key_of(#[trigger] m.order()[i]) is Member),
    {
        assert forall|i: int| 0 <= i < m.order().len() implies !(key_of(#[trigger] m.order()[i]) is Member) by {
            assert(ref_at(m, i, r.map@));
            if key_of(m.order()[i]) is Member { let x = key_of(m.order()[i])->Member_0; assert(r.map@.dom().contains(x)); assert(r.map@.dom() =~= Set::<Seq<char>>::empty()); }
        }
    }
    pub proof fn refs_more(m: Obj, n: int, was: TmpRefs, r: TmpRefs)
        requires
            0 < n <= m.order().len(), refs_are(m, n - 1, was), was.map@.dom().len() == 0, ref_key(m.order()[n - 1]), m@[m.order()[n - 1]] is Map,
            refs_is(m@[m.order()[n - 1]]->Map_0, key_of(m.order()[n - 1]) is Enum, r),
        ensures refs_are(m, n, r),
    {
        let ks = m.order();
        let l = last_ref(ks, n - 1);
        last_ref_in(ks, n - 1);
        if l >= 0 { refs_none(m@[ks[l]]->Map_0, key_of(ks[l]) is Enum, was); assert(no_members(m@[ks[l]])); }
        assert(last_ref(ks, n) == n - 1);
        assert forall|i: int| 0 <= i < n && ref_key(#[trigger] ks[i]) implies m@[ks[i]] is Map && (i != n - 1 ==> no_members(m@[ks[i]])) by {
            if i < n - 1 { if i == l { } }
        }
    }
    // ------------------------------------------------------------------ references
    pub open spec fn read_as(rv: RustValue, x: RefValue) -> bool {
        &&& rv is Param && rv->Param_0 is String && x.v.value_type == rv->Param_1
        &&& match rv->Param_0->String_0 {
            Qv::Val(s) => id_of(x.v.value) == Id::Val(s.str@) && (s.str@.len() == 0 || plain(s.str@)),
            Qv::Null => x.v.value is Null,
            Qv::Undefined => x.v.value is Undefined,
        }
    }
    pub proof fn refs_read(m: Obj, o: TmpObj, map: Map<Seq<char>, (usize, RefValue)>, r: TmpRefs)
        requires
            obj_is(m, true, o), o.refs.map@.dom().len() == 0, o.id is None, numbered(map), map.dom() == o.default@.dom(),
            forall|k: Seq<char>| #[trigger] map.dom().contains(k) ==> read_as(o.default@[k].1, map[k].1),
            r.map@ == map, r.old == o.old, !r.is_enum,
        ensures refs_is(m, false, r),
    {
        let ks = m.order();
        let n = ks.len() as int;
        let l = last_ref(ks, n);
        last_ref_in(ks, n);
        if l >= 0 { refs_none(m@[ks[l]]->Map_0, key_of(ks[l]) is Enum, o.refs); assert(no_members(m@[ks[l]])); }
        assert forall|i: int| 0 <= i < n implies #[trigger] ref_at(m, i, map) by {
            let k = ks[i];
            assert(member_at(m, true, i, m.order()[i], o.default@));
            match key_of(k) {
                Key::Member(name, vt) => { assert(map.dom().contains(name)); },
                Key::Ref => { assert(ref_key(ks[i])); },
                Key::Enum => { assert(ref_key(ks[i])); },
                _ => {},
            }
        }
        assert forall|name: Seq<char>| #[trigger] map.dom().contains(name) implies named(ks, n, name) by { assert(o.default@.dom().contains(name)); }
    }
    // ------------------------------------------------------------------ one more attribute of a list
    pub open spec fn sets(t: Attr, d0: Option<ListDefObj>, o0: Option<HashS<String>>, x0: Option<u64>, d: Option<ListDefObj>, o: Option<HashS<String>>, x: Option<u64>) -> bool {
        match t {
            Attr::Default => d0 is None && d is Some && o == o0 && x == x0,
            Attr::Old => o0 is None && o is Some && d == d0 && x == x0,
            Attr::NextID => x0 is None && x is Some && d == d0 && o == o0,
            Attr::Bad => false,
        }
    }
    pub proof fn attrs_more(a: Seq<JVal>, n: int, d0: Option<ListDefObj>, o0: Option<HashS<String>>, x0: Option<u64>, d: Option<ListDefObj>, o: Option<HashS<String>>, x: Option<u64>)
        requires 0 < n <= a.len(), attrs_are(a, n - 1, d0, o0, x0), sets(attr_of(a[n - 1]), d0, o0, x0, d, o, x), attr_is(a[n - 1], d, o, x),
        ensures attrs_are(a, n, d, o, x),
    {
        let t = attr_of(a[n - 1]);
        assert forall|i: int| 0 <= i < n - 1 implies attr_of(#[trigger] a[i]) != t && attr_is(a[i], d, o, x) by { assert(attr_is(a[i], d0, o0, x0)); }
        assert forall|u: Attr| has_attr(a, n - 1, u) implies #[trigger] has_attr(a, n, u) by {
            let i = choose|i: int| 0 <= i < n - 1 && attr_of(#[trigger] a[i]) == u;
            assert(attr_of(a[i]) == u);
        }
        assert(has_attr(a, n, t)) by { assert(attr_of(a[n - 1]) == t); }
        if d is Some && t != Attr::Default { assert(has_attr(a, n - 1, Attr::Default)); }
        if o is Some && t != Attr::Old { assert(has_attr(a, n - 1, Attr::Old)); }
        if x is Some && t != Attr::NextID { assert(has_attr(a, n - 1, Attr::NextID)); }
    }
}

pub mod read {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::json::*;
    use super::name::*;
    use super::mean::*;
    use super::parts::*;
    use super::tmp::*;
    use super::steps::*;
    use GatResult::*;
    broadcast use { super::parts::all_ints, super::parts::packed };
    impl<T> Qv<T> {
//@ fn dochy_core/src/imp/structs/qv.rs Qv::as_ref -> r
            ensures r == (match *self { Qv::Val(v) => Qv::Val(&v), Qv::Null => Qv::Null, Qv::Undefined => Qv::Undefined }),
//@ end
//@ fn dochy_core/src/imp/structs/qv.rs Qv::map -> r
            requires self is Val ==> f.requires((self->Val_0,)),
            ensures match self {
                Qv::Val(v) => r is Val && f.ensures((v,), r->Val_0),
                Qv::Null => r is Null,
                Qv::Undefined => r is Undefined,
            },
//@ end
    }
    // TRUSTED: the first element, and whether a text is empty
    #[verifier::external_body]
    pub fn first<T>(a: &Vec<T>) -> (r: Option<&T>) ensures r == (if a@.len() > 0 { Some(&a@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
//@ item dochy_core/src/imp/json_to_rust/json_array_to_rust.rs enum GatResult
    pub open spec fn tag_gat(t: Tag) -> GatResult {
        match t {
            Tag::Ints => GatResult::AT(ArrayType::Int), Tag::Floats => GatResult::AT(ArrayType::Float), Tag::Bytes => GatResult::AT(ArrayType::Binary),
            Tag::Int => GatResult::Int, Tag::Float => GatResult::Float, Tag::Str => GatResult::Str, Tag::Bool => GatResult::Bool,
            Tag::CList => GatResult::CList, Tag::Table => GatResult::Table, Tag::MList => GatResult::MList, Tag::Cil => GatResult::Cil, Tag::Mil => GatResult::Mil,
            Tag::CilDef => GatResult::CilDef, Tag::MilDef => GatResult::MilDef, Tag::NoList => GatResult::InnerMutUndefined, Tag::Bad => GatResult::NotDefined,
        }
    }
    pub open spec fn gat_of(a: Seq<JVal>) -> GatResult {
        if a.len() == 0 { GatResult::NotDefined } else {
            match a[0] { JVal::String(s, _) => tag_gat(tag_of(s@)), JVal::Int(_, _) => GatResult::NoTagInt, _ => GatResult::NotDefined }
        }
    }
    pub proof fn tags()
        ensures
            tag_of("IntArray"@) == Tag::Ints, tag_of("FloatArray"@) == Tag::Floats, tag_of("Binary"@) == Tag::Bytes, tag_of("Int"@) == Tag::Int, tag_of("Float"@) == Tag::Float,
            tag_of("Str"@) == Tag::Str, tag_of("Bool"@) == Tag::Bool, tag_of("CList"@) == Tag::CList, tag_of("Table"@) == Tag::Table, tag_of("MList"@) == Tag::MList,
            tag_of("Cil"@) == Tag::Cil, tag_of("Mil"@) == Tag::Mil, tag_of("CilDef"@) == Tag::CilDef, tag_of("MilDef"@) == Tag::MilDef, tag_of("__InnerMutUndefined"@) == Tag::NoList,
    {
        reveal_strlit("IntArray"); reveal_strlit("FloatArray"); reveal_strlit("Binary"); reveal_strlit("Int"); reveal_strlit("Float"); reveal_strlit("Str"); reveal_strlit("Bool");
        reveal_strlit("CList"); reveal_strlit("Table"); reveal_strlit("MList"); reveal_strlit("Cil"); reveal_strlit("Mil"); reveal_strlit("CilDef"); reveal_strlit("MilDef"); reveal_strlit("__InnerMutUndefined");
        assert("IntArray"@.len() == 8 && "FloatArray"@.len() == 10 && "Binary"@.len() == 6 && "Int"@.len() == 3 && "Float"@.len() == 5 && "Str"@.len() == 3 && "Bool"@.len() == 4);
        assert("CList"@.len() == 5 && "Table"@.len() == 5 && "MList"@.len() == 5 && "Cil"@.len() == 3 && "Mil"@.len() == 3 && "CilDef"@.len() == 6 && "MilDef"@.len() == 6 && "__InnerMutUndefined"@.len() == 19);
        assert("Binary"@[0] == 'B' && "Int"@[0] == 'I' && "Float"@[0] == 'F' && "Str"@[0] == 'S' && "CList"@[0] == 'C' && "Table"@[0] == 'T' && "MList"@[0] == 'M' && "Cil"@[0] == 'C' && "Mil"@[0] == 'M' && "CilDef"@[0] == 'C' && "MilDef"@[0] == 'M');
    }
//@ fn dochy_core/src/imp/json_to_rust/json_array_to_rust.rs get_array_type -> r
//@ sub use GatResult::\*; =>
//@ sub? "(\w+)" *=. *\{ => x if x == "\1" => {
//@ sub a\.get\(0\) => first(a)
        ensures r == gat_of(a@),
//@ start
        proof { tags(); }
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/json_array_to_rust.rs json_array_to_rust -> r
//@ sub use GatResult::\*; =>
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? \.or_else\(\|e\| \{\s*Err\(words\(\)\)\s*\}\) =>
//@ sub? &array\[1\.\.\] => tail(array.as_slice(), 1)
//@ sub? get_array\(&array, => get_array(array.as_slice(),
        ensures r is Ok ==> array_is(array@, var_type, r->Ok_0),
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/json_array_to_rust.rs get_array -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? (\*?\w+) as f64 => to_f64(\1)
//@ sub in a\{ => in each(a) {
//@ next 0 it
        ensures r is Ok ==> elems_in(a@, *array_type, *(r->Ok_0.array)),
//@ start
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                0 <= n <= a@.len(), it@ == a@.skip(n), vec@.len() == n,
                forall|i: int| 0 <= i < n ==> elem_is(#[trigger] a@[i], *array_type, vec@[i]),
            ensures n == a@.len(),
            decreases a@.len() - n,
//@ in 0
            proof { n = n + 1; assert(*item == a@[n - 1]); }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/array_null.rs array_null_or_undefined -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? (\*?\w+) as f64 => to_f64(\1)
        requires gat is Float || gat is Int || gat is Str || gat is Bool,
        ensures r is Ok ==> null_is(a@, match gat { GatResult::Float => ParamType::Float, GatResult::Int => ParamType::Int, GatResult::Str => ParamType::String, _ => ParamType::Bool }, var_type, r->Ok_0),
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/json_item_to_rust.rs json_item_to_rust -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub s\.to_string\(\) => text_of(s.as_str())
        ensures r is Ok ==> item_is(*v, var_type, r->Ok_0),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/json_item_to_rust.rs json_item_to_rust_ref -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub s\.to_string\(\) => text_of(s.as_str())
        ensures r is Ok ==> ref_item_is(*v, value_type, r->Ok_0),
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs json_obj_to_rust -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? \.ok_or_else\(\|\| words\(\)\) => .ok_or(words())
//@ sub in v\{ => in v.iter() {
//@ sub? json_name\(k\) => json_name(k.as_str())
//@ sub? &\*name => name.as_str()
//@ sub? &name, => name.as_str(),
//@ sub? name\.to_string\(\) => text_of(name.as_str())
//@ next 0 it
        ensures r is Ok ==> obj_is(*v, is_ref_obj, r->Ok_0),
//@ start
        let ghost m = *v;
        let ghost ks = v.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                it.map() == m@, ks == m.order(), lists_all(ks, m@), 0 <= n <= ks.len(), ks.len() <= usize::MAX, it@ == ks.skip(n),
                obj_upto(m, is_ref_obj, n, r), counter == count(ks, n), counter <= n,
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost was = r;
            let ghost v0 = *v;
            proof { n = n + 1; assert(k@ == ks[n - 1]); assert(v0 == m@[ks[n - 1]]); }
//@ last 0
            proof {
                match key_of(ks[n - 1]) {
                    Key::Member(x, vt) => { keys_more(m, is_ref_obj, n, was.default@, x, vt, r.default@[x]); assert(r.default@ == was.default@.insert(x, r.default@[x])); ids_same(m, n, r.id); olds_same(m, n, r.old@); refs_same(m, n, r.refs); },
                    Key::ID => { keys_same(m, is_ref_obj, n, r.default@); ids_more(m, n, r.id->0); olds_same(m, n, r.old@); refs_same(m, n, r.refs); },
                    Key::Old => { keys_same(m, is_ref_obj, n, r.default@); ids_same(m, n, r.id); olds_more(m, n, r.old@); refs_same(m, n, r.refs); },
                    _ => { keys_same(m, is_ref_obj, n, r.default@); ids_same(m, n, r.id); olds_same(m, n, r.old@); refs_more(m, n, was.refs, r.refs); },
                }
            }
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/get_refs.rs get_ref -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub obj\.default\.iter\(\)\.enumerate\(\) => obj.default.numbered()
//@ sub? s\.str\(\)\.is_empty\(\) => no_text(s.str())
//@ sub? k\.to_string\(\) => text_of(k.as_str())
//@ sub? vt\.clone\(\) => *vt
//@ sub? \|s\| s\.str\(\)\.to_string\(\) => |s: &RustString| -> (x: String) ensures x@ == s.str@ { text_of(s.str()) }
//@ next 0 it
        ensures r is Ok ==> refs_is(*v, false, r->Ok_0),
//@ start
        let ghost m = *v;
        let ghost mut n: int = 0;
//@ pre 0
        let ghost ks = obj.default.order();
        let ghost mm = obj.default@;
//@ loop 0
            invariant
                it.map() == mm, mm == obj.default@, lists_all(ks, mm), 0 <= n <= ks.len(), it@ == ks.skip(n), it.from() == n,
                forall|i: int| 0 <= i < n ==> map@.dom().contains(#[trigger] ks[i]) && map@[ks[i]].0 == i && read_as(mm[ks[i]].1, map@[ks[i]].1),
                forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> seen(ks, n, k),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost was = map@;
            proof { n = n + 1; assert(k@ == ks[n - 1]); }
            let ghost k0 = k@;
//@ last 0
            proof {
                assert(map@ == was.insert(k0, map@[k0]));
                assert forall|j: Seq<char>| #[trigger] map@.dom().contains(j) implies seen(ks, n, j) by { if j != k0 { assert(seen(ks, n - 1, j)); } else { assert(ks[n - 1] == j); } }
                assert forall|i: int| 0 <= i < n implies map@.dom().contains(#[trigger] ks[i]) && map@[ks[i]].0 == i && read_as(mm[ks[i]].1, map@[ks[i]].1) by { if i < n - 1 { assert(ks[i] != k0); } }
            }
//@ post 0
        proof {
            all_numbered(ks, mm, map@);
            assert forall|k: Seq<char>| #[trigger] map@.dom().contains(k) implies read_as(mm[k].1, map@[k].1) by { assert(seen(ks, n, k)); }
            assert forall|r: TmpRefs| r.map@ == map@ && r.old == obj.old && !r.is_enum implies #[trigger] refs_is(m, false, r) by { refs_read(m, obj, map@, r); }
        }
//@ end
//@ item dochy_core/src/imp/json_to_rust/list/list_attribute.rs enum ListAttribute
    pub open spec fn attr_read(a: Seq<JVal>, r: ListAttribute) -> bool {
        a.len() > 0 && match r {
            ListAttribute::Default(d) => (a[0] is Map && default_is(a, d)) || (a[0] is String && a[0]->String_0@ == "Default"@ && default_is(a.skip(1), d)),
            ListAttribute::Old(o) => a[0] is String && a[0]->String_0@ == "Old"@ && texts_are(a.skip(1), a.len() - 1, o@),
            ListAttribute::NextID(x) => a[0] is String && a[0]->String_0@ == "NextID"@ && next_is(a.skip(1), x),
        }
    }
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/list/list_attribute.rs list_attribute -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? "(\w+)" *=. *\{ => x if x == "\1" => {
//@ sub? &array\[1\.\.\] => tail(array.as_slice(), 1)
//@ sub? get_default\(&array, => get_default(array.as_slice(),
        ensures r is Ok ==> attr_read(array@, r->Ok_0),
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/list/get_default.rs get_default -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
        ensures r is Ok ==> default_is(array@, r->Ok_0),
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/list/get_default.rs get_default_obj -> r
        ensures r is Ok ==> def_is(*map, r->Ok_0),
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/list/get_list_items.rs get_list_items -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ loops while
//@ while 0 n
        ensures r is Ok ==> objs_are(array@, r->Ok_0@),
//@ loop 0
            invariant
                n <= n_end, n_end == array@.len(), result@.len() == n,
                forall|i: int| 0 <= i < n ==> (#[trigger] array@[i]) is Map && obj_is(array@[i]->Map_0, false, result@[i]),
            decreases n_end - n,
//@ end
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/list/json_list_to_rust.rs json_list_to_rust -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? &array\[ind\.\.\] => tail(array, ind)
//@ loops while
//@ while 0 n
        ensures r is Ok ==> list_is(array@, r->Ok_0),
//@ loop 0
            invariant_except_break
                attrs_are(array@, n as int, result.default, result.old, result.next_id), result.vec@.len() == 0,
            invariant
                n <= n_end, n_end == array@.len(),
            ensures list_is(array@, result),
            decreases n_end - n,
//@ in 0
            proof { reveal_strlit("Default"); reveal_strlit("Old"); reveal_strlit("NextID"); assert("Default"@.len() == 7 && "Old"@.len() == 3 && "NextID"@.len() == 6); }
            let ghost was = result;
//@ last 0
            proof { attrs_more(array@, n as int, was.default, was.old, was.next_id, result.default, result.old, result.next_id); }
//@ end
}

pub mod root {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::json::*;
    use super::name::*;
    use super::mean::*;
    use super::tmp::*;
    use super::read::*;
    pub type Part = (String, RootValue, Option<RootSabValue>);
    // TRUSTED: the order of texts, and sorting by it
    pub uninterp spec fn not_after(a: Seq<char>, b: Seq<char>) -> bool;
    pub open spec fn in_order(s: Seq<Part>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> not_after((#[trigger] s[i]).0@, (#[trigger] s[j]).0@) }
    #[verifier::external_body]
    pub fn sort_by_name(v: &mut Vec<Part>)
        ensures in_order(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
    { unimplemented!() }
    /// the members after the first n files are added, each with the next number
    pub open spec fn def_after(d: Map<Seq<char>, (usize, RootValue)>, s: Seq<Part>, n: int) -> Map<Seq<char>, (usize, RootValue)>
        decreases n,
    {
        if n <= 0 { d } else { let p = def_after(d, s, n - 1); p.insert(s[n - 1].0@, (p.dom().len() as usize, s[n - 1].1)) }
    }
    pub open spec fn sab_after(d: Map<Seq<char>, RootSabValue>, s: Seq<Part>, n: int) -> Map<Seq<char>, RootSabValue>
        decreases n,
    {
        if n <= 0 { d } else { match s[n - 1].2 { Some(x) => sab_after(d, s, n - 1).insert(s[n - 1].0@, x), None => sab_after(d, s, n - 1) } }
    }
    /// no file has the name of a member, or of a file before it
    pub open spec fn all_new(d: Map<Seq<char>, (usize, RootValue)>, s: Seq<Part>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !#[trigger] def_after(d, s, i).dom().contains(s[i].0@) }
    pub open spec fn merged(root: RootObject, s: Seq<Part>, r: RootObject) -> bool {
        let n = s.len() as int;
        &&& in_order(s)
        &&& all_new(root.default.def@, s, n)
        &&& r.default.def@ == def_after(root.default.def@, s, n)
        &&& r.sabun@ == sab_after(root.sabun@, s, n)
        &&& r.old == root.old
    }
    pub open spec fn composed(root: RootObject, v: Seq<Part>, r: RootObject) -> bool { exists|s: Seq<Part>| s.to_multiset() == v.to_multiset() && #[trigger] merged(root, s, r) }
    impl RootDefObj {
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::def_mut -> r
            ensures *r == old(self).def, final(self).def == *final(r),
//@ end
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::deconstruct -> r
            ensures r.0 == self.default, r.1 == self.sabun, r.2 == self.old,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::construct -> r
            ensures r.default == default, r.sabun == sabun, r.old == old,
//@ end
    }
//@ fn dochy_core/src/imp/json_to_rust/construct_root.rs construct_root -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? Arc::make_mut => make_mut
//@ sub vec\.sort_by\(\|\(a,_,_\),\(b,_,_\)\| a\.cmp\(b\)\) => sort_by_name(&mut vec)
//@ sub? in vec \{ => in apart(vec) {
//@ sub? contains_key\(&name\) => contains_key(name.as_str())
//@ sub? name\.to_string\(\) => text_of(name.as_str())
//@ next 0 it
        ensures r is Ok ==> composed(root, vec@, r->Ok_0),
//@ start
        let ghost r0 = root;
        let ghost v0 = vec@;
        let ghost mut n: int = 0;
//@ pre 0
        let ghost s = it@;
//@ loop 0
            invariant
                0 <= n <= s.len(), it@ == s.skip(n), in_order(s), s.to_multiset() == v0.to_multiset(),
                default@ == def_after(r0.default.def@, s, n), sabun@ == sab_after(r0.sabun@, s, n), all_new(r0.default.def@, s, n),
            ensures n == s.len(),
            decreases s.len() - n,
//@ in 0
            proof { n = n + 1; assert((name, value, sab) == s[n - 1]); }
//@ before return Ok\(root\)
        proof { assert(merged(r0, s, root)); }
//@ end
    // TRUSTED (bounded part of the property: parsing a text): what a text stands for is a function of the text
    pub uninterp spec fn parsed(t: Seq<char>) -> JVal;
    #[verifier::external_body]
    pub fn parse(t: &str) -> (r: CoreResult<JVal>) ensures r is Ok ==> r->Ok_0 == parsed(t@) { unimplemented!() }
    pub open spec fn root_text(t: Seq<char>, r: RootObject) -> bool { parsed(t) is Map && root_is(parsed(t)->Map_0, r) }
//@ fn dochy_core/src/imp/json_to_rust/mod.rs json_root_to_rust -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub dochy_json5::from_str => parse
//@ sub? json_obj_to_rust:: =>
        ensures r is Ok ==> root_text(json@, r->Ok_0),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/mod.rs json_item_str_to_rust -> r
//@ sub dochy_json5::from_str => parse
//@ sub? json_item_to_rust:: =>
        ensures r is Ok ==> item_is(parsed(json@), var_type, r->Ok_0),
//@ end
    // TRUSTED: the text of bytes in UTF-8, and the name of a file without what follows its last dot
    pub uninterp spec fn utf8(b: Seq<u8>) -> Seq<char>;
    #[verifier::external_body]
    pub fn from_utf8(b: &[u8]) -> (r: CoreResult<&str>) ensures r is Ok ==> r->Ok_0@ == utf8(b@) { unimplemented!() }
    pub uninterp spec fn stem(p: Seq<char>) -> Seq<char>;
    #[verifier::external_body]
    pub fn file_stem(p: &str) -> (r: CoreResult<&str>) ensures r is Ok ==> r->Ok_0@ == stem(p@) { unimplemented!() }
    impl std::fmt::Display for CoreError {
        #[verifier::external_body]
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
    }
//@ item dochy_core/src/imp/structs/dochy_archive.rs enum ArchivingItem
    /// what one file stands for
    pub open spec fn file_is(p: Seq<char>, b: Seq<u8>, r: ArchivingItem) -> bool {
        match r {
            ArchivingItem::Root(x) => stem(p) == "root"@ && root_text(utf8(b), x),
            ArchivingItem::Item((n, v, s)) => stem(p) != "root"@ && key_of(stem(p)) is Member && key_of(stem(p))->Member_0 == n@
                && exists|rv: RustValue| item_is(parsed(utf8(b)), key_of(stem(p))->Member_1, rv) && #[trigger] root_of(rv) == Some((v, s)),
        }
    }
//@ fn dochy_core/src/imp/json_to_rust/roots/json_file_to_rust.rs json_file_to_rust -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub? let path = Path::new\(path\); =>
//@ sub path\.file_stem\(\)\.ok_or_else\(\|\| words\(\)\)\?\s*\.to_str\(\)\.ok_or_else\(\|\| words\(\)\)\? => file_stem(path)?
//@ sub? \.ok_or_else\(\|\| words\(\)\) => .ok_or(words())
//@ sub? &name\b => name.as_str()
//@ sub? var_type\.clone\(\) => var_type
        ensures r is Ok ==> file_is(path@, dat@, r->Ok_0),
//@ end

    // TRUSTED: BTreeMap of texts is a map; taking it apart hands out every entry once
    #[verifier::external_body]
    #[verifier::reject_recursive_types(V)]
    #[verifier::reject_recursive_types(K)]
    pub struct BTreeMap<K, V> { x: Vec<(K, V)> }
    impl<V> BTreeMap<String, V> {
        pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &String) -> (r: Option<V>)
            ensures
                r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None::<V> }),
                final(self)@ == old(self)@.remove(k@),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn apart(self) -> (r: HashInto<V>)
            ensures r.map() == self@, lists_all(r@, self@),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn find<'a, V, F: Fn(&String, &V) -> bool>(t: &'a BTreeMap<String, V>, f: F) -> (r: Option<(&'a String, &'a V)>)
        requires forall|k: &String, v: &V| f.requires((k, v)),
        ensures r is Some ==> t@.contains_key((r->0).0@) && *(r->0).1 == t@[(r->0).0@] && f.ensures((&*(r->0).0, &*(r->0).1), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_of(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
    #[verifier::reject_recursive_types(T)]
//@ item dochy_archiver2/src/imp/structs/archive_data.rs struct ArchiveData
//@ sub Send \+ 'static => Sized
    #[verifier::reject_recursive_types(T)]
//@ item dochy_archiver2/src/imp/structs/archive_data.rs struct ArchiveDataItem
//@ sub Send \+ 'static => Sized
    impl<T> ArchiveData<T> {
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveData::hash -> r
            ensures r == self.hash,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveData::deconstruct -> r
            ensures r == self.btree,
//@ end
    }
    impl<T> ArchiveDataItem<T> {
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveDataItem::converted_data -> r
            ensures *r == self.converted_data,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveDataItem::deconstruct -> r
            ensures r.0 == self.converted_data, r.1 == self.raw_data,
//@ end
    }
    pub type Read = CoreResult<ArchivingItem>;
    pub open spec fn is_root(r: Read) -> bool { r is Ok && r->Ok_0 is Root }
    pub open spec fn is_item(r: Read) -> bool { r is Ok && r->Ok_0 is Item }
    pub open spec fn part_of(r: Read) -> Part { r->Ok_0->Item_0 }
    /// one of the files is the root, all others are members; they make up the definition
    pub open spec fn made_of(m: Map<Seq<char>, ArchiveDataItem<Read>>, key: Seq<char>, names: Seq<Seq<char>>, r: RootObject) -> bool {
        &&& m.contains_key(key) && is_root(m[key].converted_data)
        &&& lists_all(names, m.remove(key))
        &&& forall|i: int| 0 <= i < names.len() ==> is_item(m[#[trigger] names[i]].converted_data)
        &&& composed(m[key].converted_data->Ok_0->Root_0, Seq::new(names.len(), |i: int| part_of(m[names[i]].converted_data)), r)
    }
    pub open spec fn made(m: Map<Seq<char>, ArchiveDataItem<Read>>, r: RootObject) -> bool { exists|k: Seq<char>, n: Seq<Seq<char>>| #[trigger] made_of(m, k, n, r) }
//@ fn dochy_core/src/imp/json_to_rust/roots/archive_data_to_root.rs archive_data_to_root_with_hash -> r
//@ sub tree\.iter\(\)\.find\(\|\(_key, val\)\| \{ => find(&tree, |_key: &String, val: &ArchiveDataItem<Read>| -> (b: bool) ensures b == is_root(val.converted_data) {
//@ sub = \(\|\| \{ => = {
//@ sub \}\)\(\); => };
//@ sub return Ok\(root\)\s*\} => Ok(root) }
//@ sub? key\.to_string\(\) => copy_of(key)
//@ sub? unreachable!\(\) => vstd::pervasive::unreached()
//@ sub? in tree \{ => in tree.apart() {
//@ next 0 it
        ensures
            r is Ok ==> r->Ok_0.1 == data.hash,
            r is Ok ==> made(data.btree@, r->Ok_0.0),
//@ start
        let ghost m0 = data.btree@;
        let ghost mut n: int = 0;
//@ pre 0
        let ghost names = it@;
        let ghost tree_left = it.map();
        let ghost key = choose|k: Seq<char>| #![trigger m0.remove(k)] m0.contains_key(k) && is_root(m0[k].converted_data) && m0[k].converted_data->Ok_0->Root_0 == root && tree_left == m0.remove(k);
//@ loop 0
            invariant
                0 <= n <= names.len(), it@ == names.skip(n), it.map() == m0.remove(key), lists_all(names, m0.remove(key)),
                vec@.len() == n,
                forall|i: int| 0 <= i < n ==> is_item(m0[#[trigger] names[i]].converted_data) && vec@[i] == part_of(m0[names[i]].converted_data),
            ensures n == names.len(),
            decreases names.len() - n,
//@ in 0
            proof { n = n + 1; }
//@ before let root = construct_root
        let ghost root0 = root;
        let ghost parts = vec@;
        proof { assert(parts =~= Seq::new(names.len(), |i: int| part_of(m0[names[i]].converted_data))); }
//@ before return Ok\(\(root
        proof { assert(made_of(m0, key, names, root)); assert(made(m0, root)); }
//@ end
}

} // verus!
fn main() {}
