#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_unsafe)]
// Unit: what a member can hold, setting and reading it (property 10).
use vstd::prelude::*;
use vstd::raw_ptr::*;
use std::sync::Arc;

verus! {
global size_of usize == 8;

pub mod lib_specs {
    use super::*;
    // TRUSTED: HashM<String, _> is a map from texts to values
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct HashM<K, V> { x: std::collections::HashMap<K, V> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashS<K> { x: std::collections::HashSet<K> }
    impl<V> HashM<String, V> {
        pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
        #[verifier::external_body]
        pub fn get(&self, k: &str) -> (r: Option<&V>)
            ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
            ensures
                r is Some <==> old(self)@.dom().contains(k@),
                match r { Some(v) => *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => final(self)@ == old(self)@ },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &str) -> (r: bool)
            ensures r == self@.dom().contains(k@),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
            ensures
                final(self)@ == old(self)@.insert(k@, v),
                r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clear(&mut self)
            ensures final(self)@ == Map::<Seq<char>, V>::empty(),
        { unimplemented!() }
    }
    // TRUSTED: going through a map hands out each of its entries once
    #[verifier::external_body]
    #[verifier::reject_recursive_types(V)]
    pub struct Entries<'a, V> { x: std::collections::hash_map::Iter<'a, String, V> }
    impl<'a, V> Entries<'a, V> {
        pub uninterp spec fn rest(&self) -> Map<Seq<char>, V>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(&'a String, &'a V)>)
            ensures match r {
                Some(e) => old(self).rest().dom().contains(e.0@) && old(self).rest()[e.0@] == *e.1 && final(self).rest() == old(self).rest().remove(e.0@)
                    && final(self).rest().dom().len() < old(self).rest().dom().len(),
                None => old(self).rest() == Map::<Seq<char>, V>::empty() && final(self).rest() == old(self).rest(),
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn entries<'a, V>(m: &'a HashM<String, V>) -> (r: Entries<'a, V>)
        ensures r.rest() == m@,
    { unimplemented!() }
    // TRUSTED: HashS<String> is a set of texts
    impl HashS<String> {
        pub uninterp spec fn view(&self) -> Set<Seq<char>>;
        #[verifier::external_body]
        pub fn contains(&self, k: &str) -> (r: bool)
            ensures r == self@.contains(k@),
        { unimplemented!() }
    }
    /// the keys of a map, each once
    pub open spec fn keys<V>(ks: Seq<String>, m: Map<Seq<char>, V>) -> bool {
        &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i]@)
        &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i])@ != (#[trigger] ks[j])@
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == k
    }
    // TRUSTED: what is made of the entries of a map, collected: one for each entry
    #[verifier::external_body]
    pub fn collected<V, T, F: Fn(&String, &V) -> T>(m: &HashM<String, V>, f: F) -> (r: Vec<T>)
        requires forall|k: &String, v: &V| m@.dom().contains(k@) && m@[k@] == *v ==> f.requires((k, v)),
        ensures exists|ks: Seq<String>| #[trigger] keys(ks, m@) && ks.len() == r@.len() && forall|i: int| #![trigger r@[i]] #![trigger ks[i]] 0 <= i < ks.len() ==> f.ensures((&ks[i], &m@[ks[i]@]), r@[i]),
    { unimplemented!() }
    // TRUSTED: Arc::make_mut gives access to the value, or to an equal clone of it where it is shared
    #[verifier::external_body]
    pub fn make_mut<T>(a: &mut Arc<T>) -> (r: &mut T)
        ensures *r == **old(a), **final(a) == *final(r),
    { unimplemented!() }
    // TRUSTED: as_ref of Arc and Box
    pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Arc<T, A> as AsRef<T>>::as_ref] (a: &Arc<T, A>) -> (r: &T)
        ensures r == &**a;
    pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref] (a: &Box<T, A>) -> (r: &T)
        ensures r == &**a;
    pub fn box_mut<T>(a: &mut Box<T>) -> (r: &mut T)
        ensures *r == **old(a), **final(a) == *final(r),
    { &mut **a }
    // TRUSTED: a reference made from a pointer is not used any more when the pointer is used again
    // (the lifetime of such a reference is not tied to the permission, as in the source)
    #[verifier::external_body]
    pub fn deref_mut<'a, T>(p: *mut T, Tracked(pt): Tracked<&mut PointsTo<T>>) -> (r: &'a mut T)
        requires old(pt).ptr() == p, old(pt).is_init(),
        ensures *r == old(pt).value(), final(pt).ptr() == p, final(pt).is_init(), final(pt).value() == *final(r),
    { unsafe { &mut *p } }
}

pub mod structs {
    use super::*;
    use super::lib_specs::*;
    #[derive(PartialEq, Eq, Clone, Copy)]
//@ item dochy_core/src/imp/structs/var_type.rs enum VarType
//@ item dochy_core/src/imp/structs/qv.rs enum QvType
//@ item dochy_core/src/imp/structs/qv.rs enum Qv
//@ item dochy_core/src/imp/structs/null_or.rs enum NullOr
//@ item dochy_core/src/imp/structs/null_or.rs enum UndefOr
    #[derive(PartialEq, Eq)]
//@ item dochy_core/src/imp/structs/rust_value.rs enum RustMemberType
//@ item dochy_core/src/imp/structs/rust_string.rs struct RustString
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustIntArray
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustFloatArray
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustBinary
//@ item dochy_core/src/imp/structs/rust_param.rs enum RustParam
//@ item dochy_core/src/imp/structs/util/set_sabun.rs enum SetSabunError
//@ item dochy_core/src/imp/structs/root_sab_value.rs enum RootSabValue
//@ item dochy_core/src/imp/structs/root_value.rs enum RootValue
//@ item dochy_core/src/imp/structs/root_def_obj.rs struct RootDefObj
//@ item dochy_core/src/imp/structs/root_obj.rs struct RootObject
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstTable
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstList
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstListVal
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstItem
//@ item dochy_core/src/imp/structs/rust_list.rs struct MutListVal
//@ item dochy_core/src/imp/structs/rust_list.rs struct MutItem
//@ item dochy_core/src/imp/structs/mut_list_def.rs struct MutListDef
//@ item dochy_core/src/imp/structs/list_def_obj.rs struct ListDefObj
//@ item dochy_core/src/imp/structs/list_def_obj.rs struct ListDefMap
//@ item dochy_core/src/imp/structs/list_value.rs enum ListDefValue
//@ item dochy_core/src/imp/structs/list_sab_value.rs enum ListSabValue
//@ item dochy_core/src/imp/structs/ref_def_obj.rs struct RefDefObj
//@ item dochy_core/src/imp/structs/ref_def_obj.rs struct RefDefMap
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefValue
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefValueInternal
//@ sub \bstruct\b => pub struct
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefSabValue

    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct LinkedMap<V> { x: Vec<V> }
    #[verifier::external_body]
    pub struct MetaTable { x: () }

    // TRUSTED: the derived equality of member types
    impl vstd::std_specs::cmp::PartialEqSpecImpl for RustMemberType {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &RustMemberType) -> bool { *self == *o }
    }
    // ---- what the declarations allow ----
    pub open spec fn admits(vt: VarType, t: QvType) -> bool {
        match t {
            QvType::Val => true,
            QvType::Null => vt == VarType::Nullable || vt == VarType::UndefNullable,
            QvType::Undefined => vt == VarType::Undefiable || vt == VarType::UndefNullable,
        }
    }
    pub open spec fn state<T>(q: Qv<T>) -> QvType {
        match q { Qv::Val(_) => QvType::Val, Qv::Null => QvType::Null, Qv::Undefined => QvType::Undefined }
    }
    pub open spec fn state_of(p: RustParam) -> QvType {
        match p {
            RustParam::Bool(q) => state(q), RustParam::Float(q) => state(q), RustParam::Int(q) => state(q), RustParam::String(q) => state(q),
            RustParam::IntArray(q) => state(q), RustParam::FloatArray(q) => state(q), RustParam::Binary(q) => state(q),
        }
    }
    pub open spec fn same_type(a: RustParam, b: RustParam) -> bool {
        match a {
            RustParam::Bool(_) => b is Bool, RustParam::Float(_) => b is Float, RustParam::Int(_) => b is Int, RustParam::String(_) => b is String,
            RustParam::IntArray(_) => b is IntArray, RustParam::FloatArray(_) => b is FloatArray, RustParam::Binary(_) => b is Binary,
        }
    }
    /// a member declared with default `d` and marks `vt` may hold `x`
    pub open spec fn allowed(d: RustParam, vt: VarType, x: RustParam) -> bool { same_type(d, x) && admits(vt, state_of(x)) }

    pub open spec fn may(d: Option<(RustParam, VarType)>, x: RustParam) -> bool { d is Some && allowed((d->0).0, (d->0).1, x) }

    impl VarType {
//@ fn dochy_core/src/imp/structs/var_type.rs VarType::acceptable -> r
        ensures r == admits(*self, *t),
//@ end
//@ fn dochy_core/src/imp/structs/var_type.rs VarType::undefiable -> r
        ensures r == admits(*self, QvType::Undefined),
//@ end
    }
    // values that are null or undefined at most, as typed accessors hand them over
    impl<T> NullOr<T> {
//@ fn dochy_core/src/imp/structs/null_or.rs NullOr::as_ref -> r
        ensures match r { NullOr::Val(x) => *self == NullOr::Val(*x), NullOr::Null => *self is Null },
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs NullOr::map -> r
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures match r { NullOr::Val(y) => self is Val && f.ensures((self->Val_0,), y), NullOr::Null => self is Null },
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs NullOr::from_qv -> r
        ensures r == (match v { Qv::Val(x) => Some(NullOr::Val(x)), Qv::Null => Some(NullOr::Null), Qv::Undefined => None }),
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs NullOr::into_qv -> r
        ensures r == (match self { NullOr::Val(x) => Qv::Val(x), NullOr::Null => Qv::Null }),
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs NullOr::into_value -> r
        ensures r == (match self { NullOr::Val(x) => Some(x), NullOr::Null => None }),
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs NullOr::from_opt -> r
        ensures r == (match opt { Some(x) => NullOr::Val(x), None => NullOr::Null }),
//@ end
    }
    impl<T> UndefOr<T> {
//@ fn dochy_core/src/imp/structs/null_or.rs UndefOr::as_ref -> r
        ensures match r { UndefOr::Val(x) => *self == UndefOr::Val(*x), UndefOr::Undefined => *self is Undefined },
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs UndefOr::map -> r
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures match r { UndefOr::Val(y) => self is Val && f.ensures((self->Val_0,), y), UndefOr::Undefined => self is Undefined },
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs UndefOr::from_qv -> r
        ensures r == (match v { Qv::Val(x) => Some(UndefOr::Val(x)), Qv::Undefined => Some(UndefOr::Undefined), Qv::Null => None }),
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs UndefOr::into_qv -> r
        ensures r == (match self { UndefOr::Val(x) => Qv::Val(x), UndefOr::Undefined => Qv::Undefined }),
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs UndefOr::into_value -> r
        ensures r == (match self { UndefOr::Val(x) => Some(x), UndefOr::Undefined => None }),
//@ end
//@ fn dochy_core/src/imp/structs/null_or.rs UndefOr::from_opt -> r
        ensures r == (match opt { Some(x) => UndefOr::Val(x), None => UndefOr::Undefined }),
//@ end
    }
    impl<T> Qv<T> {
//@ fn dochy_core/src/imp/structs/qv.rs Qv::qv_type -> r
        ensures r == state(*self),
//@ end
//@ fn dochy_core/src/imp/structs/qv.rs Qv::value -> r
        ensures r == (match *self { Qv::Val(v) => Some(&v), _ => None }),
//@ end
//@ fn dochy_core/src/imp/structs/qv.rs Qv::as_ref -> r
        ensures state(r) == state(*self), match r { Qv::Val(x) => *self == Qv::Val(*x), _ => true },
//@ end
//@ fn dochy_core/src/imp/structs/qv.rs Qv::map -> r
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures state(r) == state(self), match r { Qv::Val(y) => self is Val && f.ensures((self->Val_0,), y), _ => true },
//@ end
//@ fn dochy_core/src/imp/structs/qv.rs Qv::opt_map -> r
//@ optmap
        requires *self is Val ==> f.requires((&self->Val_0,)),
        ensures match *self { Qv::Val(x) => exists|y: Option<U>| #[trigger] f.ensures((&x,), y) && (match y { Some(u) => r == Some(Qv::Val(u)), None => r is None }), _ => r is Some && state(r->0) == state(*self) },
//@ end
//@ fn dochy_core/src/imp/structs/qv.rs Qv::into_value -> r
        ensures r == (match self { Qv::Val(v) => Some(v), _ => None }),
//@ end
//@ fn dochy_core/src/imp/structs/qv.rs Qv::into_qv -> r
        ensures r == self,
//@ end
    }
    impl<T: Clone> Clone for Qv<T> {
//@ fn dochy_core/src/imp/structs/qv.rs Clone for Qv::clone -> r
        ensures state(r) == state(*self), match *self { Qv::Val(v) => cloned(v, r->Val_0), _ => true },
//@ end
    }
    impl RustString {
//@ fn dochy_core/src/imp/structs/rust_string.rs RustString::new -> r
        ensures *r.str == s,
//@ end
//@ fn dochy_core/src/imp/structs/rust_string.rs RustString::str -> r
        ensures r@ == self.str@,
//@ end
//@ fn dochy_core/src/imp/structs/rust_string.rs RustString::string -> r
        ensures *r == *self.str,
//@ end
//@ fn dochy_core/src/imp/structs/rust_string.rs RustString::string_mut -> r
//@ sub? Arc::make_mut => make_mut
        ensures *r == *old(self).str, *final(self).str == *final(r),
//@ end
    }
    impl RustIntArray {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustIntArray::new -> r
        ensures *r.b == b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustIntArray::vec -> r
        ensures *r == *self.b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustIntArray::vec_mut -> r
//@ sub? Arc::make_mut => make_mut
        ensures *r == *old(self).b, *final(self).b == *final(r),
//@ end
    }
    impl RustFloatArray {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustFloatArray::new -> r
        ensures *r.b == b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustFloatArray::vec -> r
        ensures *r == *self.b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustFloatArray::vec_mut -> r
//@ sub self\.b\.as_mut\(\) => box_mut(&mut self.b)
        ensures *r == *old(self).b, *final(self).b == *final(r),
//@ end
    }
    impl RustBinary {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustBinary::new -> r
        ensures *r.b == b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustBinary::vec -> r
        ensures *r == *self.b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustBinary::vec_mut -> r
//@ sub? Arc::make_mut => make_mut
        ensures *r == *old(self).b, *final(self).b == *final(r),
//@ end
    }
    // TRUSTED: the derived clone of a value is equal to it
    impl Clone for RustParam {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self)
            ensures r == *self,
        { unimplemented!() }
    }
    pub open spec fn zero(p: RustParam, len: nat, x: RustParam) -> bool {
        same_type(p, x) && state_of(x) is Val && match x {
            RustParam::Bool(q) => q->Val_0 == false, RustParam::Int(q) => q->Val_0 == 0, RustParam::String(q) => q->Val_0.str@ =~= Seq::<char>::empty(),
            RustParam::IntArray(q) => q->Val_0.b@ =~= Seq::new(len, |i: int| 0i64), RustParam::FloatArray(q) => q->Val_0.b@.len() == len,
            RustParam::Binary(q) => q->Val_0.b@ =~= Seq::new(len, |i: int| 0u8), RustParam::Float(_) => true,
        }
    }
    impl RustParam {
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::qv_type -> r
        ensures r == state_of(*self),
//@ end
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::type_num -> r
        ensures forall|o: RustParam| same_type(*self, o) ==> #[trigger] kind(o) == r, r == kind(*self),
//@ end
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::acceptable -> r
        ensures r == same_type(*self, *other),
//@ end
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::to_undefined -> r
        ensures same_type(*self, r), state_of(r) is Undefined,
//@ end
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::to_default_value -> r
        ensures zero(*self, len as nat, r),
        //@ start
        proof { reveal_strlit(""); }
//@ end
    }
    pub open spec fn kind(p: RustParam) -> RustMemberType {
        match p {
            RustParam::Bool(_) => RustMemberType::Bool, RustParam::Float(_) => RustMemberType::Float, RustParam::Int(_) => RustMemberType::Int, RustParam::String(_) => RustMemberType::Str,
            RustParam::IntArray(_) => RustMemberType::IntArray, RustParam::FloatArray(_) => RustMemberType::FloatArray, RustParam::Binary(_) => RustMemberType::Binary,
        }
    }
    pub open spec fn refusal(d: Option<(RustParam, VarType)>, x: RustParam, e: SetSabunError) -> bool {
        match e {
            SetSabunError::ParamNotFound => d is None,
            SetSabunError::ParamTypeMismatch => d is Some && !same_type((d->0).0, x),
            SetSabunError::QvTypeMismatch => d is Some && !admits((d->0).1, state_of(x)),
        }
    }
//@ fn dochy_core/src/imp/structs/util/set_sabun.rs verify_set_sabun -> r
        ensures r is Ok <==> allowed(*p, *vt, *sab), r is Err ==> refusal(Some((*p, *vt)), *sab, r->Err_0),
//@ end

    // ---- the root object ----
    pub open spec fn declared(d: RootDefObj, n: Seq<char>) -> Option<(RustParam, VarType)> {
        if d.def@.dom().contains(n) { match d.def@[n].1 { RootValue::Param(p, vt) => Some((p, vt)), _ => None } } else { None }
    }
    /// what reading a member gives
    pub open spec fn reads(d: RootDefObj, s: Map<Seq<char>, RootSabValue>, n: Seq<char>) -> Option<RustParam> {
        if s.dom().contains(n) && s[n] is Param { Some(s[n]->Param_0) } else if declared(d, n) is Some { Some((declared(d, n)->0).0) } else { None }
    }
    /// every member holds what its declaration allows
    pub open spec fn good(d: RootDefObj, s: Map<Seq<char>, RootSabValue>) -> bool {
        &&& forall|n: Seq<char>| (#[trigger] s.dom().contains(n)) ==> (s[n] is Param <==> declared(d, n) is Some)
        &&& forall|n: Seq<char>| (#[trigger] s.dom().contains(n)) && s[n] is Param ==> may(declared(d, n), s[n]->Param_0)
        &&& forall|n: Seq<char>| (#[trigger] declared(d, n)) is Some ==> may(declared(d, n), (declared(d, n)->0).0)
    }
    impl RootDefObj {
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::get -> r
//@ optmap
        ensures r == (if self.def@.dom().contains(name@) { Some(&self.def@[name@].1) } else { None }),
//@ end
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::contains_key -> r
        ensures r == self.def@.dom().contains(name@),
//@ end
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::default -> r
        ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::sabun -> r
        ensures *r == *self.sabun,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::sabun_mut -> r
//@ sub? Arc::make_mut => make_mut
        ensures *r == *old(self).sabun, final(self).default == old(self).default, *final(self).sabun == *final(r),
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::def_and_mut_sab -> r
//@ sub? Arc::make_mut => make_mut
        ensures *r.0 == *old(self).default, *r.1 == *old(self).sabun, final(self).default == old(self).default, *final(self).sabun == *final(r.1),
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::set_sabun_param -> r
//@ sub? Arc::make_mut => make_mut
        requires good(*old(self).default, old(self).sabun@),
        ensures
        final(self).default == old(self).default,
        good(*final(self).default, final(self).sabun@),
        r is Ok <==> may(declared(*old(self).default, name@), param),
        r is Ok ==> final(self).sabun@ == old(self).sabun@.insert(name@, RootSabValue::Param(param)),
        r is Ok ==> r->Ok_0 == (if old(self).sabun@.dom().contains(name@) { Some(old(self).sabun@[name@]->Param_0) } else { None }),
        r is Err ==> final(self).sabun@ == old(self).sabun@ && refusal(declared(*old(self).default, name@), param, r->Err_0),
//@ end
    }

    // ---- items of lists ----
    pub open spec fn ldeclared(d: ListDefObj, n: Seq<char>) -> Option<(RustParam, VarType)> {
        if d.default.map@.dom().contains(n) { match d.default.map@[n].1 { ListDefValue::Param(p, vt) => Some((p, vt)), _ => None } } else { None }
    }
    pub open spec fn lreads(d: ListDefObj, s: Map<Seq<char>, ListSabValue>, n: Seq<char>) -> Option<RustParam> {
        if s.dom().contains(n) && s[n] is Param { Some(s[n]->Param_0) } else if ldeclared(d, n) is Some { Some((ldeclared(d, n)->0).0) } else { None }
    }
    pub open spec fn lgood(d: ListDefObj, s: Map<Seq<char>, ListSabValue>) -> bool {
        &&& forall|n: Seq<char>| (#[trigger] s.dom().contains(n)) ==> (s[n] is Param <==> ldeclared(d, n) is Some)
        &&& forall|n: Seq<char>| (#[trigger] s.dom().contains(n)) && s[n] is Param ==> may(ldeclared(d, n), s[n]->Param_0)
        &&& forall|n: Seq<char>| (#[trigger] ldeclared(d, n)) is Some ==> may(ldeclared(d, n), (ldeclared(d, n)->0).0)
    }
    impl ListDefObj {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::default -> r
        ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::refs -> r
        ensures *r == *self.refs,
//@ end
    }
    impl ListDefMap {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::get -> r
//@ optmap
        ensures r == (if self.map@.dom().contains(key@) { Some(&self.map@[key@].1) } else { None }),
//@ end
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::contains_key -> r
        ensures r == self.map@.dom().contains(key@),
//@ end
    }
    impl MutItem {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::values -> r
        ensures *r == *self.values,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::values_mut -> r
//@ sub? Arc::make_mut => make_mut
        ensures *r == *old(self).values, *final(self).values == *final(r), final(self).refs == old(self).refs,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::refs -> r
        ensures *r == *self.refs,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::refs_mut -> r
//@ sub? Arc::make_mut => make_mut
        ensures *r == *old(self).refs, *final(self).refs == *final(r), final(self).values == old(self).values,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::set_sabun -> r
//@ optmap
        requires lgood(*def, old(self).values@),
        ensures
        final(self).refs == old(self).refs,
        lgood(*def, final(self).values@),
        r is Ok <==> may(ldeclared(*def, name@), param),
        r is Ok ==> final(self).values@ == old(self).values@.insert(name@, ListSabValue::Param(param)),
        r is Ok ==> r->Ok_0 == (if old(self).values@.dom().contains(name@) { Some(old(self).values@[name@]->Param_0) } else { None }),
        r is Err ==> final(self).values@ == old(self).values@ && refusal(ldeclared(*def, name@), param, r->Err_0),
//@ end
    }
}

pub mod values {
    use super::*;
    use super::structs::*;
    // what a typed reader hands out of what is there
    pub open spec fn is_bool(p: Option<RustParam>, r: Option<Qv<bool>>) -> bool { r == (match p { Some(RustParam::Bool(q)) => Some(q), _ => None }) }
    pub open spec fn is_int(p: Option<RustParam>, r: Option<Qv<i64>>) -> bool { r == (match p { Some(RustParam::Int(q)) => Some(q), _ => None }) }
    pub open spec fn is_float(p: Option<RustParam>, r: Option<Qv<f64>>) -> bool { r == (match p { Some(RustParam::Float(q)) => Some(q), _ => None }) }
    pub open spec fn is_str(p: Option<RustParam>, r: Option<Qv<String>>) -> bool {
        match p {
            Some(RustParam::String(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => x@ == q->Val_0.str@, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn is_str_ref(p: Option<RustParam>, r: Option<Qv<&String>>) -> bool {
        match p {
            Some(RustParam::String(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => *x == *q->Val_0.str, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn at_str(p: Option<RustParam>, r: Option<Qv<&mut String>>) -> bool {
        match p {
            Some(RustParam::String(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => *x == *q->Val_0.str, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn took_str(val: Qv<String>, z: Option<RustParam>) -> bool {
        match z { Some(RustParam::String(q)) => state(q) == state(val) && (match q { Qv::Val(x) => *x.str == val->Val_0, _ => true }), _ => false }
    }
    pub open spec fn is_int_array(p: Option<RustParam>, r: Option<Qv<Vec<i64>>>) -> bool {
        match p {
            Some(RustParam::IntArray(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => x@ == q->Val_0.b@, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn is_int_array_ref(p: Option<RustParam>, r: Option<Qv<&Vec<i64>>>) -> bool {
        match p {
            Some(RustParam::IntArray(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => *x == *q->Val_0.b, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn at_int_array(p: Option<RustParam>, r: Option<Qv<&mut Vec<i64>>>) -> bool {
        match p {
            Some(RustParam::IntArray(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => *x == *q->Val_0.b, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn took_int_array(val: Qv<Vec<i64>>, z: Option<RustParam>) -> bool {
        match z { Some(RustParam::IntArray(q)) => state(q) == state(val) && (match q { Qv::Val(x) => *x.b == val->Val_0, _ => true }), _ => false }
    }
    pub open spec fn is_float_array(p: Option<RustParam>, r: Option<Qv<Vec<f64>>>) -> bool {
        match p {
            Some(RustParam::FloatArray(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => x@ == q->Val_0.b@, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn is_float_array_ref(p: Option<RustParam>, r: Option<Qv<&Vec<f64>>>) -> bool {
        match p {
            Some(RustParam::FloatArray(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => *x == *q->Val_0.b, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn at_float_array(p: Option<RustParam>, r: Option<Qv<&mut Vec<f64>>>) -> bool {
        match p {
            Some(RustParam::FloatArray(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => *x == *q->Val_0.b, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn took_float_array(val: Qv<Vec<f64>>, z: Option<RustParam>) -> bool {
        match z { Some(RustParam::FloatArray(q)) => state(q) == state(val) && (match q { Qv::Val(x) => *x.b == val->Val_0, _ => true }), _ => false }
    }
    pub open spec fn is_binary(p: Option<RustParam>, r: Option<Qv<Vec<u8>>>) -> bool {
        match p {
            Some(RustParam::Binary(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => x@ == q->Val_0.b@, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn is_binary_ref(p: Option<RustParam>, r: Option<Qv<&Vec<u8>>>) -> bool {
        match p {
            Some(RustParam::Binary(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => *x == *q->Val_0.b, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn at_binary(p: Option<RustParam>, r: Option<Qv<&mut Vec<u8>>>) -> bool {
        match p {
            Some(RustParam::Binary(q)) => r is Some && state(r->0) == state(q) && (match r->0 { Qv::Val(x) => *x == *q->Val_0.b, _ => true }),
            _ => r is None,
        }
    }
    pub open spec fn took_binary(val: Qv<Vec<u8>>, z: Option<RustParam>) -> bool {
        match z { Some(RustParam::Binary(q)) => state(q) == state(val) && (match q { Qv::Val(x) => *x.b == val->Val_0, _ => true }), _ => false }
    }
}

pub mod intf_root {
    use super::*;
    use super::lib_specs::*;
    use super::structs::*;
    use super::values::*;
//@ item dochy_core/src/imp/intf/root.rs struct RootObjectPtr
    impl Clone for RootObjectPtr { fn clone(&self) -> Self { *self } }
    impl Copy for RootObjectPtr {}
    pub open spec fn here(ps: RootObjectPtr, pt: PointsTo<RootObject>) -> bool { pt.ptr() == ps.ptr && pt.is_init() }
    pub open spec fn decl(pt: PointsTo<RootObject>, n: Seq<char>) -> Option<(RustParam, VarType)> { declared(*pt.value().default, n) }
    pub open spec fn now(pt: PointsTo<RootObject>, n: Seq<char>) -> Option<RustParam> { reads(*pt.value().default, pt.value().sabun@, n) }
    pub open spec fn ok(pt: PointsTo<RootObject>) -> bool { good(*pt.value().default, pt.value().sabun@) }
    /// nothing but the member changed
    pub open spec fn only(a: PointsTo<RootObject>, b: PointsTo<RootObject>, n: Seq<char>) -> bool {
        b.ptr() == a.ptr() && b.is_init() && b.value().default == a.value().default && (forall|m: Seq<char>| m != n ==> #[trigger] now(b, m) == now(a, m))
        && (forall|m: Seq<char>| m != n ==> #[trigger] b.value().sabun@.dom().contains(m) == a.value().sabun@.dom().contains(m) && b.value().sabun@[m] == a.value().sabun@[m])
    }
    pub open spec fn untouched(pt: PointsTo<RootObject>, n: Seq<char>) -> bool { !pt.value().sabun@.dom().contains(n) }
//@ fn dochy_core/src/imp/intf/root.rs get_param -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => ptr_ref(\1.ptr as *const RootObject, Tracked(pt))
//@ param Tracked(pt): Tracked<&'a PointsTo<RootObject>>
        requires here(ps, *pt),
        ensures match r { Some(p) => now(*pt, name@) == Some(*p), None => now(*pt, name@) is None },
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_param_def -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => ptr_ref(\1.ptr as *const RootObject, Tracked(pt))
//@ param Tracked(pt): Tracked<&'a PointsTo<RootObject>>
        requires here(ps, *pt),
        ensures match r { Some(p) => (match decl(*pt, name@) { Some(d) => Some(d.0), None => None }) == Some(*p), None => (match decl(*pt, name@) { Some(d) => Some(d.0), None => None }) is None },
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_bool -> r
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_bool(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_bool_def -> r
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param_def Tracked(pt)
        requires here(root, *pt),
        ensures is_bool((match decl(*pt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_int -> r
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_int(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_int_def -> r
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param_def Tracked(pt)
        requires here(root, *pt),
        ensures is_int((match decl(*pt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_float -> r
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_float(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_float_def -> r
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param_def Tracked(pt)
        requires here(root, *pt),
        ensures is_float((match decl(*pt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_str -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustString| -> (y: String) ensures y@ == \1.str@ { \2 }))
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_str(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_str_def -> r
//@ param Tracked(pt): Tracked<&'b PointsTo<RootObject>>
//@ pass get_param_def Tracked(pt)
        requires here(root, *pt),
        ensures is_str_ref((match decl(*pt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_immutable_str -> r
//@ param Tracked(pt): Tracked<&'b PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_str_ref(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_int_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustIntArray| -> (y: Vec<i64>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_int_array(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_int_array_def -> r
//@ param Tracked(pt): Tracked<&'b PointsTo<RootObject>>
//@ pass get_param_def Tracked(pt)
        requires here(root, *pt),
        ensures is_int_array_ref((match decl(*pt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_immutable_int_array -> r
//@ param Tracked(pt): Tracked<&'b PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_int_array_ref(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_float_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustFloatArray| -> (y: Vec<f64>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_float_array(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_float_array_def -> r
//@ param Tracked(pt): Tracked<&'b PointsTo<RootObject>>
//@ pass get_param_def Tracked(pt)
        requires here(root, *pt),
        ensures is_float_array_ref((match decl(*pt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_immutable_float_array -> r
//@ param Tracked(pt): Tracked<&'b PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_float_array_ref(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_binary -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustBinary| -> (y: Vec<u8>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_binary(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_binary_def -> r
//@ param Tracked(pt): Tracked<&'b PointsTo<RootObject>>
//@ pass get_param_def Tracked(pt)
        requires here(root, *pt),
        ensures is_binary_ref((match decl(*pt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_immutable_binary -> r
//@ param Tracked(pt): Tracked<&'b PointsTo<RootObject>>
//@ pass get_param Tracked(pt)
        requires here(root, *pt),
        ensures is_binary_ref(now(*pt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_param_mut -> r
//@ sub unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => deref_mut(\1.ptr, Tracked(pt))
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
        requires here(p, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@),
        match r { Some(x) => now(*old(pt), name@) == Some(*x) && final(pt).value().sabun@.dom().contains(name@) && final(pt).value().sabun@[name@] == RootSabValue::Param(*final(x)), None => now(*old(pt), name@) is None && final(pt).value().sabun@ == old(pt).value().sabun@ },
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_mutable_str -> r
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass get_param_mut Tracked(pt)
        requires here(ps, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        at_str(now(*old(pt), name@), r),
        match r { Some(Qv::Val(x)) => (match now(*final(pt), name@) { Some(RustParam::String(q)) => q is Val && *q->Val_0.str == *final(x), _ => false }), _ => now(*final(pt), name@) == now(*old(pt), name@) },
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_mutable_int_array -> r
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass get_param_mut Tracked(pt)
        requires here(ps, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        at_int_array(now(*old(pt), name@), r),
        match r { Some(Qv::Val(x)) => (match now(*final(pt), name@) { Some(RustParam::IntArray(q)) => q is Val && *q->Val_0.b == *final(x), _ => false }), _ => now(*final(pt), name@) == now(*old(pt), name@) },
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_mutable_float_array -> r
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass get_param_mut Tracked(pt)
        requires here(ps, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        at_float_array(now(*old(pt), name@), r),
        match r { Some(Qv::Val(x)) => (match now(*final(pt), name@) { Some(RustParam::FloatArray(q)) => q is Val && *q->Val_0.b == *final(x), _ => false }), _ => now(*final(pt), name@) == now(*old(pt), name@) },
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_mutable_binary -> r
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass get_param_mut Tracked(pt)
        requires here(ps, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        at_binary(now(*old(pt), name@), r),
        match r { Some(Qv::Val(x)) => (match now(*final(pt), name@) { Some(RustParam::Binary(q)) => q is Val && *q->Val_0.b == *final(x), _ => false }), _ => now(*final(pt), name@) == now(*old(pt), name@) },
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_sabun -> r
//@ sub unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => ptr_mut_ref(\1.ptr, Tracked(pt))
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
        requires here(root, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == may(decl(*old(pt), name@), val),
        r ==> now(*final(pt), name@) == Some(val) && !untouched(*final(pt), name@),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_bool -> r
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass set_sabun Tracked(pt)
        requires here(root, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == may(decl(*old(pt), name@), RustParam::Bool(val)),
        r ==> now(*final(pt), name@) == Some(RustParam::Bool(val)) && !untouched(*final(pt), name@),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_int -> r
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass set_sabun Tracked(pt)
        requires here(root, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == may(decl(*old(pt), name@), RustParam::Int(val)),
        r ==> now(*final(pt), name@) == Some(RustParam::Int(val)) && !untouched(*final(pt), name@),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_float -> r
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass set_sabun Tracked(pt)
        requires here(root, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == may(decl(*old(pt), name@), RustParam::Float(val)),
        r ==> now(*final(pt), name@) == Some(RustParam::Float(val)) && !untouched(*final(pt), name@),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_str -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?\))\)\)\)(?=\s*\}) => .map(|\1: String| -> (y: RustString) ensures *y.str == \1 { \2 })))
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass set_sabun Tracked(pt)
        requires here(root, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == (match decl(*old(pt), name@) { Some(d) => d.0 is String && admits(d.1, state(val)), None => false }),
        r ==> took_str(val, now(*final(pt), name@)) && !untouched(*final(pt), name@),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_int_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?\))\)\)\)(?=\s*\}) => .map(|\1: Vec<i64>| -> (y: RustIntArray) ensures *y.b == \1 { \2 })))
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass set_sabun Tracked(pt)
        requires here(root, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == (match decl(*old(pt), name@) { Some(d) => d.0 is IntArray && admits(d.1, state(val)), None => false }),
        r ==> took_int_array(val, now(*final(pt), name@)) && !untouched(*final(pt), name@),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_float_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?\))\)\)\)(?=\s*\}) => .map(|\1: Vec<f64>| -> (y: RustFloatArray) ensures *y.b == \1 { \2 })))
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass set_sabun Tracked(pt)
        requires here(root, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == (match decl(*old(pt), name@) { Some(d) => d.0 is FloatArray && admits(d.1, state(val)), None => false }),
        r ==> took_float_array(val, now(*final(pt), name@)) && !untouched(*final(pt), name@),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_binary -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?\))\)\)\)(?=\s*\}) => .map(|\1: Vec<u8>| -> (y: RustBinary) ensures *y.b == \1 { \2 })))
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
//@ pass set_sabun Tracked(pt)
        requires here(root, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == (match decl(*old(pt), name@) { Some(d) => d.0 is Binary && admits(d.1, state(val)), None => false }),
        r ==> took_binary(val, now(*final(pt), name@)) && !untouched(*final(pt), name@),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_initial_value -> r
//@ sub unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => ptr_mut_ref(\1.ptr, Tracked(pt))
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
        requires here(ps, *old(pt)), ok(*old(pt)),
        ensures
        only(*old(pt), *final(pt), name@), ok(*final(pt)),
        !r ==> final(pt).value().sabun@ == old(pt).value().sabun@,
        r == decl(*old(pt), name@) is Some,
        r ==> now(*final(pt), name@) is Some && zero((decl(*old(pt), name@)->0).0, len as nat, now(*final(pt), name@)->0),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs is_unmodified -> r
//@ sub unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => ptr_mut_ref(\1.ptr, Tracked(pt))
//@ param Tracked(pt): Tracked<&mut PointsTo<RootObject>>
        requires here(ps, *old(pt)),
        ensures final(pt).value() == old(pt).value(), r == untouched(*old(pt), name@),
//@ end
}

pub mod tables {
    use super::*;
    use super::structs::*;
    use super::lib_specs::*;
    pub use super::intf_citem::CItemPtr;
    // TRUSTED: definitions don't change while pointers into them are in use: a pointer made from a reference leads to what the reference leads to
    pub uninterp spec fn behind<T>(p: *const T) -> T;
    #[verifier::external_body]
    pub fn at<T>(r: &T) -> (p: *const T) ensures behind(p) == *r { r }
    #[verifier::external_body]
    pub fn led<'a, T>(p: *const T) -> (r: &'a T) ensures *r == behind(p) { unimplemented!() }
//@ item dochy_core/src/imp/intf/table.rs struct TablePtr
    impl Clone for TablePtr { fn clone(&self) -> Self { *self } }
    impl Copy for TablePtr {}
    impl TablePtr {
//@ fn dochy_core/src/imp/intf/table.rs TablePtr::new -> r
        ensures r.ptr == ptr, r.root == root,
//@ end
    }
    impl ConstTable {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstTable::list -> r
        ensures *r == *self.list,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstTable::default -> r
        ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstTable::old -> r
        ensures *r == *self.old,
//@ end
    }
    /// the table of this name in the definition
    pub open spec fn table(root_def: *const RootDefObj, n: Seq<char>) -> Option<ConstTable> {
        let d = behind(root_def).def@;
        if d.dom().contains(n) && d[n].1 is Table { Some(d[n].1->Table_0) } else { None }
    }
    pub open spec fn has(t: ConstTable, id: Seq<char>) -> bool { t.list@.dom().contains(id) }
//@ fn dochy_core/src/imp/intf/root.rs get_table -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*root_def\s*\} => led(root_def)
//@ sub? TablePtr::new\((\w+), => TablePtr::new(at(\1),
        ensures
            (r is Some) == (table(root_def, name@) is Some),
            r is Some ==> behind((r->0).ptr) == table(root_def, name@)->0 && (r->0).root == root_def,
//@ end
//@ item dochy_core/src/imp/intf/table.rs struct DataKV
//@ item dochy_core/src/imp/intf/table.rs struct DataKVs
    impl DataKV {
//@ fn dochy_core/src/imp/intf/table.rs DataKV::new -> r
        ensures r.is_old == is_old, r.id == id, r.item == item,
//@ end
//@ fn dochy_core/src/imp/intf/table.rs DataKV::is_old -> r
        ensures r == self.is_old,
//@ end
//@ fn dochy_core/src/imp/intf/table.rs DataKV::id -> r
        ensures r@ == self.id@,
//@ end
//@ fn dochy_core/src/imp/intf/table.rs DataKV::item -> r
        ensures r == self.item,
//@ end
    }
    impl DataKVs {
//@ fn dochy_core/src/imp/intf/table.rs DataKVs::new -> r
        ensures r.items == items, r.list_def == list_def,
//@ end
//@ fn dochy_core/src/imp/intf/table.rs DataKVs::items -> r
        ensures r@ == self.items@,
//@ end
//@ fn dochy_core/src/imp/intf/table.rs DataKVs::def -> r
        ensures r == self.list_def,
//@ end
    }
    pub open spec fn entry_of(e: DataKV, id: Seq<char>, list: Map<Seq<char>, ConstItem>, old: Set<Seq<char>>) -> bool {
        e.id@ == id && behind(e.item) == list[id] && e.is_old == old.contains(id)
    }
    /// all entries of a table, each once, in some order
    pub open spec fn all_of(es: Seq<DataKV>, list: Map<Seq<char>, ConstItem>, old: Set<Seq<char>>) -> bool {
        &&& forall|i: int| 0 <= i < es.len() ==> list.dom().contains((#[trigger] es[i]).id@) && entry_of(es[i], es[i].id@, list, old)
        &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).id@ != (#[trigger] es[j]).id@
        &&& forall|k: Seq<char>| #[trigger] list.dom().contains(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).id@ == k
    }
//@ fn dochy_core/src/imp/intf/table.rs get_kvs -> r
//@ sub unsafe\s*\{\s*data\.ptr\.as_ref\(\)\.unwrap\(\)\s*\} => led(data.ptr)
        ensures
            all_of(r.items@, behind(data.ptr).list@, behind(data.ptr).old@),
            behind(r.list_def) == *behind(data.ptr).default,
//@ end
//@ fn dochy_core/src/imp/intf/table.rs get_kvs_impl -> r
//@ sub data\.iter\(\)\.map\(\|\((\w+),\s*(\w+)\)\|\s*(.*?)\)\.collect\(\) => collected(data, |\1: &String, \2: &ConstItem| -> (y: DataKV) ensures entry_of(y, \1@, data@.insert(\1@, *\2), old@) { \3 })
//@ sub? DataKV::new\((.*?),\s*(\w+)\)\s*\} => DataKV::new(\1, at(\2)) }
//@ sub? ,\s*list_def\) => , at(list_def))
//@ sub? \.to_string\(\) => .clone()
        ensures all_of(r.items@, data@, old@), behind(r.list_def) == *list_def,
//@ end
//@ fn dochy_core/src/imp/intf/table.rs get_value -> r
//@ sub unsafe\s*\{\s*data\.ptr\.as_ref\(\)\.unwrap\(\)\s*\} => led(data.ptr)
        ensures
            r is Some <==> has(behind(data.ptr), id@),
            r is Some ==> behind((r->0).item) == behind(data.ptr).list@[id@] && behind((r->0).list_def) == *behind(data.ptr).default && (r->0).root_def == data.root,
//@ end
//@ fn dochy_core/src/imp/intf/table.rs get_value_impl -> r
//@ optmap
//@ sub? CItemPtr::new\((\w+), (\w+), => CItemPtr::new(at(\1), at(\2),
        ensures
            r is Some <==> data@.dom().contains(id@),
            r is Some ==> behind((r->0).item) == data@[id@] && behind((r->0).list_def) == *list_def && (r->0).root_def == root_def,
//@ end
    pub open spec fn rdeclared(d: ListDefObj, n: Seq<char>) -> Option<RefValue> {
        if d.refs.refs.map@.dom().contains(n) { Some(d.refs.refs.map@[n].1) } else { None }
    }
    /// a reference may hold this: declared, null or undefined only where allowed, and an id only if the table has it
    pub open spec fn may_refer(d: ListDefObj, root_def: *const RootDefObj, n: Seq<char>, id: Qv<String>) -> bool {
        &&& rdeclared(d, n) is Some
        &&& admits((rdeclared(d, n)->0).v.value_type, state(id))
        &&& id is Val ==> table(root_def, n) is Some && has(table(root_def, n)->0, id->Val_0@)
    }
    pub open spec fn refers(d: ListDefObj, s: Map<Seq<char>, RefSabValue>, n: Seq<char>) -> Option<Qv<String>> {
        if s.dom().contains(n) { Some(*s[n].value) } else if rdeclared(d, n) is Some { Some((rdeclared(d, n)->0).v.value) } else { None }
    }
}
pub mod ref_impls {
    use super::*;
    use super::lib_specs::*;
    use super::structs::*;
    use super::tables::*;
    impl RefDefObj {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefObj::refs -> r
        ensures *r == *self.refs,
//@ end
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefObj::is_enum -> r
        ensures r == self.is_enum,
//@ end
    }
    impl RefDefMap {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefMap::get -> r
//@ optmap
        ensures r == (if self.map@.dom().contains(key@) { Some(&self.map@[key@].1) } else { None }),
//@ end
    }
    impl RefValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::var_type -> r
        ensures r == self.v.value_type,
//@ end
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::value -> r
        ensures *r == self.v.value,
//@ end
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::acceptable -> r
        ensures r == admits(self.v.value_type, state(*other.value)),
//@ end
    }
    impl RefSabValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefSabValue::new -> r
        ensures *r.value == value,
//@ end
//@ fn dochy_core/src/imp/structs/ref_value.rs RefSabValue::value -> r
        ensures *r == *self.value,
//@ end
    }
    impl ConstItem {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstItem::values -> r
        ensures *r == *self.values,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstItem::refs -> r
        ensures *r == *self.refs,
//@ end
    }
    /// the entry of the table of this name with this id
    pub open spec fn leads(root_def: *const RootDefObj, n: Seq<char>, id: Seq<char>, o: Option<CItemPtr>) -> bool {
        let t = table(root_def, n)->0;
        &&& o is Some <==> has(t, id)
        &&& o is Some ==> behind((o->0).item) == t.list@[id] && behind((o->0).list_def) == *t.default && (o->0).root_def == root_def
    }
    /// what following a reference gives
    pub open spec fn referred(d: ListDefObj, s: Map<Seq<char>, RefSabValue>, root_def: *const RootDefObj, n: Seq<char>, r: Option<Qv<CItemPtr>>) -> bool {
        match refers(d, s, n) {
            None => r is None,
            Some(Qv::Val(id)) => if has(table(root_def, n)->0, id@) { r is Some && r->0 is Val && leads(root_def, n, id@, Some(r->0->Val_0)) } else { r is None },
            Some(q) => r is Some && state(r->0) == state(q),
        }
    }
    // the entry an enum has, if one of them refers to something
    pub open spec fn chosen(refs: Map<Seq<char>, RefSabValue>, r: Option<(String, String)>) -> bool {
        match r {
            Some(e) => refs.dom().contains(e.0@) && (*refs[e.0@].value) is Val && (*refs[e.0@].value)->Val_0@ == e.1@,
            None => forall|k: Seq<char>| #[trigger] refs.dom().contains(k) ==> !((*refs[k].value) is Val),
        }
    }
//@ fn dochy_core/src/imp/intf/citem.rs get_enum_impl -> out
//@ sub \bin\s+h\s*\{ => in entries(h) {
//@ sub? \.to_string\(\) => .clone()
//@ next 0 it
//@ loops while
        ensures chosen(h@, out),
//@ loop 0
            invariant
                forall|k: Seq<char>| #[trigger] it.rest().dom().contains(k) ==> h@.dom().contains(k) && h@[k] == it.rest()[k],
                forall|k: Seq<char>| #[trigger] h@.dom().contains(k) && !it.rest().dom().contains(k) ==> !((*h@[k].value) is Val),
            ensures it.rest() == Map::<Seq<char>, RefSabValue>::empty(),
            decreases it.rest().dom().len(),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_ref_id_impl -> r
//@ sub refs : &HashM => refs : &'a HashM
//@ sub list_def : &ListDefObj => list_def : &'a ListDefObj
//@ sub \.map\(\|\s*(\w+)\s*\|\s*unsafe\s*\{\s*let\s+\1\s*:\s*\*const String\s*=\s*\1;\s*&\*\1\s*\}\) =>  
        ensures match r { Some(q) => refers(*list_def, refs@, list_name@) is Some && state(q) == state(refers(*list_def, refs@, list_name@)->0) && (match q { Qv::Val(x) => *x == refers(*list_def, refs@, list_name@)->0->Val_0, _ => true }), None => refers(*list_def, refs@, list_name@) is None },
//@ end
}

pub mod intf_mitem {
    use super::*;
    use super::lib_specs::*;
    use super::structs::*;
    use super::values::*;
    use super::tables::*;
    use super::ref_impls::*;
//@ item dochy_core/src/imp/intf/mitem.rs struct MItemPtr
    impl Clone for MItemPtr { fn clone(&self) -> Self { *self } }
    impl Copy for MItemPtr {}
    pub open spec fn here(ps: MItemPtr, it: PointsTo<MutItem>) -> bool { it.ptr() == ps.item as *mut MutItem && it.is_init() }
    pub open spec fn def(ps: MItemPtr, dt: PointsTo<ListDefObj>) -> bool { dt.ptr() == ps.list_def as *mut ListDefObj && dt.is_init() }
    pub open spec fn decl(dt: PointsTo<ListDefObj>, n: Seq<char>) -> Option<(RustParam, VarType)> { ldeclared(dt.value(), n) }
    pub open spec fn now(it: PointsTo<MutItem>, dt: PointsTo<ListDefObj>, n: Seq<char>) -> Option<RustParam> { lreads(dt.value(), it.value().values@, n) }
    pub open spec fn ok(it: PointsTo<MutItem>, dt: PointsTo<ListDefObj>) -> bool { lgood(dt.value(), it.value().values@) }
//@ fn dochy_core/src/imp/intf/mitem.rs get_param -> r
//@ sub &\s*\*\s*(\w+)\.item\b => ptr_ref(\1.item, Tracked(it))
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&'a PointsTo<MutItem>>, Tracked(dt): Tracked<&'a PointsTo<ListDefObj>>
        requires here(ps, *it), def(ps, *dt),
        ensures match r { Some(p) => now(*it, *dt, name@) == Some(*p), None => now(*it, *dt, name@) is None },
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_param_def -> r
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(dt): Tracked<&'a PointsTo<ListDefObj>>
        requires dt.ptr() == ps.list_def as *mut ListDefObj, dt.is_init(),
        ensures match r { Some(p) => (match decl(*dt, name@) { Some(d) => Some(d.0), None => None }) == Some(*p), None => (match decl(*dt, name@) { Some(d) => Some(d.0), None => None }) is None },
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_bool -> r
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_bool(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_bool_def -> r
//@ param Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_bool((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_int -> r
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_int(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_int_def -> r
//@ param Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_int((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_float -> r
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_float(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_float_def -> r
//@ param Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_float((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_str -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustString| -> (y: String) ensures y@ == \1.str@ { \2 }))
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_str(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_str_def -> r
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_str_ref((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_immutable_str -> r
//@ param Tracked(it): Tracked<&'b PointsTo<MutItem>>, Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_str_ref(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_int_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustIntArray| -> (y: Vec<i64>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_int_array(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_int_array_def -> r
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_int_array_ref((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_immutable_int_array -> r
//@ param Tracked(it): Tracked<&'b PointsTo<MutItem>>, Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_int_array_ref(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_float_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustFloatArray| -> (y: Vec<f64>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_float_array(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_float_array_def -> r
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_float_array_ref((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_immutable_float_array -> r
//@ param Tracked(it): Tracked<&'b PointsTo<MutItem>>, Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_float_array_ref(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_binary -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustBinary| -> (y: Vec<u8>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_binary(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_binary_def -> r
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_binary_ref((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_immutable_binary -> r
//@ param Tracked(it): Tracked<&'b PointsTo<MutItem>>, Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_binary_ref(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_ref_id -> r
//@ sub &\s*\*\s*(\w+)\.item\b => ptr_ref(\1.item, Tracked(it))
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&'a PointsTo<MutItem>>, Tracked(dt): Tracked<&'a PointsTo<ListDefObj>>
        requires here(ps, *it), def(ps, *dt),
        ensures match r { Some(q) => refers(dt.value(), it.value().refs@, list_name@) is Some && state(q) == state(refers(dt.value(), it.value().refs@, list_name@)->0) && (match q { Qv::Val(x) => *x == refers(dt.value(), it.value().refs@, list_name@)->0->Val_0, _ => true }), None => refers(dt.value(), it.value().refs@, list_name@) is None },
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_ref -> r
//@ sub super::root::get_table => get_table
//@ sub super::table::get_value => get_value
//@ sub qv\.opt_map\(\|id\|\s*\{ => qv.opt_map(|id: &&String| -> (o: Option<CItemPtr>) requires table(ps.root_def, list_name@) is Some, ensures leads(ps.root_def, list_name@, id@, o) {
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_ref_id Tracked(it), Tracked(dt)
        requires
            here(ps, *it), def(ps, *dt),
            refers(dt.value(), it.value().refs@, list_name@) is Some && refers(dt.value(), it.value().refs@, list_name@)->0 is Val ==> table(ps.root_def, list_name@) is Some,
        ensures referred(dt.value(), it.value().refs@, ps.root_def, list_name@, r),
//@ end
    /// nothing but the member changed
    pub open spec fn only(a: PointsTo<MutItem>, b: PointsTo<MutItem>, dt: PointsTo<ListDefObj>, n: Seq<char>) -> bool {
        b.ptr() == a.ptr() && b.is_init() && b.value().refs@ == a.value().refs@ && (forall|m: Seq<char>| m != n ==> #[trigger] now(b, dt, m) == now(a, dt, m))
        && (forall|m: Seq<char>| m != n ==> #[trigger] b.value().values@.dom().contains(m) == a.value().values@.dom().contains(m) && b.value().values@[m] == a.value().values@[m])
    }
    pub open spec fn untouched(it: PointsTo<MutItem>, n: Seq<char>) -> bool { !it.value().values@.dom().contains(n) }
    impl MItemPtr {
//@ fn dochy_core/src/imp/intf/mitem.rs MItemPtr::item_mut -> r
//@ sub &\s*mut\s*\*\s*\(\s*self\.item\s+as\s+\*mut\s+_\s*\) => deref_mut(self.item as *mut MutItem, Tracked(it))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>
        requires old(it).ptr() == self.item as *mut MutItem, old(it).is_init(),
        ensures *r == old(it).value(), final(it).ptr() == old(it).ptr(), final(it).is_init(), final(it).value() == *final(r),
//@ end
    }
//@ fn dochy_core/src/imp/intf/mitem.rs get_param_mut -> r
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass .item_mut Tracked(it)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@),
        match r { Some(x) => now(*old(it), *dt, name@) == Some(*x) && final(it).value().values@.dom().contains(name@) && final(it).value().values@[name@] == ListSabValue::Param(*final(x)), None => now(*old(it), *dt, name@) is None && final(it).value().values@ == old(it).value().values@ },
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_mutable_str -> r
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_mut Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt), at_str(now(*old(it), *dt, name@), r),
        match r { Some(Qv::Val(x)) => (match now(*final(it), *dt, name@) { Some(RustParam::String(q)) => q is Val && *q->Val_0.str == *final(x), _ => false }), _ => now(*final(it), *dt, name@) == now(*old(it), *dt, name@) },
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_mutable_int_array -> r
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_mut Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt), at_int_array(now(*old(it), *dt, name@), r),
        match r { Some(Qv::Val(x)) => (match now(*final(it), *dt, name@) { Some(RustParam::IntArray(q)) => q is Val && *q->Val_0.b == *final(x), _ => false }), _ => now(*final(it), *dt, name@) == now(*old(it), *dt, name@) },
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_mutable_float_array -> r
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_mut Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt), at_float_array(now(*old(it), *dt, name@), r),
        match r { Some(Qv::Val(x)) => (match now(*final(it), *dt, name@) { Some(RustParam::FloatArray(q)) => q is Val && *q->Val_0.b == *final(x), _ => false }), _ => now(*final(it), *dt, name@) == now(*old(it), *dt, name@) },
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_mutable_binary -> r
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_mut Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt), at_binary(now(*old(it), *dt, name@), r),
        match r { Some(Qv::Val(x)) => (match now(*final(it), *dt, name@) { Some(RustParam::Binary(q)) => q is Val && *q->Val_0.b == *final(x), _ => false }), _ => now(*final(it), *dt, name@) == now(*old(it), *dt, name@) },
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_sabun -> r
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass .item_mut Tracked(it)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == may(decl(*dt, name@), p),
        r ==> now(*final(it), *dt, name@) == Some(p) && !untouched(*final(it), name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_bool -> r
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass set_sabun Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == may(decl(*dt, name@), RustParam::Bool(val)),
        r ==> now(*final(it), *dt, name@) == Some(RustParam::Bool(val)) && !untouched(*final(it), name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_int -> r
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass set_sabun Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == may(decl(*dt, name@), RustParam::Int(val)),
        r ==> now(*final(it), *dt, name@) == Some(RustParam::Int(val)) && !untouched(*final(it), name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_float -> r
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass set_sabun Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == may(decl(*dt, name@), RustParam::Float(val)),
        r ==> now(*final(it), *dt, name@) == Some(RustParam::Float(val)) && !untouched(*final(it), name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_str -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?\))\)\)\)(?=\s*\}) => .map(|\1: String| -> (y: RustString) ensures *y.str == \1 { \2 })))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass set_sabun Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == (match decl(*dt, name@) { Some(d) => d.0 is String && admits(d.1, state(val)), None => false }),
        r ==> took_str(val, now(*final(it), *dt, name@)) && !untouched(*final(it), name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_int_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?\))\)\)\)(?=\s*\}) => .map(|\1: Vec<i64>| -> (y: RustIntArray) ensures *y.b == \1 { \2 })))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass set_sabun Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == (match decl(*dt, name@) { Some(d) => d.0 is IntArray && admits(d.1, state(val)), None => false }),
        r ==> took_int_array(val, now(*final(it), *dt, name@)) && !untouched(*final(it), name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_float_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?\))\)\)\)(?=\s*\}) => .map(|\1: Vec<f64>| -> (y: RustFloatArray) ensures *y.b == \1 { \2 })))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass set_sabun Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == (match decl(*dt, name@) { Some(d) => d.0 is FloatArray && admits(d.1, state(val)), None => false }),
        r ==> took_float_array(val, now(*final(it), *dt, name@)) && !untouched(*final(it), name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_binary -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?\))\)\)\)(?=\s*\}) => .map(|\1: Vec<u8>| -> (y: RustBinary) ensures *y.b == \1 { \2 })))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass set_sabun Tracked(it), Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == (match decl(*dt, name@) { Some(d) => d.0 is Binary && admits(d.1, state(val)), None => false }),
        r ==> took_binary(val, now(*final(it), *dt, name@)) && !untouched(*final(it), name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_initial_value -> r
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass .item_mut Tracked(it)
        requires here(ps, *old(it)), def(ps, *dt), ok(*old(it), *dt),
        ensures
        only(*old(it), *final(it), *dt, name@), ok(*final(it), *dt),
        !r ==> final(it).value().values@ == old(it).value().values@,
        r == decl(*dt, name@) is Some,
        r ==> now(*final(it), *dt, name@) is Some && zero((decl(*dt, name@)->0).0, len as nat, now(*final(it), *dt, name@)->0),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs is_unmodified -> r
//@ sub &\s*\*\s*(\w+)\.item\b => ptr_ref(\1.item, Tracked(it))
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>
        requires here(ps, *it),
        ensures r == untouched(*it, name@),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs ref_acceptable -> r
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ sub super::root::get_table => get_table
//@ sub super::table::get_value => get_value
//@ param Tracked(dt): Tracked<&PointsTo<ListDefObj>>
        requires def(ps, *dt),
        ensures r == may_refer(dt.value(), ps.root_def, list_name@, *id),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_ref -> r
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass .item_mut Tracked(it)
//@ pass ref_acceptable Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt),
        ensures
        final(it).ptr() == old(it).ptr(), final(it).is_init(), final(it).value().values == old(it).value().values,
        !r ==> final(it).value().refs@ == old(it).value().refs@,
        r == (!dt.value().refs.is_enum && may_refer(dt.value(), ps.root_def, list_name@, id)),
        r ==> refers(dt.value(), final(it).value().refs@, list_name@) == Some(id),
        forall|m: Seq<char>| m != list_name@ ==> #[trigger] refers(dt.value(), final(it).value().refs@, m) == refers(dt.value(), old(it).value().refs@, m),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_enum -> r
//@ sub &\s*\*\s*(\w+)\.item\b => ptr_ref(\1.item, Tracked(it))
//@ param Tracked(it): Tracked<&PointsTo<MutItem>>
        requires here(ps, *it),
        ensures chosen(it.value().refs@, r),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_enum -> r
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&mut PointsTo<MutItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass .item_mut Tracked(it)
//@ pass ref_acceptable Tracked(dt)
        requires here(ps, *old(it)), def(ps, *dt),
        ensures
        final(it).ptr() == old(it).ptr(), final(it).is_init(), final(it).value().values == old(it).value().values,
        !r ==> final(it).value().refs@ == old(it).value().refs@,
        r ==> dt.value().refs.is_enum,
        r ==> final(it).value().refs@.dom() =~= set![list_name@] && (*final(it).value().refs@[list_name@].value) is Val && (*final(it).value().refs@[list_name@].value)->Val_0@ == id@,
        r ==> may_refer(dt.value(), ps.root_def, list_name@, *final(it).value().refs@[list_name@].value),
        !r ==> !dt.value().refs.is_enum || forall|x: String| x@ == id@ ==> !#[trigger] may_refer(dt.value(), ps.root_def, list_name@, Qv::Val(x)),
//@ end
}

pub mod intf_citem {
    use super::*;
    use super::lib_specs::*;
    use super::structs::*;
    use super::values::*;
    use super::tables::*;
    use super::ref_impls::*;
//@ item dochy_core/src/imp/intf/citem.rs struct CItemPtr
    impl Clone for CItemPtr { fn clone(&self) -> Self { *self } }
    impl Copy for CItemPtr {}
    impl CItemPtr {
//@ fn dochy_core/src/imp/intf/citem.rs CItemPtr::new -> r
        ensures r.item == item, r.list_def == list_def, r.root_def == root_def,
//@ end
    }
    pub open spec fn here(ps: CItemPtr, it: PointsTo<ConstItem>) -> bool { it.ptr() == ps.item as *mut ConstItem && it.is_init() }
    pub open spec fn def(ps: CItemPtr, dt: PointsTo<ListDefObj>) -> bool { dt.ptr() == ps.list_def as *mut ListDefObj && dt.is_init() }
    pub open spec fn decl(dt: PointsTo<ListDefObj>, n: Seq<char>) -> Option<(RustParam, VarType)> { ldeclared(dt.value(), n) }
    pub open spec fn now(it: PointsTo<ConstItem>, dt: PointsTo<ListDefObj>, n: Seq<char>) -> Option<RustParam> { lreads(dt.value(), it.value().values@, n) }
    pub open spec fn ok(it: PointsTo<ConstItem>, dt: PointsTo<ListDefObj>) -> bool { lgood(dt.value(), it.value().values@) }
//@ fn dochy_core/src/imp/intf/citem.rs get_param -> r
//@ sub &\s*\*\s*(\w+)\.item\b => ptr_ref(\1.item, Tracked(it))
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&'a PointsTo<ConstItem>>, Tracked(dt): Tracked<&'a PointsTo<ListDefObj>>
        requires here(p, *it), def(p, *dt),
        ensures match r { Some(p) => now(*it, *dt, name@) == Some(*p), None => now(*it, *dt, name@) is None },
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_param_def -> r
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
        requires dt.ptr() == def.list_def as *mut ListDefObj, dt.is_init(),
        ensures match r { Some(p) => (match decl(*dt, name@) { Some(d) => Some(d.0), None => None }) == Some(*p), None => (match decl(*dt, name@) { Some(d) => Some(d.0), None => None }) is None },
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_bool -> r
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_bool(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_bool_def -> r
//@ param Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_bool((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_int -> r
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_int(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_int_def -> r
//@ param Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_int((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_float -> r
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_float(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_float_def -> r
//@ param Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_float((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_str -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustString| -> (y: String) ensures y@ == \1.str@ { \2 }))
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_str(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_str_def -> r
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_str_ref((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_immutable_str -> r
//@ param Tracked(it): Tracked<&'b PointsTo<ConstItem>>, Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_str_ref(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_int_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustIntArray| -> (y: Vec<i64>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_int_array(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_int_array_def -> r
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_int_array_ref((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_immutable_int_array -> r
//@ param Tracked(it): Tracked<&'b PointsTo<ConstItem>>, Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_int_array_ref(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_float_array -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustFloatArray| -> (y: Vec<f64>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_float_array(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_float_array_def -> r
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_float_array_ref((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_immutable_float_array -> r
//@ param Tracked(it): Tracked<&'b PointsTo<ConstItem>>, Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_float_array_ref(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_binary -> r
//@ sub? \.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\)(?=\s*\}) => .map(|\1: &RustBinary| -> (y: Vec<u8>) ensures y@ == \1.b@ { \2 }))
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_binary(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_binary_def -> r
//@ param Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param_def Tracked(dt)
        requires def(ps, *dt),
        ensures is_binary_ref((match decl(*dt, name@) { Some(d) => Some(d.0), None => None }), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_immutable_binary -> r
//@ param Tracked(it): Tracked<&'b PointsTo<ConstItem>>, Tracked(dt): Tracked<&'b PointsTo<ListDefObj>>
//@ pass get_param Tracked(it), Tracked(dt)
        requires here(ps, *it), def(ps, *dt),
        ensures is_binary_ref(now(*it, *dt, name@), r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_ref_id -> r
//@ sub &\s*\*\s*(\w+)\.item\b => ptr_ref(\1.item, Tracked(it))
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ param Tracked(it): Tracked<&'a PointsTo<ConstItem>>, Tracked(dt): Tracked<&'a PointsTo<ListDefObj>>
        requires here(ps, *it), def(ps, *dt),
        ensures match r { Some(q) => refers(dt.value(), it.value().refs@, list_name@) is Some && state(q) == state(refers(dt.value(), it.value().refs@, list_name@)->0) && (match q { Qv::Val(x) => *x == refers(dt.value(), it.value().refs@, list_name@)->0->Val_0, _ => true }), None => refers(dt.value(), it.value().refs@, list_name@) is None },
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_enum -> r
//@ sub &\s*\*\s*(\w+)\.item\b => ptr_ref(\1.item, Tracked(it))
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>
        requires here(ps, *it),
        ensures chosen(it.value().refs@, r),
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_ref -> r
//@ sub super::root::get_table => get_table
//@ sub super::table::get_value => get_value
//@ sub qv\.opt_map\(\|id\|\s*\{ => qv.opt_map(|id: &&String| -> (o: Option<CItemPtr>) requires table(ps.root_def, list_name@) is Some, ensures leads(ps.root_def, list_name@, id@, o) {
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
//@ pass get_ref_id Tracked(it), Tracked(dt)
        requires
            here(ps, *it), def(ps, *dt),
            refers(dt.value(), it.value().refs@, list_name@) is Some && refers(dt.value(), it.value().refs@, list_name@)->0 is Val ==> table(ps.root_def, list_name@) is Some,
        ensures referred(dt.value(), it.value().refs@, ps.root_def, list_name@, r),
//@ end
}
pub mod intf_clist {
    use super::*;
    use super::lib_specs::*;
    use super::structs::*;
    use super::values::*;
    use super::tables::*;
    use super::ref_impls::*;
    use super::intf_root::RootObjectPtr;
    use std::marker::PhantomData;
//@ item dochy_core/src/imp/intf/clist.rs struct CListPtr
//@ item dochy_core/src/imp/intf/clist.rs struct CListPtrIter
    impl<T: From<CItemPtr>> Clone for CListPtr<T> { fn clone(&self) -> (r: Self) ensures r == *self { CListPtr { ptr: self.ptr, list_def: self.list_def, root: self.root, phantom: PhantomData } } }
    impl<T: From<CItemPtr>> Copy for CListPtr<T> {}
    /// these items with this definition
    pub open spec fn holds<T: From<CItemPtr>>(c: CListPtr<T>, v: Seq<ConstItem>, d: ListDefObj) -> bool { behind(c.ptr)@ == v && behind(c.list_def) == d }
    /// the wrapper of this item
    pub open spec fn wraps<T: From<CItemPtr>>(t: T, i: ConstItem, list_def: *const ListDefObj, root: *const RootDefObj) -> bool {
        exists|c: CItemPtr| #[trigger] call_ensures(T::from, (c,), t) && behind(c.item) == i && c.list_def == list_def && c.root_def == root
    }
    pub open spec fn wrapper<T: From<CItemPtr>>() -> bool { forall|c: CItemPtr| #[trigger] call_requires(<T as From<CItemPtr>>::from, (c,)) }
    impl<T: From<CItemPtr>> CListPtr<T> {
//@ fn dochy_core/src/imp/intf/clist.rs CListPtr::new -> r
            ensures r.ptr == ptr, r.list_def == list_def, r.root == root,
//@ end
//@ fn dochy_core/src/imp/intf/clist.rs CListPtr::len -> r
            ensures r == behind(self.ptr)@.len(),
//@ end
//@ fn dochy_core/src/imp/intf/clist.rs CListPtr::value -> r
            requires idx < behind(self.ptr)@.len(), wrapper::<T>(),
            ensures wraps(r, behind(self.ptr)@[idx as int], self.list_def, self.root),
//@ end
//@ fn dochy_core/src/imp/intf/clist.rs CListPtr::iter -> r
            ensures r.vec == self.ptr, r.list_def == self.list_def, r.root == self.root, r.index == 0,
//@ end
    }
//@ fn dochy_core/src/imp/intf/clist.rs get_len -> r
//@ sub unsafe\s*\{\s*list\.ptr\.as_ref\(\)\.unwrap\(\)\s*\} => led(list.ptr)
        ensures r == behind(list.ptr)@.len(),
//@ end
//@ fn dochy_core/src/imp/intf/clist.rs get_value -> r
//@ sub unsafe\s*\{\s*list\.ptr\.as_ref\(\)\.unwrap\(\)\s*\} => led(list.ptr)
//@ sub? CItemPtr::new\(&(\w+\[[^\]]*\]), => CItemPtr::new(at(&\1),
        requires idx < behind(list.ptr)@.len(), wrapper::<T>(),
        ensures wraps(r, behind(list.ptr)@[idx as int], list.list_def, list.root),
//@ end
//@ fn dochy_core/src/imp/intf/clist.rs get_iter -> r
        ensures r.vec == list.ptr, r.list_def == list.list_def, r.root == list.root, r.index == 0,
//@ end
    impl<V: From<CItemPtr>> CListPtrIter<V> {
//@ fn dochy_core/src/imp/intf/clist.rs CListPtrIter::new -> r
            ensures r.vec == vec, r.list_def == list_def, r.root == root, r.index == 0,
//@ end
//@ fn dochy_core/src/imp/intf/clist.rs Iterator for CListPtrIter::next -> r
//@ sub ^fn => pub fn
//@ sub Self::Item => V
//@ sub unsafe\s*\{\s*&\s*\*\s*self\.vec\s*\} => led(self.vec)
//@ sub? CItemPtr::new\((&?\w+(?:\.get\([\w.]+\)\.unwrap\(\)|\[[^\]]*\])), => CItemPtr::new(at(\1),
            requires wrapper::<V>(),
            ensures
                final(self).vec == old(self).vec, final(self).list_def == old(self).list_def, final(self).root == old(self).root,
                r is Some <==> old(self).index < behind(old(self).vec)@.len(),
                r is Some ==> final(self).index == old(self).index + 1 && wraps(r->0, behind(old(self).vec)@[old(self).index as int], old(self).list_def, old(self).root),
                r is None ==> final(self).index == old(self).index,
//@ end
    }
    impl ConstList {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstList::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstList::list -> r
            ensures *r == *self.list,
//@ end
    }
    impl ConstListVal {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstListVal::list -> r
            ensures *r == *self.list,
//@ end
        // TRUSTED: one list that stays empty
        #[verifier::external_body]
        pub fn empty() -> (r: &'static Vec<ConstItem>) ensures r@ == Seq::<ConstItem>::empty() { unimplemented!() }
    }
//@ fn dochy_core/src/imp/intf/root.rs get_clist -> r
//@ sub &\s*\*\s*(\w+)\.ptr\b => ptr_ref(\1.ptr, Tracked(pt))
//@ sub? CListPtr::new\(l\.list\(\), l\.default\(\), root\.default\(\)\) => CListPtr::new(at(l.list()), at(l.default()), at(root.default()))
//@ param Tracked(pt): Tracked<&PointsTo<RootObject>>
        requires super::intf_root::here(root_ptr, *pt),
        ensures
            r is Some <==> pt.value().default.def@.dom().contains(name@) && pt.value().default.def@[name@].1 is CList,
            r is Some ==> holds(r->0, (pt.value().default.def@[name@].1->CList_0).list@, *(pt.value().default.def@[name@].1->CList_0).default) && behind((r->0).root) == *pt.value().default,
//@ end
//@ fn dochy_core/src/imp/intf/citem.rs get_cil -> r
//@ sub &\s*\*\s*(\w+)\.item\b => ptr_ref(\1.item, Tracked(it))
//@ sub &\s*\*\s*(\w+)\.list_def\b => ptr_ref(\1.list_def, Tracked(dt))
//@ sub? CListPtr::new\(data\.list\(\), def, => CListPtr::new(at(data.list()), at(def),
//@ sub? CListPtr::new\(ConstListVal::empty\(\), def, => CListPtr::new(at(ConstListVal::empty()), at(def),
//@ param Tracked(it): Tracked<&PointsTo<ConstItem>>, Tracked(dt): Tracked<&PointsTo<ListDefObj>>
        requires super::intf_citem::here(ps, *it), super::intf_citem::def(ps, *dt),
        ensures
            r is Some <==> dt.value().default.map@.dom().contains(name@) && dt.value().default.map@[name@].1 is CilDef,
            r is Some ==> holds(r->0, inner(it.value(), name@), dt.value().default.map@[name@].1->CilDef_0) && (r->0).root == ps.root_def,
//@ end
    /// the items of the list inside this item
    pub open spec fn inner(i: ConstItem, n: Seq<char>) -> Seq<ConstItem> {
        if i.values@.dom().contains(n) && i.values@[n] is Cil { (i.values@[n]->Cil_0).list@ } else { Seq::empty() }
    }
}
} // verus!
fn main() {}
