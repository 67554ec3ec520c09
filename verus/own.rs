#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_unsafe, unreachable_code)]
// Unit: who may write where (property 9). Objects share what is the same; a clone shares everything at first. A place may be written only
// through a reference that excludes all others, or through a pointer made from one.
use vstd::prelude::*;
use vstd::raw_ptr::*;
use std::sync::Arc;
use std::marker::PhantomData;

verus! {
global size_of usize == 8;

pub mod lib_specs {
    use super::*;
    // TRUSTED: HashM<String, _> is a map from texts to values
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct HashM<K, V> { x: std::collections::HashMap<K, V> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashS<K> { x: std::collections::HashSet<K> }
    impl<V> HashM<String, V> {
        pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
        #[verifier::external_body]
        pub fn get(&self, k: &str) -> (r: Option<&V>)
            ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
            ensures
                r is Some <==> old(self)@.dom().contains(k@),
                match r { Some(v) => *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => final(self)@ == old(self)@ },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &str) -> (r: bool)
            ensures r == self@.dom().contains(k@),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clear(&mut self) { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
            ensures
                final(self)@ == old(self)@.insert(k@, v),
                r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
        { unimplemented!() }
    }
    // TRUSTED: Arc::make_mut gives access to the value, or to an equal clone of it where it is shared
    #[verifier::external_body]
    pub fn make_mut<T>(a: &mut Arc<T>) -> (r: &mut T)
        ensures *r == **old(a), **final(a) == *final(r),
    { unimplemented!() }
    // TRUSTED: a clone of an Arc leads to the same value
    #[verifier::external_body]
    pub fn share<T>(a: &Arc<T>) -> (r: Arc<T>)
        ensures *r == **a,
    { unimplemented!() }
    // TRUSTED: as_ref of Arc and Box
    pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Arc<T, A> as AsRef<T>>::as_ref] (a: &Arc<T, A>) -> (r: &T)
        ensures r == &**a;
    pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref] (a: &Box<T, A>) -> (r: &T)
        ensures r == &**a;
    /// the pointer was made from a reference that excludes all others
    pub uninterp spec fn writable<T>(p: *const T) -> bool;
    // TRUSTED: references become pointers of the same standing
    pub trait Ptr<T>: Sized {
        spec fn excl(&self) -> bool;
        fn ptr(self) -> (r: *const T)
            ensures self.excl() ==> writable(r);
    }
    impl<'a, T> Ptr<T> for &'a mut T {
        open spec fn excl(&self) -> bool { true }
        #[verifier::external_body]
        fn ptr(self) -> (r: *const T) { self as *const T }
    }
    impl<'a, T> Ptr<T> for &'a T {
        open spec fn excl(&self) -> bool { false }
        #[verifier::external_body]
        fn ptr(self) -> (r: *const T) { self as *const T }
    }
    impl<T> Ptr<T> for *const T {
        open spec fn excl(&self) -> bool { writable(*self) }
        fn ptr(self) -> (r: *const T) { self }
    }
    impl<T> Ptr<T> for *mut T {
        open spec fn excl(&self) -> bool { writable(*self as *const T) }
        fn ptr(self) -> (r: *const T) { self as *const T }
    }
    // TRUSTED: reading through a pointer
    #[verifier::external_body]
    pub fn read_at<'a, T>(p: *const T) -> (r: &'a T) { unsafe { &*p } }
    // TRUSTED: writing through a pointer, where it may be written
    #[verifier::external_body]
    pub fn write_at<'a, T>(p: *const T) -> (r: &'a mut T)
        requires writable(p),
    { unsafe { &mut *(p as *mut T) } }
    // TRUSTED: Option::unwrap either gives what is there or ends the program
    #[verifier::external_body]
    pub fn unwrap_<T>(o: Option<T>) -> (r: T)
        ensures o == Some(r),
    { o.unwrap() }
    // TRUSTED: unreachable!() ends the program (that it isn't reached is unit member)
    #[verifier::external_body]
    pub fn never<T>() -> (r: T) ensures false { unimplemented!() }
    // TRUSTED: the address behind an Arc is shared
    #[verifier::external_body]
    pub fn as_ptr<T>(a: &Arc<T>) -> (r: *const T) { Arc::as_ptr(a) }
    #[verifier::external_body]
    pub fn strong_count<T>(a: &Arc<T>) -> (r: usize) { Arc::strong_count(a) }
}

pub mod structs {
    use super::*;
    use super::lib_specs::*;
//@ item dochy_core/src/imp/structs/var_type.rs enum VarType
//@ item dochy_core/src/imp/structs/qv.rs enum QvType
//@ item dochy_core/src/imp/structs/util/set_sabun.rs enum SetSabunError
//@ item dochy_core/src/imp/structs/qv.rs enum Qv
//@ item dochy_core/src/imp/structs/rust_string.rs struct RustString
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustIntArray
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustFloatArray
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustBinary
//@ item dochy_core/src/imp/structs/rust_param.rs enum RustParam
//@ item dochy_core/src/imp/structs/root_sab_value.rs enum RootSabValue
//@ item dochy_core/src/imp/structs/root_value.rs enum RootValue
//@ item dochy_core/src/imp/structs/root_def_obj.rs struct RootDefObj
//@ item dochy_core/src/imp/structs/root_obj.rs struct RootObject
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstTable
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstList
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstListVal
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstItem
//@ item dochy_core/src/imp/structs/rust_list.rs struct MutListVal
//@ item dochy_core/src/imp/structs/rust_list.rs struct MutItem
//@ item dochy_core/src/imp/structs/mut_list_def.rs struct MutListDef
//@ item dochy_core/src/imp/structs/list_def_obj.rs struct ListDefObj
//@ item dochy_core/src/imp/structs/list_def_obj.rs struct ListDefMap
//@ item dochy_core/src/imp/structs/list_value.rs enum ListDefValue
//@ item dochy_core/src/imp/structs/list_sab_value.rs enum ListSabValue
//@ item dochy_core/src/imp/structs/ref_def_obj.rs struct RefDefObj
//@ item dochy_core/src/imp/structs/ref_def_obj.rs struct RefDefMap
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefValue
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefValueInternal
//@ sub \bstruct\b => pub struct
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefSabValue
    #[verifier::external_body]
    pub struct MetaTable { x: () }
    // ASSUMED: unit member (values and their checks; none of these writes anywhere)
    #[verifier::external_body]
    pub fn verify_set_sabun(def: &RustParam, vt: &VarType, p: &RustParam) -> Result<(), SetSabunError> { unimplemented!() }
    impl RustParam {
        #[verifier::external_body]
        pub fn to_default_value(&self, len: usize) -> RustParam { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> RustParam { unimplemented!() }
    }
    impl VarType {
        #[verifier::external_body]
        pub fn acceptable(&self, t: &QvType) -> bool { unimplemented!() }
    }
    impl<T> Qv<T> {
        #[verifier::external_body]
        pub fn qv_type(&self) -> QvType { unimplemented!() }
    }
    impl RefSabValue {
        #[verifier::external_body]
        pub fn new(v: Qv<String>) -> RefSabValue { unimplemented!() }
    }
    impl RefDefObj {
        #[verifier::external_body]
        pub fn is_enum(&self) -> bool { unimplemented!() }
    }
    // ASSUMED: unit list (the list hands out its items and changes only itself)
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct LinkedMap<V> { x: Vec<V> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct LinkedMapUnsafeIter<V> { x: *const V }
    impl<V> LinkedMapUnsafeIter<V> {
        /// it was made from a list that may be written
        pub uninterp spec fn free(&self) -> bool;
        #[verifier::external_body]
        pub fn next_const<'a>(&mut self) -> (r: Option<(&'a u64, &'a V)>) ensures final(self).free() == old(self).free() { unimplemented!() }
        #[verifier::external_body]
        pub fn next_mut<'a>(&mut self) -> (r: Option<(&'a u64, &'a mut V)>) requires old(self).free() ensures final(self).free() { unimplemented!() }
        #[verifier::external_body]
        pub fn prev_const<'a>(&mut self) -> (r: Option<(&'a u64, &'a V)>) ensures final(self).free() == old(self).free() { unimplemented!() }
        #[verifier::external_body]
        pub fn prev_mut<'a>(&mut self) -> (r: Option<(&'a u64, &'a mut V)>) requires old(self).free() ensures final(self).free() { unimplemented!() }
        #[verifier::external_body]
        pub fn current_const<'a>(&mut self) -> (r: Option<(&'a u64, &'a V)>) ensures final(self).free() == old(self).free() { unimplemented!() }
        #[verifier::external_body]
        pub fn current_mut<'a>(&mut self) -> (r: Option<(&'a u64, &'a mut V)>) requires old(self).free() ensures final(self).free() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_available(&self) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn is_first(&self) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn is_last(&self) -> bool { unimplemented!() }
    }
    impl<V> LinkedMap<V> {
        #[verifier::external_body]
        pub fn new() -> LinkedMap<V> { unimplemented!() }
        #[verifier::external_body]
        pub fn first(&self) -> Option<&V> { unimplemented!() }
        #[verifier::external_body]
        pub fn last(&self) -> Option<&V> { unimplemented!() }
        #[verifier::external_body]
        pub fn first_mut(&mut self) -> Option<&mut V> { unimplemented!() }
        #[verifier::external_body]
        pub fn last_mut(&mut self) -> Option<&mut V> { unimplemented!() }
        #[verifier::external_body]
        pub fn first_id(&self) -> Option<u64> { unimplemented!() }
        #[verifier::external_body]
        pub fn last_id(&self) -> Option<u64> { unimplemented!() }
        #[verifier::external_body]
        pub fn get_item(&self, id: u64) -> Option<&V> { unimplemented!() }
        #[verifier::external_body]
        pub fn get_item_mut(&mut self, id: u64) -> Option<&mut V> { unimplemented!() }
        #[verifier::external_body]
        pub fn next_id(&self) -> u64 { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, id: u64) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> usize { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn insert_last(&mut self, v: V) -> u64 { unimplemented!() }
        #[verifier::external_body]
        pub fn insert_first(&mut self, v: V) -> u64 { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, id: u64) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn remove_first(&mut self) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn remove_last(&mut self) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn move_to_first(&mut self, id: u64) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn move_to_last(&mut self, id: u64) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn move_to_prev(&mut self, a: u64, id: u64) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn move_to_next(&mut self, a: u64, id: u64) -> bool { unimplemented!() }
        #[verifier::external_body]
        pub fn iter_unsafe_const(&self) -> LinkedMapUnsafeIter<V> { unimplemented!() }
        #[verifier::external_body]
        pub fn iter_from_last_unsafe_const(&self) -> LinkedMapUnsafeIter<V> { unimplemented!() }
        #[verifier::external_body]
        pub fn iter_from_id_unsafe_const(&self, id: u64) -> Option<LinkedMapUnsafeIter<V>> { unimplemented!() }
        #[verifier::external_body]
        pub fn iter_unsafe_mut(&mut self) -> (r: LinkedMapUnsafeIter<V>) ensures r.free() { unimplemented!() }
        #[verifier::external_body]
        pub fn iter_from_last_unsafe_mut(&mut self) -> (r: LinkedMapUnsafeIter<V>) ensures r.free() { unimplemented!() }
        #[verifier::external_body]
        pub fn iter_from_id_unsafe_mut(&mut self, id: u64) -> (r: Option<LinkedMapUnsafeIter<V>>) ensures r is Some ==> r->0.free() { unimplemented!() }
    }
    impl RootDefObj {
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::get -> r
//@ optmap
        ensures r == (if self.def@.dom().contains(name@) { Some(&self.def@[name@].1) } else { None }),
//@ end
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::sabun -> r
            ensures *r == *self.sabun,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::sabun_mut -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
            ensures *r == *old(self).sabun, final(self).default == old(self).default, *final(self).sabun == *final(r),
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::def_and_mut_sab -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
            ensures *r.0 == *old(self).default, *r.1 == *old(self).sabun, final(self).default == old(self).default, *final(self).sabun == *final(r.1),
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::set_sabun_param -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs Clone for RootObject::clone -> r
//@ sub (self\.\w+)\.clone\(\) => share(&\1)
            ensures *r.default == *self.default, *r.sabun == *self.sabun, *r.old == *self.old, *r.meta_table == *self.meta_table,
//@ end
    }
    impl MutListVal {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::list -> r
            ensures *r == *self.list,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::list_mut -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
            ensures *r == *old(self).list, *final(self).list == *final(r),
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::crate_empty_list -> r
//@ end
        // TRUSTED: one list that stays empty
        #[verifier::external_body]
        pub fn empty_lists_ref() -> &'static LinkedMap<MutItem> { unimplemented!() }
    }
    impl MutItem {
        // TRUSTED: the derived default
        #[verifier::external_body]
        pub fn default() -> MutItem { unimplemented!() }
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::values -> r
            ensures *r == *self.values,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::values_mut -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
            ensures *r == *old(self).values, *final(self).values == *final(r), final(self).refs == old(self).refs,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::refs -> r
            ensures *r == *self.refs,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::set_sabun -> r
//@ sub? unreachable!\(\) => never()
//@ optmap
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::refs_mut -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
            ensures *r == *old(self).refs, *final(self).refs == *final(r), final(self).values == old(self).values,
//@ end
    }
    impl RustString {
//@ fn dochy_core/src/imp/structs/rust_string.rs RustString::string_mut -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
            ensures *r == *old(self).str, *final(self).str == *final(r),
//@ end
    }
    impl RustIntArray {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustIntArray::vec_mut -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
            ensures *r == *old(self).b, *final(self).b == *final(r),
//@ end
    }
    impl RustBinary {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustBinary::vec_mut -> r
//@ sub? Arc::make_mut => make_mut
//@ sub? Arc::as_ptr => as_ptr
//@ sub? Arc::strong_count => strong_count
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*\(([^{}]*?)\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(\1)
            ensures *r == *old(self).b, *final(self).b == *final(r),
//@ end
    }
    impl MutListDef {
//@ fn dochy_core/src/imp/structs/mut_list_def.rs MutListDef::default -> r
            ensures *r == *self.default,
//@ end
    }
    impl ListDefObj {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::refs -> r
            ensures *r == *self.refs,
//@ end
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::default -> r
            ensures *r == *self.default,
//@ end
    }
    impl ListDefMap {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::get -> r
//@ optmap
            ensures r == (if self.map@.dom().contains(key@) { Some(&self.map@[key@].1) } else { None }),
//@ end
    }
}

pub mod lists {
    use super::*;
    use super::lib_specs::*;
    use super::structs::*;
//@ item dochy_core/src/imp/intf/root.rs struct RootObjectPtr
    #[derive(Clone, Copy)]
//@ item dochy_core/src/imp/intf/mitem.rs struct MItemPtr
    /// what wraps the pointer of an item (`From<MItemPtr>`)
    pub trait OfItem: Sized {
        spec fn item(&self) -> MItemPtr;
        fn from(p: MItemPtr) -> (r: Self) ensures r.item() == p;
    }
    pub open spec fn free_item<V: OfItem>(v: V) -> bool { writable(v.item().item) }
    pub open spec fn free_one<V: OfItem>(v: Option<V>) -> bool { v is Some ==> free_item(v->0) }
    pub open spec fn free_pair<V: OfItem>(v: Option<(u64, V)>) -> bool { v is Some ==> free_item((v->0).1) }
//@ item dochy_core/src/imp/intf/mlist_ptr.rs struct MListPtr
//@ sub From<MItemPtr> => OfItem
//@ item dochy_core/src/imp/intf/mlist_ptr.rs struct MListPtrIter
//@ sub From<MItemPtr> => OfItem
    impl MItemPtr {
//@ fn dochy_core/src/imp/intf/mitem.rs MItemPtr::new -> r
            ensures r.item == item,
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs MItemPtr::item_mut -> r
//@ sub \bunsafe\b =>
//@ sub &\s*mut\s*\*\s*\(\s*self\.item\s+as\s+\*mut\s+_\s*\) => write_at(self.item)
            requires writable(self.item),
//@ end
        /// references given where pointers are expected become pointers
        pub fn make<A: Ptr<MutItem>, B: Ptr<ListDefObj>, C: Ptr<RootDefObj>>(a: A, b: B, c: C) -> (r: MItemPtr)
            ensures a.excl() ==> writable(r.item),
        { MItemPtr::new(a.ptr(), b.ptr(), c.ptr()) }
    }
    impl<V: OfItem> MListPtr<V> {
        pub open spec fn free(&self) -> bool { writable(self.map) }
        pub fn make<A: Ptr<LinkedMap<MutItem>>, B: Ptr<ListDefObj>, C: Ptr<RootDefObj>>(a: A, b: B, c: C) -> (r: MListPtr<V>)
            ensures a.excl() ==> r.free(),
        { MListPtr::new(a.ptr(), b.ptr(), c.ptr()) }
        pub fn from_<A: Ptr<MutItem>>(&self, a: A) -> (r: V)
            ensures a.excl() ==> free_item(r),
        { self.from(a.ptr()) }
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::new -> r
            ensures r.map == map,
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::from -> r
            ensures r.item().item == item,
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::map -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*self\.map\s*\} => read_at(self.map)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::map_mut -> r
//@ sub unsafe\s*\{\s*&\s*mut\s*\*\s*\(\s*self\.map\s+as\s+\*mut\s+[^{}]*\)\s*\} => write_at(self.map)
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::first_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_one(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::last_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_one(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::get_item_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_one(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::first_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::last_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::get_item_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::first_id -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::last_id -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::next_id -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::contains_key -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::len -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::is_empty -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::insert -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(), free_item(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::insert_last -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(), free_item(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::insert_first -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(), free_item(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::remove -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::remove_first -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::remove_last -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::move_to_first -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::move_to_last -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::move_to_prev -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::move_to_next -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::iter_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::iter_from_last_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::iter_from_id_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::iter_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(), r.free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::iter_from_last_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
            requires old(self).free(), ensures final(self).free(), r.free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtr::iter_from_id_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            requires old(self).free(), ensures final(self).free(), r is Some ==> r->0.free(),
//@ end
    }
    impl<V: OfItem> MListPtrIter<V> {
        pub open spec fn free(&self) -> bool { self.iter.free() }
        pub fn from_<A: Ptr<MutItem>>(&self, a: A) -> (r: V)
            ensures a.excl() ==> free_item(r),
        { self.from(a.ptr()) }
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::new -> r
            ensures r.free() == iter.free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::from -> r
            ensures r.item().item == item,
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::next_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            ensures final(self).free() == old(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::next_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_pair(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::prev_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            ensures final(self).free() == old(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::prev_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_pair(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::current_const -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            ensures final(self).free() == old(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::current_mut -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_pair(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::is_available -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::is_first -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_ptr.rs MListPtrIter::is_last -> r
//@ sub? self\.from\( => self.from_(
//@ sub? \bunsafe\b =>
//@ sub? (self\.get_item_mut\(\w+\))\.unwrap\(\) => unwrap_(\1)
//@ optmap
//@ end
    }
    pub mod root {
        use super::*;
//@ fn dochy_core/src/imp/intf/root.rs get_mlist_mut/f -> r
//@ sub? MListPtr::new\( => MListPtr::make(
//@ sub U\s*:\s*From<MItemPtr> => U: OfItem
            ensures r is Some <==> (match sab { Some(x) => (match *x { RootSabValue::Mut(Some(_)) => true, _ => false }), None => false }), r is Some ==> r->0.free(),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_mlist_mut -> r
//@ hoist f
//@ sub \bunsafe\b =>
//@ sub \(\*\s*(\w+)\.ptr\)\.def_and_mut_sab => write_at(\1.ptr as *const RootObject).def_and_mut_sab
//@ sub T\s*:\s*From<MItemPtr> => T: OfItem
            requires writable(root.ptr as *const RootObject), ensures r is Some ==> r->0.free(),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_mlist_const -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => read_at(\1.ptr as *const RootObject)
//@ sub T\s*:\s*From<MItemPtr> => T: OfItem
//@ sub? MListPtr::new\( => MListPtr::make(
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_param -> r
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => write_at(\1.ptr as *const RootObject)
//@ sub? unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => read_at(\1.ptr as *const RootObject)
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_param_def -> r
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => write_at(\1.ptr as *const RootObject)
//@ sub? unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => read_at(\1.ptr as *const RootObject)
//@ end
//@ fn dochy_core/src/imp/intf/root.rs get_param_mut -> r
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => write_at(\1.ptr as *const RootObject)
//@ sub? unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => read_at(\1.ptr as *const RootObject)
            requires writable(p.ptr as *const RootObject),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_sabun -> r
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => write_at(\1.ptr as *const RootObject)
//@ sub? unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => read_at(\1.ptr as *const RootObject)
            requires writable(root.ptr as *const RootObject),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs set_initial_value -> r
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => write_at(\1.ptr as *const RootObject)
//@ sub? unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => read_at(\1.ptr as *const RootObject)
            requires writable(ps.ptr as *const RootObject),
//@ end
//@ fn dochy_core/src/imp/intf/root.rs is_unmodified -> r
//@ sub? unsafe\s*\{\s*&\s*mut\s*\*\s*(\w+)\.ptr\s*\} => write_at(\1.ptr as *const RootObject)
//@ sub? unsafe\s*\{\s*&\s*\*\s*(\w+)\.ptr\s*\} => read_at(\1.ptr as *const RootObject)
            requires writable(ps.ptr as *const RootObject),
//@ end
    }
    pub mod mitem {
        use super::*;
//@ fn dochy_core/src/imp/intf/mitem.rs get_mil_mut/f -> r
//@ sub? MListPtr::new\( => MListPtr::make(
//@ sub U\s*:\s*From<MItemPtr> => U: OfItem
            ensures r is Some <==> (match sab_value { Some(x) => (match *x { ListSabValue::Mil(Some(_)) => true, _ => false }), None => false }), r is Some ==> r->0.free(),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_mil_mut -> r
//@ hoist f
//@ sub \bunsafe\b =>
//@ sub &\s*\*\s*(\w+)\.list_def\b => read_at(\1.list_def)
//@ sub T\s*:\s*From<MItemPtr> => T: OfItem
            requires writable(ps.item), ensures r is Some ==> r->0.free(),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_mil_const -> r
//@ sub \bunsafe\b =>
//@ sub &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
//@ sub T\s*:\s*From<MItemPtr> => T: OfItem
//@ sub? MListPtr::new\( => MListPtr::make(
//@ end
        // ASSUMED: unit member (which references are allowed; it reads only)
        #[verifier::external_body]
        fn ref_acceptable(ps: MItemPtr, list_name: &str, id: &Qv<String>) -> bool { unimplemented!() }
//@ fn dochy_core/src/imp/intf/mitem.rs get_param -> r
//@ sub? \bunsafe\b =>
//@ sub? &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_param_def -> r
//@ sub? \bunsafe\b =>
//@ sub? &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs is_unmodified -> r
//@ sub? \bunsafe\b =>
//@ sub? &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs get_param_mut -> r
//@ sub? \bunsafe\b =>
//@ sub? &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
            requires writable(ps.item),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_sabun -> r
//@ sub? \bunsafe\b =>
//@ sub? &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
            requires writable(ps.item),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_initial_value -> r
//@ sub? \bunsafe\b =>
//@ sub? &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
            requires writable(ps.item),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_ref -> r
//@ sub? \bunsafe\b =>
//@ sub? &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
            requires writable(ps.item),
//@ end
//@ fn dochy_core/src/imp/intf/mitem.rs set_enum -> r
//@ sub? \bunsafe\b =>
//@ sub? &\s*\*\s*(\w+)\.(item|list_def)\b => read_at(\1.\2)
            requires writable(ps.item),
//@ end
    }
//@ item dochy_core/src/imp/intf/mlist_mut.rs struct MListMut
//@ sub From<MItemPtr> => OfItem
//@ item dochy_core/src/imp/intf/mlist_mut.rs struct MItemMut
//@ item dochy_core/src/imp/intf/mlist_iter_mut.rs struct MListIterMut
//@ sub From<MItemPtr> => OfItem
//@ item dochy_core/src/imp/intf/mlist_const.rs struct MListConst
//@ sub From<MItemPtr> => OfItem
//@ item dochy_core/src/imp/intf/mlist_const.rs struct MItemConst
//@ item dochy_core/src/imp/intf/mlist_iter_const.rs struct MListIterConst
//@ sub From<MItemPtr> => OfItem
    impl<'a, V: OfItem> MListMut<'a, V> { pub open spec fn free(&self) -> bool { self.ptr.free() } }
    impl<'a, V: OfItem> MListIterMut<'a, V> { pub open spec fn free(&self) -> bool { self.ptr.free() } }
    pub open spec fn free_of<'a, V: OfItem>(o: Option<MItemMut<'a, V>>) -> bool { o is Some ==> free_item((o->0).item) }
    pub open spec fn free_of2<'a, V: OfItem>(o: Option<(u64, MItemMut<'a, V>)>) -> bool { o is Some ==> free_item((o->0).1.item) }
    impl<'a, V> MItemMut<'a, V> {
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MItemMut::new -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            ensures r.item == item,
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MItemMut::from_phantom -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            ensures r.item == item,
//@ end
    }
    impl<'a, V> MItemConst<'a, V> {
//@ fn dochy_core/src/imp/intf/mlist_const.rs MItemConst::new -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            ensures r.item == item,
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MItemConst::from_phantom -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            ensures r.item == item,
//@ end
    }
    impl<'a, V: OfItem> MListMut<'a, V> {
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::new -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires ptr.free(), ensures r.free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::first_mut -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures free_of(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::last_mut -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures free_of(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::get_mut -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures free_of(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::first_id -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::last_id -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::next_id -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::contains_key -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::len -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::is_empty -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::insert -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures free_item(r.item),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::insert_last -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures free_item(r.item),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::insert_first -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures free_item(r.item),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::remove -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::remove_first -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::remove_last -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::move_to_first -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::move_to_last -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::move_to_prev -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::move_to_next -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_mut.rs MListMut::iter -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures r.free(),
//@ end
    }
    impl<'a, V: OfItem> MListIterMut<'a, V> {
//@ fn dochy_core/src/imp/intf/mlist_iter_mut.rs MListIterMut::new -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires ptr.free(), ensures r.free(),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_mut.rs MListIterMut::next -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_of2(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_mut.rs MListIterMut::prev -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_of2(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_mut.rs MListIterMut::current -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
            requires old(self).free(), ensures final(self).free(), free_of2(r),
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_mut.rs MListIterMut::is_available -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_mut.rs MListIterMut::is_first -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_mut.rs MListIterMut::is_last -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
    }
    impl<'a, V: OfItem> MListConst<'a, V> {
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::new -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::first -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::first_id -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::last -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::last_id -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::get_item -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::next_id -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::contains_key -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::len -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::is_empty -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::iter -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::iter_from_last -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_const.rs MListConst::iter_from_id -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
    }
    impl<'a, V: OfItem> MListIterConst<'a, V> {
//@ fn dochy_core/src/imp/intf/mlist_iter_const.rs MListIterConst::new -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_const.rs MListIterConst::next -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_const.rs MListIterConst::prev -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_const.rs MListIterConst::current -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_const.rs MListIterConst::is_available -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_const.rs MListIterConst::is_first -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
//@ fn dochy_core/src/imp/intf/mlist_iter_const.rs MListIterConst::is_last -> r
//@ sub? From<MItemPtr> => OfItem
//@ sub? \bmove\s+(?=\|) =>
//@ sub? \bunsafe\b =>
//@ optmap
//@ end
    }
}
fn main() {}
}
