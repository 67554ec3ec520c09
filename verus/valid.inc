pub mod accept {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::access::*;
    #[derive(PartialEq, Eq)]
//@ item dochy_core/src/imp/structs/rust_value.rs enum RustMemberType
    impl vstd::std_specs::cmp::PartialEqSpecImpl for RustMemberType {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &RustMemberType) -> bool { *self == *other }
    }
    pub open spec fn num_of(t: ParamType) -> RustMemberType {
        match t {
            ParamType::Bool => RustMemberType::Bool, ParamType::Float => RustMemberType::Float, ParamType::Int => RustMemberType::Int, ParamType::String => RustMemberType::Str,
            ParamType::IntArray => RustMemberType::IntArray, ParamType::FloatArray => RustMemberType::FloatArray, ParamType::Binary => RustMemberType::Binary,
        }
    }
    impl VarType {
//@ fn dochy_core/src/imp/structs/var_type.rs VarType::acceptable -> r
            ensures r == admits(*self, *t == QvType::Null, *t == QvType::Undefined),
//@ end
    }
    impl RustParam {
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::type_num -> r
            ensures r == num_of(type_of(*self)),
//@ end
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::acceptable -> r
            ensures r == (type_of(*self) == type_of(*other)),
//@ end
    }
    impl ListDefValue {
//@ fn dochy_core/src/imp/structs/list_value.rs ListDefValue::type_num -> r
            ensures r == (match *self { ListDefValue::Param(p, _) => num_of(type_of(p)), ListDefValue::CilDef(_) => RustMemberType::Cil, ListDefValue::MilDef(_) => RustMemberType::Mil }),
//@ end
//@ fn dochy_core/src/imp/structs/list_value.rs ListDefValue::value_type -> r
            ensures r == (match *self { ListDefValue::Param(_, vt) => vt, ListDefValue::CilDef(_) => VarType::Normal, ListDefValue::MilDef(m) => if m.undefiable { VarType::Undefiable } else { VarType::Normal } }),
//@ end
//@ fn dochy_core/src/imp/structs/list_value.rs ListDefValue::acceptable -> r
            ensures r == takes(*self, *other),
//@ end
    }
    impl ListSabValue {
//@ fn dochy_core/src/imp/structs/list_sab_value.rs ListSabValue::type_num -> r
            ensures r == (match *self { ListSabValue::Param(p) => num_of(type_of(p)), ListSabValue::Cil(_) => RustMemberType::Cil, ListSabValue::Mil(_) => RustMemberType::Mil }),
//@ end
//@ fn dochy_core/src/imp/structs/list_sab_value.rs ListSabValue::qv_type -> r
            ensures r == (match *self { ListSabValue::Param(p) => state_of(p), ListSabValue::Mil(None) => QvType::Undefined, _ => QvType::Val }),
//@ end
    }
    impl RefValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::acceptable -> r
            ensures r == ref_takes(*self, *other),
//@ end
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::value -> r
            ensures *r == self.v.value,
//@ end
    }
    impl RefSabValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefSabValue::value -> r
            ensures *r == *self.value,
//@ end
    }
    impl ListDefObj {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::old -> r
            ensures *r == *self.old,
//@ end
    }
    impl ListDefMap {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::get -> r
//@ optmap
            ensures r == (if self.map@.dom().contains(key@) { Some(&self.map@[key@].1) } else { None }),
//@ end
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::contains_key -> r
            ensures r == self.map@.dom().contains(key@),
//@ end
    }
    impl RefDefObj {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefObj::old -> r
            ensures *r == *self.old,
//@ end
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefObj::is_enum -> r
            ensures r == self.is_enum,
//@ end
    }
    impl RefDefMap {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefMap::get -> r
//@ optmap
            ensures r == (if self.map@.dom().contains(key@) { Some(&self.map@[key@].1) } else { None }),
//@ end
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefMap::contains_key -> r
            ensures r == self.map@.dom().contains(key@),
//@ end
    }
    impl RootDefObj {
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::get -> r
//@ optmap
            ensures r == (if self.def@.dom().contains(name@) { Some(&self.def@[name@].1) } else { None }),
//@ end
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::sabun -> r
            ensures *r == *self.sabun,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::old -> r
            ensures *r == *self.old,
//@ end
    }
    impl ConstTable {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstTable::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstTable::list -> r
            ensures *r == *self.list,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstTable::old -> r
            ensures *r == *self.old,
//@ end
    }
    impl ConstList {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstList::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstList::list -> r
            ensures *r == *self.list,
//@ end
    }
    impl ConstListVal {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstListVal::list -> r
            ensures *r == *self.list,
//@ end
    }
    impl MutListVal {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::list -> r
            ensures *r == *self.list,
//@ end
    }
    impl ConstItem {
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstItem::values -> r
            ensures *r == *self.values,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs ConstItem::refs -> r
            ensures *r == *self.refs,
//@ end
    }
    impl MutItem {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::values -> r
            ensures *r == *self.values,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::refs -> r
            ensures *r == *self.refs,
//@ end
    }
    /// a value of the declared type that the declaration admits
    pub open spec fn takes(d: ListDefValue, v: ListSabValue) -> bool {
        match (d, v) {
            (ListDefValue::Param(p, vt), ListSabValue::Param(q)) => type_of(p) == type_of(q) && admits(vt, state_of(q) == QvType::Null, state_of(q) == QvType::Undefined),
            (ListDefValue::CilDef(_), ListSabValue::Cil(_)) => true,
            (ListDefValue::MilDef(m), ListSabValue::Mil(l)) => l is Some || m.undefiable,
            _ => false,
        }
    }
    pub open spec fn ref_takes(d: RefValue, v: RefSabValue) -> bool { admits(d.v.value_type, *v.value is Null, *v.value is Undefined) }
}

pub mod check {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::access::*;
    use super::accept::*;
    // TRUSTED: going through a set of texts visits every one
    impl HashS<String> {
        pub uninterp spec fn view(&self) -> Set<Seq<char>>;
        #[verifier::external_body]
        pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
        #[verifier::external_body]
        pub fn iter(&self) -> (r: NameIter<'_>) ensures all_of(r@, self@) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct NameIter<'a> { x: &'a str }
    impl<'a> NameIter<'a> {
        pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a String>)
            ensures match r {
                Some(k) => old(self)@.len() > 0 && k@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    pub open spec fn all_of(ks: Seq<Seq<char>>, s: Set<Seq<char>>) -> bool {
        &&& forall|i: int| 0 <= i < ks.len() ==> s.contains(#[trigger] ks[i])
        &&& forall|k: Seq<char>| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k
    }
    // TRUSTED: going through a vector with numbers
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct Numbered<'a, V> { x: &'a V }
    impl<'a, V> Numbered<'a, V> {
        pub uninterp spec fn view(&self) -> Seq<V>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(usize, &'a V)>)
            ensures match r {
                Some((k, v)) => old(self)@.len() > 0 && *v == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn numbered<V>(v: &Vec<V>) -> (r: Numbered<'_, V>) ensures r@ == v@ { unimplemented!() }
    // TRUSTED: the length of a text is 0 exactly if it has no character
    #[verifier::external_body]
    pub fn no_text(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
    // where something is, and messages
    #[verifier::external_body]
    pub struct Names<'a> { x: &'a str }
    impl<'a> Names<'a> {
        #[verifier::external_body]
        pub fn new(name: &'a str) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn append(&'a self, name: &'a str) -> Self { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn words() -> String { unimplemented!() }

    // ------------------------------------------------------------------ what a valid root is
    /// every reference that is written is declared, takes the value, and names an entry of the table it refers to
    pub open spec fn refs_ok(root: RootObject, d: RefDefObj, s: Map<Seq<char>, RefSabValue>, old_too: bool) -> bool {
        &&& if d.is_enum { s.dom().len() == 1 } else { forall|k: Seq<char>| #[trigger] d.refs.map@.dom().contains(k) ==> written(d.refs.map@[k].1, s, k) }
        &&& forall|k: Seq<char>| #[trigger] s.dom().contains(k) ==> ref_ok(root, d, k, s[k], old_too)
    }
    pub open spec fn written(d: RefValue, s: Map<Seq<char>, RefSabValue>, k: Seq<char>) -> bool {
        s.dom().contains(k) || match d.v.value { Qv::Val(t) => t@.len() != 0, _ => true }
    }
    pub open spec fn ref_ok(root: RootObject, d: RefDefObj, k: Seq<char>, v: RefSabValue, old_too: bool) -> bool {
        &&& old_too || !(*d.old)@.contains(k)
        &&& d.refs.map@.dom().contains(k) && ref_takes(d.refs.map@[k].1, v)
        &&& match *v.value { Qv::Val(id) => names_entry(root, k, id@, old_too), _ => true }
    }
    pub open spec fn names_entry(root: RootObject, k: Seq<char>, id: Seq<char>, old_too: bool) -> bool {
        &&& id.len() != 0
        &&& root.default.def@.dom().contains(k) && match root.default.def@[k].1 {
            RootValue::Table(t) => (*t.list)@.dom().contains(id) && (old_too || !(*t.old)@.contains(id)),
            _ => false,
        }
    }
    // TRUSTED: a valid item, by recursion over the (finite) items below it
    pub uninterp spec fn item_ok(root: RootObject, d: ListDefObj, v: Map<Seq<char>, ListSabValue>, s: Map<Seq<char>, RefSabValue>, old_too: bool) -> bool;
    #[verifier::external_body]
    pub broadcast proof fn item_ok_is(root: RootObject, d: ListDefObj, v: Map<Seq<char>, ListSabValue>, s: Map<Seq<char>, RefSabValue>, old_too: bool)
        ensures #[trigger] item_ok(root, d, v, s, old_too) == (refs_ok(root, *d.refs, s, old_too) && forall|k: Seq<char>| #[trigger] v.dom().contains(k) ==> member_ok(root, d, k, v[k], old_too)),
    { }
    pub open spec fn member_ok(root: RootObject, d: ListDefObj, k: Seq<char>, v: ListSabValue, old_too: bool) -> bool {
        &&& old_too || !(*d.old)@.contains(k)
        &&& def_of(d).dom().contains(k) && takes(def_of(d)[k].1, v)
        &&& match (def_of(d)[k].1, v) {
            (ListDefValue::CilDef(e), ListSabValue::Cil(l)) => consts_ok(root, e, (*l.list)@, old_too),
            (ListDefValue::MilDef(m), ListSabValue::Mil(Some(l))) => muts_ok(root, *m.default, (*l.list)@, old_too),
            _ => true,
        }
    }
    pub open spec fn consts_ok(root: RootObject, d: ListDefObj, l: Seq<ConstItem>, old_too: bool) -> bool {
        forall|i: int| 0 <= i < l.len() ==> const_ok(root, d, #[trigger] l[i], old_too)
    }
    pub open spec fn const_ok(root: RootObject, d: ListDefObj, i: ConstItem, old_too: bool) -> bool { item_ok(root, d, (*i.values)@, (*i.refs)@, old_too) }
    pub open spec fn muts_ok(root: RootObject, d: ListDefObj, l: Seq<(u64, MutItem)>, old_too: bool) -> bool {
        forall|i: int| 0 <= i < l.len() ==> mut_ok(root, d, (#[trigger] l[i]).1, old_too)
    }
    pub open spec fn mut_ok(root: RootObject, d: ListDefObj, i: MutItem, old_too: bool) -> bool { item_ok(root, d, (*i.values)@, (*i.refs)@, old_too) }
    /// what is marked as old is there
    pub open spec fn old_ok<V>(old: Set<Seq<char>>, m: Map<Seq<char>, V>) -> bool { forall|k: Seq<char>| #[trigger] old.contains(k) ==> m.dom().contains(k) }
    // TRUSTED: a valid definition, by recursion over the (finite) definitions below it
    pub uninterp spec fn def_ok(d: ListDefObj, of_mut: bool) -> bool;
    #[verifier::external_body]
    pub broadcast proof fn def_ok_is(d: ListDefObj, of_mut: bool)
        ensures #[trigger] def_ok(d, of_mut) == (ref_def_ok(*d.refs) && old_ok((*d.old)@, def_of(d)) && forall|k: Seq<char>| #[trigger] def_of(d).dom().contains(k) ==> def_member_ok(def_of(d)[k].1, of_mut)),
    { }
    pub open spec fn def_member_ok(v: ListDefValue, of_mut: bool) -> bool {
        match v { ListDefValue::Param(p, vt) => admits(vt, state_of(p) == QvType::Null, state_of(p) == QvType::Undefined), ListDefValue::CilDef(d) => !of_mut && def_ok(d, false), ListDefValue::MilDef(m) => of_mut && def_ok(*m.default, true) }
    }
    pub open spec fn ref_def_ok(d: RefDefObj) -> bool {
        &&& d.is_enum ==> forall|k: Seq<char>| #[trigger] d.refs.map@.dom().contains(k) ==> d.refs.map@[k].1.v.value is Null
        &&& old_ok((*d.old)@, d.refs.map@)
    }
    pub open spec fn table_ok(root: RootObject, d: ListDefObj, m: Map<Seq<char>, ConstItem>, old: Set<Seq<char>>, old_too: bool) -> bool {
        old_ok(old, m) && forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> const_ok(root, d, m[k], old_too)
    }
    pub open spec fn root_member_ok(root: RootObject, k: Seq<char>, v: RootValue, old_too: bool) -> bool {
        let s = root.sabun@;
        match v {
            RootValue::Param(p, vt) => admits(vt, state_of(p) == QvType::Null, state_of(p) == QvType::Undefined) && (s.dom().contains(k) ==> s[k] is Param && type_of(s[k]->Param_0) == type_of(p)),
            RootValue::Table(t) => def_ok(*t.default, false) && table_ok(root, *t.default, (*t.list)@, (*t.old)@, old_too),
            RootValue::CList(l) => def_ok(*l.default, false) && consts_ok(root, *l.default, (*l.list)@, old_too),
            RootValue::MList(m) => def_ok(*m.default, true) && (s.dom().contains(k) ==> match s[k] {
                RootSabValue::Mut(Some(l)) => muts_ok(root, *m.default, (*l.list)@, old_too),
                RootSabValue::Mut(None) => m.undefiable,
                _ => false,
            }),
        }
    }
    pub open spec fn root_ok(root: RootObject, old_too: bool) -> bool {
        &&& old_ok(root.old@, root.default.def@)
        &&& forall|k: Seq<char>| #[trigger] root.default.def@.dom().contains(k) ==> root_member_ok(root, k, root.default.def@[k].1, old_too)
    }
}

pub mod validate {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::access::*;
    use super::accept::*;
    use super::check::*;
    broadcast use {item_ok_is, def_ok_is};
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_old_def_mem.rs validate_old_root_def_mem -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in old\b => in old.iter()
//@ next 0 it
        ensures r is Ok <==> old_ok(old@, map@),
//@ pre 0
        let ghost ks = it@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant all_of(ks, old@), 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> map@.dom().contains(#[trigger] ks[i]),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_old_def_mem.rs validate_old_list_def_mem -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in old\b => in old.iter()
//@ next 0 it
        ensures r is Ok <==> old_ok(old@, map.map@),
//@ pre 0
        let ghost ks = it@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant all_of(ks, old@), 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> map.map@.dom().contains(#[trigger] ks[i]),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_old_def_mem.rs validate_old_ref_def -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in old\b => in old.iter()
//@ next 0 it
        ensures r is Ok <==> old_ok(old@, ref_def.map@),
//@ pre 0
        let ghost ks = it@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant all_of(ks, old@), 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> ref_def.map@.dom().contains(#[trigger] ks[i]),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_old_def_mem.rs validate_old_table_id -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in old\b => in old.iter()
//@ next 0 it
        ensures r is Ok <==> old_ok(old@, data_map@),
//@ pre 0
        let ghost ks = it@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant all_of(ks, old@), 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> data_map@.dom().contains(#[trigger] ks[i]),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs validate_ref_def -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in def\.refs\(\) => in def.refs().iter()
//@ next 0 it
        ensures r is Ok <==> ref_def_ok(*def),
//@ start
        let ghost m = def.refs.map@;
        let ghost ks = def.refs.map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant it.hash_iter.map() == m, m == def.refs.map@, def.is_enum, lists_all(ks, m), 0 <= n <= ks.len(), it.hash_iter@ == ks.skip(n), forall|i: int| 0 <= i < n ==> m[#[trigger] ks[i]].1.v.value is Null,
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs validate_list_def -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ next 0 it
        ensures r is Ok <==> def_ok(*def, is_mut),
//@ start
        let ghost m = def.default.map@;
        let ghost ks = def.default.map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant it.hash_iter.map() == m, m == def_of(*def), lists_all(ks, m), 0 <= n <= ks.len(), it.hash_iter@ == ks.skip(n), forall|i: int| 0 <= i < n ==> def_member_ok(m[#[trigger] ks[i]].1, is_mut),
                ref_def_ok(*def.refs), old_ok((*def.old)@, def_of(*def)),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
            assert(def_of(*def).dom().contains(ks[n - 1]));
//@ end
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_refs.rs validate_refs -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in def\.refs\(\) => in def.refs().iter()
//@ sub in sabun\b => in sabun.iter()
//@ sub v\.is_empty\(\) => no_text(v)
//@ sub id\.is_empty\(\) => no_text(id)
//@ next 0 it
//@ next 1 jt
        ensures r is Ok <==> refs_ok(*root, *def, sabun@, can_use_old),
//@ start
        let ghost m = def.refs.map@;
        let ghost ks = def.refs.map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant it.hash_iter.map() == m, m == def.refs.map@, !def.is_enum, lists_all(ks, m), 0 <= n <= ks.len(), it.hash_iter@ == ks.skip(n), forall|i: int| 0 <= i < n ==> written(m[#[trigger] ks[i]].1, sabun@, ks[i]),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
            assert(m.dom().contains(ks[n - 1]));
//@ pre 1
        let ghost js = jt@;
        let ghost mut q: int = 0;
//@ loop 1
            invariant jt.map() == sabun@, lists_all(js, sabun@), 0 <= q <= js.len(), jt@ == js.skip(q), forall|i: int| 0 <= i < q ==> ref_ok(*root, *def, #[trigger] js[i], sabun@[js[i]], can_use_old),
            ensures q == js.len(),
            decreases js.len() - q,
//@ in 1
            proof {
                assert(js.skip(q)[0] == js[q] && js.skip(q).skip(1) =~= js.skip(q + 1));
                assert(sabun@.dom().contains(js[q]));
                q = q + 1;
            }
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_list_item.rs validate_list_item -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in sabun_values\b => in sabun_values.iter()
//@ next 0 it
        ensures r is Ok <==> item_ok(*root, *def, sabun_values@, ref_values@, can_use_old),
//@ start
        let ghost d0 = *def;
//@ pre 0
        let ghost ks = it@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant d0 == *def, it.map() == sabun_values@, lists_all(ks, sabun_values@), 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> member_ok(*root, *def, #[trigger] ks[i], sabun_values@[ks[i]], can_use_old),
                refs_ok(*root, *def.refs, ref_values@, can_use_old),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
            assert(sabun_values@.dom().contains(ks[n - 1]));
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_list.rs validate_const_list -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub data_vec\.iter\(\)\.enumerate\(\) => numbered(data_vec)
//@ next 0 it
        ensures r is Ok <==> consts_ok(*root, *def, data_vec@, can_use_old),
//@ start
        let ghost ks = data_vec@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant ks == data_vec@, 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> const_ok(*root, *def, #[trigger] ks[i], can_use_old),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_mut_list.rs validate_mut_list -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in map\b => in map.iter()
//@ next 0 it
        ensures r is Ok <==> muts_ok(*root, *def, map@, can_use_old),
//@ start
        let ghost ks = map@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant ks == map@, 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> mut_ok(*root, *def, (#[trigger] ks[i]).1, can_use_old),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
//@ end
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_data.rs validate_table -> r
//@ sub in data_map\b => in data_map.iter()
//@ next 0 it
        ensures r is Ok <==> table_ok(*root, *def, data_map@, old@, can_use_old),
//@ pre 0
        let ghost ks = it@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant it.map() == data_map@, lists_all(ks, data_map@), 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> const_ok(*root, *def, data_map@[#[trigger] ks[i]], can_use_old),
                old_ok(old@, data_map@),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
            assert(data_map@.dom().contains(ks[n - 1]));
//@ end
//@ fn dochy_core/src/imp/json_to_rust/validation/validate_root.rs validate_root -> r
//@ sub? format!\((?:[^()]|\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))*\) => words()
//@ sub in root\.default\(\)\.def\(\) => in root.default().def().iter()
//@ next 0 it
        ensures r is Ok <==> root_ok(*root, can_use_old),
//@ start
        let ghost m = root.default.def@;
        let ghost ks = root.default.def.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant it.map() == m, m == root.default.def@, lists_all(ks, m), 0 <= n <= ks.len(), it@ == ks.skip(n), forall|i: int| 0 <= i < n ==> root_member_ok(*root, #[trigger] ks[i], m[ks[i]].1, can_use_old),
                old_ok(root.old@, m),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                n = n + 1;
            }
            assert(m.dom().contains(ks[n - 1]));
//@ end
}
