#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_unsafe, unreachable_patterns)]
// Unit: data of an old definition under a new one (property 11).
use vstd::prelude::*;
use std::sync::Arc;

verus! {
global size_of usize == 8;

pub mod base {
    use super::*;
//@ include values.inc
    // the table of member numbers is kept as it is
    #[verifier::external_body]
    pub struct MetaTable { x: () }
    pub struct CoreError;
    impl From<String> for CoreError {
        #[verifier::external_body]
        fn from(e: String) -> CoreError { CoreError }
    }
    impl From<&str> for CoreError {
        #[verifier::external_body]
        fn from(e: &str) -> CoreError { CoreError }
    }
    pub type CoreResult<T> = Result<T, CoreError>;
    impl VarType {
//@ fn dochy_core/src/imp/structs/var_type.rs VarType::undefiable -> r
            ensures r == admits(*self, false, true),
//@ end
    }
    impl RustParam {
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::to_undefined -> r
            ensures value_of(r) == (Value { ty: type_of(*self), c: Content::Undefined }),
//@ end
    }
}

pub mod state {
    use super::*;
    use super::base::*;
//@ include state.inc
    // ASSUMED: discharged in unit `list`: going through a list that may be changed hands out every item once, in the order of the list
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct LinkedMapIterMut<'a, V> { x: &'a V }
    impl<'a, V> LinkedMapIterMut<'a, V> {
        pub uninterp spec fn view(&self) -> Seq<(u64, V)>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(&'a u64, &'a mut V)>)
            ensures match r {
                Some((k, v)) => old(self)@.len() > 0 && (*k, *v) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    impl<V> LinkedMap<V> {
        #[verifier::external_body]
        pub fn iter_mut(&mut self) -> (r: LinkedMapIterMut<'_, V>) ensures r@ == old(self)@ { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn construct(items: Vec<(u64, V)>, next_id: u64) -> (r: Self)
            requires distinct(items@),
            ensures r@ == items@, r.next() == next_id,
        { unimplemented!() }
    }

    // ------------------------------------------------------------------ what is left of an item
    pub open spec fn def_of(d: ListDefObj) -> Map<Seq<char>, (usize, ListDefValue)> { d.default.map@ }
    pub open spec fn refs_def(d: ListDefObj) -> Map<Seq<char>, (usize, RefValue)> { d.refs.refs.map@ }
    /// the members that are still there are of the same kind
    pub open spec fn vals_fit(d: ListDefObj, o: Map<Seq<char>, Member>) -> bool
        decreases o
    {
        forall|k: Seq<char>| #[trigger] def_of(d).dom().contains(k) ==> !(def_of(d)[k].1 is CilDef) && (o.dom().contains(k) ==> match (def_of(d)[k].1, o[k]) {
            (ListDefValue::Param(_, _), Member::Param(_)) => true,
            (ListDefValue::MilDef(_), Member::List(None)) => true,
            (ListDefValue::MilDef(m), Member::List(Some(l))) => list_fits(*m.default, l),
            _ => false,
        })
    }
    pub open spec fn list_fits(d: ListDefObj, l: ListS) -> bool
        decreases l
    {
        forall|i: int| 0 <= i < l.items.len() ==> vals_fit(d, (#[trigger] l.items[i]).1.values)
    }
    pub open spec fn unset(v: ListDefValue) -> bool {
        match v { ListDefValue::Param(_, vt) => admits(vt, false, true), ListDefValue::MilDef(m) => m.undefiable, _ => false }
    }
    pub open spec fn undefined(v: ListDefValue) -> Member {
        match v { ListDefValue::Param(p, _) => Member::Param(Value { ty: type_of(p), c: Content::Undefined }), _ => Member::List(None) }
    }
    /// what becomes of the members of an item
    pub open spec fn vals_conv(d: ListDefObj, o: Map<Seq<char>, Member>, n: Map<Seq<char>, Member>) -> bool
        decreases o
    {
        &&& forall|k: Seq<char>| #[trigger] n.dom().contains(k) <==> def_of(d).dom().contains(k) && (o.dom().contains(k) || unset(def_of(d)[k].1))
        &&& forall|k: Seq<char>| #[trigger] n.dom().contains(k) ==> if o.dom().contains(k) {
            match o[k] {
                Member::List(Some(l)) => def_of(d)[k].1 is MilDef && n[k] is List && n[k]->List_0 is Some && list_conv(*def_of(d)[k].1->MilDef_0.default, l, n[k]->List_0->0),
                _ => n[k] == o[k],
            }
        } else { n[k] == undefined(def_of(d)[k].1) }
    }
    /// the same ids in the same order, and the same id to come
    pub open spec fn list_conv(d: ListDefObj, l: ListS, m: ListS) -> bool
        decreases l
    {
        m.next == l.next && m.items.len() == l.items.len() && forall|i: int| 0 <= i < l.items.len() ==> (#[trigger] l.items[i]).0 == m.items[i].0 && vals_conv(d, l.items[i].1.values, m.items[i].1.values) && refs_conv(d, l.items[i].1.refs, m.items[i].1.refs)
    }
    pub open spec fn refs_conv(d: ListDefObj, o: Map<Seq<char>, Id>, n: Map<Seq<char>, Id>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] n.dom().contains(k) <==> refs_def(d).dom().contains(k) && (o.dom().contains(k) || admits(refs_def(d)[k].1.v.value_type, false, true))
        &&& forall|k: Seq<char>| #[trigger] n.dom().contains(k) ==> n[k] == (if o.dom().contains(k) { o[k] } else { Id::Undefined })
    }
    /// what becomes of the root
    pub open spec fn roots_fit(d: Map<Seq<char>, (usize, RootValue)>, o: Map<Seq<char>, Member>) -> bool {
        forall|k: Seq<char>| #[trigger] d.dom().contains(k) && d[k].1 is MList && o.dom().contains(k) && o[k] is List && o[k]->List_0 is Some ==> list_fits(*d[k].1->MList_0.default, o[k]->List_0->0)
    }
    pub open spec fn root_unset(v: RootValue) -> bool {
        match v { RootValue::Param(_, vt) => admits(vt, false, true), RootValue::MList(m) => m.undefiable, _ => false }
    }
    pub open spec fn same_at(a: Map<Seq<char>, Member>, b: Map<Seq<char>, Member>, k: Seq<char>) -> bool { (a.dom().contains(k) <==> b.dom().contains(k)) && (a.dom().contains(k) ==> a[k] == b[k]) }
    /// one member of the root: `was` says whether the old definition had it, `s` is what the new root had, `o` what the old one had
    pub open spec fn root_conv_at(v: RootValue, was: bool, s: Map<Seq<char>, Member>, o: Map<Seq<char>, Member>, n: Map<Seq<char>, Member>, k: Seq<char>) -> bool {
        if root_unset(v) && !was {
            n.dom().contains(k) && n[k] == (match v { RootValue::Param(p, _) => Member::Param(Value { ty: type_of(p), c: Content::Undefined }), _ => Member::List(None) })
        } else {
            match v {
                RootValue::Param(_, _) => if o.dom().contains(k) { n.dom().contains(k) && n[k] == o[k] } else { same_at(n, s, k) },
                RootValue::MList(m) => if o.dom().contains(k) && o[k] is List {
                    match o[k]->List_0 {
                        Some(l) => n.dom().contains(k) && n[k] is List && n[k]->List_0 is Some && list_conv(*m.default, l, n[k]->List_0->0),
                        None => n.dom().contains(k) && n[k] == o[k],
                    }
                } else { same_at(n, s, k) },
                _ => same_at(n, s, k),
            }
        }
    }
    pub open spec fn root_conv(d: Map<Seq<char>, (usize, RootValue)>, od: Map<Seq<char>, (usize, RootValue)>, s: Map<Seq<char>, Member>, o: Map<Seq<char>, Member>, n: Map<Seq<char>, Member>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] d.dom().contains(k) ==> root_conv_at(d[k].1, od.dom().contains(k), s, o, n, k)
        &&& forall|k: Seq<char>| !d.dom().contains(k) ==> #[trigger] same_at(n, s, k)
    }
}

pub mod access {
    use super::*;
    use super::base::*;
    use super::state::*;
    impl ListDefObj {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::refs -> r
            ensures *r == *self.refs,
//@ end
    }
    impl RefDefObj {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefObj::refs -> r
            ensures *r == *self.refs,
//@ end
    }
    impl RefValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::var_type -> r
            ensures r == self.v.value_type,
//@ end
    }
    impl RefSabValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefSabValue::new -> r
            ensures *r.value == value,
//@ end
    }
    impl MutListDef {
//@ fn dochy_core/src/imp/structs/mut_list_def.rs MutListDef::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/mut_list_def.rs MutListDef::undefiable -> r
            ensures r == self.undefiable,
//@ end
    }
    impl MutListVal {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::new -> r
            ensures *r.list == list,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::deconstruct -> r
            ensures r == self.list,
//@ end
    }
    impl MutItem {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::new -> r
            ensures *r.values == values, *r.refs == refs,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::muts -> r
//@ sub Arc::make_mut => make_mut
            ensures *r.0 == *old(self).values, *r.1 == *old(self).refs, *final(self).values == *final(r.0), *final(self).refs == *final(r.1),
//@ end
    }
    impl RootDefObj {
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::def -> r
            ensures *r == self.def,
//@ end
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::contains_key -> r
            ensures r == self.def@.dom().contains(name@),
//@ end
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::deconstruct -> r
            ensures r.0 == self.default, r.1 == self.sabun, r.2 == self.old, r.3 == self.meta_table,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::construct -> r
            ensures r.default == default, r.sabun == sabun, r.old == old, r.meta_table == meta_table,
//@ end
    }
//@ item dochy_core/src/imp/structs/list_def_obj.rs struct ListDefMapIter
//@ sub \bIter<'a, String, => HashIter<'a,
    impl<'a> ListDefMapIter<'a> {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs Iterator for ListDefMapIter::next -> r
//@ sub Self::Item => (&'a String, usize, &'a ListDefValue)
//@ sub \bfn next => pub fn next
            ensures final(self).hash_iter.map() == old(self).hash_iter.map(), match r {
                Some((k, id, v)) => old(self).hash_iter@.len() > 0 && k@ == old(self).hash_iter@[0] && (id, *v) == old(self).hash_iter.map()[k@] && final(self).hash_iter@ == old(self).hash_iter@.skip(1),
                None => old(self).hash_iter@.len() == 0 && final(self).hash_iter@ == old(self).hash_iter@,
            },
//@ end
    }
    impl ListDefMap {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::iter -> r
            ensures r.hash_iter.map() == self.map@, lists_all(r.hash_iter@, self.map@), r.hash_iter@ == self.map.order(),
//@ end
    }
//@ item dochy_core/src/imp/structs/ref_def_obj.rs struct RefDefMapIter
//@ sub \bIter<'a, String, => HashIter<'a,
    impl<'a> RefDefMapIter<'a> {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs Iterator for RefDefMapIter::next -> r
//@ sub Self::Item => (&'a String, usize, &'a RefValue)
//@ sub \bfn next => pub fn next
            ensures final(self).hash_iter.map() == old(self).hash_iter.map(), match r {
                Some((k, id, v)) => old(self).hash_iter@.len() > 0 && k@ == old(self).hash_iter@[0] && (id, *v) == old(self).hash_iter.map()[k@] && final(self).hash_iter@ == old(self).hash_iter@.skip(1),
                None => old(self).hash_iter@.len() == 0 && final(self).hash_iter@ == old(self).hash_iter@,
            },
//@ end
    }
    impl RefDefMap {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefMap::iter -> r
            ensures r.hash_iter.map() == self.map@, lists_all(r.hash_iter@, self.map@), r.hash_iter@ == self.map.order(),
//@ end
    }
}

//@ include valid.inc

pub mod adjust {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::access::*;
    use super::check::*;
    use super::validate::*;
    broadcast use item_of_is;
    pub open spec fn seen(ks: Seq<Seq<char>>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && #[trigger] ks[j] == k }
    /// what has not been taken out
    pub open spec fn still<V>(o: Map<Seq<char>, V>, now: Map<Seq<char>, V>, ks: Seq<Seq<char>>, n: int) -> bool {
        forall|k: Seq<char>| !#[trigger] seen(ks, n, k) ==> (now.dom().contains(k) <==> o.dom().contains(k)) && (o.dom().contains(k) ==> now[k] == o[k])
    }
    pub open spec fn left<V>(o: Map<Seq<char>, V>, now: Map<Seq<char>, V>, ks: Seq<Seq<char>>, n: int) -> bool {
        &&& forall|k: Seq<char>| #[trigger] now.dom().contains(k) <==> o.dom().contains(k) && !seen(ks, n, k)
        &&& forall|k: Seq<char>| #[trigger] now.dom().contains(k) ==> now[k] == o[k]
    }
//@ fn dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs adjust_mut_list_item_ref -> r
//@ sub in def\.refs\(\) => in def.refs().iter()
//@ sub def_key\.to_string\(\) => text_of(def_key)
//@ next 0 it
        ensures r is Ok, forall|d: ListDefObj| *d.refs == *def ==> #[trigger] refs_conv(d, refs_of(old(old_ref)@), refs_of(r->Ok_0@)),
//@ start
        let ghost o = old_ref@;
        let ghost m = def.refs.map@;
        let ghost ks = def.refs.map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                it.hash_iter.map() == m, m == def.refs.map@, lists_all(ks, m), 0 <= n <= ks.len(), it.hash_iter@ == ks.skip(n),
                left(o, old_ref@, ks, n), refs_done(m, o, result@, ks, n),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost r0 = result@;
            let ghost k = ks[n];
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                assert(m.dom().contains(k));
                next_seen(ks, n);
                n = n + 1;
            }
//@ end
    pub open spec fn refs_done(m: Map<Seq<char>, (usize, RefValue)>, o: Map<Seq<char>, RefSabValue>, r: Map<Seq<char>, RefSabValue>, ks: Seq<Seq<char>>, n: int) -> bool {
        &&& forall|k: Seq<char>| #[trigger] r.dom().contains(k) <==> seen(ks, n, k) && (o.dom().contains(k) || admits(m[k].1.v.value_type, false, true))
        &&& forall|k: Seq<char>| #[trigger] r.dom().contains(k) ==> id_of(*r[k].value) == (if o.dom().contains(k) { id_of(*o[k].value) } else { Id::Undefined })
    }
    pub proof fn next_seen(ks: Seq<Seq<char>>, n: int)
        requires 0 <= n < ks.len(), forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j],
        ensures forall|k: Seq<char>| #[trigger] seen(ks, n + 1, k) <==> seen(ks, n, k) || k == ks[n], !seen(ks, n, ks[n]),
    {
        assert forall|k: Seq<char>| #[trigger] seen(ks, n + 1, k) <==> seen(ks, n, k) || k == ks[n] by {
            if seen(ks, n, k) { let j = choose|j: int| 0 <= j < n && #[trigger] ks[j] == k; assert(ks[j] == k); }
            if k == ks[n] { assert(ks[n] == k); }
        }
    }
    pub open spec fn val_done(d: ListDefObj, k: Seq<char>, o: Map<Seq<char>, Member>, x: Member) -> bool {
        if o.dom().contains(k) {
            match o[k] {
                Member::List(Some(l)) => def_of(d)[k].1 is MilDef && x is List && x->List_0 is Some && list_conv(*def_of(d)[k].1->MilDef_0.default, l, x->List_0->0),
                _ => x == o[k],
            }
        } else { x == undefined(def_of(d)[k].1) }
    }
    pub open spec fn vals_done(d: ListDefObj, o: Map<Seq<char>, Member>, r: Map<Seq<char>, Member>, ks: Seq<Seq<char>>, n: int) -> bool {
        &&& forall|k: Seq<char>| #[trigger] r.dom().contains(k) <==> seen(ks, n, k) && (o.dom().contains(k) || unset(def_of(d)[k].1))
        &&& forall|k: Seq<char>| #[trigger] r.dom().contains(k) ==> val_done(d, k, o, r[k])
    }
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs adjust_mut_list_item_sabun -> r
//@ sub in def\.default\(\) => in def.default().iter()
//@ sub def_key\.to_string\(\) => text_of(def_key)
//@ sub Err\(format!\([^;?]*\)\)\? => Err("refused")?
//@ next 0 it
        requires vals_fit(*def, values_of(old(old_sabun)@)),
        ensures r is Ok, vals_conv(*def, values_of(old(old_sabun)@), values_of(r->Ok_0@)),
//@ start
        broadcast use put_value;
        let ghost o = old_sabun@;
        let ghost m = def.default.map@;
        let ghost ks = def.default.map.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                it.hash_iter.map() == m, m == def_of(*def), lists_all(ks, m), 0 <= n <= ks.len(), it.hash_iter@ == ks.skip(n),
                left(o, old_sabun@, ks, n), vals_fit(*def, values_of(o)), vals_done(*def, values_of(o), values_of(result@), ks, n),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost r0 = result@;
            let ghost k = ks[n];
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                assert(m.dom().contains(k));
                assert(def_of(*def).dom().contains(k));
                next_seen(ks, n);
                n = n + 1;
            }
//@ last 0
            proof {
                assert(values_of(result@) == values_of(r0).insert(k, member_of(result@[k])));
                assert(val_done(*def, k, values_of(o), member_of(result@[k])));
            }
//@ end
    pub broadcast proof fn put_value(m: Map<Seq<char>, ListSabValue>, k: Seq<char>, v: ListSabValue)
        ensures #[trigger] values_of(m.insert(k, v)) == values_of(m).insert(k, member_of(v)),
    { assert(values_of(m.insert(k, v)) =~= values_of(m).insert(k, member_of(v))); }
    pub broadcast proof fn put_root(m: Map<Seq<char>, RootSabValue>, k: Seq<char>, v: RootSabValue)
        ensures #[trigger] roots_of(m.insert(k, v)) == roots_of(m).insert(k, root_member_of(v)),
    { assert(roots_of(m.insert(k, v)) =~= roots_of(m).insert(k, root_member_of(v))); }
    pub open spec fn entry_conv(d: ListDefObj, a: (u64, Item), b: (u64, Item)) -> bool {
        a.0 == b.0 && vals_conv(d, a.1.values, b.1.values) && refs_conv(d, a.1.refs, b.1.refs)
    }
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/version_adjuster/adjust_mut_list.rs adjust_mut -> r
//@ sub in old_list\b => in old_list.iter_mut()
//@ next 0 it
        requires list_fits(*def, list_of(*old(old_list))),
        ensures r is Ok, list_conv(*def, list_of(*old(old_list)), list_of(r->Ok_0)),
//@ start
        let ghost l = old_list@;
        let ghost mut n: int = 0;
        proof { old_list.is_distinct(); }
//@ loop 0
            invariant
                0 <= n <= l.len(), it@ == l.skip(n), distinct(l), list_fits(*def, ListS { items: entries_of(l), next: next_id }),
                result@.len() == n, forall|i: int| 0 <= i < n ==> entry_conv(*def, entries_of(l)[i], entries_of(result@)[i]) && (#[trigger] result@[i]).0 == l[i].0,
            ensures n == l.len(),
            decreases l.len() - n,
//@ in 0
            let ghost r0 = result@;
            proof {
                assert(l.skip(n)[0] == l[n] && l.skip(n).skip(1) =~= l.skip(n + 1));
                assert(entries_of(l)[n] == (l[n].0, item_of(l[n].1)));
                let ls = ListS { items: entries_of(l), next: next_id };
                assert(vals_fit(*def, ls.items[n].1.values));
                n = n + 1;
            }
//@ last 0
            proof {
                assert forall|i: int| 0 <= i < n implies entry_conv(*def, entries_of(l)[i], entries_of(result@)[i]) && (#[trigger] result@[i]).0 == l[i].0 by {
                    if i < n - 1 { assert(result@[i] == r0[i]); assert(entries_of(result@)[i] == entries_of(r0)[i]); }
                    else { assert(entries_of(result@)[i] == (result@[i].0, item_of(result@[i].1))); }
                }
            }
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/version_adjuster/adjust_mut_list.rs adjust_mut_list -> r
//@ sub Arc::make_mut => make_mut
        requires list_fits(*def, list_of(*old.list)),
        ensures r is Ok, list_conv(*def, list_of(*old.list), list_of(*r->Ok_0.list)),
//@ end
    pub open spec fn root_done(d: Map<Seq<char>, (usize, RootValue)>, od: Map<Seq<char>, (usize, RootValue)>, s: Map<Seq<char>, Member>, o: Map<Seq<char>, Member>, n: Map<Seq<char>, Member>, ks: Seq<Seq<char>>, i: int) -> bool {
        &&& forall|k: Seq<char>| #[trigger] seen(ks, i, k) ==> root_conv_at(d[k].1, od.dom().contains(k), s, o, n, k)
        &&& forall|k: Seq<char>| !seen(ks, i, k) ==> #[trigger] same_at(n, s, k)
    }
//@ fn dochy_core/src/imp/version_adjuster/version_adjuster.rs adjust_versions -> r
//@ sub in def\.def\(\) => in def.def().iter()
//@ sub Arc::make_mut => make_mut
//@ sub def_key\.to_string\(\) => text_of(def_key)
//@ next 0 it
        requires roots_fit(new.default.def@, roots_of(old.sabun@)),
        ensures
            !validation ==> r is Ok,
            r is Ok ==> {
                &&& root_conv(new.default.def@, old.default.def@, roots_of(new.sabun@), roots_of(old.sabun@), roots_of(r->Ok_0.sabun@))
                &&& r->Ok_0.default == new.default && r->Ok_0.old == new.old && r->Ok_0.meta_table == new.meta_table
                &&& validation ==> root_ok(r->Ok_0, true)
            },
//@ start
        broadcast use put_root;
        let ghost s0 = roots_of(new.sabun@);
        let ghost o0 = old.sabun@;
        let ghost od = old.default.def@;
        let ghost m = new.default.def@;
        let ghost ks = new.default.def.order();
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                it.map() == m, lists_all(ks, m), 0 <= n <= ks.len(), it@ == ks.skip(n), od == old_def.def@,
                still(o0, old_sabun@, ks, n), roots_fit(m, roots_of(o0)), root_done(m, od, s0, roots_of(o0), roots_of(sabun@), ks, n),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost r0 = sabun@;
            let ghost k = ks[n];
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                assert(m.dom().contains(k));
                next_seen(ks, n);
                assert(same_at(roots_of(r0), s0, k));
                n = n + 1;
            }
//@ last 0
            proof {
                assert(root_conv_at(m[k].1, od.dom().contains(k), s0, roots_of(o0), roots_of(sabun@), k));
                assert forall|j: Seq<char>| j != k implies #[trigger] same_at(roots_of(sabun@), roots_of(r0), j) by { }
                assert forall|j: Seq<char>| #[trigger] seen(ks, n, j) implies root_conv_at(m[j].1, od.dom().contains(j), s0, roots_of(o0), roots_of(sabun@), j) by {
                    if j != k { assert(same_at(roots_of(sabun@), roots_of(r0), j)); }
                }
                assert forall|j: Seq<char>| !seen(ks, n, j) implies #[trigger] same_at(roots_of(sabun@), s0, j) by {
                    assert(same_at(roots_of(sabun@), roots_of(r0), j)); assert(same_at(roots_of(r0), s0, j));
                }
            }
//@ post 0
        proof {
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies root_conv_at(m[k].1, od.dom().contains(k), s0, roots_of(o0), roots_of(sabun@), k) by { assert(seen(ks, n, k)); }
            assert forall|k: Seq<char>| !m.dom().contains(k) implies #[trigger] same_at(roots_of(sabun@), s0, k) by { assert(!seen(ks, n, k)); }
        }
//@ end
}
} // verus!
fn main() {}
