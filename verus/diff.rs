#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_unsafe, unreachable_patterns)]
// Unit: the diff between two states and applying it (property 7).
use vstd::prelude::*;
use std::sync::Arc;

verus! {
global size_of usize == 8;

pub mod base {
    use super::*;
//@ include diff.inc
}

/// what a mutable list is, and the parts of the program's objects a diff is about
pub mod state {
    use super::*;
    use super::base::*;
//@ include state.inc

    // ------------------------------------------------------------------ what a diff leads to
    pub open spec fn name_of(m: MetaTable, id: usize) -> Seq<char> { (meta_at(m, id)->0).0 }
    pub open spec fn named<X>(s: Seq<(usize, X)>, m: MetaTable, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && name_of(m, (#[trigger] s[i]).0) == k }
    /// every member number is one of the table, no name comes twice
    pub open spec fn all_named<X>(s: Seq<(usize, X)>, m: MetaTable) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> meta_at(m, (#[trigger] s[i]).0) is Some
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> name_of(m, (#[trigger] s[i]).0) != name_of(m, (#[trigger] s[j]).0)
    }
    /// nothing but the named ones changed
    pub open spec fn rest<X>(f: Map<Seq<char>, X>, t: Map<Seq<char>, X>, ch: spec_fn(Seq<char>) -> bool) -> bool {
        &&& forall|k: Seq<char>| #[trigger] t.dom().contains(k) <==> f.dom().contains(k) || ch(k)
        &&& forall|k: Seq<char>| f.dom().contains(k) && !ch(k) ==> #[trigger] t[k] == f[k]
    }
    pub open spec fn params_lead(d: Seq<(usize, Value)>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        all_named(d, m) && forall|i: int| 0 <= i < d.len() ==> t.dom().contains(name_of(m, (#[trigger] d[i]).0)) && t[name_of(m, d[i].0)] == Member::Param(d[i].1)
    }
    pub open spec fn refs_lead(f: Map<Seq<char>, Id>, d: Seq<(usize, Id)>, t: Map<Seq<char>, Id>, m: MetaTable) -> bool {
        &&& all_named(d, m)
        &&& forall|i: int| 0 <= i < d.len() ==> t.dom().contains(name_of(m, (#[trigger] d[i]).0)) && t[name_of(m, d[i].0)] == d[i].1
        &&& rest(f, t, |k: Seq<char>| named(d, m, k))
    }
    pub open spec fn list_before(f: Map<Seq<char>, Member>, k: Seq<char>) -> ListS {
        if f.dom().contains(k) && f[k] is List && f[k]->List_0 is Some { f[k]->List_0->0 } else { no_list() }
    }
    pub open spec fn opt_leads(f: Map<Seq<char>, Member>, k: Seq<char>, l: Option<ListDiff>, t: Member, m: Option<MetaTables>) -> bool
        decreases l, 2nat, 0int
    {
        match (l, m) {
            (None, Some(_)) => t == Member::List(None),
            (Some(l), Some(m)) => t is List && t->List_0 is Some && list_leads(list_before(f, k), l, t->List_0->0, m),
            _ => false,
        }
    }
    pub open spec fn item_leads(f: Item, d: ItemDiff, t: Item, m: MetaTables) -> bool
        decreases d, 1nat, 0int
    {
        &&& params_lead(d.params, t.values, m.items)
        &&& all_named(d.lists, m.items)
        &&& forall|i: int| 0 <= i < d.lists.len() ==> t.values.dom().contains(name_of(m.items, (#[trigger] d.lists[i]).0)) && opt_leads(f.values, name_of(m.items, d.lists[i].0), d.lists[i].1, t.values[name_of(m.items, d.lists[i].0)], tables_at(m.items, d.lists[i].0))
        &&& rest(f.values, t.values, |k: Seq<char>| named(d.params, m.items, k) || named(d.lists, m.items, k))
        &&& refs_lead(if m.is_enum && d.refs.len() > 0 { Map::empty() } else { f.refs }, d.refs, t.refs, m.refs)
    }
    pub open spec fn list_leads(f: ListS, d: ListDiff, t: ListS, m: MetaTables) -> bool
        decreases d, 1nat, 0int
    {
        t.next == d.next && changes_lead(f.items, d, 0, t.items, m)
    }
    /// from the n-th change on
    pub open spec fn changes_lead(a: Seq<(u64, Item)>, d: ListDiff, n: int, b: Seq<(u64, Item)>, m: MetaTables) -> bool
        decreases d, 0nat, d.items.len() - n
    {
        if n < 0 || n >= d.items.len() { a == b } else {
            exists|c: Seq<(u64, Item)>| #[trigger] mid(c) && step(a, d.items[n].0, d.items[n].1, c, m) && changes_lead(c, d, n + 1, b, m)
        }
    }
    pub open spec fn mid(c: Seq<(u64, Item)>) -> bool { true }
    pub open spec fn step(a: Seq<(u64, Item)>, id: u64, c: Change, b: Seq<(u64, Item)>, m: MetaTables) -> bool
        decreases c, 2nat, 0int
    {
        match c {
            Change::Delete => b == without(a, id),
            Change::Modify(x) => has_id(a, id) && b.len() == a.len() && b == a.update(pos(a, id), (id, b[pos(a, id)].1)) && item_leads(a[pos(a, id)].1, x, b[pos(a, id)].1, m),
            Change::Create(None, x) => !has_id(a, id) && b.len() > 0 && b == seq![(id, b[0].1)] + a && item_leads(no_item(), x, b[0].1, m),
            Change::Create(Some(p), x) => !has_id(a, id) && has_id(a, p) && b.len() == a.len() + 1 && b == a.insert(pos(a, p) + 1, (id, b[pos(a, p) + 1].1)) && item_leads(no_item(), x, b[pos(a, p) + 1].1, m),
        }
    }
}

/// accessors
pub mod access {
    use super::*;
    use super::base::*;
    use super::state::*;
    // TRUSTED: the iterator that takes the elements out of a vector
    #[verifier::external_body]
    #[verifier::accept_recursive_types(X)]
    pub struct Values<X> { x: Vec<X> }
    impl<X> Values<X> {
        pub uninterp spec fn view(&self) -> Seq<X>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<X>)
            ensures match r {
                Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn values_of_vec<X>(v: Vec<X>) -> (r: Values<X>)
        ensures r@ == v@,
    { unimplemented!() }
    impl MutListVal {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::new -> r
            ensures *r.list == list,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::list -> r
            ensures *r == *self.list,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutListVal::list_mut -> r
//@ sub Arc::make_mut => make_mut
            ensures *r == *old(self).list, *final(self).list == *final(r),
//@ end
    }
    impl MutItem {
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::new -> r
            ensures *r.values == values, *r.refs == refs,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::values -> r
            ensures *r == *self.values,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::refs -> r
            ensures *r == *self.refs,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::values_mut -> r
//@ sub Arc::make_mut => make_mut
            ensures *r == *old(self).values, *final(self).values == *final(r), final(self).refs == old(self).refs,
//@ end
//@ fn dochy_core/src/imp/structs/rust_list.rs MutItem::refs_mut -> r
//@ sub Arc::make_mut => make_mut
            ensures *r == *old(self).refs, *final(self).refs == *final(r), final(self).values == old(self).values,
//@ end
    }
    impl RefSabValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefSabValue::new -> r
            ensures *r.value == value,
//@ end
//@ fn dochy_core/src/imp/structs/ref_value.rs RefSabValue::value -> r
            ensures *r == *self.value,
//@ end
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::def_and_mut_sab -> r
//@ sub Arc::make_mut => make_mut
            ensures *r.1 == *old(self).sabun, *final(self).sabun == *final(r.1), *r.2 == *old(self).meta_table, final(self).default == old(self).default, final(self).meta_table == old(self).meta_table,
//@ end
    }
    impl RootDiffR {
//@ fn dochy_diff/src/imp/structs_read.rs RootDiffR::deconstruct -> r
            ensures r.0 == self.params, r.1 == self.lists,
//@ end
    }
    impl ListDiffR {
//@ fn dochy_diff/src/imp/structs_read.rs ListDiffR::deconstruct -> r
            ensures r.0 == self.next_id, r.1 == self.items,
//@ end
    }
    impl ListItemDiffR {
//@ fn dochy_diff/src/imp/structs_read.rs ListItemDiffR::deconstruct -> r
            ensures r.0 == self.params, r.1 == self.lists, r.2 == self.refs,
//@ end
    }
}

pub mod apply {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::access::*;
    broadcast use item_of_is;
    /// those named are as in the target, the others as before
    pub open spec fn after<X>(f: Map<Seq<char>, X>, g: Map<Seq<char>, X>, t: Map<Seq<char>, X>, ch: spec_fn(Seq<char>) -> bool) -> bool {
        &&& forall|k: Seq<char>| #[trigger] g.dom().contains(k) <==> f.dom().contains(k) || ch(k)
        &&& forall|k: Seq<char>| g.dom().contains(k) ==> #[trigger] g[k] == (if ch(k) { t[k] } else { f[k] })
    }
    pub broadcast proof fn put_value(m: Map<Seq<char>, ListSabValue>, k: Seq<char>, v: ListSabValue)
        ensures #[trigger] values_of(m.insert(k, v)) == values_of(m).insert(k, member_of(v)),
    { assert(values_of(m.insert(k, v)) =~= values_of(m).insert(k, member_of(v))); }
    pub broadcast proof fn put_ref(m: Map<Seq<char>, RefSabValue>, k: Seq<char>, v: RefSabValue)
        ensures #[trigger] refs_of(m.insert(k, v)) == refs_of(m).insert(k, id_of(*v.value)),
    { assert(refs_of(m.insert(k, v)) =~= refs_of(m).insert(k, id_of(*v.value))); }
    pub broadcast proof fn put_root(m: Map<Seq<char>, RootSabValue>, k: Seq<char>, v: RootSabValue)
        ensures #[trigger] roots_of(m.insert(k, v)) == roots_of(m).insert(k, root_member_of(v)),
    { assert(roots_of(m.insert(k, v)) =~= roots_of(m).insert(k, root_member_of(v))); }
    pub proof fn named_next<X>(s: Seq<(usize, X)>, m: MetaTable, n: int)
        requires 0 <= n < s.len(),
        ensures forall|k: Seq<char>| #[trigger] named(s.take(n + 1), m, k) <==> named(s.take(n), m, k) || k == name_of(m, s[n].0),
    {
        let a = s.take(n);
        let b = s.take(n + 1);
        assert forall|k: Seq<char>| #[trigger] named(b, m, k) <==> named(a, m, k) || k == name_of(m, s[n].0) by {
            if named(a, m, k) { let i = choose|i: int| 0 <= i < a.len() && name_of(m, (#[trigger] a[i]).0) == k; assert(b[i] == a[i]); }
            if k == name_of(m, s[n].0) { assert(b[n] == s[n]); }
            if named(b, m, k) { let i = choose|i: int| 0 <= i < b.len() && name_of(m, (#[trigger] b[i]).0) == k; if i < n { assert(a[i] == b[i]); } }
        }
    }
    pub open spec fn among<X>(s: Seq<(usize, X)>, m: MetaTable) -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| named(s, m, k) }
    pub proof fn after_next<X, Y>(f: Map<Seq<char>, Y>, g: Map<Seq<char>, Y>, t: Map<Seq<char>, Y>, s: Seq<(usize, X)>, m: MetaTable, n: int)
        requires 0 <= n < s.len(), after(f, g, t, among(s.take(n), m)),
        ensures after(f, g.insert(name_of(m, s[n].0), t[name_of(m, s[n].0)]), t, among(s.take(n + 1), m)),
    {
        let h = g.insert(name_of(m, s[n].0), t[name_of(m, s[n].0)]);
        named_next(s, m, n);
        let b = among(s.take(n + 1), m);
        let a = among(s.take(n), m);
        assert forall|k: Seq<char>| #[trigger] h.dom().contains(k) <==> f.dom().contains(k) || b(k) by {
            assert(b(k) == named(s.take(n + 1), m, k) && a(k) == named(s.take(n), m, k));
            assert(g.dom().contains(k) <==> f.dom().contains(k) || a(k));
        }
        assert forall|k: Seq<char>| h.dom().contains(k) implies #[trigger] h[k] == (if b(k) { t[k] } else { f[k] }) by {
            assert(b(k) == named(s.take(n + 1), m, k) && a(k) == named(s.take(n), m, k));
            if k != name_of(m, s[n].0) { assert(g.dom().contains(k)); assert(g[k] == (if a(k) { t[k] } else { f[k] })); }
        }
    }
//@ fn dochy_diff/src/imp/apply/apply_params.rs apply_params -> res
//@ param Ghost(d): Ghost<Seq<(usize, Value)>>, Ghost(t): Ghost<Map<Seq<char>, Member>>
//@ sub in params\b => in values_of_vec(params)
//@ sub key\.to_string\(\) => text_of(key)
//@ next 0 it
        requires params_r(params@, d), params_lead(d, t, *meta),
        ensures res is Ok, after(values_of(old(r)@), values_of(final(r)@), t, among(d, *meta)),
//@ start
        let ghost ps = params@;
        let ghost f = values_of(r@);
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                params_r(ps, d), params_lead(d, t, *meta), 0 <= n <= ps.len(), it@ == ps.skip(n),
                after(f, values_of(r@), t, among(d.take(n), *meta)),
            ensures n == ps.len(),
            decreases ps.len() - n,
//@ in 0
            proof {
                assert(ps.skip(n)[0] == ps[n] && ps.skip(n).skip(1) =~= ps.skip(n + 1));
                after_next(f, values_of(r@), t, d, *meta, n);
                assert(t[name_of(*meta, d[n].0)] == Member::Param(d[n].1));
                n = n + 1;
            }
            let ghost r0 = r@;
//@ last 0
            proof { put_value(r0, name_of(*meta, d[n - 1].0), ListSabValue::Param(ps[n - 1].1)); }
//@ post 0
        proof { assert(d.take(n) =~= d); }
//@ end
//@ fn dochy_diff/src/imp/apply/apply_refs.rs apply_refs -> res
//@ param Ghost(d): Ghost<Seq<(usize, Id)>>, Ghost(t): Ghost<Map<Seq<char>, Id>>
//@ sub in refs\b => in values_of_vec(refs)
//@ sub key\.to_string\(\) => text_of(key)
//@ next 0 it
        requires refs_r(refs@, d), refs_lead(refs_of(old(r)@), d, t, *meta),
        ensures res is Ok, refs_of(final(r)@) == t,
//@ start
        let ghost ps = refs@;
        let ghost f = refs_of(r@);
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                refs_r(ps, d), refs_lead(f, d, t, *meta), 0 <= n <= ps.len(), it@ == ps.skip(n),
                after(f, refs_of(r@), t, among(d.take(n), *meta)),
            ensures n == ps.len(),
            decreases ps.len() - n,
//@ in 0
            proof {
                assert(ps.skip(n)[0] == ps[n] && ps.skip(n).skip(1) =~= ps.skip(n + 1));
                after_next(f, refs_of(r@), t, d, *meta, n);
                assert(t[name_of(*meta, d[n].0)] == d[n].1);
                n = n + 1;
            }
            let ghost r0 = r@;
//@ last 0
            proof { put_ref(r0, name_of(*meta, d[n - 1].0), r@[name_of(*meta, d[n - 1].0)]); }
//@ post 0
        proof { assert(d.take(n) =~= d); assert(refs_of(r@) =~= t); }
//@ end
    // ------------------------------------------------------------------ lists
    pub proof fn at_pos<V>(l: Seq<(u64, V)>, i: int)
        requires distinct(l), 0 <= i < l.len(),
        ensures has_id(l, l[i].0), pos(l, l[i].0) == i,
    {
        let p = pos(l, l[i].0);
        assert(has_id(l, l[i].0));
        assert(0 <= p < l.len() && l[p].0 == l[i].0);
        if p < i { assert(l[p].0 != l[i].0); }
        if i < p { assert(l[i].0 != l[p].0); }
    }
    pub proof fn same_places(l: Seq<(u64, MutItem)>, id: u64)
        requires distinct(l),
        ensures
            entries_of(l).len() == l.len(), distinct(entries_of(l)),
            has_id(l, id) == has_id(entries_of(l), id),
            has_id(l, id) ==> pos(entries_of(l), id) == pos(l, id) && 0 <= pos(l, id) < l.len() && l[pos(l, id)].0 == id && entries_of(l)[pos(l, id)].1 == item_of(l[pos(l, id)].1),
    {
        let e = entries_of(l);
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by { assert(l[i].0 != l[j].0); }
        if has_id(l, id) { let p = pos(l, id); assert(e[p].0 == id); at_pos(l, p); at_pos(e, p); }
        if has_id(e, id) { let p = pos(e, id); assert(l[p].0 == id); at_pos(l, p); at_pos(e, p); }
    }
    pub proof fn removed(l: Seq<(u64, MutItem)>, id: u64)
        requires distinct(l),
        ensures entries_of(without(l, id)) == without(entries_of(l), id),
    {
        same_places(l, id);
        assert(entries_of(without(l, id)) =~= without(entries_of(l), id));
    }
    pub proof fn changed(l: Seq<(u64, MutItem)>, id: u64, v: MutItem)
        requires distinct(l), has_id(l, id),
        ensures entries_of(l.update(pos(l, id), (id, v))) == entries_of(l).update(pos(entries_of(l), id), (id, item_of(v))),
    {
        same_places(l, id);
        assert(entries_of(l.update(pos(l, id), (id, v))) =~= entries_of(l).update(pos(entries_of(l), id), (id, item_of(v))));
    }
    pub proof fn put_first(l: Seq<(u64, MutItem)>, id: u64, v: MutItem)
        requires distinct(l), !has_id(l, id),
        ensures
            entries_of(seq![(id, v)] + l) == seq![(id, item_of(v))] + entries_of(l),
            distinct(seq![(id, v)] + l), has_id(seq![(id, v)] + l, id), pos(seq![(id, v)] + l, id) == 0, without(seq![(id, v)] + l, id) == l,
    {
        let a = seq![(id, v)] + l;
        assert(entries_of(a) =~= seq![(id, item_of(v))] + entries_of(l));
        assert(a[0].0 == id);
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by {
            if i == 0 { assert(l[j - 1].0 == a[j].0); } else { assert(l[i - 1].0 != l[j - 1].0); }
        }
        at_pos(a, 0);
        assert(without(a, id) =~= l);
    }
    pub proof fn put_next(l: Seq<(u64, MutItem)>, id: u64, v: MutItem, p: u64)
        requires distinct(l), !has_id(l, id), has_id(l, p),
        ensures
            p != id, has_id(seq![(id, v)] + l, p), pos(entries_of(l), p) == pos(l, p), 0 <= pos(l, p) < l.len(),
            entries_of(l.insert(pos(l, p) + 1, (id, v))) == entries_of(l).insert(pos(l, p) + 1, (id, item_of(v))),
    {
        same_places(l, p);
        let a = seq![(id, v)] + l;
        assert(a[pos(l, p) + 1].0 == p);
        assert(entries_of(l.insert(pos(l, p) + 1, (id, v))) =~= entries_of(l).insert(pos(l, p) + 1, (id, item_of(v))));
    }
    pub proof fn first_step(a: Seq<(u64, Item)>, d: ListDiff, n: int, b: Seq<(u64, Item)>, m: MetaTables) -> (c: Seq<(u64, Item)>)
        requires changes_lead(a, d, n, b, m), 0 <= n < d.items.len(),
        ensures step(a, d.items[n].0, d.items[n].1, c, m), changes_lead(c, d, n + 1, b, m),
    {
        choose|c: Seq<(u64, Item)>| #[trigger] mid(c) && step(a, d.items[n].0, d.items[n].1, c, m) && changes_lead(c, d, n + 1, b, m)
    }
    pub open spec fn lists_lead(f: Map<Seq<char>, Member>, d: ItemDiff, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        &&& all_named(d.lists, m)
        &&& forall|i: int| 0 <= i < d.lists.len() ==> t.dom().contains(name_of(m, (#[trigger] d.lists[i]).0)) && opt_leads(f, name_of(m, d.lists[i].0), d.lists[i].1, t[name_of(m, d.lists[i].0)], tables_at(m, d.lists[i].0))
    }
//@ fn dochy_diff/src/imp/apply/apply_list_diff.rs apply_list_diff -> res
//@ param Ghost(d): Ghost<ListDiff>, Ghost(t): Ghost<ListS>
//@ sub in vec\b => in values_of_vec(vec)
//@ sub Err\(format!\([^;?]*\)\)\? => Err("prev_id was not found")?
//@ next 0 it
//@ pass new_item_from_diff Ghost(d.items[n].1->Create_1), Ghost(fresh(entries_of(l0), d.items[n].1, c))
//@ pass modify_item_from_diff Ghost(d.items[n].1->Modify_0), Ghost(c[pos(entries_of(l0), id)].1)
        requires list_r(diff, d), list_leads(list_of(*old(list)), d, t, *meta),
        ensures res is Ok, list_of(*final(list)) == t,
        decreases d, 1nat,
//@ start
        let ghost ds = diff.items@;
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                ds.len() == d.items.len(), forall|i: int| 0 <= i < d.items.len() ==> (#[trigger] ds[i]).0 == d.items[i].0 && change_r(ds[i].1, d.items[i].1),
                0 <= n <= ds.len(), it@ == ds.skip(n), list.next() == t.next,
                changes_lead(entries_of(list@), d, n, t.items, *meta),
            ensures n == ds.len(),
            decreases ds.len() - n,
//@ in 0
            let ghost l0 = list@;
            let ghost c: Seq<(u64, Item)>;
            proof {
                c = first_step(entries_of(l0), d, n, t.items, *meta);
                assert(ds.skip(n)[0] == ds[n] && ds.skip(n).skip(1) =~= ds.skip(n + 1));
                list.is_distinct();
                same_places(l0, id);
                removed(l0, id);
                assert(decreases_to!(d => d.items[n]));
                match d.items[n].1 {
                    Change::Create(p, x) => {
                        if p is Some { same_places(l0, p->0); }
                        assert forall|v: MutItem| has_id(#[trigger] (seq![(id, v)] + l0), id) && pos(seq![(id, v)] + l0, id) == 0 && without(seq![(id, v)] + l0, id) == l0 && (p is Some ==> p->0 != id && has_id(seq![(id, v)] + l0, p->0)) by {
                            put_first(l0, id, v);
                            if p is Some { put_next(l0, id, v, p->0); }
                        }
                    },
                    _ => {},
                }
            }
//@ last 0
            proof {
                match d.items[n].1 {
                    Change::Create(p, x) => {
                        let v = made(l0, list@, p);
                        put_first(l0, id, v);
                        if p is Some {
                            put_next(l0, id, v, p->0);
                            assert(list@ =~= l0.insert(pos(l0, p->0) + 1, (id, v)));
                            assert(entries_of(list@) == c);
                        } else {
                            assert(list@ =~= seq![(id, v)] + l0);
                            assert(entries_of(list@) == c);
                        }
                    },
                    Change::Modify(x) => {
                        changed(l0, id, list@[pos(l0, id)].1);
                        assert(list@ =~= l0.update(pos(l0, id), (id, list@[pos(l0, id)].1)));
                        assert(entries_of(list@) == c);
                    },
                    Change::Delete => {
                        assert(list@ == without(l0, id));
                        assert(entries_of(list@) == c);
                    },
                }
                n = n + 1;
            }
//@ end
    pub open spec fn fresh(a: Seq<(u64, Item)>, x: Change, c: Seq<(u64, Item)>) -> Item {
        if x->Create_0 is Some { c[pos(a, x->Create_0->0) + 1].1 } else { c[0].1 }
    }
    pub open spec fn made(a: Seq<(u64, MutItem)>, l: Seq<(u64, MutItem)>, p: Option<u64>) -> MutItem {
        if p is Some { l[pos(a, p->0) + 1].1 } else { l[0].1 }
    }
//@ fn dochy_diff/src/imp/apply/diff_to_new_list.rs diff_to_new_list -> res
//@ param Ghost(d): Ghost<ListDiff>, Ghost(t): Ghost<ListS>
//@ pass apply_list_diff Ghost(d), Ghost(t)
        requires list_r(diff, d), list_leads(no_list(), d, t, *meta),
        ensures res is Ok, list_of(*res->Ok_0.list) == t,
        decreases d, 2nat,
//@ start
        proof { assert(entries_of(Seq::empty()) =~= Seq::empty()); }
//@ end
//@ fn dochy_diff/src/imp/apply/apply_lists.rs apply_lists -> res
//@ param Ghost(d): Ghost<ItemDiff>, Ghost(t): Ghost<Map<Seq<char>, Member>>
//@ sub in lists\b => in values_of_vec(lists)
//@ sub key\.to_string\(\) => text_of(key)
//@ next 0 it
//@ pass apply_list_diff Ghost(d.lists[n].1->0), Ghost(t[name_of(*meta, id)]->List_0->0)
//@ pass diff_to_new_list Ghost(d.lists[n].1->0), Ghost(t[name_of(*meta, id)]->List_0->0)
        requires lists_r(lists@, d.lists), lists_lead(values_of(old(r)@), d, t, *meta),
        ensures res is Ok, after(values_of(old(r)@), values_of(final(r)@), t, among(d.lists, *meta)),
        decreases d, 1nat,
//@ start
        let ghost ps = lists@;
        let ghost f = values_of(r@);
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                lists_r(ps, d.lists), lists_lead(f, d, t, *meta), 0 <= n <= ps.len(), it@ == ps.skip(n),
                after(f, values_of(r@), t, among(d.lists.take(n), *meta)),
            ensures n == ps.len(),
            decreases ps.len() - n,
//@ in 0
            let ghost r0 = r@;
            proof {
                assert(ps.skip(n)[0] == ps[n] && ps.skip(n).skip(1) =~= ps.skip(n + 1));
                after_next(f, values_of(r@), t, d.lists, *meta, n);
                let k = name_of(*meta, id);
                assert(opt_leads(f, k, d.lists[n].1, t[k], tables_at(*meta, id)));
                assert(opt_r(ps[n].1, d.lists[n].1));
                assert(decreases_to!(d => d.lists[n]));
                assert(!among(d.lists.take(n), *meta)(k)) by {
                    if named(d.lists.take(n), *meta, k) {
                        let i = choose|i: int| 0 <= i < d.lists.take(n).len() && name_of(*meta, (#[trigger] d.lists.take(n)[i]).0) == k;
                        assert(d.lists[i] == d.lists.take(n)[i]);
                    }
                }
                assert(list_before(values_of(r0), k) == list_before(f, k));
                assert(values_of(r0).dom() =~= r0.dom());
            }
//@ last 0
            proof {
                let k = name_of(*meta, id);
                put_value(r0, k, r@[k]);
                assert(r@ =~= r0.insert(k, r@[k]));
                assert(member_of(r@[k]) == t[k]);
                n = n + 1;
            }
//@ post 0
        proof { assert(d.lists.take(n) =~= d.lists); }
//@ end
    pub proof fn arrived(f: Map<Seq<char>, Member>, g: Map<Seq<char>, Member>, h: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, d: ItemDiff, m: MetaTable)
        requires after(f, g, t, among(d.params, m)), after(g, h, t, among(d.lists, m)), rest(f, t, |k: Seq<char>| named(d.params, m, k) || named(d.lists, m, k)),
        ensures h == t,
    {
        let both = |k: Seq<char>| named(d.params, m, k) || named(d.lists, m, k);
        let p = among(d.params, m);
        let l = among(d.lists, m);
        assert forall|k: Seq<char>| #[trigger] both(k) <==> p(k) || l(k) by { }
        assert forall|k: Seq<char>| #[trigger] h.dom().contains(k) <==> t.dom().contains(k) by {
            assert(h.dom().contains(k) <==> g.dom().contains(k) || l(k));
            assert(g.dom().contains(k) <==> f.dom().contains(k) || p(k));
            assert(both(k) <==> p(k) || l(k));
        }
        assert forall|k: Seq<char>| h.dom().contains(k) implies #[trigger] h[k] == t[k] by {
            assert(h.dom().contains(k) <==> g.dom().contains(k) || l(k));
            assert(g.dom().contains(k) <==> f.dom().contains(k) || p(k));
            assert(both(k) <==> p(k) || l(k));
            if !l(k) { assert(g.dom().contains(k)); assert(h[k] == g[k]); if !p(k) { assert(g[k] == f[k]); } }
        }
        assert(h =~= t);
    }
    /// the lists still are what they were
    pub proof fn untouched(f: Map<Seq<char>, Member>, g: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, d: ItemDiff, m: MetaTable)
        requires after(f, g, t, among(d.params, m)), lists_lead(f, d, t, m), params_lead(d.params, t, m),
        ensures lists_lead(g, d, t, m),
    {
        assert forall|i: int| 0 <= i < d.lists.len() implies opt_leads(g, name_of(m, (#[trigger] d.lists[i]).0), d.lists[i].1, t[name_of(m, d.lists[i].0)], tables_at(m, d.lists[i].0)) by {
            let k = name_of(m, d.lists[i].0);
            assert(opt_leads(f, k, d.lists[i].1, t[k], tables_at(m, d.lists[i].0)));
            let p = among(d.params, m);
            if p(k) {
                let j = choose|j: int| 0 <= j < d.params.len() && name_of(m, (#[trigger] d.params[j]).0) == k;
                assert(t[k] is Param);
            }
            assert(g.dom().contains(k) <==> f.dom().contains(k) || p(k));
            assert(list_before(g, k) == list_before(f, k));
        }
    }
//@ fn dochy_diff/src/imp/apply/new_item_from_diff.rs new_item_from_diff -> res
//@ param Ghost(d): Ghost<ItemDiff>, Ghost(t): Ghost<Item>
//@ pass apply_params Ghost(d.params), Ghost(t.values)
//@ pass apply_lists Ghost(d), Ghost(t.values)
//@ pass apply_refs Ghost(d.refs), Ghost(t.refs)
        requires item_r(diff, d), item_leads(no_item(), d, t, *meta),
        ensures res is Ok, item_of(res->Ok_0) == t,
        decreases d, 2nat,
//@ after apply_params\([^;]*;
        let ghost g = values_of(values@);
        proof {
            assert(values_of(Map::empty()) =~= Map::empty() && refs_of(Map::empty()) =~= Map::empty());
            untouched(Map::empty(), g, t.values, d, meta.items);
        }
//@ after apply_lists\([^;]*;
        proof { arrived(Map::empty(), g, values_of(values@), t.values, d, meta.items); }
//@ end
//@ fn dochy_diff/src/imp/apply/modify_item_from_diff.rs modify_item_from_diff -> res
//@ param Ghost(d): Ghost<ItemDiff>, Ghost(t): Ghost<Item>
//@ pass apply_params Ghost(d.params), Ghost(t.values)
//@ pass apply_lists Ghost(d), Ghost(t.values)
//@ pass apply_refs Ghost(d.refs), Ghost(t.refs)
        requires item_r(diff, d), item_leads(item_of(*old(item)), d, t, *meta),
        ensures res is Ok, item_of(*final(item)) == t,
        decreases d, 2nat,
//@ start
        let ghost f = values_of(item.values@);
//@ after apply_params\([^;]*;
        let ghost g = values_of(values@);
        proof {
            assert(refs_of(Map::empty()) =~= Map::empty());
            untouched(f, g, t.values, d, meta.items);
        }
//@ after apply_lists\([^;]*;
        proof { arrived(f, g, values_of(values@), t.values, d, meta.items); }
//@ end
    pub open spec fn table_of(r: RootObject) -> MetaTable { *r.meta_table }
    pub open spec fn root_leads(f: Map<Seq<char>, Member>, d: ItemDiff, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        &&& params_lead(d.params, t, m)
        &&& lists_lead(f, d, t, m)
        &&& forall|i: int| 0 <= i < d.lists.len() ==> f.dom().contains(name_of(m, (#[trigger] d.lists[i]).0)) && f[name_of(m, d.lists[i].0)] is List
        &&& rest(f, t, |k: Seq<char>| named(d.params, m, k) || named(d.lists, m, k))
    }
//@ fn dochy_diff/src/imp/apply/apply_root_diff.rs apply_root_diff -> res
//@ param Ghost(d): Ghost<ItemDiff>, Ghost(t): Ghost<Map<Seq<char>, Member>>
//@ sub in params\b => in values_of_vec(params)
//@ sub in lists\b => in values_of_vec(lists)
//@ sub key\.to_string\(\) => text_of(key)
//@ next 0 it
//@ next 1 it
//@ pass apply_list_diff Ghost(d.lists[n].1->0), Ghost(t[name_of(*meta, id)]->List_0->0)
//@ pass diff_to_new_list Ghost(d.lists[n].1->0), Ghost(t[name_of(*meta, id)]->List_0->0)
        requires params_r(diff.params@, d.params), lists_r(diff.lists@, d.lists), root_leads(roots_of(old(root).sabun@), d, t, *old(root).meta_table),
        ensures res is Ok, roots_of(final(root).sabun@) == t, final(root).default == old(root).default, final(root).meta_table == old(root).meta_table,
//@ start
        let ghost ps = diff.params@;
        let ghost ls = diff.lists@;
        let ghost f = roots_of(root.sabun@);
        let ghost m = table_of(*root);
        let ghost mut n: int = 0;
//@ loop 0
            invariant
                params_r(ps, d.params), params_lead(d.params, t, m), 0 <= n <= ps.len(), it@ == ps.skip(n), *meta == m,
                after(f, roots_of(sabun@), t, among(d.params.take(n), m)),
            ensures n == ps.len(),
            decreases ps.len() - n,
//@ in 0
            proof {
                assert(ps.skip(n)[0] == ps[n] && ps.skip(n).skip(1) =~= ps.skip(n + 1));
                after_next(f, roots_of(sabun@), t, d.params, m, n);
                assert(t[name_of(m, d.params[n].0)] == Member::Param(d.params[n].1));
                n = n + 1;
            }
            let ghost r0 = sabun@;
//@ last 0
            proof { put_root(r0, name_of(m, d.params[n - 1].0), RootSabValue::Param(ps[n - 1].1)); }
//@ post 0
        let ghost g = roots_of(sabun@);
        proof {
            assert(d.params.take(n) =~= d.params);
            untouched(f, g, t, d, m);
            n = 0;
        }
//@ loop 1
            invariant
                lists_r(ls, d.lists), lists_lead(g, d, t, m), root_leads(f, d, t, m), 0 <= n <= ls.len(), it@ == ls.skip(n), *meta == m,
                after(g, roots_of(sabun@), t, among(d.lists.take(n), m)), after(f, g, t, among(d.params, m)),
            ensures n == ls.len(),
            decreases ls.len() - n,
//@ in 1
            let ghost r0 = sabun@;
            proof {
                assert(ls.skip(n)[0] == ls[n] && ls.skip(n).skip(1) =~= ls.skip(n + 1));
                after_next(g, roots_of(sabun@), t, d.lists, m, n);
                let k = name_of(m, id);
                assert(opt_leads(g, k, d.lists[n].1, t[k], tables_at(m, id)));
                assert(opt_r(ls[n].1, d.lists[n].1));
                assert(!among(d.lists.take(n), m)(k)) by {
                    if named(d.lists.take(n), m, k) {
                        let i = choose|i: int| 0 <= i < d.lists.take(n).len() && name_of(m, (#[trigger] d.lists.take(n)[i]).0) == k;
                        assert(d.lists[i] == d.lists.take(n)[i]);
                    }
                }
                let p = among(d.params, m);
                if p(k) {
                    let j = choose|j: int| 0 <= j < d.params.len() && name_of(m, (#[trigger] d.params[j]).0) == k;
                    assert(t[k] is Param);
                }
                assert(f.dom().contains(k) && f[k] is List);
                assert(g.dom().contains(k) && g[k] == f[k]);
                assert(roots_of(r0).dom().contains(k) && roots_of(r0)[k] == g[k]);
                assert(list_before(roots_of(r0), k) == list_before(g, k));
                assert(roots_of(r0).dom() =~= r0.dom());
            }
//@ last 1
            proof {
                let k = name_of(m, id);
                put_root(r0, k, sabun@[k]);
                assert(sabun@ =~= r0.insert(k, sabun@[k]));
                assert(root_member_of(sabun@[k]) == t[k]);
                n = n + 1;
            }
//@ post 1
        proof {
            assert(d.lists.take(n) =~= d.lists);
            arrived(f, g, roots_of(sabun@), t, d, m);
        }
//@ end
}

/// whether two values are the same
pub mod same {
    use super::*;
    use super::base::*;
    // TRUSTED: to_bits tells floats apart
    pub uninterp spec fn bits_of(f: f64) -> u64;
    #[verifier::external_body]
    pub broadcast proof fn bits_tell(a: f64, b: f64)
        requires #[trigger] bits_of(a) == #[trigger] bits_of(b),
        ensures a == b,
    { }
    #[verifier::external_body]
    pub fn to_bits(f: &f64) -> (r: u64)
        ensures r == bits_of(*f),
    { unimplemented!() }
    // TRUSTED: one Arc is one value
    #[verifier::external_body]
    pub fn ptr_eq<T>(a: &Arc<T>, b: &Arc<T>) -> (r: bool)
        ensures r ==> **a == **b,
    { unimplemented!() }
    /// what `a.iter().zip(b.iter()).all(|(l, r)| l.identity_eq(r))` does
    pub fn all_same(a: &Vec<f64>, b: &Vec<f64>) -> (r: bool)
        ensures r ==> forall|i: int| 0 <= i < a@.len() && i < b@.len() ==> a@[i] == b@[i],
    {
        let mut i = 0;
        while i < a.len() && i < b.len()
            invariant 0 <= i <= a@.len(), i <= b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j],
            decreases a@.len() - i,
        {
            if !a[i].identity_eq(&b[i]) { return false; }
            i += 1;
        }
        true
    }
    pub trait IdentityEqual {
        spec fn same(&self, other: &Self) -> bool;
        fn identity_eq(&self, other: &Self) -> (r: bool)
            ensures r ==> self.same(other);
    }
    impl IdentityEqual for bool {
        open spec fn same(&self, other: &Self) -> bool { *self == *other }
//@ fn dochy_core/src/imp/structs/util/identity_equal_trait.rs IdentityEqual for bool::identity_eq -> r
//@ end
    }
    impl IdentityEqual for i64 {
        open spec fn same(&self, other: &Self) -> bool { *self == *other }
//@ fn dochy_core/src/imp/structs/util/identity_equal_trait.rs IdentityEqual for i64::identity_eq -> r
//@ end
    }
    impl IdentityEqual for f64 {
        open spec fn same(&self, other: &Self) -> bool { *self == *other }
//@ fn dochy_core/src/imp/structs/util/identity_equal_trait.rs IdentityEqual for f64::identity_eq -> r
//@ sub (\w+)\.to_bits\(\) => to_bits(\1)
//@ start
        broadcast use bits_tell;
//@ end
    }
    impl IdentityEqual for RustString {
        open spec fn same(&self, other: &Self) -> bool { self.str@ == other.str@ }
//@ fn dochy_core/src/imp/structs/rust_string.rs IdentityEqual for RustString::identity_eq -> r
//@ sub Arc::ptr_eq => ptr_eq
//@ end
    }
    impl IdentityEqual for RustIntArray {
        open spec fn same(&self, other: &Self) -> bool { self.b@ == other.b@ }
//@ fn dochy_core/src/imp/structs/rust_array.rs IdentityEqual for RustIntArray::identity_eq -> r
//@ sub Arc::ptr_eq => ptr_eq
//@ end
    }
    impl IdentityEqual for RustBinary {
        open spec fn same(&self, other: &Self) -> bool { self.b@ == other.b@ }
//@ fn dochy_core/src/imp/structs/rust_array.rs IdentityEqual for RustBinary::identity_eq -> r
//@ sub Arc::ptr_eq => ptr_eq
//@ end
    }
    impl IdentityEqual for RustFloatArray {
        open spec fn same(&self, other: &Self) -> bool { self.b@ =~= other.b@ }
//@ fn dochy_core/src/imp/structs/rust_array.rs IdentityEqual for RustFloatArray::identity_eq -> r
//@ sub self\.b\.iter\(\)\.zip\(other\.b\.iter\(\)\)\.all\(\|\(l, r\)\| l\.identity_eq\(r\)\) => all_same(&self.b, &other.b)
//@ end
    }
    impl<T: IdentityEqual> IdentityEqual for Qv<T> {
        open spec fn same(&self, other: &Self) -> bool {
            match (*self, *other) { (Qv::Val(a), Qv::Val(b)) => a.same(&b), (Qv::Null, Qv::Null) => true, (Qv::Undefined, Qv::Undefined) => true, _ => false }
        }
//@ fn dochy_core/src/imp/structs/qv.rs IdentityEqual for Qv::identity_eq -> r
//@ end
    }
    impl IdentityEqual for RustParam {
        open spec fn same(&self, other: &Self) -> bool { value_of(*self) == value_of(*other) }
//@ fn dochy_core/src/imp/structs/rust_param.rs IdentityEqual for RustParam::identity_eq -> r
//@ end
    }
}

/// states of one definition, and the diff between two of them
pub mod prepare {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::access::*;
    use super::same::*;
    use super::apply::{at_pos, same_places, lists_lead, first_step, root_leads, table_of};
    // ------------------------------------------------------------------ the definition of an item and its table of numbers
    pub open spec fn members(def: ListDefObj) -> Map<Seq<char>, (usize, ListDefValue)> { def.default.map@ }
    pub open spec fn ref_members(def: ListDefObj) -> Map<Seq<char>, (usize, RefValue)> { def.refs.refs.map@ }
    pub open spec fn ids_of(def: Map<Seq<char>, (usize, ListDefValue)>) -> Map<Seq<char>, usize> { def.map_values(|v: (usize, ListDefValue)| v.0) }
    pub open spec fn ref_ids_of(def: Map<Seq<char>, (usize, RefValue)>) -> Map<Seq<char>, usize> { def.map_values(|v: (usize, RefValue)| v.0) }
    pub open spec fn def_match(k: Seq<char>, id: usize, v: ListDefValue, m: MetaTable) -> bool
        decreases m, 1nat
    {
        v is CilDef || (id < m.table@.len() && m.table[id as int] is Some && name_at((m.table[id as int]->0).0) == k && match (v, (m.table[id as int]->0).1) {
            (ListDefValue::Param(p, vt), MetaValue::Param(x)) => x.param_type == type_of(p) && x.var_type == vt,
            (ListDefValue::MilDef(l), MetaValue::MList(t)) => !l.undefiable && tables_match(*l.default, t),
            (ListDefValue::MilDef(l), MetaValue::OptMil(t)) => l.undefiable && tables_match(*l.default, t),
            _ => false,
        })
    }
    pub open spec fn ref_match(k: Seq<char>, id: usize, v: RefValue, m: MetaTable) -> bool {
        match meta_at(m, id) { Some((n, MetaValue::Param(x))) => n == k && x.var_type == v.v.value_type, _ => false }
    }
    /// the table says what the definition says
    pub open spec fn tables_match(def: ListDefObj, m: MetaTables) -> bool
        decreases m, 2nat
    {
        &&& m.is_enum == def.refs.is_enum
        &&& forall|k: Seq<char>| #[trigger] members(def).dom().contains(k) ==> def_match(k, members(def)[k].0, members(def)[k].1, m.items)
        &&& forall|k: Seq<char>| #[trigger] ref_members(def).dom().contains(k) ==> ref_match(k, ref_members(def)[k].0, ref_members(def)[k].1, m.refs)
    }
    // ------------------------------------------------------------------ what an item of the definition can hold
    pub open spec fn value_ok(v: Value, p: RustParam, vt: VarType) -> bool { v.ty == type_of(p) && typed(v) && admits(vt, v.c is Null, v.c is Undefined) }
    pub open spec fn tables_in(m: MetaTable, id: usize) -> bool { id < m.table@.len() && m.table[id as int] is Some && !((m.table[id as int]->0).1 is Param) }
    pub open spec fn member_ok(x: Member, id: usize, v: ListDefValue, m: MetaTable) -> bool
        decreases m, 1nat
    {
        match (x, v) {
            (Member::Param(x), ListDefValue::Param(p, vt)) => value_ok(x, p, vt),
            (Member::List(None), ListDefValue::MilDef(l)) => l.undefiable,
            (Member::List(Some(x)), ListDefValue::MilDef(l)) => id < m.table@.len() && m.table[id as int] is Some && match (m.table[id as int]->0).1 {
                MetaValue::MList(t) => list_ok(x, *l.default, t),
                MetaValue::OptMil(t) => list_ok(x, *l.default, t),
                _ => false,
            },
            _ => false,
        }
    }
    pub open spec fn item_ok(x: Item, def: ListDefObj, m: MetaTables) -> bool
        decreases m, 2nat
    {
        &&& forall|k: Seq<char>| #[trigger] x.values.dom().contains(k) ==> members(def).dom().contains(k) && member_ok(x.values[k], members(def)[k].0, members(def)[k].1, m.items)
        &&& forall|k: Seq<char>| #[trigger] x.refs.dom().contains(k) ==> ref_members(def).dom().contains(k) && admits(ref_members(def)[k].1.v.value_type, x.refs[k] is Null, x.refs[k] is Undefined)
        &&& def.refs.is_enum ==> forall|k: Seq<char>, l: Seq<char>| #[trigger] x.refs.dom().contains(k) && #[trigger] x.refs.dom().contains(l) ==> k == l
    }
    pub open spec fn list_ok(x: ListS, def: ListDefObj, m: MetaTables) -> bool
        decreases m, 3nat
    {
        distinct(x.items) && forall|i: int| 0 <= i < x.items.len() ==> item_ok((#[trigger] x.items[i]).1, def, m)
    }
    /// the later state comes from the earlier one: what has been set can be changed and not unset
    pub open spec fn member_derived(f: Member, t: Member, id: usize, m: MetaTable) -> bool
        decreases m, 1nat
    {
        match (f, t) {
            (Member::List(Some(f)), Member::List(Some(t))) => id < m.table@.len() && m.table[id as int] is Some && match (m.table[id as int]->0).1 {
                MetaValue::MList(x) => list_derived(f, t, x),
                MetaValue::OptMil(x) => list_derived(f, t, x),
                _ => false,
            },
            _ => true,
        }
    }
    pub open spec fn is_number(k: Seq<char>, id: usize, m: MetaTable) -> bool { meta_at(m, id) is Some && name_of(m, id) == k }
    pub open spec fn item_derived(f: Item, t: Item, m: MetaTables) -> bool
        decreases m, 2nat
    {
        &&& forall|k: Seq<char>| #[trigger] f.values.dom().contains(k) ==> t.values.dom().contains(k)
        &&& forall|k: Seq<char>, id: usize| f.values.dom().contains(k) && #[trigger] is_number(k, id, m.items) ==> member_derived(f.values[k], t.values[k], id, m.items)
        &&& if m.is_enum { t.refs.dom() == Set::<Seq<char>>::empty() ==> f.refs.dom() == Set::<Seq<char>>::empty() } else { forall|k: Seq<char>| #[trigger] f.refs.dom().contains(k) ==> t.refs.dom().contains(k) }
    }
    pub open spec fn list_derived(f: ListS, t: ListS, m: MetaTables) -> bool
        decreases m, 3nat
    {
        forall|i: int, j: int| 0 <= i < f.items.len() && 0 <= j < t.items.len() && (#[trigger] f.items[i]).0 == (#[trigger] t.items[j]).0 ==> item_derived(f.items[i].1, t.items[j].1, m)
    }

    // ------------------------------------------------------------------ the accessors
    impl ListDefObj {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefObj::refs -> r
            ensures *r == *self.refs,
//@ end
    }
    impl ListDefMap {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::get_with_id -> r
//@ optmap
            ensures match r { Some((id, v)) => self.map@.dom().contains(key@) && self.map@[key@] == (id, *v), None => !self.map@.dom().contains(key@) },
//@ end
    }
    impl RefDefObj {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefObj::refs -> r
            ensures *r == *self.refs,
//@ end
    }
    impl RefDefMap {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefMap::get_with_id -> r
//@ optmap
            ensures match r { Some((id, v)) => self.map@.dom().contains(key@) && self.map@[key@] == (id, *v), None => !self.map@.dom().contains(key@) },
//@ end
    }
    impl MutListDef {
//@ fn dochy_core/src/imp/structs/mut_list_def.rs MutListDef::default -> r
            ensures *r == *self.default,
//@ end
    }
    impl<'a> ListDiffW<'a> {
//@ fn dochy_diff/src/imp/structs_write.rs ListDiffW::new -> r
            ensures r.items == items, r.meta == meta, r.next_id == next_id,
//@ end
    }
    impl<'a> ListItemDiffW<'a> {
//@ fn dochy_diff/src/imp/structs_write.rs ListItemDiffW::new -> r
            ensures r.params == params, r.refs == refs, r.lists == lists,
//@ end
    }
    impl<'a> RootDiffW<'a> {
//@ fn dochy_diff/src/imp/structs_write.rs RootDiffW::new -> r
            ensures r.params == params, r.lists == lists, r.meta_table == meta_table,
//@ end
    }

    // ------------------------------------------------------------------ gathering what changed
    pub open spec fn opt_fits(d: Option<ListDiff>, m: MetaTable, id: usize) -> bool {
        match meta_at(m, id) {
            Some((_, MetaValue::MList(t))) => match d { Some(l) => list_fits(l, t), None => false },
            Some((_, MetaValue::OptMil(t))) => match d { Some(l) => list_fits(l, t), None => true },
            _ => false,
        }
    }
    pub open spec fn opt_w(w: Option<ListDiffW>, d: Option<ListDiff>, m: MetaTable, id: usize) -> bool {
        match (w, d) {
            (None, None) => true,
            (Some(a), Some(b)) => tables_at(m, id) is Some && list_w(a, b, tables_at(m, id)->0),
            _ => false,
        }
    }
    pub open spec fn opt_good(w: Option<ListDiffW>, d: Option<ListDiff>, f: Map<Seq<char>, Member>, k: Seq<char>, t: Member, m: MetaTable, id: usize) -> bool {
        opt_leads(f, k, d, t, tables_at(m, id)) && opt_fits(d, m, id) && opt_w(w, d, m, id)
    }
    pub open spec fn some_good(w: Option<ListDiffW>, f: Map<Seq<char>, Member>, k: Seq<char>, t: Member, m: MetaTable, id: usize) -> bool {
        exists|d: Option<ListDiff>| #[trigger] opt_good(w, d, f, k, t, m, id)
    }
    pub open spec fn known(ids: Map<Seq<char>, usize>, m: MetaTable, id: usize) -> bool {
        meta_at(m, id) is Some && ids.dom().contains(name_of(m, id)) && ids[name_of(m, id)] == id
    }
    pub open spec fn gathered(f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, ids: Map<Seq<char>, usize>, m: MetaTable, ps: Map<usize, &RustParam>, ls: Map<usize, Option<ListDiffW>>, done: Seq<Seq<char>>) -> bool {
        &&& forall|id: usize| #[trigger] ps.dom().contains(id) ==> known(ids, m, id) && param_fits(value_of(*ps[id]), m, id) && t.dom().contains(name_of(m, id)) && t[name_of(m, id)] == Member::Param(value_of(*ps[id]))
        &&& forall|id: usize| #[trigger] ls.dom().contains(id) ==> known(ids, m, id) && t.dom().contains(name_of(m, id)) && some_good(ls[id], f, name_of(m, id), t[name_of(m, id)], m, id)
        &&& forall|k: Seq<char>| #[trigger] done.contains(k) && t.dom().contains(k) ==> ids.dom().contains(k) && name_of(m, ids[k]) == k && (ps.dom().contains(ids[k]) || ls.dom().contains(ids[k]) || (f.dom().contains(k) && f[k] == t[k]))
    }
    /// one name more: unchanged, a value put down, or a list put down
    pub open spec fn one_more(f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, ids: Map<Seq<char>, usize>, m: MetaTable, ps0: Map<usize, &RustParam>, ls0: Map<usize, Option<ListDiffW>>, ps1: Map<usize, &RustParam>, ls1: Map<usize, Option<ListDiffW>>, k: Seq<char>) -> bool {
        ||| ps1 == ps0 && ls1 == ls0 && f.dom().contains(k) && f[k] == t[k]
        ||| ps1 == ps0.insert(ids[k], ps1[ids[k]]) && ls1 == ls0 && t[k] == Member::Param(value_of(*ps1[ids[k]])) && param_fits(value_of(*ps1[ids[k]]), m, ids[k])
        ||| ps1 == ps0 && ls1 == ls0.insert(ids[k], ls1[ids[k]]) && some_good(ls1[ids[k]], f, k, t[k], m, ids[k])
    }
    pub proof fn gather(f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, ids: Map<Seq<char>, usize>, m: MetaTable, ps0: Map<usize, &RustParam>, ls0: Map<usize, Option<ListDiffW>>, ps1: Map<usize, &RustParam>, ls1: Map<usize, Option<ListDiffW>>, done: Seq<Seq<char>>, k: Seq<char>)
        requires
            gathered(f, t, ids, m, ps0, ls0, done), ids.dom().contains(k), meta_at(m, ids[k]) is Some, name_of(m, ids[k]) == k, t.dom().contains(k),
            one_more(f, t, ids, m, ps0, ls0, ps1, ls1, k),
        ensures gathered(f, t, ids, m, ps1, ls1, done.push(k)),
    {
        let d1 = done.push(k);
        assert forall|j: Seq<char>| #[trigger] d1.contains(j) && t.dom().contains(j) implies ids.dom().contains(j) && name_of(m, ids[j]) == j && (ps1.dom().contains(ids[j]) || ls1.dom().contains(ids[j]) || (f.dom().contains(j) && f[j] == t[j])) by {
            if j != k {
                let i = choose|i: int| 0 <= i < d1.len() && d1[i] == j;
                assert(done[i] == j);
                assert(done.contains(j));
            }
        }
    }
    pub proof fn in_map<V>(s: Seq<(usize, V)>, i: int)
        requires sorted(s), 0 <= i < s.len(),
        ensures map_of(s).dom().contains(s[i].0), map_of(s)[s[i].0] == s[i].1,
    {
        assert(keys(s)[i] == s[i].0);
        assert(keys(s).contains(s[i].0));
        let j = key_pos(s, s[i].0);
        assert(0 <= j < s.len() && s[j].0 == s[i].0);
        if i < j { assert(s[i].0 < s[j].0); }
        if j < i { assert(s[j].0 < s[i].0); }
    }
    pub proof fn of_map<V>(s: Seq<(usize, V)>, k: usize) -> (i: int)
        requires map_of(s).dom().contains(k),
        ensures 0 <= i < s.len(), s[i].0 == k,
    {
        let i = choose|i: int| 0 <= i < keys(s).len() && keys(s)[i] == k;
        i
    }
    pub open spec fn values_in(ps: Seq<(usize, &RustParam)>) -> Seq<(usize, Value)> { Seq::new(ps.len(), |i: int| (ps[i].0, value_of(*ps[i].1))) }
    pub open spec fn a_good(w: Option<ListDiffW>, f: Map<Seq<char>, Member>, k: Seq<char>, t: Member, m: MetaTable, id: usize) -> Option<ListDiff> {
        choose|d: Option<ListDiff>| #[trigger] opt_good(w, d, f, k, t, m, id)
    }
    pub open spec fn lists_in(ls: Seq<(usize, Option<ListDiffW>)>, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> Seq<(usize, Option<ListDiff>)> {
        Seq::new(ls.len(), |i: int| (ls[i].0, a_good(ls[i].1, f, name_of(m, ls[i].0), t[name_of(m, ls[i].0)], m, ls[i].0)))
    }
    pub proof fn all_gathered(f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, ids: Map<Seq<char>, usize>, m: MetaTable, ps: Seq<(usize, &RustParam)>, ls: Seq<(usize, Option<ListDiffW>)>, done: Seq<Seq<char>>) -> (d: ItemDiff)
        requires
            sorted(ps), sorted(ls), gathered(f, t, ids, m, map_of(ps), map_of(ls), done),
            forall|k: Seq<char>| #[trigger] t.dom().contains(k) ==> done.contains(k),
            forall|k: Seq<char>| #[trigger] f.dom().contains(k) ==> t.dom().contains(k),
        ensures
            d.params == values_in(ps), d.lists == lists_in(ls, f, t, m), d.refs == Seq::<(usize, Id)>::empty(),
            params_w(ps, d.params), params_fit(d.params, m), params_lead(d.params, t, m),
            lists_w(ls, d.lists, m), lists_fit(d.lists, m), lists_lead(f, d, t, m),
            rest(f, t, |k: Seq<char>| named(d.params, m, k) || named(d.lists, m, k)),
    {
        let d = ItemDiff { params: values_in(ps), lists: lists_in(ls, f, t, m), refs: Seq::empty() };
        assert forall|i: int| 0 <= i < ps.len() implies known(ids, m, (#[trigger] d.params[i]).0) && param_fits(d.params[i].1, m, d.params[i].0) && t.dom().contains(name_of(m, d.params[i].0)) && t[name_of(m, d.params[i].0)] == Member::Param(d.params[i].1) by {
            in_map(ps, i);
        }
        assert forall|i: int, j: int| 0 <= i < j < ps.len() implies name_of(m, (#[trigger] d.params[i]).0) != name_of(m, (#[trigger] d.params[j]).0) by { assert(ps[i].0 < ps[j].0); }
        assert forall|i: int, j: int| 0 <= i < j < ps.len() implies (#[trigger] d.params[i]).0 < (#[trigger] d.params[j]).0 by { assert(ps[i].0 < ps[j].0); }
        assert forall|i: int| 0 <= i < ls.len() implies known(ids, m, (#[trigger] d.lists[i]).0) && t.dom().contains(name_of(m, d.lists[i].0)) && opt_good(ls[i].1, d.lists[i].1, f, name_of(m, d.lists[i].0), t[name_of(m, d.lists[i].0)], m, d.lists[i].0) by {
            in_map(ls, i);
        }
        assert forall|i: int, j: int| 0 <= i < j < ls.len() implies name_of(m, (#[trigger] d.lists[i]).0) != name_of(m, (#[trigger] d.lists[j]).0) by { assert(ls[i].0 < ls[j].0); }
        assert forall|i: int, j: int| 0 <= i < j < ls.len() implies (#[trigger] d.lists[i]).0 < (#[trigger] d.lists[j]).0 by { assert(ls[i].0 < ls[j].0); }
        assert(lists_w(ls, d.lists, m)) by {
            assert forall|i: int| 0 <= i < ls.len() implies (#[trigger] ls[i]).0 == d.lists[i].0 && opt_w(ls[i].1, d.lists[i].1, m, d.lists[i].0) by { let x = d.lists[i]; }
        }
        let ch = |k: Seq<char>| named(d.params, m, k) || named(d.lists, m, k);
        assert forall|k: Seq<char>| #[trigger] t.dom().contains(k) implies ch(k) || (f.dom().contains(k) && f[k] == t[k]) by {
            assert(done.contains(k));
            if map_of(ps).dom().contains(ids[k]) { let i = of_map(ps, ids[k]); assert(name_of(m, d.params[i].0) == k); }
            if map_of(ls).dom().contains(ids[k]) { let i = of_map(ls, ids[k]); assert(name_of(m, d.lists[i].0) == k); }
        }
        assert forall|k: Seq<char>| #[trigger] ch(k) implies t.dom().contains(k) by {
            if named(d.params, m, k) { let i = choose|i: int| 0 <= i < d.params.len() && name_of(m, (#[trigger] d.params[i]).0) == k; }
            else { let i = choose|i: int| 0 <= i < d.lists.len() && name_of(m, (#[trigger] d.lists[i]).0) == k; }
        }
        assert(rest(f, t, ch));
        d
    }
    // ---- references
    pub open spec fn refs_gathered(f: Map<Seq<char>, Id>, t: Map<Seq<char>, Id>, ids: Map<Seq<char>, usize>, m: MetaTable, rs: Map<usize, &Qv<String>>, done: Seq<Seq<char>>) -> bool {
        &&& forall|id: usize| #[trigger] rs.dom().contains(id) ==> known(ids, m, id) && ref_fits(id_of(*rs[id]), m, id) && t.dom().contains(name_of(m, id)) && t[name_of(m, id)] == id_of(*rs[id])
        &&& forall|k: Seq<char>| #[trigger] done.contains(k) && t.dom().contains(k) ==> ids.dom().contains(k) && name_of(m, ids[k]) == k && (rs.dom().contains(ids[k]) || (f.dom().contains(k) && f[k] == t[k]))
    }
    pub proof fn gather_ref(f: Map<Seq<char>, Id>, t: Map<Seq<char>, Id>, ids: Map<Seq<char>, usize>, m: MetaTable, rs0: Map<usize, &Qv<String>>, rs1: Map<usize, &Qv<String>>, done: Seq<Seq<char>>, k: Seq<char>)
        requires
            refs_gathered(f, t, ids, m, rs0, done), ids.dom().contains(k), meta_at(m, ids[k]) is Some, name_of(m, ids[k]) == k, t.dom().contains(k),
            (rs1 == rs0 && f.dom().contains(k) && f[k] == t[k]) || (rs1 == rs0.insert(ids[k], rs1[ids[k]]) && t[k] == id_of(*rs1[ids[k]]) && ref_fits(t[k], m, ids[k])),
        ensures refs_gathered(f, t, ids, m, rs1, done.push(k)),
    {
        let d1 = done.push(k);
        assert forall|j: Seq<char>| #[trigger] d1.contains(j) && t.dom().contains(j) implies ids.dom().contains(j) && name_of(m, ids[j]) == j && (rs1.dom().contains(ids[j]) || (f.dom().contains(j) && f[j] == t[j])) by {
            if j != k {
                let i = choose|i: int| 0 <= i < d1.len() && d1[i] == j;
                assert(done[i] == j);
                assert(done.contains(j));
            }
        }
    }
    pub open spec fn refs_in(rs: Seq<(usize, &Qv<String>)>) -> Seq<(usize, Id)> { Seq::new(rs.len(), |i: int| (rs[i].0, id_of(*rs[i].1))) }
    pub proof fn all_refs_gathered(f: Map<Seq<char>, Id>, t: Map<Seq<char>, Id>, ids: Map<Seq<char>, usize>, m: MetaTable, rs: Seq<(usize, &Qv<String>)>, done: Seq<Seq<char>>, one: bool)
        requires
            sorted(rs), refs_gathered(f, t, ids, m, map_of(rs), done),
            forall|k: Seq<char>| #[trigger] t.dom().contains(k) ==> done.contains(k),
            one ==> forall|k: Seq<char>, l: Seq<char>| #[trigger] f.dom().contains(k) && #[trigger] f.dom().contains(l) ==> k == l,
            one ==> forall|k: Seq<char>, l: Seq<char>| #[trigger] t.dom().contains(k) && #[trigger] t.dom().contains(l) ==> k == l,
            one ==> (t.dom() == Set::<Seq<char>>::empty() ==> f.dom() == Set::<Seq<char>>::empty()),
            !one ==> forall|k: Seq<char>| #[trigger] f.dom().contains(k) ==> t.dom().contains(k),
        ensures
            refs_w(rs, refs_in(rs)), refs_fit(refs_in(rs), m), refs_lead(if one && rs.len() > 0 { Map::empty() } else { f }, refs_in(rs), t, m),
    {
        let d = refs_in(rs);
        assert forall|i: int| 0 <= i < rs.len() implies known(ids, m, (#[trigger] d[i]).0) && ref_fits(d[i].1, m, d[i].0) && t.dom().contains(name_of(m, d[i].0)) && t[name_of(m, d[i].0)] == d[i].1 by {
            in_map(rs, i);
        }
        assert forall|i: int, j: int| 0 <= i < j < rs.len() implies name_of(m, (#[trigger] d[i]).0) != name_of(m, (#[trigger] d[j]).0) by { assert(rs[i].0 < rs[j].0); }
        assert forall|i: int, j: int| 0 <= i < j < rs.len() implies (#[trigger] d[i]).0 < (#[trigger] d[j]).0 by { assert(rs[i].0 < rs[j].0); }
        let ch = |k: Seq<char>| named(d, m, k);
        assert forall|k: Seq<char>| #[trigger] t.dom().contains(k) implies ch(k) || (f.dom().contains(k) && f[k] == t[k]) by {
            assert(done.contains(k));
            if map_of(rs).dom().contains(ids[k]) { let i = of_map(rs, ids[k]); assert(name_of(m, d[i].0) == k); }
        }
        assert forall|k: Seq<char>| #[trigger] ch(k) implies t.dom().contains(k) by {
            let i = choose|i: int| 0 <= i < d.len() && name_of(m, (#[trigger] d[i]).0) == k;
        }
        let b = if one && rs.len() > 0 { Map::empty() } else { f };
        if one {
            if rs.len() > 0 {
                let k0 = name_of(m, d[0].0);
                assert(ch(k0));
                assert(t.dom().contains(k0));
                assert forall|k: Seq<char>| #[trigger] t.dom().contains(k) implies ch(k) by { assert(k == k0); }
            } else if t.dom() != Set::<Seq<char>>::empty() {
                assert(exists|k: Seq<char>| t.dom().contains(k)) by { if forall|k: Seq<char>| !t.dom().contains(k) { assert(t.dom() =~= Set::<Seq<char>>::empty()); } }
                let k0 = choose|k: Seq<char>| t.dom().contains(k);
                assert(!ch(k0));
                assert(f.dom().contains(k0));
            }
        }
        assert(rest(b, t, ch));
    }
    // ---- lists
    pub open spec fn item_good(w: ListItemDiffW, d: ItemDiff, f: Item, t: Item, m: MetaTables) -> bool { item_w(w, d, m) && item_fits(d, m) && item_leads(f, d, t, m) }
    pub open spec fn list_good(w: ListDiffW, d: ListDiff, f: ListS, t: ListS, m: MetaTables) -> bool { list_w(w, d, m) && list_fits(d, m) && list_leads(f, d, t, m) }
    pub open spec fn is_item_diff(w: ListItemDiffW, f: Item, t: Item, m: MetaTables) -> bool { exists|d: ItemDiff| #[trigger] item_good(w, d, f, t, m) }
    pub open spec fn is_list_diff(w: ListDiffW, f: ListS, t: ListS, m: MetaTables) -> bool { exists|d: ListDiff| #[trigger] list_good(w, d, f, t, m) }
    pub proof fn list_is_good(w: ListDiffW, f: Map<Seq<char>, Member>, k: Seq<char>, t: Member, m: MetaTable, id: usize)
        requires
            t is List, t->List_0 is Some, tables_at(m, id) is Some,
            is_list_diff(w, list_before(f, k), t->List_0->0, tables_at(m, id)->0),
        ensures some_good(Some(w), f, k, t, m, id),
    {
        let d = choose|d: ListDiff| #[trigger] list_good(w, d, list_before(f, k), t->List_0->0, tables_at(m, id)->0);
        assert(opt_leads(f, k, Some(d), t, tables_at(m, id)));
        assert(opt_good(Some(w), Some(d), f, k, t, m, id));
    }
    pub proof fn none_is_good(f: Map<Seq<char>, Member>, k: Seq<char>, t: Member, m: MetaTable, id: usize)
        requires t == Member::List(None), meta_at(m, id) is Some, (meta_at(m, id)->0).1 is OptMil,
        ensures some_good(None, f, k, t, m, id),
    {
        assert(opt_leads(f, k, None, t, tables_at(m, id)));
        assert(opt_good(None, None, f, k, t, m, id));
    }
    /// what the declaration of a member says about its value
    pub proof fn declared(x: Item, def: ListDefObj, m: MetaTables, k: Seq<char>)
        requires tables_match(def, m), item_ok(x, def, m), x.values.dom().contains(k),
        ensures
            members(def).dom().contains(k), ids_of(members(def)).dom().contains(k), ids_of(members(def))[k] == members(def)[k].0,
            meta_at(m.items, members(def)[k].0) is Some, name_of(m.items, members(def)[k].0) == k, is_number(k, members(def)[k].0, m.items),
            !(x.values[k] is Const),
            x.values[k] is Param ==> members(def)[k].1 is Param && param_fits(x.values[k]->Param_0, m.items, members(def)[k].0),
            x.values[k] is List ==> members(def)[k].1 is MilDef && tables_at(m.items, members(def)[k].0) is Some
                && tables_match(*members(def)[k].1->MilDef_0.default, tables_at(m.items, members(def)[k].0)->0)
                && decreases_to!(m => tables_at(m.items, members(def)[k].0)->0)
                && (x.values[k]->List_0 is Some ==> list_ok(x.values[k]->List_0->0, *members(def)[k].1->MilDef_0.default, tables_at(m.items, members(def)[k].0)->0))
                && (x.values[k]->List_0 is None ==> (meta_at(m.items, members(def)[k].0)->0).1 is OptMil),
    {
        let id = members(def)[k].0;
        assert(def_match(k, id, members(def)[k].1, m.items));
        assert(member_ok(x.values[k], id, members(def)[k].1, m.items));
        if x.values[k] is List {
            assert(decreases_to!(m => m.items));
            assert(decreases_to!(m.items => m.items.table));
            assert(decreases_to!(m.items.table => m.items.table[id as int]));
        }
    }
    pub proof fn declared_ref(x: Item, def: ListDefObj, m: MetaTables, k: Seq<char>)
        requires tables_match(def, m), item_ok(x, def, m), x.refs.dom().contains(k),
        ensures
            ref_members(def).dom().contains(k), ref_ids_of(ref_members(def)).dom().contains(k), ref_ids_of(ref_members(def))[k] == ref_members(def)[k].0,
            meta_at(m.refs, ref_members(def)[k].0) is Some, name_of(m.refs, ref_members(def)[k].0) == k, ref_fits(x.refs[k], m.refs, ref_members(def)[k].0),
    { }
    // TRUSTED: a vector of elements that take space holds at most isize::MAX of them
    #[verifier::external_body]
    pub proof fn vec_fits(v: Vec<(u64, ListItemDiffEnumW)>)
        ensures v@.len() <= i64::MAX,
    { }
    pub open spec fn change_w(w: (u64, ListItemDiffEnumW), c: (u64, Change), m: MetaTables) -> bool {
        w.0 == c.0 && match (w.1, c.1) {
            (ListItemDiffEnumW::Delete, Change::Delete) => true,
            (ListItemDiffEnumW::Create(b), Change::Create(p, x)) => b.prev_id == p && item_w(b.diff, x, m) && item_fits(x, m),
            (ListItemDiffEnumW::Modify(b), Change::Modify(x)) => item_w(b, x, m) && item_fits(x, m),
            _ => false,
        }
    }
    pub open spec fn with(d: ListDiff, c: (u64, Change)) -> ListDiff { ListDiff { items: d.items.push(c), next: d.next } }
    pub proof fn step_more(a: Seq<(u64, Item)>, d: ListDiff, n: int, b: Seq<(u64, Item)>, c: (u64, Change), b2: Seq<(u64, Item)>, m: MetaTables)
        requires 0 <= n <= d.items.len(), changes_lead(a, d, n, b, m), step(b, c.0, c.1, b2, m),
        ensures changes_lead(a, with(d, c), n, b2, m),
        decreases d.items.len() - n,
    {
        let e = with(d, c);
        if n == d.items.len() {
            assert(e.items[n] == c);
            assert(mid(b2));
            assert(changes_lead(b2, e, n + 1, b2, m));
        } else {
            let x = first_step(a, d, n, b, m);
            step_more(x, d, n + 1, b, c, b2, m);
            assert(e.items[n] == d.items[n]);
            assert(mid(x));
        }
    }
    pub proof fn changes_good(w: ListDiffW, d: ListDiff, f: ListS, t: ListS, m: MetaTables)
        requires
            *w.meta == m, w.next_id == d.next, t.next == d.next, w.items@.len() == d.items.len(),
            forall|i: int| 0 <= i < d.items.len() ==> change_w(#[trigger] w.items@[i], d.items[i], m),
            changes_lead(f.items, d, 0, t.items, m),
        ensures list_good(w, d, f, t, m),
    {
        vec_fits(w.items);
        assert(list_fits(d, m)) by {
            assert forall|i: int| 0 <= i < d.items.len() implies (match (#[trigger] d.items[i]).1 { Change::Delete => true, Change::Create(_, x) => item_fits(x, m), Change::Modify(x) => item_fits(x, m) }) by {
                assert(change_w(w.items@[i], d.items[i], m));
            }
        }
    }
//@ fn dochy_diff/src/imp/prepare/new_list.rs new_list -> res
//@ sub in mil\.list\(\) => in mil.list().iter()
//@ next 0 it
        requires tables_match(*def, *meta), list_ok(list_of(*mil.list), *def, *meta),
        ensures is_list_diff(res, no_list(), list_of(*mil.list), *meta),
        decreases *meta, 2nat,
//@ start
        let ghost l = mil.list@;
        let ghost t = entries_of(l);
        let ghost mut d = ListDiff { items: Seq::empty(), next: mil.list.next() };
        let ghost mut n: int = 0;
        proof { assert(t.take(0) =~= Seq::empty()); }
//@ loop 0
            invariant
                tables_match(*def, *meta), l == mil.list@, t == entries_of(l), list_ok(list_of(*mil.list), *def, *meta), 0 <= n <= l.len(), it@ == l.skip(n),
                result@.len() == n, d.items.len() == n, d.next == mil.list.next(),
                forall|i: int| 0 <= i < n ==> change_w(#[trigger] result@[i], d.items[i], *meta),
                changes_lead(Seq::empty(), d, 0, t.take(n), *meta),
                prev_id == (if n == 0 { None } else { Some(l[n - 1].0) }),
            ensures n == l.len(),
            decreases l.len() - n,
//@ in 0
            proof {
                assert(l.skip(n)[0] == l[n] && l.skip(n).skip(1) =~= l.skip(n + 1));
                assert(t[n] == (l[n].0, item_of(l[n].1)));
                assert(item_ok(list_of(*mil.list).items[n].1, *def, *meta));
            }
            let ghost d0 = d;
            let ghost r0 = result@;
//@ last 0
            proof {
                let w = result@[n].1->Create_0;
                let x = choose|x: ItemDiff| #[trigger] item_good(w.diff, x, no_item(), t[n].1, *meta);
                let c = (id, Change::Create(w.prev_id, x));
                created(t, n, c, *meta);
                step_more(Seq::empty(), d, 0, t.take(n), c, t.take(n + 1), *meta);
                d = with(d, c);
                assert forall|i: int| 0 <= i < n + 1 implies change_w(#[trigger] result@[i], d.items[i], *meta) by {
                    if i < n { assert(change_w(r0[i], d0.items[i], *meta)); }
                }
                n = n + 1;
            }
//@ post 0
        proof {
            assert(t.take(n) =~= t);
            assert forall|w: ListDiffW| w.items == result && w.meta == meta && w.next_id == mil.list.next() implies #[trigger] is_list_diff(w, no_list(), list_of(*mil.list), *meta) by {
                changes_good(w, d, no_list(), list_of(*mil.list), *meta);
            }
        }
//@ end
    /// an item put down after those before it
    pub proof fn created(t: Seq<(u64, Item)>, n: int, c: (u64, Change), m: MetaTables)
        requires distinct(t), 0 <= n < t.len(), c.0 == t[n].0, c.1 is Create, c.1->Create_0 == (if n == 0 { None } else { Some(t[n - 1].0) }), item_leads(no_item(), c.1->Create_1, t[n].1, m),
        ensures step(t.take(n), c.0, c.1, t.take(n + 1), m),
    {
        let a = t.take(n);
        let b = t.take(n + 1);
        if has_id(a, c.0) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == c.0; assert(t[i].0 != t[n].0); }
        if n == 0 {
            assert(b =~= seq![(c.0, b[0].1)] + a);
        } else {
            assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by { assert(t[i].0 != t[j].0); }
            at_pos(a, n - 1);
            assert(b =~= a.insert(n, (c.0, b[n].1)));
        }
    }
    pub proof fn item_gathered(f: Item, t: Item, def: ListDefObj, m: MetaTables, ps: Seq<(usize, &RustParam)>, ls: Seq<(usize, Option<ListDiffW>)>, rs: Seq<(usize, &Qv<String>)>, ks: Seq<Seq<char>>, rks: Seq<Seq<char>>)
        requires
            tables_match(def, m), item_ok(f, def, m), item_ok(t, def, m), item_derived(f, t, m), sorted(ps), sorted(ls), sorted(rs),
            gathered(f.values, t.values, ids_of(members(def)), m.items, map_of(ps), map_of(ls), ks),
            refs_gathered(f.refs, t.refs, ref_ids_of(ref_members(def)), m.refs, map_of(rs), rks),
            forall|k: Seq<char>| #[trigger] t.values.dom().contains(k) ==> ks.contains(k),
            forall|k: Seq<char>| #[trigger] t.refs.dom().contains(k) ==> rks.contains(k),
        ensures
            forall|w: ListItemDiffW| w.params@ == ps && w.lists@ == ls && w.refs@ == rs ==> #[trigger] is_item_diff(w, f, t, m),
            ps.len() == 0 && ls.len() == 0 && rs.len() == 0 ==> f == t,
    {
        let d0 = all_gathered(f.values, t.values, ids_of(members(def)), m.items, ps, ls, ks);
        all_refs_gathered(f.refs, t.refs, ref_ids_of(ref_members(def)), m.refs, rs, rks, m.is_enum);
        let d = ItemDiff { params: d0.params, lists: d0.lists, refs: refs_in(rs) };
        assert(item_fits(d, m));
        assert(item_leads(f, d, t, m));
        assert forall|w: ListItemDiffW| w.params@ == ps && w.lists@ == ls && w.refs@ == rs implies #[trigger] is_item_diff(w, f, t, m) by {
            assert(item_w(w, d, m));
            assert(item_good(w, d, f, t, m));
        }
        if ps.len() == 0 && ls.len() == 0 && rs.len() == 0 {
            assert(f.values =~= t.values);
            assert(f.refs =~= t.refs);
        }
    }
//@ fn dochy_diff/src/imp/prepare/new_item.rs new_item -> res
//@ sub in item\.values\(\) => in item.values().iter()
//@ sub in item\.refs\(\) => in item.refs().iter()
//@ next 0 it
//@ next 1 it
        requires tables_match(*def, *meta), item_ok(item_of(*item), *def, *meta),
        ensures is_item_diff(res, no_item(), item_of(*item), *meta),
        decreases *meta, 1nat,
//@ start
        let ghost gd = def;
        let ghost f = no_item();
        let ghost t = item_of(*item);
        let ghost vs = item.values@;
        let ghost rv = item.refs@;
        let ghost ids = ids_of(members(*def));
        let ghost rids = ref_ids_of(ref_members(*def));
        let ghost mut n: int = 0;
        proof {
            item_of_is(*item);
            assert(t.values.dom() =~= vs.dom());
            assert(t.refs.dom() =~= rv.dom());
        }
//@ pre 0
        let ghost ks = item.values.order();
        proof { assert(map_of(Seq::<(usize, &RustParam)>::empty()).dom() =~= Set::empty()); assert(map_of(Seq::<(usize, Option<ListDiffW>)>::empty()).dom() =~= Set::empty()); }
//@ loop 0
            invariant
                f == no_item(), t == item_of(*item), t.values == values_of(vs), t.values.dom() =~= vs.dom(), *def == *gd.default, ids == ids_of(members(*gd)),
                tables_match(*gd, *meta), item_ok(t, *gd, *meta), it.map() == vs, lists_all(ks, vs), 0 <= n <= ks.len(), it@ == ks.skip(n),
                gathered(f.values, t.values, ids, meta.items, map_of(params@), map_of(lists@), ks.take(n)),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost p0 = map_of(params@);
            let ghost l0 = map_of(lists@);
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                assert(ks.take(n + 1) =~= ks.take(n).push(ks[n]));
                assert(vs.dom().contains(ks[n]));
                declared(t, *gd, *meta, ks[n]);
                assert(t.values[ks[n]] == member_of(vs[ks[n]]));
            }
//@ last 0
            proof {
                let k = ks[n];
                assert(list_before(f.values, k) == no_list());
                if t.values[k] is List {
                    assert(l0.insert(ids[k], map_of(lists@)[ids[k]]) == map_of(lists@));
                    if t.values[k]->List_0 is None { none_is_good(f.values, k, t.values[k], meta.items, ids[k]); }
                    else { list_is_good(map_of(lists@)[ids[k]]->0, f.values, k, t.values[k], meta.items, ids[k]); }
                }
                gather(f.values, t.values, ids, meta.items, p0, l0, map_of(params@), map_of(lists@), ks.take(n), k);
                n = n + 1;
            }
//@ post 0
        let ghost done = ks;
        proof { n = 0; assert(ks.take(ks.len() as int) =~= ks); }
//@ pre 1
        let ghost rks = item.refs.order();
        proof { assert(map_of(Seq::<(usize, &Qv<String>)>::empty()).dom() =~= Set::empty()); }
//@ loop 1
            invariant
                f == no_item(), t == item_of(*item), t.refs == refs_of(rv), t.refs.dom() =~= rv.dom(), *ref_def == *gd.refs, rids == ref_ids_of(ref_members(*gd)),
                tables_match(*gd, *meta), item_ok(t, *gd, *meta), it.map() == rv, lists_all(rks, rv), 0 <= n <= rks.len(), it@ == rks.skip(n),
                refs_gathered(f.refs, t.refs, rids, meta.refs, map_of(refs@), rks.take(n)),
            ensures n == rks.len(),
            decreases rks.len() - n,
//@ in 1
            let ghost r0 = map_of(refs@);
            proof {
                assert(rks.skip(n)[0] == rks[n] && rks.skip(n).skip(1) =~= rks.skip(n + 1));
                assert(rks.take(n + 1) =~= rks.take(n).push(rks[n]));
                assert(rv.dom().contains(rks[n]));
                declared_ref(t, *gd, *meta, rks[n]);
                assert(t.refs[rks[n]] == id_of(*rv[rks[n]].value));
            }
//@ last 1
            proof {
                gather_ref(f.refs, t.refs, rids, meta.refs, r0, map_of(refs@), rks.take(n), rks[n]);
                n = n + 1;
            }
//@ post 1
        proof {
            assert(rks.take(rks.len() as int) =~= rks);
            params.is_sorted();
            lists.is_sorted();
            refs.is_sorted();
            item_gathered(f, t, *gd, *meta, params@, lists@, refs@, done, rks);
        }
//@ end
    // ------------------------------------------------------------------ two items
    pub proof fn declared_derived(f: Item, t: Item, def: ListDefObj, m: MetaTables, k: Seq<char>)
        requires
            tables_match(def, m), item_ok(t, def, m), item_derived(f, t, m), f.values.dom().contains(k), t.values.dom().contains(k),
            f.values[k] is List, f.values[k]->List_0 is Some, t.values[k] is List, t.values[k]->List_0 is Some,
        ensures list_derived(f.values[k]->List_0->0, t.values[k]->List_0->0, tables_at(m.items, members(def)[k].0)->0),
    {
        declared(t, def, m, k);
        assert(is_number(k, members(def)[k].0, m.items));
        assert(member_derived(f.values[k], t.values[k], members(def)[k].0, m.items));
    }
    // TRUSTED: the derived comparison of references
    #[verifier::external_body]
    pub fn ref_eq(a: &Qv<String>, b: &Qv<String>) -> (r: bool)
        ensures r == (id_of(*a) == id_of(*b)),
    { unimplemented!() }
//@ fn dochy_diff/src/imp/prepare/compare_items.rs compare_items -> res
//@ sub in to\.values\(\) => in to.values().iter()
//@ sub in to\.refs\(\) => in to.refs().iter()
//@ sub (\w+)\.value\(\) != (\w+) => !ref_eq(\1.value(), \2)
//@ next 0 it
//@ next 1 it
        requires tables_match(*def, *meta), item_ok(item_of(*from), *def, *meta), item_ok(item_of(*to), *def, *meta), item_derived(item_of(*from), item_of(*to), *meta),
        ensures res is Some ==> is_item_diff(res->0, item_of(*from), item_of(*to), *meta), res is None ==> item_of(*from) == item_of(*to),
        decreases *meta, 1nat,
//@ start
        let ghost gd = def;
        let ghost gm = meta;
        let ghost f = item_of(*from);
        let ghost t = item_of(*to);
        let ghost fs = from.values@;
        let ghost vs = to.values@;
        let ghost frv = from.refs@;
        let ghost rv = to.refs@;
        let ghost ids = ids_of(members(*def));
        let ghost rids = ref_ids_of(ref_members(*def));
        let ghost mut n: int = 0;
        proof {
            item_of_is(*from);
            item_of_is(*to);
            assert(t.values.dom() =~= vs.dom());
            assert(t.refs.dom() =~= rv.dom());
            assert(f.values.dom() =~= fs.dom());
            assert(f.refs.dom() =~= frv.dom());
        }
//@ pre 0
        let ghost ks = to.values.order();
        proof { assert(map_of(Seq::<(usize, &RustParam)>::empty()).dom() =~= Set::empty()); assert(map_of(Seq::<(usize, Option<ListDiffW>)>::empty()).dom() =~= Set::empty()); }
//@ loop 0
            invariant
                f == item_of(*from), f.values == values_of(fs), f.values.dom() =~= fs.dom(), from_values@ == fs, item_ok(f, *gd, *gm), item_derived(f, t, *gm),
                t == item_of(*to), t.values == values_of(vs), t.values.dom() =~= vs.dom(), *def == *gd.default, *meta == *gm, ids == ids_of(members(*gd)),
                tables_match(*gd, *gm), item_ok(t, *gd, *gm), it.map() == vs, lists_all(ks, vs), 0 <= n <= ks.len(), it@ == ks.skip(n),
                gathered(f.values, t.values, ids, gm.items, map_of(params@), map_of(lists@), ks.take(n)),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost p0 = map_of(params@);
            let ghost l0 = map_of(lists@);
            let ghost k = ks[n];
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                assert(ks.take(n + 1) =~= ks.take(n).push(ks[n]));
                assert(vs.dom().contains(k));
                declared(t, *gd, *gm, k);
                assert(t.values[k] == member_of(vs[k]));
                if f.values.dom().contains(k) {
                    declared(f, *gd, *gm, k);
                    assert(f.values[k] == member_of(fs[k]));
                    assert(fs[k] is Mil && fs[k]->Mil_0 is Some ==> list_before(f.values, k) == list_of(*fs[k]->Mil_0->0.list));
                    assert(!(fs[k] is Mil && fs[k]->Mil_0 is Some) ==> list_before(f.values, k) == no_list());
                    if f.values[k] == t.values[k] { gather(f.values, t.values, ids, gm.items, p0, l0, p0, l0, ks.take(n), k); }
                    if f.values[k] is List && f.values[k]->List_0 is Some && t.values[k] is List && t.values[k]->List_0 is Some { declared_derived(f, t, *gd, *gm, k); }
                }
                n = n + 1;
            }
//@ last 0
            proof {
                if t.values[k] is List {
                    if t.values[k]->List_0 is None { none_is_good(f.values, k, t.values[k], gm.items, ids[k]); }
                    else if is_list_diff(map_of(lists@)[ids[k]]->0, list_before(f.values, k), t.values[k]->List_0->0, tables_at(gm.items, ids[k])->0) {
                        list_is_good(map_of(lists@)[ids[k]]->0, f.values, k, t.values[k], gm.items, ids[k]);
                    }
                }
                assert(t.values[k] is Param && map_of(params@) != p0 ==> map_of(params@) == p0.insert(ids[k], map_of(params@)[ids[k]]));
                assert(t.values[k] is List ==> map_of(params@) == p0);
                assert(t.values[k] is List && map_of(lists@) != l0 ==> map_of(lists@) == l0.insert(ids[k], map_of(lists@)[ids[k]]));
                assert(t.values[k] is List && t.values[k]->List_0 is Some && map_of(lists@) != l0 ==> map_of(lists@)[ids[k]] is Some);
                assert(t.values[k] is List && t.values[k]->List_0 is Some && map_of(lists@) != l0 ==> some_good(map_of(lists@)[ids[k]], f.values, k, t.values[k], gm.items, ids[k]));
                assert(t.values[k] is Param ==> one_more(f.values, t.values, ids, gm.items, p0, l0, map_of(params@), map_of(lists@), k));
                assert(t.values[k] is List ==> one_more(f.values, t.values, ids, gm.items, p0, l0, map_of(params@), map_of(lists@), k));
                gather(f.values, t.values, ids, gm.items, p0, l0, map_of(params@), map_of(lists@), ks.take(n - 1), k);
            }
//@ post 0
        let ghost done = ks;
        proof { n = 0; assert(ks.take(ks.len() as int) =~= ks); }
//@ pre 1
        let ghost rks = to.refs.order();
        proof { assert(map_of(Seq::<(usize, &Qv<String>)>::empty()).dom() =~= Set::empty()); }
//@ loop 1
            invariant
                f == item_of(*from), f.refs == refs_of(frv), f.refs.dom() =~= frv.dom(), from_ref@ == frv,
                t == item_of(*to), t.refs == refs_of(rv), t.refs.dom() =~= rv.dom(), *ref_def == *gd.refs, rids == ref_ids_of(ref_members(*gd)),
                tables_match(*gd, *gm), item_ok(t, *gd, *gm), it.map() == rv, lists_all(rks, rv), 0 <= n <= rks.len(), it@ == rks.skip(n),
                refs_gathered(f.refs, t.refs, rids, gm.refs, map_of(refs@), rks.take(n)),
            ensures n == rks.len(),
            decreases rks.len() - n,
//@ in 1
            let ghost r0 = map_of(refs@);
            proof {
                assert(rks.skip(n)[0] == rks[n] && rks.skip(n).skip(1) =~= rks.skip(n + 1));
                assert(rks.take(n + 1) =~= rks.take(n).push(rks[n]));
                assert(rv.dom().contains(rks[n]));
                declared_ref(t, *gd, *gm, rks[n]);
                assert(t.refs[rks[n]] == id_of(*rv[rks[n]].value));
                if f.refs.dom().contains(rks[n]) {
                    assert(f.refs[rks[n]] == id_of(*frv[rks[n]].value));
                    if f.refs[rks[n]] == t.refs[rks[n]] { gather_ref(f.refs, t.refs, rids, gm.refs, r0, r0, rks.take(n), rks[n]); }
                }
                n = n + 1;
            }
//@ last 1
            proof { gather_ref(f.refs, t.refs, rids, gm.refs, r0, map_of(refs@), rks.take(n - 1), rks[n - 1]); }
//@ post 1
        proof {
            assert(rks.take(rks.len() as int) =~= rks);
            params.is_sorted();
            lists.is_sorted();
            refs.is_sorted();
            item_gathered(f, t, *gd, *gm, params@, lists@, refs@, done, rks);
            assert(params@.len() == 0 && lists@.len() == 0 && refs@.len() == 0 ==> f == t);
        }
//@ end
//@ fn dochy_diff/src/imp/prepare/get_mlist_diff.rs get_mlist_diff -> res
//@ sub \bin from\b => in from.iter()
//@ sub \bin to\b => in to.iter()
//@ next 0 it
//@ next 1 it
        requires tables_match(*to_def, *meta), list_ok(list_of(*from), *to_def, *meta), list_ok(list_of(*to), *to_def, *meta), list_derived(list_of(*from), list_of(*to), *meta),
        ensures res is Some ==> is_list_diff(res->0, list_of(*from), list_of(*to), *meta), res is None ==> list_of(*from) == list_of(*to),
        decreases *meta, 2nat,
//@ start
        let ghost fl = from@;
        let ghost tl = to@;
        let ghost f = entries_of(fl);
        let ghost t = entries_of(tl);
        let ghost mut d = ListDiff { items: Seq::empty(), next: to.next() };
        let ghost mut n: int = 0;
        let ghost mut cur = f;
//@ pre 0
        let ghost p = keeper(nums(fl), nums(tl), moved@);
        proof { part_way_start(f, t, p); }
//@ loop 0
            invariant
                tables_match(*to_def, *meta), fl == from@, tl == to@, f == entries_of(fl), t == entries_of(tl), list_ok(list_of(*from), *to_def, *meta), list_ok(list_of(*to), *to_def, *meta), list_derived(list_of(*from), list_of(*to), *meta),
                p == keeper(nums(fl), nums(tl), moved@), 0 <= n <= fl.len(), it@ == fl.skip(n),
                result@.len() == d.items.len(), d.next == to.next(),
                forall|i: int| 0 <= i < d.items.len() ==> change_w(#[trigger] result@[i], d.items[i], *meta),
                cur == part_way(f, t, p, n), changes_lead(f, d, 0, cur, *meta),
                result@.len() == 0 ==> cur == f,
            ensures n == fl.len(),
            decreases fl.len() - n,
//@ in 0
            let ghost d0 = d;
            let ghost r0 = result@;
            proof {
                let id = fl[n].0;
                assert(fl.skip(n)[0] == fl[n] && fl.skip(n).skip(1) =~= fl.skip(n + 1));
                from.is_distinct();
                to.is_distinct();
                assert(f[n] == (fl[n].0, item_of(fl[n].1)));
                assert(item_ok(list_of(*from).items[n].1, *to_def, *meta));
                same_places(tl, id);
                num_of(fl, id);
                num_of(tl, id);
                assert(fl[n].0 == id);
                assert(has_id(fl, id));
                if has_id(tl, id) {
                    let q = pos(tl, id);
                    assert(t[q] == (id, item_of(tl[q].1)));
                    assert(item_ok(list_of(*to).items[q].1, *to_def, *meta));
                    assert(list_of(*from).items[n].0 == list_of(*to).items[q].0);
                }
                part_way_on(f, t, p, n);
            }
//@ last 0
            proof {
                let next = part_way(f, t, p, n + 1);
                if result@.len() > r0.len() {
                    let w = result@.last().1;
                    let c = if w is Delete { (id, Change::Delete) } else {
                        (id, Change::Modify(choose|x: ItemDiff| #[trigger] item_good(w->Modify_0, x, f[n].1, t[pos(t, id)].1, *meta)))
                    };
                    assert(step(cur, c.0, c.1, next, *meta));
                    step_more(f, d, 0, cur, c, next, *meta);
                    d = with(d, c);
                    assert forall|i: int| 0 <= i < d.items.len() implies change_w(#[trigger] result@[i], d.items[i], *meta) by {
                        if i < d0.items.len() { assert(change_w(r0[i], d0.items[i], *meta)); }
                    }
                } else {
                    assert(cur =~= next);
                }
                cur = next;
                n = n + 1;
            }
//@ post 0
        proof {
            from.is_distinct();
            to.is_distinct();
            same_places(fl, 0);
            same_places(tl, 0);
            assert(nums(f) =~= nums(fl) && nums(t) =~= nums(tl));
            part_way_end(f, t, nums(fl), nums(tl), moved@);
            n = 0;
            rest_way_start(t, p);
        }
//@ loop 1
            invariant
                tables_match(*to_def, *meta), fl == from@, tl == to@, f == entries_of(fl), t == entries_of(tl), list_ok(list_of(*to), *to_def, *meta),
                p == keeper(nums(fl), nums(tl), moved@), 0 <= n <= tl.len(), it@ == tl.skip(n),
                result@.len() == d.items.len(), d.next == to.next(),
                forall|i: int| 0 <= i < d.items.len() ==> change_w(#[trigger] result@[i], d.items[i], *meta),
                cur == rest_way(t, p, n), changes_lead(f, d, 0, cur, *meta),
                prev_id == (if n == 0 { None } else { Some(t[n - 1].0) }),
                result@.len() == 0 ==> cur == f,
            ensures n == tl.len(),
            decreases tl.len() - n,
//@ in 1
            let ghost d0 = d;
            let ghost r0 = result@;
            proof {
                let id = tl[n].0;
                assert(tl.skip(n)[0] == tl[n] && tl.skip(n).skip(1) =~= tl.skip(n + 1));
                to.is_distinct();
                same_places(tl, id);
                assert(t[n] == (tl[n].0, item_of(tl[n].1)));
                assert(item_ok(list_of(*to).items[n].1, *to_def, *meta));
                num_of(fl, id);
                num_of(tl, id);
                assert(tl[n].0 == id);
                assert(has_id(tl, id));
                rest_way_on(t, p, n);
            }
//@ last 1
            proof {
                let next = rest_way(t, p, n + 1);
                if result@.len() > r0.len() {
                    let w = result@.last().1->Create_0;
                    let x = choose|x: ItemDiff| #[trigger] item_good(w.diff, x, no_item(), t[n].1, *meta);
                    let c = (id, Change::Create(w.prev_id, x));
                    assert(step(cur, c.0, c.1, next, *meta));
                    step_more(f, d, 0, cur, c, next, *meta);
                    d = with(d, c);
                    assert forall|i: int| 0 <= i < d.items.len() implies change_w(#[trigger] result@[i], d.items[i], *meta) by {
                        if i < d0.items.len() { assert(change_w(r0[i], d0.items[i], *meta)); }
                    }
                } else {
                    assert(cur == next);
                }
                cur = next;
                n = n + 1;
            }
//@ post 1
        proof {
            rest_way_end(t, p);
            assert(cur == t);
            assert(result@.len() == 0 && from.next() == to.next() ==> list_of(*from) == list_of(*to));
            assert forall|w: ListDiffW| w.items == result && w.meta == meta && w.next_id == to.next() implies #[trigger] is_list_diff(w, list_of(*from), list_of(*to), *meta) by {
                changes_good(w, d, list_of(*from), list_of(*to), *meta);
            }
        }
//@ end
    // ------------------------------------------------------------------ the root
    pub open spec fn roots(def: RootDefObj) -> Map<Seq<char>, (usize, RootValue)> { def.def@ }
    pub open spec fn root_ids_of(def: Map<Seq<char>, (usize, RootValue)>) -> Map<Seq<char>, usize> { def.map_values(|v: (usize, RootValue)| v.0) }
    pub open spec fn root_match(k: Seq<char>, id: usize, v: RootValue, m: MetaTable) -> bool {
        v is Table || v is CList || (id < m.table@.len() && m.table[id as int] is Some && name_at((m.table[id as int]->0).0) == k && match (v, (m.table[id as int]->0).1) {
            (RootValue::Param(p, vt), MetaValue::Param(x)) => x.param_type == type_of(p) && x.var_type == vt,
            (RootValue::MList(l), MetaValue::MList(t)) => !l.undefiable && tables_match(*l.default, t),
            (RootValue::MList(l), MetaValue::OptMil(t)) => l.undefiable && tables_match(*l.default, t),
            _ => false,
        })
    }
    /// the table says what the definition says
    pub open spec fn table_matches(def: RootDefObj, m: MetaTable) -> bool {
        forall|k: Seq<char>| #[trigger] roots(def).dom().contains(k) ==> root_match(k, roots(def)[k].0, roots(def)[k].1, m)
    }
    pub open spec fn root_member_ok(x: Member, id: usize, v: RootValue, m: MetaTable) -> bool {
        match (x, v) {
            (Member::Param(x), RootValue::Param(p, vt)) => value_ok(x, p, vt),
            (Member::List(None), RootValue::MList(l)) => l.undefiable,
            (Member::List(Some(x)), RootValue::MList(l)) => tables_at(m, id) is Some && list_ok(x, *l.default, tables_at(m, id)->0),
            _ => false,
        }
    }
    /// what the root of the definition can hold
    pub open spec fn root_ok(x: Map<Seq<char>, Member>, def: RootDefObj, m: MetaTable) -> bool {
        forall|k: Seq<char>| #[trigger] x.dom().contains(k) ==> roots(def).dom().contains(k) && root_member_ok(x[k], roots(def)[k].0, roots(def)[k].1, m)
    }
    /// the later state comes from the earlier one: what has been set can be changed and not unset, every list is there from the start
    pub open spec fn root_derived(f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        &&& forall|k: Seq<char>| #[trigger] f.dom().contains(k) ==> t.dom().contains(k)
        &&& forall|k: Seq<char>| #[trigger] t.dom().contains(k) && t[k] is List ==> f.dom().contains(k) && f[k] is List
        &&& forall|k: Seq<char>, id: usize| f.dom().contains(k) && #[trigger] is_number(k, id, m) ==> member_derived(f[k], t[k], id, m)
    }
    pub proof fn declared_root(x: Map<Seq<char>, Member>, def: RootDefObj, m: MetaTable, k: Seq<char>)
        requires table_matches(def, m), root_ok(x, def, m), x.dom().contains(k),
        ensures
            roots(def).dom().contains(k), root_ids_of(roots(def)).dom().contains(k), root_ids_of(roots(def))[k] == roots(def)[k].0,
            meta_at(m, roots(def)[k].0) is Some, name_of(m, roots(def)[k].0) == k, is_number(k, roots(def)[k].0, m),
            !(x[k] is Const),
            x[k] is Param ==> roots(def)[k].1 is Param && param_fits(x[k]->Param_0, m, roots(def)[k].0),
            x[k] is List ==> roots(def)[k].1 is MList && tables_at(m, roots(def)[k].0) is Some
                && tables_match(*roots(def)[k].1->MList_0.default, tables_at(m, roots(def)[k].0)->0)
                && (x[k]->List_0 is Some ==> list_ok(x[k]->List_0->0, *roots(def)[k].1->MList_0.default, tables_at(m, roots(def)[k].0)->0))
                && (x[k]->List_0 is None ==> (meta_at(m, roots(def)[k].0)->0).1 is OptMil),
    {
        let id = roots(def)[k].0;
        assert(root_match(k, id, roots(def)[k].1, m));
        assert(root_member_ok(x[k], id, roots(def)[k].1, m));
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::default -> r
            ensures *r == *self.default,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::meta_table -> r
            ensures *r == *self.meta_table,
//@ end
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::sabun -> r
            ensures *r == *self.sabun,
//@ end
    }
    impl RootDefObj {
//@ fn dochy_core/src/imp/structs/root_def_obj.rs RootDefObj::def -> r
            ensures *r == self.def,
//@ end
    }
    pub open spec fn root_good(w: RootDiffW, d: ItemDiff, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        params_w(w.params@, d.params) && lists_w(w.lists@, d.lists, m) && params_fit(d.params, m) && lists_fit(d.lists, m) && root_leads(f, d, t, m)
    }
    pub open spec fn is_root_diff(w: RootDiffW, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        exists|d: ItemDiff| #[trigger] root_good(w, d, f, t, m)
    }
    pub open spec fn def_of(r: RootObject) -> RootDefObj { *r.default }
    pub open spec fn sab_of(r: RootObject) -> HashM<String, RootSabValue> { *r.sabun }
    /// two states of the same definition, the later one derived from the earlier one
    pub open spec fn in_order(from: RootObject, to: RootObject) -> bool {
        &&& table_matches(def_of(to), table_of(to))
        &&& root_ok(roots_of(sab_of(from)@), def_of(to), table_of(to))
        &&& root_ok(roots_of(sab_of(to)@), def_of(to), table_of(to))
        &&& root_derived(roots_of(sab_of(from)@), roots_of(sab_of(to)@), table_of(to))
    }
//@ fn dochy_diff/src/imp/prepare/get_root_diff.rs get_root_diff -> res
//@ sub in t\b => in t.iter()
//@ next 0 it
        requires in_order(*from, *to),
        ensures res is Ok, *res->Ok_0.meta_table == table_of(*to), is_root_diff(res->Ok_0, roots_of(sab_of(*from)@), roots_of(sab_of(*to)@), table_of(*to)),
//@ start
        let ghost fs = from.sabun@;
        let ghost vs = to.sabun@;
        let ghost gf = roots_of(fs);
        let ghost gt = roots_of(vs);
        let ghost gd = def_of(*to);
        let ghost gm = table_of(*to);
        let ghost ids = root_ids_of(roots(gd));
        let ghost ks = sab_of(*to).order();
        let ghost mut n: int = 0;
        proof { assert(gt.dom() =~= vs.dom()); assert(gf.dom() =~= fs.dom()); }
//@ pre 0
        proof { assert(map_of(Seq::<(usize, &RustParam)>::empty()).dom() =~= Set::empty()); assert(map_of(Seq::<(usize, Option<ListDiffW>)>::empty()).dom() =~= Set::empty()); }
//@ loop 0
            invariant
                gf == roots_of(fs), gf.dom() =~= fs.dom(), f@ == fs, gt == roots_of(vs), gt.dom() =~= vs.dom(), *def == gd.def, *meta == gm, ids == root_ids_of(roots(gd)),
                table_matches(gd, gm), root_ok(gf, gd, gm), root_ok(gt, gd, gm), root_derived(gf, gt, gm), it.map() == vs, lists_all(ks, vs), 0 <= n <= ks.len(), it@ == ks.skip(n),
                gathered(gf, gt, ids, gm, map_of(params@), map_of(lists@), ks.take(n)),
            ensures n == ks.len(),
            decreases ks.len() - n,
//@ in 0
            let ghost p0 = map_of(params@);
            let ghost l0 = map_of(lists@);
            let ghost k = ks[n];
            proof {
                assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                assert(ks.take(n + 1) =~= ks.take(n).push(ks[n]));
                assert(vs.dom().contains(k));
                declared_root(gt, gd, gm, k);
                assert(gt[k] == root_member_of(vs[k]));
                if gf.dom().contains(k) {
                    declared_root(gf, gd, gm, k);
                    assert(gf[k] == root_member_of(fs[k]));
                    assert(fs[k] is Mut && fs[k]->Mut_0 is Some ==> list_before(gf, k) == list_of(*fs[k]->Mut_0->0.list));
                    assert(!(fs[k] is Mut && fs[k]->Mut_0 is Some) ==> list_before(gf, k) == no_list());
                    if gf[k] == gt[k] { gather(gf, gt, ids, gm, p0, l0, p0, l0, ks.take(n), k); }
                    assert(member_derived(gf[k], gt[k], roots(gd)[k].0, gm));
                }
                n = n + 1;
            }
//@ last 0
            proof {
                if gt[k] is List {
                    if gt[k]->List_0 is None { none_is_good(gf, k, gt[k], gm, ids[k]); }
                    else if is_list_diff(map_of(lists@)[ids[k]]->0, list_before(gf, k), gt[k]->List_0->0, tables_at(gm, ids[k])->0) {
                        list_is_good(map_of(lists@)[ids[k]]->0, gf, k, gt[k], gm, ids[k]);
                    }
                }
                assert(gt[k] is List && map_of(lists@) != l0 ==> map_of(lists@) == l0.insert(ids[k], map_of(lists@)[ids[k]]));
                assert(gt[k] is List ==> one_more(gf, gt, ids, gm, p0, l0, map_of(params@), map_of(lists@), k));
                gather(gf, gt, ids, gm, p0, l0, map_of(params@), map_of(lists@), ks.take(n - 1), k);
            }
//@ post 0
        proof {
            assert(ks.take(ks.len() as int) =~= ks);
            params.is_sorted();
            lists.is_sorted();
            root_gathered(gf, gt, gd, gm, params@, lists@, ks);
        }
//@ end
    pub proof fn root_gathered(f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, def: RootDefObj, m: MetaTable, ps: Seq<(usize, &RustParam)>, ls: Seq<(usize, Option<ListDiffW>)>, ks: Seq<Seq<char>>)
        requires
            sorted(ps), sorted(ls), gathered(f, t, root_ids_of(roots(def)), m, map_of(ps), map_of(ls), ks),
            forall|k: Seq<char>| #[trigger] t.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k,
            root_derived(f, t, m),
        ensures forall|w: RootDiffW| w.params@ == ps && w.lists@ == ls ==> #[trigger] is_root_diff(w, f, t, m),
    {
        assert forall|k: Seq<char>| #[trigger] t.dom().contains(k) implies ks.contains(k) by { }
        let d = all_gathered(f, t, root_ids_of(roots(def)), m, ps, ls, ks);
        assert forall|i: int| 0 <= i < d.lists.len() implies f.dom().contains(name_of(m, (#[trigger] d.lists[i]).0)) && f[name_of(m, d.lists[i].0)] is List by {
            assert(opt_leads(f, name_of(m, d.lists[i].0), d.lists[i].1, t[name_of(m, d.lists[i].0)], tables_at(m, d.lists[i].0)));
        }
        assert forall|w: RootDiffW| w.params@ == ps && w.lists@ == ls implies #[trigger] is_root_diff(w, f, t, m) by {
            assert(root_good(w, d, f, t, m));
        }
    }
    // ------------------------------------------------------------------ items that stay, in their order
    pub open spec fn nums<V>(l: Seq<(u64, V)>) -> Seq<u64> { Seq::new(l.len(), |i: int| l[i].0) }
    pub open spec fn keeper(f: Seq<u64>, t: Seq<u64>, moved: Set<u64>) -> spec_fn(u64) -> bool { |x: u64| f.contains(x) && t.contains(x) && !moved.contains(x) }
    pub open spec fn pick<V>(l: Seq<(u64, V)>, p: spec_fn(u64) -> bool) -> Seq<(u64, V)>
        decreases l.len()
    {
        if l.len() == 0 { Seq::empty() } else if p(l.last().0) { pick(l.drop_last(), p).push(l.last()) } else { pick(l.drop_last(), p) }
    }
    pub open spec fn sel(l: Seq<u64>, p: spec_fn(u64) -> bool) -> Seq<u64>
        decreases l.len()
    {
        if l.len() == 0 { Seq::empty() } else if p(l.last()) { sel(l.drop_last(), p).push(l.last()) } else { sel(l.drop_last(), p) }
    }
    pub proof fn num_of<V>(l: Seq<(u64, V)>, id: u64)
        ensures nums(l).contains(id) == has_id(l, id),
    {
        if has_id(l, id) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == id; assert(nums(l)[i] == id); }
        if nums(l).contains(id) { let i = choose|i: int| 0 <= i < nums(l).len() && nums(l)[i] == id; assert(l[i].0 == id); }
    }
    pub proof fn pick_nums<V>(l: Seq<(u64, V)>, p: spec_fn(u64) -> bool)
        ensures nums(pick(l, p)) == sel(nums(l), p),
        decreases l.len(),
    {
        if l.len() > 0 {
            pick_nums(l.drop_last(), p);
            assert(nums(l).drop_last() =~= nums(l.drop_last()));
            assert(nums(pick(l, p)) =~= sel(nums(l), p));
        } else { assert(nums(pick(l, p)) =~= sel(nums(l), p)); }
    }
    pub proof fn pick_add<V>(a: Seq<(u64, V)>, b: Seq<(u64, V)>, p: spec_fn(u64) -> bool)
        ensures pick(a + b, p) == pick(a, p) + pick(b, p),
        decreases b.len(),
    {
        if b.len() == 0 { assert(a + b =~= a); assert(pick(a, p) + pick(b, p) =~= pick(a, p)); } else {
            pick_add(a, b.drop_last(), p);
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
            assert(pick(a + b, p) =~= pick(a, p) + pick(b, p));
        }
    }
    pub proof fn pick_in<V>(l: Seq<(u64, V)>, p: spec_fn(u64) -> bool, i: int) -> (j: int)
        requires 0 <= i < pick(l, p).len(),
        ensures 0 <= j < l.len(), l[j] == pick(l, p)[i], p(l[j].0),
        decreases l.len(),
    {
        if p(l.last().0) && i == pick(l, p).len() - 1 { l.len() - 1 } else { pick_in(l.drop_last(), p, i) }
    }
    pub proof fn pick_distinct<V>(l: Seq<(u64, V)>, p: spec_fn(u64) -> bool)
        requires distinct(l),
        ensures distinct(pick(l, p)),
        decreases l.len(),
    {
        if l.len() > 0 {
            let r = l.drop_last();
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by { assert(l[i].0 != l[j].0); }
            pick_distinct(r, p);
            let q = pick(l, p);
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by {
                if p(l.last().0) {
                    if j == q.len() - 1 { let x = pick_in(r, p, i); assert(l[x].0 != l[l.len() - 1].0); }
                    else { assert(pick(r, p)[i].0 != pick(r, p)[j].0); }
                } else { assert(pick(r, p)[i].0 != pick(r, p)[j].0); }
            }
        }
    }
    pub proof fn pick_one<V>(x: (u64, V), p: spec_fn(u64) -> bool)
        ensures pick(seq![x], p) == (if p(x.0) { seq![x] } else { Seq::empty() }),
    {
        let s = seq![x];
        assert(s.drop_last() =~= Seq::empty());
        assert(pick(s.drop_last(), p) =~= Seq::empty());
        assert(pick(s, p) =~= (if p(x.0) { seq![x] } else { Seq::empty() }));
    }
    pub proof fn same_nums<V, W>(a: Seq<(u64, V)>, b: Seq<(u64, W)>)
        requires nums(a) == nums(b), distinct(a),
        ensures distinct(b), a.len() == b.len(),
    {
        assert(nums(a).len() == a.len() && nums(b).len() == b.len());
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by {
            assert(nums(a)[i] == nums(b)[i] && nums(a)[j] == nums(b)[j]);
            assert(nums(a)[i] == a[i].0 && nums(a)[j] == a[j].0 && nums(b)[i] == b[i].0 && nums(b)[j] == b[j].0);
            assert(a[i].0 != a[j].0);
        }
    }
    // ---- the first n items removed or brought up to date
    pub open spec fn upd(l: Seq<(u64, Item)>, t: Seq<(u64, Item)>) -> Seq<(u64, Item)> { Seq::new(l.len(), |j: int| (l[j].0, t[pos(t, l[j].0)].1)) }
    pub open spec fn part_way(f: Seq<(u64, Item)>, t: Seq<(u64, Item)>, p: spec_fn(u64) -> bool, n: int) -> Seq<(u64, Item)> { upd(pick(f.take(n), p), t) + f.skip(n) }
    pub proof fn part_way_start(f: Seq<(u64, Item)>, t: Seq<(u64, Item)>, p: spec_fn(u64) -> bool)
        ensures part_way(f, t, p, 0) == f,
    {
        assert(f.take(0) =~= Seq::empty());
        assert(part_way(f, t, p, 0) =~= f);
    }
    pub proof fn part_way_on(f: Seq<(u64, Item)>, t: Seq<(u64, Item)>, p: spec_fn(u64) -> bool, n: int)
        requires 0 <= n < f.len(), distinct(f),
        ensures ({
            let a = part_way(f, t, p, n);
            let b = part_way(f, t, p, n + 1);
            let id = f[n].0;
            &&& has_id(a, id) && a[pos(a, id)] == f[n] && 0 <= pos(a, id) < a.len()
            &&& !p(id) ==> b == without(a, id)
            &&& p(id) ==> b == a.update(pos(a, id), (id, t[pos(t, id)].1)) && b.len() == a.len() && b[pos(a, id)] == (id, t[pos(t, id)].1)
        }),
    {
        let a = part_way(f, t, p, n);
        let b = part_way(f, t, p, n + 1);
        let id = f[n].0;
        let x = pick(f.take(n), p);
        let o = x + f.skip(n);
        assert forall|i: int, j: int| 0 <= i < j < f.take(n).len() implies (#[trigger] f.take(n)[i]).0 != (#[trigger] f.take(n)[j]).0 by { assert(f[i].0 != f[j].0); }
        pick_distinct(f.take(n), p);
        assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).0 != (#[trigger] o[j]).0 by {
            if j < x.len() { assert(x[i].0 != x[j].0); }
            else if i < x.len() { let y = pick_in(f.take(n), p, i); assert(f[y].0 != f[n + j - x.len()].0); }
            else { assert(f[n + i - x.len()].0 != f[n + j - x.len()].0); }
        }
        assert(nums(o) =~= nums(a));
        same_nums(o, a);
        let q = x.len() as int;
        assert(a[q] == f[n]);
        at_pos(a, q);
        assert(f.take(n + 1) =~= f.take(n) + seq![f[n]]);
        pick_add(f.take(n), seq![f[n]], p);
        pick_one(f[n], p);
        if p(id) {
            assert(pick(f.take(n + 1), p) =~= x.push(f[n]));
            assert(b =~= a.update(q, (id, t[pos(t, id)].1)));
        } else {
            assert(pick(f.take(n + 1), p) =~= x);
            assert(b =~= a.remove(q));
        }
    }
    pub proof fn part_way_end(f: Seq<(u64, Item)>, t: Seq<(u64, Item)>, fn_: Seq<u64>, tn: Seq<u64>, moved: Set<u64>)
        requires distinct(t), fn_ == nums(f), tn == nums(t), sel(fn_, keeper(fn_, tn, moved)) == sel(tn, keeper(fn_, tn, moved)),
        ensures part_way(f, t, keeper(fn_, tn, moved), f.len() as int) == pick(t, keeper(fn_, tn, moved)),
    {
        let p = keeper(fn_, tn, moved);
        assert(f.take(f.len() as int) =~= f);
        pick_nums(f, p);
        pick_nums(t, p);
        let a = pick(f, p);
        let b = pick(t, p);
        assert(nums(a) == nums(b));
        assert(a.len() == nums(a).len() && b.len() == nums(b).len());
        assert forall|i: int| 0 <= i < a.len() implies upd(a, t)[i] == b[i] by {
            assert(nums(a)[i] == nums(b)[i]);
            let j = pick_in(t, p, i);
            at_pos(t, j);
        }
        assert(part_way(f, t, p, f.len() as int) =~= b);
    }
    // ---- the first n items put in their places
    pub open spec fn rest_way(t: Seq<(u64, Item)>, p: spec_fn(u64) -> bool, n: int) -> Seq<(u64, Item)> { t.take(n) + pick(t.skip(n), p) }
    pub proof fn rest_way_start(t: Seq<(u64, Item)>, p: spec_fn(u64) -> bool)
        ensures rest_way(t, p, 0) == pick(t, p),
    {
        assert(t.skip(0) =~= t);
        assert(rest_way(t, p, 0) =~= pick(t, p));
    }
    pub proof fn rest_way_end(t: Seq<(u64, Item)>, p: spec_fn(u64) -> bool)
        ensures rest_way(t, p, t.len() as int) == t,
    {
        assert(rest_way(t, p, t.len() as int) =~= t);
    }
    pub proof fn rest_way_on(t: Seq<(u64, Item)>, p: spec_fn(u64) -> bool, n: int)
        requires 0 <= n < t.len(), distinct(t),
        ensures ({
            let a = rest_way(t, p, n);
            let b = rest_way(t, p, n + 1);
            let id = t[n].0;
            &&& p(id) ==> b == a
            &&& !p(id) ==> !has_id(a, id) && b == a.insert(n, t[n]) && b.len() == a.len() + 1 && b[n] == t[n]
            &&& !p(id) && n == 0 ==> b == seq![t[n]] + a
            &&& n > 0 ==> has_id(a, t[n - 1].0) && pos(a, t[n - 1].0) == n - 1
        }),
    {
        let a = rest_way(t, p, n);
        let b = rest_way(t, p, n + 1);
        let x = t.skip(n);
        let y = pick(x, p);
        assert(x =~= seq![t[n]] + t.skip(n + 1));
        pick_add(seq![t[n]], t.skip(n + 1), p);
        pick_one(t[n], p);
        assert forall|i: int, j: int| 0 <= i < j < x.len() implies (#[trigger] x[i]).0 != (#[trigger] x[j]).0 by { assert(t[n + i].0 != t[n + j].0); }
        pick_distinct(x, p);
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by {
            if j < n { assert(t[i].0 != t[j].0); }
            else if i < n { let z = pick_in(x, p, j - n); assert(t[i].0 != t[n + z].0); }
            else { assert(y[i - n].0 != y[j - n].0); }
        }
        if n > 0 { assert(a[n - 1] == t[n - 1]); at_pos(a, n - 1); }
        if p(t[n].0) {
            assert(a =~= b);
        } else {
            if has_id(a, t[n].0) {
                let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == t[n].0;
                if i < n { assert(t[i].0 != t[n].0); } else { let z = pick_in(x, p, i - n); }
            }
            assert(y =~= pick(t.skip(n + 1), p));
            assert(b =~= a.insert(n, t[n]));
            if n == 0 { assert(b =~= seq![t[n]] + a); }
        }
    }
    // TRUSTED: what stands for `from.iter().map(|(&id, _)| id).filter(..)`
    #[verifier::external_body]
    pub struct Ids<'a> { x: &'a u64 }
    impl<'a> Ids<'a> {
        pub uninterp spec fn view(&self) -> Seq<u64>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<u64>)
            ensures match r {
                Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn ids_filtered<'a, V, F: Fn(u64) -> bool>(l: LinkedMapIter<'a, V>, f: F, Ghost(p): Ghost<spec_fn(u64) -> bool>) -> (r: Ids<'a>)
        requires forall|x: u64| #[trigger] f.requires((x,)), forall|x: u64, b: bool| #[trigger] f.ensures((x,), b) ==> b == p(x),
        ensures r@ == sel(nums(l@), p),
    { unimplemented!() }
//@ fn dochy_diff/src/imp/prepare/get_mlist_diff.rs get_moved_ids -> res
//@ sub from\.iter\(\)\.map\(\|\(&id, _\)\| id\)\.filter\(\|&id\| ([^;|]*)\); => ids_filtered(from.iter(), |id: u64| -> (b: bool) ensures b == has_id(to@, id) { \1 }, Ghost(within(nums(to@))));
//@ sub \bin to\b => in to.iter()
//@ next 0 it
        ensures sel(nums(from@), keeper(nums(from@), nums(to@), res@)) == sel(nums(to@), keeper(nums(from@), nums(to@), res@)),
//@ start
        let ghost f = nums(from@);
        let ghost t = nums(to@);
        let ghost c = sel(f, within(t));
        let ghost mut i: int = 0;
        let ghost mut q: int = 0;
        proof {
            from.is_distinct();
            to.is_distinct();
            assert(alone(f)) by { assert forall|i: int, j: int| 0 <= i < j < f.len() implies f[i] != f[j] by { assert(from@[i].0 != from@[j].0); } }
            assert(alone(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by { assert(to@[i].0 != to@[j].0); } }
            sel_alone(f, within(t));
            assert forall|x: u64| #[trigger] has_id(to@, x) == within(t)(x) by { num_of(to@, x); }
        }
//@ pre 0
        proof {
            assert(c.skip(0) =~= c);
            assert(t.take(0) =~= Seq::empty() && c.take(0) =~= Seq::empty());
        }
//@ loop 0
            invariant
                f == nums(from@), t == nums(to@), c == sel(f, within(t)), alone(f), alone(t), alone(c), 0 <= i <= t.len(), it@ == to@.skip(i),
                0 <= q <= c.len(), from_ids@ == c.skip(q), in_step(f, t, c, moved@, i, q),
            ensures i == t.len(),
            decreases t.len() - i,
//@ in 0
            let ghost i0 = i;
            proof {
                assert(to@.skip(i)[0] == to@[i] && to@.skip(i).skip(1) =~= to@.skip(i + 1));
                assert(t[i] == to@[i].0);
                num_of(from@, t[i]);
                if !f.contains(t[i]) || moved@.contains(t[i]) { left_out(f, t, c, moved@, i, q); } else { still_ahead(f, t, c, moved@, i, q); }
                i = i + 1;
            }
//@ loop 1
                invariant_except_break
                    f == nums(from@), t == nums(to@), c == sel(f, within(t)), alone(f), alone(t), alone(c), 0 <= i0 < t.len(), i == i0 + 1, id == t[i0],
                    0 <= q <= c.len(), from_ids@ == c.skip(q), in_step(f, t, c, moved@, i0, q),
                    f.contains(id), !moved@.contains(id), ahead(c, q, id),
                ensures
                    0 < q <= c.len(), c[q - 1] == t[i0], in_step(f, t, c, moved@, i0, q - 1), f.contains(t[i0]), !moved@.contains(t[i0]), from_ids@ == c.skip(q),
                decreases c.len() - q,
//@ in 1
                proof {
                    assert(c.skip(q)[0] == c[q] && c.skip(q).skip(1) =~= c.skip(q + 1));
                    if c[q] != t[i0] { passed_by(f, t, c, moved@, i0, q); }
                    q = q + 1;
                }
//@ last 0
            proof { met(f, t, c, moved@, i0, q); }
//@ post 0
        proof {
            assert(t.take(i) =~= t);
            all_met(f, t, c, moved@, q);
        }
//@ end
    pub open spec fn alone(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
    pub open spec fn ahead(c: Seq<u64>, q: int, x: u64) -> bool { exists|j: int| q <= j < c.len() && #[trigger] c[j] == x }
    pub open spec fn behind(c: Seq<u64>, q: int, x: u64) -> bool { exists|j: int| 0 <= j < q && #[trigger] c[j] == x }
    /// after i items of the one list and q of the other
    pub open spec fn in_step(f: Seq<u64>, t: Seq<u64>, c: Seq<u64>, moved: Set<u64>, i: int, q: int) -> bool {
        &&& forall|x: u64| #[trigger] moved.contains(x) ==> behind(c, q, x)
        &&& forall|j: int| 0 <= j < i && f.contains(#[trigger] t[j]) ==> behind(c, q, t[j])
        &&& forall|j: int| 0 <= j < q ==> moved.contains(#[trigger] c[j]) || behind(t, i, c[j])
        &&& sel(t.take(i), keeper(f, t, moved)) == sel(c.take(q), keeper(f, t, moved))
    }
    pub proof fn sel_next(l: Seq<u64>, i: int, p: spec_fn(u64) -> bool)
        requires 0 <= i < l.len(),
        ensures sel(l.take(i + 1), p) == (if p(l[i]) { sel(l.take(i), p).push(l[i]) } else { sel(l.take(i), p) }),
    {
        assert(l.take(i + 1).drop_last() =~= l.take(i));
    }
    pub proof fn sel_agree(l: Seq<u64>, p: spec_fn(u64) -> bool, q: spec_fn(u64) -> bool)
        requires forall|i: int| 0 <= i < l.len() ==> p(#[trigger] l[i]) == q(l[i]),
        ensures sel(l, p) == sel(l, q),
        decreases l.len(),
    {
        if l.len() > 0 {
            assert forall|i: int| 0 <= i < l.drop_last().len() implies p(#[trigger] l.drop_last()[i]) == q(l.drop_last()[i]) by { assert(l[i] == l.drop_last()[i]); }
            sel_agree(l.drop_last(), p, q);
        }
    }
    pub proof fn sel_in(l: Seq<u64>, p: spec_fn(u64) -> bool, i: int) -> (j: int)
        requires 0 <= i < sel(l, p).len(),
        ensures 0 <= j < l.len(), l[j] == sel(l, p)[i], p(l[j]),
        decreases l.len(),
    {
        if p(l.last()) && i == sel(l, p).len() - 1 { l.len() - 1 } else { sel_in(l.drop_last(), p, i) }
    }
    pub proof fn sel_has(l: Seq<u64>, p: spec_fn(u64) -> bool, j: int) -> (i: int)
        requires 0 <= j < l.len(), p(l[j]),
        ensures 0 <= i < sel(l, p).len(), sel(l, p)[i] == l[j],
        decreases l.len(),
    {
        if j == l.len() - 1 { sel(l, p).len() - 1 } else { sel_has(l.drop_last(), p, j) }
    }
    pub proof fn sel_alone(l: Seq<u64>, p: spec_fn(u64) -> bool)
        requires alone(l),
        ensures alone(sel(l, p)),
        decreases l.len(),
    {
        if l.len() > 0 {
            let r = l.drop_last();
            sel_alone(r, p);
            let s = sel(l, p);
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by {
                if p(l.last()) && j == s.len() - 1 { let x = sel_in(r, p, i); }
                else { assert(sel(r, p)[i] != sel(r, p)[j]); }
            }
        }
    }
    pub proof fn sel_twice(l: Seq<u64>, p: spec_fn(u64) -> bool, q: spec_fn(u64) -> bool)
        requires forall|x: u64| #[trigger] q(x) ==> p(x),
        ensures sel(sel(l, p), q) == sel(l, q),
        decreases l.len(),
    {
        if l.len() > 0 {
            sel_twice(l.drop_last(), p, q);
            if p(l.last()) { assert(sel(l, p).drop_last() =~= sel(l.drop_last(), p)); }
        }
    }
    pub proof fn left_out(f: Seq<u64>, t: Seq<u64>, c: Seq<u64>, moved: Set<u64>, i: int, q: int)
        requires in_step(f, t, c, moved, i, q), 0 <= i < t.len(), !f.contains(t[i]) || moved.contains(t[i]),
        ensures in_step(f, t, c, moved, i + 1, q),
    {
        sel_next(t, i, keeper(f, t, moved));
        assert forall|j: int| 0 <= j < q implies moved.contains(#[trigger] c[j]) || behind(t, i + 1, c[j]) by {
            if behind(t, i, c[j]) { let k = choose|k: int| 0 <= k < i && #[trigger] t[k] == c[j]; }
        }
    }
    pub proof fn still_ahead(f: Seq<u64>, t: Seq<u64>, c: Seq<u64>, moved: Set<u64>, i: int, q: int)
        requires in_step(f, t, c, moved, i, q), c == sel(f, within(t)), alone(t), 0 <= i < t.len(), 0 <= q <= c.len(), f.contains(t[i]), !moved.contains(t[i]),
        ensures ahead(c, q, t[i]),
    {
        let j = choose|j: int| 0 <= j < f.len() && f[j] == t[i];
        assert(t.contains(f[j]));
        let k = sel_has(f, within(t), j);
        assert(c[k] == t[i]);
        if k < q {
            assert(behind(t, i, c[k]));
            let x = choose|x: int| 0 <= x < i && #[trigger] t[x] == c[k];
            assert(t[x] != t[i]);
        }
    }
    pub proof fn passed_by(f: Seq<u64>, t: Seq<u64>, c: Seq<u64>, moved: Set<u64>, i: int, q: int)
        requires in_step(f, t, c, moved, i, q), c == sel(f, within(t)), alone(c), 0 <= i < t.len(), 0 <= q < c.len(), c[q] != t[i], ahead(c, q, t[i]),
        ensures in_step(f, t, c, moved.insert(c[q]), i, q + 1), ahead(c, q + 1, t[i]),
    {
        let x = c[q];
        let m = moved.insert(x);
        let p0 = keeper(f, t, moved);
        let p1 = keeper(f, t, m);
        let fj = sel_in(f, within(t), q);
        assert(f.contains(x));
        assert forall|j: int| 0 <= j < i implies p0(#[trigger] t.take(i)[j]) == p1(t.take(i)[j]) by {
            if t[j] == x {
                assert(behind(c, q, t[j]));
                let k = choose|k: int| 0 <= k < q && #[trigger] c[k] == x;
                assert(c[k] != c[q]);
            }
        }
        sel_agree(t.take(i), p0, p1);
        assert forall|j: int| 0 <= j < q implies p0(#[trigger] c.take(q)[j]) == p1(c.take(q)[j]) by { assert(c[j] != c[q]); }
        sel_agree(c.take(q), p0, p1);
        sel_next(c, q, p1);
        assert forall|y: u64| #[trigger] m.contains(y) implies behind(c, q + 1, y) by {
            if y == x { assert(c[q] == y); } else { assert(behind(c, q, y)); let k = choose|k: int| 0 <= k < q && #[trigger] c[k] == y; }
        }
        assert forall|j: int| 0 <= j < i && f.contains(#[trigger] t[j]) implies behind(c, q + 1, t[j]) by {
            assert(behind(c, q, t[j]));
            let k = choose|k: int| 0 <= k < q && #[trigger] c[k] == t[j];
        }
        let k = choose|k: int| q <= k < c.len() && #[trigger] c[k] == t[i];
        assert(k != q);
    }
    pub proof fn met(f: Seq<u64>, t: Seq<u64>, c: Seq<u64>, moved: Set<u64>, i: int, q: int)
        requires 0 < q <= c.len(), 0 <= i < t.len(), c[q - 1] == t[i], in_step(f, t, c, moved, i, q - 1), f.contains(t[i]), !moved.contains(t[i]),
        ensures in_step(f, t, c, moved, i + 1, q),
    {
        let p = keeper(f, t, moved);
        sel_next(t, i, p);
        sel_next(c, q - 1, p);
        assert forall|y: u64| #[trigger] moved.contains(y) implies behind(c, q, y) by {
            assert(behind(c, q - 1, y));
            let k = choose|k: int| 0 <= k < q - 1 && #[trigger] c[k] == y;
        }
        assert forall|j: int| 0 <= j < i + 1 && f.contains(#[trigger] t[j]) implies behind(c, q, t[j]) by {
            if j < i { assert(behind(c, q - 1, t[j])); let k = choose|k: int| 0 <= k < q - 1 && #[trigger] c[k] == t[j]; } else { assert(c[q - 1] == t[j]); }
        }
        assert forall|j: int| 0 <= j < q implies moved.contains(#[trigger] c[j]) || behind(t, i + 1, c[j]) by {
            if j == q - 1 { assert(t[i] == c[j]); }
            else if behind(t, i, c[j]) { let k = choose|k: int| 0 <= k < i && #[trigger] t[k] == c[j]; }
        }
    }
    pub proof fn all_met(f: Seq<u64>, t: Seq<u64>, c: Seq<u64>, moved: Set<u64>, q: int)
        requires in_step(f, t, c, moved, t.len() as int, q), c == sel(f, within(t)), alone(c), 0 <= q <= c.len(),
        ensures sel(f, keeper(f, t, moved)) == sel(t, keeper(f, t, moved)),
    {
        let p = keeper(f, t, moved);
        if q < c.len() {
            let j = sel_in(f, within(t), q);
            assert(f.contains(c[q]));
            let k = choose|k: int| 0 <= k < t.len() && t[k] == c[q];
            assert(behind(c, q, t[k]));
            let x = choose|x: int| 0 <= x < q && #[trigger] c[x] == t[k];
            assert(c[x] != c[q]);
        }
        assert(c.take(q) =~= c);
        assert(t.take(t.len() as int) =~= t);
        sel_twice(f, within(t), p);
    }
    pub open spec fn within(t: Seq<u64>) -> spec_fn(u64) -> bool { |x: u64| t.contains(x) }
}

/// the table of numbers that goes with a definition
pub mod table {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::prepare::{members, ref_members, def_match, ref_match, tables_match, roots, root_match, table_matches};
    pub open spec fn numbers<V>(m: Map<Seq<char>, (usize, V)>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k].0 < m.dom().len()
        &&& forall|k: Seq<char>, l: Seq<char>| #[trigger] m.dom().contains(k) && #[trigger] m.dom().contains(l) && k != l ==> m[k].0 != m[l].0
    }
    // TRUSTED: by recursion over the (finite) definitions below it
    /// the members are numbered from 0, also those of the lists below
    pub uninterp spec fn numbered(def: ListDefObj) -> bool;
    pub open spec fn items_numbered(m: ListDefMap) -> bool {
        numbers(m.map@) && forall|k: Seq<char>| #[trigger] m.map@.dom().contains(k) && m.map@[k].1 is MilDef ==> numbered(*m.map@[k].1->MilDef_0.default)
    }
    #[verifier::external_body]
    pub broadcast proof fn numbered_is(def: ListDefObj)
        ensures #[trigger] numbered(def) == (items_numbered(*def.default) && numbers(ref_members(def))),
    { }
    pub open spec fn root_numbered(m: Map<Seq<char>, (usize, RootValue)>) -> bool {
        numbers(m) && forall|k: Seq<char>| #[trigger] m.dom().contains(k) && m[k].1 is MList ==> numbered(*m[k].1->MList_0.default)
    }
    impl ParamType {
//@ fn dochy_core/src/imp/structs/param_type.rs ParamType::from -> r
            ensures r == type_of(*param),
//@ end
    }
    impl MetaParam {
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaParam::new -> r
            ensures r.param_type == param_type, r.var_type == var_type,
//@ end
    }
    impl MetaTables {
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTables::new -> r
            ensures r.items == items, r.refs == refs, r.is_enum == is_enum,
//@ end
    }
    impl RefDefObj {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefObj::is_enum -> r
            ensures r == self.is_enum,
//@ end
    }
    impl RefValue {
//@ fn dochy_core/src/imp/structs/ref_value.rs RefValue::var_type -> r
            ensures r == self.v.value_type,
//@ end
    }
    impl MutListDef {
//@ fn dochy_core/src/imp/structs/mut_list_def.rs MutListDef::undefiable -> r
            ensures r == self.undefiable,
//@ end
    }
//@ item dochy_core/src/imp/structs/list_def_obj.rs struct ListDefMapIter
//@ sub \bIter<'a, String, => HashIter<'a,
    impl<'a> ListDefMapIter<'a> {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs Iterator for ListDefMapIter::next -> r
//@ sub Self::Item => (&'a String, usize, &'a ListDefValue)
            ensures final(self).hash_iter.map() == old(self).hash_iter.map(), match r {
                Some((k, id, v)) => old(self).hash_iter@.len() > 0 && k@ == old(self).hash_iter@[0] && (id, *v) == old(self).hash_iter.map()[k@] && final(self).hash_iter@ == old(self).hash_iter@.skip(1),
                None => old(self).hash_iter@.len() == 0 && final(self).hash_iter@ == old(self).hash_iter@,
            },
//@ end
    }
    impl ListDefMap {
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::iter -> r
            ensures r.hash_iter.map() == self.map@, lists_all(r.hash_iter@, self.map@), r.hash_iter@ == self.map.order(),
//@ end
//@ fn dochy_core/src/imp/structs/list_def_obj.rs ListDefMap::len -> r
            ensures r == self.map@.dom().len(),
//@ end
    }
//@ item dochy_core/src/imp/structs/ref_def_obj.rs struct RefDefMapIter
//@ sub \bIter<'a, String, => HashIter<'a,
    impl<'a> RefDefMapIter<'a> {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs Iterator for RefDefMapIter::next -> r
//@ sub Self::Item => (&'a String, usize, &'a RefValue)
            ensures final(self).hash_iter.map() == old(self).hash_iter.map(), match r {
                Some((k, id, v)) => old(self).hash_iter@.len() > 0 && k@ == old(self).hash_iter@[0] && (id, *v) == old(self).hash_iter.map()[k@] && final(self).hash_iter@ == old(self).hash_iter@.skip(1),
                None => old(self).hash_iter@.len() == 0 && final(self).hash_iter@ == old(self).hash_iter@,
            },
//@ end
    }
    impl RefDefMap {
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefMap::iter -> r
            ensures r.hash_iter.map() == self.map@, lists_all(r.hash_iter@, self.map@), r.hash_iter@ == self.map.order(),
//@ end
//@ fn dochy_core/src/imp/structs/ref_def_obj.rs RefDefMap::len -> r
            ensures r == self.map@.dom().len(),
//@ end
    }
    pub type Row = Option<(Name, MetaValue)>;
//@ fn dochy_core/src/imp/structs/meta_table.rs init_vec -> r
//@ sub \*const String => Name
        ensures r@.len() == len, forall|i: int| 0 <= i < len ==> #[trigger] r@[i] is None,
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant vec@.len() == it.index@, forall|i: int| 0 <= i < vec@.len() ==> #[trigger] vec@[i] is None,
//@ end
    pub open spec fn items_match(m: ListDefMap, t: MetaTable) -> bool {
        forall|k: Seq<char>| #[trigger] m.map@.dom().contains(k) ==> def_match(k, m.map@[k].0, m.map@[k].1, t)
    }
    pub open spec fn refs_match(m: RefDefMap, t: MetaTable) -> bool {
        forall|k: Seq<char>| #[trigger] m.map@.dom().contains(k) ==> ref_match(k, m.map@[k].0, m.map@[k].1, t)
    }
    /// the row of a member of a list
    pub open spec fn row_ok(k: Seq<char>, v: ListDefValue, r: Row) -> bool {
        v is CilDef || (r is Some && name_at((r->0).0) == k && match (v, (r->0).1) {
            (ListDefValue::Param(p, vt), MetaValue::Param(x)) => x.param_type == type_of(p) && x.var_type == vt,
            (ListDefValue::MilDef(l), MetaValue::MList(t)) => !l.undefiable && tables_match(*l.default, t),
            (ListDefValue::MilDef(l), MetaValue::OptMil(t)) => l.undefiable && tables_match(*l.default, t),
            _ => false,
        })
    }
    pub open spec fn root_row_ok(k: Seq<char>, v: RootValue, r: Row) -> bool {
        v is Table || v is CList || (r is Some && name_at((r->0).0) == k && match (v, (r->0).1) {
            (RootValue::Param(p, vt), MetaValue::Param(x)) => x.param_type == type_of(p) && x.var_type == vt,
            (RootValue::MList(l), MetaValue::MList(t)) => !l.undefiable && tables_match(*l.default, t),
            (RootValue::MList(l), MetaValue::OptMil(t)) => l.undefiable && tables_match(*l.default, t),
            _ => false,
        })
    }
    impl MetaTable {
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTable::new -> r
//@ sub \*const String => Name
            ensures r.table == table,
//@ end
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTable::from_root -> r
//@ sub in root\b => in root.iter()
//@ sub Some\(\(key, => Some((name_of_key(key),
//@ next 0 it
            requires root_numbered(root@),
            ensures forall|k: Seq<char>| #[trigger] root@.dom().contains(k) ==> root_match(k, root@[k].0, root@[k].1, r),
//@ start
            let ghost m = root@;
            let ghost ks = root.order();
            let ghost mut n: int = 0;
//@ loop 0
                invariant
                    it.map() == m, lists_all(ks, m), 0 <= n <= ks.len(), it@ == ks.skip(n), vec@.len() == m.dom().len(), root_numbered(m),
                    forall|j: int| 0 <= j < n ==> root_row_ok(#[trigger] ks[j], m[ks[j]].1, vec@[m[ks[j]].0 as int]),
                ensures n == ks.len(),
                decreases ks.len() - n,
//@ in 0
                let ghost v0 = vec@;
                let ghost k = ks[n];
                proof {
                    broadcast use numbered_is;
                    assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                    assert(m.dom().contains(k));
                    n = n + 1;
                }
//@ last 0
                proof {
                    assert(root_row_ok(k, m[k].1, vec@[m[k].0 as int]));
                    assert forall|j: int| 0 <= j < n implies root_row_ok(#[trigger] ks[j], m[ks[j]].1, vec@[m[ks[j]].0 as int]) by {
                        if j < n - 1 { assert(ks[j] != k); assert(m.dom().contains(ks[j])); assert(vec@[m[ks[j]].0 as int] == v0[m[ks[j]].0 as int]); }
                    }
                }
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTable::from_list_def -> r
//@ sub in list_def\b => in list_def.iter()
//@ sub Some\(\(key, => Some((name_of_key(key),
//@ sub \*const String => Name
//@ next 0 it
            requires items_numbered(*list_def),
            ensures items_match(*list_def, r),
//@ start
            let ghost m = list_def.map@;
            let ghost ks = list_def.map.order();
            let ghost mut n: int = 0;
//@ loop 0
                invariant
                    it.hash_iter.map() == m, lists_all(ks, m), 0 <= n <= ks.len(), it.hash_iter@ == ks.skip(n), vec@.len() == m.dom().len(), m == list_def.map@, items_numbered(*list_def),
                    forall|j: int| 0 <= j < n ==> row_ok(#[trigger] ks[j], m[ks[j]].1, vec@[m[ks[j]].0 as int]),
                ensures n == ks.len(),
                decreases ks.len() - n,
//@ in 0
                let ghost v0 = vec@;
                let ghost k = ks[n];
                proof {
                    broadcast use numbered_is;
                    assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                    assert(m.dom().contains(k));
                    n = n + 1;
                }
//@ last 0
                proof {
                    assert(row_ok(k, m[k].1, vec@[m[k].0 as int]));
                    assert forall|j: int| 0 <= j < n implies row_ok(#[trigger] ks[j], m[ks[j]].1, vec@[m[ks[j]].0 as int]) by {
                        if j < n - 1 { assert(ks[j] != k); assert(m.dom().contains(ks[j])); assert(vec@[m[ks[j]].0 as int] == v0[m[ks[j]].0 as int]); }
                    }
                }
//@ end
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTable::from_ref_def -> r
//@ sub in ref_def\b => in ref_def.iter()
//@ sub Some\(\(key, => Some((name_of_key(key),
//@ sub \*const String => Name
//@ next 0 it
            requires numbers(ref_def.map@),
            ensures refs_match(*ref_def, r),
//@ start
            let ghost m = ref_def.map@;
            let ghost ks = ref_def.map.order();
            let ghost mut n: int = 0;
//@ loop 0
                invariant
                    it.hash_iter.map() == m, lists_all(ks, m), 0 <= n <= ks.len(), it.hash_iter@ == ks.skip(n), vec@.len() == m.dom().len(), numbers(m),
                    forall|j: int| 0 <= j < n ==> ref_row_ok(#[trigger] ks[j], m[ks[j]].1, vec@[m[ks[j]].0 as int]),
                ensures n == ks.len(),
                decreases ks.len() - n,
//@ in 0
                let ghost v0 = vec@;
                let ghost k = ks[n];
                proof {
                    assert(ks.skip(n)[0] == ks[n] && ks.skip(n).skip(1) =~= ks.skip(n + 1));
                    assert(m.dom().contains(k));
                    n = n + 1;
                }
//@ last 0
                proof {
                    assert(ref_row_ok(k, m[k].1, vec@[m[k].0 as int]));
                    assert forall|j: int| 0 <= j < n implies ref_row_ok(#[trigger] ks[j], m[ks[j]].1, vec@[m[ks[j]].0 as int]) by {
                        if j < n - 1 { assert(ks[j] != k); assert(m.dom().contains(ks[j])); assert(vec@[m[ks[j]].0 as int] == v0[m[ks[j]].0 as int]); }
                    }
                }
//@ end
    }
    pub open spec fn ref_row_ok(k: Seq<char>, v: RefValue, r: Row) -> bool {
        r is Some && name_at((r->0).0) == k && (r->0).1 is Param && (r->0).1->Param_0.var_type == v.v.value_type
    }
    impl RootObject {
//@ fn dochy_core/src/imp/structs/root_obj.rs RootObject::new -> r
            requires root_numbered(default.def@),
            ensures *r.default == default, *r.sabun == sabun, table_matches(*r.default, *r.meta_table),
//@ end
    }
}

/// from two states to the bytes, and from the bytes to the state
pub mod whole {
    use super::*;
    use super::base::*;
    use super::state::*;
    use super::access::*;
    use super::apply::*;
    use super::prepare::*;
    use vstd::utf8::*;
//@ include tokens.inc
    pub type DiffResult<T> = Result<T, DiffError>;
    pub struct CompError;
    impl From<CompError> for DiffError {
        #[verifier::external_body]
        fn from(e: CompError) -> DiffError { DiffError }
    }
    /// the values a diff is written as (unit `diffio` gives them)
    pub uninterp spec fn root_ts(d: ItemDiff, m: MetaTable) -> Seq<T>;
    // ASSUMED: discharged in unit `diffio`
    #[verifier::external_body]
    pub fn write_root(root: RootDiffW, Ghost(d): Ghost<ItemDiff>) -> (res: Result<Vec<KVal>, DiffError>)
        requires params_w(root.params@, d.params), lists_w(root.lists@, d.lists, *root.meta_table), params_fit(d.params, *root.meta_table), lists_fit(d.lists, *root.meta_table),
        ensures res is Ok, wrote(Seq::empty(), res->Ok_0@, root_ts(d, *root.meta_table)),
    { unimplemented!() }
    pub struct Reader { pub vec: Ghost<Seq<KVal>> }
    impl Reader {
        // ASSUMED: discharged in unit `diffio`
        #[verifier::external_body]
        pub fn new(vec: Vec<KVal>) -> (r: Reader)
            ensures r.vec@ == vec@,
        { unimplemented!() }
    }
    // ASSUMED: discharged in unit `diffio`
    #[verifier::external_body]
    pub fn read_root(r: &mut Reader, meta: &MetaTable, Ghost(d): Ghost<ItemDiff>) -> (res: Result<RootDiffR, DiffError>)
        requires params_fit(d.params, *meta), lists_fit(d.lists, *meta), starts(old(r).vec@, root_ts(d, *meta)),
        ensures res is Ok, params_r(res->Ok_0.params@, d.params), lists_r(res->Ok_0.lists@, d.lists),
    { unimplemented!() }
    /// the bytes of a sequence of values (unit `codec` gives them)
    pub uninterp spec fn layout(s: Seq<KVal>) -> Seq<u8>;
    pub open spec fn storable(v: KVal) -> bool {
        match v {
            KVal::Str16(s) => encode_utf8(s@).len() < 16,
            KVal::Str256(s) => encode_utf8(s@).len() < 256,
            KVal::BigStr(s) => encode_utf8(s@).len() < 0x10_0000_0000_0000,
            KVal::Binary(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::BinaryArc(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary8(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary4(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary2(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Undefined(n) => n < 8,
            _ => true,
        }
    }
    pub open spec fn storable_seq(s: Seq<KVal>) -> bool {
        s.len() < 0x10_0000_0000_0000 && forall|i: int| 0 <= i < s.len() ==> storable(#[trigger] s[i])
    }
    pub open spec fn same(a: KVal, b: KVal) -> bool {
        match (a, b) {
            (KVal::Str16(x), KVal::Str16(y)) => x@ == y@,
            (KVal::Str256(x), KVal::Str256(y)) => x@ == y@,
            (KVal::Decimal(x), KVal::Decimal(y)) => x.int_ == y.int_ && x.dot == y.dot,
            (KVal::BigStr(x), KVal::BigStr(y)) => x@ == y@,
            (KVal::Binary(x), KVal::Binary(y)) => x@ == y@,
            (KVal::Binary(x), KVal::BinaryArc(y)) => x@ == y@,
            (KVal::Binary8(x), KVal::Binary8(y)) => x@ == y@,
            (KVal::Binary4(x), KVal::Binary4(y)) => x@ == y@,
            (KVal::Binary2(x), KVal::Binary2(y)) => x@ == y@,
            (_, KVal::BinaryArc(_)) => false,
            _ => a == b,
        }
    }
    // ASSUMED: discharged in unit `codec`
    #[verifier::external_body]
    pub fn encode_to_vec(input: &Vec<KVal>) -> (r: Result<Vec<u8>, CompError>)
        requires storable_seq(input@), layout(input@).len() <= usize::MAX,
        ensures r is Ok, r->Ok_0@ == layout(input@),
    { unimplemented!() }
    pub trait Read: Sized {
        spec fn rest(&self) -> Seq<u8>;
    }
    pub open spec fn read_back(r: Seq<KVal>, s: Seq<KVal>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> same(#[trigger] r[i], s[i]) }
    // ASSUMED: discharged in unit `codec`
    #[verifier::external_body]
    pub fn decode<R: Read>(read: &mut R) -> (r: Result<(Vec<KVal>, usize), CompError>)
        ensures forall|s: Seq<KVal>| storable_seq(s) && old(read).rest() == #[trigger] layout(s) ==> r is Ok && read_back(r->Ok_0.0@, s),
    { unimplemented!() }
    // TRUSTED: nothing in memory takes 2^52 bytes
    #[verifier::external_body]
    pub proof fn in_memory(v: Vec<KVal>)
        ensures v@.len() < 0x10_0000_0000_0000, layout(v@).len() <= usize::MAX, forall|i: int| 0 <= i < v@.len() ==> match #[trigger] v@[i] {
            KVal::BigStr(s) => encode_utf8(s@).len() < 0x10_0000_0000_0000,
            KVal::Binary(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::BinaryArc(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary8(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary4(v) => v@.len() < 0x10_0000_0000_0000,
            KVal::Binary2(v) => v@.len() < 0x10_0000_0000_0000,
            _ => true,
        },
    { }
    // TRUSTED: only numbers stand for a float
    #[verifier::external_body]
    pub proof fn floats(k: KVal)
        ensures float_of(k) is Some ==> k is Bit || k is Byte || k is Int || k is Float || k is Double || k is Decimal,
    { }
    pub open spec fn bytes_lead(b: Seq<u8>, ks: Seq<KVal>, d: ItemDiff, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        storable_seq(ks) && b == layout(ks) && wrote(Seq::empty(), ks, root_ts(d, m)) && params_fit(d.params, m) && lists_fit(d.lists, m) && root_leads(f, d, t, m)
    }
    /// the bytes lead from one state to the other
    pub open spec fn diff_bytes(b: Seq<u8>, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        exists|ks: Seq<KVal>, d: ItemDiff| #[trigger] bytes_lead(b, ks, d, f, t, m)
    }
    pub open spec fn vals_lead(ks: Seq<KVal>, d: ItemDiff, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        wrote(Seq::empty(), ks, root_ts(d, m)) && params_fit(d.params, m) && lists_fit(d.lists, m) && root_leads(f, d, t, m)
    }
    pub open spec fn diff_vals(ks: Seq<KVal>, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        exists|d: ItemDiff| #[trigger] vals_lead(ks, d, f, t, m)
    }
    pub open spec fn read_leads(r: RootDiffR, d: ItemDiff, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        params_r(r.params@, d.params) && lists_r(r.lists@, d.lists) && root_leads(f, d, t, m)
    }
    pub open spec fn diff_read(r: RootDiffR, f: Map<Seq<char>, Member>, t: Map<Seq<char>, Member>, m: MetaTable) -> bool {
        exists|d: ItemDiff| #[trigger] read_leads(r, d, f, t, m)
    }
    pub open spec fn state(r: RootObject) -> Map<Seq<char>, Member> { roots_of(sab_of(r)@) }
    pub proof fn can_store(v: Vec<KVal>, t: Seq<T>)
        requires wrote(Seq::empty(), v@, t),
        ensures storable_seq(v@), layout(v@).len() <= usize::MAX,
    {
        in_memory(v);
        assert forall|i: int| 0 <= i < v@.len() implies storable(#[trigger] v@[i]) by { floats(v@[i]); assert(stands(v@[i], t[i])); }
    }
    pub proof fn begins(r: Seq<KVal>, s: Seq<KVal>, t: Seq<T>)
        requires wrote(Seq::empty(), s, t), read_back(r, s),
        ensures starts(r, t),
    {
        assert forall|i: int| 0 <= i < t.len() implies stands(#[trigger] r[i], t[i]) && !(r[i] is BinaryArc) by {
            assert(same(r[i], s[i]) && stands(s[i], t[i]));
            floats(s[i]);
            if s[i] is Decimal { assert(r[i] == s[i]); }
        }
    }
//@ fn dochy_diff/src/imp/get_diff.rs get_kvals -> res
//@ pass write_root Ghost(d)
        requires in_order(*from, *to),
        ensures res is Ok, diff_vals(res->Ok_0@, state(*from), state(*to), table_of(*to)),
//@ after let root_diff\b[^;]*;
        let ghost d = choose|d: ItemDiff| #[trigger] root_good(root_diff, d, state(*from), state(*to), table_of(*to));
//@ after let kvals\b[^;]*;
        proof { assert(vals_lead(kvals@, d, state(*from), state(*to), table_of(*to))); }
//@ end
//@ fn dochy_diff/src/imp/get_diff.rs get_diff -> res
        requires in_order(*from, *to),
        ensures res is Ok, diff_bytes(res->Ok_0@, state(*from), state(*to), table_of(*to)),
//@ after let kvals\b[^;]*;
        proof {
            let d = choose|d: ItemDiff| #[trigger] vals_lead(kvals@, d, state(*from), state(*to), table_of(*to));
            can_store(kvals, root_ts(d, table_of(*to)));
            assert forall|b: Seq<u8>| b == layout(kvals@) implies #[trigger] diff_bytes(b, state(*from), state(*to), table_of(*to)) by { assert(bytes_lead(b, kvals@, d, state(*from), state(*to), table_of(*to))); }
        }
//@ end
//@ fn dochy_diff/src/imp/apply_diff.rs apply_diff -> res
//@ param Ghost(t): Ghost<Map<Seq<char>, Member>>
//@ pass read_root Ghost(d)
//@ pass apply_root_diff Ghost(d), Ghost(t)
        requires diff_bytes(old(diff).rest(), state(*old(root)), t, table_of(*old(root))),
        ensures res is Ok, state(*final(root)) == t, final(root).default == old(root).default, final(root).meta_table == old(root).meta_table,
//@ start
        let ghost b = diff.rest();
        let ghost m = table_of(*root);
        let ghost (ks, d) = choose|ks: Seq<KVal>, d: ItemDiff| #[trigger] bytes_lead(b, ks, d, state(*root), t, m);
//@ after let \(diff, _size\)[^;]*;
        proof { begins(diff@, ks, root_ts(d, m)); }
//@ end
//@ fn dochy_diff/src/imp/apply_diff.rs get_root_diff_r -> res
//@ param Ghost(ks): Ghost<Seq<KVal>>, Ghost(f): Ghost<Map<Seq<char>, Member>>, Ghost(t): Ghost<Map<Seq<char>, Member>>
//@ pass read_root Ghost(d)
        requires diff_vals(ks, f, t, *meta_table), read_back(kvals@, ks),
        ensures res is Ok, diff_read(res->Ok_0, f, t, *meta_table),
//@ start
        let ghost d = choose|d: ItemDiff| #[trigger] vals_lead(ks, d, f, t, *meta_table);
        proof {
            begins(kvals@, ks, root_ts(d, *meta_table));
            assert forall|r: RootDiffR| params_r(r.params@, d.params) && lists_r(r.lists@, d.lists) implies #[trigger] diff_read(r, f, t, *meta_table) by { assert(read_leads(r, d, f, t, *meta_table)); }
        }
//@ end
//@ fn dochy_diff/src/imp/apply_diff.rs apply_root_diff_r -> res
//@ param Ghost(t): Ghost<Map<Seq<char>, Member>>
//@ pass apply_root_diff Ghost(d), Ghost(t)
        requires diff_read(diff, state(*old(root)), t, table_of(*old(root))),
        ensures res is Ok, state(*final(root)) == t, final(root).default == old(root).default, final(root).meta_table == old(root).meta_table,
//@ start
        let ghost d = choose|d: ItemDiff| #[trigger] read_leads(diff, d, state(*root), t, table_of(*root));
//@ end
}

} // verus!
fn main() {}
