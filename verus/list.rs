#![feature(sized_hierarchy)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: the mutable list (property 8).
use vstd::prelude::*;
use vstd::raw_ptr::*;
use vstd::std_specs::iter::IteratorSpec;

verus! {
global size_of usize == 8;

// TRUSTED: std::ptr::eq and is_null compare addresses
pub assume_specification<T: std::marker::PointeeSized> [std::ptr::eq] (a: *const T, b: *const T) -> (r: bool)
    ensures r == (a.addr() == b.addr());
pub assume_specification<T: std::marker::PointeeSized> [<*mut T>::is_null] (a: *mut T) -> (r: bool)
    ensures r == (a.addr() == 0);
pub assume_specification<T: std::marker::PointeeSized> [<*const T>::is_null] (a: *const T) -> (r: bool)
    ensures r == (a.addr() == 0);

pub mod hash_m {
    use super::*;
    // TRUSTED: HashM with its own hash function is a map (std's HashMap stands in for it)
    pub type HashM<K, V> = std::collections::HashMap<K, V>;
    pub struct HashMt {}
    impl HashMt {
        pub fn new<K: std::hash::Hash + Eq, V>() -> (r: HashM<K, V>)
            ensures r@ == Map::<K, V>::empty(),
        { HashM::new() }
        pub fn with_capacity<K: std::hash::Hash + Eq, V>(capacity: usize) -> (r: HashM<K, V>)
            ensures r@ == Map::<K, V>::empty(),
        { HashM::with_capacity(capacity) }
    }
}

pub mod heap {
    use super::*;
    use super::linked_m::{MutNode, links, kept};
    use super::hash_m::*;
    pub type P<V> = *mut MutNode<V>;
    /// The permissions to the nodes of one list, by their addresses. An erased field of the list.
    #[verifier::reject_recursive_types(V)]
    pub tracked struct Heap<V> { pub tracked m: Map<P<V>, PointsTo<MutNode<V>>> }
    impl<V> Heap<V> {
        pub open spec fn has(&self, p: P<V>) -> bool { self.m.dom().contains(p) }
        pub open spec fn at(&self, p: P<V>) -> MutNode<V> { self.m[p].value() }
        pub open spec fn wf(&self) -> bool {
            &&& forall|p: P<V>| #[trigger] self.m.dom().contains(p) ==> self.m[p].ptr() == p && self.m[p].is_init() && p.addr() != 0
            &&& forall|p: P<V>, q: P<V>| #[trigger] self.m.dom().contains(p) && #[trigger] self.m.dom().contains(q) && p.addr() == q.addr() ==> p == q
        }
    }
    /// `*p`
    pub fn deref<'a, V>(p: *const MutNode<V>, Tracked(h): Tracked<&'a Heap<V>>) -> (r: &'a MutNode<V>)
        requires h.wf(), h.has(p as *mut MutNode<V>),
        ensures *r == h.at(p as *mut MutNode<V>),
    {
        assert(h.has(p as *mut MutNode<V>));
        ptr_ref(p, Tracked(h.m.tracked_borrow(p as *mut MutNode<V>)))
    }
    pub fn deref_mut<'a, V>(p: P<V>, Tracked(h): Tracked<&'a mut Heap<V>>) -> (r: &'a mut MutNode<V>)
        requires old(h).wf(), old(h).has(p),
        ensures *r == old(h).at(p), final(h).wf(), changed(*old(h), *final(h), p, *final(r)),
    {
        assert(h.has(p));
        ptr_mut_ref(p, Tracked(h.m.tracked_borrow_mut(p)))
    }
    // TRUSTED: a node is lent out to be changed while nothing else uses the list; what is written to it is not followed
    #[verifier::external_body]
    pub fn lend<'a, V>(p: P<V>, Tracked(h): Tracked<&'a Heap<V>>) -> (r: &'a mut MutNode<V>)
        requires h.wf(), h.has(p),
        ensures *r == h.at(p),
    { unimplemented!() }
    pub open spec fn changed<V>(h0: Heap<V>, h1: Heap<V>, p: P<V>, n: MutNode<V>) -> bool {
        &&& h1.m.dom() =~= h0.m.dom()
        &&& h1.at(p) == n
        &&& forall|q: P<V>| q != p ==> h1.m[q] == h0.m[q]
    }
    // TRUSTED: Box of a node: memory of its own at an address no other live node has, until it is dropped
    #[verifier::external_body]
    #[verifier::reject_recursive_types(V)]
    pub struct NodeBox<V> { b: Box<MutNode<V>> }
    impl<V> NodeBox<V> {
        pub uninterp spec fn view(&self) -> P<V>;
        #[verifier::external_body]
        pub fn new(n: MutNode<V>, Tracked(h): Tracked<&mut Heap<V>>) -> (r: NodeBox<V>)
            requires old(h).wf(),
            ensures final(h).wf(), !old(h).has(r@), final(h).m.dom() == old(h).m.dom().insert(r@), changed(Heap { m: old(h).m.insert(r@, final(h).m[r@]) }, *final(h), r@, n),
        { NodeBox { b: Box::new(n) } }
        #[verifier::external_body]
        pub fn as_mut(&self) -> (r: P<V>)
            ensures r == self@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn as_ref(&self) -> (r: P<V>)
            ensures r == self@,
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn release<V>(b: Option<NodeBox<V>>, Tracked(h): Tracked<&mut Heap<V>>)
        requires b is Some ==> old(h).has(b->0@),
        ensures b is None ==> *final(h) == *old(h), b is Some ==> final(h).m == old(h).m.remove(b->0@),
    { drop(b) }
    /// a box goes out of scope
    pub fn free<V>(b: Option<NodeBox<V>>, Tracked(h): Tracked<&mut Heap<V>>)
        requires b is Some ==> old(h).has(b->0@),
        ensures
            b is None ==> *final(h) == *old(h),
            b is Some ==> final(h).m == old(h).m.remove(b->0@),
            b is Some ==> forall|f: P<V>, l: P<V>, o: Seq<P<V>>| links(*old(h), f, l, o) && !o.contains(b->0@) ==> #[trigger] links(*final(h), f, l, o),
    {
        let ghost h0 = *h;
        release(b, Tracked(h));
        proof {
            if b is Some {
                assert forall|f: P<V>, l: P<V>, o: Seq<P<V>>| links(h0, f, l, o) && !o.contains(b->0@) implies #[trigger] links(*h, f, l, o) by {
                    kept(h0, f, l, o);
                }
            }
        }
    }
    pub fn no_nodes<V>() -> (r: Tracked<Heap<V>>)
        ensures r@.m =~= Map::empty(),
    { Tracked(Heap { m: Map::tracked_empty() }) }
    // TRUSTED: HashMap::clone and Box::clone: every node is cloned by its own `clone` into a box of its own
    #[verifier::external_body]
    pub fn clone_nodes<V: Clone>(m: &HashM<u64, NodeBox<V>>, Tracked(h): Tracked<&Heap<V>>) -> (r: (HashM<u64, NodeBox<V>>, Tracked<Heap<V>>))
        requires forall|k: u64| #[trigger] m@.dom().contains(k) ==> h.has(m@[k]@),
        ensures
            r.0@.dom() == m@.dom(), r.1@.wf(),
            forall|k: u64| #[trigger] m@.dom().contains(k) ==> r.1@.has(r.0@[k]@) && call_ensures(<MutNode<V> as Clone>::clone, (&h.at(m@[k]@),), r.1@.at(r.0@[k]@)),
            forall|a: u64, b: u64| #[trigger] m@.dom().contains(a) && #[trigger] m@.dom().contains(b) && a != b ==> r.0@[a]@ != r.0@[b]@,
    { unimplemented!() }
    // TRUSTED: HashMap::get_mut
    #[verifier::external_body]
    pub fn map_get_mut<'a, W>(m: &'a mut HashM<u64, W>, k: &u64) -> (r: Option<&'a mut W>)
        ensures
            r is Some <==> old(m)@.dom().contains(*k),
            r is Some ==> *r->0 == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(r->0)),
            r is None ==> final(m)@ == old(m)@,
    { m.get_mut(k) }
}

pub mod linked_m {
    use super::*;
    use super::heap::*;
    use super::hash_m::*;
    use super::linked_map_iter::*;
    use super::linked_map_iter_mut::*;
    use std::ptr::null_mut;
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    #[verifier::reject_recursive_types(V)]
//@ item dochy_core/src/imp/structs/linked_m.rs struct LinkedMap
//@ sub Box<MutNode<V>> => NodeBox<V>
//@ sub pub next_id : u64, => pub next_id : u64, pub h : Tracked<Heap<V>>,
//@ item dochy_core/src/imp/structs/linked_m.rs struct MutNode

    pub open spec fn nil<V>(p: P<V>) -> bool { p.addr() == 0 }
    pub open spec fn loose<V>(h: Heap<V>, p: P<V>) -> bool { nil(h.at(p).prev) && nil(h.at(p).next) }
    /// the nodes are chained in this order
    pub open spec fn links<V>(h: Heap<V>, first: P<V>, last: P<V>, o: Seq<P<V>>) -> bool {
        &&& h.wf()
        &&& o.no_duplicates()
        &&& o.len() == 0 ==> nil(first) && nil(last)
        &&& o.len() > 0 ==> first == o[0] && last == o.last()
        &&& forall|i: int| 0 <= i < o.len() ==> linked(h, o, i)
    }
    pub open spec fn linked<V>(h: Heap<V>, o: Seq<P<V>>, i: int) -> bool {
        &&& h.has(o[i])
        &&& if i == 0 { nil(h.at(o[i]).prev) } else { h.at(o[i]).prev == o[i - 1] }
        &&& if i == o.len() - 1 { nil(h.at(o[i]).next) } else { h.at(o[i]).next == o[i + 1] }
    }
    /// nothing but the order differs
    pub open spec fn same<V>(a: Heap<V>, b: Heap<V>) -> bool {
        &&& a.m.dom() =~= b.m.dom()
        &&& forall|p: P<V>| #![trigger b.has(p)] #![trigger a.at(p)] b.has(p) ==> b.at(p).id == a.at(p).id && b.at(p).item == a.at(p).item
    }
    /// the i-th of these, or nothing
    pub open spec fn nth<V>(p: P<V>, s: Seq<P<V>>, i: int) -> bool { if 0 <= i < s.len() { p == s[i] } else { nil(p) } }
    /// where `a`, `m`, `b` were chained, `a`, `n`, `b` are
    pub open spec fn respliced<V>(h: Heap<V>, g: Heap<V>, first: P<V>, last: P<V>, a: Seq<P<V>>, m: Seq<P<V>>, n: Seq<P<V>>, b: Seq<P<V>>) -> bool {
        &&& g.wf()
        &&& g.m.dom() =~= h.m.dom()
        &&& forall|p: P<V>| #[trigger] g.has(p) && !(a.len() > 0 && p == a.last()) && !(b.len() > 0 && p == b[0]) && !(m.len() > 0 && p == m[0]) && !(n.len() > 0 && p == n[0])
                ==> g.at(p).prev == h.at(p).prev && g.at(p).next == h.at(p).next
        &&& a.len() > 0 ==> g.at(a.last()).prev == h.at(a.last()).prev && nth(g.at(a.last()).next, n + b, 0)
        &&& b.len() > 0 ==> g.at(b[0]).next == h.at(b[0]).next && nth(g.at(b[0]).prev, a + n, a.len() + n.len() - 1)
        &&& n.len() > 0 ==> nth(g.at(n[0]).prev, a, a.len() - 1) && nth(g.at(n[0]).next, b, 0)
        &&& nth(first, a + n + b, 0)
        &&& nth(last, a + n + b, a.len() + n.len() + b.len() - 1)
    }
    pub proof fn splice<V>(h: Heap<V>, f: P<V>, l: P<V>, o: Seq<P<V>>, o2: Seq<P<V>>, a: Seq<P<V>>, m: Seq<P<V>>, n: Seq<P<V>>, b: Seq<P<V>>)
        requires
            links(h, f, l, o), o =~= a + m + b, o2 =~= a + n + b, m.len() <= 1, n.len() <= 1,
            n.len() > 0 ==> h.has(n[0]) && !(a + b).contains(n[0]),
        ensures forall|g: Heap<V>, f2: P<V>, l2: P<V>| respliced(h, g, f2, l2, a, m, n, b) ==> #[trigger] links(g, f2, l2, o2),
    {
        splice_once(h, f, l, o, o2, a, m, n, b);
        assert forall|g: Heap<V>, f2: P<V>, l2: P<V>| respliced(h, g, f2, l2, a, m, n, b) implies #[trigger] links(g, f2, l2, o2) by {
            assert forall|i: int| 0 <= i < o2.len() implies linked(g, o2, i) by { splice_at(h, f, l, o, o2, a, m, n, b, g, f2, l2, i); }
        }
    }
    pub proof fn splice_once<V>(h: Heap<V>, f: P<V>, l: P<V>, o: Seq<P<V>>, o2: Seq<P<V>>, a: Seq<P<V>>, m: Seq<P<V>>, n: Seq<P<V>>, b: Seq<P<V>>)
        requires
            links(h, f, l, o), o =~= a + m + b, o2 =~= a + n + b, m.len() <= 1, n.len() <= 1,
            n.len() > 0 ==> !(a + b).contains(n[0]),
        ensures o2.no_duplicates(),
    {
        let w = a.len() as int;
        assert forall|i: int, j: int| 0 <= i < j < o2.len() implies o2[i] != o2[j] by {
            let i2 = if i < w { i } else { i - n.len() + m.len() };
            let j2 = if j < w { j } else { j - n.len() + m.len() };
            if n.len() > 0 && i == w { assert((a + b)[j - 1] == o2[j]); }
            else if n.len() > 0 && j == w { assert((a + b)[i] == o2[i]); }
            else { assert(o[i2] == o2[i]); assert(o[j2] == o2[j]); }
        }
    }
    pub proof fn splice_at<V>(h: Heap<V>, f: P<V>, l: P<V>, o: Seq<P<V>>, o2: Seq<P<V>>, a: Seq<P<V>>, m: Seq<P<V>>, n: Seq<P<V>>, b: Seq<P<V>>, g: Heap<V>, f2: P<V>, l2: P<V>, i: int)
        requires
            links(h, f, l, o), o =~= a + m + b, o2 =~= a + n + b, m.len() <= 1, n.len() <= 1,
            n.len() > 0 ==> h.has(n[0]) && !(a + b).contains(n[0]),
            respliced(h, g, f2, l2, a, m, n, b), o2.no_duplicates(), 0 <= i < o2.len(),
        ensures linked(g, o2, i),
    {
        let w = a.len() as int;
        if n.len() > 0 && i == w {
        } else {
            let k = if i < w { i } else { i - n.len() + m.len() };
            assert(o[k] == o2[i]);
            assert(linked(h, o, k));
            assert(h.has(o[k]));
            assert(g.has(o2[i]));
            assert(m.len() > 0 ==> o[w] == m[0]);
            if k > 0 { assert(o[k - 1] != o[k]); }
            if w > 0 { assert(o[w - 1] == a.last()); }
            if b.len() > 0 { assert(o[w + m.len()] == b[0]); }
            if n.len() > 0 && o2[i] == n[0] { assert((a + b)[if i < w { i } else { i - 1 }] == n[0]); }
            if i < w { assert(o2[i] == a[i]); if i + 1 < w { assert(o[i + 1] == a[i + 1]); } if i > 0 { assert(o[i - 1] == a[i - 1]); } }
            else { assert(o2[i] == b[i - w - n.len()]); if i > w + n.len() { assert(o[k - 1] == b[i - 1 - w - n.len()]); } }
        }
    }
    /// a chain is not touched by what happens to other nodes
    pub proof fn kept<V>(h: Heap<V>, f: P<V>, l: P<V>, o: Seq<P<V>>)
        requires links(h, f, l, o),
        ensures
            forall|p: P<V>| #[trigger] o.contains(p) ==> h.has(p),
            forall|g: Heap<V>| g.wf() && (forall|p: P<V>| #[trigger] o.contains(p) ==> g.has(p) && g.at(p).prev == h.at(p).prev && g.at(p).next == h.at(p).next) ==> #[trigger] links(g, f, l, o),
    {
        assert forall|p: P<V>| #[trigger] o.contains(p) implies h.has(p) by { assert(linked(h, o, o.index_of(p))); }
        assert forall|g: Heap<V>| g.wf() && (forall|p: P<V>| #[trigger] o.contains(p) ==> g.has(p) && g.at(p).prev == h.at(p).prev && g.at(p).next == h.at(p).next) implies #[trigger] links(g, f, l, o) by {
            assert forall|i: int| 0 <= i < o.len() implies linked(g, o, i) by { assert(linked(h, o, i)); assert(o.contains(o[i])); }
        }
    }
    pub open spec fn keyed_in<V>(m: Map<u64, NodeBox<V>>, h: Heap<V>, o: Seq<P<V>>) -> bool {
        &&& forall|i: int| 0 <= i < o.len() ==> m.dom().contains(h.at(#[trigger] o[i]).id) && m[h.at(o[i]).id]@ == o[i]
        &&& forall|k: u64| #[trigger] m.dom().contains(k) ==> o.contains(m[k]@) && h.at(m[k]@).id == k
    }
    /// a node chained behind the last one
    pub proof fn appended<V>(h: Heap<V>, f: P<V>, l: P<V>, o: Seq<P<V>>)
        requires links(h, f, l, o), o.len() > 0,
        ensures
            o.contains(l), h.has(l),
            forall|p: P<V>| #[trigger] o.contains(p) ==> h.has(p),
            forall|g: Heap<V>, n: P<V>|
                g.wf() && !o.contains(n) && g.has(n) && g.at(n).prev == l && nil(g.at(n).next) && g.at(l).next == n
                && (forall|p: P<V>| #[trigger] o.contains(p) ==> g.has(p) && g.at(p).prev == h.at(p).prev && (p == l || g.at(p).next == h.at(p).next))
                ==> #[trigger] links(g, f, n, o.push(n)),
    {
        kept(h, f, l, o);
        assert(o.contains(o[o.len() - 1]));
        assert forall|g: Heap<V>, n: P<V>|
                g.wf() && !o.contains(n) && g.has(n) && g.at(n).prev == l && nil(g.at(n).next) && g.at(l).next == n
                && (forall|p: P<V>| #[trigger] o.contains(p) ==> g.has(p) && g.at(p).prev == h.at(p).prev && (p == l || g.at(p).next == h.at(p).next))
                implies #[trigger] links(g, f, n, o.push(n)) by {
            let o2 = o.push(n);
            assert forall|i: int| 0 <= i < o2.len() implies linked(g, o2, i) by {
                if i < o.len() {
                    assert(o2[i] == o[i]);
                    assert(o.contains(o[i]));
                    assert(linked(h, o, i));
                    if i < o.len() - 1 { assert(o[i] != o[o.len() - 1]); }
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < o2.len() implies o2[i] != o2[j] by {
                assert(o.contains(o[i]));
                if j < o.len() { assert(o[i] != o[j]); }
            }
        }
    }
    pub proof fn appended_key<V>(m: Map<u64, NodeBox<V>>, h: Heap<V>, o: Seq<P<V>>, id: u64)
        requires keyed_in(m, h, o), !m.dom().contains(id),
        ensures
            forall|m2: Map<u64, NodeBox<V>>, h2: Heap<V>, n: P<V>|
                m2.dom() =~= m.dom().insert(id) && m2[id]@ == n && h2.at(n).id == id && (forall|k: u64| #[trigger] m.dom().contains(k) ==> m2[k] == m[k])
                && (forall|p: P<V>| #[trigger] o.contains(p) ==> h2.at(p).id == h.at(p).id)
                ==> #[trigger] keyed_in(m2, h2, o.push(n)),
    {
        assert forall|m2: Map<u64, NodeBox<V>>, h2: Heap<V>, n: P<V>|
                m2.dom() =~= m.dom().insert(id) && m2[id]@ == n && h2.at(n).id == id && (forall|k: u64| #[trigger] m.dom().contains(k) ==> m2[k] == m[k])
                && (forall|p: P<V>| #[trigger] o.contains(p) ==> h2.at(p).id == h.at(p).id)
                implies #[trigger] keyed_in(m2, h2, o.push(n)) by {
            let o2 = o.push(n);
            assert forall|i: int| 0 <= i < o2.len() implies m2.dom().contains(h2.at(#[trigger] o2[i]).id) && m2[h2.at(o2[i]).id]@ == o2[i] by {
                if i < o.len() { assert(o.contains(o[i])); assert(m.dom().contains(h.at(o[i]).id)); }
            }
            assert forall|k: u64| #[trigger] m2.dom().contains(k) implies o2.contains(m2[k]@) && h2.at(m2[k]@).id == k by {
                if k == id { assert(o2[o.len() as int] == n); } else { assert(m.dom().contains(k)); assert(o2[o.index_of(m[k]@)] == m[k]@); }
            }
        }
    }
    /// what a list is whose nodes are chained in a known order
    pub proof fn list_of<V>(o: Seq<P<V>>)
        ensures
            forall|m: LinkedMap<V>| m.ok(o) && m.keyed(o) ==> #[trigger] m.wf(),
            forall|m: LinkedMap<V>| m.ok(o) && m.keyed(o) ==> #[trigger] m.list() == m.items(o),
    {
        broadcast use is_list;
        assert forall|m: LinkedMap<V>| m.ok(o) && m.keyed(o) implies #[trigger] m.wf() by { assert(m.good(o)); }
        assert forall|m: LinkedMap<V>| m.ok(o) && m.keyed(o) implies #[trigger] m.list() == m.items(o) by { assert(m.good(o)); }
    }
    /// these are clones of those nodes
    pub open spec fn copies<V: Clone>(h: Heap<V>, o: Seq<P<V>>, m: Map<u64, NodeBox<V>>, h2: Heap<V>, o2: Seq<P<V>>) -> bool {
        forall|i: int| 0 <= i < o2.len() ==> m.dom().contains(h.at(o[i]).id) && #[trigger] o2[i] == m[h.at(o[i]).id]@ && h2.has(o2[i]) && h2.at(o2[i]).id == h.at(o[i]).id && cloned(h.at(o[i]).item, h2.at(o2[i]).item)
    }
    /// all ids differ
    pub open spec fn distinct<V>(l: Seq<(u64, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0 }
    pub open spec fn has_id<V>(l: Seq<(u64, V)>, id: u64) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == id }
    pub open spec fn pos<V>(l: Seq<(u64, V)>, id: u64) -> int { choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == id }
    /// no id was used that has not been handed out
    pub open spec fn ids_below<V>(l: Seq<(u64, V)>, n: u64) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 < n }
    pub open spec fn without<V>(l: Seq<(u64, V)>, id: u64) -> Seq<(u64, V)> { l.remove(pos(l, id)) }
    /// what a node in the chain is connected to
    pub proof fn around<V>(h: Heap<V>, f: P<V>, l: P<V>, o: Seq<P<V>>, i: int)
        requires links(h, f, l, o), 0 <= i < o.len(),
        ensures
            linked(h, o, i), h.has(o[i]), o[i].addr() != 0,
            i > 0 ==> h.has(o[i - 1]) && linked(h, o, i - 1) && o[i - 1].addr() != 0 && o[i - 1] != o[i],
            i < o.len() - 1 ==> h.has(o[i + 1]) && linked(h, o, i + 1) && o[i + 1].addr() != 0 && o[i + 1] != o[i] && (i > 0 ==> o[i - 1] != o[i + 1]),
            forall|p: P<V>| #[trigger] h.has(p) && p.addr() == o[i].addr() ==> p == o[i],
    {
        assert(linked(h, o, i));
        if i > 0 { assert(linked(h, o, i - 1)); }
        if i < o.len() - 1 { assert(linked(h, o, i + 1)); }
    }
    impl<V: Clone> Clone for MutNode<V> {
//@ fn dochy_core/src/imp/structs/linked_m.rs Clone for MutNode::clone -> r
            ensures r.id == self.id, cloned(self.item, r.item), nil(r.prev), nil(r.next),
//@ end
    }
    impl<V> MutNode<V> {
//@ fn dochy_core/src/imp/structs/linked_m.rs MutNode::new -> r
            ensures r.id == id, r.item == item, nil(r.prev), nil(r.next),
//@ end
    }
//@ fn dochy_core/src/imp/structs/linked_m.rs get_next -> r
//@ deref Tracked(h)
//@ param Tracked(h): Tracked<&Heap<V>>
        requires h.wf(), h.has(this as *mut MutNode<V>),
        ensures r == h.at(this as *mut MutNode<V>).next,
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs get_prev -> r
//@ deref Tracked(h)
//@ param Tracked(h): Tracked<&Heap<V>>
        requires h.wf(), h.has(this as *mut MutNode<V>),
        ensures r == h.at(this as *mut MutNode<V>).prev,
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs get_id -> r
//@ deref Tracked(h)
//@ param Tracked(h): Tracked<&Heap<V>>
        requires h.wf(), h.has(this as *mut MutNode<V>),
        ensures r == h.at(this as *mut MutNode<V>).id,
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs get_item -> r
//@ deref Tracked(h)
//@ param Tracked(h): Tracked<&'a Heap<V>>
        requires h.wf(), h.has(this as *mut MutNode<V>),
        ensures *r == h.at(this as *mut MutNode<V>).item,
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs get_item_mut -> r
//@ deref Tracked(&*h) | Tracked(h)
//@ param Tracked(h): Tracked<&'a mut Heap<V>>
        requires old(h).wf(), old(h).has(this),
        ensures
            *r == old(h).at(this).item, final(h).wf(),
            changed(*old(h), *final(h), this, MutNode { item: *final(r), ..old(h).at(this) }),
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs set_next
//@ deref Tracked(&*h) | Tracked(h)
//@ param Tracked(h): Tracked<&mut Heap<V>>
        requires old(h).wf(), old(h).has(this),
        ensures final(h).wf(), changed(*old(h), *final(h), this, MutNode { next: next, ..old(h).at(this) }),
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs set_prev
//@ deref Tracked(&*h) | Tracked(h)
//@ param Tracked(h): Tracked<&mut Heap<V>>
        requires old(h).wf(), old(h).has(this),
        ensures final(h).wf(), changed(*old(h), *final(h), this, MutNode { prev: prev, ..old(h).at(this) }),
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs ptr_eq -> e
        ensures e == (l.addr() == r.addr()),
//@ end

    pub broadcast proof fn is_list<V>(m: LinkedMap<V>, o: Seq<P<V>>)
        requires #[trigger] m.good(o),
        ensures m.wf(), m.order() == o, m.list() == m.items(o),
    { m.one_order(m.order(), o); }
    impl<V> LinkedMap<V> {
        pub open spec fn ok(&self, o: Seq<P<V>>) -> bool { links(self.h@, self.first, self.last, o) }
        /// every node is found under its own id
        pub open spec fn keyed(&self, o: Seq<P<V>>) -> bool { keyed_in(self.map@, self.h@, o) }
        pub open spec fn good(&self, o: Seq<P<V>>) -> bool { self.ok(o) && self.keyed(o) }
        pub open spec fn wf(&self) -> bool { exists|o: Seq<P<V>>| self.good(o) }
        pub closed spec fn order(&self) -> Seq<P<V>> { choose|o: Seq<P<V>>| self.good(o) }
        pub open spec fn items(&self, o: Seq<P<V>>) -> Seq<(u64, V)> { Seq::new(o.len(), |i: int| (self.h@.at(o[i]).id, self.h@.at(o[i]).item)) }
        /// the ids and items in their order
        pub open spec fn list(&self) -> Seq<(u64, V)> { self.items(self.order()) }
        pub open spec fn rest_same(&self, b: &Self) -> bool { self.map@ == b.map@ && self.next_id == b.next_id && same(self.h@, b.h@) }

        pub proof fn one_order(&self, a: Seq<P<V>>, b: Seq<P<V>>)
            requires self.ok(a), self.ok(b),
            ensures a == b,
        {
            let h = self.h@;
            if a.len() > 0 { assert(linked(h, a, 0)); assert(h.has(a[0])); }
            if b.len() > 0 { assert(linked(h, b, 0)); assert(h.has(b[0])); }
            assert forall|i: int| 0 <= i < a.len() implies i < b.len() && #[trigger] a[i] == b[i] by { self.one_order_at(a, b, i); }
            assert forall|i: int| 0 <= i < b.len() implies i < a.len() && #[trigger] b[i] == a[i] by { self.one_order_at(b, a, i); }
            assert(a.len() == b.len()) by {
                if a.len() < b.len() { assert(b[a.len() as int] == b[a.len() as int]); }
                if b.len() < a.len() { assert(a[b.len() as int] == a[b.len() as int]); }
            }
            assert(a =~= b);
        }
        pub proof fn one_order_at(&self, a: Seq<P<V>>, b: Seq<P<V>>, i: int)
            requires self.ok(a), self.ok(b), 0 <= i < a.len(),
            ensures i < b.len() && a[i] == b[i],
            decreases i
        {
            let h = self.h@;
            assert(linked(h, a, i));
            assert(h.has(a[i]));
            if i > 0 {
                self.one_order_at(a, b, i - 1);
                assert(linked(h, a, i - 1));
                assert(linked(h, b, i - 1));
            } else if b.len() == 0 { }
        }

        /// id and place
        pub proof fn found(&self, id: u64)
            requires self.wf(),
            ensures
                self.good(self.order()),
                has_id(self.list(), id) <==> self.map@.dom().contains(id),
                self.map@.dom().contains(id) ==> ({
                    let k = self.order().index_of(self.map@[id]@);
                    0 <= k < self.order().len() && self.order()[k] == self.map@[id]@ && pos(self.list(), id) == k && self.list()[k].0 == id && self.h@.has(self.order()[k])
                }),
        {
            let o = self.order();
            assert(self.good(o));
            let l = self.list();
            if self.map@.dom().contains(id) {
                let k = o.index_of(self.map@[id]@);
                around(self.h@, self.first, self.last, o, k);
                assert(l[k].0 == id);
                let j = pos(l, id);
                assert(o[j] == o[k]);
            }
            if has_id(l, id) { assert(o[pos(l, id)] == o[pos(l, id)]); }
        }
        /// a node added under a new id
        pub proof fn entered(&self, id: u64, at: int)
            requires self.wf(), !self.map@.dom().contains(id), 0 <= at <= self.order().len(),
            ensures
                forall|s: LinkedMap<V>, o2: Seq<P<V>>|
                    o2 =~= self.order().insert(at, s.map@[id]@) && s.map@.dom() =~= self.map@.dom().insert(id) && (forall|k: u64| #[trigger] self.map@.dom().contains(k) ==> s.map@[k] == self.map@[k])
                    && s.ok(o2) && s.h@.at(s.map@[id]@).id == id && (forall|p: P<V>| #[trigger] self.h@.has(p) ==> s.h@.at(p).id == self.h@.at(p).id)
                    ==> #[trigger] s.good(o2),
        {
            let o = self.order();
            assert(self.good(o));
            kept(self.h@, self.first, self.last, o);
            assert forall|s: LinkedMap<V>, o2: Seq<P<V>>|
                    o2 =~= self.order().insert(at, s.map@[id]@) && s.map@.dom() =~= self.map@.dom().insert(id) && (forall|k: u64| #[trigger] self.map@.dom().contains(k) ==> s.map@[k] == self.map@[k])
                    && s.ok(o2) && s.h@.at(s.map@[id]@).id == id && (forall|p: P<V>| #[trigger] self.h@.has(p) ==> s.h@.at(p).id == self.h@.at(p).id)
                    implies #[trigger] s.good(o2) by {
                assert forall|i: int| 0 <= i < o2.len() implies s.map@.dom().contains(s.h@.at(#[trigger] o2[i]).id) && s.map@[s.h@.at(o2[i]).id]@ == o2[i] by {
                    if i < at { assert(o2[i] == o[i]); assert(o.contains(o[i])); }
                    else if i > at { assert(o2[i] == o[i - 1]); assert(o.contains(o[i - 1])); }
                }
                assert forall|k: u64| #[trigger] s.map@.dom().contains(k) implies o2.contains(s.map@[k]@) && s.h@.at(s.map@[k]@).id == k by {
                    if k == id { assert(o2[at] == s.map@[id]@); }
                    else {
                        let j = o.index_of(self.map@[k]@);
                        assert(o.contains(o[j]));
                        assert(o2[if j < at { j } else { j + 1 }] == o[j]);
                    }
                }
            }
        }
        /// a node taken out
        pub proof fn taken(&self, id: u64)
            requires self.wf(), self.map@.dom().contains(id),
            ensures
                self.order().contains(self.map@[id]@),
                !self.order().remove(self.order().index_of(self.map@[id]@)).contains(self.map@[id]@),
                forall|p: P<V>| #[trigger] self.order().remove(self.order().index_of(self.map@[id]@)).contains(p) ==> self.h@.has(p) && p != self.map@[id]@,
                forall|s: LinkedMap<V>, o2: Seq<P<V>>|
                    o2 =~= self.order().remove(self.order().index_of(self.map@[id]@)) && s.map@ =~= self.map@.remove(id)
                    && s.ok(o2) && (forall|p: P<V>| #[trigger] o2.contains(p) ==> s.h@.at(p).id == self.h@.at(p).id)
                    ==> #[trigger] s.good(o2),
        {
            let o = self.order();
            assert(self.good(o));
            let k = o.index_of(self.map@[id]@);
            kept(self.h@, self.first, self.last, o);
            assert forall|p: P<V>| #[trigger] o.remove(k).contains(p) implies self.h@.has(p) && p != self.map@[id]@ by {
                let i = o.remove(k).index_of(p);
                assert(p == o[if i < k { i } else { i + 1 }]);
                assert(o.contains(p));
            }
            assert forall|s: LinkedMap<V>, o2: Seq<P<V>>|
                    o2 =~= self.order().remove(self.order().index_of(self.map@[id]@)) && s.map@ =~= self.map@.remove(id)
                    && s.ok(o2) && (forall|p: P<V>| #[trigger] o2.contains(p) ==> s.h@.at(p).id == self.h@.at(p).id)
                    implies #[trigger] s.good(o2) by {
                assert forall|i: int| 0 <= i < o2.len() implies s.map@.dom().contains(s.h@.at(#[trigger] o2[i]).id) && s.map@[s.h@.at(o2[i]).id]@ == o2[i] by {
                    assert(o2.contains(o2[i]));
                    assert(o2[i] == o[if i < k { i } else { i + 1 }]);
                    assert(o[k] == self.map@[id]@);
                }
                assert forall|i: u64| #[trigger] s.map@.dom().contains(i) implies o2.contains(s.map@[i]@) && s.h@.at(s.map@[i]@).id == i by {
                    let j = o.index_of(self.map@[i]@);
                    assert(self.map@.dom().contains(i));
                    assert(j != k);
                    assert(o2[if j < k { j } else { j - 1 }] == o[j]);
                }
            }
        }
        /// a node moved
        pub proof fn moved(&self)
            requires self.wf(),
            ensures
                forall|s: LinkedMap<V>, o2: Seq<P<V>>|
                    (forall|p: P<V>| #[trigger] o2.contains(p) <==> self.order().contains(p)) && s.map@ =~= self.map@
                    && s.ok(o2) && (forall|p: P<V>| #[trigger] o2.contains(p) ==> s.h@.at(p).id == self.h@.at(p).id)
                    ==> #[trigger] s.good(o2),
        {
            let o = self.order();
            assert(self.good(o));
            assert forall|s: LinkedMap<V>, o2: Seq<P<V>>|
                    (forall|p: P<V>| #[trigger] o2.contains(p) <==> self.order().contains(p)) && s.map@ =~= self.map@
                    && s.ok(o2) && (forall|p: P<V>| #[trigger] o2.contains(p) ==> s.h@.at(p).id == self.h@.at(p).id)
                    implies #[trigger] s.good(o2) by {
                assert forall|i: int| 0 <= i < o2.len() implies s.map@.dom().contains(s.h@.at(#[trigger] o2[i]).id) && s.map@[s.h@.at(o2[i]).id]@ == o2[i] by {
                    assert(o2.contains(o2[i]));
                    assert(o[o.index_of(o2[i])] == o2[i]);
                }
                assert forall|k: u64| #[trigger] s.map@.dom().contains(k) implies o2.contains(s.map@[k]@) && s.h@.at(s.map@[k]@).id == k by {
                    assert(self.map@.dom().contains(k));
                    assert(o.contains(self.map@[k]@));
                }
            }
        }
        /// a node moved to a place among the others
        pub proof fn shifted(&self, id: u64, at: int)
            requires self.wf(), self.map@.dom().contains(id), 0 <= at < self.order().len(),
            ensures
                ({
                    let o2 = self.order().remove(self.order().index_of(self.map@[id]@)).insert(at, self.map@[id]@);
                    forall|s: LinkedMap<V>| s.map@ =~= self.map@ && s.ok(o2) && (forall|p: P<V>| #[trigger] o2.contains(p) ==> s.h@.at(p).id == self.h@.at(p).id) ==> #[trigger] s.good(o2)
                }),
        {
            let o = self.order();
            self.moved();
            self.taken(id);
            let k = o.index_of(self.map@[id]@);
            let o1 = o.remove(k);
            let o2 = o1.insert(at, self.map@[id]@);
            assert forall|p: P<V>| #[trigger] o2.contains(p) <==> o.contains(p) by {
                if o2.contains(p) {
                    let i = o2.index_of(p);
                    if i != at { let j = if i < at { i } else { i - 1 }; assert(o1[j] == p); assert(o[if j < k { j } else { j + 1 }] == p); }
                }
                if o.contains(p) {
                    let i = o.index_of(p);
                    if i == k { assert(o2[at] == p); } else { let j = if i < k { i } else { i - 1 }; assert(o1[j] == p); assert(o2[if j < at { j } else { j + 1 }] == p); }
                }
            }
        }
        /// where another node is when one is taken out
        pub proof fn beside(&self, id: u64, other: u64)
            requires self.wf(), self.map@.dom().contains(id), self.map@.dom().contains(other), id != other,
            ensures
                ({
                    let o1 = self.order().remove(self.order().index_of(self.map@[id]@));
                    let l1 = without(self.list(), id);
                    o1.contains(self.map@[other]@) && pos(l1, other) == o1.index_of(self.map@[other]@) && 0 <= pos(l1, other) < l1.len()
                }),
        {
            self.found(id);
            self.found(other);
            let o = self.order();
            let k = o.index_of(self.map@[id]@);
            let j = o.index_of(self.map@[other]@);
            let o1 = o.remove(k);
            let l1 = without(self.list(), id);
            assert(self.good(o));
            assert(j != k);
            let i = if j < k { j } else { j - 1 };
            assert(o1[i] == o[j]);
            assert(l1[i].0 == other);
            let i2 = pos(l1, other);
            assert(l1[i2].0 == other);
            let j2 = if i2 < k { i2 } else { i2 + 1 };
            assert(self.list()[j2].0 == other);
            assert(o[j2] == self.map@[other]@);
            assert(o1[i2] == o[j2]);
            let i3 = o1.index_of(self.map@[other]@);
            let j3 = if i3 < k { i3 } else { i3 + 1 };
            assert(o1[i3] == o[j3]);
        }
        pub proof fn sizes(&self)
            requires self.wf(),
            ensures self.map@.dom().len() == self.list().len(),
        {
            let o = self.order();
            assert(self.good(o));
            let ids = o.map_values(|p: P<V>| self.h@.at(p).id);
            assert(ids.no_duplicates());
            assert(ids.to_set() =~= self.map@.dom()) by {
                assert forall|k: u64| self.map@.dom().contains(k) implies #[trigger] ids.to_set().contains(k) by {
                    let i = o.index_of(self.map@[k]@);
                    assert(ids[i] == k);
                }
            }
            ids.unique_seq_to_set();
        }
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::pull_last -> r
//@ deref Tracked(self.h.borrow()) | Tracked(self.h.borrow_mut())
//@ param Ghost(o): Ghost<Seq<P<V>>>
//@ pass set_next Tracked(self.h.borrow_mut())
            requires old(self).ok(o),
            ensures
                final(self).rest_same(old(self)),
                o.len() == 0 ==> nil(r) && *final(self) == *old(self),
                o.len() > 0 ==> r == o.last() && loose(final(self).h@, r) && final(self).ok(o.drop_last()),
//@ start
                proof {
                    if o.len() > 0 {
                        around(self.h@, self.first, self.last, o, o.len() - 1);
                        splice(self.h@, self.first, self.last, o, o.drop_last(), o.drop_last(), seq![o.last()], seq![], seq![]);
                    }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::pull_first -> r
//@ deref Tracked(self.h.borrow()) | Tracked(self.h.borrow_mut())
//@ param Ghost(o): Ghost<Seq<P<V>>>
//@ pass set_prev Tracked(self.h.borrow_mut())
            requires old(self).ok(o),
            ensures
                final(self).rest_same(old(self)),
                o.len() == 0 ==> nil(r) && *final(self) == *old(self),
                o.len() > 0 ==> r == o[0] && loose(final(self).h@, r) && final(self).ok(o.drop_first()),
//@ start
                proof {
                    if o.len() > 0 {
                        around(self.h@, self.first, self.last, o, 0);
                        splice(self.h@, self.first, self.last, o, o.drop_first(), seq![], seq![o[0]], seq![], o.drop_first());
                    }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::node_from_id_mut -> r
//@ sub Option<&mut MutNode<V>> => Option<*mut MutNode<V>>
//@ sub self\.map\.get_mut\( => map_get_mut(&mut self.map, 
//@ optmap
            ensures
                *final(self) == (LinkedMap { map: final(self).map, ..*old(self) }), final(self).map@ == old(self).map@,
                r is Some <==> old(self).map@.dom().contains(id),
                r is Some ==> r->0 == old(self).map@[id]@,
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::node_from_id -> r
//@ sub Option<&MutNode<V>> => Option<*mut MutNode<V>>
//@ optmap
            ensures
                r is Some <==> self.map@.dom().contains(id),
                r is Some ==> r->0 == self.map@[id]@,
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::pull -> r
//@ param Ghost(o): Ghost<Seq<P<V>>>
//@ pass get_next Tracked(self.h.borrow())
//@ pass get_prev Tracked(self.h.borrow())
//@ pass set_next Tracked(self.h.borrow_mut())
//@ pass set_prev Tracked(self.h.borrow_mut())
//@ pass self.pull_first Ghost(o)
//@ pass self.pull_last Ghost(o)
            requires old(self).good(o),
            ensures
                final(self).rest_same(old(self)),
                !old(self).map@.dom().contains(id) ==> nil(r) && final(self).h == old(self).h && final(self).good(o),
                old(self).map@.dom().contains(id) ==> r == old(self).map@[id]@ && loose(final(self).h@, r) && final(self).ok(o.remove(o.index_of(r))),
//@ start
                proof {
                    if self.map@.dom().contains(id) {
                        let k = o.index_of(self.map@[id]@);
                        around(self.h@, self.first, self.last, o, k);
                        around(self.h@, self.first, self.last, o, 0);
                        around(self.h@, self.first, self.last, o, o.len() - 1);
                        splice(self.h@, self.first, self.last, o, o.remove(k), o.take(k), seq![o[k]], seq![], o.skip(k + 1));
                        assert(o.remove(0) =~= o.drop_first());
                        assert(o.remove(o.len() - 1) =~= o.drop_last());
                    }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::put_first
//@ param Ghost(o): Ghost<Seq<P<V>>>
//@ pass set_next Tracked(self.h.borrow_mut())
//@ pass set_prev Tracked(self.h.borrow_mut())
            requires old(self).ok(o), old(self).h@.has(node), !o.contains(node), loose(old(self).h@, node),
            ensures final(self).rest_same(old(self)), final(self).ok(seq![node] + o),
//@ start
                proof {
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, 0); }
                    splice(self.h@, self.first, self.last, o, seq![node] + o, seq![], seq![], seq![node], o);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::put_last
//@ param Ghost(o): Ghost<Seq<P<V>>>
//@ pass set_next Tracked(self.h.borrow_mut())
//@ pass set_prev Tracked(self.h.borrow_mut())
            requires old(self).ok(o), old(self).h@.has(node), !o.contains(node), loose(old(self).h@, node),
            ensures final(self).rest_same(old(self)), final(self).ok(o.push(node)),
//@ start
                proof {
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, o.len() - 1); }
                    splice(self.h@, self.first, self.last, o, o.push(node), o, seq![], seq![node], seq![]);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::put_next
//@ param Ghost(o): Ghost<Seq<P<V>>>
//@ pass get_next Tracked(self.h.borrow())
//@ pass set_next Tracked(self.h.borrow_mut())
//@ pass set_prev Tracked(self.h.borrow_mut())
//@ pass self.put_last Ghost(o)
            requires old(self).ok(o), old(self).h@.has(node), !o.contains(node), loose(old(self).h@, node), o.contains(prev),
            ensures final(self).rest_same(old(self)), final(self).ok(o.insert(o.index_of(prev) + 1, node)),
//@ start
                proof {
                    let k = o.index_of(prev) + 1;
                    around(self.h@, self.first, self.last, o, o.index_of(prev));
                    around(self.h@, self.first, self.last, o, 0);
                    around(self.h@, self.first, self.last, o, o.len() - 1);
                    splice(self.h@, self.first, self.last, o, o.insert(k, node), o.take(k), seq![], seq![node], o.skip(k));
                    assert(o.insert(0, node) =~= seq![node] + o);
                    assert(o.insert(o.len() as int, node) =~= o.push(node));
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::put_prev
//@ param Ghost(o): Ghost<Seq<P<V>>>
//@ pass get_prev Tracked(self.h.borrow())
//@ pass set_next Tracked(self.h.borrow_mut())
//@ pass set_prev Tracked(self.h.borrow_mut())
//@ pass self.put_first Ghost(o)
            requires old(self).ok(o), old(self).h@.has(node), !o.contains(node), loose(old(self).h@, node), o.contains(next),
            ensures final(self).rest_same(old(self)), final(self).ok(o.insert(o.index_of(next), node)),
//@ start
                proof {
                    let k = o.index_of(next);
                    around(self.h@, self.first, self.last, o, o.index_of(next));
                    around(self.h@, self.first, self.last, o, 0);
                    around(self.h@, self.first, self.last, o, o.len() - 1);
                    splice(self.h@, self.first, self.last, o, o.insert(k, node), o.take(k), seq![], seq![node], o.skip(k));
                    assert(o.insert(0, node) =~= seq![node] + o);
                    assert(o.insert(o.len() as int, node) =~= o.push(node));
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::new -> r
//@ sub (LinkedMap\s*\{) => \1 h : no_nodes(),
            ensures
                r.good(seq![]),
                r.good(seq![]) ==> r.list() =~= Seq::empty(),
                r.next_id == 0,
//@ start
                broadcast use is_list;
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::next_id -> r
            ensures
                r == self.next_id,
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::set_next_id
            requires old(self).wf(),
            ensures
                final(self).good(old(self).order()),
                final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list(),
                final(self).next_id == next_id,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::first -> r
//@ pass get_item Tracked(self.h.borrow())
            requires self.wf(),
            ensures
                r is None <==> self.list().len() == 0,
                r is Some ==> *r->0 == self.list()[0].1,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, 0); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::first_id -> r
//@ pass get_id Tracked(self.h.borrow())
            requires self.wf(),
            ensures
                r is None <==> self.list().len() == 0,
                r is Some ==> r->0 == self.list()[0].0,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, 0); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::first_mut -> r
//@ pass get_item_mut Tracked(self.h.borrow_mut())
            requires old(self).wf(),
            ensures
                r is None <==> old(self).list().len() == 0,
                r is None ==> *final(self) == *old(self),
                r is Some ==> *r->0 == old(self).list()[0].1,
                r is Some ==> final(self).next_id == old(self).next_id,
                r is Some ==> final(self).good(old(self).order()),
                r is Some ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list().update(0, (old(self).list()[0].0, *final(r->0))),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, 0); }
                    kept(self.h@, self.first, self.last, o);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::last -> r
//@ pass get_item Tracked(self.h.borrow())
            requires self.wf(),
            ensures
                r is None <==> self.list().len() == 0,
                r is Some ==> *r->0 == self.list()[self.list().len() - 1].1,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, o.len() - 1); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::last_id -> r
//@ pass get_id Tracked(self.h.borrow())
            requires self.wf(),
            ensures
                r is None <==> self.list().len() == 0,
                r is Some ==> r->0 == self.list()[self.list().len() - 1].0,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, o.len() - 1); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::last_mut -> r
//@ pass get_item_mut Tracked(self.h.borrow_mut())
            requires old(self).wf(),
            ensures
                r is None <==> old(self).list().len() == 0,
                r is None ==> *final(self) == *old(self),
                r is Some ==> *r->0 == old(self).list()[old(self).list().len() - 1].1,
                r is Some ==> final(self).next_id == old(self).next_id,
                r is Some ==> final(self).good(old(self).order()),
                r is Some ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list().update(old(self).list().len() - 1, (old(self).list()[old(self).list().len() - 1].0, *final(r->0))),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, o.len() - 1); }
                    kept(self.h@, self.first, self.last, o);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::get_item -> r
//@ optmap
//@ sub b\.as_ref\(\)\.item => deref(b.as_ref(), Tracked(self.h.borrow())).item
            requires self.wf(),
            ensures
                r is Some <==> has_id(self.list(), id),
                r is Some ==> *r->0 == self.list()[pos(self.list(), id)].1,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::get_item_mut -> r
//@ optmap
//@ sub self\.map\.get_mut\( => map_get_mut(&mut self.map, 
//@ sub b\.as_mut\(\)\.item => deref_mut(b.as_mut(), Tracked(self.h.borrow_mut())).item
            requires old(self).wf(),
            ensures
                r is Some <==> has_id(old(self).list(), id),
                r is Some ==> *r->0 == old(self).list()[pos(old(self).list(), id)].1,
                final(self).next_id == old(self).next_id,
                final(self).good(old(self).order()),
                r is None ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list(),
                r is Some ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list().update(pos(old(self).list(), id), (id, *final(r->0))),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    kept(self.h@, self.first, self.last, o);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::contains_key -> r
            requires self.wf(),
            ensures
                r == has_id(self.list(), key),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(key);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::len -> r
            requires self.wf(),
            ensures
                r == self.list().len(),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.sizes();
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::is_empty -> r
            requires self.wf(),
            ensures
                r == (self.list().len() == 0),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.sizes();
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::insert_first -> r
//@ sub Box::new\( => NodeBox::new(
//@ pass NodeBox::new Tracked(self.h.borrow_mut())
//@ sub (self\.map\.insert\([^;]*\)); => free(\1, Tracked(self.h.borrow_mut()));
//@ pass self.put_first Ghost(o)
            requires old(self).wf(), ids_below(old(self).list(), old(self).next_id), old(self).next_id < u64::MAX,
            ensures
                r == old(self).next_id,
                final(self).next_id == r + 1,
                final(self).good(seq![final(self).map@[r]@] + old(self).order()),
                final(self).good(seq![final(self).map@[r]@] + old(self).order()) ==> final(self).list() =~= seq![(r, val)] + old(self).list(),
                final(self).good(seq![final(self).map@[r]@] + old(self).order()) ==> ids_below(final(self).list(), final(self).next_id),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(self.next_id);
                    kept(self.h@, self.first, self.last, o);
                    self.entered(self.next_id, 0);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::insert_first_with_id -> r
//@ sub Box::new\( => NodeBox::new(
//@ pass NodeBox::new Tracked(self.h.borrow_mut())
//@ sub (self\.map\.insert\([^;]*\)); => free(\1, Tracked(self.h.borrow_mut()));
//@ pass self.put_first Ghost(o)
            requires old(self).wf(),
            ensures
                r == !has_id(old(self).list(), id),
                !r ==> *final(self) == *old(self),
                r ==> final(self).good(seq![final(self).map@[id]@] + old(self).order()),
                r ==> final(self).good(seq![final(self).map@[id]@] + old(self).order()) ==> final(self).list() =~= seq![(id, val)] + old(self).list(),
                r ==> final(self).next_id == old(self).next_id,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    kept(self.h@, self.first, self.last, o);
                    if !self.map@.dom().contains(id) { self.entered(id, 0); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::insert_first_with_id_unchecked
//@ sub Box::new\( => NodeBox::new(
//@ pass NodeBox::new Tracked(self.h.borrow_mut())
//@ pass self.put_first Ghost(o)
            requires old(self).wf(), !has_id(old(self).list(), id),
            ensures
                final(self).good(seq![final(self).map@[id]@] + old(self).order()),
                final(self).good(seq![final(self).map@[id]@] + old(self).order()) ==> final(self).list() =~= seq![(id, val)] + old(self).list(),
                final(self).next_id == old(self).next_id,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    kept(self.h@, self.first, self.last, o);
                    if !self.map@.dom().contains(id) { self.entered(id, 0); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::insert_last -> r
//@ sub Box::new\( => NodeBox::new(
//@ pass NodeBox::new Tracked(self.h.borrow_mut())
//@ sub (self\.map\.insert\([^;]*\)); => free(\1, Tracked(self.h.borrow_mut()));
//@ pass self.put_last Ghost(o)
            requires old(self).wf(), ids_below(old(self).list(), old(self).next_id), old(self).next_id < u64::MAX,
            ensures
                r == old(self).next_id,
                final(self).next_id == r + 1,
                final(self).good(old(self).order().push(final(self).map@[r]@)),
                final(self).good(old(self).order().push(final(self).map@[r]@)) ==> final(self).list() =~= old(self).list().push((r, val)),
                final(self).good(old(self).order().push(final(self).map@[r]@)) ==> ids_below(final(self).list(), final(self).next_id),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(self.next_id);
                    kept(self.h@, self.first, self.last, o);
                    self.entered(self.next_id, o.len() as int);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::insert_last_with_id -> r
//@ sub Box::new\( => NodeBox::new(
//@ pass NodeBox::new Tracked(self.h.borrow_mut())
//@ sub (self\.map\.insert\([^;]*\)); => free(\1, Tracked(self.h.borrow_mut()));
//@ pass self.put_last Ghost(o)
            requires old(self).wf(),
            ensures
                r == !has_id(old(self).list(), id),
                !r ==> *final(self) == *old(self),
                r ==> final(self).good(old(self).order().push(final(self).map@[id]@)),
                r ==> final(self).good(old(self).order().push(final(self).map@[id]@)) ==> final(self).list() =~= old(self).list().push((id, val)),
                r ==> final(self).next_id == old(self).next_id,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    kept(self.h@, self.first, self.last, o);
                    if !self.map@.dom().contains(id) { self.entered(id, o.len() as int); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::insert_last_with_id_unchecked
//@ sub Box::new\( => NodeBox::new(
//@ pass NodeBox::new Tracked(self.h.borrow_mut())
//@ pass self.put_last Ghost(o)
            requires old(self).wf(), !has_id(old(self).list(), id),
            ensures
                final(self).good(old(self).order().push(final(self).map@[id]@)),
                final(self).good(old(self).order().push(final(self).map@[id]@)) ==> final(self).list() =~= old(self).list().push((id, val)),
                final(self).next_id == old(self).next_id,
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    kept(self.h@, self.first, self.last, o);
                    if !self.map@.dom().contains(id) { self.entered(id, o.len() as int); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::insert -> r
            requires old(self).wf(), ids_below(old(self).list(), old(self).next_id), old(self).next_id < u64::MAX,
            ensures
                r == old(self).next_id,
                final(self).next_id == r + 1,
                final(self).wf(),
                final(self).list() =~= old(self).list().push((r, val)),
                ids_below(final(self).list(), final(self).next_id),
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::remove -> r
//@ pass self.pull Ghost(o)
//@ sub (self\.map\.remove\([^;]*\)); => free(\1, Tracked(self.h.borrow_mut()));
            requires old(self).wf(),
            ensures
                r == has_id(old(self).list(), id),
                final(self).next_id == old(self).next_id,
                !r ==> final(self).good(old(self).order()),
                !r ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list(),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@))),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@))) ==> final(self).list() =~= without(old(self).list(), id),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    if self.map@.dom().contains(id) { self.taken(id); }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::remove_first -> r
//@ pass self.pull_first Ghost(o)
//@ sub (self\.map\.remove\([^;]*\)); => free(\1, Tracked(self.h.borrow_mut()));
//@ pass get_id Tracked(self.h.borrow())
            requires old(self).wf(),
            ensures
                r == (old(self).list().len() > 0),
                final(self).next_id == old(self).next_id,
                !r ==> *final(self) == *old(self),
                r ==> final(self).good(old(self).order().drop_first()),
                r ==> final(self).good(old(self).order().drop_first()) ==> final(self).list() =~= old(self).list().drop_first(),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    if o.len() > 0 {
                        let id = self.list()[0].0;
                        around(self.h@, self.first, self.last, o, 0);
                        self.found(id);
                        self.taken(id);
                        assert(o.index_of(o[0]) == 0);
                        assert(o.remove(0) =~= o.drop_first());
                        assert(!o.drop_first().contains(o[0]));
                        kept(self.h@, self.first, self.last, o);
                    }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::remove_last -> r
//@ pass self.pull_last Ghost(o)
//@ sub (self\.map\.remove\([^;]*\)); => free(\1, Tracked(self.h.borrow_mut()));
//@ pass get_id Tracked(self.h.borrow())
            requires old(self).wf(),
            ensures
                r == (old(self).list().len() > 0),
                final(self).next_id == old(self).next_id,
                !r ==> *final(self) == *old(self),
                r ==> final(self).good(old(self).order().drop_last()),
                r ==> final(self).good(old(self).order().drop_last()) ==> final(self).list() =~= old(self).list().drop_last(),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    if o.len() > 0 {
                        let id = self.list()[o.len() - 1].0;
                        around(self.h@, self.first, self.last, o, o.len() - 1);
                        self.found(id);
                        self.taken(id);
                        assert(o.index_of(o[o.len() - 1]) == o.len() - 1);
                        assert(o.remove(o.len() - 1) =~= o.drop_last());
                        assert(!o.drop_last().contains(o[o.len() - 1]));
                        kept(self.h@, self.first, self.last, o);
                    }
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::move_to_first -> r
//@ pass self.pull Ghost(o)
//@ pass self.put_first Ghost(o.remove(o.index_of(self.map@[id]@)))
            requires old(self).wf(),
            ensures
                r == (has_id(old(self).list(), id)),
                final(self).next_id == old(self).next_id,
                !r ==> final(self).good(old(self).order()),
                !r ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list(),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).insert(0, old(self).map@[id]@)),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).insert(0, old(self).map@[id]@)) ==> final(self).list() =~= without(old(self).list(), id).insert(0, old(self).list()[pos(old(self).list(), id)]),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    if self.map@.dom().contains(id) { self.taken(id); self.shifted(id, 0); assert(seq![self.map@[id]@] + o.remove(o.index_of(self.map@[id]@)) =~= o.remove(o.index_of(self.map@[id]@)).insert(0, self.map@[id]@)); }
                    kept(self.h@, self.first, self.last, o);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::move_to_last -> r
//@ pass self.pull Ghost(o)
//@ pass self.put_last Ghost(o.remove(o.index_of(self.map@[id]@)))
            requires old(self).wf(),
            ensures
                r == (has_id(old(self).list(), id)),
                final(self).next_id == old(self).next_id,
                !r ==> final(self).good(old(self).order()),
                !r ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list(),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).insert(old(self).order().len() - 1, old(self).map@[id]@)),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).insert(old(self).order().len() - 1, old(self).map@[id]@)) ==> final(self).list() =~= without(old(self).list(), id).insert(old(self).list().len() - 1, old(self).list()[pos(old(self).list(), id)]),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    if self.map@.dom().contains(id) { self.taken(id); self.shifted(id, o.len() - 1); assert(o.remove(o.index_of(self.map@[id]@)).push(self.map@[id]@) =~= o.remove(o.index_of(self.map@[id]@)).insert(o.len() - 1, self.map@[id]@)); }
                    kept(self.h@, self.first, self.last, o);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::move_to_prev -> r
//@ pass self.pull Ghost(o)
//@ optmap
//@ sub self\.map\.get_mut\( => map_get_mut(&mut self.map, 
//@ pass self.put_prev Ghost(o.remove(o.index_of(self.map@[id]@)))
            requires old(self).wf(),
            ensures
                r == (id != next_items_id && has_id(old(self).list(), id) && has_id(old(self).list(), next_items_id)),
                final(self).next_id == old(self).next_id,
                !r ==> final(self).good(old(self).order()),
                !r ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list(),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).insert(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).index_of(old(self).map@[next_items_id]@), old(self).map@[id]@)),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).insert(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).index_of(old(self).map@[next_items_id]@), old(self).map@[id]@)) ==> final(self).list() =~= without(old(self).list(), id).insert(pos(without(old(self).list(), id), next_items_id), old(self).list()[pos(old(self).list(), id)]),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    self.found(next_items_id);
                    if id != next_items_id && self.map@.dom().contains(id) && self.map@.dom().contains(next_items_id) { self.taken(id); self.beside(id, next_items_id); self.shifted(id, o.remove(o.index_of(self.map@[id]@)).index_of(self.map@[next_items_id]@)); }
                    kept(self.h@, self.first, self.last, o);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::move_to_next -> r
//@ pass self.pull Ghost(o)
//@ optmap
//@ sub self\.map\.get_mut\( => map_get_mut(&mut self.map, 
//@ pass self.put_next Ghost(o.remove(o.index_of(self.map@[id]@)))
            requires old(self).wf(),
            ensures
                r == (id != prev_items_id && has_id(old(self).list(), id) && has_id(old(self).list(), prev_items_id)),
                final(self).next_id == old(self).next_id,
                !r ==> final(self).good(old(self).order()),
                !r ==> final(self).good(old(self).order()) ==> final(self).list() =~= old(self).list(),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).insert(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).index_of(old(self).map@[prev_items_id]@) + 1, old(self).map@[id]@)),
                r ==> final(self).good(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).insert(old(self).order().remove(old(self).order().index_of(old(self).map@[id]@)).index_of(old(self).map@[prev_items_id]@) + 1, old(self).map@[id]@)) ==> final(self).list() =~= without(old(self).list(), id).insert(pos(without(old(self).list(), id), prev_items_id) + 1, old(self).list()[pos(old(self).list(), id)]),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.found(id);
                    self.found(prev_items_id);
                    if id != prev_items_id && self.map@.dom().contains(id) && self.map@.dom().contains(prev_items_id) { self.taken(id); self.beside(id, prev_items_id); self.shifted(id, o.remove(o.index_of(self.map@[id]@)).index_of(self.map@[prev_items_id]@) + 1); }
                    kept(self.h@, self.first, self.last, o);
                }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::iter -> r
            requires self.wf(),
            ensures r.iter.map == self, r.iter.ok(), r.iter.place() == (if self.list().len() > 0 { 0 } else { -1int }), r.left() =~= self.list(),
//@ start
                proof { assert(self.good(self.order())); if self.order().len() > 0 { around(self.h@, self.first, self.last, self.order(), 0); around(self.h@, self.first, self.last, self.order(), self.order().len() - 1); } }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::iter_mut -> r
//@ sub? LinkedMapIterMut::new\(self, self\.(\w+)\) => { let node = self.\1; LinkedMapIterMut::new(self, node) }
            requires old(self).wf(),
            ensures *r.iter.map == *old(self), r.iter.ok(), r.iter.place() == (if old(self).list().len() > 0 { 0 } else { -1int }), r.left() =~= old(self).list(),
//@ start
                proof { assert(self.good(self.order())); if self.order().len() > 0 { around(self.h@, self.first, self.last, self.order(), 0); around(self.h@, self.first, self.last, self.order(), self.order().len() - 1); } }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::iter_mut_from_last -> r
//@ sub? LinkedMapIterMut::new\(self, self\.(\w+)\) => { let node = self.\1; LinkedMapIterMut::new(self, node) }
            requires old(self).wf(),
            ensures *r.iter.map == *old(self), r.iter.ok(), r.iter.place() == old(self).list().len() - 1,
//@ start
                proof { assert(self.good(self.order())); if self.order().len() > 0 { around(self.h@, self.first, self.last, self.order(), 0); around(self.h@, self.first, self.last, self.order(), self.order().len() - 1); } }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::iter_from_last -> r
            requires self.wf(),
            ensures r.iter.map == self, r.iter.ok(), r.iter.place() == self.list().len() - 1,
//@ start
                proof { assert(self.good(self.order())); if self.order().len() > 0 { around(self.h@, self.first, self.last, self.order(), 0); around(self.h@, self.first, self.last, self.order(), self.order().len() - 1); } }
//@ end
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::iter_from_id -> r
//@ optmap
            requires self.wf(),
            ensures r is Some <==> has_id(self.list(), id), r is Some ==> (r->0).iter.map == self && (r->0).iter.ok() && (r->0).iter.place() == pos(self.list(), id),
//@ start
                proof { self.found(id); if self.map@.dom().contains(id) { around(self.h@, self.first, self.last, self.order(), self.order().index_of(self.map@[id]@)); } }
//@ end
        #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/structs/linked_m.rs LinkedMap::construct -> r
//@ sub \bBox<MutNode<V>> => NodeBox<V>
//@ sub \bBox::new\( => NodeBox::new(
//@ sub \bnode\.as_mut\(\)\.prev\s*= => deref_mut(node.as_mut(), Tracked(&mut h)).prev =
//@ sub (map\.insert\([^;]*\)); => free(\1, Tracked(&mut h));
//@ sub (LinkedMap\s*\{)\s*map\b => \1 h : Tracked(h), map
//@ pass NodeBox::new Tracked(&mut h)
//@ pass set_next Tracked(&mut h)
//@ next 0 z
            requires distinct(items@),
            ensures r.wf(), r.list() =~= items@, r.next_id == next_id,
//@ start
                broadcast use is_list;
                let tracked mut h: Heap<V> = Heap { m: Map::tracked_empty() };
                let ghost all = items@;
                proof { list_of::<V>(seq![]); }
//@ pre 0
                let ghost mut o: Seq<P<V>> = seq![first_node_ptr];
                let ghost mut k: int = 1;
//@ loop 0
                    invariant
                        distinct(all), 1 <= k <= all.len(), o.len() == k, z.remaining() =~= all.skip(k), z.obeys_prophetic_iter_laws(),
                        links(h, first_node_ptr, prev_node_ptr, o), keyed_in(map@, h, o),
                        forall|i: int| 0 <= i < k ==> h.at(#[trigger] o[i]).id == all[i].0 && h.at(o[i]).item == all[i].1,
                    ensures k == all.len(), 
//@ in 0
                    proof { appended(h, first_node_ptr, prev_node_ptr, o); kept(h, first_node_ptr, prev_node_ptr, o); appended_key(map@, h, o, all[k].0); }
                    let ghost h0 = h;
//@ last 0
                    proof { o = o.push(prev_node_ptr); k = k + 1; }
//@ post 0
                proof { list_of(o); }
//@ end
    }
    impl<V: Clone> LinkedMap<V> {
        #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_core/src/imp/structs/linked_m.rs Clone for LinkedMap::clone -> r
//@ sub let\s+mut\s+map\s*=\s*self\.map\.clone\(\); => let (mut map, Tracked(mut h)) = clone_nodes(&self.map, Tracked(self.h.borrow()));
//@ sub \bmap\.get_mut\( => map_get_mut(&mut map, 
//@ sub \bcurrent\.as_mut\(\)\.prev\s*= => deref_mut(current.as_mut(), Tracked(&mut h)).prev =
//@ sub (LinkedMap\s*\{)\s*map\b => \1 h : Tracked(h), map
//@ pass set_next Tracked(&mut h)
//@ next 0 z
            requires self.wf(),
            ensures
                r.wf(), r.next_id == self.next_id, r.list().len() == self.list().len(),
                forall|i: int| 0 <= i < self.list().len() ==> (#[trigger] r.list()[i]).0 == self.list()[i].0 && cloned(self.list()[i].1, r.list()[i].1),
//@ start
                broadcast use is_list;
                let ghost o = self.order();
                proof {
                    assert(self.good(o));
                    self.sizes();
                    list_of::<V>(seq![]);
                    kept(self.h@, self.first, self.last, o);
                    if o.len() > 0 { around(self.h@, self.first, self.last, o, 0); around(self.h@, self.first, self.last, o, o.len() - 1); }
                }
//@ pre 0
                let ghost o2 = o.map_values(|p: P<V>| map@[self.h@.at(p).id]@);
                let ghost mut k: int = 1;
                let ghost h1 = h;
                let ghost m1 = map@;
                proof {
                    assert forall|i: int| 0 <= i < o2.len() implies m1.dom().contains(self.h@.at(o[i]).id) && #[trigger] o2[i] == m1[self.h@.at(o[i]).id]@ && h.has(o2[i]) && loose(h, o2[i]) && h.at(o2[i]).id == self.h@.at(o[i]).id && cloned(self.h@.at(o[i]).item, h.at(o2[i]).item) by {
                        assert(self.map@.dom().contains(self.h@.at(o[i]).id));
                    }
                    assert(copies(self.h@, o, m1, h1, o2));
                    assert forall|i: int, j: int| 0 <= i < o2.len() && 0 <= j < o2.len() && i != j implies #[trigger] o2[i] != #[trigger] o2[j] by {
                        assert(self.map@.dom().contains(self.h@.at(o[i]).id) && self.map@.dom().contains(self.h@.at(o[j]).id));
                        assert(o[i] != o[j]);
                    }
                    assert(o2[0] == o2[0]);
                    assert(linked(h, o2.take(1), 0));
                    assert(keyed_in(m1, h, o2)) by {
                        assert forall|x: u64| #[trigger] m1.dom().contains(x) implies o2.contains(m1[x]@) && h.at(m1[x]@).id == x by {
                            assert(self.map@.dom().contains(x));
                            let i = o.index_of(self.map@[x]@);
                            assert(o2[i] == m1[x]@);
                        }
                    }
                    assert(links(h, first_node, prev_node, o2.take(1)));
                }
//@ loop 0
                    invariant
                        1 <= k <= o2.len(), o2.len() == o.len(), z.iter.ok(), z.iter.map == self, z.left() =~= self.list().skip(k),
                        links(h, first_node, prev_node, o2.take(k)), map@ == m1,
                        same(h, h1), self.good(o), o == self.order(), self.list() == self.items(o), o2.no_duplicates(), keyed_in(m1, h1, o2), last_node == o2.last(), first_node == o2[0],
                        k < o2.len() ==> prev_node == o2[k - 1],
                        copies(self.h@, o, m1, h1, o2),
                        forall|i: int| k <= i < o2.len() ==> loose(h, #[trigger] o2[i]),
                    ensures k == o.len(),
//@ in 0
                    proof { appended(h, first_node, prev_node, o2.take(k)); assert(o2[k] == o2[k]); assert(!o2.take(k).contains(o2[k])); assert forall|p: P<V>| #[trigger] o2.take(k).contains(p) implies p != o2[k] by {} }
//@ last 0
                    proof { assert(o2.take(k + 1) =~= o2.take(k).push(o2[k])); k = k + 1; }
//@ post 0
                proof { list_of(o2); assert(o2.take(k) =~= o2); }
//@ end
    }
}
pub mod linked_map_unsafe_iter {
    use super::*;
    use super::heap::*;
    use super::linked_m::*;
    use std::ptr::null_mut;
    // ASSUMED: the list an iterator runs over, kept as a pointer, is the reference it was made from
    #[verifier::reject_recursive_types(V)]
//@ item dochy_core/src/imp/structs/linked_map_unsafe_iter.rs struct LinkedMapUnsafeIter
//@ sub LinkedMapUnsafeIter<V> => LinkedMapUnsafeIter<'a, V>
//@ sub \*const LinkedMap<V> => &'a LinkedMap<V>
    impl<'a, V> LinkedMapUnsafeIter<'a, V> {
        pub open spec fn ok(&self) -> bool { self.map.good(self.map.order()) && (nil(self.node as *mut MutNode<V>) || self.map.order().contains(self.node as *mut MutNode<V>)) }
        /// the place of the cursor, -1 when it has left the list
        pub open spec fn place(&self) -> int { if nil(self.node as *mut MutNode<V>) { -1 } else { self.map.order().index_of(self.node as *mut MutNode<V>) } }
        pub proof fn here(&self)
            requires self.ok(),
            ensures
                self.map.wf(),
                -1 <= self.place() < self.map.list().len(),
                self.place() >= 0 <==> !nil(self.node as *mut MutNode<V>),
                self.map.list().len() == self.map.order().len(),
                self.place() >= 0 ==> ({
                    let o = self.map.order();
                    let i = self.place();
                    &&& o[i] == self.node as *mut MutNode<V>
                    &&& self.map.h@.has(o[i])
                    &&& self.map.first == o[0] && self.map.last == o.last() && self.map.h@.has(o[0]) && self.map.h@.has(o.last())
                    &&& i > 0 ==> self.map.h@.at(o[i]).prev == o[i - 1] && o.contains(o[i - 1]) && o[i - 1].addr() != 0 && o.index_of(o[i - 1]) == i - 1 && o[0] != o[i] && o[0].addr() != o[i].addr()
                    &&& i < o.len() - 1 ==> self.map.h@.at(o[i]).next == o[i + 1] && o.contains(o[i + 1]) && o[i + 1].addr() != 0 && o.index_of(o[i + 1]) == i + 1 && o.last() != o[i] && o.last().addr() != o[i].addr()
                    &&& forall|j: int| 0 <= j < o.len() && (#[trigger] self.map.list()[j]).0 == self.map.list()[i].0 ==> j == i
                }),
        {
            broadcast use is_list;
            if self.place() >= 0 {
                let o = self.map.order();
                let i = self.place();
                around(self.map.h@, self.map.first, self.map.last, o, i);
                around(self.map.h@, self.map.first, self.map.last, o, 0);
                around(self.map.h@, self.map.first, self.map.last, o, o.len() - 1);
                assert forall|j: int| 0 <= j < o.len() && (#[trigger] self.map.list()[j]).0 == self.map.list()[i].0 implies j == i by {
                    assert(o[j] == self.map.map@[self.map.list()[i].0]@);
                    assert(o[i] == self.map.map@[self.map.list()[i].0]@);
                }
            }
        }
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::new -> r
//@ sub LinkedMapUnsafeIter<V> => LinkedMapUnsafeIter<'a, V>
//@ sub \*const LinkedMap<V> => &'a LinkedMap<V>
            ensures r.map == map, r.node == node,
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::next_impl -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*self\.map\s*\} => self.map
//@ pass get_next Tracked(self.map.h.borrow())
            requires old(self).ok(),
            ensures
                final(self).map == old(self).map, final(self).ok(),
                old(self).place() < 0 ==> r is None && final(self).place() == -1,
                old(self).place() >= 0 ==> r == Some(old(self).map.order()[old(self).place()]) && final(self).place() == (if old(self).place() + 1 < old(self).map.list().len() { old(self).place() + 1 } else { -1 }),
//@ start
                proof { self.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::next_const -> r
//@ sub next_const<'a> => next_const
//@ optmap
//@ deref Tracked(self.map.h.borrow())
            requires old(self).ok(),
            ensures
                final(self).map == old(self).map, final(self).ok(),
                old(self).place() < 0 ==> r is None && final(self).place() == -1,
                old(self).place() >= 0 ==> r is Some && *(r->0).0 == old(self).map.list()[old(self).place()].0 && *(r->0).1 == old(self).map.list()[old(self).place()].1 && final(self).place() == (if old(self).place() + 1 < old(self).map.list().len() { old(self).place() + 1 } else { -1 }),
//@ start
                proof { self.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::prev_impl -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*self\.map\s*\} => self.map
//@ pass get_prev Tracked(self.map.h.borrow())
            requires old(self).ok(),
            ensures
                final(self).map == old(self).map, final(self).ok(),
                old(self).place() < 0 ==> r is None && final(self).place() == -1,
                old(self).place() >= 0 ==> r == Some(old(self).map.order()[old(self).place()]) && final(self).place() == (old(self).place() - 1),
//@ start
                proof { self.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::prev_const -> r
//@ sub prev_const<'a> => prev_const
//@ optmap
//@ deref Tracked(self.map.h.borrow())
            requires old(self).ok(),
            ensures
                final(self).map == old(self).map, final(self).ok(),
                old(self).place() < 0 ==> r is None && final(self).place() == -1,
                old(self).place() >= 0 ==> r is Some && *(r->0).0 == old(self).map.list()[old(self).place()].0 && *(r->0).1 == old(self).map.list()[old(self).place()].1 && final(self).place() == (old(self).place() - 1),
//@ start
                proof { self.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::next_mut -> r
//@ sub next_mut<'a> => next_mut
//@ optmap
//@ sub unsafe\s*\{\s*&mut\s*\*\s*current_node\s*\} => lend(current_node, Tracked(self.map.h.borrow()))
            requires old(self).ok(),
            ensures
                final(self).map == old(self).map, final(self).ok(),
                old(self).place() < 0 ==> r is None && final(self).place() == -1,
                old(self).place() >= 0 ==> r is Some && *(r->0).0 == old(self).map.list()[old(self).place()].0 && *(r->0).1 == old(self).map.list()[old(self).place()].1 && final(self).place() == (if old(self).place() + 1 < old(self).map.list().len() { old(self).place() + 1 } else { -1 }),
//@ start
                proof { self.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::current_const -> r
//@ sub current_const<'a> => current_const
//@ deref Tracked(self.map.h.borrow())
            requires old(self).ok(),
            ensures
                *final(self) == *old(self),
                r is Some <==> old(self).place() >= 0,
                r is Some ==> *(r->0).0 == old(self).map.list()[old(self).place()].0 && *(r->0).1 == old(self).map.list()[old(self).place()].1,
//@ start
                proof { self.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::is_available -> r
            requires self.ok(),
            ensures r == (self.place() >= 0),
//@ start
                proof { self.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::is_first -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*self\.map\s*\} => self.map
//@ deref Tracked(self.map.h.borrow())
            requires self.ok(),
            ensures r == (self.place() == 0),
//@ start
                proof { self.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_unsafe_iter.rs LinkedMapUnsafeIter::is_last -> r
//@ sub unsafe\s*\{\s*&\s*\*\s*self\.map\s*\} => self.map
//@ deref Tracked(self.map.h.borrow())
            requires self.ok(),
            ensures r == (self.place() >= 0 && self.place() == self.map.list().len() - 1),
//@ start
                proof { self.here(); }
//@ end
    }
}
pub mod linked_map_iter {
    use super::*;
    use super::heap::*;
    use super::linked_m::*;
    use super::linked_map_unsafe_iter::*;
    use std::marker::PhantomData;
    #[verifier::reject_recursive_types(V)]
//@ item dochy_core/src/imp/structs/linked_map_iter.rs struct LinkedMapIter
//@ sub LinkedMapUnsafeIter<V> => LinkedMapUnsafeIter<'a, V>
    impl<'a, V> LinkedMapIter<'a, V> {
        /// what is left between the cursor and the end of the list
        pub open spec fn left(&self) -> Seq<(u64, V)> { if self.iter.place() < 0 { Seq::empty() } else { self.iter.map.list().skip(self.iter.place()) } }
//@ fn dochy_core/src/imp/structs/linked_map_iter.rs LinkedMapIter::new -> r
//@ sub PhantomData::default\(\) => PhantomData
            ensures r.iter.map == map, r.iter.node == node,
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter.rs LinkedMapIter::next -> r
            requires old(self).iter.ok(),
            ensures
                final(self).iter.map == old(self).iter.map, final(self).iter.ok(),
                old(self).iter.place() < 0 ==> r is None && final(self).iter.place() == -1,
                old(self).iter.place() >= 0 ==> r is Some && *(r->0).0 == old(self).iter.map.list()[old(self).iter.place()].0 && *(r->0).1 == old(self).iter.map.list()[old(self).iter.place()].1 && final(self).iter.place() == (if old(self).iter.place() + 1 < old(self).iter.map.list().len() { old(self).iter.place() + 1 } else { -1 }),
                r is None <==> old(self).left().len() == 0,
                r is Some ==> *(r->0).0 == old(self).left()[0].0 && *(r->0).1 == old(self).left()[0].1,
                final(self).left() =~= (if old(self).left().len() == 0 { old(self).left() } else { old(self).left().drop_first() }),
//@ start
                proof { self.iter.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter.rs LinkedMapIter::prev -> r
            requires old(self).iter.ok(),
            ensures
                final(self).iter.map == old(self).iter.map, final(self).iter.ok(),
                old(self).iter.place() < 0 ==> r is None && final(self).iter.place() == -1,
                old(self).iter.place() >= 0 ==> r is Some && *(r->0).0 == old(self).iter.map.list()[old(self).iter.place()].0 && *(r->0).1 == old(self).iter.map.list()[old(self).iter.place()].1 && final(self).iter.place() == (old(self).iter.place() - 1),
//@ start
                proof { self.iter.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter.rs LinkedMapIter::current -> r
            requires old(self).iter.ok(),
            ensures
                *final(self) == *old(self),
                r is Some <==> old(self).iter.place() >= 0,
                r is Some ==> *(r->0).0 == old(self).iter.map.list()[old(self).iter.place()].0 && *(r->0).1 == old(self).iter.map.list()[old(self).iter.place()].1,
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter.rs LinkedMapIter::is_available -> r
            requires self.iter.ok(),
            ensures r == (self.iter.place() >= 0),
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter.rs LinkedMapIter::is_first -> r
            requires self.iter.ok(),
            ensures r == (self.iter.place() == 0),
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter.rs LinkedMapIter::is_last -> r
            requires self.iter.ok(),
            ensures r == (self.iter.place() >= 0 && self.iter.place() == self.iter.map.list().len() - 1),
//@ end
    }
}
pub mod linked_map_iter_mut {
    use super::*;
    use super::heap::*;
    use super::linked_m::*;
    use super::linked_map_unsafe_iter::*;
    use std::marker::PhantomData;
    #[verifier::reject_recursive_types(V)]
//@ item dochy_core/src/imp/structs/linked_map_iter_mut.rs struct LinkedMapIterMut
//@ sub LinkedMapUnsafeIter<V> => LinkedMapUnsafeIter<'a, V>
    impl<'a, V> LinkedMapIterMut<'a, V> {
        /// what is left between the cursor and the end of the list, as it was when the iterator was made
        pub open spec fn left(&self) -> Seq<(u64, V)> { if self.iter.place() < 0 { Seq::empty() } else { self.iter.map.list().skip(self.iter.place()) } }
//@ fn dochy_core/src/imp/structs/linked_map_iter_mut.rs LinkedMapIterMut::new -> r
//@ sub PhantomData::default\(\) => PhantomData
            ensures *r.iter.map == *old(map), r.iter.node == node,
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter_mut.rs LinkedMapIterMut::next -> r
            requires old(self).iter.ok(),
            ensures
                final(self).iter.map == old(self).iter.map, final(self).iter.ok(),
                r is None <==> old(self).left().len() == 0,
                r is Some ==> *(r->0).0 == old(self).left()[0].0 && *(r->0).1 == old(self).left()[0].1,
                final(self).left() =~= (if old(self).left().len() == 0 { old(self).left() } else { old(self).left().drop_first() }),
//@ start
                proof { self.iter.here(); }
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter_mut.rs LinkedMapIterMut::is_available -> r
            requires self.iter.ok(),
            ensures r == (self.iter.place() >= 0),
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter_mut.rs LinkedMapIterMut::is_first -> r
            requires self.iter.ok(),
            ensures r == (self.iter.place() == 0),
//@ end
//@ fn dochy_core/src/imp/structs/linked_map_iter_mut.rs LinkedMapIterMut::is_last -> r
            requires self.iter.ok(),
            ensures r == (self.iter.place() >= 0 && self.iter.place() == self.iter.map.list().len() - 1),
//@ end
    }
}
}
fn main() {}
