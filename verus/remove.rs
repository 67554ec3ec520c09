#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: which files of a history can be removed (property 18).
use vstd::prelude::*;
use std::collections::BTreeMap;

// messages are dropped
macro_rules! format { ($($t:tt)*) => { crate::lib_specs::text() } }

verus! {
global size_of usize == 8;

//@ include tree.inc

pub mod flags {
    use super::*;
    use std::sync::atomic::{AtomicBool, Ordering};
    /// Where a flag is, and what all flags hold. The state is handed through the functions as an erased parameter.
    pub uninterp spec fn id(b: AtomicBool) -> int;
    #[verifier::external_body]
    pub tracked struct Flags { x: () }
    impl Flags { pub uninterp spec fn view(self) -> Map<int, bool>; }
    pub axiom fn no_flags() -> (tracked r: Flags);
    // TRUSTED: AtomicBool new/load/store as a memory cell, used by one thread at a time (calls are redirected here)
    #[verifier::external_body]
    pub fn flag_new(v: bool, Tracked(fl): Tracked<&mut Flags>) -> (r: AtomicBool)
        ensures !old(fl)@.dom().contains(id(r)), final(fl)@ == old(fl)@.insert(id(r), v),
    { AtomicBool::new(v) }
    #[verifier::external_body]
    pub fn flag_load(b: &AtomicBool, o: Ordering, Tracked(fl): Tracked<&mut Flags>) -> (r: bool)
        requires old(fl)@.dom().contains(id(*b)),
        ensures final(fl)@ == old(fl)@, r == old(fl)@[id(*b)],
    { b.load(o) }
    #[verifier::external_body]
    pub fn flag_store(b: &AtomicBool, v: bool, o: Ordering, Tracked(fl): Tracked<&mut Flags>)
        requires old(fl)@.dom().contains(id(*b)),
        ensures final(fl)@ == old(fl)@.insert(id(*b), v),
    { b.store(v, o) }
}

pub mod hash_iter {
    use super::*;
    use super::btree_zipper::pairs;
    use std::collections::HashMap;
    use std::collections::hash_map::Iter;
    use vstd::std_specs::iter::IteratorSpec;
    /// the entries of a map, in some order
    pub open spec fn all_of<V>(m: Map<u32, V>, s: Seq<(u32, &V)>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
        &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == *s[i].1
        &&& forall|k: u32| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    }
    /// `m.iter()`
    pub fn hash_iter<'a, V>(m: &'a HashMap<u32, V>) -> (r: Iter<'a, u32, V>)
        ensures all_of(m@, pairs(r.remaining())),
    {
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let r = m.iter();
        proof {
            let s = r.remaining();
            let p = pairs(s);
            assert(forall|i: int| 0 <= i < s.len() ==> (#[trigger] p[i]).0 == *s[i].0);
            assert forall|i: int| 0 <= i < p.len() implies m@.dom().contains((#[trigger] p[i]).0) && m@[p[i].0] == *p[i].1 by { assert(m@.contains_pair(*s[i].0, *s[i].1)); }
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by {
                assert(s.no_duplicates());
                assert(s[i] != s[j]);
                assert(m@.contains_pair(*s[i].0, *s[i].1));
                assert(m@.contains_pair(*s[j].0, *s[j].1));
            }
            assert forall|x: u32| #[trigger] m@.dom().contains(x) implies exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == x by {
                let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == x;
                assert(p[i].0 == x);
            }
        }
        r
    }
}

pub mod history_remover_item {
    use super::*;
    use super::lib_specs::*;
    use super::file_name_props::*;
    use super::file_history::*;
    use super::btree_zipper::*;
    use super::listing::*;
    use super::flags::*;
    use super::hash_iter::*;
    use std::collections::HashMap;
    use std::sync::atomic::{AtomicBool, Ordering};
    use vstd::std_specs::iter::IteratorSpec;
//@ item dochy_fs/src/imp/history/remove/history_remover_item.rs struct HistoryRemoverItem
//@ item dochy_fs/src/imp/history/remove/history_remover_item.rs struct RemoveCueItem

    pub open spec fn rlook<'a>(m: Map<u32, HistoryRemoverItem<'a>>, o: Seq<u32>) -> Option<HistoryRemoverItem<'a>>
        decreases o.len()
    {
        if o.len() == 0 || !m.dom().contains(o[0]) { None }
        else if o.len() == 1 { Some(m[o[0]]) }
        else { rlook(m[o[0]].children@, o.skip(1)) }
    }
    pub open spec fn at<'a>(m: Map<u32, HistoryRemoverItem<'a>>, o: Seq<u32>) -> int { id(rlook(m, o)->0.removable) }
    /// the same files at the same places
    pub open spec fn mirrors<'a>(m: Map<u32, HistoryRemoverItem<'a>>, i: FileHistoryItem, cur: int, max: int, option: bool) -> bool {
        &&& forall|o: Seq<u32>| (#[trigger] rlook(m, o)) is Some && rlook(m, o)->0.props is Some ==> look(i, o) == Some(*rlook(m, o)->0.props->0)
        &&& forall|o: Seq<u32>| (#[trigger] look(i, o)) is Some && cur + o.len() <= max + 1 ==> node_of(rlook(m, o), look(i, o)->0, option && cur + o.len() - 1 == max)
    }
    pub open spec fn node_of(n: Option<HistoryRemoverItem>, p: FileNameProps, cumulative: bool) -> bool {
        n is Some && n->0.props is Some && *n->0.props->0 == p && n->0.cumulative == cumulative
    }
    pub open spec fn keeps(f0: Map<int, bool>, f1: Map<int, bool>) -> bool { forall|x: int| #[trigger] f0.dom().contains(x) ==> f1.dom().contains(x) && f1[x] == f0[x] }
    /// new flags, all set, one for each place
    pub open spec fn fresh<'a>(m: Map<u32, HistoryRemoverItem<'a>>, f0: Map<int, bool>, f1: Map<int, bool>) -> bool {
        &&& keeps(f0, f1)
        &&& forall|o: Seq<u32>| (#[trigger] rlook(m, o)) is Some ==> !f0.dom().contains(at(m, o)) && f1.dom().contains(at(m, o)) && f1[at(m, o)]
        &&& forall|o: Seq<u32>, q: Seq<u32>| (#[trigger] rlook(m, o)) is Some && (#[trigger] rlook(m, q)) is Some && o != q ==> at(m, o) != at(m, q)
    }
    pub open spec fn fresh_node(n: HistoryRemoverItem, f0: Map<int, bool>, f1: Map<int, bool>) -> bool {
        &&& fresh(n.children@, f0, f1)
        &&& !f0.dom().contains(id(n.removable)) && f1.dom().contains(id(n.removable)) && f1[id(n.removable)]
        &&& forall|o: Seq<u32>| (#[trigger] rlook(n.children@, o)) is Some ==> at(n.children@, o) != id(n.removable)
    }
    pub proof fn around<'a>(n: HistoryRemoverItem<'a>, f0: Map<int, bool>, f1: Map<int, bool>, f2: Map<int, bool>)
        requires fresh(n.children@, f0, f1), !f1.dom().contains(id(n.removable)), f2 == f1.insert(id(n.removable), true),
        ensures fresh_node(n, f0, f2),
    {
        let m = n.children@;
        assert forall|o: Seq<u32>| (#[trigger] rlook(m, o)) is Some implies !f0.dom().contains(at(m, o)) && f2.dom().contains(at(m, o)) && f2[at(m, o)] && at(m, o) != id(n.removable) by { assert(f1.dom().contains(at(m, o))); }
    }
    pub proof fn put<'a>(m: Map<u32, HistoryRemoverItem<'a>>, k: u32, n: HistoryRemoverItem<'a>, f0: Map<int, bool>, f1: Map<int, bool>, f2: Map<int, bool>)
        requires fresh(m, f0, f1), !m.dom().contains(k), fresh_node(n, f1, f2),
        ensures
            fresh(m.insert(k, n), f0, f2),
            forall|o: Seq<u32>| o.len() > 0 && o[0] != k ==> #[trigger] rlook(m.insert(k, n), o) == rlook(m, o),
            rlook(m.insert(k, n), seq![k]) == Some(n),
            forall|o: Seq<u32>| o.len() > 1 && o[0] == k ==> #[trigger] rlook(m.insert(k, n), o) == rlook(n.children@, o.skip(1)),
    {
        let w = m.insert(k, n);
        assert forall|o: Seq<u32>| (#[trigger] rlook(w, o)) is Some implies !f0.dom().contains(at(w, o)) && f2.dom().contains(at(w, o)) && f2[at(w, o)] by {
            if o[0] == k {
                if o.len() > 1 { assert(rlook(w, o) == rlook(n.children@, o.skip(1))); assert(!f1.dom().contains(at(n.children@, o.skip(1)))); }
            } else {
                assert(rlook(w, o) == rlook(m, o));
                assert(f1.dom().contains(at(m, o)));
            }
        }
        assert forall|o: Seq<u32>, q: Seq<u32>| (#[trigger] rlook(w, o)) is Some && (#[trigger] rlook(w, q)) is Some && o != q implies at(w, o) != at(w, q) by {
            apart(m, k, n, f0, f1, f2, o, q);
        }
    }
    proof fn apart<'a>(m: Map<u32, HistoryRemoverItem<'a>>, k: u32, n: HistoryRemoverItem<'a>, f0: Map<int, bool>, f1: Map<int, bool>, f2: Map<int, bool>, o: Seq<u32>, q: Seq<u32>)
        requires fresh(m, f0, f1), !m.dom().contains(k), fresh_node(n, f1, f2), o != q, rlook(m.insert(k, n), o) is Some, rlook(m.insert(k, n), q) is Some,
        ensures at(m.insert(k, n), o) != at(m.insert(k, n), q),
    {
        let w = m.insert(k, n);
        if o[0] != k { assert(rlook(w, o) == rlook(m, o)); assert(f1.dom().contains(at(m, o))); }
        if q[0] != k { assert(rlook(w, q) == rlook(m, q)); assert(f1.dom().contains(at(m, q))); }
        if o[0] == k && o.len() > 1 { assert(rlook(w, o) == rlook(n.children@, o.skip(1))); assert(!f1.dom().contains(at(n.children@, o.skip(1)))); }
        if q[0] == k && q.len() > 1 { assert(rlook(w, q) == rlook(n.children@, q.skip(1))); assert(!f1.dom().contains(at(n.children@, q.skip(1)))); }
        if o[0] == k && q[0] == k {
            if o.len() > 1 && q.len() > 1 {
                assert(o =~= seq![k] + o.skip(1) && q =~= seq![k] + q.skip(1));
                assert(o.skip(1) != q.skip(1));
            } else if o.len() == 1 && q.len() == 1 {
                assert(o =~= q);
            }
        }
    }

    impl<'a> RemoveCueItem<'a> {
        pub open spec fn key(self) -> Key {
            Key { ctl: self.ctl, order: match self.order_last { Some(x) => self.order@.push(x), None => self.order@ } }
        }
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs RemoveCueItem::new -> r
            ensures r.ctl == ctl, r.order@ == order@, r.order_last == order_last,
//@ end
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs RemoveCueItem::ctl -> r
            ensures r == self.ctl,
//@ end
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs RemoveCueItem::order -> r
            ensures r@ == self.order@,
//@ end
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs RemoveCueItem::order_last -> r
            ensures r == self.order_last,
//@ end
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs RemoveCueItem::from -> r
            ensures r.key() == props.key(),
//@ end
    }
    /// what has to be kept with a file
    pub open spec fn next_cue(p: FileNameProps, cumulative: bool) -> Option<Key> {
        let o = p.order@;
        if cumulative && o.last() != 0 { Some(Key { ctl: p.control, order: o.drop_last().push((o.last() - 1) as u32) }) }
        else if o.len() != 1 { Some(Key { ctl: p.prev_ctl, order: o.drop_last() }) }
        else { None }
    }
    impl<'a> HistoryRemoverItem<'a> {
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs HistoryRemoverItem::new -> r
            ensures
                r.cumulative == cumulative,
                r.props == props,
                r.children == children,
                !old(fl)@.dom().contains(id(r.removable)),
                final(fl)@ == old(fl)@.insert(id(r.removable), true),
//@ param Tracked(fl): Tracked<&mut Flags>
//@ sub AtomicBool::new\( => flag_new(
//@ pass flag_new Tracked(fl)
//@ end
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs HistoryRemoverItem::children -> r
            ensures *r == self.children,
//@ end
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs HistoryRemoverItem::keep -> r
            requires
                self.props is Some ==> self.props->0.order@.len() > 0,
                old(fl)@.dom().contains(id(self.removable)),
            ensures
                self.props is None || !old(fl)@[id(self.removable)] ==> r is None && final(fl)@ == old(fl)@,
                // the file itself is kept
                self.props is Some && old(fl)@[id(self.removable)] ==> final(fl)@ == old(fl)@.insert(id(self.removable), false)
                    // and the next one to keep is the one it needs
                    && (r is Some <==> next_cue(*self.props->0, self.cumulative) is Some)
                    && (r is Some ==> r->0.key() == next_cue(*self.props->0, self.cumulative)->0),
//@ param Tracked(fl): Tracked<&mut Flags>
//@ sub self\.removable\.load\( => flag_load(&self.removable, 
//@ sub self\.removable\.store\( => flag_store(&self.removable, 
//@ pass flag_load Tracked(&mut *fl)
//@ pass flag_store Tracked(&mut *fl)
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs HistoryRemoverItem::from -> r
            requires max_phase < usize::MAX, cur_phase <= max_phase + 1,
            ensures
                r.props == props,
                r.cumulative == (cumulative_option && cur_phase == max_phase + 1),
                mirrors(r.children@, *src, cur_phase as int, max_phase as int, cumulative_option),
                fresh_node(r, old(fl)@, final(fl)@),
//@ param Tracked(fl): Tracked<&mut Flags>
//@ pass composite_remover Tracked(&mut *fl)
//@ pass HistoryRemoverItem::new Tracked(&mut *fl)
//@ start
            proof {
                assert forall|n: HistoryRemoverItem<'a>, f0: Map<int, bool>, f1: Map<int, bool>|
                    fresh(n.children@, f0, f1) && !f1.dom().contains(id(n.removable)) implies #[trigger] fresh_node(n, f0, f1.insert(id(n.removable), true)) by {
                    around(n, f0, f1, f1.insert(id(n.removable), true));
                }
            }
//@ end
    }

    pub open spec fn both(props: BTreeMap<u32, FileNameProps>, his: BTreeMap<u32, FileHistoryItem>) -> FileHistoryItem { FileHistoryItem { items: props, children: his } }
    pub open spec fn past(p: Seq<(u32, &FileNameProps)>, h: Seq<(u32, &FileHistoryItem)>, k: u32) -> bool { !ahead(p, k) && !ahead(h, k) }
    pub open spec fn partly<'a>(m: Map<u32, HistoryRemoverItem<'a>>, i: FileHistoryItem, p: Seq<(u32, &FileNameProps)>, h: Seq<(u32, &FileHistoryItem)>, cur: int, max: int, option: bool) -> bool {
        &&& ordered(p) && ordered(h) && of_map(i.items@, p) && of_map(i.children@, h)
        &&& forall|k: u32| #[trigger] m.dom().contains(k) ==> past(p, h, k)
        &&& forall|k: u32| !#[trigger] past(p, h, k) ==> (i.items@.dom().contains(k) ==> ahead(p, k)) && (i.children@.dom().contains(k) ==> ahead(h, k))
        &&& forall|o: Seq<u32>| (#[trigger] rlook(m, o)) is Some && rlook(m, o)->0.props is Some ==> look(i, o) == Some(*rlook(m, o)->0.props->0)
        &&& forall|o: Seq<u32>| (#[trigger] look(i, o)) is Some && cur + o.len() <= max + 1 && past(p, h, o[0]) ==> node_of(rlook(m, o), look(i, o)->0, option && cur + o.len() - 1 == max)
    }
    /// one more entry, or none where there is nothing within the phases
    pub proof fn step<'a>(m: Map<u32, HistoryRemoverItem<'a>>, i: FileHistoryItem, p: Seq<(u32, &FileNameProps)>, h: Seq<(u32, &FileHistoryItem)>, p1: Seq<(u32, &FileNameProps)>, h1: Seq<(u32, &FileHistoryItem)>,
            k: u32, c: Option<&FileHistoryItem>, q: Option<&FileNameProps>, n: HistoryRemoverItem<'a>, skip: bool, cur: int, max: int, option: bool)
        requires
            partly(m, i, p, h, cur, max, option),
            stepped(h, h1, k, c),
            stepped(p, p1, k, q),
            c is Some || q is Some,
            skip ==> cur > max,
            !skip ==> (n.props is Some <==> q is Some) && (q is Some ==> *n.props->0 == *q->0) && n.cumulative == (option && cur == max),
            !skip && c is Some ==> mirrors(n.children@, *c->0, cur + 1, max, option),
            !skip && c is None ==> n.children@ == Map::<u32, HistoryRemoverItem<'a>>::empty(),
        ensures
            !m.dom().contains(k),
            partly(if skip { m } else { m.insert(k, n) }, i, p1, h1, cur, max, option),
    {
        let w = if skip { m } else { m.insert(k, n) };
        if p.len() > 0 { ahead_rest(p); }
        if h.len() > 0 { ahead_rest(h); }
        if c is Some { assert(h[0].0 == k); assert(ahead(h, k)); }
        if q is Some { assert(p[0].0 == k); assert(ahead(p, k)); }
        assert(!past(p, h, k));
        // what is ahead
        assert forall|x: u32| #[trigger] ahead(p1, x) implies ahead(p, x) && x > k by {
            let a = choose|a: int| 0 <= a < p1.len() && (#[trigger] p1[a]).0 == x;
            if q is Some { assert(p[a + 1].0 == x); assert(p[0].0 < p[a + 1].0); } else { assert(p[a].0 == x); if a > 0 { assert(p[0].0 < p[a].0); } }
        }
        assert forall|x: u32| #[trigger] ahead(h1, x) implies ahead(h, x) && x > k by {
            let a = choose|a: int| 0 <= a < h1.len() && (#[trigger] h1[a]).0 == x;
            if c is Some { assert(h[a + 1].0 == x); assert(h[0].0 < h[a + 1].0); } else { assert(h[a].0 == x); if a > 0 { assert(h[0].0 < h[a].0); } }
        }
        assert forall|x: u32| x != k && past(p1, h1, x) implies #[trigger] past(p, h, x) by {}
        assert forall|x: u32| !#[trigger] past(p1, h1, x) implies (i.items@.dom().contains(x) ==> ahead(p1, x)) && (i.children@.dom().contains(x) ==> ahead(h1, x)) by { assert(!past(p, h, x)); }
        // whether there is something at this place
        if q is Some { assert(i.items@.dom().contains(p[0].0)); }
        if c is Some { assert(i.children@.dom().contains(h[0].0)); }
        assert forall|o: Seq<u32>| (#[trigger] rlook(w, o)) is Some && rlook(w, o)->0.props is Some implies look(i, o) == Some(*rlook(w, o)->0.props->0) by {
            if !skip && o[0] == k {
                if o.len() == 1 { assert(o =~= seq![k]); } else { assert(rlook(w, o) == rlook(n.children@, o.skip(1))); }
            } else { assert(rlook(w, o) == rlook(m, o)); }
        }
        assert forall|o: Seq<u32>| (#[trigger] look(i, o)) is Some && cur + o.len() <= max + 1 && past(p1, h1, o[0]) implies node_of(rlook(w, o), look(i, o)->0, option && cur + o.len() - 1 == max) by {
            if o[0] == k {
                if o.len() > 1 {
                    assert(i.children@.dom().contains(k));
                    assert(look(i.children@[k], o.skip(1)) is Some);
                    assert(ahead(h, k));
                    assert(c is Some) by { if c is None { let a = choose|a: int| 0 <= a < h.len() && (#[trigger] h[a]).0 == k; if a > 0 { assert(h[0].0 < h[a].0); } } }
                    assert(rlook(w, o) == rlook(n.children@, o.skip(1)));
                } else {
                    assert(ahead(p, k));
                    assert(q is Some) by { if q is None { let a = choose|a: int| 0 <= a < p.len() && (#[trigger] p[a]).0 == k; if a > 0 { assert(p[0].0 < p[a].0); } } }
                }
            } else {
                assert(past(p, h, o[0]));
                assert(rlook(w, o) == rlook(m, o));
            }
        }
    }
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/remove/composite_remover.rs composite_remover -> r
        requires max_phase < usize::MAX, cur_phase <= max_phase + 1,
        ensures
            mirrors(r@, both(*props, *his), cur_phase as int, max_phase as int, cumulative_option),
            fresh(r@, old(fl)@, final(fl)@),
//@ param Tracked(fl): Tracked<&mut Flags>
//@ pass HistoryRemoverItem::from Tracked(&mut *fl)
//@ pass HistoryRemoverItem::new Tracked(&mut *fl)
//@ next 0 zi
//@ loops while
//@ start
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let ghost f0 = fl@;
        let ghost i = both(*props, *his);
        let ghost cur = cur_phase as int;
        let ghost max = max_phase as int;
//@ pre 0
        let ghost mut z0 = zi;
//@ loop 0
        invariant_except_break
            zi.wf(),
            z0 == zi,
            partly(r@, i, zi.pending_props(), zi.pending_his(), cur, max, cumulative_option),
            fresh(r@, f0, fl@),
            cur == cur_phase, max == max_phase,
            cumulative == (cumulative_option && cur == max),
            max_phase < usize::MAX, cur_phase <= max_phase + 1,
        ensures
            mirrors(r@, i, cur, max, cumulative_option),
            fresh(r@, f0, fl@),
//@ in 0
            broadcast use vstd::std_specs::hash::group_hash_axioms;
            let ghost m0 = r@;
            let ghost fb = fl@;
            let ghost none = Map::<u32, HistoryRemoverItem<'a>>::empty();
            proof { assert(fresh(none, fb, fb)); }
//@ last 0
            proof {
                let skip = his is Some && cur > max;
                let n = r@[ind];
                step(m0, i, z0.pending_props(), z0.pending_his(), zi.pending_props(), zi.pending_his(), ind, his, props, n, skip, cur, max, cumulative_option);
                if !skip {
                    if his is None { around(n, fb, fb, fl@); }
                    put(m0, ind, n, f0, fb, fl@);
                    assert(r@ =~= m0.insert(ind, n));
                }
                z0 = zi;
            }
//@ end

    /// the files whose flag is set, each once
    pub open spec fn picks<'a>(m: Map<u32, HistoryRemoverItem<'a>>, f: Map<int, bool>, ks: Seq<Seq<u32>>, s: Seq<&'a FileNameProps>) -> bool {
        &&& ks.len() == s.len()
        &&& ks.no_duplicates()
        &&& forall|j: int| 0 <= j < ks.len() ==> rlook(m, #[trigger] ks[j]) is Some && rlook(m, ks[j])->0.props == Some(s[j]) && f[at(m, ks[j])]
        &&& forall|o: Seq<u32>| (#[trigger] rlook(m, o)) is Some && rlook(m, o)->0.props is Some && f[at(m, o)] ==> ks.contains(o)
    }
    pub open spec fn nlook<'a>(n: HistoryRemoverItem<'a>, o: Seq<u32>) -> Option<HistoryRemoverItem<'a>> { if o.len() == 0 { Some(n) } else { rlook(n.children@, o) } }
    pub open spec fn picks_node<'a>(n: HistoryRemoverItem<'a>, f: Map<int, bool>, ks: Seq<Seq<u32>>, s: Seq<&'a FileNameProps>) -> bool {
        &&& ks.len() == s.len()
        &&& ks.no_duplicates()
        &&& forall|j: int| 0 <= j < ks.len() ==> nlook(n, #[trigger] ks[j]) is Some && nlook(n, ks[j])->0.props == Some(s[j]) && f[id(nlook(n, ks[j])->0.removable)]
        &&& forall|o: Seq<u32>| (#[trigger] nlook(n, o)) is Some && nlook(n, o)->0.props is Some && f[id(nlook(n, o)->0.removable)] ==> ks.contains(o)
    }
    /// while the entries of a map are visited
    pub open spec fn picked<'a>(m: Map<u32, HistoryRemoverItem<'a>>, f: Map<int, bool>, ks: Seq<Seq<u32>>, s: Seq<&'a FileNameProps>, h: Seq<(u32, &HistoryRemoverItem<'a>)>) -> bool {
        &&& ks.len() == s.len()
        &&& ks.no_duplicates()
        &&& forall|j: int| 0 <= j < ks.len() ==> rlook(m, #[trigger] ks[j]) is Some && rlook(m, ks[j])->0.props == Some(s[j]) && f[at(m, ks[j])] && !ahead(h, ks[j][0])
        &&& forall|o: Seq<u32>| (#[trigger] rlook(m, o)) is Some && rlook(m, o)->0.props is Some && f[at(m, o)] ==> ks.contains(o) || ahead(h, o[0])
        &&& forall|a: int, b: int| 0 <= a < b < h.len() ==> (#[trigger] h[a]).0 != (#[trigger] h[b]).0
        &&& forall|a: int| 0 <= a < h.len() ==> m.dom().contains((#[trigger] h[a]).0) && m[h[a].0] == *h[a].1
    }
    pub proof fn pick<'a>(m: Map<u32, HistoryRemoverItem<'a>>, f: Map<int, bool>, ks: Seq<Seq<u32>>, s: Seq<&'a FileNameProps>, h: Seq<(u32, &HistoryRemoverItem<'a>)>, kc: Seq<Seq<u32>>, sc: Seq<&'a FileNameProps>)
        requires picked(m, f, ks, s, h), h.len() > 0, picks_node(*h[0].1, f, kc, sc),
        ensures picked(m, f, ks + under(h[0].0, kc), s + sc, h.skip(1)),
    {
        let k = h[0].0;
        let n = *h[0].1;
        let u = under(k, kc);
        let w = ks + u;
        let t = s + sc;
        let h1 = h.skip(1);
        assert(m.dom().contains(h[0].0) && m[k] == n);
        assert forall|x: u32| #[trigger] ahead(h1, x) implies ahead(h, x) && x != k by {
            let a = choose|a: int| 0 <= a < h1.len() && (#[trigger] h1[a]).0 == x;
            assert(h[a + 1].0 == x);
            assert(h[0].0 != h[a + 1].0);
        }
        assert forall|x: u32| #[trigger] ahead(h, x) implies x == k || ahead(h1, x) by {
            let a = choose|a: int| 0 <= a < h.len() && (#[trigger] h[a]).0 == x;
            if a > 0 { assert(h1[a - 1].0 == x); }
        }
        assert(ahead(h, k));
        assert forall|j: int| 0 <= j < kc.len() implies #[trigger] u[j] == seq![k] + kc[j] && rlook(m, u[j]) == nlook(n, kc[j]) by {
            assert((seq![k] + kc[j]).skip(1) =~= kc[j]);
        }
        assert forall|j: int| 0 <= j < w.len() implies rlook(m, #[trigger] w[j]) is Some && rlook(m, w[j])->0.props == Some(t[j]) && f[at(m, w[j])] && !ahead(h1, w[j][0]) by {
            if j < ks.len() { assert(rlook(m, ks[j]) is Some); } else { let x = j - ks.len(); assert(u[x] == seq![k] + kc[x]); assert(nlook(n, kc[x]) is Some); }
        }
        assert forall|a: int, b: int| 0 <= a < w.len() && 0 <= b < w.len() && a != b implies #[trigger] w[a] != #[trigger] w[b] by {
            if a >= ks.len() { assert(u[a - ks.len()] == seq![k] + kc[a - ks.len()]); assert(w[a][0] == k); }
            if b >= ks.len() { assert(u[b - ks.len()] == seq![k] + kc[b - ks.len()]); assert(w[b][0] == k); }
            if a < ks.len() { assert(rlook(m, ks[a]) is Some && !ahead(h, ks[a][0])); }
            if b < ks.len() { assert(rlook(m, ks[b]) is Some && !ahead(h, ks[b][0])); }
            if a >= ks.len() && b >= ks.len() {
                let x = kc[a - ks.len()];
                let y = kc[b - ks.len()];
                assert(x != y);
                assert((seq![k] + x).skip(1) =~= x && (seq![k] + y).skip(1) =~= y);
            }
        }
        assert forall|o: Seq<u32>| (#[trigger] rlook(m, o)) is Some && rlook(m, o)->0.props is Some && f[at(m, o)] implies w.contains(o) || ahead(h1, o[0]) by {
            if ks.contains(o) {
                let j = choose|j: int| 0 <= j < ks.len() && ks[j] == o;
                assert(w[j] == o);
            } else if o[0] == k {
                let x = o.skip(1);
                assert(o =~= seq![k] + x);
                assert(nlook(n, x) == rlook(m, o));
                assert(kc.contains(x));
                let j = choose|j: int| 0 <= j < kc.len() && kc[j] == x;
                assert(u[j] == o);
                assert(w[ks.len() + j] == o);
            }
        }
        assert forall|a: int, b: int| 0 <= a < b < h1.len() implies (#[trigger] h1[a]).0 != (#[trigger] h1[b]).0 by { assert(h[a + 1].0 != h[b + 1].0); }
        assert forall|a: int| 0 <= a < h1.len() implies m.dom().contains((#[trigger] h1[a]).0) && m[h1[a].0] == *h1[a].1 by { assert(m.dom().contains(h[a + 1].0)); }
    }
    pub open spec fn known<'a>(m: Map<u32, HistoryRemoverItem<'a>>, f: Map<int, bool>) -> bool { forall|o: Seq<u32>| (#[trigger] rlook(m, o)) is Some ==> f.dom().contains(at(m, o)) }
    pub open spec fn known_node(n: HistoryRemoverItem, f: Map<int, bool>) -> bool { f.dom().contains(id(n.removable)) && known(n.children@, f) }
    pub proof fn knows<'a>(m: Map<u32, HistoryRemoverItem<'a>>, f: Map<int, bool>, k: u32)
        requires known(m, f), m.dom().contains(k),
        ensures known_node(m[k], f),
    {
        assert(rlook(m, seq![k]) == Some(m[k]));
        let c = m[k].children@;
        assert forall|o: Seq<u32>| (#[trigger] rlook(c, o)) is Some implies f.dom().contains(at(c, o)) by {
            let q = seq![k] + o;
            assert(q.skip(1) =~= o);
            assert(rlook(m, q) == rlook(c, o));
        }
    }
    impl<'a> HistoryRemoverItem<'a> {
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/remove/history_remover_item.rs HistoryRemoverItem::get_removable_props
            requires known_node(*self, old(fl)@),
            ensures
                final(fl)@ == old(fl)@,
                exists|ks: Seq<Seq<u32>>, s: Seq<&'a FileNameProps>| #[trigger] picks_node(*self, old(fl)@, ks, s) && final(r)@ == old(r)@ + s,
//@ param Tracked(fl): Tracked<&mut Flags>
//@ sub self\.removable\.load\( => flag_load(&self.removable, 
//@ pass flag_load Tracked(&mut *fl)
//@ pass .get_removable_props Tracked(&mut *fl)
//@ sub \bin\s+&self\.children => in hash_iter(&self.children)
//@ sub \bfor\s*\(_, => for (num_,
//@ next 0 zi
//@ loops while
//@ start
            let ghost f = fl@;
            let ghost m = self.children@;
            let ghost r0 = r@;
            let ghost own = if f[id(self.removable)] && self.props is Some { seq![self.props->0] } else { Seq::empty() };
//@ pre 0
            let ghost mut z0 = zi;
            let ghost mut ks: Seq<Seq<u32>> = Seq::empty();
            let ghost mut s: Seq<&'a FileNameProps> = Seq::empty();
            proof {
                assert(r@ =~= r0 + own + s);
                assert(picked(m, f, ks, s, pairs(zi.remaining())));
            }
//@ loop 0
            invariant_except_break
                z0 == zi,
                picked(m, f, ks, s, pairs(zi.remaining())),
                r@ == r0 + own + s,
                known(m, f), fl@ == f, m == self.children@,
            ensures
                picks(m, f, ks, s),
                r@ == r0 + own + s,
                fl@ == f,
//@ in 0
            let ghost rb = r@;
            proof {
                pieces(z0.remaining(), -1i64, None);
                let h0 = pairs(z0.remaining());
                assert(h0[0] == (*num_, child));
                assert(m.dom().contains(h0[0].0));
                knows(m, f, *num_);
            }
//@ last 0
            proof {
                let (kc, sc) = choose|kc: Seq<Seq<u32>>, sc: Seq<&'a FileNameProps>| #[trigger] picks_node(*child, f, kc, sc) && r@ == rb + sc;
                assert(picks_node(*child, f, kc, sc) && r@ == rb + sc);
                pick(m, f, ks, s, pairs(z0.remaining()), kc, sc);
                ks = ks + under(*num_, kc);
                assert(r0 + own + s + sc =~= r0 + own + (s + sc));
                s = s + sc;
                z0 = zi;
            }
//@ post 0
            proof {
                let me: Seq<Seq<u32>> = if f[id(self.removable)] && self.props is Some { seq![Seq::empty()] } else { Seq::empty() };
                let w = me + ks;
                let t = own + s;
                assert(r0 + own + s =~= r0 + t);
                assert forall|j: int| 0 <= j < w.len() implies nlook(*self, #[trigger] w[j]) is Some && nlook(*self, w[j])->0.props == Some(t[j]) && f[id(nlook(*self, w[j])->0.removable)] by {
                    if j >= me.len() { assert(rlook(m, ks[j - me.len()]) is Some); }
                }
                assert forall|a: int, b: int| 0 <= a < w.len() && 0 <= b < w.len() && a != b implies #[trigger] w[a] != #[trigger] w[b] by {
                    if a >= me.len() { assert(rlook(m, ks[a - me.len()]) is Some); }
                    if b >= me.len() { assert(rlook(m, ks[b - me.len()]) is Some); }
                }
                assert forall|o: Seq<u32>| (#[trigger] nlook(*self, o)) is Some && nlook(*self, o)->0.props is Some && f[id(nlook(*self, o)->0.removable)] implies w.contains(o) by {
                    if o.len() == 0 { assert(o =~= Seq::empty()); assert(w[0] == o); }
                    else {
                        assert(rlook(m, o) is Some);
                        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == o;
                        assert(w[me.len() + j] == o);
                    }
                }
                assert(picks_node(*self, f, w, t));
            }
//@ end
    }
}

pub mod history_remover {
    use super::*;
    use super::lib_specs::*;
    use super::file_name_props::*;
    use super::file_history::*;
    use super::btree_zipper::*;
    use super::listing::*;
    use super::flags::*;
    use super::hash_iter::*;
    use super::history_remover_item::*;
    use std::collections::HashMap;
    use vstd::std_specs::iter::IteratorSpec;
//@ item dochy_fs/src/imp/history/remove/history_remover.rs struct HistoryRemover
//@ item dochy_fs/src/imp/history/remove/history_remover.rs struct HistoryRemoverCtlItem

    /// `a.iter().chain(b.iter())`
    pub struct Chained<'b> { pub a: &'b [u32], pub b: &'b Option<u32>, pub i: usize, pub end: bool }
    pub open spec fn joined(a: Seq<u32>, b: Option<u32>) -> Seq<u32> { match b { Some(x) => a.push(x), None => a } }
    pub fn chain_<'b>(a: &'b [u32], b: &'b Option<u32>) -> (r: Chained<'b>)
        ensures r.wf(), r.rest() == joined(a@, *b),
    {
        let r = Chained { a, b, i: 0, end: false };
        proof { assert(r.rest() =~= joined(a@, *b)); }
        r
    }
    impl<'b> Chained<'b> {
        pub open spec fn wf(self) -> bool { self.i <= self.a@.len() && (self.end ==> self.i == self.a@.len()) }
        pub open spec fn rest(self) -> Seq<u32> { if !self.end { joined(self.a@, *self.b).skip(self.i as int) } else { Seq::empty() } }
        pub fn next(&mut self) -> (r: Option<&'b u32>)
            requires old(self).wf(),
            ensures
                final(self).wf(),
                r is None <==> old(self).rest().len() == 0,
                r is None ==> final(self).rest().len() == 0,
                r is Some ==> *r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        {
            let ghost s = self.rest();
            if self.i < self.a.len() {
                let x = &self.a[self.i];
                self.i = self.i + 1;
                proof { assert(self.rest() =~= s.skip(1)); }
                Some(x)
            } else if !self.end {
                self.end = true;
                match self.b {
                    Some(x) => { proof { assert(self.rest() =~= s.skip(1)); } Some(x) }
                    None => None,
                }
            } else { None }
        }
    }
    impl<'a> HistoryRemover<'a> {
        pub open spec fn look(self, k: Key) -> Option<HistoryRemoverItem<'a>> { if self.ctls@.dom().contains(k.ctl) { rlook(self.ctls@[k.ctl].items@, k.order) } else { None } }
        pub open spec fn at(self, k: Key) -> int { id(self.look(k)->0.removable) }
        /// it knows every file and nothing else
        pub open spec fn stands_for(self, h: FileHistory) -> bool {
            &&& forall|k: Key| (#[trigger] self.look(k)) is Some && self.look(k)->0.props is Some ==> h.look(k) == Some(*self.look(k)->0.props->0)
            &&& forall|k: Key| (#[trigger] h.look(k)) is Some && k.order.len() <= h.max_phase + 1 ==> node_of(self.look(k), h.look(k)->0, h.cumulative && k.order.len() == h.max_phase + 1)
        }
        /// one flag for each place
        pub open spec fn flagged(self, f: Map<int, bool>) -> bool {
            &&& forall|k: Key| (#[trigger] self.look(k)) is Some ==> f.dom().contains(self.at(k))
            &&& forall|k: Key, q: Key| (#[trigger] self.look(k)) is Some && (#[trigger] self.look(q)) is Some && k != q ==> self.at(k) != self.at(q)
        }
        pub open spec fn kept(self, f: Map<int, bool>, k: Key) -> bool { self.look(k) is Some && self.look(k)->0.props is Some && !f[self.at(k)] }
    }
    impl<'a> HistoryRemoverCtlItem<'a> {
//@ fn dochy_fs/src/imp/history/remove/history_remover.rs HistoryRemoverCtlItem::from -> r
            requires max_phase < usize::MAX,
            ensures
                mirrors(r.items@, *ctl, 0, max_phase as int, cumulative_option),
                fresh(r.items@, old(fl)@, final(fl)@),
//@ param Tracked(fl): Tracked<&mut Flags>
//@ pass composite_remover Tracked(&mut *fl)
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/remove/history_remover.rs HistoryRemoverCtlItem::get_item_from_cue -> r
            ensures
                r is Some <==> rlook(self.items@, joined(cue_order@, cue_order_last)) is Some,
                r is Some ==> *r->0 == rlook(self.items@, joined(cue_order@, cue_order_last))->0,
//@ sub cue_order\.iter\(\)\.chain\(\s*cue_order_last\.iter\(\)\s*\) => chain_(cue_order, &cue_order_last)
//@ next 0 zi
//@ loops while
//@ start
            broadcast use vstd::std_specs::hash::group_hash_axioms;
            let ghost goal = rlook(self.items@, joined(cue_order@, cue_order_last));
//@ loop 0
            invariant_except_break
                zi.wf(),
                goal == nlook(*item, zi.rest()),
                goal == rlook(self.items@, joined(cue_order@, cue_order_last)),
            ensures
                goal == Some(*item),
                goal == rlook(self.items@, joined(cue_order@, cue_order_last)),
//@ in 0
            broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/remove/history_remover.rs HistoryRemoverCtlItem::get_removable_props
            requires known(self.items@, old(fl)@),
            ensures
                final(fl)@ == old(fl)@,
                exists|ks: Seq<Seq<u32>>, s: Seq<&'a FileNameProps>| #[trigger] picks(self.items@, old(fl)@, ks, s) && final(r)@ == old(r)@ + s,
//@ param Tracked(fl): Tracked<&mut Flags>
//@ pass .get_removable_props Tracked(&mut *fl)
//@ sub \bin\s+&self\.items => in hash_iter(&self.items)
//@ sub \bfor\s*\(_, => for (num_,
//@ next 0 zi
//@ loops while
//@ pre 0
            let ghost f = fl@;
            let ghost m = self.items@;
            let ghost r0 = r@;
            let ghost mut z0 = zi;
            let ghost mut ks: Seq<Seq<u32>> = Seq::empty();
            let ghost mut s: Seq<&'a FileNameProps> = Seq::empty();
            proof {
                assert(r@ =~= r0 + s);
                assert(picked(m, f, ks, s, pairs(zi.remaining())));
            }
//@ loop 0
            invariant_except_break
                z0 == zi,
                picked(m, f, ks, s, pairs(zi.remaining())),
                r@ == r0 + s,
                known(m, f), fl@ == f, m == self.items@,
            ensures
                picks(m, f, ks, s),
                r@ == r0 + s,
                fl@ == f,
//@ in 0
            let ghost rb = r@;
            proof {
                pieces(z0.remaining(), -1i64, None);
                let h0 = pairs(z0.remaining());
                assert(h0[0] == (*num_, ctl));
                assert(m.dom().contains(h0[0].0));
                knows(m, f, *num_);
            }
//@ last 0
            proof {
                let (kc, sc) = choose|kc: Seq<Seq<u32>>, sc: Seq<&'a FileNameProps>| #[trigger] picks_node(*ctl, f, kc, sc) && r@ == rb + sc;
                assert(picks_node(*ctl, f, kc, sc) && r@ == rb + sc);
                pick(m, f, ks, s, pairs(z0.remaining()), kc, sc);
                ks = ks + under(*num_, kc);
                assert(r0 + s + sc =~= r0 + (s + sc));
                s = s + sc;
                z0 = zi;
            }
//@ end
    }

    pub open spec fn rl<'a>(r: Map<u32, HistoryRemoverCtlItem<'a>>, k: Key) -> Option<HistoryRemoverItem<'a>> { if r.dom().contains(k.ctl) { rlook(r[k.ctl].items@, k.order) } else { None } }
    pub open spec fn rat<'a>(r: Map<u32, HistoryRemoverCtlItem<'a>>, k: Key) -> int { id(rl(r, k)->0.removable) }
    pub open spec fn built<'a>(r: Map<u32, HistoryRemoverCtlItem<'a>>, h: FileHistory, e: Seq<(u32, &FileHistoryItem)>, f: Map<int, bool>) -> bool {
        &&& ordered(e) && of_map(h.ctls@, e)
        &&& forall|c: u32| #[trigger] r.dom().contains(c) ==> h.ctls@.dom().contains(c) && !ahead(e, c) && mirrors(r[c].items@, h.ctls@[c], 0, h.max_phase as int, h.cumulative)
        &&& forall|c: u32| #[trigger] h.ctls@.dom().contains(c) ==> r.dom().contains(c) || ahead(e, c)
        &&& forall|k: Key| (#[trigger] rl(r, k)) is Some ==> f.dom().contains(rat(r, k)) && f[rat(r, k)]
        &&& forall|k: Key, q: Key| (#[trigger] rl(r, k)) is Some && (#[trigger] rl(r, q)) is Some && k != q ==> rat(r, k) != rat(r, q)
    }
    pub proof fn build_more<'a>(r: Map<u32, HistoryRemoverCtlItem<'a>>, h: FileHistory, e: Seq<(u32, &FileHistoryItem)>, n: HistoryRemoverCtlItem<'a>, f1: Map<int, bool>, f2: Map<int, bool>)
        requires built(r, h, e, f1), e.len() > 0, mirrors(n.items@, *e[0].1, 0, h.max_phase as int, h.cumulative), fresh(n.items@, f1, f2),
        ensures built(r.insert(e[0].0, n), h, e.skip(1), f2),
    {
        let c0 = e[0].0;
        let w = r.insert(c0, n);
        ahead_rest(e);
        assert(h.ctls@.dom().contains(e[0].0));
        assert(ahead(e, c0));
        assert forall|c: u32| #[trigger] w.dom().contains(c) implies h.ctls@.dom().contains(c) && !ahead(e.skip(1), c) && mirrors(w[c].items@, h.ctls@[c], 0, h.max_phase as int, h.cumulative) by {
            if ahead(e.skip(1), c) {
                let a = choose|a: int| 0 <= a < e.skip(1).len() && (#[trigger] e.skip(1)[a]).0 == c;
                assert(e[a + 1].0 == c && e[0].0 < e[a + 1].0);
                assert(ahead(e, c));
            }
        }
        assert forall|k: Key| (#[trigger] rl(w, k)) is Some implies f2.dom().contains(rat(w, k)) && f2[rat(w, k)] by {
            if k.ctl == c0 { assert(rl(w, k) == rlook(n.items@, k.order)); } else { assert(rl(w, k) == rl(r, k)); assert(f1.dom().contains(rat(r, k))); }
        }
        assert forall|k: Key, q: Key| (#[trigger] rl(w, k)) is Some && (#[trigger] rl(w, q)) is Some && k != q implies rat(w, k) != rat(w, q) by {
            if k.ctl == c0 { assert(rl(w, k) == rlook(n.items@, k.order)); assert(!f1.dom().contains(at(n.items@, k.order))); } else { assert(rl(w, k) == rl(r, k)); assert(f1.dom().contains(rat(r, k))); }
            if q.ctl == c0 { assert(rl(w, q) == rlook(n.items@, q.order)); assert(!f1.dom().contains(at(n.items@, q.order))); } else { assert(rl(w, q) == rl(r, q)); assert(f1.dom().contains(rat(r, q))); }
        }
    }
    pub proof fn built_all(r: HistoryRemover, h: FileHistory, e: Seq<(u32, &FileHistoryItem)>, f: Map<int, bool>)
        requires built(r.ctls@, h, e, f), e.len() == 0,
        ensures r.stands_for(h), r.flagged(f), forall|k: Key| (#[trigger] r.look(k)) is Some ==> f[r.at(k)],
    {
        assert forall|k: Key| #[trigger] r.look(k) == rl(r.ctls@, k) by {}
        assert forall|k: Key| (#[trigger] r.look(k)) is Some && r.look(k)->0.props is Some implies h.look(k) == Some(*r.look(k)->0.props->0) by {
            assert(rlook(r.ctls@[k.ctl].items@, k.order) is Some);
            assert(r.ctls@.dom().contains(k.ctl));
        }
        assert forall|k: Key| (#[trigger] h.look(k)) is Some && k.order.len() <= h.max_phase + 1 implies node_of(r.look(k), h.look(k)->0, h.cumulative && k.order.len() == h.max_phase + 1) by {
            assert(h.ctls@.dom().contains(k.ctl));
            assert(r.ctls@.dom().contains(k.ctl));
            assert(look(h.ctls@[k.ctl], k.order) is Some);
        }
        assert forall|k: Key| (#[trigger] r.look(k)) is Some implies f.dom().contains(r.at(k)) && f[r.at(k)] by { assert(rl(r.ctls@, k) is Some); }
        assert forall|k: Key, q: Key| (#[trigger] r.look(k)) is Some && (#[trigger] r.look(q)) is Some && k != q implies r.at(k) != r.at(q) by { assert(rl(r.ctls@, k) is Some && rl(r.ctls@, q) is Some); }
    }

    /// the files reached from one by going to what each needs
    pub open spec fn chain(h: FileHistory, k: Key, n: nat) -> Option<Key>
        decreases n
    {
        if n == 0 { Some(k) }
        else {
            match chain(h, k, (n - 1) as nat) {
                Some(q) => if h.look(q) is Some { needs(h.look(q)->0, h.max_phase as int, h.cumulative) } else { None },
                None => None,
            }
        }
    }
    pub open spec fn reached(h: FileHistory, k: Key, q: Key) -> bool { exists|n: nat| #[trigger] chain(h, k, n) == Some(q) }
    pub proof fn reach_more(h: FileHistory, k: Key, q: Key, x: Key)
        requires reached(h, k, q), h.look(q) is Some, needs(h.look(q)->0, h.max_phase as int, h.cumulative) == Some(x),
        ensures reached(h, k, x),
    {
        let n = choose|n: nat| #[trigger] chain(h, k, n) == Some(q);
        assert(chain(h, k, n + 1) == Some(x));
    }
    /// what every history made by saving is like
    pub open spec fn sound(h: FileHistory) -> bool {
        &&& h.wf()
        &&& h.max_phase < usize::MAX
        &&& forall|k: Key| (#[trigger] h.look(k)) is Some ==> k.order.len() <= h.max_phase + 1
        // ensured by create_dependencies (unit ancestors), as only the newest file's run is continued
        &&& forall|k: Key| (#[trigger] h.look(k)) is Some && h.cumulative && k.order.len() == h.max_phase + 1 && k.order.last() > 0 ==> h.look(k)->0.prev_ctl == h.look(k)->0.control
    }
    pub open spec fn rests_on(h: FileHistory, k: Key, q: Key) -> bool { h.look(k) is Some && needs(h.look(k)->0, h.max_phase as int, h.cumulative) == Some(q) && h.look(q) is Some }
    impl<'a> HistoryRemover<'a> {
        /// with every file that is kept, the one it needs is kept
        pub open spec fn closed(self, h: FileHistory, f: Map<int, bool>) -> bool {
            forall|k: Key, q: Key| #![trigger self.kept(f, k), h.look(q)] self.kept(f, k) && rests_on(h, k, q) ==> self.kept(f, q)
        }
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/remove/history_remover.rs HistoryRemover::from -> r
            requires history.max_phase < usize::MAX,
            ensures
                r.stands_for(*history),
                r.flagged(final(fl)@),
                forall|k: Key| (#[trigger] r.look(k)) is Some ==> final(fl)@[r.at(k)],
//@ param Tracked(fl): Tracked<&mut Flags>
//@ pass HistoryRemoverCtlItem::from Tracked(&mut *fl)
//@ sub \bin\s+src_ctls\b => in iter_(src_ctls)
//@ next 0 zi
//@ loops while
//@ start
            broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ pre 0
            let ghost mut z0 = zi;
//@ loop 0
            invariant_except_break
                z0 == zi,
                history.max_phase < usize::MAX,
                built(r_ctls@, *history, pairs(zi.remaining()), fl@),
            ensures
                built(r_ctls@, *history, Seq::empty(), fl@),
//@ in 0
            broadcast use vstd::std_specs::hash::group_hash_axioms;
            let ghost m0 = r_ctls@;
            let ghost fb = fl@;
//@ last 0
            proof {
                pieces(z0.remaining(), -1i64, None);
                build_more(m0, *history, pairs(z0.remaining()), r_ctls@[*index], fb, fl@);
                assert(r_ctls@ =~= m0.insert(*index, r_ctls@[*index]));
                z0 = zi;
            }
//@ post 0
            proof {
                assert forall|r: HistoryRemover| #[trigger] r.ctls == r_ctls implies r.stands_for(*history) && r.flagged(fl@) && (forall|k: Key| (#[trigger] r.look(k)) is Some ==> fl@[r.at(k)]) by {
                    built_all(r, *history, Seq::empty(), fl@);
                }
            }
//@ end
    }

    pub open spec fn picks_all<'a>(r: HistoryRemover<'a>, f: Map<int, bool>, ks: Seq<Key>, s: Seq<&'a FileNameProps>) -> bool {
        &&& ks.len() == s.len()
        &&& ks.no_duplicates()
        &&& forall|j: int| 0 <= j < ks.len() ==> r.look(#[trigger] ks[j]) is Some && r.look(ks[j])->0.props == Some(s[j]) && f[r.at(ks[j])]
        &&& forall|k: Key| (#[trigger] r.look(k)) is Some && r.look(k)->0.props is Some && f[r.at(k)] ==> ks.contains(k)
    }
    pub open spec fn picked_all<'a>(r: HistoryRemover<'a>, f: Map<int, bool>, ks: Seq<Key>, s: Seq<&'a FileNameProps>, h: Seq<(u32, &HistoryRemoverCtlItem<'a>)>) -> bool {
        &&& ks.len() == s.len()
        &&& ks.no_duplicates()
        &&& forall|j: int| 0 <= j < ks.len() ==> r.look(#[trigger] ks[j]) is Some && r.look(ks[j])->0.props == Some(s[j]) && f[r.at(ks[j])] && !ahead(h, ks[j].ctl)
        &&& forall|k: Key| (#[trigger] r.look(k)) is Some && r.look(k)->0.props is Some && f[r.at(k)] ==> ks.contains(k) || ahead(h, k.ctl)
        &&& forall|a: int, b: int| 0 <= a < b < h.len() ==> (#[trigger] h[a]).0 != (#[trigger] h[b]).0
        &&& forall|a: int| 0 <= a < h.len() ==> r.ctls@.dom().contains((#[trigger] h[a]).0) && r.ctls@[h[a].0] == *h[a].1
    }
    pub proof fn pick_ctl<'a>(r: HistoryRemover<'a>, f: Map<int, bool>, ks: Seq<Key>, s: Seq<&'a FileNameProps>, h: Seq<(u32, &HistoryRemoverCtlItem<'a>)>, kc: Seq<Seq<u32>>, sc: Seq<&'a FileNameProps>)
        requires picked_all(r, f, ks, s, h), h.len() > 0, picks(h[0].1.items@, f, kc, sc),
        ensures picked_all(r, f, ks + keyed(h[0].0, kc), s + sc, h.skip(1)),
    {
        let c = h[0].0;
        let m = h[0].1.items@;
        let u = keyed(c, kc);
        let w = ks + u;
        let t = s + sc;
        let h1 = h.skip(1);
        assert(r.ctls@.dom().contains(h[0].0));
        assert forall|x: u32| #[trigger] ahead(h1, x) implies ahead(h, x) && x != c by {
            let a = choose|a: int| 0 <= a < h1.len() && (#[trigger] h1[a]).0 == x;
            assert(h[a + 1].0 == x);
            assert(h[0].0 != h[a + 1].0);
        }
        assert forall|x: u32| #[trigger] ahead(h, x) implies x == c || ahead(h1, x) by {
            let a = choose|a: int| 0 <= a < h.len() && (#[trigger] h[a]).0 == x;
            if a > 0 { assert(h1[a - 1].0 == x); }
        }
        assert(ahead(h, c));
        assert forall|j: int| 0 <= j < kc.len() implies #[trigger] u[j] == (Key { ctl: c, order: kc[j] }) && r.look(u[j]) == rlook(m, kc[j]) by {}
        assert forall|j: int| 0 <= j < w.len() implies r.look(#[trigger] w[j]) is Some && r.look(w[j])->0.props == Some(t[j]) && f[r.at(w[j])] && !ahead(h1, w[j].ctl) by {
            if j < ks.len() { assert(r.look(ks[j]) is Some); } else { let x = j - ks.len(); assert(u[x] == (Key { ctl: c, order: kc[x] })); assert(rlook(m, kc[x]) is Some); }
        }
        assert forall|a: int, b: int| 0 <= a < w.len() && 0 <= b < w.len() && a != b implies #[trigger] w[a] != #[trigger] w[b] by {
            if a >= ks.len() { assert(u[a - ks.len()] == (Key { ctl: c, order: kc[a - ks.len()] })); }
            if b >= ks.len() { assert(u[b - ks.len()] == (Key { ctl: c, order: kc[b - ks.len()] })); }
            if a < ks.len() { assert(r.look(ks[a]) is Some && !ahead(h, ks[a].ctl)); }
            if b < ks.len() { assert(r.look(ks[b]) is Some && !ahead(h, ks[b].ctl)); }
        }
        assert forall|k: Key| (#[trigger] r.look(k)) is Some && r.look(k)->0.props is Some && f[r.at(k)] implies w.contains(k) || ahead(h1, k.ctl) by {
            if ks.contains(k) {
                let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
                assert(w[j] == k);
            } else if k.ctl == c {
                assert(rlook(m, k.order) == r.look(k));
                let j = choose|j: int| 0 <= j < kc.len() && kc[j] == k.order;
                assert(u[j] == k);
                assert(w[ks.len() + j] == k);
            }
        }
        assert forall|a: int, b: int| 0 <= a < b < h1.len() implies (#[trigger] h1[a]).0 != (#[trigger] h1[b]).0 by { assert(h[a + 1].0 != h[b + 1].0); }
        assert forall|a: int| 0 <= a < h1.len() implies r.ctls@.dom().contains((#[trigger] h1[a]).0) && r.ctls@[h1[a].0] == *h1[a].1 by { assert(r.ctls@.dom().contains(h[a + 1].0)); }
    }
    /// `keep` is under way: only what the next item asks for may still be missing
    pub open spec fn nearly<'a>(r: HistoryRemover<'a>, h: FileHistory, f: Map<int, bool>, cue: Key) -> bool {
        forall|k: Key, q: Key| #![trigger r.kept(f, k), h.look(q)] r.kept(f, k) && rests_on(h, k, q) ==> r.kept(f, q) || q == cue
    }
    pub open spec fn grown<'a>(r: HistoryRemover<'a>, h: FileHistory, f0: Map<int, bool>, f: Map<int, bool>, k0: Key) -> bool {
        &&& forall|k: Key| #[trigger] r.kept(f0, k) ==> r.kept(f, k)
        &&& forall|k: Key| #[trigger] r.kept(f, k) ==> r.kept(f0, k) || reached(h, k0, k)
    }
    pub proof fn mark<'a>(r: HistoryRemover<'a>, h: FileHistory, f0: Map<int, bool>, f: Map<int, bool>, k0: Key, cue: Key)
        requires
            r.stands_for(h), sound(h), r.flagged(f), nearly(r, h, f, cue), grown(r, h, f0, f, k0),
            r.look(cue) is Some, r.look(cue)->0.props is Some, reached(h, k0, cue),
        ensures ({
            let p = *r.look(cue)->0.props->0;
            let g = f.insert(r.at(cue), false);
            let next = next_cue(p, r.look(cue)->0.cumulative);
            &&& h.look(cue) == Some(p)
            &&& next == needs(p, h.max_phase as int, h.cumulative)
            &&& r.kept(g, cue)
            &&& r.flagged(g)
            &&& grown(r, h, f0, g, k0)
            &&& next is Some ==> nearly(r, h, g, next->0) && reached(h, k0, next->0)
            &&& next is None ==> r.closed(h, g)
        }),
    {
        let n = r.look(cue)->0;
        let p = *n.props->0;
        let g = f.insert(r.at(cue), false);
        assert(h.look(cue) == Some(p));
        assert(p.key() == cue);
        assert(node_of(r.look(cue), p, h.cumulative && cue.order.len() == h.max_phase + 1));
        let next = next_cue(p, n.cumulative);
        assert(next == needs(p, h.max_phase as int, h.cumulative));
        assert forall|k: Key| #[trigger] r.kept(g, k) <==> r.kept(f, k) || k == cue by { if k != cue && r.look(k) is Some { assert(r.at(k) != r.at(cue)); } }
        if next is Some { reach_more(h, k0, cue, next->0); }
    }
    impl<'a> HistoryRemover<'a> {
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/remove/history_remover.rs HistoryRemover::keep -> r
            requires
                self.stands_for(h),
                sound(h),
                self.flagged(old(fl)@),
                self.closed(h, old(fl)@),
            ensures
                self.flagged(final(fl)@),
                // the file is kept, and with every file kept the one it needs
                h.look(props.key()) is Some ==> self.kept(final(fl)@, props.key()),
                self.closed(h, final(fl)@),
                // nothing but what the file rests on
                grown(*self, h, old(fl)@, final(fl)@, props.key()),
//@ param Tracked(fl): Tracked<&mut Flags>, Ghost(h): Ghost<FileHistory>
//@ pass .keep Tracked(&mut *fl)
//@ loops loop
//@ start
            broadcast use vstd::std_specs::hash::group_hash_axioms;
            let ghost f0 = fl@;
            let ghost k0 = props.key();
            proof { assert(chain(h, k0, 0) == Some(k0)); }
//@ loop 0
            invariant_except_break
                nearly(*self, h, fl@, cue.key()),
                reached(h, k0, cue.key()),
                self.kept(fl@, k0) || cue.key() == k0,
            invariant
                self.stands_for(h),
                sound(h),
                self.flagged(fl@),
                grown(*self, h, f0, fl@, k0),
                k0 == props.key(), f0 == old(fl)@,
            ensures
                self.closed(h, fl@),
                h.look(k0) is Some ==> self.kept(fl@, k0),
//@ in 0
            broadcast use vstd::std_specs::hash::group_hash_axioms;
            let ghost ck = cue.key();
            proof {
                assert(joined(cue.order@, cue.order_last) == ck.order);
                if h.look(ck) is Some { assert(node_of(self.look(ck), h.look(ck)->0, h.cumulative && ck.order.len() == h.max_phase + 1)); }
                if self.look(ck) is Some && self.look(ck)->0.props is Some { mark(*self, h, f0, fl@, k0, ck); }
            }
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/remove/history_remover.rs HistoryRemover::get_removable_props -> r
            requires self.flagged(old(fl)@),
            ensures
                final(fl)@ == old(fl)@,
                exists|ks: Seq<Key>| #[trigger] picks_all(*self, old(fl)@, ks, r@),
//@ param Tracked(fl): Tracked<&mut Flags>
//@ pass .get_removable_props Tracked(&mut *fl)
//@ sub \bin\s+&self\.ctls => in hash_iter(&self.ctls)
//@ sub \bfor\s*\(_, => for (num_,
//@ next 0 zi
//@ loops while
//@ pre 0
            let ghost f = fl@;
            let ghost mut z0 = zi;
            let ghost mut ks: Seq<Key> = Seq::empty();
            proof {
                assert(vec@ =~= Seq::empty());
                assert(picked_all(*self, f, ks, vec@, pairs(zi.remaining())));
            }
//@ loop 0
            invariant_except_break
                z0 == zi,
                picked_all(*self, f, ks, vec@, pairs(zi.remaining())),
                self.flagged(f), fl@ == f,
            ensures
                picks_all(*self, f, ks, vec@),
                fl@ == f,
//@ in 0
            let ghost rb = vec@;
            proof {
                pieces(z0.remaining(), -1i64, None);
                let h0 = pairs(z0.remaining());
                assert(h0[0] == (*num_, ctl));
                assert(self.ctls@.dom().contains(h0[0].0));
                assert forall|o: Seq<u32>| (#[trigger] rlook(ctl.items@, o)) is Some implies f.dom().contains(at(ctl.items@, o)) by {
                    let k = Key { ctl: *num_, order: o };
                    assert(self.look(k) is Some);
                }
            }
//@ last 0
            proof {
                let (kc, sc) = choose|kc: Seq<Seq<u32>>, sc: Seq<&'a FileNameProps>| #[trigger] picks(ctl.items@, f, kc, sc) && vec@ == rb + sc;
                assert(picks(ctl.items@, f, kc, sc) && vec@ == rb + sc);
                pick_ctl(*self, f, ks, rb, pairs(z0.remaining()), kc, sc);
                ks = ks + keyed(*num_, kc);
                z0 = zi;
            }
//@ end
    }

    /// a file that is wanted, or that a wanted one rests on
    pub open spec fn survives(h: FileHistory, ks: Seq<Key>, n: int, k: Key) -> bool { exists|j: int| n <= j < ks.len() && reached(h, #[trigger] ks[j], k) }
    pub proof fn all_reached(r: HistoryRemover, h: FileHistory, f: Map<int, bool>, k: Key, n: nat)
        requires r.closed(h, f), r.kept(f, k), h.look(k) is Some, chain(h, k, n) is Some, h.look(chain(h, k, n)->0) is Some,
        ensures r.kept(f, chain(h, k, n)->0),
        decreases n,
    {
        if n > 0 {
            let q = chain(h, k, (n - 1) as nat)->0;
            all_reached(r, h, f, k, (n - 1) as nat);
            assert(r.kept(f, q) && rests_on(h, q, chain(h, k, n)->0));
        }
    }
    /// `v.iter().skip(n)`
    pub fn skip_<'b, T>(v: &'b Vec<T>, n: usize) -> (r: &'b [T])
        ensures r@ == v@.skip(if n <= v@.len() { n as int } else { v@.len() as int }),
    {
        let m = if n <= v.len() { n } else { v.len() };
        proof { assert(v@.subrange(m as int, v@.len() as int) =~= v@.skip(m as int)); }
        vstd::slice::slice_subrange(v.as_slice(), m, v.len())
    }
    /// exactly what may go: everything but the newest files and what they rest on
    pub open spec fn removable(h: FileHistory, n: int, ks: Seq<Key>, rk: Seq<Key>, s: Seq<&FileNameProps>) -> bool {
        let first = if ks.len() >= n { ks.len() - n } else { 0 };
        &&& rk.len() == s.len()
        &&& rk.no_duplicates()
        &&& forall|j: int| 0 <= j < rk.len() ==> h.look(#[trigger] rk[j]) == Some(*s[j]) && !survives(h, ks, first, rk[j])
        &&& forall|k: Key| (#[trigger] h.look(k)) is Some && !survives(h, ks, first, k) ==> rk.contains(k)
    }
    impl FileHistory {
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::get_removable_old_items -> r
            requires sound(*self),
            ensures exists|ks: Seq<Key>, s: Seq<&FileNameProps>, rk: Seq<Key>| #[trigger] lists_all(*self, ks, s) && #[trigger] removable(*self, keep_latest as int, ks, rk, r@),
//@ sub \b(\w+)\.iter\(\)\.skip\((\w+)\) => skip_(&\1, \2).iter()
//@ pass HistoryRemover::from Tracked(&mut fl0)
//@ pass .keep Tracked(&mut fl0), Ghost(h)
//@ pass .get_removable_props Tracked(&mut fl0)
//@ start
            let tracked mut fl0 = no_flags();
            let ghost h = *self;
//@ loops for
//@ iter 0 it
//@ pre 0
            let ghost ks = choose|ks: Seq<Key>| #[trigger] lists_all(h, ks, files@);
            let ghost first = num_remove as int;
            proof { assert(lists_all(h, ks, files@)); }
//@ loop 0
            invariant
                h == *self,
                sound(h),
                lists_all(h, ks, files@),
                first == (if ks.len() >= keep_latest { ks.len() - keep_latest } else { 0 }),
                it.seq().len() == files@.len() - first,
                forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == files@[first + j],
                remover.stands_for(h),
                remover.flagged(fl0@),
                remover.closed(h, fl0@),
                forall|j: int| first <= j < first + it.index@ ==> remover.kept(fl0@, #[trigger] ks[j]),
                forall|k: Key| #[trigger] remover.kept(fl0@, k) ==> survives(h, ks, first, k),
//@ in 0
            let ghost f1 = fl0@;
            let ghost j0 = first + it.index@;
            proof {
                assert(**item == *files@[j0]);
                assert(h.look(ks[j0]) == Some(**item));
                assert(item.key() == ks[j0]);
            }
//@ post 0
            proof {
                assert forall|k: Key| h.look(k) is Some && survives(h, ks, first, k) implies #[trigger] remover.kept(fl0@, k) by {
                    let j = choose|j: int| first <= j < ks.len() && reached(h, #[trigger] ks[j], k);
                    let n = choose|n: nat| #[trigger] chain(h, ks[j], n) == Some(k);
                    assert(remover.kept(fl0@, ks[j]));
                    assert(h.look(ks[j]) == Some(*files@[j]));
                    all_reached(remover, h, fl0@, ks[j], n);
                }
                assert forall|rk: Seq<Key>, s: Seq<&FileNameProps>| #[trigger] picks_all(remover, fl0@, rk, s) implies removable(h, keep_latest as int, ks, rk, s) by {
                    assert forall|j: int| 0 <= j < rk.len() implies h.look(#[trigger] rk[j]) == Some(*s[j]) && !survives(h, ks, first, rk[j]) by {
                        assert(remover.look(rk[j]) is Some);
                        assert(!remover.kept(fl0@, rk[j]));
                    }
                    assert forall|k: Key| (#[trigger] h.look(k)) is Some && !survives(h, ks, first, k) implies rk.contains(k) by {
                        assert(!remover.kept(fl0@, k));
                        assert(node_of(remover.look(k), h.look(k)->0, h.cumulative && k.order.len() == h.max_phase + 1));
                        assert(remover.look(k) is Some);
                    }
                }
            }
//@ end
    }
}
pub mod on_disk {
    use super::*;
    use super::lib_specs::*;
    use super::file_name_props::*;
    use super::file_history::*;
    use super::listing::*;
    use super::history_remover::*;
    use std::ops::Range;
    pub type Name = Seq<char>;
    pub type Place = Seq<Name>;
    pub struct Tree { pub files: Map<Place, Seq<u8>> }
    /// the file `p` is what it was
    pub open spec fn as_before(a: Tree, b: Tree, p: Place) -> bool {
        a.files.dom().contains(p) == b.files.dom().contains(p) && (a.files.dom().contains(p) ==> a.files[p] == b.files[p])
    }
    pub open spec fn absent(t: Tree, p: Place) -> bool { !t.files.dom().contains(p) }
    pub open spec fn inside(dir: Place, p: Place) -> bool { p.len() > dir.len() && p.take(dir.len() as int) == dir }
    /// The state of the disk. It is handed through the functions as an erased parameter.
    #[verifier::external_body]
    pub tracked struct Disk { x: () }
    impl Disk { pub uninterp spec fn view(self) -> Tree; }
    // TRUSTED: paths
    #[verifier::external_body]
    pub struct Path { x: u8 }
    pub type PathBuf = Path;
    pub trait AsPath {
        spec fn place(&self) -> Place;
        fn as_ref(&self) -> (r: &Path) ensures r@ == self.place();
    }
    impl AsPath for Path {
        open spec fn place(&self) -> Place { self@ }
        fn as_ref(&self) -> (r: &Path) { self }
    }
    impl AsPath for &Path {
        open spec fn place(&self) -> Place { self@ }
        fn as_ref(&self) -> (r: &Path) { *self }
    }
    impl Path {
        pub uninterp spec fn view(&self) -> Place;
        pub fn as_ref(&self) -> (r: &Path) ensures r@ == self@ { self }
        #[verifier::external_body]
        pub fn join(&self, n: String) -> (r: PathBuf) ensures r@ == self@.push(n@) { unimplemented!() }
    }
    // TRUSTED: removing a file removes that file, removing a folder what is in it; a file that could not be removed is as it was
    #[verifier::external_body]
    pub fn remove_file(p: &Path, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
        ensures
            forall|q: Place| q != p@ ==> #[trigger] as_before(old(disk)@, final(disk)@, q),
            r is Ok ==> absent(final(disk)@, p@),
            r is Err ==> final(disk)@ == old(disk)@ && (stubborn(p@) || absent(old(disk)@, p@)),
    { unimplemented!() }
    /// a file the system refuses to remove
    pub uninterp spec fn stubborn(p: Place) -> bool;
    #[verifier::external_body]
    pub fn remove_dir_all(p: PathBuf, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
        ensures
            forall|q: Place| !inside(p@, q) ==> #[trigger] as_before(old(disk)@, final(disk)@, q),
            r is Ok ==> forall|q: Place| inside(p@, q) ==> #[trigger] absent(final(disk)@, q),
    { unimplemented!() }
    // ASSUMED: unit names (property 14): a file is found under its name, which tells everything about it
    pub uninterp spec fn name(p: FileNameProps) -> Name;
    pub open spec fn at(dir: Place, p: FileNameProps) -> Place { dir.push(name(p)) }
    impl FileNameProps {
        #[verifier::external_body]
        pub fn calc_filename(&self) -> (r: String) ensures r@ == name(*self) { unimplemented!() }
    }
    /// names of files listed tell them apart
    pub open spec fn named(h: FileHistory) -> bool { forall|j: Key, k: Key| (#[trigger] h.look(j)) is Some && (#[trigger] h.look(k)) is Some && name(h.look(j)->0) == name(h.look(k)->0) ==> j == k }
    // ASSUMED: units names and files (property 15): every hash has a folder of its own
    pub uninterp spec fn home_name(hash: u128) -> Name;
    pub axiom fn own_folder(g: u128, h: u128)
        requires home_name(g) == home_name(h),
        ensures g == h;
    pub open spec fn home(dir: Place, hash: u128) -> Place { dir.push(home_name(hash)) }
    #[verifier::external_body]
    pub fn hash_dir_path<P: AsPath>(dir: P, hash: u128) -> (r: PathBuf) ensures r@ == home(dir.place(), hash) { unimplemented!() }
//@ fn dochy_fs/src/imp/common/path/remove_hash_dir.rs remove_hash_dir -> r
//@ sub AsRef<Path> => AsPath
//@ sub std::fs::remove_dir_all => remove_dir_all
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass remove_dir_all Tracked(&mut *disk)
        ensures
            forall|q: Place| !inside(home(proj_dir.place(), hash), q) ==> #[trigger] as_before(old(disk)@, final(disk)@, q),
            r is Ok ==> forall|q: Place| inside(home(proj_dir.place(), hash), q) ==> #[trigger] absent(final(disk)@, q),
//@ end

    /// this file is one of the newest or needed by one
    pub open spec fn stays(h: FileHistory, n: int, k: Key) -> bool { exists|ks: Seq<Key>, s: Seq<&FileNameProps>| #[trigger] lists_all(h, ks, s) && survives(h, ks, if ks.len() >= n { ks.len() - n } else { 0 }, k) }
    /// this is a file that is neither
    pub open spec fn spare(h: FileHistory, n: int, dir: Place, q: Place) -> bool { exists|k: Key| (#[trigger] h.look(k)) is Some && q == at(dir, h.look(k)->0) && !stays(h, n, k) }
    pub open spec fn unable(r: Seq<PathBuf>, q: Place) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@ == q }
    pub open spec fn named_by(f: Seq<&FileNameProps>, n: int, dir: Place, q: Place) -> bool { exists|i: int| 0 <= i < n && at(dir, *#[trigger] f[i]) == q }
    /// exactly these files were removed, but for those that could not be
    pub open spec fn taken(t: Tree, u: Tree, f: Seq<&FileNameProps>, n: int, dir: Place) -> bool {
        forall|q: Place| #![trigger as_before(t, u, q)] #![trigger absent(u, q)] as_before(t, u, q) || named_by(f, n, dir, q)
    }
    pub open spec fn gone(u: Tree, f: Seq<&FileNameProps>, n: int, r: Seq<PathBuf>, dir: Place) -> bool {
        forall|i: int| 0 <= i < n ==> absent(u, at(dir, *#[trigger] f[i])) || unable(r, at(dir, *f[i]))
    }
    pub open spec fn less_and_less(t: Tree, u: Tree) -> bool { forall|q: Place| absent(t, q) ==> #[trigger] absent(u, q) }
    pub proof fn never_both(a: Seq<u32>, b: Seq<u32>)
        requires less(a, b), less(b, a),
        ensures false,
    {
        if a.len() < b.len() && a == b.take(a.len() as int) {
            let m = choose|m: int| 0 <= m < b.len() && m < a.len() && #[trigger] b[m] < a[m] && b.take(m) == a.take(m);
            assert(a[m] == b.take(a.len() as int)[m]);
        } else {
            let k = choose|k: int| 0 <= k < a.len() && k < b.len() && #[trigger] a[k] < b[k] && a.take(k) == b.take(k);
            if b.len() < a.len() && b == a.take(b.len() as int) { assert(b[k] == a.take(b.len() as int)[k]); }
            else {
                let m = choose|m: int| 0 <= m < b.len() && m < a.len() && #[trigger] b[m] < a[m] && b.take(m) == a.take(m);
                if m < k { assert(a.take(k)[m] == b.take(k)[m]); }
                if k < m { assert(a.take(m)[k] == b.take(m)[k]); }
            }
        }
    }
    /// the same listing, whoever makes it
    pub proof fn one_listing(h: FileHistory, ks: Seq<Key>, s: Seq<&FileNameProps>, ks2: Seq<Key>, s2: Seq<&FileNameProps>, i: int)
        requires lists_all(h, ks, s), lists_all(h, ks2, s2), 0 <= i <= ks.len(),
        ensures i <= ks2.len(), ks.take(i) == ks2.take(i),
        decreases i,
    {
        if i > 0 {
            let n = i - 1;
            one_listing(h, ks, s, ks2, s2, n);
            assert forall|x: int| 0 <= x < n implies ks[x] == ks2[x] by { assert(ks.take(n)[x] == ks2.take(n)[x]); }
            assert(h.look(ks[n]) is Some);
            assert(ks2.contains(ks[n]));
            let j = choose|j: int| 0 <= j < ks2.len() && ks2[j] == ks[n];
            if j < n { assert(before(ks[j], ks[n])); never_twice(ks[j], ks[n]); }
            assert(h.look(ks2[n]) is Some);
            assert(ks.contains(ks2[n]));
            let m = choose|m: int| 0 <= m < ks.len() && ks[m] == ks2[n];
            if m < n { assert(before(ks2[m], ks2[n])); never_twice(ks2[m], ks2[n]); }
            if ks[n] != ks2[n] {
                assert(before(ks2[n], ks2[j]));
                assert(before(ks[n], ks[m]));
                never_twice(ks[n], ks2[n]);
            }
            assert(ks.take(i) =~= ks2.take(i));
        }
    }
    pub proof fn never_twice(a: Key, b: Key)
        requires before(a, b), before(b, a) || a == b,
        ensures false,
    {
        never_both(a.order, b.order);
    }
    pub proof fn same_listing(h: FileHistory, ks: Seq<Key>, s: Seq<&FileNameProps>, ks2: Seq<Key>, s2: Seq<&FileNameProps>)
        requires lists_all(h, ks, s), lists_all(h, ks2, s2),
        ensures ks == ks2,
    {
        one_listing(h, ks, s, ks2, s2, ks.len() as int);
        one_listing(h, ks2, s2, ks, s, ks2.len() as int);
        assert(ks.take(ks.len() as int) =~= ks && ks2.take(ks2.len() as int) =~= ks2);
    }
    /// how many files are listed
    pub open spec fn number(h: FileHistory) -> int { (choose|e: (Seq<Key>, Seq<&FileNameProps>)| #[trigger] lists_all(h, e.0, e.1)).0.len() as int }
    pub proof fn numbered(h: FileHistory, ks: Seq<Key>, s: Seq<&FileNameProps>)
        requires lists_all(h, ks, s),
        ensures number(h) == s.len(),
    {
        let e = (ks, s);
        assert(lists_all(h, e.0, e.1));
        let f = choose|e: (Seq<Key>, Seq<&FileNameProps>)| #[trigger] lists_all(h, e.0, e.1);
        same_listing(h, ks, s, f.0, f.1);
    }
    pub proof fn goes(h: FileHistory, n: int, ks: Seq<Key>, s: Seq<&FileNameProps>, k: Key)
        requires lists_all(h, ks, s),
        ensures stays(h, n, k) == survives(h, ks, if ks.len() >= n { ks.len() - n } else { 0 }, k),
    {
        if stays(h, n, k) {
            let (ks2, s2) = choose|ks2: Seq<Key>, s2: Seq<&FileNameProps>| #[trigger] lists_all(h, ks2, s2) && survives(h, ks2, if ks2.len() >= n { ks2.len() - n } else { 0 }, k);
            same_listing(h, ks, s, ks2, s2);
        }
    }
    /// with room for all of them, all stay
    pub proof fn all_stay(h: FileHistory, n: int, ks: Seq<Key>, s: Seq<&FileNameProps>, k: Key)
        requires lists_all(h, ks, s), ks.len() <= n, h.look(k) is Some,
        ensures stays(h, n, k),
    {
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
        assert(chain(h, ks[j], 0) == Some(k));
        assert(reached(h, ks[j], k));
        assert(survives(h, ks, 0, k));
    }

    impl FileHistory {
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::remove_files -> r
//@ sub \bunsafe\b =>
//@ sub <'a,\s*P\s*:\s*AsRef<Path>> => <P: AsPath>
//@ sub impl Iterator<Item=&'a FileNameProps> => Vec<&FileNameProps>
//@ sub \bin filenames\b => in filenames.iter()
//@ sub std::fs::remove_file => remove_file
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass remove_file Tracked(&mut *disk)
//@ iter 0 it
//@ loops for
            ensures
                taken(old(disk)@, final(disk)@, filenames@, filenames@.len() as int, history_hash_dir.place()),
                gone(final(disk)@, filenames@, filenames@.len() as int, r@, history_hash_dir.place()),
                less_and_less(old(disk)@, final(disk)@),
                // only what can't be removed is reported
                forall|q: Place| #[trigger] unable(r@, q) ==> stubborn(q) || absent(final(disk)@, q),
//@ start
            let ghost t = disk@;
            let ghost dir = history_hash_dir.place();
            let ghost f = filenames@;
//@ loop 0
            invariant
                it.seq().len() == f.len(),
                forall|j: int| 0 <= j < f.len() ==> *(#[trigger] it.seq()[j]) == f[j],
                dir_path@ == dir,
                taken(t, disk@, f, it.index@ as int, dir),
                gone(disk@, f, it.index@ as int, r@, dir),
                less_and_less(t, disk@),
                forall|q: Place| #[trigger] unable(r@, q) ==> stubborn(q) || absent(disk@, q),
//@ in 0
            let ghost u = disk@;
            let ghost r0 = r@;
            let ghost n = it.index@ as int;
//@ last 0
            proof {
                let p = at(dir, *f[n]);
                let v = disk@;
                assert(**filename == *f[n]);
                assert forall|q: Place| #[trigger] unable(r0, q) implies unable(r@, q) by { let i = choose|i: int| 0 <= i < r0.len() && (#[trigger] r0[i])@ == q; assert(r@[i] == r0[i]); }
                assert forall|q: Place| #![trigger as_before(t, v, q)] #![trigger absent(v, q)] as_before(t, v, q) || named_by(f, n + 1, dir, q) by {
                    if named_by(f, n, dir, q) { let i = choose|i: int| 0 <= i < n && at(dir, *#[trigger] f[i]) == q; assert(at(dir, *f[i]) == q); }
                    else if q == p { assert(at(dir, *f[n]) == q); }
                    else { assert(as_before(t, u, q)); assert(as_before(u, v, q)); }
                }
                assert forall|q: Place| absent(t, q) implies #[trigger] absent(v, q) by { assert(absent(u, q)); if q != p { assert(as_before(u, v, q)); } }
                assert forall|i: int| 0 <= i < n + 1 implies absent(v, at(dir, *#[trigger] f[i])) || unable(r@, at(dir, *f[i])) by {
                    let q = at(dir, *f[i]);
                    if i < n { if absent(u, q) { if q != p { assert(as_before(u, v, q)); } } }
                    else if r@.len() > r0.len() { assert(r@[r0.len() as int]@ == q); }
                }
                assert forall|q: Place| #[trigger] unable(r@, q) implies stubborn(q) || absent(v, q) by {
                    let i = choose|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == q;
                    if i < r0.len() { assert(r0[i] == r@[i]); assert(unable(r0, q)); if q != p { assert(as_before(u, v, q)); } }
                }
            }
//@ end
    }
    /// exactly what may go has gone, but for what could not be removed
    pub open spec fn trimmed(h: FileHistory, n: int, dir: Place, t: Tree, u: Tree) -> bool { forall|q: Place| #[trigger] as_before(t, u, q) || spare(h, n, dir, q) }
    pub open spec fn cleared(h: FileHistory, n: int, dir: Place, u: Tree, r: Seq<PathBuf>) -> bool { forall|k: Key| (#[trigger] h.look(k)) is Some && !stays(h, n, k) ==> absent(u, at(dir, h.look(k)->0)) || unable(r, at(dir, h.look(k)->0)) }
    pub proof fn trims(h: FileHistory, n: int, ks: Seq<Key>, s: Seq<&FileNameProps>, rk: Seq<Key>, f: Seq<&FileNameProps>, dir: Place, t: Tree, u: Tree, r: Seq<PathBuf>)
        requires lists_all(h, ks, s), removable(h, n, ks, rk, f), taken(t, u, f, f.len() as int, dir), gone(u, f, f.len() as int, r, dir),
        ensures trimmed(h, n, dir, t, u), cleared(h, n, dir, u, r),
    {
        assert forall|q: Place| #[trigger] as_before(t, u, q) || spare(h, n, dir, q) by {
            if !as_before(t, u, q) {
                let i = choose|i: int| 0 <= i < f.len() && at(dir, *#[trigger] f[i]) == q;
                assert(h.look(rk[i]) == Some(*f[i]));
                goes(h, n, ks, s, rk[i]);
            }
        }
        assert forall|k: Key| (#[trigger] h.look(k)) is Some && !stays(h, n, k) implies absent(u, at(dir, h.look(k)->0)) || unable(r, at(dir, h.look(k)->0)) by {
            goes(h, n, ks, s, k);
            let i = choose|i: int| 0 <= i < rk.len() && rk[i] == k;
            assert(h.look(rk[i]) == Some(*f[i]));
        }
    }
    impl FileHistory {
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::remove_old_files -> r
//@ sub <P\s*:\s*AsRef<Path>> => <P: AsPath>
//@ sub \bunsafe\b =>
//@ sub (\w+)\.iter\(\)\.map\(\|(\w+)\|\s*\*\2\) => \1
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass Self::remove_files Tracked(&mut *disk)
            requires sound(self),
            ensures
                trimmed(self, keep_latest as int, history_hash_dir.place(), old(disk)@, final(disk)@),
                cleared(self, keep_latest as int, history_hash_dir.place(), final(disk)@, r@),
                forall|q: Place| #[trigger] unable(r@, q) ==> stubborn(q) || absent(final(disk)@, q),
                less_and_less(old(disk)@, final(disk)@),
//@ start
            let ghost h = self;
            let ghost t = disk@;
            let ghost dir = history_hash_dir.place();
//@ after let removables = .*;
            let ghost e = choose|ks: Seq<Key>, s: Seq<&FileNameProps>, rk: Seq<Key>| #[trigger] lists_all(h, ks, s) && #[trigger] removable(h, keep_latest as int, ks, rk, removables@);
            proof {
                assert(lists_all(h, e.0, e.1) && removable(h, keep_latest as int, e.0, e.2, removables@));
                assert forall|u: Tree, r: Seq<PathBuf>| #[trigger] gone(u, removables@, removables@.len() as int, r, dir) && taken(t, u, removables@, removables@.len() as int, dir) implies trimmed(h, keep_latest as int, dir, t, u) && cleared(h, keep_latest as int, dir, u, r) by {
                    trims(h, keep_latest as int, e.0, e.1, e.2, removables@, dir, t, u, r);
                }
            }
//@ end
    }
    // TRUSTED: drain takes the entries of a range out of a vector
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Drained<T> { x: std::marker::PhantomData<T> }
    impl<T> Drained<T> {
        pub uninterp spec fn rest(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures
                old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
                old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn drain_<T>(v: &mut Vec<T>, range: Range<usize>) -> (r: Drained<T>)
        requires range.start <= range.end <= old(v)@.len(),
        ensures r.rest() == old(v)@.subrange(range.start as int, range.end as int), final(v)@ == old(v)@.take(range.start as int) + old(v)@.skip(range.end as int),
    { unimplemented!() }
    pub type Histories = Seq<(u128, FileHistory)>;
    /// nothing but folders of these was touched
    pub open spec fn in_folders(v: Histories, a: int, b: int, dir: Place, q: Place) -> bool { exists|i: int| a <= i < b && inside(home(dir, (#[trigger] v[i]).0), q) }
    pub open spec fn dropped(v: Histories, a: int, b: int, dir: Place, t: Tree, u: Tree) -> bool { forall|q: Place| #[trigger] as_before(t, u, q) || in_folders(v, a, b, dir, q) }
    pub open spec fn emptied(v: Histories, a: int, b: int, dir: Place, u: Tree) -> bool { forall|i: int, q: Place| #![trigger v[i], absent(u, q)] a <= i < b && inside(home(dir, v[i].0), q) ==> absent(u, q) }
    pub proof fn one_dropped(v: Histories, a: int, k: int, dir: Place, t: Tree, u: Tree, w: Tree, ok: bool)
        requires
            0 <= a <= k < v.len(), dropped(v, a, k, dir, t, u), emptied(v, a, k, dir, u),
            forall|q: Place| !inside(home(dir, v[k].0), q) ==> #[trigger] as_before(u, w, q),
            ok ==> forall|q: Place| inside(home(dir, v[k].0), q) ==> #[trigger] absent(w, q),
        ensures
            dropped(v, a, k + 1, dir, t, w),
            ok ==> emptied(v, a, k + 1, dir, w),
    {
        assert forall|q: Place| #[trigger] as_before(t, w, q) || in_folders(v, a, k + 1, dir, q) by {
            assert(as_before(t, u, q) || in_folders(v, a, k, dir, q));
            if in_folders(v, a, k, dir, q) { let i = choose|i: int| a <= i < k && inside(home(dir, (#[trigger] v[i]).0), q); assert(inside(home(dir, v[i].0), q)); }
            else if inside(home(dir, v[k].0), q) {}
            else { assert(as_before(u, w, q)); }
        }
        if ok {
            assert forall|i: int, q: Place| #![trigger v[i], absent(w, q)] a <= i < k + 1 && inside(home(dir, v[i].0), q) implies absent(w, q) by {
                if !inside(home(dir, v[k].0), q) { assert(absent(u, q)); assert(as_before(u, w, q)); }
            }
        }
    }
    pub proof fn more_dropped(v: Histories, a: int, k: int, b: int, dir: Place, t: Tree, u: Tree)
        requires dropped(v, a, k, dir, t, u), k <= b,
        ensures dropped(v, a, b, dir, t, u),
    {
        assert forall|q: Place| #[trigger] as_before(t, u, q) || in_folders(v, a, b, dir, q) by {
            if in_folders(v, a, k, dir, q) { let i = choose|i: int| a <= i < k && inside(home(dir, (#[trigger] v[i]).0), q); assert(inside(home(dir, v[i].0), q)); }
        }
    }
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/file_hist/file_histories.rs remove_hash_dirs -> r
//@ sub vec\.drain\(range\) => drain_(vec, range)
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass remove_hash_dir Tracked(&mut *disk)
//@ next 0 it
//@ loops while
        requires range.start <= range.end <= old(vec)@.len(),
        ensures
            final(vec)@ == old(vec)@.take(range.start as int) + old(vec)@.skip(range.end as int),
            dropped(old(vec)@, range.start as int, range.end as int, history_dir@, old(disk)@, final(disk)@),
            r is Ok ==> emptied(old(vec)@, range.start as int, range.end as int, history_dir@, final(disk)@),
//@ start
        let ghost v = vec@;
        let ghost a = range.start as int;
        let ghost b = range.end as int;
        let ghost t = disk@;
        let ghost dir = history_dir@;
//@ pre 0
        let ghost mut k = a;
        proof { assert(v.subrange(a, b) =~= v.subrange(k, b)); }
//@ loop 0
            invariant
                0 <= a <= k <= b <= v.len(),
                dir == history_dir@,
                v == old(vec)@, t == old(disk)@, a == range.start, b == range.end,
                it.rest() == v.subrange(k, b),
                vec@ == v.take(a) + v.skip(b),
                dropped(v, a, k, dir, t, disk@),
                emptied(v, a, k, dir, disk@),
            ensures k == b,
//@ in 0
            let ghost u = disk@;
            proof {
                assert(v.subrange(k, b)[0] == v[k]);
                assert(v.subrange(k, b).skip(1) =~= v.subrange(k + 1, b));
                assert forall|w: Tree, ok: bool| (forall|q: Place| !inside(home(dir, v[k].0), q) ==> #[trigger] as_before(u, w, q)) && (ok ==> forall|q: Place| inside(home(dir, v[k].0), q) ==> #[trigger] absent(w, q)) implies #[trigger] one_more(v, a, k, dir, t, w, ok) by { one_dropped(v, a, k, dir, t, u, w, ok); }
                assert forall|w: Tree| (forall|q: Place| !inside(home(dir, v[k].0), q) ==> #[trigger] as_before(u, w, q)) implies #[trigger] dropped(v, a, b, dir, t, w) by { one_dropped(v, a, k, dir, t, u, w, false); more_dropped(v, a, k + 1, b, dir, t, w); }
            }
//@ last 0
            proof { assert(one_more(v, a, k, dir, t, disk@, true)); k = k + 1; }
//@ end
    pub open spec fn one_more(v: Histories, a: int, k: int, dir: Place, t: Tree, w: Tree, ok: bool) -> bool {
        dropped(v, a, k + 1, dir, t, w) && (ok ==> emptied(v, a, k + 1, dir, w))
    }
    /// how many files there are in the folders after this one
    pub open spec fn newer(v: Histories, i: int) -> int
        decreases v.len() - i,
    {
        if i + 1 >= v.len() || i < -1 { 0 } else { number(v[i + 1].1) + newer(v, i + 1) }
    }
    pub proof fn not_fewer(v: Histories, i: int, j: int)
        requires -1 <= i <= j,
        ensures newer(v, i) >= newer(v, j) >= 0,
        decreases v.len() - i,
    {
        if i + 1 < v.len() { assert(number(v[i + 1].1) >= 0); }
        if i < j && i + 1 < v.len() { not_fewer(v, i + 1, j); }
        else if i + 1 < v.len() { not_fewer(v, i + 1, i + 1); }
    }
    /// what may go: a folder when the later ones hold enough files, and in the last one what is neither kept nor needed
    pub open spec fn may_go(v: Histories, n: int, dir: Place, q: Place) -> bool {
        ||| exists|i: int| 0 <= i < v.len() && n <= newer(v, i) && inside(home(dir, (#[trigger] v[i]).0), q)
        ||| v.len() > 0 && spare(v.last().1, n, home(dir, v.last().0), q)
    }
    pub open spec fn only_these(v: Histories, n: int, dir: Place, t: Tree, u: Tree) -> bool { forall|q: Place| #[trigger] as_before(t, u, q) || may_go(v, n, dir, q) }
    /// older folders as a whole
    pub open spec fn whole(v: Histories, i: int, dir: Place, t: Tree, u: Tree) -> bool {
        ||| forall|q: Place| inside(home(dir, v[i].0), q) ==> #[trigger] as_before(t, u, q)
        ||| forall|q: Place| inside(home(dir, v[i].0), q) ==> #[trigger] absent(u, q)
    }
    /// in the last one, what is neither kept nor needed is gone
    pub open spec fn thinned(h: FileHistory, n: int, dir: Place, u: Tree) -> bool { forall|k: Key| (#[trigger] h.look(k)) is Some && !stays(h, n, k) ==> absent(u, at(dir, h.look(k)->0)) || stubborn(at(dir, h.look(k)->0)) }
    pub open spec fn well(v: Histories) -> bool {
        &&& forall|i: int| 0 <= i < v.len() ==> sound((#[trigger] v[i]).1)
        &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
        &&& newer(v, -1) <= usize::MAX
    }
    pub proof fn apart(dir: Place, g: u128, h: u128, q: Place)
        requires inside(home(dir, g), q), inside(home(dir, h), q),
        ensures g == h,
    {
        assert(home(dir, g).last() == home_name(g) && home(dir, h).last() == home_name(h));
        own_folder(g, h);
    }
    /// folders up to `b` were removed
    pub proof fn folders_went(v: Histories, n: int, b: int, dir: Place, t: Tree, u: Tree)
        requires well(v), 0 <= b <= v.len(), dropped(v, 0, b, dir, t, u), b > 0 ==> n <= newer(v, b - 1),
        ensures
            only_these(v, n, dir, t, u),
            emptied(v, 0, b, dir, u) ==> forall|i: int| 0 <= i < v.len() ==> #[trigger] whole(v, i, dir, t, u),
            forall|i: int, q: Place| #![trigger v[i], as_before(t, u, q)] b <= i < v.len() && inside(home(dir, v[i].0), q) ==> as_before(t, u, q),
    {
        assert forall|q: Place| #[trigger] as_before(t, u, q) || may_go(v, n, dir, q) by {
            if in_folders(v, 0, b, dir, q) {
                let i = choose|i: int| 0 <= i < b && inside(home(dir, (#[trigger] v[i]).0), q);
                not_fewer(v, i, b - 1);
                assert(n <= newer(v, i) && inside(home(dir, v[i].0), q));
            }
        }
        assert forall|i: int, q: Place| #![trigger v[i], as_before(t, u, q)] b <= i < v.len() && inside(home(dir, v[i].0), q) implies as_before(t, u, q) by {
            if in_folders(v, 0, b, dir, q) {
                let j = choose|j: int| 0 <= j < b && inside(home(dir, (#[trigger] v[j]).0), q);
                apart(dir, v[i].0, v[j].0, q);
            }
        }
        if emptied(v, 0, b, dir, u) {
            assert forall|i: int| 0 <= i < v.len() implies #[trigger] whole(v, i, dir, t, u) by {
                if i < b { assert forall|q: Place| inside(home(dir, v[i].0), q) implies #[trigger] absent(u, q) by { assert(v[i] == v[i]); } }
                else { assert forall|q: Place| inside(home(dir, v[i].0), q) implies #[trigger] as_before(t, u, q) by { assert(v[i] == v[i]); } }
            }
        }
    }
    /// and then the last one was thinned
    pub proof fn last_thinned(v: Histories, n: int, dir: Place, t: Tree, u: Tree, w: Tree, r: Seq<PathBuf>)
        requires
            well(v), v.len() > 0, n <= number(v.last().1),
            dropped(v, 0, v.len() - 1, dir, t, u), emptied(v, 0, v.len() - 1, dir, u),
            trimmed(v.last().1, n, home(dir, v.last().0), u, w),
            cleared(v.last().1, n, home(dir, v.last().0), w, r),
            forall|q: Place| #[trigger] unable(r, q) ==> stubborn(q) || absent(w, q),
            less_and_less(u, w),
        ensures
            only_these(v, n, dir, t, w),
            forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] whole(v, i, dir, t, w),
            thinned(v.last().1, n, home(dir, v.last().0), w),
    {
        let b = v.len() - 1;
        if b > 0 { assert(newer(v, b - 1) == number(v[b].1) + newer(v, b)); }
        folders_went(v, n, b, dir, t, u);
        assert forall|q: Place| #[trigger] as_before(t, w, q) || may_go(v, n, dir, q) by { assert(as_before(t, u, q) || may_go(v, n, dir, q)); assert(as_before(u, w, q) || spare(v.last().1, n, home(dir, v.last().0), q)); }
        assert forall|i: int| 0 <= i < v.len() - 1 implies #[trigger] whole(v, i, dir, t, w) by {
            assert forall|q: Place| inside(home(dir, v[i].0), q) implies #[trigger] absent(w, q) by { assert(v[i] == v[i]); assert(absent(u, q)); }
        }
    }

    pub open spec fn in_place(v: Histories, n: int, dir: Place, t: Tree, u: Tree) -> bool {
        &&& forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] whole(v, i, dir, t, u)
        &&& v.len() > 0 ==> thinned(v.last().1, n, home(dir, v.last().0), u)
    }
    /// enough is kept when the folders up to `b` go
    pub open spec fn enough(v: Histories, n: int, b: int) -> bool { 0 <= b <= v.len() && (b > 0 ==> n <= newer(v, b - 1)) }
    /// no more than `n` files are listed
    pub open spec fn few(h: FileHistory, n: int) -> bool { number(h) <= n && exists|ks: Seq<Key>, s: Seq<&FileNameProps>| #[trigger] lists_all(h, ks, s) }
    pub proof fn after_drop(v: Histories, n: int, b: int, dir: Place, t: Tree, u: Tree)
        requires well(v), enough(v, n, b), dropped(v, 0, b, dir, t, u),
        ensures
            only_these(v, n, dir, t, u),
            emptied(v, 0, b, dir, u) && v.len() > 0 && (b == v.len() || few(v.last().1, n)) ==> in_place(v, n, dir, t, u),
    {
        folders_went(v, n, b, dir, t, u);
        if emptied(v, 0, b, dir, u) && v.len() > 0 {
            let h = v.last().1;
            let l = home(dir, v.last().0);
            if b == v.len() {
                assert forall|k: Key| (#[trigger] h.look(k)) is Some && !stays(h, n, k) implies absent(u, at(l, h.look(k)->0)) || stubborn(at(l, h.look(k)->0)) by {
                    assert(v[b - 1] == v.last());
                    assert(at(l, h.look(k)->0).take(l.len() as int) =~= l);
                    assert(inside(l, at(l, h.look(k)->0)));
                }
            } else if few(h, n) {
                assert forall|k: Key| (#[trigger] h.look(k)) is Some && !stays(h, n, k) implies absent(u, at(l, h.look(k)->0)) || stubborn(at(l, h.look(k)->0)) by {
                    let (ks, s) = choose|ks: Seq<Key>, s: Seq<&FileNameProps>| #[trigger] lists_all(h, ks, s);
                    numbered(h, ks, s);
                    all_stay(h, n, ks, s, k);
                }
            }
        }
    }
    pub proof fn nothing_done(v: Histories, n: int, dir: Place, t: Tree)
        requires well(v),
        ensures
            only_these(v, n, dir, t, t), dropped(v, 0, 0, dir, t, t), emptied(v, 0, 0, dir, t),
            v.len() == 0 || few(v.last().1, n) ==> in_place(v, n, dir, t, t),
    {
        assert(dropped(v, 0, 0, dir, t, t)) by { assert forall|q: Place| #[trigger] as_before(t, t, q) || in_folders(v, 0, 0, dir, q) by { } }
        assert(emptied(v, 0, 0, dir, t));
        after_drop(v, n, 0, dir, t, t);
    }
    pub proof fn counts(n: int)
        ensures forall|h: FileHistory, ks: Seq<Key>, s: Seq<&FileNameProps>| #[trigger] lists_all(h, ks, s) ==> number(h) == s.len() && (s.len() <= n ==> few(h, n)),
    { assert forall|h: FileHistory, ks: Seq<Key>, s: Seq<&FileNameProps>| #[trigger] lists_all(h, ks, s) implies number(h) == s.len() by { numbered(h, ks, s); } }
    pub proof fn sums(v: Histories, i: int)
        requires 0 <= i < v.len(),
        ensures newer(v, i - 1) == number(v[i].1) + newer(v, i), newer(v, v.len() - 1) == 0, newer(v, i - 1) <= newer(v, -1), newer(v, i) >= 0,
    { not_fewer(v, -1, i - 1); not_fewer(v, i, i); }

//@ item dochy_fs/src/imp/history/file_hist/file_histories.rs struct FileHistories
    impl FileHistories {
#[verifier::loop_isolation(false)]
//@ fn dochy_fs/src/imp/history/file_hist/file_histories.rs FileHistories::remove_old_files_us -> r
//@ sub <P\s*:\s*AsRef<Path>> => <P: AsPath>
//@ sub \bunsafe\b =>
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass remove_hash_dirs Tracked(&mut *disk)
//@ pass .remove_old_files Tracked(&mut *disk)
//@ loops while
            requires well(old(self).vec@),
            ensures
                only_these(old(self).vec@, keep_latest as int, history_dir.place(), old(disk)@, final(disk)@),
                r is Ok ==> in_place(old(self).vec@, keep_latest as int, history_dir.place(), old(disk)@, final(disk)@),
//@ start
            hide(dropped); hide(emptied); hide(only_these); hide(in_place); hide(trimmed); hide(cleared); hide(less_and_less); hide(newer);
            let ghost v = self.vec@;
            let ghost n = keep_latest as int;
            let ghost dir = history_dir.place();
            let ghost t = disk@;
            proof {
                nothing_done(v, n, dir, t);
                if v.len() > 0 { assert(v.last() == v[v.len() - 1]); sums(v, v.len() - 1); }
                if v.len() > 1 { sums(v, v.len() - 2); }
                counts(n);
                assert forall|b: int, w: Tree| enough(v, n, b) && #[trigger] dropped(v, 0, b, dir, t, w) implies only_these(v, n, dir, t, w)
                    && (emptied(v, 0, b, dir, w) && v.len() > 0 && (b == v.len() || few(v.last().1, n)) ==> in_place(v, n, dir, t, w)) by { after_drop(v, n, b, dir, t, w); }
                assert forall|b: int, h: FileHistory, d: Place, u: Tree, w: Tree, r: Seq<PathBuf>| #![trigger dropped(v, 0, b, dir, t, u), cleared(h, n, d, w, r)]
                    v.len() > 0 && b == v.len() - 1 && h == v.last().1 && d == home(dir, v.last().0)
                    && n <= number(h) && dropped(v, 0, b, dir, t, u) && emptied(v, 0, b, dir, u)
                    && trimmed(h, n, d, u, w) && cleared(h, n, d, w, r)
                    && (forall|q: Place| #[trigger] unable(r, q) ==> stubborn(q) || absent(w, q)) && less_and_less(u, w)
                    implies only_these(v, n, dir, t, w) && in_place(v, n, dir, t, w) by { last_thinned(v, n, dir, t, u, w, r); reveal(in_place); }
            }
//@ before (?s)let \(_\s*,\s*\w+\)\s*=\s*self\.vec\.remove\(0\)
            assert(self.vec@[0] == v.last());
//@ loop 0
                invariant
                    ind < self.vec@.len(),
                    self.vec@ == v,
                    v == old(self).vec@,
                    t == old(disk)@,
                    disk@ == t,
                    n == keep_latest,
                    history_dir@ == dir,
                    sum == newer(v, ind as int),
                    sum <= keep_latest,
                    well(v),
                    few(v.last().1, n),
                    only_these(v, n, dir, t, t), in_place(v, n, dir, t, t),
                decreases ind,
//@ in 0
                proof {
                    sums(v, ind as int);
                    counts(n);
                    assert(n <= newer(v, ind - 1) ==> enough(v, n, ind as int));
                    assert forall|b: int, w: Tree| enough(v, n, b) && #[trigger] dropped(v, 0, b, dir, t, w) implies only_these(v, n, dir, t, w)
                        && (emptied(v, 0, b, dir, w) ==> in_place(v, n, dir, t, w)) by { after_drop(v, n, b, dir, t, w); }
                }
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_histories.rs FileHistories::remove_old_files -> r
//@ sub <P\s*:\s*AsRef<Path>> => <P: AsPath>
//@ sub \bunsafe\b =>
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass .remove_old_files_us Tracked(&mut *disk)
            requires well(self.vec@),
            ensures
                only_these(self.vec@, keep_latest as int, history_dir.place(), old(disk)@, final(disk)@),
                r is Ok ==> in_place(self.vec@, keep_latest as int, history_dir.place(), old(disk)@, final(disk)@),
//@ end
    }
}
fn main() {}
}
