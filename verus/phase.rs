#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: which phase the next history file goes to, and the options that say so (property 16).
use vstd::prelude::*;
use vstd::seq_lib::*;

// messages are dropped
macro_rules! format { ($($t:tt)*) => { crate::lib_specs::text() } }

verus! {
global size_of usize == 8;

pub mod lib_specs {
    use super::*;
    pub struct FsError;
    pub type FsResult<T> = core::result::Result<T, FsError>;
    impl From<&str> for FsError {
        #[verifier::external_body]
        fn from(e: &str) -> FsError { FsError }
    }
    impl From<String> for FsError {
        #[verifier::external_body]
        fn from(e: String) -> FsError { FsError }
    }
    #[verifier::external_body]
    pub fn text() -> String { unimplemented!() }

    // TRUSTED: Option::transpose
    pub assume_specification<T, E>[ Option::<core::result::Result<T, E>>::transpose ](o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
        ensures
            o is None ==> r == Ok::<Option<T>, E>(None),
            o is Some && o->0 is Ok ==> r == Ok::<Option<T>, E>(Some(o->0->Ok_0)),
            o is Some && o->0 is Err ==> r == Err::<Option<T>, E>(o->0->Err_0);

    // ASSUMED: proved for every number by Kani (property 3): a number is kept by the value made of it
    #[verifier::external_body]
    pub struct KVal { x: u8 }
    impl KVal {
        pub uninterp spec fn num(&self) -> Option<i64>;
        #[verifier::external_body]
        pub fn as_i64(&self) -> (r: Option<i64>) ensures r == self.num() { unimplemented!() }
        #[verifier::external_body]
        pub fn ast_i64(&self) -> (r: FsResult<i64>) ensures (r is Ok) == (self.num() is Some), r is Ok ==> r->Ok_0 == self.num()->0 { unimplemented!() }
    }
    pub mod basic_compaction {
        use super::*;
        #[verifier::external_body]
        pub fn comp_int(i: i64) -> (r: KVal) ensures r.num() == Some(i) { unimplemented!() }
    }
    // TRUSTED: going through a slice from its second element
    #[verifier::external_body]
    pub struct Values<'a> { x: &'a u8 }
    impl<'a> Values<'a> {
        pub uninterp spec fn rest(&self) -> Seq<KVal>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a KVal>)
            ensures
                old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
                old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn after_first<'a>(v: &'a [KVal]) -> (r: Values<'a>)
        requires v@.len() > 0,
        ensures r.rest() == v@.skip(1),
    { unimplemented!() }
    // TRUSTED: with_capacity_safe: an empty vector, or an error when the room cannot be had
    #[verifier::external_body]
    pub fn vec_with_capacity_safe<T>(n: usize) -> (r: FsResult<Vec<T>>) ensures r is Ok ==> r->Ok_0@.len() == 0 { unimplemented!() }

    pub open spec fn le(a: u64, b: u64) -> bool { a <= b }
    // TRUSTED: slice::sort_by_key with the identity as key (calls are redirected here)
    pub trait SortKey {
        fn sort_by_key_<F: Fn(&u64) -> u64>(&mut self, f: F);
    }
    impl SortKey for Vec<u64> {
        #[verifier::external_body]
        fn sort_by_key_<F: Fn(&u64) -> u64>(&mut self, f: F)
            ensures
                final(self)@.to_multiset() == old(self)@.to_multiset(),
                (forall|x: u64, y: u64| f.ensures((&x,), y) ==> x == y) ==> vstd::relations::sorted_by(final(self)@, |a: u64, b: u64| le(a, b)),
        { self.sort_by_key(|a| f(a)) }
    }
}

pub mod phase_data_item {
    use super::*;
    use super::lib_specs::*;
//@ item dochy_fs/src/imp/history/algo/phase_data_item.rs struct PhaseDataItem
    impl PhaseDataItem {
//@ fn dochy_fs/src/imp/history/algo/phase_data_item.rs PhaseDataItem::new -> r
            ensures r.my_size == my_size, r.descendant_total_size == 0, r.descendant_total_len == 0,
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data_item.rs PhaseDataItem::add
            requires old(self).descendant_total_size + size <= u64::MAX, old(self).descendant_total_len < usize::MAX,
            ensures
                final(self).my_size == old(self).my_size,
                final(self).descendant_total_size == old(self).descendant_total_size + size,
                final(self).descendant_total_len == old(self).descendant_total_len + 1,
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data_item.rs PhaseDataItem::my_size -> r
            ensures r == self.my_size,
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data_item.rs PhaseDataItem::descendant_total_size -> r
            ensures r == self.descendant_total_size,
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data_item.rs PhaseDataItem::descendant_total_len -> r
            ensures r == self.descendant_total_len,
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data_item.rs PhaseDataItem::encode
            requires fits(*self),
            ensures
                final(vec)@.len() == old(vec)@.len() + 3,
                final(vec)@.take(old(vec)@.len() as int) == old(vec)@,
                noted(final(vec)@, old(vec)@.len() as int, *self),
//@ start
            let ghost v0 = vec@;
//@ end-of-body
            assert(vec@.take(v0.len() as int) =~= v0);
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data_item.rs PhaseDataItem::decode -> r
//@ sub impl\s+Iterator<Item\s*=\s*&'a KVal> => Values<'a>
            ensures
                r is Ok ==> old(reader).rest().len() >= 3 && final(reader).rest() == old(reader).rest().skip(3),
                forall|i: PhaseDataItem| old(reader).rest().len() >= 3 && fits(i) && #[trigger] noted(old(reader).rest(), 0, i) ==> r is Ok && r->Ok_0 == i,
//@ start
            let ghost v0 = reader.rest();
//@ end
    }
    /// numbers of 63 bits
    pub open spec fn fits(i: PhaseDataItem) -> bool {
        i.my_size < 0x8000_0000_0000_0000 && i.descendant_total_size < 0x8000_0000_0000_0000 && i.descendant_total_len < 0x8000_0000_0000_0000
    }
    /// what is written down from this place on
    pub open spec fn noted(v: Seq<KVal>, k: int, i: PhaseDataItem) -> bool {
        v[k].num() == Some(i.my_size as i64) && v[k + 1].num() == Some(i.descendant_total_size as i64) && v[k + 2].num() == Some(i.descendant_total_len as i64)
    }
//@ fn dochy_fs/src/imp/history/algo/phase_data_item.rs read_int -> r
//@ sub impl\s+Iterator<Item\s*=\s*&'a KVal> => Values<'a>
        ensures
            r is Ok ==> old(reader).rest().len() > 0 && final(reader).rest() == old(reader).rest().skip(1) && old(reader).rest()[0].num() == Some(r->Ok_0),
            old(reader).rest().len() > 0 && old(reader).rest()[0].num() is Some ==> r is Ok,
//@ end
}

pub mod phase_data {
    use super::*;
    use super::lib_specs::*;
    use super::phase_data_item::*;
//@ item dochy_fs/src/imp/history/algo/phase_data.rs struct PhaseData

    /// no sum of the sizes leaves the 64 bit range (2 EiB in one history)
    pub open spec fn small(i: PhaseDataItem) -> bool {
        i.my_size + i.descendant_total_size < 0x2000_0000_0000_0000 && i.descendant_total_len < 0x2000_0000_0000_0000
    }
    pub open spec fn grown(i: PhaseDataItem, size: u64) -> PhaseDataItem {
        PhaseDataItem { my_size: i.my_size, descendant_total_size: (i.descendant_total_size + size) as u64, descendant_total_len: (i.descendant_total_len + 1) as usize }
    }
    pub open spec fn lone(size: u64) -> PhaseDataItem { PhaseDataItem { my_size: size, descendant_total_size: 0, descendant_total_len: 0 } }
    /// a file of this size after the given ones
    pub open spec fn added(s: Seq<PhaseDataItem>, size: u64) -> Seq<PhaseDataItem> {
        s.map_values(|i: PhaseDataItem| grown(i, size)).push(lone(size))
    }
    pub open spec fn all_small(s: Seq<PhaseDataItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> small(#[trigger] s[i]) }
    /// how these entries are written down: their number, then three numbers for each
    pub open spec fn written(v: Seq<KVal>, s: Seq<PhaseDataItem>) -> bool {
        &&& v.len() == 3 * s.len() + 1
        &&& v[0].num() == Some(s.len() as i64)
        &&& forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> noted(v, 3 * j + 1, s[j])
    }
    pub open spec fn counted(v: Seq<KVal>, n: int) -> bool { v.len() > 0 && v[0].num() is Some && n == v[0].num()->0 as usize }
    pub open spec fn sizes_of(s: Seq<PhaseDataItem>) -> Seq<u64> { s.map_values(|i: PhaseDataItem| i.my_size) }
    /// the size of the n-th largest file
    pub open spec fn nth_largest(s: Seq<PhaseDataItem>, n: int) -> u64 {
        let sorted = sizes_of(s).sort_by(|a: u64, b: u64| le(a, b));
        sorted[sorted.len() - n]
    }
    impl PhaseData {
        pub open spec fn wf(&self) -> bool {
            &&& self.items@.len() >= 1
            &&& forall|i: int| 0 <= i < self.items@.len() ==> small(#[trigger] self.items@[i])
        }
//@ fn dochy_fs/src/imp/history/algo/phase_data.rs PhaseData::new -> r
            ensures r.items@ == seq![lone(size)],
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data.rs PhaseData::push
            requires
                forall|i: int| 0 <= i < old(self).items@.len() ==> small(#[trigger] old(self).items@[i]),
                size < 0x2000_0000_0000_0000,
            ensures final(self).items@ == added(old(self).items@, size),
//@ loops for
//@ iter 0 it
//@ pre 0
            let ghost s0 = self.items@;
//@ loop 0
            invariant
                it.seq().len() == s0.len(),
                forall|j: int| 0 <= j < s0.len() ==> *it.seq()[j] == s0[j],
                forall|j: int| 0 <= j < s0.len() ==> small(#[trigger] s0[j]),
                forall|j: int| 0 <= j < it.index@ ==> *final(it.seq()[j]) == grown(s0[j], size),
                size < 0x2000_0000_0000_0000,
//@ in 0
            assert(small(s0[it.index@ as int]));
//@ end-of-body
            assert(self.items@ =~= added(s0, size));
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data.rs PhaseData::pop_and_push
            requires old(self).wf(), size_to_push < 0x2000_0000_0000_0000,
            ensures
                final(self).items@ == added(old(self).items@.take(if next_phase < old(self).items@.len() { next_phase as int } else { old(self).items@.len() as int }), size_to_push),
//@ loops while
//@ loop 0
            invariant
                old(self).wf(),
                self.items@.len() <= old(self).items@.len(),
                next_phase <= self.items@.len() || self.items@.len() == old(self).items@.len(),
                self.items@ == old(self).items@.take(self.items@.len() as int),
            decreases self.items@.len(),
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data.rs PhaseData::len -> r
            ensures r == self.items@.len(),
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data.rs PhaseData::get -> r
            requires climb < self.items@.len(),
            ensures r == Some(&self.items@[self.items@.len() - 1 - climb]),
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data.rs PhaseData::encode -> r
            requires self.wf(), self.items@.len() < 0x1000_0000_0000_0000,
            ensures written(r@, self.items@),
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                self.wf(),
                it.seq().len() == self.items@.len(),
                forall|j: int| 0 <= j < self.items@.len() ==> *it.seq()[j] == self.items@[j],
                vec@.len() == 3 * it.index@ + 1,
                vec@[0].num() == Some(self.items@.len() as i64),
                forall|j: int| #![trigger self.items@[j]] 0 <= j < it.index@ ==> noted(vec@, 3 * j + 1, self.items@[j]),
//@ in 0
            let ghost v1 = vec@;
            let ghost n1 = it.index@ as int;
            assert(small(self.items@[n1]));
//@ last 0
            proof {
                assert(vec@.take(v1.len() as int) == v1);
                assert forall|j: int| 0 <= j < v1.len() implies vec@[j] == v1[j] by { assert(vec@.take(v1.len() as int)[j] == v1[j]); }
            }
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data.rs PhaseData::decode -> r
//@ sub vals\[1\.\.\]\.(?:into_)?iter\(\) => after_first(vals)
            ensures
                r is Ok ==> counted(vals@, r->Ok_0.items@.len() as int),
                forall|s: Seq<PhaseDataItem>| r is Ok && #[trigger] written(vals@, s) && s.len() < 0x1000_0000_0000_0000 && all_small(s) ==> r->Ok_0.items@ == s,
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                vals@.len() > 0,
                it.index@ <= len,
                items@.len() == it.index@,
                3 * it.index@ + 1 <= vals@.len(),
                iter.rest() == vals@.skip(3 * it.index@ + 1),
                forall|s: Seq<PhaseDataItem>, j: int| #![trigger written(vals@, s), items@[j]] 0 <= j < it.index@ && written(vals@, s) && s.len() == len && all_small(s) ==> items@[j] == s[j],
//@ in 0
            let ghost k = it.index@ as int;
            let ghost v1 = iter.rest();
            proof {
                assert forall|s: Seq<PhaseDataItem>| #[trigger] written(vals@, s) && s.len() == len && all_small(s) implies noted(v1, 0, s[k]) && fits(s[k]) && v1.len() >= 3 by {
                    assert(small(s[k]));
                    assert(noted(vals@, 3 * k + 1, s[k]));
                }
            }
//@ last 0
            proof { assert(v1.skip(3) =~= vals@.skip(3 * (k + 1) + 1)); }
//@ end
//@ fn dochy_fs/src/imp/history/algo/phase_data.rs PhaseData::get_nth_largest_files_size -> r
            requires self.wf(),
            ensures
                nth > self.items@.len() ==> r is None,
                1 <= nth <= self.items@.len() ==> r == Some(nth_largest(self.items@, nth as int)),
                nth == 0 ==> r == Some(nth_largest(self.items@, 1)),
//@ sub \|item\| item\.my_size\(\) => |item: &PhaseDataItem| -> (x: u64) ensures x == item.my_size { item.my_size() }
//@ sub sort_by_key\(\|a\| \*a\) => sort_by_key_(|a: &u64| -> (x: u64) ensures x == *a { *a })
//@ sub map\(\|a\| \*a\) => map(|a: &u64| -> (x: u64) ensures x == *a { *a })
//@ before sizes\.sort_by_key_
            let ghost s0 = sizes@;
            proof { assert(s0 =~= sizes_of(self.items@)); }
//@ before sizes\.get
            proof {
                let leq = |a: u64, b: u64| le(a, b);
                let sorted = s0.sort_by(leq);
                s0.lemma_sort_by_ensures(leq);
                lemma_sorted_unique(sorted, sizes@, leq);
                assert(sizes@.len() == s0.len()) by { s0.to_multiset_ensures(); sizes@.to_multiset_ensures(); }
            }
//@ end
    }
}

pub mod should_shift_to_parent_phase {
    use super::*;
    // TRUSTED: conversion to and division of floating point numbers never panic (the result is left open)
    #[verifier::external_body]
    pub fn ratio(a: u64, b: usize) -> f64 { a as f64 / b as f64 }
//@ fn dochy_fs/src/imp/history/algo/should_shift_to_parent_phase.rs should_shift_to_parent_phase
        requires
            parent_size + descendant_total_size + current_total_size <= u64::MAX,
            1 + descendant_total_len + current_total_len <= usize::MAX,
//@ sub size as f64 / len as f64 => ratio(size, len)
//@ end
}

pub mod history_options {
    use super::*;
    use super::lib_specs::*;
//@ item dochy_fs/src/imp/history/algo/history_options.rs struct HistoryOptions
//@ item dochy_fs/src/imp/history/algo/history_options.rs struct CumulativeOptions
//@ item dochy_fs/src/imp/history/algo/history_options.rs struct HistoryOptionsBuilder
//@ item dochy_fs/src/imp/history/algo/history_options.rs struct CumulativeOptionsBuilder

    /// what a set of options must satisfy
    pub open spec fn consistent(max_phase: usize, update_phase_0: bool, limited: bool) -> bool {
        max_phase == 0 ==> update_phase_0 && !limited
    }
    impl CumulativeOptions {
        pub open spec fn valid(&self) -> bool { self.limit_nth != Some(0usize) && self.limit_count != Some(0usize) }
        pub open spec fn limited(&self) -> bool { self.limit_nth is Some || self.limit_count is Some }
//@ fn dochy_fs/src/imp/history/algo/history_options.rs CumulativeOptions::limit_nth -> r
            ensures r == self.limit_nth,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs CumulativeOptions::limit_count -> r
            ensures r == self.limit_count,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs CumulativeOptions::from -> r
            ensures
                r is Ok <==> builder.limit_nth != Some(0usize) && builder.limit_count != Some(0usize),
                r is Ok ==> r->Ok_0.limit_nth == builder.limit_nth && r->Ok_0.limit_count == builder.limit_count,
//@ end
    }
    impl HistoryOptions {
        pub open spec fn valid(&self) -> bool {
            &&& consistent(self.max_phase, self.update_phase_0, self.cumulative is Some && self.cumulative->0.limited())
            &&& self.cumulative is Some ==> self.cumulative->0.valid()
        }
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::max_phase -> r
            ensures r == self.max_phase,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::update_phase_0 -> r
            ensures r == self.update_phase_0,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::cumulative -> r
            ensures (r is Some) == (self.cumulative is Some), r is Some ==> *r->0 == self.cumulative->0,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::is_cumulative -> r
            ensures r == (self.cumulative is Some),
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::mt_save -> r
            ensures r == self.mt_save,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::mt_load -> r
            ensures r == self.mt_load,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::from -> r
            ensures
                r is Ok ==> r->Ok_0.valid() && r->Ok_0.max_phase == builder.max_phase && r->Ok_0.update_phase_0 == builder.update_phase_0
                    && r->Ok_0.mt_save == builder.mt_save && r->Ok_0.mt_load == builder.mt_load
                    && (r->Ok_0.cumulative is Some) == (builder.cumulative is Some),
                r is Ok && builder.cumulative is Some ==>
                    r->Ok_0.cumulative->0.limit_nth == builder.cumulative->0.limit_nth && r->Ok_0.cumulative->0.limit_count == builder.cumulative->0.limit_count,
                consistent(builder.max_phase, builder.update_phase_0, builder.cumulative is Some && (builder.cumulative->0.limit_nth is Some || builder.cumulative->0.limit_count is Some))
                    && (builder.cumulative is Some ==> builder.cumulative->0.limit_nth != Some(0usize) && builder.cumulative->0.limit_count != Some(0usize)) ==> r is Ok,
//@ sub \|c\| CumulativeOptions::from\(c\) => |c: CumulativeOptionsBuilder| -> (x: FsResult<CumulativeOptions>) ensures (x is Ok <==> c.limit_nth != Some(0usize) && c.limit_count != Some(0usize)), x is Ok ==> x->Ok_0.limit_nth == c.limit_nth && x->Ok_0.limit_count == c.limit_count { CumulativeOptions::from(c) }
//@ end
    }
    impl HistoryOptionsBuilder {
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptionsBuilder::max_phase -> r
            ensures r == (HistoryOptionsBuilder { max_phase: max_phase, ..self }),
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptionsBuilder::update_phase_0 -> r
            ensures r == (HistoryOptionsBuilder { update_phase_0: update_phase_0, ..self }),
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptionsBuilder::mt_save -> r
            ensures r == (HistoryOptionsBuilder { mt_save: mt_save, ..self }),
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptionsBuilder::mt_load -> r
            ensures r == (HistoryOptionsBuilder { mt_load: mt_load, ..self }),
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptionsBuilder::cumulative -> r
            ensures r == (HistoryOptionsBuilder { cumulative: cumulative, ..self }),
//@ end
    }
    impl CumulativeOptionsBuilder {
//@ fn dochy_fs/src/imp/history/algo/history_options.rs CumulativeOptionsBuilder::limit_nth -> r
            ensures r == (CumulativeOptionsBuilder { limit_nth: limit_nth, ..self }),
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs CumulativeOptionsBuilder::limit_count -> r
            ensures r == (CumulativeOptionsBuilder { limit_count: limit_count, ..self }),
//@ end
    }
}

pub mod calc_next_phase {
    use super::*;
    use super::lib_specs::*;
    use super::phase_data::*;
    use super::history_options::*;
    use super::should_shift_to_parent_phase::*;
    use super::phase_data_item::*;

    /// the running cumulative files have reached a limit
    pub open spec fn run_is_full(s: Seq<PhaseDataItem>, op: HistoryOptions) -> bool {
        let above = s[s.len() - 2];
        op.cumulative is Some && ({
            ||| op.cumulative->0.limit_count is Some && op.cumulative->0.limit_count->0 <= above.descendant_total_len
            ||| op.cumulative->0.limit_nth is Some && op.cumulative->0.limit_nth->0 <= s.len()
                && nth_largest(s, op.cumulative->0.limit_nth->0 as int) <= above.descendant_total_size
        })
    }
//@ fn dochy_fs/src/imp/history/algo/calc_next_phase.rs calc_next_phase -> r
        requires
            data.wf(),
            op.valid(),
            data.items@.len() <= op.max_phase + 1,
            op.max_phase < usize::MAX,
        ensures
            // between 0 and the maximum, at most one deeper than the file derived from (which is in phase len - 1)
            r <= op.max_phase,
            r <= data.items@.len(),
            // the phases are filled one after the other
            data.items@.len() <= op.max_phase ==> r == data.items@.len(),
            // no new phase 0 file when those are disabled
            !op.update_phase_0 ==> r >= 1,
            // a full cumulative run is not continued, unless only a phase 0 file could start a new one
            data.items@.len() == op.max_phase + 1 && data.items@.len() >= 2 && run_is_full(data.items@, *op) ==>
                r < op.max_phase || (!op.update_phase_0 && op.max_phase == 1),
//@ loops while
//@ while 0 n
//@ loop 0
            invariant
                data.wf(),
                op.valid(),
                len == data.items@.len(),
                len == op.max_phase + 1,
                n_end == len - 1,
                max_phase == op.max_phase,
            decreases n_end - n,
//@ in 0
            assert(small(data.items@[len - 1 - n]) && small(data.items@[len - 2 - n]));
//@ end
}
fn main() {}
}
