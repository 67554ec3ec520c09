#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: saving and loading history files through the cache of states (property 17).
use vstd::prelude::*;
use std::collections::BTreeMap;
use std::collections::HashMap;

// messages are dropped
macro_rules! format { ($($t:tt)*) => { crate::lib_specs::text() } }

verus! {
global size_of usize == 8;

//@ include tree.inc
//@ include ancestors.inc

pub mod disk {
    use super::*;
    use super::lib_specs::*;
    pub type Name = Seq<char>;
    pub type Place = Seq<Name>;
    pub struct Tree { pub files: Map<Place, Seq<u8>> }
    /// the file `p` is what it was
    pub open spec fn same(a: Tree, b: Tree, p: Place) -> bool {
        a.files.dom().contains(p) == b.files.dom().contains(p) && (a.files.dom().contains(p) ==> a.files[p] == b.files[p])
    }
    /// nothing but the contents of the file `p` may have changed
    pub open spec fn only(a: Tree, b: Tree, p: Place) -> bool {
        forall|q: Place| #![trigger a.files.dom().contains(q)] #![trigger b.files.dom().contains(q)] #![trigger same(a, b, q)] q != p ==> same(a, b, q)
    }
    /// The state of the disk. It is handed through the functions as an erased parameter.
    #[verifier::external_body]
    pub tracked struct Disk { x: () }
    impl Disk { pub uninterp spec fn view(self) -> Tree; }

    // TRUSTED: paths. Joining the name of a history file gives the path of that file in the folder
    #[verifier::external_body]
    #[verifier::external_derive]
    #[derive(PartialEq, Eq)]
    pub struct Path { x: u8 }
    pub type PathBuf = Path;
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Path {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Path) -> bool { self@ == o@ }
    }
    pub trait AsPath {
        spec fn place(&self) -> Place;
        fn as_ref(&self) -> (r: &Path) ensures r@ == self.place();
    }
    impl AsPath for Path {
        open spec fn place(&self) -> Place { self@ }
        fn as_ref(&self) -> (r: &Path) { self }
    }
    impl AsPath for &Path {
        open spec fn place(&self) -> Place { self@ }
        fn as_ref(&self) -> (r: &Path) { *self }
    }
    pub trait Text { spec fn name(&self) -> Name; }
    impl Text for String { open spec fn name(&self) -> Name { self@ } }
    impl Text for &String { open spec fn name(&self) -> Name { self@ } }
    impl Path {
        pub uninterp spec fn view(&self) -> Place;
        #[verifier::external_body]
        pub fn join<N: Text>(&self, n: N) -> (r: PathBuf)
            ensures r@ == self@.push(n.name()),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn parent(&self) -> (r: Option<&Path>)
            ensures r is Some == (self@.len() > 0), r is Some ==> r->0@ == self@.drop_last(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn to_path_buf(&self) -> (r: PathBuf)
            ensures r@ == self@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn file_name(&self) -> (r: Option<FileName>)
            ensures r is Some == (self@.len() > 0), r is Some ==> r->0@ == self@.last(),
        { unimplemented!() }
        /// file_name, to_string_lossy and to_string
        #[verifier::external_body]
        pub fn file_name_text(&self) -> (r: Option<String>)
            ensures r is Some == (self@.len() > 0), r is Some ==> r->0@ == self@.last(),
        { unimplemented!() }
    }

    #[verifier::external_body]
    #[verifier::external_derive]
    #[derive(PartialEq, Eq)]
    pub struct FileName { x: u8 }
    impl FileName { pub uninterp spec fn view(&self) -> Name; }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for FileName {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &FileName) -> bool { self@ == o@ }
    }
    // TRUSTED: creating, opening and writing files. A call that fails leaves everything as it was, except
    // that a file being written may then hold anything
    #[verifier::external_body]
    pub struct File { x: u8 }
    impl File {
        pub uninterp spec fn at(&self) -> Place;
        pub uninterp spec fn rest(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn create(p: &Path, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<File>)
            ensures
                r is Ok ==> r->Ok_0.at() == p@ && only(old(disk)@, final(disk)@, p@) && final(disk)@.files.dom().contains(p@) && final(disk)@.files[p@] == Seq::<u8>::empty(),
                r is Err ==> final(disk)@ == old(disk)@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn open(p: &Path, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<File>)
            ensures r is Ok ==> disk@.files.dom().contains(p@) && r->Ok_0.at() == p@ && r->Ok_0.rest() == disk@.files[p@],
        { unimplemented!() }
        #[verifier::external_body]
        pub fn write_all(&mut self, b: &[u8], Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
            requires old(disk)@.files.dom().contains(old(self).at()),
            ensures
                final(self).at() == old(self).at(),
                only(old(disk)@, final(disk)@, old(self).at()),
                final(disk)@.files.dom().contains(old(self).at()),
                r is Ok ==> final(disk)@.files[old(self).at()] == old(disk)@.files[old(self).at()] + b@,
        { unimplemented!() }
    }
    // ASSUMED: unit codec (properties 1 and 2): what was encoded is read back, and what follows is left over
    #[verifier::external_body]
    pub struct KVal { x: u8 }
    pub uninterp spec fn lead(b: Seq<u8>) -> Seq<KVal>;
    pub uninterp spec fn after(b: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn encode(v: &Vec<KVal>, f: &mut File, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<usize>)
        requires old(disk)@.files.dom().contains(old(f).at()),
        ensures
            final(f).at() == old(f).at(),
            only(old(disk)@, final(disk)@, old(f).at()),
            final(disk)@.files.dom().contains(old(f).at()),
            r is Ok && old(disk)@.files[old(f).at()] == Seq::<u8>::empty() ==> forall|x: Seq<u8>| lead(#[trigger] (final(disk)@.files[old(f).at()] + x)) == v@ && after(final(disk)@.files[old(f).at()] + x) == x,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(f: &mut File) -> (r: FsResult<(Vec<KVal>, usize)>)
        ensures r is Ok ==> r->Ok_0.0@ == lead(old(f).rest()) && final(f).rest() == after(old(f).rest()),
    { unimplemented!() }

    /// the visible state of an object
    pub struct State { x: int }
    #[verifier::external_body]
    pub struct RootObject { x: u8 }
    impl RootObject { pub uninterp spec fn view(&self) -> State; }
    impl Clone for RootObject {
        #[verifier::external_body]
        fn clone(&self) -> (r: RootObject) ensures r@ == self@ { unimplemented!() }
    }
    /// the state a diff leads to
    pub uninterp spec fn applied(s: State, diff: Seq<u8>) -> State;
    /// the state an object of one source has under another source
    pub uninterp spec fn converted(source: State, old: State, r: State) -> bool;
    /// the object that the source with this hash starts from
    pub uninterp spec fn source_of(hash: u128) -> State;

    // ASSUMED: units diff and diffio (property 7): a diff turns the old state into the new one, and leads to one state
    pub mod dochy_diff {
        use super::*;
        #[verifier::external_body]
        pub fn get_diff(old: &RootObject, new: &RootObject) -> (r: FsResult<Vec<u8>>)
            ensures r is Ok ==> applied(old@, r->Ok_0@) == new@,
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn apply_diff(root: &mut RootObject, f: &mut File) -> (r: FsResult<()>)
        ensures r is Ok ==> final(root)@ == applied(old(root)@, old(f).rest()),
    { unimplemented!() }
    // ASSUMED: unit convert (property 11)
    #[verifier::external_body]
    pub fn adjust_versions(source: RootObject, old: RootObject, validation: bool) -> (r: FsResult<RootObject>)
        ensures r is Ok ==> converted(source@, old@, r->Ok_0@),
    { unimplemented!() }
}

pub mod options {
    use super::*;
    use super::lib_specs::*;
//@ item dochy_fs/src/imp/history/algo/history_options.rs struct HistoryOptions
//@ item dochy_fs/src/imp/history/algo/history_options.rs struct CumulativeOptions
    impl HistoryOptions {
        // AsRef
        pub fn as_ref(&self) -> (r: &HistoryOptions) ensures *r == *self { self }
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::max_phase -> r
            ensures r == self.max_phase,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::is_cumulative -> r
            ensures r == (self.cumulative is Some),
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::mt_save -> r
            ensures r == self.mt_save,
//@ end
//@ fn dochy_fs/src/imp/history/algo/history_options.rs HistoryOptions::mt_load -> r
            ensures r == self.mt_load,
//@ end
    }
}

pub mod states {
    use super::*;
    use super::lib_specs::*;
    use super::disk::*;
    use super::disk::same;
    /// the state reached by the diffs of files
    pub open spec fn state(t: Tree, s: State, ps: Seq<Place>) -> Option<State>
        decreases ps.len(),
    {
        if ps.len() == 0 { Some(s) }
        else {
            match state(t, s, ps.drop_last()) {
                Some(x) => if t.files.dom().contains(ps.last()) { Some(applied(x, after(t.files[ps.last()]))) } else { None },
                None => None,
            }
        }
    }
    pub proof fn one_more(t: Tree, s: State, ps: Seq<Place>, k: int)
        requires 0 <= k < ps.len(),
        ensures ({
            &&& state(t, s, ps.take(k)) is Some && t.files.dom().contains(ps[k]) ==> state(t, s, ps.take(k + 1)) == Some(applied(state(t, s, ps.take(k))->0, after(t.files[ps[k]])))
        }),
    {
        let a = ps.take(k + 1);
        assert(a.drop_last() =~= ps.take(k));
        assert(a.last() == ps[k]);
    }
    pub proof fn unchanged(a: Tree, b: Tree, s: State, ps: Seq<Place>)
        requires forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> same(a, b, ps[i]),
        ensures state(a, s, ps) == state(b, s, ps),
        decreases ps.len(),
    {
        if ps.len() > 0 {
            let q = ps.drop_last();
            assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies same(a, b, q[i]) by { assert(q[i] == ps[i]); }
            unchanged(a, b, s, q);
            assert(ps.last() == ps[ps.len() - 1]);
        }
    }
    pub open spec fn spots(v: Seq<PathBuf>) -> Seq<Place> { v.map_values(|p: PathBuf| p@) }
}

pub mod dochy_cache {
    use super::*;
    use super::lib_specs::*;
    use super::disk::*;
    use super::disk::same;
    use super::options::*;
    use super::states::*;
//@ item dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs struct DochyCache
    pub type Cached = Map<usize, (PathBuf, RootObject)>;
    /// what is cached for one of the files is the state these files lead to, and the phase tells how many they are
    pub open spec fn fits(c: Cached, t: Tree, s: State, ps: Seq<Place>, mp: int) -> bool {
        forall|i: usize, k: int| #![trigger c[i], ps[k]] c.dom().contains(i) && 0 <= k < ps.len() && c[i].0@ == ps[k] ==>
            i <= mp && (i < mp ==> k == i) && state(t, s, ps.take(k + 1)) == Some(c[i].1@)
    }

    /// what is cached was cached before, or is the state one of these files leads to
    pub open spec fn advances(c: Cached, d: Cached, t: Tree, s: State, ps: Seq<Place>, mp: int) -> bool {
        forall|i: usize| #[trigger] d.dom().contains(i) ==> c.dom().contains(i) && d[i] == c[i]
            || i < mp && i < ps.len() && d[i].0@ == ps[i as int] && state(t, s, ps.take(i + 1)) == Some(d[i].1@)
    }

    // TRUSTED: the last entry of a map and the last element of a vector (calls of iter().last() are redirected here)
    #[verifier::external_body]
    pub fn last_cached(m: &BTreeMap<usize, (PathBuf, RootObject)>) -> (r: Option<(&usize, &(PathBuf, RootObject))>)
        ensures
            r is None <==> m@.dom() =~= Set::empty(),
            r is Some ==> m@.dom().contains(*(r->0).0) && (forall|j: usize| #[trigger] m@.dom().contains(j) ==> j <= *(r->0).0) && m@[*(r->0).0] == *(r->0).1,
    { m.iter().last() }
    #[verifier::external_body]
    pub fn last_path_of(v: &Vec<PathBuf>) -> (r: Option<&PathBuf>)
        ensures r is Some == (v@.len() > 0), r is Some ==> *r->0 == v@.last(),
    { v.iter().last() }
    // TRUSTED: into_iter, skip and collect
    #[verifier::external_body]
    pub fn skip_(v: Vec<PathBuf>, n: usize) -> (r: Vec<PathBuf>)
        ensures r@ == (if n <= v@.len() { v@.skip(n as int) } else { Seq::empty() }),
    { v.into_iter().skip(n).collect() }

#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs remove_upper_phase_cache
        ensures
            forall|i: usize| #[trigger] final(cache)@.dom().contains(i) <==> old(cache)@.dom().contains(i) && i < phase,
            forall|i: usize| #[trigger] final(cache)@.dom().contains(i) ==> final(cache)@[i] == old(cache)@[i],
//@ sub cache\.iter\(\)\.last\(\) => last_cached(cache)
//@ loops loop
//@ loop 0
            invariant_except_break
                forall|i: usize| #[trigger] cache@.dom().contains(i) ==> old(cache)@.dom().contains(i) && cache@[i] == old(cache)@[i],
                forall|i: usize| #[trigger] old(cache)@.dom().contains(i) && i < phase ==> cache@.dom().contains(i),
            ensures
                forall|i: usize| #[trigger] cache@.dom().contains(i) <==> old(cache)@.dom().contains(i) && i < phase,
                forall|i: usize| #[trigger] cache@.dom().contains(i) ==> cache@[i] == old(cache)@[i],
//@ end

//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs get_phase_cache -> r
        ensures
            r is Some ==> cache@.dom().contains(r->0) && vec@.len() > 0 && (cache@[r->0].0@ == vec@.last()@
                || r->0 < max_phase && r->0 < vec@.len() && cache@[r->0].0@ == vec@[r->0 as int]@),
//@ sub cache\.iter\(\)\.last\(\) => last_cached(cache)
//@ sub vec\.iter\(\)\.last\(\) => last_path_of(vec)
//@ sub for\s+i\s+in\s+\(0\.\.max_phase\)\.rev\(\)\s*\{ => let mut i_rev = max_phase; while 0 < i_rev { i_rev -= 1; let i = i_rev;
//@ loops while
//@ loop 0
            invariant i_rev <= max_phase, vec@.len() > 0,
            decreases i_rev,
//@ end

//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs get_cached_item -> r
        requires
            fits(old(cache).phase_cache@, t, root@, spots(paths@), max_phase as int),
        ensures
            *final(cache) == *old(cache),
            r is Ok,
            r->Ok_0.1@.len() <= paths@.len(),
            r->Ok_0.1@ == paths@.skip(paths@.len() - r->Ok_0.1@.len()),
            state(t, root@, spots(paths@).take(paths@.len() - r->Ok_0.1@.len())) == Some(r->Ok_0.0@),
//@ param Ghost(t): Ghost<Tree>
//@ sub paths\.into_iter\(\)\.skip\(([^()]*)\)\.collect\(\) => skip_(paths, \1)
//@ start
        let ghost c = cache.phase_cache@;
        let ghost ps = spots(paths@);
        let ghost n = paths@.len() as int;
        let ghost vs = paths@;
        let ghost s0 = root@;
        proof {
            assert(ps.take(0) =~= Seq::<Place>::empty());
            assert(state(t, s0, ps.take(0)) == Some(s0));
            assert(vs.skip(0) =~= vs);
            assert(vs.skip(n) =~= Seq::empty());
            assert forall|i: usize| #[trigger] c.dom().contains(i) && n > 0 && c[i].0@ == vs.last()@ implies c[i].0@ == ps[n - 1] && i <= max_phase && (i < max_phase ==> n == i + 1) && state(t, s0, ps.take(n)) == Some(c[i].1@) by {
                assert(ps[n - 1] == vs.last()@);
            }
            assert forall|i: usize| #[trigger] c.dom().contains(i) && i < n && i < max_phase && c[i].0@ == vs[i as int]@ implies state(t, s0, ps.take(i + 1)) == Some(c[i].1@) by {
                assert(ps[i as int] == vs[i as int]@);
            }
        }
//@ end

    // ASSUMED: an archive of a source holds what the source starts from (units archive and files)
    #[verifier::external_body]
    pub fn get_archive_path2<P: AsPath>(dir: P, hash: u128) -> (r: PathBuf)
        ensures r@ == archive(dir.place(), hash),
    { unimplemented!() }
    pub uninterp spec fn archive(dir: Place, hash: u128) -> Place;
    /// every archive holds the source of its folder
    pub open spec fn kept(t: Tree, dir: Place) -> bool { forall|h: u128| holds(t, #[trigger] archive(dir, h), source_of(h)) }
    pub uninterp spec fn holds(t: Tree, p: Place, source: State) -> bool;
    #[verifier::external_body]
    pub fn archive_file_to_root(p: PathBuf, validation: bool, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<RootObject>)
        ensures r is Ok ==> forall|s: State| #[trigger] holds(disk@, p@, s) ==> r->Ok_0@ == s,
    { unimplemented!() }

//@ fn dochy_fs/src/imp/history/diff_and_cache/open_diff_file_without_metadata.rs open_diff_file_without_metadata -> r
        ensures r is Ok ==> disk@.files.dom().contains(path@) && r->Ok_0.rest() == after(disk@.files[path@]),
//@ sub dochy_compaction::enc_dec::decode::decode => decode
//@ param Tracked(disk): Tracked<&Disk>
//@ pass File::open Tracked(disk)
//@ end

    // TRUSTED: threads read and prepare the diffs, and hand over each of them once, in any order
    #[verifier::external_body]
    pub struct RootDiffR { x: u8 }
    impl RootDiffR { pub uninterp spec fn view(&self) -> Seq<u8>; }
    #[verifier::external_body]
    pub struct Receiver { x: u8 }
    impl Receiver {
        /// what has not been handed over yet
        pub uninterp spec fn view(&self) -> Map<usize, Place>;
        #[verifier::external_body]
        pub fn recv(&mut self, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<(usize, RootDiffR)>)
            ensures r is Ok ==> {
                let (i, d) = r->Ok_0;
                old(self)@.dom().contains(i) && final(self)@ == old(self)@.remove(i) && is_diff_of(d, disk@, old(self)@[i])
            },
        { unimplemented!() }
    }
    pub open spec fn is_diff_of(d: RootDiffR, t: Tree, p: Place) -> bool { t.files.dom().contains(p) && d@ == after(t.files[p]) }
    #[verifier::external_body]
    pub fn start_threads(paths: Vec<PathBuf>) -> (r: Receiver)
        ensures
            forall|i: usize| #[trigger] r@.dom().contains(i) <==> i < paths@.len(),
            r@.dom().len() == paths@.len(),
            forall|i: usize| i < paths@.len() ==> #[trigger] r@[i] == paths@[i as int]@,
    { unimplemented!() }
    // ASSUMED: units diff and diffio, as above
    #[verifier::external_body]
    pub fn apply_root_diff_r(root: &mut RootObject, d: RootDiffR) -> (r: FsResult<()>)
        ensures r is Ok ==> final(root)@ == applied(old(root)@, d@),
    { unimplemented!() }

    /// the diffs at hand are those of the files with these numbers
    pub open spec fn at_hand(m: Map<usize, RootDiffR>, t: Tree, ps: Seq<Place>) -> bool {
        forall|i: usize| #[trigger] m.dom().contains(i) ==> i < ps.len() && is_diff_of(m[i], t, ps[i as int])
    }
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/common/apply_items.rs apply_several_items -> r
//@ sub <F : FnMut\(&RootObject\)> =>
//@ sub ,\s*func : &mut F =>
//@ sub func\(root\); =>
//@ sub dochy_diff::apply_root_diff_r => apply_root_diff_r
//@ param Ghost(t): Ghost<Tree>, Ghost(s): Ghost<State>, Ghost(ps): Ghost<Seq<Place>>
        requires
            at_hand(old(map)@, t, ps),
            ps.len() <= usize::MAX,
            state(t, s, ps.take(*old(current_index) as int)) == Some(old(root)@),
            *old(current_index) <= ps.len(),
        ensures
            r is Ok ==> {
                &&& *old(current_index) <= *final(current_index) <= ps.len()
                &&& state(t, s, ps.take(*final(current_index) as int)) == Some(final(root)@)
                &&& !final(map)@.dom().contains(*final(current_index))
                &&& forall|i: usize| #[trigger] final(map)@.dom().contains(i) <==> old(map)@.dom().contains(i) && !(*old(current_index) <= i < *final(current_index))
                &&& forall|i: usize| #[trigger] final(map)@.dom().contains(i) ==> final(map)@[i] == old(map)@[i]
            },
//@ start
        broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ loops loop
//@ loop 0
            invariant_except_break
                ps.len() <= usize::MAX,
                at_hand(old(map)@, t, ps),
                *old(current_index) <= *current_index <= ps.len(),
                state(t, s, ps.take(*current_index as int)) == Some(root@),
                forall|i: usize| #[trigger] map@.dom().contains(i) <==> old(map)@.dom().contains(i) && !(*old(current_index) <= i < *current_index),
                forall|i: usize| #[trigger] map@.dom().contains(i) ==> map@[i] == old(map)@[i],
            ensures
                *old(current_index) <= *current_index <= ps.len(),
                state(t, s, ps.take(*current_index as int)) == Some(root@),
                !map@.dom().contains(*current_index),
                forall|i: usize| #[trigger] map@.dom().contains(i) <==> old(map)@.dom().contains(i) && !(*old(current_index) <= i < *current_index),
                forall|i: usize| #[trigger] map@.dom().contains(i) ==> map@[i] == old(map)@[i],
//@ in 0
            broadcast use vstd::std_specs::hash::group_hash_axioms;
            proof { if *current_index < ps.len() { one_more(t, s, ps, *current_index as int); } }
//@ end

//@ fn dochy_fs/src/imp/common/apply_items.rs apply_items_mt -> r
//@ sub <F : FnMut\(&RootObject\)> =>
//@ sub ,\s*mut func : F =>
//@ sub (?s)let \(sender,\s*receiver\).*?channel\(\);\s*let meta_table_arc = root\.meta_table_arc\(\); =>
//@ sub (?s)std::thread::spawn\(move \|\|\s*\{.*?\}\);\s*(?=let mut map) => let mut receiver = start_threads(paths);
//@ sub ,\s*&mut func\b =>
//@ sub \.or\(Err\(format!\([^()]*\)\)\) =>
//@ param Tracked(disk): Tracked<&Disk>
//@ pass .recv Tracked(disk)
//@ pass apply_several_items Ghost(disk@), Ghost(s0), Ghost(ps)
        ensures r is Ok ==> state(disk@, root@, spots(paths@)) == Some(r->Ok_0@),
//@ start
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let ghost s0 = root@;
        let ghost ps = spots(paths@);
        proof { assert(ps.take(0) =~= Seq::<Place>::empty()); }
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                ps.len() == paths_len,
                forall|i: usize| #[trigger] receiver@.dom().contains(i) ==> i < ps.len() && receiver@[i] == ps[i as int],
                receiver@.dom().len() == paths_len - it.index@,
                at_hand(map@, disk@, ps),
                current_index <= ps.len(),
                state(disk@, s0, ps.take(current_index as int)) == Some(root@),
                !map@.dom().contains(current_index),
                forall|i: usize| #![trigger receiver@.dom().contains(i)] #![trigger map@.dom().contains(i)] current_index <= i < ps.len() ==> receiver@.dom().contains(i) || map@.dom().contains(i),
//@ in 0
            broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ post 0
        proof {
            assert(receiver@.dom().len() == 0);
            assert(receiver@.dom() =~= Set::empty());
            if current_index < ps.len() { assert(!receiver@.dom().contains(current_index)); assert(map@.dom().contains(current_index)); }
            assert(ps.take(ps.len() as int) =~= ps);
        }
//@ end
    /// not reached
    #[verifier::external_body]
    pub fn never() -> (r: FsResult<RootObject>)
        requires false,
    { unimplemented!() }


//@ fn dochy_fs/src/imp/common/apply_items.rs apply_items_st -> r
//@ sub <F : FnMut\(&RootObject\)> =>
//@ sub ,\s*mut func : F =>
//@ sub func\(&root\); =>
//@ param Tracked(disk): Tracked<&Disk>
//@ pass open_diff_file_without_metadata Tracked(disk)
        ensures r is Ok ==> state(disk@, root@, spots(paths@)) == Some(r->Ok_0@),
//@ loops for
//@ iter 0 it
//@ start
        let ghost s0 = root@;
        proof { assert(spots(paths@).take(0) =~= Seq::<Place>::empty()); assert(spots(paths@).take(paths@.len() as int) =~= spots(paths@)); }
//@ loop 0
            invariant
                it.seq().len() == paths@.len(),
                forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == paths@[j],
                state(disk@, s0, spots(paths@).take(it.index@ as int)) == Some(root@),
//@ in 0
            proof { one_more(disk@, s0, spots(paths@), it.index@ as int); }
//@ end
    pub proof fn taken(v: Seq<PathBuf>, k: int, n: int)
        requires 0 <= k, 0 <= n, k + n <= v.len(),
        ensures
            spots(v.skip(k)).take(n) == spots(v).subrange(k, k + n),
            spots(v).take(k + n) == spots(v).take(k) + spots(v.skip(k)).take(n),
    {
        assert(spots(v.skip(k)).take(n) =~= spots(v).subrange(k, k + n));
        assert(spots(v).take(k + n) =~= spots(v).take(k) + spots(v.skip(k)).take(n));
    }
    pub proof fn in_two(t: Tree, s: State, a: Seq<Place>, b: Seq<Place>)
        requires state(t, s, a) is Some,
        ensures state(t, s, a + b) == state(t, state(t, s, a)->0, b),
        decreases b.len(),
    {
        if b.len() == 0 { assert(a + b =~= a); }
        else {
            assert((a + b).drop_last() =~= a + b.drop_last());
            in_two(t, s, a, b.drop_last());
        }
    }
    impl DochyCache {
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs DochyCache::hash -> r
            ensures r == self.hash,
//@ end
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs DochyCache::clone_src_root -> r
            ensures r@ == self.src_root@,
//@ end
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs DochyCache::get_or_create_hash_root -> r
//@ sub AsRef<Path> => AsPath
//@ param Tracked(disk): Tracked<&Disk>
//@ pass archive_file_to_root Tracked(disk)
            requires
                self.src_root@ == source_of(self.hash),
                kept(disk@, history_dir.place()),
            ensures r is Ok ==> r->Ok_0@ == source_of(hash),
//@ end
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs DochyCache::set_cache
            ensures
                final(self).src_root == old(self).src_root,
                final(self).hash == old(self).hash,
                forall|i: usize| #[trigger] final(self).phase_cache@.dom().contains(i) <==> i == phase || old(self).phase_cache@.dom().contains(i) && i < phase,
                forall|i: usize| #[trigger] final(self).phase_cache@.dom().contains(i) ==> final(self).phase_cache@[i] == (if i == phase { (path, item) } else { old(self).phase_cache@[i] }),
//@ end
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs DochyCache::apply_items_for_load -> r
//@ param Tracked(disk): Tracked<&Disk>
//@ sub ,\s*\|_\|\s*\{\s*\} =>
//@ pass get_cached_item Ghost(disk@)
//@ pass apply_items_mt Tracked(disk)
//@ pass apply_items_st Tracked(disk)
            requires fits(old(self).phase_cache@, disk@, load_root@, spots(paths@), op.max_phase as int),
            ensures
                *final(self) == *old(self),
                r is Ok ==> state(disk@, load_root@, spots(paths@)) == Some(r->Ok_0@),
//@ start
            let ghost vs = paths@;
            let ghost s0 = load_root@;
            let ghost n = vs.len() as int;
            proof {
                assert forall|m: int| 0 <= m <= n && state(disk@, s0, spots(vs).take(n - m)) is Some implies state(disk@, s0, spots(vs)) == state(disk@, state(disk@, s0, spots(vs).take(n - m))->0, spots(#[trigger] vs.skip(n - m))) by {
                    assert(spots(vs) =~= spots(vs).take(n - m) + spots(vs.skip(n - m)));
                    in_two(disk@, s0, spots(vs).take(n - m), spots(vs.skip(n - m)));
                }
            }
//@ end
#[verifier::loop_isolation(false)]
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs DochyCache::apply_items_for_save -> r
//@ inline cache_func dochy_fs/src/imp/common/apply_items.rs apply_items_st
//@ sub apply_items_mt\(root,\s*paths\.to_vec\(\),\s*cache_func\) => never()
//@ param Tracked(disk): Tracked<&Disk>
//@ pass get_cached_item Ghost(disk@)
//@ pass open_diff_file_without_metadata Tracked(disk)
            requires
                fits(old(self).phase_cache@, disk@, old(self).src_root@, spots(paths@), op.max_phase as int),
                !op.mt_save,
            ensures
                final(self).src_root == old(self).src_root,
                final(self).hash == old(self).hash,
                r is Ok ==> state(disk@, old(self).src_root@, spots(paths@)) == Some(r->Ok_0@),
                advances(old(self).phase_cache@, final(self).phase_cache@, disk@, old(self).src_root@, spots(paths@), op.max_phase as int),
//@ start
            let ghost vs = paths@;
            let ghost ps = spots(paths@);
            let ghost s0 = self.src_root@;
            let ghost c0 = self.phase_cache@;
            let ghost n = vs.len() as int;
            proof { assert(ps.take(n) =~= ps); }
//@ loops for
//@ iter 0 it
//@ loop 0
                invariant
                    self.src_root == old(self).src_root,
                    self.hash == old(self).hash,
                    n == vs.len(), ps == spots(vs), s0 == old(self).src_root@, c0 == old(self).phase_cache@,
                    num_cached <= n,
                    paths@ == vs.skip(num_cached as int),
                    it.seq().len() == paths@.len(),
                    forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == paths@[j],
                    state(disk@, s0, ps.take(num_cached + it.index@)) == Some(root_in@),
                    current_index == num_cached + it.index@ || current_index >= op.max_phase && current_index >= num_cached && current_index <= num_cached + it.index@,
                    forall|i: usize| #[trigger] self.phase_cache@.dom().contains(i) ==>
                        c0.dom().contains(i) && self.phase_cache@[i] == c0[i]
                        || i < op.max_phase && i < n && self.phase_cache@[i].0@ == vs[i as int]@ && state(disk@, s0, ps.take(i + 1)) == Some(self.phase_cache@[i].1@),
//@ in 0
                    proof {
                        let k = num_cached + it.index@;
                        assert(ps[k] == vs[k]@ && vs[k] == paths@[it.index@ as int]);
                        one_more(disk@, s0, ps, k);
                    }
//@ end-of-body
//@ end
    }

    // TRUSTED: writing to a vector appends
    #[verifier::external_body]
    pub fn append(v: &mut Vec<u8>, b: &Vec<u8>) -> (r: FsResult<()>)
        ensures r is Ok ==> final(v)@ == old(v)@ + b@,
    { unimplemented!() }
//@ item dochy_fs/src/imp/history/diff_and_cache/dochy_diff.rs struct DochyDiff
    impl DochyDiff {
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_diff.rs DochyDiff::new -> r
            ensures r.vec@ == vec@,
//@ end
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_diff.rs DochyDiff::write_value -> r
//@ sub <W: Write> =>
//@ sub &mut W\b => &mut Vec<u8>
//@ sub write\.write_all\( => append(write, 
            ensures r is Ok ==> final(write)@ == old(write)@ + self.vec@,
//@ end
    }
    impl RootObject {
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_src.rs DiffSrc for RootObject::create_diff -> r
//@ sub \bfn create_diff => pub fn create_diff
            ensures r is Ok ==> applied(from@, r->Ok_0.vec@) == self@,
//@ end
    }

    /// what saving and loading use of a cache
    pub trait Cache {
        spec fn table(&self) -> Cached;
        spec fn start(&self) -> State;
        /// the hash of the source it is the cache of
        spec fn own(&self) -> u128;
        fn apply_items_for_save(&mut self, paths: Vec<PathBuf>, op: &HistoryOptions, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<RootObject>)
            requires
                fits(old(self).table(), disk@, old(self).start(), spots(paths@), op.max_phase as int),
                !op.mt_save,
            ensures
                final(self).start() == old(self).start(),
                final(self).own() == old(self).own(),
                r is Ok ==> state(disk@, old(self).start(), spots(paths@)) == Some(r->Ok_0@),
                advances(old(self).table(), final(self).table(), disk@, old(self).start(), spots(paths@), op.max_phase as int);
        fn apply_items_for_load(&mut self, load_root: RootObject, paths: Vec<PathBuf>, op: &HistoryOptions, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<RootObject>)
            requires fits(old(self).table(), disk@, load_root@, spots(paths@), op.max_phase as int),
            ensures
                final(self).start() == old(self).start(),
                final(self).own() == old(self).own(),
                final(self).table() == old(self).table(),
                r is Ok ==> state(disk@, load_root@, spots(paths@)) == Some(r->Ok_0@);
        fn set_cache(&mut self, path: PathBuf, item: RootObject, phase: usize) -> (r: FsResult<()>)
            ensures
                r is Ok,
                final(self).start() == old(self).start(),
                final(self).own() == old(self).own(),
                final(self).table().dom().contains(phase),
                forall|i: usize| #[trigger] final(self).table().dom().contains(i) ==> i == phase || old(self).table().dom().contains(i),
                forall|i: usize| #[trigger] final(self).table().dom().contains(i) ==> final(self).table()[i] == (if i == phase { (path, item) } else { old(self).table()[i] });
    }
    impl Cache for DochyCache {
        open spec fn table(&self) -> Cached { self.phase_cache@ }
        open spec fn start(&self) -> State { self.src_root@ }
        open spec fn own(&self) -> u128 { self.hash }
//@ fn dochy_fs/src/imp/history/diff_and_cache/impl_cache_for_dochy_cache.rs Cache for DochyCache::apply_items_for_save -> r
//@ param Tracked(disk): Tracked<&Disk>
//@ pass .apply_items_for_save Tracked(disk)
//@ end
//@ fn dochy_fs/src/imp/history/diff_and_cache/impl_cache_for_dochy_cache.rs Cache for DochyCache::apply_items_for_load -> r
//@ param Tracked(disk): Tracked<&Disk>
//@ pass .apply_items_for_load Tracked(disk)
//@ end
//@ fn dochy_fs/src/imp/history/diff_and_cache/impl_cache_for_dochy_cache.rs Cache for DochyCache::set_cache -> r
//@ end
    }
}

pub mod store {
    use super::*;
    use super::lib_specs::*;
    use super::disk::*;
    use super::disk::same;
    use super::options::*;
    use super::states::*;
    use super::dochy_cache::*;
    use super::file_name_props::*;
    use super::file_history::*;
    use super::ancestors::*;

    // ASSUMED: unit names (property 14): the name of a file tells everything about it
    pub uninterp spec fn tag_ok(tag: Option<Seq<char>>) -> bool;
    pub uninterp spec fn name_of(tag: Option<Seq<char>>, ctl: u32, prev_ctl: u32, order: Seq<u32>) -> Name;
    pub open spec fn tag_of(t: Option<String>) -> Option<Seq<char>> { match t { Some(t) => Some(t@), None => None } }
    pub open spec fn name(p: FileNameProps) -> Name { name_of(tag_of(p.tag), p.control, p.prev_ctl, p.order@) }
    pub open spec fn nameable(p: FileNameProps) -> bool { tag_ok(tag_of(p.tag)) && p.order@.len() > 0 }
    pub axiom fn names_tell(t: Option<Seq<char>>, c: u32, x: u32, o: Seq<u32>, t2: Option<Seq<char>>, c2: u32, x2: u32, o2: Seq<u32>)
        requires name_of(t, c, x, o) == name_of(t2, c2, x2, o2), tag_ok(t), tag_ok(t2), o.len() > 0, o2.len() > 0,
        ensures t == t2, c == c2, x == x2, o == o2;
    // TRUSTED: texts and numbers in a vector with the same contents are the same
    pub axiom fn no_more(p: FileNameProps, q: FileNameProps)
        requires tag_of(p.tag) == tag_of(q.tag), p.control == q.control, p.prev_ctl == q.prev_ctl, p.order@ == q.order@,
        ensures p == q;
    pub proof fn names_apart(p: FileNameProps, q: FileNameProps)
        requires name(p) == name(q), nameable(p), nameable(q),
        ensures p == q,
    {
        names_tell(tag_of(p.tag), p.control, p.prev_ctl, p.order@, tag_of(q.tag), q.control, q.prev_ctl, q.order@);
        no_more(p, q);
    }
    impl FileNameProps {
        #[verifier::external_body]
        pub fn calc_filename(&self) -> (r: String) ensures r@ == name(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn from(filename: &str) -> (r: Option<FileNameProps>)
            ensures r is Some ==> name(r->0) == filename@ && nameable(r->0),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn calc_filename(tag: &Option<String>, control: u32, prev_ctl: Option<u32>, order: &[u32]) -> (r: String)
        ensures r@ == name_of(tag_of(*tag), control, if prev_ctl is Some { prev_ctl->0 } else { control }, order@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn analyze_file_name(filename: &String, hint: Option<usize>) -> (r: Option<FileNameProps>)
        ensures
            r is Some ==> name(r->0) == filename@ && nameable(r->0),
            r is None ==> forall|p: FileNameProps| nameable(p) ==> #[trigger] name(p) != filename@,
    { unimplemented!() }
    // TRUSTED: the derived equality of files
    #[verifier::external_body]
    pub fn same_file(a: &FileNameProps, b: &FileNameProps) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

    // ASSUMED: unit phase (property 16)
    #[verifier::external_body]
    pub struct PhaseData { x: u8 }
    pub uninterp spec fn told(v: Seq<KVal>) -> int;
    impl PhaseData {
        pub uninterp spec fn n(&self) -> int;
        #[verifier::external_body]
        pub fn new(size: u64) -> (r: PhaseData) ensures r.n() == 1 { unimplemented!() }
        #[verifier::external_body]
        pub fn encode(&self) -> (r: Vec<KVal>) ensures told(r@) == self.n() { unimplemented!() }
        #[verifier::external_body]
        pub fn decode(v: &Vec<KVal>) -> (r: FsResult<PhaseData>) ensures r is Ok ==> r->Ok_0.n() == told(v@) { unimplemented!() }
        #[verifier::external_body]
        pub fn pop_and_push(&mut self, next_phase: usize, size: u64)
            requires next_phase <= old(self).n(),
            ensures final(self).n() == next_phase + 1,
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn calc_next_phase(data: &PhaseData, op: &HistoryOptions) -> (r: usize)
        requires data.n() <= op.max_phase + 1, op.max_phase < usize::MAX,
        ensures r <= op.max_phase, r <= data.n(), data.n() <= op.max_phase ==> r == data.n(),
    { unimplemented!() }

    pub open spec fn at(dir: Place, p: FileNameProps) -> Place { dir.push(name(p)) }
    pub open spec fn there(t: Tree, dir: Place, p: FileNameProps) -> bool { nameable(p) && t.files.dom().contains(at(dir, p)) }
    /// A folder of history files: numbers tell files apart, and every file tells its phase
    pub open spec fn folder(t: Tree, dir: Place, mp: int) -> bool {
        &&& forall|p: FileNameProps, q: FileNameProps| #[trigger] there(t, dir, p) && #[trigger] there(t, dir, q) && p.key() == q.key() ==> p == q
        &&& forall|p: FileNameProps| #[trigger] there(t, dir, p) ==> phases(p, mp) && told(lead(t.files[at(dir, p)])) == p.order@.len()
    }
    /// a file and the files it is read from, all of them there
    pub open spec fn line(t: Tree, dir: Place, a: Seq<FileNameProps>, mp: int, cum: bool) -> bool {
        linked(a, mp, cum) && forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> there(t, dir, a[i])
    }
    pub open spec fn places(dir: Place, a: Seq<FileNameProps>) -> Seq<Place> { a.map_values(|p: FileNameProps| at(dir, p)) }
    /// reading this file gives this state
    pub open spec fn gives(t: Tree, dir: Place, s: State, a: Seq<FileNameProps>, r: State, mp: int, cum: bool) -> bool {
        line(t, dir, a, mp, cum) && state(t, s, places(dir, a)) == Some(r)
    }
    pub open spec fn entry(e: (PathBuf, RootObject), i: usize, t: Tree, dir: Place, s: State, a: Seq<FileNameProps>, mp: int, cum: bool) -> bool {
        gives(t, dir, s, a, e.1@, mp, cum) && e.0@ == at(dir, a.last()) && i == a.last().order@.len() - 1
    }
    /// what is cached for a file is what reading it gives
    pub open spec fn cache_ok(c: Cached, t: Tree, dir: Place, s: State, mp: int, cum: bool) -> bool {
        forall|i: usize| #[trigger] c.dom().contains(i) ==> exists|a: Seq<FileNameProps>| #[trigger] entry(c[i], i, t, dir, s, a, mp, cum)
    }
    /// what was listed is there
    pub open spec fn within(h: FileHistory, t: Tree, dir: Place) -> bool {
        h.wf() && forall|k: Key| (#[trigger] h.look(k)) is Some ==> there(t, dir, h.look(k)->0)
    }
    /// and everything there was listed
    pub open spec fn listed(h: FileHistory, t: Tree, dir: Place) -> bool {
        &&& within(h, t, dir)
        &&& h.full()
        &&& forall|p: FileNameProps| #[trigger] there(t, dir, p) ==> h.look(p.key()) == Some(p)
    }
    pub proof fn shorter(t: Tree, dir: Place, a: Seq<FileNameProps>, k: int, mp: int, cum: bool)
        requires line(t, dir, a, mp, cum), 0 < k <= a.len(),
        ensures line(t, dir, a.take(k), mp, cum),
    {
        reveal(linked);
        let b = a.take(k);
        assert forall|i: int| #![trigger b[i]] 0 < i < b.len() implies needs(b[i], mp, cum) == Some(b[i - 1].key()) by { assert(b[i] == a[i] && b[i - 1] == a[i - 1]); }
        assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies phases(b[i], mp) && there(t, dir, b[i]) by { assert(b[i] == a[i]); }
        assert(b[0] == a[0]);
    }
    /// a file is read from one line only
    pub proof fn one_line(t: Tree, dir: Place, a: Seq<FileNameProps>, b: Seq<FileNameProps>, mp: int, cum: bool)
        requires line(t, dir, a, mp, cum), line(t, dir, b, mp, cum), folder(t, dir, mp), a.last() == b.last(),
        ensures a == b,
        decreases a.len(),
    {
        let n = a.len() as int;
        let m = b.len() as int;
        link(a, n - 1, mp, cum);
        link(b, m - 1, mp, cum);
        link(a, 0, mp, cum);
        link(b, 0, mp, cum);
        if n > 1 && m > 1 {
            let (x, y) = (a.drop_last(), b.drop_last());
            assert(x =~= a.take(n - 1) && y =~= b.take(m - 1));
            shorter(t, dir, a, n - 1, mp, cum);
            shorter(t, dir, b, m - 1, mp, cum);
            assert(a[n - 2].key() == b[m - 2].key());
            assert(there(t, dir, a[n - 2]) && there(t, dir, b[m - 2]));
            assert(x.last() == a[n - 2] && y.last() == b[m - 2]);
            one_line(t, dir, x, y, mp, cum);
            assert(a =~= x.push(a.last()) && b =~= y.push(b.last()));
        } else {
            assert(a[n - 1] == b[m - 1]);
            assert(a =~= b);
        }
    }
    /// the cache fits the files of a line
    pub proof fn line_fits(c: Cached, t: Tree, dir: Place, s: State, a: Seq<FileNameProps>, mp: int, cum: bool)
        requires cache_ok(c, t, dir, s, mp, cum), folder(t, dir, mp), a.len() == 0 || line(t, dir, a, mp, cum), mp >= 0,
        ensures fits(c, t, s, places(dir, a), mp),
    {
        let ps = places(dir, a);
        assert forall|i: usize, k: int| #![trigger c[i], ps[k]] c.dom().contains(i) && 0 <= k < ps.len() && c[i].0@ == ps[k] implies
            i <= mp && (i < mp ==> k == i) && state(t, s, ps.take(k + 1)) == Some(c[i].1@) by {
            let b = choose|b: Seq<FileNameProps>| #[trigger] entry(c[i], i, t, dir, s, b, mp, cum);
            let q = b.last();
            link(b, b.len() - 1, mp, cum);
            assert(q == b[b.len() - 1]);
            assert(at(dir, q).last() == name(q) && at(dir, a[k]).last() == name(a[k]));
            names_apart(q, a[k]);
            shorter(t, dir, a, k + 1, mp, cum);
            one_line(t, dir, a.take(k + 1), b, mp, cum);
            assert(places(dir, a.take(k + 1)) =~= ps.take(k + 1));
            shape(b, b.len() - 1, mp, cum);
        }
    }
    /// files that are added change nothing about the others
    pub proof fn line_stays(t: Tree, u: Tree, dir: Place, s: State, a: Seq<FileNameProps>, r: State, p: Place, mp: int, cum: bool)
        requires gives(t, dir, s, a, r, mp, cum), only(t, u, p), !t.files.dom().contains(p),
        ensures gives(u, dir, s, a, r, mp, cum),
    {
        let ps = places(dir, a);
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies there(u, dir, a[i]) by { assert(there(t, dir, a[i])); }
        assert forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() implies same(t, u, ps[i]) by { assert(there(t, dir, a[i])); }
        unchanged(t, u, s, ps);
    }
    pub proof fn cache_stays(c: Cached, t: Tree, u: Tree, dir: Place, s: State, p: Place, mp: int, cum: bool)
        requires cache_ok(c, t, dir, s, mp, cum), only(t, u, p), !t.files.dom().contains(p),
        ensures cache_ok(c, u, dir, s, mp, cum),
    {
        assert forall|i: usize| #[trigger] c.dom().contains(i) implies exists|a: Seq<FileNameProps>| #[trigger] entry(c[i], i, u, dir, s, a, mp, cum) by {
            let a = choose|a: Seq<FileNameProps>| #[trigger] entry(c[i], i, t, dir, s, a, mp, cum);
            line_stays(t, u, dir, s, a, c[i].1@, p, mp, cum);
            assert(entry(c[i], i, u, dir, s, a, mp, cum));
        }
    }
    /// what applying the files of a line leaves in the cache
    pub proof fn cache_after(c: Cached, d: Cached, t: Tree, dir: Place, s: State, a: Seq<FileNameProps>, mp: int, cum: bool)
        requires
            cache_ok(c, t, dir, s, mp, cum), a.len() == 0 || line(t, dir, a, mp, cum), mp >= 0,
            advances(c, d, t, s, places(dir, a), mp),
        ensures cache_ok(d, t, dir, s, mp, cum),
    {
        assert forall|i: usize| #[trigger] d.dom().contains(i) implies exists|b: Seq<FileNameProps>| #[trigger] entry(d[i], i, t, dir, s, b, mp, cum) by {
            if c.dom().contains(i) && d[i] == c[i] {
                let b = choose|b: Seq<FileNameProps>| #[trigger] entry(c[i], i, t, dir, s, b, mp, cum);
                assert(entry(d[i], i, t, dir, s, b, mp, cum));
            } else {
                let b = a.take(i + 1);
                shorter(t, dir, a, i + 1, mp, cum);
                assert(places(dir, b) =~= places(dir, a).take(i + 1));
                shape(a, i as int, mp, cum);
                assert(b.last() == a[i as int]);
                assert(entry(d[i], i, t, dir, s, b, mp, cum));
            }
        }
    }
    pub proof fn less_than(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>)
        requires less(a, b), less(b, c),
        ensures less(a, c),
    {
        let x = a.len() < b.len() && a == b.take(a.len() as int);
        let y = b.len() < c.len() && b == c.take(b.len() as int);
        let j = if x { a.len() as int } else { choose|k: int| 0 <= k < a.len() && k < b.len() && #[trigger] a[k] < b[k] && a.take(k) == b.take(k) };
        let k = if y { b.len() as int } else { choose|k: int| 0 <= k < b.len() && k < c.len() && #[trigger] b[k] < c[k] && b.take(k) == c.take(k) };
        // where a differs from b, and b from c
        assert forall|i: int| 0 <= i < j implies #[trigger] a[i] == b[i] by { assert(a.take(j)[i] == b.take(j)[i]); assert(a.take(a.len() as int) =~= a); }
        assert forall|i: int| 0 <= i < k implies #[trigger] b[i] == c[i] by { assert(b.take(k)[i] == c.take(k)[i]); assert(b.take(b.len() as int) =~= b); }
        let m = if j < k { j } else { k };
        assert forall|i: int| 0 <= i < m implies #[trigger] a[i] == c[i] by { assert(a[i] == b[i] && b[i] == c[i]); }
        assert(a.take(m) =~= c.take(m));
        if x && j <= k {
            assert(a =~= a.take(m));
            assert(a.len() < c.len());
        } else {
            if j < k { assert(a[m] < b[m] && b[m] == c[m]); } else if k < j { assert(a[m] == b[m] && b[m] < c[m]); } else { assert(a[m] < b[m] && b[m] < c[m]); }
            assert(a[m] < c[m]);
        }
    }
    pub proof fn not_before(a: Seq<u32>, b: Seq<u32>)
        requires less(a, b),
        ensures a != b, !less(b, a),
    {
        if less(b, a) || a == b {
            if a.len() < b.len() && a == b.take(a.len() as int) {
                if b.len() < a.len() && b == a.take(b.len() as int) {}
                else if a != b {
                    let k = choose|k: int| 0 <= k < b.len() && k < a.len() && #[trigger] b[k] < a[k] && b.take(k) == a.take(k);
                    assert(a[k] == b.take(a.len() as int)[k]);
                }
            } else {
                let k = choose|k: int| 0 <= k < a.len() && k < b.len() && #[trigger] a[k] < b[k] && a.take(k) == b.take(k);
                if b.len() < a.len() && b == a.take(b.len() as int) { assert(b[k] == a.take(b.len() as int)[k]); }
                else if a != b {
                    let j = choose|j: int| 0 <= j < b.len() && j < a.len() && #[trigger] b[j] < a[j] && b.take(j) == a.take(j);
                    if j < k { assert(a.take(k)[j] == b.take(k)[j]); }
                    if k < j { assert(b.take(j)[k] == a.take(j)[k]); }
                }
            }
        }
    }
//@ fn dochy_fs/src/imp/history/fs/write_phase_file.rs write_phase_file -> r
//@ sub std::fs::File::create => File::create
//@ sub dochy_compaction::enc_dec::encode::encode => encode
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass File::create Tracked(&mut *disk)
//@ pass encode Tracked(&mut *disk)
//@ pass .write_all Tracked(&mut *disk)
        ensures
            only(old(disk)@, final(disk)@, file_path@),
            r is Ok ==> {
                let f = final(disk)@.files;
                f.dom().contains(file_path@) && told(lead(f[file_path@])) == data.n() && after(f[file_path@]) == vec@
            },
//@ end

//@ fn dochy_fs/src/imp/history/file_hist/ancestors.rs calc_ancestors_paths -> r
//@ sub (\w+)\.iter\(\)\.map\(\|&(\w+)\|\s*(.*)\)\.collect\(\) => let mut out_: Vec<PathBuf> = Vec::new(); for \2 in \1.iter() { out_.push(\3); } out_
        ensures spots(r@) == places(history_dir@, values(ancestors@)),
//@ loops for
//@ iter 0 it
//@ loop 0
            invariant
                it.seq().len() == ancestors@.len(),
                forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == ancestors@[j],
                out_@.len() == it.index@,
                forall|j: int| 0 <= j < out_@.len() ==> (#[trigger] out_@[j])@ == at(history_dir@, *ancestors@[j]),
//@ post 0
        proof { assert(spots(out_@) =~= places(history_dir@, values(ancestors@))); }
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/ancestors.rs create_ancestors_paths -> r
//@ sub rev\.reverse\(\) => reverse_(&mut rev)
        requires
            history.wf(),
            phases(*props, max_phase as int),
            max_phase < usize::MAX,
        ensures
            r is Ok ==> exists|a: Seq<FileNameProps>| #[trigger] is_line(*history, *props, a, max_phase as int, cumulative) && spots(r->Ok_0@) == places(history_dir@, a),
//@ start
        proof { assert forall|v: Seq<&FileNameProps>| values(#[trigger] v.reverse()).reverse() == values(v) by { assert(values(v.reverse()).reverse() =~= values(v)); } }
//@ before Ok\(calc
        proof { assert(is_line(*history, *props, values(rev@), max_phase as int, cumulative)); }
//@ end
    /// a line that was listed is a line
    pub proof fn listed_line(h: FileHistory, t: Tree, dir: Place, p: FileNameProps, a: Seq<FileNameProps>, mp: int, cum: bool)
        requires within(h, t, dir), is_line(h, p, a, mp, cum), phases(p, mp), there(t, dir, p),
        ensures line(t, dir, a, mp, cum), a.last() == p,
    {
        lines(h, p, a, mp, cum);
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies there(t, dir, a[i]) by { listed_part(h, t, dir, p, a, i, mp, cum); }
    }
    /// a new file with numbers of its own, upon a line
    pub proof fn line_grows(t: Tree, u: Tree, dir: Place, s: State, a: Seq<FileNameProps>, q: FileNameProps, mp: int, cum: bool)
        requires
            a.len() == 0 || line(t, dir, a, mp, cum),
            a.len() == 0 ==> needs(q, mp, cum) is None,
            a.len() > 0 ==> needs(q, mp, cum) == Some(a.last().key()),
            phases(q, mp), nameable(q),
            !t.files.dom().contains(at(dir, q)),
            only(t, u, at(dir, q)),
            u.files.dom().contains(at(dir, q)),
            state(t, s, places(dir, a)) is Some,
        ensures
            line(u, dir, a.push(q), mp, cum),
            state(u, s, places(dir, a.push(q))) == Some(applied(state(t, s, places(dir, a))->0, after(u.files[at(dir, q)]))),
    {
        reveal(linked);
        let b = a.push(q);
        assert forall|i: int| #![trigger b[i]] 0 < i < b.len() implies needs(b[i], mp, cum) == Some(b[i - 1].key()) by {
            if i < a.len() { assert(b[i] == a[i] && b[i - 1] == a[i - 1]); } else { assert(b[i - 1] == a.last()); }
        }
        assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies phases(b[i], mp) && there(u, dir, b[i]) by {
            if i < a.len() { assert(b[i] == a[i]); assert(there(t, dir, a[i])); }
        }
        if a.len() > 0 { assert(b[0] == a[0]); }
        let ps = places(dir, a);
        assert forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() implies same(t, u, ps[i]) by { assert(there(t, dir, a[i])); }
        unchanged(t, u, s, ps);
        assert(places(dir, b) =~= ps.push(at(dir, q)));
        assert(places(dir, b).drop_last() =~= ps);
    }
    /// the folder with a new file
    pub proof fn folder_grows(t: Tree, u: Tree, dir: Place, q: FileNameProps, mp: int)
        requires
            folder(t, dir, mp), nameable(q), phases(q, mp), only(t, u, at(dir, q)), u.files.dom().contains(at(dir, q)),
            told(lead(u.files[at(dir, q)])) == q.order@.len(),
            forall|p: FileNameProps| #[trigger] there(t, dir, p) ==> p.key() != q.key(),
        ensures folder(u, dir, mp), !t.files.dom().contains(at(dir, q)),
    {
        assert(!there(t, dir, q));
        assert forall|p: FileNameProps| #[trigger] there(u, dir, p) implies p == q || there(t, dir, p) && p.key() != q.key() && same(t, u, at(dir, p)) by {
            if at(dir, p) == at(dir, q) {
                assert(at(dir, p).last() == name(p) && at(dir, q).last() == name(q));
                names_apart(p, q);
            } else { assert(same(t, u, at(dir, p))); }
        }
        assert forall|p: FileNameProps, r: FileNameProps| #[trigger] there(u, dir, p) && #[trigger] there(u, dir, r) && p.key() == r.key() implies p == r by {
            if p != q && r != q { assert(there(t, dir, p) && there(t, dir, r)); }
        }
    }
    /// the new file may be cached
    pub proof fn cache_grows(c: Cached, d: Cached, t: Tree, dir: Place, s: State, a: Seq<FileNameProps>, i0: usize, e: (PathBuf, RootObject), mp: int, cum: bool)
        requires
            cache_ok(c, t, dir, s, mp, cum), entry(e, i0, t, dir, s, a, mp, cum),
            forall|i: usize| #[trigger] d.dom().contains(i) ==> i == i0 || c.dom().contains(i),
            forall|i: usize| #[trigger] d.dom().contains(i) ==> d[i] == (if i == i0 { e } else { c[i] }),
        ensures cache_ok(d, t, dir, s, mp, cum),
    {
        assert forall|i: usize| #[trigger] d.dom().contains(i) implies exists|b: Seq<FileNameProps>| #[trigger] entry(d[i], i, t, dir, s, b, mp, cum) by {
            if i == i0 { assert(entry(d[i], i, t, dir, s, a, mp, cum)); }
            else {
                let b = choose|b: Seq<FileNameProps>| #[trigger] entry(c[i], i, t, dir, s, b, mp, cum);
                assert(entry(d[i], i, t, dir, s, b, mp, cum));
            }
        }
    }
    /// there is room for another number
    pub open spec fn room(t: Tree, dir: Place) -> bool {
        forall|p: FileNameProps| #[trigger] there(t, dir, p) ==> p.control < u32::MAX && forall|i: int| 0 <= i < p.order@.len() ==> #[trigger] p.order@[i] < u32::MAX
    }
    /// it comes after all files that are there
    pub open spec fn latest(t: Tree, dir: Place, q: FileNameProps) -> bool {
        forall|p: FileNameProps| #[trigger] there(t, dir, p) ==> before(p.key(), q.key())
    }
    /// what a save leaves: one more file, the newest, which gives what was saved; all others and what is cached as before
    pub open spec fn saved(t: Tree, u: Tree, c: Cached, dir: Place, s: State, q: FileNameProps, r: State, mp: int, cum: bool) -> bool {
        &&& !there(t, dir, q)
        &&& latest(t, dir, q)
        &&& only(t, u, at(dir, q))
        &&& folder(u, dir, mp)
        &&& cache_ok(c, u, dir, s, mp, cum)
        &&& exists|a: Seq<FileNameProps>| #[trigger] gives(u, dir, s, a, r, mp, cum) && a.last() == q
    }
    /// what a failed save leaves: everything that was there as it was
    pub open spec fn kept_all(t: Tree, u: Tree, c: Cached, dir: Place, s: State, mp: int, cum: bool) -> bool {
        &&& forall|p: FileNameProps| #[trigger] there(t, dir, p) ==> same(t, u, at(dir, p))
        &&& cache_ok(c, u, dir, s, mp, cum)
    }

//@ fn dochy_fs/src/imp/history/fs/derive_impl.rs derive_impl -> r
//@ sub (?s)<\s*V : DiffValue,.*?>(?=\(tag) => <C: Cache, P: AsPath>
//@ sub &S\b => &RootObject
//@ sub \bOp\b => HistoryOptions
//@ sub? \bnp == from\b => same_file(np, from)
//@ sub std::fs::File::open => File::open
//@ sub dochy_compaction::enc_dec::decode::decode => decode
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass File::open Tracked(&*disk)
//@ pass cache.apply_items_for_save Tracked(&*disk)
//@ pass write_phase_file Tracked(&mut *disk)
        requires
            folder(old(disk)@, history_hash_dir.place(), opt.max_phase as int),
            room(old(disk)@, history_hash_dir.place()),
            listed(*history, old(disk)@, history_hash_dir.place()),
            cache_ok(old(cache).table(), old(disk)@, history_hash_dir.place(), old(cache).start(), opt.max_phase as int, opt.cumulative is Some),
            nameable(*from),
            tag_ok(tag_of(tag)),
            opt.max_phase < usize::MAX,
            !opt.mt_save,
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            r is Ok ==> saved(old(disk)@, final(disk)@, final(cache).table(), history_hash_dir.place(), old(cache).start(), r->Ok_0, diff_src@, opt.max_phase as int, opt.cumulative is Some),
            r is Err ==> kept_all(old(disk)@, final(disk)@, final(cache).table(), history_hash_dir.place(), old(cache).start(), opt.max_phase as int, opt.cumulative is Some),
//@ start
        let ghost t = disk@;
        let ghost dir = history_hash_dir.place();
        let ghost mp = opt.max_phase as int;
        let ghost cum = opt.cumulative is Some;
        let ghost s = cache.start();
        let ghost c0 = cache.table();
//@ after let mut file = .*;
        proof { assert(there(t, dir, *from)); }
//@ before let \(ancestors
        proof { listed_line(*history, t, dir, *from, values(ancestors1@), mp, cum); link(values(ancestors1@), 0, mp, cum); assert(values(ancestors1@).last() == *ancestors1@.last()); }
//@ before let paths
        let ghost a = values(ancestors@);
        let ghost q = next_props;
        proof {
            let a1 = values(ancestors1@);
            assert(a =~= a1.take(a.len() as int));
            if a.len() > 0 { shorter(t, dir, a1, a.len() as int, mp, cum); assert(a.last() == *ancestors@.last()); }
            line_fits(c0, t, dir, s, a, mp, cum);
            // its numbers are new
            assert(less(from.order@, q.order@));
            not_before(from.order@, q.order@);
            assert forall|p: FileNameProps| #[trigger] there(t, dir, p) implies before(p.key(), q.key()) by {
                assert(history.look(p.key()) == Some(p));
                if p.key() != np.key() && np.key() == from.key() && p.control == np.control { less_than(p.order@, from.order@, q.order@); }
            }
            assert(!there(t, dir, q));
        }
//@ before let composed
        proof {
            assert(spots(paths@) == places(dir, a));
            assert forall|d: Cached| #[trigger] advances(c0, d, t, s, places(dir, a), mp) implies cache_ok(d, t, dir, s, mp, cum) by { cache_after(c0, d, t, dir, s, a, mp, cum); }
        }
//@ before let diff
        let ghost c1 = cache.table();
//@ before write_phase_file
        proof {
            assert(next_file_path@ == at(dir, q));
            // whether or not it is written
            assert forall|u: Tree| #[trigger] only(t, u, at(dir, q)) implies cache_ok(c1, u, dir, s, mp, cum) by { cache_stays(c1, t, u, dir, s, at(dir, q), mp, cum); }
            assert forall|u: Tree, p: FileNameProps| #[trigger] only(t, u, at(dir, q)) && #[trigger] there(t, dir, p) implies same(t, u, at(dir, p)) by {
                assert(at(dir, p) != at(dir, q));
            }
        }
//@ before cache\.set_cache
        let ghost u = disk@;
        proof {
            folder_grows(t, u, dir, q, mp);
            line_grows(t, u, dir, s, a, q, mp, cum);
            assert(a.push(q).last() == q);
            assert(gives(u, dir, s, a.push(q), diff_src@, mp, cum));
        }
//@ after cache\.set_cache\(.*\)\?;
        proof {
            let d = cache.table();
            assert(entry(d[next_phase], next_phase, u, dir, s, a.push(q), mp, cum));
            cache_grows(c1, d, u, dir, s, a.push(q), next_phase, d[next_phase], mp, cum);
        }
//@ end

    // TRUSTED: tag.as_ref().map(|s| s.as_str()) is the tag
//@ fn dochy_fs/src/imp/history/fs/write_phase_0.rs write_phase_0 -> r
//@ sub (?s)<\s*V : DiffValue,.*?>(?=\(\s*tag) => <C: Cache>
//@ sub &S\b => &RootObject
//@ sub tag\.as_ref\(\)\.map\(\|s\|\s*s\.as_str\(\)\) => &tag
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass cache.apply_items_for_save Tracked(&*disk)
//@ pass write_phase_file Tracked(&mut *disk)
        requires
            folder(old(disk)@, history_hash_dir@, op.max_phase as int),
            cache_ok(old(cache).table(), old(disk)@, history_hash_dir@, old(cache).start(), op.max_phase as int, op.cumulative is Some),
            // the number is new
            forall|p: FileNameProps| #[trigger] there(old(disk)@, history_hash_dir@, p) ==> p.control < control,
            tag_ok(tag_of(tag)),
            !op.mt_save,
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            r is Ok ==> saved(old(disk)@, final(disk)@, final(cache).table(), history_hash_dir@, old(cache).start(), r->Ok_0, diff_src@, op.max_phase as int, op.cumulative is Some),
            r is Ok ==> r->Ok_0.control == control && r->Ok_0.order@ == seq![0u32],
//@ start
        let ghost t = disk@;
        let ghost dir = history_hash_dir@;
        let ghost mp = op.max_phase as int;
        let ghost cum = op.cumulative is Some;
        let ghost s = cache.start();
        let ghost c0 = cache.table();
        let ghost tg = tag_of(tag);
        let ghost a = Seq::<FileNameProps>::empty();
        proof {
            assert(places(dir, a) =~= Seq::<Place>::empty());
            assert(spots(Seq::<PathBuf>::empty()) =~= Seq::<Place>::empty());
            line_fits(c0, t, dir, s, a, mp, cum);
            assert forall|d: Cached| #[trigger] advances(c0, d, t, s, places(dir, a), mp) implies cache_ok(d, t, dir, s, mp, cum) by { cache_after(c0, d, t, dir, s, a, mp, cum); }
        }
//@ before let diff
        let ghost c1 = cache.table();
//@ after cache\.set_cache\(.*\)\?;
        let ghost u = disk@;
        proof {
            assert([0u32]@ =~= seq![0u32]);
            assert forall|q: FileNameProps| nameable(q) && #[trigger] name(q) == file_name@ implies
                q.control == control && q.order@ == seq![0u32] && saved(t, u, cache.table(), dir, s, q, diff_src@, mp, cum) by {
                names_tell(tag_of(q.tag), q.control, q.prev_ctl, q.order@, tg, control, control, seq![0u32]);
                assert forall|p: FileNameProps| #[trigger] there(t, dir, p) implies p.key() != q.key() by {}
                folder_grows(t, u, dir, q, mp);
                line_grows(t, u, dir, s, a, q, mp, cum);
                assert(a.push(q).last() == q);
                assert(gives(u, dir, s, a.push(q), diff_src@, mp, cum));
                let d = cache.table();
                cache_stays(c1, t, u, dir, s, at(dir, q), mp, cum);
                assert(entry(d[0], 0, u, dir, s, a.push(q), mp, cum));
                cache_grows(c1, d, u, dir, s, a.push(q), 0, d[0], mp, cum);
            }
        }
//@ end
//@ fn dochy_fs/src/imp/history/fs/first.rs first -> r
//@ sub (?s)<\s*V : DiffValue,.*?>(?=\(\s*tag) => <C: Cache>
//@ sub &S\b => &RootObject
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass write_phase_0 Tracked(&mut *disk)
        requires
            folder(old(disk)@, history_hash_dir@, op.max_phase as int),
            cache_ok(old(cache).table(), old(disk)@, history_hash_dir@, old(cache).start(), op.max_phase as int, op.cumulative is Some),
            forall|p: FileNameProps| !#[trigger] there(old(disk)@, history_hash_dir@, p),
            tag_ok(tag_of(tag)),
            !op.mt_save,
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            r is Ok ==> saved(old(disk)@, final(disk)@, final(cache).table(), history_hash_dir@, old(cache).start(), r->Ok_0, diff_src@, op.max_phase as int, op.cumulative is Some),
//@ end
//@ fn dochy_fs/src/imp/history/fs/start_new.rs start_new_impl -> r
//@ sub (?s)<\s*V : DiffValue,.*?>(?=\(\s*tag) => <C: Cache>
//@ sub &S\b => &RootObject
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass write_phase_0 Tracked(&mut *disk)
//@ pass first Tracked(&mut *disk)
        requires
            folder(old(disk)@, history_hash_dir@, op.max_phase as int),
            room(old(disk)@, history_hash_dir@),
            listed(*history, old(disk)@, history_hash_dir@),
            cache_ok(old(cache).table(), old(disk)@, history_hash_dir@, old(cache).start(), op.max_phase as int, op.cumulative is Some),
            tag_ok(tag_of(tag)),
            !op.mt_save,
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            r is Ok ==> saved(old(disk)@, final(disk)@, final(cache).table(), history_hash_dir@, old(cache).start(), r->Ok_0, diff_src@, op.max_phase as int, op.cumulative is Some),
//@ start
        proof {
            assert forall|p: FileNameProps| #[trigger] there(disk@, history_hash_dir@, p) implies history.look(p.key()) == Some(p) && p.key().ctl == p.control by {}
        }
//@ end

//@ fn dochy_fs/src/imp/history/fs/load.rs load -> r
//@ sub (?s)<\s*V : DiffValue,.*?>(?=\(\s*diff_file_path) => <C: Cache, P: AsPath>
//@ sub \bOp\b => &HistoryOptions
//@ sub \bS\b => RootObject
//@ sub \.ok_or_else\(\|\|\s*(format!\([^()]*\))\) => .ok_or(\1)
//@ sub path\.file_name\(\) => path.file_name_text()
//@ sub \.to_string_lossy\(\)\.to_string\(\) =>
//@ param Tracked(disk): Tracked<&Disk>, Ghost(cdir): Ghost<Place>
//@ pass cache.apply_items_for_load Tracked(disk)
        requires
            folder(disk@, diff_file_path.place().drop_last(), opt.max_phase as int),
            within(*history, disk@, diff_file_path.place().drop_last()),
            disk@.files.dom().contains(diff_file_path.place()),
            opt.max_phase < usize::MAX,
            // the files are those of the cache, or lie in another folder
            cache_ok(old(cache).table(), disk@, cdir, old(cache).start(), opt.max_phase as int, opt.cumulative is Some),
            cdir == diff_file_path.place().drop_last() ==> root@ == old(cache).start(),
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            final(cache).table() == old(cache).table(),
            r is Ok ==> exists|a: Seq<FileNameProps>| #[trigger] gives(disk@, diff_file_path.place().drop_last(), root@, a, r->Ok_0@, opt.max_phase as int, opt.cumulative is Some)
                && at(diff_file_path.place().drop_last(), a.last()) == diff_file_path.place(),
//@ start
        let ghost t = disk@;
        let ghost mp = opt.max_phase as int;
        let ghost cum = opt.cumulative is Some;
        let ghost s = root@;
//@ before let paths
        let ghost dir = dir_path@;
        proof {
            assert(at(dir, analyzed) =~= path@);
            assert(there(t, dir, analyzed));
        }
//@ after let paths = .*;
        let ghost a = choose|a: Seq<FileNameProps>| #[trigger] is_line(*history, analyzed, a, mp, cum) && spots(paths@) == places(dir, a);
        proof {
            listed_line(*history, t, dir, analyzed, a, mp, cum);
            if cdir == dir { line_fits(cache.table(), t, dir, s, a, mp, cum); }
            else {
                let c = cache.table();
                let ps = places(dir, a);
                assert forall|i: usize, k: int| #![trigger c[i], ps[k]] c.dom().contains(i) && 0 <= k < ps.len() implies c[i].0@ != ps[k] by {
                    let b = choose|b: Seq<FileNameProps>| #[trigger] entry(c[i], i, t, cdir, cache.start(), b, mp, cum);
                    assert(at(cdir, b.last()).drop_last() =~= cdir);
                    assert(at(dir, a[k]).drop_last() =~= dir);
                }
                assert(fits(c, t, s, ps, mp));
            }
            assert forall|x: RootObject| state(t, s, places(dir, a)) == Some(#[trigger] x@) implies gives(t, dir, s, a, x@, mp, cum) by {}
        }
//@ end

    // TRUSTED: reading a folder shows the files that are there (what isn't a file has no name like that of a history file)
    #[verifier::external_body]
    pub struct DirEntry { x: u8 }
    #[verifier::external_body]
    pub struct OsName { x: u8 }
    #[verifier::external_body]
    pub struct ReadDir { x: u8 }
    impl DirEntry {
        /// None: not a text
        pub uninterp spec fn called(&self) -> Option<Name>;
        #[verifier::external_body]
        pub fn file_name(&self) -> (r: OsName) ensures r.text() == self.called() { unimplemented!() }
    }
    impl OsName {
        pub uninterp spec fn text(&self) -> Option<Name>;
        #[verifier::external_body]
        pub fn to_str(&self) -> (r: Option<&String>) ensures r is Some == self.text() is Some, r is Some ==> r->0@ == self.text()->0 { unimplemented!() }
    }
    impl ReadDir {
        pub uninterp spec fn rest(&self) -> Seq<FsResult<DirEntry>>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<FsResult<DirEntry>>)
            ensures
                old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
                old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
        { unimplemented!() }
    }
    pub open spec fn shows(rest: Seq<FsResult<DirEntry>>, n: Name) -> bool { exists|i: int| 0 <= i < rest.len() && ((#[trigger] rest[i]) is Ok ==> rest[i]->Ok_0.called() == Some(n)) }
    #[verifier::external_body]
    pub fn read_dir(p: &Path, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<ReadDir>)
        ensures
            r is Ok ==> forall|i: int, q: FileNameProps| 0 <= i < r->Ok_0.rest().len() && (#[trigger] r->Ok_0.rest()[i]) is Ok && nameable(q) && r->Ok_0.rest()[i]->Ok_0.called() == Some(#[trigger] name(q)) ==> there(disk@, p@, q),
            r is Ok ==> forall|n: Name| disk@.files.dom().contains(#[trigger] p@.push(n)) ==> shows(r->Ok_0.rest(), n),
    { unimplemented!() }
    /// every file is in the list or still ahead
    pub open spec fn coming(h: FileHistory, rest: Seq<FsResult<DirEntry>>, t: Tree, dir: Place) -> bool {
        &&& forall|p: FileNameProps| #[trigger] there(t, dir, p) ==> h.look(p.key()) == Some(p) || shows(rest, name(p))
        &&& forall|i: int, q: FileNameProps| 0 <= i < rest.len() && (#[trigger] rest[i]) is Ok && nameable(q) && rest[i]->Ok_0.called() == Some(#[trigger] name(q)) ==> there(t, dir, q)
    }
    pub proof fn one_shown(h: FileHistory, rest: Seq<FsResult<DirEntry>>, t: Tree, dir: Place)
        requires coming(h, rest, t, dir), rest.len() > 0, rest[0] is Ok, forall|p: FileNameProps| nameable(p) ==> rest[0]->Ok_0.called() != Some(#[trigger] name(p)),
        ensures coming(h, rest.skip(1), t, dir),
    {
        assert forall|p: FileNameProps| #[trigger] there(t, dir, p) implies h.look(p.key()) == Some(p) || shows(rest.skip(1), name(p)) by {
            if h.look(p.key()) != Some(p) {
                let i = choose|i: int| 0 <= i < rest.len() && ((#[trigger] rest[i]) is Ok ==> rest[i]->Ok_0.called() == Some(name(p)));
                assert(i > 0);
                assert(rest.skip(1)[i - 1] == rest[i]);
            }
        }
        assert forall|i: int, q: FileNameProps| 0 <= i < rest.skip(1).len() && (#[trigger] rest.skip(1)[i]) is Ok && nameable(q) && rest.skip(1)[i]->Ok_0.called() == Some(#[trigger] name(q)) implies there(t, dir, q) by { assert(rest.skip(1)[i] == rest[i + 1]); }
    }
    pub proof fn one_added(h: FileHistory, g: FileHistory, rest: Seq<FsResult<DirEntry>>, t: Tree, dir: Place, q: FileNameProps, mp: int)
        requires
            coming(h, rest, t, dir), rest.len() > 0, rest[0] is Ok, nameable(q), rest[0]->Ok_0.called() == Some(name(q)), folder(t, dir, mp),
            forall|k: Key| #[trigger] g.look(k) == (if k == q.key() { Some(q) } else { h.look(k) }),
        ensures coming(g, rest.skip(1), t, dir), there(t, dir, q),
    {
        assert forall|p: FileNameProps| #[trigger] there(t, dir, p) implies g.look(p.key()) == Some(p) || shows(rest.skip(1), name(p)) by {
            if h.look(p.key()) != Some(p) {
                let i = choose|i: int| 0 <= i < rest.len() && ((#[trigger] rest[i]) is Ok ==> rest[i]->Ok_0.called() == Some(name(p)));
                if i > 0 { assert(rest.skip(1)[i - 1] == rest[i]); } else { names_apart(p, q); }
            }
        }
        assert forall|i: int, q: FileNameProps| 0 <= i < rest.skip(1).len() && (#[trigger] rest.skip(1)[i]) is Ok && nameable(q) && rest.skip(1)[i]->Ok_0.called() == Some(#[trigger] name(q)) implies there(t, dir, q) by { assert(rest.skip(1)[i] == rest[i + 1]); }
    }
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/file_hist/create_file_history.rs create_file_history -> r
//@ sub std::fs::read_dir => read_dir
//@ sub (\w+)\.to_str\(\)\.and_then\(\|(\w+)\|\s*(analyze_file_name\(.*?\)\))\) => (match \1.to_str() { Some(\2) => \3, None => None })
//@ param Tracked(disk): Tracked<&Disk>
//@ pass read_dir Tracked(disk)
//@ next 0 it
//@ loops while
        requires folder(disk@, history_hash_dir@, max_phase as int),
        ensures r is Ok ==> listed(r->Ok_0, disk@, history_hash_dir@),
//@ pre 0
        let ghost mut rest0 = it.rest();
        proof { assert(coming(history, it.rest(), disk@, history_hash_dir@)) by { assert forall|p: FileNameProps| #[trigger] there(disk@, history_hash_dir@, p) implies shows(it.rest(), name(p)) by { assert(disk@.files.dom().contains(history_hash_dir@.push(name(p)))); } } }
//@ loop 0
            invariant
                folder(disk@, history_hash_dir@, max_phase as int),
                coming(history, it.rest(), disk@, history_hash_dir@),
                within(history, disk@, history_hash_dir@),
                history.full(),
                it.rest() == rest0,
            ensures it.rest().len() == 0,
//@ in 0
            let ghost h0 = history;
//@ last 0
            proof {
                if exists|q: FileNameProps| nameable(q) && rest0[0]->Ok_0.called() == Some(#[trigger] name(q)) {
                    let q = choose|q: FileNameProps| nameable(q) && rest0[0]->Ok_0.called() == Some(#[trigger] name(q));
                    assert(forall|p: FileNameProps| nameable(p) && #[trigger] name(p) == name(q) ==> p == q) by { assert forall|p: FileNameProps| nameable(p) && #[trigger] name(p) == name(q) implies p == q by { names_apart(p, q); } }
                    one_added(h0, history, rest0, disk@, history_hash_dir@, q, max_phase as int);
                    assert forall|k: Key| (#[trigger] history.look(k)) is Some implies there(disk@, history_hash_dir@, history.look(k)->0) by { assert(k != q.key() ==> h0.look(k) == history.look(k)); }
                } else {
                    one_shown(h0, rest0, disk@, history_hash_dir@);
                }
                rest0 = it.rest();
            }
//@ end
//@ fn dochy_fs/src/imp/history/fs/start_new.rs start_new -> r
//@ sub (?s)<\s*V : DiffValue,.*?>(?=\(\s*tag) => <C: Cache>
//@ sub &S\b => &RootObject
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass create_file_history Tracked(&*disk)
//@ pass start_new_impl Tracked(&mut *disk)
        requires
            folder(old(disk)@, history_hash_dir@, op.max_phase as int),
            room(old(disk)@, history_hash_dir@),
            cache_ok(old(cache).table(), old(disk)@, history_hash_dir@, old(cache).start(), op.max_phase as int, op.cumulative is Some),
            tag_ok(tag_of(tag)),
            !op.mt_save,
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            r is Ok ==> saved(old(disk)@, final(disk)@, final(cache).table(), history_hash_dir@, old(cache).start(), r->Ok_0, diff_src@, op.max_phase as int, op.cumulative is Some),
//@ end

    // ASSUMED: units names and files (property 15): every hash has a folder of its own
    pub uninterp spec fn home_name(hash: u128) -> Name;
    pub axiom fn own_folder(g: u128, h: u128)
        requires home_name(g) == home_name(h),
        ensures g == h;
    pub open spec fn home(dir: Place, hash: u128) -> Place { dir.push(home_name(hash)) }
    #[verifier::external_body]
    pub fn hash_dir_path(dir: &Path, hash: u128) -> (r: PathBuf) ensures r@ == home(dir@, hash) { unimplemented!() }

//@ fn dochy_fs/src/imp/history/pub_fn/load_history_file.rs load_impl -> r
//@ sub AsRef<Path> => AsPath
//@ param Tracked(disk): Tracked<&Disk>
//@ pass cache.get_or_create_hash_root Tracked(disk)
//@ pass load Tracked(disk), Ghost(home(history_dir.place(), cache.hash))
        requires
            folder(disk@, home(history_dir.place(), hash), op.max_phase as int),
            within(*history, disk@, home(history_dir.place(), hash)),
            nameable(*props),
            op.max_phase < usize::MAX,
            old(cache).src_root@ == source_of(old(cache).hash),
            kept(disk@, history_dir.place()),
            cache_ok(old(cache).table(), disk@, home(history_dir.place(), old(cache).hash), old(cache).start(), op.max_phase as int, op.cumulative is Some),
            // the file is there
            there(disk@, home(history_dir.place(), hash), *props),
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            final(cache).table() == old(cache).table(),
            // what reading the file upon its own source gives, converted where that source is another one
            r is Ok ==> loads(disk@, home(history_dir.place(), hash), *props, source_of(hash), old(cache).start(), hash == old(cache).hash, r->Ok_0@, op.max_phase as int, op.cumulative is Some),
//@ start
        proof {
            let d = history_dir.place();
            assert(at(home(d, hash), *props).drop_last() =~= home(d, hash));
            assert(home(d, hash).last() == home_name(hash) && home(d, cache.hash).last() == home_name(cache.hash));
            if home(d, hash) == home(d, cache.hash) { own_folder(hash, cache.hash); }
            let dir = home(d, hash);
            let mp = op.max_phase as int;
            let cum = op.cumulative is Some;
            assert forall|s: State, a: Seq<FileNameProps>, x: State| #[trigger] gives(disk@, dir, s, a, x, mp, cum) && at(dir, a.last()) == at(dir, *props) implies a.last() == *props by {
                link(a, 0, mp, cum);
                assert(there(disk@, dir, a[a.len() - 1]));
                assert(at(dir, a.last()).last() == name(a.last()) && at(dir, *props).last() == name(*props));
                names_apart(a.last(), *props);
            }
        }
//@ end
    pub open spec fn loads(t: Tree, dir: Place, q: FileNameProps, s: State, current: State, same: bool, r: State, mp: int, cum: bool) -> bool {
        exists|a: Seq<FileNameProps>, x: State| #[trigger] gives(t, dir, s, a, x, mp, cum) && a.last() == q && (if same { r == x } else { converted(current, x, r) })
    }
    /// Whatever was saved is what loading gives
    pub proof fn loads_back(t: Tree, dir: Place, s: State, q: FileNameProps, a: Seq<FileNameProps>, r: State, x: State, mp: int, cum: bool)
        requires
            folder(t, dir, mp),
            gives(t, dir, s, a, r, mp, cum), a.last() == q,
            loads(t, dir, q, s, s, true, x, mp, cum),
        ensures x == r,
    {
        let b = choose|b: Seq<FileNameProps>| #[trigger] gives(t, dir, s, b, x, mp, cum) && b.last() == q;
        one_line(t, dir, a, b, mp, cum);
    }

    /// all history files are what they were
    pub open spec fn alike(t: Tree, u: Tree, dir: Place) -> bool { forall|p: FileNameProps| nameable(p) ==> same(t, u, #[trigger] at(dir, p)) }
    pub proof fn all_alike(t: Tree, u: Tree, dir: Place, c: Cached, s: State, mp: int, cum: bool)
        requires alike(t, u, dir), folder(t, dir, mp), room(t, dir), cache_ok(c, t, dir, s, mp, cum),
        ensures folder(u, dir, mp), room(u, dir), cache_ok(c, u, dir, s, mp, cum),
    {
        assert forall|p: FileNameProps| nameable(p) implies same(t, u, #[trigger] at(dir, p)) by {}
        assert forall|p: FileNameProps| #[trigger] there(u, dir, p) implies there(t, dir, p) && same(t, u, at(dir, p)) by { assert(same(t, u, at(dir, p))); }
        assert forall|i: usize| #[trigger] c.dom().contains(i) implies exists|a: Seq<FileNameProps>| #[trigger] entry(c[i], i, u, dir, s, a, mp, cum) by {
            let a = choose|a: Seq<FileNameProps>| #[trigger] entry(c[i], i, t, dir, s, a, mp, cum);
            let ps = places(dir, a);
            assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies there(u, dir, a[i]) by { assert(there(t, dir, a[i])); assert(same(t, u, at(dir, a[i]))); }
            assert forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() implies same(t, u, ps[i]) by { assert(there(t, dir, a[i])); assert(ps[i] == at(dir, a[i])); }
            unchanged(t, u, s, ps);
            assert(entry(c[i], i, u, dir, s, a, mp, cum));
        }
    }
    // ASSUMED: unit files (property 19): making the folder writes the archive and the time into it, whose names are
    // not those of history files
    #[verifier::external_body]
    pub struct CurrentSrc { x: u8 }
    /// its kind and path
    pub uninterp spec fn key(c: CurrentSrc) -> int;
    impl CurrentSrc {
        #[verifier::external_body]
        pub fn clone(&self) -> (r: CurrentSrc) ensures key(r) == key(*self) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn prepare_hash_dir(dir: &Path, src: &CurrentSrc, hash: u128, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<PathBuf>)
        ensures
            r is Ok ==> r->Ok_0@ == home(dir@, hash),
            alike(old(disk)@, final(disk)@, home(dir@, hash)),
    { unimplemented!() }
    // TRUSTED: clones are equal, and identities are compared
    impl HistoryOptions {
        #[verifier::external_body]
        pub fn clone(&self) -> (r: HistoryOptions) ensures r == *self { unimplemented!() }
    }
    impl FileNameProps {
        #[verifier::external_body]
        pub fn clone(&self) -> (r: FileNameProps) ensures r == *self { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Weak<T> { x: std::marker::PhantomData<T> }
    impl<T> Weak<T> {
        #[verifier::external_body]
        pub fn ptr_eq(&self, o: &Weak<T>) -> (r: bool) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn copy_of(h: &Option<CurrentRootObjInfo>) -> (r: Option<CurrentRootObjInfo>) ensures r == *h { unimplemented!() }
    #[verifier::external_body]
    pub struct AtomicUsize { x: u8 }
//@ item dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs struct CurrentRootObjInfo
    impl CurrentRootObjInfo {
//@ fn dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs CurrentRootObjInfo::new -> r
            ensures r.current_root_id == current_root_id, r.current_base_file == current_base_file,
//@ end
//@ fn dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs CurrentRootObjInfo::current_root_id -> r
            ensures *r == self.current_root_id,
//@ end
//@ fn dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs CurrentRootObjInfo::current_base_file -> r
            ensures *r == self.current_base_file,
//@ end
    }
//@ item dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs struct PeekableCacheInfo
    impl PeekableCacheInfo {
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs PeekableCacheInfo::current_src -> r
            ensures *r == self.current_src,
//@ end
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs PeekableCacheInfo::history_options -> r
            ensures *r == self.history_options,
//@ end
    }
    /// an ancestor of a file is there, or is that file
    pub proof fn listed_part(h: FileHistory, t: Tree, dir: Place, p: FileNameProps, a: Seq<FileNameProps>, i: int, mp: int, cum: bool)
        requires within(h, t, dir), is_line(h, p, a, mp, cum), phases(p, mp), 0 <= i < a.len(),
        ensures a[i] == p || there(t, dir, a[i]),
    {
        lines(h, p, a, mp, cum);
        reveal(is_chain);
        let s = a.reverse();
        let k = a.len() - 1 - i;
        assert(s[k] == a[i]);
        if k > 0 { assert(h.look(needs(s[k - 1], mp, cum)->0) == Some(s[k - 1 + 1])); }
    }
    /// what saving leaves in the folder, and what is known about the object saved
    pub open spec fn save_done(t: Tree, u: Tree, c: Cached, dir: Place, s: State, q: FileNameProps, r: State, mp: int, cum: bool) -> bool {
        &&& !there(t, dir, q)
        &&& latest(t, dir, q)
        &&& forall|p: FileNameProps| #[trigger] there(t, dir, p) ==> same(t, u, at(dir, p))
        &&& folder(u, dir, mp)
        &&& cache_ok(c, u, dir, s, mp, cum)
        &&& exists|a: Seq<FileNameProps>| #[trigger] gives(u, dir, s, a, r, mp, cum) && a.last() == q
    }
    pub proof fn so_saved(t: Tree, v: Tree, u: Tree, c: Cached, dir: Place, s: State, q: FileNameProps, r: State, mp: int, cum: bool)
        requires alike(t, v, dir), saved(v, u, c, dir, s, q, r, mp, cum),
        ensures save_done(t, u, c, dir, s, q, r, mp, cum),
    {
        let a = choose|a: Seq<FileNameProps>| #[trigger] gives(u, dir, s, a, r, mp, cum) && a.last() == q;
        link(a, 0, mp, cum);
        assert(there(u, dir, a[a.len() - 1]));
        assert(same(t, v, at(dir, q)));
        assert forall|p: FileNameProps| #[trigger] there(t, dir, p) implies same(t, u, at(dir, p)) && before(p.key(), q.key()) by {
            assert(same(t, v, at(dir, p)));
            assert(there(v, dir, p));
            assert(at(dir, p).last() == name(p) && at(dir, q).last() == name(q));
            if at(dir, p) == at(dir, q) { names_apart(p, q); }
            assert(same(v, u, at(dir, p)));
        }
    }
    #[verifier::rlimit(40)]
//@ fn dochy_fs/src/imp/history/pub_fn/save_history_file.rs save_history_file_impl -> r
//@ sub history_info\s*:\s*&HistoryInfo => history_dir: &Path, p: &PeekableCacheInfo, cache: &mut DochyCache, h: &mut Option<CurrentRootObjInfo>
//@ sub let history_dir = history_info\.history_dir\(\); =>
//@ sub let mut mutex = get_mutex\(history_dir\)\.unwrap\(\); =>
//@ sub let p = mutex\.peekable\(\); =>
//@ sub let \(cache, h\) = mutex\.muts\(\); =>
//@ sub \bh\.clone\(\) => copy_of(h)
//@ sub info\.current_base_file\(\) != newest\b => !same_file(info.current_base_file(), newest)
//@ sub? \bnewest != info\.current_base_file\(\) => !same_file(info.current_base_file(), newest)
//@ sub \bfs_start_new\b => start_new
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass prepare_hash_dir Tracked(&mut *disk)
//@ pass create_file_history Tracked(&*disk)
//@ pass derive_impl Tracked(&mut *disk)
//@ pass start_new Tracked(&mut *disk)
        requires
            folder(old(disk)@, home(history_dir@, old(cache).hash), p.history_options.max_phase as int),
            room(old(disk)@, home(history_dir@, old(cache).hash)),
            cache_ok(old(cache).table(), old(disk)@, home(history_dir@, old(cache).hash), old(cache).start(), p.history_options.max_phase as int, p.history_options.cumulative is Some),
            *old(h) is Some ==> nameable(old(h)->0.current_base_file),
            tag_ok(tag_of(tag)),
            p.history_options.max_phase < usize::MAX,
            !p.history_options.mt_save,
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            r is Ok ==> save_done(old(disk)@, final(disk)@, final(cache).table(), home(history_dir@, old(cache).hash), old(cache).start(), r->Ok_0, root@, p.history_options.max_phase as int, p.history_options.cumulative is Some),
            r is Ok ==> *final(h) is Some && final(h)->0.current_base_file == r->Ok_0 && final(h)->0.current_root_id == root_id,
            r is Err ==> *final(h) == *old(h),
//@ start
        let ghost t = disk@;
        let ghost dir = home(history_dir@, cache.hash);
        let ghost mp = p.history_options.max_phase as int;
        let ghost cum = p.history_options.cumulative is Some;
        let ghost s = cache.start();
//@ after let history_hash_dir = .*;
        let ghost v = disk@;
        proof {
            all_alike(t, v, dir, cache.table(), s, mp, cum);
            assert forall|u: Tree, c: Cached, q: FileNameProps, r: State| #[trigger] saved(v, u, c, dir, s, q, r, mp, cum) implies save_done(t, u, c, dir, s, q, r, mp, cum) by { so_saved(t, v, u, c, dir, s, q, r, mp, cum); }
        }
//@ after let ancestors = .*;
        proof {
            let a = values(ancestors@);
            assert forall|i: int| 0 <= i < ancestors@.len() implies nameable(*#[trigger] ancestors@[i]) by { assert(a[i] == *ancestors@[i]); listed_part(history, v, dir, info.current_base_file, a, i, mp, cum); }
        }
//@ end

    // TRUSTED: an object has an identity
    pub uninterp spec fn identity(r: RootObject) -> Weak<()>;
    impl RootObject {
        #[verifier::external_body]
        pub fn id(&self) -> (r: Weak<()>) ensures r == identity(*self) { unimplemented!() }
    }
    impl PeekableCacheInfo {
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs PeekableCacheInfo::hash -> r
            ensures r == self.hash,
//@ end
    }
//@ fn dochy_fs/src/imp/history/pub_fn/load_history_file.rs load_history_file_with_hash -> r
//@ sub history_info\s*:\s*&HistoryInfo => history_dir: &Path, c: &PeekableCacheInfo, cache: &mut DochyCache, h: &mut Option<CurrentRootObjInfo>
//@ sub let mut guard = get_mutex\(history_info\.history_dir\(\)\)\.unwrap\(\); =>
//@ sub let c = guard\.peekable\(\); =>
//@ sub let \(cache,\s*h\) = guard\.muts\(\); =>
//@ sub history_info\.history_dir\(\) => history_dir
//@ param Tracked(disk): Tracked<&Disk>
//@ pass load_impl Tracked(disk)
        requires
            folder(disk@, home(history_dir@, hash), c.history_options.max_phase as int),
            within(*history, disk@, home(history_dir@, hash)),
            there(disk@, home(history_dir@, hash), *props),
            c.history_options.max_phase < usize::MAX,
            c.hash == old(cache).hash,
            old(cache).src_root@ == source_of(old(cache).hash),
            kept(disk@, history_dir@),
            cache_ok(old(cache).table(), disk@, home(history_dir@, old(cache).hash), old(cache).start(), c.history_options.max_phase as int, c.history_options.cumulative is Some),
        ensures
            final(cache).own() == old(cache).own(),
            final(cache).start() == old(cache).start(),
            final(cache).table() == old(cache).table(),
            r is Ok ==> loads(disk@, home(history_dir@, hash), *props, source_of(hash), old(cache).start(), hash == old(cache).hash, r->Ok_0@, c.history_options.max_phase as int, c.history_options.cumulative is Some),
            // the next save goes on from the file that was loaded, which a file of another source can't be
            r is Ok && hash == old(cache).hash ==> *final(h) is Some && final(h)->0.current_base_file == *props && final(h)->0.current_root_id == identity(r->Ok_0),
            r is Ok && hash != old(cache).hash ==> *final(h) is None,
            r is Err ==> *final(h) == *old(h),
//@ end
    impl FileHistory {
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::create -> r
//@ sub AsRef<Path> => AsPath
//@ param Tracked(disk): Tracked<&Disk>
//@ pass create_file_history Tracked(disk)
            requires folder(disk@, home(history_dir.place(), hash), max_phase as int),
            ensures r is Ok ==> listed(r->Ok_0, disk@, home(history_dir.place(), hash)),
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::newest_file_path -> r
//@ sub \|props\|\{ => |props: &FileNameProps| -> (x: PathBuf) ensures x@ == at(history_hash_dir@, *props) {
            requires self.wf(),
            ensures
                r is Some ==> exists|p: FileNameProps| self.newest(p.key()) && self.look(p.key()) == Some(p) && r->0@ == #[trigger] at(history_hash_dir@, p),
                r is None && self.full() ==> forall|k: Key| (#[trigger] self.look(k)) is None,
//@ end
    }
//@ item dochy_fs/src/imp/history/file_hist/history_file_data.rs struct HistoryFileData
    impl<'a> HistoryFileData<'a> {
//@ fn dochy_fs/src/imp/history/file_hist/history_file_data.rs HistoryFileData::new -> r
            ensures r.hash == hash, r.history == history, r.props == props,
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/history_file_data.rs HistoryFileData::hash -> r
            ensures r == self.hash,
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/history_file_data.rs HistoryFileData::history -> r
            ensures r == self.history,
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/history_file_data.rs HistoryFileData::props -> r
            ensures r == self.props,
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/history_file_data.rs HistoryFileData::calc_path -> r
//@ sub AsRef<Path> => AsPath
            ensures r@ == at(home(history_dir.place(), self.hash), *self.props),
//@ end
    }
//@ fn dochy_fs/src/imp/history/pub_fn/load_history_file.rs load_history_file_data -> r
//@ sub history_info\s*:\s*&HistoryInfo => history_dir: &Path, c: &PeekableCacheInfo, cache: &mut DochyCache, h: &mut Option<CurrentRootObjInfo>
//@ sub load_history_file_with_hash\(history_info, => load_history_file_with_hash(history_dir, c, cache, h,
//@ param Tracked(disk): Tracked<&Disk>
//@ pass load_history_file_with_hash Tracked(disk)
        requires
            folder(disk@, home(history_dir@, data.hash), c.history_options.max_phase as int),
            within(*data.history, disk@, home(history_dir@, data.hash)),
            there(disk@, home(history_dir@, data.hash), *data.props),
            c.history_options.max_phase < usize::MAX,
            c.hash == old(cache).hash,
            old(cache).src_root@ == source_of(old(cache).hash),
            kept(disk@, history_dir@),
            cache_ok(old(cache).table(), disk@, home(history_dir@, old(cache).hash), old(cache).start(), c.history_options.max_phase as int, c.history_options.cumulative is Some),
        ensures
            final(cache).own() == old(cache).own(),
            final(cache).start() == old(cache).start(),
            final(cache).table() == old(cache).table(),
            r is Ok ==> loads(disk@, home(history_dir@, data.hash), *data.props, source_of(data.hash), old(cache).start(), data.hash == old(cache).hash, r->Ok_0@, c.history_options.max_phase as int, c.history_options.cumulative is Some),
            // the next save goes on from the file that was loaded, which a file of another source can't be
            r is Ok && data.hash == old(cache).hash ==> *final(h) is Some && final(h)->0.current_base_file == *data.props && final(h)->0.current_root_id == identity(r->Ok_0),
            r is Ok && data.hash != old(cache).hash ==> *final(h) is None,
            r is Err ==> *final(h) == *old(h),
//@ end
//@ fn dochy_fs/src/imp/history/pub_fn/load_history_file.rs load_history_file -> r
//@ sub history_info\s*:\s*&HistoryInfo => history_dir: &Path, c: &PeekableCacheInfo, cache: &mut DochyCache, h: &mut Option<CurrentRootObjInfo>
//@ sub get_peekable_info\(history_info\) => c
//@ sub load_history_file_with_hash\(history_info, => load_history_file_with_hash(history_dir, c, cache, h,
//@ param Tracked(disk): Tracked<&Disk>
//@ pass load_history_file_with_hash Tracked(disk)
        requires
            folder(disk@, home(history_dir@, c.hash), c.history_options.max_phase as int),
            within(*history, disk@, home(history_dir@, c.hash)),
            there(disk@, home(history_dir@, c.hash), *props),
            c.history_options.max_phase < usize::MAX,
            c.hash == old(cache).hash,
            old(cache).src_root@ == source_of(old(cache).hash),
            kept(disk@, history_dir@),
            cache_ok(old(cache).table(), disk@, home(history_dir@, old(cache).hash), old(cache).start(), c.history_options.max_phase as int, c.history_options.cumulative is Some),
        ensures
            final(cache).own() == old(cache).own(),
            final(cache).start() == old(cache).start(),
            final(cache).table() == old(cache).table(),
            r is Ok ==> loads(disk@, home(history_dir@, c.hash), *props, source_of(c.hash), old(cache).start(), c.hash == old(cache).hash, r->Ok_0@, c.history_options.max_phase as int, c.history_options.cumulative is Some),
            // the next save goes on from the file that was loaded, which a file of another source can't be
            r is Ok && c.hash == old(cache).hash ==> *final(h) is Some && final(h)->0.current_base_file == *props && final(h)->0.current_root_id == identity(r->Ok_0),
            r is Ok && c.hash != old(cache).hash ==> *final(h) is None,
            r is Err ==> *final(h) == *old(h),
//@ end
//@ fn dochy_fs/src/imp/history/pub_fn/save_history_file.rs save_history_file -> r
//@ sub history_info\s*:\s*&HistoryInfo => history_dir: &Path, p: &PeekableCacheInfo, cache: &mut DochyCache, h: &mut Option<CurrentRootObjInfo>
//@ sub save_history_file_impl\(history_info, => save_history_file_impl(history_dir, p, cache, h,
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass save_history_file_impl Tracked(&mut *disk)
        requires
            folder(old(disk)@, home(history_dir@, old(cache).hash), p.history_options.max_phase as int),
            room(old(disk)@, home(history_dir@, old(cache).hash)),
            cache_ok(old(cache).table(), old(disk)@, home(history_dir@, old(cache).hash), old(cache).start(), p.history_options.max_phase as int, p.history_options.cumulative is Some),
            *old(h) is Some ==> nameable(old(h)->0.current_base_file),
            tag_ok(tag_of(tag)),
            p.history_options.max_phase < usize::MAX,
            !p.history_options.mt_save,
        ensures
            final(cache).start() == old(cache).start(),
            final(cache).own() == old(cache).own(),
            r is Ok ==> save_done(old(disk)@, final(disk)@, final(cache).table(), home(history_dir@, old(cache).hash), old(cache).start(), r->Ok_0, root@, p.history_options.max_phase as int, p.history_options.cumulative is Some),
            r is Ok ==> *final(h) is Some && final(h)->0.current_base_file == r->Ok_0 && final(h)->0.current_root_id == identity(*root),
            r is Err ==> *final(h) == *old(h),
//@ end

    // ------------------------------------------------------------------ how a history is taken up
    // The table of histories is handed through the functions as a parameter, where the program locks it.
    // TRUSTED: a mutex holds what was put into it; HashMap is a map, a history is found by its folder; sources and options are compared and cloned as a whole
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Mutex<T> { x: T }
    impl<T> Mutex<T> {
        /// what it was made with
        pub uninterp spec fn at_first(&self) -> T;
        #[verifier::external_body]
        pub fn new(v: T) -> (r: Self) ensures r.at_first() == v { unimplemented!() }
    }
    pub struct Box<T> { pub v: T }
    impl<T> Box<T> {
        pub fn new(v: T) -> (r: Self) ensures r.v == v { Box { v } }
        pub fn as_ref(&self) -> (r: &T) ensures *r == self.v { &self.v }
        // Deref
        pub fn peekable(&self) -> (r: &PeekableCacheInfo) where T: Peek ensures *r == self.v.peek() { self.v.peekable_() }
    }
    pub trait Peek {
        spec fn peek(&self) -> PeekableCacheInfo;
        fn peekable_(&self) -> (r: &PeekableCacheInfo) ensures *r == self.peek();
    }
    impl Peek for HistoryCacheItem {
        open spec fn peek(&self) -> PeekableCacheInfo { self.peekable }
        fn peekable_(&self) -> (r: &PeekableCacheInfo) { self.peekable() }
    }
    #[verifier::external_body]
    pub struct Histories { x: u8 }
    impl Histories {
        pub uninterp spec fn view(&self) -> Map<Place, Box<HistoryCacheItem>>;
        #[verifier::external_body]
        pub fn get(&self, k: &Path) -> (r: Option<&Box<HistoryCacheItem>>)
            ensures r is Some == self@.contains_key(k@), r is Some ==> *r->0 == self@[k@],
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: PathBuf, v: Box<HistoryCacheItem>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    }
    // the words of an error are left out
    #[verifier::external_body]
    pub fn words() -> String { unimplemented!() }
    #[verifier::external_body]
    pub fn same_source(a: &CurrentSrc, b: &CurrentSrc) -> (r: bool) ensures r == (key(*a) == key(*b)) { unimplemented!() }
    #[verifier::external_body]
    pub fn same_options(a: &HistoryOptions, b: &HistoryOptions) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
    impl AtomicUsize {
        #[verifier::external_body]
        pub fn new(n: usize) -> Self { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct FifoThread { x: u8 }
    impl FifoThread {
        #[verifier::external_body]
        pub fn new() -> Self { unimplemented!() }
    }
    // ASSUMED: unit files (property 19): what a source is read as
    pub uninterp spec fn read_as(k: int, s: State, hash: u128) -> bool;
    pub struct CurrentSrcInfo { pub current_src: CurrentSrc, pub src_root: RootObject, pub hash: u128 }
    impl CurrentSrcInfo {
        #[verifier::external_body]
        pub fn clone_src_root(&self) -> (r: RootObject) ensures r@ == self.src_root@ { unimplemented!() }
        pub fn hash(&self) -> (r: u128) ensures r == self.hash { self.hash }
    }
    #[verifier::external_body]
    pub fn get_current_src_info(c: CurrentSrc) -> (r: FsResult<CurrentSrcInfo>)
        ensures r is Ok ==> key(r->Ok_0.current_src) == key(c) && read_as(key(c), r->Ok_0.src_root@, r->Ok_0.hash),
    { unimplemented!() }
//@ item dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs struct HistoryCacheItem
//@ item dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs struct SyncedItem
//@ item dochy_fs/src/imp/history/history_info.rs struct HistoryInfo
    impl HistoryInfo {
//@ fn dochy_fs/src/imp/history/history_info.rs HistoryInfo::new -> r
            ensures r.history_dir == history_dir,
//@ end
//@ fn dochy_fs/src/imp/history/history_info.rs HistoryInfo::history_dir -> r
            ensures r@ == self.history_dir@,
//@ end
    }
    impl HistoryCacheItem {
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs HistoryCacheItem::new -> r
            ensures r.peekable == peekable, r.synced == synced,
//@ end
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs HistoryCacheItem::peekable -> r
            ensures *r == self.peekable,
//@ end
    }
    impl SyncedItem {
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs SyncedItem::new -> r
            ensures r.cache == cache, r.current_root == current_root,
//@ end
    }
    impl PeekableCacheInfo {
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs PeekableCacheInfo::new -> r
            ensures r.current_src == current_src, r.hash == hash, r.history_options == history_options, r.src_root == src_root,
//@ end
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs PeekableCacheInfo::clone_src_root -> r
            ensures r@ == self.src_root@,
//@ end
    }
    impl DochyCache {
//@ fn dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs DochyCache::new -> r
            ensures r is Ok ==> read_as(key(current_src), r->Ok_0.src_root@, r->Ok_0.hash) && r->Ok_0.table() == Cached::empty(),
//@ end
    }
    /// A history that was just taken up: hash and start are those of the source, nothing is cached, no object is known.
    pub open spec fn taken_up(i: HistoryCacheItem, k: int, op: HistoryOptions) -> bool {
        let c = i.synced.at_first().cache;
        &&& key(i.peekable.current_src) == k && i.peekable.history_options == op
        &&& i.peekable.hash == c.hash && i.peekable.src_root@ == c.src_root@
        &&& read_as(k, c.src_root@, c.hash)
        &&& c.table() == Cached::empty() && i.synced.at_first().current_root is None
    }
    /// what saving and loading ask of the cache holds at first
    pub proof fn ready(i: HistoryCacheItem, k: int, op: HistoryOptions, t: Tree, dir: Place)
        requires taken_up(i, k, op),
        ensures
            ({
                let c = i.synced.at_first().cache;
                &&& cache_ok(c.table(), t, dir, c.start(), op.max_phase as int, op.cumulative is Some)
                &&& i.peekable.hash == c.hash
            }),
    {}
    pub open spec fn all_taken_up(m: Map<Place, Box<HistoryCacheItem>>) -> bool {
        forall|p: Place| #[trigger] m.contains_key(p) ==> taken_up(m[p].v, key(m[p].v.peekable.current_src), m[p].v.peekable.history_options)
    }
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_map.rs init_dochy_cache_impl -> r
//@ sub mut map : MutexGuard<HashMap<PathBuf, Box<HistoryCacheItem>>> => map: &mut Histories
        requires all_taken_up(old(map)@),
        ensures
            all_taken_up(final(map)@),
            r is Ok ==> r->Ok_0.history_dir@ == history_dir@ && final(map)@.contains_key(history_dir@) && taken_up(final(map)@[history_dir@].v, key(current_src), *op),
            forall|p: Place| p != history_dir@ && #[trigger] old(map)@.contains_key(p) ==> final(map)@.contains_key(p) && final(map)@[p] == old(map)@[p],
//@ end
//@ fn dochy_fs/src/imp/history/current_root_obj_info/history_cache_map.rs init_dochy_cache -> r
//@ sub let map = MAP\.lock\(\)\.unwrap\(\); =>
//@ sub item\.peekable\(\)\.current_src\(\) != &current_src => !same_source(item.peekable().current_src(), &current_src)
//@ sub item\.peekable\(\)\.history_options\(\) != op => !same_options(item.peekable().history_options(), op)
//@ sub? format!\((?:[^()]|\([^()]*\))*\) => words()
//@ param map: &mut Histories
        requires all_taken_up(old(map)@),
        ensures
            all_taken_up(final(map)@),
            // the history is used with the source and the options asked for
            r is Ok ==> r->Ok_0.history_dir@ == history_dir@ && final(map)@.contains_key(history_dir@) && taken_up(final(map)@[history_dir@].v, key(current_src), *op),
            // one in use stays what it is
            forall|p: Place| #[trigger] old(map)@.contains_key(p) ==> final(map)@.contains_key(p) && final(map)@[p] == old(map)@[p],
//@ end
}

fn main() {}
}
