#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_must_use)]
// Unit: the hash and the archive of a source folder (property 13).
use vstd::prelude::*;
use std::sync::Arc;

verus! {
global size_of usize == 8;

pub mod lib_specs {
    use super::*;
    pub struct ArcError;
    pub type ArcResult<T> = core::result::Result<T, ArcError>;
    impl From<&str> for ArcError {
        #[verifier::external_body]
        fn from(s: &str) -> (r: ArcError) { ArcError }
    }
    pub type Name = Seq<char>;
    /// names and contents, in the order in which they are hashed
    pub type Files = Seq<(Name, Seq<u8>)>;
    pub open spec fn u64_bytes(n: u64) -> Seq<u8> { vstd::bytes::spec_u64_to_le_bytes(n) }
    pub open spec fn utf8(s: Name) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
    /// the bytes that are hashed: each name and each content with its length before it
    pub open spec fn spelled(f: Files) -> Seq<u8>
        decreases f.len()
    {
        if f.len() == 0 { Seq::empty() } else {
            let (n, b) = f.last();
            spelled(f.drop_last()) + u64_bytes(utf8(n).len() as u64) + utf8(n) + u64_bytes(b.len() as u64) + b
        }
    }
    /// the hash of bytes
    pub uninterp spec fn metro(b: Seq<u8>) -> (u64, u64);
    pub open spec fn hash_of(f: Files) -> u128 { let (l, r) = metro(spelled(f)); ((l as u128) << 64) | (r as u128) }

    // TRUSTED: metrohash. The hash is a function of the bytes written; a number is written as its bytes
    #[verifier::external_body]
    pub struct MetroHash128 { x: u8 }
    impl MetroHash128 {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn write_u64(&mut self, n: u64) ensures final(self)@ == old(self)@ + u64_bytes(n) { unimplemented!() }
        #[verifier::external_body]
        pub fn write(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn finish128(&self) -> (r: (u64, u64)) ensures r == metro(self@) { unimplemented!() }
    }
    // TRUSTED: lengths of texts and byte sequences in memory are lengths of their bytes and below 2^63
    #[verifier::external_body]
    pub fn text_copy(s: &String) -> (r: String) ensures r@ == s@ { s.to_string() }
    #[verifier::external_body]
    pub fn text_len(s: &String) -> (r: usize) ensures r == utf8(s@).len() { s.len() }
    #[verifier::external_body]
    pub fn text_bytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
    #[verifier::external_body]
    pub fn arc_vec(s: &Arc<Vec<u8>>) -> (r: &Vec<u8>) ensures r@ == s@ { s.as_ref() }
    #[verifier::external_body]
    pub fn arc_len(s: &Arc<Vec<u8>>) -> (r: usize) ensures r == s@.len() { s.len() }
    #[verifier::external_body]
    pub fn arc_bytes(s: &Arc<Vec<u8>>) -> (r: &[u8]) ensures r@ == s@ { s.as_ref() }

    // TRUSTED: running a closure in another thread: it is called at most once, with what it captured
    #[verifier::external_body]
    pub fn spawn<F: FnOnce()>(f: F) requires f.requires(()) { }
    #[verifier::external_body]
    pub fn spawn_fifo<F: FnOnce()>(f: F) requires f.requires(()) { }
}
pub mod library {
    use super::*;
    use super::lib_specs::*;
    // TRUSTED: the conversion of a file is a function of the caller; it may give any of the results `makes` allows
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Converter<T> { x: std::marker::PhantomData<T> }
    impl<T> Converter<T> {
        pub uninterp spec fn makes(&self, n: Name, b: Seq<u8>, t: T) -> bool;
        #[verifier::external_body]
        pub fn call(&self, n: &String, b: &Vec<u8>) -> (r: T) ensures self.makes(n@, b@, r) { unimplemented!() }
    }
    // TRUSTED: going through a sequence from the front
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Each<T> { x: std::marker::PhantomData<T> }
    impl<T> Each<T> {
        pub uninterp spec fn rest(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures
                old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
                old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn each_ref<'a, T>(v: &'a Vec<T>) -> (r: Each<&'a T>) ensures r.rest().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.rest()[i]) == v@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn each<T>(v: Vec<T>) -> (r: Each<T>) ensures r.rest() == v@ { unimplemented!() }

    // TRUSTED: BTreeMap and BTreeSet of texts. Going through them gives every entry once, in an order that is determined by the keys alone
    pub uninterp spec fn order(keys: Set<Name>) -> Seq<Name>;
    pub axiom fn orders(keys: Set<Name>)
        ensures order(keys).no_duplicates(), order(keys).to_set() == keys, order(keys).len() == keys.len();
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct BTreeMap<K, V> { x: std::marker::PhantomData<(K, V)> }
    impl<V> BTreeMap<String, V> {
        pub uninterp spec fn view(&self) -> Map<Name, V>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<Name, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: String, v: V) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), r < 0x4000_0000_0000_0000 { unimplemented!() }
        #[verifier::external_body]
        pub fn iter<'a>(&'a self) -> (r: Each<(&'a String, &'a V)>)
            ensures
                r.rest().len() == order(self@.dom()).len(),
                forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i]).0@ == order(self@.dom())[i] && *r.rest()[i].1 == self@[order(self@.dom())[i]],
        { unimplemented!() }
        #[verifier::external_body]
        pub fn into_iter(self) -> (r: Each<(String, V)>)
            ensures
                r.rest().len() == order(self@.dom()).len(),
                forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i]).0@ == order(self@.dom())[i] && r.rest()[i].1 == self@[order(self@.dom())[i]],
        { unimplemented!() }
    }
    /// names and contents in the order of the names
    pub open spec fn in_order(m: Map<Name, Seq<u8>>) -> Files { Seq::new(order(m.dom()).len(), |i: int| (order(m.dom())[i], m[order(m.dom())[i]])) }
    /// all names with their contents
    pub open spec fn gather(f: Files) -> Map<Name, Seq<u8>>
        decreases f.len()
    {
        if f.len() == 0 { Map::empty() } else { gather(f.drop_last()).insert(f.last().0, f.last().1) }
    }
    pub proof fn gathered(m: Map<Name, Seq<u8>>)
        ensures gather(in_order(m)) == m,
    {
        orders(m.dom());
        let f = in_order(m);
        gather_has(f);
        assert forall|n: Name| #[trigger] gather(f).dom().contains(n) == m.dom().contains(n) by {
            if m.dom().contains(n) { assert(order(m.dom()).to_set().contains(n)); let i = choose|i: int| 0 <= i < f.len() && order(m.dom())[i] == n; assert(f[i].0 == n); }
            if gather(f).dom().contains(n) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == n && gather(f)[n] == f[i].1; assert(order(m.dom()).to_set().contains(order(m.dom())[i])); }
        }
        assert forall|n: Name| #[trigger] gather(f).dom().contains(n) implies gather(f)[n] == m[n] by {
            let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == n && gather(f)[n] == f[i].1;
        }
        assert(gather(f) =~= m);
    }
    pub proof fn gather_has(f: Files)
        ensures
            forall|n: Name| #[trigger] gather(f).dom().contains(n) ==> exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == n && gather(f)[n] == f[i].1,
            forall|i: int| 0 <= i < f.len() ==> gather(f).dom().contains((#[trigger] f[i]).0),
        decreases f.len(),
    {
        if f.len() > 0 {
            let g = f.drop_last();
            gather_has(g);
            assert forall|n: Name| #[trigger] gather(f).dom().contains(n) implies exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == n && gather(f)[n] == f[i].1 by {
                if n == f.last().0 { assert(f[f.len() - 1] == f.last()); } else {
                    assert(gather(g).dom().contains(n));
                    let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == n && gather(g)[n] == g[i].1;
                    assert(f[i] == g[i]);
                }
            }
            assert forall|i: int| 0 <= i < f.len() implies gather(f).dom().contains((#[trigger] f[i]).0) by { if i < g.len() { assert(g[i] == f[i]); } }
        }
    }
}
pub mod channels {
    use super::*;
    use super::lib_specs::*;

    // TRUSTED: channels. What is received are the values sent, in the order in which they were sent (`stream`); with
    // a condition on the values that every send has to keep, the values received keep it (`fits`).
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { x: std::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: std::marker::PhantomData<T> }
    impl<T> Sender<T> {
        pub uninterp spec fn stream(&self) -> spec_fn(nat) -> T;
        pub uninterp spec fn sent(&self) -> nat;
        pub uninterp spec fn fits(&self) -> spec_fn(T) -> bool;
        #[verifier::external_body]
        pub fn send(&mut self, v: T) -> (r: ArcResult<()>)
            requires old(self).fits()(v),
            ensures
                final(self).stream() == old(self).stream(),
                final(self).fits() == old(self).fits(),
                final(self).sent() == old(self).sent() + 1,
                (old(self).stream())(old(self).sent()) == v,
        { unimplemented!() }
    }
    impl<T> Receiver<T> {
        pub uninterp spec fn stream(&self) -> spec_fn(nat) -> T;
        pub uninterp spec fn got(&self) -> nat;
        pub uninterp spec fn fits(&self) -> spec_fn(T) -> bool;
        #[verifier::external_body]
        pub fn recv(&mut self) -> (r: ArcResult<T>)
            ensures
                final(self).stream() == old(self).stream(),
                final(self).fits() == old(self).fits(),
                r is Ok ==> final(self).got() == old(self).got() + 1 && r->Ok_0 == (old(self).stream())(old(self).got()) && old(self).fits()(r->Ok_0),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn channel<T>(Ghost(fits): Ghost<spec_fn(T) -> bool>) -> (r: (Sender<T>, Receiver<T>))
        ensures
            r.0.stream() == r.1.stream(), r.0.fits() == fits, r.1.fits() == fits, r.0.sent() == 0, r.1.got() == 0,
    { unimplemented!() }

}
pub mod hash_thread {
    use super::*;
    use super::lib_specs::*;
    use super::channels::*;
    pub type Piece = Option<(String, Arc<Vec<u8>>)>;
    pub open spec fn piece(p: Piece) -> (Name, Seq<u8>) { let (n, b) = p->0; (n@, b@) }
    pub open spec fn first(s: spec_fn(nat) -> Piece, n: nat) -> Files
        decreases n
    {
        if n == 0 { Seq::empty() } else { first(s, (n - 1) as nat).push(piece(s((n - 1) as nat))) }
    }
    /// the hash of all pieces before the end mark
    pub open spec fn sums(s: spec_fn(nat) -> Piece, h: u128) -> bool {
        exists|n: nat| (forall|i: nat| i < n ==> #[trigger] s(i) is Some) && #[trigger] s(n) is None && h == hash_of(first(s, n))
    }
//@ item dochy_archiver2/src/imp/structs/hash_thread.rs struct HashThread
    impl HashThread {
        /// the files handed over so far
        pub open spec fn files(&self) -> Files { first(self.vec_sender.stream(), self.vec_sender.sent()) }
        pub open spec fn wf(&self) -> bool {
            &&& forall|i: nat| i < self.vec_sender.sent() ==> #[trigger] (self.vec_sender.stream())(i) is Some
            &&& self.vec_sender.fits() == |p: Piece| true
            &&& self.result_receiver.fits() == |r: ArcResult<u128>| r is Ok ==> sums(self.vec_sender.stream(), r->Ok_0)
        }
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_archiver2/src/imp/structs/hash_thread.rs HashThread::new -> r
//@ sub std::thread::spawn => spawn
//@ sub move \|\| \{ => move || { let mut vec_receiver = vec_receiver; let mut result_sender = result_sender;
//@ sub? path\.len\(\) => text_len(&path)
//@ sub? path\.as_bytes\(\) => text_bytes(&path)
//@ sub? v\.len\(\) => arc_len(&v)
//@ sub? v\.as_ref\(\) => arc_bytes(&v)
//@ sub let \(vec_sender, vec_receiver\) = channel\(\); => let (vec_sender, vec_receiver) = channel::<Piece>(Ghost(|p: Piece| true));
//@ sub let \(result_sender, result_receiver\) = channel\(\); => let (result_sender, result_receiver) = channel::<ArcResult<u128>>(Ghost(|r: ArcResult<u128>| r is Ok ==> sums(vec_sender.stream(), r->Ok_0)));
            ensures r.wf(), r.files() == Files::empty(),
//@ loops loop
//@ loop 0
            invariant_except_break
                forall|i: nat| i < vec_receiver.got() ==> #[trigger] (vec_receiver.stream())(i) is Some,
                hasher@ == spelled(first(vec_receiver.stream(), vec_receiver.got())),
            invariant
                vec_receiver.stream() == vec_sender.stream(),
                result_sender.fits() == |r: ArcResult<u128>| r is Ok ==> sums(vec_sender.stream(), r->Ok_0),
            ensures
                exists|n: nat| (forall|i: nat| i < n ==> #[trigger] (vec_receiver.stream())(i) is Some) && #[trigger] (vec_receiver.stream())(n) is None && hasher@ == spelled(first(vec_receiver.stream(), n)),
//@ in 0
            proof { let n = vec_receiver.got(); assert(first(vec_receiver.stream(), n + 1).drop_last() =~= first(vec_receiver.stream(), n)); }
//@ end
//@ fn dochy_archiver2/src/imp/structs/hash_thread.rs HashThread::calc_hash -> r
            requires old(self).wf(),
            ensures final(self).wf(), final(self).files() == old(self).files().push((path@, vec@)),
//@ end
//@ fn dochy_archiver2/src/imp/structs/hash_thread.rs HashThread::finish -> r
//@ sub &self => &mut self
            requires old(self).wf(),
            ensures r is Ok ==> r->Ok_0 == hash_of(old(self).files()),
//@ end
    }
//@ fn dochy_archiver2/src/imp/structs/hash_thread.rs to_u128 -> r_
            ensures r_ == ((l as u128) << 64) | (r as u128),
//@ start
        proof { assert forall|a: u128, b: u128| #[trigger] (a | b) == b | a by { assert(a | b == b | a) by (bit_vector); } }
//@ end
}
pub mod archiver {
    use super::*;
    use super::lib_specs::*;
    use super::library::*;
    use super::channels::*;
    use super::hash_thread::*;
    #[verifier::reject_recursive_types(T)]
//@ item dochy_archiver2/src/imp/structs/archive_data.rs struct ArchiveData
    #[verifier::reject_recursive_types(T)]
//@ item dochy_archiver2/src/imp/structs/archive_data.rs struct ArchiveDataItem
    #[verifier::reject_recursive_types(T)]
//@ item dochy_archiver2/src/imp/structs/archiver.rs struct Archiver
//@ sub Arc<dyn Fn\(&str, &\[u8\]\) -> T \+ Send \+ Sync \+ 'static> => Arc<Converter<T>>
    #[verifier::reject_recursive_types(T)]
//@ item dochy_archiver2/src/imp/structs/archiver.rs struct ArchiverItem
    pub open spec fn raw_of<T: Send + 'static>(m: Map<Name, ArchiveDataItem<T>>) -> Map<Name, Seq<u8>> { m.map_values(|i: ArchiveDataItem<T>| i.raw_data@) }
    impl<T: Send + 'static> ArchiveData<T> {
        /// names and contents
        pub open spec fn raw(&self) -> Map<Name, Seq<u8>> { raw_of(self.btree@) }
        /// every file was converted from its own name and content
        pub open spec fn made_by(&self, c: Converter<T>) -> bool { forall|n: Name| #[trigger] self.btree@.dom().contains(n) ==> c.makes(n, self.btree@[n].raw_data@, self.btree@[n].converted_data) }
        /// the hash is that of the files
        pub open spec fn proper(&self) -> bool { self.hash == hash_of(in_order(self.raw())) }
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveData::new -> r
            ensures r.btree == btree, r.hash == hash,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveData::btree -> r
            ensures *r == self.btree,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveData::hash -> r
            ensures r == self.hash,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveData::deconstruct -> r
            ensures r == self.btree,
//@ end
    }
    impl<T: Send + 'static> ArchiveDataItem<T> {
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveDataItem::new -> r
            ensures r.converted_data == converted_data, r.raw_data == raw_data,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveDataItem::converted_data -> r
            ensures *r == self.converted_data,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveDataItem::raw_data -> r
            ensures *r == self.raw_data,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_data.rs ArchiveDataItem::deconstruct -> r
            ensures r.0 == self.converted_data, r.1 == self.raw_data,
//@ end
    }
    pub open spec fn files_of<T: Send + 'static>(v: Seq<ArchiverItem<T>>) -> Files { Seq::new(v.len(), |i: int| (v[i].path@, v[i].raw_data@)) }
    pub open spec fn fed<T: Send + 'static>(v: Seq<ArchiverItem<T>>, c: Converter<T>) -> bool {
        forall|i: int, t: T| 0 <= i < v.len() && #[trigger] (v[i].processed.fits())(t) ==> c.makes(v[i].path@, v[i].raw_data@, t)
    }
    impl<T: Send + 'static> Archiver<T> {
        pub open spec fn files(&self) -> Files { files_of(self.data_receivers@) }
        pub open spec fn wf(&self) -> bool {
            self.hash_thread.wf() && self.hash_thread.files() =~= self.files() && fed(self.data_receivers@, *self.converter)
        }
//@ fn dochy_archiver2/src/imp/structs/archiver.rs Archiver::new -> r
//@ sub impl Fn\(&str, &\[u8\]\) -> T \+ Send \+ Sync \+ 'static => Converter<T>
            ensures r.wf(), r.files() =~= Files::empty(), *r.converter == f,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archiver.rs Archiver::archive -> r
//@ sub? rayon::spawn_fifo => spawn_fifo
//@ sub move \|\|\{ => move || { let mut sender = sender;
//@ sub converter\(&p, d\.as_ref\(\)\) => converter.call(&p, arc_vec(&d))
//@ sub mpsc::channel\(\) => channel::<T>(Ghost(|t: T| self.converter.makes(path@, data@, t)))
            requires old(self).wf(),
            ensures final(self).wf(), final(self).files() =~= old(self).files().push((path@, data@)), final(self).converter == old(self).converter,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archiver.rs Archiver::finish -> r
//@ sub self\.hash_thread\.finish\(\) => ({ let mut h = self.hash_thread; h.finish() })
//@ sub for item in self\.data_receivers => for mut item in each(self.data_receivers)
//@ next 0 it
//@ loops while
            requires self.wf(),
            ensures r is Ok ==> r->Ok_0.raw() == gather(self.files()) && r->Ok_0.hash == hash_of(self.files()) && r->Ok_0.made_by(*self.converter),
//@ loop 0
            invariant
                it.rest() == self.data_receivers@.skip(k),
                0 <= k <= self.data_receivers@.len(),
                fed(self.data_receivers@, *self.converter),
                raw_of(btree@) == gather(files_of(self.data_receivers@).take(k)),
                forall|n: Name| #[trigger] btree@.dom().contains(n) ==> self.converter.makes(n, btree@[n].raw_data@, btree@[n].converted_data),
            ensures k == self.data_receivers@.len(),
            decreases it.rest().len(),
//@ pre 0
        let ghost mut k: int = 0;
        proof { assert(files_of(self.data_receivers@).take(0) =~= Files::empty()); assert(raw_of(btree@) =~= Map::empty()); assert(self.data_receivers@.skip(0) =~= self.data_receivers@); }
//@ in 0
            proof {
                let v = self.data_receivers@;
                let f = files_of(v);
                assert(item == v[k]);
                assert(f.take(k + 1).drop_last() =~= f.take(k));
                assert(f.take(k + 1).last() == (v[k].path@, v[k].raw_data@));
                assert(v.skip(k).skip(1) =~= v.skip(k + 1));
                assert forall|m: Map<Name, ArchiveDataItem<T>>, n: Name, i: ArchiveDataItem<T>| #[trigger] raw_of(m.insert(n, i)) == raw_of(m).insert(n, i.raw_data@) by { assert(raw_of(m.insert(n, i)) =~= raw_of(m).insert(n, i.raw_data@)); }
                k = k + 1;
            }
//@ post 0
        proof { assert(files_of(self.data_receivers@).take(k) =~= files_of(self.data_receivers@)); }
//@ end
    }
}
pub mod format {
    use super::*;
    use super::lib_specs::*;
    use super::library::*;
    /// the values before the contents: how many files, and name and packed length of each
    pub enum V { I(int), S(Name) }
    pub open spec fn heads(f: Seq<(Name, Seq<u8>)>) -> Seq<V>
        decreases f.len()
    {
        if f.len() == 0 { Seq::empty() } else { heads(f.drop_last()).push(V::S(f.last().0)).push(V::I(f.last().1.len() as int)) }
    }
    pub open spec fn head(f: Seq<(Name, Seq<u8>)>) -> Seq<V> { seq![V::I(f.len() as int)] + heads(f) }
    pub open spec fn bodies(f: Seq<(Name, Seq<u8>)>) -> Seq<u8>
        decreases f.len()
    {
        if f.len() == 0 { Seq::empty() } else { bodies(f.drop_last()) + f.last().1 }
    }
    // ASSUMED: units codec and diffio (properties 1 and 3): a number or a text is kept by the value made of it, and
    // decoding gives the values that were encoded and stops behind them
    #[verifier::external_body]
    pub struct KVal { x: u8 }
    impl KVal {
        pub uninterp spec fn int(&self) -> Option<i64>;
        pub uninterp spec fn text(&self) -> Option<Name>;
        #[verifier::external_body]
        pub fn as_i64(&self) -> (r: Option<i64>) ensures r == self.int() { unimplemented!() }
        #[verifier::external_body]
        pub fn as_string(&self) -> (r: Option<String>) ensures r is Some == self.text() is Some, r is Some ==> r->0@ == self.text()->0 { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn comp_int(i: i64) -> (r: KVal) ensures r.int() == Some(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn comp_str(s: String) -> (r: KVal) ensures r.text() == Some(s@) { unimplemented!() }
    pub open spec fn stands(k: KVal, v: V) -> bool {
        match v { V::I(i) => k.int() is Some && k.int()->0 == i, V::S(s) => k.text() == Some(s) }
    }
    pub open spec fn stand(k: Seq<KVal>, v: Seq<V>) -> bool { k.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> stands(#[trigger] k[i], v[i]) }
    pub uninterp spec fn written(v: Seq<V>, b: Seq<u8>) -> bool;
    pub trait Write { spec fn bytes(&self) -> Seq<u8>;
        fn write_all(&mut self, b: &Vec<u8>) -> (r: ArcResult<()>) ensures r is Ok ==> final(self).bytes() == old(self).bytes() + b@;
    }
    pub trait Read { spec fn rest(&self) -> Seq<u8>;
        fn read_exact(&mut self, b: &mut Vec<u8>) -> (r: ArcResult<()>)
            ensures r is Ok ==> final(b)@.len() == old(b)@.len() && old(self).rest() == final(b)@ + final(self).rest();
    }
    pub mod dochy_compaction {
        use super::*;
        #[verifier::external_body]
        pub fn encode<W: Write>(k: &Vec<KVal>, w: &mut W) -> (r: ArcResult<()>)
            ensures r is Ok ==> exists|b: Seq<u8>| final(w).bytes() == old(w).bytes() + b && forall|v: Seq<V>| #![trigger written(v, b)] #![trigger stand(k@, v)] stand(k@, v) ==> written(v, b),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn decode<R: Read>(r: &mut R) -> (q: ArcResult<(Vec<KVal>, usize)>)
            ensures q is Ok ==> forall|v: Seq<V>, b: Seq<u8>| #[trigger] written(v, b) && b.is_prefix_of(old(r).rest()) ==> stand(q->Ok_0.0@, v) && final(r).rest() == old(r).rest().skip(b.len() as int),
        { unimplemented!() }
    }
    // TRUSTED: snap. Unpacking gives what was packed; packed contents are shorter than 2^62 bytes
    pub uninterp spec fn packed(b: Seq<u8>, c: Seq<u8>) -> bool;
    pub mod snap { pub mod raw {
        use super::super::*;
        #[verifier::external_body]
        pub struct Encoder { x: u8 }
        impl Encoder {
            #[verifier::external_body]
            pub fn new() -> Encoder { unimplemented!() }
            #[verifier::external_body]
            pub fn compress_vec(&mut self, b: &[u8]) -> (r: ArcResult<Vec<u8>>) ensures r is Ok ==> packed(b@, r->Ok_0@) && r->Ok_0@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Decoder { x: u8 }
        impl Decoder {
            #[verifier::external_body]
            pub fn new() -> Decoder { unimplemented!() }
            #[verifier::external_body]
            pub fn decompress_vec(&mut self, b: &Vec<u8>) -> (r: ArcResult<Vec<u8>>) ensures forall|x: Seq<u8>| r is Ok && #[trigger] packed(x, b@) ==> r->Ok_0@ == x { unimplemented!() }
        }
    } }
    pub open spec fn view_of(m: Map<Name, Vec<u8>>) -> Map<Name, Seq<u8>> { m.map_values(|v: Vec<u8>| v@) }
    /// what an archive of packed files consists of
    pub open spec fn laid_out(f: Seq<(Name, Seq<u8>)>, b: Seq<u8>) -> bool { exists|e: Seq<u8>| #[trigger] written(head(f), e) && b == e + bodies(f) }
    /// the archive of some files
    pub open spec fn packs(f: Files, p: Seq<(Name, Seq<u8>)>) -> bool {
        p.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] p[i]).0 == f[i].0 && packed(f[i].1, p[i].1) && p[i].1.len() < 0x4000_0000_0000_0000
    }
}
pub mod write_items {
    use super::*;
    use super::lib_specs::*;
    use super::library::*;
    use super::format::*;
//@ fn dochy_archiver2/src/imp/write_items.rs write_items -> r
//@ sub for \(path, compressed\) in items => for (path, compressed) in items.into_iter()
//@ sub for comp in &comps => for comp in each_ref(&comps)
//@ next 0 it
//@ next 1 jt
//@ loops while while
        requires forall|n: Name| #[trigger] items@.dom().contains(n) ==> items@[n]@.len() < 0x4000_0000_0000_0000,
        ensures r is Ok ==> exists|b: Seq<u8>| #[trigger] laid_out(in_order(view_of(items@)), b) && final(writer).bytes() == old(writer).bytes() + b,
//@ start
        let ghost f = in_order(view_of(items@));
        proof {
            assert(view_of(items@).dom() =~= items@.dom());
            orders(items@.dom());
            assert(f.take(0) =~= Files::empty());
            assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).1.len() < 0x4000_0000_0000_0000 by { assert(order(items@.dom()).to_set().contains(order(items@.dom())[i])); }
        }
//@ pre 0
        let ghost mut k: int = 0;
        let ghost all = it.rest();
        proof { assert(all.skip(0) =~= all); assert(seq![V::I(f.len() as int)] + heads(f.take(0)) =~= seq![V::I(f.len() as int)]); }
//@ loop 0
            invariant
                0 <= k <= all.len(),
                all.len() == f.len(),
                it.rest() == all.skip(k),
                forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).0@ == f[i].0 && all[i].1@ == f[i].1,
                forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).1.len() < 0x4000_0000_0000_0000,
                stand(kvals@, seq![V::I(f.len() as int)] + heads(f.take(k))),
                comps@.len() == k,
                forall|i: int| 0 <= i < k ==> (#[trigger] comps@[i])@ == f[i].1,
            ensures k == all.len(),
            decreases it.rest().len(),
//@ in 0
            proof {
                let h = seq![V::I(f.len() as int)];
                assert((path, compressed) == all[k]);
                assert(f.take(k + 1).drop_last() =~= f.take(k));
                assert(f.take(k + 1).last() == f[k]);
                assert(h + heads(f.take(k + 1)) =~= (h + heads(f.take(k))).push(V::S(f[k].0)).push(V::I(f[k].1.len() as int)));
                assert(all.skip(k).skip(1) =~= all.skip(k + 1));
                k = k + 1;
            }
//@ post 0
        proof { assert(f.take(k) =~= f); }
//@ pre 1
        let ghost mut j: int = 0;
        let ghost list = jt.rest();
        proof { assert(stand(kvals@, head(f))); }
        let ghost e = choose|e: Seq<u8>| writer.bytes() == old(writer).bytes() + e && #[trigger] written(head(f), e);
        proof { assert(list.skip(0) =~= list); assert(old(writer).bytes() + (e + bodies(f.take(0))) =~= old(writer).bytes() + e); }
//@ loop 1
            invariant
                0 <= j <= list.len(),
                list.len() == f.len(),
                jt.rest() == list.skip(j),
                forall|i: int| 0 <= i < list.len() ==> (#[trigger] list[i])@ == f[i].1,
                written(head(f), e),
                writer.bytes() == old(writer).bytes() + (e + bodies(f.take(j))),
            ensures j == list.len(),
            decreases jt.rest().len(),
//@ in 1
            proof {
                assert(comp == list[j]);
                assert(f.take(j + 1).drop_last() =~= f.take(j));
                assert(f.take(j + 1).last() == f[j]);
                assert(old(writer).bytes() + (e + bodies(f.take(j))) + f[j].1 =~= old(writer).bytes() + (e + bodies(f.take(j + 1))));
                assert(list.skip(j).skip(1) =~= list.skip(j + 1));
                j = j + 1;
            }
//@ post 1
        proof { assert(f.take(j) =~= f); assert(laid_out(f, e + bodies(f))); }
//@ end
}
pub mod write_archive {
    use super::*;
    use super::lib_specs::*;
    use super::library::*;
    use super::format::*;
    use super::archiver::*;
    use super::write_items::*;
    // TRUSTED: a channel with several senders. Every clone of the sender has a number of its own and sends once; what is received was sent
    // by a clone from which nothing was received before
    #[verifier::external_body]
    #[verifier::reject_recursive_types(X)]
    pub struct Sender<X> { x: std::marker::PhantomData<X> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(X)]
    pub struct Receiver<X> { x: std::marker::PhantomData<X> }
    impl<X> Sender<X> {
        pub uninterp spec fn fits(&self) -> spec_fn(int, X) -> bool;
        pub uninterp spec fn issued(&self) -> int;
        pub uninterp spec fn number(&self) -> Option<int>;
        #[verifier::external_body]
        pub fn clone(&mut self) -> (r: Sender<X>)
            ensures r.fits() == old(self).fits(), r.number() == Some(old(self).issued()), final(self).issued() == old(self).issued() + 1, final(self).fits() == old(self).fits(), final(self).number() == old(self).number(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn send(self, v: X) -> (r: ArcResult<()>)
            requires self.number() is Some, (self.fits())(self.number()->0, v),
        { unimplemented!() }
    }
    impl<X> Receiver<X> {
        pub uninterp spec fn fits(&self) -> spec_fn(int, X) -> bool;
        pub uninterp spec fn got(&self) -> Set<int>;
        #[verifier::external_body]
        pub fn recv(&mut self) -> (r: ArcResult<X>)
            ensures
                final(self).fits() == old(self).fits(),
                r is Ok ==> exists|t: int| !old(self).got().contains(t) && #[trigger] (old(self).fits())(t, r->Ok_0) && final(self).got() == old(self).got().insert(t),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn channel<X>(Ghost(fits): Ghost<spec_fn(int, X) -> bool>) -> (r: (Sender<X>, Receiver<X>))
        ensures r.0.fits() == fits, r.1.fits() == fits, r.0.issued() == 0, r.0.number() is None, r.1.got() == Set::<int>::empty(),
    { unimplemented!() }
    pub type Packed = ArcResult<(String, Vec<u8>)>;
    /// number `t` packs the file at place `t`
    pub open spec fn packs_one(f: Files, t: int, v: Packed) -> bool {
        v is Ok ==> 0 <= t < f.len() && v->Ok_0.0@ == f[t].0 && packed(f[t].1, v->Ok_0.1@) && v->Ok_0.1@.len() < 0x4000_0000_0000_0000
    }
    /// `items` are the packed files with these numbers
    pub open spec fn holds(items: Map<Name, Vec<u8>>, f: Files, got: Set<int>) -> bool {
        &&& forall|t: int| #[trigger] got.contains(t) ==> 0 <= t < f.len() && items.dom().contains(f[t].0) && packed(f[t].1, items[f[t].0]@) && items[f[t].0]@.len() < 0x4000_0000_0000_0000
        &&& forall|n: Name| #[trigger] items.dom().contains(n) ==> exists|t: int| #[trigger] got.contains(t) && f[t].0 == n
    }
    pub proof fn full(got: Set<int>, n: nat)
        requires got.len() == n, forall|t: int| #[trigger] got.contains(t) ==> 0 <= t < n,
        ensures forall|t: int| 0 <= t < n ==> #[trigger] got.contains(t),
    {
        let all = vstd::set_lib::set_int_range(0, n as int);
        vstd::set_lib::lemma_int_range(0, n as int);
        assert(got.subset_of(all));
        vstd::set_lib::lemma_subset_equality(got, all);
    }
    pub proof fn one_more(items: Map<Name, Vec<u8>>, f: Files, got: Set<int>, t: int, v: Packed)
        requires holds(items, f, got), packs_one(f, t, v), v is Ok, !got.contains(t), forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).0 != (#[trigger] f[j]).0,
        ensures holds(items.insert(v->Ok_0.0@, v->Ok_0.1), f, got.insert(t)),
    {
        let m = items.insert(v->Ok_0.0@, v->Ok_0.1);
        assert forall|n: Name| #[trigger] m.dom().contains(n) implies exists|u: int| #[trigger] got.insert(t).contains(u) && f[u].0 == n by {
            if n == f[t].0 { assert(got.insert(t).contains(t)); } else { let u = choose|u: int| #[trigger] got.contains(u) && f[u].0 == n; assert(got.insert(t).contains(u)); }
        }
    }
//@ fn dochy_archiver2/src/imp/write_archive.rs write_archive -> r
//@ sub rayon::spawn_fifo => spawn_fifo
//@ sub for \(key,\s*val\) in data\.btree\(\) => for (key, val) in data.btree().iter()
//@ sub raw_data\.as_slice\(\) => arc_bytes(&raw_data)
//@ sub? \bkey\.to_string\(\) => text_copy(key)
//@ sub let \(sender\s*,\s*receiver\) = channel\(\); => let (mut sender, mut receiver) = channel::<Packed>(Ghost(|t: int, v: Packed| packs_one(in_order(data.raw()), t, v)));
//@ next 0 it
//@ while 1 k
//@ loops while while
        ensures r is Ok ==> exists|p: Seq<(Name, Seq<u8>)>, b: Seq<u8>| packs(in_order(data.raw()), p) && #[trigger] laid_out(p, b) && final(writer).bytes() == old(writer).bytes() + b,
//@ start
        let ghost f = in_order(data.raw());
        proof {
            assert(data.raw().dom() =~= data.btree@.dom());
            orders(data.btree@.dom());
            assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 != (#[trigger] f[j]).0 by { }
        }
//@ pre 0
        let ghost mut j: int = 0;
        let ghost all = it.rest();
        proof { assert(all.skip(0) =~= all); }
//@ loop 0
            invariant
                0 <= j <= all.len(),
                all.len() == f.len(),
                it.rest() == all.skip(j),
                forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).0@ == f[i].0 && all[i].1.raw_data@ == f[i].1,
                sender.issued() == j,
                sender.fits() == |t: int, v: Packed| packs_one(f, t, v),
            decreases it.rest().len(),
//@ in 0
            proof {
                assert((key, val) == all[j]);
                assert(all.skip(j).skip(1) =~= all.skip(j + 1));
                j = j + 1;
            }
//@ pre 1
        proof { assert(holds(items@, f, receiver.got())); }
//@ loop 1
            invariant
                k <= k_end,
                k_end == f.len(),
                receiver.got().len() == k,
                receiver.fits() == |t: int, v: Packed| packs_one(f, t, v),
                holds(items@, f, receiver.got()),
                forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).0 != (#[trigger] f[j]).0,
            decreases k_end - k,
//@ in 1
            proof {
                assert forall|t: int, v: Packed| v is Ok && !receiver.got().contains(t) && #[trigger] packs_one(f, t, v) implies holds(items@.insert(v->Ok_0.0@, v->Ok_0.1), f, receiver.got().insert(t)) by { one_more(items@, f, receiver.got(), t, v); }
            }
//@ post 1
        proof {
            full(receiver.got(), f.len());
            let m = view_of(items@);
            assert forall|n: Name| #[trigger] items@.dom().contains(n) == data.raw().dom().contains(n) by {
                if items@.dom().contains(n) { let t = choose|t: int| #[trigger] receiver.got().contains(t) && f[t].0 == n; assert(order(data.raw().dom()).to_set().contains(order(data.raw().dom())[t])); }
                if data.raw().dom().contains(n) { assert(order(data.raw().dom()).to_set().contains(n)); let t = choose|t: int| 0 <= t < f.len() && order(data.raw().dom())[t] == n; assert(receiver.got().contains(t)); }
            }
            assert(m.dom() =~= data.raw().dom());
            let p = in_order(m);
            assert forall|i: int| 0 <= i < f.len() implies (#[trigger] p[i]).0 == f[i].0 && packed(f[i].1, p[i].1) && p[i].1.len() < 0x4000_0000_0000_0000 by { assert(receiver.got().contains(i)); }
            assert(packs(f, p));
            assert forall|n: Name| #[trigger] items@.dom().contains(n) implies items@[n]@.len() < 0x4000_0000_0000_0000 by { let t = choose|t: int| #[trigger] receiver.got().contains(t) && f[t].0 == n; }
        }
//@ end
}
pub mod read_archive {
    use super::*;
    use super::lib_specs::*;
    use super::library::*;
    use super::channels::*;
    use super::format::*;
    use super::archiver::*;
    // TRUSTED: room for a vector
    #[verifier::external_body]
    pub fn vec_with_capacity_safe<X>(n: usize) -> (r: ArcResult<Vec<X>>) ensures r is Ok ==> r->Ok_0@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(v: &mut Vec<u8>, n: usize) ensures final(v)@.len() == n { unimplemented!() }
    pub type Content = ArcResult<Vec<u8>>;
    pub open spec fn is_content(f: Files, i: int, v: Content) -> bool { v is Ok ==> v->Ok_0@ == f[i].1 }
    pub open spec fn result<T: Send + 'static>(f: Files, c: Converter<T>, a: ArcResult<ArchiveData<T>>) -> bool {
        a is Ok ==> a->Ok_0.raw() == gather(f) && a->Ok_0.hash == hash_of(f) && a->Ok_0.made_by(c)
    }
    pub open spec fn awaited(v: Seq<(String, Receiver<Content>)>, f: Files, n: int) -> bool {
        v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0@ == f[i].0 && v[i].1.fits() == |c: Content| is_content(f, i, c)
    }
    pub open spec fn owed(v: Seq<(usize, Sender<Content>)>, p: Files, f: Files, n: int) -> bool {
        v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0 == p[i].1.len() && v[i].1.fits() == |c: Content| is_content(f, i, c)
    }
    pub proof fn heads_at(p: Files)
        ensures heads(p).len() == 2 * p.len(), forall|i: int| 0 <= i < p.len() ==> heads(p)[2 * i] == V::S((#[trigger] p[i]).0) && heads(p)[2 * i + 1] == V::I(p[i].1.len() as int),
        decreases p.len(),
    {
        if p.len() > 0 {
            let q = p.drop_last();
            heads_at(q);
            assert forall|i: int| 0 <= i < p.len() implies heads(p)[2 * i] == V::S((#[trigger] p[i]).0) && heads(p)[2 * i + 1] == V::I(p[i].1.len() as int) by { if i < q.len() { assert(q[i] == p[i]); } }
        }
    }
    pub proof fn bodies_first(p: Files)
        requires p.len() > 0,
        ensures bodies(p) == p[0].1 + bodies(p.skip(1)),
        decreases p.len(),
    {
        if p.len() == 1 {
            assert(p.drop_last() =~= Files::empty()); assert(p.skip(1) =~= Files::empty());
            assert(bodies(p) =~= p[0].1 + bodies(p.skip(1)));
        } else {
            let q = p.drop_last();
            bodies_first(q);
            assert(p.skip(1).drop_last() =~= q.skip(1));
            assert(p.skip(1).last() == p.last());
            assert(bodies(p) =~= p[0].1 + bodies(p.skip(1)));
        }
    }
//@ fn dochy_archiver2/src/imp/read_archive.rs read_archive -> q
//@ sub impl Fn\(&str, &\[u8\]\) -> T \+ Send \+ Sync \+ 'static => Converter<T>
//@ param Ghost(f): Ghost<Files>, Ghost(p): Ghost<Files>
//@ sub kvals\.into_iter\(\) => each(kvals)
//@ sub let \(raw_sender, raw_receiver\) = channel\(\); => let (raw_sender, raw_receiver) = channel::<Content>(Ghost(|c: Content| is_content(f, k - 1, c)));
//@ sub let \(archive_sender, archive_receiver\) = channel\(\); => let (archive_sender, mut archive_receiver) = channel::<ArcResult<ArchiveData<T>>>(Ghost(|a: ArcResult<ArchiveData<T>>| result(f, converter, a)));
//@ sub std::thread::spawn\(move \|\|\{ => spawn(move || { let mut archive_sender = archive_sender;
//@ sub rayon::spawn_fifo\(move \|\|\{ => spawn_fifo(move || { let mut raw_sender = raw_sender;
//@ sub for \(path, data\) in raw_receivers => for (path, mut data) in each(raw_receivers)
//@ sub for \(len, raw_sender\) in raw_senders => for (len, raw_sender) in each(raw_senders)
//@ sub buf\.set_len\(len\) => set_len(&mut buf, len)
//@ while 0 k
//@ next 1 it
//@ next 2 jt
//@ loops while while while
        requires packs(f, p), laid_out(p, old(r).rest()),
        ensures result(f, converter, q),
//@ start
        proof {
            let e = choose|e: Seq<u8>| #[trigger] written(head(p), e) && old(r).rest() == e + bodies(p);
            assert(e.is_prefix_of(old(r).rest()));
            assert(old(r).rest().skip(e.len() as int) =~= bodies(p));
            heads_at(p);
        }
//@ pre 0
        let ghost start = iter.rest();
        proof {
            assert forall|i: int| 0 <= i < p.len() implies start[2 * i].text() == Some((#[trigger] p[i]).0) && start[2 * i + 1].int() is Some && start[2 * i + 1].int()->0 == p[i].1.len() by {
                assert(head(p)[1 + 2 * i] == heads(p)[2 * i]); assert(head(p)[2 + 2 * i] == heads(p)[2 * i + 1]);
            }
            assert(start.skip(0) =~= start);
        }
//@ loop 0
            invariant
                packs(f, p),
                k <= k_end,
                k_end == p.len(),
                start.len() == 2 * p.len(),
                iter.rest() == start.skip(2 * k),
                forall|i: int| 0 <= i < p.len() ==> start[2 * i].text() == Some((#[trigger] p[i]).0) && start[2 * i + 1].int() is Some && start[2 * i + 1].int()->0 == p[i].1.len(),
                owed(raw_senders@, p, f, k as int),
                awaited(raw_receivers@, f, k as int),
            decreases k_end - k,
//@ in 0
            proof {
                let i = k as int;
                assert(p[i].0 == f[i].0);
                assert(start.skip(2 * i).skip(1).skip(1) =~= start.skip(2 * (i + 1)));
            }
//@ pre 1
        let ghost mut n: int = 0;
        let ghost list = it.rest();
        proof { assert(list.skip(0) =~= list); assert(f.take(0) =~= Files::empty()); }
//@ loop 1
            invariant
                0 <= n <= list.len(),
                it.rest() == list.skip(n),
                awaited(list, f, f.len() as int),
                archiver.wf(),
                *archiver.converter == converter,
                archiver.files() =~= f.take(n),
                archive_sender.fits() == |a: ArcResult<ArchiveData<T>>| result(f, converter, a),
            ensures n == list.len(),
            decreases it.rest().len(),
//@ in 1
            proof {
                assert((path, data) == list[n]);
                assert(f.take(n + 1) =~= f.take(n).push(f[n]));
                assert(list.skip(n).skip(1) =~= list.skip(n + 1));
                n = n + 1;
            }
//@ post 1
        proof { assert(f.take(n) =~= f); }
//@ pre 2
        let ghost mut m: int = 0;
        let ghost due = jt.rest();
        proof { assert(due.skip(0) =~= due); assert(p.skip(0) =~= p); }
//@ loop 2
            invariant
                packs(f, p),
                0 <= m <= due.len(),
                jt.rest() == due.skip(m),
                owed(due, p, f, p.len() as int),
                r.rest() == bodies(p.skip(m)),
            decreases jt.rest().len(),
//@ in 2
            proof {
                assert((len, raw_sender) == due[m]);
                bodies_first(p.skip(m));
                assert(p.skip(m).skip(1) =~= p.skip(m + 1));
                assert(due.skip(m).skip(1) =~= due.skip(m + 1));
                assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| a.len() == c.len() && #[trigger] (a + b) == #[trigger] (c + d) implies a == c && b == d by {
                    assert(a =~= (a + b).take(a.len() as int)); assert(b =~= (a + b).skip(a.len() as int)); assert(c =~= (c + d).take(a.len() as int)); assert(d =~= (c + d).skip(a.len() as int));
                }
                m = m + 1;
            }
//@ end
    // TRUSTED: reading what was written, from its beginning
    #[verifier::external_body]
    pub struct Written { x: u8 }
    impl Read for Written {
        uninterp spec fn rest(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn read_exact(&mut self, b: &mut Vec<u8>) -> (r: ArcResult<()>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn reopen<W: Write>(w: &W) -> (r: Written) ensures r.rest() == w.bytes() { unimplemented!() }
    /// an archive gives the files and the hash it was made of
    pub fn write_then_read<T: Send + 'static, U: Send + 'static, W: Write>(data: &ArchiveData<T>, w: &mut W, converter: Converter<U>) -> (r: ArcResult<ArchiveData<U>>)
        requires old(w).bytes() == Seq::<u8>::empty(), data.proper(),
        ensures r is Ok ==> r->Ok_0.raw() == data.raw() && r->Ok_0.hash == data.hash && r->Ok_0.proper() && r->Ok_0.made_by(converter),
    {
        let ghost f = in_order(data.raw());
        let r = super::write_archive::write_archive(data, w);
        if r.is_err() { return Err(ArcError); }
        let ghost p = choose|p: Files| packs(f, p) && #[trigger] laid_out(p, w.bytes());
        proof {
            assert forall|b: Seq<u8>| #[trigger] (Seq::<u8>::empty() + b) == b by { assert(Seq::<u8>::empty() + b =~= b); }
            gathered(data.raw());
        }
        let mut x = reopen(w);
        read_archive(converter, &mut x, Ghost(f), Ghost(p))
    }
}
pub mod distinct {
    use super::*;
    use super::lib_specs::*;
    use super::library::*;
    pub open spec fn spell(n: Name, b: Seq<u8>) -> Seq<u8> { u64_bytes(utf8(n).len() as u64) + utf8(n) + u64_bytes(b.len() as u64) + b }
    pub open spec fn fits_memory(f: Files) -> bool { forall|i: int| 0 <= i < f.len() ==> utf8((#[trigger] f[i]).0).len() <= u64::MAX && f[i].1.len() <= u64::MAX }
    pub proof fn spelled_first(f: Files)
        requires f.len() > 0,
        ensures spelled(f) == spell(f[0].0, f[0].1) + spelled(f.skip(1)),
        decreases f.len(),
    {
        if f.len() == 1 {
            assert(f.drop_last() =~= Files::empty()); assert(f.skip(1) =~= Files::empty());
            assert(spelled(f) =~= spell(f[0].0, f[0].1) + spelled(f.skip(1)));
        } else {
            spelled_first(f.drop_last());
            assert(f.skip(1).drop_last() =~= f.drop_last().skip(1));
            assert(f.skip(1).last() == f.last());
            assert(spelled(f) =~= spell(f[0].0, f[0].1) + spelled(f.skip(1)));
        }
    }
    pub proof fn split(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
        requires a.len() == c.len(), a + b == c + d,
        ensures a == c, b == d,
    {
        assert(a =~= (a + b).take(a.len() as int)); assert(b =~= (a + b).skip(a.len() as int));
        assert(c =~= (c + d).take(a.len() as int)); assert(d =~= (c + d).skip(a.len() as int));
    }
    pub proof fn one_way(m: Name, b: Seq<u8>, x: Seq<u8>, n: Name, c: Seq<u8>, y: Seq<u8>)
        requires spell(m, b) + x == spell(n, c) + y, utf8(m).len() <= u64::MAX, utf8(n).len() <= u64::MAX, b.len() <= u64::MAX, c.len() <= u64::MAX,
        ensures m == n, b == c, x == y,
    {
        vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes();
        let (lm, ln, lb, lc) = (utf8(m).len() as u64, utf8(n).len() as u64, b.len() as u64, c.len() as u64);
        assert(spell(m, b) + x =~= u64_bytes(lm) + (utf8(m) + (u64_bytes(lb) + (b + x))));
        assert(spell(n, c) + y =~= u64_bytes(ln) + (utf8(n) + (u64_bytes(lc) + (c + y))));
        split(u64_bytes(lm), utf8(m) + (u64_bytes(lb) + (b + x)), u64_bytes(ln), utf8(n) + (u64_bytes(lc) + (c + y)));
        split(utf8(m), u64_bytes(lb) + (b + x), utf8(n), u64_bytes(lc) + (c + y));
        split(u64_bytes(lb), b + x, u64_bytes(lc), c + y);
        split(b, x, c, y);
        vstd::utf8::encode_utf8_decode_utf8(m);
        vstd::utf8::encode_utf8_decode_utf8(n);
    }
    /// different files are hashed as different bytes
    pub proof fn different(f: Files, g: Files)
        requires spelled(f) == spelled(g), fits_memory(f), fits_memory(g),
        ensures f == g,
        decreases f.len(),
    {
        vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes();
        if f.len() > 0 { spelled_first(f); }
        if g.len() > 0 { spelled_first(g); }
        if f.len() > 0 && g.len() > 0 {
            one_way(f[0].0, f[0].1, spelled(f.skip(1)), g[0].0, g[0].1, spelled(g.skip(1)));
            assert forall|i: int| 0 <= i < f.skip(1).len() implies utf8((#[trigger] f.skip(1)[i]).0).len() <= u64::MAX && f.skip(1)[i].1.len() <= u64::MAX by { assert(f.skip(1)[i] == f[i + 1]); }
            assert forall|i: int| 0 <= i < g.skip(1).len() implies utf8((#[trigger] g.skip(1)[i]).0).len() <= u64::MAX && g.skip(1)[i].1.len() <= u64::MAX by { assert(g.skip(1)[i] == g[i + 1]); }
            different(f.skip(1), g.skip(1));
            assert(f =~= seq![f[0]] + f.skip(1));
            assert(g =~= seq![g[0]] + g.skip(1));
        } else if f.len() > 0 {
            assert(u64_bytes(utf8(f[0].0).len() as u64).len() == 8);
            assert(spelled(g).len() == 0);
        } else if g.len() > 0 {
            assert(u64_bytes(utf8(g[0].0).len() as u64).len() == 8);
            assert(spelled(f).len() == 0);
        } else { assert(f =~= g); }
    }
    /// different sets of files are hashed as different bytes, whatever their order is
    pub proof fn different_folders(a: Map<Name, Seq<u8>>, b: Map<Name, Seq<u8>>)
        requires spelled(in_order(a)) == spelled(in_order(b)), fits_memory(in_order(a)), fits_memory(in_order(b)),
        ensures a == b,
    {
        different(in_order(a), in_order(b));
        gathered(a);
        gathered(b);
    }
}
pub mod options {
    use super::*;
    use super::lib_specs::*;
    // TRUSTED: HashSet of texts
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashSet<K> { x: std::marker::PhantomData<K> }
    impl HashSet<String> {
        pub uninterp spec fn view(&self) -> Set<Name>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Set::<Name>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, n: &str) -> (r: bool) ensures r == self@.contains(n@) { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, n: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(n@) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
//@ item dochy_archiver2/src/imp/structs/archive_options.rs struct ArchiveOptions
//@ item dochy_archiver2/src/imp/structs/archive_options.rs struct ArchiveOptionsBuilder
    impl ArchiveOptions {
        /// whether files with this extension belong to the archive
        pub open spec fn takes(&self, ext: Name) -> bool { self.extensions_archived@.len() == 0 || self.extensions_archived@.contains(ext) }
//@ fn dochy_archiver2/src/imp/structs/archive_options.rs ArchiveOptions::is_archived -> r
            ensures r == self.takes(extension@),
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_options.rs ArchiveOptions::archive_subfolders -> r
            ensures r == self.archive_subfolders,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_options.rs ArchiveOptions::from -> r
//@ sub builder\s*\.extensions_archived\.into_iter\(\)\s*\.map\(\|s\| s\.to_string\(\)\)\.collect\(\) => builder.extensions_archived
            ensures r is Ok, r->Ok_0.extensions_archived@ == builder.extensions_archived@, r->Ok_0.archive_subfolders == builder.archive_subfolders,
//@ end
    }
    impl ArchiveOptionsBuilder {
//@ fn dochy_archiver2/src/imp/structs/archive_options.rs ArchiveOptionsBuilder::new -> r
            ensures r.extensions_archived@ == Set::<Name>::empty(), r.archive_subfolders,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_options.rs ArchiveOptionsBuilder::add_extension -> r
//@ sub ext\.to_string\(\) => owned(ext)
            ensures r.extensions_archived@ == self.extensions_archived@.insert(ext@), r.archive_subfolders == self.archive_subfolders,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_options.rs ArchiveOptionsBuilder::archive_subfolders -> r
            ensures r.extensions_archived@ == self.extensions_archived@, r.archive_subfolders == archive_subfolders,
//@ end
//@ fn dochy_archiver2/src/imp/structs/archive_options.rs ArchiveOptionsBuilder::build -> r
            ensures r is Ok, r->Ok_0.extensions_archived@ == self.extensions_archived@, r->Ok_0.archive_subfolders == self.archive_subfolders,
//@ end
    }
}
pub mod folder {
    use super::*;
    use super::lib_specs::*;
    use super::library::*;
    use super::archiver::*;
    use super::options::*;
    /// where something is: the names that lead there
    pub type Place = Seq<Name>;
    pub enum Thing { File(Seq<u8>), Dir, Other }
    // TRUSTED: the file system, which nobody changes meanwhile. What is in something makes that a folder; a folder is read as all things in
    // it, unless an entry is an error
    pub uninterp spec fn at(p: Place) -> Option<Thing>;
    pub axiom fn nested(p: Place, n: Name)
        requires at(p.push(n)) is Some,
        ensures at(p) == Some(Thing::Dir);
    /// the text of a path below the folder that is archived
    pub uninterp spec fn text_of(p: Place) -> Name;
    pub uninterp spec fn ext_of(n: Name) -> Name;
    // TRUSTED: paths
    #[verifier::external_body]
    pub struct Path { x: u8 }
    pub type PathBuf = Path;
    pub trait AsPath {
        spec fn place(&self) -> Place;
        fn as_ref(&self) -> (r: &Path) ensures r@ == self.place();
    }
    impl AsPath for Path {
        open spec fn place(&self) -> Place { self@ }
        fn as_ref(&self) -> (r: &Path) { self }
    }
    impl AsPath for &Path {
        open spec fn place(&self) -> Place { self@ }
        fn as_ref(&self) -> (r: &Path) { *self }
    }
    impl Path {
        pub uninterp spec fn view(&self) -> Place;
        /// going on from here by a text
        #[verifier::external_body]
        pub fn join(&self, n: &String) -> (r: PathBuf)
            ensures forall|q: Place| n@ == #[trigger] text_of(q) ==> r@ == self@ + q,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn ext(&self) -> (r: &str)
            ensures self@.len() > 0 ==> r@ == ext_of(self@.last()),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn strip_prefix(&self, p: &Path) -> (r: ArcResult<&Path>)
            ensures p@.is_prefix_of(self@) ==> r is Ok && r->Ok_0@ == self@.skip(p@.len() as int),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn text(&self) -> (r: String)
            ensures r@ == text_of(self@),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn or<'a>(r: ArcResult<&'a Path>, p: &'a Path) -> (q: &'a Path)
        ensures q == (match r { Ok(x) => x, Err(_) => p }),
    { unimplemented!() }
    #[verifier::external_body]
    pub struct Metadata { x: u8 }
    impl Metadata {
        pub uninterp spec fn thing(&self) -> Thing;
        #[verifier::external_body]
        pub fn is_file(&self) -> (r: bool) ensures r == self.thing() is File { unimplemented!() }
        #[verifier::external_body]
        pub fn is_dir(&self) -> (r: bool) ensures r == self.thing() is Dir { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct DirEntry { x: u8 }
    impl DirEntry {
        pub uninterp spec fn place(&self) -> Place;
        #[verifier::external_body]
        pub fn path(&self) -> (r: PathBuf) ensures r@ == self.place() { unimplemented!() }
        #[verifier::external_body]
        pub fn metadata(&self) -> (r: ArcResult<Metadata>)
            ensures r is Ok ==> at(self.place()) == Some(r->Ok_0.thing()),
        { unimplemented!() }
    }
    /// one of the entries is this thing, or could not be read
    pub open spec fn shows(e: Seq<ArcResult<DirEntry>>, p: Place) -> bool { exists|i: int| 0 <= i < e.len() && ((#[trigger] e[i]) is Ok ==> e[i]->Ok_0.place() == p) }
    #[verifier::external_body]
    pub fn read_dir<P: AsPath>(p: P) -> (r: ArcResult<Each<ArcResult<DirEntry>>>)
        ensures
            r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.rest().len() && (#[trigger] r->Ok_0.rest()[i]) is Ok ==> r->Ok_0.rest()[i]->Ok_0.place().len() == p.place().len() + 1 && p.place().is_prefix_of(r->Ok_0.rest()[i]->Ok_0.place()),
            r is Ok ==> forall|n: Name| at(#[trigger] p.place().push(n)) is Some ==> shows(r->Ok_0.rest(), p.place().push(n)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_file(p: Path) -> (r: ArcResult<Vec<u8>>)
        ensures r is Ok ==> at(p@) == Some(Thing::File(r->Ok_0@)),
    { unimplemented!() }
    // TRUSTED: BTreeSet of texts
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct BTreeSet<K> { x: std::marker::PhantomData<K> }
    impl BTreeSet<String> {
        pub uninterp spec fn view(&self) -> Set<Name>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Set::<Name>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
        #[verifier::external_body]
        pub fn into_iter(self) -> (r: Each<String>)
            ensures
                r.rest().len() == order(self@).len(),
                forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i])@ == order(self@)[i],
        { unimplemented!() }
    }
    /// `q` is a file below `p` that belongs to the archive
    pub open spec fn chosen(p: Place, q: Place, opt: ArchiveOptions) -> bool {
        &&& p.len() < q.len()
        &&& p.is_prefix_of(q)
        &&& at(q) is Some && at(q)->0 is File
        &&& opt.takes(ext_of(q.last()))
        &&& opt.archive_subfolders || q.len() == p.len() + 1
    }
    /// what lies above a thing are folders
    pub proof fn above(q: Place, k: int)
        requires at(q) is Some, 0 <= k < q.len(),
        ensures at(q.take(k)) == Some(Thing::Dir),
        decreases q.len(),
    {
        let d = q.drop_last();
        assert(d.push(q.last()) =~= q);
        nested(d, q.last());
        if k < d.len() { above(d, k); assert(d.take(k) =~= q.take(k)); } else { assert(q.take(k) =~= d); }
    }
    /// the things below `p` that belong to the archive and lead through `p/m`
    pub open spec fn via(p: Place, m: Name, q: Place, opt: ArchiveOptions) -> bool {
        match at(p.push(m)) {
            Some(Thing::File(_)) => q == p.push(m) && opt.takes(ext_of(m)),
            Some(Thing::Dir) => opt.archive_subfolders && chosen(p.push(m), q, opt),
            _ => false,
        }
    }
    pub proof fn through(p: Place, m: Name, opt: ArchiveOptions)
        ensures forall|q: Place| #![trigger chosen(p, q, opt)] #![trigger chosen(p.push(m), q, opt)] (chosen(p, q, opt) && q[p.len() as int] == m) <==> via(p, m, q, opt),
    {
        let d = p.push(m);
        assert forall|q: Place| #![trigger chosen(p, q, opt)] #![trigger chosen(p.push(m), q, opt)] (chosen(p, q, opt) && q[p.len() as int] == m) <==> via(p, m, q, opt) by {
            if chosen(p, q, opt) && q[p.len() as int] == m {
                assert(q.take(p.len() as int + 1) =~= d);
                if q.len() > p.len() + 1 { above(q, p.len() as int + 1); } else { assert(q =~= d); }
            }
            if chosen(d, q, opt) { assert(q[p.len() as int] == d[p.len() as int]); assert(p =~= q.take(p.len() as int)); }
            if q == d { assert(p =~= q.take(p.len() as int)); assert(d.last() == m); }
        }
    }
    /// `n` names a file below `p` that belongs to the archive and leads through one of `seen`
    pub open spec fn named(root: Place, p: Place, opt: ArchiveOptions, seen: Set<Name>, n: Name) -> bool {
        exists|q: Place| #[trigger] chosen(p, q, opt) && seen.contains(q[p.len() as int]) && n == text_of(q.skip(root.len() as int))
    }
    pub open spec fn named_all(root: Place, p: Place, opt: ArchiveOptions, n: Name) -> bool {
        exists|q: Place| #[trigger] chosen(p, q, opt) && n == text_of(q.skip(root.len() as int))
    }
    /// `b` holds `a` and the names below `p`
    pub open spec fn added(a: Set<Name>, b: Set<Name>, root: Place, p: Place, opt: ArchiveOptions) -> bool {
        forall|n: Name| #[trigger] b.contains(n) <==> a.contains(n) || named_all(root, p, opt, n)
    }
    pub open spec fn added_some(a: Set<Name>, b: Set<Name>, root: Place, p: Place, opt: ArchiveOptions, seen: Set<Name>) -> bool {
        forall|n: Name| #[trigger] b.contains(n) <==> a.contains(n) || named(root, p, opt, seen, n)
    }
    pub proof fn one_entry(a: Set<Name>, b: Set<Name>, c: Set<Name>, root: Place, p: Place, opt: ArchiveOptions, seen: Set<Name>, m: Name)
        requires
            added_some(a, b, root, p, opt, seen),
            match at(p.push(m)) {
                Some(Thing::File(_)) => c == if opt.takes(ext_of(m)) { b.insert(text_of(p.push(m).skip(root.len() as int))) } else { b },
                Some(Thing::Dir) => if opt.archive_subfolders { added(b, c, root, p.push(m), opt) } else { c == b },
                _ => c == b,
            },
        ensures added_some(a, c, root, p, opt, seen.insert(m)),
    {
        through(p, m, opt);
        let d = p.push(m);
        assert forall|n: Name| #[trigger] c.contains(n) <==> a.contains(n) || named(root, p, opt, seen.insert(m), n) by {
            assert(b.contains(n) <==> a.contains(n) || named(root, p, opt, seen, n));
            if named(root, p, opt, seen, n) {
                let q = choose|q: Place| #[trigger] chosen(p, q, opt) && seen.contains(q[p.len() as int]) && n == text_of(q.skip(root.len() as int));
                assert(seen.insert(m).contains(q[p.len() as int]));
            }
            if named(root, p, opt, seen.insert(m), n) {
                let q = choose|q: Place| #[trigger] chosen(p, q, opt) && seen.insert(m).contains(q[p.len() as int]) && n == text_of(q.skip(root.len() as int));
                if q[p.len() as int] == m { assert(chosen(d, q, opt) || q == d); } else { assert(named(root, p, opt, seen, n)); }
            }
            if c.contains(n) && !b.contains(n) {
                if at(d) == Some(Thing::Dir) {
                    let q = choose|q: Place| #[trigger] chosen(d, q, opt) && n == text_of(q.skip(root.len() as int));
                    assert(chosen(p, q, opt) && q[p.len() as int] == m);
                } else { assert(chosen(d, d, opt) || true); assert(chosen(p, d, opt) && d[p.len() as int] == m); }
            }
        }
    }
    #[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_archiver2/src/imp/read_archive_data_from_directory.rs get_paths_from_dir -> r
//@ sub AsRef<Path> => AsPath
//@ sub std::fs::read_dir => read_dir
//@ sub path\.extension\(\)\.map_or\("", \|e\| e\.to_str\(\)\.unwrap_or\(""\)\) => path.ext()
//@ sub path\.strip_prefix\(root\)\.unwrap_or\(&path\) => or(path.strip_prefix(root), &path)
//@ sub \.to_string_lossy\(\)\.to_string\(\) => .text()
//@ next 0 it
//@ loops while
        requires root@.is_prefix_of(current_path.place()),
        ensures r is Ok ==> added(old(btree)@, final(btree)@, root@, current_path.place(), *opt),
//@ start
        let ghost p = current_path.place();
//@ pre 0
        let ghost mut k: int = 0;
        let ghost all = it.rest();
        let ghost mut seen: Set<Name> = Set::empty();
        proof { assert(all.skip(0) =~= all); }
//@ loop 0
            invariant
                root@.is_prefix_of(p),
                0 <= k <= all.len(),
                it.rest() == all.skip(k),
                forall|i: int| 0 <= i < all.len() && (#[trigger] all[i]) is Ok ==> all[i]->Ok_0.place().len() == p.len() + 1 && p.is_prefix_of(all[i]->Ok_0.place()),
                forall|i: int| 0 <= i < k ==> (#[trigger] all[i]) is Ok && seen.contains(all[i]->Ok_0.place().last()),
                added_some(old(btree)@, btree@, root@, p, *opt, seen),
            ensures k == all.len(),
            decreases it.rest().len(),
//@ in 0
            let ghost before = btree@;
            proof {
                assert(dir == all[k]);
                assert(all.skip(k).skip(1) =~= all.skip(k + 1));
                if dir is Ok {
                    let e = dir->Ok_0.place();
                    let m = e.last();
                    assert(p.push(m) =~= e);
                    assert(root@.is_prefix_of(e)) by { assert(root@ =~= e.take(root@.len() as int)); }
                    assert forall|c: Set<Name>| match at(e) {
                        Some(Thing::File(_)) => c == if opt.takes(ext_of(m)) { before.insert(text_of(e.skip(root@.len() as int))) } else { before },
                        Some(Thing::Dir) => if opt.archive_subfolders { added(before, c, root@, e, *opt) } else { c == before },
                        _ => c == before,
                    } implies #[trigger] added_some(old(btree)@, c, root@, p, *opt, seen.insert(m)) by { one_entry(old(btree)@, before, c, root@, p, *opt, seen, m); }
                    seen = seen.insert(m);
                }
                k = k + 1;
            }
//@ post 0
        proof {
            assert forall|n: Name| #[trigger] btree@.contains(n) <==> old(btree)@.contains(n) || named_all(root@, p, *opt, n) by {
                if named_all(root@, p, *opt, n) {
                    let q = choose|q: Place| #[trigger] chosen(p, q, *opt) && n == text_of(q.skip(root@.len() as int));
                    let m = q[p.len() as int];
                    assert(q.take(p.len() as int + 1) =~= p.push(m));
                    if q.len() > p.len() + 1 { above(q, p.len() as int + 1); } else { assert(q =~= p.push(m)); }
                    assert(shows(all, p.push(m)));
                    let i = choose|i: int| 0 <= i < all.len() && ((#[trigger] all[i]) is Ok ==> all[i]->Ok_0.place() == p.push(m));
                    assert(seen.contains(p.push(m).last()));
                    assert(named(root@, p, *opt, seen, n));
                }
            }
        }
//@ end
    /// `m` holds exactly the files of the folder that belong to the archive, under their names relative to the folder
    pub open spec fn sources(root: Place, opt: ArchiveOptions, m: Map<Name, Seq<u8>>) -> bool {
        &&& forall|n: Name| #[trigger] m.dom().contains(n) <==> named_all(root, root, opt, n)
        &&& forall|q: Place| #[trigger] chosen(root, q, opt) ==> at(q) == Some(Thing::File(m[text_of(q.skip(root.len() as int))]))
    }
    /// what names and contents are read as depends on nothing but the names below the folder and the contents
    pub proof fn only_one(root: Place, opt: ArchiveOptions, a: Map<Name, Seq<u8>>, b: Map<Name, Seq<u8>>)
        requires sources(root, opt, a), sources(root, opt, b),
        ensures a == b,
    {
        assert forall|n: Name| #[trigger] a.dom().contains(n) implies a[n] == b[n] by {
            let q = choose|q: Place| #[trigger] chosen(root, q, opt) && n == text_of(q.skip(root.len() as int));
        }
        assert forall|n: Name| a.dom().contains(n) == b.dom().contains(n) by { }
        assert(a =~= b);
    }
//@ fn dochy_archiver2/src/imp/read_archive_data_from_directory.rs read_archive_data_from_directory -> r
//@ sub AsRef<Path> => AsPath
//@ sub impl Fn\(&str, &\[u8\]\) -> T \+ Send \+ Sync \+ 'static => Converter<T>
//@ sub std::fs::read\( => read_file(
//@ sub for path in btree => for path in btree.into_iter()
//@ next 0 it
//@ loops while
        ensures r is Ok ==> sources(path.place(), *opt, r->Ok_0.raw()) && r->Ok_0.proper() && r->Ok_0.made_by(converter),
//@ start
        let ghost top = path.place();
        proof { assert(top.is_prefix_of(top)) by { assert(top =~= top.take(top.len() as int)); } }
//@ pre 0
        let ghost mut k: int = 0;
        let ghost all = it.rest();
        let ghost names = btree@;
        proof { assert(all.skip(0) =~= all); orders(names); }
//@ loop 0
            invariant
                root@ == top,
                0 <= k <= all.len(),
                it.rest() == all.skip(k),
                all.len() == order(names).len(),
                forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i])@ == order(names)[i],
                order(names).no_duplicates(), order(names).to_set() == names,
                forall|n: Name| #[trigger] names.contains(n) <==> named_all(top, top, *opt, n),
                archiver.wf(),
                *archiver.converter == converter,
                archiver.files().len() == k,
                forall|i: int| 0 <= i < k ==> (#[trigger] archiver.files()[i]).0 == order(names)[i],
                forall|i: int, q: Place| 0 <= i < k && (#[trigger] chosen(top, q, *opt)) && (#[trigger] archiver.files()[i]).0 == text_of(q.skip(top.len() as int)) ==> at(q) == Some(Thing::File(archiver.files()[i].1)),
            ensures k == all.len(),
            decreases it.rest().len(),
//@ in 0
            proof {
                assert(path == all[k]);
                assert(all.skip(k).skip(1) =~= all.skip(k + 1));
                assert forall|q: Place| #[trigger] chosen(top, q, *opt) implies top + q.skip(top.len() as int) == q by { assert(top + q.skip(top.len() as int) =~= q); }
                k = k + 1;
            }
//@ post 0
        proof {
            let f = archiver.files();
            let m = gather(f);
            gather_has(f);
            assert forall|n: Name| #[trigger] m.dom().contains(n) <==> names.contains(n) by {
                if m.dom().contains(n) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == n && m[n] == f[i].1; assert(order(names).to_set().contains(order(names)[i])); }
                if names.contains(n) { assert(order(names).to_set().contains(n)); let i = choose|i: int| 0 <= i < order(names).len() && order(names)[i] == n; assert(f[i].0 == n); }
            }
            assert(m.dom() =~= names);
            assert forall|i: int| 0 <= i < f.len() implies m[(#[trigger] f[i]).0] == f[i].1 by {
                let n = f[i].0;
                let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j]).0 == n && m[n] == f[j].1;
                assert(order(names)[i] == order(names)[j]);
            }
            assert(in_order(m) =~= f) by { assert forall|i: int| 0 <= i < f.len() implies in_order(m)[i] == #[trigger] f[i] by { } }
            assert forall|q: Place| #[trigger] chosen(top, q, *opt) implies at(q) == Some(Thing::File(m[text_of(q.skip(top.len() as int))])) by {
                let n = text_of(q.skip(top.len() as int));
                assert(names.contains(n));
                assert(order(names).to_set().contains(n));
                let i = choose|i: int| 0 <= i < order(names).len() && order(names)[i] == n;
                assert(f[i].0 == n);
            }
            assert(sources(top, *opt, m));
        }
//@ end
}
pub mod definition {
    use super::*;
    use super::lib_specs::*;
    use super::library::*;
    use super::archiver::*;
    use super::format::*;
    use super::options::*;
    use super::folder::*;
    use super::read_archive::*;
    pub struct CoreError;
    pub type CoreResult<T> = core::result::Result<T, CoreError>;
    impl From<ArcError> for CoreError { #[verifier::external_body] fn from(e: ArcError) -> (r: CoreError) { CoreError } }
    impl From<String> for CoreError { #[verifier::external_body] fn from(e: String) -> (r: CoreError) { CoreError } }
    #[verifier::external_body]
    pub fn text_of_error(e: &CoreError) -> String { unimplemented!() }
    #[verifier::external_body]
    pub struct RootObject { x: u8 }
    #[verifier::external_body]
    pub struct ArchivingItem { x: u8 }
    pub type Parsed = CoreResult<ArchivingItem>;
    // ASSUMED: unit read (property 12): what a file is read as is determined by its name and its content, and the definition
    // made of the files by what they are read as; the hash is handed on
    pub uninterp spec fn parsed(n: Name, b: Seq<u8>) -> Parsed;
    #[verifier::external_body]
    pub fn json_file_to_rust() -> (r: Converter<Parsed>)
        ensures forall|n: Name, b: Seq<u8>, t: Parsed| #[trigger] r.makes(n, b, t) ==> t == parsed(n, b)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nothing() -> (r: Converter<()>) { unimplemented!() }
    pub uninterp spec fn root_of(m: Map<Name, Parsed>) -> CoreResult<RootObject>;
    pub open spec fn read_as(m: Map<Name, Seq<u8>>) -> Map<Name, Parsed> { m.map_entries(|n: Name, b: Seq<u8>| parsed(n, b)) }
    pub open spec fn converted(m: Map<Name, ArchiveDataItem<Parsed>>) -> Map<Name, Parsed> { m.map_values(|i: ArchiveDataItem<Parsed>| i.converted_data) }
    #[verifier::external_body]
    pub fn archive_data_to_root_with_hash(data: ArchiveData<Parsed>) -> (r: CoreResult<(RootObject, u128)>)
        ensures r is Ok ==> root_of(converted(data.btree@)) == Ok::<RootObject, CoreError>(r->Ok_0.0) && r->Ok_0.1 == data.hash,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn validate_root(r: &RootObject, b: bool) -> CoreResult<()> { unimplemented!() }
    // TRUSTED: a lazily made static has one value (which files belong to a source is left open; both ways use the same options)
    pub uninterp spec fn json_opt() -> ArchiveOptions;
    #[verifier::external_body]
    pub fn json_arc_opt() -> (r: &'static ArchiveOptions) ensures *r == json_opt() { unimplemented!() }

//@ item dochy_core/src/imp/structs/dochy_archive.rs struct DochyArchive
    /// the definition and the hash of these files
    pub open spec fn stands_for(m: Map<Name, Seq<u8>>, r: RootObject, hash: u128) -> bool {
        root_of(read_as(m)) == Ok::<RootObject, CoreError>(r) && hash == hash_of(in_order(m))
    }
    pub open spec fn faithful(d: ArchiveData<Parsed>) -> bool {
        d.proper() && converted(d.btree@) == read_as(d.raw())
    }
    pub proof fn made(d: ArchiveData<Parsed>, c: Converter<Parsed>)
        requires d.made_by(c), forall|n: Name, b: Seq<u8>, t: Parsed| #[trigger] c.makes(n, b, t) ==> t == parsed(n, b),
        ensures converted(d.btree@) == read_as(d.raw()),
    {
        assert(converted(d.btree@) =~= read_as(d.raw()));
    }
    impl DochyArchive {
//@ fn dochy_core/src/imp/structs/dochy_archive.rs DochyArchive::new -> r
            ensures r.data == data,
//@ end
//@ fn dochy_core/src/imp/structs/dochy_archive.rs DochyArchive::hash -> r
            ensures r == self.data.hash,
//@ end
//@ fn dochy_core/src/imp/structs/dochy_archive.rs DochyArchive::write_archive -> r
//@ sub write_archive\(&self\.data => super::write_archive::write_archive(&self.data
            ensures r is Ok ==> exists|p: Seq<(Name, Seq<u8>)>, b: Seq<u8>| packs(in_order(self.data.raw()), p) && #[trigger] laid_out(p, b) && final(writer).bytes() == old(writer).bytes() + b,
//@ end
//@ fn dochy_core/src/imp/structs/dochy_archive.rs DochyArchive::into_root -> r
            requires faithful(self.data),
            ensures r is Ok ==> stands_for(self.data.raw(), r->Ok_0, self.data.hash),
//@ end
    }
//@ fn dochy_core/src/imp/json_to_rust/roots/archive_data_to_root.rs archive_to_root -> r
        requires faithful(archive.data),
        ensures r is Ok ==> stands_for(archive.data.raw(), r->Ok_0, archive.data.hash),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/roots/json_dir_to_root.rs json_dir_to_archive -> r
//@ sub AsRef<Path> => AsPath
//@ sub &JSON_ARC_OPT, json_file_to_rust => json_arc_opt(), json_file_to_rust()
//@ sub in data\.btree\(\) => in data.btree().iter()
//@ sub format!\("\{\}", e\) => text_of_error(e)
//@ next 0 it
//@ loops while
        ensures r is Ok ==> sources(dir_path.place(), json_opt(), r->Ok_0.data.raw()) && faithful(r->Ok_0.data),
//@ start
        proof { assert forall|d: ArchiveData<Parsed>, c: Converter<Parsed>| #[trigger] d.made_by(c) && (forall|n: Name, b: Seq<u8>, t: Parsed| #[trigger] c.makes(n, b, t) ==> t == parsed(n, b)) implies converted(d.btree@) == read_as(d.raw()) by { made(d, c); } }
//@ loop 0
            invariant true,
            decreases it.rest().len(),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/roots/json_dir_to_root.rs json_dir_to_root_with_hash -> r
//@ sub AsRef<Path> => AsPath
        ensures r is Ok ==> exists|m: Map<Name, Seq<u8>>| #[trigger] sources(dir_path.place(), json_opt(), m) && stands_for(m, r->Ok_0.0, r->Ok_0.1),
//@ end
//@ fn dochy_core/src/imp/json_to_rust/roots/archive_src_dir.rs archive_src_dir -> r
//@ sub AsRef<Path> => AsPath
//@ sub &\*JSON_ARC_OPT => json_arc_opt()
//@ sub \|_name, _dat\| \(\), => nothing(),
//@ sub dochy_archiver2::write_archive => super::write_archive::write_archive
        ensures r is Ok ==> exists|m: Map<Name, Seq<u8>>, p: Seq<(Name, Seq<u8>)>, b: Seq<u8>| #[trigger] sources(src_dir.place(), json_opt(), m) && packs(in_order(m), p) && #[trigger] laid_out(p, b) && final(writer).bytes() == old(writer).bytes() + b,
//@ end
//@ fn dochy_core/src/imp/json_to_rust/roots/archive_file_to_root.rs read_archive_to_root_with_hash -> q
//@ sub dochy_archiver2::read_archive\(json_file_to_rust, => read_archive(json_file_to_rust(),
//@ param Ghost(m): Ghost<Map<Name, Seq<u8>>>, Ghost(p): Ghost<Files>
//@ pass read_archive Ghost(in_order(m)), Ghost(p)
        requires packs(in_order(m), p), laid_out(p, old(r).rest()),
        ensures q is Ok ==> stands_for(m, q->Ok_0.0, q->Ok_0.1),
//@ start
        proof {
            gathered(m);
            assert forall|d: ArchiveData<Parsed>, c: Converter<Parsed>| #[trigger] d.made_by(c) && (forall|n: Name, b: Seq<u8>, t: Parsed| #[trigger] c.makes(n, b, t) ==> t == parsed(n, b)) implies converted(d.btree@) == read_as(d.raw()) by { made(d, c); }
        }
//@ end
    /// the archive of a folder gives the definition and the hash of the folder
    pub fn archive_and_open<P: AsPath, W: Write>(dir: P, w: &mut W, validation: bool) -> (r: CoreResult<(RootObject, u128)>)
        requires old(w).bytes() == Seq::<u8>::empty(),
        ensures r is Ok ==> exists|m: Map<Name, Seq<u8>>| #[trigger] sources(dir.place(), json_opt(), m) && stands_for(m, r->Ok_0.0, r->Ok_0.1),
    {
        let ghost place = dir.place();
        archive_src_dir(dir, w)?;
        let ghost (m, p) = choose|m: Map<Name, Seq<u8>>, p: Seq<(Name, Seq<u8>)>| #[trigger] sources(place, json_opt(), m) && packs(in_order(m), p) && #[trigger] laid_out(p, w.bytes());
        proof { assert forall|b: Seq<u8>| #[trigger] (Seq::<u8>::empty() + b) == b by { assert(Seq::<u8>::empty() + b =~= b); } }
        let mut x = reopen(w);
        read_archive_to_root_with_hash(&mut x, validation, Ghost(m), Ghost(p))
    }
    /// both ways of reading the sources of a folder agree
    pub fn both_ways(a: RootObject, ha: u128, b: RootObject, hb: u128, Ghost(dir): Ghost<Place>)
        requires
            exists|m: Map<Name, Seq<u8>>| #[trigger] sources(dir, json_opt(), m) && stands_for(m, a, ha),
            exists|m: Map<Name, Seq<u8>>| #[trigger] sources(dir, json_opt(), m) && stands_for(m, b, hb),
        ensures a == b, ha == hb,
    {
        proof {
            let m = choose|m: Map<Name, Seq<u8>>| #[trigger] sources(dir, json_opt(), m) && stands_for(m, a, ha);
            let n = choose|m: Map<Name, Seq<u8>>| #[trigger] sources(dir, json_opt(), m) && stands_for(m, b, hb);
            only_one(dir, json_opt(), m, n);
        }
    }
}
}
fn main() {}
