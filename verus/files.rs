#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: Dochy files in a save folder (property 19).
use vstd::prelude::*;

// messages are dropped
macro_rules! format { ($($t:tt)*) => { crate::lib_specs::text() } }

verus! {
global size_of usize == 8;

pub mod lib_specs {
    use super::*;
    pub struct FsError;
    pub type FsResult<T> = core::result::Result<T, FsError>;
    impl From<&str> for FsError {
        #[verifier::external_body]
        fn from(s: &str) -> (r: FsError) { FsError }
    }
    impl From<String> for FsError {
        #[verifier::external_body]
        fn from(s: String) -> (r: FsError) { FsError }
    }
    #[verifier::external_body]
    pub fn text() -> (r: String) { String::new() }

    // ------------------------------------------------------------------ the file system
    pub type Name = Seq<char>;
    pub type Place = Seq<Name>;
    /// what a folder tree holds: files with their bytes, folders
    pub struct Tree { pub files: Map<Place, Seq<u8>>, pub dirs: Set<Place> }
    /// the file `p` is what it was
    pub open spec fn same(a: Tree, b: Tree, p: Place) -> bool {
        a.files.dom().contains(p) == b.files.dom().contains(p) && (a.files.dom().contains(p) ==> a.files[p] == b.files[p])
    }
    /// nothing but the contents of the file `p` may have changed
    pub open spec fn only(a: Tree, b: Tree, p: Place) -> bool {
        a.dirs == b.dirs && b.files.dom().contains(p) && forall|q: Place| #![trigger a.files.dom().contains(q)] #![trigger b.files.dom().contains(q)] #![trigger same(a, b, q)] q != p ==> same(a, b, q)
    }
    /// The state of the disk. It is handed through the functions as an erased parameter.
    #[verifier::external_body]
    pub tracked struct Disk { x: () }
    impl Disk { pub uninterp spec fn view(self) -> Tree; }
    /// no call fails
    pub uninterp spec fn sound(d: Disk) -> bool;

    /// a text that names something directly in a folder: not empty, no `/`, not `.` or `..`
    pub uninterp spec fn plain(n: Name) -> bool;
    /// where joining any other text leads
    pub uninterp spec fn elsewhere(p: Place, n: Name) -> Place;
    pub open spec fn inside(p: Place, n: Name) -> Place { if plain(n) { p.push(n) } else { elsewhere(p, n) } }

    #[verifier::external_body]

    pub struct OsStr { x: u8 }
    impl OsStr { pub uninterp spec fn view(&self) -> Name; }
    pub type OsString = OsStr;
    pub trait Text {
        spec fn name(&self) -> Name;
    }
    impl Text for &str { open spec fn name(&self) -> Name { self@ } }
    impl Text for &String { open spec fn name(&self) -> Name { self@ } }
    impl Text for &OsStr { open spec fn name(&self) -> Name { self@ } }

    // TRUSTED: paths. Joining the name of something in a folder gives the path of that thing; parent and file_name take it apart again
    #[verifier::external_body]
    pub struct Path { x: u8 }
    pub type PathBuf = Path;
    pub trait AsPath {
        spec fn place(&self) -> Place;
        fn as_ref(&self) -> (r: &Path) ensures r@ == self.place();
    }
    impl AsPath for Path {
        open spec fn place(&self) -> Place { self@ }
        fn as_ref(&self) -> (r: &Path) { self }
    }
    impl AsPath for &Path {
        open spec fn place(&self) -> Place { self@ }
        fn as_ref(&self) -> (r: &Path) { *self }
    }
    impl Path {
        pub uninterp spec fn view(&self) -> Place;
        #[verifier::external_body]
        pub fn join<N: Text>(&self, n: N) -> (r: PathBuf)
            ensures r@ == inside(self@, n.name()),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn parent(&self) -> (r: Option<&Path>)
            ensures r is Some == (self@.len() > 0), r is Some ==> r->0@ == self@.drop_last(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn file_name(&self) -> (r: Option<&OsStr>)
            ensures r is Some == (self@.len() > 0), r is Some ==> r->0@ == self@.last(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn exists(&self, Tracked(disk): Tracked<&Disk>) -> (r: bool)
            ensures r == (disk@.files.dom().contains(self@) || disk@.dirs.contains(self@)),
        { unimplemented!() }
    }
    // TRUSTED: `Path::new(s).file_name() == Some(OsStr::new(s))` holds exactly for the names of things in a folder
    #[verifier::external_body]
    pub fn is_file_name(s: &str) -> (r: bool)
        ensures r == plain(s@),
    { unimplemented!() }
    // TRUSTED: the reserved names are such names
    pub broadcast axiom fn reserved_plain()
        ensures #[trigger] plain(super::reserved_filename::ARCHIVE_DEFAULT_NAME@), plain(super::reserved_filename::CREATED_TIME_FILE_NAME@);

    // TRUSTED: creating, opening, writing and removing files and folders. A call that fails leaves everything as it was, except
    // that a file being written may then hold anything
    #[verifier::external_body]
    pub struct File { x: u8 }
    impl File {
        pub uninterp spec fn at(&self) -> Place;
        pub uninterp spec fn rest(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn create(p: &Path, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<File>)
            ensures
                r is Ok ==> r->Ok_0.at() == p@ && p@.len() > 0 && old(disk)@.dirs.contains(p@.drop_last()) && !old(disk)@.dirs.contains(p@) && only(old(disk)@, final(disk)@, p@) && final(disk)@.files[p@] == Seq::<u8>::empty(),
                r is Err ==> final(disk)@ == old(disk)@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn open(p: &Path, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<File>)
            ensures
                r is Ok ==> disk@.files.dom().contains(p@) && r->Ok_0.at() == p@ && r->Ok_0.rest() == disk@.files[p@],
                sound(*disk) && disk@.files.dom().contains(p@) ==> r is Ok,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn write_all(&mut self, b: &[u8], Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
            requires old(disk)@.files.dom().contains(old(self).at()),
            ensures
                final(self).at() == old(self).at(),
                only(old(disk)@, final(disk)@, old(self).at()),
                r is Ok ==> final(disk)@.files[old(self).at()] == old(disk)@.files[old(self).at()] + b@,
        { unimplemented!() }
    }
    pub trait Write {
        /// the file a sink writes to
        spec fn target(&self) -> Place;
    }
    impl Write for File { open spec fn target(&self) -> Place { self.at() } }
    #[verifier::external_body]
    pub fn create_dir(p: &Path, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
        ensures
            final(disk)@.files == old(disk)@.files,
            r is Ok ==> final(disk)@.dirs == old(disk)@.dirs.insert(p@),
            r is Err ==> final(disk)@ == old(disk)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: PathBuf, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
        ensures
            final(disk)@.dirs == old(disk)@.dirs,
            r is Ok ==> old(disk)@.files.dom().contains(p@) && final(disk)@.files == old(disk)@.files.remove(p@),
            r is Err ==> final(disk)@ == old(disk)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir_all(p: PathBuf, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
        ensures
            forall|q: Place| !p@.is_prefix_of(q) ==> #[trigger] same(old(disk)@, final(disk)@, q),
    { unimplemented!() }
    // TRUSTED: copying a file to a sink
    #[verifier::external_body]
    pub fn copy<W: Write>(f: &mut File, w: &mut W, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<u64>)
        requires old(disk)@.files.dom().contains(old(w).target()),
        ensures
            final(w).target() == old(w).target(),
            only(old(disk)@, final(disk)@, old(w).target()),
            r is Ok ==> final(disk)@.files[old(w).target()] == old(disk)@.files[old(w).target()] + old(f).rest(),
    { unimplemented!() }

    // ------------------------------------------------------------------ objects, diffs and archives
    /// the visible state of an object
    pub struct State { x: int }
    #[verifier::external_body]
    pub struct RootObject { x: u8 }
    impl RootObject { pub uninterp spec fn view(&self) -> State; }
    impl Clone for RootObject {
        #[verifier::external_body]
        fn clone(&self) -> (r: RootObject) ensures r@ == self@ { unimplemented!() }
    }
    /// bytes that turn one state into another
    pub uninterp spec fn is_diff(old: State, new: State, b: Seq<u8>) -> bool;
    /// the state an object of one source has under another source
    pub uninterp spec fn converted(source: State, old: State, r: State) -> bool;
    /// bytes that hold the source an object starts from
    pub uninterp spec fn holds(b: Seq<u8>, source: State) -> bool;
    /// the object the source in a folder starts from; it does not change while the program runs
    pub uninterp spec fn dir_holds(p: Place, source: State) -> bool;
    /// the object that the source with this hash starts from
    pub uninterp spec fn source_of(hash: u128) -> State;
    /// the text of a hash
    pub uninterp spec fn folder(hash: u128) -> Name;

    // ASSUMED: units diff and diffio (property 7): a diff turns the old state into the new one
    pub mod dochy_diff {
        use super::*;
        #[verifier::external_body]
        pub fn get_diff(old: &RootObject, new: &RootObject) -> (r: FsResult<Vec<u8>>)
            ensures r is Ok ==> is_diff(old@, new@, r->Ok_0@),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn apply_diff(root: &mut RootObject, f: &mut File) -> (r: FsResult<()>)
        ensures forall|new: State| r is Ok && #[trigger] is_diff(old(root)@, new, old(f).rest()) ==> final(root)@ == new,
    { unimplemented!() }
    // ASSUMED: unit convert (property 11)
    #[verifier::external_body]
    pub fn adjust_versions(source: RootObject, old: RootObject, validation: bool) -> (r: FsResult<RootObject>)
        ensures r is Ok ==> converted(source@, old@, r->Ok_0@),
    { unimplemented!() }
    // ASSUMED: unit hash (property 15): names of folders
    #[verifier::external_body]
    pub fn folder_name_to_hash(n: &OsStr) -> (r: Option<u128>)
        ensures
            r is Some ==> n@ == folder(r->0),
            r is None ==> forall|h: u128| n@ != #[trigger] folder(h),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_to_folder_name(h: u128) -> (r: OsString)
        ensures r@ == folder(h),
    { unimplemented!() }
    pub broadcast axiom fn folder_plain(h: u128)
        ensures plain(#[trigger] folder(h));
    pub axiom fn folder_once(a: u128, b: u128)
        ensures folder(a) == folder(b) ==> a == b;
    // ASSUMED: unit archive (property 13): an archive holds the source it was made of
    pub mod dochy_core {
        use super::*;
        #[verifier::external_body]
        pub fn archive_src_dir<W: Write>(dir: &Path, w: &mut W, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
            requires old(disk)@.files.dom().contains(old(w).target()),
            ensures
                final(w).target() == old(w).target(),
                only(old(disk)@, final(disk)@, old(w).target()),
                r is Ok ==> forall|s: State| dir_holds(dir@, s) && old(disk)@.files[old(w).target()] == Seq::<u8>::empty() ==> #[trigger] holds(final(disk)@.files[old(w).target()], s),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn archive_file_to_root(p: PathBuf, validation: bool, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<RootObject>)
        ensures r is Ok ==> disk@.files.dom().contains(p@) && forall|s: State| #[trigger] holds(disk@.files[p@], s) ==> r->Ok_0@ == s,
    { unimplemented!() }
}

pub mod reserved_filename {
    use super::*;
    use super::lib_specs::*;
//@ item dochy_fs/src/imp/common/path/reserved_filename.rs const ARCHIVE_DEFAULT_NAME
//@ item dochy_fs/src/imp/common/path/reserved_filename.rs const CREATED_TIME_FILE_NAME
    /// the names of the bookkeeping files
    pub open spec fn reserved(n: Name) -> bool { n == ARCHIVE_DEFAULT_NAME@ || n == CREATED_TIME_FILE_NAME@ }
//@ fn dochy_fs/src/imp/common/path/reserved_filename.rs is_plain_filename -> r
//@ sub? std::path::Path::new\((\w+)\)\.file_name\(\) == Some\(std::ffi::OsStr::new\(\1\)\) => is_file_name(\1)
        ensures r == plain(filename@),
//@ end
//@ fn dochy_fs/src/imp/common/path/reserved_filename.rs is_reserved_filename -> r
        ensures r == reserved(filename@),
//@ end
}

pub mod paths {
    use super::*;
    use super::lib_specs::*;
    use super::reserved_filename::*;
    broadcast use {folder_plain, reserved_plain};
    /// the folder of a source, its archive and the file with its creation time
    pub open spec fn home(save: Place, h: u128) -> Place { save.push(folder(h)) }
    pub open spec fn archive(save: Place, h: u128) -> Place { home(save, h).push(ARCHIVE_DEFAULT_NAME@) }
    pub open spec fn birth(save: Place, h: u128) -> Place { home(save, h).push(CREATED_TIME_FILE_NAME@) }
    /// files lie in folders
    pub open spec fn sane(t: Tree) -> bool { forall|p: Place| #[trigger] t.files.dom().contains(p) ==> p.len() > 0 && t.dirs.contains(p.drop_last()) && !t.dirs.contains(p) }
    /// every archive holds the source of its folder
    pub open spec fn kept(t: Tree, save: Place) -> bool {
        forall|h: u128| t.files.dom().contains(#[trigger] archive(save, h)) ==> holds(t.files[archive(save, h)], source_of(h))
    }
//@ fn dochy_fs/src/imp/common/path/hash_dir_path.rs hash_dir_path -> r
//@ sub AsRef<Path> => AsPath
        ensures r@ == home(proj_dir.place(), hash),
//@ end
//@ fn dochy_fs/src/imp/common/archive/get_archive_path.rs get_archive_path -> r
//@ sub AsRef<Path> => AsPath
        ensures r@ == dir_path.place().push(ARCHIVE_DEFAULT_NAME@),
//@ end
//@ fn dochy_fs/src/imp/common/archive/get_archive_path.rs get_archive_path2 -> r
//@ sub AsRef<Path> => AsPath
        ensures r@ == archive(history_dir.place(), hash),
//@ end
//@ fn dochy_fs/src/imp/common/path/remove_hash_dir.rs remove_hash_dir -> r
//@ sub AsRef<Path> => AsPath
//@ sub std::fs::remove_dir_all => remove_dir_all
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass remove_dir_all Tracked(&mut *disk)
        ensures forall|q: Place| !home(proj_dir.place(), hash).is_prefix_of(q) ==> #[trigger] same(old(disk)@, final(disk)@, q),
//@ end
}

pub mod current_src {
    use super::*;
    use super::lib_specs::*;
    use super::paths::*;
//@ item dochy_fs/src/imp/common/current_src/current_src.rs enum CurrentSrc
    /// a source, and the object it starts from
    pub open spec fn starts(c: CurrentSrc, s: State, t: Tree) -> bool {
        match c {
            CurrentSrc::SrcDir(p) => dir_holds(p@, s),
            CurrentSrc::ArchiveFile(p) => t.files.dom().contains(p@) && holds(t.files[p@], s),
        }
    }
    pub open spec fn lies_at(c: CurrentSrc, p: Place) -> bool { c is ArchiveFile && c->ArchiveFile_0@ == p }
    impl CurrentSrc {
//@ fn dochy_fs/src/imp/common/current_src/current_src.rs CurrentSrc::create_archive -> r
//@ sub? std::fs::File::open => File::open
//@ sub? std::io::copy => copy
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass dochy_core::archive_src_dir Tracked(&mut *disk)
//@ pass File::open Tracked(&*disk)
//@ pass copy Tracked(&mut *disk)
            requires
                old(disk)@.files.dom().contains(old(write).target()),
                old(disk)@.files[old(write).target()] == Seq::<u8>::empty(),
                !lies_at(*self, old(write).target()),
            ensures
                final(write).target() == old(write).target(),
                only(old(disk)@, final(disk)@, old(write).target()),
                r is Ok ==> forall|s: State| starts(*self, s, old(disk)@) ==> #[trigger] holds(final(disk)@.files[old(write).target()], s),
//@ start
        proof { assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
//@ end
    }
}

pub mod save_dir_info {
    use super::*;
    use super::lib_specs::*;
    use super::current_src::*;
//@ item dochy_fs/src/imp/filesys/save_dir_info.rs struct SaveDirInfo
//@ item dochy_fs/src/imp/filesys/save_cache_item.rs struct SaveCacheItem
//@ sub pub\s+queued\s*:\s*AtomicUsize,? => 
    impl SaveDirInfo {
//@ fn dochy_fs/src/imp/filesys/save_dir_info.rs SaveDirInfo::new -> r
            ensures r.save_dir == save_dir, r.current_src == current_src, r.hash == hash, r.src_root == src_root,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_dir_info.rs SaveDirInfo::save_dir -> r
            ensures r@ == self.save_dir@,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_dir_info.rs SaveDirInfo::current_src -> r
            ensures *r == self.current_src,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_dir_info.rs SaveDirInfo::hash -> r
            ensures r == self.hash,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_dir_info.rs SaveDirInfo::clone_src_root -> r
            ensures r@ == self.src_root@,
//@ end
    }
    impl SaveCacheItem {
//@ fn dochy_fs/src/imp/filesys/save_cache_item.rs SaveCacheItem::new -> r
//@ sub ,\s*queued : AtomicUsize::new\(0\) =>
            ensures r.info == info,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_item.rs SaveCacheItem::clone_dir_info -> r
            ensures alike(r, self.info),
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_item.rs SaveCacheItem::save_dir -> r
            ensures r@ == self.info.save_dir@,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_item.rs SaveCacheItem::current_src -> r
            ensures *r == self.info.current_src,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_item.rs SaveCacheItem::hash -> r
            ensures r == self.info.hash,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_item.rs SaveCacheItem::clone_src_root -> r
            ensures r@ == self.info.src_root@,
//@ end
    }
    // The tables of folders and of sources are handed through the functions as parameters, where the program locks them.
    // TRUSTED: a mutex lets one thread in at a time; HashMap is a map, a folder is found by its path and a source by its kind and path
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Mutex<T> { x: T }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct MutexGuard<'a, T> { x: &'a T }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Locked<T> { x: T }
    impl<T> Locked<T> {
        #[verifier::external_body]
        pub fn unwrap(self) -> T { unimplemented!() }
    }
    impl<T> Mutex<T> {
        #[verifier::external_body]
        pub fn new(v: T) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn lock<'a>(&'a self) -> Locked<MutexGuard<'a, T>> { unimplemented!() }
    }
    pub struct Box<T> { pub v: T }
    impl<T> Box<T> {
        pub fn new(v: T) -> (r: Self) ensures r.v == v { Box { v } }
        pub fn as_ref(&self) -> (r: &T) ensures *r == self.v { &self.v }
    }
    pub open spec fn key(c: CurrentSrc) -> (bool, Place) {
        match c { CurrentSrc::SrcDir(p) => (true, p@), CurrentSrc::ArchiveFile(p) => (false, p@) }
    }
    pub trait Key { type K; spec fn key(&self) -> Self::K; }
    impl Key for Path { type K = Place; open spec fn key(&self) -> Place { self@ } }
    impl Key for CurrentSrc { type K = (bool, Place); open spec fn key(&self) -> (bool, Place) { key(*self) } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(Q)]
    #[verifier::reject_recursive_types(V)]
    pub struct HashMap<Q: Key, V> { x: (Q, V) }
    impl<Q: Key, V> HashMap<Q, V> {
        pub uninterp spec fn view(&self) -> Map<Q::K, V>;
        #[verifier::external_body]
        pub fn get(&self, k: &Q) -> (r: Option<&V>)
            ensures r is Some == self@.contains_key(k.key()), r is Some ==> *r->0 == self@[k.key()],
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: Q, v: V) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    }
    // TRUSTED: clones are equal
    impl Path {
        #[verifier::external_body]
        pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    }
    impl Clone for CurrentSrc {
        #[verifier::external_body]
        fn clone(&self) -> (r: CurrentSrc) ensures key(r) == key(*self) { unimplemented!() }
    }
    impl Clone for SaveDirInfo {
        #[verifier::external_body]
        fn clone(&self) -> (r: SaveDirInfo) ensures alike(r, *self) { unimplemented!() }
    }
    impl Clone for CurrentSrcInfo {
        #[verifier::external_body]
        fn clone(&self) -> (r: CurrentSrcInfo) ensures key(r.current_src) == key(self.current_src), r.hash == self.hash, r.src_root@ == self.src_root@ { unimplemented!() }
    }
    pub open spec fn alike(a: SaveDirInfo, b: SaveDirInfo) -> bool {
        a.save_dir@ == b.save_dir@ && key(a.current_src) == key(b.current_src) && a.hash == b.hash && a.src_root@ == b.src_root@
    }
    pub type Folders = HashMap<PathBuf, Box<(SaveCacheItem, Mutex<()>)>>;
    pub open spec fn registered(m: &Folders, p: Place) -> SaveDirInfo { m@[p].v.0.info }
    // ASSUMED: units read and archive (properties 12 and 13): what a source is read as
    pub uninterp spec fn gives(k: (bool, Place), s: State, hash: u128) -> bool;
    #[verifier::external_body]
    pub fn json_dir_to_root_with_hash(p: &PathBuf, validation: bool) -> (r: FsResult<(RootObject, u128)>)
        ensures r is Ok ==> gives((true, p@), r->Ok_0.0@, r->Ok_0.1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn archive_file_to_root_with_hash(p: &PathBuf, validation: bool) -> (r: FsResult<(RootObject, u128)>)
        ensures r is Ok ==> gives((false, p@), r->Ok_0.0@, r->Ok_0.1),
    { unimplemented!() }
//@ item dochy_fs/src/imp/common/current_src/current_src_info.rs struct CurrentSrcInfo
    impl CurrentSrcInfo {
//@ fn dochy_fs/src/imp/common/current_src/current_src_info.rs CurrentSrcInfo::new -> r
            ensures r.current_src == current_src, r.src_root == src_root, r.hash == hash,
//@ end
//@ fn dochy_fs/src/imp/common/current_src/current_src_info.rs CurrentSrcInfo::current_src -> r
            ensures *r == self.current_src,
//@ end
//@ fn dochy_fs/src/imp/common/current_src/current_src_info.rs CurrentSrcInfo::clone_src_root -> r
            ensures r@ == self.src_root@,
//@ end
//@ fn dochy_fs/src/imp/common/current_src/current_src_info.rs CurrentSrcInfo::hash -> r
            ensures r == self.hash,
//@ end
    }
    pub type Sources = HashMap<CurrentSrc, Box<CurrentSrcInfo>>;
    pub open spec fn told_of(k: (bool, Place), c: CurrentSrcInfo) -> bool { key(c.current_src) == k && gives(k, c.src_root@, c.hash) }
    /// every source in the table is what it was read as
    pub open spec fn faithful(m: Map<(bool, Place), Box<CurrentSrcInfo>>) -> bool {
        forall|k: (bool, Place)| #[trigger] m.contains_key(k) ==> told_of(k, m[k].v)
    }
    /// an info stands for its folder and the source it was made with
    pub open spec fn proper(i: SaveDirInfo, p: Place) -> bool { i.save_dir@ == p && gives(key(i.current_src), i.src_root@, i.hash) }
    pub open spec fn folders_ok(m: Map<Place, Box<(SaveCacheItem, Mutex<()>)>>) -> bool {
        forall|p: Place| #[trigger] m.contains_key(p) ==> proper(m[p].v.0.info, p)
    }
//@ fn dochy_fs/src/imp/common/current_src/current_src_map.rs create_root_and_hash -> r
        ensures r is Ok ==> gives(key(*current_src), r->Ok_0.0@, r->Ok_0.1),
//@ end
//@ fn dochy_fs/src/imp/common/current_src/current_src_map.rs get_current_src_info -> r
//@ sub let mut map = MAP\.lock\(\)\.unwrap\(\); =>
//@ param map: &mut Sources
        requires faithful(old(map)@),
        ensures
            faithful(final(map)@),
            r is Ok ==> told_of(key(current_src), r->Ok_0),
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_map.rs create_save_dir_info -> r
//@ param sources: &mut Sources
//@ pass get_current_src_info &mut *sources
        requires faithful(old(sources)@),
        ensures
            faithful(final(sources)@),
            r is Ok ==> proper(r->Ok_0, save_dir@) && key(r->Ok_0.current_src) == key(current_src),
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_map.rs cache_and_get_info -> r
//@ sub let mut map = MAP\.lock\(\)\.unwrap\(\); =>
//@ param map: &mut Folders, sources: &mut Sources
//@ pass create_save_dir_info &mut *sources
        requires faithful(old(sources)@), folders_ok(old(map)@),
        ensures
            faithful(final(sources)@), folders_ok(final(map)@),
            r is Ok ==> final(map)@.contains_key(save_dir@) && alike(r->Ok_0, registered(final(map), save_dir@)) && proper(r->Ok_0, save_dir@),
            // a folder keeps the source it was first used with, and other folders are left alone
            old(map)@.contains_key(save_dir@) ==> final(map)@ == old(map)@,
            r is Ok && !old(map)@.contains_key(save_dir@) ==> key(r->Ok_0.current_src) == key(current_src),
            forall|p: Place| #[trigger] old(map)@.contains_key(p) ==> final(map)@.contains_key(p) && final(map)@[p] == old(map)@[p],
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_map.rs get_map_item -> r
//@ sub let map = MAP\.lock\(\)\.unwrap\(\); =>
//@ sub let ptr : \*const \(SaveCacheItem, Mutex<\(\)>\) = => let ptr =
//@ sub unsafe\s*\{\s*&\s*\*\s*ptr\s*\} => ptr
//@ param map: &'a Folders
        ensures r is Some == map@.contains_key(save_dir@), r is Some ==> *r->0 == map@[save_dir@].v,
//@ end
//@ fn dochy_fs/src/imp/filesys/save_cache_map.rs get_cache -> r
//@ param map: &'a Folders
//@ pass get_map_item map
        ensures r is Some == map@.contains_key(save_dir@), r is Some ==> *r->0 == map@[save_dir@].v.0,
//@ end
//@ item dochy_fs/src/imp/filesys/dochy_mutex.rs struct DochyMutex
    impl<'a> DochyMutex<'a> {
//@ fn dochy_fs/src/imp/filesys/dochy_mutex.rs DochyMutex::new -> r
//@ sub cache\.queued_atomic\(\)\.fetch_add\(1, Ordering::Relaxed\); =>
            ensures *r.cache == *cache,
//@ end
//@ fn dochy_fs/src/imp/filesys/dochy_mutex.rs DochyMutex::cache -> r
            ensures *r == *self.cache,
//@ end
    }
//@ fn dochy_fs/src/imp/filesys/save_cache_map.rs get_mutex -> r
//@ param map: &'a Folders
//@ pass get_map_item map
        ensures r is Some == map@.contains_key(save_dir@), r is Some ==> *(r->0).cache == map@[save_dir@].v.0,
//@ end
}

pub mod filesys {
    use super::*;
    use super::lib_specs::*;
    use super::reserved_filename::*;
    use super::paths::*;
    use super::current_src::*;
    use super::save_dir_info::*;
    broadcast use {folder_plain, reserved_plain};

    // TRUSTED: writing the time file (its contents: unit hash)
    #[verifier::external_body]
    pub struct SystemTime { x: u8 }
    impl SystemTime {
        #[verifier::external_body]
        pub fn now() -> SystemTime { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn create_time_dat(time: SystemTime, f: &mut File, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<()>)
        requires old(disk)@.files.dom().contains(old(f).at()),
        ensures
            only(old(disk)@, final(disk)@, old(f).at()),
    { unimplemented!() }

    /// what was there is still there, and new files are only the ones named
    pub open spec fn adds_only(a: Tree, b: Tree, p: Place, q: Place) -> bool {
        &&& sane(b)
        &&& forall|x: Place| #![trigger a.files.dom().contains(x)] #![trigger b.files.dom().contains(x)] #![trigger same(a, b, x)] same(a, b, x) || !a.files.dom().contains(x) && (x == p || x == q)
        &&& a.dirs.subset_of(b.dirs)
    }
//@ fn dochy_fs/src/imp/common/path/prepare_hash_dir.rs get_or_make_hash_dir_path -> r
//@ sub std::fs::create_dir => create_dir
//@ sub File::create\(time_file_path\) => File::create(&time_file_path)
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass .exists Tracked(&*disk)
//@ pass create_dir Tracked(&mut *disk)
//@ pass File::create Tracked(&mut *disk)
//@ pass create_time_dat Tracked(&mut *disk)
        requires sane(old(disk)@),
        ensures
            adds_only(old(disk)@, final(disk)@, birth(proj_dir@, hash), birth(proj_dir@, hash)),
            r is Ok ==> r->Ok_0@ == home(proj_dir@, hash),
//@ start
        proof { assert(birth(proj_dir@, hash).drop_last() =~= home(proj_dir@, hash)); }
//@ end
//@ fn dochy_fs/src/imp/common/path/prepare_hash_dir.rs prepare_hash_dir -> r
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass get_or_make_hash_dir_path Tracked(&mut *disk)
//@ pass .exists Tracked(&*disk)
//@ pass File::create Tracked(&mut *disk)
//@ pass src.create_archive Tracked(&mut *disk)
        requires
            sane(old(disk)@),
            starts(*src, source_of(hash), old(disk)@),
            !lies_at(*src, archive(proj_dir@, hash)),
        ensures
            adds_only(old(disk)@, final(disk)@, birth(proj_dir@, hash), archive(proj_dir@, hash)),
            r is Ok ==> r->Ok_0@ == home(proj_dir@, hash),
            r is Ok && kept(old(disk)@, proj_dir@) ==> kept(final(disk)@, proj_dir@),
//@ start
        proof {
            names_apart(proj_dir@);
            assert(archive(proj_dir@, hash).drop_last() =~= home(proj_dir@, hash));
        }
//@ end
    /// different places of different folders
    pub proof fn names_apart(save: Place)
        ensures
            forall|a: u128, b: u128| #[trigger] archive(save, a) == #[trigger] archive(save, b) ==> a == b,
            forall|a: u128, b: u128| #[trigger] archive(save, a) != #[trigger] birth(save, b),
    {
        assert forall|a: u128, b: u128| #[trigger] archive(save, a) == #[trigger] archive(save, b) implies a == b by {
            assert(archive(save, a)[save.len() as int] == folder(a) && archive(save, b)[save.len() as int] == folder(b));
            folder_once(a, b);
        }
        assert forall|a: u128, b: u128| #[trigger] archive(save, a) != #[trigger] birth(save, b) by {
            reveal_strlit("src.archive"); reveal_strlit("created_time.dat");
            assert(archive(save, a)[save.len() as int + 1] == ARCHIVE_DEFAULT_NAME@ && birth(save, b)[save.len() as int + 1] == CREATED_TIME_FILE_NAME@);
            assert(ARCHIVE_DEFAULT_NAME@.len() != CREATED_TIME_FILE_NAME@.len());
        }
    }
    pub open spec fn info_ok(c: SaveDirInfo, save: Place, t: Tree) -> bool {
        &&& c.save_dir@ == save
        &&& c.src_root@ == source_of(c.hash)
        &&& starts(c.current_src, source_of(c.hash), t)
        &&& !lies_at(c.current_src, archive(save, c.hash))
    }
//@ fn dochy_fs/src/imp/filesys/save_dochy_file.rs save_dochy_file -> r
//@ param map: &Folders, Tracked(disk): Tracked<&mut Disk>
//@ pass get_mutex map
//@ pass prepare_hash_dir Tracked(&mut *disk)
//@ pass .exists Tracked(&*disk)
//@ pass File::create Tracked(&mut *disk)
//@ pass file.write_all Tracked(&mut *disk)
        requires
            sane(old(disk)@),
            map@.contains_key(info.save_dir@),
            info_ok(registered(map, info.save_dir@), info.save_dir@, old(disk)@),
        ensures
            ({
                let c = registered(map, info.save_dir@);
                let (a, b) = (old(disk)@, final(disk)@);
                let save = info.save_dir@;
                let target = home(save, c.hash).push(file_name@);
                &&& r is Ok ==> {
                    &&& plain(file_name@) && !reserved(file_name@)
                    &&& overwrite || !a.files.dom().contains(target)
                    &&& r->Ok_0@ == target
                    &&& b.files.dom().contains(target) && is_diff(c.src_root@, root@, b.files[target])
                    &&& kept(a, save) ==> kept(b, save)
                }
                // no other file is touched
                &&& forall|x: Place| #[trigger] same(a, b, x)
                    || !a.files.dom().contains(x) && (x == birth(save, c.hash) || x == archive(save, c.hash))
                    || x == target && plain(file_name@) && !reserved(file_name@) && (overwrite || !a.files.dom().contains(x))
                &&& sane(b)
            }),
//@ start
        proof {
            let c = registered(map, info.save_dir@);
            let save = info.save_dir@;
            let target = home(save, c.hash).push(file_name@);
            names_apart(save);
            assert(target.drop_last() =~= home(save, c.hash));
            assert(target.last() == file_name@ && birth(save, c.hash).last() == CREATED_TIME_FILE_NAME@);
            assert forall|h: u128| (#[trigger] archive(save, h)) == target implies file_name@ == ARCHIVE_DEFAULT_NAME@ by { assert(archive(save, h).last() == ARCHIVE_DEFAULT_NAME@); }
            assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); }
        }
//@ end
//@ fn dochy_fs/src/imp/filesys/remove_dochy_file.rs remove_dochy_file -> r
//@ sub AsRef<Path> => AsPath
//@ sub? std::fs::remove_file => remove_file
//@ param Tracked(disk): Tracked<&mut Disk>
//@ pass remove_file Tracked(&mut *disk)
        ensures
            r is Ok ==> {
                let target = home(save_dir.place(), hash).push(filename@);
                &&& plain(filename@) && !reserved(filename@)
                &&& old(disk)@.files.dom().contains(target)
                &&& final(disk)@.files == old(disk)@.files.remove(target)
            },
            r is Err ==> final(disk)@ == old(disk)@,
//@ end
//@ fn dochy_fs/src/imp/filesys/load_dochy_file.rs load_dochy_file -> r
//@ sub AsRef<Path> => AsPath
//@ sub? \.ok_or_else\(\|\|\s*format!\([^;]*\)\)\? => .ok_or(text())?
//@ sub? File::open\(file_path\) => File::open(file_path.as_ref())
//@ param Tracked(disk): Tracked<&Disk>
//@ pass archive_file_to_root Tracked(disk)
//@ pass File::open Tracked(disk)
        requires kept(disk@, file_path.place().drop_last().drop_last()), current_save_dir_info.src_root@ == source_of(current_save_dir_info.hash),
        ensures
            r is Ok ==> disk@.files.dom().contains(file_path.place()) && exists|h: u128| file_path.place().len() >= 2 && file_path.place().drop_last().last() == #[trigger] folder(h),
            // a file that turns the source of its folder into `s` gives `s`, under another source `s` converted
            forall|h: u128, s: State| r is Ok && file_path.place().drop_last().last() == #[trigger] folder(h) && #[trigger] is_diff(source_of(h), s, disk@.files[file_path.place()]) ==>
                if h == current_save_dir_info.hash { r->Ok_0@ == s } else { converted(current_save_dir_info.src_root@, s, r->Ok_0@) },
//@ start
        proof {
            let p = file_path.place();
            assert forall|a: u128, b: u128| #[trigger] folder(a) == #[trigger] folder(b) implies a == b by { folder_once(a, b); }
            if p.len() >= 2 { assert(p.drop_last().drop_last().push(p.drop_last().last()) =~= p.drop_last()); }
            assert forall|h: u128| p.len() >= 2 && p.drop_last().last() == #[trigger] folder(h) implies p.drop_last().push(ARCHIVE_DEFAULT_NAME@) == archive(p.drop_last().drop_last(), h) by { }
        }
//@ end
    /// an object saved loads back identical (under the source it was saved with)
    pub fn save_then_load(info: &SaveDirInfo, file_name: &str, root: &RootObject, overwrite: bool, validation: bool, map: &Folders, Tracked(disk): Tracked<&mut Disk>) -> (r: FsResult<RootObject>)
        requires
            sane(old(disk)@),
            kept(old(disk)@, info.save_dir@),
            map@.contains_key(info.save_dir@),
            info_ok(registered(map, info.save_dir@), info.save_dir@, old(disk)@),
            alike(*info, registered(map, info.save_dir@)),
        ensures r is Ok ==> r->Ok_0@ == root@,
    {
        let p = save_dochy_file(info, file_name, root, overwrite, map, Tracked(&mut *disk))?;
        proof {
            assert(p@.drop_last() =~= home(info.save_dir@, info.hash));
            assert(p@.drop_last().drop_last() =~= info.save_dir@);
        }
        let r = load_dochy_file(&p, info, validation, Tracked(&*disk))?;
        proof { assert(is_diff(source_of(info.hash), root@, disk@.files[p@])); assert(p@.drop_last().last() == folder(info.hash)); }
        Ok(r)
    }
}

pub mod list {
    use super::*;
    use super::lib_specs::*;
    use super::reserved_filename::*;
    use super::paths::*;
    broadcast use {folder_plain, reserved_plain};

    // TRUSTED: reading a folder. Every entry delivered is a thing in that folder, none comes twice, and if no call fails, all of them come.
    // Names are texts
    #[verifier::external_body]
    pub struct SystemTime { x: u8 }
    #[verifier::external_body]
    pub struct FileType { x: u8 }
    #[verifier::external_body]
    pub struct Metadata { x: u8 }
    #[verifier::external_body]
    pub struct DirEntry { x: u8 }
    #[verifier::external_body]
    pub struct ReadDir { x: u8 }
    #[verifier::external_body]
    pub struct Lossy { x: u8 }
    impl FileType {
        pub uninterp spec fn dir(&self) -> bool;
        #[verifier::external_body]
        pub fn is_dir(&self) -> (r: bool) ensures r == self.dir() { unimplemented!() }
    }
    impl Metadata {
        pub uninterp spec fn size(&self) -> u64;
        pub uninterp spec fn dir(&self) -> bool;
        #[verifier::external_body]
        pub fn len(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_dir(&self) -> (r: bool) ensures r == self.dir() { unimplemented!() }
        #[verifier::external_body]
        pub fn modified(&self, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<SystemTime>) ensures sound(*disk) ==> r is Ok { unimplemented!() }
    }
    impl OsStr {
        #[verifier::external_body]
        pub fn to_string_lossy(&self) -> (r: Lossy) ensures r@ == self@ { unimplemented!() }
    }
    impl Lossy {
        pub uninterp spec fn view(&self) -> Name;
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    }
    impl DirEntry {
        pub uninterp spec fn name(&self) -> Name;
        pub uninterp spec fn place(&self) -> Place;
        pub uninterp spec fn dir(&self) -> bool;
        #[verifier::external_body]
        pub fn file_name(&self) -> (r: OsString) ensures r@ == self.name() { unimplemented!() }
        #[verifier::external_body]
        pub fn path(&self) -> (r: PathBuf) ensures r@ == self.place() { unimplemented!() }
        #[verifier::external_body]
        pub fn file_type(&self, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<FileType>)
            ensures r is Ok ==> r->Ok_0.dir() == self.dir(), sound(*disk) ==> r is Ok,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn metadata(&self, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<Metadata>)
            ensures
                r is Ok ==> r->Ok_0.dir() == self.dir() && (disk@.files.dom().contains(self.place()) ==> r->Ok_0.size() == disk@.files[self.place()].len()),
                sound(*disk) ==> r is Ok,
        { unimplemented!() }
    }
    pub open spec fn there(t: Tree, p: Place) -> bool { t.files.dom().contains(p) || t.dirs.contains(p) }
    pub open spec fn shows(rest: Seq<FsResult<DirEntry>>, n: Name) -> bool { exists|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]) is Ok && rest[i]->Ok_0.name() == n }
    pub open spec fn shows_dir(rest: Seq<FsResult<DirEntry>>, n: Name) -> bool { exists|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]) is Ok && rest[i]->Ok_0.name() == n && rest[i]->Ok_0.dir() }
    /// entries of the folder `p`
    pub open spec fn entries(rest: Seq<FsResult<DirEntry>>, p: Place, d: Disk) -> bool {
        &&& forall|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]) is Ok ==> rest[i]->Ok_0.place() == p.push(rest[i]->Ok_0.name()) && plain(rest[i]->Ok_0.name()) && there(d@, rest[i]->Ok_0.place()) && rest[i]->Ok_0.dir() == d@.dirs.contains(rest[i]->Ok_0.place())
        &&& forall|i: int, j: int| 0 <= i < j < rest.len() && (#[trigger] rest[i]) is Ok && (#[trigger] rest[j]) is Ok ==> rest[i]->Ok_0.name() != rest[j]->Ok_0.name()
        &&& sound(d) ==> forall|i: int| 0 <= i < rest.len() ==> (#[trigger] rest[i]) is Ok
    }
    #[verifier::external_body]
    pub fn read_dir(p: &Path, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<ReadDir>)
        ensures
            r is Ok ==> entries(r->Ok_0.rest(), p@, *disk),
            sound(*disk) && disk@.dirs.contains(p@) ==> r is Ok && forall|n: Name| #[trigger] there(disk@, p@.push(n)) ==> shows(r->Ok_0.rest(), n),
    { unimplemented!() }
    impl ReadDir {
        pub uninterp spec fn rest(&self) -> Seq<FsResult<DirEntry>>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<FsResult<DirEntry>>)
            ensures
                old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
                old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
        { unimplemented!() }
    }

//@ item dochy_fs/src/imp/common/list/file_data.rs struct FileData
//@ item dochy_fs/src/imp/common/list/list_files_iterator.rs struct ListFilesIterator
//@ item dochy_fs/src/imp/common/list/list_files_iterator.rs struct InnerIterator
//@ sub ^struct => pub struct
    impl FileData {
//@ fn dochy_fs/src/imp/common/list/file_data.rs FileData::new -> r
            ensures r.hash == hash, r.modified == modified, r.name == name, r.len == len,
//@ end
//@ fn dochy_fs/src/imp/common/list/file_data.rs FileData::from -> r
//@ param Tracked(disk): Tracked<&Disk>
//@ pass .metadata Tracked(disk)
//@ pass .modified Tracked(disk)
            ensures
                r is Ok ==> r->Ok_0.hash == hash && r->Ok_0.name@ == entry.name() && (disk@.files.dom().contains(entry.place()) ==> r->Ok_0.len == disk@.files[entry.place()].len()),
                sound(*disk) ==> r is Ok,
//@ end
//@ fn dochy_fs/src/imp/common/list/file_data.rs FileData::hash -> r
            ensures r == self.hash,
//@ end
//@ fn dochy_fs/src/imp/common/list/file_data.rs FileData::modified -> r
            ensures r == self.modified,
//@ end
//@ fn dochy_fs/src/imp/common/list/file_data.rs FileData::name -> r
            ensures r@ == self.name@,
//@ end
//@ fn dochy_fs/src/imp/common/list/file_data.rs FileData::len -> r
            ensures r == self.len,
//@ end
//@ fn dochy_fs/src/imp/common/list/file_data.rs FileData::calc_path -> r
//@ sub AsRef<Path> => AsPath
            requires plain(self.name@),
            ensures r@ == home(save_dir.place(), self.hash).push(self.name@),
//@ end
    }
    impl Clone for SystemTime {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    impl Copy for SystemTime { }

    /// the entries of the folders named after hashes that are still to come: with name `n` in the folder of `h`
    pub open spec fn ahead(i: InnerIterator, save: Place, t: Tree, h: u128, n: Name) -> bool {
        h == i.hex && shows(i.dir.rest(), n) || shows_dir(i.proj_dir.rest(), folder(h)) && there(t, home(save, h).push(n))
    }
    pub open spec fn walking(i: InnerIterator, save: Place, d: Disk) -> bool {
        &&& entries(i.proj_dir.rest(), save, d)
        &&& entries(i.dir.rest(), home(save, i.hex), d)
        &&& !shows(i.proj_dir.rest(), folder(i.hex))
    }
    pub open spec fn less(a: InnerIterator, b: InnerIterator) -> bool { a.proj_dir.rest().len() < b.proj_dir.rest().len() || a.proj_dir.rest().len() == b.proj_dir.rest().len() && a.dir.rest().len() < b.dir.rest().len() }
    pub proof fn skipped(a: Seq<FsResult<DirEntry>>, p: Place, d: Disk)
        requires entries(a, p, d), a.len() > 0,
        ensures
            entries(a.skip(1), p, d),
            forall|n: Name| #[trigger] shows(a.skip(1), n) ==> shows(a, n),
            forall|n: Name| #[trigger] shows_dir(a.skip(1), n) ==> shows_dir(a, n),
            a[0] is Ok ==> shows(a, a[0]->Ok_0.name()) && !shows(a.skip(1), a[0]->Ok_0.name()),
            a[0] is Ok && a[0]->Ok_0.dir() ==> shows_dir(a, a[0]->Ok_0.name()),
            forall|n: Name| #[trigger] shows(a, n) && !(a[0] is Ok && a[0]->Ok_0.name() == n) ==> shows(a.skip(1), n),
            forall|n: Name| #[trigger] shows_dir(a, n) && !(a[0] is Ok && a[0]->Ok_0.dir() && a[0]->Ok_0.name() == n) ==> shows_dir(a.skip(1), n),
    {
        let b = a.skip(1);
        assert forall|n: Name| #[trigger] shows(b, n) implies shows(a, n) by { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Ok && b[i]->Ok_0.name() == n; assert(a[i + 1] == b[i]); }
        assert forall|n: Name| #[trigger] shows_dir(b, n) implies shows_dir(a, n) by { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Ok && b[i]->Ok_0.name() == n && b[i]->Ok_0.dir(); assert(a[i + 1] == b[i]); }
        assert forall|n: Name| #[trigger] shows(a, n) && !(a[0] is Ok && a[0]->Ok_0.name() == n) implies shows(b, n) by { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Ok && a[i]->Ok_0.name() == n; assert(i > 0); assert(b[i - 1] == a[i]); }
        assert forall|n: Name| #[trigger] shows_dir(a, n) && !(a[0] is Ok && a[0]->Ok_0.dir() && a[0]->Ok_0.name() == n) implies shows_dir(b, n) by { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Ok && a[i]->Ok_0.name() == n && a[i]->Ok_0.dir(); assert(i > 0); assert(b[i - 1] == a[i]); }
        if a[0] is Ok && shows(b, a[0]->Ok_0.name()) {
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Ok && b[i]->Ok_0.name() == a[0]->Ok_0.name();
            assert(b[i] == a[i + 1]);
        }
    }
//@ fn dochy_fs/src/imp/common/list/find_next_dir.rs find_next_dir -> r
//@ sub? &\s*entry\.path\(\) => &entry.path()
//@ param Ghost(save): Ghost<Place>, Tracked(disk): Tracked<&Disk>
//@ pass .file_type Tracked(disk)
//@ pass read_dir Tracked(disk)
        requires entries(old(dir_iter).rest(), save, *disk),
        ensures
            entries(final(dir_iter).rest(), save, *disk),
            r is Ok && r->Ok_0 is Some ==> {
                let (d, h) = r->Ok_0->0;
                &&& entries(d.rest(), home(save, h), *disk)
                &&& shows_dir(old(dir_iter).rest(), folder(h))
                &&& !shows(final(dir_iter).rest(), folder(h))
                &&& sound(*disk) ==> forall|n: Name| #[trigger] there(disk@, home(save, h).push(n)) ==> shows(d.rest(), n)
                &&& forall|g: u128| g != h && shows_dir(old(dir_iter).rest(), #[trigger] folder(g)) ==> shows_dir(final(dir_iter).rest(), folder(g))
            },
            forall|n: Name| #[trigger] shows_dir(final(dir_iter).rest(), n) ==> shows_dir(old(dir_iter).rest(), n),
            forall|n: Name| #[trigger] shows(final(dir_iter).rest(), n) ==> shows(old(dir_iter).rest(), n),
            r is Ok && r->Ok_0 is None ==> forall|h: u128| !shows_dir(old(dir_iter).rest(), #[trigger] folder(h)),
            r is Err || r->Ok_0 is Some ==> final(dir_iter).rest().len() < old(dir_iter).rest().len(),
            sound(*disk) ==> r is Ok,
//@ loops loop
//@ loop 0
            invariant
                entries(dir_iter.rest(), save, *disk),
                forall|n: Name| #[trigger] shows_dir(dir_iter.rest(), n) ==> shows_dir(old(dir_iter).rest(), n),
                forall|n: Name| #[trigger] shows(dir_iter.rest(), n) ==> shows(old(dir_iter).rest(), n),
                forall|g: u128| shows_dir(old(dir_iter).rest(), #[trigger] folder(g)) ==> shows_dir(dir_iter.rest(), folder(g)),
                dir_iter.rest().len() <= old(dir_iter).rest().len(),
            decreases dir_iter.rest().len(),
//@ in 0
            proof {
                assert forall|a: u128, b: u128| #[trigger] folder(a) == #[trigger] folder(b) implies a == b by { folder_once(a, b); }
                if dir_iter.rest().len() > 0 { skipped(dir_iter.rest(), save, *disk); }
            }
//@ end
//@ fn dochy_fs/src/imp/common/list/list_files_iterator.rs find_next_file -> r
        ensures
            old(file_iter).rest().len() == 0 ==> r == Ok::<Option<DirEntry>, FsError>(None) && final(file_iter).rest() == old(file_iter).rest(),
            old(file_iter).rest().len() > 0 ==> final(file_iter).rest() == old(file_iter).rest().skip(1) && match old(file_iter).rest()[0] { Ok(e) => r == Ok::<Option<DirEntry>, FsError>(Some(e)), Err(_) => r is Err },
//@ end
    impl InnerIterator {
//@ fn dochy_fs/src/imp/common/list/list_files_iterator.rs InnerIterator::next -> r
//@ param Ghost(save): Ghost<Place>, Tracked(disk): Tracked<&Disk>
//@ pass FileData::from Tracked(disk)
//@ pass find_next_dir Ghost(save), Tracked(disk)
            requires walking(*old(self), save, *disk),
            ensures
                walking(*final(self), save, *disk),
                r is Some && r->0 is Ok ==> {
                    let f = r->0->Ok_0;
                    &&& ahead(*old(self), save, disk@, f.hash, f.name@)
                    &&& !ahead(*final(self), save, disk@, f.hash, f.name@)
                    &&& plain(f.name@) && there(disk@, home(save, f.hash).push(f.name@))
                    &&& disk@.files.dom().contains(home(save, f.hash).push(f.name@)) ==> f.len == disk@.files[home(save, f.hash).push(f.name@)].len()
                    &&& sound(*disk) ==> forall|h: u128, n: Name| #![trigger ahead(*old(self), save, disk@, h, n)] #![trigger ahead(*final(self), save, disk@, h, n)] ahead(*old(self), save, disk@, h, n) ==> ahead(*final(self), save, disk@, h, n) || h == f.hash && n == f.name@
                },
                forall|h: u128, n: Name| #![trigger ahead(*final(self), save, disk@, h, n)] #![trigger ahead(*old(self), save, disk@, h, n)] ahead(*final(self), save, disk@, h, n) ==> ahead(*old(self), save, disk@, h, n),
                r is None && sound(*disk) ==> forall|h: u128, n: Name| !#[trigger] ahead(*old(self), save, disk@, h, n),
                sound(*disk) ==> r is None || r->0 is Ok,
                r is Some ==> less(*final(self), *old(self)),
//@ loops loop
//@ loop 0
            invariant
                walking(*self, save, *disk),
                forall|h: u128, n: Name| #![trigger ahead(*self, save, disk@, h, n)] #![trigger ahead(*old(self), save, disk@, h, n)] ahead(*self, save, disk@, h, n) ==> ahead(*old(self), save, disk@, h, n),
                sound(*disk) ==> forall|h: u128, n: Name| #![trigger ahead(*old(self), save, disk@, h, n)] #![trigger ahead(*self, save, disk@, h, n)] ahead(*old(self), save, disk@, h, n) ==> ahead(*self, save, disk@, h, n),
                *self == *old(self) || less(*self, *old(self)),
            decreases self.proj_dir.rest().len(),
//@ in 0
            proof {
                assert forall|a: u128, b: u128| #[trigger] folder(a) == #[trigger] folder(b) implies a == b by { folder_once(a, b); }
                if self.dir.rest().len() > 0 { skipped(self.dir.rest(), home(save, self.hex), *disk); }
            }
//@ end
    }
    impl ListFilesIterator {
        pub open spec fn ahead(self, save: Place, t: Tree, h: u128, n: Name) -> bool { self.ite is Some && ahead(self.ite->0, save, t, h, n) }
        pub open spec fn walking(self, save: Place, d: Disk) -> bool { self.ite is Some ==> walking(self.ite->0, save, d) }
//@ fn dochy_fs/src/imp/common/list/list_files_iterator.rs ListFilesIterator::new -> r
            ensures r.ite == Some(InnerIterator { proj_dir, dir, hex }),
//@ end
//@ fn dochy_fs/src/imp/common/list/list_files_iterator.rs ListFilesIterator::create_empty -> r
            ensures r.ite is None,
//@ end
//@ fn dochy_fs/src/imp/common/list/list_files_iterator.rs Iterator for ListFilesIterator::next -> r
//@ sub Self::Item => FsResult<FileData>
//@ sub ^fn => pub fn
//@ param Ghost(save): Ghost<Place>, Tracked(disk): Tracked<&Disk>
//@ pass ite.next Ghost(save), Tracked(disk)
            requires old(self).walking(save, *disk),
            ensures
                final(self).walking(save, *disk),
                r is Some && r->0 is Ok ==> {
                    let f = r->0->Ok_0;
                    &&& old(self).ahead(save, disk@, f.hash, f.name@)
                    &&& !final(self).ahead(save, disk@, f.hash, f.name@)
                    &&& plain(f.name@) && there(disk@, home(save, f.hash).push(f.name@))
                    &&& disk@.files.dom().contains(home(save, f.hash).push(f.name@)) ==> f.len == disk@.files[home(save, f.hash).push(f.name@)].len()
                    &&& sound(*disk) ==> forall|h: u128, n: Name| #![trigger old(self).ahead(save, disk@, h, n)] #![trigger final(self).ahead(save, disk@, h, n)] old(self).ahead(save, disk@, h, n) ==> final(self).ahead(save, disk@, h, n) || h == f.hash && n == f.name@
                },
                forall|h: u128, n: Name| #![trigger final(self).ahead(save, disk@, h, n)] #![trigger old(self).ahead(save, disk@, h, n)] final(self).ahead(save, disk@, h, n) ==> old(self).ahead(save, disk@, h, n),
                r is None && sound(*disk) ==> forall|h: u128, n: Name| !#[trigger] old(self).ahead(save, disk@, h, n),
                sound(*disk) ==> r is None || r->0 is Ok,
                r is Some ==> old(self).ite is Some && final(self).ite is Some && less(final(self).ite->0, old(self).ite->0),
//@ end
    }
    pub open spec fn listed(v: Seq<FileData>, h: u128, n: Name) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).hash == h && v[i].name@ == n }
    /// a thing in the folder named after the hash `h`
    pub open spec fn saved(t: Tree, save: Place, h: u128, n: Name) -> bool { t.dirs.contains(home(save, h)) && there(t, home(save, h)) && there(t, home(save, h).push(n)) }
    pub proof fn pose(a: Seq<FsResult<DirEntry>>, save: Place, d: Disk)
        requires entries(a, save, d),
        ensures posed(a, save, d),
    { }
    pub open spec fn posed(a: Seq<FsResult<DirEntry>>, save: Place, d: Disk) -> bool {
        forall|h: u128| shows(a, #[trigger] folder(h)) && d@.dirs.contains(home(save, h)) ==> shows_dir(a, folder(h))
    }
    /// listed is exactly what was saved: everything listed is there under that name with that size, nothing twice; and all that is there
    pub open spec fn complete(v: Seq<FileData>, save: Place, d: Disk) -> bool {
        forall|h: u128, n: Name| #[trigger] saved(d@, save, h, n) && !reserved(n) ==> listed(v, h, n)
    }
    pub open spec fn truthful(v: Seq<FileData>, save: Place, t: Tree) -> bool {
        &&& forall|i: int| 0 <= i < v.len() ==> is_listed(#[trigger] v[i], save, t)
        &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).hash != (#[trigger] v[j]).hash || v[i].name@ != v[j].name@
    }
    pub open spec fn is_listed(f: FileData, save: Place, t: Tree) -> bool {
        let p = home(save, f.hash).push(f.name@);
        !reserved(f.name@) && plain(f.name@) && there(t, p) && (t.files.dom().contains(p) ==> f.len == t.files[p].len())
    }
    /// `b` holds what `a` holds, at the places `p`; `q` leads back
    pub open spec fn moved(a: Seq<FileData>, b: Seq<FileData>, p: Seq<int>, q: Seq<int>) -> bool {
        &&& a.len() == b.len() && p.len() == a.len() && q.len() == a.len()
        &&& forall|i: int| 0 <= i < p.len() ==> 0 <= (#[trigger] p[i]) < a.len() && b[i] == a[p[i]] && q[p[i]] == i
        &&& forall|i: int| 0 <= i < q.len() ==> 0 <= (#[trigger] q[i]) < a.len() && p[q[i]] == i
    }
    pub open spec fn rearranged(a: Seq<FileData>, b: Seq<FileData>) -> bool { exists|p: Seq<int>, q: Seq<int>| #[trigger] moved(a, b, p, q) }
}
pub mod listed_more {
    use super::*;
    use super::list::*;
    use super::lib_specs::*;
    pub broadcast proof fn one_more(v: Seq<FileData>, f: FileData, h: u128, n: Name)
        ensures #[trigger] listed(v.push(f), h, n) == (listed(v, h, n) || f.hash == h && f.name@ == n),
    {
        let w = v.push(f);
        if listed(v, h, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).hash == h && v[i].name@ == n; assert(w[i] == v[i]); }
        if f.hash == h && f.name@ == n { assert(w[v.len() as int] == f); }
        if listed(w, h, n) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).hash == h && w[i].name@ == n; if i < v.len() { assert(v[i] == w[i]); } }
    }
}
pub mod moved_more {
    use super::*;
    use super::reserved_filename::*;
    use super::list::*;
    use super::lib_specs::*;
    pub broadcast proof fn as_true(a: Seq<FileData>, b: Seq<FileData>, save: Place, t: Tree)
        requires #[trigger] rearranged(a, b), truthful(a, save, t),
        ensures #[trigger] truthful(b, save, t),
    {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] moved(a, b, p, q);
        assert forall|i: int| 0 <= i < b.len() implies is_listed(#[trigger] b[i], save, t) by { assert(b[i] == a[p[i]]); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).hash != (#[trigger] b[j]).hash || b[i].name@ != b[j].name@ by {
            assert(b[i] == a[p[i]] && b[j] == a[p[j]] && q[p[i]] == i && q[p[j]] == j);
        }
    }
    pub broadcast proof fn as_complete(a: Seq<FileData>, b: Seq<FileData>, save: Place, d: Disk)
        requires #[trigger] rearranged(a, b), complete(a, save, d),
        ensures #[trigger] complete(b, save, d),
    {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] moved(a, b, p, q);
        assert forall|h: u128, n: Name| #[trigger] saved(d@, save, h, n) && !reserved(n) implies listed(b, h, n) by {
            assert(listed(a, h, n));
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).hash == h && a[i].name@ == n;
            assert(p[q[i]] == i);
            assert(b[q[i]] == a[i]);
        }
    }
}
pub mod whole {
    use super::*;
    use super::lib_specs::*;
    use super::reserved_filename::*;
    use super::paths::*;
    use super::list::*;
    broadcast use {folder_plain, reserved_plain, super::listed_more::one_more, super::moved_more::as_true, super::moved_more::as_complete};
//@ fn dochy_fs/src/imp/common/list/list_files.rs iterate_files -> r
//@ sub? std::fs::read_dir => read_dir
//@ param Tracked(disk): Tracked<&Disk>
//@ pass read_dir Tracked(disk)
//@ pass find_next_dir Ghost(save_dir@), Tracked(disk)
        ensures
            r is Ok ==> r->Ok_0.walking(save_dir@, *disk),
            r is Ok && sound(*disk) && disk@.dirs.contains(save_dir@) ==> forall|h: u128, n: Name| #![trigger saved(disk@, save_dir@, h, n)] #![trigger r->Ok_0.ahead(save_dir@, disk@, h, n)] saved(disk@, save_dir@, h, n) ==> r->Ok_0.ahead(save_dir@, disk@, h, n),
            sound(*disk) && disk@.dirs.contains(save_dir@) ==> r is Ok,
//@ start
        proof { assert forall|a: Seq<FsResult<DirEntry>>| #[trigger] entries(a, save_dir@, *disk) implies posed(a, save_dir@, *disk) by { pose(a, save_dir@, *disk); } }
//@ end
    // TRUSTED: sorting rearranges
    #[verifier::external_body]
    pub fn sort_by_time(v: &mut Vec<FileData>)
        ensures rearranged(old(v)@, final(v)@),
    { unimplemented!() }
//@ fn dochy_fs/src/imp/common/list/list_files.rs list_files -> r
//@ sub AsRef<Path> => AsPath
//@ sub vec\.sort_by_key\(\|a\| a\.modified\(\)\) => sort_by_time(&mut vec)
//@ param Tracked(disk): Tracked<&Disk>
//@ pass iterate_files Tracked(disk)
//@ next 0 it Ghost(save_dir@), Tracked(disk)
//@ loops while
        ensures
            r is Ok ==> truthful(r->Ok_0@, proj_dir.place(), disk@),
            sound(*disk) && disk@.dirs.contains(proj_dir.place()) ==> r is Ok && complete(r->Ok_0@, proj_dir.place(), *disk),
//@ loop 0
            invariant
                save_dir@ == proj_dir.place(),
                it.walking(save_dir@, *disk),
                truthful(vec@, save_dir@, disk@),
                forall|i: int| 0 <= i < vec@.len() ==> !it.ahead(save_dir@, disk@, (#[trigger] vec@[i]).hash, vec@[i].name@),
                sound(*disk) && disk@.dirs.contains(save_dir@) ==> forall|h: u128, n: Name| #[trigger] saved(disk@, save_dir@, h, n) && !reserved(n) ==> it.ahead(save_dir@, disk@, h, n) || listed(vec@, h, n),
            ensures
                sound(*disk) ==> forall|h: u128, n: Name| !#[trigger] it.ahead(save_dir@, disk@, h, n),
            decreases it.ite->0.proj_dir.rest().len(), it.ite->0.dir.rest().len(),
//@ end
//@ fn dochy_fs/src/imp/filesys/list_dochy_files.rs list_dochy_files -> r
//@ sub AsRef<Path> => AsPath
//@ param Tracked(disk): Tracked<&Disk>
//@ pass list_files Tracked(disk)
        ensures
            r is Ok ==> truthful(r->Ok_0@, save_dir.place(), disk@),
            sound(*disk) && disk@.dirs.contains(save_dir.place()) ==> r is Ok && complete(r->Ok_0@, save_dir.place(), *disk),
//@ end
}
pub mod times {
    use super::*;
    use super::lib_specs::*;
    use super::reserved_filename::*;
    use super::paths::*;
    use super::list::*;
    broadcast use {folder_plain, reserved_plain};

    // TRUSTED: times are ordered; when a folder was made is known to the system
    pub uninterp spec fn stamp(t: SystemTime) -> int;
    impl SystemTime {
        #[verifier::external_body]
        pub fn epoch() -> (r: SystemTime) { unimplemented!() }
        #[verifier::external_body]
        pub fn max(self, t: SystemTime) -> (r: SystemTime)
            ensures r == if stamp(self) > stamp(t) { self } else { t },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn min(self, t: SystemTime) -> (r: SystemTime)
            ensures r == if stamp(self) <= stamp(t) { self } else { t },
        { unimplemented!() }
    }
    impl Metadata {
        #[verifier::external_body]
        pub fn created(&self) -> (r: FsResult<SystemTime>) { unimplemented!() }
    }
    // ASSUMED: unit hash (property 15): a time is read as it was written
    pub uninterp spec fn tells(b: Seq<u8>, t: SystemTime) -> bool;
    #[verifier::external_body]
    pub fn from_time_dat(f: &mut File) -> (r: FsResult<SystemTime>)
        ensures forall|t: SystemTime| #[trigger] tells(old(f).rest(), t) ==> r is Ok && r->Ok_0 == t,
    { unimplemented!() }
//@ fn dochy_fs/src/imp/common/path/get_hash_times.rs get_folder_time -> out
//@ sub AsRef<Path> => AsPath
//@ sub File::open\(path\) => File::open(path.as_ref())
//@ sub SystemTime::UNIX_EPOCH => SystemTime::epoch()
//@ param Tracked(disk): Tracked<&Disk>
//@ pass File::open Tracked(disk)
        ensures forall|t: SystemTime| sound(*disk) && disk@.files.dom().contains(path.place()) && #[trigger] tells(disk@.files[path.place()], t) ==> out == t,
//@ end
    pub type Times = Seq<(u128, SystemTime)>;
    pub open spec fn has(v: Times, h: u128) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == h }
    /// folders named after hashes, each once, with the time written down in them
    pub open spec fn dated(v: Times, save: Place, d: Disk) -> bool {
        &&& forall|i: int| 0 <= i < v.len() ==> d@.dirs.contains(home(save, (#[trigger] v[i]).0))
        &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
        &&& forall|i: int, t: SystemTime| 0 <= i < v.len() && sound(d) && d@.files.dom().contains(birth(save, (#[trigger] v[i]).0)) && #[trigger] tells(d@.files[birth(save, v[i].0)], t) ==> v[i].1 == t
    }
    pub open spec fn ordered(v: Times) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> stamp((#[trigger] v[i]).1) <= stamp((#[trigger] v[j]).1) }
    pub open spec fn full(v: Times, save: Place, t: Tree) -> bool { forall|h: u128| t.dirs.contains(#[trigger] home(save, h)) ==> has(v, h) }
    // TRUSTED: sorting rearranges, and sorts by the key
    pub open spec fn reached(to: spec_fn(int) -> int, n: int, k: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] to(i) == k }
    pub open spec fn along(to: spec_fn(int) -> int, a: Times, b: Times) -> bool {
        &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] to(i) < a.len() && b[i] == a[to(i)]
        &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] to(i) != #[trigger] to(j)
        &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] reached(to, b.len() as int, k)
    }
    pub open spec fn shuffled(a: Times, b: Times) -> bool { a.len() == b.len() && exists|to: spec_fn(int) -> int| #[trigger] along(to, a, b) }
    pub open spec fn keyed<F: Fn(&(u128, SystemTime)) -> SystemTime>(f: F, v: Times, k: Seq<SystemTime>) -> bool {
        &&& k.len() == v.len()
        &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> f.ensures((&v[i],), k[i])
        &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> stamp(#[trigger] k[i]) <= stamp(#[trigger] k[j])
    }
    #[verifier::external_body]
    pub fn sort_by_key<F: Fn(&(u128, SystemTime)) -> SystemTime>(v: &mut Vec<(u128, SystemTime)>, f: F)
        requires forall|e: &(u128, SystemTime)| #[trigger] f.requires((e,)),
        ensures
            shuffled(old(v)@, final(v)@),
            exists|k: Seq<SystemTime>| #[trigger] keyed(f, final(v)@, k),
    { unimplemented!() }
    pub proof fn still(a: Times, b: Times, save: Place, d: Disk)
        requires shuffled(a, b), dated(a, save, d),
        ensures dated(b, save, d), full(a, save, d@) ==> full(b, save, d@),
    {
        let to = choose|to: spec_fn(int) -> int| #[trigger] along(to, a, b);
        assert forall|i: int| 0 <= i < b.len() implies d@.dirs.contains(home(save, (#[trigger] b[i]).0)) by { assert(b[i] == a[to(i)]); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by {
            assert(b[i] == a[to(i)] && b[j] == a[to(j)] && to(i) != to(j));
        }
        assert forall|i: int, t: SystemTime| 0 <= i < b.len() && sound(d) && d@.files.dom().contains(birth(save, (#[trigger] b[i]).0)) && #[trigger] tells(d@.files[birth(save, b[i].0)], t) implies b[i].1 == t by { assert(b[i] == a[to(i)]); }
        if full(a, save, d@) {
            assert forall|h: u128| d@.dirs.contains(#[trigger] home(save, h)) implies has(b, h) by {
                let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == h;
                assert(reached(to, b.len() as int, k));
                let i = choose|i: int| 0 <= i < b.len() && #[trigger] to(i) == k;
                assert(b[i] == a[k]);
            }
        }
    }
    pub proof fn has_more(v: Times, e: (u128, SystemTime), h: u128)
        ensures has(v.push(e), h) == (has(v, h) || e.0 == h),
    {
        let w = v.push(e);
        if has(v, h) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == h; assert(w[i] == v[i]); }
        if e.0 == h { assert(w[v.len() as int] == e); }
        if has(w, h) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == h; if i < v.len() { assert(v[i] == w[i]); } }
    }
//@ fn dochy_fs/src/imp/common/path/get_hash_times.rs get_hash_times -> out
//@ sub AsRef<Path> => AsPath
//@ sub std::fs::read_dir\(proj_dir\) => read_dir(proj_dir.as_ref())
//@ sub? \br\.sort_by_key\(\|(\([^|]*\))\|\s*(.*)\); => sort_by_key(&mut r, |e: &(u128, SystemTime)| -> (k: SystemTime) ensures k == e.1 { let \1 = e; \2 });
//@ param Tracked(disk): Tracked<&Disk>
//@ pass read_dir Tracked(disk)
//@ pass .metadata Tracked(disk)
//@ pass get_folder_time Tracked(disk)
//@ next 0 it
//@ loops while
        ensures
            out is Ok ==> dated(out->Ok_0@, proj_dir.place(), *disk) && ordered(out->Ok_0@),
            sound(*disk) && disk@.dirs.contains(proj_dir.place()) ==> out is Ok && full(out->Ok_0@, proj_dir.place(), disk@),
//@ start
        let ghost save = proj_dir.place();
        proof { assert forall|a: u128, b: u128| #[trigger] folder(a) == #[trigger] folder(b) implies a == b by { folder_once(a, b); } }
//@ pre 0
        let ghost mut rest0 = it.rest();
        proof {
            if sound(*disk) && disk@.dirs.contains(save) {
                assert forall|h: u128| disk@.dirs.contains(#[trigger] home(save, h)) implies shows_dir(it.rest(), folder(h)) by {
                    assert(there(disk@, save.push(folder(h))));
                    let i = choose|i: int| 0 <= i < it.rest().len() && (#[trigger] it.rest()[i]) is Ok && it.rest()[i]->Ok_0.name() == folder(h);
                    assert(it.rest()[i]->Ok_0.dir());
                }
            }
        }
//@ loop 0
            invariant
                it.rest() == rest0,
                entries(it.rest(), save, *disk),
                dated(r@, save, *disk),
                forall|i: int| 0 <= i < r@.len() ==> !shows(it.rest(), folder((#[trigger] r@[i]).0)),
                sound(*disk) && disk@.dirs.contains(save) ==> forall|h: u128| disk@.dirs.contains(#[trigger] home(save, h)) ==> has(r@, h) || shows_dir(it.rest(), folder(h)),
            ensures it.rest().len() == 0,
            decreases it.rest().len(),
//@ in 0
            let ghost r0 = r@;
            proof {
                assert forall|a: u128, b: u128| #[trigger] folder(a) == #[trigger] folder(b) implies a == b by { folder_once(a, b); }
                skipped(rest0, save, *disk);
                assert(plain(ARCHIVE_DEFAULT_NAME@));
                rest0 = it.rest();
            }
//@ last 0
            proof {
                if r@.len() > r0.len() {
                    let e = r@.last();
                    assert(r@ =~= r0.push(e));
                    assert(disk@.dirs.contains(home(save, e.0)));
                    assert(forall|t: SystemTime| sound(*disk) && disk@.files.dom().contains(birth(save, e.0)) && #[trigger] tells(disk@.files[birth(save, e.0)], t) ==> e.1 == t);
                    assert(forall|i: int| 0 <= i < r0.len() ==> (#[trigger] r0[i]).0 != e.0);
                    assert forall|h: u128| #[trigger] has(r@, h) == (has(r0, h) || e.0 == h) by { has_more(r0, e, h); }
                }
            }
//@ after let file_path = .*;
                proof { assert(file_path@ == birth(save, hash)); assert(file_path.place() == birth(save, hash)); }
//@ after let time = .*;
                proof { assert(forall|t: SystemTime| sound(*disk) && disk@.files.dom().contains(birth(save, hash)) && #[trigger] tells(disk@.files[birth(save, hash)], t) ==> time == t); }
//@ post 0
        let ghost r1 = r@;
//@ before Ok\(r\)
        proof { if r@ != r1 { still(r1, r@, save, *disk); } }
//@ end
    // ASSUMED: units ancestors and cache (property 17): the files of a folder, and the newest of them
    #[verifier::external_body]
    pub struct FileNameProps { x: u8 }
    #[verifier::external_body]
    pub struct FileHistory { x: u8 }
    #[verifier::external_body]
    pub struct HistoryOptions { x: u8 }
    impl HistoryOptions {
        pub uninterp spec fn phases(&self) -> usize;
        pub uninterp spec fn cum(&self) -> bool;
        #[verifier::external_body]
        pub fn max_phase(&self) -> (r: usize) ensures r == self.phases() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_cumulative(&self) -> (r: bool) ensures r == self.cum() { unimplemented!() }
    }
    /// the history files in a folder, read with these options
    pub uninterp spec fn lists(h: FileHistory, t: Tree, p: Place, phases: usize, cum: bool) -> bool;
    /// its files in their order
    pub uninterp spec fn files_of(h: FileHistory) -> Seq<FileNameProps>;
    pub uninterp spec fn newest_of(h: FileHistory) -> Option<FileNameProps>;
    impl FileHistory {
        #[verifier::external_body]
        pub fn create(dir: &Path, hash: u128, max_phase: usize, cumulative: bool, Tracked(disk): Tracked<&Disk>) -> (r: FsResult<FileHistory>)
            ensures
                r is Ok ==> lists(r->Ok_0, disk@, home(dir@, hash), max_phase, cumulative),
                sound(*disk) ==> r is Ok,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn list_files(&self) -> (r: Vec<&FileNameProps>)
            ensures r@.len() == files_of(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == files_of(*self)[i],
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_newest_prop(&self) -> (r: Option<&FileNameProps>)
            ensures match r { Some(p) => newest_of(*self) == Some(*p), None => newest_of(*self) is None },
        { unimplemented!() }
    }
//@ item dochy_fs/src/imp/history/file_hist/history_file_data.rs struct HistoryFileData
//@ item dochy_fs/src/imp/history/file_hist/file_histories.rs struct FileHistories
    impl<'a> HistoryFileData<'a> {
//@ fn dochy_fs/src/imp/history/file_hist/history_file_data.rs HistoryFileData::new -> r
            ensures r.hash == hash, r.history == history, r.props == props,
//@ end
    }
    /// folder by folder
    pub open spec fn flat(v: Histories) -> Seq<(u128, FileNameProps)>
        decreases v.len(),
    {
        if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + tagged(v.last().0, files_of(v.last().1)) }
    }
    pub open spec fn tagged(h: u128, f: Seq<FileNameProps>) -> Seq<(u128, FileNameProps)> { Seq::new(f.len(), |i: int| (h, f[i])) }
    pub open spec fn seen(v: Seq<HistoryFileData<'_>>) -> Seq<(u128, FileNameProps)> { Seq::new(v.len(), |i: int| (v[i].hash, *v[i].props)) }
    /// each file comes with the history of its folder
    pub open spec fn sorted_in(v: Seq<HistoryFileData<'_>>, w: Histories) -> bool {
        forall|i: int| 0 <= i < v.len() ==> exists|j: int| 0 <= j < w.len() && (#[trigger] w[j]).0 == (#[trigger] v[i]).hash && w[j].1 == *v[i].history
    }
    impl FileHistories {
//@ fn dochy_fs/src/imp/history/file_hist/file_histories.rs FileHistories::list_files -> r
//@ sub (?s)self\.vec\.iter\(\)\.flat_map\(\|(\(\w+,\s*\w+\))\|\s*\{(.*?)\.into_iter\(\)\s*\.map\(move \|(\w+)\|\s*(.*?)\)\s*\}\)\.collect\(\) => let mut out_: Vec<HistoryFileData> = Vec::new(); for pair in self.vec.iter() { let \1 = pair; let of_ = \2; for p_ in of_.iter() { let \3 = *p_; out_.push(\4); } } out_
            ensures seen(r@) == flat(self.vec@), sorted_in(r@, self.vec@),
//@ loops for for
//@ iter 0 it
//@ iter 1 jt
//@ loop 0
                invariant
                    it.seq().len() == self.vec@.len(),
                    forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == self.vec@[j],
                    seen(out_@) =~= flat(self.vec@.take(it.index@ as int)),
                    sorted_in(out_@, self.vec@),
//@ in 0
                let ghost before = seen(out_@);
//@ in 1
                    let ghost out0 = out_@;
//@ loop 1
                    invariant
                        0 <= it.index@ < self.vec@.len(),
                        *pair == self.vec@[it.index@ as int],
                        *hash == pair.0, *his == pair.1,
                        jt.seq().len() == of_@.len(),
                        of_@.len() == files_of(*his).len(), forall|i: int| 0 <= i < of_@.len() ==> *(#[trigger] of_@[i]) == files_of(*his)[i],
                        forall|j: int| 0 <= j < jt.seq().len() ==> *(#[trigger] jt.seq()[j]) == of_@[j],
                        seen(out_@) =~= before + tagged(*hash, files_of(*his)).take(jt.index@ as int),
                        sorted_in(out_@, self.vec@),
//@ last 1
                    proof {
                        let k = jt.index@ as int;
                        let f = tagged(*hash, files_of(*his));
                        assert(out_@.last().history == his);
                        assert(*jt.seq()[k] == of_@[k]);
                        assert(*out_@.last().props == files_of(*his)[k]);
                        assert(f.take(k + 1) =~= f.take(k).push(f[k]));
                        assert(seen(out_@) =~= seen(out_@.drop_last()).push(f[k]));
                        assert(out_@.drop_last() =~= out0);
                        assert(seen(out_@.drop_last()) =~= before + f.take(k));
                    }
//@ last 0
                proof {
                    let n = it.index@ as int;
                    assert(self.vec@.take(n + 1).drop_last() =~= self.vec@.take(n));
                    assert(tagged(*hash, files_of(*his)).take(of_@.len() as int) =~= tagged(*hash, files_of(*his)));
                }
//@ post 0
            proof { assert(self.vec@.take(self.vec@.len() as int) =~= self.vec@); }
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_histories.rs FileHistories::new -> r
            ensures r.vec == vec,
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_histories.rs FileHistories::get_newest_file_data -> r
//@ sub (?s)(self\.vec\.\w+\(\))\.and_then\(\|(\(\w+,\s*\w+\))\|\s*(.*)\)(?=;?\s*\}\s*$) => match \1 { Some(\2) => \3, None => None }
//@ optmap
            ensures
                r is Some ==> newest_at(self.vec@, r->0, self.vec@.len() - 1) || newest_among(self.vec@, r->0),
                r is None ==> self.vec@.len() == 0 || newest_of(self.vec@.last().1) is None,
//@ end
    }
    pub type Histories = Seq<(u128, FileHistory)>;
    /// the newest file of this folder, and none in the folders after it
    pub open spec fn newest_at(v: Histories, d: HistoryFileData, i: int) -> bool {
        &&& 0 <= i < v.len()
        &&& d.hash == v[i].0 && *d.history == v[i].1 && newest_of(v[i].1) == Some(*d.props)
        &&& forall|j: int| i < j < v.len() ==> newest_of((#[trigger] v[j]).1) is None
    }
    pub open spec fn newest_among(v: Histories, d: HistoryFileData) -> bool { exists|i: int| #[trigger] newest_at(v, d, i) }
    /// the histories of these folders, in this order
    pub open spec fn told(v: Histories, w: Times, p: Place, t: Tree, phases: usize, cum: bool) -> bool {
        &&& v.len() == w.len()
        &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == w[i].0 && lists(v[i].1, t, home(p, v[i].0), phases, cum)
    }
    /// of every folder, in the order in which they were made
    pub open spec fn all_told(v: Histories, p: Place, d: Disk, phases: usize, cum: bool) -> bool {
        exists|w: Times| #[trigger] told(v, w, p, d@, phases, cum) && dated(w, p, d) && ordered(w) && full(w, p, d@)
    }
//@ fn dochy_fs/src/imp/history/pub_fn/list_histories.rs list_histories -> r
//@ sub info\s*:\s*&HistoryInfo => history_dir: &Path, opt: &HistoryOptions
//@ sub let history_dir = info\.history_dir\(\); =>
//@ sub let opt = info\.options\(\); =>
//@ param Tracked(disk): Tracked<&Disk>
//@ pass get_hash_times Tracked(disk)
//@ pass FileHistory::create Tracked(disk)
        ensures
            sound(*disk) && disk@.dirs.contains(history_dir@) ==> r is Ok && all_told(r->Ok_0.vec@, history_dir@, *disk, opt.phases(), opt.cum()),
            r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.vec@.len() ==> lists((#[trigger] r->Ok_0.vec@[i]).1, disk@, home(history_dir@, r->Ok_0.vec@[i].0), opt.phases(), opt.cum()),
//@ loops for
//@ iter 0 it
//@ pre 0
        let ghost w = hash_times@;
//@ loop 0
            invariant
                it.seq() == w,
                forall|i: int| 0 <= i < vec@.len() ==> lists((#[trigger] vec@[i]).1, disk@, home(history_dir@, vec@[i].0), opt.phases(), opt.cum()),
                sound(*disk) ==> told(vec@, w.take(it.index@ as int), history_dir@, disk@, opt.phases(), opt.cum()),
//@ post 0
        proof { assert(w.take(w.len() as int) =~= w); assert(sound(*disk) ==> told(vec@, w, history_dir@, disk@, opt.phases(), opt.cum())); }
//@ end
}
}
fn main() {}
