//! Histories: option handling, loading back, cleaning up.
use crate::ensure;
use crate::model::*;
use crate::objects::{converted, mutate_schema};
use crate::util::*;
use dochy_core::structs::RootObject;
use dochy_fs::common::{hash_dir_path, CurrentSrc};
use dochy_fs::history::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);
/// a directory no other case has used (the library caches by path); removed in the end
pub struct Tmp(pub PathBuf);
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn tmp(c: &mut Case) -> Tmp { let n = format!("u{}", N.fetch_add(1, Ordering::Relaxed)); Tmp(c.fresh_dir(&n)) }

#[derive(Clone, Debug)]
pub struct O { max: usize, up0: bool, cum: Option<(Option<usize>, Option<usize>)>, mt: (bool, bool) }
impl O {
    fn build(&self) -> Result<dochy_fs::FsResult<HistoryOptions>, String> {
        guard("building options", || HistoryOptionsBuilder::new().max_phase(self.max).update_phase_0(self.up0).mt_save(self.mt.0).mt_load(self.mt.1)
            .cumulative(self.cum.map(|(n, k)| CumulativeOptionsBuilder::new().limit_nth(n).limit_count(k))).build())
    }
    fn contradictory(&self) -> bool {
        let (n, k) = self.cum.unwrap_or((None, None));
        n == Some(0) || k == Some(0) || self.max == 0 && (!self.up0 || n.is_some() || k.is_some())
    }
}
pub fn gen_options(c: &mut Case) -> O {
    let lim = |c: &mut Case, hi: usize| if c.rng.chance(1, 3) { None } else { Some(if c.rng.chance(1, 12) { 0 } else if c.rng.chance(1, 12) { 1 << c.rng.below(60) } else { 1 + c.rng.below(hi) }) };
    O {
        max: *c.rng.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4, 6]), up0: c.rng.chance(2, 3),
        cum: if c.rng.chance(1, 3) { None } else { Some((lim(c, 4), lim(c, 6))) }, mt: (c.rng.chance(1, 4), c.rng.chance(1, 3)),
    }
}
fn good_options(c: &mut Case) -> Result<(O, HistoryOptions), String> {
    for _ in 0..50 {
        let o = gen_options(c);
        if !o.contradictory() { if let Ok(h) = o.build()? { return Ok((o, h)); } else { return Err(format!("the options {:?} are refused", o)); } }
    }
    let o = O { max: 2, up0: true, cum: None, mt: (false, false) };
    let h = o.build()?.map_err(|e| format!("the options are refused: {}", e))?;
    Ok((o, h))
}

struct Saved { version: usize, hash: u128, props: FileNameProps, root: RootObject, view: View }
pub struct Hist {
    _tmp: Tmp, dir: PathBuf, o: O, opts: HistoryOptions, schemas: Vec<Schema>, srcs: Vec<CurrentSrc>,
    info: HistoryInfo, root: RootObject, base: Option<FileNameProps>, saved: Vec<Saved>,
}
fn src_at(c: &mut Case, base: &Path, s: &Schema, k: usize) -> Option<CurrentSrc> {
    let at = crate::filesys::source(k);
    let d = base.join(&at);
    std::fs::create_dir_all(&d).unwrap();
    write(c, s, &d, &Style { wild: false });
    load(&d).ok()?;
    if c.rng.chance(1, 4) {
        let a = base.join(format!("{}.archive", at));
        let mut v = vec![];
        dochy_core::archive_src_dir(&d, &mut v).ok()?;
        std::fs::write(&a, v).unwrap();
        return Some(CurrentSrc::from_archive_file(a));
    }
    Some(CurrentSrc::from_src_dir(d))
}
pub const TAGS: [&str; 8] = ["a", "tag_1", "x(2)", ".his", "0_0_0", "é", "", "a b"];
impl Hist {
    pub fn new(c: &mut Case, s: Schema) -> Result<Option<Hist>, String> {
        let (o, opts) = good_options(c)?;
        c.log(|| format!("{:?}", o));
        let t = tmp(c);
        let dir = t.0.join("hist");
        std::fs::create_dir(&dir).unwrap();
        let src = match src_at(c, &t.0, &s, 0) { Some(x) => x, None => return Ok(None) };
        let info = guard("opening a history", || HistoryInfo::create(&dir, src.clone(), &opts))?.map_err(|e| format!("the history cannot be opened: {}", e))?;
        let root = info.clone_src_root();
        Ok(Some(Hist { _tmp: t, dir, o, opts, schemas: vec![s], srcs: vec![src], info, root, base: None, saved: vec![] }))
    }
    fn cur(&self) -> usize { self.schemas.len() - 1 }
    fn restart(&mut self, c: &mut Case) -> Result<(), String> {
        c.log(|| "restart".into());
        let (d, s, o) = (&self.dir, self.srcs.last().unwrap().clone(), &self.opts);
        self.info = guard("opening a history", || unsafe { init_dochy_cache_us(d, s, o) })?.map_err(|e| format!("the history cannot be opened again: {}", e))?;
        self.base = None;
        Ok(())
    }
    /// what is open already can be opened again, and both are the same history
    fn reopen(&mut self, c: &mut Case) -> Result<(), String> {
        c.log(|| "opened again".into());
        let (d, s, o) = (&self.dir, self.srcs.last().unwrap().clone(), &self.opts);
        self.info = guard("opening a history", || HistoryInfo::create(d, s, o))?.map_err(|e| format!("the history cannot be opened a second time: {}", e))?;
        Ok(())
    }
    fn edit(&mut self, c: &mut Case, n: usize) -> Result<(), String> {
        let s = self.schemas.last().unwrap().clone();
        let t = tables_of(&s);
        for _ in 0..n { let r = &mut self.root; guard("edit", || edit(c, r, &s, &t))?; }
        Ok(())
    }
    fn save(&mut self, c: &mut Case) -> Result<&FileNameProps, String> {
        if c.rng.chance(1, 8) { self.reopen(c)?; }
        let tag = if c.rng.chance(1, 3) { Some(c.rng.pick(&TAGS).to_string()) } else { None };
        let (i, r) = (&self.info, &self.root);
        let p = guard("saving", || save_history_file(i, tag.clone(), r))?.map_err(|e| format!("the object cannot be saved: {}", e))?;
        c.log(|| format!("saved {} (base {:?})", p.calc_filename(), self.base.as_ref().map(|b| b.calc_filename())));
        let f = hash_dir_path(&self.dir, self.info.hash()).join(p.calc_filename());
        ensure!(f.is_file(), "the save is reported as {}, which does not exist", p.calc_filename());
        ensure!(!self.saved.iter().any(|s| s.hash == self.info.hash() && s.props.calc_filename() == p.calc_filename()), "the file {} was saved twice", p.calc_filename());
        ensure!(p.tag() == tag.as_ref().map(|x| x.as_str()), "tag {:?} was saved as {:?}", tag, p.tag());
        let v = view(&self.root, self.schemas.last().unwrap())?;
        self.base = Some(p.clone());
        self.saved.push(Saved { version: self.cur(), hash: self.info.hash(), props: p, root: self.root.clone(), view: v });
        Ok(&self.saved.last().unwrap().props)
    }
    fn expect(&self, k: usize) -> Result<View, String> {
        let s = &self.saved[k];
        if s.version == self.cur() { Ok(s.view.clone()) } else { converted(&s.root, &self.schemas[s.version], self.schemas.last().unwrap()) }
    }
    fn check_one(&self, k: usize, d: &HistoryFileData, what: &str) -> Result<RootObject, String> {
        let want = self.expect(k)?;
        let name = d.props().calc_filename();
        let i = &self.info;
        let r = guard("loading", || load_history_file_data(i, d, false))?.map_err(|e| format!("{}: {} cannot be loaded: {}", what, name, e))?;
        let got = view(&r, self.schemas.last().unwrap())?;
        ensure!(got == want, "{}: {} does not load as it was saved: {}", what, name, diff_text(&want, &got));
        if self.saved[k].version == self.cur() {
            let r2 = guard("loading", || load_history_file(i, d.props(), d.history(), false))?.map_err(|e| format!("{}: {} cannot be loaded: {}", what, name, e))?;
            ensure!(view(&r2, self.schemas.last().unwrap())? == want, "{}: {} loads differently through its name", what, name);
        }
        Ok(r)
    }
    /// the listing is in saving order, and (some of) the files load as they were saved
    fn check(&mut self, c: &mut Case, all: bool, what: &str) -> Result<(), String> {
        let i = self.info.clone();
        let h = guard("listing", || list_histories(&i))?.map_err(|e| format!("the history cannot be listed: {}", e))?;
        let l = h.list_files();
        let got: Vec<String> = l.iter().map(|d| format!("{:032x}/{}", d.hash(), d.props().calc_filename())).collect();
        let want: Vec<String> = self.saved.iter().map(|s| format!("{:032x}/{}", s.hash, s.props.calc_filename())).collect();
        ensure!(got == want, "{}: listed {:?}, saved in this order {:?}", what, got, want);
        let n = h.get_newest_file_data().map(|d| format!("{:032x}/{}", d.hash(), d.props().calc_filename()));
        ensure!(n.as_ref() == want.last(), "{}: the newest file is reported as {:?}, it is {:?}", what, n, want.last());
        for (k, d) in l.iter().enumerate() {
            ensure!(*d.props() == self.saved[k].props, "{}: {:?} is listed as {:?}", what, self.saved[k].props, d.props());
            if all || c.rng.chance(1, 4) { self.check_one(k, d, what)?; }
        }
        // the loads above have changed which file the next save derives from
        let b = self.base.clone().map(|p| CurrentRootObjInfo::new(self.root.id(), p));
        set_current_root_obj_info(&self.info, b);
        Ok(())
    }
    fn load_old(&mut self, c: &mut Case) -> Result<(), String> {
        if self.saved.is_empty() { return Ok(()); }
        let k = c.rng.below(self.saved.len());
        let i = self.info.clone();
        let h = guard("listing", || list_histories(&i))?.map_err(|e| format!("the history cannot be listed: {}", e))?;
        let l = h.list_files();
        ensure!(l.len() == self.saved.len(), "{} files are listed, {} were saved", l.len(), self.saved.len());
        c.log(|| format!("load {}", l[k].props().calc_filename()));
        self.root = self.check_one(k, &l[k], "when going back")?;
        self.base = if self.saved[k].version == self.cur() { Some(self.saved[k].props.clone()) } else { None };
        // the file was loaded twice
        if self.base.is_some() { self.root = load_history_file_data(&self.info, &l[k], false).map_err(|e| format!("the file cannot be loaded again: {}", e))?; }
        Ok(())
    }
    fn forward(&mut self, c: &mut Case) -> Result<(), String> {
        let s = mutate_schema(c, self.schemas.last().unwrap());
        let k = self.schemas.len();
        let base = self._tmp.0.clone();
        let src = match src_at(c, &base, &s, k) { Some(x) => x, None => return Ok(()) };
        c.log(|| format!("new source {}", k));
        let (d, s2, o) = (&self.dir, src.clone(), &self.opts);
        let info = guard("opening a history", || unsafe { init_dochy_cache_us(d, s2, o) })?.map_err(|e| format!("the history cannot be opened with a new source: {}", e))?;
        if self.saved.iter().any(|x| x.hash == info.hash()) { return self.restart(c); }
        self.info = info;
        self.schemas.push(s);
        self.srcs.push(src);
        self.base = None;
        self.root = self.info.clone_src_root();
        if c.rng.chance(3, 4) { self.load_old(c)?; }
        Ok(())
    }
}

/// a history with all kinds of steps; `versions`: the source may change
fn build(c: &mut Case, versions: bool, checks: bool) -> Result<Option<Hist>, String> {
    let s = gen_schema(c);
    let mut h = match Hist::new(c, s)? { Some(x) => x, None => return Ok(None) };
    let steps = 2 + c.n(24);
    let wander = *c.rng.pick(&[0, 1, 1, 3]);
    for _ in 0..steps {
        let n = *c.rng.pick(&[0, 1, 1, 2, 3, 8]);
        h.edit(c, n)?;
        h.save(c)?;
        if checks && c.rng.chance(1, 3) { let all = c.rng.chance(1, 2); h.check(c, all, "after a save")?; }
        if c.rng.chance(wander, 8) { h.load_old(c)?; }
        if c.rng.chance(wander, 24) { c.log(|| "another object".into()); h.root = if c.rng.chance(1, 2) { h.root.clone() } else { h.info.clone_src_root() }; h.base = None; }
        if c.rng.chance(1, 20) { h.restart(c)?; if c.rng.chance(1, 2) { h.load_old(c)?; } }
        if versions && c.rng.chance(1, 14) && h.schemas.len() < 4 { h.forward(c)?; if c.rng.chance(1, 3) { h.check(c, true, "after a source change")?; } }
    }
    Ok(Some(h))
}
fn note(c: &mut Case, h: &Hist) {
    for s in &h.saved { c.mix_bytes(s.props.calc_filename().as_bytes()); }
    let shapes: BTreeSet<usize> = h.saved.iter().map(|s| s.props.phase()).collect();
    if h.saved.len() > 2 && shapes.len() > 1 { c.nontrivial(); }
}
pub fn c17(c: &mut Case) -> Result<(), String> {
    let mut h = match build(c, true, true)? { Some(h) => h, None => return Ok(()) };
    h.check(c, true, "in the end")?;
    h.restart(c)?;
    h.check(c, true, "after a restart")?;
    note(c, &h);
    Ok(())
}

/// the body of a history file, without its header
fn body(p: &Path) -> Result<u64, String> {
    let b = std::fs::read(p).map_err(|e| format!("{:?}: {}", p, e))?;
    let mut r = b.as_slice();
    dochy_compaction::enc_dec::decode::decode(&mut r).map_err(|e| format!("the header of {:?} cannot be read: {}", p, e))?;
    Ok(r.len() as u64)
}
pub fn c16(c: &mut Case) -> Result<(), String> {
    for _ in 0..4 {
        let o = gen_options(c);
        match (o.build()?, o.contradictory()) {
            (Ok(_), true) => return Err(format!("the contradictory options {:?} are accepted", o)),
            (Err(e), false) => return Err(format!("the options {:?} are refused: {}", o, e)),
            (Ok(h), _) => ensure!(h.max_phase() == o.max && h.update_phase_0() == o.up0 && h.is_cumulative() == o.cum.is_some() && h.mt_save() == o.mt.0 && h.mt_load() == o.mt.1
                && h.cumulative().map(|x| (x.limit_nth(), x.limit_count())) == o.cum, "the options {:?} are built as {:?}", o, h),
            _ => {}
        }
    }
    // one string per member, so that the sizes of the diffs are under control
    let mems: Vec<(String, RMem)> = (0..6).map(|i| (format!("s{}", i), RMem::P(PDef { vt: Vt::Normal, def: Val::Val(Raw::Str(String::new())) }))).collect();
    let mut h = match Hist::new(c, Schema { mems, old: vec![] })? { Some(h) => h, None => return Err("a plain definition is refused".into()) };
    let hdir = hash_dir_path(&h.dir, h.info.hash());
    // per file at the deepest phase: the sizes of its run so far and of the files above it
    let mut runs: BTreeMap<String, (Vec<u64>, Vec<u64>)> = BTreeMap::new();
    let mut chains: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut above: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let profile = c.rng.below(5);
    let mut newest: Option<String> = None;
    for step in 0..2 + c.n(60) {
        for _ in 0..c.rng.range(0, 3) {
            let len = match profile { 0 => c.rng.below(8), 1 => c.rng.below(3000), 2 => if step == 0 { 5000 } else { c.rng.below(60) }, 3 => 1 << c.rng.below(12), _ => if c.rng.chance(1, 8) { 2000 } else { c.rng.below(20) } };
            let t: String = (0..len).map(|_| (b'a' + c.rng.below(26) as u8) as char).collect();
            let m = format!("s{}", c.rng.below(6));
            let v = Val::Val(Raw::Str(t));
            root_access::set(ptr_mut(&mut h.root), &m, &v);
        }
        let base = h.base.clone();
        let p = h.save(c)?.clone();
        let name = p.calc_filename();
        let size = body(&hdir.join(&name))?;
        ensure!(p.phase() <= h.o.max, "{} is in phase {}, the maximum is {}", name, p.phase(), h.o.max);
        c.mix(p.phase() as u64);
        if p.phase() > 0 { c.nontrivial(); }
        if let Some(b) = &base {
            ensure!(p.phase() <= b.phase() + 1, "{} derives from {}, more than one phase deeper", name, b.calc_filename());
            let from_last = b.phase() == h.o.max && newest.as_ref() != Some(&b.calc_filename());
            let started_new = h.o.max == 0 && from_last;
            ensure!(h.o.up0 || p.phase() > 0 || started_new, "{} is a derived phase 0 file although they are disabled", name);
            let from = if from_last && h.o.max > 0 {
                // derives from the parent
                above[&b.calc_filename()][h.o.max - 1].clone()
            } else { b.calc_filename() };
            // the sizes of the chain: one per phase
            let mut chain = chains[&from].clone();
            chain.truncate(p.phase());
            let up = chain.clone();
            chain.push(size);
            chains.insert(name.clone(), chain);
            let mut ab = above[&from].clone();
            ab.truncate(p.phase());
            ab.push(name.clone());
            above.insert(name.clone(), ab);
            if let (Some((nth, count)), true) = (h.o.cum, p.phase() == h.o.max) {
                let free = h.o.max == 1 && !h.o.up0;
                let cont = runs.get(&from).cloned().filter(|_| p.order().last() != Some(&0));
                let (mut run, up) = match cont { Some(x) => x, None => (vec![], up) };
                if !run.is_empty() && !free {
                    if let Some(k) = count { ensure!(run.len() < k, "{} is file {} of a cumulative run, the limit is {}", name, run.len() + 1, k); }
                    if let Some(k) = nth {
                        let mut all = up.clone();
                        all.push(*run.last().unwrap());
                        all.sort();
                        if k <= all.len() {
                            let lim = all[all.len() - k];
                            let sum: u64 = run.iter().sum();
                            ensure!(sum < lim, "{} continues a cumulative run of {} bytes, the limit is the {}. largest file with {} bytes", name, sum, k, lim);
                        }
                    }
                }
                run.push(size);
                runs.insert(name.clone(), (run, up));
            }
        } else {
            ensure!(p.phase() == 0, "{} is saved without a base, but not in phase 0", name);
            chains.insert(name.clone(), vec![size]);
            above.insert(name.clone(), vec![name.clone()]);
            if h.o.max == 0 { runs.insert(name.clone(), (vec![size], vec![])); }
        }
        newest = Some(name);
        if c.rng.chance(1, 12) { h.load_old(c)?; }
        if c.rng.chance(1, 25) { h.restart(c)?; }
    }
    h.check(c, false, "in the end")
}

fn names(dir: &Path) -> BTreeSet<String> {
    std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).filter(|n| n.ends_with(".his")).collect()).unwrap_or_default()
}
pub fn c18(c: &mut Case) -> Result<(), String> {
    let several = c.rng.chance(1, 3);
    let mut h = match build(c, several, false)? { Some(h) => h, None => return Ok(()) };
    if c.rng.chance(1, 2) { h.restart(c)?; }
    note(c, &h);
    let total = h.saved.len();
    let hashes: Vec<u128> = { let mut v: Vec<u128> = vec![]; for s in &h.saved { if v.last() != Some(&s.hash) { v.push(s.hash); } } v };
    let last = *hashes.last().unwrap();
    let in_last: Vec<usize> = (0..total).filter(|k| h.saved[*k].hash == last).collect();
    let last_dir = hash_dir_path(&h.dir, last);
    let mut keep: BTreeSet<usize>;
    let fh = guard("listing", || FileHistory::create(&h.dir, last, h.o.max, h.o.cum.is_some()))?.map_err(|e| format!("the history cannot be listed: {}", e))?;
    let before = names(&last_dir);
    match c.rng.below(3) {
        0 => {
            // old files of all source versions
            let n = c.rng.below(total + 2);
            c.log(|| format!("remove_old_files({}) of all", n));
            keep = (total.saturating_sub(n)..total).collect();
            let i = h.info.clone();
            let l = guard("listing", || list_histories(&i))?.map_err(|e| format!("the history cannot be listed: {}", e))?;
            let d = &h.dir;
            guard("removing", || l.remove_old_files(n, d))?.map_err(|e| format!("old files cannot be removed: {}", e))?;
            let mut newer = 0;
            for (k, x) in hashes.iter().enumerate().rev() {
                let mine: Vec<&Saved> = h.saved.iter().filter(|s| s.hash == *x).collect();
                if k + 1 < hashes.len() {
                    let left = names(&hash_dir_path(&h.dir, *x)).len();
                    ensure!(left == 0 || left == mine.len(), "{} of {} files of an older source are left", left, mine.len());
                    ensure!(newer >= n || left == mine.len(), "only {} newer files exist, {} were to be kept, but an older source's folder is gone", newer, n);
                    ensure!(newer <= n || left == 0, "{} newer files exist, {} were to be kept, but an older source's folder is still there", newer, n);
                }
                newer += mine.len();
            }
            // folders of older sources stay whole
            for k in 0..total { if h.saved[k].hash != last && names(&hash_dir_path(&h.dir, h.saved[k].hash)).len() > 0 { keep.insert(k); } }
        }
        1 => {
            let n = c.rng.below(in_last.len() + 2);
            c.log(|| format!("remove_old_files({})", n));
            keep = in_last[in_last.len().saturating_sub(n)..].iter().cloned().collect();
            let said: BTreeSet<String> = guard("listing removable files", || fh.get_removable_old_items(n).iter().map(|p| p.calc_filename()).collect())?;
            let failed = guard("removing", || fh.remove_old_files(n, &last_dir))?;
            ensure!(failed.is_empty(), "{:?} could not be removed", failed);
            let gone: BTreeSet<String> = before.difference(&names(&last_dir)).cloned().collect();
            ensure!(gone == said, "said to be removable {:?}, removed {:?}", said, gone);
        }
        _ => {
            keep = in_last.iter().cloned().filter(|_| c.rng.chance(1, 4)).collect();
            c.log(|| format!("keep {:?}", keep));
            let r = guard("preparing the removal", || HistoryRemover::from(&fh))?;
            for k in &keep { let p = &h.saved[*k].props; ensure!(guard("keep", || r.keep(p))?.is_some(), "{} cannot be kept", p.calc_filename()); }
            let said: BTreeSet<String> = guard("listing removable files", || r.get_removable_props().iter().map(|p| p.calc_filename()).collect())?;
            let failed = guard("removing", || r.remove(&last_dir))?;
            ensure!(failed.is_empty(), "{:?} could not be removed", failed);
            let gone: BTreeSet<String> = before.difference(&names(&last_dir)).cloned().collect();
            ensure!(gone == said, "said to be removable {:?}, removed {:?}", said, gone);
        }
    }
    let left = names(&last_dir);
    for k in &keep { let s = &h.saved[*k]; ensure!(hash_dir_path(&h.dir, s.hash).join(s.props.calc_filename()).is_file(), "{} was to be kept but is gone", s.props.calc_filename()); }
    h.restart(c)?;
    let load_kept = |h: &Hist, k: usize, what: &str| -> Result<(), String> {
        let s = &h.saved[k];
        let fh = guard("listing", || FileHistory::create(&h.dir, s.hash, h.o.max, h.o.cum.is_some()))?.map_err(|e| format!("the history cannot be listed: {}", e))?;
        let d = HistoryFileData::new(s.hash, &fh, &s.props);
        h.check_one(k, &d, what).map(|_| ())
    };
    for k in &keep { load_kept(&h, *k, "after the removal")?; }
    // what is left besides is needed by a kept file
    for k in in_last.iter().filter(|k| !keep.contains(k)) {
        let f = last_dir.join(h.saved[*k].props.calc_filename());
        if !f.is_file() { continue; }
        let aside = last_dir.join("aside");
        std::fs::rename(&f, &aside).unwrap();
        h.restart(c)?;
        let needed = keep.iter().any(|q| h.saved[*q].hash == last && load_kept(&h, *q, "").is_err());
        std::fs::rename(&aside, &f).unwrap();
        ensure!(needed, "{} is still there, but neither kept nor needed by a kept file (left: {:?}, kept: {:?})", h.saved[*k].props.calc_filename(), left, keep.iter().map(|k| h.saved[*k].props.calc_filename()).collect::<Vec<_>>());
    }
    Ok(())
}

/// Known finding: the source goes back to an earlier version.
pub fn revert(c: &mut Case) -> Result<(), String> {
    let def = |d: i64| Schema { mems: vec![("i".to_string(), RMem::P(PDef { vt: Vt::Normal, def: Val::Val(Raw::Int(d)) }))], old: vec![] };
    let t = tmp(c);
    let dir = t.0.join("hist");
    std::fs::create_dir(&dir).unwrap();
    let srcs = [src_at(c, &t.0, &def(1), 0).ok_or("refused")?, src_at(c, &t.0, &def(2), 1).ok_or("refused")?];
    let opts = HistoryOptions::new();
    let mut names = vec![];
    for k in [0usize, 1, 0] {
        let info = unsafe { init_dochy_cache_us(&dir, srcs[k].clone(), &opts) }.map_err(|e| e.to_string())?;
        let mut root = info.clone_src_root();
        root_access::set(ptr_mut(&mut root), "i", &Val::Val(Raw::Int(10 + names.len() as i64)));
        let p = save_history_file(&info, None, &root).map_err(|e| e.to_string())?;
        names.push(format!("{:032x}/{}", info.hash(), p.calc_filename()));
        let l = list_histories(&info).map_err(|e| e.to_string())?;
        let n = l.get_newest_file_data().map(|d| format!("{:032x}/{}", d.hash(), d.props().calc_filename()));
        ensure!(n.as_ref() == names.last(), "returning-to-an-earlier-source: the newest file is reported as {:?}, the last one saved is {:?}", n, names.last());
    }
    Ok(())
}
