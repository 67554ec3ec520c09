//! Dochy files in a save directory.
use crate::ensure;
use crate::history::tmp;
use crate::model::*;
use crate::objects::{converted, mutate_schema};
use crate::util::*;
use dochy_core::structs::RootObject;
use dochy_fs::common::{hash_dir_path, CurrentSrc};
use dochy_fs::filesys::*;
use std::collections::BTreeMap;
use std::path::Path;

struct F { version: usize, root: RootObject, view: View, bytes: Vec<u8> }
/// every file below `d` with its content
fn tree(d: &Path, base: &Path, r: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(d).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() { tree(&p, base, r) } else { r.insert(p.strip_prefix(base).unwrap().to_string_lossy().to_string(), std::fs::read(&p).unwrap()); }
    }
}
/// sources that lie at similar places
pub fn source(k: usize) -> String {
    ["src", "SRC", "old/src", "src0", "sr", "old/SRC"].get(k).map_or(format!("src{}", k), |s| s.to_string())
}
const NAMES: [&str; 10] = ["f", "save1", "a.b", "é", "x y", "src.archive.bak", "SRC.ARCHIVE", "created_time", "archive", ".hidden"];
const RESERVED: [&str; 2] = ["src.archive", "created_time.dat"];
pub fn c19(c: &mut Case) -> Result<(), String> {
    // all names used below stay inside this directory even when they are taken as paths
    let t = tmp(c);
    let save = t.0.join("box").join("save");
    std::fs::create_dir_all(&save).unwrap();
    let mut schemas = vec![gen_schema(c)];
    let open = |c: &mut Case, s: &Schema, k: usize, first: bool| -> Result<Option<SaveDirInfo>, String> {
        let at = source(k);
        let d = t.0.join(&at);
        std::fs::create_dir_all(&d).unwrap();
        write(c, s, &d, &Style { wild: false });
        if load(&d).is_err() { return Ok(None); }
        let mut src = CurrentSrc::from_src_dir(&d);
        if c.rng.chance(1, 4) {
            let a = t.0.join(format!("{}.archive", at));
            let mut v = vec![];
            if dochy_core::archive_src_dir(&d, &mut v).is_err() { return Ok(None); }
            std::fs::write(&a, v).unwrap();
            src = CurrentSrc::from_archive_file(a);
        }
        let r = if first { guard("opening", || SaveDirInfo::create(&save, src))? } else { guard("opening", || unsafe { force_update_and_get_info_us(&save, src) })? };
        let r = r.map_err(|e| format!("the save directory cannot be opened: {}", e))?;
        let h = dochy_core::json_dir_to_root_with_hash(&d, false).map_err(|e| e.to_string())?.1;
        ensure!(r.hash() == h, "the save directory is opened with another source than {}", at);
        Ok(Some(r))
    };
    let mut info = match open(c, &schemas[0], 0, true)? { Some(i) => i, None => return Ok(()) };
    let mut hashes = vec![info.hash()];
    let mut root = info.clone_src_root();
    let mut files: BTreeMap<(u128, String), F> = BTreeMap::new();
    let check_tree = |files: &BTreeMap<(u128, String), F>, hashes: &[u128], archives: &BTreeMap<String, Vec<u8>>, what: &str| -> Result<(), String> {
        let mut got = BTreeMap::new();
        tree(&t.0.join("box"), &save, &mut got);
        for ((h, n), f) in files {
            let p = format!("{:032x}/{}", h, n);
            ensure!(got.remove(&p).as_ref() == Some(&f.bytes), "{}: the saved file {} is gone or changed", what, p);
        }
        for (p, b) in archives { ensure!(got.remove(p).as_ref() == Some(b), "{}: the bookkeeping file {} is gone or changed", what, p); }
        for h in hashes { for r in RESERVED { got.remove(&format!("{:032x}/{}", h, r)); } }
        ensure!(got.is_empty(), "{}: unexpected files {:?}", what, got.keys().collect::<Vec<_>>());
        Ok(())
    };
    let mut archives: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for _ in 0..2 + c.n(20) {
        let s = schemas.last().unwrap().clone();
        let ta = tables_of(&s);
        for _ in 0..c.rng.below(5) { guard("edit", || edit(c, &mut root, &s, &ta))?; }
        let hash = info.hash();
        let other = *c.rng.pick(&hashes);
        match c.rng.below(8) {
            0 | 1 | 2 => {
                // half of the time a file that is there already, often with an object that takes less space
                let here: Vec<&String> = files.keys().filter(|k| k.0 == hash).map(|k| &k.1).collect();
                let n = if !here.is_empty() && c.rng.chance(1, 2) { (*c.rng.pick(&here)).clone() } else { (*c.rng.pick(&NAMES)).to_string() };
                let over = c.rng.chance(1, 2);
                if c.rng.chance(1, 5) { root = info.clone_src_root(); }
                c.log(|| format!("save {:?} overwrite={}", n, over));
                let had = files.contains_key(&(hash, n.clone()));
                let r = guard("saving", || save_dochy_file(&info, &n, &root, over))?;
                match r {
                    Ok(p) => {
                        ensure!(!had || over, "the existing file {:?} was replaced", n);
                        ensure!(p == hash_dir_path(&save, hash).join(&n), "{:?} was saved as {:?}", n, p);
                        let bytes = std::fs::read(&p).map_err(|e| format!("{:?} cannot be read: {}", p, e))?;
                        let v = view(&root, &s)?;
                        c.mix_bytes(&bytes);
                        if had {
                            // replacing a file leaves nothing of what it held
                            let q = guard("saving", || save_dochy_file(&info, "twin", &root, false))?.map_err(|e| format!("saving \"twin\" is refused: {}", e))?;
                            let twin = std::fs::read(&q).map_err(|e| format!("{:?} cannot be read: {}", q, e))?;
                            ensure!(bytes.len() == twin.len(), "{:?} holds {} bytes after it was replaced, the same object takes {} in a new file", n, bytes.len(), twin.len());
                            guard("removing", || remove_dochy_file(&save, hash, "twin"))?.map_err(|e| format!("\"twin\" cannot be removed: {}", e))?;
                        }
                        files.insert((hash, n), F { version: schemas.len() - 1, root: root.clone(), view: v, bytes });
                        for r in RESERVED {
                            let k = format!("{:032x}/{}", hash, r);
                            let b = std::fs::read(save.join(&k)).map_err(|e| format!("the bookkeeping file {} is missing: {}", k, e))?;
                            archives.entry(k).or_insert(b);
                        }
                    }
                    Err(e) => ensure!(had && !over, "saving {:?} is refused: {}", n, e),
                }
                check_tree(&files, &hashes, &archives, "after a save")?;
            }
            3 => {
                // names that lead to bookkeeping files or to other folders
                let f = files.keys().next().map_or("f".to_string(), |k| k.1.clone());
                let n = match c.rng.below(8) {
                    0 | 1 => c.rng.pick(&RESERVED).to_string(),
                    2 => format!("./{}", c.rng.pick(&RESERVED)),
                    3 => format!("../{:032x}/{}", other, c.rng.pick(&RESERVED)),
                    4 => format!("../{:032x}/{}", other, f),
                    5 => format!("../{:032x}/new", other),
                    6 => save.join(format!("{:032x}", other)).join(&f).to_str().unwrap().to_string(),
                    _ => (*c.rng.pick(&["", ".", "..", "sub/x", "../x"])).to_string(),
                };
                let remove = c.rng.chance(1, 2);
                c.log(|| format!("{} {:?}", if remove { "remove" } else { "save" }, n));
                let ok = if remove { guard("removing", || remove_dochy_file(&save, hash, &n))?.is_ok() } else { guard("saving", || save_dochy_file(&info, &n, &root, true))?.is_ok() };
                ensure!(!ok || !RESERVED.contains(&n.as_str()), "{} {:?} is accepted", if remove { "removing" } else { "saving" }, n);
                check_tree(&files, &hashes, &archives, &format!("after trying to {} {:?}", if remove { "remove" } else { "save" }, n))?;
            }
            4 => {
                let k = if !files.is_empty() && c.rng.chance(3, 4) { let i = c.rng.below(files.len()); files.keys().nth(i).unwrap().clone() } else { (other, (*c.rng.pick(&NAMES)).to_string()) };
                c.log(|| format!("remove {:?}", k));
                let r = guard("removing", || remove_dochy_file(&save, k.0, &k.1))?;
                ensure!(r.is_ok() == files.contains_key(&k), "removing {:?}: {:?}", k, r.map_err(|e| e.to_string()));
                files.remove(&k);
                check_tree(&files, &hashes, &archives, "after a removal")?;
            }
            5 => {
                let mut l: Vec<(u128, String, u64)> = guard("listing", || list_dochy_files(&save))?.map_err(|e| format!("the directory cannot be listed: {}", e))?.iter().map(|d| (d.hash(), d.name().to_string(), d.len())).collect();
                l.sort();
                let want: Vec<(u128, String, u64)> = files.iter().map(|((h, n), f)| (*h, n.clone(), f.bytes.len() as u64)).collect();
                ensure!(l == want, "listed {:?}, saved {:?}", l, want);
            }
            6 => {
                if files.is_empty() { continue; }
                let i = c.rng.below(files.len());
                let ((h, n), f) = files.iter().nth(i).unwrap();
                c.log(|| format!("load {:?}", n));
                let p = hash_dir_path(&save, *h).join(n);
                let cur = schemas.len() - 1;
                let want = if f.version == cur { f.view.clone() } else { converted(&f.root, &schemas[f.version], &schemas[cur])? };
                let r = guard("loading", || load_dochy_file(&p, &info, false))?.map_err(|e| format!("{:?} cannot be loaded: {}", n, e))?;
                let got = view(&r, &schemas[cur])?;
                ensure!(got == want, "{:?} does not load as it was saved: {}", n, diff_text(&want, &got));
                if got != initial_view(&schemas[cur]) { c.nontrivial(); }
                if c.rng.chance(1, 3) { root = r; }
            }
            _ => {
                if schemas.len() > 3 || !c.rng.chance(1, 2) { continue; }
                let s = mutate_schema(c, &schemas[schemas.len() - 1]);
                let k = schemas.len();
                let i = match open(c, &s, k, false)? { Some(i) => i, None => return Ok(()) };
                if hashes.contains(&i.hash()) { return Ok(()); }
                c.log(|| format!("new source {}", k));
                info = i;
                hashes.push(info.hash());
                schemas.push(s);
                root = info.clone_src_root();
            }
        }
    }
    check_tree(&files, &hashes, &archives, "in the end")
}
