//! Source archives and the hash of a source.
use crate::ensure;
use crate::model::*;
use crate::util::*;
use dochy_archiver2::{read_archive, read_archive_data_from_directory, write_archive, ArchiveOptions, ArchiveOptionsBuilder};
use std::collections::BTreeMap;
use std::path::Path;

type Files = BTreeMap<String, Vec<u8>>;

fn put(c: &mut Case, dir: &Path, f: &Files) {
    let mut names: Vec<&String> = f.keys().collect();
    c.rng.shuffle(&mut names);
    for n in names {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, &f[n]).unwrap();
    }
}
/// the hash and the (name, content) pairs, from the directory and from its archive
fn archive(dir: &Path, opt: &ArchiveOptions) -> Result<(u128, Vec<Vec<u8>>), String> {
    let d = guard("reading a directory", || read_archive_data_from_directory(dir, opt, |_, b| b.to_vec()))?.map_err(|e| format!("the directory is refused: {}", e))?;
    let mut bytes = vec![];
    guard("writing an archive", || write_archive(&d, &mut bytes))?.map_err(|e| format!("the archive cannot be written: {}", e))?;
    let a = guard("reading an archive", || read_archive(|_, b| b.to_vec(), &mut bytes.as_slice()))?.map_err(|e| format!("the archive is refused: {}", e))?;
    ensure!(a.hash() == d.hash(), "directory hash {:032x}, archive hash {:032x}", d.hash(), a.hash());
    let (x, y): (Vec<_>, Vec<_>) = (d.btree().iter().collect(), a.btree().iter().collect());
    ensure!(x.len() == y.len(), "{} files archived, {} read", x.len(), y.len());
    for ((n, i), (m, j)) in x.iter().zip(&y) {
        ensure!(n == m, "file {} was archived as {}", n, m);
        ensure!(i.raw_data() == j.raw_data(), "file {} of {} bytes has other content in the archive", n, i.raw_data().len());
        ensure!(i.raw_data().as_ref() == i.converted_data() && j.raw_data().as_ref() == j.converted_data(), "file {} was converted from other bytes than stored", n);
    }
    Ok((d.hash(), x.iter().map(|(_, i)| i.raw_data().as_ref().clone()).collect()))
}
fn gen_files(c: &mut Case) -> Files {
    let mut f = Files::new();
    for i in 0..1 + c.n(6) {
        let base = *c.rng.pick(&["a", "b", "ab", "root", "B", "é", "a b", "a-b", "zz", "x.y", "0"]);
        let dir = if c.rng.chance(1, 4) { *c.rng.pick(&["sub/", "sub/deep/", "a/"]) } else { "" };
        let n = match c.rng.below(8) { 0 => 0, 1 => 1, 2 => *c.rng.pick(&[31, 32, 33, 63, 64, 65]), 3 if c.size > 40 => 1 + c.rng.below(200_000), _ => c.rng.below(40) };
        let body = if c.rng.chance(1, 3) { vec![*c.rng.pick(&[0u8, 32, 255]); n] } else { c.rng.bytes(n) };
        f.insert(format!("{}{}{}.json5", dir, base, i), body);
    }
    f
}
/// one change to the names or the contents
fn change(c: &mut Case, f: &Files) -> (Files, String) {
    let mut g = f.clone();
    let names: Vec<String> = f.keys().cloned().collect();
    let n = c.rng.pick(&names).clone();
    let last = |n: &str| n.rfind('/').map_or(0, |i| i + 1);
    let what = match c.rng.below(10) {
        0 => { let b = *c.rng.pick(&[0u8, 32, 10]); g.get_mut(&n).unwrap().push(b); format!("append {} to {}", b, n) }
        1 if !f[&n].is_empty() => { let k = c.rng.below(f[&n].len()); let b = 1 << c.rng.below(8); g.get_mut(&n).unwrap()[k] ^= b; format!("flip {} at {} of {}", b, k, n) }
        2 if !f[&n].is_empty() => { g.get_mut(&n).unwrap().pop(); format!("drop the last byte of {}", n) }
        3 => { let v = g.remove(&n).unwrap(); let k = last(&n); let m = format!("{}{}{}", &n[..k], c.rng.pick(&["0", "x", "Z"]), &n[k..]); g.insert(m.clone(), v); format!("rename {} to {}", n, m) }
        4 if names.len() > 1 => { let m = c.rng.pick(&names).clone(); g.insert(n.clone(), f[&m].clone()); g.insert(m.clone(), f[&n].clone()); format!("swap the contents of {} and {}", n, m) }
        5 => { g.insert("empty9.json5".into(), vec![]); "add an empty file".into() }
        6 if names.len() > 1 => {
            // the following file becomes part of this one
            let i = c.rng.below(names.len() - 1);
            let v = g.remove(&names[i + 1]).unwrap();
            let t = g.get_mut(&names[i]).unwrap();
            if c.rng.chance(1, 2) { t.extend_from_slice(&(names[i + 1].len() as u64).to_ne_bytes()); }
            t.extend_from_slice(names[i + 1].as_bytes());
            if c.rng.chance(1, 2) { t.extend_from_slice(&(v.len() as u64).to_ne_bytes()); }
            t.extend_from_slice(&v);
            format!("merge {} into {}", names[i + 1], names[i])
        }
        8 => {
            // a name of the same length, in the same place of the order or another
            let v = g.remove(&n).unwrap();
            let k = last(&n);
            let first = n[k..].chars().next().unwrap();
            let other = if first.is_ascii() { *c.rng.pick(&['0', 'k', 'Z']) } else { 'ü' };
            let m = format!("{}{}{}", &n[..k], other, &n[k + first.len_utf8()..]);
            if g.contains_key(&m) { g.insert(n, v); "no change".to_string() } else { g.insert(m.clone(), v); format!("rename {} to {}", n, m) }
        }
        7 if names.len() > 1 => { let i = c.rng.below(names.len() - 1); g.remove(&names[i + 1]); format!("remove {}", names[i + 1]) }
        _ => {
            // bytes move from the end of a file to the start of the next file's name
            let i = c.rng.below(names.len());
            if i + 1 < names.len() && names[i + 1].is_ascii() && !names[i + 1].contains('/') {
                let v = g.remove(&names[i + 1]).unwrap();
                g.get_mut(&names[i]).unwrap().push(names[i + 1].as_bytes()[0]);
                g.insert(names[i + 1][1..].to_string(), v);
            }
            "move a byte between a content and the next name".to_string()
        }
    };
    (g, what)
}
pub fn c13(c: &mut Case) -> Result<(), String> {
    if c.index % 2 == 0 { return c13_definition(c); }
    let mut b = ArchiveOptionsBuilder::new().archive_subfolders(true);
    if c.rng.chance(1, 2) { b = b.add_extension("json5"); }
    let opt = b.build().map_err(|e| e.to_string())?;
    let f = gen_files(c);
    c.log(|| format!("files: {}", cut(format!("{:?}", f))));
    let a = c.fresh_dir("a");
    put(c, &a, &f);
    let (h, content) = archive(&a, &opt)?;
    let mut want: Vec<&Vec<u8>> = f.values().collect();
    let mut got: Vec<&Vec<u8>> = content.iter().collect();
    want.sort();
    got.sort();
    ensure!(want == got, "the archive does not hold exactly the files of the directory");
    // the same files elsewhere, created in another order, later
    let b = c.fresh_dir("b");
    let b = b.join("other/place");
    std::fs::create_dir_all(&b).unwrap();
    put(c, &b, &f);
    let (h2, _) = archive(&b, &opt)?;
    ensure!(h2 == h, "the same files in another directory have the hash {:032x} instead of {:032x}", h2, h);
    for _ in 0..3 {
        let (g, what) = change(c, &f);
        c.log(|| what.clone());
        let d = c.fresh_dir("c");
        put(c, &d, &g);
        let (h3, _) = archive(&d, &opt)?;
        ensure!((h3 == h) == (f == g), "{}: the hash {} although the files {}", what, if h3 == h { "is unchanged" } else { "changed" }, if f == g { "are the same" } else { "differ" });
        c.mix(h3 as u64);
    }
    c.nontrivial();
    Ok(())
}
fn c13_definition(c: &mut Case) -> Result<(), String> {
    let s = gen_schema(c);
    let dir = c.fresh_dir("src");
    let st = Style { wild: c.rng.chance(1, 2) };
    write(c, &s, &dir, &st);
    let open = |p: &Path| guard("opening the directory", || dochy_core::json_dir_to_root_with_hash(p, true));
    let (mut r, mut h) = match open(&dir)? { Ok(x) => x, Err(_) => return Ok(()) };
    if c.rng.chance(1, 2) {
        // not part of the source
        std::fs::write(dir.join("notes.txt"), "not a definition").unwrap();
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        std::fs::write(dir.join("sub/more.json5"), "{").unwrap();
        let (r0, h0) = open(&dir)?.map_err(|e| format!("the directory is refused when it has files that are not part of the source: {}", e))?;
        r = r0;
        h = h0;
    }
    let want = view(&r, &s)?;
    let mut bytes = vec![];
    guard("archiving the directory", || dochy_core::archive_src_dir(&dir, &mut bytes))?.map_err(|e| format!("the directory cannot be archived: {}", e))?;
    let (r2, h2) = guard("opening the archive", || dochy_core::read_archive_to_root_with_hash(&mut bytes.as_slice(), true))?.map_err(|e| format!("the archive is refused: {}", e))?;
    ensure!(h == h2, "directory hash {:032x}, archive hash {:032x}", h, h2);
    let got = view(&r2, &s)?;
    ensure!(want == got, "the archive reads differently: {}", diff_text(&want, &got));
    ensure!(r2.default().len() == r.default().len(), "the archive defines {} members instead of {}", r2.default().len(), r.default().len());
    let arc = c.fresh_dir("arc").join("source.archive");
    std::fs::write(&arc, &bytes).unwrap();
    let (r3, h3) = guard("opening the archive file", || dochy_core::archive_file_to_root_with_hash(&arc, true))?.map_err(|e| format!("the archive file is refused: {}", e))?;
    ensure!(h3 == h, "archive file hash {:032x}, directory hash {:032x}", h3, h);
    ensure!(view(&r3, &s)? == want, "the archive file reads differently");
    let files: Files = files_of_json(&dir);
    let other = c.fresh_dir("elsewhere").join("deep");
    std::fs::create_dir_all(&other).unwrap();
    put(c, &other, &files);
    let (r4, h4) = open(&other)?.map_err(|e| format!("a copy of the directory is refused: {}", e))?;
    ensure!(h4 == h, "a copy of the directory has the hash {:032x} instead of {:032x}", h4, h);
    ensure!(view(&r4, &s)? == want, "a copy of the directory reads differently");
    // a comment at the end changes the hash and nothing else
    let n = c.rng.pick(&files.keys().cloned().collect::<Vec<_>>()).clone();
    let mut t = files[&n].clone();
    t.extend_from_slice(b"\n//x");
    std::fs::write(other.join(&n), t).unwrap();
    if let Ok((r5, h5)) = open(&other)? {
        ensure!(h5 != h, "{} was changed but the hash was not", n);
        ensure!(view(&r5, &s)? == want, "a comment in {} changed the definition", n);
    }
    c.mix(h as u64);
    c.nontrivial();
    Ok(())
}
fn files_of_json(dir: &Path) -> Files {
    let mut top = Files::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let n = e.file_name().to_str().unwrap().to_string();
        if n.ends_with(".json5") { top.insert(n, std::fs::read(e.path()).unwrap()); }
    }
    top
}
