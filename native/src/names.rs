//! Names of history files and of hash folders.
use crate::ensure;
use crate::history::tmp;
use crate::util::*;
use dochy_fs::common::hash::{folder_name_to_hash, hash_to_folder_name};
use dochy_fs::common::{get_hash_times, CurrentSrc};
use dochy_fs::history::{calc_filename, FileHistory, FileNameProps};
use std::collections::BTreeSet;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::time::{Duration, SystemTime};

fn num(c: &mut Case) -> u32 {
    match c.rng.below(4) { 0 => c.rng.u64() as u32, 1 => *c.rng.pick(&[0, 1, 9, 10, 99, 100, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX, u32::MAX - 1, 4294967290]), 2 => 1u32 << c.rng.below(32), _ => c.rng.below(30) as u32 }
}
fn tag(c: &mut Case) -> Option<String> {
    match c.rng.below(4) {
        0 => None,
        1 => Some((*c.rng.pick(&["", "a", "_", "_1", "(3)", "()", "(", ")", ".his", "_0_0.his", "a_b_c", "é", "漢字", " ", "0", "(1)_2_3.his"])).to_string()),
        _ => { let n = c.rng.below(12); Some(c.rng.string(n).chars().filter(|x| *x != '#').collect()) }
    }
}
type Meta = (u32, u32, Vec<u32>, Option<String>);
fn meta(c: &mut Case) -> Meta {
    let ctl = num(c);
    let prev = if c.rng.chance(1, 2) { ctl } else { num(c) };
    let many = if c.rng.chance(1, 5) { 40 } else { 5 };
    (ctl, prev, (0..1 + c.rng.below(many)).map(|_| num(c)).collect(), tag(c))
}
fn of(p: &FileNameProps) -> Meta { (p.control(), p.prev_ctl(), p.order().to_vec(), p.tag().map(|x| x.to_string())) }
fn name_of(m: &Meta) -> Result<String, String> {
    let p = guard("metadata", || FileNameProps::new(m.0, m.1, m.2.clone(), m.3.clone()))?.map_err(|e| format!("{:?} is refused: {}", m, e))?;
    ensure!(of(&p) == *m && p.phase() + 1 == m.2.len() && p.order_base() == &m.2[..m.2.len() - 1], "{:?} is stored as {:?}", m, p);
    let n = guard("building a name", || p.calc_filename())?;
    let direct = guard("building a name", || calc_filename(m.3.as_ref().map(|x| x.as_str()), m.0, if m.0 == m.1 { None } else { Some(m.1) }, &m.2))?;
    ensure!(n == direct, "{:?} is named {:?} and {:?}", m, n, direct);
    Ok(n)
}
fn read(n: &str) -> Result<Option<FileNameProps>, String> { guard(&format!("reading the name {:?}", n), || FileNameProps::from(n)) }
/// the only names read as history files are the ones written for the metadata read
fn strict(n: &str) -> Result<bool, String> {
    if let Some(p) = read(n)? {
        let back = name_of(&of(&p))?;
        ensure!(back == n, "the name {:?} is read as the file {:?}", n, back);
        ensure!(p.tag().map_or(true, |t| !t.contains('#')), "the name {:?} is read with the tag {:?}", n, p.tag());
        return Ok(true);
    }
    Ok(false)
}
fn damage(c: &mut Case, n: &str) -> String {
    let mut v: Vec<char> = n.chars().collect();
    for _ in 0..1 + c.rng.below(3) {
        let i = c.rng.below(v.len() + 1);
        match c.rng.below(4) {
            0 if i < v.len() => { v.remove(i); }
            1 if i < v.len() => v[i] = *c.rng.pick(&['_', '#', '(', ')', '.', '0', '1', '9', '+', '-', ' ', 'é']),
            2 if i < v.len() => { let x = v[i]; v.insert(i, x); }
            _ => v.insert(i, *c.rng.pick(&['_', '#', '(', ')', '.', '0', '1', '9', '+', '-', 'h', '漢'])),
        }
    }
    v.into_iter().collect()
}
const ODD: [&str; 22] = ["", ".his", "_.his", "__.his", "_0.his", "_0_.his", "__0.his", "_00_0.his", "(x)_0_0.his", "()_0_0.his", "(0)_0_0.his", "(1_0_0.his", "#a_0_0.his", "##_0_0.his", "#", "(", "#.his", "(.his",
    "_4294967296_0.his", "_0_4294967296.his", "(4294967296)_0_0.his", "_0_0.HIS"];
pub fn c14(c: &mut Case) -> Result<(), String> {
    if let Some(n) = ODD.get(c.index as usize) { c.log(|| n.to_string()); strict(n)?; }
    let mut seen: Vec<(String, Meta)> = vec![];
    for _ in 0..1 + c.n(12) {
        let mut m = meta(c);
        // variants of one another
        if let (Some((_, o)), true) = (seen.last(), c.rng.chance(1, 2)) {
            m = o.clone();
            match c.rng.below(5) {
                0 => m.0 = num(c), 1 => m.1 = num(c), 2 => m.3 = tag(c),
                3 => { let i = c.rng.below(m.2.len()); m.2[i] = num(c); }
                _ => { let k = num(c); m.2.push(k); }
            }
        }
        c.log(|| format!("{:?}", m));
        let n = name_of(&m)?;
        c.mix_bytes(n.as_bytes());
        match read(&n)? { Some(p) => ensure!(of(&p) == m, "{:?} is named {:?}, which reads as {:?}", m, n, p), None => return Err(format!("{:?} is named {:?}, which is not recognised", m, n)) }
        for (o, om) in &seen { ensure!((*o == n) == (*om == m), "{:?} and {:?} are both named {:?}", m, om, n); }
        seen.push((n, m));
    }
    for _ in 0..1 + c.n(20) {
        let n = seen[c.rng.below(seen.len())].0.clone();
        let d = damage(c, &n);
        c.log(|| format!("{:?}", d));
        strict(&d)?;
    }
    let l = c.rng.below(14);
    let junk: String = (0..l).map(|_| *c.rng.pick(&['_', '#', '(', ')', '0', '5', '.', 'h', 'i', 's', 'é'])).collect();
    strict(&junk)?;
    strict(&(junk + ".his"))?;
    if c.rng.chance(1, 8) { listing(c)?; }
    c.nontrivial();
    Ok(())
}
/// entries of a folder: exactly the well formed names are listed
fn listing(c: &mut Case) -> Result<(), String> {
    let t = tmp(c);
    let hash = c.rng.u64() as u128;
    let dir = t.0.join(hash_to_folder_name(hash));
    std::fs::create_dir(&dir).unwrap();
    let mut want = BTreeSet::new();
    let max = 4;
    for _ in 0..1 + c.n(12) {
        let mut m = meta(c);
        m.2.truncate(1 + c.rng.below(max + 1));
        m.3 = m.3.map(|x| x.chars().filter(|c| *c != '/' && *c != '\0').take(20).collect());
        let n = name_of(&m)?;
        let mut raw: OsString = n.clone().into();
        match c.rng.below(5) {
            0 => { let d: String = damage(c, &n).chars().filter(|x| *x != '/').collect(); if d.is_empty() || d == "." || d == ".." { continue; } if strict(&d)? { continue; } raw = d.into(); }
            1 => {
                // not valid unicode
                let mut b = n.as_bytes().to_vec();
                let i = c.rng.below(b.len() + 1);
                b.insert(i, 0xff);
                raw = OsStr::from_bytes(&b).to_os_string();
            }
            _ => { want.insert(n); }
        }
        c.log(|| format!("entry {:?}", raw));
        std::fs::write(dir.join(raw), b"").unwrap();
    }
    let cum = c.rng.chance(1, 2);
    let h = guard("listing", || FileHistory::create(&t.0, hash, max, cum))?.map_err(|e| format!("the folder cannot be listed: {}", e))?;
    let l: Vec<String> = guard("listing", || h.list_files().iter().map(|p| p.calc_filename()).collect())?;
    // two names may stand for one place in the history (they differ in tag or parent); then one of them is listed
    for n in &l { ensure!(want.contains(n), "{:?} is listed, but there is no such file", n); }
    let place = |n: &String| { let p = FileNameProps::from(n).unwrap(); (p.control(), p.order().to_vec()) };
    let (a, b): (BTreeSet<_>, BTreeSet<_>) = (want.iter().map(place).collect(), l.iter().map(place).collect());
    ensure!(a == b, "files {:?}, listed {:?}", want, l);
    Ok(())
}

fn hash(c: &mut Case) -> u128 {
    match c.rng.below(5) {
        0 => 1u128 << c.rng.below(128),
        1 => !(1u128 << c.rng.below(128)),
        2 => { let d = c.rng.below(16) as u128; d << (4 * c.rng.below(32)) }
        3 => *c.rng.pick(&[0, u128::MAX, u64::MAX as u128, (u64::MAX as u128) << 64]),
        _ => c.rng.i128() as u128,
    }
}
fn is_hex(n: &[u8]) -> bool { n.len() == 32 && n.iter().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f')) }
pub fn c15(c: &mut Case) -> Result<(), String> {
    let mut last: Option<(u128, OsString)> = None;
    for _ in 0..20 {
        let h = hash(c);
        c.log(|| format!("{:032x}", h));
        let n = guard("naming", || hash_to_folder_name(h))?;
        let want = format!("{:032x}", h);
        ensure!(n.to_str() == Some(want.as_str()), "{:032x} is named {:?}", h, n);
        let back = guard("reading", || folder_name_to_hash(&n))?;
        ensure!(back == Some(h), "{:?} reads as {:?}", n, back);
        if let Some((o, on)) = &last { ensure!((*o == h) == (*on == n), "{:032x} and {:032x} share {:?}", o, h, n); }
        let mut b = n.as_bytes().to_vec();
        for _ in 0..1 + c.rng.below(2) {
            let i = c.rng.below(b.len());
            match c.rng.below(5) { 0 => { b.remove(i); } 1 => b.insert(i, b'0'), 2 => b[i] = *c.rng.pick(&[b'g', b'/', b':', b'`', b'@', b'A', b'F', b' ', b'-', b'+', b'_', 0x7f, 0, 0xff, 0xc3]), 3 => b[i] = c.rng.u64() as u8, _ => { let s = "é".as_bytes(); b.truncate(30); b.splice(i.min(30)..i.min(30), s.iter().cloned()); } }
        }
        let d = OsStr::from_bytes(&b);
        c.log(|| format!("{:?}", d));
        let got = guard(&format!("reading {:?}", d), || folder_name_to_hash(d))?;
        ensure!(got.is_some() == is_hex(&b), "{:?} is read as {:?}", d, got);
        if let Some(g) = got { ensure!(format!("{:032x}", g).as_bytes() == &b[..], "{:?} is read as {:032x}", d, g); }
        c.mix(h as u64);
        last = Some((h, n));
    }
    c.nontrivial();
    match c.rng.below(24) { 0 => times(c), 1 => created(c), _ => Ok(()) }
}
/// recorded creation times are read back exactly and in order, whatever the file system says
fn times(c: &mut Case) -> Result<(), String> {
    let t = tmp(c);
    let mut want = vec![];
    for _ in 0..1 + c.n(8) {
        let h = hash(c);
        let d = t.0.join(format!("{:032x}", h));
        if d.exists() { continue; }
        std::fs::create_dir(&d).unwrap();
        let secs = match c.rng.below(3) { 0 => c.rng.below(5) as u64, 1 => 1u64 << c.rng.below(40), _ => 1_600_000_000 + c.rng.below(1000) as u64 };
        let nanos = match c.rng.below(3) { 0 => c.rng.below(3) as u32, 1 => 999_999_999 - c.rng.below(3) as u32, _ => c.rng.below(1_000_000_000) as u32 };
        let mut f = secs.to_le_bytes().to_vec();
        f.extend_from_slice(&nanos.to_le_bytes());
        std::fs::write(d.join("created_time.dat"), f).unwrap();
        c.log(|| format!("{:032x} created {}.{:09}", h, secs, nanos));
        want.push((h, SystemTime::UNIX_EPOCH + Duration::new(secs, nanos)));
    }
    // other folders and files are left out
    std::fs::create_dir(t.0.join("not a hash")).unwrap();
    std::fs::create_dir(t.0.join("0123456789abcdef0123456789abcdeF")).unwrap();
    std::fs::write(t.0.join("0123456789abcdef0123456789abcde0"), b"").unwrap();
    let got = guard("reading times", || get_hash_times(&t.0))?.map_err(|e| format!("the folders cannot be listed: {}", e))?;
    for (k, w) in got.windows(2).enumerate() { ensure!(w[0].1 <= w[1].1, "folder {} is listed before {} which was created earlier", k, k + 1); }
    let (a, b): (BTreeSet<_>, BTreeSet<_>) = (want.iter().cloned().collect(), got.iter().cloned().collect());
    ensure!(a == b && got.len() == want.len(), "recorded {:?}, read {:?}", want, got);
    Ok(())
}
/// folders made by saves carry the time of their creation
fn created(c: &mut Case) -> Result<(), String> {
    let t = tmp(c);
    let save = t.0.join("save");
    std::fs::create_dir(&save).unwrap();
    let mut order: Vec<(u128, SystemTime, SystemTime)> = vec![];
    for k in 0..1 + c.rng.below(4) {
        let src = t.0.join(format!("s{}", k));
        std::fs::create_dir(&src).unwrap();
        std::fs::write(src.join("root.json5"), format!("{{ i : {} }}", k)).unwrap();
        let a = SystemTime::now();
        let info = guard("opening", || unsafe { dochy_fs::filesys::force_update_and_get_info_us(&save, CurrentSrc::from_src_dir(&src)) })?.map_err(|e| e.to_string())?;
        let root = info.clone_src_root();
        guard("saving", || dochy_fs::filesys::save_dochy_file(&info, "f", &root, true))?.map_err(|e| format!("cannot save: {}", e))?;
        order.push((info.hash(), a, SystemTime::now()));
    }
    let check = |d: &std::path::Path, what: &str| -> Result<Vec<(u128, SystemTime)>, String> {
        let g = guard("reading times", || get_hash_times(d))?.map_err(|e| format!("the folders cannot be listed: {}", e))?;
        ensure!(g.len() == order.len(), "{} folders were made, {} are listed", order.len(), g.len());
        for (x, o) in g.iter().zip(&order) { ensure!(x.0 == o.0 && o.1 <= x.1 && x.1 <= o.2, "{}: folder {:032x} made between {:?} and {:?} is listed as {:032x} at {:?}", what, o.0, o.1, o.2, x.0, x.1); }
        Ok(g)
    };
    let g = check(&save, "after saving")?;
    // a copy has other times in the file system
    let copy = t.0.join("copy");
    std::fs::create_dir(&copy).unwrap();
    let mut hs: Vec<u128> = order.iter().map(|x| x.0).collect();
    c.rng.shuffle(&mut hs);
    for h in hs {
        let n = format!("{:032x}", h);
        std::fs::create_dir(copy.join(&n)).unwrap();
        for e in std::fs::read_dir(save.join(&n)).unwrap() { let e = e.unwrap(); std::fs::copy(e.path(), copy.join(&n).join(e.file_name())).unwrap(); }
    }
    ensure!(check(&copy, "after copying")? == g, "the times differ after copying the folders");
    Ok(())
}
