use crate::ensure;
use crate::util::*;
use dochy_compaction::basic_compaction::*;
use dochy_compaction::enc_dec::var_int;
use dochy_compaction::kval_enum::{Decimal, KVal};
use dochy_compaction::string_compaction as sc;
use dochy_compaction::url_string;
use dochy_compaction::{decode, decode_from_slice, encode, encode_to_vec};
use std::sync::Arc;

pub const RULE_SEQ: &str = "a case is a sequence of values of all storable kinds with boundary lengths and integer widths; non-trivial: at least two values";

fn len_near(c: &mut Case) -> usize {
    let v = [0usize, 1, 2, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 300];
    match c.rng.below(12) {
        0 => if c.size >= 100 && c.rng.chance(1, 30) { *c.rng.pick(&[32767usize, 32768, 32769, 65535, 65536, 70000]) } else { *c.rng.pick(&v) },
        1..=4 => *c.rng.pick(&v),
        _ => c.rng.below(12),
    }
}
pub fn gen_kval(c: &mut Case) -> KVal {
    let k = c.rng.below(17);
    gen_kind(c, k)
}
fn gen_kind(c: &mut Case, k: usize) -> KVal {
    let mut v = gen_plain(c, k);
    // buffers often have more room than content
    if c.rng.chance(1, 3) {
        let n = c.rng.below(20);
        match &mut v {
            KVal::Str16(s) | KVal::Str256(s) | KVal::BigStr(s) => s.reserve(n),
            KVal::Binary(b) => b.reserve(n),
            KVal::BinaryArc(b) => Arc::get_mut(b).unwrap().reserve(n),
            KVal::Binary8(b) => b.reserve(n),
            KVal::Binary4(b) => b.reserve(n),
            KVal::Binary2(b) => b.reserve(n),
            _ => {}
        }
    }
    v
}
fn gen_plain(c: &mut Case, k: usize) -> KVal {
    match k {
        0 => KVal::Null,
        1 => KVal::Bit(c.rng.chance(1, 2)),
        2 => KVal::Bool(c.rng.chance(1, 2)),
        3 => KVal::Byte(c.rng.u64() as i8),
        4 => { let n = c.rng.below(16); KVal::Str16(c.rng.string_bytes(n)) }
        5 => KVal::Int(c.rng.i64()),
        6 => KVal::Float(c.rng.f32()),
        7 => { let n = len_near(c).min(255); KVal::Str256(c.rng.string_bytes(n)) }
        8 => KVal::Double(c.rng.f64()),
        9 => KVal::Decimal(Decimal::new(c.rng.i128(), c.rng.u64() as u8)),
        10 => { let n = len_near(c); KVal::BigStr(c.rng.string_bytes(n)) }
        11 => { let n = len_near(c); KVal::Binary(c.rng.bytes(n)) }
        12 => { let n = len_near(c); KVal::BinaryArc(Arc::new(c.rng.bytes(n))) }
        13 => { let n = len_near(c).min(400); KVal::Binary8((0..n).map(|_| c.rng.i64() as u64).collect()) }
        14 => { let n = len_near(c).min(400); KVal::Binary4((0..n).map(|_| c.rng.i64() as u32).collect()) }
        15 => { let n = len_near(c).min(400); KVal::Binary2((0..n).map(|_| c.rng.i64() as u16).collect()) }
        _ => KVal::Undefined(c.rng.below(8) as u8),
    }
}
fn gen_seq(c: &mut Case) -> Vec<KVal> {
    // first every kind alone, then every ordered pair of kinds, then random sequences
    if c.index < 17 { let i = c.index as usize; return vec![gen_kind(c, i)]; }
    if c.index < 17 + 289 { let i = c.index as usize - 17; return vec![gen_kind(c, i / 17), gen_kind(c, i % 17)]; }
    let n = match c.rng.below(20) { 0 => 0, 1 => c.n(600), _ => c.n(24) };
    (0..n).map(|_| gen_kval(c)).collect()
}
/// value equality by bits; a shared binary equals the same plain binary
fn same(a: &KVal, b: &KVal) -> bool {
    match (a, b) {
        (KVal::Float(x), KVal::Float(y)) => x.to_bits() == y.to_bits(),
        (KVal::Double(x), KVal::Double(y)) => x.to_bits() == y.to_bits(),
        (KVal::BinaryArc(x), KVal::Binary(y)) => x.as_ref() == y,
        (x, y) => x == y,
    }
}

// ---- the published layout, written down independently of the implementation ----
fn spec_int(v: i128) -> Vec<u8> {
    // little endian magnitude (of -v-1 for negative numbers), the smallest length whose
    // top bit is free, the top bit being the sign
    let m: u128 = if v < 0 { (-(v + 1)) as u128 } else { v as u128 };
    let mut n = 1;
    while n < 16 && m >> (8 * n - 1) != 0 { n += 1; }
    let mut r: Vec<u8> = (0..n).map(|i| (m >> (8 * i)) as u8).collect();
    if v < 0 { *r.last_mut().unwrap() |= 0x80; }
    r
}
fn spec_encode(vals: &[KVal]) -> Vec<u8> {
    let mut bits: Vec<bool> = vec![];
    let mut data: Vec<u8> = vec![];
    fn put(bits: &mut Vec<bool>, s: &str) { bits.extend(s.bytes().map(|b| b == b'1')); }
    fn num(bits: &mut Vec<bool>, v: usize, n: usize) { for i in (0..n).rev() { bits.push(v >> i & 1 == 1); } }
    fn sized(bits: &mut Vec<bool>, data: &mut Vec<u8>, tag: &str, len: usize) {
        let l = spec_int(len as i128);
        put(bits, tag);
        num(bits, l.len() - 1, 3);
        data.extend(l);
    }
    for v in vals {
        match v {
            KVal::Bit(b) => { put(&mut bits, "1"); bits.push(*b); }
            KVal::Byte(b) => { put(&mut bits, "011"); data.push(*b as u8); }
            KVal::Str16(s) => { put(&mut bits, "0101"); num(&mut bits, s.len(), 4); data.extend(s.bytes()); }
            KVal::Null => put(&mut bits, "01001"),
            KVal::Bool(b) => { put(&mut bits, "010001"); bits.push(*b); }
            KVal::Decimal(d) => { let b = spec_int(d.int); put(&mut bits, "0100001"); num(&mut bits, b.len() - 1, 4); data.extend(b); data.push(d.dot); }
            KVal::Int(i) => { let b = spec_int(*i as i128); put(&mut bits, "0011"); num(&mut bits, b.len() - 1, 3); data.extend(b); }
            KVal::Str256(s) => { put(&mut bits, "00101"); data.push(s.len() as u8); data.extend(s.bytes()); }
            KVal::Double(d) => { put(&mut bits, "001001"); let b = d.to_bits(); data.extend((0..8).rev().map(|i| (b >> (8 * i)) as u8)); }
            KVal::BigStr(s) => { sized(&mut bits, &mut data, "0010001", s.len()); data.extend(s.bytes()); }
            KVal::Float(d) => { put(&mut bits, "00100001"); let b = d.to_bits(); data.extend((0..4).rev().map(|i| (b >> (8 * i)) as u8)); }
            KVal::Binary(b) => { sized(&mut bits, &mut data, "00011", b.len()); data.extend(b); }
            KVal::BinaryArc(b) => { sized(&mut bits, &mut data, "00011", b.len()); data.extend(b.iter()); }
            KVal::Binary8(b) => { sized(&mut bits, &mut data, "000101", b.len()); for x in b { data.extend((0..8).map(|i| (x >> (8 * i)) as u8)); } }
            KVal::Binary4(b) => { sized(&mut bits, &mut data, "0001001", b.len()); for x in b { data.extend((0..4).map(|i| (x >> (8 * i)) as u8)); } }
            KVal::Binary2(b) => { sized(&mut bits, &mut data, "00010001", b.len()); for x in b { data.extend((0..2).map(|i| (x >> (8 * i)) as u8)); } }
            KVal::Undefined(u) => { put(&mut bits, "00001"); for _ in 0..*u { bits.push(false); } bits.push(true); }
        }
    }
    let mut tags = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() { if *b { tags[i / 8] |= 0x80 >> (i % 8); } }
    let mut r = vec![];
    for n in [vals.len(), tags.len()] { let b = spec_int(n as i128); r.push(b.len() as u8); r.extend(b); }
    r.extend(tags);
    r.extend(data);
    r
}

fn seq_case(c: &mut Case) -> Vec<KVal> {
    let v = gen_seq(c);
    c.log(|| format!("values: {:?}", v));
    for k in &v { let s = format!("{:?}", k); c.mix_bytes(&s.as_bytes()[..s.len().min(40)]); c.mix(s.len() as u64); }
    if v.len() >= 2 { c.nontrivial(); }
    v
}
fn same_seq(v: &[KVal], r: &[KVal]) -> Result<(), String> {
    ensure!(r.len() == v.len(), "decoded {} values instead of {}", r.len(), v.len());
    for i in 0..v.len() { ensure!(same(&v[i], &r[i]), "value {} was {:?} and came back as {:?}", i, v[i], r[i]); }
    Ok(())
}
pub fn c01(c: &mut Case) -> Result<(), String> {
    let v = seq_case(c);
    let bytes = guard("encode_to_vec", || encode_to_vec(&v))?.map_err(|e| format!("encode_to_vec: {}", e))?;
    c.log(|| format!("bytes: {:02x?}", bytes));
    let (r, n) = guard("decode_from_slice", || decode_from_slice(&bytes))?.map_err(|e| format!("decode_from_slice: {}", e))?;
    same_seq(&v, &r)?;
    ensure!(n == bytes.len(), "decoder reports {} of {} bytes", n, bytes.len());
    // several sequences and foreign bytes in one stream
    let w = gen_seq(c);
    let mut out: Vec<u8> = vec![];
    let n1 = guard("encode", || encode(&v, &mut out))?.map_err(|e| e.to_string())?;
    ensure!(n1 == out.len(), "encoder reports {} bytes, wrote {}", n1, out.len());
    let n2 = guard("encode", || encode(&w, &mut out))?.map_err(|e| e.to_string())?;
    ensure!(n1 + n2 == out.len(), "encoder reports {}+{} bytes, wrote {}", n1, n2, out.len());
    let tail = c.rng.bytes(3);
    out.extend(&tail);
    let mut s = out.as_slice();
    let (r1, m1) = guard("decode", || decode(&mut s))?.map_err(|e| e.to_string())?;
    ensure!(out.len() - s.len() == m1 && m1 == n1, "decoder reports {} bytes, consumed {}, written {}", m1, out.len() - s.len(), n1);
    same_seq(&v, &r1)?;
    let (r2, m2) = guard("decode", || decode(&mut s))?.map_err(|e| format!("second sequence: {}", e))?;
    same_seq(&w, &r2)?;
    ensure!(m2 == n2 && s == tail.as_slice(), "second sequence: {} bytes read, {} written, {} left", m2, n2, s.len());
    let (i, j) = (c.rng.i64(), c.rng.i128());
    let b = var_int::encode(i);
    ensure!(var_int::decode(&b) == i, "integer {} came back as {}", i, var_int::decode(&b));
    let b = var_int::encode128(j);
    ensure!(var_int::decode128(&b) == j, "integer {} came back as {}", j, var_int::decode128(&b));
    Ok(())
}
pub fn c02(c: &mut Case) -> Result<(), String> {
    let v = seq_case(c);
    let want = spec_encode(&v);
    let got = guard("encode_to_vec", || encode_to_vec(&v))?.map_err(|e| e.to_string())?;
    ensure!(got == want, "layout changed: encoded {:02x?}, the published layout is {:02x?}", got, want);
    let (r, n) = guard("decode_from_slice", || decode_from_slice(&want))?.map_err(|e| format!("bytes of an earlier release are refused: {}", e))?;
    same_seq(&v, &r).map_err(|e| format!("bytes of an earlier release {:02x?}: {}", want, e))?;
    ensure!(n == want.len(), "{} of {} bytes read", n, want.len());
    let (i, j) = (c.rng.i64(), c.rng.i128());
    ensure!(var_int::encode(i).to_vec() == spec_int(i as i128), "integer {} is stored as {:?}", i, var_int::encode(i));
    ensure!(var_int::encode128(j).to_vec() == spec_int(j), "integer {} is stored as {:?}", j, var_int::encode128(j));
    Ok(())
}
pub fn c03(c: &mut Case) -> Result<(), String> {
    c.nontrivial();
    for _ in 0..40 {
        let i = c.rng.i64();
        c.mix(i as u64);
        c.log(|| format!("integer {}", i));
        let k = guard("comp_int", || comp_int(i))?;
        ensure!(k.as_i64() == Some(i), "integer {} compacted to {:?} reads back as {:?}", i, k, k.as_i64());
        let (r, _) = decode_from_slice(&encode_to_vec(&[k]).unwrap()).map_err(|e| e.to_string())?;
        ensure!(r[0].as_i64() == Some(i), "integer {} stored and read back as {:?}", i, r[0].as_i64());
        let f = c.rng.f64();
        c.log(|| format!("f64 {:?} {:#x}", f, f.to_bits()));
        c.mix(f.to_bits());
        let k = guard("comp_double", || comp_double(f))?;
        let g = k.as_f64();
        ensure!(g.map_or(false, |g| g.to_bits() == f.to_bits() || f.is_nan() && g.is_nan()), "f64 {:?} ({:#x}) compacted to {:?} reads back as {:?}", f, f.to_bits(), k, g);
        let (r, _) = decode_from_slice(&encode_to_vec(&[k]).unwrap()).map_err(|e| e.to_string())?;
        ensure!(r[0].as_f64().map_or(false, |g| g.to_bits() == f.to_bits() || f.is_nan() && g.is_nan()), "f64 {:?} stored and read back as {:?}", f, r[0]);
        let f = c.rng.f32();
        c.log(|| format!("f32 {:?} {:#x}", f, f.to_bits()));
        let k = guard("comp_float", || comp_float(f))?;
        let g = k.as_f32();
        ensure!(g.map_or(false, |g| g.to_bits() == f.to_bits() || f.is_nan() && g.is_nan()), "f32 {:?} ({:#x}) compacted to {:?} reads back as {:?}", f, f.to_bits(), k, g);
    }
    Ok(())
}
fn numberish(c: &mut Case) -> String {
    let r = &mut c.rng;
    let mut s = String::new();
    match r.below(10) {
        0 => return (*r.pick(&["", "0", "1", "-0", "00", "-1", "true", "false", "True", "null", "undefined0", "-", ".", "-.", "0.", ".0", "0.0", "-0.0", "1.", "+1", "1e5", "１２",
            "0x10", "1_000", "255", "-128", "128", "127", "-129", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
            "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "NaN", "inf"])).to_string(),
        1 => { let n = *r.pick(&[0usize, 1, 15, 16, 17, 255, 256, 257]); return r.string_bytes(n); }
        2 => { let n = r.below(20); return r.string(n); }
        3 => return r.i64().to_string(),
        4 => {
            let mut s = r.i128().to_string();
            if r.chance(1, 2) { let at = r.range(1, s.len()); s.insert(at, '.'); }
            return s;
        }
        _ => {}
    }
    if r.chance(1, 3) { s.push('-'); }
    if r.chance(1, 3) { for _ in 0..r.range(1, 4) { s.push('0'); } }
    let n = match r.below(4) { 0 => 0, 1 => r.below(45), _ => r.range(1, 6) };
    for _ in 0..n { s.push((b'0' + r.below(10) as u8) as char); }
    if r.chance(2, 3) {
        s.push(if r.chance(1, 8) { *r.pick(&[',', 'x', ' ', '\n', '．', '-', '/', ':']) } else { '.' });
        let z = match r.below(6) { 0 => r.below(300), _ => r.below(4) };
        for _ in 0..z { s.push('0'); }
        for _ in 0..r.below(8) { s.push((b'0' + r.below(10) as u8) as char); }
    }
    if r.chance(1, 4) { for _ in 0..r.range(1, 3) { s.push('0'); } }
    if r.chance(1, 8) { s.push(*r.pick(&['.', '\n', ' ', 'a', '-', '٣', '０'])); }
    s
}
pub fn c04(c: &mut Case) -> Result<(), String> {
    let n = 1 + c.n(30);
    let v: Vec<String> = (0..n).map(|_| numberish(c)).collect();
    c.log(|| format!("strings: {:?}", v));
    for s in &v { c.mix_bytes(s.as_bytes()); if s.bytes().any(|b| b.is_ascii_digit()) { c.nontrivial(); } }
    let k = guard("to_kvals", || sc::to_kvals(v.iter().cloned()))?;
    let r = guard("to_strings", || sc::to_strings(&k))?;
    for i in 0..v.len() { ensure!(r.get(i) == Some(&v[i]), "{:?} became {:?} and reads back as {:?}", v[i], k[i], r.get(i)); }
    ensure!(r.len() == v.len(), "list length changed");
    let b = guard("compress_strings", || sc::compress_strings(v.iter().cloned()))?.map_err(|e| e.to_string())?;
    let (r, n) = guard("decompress", || sc::decompress(&b))?.map_err(|e| format!("decompress: {}", e))?;
    ensure!(r == v, "compressed strings came back as {:?}", r);
    ensure!(n == b.len(), "{} of {} bytes read", n, b.len());
    for s in &v {
        let k = guard("comp_str", || comp_str(s.clone()))?;
        ensure!(k.as_string().as_ref() == Some(s), "{:?} compacted to {:?} reads back as {:?}", s, k, k.as_string());
        let e = guard("encode", || encode_to_vec(&[k]))?.map_err(|e| e.to_string())?;
        let (r, _) = guard("decode", || decode_from_slice(&e))?.map_err(|e| e.to_string())?;
        ensure!(r[0].as_string().as_ref() == Some(s), "{:?} stored and read back as {:?}", s, r[0]);
    }
    Ok(())
}
pub fn c05(c: &mut Case) -> Result<(), String> {
    let n = if c.index < 259 { c.index as usize } else { c.rng.below(70) };
    let b: Vec<u8> = if c.index < 259 && c.rng.chance(1, 3) { vec![*c.rng.pick(&[0u8, 255, 1, 128]); n] } else { c.rng.bytes(n) };
    c.log(|| format!("bytes: {:?}", b));
    c.mix_bytes(&b);
    if n > 0 { c.nontrivial(); }
    let s = guard("get_url_string", || url_string::get_url_string(&b))?;
    ensure!(s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_'), "{:?} became {:?}", b, s);
    let r = guard("get_bytes", || url_string::get_bytes(&s))?;
    ensure!(r.as_ref() == Some(&b), "{:?} became {:?} and reads back as {:?}", b, s, r);
    let mut t: Vec<char> = s.chars().collect();
    let bad = loop { let x = c.rng.ch(); if !(x.is_ascii_alphanumeric() || x == '-' || x == '_') { break x; } };
    let bad = if c.rng.chance(1, 2) { *c.rng.pick(&['@', '[', '`', '{', '/', ':', '+', '=', '.', ',', '^', ' ', '\u{ff21}', '\u{141}', '\u{130}', '\u{12d}']) } else { bad };
    let at = c.rng.below(t.len() + 1);
    t.insert(at, bad);
    let t: String = t.into_iter().collect();
    c.log(|| format!("text: {:?}", t));
    let r = guard("get_bytes", || url_string::get_bytes(&t))?;
    ensure!(r.is_none(), "{:?} was converted to {:?}", t, r);
    Ok(())
}
pub fn c06(c: &mut Case) -> Result<(), String> {
    let bytes = if c.rng.chance(1, 6) {
        let n = c.n(60);
        c.rng.bytes(n)
    } else {
        let n = c.n(8);
        let v: Vec<KVal> = (0..n).map(|_| gen_kval(c)).collect();
        let b = spec_encode(&v);
        // every truncation is refused
        let cut = c.rng.below(b.len());
        let r = guard(&format!("decoding the first {} bytes of {:02x?}", cut, b), || decode_from_slice(&b[..cut]).map(|_| ()))?;
        ensure!(r.is_err(), "the first {} of {} bytes {:02x?} of an encoding are accepted", cut, b.len(), &b[..cut]);
        let mut m = b.clone();
        for _ in 0..c.rng.range(1, 4) {
            if m.is_empty() { break; }
            let head = m.len().min(12);
            let i = if c.rng.chance(1, 2) { c.rng.below(head) } else { c.rng.below(m.len()) };
            match c.rng.below(6) {
                0 => m[i] ^= 1 << c.rng.below(8),
                1 => m[i] = *c.rng.pick(&[0, 255, 127, 128, 8, 9, 16, 17]),
                2 => { m.remove(i); }
                3 => m.insert(i, c.rng.u64() as u8),
                4 => m.truncate(i),
                _ => { let big = [8u8, 255, 255, 255, 255, 255, 255, 255, 127]; let k = c.rng.range(2, 9); let mut x = big[..k].to_vec(); x[0] = k as u8 - 1; m.splice(0..m.len().min(2), x); }
            }
        }
        m
    };
    c.log(|| format!("bytes: {:02x?}", bytes));
    c.mix_bytes(&bytes);
    c.nontrivial();
    let r = guard(&format!("decoding {:02x?}", bytes), || decode_from_slice(&bytes).map(|x| x.1))?;
    if let Ok(n) = r { ensure!(n <= bytes.len(), "{} of {} bytes read", n, bytes.len()); }
    Ok(())
}
