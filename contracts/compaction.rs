//! Contracts of value-level functions, written once: Kani evaluates them on every input,
//! the native binary re-evaluates them on a counterexample.
use crate::Src;
use dochy_compaction::basic_compaction::{comp_double, comp_float, comp_int};
use dochy_compaction::enc_dec::signed_bytes::{signed_bytes, signed_bytes128};
use dochy_compaction::enc_dec::var_int;
use dochy_compaction::kval_enum::KVal;
use dochy_compaction::url_string::char_and_b6::{b6_to_char, char_to_b6};

/// encode writes the smallest little endian form with the sign in the top bit, and decode inverts it
pub fn var_int_i64<S: Src>(s: &mut S) {
    let v = s.i64();
    let m: u64 = if v < 0 { !(v as u64) } else { v as u64 };
    let b = var_int::encode(v);
    let n = b.len();
    assert!(n >= 1 && n <= 8, "between 1 and 8 bytes");
    assert!(m >> (8 * n - 1) == 0, "the magnitude fits below the sign bit");
    assert!(n == 1 || m >> (8 * n - 9) != 0, "no shorter form exists");
    let mut i = 0;
    while i < n {
        let mut x = (m >> (8 * i)) as u8;
        if i == n - 1 && v < 0 { x |= 0x80 }
        assert!(b[i] == x, "byte of the fixed layout");
        i += 1;
    }
    assert!(signed_bytes(v) == n, "signed_bytes is the length");
    assert!(var_int::decode(&b) == v, "decode inverts encode");
    s.reached();
}
pub fn var_int_i128<S: Src>(s: &mut S) {
    let v = s.i128();
    let b = var_int::encode128(v);
    let n = b.len();
    let m: u128 = if v < 0 { !(v as u128) } else { v as u128 };
    assert!(n >= 1 && n <= 16, "between 1 and 16 bytes");
    assert!(m >> (8 * n - 1) == 0, "the magnitude fits below the sign bit");
    assert!(n == 1 || m >> (8 * n - 9) != 0, "no shorter form exists");
    assert!(signed_bytes128(v) == n, "signed_bytes128 is the length");
    assert!(var_int::decode128(&b) == v, "decode inverts encode");
    s.reached();
}
/// every byte string of up to 8 bytes is decoded to its number without a panic
pub fn var_int_total<S: Src>(s: &mut S) {
    let b = [s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8()];
    let n = s.u8() as usize;
    s.assume(n <= 8);
    let v = var_int::decode(&b[..n]);
    if n == 0 {
        assert!(v == 0, "no bytes mean 0");
    } else {
        let mut m: u64 = 0;
        let mut i = 0;
        while i < n {
            let mut x = b[i];
            if i == n - 1 { x &= 0x7f }
            m |= (x as u64) << (8 * i);
            i += 1;
        }
        let w = if b[n - 1] & 0x80 != 0 { !m as i64 } else { m as i64 };
        assert!(v == w, "sign bit and magnitude of the fixed layout");
    }
    s.reached();
}
pub fn var_int_total128<S: Src>(s: &mut S) {
    let mut b = [0u8; 16];
    let mut i = 0;
    while i < 16 { b[i] = s.u8(); i += 1; }
    let n = s.u8() as usize;
    s.assume(n <= 16);
    let v = var_int::decode128(&b[..n]);
    if n == 0 { assert!(v == 0, "no bytes mean 0"); }
    else { assert!((v < 0) == (b[n - 1] & 0x80 != 0), "the top bit is the sign"); }
    s.reached();
}
/// to_bytes / from_bytes are inverse and to_bytes is the smallest form
pub fn var_bytes_u64<S: Src>(s: &mut S) {
    let v = s.u64();
    let b = var_int::to_bytes(v);
    assert!(b.len() >= 1 && b.len() <= 8, "between 1 and 8 bytes");
    assert!(b.len() == 1 || b[b.len() - 1] != 0, "no leading zero byte");
    assert!(var_int::from_bytes(&b) == v, "from_bytes inverts to_bytes");
    s.reached();
}

pub fn comp_int_exact<S: Src>(s: &mut S) {
    let v = s.i64();
    let k = comp_int(v);
    assert!(k.as_i64() == Some(v), "an integer reads back as itself");
    // every kind it may be stored as is one the integer reader accepts, and none is wider than needed
    assert!(matches!(k, KVal::Bit(_) | KVal::Byte(_) | KVal::Int(_)), "stored as an integer kind");
    s.reached();
}
pub fn comp_float_exact<S: Src>(s: &mut S) {
    let v = s.f32();
    let k = comp_float(v);
    let r = k.as_f32();
    assert!(r.is_some(), "a float reads back");
    let r = r.unwrap();
    assert!(if v.is_nan() { r.is_nan() } else { r.to_bits() == v.to_bits() }, "a 32-bit float reads back bit for bit");
    s.reached();
}
pub fn comp_double_exact<S: Src>(s: &mut S) {
    let v = s.f64();
    let k = comp_double(v);
    let r = k.as_f64();
    assert!(r.is_some(), "a float reads back");
    let r = r.unwrap();
    assert!(if v.is_nan() { r.is_nan() } else { r.to_bits() == v.to_bits() }, "a 64-bit float reads back bit for bit");
    s.reached();
}

fn url_char(c: char) -> bool { matches!(c, 'A'..='Z' | 'a'..='z' | '0'..='9' | '-' | '_') }
/// the 64 URL characters and the numbers 0..=63 correspond one to one, everything else is refused
pub fn b6_char<S: Src>(s: &mut S) {
    let b = s.u8();
    let c = b6_to_char(b);
    assert!(c.is_some() == (b < 64), "exactly 0..=63 have a character");
    if let Some(c) = c {
        assert!(url_char(c), "only URL characters");
        assert!(char_to_b6(c) == Some(b), "char_to_b6 inverts b6_to_char");
    }
    s.reached();
}
pub fn char_b6<S: Src>(s: &mut S) {
    let u = s.u32();
    let c = char::from_u32(u);
    s.assume(c.is_some());
    let c = c.unwrap();
    let b = char_to_b6(c);
    assert!(b.is_some() == url_char(c), "exactly the URL characters are accepted");
    if let Some(b) = b {
        assert!(b < 64, "a 6-bit number");
        assert!(b6_to_char(b) == Some(c), "b6_to_char inverts char_to_b6");
    }
    s.reached();
}
