#![allow(dead_code)]
#[path = "../../../contracts/src.rs"]
mod src;
pub use src::Src;
#[path = "../../../contracts/compaction.rs"]
mod compaction;
#[cfg(kani)]
#[path = "../../../contracts/kani_src.rs"]
mod kani_src;

#[cfg(kani)]
mod proofs {
    use crate::compaction as c;
    use crate::kani_src::Any;
    macro_rules! harness { ($n:ident, $u:literal) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $n() { c::$n(&mut Any) }
    } }
    // contract: var_int::encode, var_int::decode, var_int::to_bytes, var_int::from_bytes, signed_bytes
    harness!(var_int_i64, 10);
    // contract: var_int::encode128, var_int::decode128, var_int::to_bytes128, var_int::from_bytes128, signed_bytes128
    harness!(var_int_i128, 18);
    // contract: var_int::decode, var_int::from_bytes
    harness!(var_int_total, 10);
    // contract: var_int::decode128, var_int::from_bytes128
    harness!(var_int_total128, 18);
    // contract: var_int::to_bytes, var_int::from_bytes
    harness!(var_bytes_u64, 10);
    // contract: comp_int, KVal::as_i64
    harness!(comp_int_exact, 2);
    // contract: comp_float, KVal::as_f32
    harness!(comp_float_exact, 2);
    // contract: comp_double, KVal::as_f64
    harness!(comp_double_exact, 2);
    // contract: b6_to_char, char_to_b6
    harness!(b6_char, 2);
    // contract: char_to_b6, b6_to_char
    harness!(char_b6, 2);
}
