//! Re-evaluates a contract on the verifier's counterexample, with the compiled code.
use crate::Src;
struct Rec { vals: Vec<Vec<u8>>, next: usize }
impl Rec {
    fn take(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.vals.get(self.next).cloned().unwrap_or_default();
        self.next += 1;
        v.resize(n, 0);
        v
    }
}
impl Src for Rec {
    fn u8(&mut self) -> u8 { self.take(1)[0] }
    fn u16(&mut self) -> u16 { let v = self.take(2); u16::from_le_bytes([v[0], v[1]]) }
    fn u32(&mut self) -> u32 { let v = self.take(4); u32::from_le_bytes([v[0], v[1], v[2], v[3]]) }
    fn u64(&mut self) -> u64 { let mut a = [0; 8]; a.copy_from_slice(&self.take(8)); u64::from_le_bytes(a) }
    fn u128(&mut self) -> u128 { let mut a = [0; 16]; a.copy_from_slice(&self.take(16)); u128::from_le_bytes(a) }
    fn assume(&mut self, b: bool) { if !b { println!("the recorded values are outside the precondition"); std::process::exit(2) } }
    fn reached(&mut self) {}
}
/// exit code 1 when the contract fails, 0 when it holds, 2 when the harness is unknown
pub fn replay(harness: &str, bytes: &str) -> i32 {
    let vals: Vec<Vec<u8>> = if bytes == "-" { vec![] } else { bytes.split('/').map(|v| v.split(',').filter_map(|b| b.parse().ok()).collect()).collect() };
    println!("harness {} on {:?}", harness, vals);
    let mut r = Rec { vals, next: 0 };
    macro_rules! table { ($($m:ident: $($n:ident)*;)*) => { match harness { $($(stringify!($n) => Some(crate::util::guard(harness, || crate::$m::$n(&mut r))),)*)* _ => None } } }
    let res = table! {
        contracts: var_int_i64 var_int_i128 var_int_total var_int_total128 var_bytes_u64 comp_int_exact comp_float_exact comp_double_exact b6_char char_b6;
    };
    match res {
        None => { println!("unknown harness"); 2 }
        Some(Ok(())) => { println!("the contract holds on these values"); 0 }
        Some(Err(e)) => { println!("the contract fails: {}", e); 1 }
    }
}
