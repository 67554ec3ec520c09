/// Where the inputs of a contract come from: Kani (every value) or a recorded counterexample.
pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn u128(&mut self) -> u128;
    fn assume(&mut self, b: bool);
    fn reached(&mut self);
    fn i8(&mut self) -> i8 { self.u8() as i8 }
    fn i64(&mut self) -> i64 { self.u64() as i64 }
    fn i128(&mut self) -> i128 { self.u128() as i128 }
    fn f32(&mut self) -> f32 { f32::from_bits(self.u32()) }
    fn f64(&mut self) -> f64 { f64::from_bits(self.u64()) }
    fn bool(&mut self) -> bool { let b = self.u8(); self.assume(b < 2); b == 1 }
}
