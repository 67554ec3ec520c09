pub struct Any;
impl crate::Src for Any {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn u128(&mut self) -> u128 { kani::any() }
    fn assume(&mut self, b: bool) { kani::assume(b) }
    fn reached(&mut self) { kani::cover!(true) }
}
