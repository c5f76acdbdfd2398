//! What counts as true in a mask, and what a condition selects.
use crate::spec::*;
fn truthy<T: Elem>(x: T, other: T) -> bool {
    let s = Cell3([other, other, x]); let d = T::dt();
    unsafe { d.ops().is_truthy(s.p(), 2 * sz::<T>()) }
}
macro_rules! ints { ($($n:ident: $t:ty),*) => { $(harness!($n, cadical, { let x: $t = kani::any(); assert!(truthy(x, <$t as Elem>::arb()) == (x != 0)); });)* } }
ints!(i8_: i8, i16_: i16, i32_: i32, i64_: i64, u8_: u8, u16_: u16, u32_: u32, u64_: u64);
harness!(bool_, cadical, { let x: bool = kani::any(); assert!(truthy(x, kani::any()) == x); });
macro_rules! floats { ($($n:ident: $t:ty),*) => { $(harness!($n, cadical, { let x: $t = kani::any(); assert!(truthy(x, <$t as Elem>::arb()) == !(x == 0.0)); });)* } }
floats!(f32_: f32, f64_: f64);
harness16!(f16_, cadical, { let x = f16::arb(); assert!(truthy(x, f16::arb()) == (x.to_bits() & 0x7fff != 0)); });
macro_rules! cplx { ($($n:ident: $t:ty),*) => { $(harness!($n, cadical, { let x = <$t>::arb(); assert!(truthy(x, <$t>::arb()) == !(x.re == 0.0 && x.im == 0.0)); });)* } }
cplx!(c64_: Complex<f32>, c128_: Complex<f64>);
