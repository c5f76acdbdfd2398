//! Shared vocabulary of the harnesses.
pub use crate::array::dtype::{self, DType, DTypeKind, DTypeOps, UnaryOp, BinaryOp, ReduceOp, BitwiseOp, TimeUnit};
pub use crate::ops::kernels::{BinaryKernel, UnaryKernel, ReduceKernel, CompareKernel, PredicateKernel, arithmetic, bitwise, comparison, math};
pub use half::f16;
pub use num_complex::Complex;

/// An element type together with the dtype descriptor that stores it.
pub trait Elem: Copy { fn dt() -> DType; fn arb() -> Self; fn same(a: Self, b: Self) -> bool; }
macro_rules! elem_int { ($($t:ty => $f:ident),*) => { $(impl Elem for $t {
    fn dt() -> DType { DType::$f() } fn arb() -> Self { kani::any() } fn same(a: Self, b: Self) -> bool { a == b } })* } }
elem_int!(i8 => int8, i16 => int16, i32 => int32, i64 => int64, u8 => uint8, u16 => uint16, u32 => uint32, u64 => uint64);
impl Elem for bool { fn dt() -> DType { DType::bool() } fn arb() -> Self { kani::any() } fn same(a: Self, b: Self) -> bool { a == b } }
/// Bit-identical, any NaN standing for any NaN.
macro_rules! elem_float { ($($t:ty => $f:ident),*) => { $(impl Elem for $t {
    fn dt() -> DType { DType::$f() } fn arb() -> Self { kani::any() }
    fn same(a: Self, b: Self) -> bool { (a != a && b != b) || (a == b && a.is_sign_negative() == b.is_sign_negative()) } })* } }
elem_float!(f32 => float32, f64 => float64);
impl Elem for f16 { fn dt() -> DType { DType::float16() } fn arb() -> Self { f16::from_bits(kani::any()) }
    fn same(a: Self, b: Self) -> bool { (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits() } }
impl Elem for Complex<f32> { fn dt() -> DType { DType::complex64() } fn arb() -> Self { Complex::new(kani::any(), kani::any()) }
    fn same(a: Self, b: Self) -> bool { f32::same(a.re, b.re) && f32::same(a.im, b.im) } }
impl Elem for Complex<f64> { fn dt() -> DType { DType::complex128() } fn arb() -> Self { Complex::new(kani::any(), kani::any()) }
    fn same(a: Self, b: Self) -> bool { f64::same(a.re, b.re) && f64::same(a.im, b.im) } }

/// Three slots, so that a write to slot 1 can be seen to leave its neighbours alone.
pub struct Cell3<T: Copy>(pub [T; 3]);
impl<T: Copy> Cell3<T> {
    pub fn p(&self) -> *const u8 { self.0.as_ptr() as *const u8 }
    pub fn m(&mut self) -> *mut u8 { self.0.as_mut_ptr() as *mut u8 }
}
pub fn sz<T>() -> isize { std::mem::size_of::<T>() as isize }

/// out[1] = op(x at slot 2) through the dtype's own element function; neighbours untouched.
pub fn dyn_unary<T: Elem>(op: UnaryOp, x: T) -> T {
    let s = Cell3([x; 3]); let g = T::arb(); let mut o = Cell3([g; 3]);
    let d = T::dt();
    unsafe { d.ops().unary_op(op, s.p(), 2 * sz::<T>(), o.m(), 1); }
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
    o.0[1]
}
pub fn dyn_binary<T: Elem>(op: BinaryOp, x: T, y: T) -> T {
    let s = Cell3([y, y, x]); let g = T::arb(); let mut o = Cell3([g; 3]);
    let d = T::dt();
    unsafe { d.ops().binary_op(op, s.p(), 2 * sz::<T>(), s.p(), sz::<T>(), o.m(), 1); }
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
    o.0[1]
}
pub fn dyn_bit<T: Elem>(op: BitwiseOp, x: T, y: T) -> T {
    let s = Cell3([y, y, x]); let g = T::arb(); let mut o = Cell3([g; 3]);
    let d = T::dt();
    assert!(unsafe { d.ops().bitwise_op(op, s.p(), 2 * sz::<T>(), s.p(), sz::<T>(), o.m(), 1) });
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
    o.0[1]
}
pub fn dyn_not<T: Elem>(x: T) -> T {
    let s = Cell3([x; 3]); let g = T::arb(); let mut o = Cell3([g; 3]);
    let d = T::dt();
    assert!(unsafe { d.ops().bitwise_not(s.p(), 2 * sz::<T>(), o.m(), 1) });
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
    o.0[1]
}
/// (identity, accumulate) of a reduction through the dtype's own functions
pub fn dyn_init<T: Elem>(op: ReduceOp) -> T {
    let g = T::arb(); let mut o = Cell3([g; 3]); let d = T::dt();
    unsafe { d.ops().reduce_init(op, o.m(), 1); }
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
    o.0[1]
}
pub fn dyn_acc<T: Elem>(op: ReduceOp, acc: T, v: T) -> T {
    let s = Cell3([v; 3]); let g = T::arb(); let mut o = Cell3([g, acc, g]); let d = T::dt();
    unsafe { d.ops().reduce_acc(op, o.m(), 1, s.p(), 2 * sz::<T>()); }
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
    o.0[1]
}
macro_rules! harness { ($n:ident, $s:ident, $b:block) => { #[kani::proof] #[kani::solver($s)] pub fn $n() $b } }

/// CPU-feature detection runs inline assembly; answering "no features" selects half's portable conversions.
pub fn no_cpuid(_: u32, _: u32) -> std::arch::x86_64::CpuidResult { std::arch::x86_64::CpuidResult { eax: 0, ebx: 0, ecx: 0, edx: 0 } }
macro_rules! harness16 { ($n:ident, $s:ident, $b:block) => { #[kani::proof] #[kani::solver($s)] #[kani::stub(std::arch::x86_64::__cpuid_count, no_cpuid)] pub fn $n() $b } }
