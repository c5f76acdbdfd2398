//! Conversions and element stores.
use crate::spec::*;

/// A stored value as a number.
#[derive(Clone, Copy)]
pub enum Num { Int(i128), Re(f64), Cx(f64, f64) }
pub trait Src: Elem { fn num(self) -> Num; }
macro_rules! src_int { ($($t:ty),*) => { $(impl Src for $t { fn num(self) -> Num { Num::Int(self as i128) } })* } }
src_int!(i8, i16, i32, i64, u8, u16, u32, u64);
impl Src for bool { fn num(self) -> Num { Num::Int(if self { 1 } else { 0 }) } }
impl Src for f64 { fn num(self) -> Num { Num::Re(self) } }
impl Src for f32 { fn num(self) -> Num { Num::Re(self as f64) } }
impl Src for f16 { fn num(self) -> Num { Num::Re(self.to_f64()) } }
impl Src for Complex<f64> { fn num(self) -> Num { Num::Cx(self.re, self.im) } }
impl Src for Complex<f32> { fn num(self) -> Num { Num::Cx(self.re as f64, self.im as f64) } }

/// The value a conversion must store, where one is prescribed.
pub trait Dst: Elem { fn from_num(n: Num) -> Option<Self>; }
macro_rules! dst_int { ($($t:ty),*) => { $(impl Dst for $t { fn from_num(n: Num) -> Option<$t> {
    match n {
        Num::Int(i) => Some(i as $t), // modulo the width
        Num::Re(x) | Num::Cx(x, _) => {
            let lo = <$t>::MIN as f64; let hi = (<$t>::MAX / 2 + 1) as f64 * 2.0;
            // toward zero when the truncated value is representable
            if x > lo - 1.0 && x < hi && (x >= lo || <$t>::BITS < 64) {
                Some(x as $t)
            } else { None }
        }
    } } })* } }
dst_int!(i8, i16, i32, i64, u8, u16, u32, u64);
impl Dst for bool { fn from_num(n: Num) -> Option<bool> { Some(match n { Num::Int(i) => i != 0, Num::Re(x) => x != 0.0, Num::Cx(x, y) => x != 0.0 || y != 0.0 }) } }
impl Dst for f64 { fn from_num(n: Num) -> Option<f64> { Some(match n { Num::Int(i) => i as f64, Num::Re(x) | Num::Cx(x, _) => x }) } }
impl Dst for f32 { fn from_num(n: Num) -> Option<f32> { Some(match n { Num::Int(i) => i as f32, Num::Re(x) | Num::Cx(x, _) => x as f32 }) } }
impl Dst for f16 { fn from_num(n: Num) -> Option<f16> { Some(match n { Num::Int(i) => f16::from_f64(i as f64), Num::Re(x) | Num::Cx(x, _) => f16::from_f64(x) }) } }
impl Dst for Complex<f64> { fn from_num(n: Num) -> Option<Self> { Some(match n { Num::Int(i) => Complex::new(i as f64, 0.0), Num::Re(x) => Complex::new(x, 0.0), Num::Cx(x, y) => Complex::new(x, y) }) } }
impl Dst for Complex<f32> { fn from_num(n: Num) -> Option<Self> { Some(match n { Num::Int(i) => Complex::new(i as f32, 0.0), Num::Re(x) => Complex::new(x as f32, 0.0), Num::Cx(x, y) => Complex::new(x as f32, y as f32) }) } }

fn pair<S: Src, D: Dst>() {
    let v = S::arb(); let g = D::arb();
    let s = Cell3([v; 3]); let mut o = Cell3([g; 3]);
    let (sd, dd) = (S::dt(), D::dt());
    unsafe { crate::array::cast_element(sd.ops(), s.p(), 2 * sz::<S>(), dd.ops(), o.m(), 1); }
    assert!(D::same(o.0[0], g) && D::same(o.0[2], g));
    if let Some(e) = D::from_num(v.num()) { assert!(D::same(o.0[1], e)); }
}
macro_rules! casts { ($($n:ident: $s:ty => $solver:ident [$($d:ty),*]),*) => { $(harness16!($n, $solver, { $(pair::<$s, $d>();)* });)* } }
casts!(
    i8_int: i8 => cadical [bool, i16, i32, i64, u8, u16, u32, u64], i16_int: i16 => cadical [bool, i8, i32, i64, u8, u16, u32, u64],
    i32_int: i32 => cadical [bool, i8, i16, i64, u8, u16, u32, u64], i64_int: i64 => cadical [bool, i8, i16, i32, u8, u16, u32, u64],
    u8_int: u8 => cadical [bool, i8, i16, i32, i64, u16, u32, u64], u16_int: u16 => cadical [bool, i8, i16, i32, i64, u8, u32, u64],
    u32_int: u32 => cadical [bool, i8, i16, i32, i64, u8, u16, u64], u64_int: u64 => cadical [bool, i8, i16, i32, i64, u8, u16, u32],
    bool_int: bool => cadical [i8, i16, i32, i64, u8, u16, u32, u64],
    i8_flt: i8 => cadical [f16, f32, f64, Complex<f32>, Complex<f64>], i16_flt: i16 => cadical [f16, f32, f64, Complex<f32>, Complex<f64>],
    i32_flt: i32 => cadical [f16, f32, f64, Complex<f32>, Complex<f64>], i64_flt: i64 => cadical [f16, f32, f64, Complex<f32>, Complex<f64>],
    u8_flt: u8 => cadical [f16, f32, f64, Complex<f32>, Complex<f64>], u16_flt: u16 => cadical [f16, f32, f64, Complex<f32>, Complex<f64>],
    u32_flt: u32 => cadical [f16, f32, f64, Complex<f32>, Complex<f64>], u64_flt: u64 => cadical [f16, f32, f64, Complex<f32>, Complex<f64>],
    bool_flt: bool => cadical [f16, f32, f64, Complex<f32>, Complex<f64>],
    f16_any: f16 => cadical [bool, i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, Complex<f32>, Complex<f64>],
    f32_int: f32 => cadical [bool, i8, i16, i32, i64, u8, u16, u32, u64], f32_flt: f32 => cadical [f16, f64, Complex<f32>, Complex<f64>],
    f64_int: f64 => cadical [bool, i8, i16, i32, i64, u8, u16, u32, u64], f64_flt: f64 => cadical [f16, f32, Complex<f32>, Complex<f64>],
    c64_int: Complex<f32> => cadical [bool, i8, i16, i32, i64, u8, u16, u32, u64], c64_flt: Complex<f32> => cadical [f16, f32, f64, Complex<f64>],
    c128_int: Complex<f64> => cadical [bool, i8, i16, i32, i64, u8, u16, u32, u64], c128_flt: Complex<f64> => cadical [f16, f32, f64, Complex<f32>]
);
/// copy, zero and one through the dtype
fn moves<T: Elem>(zero: T, one: T) {
    let v = T::arb(); let g = T::arb(); let d = T::dt();
    let s = Cell3([v; 3]); let mut o = Cell3([g; 3]);
    unsafe { d.ops().copy_element(s.p(), 2 * sz::<T>(), o.m(), 1); }
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g) && T::same(o.0[1], v));
    let mut o = Cell3([g; 3]);
    unsafe { d.ops().write_zero(o.m(), 1); }
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g) && T::same(o.0[1], zero));
    let mut o = Cell3([g; 3]);
    unsafe { d.ops().write_one(o.m(), 1); }
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g) && T::same(o.0[1], one));
    assert!(d.itemsize() == std::mem::size_of::<T>());
}
harness!(moves_int, cadical, { moves(0i8, 1); moves(0i16, 1); moves(0i32, 1); moves(0i64, 1); moves(0u8, 1); moves(0u16, 1); moves(0u32, 1); moves(0u64, 1); moves(false, true); });
harness!(moves_flt, cadical, { moves(0f32, 1.0); moves(0f64, 1.0); moves(f16::ZERO, f16::ONE); moves(Complex::new(0f32, 0.0), Complex::new(1.0, 0.0)); moves(Complex::new(0f64, 0.0), Complex::new(1.0, 0.0)); });
/// i64 and f64 element access used by stores and loads of single elements
fn access<T: Src + Dst>() {
    let v = T::arb(); let g = T::arb(); let d = T::dt();
    let s = Cell3([v; 3]);
    let i: i64 = kani::any(); let x: f64 = kani::any();
    let mut o = Cell3([g; 3]);
    assert!(unsafe { d.ops().write_f64(o.m(), 1, x) });
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
    if let Some(e) = T::from_num(Num::Re(x)) { assert!(T::same(o.0[1], e)); }
    let mut o = Cell3([g; 3]);
    assert!(unsafe { d.ops().write_f64_at_byte_offset(o.m(), sz::<T>(), x) });
    assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
    if let Some(e) = T::from_num(Num::Re(x)) { assert!(T::same(o.0[1], e)); }
    if let Num::Int(n) = v.num() {
        let mut o = Cell3([g; 3]);
        assert!(unsafe { d.ops().write_i64(o.m(), 1, i) });
        assert!(T::same(o.0[0], g) && T::same(o.0[2], g));
        if let Some(e) = T::from_num(Num::Int(i as i128)) { assert!(T::same(o.0[1], e)); }
        assert!(unsafe { d.ops().read_i64(s.p(), 2 * sz::<T>()) } == Some(n as i64));
        assert!(unsafe { d.ops().read_f64(s.p(), 2 * sz::<T>()) } == Some(n as f64));
    }
    if let Num::Re(n) = v.num() { assert!(f64::same(unsafe { d.ops().read_f64(s.p(), 2 * sz::<T>()) }.unwrap(), n)); }
    let (re, im) = match v.num() { Num::Int(n) => (n as f64, 0.0), Num::Re(x) => (x, 0.0), Num::Cx(x, y) => (x, y) };
    let c = unsafe { d.ops().read_complex(s.p(), 2 * sz::<T>()) }.unwrap();
    assert!(f64::same(c.0, re) && f64::same(c.1, im));
    assert!(unsafe { d.ops().is_truthy(s.p(), 2 * sz::<T>()) } == bool::from_num(v.num()).unwrap());
}
harness!(access_i8, cadical, { access::<i8>(); access::<u8>(); access::<bool>(); });
harness!(access_i16, cadical, { access::<i16>(); access::<u16>(); });
harness!(access_i32, cadical, { access::<i32>(); access::<u32>(); });
harness!(access_i64, cadical, { access::<i64>(); });
harness!(access_u64, cadical, { access::<u64>(); });
harness16!(access_f16, cadical, { access::<f16>(); });
harness!(access_f32, cadical, { access::<f32>(); });
harness!(access_f64, cadical, { access::<f64>(); });
harness!(access_c64, cadical, { access::<Complex<f32>>(); });
harness!(access_c128, cadical, { access::<Complex<f64>>(); });
