//! Floating-point and complex element-wise operations.
use crate::spec::*;

macro_rules! float_family { ($m:ident, $t:ty, $u:ty, $s:ident) => { pub mod $m {
    use crate::spec::*;
    type T = $t;
    fn eq(a: T, b: T) -> bool { <T as Elem>::same(a, b) }
    harness!(arith, $s, {
        let a = T::arb(); let b = T::arb();
        assert!(eq(<arithmetic::Add as BinaryKernel<T>>::apply(a, b), a + b));
        assert!(eq(<arithmetic::Sub as BinaryKernel<T>>::apply(a, b), a - b));
        assert!(eq(<arithmetic::Mul as BinaryKernel<T>>::apply(a, b), a * b));
        assert!(eq(<arithmetic::Div as BinaryKernel<T>>::apply(a, b), a / b));
    });
    harness!(arith1, $s, {
        let a = T::arb();
        assert!(eq(<math::Square as UnaryKernel<T>>::apply(a), a * a));
        assert!(eq(<math::Reciprocal as UnaryKernel<T>>::apply(a), 1.0 / a));
        assert!(eq(<math::Neg as UnaryKernel<T>>::apply(a), -a));
        assert!(eq(<math::Positive as UnaryKernel<T>>::apply(a), a));
        assert!(eq(<math::Sign as UnaryKernel<T>>::apply(a), if a != a { a } else if a > 0.0 { 1.0 } else if a < 0.0 { -1.0 } else { 0.0 }));
    });
    harness!(order, cvc5, {
        let a = T::arb(); let b = T::arb();
        let nan = a != a || b != b;
        let mx = <arithmetic::Maximum as BinaryKernel<T>>::apply(a, b);
        let mn = <arithmetic::Minimum as BinaryKernel<T>>::apply(a, b);
        if nan { assert!(mx != mx && mn != mn); }
        else { assert!(mx >= a && mx >= b && (mx == a || mx == b)); assert!(mn <= a && mn <= b && (mn == a || mn == b)); }
        let fx = <arithmetic::FMax as BinaryKernel<T>>::apply(a, b);
        let fm = <arithmetic::FMin as BinaryKernel<T>>::apply(a, b);
        if !nan { assert!(fx == mx && fm == mn); }
        else if a == a { assert!(fx == a && fm == a); }
        else if b == b { assert!(fx == b && fm == b); }
        else { assert!(fx != fx && fm != fm); }
        assert!(<comparison::Lt as CompareKernel<T>>::apply(a, b) == (a < b));
        assert!(<comparison::Le as CompareKernel<T>>::apply(a, b) == (a < b || a == b));
        assert!(<comparison::Gt as CompareKernel<T>>::apply(a, b) == (b < a));
        assert!(<comparison::Ge as CompareKernel<T>>::apply(a, b) == (b < a || a == b));
        assert!(<comparison::Eq as CompareKernel<T>>::apply(a, b) == (a == b));
        assert!(<comparison::Ne as CompareKernel<T>>::apply(a, b) == !(a == b));
    });
    harness!(bits, cadical, {
        let a = T::arb(); let b = T::arb();
        let sign: $u = !(<$u>::MAX >> 1);
        let c = <arithmetic::Copysign as BinaryKernel<T>>::apply(a, b);
        assert!(c.to_bits() == (a.to_bits() & !sign) | (b.to_bits() & sign) || (a != a && c != c));
        let ab = <math::Abs as UnaryKernel<T>>::apply(a);
        assert!(ab.to_bits() == a.to_bits() & !sign || (a != a && ab != ab));
        let inf = <T>::INFINITY.to_bits();
        let m = a.to_bits() & !sign; // magnitude
        assert!(<math::Isnan as PredicateKernel<T>>::apply(a) == (m > inf));
        assert!(<math::Isinf as PredicateKernel<T>>::apply(a) == (m == inf));
        assert!(<math::Isfinite as PredicateKernel<T>>::apply(a) == (m < inf));
        assert!(<math::Signbit as PredicateKernel<T>>::apply(a) == (a.to_bits() & sign != 0));
        assert!(<math::Isposinf as PredicateKernel<T>>::apply(a) == (a.to_bits() == inf));
        assert!(<math::Isneginf as PredicateKernel<T>>::apply(a) == (a.to_bits() == (inf | sign)));
    });
    /// the neighbour of a in the direction of b: nothing lies strictly between
    harness!(nextafter, cadical, {
        let a = T::arb(); let b = T::arb(); let x = T::arb();
        let r = <arithmetic::Nextafter as BinaryKernel<T>>::apply(a, b);
        if a != a || b != b { assert!(r != r); }
        else if a == b { assert!(r == b); }
        else if a < b { assert!(a < r && r <= b); assert!(!(a < x && x < r)); }
        else { assert!(b <= r && r < a); assert!(!(r < x && x < a)); }
    });
    harness!(rounding, $s, {
        let a = T::arb();
        let f = <math::Floor as UnaryKernel<T>>::apply(a); let c = <math::Ceil as UnaryKernel<T>>::apply(a);
        let t = <math::Trunc as UnaryKernel<T>>::apply(a);
        assert!(eq(f, a.floor())); assert!(eq(c, a.ceil())); assert!(eq(t, a.trunc()));
        assert!(eq(<math::Rint as UnaryKernel<T>>::apply(a), a.round()));
    });
    harness!(floor_divide, cvc5, {
        let a = T::arb(); let b = T::arb();
        assert!(eq(<arithmetic::FloorDiv as BinaryKernel<T>>::apply(a, b), (a / b).floor()));
    });
    /// the functions of the dtype itself, used where no typed kernel applies
    harness!(dtype_fns, cvc5, {
        let a = T::arb(); let b = T::arb();
        assert!(eq(dyn_binary(BinaryOp::Add, a, b), a + b));
        assert!(eq(dyn_binary(BinaryOp::Sub, a, b), a - b));
        assert!(eq(dyn_binary(BinaryOp::Mul, a, b), a * b));
        assert!(eq(dyn_binary(BinaryOp::Div, a, b), a / b));
        assert!(eq(dyn_unary(UnaryOp::Neg, a), -a));
        assert!(eq(dyn_unary(UnaryOp::Square, a), a * a));
        assert!(eq(dyn_unary(UnaryOp::Positive, a), a));
    });
} } }
float_family!(f64_, f64, u64, cvc5);
float_family!(f32_, f32, u32, cvc5);

/// Each elementary function kernel applies its function to exactly its argument: the function itself is
/// replaced by a marker (argument with its low mantissa bit flipped), the others are left alone.
macro_rules! elementary { ($t:ty, $mark:ident, $($n:ident: $k:ident => $f:path),*) => {
    fn $mark(x: $t) -> $t { <$t>::from_bits(x.to_bits() ^ 1) }
    $(#[kani::proof] #[kani::stub($f, $mark)]
    pub fn $n() { let v: $t = kani::any(); assert!(<math::$k as UnaryKernel<$t>>::apply(v).to_bits() == v.to_bits() ^ 1); })*
} }
macro_rules! elementary2 { ($t:ty, $mark:ident, $($n:ident: $k:ident => $f:path),*) => {
    fn $mark(x: $t, y: $t) -> $t { <$t>::from_bits(x.to_bits() ^ y.to_bits().rotate_left(7)) }
    $(#[kani::proof] #[kani::stub($f, $mark)]
    pub fn $n() { let v: $t = kani::any(); let w: $t = kani::any();
        assert!(<arithmetic::$k as BinaryKernel<$t>>::apply(v, w).to_bits() == v.to_bits() ^ w.to_bits().rotate_left(7)); })*
} }
pub mod fns64 { use crate::spec::*;
    elementary!(f64, mark, sqrt: Sqrt => f64::sqrt, exp: Exp => f64::exp, ln: Log => f64::ln, log10: Log10 => f64::log10, log2: Log2 => f64::log2,
        sin: Sin => f64::sin, cos: Cos => f64::cos, tan: Tan => f64::tan, sinh: Sinh => f64::sinh, cosh: Cosh => f64::cosh, tanh: Tanh => f64::tanh,
        asin: Arcsin => f64::asin, acos: Arccos => f64::acos, atan: Arctan => f64::atan, exp_m1: Expm1 => f64::exp_m1, ln_1p: Log1p => f64::ln_1p,
        cbrt: Cbrt => f64::cbrt, asinh: Arcsinh => f64::asinh, acosh: Arccosh => f64::acosh, atanh: Arctanh => f64::atanh, exp2: Exp2 => f64::exp2);
    elementary2!(f64, mark2, powf: Pow => f64::powf, atan2: Arctan2 => f64::atan2, hypot: Hypot => f64::hypot);
}
pub mod fns32 { use crate::spec::*;
    elementary!(f32, mark, sqrt: Sqrt => f32::sqrt, exp: Exp => f32::exp, ln: Log => f32::ln, log10: Log10 => f32::log10, log2: Log2 => f32::log2,
        sin: Sin => f32::sin, cos: Cos => f32::cos, tan: Tan => f32::tan, sinh: Sinh => f32::sinh, cosh: Cosh => f32::cosh, tanh: Tanh => f32::tanh,
        asin: Arcsin => f32::asin, acos: Arccos => f32::acos, atan: Arctan => f32::atan, exp_m1: Expm1 => f32::exp_m1, ln_1p: Log1p => f32::ln_1p,
        cbrt: Cbrt => f32::cbrt, asinh: Arcsinh => f32::asinh, acosh: Arccosh => f32::acosh, atanh: Arctanh => f32::atanh, exp2: Exp2 => f32::exp2);
    elementary2!(f32, mark2, powf: Pow => f32::powf, atan2: Arctan2 => f32::atan2, hypot: Hypot => f32::hypot);
}
macro_rules! elementary16 { ($mark:ident, $($n:ident: $k:ident => $f:path),*) => {
    fn $mark(x: f32) -> f32 { f32::from_bits(x.to_bits() ^ (1 << 20)) }
    $(#[kani::proof] #[kani::stub($f, $mark)] #[kani::stub(std::arch::x86_64::__cpuid_count, no_cpuid)]
    pub fn $n() { let v = f16::arb(); assert!(f16::same(<math::$k as UnaryKernel<f16>>::apply(v), f16::from_f32($mark(v.to_f32())))); })*
} }
pub mod fns16 { use crate::spec::*;
    elementary16!(mark, sqrt: Sqrt => f32::sqrt, exp: Exp => f32::exp, ln: Log => f32::ln, log10: Log10 => f32::log10, log2: Log2 => f32::log2,
        sin: Sin => f32::sin, cos: Cos => f32::cos, tan: Tan => f32::tan, sinh: Sinh => f32::sinh, cosh: Cosh => f32::cosh, tanh: Tanh => f32::tanh,
        asin: Arcsin => f32::asin, acos: Arccos => f32::acos, atan: Arctan => f32::atan, exp_m1: Expm1 => f32::exp_m1, ln_1p: Log1p => f32::ln_1p,
        cbrt: Cbrt => f32::cbrt, asinh: Arcsinh => f32::asinh, acosh: Arccosh => f32::acosh, atanh: Arctanh => f32::atanh, exp2: Exp2 => f32::exp2,
        floor: Floor => f32::floor, ceil: Ceil => f32::ceil, trunc: Trunc => f32::trunc, round: Rint => f32::round);
}
pub mod f16_ {
    use crate::spec::*;
    type T = f16;
    fn eq(a: T, b: T) -> bool { T::same(a, b) }
    harness16!(mul, cvc5, {
        let a = T::arb(); let b = T::arb();
        assert!(eq(<arithmetic::Mul as BinaryKernel<T>>::apply(a, b), f16::from_f32(a.to_f32() * b.to_f32())));
        assert!(eq(<math::Square as UnaryKernel<T>>::apply(a), f16::from_f32(a.to_f32() * a.to_f32())));
    });
    harness16!(div, cvc5, {
        let a = T::arb(); let b = T::arb();
        assert!(eq(<arithmetic::Div as BinaryKernel<T>>::apply(a, b), f16::from_f32(a.to_f32() / b.to_f32())));
        assert!(eq(<math::Reciprocal as UnaryKernel<T>>::apply(a), f16::from_f32(1.0 / a.to_f32())));
    });
    harness16!(arith, cadical, {
        let a = T::arb(); let b = T::arb();
        let (x, y) = (a.to_f32(), b.to_f32());
        assert!(eq(<arithmetic::Add as BinaryKernel<T>>::apply(a, b), f16::from_f32(x + y)));
        assert!(eq(<arithmetic::Sub as BinaryKernel<T>>::apply(a, b), f16::from_f32(x - y)));
    });
    harness16!(order, cadical, {
        let a = T::arb(); let b = T::arb();
        let nan = a.is_nan() || b.is_nan();
        let mx = <arithmetic::Maximum as BinaryKernel<T>>::apply(a, b);
        let mn = <arithmetic::Minimum as BinaryKernel<T>>::apply(a, b);
        if nan { assert!(mx.is_nan() && mn.is_nan()); }
        else { assert!(mx >= a && mx >= b && (mx == a || mx == b)); assert!(mn <= a && mn <= b && (mn == a || mn == b)); }
        let fx = <arithmetic::FMax as BinaryKernel<T>>::apply(a, b);
        let fm = <arithmetic::FMin as BinaryKernel<T>>::apply(a, b);
        if !nan { assert!(fx == mx && fm == mn); }
        else if !a.is_nan() { assert!(fx == a && fm == a); }
        else if !b.is_nan() { assert!(fx == b && fm == b); }
        else { assert!(fx.is_nan() && fm.is_nan()); }
        let (x, y) = (a.to_f32(), b.to_f32());
        assert!(<comparison::Lt as CompareKernel<T>>::apply(a, b) == (x < y));
        assert!(<comparison::Le as CompareKernel<T>>::apply(a, b) == (x <= y));
        assert!(<comparison::Gt as CompareKernel<T>>::apply(a, b) == (x > y));
        assert!(<comparison::Ge as CompareKernel<T>>::apply(a, b) == (x >= y));
        assert!(<comparison::Eq as CompareKernel<T>>::apply(a, b) == (x == y));
        assert!(<comparison::Ne as CompareKernel<T>>::apply(a, b) == (x != y));
    });
    harness16!(bits, cadical, {
        let a = T::arb(); let b = T::arb();
        let sign = 0x8000u16; let inf = 0x7c00u16; let m = a.to_bits() & !sign;
        let c = <arithmetic::Copysign as BinaryKernel<T>>::apply(a, b);
        assert!(c.to_bits() == m | (b.to_bits() & sign) || (a.is_nan() && c.is_nan()));
        let ab = <math::Abs as UnaryKernel<T>>::apply(a);
        assert!(ab.to_bits() == m || (a.is_nan() && ab.is_nan()));
        let ng = <math::Neg as UnaryKernel<T>>::apply(a);
        assert!(ng.to_bits() == a.to_bits() ^ sign || (a.is_nan() && ng.is_nan()));
        assert!(<math::Isnan as PredicateKernel<T>>::apply(a) == (m > inf));
        assert!(<math::Isinf as PredicateKernel<T>>::apply(a) == (m == inf));
        assert!(<math::Isfinite as PredicateKernel<T>>::apply(a) == (m < inf));
        assert!(<math::Signbit as PredicateKernel<T>>::apply(a) == (a.to_bits() & sign != 0));
        assert!(<math::Isposinf as PredicateKernel<T>>::apply(a) == (a.to_bits() == inf));
        assert!(<math::Isneginf as PredicateKernel<T>>::apply(a) == (a.to_bits() == (inf | sign)));
        let s = <math::Sign as UnaryKernel<T>>::apply(a);
        assert!(if m > inf { s.is_nan() } else if m == 0 { s == f16::ZERO } else if a.to_bits() & sign != 0 { s == f16::NEG_ONE } else { s == f16::ONE });
    });
    harness16!(nextafter, cadical, {
        let a = T::arb(); let b = T::arb(); let x = T::arb();
        let r = <arithmetic::Nextafter as BinaryKernel<T>>::apply(a, b);
        if a.is_nan() || b.is_nan() { assert!(r.is_nan()); }
        else if a == b { assert!(r == b); }
        else if a < b { assert!(a < r && r <= b); assert!(!(a < x && x < r)); }
        else { assert!(b <= r && r < a); assert!(!(r < x && x < a)); }
    });
}
macro_rules! complex_family { ($m:ident, $f:ty) => { pub mod $m {
    use crate::spec::*;
    type T = Complex<$f>;
    fn eq(a: T, b: T) -> bool { <T as Elem>::same(a, b) }
    fn c(re: $f, im: $f) -> T { Complex::new(re, im) }
    harness!(arith, cvc5, {
        let a = T::arb(); let b = T::arb();
        assert!(eq(<arithmetic::Add as BinaryKernel<T>>::apply(a, b), c(a.re + b.re, a.im + b.im)));
        assert!(eq(<arithmetic::Sub as BinaryKernel<T>>::apply(a, b), c(a.re - b.re, a.im - b.im)));
        assert!(eq(<math::Neg as UnaryKernel<T>>::apply(a), c(-a.re, -a.im)));
        assert!(eq(<math::Positive as UnaryKernel<T>>::apply(a), a));
        let p = c(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re);
        assert!(eq(<arithmetic::Mul as BinaryKernel<T>>::apply(a, b), p));
    });
    harness!(order, cvc5, {
        let a = T::arb(); let b = T::arb();
        assert!(<comparison::Eq as CompareKernel<T>>::apply(a, b) == (a.re == b.re && a.im == b.im));
        assert!(<comparison::Ne as CompareKernel<T>>::apply(a, b) == !(a.re == b.re && a.im == b.im));
        let lt = |a: T, b: T| a.im == a.im && b.im == b.im && (a.re < b.re || (a.re == b.re && a.im < b.im));
        let same = a.re == b.re && a.im == b.im;
        assert!(<comparison::Lt as CompareKernel<T>>::apply(a, b) == lt(a, b));
        assert!(<comparison::Gt as CompareKernel<T>>::apply(a, b) == lt(b, a));
        assert!(<comparison::Le as CompareKernel<T>>::apply(a, b) == (lt(a, b) || same));
        assert!(<comparison::Ge as CompareKernel<T>>::apply(a, b) == (lt(b, a) || same));
        let an = a.re != a.re || a.im != a.im; let bn = b.re != b.re || b.im != b.im;
        let ge = a.re > b.re || (a.re == b.re && a.im >= b.im);
        let le = a.re < b.re || (a.re == b.re && a.im <= b.im);
        let mx = <arithmetic::Maximum as BinaryKernel<T>>::apply(a, b);
        let mn = <arithmetic::Minimum as BinaryKernel<T>>::apply(a, b);
        if an || bn { assert!(mx.re != mx.re && mn.re != mn.re); }
        else { assert!(eq(mx, if ge { a } else { b })); assert!(eq(mn, if le { a } else { b })); }
        let fx = <arithmetic::FMax as BinaryKernel<T>>::apply(a, b);
        let fm = <arithmetic::FMin as BinaryKernel<T>>::apply(a, b);
        if !an && !bn { assert!(eq(fx, mx) && eq(fm, mn)); }
        else if !an { assert!(eq(fx, a) && eq(fm, a)); }
        else if !bn { assert!(eq(fx, b) && eq(fm, b)); }
        else { assert!(fx.re != fx.re && fm.re != fm.re); }
        assert!(<math::Isnan as PredicateKernel<T>>::apply(a) == an);
        let fin = |x: $f| x - x == 0.0;
        assert!(<math::Isfinite as PredicateKernel<T>>::apply(a) == (fin(a.re) && fin(a.im)));
        assert!(<math::Isinf as PredicateKernel<T>>::apply(a) == ((!fin(a.re) && a.re == a.re) || (!fin(a.im) && a.im == a.im)));
    });
    harness!(dtype_fns, cvc5, {
        let a = T::arb(); let b = T::arb();
        assert!(eq(dyn_binary(BinaryOp::Add, a, b), c(a.re + b.re, a.im + b.im)));
        assert!(eq(dyn_binary(BinaryOp::Sub, a, b), c(a.re - b.re, a.im - b.im)));
        assert!(eq(dyn_binary(BinaryOp::Mul, a, b), c(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)));
        assert!(eq(dyn_unary(UnaryOp::Neg, a), c(-a.re, -a.im)));
    });
} } }
complex_family!(c128_, f64);
complex_family!(c64_, f32);
