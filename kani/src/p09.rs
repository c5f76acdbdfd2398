//! Reduction kernels: identity, exact combination, NaN propagation.
use crate::spec::*;
use arithmetic::{Sum, Prod, Max, Min, SumOfSquares, NanSum, NanProd, NanMax, NanMin};

fn init<K: ReduceKernel<T>, T>() -> T { K::init() }
fn comb<K: ReduceKernel<T>, T>(a: T, v: T) -> T { K::combine(a, v) }

macro_rules! ints { ($($m:ident: $t:ty, $wide:ty, $mulsolver:ident);*) => { $(pub mod $m {
    use super::*; type T = $t;
    fn w(x: T) -> $wide { x as $wide }
    harness!(additive, cadical, {
        let a: T = kani::any(); let v: T = kani::any();
        assert!(init::<Sum, T>() == 0 && dyn_init::<T>(ReduceOp::Sum) == 0);
        let s = (w(a) + w(v)) as T;
        assert!(comb::<Sum, T>(a, v) == s && dyn_acc(ReduceOp::Sum, a, v) == s);
        assert!(comb::<Sum, T>(init::<Sum, T>(), v) == v);
        // extremes: the identity never wins, the larger (smaller) value does
        let mx = if w(a) < w(v) { v } else { a }; let mn = if w(a) < w(v) { a } else { v };
        assert!(comb::<Max, T>(a, v) == mx && dyn_acc(ReduceOp::Max, a, v) == mx);
        assert!(comb::<Min, T>(a, v) == mn && dyn_acc(ReduceOp::Min, a, v) == mn);
        assert!(comb::<Max, T>(init::<Max, T>(), v) == v && comb::<Min, T>(init::<Min, T>(), v) == v);
        assert!(dyn_init::<T>(ReduceOp::Max) == init::<Max, T>() && dyn_init::<T>(ReduceOp::Min) == init::<Min, T>());
    });
    harness!(product, $mulsolver, {
        let a: T = kani::any(); let v: T = kani::any();
        assert!(init::<Prod, T>() == 1 && dyn_init::<T>(ReduceOp::Prod) == 1);
        let p = a.wrapping_mul(v);
        assert!(comb::<Prod, T>(a, v) == p && dyn_acc(ReduceOp::Prod, a, v) == p);
        assert!(init::<SumOfSquares, T>() == 0);
        assert!(comb::<SumOfSquares, T>(a, v) == a.wrapping_add(v.wrapping_mul(v)));
    });
})* } }
ints!(i8_: i8, i32, cadical; i16_: i16, i32, z3; i32_: i32, i64, z3; i64_: i64, i128, z3; u8_: u8, i32, cadical; u16_: u16, i32, z3; u32_: u32, i64, z3; u64_: u64, i128, z3);

macro_rules! floats { ($($m:ident: $t:ty);*) => { $(pub mod $m {
    use super::*; type T = $t;
    fn same(a: T, b: T) -> bool { <T as Elem>::same(a, b) }
    harness!(additive, cvc5, {
        let a: T = kani::any(); let v: T = kani::any();
        assert!(same(init::<Sum, T>(), 0.0) && same(dyn_init::<T>(ReduceOp::Sum), 0.0));
        assert!(same(comb::<Sum, T>(a, v), a + v) && same(dyn_acc(ReduceOp::Sum, a, v), a + v));
        assert!(same(init::<NanSum, T>(), 0.0));
        assert!(same(comb::<NanSum, T>(a, v), if v != v { a } else { a + v }));
    });
    harness!(product, cvc5, {
        let a: T = kani::any(); let v: T = kani::any();
        assert!(same(init::<Prod, T>(), 1.0) && same(dyn_init::<T>(ReduceOp::Prod), 1.0));
        assert!(same(comb::<Prod, T>(a, v), a * v) && same(dyn_acc(ReduceOp::Prod, a, v), a * v));
        assert!(same(init::<NanProd, T>(), 1.0));
        assert!(same(comb::<NanProd, T>(a, v), if v != v { a } else { a * v }));
        assert!(same(init::<SumOfSquares, T>(), 0.0));
        assert!(same(comb::<SumOfSquares, T>(a, v), a + v * v));
    });
    harness!(extremes, cadical, {
        let a: T = kani::any(); let v: T = kani::any();
        let chk = |r: T, up: bool| {
            if a != a || v != v { assert!(r != r); }                   // NaN propagates
            else { assert!(r == a || r == v); assert!(if up { r >= a && r >= v } else { r <= a && r <= v }); }
        };
        chk(comb::<Max, T>(a, v), true); chk(dyn_acc(ReduceOp::Max, a, v), true);
        chk(comb::<Min, T>(a, v), false); chk(dyn_acc(ReduceOp::Min, a, v), false);
        for r in [comb::<Max, T>(init::<Max, T>(), v), dyn_acc(ReduceOp::Max, dyn_init(ReduceOp::Max), v),
                  comb::<Min, T>(init::<Min, T>(), v), dyn_acc(ReduceOp::Min, dyn_init(ReduceOp::Min), v)] { assert!(same(r, v)); }
        // NaN-skipping forms: a NaN leaves the accumulator alone
        let skip = |r: T, up: bool| {
            if v != v { assert!(same(r, a)); }
            else if a == a { assert!(r == a || r == v); assert!(if up { r >= a && r >= v } else { r <= a && r <= v }); }
        };
        skip(comb::<NanMax, T>(a, v), true); skip(comb::<NanMin, T>(a, v), false);
        if v == v { assert!(comb::<NanMax, T>(init::<NanMax, T>(), v) == v && comb::<NanMin, T>(init::<NanMin, T>(), v) == v); }
    });
})* } }
floats!(f32_: f32; f64_: f64);

pub mod f16_ {
    use super::*; type T = f16;
    fn same(a: T, b: T) -> bool { <T as Elem>::same(a, b) }
    harness16!(arith, cvc5, {
        let a = T::arb(); let v = T::arb();
        assert!(same(init::<Sum, T>(), f16::ZERO) && same(dyn_init::<T>(ReduceOp::Sum), f16::ZERO));
        assert!(same(init::<Prod, T>(), f16::ONE) && same(dyn_init::<T>(ReduceOp::Prod), f16::ONE));
        let s = f16::from_f32(a.to_f32() + v.to_f32()); let p = f16::from_f32(a.to_f32() * v.to_f32());
        assert!(same(comb::<Sum, T>(a, v), s));
        assert!(same(comb::<Prod, T>(a, v), p));
    });
    harness16!(extremes, cadical, {
        let a = T::arb(); let v = T::arb();
        let chk = |r: T, up: bool| {
            if a.is_nan() || v.is_nan() { assert!(r.is_nan()); }
            else { assert!(same(r, a) || same(r, v)); let (x, p, q) = (r.to_f32(), a.to_f32(), v.to_f32()); assert!(if up { x >= p && x >= q } else { x <= p && x <= q }); }
        };
        chk(comb::<Max, T>(a, v), true); chk(dyn_acc(ReduceOp::Max, a, v), true);
        chk(comb::<Min, T>(a, v), false); chk(dyn_acc(ReduceOp::Min, a, v), false);
        assert!(same(comb::<Max, T>(init::<Max, T>(), v), v) && same(comb::<Min, T>(init::<Min, T>(), v), v));
        assert!(same(dyn_acc(ReduceOp::Max, dyn_init(ReduceOp::Max), v), v) && same(dyn_acc(ReduceOp::Min, dyn_init(ReduceOp::Min), v), v));
    });
}

macro_rules! cplx { ($($m:ident: $f:ty);*) => { $(pub mod $m {
    use super::*; type T = Complex<$f>;
    fn same(a: T, b: T) -> bool { <T as Elem>::same(a, b) }
    fn nan(a: T) -> bool { a.re != a.re || a.im != a.im }
    fn le(a: T, b: T) -> bool { a.re < b.re || (a.re == b.re && a.im <= b.im) }
    harness!(arith, cvc5, {
        let a = T::arb(); let v = T::arb();
        assert!(same(init::<Sum, T>(), T::new(0.0, 0.0)) && same(init::<Prod, T>(), T::new(1.0, 0.0)));
        assert!(same(dyn_init::<T>(ReduceOp::Sum), T::new(0.0, 0.0)) && same(dyn_init::<T>(ReduceOp::Prod), T::new(1.0, 0.0)));
        let s = T::new(a.re + v.re, a.im + v.im); let p = T::new(a.re * v.re - a.im * v.im, a.re * v.im + a.im * v.re);
        assert!(same(comb::<Sum, T>(a, v), s));
        assert!(same(comb::<Prod, T>(a, v), p));
    });
    harness!(extremes, cadical, {
        let a = T::arb(); let v = T::arb();
        let mx = comb::<Max, T>(a, v); let mn = comb::<Min, T>(a, v);
        if nan(a) || nan(v) { assert!(nan(mx) && nan(mn)); }
        else {
            assert!((same(mx, a) || same(mx, v)) && le(a, mx) && le(v, mx));
            assert!((same(mn, a) || same(mn, v)) && le(mn, a) && le(mn, v));
        }
        if !nan(v) { assert!(comb::<Max, T>(init::<Max, T>(), v) == v && comb::<Min, T>(init::<Min, T>(), v) == v); }
    });
})* } }
cplx!(c64_: f32; c128_: f64);
pub mod bool_ {
    use super::*;
    harness!(all, cadical, {
        let a: bool = kani::any(); let v: bool = kani::any();
        assert!(dyn_acc(ReduceOp::Max, a, v) == (a || v) && dyn_acc(ReduceOp::Min, a, v) == (a && v));
        assert!(dyn_acc(ReduceOp::Max, dyn_init(ReduceOp::Max), v) == v && dyn_acc(ReduceOp::Min, dyn_init(ReduceOp::Min), v) == v);
    });
}
