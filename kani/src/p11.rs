//! The order sorting uses: total, numeric, NaN last.
use crate::spec::*;
use std::cmp::Ordering::{self, *};
use crate::array::dtype::nan_last_cmp;

fn cmp2<T: Elem>(x: T, y: T) -> Ordering {
    let s = Cell3([y, x, y]); let t = Cell3([x, x, y]); let d = T::dt();
    unsafe { d.ops().compare_elements(s.p(), sz::<T>(), t.p(), 2 * sz::<T>()) }
}
/// a total order: reflexive, antisymmetric, transitive
fn laws<T: Elem>(f: impl Fn(T, T) -> Ordering) {
    let (a, b, c) = (T::arb(), T::arb(), T::arb());
    assert!(f(a, a) == Equal);
    assert!(f(a, b) == f(b, a).reverse());
    if f(a, b) != Greater && f(b, c) != Greater {
        assert!(f(a, c) != Greater);
        if f(a, b) == Less || f(b, c) == Less { assert!(f(a, c) == Less); }
    }
}
macro_rules! ints { ($($n:ident: $t:ty),*) => { $(pub mod $n { use super::*;
    harness!(order, cadical, {
        let a: $t = kani::any(); let b: $t = kani::any();
        let e = if (a as i128) < (b as i128) { Less } else if a as i128 == b as i128 { Equal } else { Greater };
        assert!(cmp2(a, b) == e);
        assert!(nan_last_cmp(&a, &b) == e);
    });
})* } }
ints!(i8_: i8, i16_: i16, i32_: i32, i64_: i64, u8_: u8, u16_: u16, u32_: u32, u64_: u64, bool_: bool);
macro_rules! floats { ($($n:ident: $t:ty),*) => { $(pub mod $n { use super::*;
    harness!(order, cadical, {
        let a: $t = kani::any(); let b: $t = kani::any();
        let e = match (a != a, b != b) { (true, true) => Equal, (true, false) => Greater, (false, true) => Less,
            _ => if a < b { Less } else if a > b { Greater } else { Equal } };
        assert!(cmp2(a, b) == e);
        assert!(nan_last_cmp(&a, &b) == e);
    });
    harness!(total, cadical, { laws::<$t>(|a, b| nan_last_cmp(&a, &b)); });
})* } }
floats!(f32_: f32, f64_: f64);
pub mod f16_ { use super::*;
    harness16!(order, cadical, {
        let a = f16::arb(); let b = f16::arb(); let (x, y) = (a.to_f32(), b.to_f32());
        let e = match (a.is_nan(), b.is_nan()) { (true, true) => Equal, (true, false) => Greater, (false, true) => Less,
            _ => if x < y { Less } else if x > y { Greater } else { Equal } };
        assert!(cmp2(a, b) == e);
        assert!(nan_last_cmp(&a, &b) == e);
    });
    harness16!(total, cadical, { laws::<f16>(|a, b| cmp2(a, b)); });
}
macro_rules! cplx { ($($n:ident: $t:ty),*) => { $(pub mod $n { use super::*;
    harness!(order, cadical, {
        let a = <$t>::arb(); let b = <$t>::arb();
        if a.re == a.re && a.im == a.im && b.re == b.re && b.im == b.im {
            let e = if a.re < b.re { Less } else if a.re > b.re { Greater } else if a.im < b.im { Less } else if a.im > b.im { Greater } else { Equal };
            assert!(cmp2(a, b) == e);
        }
    });
    harness!(total, cadical, { laws::<$t>(|a, b| cmp2(a, b)); });
})* } }
cplx!(c64_: Complex<f32>, c128_: Complex<f64>);
