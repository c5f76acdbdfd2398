//! Integer and boolean element-wise arithmetic: exact modulo the width.
use crate::spec::*;

macro_rules! int_family { ($m:ident, $t:ty, $wide:ty, $signed:expr) => { pub mod $m {
    use crate::spec::*;
    type T = $t;
    const BITS: u64 = <$t>::BITS as u64;
    fn w(x: T) -> $wide { x as $wide }
    /// bit-level and linear operations
    harness!(linear, cadical, {
        let a: T = kani::any(); let b: T = kani::any();
        let add = (w(a) + w(b)) as T; let sub = (w(a) - w(b)) as T;
        assert!(<arithmetic::Add as BinaryKernel<T>>::apply(a, b) == add);
        assert!(<arithmetic::Sub as BinaryKernel<T>>::apply(a, b) == sub);
        assert!(dyn_binary(BinaryOp::Add, a, b) == add);
        assert!(dyn_binary(BinaryOp::Sub, a, b) == sub);
        let mx = if w(a) < w(b) { b } else { a }; let mn = if w(a) < w(b) { a } else { b };
        assert!(<arithmetic::Maximum as BinaryKernel<T>>::apply(a, b) == mx);
        assert!(<arithmetic::Minimum as BinaryKernel<T>>::apply(a, b) == mn);
        assert!(dyn_binary(BinaryOp::Maximum, a, b) == mx && dyn_binary(BinaryOp::FMax, a, b) == mx);
        assert!(dyn_binary(BinaryOp::Minimum, a, b) == mn && dyn_binary(BinaryOp::FMin, a, b) == mn);
        assert!(<comparison::Lt as CompareKernel<T>>::apply(a, b) == (w(a) < w(b)));
        assert!(<comparison::Le as CompareKernel<T>>::apply(a, b) == (w(a) <= w(b)));
        assert!(<comparison::Gt as CompareKernel<T>>::apply(a, b) == (w(a) > w(b)));
        assert!(<comparison::Ge as CompareKernel<T>>::apply(a, b) == (w(a) >= w(b)));
        assert!(<comparison::Eq as CompareKernel<T>>::apply(a, b) == (w(a) == w(b)));
        assert!(<comparison::Ne as CompareKernel<T>>::apply(a, b) == (w(a) != w(b)));
    });
    harness!(bits, cadical, {
        let a: T = kani::any(); let b: T = kani::any();
        let k: u64 = kani::any(); kani::assume(k < BITS);
        let bit = |x: T| (w(x) >> k) & 1;
        let and = <bitwise::And as BinaryKernel<T>>::apply(a, b);
        let or = <bitwise::Or as BinaryKernel<T>>::apply(a, b);
        let xor = <bitwise::Xor as BinaryKernel<T>>::apply(a, b);
        let not = <bitwise::Not as UnaryKernel<T>>::apply(a);
        assert!(bit(and) == bit(a) * bit(b));
        assert!(bit(or) == bit(a) + bit(b) - bit(a) * bit(b));
        assert!(bit(xor) == (bit(a) + bit(b)) % 2);
        assert!(bit(not) == 1 - bit(a));
        assert!(dyn_bit(BitwiseOp::And, a, b) == and && dyn_bit(BitwiseOp::Or, a, b) == or);
        assert!(dyn_bit(BitwiseOp::Xor, a, b) == xor && dyn_not(a) == not);
    });
    harness!(shifts, cadical, {
        let a: T = kani::any(); let b: T = kani::any();
        // shift counts outside the width (negative ones included) push every bit out
        let inside = w(b) >= 0 && w(b) < BITS as $wide;
        let k: u64 = kani::any(); kani::assume(k < BITS);
        let bit = |x: T, i: u64| (w(x) >> i) & 1;
        let l = <bitwise::LeftShift as BinaryKernel<T>>::apply(a, b);
        let r = <bitwise::RightShift as BinaryKernel<T>>::apply(a, b);
        let fill = if w(a) < 0 { 1 } else { 0 };
        if inside {
            let s = b as u64;
            assert!(bit(l, k) == if k >= s { bit(a, k - s) } else { 0 });
            assert!(bit(r, k) == if k + s < BITS { bit(a, k + s) } else { fill });
        } else {
            assert!(l == 0);
            assert!(bit(r, k) == fill);
        }
        assert!(dyn_bit(BitwiseOp::LeftShift, a, b) == l && dyn_bit(BitwiseOp::RightShift, a, b) == r);
    });
    harness!(unary, cadical, {
        let a: T = kani::any();
        let neg = (0 as $wide - w(a)) as T;
        assert!(<math::Neg as UnaryKernel<T>>::apply(a) == neg && dyn_unary(UnaryOp::Neg, a) == neg);
        let abs = (if w(a) < 0 { 0 as $wide - w(a) } else { w(a) }) as T;
        assert!(<math::Abs as UnaryKernel<T>>::apply(a) == abs && dyn_unary(UnaryOp::Abs, a) == abs);
        let sg = (if w(a) < 0 { -1 } else if w(a) > 0 { 1 } else { 0 }) as T;
        assert!(<math::Sign as UnaryKernel<T>>::apply(a) == sg && dyn_unary(UnaryOp::Sign, a) == sg);
        assert!(<math::Positive as UnaryKernel<T>>::apply(a) == a && dyn_unary(UnaryOp::Positive, a) == a);
        assert!(dyn_unary(UnaryOp::Floor, a) == a && dyn_unary(UnaryOp::Ceil, a) == a);
        assert!(dyn_unary(UnaryOp::Trunc, a) == a && dyn_unary(UnaryOp::Rint, a) == a);
        assert!(!<math::Isnan as PredicateKernel<T>>::apply(a) && !<math::Isinf as PredicateKernel<T>>::apply(a));
        assert!(<math::Isfinite as PredicateKernel<T>>::apply(a));
        assert!(<math::Signbit as PredicateKernel<T>>::apply(a) == (w(a) < 0));
        assert!(!<math::Isneginf as PredicateKernel<T>>::apply(a) && !<math::Isposinf as PredicateKernel<T>>::apply(a));
    });
    harness!(products, z3, {
        let a: T = kani::any(); let b: T = kani::any();
        let p = a.wrapping_mul(b);
        assert!(<arithmetic::Mul as BinaryKernel<T>>::apply(a, b) == p);
        assert!(dyn_binary(BinaryOp::Mul, a, b) == p);
        let q = a.wrapping_mul(a);
        assert!(<math::Square as UnaryKernel<T>>::apply(a) == q);
        assert!(dyn_unary(UnaryOp::Square, a) == q);
    });
    /// floor division rounds toward minus infinity; MIN // -1 wraps; division by zero gives zero
    harness!(divisions, z3, {
        let a: T = kani::any(); let b: T = kani::any();
        let (fd, dv, rm) = if b == 0 { (0, 0, 0) } else {
            let q = a.wrapping_div(b); let r = a.wrapping_rem(b);
            (if r != 0 && (r < 0) != (b < 0) { q.wrapping_sub(1) } else { q }, q, r)
        };
        assert!(<arithmetic::FloorDiv as BinaryKernel<T>>::apply(a, b) == fd);
        assert!(<arithmetic::Div as BinaryKernel<T>>::apply(a, b) == dv);
        assert!(<arithmetic::Mod as BinaryKernel<T>>::apply(a, b) == rm);
        assert!(dyn_binary(BinaryOp::FloorDiv, a, b) == fd);
        assert!(dyn_binary(BinaryOp::Mod, a, b) == rm);
    });
} } }
int_family!(i8_, i8, i32, true);
int_family!(i16_, i16, i32, true);
int_family!(i32_, i32, i64, true);
int_family!(i64_, i64, i128, true);
int_family!(u8_, u8, i32, false);
int_family!(u16_, u16, i32, false);
int_family!(u32_, u32, i64, false);
int_family!(u64_, u64, i128, false);

harness!(bool_ops, cadical, {
    let a: bool = kani::any(); let b: bool = kani::any();
    assert!(<bitwise::And as BinaryKernel<bool>>::apply(a, b) == (a & b) && dyn_bit(BitwiseOp::And, a, b) == (a & b));
    assert!(<bitwise::Or as BinaryKernel<bool>>::apply(a, b) == (a | b) && dyn_bit(BitwiseOp::Or, a, b) == (a | b));
    assert!(<bitwise::Xor as BinaryKernel<bool>>::apply(a, b) == (a ^ b) && dyn_bit(BitwiseOp::Xor, a, b) == (a ^ b));
    assert!(<bitwise::Not as UnaryKernel<bool>>::apply(a) == !a && dyn_not(a) == !a);
    assert!(dyn_binary(BinaryOp::Add, a, b) == (a | b) && dyn_binary(BinaryOp::Mul, a, b) == (a & b));
    assert!(dyn_binary(BinaryOp::Maximum, a, b) == (a | b) && dyn_binary(BinaryOp::Minimum, a, b) == (a & b));
});
