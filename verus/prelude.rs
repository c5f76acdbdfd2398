// Specification vocabulary shared by every unit (index arithmetic over shapes and strides).
// Everything here is proved; the trusted stand-ins for external types are in model.rs.
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
verus! {
global size_of usize == 8;

pub open spec fn imax() -> int { isize::MAX as int }

// product of the first n dimensions / of all
pub open spec fn prod(s: Seq<usize>) -> int decreases s.len() {
    if s.len() == 0 { 1 } else { prod(s.drop_last()) * (s.last() as int) }
}
pub open spec fn max1(x: usize) -> int { if x == 0 { 1 } else { x as int } }
pub open spec fn pmax(s: Seq<usize>) -> int decreases s.len() {
    if s.len() == 0 { 1 } else { pmax(s.drop_last()) * max1(s.last()) }
}
// product of s[i..]
pub open spec fn suf(s: Seq<usize>, i: int) -> int decreases s.len() - i {
    if i >= s.len() { 1 } else { (s[i] as int) * suf(s, i + 1) }
}
// product of s[..i]
pub open spec fn pre(s: Seq<usize>, i: int) -> int decreases i {
    if i <= 0 { 1 } else { pre(s, i - 1) * (s[i - 1] as int) }
}
pub open spec fn inb(idx: Seq<usize>, shape: Seq<usize>) -> bool {
    idx.len() == shape.len() && forall|i: int| 0 <= i < shape.len() ==> (#[trigger] idx[i]) < shape[i]
}
// sum of the first n products idx[i] * st[i]
pub open spec fn dot(idx: Seq<usize>, st: Seq<isize>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { dot(idx, st, n - 1) + (idx[n - 1] as int) * (st[n - 1] as int) }
}
pub open spec fn edot(idx: Seq<usize>, st: Seq<isize>) -> int { dot(idx, st, idx.len() as int) }
// row-major position
pub open spec fn rmi(idx: Seq<usize>, shape: Seq<usize>) -> int decreases idx.len() {
    if idx.len() == 0 || shape.len() == 0 { 0 } else { rmi(idx.drop_last(), shape.drop_last()) * (shape.last() as int) + (idx.last() as int) }
}
pub open spec fn unrmi(k: int, shape: Seq<usize>) -> Seq<usize> decreases shape.len() {
    if shape.len() == 0 { Seq::empty() } else { unrmi(k / (shape.last() as int), shape.drop_last()).push((k % (shape.last() as int)) as usize) }
}
pub open spec fn next_idx(idx: Seq<usize>, shape: Seq<usize>) -> Seq<usize> decreases idx.len() {
    if idx.len() == 0 { Seq::empty() }
    else if idx.last() + 1 < shape.last() { idx.drop_last().push((idx.last() + 1) as usize) }
    else { next_idx(idx.drop_last(), shape.drop_last()).push(0) }
}
pub open spec fn nonempty(shape: Seq<usize>) -> bool { forall|i: int| 0 <= i < shape.len() ==> (#[trigger] shape[i]) > 0 }

// extent of the addresses spanned by a box (axes of length 0 count as 1)
pub open spec fn span(d: usize, st: isize) -> int { (max1(d) - 1) * (st as int) }
pub open spec fn ext_lo(shape: Seq<usize>, st: Seq<isize>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { ext_lo(shape, st, n - 1) + (if st[n - 1] < 0 { span(shape[n - 1], st[n - 1]) } else { 0 }) }
}
pub open spec fn ext_hi(shape: Seq<usize>, st: Seq<isize>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { ext_hi(shape, st, n - 1) + (if st[n - 1] > 0 { span(shape[n - 1], st[n - 1]) } else { 0 }) }
}
pub open spec fn is_cstr(shape: Seq<usize>, st: Seq<isize>, isz: int) -> bool {
    forall|i: int| 0 <= i < shape.len() ==> (#[trigger] st[i]) as int == isz * suf(shape, i + 1)
}
// strides agree with C order wherever the axis is longer than one
pub open spec fn is_cord(shape: Seq<usize>, st: Seq<isize>, isz: int) -> bool {
    forall|i: int| 0 <= i < shape.len() && shape[i] != 1 ==> (#[trigger] st[i]) as int == isz * suf(shape, i + 1)
}
pub open spec fn is_ford(shape: Seq<usize>, st: Seq<isize>, isz: int) -> bool {
    forall|i: int| 0 <= i < shape.len() && shape[i] != 1 ==> (#[trigger] st[i]) as int == isz * pre(shape, i)
}
pub open spec fn has_zero(shape: Seq<usize>) -> bool { exists|i: int| 0 <= i < shape.len() && #[trigger] shape[i] == 0 }

// ---------------------------------------------------------------- lemmas
pub proof fn lemma_mul_le(a: int, b: int, c: int, d: int)
    requires 0 <= a <= b, 0 <= c <= d
    ensures 0 <= a * c <= b * d
{ assert(0 <= a * c <= b * d) by (nonlinear_arith) requires 0 <= a <= b, 0 <= c <= d; }

pub proof fn lemma_prod_nonneg(s: Seq<usize>) ensures prod(s) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_prod_nonneg(s.drop_last()); assert(prod(s.drop_last()) * (s.last() as int) >= 0) by (nonlinear_arith) requires prod(s.drop_last()) >= 0, s.last() >= 0usize; } }

pub proof fn lemma_pmax(s: Seq<usize>)
    ensures pmax(s) >= 1, 0 <= prod(s) <= pmax(s), nonempty(s) ==> prod(s) == pmax(s), !nonempty(s) ==> prod(s) == 0,
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) <= pmax(s)
    decreases s.len()
{
    lemma_prod_nonneg(s);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_pmax(d);
        let l = max1(s.last());
        assert(pmax(d) * l >= pmax(d) && pmax(d) * l >= l) by (nonlinear_arith) requires pmax(d) >= 1, l >= 1;
        assert(prod(d) * (s.last() as int) <= pmax(d) * l) by (nonlinear_arith) requires 0 <= prod(d) <= pmax(d), 0 <= (s.last() as int) <= l;
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) <= pmax(s) by {
            if i < s.len() - 1 { assert(s[i] == d[i]); }
        }
        if nonempty(s) {
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) > 0 by { assert(s[i] == d[i]); }
            assert(s[s.len() - 1] > 0);
        } else {
            if s.last() != 0 {
                let j = choose|j: int| 0 <= j < s.len() && !((#[trigger] s[j]) > 0);
                assert(j < d.len()); assert(d[j] == s[j]); assert(!nonempty(d));
                assert(prod(d) * (s.last() as int) == 0) by (nonlinear_arith) requires prod(d) == 0;
            }
        }
    }
}

pub proof fn lemma_suf_nonneg(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len()
    ensures suf(s, i) >= 0 decreases s.len() - i
{ if i < s.len() { lemma_suf_nonneg(s, i + 1); assert((s[i] as int) * suf(s, i + 1) >= 0) by (nonlinear_arith) requires suf(s, i + 1) >= 0, s[i] >= 0usize; } }

// suf never exceeds the padded product of all dimensions from i, hence pmax
pub open spec fn sufm(s: Seq<usize>, i: int) -> int decreases s.len() - i {
    if i >= s.len() { 1 } else { max1(s[i]) * sufm(s, i + 1) }
}
pub proof fn lemma_sufm_split(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len()
    ensures sufm(s, i) >= 1, pmax(s.take(i)) * sufm(s, i) == pmax(s), 0 <= suf(s, i) <= sufm(s, i)
    decreases s.len() - i
{
    if i == s.len() { assert(s.take(i) =~= s); }
    else {
        lemma_sufm_split(s, i + 1);
        assert(s.take(i + 1).drop_last() =~= s.take(i));
        assert(s.take(i + 1).last() == s[i]);
        lemma_pmax(s.take(i));
        let a = pmax(s.take(i)); let m = max1(s[i]); let b = sufm(s, i + 1);
        assert(pmax(s.take(i + 1)) == a * m);
        assert(a * (m * b) == (a * m) * b) by (nonlinear_arith);
        assert(m * b >= 1) by (nonlinear_arith) requires m >= 1, b >= 1;
        let x = suf(s, i + 1);
        assert(0 <= (s[i] as int) * x <= m * b) by (nonlinear_arith) requires 0 <= x <= b, 0 <= (s[i] as int) <= m;
    }
}
pub proof fn lemma_suf_le(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len()
    ensures 0 <= suf(s, i) <= sufm(s, i) <= pmax(s)
{
    lemma_sufm_split(s, i); lemma_pmax(s.take(i));
    let a = pmax(s.take(i)); let b = sufm(s, i);
    assert(b <= a * b) by (nonlinear_arith) requires a >= 1, b >= 1;
}
pub proof fn lemma_pre_take(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len()
    ensures pre(s, i) == prod(s.take(i))
    decreases i
{
    if i > 0 { lemma_pre_take(s, i - 1); assert(s.take(i).drop_last() =~= s.take(i - 1)); assert(s.take(i).last() == s[i - 1]); }
    else { assert(s.take(0) =~= Seq::<usize>::empty()); }
}
pub proof fn lemma_pmax_take(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len()
    ensures 1 <= pmax(s.take(i)) <= pmax(s)
{
    lemma_sufm_split(s, i); lemma_pmax(s.take(i));
    let a = pmax(s.take(i)); let b = sufm(s, i);
    assert(a <= a * b) by (nonlinear_arith) requires a >= 1, b >= 1;
}
pub proof fn lemma_suf_split(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len()
    ensures prod(s.take(i)) * suf(s, i) == prod(s)
    decreases s.len() - i
{
    if i == s.len() { assert(s.take(i) =~= s); assert(prod(s) * 1 == prod(s)); }
    else {
        lemma_suf_split(s, i + 1);
        assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]);
        let a = prod(s.take(i)); let m = s[i] as int; let b = suf(s, i + 1);
        assert(a * (m * b) == (a * m) * b) by (nonlinear_arith);
    }
}
// suffix product of a prefix: suf(s.drop_last(), i) * s.last() == suf(s, i)
pub proof fn lemma_suf_drop(s: Seq<usize>, i: int)
    requires s.len() > 0, 0 <= i <= s.len() - 1
    ensures suf(s, i) == suf(s.drop_last(), i) * (s.last() as int)
    decreases s.len() - i
{
    let d = s.drop_last();
    if i == s.len() - 1 { assert(suf(s, i) == (s[i] as int) * suf(s, i + 1)); assert(suf(s, i + 1) == 1); assert(suf(d, i) == 1); }
    else {
        lemma_suf_drop(s, i + 1);
        assert(d[i] == s[i]);
        let a = s[i] as int; let b = suf(d, i + 1); let c = s.last() as int;
        assert(a * (b * c) == (a * b) * c) by (nonlinear_arith);
    }
}

pub proof fn lemma_dot_ext(a: Seq<usize>, b: Seq<usize>, s: Seq<isize>, t: Seq<isize>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), n <= s.len(), n <= t.len(),
        forall|i: int| 0 <= i < n ==> a[i] == b[i] && s[i] == t[i]
    ensures dot(a, s, n) == dot(b, t, n)
    decreases n
{ if n > 0 { lemma_dot_ext(a, b, s, t, n - 1); assert(a[n - 1] == b[n - 1] && s[n - 1] == t[n - 1]); } }

// products that agree position by position give equal sums
pub proof fn lemma_dot_ext2(a: Seq<usize>, b: Seq<usize>, s: Seq<isize>, t: Seq<isize>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), n <= s.len(), n <= t.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] a[i]) as int * (s[i] as int) == (b[i] as int) * (t[i] as int)
    ensures dot(a, s, n) == dot(b, t, n)
    decreases n
{ if n > 0 { lemma_dot_ext2(a, b, s, t, n - 1); assert(a[n - 1] as int * (s[n - 1] as int) == (b[n - 1] as int) * (t[n - 1] as int)); } }

// changing one coordinate moves the sum by the difference times the stride
pub proof fn lemma_dot_upd(a: Seq<usize>, b: Seq<usize>, s: Seq<isize>, t: Seq<isize>, k: int, n: int)
    requires 0 <= k < n <= a.len(), n <= b.len(), n <= s.len(), n <= t.len(),
        forall|i: int| 0 <= i < n && i != k ==> a[i] == b[i] && s[i] == t[i]
    ensures dot(b, t, n) == dot(a, s, n) - (a[k] as int) * (s[k] as int) + (b[k] as int) * (t[k] as int)
    decreases n
{
    if n - 1 > k { lemma_dot_upd(a, b, s, t, k, n - 1); assert(a[n - 1] == b[n - 1] && s[n - 1] == t[n - 1]); }
    else { lemma_dot_ext(a, b, s, t, n - 1); }
}
pub proof fn lemma_dot_zero(a: Seq<usize>, s: Seq<isize>, n: int)
    requires 0 <= n <= a.len(), n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] a[i]) == 0 || s[i] == 0
    ensures dot(a, s, n) == 0
    decreases n
{ if n > 0 { lemma_dot_zero(a, s, n - 1); assert(a[n - 1] == 0 || s[n - 1] == 0); assert((a[n-1] as int) * (s[n-1] as int) == 0) by (nonlinear_arith) requires a[n-1] == 0 || s[n-1] == 0; } }

pub proof fn lemma_span_sign(d: usize, st: isize)
    ensures st >= 0 ==> span(d, st) >= 0, st <= 0 ==> span(d, st) <= 0
{
    assert(st >= 0 ==> (max1(d) - 1) * (st as int) >= 0) by (nonlinear_arith) requires max1(d) >= 1;
    assert(st <= 0 ==> (max1(d) - 1) * (st as int) <= 0) by (nonlinear_arith) requires max1(d) >= 1;
}
pub proof fn lemma_ext_mono(shape: Seq<usize>, st: Seq<isize>, n: int, m: int)
    requires 0 <= n <= m <= shape.len(), shape.len() == st.len()
    ensures ext_lo(shape, st, m) <= ext_lo(shape, st, n) <= 0 <= ext_hi(shape, st, n) <= ext_hi(shape, st, m)
    decreases m
{
    if m > 0 {
        lemma_span_sign(shape[m - 1], st[m - 1]);
        if n < m { lemma_ext_mono(shape, st, n, m - 1); } else { lemma_ext_mono(shape, st, n - 1, m - 1); }
    }
}
// the box: idx below max(shape, 1)
pub open spec fn inbox(idx: Seq<usize>, shape: Seq<usize>) -> bool {
    idx.len() == shape.len() && forall|i: int| 0 <= i < shape.len() ==> ((#[trigger] idx[i]) as int) < max1(shape[i])
}
pub proof fn lemma_dot_range(idx: Seq<usize>, shape: Seq<usize>, st: Seq<isize>, n: int)
    requires inbox(idx, shape), shape.len() == st.len(), 0 <= n <= shape.len()
    ensures ext_lo(shape, st, n) <= dot(idx, st, n) <= ext_hi(shape, st, n)
    decreases n
{
    if n > 0 {
        lemma_dot_range(idx, shape, st, n - 1);
        let x = idx[n - 1] as int; let s = st[n - 1] as int; let m = max1(shape[n - 1]) - 1;
        assert(x <= m);
        assert(s >= 0 ==> 0 <= x * s <= m * s) by (nonlinear_arith) requires 0 <= x <= m;
        assert(s <= 0 ==> m * s <= x * s <= 0) by (nonlinear_arith) requires 0 <= x <= m;
    }
}
// one product idx[i]*st[i] is within the span of its axis
pub proof fn lemma_term_range(x: usize, d: usize, st: isize)
    requires (x as int) < max1(d)
    ensures st >= 0 ==> 0 <= (x as int) * (st as int) <= span(d, st), st <= 0 ==> span(d, st) <= (x as int) * (st as int) <= 0
{
    let m = max1(d) - 1; let y = x as int; let s = st as int;
    assert(s >= 0 ==> 0 <= y * s <= m * s) by (nonlinear_arith) requires 0 <= y <= m;
    assert(s <= 0 ==> m * s <= y * s <= 0) by (nonlinear_arith) requires 0 <= y <= m;
}
pub proof fn lemma_ext_eq(sh1: Seq<usize>, st1: Seq<isize>, sh2: Seq<usize>, st2: Seq<isize>, n: int)
    requires 0 <= n <= sh1.len(), n <= sh2.len(), n <= st1.len(), n <= st2.len(),
        forall|i: int| 0 <= i < n ==> sh1[i] == sh2[i] && st1[i] == st2[i]
    ensures ext_lo(sh1, st1, n) == ext_lo(sh2, st2, n), ext_hi(sh1, st1, n) == ext_hi(sh2, st2, n)
    decreases n
{ if n > 0 { lemma_ext_eq(sh1, st1, sh2, st2, n - 1); assert(sh1[n-1] == sh2[n-1] && st1[n-1] == st2[n-1]); } }
// single axis extents are within the total extents
pub proof fn lemma_ext_axis(shape: Seq<usize>, st: Seq<isize>, k: int, n: int)
    requires 0 <= k < n <= shape.len(), shape.len() == st.len()
    ensures ext_lo(shape, st, n) <= span(shape[k], st[k]) <= ext_hi(shape, st, n)
    decreases n
{
    lemma_span_sign(shape[n - 1], st[n - 1]);
    lemma_ext_mono(shape, st, n - 1, n);
    if k < n - 1 { lemma_ext_axis(shape, st, k, n - 1); }
}

// ---- row-major positions
pub proof fn lemma_rmi_bound(idx: Seq<usize>, shape: Seq<usize>)
    requires inb(idx, shape)
    ensures 0 <= rmi(idx, shape) < prod(shape)
    decreases shape.len()
{
    if shape.len() > 0 {
        let (a, b) = (idx.drop_last(), shape.drop_last());
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] a[i]) < b[i] by { assert(idx[i] < shape[i]); }
        lemma_rmi_bound(a, b);
        let l = shape.last() as int; let x = idx.last() as int; let r = rmi(a, b); let p = prod(b);
        assert(idx[idx.len() - 1] < shape[shape.len() - 1]);
        assert(0 <= r * l + x < p * l) by (nonlinear_arith) requires 0 <= r < p, 0 <= x < l;
    }
}
pub proof fn lemma_unrmi_inb(k: int, shape: Seq<usize>)
    requires 0 <= k < prod(shape)
    ensures inb(unrmi(k, shape), shape), rmi(unrmi(k, shape), shape) == k
    decreases shape.len()
{
    if shape.len() > 0 {
        let b = shape.drop_last(); let l = shape.last() as int; let p = prod(b);
        lemma_prod_nonneg(b);
        if l == 0 { assert(p * l == 0) by (nonlinear_arith) requires l == 0; }
        assert(l > 0);
        lemma_div_pos_is_pos(k, l);
        lemma_fundamental_div_mod(k, l); lemma_mod_bound(k, l);
        assert(k / l < p) by (nonlinear_arith) requires k == l * (k / l) + k % l, 0 <= k % l < l, k < p * l, l > 0;
        lemma_unrmi_inb(k / l, b);
        let u = unrmi(k, shape);
        assert(u.drop_last() =~= unrmi(k / l, b));
        assert(u.last() as int == k % l);
        assert forall|i: int| 0 <= i < shape.len() implies (#[trigger] u[i]) < shape[i] by {
            if i < b.len() { assert(u[i] == u.drop_last()[i]); assert(unrmi(k / l, b)[i] < b[i]); assert(b[i] == shape[i]); }
        }
        assert(rmi(u, shape) == (k / l) * l + k % l);
        assert((k / l) * l == l * (k / l)) by (nonlinear_arith);
    }
}
pub proof fn lemma_rmi_inv(idx: Seq<usize>, shape: Seq<usize>)
    requires inb(idx, shape)
    ensures unrmi(rmi(idx, shape), shape) =~= idx
    decreases shape.len()
{
    if shape.len() > 0 {
        let (a, b) = (idx.drop_last(), shape.drop_last());
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] a[i]) < b[i] by { assert(idx[i] < shape[i]); }
        lemma_rmi_inv(a, b); lemma_rmi_bound(a, b);
        let l = shape.last() as int; let x = idx.last() as int; let r = rmi(a, b);
        assert(idx[idx.len() - 1] < shape[shape.len() - 1]);
        lemma_fundamental_div_mod_converse(r * l + x, l, r, x);
        assert(unrmi(r * l + x, shape) =~= unrmi(r, b).push(x as usize));
        assert(a.push(x as usize) =~= idx);
    }
}
pub proof fn lemma_next(idx: Seq<usize>, shape: Seq<usize>)
    requires inb(idx, shape)
    ensures inb(next_idx(idx, shape), shape),
        rmi(idx, shape) + 1 < prod(shape) ==> rmi(next_idx(idx, shape), shape) == rmi(idx, shape) + 1,
        rmi(idx, shape) + 1 == prod(shape) ==> rmi(next_idx(idx, shape), shape) == 0,
    decreases shape.len()
{
    lemma_rmi_bound(idx, shape);
    if shape.len() > 0 {
        let (a, b) = (idx.drop_last(), shape.drop_last());
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] a[i]) < b[i] by { assert(idx[i] < shape[i]); }
        lemma_next(a, b); lemma_rmi_bound(a, b);
        let l = shape.last() as int; let x = idx.last() as int; let r = rmi(a, b); let p = prod(b);
        assert(idx[idx.len() - 1] < shape[shape.len() - 1]);
        let nx = next_idx(idx, shape);
        if x + 1 < l {
            assert(nx.drop_last() =~= a); assert(nx.last() == x + 1);
            assert forall|i: int| 0 <= i < shape.len() implies (#[trigger] nx[i]) < shape[i] by { if i < b.len() { assert(nx[i] == a[i]); assert(a[i] < b[i]); } }
            assert(r * l + x + 1 < p * l) by (nonlinear_arith) requires 0 <= r < p, 0 <= x, x + 1 < l;
        } else {
            let na = next_idx(a, b);
            assert(nx.drop_last() =~= na); assert(nx.last() == 0);
            assert forall|i: int| 0 <= i < shape.len() implies (#[trigger] nx[i]) < shape[i] by { if i < b.len() { assert(nx[i] == na[i]); assert(na[i] < b[i]); } }
            assert(x == l - 1);
            if r + 1 < p {
                assert((r + 1) * l == r * l + x + 1) by (nonlinear_arith) requires x == l - 1;
                assert(r * l + x + 1 < p * l) by (nonlinear_arith) requires r + 1 < p, x == l - 1, l > 0;
            } else {
                assert(r + 1 == p);
                assert(r * l + x + 1 == p * l) by (nonlinear_arith) requires r + 1 == p, x == l - 1;
            }
        }
    }
}
pub proof fn lemma_next_len(idx: Seq<usize>, shape: Seq<usize>)
    ensures next_idx(idx, shape).len() == idx.len() decreases idx.len()
{ if idx.len() > 0 { lemma_next_len(idx.drop_last(), shape.drop_last()); } }
pub proof fn lemma_next_un(k: int, shape: Seq<usize>)
    requires 0 <= k, k + 1 < prod(shape)
    ensures next_idx(unrmi(k, shape), shape) =~= unrmi(k + 1, shape)
{
    lemma_unrmi_inb(k, shape);
    let u = unrmi(k, shape);
    lemma_next(u, shape);
    lemma_rmi_inv(next_idx(u, shape), shape);
}
pub proof fn lemma_unrmi_len(k: int, shape: Seq<usize>)
    ensures unrmi(k, shape).len() == shape.len()
    decreases shape.len()
{ if shape.len() > 0 { lemma_unrmi_len(k / (shape.last() as int), shape.drop_last()); } }
pub proof fn lemma_unrmi_zero(shape: Seq<usize>)
    requires prod(shape) > 0
    ensures unrmi(0, shape).len() == shape.len(), forall|i: int| 0 <= i < shape.len() ==> (#[trigger] unrmi(0, shape)[i]) == 0
    decreases shape.len()
{
    if shape.len() > 0 {
        let l = shape.last() as int; let b = shape.drop_last();
        lemma_prod_nonneg(b);
        assert(l > 0 && prod(b) > 0) by (nonlinear_arith) requires prod(b) * l > 0, prod(b) >= 0, l >= 0;
        assert(0int / l == 0) by (nonlinear_arith) requires l > 0;
        assert(0int % l == 0) by (nonlinear_arith) requires l > 0;
        lemma_unrmi_zero(b);
        assert forall|i: int| 0 <= i < shape.len() implies (#[trigger] unrmi(0, shape)[i]) == 0 by {
            if i < b.len() { assert(unrmi(0, shape)[i] == unrmi(0, b)[i]); }
        }
    }
}
pub proof fn lemma_zero_idx(z: Seq<usize>, shape: Seq<usize>)
    requires prod(shape) > 0, z.len() == shape.len(), forall|i: int| 0 <= i < z.len() ==> (#[trigger] z[i]) == 0
    ensures z =~= unrmi(0, shape), inb(z, shape)
{ lemma_unrmi_zero(shape); lemma_unrmi_inb(0, shape); assert(z =~= unrmi(0, shape)); }

// C-ordered strides turn the dot product into the row-major position
pub proof fn lemma_cord_dot(idx: Seq<usize>, shape: Seq<usize>, st: Seq<isize>, isz: int)
    requires inb(idx, shape), st.len() == shape.len(), is_cord(shape, st, isz)
    ensures dot(idx, st, idx.len() as int) == isz * rmi(idx, shape)
    decreases shape.len()
{
    // generalise: prefix sums equal isz * suf(n) * rmi(prefix)
    lemma_cord_dot_n(idx, shape, st, isz, shape.len() as int);
    assert(idx.take(idx.len() as int) =~= idx); assert(shape.take(shape.len() as int) =~= shape);
    assert(isz * 1 * rmi(idx, shape) == isz * rmi(idx, shape));
}
pub proof fn lemma_cord_dot_n(idx: Seq<usize>, shape: Seq<usize>, st: Seq<isize>, isz: int, n: int)
    requires inb(idx, shape), st.len() == shape.len(), is_cord(shape, st, isz), 0 <= n <= shape.len()
    ensures dot(idx, st, n) == isz * suf(shape, n) * rmi(idx.take(n), shape.take(n))
    decreases n
{
    if n > 0 {
        lemma_cord_dot_n(idx, shape, st, isz, n - 1);
        let (a, b) = (idx.take(n), shape.take(n));
        assert(a.drop_last() =~= idx.take(n - 1)); assert(b.drop_last() =~= shape.take(n - 1));
        let r = rmi(idx.take(n - 1), shape.take(n - 1)); let d = shape[n - 1] as int; let s = suf(shape, n); let x = idx[n - 1] as int;
        assert(rmi(a, b) == r * d + x);
        assert(suf(shape, n - 1) == d * s);
        assert(isz * (d * s) * r + x * (isz * s) == isz * s * (r * d + x)) by (nonlinear_arith);
        if shape[n - 1] == 1 { assert(x == 0) by { assert(idx[n - 1] < shape[n - 1]); } assert(0 * (st[n-1] as int) == 0); assert(0 * (isz * s) == 0); }
        else { assert(st[n - 1] as int == isz * suf(shape, n - 1 + 1)); }
    } else { assert(idx.take(0) =~= Seq::<usize>::empty()); assert(isz * suf(shape, 0) * 0 == 0); }
}
} // verus!
