// Specification of the array representation (after the extracted struct RumpyArray).
pub open spec fn isz(a: RumpyArray) -> int { dt_size(a.dtype) }
pub open spec fn bid(a: RumpyArray) -> int { buf_id(a.buffer) }
/// representation invariant: every element of the (padded) box lies inside the address range, every element of a
/// non-empty array lies inside the buffer, and the C flag is truthful
pub open spec fn lay(sh: Seq<usize>, st: Seq<isize>, off: int, size: int, blen: int) -> bool {
    &&& st.len() == sh.len()
    &&& 1 <= size <= 0x1_0000_0000
    &&& pmax(sh) * size <= imax()
    &&& blen <= imax()
    &&& 0 <= off + ext_lo(sh, st, sh.len() as int)
    &&& off + ext_hi(sh, st, sh.len() as int) <= imax()
    &&& (nonempty(sh) ==> off + ext_hi(sh, st, sh.len() as int) + size <= blen)
}
pub open spec fn wf(a: RumpyArray) -> bool {
    &&& lay(a.shape@, a.strides@, a.offset as int, dt_size(a.dtype), buf_len(a.buffer))
    &&& (a.flags.c && nonempty(a.shape@) ==> is_cord(a.shape@, a.strides@, dt_size(a.dtype)))
    &&& (a.flags.f && nonempty(a.shape@) ==> is_ford(a.shape@, a.strides@, dt_size(a.dtype)))
}
/// buffer address of the element at idx
pub open spec fn addr(a: RumpyArray, idx: Seq<usize>) -> int { a.offset + dot(idx, a.strides@, idx.len() as int) }
pub open spec fn same_buf(r: RumpyArray, a: RumpyArray) -> bool { r.buffer == a.buffer && r.dtype == a.dtype }

pub proof fn lemma_inb_box(idx: Seq<usize>, shape: Seq<usize>)
    requires inb(idx, shape) ensures inbox(idx, shape), nonempty(shape)
{ assert forall|i: int| 0 <= i < shape.len() implies ((#[trigger] idx[i]) as int) < max1(shape[i]) by { assert(idx[i] < shape[i]); }
  assert forall|i: int| 0 <= i < shape.len() implies (#[trigger] shape[i]) > 0 by { assert(idx[i] < shape[i]); } }
pub proof fn lemma_dim_le(shape: Seq<usize>, size: int, k: int)
    requires pmax(shape) * size <= imax(), size >= 1, 0 <= k < shape.len()
    ensures shape[k] <= imax(), pmax(shape) <= imax()
{ lemma_pmax(shape); let p = pmax(shape); assert(p <= p * size) by (nonlinear_arith) requires p >= 1, size >= 1; assert(shape[k] <= p); }
pub proof fn lemma_pmax_le(shape: Seq<usize>, size: int)
    requires pmax(shape) * size <= imax(), size >= 1
    ensures 1 <= pmax(shape) <= imax(), size <= imax()
{ lemma_pmax(shape); let p = pmax(shape); assert(p <= p * size && size <= p * size) by (nonlinear_arith) requires p >= 1, size >= 1; }
/// every in-bounds element of a well-formed array lies inside its buffer
pub proof fn lemma_addr_ok(a: RumpyArray, idx: Seq<usize>)
    requires wf(a), inb(idx, a.shape@)
    ensures 0 <= addr(a, idx), addr(a, idx) + isz(a) <= buf_len(a.buffer)
{ lemma_inb_box(idx, a.shape@); lemma_dot_range(idx, a.shape@, a.strides@, idx.len() as int); }
pub proof fn lemma_addr_c(a: RumpyArray, idx: Seq<usize>)
    requires wf(a), inb(idx, a.shape@), a.flags.c
    ensures addr(a, idx) == a.offset + isz(a) * rmi(idx, a.shape@)
{ lemma_inb_box(idx, a.shape@); lemma_cord_dot(idx, a.shape@, a.strides@, isz(a)); }
impl RumpyArray {
    /// derived Clone: shares the buffer
    #[verifier::external_body]
    pub fn clone(&self) -> (r: RumpyArray) ensures r == *self { unimplemented!() }
}
// ---- extents are attained at corners, so a view whose box maps into the base's box is well formed
pub open spec fn corner(sh: Seq<usize>, st: Seq<isize>, hi: bool) -> Seq<usize> {
    Seq::new(sh.len(), |i: int| if (hi && st[i] > 0) || (!hi && st[i] < 0) { (max1(sh[i]) - 1) as usize } else { 0usize })
}
pub proof fn lemma_corner(sh: Seq<usize>, st: Seq<isize>, hi: bool, n: int)
    requires sh.len() == st.len(), 0 <= n <= sh.len()
    ensures inbox(corner(sh, st, hi), sh), dot(corner(sh, st, hi), st, n) == (if hi { ext_hi(sh, st, n) } else { ext_lo(sh, st, n) })
    decreases n
{
    if n > 0 {
        lemma_corner(sh, st, hi, n - 1);
        let c = corner(sh, st, hi);
        assert(0 * (st[n - 1] as int) == 0) by (nonlinear_arith);
        assert(c[n - 1] as int == if (hi && st[n - 1] > 0) || (!hi && st[n - 1] < 0) { max1(sh[n - 1]) - 1 } else { 0 });
    }
}
pub open spec fn box_map(rsh: Seq<usize>, rst: Seq<isize>, roff: int, sh: Seq<usize>, st: Seq<isize>, off: int, f: spec_fn(Seq<usize>) -> Seq<usize>) -> bool {
    forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) ==> inbox(f(idx), sh) && roff + dot(idx, rst, rsh.len() as int) == off + dot(f(idx), st, sh.len() as int)
}
pub proof fn lemma_lay_map(rsh: Seq<usize>, rst: Seq<isize>, roff: int, sh: Seq<usize>, st: Seq<isize>, off: int, size: int, blen: int, f: spec_fn(Seq<usize>) -> Seq<usize>)
    requires lay(sh, st, off, size, blen), rsh.len() == rst.len(), pmax(rsh) * size <= imax(), box_map(rsh, rst, roff, sh, st, off, f), nonempty(rsh) ==> nonempty(sh)
    ensures lay(rsh, rst, roff, size, blen), 0 <= roff <= imax()
{
    let n = rsh.len() as int;
    let (a, b) = (corner(rsh, rst, false), corner(rsh, rst, true));
    lemma_corner(rsh, rst, false, n); lemma_corner(rsh, rst, true, n); lemma_ext_mono(rsh, rst, 0, n);
    assert(inbox(f(a), sh)); assert(inbox(f(b), sh));
    lemma_dot_range(f(a), sh, st, sh.len() as int); lemma_dot_range(f(b), sh, st, sh.len() as int);
}
pub proof fn lemma_box_inb(idx: Seq<usize>, shape: Seq<usize>)
    requires inbox(idx, shape), nonempty(shape) ensures inb(idx, shape)
{ assert forall|i: int| 0 <= i < shape.len() implies (#[trigger] idx[i]) < shape[i] by { assert(shape[i] > 0); assert((idx[i] as int) < max1(shape[i])); } }
/// r is a view of a: same memory, same element type, and element idx of r is element f(idx) of a
pub open spec fn is_view(r: RumpyArray, a: RumpyArray, f: spec_fn(Seq<usize>) -> Seq<usize>) -> bool {
    &&& r.buffer == a.buffer && r.dtype == a.dtype && wf(r)
    &&& forall|idx: Seq<usize>| #[trigger] inb(idx, r.shape@) ==> inb(f(idx), a.shape@) && addr(r, idx) == addr(a, f(idx))
}
pub proof fn lemma_is_view(r: RumpyArray, a: RumpyArray, f: spec_fn(Seq<usize>) -> Seq<usize>)
    requires wf(a), wf(r), r.buffer == a.buffer, r.dtype == a.dtype, nonempty(r.shape@) ==> nonempty(a.shape@),
        box_map(r.shape@, r.strides@, r.offset as int, a.shape@, a.strides@, a.offset as int, f)
    ensures is_view(r, a, f)
{
    assert forall|idx: Seq<usize>| #[trigger] inb(idx, r.shape@) implies inb(f(idx), a.shape@) && addr(r, idx) == addr(a, f(idx)) by {
        lemma_inb_box(idx, r.shape@); assert(inbox(idx, r.shape@)); lemma_box_inb(f(idx), a.shape@);
    }
}
pub proof fn lemma_pmax_upd(s: Seq<usize>, k: int, v: usize)
    requires 0 <= k < s.len(), max1(v) <= max1(s[k])
    ensures pmax(s.update(k, v)) <= pmax(s)
    decreases s.len()
{
    let t = s.update(k, v);
    lemma_pmax(s.drop_last()); lemma_pmax(t.drop_last());
    let (a, b) = (pmax(t.drop_last()), pmax(s.drop_last()));
    if k == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); assert(a * max1(v) <= a * max1(s[k])) by (nonlinear_arith) requires a >= 1, max1(v) <= max1(s[k]); }
    else { assert(t.drop_last() =~= s.drop_last().update(k, v)); lemma_pmax_upd(s.drop_last(), k, v); assert(t.last() == s.last()); let l = max1(s.last());
        assert(a * l <= b * l) by (nonlinear_arith) requires a <= b, l >= 1; }
}
pub proof fn lemma_pmax_remove(s: Seq<usize>, k: int)
    requires 0 <= k < s.len()
    ensures pmax(s) == pmax(s.remove(k)) * max1(s[k])
    decreases s.len()
{
    if k == s.len() - 1 { assert(s.remove(k) =~= s.drop_last()); }
    else {
        lemma_pmax_remove(s.drop_last(), k);
        assert(s.remove(k).drop_last() =~= s.drop_last().remove(k)); assert(s.remove(k).last() == s.last());
        let a = pmax(s.drop_last().remove(k)); let b = max1(s[k]); let c = max1(s.last());
        assert((a * b) * c == (a * c) * b) by (nonlinear_arith);
    }
}
pub proof fn lemma_dot_remove(a: Seq<usize>, s: Seq<isize>, k: int)
    requires 0 <= k < a.len(), a.len() == s.len()
    ensures dot(a, s, a.len() as int) == dot(a.remove(k), s.remove(k), a.len() - 1) + (a[k] as int) * (s[k] as int)
    decreases a.len()
{
    let n = a.len() as int;
    if k == n - 1 { lemma_dot_ext(a, a.remove(k), s, s.remove(k), n - 1); }
    else {
        lemma_dot_remove(a.drop_last(), s.drop_last(), k);
        lemma_dot_ext(a, a.drop_last(), s, s.drop_last(), n - 1);
        let (x, y) = (a.remove(k), s.remove(k)); let (x2, y2) = (a.drop_last().remove(k), s.drop_last().remove(k));
        lemma_dot_ext(x, x2, y, y2, n - 2);
        assert(x[n - 2] == a[n - 1] && y[n - 2] == s[n - 1]);
    }
}
// ---- axis permutations
pub open spec fn is_perm(p: Seq<usize>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] p[i]) < n) && (forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j])
}
pub open spec fn gather<T>(s: Seq<T>, p: Seq<usize>) -> Seq<T> { Seq::new(p.len(), |i: int| s[p[i] as int]) }
/// permutation with its last entry taken out, renumbered
pub open spec fn perm_cut(p: Seq<usize>) -> Seq<usize> {
    Seq::new((p.len() - 1) as nat, |i: int| if p[i] > p.last() { (p[i] - 1) as usize } else { p[i] })
}
pub proof fn lemma_perm_cut(p: Seq<usize>, n: int)
    requires is_perm(p, n), n > 0
    ensures is_perm(perm_cut(p), n - 1)
{
    let q = perm_cut(p); let l = p.last();
    assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] q[i]) < n - 1 by { assert(p[i] < n); assert(p[i] != p[n - 1]); assert(p[n - 1] < n); }
    assert forall|i: int, j: int| 0 <= i < j < n - 1 implies q[i] != q[j] by { assert(p[i] != p[j]); assert(p[i] != p[n - 1]); assert(p[j] != p[n - 1]); assert(p[i] < n && p[j] < n); }
}
pub proof fn lemma_gather_cut<T>(s: Seq<T>, p: Seq<usize>)
    requires is_perm(p, s.len() as int), s.len() > 0
    ensures gather(s, p).drop_last() =~= gather(s.remove(p.last() as int), perm_cut(p))
{
    let n = s.len() as int;
    assert(p[n - 1] < n);
    assert forall|i: int| 0 <= i < n - 1 implies gather(s, p)[i] == gather(s.remove(p.last() as int), perm_cut(p))[i] by { assert(p[i] != p[n - 1]); assert(p[i] < n); }
}
pub proof fn lemma_dot_perm(a: Seq<usize>, s: Seq<isize>, p: Seq<usize>)
    requires a.len() == s.len(), is_perm(p, a.len() as int)
    ensures dot(gather(a, p), gather(s, p), a.len() as int) == dot(a, s, a.len() as int)
    decreases a.len()
{
    let n = a.len() as int;
    if n > 0 {
        let k = p.last() as int;
        assert(p[n - 1] < n);
        lemma_perm_cut(p, n); lemma_gather_cut(a, p); lemma_gather_cut(s, p);
        lemma_dot_perm(a.remove(k), s.remove(k), perm_cut(p));
        lemma_dot_remove(a, s, k);
        let (x, y) = (gather(a, p), gather(s, p));
        lemma_dot_ext(x, x.drop_last(), y, y.drop_last(), n - 1);
    }
}
pub proof fn lemma_pmax_perm(s: Seq<usize>, p: Seq<usize>)
    requires is_perm(p, s.len() as int)
    ensures pmax(gather(s, p)) == pmax(s)
    decreases s.len()
{
    let n = s.len() as int;
    if n > 0 {
        let k = p.last() as int;
        assert(p[n - 1] < n);
        lemma_perm_cut(p, n); lemma_gather_cut(s, p); lemma_pmax_perm(s.remove(k), perm_cut(p)); lemma_pmax_remove(s, k);
    }
}
/// index of position q in permutation p
pub open spec fn pinv(p: Seq<usize>, q: int) -> int { choose|i: int| 0 <= i < p.len() && p[i] == q }
pub proof fn lemma_perm_onto(p: Seq<usize>, n: int, q: int)
    requires is_perm(p, n), 0 <= q < n
    ensures exists|i: int| 0 <= i < n && p[i] == q
    decreases n
{
    if p[n - 1] == q { } else {
        lemma_perm_cut(p, n);
        let q2 = if q > p[n - 1] { q - 1 } else { q };
        assert(p[n - 1] < n);
        lemma_perm_onto(perm_cut(p), n - 1, q2);
        let i = choose|i: int| 0 <= i < n - 1 && perm_cut(p)[i] == q2;
        assert(p[i] < n && p[i] != p[n - 1]);
        assert(p[i] == q);
    }
}
/// the index whose axis p[i] is idx[i]
pub open spec fn scatter(idx: Seq<usize>, p: Seq<usize>) -> Seq<usize> { Seq::new(p.len(), |q: int| idx[pinv(p, q)]) }
pub proof fn lemma_scatter(idx: Seq<usize>, p: Seq<usize>)
    requires is_perm(p, idx.len() as int)
    ensures gather(scatter(idx, p), p) =~= idx
{
    let n = idx.len() as int;
    assert forall|i: int| 0 <= i < n implies gather(scatter(idx, p), p)[i] == idx[i] by {
        assert(p[i] < n); lemma_perm_onto(p, n, p[i] as int); let j = pinv(p, p[i] as int); assert(p[j] == p[i]); 
        if i < j { assert(p[i] != p[j]); } else if j < i { assert(p[j] != p[i]); }
    }
}
pub proof fn lemma_perm_box(idx: Seq<usize>, sh: Seq<usize>, st: Seq<isize>, p: Seq<usize>)
    requires is_perm(p, sh.len() as int), sh.len() == st.len(), inbox(idx, gather(sh, p))
    ensures inbox(scatter(idx, p), sh), dot(idx, gather(st, p), sh.len() as int) == dot(scatter(idx, p), st, sh.len() as int)
{
    let n = sh.len() as int; let f = scatter(idx, p);
    assert forall|q: int| 0 <= q < n implies ((#[trigger] f[q]) as int) < max1(sh[q]) by {
        lemma_perm_onto(p, n, q); let i = pinv(p, q); assert(p[i] == q); assert((idx[i] as int) < max1(gather(sh, p)[i]));
    }
    lemma_scatter(idx, p); lemma_dot_perm(f, st, p);
}
pub proof fn lemma_perm_nonempty(sh: Seq<usize>, p: Seq<usize>)
    requires is_perm(p, sh.len() as int), nonempty(gather(sh, p))
    ensures nonempty(sh)
{ assert forall|q: int| 0 <= q < sh.len() implies (#[trigger] sh[q]) > 0 by { lemma_perm_onto(p, sh.len() as int, q); let i = pinv(p, q); assert(gather(sh, p)[i] > 0); } }
