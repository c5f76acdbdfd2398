@unit diffs
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@include viewmaps.rs
@import core increment_indices RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous RumpyArray::byte_offset_for
@import movers RumpyArray::zeros RumpyArray::dtype RumpyArray::data_ptr
@import copy RumpyArray::copy
@import loops map_binary

@raw
impl RumpyArray {
    /// repo: buffer_mut
    pub fn vx_buffer(&self) -> (r: &Arc<ArrayBuffer>) ensures *r == self.buffer { &self.buffer }
}
// element subtraction: a function of the bytes (what it computes per type: P06, P07 harnesses)
pub enum BinaryOp { Sub }
pub enum BitwiseOp { Xor }
pub uninterp spec fn subb(d: DType, x: Seq<u8>, y: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn xorb(d: DType, x: Seq<u8>, y: Seq<u8>) -> Seq<u8>;
/// the difference of two elements, as NumPy's diff takes it
pub open spec fn dsub(d: DType, x: Seq<u8>, y: Seq<u8>) -> Seq<u8> { if dt_kind(d) is Bool { xorb(d, x, y) } else { subb(d, x, y) } }
/// and its type: the difference of two dates is a duration
pub uninterp spec fn dt_td(u: Unit) -> DType;
pub open spec fn ddt(d: DType) -> DType { match dt_kind(d) { DTypeKind::DateTime64(u) => dt_td(u), _ => d } }
#[verifier::external_body]
pub proof fn lemma_dsub(d: DType) ensures forall|x: Seq<u8>, y: Seq<u8>| (#[trigger] dsub(d, x, y)).len() == dt_size(d), dt_size(ddt(d)) == dt_size(d), ddt(ddt(d)) == ddt(d) { unimplemented!() }
impl DType {
    #[verifier::external_body]
    pub fn timedelta64(u: Unit) -> (r: DType) ensures r == dt_td(u) { unimplemented!() }
}
impl Ops {
    #[verifier::external_body]
    pub fn kind(&self) -> (r: DTypeKind) ensures r == dt_kind(ops_dt(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn binary_op(&self, op: BinaryOp, a: VPtr, ao: isize, b: VPtr, bo: isize, dst: VPtr, idx: usize, Tracked(mem): Tracked<&mut Mem>)
        requires ({ let z = dt_size(ops_dt(*self)); let m = old(mem).v(); acc(m, pb(a), po(a) + ao, z) && acc(m, pb(b), po(b) + bo, z) && acc(m, pb(dst), po(dst) + idx * z, z) })
        ensures ({ let d = ops_dt(*self); let z = dt_size(d); let m = old(mem).v(); final(mem).v() == m.insert(pb(dst), bput(m[pb(dst)], po(dst) + idx * z, subb(d, get(m[pb(a)], po(a) + ao, z), get(m[pb(b)], po(b) + bo, z)))) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn bitwise_op(&self, op: BitwiseOp, a: VPtr, ao: isize, b: VPtr, bo: isize, dst: VPtr, idx: usize, Tracked(mem): Tracked<&mut Mem>)
        requires ({ let z = dt_size(ops_dt(*self)); let m = old(mem).v(); acc(m, pb(a), po(a) + ao, z) && acc(m, pb(b), po(b) + bo, z) && acc(m, pb(dst), po(dst) + idx * z, z) })
        ensures ({ let d = ops_dt(*self); let z = dt_size(d); let m = old(mem).v(); final(mem).v() == m.insert(pb(dst), bput(m[pb(dst)], po(dst) + idx * z, xorb(d, get(m[pb(a)], po(a) + ao, z), get(m[pb(b)], po(b) + bo, z)))) }) { unimplemented!() }
}
/// the subtraction kernel (repo: ops/kernels) and num_complex::Complex
#[derive(Clone, Copy)]
pub struct Sub;
#[derive(Clone, Copy)]
pub struct Complex<T> { pub re: T, pub im: T }
pub uninterp spec fn ksub<T>(a: T, b: T) -> T;
impl<T> BinaryKernel<T> for Sub { open spec fn ap(a: T, b: T) -> T { ksub(a, b) } #[verifier::external_body] fn apply(a: T, b: T) -> (r: T) { unimplemented!() } }
/// elements of d are values of type T; their subtraction is the kernel's
pub uninterp spec fn elt<T>(d: DType) -> bool;
#[verifier::external_body]
pub proof fn lemma_elt(d: DType) ensures
    dt_kind(d) is Float64 ==> elt::<f64>(d), dt_kind(d) is Float32 ==> elt::<f32>(d), dt_kind(d) is Int64 ==> elt::<i64>(d), dt_kind(d) is Int32 ==> elt::<i32>(d), dt_kind(d) is Int16 ==> elt::<i16>(d),
    dt_kind(d) is Uint64 ==> elt::<u64>(d), dt_kind(d) is Uint32 ==> elt::<u32>(d), dt_kind(d) is Uint16 ==> elt::<u16>(d), dt_kind(d) is Uint8 ==> elt::<u8>(d), dt_kind(d) is Complex128 ==> elt::<Complex<f64>>(d), dt_kind(d) is Complex64 ==> elt::<Complex<f32>>(d) { unimplemented!() }
#[verifier::external_body]
pub proof fn lemma_ksub<T>(d: DType) requires elt::<T>(d) ensures dt_size(d) == tsz::<T>(), forall|x: Seq<u8>, y: Seq<u8>| #[trigger] subb(d, x, y) == enc(ksub::<T>(dec::<T>(x), dec::<T>(y))) { unimplemented!() }
pub open spec fn bsq<T>(a: Seq<T>, b: Seq<T>) -> Seq<T> { Seq::new(a.len(), |i: int| <Sub as BinaryKernel<T>>::ap(a[i], b[i])) }
/// the differences of n + 1 packed elements, packed at byte o of buffer b
pub open spec fn diffed(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, d: DType, p: VPtr, q: VPtr, n: int) -> bool {
    let z = dt_size(d);
    m1.dom() == m0.dom() && (forall|c: int| c != pb(q) ==> #[trigger] m1[c] == m0[c]) && m1[pb(q)].len() == m0[pb(q)].len()
    && forall|k: int| 0 <= k < n ==> #[trigger] chunk(m1[pb(q)], po(q), k, z) == dsub(d, chunk(m0[pb(p)], po(p), k + 1, z), chunk(m0[pb(p)], po(p), k, z))
}
pub proof fn lemma_typed<T>(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, d: DType, p: VPtr, q: VPtr, n: int)
    requires elt::<T>(d), !(dt_kind(d) is Bool), n >= 0, wrote(m0, m1, pb(q), po(q), bsq::<T>(vals::<T>(m0[pb(p)], po(p) + 1 * tsz::<T>(), n), vals::<T>(m0[pb(p)], po(p), n)))
    ensures diffed(m0, m1, d, p, q, n)
{
    lemma_ksub::<T>(d); let z = tsz::<T>(); let a = vals::<T>(m0[pb(p)], po(p) + 1 * z, n); let b = vals::<T>(m0[pb(p)], po(p), n); let s = bsq(a, b);
    assert forall|k: int| 0 <= k < n implies #[trigger] chunk(m1[pb(q)], po(q), k, z) == dsub(d, chunk(m0[pb(p)], po(p), k + 1, z), chunk(m0[pb(p)], po(p), k, z)) by {
        assert((k + 1) * z == k * z + z && 1 * z == z) by (nonlinear_arith); assert(s[k] == ksub::<T>(a[k], b[k])); assert(chunk(m0[pb(p)], po(p) + 1 * z, k, z) == chunk(m0[pb(p)], po(p), k + 1, z));
        assert(chunk(m1[pb(q)], po(q), k, z) == enc(s[k]));
    }
}
@endraw

@fn src/ops/array_methods/cumulative.rs diff_element flags=ptrs memself mem=binary_op,bitwise_op
@props P10
@req
    ({ let z = dt_size(ops_dt(ops)); let m = old(mem).v(); acc(m, pb(src), po(src) + next, z) && acc(m, pb(src), po(src) + prev, z) && acc(m, pb(out), po(out) + idx * z, z) }),
@ens
    ({ let d = ops_dt(ops); let z = dt_size(d); let m = old(mem).v(); final(mem).v() == m.insert(pb(out), bput(m[pb(out)], po(out) + idx * z, dsub(d, get(m[pb(src)], po(src) + next, z), get(m[pb(src)], po(src) + prev, z)))) }),

@fn src/ops/array_methods/cumulative.rs diff_1d_contiguous flags=ptrs memself mem=diff_element
@props P10
@req
    pb(src_ptr) != pb(result_ptr), n < imax(), acc(old(mem).v(), pb(src_ptr), po(src_ptr), (n + 1) * dt_size(*dtype)), acc(old(mem).v(), pb(result_ptr), po(result_ptr), n * dt_size(*dtype)),
@ens
    diffed(old(mem).v(), final(mem).v(), *dtype, src_ptr, result_ptr, n as int),
@start
    let ghost m0 = mem.v(); let ghost d = *dtype; let ghost z = dt_size(d);
    proof { lemma_dt(d); lemma_dsub(d); lemma_elt(d); lemma_u8(0); assert((n + 1) * z == n * z + z) by (nonlinear_arith); assert(0 <= n * z) by (nonlinear_arith) requires z >= 1;
        match dt_kind(d) { DTypeKind::Float64 => lemma_ksub::<f64>(d), DTypeKind::Float32 => lemma_ksub::<f32>(d), DTypeKind::Int64 => lemma_ksub::<i64>(d), DTypeKind::Int32 => lemma_ksub::<i32>(d), DTypeKind::Int16 => lemma_ksub::<i16>(d), DTypeKind::Uint64 => lemma_ksub::<u64>(d), DTypeKind::Uint32 => lemma_ksub::<u32>(d), DTypeKind::Uint16 => lemma_ksub::<u16>(d), DTypeKind::Uint8 => lemma_ksub::<u8>(d), DTypeKind::Complex128 => lemma_ksub::<Complex<f64>>(d), DTypeKind::Complex64 => lemma_ksub::<Complex<f32>>(d), _ => {} } }
@inv 0
    invariant 0 <= __i0 <= __e0, __e0 == n, n < imax(), d == *dtype, z == dt_size(d), 1 <= z, itemsize == z, ops_dt(ops) == d, pb(src_ptr) != pb(result_ptr), acc(m0, pb(src_ptr), po(src_ptr), (n + 1) * z), acc(m0, pb(result_ptr), po(result_ptr), n * z), (n + 1) * z == n * z + z,
        diffed(m0, mem.v(), d, src_ptr, result_ptr, __i0 as int)
    decreases __e0 - __i0
@body 0
    let ghost k = __i0 as int; let ghost m1 = mem.v(); let ghost o = po(result_ptr); let ghost b = pb(result_ptr);
    proof { lemma_dsub(d); lemma_chunk_bound(k, n as int, z); lemma_chunk_bound(k + 1, n as int + 1, z); assert((k + 1) * z == k * z + z) by (nonlinear_arith); assert(m1[pb(src_ptr)] == m0[pb(src_ptr)]);
        let v = dsub(d, chunk(m0[pb(src_ptr)], po(src_ptr), k + 1, z), chunk(m0[pb(src_ptr)], po(src_ptr), k, z)); lemma_put_chunk(m1[b], o, k, n as int, z, v);
        let m2 = m1.insert(b, bput(m1[b], o + k * z, v)); assert(m2.dom() =~= m0.dom());
        assert forall|j: int| 0 <= j < k + 1 implies #[trigger] chunk(m2[b], o, j, z) == dsub(d, chunk(m0[pb(src_ptr)], po(src_ptr), j + 1, z), chunk(m0[pb(src_ptr)], po(src_ptr), j, z)) by { if j < k { assert(chunk(m1[b], o, j, z) == dsub(d, chunk(m0[pb(src_ptr)], po(src_ptr), j + 1, z), chunk(m0[pb(src_ptr)], po(src_ptr), j, z))); } } }
@tail
    proof { let m1 = mem.v(); let (p, q, l) = (src_ptr, result_ptr, n as int); match dt_kind(d) { DTypeKind::Float64 => lemma_typed::<f64>(m0, m1, d, p, q, l), DTypeKind::Float32 => lemma_typed::<f32>(m0, m1, d, p, q, l), DTypeKind::Int64 => lemma_typed::<i64>(m0, m1, d, p, q, l), DTypeKind::Int32 => lemma_typed::<i32>(m0, m1, d, p, q, l), DTypeKind::Int16 => lemma_typed::<i16>(m0, m1, d, p, q, l), DTypeKind::Uint64 => lemma_typed::<u64>(m0, m1, d, p, q, l), DTypeKind::Uint32 => lemma_typed::<u32>(m0, m1, d, p, q, l), DTypeKind::Uint16 => lemma_typed::<u16>(m0, m1, d, p, q, l), DTypeKind::Uint8 => lemma_typed::<u8>(m0, m1, d, p, q, l), DTypeKind::Complex128 => lemma_typed::<Complex<f64>>(m0, m1, d, p, q, l), DTypeKind::Complex64 => lemma_typed::<Complex<f32>>(m0, m1, d, p, q, l), _ => {} } }

@raw
/// the difference that stands at index k of r: of the elements of a at the same index and st bytes on
pub open spec fn dval(m: Map<int, Seq<u8>>, a: RumpyArray, sh: Seq<usize>, st: int, k: int) -> Seq<u8> {
    let o = addr(a, unrmi(k, sh)); dsub(a.dtype, get(m[bid(a)], o + st, isz(a)), get(m[bid(a)], o, isz(a)))
}
pub open spec fn dok(m: Map<int, Seq<u8>>, a: RumpyArray, sh: Seq<usize>, st: int, k: int) -> bool {
    let ix = unrmi(k, sh); inb(ix, a.shape@) && acc(m, bid(a), addr(a, ix) + st, isz(a))
}
pub open spec fn dvals(m: Map<int, Seq<u8>>, a: RumpyArray, sh: Seq<usize>, st: int) -> Seq<Seq<u8>> { Seq::new(prod(sh) as nat, |k: int| dval(m, a, sh, st, k)) }
@endraw

@fn src/ops/array_methods/cumulative.rs diff_strided flags=ptrs memself mem=diff_element
@props P10
@req
    wf(*src), mok(old(mem).v(), *src), packed(*result), mok(old(mem).v(), *result), bid(*src) != bid(*result), src.shape@.len() == result.shape@.len(), *dtype == src.dtype, isz(*result) == isz(*src), nonempty(result.shape@),
    pb(src_ptr) == bid(*src), po(src_ptr) == src.offset, pb(result_ptr) == bid(*result), po(result_ptr) == 0,
    forall|k: int| 0 <= k < prod(result.shape@) ==> #[trigger] dok(old(mem).v(), *src, result.shape@, axis_stride as int, k),
@ens
    filled(old(mem).v(), final(mem).v(), bid(*result), dvals(old(mem).v(), *src, result.shape@, axis_stride as int), isz(*src), prod(result.shape@)),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*src); let ghost sh = result.shape@; let ghost st = axis_stride as int; let ghost s = dvals(m0, *src, sh, st); let ghost n = prod(sh); let ghost b = bid(*result);
    proof { lemma_pmax_le(sh, z); lemma_prod_pos(sh); lemma_pmax(sh); lemma_dsub(src.dtype); assert(n * 1 == n); assert(n <= n * z) by (nonlinear_arith) requires z >= 1, n >= 0; }
@before 0
    proof { lemma_zero_idx(out_indices@, sh); }
@inv 0
    invariant 0 <= __i0 <= __e0, __e0 == n, n == prod(sh), n > 0, sh == result.shape@, sh.len() == src.shape@.len(), out_shape@ == sh, wf(*src), live(m0, b), mok(m0, *src), z == isz(*src), z >= 1, ops_dt(ops) == src.dtype, b == bid(*result), bid(*src) != b, blen(b) == n * z, st == axis_stride, s == dvals(m0, *src, sh, st),
        pb(src_ptr) == bid(*src), po(src_ptr) == src.offset, pb(result_ptr) == b, po(result_ptr) == 0, n <= imax(), out_indices@ == unrmi(cyc(__i0 as int, n), sh), inb(out_indices@, sh),
        forall|k: int| 0 <= k < n ==> #[trigger] dok(m0, *src, sh, st, k),
        filled(m0, mem.v(), b, s, z, __i0 as int)
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof { lemma_step(i0, sh); lemma_unrmi_len(i0, sh); assert(dok(m0, *src, sh, st, i0)); lemma_ext_mono(src.shape@, src.strides@, 0, src.shape@.len() as int); assert(nonempty(src.shape@)) by { lemma_inb_box(unrmi(i0, sh), src.shape@); } assert(src.offset <= blen(bid(*src))); let ix = unrmi(i0, sh); lemma_inb_box(ix, src.shape@); lemma_acc(m0, *src, ix); assert(m1[bid(*src)] == m0[bid(*src)]); lemma_dsub(src.dtype);
        assert(s[i0] == dval(m0, *src, sh, st, i0)); lemma_fill_step(m0, m1, b, s, z, i0, s[i0]); }

@raw
/// n fewer along axis ax
pub open spec fn less(sh: Seq<usize>, ax: int, n: int) -> Seq<usize> { sh.update(ax, (sh[ax] - n) as usize) }
pub open spec fn up(ix: Seq<usize>, ax: int) -> Seq<usize> { ix.update(ax, (ix[ax] + 1) as usize) }
/// the elements (row-major) of the difference along ax of an array of shape sh with elements e
pub open spec fn dsq(e: Seq<Seq<u8>>, sh: Seq<usize>, d: DType, ax: int) -> Seq<Seq<u8>> {
    let sh1 = less(sh, ax, 1);
    Seq::new(prod(sh1) as nat, |k: int| { let ix = unrmi(k, sh1); dsub(d, e[rmi(up(ix, ax), sh)], e[rmi(ix, sh)]) })
}
/// ... taken n times
pub open spec fn dn(e: Seq<Seq<u8>>, sh: Seq<usize>, d: DType, ax: int, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { e } else { dn(dsq(e, sh, d, ax), less(sh, ax, 1), ddt(d), ax, n - 1) }
}
pub proof fn lemma_less(sh: Seq<usize>, ax: int, n: int, z: int)
    requires 0 <= ax < sh.len(), 0 <= n <= sh[ax], z >= 0, pmax(sh) * z <= imax()
    ensures pmax(less(sh, ax, n)) * z <= imax(), prod(less(sh, ax, n)) <= prod(sh), pmax(less(sh, ax, n)) <= pmax(sh), nonempty(less(sh, ax, n)) ==> nonempty(sh)
{
    let t = less(sh, ax, n);
    lemma_pmax_pt(t, sh); lemma_prod_pt(t, sh); lemma_pmax(sh);
    assert(pmax(t) * z <= pmax(sh) * z) by (nonlinear_arith) requires pmax(t) <= pmax(sh), z >= 0;
    if nonempty(t) { assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] sh[i]) > 0 by { assert(t[i] > 0); } }
}
pub proof fn lemma_pmax_pt(a: Seq<usize>, b: Seq<usize>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= b[i] ensures 1 <= pmax(a) <= pmax(b) decreases a.len()
{ lemma_pmax(a); if a.len() > 0 { let n = a.len() - 1; lemma_pmax_pt(a.drop_last(), b.drop_last()); assert(a[n] <= b[n]); let (p, q, x, y) = (pmax(a.drop_last()), pmax(b.drop_last()), max1(a[n]), max1(b[n])); assert(p * x <= q * y) by (nonlinear_arith) requires 1 <= p <= q, 1 <= x <= y; } }
pub proof fn lemma_prod_pt(a: Seq<usize>, b: Seq<usize>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= b[i] ensures 0 <= prod(a) <= prod(b) decreases a.len()
{ if a.len() > 0 { let n = a.len() - 1; lemma_prod_pt(a.drop_last(), b.drop_last()); assert(a[n] <= b[n]); let (p, q, x, y) = (prod(a.drop_last()), prod(b.drop_last()), a[n] as int, b[n] as int); assert(0 <= p * x <= q * y) by (nonlinear_arith) requires 0 <= p <= q, 0 <= x <= y; } }
/// the k-th pair of neighbours
pub proof fn lemma_pair(m: Map<int, Seq<u8>>, a: RumpyArray, ax: int, k: int)
    requires wf(a), mok(m, a), 0 <= ax < a.shape@.len(), a.shape@[ax] >= 1, 0 <= k < prod(less(a.shape@, ax, 1))
    ensures ({ let sh = less(a.shape@, ax, 1); let st = a.strides@[ax] as int; dok(m, a, sh, st, k) && dval(m, a, sh, st, k) == dsq(els(m, a), a.shape@, a.dtype, ax)[k] })
{
    let sh = less(a.shape@, ax, 1); let st = a.strides@[ax] as int; let ix = unrmi(k, sh); let jx = up(ix, ax);
    lemma_unrmi_inb(k, sh);
    assert forall|i: int| 0 <= i < ix.len() implies (#[trigger] ix[i]) < a.shape@[i] by { assert(ix[i] < sh[i]); }
    assert(ix[ax] < sh[ax]);
    assert forall|i: int| 0 <= i < jx.len() implies (#[trigger] jx[i]) < a.shape@[i] by { assert(ix[i] < sh[i]); }
    assert(inb(ix, a.shape@) && inb(jx, a.shape@));
    lemma_acc(m, a, ix); lemma_acc(m, a, jx); lemma_rmi_inv(ix, a.shape@); lemma_rmi_inv(jx, a.shape@); lemma_rmi_bound(ix, a.shape@); lemma_rmi_bound(jx, a.shape@);
    lemma_dot_up(ix, a.strides@, ax, ix.len() as int);
    assert(unrmi(rmi(ix, a.shape@), a.shape@) =~= ix); assert(unrmi(rmi(jx, a.shape@), a.shape@) =~= jx);
    assert(els(m, a)[rmi(ix, a.shape@)] == elem(m, a, ix)); assert(els(m, a)[rmi(jx, a.shape@)] == elem(m, a, jx));
}
pub proof fn lemma_dot_up(ix: Seq<usize>, st: Seq<isize>, ax: int, n: int)
    requires 0 <= ax < ix.len(), 0 <= n <= ix.len(), ix.len() == st.len(), ix[ax] < usize::MAX
    ensures dot(up(ix, ax), st, n) == dot(ix, st, n) + (if ax < n { st[ax] as int } else { 0 }) decreases n
{ if n > 0 { lemma_dot_up(ix, st, ax, n - 1); let y = up(ix, ax); if n - 1 == ax { assert((ix[ax] + 1) * (st[ax] as int) == ix[ax] * (st[ax] as int) + st[ax]) by (nonlinear_arith); } else { assert(y[n - 1] == ix[n - 1]); } } }
pub proof fn lemma_dvals(m: Map<int, Seq<u8>>, a: RumpyArray, ax: int)
    requires wf(a), mok(m, a), 0 <= ax < a.shape@.len(), a.shape@[ax] >= 1
    ensures ({ let sh = less(a.shape@, ax, 1); let st = a.strides@[ax] as int; dvals(m, a, sh, st) == dsq(els(m, a), a.shape@, a.dtype, ax) && forall|k: int| 0 <= k < prod(sh) ==> #[trigger] dok(m, a, sh, st, k) })
{
    let sh = less(a.shape@, ax, 1); let st = a.strides@[ax] as int;
    assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] dok(m, a, sh, st, k) by { lemma_pair(m, a, ax, k); }
    let x = dvals(m, a, sh, st); let y = dsq(els(m, a), a.shape@, a.dtype, ax); lemma_prod_nonneg(sh);
    assert(x.len() == prod(sh) && y.len() == prod(sh));
    assert forall|k: int| 0 <= k < x.len() implies #[trigger] x[k] == y[k] by { lemma_pair(m, a, ax, k); }
    assert(x =~= y);
}
/// nothing along another axis: no differences either
pub proof fn lemma_dn_empty(e: Seq<Seq<u8>>, sh: Seq<usize>, d: DType, ax: int, n: int)
    requires 0 <= ax < sh.len(), 1 <= n < sh[ax], prod(less(sh, ax, 1)) == 0
    ensures dn(e, sh, d, ax, n).len() == 0, prod(less(sh, ax, n)) == 0
    decreases n
{
    let s1 = less(sh, ax, 1); lemma_prod_pos(s1);
    let i = choose|i: int| 0 <= i < s1.len() && s1[i] == 0; assert(s1[ax] > 0); assert(i != ax);
    reveal_with_fuel(dn, 3);
    if n > 1 { let s2 = less(s1, ax, 1); assert(s2[i] == 0); lemma_prod_pos(s2); lemma_dn_empty(dsq(e, sh, d, ax), s1, ddt(d), ax, n - 1); assert(less(s1, ax, n - 1) =~= less(sh, ax, n)); }
    assert(less(sh, ax, n)[i] == 0); lemma_prod_pos(less(sh, ax, n));
}
/// a new array is laid out in whole elements
pub proof fn lemma_fresh_al(r: RumpyArray, m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, sh: Seq<usize>, d: DType)
    requires fresh(r, m0, m1, sh, d) ensures aligned(r)
{ let z = isz(r); lemma_dt(d); assert forall|i: int| 0 <= i < r.strides@.len() implies (#[trigger] r.strides@[i]) as int % z == 0 by { let q = suf(r.shape@, i + 1); assert(r.strides@[i] as int == z * q); assert(z * q == q * z) by (nonlinear_arith); lemma_fundamental_div_mod_converse(z * q, z, q, 0); } }
pub proof fn lemma_no_els(m: Map<int, Seq<u8>>, a: RumpyArray, e: Seq<Seq<u8>>, sh: Seq<usize>, d: DType, ax: int)
    requires prod(a.shape@) == 0, a.shape@ == less(sh, ax, 1) ensures els(m, a) == dsq(e, sh, d, ax)
{ assert(els(m, a) =~= dsq(e, sh, d, ax)); }
/// the packed row: element k is chunk k
pub proof fn lemma_line(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires wf(a), mok(m, a), a.shape@.len() == 1, a.flags.c, 0 <= k < a.shape@[0], a.shape@[0] >= 1
    ensures chunk(m[bid(a)], a.offset as int, k, isz(a)) == els(m, a)[k], prod(a.shape@) == a.shape@[0], a.offset + a.shape@[0] * isz(a) <= blen(bid(a)), unrmi(k, a.shape@) == seq![k as usize]
{
    let n = a.shape@[0] as int; lemma_dim_le(a.shape@, isz(a), 0); lemma_row1(n, isz(a)); assert(a.shape@ =~= seq![a.shape@[0]]);
    assert(inb(ix1(k), a.shape@) && rmi(ix1(k), a.shape@) == k); lemma_rmi_inv(ix1(k), a.shape@); assert(unrmi(k, a.shape@) =~= ix1(k)); lemma_addr_c(a, ix1(k)); assert(isz(a) * k == k * isz(a)) by (nonlinear_arith);
    assert(inb(ix1(n - 1), a.shape@) && rmi(ix1(n - 1), a.shape@) == n - 1); lemma_addr_c(a, ix1(n - 1)); lemma_acc(m, a, ix1(n - 1)); assert(isz(a) * (n - 1) + isz(a) == n * isz(a)) by (nonlinear_arith);
}
pub proof fn lemma_lines(m: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray, p: VPtr, q: VPtr)
    requires wf(a), mok(m, a), a.shape@.len() == 1, a.flags.c, a.shape@[0] >= 2, r.shape@ == less(a.shape@, 0, 1), pb(p) == bid(a), po(p) == a.offset, pb(q) == bid(r), po(q) == 0, diffed(m, m1, a.dtype, p, q, prod(r.shape@))
    ensures filled(m, m1, bid(r), dsq(els(m, a), a.shape@, a.dtype, 0), isz(a), prod(r.shape@)), prod(r.shape@) == a.shape@[0] - 1
{
    let s = dsq(els(m, a), a.shape@, a.dtype, 0); let z = isz(a); let n = a.shape@[0] - 1; lemma_dim_le(a.shape@, z, 0); lemma_row1(n, z); assert(r.shape@ =~= seq![n as usize]);
    assert forall|k: int| 0 <= k < n implies #[trigger] chunk(m1[bid(r)], 0, k, z) == s[k] by {
        lemma_line(m, a, k); lemma_line(m, a, k + 1);
        assert(chunk(m1[pb(q)], po(q), k, z) == dsub(a.dtype, chunk(m[pb(p)], po(p), k + 1, z), chunk(m[pb(p)], po(p), k, z)));
        assert(inb(ix1(k), r.shape@) && rmi(ix1(k), r.shape@) == k); lemma_rmi_inv(ix1(k), r.shape@); assert(unrmi(k, r.shape@) =~= ix1(k));
        assert(up(ix1(k), 0) =~= ix1(k + 1)); lemma_row1(a.shape@[0] as int, z); assert(a.shape@ =~= seq![a.shape@[0]]); assert(rmi(ix1(k), a.shape@) == k && rmi(ix1(k + 1), a.shape@) == k + 1) by { assert(inb(ix1(k), a.shape@)); assert(inb(ix1(k + 1), a.shape@)); }
    }
}
@endraw

@fn src/ops/array_methods/cumulative.rs RumpyArray::diff flags=ptrs memself mem=zeros,copy,diff_1d_contiguous,diff_strided,diff rename=buffer_mut:vx_buffer
@props P10
@req
    wf(*self), mok(old(mem).v(), *self), aligned(*self), axis < self.shape@.len(), n <= imax(),
@ens
    ({ let m0 = old(mem).v(); let ax = axis as int; let l = self.shape@[ax]; let k = if n < l { n as int } else { l as int };
        fresh(r, m0, final(mem).v(), less(self.shape@, ax, k), if n == 0 { self.dtype } else { ddt(self.dtype) })
        && (n < l ==> els(final(mem).v(), r) == dn(els(m0, *self), self.shape@, self.dtype, ax, n as int)) }),
@dec
    n
@start
    let ghost m0 = mem.v(); let ghost ax = axis as int; let ghost z = isz(*self); let ghost sh = self.shape@; let ghost d = self.dtype;
    proof { lemma_dt(d); lemma_dsub(d); lemma_dt(ddt(d)); lemma_pmax_le(sh, z); lemma_dim_le(sh, z, ax); lemma_less(sh, ax, sh[ax] as int, z); if sh[ax] >= 1 { lemma_less(sh, ax, 1, z); } assert(less(sh, ax, 0) =~= sh); reveal_with_fuel(dn, 3); }
@at /new_shape, out_dtype, Tracked/
    proof { assert(new_shape@ =~= less(sh, ax, sh[ax] as int)); }
@at /let mut result =/
    let ghost sh1 = less(sh, ax, 1);
    proof { assert(new_shape@ =~= sh1); lemma_pmax_le(sh1, z); lemma_less(sh1, ax, n - 1, z); assert(less(sh1, ax, n - 1) =~= less(sh, ax, n as int)); lemma_dvals(m0, *self, ax); }
@at /new_shape, result.dtype/
    proof { assert(new_shape@ =~= less(sh, ax, n as int)); lemma_dn_empty(els(m0, *self), sh, d, ax, n as int); lemma_prod_pos(sh1); }
@at /let result_buffer/
    let ghost mz = mem.v();
    proof { lemma_prod_pos(sh1); assert(mz[bid(*self)] == m0[bid(*self)]); lemma_els_keep(m0, mz, *self); lemma_dvals(mz, *self, ax); lemma_fresh_al(result, m0, mz, sh1, ddt(d));
        if sh.len() == 1 && self.flags.c { lemma_row1(sh1[0] as int, z); assert(sh1 =~= seq![sh1[0]]); lemma_line(m0, *self, 0); assert(prod(sh1) == sh[0] - 1); } }
@at /^ *if n > 1/
    let ghost m1 = mem.v();
    proof { if sh.len() == 1 && self.flags.c { lemma_lines(mz, m1, *self, result, src_ptr, result_ptr); } lemma_fill_done(result, m0, mz, m1, sh1, ddt(d), dsq(els(m0, *self), sh, d, ax)); }
