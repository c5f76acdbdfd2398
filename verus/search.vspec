@unit search
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@include viewmaps.rs
@include dispmem.rs
@import iter StridedIter::new StridedIter::next
@import core RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous
@import movers RumpyArray::zeros RumpyArray::dtype RumpyArray::data_ptr
@import dispatch RumpyArray::iter_offsets
@import copy RumpyArray::astype

@raw
impl RumpyArray {
    /// repo: buffer_mut
    pub fn vx_buffer(&self) -> (r: &Arc<ArrayBuffer>) ensures *r == self.buffer { &self.buffer }
}
/// a descriptor is determined by its kind
#[verifier::external_body]
pub proof fn lemma_kind(a: DType, b: DType) ensures dt_kind(a) == dt_kind(b) ==> a == b { unimplemented!() }
pub uninterp spec fn promo(a: DType, b: DType) -> DType;
#[verifier::external_body]
pub fn promote_dtype(a: &DType, b: &DType) -> (r: DType) ensures r == promo(*a, *b) { unimplemented!() }
/// the order of two elements, a function of their bytes (per element type: Kani)
pub uninterp spec fn ordb(d: DType, x: Seq<u8>, y: Seq<u8>) -> std::cmp::Ordering;
impl Ops {
    #[verifier::external_body]
    pub fn compare_elements(&self, p: VPtr, i: isize, q: VPtr, j: isize, Tracked(mem): Tracked<&mut Mem>) -> (r: std::cmp::Ordering)
        requires acc(old(mem).v(), pb(p), po(p) + i, dt_size(ops_dt(*self))), acc(old(mem).v(), pb(q), po(q) + j, dt_size(ops_dt(*self)))
        ensures final(mem).v() == old(mem).v(), r == ordb(ops_dt(*self), get(old(mem).v()[pb(p)], po(p) + i, dt_size(ops_dt(*self))), get(old(mem).v()[pb(q)], po(q) + j, dt_size(ops_dt(*self))))
    { unimplemented!() }
}
/// std: == on Ordering is equality
#[verifier::external_body]
pub proof fn lemma_ord() ensures <std::cmp::Ordering as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(), forall|a: std::cmp::Ordering, b: std::cmp::Ordering| #[trigger] <std::cmp::Ordering as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&a, &b) == (a == b) { unimplemented!() }
/// x lies before the insertion position of y on the requested side
pub open spec fn before(d: DType, right: bool, x: Seq<u8>, y: Seq<u8>) -> bool { if right { ordb(d, x, y) != std::cmp::Ordering::Greater } else { ordb(d, x, y) == std::cmp::Ordering::Less } }
/// sorted as far as y is concerned: once an element is not before y, none after it is
pub open spec fn parted(d: DType, right: bool, s: Seq<Seq<u8>>, y: Seq<u8>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && before(d, right, #[trigger] s[j], y) ==> before(d, right, #[trigger] s[i], y) }
pub open spec fn inspos(d: DType, right: bool, s: Seq<Seq<u8>>, y: Seq<u8>, p: int) -> bool {
    0 <= p <= s.len() && (parted(d, right, s, y) ==> forall|j: int| 0 <= j < s.len() ==> (j < p <==> before(d, right, #[trigger] s[j], y)))
}
pub proof fn lemma_lin(m: Map<int, Seq<u8>>, a: RumpyArray, j: int)
    requires wf(a), mok(m, a), a.shape@.len() == 1, 0 <= j < a.shape@[0]
    ensures ({ let st = if a.flags.c { isz(a) } else { a.strides@[0] as int }; acc(m, bid(a), a.offset + j * st, isz(a)) && get(m[bid(a)], a.offset + j * st, isz(a)) == nth(m, a, j) && prod(a.shape@) == a.shape@[0] && -imax() <= j * st <= imax() && j <= imax() })
{
    let sh = a.shape@; let i = ix1(j); lemma_dim_le(sh, isz(a), 0); lemma_row1(sh[0] as int, 1); assert(sh =~= seq![sh[0]]); assert(inb(i, sh)); lemma_rmi_inv(i, sh); assert(unrmi(j, sh) =~= i); lemma_acc(m, a, i);
    reveal_with_fuel(dot, 2); assert(addr(a, i) == a.offset + j * a.strides@[0]);
    if a.flags.c { lemma_addr_c(a, i); assert(isz(a) * j == j * isz(a)) by (nonlinear_arith); }
    let z0 = ix1(0); assert(inb(z0, sh)); lemma_inb_box(z0, sh); lemma_dot_range(z0, sh, a.strides@, 1); assert(0 * (a.strides@[0] as int) == 0); assert(dot(z0, a.strides@, 1) == 0);
    assert(a.offset <= imax()); lemma_addr_ok(a, i);
    let st = if a.flags.c { isz(a) } else { a.strides@[0] as int };
    assert(addr(a, i) == a.offset + j * st); assert(-imax() <= j * st <= imax());
    assert(nth(m, a, j) == elem(m, a, i)); assert(prod(sh) == sh[0]); assert(j <= imax());
}
@endraw

@fn src/ops/indexing.rs searchsorted flags=ptrs memself mem=zeros,astype,compare_elements rename=buffer_mut:vx_buffer
@props P11
@req
    wf(*a), mok(old(mem).v(), *a), aligned(*a), nonempty(a.shape@), wf(*v), mok(old(mem).v(), *v), aligned(*v),
    pmax(a.shape@) * dt_size(promo(a.dtype, v.dtype)) <= imax(), pmax(v.shape@) * dt_size(promo(a.dtype, v.dtype)) <= imax(), pmax(v.shape@) * 8 <= imax(),
@ens
    r is None <==> a.shape@.len() != 1,
    r is Some ==> ({ let d = promo(a.dtype, v.dtype); fresh(r->0, old(mem).v(), final(mem).v(), v.shape@, dt_i64())
        && forall|k: int| 0 <= k < prod(v.shape@) ==> inspos(d, side@ == "right"@, convs(old(mem).v(), *a, d), convs(old(mem).v(), *v, d)[k], #[trigger] tv::<i64>(final(mem).v(), r->0, k) as int) }),
@start
    let ghost m0 = mem.v(); let ghost d = promo(a.dtype, v.dtype); let ghost rt = side@ == "right"@; let ghost A = convs(m0, *a, d); let ghost V = convs(m0, *v, d); let ghost n = prod(v.shape@);
    proof { lemma_dt(a.dtype); lemma_dt(v.dtype); lemma_dt(d); lemma_pod(); lemma_prod_pos(v.shape@); lemma_pmax(v.shape@); lemma_pmax(a.shape@); lemma_pmax_le(v.shape@, 8); lemma_pmax_le(a.shape@, isz(*a)); }
@at /let result_buffer/
    let ghost mz = mem.v();
@at /let v_conv/
    let ghost ma = mem.v();
@at /let a_ptr/
    let ghost mc = mem.v(); let ghost b = bid(result);
    proof {
        assert(frame(m0, mc) && mc.dom().contains(b) && mc[b] == mz[b]);
        assert(mc[bid(*a)] == m0[bid(*a)]); assert(mc[bid(*v)] == m0[bid(*v)]);
        lemma_kind(a.dtype, d); lemma_kind(v.dtype, d);
        lemma_els_keep(ma, mc, *a_ref); if a.dtype == d { lemma_els_keep(m0, mc, *a); assert(els(m0, *a) =~= A); }
        if v.dtype == d { lemma_els_keep(m0, mc, *v); assert(els(m0, *v) =~= V); }
        assert(wf(*a_ref) && mok(mc, *a_ref) && a_ref.shape@ == a.shape@ && a_ref.dtype == d && els(mc, *a_ref) == A && bid(*a_ref) != b);
        assert(wf(*v_ref) && mok(mc, *v_ref) && v_ref.shape@ == v.shape@ && v_ref.dtype == d && els(mc, *v_ref) == V && bid(*v_ref) != b);
        lemma_wrote0::<i64>(mc, b, 0); lemma_lin(mc, *a_ref, 0);
    }
    let ghost mut w: Seq<i64> = Seq::empty();
@inv 0
    invariant m0 == old(mem).v(), d == promo(a.dtype, v.dtype), A == convs(m0, *a, d), n == prod(v.shape@), 0 < n <= imax(), wf(*a_ref), mok(mc, *a_ref), a_ref.shape@ == a.shape@, a_ref.dtype == d, els(mc, *a_ref) == A, bid(*a_ref) != b,
        wf(*v_ref), mok(mc, *v_ref), v_ref.shape@ == v.shape@, v_ref.dtype == d, els(mc, *v_ref) == V, V.len() == n, bid(*v_ref) != b, a.shape@.len() == 1, V == convs(m0, *v, d), nonempty(a.shape@), a_len == a.shape@[0], A.len() == a_len, a_len <= imax(), use_left == !rt,
        fresh(result, m0, mz, v.shape@, dt_i64()), b == bid(result), mc[b] == mz[b], live(mc, b), n * 8 == blen(b), pb(a_ptr) == bid(*a_ref), po(a_ptr) == a_ref.offset, pb(v_ptr) == bid(*v_ref), po(v_ptr) == v_ref.offset, tb(result_ptr) == b, to(result_ptr) == 0, ops_dt(a_ops) == d,
        a_stride as int == (if a_ref.flags.c { isz(*a_ref) } else { a_ref.strides@[0] as int }), tsz::<i64>() == 8,
        si_wf(__it0), __it0.shape@ == v_ref.shape@, __it0.strides@ == v_ref.strides@, si_base(__it0) == 0, __i0 == si_pos(__it0), __i0 <= n,
        w.len() == __i0, wrote(mc, mem.v(), b, 0, w), forall|k: int| 0 <= k < __i0 ==> inspos(d, rt, A, V[k], #[trigger] w[k] as int),
    ensures __i0 == n,
    decreases n - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v(); let ghost y = if i0 < n { V[i0] } else { Seq::empty() };
    proof { assert(m1[bid(*a_ref)] == mc[bid(*a_ref)]); assert(m1[bid(*v_ref)] == mc[bid(*v_ref)]); if i0 < n { lemma_at(mc, *v_ref, i0); assert(m1[bid(*v_ref)] == mc[bid(*v_ref)]); assert(els(mc, *v_ref)[i0] == y); } }
@inv 1
    invariant 0 <= lo <= hi <= a_len, a_len == a.shape@[0], a_len == A.len(), a_len <= imax(), mem.v() == m1, m1[bid(*a_ref)] == mc[bid(*a_ref)], m1[bid(*v_ref)] == mc[bid(*v_ref)], mok(m1, *a_ref), mok(m1, *v_ref), wf(*a_ref), mok(mc, *a_ref), a_ref.shape@ == a.shape@, a_ref.shape@.len() == 1, a_ref.dtype == d, els(mc, *a_ref) == A,
        a_stride as int == (if a_ref.flags.c { isz(*a_ref) } else { a_ref.strides@[0] as int }), pb(a_ptr) == bid(*a_ref), po(a_ptr) == a_ref.offset, ops_dt(a_ops) == d, use_left == !rt,
        acc(m1, pb(v_ptr), po(v_ptr) + v_offset, dt_size(d)), y == get(m1[pb(v_ptr)], po(v_ptr) + v_offset, dt_size(d)),
        parted(d, rt, A, y) ==> (forall|j: int| 0 <= j < lo ==> before(d, rt, #[trigger] A[j], y)) && (forall|j: int| hi <= j < a_len ==> !before(d, rt, #[trigger] A[j], y)),
    decreases hi - lo
@body 1
    proof { lemma_ord(); let mi = lo + (hi - lo) / 2; lemma_lin(m1, *a_ref, mi); lemma_els_keep(mc, m1, *a_ref); assert(els(m1, *a_ref)[mi] == A[mi]); }
@at /if go_right/
    proof { assert(cmp == ordb(d, A[mid as int], y)); assert(go_right == before(d, rt, A[mid as int], y)); }
@at /vx_write.__w0/
    proof { lemma_wrote_step::<i64>(mc, mem.v(), b, 0, w, __w0, n); lemma_chunk_bound(i0, n, 8); assert(inspos(d, rt, A, y, __w0 as int)); w = w.push(__w0); }
@at /^Some.result/
    proof { assert(fresh(result, m0, mc, v.shape@, dt_i64())); lemma_done::<i64>(result, m0, mc, mem.v(), v.shape@, dt_i64(), w);
        assert forall|k: int| 0 <= k < n implies inspos(d, rt, A, V[k], #[trigger] tv::<i64>(mem.v(), result, k) as int) by { assert(tvs::<i64>(mem.v(), result)[k] == w[k]); assert(inspos(d, rt, A, V[k], w[k] as int)); } }
