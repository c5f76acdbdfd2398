@unit puts
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@include viewmaps.rs
@include gath.rs
@include gatherix.rs
@include storing.rs
@include cats.rs
@import iter StridedIter::new StridedIter::next
@import core compute_c_strides increment_indices RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous RumpyArray::byte_offset_for
@import movers RumpyArray::zeros RumpyArray::dtype RumpyArray::data_ptr RumpyArray::data_ptr_mut
@import dispatch RumpyArray::iter_offsets
@import shapes normalize_index
@import copy RumpyArray::astype

@raw
/// what position k holds after the first n of the stores v(i) at position ix(i), in order
pub open spec fn putv(m: Map<int, Seq<u8>>, a: RumpyArray, ix: spec_fn(int) -> int, v: spec_fn(int) -> Seq<u8>, n: int, k: int) -> Seq<u8> decreases n {
    if n <= 0 { nth(m, a, k) } else if ix(n - 1) == k { v(n - 1) } else { putv(m, a, ix, v, n - 1, k) }
}
/// n stores were made into a: nothing but its elements changed
pub open spec fn punched(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, a: RumpyArray, ix: spec_fn(int) -> int, v: spec_fn(int) -> Seq<u8>, n: int) -> bool {
    &&& forall|c: int| #[trigger] m0.dom().contains(c) ==> m1.dom().contains(c) && m1[c].len() == m0[c].len() && (c != bid(a) ==> m1[c] == m0[c])
    &&& forall|o: int| 0 <= o < m0[bid(a)].len() && !hit(a, prod(a.shape@), o) ==> #[trigger] m1[bid(a)][o] == m0[bid(a)][o]
    &&& apart(a) ==> forall|k: int| 0 <= k < prod(a.shape@) ==> #[trigger] nth(m1, a, k) == putv(m0, a, ix, v, n, k)
}
pub proof fn lemma_punch(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, a: RumpyArray, ix: spec_fn(int) -> int, v: spec_fn(int) -> Seq<u8>, n: int)
    requires punched(m0, m1, a, ix, v, n), wf(a), mok(m0, a), 0 <= n, 0 <= ix(n) < prod(a.shape@), v(n).len() == isz(a)
    ensures punched(m0, m1.insert(bid(a), bput(m1[bid(a)], pos(a, ix(n)), v(n))), a, ix, v, n + 1), acc(m1, bid(a), pos(a, ix(n)), isz(a)), inb(unrmi(ix(n), a.shape@), a.shape@), nonempty(a.shape@), mok(m1, a)
{
    let z = isz(a); let b = bid(a); let p = ix(n); let m2 = m1.insert(b, bput(m1[b], pos(a, p), v(n))); let N = prod(a.shape@);
    lemma_unrmi_inb(p, a.shape@); lemma_acc(m0, a, unrmi(p, a.shape@)); lemma_put(m1[b], pos(a, p), v(n), pos(a, p), z);
    assert forall|o: int| 0 <= o < m0[b].len() && !hit(a, N, o) implies #[trigger] m2[b][o] == m0[b][o] by { assert(!(pos(a, p) <= o < pos(a, p) + z)); assert(m1[b][o] == m0[b][o]); }
    if apart(a) { assert forall|k: int| 0 <= k < N implies #[trigger] nth(m2, a, k) == putv(m0, a, ix, v, n + 1, k) by {
        lemma_unrmi_inb(k, a.shape@); lemma_acc(m0, a, unrmi(k, a.shape@));
        if k != p { assert(pos(a, k) + z <= pos(a, p) || pos(a, p) + z <= pos(a, k)); lemma_put(m1[b], pos(a, p), v(n), pos(a, k), z); assert(nth(m1, a, k) == putv(m0, a, ix, v, n, k)); } } }
}
/// one digit of a position
pub proof fn lemma_digit(k: int, sh: Seq<usize>, d: int)
    requires 0 < d <= sh.len(), 0 <= k < prod(sh.take(d))
    ensures sh[d - 1] > 0, ({ let l = sh[d - 1] as int; 0 <= k / l < prod(sh.take(d - 1)) && 0 <= k % l < l && unrmi(k, sh.take(d)) == unrmi(k / l, sh.take(d - 1)).push((k % l) as usize) && unrmi(k / l, sh.take(d - 1)).len() == d - 1 })
{
    let t = sh.take(d); assert(t.drop_last() =~= sh.take(d - 1)); assert(t.last() == sh[d - 1]); let l = sh[d - 1] as int; let P = prod(sh.take(d - 1));
    lemma_prod_nonneg(sh.take(d - 1)); assert(prod(t) == P * l); assert(l > 0) by { if l == 0 { assert(P * 0 == 0); } }
    lemma_fundamental_div_mod(k, l); lemma_mod_bound(k, l); lemma_unrmi_len(k / l, sh.take(d - 1)); lemma_div_pos_is_pos(k, l);
    assert(k / l < P) by (nonlinear_arith) requires k < P * l, k == l * (k / l) + k % l, k % l >= 0, l > 0;
}
@endraw

@fn src/ops/indexing.rs put flags=ptrs memself mem=copy_element rename=buffer_mut:vx_buffer
@props P13 P18
@req
    wf(*old(arr)), mok(old(mem).v(), *old(arr)), wf(*values), mok(old(mem).v(), *values), values.flags.c, values.dtype == old(arr).dtype, bid(*values) != bid(*old(arr)),
@ens
    *final(arr) == *old(arr),
    ({ let n = prod(old(arr).shape@); let w = prod(values.shape@); let m0 = old(mem).v(); let all = forall|i: int| 0 <= i < indices@.len() ==> -n <= #[trigger] indices@[i] < n;
        (r is Some <==> indices@.len() == 0 || w == 0 || all)
        && (r is None || indices@.len() == 0 || w == 0 ==> final(mem).v() == m0)
        && (r is Some && w > 0 ==> punched(m0, final(mem).v(), *old(arr), |i: int| norm(indices@[i], n), |i: int| nth(m0, *values, i % w), indices@.len() as int)) }),
@start
    let ghost m0 = mem.v(); let ghost a0 = *arr; let ghost sh = arr.shape@; let ghost z = isz(a0); let ghost n = prod(sh); let ghost w = prod(values.shape@); let ghost ix = |i: int| norm(indices@[i], n); let ghost vf = |i: int| nth(m0, *values, i % w);
    proof { lemma_dt(a0.dtype); lemma_prod_pos(sh); lemma_pmax(sh); lemma_pmax_le(sh, z); lemma_prod_pos(values.shape@); lemma_pmax(values.shape@); lemma_pmax_le(values.shape@, z); }
@inv 0
    invariant_except_break __v0@.len() == __i0, !__none0, forall|i: int| 0 <= i < __i0 ==> -n <= #[trigger] indices@[i] < n && __v0@[i] as int == norm(indices@[i], n),
    invariant __i0 <= indices@.len(), size == n, n <= imax(),
    ensures __none0 ==> (exists|i: int| 0 <= i < indices@.len() && !(-n <= #[trigger] indices@[i] < n)), !__none0 ==> __i0 == indices@.len() && __v0@.len() == indices@.len() && forall|i: int| 0 <= i < indices@.len() ==> -n <= #[trigger] indices@[i] < n && __v0@[i] as int == norm(indices@[i], n),
    decreases indices@.len() - __i0
@at /let ndim = arr/
    proof { assert(-n <= indices@[0] < n); assert(n > 0); }
@inv 1
    invariant __i1 <= normalized@.len(), normalized@.len() == indices@.len(), forall|i: int| 0 <= i < indices@.len() ==> -n <= #[trigger] indices@[i] < n && normalized@[i] as int == norm(indices@[i], n), *arr == a0, sh == a0.shape@, z == isz(a0), z >= 1, n == prod(sh), n > 0, wf(a0), mok(m0, a0), wf(*values), mok(m0, *values), values.flags.c, values.dtype == a0.dtype, dtype == a0.dtype, bid(*values) != bid(a0),
        w == prod(values.shape@), w > 0, values_len == w, itemsize as int == z, w * z <= imax(), nonempty(values.shape@), nonempty(sh), ndim == sh.len(), shape@ == sh, pb(ptr) == bid(a0), po(ptr) == a0.offset, ix == (|i: int| norm(indices@[i], n)), vf == (|i: int| nth(m0, *values, i % w)),
        punched(m0, mem.v(), a0, ix, vf, __i1 as int)
    decreases normalized@.len() - __i1
@body 1
    let ghost i0 = __i1 as int; let ghost m1 = mem.v();
    proof { assert(-n <= indices@[i0] < n); lemma_mod_bound(i0, w); let q = i0 % w; lemma_unrmi_inb(q, values.shape@); lemma_acc(m0, *values, unrmi(q, values.shape@)); lemma_addr_c(*values, unrmi(q, values.shape@)); assert(z * q == q * z) by (nonlinear_arith);
        assert(0 <= q * z && q * z + z <= w * z) by (nonlinear_arith) requires 0 <= q < w, z >= 1; assert(rmi(unrmi(q, values.shape@), values.shape@) == q) by { lemma_step(q, values.shape@); }
        lemma_punch(m0, m1, a0, ix, vf, i0); assert(m1[bid(*values)] == m0[bid(*values)]); }
@before 2
    let ghost F = flat_idx as int; let ghost U = unrmi(F, sh);
    proof { assert(sh.take(ndim as int) =~= sh); assert(indices_nd@.skip(ndim as int) =~= Seq::<usize>::empty()); assert(U + Seq::<usize>::empty() =~= U); }
@inv 2
    invariant __e2 == 0, __i2 <= ndim, ndim == sh.len(), shape@ == sh, indices_nd@.len() == ndim, 0 <= remaining < prod(sh.take(__i2 as int)), U == unrmi(remaining as int, sh.take(__i2 as int)) + indices_nd@.skip(__i2 as int)
    decreases __i2
@body 2
    let ghost r0 = remaining as int; let ghost d0 = __i2 as int; let ghost b0 = indices_nd@;
    proof { lemma_digit(r0, sh, d0); }
@end 2
    proof { assert(indices_nd@ =~= b0.update(d0 - 1, (r0 % (sh[d0 - 1] as int)) as usize)); let h = unrmi(r0 / (sh[d0 - 1] as int), sh.take(d0 - 1)); let t = (r0 % (sh[d0 - 1] as int)) as usize;
        assert(indices_nd@.skip(d0 - 1) =~= seq![t] + b0.skip(d0)); assert(h.push(t) + b0.skip(d0) =~= h + indices_nd@.skip(d0 - 1)); }
@after 2
    proof { assert(sh.take(0) =~= Seq::<usize>::empty()); assert(indices_nd@.skip(0) =~= indices_nd@); assert(unrmi(remaining as int, sh.take(0)) =~= Seq::<usize>::empty()); assert(U =~= indices_nd@); lemma_inb_box(U, sh); lemma_acc(m0, a0, U); assert(0 * z == 0); }

@raw
pub proof fn lemma_putv(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, a: RumpyArray, ix: spec_fn(int) -> int, v: spec_fn(int) -> Seq<u8>, n: int, k: int)
    requires m1[bid(a)] == m0[bid(a)] ensures putv(m1, a, ix, v, n, k) == putv(m0, a, ix, v, n, k) decreases n
{ if n > 0 { lemma_putv(m0, m1, a, ix, v, n - 1, k); } }
/// stores made after other buffers were added
pub proof fn lemma_punched_from(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, m2: Map<int, Seq<u8>>, a: RumpyArray, ix: spec_fn(int) -> int, v: spec_fn(int) -> Seq<u8>, n: int)
    requires punched(m1, m2, a, ix, v, n), frame(m0, m1), mok(m0, a) ensures punched(m0, m2, a, ix, v, n)
{
    assert(m1[bid(a)] == m0[bid(a)]);
    if apart(a) { assert forall|k: int| 0 <= k < prod(a.shape@) implies #[trigger] nth(m2, a, k) == putv(m0, a, ix, v, n, k) by { lemma_putv(m0, m1, a, ix, v, n, k); assert(nth(m2, a, k) == putv(m1, a, ix, v, n, k)); } }
}
/// the iterator stands before element k of a
pub open spec fn at(it: StridedIter, a: RumpyArray, k: int) -> bool { si_wf(it) && it.shape@ == a.shape@ && it.strides@ == a.strides@ && si_base(it) == 0 && k == si_pos(it) }
/// position in a that element k of an index array names
pub open spec fn lane_ix(m: Map<int, Seq<u8>>, a: Seq<usize>, x: RumpyArray, ax: int) -> spec_fn(int) -> int { |k: int| rmi(m_along(m, x, ax, a[ax] as int)(unrmi(k, x.shape@)), a) }
@endraw

@fn src/ops/indexing.rs put_along_axis flags=ptrs memself mem=astype,read_i64,copy_element
@props P13 P18
@req
    wf(*old(arr)), mok(old(mem).v(), *old(arr)), wf(*indices), mok(old(mem).v(), *indices), wf(*values), mok(old(mem).v(), *values), aligned(*values), ptr_ok(*old(arr)), ptr_ok(*indices), pmax(values.shape@) * isz(*old(arr)) <= imax(),
@ens
    *final(arr) == *old(arr),
    ({ let m0 = old(mem).v(); let a = *old(arr); let ax = axis as int;
        (r is Some <==> lanes(a.shape@, indices.shape@, ax) && indices.shape@ == values.shape@ && in_range(m0, *indices, a.shape@[ax] as int))
        && (r is None ==> frame(m0, final(mem).v()))
        && (r is Some ==> punched(m0, final(mem).v(), a, lane_ix(m0, a.shape@, *indices, ax), |k: int| convs(m0, *values, a.dtype)[k], prod(indices.shape@))) }),
@start
    let ghost m0 = mem.v(); let ghost a0 = *arr; let ghost z = isz(a0); let ghost ish = indices.shape@; let ghost N = prod(ish); let ghost ax = axis as int; let ghost xv = *values;
    proof { lemma_dt(a0.dtype); lemma_dt(indices.dtype); lemma_pmax_le(values.shape@, z); lemma_pmax_le(a0.shape@, z); lemma_pmax_le(ish, isz(*indices)); lemma_pmax(ish); lemma_prod_pos(ish); lemma_pmax(a0.shape@); }
@inv 0
    invariant __i0 <= __e0, __e0 == arr.shape@.len(), *arr == a0, mem.v() == m0, m0 == old(mem).v(), arr.shape@.len() == indices.shape@.len(), axis < arr.shape@.len(), forall|i: int| 0 <= i < __i0 && i != axis ==> #[trigger] arr.shape@[i] == indices.shape@[i]
    decreases __e0 - __i0
@body 0
    proof { if lanes(arr.shape@, indices.shape@, axis as int) { assert(__i0 != axis ==> arr.shape@[__i0 as int] == indices.shape@[__i0 as int]); } }
@at /let axis_len/
    let ghost al = a0.shape@[ax] as int; let ghost sv = convs(m0, xv, a0.dtype); let ghost ix = lane_ix(m0, a0.shape@, *indices, ax); let ghost vf = |k: int| sv[k]; let ghost f = m_along(m0, *indices, ax, al);
    proof { lemma_dim_le(a0.shape@, z, ax); }
@at /let val_ptr/
    let ghost m1 = mem.v();
    proof { lemma_ival_keep(m0, m1, *indices, al); assert(m1[bid(a0)] == m0[bid(a0)]); }
@inv 1
    invariant_except_break __v1@.len() == __i1, !__none1, forall|k: int| 0 <= k < __i1 ==> -al <= #[trigger] ival(m0, *indices, k) < al && __v1@[k] as int == norm(ival(m0, *indices, k), al), at(__it1, *indices, __i1 as int)
    invariant wf(*indices), ish == indices.shape@, mok(m0, *indices), mok(m1, *indices), mem.v() == m1, m1[bid(*indices)] == m0[bid(*indices)], N == prod(indices.shape@), N <= imax(), pb(idx_ptr) == bid(*indices), po(idx_ptr) == indices.offset, ops_dt(idx_ops) == indices.dtype, axis_len == al, 0 <= al <= imax(), __i1 <= N,
    ensures __none1 ==> !in_range(m0, *indices, al), !__none1 ==> __v1@.len() == N && forall|k: int| 0 <= k < N ==> -al <= #[trigger] ival(m0, *indices, k) < al && __v1@[k] as int == norm(ival(m0, *indices, k), al)
    decreases N - __i1
@body 1
    let ghost i0 = __i1 as int;
    proof { if i0 < N { lemma_unrmi_inb(0, ish); lemma_at(m0, *indices, i0); lemma_at(m1, *indices, i0); assert(nth(m1, *indices, i0) == nth(m0, *indices, i0)); assert(in_range(m0, *indices, al) ==> -al <= ival(m0, *indices, i0) < al); } }
@before 2
    proof { if N > 0 { lemma_unrmi_inb(0, ish); lemma_zero_idx(idx_indices@, ish); } }
@inv 2
    invariant __i2 <= targets@.len(), targets@.len() == N, N == prod(ish), ish == indices.shape@, *arr == a0, m0 == old(mem).v(), wf(a0), mok(m0, a0), mok(m1, a0), frame(m0, m1), fresh(values, m0, m1, ish, a0.dtype), els(m1, values) == sv, sv.len() == N, z == isz(a0), z >= 1, axis < a0.shape@.len(), ax == axis, al == a0.shape@[ax], lanes(a0.shape@, ish, ax),
        forall|k: int| 0 <= k < N ==> -al <= #[trigger] ival(m0, *indices, k) < al && targets@[k] as int == norm(ival(m0, *indices, k), al),
        f == m_along(m0, *indices, ax, al), ix == lane_ix(m0, a0.shape@, *indices, ax), vf == (|k: int| sv[k]), dtype == a0.dtype, pb(val_ptr) == bid(values), po(val_ptr) == values.offset, pb(arr_ptr) == bid(a0), po(arr_ptr) == a0.offset,
        ndim == ish.len(), val_strides@ == values.strides@, shape@ == ish, idx_indices@.len() == ndim, target_indices@.len() == ndim, N > 0 ==> idx_indices@ == unrmi(cyc(__i2 as int, N), ish), punched(m1, mem.v(), a0, ix, vf, __i2 as int)
    decreases targets@.len() - __i2
@body 2
    let ghost k0 = __i2 as int; let ghost m2 = mem.v(); let ghost idx = idx_indices@;
    proof { lemma_step(k0, ish); lemma_unrmi_inb(k0, ish); assert(idx == unrmi(k0, ish)); lemma_inb_box(idx, ish); lemma_acc(m1, values, idx); assert(m2[bid(values)] == m1[bid(values)]); assert(els(m1, values)[k0] == sv[k0]); }
@inv 3
    invariant __i3 <= __l1, __l1 == ish.len(), ish == values.shape@, wf(values), inbox(idx_indices@, ish), idx_indices@.len() == ish.len(), __v3 as int == dot(idx_indices@, values.strides@, __i3 as int), val_strides@ == values.strides@
    decreases __l1 - __i3
@body 3
    proof { lemma_dot_step(values, idx_indices@, __i3 as int); }
@at /let dst/
    let ghost dstx = f(idx);
    proof { assert(-al <= ival(m0, *indices, k0) < al); assert(target as int == norm(ival(m0, *indices, k0), al)); assert(dstx =~= idx.update(ax, target)); assert(target_indices@ =~= dstx);
        assert(inb(dstx, a0.shape@)) by { assert forall|i: int| 0 <= i < dstx.len() implies (#[trigger] dstx[i]) < a0.shape@[i] by { assert(idx[i] < ish[i]); if i != ax { assert(a0.shape@[i] == ish[i]); } } }
        lemma_inb_box(dstx, a0.shape@); lemma_acc(m1, a0, dstx); lemma_rmi_bound(dstx, a0.shape@); lemma_rmi_inv(dstx, a0.shape@); assert(ix(k0) == rmi(dstx, a0.shape@)); lemma_punch(m1, m2, a0, ix, vf, k0); }
@before 4
    let ghost oi = idx_indices@;
    proof { lemma_inc0(oi, shape@); }
@inv 4
    invariant_except_break inc_inv(idx_indices@, oi, shape@, __i4 as int)
    invariant __e4 == 0, __i4 <= ndim, oi.len() == ndim, shape@.len() == ndim, inb(oi, shape@), idx_indices@.len() == ndim,
    ensures idx_indices@ == next_idx(oi, shape@) || inc_inv(idx_indices@, oi, shape@, 0)
    decreases __i4
@body 4
    let ghost bi = idx_indices@;
    proof { lemma_inc(bi, oi, shape@, __i4 as int); }
@end 4
    proof { assert(idx_indices@ =~= bi.update(__i4 as int, 0)); }
@after 4
    proof { if inc_inv(idx_indices@, oi, shape@, 0) { lemma_inc(idx_indices@, oi, shape@, 0); } }
@at /^ *Some.\(\)/
    proof { lemma_punched_from(m0, m1, mem.v(), a0, ix, vf, N); }

@raw
#[verifier::external_body]
pub fn promote_dtype(a: &DType, b: &DType) -> (r: DType) ensures r == promo(*a, *b) { unimplemented!() }
pub proof fn lemma_neg64() ensures forall|x: i64| x < 0 ==> #[trigger] (x as usize) > imax(), forall|x: i64| x >= 0 ==> #[trigger] (x as usize) == x
{ assert forall|x: i64| x < 0 implies #[trigger] (x as usize) > imax() by { assert(x < 0i64 ==> (x as u64) >= 0x8000_0000_0000_0000u64) by (bit_vector); } }
/// c holds the first n choices s, as type dt
pub open spec fn cvd(m0: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, c: Seq<RumpyArray>, s: Seq<RumpyArray>, ish: Seq<usize>, dt: DType, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> wf(#[trigger] c[i]) && mok(m, c[i]) && ptr_ok(c[i]) && c[i].shape@ == ish && c[i].dtype == dt && els(m, c[i]) == convs(m0, s[i], dt)
}
pub proof fn lemma_cvd(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, m2: Map<int, Seq<u8>>, c: Seq<RumpyArray>, s: Seq<RumpyArray>, ish: Seq<usize>, dt: DType, n: int)
    requires cvd(m0, m1, c, s, ish, dt, n), frame(m1, m2) ensures cvd(m0, m2, c, s, ish, dt, n)
{ assert forall|i: int| 0 <= i < n implies mok(m2, #[trigger] c[i]) && els(m2, c[i]) == convs(m0, s[i], dt) by { assert(m2[bid(c[i])] == m1[bid(c[i])]); lemma_els_keep(m1, m2, c[i]); } }
/// what choose gives: element k of the choice that k's index names
pub open spec fn chosen(m: Map<int, Seq<u8>>, x: RumpyArray, s: Seq<RumpyArray>, dt: DType) -> Seq<Seq<u8>> { Seq::new(prod(x.shape@) as nat, |k: int| convs(m, s[ival(m, x, k) as int], dt)[k]) }
@endraw

@fn src/ops/indexing.rs choose flags=ptrs memself mem=zeros,astype,read_i64,copy_element rename=buffer_mut:vx_buffer
@props P13
@attr
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
@req
    wf(*indices), mok(old(mem).v(), *indices), ptr_ok(*indices), forall|i: int| 0 <= i < choices@.len() ==> arr_ok(old(mem).v(), #[trigger] choices@[i]), choices@.len() <= imax(),
    choices@.len() > 0 ==> pmax(indices.shape@) * dt_size(cdtype(choices@, choices@.len() as int)) <= imax(),
@ens
    ({ let m0 = old(mem).v(); let n = choices@.len() as int; let dt = cdtype(choices@, n);
        (r is Some <==> n > 0 && (forall|i: int| 0 <= i < n ==> (#[trigger] choices@[i]).shape@ == indices.shape@) && (forall|k: int| 0 <= k < prod(indices.shape@) ==> 0 <= #[trigger] ival(m0, *indices, k) < n))
        && (r is Some ==> fresh(r->0, m0, final(mem).v(), indices.shape@, dt) && els(final(mem).v(), r->0) == chosen(m0, *indices, choices@, dt)) }),
@start
    let ghost m0 = mem.v(); let ghost S = choices@; let ghost n = choices@.len() as int; let ghost ish = indices.shape@; let ghost N = prod(ish); let ghost dt = cdtype(S, n); let ghost z = dt_size(dt);
    proof { lemma_dt(dt); lemma_dt(indices.dtype); lemma_pmax(ish); lemma_prod_pos(ish); lemma_pmax_le(ish, isz(*indices)); lemma_neg64(); if n > 0 { lemma_pmax_le(ish, z); } }
@inv 0
    invariant __l0 == n - 1, __a0 == 1, n >= 1, n <= imax(), choices@ == S, S.len() == n, __i0 <= __l0, __v0 == cdtype(S, __i0 + 1), forall|i: int| 0 <= i < n ==> arr_ok(m0, #[trigger] S[i])
    decreases __l0 - __i0
@inv 1
    invariant __i1 <= n, choices@ == S, S.len() == n, n <= imax(), forall|i: int| 0 <= i < n ==> arr_ok(m0, #[trigger] S[i]), ish == indices.shape@, forall|i: int| 0 <= i < __i1 ==> (#[trigger] S[i]).shape@ == ish
    decreases n - __i1
@inv 2
    invariant_except_break __v2, forall|i: int| 0 <= i < __i2 ==> (#[trigger] S[i]).dtype == out_dtype
    invariant __i2 <= n, choices@ == S, S.len() == n, n <= imax(), forall|i: int| 0 <= i < n ==> arr_ok(m0, #[trigger] S[i]),
    ensures __v2 ==> forall|i: int| 0 <= i < n ==> (#[trigger] S[i]).dtype == out_dtype
    decreases n - __i2
@inv 3
    invariant __i3 <= n, choices@ == S, S.len() == n, n <= imax(), forall|i: int| 0 <= i < n ==> arr_ok(m0, #[trigger] S[i]), forall|i: int| 0 <= i < n ==> (#[trigger] S[i]).shape@ == ish, out_dtype == dt, z == dt_size(dt), pmax(ish) * z <= imax(), frame(m0, mem.v()), __v3@.len() == __i3, cvd(m0, mem.v(), __v3@, S, ish, dt, __i3 as int)
    decreases n - __i3
@body 3
    let ghost mb = mem.v(); let ghost i0 = __i3 as int; let ghost vb = __v3@;
    proof { let a = S[i0]; assert(arr_ok(m0, a)); assert(mb[bid(a)] == m0[bid(a)]); lemma_els_keep(m0, mb, a); assert(convs(mb, a, dt) =~= convs(m0, a, dt)); }
@end 3
    proof { lemma_cvd(m0, mb, mem.v(), vb, S, ish, dt, i0); assert forall|i: int| 0 <= i < i0 + 1 implies wf(#[trigger] __v3@[i]) && mok(mem.v(), __v3@[i]) && ptr_ok(__v3@[i]) && __v3@[i].shape@ == ish && __v3@[i].dtype == dt && els(mem.v(), __v3@[i]) == convs(m0, S[i], dt) by { if i < i0 { assert(__v3@[i] == vb[i]); } } }
@at /let mut result = /
    let ghost m1 = mem.v(); let ghost s = chosen(m0, *indices, S, dt);
    proof { assert forall|i: int| 0 <= i < n implies wf(#[trigger] choices@[i]) && mok(m1, choices@[i]) && ptr_ok(choices@[i]) && choices@[i].shape@ == ish && choices@[i].dtype == dt && els(m1, choices@[i]) == convs(m0, S[i], dt) by {
        assert(arr_ok(m0, S[i])); if choices@ == S { assert(els(m1, S[i]) =~= convs(m0, S[i], dt)); } }
        assert(cvd(m0, m1, choices@, S, ish, dt, n)); }
@at /return Some.result/
    proof { assert(els(mem.v(), result) =~= s); }
@at /let result_buffer/
    let ghost mz = mem.v(); let ghost b = bid(result); let ghost ch = choices@;
    proof { lemma_unrmi_inb(0, ish); lemma_cvd(m0, m1, mz, ch, S, ish, dt, n); assert(mz[bid(*indices)] == m0[bid(*indices)]); lemma_ival_keep(m0, mz, *indices, 0); }
@before 4
    proof { lemma_zero_idx(out_indices@, ish); }
@inv 4
    invariant __i4 <= __e4, __e4 == N, N == prod(ish), N > 0, ish == indices.shape@, wf(*indices), mok(m0, *indices), mok(mz, *indices), mz[bid(*indices)] == m0[bid(*indices)], bid(*indices) != b, z == dt_size(dt), z >= 1, num_choices == n, choices@ == ch, ch.len() == n, S.len() == n, cvd(m0, mz, ch, S, ish, dt, n), forall|i: int| 0 <= i < n ==> bid(#[trigger] ch[i]) != b,
        fresh(result, m0, mz, ish, dt), b == bid(result), pb(result_ptr) == b, po(result_ptr) == 0, ops_dt(ops) == dt, pb(idx_ptr) == bid(*indices), po(idx_ptr) == indices.offset, ops_dt(idx_ops) == indices.dtype,
        ndim == ish.len(), idx_strides@ == indices.strides@, out_shape@ == ish, s == chosen(m0, *indices, S, dt), s.len() == N, blen(b) == N * z, live(mz, b),
        forall|x: i64| x < 0 ==> #[trigger] (x as usize) > imax(), forall|x: i64| x >= 0 ==> #[trigger] (x as usize) == x, n <= imax(),
        out_indices@.len() == ndim, out_indices@ == unrmi(cyc(__i4 as int, N), ish), filled(mz, mem.v(), b, s, z, __i4 as int), forall|k: int| 0 <= k < __i4 ==> 0 <= #[trigger] ival(m0, *indices, k) < n
    decreases __e4 - __i4
@body 4
    let ghost k0 = __i4 as int; let ghost mm = mem.v(); let ghost idx = out_indices@;
    proof { lemma_step(k0, ish); lemma_unrmi_inb(k0, ish); assert(idx == unrmi(k0, ish)); lemma_inb_box(idx, ish); lemma_acc(mz, *indices, idx); assert(mm[bid(*indices)] == mz[bid(*indices)]); }
@inv 5
    invariant __i5 <= __l2, __l2 == ish.len(), ish == indices.shape@, wf(*indices), inbox(out_indices@, ish), out_indices@.len() == ish.len(), __v5 as int == dot(out_indices@, indices.strides@, __i5 as int), idx_strides@ == indices.strides@
    decreases __l2 - __i5
@body 5
    proof { lemma_dot_step(*indices, out_indices@, __i5 as int); }
@at /if choice_idx >=/
    proof { let x = ival(m0, *indices, k0); assert(nth(mm, *indices, k0) == nth(m0, *indices, k0)); assert(choice_idx == x as usize); assert(x >= 0 ==> choice_idx == x); assert(x < 0 ==> choice_idx > imax()); assert(choice_idx >= num_choices ==> !(0 <= ival(m0, *indices, k0) < n)); }
@at /let choice_arr/
    let ghost c = ival(m0, *indices, k0) as int;
    proof { assert(choice_idx == c); assert(0 <= c < n); assert(wf(ch[c])); assert(mm[bid(ch[c])] == mz[bid(ch[c])]); lemma_acc(mz, ch[c], idx); assert(els(mz, ch[c])[k0] == s[k0]); lemma_fill_step(mz, mm, b, s, z, k0, s[k0]); }
@inv 6
    invariant __i6 <= __l4, __l4 == ish.len(), ish == choice_arr.shape@, wf(*choice_arr), inbox(out_indices@, ish), out_indices@.len() == ish.len(), __v6 as int == dot(out_indices@, choice_arr.strides@, __i6 as int), choice_strides@ == choice_arr.strides@
    decreases __l4 - __i6
@body 6
    proof { lemma_dot_step(*choice_arr, out_indices@, __i6 as int); }
@before 7
    let ghost oi = out_indices@;
    proof { lemma_inc0(oi, out_shape@); }
@inv 7
    invariant_except_break inc_inv(out_indices@, oi, out_shape@, __i7 as int)
    invariant __e7 == 0, __i7 <= ndim, oi.len() == ndim, out_shape@.len() == ndim, inb(oi, out_shape@), out_indices@.len() == ndim,
    ensures out_indices@ == next_idx(oi, out_shape@) || inc_inv(out_indices@, oi, out_shape@, 0)
    decreases __i7
@body 7
    let ghost bi = out_indices@;
    proof { lemma_inc(bi, oi, out_shape@, __i7 as int); }
@end 7
    proof { assert(out_indices@ =~= bi.update(__i7 as int, 0)); }
@after 7
    proof { if inc_inv(out_indices@, oi, out_shape@, 0) { lemma_inc(out_indices@, oi, out_shape@, 0); } }
@at /^ *Some.result/
    proof { lemma_fill_done(result, m0, mz, mem.v(), ish, dt, s); }
