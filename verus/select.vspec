@unit select
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@include viewmaps.rs
@include gath.rs
@include gatherix.rs
@import iter StridedIter::new StridedIter::next
@import core compute_c_strides increment_indices RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous RumpyArray::byte_offset_for
@import movers RumpyArray::zeros RumpyArray::dtype RumpyArray::data_ptr
@import dispatch RumpyArray::iter_offsets
@import shapes normalize_index
@import moves RumpyArray::reshape

@raw
/// element iv[idx[ax]] along ax
pub open spec fn m_take(ax: int, iv: Seq<usize>) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.update(ax, iv[idx[ax] as int]) }
/// a result that holds nothing yet, disjoint from what is read
pub open spec fn slot(m: Map<int, Seq<u8>>, r: RumpyArray, a: RumpyArray, sh: Seq<usize>) -> bool { packed(r) && mok(m, r) && r.shape@ == sh && r.dtype == a.dtype && bid(r) != bid(a) && pmax(sh) * isz(a) <= imax() }
pub open spec fn tsh(a: RumpyArray, ax: int, n: int) -> Seq<usize> { a.shape@.update(ax, n as usize) }
pub proof fn lemma_un1(k: int, sh: Seq<usize>) requires sh.len() == 1, 0 <= k < sh[0], k <= imax(), sh[0] <= imax() ensures unrmi(k, sh) == seq![k as usize], prod(sh) == sh[0], inb(seq![k as usize], sh)
{ lemma_row1(sh[0] as int, 1); assert(sh =~= seq![sh[0]]); assert(inb(ix1(k), sh)); lemma_rmi_inv(ix1(k), sh); assert(rmi(ix1(k), sh) == k); assert(unrmi(rmi(ix1(k), sh), sh) =~= ix1(k)); }
/// changing the first index moves the row-major position by whole rows
pub proof fn lemma_rmi_row(idx: Seq<usize>, sh: Seq<usize>, v: usize, n: usize)
    requires idx.len() == sh.len(), sh.len() >= 1
    ensures rmi(idx.update(0, v), sh.update(0, n)) == rmi(idx, sh) + (v - idx[0]) * suf(sh, 1)
    decreases sh.len()
{
    let (i2, s2) = (idx.update(0, v), sh.update(0, n)); let l = sh.last() as int; let N = sh.len() as int;
    if N == 1 {
        assert(i2.drop_last() =~= Seq::<usize>::empty()); assert(idx.drop_last() =~= Seq::<usize>::empty());
        assert(rmi(i2.drop_last(), s2.drop_last()) == 0 && rmi(idx.drop_last(), sh.drop_last()) == 0); assert(suf(sh, 1) == 1); assert(0 * (s2.last() as int) == 0 && 0 * l == 0); assert(i2.last() == v); assert(idx.last() == idx[0]);
    } else {
        let (i1, s1) = (idx.drop_last(), sh.drop_last());
        lemma_rmi_row(i1, s1, v, n); lemma_suf_drop(sh, 1);
        assert(i2.drop_last() =~= i1.update(0, v)); assert(s2.drop_last() =~= s1.update(0, n)); assert(i2.last() == idx.last()); assert(s2.last() == sh.last()); assert(i1[0] == idx[0]);
        let (p, d, q) = (rmi(i1, s1), v - idx[0], suf(s1, 1));
        assert((p + d * q) * l == p * l + d * (q * l)) by (nonlinear_arith);
    }
}
pub proof fn lemma_suf_prod(s: Seq<usize>) requires s.len() >= 1 ensures prod(s.subrange(1, s.len() as int)) == suf(s, 1), prod(s) == s[0] * suf(s, 1), pmax(s.subrange(1, s.len() as int)) <= pmax(s) decreases s.len()
{
    let t = s.subrange(1, s.len() as int);
    lemma_suf_split(s, 1); assert(s.take(1) =~= seq![s[0]]); assert(s.take(1).drop_last() =~= Seq::<usize>::empty()); assert(prod(s.take(1).drop_last()) == 1); assert(1 * (s[0] as int) == s[0]); assert(prod(s.take(1)) == s[0]);
    if s.len() == 1 { assert(t =~= Seq::<usize>::empty()); lemma_pmax(s); } else {
        lemma_suf_prod(s.drop_last()); lemma_suf_drop(s, 1); assert(t.drop_last() =~= s.drop_last().subrange(1, s.len() - 1)); assert(t.last() == s.last()); lemma_pmax(s.drop_last());
        let (x, y, m) = (pmax(t.drop_last()), pmax(s.drop_last()), max1(s.last())); assert(x * m <= y * m) by (nonlinear_arith) requires x <= y, m >= 1;
    }
}
/// the first index of row-major position k
pub proof fn lemma_lead(k: int, sh: Seq<usize>, l: int)
    requires sh.len() >= 1, l == suf(sh, 1), l > 0, 0 <= k < prod(sh), nonempty(sh) ensures unrmi(k, sh).len() == sh.len(), unrmi(k, sh)[0] == k / l
    decreases sh.len()
{
    lemma_unrmi_len(k, sh); let m = sh.last() as int; let d = sh.drop_last();
    if sh.len() == 1 { lemma_suf_prod(sh); assert(unrmi(k / m, d).len() == 0) by { lemma_unrmi_len(k / m, d); } lemma_small_mod(k as nat, m as nat); assert(k / 1 == k); assert(sh[0] * 1 == sh[0]); }
    else {
        lemma_suf_drop(sh, 1); lemma_suf_nonneg(d, 1); let q = suf(d, 1); assert(q > 0) by (nonlinear_arith) requires q * m > 0, q >= 0, m >= 0;
        lemma_unrmi_inb(k, sh); lemma_unrmi_len(k / m, d); assert(m > 0);
        assert(prod(sh) == prod(d) * m); lemma_fundamental_div_mod(k, m); lemma_mod_bound(k, m);
        assert(0 <= k / m < prod(d)) by (nonlinear_arith) requires k == m * (k / m) + k % m, 0 <= k % m < m, 0 <= k < prod(d) * m, m > 0;
        assert(nonempty(d)) by { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) > 0 by { assert(d[i] == sh[i]); } }
        lemma_lead(k / m, d, q); lemma_div_denominator(k, m, q); assert(m * q == q * m) by (nonlinear_arith);
    }
}
pub open spec fn src_ok(m: Map<int, Seq<u8>>, a: RumpyArray) -> bool { wf(a) && mok(m, a) && nonempty(a.shape@) }
/// shape of a take: the index shape replaces the axis
pub open spec fn fsh(a: Seq<usize>, x: Seq<usize>, ax: int) -> Seq<usize> { a.take(ax) + x + a.skip(ax + 1) }
pub proof fn lemma_prod_cat(s: Seq<usize>, t: Seq<usize>) ensures prod(s + t) == prod(s) * prod(t), pmax(s + t) == pmax(s) * pmax(t) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); assert(prod(s) * 1 == prod(s)); assert(pmax(s) * 1 == pmax(s)); } else { lemma_prod_cat(s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last());
  let (a, b, c) = (prod(s), prod(t.drop_last()), t.last() as int); assert((a * b) * c == a * (b * c)) by (nonlinear_arith);
  let (a, b, c) = (pmax(s), pmax(t.drop_last()), max1(t.last())); assert((a * b) * c == a * (b * c)) by (nonlinear_arith); } }
pub proof fn lemma_fsh(a: Seq<usize>, x: Seq<usize>, ax: int)
    requires 0 <= ax < a.len(), pmax(x) <= imax(), prod(x) == 0 ==> true
    ensures prod(fsh(a, x, ax)) == prod(a.update(ax, prod(x) as usize)), pmax(a.update(ax, prod(x) as usize)) <= pmax(fsh(a, x, ax)), prod(x) <= imax()
{
    lemma_pmax(x); let v = prod(x) as usize; let b = a.update(ax, v); let o = seq![v];
    assert(b =~= a.take(ax) + o + a.skip(ax + 1));
    lemma_prod_cat(a.take(ax), x); lemma_prod_cat(a.take(ax) + x, a.skip(ax + 1)); lemma_prod_cat(a.take(ax), o); lemma_prod_cat(a.take(ax) + o, a.skip(ax + 1));
    assert(o.drop_last() =~= Seq::<usize>::empty()); assert(prod(o.drop_last()) == 1 && pmax(o.drop_last()) == 1); assert(1 * (v as int) == v); assert(1 * max1(v) == max1(v));
    lemma_pmax(a.take(ax)); lemma_pmax(a.skip(ax + 1));
    let (p, q, r, w) = (pmax(a.take(ax)), pmax(o), pmax(a.skip(ax + 1)), pmax(x));
    assert(p * q <= p * w) by (nonlinear_arith) requires q <= w, p >= 1;
    assert((p * q) * r <= (p * w) * r) by (nonlinear_arith) requires p * q <= p * w, r >= 1;
}
@endraw

@fn src/ops/indexing.rs take_1d_contiguous flags=ptrs memself mem=zeros rename=buffer_mut:vx_buffer
@props P13
@req
    src_ok(old(mem).v(), *arr), arr.shape@.len() == 1, arr.flags.c, slot(old(mem).v(), result, *arr, tsh(*arr, 0, indices@.len() as int)), indices@.len() <= imax(),
    forall|i: int| 0 <= i < indices@.len() ==> #[trigger] indices@[i] < arr.shape@[0],
@ens
    r == Some(result), filled(old(mem).v(), final(mem).v(), bid(result), gath(old(mem).v(), *arr, result.shape@, m_take(0, indices@)), isz(*arr), indices@.len() as int), prod(result.shape@) == indices@.len(),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr); let ghost b = bid(result); let ghost n = indices@.len() as int; let ghost s = gath(m0, *arr, result.shape@, m_take(0, indices@));
    proof { lemma_dt(arr.dtype); lemma_row1(n, z); assert(result.shape@ =~= seq![n as usize]); lemma_pmax_le(result.shape@, z); lemma_pmax_le(arr.shape@, z); lemma_pmax(arr.shape@); lemma_prod_pos(arr.shape@); assert(0 * z == 0); }
@inv 0
    invariant __i0 <= n, n == indices@.len(), n <= imax(), src_ok(m0, *arr), z == isz(*arr), z == itemsize, z >= 1, b == bid(result), slot(m0, result, *arr, seq![n as usize]), live(m0, b), arr.shape@.len() == 1, arr.shape@[0] <= imax(), arr.flags.c, pb(result_ptr) == b, po(result_ptr) == 0,
        pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, prod(result.shape@) == n, s.len() == n, s == gath(m0, *arr, result.shape@, m_take(0, indices@)), forall|i: int| 0 <= i < indices@.len() ==> #[trigger] indices@[i] < arr.shape@[0],
        filled(m0, mem.v(), b, s, z, __i0 as int)
    decreases n - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof {
        let j = indices@[i0] as int;
        lemma_un1(i0, result.shape@); lemma_un1(j, arr.shape@); lemma_flat(m0, *arr, j);
        assert(m_take(0, indices@)(seq![i0 as usize]) =~= seq![j as usize]);
        assert(s[i0] == nth(m0, *arr, j)); assert(m1[bid(*arr)] == m0[bid(*arr)]);
        lemma_fill_step(m0, m1, b, s, z, i0, s[i0]); assert(i0 * z + 0 == i0 * z);
        assert(0 <= j * z && j * z <= imax()) by { assert(0 <= j * z) by (nonlinear_arith) requires j >= 0, z >= 1; }
    }

@fn src/ops/indexing.rs take_axis0_contiguous flags=ptrs memself mem=zeros rename=buffer_mut:vx_buffer
@props P13
@req
    src_ok(old(mem).v(), *arr), arr.shape@.len() >= 1, arr.flags.c, slot(old(mem).v(), result, *arr, tsh(*arr, 0, indices@.len() as int)), indices@.len() <= imax(),
    forall|i: int| 0 <= i < indices@.len() ==> #[trigger] indices@[i] < arr.shape@[0],
@ens
    r == Some(result), filled(old(mem).v(), final(mem).v(), bid(result), gath(old(mem).v(), *arr, result.shape@, m_take(0, indices@)), isz(*arr), prod(result.shape@)),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr); let ghost b = bid(result); let ghost n = indices@.len() as int; let ghost s = gath(m0, *arr, result.shape@, m_take(0, indices@)); let ghost l = suf(arr.shape@, 1); let ghost rsh = result.shape@;
    proof { lemma_dt(arr.dtype); lemma_pmax_le(rsh, z); lemma_pmax_le(arr.shape@, z); lemma_pmax(arr.shape@); lemma_pmax(rsh); lemma_prod_pos(arr.shape@); lemma_suf_prod(arr.shape@); lemma_suf_prod(rsh); assert(0 * z == 0 && 0 * l == 0);
        assert(rsh.subrange(1, rsh.len() as int) =~= arr.shape@.subrange(1, rsh.len() as int)); assert(suf(rsh, 1) == l); lemma_suf_nonneg(arr.shape@, 1); assert(arr.shape@[0] > 0); let a0 = arr.shape@[0] as int; assert(l <= a0 * l) by (nonlinear_arith) requires a0 >= 1, l >= 0; if l == 0 { assert(a0 * l == 0); }
        let p = prod(arr.shape@); let pm = pmax(arr.shape@); assert(0 <= l * z && l * z <= pm * z) by (nonlinear_arith) requires 0 <= l <= p, p <= pm, z >= 1; }
@inv 0
    invariant __i0 <= n, n == indices@.len(), n <= imax(), src_ok(m0, *arr), z == isz(*arr), z >= 1, l > 0, row_bytes == l * z, l == suf(arr.shape@, 1), l == suf(rsh, 1), rsh == result.shape@, rsh == tsh(*arr, 0, n), arr.shape@.len() >= 1, b == bid(result), slot(m0, result, *arr, rsh), live(m0, b), arr.flags.c, pb(result_ptr) == b, po(result_ptr) == 0,
        pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, prod(rsh) == n * l, prod(arr.shape@) == arr.shape@[0] * l, prod(rsh) * z <= imax(), blen(b) == prod(rsh) * z, s.len() == prod(rsh), s == gath(m0, *arr, rsh, m_take(0, indices@)), forall|i: int| 0 <= i < indices@.len() ==> #[trigger] indices@[i] < arr.shape@[0],
        filled(m0, mem.v(), b, s, z, __i0 * l)
    decreases n - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof {
        let j = indices@[i0] as int; let a0 = arr.shape@[0] as int; let A = bid(*arr);
        assert(m1[A] == m0[A]);
        assert(i0 * (l * z) == i0 * l * z && j * (l * z) == j * l * z && (i0 + 1) * l == i0 * l + l && i0 * l + l <= n * l && 0 <= i0 * l && 0 <= j * l && j * l + l <= a0 * l && (i0 * l + l) * z <= (n * l) * z && (i0 * l + l) * z == i0 * l * z + l * z && (j * l + l) * z == j * l * z + l * z && 0 <= i0 * l * z && 0 <= j * l * z && 0 <= l * z) by (nonlinear_arith) requires 0 <= i0 < n, 0 <= j < a0, l >= 0, z >= 1;
        if l > 0 {
            lemma_flat(m0, *arr, j * l + l - 1);
            assert((j * l + l - 1) * z + z == j * l * z + l * z) by (nonlinear_arith);
            lemma_flat(m0, *arr, j * l);
            assert(nonempty(rsh)) by { lemma_prod_pos(rsh); assert(n * l > 0) by (nonlinear_arith) requires n > 0, l > 0; }
            let u = bput(m1[b], i0 * l * z, get(m0[A], arr.offset + j * l * z, l * z));
            lemma_block(m1[b], m0[A], i0 * l, arr.offset + j * l * z, l, n * l, z);
            assert forall|k: int| i0 * l <= k < i0 * l + l implies #[trigger] get(m0[A], arr.offset + j * l * z + (k - i0 * l) * z, z) == s[k] by {
                let idx = unrmi(k, rsh); lemma_unrmi_inb(k, rsh); lemma_rmi_row(idx, rsh, j as usize, arr.shape@[0]); assert(rsh.update(0, arr.shape@[0]) =~= arr.shape@);
                lemma_lead(k, rsh, l); let q = k - i0 * l;
                assert(k == i0 * l + q); assert(0 <= q < l); lemma_fundamental_div_mod_converse(k, l, i0, q); assert(idx[0] == i0);
                let src = idx.update(0, j as usize); assert(m_take(0, indices@)(idx) =~= src);
                assert(k + (j - i0) * l == j * l + q) by (nonlinear_arith) requires k == i0 * l + q;
                assert(inb(src, arr.shape@)) by { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src[i]) < arr.shape@[i] by { assert(idx[i] < rsh[i]); } }
                lemma_rmi_bound(src, arr.shape@); lemma_rmi_inv(src, arr.shape@); lemma_flat(m0, *arr, j * l + q);
                assert(unrmi(j * l + q, arr.shape@) == src);
                assert((j * l + q) * z == j * l * z + q * z) by (nonlinear_arith);
            }
        }
    }
@end 0
    proof { let u = mem.v()[b]; let A = bid(*arr);
        if l > 0 {
        assert forall|k: int| 0 <= k < i0 * l + l implies #[trigger] chunk(u, 0, k, z) == s[k] by { assert(chunk(u, 0, k, z) == (if i0 * l <= k < i0 * l + l { get(m0[A], arr.offset + indices@[i0] as int * l * z + (k - i0 * l) * z, z) } else { chunk(m1[b], 0, k, z) })); if k < i0 * l { assert(chunk(m1[b], 0, k, z) == s[k]); } }
        }
        assert(mem.v().dom() =~= m0.dom()); }
@after 0
    proof { assert(__i0 * l == n * l); }

@fn src/ops/indexing.rs take_general flags=ptrs memself mem=copy_element rename=buffer_mut:vx_buffer
@props P13
@req
    src_ok(old(mem).v(), *arr), axis < arr.shape@.len(), slot(old(mem).v(), result, *arr, tsh(*arr, axis as int, index_values@.len() as int)), index_values@.len() <= imax(),
    forall|i: int| 0 <= i < index_values@.len() ==> #[trigger] index_values@[i] < arr.shape@[axis as int],
@ens
    r == Some(result), filled(old(mem).v(), final(mem).v(), bid(result), gath(old(mem).v(), *arr, result.shape@, m_take(axis as int, index_values@)), isz(*arr), prod(result.shape@)),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr); let ghost b = bid(result); let ghost rsh = result.shape@; let ghost N = prod(rsh); let ghost f = m_take(axis as int, index_values@); let ghost s = gath(m0, *arr, rsh, f);
    proof { lemma_dt(arr.dtype); lemma_pmax_le(rsh, z); lemma_pmax_le(arr.shape@, z); lemma_pmax(rsh); lemma_prod_pos(rsh); assert(0 * z == 0); }
@before 0
    proof { if N > 0 { lemma_zero_idx(out_indices@, rsh); } }
@inv 0
    invariant __i0 <= __e0, __e0 == N, N == prod(rsh), src_ok(m0, *arr), z == isz(*arr), z >= 1, rsh == result.shape@, rsh == tsh(*arr, axis as int, index_values@.len() as int), axis < arr.shape@.len(), b == bid(result), slot(m0, result, *arr, rsh), live(m0, b), pb(result_ptr) == b, po(result_ptr) == 0,
        pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(ops) == arr.dtype, ndim == arr.shape@.len(), arr_strides@ == arr.strides@, out_shape@ == rsh, s.len() == N, f == m_take(axis as int, index_values@), s == gath(m0, *arr, rsh, f), index_values@.len() <= imax(), forall|i: int| 0 <= i < index_values@.len() ==> #[trigger] index_values@[i] < arr.shape@[axis as int],
        out_indices@.len() == ndim, src_indices@.len() == ndim, N > 0 ==> out_indices@ == unrmi(cyc(__i0 as int, N), rsh), filled(m0, mem.v(), b, s, z, __i0 as int)
    decreases __e0 - __i0
@body 0
    let ghost k0 = __i0 as int; let ghost m1 = mem.v(); let ghost idx = out_indices@; let ghost src = f(idx);
    proof { lemma_step(k0, rsh); lemma_unrmi_inb(k0, rsh); assert(idx == unrmi(k0, rsh)); assert(idx[axis as int] < rsh[axis as int]); assert(inb(src, arr.shape@)) by { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src[i]) < arr.shape@[i] by { assert(idx[i] < rsh[i]); } }
        lemma_inb_box(src, arr.shape@); lemma_acc(m0, *arr, src); assert(m1[bid(*arr)] == m0[bid(*arr)]); lemma_fill_step(m0, m1, b, s, z, k0, s[k0]); }
@before 1
    proof { assert(src_indices@ =~= src); }
@inv 1
    invariant __i1 <= __l0, __l0 == arr.shape@.len(), wf(*arr), inbox(src_indices@, arr.shape@), src_indices@.len() == arr.shape@.len(), __v1 as int == dot(src_indices@, arr.strides@, __i1 as int), src_indices@ == src, arr_strides@ == arr.strides@
    decreases __l0 - __i1
@body 1
    proof { lemma_dot_step(*arr, src_indices@, __i1 as int); }
@before 2
    let ghost oi = out_indices@;
    proof { lemma_inc0(oi, out_shape@); }
@inv 2
    invariant_except_break inc_inv(out_indices@, oi, out_shape@, __i2 as int)
    invariant __e2 == 0, __i2 <= ndim, oi.len() == ndim, out_shape@.len() == ndim, inb(oi, out_shape@), out_indices@.len() == ndim,
    ensures out_indices@ == next_idx(oi, out_shape@) || inc_inv(out_indices@, oi, out_shape@, 0)
    decreases __i2
@body 2
    let ghost bi = out_indices@;
    proof { lemma_inc(bi, oi, out_shape@, __i2 as int); }
@end 2
    proof { assert(out_indices@ =~= bi.update(__i2 as int, 0)); }
@after 2
    proof { if inc_inv(out_indices@, oi, out_shape@, 0) { lemma_inc(out_indices@, oi, out_shape@, 0); } }

@raw
pub proof fn lemma_gath_keep(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, a: RumpyArray, sh: Seq<usize>, f: spec_fn(Seq<usize>) -> Seq<usize>)
    requires m1[bid(a)] == m0[bid(a)] ensures gath(m1, a, sh, f) == gath(m0, a, sh, f)
{ assert(gath(m1, a, sh, f) =~= gath(m0, a, sh, f)); }
/// the filled result may be handed over
pub proof fn lemma_take_end(r: RumpyArray, a: RumpyArray, m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, f: spec_fn(Seq<usize>) -> Seq<usize>)
    requires fresh(r, m0, m1, r.shape@, a.dtype), wf(a), mok(m0, a)
    ensures forall|m2: Map<int, Seq<u8>>| #[trigger] filled(m1, m2, bid(r), gath(m1, a, r.shape@, f), isz(a), prod(r.shape@)) ==> mok(m2, r) && frame(m0, m2) && els(m2, r) == gath(m0, a, r.shape@, f)
{
    lemma_gath_keep(m0, m1, a, r.shape@, f); lemma_pmax(r.shape@);
    assert forall|m2: Map<int, Seq<u8>>| #[trigger] filled(m1, m2, bid(r), gath(m1, a, r.shape@, f), isz(a), prod(r.shape@)) implies mok(m2, r) && frame(m0, m2) && els(m2, r) == gath(m0, a, r.shape@, f) by {
        lemma_fill_done(r, m0, m1, m2, r.shape@, a.dtype, gath(m0, a, r.shape@, f));
    }
}
pub proof fn lemma_flatten(x: Seq<usize>, v: usize) ensures fsh(seq![v], x, 0) == x { assert(fsh(seq![v], x, 0) =~= x); }
@endraw

@fn src/ops/indexing.rs take flags=ptrs memself mem=zeros,reshape,take,take_1d_contiguous,take_axis0_contiguous,take_general,read_i64 rename=buffer_mut:vx_buffer
@props P13
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@req
    src_ok(old(mem).v(), *arr), aligned(*arr), wf(*indices), mok(old(mem).v(), *indices),
    axis is Some && axis->0 < arr.shape@.len() ==> pmax(fsh(arr.shape@, indices.shape@, axis->0 as int)) * isz(*arr) <= imax(),
    axis is None ==> pmax(indices.shape@) * isz(*arr) <= imax() && pmax(arr.shape@) * isz(*arr) + arr.offset <= imax(),
@ens
    axis is Some ==> (r is Some <==> axis->0 < arr.shape@.len() && in_range(old(mem).v(), *indices, arr.shape@[axis->0 as int] as int)),
    axis is None ==> (r is Some <==> in_range(old(mem).v(), *indices, prod(arr.shape@))),
    frame(old(mem).v(), final(mem).v()),
    axis is Some && r is Some ==> ({ let ax = axis->0 as int; let iv = ivals(old(mem).v(), *indices, arr.shape@[ax] as int);
        is_new(r->0, old(mem).v(), final(mem).v()) && r->0.dtype == arr.dtype && r->0.shape@ == fsh(arr.shape@, indices.shape@, ax) && els(final(mem).v(), r->0) == gath(old(mem).v(), *arr, tsh(*arr, ax, iv.len() as int), m_take(ax, iv)) }),
    axis is None && r is Some ==> is_new(r->0, old(mem).v(), final(mem).v()) && r->0.dtype == arr.dtype && r->0.shape@ == indices.shape@ && els(final(mem).v(), r->0).len() == prod(indices.shape@)
        && forall|k: int| 0 <= k < prod(indices.shape@) ==> #[trigger] els(final(mem).v(), r->0)[k] == nth(old(mem).v(), *arr, norm(ival(old(mem).v(), *indices, k), prod(arr.shape@))),
@dec
    if axis is Some { 0int } else { 1int }
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr);
    proof { lemma_dt(arr.dtype); lemma_pmax(indices.shape@); lemma_pmax(arr.shape@); lemma_prod_pos(arr.shape@); lemma_prod_pos(indices.shape@); lemma_pmax_le(arr.shape@, z); lemma_pmax_le(indices.shape@, isz(*indices)); lemma_dt(indices.dtype); }
@at /return take.&arr/
    proof {
        let n = prod(arr.shape@); let v = n as usize; lemma_flatten(indices.shape@, v); lemma_row1(n, z); assert(n * z <= pmax(arr.shape@) * z) by (nonlinear_arith) requires n <= pmax(arr.shape@), z >= 1;
        let s1 = seq![v];
        assert forall|a: RumpyArray, m1: Map<int, Seq<u8>>| #[trigger] reshaped(a, *arr, s1, m0, m1) implies m1[bid(*indices)] == m0[bid(*indices)] && ivals(m1, *indices, n) == ivals(m0, *indices, n) && in_range(m1, *indices, n) == in_range(m0, *indices, n) by { lemma_ival_keep(m0, m1, *indices, n); }
        assert forall|a: RumpyArray, m1: Map<int, Seq<u8>>, k: int| #![trigger reshaped(a, *arr, s1, m0, m1), ival(m0, *indices, k)] reshaped(a, *arr, s1, m0, m1) && in_range(m0, *indices, n) && 0 <= k < prod(indices.shape@) implies
            gath(m1, a, tsh(a, 0, prod(indices.shape@)), m_take(0, ivals(m1, *indices, n)))[k] == nth(m0, *arr, norm(ival(m0, *indices, k), n)) by {
            let w = norm(ival(m0, *indices, k), n); assert(-n <= ival(m0, *indices, k) < n); let t = tsh(a, 0, prod(indices.shape@));
            lemma_un1(k, t); lemma_un1(w, s1); assert(m_take(0, ivals(m1, *indices, n))(seq![k as usize]) =~= seq![w as usize]); assert(els(m1, a)[w] == els(m0, *arr)[w]);
        }
    }
@at /let mut full_shape/
    let ghost ax = axis as int; let ghost al = arr.shape@[ax] as int; let ghost iv = ivals(m0, *indices, al); let ghost n = prod(indices.shape@);
    let ghost full = fsh(arr.shape@, indices.shape@, ax);
    proof { lemma_dim_le(arr.shape@, z, ax); lemma_fsh(arr.shape@, indices.shape@, ax); lemma_pmax(full);
        let o = arr.shape@.update(ax, n as usize); assert(pmax(o) * z <= pmax(full) * z) by (nonlinear_arith) requires pmax(o) <= pmax(full), z >= 1; }
@at /let result = RumpyArray/
    proof { assert(full_shape@ =~= full); assert(out_shape@ =~= tsh(*arr, ax, n)); }
@at /if num_indices == 0/
    let ghost m1 = mem.v();
    proof { lemma_cstr_al(result); lemma_ival_keep(m0, m1, *indices, al); lemma_pmax_le(out_shape@, z); lemma_pmax(out_shape@); }
@inv 0
    invariant wf(*indices), mok(m0, *indices), mem.v() == m1, frame(m0, m1), m1[bid(*indices)] == m0[bid(*indices)], n == prod(indices.shape@), n <= imax(), pb(idx_ptr) == bid(*indices), po(idx_ptr) == indices.offset, ops_dt(idx_ops) == indices.dtype, axis_len == al, 0 < al <= imax(), iv == ivals(m0, *indices, al), ax == axis, axis < arr.shape@.len(), al == arr.shape@[ax],
        si_wf(__it0), __it0.shape@ == indices.shape@, __it0.strides@ == indices.strides@, si_base(__it0) == 0, __i0 == si_pos(__it0), __i0 <= n,
        index_values@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] index_values@[k] == iv[k], forall|k: int| 0 <= k < __i0 ==> -al <= #[trigger] ival(m0, *indices, k) < al
    ensures __i0 == n,
    decreases n - __i0
@body 0
    let ghost i0 = __i0 as int;
    proof { if i0 < n { lemma_at(m0, *indices, i0); } }
@at /index_values.push/
    proof { assert(val as int == ival(m0, *indices, i0)); assert(in_range(m0, *indices, al) ==> -al <= ival(m0, *indices, i0) < al); }
@after 0
    proof { assert(index_values@ =~= iv); assert forall|k: int| 0 <= k < n implies (#[trigger] iv[k]) < al by { assert(-al <= ival(m0, *indices, k) < al); }
        lemma_take_end(result, *arr, m0, m1, m_take(ax, iv)); }

@fn src/ops/indexing.rs take_along_axis flags=ptrs memself mem=zeros,copy_element,read_i64 rename=buffer_mut:vx_buffer
@props P13
@req
    wf(*arr), mok(old(mem).v(), *arr), ptr_ok(*arr), wf(*indices), mok(old(mem).v(), *indices), pmax(indices.shape@) * isz(*arr) <= imax(),
@ens
    r is Some <==> lanes(arr.shape@, indices.shape@, axis as int) && in_range(old(mem).v(), *indices, arr.shape@[axis as int] as int),
    r is Some ==> fresh(r->0, old(mem).v(), final(mem).v(), indices.shape@, arr.dtype)
        && els(final(mem).v(), r->0) == gath(old(mem).v(), *arr, indices.shape@, m_along(old(mem).v(), *indices, axis as int, arr.shape@[axis as int] as int)),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr); let ghost ish = indices.shape@; let ghost N = prod(ish); let ghost ax = axis as int;
    proof { lemma_dt(arr.dtype); lemma_dt(indices.dtype); lemma_pmax_le(ish, z); lemma_pmax_le(arr.shape@, z); lemma_pmax(ish); lemma_prod_pos(ish); lemma_pmax(arr.shape@); assert(0 * z == 0); }
@inv 0
    invariant __i0 <= __e0, __e0 == arr.shape@.len(), arr.shape@.len() == indices.shape@.len(), axis < arr.shape@.len(), forall|i: int| 0 <= i < __i0 && i != axis ==> #[trigger] arr.shape@[i] == indices.shape@[i]
    decreases __e0 - __i0
@body 0
    proof { if lanes(arr.shape@, indices.shape@, axis as int) { assert(__i0 != axis ==> arr.shape@[__i0 as int] == indices.shape@[__i0 as int]); } }
@at /let axis_len/
    let ghost al = arr.shape@[ax] as int; let ghost f = m_along(m0, *indices, ax, al); let ghost s = gath(m0, *arr, ish, f);
    proof { lemma_dim_le(arr.shape@, z, ax); }
@at /return Some.result/
    proof { assert(els(mem.v(), result) =~= s); }
@at /let result_buffer/
    let ghost mz = mem.v(); let ghost b = bid(result);
    proof { lemma_unrmi_inb(0, ish); lemma_inb_box(unrmi(0, ish), ish); assert(mz[bid(*arr)] == m0[bid(*arr)]); }
@before 1
    proof { lemma_zero_idx(out_indices@, ish); }
@inv 1
    invariant __i1 <= __e1, __e1 == N, N == prod(ish), N > 0, ish == indices.shape@, m0 == old(mem).v(), wf(*arr), mok(m0, *arr), wf(*indices), mok(m0, *indices), z == isz(*arr), z >= 1, axis < arr.shape@.len(), ax == axis, al == arr.shape@[ax], axis_len == al, al <= imax(), lanes(arr.shape@, ish, ax),
        fresh(result, m0, mz, ish, arr.dtype), b == bid(result), pb(result_ptr) == b, po(result_ptr) == 0, pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(ops) == arr.dtype, pb(idx_ptr) == bid(*indices), po(idx_ptr) == indices.offset, ops_dt(idx_ops) == indices.dtype,
        ndim == arr.shape@.len(), arr_strides@ == arr.strides@, idx_strides@ == indices.strides@, out_shape@ == ish, f == m_along(m0, *indices, ax, al), s == gath(m0, *arr, ish, f), s.len() == N, blen(b) == N * z, live(mz, b),
        out_indices@.len() == ndim, src_indices@.len() == ndim, out_indices@ == unrmi(cyc(__i1 as int, N), ish), filled(mz, mem.v(), b, s, z, __i1 as int), forall|k: int| 0 <= k < __i1 ==> -al <= #[trigger] ival(m0, *indices, k) < al
    decreases __e1 - __i1
@body 1
    let ghost k0 = __i1 as int; let ghost m1 = mem.v(); let ghost idx = out_indices@;
    proof { lemma_step(k0, ish); lemma_unrmi_inb(k0, ish); assert(idx == unrmi(k0, ish)); lemma_inb_box(idx, ish); lemma_acc(m0, *indices, idx); assert(m1[bid(*indices)] == m0[bid(*indices)]); assert(m1[bid(*arr)] == m0[bid(*arr)]); }
@inv 2
    invariant __i2 <= __l0, __l0 == ish.len(), ish == indices.shape@, wf(*indices), inbox(out_indices@, ish), out_indices@.len() == ish.len(), __v2 as int == dot(out_indices@, indices.strides@, __i2 as int), idx_strides@ == indices.strides@
    decreases __l0 - __i2
@body 2
    proof { lemma_dot_step(*indices, out_indices@, __i2 as int); }
@at /let normalized_idx/
    proof { assert(idx_val as int == ival(m0, *indices, k0) as int); }
@at /src_indices.copy_from_slice/
    let ghost src = f(idx);
    proof { assert(normalized_idx as int == norm(ival(m0, *indices, k0), al)); assert(src =~= idx.update(ax, normalized_idx));
        assert(inb(src, arr.shape@)) by { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src[i]) < arr.shape@[i] by { assert(idx[i] < ish[i]); if i != ax { assert(arr.shape@[i] == ish[i]); } } }
        lemma_inb_box(src, arr.shape@); lemma_acc(m0, *arr, src); lemma_fill_step(mz, m1, b, s, z, k0, s[k0]); }
@before 3
    proof { assert(src_indices@ =~= src); }
@inv 3
    invariant __i3 <= __l2, __l2 == arr.shape@.len(), wf(*arr), inbox(src_indices@, arr.shape@), src_indices@.len() == arr.shape@.len(), __v3 as int == dot(src_indices@, arr.strides@, __i3 as int), src_indices@ == src, arr_strides@ == arr.strides@
    decreases __l2 - __i3
@body 3
    proof { lemma_dot_step(*arr, src_indices@, __i3 as int); }
@before 4
    let ghost oi = out_indices@;
    proof { lemma_inc0(oi, out_shape@); }
@inv 4
    invariant_except_break inc_inv(out_indices@, oi, out_shape@, __i4 as int)
    invariant __e4 == 0, __i4 <= ndim, oi.len() == ndim, out_shape@.len() == ndim, inb(oi, out_shape@), out_indices@.len() == ndim,
    ensures out_indices@ == next_idx(oi, out_shape@) || inc_inv(out_indices@, oi, out_shape@, 0)
    decreases __i4
@body 4
    let ghost bi = out_indices@;
    proof { lemma_inc(bi, oi, out_shape@, __i4 as int); }
@end 4
    proof { assert(out_indices@ =~= bi.update(__i4 as int, 0)); }
@after 4
    proof { if inc_inv(out_indices@, oi, out_shape@, 0) { lemma_inc(out_indices@, oi, out_shape@, 0); } }
@at /^ *Some.result/
    proof { lemma_fill_done(result, m0, mz, mem.v(), ish, arr.dtype, s); }

@raw
/// positions of the true ones among the first n conditions
pub open spec fn cset(c: Seq<bool>, n: int) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else if c[n - 1] { cset(c, n - 1).push((n - 1) as usize) } else { cset(c, n - 1) }
}
pub proof fn lemma_cset(c: Seq<bool>, n: int)
    requires 0 <= n <= c.len(), n <= imax()
    ensures cset(c, n).len() <= n, forall|j: int| 0 <= j < cset(c, n).len() ==> (#[trigger] cset(c, n)[j]) < n && c[cset(c, n)[j] as int]
    decreases n
{ if n > 0 { lemma_cset(c, n - 1); } }
pub open spec fn lower(a: int, b: int) -> int { if a < b { a } else { b } }
@endraw

@fn src/ops/indexing.rs compress_axis flags=ptrs memself mem=zeros,copy_element rename=buffer_mut:vx_buffer
@props P13
@req
    wf(*arr), mok(old(mem).v(), *arr), ptr_ok(*arr), pmax(arr.shape@) * isz(*arr) <= imax(),
@ens
    ({ let m0 = old(mem).v(); let ax = axis as int; let iv = cset(condition@, lower(condition@.len() as int, arr.shape@[ax] as int));
        (r is Some <==> ax < arr.shape@.len())
        && (r is Some ==> fresh(r->0, m0, final(mem).v(), tsh(*arr, ax, iv.len() as int), arr.dtype) && els(final(mem).v(), r->0) == gath(m0, *arr, tsh(*arr, ax, iv.len() as int), m_take(ax, iv))) }),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr); let ghost ax = axis as int; let ghost L = lower(condition@.len() as int, arr.shape@[ax] as int); let ghost iv = cset(condition@, L); let ghost rsh = tsh(*arr, ax, iv.len() as int); let ghost N = prod(rsh); let ghost f = m_take(ax, iv); let ghost s = gath(m0, *arr, rsh, f);
    proof { lemma_dt(arr.dtype); lemma_pmax_le(arr.shape@, z); lemma_pmax(arr.shape@);
        if ax < arr.shape@.len() { lemma_dim_le(arr.shape@, z, ax); lemma_cset(condition@, L); lemma_pmax_upd(arr.shape@, ax, iv.len() as usize); assert(pmax(rsh) * z <= pmax(arr.shape@) * z) by (nonlinear_arith) requires pmax(rsh) <= pmax(arr.shape@), z >= 1; lemma_pmax_le(rsh, z); lemma_pmax(rsh); lemma_prod_pos(rsh); } }
@inv 0
    invariant __l0 == L, cond_len == L, 0 <= L <= condition@.len(), L <= imax(), __i0 <= __l0, __v0 as int == cset(condition@, __i0 as int).len(), __v0 <= __i0
    ensures __i0 == __l0
    decreases __l0 - __i0
@at /if count == 0/
    let ghost mz = mem.v(); let ghost b = bid(result);
    proof { assert(count == iv.len()); assert(result.shape@ =~= rsh); if count == 0 { assert(prod(rsh) == 0) by { if N > 0 { lemma_unrmi_inb(0, rsh); assert(unrmi(0, rsh)[ax] < rsh[ax]); } } assert(els(mz, result) =~= s); } }
@inv 1
    invariant __l1 == L, cond_len == L, 0 <= L <= condition@.len(), L <= imax(), __i1 <= __l1, __v1@ == cset(condition@, __i1 as int)
    ensures __i1 == __l1, __v1@ == cset(condition@, L)
    decreases __l1 - __i1
@at /let result_buffer/
    proof { assert(cond_to_src@ == iv); assert(mz[bid(*arr)] == m0[bid(*arr)]); }
@before 2
    proof { if N > 0 { lemma_zero_idx(out_indices@, rsh); } }
@inv 2
    invariant __i2 <= __e2, __e2 == N, N == prod(rsh), wf(*arr), mok(m0, *arr), mok(mz, *arr), mz[bid(*arr)] == m0[bid(*arr)], z == isz(*arr), z >= 1, rsh == result.shape@, rsh == tsh(*arr, ax, iv.len() as int), ax == axis, axis < arr.shape@.len(), b == bid(result), bid(*arr) != b, fresh(result, m0, mz, rsh, arr.dtype), live(mz, b), blen(b) == N * z, pb(result_ptr) == b, po(result_ptr) == 0,
        pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(ops) == arr.dtype, ndim == arr.shape@.len(), arr_strides@ == arr.strides@, out_shape@ == rsh, s.len() == N, cond_to_src@ == iv, f == m_take(ax, iv), s == gath(m0, *arr, rsh, f), iv.len() <= imax(), forall|i: int| 0 <= i < iv.len() ==> #[trigger] iv[i] < arr.shape@[ax],
        out_indices@.len() == ndim, src_indices@.len() == ndim, N > 0 ==> out_indices@ == unrmi(cyc(__i2 as int, N), rsh), filled(mz, mem.v(), b, s, z, __i2 as int)
    decreases __e2 - __i2
@body 2
    let ghost k0 = __i2 as int; let ghost m1 = mem.v(); let ghost idx = out_indices@; let ghost src = f(idx);
    proof { lemma_step(k0, rsh); lemma_unrmi_inb(k0, rsh); assert(idx == unrmi(k0, rsh)); assert(idx[ax] < rsh[ax]); assert(inb(src, arr.shape@)) by { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src[i]) < arr.shape@[i] by { assert(idx[i] < rsh[i]); } }
        lemma_inb_box(src, arr.shape@); lemma_acc(m0, *arr, src); assert(m1[bid(*arr)] == m0[bid(*arr)]); lemma_fill_step(mz, m1, b, s, z, k0, s[k0]); }
@before 3
    proof { assert(src_indices@ =~= src); }
@inv 3
    invariant __i3 <= __l3, __l3 == arr.shape@.len(), wf(*arr), inbox(src_indices@, arr.shape@), src_indices@.len() == arr.shape@.len(), __v3 as int == dot(src_indices@, arr.strides@, __i3 as int), src_indices@ == src, arr_strides@ == arr.strides@
    decreases __l3 - __i3
@body 3
    proof { lemma_dot_step(*arr, src_indices@, __i3 as int); }
@before 4
    let ghost oi = out_indices@;
    proof { lemma_inc0(oi, out_shape@); }
@inv 4
    invariant_except_break inc_inv(out_indices@, oi, out_shape@, __i4 as int)
    invariant __e4 == 0, __i4 <= ndim, oi.len() == ndim, out_shape@.len() == ndim, inb(oi, out_shape@), out_indices@.len() == ndim,
    ensures out_indices@ == next_idx(oi, out_shape@) || inc_inv(out_indices@, oi, out_shape@, 0)
    decreases __i4
@body 4
    let ghost bi = out_indices@;
    proof { lemma_inc(bi, oi, out_shape@, __i4 as int); }
@end 4
    proof { assert(out_indices@ =~= bi.update(__i4 as int, 0)); }
@after 4
    proof { if inc_inv(out_indices@, oi, out_shape@, 0) { lemma_inc(out_indices@, oi, out_shape@, 0); } }
@at /^ *Some.result\) *$/
    proof { lemma_fill_done(result, m0, mz, mem.v(), rsh, arr.dtype, s); }

@raw
/// every index can be read as an integer
pub open spec fn ints(m: Map<int, Seq<u8>>, x: RumpyArray, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] as_i64(x.dtype, nth(m, x, k)) is Some }
pub proof fn lemma_neg_cast() ensures forall|x: isize| x < 0 ==> #[trigger] (x as usize) > imax(), forall|x: isize| x >= 0 ==> #[trigger] (x as usize) == x
{ assert forall|x: isize| x < 0 implies #[trigger] (x as usize) > imax() by { let y = x as i64; assert(y < 0i64 ==> (y as u64) >= 0x8000_0000_0000_0000u64) by (bit_vector); } }
/// counting on inside row p: the place after o, when the counter has wrapped every axis but the first
pub proof fn lemma_row_wrap(o: Seq<usize>, cur: Seq<usize>, sh: Seq<usize>, p: int, j: int, l: int)
    requires sh.len() >= 1, nonempty(sh), l == suf(sh, 1), l > 0, prod(sh) == sh[0] * l, 0 <= p < sh[0], 0 <= j, j + 1 < l, o == unrmi(p * l + j, sh), o.len() == sh.len(), inc_inv(cur, o, sh, 1)
    ensures cur == unrmi(p * l + j + 1, sh)
{
    let a0 = sh[0] as int; let k = p * l + j; let nx = next_idx(o, sh);
    assert(0 <= p * l && p * l + l <= a0 * l) by (nonlinear_arith) requires 0 <= p < a0, l > 0;
    lemma_unrmi_inb(k, sh); lemma_next(o, sh); assert(rmi(nx, sh) == k + 1); lemma_rmi_inv(nx, sh); assert(nx == unrmi(k + 1, sh));
    lemma_lead(k + 1, sh, l); lemma_lead(k, sh, l); lemma_fundamental_div_mod_converse(k + 1, l, p, j + 1); lemma_fundamental_div_mod_converse(k, l, p, j);
    assert(nx[0] == p && o[0] == p);
    let t = o.take(1); let u = sh.take(1); assert(t.drop_last() =~= Seq::<usize>::empty()); assert(next_idx(t.drop_last(), u.drop_last()) =~= Seq::<usize>::empty());
    assert(nx == next_idx(t, u) + cur.skip(1)); assert(next_idx(t, u).len() == 1); assert(nx[0] == next_idx(t, u)[0]); assert(t.last() == o[0] && u.last() == sh[0]);
    assert(cur =~= nx) by { assert forall|i: int| 0 <= i < cur.len() implies cur[i] == nx[i] by { if i >= 1 { assert(nx[i] == cur.skip(1)[i - 1]); } } }
}
@endraw

@fn src/array/mod.rs RumpyArray::select_by_indices flags=ptrs memself mem=zeros,read_i64,copy_element,reshape rename=buffer_mut:vx_buffer
@props P13
@req
    wf(*self), mok(old(mem).v(), *self), ptr_ok(*self), wf(*indices), mok(old(mem).v(), *indices),
    self.shape@.len() > 0 ==> pmax(fsh(self.shape@, indices.shape@, 0)) * isz(*self) <= imax(),
@ens
    ({ let m0 = old(mem).v(); let al = self.shape@[0] as int; let n = prod(indices.shape@); let iv = ivals(m0, *indices, al);
        (r is Some <==> self.shape@.len() > 0 && ints(m0, *indices, n) && in_range(m0, *indices, al))
        && frame(m0, final(mem).v())
        && (r is Some ==> is_new(r->0, m0, final(mem).v()) && r->0.dtype == self.dtype && r->0.shape@ == fsh(self.shape@, indices.shape@, 0) && els(final(mem).v(), r->0) == gath(m0, *self, tsh(*self, 0, n), m_take(0, iv))) }),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*self); let ghost ash = self.shape@; let ghost xsh = indices.shape@; let ghost n = prod(xsh); let ghost al = ash[0] as int; let ghost iv = ivals(m0, *indices, al); let ghost rsh = tsh(*self, 0, n); let ghost N = prod(rsh); let ghost f = m_take(0, iv); let ghost s = gath(m0, *self, rsh, f); let ghost l = suf(ash, 1); let ghost full = fsh(ash, xsh, 0);
    proof { lemma_dt(self.dtype); lemma_dt(indices.dtype); lemma_prod_pos(xsh); lemma_pmax(xsh); lemma_pmax_le(xsh, isz(*indices)); lemma_pmax_le(ash, z); lemma_pmax(ash); lemma_neg_cast();
        if ash.len() > 0 { lemma_dim_le(ash, z, 0); lemma_fsh(ash, xsh, 0); lemma_pmax(full); assert(pmax(rsh) * z <= pmax(full) * z) by (nonlinear_arith) requires pmax(rsh) <= pmax(full), z >= 1; lemma_pmax_le(rsh, z); lemma_pmax(rsh); lemma_prod_pos(rsh);
            lemma_suf_prod(ash); lemma_suf_prod(rsh); assert(rsh.subrange(1, rsh.len() as int) =~= ash.subrange(1, ash.len() as int)); lemma_suf_nonneg(ash, 1); lemma_prod_pos(ash.subrange(1, ash.len() as int)); lemma_pmax(ash.subrange(1, ash.len() as int)); } }
@at /let buffer = /
    let ghost mz = mem.v(); let ghost b = bid(result);
    proof { assert(result.shape@ =~= rsh); assert(mz[bid(*self)] == m0[bid(*self)]); assert(mz[bid(*indices)] == m0[bid(*indices)]); assert(filled(mz, mz, b, s, z, 0)); assert(0 * l == 0); }
@before 0
    proof { if n > 0 { lemma_zero_idx(idx_indices@, xsh); } }
@inv 0
    invariant __i0 <= __e0, __e0 == n, n == prod(xsh), n <= imax(), xsh == indices.shape@, ash == self.shape@, ash.len() > 0, al == ash[0], al <= imax(), axis_len == al, m0 == old(mem).v(), wf(*self), mok(m0, *self), mok(mz, *self), ptr_ok(*self), wf(*indices), mok(m0, *indices), mok(mz, *indices), mz[bid(*self)] == m0[bid(*self)], mz[bid(*indices)] == m0[bid(*indices)], z == isz(*self), z >= 1,
        slice_size == l, l >= 0, l == suf(ash, 1), l == suf(rsh, 1), prod(ash) == al * l, prod(rsh) == n * l, N == prod(rsh), N * z <= imax(), N <= imax(), rsh == tsh(*self, 0, n), fresh(result, m0, mz, rsh, self.dtype), b == bid(result), blen(b) == N * z, live(mz, b), bid(*indices) != b, bid(*self) != b, pb(result_ptr) == b, po(result_ptr) == 0, pb(src_ptr) == bid(*self), po(src_ptr) == self.offset,
        ops_dt(ops) == self.dtype, ops_dt(idx_ops) == indices.dtype, idx_indices@.len() == xsh.len(), n > 0 ==> idx_indices@ == unrmi(cyc(__i0 as int, n), xsh), iv == ivals(m0, *indices, al), f == m_take(0, iv), s == gath(m0, *self, rsh, f), s.len() == N, filled(mz, mem.v(), b, s, z, __i0 * l),
        forall|x: isize| x < 0 ==> #[trigger] (x as usize) > imax(), forall|x: isize| x >= 0 ==> #[trigger] (x as usize) == x, forall|k: int| 0 <= k < __i0 ==> as_i64(indices.dtype, #[trigger] nth(m0, *indices, k)) is Some, forall|k: int| 0 <= k < __i0 ==> -al <= #[trigger] ival(m0, *indices, k) < al
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v(); let ghost xi = idx_indices@;
    proof { lemma_step(i0, xsh); lemma_unrmi_inb(i0, xsh); assert(xi == unrmi(i0, xsh)); lemma_inb_box(xi, xsh); lemma_acc(m0, *indices, xi); assert(m1[bid(*indices)] == mz[bid(*indices)]); assert(ints(m0, *indices, n) ==> as_i64(indices.dtype, nth(m0, *indices, i0)) is Some);
        assert(nonempty(xsh)); assert(in_range(m0, *indices, al) ==> -al <= ival(m0, *indices, i0) < al); }
@at /let idx = if/
    proof { assert(idx_val as int == ival(m0, *indices, i0)); }
@at /let mut src_indices/
    let ghost p = idx as int;
    proof { assert(p == iv[i0]); assert(0 <= p < al); assert(i0 * l + l <= n * l && 0 <= i0 * l && (i0 + 1) * l == i0 * l + l) by (nonlinear_arith) requires 0 <= i0, i0 + 1 <= n, l >= 0; assert(p * l + l <= al * l && 0 <= p * l) by (nonlinear_arith) requires 0 <= p < al, l >= 0; }
@before 1
    proof { if l > 0 { assert(al * l > 0) by (nonlinear_arith) requires al > 0, l > 0; assert(n * l > 0) by (nonlinear_arith) requires n > 0, l > 0; lemma_prod_pos(ash); lemma_prod_pos(rsh); lemma_unrmi_inb(p * l, ash); let u = unrmi(p * l, ash);
        lemma_unrmi_inb(0, ash); lemma_unrmi_zero(ash); let zz = unrmi(0, ash); lemma_rmi_row(zz, ash, idx, ash[0]); assert(ash.update(0, ash[0]) =~= ash); assert(zz.update(0, idx) =~= src_indices@); lemma_rmi_inv(zz, ash); assert(rmi(zz, ash) == 0); assert((p - 0) * l == p * l); assert(inb(src_indices@, ash)); lemma_rmi_inv(src_indices@, ash); assert(src_indices@ == unrmi(p * l, ash)); } }
@inv 1
    invariant __i1 <= __e1, __e1 == l, l == slice_size, 0 <= i0 < n, i == i0, 0 <= p < al, p == iv[i0], i0 * l + l <= N, 0 <= i0 * l, p * l + l <= al * l, 0 <= p * l, ash == self.shape@, ash.len() > 0, al == ash[0], wf(*self), mok(m0, *self), mok(mz, *self), mz[bid(*self)] == m0[bid(*self)], z == isz(*self), z >= 1, l == suf(ash, 1), l == suf(rsh, 1), prod(ash) == al * l, prod(rsh) == N, N <= imax(), N * z <= imax(), rsh == tsh(*self, 0, n), rsh.len() == ash.len(),
        l > 0 ==> nonempty(ash) && nonempty(rsh), b == bid(result), blen(b) == N * z, live(mz, b), bid(*self) != b, pb(result_ptr) == b, po(result_ptr) == 0, pb(src_ptr) == bid(*self), po(src_ptr) == self.offset, ops_dt(ops) == self.dtype, f == m_take(0, iv), s == gath(m0, *self, rsh, f), s.len() == N,
        src_indices@.len() == ash.len(), __i1 < l ==> src_indices@ == unrmi(p * l + __i1, ash), filled(mz, mem.v(), b, s, z, i0 * l + __i1)
    decreases __e1 - __i1
@body 1
    let ghost j0 = __i1 as int; let ghost m2 = mem.v(); let ghost o = src_indices@; let ghost k = i0 * l + j0;
    proof { lemma_unrmi_inb(p * l + j0, ash); lemma_inb_box(o, ash); lemma_unrmi_inb(k, rsh); let idx2 = unrmi(k, rsh); lemma_lead(k, rsh, l); lemma_fundamental_div_mod_converse(k, l, i0, j0); assert(idx2[0] == i0);
        lemma_rmi_row(idx2, rsh, p as usize, ash[0]); assert(rsh.update(0, ash[0]) =~= ash); let w = idx2.update(0, p as usize); assert(k + (p - i0) * l == p * l + j0) by (nonlinear_arith) requires k == i0 * l + j0; assert(rmi(w, ash) == p * l + j0);
        assert(inb(w, ash)) by { assert forall|q: int| 0 <= q < w.len() implies (#[trigger] w[q]) < ash[q] by { assert(idx2[q] < rsh[q]); } } lemma_rmi_inv(w, ash); assert(w == o); assert(f(idx2) =~= w);
        lemma_acc(m0, *self, o); assert(m2[bid(*self)] == m0[bid(*self)]); lemma_fill_step(mz, m2, b, s, z, k, s[k]); assert(i * slice_size + j0 == k); assert(k < N); lemma_acc(m2, *self, o); }
@before 2
    proof { lemma_inc0(o, ash); }
@inv 2
    invariant_except_break inc_inv(src_indices@, o, ash, __i2 as int)
    invariant __e2 == 1, 1 <= __i2 <= ash.len(), o.len() == ash.len(), self.shape@ == ash, inb(o, ash), src_indices@.len() == ash.len(), wf(*self),
    ensures src_indices@ == next_idx(o, ash) || inc_inv(src_indices@, o, ash, 1)
    decreases __i2
@body 2
    let ghost bi = src_indices@;
    proof { lemma_inc(bi, o, ash, __i2 as int); }
@end 2
    proof { assert(src_indices@ =~= bi.update(__i2 as int, 0)); }
@after 2
    proof { if j0 + 1 < l { if inc_inv(src_indices@, o, ash, 1) { lemma_row_wrap(o, src_indices@, ash, p, j0, l); } else { lemma_next(o, ash); lemma_rmi_inv(o, ash); lemma_rmi_inv(next_idx(o, ash), ash); assert(rmi(o, ash) == p * l + j0); } } }
@after 0
    proof { lemma_fill_done(result, m0, mz, mem.v(), rsh, self.dtype, s); lemma_cstr_al(result); assert(ints(m0, *indices, n)); }
@at /^ *result.reshape/
    proof { assert(full_shape@ =~= full); }
