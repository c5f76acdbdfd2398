@unit preds
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include viewmaps.rs
@include copymem.rs
@include gath.rs
@include dispmem.rs
@import iter StridedIter::new StridedIter::next
@import core RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous RumpyArray::byte_offset_for compute_c_strides increment_indices
@import movers RumpyArray::zeros RumpyArray::dtype RumpyArray::data_ptr
@import dispatch RumpyArray::iter_offsets

@raw
/// element k is true
pub open spec fn tr(m: Map<int, Seq<u8>>, a: RumpyArray, k: int) -> bool { truthy(a.dtype, nth(m, a, k)) }
/// positions, in row-major order, of the true ones among the first n elements
pub open spec fn tset(m: Map<int, Seq<u8>>, a: RumpyArray, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if tr(m, a, n - 1) { tset(m, a, n - 1).push(n - 1) } else { tset(m, a, n - 1) }
}
pub proof fn lemma_tset(m: Map<int, Seq<u8>>, a: RumpyArray, i: int, n: int)
    requires 0 <= i <= n
    ensures tset(m, a, i).len() <= tset(m, a, n).len() <= n, tset(m, a, i) == tset(m, a, n).take(tset(m, a, i).len() as int), forall|j: int| 0 <= j < tset(m, a, n).len() ==> 0 <= #[trigger] tset(m, a, n)[j] < n
    decreases n
{
    if n > 0 { if i < n { lemma_tset(m, a, i, n - 1); assert(tset(m, a, i) =~= tset(m, a, n).take(tset(m, a, i).len() as int)); } else { lemma_tset(m, a, n - 1, n - 1); assert(tset(m, a, n) =~= tset(m, a, n).take(tset(m, a, n).len() as int)); } }
    else { assert(tset(m, a, i) =~= tset(m, a, n).take(0)); }
}
/// the iterator stands before element k of a
pub open spec fn at(it: StridedIter, a: RumpyArray, k: int) -> bool { si_wf(it) && it.shape@ == a.shape@ && it.strides@ == a.strides@ && si_base(it) == 0 && k == si_pos(it) }
@endraw

@fn src/ops/array_methods/logical.rs RumpyArray::count_nonzero flags=ptrs memself mem=is_truthy
@props P09 P13
@req
    opd0(old(mem).v(), *self),
@ens
    final(mem).v() == old(mem).v(), r as int == tset(old(mem).v(), *self, prod(self.shape@)).len(),
@start
    let ghost m0 = mem.v(); let ghost n = prod(self.shape@);
    proof { lemma_prod_pos(self.shape@); lemma_pmax_le(self.shape@, isz(*self)); lemma_pmax(self.shape@); if n > 0 { lemma_unrmi_inb(0, self.shape@); } }
@inv 0
    invariant n == prod(self.shape@), n <= imax(), mem.v() == m0, m0 == old(mem).v(), opd0(m0, *self), at(__it0, *self, __i0 as int), __i0 <= n, pb(ptr) == bid(*self), po(ptr) == self.offset, ops_dt(ops) == self.dtype, count as int == tset(m0, *self, __i0 as int).len(), count <= __i0
    ensures __i0 == n,
    decreases n - __i0
@body 0
    proof { if __i0 < n { lemma_offs_b(m0, *self, __i0 as int); } }

@fn src/ops/array_methods/logical.rs RumpyArray::all flags=ptrs memself mem=is_truthy
@props P09
@req
    opd0(old(mem).v(), *self),
@ens
    final(mem).v() == old(mem).v(), r <==> (forall|k: int| 0 <= k < prod(self.shape@) ==> #[trigger] tr(old(mem).v(), *self, k)),
@start
    let ghost m0 = mem.v(); let ghost n = prod(self.shape@);
    proof { lemma_prod_pos(self.shape@); lemma_pmax_le(self.shape@, isz(*self)); lemma_pmax(self.shape@); if n > 0 { lemma_unrmi_inb(0, self.shape@); } }
@inv 0
    invariant n == prod(self.shape@), n <= imax(), mem.v() == m0, m0 == old(mem).v(), opd0(m0, *self), at(__it0, *self, __i0 as int), __i0 <= n, pb(ptr) == bid(*self), po(ptr) == self.offset, ops_dt(ops) == self.dtype, forall|k: int| 0 <= k < __i0 ==> #[trigger] tr(m0, *self, k)
    ensures __i0 == n,
    decreases n - __i0
@body 0
    proof { if __i0 < n { lemma_offs_b(m0, *self, __i0 as int); assert(tr(m0, *self, __i0 as int) == truthy(self.dtype, nth(m0, *self, __i0 as int))); } }

@fn src/ops/array_methods/logical.rs RumpyArray::any flags=ptrs memself mem=is_truthy
@props P09
@req
    opd0(old(mem).v(), *self),
@ens
    final(mem).v() == old(mem).v(), r <==> (exists|k: int| 0 <= k < prod(self.shape@) && #[trigger] tr(old(mem).v(), *self, k)),
@start
    let ghost m0 = mem.v(); let ghost n = prod(self.shape@);
    proof { lemma_prod_pos(self.shape@); lemma_pmax_le(self.shape@, isz(*self)); lemma_pmax(self.shape@); if n > 0 { lemma_unrmi_inb(0, self.shape@); } }
@inv 0
    invariant n == prod(self.shape@), n <= imax(), mem.v() == m0, m0 == old(mem).v(), opd0(m0, *self), at(__it0, *self, __i0 as int), __i0 <= n, pb(ptr) == bid(*self), po(ptr) == self.offset, ops_dt(ops) == self.dtype, forall|k: int| 0 <= k < __i0 ==> !#[trigger] tr(m0, *self, k)
    ensures __i0 == n,
    decreases n - __i0
@body 0
    proof { if __i0 < n { lemma_offs_b(m0, *self, __i0 as int); assert(tr(m0, *self, __i0 as int) == truthy(self.dtype, nth(m0, *self, __i0 as int))); } }

@fn src/ops/indexing.rs flatnonzero flags=ptrs memself mem=is_truthy,zeros rename=buffer_mut:vx_buffer
@props P13
@req
    opd0(old(mem).v(), *arr), pmax(arr.shape@) * 8 <= imax(),
@ens
    ({ let t = tset(old(mem).v(), *arr, prod(arr.shape@)); fresh(r, old(mem).v(), final(mem).v(), seq![t.len() as usize], dt_i64())
        && tvs::<i64>(final(mem).v(), r) == Seq::new(t.len(), |j: int| t[j] as i64) }),
@start
    let ghost m0 = mem.v(); let ghost n = prod(arr.shape@); let ghost t = tset(m0, *arr, n); let ghost full: Seq<i64> = Seq::new(t.len(), |j: int| t[j] as i64);
    proof { lemma_prod_pos(arr.shape@); lemma_pmax_le(arr.shape@, isz(*arr)); lemma_pmax(arr.shape@); lemma_pod(); lemma_row1(0, 8); if n > 0 { lemma_unrmi_inb(0, arr.shape@); } lemma_tset(m0, *arr, n, n); lemma_row1(t.len() as int, 8); }
@at /^ *return RumpyArray/
    proof { assert(full =~= Seq::<i64>::empty()); }
@inv 0
    invariant n == prod(arr.shape@), n <= imax(), mem.v() == m0, opd0(m0, *arr), at(__it0, *arr, __i0 as int), __i0 <= n, pb(ptr) == bid(*arr), po(ptr) == arr.offset, ops_dt(ops) == arr.dtype, __v0 as int == tset(m0, *arr, __i0 as int).len(), __v0 <= __i0
    ensures __i0 == n,
    decreases n - __i0
@body 0
    proof { if __i0 < n { lemma_offs_b(m0, *arr, __i0 as int); } }
@at /^ *return result/
    proof { assert(full =~= Seq::<i64>::empty()); assert(tvs::<i64>(mem.v(), result) =~= full); }
@at /let result_buffer/
    let ghost mz = mem.v();
    proof { lemma_wrote0::<i64>(mz, bid(result), 0); assert(full.take(0) =~= Seq::<i64>::empty()); }
@inv 1
    invariant n == prod(arr.shape@), n <= imax(), opd0(m0, *arr), at(__it1, *arr, __i1 as int), __i1 <= n, pb(ptr) == bid(*arr), po(ptr) == arr.offset, ops_dt(ops) == arr.dtype,
        t == tset(m0, *arr, n), full == Seq::new(t.len(), |j: int| t[j] as i64), fresh(result, m0, mz, seq![t.len() as usize], dt_i64()), prod(result.shape@) == t.len(), tsz::<i64>() == 8, isz(result) == 8, tb(result_ptr) == bid(result), to(result_ptr) == 0,
        result_idx as int == tset(m0, *arr, __i1 as int).len(), result_idx <= __i1, wrote(mz, mem.v(), bid(result), 0, full.take(result_idx as int))
    ensures __i1 == n,
    decreases n - __i1
@body 1
    let ghost m1 = mem.v(); let ghost c = result_idx as int; let ghost i0 = __i1 as int;
    proof { if i0 < n { lemma_offs_b(m0, *arr, i0); assert(m1[bid(*arr)] == m0[bid(*arr)]);
        lemma_tset(m0, *arr, i0, n); lemma_tset(m0, *arr, i0 + 1, n);
        if tr(m0, *arr, i0) { assert(t[c] == i0) by { assert(tset(m0, *arr, i0 + 1)[c] == i0); assert(t.take(c + 1)[c] == t[c]); }
            lemma_chunk_bound(c, t.len() as int, 8); lemma_wrote_step::<i64>(mz, m1, bid(result), 0, full.take(c), full[c], t.len() as int); assert(full.take(c).push(full[c]) =~= full.take(c + 1)); } } }
@at /^ *result *$/
    proof { assert(full.take(t.len() as int) =~= full); lemma_done::<i64>(result, m0, mz, mem.v(), result.shape@, dt_i64(), full); }

@raw
pub proof fn lemma_row2(c: usize, d: usize)
    ensures prod(seq![c, d]) == c * d, pmax(seq![c, d]) == max1(c) * max1(d)
{
    let s = seq![c, d]; let t = seq![c]; assert(s.drop_last() =~= t); assert(t.drop_last() =~= Seq::<usize>::empty()); assert(s.last() == d); assert(t.last() == c);
    assert(prod(Seq::<usize>::empty()) == 1); assert(prod(t) == 1 * c); assert(prod(s) == prod(t) * d); assert(pmax(Seq::<usize>::empty()) == 1); assert(pmax(t) == 1 * max1(c)); assert(pmax(s) == pmax(t) * max1(d));
}
/// the rows of argwhere: the index tuples of the true elements, one after another
pub open spec fn wherev(m: Map<int, Seq<u8>>, a: RumpyArray) -> Seq<i64> {
    let t = tset(m, a, prod(a.shape@)); let d = a.shape@.len() as int;
    Seq::new((t.len() * d) as nat, |q: int| unrmi(t[q / d], a.shape@)[q % d] as i64)
}
@endraw

@fn src/ops/indexing.rs argwhere flags=ptrs memself mem=zeros,is_truthy rename=buffer_mut:vx_buffer
@props P13
@req
    opd0(old(mem).v(), *arr), arr.shape@.len() > 0, pmax(arr.shape@) * arr.shape@.len() * 8 <= imax(),
@ens
    ({ let m0 = old(mem).v(); let t = tset(m0, *arr, prod(arr.shape@)); fresh(r, m0, final(mem).v(), seq![t.len() as usize, arr.shape@.len() as usize], dt_i64())
        && tvs::<i64>(final(mem).v(), r) == wherev(m0, *arr) }),
@start
    let ghost m0 = mem.v(); let ghost sh = arr.shape@; let ghost n = prod(sh); let ghost t = tset(m0, *arr, n); let ghost full = wherev(m0, *arr); let ghost dd = sh.len() as int; let ghost tl = t.len() as int;
    proof { lemma_prod_pos(sh); lemma_pmax_le(sh, isz(*arr)); lemma_pmax(sh); lemma_pod(); if n > 0 { lemma_unrmi_inb(0, sh); } lemma_tset(m0, *arr, n, n); lemma_row2(tl as usize, dd as usize); lemma_row2(0usize, dd as usize);
        assert(pmax(sh) * dd <= imax()) by (nonlinear_arith) requires pmax(sh) * dd * 8 <= imax(), pmax(sh) >= 1, dd >= 1;
        let x = max1(tl as usize) as int; assert(x * dd * 8 <= pmax(sh) * dd * 8) by (nonlinear_arith) requires x <= pmax(sh), dd >= 1;
        assert(0 <= tl * dd) by (nonlinear_arith) requires tl >= 0, dd >= 0; assert(1 * dd * 8 <= pmax(sh) * dd * 8) by (nonlinear_arith) requires 1 <= pmax(sh), dd >= 1; assert(0 * dd == 0); }
@inv 0
    invariant n == prod(arr.shape@), n <= imax(), mem.v() == m0, opd0(m0, *arr), at(__it0, *arr, __i0 as int), __i0 <= n, pb(ptr) == bid(*arr), po(ptr) == arr.offset, ops_dt(ops) == arr.dtype, __v0 as int == tset(m0, *arr, __i0 as int).len(), __v0 <= __i0
    ensures __i0 == n,
    decreases n - __i0
@body 0
    proof { if __i0 < n { lemma_offs_b(m0, *arr, __i0 as int); } }
@at /let out_ndim/
    proof { assert(count == tl); assert(tl > 0 && n > 0); }
@at /let result_buffer/
    let ghost mz = mem.v();
    proof { lemma_wrote0::<i64>(mz, bid(result), 0); assert(full.take(0) =~= Seq::<i64>::empty()); assert(prod(result.shape@) == tl * dd); }
@before 1
    proof { lemma_zero_idx(indices@, sh); }
@inv 1
    invariant __i1 <= __e1, __e1 == n, n == prod(sh), n > 0, n <= imax(), sh == arr.shape@, shape@ == sh, ndim == sh.len(), dd == sh.len(), out_ndim == dd, dd > 0, opd0(m0, *arr), pb(ptr) == bid(*arr), po(ptr) == arr.offset, ops_dt(ops) == arr.dtype, indices@.len() == dd, indices@ == unrmi(cyc(__i1 as int, n), sh),
        t == tset(m0, *arr, n), tl == t.len(), full == wherev(m0, *arr), full.len() == tl * dd, tl * dd <= imax(), fresh(result, m0, mz, seq![tl as usize, dd as usize], dt_i64()), prod(result.shape@) == tl * dd, tsz::<i64>() == 8, isz(result) == 8, blen(bid(result)) == tl * dd * 8, live(mz, bid(result)), tb(result_ptr) == bid(result), to(result_ptr) == 0,
        result_row as int == tset(m0, *arr, __i1 as int).len(), result_row <= __i1, result_row <= tl, wrote(mz, mem.v(), bid(result), 0, full.take(result_row as int * dd))
    decreases __e1 - __i1
@body 1
    let ghost c = result_row as int; let ghost i0 = __i1 as int; let ghost oi = indices@; let ghost m1 = mem.v();
    proof { lemma_step(i0, sh); lemma_unrmi_inb(i0, sh); assert(oi == unrmi(i0, sh)); lemma_inb_box(oi, sh); lemma_offs_b(m0, *arr, i0); lemma_acc(m0, *arr, oi); assert(m1[bid(*arr)] == m0[bid(*arr)]);
        lemma_tset(m0, *arr, i0, n); lemma_tset(m0, *arr, i0 + 1, n);
        assert(c * dd <= tl * dd) by (nonlinear_arith) requires c <= tl, dd > 0; assert(0 <= c * dd) by (nonlinear_arith) requires c >= 0, dd > 0;
        if tr(m0, *arr, i0) { assert(tset(m0, *arr, i0 + 1)[c] == i0); assert(t.take(c + 1)[c] == t[c]); assert((c + 1) * dd <= tl * dd && (c + 1) * dd == c * dd + dd) by (nonlinear_arith) requires c + 1 <= tl, dd > 0; } }
@before 2
    proof { assert(tr(m0, *arr, i0)); assert(full.take(c * dd + 0) == full.take(c * dd)); }
@inv 2
    invariant __i2 <= indices@.len(), indices@ == oi, oi.len() == dd, dd == sh.len(), out_ndim == dd, dd > 0, c == result_row, c < tl, sh == arr.shape@, t == tset(m0, *arr, n), n == prod(sh), tl == t.len(), t[c] == i0, oi == unrmi(i0, sh), full == wherev(m0, *arr), full.len() == tl * dd, tl * dd <= imax(), 0 <= c * dd, c * dd + dd <= tl * dd, tsz::<i64>() == 8, blen(bid(result)) == tl * dd * 8, live(mz, bid(result)), tb(result_ptr) == bid(result), to(result_ptr) == 0,
        wrote(mz, mem.v(), bid(result), 0, full.take(c * dd + __i2))
    decreases indices@.len() - __i2
@body 2
    let ghost j0 = __i2 as int; let ghost q = c * dd + j0;
    proof { lemma_fundamental_div_mod_converse(q, dd, c, j0); assert(full[q] == oi[j0] as i64); lemma_chunk_bound(q, tl * dd, 8);
        lemma_wrote_step::<i64>(mz, mem.v(), bid(result), 0, full.take(q), full[q], tl * dd); assert(full.take(q).push(full[q]) =~= full.take(q + 1)); }
@before 3
    proof { lemma_inc0(oi, sh); assert((c + 1) * dd == c * dd + dd) by (nonlinear_arith); assert(result_row as int == tset(m0, *arr, i0 + 1).len()); assert(wrote(mz, mem.v(), bid(result), 0, full.take(result_row as int * dd))); }
@inv 3
    invariant_except_break inc_inv(indices@, oi, sh, __i3 as int)
    invariant __e3 == 0, __i3 <= ndim, oi.len() == ndim, sh.len() == ndim, shape@ == sh, inb(oi, sh), indices@.len() == ndim,
    ensures indices@ == next_idx(oi, sh) || inc_inv(indices@, oi, sh, 0)
    decreases __i3
@body 3
    let ghost bi = indices@;
    proof { lemma_inc(bi, oi, sh, __i3 as int); }
@end 3
    proof { assert(indices@ =~= bi.update(__i3 as int, 0)); }
@after 3
    proof { if inc_inv(indices@, oi, sh, 0) { lemma_inc(indices@, oi, sh, 0); } }
@at /^ *result *$/
    proof { assert(full.take(tl * dd) =~= full); lemma_done::<i64>(result, m0, mz, mem.v(), result.shape@, dt_i64(), full); }
