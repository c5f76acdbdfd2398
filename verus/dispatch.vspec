@unit dispatch
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include viewmaps.rs
@include dispmem.rs
@import iter StridedIter::new StridedIter::next AxisOffsetIter::new AxisOffsetIter::next
@import core increment_indices RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous
@import movers RumpyArray::zeros RumpyArray::dtype RumpyArray::data_ptr
@import views RumpyArray::broadcast_to
@import loops map_binary map_binary_strided map_unary map_unary_strided map_compare map_compare_strided map_predicate map_predicate_strided reduce reduce_strided cumulative

@raw
impl RumpyArray {
    /// repo: buffer_mut
    pub fn vx_buffer(&self) -> (r: &Arc<ArrayBuffer>) ensures *r == self.buffer { &self.buffer }
}
/// bool elements take one byte
#[verifier::external_body]
pub proof fn lemma_bool() ensures dt_size(dt_bool()) == 1 { unimplemented!() }
@endraw

@fn src/ops/dispatch.rs dispatch_binary_typed flags=ptrs memself mem=zeros,map_binary_strided rename=buffer_mut:vx_buffer
@props P03 P04 P06 P07
@req
    opd::<T>(old(mem).v(), *a), opd::<T>(old(mem).v(), *b), a.shape@ == out_shape@, b.shape@ == out_shape@, dt_size(dtype) == tsz::<T>(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), out_shape@, dtype),
    tvs::<T>(final(mem).v(), r->0) == Seq::new(prod(out_shape@) as nat, |k: int| K::ap(tv::<T>(old(mem).v(), *a, k), tv::<T>(old(mem).v(), *b, k))),
@start
    let ghost m0 = mem.v(); let ghost dt = dtype; let ghost full: Seq<T> = Seq::new(prod(out_shape@) as nat, |k: int| K::ap(tv::<T>(m0, *a, k), tv::<T>(m0, *b, k)));
    proof { lemma_pmax_le(out_shape@, isz(*a)); lemma_tsz::<T>(); lemma_pmax(out_shape@); }
@at /return Some/
    proof { lemma_prod_nonneg(out_shape@); assert(full =~= Seq::<T>::empty()); }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_bctx::<T>(m0, mz, *a, result); lemma_keep::<T, T>(m0, mz, mz, *a, result, 0, Seq::empty()); lemma_bctx::<T>(m0, mz, *b, result); lemma_keep::<T, T>(m0, mz, mz, *b, result, 0, Seq::empty()); lemma_wrote0::<T>(mz, bid(result), 0); lemma_prod_pos(out_shape@); assert(prod(out_shape@) * 1 == prod(out_shape@)); }
@at /let a_slice/
    proof { lemma_contig::<T>(mz, *a); lemma_contig::<T>(mz, *b); }
@at /let outer_size/
    proof { lemma_pmax_take(out_shape@, out_shape@.len() - 1); assert(out_shape@.subrange(0, ndim - 1) =~= out_shape@.drop_last()); assert(out_shape@.take(ndim - 1) =~= out_shape@.drop_last()); }
@at /let a_stride =/
    proof { if out_shape@.len() == 0 { lemma_pt::<T>(mz, *a); lemma_pt::<T>(mz, *b); } else { lemma_row0::<T>(mz, *a); lemma_row0::<T>(mz, *b); } }
@inv 0
    invariant __i0 <= __e0, __e0 == outer_size, outer_size as int == prod(out_shape@.drop_last()), outer_shape@ == out_shape@.drop_last(), ndim == out_shape@.len(), ndim >= 2, inner_size == out_shape@.last(),
        prod(out_shape@) > 0, prod(out_shape@) <= imax(), a.shape@ == out_shape@, a_strides@ == a.strides@, a_inner_stride == a.strides@.last(), bctx::<T>(m0, mz, *a, result), b.shape@ == out_shape@, b_strides@ == b.strides@, b_inner_stride == b.strides@.last(), bctx::<T>(m0, mz, *b, result), itemsize as int == tsz::<T>(),
        fresh(result, m0, mz, out_shape@, dt), dt_size(dt) == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0,
        outer_indices@ == unrmi(cyc(__i0 as int, outer_size as int), outer_shape@), inb(outer_indices@, outer_shape@),
        full == Seq::new(prod(out_shape@) as nat, |k: int| K::ap(tv::<T>(m0, *a, k), tv::<T>(m0, *b, k))),
        wrote(mz, mem.v(), bid(result), 0, full.take(__i0 * inner_size))
    decreases __e0 - __i0
@before 0
    proof { lemma_prod_pos(out_shape@.drop_last()); assert(nonempty(out_shape@.drop_last())); lemma_zero_idx(outer_indices@, outer_shape@); assert(0 * (inner_size as int) == 0); assert(full.take(0) =~= Seq::<T>::empty()); }
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v(); let ghost l = inner_size as int;
    proof { lemma_keep::<T, T>(m0, mz, m1, *a, result, 0, full.take(i0 * l)); lemma_row::<T>(m1, *a, i0); lemma_keep::<T, T>(m0, mz, m1, *b, result, 0, full.take(i0 * l)); lemma_row::<T>(m1, *b, i0); lemma_tsz::<T>(); lemma_tsz::<T>(); lemma_step(i0, outer_shape@); lemma_unrmi_len(i0, outer_shape@);
        assert((i0 * l) * tsz::<T>() + l * tsz::<T>() == (i0 * l + l) * tsz::<T>() && (i0 * l + l) * tsz::<T>() <= prod(out_shape@) * tsz::<T>() && 0 <= (i0 * l) * tsz::<T>()) by (nonlinear_arith) requires i0 * l + l <= prod(out_shape@), 0 <= i0 * l, tsz::<T>() >= 1; }
@end 0
    proof { let row = Seq::new(l as nat, |j: int| K::ap(sv::<T>(m1[bid(*a)], rowb(*a, i0), a_inner_stride as int, l)[j], sv::<T>(m1[bid(*b)], rowb(*b, i0), b_inner_stride as int, l)[j]));
        lemma_rows(mz, m1, mem.v(), bid(result), i0, l, full, row); }
@after 0
    proof { assert(full.take(prod(out_shape@)) =~= full); }
@inv 1
    invariant __i1 <= __l0, __l0 == outer_indices@.len(), outer_indices@.len() + 1 == a.shape@.len(), wf(*a), a_strides@ == a.strides@, a.strides@.len() == a.shape@.len(), inb(outer_indices@, a.shape@.drop_last()),
        __v1 as int == dot(outer_indices@, a.strides@, __i1 as int)
    decreases __l0 - __i1
@body 1
    proof { assert(a.shape@.take(outer_indices@.len() as int) =~= a.shape@.drop_last()); lemma_prefix(*a, outer_indices@, __i1 as int); }
@inv 2
    invariant __i2 <= __l2, __l2 == outer_indices@.len(), outer_indices@.len() + 1 == b.shape@.len(), wf(*b), b_strides@ == b.strides@, b.strides@.len() == b.shape@.len(), inb(outer_indices@, b.shape@.drop_last()),
        __v2 as int == dot(outer_indices@, b.strides@, __i2 as int)
    decreases __l2 - __i2
@body 2
    proof { assert(b.shape@.take(outer_indices@.len() as int) =~= b.shape@.drop_last()); lemma_prefix(*b, outer_indices@, __i2 as int); }
@at /Some.result/
    proof { assert(wrote(mz, mem.v(), bid(result), 0, full)); lemma_done::<T>(result, m0, mz, mem.v(), out_shape@, dt, full); }

@fn src/ops/dispatch.rs dispatch_unary_typed flags=ptrs memself mem=zeros,map_unary_strided rename=buffer_mut:vx_buffer
@props P03 P06 P07
@req
    opd::<T>(old(mem).v(), *arr), dt_size(dtype) == tsz::<T>(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), arr.shape@, dtype),
    tvs::<T>(final(mem).v(), r->0) == Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(tv::<T>(old(mem).v(), *arr, k))),
@start
    let ghost m0 = mem.v(); let ghost dt = dtype; let ghost full: Seq<T> = Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(tv::<T>(m0, *arr, k)));
    proof { lemma_pmax_le(arr.shape@, isz(*arr)); lemma_tsz::<T>(); lemma_pmax(arr.shape@); }
@at /return Some/
    proof { lemma_prod_nonneg(arr.shape@); assert(full =~= Seq::<T>::empty()); }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_bctx::<T>(m0, mz, *arr, result); lemma_keep::<T, T>(m0, mz, mz, *arr, result, 0, Seq::empty()); lemma_wrote0::<T>(mz, bid(result), 0); lemma_prod_pos(arr.shape@); assert(prod(arr.shape@) * 1 == prod(arr.shape@)); }
@at /let src_slice/
    proof { lemma_contig::<T>(mz, *arr); }
@at /let outer_size/
    proof { lemma_pmax_take(arr.shape@, arr.shape@.len() - 1); assert(arr.shape@.subrange(0, ndim - 1) =~= arr.shape@.drop_last()); assert(arr.shape@.take(ndim - 1) =~= arr.shape@.drop_last()); }
@at /let stride =/
    proof { if arr.shape@.len() == 0 { lemma_pt::<T>(mz, *arr); } else { lemma_row0::<T>(mz, *arr); } }
@inv 0
    invariant __i0 <= __e0, __e0 == outer_size, outer_size as int == prod(arr.shape@.drop_last()), outer_shape@ == arr.shape@.drop_last(), ndim == arr.shape@.len(), ndim >= 2, inner_size == arr.shape@.last(),
        prod(arr.shape@) > 0, prod(arr.shape@) <= imax(), arr.shape@ == arr.shape@, src_strides@ == arr.strides@, inner_stride == arr.strides@.last(), bctx::<T>(m0, mz, *arr, result), itemsize as int == tsz::<T>(),
        fresh(result, m0, mz, arr.shape@, dt), dt_size(dt) == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0,
        outer_indices@ == unrmi(cyc(__i0 as int, outer_size as int), outer_shape@), inb(outer_indices@, outer_shape@),
        full == Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(tv::<T>(m0, *arr, k))),
        wrote(mz, mem.v(), bid(result), 0, full.take(__i0 * inner_size))
    decreases __e0 - __i0
@before 0
    proof { lemma_prod_pos(arr.shape@.drop_last()); assert(nonempty(arr.shape@.drop_last())); lemma_zero_idx(outer_indices@, outer_shape@); assert(0 * (inner_size as int) == 0); assert(full.take(0) =~= Seq::<T>::empty()); }
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v(); let ghost l = inner_size as int;
    proof { lemma_keep::<T, T>(m0, mz, m1, *arr, result, 0, full.take(i0 * l)); lemma_row::<T>(m1, *arr, i0); lemma_tsz::<T>(); lemma_tsz::<T>(); lemma_step(i0, outer_shape@); lemma_unrmi_len(i0, outer_shape@);
        assert((i0 * l) * tsz::<T>() + l * tsz::<T>() == (i0 * l + l) * tsz::<T>() && (i0 * l + l) * tsz::<T>() <= prod(arr.shape@) * tsz::<T>() && 0 <= (i0 * l) * tsz::<T>()) by (nonlinear_arith) requires i0 * l + l <= prod(arr.shape@), 0 <= i0 * l, tsz::<T>() >= 1; }
@end 0
    proof { let row = Seq::new(l as nat, |j: int| K::ap(sv::<T>(m1[bid(*arr)], rowb(*arr, i0), inner_stride as int, l)[j]));
        lemma_rows(mz, m1, mem.v(), bid(result), i0, l, full, row); }
@after 0
    proof { assert(full.take(prod(arr.shape@)) =~= full); }
@inv 1
    invariant __i1 <= __l0, __l0 == outer_indices@.len(), outer_indices@.len() + 1 == arr.shape@.len(), wf(*arr), src_strides@ == arr.strides@, arr.strides@.len() == arr.shape@.len(), inb(outer_indices@, arr.shape@.drop_last()),
        __v1 as int == dot(outer_indices@, arr.strides@, __i1 as int)
    decreases __l0 - __i1
@body 1
    proof { assert(arr.shape@.take(outer_indices@.len() as int) =~= arr.shape@.drop_last()); lemma_prefix(*arr, outer_indices@, __i1 as int); }
@at /Some.result/
    proof { assert(wrote(mz, mem.v(), bid(result), 0, full)); lemma_done::<T>(result, m0, mz, mem.v(), arr.shape@, dt, full); }

@fn src/ops/dispatch.rs dispatch_compare_typed flags=ptrs memself mem=zeros,map_compare_strided rename=buffer_mut:vx_buffer
@props P03 P04 P11
@req
    opd::<T>(old(mem).v(), *a), opd::<T>(old(mem).v(), *b), a.shape@ == out_shape@, b.shape@ == out_shape@, pmax(out_shape@) <= imax(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), out_shape@, dt_bool()),
    tvs::<u8>(final(mem).v(), r->0) == Seq::new(prod(out_shape@) as nat, |k: int| K::ap(tv::<T>(old(mem).v(), *a, k), tv::<T>(old(mem).v(), *b, k)) as u8),
@start
    let ghost m0 = mem.v(); let ghost dt = dt_bool(); let ghost full: Seq<u8> = Seq::new(prod(out_shape@) as nat, |k: int| K::ap(tv::<T>(m0, *a, k), tv::<T>(m0, *b, k)) as u8);
    proof { lemma_pmax_le(out_shape@, isz(*a)); lemma_tsz::<T>(); lemma_pmax(out_shape@); lemma_u8(0u8); lemma_bool(); assert(pmax(out_shape@) * 1 <= imax()) by (nonlinear_arith) requires pmax(out_shape@) <= imax(); }
@at /return Some/
    proof { lemma_prod_nonneg(out_shape@); assert(full =~= Seq::<u8>::empty()); }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_bctx::<T>(m0, mz, *a, result); lemma_keep::<T, u8>(m0, mz, mz, *a, result, 0, Seq::empty()); lemma_bctx::<T>(m0, mz, *b, result); lemma_keep::<T, u8>(m0, mz, mz, *b, result, 0, Seq::empty()); lemma_wrote0::<u8>(mz, bid(result), 0); lemma_prod_pos(out_shape@); assert(prod(out_shape@) * 1 == prod(out_shape@)); }
@at /let a_slice/
    proof { lemma_contig::<T>(mz, *a); lemma_contig::<T>(mz, *b); }
@at /let outer_size/
    proof { lemma_pmax_take(out_shape@, out_shape@.len() - 1); assert(out_shape@.subrange(0, ndim - 1) =~= out_shape@.drop_last()); assert(out_shape@.take(ndim - 1) =~= out_shape@.drop_last()); }
@at /let a_stride =/
    proof { if out_shape@.len() == 0 { lemma_pt::<T>(mz, *a); lemma_pt::<T>(mz, *b); } else { lemma_row0::<T>(mz, *a); lemma_row0::<T>(mz, *b); } }
@inv 0
    invariant __i0 <= __e0, __e0 == outer_size, outer_size as int == prod(out_shape@.drop_last()), outer_shape@ == out_shape@.drop_last(), ndim == out_shape@.len(), ndim >= 2, inner_size == out_shape@.last(),
        prod(out_shape@) > 0, prod(out_shape@) <= imax(), a.shape@ == out_shape@, a_strides@ == a.strides@, a_inner_stride == a.strides@.last(), bctx::<T>(m0, mz, *a, result), b.shape@ == out_shape@, b_strides@ == b.strides@, b_inner_stride == b.strides@.last(), bctx::<T>(m0, mz, *b, result), tsz::<u8>() == 1,
        fresh(result, m0, mz, out_shape@, dt), dt_size(dt) == tsz::<u8>(), pb(result_ptr) == bid(result), po(result_ptr) == 0,
        outer_indices@ == unrmi(cyc(__i0 as int, outer_size as int), outer_shape@), inb(outer_indices@, outer_shape@),
        full == Seq::new(prod(out_shape@) as nat, |k: int| K::ap(tv::<T>(m0, *a, k), tv::<T>(m0, *b, k)) as u8),
        wrote(mz, mem.v(), bid(result), 0, full.take(__i0 * inner_size))
    decreases __e0 - __i0
@before 0
    proof { lemma_prod_pos(out_shape@.drop_last()); assert(nonempty(out_shape@.drop_last())); lemma_zero_idx(outer_indices@, outer_shape@); assert(0 * (inner_size as int) == 0); assert(full.take(0) =~= Seq::<u8>::empty()); }
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v(); let ghost l = inner_size as int;
    proof { lemma_keep::<T, u8>(m0, mz, m1, *a, result, 0, full.take(i0 * l)); lemma_row::<T>(m1, *a, i0); lemma_keep::<T, u8>(m0, mz, m1, *b, result, 0, full.take(i0 * l)); lemma_row::<T>(m1, *b, i0); lemma_tsz::<T>(); lemma_tsz::<u8>(); lemma_step(i0, outer_shape@); lemma_unrmi_len(i0, outer_shape@);
        assert((i0 * l) * tsz::<u8>() + l * tsz::<u8>() == (i0 * l + l) * tsz::<u8>() && (i0 * l + l) * tsz::<u8>() <= prod(out_shape@) * tsz::<u8>() && 0 <= (i0 * l) * tsz::<u8>()) by (nonlinear_arith) requires i0 * l + l <= prod(out_shape@), 0 <= i0 * l, tsz::<u8>() >= 1; }
@end 0
    proof { let row = Seq::new(l as nat, |j: int| K::ap(sv::<T>(m1[bid(*a)], rowb(*a, i0), a_inner_stride as int, l)[j], sv::<T>(m1[bid(*b)], rowb(*b, i0), b_inner_stride as int, l)[j]) as u8);
        lemma_rows(mz, m1, mem.v(), bid(result), i0, l, full, row); }
@after 0
    proof { assert(full.take(prod(out_shape@)) =~= full); }
@inv 1
    invariant __i1 <= __l0, __l0 == outer_indices@.len(), outer_indices@.len() + 1 == a.shape@.len(), wf(*a), a_strides@ == a.strides@, a.strides@.len() == a.shape@.len(), inb(outer_indices@, a.shape@.drop_last()),
        __v1 as int == dot(outer_indices@, a.strides@, __i1 as int)
    decreases __l0 - __i1
@body 1
    proof { assert(a.shape@.take(outer_indices@.len() as int) =~= a.shape@.drop_last()); lemma_prefix(*a, outer_indices@, __i1 as int); }
@inv 2
    invariant __i2 <= __l2, __l2 == outer_indices@.len(), outer_indices@.len() + 1 == b.shape@.len(), wf(*b), b_strides@ == b.strides@, b.strides@.len() == b.shape@.len(), inb(outer_indices@, b.shape@.drop_last()),
        __v2 as int == dot(outer_indices@, b.strides@, __i2 as int)
    decreases __l2 - __i2
@body 2
    proof { assert(b.shape@.take(outer_indices@.len() as int) =~= b.shape@.drop_last()); lemma_prefix(*b, outer_indices@, __i2 as int); }
@at /Some.result/
    proof { assert(wrote(mz, mem.v(), bid(result), 0, full)); lemma_done::<u8>(result, m0, mz, mem.v(), out_shape@, dt, full); }

@fn src/ops/dispatch.rs dispatch_predicate_typed flags=ptrs memself mem=zeros,map_predicate_strided rename=buffer_mut:vx_buffer
@props P03 P07
@req
    opd::<T>(old(mem).v(), *arr), pmax(arr.shape@) <= imax(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), arr.shape@, dt_bool()),
    tvs::<u8>(final(mem).v(), r->0) == Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(tv::<T>(old(mem).v(), *arr, k)) as u8),
@start
    let ghost m0 = mem.v(); let ghost dt = dt_bool(); let ghost full: Seq<u8> = Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(tv::<T>(m0, *arr, k)) as u8);
    proof { lemma_pmax_le(arr.shape@, isz(*arr)); lemma_tsz::<T>(); lemma_pmax(arr.shape@); lemma_u8(0u8); lemma_bool(); assert(pmax(arr.shape@) * 1 <= imax()) by (nonlinear_arith) requires pmax(arr.shape@) <= imax(); }
@at /return Some/
    proof { lemma_prod_nonneg(arr.shape@); assert(full =~= Seq::<u8>::empty()); }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_bctx::<T>(m0, mz, *arr, result); lemma_keep::<T, u8>(m0, mz, mz, *arr, result, 0, Seq::empty()); lemma_wrote0::<u8>(mz, bid(result), 0); lemma_prod_pos(arr.shape@); assert(prod(arr.shape@) * 1 == prod(arr.shape@)); }
@at /let src_slice/
    proof { lemma_contig::<T>(mz, *arr); }
@at /let outer_size/
    proof { lemma_pmax_take(arr.shape@, arr.shape@.len() - 1); assert(arr.shape@.subrange(0, ndim - 1) =~= arr.shape@.drop_last()); assert(arr.shape@.take(ndim - 1) =~= arr.shape@.drop_last()); }
@at /let stride =/
    proof { if arr.shape@.len() == 0 { lemma_pt::<T>(mz, *arr); } else { lemma_row0::<T>(mz, *arr); } }
@inv 0
    invariant __i0 <= __e0, __e0 == outer_size, outer_size as int == prod(arr.shape@.drop_last()), outer_shape@ == arr.shape@.drop_last(), ndim == arr.shape@.len(), ndim >= 2, inner_size == arr.shape@.last(),
        prod(arr.shape@) > 0, prod(arr.shape@) <= imax(), arr.shape@ == arr.shape@, src_strides@ == arr.strides@, inner_stride == arr.strides@.last(), bctx::<T>(m0, mz, *arr, result), tsz::<u8>() == 1,
        fresh(result, m0, mz, arr.shape@, dt), dt_size(dt) == tsz::<u8>(), pb(result_ptr) == bid(result), po(result_ptr) == 0,
        outer_indices@ == unrmi(cyc(__i0 as int, outer_size as int), outer_shape@), inb(outer_indices@, outer_shape@),
        full == Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(tv::<T>(m0, *arr, k)) as u8),
        wrote(mz, mem.v(), bid(result), 0, full.take(__i0 * inner_size))
    decreases __e0 - __i0
@before 0
    proof { lemma_prod_pos(arr.shape@.drop_last()); assert(nonempty(arr.shape@.drop_last())); lemma_zero_idx(outer_indices@, outer_shape@); assert(0 * (inner_size as int) == 0); assert(full.take(0) =~= Seq::<u8>::empty()); }
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v(); let ghost l = inner_size as int;
    proof { lemma_keep::<T, u8>(m0, mz, m1, *arr, result, 0, full.take(i0 * l)); lemma_row::<T>(m1, *arr, i0); lemma_tsz::<T>(); lemma_tsz::<u8>(); lemma_step(i0, outer_shape@); lemma_unrmi_len(i0, outer_shape@);
        assert((i0 * l) * tsz::<u8>() + l * tsz::<u8>() == (i0 * l + l) * tsz::<u8>() && (i0 * l + l) * tsz::<u8>() <= prod(arr.shape@) * tsz::<u8>() && 0 <= (i0 * l) * tsz::<u8>()) by (nonlinear_arith) requires i0 * l + l <= prod(arr.shape@), 0 <= i0 * l, tsz::<u8>() >= 1; }
@end 0
    proof { let row = Seq::new(l as nat, |j: int| K::ap(sv::<T>(m1[bid(*arr)], rowb(*arr, i0), inner_stride as int, l)[j]) as u8);
        lemma_rows(mz, m1, mem.v(), bid(result), i0, l, full, row); }
@after 0
    proof { assert(full.take(prod(arr.shape@)) =~= full); }
@inv 1
    invariant __i1 <= __l0, __l0 == outer_indices@.len(), outer_indices@.len() + 1 == arr.shape@.len(), wf(*arr), src_strides@ == arr.strides@, arr.strides@.len() == arr.shape@.len(), inb(outer_indices@, arr.shape@.drop_last()),
        __v1 as int == dot(outer_indices@, arr.strides@, __i1 as int)
    decreases __l0 - __i1
@body 1
    proof { assert(arr.shape@.take(outer_indices@.len() as int) =~= arr.shape@.drop_last()); lemma_prefix(*arr, outer_indices@, __i1 as int); }
@at /Some.result/
    proof { assert(wrote(mz, mem.v(), bid(result), 0, full)); lemma_done::<u8>(result, m0, mz, mem.v(), arr.shape@, dt, full); }

@fn src/ops/dispatch.rs dispatch_reduce_typed flags=ptrs memself mem=reduce_strided
@props P03 P09
@req
    opd::<T>(old(mem).v(), *arr), size as int == prod(arr.shape@),
@ens
    final(mem).v() == old(mem).v(), r is Some ==> is_red::<T, K>(r->0, tvs::<T>(old(mem).v(), *arr)), (arr.flags.c || arr.shape@.len() <= 1 || size == 0) ==> r is Some,
@start
    proof { let s = tvs::<T>(mem.v(), *arr); lemma_lt::<T, K>(s, 0); if size == 0 { assert(s.len() == 0); lemma_red::<T, K>(lt(0), s); } lemma_pmax_le(arr.shape@, isz(*arr)); lemma_pmax(arr.shape@); }
@at /let slice =/
    proof { lemma_contig::<T>(mem.v(), *arr); }
@at /let stride =/
    proof { lemma_prod_pos(arr.shape@); if arr.shape@.len() == 0 { lemma_pt::<T>(mem.v(), *arr); } else { lemma_row0::<T>(mem.v(), *arr); } }

@fn src/array/mod.rs RumpyArray::axis_offsets
@props P09 P03
@req
    wf(*self), axis < self.shape@.len(),
@ens
    si_wf(r.inner), r.inner.shape@ == osh_of(self.shape@, axis as int), r.inner.strides@ == ost_of(self.strides@, axis as int),
    si_base(r.inner) == 0, r.inner.remaining == prod(r.inner.shape@),
@start
    proof { lemma_axis_box(*self, axis as int); }

@fn src/ops/dispatch.rs dispatch_reduce_axis_typed flags=ptrs memself mem=zeros,reduce_strided rename=buffer_mut:vx_buffer
@props P03 P09
@req
    opd::<T>(old(mem).v(), *arr), axis < arr.shape@.len(), dt_size(dtype) == tsz::<T>(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), osh_of(arr.shape@, axis as int), dtype),
    forall|k: int| 0 <= k < prod(arr.shape@.remove(axis as int)) ==> is_red::<T, K>(#[trigger] tv::<T>(final(mem).v(), r->0, k), lnv::<T>(old(mem).v(), *arr, axis as int, k)),
@start
    let ghost m0 = mem.v(); let ghost osh = osh_of(arr.shape@, axis as int); let ghost mut w: Seq<T> = Seq::empty(); let ghost sh = arr.shape@; let ghost ax = axis as int;
    proof { lemma_axis_box(*arr, axis as int); lemma_drop(arr.shape@, axis as int); lemma_tsz::<T>(); lemma_pmax_le(osh, isz(*arr)); lemma_pmax(osh); lemma_dim_le(sh, isz(*arr), ax); }
@at /let axis_stride/
    proof { assert(out_shape@ =~= osh); }
@at /let out_size =/
    let ghost mz = mem.v();
    proof { lemma_bctx::<T>(m0, mz, *arr, result); lemma_wrote0::<T>(mz, bid(result), 0); assert(0 * tsz::<T>() == 0) by (nonlinear_arith); }
@inv 0
    invariant __i0 <= __e0, __e0 == out_size, fresh(result, m0, mz, osh, dtype), tb(result_ptr) == bid(result), to(result_ptr) == 0, out_size <= imax(), blen(bid(result)) == out_size * tsz::<T>(),
        w == Seq::new(__i0 as nat, |k: int| K::i0()), wrote(mz, mem.v(), bid(result), 0, w)
    decreases __e0 - __i0
@before 0
    proof { assert(w =~= Seq::new(0, |k: int| K::i0())); }
@body 0
    let ghost i0 = __i0 as int;
    proof { lemma_wrote_step::<T>(mz, mem.v(), bid(result), 0, w, K::i0(), out_size as int); lemma_tsz::<T>(); lemma_chunk_bound(i0, out_size as int, tsz::<T>()); w = w.push(K::i0()); assert(w =~= Seq::new((i0 + 1) as nat, |k: int| K::i0())); }
@at /return Some/
    proof {
        lemma_done::<T>(result, m0, mz, mem.v(), osh, dtype, w);
        assert forall|k: int| 0 <= k < prod(sh.remove(ax)) implies is_red::<T, K>(#[trigger] tv::<T>(mem.v(), result, k), lnv::<T>(m0, *arr, ax, k)) by {
            assert(tvs::<T>(mem.v(), result)[k] == w[k]); let s = lnv::<T>(m0, *arr, ax, k); assert(s.len() == 0); lemma_lt::<T, K>(s, 0); lemma_red::<T, K>(lt(0), s); }
    }
@inv 1
    invariant fresh(result, m0, mz, osh, dtype), dt_size(dtype) == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), axis < arr.shape@.len(), axis_len == arr.shape@[axis as int], axis_len > 0, axis_stride == arr.strides@[axis as int], axis_stride as int == tsz::<T>(),
        osh == osh_of(arr.shape@, axis as int), out_size as int == prod(osh), prod(osh) == prod(arr.shape@.remove(axis as int)), out_size <= imax(), blen(bid(result)) == out_size * tsz::<T>(),
        si_wf(__it1.inner), __it1.inner.shape@ == osh, __it1.inner.strides@ == ost_of(arr.strides@, axis as int), si_base(__it1.inner) == 0, __i1 == si_pos(__it1.inner), __i1 <= out_size,
        w.len() == __i1, wrote(mz, mem.v(), bid(result), 0, w), forall|k: int| 0 <= k < __i1 ==> is_red::<T, K>(#[trigger] w[k], lnv::<T>(m0, *arr, axis as int, k))
    ensures __i1 == out_size,
    decreases out_size - __i1
@body 1
    let ghost i0 = __i1 as int; let ghost m1 = mem.v(); let ghost pos = si_pos(__it1.inner);
    proof { if i0 < out_size { lemma_keep::<T, T>(m0, mz, m1, *arr, result, 0, w); lemma_lane::<T>(m1, *arr, axis as int, i0); lemma_lane_keep::<T>(m0, m1, *arr, axis as int, i0); lemma_tsz::<T>(); lemma_sv_vals::<T>(m1[bid(*arr)], arr.offset + si_at(osh, ost_of(arr.strides@, axis as int), 0, i0), axis_len as int); lemma_sacc_acc::<T>(m1, bid(*arr), arr.offset + si_at(osh, ost_of(arr.strides@, axis as int), 0, i0), axis_len as int); } }
@at /vx_write.__w1/
    proof { lemma_wrote_step::<T>(mz, mem.v(), bid(result), 0, w, __w1, out_size as int); lemma_chunk_bound(i0, out_size as int, tsz::<T>()); w = w.push(__w1); }
@inv 2
    invariant __i2 <= __e2, __e2 == out_size, fresh(result, m0, mz, osh, dtype), tb(result_ptr) == bid(result), to(result_ptr) == 0, out_size <= imax(), blen(bid(result)) == out_size * tsz::<T>(),
        w == Seq::new(__i2 as nat, |k: int| K::i0()), wrote(mz, mem.v(), bid(result), 0, w)
    decreases __e2 - __i2
@before 2
    proof { assert(w =~= Seq::new(0, |k: int| K::i0())); }
@body 2
    let ghost i0 = __i2 as int;
    proof { lemma_wrote_step::<T>(mz, mem.v(), bid(result), 0, w, K::i0(), out_size as int); lemma_tsz::<T>(); lemma_chunk_bound(i0, out_size as int, tsz::<T>()); w = w.push(K::i0()); assert(w =~= Seq::new((i0 + 1) as nat, |k: int| K::i0())); }
@at /let outer_size/
    proof { lemma_pmax_le(sh, isz(*arr)); lemma_pmax_skip(sh, ax); lemma_pmax_skip(sh, ax + 1); assert(sh.subrange(0, ax) =~= sh.take(ax)); assert(sh.subrange(ax + 1, sh.len() as int) =~= sh.skip(ax + 1)); }
@before 3
    let ghost O = outer_size as int; let ghost I = inner_size as int; let ghost L = axis_len as int;
    proof {
        let (pa, pc) = (sh.take(ax), sh.skip(ax + 1)); lemma_prod_remove(sh, ax); lemma_prod_pos(sh); lemma_prod_nonneg(sh.remove(ax)); assert(prod(sh) > 0) by (nonlinear_arith) requires prod(sh) == prod(sh.remove(ax)) * sh[ax], prod(sh.remove(ax)) > 0, sh[ax] > 0;
        assert(sh.subrange(0, ax) =~= pa); assert(sh.subrange(ax + 1, sh.len() as int) =~= pc); lemma_prod_pos(pa); lemma_prod_pos(pc); assert(nonempty(pa)); assert(nonempty(pc));
        lemma_lane_c::<T>(m0, *arr, ax, 0, 0, 0);
        assert(0 * I == 0 && 0 * L == 0) by (nonlinear_arith); lemma_pmax(sh); lemma_pmax_le(sh, isz(*arr));
        let w2 = acst::<T, K>(m0, *arr, ax, out_size as int, 0, I, L, 0, 0); assert(w =~= w2);
    }
@inv 3
    invariant fresh(result, m0, mz, osh, dtype), dt_size(dtype) == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), arr.flags.c, ax == axis, axis < arr.shape@.len(), axis_len == arr.shape@[ax], L == axis_len, I == inner_size, O == outer_size, L > 0, sh == arr.shape@,
        I == prod(sh.skip(ax + 1)), O == prod(sh.take(ax)), prod(sh.remove(ax)) == O * I, prod(sh) == (O * L) * I, prod(sh) <= imax(), out_size as int == O * I, out_size <= imax(), blen(bid(result)) == out_size * tsz::<T>(), tb(src_ptr) == bid(*arr), to(src_ptr) == arr.offset,
        __i3 <= __e3, __e3 == outer_size, src_idx as int == (__i3 * L) * I, 
        wrote(mz, mem.v(), bid(result), 0, acst::<T, K>(m0, *arr, ax, out_size as int, __i3 * I, I, L, 0, 0))
    decreases __e3 - __i3
@body 3
    let ghost o = __i3 as int;
    proof { lemma_chunk_bound(o, O, I); assert(o * L + 0 == o * L && ((o * L) + 0) * I == (o * L) * I); }
@end 3
    proof { assert((o + 1) * L == o * L + L && (o + 1) * I == o * I + I) by (nonlinear_arith); assert(acst::<T, K>(m0, *arr, ax, out_size as int, o * I, I, L, L, 0) =~= acst::<T, K>(m0, *arr, ax, out_size as int, (o + 1) * I, I, L, 0, 0)); }
@inv 4
    invariant fresh(result, m0, mz, osh, dtype), dt_size(dtype) == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), arr.flags.c, ax == axis, axis < arr.shape@.len(), axis_len == arr.shape@[ax], L == axis_len, I == inner_size, O == outer_size, L > 0, sh == arr.shape@,
        I == prod(sh.skip(ax + 1)), O == prod(sh.take(ax)), prod(sh.remove(ax)) == O * I, prod(sh) == (O * L) * I, prod(sh) <= imax(), out_size as int == O * I, out_size <= imax(), blen(bid(result)) == out_size * tsz::<T>(), tb(src_ptr) == bid(*arr), to(src_ptr) == arr.offset,
        __i4 <= __e4, __e4 == axis_len, 0 <= o < O, out_base as int == o * I, src_idx as int == (o * L + __i4) * I, 
        wrote(mz, mem.v(), bid(result), 0, acst::<T, K>(m0, *arr, ax, out_size as int, o * I, I, L, __i4 as int, 0))
    decreases __e4 - __i4
@body 4
    let ghost j = __i4 as int;
@end 4
    proof { assert((o * L + (j + 1)) * I == (o * L + j) * I + I) by (nonlinear_arith); lemma_chunk_bound(o, O, I); assert(acst::<T, K>(m0, *arr, ax, out_size as int, o * I, I, L, j, I) =~= acst::<T, K>(m0, *arr, ax, out_size as int, o * I, I, L, j + 1, 0)); }
@inv 5
    invariant fresh(result, m0, mz, osh, dtype), dt_size(dtype) == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), arr.flags.c, ax == axis, axis < arr.shape@.len(), axis_len == arr.shape@[ax], L == axis_len, I == inner_size, O == outer_size, L > 0, sh == arr.shape@,
        I == prod(sh.skip(ax + 1)), O == prod(sh.take(ax)), prod(sh.remove(ax)) == O * I, prod(sh) == (O * L) * I, prod(sh) <= imax(), out_size as int == O * I, out_size <= imax(), blen(bid(result)) == out_size * tsz::<T>(), tb(src_ptr) == bid(*arr), to(src_ptr) == arr.offset,
        __i5 <= __e5, __e5 == inner_size, 0 <= o < O, 0 <= j < L, out_base as int == o * I, src_idx as int == (o * L + j) * I + __i5, 
        wrote(mz, mem.v(), bid(result), 0, acst::<T, K>(m0, *arr, ax, out_size as int, o * I, I, L, j, __i5 as int))
    decreases __e5 - __i5
@body 5
    let ghost x = __i5 as int; let ghost kk = o * I + x; let ghost m1 = mem.v(); let ghost w1 = acst::<T, K>(m0, *arr, ax, out_size as int, o * I, I, L, j, x); let ghost nv = K::cb(w1[kk], lnv::<T>(m0, *arr, ax, kk)[j]);
    proof { lemma_keep::<T, T>(m0, mz, m1, *arr, result, 0, w1); lemma_lane_c::<T>(m1, *arr, ax, o, j, x); lemma_lane_keep::<T>(m0, m1, *arr, ax, kk); lemma_wrote_upd::<T>(mz, m1, bid(result), 0, w1, kk, nv); lemma_tsz::<T>(); lemma_chunk_bound(kk, out_size as int, tsz::<T>()); }
@end 5
    proof { assert(w1.update(kk, nv) =~= acst::<T, K>(m0, *arr, ax, out_size as int, o * I, I, L, j, x + 1)); }
@after 3
    proof { w = acst::<T, K>(m0, *arr, ax, out_size as int, O * I, I, L, 0, 0);
        assert forall|k: int| 0 <= k < out_size implies is_red::<T, K>(#[trigger] w[k], lnv::<T>(m0, *arr, ax, k)) by { let s = lnv::<T>(m0, *arr, ax, k); lemma_lt::<T, K>(s, s.len() as int); lemma_red::<T, K>(lt(s.len() as int), s); } }
@inv 6
    invariant fresh(result, m0, mz, osh, dtype), dt_size(dtype) == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), axis < arr.shape@.len(), axis_len == arr.shape@[axis as int], axis_len > 0, axis_stride == arr.strides@[axis as int], 
        osh == osh_of(arr.shape@, axis as int), out_size as int == prod(osh), prod(osh) == prod(arr.shape@.remove(axis as int)), out_size <= imax(), blen(bid(result)) == out_size * tsz::<T>(),
        si_wf(__it6.inner), __it6.inner.shape@ == osh, __it6.inner.strides@ == ost_of(arr.strides@, axis as int), si_base(__it6.inner) == 0, __i6 == si_pos(__it6.inner), __i6 <= out_size,
        w.len() == __i6, wrote(mz, mem.v(), bid(result), 0, w), forall|k: int| 0 <= k < __i6 ==> is_red::<T, K>(#[trigger] w[k], lnv::<T>(m0, *arr, axis as int, k))
    ensures __i6 == out_size,
    decreases out_size - __i6
@body 6
    let ghost i0 = __i6 as int; let ghost m1 = mem.v(); let ghost pos = si_pos(__it6.inner);
    proof { if i0 < out_size { lemma_keep::<T, T>(m0, mz, m1, *arr, result, 0, w); lemma_lane::<T>(m1, *arr, axis as int, i0); lemma_lane_keep::<T>(m0, m1, *arr, axis as int, i0); lemma_tsz::<T>();  } }
@at /vx_write.__w4/
    proof { lemma_wrote_step::<T>(mz, mem.v(), bid(result), 0, w, __w4, out_size as int); lemma_chunk_bound(i0, out_size as int, tsz::<T>()); w = w.push(__w4); }
@at /^ *Some.result/
    proof { lemma_done::<T>(result, m0, mz, mem.v(), osh, dtype, w);
        assert forall|k: int| 0 <= k < prod(sh.remove(ax)) implies is_red::<T, K>(#[trigger] tv::<T>(mem.v(), result, k), lnv::<T>(m0, *arr, ax, k)) by { assert(tvs::<T>(mem.v(), result)[k] == w[k]); } }

@fn src/array/mod.rs RumpyArray::iter_offsets
@props P03 P10
@req
    wf(*self),
@ens
    si_wf(r), r.shape@ == self.shape@, r.strides@ == self.strides@, si_base(r) == 0, r.remaining == prod(r.shape@),
@start
    proof { lemma_pmax_le(self.shape@, isz(*self)); lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int); }

@fn src/ops/dispatch.rs dispatch_cumulative_flat flags=ptrs memself mem=zeros rename=buffer_mut:vx_buffer
@props P03 P10
@req
    opd::<T>(old(mem).v(), *arr), dt_size(dtype) == tsz::<T>(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), seq![prod(arr.shape@) as usize], dtype),
    tvs::<T>(final(mem).v(), r->0) == Seq::new(prod(arr.shape@) as nat, |i: int| lf::<T, K>(tvs::<T>(old(mem).v(), *arr), i + 1)),
@start
    let ghost m0 = mem.v(); let ghost n = prod(arr.shape@); let ghost osh = seq![n as usize]; let ghost full: Seq<T> = Seq::new(n as nat, |i: int| lf::<T, K>(tvs::<T>(m0, *arr), i + 1));
    proof { lemma_pmax_le(arr.shape@, isz(*arr)); lemma_tsz::<T>(); lemma_pmax(arr.shape@); reveal_with_fuel(pmax, 2); reveal_with_fuel(prod, 2); assert(osh.drop_last() =~= Seq::<usize>::empty()); assert(1 * n == n && 1 * max1(n as usize) == max1(n as usize)); assert(pmax(osh) == max1(n as usize) && prod(osh) == n);
        let z = isz(*arr); let p = pmax(arr.shape@); assert(pmax(osh) * z <= imax()) by (nonlinear_arith) requires pmax(osh) <= p, p * z <= imax(), z >= 1; }
@at /return Some/
    proof { assert(full =~= Seq::<T>::empty()); assert(seq![0usize] =~= osh); }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_bctx::<T>(m0, mz, *arr, result); lemma_keep::<T, T>(m0, mz, mz, *arr, result, 0, Seq::empty()); lemma_wrote0::<T>(mz, bid(result), 0); }
@at /let src_slice/
    proof { lemma_contig::<T>(mz, *arr); assert(seq![size] =~= osh); }
@before 0
    proof { assert(full.take(0) =~= Seq::<T>::empty()); assert(seq![size] =~= osh); }
@inv 0
    invariant fresh(result, m0, mz, osh, dtype), dt_size(dtype) == tsz::<T>(), itemsize as int == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), n == prod(arr.shape@), n <= imax(), prod(osh) == n, blen(bid(result)) == n * tsz::<T>(), n == size,
        full == Seq::new(n as nat, |i: int| lf::<T, K>(tvs::<T>(m0, *arr), i + 1)),
        si_wf(__it0), __it0.shape@ == arr.shape@, __it0.strides@ == arr.strides@, si_base(__it0) == 0, __i0 == si_pos(__it0), __i0 <= n,
        acc == lf::<T, K>(tvs::<T>(m0, *arr), __i0 as int), wrote(mz, mem.v(), bid(result), 0, full.take(__i0 as int))
    ensures __i0 == n,
    decreases n - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof { if i0 < n { lemma_prod_pos(arr.shape@); lemma_keep::<T, T>(m0, mz, m1, *arr, result, 0, full.take(i0)); lemma_offs::<T>(m1, *arr, i0); lemma_tsz::<T>(); assert(tv::<T>(m1, *arr, i0) == tvs::<T>(m1, *arr)[i0]); lemma_chunk_bound(i0, n, tsz::<T>());
        lemma_wrote_step::<T>(mz, m1, bid(result), 0, full.take(i0), full[i0], n); assert(full.take(i0).push(full[i0]) =~= full.take(i0 + 1)); } }
@at /^ *Some.result/
    proof { assert(full.take(n) =~= full); assert(wrote(mz, mem.v(), bid(result), 0, full)); lemma_done::<T>(result, m0, mz, mem.v(), osh, dtype, full); }

@fn src/ops/dispatch.rs dispatch_cumulative_axis flags=ptrs memself mem=zeros rename=buffer_mut:vx_buffer
@props P03 P10
@req
    opd::<T>(old(mem).v(), *arr), axis < arr.shape@.len(), dt_size(dtype) == tsz::<T>(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), arr.shape@, dtype),
    forall|k: int, j: int| 0 <= k < prod(arr.shape@.remove(axis as int)) && 0 <= j < arr.shape@[axis as int] ==> #[trigger] lnv::<T>(final(mem).v(), r->0, axis as int, k)[j] == lf::<T, K>(lnv::<T>(old(mem).v(), *arr, axis as int, k), j + 1),
@start
    let ghost m0 = mem.v(); let ghost sh = arr.shape@; let ghost ax = axis as int; let ghost q = prod(sh.remove(ax)); let ghost n = prod(sh); let ghost L = sh[ax] as int; let ghost z = tsz::<T>();
    proof { lemma_pmax_le(sh, isz(*arr)); lemma_tsz::<T>(); lemma_pmax(sh); lemma_prod_remove(sh, ax); lemma_prod_nonneg(sh.remove(ax)); lemma_axis_box(*arr, ax); lemma_drop(sh, ax); lemma_dim_le(sh, isz(*arr), ax); }
@at /return Some/
    proof { assert(q == 0 || L == 0) by (nonlinear_arith) requires q * L == 0; }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_prod_pos(sh); lemma_bctx::<T>(m0, mz, *arr, result); assert(nonempty(sh)); assert(L > 0); assert(q > 0) by (nonlinear_arith) requires n == q * L, n > 0, L > 0, q >= 0; assert(q <= n) by (nonlinear_arith) requires n == q * L, L > 0, q > 0; }
@before 0
    proof { lemma_fundamental_div_mod_converse(n, L, q, 0); lemma_suf_skip(sh, ax + 1); assert(L == 1 || prod(sh.skip(ax + 1)) == 1) by { if L != 1 { let s = suf(sh, ax + 1); assert(z * s == z); assert(s == 1) by (nonlinear_arith) requires z * s == z, z >= 1; } } }
@inv 0
    invariant fresh(result, m0, mz, sh, dtype), dt_size(dtype) == tsz::<T>(), z == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), ax == axis, axis < sh.len(), sh == arr.shape@, L == sh[ax], axis_len == L, L > 0, L <= imax(), q == prod(sh.remove(ax)), n == prod(sh), n == q * L, n <= imax(), pmax(sh) <= imax(), nonempty(sh), blen(bid(result)) == n * z, axis_stride == arr.strides@[ax],
        __i0 <= __e0, __e0 == outer_size, outer_size == q, arr.flags.c, axis_stride as int == z, L == 1 || prod(sh.skip(ax + 1)) == 1, tb(src_ptr) == bid(*arr), to(src_ptr) == arr.offset,
        cumst::<T, K>(m0, mz, mem.v(), *arr, result, ax, __i0 as int, 0)
    decreases __e0 - __i0
@body 0
    let ghost k0 = __i0 as int; let ghost m1 = mem.v();
    proof {
        lemma_chunk_bound(k0, q, L); lemma_tsz::<T>();
        let wz = Seq::<T>::empty(); assert(m1[bid(*arr)] == m0[bid(*arr)]); assert(opd::<T>(m1, *arr));
        lemma_lane::<T>(m1, *arr, ax, k0); lemma_lane_keep::<T>(m0, m1, *arr, ax, k0); lemma_drop(sh, ax);
        let b = arr.offset + si_at(osh_of(sh, ax), ost_of(arr.strides@, ax), 0, k0);
        lemma_sv_vals::<T>(m1[bid(*arr)], b, L); lemma_sacc_acc::<T>(m1, bid(*arr), b, L);
        lemma_lpos(sh, ax, k0, 0); lemma_lpos_c(sh, ax, k0, 0); lemma_addr_c(*arr, unrmi(k0, sh.remove(ax)).insert(ax, 0usize));
        assert(sat(b, z, 0) == b) by { assert(0 * z == 0) by (nonlinear_arith); }
        lemma_lane_start::<T>(*arr, ax, k0); assert(z * (k0 * L) == (k0 * L) * z) by (nonlinear_arith); assert(k0 * L + 0 == k0 * L);
        assert(b == arr.offset + (k0 * L) * z);
        assert((k0 * L) * z + L * z == (k0 * L + L) * z && (k0 * L + L) * z <= n * z && 0 <= (k0 * L) * z) by (nonlinear_arith) requires k0 * L + L <= n, z >= 1, 0 <= k0 * L;
        assert(0 + (k0 * L) * z == (k0 * L) * z);
    }
@end 0
    proof {
        assert forall|k: int, j: int| 0 <= k < q && 0 <= j < L implies #[trigger] lpos(sh, ax, k, j) == k * L + j by { lemma_lpos_c(sh, ax, k, j); }
        let s = Seq::new(L as nat, |i: int| lf::<T, K>(lnv::<T>(m0, *arr, ax, k0), i + 1));
        lemma_cum_lane::<T, K>(m0, mz, m1, mem.v(), *arr, result, ax, k0, dtype, s);
    }
@at /let outer_size : usize/
    proof { assert(sh.subrange(0, ax) + sh.subrange(ax + 1, sh.len() as int) =~= sh.remove(ax)); assert(outer_shape@ =~= osh_of(sh, ax)); lemma_pmax(sh.remove(ax)); assert(pmax(sh.remove(ax)) <= imax()) by (nonlinear_arith) requires pmax(sh.remove(ax)) * isz(*arr) <= imax(), isz(*arr) >= 1, pmax(sh.remove(ax)) >= 1; }
@before 1
    let ghost osh = outer_shape@;
    proof { lemma_prod_pos(osh); lemma_zero_idx(outer_indices@, osh); }
@inv 1
    invariant fresh(result, m0, mz, sh, dtype), dt_size(dtype) == tsz::<T>(), z == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), ax == axis, axis < sh.len(), sh == arr.shape@, L == sh[ax], axis_len == L, L > 0, L <= imax(), q == prod(sh.remove(ax)), n == prod(sh), n == q * L, n <= imax(), pmax(sh) <= imax(), nonempty(sh), blen(bid(result)) == n * z, axis_stride == arr.strides@[ax],
        __i1 <= __e1, __e1 == outer_size, outer_size == q, osh == osh_of(sh, ax), outer_shape@ == osh, prod(osh) == q, nonempty(osh), strides@ == arr.strides@, ndim == sh.len(), shape@ == sh,
        outer_indices@ == unrmi(cyc(__i1 as int, q), osh), inb(outer_indices@, osh),
        cumst::<T, K>(m0, mz, mem.v(), *arr, result, ax, __i1 as int, 0)
    decreases __e1 - __i1
@body 1
    let ghost k0 = __i1 as int; let ghost u = unrmi(k0, sh.remove(ax)); let ghost v0 = u.insert(ax, 0usize);
    proof { lemma_step(k0, osh); lemma_drop(sh, ax); lemma_unrmi_len(k0, osh); lemma_unrmi_inb(k0, sh.remove(ax)); lemma_ins_inb(u, sh, ax, 0); }
@inv 2
    invariant __i2 <= __e2, __e2 == ndim, ndim == sh.len(), sh == arr.shape@, wf(*arr), strides@ == arr.strides@, ax == axis, axis < ndim, inb(v0, sh), v0 == u.insert(ax, 0usize), u.len() == ndim - 1, ndim >= 2 ==> outer_indices@ == u, outer_idx == (if __i2 <= axis { __i2 as int } else { __i2 - 1 }),
        base_offset as int == dot(v0, arr.strides@, __i2 as int)
    decreases __e2 - __i2
@body 2
    proof { assert(sh.take(sh.len() as int) =~= sh); lemma_prefix(*arr, v0, __i2 as int); if __i2 == ax { assert(0 * (arr.strides@[ax] as int) == 0) by (nonlinear_arith); } }
@before 3
    proof { assert(m0 == m0); }
@inv 3
    invariant fresh(result, m0, mz, sh, dtype), dt_size(dtype) == tsz::<T>(), z == tsz::<T>(), tb(result_ptr) == bid(result), to(result_ptr) == 0, bctx::<T>(m0, mz, *arr, result), ax == axis, axis < sh.len(), sh == arr.shape@, L == sh[ax], axis_len == L, L > 0, L <= imax(), q == prod(sh.remove(ax)), n == prod(sh), n == q * L, n <= imax(), pmax(sh) <= imax(), nonempty(sh), blen(bid(result)) == n * z, axis_stride == arr.strides@[ax],
        __i3 <= __e3, __e3 == axis_len, 0 <= k0 < q, u == unrmi(k0, sh.remove(ax)), v0 == u.insert(ax, 0usize), u.len() == ndim - 1, ndim >= 2 ==> outer_indices@ == u, base_offset as int == dot(v0, arr.strides@, sh.len() as int), ndim == sh.len(), shape@ == sh,
        acc == lf::<T, K>(lnv::<T>(m0, *arr, ax, k0), __i3 as int),
        cumst::<T, K>(m0, mz, mem.v(), *arr, result, ax, k0, __i3 as int)
    decreases __e3 - __i3
@body 3
    let ghost j0 = __i3 as int; let ghost m1 = mem.v(); let ghost vj = u.insert(ax, j0 as usize);
    proof {
        assert(m1[bid(*arr)] == m0[bid(*arr)]); lemma_unrmi_inb(k0, sh.remove(ax)); lemma_ins_inb(u, sh, ax, j0); lemma_ins_inb(u, sh, ax, 0); lemma_addr_ok(*arr, vj); lemma_addr_ok(*arr, v0); lemma_dot_remove(vj, arr.strides@, ax); lemma_dot_remove(v0, arr.strides@, ax); assert(0 * (arr.strides@[ax] as int) == 0) by (nonlinear_arith);
        lemma_ext_mono(sh, arr.strides@, 0, sh.len() as int); assert(arr.offset <= imax()); assert(addr(*arr, vj) == arr.offset + base_offset + j0 * axis_stride); lemma_lane_keep::<T>(m0, m1, *arr, ax, k0); lemma_tsz::<T>();
        assert(sh.take(sh.len() as int) =~= sh); lemma_prefix(*arr, vj, ax);
        lemma_cum_step::<T, K>(m0, mz, m1, *arr, result, ax, k0, j0, dtype, lf::<T, K>(lnv::<T>(m0, *arr, ax, k0), j0 + 1)); lemma_sdot(vj, sh, 0); assert(vj.take(0) =~= Seq::<usize>::empty()); assert(rmi(vj.take(0), sh.take(0)) == 0); assert(0 * suf(sh, 0) == 0); assert(lpos(sh, ax, k0, j0) == sdot(vj, sh, 0));
    }
@before 4
    proof { assert(suf(sh, sh.len() as int) == 1); }
@inv 4
    invariant __i4 <= ndim, __e4 == 0, ndim == sh.len(), shape@ == sh, pmax(sh) <= imax(), ax == axis, axis < ndim, inb(vj, sh), vj == u.insert(ax, j), u.len() == ndim - 1, ndim >= 2 ==> outer_indices@ == u,
        flat_idx as int == sdot(vj, sh, __i4 as int), stride as int == suf(sh, __i4 as int)
    decreases __i4
@body 4
    proof { let i = __i4 - 1; lemma_sdot(vj, sh, i); lemma_sdot(vj, sh, i + 1); lemma_suf_le(sh, i); lemma_suf_le(sh, i + 1); lemma_pmax(sh); assert(vj[i] < sh[i]); assert(0 <= vj[i] * suf(sh, i + 1)) by (nonlinear_arith) requires vj[i] >= 0, suf(sh, i + 1) >= 0; assert(suf(sh, i + 1) * sh[i] == sh[i] * suf(sh, i + 1)) by (nonlinear_arith); }
@after 3
    proof { lemma_cum_next::<T, K>(m0, mz, mem.v(), *arr, result, ax, k0); }
@at /^ *Some.result/
    proof { assert(cumst::<T, K>(m0, mz, mem.v(), *arr, result, ax, q, 0)); lemma_cum_done::<T, K>(m0, mz, mem.v(), *arr, result, ax, dtype); }

@fn src/ops/dispatch.rs dispatch_where_typed flags=ptrs memself mem=zeros,is_truthy rename=buffer_mut:vx_buffer
@props P03 P04 P13
@req
    opd0(old(mem).v(), *cond), opd::<T>(old(mem).v(), *x), opd::<T>(old(mem).v(), *y), dt_size(dtype) == tsz::<T>(), pmax(out_shape@) * isz(*cond) <= imax(), pmax(out_shape@) * tsz::<T>() <= imax(),
@ens
    r is Some <==> prod(out_shape@) == 0 || (bc_ok(cond.shape@, out_shape@) && bc_ok(x.shape@, out_shape@) && bc_ok(y.shape@, out_shape@)),
    r is Some ==> fresh(r->0, old(mem).v(), final(mem).v(), out_shape@, dtype),
    r is Some ==> tvs::<T>(final(mem).v(), r->0) == Seq::new(prod(out_shape@) as nat, |k: int| wsel::<T>(old(mem).v(), *cond, *x, *y, out_shape@, k)),
@start
    let ghost m0 = mem.v(); let ghost n = prod(out_shape@); let ghost full: Seq<T> = Seq::new(n as nat, |k: int| wsel::<T>(m0, *cond, *x, *y, out_shape@, k));
    proof { lemma_tsz::<T>(); lemma_pmax(out_shape@); lemma_pmax_le(out_shape@, tsz::<T>()); }
@at /return Some/
    proof { assert(full =~= Seq::<T>::empty()); }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_prod_pos(out_shape@); lemma_wrote0::<T>(mz, bid(result), 0); assert(full.take(0) =~= Seq::<T>::empty()); }
@inv 0
    invariant __i0 <= __e0, __e0 == size, fresh(result, m0, mz, out_shape@, dtype), dt_size(dtype) == tsz::<T>(), isz(x_bc) == tsz::<T>(), isz(y_bc) == tsz::<T>(), cond_dtype == cond.dtype, isz(cond_bc) == isz(*cond), tb(result_ptr) == bid(result), to(result_ptr) == 0, n == size, n == prod(out_shape@), n <= imax(), blen(bid(result)) == n * tsz::<T>(), n > 0, nonempty(out_shape@),
        full == Seq::new(n as nat, |k: int| wsel::<T>(m0, *cond, *x, *y, out_shape@, k)), wf(cond_bc), cond_bc.shape@ == out_shape@, mok(mz, cond_bc), bid(cond_bc) != bid(result), mz[bid(cond_bc)] == m0[bid(cond_bc)], is_view(cond_bc, *cond, m_bcast(cond.shape@)), opd0(m0, *cond), wf(x_bc), x_bc.shape@ == out_shape@, mok(mz, x_bc), bid(x_bc) != bid(result), mz[bid(x_bc)] == m0[bid(x_bc)], is_view(x_bc, *x, m_bcast(x.shape@)), opd0(m0, *x), wf(y_bc), y_bc.shape@ == out_shape@, mok(mz, y_bc), bid(y_bc) != bid(result), mz[bid(y_bc)] == m0[bid(y_bc)], is_view(y_bc, *y, m_bcast(y.shape@)), opd0(m0, *y), cond_bc.flags.c, x_bc.flags.c, y_bc.flags.c, cond_itemsize as int == isz(cond_bc), pb(cond_ptr) == bid(cond_bc), po(cond_ptr) == cond_bc.offset, tb(x_ptr) == bid(x_bc), to(x_ptr) == x_bc.offset, tb(y_ptr) == bid(y_bc), to(y_ptr) == y_bc.offset,
        wrote(mz, mem.v(), bid(result), 0, full.take(__i0 as int))
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof { lemma_tsz::<T>(); lemma_chunk_bound(i0, n, tsz::<T>());
        lemma_nth_c(m1, cond_bc, i0); lemma_nth_c(m1, x_bc, i0); lemma_nth_c(m1, y_bc, i0); lemma_bel(m1, *cond, cond_bc, i0); lemma_bel(m1, *x, x_bc, i0); lemma_bel(m1, *y, y_bc, i0);
        assert(m1[bid(cond_bc)] == m0[bid(cond_bc)]); assert(m1[bid(x_bc)] == m0[bid(x_bc)]); assert(m1[bid(y_bc)] == m0[bid(y_bc)]);
        assert(full[i0] == wsel::<T>(m1, *cond, *x, *y, out_shape@, i0));
        lemma_wrote_step::<T>(mz, m1, bid(result), 0, full.take(i0), full[i0], n); assert(full.take(i0).push(full[i0]) =~= full.take(i0 + 1)); }
@inv 1
    invariant fresh(result, m0, mz, out_shape@, dtype), dt_size(dtype) == tsz::<T>(), isz(x_bc) == tsz::<T>(), isz(y_bc) == tsz::<T>(), cond_dtype == cond.dtype, isz(cond_bc) == isz(*cond), tb(result_ptr) == bid(result), to(result_ptr) == 0, n == size, n == prod(out_shape@), n <= imax(), blen(bid(result)) == n * tsz::<T>(), n > 0, nonempty(out_shape@),
        full == Seq::new(n as nat, |k: int| wsel::<T>(m0, *cond, *x, *y, out_shape@, k)), wf(cond_bc), cond_bc.shape@ == out_shape@, mok(mz, cond_bc), bid(cond_bc) != bid(result), mz[bid(cond_bc)] == m0[bid(cond_bc)], is_view(cond_bc, *cond, m_bcast(cond.shape@)), opd0(m0, *cond), wf(x_bc), x_bc.shape@ == out_shape@, mok(mz, x_bc), bid(x_bc) != bid(result), mz[bid(x_bc)] == m0[bid(x_bc)], is_view(x_bc, *x, m_bcast(x.shape@)), opd0(m0, *x), wf(y_bc), y_bc.shape@ == out_shape@, mok(mz, y_bc), bid(y_bc) != bid(result), mz[bid(y_bc)] == m0[bid(y_bc)], is_view(y_bc, *y, m_bcast(y.shape@)), opd0(m0, *y), __i1 <= n, itemsize as int == tsz::<T>(), si_wf(__it1), __it1.shape@ == out_shape@, __it1.strides@ == cond_bc.strides@, si_base(__it1) == 0, __i1 == si_pos(__it1), si_wf(__it1_1), __it1_1.shape@ == out_shape@, __it1_1.strides@ == x_bc.strides@, si_base(__it1_1) == 0, __i1 == si_pos(__it1_1), si_wf(__it1_2), __it1_2.shape@ == out_shape@, __it1_2.strides@ == y_bc.strides@, si_base(__it1_2) == 0, __i1 == si_pos(__it1_2),
        wrote(mz, mem.v(), bid(result), 0, full.take(__i1 as int))
    ensures __i1 == n,
    decreases n - __i1
@body 1
    let ghost i0 = __i1 as int; let ghost m1 = mem.v();
    proof { if i0 < n { lemma_tsz::<T>(); lemma_chunk_bound(i0, n, tsz::<T>());
        lemma_offs_b(m1, cond_bc, i0); lemma_offs_b(m1, x_bc, i0); lemma_offs_b(m1, y_bc, i0); lemma_bel(m1, *cond, cond_bc, i0); lemma_bel(m1, *x, x_bc, i0); lemma_bel(m1, *y, y_bc, i0);
        assert(m1[bid(cond_bc)] == m0[bid(cond_bc)]); assert(m1[bid(x_bc)] == m0[bid(x_bc)]); assert(m1[bid(y_bc)] == m0[bid(y_bc)]);
        assert(full[i0] == wsel::<T>(m1, *cond, *x, *y, out_shape@, i0));
        lemma_wrote_step::<T>(mz, m1, bid(result), 0, full.take(i0), full[i0], n); assert(full.take(i0).push(full[i0]) =~= full.take(i0 + 1)); } }
@at /^ *Some.result/
    proof { assert(full.take(n) =~= full); assert(wrote(mz, mem.v(), bid(result), 0, full)); lemma_done::<T>(result, m0, mz, mem.v(), out_shape@, dtype, full); }

@fn src/ops/dispatch.rs dispatch_bitwise_bool_typed flags=ptrs memself mem=zeros rename=buffer_mut:vx_buffer
@props P03 P04 P06
@req
    opd0(old(mem).v(), *a), isz(*a) == 1, a.shape@ == out_shape@, opd0(old(mem).v(), *b), isz(*b) == 1, b.shape@ == out_shape@, pmax(out_shape@) <= imax(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), out_shape@, dt_bool()),
    tvs::<u8>(final(mem).v(), r->0) == Seq::new(prod(out_shape@) as nat, |k: int| K::ap(bv(old(mem).v(), *a, k), bv(old(mem).v(), *b, k)) as u8),
@start
    let ghost m0 = mem.v(); let ghost n = prod(out_shape@); let ghost full: Seq<u8> = Seq::new(prod(out_shape@) as nat, |k: int| K::ap(bv(m0, *a, k), bv(m0, *b, k)) as u8);
    proof { lemma_u8(0u8); lemma_bool(); lemma_pmax(out_shape@); lemma_pmax_le(out_shape@, 1); assert(pmax(out_shape@) * 1 == pmax(out_shape@)); }
@at /return Some/
    proof { assert(full =~= Seq::<u8>::empty()); }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_prod_pos(out_shape@); lemma_wrote0::<u8>(mz, bid(result), 0); assert(full.take(0) =~= Seq::<u8>::empty()); assert(n * 1 == n); }
@inv 0
    invariant __i0 <= __e0, __e0 == size, fresh(result, m0, mz, out_shape@, dt_bool()), dt_size(dt_bool()) == tsz::<u8>(), tsz::<u8>() == 1, pb(result_ptr) == bid(result), po(result_ptr) == 0, n == size, n == prod(out_shape@), n <= imax(), blen(bid(result)) == n, nonempty(out_shape@), full == Seq::new(prod(out_shape@) as nat, |k: int| K::ap(bv(m0, *a, k), bv(m0, *b, k)) as u8), wf(*a), isz(*a) == 1, a.shape@ == out_shape@, mok(mz, *a), bid(*a) != bid(result), mz[bid(*a)] == m0[bid(*a)], pb(a_ptr) == bid(*a), po(a_ptr) == a.offset, wf(*b), isz(*b) == 1, b.shape@ == out_shape@, mok(mz, *b), bid(*b) != bid(result), mz[bid(*b)] == m0[bid(*b)], pb(b_ptr) == bid(*b), po(b_ptr) == b.offset, a.flags.c, b.flags.c,
        wrote(mz, mem.v(), bid(result), 0, full.take(__i0 as int))
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof { assert(m1[bid(*a)] == m0[bid(*a)]); lemma_bv_c(m1, *a, i0); assert(bv(m1, *a, i0) == bv(m0, *a, i0)); assert(m1[bid(*b)] == m0[bid(*b)]); lemma_bv_c(m1, *b, i0); assert(bv(m1, *b, i0) == bv(m0, *b, i0)); lemma_u8(full[i0]); lemma_wrote_step::<u8>(mz, m1, bid(result), 0, full.take(i0), full[i0], n); assert(i0 * 1 == i0 && n * 1 == n); assert(full.take(i0).push(full[i0]) =~= full.take(i0 + 1)); }
@before 1
    proof { lemma_zero_idx(indices@, out_shape@); }
@inv 1
    invariant __i1 <= __e1, __e1 == size, fresh(result, m0, mz, out_shape@, dt_bool()), dt_size(dt_bool()) == tsz::<u8>(), tsz::<u8>() == 1, pb(result_ptr) == bid(result), po(result_ptr) == 0, n == size, n == prod(out_shape@), n <= imax(), blen(bid(result)) == n, nonempty(out_shape@), full == Seq::new(prod(out_shape@) as nat, |k: int| K::ap(bv(m0, *a, k), bv(m0, *b, k)) as u8), wf(*a), isz(*a) == 1, a.shape@ == out_shape@, mok(mz, *a), bid(*a) != bid(result), mz[bid(*a)] == m0[bid(*a)], pb(a_ptr) == bid(*a), po(a_ptr) == a.offset, wf(*b), isz(*b) == 1, b.shape@ == out_shape@, mok(mz, *b), bid(*b) != bid(result), mz[bid(*b)] == m0[bid(*b)], pb(b_ptr) == bid(*b), po(b_ptr) == b.offset, a_strides@ == a.strides@, b_strides@ == b.strides@,  indices@ == unrmi(cyc(__i1 as int, n), out_shape@), inb(indices@, out_shape@),
        wrote(mz, mem.v(), bid(result), 0, full.take(__i1 as int))
    decreases __e1 - __i1
@body 1
    let ghost i0 = __i1 as int; let ghost m1 = mem.v();
    proof { lemma_step(i0, out_shape@); assert(m1[bid(*a)] == m0[bid(*a)]); lemma_bv_s(m1, *a, i0); assert(bv(m1, *a, i0) == bv(m0, *a, i0)); assert(m1[bid(*b)] == m0[bid(*b)]); lemma_bv_s(m1, *b, i0); assert(bv(m1, *b, i0) == bv(m0, *b, i0)); lemma_u8(full[i0]); lemma_wrote_step::<u8>(mz, m1, bid(result), 0, full.take(i0), full[i0], n); assert(i0 * 1 == i0 && n * 1 == n); assert(full.take(i0).push(full[i0]) =~= full.take(i0 + 1)); }
@inv 2
    invariant __i2 <= __l1, __l1 == indices@.len(), wf(*a), a.shape@ == out_shape@, inb(indices@, out_shape@), a_strides@ == a.strides@, a.strides@.len() == out_shape@.len(), __v2 as int == dot(indices@, a.strides@, __i2 as int)
    decreases __l1 - __i2
@body 2
    proof { assert(out_shape@.take(out_shape@.len() as int) =~= out_shape@); lemma_prefix(*a, indices@, __i2 as int); }
@inv 3
    invariant __i3 <= __l3, __l3 == indices@.len(), wf(*b), b.shape@ == out_shape@, inb(indices@, out_shape@), b_strides@ == b.strides@, b.strides@.len() == out_shape@.len(), __v3 as int == dot(indices@, b.strides@, __i3 as int)
    decreases __l3 - __i3
@body 3
    proof { assert(out_shape@.take(out_shape@.len() as int) =~= out_shape@); lemma_prefix(*b, indices@, __i3 as int); }
@at /^ *Some.result/
    proof { assert(full.take(n) =~= full); assert(wrote(mz, mem.v(), bid(result), 0, full)); lemma_done::<u8>(result, m0, mz, mem.v(), out_shape@, dt_bool(), full); }

@fn src/ops/dispatch.rs dispatch_bitwise_not_bool_typed flags=ptrs memself mem=zeros rename=buffer_mut:vx_buffer
@props P03 P06
@req
    opd0(old(mem).v(), *arr), isz(*arr) == 1, pmax(arr.shape@) <= imax(),
@ens
    r is Some, fresh(r->0, old(mem).v(), final(mem).v(), arr.shape@, dt_bool()),
    tvs::<u8>(final(mem).v(), r->0) == Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(bv(old(mem).v(), *arr, k)) as u8),
@start
    let ghost m0 = mem.v(); let ghost n = prod(arr.shape@); let ghost full: Seq<u8> = Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(bv(m0, *arr, k)) as u8);
    proof { lemma_u8(0u8); lemma_bool(); lemma_pmax(arr.shape@); lemma_pmax_le(arr.shape@, 1); assert(pmax(arr.shape@) * 1 == pmax(arr.shape@)); }
@at /return Some/
    proof { assert(full =~= Seq::<u8>::empty()); }
@at /let buffer = /
    let ghost mz = mem.v();
    proof { lemma_prod_pos(arr.shape@); lemma_wrote0::<u8>(mz, bid(result), 0); assert(full.take(0) =~= Seq::<u8>::empty()); assert(n * 1 == n); }
@inv 0
    invariant __i0 <= __e0, __e0 == size, fresh(result, m0, mz, arr.shape@, dt_bool()), dt_size(dt_bool()) == tsz::<u8>(), tsz::<u8>() == 1, pb(result_ptr) == bid(result), po(result_ptr) == 0, n == size, n == prod(arr.shape@), n <= imax(), blen(bid(result)) == n, nonempty(arr.shape@), full == Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(bv(m0, *arr, k)) as u8), wf(*arr), isz(*arr) == 1, arr.shape@ == arr.shape@, mok(mz, *arr), bid(*arr) != bid(result), mz[bid(*arr)] == m0[bid(*arr)], pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, arr.flags.c,
        wrote(mz, mem.v(), bid(result), 0, full.take(__i0 as int))
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof { assert(m1[bid(*arr)] == m0[bid(*arr)]); lemma_bv_c(m1, *arr, i0); assert(bv(m1, *arr, i0) == bv(m0, *arr, i0)); lemma_u8(full[i0]); lemma_wrote_step::<u8>(mz, m1, bid(result), 0, full.take(i0), full[i0], n); assert(i0 * 1 == i0 && n * 1 == n); assert(full.take(i0).push(full[i0]) =~= full.take(i0 + 1)); }
@before 1
    proof { lemma_zero_idx(indices@, arr.shape@); }
@inv 1
    invariant __i1 <= __e1, __e1 == size, fresh(result, m0, mz, arr.shape@, dt_bool()), dt_size(dt_bool()) == tsz::<u8>(), tsz::<u8>() == 1, pb(result_ptr) == bid(result), po(result_ptr) == 0, n == size, n == prod(arr.shape@), n <= imax(), blen(bid(result)) == n, nonempty(arr.shape@), full == Seq::new(prod(arr.shape@) as nat, |k: int| K::ap(bv(m0, *arr, k)) as u8), wf(*arr), isz(*arr) == 1, arr.shape@ == arr.shape@, mok(mz, *arr), bid(*arr) != bid(result), mz[bid(*arr)] == m0[bid(*arr)], pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, strides@ == arr.strides@, shape@ == arr.shape@, indices@ == unrmi(cyc(__i1 as int, n), arr.shape@), inb(indices@, arr.shape@),
        wrote(mz, mem.v(), bid(result), 0, full.take(__i1 as int))
    decreases __e1 - __i1
@body 1
    let ghost i0 = __i1 as int; let ghost m1 = mem.v();
    proof { lemma_step(i0, arr.shape@); assert(m1[bid(*arr)] == m0[bid(*arr)]); lemma_bv_s(m1, *arr, i0); assert(bv(m1, *arr, i0) == bv(m0, *arr, i0)); lemma_u8(full[i0]); lemma_wrote_step::<u8>(mz, m1, bid(result), 0, full.take(i0), full[i0], n); assert(i0 * 1 == i0 && n * 1 == n); assert(full.take(i0).push(full[i0]) =~= full.take(i0 + 1)); }
@inv 2
    invariant __i2 <= __l1, __l1 == indices@.len(), wf(*arr), arr.shape@ == arr.shape@, inb(indices@, arr.shape@), strides@ == arr.strides@, arr.strides@.len() == arr.shape@.len(), __v2 as int == dot(indices@, arr.strides@, __i2 as int)
    decreases __l1 - __i2
@body 2
    proof { assert(arr.shape@.take(arr.shape@.len() as int) =~= arr.shape@); lemma_prefix(*arr, indices@, __i2 as int); }
@at /^ *Some.result/
    proof { assert(full.take(n) =~= full); assert(wrote(mz, mem.v(), bid(result), 0, full)); lemma_done::<u8>(result, m0, mz, mem.v(), arr.shape@, dt_bool(), full); }
