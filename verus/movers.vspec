@unit movers
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@import core compute_c_strides increment_indices RumpyArray::byte_offset_for RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous

@fn src/array/constructors.rs RumpyArray::zeros mem=ArrayBuffer::new memself
@props P02 P12 P13
@req
    pmax(shape@) * dt_size(dtype) <= imax(), 1 <= dt_size(dtype) <= 0x1_0000_0000,
@ens
    fresh(r, old(mem).v(), final(mem).v(), shape@, dtype), final(mem).v()[bid(r)] == Seq::new(blen(bid(r)) as nat, |i: int| 0u8),
@start
    proof { lemma_pmax_le(shape@, dt_size(dtype)); lemma_pmax(shape@);
        assert(0 <= prod(shape@) * dt_size(dtype) <= pmax(shape@) * dt_size(dtype)) by (nonlinear_arith) requires 0 <= prod(shape@) <= pmax(shape@), dt_size(dtype) >= 1; }
@tail
    proof { lemma_packed_wf(r); }

@fn src/array/mod.rs RumpyArray::dtype
@props P02 P12 P13
@ens
    r == self.dtype,

@fn src/array/mod.rs RumpyArray::data_ptr
@props P02 P12 P13
@req
    wf(*self), ptr_ok(*self),
@ens
    pb(r) == bid(*self), po(r) == self.offset,
@start
    proof { lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int); }

@fn src/array/mod.rs RumpyArray::data_ptr_mut
@props P12 P13
@req
    wf(*old(self)), ptr_ok(*old(self)),
@ens
    pb(r) == bid(*old(self)), po(r) == old(self).offset, *final(self) == *old(self),
@start
    proof { lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int); }

@raw
/// elements of a whose mask entry is true among the first n, in row-major order
pub open spec fn sel(m: Map<int, Seq<u8>>, a: RumpyArray, k: RumpyArray, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { Seq::empty() } else if truthy(k.dtype, nth(m, k, n - 1)) { sel(m, a, k, n - 1).push(nth(m, a, n - 1)) } else { sel(m, a, k, n - 1) }
}
pub proof fn lemma_sel_len(m: Map<int, Seq<u8>>, a: RumpyArray, k: RumpyArray, i: int, n: int)
    requires 0 <= i <= n ensures sel(m, a, k, i).len() <= sel(m, a, k, n).len() <= n, sel(m, a, k, i).len() <= i
    decreases n
{ if n > 0 { if i < n { lemma_sel_len(m, a, k, i, n - 1); } else { lemma_sel_len(m, a, k, n - 1, n - 1); } } }
@endraw

@fn src/array/mod.rs RumpyArray::select_by_mask mem=zeros,copy_element,is_truthy memself
@props P13
@req
    wf(*self), wf(*mask), mok(old(mem).v(), *self), mok(old(mem).v(), *mask),
@ens
    r is None <==> dt_kind(mask.dtype) != DTypeKind::Bool || self.shape@ != mask.shape@,
    r is Some ==> ({ let s = sel(old(mem).v(), *self, *mask, prod(self.shape@)); fresh(r->0, old(mem).v(), final(mem).v(), seq![s.len() as usize], self.dtype)
        && forall|k: int| 0 <= k < s.len() ==> #[trigger] elem(final(mem).v(), r->0, ix1(k)) == s[k] }),
@start
    let ghost m0 = mem.v();
    proof { lemma_prod_pos(self.shape@); lemma_pmax(self.shape@); lemma_pmax_le(self.shape@, isz(*self)); lemma_row1(0, isz(*self)); assert(1 * isz(*self) == isz(*self)); lemma_dt(self.dtype);
       lemma_sel_len(m0, *self, *mask, 0, prod(self.shape@)); if prod(self.shape@) > 0 { lemma_unrmi_inb(0, self.shape@); } }
@before 0
    proof { lemma_zero_idx(mask_indices@, mask.shape@); }
@inv 0
    invariant __e0 == prod(self.shape@), 0 <= __i0 <= __e0, mem.v() == m0, wf(*mask), mok(m0, *mask), self.shape@ == mask.shape@, prod(self.shape@) > 0,
        mask_indices@ == unrmi(cyc(__i0 as int, __e0 as int), mask.shape@), count == sel(m0, *self, *mask, __i0 as int).len(), pb(mask_ptr) == bid(*mask), po(mask_ptr) == mask.offset, ops_dt(mask_ops) == mask.dtype
    decreases __e0 - __i0
@body 0
    proof { lemma_step(__i0 as int, mask.shape@); lemma_inb_box(mask_indices@, mask.shape@); lemma_acc(m0, *mask, mask_indices@); lemma_sel_len(m0, *self, *mask, __i0 as int, __i0 as int); }
@after 0
    proof { lemma_sel_len(m0, *self, *mask, __e0 as int, __e0 as int); lemma_row1(count as int, isz(*self));
        let c = if count == 0 { 1int } else { count as int };
        assert(c * isz(*self) <= pmax(self.shape@) * isz(*self)) by (nonlinear_arith) requires c <= pmax(self.shape@), isz(*self) >= 1; }
@before 1
    let ghost s = sel(m0, *self, *mask, prod(self.shape@));
    proof { lemma_zero_idx(src_indices@, self.shape@); }
@inv 1
    invariant __e1 == prod(self.shape@), 0 <= __i1 <= __e1, wf(*self), wf(*mask), mok(mem.v(), *self), mok(mem.v(), *mask), self.shape@ == mask.shape@, prod(self.shape@) > 0,
        mok(m0, *self), mok(m0, *mask), s == sel(m0, *self, *mask, prod(self.shape@)),
        fresh(result, m0, mem.v(), seq![s.len() as usize], self.dtype), prod(result.shape@) == s.len(),
        src_indices@ == unrmi(cyc(__i1 as int, __e1 as int), self.shape@), dst_idx == sel(m0, *self, *mask, __i1 as int).len(), pb(mask_ptr) == bid(*mask), po(mask_ptr) == mask.offset, ops_dt(mask_ops) == mask.dtype,
        pb(src_ptr) == bid(*self), po(src_ptr) == self.offset, ops_dt(ops) == self.dtype, pb(result_ptr) == bid(result), po(result_ptr) == 0,
        forall|k: int| 0 <= k < dst_idx ==> #[trigger] chunk(mem.v()[bid(result)], 0, k, isz(*self)) == sel(m0, *self, *mask, __i1 as int)[k]
    decreases __e1 - __i1
@body 1
    let ghost mb = mem.v();
    proof { lemma_step(__i1 as int, self.shape@); lemma_inb_box(src_indices@, self.shape@); lemma_acc(m0, *mask, src_indices@); lemma_acc(m0, *self, src_indices@); lemma_sel_len(m0, *self, *mask, __i1 as int, __i1 as int);
        lemma_sel_len(m0, *self, *mask, __i1 + 1, __e1 as int);
        if truthy(mask.dtype, nth(m0, *mask, __i1 as int)) { lemma_chunk_bound(dst_idx as int, s.len() as int, isz(*self)); } }
@end 1
    proof { if truthy(mask.dtype, nth(m0, *mask, __i1 - 1)) { lemma_write(mb, mem.v(), result, dst_idx - 1, nth(m0, *self, __i1 - 1)); } }
@after 1
    proof { assert forall|k: int| 0 <= k < s.len() implies #[trigger] elem(mem.v(), result, ix1(k)) == s[k] by { lemma_row1(s.len() as int, isz(*self)); lemma_packed(mem.v(), result, ix1(k)); } }
