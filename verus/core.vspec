@unit core
@struct src/array/mod.rs RumpyArray
@include array.rs

@fn src/array/mod.rs compute_c_strides
@props P02 P01 P03
@req
    pmax(shape@) * itemsize <= imax(), itemsize >= 1,
@ens
    r@.len() == shape@.len(), is_cstr(shape@, r@, itemsize as int),
@inv 0
    invariant __i0 <= shape@.len(), __e0 == 0, strides@.len() == shape@.len(), pmax(shape@) * itemsize <= imax(), itemsize >= 1,
        stride as int == itemsize * suf(shape@, __i0 as int),
        forall|k: int| __i0 <= k < shape@.len() ==> (#[trigger] strides@[k]) as int == itemsize * suf(shape@, k + 1)
    decreases __i0
@before 0
    proof { lemma_pmax_le(shape@, itemsize as int); }
@body 0
    proof {
        lemma_suf_le(shape@, __i0 as int - 1); lemma_suf_le(shape@, __i0 as int); lemma_dim_le(shape@, itemsize as int, __i0 as int - 1);
        let s = suf(shape@, __i0 as int - 1); let d = shape@[__i0 as int - 1] as int; let t = suf(shape@, __i0 as int);
        assert(s == d * t);
        assert((itemsize as int) * (d * t) == ((itemsize as int) * t) * d) by (nonlinear_arith);
        assert(0 <= (itemsize as int) * s <= pmax(shape@) * itemsize) by (nonlinear_arith) requires 0 <= s <= pmax(shape@), itemsize >= 1;
    }

@fn src/array/mod.rs compute_f_strides
@props P02
@req
    pmax(shape@) * itemsize <= imax(), itemsize >= 1,
@ens
    r@.len() == shape@.len(), forall|i: int| 0 <= i < shape@.len() ==> (#[trigger] r@[i]) as int == itemsize * pre(shape@, i),
@inv 0
    invariant __i0 <= shape@.len(), __e0 == shape@.len(), strides@.len() == shape@.len(), pmax(shape@) * itemsize <= imax(), itemsize >= 1,
        stride as int == itemsize * pre(shape@, __i0 as int),
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] strides@[k]) as int == itemsize * pre(shape@, k)
    decreases shape@.len() - __i0
@before 0
    proof { lemma_pmax_le(shape@, itemsize as int); }
@body 0
    proof {
        let n = __i0 as int + 1;
        lemma_pre_take(shape@, n); lemma_pmax_take(shape@, n); lemma_pmax(shape@.take(n)); lemma_dim_le(shape@, itemsize as int, __i0 as int);
        let s = pre(shape@, n); let d = shape@[n - 1] as int; let t = pre(shape@, n - 1);
        assert(s == t * d);
        assert((itemsize as int) * (t * d) == ((itemsize as int) * t) * d) by (nonlinear_arith);
        assert(0 <= (itemsize as int) * s <= pmax(shape@) * itemsize) by (nonlinear_arith) requires 0 <= s <= pmax(shape@), itemsize >= 1;
    }

@fn src/array/mod.rs is_c_contiguous
@props P01 P02 P03 P04 P14
@req
    shape@.len() == strides@.len(), pmax(shape@) * itemsize <= imax(), itemsize >= 1,
@ens
    r && nonempty(shape@) ==> is_cord(shape@, strides@, itemsize as int),
    nonempty(shape@) && is_cord(shape@, strides@, itemsize as int) ==> r,
@inv 0
    invariant __i0 <= shape@.len(), __e0 == 0, strides@.len() == shape@.len(), pmax(shape@) * itemsize <= imax(), itemsize >= 1,
        expected as int == itemsize * suf(shape@, __i0 as int),
        forall|k: int| __i0 <= k < shape@.len() && shape@[k] != 1 ==> (#[trigger] strides@[k]) as int == itemsize * suf(shape@, k + 1)
    decreases __i0
@before 0
    proof { lemma_pmax_le(shape@, itemsize as int); }
@body 0
    proof {
        lemma_suf_le(shape@, __i0 as int - 1); lemma_suf_le(shape@, __i0 as int); lemma_dim_le(shape@, itemsize as int, __i0 as int - 1);
        let s = suf(shape@, __i0 as int - 1); let d = shape@[__i0 as int - 1] as int; let t = suf(shape@, __i0 as int);
        assert(s == d * t);
        assert((itemsize as int) * (d * t) == ((itemsize as int) * t) * d) by (nonlinear_arith);
        assert(0 <= (itemsize as int) * s <= pmax(shape@) * itemsize) by (nonlinear_arith) requires 0 <= s <= pmax(shape@), itemsize >= 1;
    }

@fn src/array/mod.rs is_f_contiguous
@props P01 P02 P03 P04 P14 P17
@req
    shape@.len() == strides@.len(), pmax(shape@) * itemsize <= imax(), itemsize >= 1,
@ens
    r && nonempty(shape@) ==> is_ford(shape@, strides@, itemsize as int),
    nonempty(shape@) && is_ford(shape@, strides@, itemsize as int) ==> r,
@inv 0
    invariant __i0 <= shape@.len(), __e0 == shape@.len(), strides@.len() == shape@.len(), pmax(shape@) * itemsize <= imax(), itemsize >= 1,
        expected as int == itemsize * pre(shape@, __i0 as int),
        forall|k: int| 0 <= k < __i0 && shape@[k] != 1 ==> (#[trigger] strides@[k]) as int == itemsize * pre(shape@, k)
    decreases shape@.len() - __i0
@before 0
    proof { lemma_pmax_le(shape@, itemsize as int); }
@body 0
    proof {
        let n = __i0 as int + 1;
        lemma_pre_take(shape@, n); lemma_pmax_take(shape@, n); lemma_pmax(shape@.take(n)); lemma_dim_le(shape@, itemsize as int, __i0 as int);
        let s = pre(shape@, n); let d = shape@[n - 1] as int; let t = pre(shape@, n - 1);
        assert(s == t * d);
        assert((itemsize as int) * (t * d) == ((itemsize as int) * t) * d) by (nonlinear_arith);
        assert(0 <= (itemsize as int) * s <= pmax(shape@) * itemsize) by (nonlinear_arith) requires 0 <= s <= pmax(shape@), itemsize >= 1;
    }

@fn src/array/mod.rs increment_indices
@props P03 P12 P13
@req
    inb(old(indices)@, shape@),
@ens
    final(indices)@ == next_idx(old(indices)@, shape@),
@inv 0
    invariant __i0 <= indices@.len(), __e0 == 0, indices@.len() == shape@.len(), inb(old(indices)@, shape@),
        indices@.len() == old(indices)@.len(),
        forall|k: int| 0 <= k < __i0 ==> indices@[k] == old(indices)@[k],
        forall|k: int| __i0 <= k < indices@.len() ==> indices@[k] == 0,
        next_idx(old(indices)@, shape@) == next_idx(old(indices)@.take(__i0 as int), shape@.take(__i0 as int)) + indices@.skip(__i0 as int)
    decreases __i0
@before 0
    proof { assert(old(indices)@.take(__i0 as int) =~= old(indices)@); assert(shape@.take(__i0 as int) =~= shape@); assert(indices@.skip(__i0 as int) =~= Seq::<usize>::empty());
        assert(next_idx(old(indices)@, shape@) + Seq::<usize>::empty() =~= next_idx(old(indices)@, shape@)); }
@body 0
    let ghost before = indices@;
    proof {
        let n = __i0 as int; let o = old(indices)@;
        let t = o.take(n); let s = shape@.take(n);
        assert(t.drop_last() =~= o.take(n - 1)); assert(s.drop_last() =~= shape@.take(n - 1));
        assert(t.last() == o[n - 1]); assert(s.last() == shape@[n - 1]); assert(o[n - 1] < shape@[n - 1]); assert(before[n - 1] == o[n - 1]);
        let nx = next_idx(t, s);
        if o[n - 1] + 1 < shape@[n - 1] { assert(nx == o.take(n - 1).push((o[n - 1] + 1) as usize)); assert(nx + before.skip(n) =~= before.update(n - 1, (o[n - 1] + 1) as usize)); }
        else { assert(nx == next_idx(o.take(n - 1), shape@.take(n - 1)).push(0)); }
        assert(n - 1 >= 0);
    }
@end 0
    proof {
        let n = __i0 as int;
        lemma_next_len(old(indices)@.take(n), shape@.take(n));
        assert(indices@.skip(n) =~= seq![0usize] + before.skip(n + 1));
        assert(next_idx(old(indices)@.take(n), shape@.take(n)).push(0) + before.skip(n + 1) =~= next_idx(old(indices)@.take(n), shape@.take(n)) + indices@.skip(n));
    }
@after 0
    proof { assert(indices@.skip(0) =~= indices@); assert(old(indices)@.take(0) =~= Seq::<usize>::empty()); assert(Seq::<usize>::empty() + indices@ =~= indices@); }

@fn src/array/mod.rs RumpyArray::byte_offset_for
@props P01 P03 P12 P13
@req
    wf(*self), inbox(indices@, self.shape@),
@ens
    r as int == dot(indices@, self.strides@, indices@.len() as int),
@inv 0
    invariant __i0 <= indices@.len(), wf(*self), inbox(indices@, self.shape@), byte_offset as int == dot(indices@, self.strides@, __i0 as int)
    decreases indices@.len() - __i0
@body 0
    proof {
        let n = __i0 as int; let N = indices@.len() as int;
        lemma_dot_range(indices@, self.shape@, self.strides@, n); lemma_dot_range(indices@, self.shape@, self.strides@, n + 1);
        lemma_ext_mono(self.shape@, self.strides@, n, N); lemma_ext_mono(self.shape@, self.strides@, n + 1, N); lemma_ext_mono(self.shape@, self.strides@, 0, N);
        lemma_term_range(indices@[n], self.shape@[n], self.strides@[n]); lemma_ext_axis(self.shape@, self.strides@, n, N);
        lemma_dim_le(self.shape@, dt_size(self.dtype), n);
    }

@fn src/array/mod.rs RumpyArray::size
@props P01 P02 P03 P12 P13
@req
    pmax(self.shape@) <= imax(),
@ens
    r as int == prod(self.shape@),
@fn src/array/mod.rs RumpyArray::shape
@props P01 P02 P03 P12 P13
@ens
    r@ == self.shape@,
@fn src/array/mod.rs RumpyArray::strides
@props P01 P02 P03 P12 P13
@ens
    r@ == self.strides@,
@fn src/array/mod.rs RumpyArray::ndim
@props P01 P02 P03 P12 P13
@ens
    r == self.shape@.len(),
@fn src/array/mod.rs RumpyArray::itemsize
@props P01 P02 P03 P12 P13
@ens
    r as int == dt_size(self.dtype), 1 <= r <= 0x1_0000_0000,
@fn src/array/mod.rs RumpyArray::is_c_contiguous
@props P01 P02 P03 P12 P13
@ens
    r == self.flags.c,
@fn src/array/mod.rs RumpyArray::is_f_contiguous
@props P01 P02 P03 P17
@ens
    r == self.flags.f,

@raw
@endraw
