@unit copy
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@import iter StridedIter::new StridedIter::next
@import core increment_indices RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous RumpyArray::byte_offset_for
@import movers RumpyArray::zeros RumpyArray::dtype RumpyArray::data_ptr
@import dispatch RumpyArray::iter_offsets

@raw
#[verifier::external_body]
pub fn convert_datetime64(v: i64, from: Unit, to: Unit) -> (r: i64) ensures r == cdt(v, from, to) { unimplemented!() }
/// dates and durations take eight bytes
#[verifier::external_body]
pub proof fn lemma_dtk(d: DType) ensures dt_kind(d) is DateTime64 || dt_kind(d) is TimeDelta64 ==> dt_size(d) == 8, d == dt_f64() || d == dt_i64() ==> dt_size(d) == 8 { unimplemented!() }
#[verifier::external_body]
pub fn cast_element(so: Ops, src: VPtr, off: isize, d: Ops, dst: VPtr, idx: usize, Tracked(mem): Tracked<&mut Mem>)
    requires acc(old(mem).v(), pb(src), po(src) + off, dt_size(ops_dt(so))), 0 <= po(dst), acc(old(mem).v(), pb(dst), po(dst) + idx * dt_size(ops_dt(d)), dt_size(ops_dt(d)))
    ensures final(mem).v() == old(mem).v().insert(pb(dst), bput(old(mem).v()[pb(dst)], po(dst) + idx * dt_size(ops_dt(d)), castb(ops_dt(so), ops_dt(d), get(old(mem).v()[pb(src)], po(src) + off, dt_size(ops_dt(so))))))
{ unimplemented!() }
pub proof fn lemma_off_small(o: int, d: int, l: int, x: int, z: int)
    requires 0 <= o <= imax(), 0 <= o + d <= l, l <= imax(), x * z == d, z >= 1 ensures -imax() <= x <= imax(), 0 <= o + x * z <= l
{ assert(-imax() <= d <= imax()); if x >= 0 { assert(x <= x * z) by (nonlinear_arith) requires x >= 0, z >= 1; } else { assert(x * z <= x) by (nonlinear_arith) requires x < 0, z >= 1; } }
/// one block copy of a C-ordered array
pub proof fn lemma_contig_b(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray)
    requires wf(a), mok(m0, a), prod(a.shape@) > 0, fresh(r, m0, mz, a.shape@, a.dtype)
    ensures nonempty(a.shape@), 0 <= prod(a.shape@) * isz(a) <= imax(), a.flags.c ==> ({ let n = prod(a.shape@) * isz(a); acc(mz, bid(a), a.offset as int, n) && acc(mz, bid(r), 0, n) && bid(a) != bid(r)
        && ({ let m1 = mz.insert(bid(r), bput(mz[bid(r)], 0, get(mz[bid(a)], a.offset as int, n))); fresh(r, m0, m1, a.shape@, a.dtype) && els(m1, r) == els(m0, a) }) })
{
    let k = prod(a.shape@); let z = isz(a); let n = k * z; lemma_prod_pos(a.shape@); lemma_pmax(a.shape@);
    assert(0 <= n <= pmax(a.shape@) * z) by (nonlinear_arith) requires n == k * z, 0 <= k <= pmax(a.shape@), z >= 1;
    if a.flags.c {
        lemma_unrmi_inb(k - 1, a.shape@); lemma_addr_c(a, unrmi(k - 1, a.shape@)); lemma_addr_ok(a, unrmi(k - 1, a.shape@));
        assert(z * (k - 1) + z == n) by (nonlinear_arith) requires n == k * z;
        let v = get(mz[bid(a)], a.offset as int, n); let m1 = mz.insert(bid(r), bput(mz[bid(r)], 0, v));
        assert(m1.dom() =~= mz.dom());
        assert forall|i: int| 0 <= i < k implies #[trigger] chunk(m1[bid(r)], 0, i, z) == els(m0, a)[i] by {
            lemma_unrmi_inb(i, a.shape@); lemma_addr_c(a, unrmi(i, a.shape@)); lemma_chunk_bound(i, k, z); assert(z * i == i * z) by (nonlinear_arith);
            assert(chunk(m1[bid(r)], 0, i, z) =~= get(m0[bid(a)], a.offset + i * z, z));
        }
        lemma_fill_done(r, m0, mz, m1, a.shape@, a.dtype, els(m0, a));
    }
}
@endraw

@fn src/array/mod.rs RumpyArray::copy_broadcast_typed flags=ptrs memself
@props P02 P03 P08 P12
@req
    wf(*self), mok(old(mem).v(), *self), aligned(*self), pod::<T>(), isz(*self) == tsz::<T>(), to(dst) == 0, tb(dst) != bid(*self), live(old(mem).v(), tb(dst)), prod(self.shape@) * tsz::<T>() <= blen(tb(dst)),
    nonempty(self.shape@),
@ens
    filled(old(mem).v(), final(mem).v(), tb(dst), els(old(mem).v(), *self), tsz::<T>(), prod(self.shape@)),
@start
    let ghost m0 = mem.v(); let ghost n = prod(self.shape@); let ghost s = els(m0, *self); let ghost z = tsz::<T>(); let ghost b = tb(dst); let ghost pb2 = bid(*self);
    proof { lemma_tsz::<T>(); lemma_prod_pos(self.shape@); lemma_pmax(self.shape@); lemma_pmax_le(self.shape@, isz(*self)); lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int); if n == 0 { assert(0 * z == 0); } }
@at /let \(n0, n1\) =/
    proof { lemma_2d(m0, *self, 0, 0); lemma_dim_le(self.shape@, isz(*self), 0); lemma_dim_le(self.shape@, isz(*self), 1); }
@at /let s1_elems =/
    proof { lemma_tq(s1 as int, z); }
@at /let s0_elems =/
    proof { lemma_tq(s0 as int, z); }
@inv 0
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), s == els(m0, *self), z == tsz::<T>(), z == isz(*self), z >= 1, z <= 16, pod::<T>(), b == tb(dst), to(dst) == 0, b != bid(*self), live(m0, b), n * z <= blen(b), pb2 == bid(*self), tb(src) == bid(*self), to(src) == self.offset, shape@ == self.shape@, strides@ == self.strides@, __i0 <= __e0, __e0 == n1, n0 == self.shape@[0], n1 == self.shape@[1], self.shape@.len() == 2, s0 == 0, s0 == self.strides@[0], s1 == self.strides@[1], n == n0 * n1, n0 >= 1, n0 <= imax(), n1 <= imax(), s1_elems * z == s1, -(if s1 < 0 { -(s1 as int) } else { s1 as int }) <= s1_elems <= (if s1 < 0 { -(s1 as int) } else { s1 as int }),
        filled(m0, mem.v(), b, s, z, __i0 as int)
    decreases __e0 - __i0
@body 0
    let ghost j0 = __i0 as int; let ghost m1 = mem.v();
    proof { lemma_2d(m0, *self, 0, j0); assert(m1[bid(*self)] == m0[bid(*self)]); assert(0 * n1 == 0); assert(0 * s0 == 0);
        assert((s1_elems * j0) * z == j0 * s1) by (nonlinear_arith) requires s1_elems * z == s1; lemma_off_small(self.offset as int, j0 * s1, blen(bid(*self)), s1_elems * j0, z);
        assert(j0 < n) by (nonlinear_arith) requires j0 < n1, n == n0 * n1, n0 >= 1;
        lemma_fill_step(m0, m1, b, s, z, j0, s[j0]); lemma_codec2::<T>(s[j0]); }
@inv 1
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), s == els(m0, *self), z == tsz::<T>(), z == isz(*self), z >= 1, z <= 16, pod::<T>(), b == tb(dst), to(dst) == 0, b != bid(*self), live(m0, b), n * z <= blen(b), pb2 == bid(*self), tb(src) == bid(*self), to(src) == self.offset, shape@ == self.shape@, strides@ == self.strides@, 1 <= __i1 <= __e1, __e1 == n0, n0 == self.shape@[0], n1 == self.shape@[1], self.shape@.len() == 2, s0 == 0, s0 == self.strides@[0], s1 == self.strides@[1], n == n0 * n1, n0 >= 1,
        filled(m0, mem.v(), b, s, z, __i1 * n1)
    decreases __e1 - __i1
@before 1
    proof { assert(1 * n1 == n1); }
@body 1
    let ghost i0 = __i1 as int; let ghost m1 = mem.v();
    proof { assert(i0 * n1 + n1 == (i0 + 1) * n1 && (i0 + 1) * n1 <= n && n1 <= i0 * n1) by (nonlinear_arith) requires 1 <= i0 < n0, n == n0 * n1, n1 >= 0;
        assert forall|j: int| 0 <= j < n1 implies s[i0 * n1 + j] == #[trigger] s[j] by { lemma_2d(m0, *self, i0, j); lemma_2d(m0, *self, 0, j); assert(0 * n1 == 0); assert(0 * s0 == 0 && i0 * s0 == 0) by (nonlinear_arith) requires s0 == 0; }
        lemma_fill_block(m0, m1, b, s, z, i0 * n1, n1 as int); }
@after 1
    proof { assert(__e1 * n1 == n); }
@inv 2
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), s == els(m0, *self), z == tsz::<T>(), z == isz(*self), z >= 1, z <= 16, pod::<T>(), b == tb(dst), to(dst) == 0, b != bid(*self), live(m0, b), n * z <= blen(b), pb2 == bid(*self), tb(src) == bid(*self), to(src) == self.offset, shape@ == self.shape@, strides@ == self.strides@, __i2 <= __e2, __e2 == n0, n0 == self.shape@[0], n1 == self.shape@[1], self.shape@.len() == 2, s1 == 0, s0 == self.strides@[0], s1 == self.strides@[1], n == n0 * n1, n1 >= 1, n0 <= imax(), n1 <= imax(), s0_elems * z == s0, -(if s0 < 0 { -(s0 as int) } else { s0 as int }) <= s0_elems <= (if s0 < 0 { -(s0 as int) } else { s0 as int }),
        filled(m0, mem.v(), b, s, z, __i2 * n1)
    decreases __e2 - __i2
@before 2
    proof { assert(0 * n1 == 0); }
@body 2
    let ghost i0 = __i2 as int; let ghost m1 = mem.v();
    proof { lemma_2d(m0, *self, i0, 0); assert(m1[bid(*self)] == m0[bid(*self)]); assert(0 * s1 == 0);
        assert((s0_elems * i0) * z == i0 * s0) by (nonlinear_arith) requires s0_elems * z == s0; lemma_off_small(self.offset as int, i0 * s0, blen(bid(*self)), s0_elems * i0, z);
        assert(i0 * n1 + n1 == (i0 + 1) * n1 && (i0 + 1) * n1 <= n && 0 <= i0 * n1) by (nonlinear_arith) requires 0 <= i0 < n0, n == n0 * n1, n1 >= 0; }
@inv 3
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), s == els(m0, *self), z == tsz::<T>(), z == isz(*self), z >= 1, z <= 16, pod::<T>(), b == tb(dst), to(dst) == 0, b != bid(*self), live(m0, b), n * z <= blen(b), pb2 == bid(*self), tb(src) == bid(*self), to(src) == self.offset, shape@ == self.shape@, strides@ == self.strides@, __i3 <= __e3, __e3 == n1, n0 == self.shape@[0], n1 == self.shape@[1], self.shape@.len() == 2, s1 == 0, s0 == self.strides@[0], s1 == self.strides@[1], n == n0 * n1, n1 >= 1, n1 <= imax(), 0 <= i0 < n0, i0 == i, row_start == i0 * n1, i0 * n1 + n1 <= n,
        val == dec::<T>(get(m0[bid(*self)], self.offset + i0 * s0, z)), filled(m0, mem.v(), b, s, z, i0 * n1 + __i3)
    decreases __e3 - __i3
@body 3
    let ghost j0 = __i3 as int; let ghost m2 = mem.v();
    proof { lemma_2d(m0, *self, i0, j0); assert(j0 * s1 == 0) by (nonlinear_arith) requires s1 == 0; lemma_codec2::<T>(s[i0 * n1 + j0]); lemma_fill_step(m0, m2, b, s, z, i0 * n1 + j0, s[i0 * n1 + j0]); }
@after 2
    proof { assert(__e2 * n1 == n); }
@inv 4
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), s == els(m0, *self), z == tsz::<T>(), z == isz(*self), z >= 1, z <= 16, pod::<T>(), b == tb(dst), to(dst) == 0, b != bid(*self), live(m0, b), n * z <= blen(b), pb2 == bid(*self), tb(src) == bid(*self), to(src) == self.offset, shape@ == self.shape@, strides@ == self.strides@, elem_size == z, si_wf(__it4), __it4.shape@ == self.shape@, __it4.strides@ == self.strides@, si_base(__it4) == 0, __i4 == si_pos(__it4), __i4 <= n,
        filled(m0, mem.v(), b, s, z, __i4 as int)
    ensures __i4 == n,
    decreases n - __i4
@body 4
    let ghost i0 = __i4 as int; let ghost m1 = mem.v();
    proof { if i0 < n { lemma_at(m0, *self, i0); assert(m1[bid(*self)] == m0[bid(*self)]); let o = si_at(self.shape@, self.strides@, 0, i0);
        lemma_unrmi_len(i0, self.shape@); lemma_al_dot(*self, unrmi(i0, self.shape@), self.shape@.len() as int); lemma_tq(o, z);
        lemma_fill_step(m0, m1, b, s, z, i0, s[i0]); lemma_codec2::<T>(s[i0]); } }

@fn src/array/mod.rs RumpyArray::astype flags=ptrs memself mem=zeros,copy_element,copy_broadcast_typed,cast_element
@props P02 P03 P08 P12
@req
    wf(*self), mok(old(mem).v(), *self), aligned(*self), pmax(self.shape@) * dt_size(new_dtype) <= imax(),
@ens
    fresh(r, old(mem).v(), final(mem).v(), self.shape@, new_dtype), els(final(mem).v(), r) == convs(old(mem).v(), *self, new_dtype),
@start
    let ghost m0 = mem.v(); let ghost n = prod(self.shape@); let ghost s = convs(m0, *self, new_dtype); let ghost z = dt_size(new_dtype);
    proof { lemma_dt(new_dtype); lemma_prod_pos(self.shape@); lemma_pmax(self.shape@); lemma_pmax_le(self.shape@, isz(*self)); lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int); lemma_pod(); lemma_dtk(self.dtype); lemma_dtk(new_dtype); }
@at /let size = self.size/
    let ghost mz = mem.v();
    proof { assert(els(mz, result).len() == n); if n == 0 { assert(els(mz, result) =~= s); } if self.dtype == new_dtype { assert(s =~= els(m0, *self)); } assert(filled(mz, mz, bid(result), s, z, 0)); assert(mz[bid(*self)] == m0[bid(*self)]); lemma_els_keep(m0, mz, *self); }
@at /let src_ops = /
    proof { assert forall|m: Map<int, Seq<u8>>| #[trigger] filled(mz, m, bid(result), s, z, n) implies fresh(result, m0, m, self.shape@, new_dtype) && els(m, result) == s by { lemma_fill_done(result, m0, mz, m, self.shape@, new_dtype, s); } }
@at /^result/
    proof { lemma_fill_done(result, m0, mz, mem.v(), self.shape@, new_dtype, s); }
@at /let nbytes = /
    proof { lemma_contig_b(m0, mz, *self, result); }
@inv 0
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), fresh(result, m0, mz, self.shape@, new_dtype), s == convs(m0, *self, new_dtype), pb(src_ptr) == bid(*self), po(src_ptr) == self.offset, pb(result_ptr) == bid(result), po(result_ptr) == 0, ops_dt(src_ops) == self.dtype, ops_dt(dst_ops) == new_dtype, z == dt_size(new_dtype), 1 <= z <= 0x1_0000_0000, n * z == blen(bid(result)), self.dtype == new_dtype, si_wf(__it0), __it0.shape@ == self.shape@, __it0.strides@ == self.strides@, si_base(__it0) == 0, __i0 == si_pos(__it0), __i0 <= n,
        filled(mz, mem.v(), bid(result), s, z, __i0 as int)
    ensures __i0 == n,
    decreases n - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof { if i0 < n { lemma_at(m0, *self, i0); assert(m1[bid(*self)] == m0[bid(*self)]);  lemma_fill_step(mz, m1, bid(result), s, z, i0, s[i0]); } }
@inv 1
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), fresh(result, m0, mz, self.shape@, new_dtype), s == convs(m0, *self, new_dtype), pb(src_ptr) == bid(*self), po(src_ptr) == self.offset, pb(result_ptr) == bid(result), po(result_ptr) == 0, ops_dt(src_ops) == self.dtype, ops_dt(dst_ops) == new_dtype, z == dt_size(new_dtype), 1 <= z <= 0x1_0000_0000, n * z == blen(bid(result)), dt_kind(self.dtype) == DTypeKind::DateTime64(*from_unit), dt_kind(new_dtype) == DTypeKind::DateTime64(*to_unit), self.dtype != new_dtype, tb(src) == bid(*self), to(src) == self.offset, tb(dst) == bid(result), to(dst) == 0, isz(*self) == 8, z == 8, tsz::<i64>() == 8, si_wf(__it1), __it1.shape@ == self.shape@, __it1.strides@ == self.strides@, si_base(__it1) == 0, __i1 == si_pos(__it1), __i1 <= n,
        filled(mz, mem.v(), bid(result), s, z, __i1 as int)
    ensures __i1 == n,
    decreases n - __i1
@body 1
    let ghost i0 = __i1 as int; let ghost m1 = mem.v();
    proof { if i0 < n { lemma_at(m0, *self, i0); assert(m1[bid(*self)] == m0[bid(*self)]); let o = si_at(self.shape@, self.strides@, 0, i0); lemma_unrmi_len(i0, self.shape@); lemma_al_dot(*self, unrmi(i0, self.shape@), self.shape@.len() as int); lemma_tq(o, 8); lemma_codec(cdt(dec::<i64>(nth(m0, *self, i0)), *from_unit, *to_unit)); lemma_fill_step(mz, m1, bid(result), s, z, i0, s[i0]); } }
@inv 2
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), fresh(result, m0, mz, self.shape@, new_dtype), s == convs(m0, *self, new_dtype), pb(src_ptr) == bid(*self), po(src_ptr) == self.offset, pb(result_ptr) == bid(result), po(result_ptr) == 0, ops_dt(src_ops) == self.dtype, ops_dt(dst_ops) == new_dtype, z == dt_size(new_dtype), 1 <= z <= 0x1_0000_0000, n * z == blen(bid(result)), dt_kind(self.dtype) == DTypeKind::TimeDelta64(*from_unit), dt_kind(new_dtype) == DTypeKind::TimeDelta64(*to_unit), self.dtype != new_dtype, tb(src) == bid(*self), to(src) == self.offset, tb(dst) == bid(result), to(dst) == 0, isz(*self) == 8, z == 8, tsz::<i64>() == 8, si_wf(__it2), __it2.shape@ == self.shape@, __it2.strides@ == self.strides@, si_base(__it2) == 0, __i2 == si_pos(__it2), __i2 <= n,
        filled(mz, mem.v(), bid(result), s, z, __i2 as int)
    ensures __i2 == n,
    decreases n - __i2
@body 2
    let ghost i0 = __i2 as int; let ghost m1 = mem.v();
    proof { if i0 < n { lemma_at(m0, *self, i0); assert(m1[bid(*self)] == m0[bid(*self)]); let o = si_at(self.shape@, self.strides@, 0, i0); lemma_unrmi_len(i0, self.shape@); lemma_al_dot(*self, unrmi(i0, self.shape@), self.shape@.len() as int); lemma_tq(o, 8); lemma_codec(cdt(dec::<i64>(nth(m0, *self, i0)), *from_unit, *to_unit)); lemma_fill_step(mz, m1, bid(result), s, z, i0, s[i0]); } }
@inv 3
    invariant wf(*self), mok(m0, *self), aligned(*self), size == prod(self.shape@), n == size, n > 0, n <= imax(), nonempty(self.shape@), 0 <= self.offset <= imax(), fresh(result, m0, mz, self.shape@, new_dtype), s == convs(m0, *self, new_dtype), pb(src_ptr) == bid(*self), po(src_ptr) == self.offset, pb(result_ptr) == bid(result), po(result_ptr) == 0, ops_dt(src_ops) == self.dtype, ops_dt(dst_ops) == new_dtype, z == dt_size(new_dtype), 1 <= z <= 0x1_0000_0000, n * z == blen(bid(result)), !(dt_kind(self.dtype) is DateTime64 && dt_kind(new_dtype) is DateTime64), !(dt_kind(self.dtype) is TimeDelta64 && dt_kind(new_dtype) is TimeDelta64), self.dtype != new_dtype, si_wf(__it3), __it3.shape@ == self.shape@, __it3.strides@ == self.strides@, si_base(__it3) == 0, __i3 == si_pos(__it3), __i3 <= n,
        filled(mz, mem.v(), bid(result), s, z, __i3 as int)
    ensures __i3 == n,
    decreases n - __i3
@body 3
    let ghost i0 = __i3 as int; let ghost m1 = mem.v();
    proof { if i0 < n { lemma_at(m0, *self, i0); assert(m1[bid(*self)] == m0[bid(*self)]); lemma_castb(self.dtype, new_dtype, nth(m0, *self, i0)); lemma_fill_step(mz, m1, bid(result), s, z, i0, s[i0]); } }

@fn src/array/mod.rs RumpyArray::copy memself mem=astype
@props P02 P03 P08 P12
@req
    wf(*self), mok(old(mem).v(), *self), aligned(*self),
@ens
    fresh(r, old(mem).v(), final(mem).v(), self.shape@, self.dtype), els(final(mem).v(), r) == els(old(mem).v(), *self),
@tail
    proof { assert(convs(old(mem).v(), *self, self.dtype) =~= els(old(mem).v(), *self)); }
