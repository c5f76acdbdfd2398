@unit iter
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs

@fn src/array/iter.rs StridedIter::new
@props P01 P03 P09
@ret r
@req
    box_ok(shape@, strides@, base_offset as int),
@ens
    si_wf(r), r.shape@ == shape@, r.strides@ == strides@, si_base(r) == base_offset, r.remaining == prod(shape@),
@inv 0
    invariant __i0 <= __l0, __l0 == shape@.len(), __v0@.len() == __i0, box_ok(shape@, strides@, base_offset as int),
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] __v0@[k]) as int == span(shape@[k], strides@[k])
    decreases __l0 - __i0
@body 0
    proof { lemma_ext_axis(shape@, strides@, __i0 as int, shape@.len() as int); lemma_pmax(shape@); assert(shape@[__i0 as int] <= pmax(shape@)); assert(0 * (strides@[__i0 as int] as int) == 0) by (nonlinear_arith); }
@tail
    proof {
        lemma_dot_zero(r.counters@, strides@, shape@.len() as int); lemma_pmax(shape@);
        if prod(shape@) > 0 { lemma_zero_idx(r.counters@, shape@); }
    }

@fn src/array/iter.rs StridedIter::advance
@props P01 P03 P09
@req
    si_shape(*old(self)), inb(old(self).counters@, old(self).shape@),
@ens
    si_shape(*final(self)), final(self).shape@ == old(self).shape@, final(self).strides@ == old(self).strides@, final(self).remaining == old(self).remaining,
    si_base(*final(self)) == si_base(*old(self)), final(self).counters@ == next_idx(old(self).counters@, old(self).shape@),
@inv 0
    invariant __i0 <= ndim, __e0 == 0, ndim == self.shape@.len(), si_shape(*self), inb(old(self).counters@, self.shape@), inb(self.counters@, self.shape@),
        self.shape@ == old(self).shape@, self.strides@ == old(self).strides@, self.remaining == old(self).remaining, si_base(*self) == si_base(*old(self)),
        self.backstrides@ == old(self).backstrides@,
        forall|k: int| 0 <= k < __i0 ==> self.counters@[k] == old(self).counters@[k],
        forall|k: int| __i0 <= k < ndim ==> self.counters@[k] == 0,
        next_idx(old(self).counters@, old(self).shape@) == next_idx(old(self).counters@.take(__i0 as int), old(self).shape@.take(__i0 as int)) + self.counters@.skip(__i0 as int)
    decreases __i0
@before 0
    proof { let o = old(self).counters@; assert(o.take(__i0 as int) =~= o); assert(self.shape@.take(__i0 as int) =~= self.shape@); assert(self.counters@.skip(__i0 as int) =~= Seq::<usize>::empty());
        assert(next_idx(o, self.shape@) + Seq::<usize>::empty() =~= next_idx(o, self.shape@)); }
@body 0
    let ghost before = self.counters@; let ghost boff = self.offset as int;
    proof {
        let n = __i0 as int; let o = old(self).counters@; let shp = self.shape@; let N = shp.len() as int;
        let t = o.take(n); let s = shp.take(n);
        assert(t.drop_last() =~= o.take(n - 1)); assert(s.drop_last() =~= shp.take(n - 1));
        assert(t.last() == o[n - 1]); assert(s.last() == shp[n - 1]); assert(o[n - 1] < shp[n - 1]); assert(before[n - 1] == o[n - 1]);
        let nx = next_idx(t, s);
        lemma_pmax(shp); assert(shp[n - 1] <= pmax(shp));
        let up = before.update(n - 1, (o[n - 1] + 1) as usize); let dn = before.update(n - 1, 0usize);
        lemma_dot_upd(before, up, self.strides@, self.strides@, n - 1, N);
        lemma_dot_upd(before, dn, self.strides@, self.strides@, n - 1, N);
        let st = self.strides@[n - 1] as int; let x = o[n - 1] as int;
        assert((x + 1) * st == x * st + st) by (nonlinear_arith);
        assert(0 * st == 0) by (nonlinear_arith);
        if o[n - 1] + 1 < shp[n - 1] {
            assert(nx == o.take(n - 1).push((o[n - 1] + 1) as usize)); assert(nx + before.skip(n) =~= up);
            assert(inb(up, shp)) by { assert forall|i: int| 0 <= i < N implies (#[trigger] up[i]) < shp[i] by { assert(before[i] < shp[i]); } }
            lemma_inb_box0(up, shp); lemma_dot_range(up, shp, self.strides@, N);
        } else {
            assert(nx == next_idx(o.take(n - 1), shp.take(n - 1)).push(0));
            assert(x == shp[n - 1] - 1); assert(self.backstrides@[n - 1] as int == span(shp[n - 1], self.strides@[n - 1]));
            assert(inb(dn, shp)) by { assert forall|i: int| 0 <= i < N implies (#[trigger] dn[i]) < shp[i] by { assert(before[i] < shp[i]); } }
            lemma_inb_box0(dn, shp); lemma_dot_range(dn, shp, self.strides@, N);
        }
    }
@end 0
    proof {
        let n = __i0 as int;
        lemma_next_len(old(self).counters@.take(n), self.shape@.take(n));
        assert(self.counters@ =~= before.update(n, 0usize));
        assert(self.counters@.skip(n) =~= seq![0usize] + before.skip(n + 1));
        assert(next_idx(old(self).counters@.take(n), self.shape@.take(n)).push(0) + before.skip(n + 1) =~= next_idx(old(self).counters@.take(n), self.shape@.take(n)) + self.counters@.skip(n));
    }
@after 0
    proof { assert(self.counters@.skip(0) =~= self.counters@); assert(old(self).counters@.take(0) =~= Seq::<usize>::empty()); assert(Seq::<usize>::empty() + self.counters@ =~= self.counters@); }

@fn src/array/iter.rs StridedIter::next
@props P01 P03 P09
@req
    si_wf(*old(self)),
@ens
    si_wf(*final(self)), final(self).shape@ == old(self).shape@, final(self).strides@ == old(self).strides@, si_base(*final(self)) == si_base(*old(self)),
    old(self).remaining == 0 ==> r is None && final(self).remaining == 0,
    old(self).remaining > 0 ==> final(self).remaining == old(self).remaining - 1 && r == Some(si_at(old(self).shape@, old(self).strides@, si_base(*old(self)), si_pos(*old(self))) as isize)
        && r->0 as int == si_at(old(self).shape@, old(self).strides@, si_base(*old(self)), si_pos(*old(self))),
@start
    proof { if self.remaining > 1 { lemma_next_un(si_pos(*self), self.shape@); lemma_next(self.counters@, self.shape@); } }

@fn src/array/iter.rs AxisOffsetIter::new
@props P09 P03
@req
    shape@.len() == strides@.len(), box_ok(osh_of(shape@, axis as int), ost_of(strides@, axis as int), base_offset as int),
@ens
    si_wf(r.inner), r.inner.shape@ == osh_of(shape@, axis as int), r.inner.strides@ == ost_of(strides@, axis as int),
    si_base(r.inner) == base_offset, r.inner.remaining == prod(r.inner.shape@),
@inv 0
    invariant __i0 <= __l0, __l0 == shape@.len(), shape@.len() == strides@.len(),
        outer_shape@ == drop_axis(shape@.take(__i0 as int), axis as int), outer_strides@ == drop_axis(strides@.take(__i0 as int), axis as int)
    decreases __l0 - __i0
@before 0
    proof { assert(drop_axis(shape@.take(0), axis as int) =~= Seq::<usize>::empty()); assert(drop_axis(strides@.take(0), axis as int) =~= Seq::<isize>::empty()); }
@body 0
    let ghost os = outer_shape@; let ghost ot = outer_strides@;
@end 0
    proof {
        let n = __i0 as int - 1; let a = axis as int;
        if n == a { assert(drop_axis(shape@.take(n + 1), a) =~= os); assert(drop_axis(strides@.take(n + 1), a) =~= ot); }
        else { assert(drop_axis(shape@.take(n + 1), a) =~= os.push(shape@[n])); assert(drop_axis(strides@.take(n + 1), a) =~= ot.push(strides@[n])); }
    }
@after 0
    proof { assert(shape@.take(shape@.len() as int) =~= shape@); assert(strides@.take(shape@.len() as int) =~= strides@);
      assert(outer_shape@.push(1usize) =~= seq![1usize] || outer_shape@.len() > 0); assert(outer_strides@.push(0isize) =~= seq![0isize] || outer_strides@.len() > 0); }

@fn src/array/iter.rs AxisOffsetIter::next
@props P09 P03
@req
    si_wf(old(self).inner),
@ens
    si_wf(final(self).inner), final(self).inner.shape@ == old(self).inner.shape@, final(self).inner.strides@ == old(self).inner.strides@, si_base(final(self).inner) == si_base(old(self).inner),
    old(self).inner.remaining == 0 ==> r is None && final(self).inner.remaining == 0,
    old(self).inner.remaining > 0 ==> final(self).inner.remaining == old(self).inner.remaining - 1
        && r is Some && r->0 as int == si_at(old(self).inner.shape@, old(self).inner.strides@, si_base(old(self).inner), si_pos(old(self).inner)),

@raw
pub proof fn lemma_inb_box0(idx: Seq<usize>, shape: Seq<usize>)
    requires inb(idx, shape) ensures inbox(idx, shape), nonempty(shape)
{ assert forall|i: int| 0 <= i < shape.len() implies ((#[trigger] idx[i]) as int) < max1(shape[i]) by { assert(idx[i] < shape[i]); }
  assert forall|i: int| 0 <= i < shape.len() implies (#[trigger] shape[i]) > 0 by { assert(idx[i] < shape[i]); } }
@endraw
