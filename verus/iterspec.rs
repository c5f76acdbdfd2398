// Iterators over offsets (after the extracted structs StridedIter, AxisOffsetIter).
/// the byte offset of the element at index zero
pub open spec fn si_base(s: StridedIter) -> int { s.offset - dot(s.counters@, s.strides@, s.shape@.len() as int) }
/// number of offsets already produced
pub open spec fn si_pos(s: StridedIter) -> int { prod(s.shape@) - s.remaining }
pub open spec fn box_ok(sh: Seq<usize>, st: Seq<isize>, base: int) -> bool {
    &&& sh.len() == st.len()
    &&& pmax(sh) <= imax()
    &&& -imax() <= ext_lo(sh, st, sh.len() as int) && ext_hi(sh, st, sh.len() as int) <= imax()
    &&& -imax() <= base + ext_lo(sh, st, sh.len() as int) && base + ext_hi(sh, st, sh.len() as int) <= imax()
}
pub open spec fn si_shape(s: StridedIter) -> bool {
    &&& s.counters@.len() == s.shape@.len() && s.backstrides@.len() == s.shape@.len()
    &&& box_ok(s.shape@, s.strides@, si_base(s))
    &&& forall|i: int| 0 <= i < s.shape@.len() ==> (#[trigger] s.backstrides@[i]) as int == span(s.shape@[i], s.strides@[i])
}
pub open spec fn si_wf(s: StridedIter) -> bool {
    &&& si_shape(s)
    &&& s.remaining <= prod(s.shape@)
    &&& (s.remaining > 0 ==> s.counters@ == unrmi(si_pos(s), s.shape@) && inb(s.counters@, s.shape@))
}
/// the k-th offset: base plus the strides times the k-th index in row-major order
pub open spec fn si_at(sh: Seq<usize>, st: Seq<isize>, base: int, k: int) -> int { base + dot(unrmi(k, sh), st, sh.len() as int) }
pub open spec fn drop_axis<T>(s: Seq<T>, a: int) -> Seq<T> { if 0 <= a < s.len() { s.take(a) + s.skip(a + 1) } else { s } }
pub open spec fn osh_of(sh: Seq<usize>, a: int) -> Seq<usize> { if drop_axis(sh, a).len() == 0 { seq![1usize] } else { drop_axis(sh, a) } }
pub open spec fn ost_of(st: Seq<isize>, a: int) -> Seq<isize> { if drop_axis(st, a).len() == 0 { seq![0isize] } else { drop_axis(st, a) } }
