@unit views
@struct src/array/mod.rs RumpyArray
@include array.rs
@include viewmaps.rs
@import core compute_c_strides is_c_contiguous is_f_contiguous RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous
@raw
/// ASSUMED here (contents are stated over memory in unit movers): c is a fresh C-ordered copy of a
pub uninterp spec fn is_copy(c: RumpyArray, a: RumpyArray) -> bool;
impl RumpyArray {
    #[verifier::external_body]
    pub fn copy(&self) -> (r: RumpyArray) requires wf(*self)
        ensures wf(r), r.flags.c, r.offset == 0, r.shape@ == self.shape@, r.dtype == self.dtype, is_copy(r, *self) { unimplemented!() }
}
// squeeze: the axes longer (or shorter) than one
pub open spec fn sq<T>(sh: Seq<usize>, s: Seq<T>) -> Seq<T> decreases sh.len() {
    if sh.len() == 0 { Seq::empty() } else if sh.last() == 1 { sq(sh.drop_last(), s.drop_last()) } else { sq(sh.drop_last(), s.drop_last()).push(s.last()) }
}
pub open spec fn unsq(idx: Seq<usize>, sh: Seq<usize>) -> Seq<usize> decreases sh.len() {
    if sh.len() == 0 { Seq::empty() } else if sh.last() == 1 { unsq(idx, sh.drop_last()).push(0usize) } else { unsq(idx.drop_last(), sh.drop_last()).push(idx.last()) }
}
pub open spec fn m_unsq(sh: Seq<usize>) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| unsq(idx, sh) }
pub proof fn lemma_unsq(idx: Seq<usize>, sh: Seq<usize>, st: Seq<isize>)
    requires sh.len() == st.len(), inbox(idx, sq(sh, sh))
    ensures sq(sh, sh).len() == sq(sh, st).len(), inbox(unsq(idx, sh), sh), dot(idx, sq(sh, st), idx.len() as int) == dot(unsq(idx, sh), st, sh.len() as int)
    decreases sh.len()
{
    if sh.len() > 0 {
        let (a, b) = (sh.drop_last(), st.drop_last()); let n = sh.len() as int;
        if sh.last() == 1 {
            lemma_unsq(idx, a, b);
            let u = unsq(idx, sh); let v = unsq(idx, a);
            assert(u.len() == n);
            assert forall|i: int| 0 <= i < n implies ((#[trigger] u[i]) as int) < max1(sh[i]) by { if i < n - 1 { assert((v[i] as int) < max1(a[i])); } }
            lemma_dot_ext(u, v, st, b, n - 1);
            assert(0 * (st[n - 1] as int) == 0) by (nonlinear_arith);
        } else {
            let j = idx.drop_last(); let sa = sq(a, a); let full = sq(sh, sh); let m = full.len() as int;
            assert(full =~= sa.push(sh.last()));
            assert(j.len() == sa.len());
            assert forall|i: int| 0 <= i < sa.len() implies ((#[trigger] j[i]) as int) < max1(sa[i]) by { assert((idx[i] as int) < max1(full[i])); }
            lemma_unsq(j, a, b);
            let u = unsq(idx, sh); let v = unsq(j, a);
            assert((idx[m - 1] as int) < max1(full[m - 1]));
            assert forall|i: int| 0 <= i < n implies ((#[trigger] u[i]) as int) < max1(sh[i]) by { if i < n - 1 { assert((v[i] as int) < max1(a[i])); } }
            lemma_dot_ext(u, v, st, b, n - 1);
            let fs = sq(sh, st); assert(fs =~= sq(a, b).push(st.last()));
            lemma_dot_ext(idx, j, fs, sq(a, b), m - 1);
        }
    }
}
pub proof fn lemma_sq_len(sh: Seq<usize>, st: Seq<isize>)
    requires sh.len() == st.len()
    ensures sq(sh, sh).len() == sq(sh, st).len(), pmax(sq(sh, sh)) == pmax(sh), nonempty(sq(sh, sh)) ==> nonempty(sh)
    decreases sh.len()
{
    if sh.len() > 0 {
        let (a, b) = (sh.drop_last(), st.drop_last());
        lemma_sq_len(a, b);
        let s = sq(sh, sh);
        if sh.last() == 1 {
            assert(pmax(a) * 1 == pmax(a));
            if nonempty(s) { assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] sh[i]) > 0 by { if i < a.len() { assert(a[i] > 0); } } }
        } else {
            let t = sq(a, a); assert(s =~= t.push(sh.last())); assert(s.drop_last() =~= t);
            if nonempty(s) {
                assert(nonempty(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) > 0 by { assert(s[i] > 0); } }
                assert(s[s.len() - 1] > 0);
                assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] sh[i]) > 0 by { if i < a.len() { assert(a[i] > 0); } }
            }
        }
    }
}
// C-ordered strides of a padded box span at most the padded size
pub proof fn lemma_cstr_ext(sh: Seq<usize>, st: Seq<isize>, size: int, n: int)
    requires sh.len() == st.len(), is_cstr(sh, st, size), 0 <= n <= sh.len(), size >= 1
    ensures ext_lo(sh, st, n) == 0, 0 <= ext_hi(sh, st, n) <= size * (pmax(sh) - sufm(sh, n))
    decreases n
{
    if n > 0 {
        lemma_cstr_ext(sh, st, size, n - 1);
        lemma_suf_le(sh, n); lemma_suf_le(sh, n - 1);
        let m = max1(sh[n - 1]); let s = suf(sh, n); let w = sufm(sh, n);
        assert(st[n - 1] as int == size * suf(sh, n - 1 + 1));
        assert(0 <= size * s <= size * w) by (nonlinear_arith) requires 0 <= s <= w, size >= 1;
        assert(0 <= (m - 1) * (size * s) <= (m - 1) * (size * w)) by (nonlinear_arith) requires 0 <= size * s <= size * w, m >= 1;
        assert((m - 1) * (size * w) == size * (m * w) - size * w) by (nonlinear_arith);
        assert(size * (pmax(sh) - m * w) + (size * (m * w) - size * w) == size * (pmax(sh) - w)) by (nonlinear_arith);
        lemma_span_sign(sh[n - 1], st[n - 1]);
        assert(sufm(sh, n - 1) == m * w);
        if st[n - 1] == 0 { assert(0 * (m - 1) == 0); }
    } else { lemma_sufm_split(sh, 0); assert(sh.take(0) =~= Seq::<usize>::empty()); assert(size * 0 == 0); assert(pmax(sh.take(0)) == 1); assert(1 * sufm(sh, 0) == sufm(sh, 0)); }
}
@endraw

@fn src/array/views.rs RumpyArray::view_with flags=or_assign
@props P01 P02 P14
@req
    wf(*self), -imax() <= offset_delta,
    lay(shape@, strides@, self.offset + offset_delta, isz(*self), buf_len(self.buffer)), 0 <= self.offset + offset_delta <= imax(),
@ens
    wf(r), r.buffer == self.buffer, r.dtype == self.dtype, r.shape@ == shape@, r.strides@ == strides@, r.offset == self.offset + offset_delta,
    nonempty(shape@) && is_cord(shape@, strides@, isz(*self)) ==> r.flags.c,
    nonempty(shape@) && is_ford(shape@, strides@, isz(*self)) ==> r.flags.f,
@start
    proof { lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int); }

@fn src/array/views.rs RumpyArray::slice_axis
@props P01 P02 P03
@req
    wf(*self), axis < self.shape@.len(), snorm(self.shape@[axis as int] as int, start as int, stop as int, step as int),
@ens
    r.shape@ == self.shape@.update(axis as int, slen(start as int, stop as int, step as int) as usize), slen(start as int, stop as int, step as int) >= 0,
    is_view(r, *self, m_slice(axis as int, start as int, step as int, slen(start as int, stop as int, step as int))),
    step == 1 ==> r.strides@ == self.strides@, slen(start as int, stop as int, step as int) == 0 ==> r.offset == self.offset,
@start
    proof {
        let n = self.shape@[axis as int] as int; lemma_dim_le(self.shape@, isz(*self), axis as int);
        lemma_ext_axis(self.shape@, self.strides@, axis as int, self.shape@.len() as int); lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int);
        lemma_slen(n, start as int, stop as int, step as int);
        let st = self.strides@[axis as int]; let len = slen(start as int, stop as int, step as int);
        lemma_slice_arith(n, start as int, step as int, len, st as int);
    }
@at /self . view_with \(|self.view_with\(/
    proof {
        let n = self.shape@[axis as int] as int; let len = slen(start as int, stop as int, step as int); let ax = axis as int;
        let (sh, st) = (self.shape@, self.strides@); let (rsh, rst) = (new_shape@, new_strides@); let N = sh.len() as int;
        assert(new_len as int == len);
        assert(rsh =~= sh.update(ax, len as usize)); assert(rst.len() == N);
        if step == 1 { assert(st[ax] * step == st[ax]) by (nonlinear_arith) requires step == 1; assert(rst =~= st); }
        let f = m_slice(ax, start as int, step as int, len);
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(f(idx), sh) && self.offset + offset_delta + dot(idx, rst, N) == self.offset + dot(f(idx), st, N) by {
            let k = idx[ax] as int; assert((idx[ax] as int) < max1(rsh[ax]));
            lemma_slice_arith2(n, start as int, step as int, len, st[ax] as int, k);
            let g = f(idx);
            assert forall|i: int| 0 <= i < N implies ((#[trigger] g[i]) as int) < max1(sh[i]) by { if i != ax { assert((idx[i] as int) < max1(rsh[i])); } }
            lemma_dot_upd(idx, g, rst, st, ax, N);
        }
        lemma_pmax_upd(sh, ax, len as usize); lemma_pmax(rsh); lemma_pmax(sh);
        assert(pmax(rsh) * isz(*self) <= pmax(sh) * isz(*self)) by (nonlinear_arith) requires pmax(rsh) <= pmax(sh), isz(*self) >= 1;
        if nonempty(rsh) { assert forall|i: int| 0 <= i < N implies (#[trigger] sh[i]) > 0 by { assert(rsh[i] > 0); } }
        lemma_lay_map(rsh, rst, self.offset + offset_delta, sh, st, self.offset as int, isz(*self), buf_len(self.buffer), f);
    }
@tail
    proof { lemma_is_view(r, *self, m_slice(axis as int, start as int, step as int, slen(start as int, stop as int, step as int))); }

@fn src/array/views.rs RumpyArray::reshape
@props P01 P02 P14
@req
    wf(*self), pmax(new_shape@) * isz(*self) <= imax(), self.offset + pmax(new_shape@) * isz(*self) <= imax(),
@dec
    if self.flags.c { 0int } else { 1int }
@ens
    r is Some <==> prod(self.shape@) == prod(new_shape@),
    r is Some ==> wf(r->0) && r->0.shape@ == new_shape@ && r->0.dtype == self.dtype,
    r is Some && self.flags.c ==> is_view(r->0, *self, m_reshape(new_shape@, self.shape@)),
    r is Some && !self.flags.c ==> exists|c: RumpyArray| #[trigger] is_copy(c, *self) && c.shape@ == self.shape@ && is_view(r->0, c, m_reshape(new_shape@, self.shape@)),
@start
    let ghost nsh = new_shape@;
    proof { lemma_pmax_le(self.shape@, isz(*self)); lemma_pmax_le(new_shape@, isz(*self)); lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int); }
@at /Some ?\(self.view_with/
    proof {
        let size = isz(*self); let (rsh, rst) = (new_shape@, new_strides@); let sh = self.shape@; let N = rsh.len() as int;
        lemma_pmax(rsh); lemma_pmax(sh);
        let f = m_reshape(rsh, sh);
        if nonempty(rsh) {
            assert(nonempty(sh));
            assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(f(idx), sh) && self.offset + 0 + dot(idx, rst, N) == self.offset + dot(f(idx), self.strides@, sh.len() as int) by {
                lemma_box_inb(idx, rsh); lemma_rmi_bound(idx, rsh); lemma_unrmi_inb(rmi(idx, rsh), sh); lemma_inb_box(f(idx), sh);
                lemma_cord_dot(idx, rsh, rst, size); lemma_cord_dot(f(idx), sh, self.strides@, size);
            }
            lemma_lay_map(rsh, rst, self.offset + 0, sh, self.strides@, self.offset as int, size, buf_len(self.buffer), f);
        } else {
            lemma_cstr_ext(rsh, rst, size, N);
            lemma_suf_le(rsh, N);
            assert(size * (pmax(rsh) - sufm(rsh, N)) <= pmax(rsh) * size) by (nonlinear_arith) requires size >= 1, sufm(rsh, N) >= 0;
        }
    }
@tail
    proof {
        if r is Some && self.flags.c {
            let f = m_reshape(nsh, self.shape@); let v = r->0;
            assert forall|idx: Seq<usize>| #[trigger] inb(idx, v.shape@) implies inb(f(idx), self.shape@) && addr(v, idx) == addr(*self, f(idx)) by {
                lemma_inb_box(idx, nsh); lemma_rmi_bound(idx, nsh); lemma_unrmi_inb(rmi(idx, nsh), self.shape@); 
                lemma_cord_dot(idx, nsh, v.strides@, isz(*self)); lemma_cord_dot(f(idx), self.shape@, self.strides@, isz(*self));
            }
            assert(is_view(v, *self, f));
        }
    }

@fn src/array/views.rs RumpyArray::transpose
@props P01 P02 P03
@req
    wf(*self),
@ens
    r.shape@ == self.shape@.reverse(), is_view(r, *self, m_rev()),
@inv 0
    invariant __i0 <= __l0, __l0 == self.shape@.len(), __v0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> (#[trigger] __v0@[k]) == self.shape@[__l0 - 1 - k]
    decreases __l0 - __i0
@inv 1
    invariant __i1 <= __l1, __l1 == self.strides@.len(), __v1@.len() == __i1, forall|k: int| 0 <= k < __i1 ==> (#[trigger] __v1@[k]) == self.strides@[__l1 - 1 - k]
    decreases __l1 - __i1
@at /self.view_with\(/
    proof {
        let (sh, st) = (self.shape@, self.strides@); let n = sh.len() as int;
        let p = Seq::new(sh.len(), |i: int| (n - 1 - i) as usize);
        assert(new_shape@ =~= gather(sh, p)); assert(new_strides@ =~= gather(st, p)); assert(new_shape@ =~= sh.reverse());
        lemma_pmax_perm(sh, p);
        if nonempty(new_shape@) { lemma_perm_nonempty(sh, p); }
        let f = m_rev();
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, new_shape@) implies inbox(f(idx), sh) && self.offset + 0 + dot(idx, new_strides@, n) == self.offset + dot(f(idx), st, n) by {
            lemma_perm_box(idx, sh, st, p); lemma_scatter(idx, p);
            let g = scatter(idx, p);
            assert forall|q: int| 0 <= q < n implies g[q] == idx.reverse()[q] by { lemma_perm_onto(p, n, q); let i = pinv(p, q); assert(p[i] == q); assert(i == n - 1 - q); }
            assert(g =~= f(idx));
        }
        lemma_lay_map(new_shape@, new_strides@, self.offset + 0, sh, st, self.offset as int, isz(*self), buf_len(self.buffer), f);
    }
@tail
    proof { let n = self.shape@.len() as int; let p = Seq::new(self.shape@.len(), |i: int| (n - 1 - i) as usize); assert(r.shape@ =~= gather(self.shape@, p)); if nonempty(r.shape@) { lemma_perm_nonempty(self.shape@, p); } lemma_is_view(r, *self, m_rev()); }

@fn src/array/views.rs RumpyArray::transpose_axes
@props P01 P02 P03
@req
    wf(*self), is_perm(axes@, self.shape@.len() as int),
@ens
    r.shape@ == gather(self.shape@, axes@), is_view(r, *self, m_scatter(axes@)),
@inv 0
    invariant __i0 <= axes@.len(), __v0@.len() == __i0, wf(*self), is_perm(axes@, self.shape@.len() as int), forall|k: int| 0 <= k < __i0 ==> (#[trigger] __v0@[k]) == self.shape@[axes@[k] as int]
    decreases axes@.len() - __i0
@inv 1
    invariant __i1 <= axes@.len(), __v1@.len() == __i1, wf(*self), is_perm(axes@, self.shape@.len() as int), forall|k: int| 0 <= k < __i1 ==> (#[trigger] __v1@[k]) == self.strides@[axes@[k] as int]
    decreases axes@.len() - __i1
@at /self.view_with\(/
    proof {
        let (sh, st) = (self.shape@, self.strides@); let n = sh.len() as int; let p = axes@;
        assert(new_shape@ =~= gather(sh, p)); assert(new_strides@ =~= gather(st, p));
        lemma_pmax_perm(sh, p);
        if nonempty(new_shape@) { lemma_perm_nonempty(sh, p); }
        let f = m_scatter(p);
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, new_shape@) implies inbox(f(idx), sh) && self.offset + 0 + dot(idx, new_strides@, n) == self.offset + dot(f(idx), st, n) by { lemma_perm_box(idx, sh, st, p); }
        lemma_lay_map(new_shape@, new_strides@, self.offset + 0, sh, st, self.offset as int, isz(*self), buf_len(self.buffer), f);
    }
@tail
    proof { if nonempty(r.shape@) { lemma_perm_nonempty(self.shape@, axes@); } lemma_is_view(r, *self, m_scatter(axes@)); }

@fn src/array/views.rs RumpyArray::flip
@props P01 P02 P03
@req
    wf(*self),
@ens
    r is Some <==> axis < self.shape@.len(),
    r is Some ==> r->0.shape@ == self.shape@ && is_view(r->0, *self, m_flip(axis as int, self.shape@[axis as int] as int)),
@start
    proof { if axis < self.shape@.len() { lemma_dim_le(self.shape@, isz(*self), axis as int); } }
@tail
    proof {
        if r is Some {
            let v = r->0; let ax = axis as int; let n = self.shape@[ax] as int; let f = m_flip(ax, n);
            if n > 0 {
                assert(slen(n - 1, -1, -1) == n) by { assert((n - 1 - (-1) - 1) / 1 == n - 1); }
                assert(v.shape@ =~= self.shape@);
                assert forall|idx: Seq<usize>| #[trigger] inb(idx, v.shape@) implies inb(f(idx), self.shape@) && addr(v, idx) == addr(*self, f(idx)) by {
                    assert(m_slice(ax, n - 1, -1, n)(idx) == f(idx)) by { assert(n - 1 + idx[ax] * (-1) == n - 1 - idx[ax]); }
                }
            } else {
                assert forall|idx: Seq<usize>| #[trigger] inb(idx, v.shape@) implies inb(f(idx), self.shape@) && addr(v, idx) == addr(*self, f(idx)) by { assert(idx[ax] < v.shape@[ax]); }
            }
        }
    }

@fn src/array/views.rs RumpyArray::broadcast_to
@props P01 P02 P04
@req
    wf(*self), pmax(new_shape@) * isz(*self) <= imax(),
@ens
    r is Some <==> bc_ok(self.shape@, new_shape@),
    r is Some ==> r->0.shape@ == new_shape@ && is_view(r->0, *self, m_bcast(self.shape@)),
    r is Some ==> r->0.offset == self.offset && forall|k: int| 0 <= k < new_shape@.len() ==> #[trigger] r->0.strides@[k] == 0 || (k >= new_shape@.len() - self.shape@.len() && r->0.strides@[k] == self.strides@[k - (new_shape@.len() - self.shape@.len())]),
@inv 0
    invariant __i0 <= __e0, __e0 == self.shape@.len(), wf(*self), new_strides@.len() == new_shape@.len(), offset == new_shape@.len() - self.shape@.len(), new_shape@.len() >= self.shape@.len(), new_shape@.len() <= usize::MAX,
        forall|k: int| 0 <= k < offset ==> (#[trigger] new_strides@[k]) == 0,
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] self.shape@[k]) == new_shape@[offset + k] || self.shape@[k] == 1,
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] new_strides@[offset + k]) == (if self.shape@[k] == new_shape@[offset + k] { self.strides@[k] } else { 0isize })
    decreases __e0 - __i0
@at /Some ?\(self.view_with/
    proof {
        let (sh, st) = (self.shape@, self.strides@); let n = sh.len() as int; let m = new_shape@.len() as int; let f = m_bcast(sh);
        assert(bc_ok(sh, new_shape@));
        assert forall|k: int| 0 <= k < m implies #[trigger] new_strides@[k] == 0 || (k >= m - n && new_strides@[k] == st[k - (m - n)]) by { if k >= offset { let j = k - offset; assert(new_strides@[offset + j] == (if sh[j] == new_shape@[offset + j] { st[j] } else { 0isize })); } }
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, new_shape@) implies inbox(f(idx), sh) && self.offset + 0 + dot(idx, new_strides@, m) == self.offset + dot(f(idx), st, n) by {
            lemma_bcast_dot(idx, new_shape@, new_strides@, sh, st, offset as int, n);
        }
        if nonempty(new_shape@) { assert forall|i: int| 0 <= i < n implies (#[trigger] sh[i]) > 0 by { assert(new_shape@[offset + i] > 0); } }
        lemma_lay_map(new_shape@, new_strides@, self.offset + 0, sh, st, self.offset as int, isz(*self), buf_len(self.buffer), f);
    }
@tail
    proof { if r is Some { let v = r->0; let (sh, st) = (self.shape@, self.strides@); let n = sh.len() as int; let o = (new_shape@.len() - sh.len()) as int;
        if nonempty(v.shape@) { assert forall|i: int| 0 <= i < n implies (#[trigger] sh[i]) > 0 by { assert(v.shape@[o + i] > 0); } }
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, v.shape@) implies inbox(m_bcast(sh)(idx), sh) && v.offset + dot(idx, v.strides@, v.shape@.len() as int) == self.offset + dot(m_bcast(sh)(idx), st, n) by {
            lemma_bcast_dot(idx, v.shape@, v.strides@, sh, st, o, n); }
        lemma_is_view(v, *self, m_bcast(sh)); } }

@fn src/array/views.rs RumpyArray::squeeze
@props P01 P02 P03
@req
    wf(*self),
@ens
    r.shape@ == sq(self.shape@, self.shape@), is_view(r, *self, m_unsq(self.shape@)),
@inv 0
    invariant __i0 <= __s0@.len(), __s0@ == self.shape@, __v0@ == sq(self.shape@.take(__i0 as int), self.shape@.take(__i0 as int))
    decreases __s0@.len() - __i0
@body 0
    proof { let t = self.shape@.take(__i0 + 1); assert(t.drop_last() =~= self.shape@.take(__i0 as int)); }
@after 0
    proof { assert(self.shape@.take(__i0 as int) =~= self.shape@); }
@inv 1
    invariant __i1 <= __l3, __s1@ == self.shape@, __s2@ == self.strides@, __l3 == self.shape@.len(), self.shape@.len() == self.strides@.len(), __v1@ == sq(self.shape@.take(__i1 as int), self.strides@.take(__i1 as int))
    decreases __l3 - __i1
@body 1
    proof { let t = self.shape@.take(__i1 + 1); assert(t.drop_last() =~= self.shape@.take(__i1 as int)); let u = self.strides@.take(__i1 + 1); assert(u.drop_last() =~= self.strides@.take(__i1 as int)); }
@after 1
    proof { assert(self.shape@.take(__i1 as int) =~= self.shape@); assert(self.strides@.take(__i1 as int) =~= self.strides@); }
@at /self.view_with\(/
    proof {
        let (sh, st) = (self.shape@, self.strides@); let f = m_unsq(sh); lemma_sq_len(sh, st);
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, new_shape@) implies inbox(f(idx), sh) && self.offset + 0 + dot(idx, new_strides@, new_shape@.len() as int) == self.offset + dot(f(idx), st, sh.len() as int) by { lemma_unsq(idx, sh, st); }
        lemma_lay_map(new_shape@, new_strides@, self.offset + 0, sh, st, self.offset as int, isz(*self), buf_len(self.buffer), f);
    }
@tail
    proof { lemma_sq_len(self.shape@, self.strides@); lemma_is_view(r, *self, m_unsq(self.shape@)); }

@fn src/array/views.rs RumpyArray::expand_dims
@props P01 P02 P03
@req
    wf(*self), self.shape@.len() < usize::MAX,
@ens
    r is Some <==> axis <= self.shape@.len(),
    r is Some ==> r->0.shape@ == self.shape@.insert(axis as int, 1usize) && is_view(r->0, *self, m_remove(axis as int)),
    r is Some ==> r->0.strides@.remove(axis as int) =~= self.strides@ && r->0.strides@[axis as int] == isz(*self) && r->0.offset == self.offset,
@at /Some ?\(self.view_with/
    proof {
        let (sh, st) = (self.shape@, self.strides@); let ax = axis as int; let f = m_remove(ax); let (rsh, rst) = (new_shape@, new_strides@); let n = sh.len() as int;
        assert(rsh =~= sh.insert(ax, 1usize)); assert(rsh.remove(ax) =~= sh); assert(rst.remove(ax) =~= st);
        lemma_pmax_remove(rsh, ax); assert(pmax(sh) * 1 == pmax(sh));
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(f(idx), sh) && self.offset + 0 + dot(idx, rst, n + 1) == self.offset + dot(f(idx), st, n) by { lemma_ins(idx, rsh, rst, ax); }
        if nonempty(rsh) { assert forall|i: int| 0 <= i < n implies (#[trigger] sh[i]) > 0 by { if i < ax { assert(rsh[i] > 0); } else { assert(rsh[i + 1] > 0); } } }
        lemma_lay_map(rsh, rst, self.offset + 0, sh, st, self.offset as int, isz(*self), buf_len(self.buffer), f);
        lemma_ext_mono(rsh, rst, 0, n + 1);
    }
@tail
    proof { if r is Some { let v = r->0; let sh = self.shape@; let ax = axis as int; let rsh = v.shape@; let n = sh.len() as int;
        assert(rsh.remove(ax) =~= sh); assert(v.strides@.remove(ax) =~= self.strides@);
        if nonempty(rsh) { assert forall|i: int| 0 <= i < n implies (#[trigger] sh[i]) > 0 by { if i < ax { assert(rsh[i] > 0); } else { assert(rsh[i + 1] > 0); } } }
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(m_remove(ax)(idx), sh) && v.offset + dot(idx, v.strides@, rsh.len() as int) == self.offset + dot(m_remove(ax)(idx), self.strides@, n) by { lemma_ins(idx, rsh, v.strides@, ax); }
        lemma_is_view(v, *self, m_remove(ax)); } }

@fn src/array/views.rs RumpyArray::squeeze_axis
@props P01 P02 P03
@req
    wf(*self),
@ens
    (axis < self.shape@.len() && self.shape@[axis as int] == 1) ==> r.shape@ == self.shape@.remove(axis as int) && is_view(r, *self, m_insert0(axis as int)),
    !(axis < self.shape@.len() && self.shape@[axis as int] == 1) ==> r == *self,
@at /if new_shape.is_empty/
    proof {
        let (sh, st) = (self.shape@, self.strides@); let ax = axis as int; let f = m_insert0(ax); let (rsh, rst) = (new_shape@, new_strides@); let n = sh.len() as int;
        lemma_sqax(sh, st, ax);
        assert(rsh =~= sh.remove(ax)); assert(rst =~= st.remove(ax));
        assert(box_map(rsh, rst, self.offset + 0, sh, st, self.offset as int, f));
        lemma_lay_map(rsh, rst, self.offset + 0, sh, st, self.offset as int, isz(*self), buf_len(self.buffer), f);
        assert forall|v: RumpyArray| #[trigger] wf(v) && v.buffer == self.buffer && v.dtype == self.dtype && v.shape@ == rsh && v.strides@ == rst && v.offset == self.offset implies is_view(v, *self, f) by { lemma_is_view(v, *self, f); }
        if rsh.len() == 0 { assert(rsh =~= Seq::<usize>::empty()); assert(rst =~= Seq::<isize>::empty()); }
    }
@tail
    proof { if axis < self.shape@.len() && self.shape@[axis as int] == 1 { lemma_sqax(self.shape@, self.strides@, axis as int); assert(r.strides@ =~= self.strides@.remove(axis as int)); assert(r.shape@ =~= self.shape@.remove(axis as int));
       assert(box_map(r.shape@, r.strides@, r.offset as int, self.shape@, self.strides@, self.offset as int, m_insert0(axis as int)));
       lemma_is_view(r, *self, m_insert0(axis as int)); } }

@raw
pub proof fn lemma_slen(n: int, start: int, stop: int, step: int)
    requires snorm(n, start, stop, step), 0 <= n <= imax()
    ensures 0 <= slen(start, stop, step) <= n, slen(start, stop, step) > 0 ==> 0 <= start < n,
        slen(start, stop, step) > 0 ==> 0 <= start + (slen(start, stop, step) - 1) * step < n,
        step > isize::MIN || slen(start, stop, step) <= 1,
        step == isize::MIN && start > stop ==> (start - stop - 1) / imax() == 0 && slen(start, stop, step) == 1,
{
    let d = if step > 0 { stop - start - 1 } else { start - stop - 1 }; let s = if step > 0 { step } else { -step };
    if d >= 0 {
        let q = d / s;
        lemma_fundamental_div_mod(d, s); lemma_div_pos_is_pos(d, s);
        lemma_mod_bound(d, s);
        assert(s * q <= d);
        assert(q <= d) by (nonlinear_arith) requires s * q <= d, s >= 1, q >= 0;
        assert(q * step == if step > 0 { s * q } else { -(s * q) }) by (nonlinear_arith) requires s == (if step > 0 { step } else { -step });
        if step == isize::MIN { lemma_basic_div(d, imax()); assert(q == 0) by (nonlinear_arith) requires s * q <= d, d < s, q >= 0, s >= 1; }
    }
}
pub proof fn lemma_slice_arith(n: int, start: int, step: int, len: int, st: int)
    requires 0 <= len <= n, len > 0 ==> 0 <= start < n && 0 <= start + (len - 1) * step < n
    ensures len > 0 ==> (st >= 0 ==> 0 <= start * st <= (n - 1) * st), len > 0 ==> (st <= 0 ==> (n - 1) * st <= start * st <= 0),
        len > 1 ==> -(n - 1) <= step <= n - 1,
        len > 1 ==> (st >= 0 ==> -((n - 1) * st) <= st * step <= (n - 1) * st), len > 1 ==> (st <= 0 ==> (n - 1) * st <= st * step <= -((n - 1) * st)),
{
    if len > 0 {
        assert(st >= 0 ==> 0 <= start * st <= (n - 1) * st) by (nonlinear_arith) requires 0 <= start <= n - 1;
        assert(st <= 0 ==> (n - 1) * st <= start * st <= 0) by (nonlinear_arith) requires 0 <= start <= n - 1;
    }
    if len > 1 {
        assert(-(n - 1) <= step <= n - 1) by (nonlinear_arith) requires 0 <= start < n, 0 <= start + (len - 1) * step < n, len > 1;
        assert(st >= 0 ==> -((n - 1) * st) <= st * step <= (n - 1) * st) by (nonlinear_arith) requires -(n - 1) <= step <= n - 1;
        assert(st <= 0 ==> (n - 1) * st <= st * step <= -((n - 1) * st)) by (nonlinear_arith) requires -(n - 1) <= step <= n - 1;
    }
}
pub proof fn lemma_slice_arith2(n: int, start: int, step: int, len: int, st: int, k: int)
    requires 0 <= len <= n, len > 0 ==> 0 <= start < n && 0 <= start + (len - 1) * step < n, 0 <= k < (if len == 0 { 1 } else { len })
    ensures len > 0 ==> 0 <= start + k * step < n, len > 1 ==> start * st + k * (st * step) == (start + k * step) * st, len == 1 ==> k * st == 0 && k * step == 0, len == 0 ==> k * st == 0
{
    if len > 0 {
        assert(0 <= start + k * step < n) by (nonlinear_arith) requires 0 <= start < n, 0 <= start + (len - 1) * step < n, 0 <= k <= len - 1;
        assert(start * st + k * (st * step) == (start + k * step) * st) by (nonlinear_arith);
    }
    if len <= 1 { assert(k == 0); assert(0 * st == 0 && 0 * step == 0) by (nonlinear_arith); }
}
pub proof fn lemma_bcast_dot(idx: Seq<usize>, rsh: Seq<usize>, rst: Seq<isize>, sh: Seq<usize>, st: Seq<isize>, o: int, n: int)
    requires inbox(idx, rsh), rsh.len() == rst.len(), sh.len() == st.len(), o == rsh.len() - sh.len(), o >= 0, 0 <= n <= sh.len(),
        forall|k: int| 0 <= k < o ==> (#[trigger] rst[k]) == 0,
        forall|k: int| 0 <= k < sh.len() ==> (#[trigger] sh[k]) == rsh[o + k] || sh[k] == 1,
        forall|k: int| 0 <= k < sh.len() ==> (#[trigger] rst[o + k]) == (if sh[k] == rsh[o + k] { st[k] } else { 0isize })
    ensures inbox(m_bcast(sh)(idx), sh), dot(idx, rst, o + n) == dot(m_bcast(sh)(idx), st, n)
    decreases n
{
    let f = m_bcast(sh)(idx);
    assert forall|i: int| 0 <= i < sh.len() implies ((#[trigger] f[i]) as int) < max1(sh[i]) by { assert((idx[o + i] as int) < max1(rsh[o + i])); }
    if n > 0 {
        lemma_bcast_dot(idx, rsh, rst, sh, st, o, n - 1);
        let k = n - 1;
        assert(rst[o + k] == (if sh[k] == rsh[o + k] { st[k] } else { 0isize }));
        assert(sh[k] == rsh[o + k] || sh[k] == 1);
        assert((idx[o + k] as int) < max1(rsh[o + k]));
        let (a, b) = (idx[o + k] as int, rst[o + k] as int);
        assert(0 * (st[k] as int) == 0 && a * 0 == 0 && 0 * b == 0) by (nonlinear_arith);
    } else { lemma_dot_zero(idx, rst, o); }
}
pub proof fn lemma_ins(idx: Seq<usize>, rsh: Seq<usize>, rst: Seq<isize>, ax: int)
    requires inbox(idx, rsh), rsh.len() == rst.len(), 0 <= ax < rsh.len(), rsh[ax] == 1
    ensures inbox(idx.remove(ax), rsh.remove(ax)), dot(idx, rst, rsh.len() as int) == dot(idx.remove(ax), rst.remove(ax), rsh.len() - 1)
{
    assert((idx[ax] as int) < max1(rsh[ax]));
    lemma_dot_remove(idx, rst, ax);
    assert(0 * (rst[ax] as int) == 0) by (nonlinear_arith);
    let (a, b) = (idx.remove(ax), rsh.remove(ax));
    assert forall|i: int| 0 <= i < b.len() implies ((#[trigger] a[i]) as int) < max1(b[i]) by { if i < ax { assert((idx[i] as int) < max1(rsh[i])); } else { assert((idx[i + 1] as int) < max1(rsh[i + 1])); } }
}
pub proof fn lemma_sqax(sh: Seq<usize>, st: Seq<isize>, ax: int)
    requires sh.len() == st.len(), 0 <= ax < sh.len(), sh[ax] == 1
    ensures pmax(sh.remove(ax)) == pmax(sh), nonempty(sh.remove(ax)) ==> nonempty(sh), forall|off: int| #[trigger] box_map(sh.remove(ax), st.remove(ax), off, sh, st, off, m_insert0(ax))
{
    lemma_pmax_remove(sh, ax); assert(pmax(sh.remove(ax)) * 1 == pmax(sh.remove(ax)));
    let rsh = sh.remove(ax);
    if nonempty(rsh) { assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] sh[i]) > 0 by { if i < ax { assert(rsh[i] > 0); } else if i > ax { assert(rsh[i - 1] > 0); } } }
    assert forall|off: int| #[trigger] box_map(sh.remove(ax), st.remove(ax), off, sh, st, off, m_insert0(ax)) by {
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(m_insert0(ax)(idx), sh) && off + dot(idx, st.remove(ax), rsh.len() as int) == off + dot(m_insert0(ax)(idx), st, sh.len() as int) by {
            let g = m_insert0(ax)(idx); assert(g.remove(ax) =~= idx);
            assert forall|i: int| 0 <= i < sh.len() implies ((#[trigger] g[i]) as int) < max1(sh[i]) by { if i < ax { assert((idx[i] as int) < max1(rsh[i])); } else if i > ax { assert((idx[i - 1] as int) < max1(rsh[i - 1])); } }
            lemma_ins(g, sh, st, ax);
        }
    }
}
@endraw

@fn src/array/views.rs RumpyArray::gufunc_subarray
@props P01 P14
@req
    wf(*self), loop_indices@.len() >= (if loop_ndim <= self.shape@.len() { loop_ndim as int } else { self.shape@.len() as int }),
    forall|i: int| 0 <= i < loop_ndim && i < self.shape@.len() ==> (#[trigger] loop_indices@[i]) < self.shape@[i] || self.shape@[i] == 1,
@ens
    r.shape@ == (if loop_ndim < self.shape@.len() { self.shape@.skip(loop_ndim as int) } else { seq![1usize] }),
    is_view(r, *self, m_sub(loop_indices@, self.shape@, loop_ndim as int)),
@inv 0
    invariant __i0 <= loop_indices@.len(), wf(*self), my_loop_ndim as int == (if loop_ndim <= self.shape@.len() { loop_ndim as int } else { self.shape@.len() as int }),
        loop_indices@.len() >= my_loop_ndim,
        forall|i: int| 0 <= i < my_loop_ndim ==> (#[trigger] loop_indices@[i]) < self.shape@[i] || self.shape@[i] == 1,
        offset_delta as int == dot(sub_prefix(loop_indices@, self.shape@, my_loop_ndim as int), self.strides@, if __i0 <= my_loop_ndim { __i0 as int } else { my_loop_ndim as int })
    decreases loop_indices@.len() - __i0
@body 0
    proof {
        let n = __i0 as int; let N = self.shape@.len() as int;
        if n < my_loop_ndim {
            let sh = self.shape@; let st = self.strides@;
            let full = sub_prefix(loop_indices@, sh, my_loop_ndim as int) + Seq::new((N - my_loop_ndim) as nat, |i: int| 0usize);
            assert(inbox(full, sh)) by { assert forall|i: int| 0 <= i < N implies ((#[trigger] full[i]) as int) < max1(sh[i]) by { if i < my_loop_ndim { assert(loop_indices@[i] < sh[i] || sh[i] == 1); } } }
            lemma_dot_ext(full, sub_prefix(loop_indices@, sh, my_loop_ndim as int), st, st, n); lemma_dot_ext(full, sub_prefix(loop_indices@, sh, my_loop_ndim as int), st, st, n + 1);
            lemma_dot_range(full, sh, st, n); lemma_dot_range(full, sh, st, n + 1);
            lemma_ext_mono(sh, st, n, N); lemma_ext_mono(sh, st, n + 1, N); lemma_ext_mono(sh, st, 0, N);
            assert(loop_indices@[n] < sh[n] || sh[n] == 1);
            lemma_term_range(full[n], sh[n], st[n]); lemma_ext_axis(sh, st, n, N); lemma_dim_le(sh, isz(*self), n);
        }
    }
@at /let core_shape =/
    proof {
        let (sh, st) = (self.shape@, self.strides@); let L = my_loop_ndim as int; let N = sh.len() as int; let p = sub_prefix(loop_indices@, sh, L);
        let f = m_sub(loop_indices@, sh, loop_ndim as int);
        lemma_ext_mono(sh, st, 0, N);
        lemma_pmax_skip(sh, L); lemma_pmax(sh.skip(L));
        let size = isz(*self);
        assert(pmax(sh.skip(L)) * size <= pmax(sh) * size) by (nonlinear_arith) requires pmax(sh.skip(L)) <= pmax(sh), size >= 1;
        assert(nonempty(sh.skip(L)) ==> nonempty(sh)) by { if nonempty(sh.skip(L)) { assert forall|i: int| 0 <= i < N implies (#[trigger] sh[i]) > 0 by { if i < L { assert(loop_indices@[i] < sh[i] || sh[i] == 1); } else { assert(sh.skip(L)[i - L] > 0); } } } }
        if L < N {
            let (rsh, rst) = (sh.skip(L), st.skip(L));
            assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(f(idx), sh) && self.offset + offset_delta + dot(idx, rst, rsh.len() as int) == self.offset + dot(f(idx), st, N) by {
                let g = f(idx); assert(g =~= p + idx);
                assert forall|i: int| 0 <= i < N implies ((#[trigger] g[i]) as int) < max1(sh[i]) by { if i < L { assert(loop_indices@[i] < sh[i] || sh[i] == 1); } else { assert((idx[i - L] as int) < max1(rsh[i - L])); } }
                lemma_dot_split(p, idx, st, N - L);
            }
            lemma_lay_map(rsh, rst, self.offset + offset_delta, sh, st, self.offset as int, size, buf_len(self.buffer), f);
            assert forall|v: RumpyArray| #[trigger] wf(v) && v.buffer == self.buffer && v.dtype == self.dtype && v.shape@ == rsh && v.strides@ == rst && v.offset == self.offset + offset_delta implies is_view(v, *self, f) by { lemma_is_view(v, *self, f); }
        } else {
            let rsh = seq![1usize]; let rst = seq![size as isize];
            assert(sh.skip(L) =~= Seq::<usize>::empty());
            assert(pmax(rsh) == 1) by { assert(rsh.drop_last() =~= Seq::<usize>::empty()); assert(pmax(rsh.drop_last()) == 1); assert(max1(rsh.last()) == 1); }
            assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(f(idx), sh) && self.offset + offset_delta + dot(idx, rst, 1) == self.offset + dot(f(idx), st, N) by {
                assert((idx[0] as int) < max1(rsh[0])); assert(0 * (rst[0] as int) == 0) by (nonlinear_arith); assert(dot(idx, rst, 0) == 0); assert(dot(idx, rst, 1) == 0);
                assert forall|i: int| 0 <= i < N implies ((#[trigger] p[i]) as int) < max1(sh[i]) by { assert(loop_indices@[i] < sh[i] || sh[i] == 1); }
                assert(f(idx) == p);
            }
            lemma_pmax_le(sh, size);
            lemma_lay_map(rsh, rst, self.offset + offset_delta, sh, st, self.offset as int, size, buf_len(self.buffer), f);
            assert forall|v: RumpyArray| #[trigger] wf(v) && v.buffer == self.buffer && v.dtype == self.dtype && v.shape@ == rsh && v.strides@ == rst && v.offset == self.offset + offset_delta implies is_view(v, *self, f) by { lemma_is_view(v, *self, f); }
        }
    }

@raw
/// loop index, with 0 on the broadcast axes
pub open spec fn sub_prefix(li: Seq<usize>, sh: Seq<usize>, l: int) -> Seq<usize> { Seq::new(l as nat, |i: int| if sh[i] == 1 { 0usize } else { li[i] }) }
pub open spec fn m_sub(li: Seq<usize>, sh: Seq<usize>, l: int) -> spec_fn(Seq<usize>) -> Seq<usize> {
    |idx: Seq<usize>| if l < sh.len() { sub_prefix(li, sh, l) + idx } else { sub_prefix(li, sh, sh.len() as int) }
}
pub proof fn lemma_pmax_skip(s: Seq<usize>, l: int)
    requires 0 <= l <= s.len() ensures pmax(s.skip(l)) <= pmax(s) decreases l
{
    if l > 0 {
        lemma_pmax_skip(s, l - 1); let t = s.skip(l - 1); lemma_pmax_remove(t, 0); assert(t.remove(0) =~= s.skip(l)); lemma_pmax(s.skip(l));
        let a = pmax(s.skip(l)); let m = max1(t[0]); assert(a <= a * m) by (nonlinear_arith) requires a >= 1, m >= 1;
    } else { assert(s.skip(0) =~= s); }
}
pub proof fn lemma_dot_split(p: Seq<usize>, idx: Seq<usize>, st: Seq<isize>, n: int)
    requires 0 <= n <= idx.len(), p.len() + n <= st.len()
    ensures dot(p + idx, st, p.len() + n) == dot(p, st, p.len() as int) + dot(idx, st.skip(p.len() as int), n)
    decreases n
{
    if n > 0 { lemma_dot_split(p, idx, st, n - 1); let L = p.len() as int; assert((p + idx)[L + n - 1] == idx[n - 1]); assert(st.skip(L)[n - 1] == st[L + n - 1]); }
    else { lemma_dot_ext(p + idx, p, st, st, p.len() as int); }
}
@endraw

@raw
pub open spec fn sw<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.update(a, s[b]).update(b, s[a]) }
/// source index of an element of the array turned k quarter turns from axis a towards axis b
pub open spec fn m_rot(k: int, a: int, b: int, na: int, nb: int) -> spec_fn(Seq<usize>) -> Seq<usize> {
    |i: Seq<usize>| if k == 0 { i } else if k == 1 { sw(i, a, b).update(b, (nb - 1 - i[a]) as usize) }
        else if k == 2 { i.update(a, (na - 1 - i[a]) as usize).update(b, (nb - 1 - i[b]) as usize) } else { sw(i, a, b).update(a, (na - 1 - i[b]) as usize) }
}
pub proof fn lemma_sw_perm(n: int, a: int, b: int, p: Seq<usize>)
    requires 0 <= a < n, 0 <= b < n, n <= usize::MAX, p == sw(Seq::new(n as nat, |k: int| k as usize), a, b)
    ensures is_perm(p, n), forall|s: Seq<usize>| s.len() == n ==> #[trigger] gather(s, p) == sw(s, a, b), forall|i: Seq<usize>| i.len() == n ==> #[trigger] m_scatter(p)(i) == sw(i, a, b)
{
    assert(p.len() == n); assert forall|k: int| 0 <= k < n implies #[trigger] p[k] == (if k == a { b } else if k == b { a } else { k }) by {}
    assert(is_perm(p, n));
    assert forall|s: Seq<usize>| s.len() == n implies #[trigger] gather(s, p) == sw(s, a, b) by { assert(gather(s, p) =~= sw(s, a, b)); }
    assert forall|i: Seq<usize>| i.len() == n implies #[trigger] m_scatter(p)(i) == sw(i, a, b) by { let t = scatter(i, p); lemma_scatter(i, p); assert(gather(t, p) == sw(t, a, b)); assert(sw(t, a, b) == i); assert(sw(sw(t, a, b), a, b) =~= t); }
}
pub proof fn lemma_rot_t(arr: RumpyArray, f: RumpyArray, r: RumpyArray, p: Seq<usize>, a: int, b: int, c: int)
    requires wf(arr), 0 <= a < arr.shape@.len(), 0 <= b < arr.shape@.len(), a != b, c == a || c == b, f.shape@ == arr.shape@, r.shape@ == sw(arr.shape@, a, b),
        forall|i: Seq<usize>| i.len() == arr.shape@.len() ==> #[trigger] m_scatter(p)(i) == sw(i, a, b),
        is_view(f, arr, m_flip(c, arr.shape@[c] as int)), is_view(r, f, m_scatter(p))
    ensures is_view(r, arr, m_rot(if c == b { 1 } else { 3 }, a, b, arr.shape@[a] as int, arr.shape@[b] as int))
{
    let g = m_rot(if c == b { 1 } else { 3 }, a, b, arr.shape@[a] as int, arr.shape@[b] as int);
    assert forall|i: Seq<usize>| #[trigger] inb(i, r.shape@) implies inb(g(i), arr.shape@) && addr(r, i) == addr(arr, g(i)) by {
        let j = m_scatter(p)(i); assert(j == sw(i, a, b)); assert(inb(j, f.shape@)); let h = m_flip(c, arr.shape@[c] as int)(j); assert(inb(h, arr.shape@)); assert(h =~= g(i));
    }
}
pub proof fn lemma_rot_f(arr: RumpyArray, f: RumpyArray, r: RumpyArray, a: int, b: int)
    requires wf(arr), 0 <= a < arr.shape@.len(), 0 <= b < arr.shape@.len(), a != b, f.shape@ == arr.shape@, r.shape@ == arr.shape@,
        is_view(f, arr, m_flip(a, arr.shape@[a] as int)), is_view(r, f, m_flip(b, arr.shape@[b] as int))
    ensures is_view(r, arr, m_rot(2, a, b, arr.shape@[a] as int, arr.shape@[b] as int))
{
    hide(is_view);
    let g = m_rot(2, a, b, arr.shape@[a] as int, arr.shape@[b] as int); let (na, nb) = (arr.shape@[a] as int, arr.shape@[b] as int);
    lemma_view_eq(f, arr, m_flip(a, na)); lemma_view_eq(r, f, m_flip(b, nb));
    assert forall|i: Seq<usize>| #[trigger] inb(i, r.shape@) implies inb(g(i), arr.shape@) && addr(r, i) == addr(arr, g(i)) by {
        let j = m_flip(b, nb)(i); lemma_view_at(r, f, m_flip(b, nb), i); assert(j == i.update(b, (nb - 1 - i[b]) as usize)); assert(j[a] == i[a]);
        let h = m_flip(a, na)(j); lemma_view_at(f, arr, m_flip(a, na), j); assert(h == j.update(a, (na - 1 - j[a]) as usize)); assert(h =~= g(i));
    }
    lemma_view_intro(r, arr, g);
}
pub proof fn lemma_view_at(r: RumpyArray, a: RumpyArray, f: spec_fn(Seq<usize>) -> Seq<usize>, i: Seq<usize>) requires is_view(r, a, f), inb(i, r.shape@) ensures inb(f(i), a.shape@), addr(r, i) == addr(a, f(i)) {}
pub proof fn lemma_view_eq(r: RumpyArray, a: RumpyArray, f: spec_fn(Seq<usize>) -> Seq<usize>) requires is_view(r, a, f) ensures r.buffer == a.buffer, r.dtype == a.dtype, wf(r) {}
pub proof fn lemma_view_intro(r: RumpyArray, a: RumpyArray, f: spec_fn(Seq<usize>) -> Seq<usize>)
    requires r.buffer == a.buffer, r.dtype == a.dtype, wf(r), forall|i: Seq<usize>| #[trigger] inb(i, r.shape@) ==> inb(f(i), a.shape@) && addr(r, i) == addr(a, f(i)) ensures is_view(r, a, f) {}
/// whatever the intermediate view is
pub proof fn lemma_rot(arr: RumpyArray, p: Seq<usize>, a: int, b: int)
    requires wf(arr), 0 <= a < arr.shape@.len(), 0 <= b < arr.shape@.len(), a != b, forall|i: Seq<usize>| i.len() == arr.shape@.len() ==> #[trigger] m_scatter(p)(i) == sw(i, a, b)
    ensures
        is_view(arr, arr, m_rot(0, a, b, arr.shape@[a] as int, arr.shape@[b] as int)),
        forall|f: RumpyArray, r: RumpyArray| #[trigger] is_view(f, arr, m_flip(b, arr.shape@[b] as int)) && #[trigger] is_view(r, f, m_scatter(p)) && f.shape@ == arr.shape@ && r.shape@ == sw(arr.shape@, a, b) ==> is_view(r, arr, m_rot(1, a, b, arr.shape@[a] as int, arr.shape@[b] as int)),
        forall|f: RumpyArray, r: RumpyArray| #[trigger] is_view(f, arr, m_flip(a, arr.shape@[a] as int)) && #[trigger] is_view(r, f, m_scatter(p)) && f.shape@ == arr.shape@ && r.shape@ == sw(arr.shape@, a, b) ==> is_view(r, arr, m_rot(3, a, b, arr.shape@[a] as int, arr.shape@[b] as int)),
        forall|f: RumpyArray, r: RumpyArray| #[trigger] is_view(f, arr, m_flip(a, arr.shape@[a] as int)) && #[trigger] is_view(r, f, m_flip(b, arr.shape@[b] as int)) && f.shape@ == arr.shape@ && r.shape@ == arr.shape@ ==> is_view(r, arr, m_rot(2, a, b, arr.shape@[a] as int, arr.shape@[b] as int)),
{
    assert forall|f: RumpyArray, r: RumpyArray| #[trigger] is_view(f, arr, m_flip(b, arr.shape@[b] as int)) && #[trigger] is_view(r, f, m_scatter(p)) && f.shape@ == arr.shape@ && r.shape@ == sw(arr.shape@, a, b) implies is_view(r, arr, m_rot(1, a, b, arr.shape@[a] as int, arr.shape@[b] as int)) by { lemma_rot_t(arr, f, r, p, a, b, b); }
    assert forall|f: RumpyArray, r: RumpyArray| #[trigger] is_view(f, arr, m_flip(a, arr.shape@[a] as int)) && #[trigger] is_view(r, f, m_scatter(p)) && f.shape@ == arr.shape@ && r.shape@ == sw(arr.shape@, a, b) implies is_view(r, arr, m_rot(3, a, b, arr.shape@[a] as int, arr.shape@[b] as int)) by { lemma_rot_t(arr, f, r, p, a, b, a); }
    assert forall|f: RumpyArray, r: RumpyArray| #[trigger] is_view(f, arr, m_flip(a, arr.shape@[a] as int)) && #[trigger] is_view(r, f, m_flip(b, arr.shape@[b] as int)) && f.shape@ == arr.shape@ && r.shape@ == arr.shape@ implies is_view(r, arr, m_rot(2, a, b, arr.shape@[a] as int, arr.shape@[b] as int)) by { lemma_rot_f(arr, f, r, a, b); }
}
@endraw
@fn src/array/manipulation.rs rot90
@props P02
@req
    wf(*arr), axis0 < arr.shape@.len(), axis1 < arr.shape@.len(), axis0 != axis1,
@ens
    r.shape@ == (if k % 2 == 0 { arr.shape@ } else { sw(arr.shape@, axis0 as int, axis1 as int) }),
    is_view(r, *arr, m_rot(k as int % 4, axis0 as int, axis1 as int, arr.shape@[axis0 as int] as int, arr.shape@[axis1 as int] as int)),
@inv 0
    invariant __i0 <= ndim, __l1 == ndim, __v0@.len() == __i0, forall|j: int| 0 <= j < __i0 ==> (#[trigger] __v0@[j]) == j
    decreases __l1 - __i0
@start
    let ghost k0 = k as int;
@at /match k/
    proof { let n = arr.shape@.len() as int; assert(axes@ =~= sw(Seq::new(n as nat, |k: int| k as usize), axis0 as int, axis1 as int)); lemma_sw_perm(n, axis0 as int, axis1 as int, axes@); lemma_rot(*arr, axes@, axis0 as int, axis1 as int); assert(gather(arr.shape@, axes@) == sw(arr.shape@, axis0 as int, axis1 as int)); assert(k as int == k0 % 4); }
