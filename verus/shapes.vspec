@unit shapes
@struct src/array/mod.rs RumpyArray
@include array.rs
@include viewmaps.rs
@import core compute_c_strides RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::size
@import views view_with slice_axis broadcast_to transpose_axes flip
@raw
/// i-th dimension counted from the right, 1 beyond the front
pub open spec fn rdim(s: Seq<usize>, i: int) -> int { if i < s.len() { s[s.len() - 1 - i] as int } else { 1 } }
pub open spec fn imx(a: int, b: int) -> int { if b > a { b } else { a } }
pub open spec fn bcompat(a: Seq<usize>, b: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < imx(a.len() as int, b.len() as int) ==> #[trigger] rdim(a, i) == rdim(b, i) || rdim(a, i) == 1 || rdim(b, i) == 1
}
pub open spec fn bdim(a: Seq<usize>, b: Seq<usize>, i: int) -> int { if rdim(a, i) == 1 { rdim(b, i) } else { rdim(a, i) } }
pub open spec fn is_bshape(r: Seq<usize>, a: Seq<usize>, b: Seq<usize>) -> bool {
    r.len() == imx(a.len() as int, b.len() as int) && forall|i: int| 0 <= i < r.len() ==> #[trigger] rdim(r, i) == bdim(a, b, i)
}
/// both inputs broadcast to the common shape
pub proof fn lemma_bshape_ok(r: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires is_bshape(r, a, b), bcompat(a, b)
    ensures bc_ok(a, r), bc_ok(b, r)
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]) == r[r.len() - a.len() + i] || a[i] == 1 by { let k = a.len() - 1 - i; assert(rdim(a, k) == a[i]); assert(rdim(r, k) == bdim(a, b, k)); assert(rdim(a, k) == rdim(b, k) || rdim(a, k) == 1 || rdim(b, k) == 1); }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]) == r[r.len() - b.len() + i] || b[i] == 1 by { let k = b.len() - 1 - i; assert(rdim(b, k) == b[i]); assert(rdim(r, k) == bdim(a, b, k)); assert(rdim(a, k) == rdim(b, k) || rdim(a, k) == 1 || rdim(b, k) == 1); }
}
/// the common shape does not depend on the order of the operands
pub proof fn lemma_bshape_sym(r: Seq<usize>, q: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires bcompat(a, b), is_bshape(r, a, b), is_bshape(q, b, a)
    ensures r =~= q
{
    assert forall|j: int| 0 <= j < r.len() implies r[j] == q[j] by { let k = r.len() - 1 - j; assert(rdim(r, k) == bdim(a, b, k)); assert(rdim(q, k) == bdim(b, a, k)); assert(rdim(a, k) == rdim(b, k) || rdim(a, k) == 1 || rdim(b, k) == 1); }
}
pub open spec fn sumto(s: Seq<usize>, n: int) -> int decreases n { if n <= 0 { 0 } else { sumto(s, n - 1) + s[n - 1] } }
/// piece lengths: as even as possible, longer pieces first
pub open spec fn even_sizes(len: int, n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| (len / n + (if i < len % n { 1int } else { 0int })) as usize) }
pub open spec fn is_split(r: Seq<RumpyArray>, a: RumpyArray, sizes: Seq<usize>, axis: int) -> bool {
    r.len() == sizes.len() && forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).shape@ == a.shape@.update(axis, sizes[k]) && is_view(r[k], a, m_slice(axis, sumto(sizes, k), 1, sizes[k] as int))
}
pub proof fn lemma_sumto_mono(s: Seq<usize>, n: int, m: int) requires 0 <= n <= m <= s.len() ensures 0 <= sumto(s, n) <= sumto(s, m) decreases m
{ if m > 0 { if n < m { lemma_sumto_mono(s, n, m - 1); } else { lemma_sumto_mono(s, n - 1, m - 1); } } }
pub proof fn lemma_sumto_const(s: Seq<usize>, n: int, c: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == c ensures sumto(s, n) == n * c decreases n
{ if n > 0 { lemma_sumto_const(s, n - 1, c); assert(s[n - 1] == c); assert((n - 1) * c + c == n * c) by (nonlinear_arith); } else { assert(0 * c == 0) by (nonlinear_arith); } }
pub proof fn lemma_sumto_rem(s: Seq<usize>, n: int, c: int, rem: int)
    requires 0 <= n <= s.len(), 0 <= rem, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == (if i < rem { c + 1 } else { c })
    ensures sumto(s, n) == n * c + (if n < rem { n } else { rem }) decreases n
{ if n > 0 { lemma_sumto_rem(s, n - 1, c, rem); assert(s[n - 1] == (if n - 1 < rem { c + 1 } else { c })); assert((n - 1) * c + c == n * c) by (nonlinear_arith); } else { assert(0 * c == 0) by (nonlinear_arith); } }
pub open spec fn m_diag(n: nat) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| Seq::new(n, |i: int| if i < 2 { idx[0] } else { 0usize }) }
pub proof fn lemma_diag_dot(x: usize, st: Seq<isize>, n: int)
    requires 2 <= n <= st.len()
    ensures dot(Seq::new(st.len(), |i: int| if i < 2 { x } else { 0usize }), st, n) == (x as int) * (st[0] as int) + (x as int) * (st[1] as int)
    decreases n
{
    let g = Seq::new(st.len(), |i: int| if i < 2 { x } else { 0usize });
    if n > 2 { lemma_diag_dot(x, st, n - 1); assert(0 * (st[n - 1] as int) == 0) by (nonlinear_arith); }
    else { assert(dot(g, st, 0) == 0); assert(dot(g, st, 1) == dot(g, st, 0) + (g[0] as int) * (st[0] as int)); assert(dot(g, st, 2) == dot(g, st, 1) + (g[1] as int) * (st[1] as int)); }
}
pub open spec fn swapped(n: int, a: int, b: int) -> Seq<usize> { Seq::new(n as nat, |i: int| if i == a { b as usize } else if i == b { a as usize } else { i as usize }) }
pub open spec fn m_swap(a: int, b: int) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.update(a, idx[b]).update(b, idx[a]) }
pub proof fn lemma_swapped(n: int, a: int, b: int)
    requires 0 <= a < n, 0 <= b < n, n <= usize::MAX
    ensures is_perm(swapped(n, a, b), n), forall|idx: Seq<usize>| idx.len() == n ==> #[trigger] scatter(idx, swapped(n, a, b)) == m_swap(a, b)(idx)
{
    let p = swapped(n, a, b);
    assert forall|i: int, j: int| 0 <= i < j < n implies p[i] != p[j] by {}
    assert forall|i: int| 0 <= i < n implies (#[trigger] p[i]) < n by {}
    assert(is_perm(p, n));
    assert forall|idx: Seq<usize>| idx.len() == n implies #[trigger] scatter(idx, p) == m_swap(a, b)(idx) by {
        assert forall|q: int| 0 <= q < n implies scatter(idx, p)[q] == m_swap(a, b)(idx)[q] by { lemma_perm_onto(p, n, q); let i = pinv(p, q); assert(p[i] == q); }
        assert(scatter(idx, p) =~= m_swap(a, b)(idx));
    }
}
pub proof fn lemma_neg_cast() ensures forall|x: isize| x < 0 ==> #[trigger] (x as usize) > imax(), forall|x: isize| x >= 0 ==> #[trigger] (x as usize) == x
{ assert forall|x: isize| x < 0 implies #[trigger] (x as usize) > imax() by { let y = x as i64; assert(y < 0i64 ==> (y as u64) >= 0x8000_0000_0000_0000u64) by (bit_vector); } }
impl RumpyArray {
    #[verifier::external_body]
    pub fn copy(&self) -> (r: RumpyArray) requires wf(*self)
        ensures wf(r), r.flags.c, r.offset == 0, r.shape@ == self.shape@, r.dtype == self.dtype, is_copy(r, *self) { unimplemented!() }
}
pub uninterp spec fn is_copy(c: RumpyArray, a: RumpyArray) -> bool;
@endraw

@fn src/array/manipulation.rs broadcast_shapes
@props P04
@ens
    r is Some <==> bcompat(a@, b@),
    r is Some ==> is_bshape(r->0@, a@, b@) && bc_ok(a@, r->0@) && bc_ok(b@, r->0@),
@inv 0
    invariant __i0 <= __e0, __e0 == max_ndim, max_ndim as int == imx(a@.len() as int, b@.len() as int), result@.len() == max_ndim,
        forall|k: int| 0 <= k < __i0 ==> #[trigger] rdim(a@, k) == rdim(b@, k) || rdim(a@, k) == 1 || rdim(b@, k) == 1,
        forall|k: int| 0 <= k < __i0 ==> #[trigger] rdim(result@, k) == bdim(a@, b@, k)
    decreases __e0 - __i0
@body 0
    let ghost res0 = result@;
    let ghost i0 = __i0 as int;
    proof { let (x, y) = (rdim(a@, i0), rdim(b@, i0)); assert(!(x == y || x == 1 || y == 1) ==> !bcompat(a@, b@)); }
@end 0
    proof {
        let n = __i0 as int - 1;
        assert forall|k: int| 0 <= k < __i0 implies #[trigger] rdim(result@, k) == bdim(a@, b@, k) by { if k < n { assert(rdim(res0, k) == bdim(a@, b@, k)); assert(result@[max_ndim - 1 - k] == res0[max_ndim - 1 - k]); } else { assert(k == n); } }
    }
@tail
    proof { if r is Some { lemma_bshape_ok(r->0@, a@, b@); } }

@fn src/ops/mod.rs RumpyArray::diagonal
@props P01 P02
@req
    wf(*self), self.shape@.len() >= 2, nonempty(self.shape@.skip(2)), -imax() <= self.strides@[0] + self.strides@[1] <= imax(),
@ens
    is_view(r, *self, m_diag(self.shape@.len())),
    r.shape@.len() == 1, r.shape@[0] == (if self.shape@[1] < self.shape@[0] { self.shape@[1] } else { self.shape@[0] }),
@at /self.view_with\(/
    proof {
        let (sh, st) = (self.shape@, self.strides@); let N = sh.len() as int; let f = m_diag(sh.len());
        let (rsh, rst) = (seq![n], seq![diag_stride]);
        lemma_dim_le(sh, isz(*self), 0); lemma_ext_mono(sh, st, 0, N); lemma_pmax(sh); lemma_pmax(rsh);
        assert(pmax(rsh) == max1(n)) by { assert(rsh.drop_last() =~= Seq::<usize>::empty()); assert(pmax(rsh.drop_last()) == 1); }
        assert(max1(n) <= pmax(sh)) by { assert(sh[0] <= pmax(sh)); }
        assert(pmax(rsh) * isz(*self) <= pmax(sh) * isz(*self)) by (nonlinear_arith) requires pmax(rsh) <= pmax(sh), isz(*self) >= 1;
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(f(idx), sh) && self.offset + 0 + dot(idx, rst, 1) == self.offset + dot(f(idx), st, N) by {
            let g = f(idx); assert((idx[0] as int) < max1(rsh[0]));
            assert forall|i: int| 0 <= i < N implies ((#[trigger] g[i]) as int) < max1(sh[i]) by {}
            lemma_diag_dot(idx[0], st, N);
            let x = idx[0] as int; let (s0, s1) = (st[0] as int, st[1] as int);
            assert(dot(idx, rst, 0) == 0); assert(x * (s0 + s1) == x * s0 + x * s1) by (nonlinear_arith);
            assert(dot(idx, rst, 1) == x * (diag_stride as int));
        }
        if nonempty(rsh) { assert(rsh[0] > 0); assert forall|i: int| 0 <= i < N implies (#[trigger] sh[i]) > 0 by { if i >= 2 { assert(sh.skip(2)[i - 2] > 0); } } }
        { lemma_lay_map(rsh, rst, self.offset + 0, sh, st, self.offset as int, isz(*self), buf_len(self.buffer), f); }
    }
@tail
    proof {
        let (sh, st) = (self.shape@, self.strides@); let N = sh.len() as int; let f = m_diag(sh.len());
        let (rsh, rst) = (r.shape@, r.strides@);
        if nonempty(rsh) { assert(rsh[0] > 0); assert forall|i: int| 0 <= i < N implies (#[trigger] sh[i]) > 0 by { if i >= 2 { assert(sh.skip(2)[i - 2] > 0); } } }
        assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(f(idx), sh) && r.offset + dot(idx, rst, 1) == self.offset + dot(f(idx), st, N) by {
            let g = f(idx); assert((idx[0] as int) < max1(rsh[0]));
            assert forall|i: int| 0 <= i < N implies ((#[trigger] g[i]) as int) < max1(sh[i]) by {}
            lemma_diag_dot(idx[0], st, N);
            let x = idx[0] as int; let (s0, s1) = (st[0] as int, st[1] as int);
            assert(dot(idx, rst, 0) == 0); assert(x * (s0 + s1) == x * s0 + x * s1) by (nonlinear_arith);
            assert(dot(idx, rst, 1) == x * (rst[0] as int));
        }
        lemma_is_view(r, *self, f);
    }

@fn src/ops/mod.rs RumpyArray::swapaxes
@props P01 P02
@req
    wf(*self), axis1 < self.shape@.len(), axis2 < self.shape@.len(),
@ens
    axis1 != axis2 ==> is_view(r, *self, m_swap(axis1 as int, axis2 as int)) && r.shape@ == m_swap(axis1 as int, axis2 as int)(self.shape@),
    axis1 == axis2 ==> is_copy(r, *self) && r.shape@ == self.shape@,
@inv 0
    invariant __i0 <= __l1, __l1 == self.shape@.len(), __v0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> (#[trigger] __v0@[k]) == k
    decreases __l1 - __i0
@at /self.transpose_axes\(/
    proof { let n = self.shape@.len() as int; let (x, y) = (axis1 as int, axis2 as int); assert(axes@ =~= swapped(n, x, y)); lemma_swapped(n, x, y); assert(gather(self.shape@, axes@) =~= m_swap(x, y)(self.shape@)); }
@tail
    proof { if axis1 != axis2 { let n = self.shape@.len() as int; let (x, y) = (axis1 as int, axis2 as int); let f = m_swap(x, y); let p = swapped(n, x, y);
        assert forall|idx: Seq<usize>| #[trigger] inb(idx, r.shape@) implies inb(f(idx), self.shape@) && addr(r, idx) == addr(*self, f(idx)) by { assert(scatter(idx, p) == f(idx)); assert(m_scatter(p)(idx) == f(idx)); } } }

@fn src/array/manipulation.rs linear_index
@props P12
@req
    inb(indices@, shape@), pmax(shape@) <= imax(),
@ens
    r as int == rmi(indices@, shape@),
@inv 0
    invariant __i0 <= indices@.len(), __e0 == 0, inb(indices@, shape@), pmax(shape@) <= imax(), stride as int == suf(shape@, __i0 as int),
        idx as int + suf(shape@, __i0 as int) * rmi(indices@.take(__i0 as int), shape@.take(__i0 as int)) == rmi(indices@, shape@), idx >= 0
    decreases __i0
@before 0
    proof { lemma_inb_box(indices@, shape@); assert(indices@.take(__i0 as int) =~= indices@); assert(shape@.take(__i0 as int) =~= shape@); assert(1 * rmi(indices@, shape@) == rmi(indices@, shape@)); lemma_pmax(shape@); }
@body 0
    proof {
        let n = __i0 as int; let (t, s) = (indices@.take(n), shape@.take(n));
        lemma_inb_box(indices@, shape@); lemma_pmax(shape@); lemma_rmi_bound(indices@, shape@); lemma_suf_le(shape@, n - 1); lemma_suf_le(shape@, n);
        assert(t.drop_last() =~= indices@.take(n - 1)); assert(s.drop_last() =~= shape@.take(n - 1));
        let q = rmi(indices@.take(n - 1), shape@.take(n - 1)); let d = shape@[n - 1] as int; let x = indices@[n - 1] as int; let u = suf(shape@, n);
        assert(rmi(t, s) == q * d + x); assert(suf(shape@, n - 1) == d * u);
        assert(u * (q * d + x) == (d * u) * q + x * u) by (nonlinear_arith);
        assert(inb(indices@.take(n - 1), shape@.take(n - 1))) by { assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] indices@.take(n - 1)[i]) < shape@.take(n - 1)[i] by { assert(indices@[i] < shape@[i]); } }
        lemma_rmi_bound(indices@.take(n - 1), shape@.take(n - 1));
        assert((d * u) * q >= 0 && x * u >= 0 && u * d == d * u) by (nonlinear_arith) requires d >= 0, u >= 0, q >= 0, x >= 0;
    }
@after 0
    proof { assert(indices@.take(0) =~= Seq::<usize>::empty()); let z = suf(shape@, 0); assert(z * 0 == 0) by (nonlinear_arith); }

@fn src/array/manipulation.rs normalize_position
@props P12
@req
    len <= imax(), bound <= imax(),
@ens
    r is Some <==> (0 <= (if index < 0 { index + len } else { index as int }) < bound),
    r is Some ==> r->0 as int == (if index < 0 { index + len } else { index as int }),

@fn src/ops/indexing.rs normalize_index
@props P13
@req
    len <= imax(),
@ens
    r is Some <==> (-len <= idx < len),
    r is Some ==> r->0 as int == (if idx < 0 { idx + len } else { idx as int }),
@start
    proof { lemma_neg_cast(); }

@fn src/array/manipulation.rs split_into_sizes
@props P01 P02 P12
@req
    wf(*arr), axis < arr.shape@.len(), sumto(sizes@, sizes@.len() as int) <= arr.shape@[axis as int],
@ens
    is_split(r@, *arr, sizes@, axis as int),
@sub /let mut result = / => let mut result: Vec<RumpyArray> = 
@inv 0
    invariant __i0 <= sizes@.len(), wf(*arr), axis < arr.shape@.len(), sumto(sizes@, sizes@.len() as int) <= arr.shape@[axis as int], result@.len() == __i0, start as int == sumto(sizes@, __i0 as int),
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] result@[k]).shape@ == arr.shape@.update(axis as int, sizes@[k]) && is_view(result@[k], *arr, m_slice(axis as int, sumto(sizes@, k), 1, sizes@[k] as int))
    decreases sizes@.len() - __i0
@body 0
    proof { let n = __i0 as int; lemma_sumto_mono(sizes@, n, sizes@.len() as int); lemma_sumto_mono(sizes@, n + 1, sizes@.len() as int); lemma_dim_le(arr.shape@, isz(*arr), axis as int);
        let z = sizes@[n] as int; assert((z - 1) / 1 == z - 1); assert(slen(start as int, start + z, 1) == z); }

@fn src/array/manipulation.rs split
@props P01 P02 P12
@req
    wf(*arr),
@ens
    r is Some <==> num_sections > 0 && axis < arr.shape@.len() && arr.shape@[axis as int] % num_sections == 0,
    r is Some ==> is_split(r->0@, *arr, even_sizes(arr.shape@[axis as int] as int, num_sections as int), axis as int),
@at /split_into_sizes/
    let ghost sz = Seq::new(num_sections as nat, |i: int| section_size);
    proof { lemma_sumto_const(sz, num_sections as int, section_size as int); lemma_fundamental_div_mod(axis_len as int, num_sections as int);
        assert((num_sections as int) * (axis_len as int / num_sections as int) == num_sections * section_size);
        assert forall|v: Seq<usize>| v.len() == num_sections && (forall|i: int| 0 <= i < num_sections ==> v[i] == section_size) implies v =~= sz by {} 
        assert(sumto(sz, num_sections as int) <= arr.shape@[axis as int]); }
@sub /Some\(split_into_sizes\(arr, &vx_vec\(section_size, num_sections\), axis\)\)/ => let __szv = vx_vec(section_size, num_sections); proof { assert(__szv@ =~= sz); assert(sz =~= even_sizes(axis_len as int, num_sections as int)); } let __o = split_into_sizes(arr, &__szv, axis); proof { assert(is_split(__o@, *arr, sz, axis as int)); } Some(__o)
@start
    proof { if axis < arr.shape@.len() && num_sections > 0 { lemma_div_pos_is_pos(arr.shape@[axis as int] as int, num_sections as int); } }

@fn src/array/manipulation.rs array_split
@props P01 P02 P12
@req
    wf(*arr),
@ens
    r is Some <==> num_sections > 0 && axis < arr.shape@.len(),
    r is Some ==> is_split(r->0@, *arr, even_sizes(arr.shape@[axis as int] as int, num_sections as int), axis as int),
    r is Some ==> sumto(even_sizes(arr.shape@[axis as int] as int, num_sections as int), num_sections as int) == arr.shape@[axis as int],
@inv 0
    invariant __i0 <= __l1, __l1 == num_sections, num_sections > 0, axis_len <= imax(), base_size == axis_len / num_sections, remainder == axis_len % num_sections, base_size <= axis_len, __v0@.len() == __i0,
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] __v0@[k]) == (if k < remainder { base_size + 1 } else { base_size as int })
    decreases __l1 - __i0
@before 0
    proof { lemma_dim_le(arr.shape@, isz(*arr), axis as int); lemma_div_is_ordered_by_denominator(axis_len as int, 1, num_sections as int); }
@sub /Some\(split_into_sizes\(arr, &sizes, axis\)\)/ => let __o = split_into_sizes(arr, &sizes, axis); proof { assert(is_split(__o@, *arr, sizes@, axis as int)); } Some(__o)
@at /split_into_sizes/
    proof { lemma_sumto_rem(sizes@, num_sections as int, base_size as int, remainder as int); lemma_fundamental_div_mod(axis_len as int, num_sections as int); lemma_mod_bound(axis_len as int, num_sections as int); assert(sizes@ =~= even_sizes(axis_len as int, num_sections as int)); }

@fn src/ops/comparison.rs broadcast_binary_setup
@props P04 P06
@req
    wf(*a), wf(*b), forall|s: Seq<usize>| #[trigger] is_bshape(s, a.shape@, b.shape@) ==> pmax(s) * isz(*a) <= imax() && pmax(s) * isz(*b) <= imax() && pmax(s) * dt_size(out_dtype) <= imax(),
@ens
    r is Some <==> bcompat(a.shape@, b.shape@),
    r is Some ==> is_bshape((r->0).3@, a.shape@, b.shape@) && (r->0).0.shape@ == (r->0).3@ && (r->0).1.shape@ == (r->0).3@ && (r->0).2.shape@ == (r->0).3@ && (r->0).2.dtype == out_dtype && (r->0).2.flags.c
        && is_view((r->0).0, *a, m_bcast(a.shape@)) && is_view((r->0).1, *b, m_bcast(b.shape@)),
@raw
impl RumpyArray {
    /// ASSUMED: a fresh C-ordered array of the requested shape
    #[verifier::external_body]
    pub fn zeros(shape: Vec<usize>, dtype: DType) -> (r: RumpyArray) requires pmax(shape@) * dt_size(dtype) <= imax()
        ensures wf(r), r.flags.c, r.offset == 0, r.shape@ == shape@, r.dtype == dtype { unimplemented!() }
}
@endraw
