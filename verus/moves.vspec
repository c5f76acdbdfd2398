@unit moves
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@include viewmaps.rs
@include gath.rs
@include cats.rs
@import iter StridedIter::new StridedIter::next
@import core compute_c_strides increment_indices RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous RumpyArray::byte_offset_for
@import movers RumpyArray::zeros RumpyArray::dtype RumpyArray::data_ptr
@import dispatch RumpyArray::iter_offsets
@import shapes linear_index
@import views RumpyArray::view_with
@import copy RumpyArray::copy RumpyArray::astype

@raw
/// (shift rem n + n) mod n is the residue of shift
pub proof fn lemma_resid(s: int, n: int)
    requires n >= 1 ensures ({ let t = if s == 0 { 0int } else if s > 0 { s % n } else { -((0 - s) % n) }; -n < t < n && (t + n) % n == s % n && 0 <= s % n < n })
{
    let t = if s == 0 { 0int } else if s > 0 { s % n } else { -((0 - s) % n) };
    lemma_small_mod(0, n as nat); lemma_fundamental_div_mod(s, n); lemma_fundamental_div_mod(0 - s, n); lemma_mod_bound(s, n); lemma_mod_bound(0 - s, n);
    let q = if s >= 0 { s / n } else { -((0 - s) / n) };
    assert(s == n * q + t) by { if s < 0 { assert(n * (-((0 - s) / n)) == -(n * ((0 - s) / n))) by (nonlinear_arith); } }
    let qq = if t >= 0 { q } else { q - 1 }; let rr = if t >= 0 { t } else { t + n };
    assert(s == n * qq + rr) by (nonlinear_arith) requires s == n * q + t, (qq == q && rr == t) || (qq == q - 1 && rr == t + n);
    assert(n * qq == qq * n) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(s, n, qq, rr);
    lemma_fundamental_div_mod_converse(t + n, n, if t >= 0 { 1int } else { 0int }, rr);
}
/// (i + n - r) mod n is the residue of i - s, where r is that of s
pub proof fn lemma_unroll(i: int, n: int, s: int)
    requires 0 <= i < n ensures (i + n - s % n) % n == (i - s) % n, 0 <= (i - s) % n < n, (i - s) % n == (if i >= s % n { i - s % n } else { i + n - s % n })
{
    lemma_fundamental_div_mod(s, n); lemma_mod_bound(s, n); let r = s % n; let q = s / n;
    let v = if i >= r { i - r } else { i + n - r }; let c = if i >= r { 0int } else { -1int };
    assert(n * c == (if i >= r { 0 } else { -n })) by { if i >= r { assert(n * 0 == 0); } else { assert(n * (-1) == -n) by (nonlinear_arith); } }
    assert(i - s == n * (c - q) + v) by (nonlinear_arith) requires s == n * q + r, v == i - r - n * c;
    assert(n * (c - q) == (c - q) * n) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(i - s, n, c - q, v);
    lemma_fundamental_div_mod_converse(i + n - r, n, if i >= r { 1int } else { 0int }, v);
}
/// what result position idx of a roll along ax shows
pub open spec fn m_roll(ax: int, n: int, s: int) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.update(ax, ((idx[ax] - s) % n) as usize) }
/// one shape, rolled flat
pub open spec fn rolled(m: Map<int, Seq<u8>>, a: RumpyArray, s: int) -> Seq<Seq<u8>> { Seq::new(prod(a.shape@) as nat, |k: int| nth(m, a, (k - s) % prod(a.shape@))) }
@endraw

@fn src/array/views.rs RumpyArray::reshape memself mem=copy,reshape
@props P02 P03 P08 P12
@req
    wf(*self), mok(old(mem).v(), *self), aligned(*self), pmax(new_shape@) * isz(*self) <= imax(), self.offset + pmax(new_shape@) * isz(*self) <= imax(),
@dec
    if self.flags.c { 0int } else { 1int }
@ens
    r is Some <==> prod(self.shape@) == prod(new_shape@),
    r is None ==> final(mem).v() == old(mem).v(),
    r is Some ==> reshaped(r->0, *self, new_shape@, old(mem).v(), final(mem).v()),
@start
    let ghost nsh = new_shape@; let ghost m0 = mem.v();
    proof { lemma_pmax_le(self.shape@, isz(*self)); lemma_pmax_le(new_shape@, isz(*self)); lemma_ext_mono(self.shape@, self.strides@, 0, self.shape@.len() as int); lemma_dt(self.dtype);
        assert forall|c: RumpyArray, mc: Map<int, Seq<u8>>| #[trigger] fresh(c, m0, mc, self.shape@, self.dtype) implies aligned(c) by { lemma_cstr_al(c); } }
@at /Some ?\(self.view_with/
    proof {
        let size = isz(*self); let (rsh, rst) = (new_shape@, new_strides@); let sh = self.shape@; let N = rsh.len() as int;
        lemma_pmax(rsh); lemma_pmax(sh);
        let f = m_reshape(rsh, sh);
        if nonempty(rsh) {
            assert(nonempty(sh));
            assert forall|idx: Seq<usize>| #[trigger] inbox(idx, rsh) implies inbox(f(idx), sh) && self.offset + 0 + dot(idx, rst, N) == self.offset + dot(f(idx), self.strides@, sh.len() as int) by {
                lemma_box_inb(idx, rsh); lemma_rmi_bound(idx, rsh); lemma_unrmi_inb(rmi(idx, rsh), sh); lemma_inb_box(f(idx), sh);
                lemma_cord_dot(idx, rsh, rst, size); lemma_cord_dot(f(idx), sh, self.strides@, size);
            }
            lemma_lay_map(rsh, rst, self.offset + 0, sh, self.strides@, self.offset as int, size, buf_len(self.buffer), f);
        } else {
            lemma_cstr_span(rsh, rst, size, N);
            lemma_suf_le(rsh, N);
            assert(size * (pmax(rsh) - sufm(rsh, N)) <= pmax(rsh) * size) by (nonlinear_arith) requires size >= 1, sufm(rsh, N) >= 0;
        }
    }
@tail
    proof {
        if r is Some && self.flags.c {
            let f = m_reshape(nsh, self.shape@); let v = r->0; let sh = self.shape@;
            assert forall|idx: Seq<usize>| #[trigger] inb(idx, v.shape@) implies inb(f(idx), self.shape@) && addr(v, idx) == addr(*self, f(idx)) by {
                lemma_inb_box(idx, nsh); lemma_rmi_bound(idx, nsh); lemma_unrmi_inb(rmi(idx, nsh), self.shape@); 
                lemma_cord_dot(idx, nsh, v.strides@, isz(*self)); lemma_cord_dot(f(idx), self.shape@, self.strides@, isz(*self));
            }
            assert(is_view(v, *self, f));
            assert forall|k: int| 0 <= k < prod(nsh) implies #[trigger] els(m0, v)[k] == els(m0, *self)[k] by { lemma_unrmi_inb(k, nsh); assert(f(unrmi(k, nsh)) == unrmi(k, sh)); }
            assert(els(m0, v) =~= els(m0, *self)); lemma_cstr_al(v);
        }
    }

@fn src/array/manipulation.rs ravel_arr memself mem=reshape,copy
@props P02 P03 P08 P12
@req
    wf(*arr), mok(old(mem).v(), *arr), aligned(*arr), arr.offset + pmax(arr.shape@) * isz(*arr) <= imax(),
@ens
    reshaped(r, *arr, seq![prod(arr.shape@) as usize], old(mem).v(), final(mem).v()), prod(arr.shape@) <= imax(),
@start
    proof { lemma_prod_pos(arr.shape@); lemma_pmax(arr.shape@); lemma_pmax_le(arr.shape@, isz(*arr)); lemma_row1(prod(arr.shape@), isz(*arr)); lemma_dt(arr.dtype);
        let c = if prod(arr.shape@) == 0 { 1int } else { prod(arr.shape@) };
        assert(0 <= c * isz(*arr) <= pmax(arr.shape@) * isz(*arr)) by (nonlinear_arith) requires 0 <= c <= pmax(arr.shape@), isz(*arr) >= 1; }

@fn src/array/manipulation.rs roll flags=ptrs memself mem=zeros,copy,ravel_arr,copy_element rename=buffer_mut:vx_buffer
@props P12
@req
    wf(*arr), mok(old(mem).v(), *arr), aligned(*arr), arr.offset + pmax(arr.shape@) * isz(*arr) <= imax(), arr.shape@.len() <= imax(), 2 * pmax(arr.shape@) <= imax(), axis is Some ==> axis->0 >= -arr.shape@.len() && nonempty(arr.shape@),
@ens
    fresh(r, old(mem).v(), final(mem).v(), arr.shape@, arr.dtype),
    axis is None ==> els(final(mem).v(), r) == rolled(old(mem).v(), *arr, shift as int),
    axis is Some && nax(axis->0, arr.shape@.len() as int) < arr.shape@.len() ==> els(final(mem).v(), r) == gath(old(mem).v(), *arr, arr.shape@, m_roll(nax(axis->0, arr.shape@.len() as int), arr.shape@[nax(axis->0, arr.shape@.len() as int)] as int, shift as int)),
    axis is Some && nax(axis->0, arr.shape@.len() as int) >= arr.shape@.len() ==> els(final(mem).v(), r) == els(old(mem).v(), *arr),
@start
    let ghost m0 = mem.v(); let ghost n = prod(arr.shape@); let ghost z = isz(*arr); let ghost sft = shift as int;
    proof { lemma_dt(arr.dtype); lemma_prod_pos(arr.shape@); lemma_pmax(arr.shape@); lemma_pmax_le(arr.shape@, z);
        if n > 0 { lemma_resid(sft, n); if sft % n == 0 { assert forall|k: int| 0 <= k < n implies #[trigger] rolled(m0, *arr, sft)[k] == els(m0, *arr)[k] by { lemma_unroll(k, n, sft); } } }
        if n == 0 || sft % n == 0 { assert(rolled(m0, *arr, sft) =~= els(m0, *arr)); } }
@at /let size = flat.size/
    proof { lemma_row1(n, z); }
@at /let split_point = /
    let ghost mz = mem.v(); let ghost sh1 = shift as int; let ghost sq = rolled(m0, *arr, sft);
    proof { lemma_els_keep(mz, mz, flat); assert(flat.shape@ == seq![n as usize]); lemma_row1(n, z); lemma_flat(mz, flat, n - 1); assert((n - 1) * z + z == n * z && n * z >= 0) by (nonlinear_arith) requires n >= 0, z >= 1;
        assert(n * z <= pmax(arr.shape@) * z) by (nonlinear_arith) requires n <= pmax(arr.shape@), z >= 1;
        assert((n - sh1) * z + sh1 * z == n * z && (n - sh1) * z >= 0 && sh1 * z >= 0) by (nonlinear_arith) requires 0 <= sh1 <= n, z >= 1;
        lemma_block(mz[bid(result)], mz[bid(flat)], 0, flat.offset + (n - sh1) * z, sh1, n, z); assert(0 * z == 0);
        let m1 = mz.insert(bid(result), bput(mz[bid(result)], 0, get(mz[bid(flat)], flat.offset + (n - sh1) * z, sh1 * z)));
        lemma_block(m1[bid(result)], m1[bid(flat)], sh1, flat.offset as int, n - sh1, n, z);
        let m2 = m1.insert(bid(result), bput(m1[bid(result)], sh1 * z, get(m1[bid(flat)], flat.offset as int, (n - sh1) * z)));
        assert(m2.dom() =~= mz.dom());
        assert forall|k: int| 0 <= k < n implies #[trigger] chunk(m2[bid(result)], 0, k, z) == sq[k] by {
            lemma_unroll(k, n, sft); let j = (k - sft) % n; lemma_flat(mz, flat, j); assert(els(mz, flat)[j] == nth(mz, flat, j)); assert(els(m0, *arr)[j] == nth(m0, *arr, j));
            if k < sh1 { assert(j == k + n - sh1); assert((n - sh1) * z + k * z == j * z) by (nonlinear_arith) requires j == k + n - sh1; }
        }
        lemma_fill_done(result, m0, mz, m2, arr.shape@, arr.dtype, sq);
    }
@at /let axis_len = /
    let ghost ax = axis as int; let ghost al = arr.shape@[ax] as int; let ghost g = m_roll(ax, al, sft); let ghost s = gath(m0, *arr, arr.shape@, g);
    proof { lemma_dim_le(arr.shape@, z, ax); lemma_dim_le(arr.shape@, 2, ax);
        if al == 0 { assert(!nonempty(arr.shape@)); assert(s =~= els(m0, *arr)); } else { lemma_resid(sft, al); if sft % al == 0 {
            assert forall|k: int| 0 <= k < n implies #[trigger] s[k] == els(m0, *arr)[k] by { let idx = unrmi(k, arr.shape@); lemma_unrmi_inb(k, arr.shape@); lemma_unroll(idx[ax] as int, al, sft); assert(g(idx) =~= idx); }
            assert(s =~= els(m0, *arr)); } } }
@at /let mut dst_indices = /
    let ghost mz = mem.v();
@before 0
    proof { lemma_zero_idx(dst_indices@, arr.shape@); assert(mz[bid(*arr)] == m0[bid(*arr)]); }
@inv 0
    invariant wf(*arr), mok(m0, *arr), n == prod(arr.shape@), n <= imax(), z == isz(*arr), z >= 1, __e0 == n, 0 <= __i0 <= __e0, axis == ax, 0 <= ax < arr.shape@.len(), al == arr.shape@[ax], axis_len == al, al >= 1, al <= imax(), shift == sft % al, g == m_roll(ax, al, sft), s == gath(m0, *arr, arr.shape@, g), result_shape@ == arr.shape@,
        fresh(result, m0, mz, arr.shape@, arr.dtype), pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, pb(dst_ptr) == bid(result), po(dst_ptr) == 0, ops_dt(src_ops) == arr.dtype, pmax(arr.shape@) <= imax(),
        n * z == blen(bid(result)), n * z <= imax(),
        dst_indices@ == unrmi(cyc(__i0 as int, n), arr.shape@), filled(mz, mem.v(), bid(result), s, z, __i0 as int)
    decreases __e0 - __i0
@body 0
    let ghost k0 = __i0 as int; let ghost m1 = mem.v();
    proof { lemma_step(k0, arr.shape@); let idx = dst_indices@; lemma_inb_box(idx, arr.shape@); lemma_unroll(idx[ax] as int, al, sft); let gi = g(idx);
        assert(inb(gi, arr.shape@)); lemma_inb_box(gi, arr.shape@); lemma_acc(m0, *arr, gi); lemma_acc(m1, *arr, gi); assert(m1[bid(*arr)] == m0[bid(*arr)]); assert(elem(m1, *arr, gi) == s[k0]);
        lemma_fill_step(mz, m1, bid(result), s, z, k0, s[k0]); }
@at /let src_byte_offset = /
    proof { assert(src_indices@ =~= g(dst_indices@)); }
@after 0
    proof { lemma_fill_done(result, m0, mz, mem.v(), arr.shape@, arr.dtype, s); }

@raw
pub open spec fn zeros_b(z: int) -> Seq<u8> { Seq::new(z as nat, |i: int| 0u8) }
pub open spec fn in_tri(i: int, j: int, k: int, lower: bool) -> bool { if lower { j <= i + k } else { j >= i + k } }
/// the triangle of a matrix: kept elements, zero bytes elsewhere
pub open spec fn trim(m: Map<int, Seq<u8>>, a: RumpyArray, k: int, lower: bool) -> Seq<Seq<u8>> {
    Seq::new(prod(a.shape@) as nat, |q: int| if in_tri(q / (a.shape@[1] as int), q % (a.shape@[1] as int), k, lower) { nth(m, a, q) } else { zeros_b(isz(a)) })
}
pub proof fn lemma_ij(i: int, j: int, m: int)
    requires 0 <= i, 0 <= j < m ensures (i * m + j) / m == i, (i * m + j) % m == j
{ lemma_fundamental_div_mod_converse(i * m + j, m, i, j); }
/// row q / m, column q % m
pub proof fn lemma_qij(q: int, n: int, m: int)
    requires 0 <= q < n * m, m >= 1 ensures q == (q / m) * m + q % m, 0 <= q / m < n, 0 <= q % m < m
{ lemma_fundamental_div_mod(q, m); lemma_mod_bound(q, m); let i = q / m; let j = q % m; assert(m * i == i * m) by (nonlinear_arith);
  assert(i >= 0) by (nonlinear_arith) requires q == i * m + j, q >= 0, j < m, m >= 1; assert(i < n) by (nonlinear_arith) requires q == i * m + j, q < n * m, j >= 0, m >= 1; }
pub proof fn lemma_zchunk(s: Seq<u8>, k: int, n: int, z: int)
    requires 0 <= k < n, n * z <= s.len(), z >= 0, s == Seq::new(s.len(), |i: int| 0u8) ensures chunk(s, 0, k, z) == zeros_b(z)
{ lemma_chunk_bound(k, n, z); assert(chunk(s, 0, k, z) =~= zeros_b(z)); }
/// the first d elements of the result are final, the others are still zero
pub open spec fn part(mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int, d: int) -> bool {
    &&& m.dom() == mz.dom()
    &&& forall|c: int| c != b ==> #[trigger] m[c] == mz[c]
    &&& m[b].len() == mz[b].len()
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] chunk(m[b], 0, k, z) == (if k < d { s[k] } else { zeros_b(z) })
}
pub proof fn lemma_part_done(r: RumpyArray, m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, sh: Seq<usize>, dt: DType, s: Seq<Seq<u8>>)
    requires fresh(r, m0, mz, sh, dt), part(mz, m, bid(r), s, dt_size(dt), prod(sh)), s.len() == prod(sh)
    ensures fresh(r, m0, m, sh, dt), els(m, r) == s
{ lemma_fill_done(r, m0, mz, m, sh, dt, s); }
pub proof fn lemma_part0(mz: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int)
    requires mz[b] == Seq::new(mz[b].len(), |i: int| 0u8), s.len() * z <= mz[b].len(), z >= 0 ensures part(mz, mz, b, s, z, 0)
{ assert forall|k: int| 0 <= k < s.len() implies #[trigger] chunk(mz[b], 0, k, z) == (if k < 0 { s[k] } else { zeros_b(z) }) by { lemma_zchunk(mz[b], k, s.len() as int, z); } }
/// element d written, or left zero where the result is zero
pub proof fn lemma_part_step(mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int, d: int)
    requires part(mz, m, b, s, z, d), live(mz, b), 0 <= d < s.len(), s.len() * z <= blen(b), s[d].len() == z, z >= 0
    ensures part(mz, m.insert(b, bput(m[b], d * z, s[d])), b, s, z, d + 1), s[d] == zeros_b(z) ==> part(mz, m, b, s, z, d + 1), acc(m, b, d * z, z), 0 <= d * z, d * z + z <= blen(b)
{
    lemma_put_chunk(m[b], 0, d, s.len() as int, z, s[d]); lemma_chunk_bound(d, s.len() as int, z);
    let m2 = m.insert(b, bput(m[b], d * z, s[d]));
    assert(m2.dom() =~= mz.dom());
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] chunk(m2[b], 0, k, z) == (if k < d + 1 { s[k] } else { zeros_b(z) }) by { assert(chunk(m[b], 0, k, z) == (if k < d { s[k] } else { zeros_b(z) })); }
    if s[d] == zeros_b(z) { assert(chunk(m[b], 0, d, z) == zeros_b(z)); }
}
pub proof fn lemma_p2(sh: Seq<usize>)
    requires sh.len() == 2 ensures prod(sh) == sh[0] * sh[1], pmax(sh) == max1(sh[0]) * max1(sh[1])
{
    reveal_with_fuel(prod, 3); reveal_with_fuel(pmax, 3);
    assert(sh.drop_last() =~= seq![sh[0]]); assert(sh.drop_last().drop_last() =~= Seq::<usize>::empty()); assert(1 * (sh[0] as int) == sh[0]); assert(1 * max1(sh[0]) == max1(sh[0]));
}
pub proof fn lemma_ne2(sh: Seq<usize>)
    requires sh.len() == 2 ensures nonempty(sh) <==> sh[0] > 0 && sh[1] > 0, prod(sh) == 0 <==> sh[0] == 0 || sh[1] == 0, sh[0] <= pmax(sh), sh[1] <= pmax(sh)
{ lemma_pmax(sh); lemma_prod_pos(sh); if sh[0] > 0 && sh[1] > 0 { assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] sh[i]) > 0 by { } } }
pub proof fn lemma_box2(sh: Seq<usize>, i: usize, j: usize)
    requires sh.len() == 2, i < sh[0], j < sh[1] ensures inb(seq![i, j], sh), inbox(seq![i, j], sh)
{ let idx = seq![i, j]; assert(inb(idx, sh)); lemma_inb_box(idx, sh); }
/// one row of a C-ordered matrix, copied as one block
pub proof fn lemma_trirow(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray, k: int, lower: bool, n: int, m: int, i: int, sc: int, ec: int)
    requires wf(a), mok(m0, a), a.flags.c, a.shape@.len() == 2, n == a.shape@[0], m == a.shape@[1], 0 <= i < n, m >= 1, fresh(r, m0, mz, a.shape@, a.dtype), isz(a) >= 1, prod(a.shape@) * isz(a) <= imax(), prod(a.shape@) == n * m,
        part(mz, m1, bid(r), trim(m0, a, k, lower), isz(a), i * m), 0 <= sc <= m, 0 <= ec <= m, forall|j: int| 0 <= j < m ==> (sc <= j < ec <==> #[trigger] in_tri(i, j, k, lower))
    ensures ({ let z = isz(a); let o = i * m + sc; let l = ec - sc; let b = bid(r); let s = trim(m0, a, k, lower);
        (i + 1) * m == i * m + m && 0 <= i * m && 0 <= i * m * z && i * m * z + sc * z == o * z && 0 <= sc * z && o * z <= imax() && (i + 1) * m <= n * m && i * m * z <= imax() && sc * z <= imax() && i * m <= imax()
        && (ec <= sc ==> part(mz, m1, b, s, z, (i + 1) * m))
        && (ec > sc ==> 0 <= l * z && l * z <= imax() && a.offset + o * z <= imax() && acc(m1, bid(a), a.offset + o * z, l * z) && acc(m1, b, o * z, l * z) && part(mz, m1.insert(b, bput(m1[b], o * z, get(m1[bid(a)], a.offset + o * z, l * z))), b, s, z, (i + 1) * m)) })
{
    let z = isz(a); let o = i * m + sc; let l = ec - sc; let b = bid(r); let s = trim(m0, a, k, lower); let N = n * m;
    assert((i + 1) * m == i * m + m && (i + 1) * m <= N && 0 <= i * m) by (nonlinear_arith) requires 0 <= i < n, N == n * m, m >= 1;
    assert(i * m * z + sc * z == o * z && 0 <= sc * z && 0 <= i * m * z) by (nonlinear_arith) requires o == i * m + sc, 0 <= sc, 0 <= i * m, z >= 1;
    assert(o * z <= N * z && i * m * z <= N * z && sc * z <= N * z && i * m <= i * m * z) by (nonlinear_arith) requires o <= N, i * m <= N, sc <= N, z >= 1, i * m >= 0;
    assert forall|j: int| 0 <= j < m implies #[trigger] s[i * m + j] == (if sc <= j && j < ec { nth(m0, a, i * m + j) } else { zeros_b(z) }) by { lemma_ij(i, j, m); assert(in_tri(i, j, k, lower) <==> sc <= j < ec); }
    if ec <= sc {
        assert forall|q: int| 0 <= q < s.len() implies #[trigger] chunk(m1[b], 0, q, z) == (if q < (i + 1) * m { s[q] } else { zeros_b(z) }) by { if i * m <= q && q < (i + 1) * m { let j = q - i * m; assert(s[i * m + j] == zeros_b(z)); } }
    } else {
        assert(m1[bid(a)] == m0[bid(a)]);
        lemma_ne2(a.shape@); lemma_flat(m0, a, i * m); lemma_flat(m0, a, i * m + ec - 1); lemma_flat(m0, a, i * m + sc);
        assert(o * z + l * z == (i * m + ec - 1) * z + z && 0 <= l * z && l * z <= N * z) by (nonlinear_arith) requires o == i * m + sc, l == ec - sc, 0 <= l <= N, z >= 1;
        lemma_block(m1[b], m1[bid(a)], o, a.offset + o * z, l, N, z);
        let m2 = m1.insert(b, bput(m1[b], o * z, get(m1[bid(a)], a.offset + o * z, l * z)));
        assert(m2.dom() =~= mz.dom());
        assert forall|q: int| 0 <= q < s.len() implies #[trigger] chunk(m2[b], 0, q, z) == (if q < (i + 1) * m { s[q] } else { zeros_b(z) }) by {
            let c = chunk(m1[b], 0, q, z);
            if i * m <= q && q < (i + 1) * m { let j = q - i * m; assert(s[i * m + j] == (if sc <= j && j < ec { nth(m0, a, i * m + j) } else { zeros_b(z) }));
                if sc <= j && j < ec { lemma_flat(m0, a, q); assert(o * z + (q - o) * z == q * z) by (nonlinear_arith); } }
        }
    }
}
@endraw

@fn src/array/manipulation.rs extract_triangle flags=ptrs memself mem=zeros,copy_element rename=buffer_mut:vx_buffer
@props P12 P13
@req
    wf(*arr), mok(old(mem).v(), *arr), -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, pmax(arr.shape@) <= 0x2000_0000_0000_0000,
@ens
    r is Some <==> arr.shape@.len() == 2,
    r is Some ==> fresh(r->0, old(mem).v(), final(mem).v(), arr.shape@, arr.dtype) && els(final(mem).v(), r->0) == trim(old(mem).v(), *arr, k as int, lower),
    r is None ==> final(mem).v() == old(mem).v(),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr); let ghost N = prod(arr.shape@); let ghost s = trim(m0, *arr, k as int, lower); let ghost kk = k as int;
    proof { lemma_dt(arr.dtype); lemma_prod_pos(arr.shape@); lemma_pmax(arr.shape@); lemma_pmax_le(arr.shape@, z);
        if arr.shape@.len() == 2 { lemma_p2(arr.shape@); lemma_ne2(arr.shape@); }
        if N == 0 { assert forall|rr: RumpyArray, mm: Map<int, Seq<u8>>| rr.shape@ == arr.shape@ implies #[trigger] els(mm, rr) == s by { assert(els(mm, rr) =~= s); } } }
@at /let itemsize = /
    let ghost mz = mem.v(); let ghost b = bid(result);
    proof { assert(mz[bid(*arr)] == m0[bid(*arr)]); lemma_ne2(arr.shape@); lemma_part0(mz, b, s, z);
        assert(N * z <= pmax(arr.shape@) * z) by (nonlinear_arith) requires N <= pmax(arr.shape@), z >= 1;
        assert forall|mm: Map<int, Seq<u8>>| #[trigger] part(mz, mm, b, s, z, N) implies fresh(result, m0, mm, arr.shape@, arr.dtype) && els(mm, result) == s by { lemma_part_done(result, m0, mz, mm, arr.shape@, arr.dtype, s); } }
@at /let buffer = /
    proof { }
@before 0
    proof { assert(0 * m == 0); }
@inv 0
    invariant wf(*arr), mok(m0, *arr), z == isz(*arr), z >= 1, arr.shape@.len() == 2, n == arr.shape@[0], m == arr.shape@[1], n >= 1, m >= 1, n <= 0x2000_0000_0000_0000, m <= 0x2000_0000_0000_0000, N == prod(arr.shape@), N == n * m, s == trim(m0, *arr, k as int, lower), kk == k, -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, fresh(result, m0, mz, arr.shape@, arr.dtype), b == bid(result), pb(result_ptr) == b, po(result_ptr) == 0, N * z == blen(b), N * z <= imax(), N <= imax(), nonempty(arr.shape@), arr.flags.c, __e0 == n, 0 <= __i0 <= __e0, pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, itemsize == z,
        part(mz, mem.v(), b, s, z, __i0 * m)
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    let ghost sc = if lower { 0int } else { if i0 + kk < 0 { 0int } else if i0 + kk > m { m as int } else { i0 + kk } }; let ghost ec = if lower { if i0 + kk + 1 < 0 { 0int } else if i0 + kk + 1 > m { m as int } else { i0 + kk + 1 } } else { m as int };
    proof { lemma_trirow(m0, mz, m1, *arr, result, kk, lower, n as int, m as int, i0, sc, ec); }
@after 0
    proof { assert(__e0 * m == N); }
@before 1
    proof { assert(0 * m == 0); }
@inv 1
    invariant wf(*arr), mok(m0, *arr), z == isz(*arr), z >= 1, arr.shape@.len() == 2, n == arr.shape@[0], m == arr.shape@[1], n >= 1, m >= 1, n <= 0x2000_0000_0000_0000, m <= 0x2000_0000_0000_0000, N == prod(arr.shape@), N == n * m, s == trim(m0, *arr, k as int, lower), kk == k, -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, fresh(result, m0, mz, arr.shape@, arr.dtype), b == bid(result), pb(result_ptr) == b, po(result_ptr) == 0, N * z == blen(b), N * z <= imax(), N <= imax(), nonempty(arr.shape@), __e1 == n, 0 <= __i1 <= __e1, pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(ops) == arr.dtype,
        part(mz, mem.v(), b, s, z, __i1 * m)
    decreases __e1 - __i1
@body 1
    let ghost i1 = __i1 as int;
    proof { assert((i1 + 1) * m == i1 * m + m && (i1 + 1) * m <= N && 0 <= i1 * m) by (nonlinear_arith) requires 0 <= i1 < n, N == n * m; }
@inv 2
    invariant wf(*arr), mok(m0, *arr), z == isz(*arr), z >= 1, arr.shape@.len() == 2, n == arr.shape@[0], m == arr.shape@[1], n >= 1, m >= 1, n <= 0x2000_0000_0000_0000, m <= 0x2000_0000_0000_0000, N == prod(arr.shape@), N == n * m, s == trim(m0, *arr, k as int, lower), kk == k, -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, fresh(result, m0, mz, arr.shape@, arr.dtype), b == bid(result), pb(result_ptr) == b, po(result_ptr) == 0, N * z == blen(b), N * z <= imax(), N <= imax(), nonempty(arr.shape@), pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(ops) == arr.dtype, i == i1, 0 <= i1 < n, __e2 == m, 0 <= __i2 <= __e2, (i1 + 1) * m == i1 * m + m, (i1 + 1) * m <= N, 0 <= i1 * m,
        part(mz, mem.v(), b, s, z, i1 * m + __i2)
    decreases __e2 - __i2
@body 2
    let ghost j2 = __i2 as int; let ghost m1 = mem.v();
    proof { let q = i1 * m + j2; lemma_ij(i1, j2, m as int); lemma_2d(m0, *arr, i1, j2); let idx = seq![i1 as usize, j2 as usize]; assert(inb(idx, arr.shape@)); lemma_inb_box(idx, arr.shape@); lemma_acc(m1, *arr, idx); assert(m1[bid(*arr)] == m0[bid(*arr)]);
        reveal_with_fuel(dot, 3); assert(zeros_b(z).len() == z); lemma_part_step(mz, m1, b, s, z, q); }
@at /let offset = arr.byte_offset_for/
    proof { lemma_box2(arr.shape@, i, j); }

@raw
/// ones on and below the k-th diagonal
pub open spec fn trio(n: int, m: int, k: int, d: DType) -> Seq<Seq<u8>> { Seq::new((n * m) as nat, |q: int| if in_tri(q / m, q % m, k, true) { one_b(d) } else { zeros_b(dt_size(d)) }) }
/// v on the k-th diagonal of an n by n matrix
pub open spec fn dgf(mm: Map<int, Seq<u8>>, v: RumpyArray, k: int, n: int) -> Seq<Seq<u8>> { Seq::new((n * n) as nat, |q: int| if q % n - q / n == k { nth(mm, v, if k >= 0 { q / n } else { q % n }) } else { zeros_b(isz(v)) }) }
pub proof fn lemma_part_skip(mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int, d: int, e: int)
    requires part(mz, m, b, s, z, d), 0 <= d <= e <= s.len(), forall|q: int| d <= q < e ==> #[trigger] s[q] == zeros_b(z)
    ensures part(mz, m, b, s, z, e)
{ assert forall|k: int| 0 <= k < s.len() implies #[trigger] chunk(m[b], 0, k, z) == (if k < e { s[k] } else { zeros_b(z) }) by { assert(chunk(m[b], 0, k, z) == (if k < d { s[k] } else { zeros_b(z) })); } }
pub proof fn lemma_nn(n: int) requires n >= 0 ensures n * n >= 0, n >= 1 ==> n * n >= 1 { assert(n * n >= 0) by (nonlinear_arith); if n >= 1 { assert(n * n >= 1) by (nonlinear_arith) requires n >= 1; } }
/// where element i of the diagonal goes
pub open spec fn dgp(i: int, k: int, n: int) -> int { if k >= 0 { i * n + i + k } else { (i - k) * n + i } }
pub proof fn lemma_dg(m: Map<int, Seq<u8>>, v: RumpyArray, k: int, n: int, i: int)
    requires wf(v), n == prod(v.shape@) + (if k < 0 { -k } else { k }), 0 <= i < prod(v.shape@)
    ensures ({ let p = dgp(i, k, n); let s = dgf(m, v, k, n); let e = if i + 1 < prod(v.shape@) { dgp(i + 1, k, n) } else { n * n };
        0 <= p < n * n && s[p] == nth(m, v, i) && p < e <= n * n && (forall|q: int| p < q < e ==> #[trigger] s[q] == zeros_b(isz(v))) && (i == 0 ==> forall|q: int| 0 <= q < p ==> #[trigger] s[q] == zeros_b(isz(v)))
        && 0 <= (if k >= 0 { i * n } else { (i - k) * n }) <= p })
{
    let p = dgp(i, k, n); let s = dgf(m, v, k, n); let S = prod(v.shape@); let e = if i + 1 < S { dgp(i + 1, k, n) } else { n * n };
    let row = if k >= 0 { i } else { i - k }; let col = if k >= 0 { i + k } else { i };
    assert(row * n >= 0 && row * n + n <= n * n) by (nonlinear_arith) requires 0 <= row < n;
    lemma_ij(row, col, n);
    if i + 1 < S { assert((row + 1) * n + col + 1 == row * n + n + col + 1) by (nonlinear_arith); assert((row + 1) * n + n <= n * n) by (nonlinear_arith) requires 0 <= row, row + 1 < n; }
    assert forall|q: int| (p < q < e || i == 0 && 0 <= q < p) && 0 <= q implies #[trigger] s[q] == zeros_b(isz(v)) by {
        lemma_qij(q, n, n); let a = q / n; let c = q % n;
        if c - a == k {
            if a > row { assert(a * n >= row * n + n) by (nonlinear_arith) requires a >= row + 1, n >= 1; if i + 1 < S { if a > row + 1 { assert(a * n >= row * n + 2 * n) by (nonlinear_arith) requires a >= row + 2, n >= 1; } } }
            if a < row { assert(a * n + n <= row * n) by (nonlinear_arith) requires a + 1 <= row, n >= 1; }
        }
    }
}
@endraw

@fn src/array/manipulation.rs tri flags=ptrs memself mem=zeros,write_one rename=buffer_mut:vx_buffer
@props P12 P13
@req
    -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, max1(n) * max1(m) * dt_size(dtype) <= imax(), n <= 0x2000_0000_0000_0000, m <= 0x2000_0000_0000_0000,
@ens
    fresh(r, old(mem).v(), final(mem).v(), seq![n, m], dtype), els(final(mem).v(), r) == trio(n as int, m as int, k as int, dtype),
@start
    let ghost m0 = mem.v(); let ghost z = dt_size(dtype); let ghost N = n * m; let ghost s = trio(n as int, m as int, k as int, dtype); let ghost kk = k as int; let ghost sh = seq![n, m]; let ghost dt = dtype;
    proof { lemma_dt(dtype); lemma_p2(sh); lemma_ne2(sh); lemma_prod_pos(sh); lemma_pmax_le(sh, z); lemma_one_b(dtype); lemma_pmax(sh);
        assert(0 <= N && N <= N * z && N * z <= pmax(sh) * z) by (nonlinear_arith) requires N >= 0, N <= pmax(sh), z >= 1;
        if N == 0 { assert forall|rr: RumpyArray, mm: Map<int, Seq<u8>>| rr.shape@ == sh implies #[trigger] els(mm, rr) == s by { assert(els(mm, rr) =~= s); } } }
@at /let ptr = /
    let ghost mz = mem.v(); let ghost b = bid(arr);
    proof { lemma_part0(mz, b, s, z); }
@before 0
    proof { assert(0 * m == 0); }
@inv 0
    invariant z >= 1, z == dt_size(dt), N == n * m, n >= 1, m >= 1, n <= 0x2000_0000_0000_0000, m <= 0x2000_0000_0000_0000, s == trio(n as int, m as int, k as int, dt), kk == k, -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, fresh(arr, m0, mz, sh, dt), b == bid(arr), pb(ptr) == b, po(ptr) == 0, N * z == blen(b), N * z <= imax(), N <= imax(), ops_dt(ops) == dt, one_b(dt).len() == z, __e0 == n, 0 <= __i0 <= __e0, part(mz, mem.v(), b, s, z, __i0 * m)
    decreases __e0 - __i0
@body 0
    let ghost i1 = __i0 as int;
    proof { assert((i1 + 1) * m == i1 * m + m && (i1 + 1) * m <= N && 0 <= i1 * m) by (nonlinear_arith) requires 0 <= i1 < n, N == n * m; }
@inv 1
    invariant z >= 1, z == dt_size(dt), N == n * m, n >= 1, m >= 1, n <= 0x2000_0000_0000_0000, m <= 0x2000_0000_0000_0000, s == trio(n as int, m as int, k as int, dt), kk == k, -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, fresh(arr, m0, mz, sh, dt), b == bid(arr), pb(ptr) == b, po(ptr) == 0, N * z == blen(b), N * z <= imax(), N <= imax(), ops_dt(ops) == dt, one_b(dt).len() == z, i == i1, 0 <= i1 < n, __e1 == m, 0 <= __i1 <= __e1, (i1 + 1) * m == i1 * m + m, (i1 + 1) * m <= N, 0 <= i1 * m,
        part(mz, mem.v(), b, s, z, i1 * m + __i1)
    decreases __e1 - __i1
@body 1
    let ghost j2 = __i1 as int; let ghost m1 = mem.v();
    proof { let q = i1 * m + j2; lemma_ij(i1, j2, m as int); assert(zeros_b(z).len() == z); lemma_part_step(mz, m1, b, s, z, q); }
@after 0
    proof { assert(__e0 * m == N); lemma_part_done(arr, m0, mz, mem.v(), sh, dt, s); }

@fn src/array/manipulation.rs diagflat flags=ptrs memself mem=zeros,copy_element rename=buffer_mut:vx_buffer
@props P12 P13
@req
    wf(*v), mok(old(mem).v(), *v), -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, pmax(v.shape@) <= 0x2000_0000_0000_0000,
    ({ let n = max1((prod(v.shape@) + (if k < 0 { -(k as int) } else { k as int })) as usize); n * n * isz(*v) <= imax() }),
@ens
    ({ let n = prod(v.shape@) + (if k < 0 { -(k as int) } else { k as int }); fresh(r, old(mem).v(), final(mem).v(), seq![n as usize, n as usize], v.dtype) && els(final(mem).v(), r) == dgf(old(mem).v(), *v, k as int, n) }),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*v); let ghost S = prod(v.shape@); let ghost kk = k as int; let ghost ka = if kk < 0 { -kk } else { kk }; let ghost nn = S + ka; let ghost s = dgf(m0, *v, kk, nn); let ghost sh = seq![nn as usize, nn as usize]; let ghost N = nn * nn;
    proof { lemma_dt(v.dtype); lemma_prod_pos(v.shape@); lemma_pmax(v.shape@); lemma_pmax_le(v.shape@, z); lemma_p2(sh); lemma_ne2(sh); lemma_prod_pos(sh); lemma_pmax(sh); lemma_pmax_le(sh, z);
        assert(0 <= N) by (nonlinear_arith) requires N == nn * nn;
        assert(N <= N * z && N * z <= pmax(sh) * z) by (nonlinear_arith) requires N >= 0, N <= pmax(sh), z >= 1;
        if S == 0 { assert forall|q: int| 0 <= q < N implies #[trigger] s[q] == zeros_b(z) by { lemma_nn(nn); lemma_qij(q, nn, nn); }
            assert forall|rr: RumpyArray, mm: Map<int, Seq<u8>>| #[trigger] fresh(rr, m0, mm, sh, v.dtype) && mm[bid(rr)] == Seq::new(blen(bid(rr)) as nat, |i: int| 0u8) implies els(mm, rr) == s by { lemma_part0(mm, bid(rr), s, z); lemma_part_skip(mm, mm, bid(rr), s, z, 0, N); lemma_part_done(rr, m0, mm, mm, sh, v.dtype, s); } } }
@at /let result_ptr = /
    let ghost mz = mem.v(); let ghost b = bid(result);
    proof { lemma_part0(mz, b, s, z); lemma_nn(nn); }
@before 0
    proof { lemma_dg(m0, *v, kk, nn, 0); assert(0 * nn == 0); lemma_part_skip(mz, mz, b, s, z, 0, dgp(0, kk, nn)); }
@inv 0
    invariant wf(*v), mok(m0, *v), z == isz(*v), z >= 1, S == prod(v.shape@), S >= 1, kk == k, ka == (if kk < 0 { -kk } else { kk }), nn == S + ka, n == nn, nn <= imax(), N == nn * nn, s == dgf(m0, *v, kk, nn), -0x2000_0000_0000_0000 <= k <= 0x2000_0000_0000_0000, fresh(result, m0, mz, sh, v.dtype), b == bid(result), pb(result_ptr) == b, po(result_ptr) == 0, N * z == blen(b), N * z <= imax(), N <= imax(), ops_dt(ops) == v.dtype, pb(src_ptr) == bid(*v), po(src_ptr) == v.offset, nonempty(v.shape@),
        si_wf(__it0), __it0.shape@ == v.shape@, __it0.strides@ == v.strides@, si_base(__it0) == 0, __i0 == si_pos(__it0), __i0 <= S,
        part(mz, mem.v(), b, s, z, if __i0 < S { dgp(__i0 as int, kk, nn) } else { N })
    ensures __i0 == S,
    decreases S - __i0
@body 0
    let ghost i0 = __i0 as int; let ghost m1 = mem.v();
    proof { if i0 < S { lemma_at(m0, *v, i0); assert(m1[bid(*v)] == m0[bid(*v)]); lemma_dg(m0, *v, kk, nn, i0); let p = dgp(i0, kk, nn); lemma_part_step(mz, m1, b, s, z, p);
        let m2 = m1.insert(b, bput(m1[b], p * z, s[p])); if i0 + 1 < S { lemma_dg(m0, *v, kk, nn, i0 + 1); } lemma_part_skip(mz, m2, b, s, z, p + 1, if i0 + 1 < S { dgp(i0 + 1, kk, nn) } else { N }); } }
@after 0
    proof { lemma_part_done(result, m0, mz, mem.v(), sh, v.dtype, s); }

@raw
/// the elements whose key is below d are final, the others are as they were
pub open spec fn scat(mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int, key: spec_fn(int) -> int, d: int) -> bool {
    &&& m.dom() == mz.dom()
    &&& forall|c: int| c != b ==> #[trigger] m[c] == mz[c]
    &&& m[b].len() == mz[b].len()
    &&& forall|q: int| 0 <= q < s.len() ==> #[trigger] chunk(m[b], 0, q, z) == (if key(q) < d { s[q] } else { chunk(mz[b], 0, q, z) })
}
pub proof fn lemma_scat_step(mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int, key: spec_fn(int) -> int, d: int, p: int)
    requires scat(mz, m, b, s, z, key, d), live(mz, b), 0 <= p < s.len(), key(p) == d, s.len() * z <= blen(b), s[p].len() == z, z >= 0, forall|q: int| 0 <= q < s.len() && #[trigger] key(q) == d ==> q == p
    ensures scat(mz, m.insert(b, bput(m[b], p * z, s[p])), b, s, z, key, d + 1), acc(m, b, p * z, z), 0 <= p * z, p * z + z <= blen(b)
{
    lemma_put_chunk(m[b], 0, p, s.len() as int, z, s[p]); lemma_chunk_bound(p, s.len() as int, z);
    let m2 = m.insert(b, bput(m[b], p * z, s[p]));
    assert(m2.dom() =~= mz.dom());
    assert forall|q: int| 0 <= q < s.len() implies #[trigger] chunk(m2[b], 0, q, z) == (if key(q) < d + 1 { s[q] } else { chunk(mz[b], 0, q, z) }) by {
        assert(chunk(m[b], 0, q, z) == (if key(q) < d { s[q] } else { chunk(mz[b], 0, q, z) })); if q != p { assert(key(q) != d); } }
}
pub proof fn lemma_scat_done(r: RumpyArray, m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, sh: Seq<usize>, dt: DType, s: Seq<Seq<u8>>, key: spec_fn(int) -> int, d: int)
    requires fresh(r, m0, mz, sh, dt), scat(mz, m, bid(r), s, dt_size(dt), key, d), s.len() == prod(sh), forall|q: int| 0 <= q < s.len() ==> #[trigger] key(q) < d
    ensures fresh(r, m0, m, sh, dt), els(m, r) == s
{ assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] chunk(m[bid(r)], 0, k, dt_size(dt)) == s[k] by { assert(key(k) < d); } lemma_fill_done(r, m0, mz, m, sh, dt, s); }
pub open spec fn m_rep(ax: int, c: int) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.update(ax, (idx[ax] as int / c) as usize) }
/// order in which repeat writes: by source element, then by repetition
pub open spec fn k_rep(sh: Seq<usize>, nsh: Seq<usize>, ax: int, c: int) -> spec_fn(int) -> int { |q: int| rmi(m_rep(ax, c)(unrmi(q, nsh)), sh) * c + unrmi(q, nsh)[ax] as int % c }
pub open spec fn repd(m: Map<int, Seq<u8>>, a: RumpyArray, c: int) -> Seq<Seq<u8>> { Seq::new((prod(a.shape@) * c) as nat, |q: int| nth(m, a, q / c)) }
pub proof fn lemma_rep_pull(sh: Seq<usize>, nsh: Seq<usize>, ax: int, c: int, q: int)
    requires 0 <= ax < sh.len(), c >= 1, sh[ax] * c <= usize::MAX, nsh == sh.update(ax, (sh[ax] * c) as usize), 0 <= q < prod(nsh)
    ensures ({ let i = unrmi(q, nsh); let g = m_rep(ax, c)(i); inb(i, nsh) && inb(g, sh) && 0 <= rmi(g, sh) < prod(sh) && i[ax] == g[ax] * c + i[ax] as int % c && 0 <= i[ax] as int % c < c && 0 <= k_rep(sh, nsh, ax, c)(q) < prod(sh) * c && rmi(i, nsh) == q })
{
    let i = unrmi(q, nsh); lemma_unrmi_inb(q, nsh); let v = i[ax] as int; assert(nsh[ax] == sh[ax] * c);
    lemma_qij(v, sh[ax] as int, c); let g = m_rep(ax, c)(i);
    assert forall|k: int| 0 <= k < sh.len() implies (#[trigger] g[k]) < sh[k] by { assert(i[k] < nsh[k]); }
    lemma_rmi_bound(g, sh); let t = rmi(g, sh); let n = prod(sh);
    assert(0 <= t * c && t * c + c <= n * c) by (nonlinear_arith) requires 0 <= t < n, c >= 1;
}
pub proof fn lemma_rep_push(sh: Seq<usize>, nsh: Seq<usize>, ax: int, c: int, k: int, r: int, dst: Seq<usize>)
    requires 0 <= ax < sh.len(), c >= 1, sh[ax] * c <= usize::MAX, nsh == sh.update(ax, (sh[ax] * c) as usize), 0 <= k < prod(sh), 0 <= r < c, dst == unrmi(k, sh).update(ax, (unrmi(k, sh)[ax] * c + r) as usize)
    ensures inb(dst, nsh), 0 <= rmi(dst, nsh) < prod(nsh), k_rep(sh, nsh, ax, c)(rmi(dst, nsh)) == k * c + r, m_rep(ax, c)(unrmi(rmi(dst, nsh), nsh)) == unrmi(k, sh), unrmi(k, sh)[ax] * c + r < sh[ax] * c, 0 <= unrmi(k, sh)[ax] * c,
        forall|q: int| 0 <= q < prod(nsh) && #[trigger] k_rep(sh, nsh, ax, c)(q) == k * c + r ==> q == rmi(dst, nsh)
{
    let idx = unrmi(k, sh); lemma_unrmi_inb(k, sh); let v = idx[ax] as int; let n = sh[ax] as int;
    assert(v * c + r < n * c && 0 <= v * c) by (nonlinear_arith) requires 0 <= v < n, 0 <= r < c;
    assert forall|i: int| 0 <= i < nsh.len() implies (#[trigger] dst[i]) < nsh[i] by { if i != ax { assert(idx[i] < sh[i]); } }
    lemma_rmi_bound(dst, nsh); lemma_rmi_inv(dst, nsh); lemma_ij(v, r, c);
    assert(m_rep(ax, c)(dst) =~= idx);
    let p = rmi(dst, nsh);
    assert forall|q: int| 0 <= q < prod(nsh) && #[trigger] k_rep(sh, nsh, ax, c)(q) == k * c + r implies q == p by {
        lemma_rep_pull(sh, nsh, ax, c, q); let i = unrmi(q, nsh); let g = m_rep(ax, c)(i); let t = rmi(g, sh); let rr = i[ax] as int % c;
        lemma_ij(t, rr, c); lemma_ij(k, r, c); assert(t == k && rr == r); lemma_rmi_inv(g, sh); assert(g == idx);
        assert(i =~= dst) by { assert forall|x: int| 0 <= x < i.len() implies i[x] == dst[x] by { if x != ax { assert(g[x] == i[x]); } else { assert(g[ax] == idx[ax]); } } }
    }
}
@endraw

@fn src/array/manipulation.rs repeat flags=ptrs memself mem=zeros,copy_element rename=buffer_mut:vx_buffer
@props P12
@req
    wf(*arr), mok(old(mem).v(), *arr), nonempty(arr.shape@), arr.shape@.len() <= imax(), axis is Some ==> axis->0 >= -arr.shape@.len(),
    pmax(arr.shape@) * (if repeats == 0 { 1int } else { repeats as int }) * isz(*arr) <= imax(),
@ens
    r is None <==> axis is Some && nax(axis->0, arr.shape@.len() as int) >= arr.shape@.len(),
    axis is None ==> fresh(r->0, old(mem).v(), final(mem).v(), seq![(prod(arr.shape@) * repeats) as usize], arr.dtype) && els(final(mem).v(), r->0) == repd(old(mem).v(), *arr, repeats as int),
    axis is Some && r is Some ==> ({ let ax = nax(axis->0, arr.shape@.len() as int); let nsh = arr.shape@.update(ax, (arr.shape@[ax] * repeats) as usize);
        fresh(r->0, old(mem).v(), final(mem).v(), nsh, arr.dtype) && els(final(mem).v(), r->0) == gath(old(mem).v(), *arr, nsh, m_rep(ax, repeats as int)) }),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr); let ghost n = prod(arr.shape@); let ghost c = repeats as int; let ghost c1 = if c == 0 { 1int } else { c }; let ghost P = pmax(arr.shape@);
    proof { lemma_dt(arr.dtype); lemma_prod_pos(arr.shape@); lemma_pmax(arr.shape@); lemma_pmax_le(arr.shape@, z);
        assert(0 <= n * c && n * c <= P * c1 && P * c1 <= P * c1 * z && n * c * z <= P * c1 * z && n * c <= n * c * z && P * z <= P * c1 * z && 1 <= P * c1) by (nonlinear_arith) requires 0 <= n <= P, 0 <= c <= c1, c1 >= 1, z >= 1, P >= 1;
        lemma_row1(n * c, z); let w = if n * c == 0 { 1int } else { n * c }; assert(w * z <= P * c1 * z) by (nonlinear_arith) requires 0 <= w <= P * c1, z >= 1; }
@at /let mut dst_idx = /
    let ghost mz = mem.v(); let ghost s = repd(m0, *arr, c); let ghost b = bid(result);
@before 0
    proof { assert(0 * c == 0); assert(mz[bid(*arr)] == m0[bid(*arr)]); }
@inv 0
    invariant wf(*arr), mok(m0, *arr), z == isz(*arr), z >= 1, n == prod(arr.shape@), nonempty(arr.shape@), c == repeats, b == bid(result), fresh(result, m0, mz, result.shape@, arr.dtype), pb(dst_ptr) == b, po(dst_ptr) == 0, n <= imax(), pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(src_ops) == arr.dtype, mz[bid(*arr)] == m0[bid(*arr)], pmax(arr.shape@) <= imax(), s == repd(m0, *arr, c), n * c * z == blen(b), n * c * z <= imax(), n * c <= imax(),
        si_wf(__it0), __it0.shape@ == arr.shape@, __it0.strides@ == arr.strides@, si_base(__it0) == 0, __i0 == si_pos(__it0), __i0 <= n,
        dst_idx == __i0 * c, filled(mz, mem.v(), b, s, z, __i0 * c)
    ensures __i0 == n,
    decreases n - __i0
@body 0
    let ghost i0 = __i0 as int;
    proof { if i0 < n { lemma_at(m0, *arr, i0); assert((i0 + 1) * c == i0 * c + c && (i0 + 1) * c <= n * c && 0 <= i0 * c) by (nonlinear_arith) requires 0 <= i0 < n, c >= 0; } }
@inv 1
    invariant wf(*arr), mok(m0, *arr), z == isz(*arr), z >= 1, n == prod(arr.shape@), nonempty(arr.shape@), c == repeats, b == bid(result), fresh(result, m0, mz, result.shape@, arr.dtype), pb(dst_ptr) == b, po(dst_ptr) == 0, n <= imax(), pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(src_ops) == arr.dtype, mz[bid(*arr)] == m0[bid(*arr)], pmax(arr.shape@) <= imax(), s == repd(m0, *arr, c), n * c * z == blen(b), n * c * z <= imax(), n * c <= imax(), 0 <= i0 < n, (i0 + 1) * c == i0 * c + c, (i0 + 1) * c <= n * c, 0 <= i0 * c, __e1 == c, 0 <= __i1 <= __e1,
        acc(m0, bid(*arr), arr.offset + offset, z), get(m0[bid(*arr)], arr.offset + offset, z) == nth(m0, *arr, i0), nth(m0, *arr, i0).len() == z,
        dst_idx == i0 * c + __i1, filled(mz, mem.v(), b, s, z, i0 * c + __i1)
    decreases __e1 - __i1
@body 1
    let ghost j1 = __i1 as int; let ghost m1 = mem.v();
    proof { assert(m1[bid(*arr)] == m0[bid(*arr)]); lemma_ij(i0, j1, c); lemma_fill_step(mz, m1, b, s, z, i0 * c + j1, s[i0 * c + j1]); }
@after 0
    proof { assert(s.len() == n * c); lemma_fill_done(result, m0, mz, mem.v(), seq![(n * c) as usize], arr.dtype, s); }
@at /let mut new_shape = arr/
    let ghost ax = axis as int; let ghost al = arr.shape@[ax] as int; let ghost nsh = arr.shape@.update(ax, (al * c) as usize);
    proof { lemma_dim_le(arr.shape@, z, ax); assert(al <= P); assert(0 <= al * c && al * c <= P * c1) by (nonlinear_arith) requires 0 <= al <= P, 0 <= c <= c1, c1 >= 1;
        lemma_pmax_axis(arr.shape@, ax, (al * c) as usize, c1);
        assert(pmax(nsh) * z <= P * c1 * z) by (nonlinear_arith) requires pmax(nsh) <= P * c1, z >= 1; lemma_prod_pos(nsh); lemma_pmax_le(nsh, z); lemma_pmax(nsh); if c == 0 { assert(al * c == 0); assert(!nonempty(nsh)) by { assert(nsh[ax] == 0); } } }
@at /let mut src_indices = /
    let ghost mz = mem.v(); let ghost b = bid(result); let ghost g = m_rep(ax, c); let ghost s = gath(m0, *arr, nsh, g); let ghost key = k_rep(arr.shape@, nsh, ax, c);
    proof { assert(new_shape@ =~= nsh); assert(mz[bid(*arr)] == m0[bid(*arr)]);
        assert(0 <= prod(nsh) * z && prod(nsh) * z <= pmax(nsh) * z) by (nonlinear_arith) requires 0 <= prod(nsh) <= pmax(nsh), z >= 1;
        assert forall|q: int| 0 <= q < s.len() implies 0 <= #[trigger] key(q) < n * c by { lemma_rep_pull(arr.shape@, nsh, ax, c, q); }
        assert(scat(mz, mz, b, s, z, key, 0)); }
@before 2
    proof { lemma_zero_idx(src_indices@, arr.shape@); assert(0 * c == 0); }
@inv 2
    invariant wf(*arr), mok(m0, *arr), z == isz(*arr), z >= 1, n == prod(arr.shape@), nonempty(arr.shape@), c == repeats, b == bid(result), fresh(result, m0, mz, result.shape@, arr.dtype), pb(dst_ptr) == b, po(dst_ptr) == 0, n <= imax(), pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(src_ops) == arr.dtype, mz[bid(*arr)] == m0[bid(*arr)], pmax(arr.shape@) <= imax(), axis == ax, 0 <= ax < arr.shape@.len(), al == arr.shape@[ax], al * c <= imax(), nsh == arr.shape@.update(ax, (al * c) as usize), new_shape@ == nsh, result.shape@ == nsh, pmax(nsh) <= imax(), prod(nsh) * z == blen(b), prod(nsh) * z <= imax(), g == m_rep(ax, c), s == gath(m0, *arr, nsh, g), key == k_rep(arr.shape@, nsh, ax, c), src_shape@ == arr.shape@, __e2 == n, 0 <= __i2 <= __e2, dst_indices@.len() == arr.shape@.len(), src_indices@ == unrmi(cyc(__i2 as int, n), arr.shape@), scat(mz, mem.v(), b, s, z, key, __i2 * c)
    decreases __e2 - __i2
@body 2
    let ghost i2 = __i2 as int; let ghost idx = src_indices@;
    proof { lemma_step(i2, arr.shape@); lemma_inb_box(idx, arr.shape@); lemma_acc(m0, *arr, idx); assert((i2 + 1) * c == i2 * c + c) by (nonlinear_arith); let v = idx[ax] as int; assert(v < arr.shape@[ax]); assert(0 <= v * c && v * c <= al * c) by (nonlinear_arith) requires 0 <= v < al, c >= 0; }
@inv 3
    invariant wf(*arr), mok(m0, *arr), z == isz(*arr), z >= 1, n == prod(arr.shape@), nonempty(arr.shape@), c == repeats, b == bid(result), fresh(result, m0, mz, result.shape@, arr.dtype), pb(dst_ptr) == b, po(dst_ptr) == 0, n <= imax(), pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(src_ops) == arr.dtype, mz[bid(*arr)] == m0[bid(*arr)], pmax(arr.shape@) <= imax(), axis == ax, 0 <= ax < arr.shape@.len(), al == arr.shape@[ax], al * c <= imax(), nsh == arr.shape@.update(ax, (al * c) as usize), new_shape@ == nsh, result.shape@ == nsh, pmax(nsh) <= imax(), prod(nsh) * z == blen(b), prod(nsh) * z <= imax(), g == m_rep(ax, c), s == gath(m0, *arr, nsh, g), key == k_rep(arr.shape@, nsh, ax, c), src_shape@ == arr.shape@, 0 <= i2 < n, src_indices@ == idx, idx == unrmi(i2, arr.shape@), inb(idx, arr.shape@), __e3 == c, 0 <= __i3 <= __e3, base_axis_idx == idx[ax] * c, dst_indices@.len() == idx.len(), forall|x: int| 0 <= x < idx.len() && x != ax ==> dst_indices@[x] == idx[x],
        acc(m0, bid(*arr), arr.offset + src_offset, z), get(m0[bid(*arr)], arr.offset + src_offset, z) == elem(m0, *arr, idx), elem(m0, *arr, idx).len() == z,
        scat(mz, mem.v(), b, s, z, key, i2 * c + __i3)
    decreases __e3 - __i3
@body 3
    let ghost j3 = __i3 as int; let ghost m1 = mem.v(); let ghost dst = idx.update(ax, (idx[ax] * c + j3) as usize); let ghost p = rmi(dst, nsh);
    proof { lemma_rep_push(arr.shape@, nsh, ax, c, i2, j3, dst); assert(m1[bid(*arr)] == m0[bid(*arr)]); assert(s[p] == elem(m0, *arr, idx)); lemma_scat_step(mz, m1, b, s, z, key, i2 * c + j3, p); }
@at /let dst_offset = linear_index/
    proof { assert(dst_indices@ =~= dst); }
@after 2
    proof { lemma_scat_done(result, m0, mz, mem.v(), nsh, arr.dtype, s, key, n * c); }

@raw
pub open spec fn shifted(idx: Seq<usize>, pw: Seq<(usize, usize)>) -> Seq<usize> { Seq::new(idx.len(), |i: int| (idx[i] + pw[i].0) as usize) }
pub open spec fn unshift(idx: Seq<usize>, pw: Seq<(usize, usize)>) -> Seq<usize> { Seq::new(idx.len(), |i: int| (idx[i] - pw[i].0) as usize) }
/// the padded frame around sh is dsh
pub open spec fn padded(sh: Seq<usize>, dsh: Seq<usize>, pw: Seq<(usize, usize)>) -> bool { sh.len() == dsh.len() && pw.len() == sh.len() && forall|i: int| 0 <= i < sh.len() ==> #[trigger] dsh[i] == sh[i] + pw[i].0 + pw[i].1 }
pub open spec fn inner(idx: Seq<usize>, sh: Seq<usize>, pw: Seq<(usize, usize)>) -> bool { forall|i: int| 0 <= i < sh.len() ==> pw[i].0 <= #[trigger] idx[i] < pw[i].0 + sh[i] }
/// order of writing; positions outside the inner box come after everything
pub open spec fn k_reg(sh: Seq<usize>, dsh: Seq<usize>, pw: Seq<(usize, usize)>) -> spec_fn(int) -> int { |q: int| { let i = unrmi(q, dsh); if inner(i, sh, pw) { rmi(unshift(i, pw), sh) } else { prod(sh) } } }
/// source elements inside the frame, what was there before outside
pub open spec fn regd(m: Map<int, Seq<u8>>, a: RumpyArray, d: RumpyArray, pw: Seq<(usize, usize)>) -> Seq<Seq<u8>> {
    Seq::new(prod(d.shape@) as nat, |q: int| { let i = unrmi(q, d.shape@); if inner(i, a.shape@, pw) { elem(m, a, unshift(i, pw)) } else { nth(m, d, q) } })
}
pub proof fn lemma_reg(sh: Seq<usize>, dsh: Seq<usize>, pw: Seq<(usize, usize)>, k: int)
    requires padded(sh, dsh, pw), 0 <= k < prod(sh)
    ensures ({ let idx = unrmi(k, sh); let d = shifted(idx, pw); let p = rmi(d, dsh); inb(d, dsh) && 0 <= p < prod(dsh) && unrmi(p, dsh) == d && inner(d, sh, pw) && unshift(d, pw) == idx && k_reg(sh, dsh, pw)(p) == k
        && (forall|i: int| 0 <= i < idx.len() ==> #[trigger] idx[i] + pw[i].0 <= dsh[i])
        && forall|q: int| 0 <= q < prod(dsh) && #[trigger] k_reg(sh, dsh, pw)(q) == k ==> q == p })
{
    let idx = unrmi(k, sh); lemma_unrmi_inb(k, sh); let d = shifted(idx, pw); let p = rmi(d, dsh);
    assert forall|i: int| 0 <= i < idx.len() implies #[trigger] idx[i] + pw[i].0 <= dsh[i] by { assert(idx[i] < sh[i]); assert(dsh[i] == sh[i] + pw[i].0 + pw[i].1); }
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) < dsh[i] by { assert(idx[i] < sh[i]); assert(dsh[i] == sh[i] + pw[i].0 + pw[i].1); }
    assert(inb(d, dsh)); lemma_rmi_bound(d, dsh); lemma_rmi_inv(d, dsh);
    assert forall|i: int| 0 <= i < sh.len() implies pw[i].0 <= #[trigger] d[i] < pw[i].0 + sh[i] by { assert(idx[i] < sh[i]); assert(dsh[i] == sh[i] + pw[i].0 + pw[i].1); }
    assert(unshift(d, pw) =~= idx) by { assert forall|i: int| 0 <= i < idx.len() implies #[trigger] unshift(d, pw)[i] == idx[i] by { assert(dsh[i] == sh[i] + pw[i].0 + pw[i].1); assert(idx[i] < sh[i]); } }
    assert forall|q: int| 0 <= q < prod(dsh) && #[trigger] k_reg(sh, dsh, pw)(q) == k implies q == p by {
        let i = unrmi(q, dsh); lemma_unrmi_inb(q, dsh); let u = unshift(i, pw);
        assert(inner(i, sh, pw));
        assert forall|x: int| 0 <= x < sh.len() implies (#[trigger] u[x]) < sh[x] by { assert(pw[x].0 <= i[x] < pw[x].0 + sh[x]); }
        assert(inb(u, sh)); lemma_rmi_inv(u, sh); assert(u == idx);
        assert(i =~= d) by { assert forall|x: int| 0 <= x < i.len() implies i[x] == d[x] by { assert(pw[x].0 <= i[x] < pw[x].0 + sh[x]); assert(u[x] == idx[x]); } }
    }
}
@endraw

@fn src/array/manipulation.rs copy_region flags=ptrs memself mem=copy_element rename=buffer_mut:vx_buffer
@props P12
@req
    wf(*src), mok(old(mem).v(), *src), nonempty(src.shape@), packed(*old(dst)), mok(old(mem).v(), *old(dst)), bid(*old(dst)) != bid(*src), old(dst).dtype == src.dtype, dst_shape@ == old(dst).shape@, padded(src.shape@, dst_shape@, pad_width@),
    pmax(dst_shape@) * isz(*src) <= imax(),
@ens
    *final(dst) == *old(dst), els(final(mem).v(), *final(dst)) == regd(old(mem).v(), *src, *old(dst), pad_width@), mok(final(mem).v(), *final(dst)), frame_but(old(mem).v(), final(mem).v(), bid(*old(dst))), final(mem).v().dom() == old(mem).v().dom(),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*src); let ghost sh = src.shape@; let ghost dsh = dst_shape@; let ghost pw = pad_width@; let ghost n = prod(sh); let ghost d0 = *dst; let ghost s = regd(m0, *src, d0, pw); let ghost key = k_reg(sh, dsh, pw); let ghost b = bid(d0);
    proof { lemma_dt(src.dtype); lemma_prod_pos(sh); lemma_pmax(sh); lemma_pmax_le(sh, z); lemma_pmax_le(dsh, z); lemma_pmax(dsh); lemma_prod_pos(dsh);
        assert(0 <= prod(dsh) * z && prod(dsh) * z <= pmax(dsh) * z) by (nonlinear_arith) requires 0 <= prod(dsh) <= pmax(dsh), z >= 1; }
@before 0
    proof { lemma_zero_idx(src_indices@, sh);
        assert forall|q: int| 0 <= q < s.len() implies 0 <= #[trigger] key(q) by { let i = unrmi(q, dsh); lemma_unrmi_inb(q, dsh); if inner(i, sh, pw) { let u = unshift(i, pw); assert forall|x: int| 0 <= x < sh.len() implies (#[trigger] u[x]) < sh[x] by { assert(pw[x].0 <= i[x] < pw[x].0 + sh[x]); } assert(inb(u, sh)); lemma_rmi_bound(u, sh); } }
        assert(scat(m0, mem.v(), b, s, z, key, 0)); }
@inv 0
    invariant wf(*src), mok(m0, *src), z == isz(*src), z >= 1, sh == src.shape@, src_shape@ == sh, dsh == dst_shape@, pw == pad_width@, n == prod(sh), n <= imax(), *dst == d0, nonempty(sh), ndim == sh.len(), packed(d0), dsh == d0.shape@, isz(d0) == z, mok(m0, d0), b == bid(d0), b != bid(*src), padded(sh, dsh, pw), s == regd(m0, *src, d0, pw), key == k_reg(sh, dsh, pw), prod(dsh) * z == blen(b), prod(dsh) * z <= imax(), pmax(dsh) <= imax(),
        pb(dst_ptr) == b, po(dst_ptr) == 0, pb(src_ptr) == bid(*src), po(src_ptr) == src.offset, ops_dt(src_ops) == src.dtype, __e0 == n, 0 <= __i0 <= __e0, src_indices@ == unrmi(cyc(__i0 as int, n), sh), scat(m0, mem.v(), b, s, z, key, __i0 as int)
    decreases __e0 - __i0
@body 0
    let ghost k0 = __i0 as int; let ghost m1 = mem.v(); let ghost idx = src_indices@; let ghost p = rmi(shifted(idx, pw), dsh);
    proof { lemma_step(k0, sh); lemma_inb_box(idx, sh); lemma_acc(m0, *src, idx); lemma_reg(sh, dsh, pw, k0); assert(m1[bid(*src)] == m0[bid(*src)]); assert(s[p] == elem(m0, *src, idx)); lemma_scat_step(m0, m1, b, s, z, key, k0, p); }
@inv 1
    invariant __i1 <= __l0, __l0 == sh.len(), idx == src_indices@, idx.len() == sh.len(), pw == pad_width@, pw.len() == sh.len(), dsh.len() == sh.len(), forall|i: int| 0 <= i < idx.len() ==> #[trigger] idx[i] + pw[i].0 <= dsh[i], __v1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> #[trigger] __v1@[i] == idx[i] + pw[i].0
    decreases __l0 - __i1
@body 1
    proof { assert(idx[__i1 as int] + pw[__i1 as int].0 <= dsh[__i1 as int]); }
@at /let src_byte_offset = src.byte_offset/
    proof { assert(dst_indices@ =~= shifted(idx, pw)) by { assert forall|i: int| 0 <= i < idx.len() implies dst_indices@[i] == shifted(idx, pw)[i] by { assert(idx[i] + pw[i].0 <= dsh[i]); } } }
@after 0
    proof { let m1 = mem.v(); assert forall|q: int| 0 <= q < prod(dsh) implies #[trigger] els(m1, d0)[q] == s[q] by { lemma_unrmi_inb(q, dsh); lemma_packed(m1, d0, unrmi(q, dsh)); lemma_packed(m0, d0, unrmi(q, dsh)); let i = unrmi(q, dsh);
            if inner(i, sh, pw) { let u = unshift(i, pw); assert forall|x: int| 0 <= x < sh.len() implies (#[trigger] u[x]) < sh[x] by { assert(pw[x].0 <= i[x] < pw[x].0 + sh[x]); } assert(inb(u, sh)); lemma_rmi_bound(u, sh); assert(key(q) < n); } assert(chunk(m1[b], 0, q, z) == (if key(q) < n { s[q] } else { chunk(m0[b], 0, q, z) })); }
        assert(els(m1, d0) =~= s); }

@raw
#[verifier::external_body]
pub fn promote_dtype(a: &DType, b: &DType) -> (r: DType) ensures r == promo(*a, *b) { unimplemented!() }
pub proof fn lemma_cat_pull(s: Seq<RumpyArray>, ax: int, q: int)
    requires cat_ok(s, ax), 0 <= q < prod(cshape(s, ax))
    ensures ({ let i = unrmi(q, cshape(s, ax)); let t = cown(s, ax, i); let u = csrc(s, ax, i); 0 <= t < s.len() && inb(u, s[t].shape@) && i[ax] == u[ax] + clen(s, ax, t) && 0 <= rmi(u, s[t].shape@) < prod(s[t].shape@) && 0 <= k_cat(s, ax)(q) < cbase(s, s.len() as int) && inb(i, cshape(s, ax)) && rmi(i, cshape(s, ax)) == q })
{
    let osh = cshape(s, ax); let i = unrmi(q, osh); lemma_unrmi_inb(q, osh); let n = s.len() as int; let v = i[ax] as int; lemma_clen(s, ax, 0, n); assert(i[ax] < osh[ax]);
    lemma_own(s, ax, v, n); let t = cown(s, ax, i); let u = csrc(s, ax, i); let sh = s[t].shape@; assert(like(s[0].shape@, sh, ax));
    assert forall|x: int| 0 <= x < sh.len() implies (#[trigger] u[x]) < sh[x] by { if x != ax { assert(i[x] < osh[x]); assert(s[0].shape@[x] == sh[x]); } }
    lemma_rmi_bound(u, sh); lemma_cbase(s, t, t); lemma_cbase(s, t + 1, n);
}
pub proof fn lemma_cat_push(s: Seq<RumpyArray>, ax: int, t: int, k: int)
    requires cat_ok(s, ax), 0 <= t < s.len(), 0 <= k < prod(s[t].shape@)
    ensures ({ let idx = unrmi(k, s[t].shape@); let osh = cshape(s, ax); let d = idx.update(ax, (idx[ax] + clen(s, ax, t)) as usize); let p = rmi(d, osh); inb(idx, s[t].shape@) && inb(d, osh) && idx[ax] + clen(s, ax, t) < osh[ax] && 0 <= p < prod(osh) && unrmi(p, osh) == d && cown(s, ax, d) == t && csrc(s, ax, d) == idx && k_cat(s, ax)(p) == cbase(s, t) + k
        && forall|q: int| 0 <= q < prod(osh) && #[trigger] k_cat(s, ax)(q) == cbase(s, t) + k ==> q == p })
{
    let sh = s[t].shape@; let idx = unrmi(k, sh); let osh = cshape(s, ax); let n = s.len() as int; let d = idx.update(ax, (idx[ax] + clen(s, ax, t)) as usize); let p = rmi(d, osh);
    lemma_unrmi_inb(k, sh); assert(like(s[0].shape@, sh, ax)); assert(idx[ax] < sh[ax]); lemma_clen(s, ax, t, t); lemma_own1(s, ax, idx[ax] + clen(s, ax, t), n, t);
    assert forall|x: int| 0 <= x < osh.len() implies (#[trigger] d[x]) < osh[x] by { if x != ax { assert(idx[x] < sh[x]); assert(s[0].shape@[x] == sh[x]); } }
    assert(inb(d, osh)); lemma_rmi_bound(d, osh); lemma_rmi_inv(d, osh);
    assert(csrc(s, ax, d) =~= idx);
    assert forall|q: int| 0 <= q < prod(osh) && #[trigger] k_cat(s, ax)(q) == cbase(s, t) + k implies q == p by {
        lemma_cat_pull(s, ax, q); let i = unrmi(q, osh); let u = cown(s, ax, i); let w = csrc(s, ax, i);
        if u < t { lemma_cbase(s, u + 1, t); } if u > t { lemma_cbase(s, t + 1, u); }
        lemma_rmi_inv(w, sh); assert(w == idx);
        assert(i =~= d) by { assert forall|x: int| 0 <= x < i.len() implies i[x] == d[x] by { if x != ax { assert(w[x] == i[x]); } } }
    }
}
pub proof fn lemma_conv_len(a: DType, b: DType, v: Seq<u8>) requires v.len() == dt_size(a) ensures conv(a, b, v).len() == dt_size(b)
{ if a != b { lemma_pod(); lemma_castb(a, b, v); lemma_dtk2(a); lemma_dtk2(b); match (dt_kind(a), dt_kind(b)) { (DTypeKind::DateTime64(f), DTypeKind::DateTime64(t)) => { lemma_codec(cdt(dec::<i64>(v), f, t)); lemma_tsz::<i64>(); } (DTypeKind::TimeDelta64(f), DTypeKind::TimeDelta64(t)) => { lemma_codec(cdt(dec::<i64>(v), f, t)); lemma_tsz::<i64>(); } _ => {} } } }
#[verifier::external_body]
pub proof fn lemma_dtk2(d: DType) ensures dt_kind(d) is DateTime64 || dt_kind(d) is TimeDelta64 ==> dt_size(d) == 8 { unimplemented!() }
@endraw

@fn src/array/manipulation.rs concatenate flags=ptrs memself mem=zeros,copy_element,astype rename=buffer_mut:vx_buffer
@props P12
@req
    forall|i: int| 0 <= i < arrays@.len() ==> arr_ok(old(mem).v(), #[trigger] arrays@[i]) && pmax(arrays@[i].shape@) * dt_size(cdtype(arrays@, arrays@.len() as int)) <= imax(),
    arrays@.len() > 0 && axis < arrays@[0].shape@.len() ==> clen(arrays@, axis as int, arrays@.len() as int) <= imax() && pmax(cshape(arrays@, axis as int)) * dt_size(cdtype(arrays@, arrays@.len() as int)) <= imax(),
@ens
    r is Some <==> arrays@.len() > 0 && axis < arrays@[0].shape@.len() && compat(arrays@, axis as int, arrays@.len() as int),
    r is Some ==> ({ let dt = cdtype(arrays@, arrays@.len() as int); fresh(r->0, old(mem).v(), final(mem).v(), cshape(arrays@, axis as int), dt) && els(final(mem).v(), r->0) == catd(old(mem).v(), arrays@, axis as int, dt) }),
@start
    let ghost m0 = mem.v(); let ghost A = arrays@; let ghost L = arrays@.len() as int; let ghost ax = axis as int;
@inv 0
    invariant A == arrays@, L == A.len(), L >= 1, first == A[0], ax == axis, ndim == A[0].shape@.len(), ax < ndim, __a0 == 1, __l0 == L - 1, __i0 <= __l0, mem.v() == m0, compat(A, ax, __i0 + 1)
    decreases __l0 - __i0
@before 0
    proof { assert(like(A[0].shape@, A[0].shape@, ax)); assert(compat(A, ax, 1)); }
@body 0
    let ghost t0 = __i0 + 1;
@end 0
    proof { assert(like(A[0].shape@, A[t0].shape@, ax)); }
@inv 1
    invariant A == arrays@, L == A.len(), 0 < t0 < L, ax == axis, __s1@ == A[0].shape@, __s2@ == A[t0].shape@, __s1@.len() == __s2@.len(), __l3 == __s1@.len(), __i1 <= __l3, mem.v() == m0, forall|i: int| 0 <= i < __i1 && i != ax ==> #[trigger] A[0].shape@[i] == A[t0].shape@[i]
    decreases __l3 - __i1
@before 2
    proof { assert(compat(A, ax, L)); lemma_clen(A, ax, 0, L); }
@inv 2
    invariant A == arrays@, L == A.len(), L >= 1, ax == axis, compat(A, ax, L), ax < A[0].shape@.len(), __i2 <= L, __v2 == clen(A, ax, __i2 as int), clen(A, ax, L) <= imax(), mem.v() == m0
    decreases L - __i2
@body 2
    proof { lemma_clen(A, ax, __i2 + 1, L); assert(like(A[0].shape@, A[__i2 as int].shape@, ax)); }
@inv 3
    invariant A == arrays@, L == A.len(), L >= 1, __a5 == 1, __l5 == L - 1, __i3 <= __l5, dtype == cdtype(A, __i3 + 1), mem.v() == m0
    decreases __l5 - __i3
@at /let mut result = RumpyArray/
    let ghost dt = dtype; let ghost z = dt_size(dt); let ghost osh = cshape(A, ax);
    proof { assert(dt == cdtype(A, L)); assert(out_shape@ =~= osh); lemma_dt(dt); lemma_prod_pos(osh); lemma_pmax(osh); lemma_pmax_le(osh, z); assert(cat_ok(A, ax)); }
@at /let mut axis_offset = /
    let ghost b = bid(result); let ghost s = catd(m0, A, ax, dt); let ghost key = k_cat(A, ax);
    proof { assert(0 <= prod(osh) * z && prod(osh) * z <= pmax(osh) * z) by (nonlinear_arith) requires 0 <= prod(osh) <= pmax(osh), z >= 1; assert(cbase(A, 0) == 0);
        assert forall|q: int| 0 <= q < prod(osh) implies 0 <= #[trigger] key(q) by { lemma_cat_pull(A, ax, q); } }
@inv 4
    invariant A == arrays@, L == A.len(), L >= 1, ax == axis, ndim == A[0].shape@.len(), ax < ndim, compat(A, ax, L), cat_ok(A, ax), clen(A, ax, L) <= imax(), osh == cshape(A, ax), z == dt_size(dt), z >= 1, result.dtype == dt, result.shape@ == osh, packed(result), b == bid(result), !m0.dom().contains(b), s == catd(m0, A, ax, dt), key == k_cat(A, ax), prod(osh) * z == blen(b), prod(osh) * z <= imax(), pmax(osh) <= imax(), pb(result_ptr) == b, po(result_ptr) == 0, ops_dt(ops) == dt, forall|i: int| 0 <= i < L ==> arr_ok(m0, #[trigger] A[i]) && pmax(A[i].shape@) * z <= imax(), forall|q: int| 0 <= q < prod(osh) ==> 0 <= #[trigger] key(q), __i4 <= L, axis_offset == clen(A, ax, __i4 as int), forall|q: int| 0 <= q < prod(osh) && #[trigger] key(q) < cbase(A, __i4 as int) ==> chunk(mem.v()[b], 0, q, z) == s[q], fresh(result, m0, mem.v(), osh, dt)
    decreases L - __i4
@body 4
    let ghost t = __i4 as int; let ghost a0 = A[t]; let ghost m1 = mem.v(); let ghost n = prod(a0.shape@); let ghost cb = cbase(A, t);
    proof { lemma_prod_pos(osh); assert(arr_ok(m0, A[t])); assert(m1.dom().contains(bid(a0))); assert(m1[bid(a0)] == m0[bid(a0)]); lemma_prod_pos(a0.shape@); lemma_pmax(a0.shape@); lemma_pmax_le(a0.shape@, z); assert(like(A[0].shape@, A[t].shape@, ax)); lemma_clen(A, ax, t, t); lemma_clen(A, ax, t + 1, L); lemma_els_keep(m0, m1, a0); assert(convs(m0, a0, dt) =~= convs(m1, a0, dt)) by { assert forall|k: int| 0 <= k < n implies convs(m0, a0, dt)[k] == convs(m1, a0, dt)[k] by { assert(els(m0, a0)[k] == els(m1, a0)[k]); } } }
@at /let size = arr.size/
    let ghost ma = mem.v(); let ghost e = convs(m0, a0, dt);
    proof { assert(ptr_ok(*arr)); if a0.dtype == dt { assert(els(ma, *arr) =~= e); } assert(els(ma, *arr) == e); assert(wf(*arr) && mok(ma, *arr)); assert(bid(*arr) != b); assert(ma[b] == m1[b]); }
@before 5
    proof { if n > 0 { lemma_zero_idx(src_indices@, a0.shape@); } assert forall|q: int| 0 <= q < s.len() implies #[trigger] chunk(ma[b], 0, q, z) == (if key(q) < cb { s[q] } else { chunk(ma[b], 0, q, z) }) by { if key(q) < cb { } } assert(scat(ma, ma, b, s, z, key, cb)); }
@inv 5
    invariant A == arrays@, L == A.len(), L >= 1, ax == axis, ndim == A[0].shape@.len(), ax < ndim, compat(A, ax, L), cat_ok(A, ax), clen(A, ax, L) <= imax(), osh == cshape(A, ax), z == dt_size(dt), z >= 1, result.dtype == dt, result.shape@ == osh, packed(result), b == bid(result), !m0.dom().contains(b), s == catd(m0, A, ax, dt), key == k_cat(A, ax), prod(osh) * z == blen(b), prod(osh) * z <= imax(), pmax(osh) <= imax(), pb(result_ptr) == b, po(result_ptr) == 0, ops_dt(ops) == dt, forall|i: int| 0 <= i < L ==> arr_ok(m0, #[trigger] A[i]) && pmax(A[i].shape@) * z <= imax(), forall|q: int| 0 <= q < prod(osh) ==> 0 <= #[trigger] key(q), 0 <= t < L, a0 == A[t], n == prod(a0.shape@), n <= imax(), cb == cbase(A, t), e == convs(m0, a0, dt), els(ma, *arr) == e, wf(*arr), mok(ma, *arr), arr.shape@ == a0.shape@, arr.dtype == dt, bid(*arr) != b, live(ma, b), pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, axis_offset == clen(A, ax, t), __e5 == n, 0 <= __i5 <= __e5, src_indices@.len() == ndim, a0.shape@.len() == ndim, n > 0 ==> src_indices@ == unrmi(cyc(__i5 as int, n), a0.shape@), scat(ma, mem.v(), b, s, z, key, cb + __i5)
    decreases __e5 - __i5
@body 5
    let ghost k0 = __i5 as int; let ghost m2 = mem.v(); let ghost idx = src_indices@; let ghost d = idx.update(ax, (idx[ax] + clen(A, ax, t)) as usize); let ghost p = rmi(d, osh);
    proof { lemma_step(k0, a0.shape@); lemma_cat_push(A, ax, t, k0); lemma_inb_box(idx, a0.shape@); lemma_acc(ma, *arr, idx); lemma_acc(m0, a0, idx); assert(m2[bid(*arr)] == ma[bid(*arr)]); assert(els(ma, *arr)[k0] == e[k0]); assert(s[p] == e[k0]); assert(elem(m2, *arr, idx) == s[p]);
        lemma_conv_len(a0.dtype, dt, elem(m0, a0, idx)); lemma_scat_step(ma, m2, b, s, z, key, cb + k0, p); }
@inv 6
    invariant d == dst_indices@, __e6 == 0, __i6 <= ndim, ndim == d.len(), inb(d, osh), result.shape@ == osh, pmax(osh) <= imax(), stride as int == suf(osh, __i6 as int), dst_idx as int + suf(osh, __i6 as int) * rmi(d.take(__i6 as int), osh.take(__i6 as int)) == rmi(d, osh), dst_idx >= 0
    decreases __i6
@before 6
    proof { assert(dst_indices@ =~= d); lemma_inb_box(d, osh); assert(d.take(__i6 as int) =~= d); assert(osh.take(__i6 as int) =~= osh); assert(1 * rmi(d, osh) == rmi(d, osh)); lemma_pmax(osh); }
@body 6
    proof {
        let n6 = __i6 as int; let (tt, ss) = (d.take(n6), osh.take(n6));
        lemma_inb_box(d, osh); lemma_pmax(osh); lemma_rmi_bound(d, osh); lemma_suf_le(osh, n6 - 1); lemma_suf_le(osh, n6);
        assert(tt.drop_last() =~= d.take(n6 - 1)); assert(ss.drop_last() =~= osh.take(n6 - 1));
        let q = rmi(d.take(n6 - 1), osh.take(n6 - 1)); let dd = osh[n6 - 1] as int; let x = d[n6 - 1] as int; let u = suf(osh, n6);
        assert(rmi(tt, ss) == q * dd + x); assert(suf(osh, n6 - 1) == dd * u);
        assert(u * (q * dd + x) == (dd * u) * q + x * u) by (nonlinear_arith);
        assert(inb(d.take(n6 - 1), osh.take(n6 - 1))) by { assert forall|i: int| 0 <= i < n6 - 1 implies (#[trigger] d.take(n6 - 1)[i]) < osh.take(n6 - 1)[i] by { assert(d[i] < osh[i]); } }
        lemma_rmi_bound(d.take(n6 - 1), osh.take(n6 - 1));
        assert((dd * u) * q >= 0 && x * u >= 0 && u * dd == dd * u) by (nonlinear_arith) requires dd >= 0, u >= 0, q >= 0, x >= 0;
    }
@after 6
    proof { assert(d.take(0) =~= Seq::<usize>::empty()); let z0 = suf(osh, 0); assert(z0 * 0 == 0) by (nonlinear_arith); }
@after 5
    proof { assert(cbase(A, t + 1) == cb + n); let mf = mem.v(); assert forall|q: int| 0 <= q < prod(osh) && #[trigger] key(q) < cbase(A, t + 1) implies chunk(mf[b], 0, q, z) == s[q] by { assert(chunk(mf[b], 0, q, z) == (if key(q) < cb + n { s[q] } else { chunk(ma[b], 0, q, z) })); } }
@after 4
    proof { let mf = mem.v(); assert forall|q: int| 0 <= q < prod(osh) implies #[trigger] chunk(mf[b], 0, q, z) == s[q] by { lemma_cat_pull(A, ax, q); assert(key(q) < cbase(A, L)); } assert(filled(mf, mf, b, s, z, prod(osh))); lemma_fill_done(result, m0, mf, mf, osh, dt, s); }

@raw
/// s with ones in front, n long
pub open spec fn lpad(s: Seq<usize>, n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| if i < n - s.len() { 1usize } else { s[i - (n - s.len())] }) }
pub open spec fn mxl(a: int, b: int) -> int { if b > a { b } else { a } }
pub open spec fn tshape(sh: Seq<usize>, reps: Seq<usize>) -> Seq<usize> { let n = mxl(sh.len() as int, reps.len() as int); Seq::new(n as nat, |i: int| (lpad(sh, n)[i] * lpad(reps, n)[i]) as usize) }
/// what position idx of a tiling shows
pub open spec fn m_tile(sh: Seq<usize>) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| Seq::new(sh.len(), |i: int| (idx[i + idx.len() - sh.len()] % sh[i]) as usize) }
pub open spec fn tile_fits(sh: Seq<usize>, reps: Seq<usize>) -> bool { let n = mxl(sh.len() as int, reps.len() as int); forall|i: int| 0 <= i < n ==> #[trigger] lpad(sh, n)[i] * lpad(reps, n)[i] <= imax() }
pub proof fn lemma_tile(sh: Seq<usize>, tsh: Seq<usize>, idx: Seq<usize>)
    requires nonempty(sh), inb(idx, tsh), tsh.len() >= sh.len() ensures inb(m_tile(sh)(idx), sh)
{ let g = m_tile(sh)(idx); assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] g[i]) < sh[i] by { assert(sh[i] > 0); } }
/// all repetitions one: the tiling is the array
pub proof fn lemma_tile_one(m: Map<int, Seq<u8>>, a: RumpyArray, reps: Seq<usize>)
    requires nonempty(a.shape@), reps.len() <= a.shape@.len(), forall|i: int| 0 <= i < reps.len() ==> #[trigger] reps[i] == 1
    ensures tshape(a.shape@, reps) == a.shape@, gath(m, a, a.shape@, m_tile(a.shape@)) == els(m, a)
{
    let sh = a.shape@; let n = sh.len() as int;
    assert(tshape(sh, reps) =~= sh) by { assert forall|i: int| 0 <= i < n implies tshape(sh, reps)[i] == sh[i] by { assert(lpad(reps, n)[i] == 1) by { if i >= n - reps.len() { assert(reps[i - (n - reps.len())] == 1); } } assert(lpad(sh, n)[i] == sh[i]); assert(sh[i] * 1 == sh[i]); } }
    assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] gath(m, a, sh, m_tile(sh))[k] == els(m, a)[k] by {
        let idx = unrmi(k, sh); lemma_unrmi_inb(k, sh);
        assert(m_tile(sh)(idx) =~= idx) by { assert forall|i: int| 0 <= i < n implies m_tile(sh)(idx)[i] == idx[i] by { assert(idx[i] < sh[i]); lemma_small_mod(idx[i] as nat, sh[i] as nat); } } }
    lemma_prod_pos(sh); assert(gath(m, a, sh, m_tile(sh)) =~= els(m, a));
}
/// element k of a tiled row is element k mod n
pub proof fn lemma_tile1(m: Map<int, Seq<u8>>, a: RumpyArray, tsh: Seq<usize>, k: int)
    requires wf(a), a.shape@.len() == 1, tsh.len() == 1, 0 <= k < prod(tsh), prod(a.shape@) >= 1
    ensures gath(m, a, tsh, m_tile(a.shape@))[k] == nth(m, a, k % prod(a.shape@)), prod(tsh) == tsh[0], prod(a.shape@) == a.shape@[0]
{
    let sh = a.shape@; reveal_with_fuel(prod, 2); assert(sh =~= seq![sh[0]]); assert(tsh =~= seq![tsh[0]]); assert(sh.drop_last() =~= Seq::<usize>::empty()); assert(tsh.drop_last() =~= Seq::<usize>::empty());
    assert(1 * (sh[0] as int) == sh[0] && 1 * (tsh[0] as int) == tsh[0]);
    let idx = unrmi(k, tsh); lemma_unrmi_inb(k, tsh); reveal_with_fuel(rmi, 2); assert(idx.drop_last() =~= Seq::<usize>::empty()); assert(0 * (tsh[0] as int) == 0); assert(idx[0] == k);
    let j = k % (sh[0] as int); lemma_mod_bound(k, sh[0] as int); let u = m_tile(sh)(idx); assert(u =~= seq![j as usize]); assert(inb(u, sh)); lemma_rmi_inv(u, sh); assert(u.drop_last() =~= Seq::<usize>::empty()); assert(0 * (sh[0] as int) == 0); assert(rmi(u, sh) == j);
}
pub proof fn lemma_row_tile(sh: Seq<usize>, reps: Seq<usize>)
    requires sh.len() == 1, reps.len() == 1, tile_fits(sh, reps) ensures prod(tshape(sh, reps)) == prod(sh) * reps[0], tshape(sh, reps).len() == 1
{
    let t = tshape(sh, reps); reveal_with_fuel(prod, 2); assert(sh.drop_last() =~= Seq::<usize>::empty()); assert(t.drop_last() =~= Seq::<usize>::empty()); assert(lpad(sh, 1)[0] * lpad(reps, 1)[0] <= imax());
    let (x, y) = (sh[0] as int, reps[0] as int); assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0; assert(t[0] == x * y); assert(1 * (sh[0] as int) == sh[0]); assert(1 * (t[0] as int) == t[0]);
}
@endraw

@fn src/array/manipulation.rs tile flags=ptrs memself mem=zeros,copy,copy_element rename=buffer_mut:vx_buffer
@props P12
@req
    arr_ok(old(mem).v(), *arr), nonempty(arr.shape@), tile_fits(arr.shape@, reps@), pmax(tshape(arr.shape@, reps@)) * isz(*arr) <= imax(),
@ens
    fresh(r, old(mem).v(), final(mem).v(), tshape(arr.shape@, reps@), arr.dtype), els(final(mem).v(), r) == gath(old(mem).v(), *arr, tshape(arr.shape@, reps@), m_tile(arr.shape@)),
@start
    let ghost m0 = mem.v(); let ghost z = isz(*arr); let ghost sh = arr.shape@; let ghost tsh = tshape(sh, reps@); let ghost N = prod(tsh); let ghost s = gath(m0, *arr, tsh, m_tile(sh)); let ghost MX = mxl(sh.len() as int, reps@.len() as int);
    proof { lemma_dt(arr.dtype); lemma_prod_pos(tsh); lemma_pmax(tsh); lemma_pmax_le(tsh, z); lemma_pmax_le(sh, z); lemma_pmax(sh); lemma_prod_pos(sh);
        assert(0 <= N * z && N * z <= pmax(tsh) * z) by (nonlinear_arith) requires 0 <= N <= pmax(tsh), z >= 1; }
@inv 0
    invariant_except_break __i0 <= reps@.len(), __v0, forall|i: int| 0 <= i < __i0 ==> #[trigger] reps@[i] == 1
    ensures __v0 == (forall|i: int| 0 <= i < reps@.len() ==> #[trigger] reps@[i] == 1),
    decreases reps@.len() - __i0
@at /return arr.copy/
    proof { lemma_tile_one(m0, *arr, reps@); }
@inv 1
    invariant __i1 <= reps@.len(), reps_len == reps@.len(), max_ndim == MX, MX == mxl(sh.len() as int, reps@.len() as int), full_reps@.len() == MX, forall|i: int| 0 <= i < MX ==> #[trigger] full_reps@[i] == (if i < MX - reps_len + __i1 { lpad(reps@, MX)[i] } else { 1usize })
    decreases reps@.len() - __i1
@inv 2
    invariant __i2 <= sh.len(), src_shape@ == sh, arr_ndim == sh.len(), max_ndim == MX, MX == mxl(sh.len() as int, reps@.len() as int), padded_shape@.len() == MX, forall|i: int| 0 <= i < MX ==> #[trigger] padded_shape@[i] == (if i < MX - arr_ndim + __i2 { lpad(sh, MX)[i] } else { 1usize })
    decreases sh.len() - __i2
@before 3
    proof { assert(padded_shape@ =~= lpad(sh, MX)); assert(full_reps@ =~= lpad(reps@, MX)); }
@inv 3
    invariant __i3 <= __l0, __l0 == MX, MX == mxl(sh.len() as int, reps@.len() as int), padded_shape@ == lpad(sh, MX), full_reps@ == lpad(reps@, MX), padded_shape@.len() == MX, full_reps@.len() == MX, tile_fits(sh, reps@), tsh == tshape(sh, reps@), __v3@.len() == __i3, forall|i: int| 0 <= i < __i3 ==> #[trigger] __v3@[i] == tsh[i]
    decreases __l0 - __i3
@body 3
    proof { let i = __i3 as int; assert(lpad(sh, MX)[i] * lpad(reps@, MX)[i] <= imax()); let (x, y) = (lpad(sh, MX)[i] as int, lpad(reps@, MX)[i] as int); assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0; }
@at /let mut result = RumpyArray/
    proof { assert(new_shape@ =~= tsh); }
@at /if arr_ndim == 1/
    let ghost mz = mem.v(); let ghost b = bid(result);
    proof { assert(mz[bid(*arr)] == m0[bid(*arr)]); assert forall|mm: Map<int, Seq<u8>>| #[trigger] filled(mz, mm, b, s, z, N) implies fresh(result, m0, mm, tsh, arr.dtype) && els(mm, result) == s by { lemma_fill_done(result, m0, mz, mm, tsh, arr.dtype, s); } }
@before 4
    let ghost n = prod(sh); let ghost R = reps@[0] as int;
    proof { assert(0 * n == 0); lemma_row_tile(sh, reps@); }
@inv 4
    invariant arr_ok(m0, *arr), nonempty(arr.shape@), z == isz(*arr), z >= 1, n == prod(sh), n >= 1, sh == arr.shape@, sh.len() == 1, arr.flags.c, R == reps@[0], __e4 == R, 0 <= __i4 <= __e4, tsh.len() == 1, N == prod(tsh), N == n * R, s == gath(m0, *arr, tsh, m_tile(sh)), fresh(result, m0, mz, tsh, arr.dtype), b == bid(result), mz[bid(*arr)] == m0[bid(*arr)], pb(dst_ptr) == b, po(dst_ptr) == 0, pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, nbytes == n * z, N * z == blen(b), N * z <= imax(), filled(mz, mem.v(), b, s, z, __i4 * n)
    decreases __e4 - __i4
@body 4
    let ghost i4 = __i4 as int; let ghost m1 = mem.v();
    proof {
        assert(i4 * n + n == (i4 + 1) * n && (i4 + 1) * n <= N && 0 <= i4 * n && i4 * (n * z) == (i4 * n) * z) by (nonlinear_arith) requires 0 <= i4 < R, N == n * R, n >= 1, z >= 1;
        lemma_flat(m0, *arr, 0); lemma_flat(m0, *arr, n - 1); assert((n - 1) * z + z == n * z && 0 <= n * z) by (nonlinear_arith) requires n >= 1, z >= 1; assert(0 * z == 0);
        lemma_block(m1[b], m1[bid(*arr)], i4 * n, arr.offset as int, n, N, z); assert(m1[bid(*arr)] == m0[bid(*arr)]);
        let m2 = m1.insert(b, bput(m1[b], i4 * n * z, get(m1[bid(*arr)], arr.offset as int, n * z)));
        assert(m2.dom() =~= mz.dom());
        assert forall|k: int| 0 <= k < (i4 + 1) * n implies #[trigger] chunk(m2[b], 0, k, z) == s[k] by {
            lemma_tile1(m0, *arr, tsh, k);
            if k >= i4 * n { let j = k - i4 * n; lemma_ij(i4, j, n); lemma_flat(m0, *arr, j); } else { assert(chunk(m1[b], 0, k, z) == s[k]); } }
    }
@after 4
    proof { assert(R * n == n * R) by (nonlinear_arith); }
@before 5
    proof { if N > 0 { lemma_zero_idx(dst_indices@, tsh); } }
@inv 5
    invariant arr_ok(m0, *arr), nonempty(arr.shape@), z == isz(*arr), z >= 1, sh == arr.shape@, arr_ndim == sh.len(), max_ndim == MX, MX == mxl(sh.len() as int, reps@.len() as int), tsh.len() == MX, padded_shape@ == lpad(sh, MX), padded_shape@.len() == MX, new_shape@ == tsh, pmax(tsh) <= imax(), N == prod(tsh), s == gath(m0, *arr, tsh, m_tile(sh)), fresh(result, m0, mz, tsh, arr.dtype), b == bid(result), mz[bid(*arr)] == m0[bid(*arr)], pb(dst_ptr) == b, po(dst_ptr) == 0, pb(src_ptr) == bid(*arr), po(src_ptr) == arr.offset, ops_dt(src_ops) == arr.dtype, N * z == blen(b), N * z <= imax(),
        dst_size == N, __e5 == N, 0 <= __i5 <= __e5, dst_indices@.len() == MX, __i5 < N ==> dst_indices@ == unrmi(__i5 as int, tsh), filled(mz, mem.v(), b, s, z, __i5 as int)
    decreases __e5 - __i5
@body 5
    let ghost k0 = __i5 as int; let ghost m1 = mem.v(); let ghost idx = dst_indices@; let ghost u = m_tile(sh)(idx);
    proof { lemma_step(k0, tsh); lemma_tile(sh, tsh, idx); lemma_inb_box(idx, tsh); lemma_inb_box(u, sh); lemma_acc(m0, *arr, u); assert(m1[bid(*arr)] == m0[bid(*arr)]); assert(elem(m1, *arr, u) == s[k0]); lemma_fill_step(mz, m1, b, s, z, k0, s[k0]);
        assert forall|i: int| 0 <= i < MX implies #[trigger] lpad(sh, MX)[i] > 0 by { if i >= MX - sh.len() { assert(sh[i - (MX - sh.len())] > 0); } } }
@end 5
    proof { if __i5 < N { assert(cyc(k0 + 1, N) == k0 + 1); assert(dst_indices@ =~= unrmi(__i5 as int, tsh)); } }
@inv 6
    invariant __i6 <= __l2, __l2 == MX, padded_shape@ == lpad(sh, MX), padded_shape@.len() == MX, dst_indices@ == idx, idx.len() == MX, forall|i: int| 0 <= i < MX ==> #[trigger] lpad(sh, MX)[i] > 0, __v6@.len() == __i6, forall|i: int| 0 <= i < __i6 ==> #[trigger] __v6@[i] == idx[i] as int % lpad(sh, MX)[i] as int
    decreases __l2 - __i6
@body 6
    proof { assert(lpad(sh, MX)[__i6 as int] > 0); }
@at /let src_byte_offset = /
    proof { assert(actual_src_indices@ =~= u) by { assert forall|i: int| 0 <= i < sh.len() implies actual_src_indices@[i] == u[i] by { assert(lpad(sh, MX)[i + MX - sh.len()] == sh[i]); } } }
