// Gathering elements into a packed result, shared by the units that move elements.
impl RumpyArray {
    pub fn vx_buffer(&self) -> (r: &Arc<ArrayBuffer>) ensures *r == self.buffer { &self.buffer }
}
pub proof fn lemma_cstr_al(a: RumpyArray)
    requires is_cstr(a.shape@, a.strides@, isz(a)), a.strides@.len() == a.shape@.len(), isz(a) >= 1 ensures aligned(a)
{ assert forall|i: int| 0 <= i < a.strides@.len() implies (#[trigger] a.strides@[i]) as int % isz(a) == 0 by { let q = suf(a.shape@, i + 1); assert(a.strides@[i] as int == isz(a) * q); assert(isz(a) * q == q * isz(a)) by (nonlinear_arith); lemma_fundamental_div_mod_converse(a.strides@[i] as int, isz(a), q, 0); } }
/// same elements, in row-major order, in another shape
pub open spec fn reshaped(r: RumpyArray, a: RumpyArray, sh: Seq<usize>, m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>) -> bool {
    wf(r) && mok(m1, r) && r.shape@ == sh && r.dtype == a.dtype && is_cstr(sh, r.strides@, isz(r)) && aligned(r) && frame(m0, m1) && els(m1, r) == els(m0, a)
        && (a.flags.c ==> m1 == m0 && is_view(r, a, m_reshape(sh, a.shape@))) && (!a.flags.c ==> !m0.dom().contains(bid(r))) && r.offset == (if a.flags.c { a.offset as int } else { 0 })
}
/// a block of l elements written at element o
pub proof fn lemma_block(s: Seq<u8>, t: Seq<u8>, o: int, q: int, l: int, n: int, z: int)
    requires 0 <= o, 0 <= l, o + l <= n, n * z <= s.len(), 0 <= q, q + l * z <= t.len(), z >= 1
    ensures ({ let u = bput(s, o * z, get(t, q, l * z)); 0 <= o * z && o * z + l * z <= n * z && l * z >= 0 && get(t, q, l * z).len() == l * z && u.len() == s.len()
        && forall|k: int| 0 <= k < n ==> #[trigger] chunk(u, 0, k, z) == (if o <= k < o + l { get(t, q + (k - o) * z, z) } else { chunk(s, 0, k, z) }) })
{
    assert(0 <= o * z && o * z + l * z <= n * z && l * z >= 0) by (nonlinear_arith) requires 0 <= o, 0 <= l, o + l <= n, z >= 1;
    let v = get(t, q, l * z); let u = bput(s, o * z, v);
    assert forall|k: int| 0 <= k < n implies #[trigger] chunk(u, 0, k, z) == (if o <= k < o + l { get(t, q + (k - o) * z, z) } else { chunk(s, 0, k, z) }) by {
        assert(0 <= k * z && k * z + z <= n * z) by (nonlinear_arith) requires 0 <= k < n, z >= 1;
        if o <= k && k < o + l {
            let j = k - o;
            assert(k * z == o * z + j * z && 0 <= j * z && j * z + z <= l * z) by (nonlinear_arith) requires k == o + j, 0 <= j < l, z >= 1;
            assert(chunk(u, 0, k, z) =~= get(t, q + (k - o) * z, z));
        } else {
            if k < o { assert(k * z + z <= o * z) by (nonlinear_arith) requires k < o, z >= 1; } else { assert(k * z >= o * z + l * z) by (nonlinear_arith) requires k >= o + l, z >= 1; }
            lemma_put(s, o * z, v, k * z, z);
        }
    }
}
/// element k of a C-strided array stands k elements after the first
pub proof fn lemma_flat(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires wf(a), mok(m, a), is_cord(a.shape@, a.strides@, isz(a)), 0 <= k < prod(a.shape@)
    ensures nth(m, a, k) == get(m[bid(a)], a.offset + k * isz(a), isz(a)), 0 <= a.offset + k * isz(a), a.offset + k * isz(a) + isz(a) <= blen(bid(a)), nonempty(a.shape@)
{
    let idx = unrmi(k, a.shape@); lemma_unrmi_inb(k, a.shape@); lemma_cord_dot(idx, a.shape@, a.strides@, isz(a)); lemma_acc(m, a, idx);
    assert(isz(a) * k == k * isz(a)) by (nonlinear_arith);
}
/// the elements of a, taken where f sends the positions of a result of shape sh
pub open spec fn gath(m: Map<int, Seq<u8>>, a: RumpyArray, sh: Seq<usize>, f: spec_fn(Seq<usize>) -> Seq<usize>) -> Seq<Seq<u8>> { Seq::new(prod(sh) as nat, |k: int| elem(m, a, f(unrmi(k, sh)))) }
pub open spec fn nax(ax: isize, n: int) -> int { if ax < 0 { n + ax } else { ax as int } }
pub proof fn lemma_pmax_axis(sh: Seq<usize>, ax: int, v: usize, c: int)
    requires 0 <= ax < sh.len(), c >= 1, v <= max1(sh[ax]) * c ensures pmax(sh.update(ax, v)) <= pmax(sh) * c, pmax(sh.update(ax, v)) >= 1
    decreases sh.len()
{
    let u = sh.update(ax, v); let l = sh.len() - 1; lemma_pmax(sh); lemma_pmax(u); lemma_pmax(sh.drop_last());
    let a = pmax(sh.drop_last()); let b = max1(sh.last());
    if ax == l {
        assert(u.drop_last() =~= sh.drop_last()); let w = max1(v);
        assert(w <= b * c) by (nonlinear_arith) requires w == (if v == 0 { 1int } else { v as int }), v <= b * c, b >= 1, c >= 1;
        assert(a * w <= a * b * c) by (nonlinear_arith) requires w <= b * c, a >= 1;
    } else {
        assert(u.drop_last() =~= sh.drop_last().update(ax, v)); lemma_pmax_axis(sh.drop_last(), ax, v, c);
        let w = pmax(u.drop_last());
        assert(w * b <= a * b * c) by (nonlinear_arith) requires w <= a * c, b >= 1;
    }
}

// Row-major counters advanced in place, from the last axis.
/// the loop has reset the axes from n on
pub open spec fn inc_inv(cur: Seq<usize>, o: Seq<usize>, sh: Seq<usize>, n: int) -> bool {
    cur.len() == o.len() && 0 <= n <= cur.len() && inb(o, sh) && (forall|k: int| 0 <= k < n ==> cur[k] == o[k]) && (forall|k: int| n <= k < cur.len() ==> cur[k] == 0)
        && next_idx(o, sh) == next_idx(o.take(n), sh.take(n)) + cur.skip(n)
}
pub proof fn lemma_inc0(o: Seq<usize>, sh: Seq<usize>)
    requires inb(o, sh) ensures inc_inv(o, o, sh, o.len() as int)
{ let n = o.len() as int; assert(o.take(n) =~= o); assert(sh.take(n) =~= sh); assert(o.skip(n) =~= Seq::<usize>::empty()); assert(next_idx(o, sh) + Seq::<usize>::empty() =~= next_idx(o, sh)); }
pub proof fn lemma_inc(cur: Seq<usize>, o: Seq<usize>, sh: Seq<usize>, n: int)
    requires inc_inv(cur, o, sh, n)
    ensures n == 0 ==> next_idx(o, sh) == cur, n > 0 ==> cur[n - 1] == o[n - 1] && o[n - 1] < sh[n - 1],
        n > 0 && o[n - 1] + 1 < sh[n - 1] ==> next_idx(o, sh) == cur.update(n - 1, (o[n - 1] + 1) as usize),
        n > 0 && o[n - 1] + 1 >= sh[n - 1] ==> inc_inv(cur.update(n - 1, 0), o, sh, n - 1)
{
    if n == 0 { assert(cur.skip(0) =~= cur); assert(o.take(0) =~= Seq::<usize>::empty()); assert(Seq::<usize>::empty() + cur =~= cur); return; }
    let t = o.take(n); let s = sh.take(n);
    assert(t.drop_last() =~= o.take(n - 1)); assert(s.drop_last() =~= sh.take(n - 1)); assert(t.last() == o[n - 1]); assert(s.last() == sh[n - 1]); assert(o[n - 1] < sh[n - 1]);
    let nx = next_idx(t, s);
    if o[n - 1] + 1 < sh[n - 1] { assert(nx == o.take(n - 1).push((o[n - 1] + 1) as usize)); assert(nx + cur.skip(n) =~= cur.update(n - 1, (o[n - 1] + 1) as usize)); }
    else {
        let c2 = cur.update(n - 1, 0); lemma_next_len(o.take(n - 1), sh.take(n - 1));
        assert(nx == next_idx(o.take(n - 1), sh.take(n - 1)).push(0)); assert(c2.skip(n - 1) =~= seq![0usize] + cur.skip(n));
        assert(next_idx(o.take(n - 1), sh.take(n - 1)).push(0) + cur.skip(n) =~= next_idx(o.take(n - 1), sh.take(n - 1)) + c2.skip(n - 1));
    }
}
/// one term of the offset of idx fits, and so does the sum so far
pub proof fn lemma_dot_step(a: RumpyArray, idx: Seq<usize>, n: int)
    requires wf(a), inbox(idx, a.shape@), 0 <= n < idx.len()
    ensures ({ let t = idx[n] * a.strides@[n]; &&& idx[n] <= imax() &&& -imax() <= t <= imax() &&& -imax() <= dot(idx, a.strides@, n) + t <= imax() &&& dot(idx, a.strides@, n + 1) == dot(idx, a.strides@, n) + t })
{
    let N = idx.len() as int;
    lemma_dot_range(idx, a.shape@, a.strides@, n); lemma_dot_range(idx, a.shape@, a.strides@, n + 1);
    lemma_ext_mono(a.shape@, a.strides@, n, N); lemma_ext_mono(a.shape@, a.strides@, n + 1, N); lemma_ext_mono(a.shape@, a.strides@, 0, N);
    lemma_term_range(idx[n], a.shape@[n], a.strides@[n]); lemma_ext_axis(a.shape@, a.strides@, n, N);
    lemma_dim_le(a.shape@, dt_size(a.dtype), n);
}
