// memory of arrays
pub open spec fn mok(m: Map<int, Seq<u8>>, a: RumpyArray) -> bool { live(m, bid(a)) }
/// its first element, if any, is in the buffer; without one the offset is
pub open spec fn ptr_ok(a: RumpyArray) -> bool { nonempty(a.shape@) || a.offset <= blen(bid(a)) }
/// bytes of the element at idx
pub open spec fn elem(m: Map<int, Seq<u8>>, a: RumpyArray, idx: Seq<usize>) -> Seq<u8> { get(m[bid(a)], addr(a, idx), isz(a)) }
/// the n-th element in row-major order
pub open spec fn nth(m: Map<int, Seq<u8>>, a: RumpyArray, n: int) -> Seq<u8> { elem(m, a, unrmi(n, a.shape@)) }
/// C-order array at the start of its buffer, which holds exactly its elements
pub open spec fn packed(r: RumpyArray) -> bool {
    wf(r) && r.offset == 0 && r.flags.c && is_cstr(r.shape@, r.strides@, isz(r)) && blen(bid(r)) == prod(r.shape@) * isz(r)
}
/// r lives in a buffer that did not exist before, and nothing else changed
pub open spec fn is_new(r: RumpyArray, m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>) -> bool {
    wf(r) && mok(m1, r) && !m0.dom().contains(bid(r)) && frame(m0, m1)
}
pub open spec fn fresh(r: RumpyArray, m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, sh: Seq<usize>, dt: DType) -> bool {
    is_new(r, m0, m1) && packed(r) && r.shape@ == sh && r.dtype == dt
}
// C-ordered strides of a padded box span at most the padded size
pub proof fn lemma_cstr_span(sh: Seq<usize>, st: Seq<isize>, size: int, n: int)
    requires sh.len() == st.len(), is_cstr(sh, st, size), 0 <= n <= sh.len(), size >= 1
    ensures ext_lo(sh, st, n) == 0, 0 <= ext_hi(sh, st, n) <= size * (pmax(sh) - sufm(sh, n))
    decreases n
{
    if n > 0 {
        lemma_cstr_span(sh, st, size, n - 1);
        lemma_suf_le(sh, n); lemma_suf_le(sh, n - 1);
        let m = max1(sh[n - 1]); let s = suf(sh, n); let w = sufm(sh, n);
        assert(st[n - 1] as int == size * suf(sh, n - 1 + 1));
        assert(0 <= size * s <= size * w) by (nonlinear_arith) requires 0 <= s <= w, size >= 1;
        assert(0 <= (m - 1) * (size * s) <= (m - 1) * (size * w)) by (nonlinear_arith) requires 0 <= size * s <= size * w, m >= 1;
        assert((m - 1) * (size * w) == size * (m * w) - size * w) by (nonlinear_arith);
        assert(size * (pmax(sh) - m * w) + (size * (m * w) - size * w) == size * (pmax(sh) - w)) by (nonlinear_arith);
        lemma_span_sign(sh[n - 1], st[n - 1]);
        assert(sufm(sh, n - 1) == m * w);
        if st[n - 1] == 0 { assert(0 * (m - 1) == 0); }
    } else { lemma_sufm_split(sh, 0); assert(sh.take(0) =~= Seq::<usize>::empty()); assert(size * 0 == 0); assert(pmax(sh.take(0)) == 1); assert(1 * sufm(sh, 0) == sufm(sh, 0)); }
}
pub proof fn lemma_packed_wf(r: RumpyArray)
    requires r.offset == 0, r.strides@.len() == r.shape@.len(), is_cstr(r.shape@, r.strides@, isz(r)), !r.flags.f, 1 <= isz(r) <= 0x1_0000_0000,
        pmax(r.shape@) * isz(r) <= imax(), blen(bid(r)) == prod(r.shape@) * isz(r)
    ensures wf(r)
{
    let (sh, st, z) = (r.shape@, r.strides@, isz(r)); let n = sh.len() as int;
    lemma_cstr_span(sh, st, z, n); lemma_pmax(sh); lemma_sufm_split(sh, n);
    assert(sufm(sh, n) == 1);
    assert(z * (pmax(sh) - 1) == pmax(sh) * z - z) by (nonlinear_arith);
    assert(prod(sh) * z <= pmax(sh) * z) by (nonlinear_arith) requires prod(sh) <= pmax(sh), z >= 1;
    if nonempty(sh) { assert(prod(sh) == pmax(sh)); }
}
/// the element at idx of a packed array is chunk rmi(idx)
pub proof fn lemma_packed(m: Map<int, Seq<u8>>, r: RumpyArray, idx: Seq<usize>)
    requires packed(r), inb(idx, r.shape@)
    ensures addr(r, idx) == rmi(idx, r.shape@) * isz(r), elem(m, r, idx) == chunk(m[bid(r)], 0, rmi(idx, r.shape@), isz(r)), 0 <= rmi(idx, r.shape@) < prod(r.shape@)
{ lemma_addr_c(r, idx); lemma_rmi_bound(idx, r.shape@);
  assert(isz(r) * rmi(idx, r.shape@) == rmi(idx, r.shape@) * isz(r)) by (nonlinear_arith); }
pub proof fn lemma_acc(m: Map<int, Seq<u8>>, a: RumpyArray, idx: Seq<usize>)
    requires wf(a), mok(m, a), inb(idx, a.shape@)
    ensures acc(m, bid(a), addr(a, idx), isz(a)), nonempty(a.shape@)
{ lemma_addr_ok(a, idx); lemma_inb_box(idx, a.shape@); }
/// row-major counter: the successor of index k, wrapping at the end
pub open spec fn cyc(k: int, n: int) -> int { if k < n { k } else { 0 } }
pub proof fn lemma_step(k: int, sh: Seq<usize>)
    requires 0 <= k < prod(sh)
    ensures inb(unrmi(k, sh), sh), rmi(unrmi(k, sh), sh) == k, next_idx(unrmi(k, sh), sh) =~= unrmi(cyc(k + 1, prod(sh)), sh), inb(unrmi(cyc(k + 1, prod(sh)), sh), sh)
{
    lemma_unrmi_inb(k, sh); lemma_next(unrmi(k, sh), sh); lemma_unrmi_inb(cyc(k + 1, prod(sh)), sh);
    lemma_rmi_inv(next_idx(unrmi(k, sh), sh), sh);
}
pub proof fn lemma_prod_pos(sh: Seq<usize>)
    ensures prod(sh) > 0 <==> nonempty(sh), prod(sh) >= 0
{ lemma_pmax(sh); }
/// what copy_element to a packed result does
pub proof fn lemma_write(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, r: RumpyArray, k: int, v: Seq<u8>)
    requires packed(r), mok(m0, r), 0 <= k < prod(r.shape@), v.len() == isz(r), m1 == m0.insert(bid(r), bput(m0[bid(r)], k * isz(r), v))
    ensures mok(m1, r), chunk(m1[bid(r)], 0, k, isz(r)) == v, 0 <= k * isz(r), k * isz(r) + isz(r) <= blen(bid(r)),
        forall|j: int| 0 <= j < prod(r.shape@) && j != k ==> #[trigger] chunk(m1[bid(r)], 0, j, isz(r)) == chunk(m0[bid(r)], 0, j, isz(r)),
        forall|b: int| b != bid(r) && #[trigger] m0.dom().contains(b) ==> m1.dom().contains(b) && m1[b] == m0[b]
{ lemma_put_chunk(m0[bid(r)], 0, k, prod(r.shape@), isz(r), v); lemma_chunk_bound(k, prod(r.shape@), isz(r)); }
pub open spec fn ix1(k: int) -> Seq<usize> { seq![k as usize] }
pub proof fn lemma_row1(n: int, sz: int)
    requires 0 <= n <= imax() ensures prod(seq![n as usize]) == n, pmax(seq![n as usize]) == (if n == 0 { 1 } else { n }),
        forall|k: int| 0 <= k < n ==> inb(#[trigger] ix1(k), seq![n as usize]) && rmi(ix1(k), seq![n as usize]) == k
{
    let s = seq![n as usize];
    assert(s.drop_last() =~= Seq::<usize>::empty());
    assert(prod(s.drop_last()) == 1 && pmax(s.drop_last()) == 1);
    assert(1 * (s.last() as int) == n);
    assert(1 * max1(s.last()) == max1(s.last()));
    assert forall|k: int| 0 <= k < n implies inb(#[trigger] ix1(k), s) && rmi(ix1(k), s) == k by {
        let i = ix1(k); assert(i.drop_last() =~= Seq::<usize>::empty()); assert(rmi(i.drop_last(), s.drop_last()) == 0); assert(0 * (s.last() as int) == 0);
    }
}
