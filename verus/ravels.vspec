@unit ravels
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include viewmaps.rs
@include copymem.rs
@include gath.rs
@include dispmem.rs
@import movers RumpyArray::zeros

@raw
pub trait VxClamp: Sized { spec fn cv(self) -> int; fn vx_clamp(self, lo: Self, hi: Self) -> (r: Self) requires lo.cv() <= hi.cv() ensures r.cv() == (if self.cv() < lo.cv() { lo.cv() } else if self.cv() > hi.cv() { hi.cv() } else { self.cv() }); }
impl VxClamp for i64 { open spec fn cv(self) -> int { self as int } fn vx_clamp(self, lo: i64, hi: i64) -> (r: i64) { if self < lo { lo } else if self > hi { hi } else { self } } }
/// a coordinate along an axis of length n, as the mode takes it
pub open spec fn modi(x: int, n: int, mode: &str) -> Option<int> {
    if mode == "clip" { Some(if x < 0 { 0 } else if x > n - 1 { n - 1 } else { x }) } else if mode == "wrap" { Some(x % n) } else if 0 <= x < n { Some(x) } else { None }
}
/// weight of axis k: the elements its step skips, with the last (C) or the first (F) axis varying fastest
pub open spec fn wc(sh: Seq<usize>, k: int) -> int decreases sh.len() - k { if k < 0 || k >= sh.len() { 1 } else { sh[k] * wc(sh, k + 1) } }
pub open spec fn wf_(sh: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 1 } else { wf_(sh, k - 1) * sh[k - 1] } }
pub open spec fn wt(sh: Seq<usize>, f: bool, k: int) -> int { if f { wf_(sh, k) } else { wc(sh, k + 1) } }
/// flat index of column i of the coordinates, over the first n axes
pub open spec fn flat(mi: Seq<Vec<i64>>, sh: Seq<usize>, mode: &str, f: bool, i: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { flat(mi, sh, mode, f, i, n - 1) + modi(mi[n - 1]@[i] as int, sh[n - 1] as int, mode)->0 * wt(sh, f, n - 1) }
}
pub open spec fn col_ok(mi: Seq<Vec<i64>>, sh: Seq<usize>, mode: &str, i: int, n: int) -> bool { forall|d: int| 0 <= d < n ==> (#[trigger] modi(mi[d]@[i] as int, sh[d] as int, mode)) is Some }
pub open spec fn all_ok(mi: Seq<Vec<i64>>, sh: Seq<usize>, mode: &str) -> bool {
    mi.len() == sh.len() && (forall|d: int| 0 <= d < mi.len() ==> (#[trigger] mi[d])@.len() == mi[0]@.len()) && forall|i: int| 0 <= i < mi[0]@.len() ==> #[trigger] col_ok(mi, sh, mode, i, sh.len() as int)
}
pub proof fn lemma_wc(sh: Seq<usize>, k: int)
    requires nonempty(sh), 0 <= k <= sh.len() ensures 1 <= wc(sh, k) <= wc(sh, 0) decreases k
{ lemma_wc1(sh, k); if k > 0 { lemma_wc(sh, k - 1); assert(sh[k - 1] > 0); let (x, y) = (sh[k - 1] as int, wc(sh, k)); assert(y <= x * y) by (nonlinear_arith) requires x >= 1, y >= 1; } }
pub proof fn lemma_wc1(sh: Seq<usize>, k: int)
    requires nonempty(sh), 0 <= k <= sh.len() ensures 1 <= wc(sh, k) decreases sh.len() - k
{ if k < sh.len() { lemma_wc1(sh, k + 1); assert(sh[k] > 0); let (x, y) = (sh[k] as int, wc(sh, k + 1)); assert(1 <= x * y) by (nonlinear_arith) requires x >= 1, y >= 1; } }
pub proof fn lemma_wf(sh: Seq<usize>, k: int)
    requires nonempty(sh), 0 <= k <= sh.len() ensures 1 <= wf_(sh, k) <= wf_(sh, sh.len() as int) decreases sh.len() - k
{ lemma_wf1(sh, k); if k < sh.len() { lemma_wf(sh, k + 1); assert(sh[k] > 0); let (x, y) = (sh[k] as int, wf_(sh, k)); assert(y <= y * x) by (nonlinear_arith) requires x >= 1, y >= 1; } }
pub proof fn lemma_wf1(sh: Seq<usize>, k: int)
    requires nonempty(sh), 0 <= k <= sh.len() ensures 1 <= wf_(sh, k) decreases k
{ if k > 0 { lemma_wf1(sh, k - 1); assert(sh[k - 1] > 0); let (x, y) = (sh[k - 1] as int, wf_(sh, k - 1)); assert(1 <= y * x) by (nonlinear_arith) requires x >= 1, y >= 1; } }
/// the partial sums stay within the size
pub open spec fn top(sh: Seq<usize>, f: bool, k: int) -> int { if f { wf_(sh, k) - 1 } else { wc(sh, 0) - wc(sh, k) } }
pub proof fn lemma_fl(mi: Seq<Vec<i64>>, sh: Seq<usize>, mode: &str, f: bool, i: int, n: int)
    requires nonempty(sh), 0 <= n <= sh.len(), col_ok(mi, sh, mode, i, n) ensures 0 <= flat(mi, sh, mode, f, i, n) <= top(sh, f, n) decreases n
{
    if n > 0 { lemma_fl(mi, sh, mode, f, i, n - 1); let d = n - 1; assert(sh[d] > 0); lemma_wc1(sh, n); lemma_wf1(sh, d);
        let o = modi(mi[d]@[i] as int, sh[d] as int, mode); assert(o is Some); let x = o->0; let s = sh[d] as int; let w = wt(sh, f, d);
        lemma_mod_bound(mi[d]@[i] as int, s); assert(0 <= x < s); assert(0 <= x * w && x * w + w <= s * w) by (nonlinear_arith) requires 0 <= x < s, w >= 1;
        if f { assert(wf_(sh, n) == w * s); assert(w * s == s * w) by (nonlinear_arith); } else { assert(wc(sh, d) == s * w); } }
}
@endraw

@fn src/ops/indexing.rs ravel_multi_index flags=ptrs memself mem=zeros rename=buffer_mut:vx_buffer,clamp:vx_clamp
@props P13
@req
    shape@.len() >= 1, nonempty(shape@), wc(shape@, 0) <= imax(), wf_(shape@, shape@.len() as int) <= imax(), forall|d: int| 0 <= d < multi_index@.len() ==> (#[trigger] multi_index@[d])@.len() * 8 <= imax(),
@ens
    r is Some <==> all_ok(multi_index@, shape@, mode),
    r is Some ==> fresh(r->0, old(mem).v(), final(mem).v(), seq![multi_index@[0]@.len() as usize], dt_i64())
        && tvs::<i64>(final(mem).v(), r->0) == Seq::new(multi_index@[0]@.len(), |i: int| flat(multi_index@, shape@, mode, order == 'F', i, shape@.len() as int) as i64),
@start
    let ghost m0 = mem.v(); let ghost sh = shape@; let ghost mi = multi_index@; let ghost nd = sh.len() as int; let ghost f = order == 'F'; let ghost full: Seq<i64> = Seq::new(mi[0]@.len(), |i: int| flat(mi, sh, mode, f, i, nd) as i64);
    proof { lemma_pod(); }
@inv 0
    invariant __i0 <= multi_index@.len(), mi == multi_index@, mi.len() == sh.len(), n == mi[0]@.len(), forall|d: int| 0 <= d < __i0 ==> (#[trigger] mi[d])@.len() == n
    decreases multi_index@.len() - __i0
@inv 1
    invariant 1 <= __i1 <= __e1, __e1 == nd, ndim == nd, nd == sh.len(), sh == shape@, nonempty(sh), wf_(sh, nd) <= imax(), s@.len() == nd, forall|k: int| 0 <= k < __i1 ==> (#[trigger] s@[k]) as int == wf_(sh, k)
    decreases __e1 - __i1
@body 1
    proof { lemma_wf(sh, __i1 as int); assert(s@[__i1 - 1] as int == wf_(sh, __i1 - 1)); }
@inv 2
    invariant __e2 == 0, 0 <= __i2 <= nd - 1, nd == sh.len(), sh == shape@, nonempty(sh), wc(sh, 0) <= imax(), s@.len() == nd, forall|k: int| __i2 <= k < nd ==> (#[trigger] s@[k]) as int == wc(sh, k + 1)
    decreases __i2
@body 2
    proof { let k = __i2 as int; lemma_wc(sh, k); assert(s@[k] as int == wc(sh, k + 1)); assert(wc(sh, k) == sh[k] * wc(sh, k + 1)); assert(wc(sh, k + 1) * sh[k] == sh[k] * wc(sh, k + 1)) by (nonlinear_arith); }
@at /let mut result = RumpyArray/
    proof { assert(forall|k: int| 0 <= k < nd ==> (#[trigger] strides@[k]) as int == wt(sh, f, k)); assert(mi[0]@.len() == n); lemma_row1(n as int, 8); }
@at /let result_buffer/
    let ghost mz = mem.v();
    proof { lemma_wrote0::<i64>(mz, bid(result), 0); assert(full.take(0) =~= Seq::<i64>::empty()); assert(result.shape@ =~= seq![n]); assert(isz(result) == 8); }
@inv 3
    invariant 0 <= __i3 <= __e3, __e3 == n, mi == multi_index@, mi.len() == nd, nd == sh.len(), ndim == nd, nd >= 1, sh == shape@, nonempty(sh), n == mi[0]@.len(), n * 8 <= imax(), forall|d: int| 0 <= d < nd ==> (#[trigger] mi[d])@.len() == n, strides@.len() == nd, forall|k: int| 0 <= k < nd ==> (#[trigger] strides@[k]) as int == wt(sh, f, k), wc(sh, 0) <= imax(), wf_(sh, nd) <= imax(),
        full == Seq::new(n as nat, |i: int| flat(mi, sh, mode, f, i, nd) as i64), fresh(result, m0, mz, seq![n], dt_i64()), prod(result.shape@) == n, tsz::<i64>() == 8, isz(result) == 8, blen(bid(result)) == n * 8, tb(result_ptr) == bid(result), to(result_ptr) == 0,
        forall|i: int| 0 <= i < __i3 ==> #[trigger] col_ok(mi, sh, mode, i, nd), wrote(mz, mem.v(), bid(result), 0, full.take(__i3 as int))
    decreases __e3 - __i3
@body 3
    let ghost i0 = __i3 as int;
    proof { lemma_chunk_bound(i0, n as int, 8); }
@inv 4
    invariant 0 <= __i4 <= __e4, __e4 == nd, i == i0, 0 <= i0 < n, mi == multi_index@, mi.len() == nd, nd == sh.len(), sh == shape@, nonempty(sh), forall|d: int| 0 <= d < nd ==> (#[trigger] mi[d])@.len() == n, n == mi[0]@.len(), strides@.len() == nd, forall|k: int| 0 <= k < nd ==> (#[trigger] strides@[k]) as int == wt(sh, f, k), wc(sh, 0) <= imax(), wf_(sh, nd) <= imax(),
        col_ok(mi, sh, mode, i0, __i4 as int), flat_idx as int == flat(mi, sh, mode, f, i0, __i4 as int), 0 <= flat_idx <= top(sh, f, __i4 as int)
    decreases __e4 - __i4
@body 4
    let ghost dd = __i4 as int; let ghost x0 = mi[dd]@[i0] as int; let ghost w = wt(sh, f, dd); let ghost sz = sh[dd] as int;
    proof { assert(mi[dd]@.len() == n); assert(sh[dd] > 0); lemma_wc(sh, dd); lemma_wc(sh, dd + 1); lemma_wf(sh, dd); lemma_wf(sh, dd + 1); assert(strides@[dd] as int == w);
        if f { assert(wf_(sh, dd + 1) == w * sz); assert(w * sz == sz * w) by (nonlinear_arith); } else { assert(wc(sh, dd) == sz * w); }
        assert(sz <= sz * w) by (nonlinear_arith) requires sz >= 1, w >= 1; assert(sz <= imax());
        assert(modi(x0, sz, mode) is None ==> !col_ok(mi, sh, mode, i0, nd)); }
@at /flat_idx = flat_idx/
    proof { lemma_mod_bound(x0, sz); assert(modi(x0, sz, mode) == Some(idx as int)); assert(0 <= idx < sz); let (p, q) = (idx as int, w); assert(0 <= p * q && p * q + q <= sz * q) by (nonlinear_arith) requires 0 <= p < sz, q >= 1;
        assert(col_ok(mi, sh, mode, i0, dd + 1)); lemma_fl(mi, sh, mode, f, i0, dd + 1); }
@at /let __w0 = flat_idx/
    proof { lemma_wrote_step::<i64>(mz, mem.v(), bid(result), 0, full.take(i0), full[i0], n as int); assert(full.take(i0).push(full[i0]) =~= full.take(i0 + 1)); assert(full[i0] == flat_idx); }
@at /^Some.result/
    proof { assert(full.take(n as int) =~= full); lemma_done::<i64>(result, m0, mz, mem.v(), result.shape@, dt_i64(), full); }
