// index arrays: their values and what they select
pub open spec fn norm(i: i64, n: int) -> int { if i < 0 { i + n } else { i as int } }
/// the k-th value of an index array
pub open spec fn ival(m: Map<int, Seq<u8>>, x: RumpyArray, k: int) -> i64 { match as_i64(x.dtype, nth(m, x, k)) { Some(v) => v, None => 0 } }
pub open spec fn ivals(m: Map<int, Seq<u8>>, x: RumpyArray, n: int) -> Seq<usize> { Seq::new(prod(x.shape@) as nat, |k: int| norm(ival(m, x, k), n) as usize) }
pub open spec fn in_range(m: Map<int, Seq<u8>>, x: RumpyArray, n: int) -> bool { forall|k: int| 0 <= k < prod(x.shape@) ==> -n <= #[trigger] ival(m, x, k) < n }
pub proof fn lemma_ival_keep(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, x: RumpyArray, n: int)
    requires m1[bid(x)] == m0[bid(x)] ensures ivals(m1, x, n) == ivals(m0, x, n), in_range(m1, x, n) == in_range(m0, x, n), forall|k: int| #[trigger] ival(m1, x, k) == ival(m0, x, k)
{ assert forall|k: int| #[trigger] ival(m1, x, k) == ival(m0, x, k) by { assert(nth(m1, x, k) == nth(m0, x, k)); }
  if in_range(m0, x, n) { assert forall|k: int| 0 <= k < prod(x.shape@) implies -n <= #[trigger] ival(m1, x, k) < n by { assert(ival(m1, x, k) == ival(m0, x, k)); } }
  if in_range(m1, x, n) { assert forall|k: int| 0 <= k < prod(x.shape@) implies -n <= #[trigger] ival(m0, x, k) < n by { assert(ival(m1, x, k) == ival(m0, x, k)); } }
  assert(ivals(m1, x, n) =~= ivals(m0, x, n)); }
/// the element of the lane named by the index array
pub open spec fn m_along(m: Map<int, Seq<u8>>, x: RumpyArray, ax: int, n: int) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.update(ax, norm(ival(m, x, rmi(idx, x.shape@)), n) as usize) }
/// same shape but for one axis
pub open spec fn lanes(a: Seq<usize>, x: Seq<usize>, ax: int) -> bool { 0 <= ax < a.len() && a.len() == x.len() && forall|i: int| 0 <= i < a.len() && i != ax ==> #[trigger] a[i] == x[i] }
