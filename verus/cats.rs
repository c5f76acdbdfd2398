// Joining arrays along an axis: what the result shows where.
pub open spec fn arr_ok(m: Map<int, Seq<u8>>, a: RumpyArray) -> bool { wf(a) && mok(m, a) && aligned(a) && ptr_ok(a) }
pub uninterp spec fn promo(a: DType, b: DType) -> DType;
/// the common type of the first n arrays
pub open spec fn cdtype(s: Seq<RumpyArray>, n: int) -> DType decreases n { if n <= 1 { s[0].dtype } else { promo(cdtype(s, n - 1), s[n - 1].dtype) } }
/// length along ax of the first n arrays together
pub open spec fn clen(s: Seq<RumpyArray>, ax: int, n: int) -> int decreases n { if n <= 0 { 0 } else { clen(s, ax, n - 1) + s[n - 1].shape@[ax] } }
/// how many elements the first n arrays have
pub open spec fn cbase(s: Seq<RumpyArray>, n: int) -> int decreases n { if n <= 0 { 0 } else { cbase(s, n - 1) + prod(s[n - 1].shape@) } }
/// the array that position v along ax comes from
pub open spec fn own(s: Seq<RumpyArray>, ax: int, v: int, n: int) -> int decreases n { if n <= 1 { 0 } else if clen(s, ax, n - 1) <= v { n - 1 } else { own(s, ax, v, n - 1) } }
/// same shape except along ax
pub open spec fn like(a: Seq<usize>, b: Seq<usize>, ax: int) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() && i != ax ==> #[trigger] a[i] == b[i] }
pub open spec fn compat(s: Seq<RumpyArray>, ax: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> like(s[0].shape@, (#[trigger] s[i]).shape@, ax) }
pub open spec fn cshape(s: Seq<RumpyArray>, ax: int) -> Seq<usize> { s[0].shape@.update(ax, clen(s, ax, s.len() as int) as usize) }
pub open spec fn cown(s: Seq<RumpyArray>, ax: int, idx: Seq<usize>) -> int { own(s, ax, idx[ax] as int, s.len() as int) }
pub open spec fn csrc(s: Seq<RumpyArray>, ax: int, idx: Seq<usize>) -> Seq<usize> { idx.update(ax, (idx[ax] - clen(s, ax, cown(s, ax, idx))) as usize) }
pub open spec fn catd(m: Map<int, Seq<u8>>, s: Seq<RumpyArray>, ax: int, dt: DType) -> Seq<Seq<u8>> {
    Seq::new(prod(cshape(s, ax)) as nat, |q: int| { let i = unrmi(q, cshape(s, ax)); let a = s[cown(s, ax, i)]; conv(a.dtype, dt, elem(m, a, csrc(s, ax, i))) })
}
pub open spec fn k_cat(s: Seq<RumpyArray>, ax: int) -> spec_fn(int) -> int { |q: int| { let i = unrmi(q, cshape(s, ax)); let t = cown(s, ax, i); cbase(s, t) + rmi(csrc(s, ax, i), s[t].shape@) } }
pub proof fn lemma_clen(s: Seq<RumpyArray>, ax: int, a: int, b: int) requires 0 <= a <= b ensures clen(s, ax, a) <= clen(s, ax, b), 0 <= clen(s, ax, a) decreases b
{ if a < b { lemma_clen(s, ax, a, b - 1); } else if a > 0 { lemma_clen(s, ax, a - 1, a - 1); } }
pub proof fn lemma_cbase(s: Seq<RumpyArray>, a: int, b: int) requires 0 <= a <= b ensures cbase(s, a) <= cbase(s, b), 0 <= cbase(s, a) decreases b
{ if a < b { lemma_cbase(s, a, b - 1); lemma_prod_pos(s[b - 1].shape@); } else if a > 0 { lemma_cbase(s, a - 1, a - 1); lemma_prod_pos(s[a - 1].shape@); } }
pub proof fn lemma_own(s: Seq<RumpyArray>, ax: int, v: int, n: int) requires 1 <= n, 0 <= v < clen(s, ax, n)
    ensures ({ let t = own(s, ax, v, n); 0 <= t < n && clen(s, ax, t) <= v < clen(s, ax, t + 1) }) decreases n
{ if n > 1 && clen(s, ax, n - 1) > v { lemma_own(s, ax, v, n - 1); } if n == 1 { assert(clen(s, ax, 0) == 0); } }
pub proof fn lemma_own1(s: Seq<RumpyArray>, ax: int, v: int, n: int, t: int) requires 0 <= t < n, clen(s, ax, t) <= v < clen(s, ax, t + 1) ensures own(s, ax, v, n) == t, 0 <= v < clen(s, ax, n)
{ lemma_clen(s, ax, t + 1, n); lemma_clen(s, ax, t, t); lemma_own(s, ax, v, n); let u = own(s, ax, v, n); if u < t { lemma_clen(s, ax, u + 1, t); } if u > t { lemma_clen(s, ax, t + 1, u); } }
pub open spec fn cat_ok(s: Seq<RumpyArray>, ax: int) -> bool { s.len() > 0 && 0 <= ax < s[0].shape@.len() && compat(s, ax, s.len() as int) && clen(s, ax, s.len() as int) <= usize::MAX }
