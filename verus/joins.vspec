@unit joins
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@include viewmaps.rs
@include gath.rs
@include cats.rs
@import core RumpyArray::size RumpyArray::shape RumpyArray::ndim
@import movers RumpyArray::zeros RumpyArray::dtype
@import views RumpyArray::slice_axis RumpyArray::expand_dims RumpyArray::broadcast_to
@import copy RumpyArray::astype
@import moves RumpyArray::reshape ravel_arr concatenate

@raw
/// shapes, element sizes: joining s along ax as dt stays within the address space
pub open spec fn cat_fits(s: Seq<RumpyArray>, ax: int, dt: DType) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> pmax((#[trigger] s[i]).shape@) * dt_size(dt) <= imax())
    && (s.len() > 0 && 0 <= ax < s[0].shape@.len() ==> clen(s, ax, s.len() as int) <= imax() && pmax(cshape(s, ax)) * dt_size(dt) <= imax())
}
pub open spec fn is_row(a: RumpyArray) -> bool { a.shape@.len() == 1 }
pub proof fn lemma_row_el(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires wf(a), is_row(a), 0 <= k < a.shape@[0] ensures prod(a.shape@) == a.shape@[0], elem(m, a, seq![k as usize]) == els(m, a)[k], els(m, a).len() == a.shape@[0], a.shape@[0] <= imax()
{ lemma_dim_le(a.shape@, isz(a), 0); lemma_un1(k, a.shape@); }
pub proof fn lemma_un1(k: int, sh: Seq<usize>) requires sh.len() == 1, 0 <= k < sh[0], k <= imax(), sh[0] <= imax() ensures unrmi(k, sh) == seq![k as usize], prod(sh) == sh[0], inb(seq![k as usize], sh)
{ lemma_row1(sh[0] as int, 1); assert(sh =~= seq![sh[0]]); assert(inb(ix1(k), sh)); lemma_rmi_inv(ix1(k), sh); assert(rmi(ix1(k), sh) == k); assert(unrmi(rmi(ix1(k), sh), sh) =~= ix1(k)); }
/// rows joined: their elements one after the other
pub open spec fn rows(m: Map<int, Seq<u8>>, s: Seq<RumpyArray>, dt: DType, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { Seq::empty() } else { rows(m, s, dt, n - 1) + convs(m, s[n - 1], dt) } }
pub proof fn lemma_rows(m: Map<int, Seq<u8>>, s: Seq<RumpyArray>, dt: DType, n: int, t: int, j: int)
    requires 0 <= t < n <= s.len(), forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) && is_row(s[i]), 0 <= j < s[t].shape@[0]
    ensures rows(m, s, dt, n).len() == clen(s, 0, n), 0 <= clen(s, 0, t) + j < clen(s, 0, n), rows(m, s, dt, n)[clen(s, 0, t) + j] == conv(s[t].dtype, dt, els(m, s[t])[j])
    decreases n
{
    lemma_rows_len(m, s, dt, n); lemma_rows_len(m, s, dt, n - 1); lemma_clen(s, 0, t + 1, n); lemma_clen(s, 0, 0, t); lemma_row_el(m, s[t], j);
    if t == n - 1 { } else { lemma_rows(m, s, dt, n - 1, t, j); }
}
pub proof fn lemma_rows_len(m: Map<int, Seq<u8>>, s: Seq<RumpyArray>, dt: DType, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) && is_row(s[i])
    ensures rows(m, s, dt, n).len() == clen(s, 0, n) decreases n
{ if n > 0 { lemma_rows_len(m, s, dt, n - 1); let a = s[n - 1]; lemma_dim_le(a.shape@, isz(a), 0); lemma_row1(a.shape@[0] as int, 1); assert(a.shape@ =~= seq![a.shape@[0]]); } }
pub proof fn lemma_cat_rows(m: Map<int, Seq<u8>>, s: Seq<RumpyArray>, dt: DType)
    requires s.len() >= 1, forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) && is_row(s[i]), clen(s, 0, s.len() as int) <= imax()
    ensures compat(s, 0, s.len() as int), cshape(s, 0) == seq![clen(s, 0, s.len() as int) as usize], catd(m, s, 0, dt) == rows(m, s, dt, s.len() as int)
{
    let n = s.len() as int; let L = clen(s, 0, n); let sh = cshape(s, 0);
    assert forall|i: int| 0 <= i < n implies like(s[0].shape@, (#[trigger] s[i]).shape@, 0) by { assert(is_row(s[0]) && is_row(s[i])); }
    assert(is_row(s[0])); assert(sh =~= seq![L as usize]); lemma_clen(s, 0, 0, n); lemma_row1(L, 1); lemma_rows_len(m, s, dt, n);
    assert forall|q: int| 0 <= q < L implies #[trigger] catd(m, s, 0, dt)[q] == rows(m, s, dt, n)[q] by {
        lemma_un1(q, sh); let i = unrmi(q, sh); lemma_own(s, 0, q, n); let t = cown(s, 0, i); let j = q - clen(s, 0, t);
        assert(i[0] == q); assert(csrc(s, 0, i) =~= seq![j as usize]); assert(clen(s, 0, t + 1) == clen(s, 0, t) + s[t].shape@[0]); lemma_row_el(m, s[t], j); lemma_rows(m, s, dt, n, t, j);
    }
    assert(catd(m, s, 0, dt) =~= rows(m, s, dt, n));
}
/// element q of a join, and where it stands in the array it came from
pub proof fn lemma_cat_at(m: Map<int, Seq<u8>>, s: Seq<RumpyArray>, ax: int, dt: DType, q: int)
    requires cat_ok(s, ax), 0 <= q < prod(cshape(s, ax))
    ensures ({ let i = unrmi(q, cshape(s, ax)); let t = cown(s, ax, i); let u = csrc(s, ax, i); &&& inb(i, cshape(s, ax)) &&& 0 <= t < s.len() &&& inb(u, s[t].shape@) &&& i[ax] == u[ax] + clen(s, ax, t) &&& i.len() == s[0].shape@.len() &&& u == i.update(ax, (i[ax] - clen(s, ax, t)) as usize) &&& catd(m, s, ax, dt)[q] == conv(s[t].dtype, dt, elem(m, s[t], u)) })
{
    let osh = cshape(s, ax); let i = unrmi(q, osh); lemma_unrmi_inb(q, osh); let n = s.len() as int; let v = i[ax] as int; lemma_clen(s, ax, 0, n); assert(i[ax] < osh[ax]);
    lemma_own(s, ax, v, n); let t = cown(s, ax, i); let u = csrc(s, ax, i); let sh = s[t].shape@; assert(like(s[0].shape@, sh, ax));
    assert forall|x: int| 0 <= x < sh.len() implies (#[trigger] u[x]) < sh[x] by { if x != ax { assert(i[x] < osh[x]); assert(s[0].shape@[x] == sh[x]); } }
}
#[verifier::external_body]
pub proof fn lemma_promo_same(d: DType) ensures promo(d, d) == d { unimplemented!() }
pub open spec fn pos_in(index: int, len: int, bound: int) -> bool { let i = if index < 0 { index + len } else { index }; 0 <= i < bound }
pub open spec fn pos_of(index: int, len: int) -> int { if index < 0 { index + len } else { index } }
/// what position idx shows when entry i along ax has gone
pub open spec fn m_del(ax: int, i: int) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| if idx[ax] < i { idx } else { idx.update(ax, (idx[ax] + 1) as usize) } }
/// a stretch of a row
pub proof fn lemma_stretch(m: Map<int, Seq<u8>>, v: RumpyArray, a: RumpyArray, lo: int, hi: int)
    requires wf(a), is_row(a), 0 <= lo <= hi <= a.shape@[0], v.shape@ == a.shape@.update(0, (hi - lo) as usize), is_view(v, a, m_slice(0, lo, 1, hi - lo))
    ensures wf(v), is_row(v), v.dtype == a.dtype, els(m, v) == els(m, a).subrange(lo, hi), els(m, a).len() == a.shape@[0]
{
    lemma_dim_le(a.shape@, isz(a), 0); lemma_row1(a.shape@[0] as int, 1); assert(a.shape@ =~= seq![a.shape@[0]]); assert(v.shape@ =~= seq![(hi - lo) as usize]); lemma_row1(hi - lo, 1);
    assert forall|k: int| 0 <= k < hi - lo implies #[trigger] els(m, v)[k] == els(m, a).subrange(lo, hi)[k] by {
        lemma_row_el(m, v, k); lemma_row_el(m, a, lo + k); let i = seq![k as usize]; lemma_un1(k, v.shape@); let j = m_slice(0, lo, 1, hi - lo)(i); assert(inb(i, v.shape@)); assert(j =~= seq![(lo + k) as usize]);
        lemma_view_at(v, a, m_slice(0, lo, 1, hi - lo), i); assert(bid(v) == bid(a)); }
    assert(els(m, v) =~= els(m, a).subrange(lo, hi));
}
pub proof fn lemma_view_at(r: RumpyArray, a: RumpyArray, f: spec_fn(Seq<usize>) -> Seq<usize>, i: Seq<usize>) requires is_view(r, a, f), inb(i, r.shape@) ensures inb(f(i), a.shape@), addr(r, i) == addr(a, f(i)) {}
pub proof fn lemma_empty_row(m: Map<int, Seq<u8>>, a: RumpyArray) requires wf(a), a.shape@ == seq![0usize] ensures els(m, a) == Seq::<Seq<u8>>::empty(), is_row(a), pmax(a.shape@) == 1
{ lemma_row1(0, 1); assert(els(m, a) =~= Seq::<Seq<u8>>::empty()); }
pub proof fn lemma_convs_same(m: Map<int, Seq<u8>>, a: RumpyArray) ensures convs(m, a, a.dtype) == els(m, a) { assert(convs(m, a, a.dtype) =~= els(m, a)); }
/// deleting by joining what stands before and after
pub proof fn lemma_del_ax(m: Map<int, Seq<u8>>, a: RumpyArray, b: RumpyArray, c: RumpyArray, ax: int, i: int)
    requires wf(a), 0 <= ax < a.shape@.len(), 0 <= i < a.shape@[ax], b.shape@ == a.shape@.update(ax, i as usize), c.shape@ == a.shape@.update(ax, (a.shape@[ax] - 1 - i) as usize),
        is_view(b, a, m_slice(ax, 0, 1, i)), is_view(c, a, m_slice(ax, i + 1, 1, a.shape@[ax] - 1 - i))
    ensures ({ let s = seq![b, c]; let nsh = a.shape@.update(ax, (a.shape@[ax] - 1) as usize); cat_ok(s, ax) && clen(s, ax, 2) == a.shape@[ax] - 1 && cshape(s, ax) == nsh && catd(m, s, ax, a.dtype) == gath(m, a, nsh, m_del(ax, i)) })
{
    let s = seq![b, c]; let n = a.shape@[ax] as int; let nsh = a.shape@.update(ax, (n - 1) as usize); lemma_two(b, c, ax); reveal_with_fuel(clen, 3); reveal_with_fuel(own, 3);
    assert(cshape(s, ax) =~= nsh); lemma_prod_pos(nsh);
    assert forall|q: int| 0 <= q < prod(nsh) implies #[trigger] catd(m, s, ax, a.dtype)[q] == gath(m, a, nsh, m_del(ax, i))[q] by {
        lemma_cat_at(m, s, ax, a.dtype, q); let x = unrmi(q, nsh); let t = cown(s, ax, x); let u = csrc(s, ax, x); let f = if t == 0 { m_slice(ax, 0, 1, i) } else { m_slice(ax, i + 1, 1, n - 1 - i) };
        lemma_view_at(s[t], a, f, u); assert(t == (if i <= x[ax] { 1int } else { 0int })); assert(f(u) =~= m_del(ax, i)(x)); assert(bid(s[t]) == bid(a)); }
    assert(catd(m, s, ax, a.dtype) =~= gath(m, a, nsh, m_del(ax, i)));
}
pub proof fn lemma_al_same(a: RumpyArray, b: RumpyArray) requires aligned(a), b.strides@ == a.strides@, b.dtype == a.dtype ensures aligned(b) {}
/// a shape along one axis shortened takes no more room
pub proof fn lemma_shorter(sh: Seq<usize>, ax: int, v: int, z: int) requires 0 <= ax < sh.len(), 0 <= v <= sh[ax], z >= 1, pmax(sh) * z <= imax() ensures pmax(sh.update(ax, v as usize)) * z <= imax(), pmax(sh.update(ax, v as usize)) <= pmax(sh)
{ lemma_pmax_axis(sh, ax, v as usize, 1); lemma_pmax(sh); let (p, q) = (pmax(sh.update(ax, v as usize)), pmax(sh)); assert(p * z <= q * z) by (nonlinear_arith) requires p <= q, z >= 1; }
pub proof fn lemma_three(a: RumpyArray, v: RumpyArray, c: RumpyArray, ax: int)
    ensures cdtype(seq![a, v, c], 3) == promo(promo(a.dtype, v.dtype), c.dtype), clen(seq![a, v, c], ax, 3) == a.shape@[ax] + v.shape@[ax] + c.shape@[ax], compat(seq![a, v, c], ax, 3) <==> like(a.shape@, v.shape@, ax) && like(a.shape@, c.shape@, ax)
{
    let s = seq![a, v, c]; reveal_with_fuel(clen, 4); reveal_with_fuel(cdtype, 4);
    if like(a.shape@, v.shape@, ax) && like(a.shape@, c.shape@, ax) { assert forall|i: int| 0 <= i < 3 implies like(s[0].shape@, (#[trigger] s[i]).shape@, ax) by { if i == 1 { } else if i == 2 { } } } else if compat(s, ax, 3) { assert(like(s[0].shape@, s[1].shape@, ax)); assert(like(s[0].shape@, s[2].shape@, ax)); }
}
pub proof fn lemma_three_rows(m: Map<int, Seq<u8>>, a: RumpyArray, v: RumpyArray, c: RumpyArray, dt: DType) ensures rows(m, seq![a, v, c], dt, 3) == convs(m, a, dt) + convs(m, v, dt) + convs(m, c, dt)
{ reveal_with_fuel(rows, 4); assert(Seq::<Seq<u8>>::empty() + convs(m, a, dt) =~= convs(m, a, dt)); }
/// how many entries values make along the axis: as many as fill it, else one, repeated
pub open spec fn ins_cnt(sh: Seq<usize>, ax: int, nv: int) -> int { let slab = prod(sh.update(ax, 1)); if slab > 0 && nv % slab == 0 { nv / slab } else { 1 } }
/// the value at position x of what is inserted
pub open spec fn ins_val(m: Map<int, Seq<u8>>, v: RumpyArray, dt: DType, sh: Seq<usize>, ax: int) -> spec_fn(Seq<usize>) -> Seq<u8> {
    let slab = prod(sh.update(ax, 1)); let nv = prod(v.shape@);
    if slab > 0 && nv % slab == 0 { |x: Seq<usize>| conv(v.dtype, dt, nth(m, v, rmi(x, sh.update(ax, (nv / slab) as usize)))) } else { |x: Seq<usize>| conv(v.dtype, dt, elem(m, v, m_bcast(v.shape@)(x))) }
}
pub open spec fn insd(m: Map<int, Seq<u8>>, a: RumpyArray, ax: int, i: int, cnt: int, val: spec_fn(Seq<usize>) -> Seq<u8>) -> Seq<Seq<u8>> {
    let nsh = a.shape@.update(ax, (a.shape@[ax] + cnt) as usize);
    Seq::new(prod(nsh) as nat, |k: int| { let x = unrmi(k, nsh); if x[ax] < i { elem(m, a, x) } else if x[ax] < i + cnt { val(x.update(ax, (x[ax] - i) as usize)) } else { elem(m, a, x.update(ax, (x[ax] - cnt) as usize)) } })
}
pub proof fn lemma_ins_ax(m: Map<int, Seq<u8>>, a: RumpyArray, b: RumpyArray, v: RumpyArray, c: RumpyArray, ax: int, i: int, cnt: int, val: spec_fn(Seq<usize>) -> Seq<u8>)
    requires wf(a), 0 <= ax < a.shape@.len(), 0 <= i <= a.shape@[ax], 0 <= cnt, a.shape@[ax] + cnt <= imax(), b.shape@ == a.shape@.update(ax, i as usize), c.shape@ == a.shape@.update(ax, (a.shape@[ax] - i) as usize), v.shape@ == a.shape@.update(ax, cnt as usize), v.dtype == a.dtype,
        is_view(b, a, m_slice(ax, 0, 1, i)), is_view(c, a, m_slice(ax, i, 1, a.shape@[ax] - i)), forall|u: Seq<usize>| #[trigger] inb(u, v.shape@) ==> elem(m, v, u) == val(u)
    ensures ({ let s = seq![b, v, c]; let nsh = a.shape@.update(ax, (a.shape@[ax] + cnt) as usize); cat_ok(s, ax) && clen(s, ax, 3) == a.shape@[ax] + cnt && cshape(s, ax) == nsh && catd(m, s, ax, a.dtype) == insd(m, a, ax, i, cnt, val) })
{
    let s = seq![b, v, c]; let n = a.shape@[ax] as int; let nsh = a.shape@.update(ax, (n + cnt) as usize); lemma_three(b, v, c, ax); reveal_with_fuel(clen, 4); reveal_with_fuel(own, 4);
    assert(cshape(s, ax) =~= nsh); lemma_prod_pos(nsh);
    assert forall|q: int| 0 <= q < prod(nsh) implies #[trigger] catd(m, s, ax, a.dtype)[q] == insd(m, a, ax, i, cnt, val)[q] by {
        lemma_cat_at(m, s, ax, a.dtype, q); let x = unrmi(q, nsh); let t = cown(s, ax, x); let u = csrc(s, ax, x);
        assert(t == (if i + cnt <= x[ax] { 2int } else if i <= x[ax] { 1int } else { 0int }));
        if t == 0 { lemma_view_at(b, a, m_slice(ax, 0, 1, i), u); assert(m_slice(ax, 0, 1, i)(u) =~= x); assert(bid(b) == bid(a)); }
        else if t == 1 { assert(inb(u, v.shape@)); assert(u =~= x.update(ax, (x[ax] - i) as usize)); }
        else { lemma_view_at(c, a, m_slice(ax, i, 1, n - i), u); assert(m_slice(ax, i, 1, n - i)(u) =~= x.update(ax, (x[ax] - cnt) as usize)); assert(bid(c) == bid(a)); } }
    assert(catd(m, s, ax, a.dtype) =~= insd(m, a, ax, i, cnt, val));
}
/// the size of an array is that of a slab times the length of the axis
pub proof fn lemma_slab(sh: Seq<usize>, ax: int, v: int) requires 0 <= ax < sh.len(), 0 <= v <= usize::MAX ensures prod(sh.update(ax, v as usize)) == v * prod(sh.update(ax, 1)) decreases sh.len()
{
    let l = sh.len() - 1; let (s1, sv) = (sh.update(ax, 1), sh.update(ax, v as usize));
    if ax == l { assert(s1.drop_last() =~= sv.drop_last()); let p = prod(s1.drop_last()); assert(p * v == v * (p * 1)) by (nonlinear_arith); }
    else { lemma_slab(sh.drop_last(), ax, v); assert(s1.drop_last() =~= sh.drop_last().update(ax, 1)); assert(sv.drop_last() =~= sh.drop_last().update(ax, v as usize)); let (p, d) = (prod(s1.drop_last()), sh.last() as int); assert((v * p) * d == v * (p * d)) by (nonlinear_arith); }
}
/// an element by its position
pub proof fn lemma_el_at(m: Map<int, Seq<u8>>, a: RumpyArray, u: Seq<usize>) requires inb(u, a.shape@) ensures elem(m, a, u) == nth(m, a, rmi(u, a.shape@)), 0 <= rmi(u, a.shape@) < prod(a.shape@), els(m, a)[rmi(u, a.shape@)] == elem(m, a, u)
{ lemma_rmi_bound(u, a.shape@); lemma_rmi_inv(u, a.shape@); }
/// what the values look like once they are shaped as they are inserted
pub proof fn lemma_ins_vals(m0: Map<int, Seq<u8>>, v0: RumpyArray, m1: Map<int, Seq<u8>>, v1: RumpyArray, m2: Map<int, Seq<u8>>, v2: RumpyArray, dt: DType, sh: Seq<usize>, ax: int)
    requires wf(v0), wf(v1), els(m1, v1) == convs(m0, v0, dt), v1.shape@ == v0.shape@, 0 <= ax < sh.len(),
        ({ let slab = prod(sh.update(ax, 1)); let nv = prod(v0.shape@); if slab > 0 && nv % slab == 0 { v2.shape@ == sh.update(ax, (nv / slab) as usize) && els(m2, v2) == els(m1, v1) && prod(v2.shape@) == nv } else { v2.shape@ == sh.update(ax, 1) && is_view(v2, v1, m_bcast(v1.shape@)) && m2[bid(v1)] == m1[bid(v1)] } })
    ensures forall|u: Seq<usize>| #[trigger] inb(u, v2.shape@) ==> elem(m2, v2, u) == ins_val(m0, v0, dt, sh, ax)(u)
{
    let slab = prod(sh.update(ax, 1)); let nv = prod(v0.shape@);
    assert forall|u: Seq<usize>| #[trigger] inb(u, v2.shape@) implies elem(m2, v2, u) == ins_val(m0, v0, dt, sh, ax)(u) by {
        lemma_el_at(m2, v2, u); let k = rmi(u, v2.shape@);
        if slab > 0 && nv % slab == 0 { assert(els(m1, v1)[k] == convs(m0, v0, dt)[k]); }
        else { let w = m_bcast(v1.shape@)(u); lemma_view_at(v2, v1, m_bcast(v1.shape@), u); assert(bid(v2) == bid(v1)); lemma_el_at(m1, v1, w); let j = rmi(w, v1.shape@); assert(els(m1, v1)[j] == convs(m0, v0, dt)[j]); lemma_el_at(m0, v0, w); }
    }
}
/// stacking: position idx shows array idx[ax] at the other indices
pub open spec fn stacked(m: Map<int, Seq<u8>>, s: Seq<RumpyArray>, ax: int, dt: DType) -> Seq<Seq<u8>> {
    let nsh = s[0].shape@.insert(ax, s.len() as usize);
    Seq::new(prod(nsh) as nat, |q: int| { let x = unrmi(q, nsh); let a = s[x[ax] as int]; conv(a.dtype, dt, elem(m, a, x.remove(ax))) })
}
pub open spec fn expanded_of(e: Seq<RumpyArray>, s: Seq<RumpyArray>, ax: int, n: int) -> bool {
    e.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] e[i]).shape@ == s[i].shape@.insert(ax, 1usize) && is_view(e[i], s[i], m_remove(ax)) && e[i].strides@.remove(ax) == s[i].strides@ && e[i].strides@[ax] == isz(s[i]) && e[i].offset == s[i].offset
}
pub proof fn lemma_cdtype_same(s: Seq<RumpyArray>, e: Seq<RumpyArray>, n: int) requires 1 <= n <= s.len(), s.len() == e.len(), forall|i: int| 0 <= i < n ==> (#[trigger] e[i]).dtype == s[i].dtype ensures cdtype(e, n) == cdtype(s, n) decreases n
{ if n > 1 { lemma_cdtype_same(s, e, n - 1); assert(e[n - 1].dtype == s[n - 1].dtype); } else { assert(e[0].dtype == s[0].dtype); } }
pub proof fn lemma_ones(e: Seq<RumpyArray>, ax: int, n: int) requires 0 <= n <= e.len(), forall|i: int| 0 <= i < n ==> (#[trigger] e[i]).shape@[ax] == 1 ensures clen(e, ax, n) == n decreases n
{ if n > 0 { lemma_ones(e, ax, n - 1); assert(e[n - 1].shape@[ax] == 1); } }
pub proof fn lemma_own_ones(e: Seq<RumpyArray>, ax: int, v: int, n: int) requires 0 <= v < n <= e.len(), forall|i: int| 0 <= i < n ==> (#[trigger] e[i]).shape@[ax] == 1 ensures own(e, ax, v, n) == v decreases n
{ lemma_ones(e, ax, n); lemma_ones(e, ax, n - 1); if n > 1 && v < n - 1 { lemma_own_ones(e, ax, v, n - 1); } }
pub proof fn lemma_stack(m: Map<int, Seq<u8>>, s: Seq<RumpyArray>, e: Seq<RumpyArray>, ax: int, dt: DType)
    requires s.len() >= 1, s.len() <= imax(), 0 <= ax <= s[0].shape@.len(), expanded_of(e, s, ax, s.len() as int), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).shape@ == s[0].shape@
    ensures cat_ok(e, ax), clen(e, ax, s.len() as int) == s.len(), cshape(e, ax) == s[0].shape@.insert(ax, s.len() as usize), catd(m, e, ax, dt) == stacked(m, s, ax, dt), cdtype(e, s.len() as int) == cdtype(s, s.len() as int)
{
    let n = s.len() as int; let nsh = s[0].shape@.insert(ax, n as usize);
    assert forall|i: int| 0 <= i < n implies (#[trigger] e[i]).shape@[ax] == 1 && e[i].shape@ == e[0].shape@ && e[i].dtype == s[i].dtype by { assert(e[i].shape@ == s[i].shape@.insert(ax, 1usize)); assert(s[i].shape@ == s[0].shape@); assert(e[0].shape@ == s[0].shape@.insert(ax, 1usize)); assert(is_view(e[i], s[i], m_remove(ax))); }
    assert(compat(e, ax, n)) by { assert forall|i: int| 0 <= i < n implies like(e[0].shape@, (#[trigger] e[i]).shape@, ax) by { assert(e[i].shape@ == e[0].shape@); } }
    lemma_ones(e, ax, n); lemma_cdtype_same(s, e, n); assert(e[0].shape@ == s[0].shape@.insert(ax, 1usize)); assert(cshape(e, ax) =~= nsh); lemma_prod_pos(nsh);
    assert forall|q: int| 0 <= q < prod(nsh) implies #[trigger] catd(m, e, ax, dt)[q] == stacked(m, s, ax, dt)[q] by {
        lemma_cat_at(m, e, ax, dt, q); let x = unrmi(q, nsh); let v = x[ax] as int; assert(v < n) by { assert(inb(x, nsh)); assert(x[ax] < nsh[ax]); } lemma_own_ones(e, ax, v, n); lemma_ones(e, ax, v); let u = csrc(e, ax, x);
        lemma_view_at(e[v], s[v], m_remove(ax), u); assert(u.remove(ax) =~= x.remove(ax)); assert(e[v].dtype == s[v].dtype); assert(is_view(e[v], s[v], m_remove(ax))); assert(bid(e[v]) == bid(s[v])); }
    assert(catd(m, e, ax, dt) =~= stacked(m, s, ax, dt));
}
pub proof fn lemma_pmax_ins(sh: Seq<usize>, ax: int, v: usize) requires 0 <= ax <= sh.len() ensures pmax(sh.insert(ax, v)) == pmax(sh) * max1(v), nonempty(sh.insert(ax, v)) <==> nonempty(sh) && v > 0 decreases sh.len()
{
    let t = sh.insert(ax, v);
    if ax == sh.len() { assert(t.drop_last() =~= sh); }
    else { lemma_pmax_ins(sh.drop_last(), ax, v); assert(t.drop_last() =~= sh.drop_last().insert(ax, v)); assert(t.last() == sh.last()); let (p, w, d) = (pmax(sh.drop_last()), max1(v), max1(sh.last())); assert((p * w) * d == (p * d) * w) by (nonlinear_arith); }
    if nonempty(t) { assert(t[ax] > 0); assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] sh[i]) > 0 by { if i < ax { assert(t[i] > 0); } else { assert(t[i + 1] > 0); } } }
    if nonempty(sh) && v > 0 { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) > 0 by { if i < ax { assert(sh[i] > 0); } else if i > ax { assert(sh[i - 1] > 0); } } }
}
pub proof fn lemma_al_ins(e: RumpyArray, a: RumpyArray, ax: int) requires aligned(a), isz(a) >= 1, e.dtype == a.dtype, 0 <= ax < e.strides@.len(), e.strides@.remove(ax) == a.strides@, e.strides@[ax] == isz(a) ensures aligned(e)
{ lemma_mod_self_0(isz(a)); assert forall|i: int| 0 <= i < e.strides@.len() implies (#[trigger] e.strides@[i]) as int % isz(e) == 0 by { if i < ax { assert(a.strides@[i] == e.strides@[i]); } else if i > ax { assert(a.strides@[i - 1] == e.strides@[i]); } } }
pub proof fn lemma_lit2() ensures forall|a: [RumpyArray; 2]| (#[trigger] a@) == seq![a@[0], a@[1]] { assert forall|a: [RumpyArray; 2]| (#[trigger] a@) == seq![a@[0], a@[1]] by { assert(a@ =~= seq![a@[0], a@[1]]); } }
pub proof fn lemma_lit3() ensures forall|a: [RumpyArray; 3]| (#[trigger] a@) == seq![a@[0], a@[1], a@[2]] { assert forall|a: [RumpyArray; 3]| (#[trigger] a@) == seq![a@[0], a@[1], a@[2]] by { assert(a@ =~= seq![a@[0], a@[1], a@[2]]); } }
pub proof fn lemma_two(a: RumpyArray, v: RumpyArray, ax: int)
    ensures cdtype(seq![a, v], 2) == promo(a.dtype, v.dtype), clen(seq![a, v], ax, 2) == a.shape@[ax] + v.shape@[ax], compat(seq![a, v], ax, 2) <==> like(a.shape@, v.shape@, ax)
{
    let s = seq![a, v]; reveal_with_fuel(clen, 3); reveal_with_fuel(cdtype, 3);
    if like(a.shape@, v.shape@, ax) { assert forall|i: int| 0 <= i < 2 implies like(s[0].shape@, (#[trigger] s[i]).shape@, ax) by { if i == 1 { } } } else if compat(s, ax, 2) { assert(like(s[0].shape@, s[1].shape@, ax)); }
}
pub proof fn lemma_two_rows(m: Map<int, Seq<u8>>, a: RumpyArray, v: RumpyArray, dt: DType) ensures rows(m, seq![a, v], dt, 2) == convs(m, a, dt) + convs(m, v, dt)
{ reveal_with_fuel(rows, 3); assert(Seq::<Seq<u8>>::empty() + convs(m, a, dt) =~= convs(m, a, dt)); }
/// same elements, same conversions
pub proof fn lemma_convs(m1: Map<int, Seq<u8>>, a: RumpyArray, m0: Map<int, Seq<u8>>, b: RumpyArray, dt: DType)
    requires els(m1, a) == els(m0, b), a.dtype == b.dtype, prod(a.shape@) == prod(b.shape@) ensures convs(m1, a, dt) == convs(m0, b, dt)
{ assert forall|k: int| 0 <= k < prod(a.shape@) implies #[trigger] convs(m1, a, dt)[k] == convs(m0, b, dt)[k] by { assert(els(m1, a)[k] == els(m0, b)[k]); } lemma_prod_pos(a.shape@); assert(convs(m1, a, dt) =~= convs(m0, b, dt)); }
@endraw

@fn src/array/manipulation.rs append memself mem=concatenate,ravel_arr
@props P12
@req
    arr_ok(old(mem).v(), *arr), arr_ok(old(mem).v(), *values), arr.shape@.len() <= imax(), arr.offset + pmax(arr.shape@) * isz(*arr) <= imax(), values.offset + pmax(values.shape@) * isz(*values) <= imax(),
    pmax(arr.shape@) * dt_size(promo(arr.dtype, values.dtype)) <= imax(), pmax(values.shape@) * dt_size(promo(arr.dtype, values.dtype)) <= imax(),
    axis is None ==> (prod(arr.shape@) + prod(values.shape@)) * dt_size(promo(arr.dtype, values.dtype)) <= imax(),
    axis is Some ==> axis->0 >= -arr.shape@.len() && cat_fits(seq![*arr, *values], nax(axis->0, arr.shape@.len() as int), promo(arr.dtype, values.dtype)),
@ens
    axis is None ==> r is Some && fresh(r->0, old(mem).v(), final(mem).v(), seq![(prod(arr.shape@) + prod(values.shape@)) as usize], promo(arr.dtype, values.dtype))
        && els(final(mem).v(), r->0) == convs(old(mem).v(), *arr, promo(arr.dtype, values.dtype)) + convs(old(mem).v(), *values, promo(arr.dtype, values.dtype)),
    axis is Some ==> (r is Some <==> nax(axis->0, arr.shape@.len() as int) < arr.shape@.len() && compat(seq![*arr, *values], nax(axis->0, arr.shape@.len() as int), 2)),
    axis is Some && r is Some ==> ({ let ax = nax(axis->0, arr.shape@.len() as int); let s = seq![*arr, *values]; let dt = promo(arr.dtype, values.dtype);
        fresh(r->0, old(mem).v(), final(mem).v(), cshape(s, ax), dt) && els(final(mem).v(), r->0) == catd(old(mem).v(), s, ax, dt) }),
@start
    let ghost m0 = mem.v(); let ghost D = promo(arr.dtype, values.dtype); let ghost (A, V) = (*arr, *values); let ghost (na, nv) = (prod(A.shape@), prod(V.shape@));
    proof { lemma_prod_pos(A.shape@); lemma_prod_pos(V.shape@); lemma_lit2(); lemma_dt(D); lemma_pmax(A.shape@); lemma_pmax(V.shape@); lemma_pmax_le(A.shape@, isz(A)); lemma_pmax_le(V.shape@, isz(V)); lemma_two(A, V, nax(match axis { Some(x) => x, None => 0 }, A.shape@.len() as int)); }
@at /let flat_vals = ravel_arr/
    let ghost m1 = mem.v();
    proof { lemma_els_keep(m0, m1, V); lemma_row1(na, 1); }
@at /concatenate ?\(& ?\[ ?flat_arr/
    let ghost m2 = mem.v(); let ghost s = seq![flat_arr, flat_vals];
    proof { lemma_els_keep(m1, m2, flat_arr); lemma_row1(nv, 1); lemma_two(flat_arr, flat_vals, 0); let z = dt_size(D);
        assert(na * z <= (na + nv) * z && nv * z <= (na + nv) * z && na + nv <= (na + nv) * z) by (nonlinear_arith) requires na >= 0, nv >= 0, z >= 1;
        lemma_row1(na + nv, 1); lemma_cat_rows(m2, s, D); lemma_two_rows(m2, flat_arr, flat_vals, D); assert(cdtype(s, 2) == D);
        assert(ptr_ok(flat_arr) && ptr_ok(flat_vals)); assert(1 * z <= imax()); assert(arr_ok(m2, flat_arr) && arr_ok(m2, flat_vals)); assert forall|i: int| 0 <= i < 2 implies arr_ok(m2, #[trigger] s[i]) && pmax(s[i].shape@) * z <= imax() by { if i == 0 { } else { } } assert(convs(m2, flat_arr, D) =~= convs(m0, A, D)) by { lemma_convs(m2, flat_arr, m0, A, D); } lemma_convs(m2, flat_vals, m0, V, D); }


@fn src/array/manipulation.rs normalize_position
@props P12
@req
    len <= imax(),
@ens
    r is Some <==> pos_in(index as int, len as int, bound as int),
    r is Some ==> r->0 == pos_of(index as int, len as int),

@fn src/array/manipulation.rs delete memself mem=concatenate,ravel_arr,zeros
@props P12
@req
    arr_ok(old(mem).v(), *arr), arr.shape@.len() <= imax(), arr.offset + pmax(arr.shape@) * isz(*arr) <= imax(), axis is Some ==> axis->0 >= -arr.shape@.len(), axis is Some && nax(axis->0, arr.shape@.len() as int) < arr.shape@.len() && arr.shape@[nax(axis->0, arr.shape@.len() as int)] > 0 ==> nonempty(arr.shape@),
@ens
    axis is None ==> (r is Some <==> prod(arr.shape@) == 0 || pos_in(index as int, prod(arr.shape@), prod(arr.shape@))),
    axis is None && prod(arr.shape@) == 0 ==> reshaped(r->0, *arr, seq![0usize], old(mem).v(), final(mem).v()),
    axis is None && prod(arr.shape@) > 0 && r is Some ==> fresh(r->0, old(mem).v(), final(mem).v(), seq![(prod(arr.shape@) - 1) as usize], arr.dtype)
        && els(final(mem).v(), r->0) == els(old(mem).v(), *arr).remove(pos_of(index as int, prod(arr.shape@))),
    axis is Some ==> ({ let ax = nax(axis->0, arr.shape@.len() as int); (r is Some <==> ax < arr.shape@.len() && (arr.shape@[ax] == 0 || pos_in(index as int, arr.shape@[ax] as int, arr.shape@[ax] as int)))
        && (r is Some && arr.shape@[ax] == 0 ==> r->0 == *arr)
        && (r is Some && arr.shape@[ax] > 0 ==> ({ let nsh = arr.shape@.update(ax, (arr.shape@[ax] - 1) as usize); fresh(r->0, old(mem).v(), final(mem).v(), nsh, arr.dtype) && els(final(mem).v(), r->0) == gath(old(mem).v(), *arr, nsh, m_del(ax, pos_of(index as int, arr.shape@[ax] as int))) })) }),
@start
    let ghost m0 = mem.v(); let ghost A = *arr; let ghost na = prod(A.shape@); let ghost d = A.dtype; let ghost z = isz(A);
    proof { lemma_prod_pos(A.shape@); lemma_lit2(); lemma_dt(d); lemma_pmax(A.shape@); lemma_pmax_le(A.shape@, z); lemma_promo_same(d); }
@at /let size = flat.size/
    let ghost m1 = mem.v(); let ghost F = flat;
    proof { lemma_row1(na, 1); lemma_row1(0, 1); assert(1 * z <= imax()); }
@at /concatenate ?\(.*, 0 ?(, Tracked ?\(mem\))?\)/
    let ghost m2 = mem.v(); let ghost s = seq![before, after]; let ghost i = idx as int;
    proof {
        lemma_els_keep(m1, m2, F); lemma_dim_le(F.shape@, z, 0); assert(F.shape@ == seq![na as usize]); assert(prod(F.shape@) == na);
        if i > 0 { lemma_stretch(m2, before, F, 0, i); } else { lemma_empty_row(m2, before); }
        if i + 1 < na { lemma_stretch(m2, after, F, i + 1, na); } else { lemma_empty_row(m2, after); }
        assert(els(m2, before) =~= els(m2, F).subrange(0, i)); assert(els(m2, after) =~= els(m2, F).subrange(i + 1, na));
        lemma_convs_same(m2, before); lemma_convs_same(m2, after);
        lemma_two(before, after, 0); lemma_two_rows(m2, before, after, d); assert(before.shape@[0] == i) ; assert(after.shape@[0] == na - 1 - i);
        lemma_cat_rows(m2, s, d); assert(els(m2, F).subrange(0, i) + els(m2, F).subrange(i + 1, na) =~= els(m2, F).remove(i));
        assert(before.shape@ =~= seq![i as usize]); assert(after.shape@ =~= seq![(na - 1 - i) as usize]); lemma_row1(i, 1); lemma_row1(na - 1 - i, 1); lemma_row1(na - 1, 1);
        assert(na * z <= imax()); assert(1 * z <= na * z && i * z <= na * z && (na - 1 - i) * z <= na * z && (na - 1) * z <= na * z) by (nonlinear_arith) requires 0 <= i < na, z >= 1;
        assert(arr_ok(m2, before) && arr_ok(m2, after)); assert forall|j: int| 0 <= j < 2 implies arr_ok(m2, #[trigger] s[j]) && pmax(s[j].shape@) * z <= imax() by { if j == 0 { } else { } }
    }
@at /concatenate ?\(.*, axis ?(, Tracked ?\(mem\))?\)/
    let ghost s = seq![before, after]; let ghost i = idx as int;
    proof {
        lemma_del_ax(m0, A, before, after, axis as int, i); lemma_two(before, after, axis as int); let n = A.shape@[axis as int] as int;
        lemma_shorter(A.shape@, axis as int, i, z); lemma_shorter(A.shape@, axis as int, n - 1 - i, z); lemma_shorter(A.shape@, axis as int, n - 1, z); lemma_dim_le(A.shape@, z, axis as int);
        lemma_pmax(before.shape@); lemma_pmax(after.shape@); lemma_al_same(A, before); lemma_al_same(A, after);
        lemma_ext_mono(A.shape@, A.strides@, 0, A.shape@.len() as int);
        assert(arr_ok(m0, before) && arr_ok(m0, after)); assert forall|j: int| 0 <= j < 2 implies arr_ok(m0, #[trigger] s[j]) && pmax(s[j].shape@) * z <= imax() by { if j == 0 { } else { } }
    }

@fn src/array/manipulation.rs insert memself mem=concatenate,ravel_arr,zeros,astype,reshape
@props P12
@req
    arr_ok(old(mem).v(), *arr), arr_ok(old(mem).v(), *values), arr.shape@.len() <= imax(), arr.offset + pmax(arr.shape@) * isz(*arr) <= imax(), values.offset + pmax(values.shape@) * isz(*values) <= imax(), axis is Some ==> axis->0 >= -arr.shape@.len(),
    pmax(values.shape@) * isz(*arr) <= imax(),
    axis is None ==> (prod(arr.shape@) + prod(values.shape@)) * isz(*arr) <= imax(),
    axis is Some && nax(axis->0, arr.shape@.len() as int) < arr.shape@.len() ==> ({ let ax = nax(axis->0, arr.shape@.len() as int); let cnt = ins_cnt(arr.shape@, ax, prod(values.shape@)); nonempty(arr.shape@.update(ax, 1)) && arr.shape@[ax] + cnt <= imax() && pmax(arr.shape@.update(ax, (arr.shape@[ax] + cnt) as usize)) * isz(*arr) <= imax() }),
@ens
    axis is None ==> (r is Some <==> pos_in(index as int, prod(arr.shape@), prod(arr.shape@) + 1)),
    axis is None && r is Some ==> ({ let i = pos_of(index as int, prod(arr.shape@)); let e = els(old(mem).v(), *arr); fresh(r->0, old(mem).v(), final(mem).v(), seq![(prod(arr.shape@) + prod(values.shape@)) as usize], arr.dtype)
        && els(final(mem).v(), r->0) == e.take(i) + convs(old(mem).v(), *values, arr.dtype) + e.skip(i) }),
    axis is Some ==> ({ let ax = nax(axis->0, arr.shape@.len() as int); let n = arr.shape@[ax] as int; let nv = prod(values.shape@); let cnt = ins_cnt(arr.shape@, ax, nv); let i = pos_of(index as int, n);
        (r is Some <==> ax < arr.shape@.len() && pos_in(index as int, n, n + 1) && (nv % prod(arr.shape@.update(ax, 1)) == 0 || bc_ok(values.shape@, arr.shape@.update(ax, 1))))
        && (r is Some ==> fresh(r->0, old(mem).v(), final(mem).v(), arr.shape@.update(ax, (n + cnt) as usize), arr.dtype) && els(final(mem).v(), r->0) == insd(old(mem).v(), *arr, ax, i, cnt, ins_val(old(mem).v(), *values, arr.dtype, arr.shape@, ax))) }),
@start
    let ghost m0 = mem.v(); let ghost A = *arr; let ghost V = *values; let ghost na = prod(A.shape@); let ghost nv = prod(V.shape@); let ghost d = A.dtype; let ghost z = isz(A);
    proof { lemma_prod_pos(A.shape@); lemma_prod_pos(V.shape@); lemma_lit3(); lemma_dt(d); lemma_pmax(A.shape@); lemma_pmax_le(A.shape@, z); lemma_pmax(V.shape@); lemma_pmax_le(V.shape@, z); lemma_pmax_le(V.shape@, isz(V)); lemma_promo_same(d); }
@at /let size = flat.size/
    let ghost m1 = mem.v(); let ghost F = flat;
    proof { lemma_row1(na, 1); lemma_row1(0, 1); assert(1 * z <= imax()); assert(na <= pmax(A.shape@) * z) by (nonlinear_arith) requires na <= pmax(A.shape@), z >= 1, na >= 0; }
@at /let flat_vals = /
    let ghost mb = mem.v();
    proof { assert forall|m: Map<int, Seq<u8>>, a: RumpyArray| els(m, a) == els(m0, V) && a.dtype == V.dtype && prod(a.shape@) == nv implies #[trigger] convs(m, a, d) == convs(m0, V, d) by { lemma_convs(m, a, m0, V, d); } lemma_els_keep(m0, mb, V); assert(arr_ok(mb, V)); lemma_row1(nv, 1); assert(nv * z <= imax() && 1 * z <= imax()) by (nonlinear_arith) requires nv <= pmax(V.shape@), pmax(V.shape@) * z <= imax(), z >= 1, 1 <= pmax(V.shape@), nv >= 0; }
@at /concatenate ?\(.*, 0 ?(, Tracked ?\(mem\))?\)/
    let ghost m2 = mem.v(); let ghost s = seq![before, flat_vals, after]; let ghost i = idx as int;
    proof {
        lemma_els_keep(m1, m2, F); lemma_dim_le(F.shape@, z, 0); assert(F.shape@ == seq![na as usize]); assert(prod(F.shape@) == na);
        if i > 0 { lemma_stretch(m2, before, F, 0, i); } else { lemma_empty_row(m2, before); }
        if i < na { lemma_stretch(m2, after, F, i, na); } else { lemma_empty_row(m2, after); }
        assert(els(m2, before) =~= els(m2, F).take(i)); assert(els(m2, after) =~= els(m2, F).skip(i));
        lemma_convs_same(m2, before); lemma_convs_same(m2, after); lemma_convs_same(m2, flat_vals);
        lemma_three(before, flat_vals, after, 0); lemma_three_rows(m2, before, flat_vals, after, d);
        assert(before.shape@ =~= seq![i as usize]); assert(after.shape@ =~= seq![(na - i) as usize]); lemma_row1(i, 1); lemma_row1(na - i, 1); lemma_row1(nv, 1);
        assert(1 * z <= imax() && i * z <= (na + nv) * z && (na - i) * z <= (na + nv) * z && nv * z <= (na + nv) * z && na + nv <= (na + nv) * z) by (nonlinear_arith) requires 0 <= i <= na, nv >= 0, z >= 1, z <= imax();
        lemma_row1(na + nv, 1); lemma_cat_rows(m2, s, d);
        assert(arr_ok(m2, before) && arr_ok(m2, after) && arr_ok(m2, flat_vals)); assert forall|j: int| 0 <= j < 3 implies arr_ok(m2, #[trigger] s[j]) && pmax(s[j].shape@) * z <= imax() by { if j == 0 { } else if j == 1 { } else { } }
    }
@at /let slab : usize = /
    let ghost ax = axis as int; let ghost vsh1 = A.shape@.update(ax, 1); let ghost n = A.shape@[ax] as int; let ghost cnt = ins_cnt(A.shape@, ax, nv); let ghost i = idx as int; let ghost nsh = A.shape@.update(ax, (n + cnt) as usize);
    proof { assert(val_shape@ =~= vsh1); lemma_prod_pos(vsh1); lemma_pmax(vsh1); lemma_pmax_axis(A.shape@, ax, 1, 1); lemma_pmax_le(A.shape@, z); let (p, q) = (pmax(vsh1), pmax(A.shape@)); assert(p * z <= q * z) by (nonlinear_arith) requires p <= q, z >= 1; assert(p <= p * z) by (nonlinear_arith) requires p >= 1, z >= 1; }
@at /let vals_reshaped = /
    let ghost m1 = mem.v(); let ghost W = values;
    proof {
        lemma_cstr_al(W); lemma_pmax_le(V.shape@, z); lemma_fundamental_div_mod(nv, slab as int); lemma_slab(A.shape@, ax, nv / slab as int);
        if nv % slab as int == 0 {
            let c = nv / slab as int; assert(0 <= c && c <= nv && c * slab == nv) by (nonlinear_arith) requires nv == slab * c + 0, slab > 0, nv >= 0;
            let vs = A.shape@.update(ax, c as usize); assert(val_shape@.update(ax, c as usize) =~= vs); assert(prod(vs) == nv); lemma_pmax(vs); lemma_pmax(V.shape@);
            if c == 0 { lemma_pmax_axis(A.shape@, ax, 0, 1); let (p, q) = (pmax(vs), pmax(A.shape@)); assert(p * z <= q * z) by (nonlinear_arith) requires p <= q, z >= 1; }
            else { assert(nonempty(vs)) by { assert forall|j: int| 0 <= j < vs.len() implies (#[trigger] vs[j]) > 0 by { assert(vsh1[j] > 0); } } }
        }
    }
@at /concatenate ?\(.*, axis ?(, Tracked ?\(mem\))?\)/
    let ghost m2 = mem.v(); let ghost s = seq![before, vals_reshaped, after];
    proof {
        let val = ins_val(m0, V, d, A.shape@, ax); lemma_ins_vals(m0, V, m1, W, m2, vals_reshaped, d, A.shape@, ax);
        lemma_els_keep(m0, m2, A);
        lemma_ins_ax(m2, A, before, vals_reshaped, after, ax, i, cnt, val); lemma_three(before, vals_reshaped, after, ax);
        assert(insd(m2, A, ax, i, cnt, val) == insd(m0, A, ax, i, cnt, val)) by { assert(m2[bid(A)] == m0[bid(A)]); assert(insd(m2, A, ax, i, cnt, val) =~= insd(m0, A, ax, i, cnt, val)); }
        lemma_shorter(A.shape@, ax, i, z); lemma_shorter(A.shape@, ax, n - i, z); lemma_dim_le(A.shape@, z, ax); lemma_shorter(nsh, ax, cnt, z); assert(nsh.update(ax, cnt as usize) =~= A.shape@.update(ax, cnt as usize));
        lemma_al_same(A, before); lemma_al_same(A, after); lemma_ext_mono(A.shape@, A.strides@, 0, A.shape@.len() as int);
        assert(0int % z == 0) by { lemma_small_mod(0, z as nat); } assert(aligned(vals_reshaped)) by { if !(nv % slab as int == 0) { assert forall|k: int| 0 <= k < vals_reshaped.strides@.len() implies (#[trigger] vals_reshaped.strides@[k]) as int % z == 0 by { let o = vsh1.len() - W.shape@.len(); if vals_reshaped.strides@[k] != 0 { assert(vals_reshaped.strides@[k] == W.strides@[k - o]); } } } }
        assert(ptr_ok(before)) by { if i > 0 { assert(n > 0); assert(nonempty(A.shape@)) by { assert forall|j: int| 0 <= j < A.shape@.len() implies (#[trigger] A.shape@[j]) > 0 by { if j != ax { assert(vsh1[j] > 0); } } } assert(nonempty(before.shape@)); } else { assert(!nonempty(before.shape@)) by { assert(before.shape@[ax] == 0); } } }
        assert(ptr_ok(after)) by { if i < n { assert(nonempty(after.shape@)) by { assert forall|j: int| 0 <= j < after.shape@.len() implies (#[trigger] after.shape@[j]) > 0 by { if j != ax { assert(vsh1[j] > 0); } } } } }
        assert(arr_ok(m2, before)); assert(arr_ok(m2, after)); assert(arr_ok(m2, vals_reshaped)); assert forall|j: int| 0 <= j < 3 implies arr_ok(m2, #[trigger] s[j]) && pmax(s[j].shape@) * z <= imax() by { if j == 0 { } else if j == 1 { } else { } }
    }

@fn src/array/manipulation.rs stack memself mem=concatenate
@props P12
@req
    forall|i: int| 0 <= i < arrays@.len() ==> arr_ok(old(mem).v(), #[trigger] arrays@[i]) && pmax(arrays@[i].shape@) * dt_size(cdtype(arrays@, arrays@.len() as int)) <= imax() && arrays@[i].shape@.len() < usize::MAX,
    arrays@.len() > 0 ==> pmax(arrays@[0].shape@) * arrays@.len() * dt_size(cdtype(arrays@, arrays@.len() as int)) <= imax(), arrays@.len() <= imax(),
@ens
    r is Some <==> arrays@.len() > 0 && axis <= arrays@[0].shape@.len() && forall|i: int| 0 <= i < arrays@.len() ==> (#[trigger] arrays@[i]).shape@ == arrays@[0].shape@,
    r is Some ==> ({ let dt = cdtype(arrays@, arrays@.len() as int); fresh(r->0, old(mem).v(), final(mem).v(), arrays@[0].shape@.insert(axis as int, arrays@.len() as usize), dt) && els(final(mem).v(), r->0) == stacked(old(mem).v(), arrays@, axis as int, dt) }),
@start
    let ghost m0 = mem.v(); let ghost S = arrays@; let ghost L = arrays@.len() as int; let ghost ax = axis as int;
@inv 0
    invariant S == arrays@, L == S.len(), L >= 1, first == S[0], __a0 == 1, __l0 == L - 1, __i0 <= __l0, mem.v() == m0, forall|i: int| 0 <= i < __i0 + 1 ==> (#[trigger] S[i]).shape@ == S[0].shape@
    decreases __l0 - __i0
@body 0
    let ghost t0 = __i0 + 1;
@end 0
    proof { assert(S[t0].shape@ =~= S[0].shape@); }
@inv 1
    invariant S == arrays@, L == S.len(), L >= 1, ax == axis, ax <= S[0].shape@.len(), __i1 <= L, mem.v() == m0, forall|i: int| 0 <= i < L ==> (#[trigger] S[i]).shape@ == S[0].shape@, forall|i: int| 0 <= i < L ==> arr_ok(m0, #[trigger] S[i]) && S[i].shape@.len() < usize::MAX, expanded_of(__v1@, S, ax, __i1 as int)
    decreases L - __i1
@body 1
    proof { assert(arr_ok(m0, S[__i1 as int])); assert(S[__i1 as int].shape@ == S[0].shape@); }
@at /concatenate ?\(/
    let ghost dt = cdtype(S, L); let ghost z = dt_size(dt);
    proof {
        let e = expanded@; lemma_stack(m0, S, e, ax, dt); lemma_dt(dt); lemma_pmax_ins(S[0].shape@, ax, 1); lemma_pmax_ins(S[0].shape@, ax, L as usize); let p = pmax(S[0].shape@); lemma_pmax(S[0].shape@);
        assert(p * 1 == p); assert(p * z <= p * L * z && p * L * z == (p * L) * z) by (nonlinear_arith) requires p >= 1, L >= 1, z >= 1;
        assert forall|i: int| 0 <= i < L implies arr_ok(m0, #[trigger] e[i]) && pmax(e[i].shape@) * z <= imax() by { let a = S[i]; assert(arr_ok(m0, S[i])); assert(S[i].shape@ == S[0].shape@); assert(is_view(e[i], a, m_remove(ax))); lemma_dt(a.dtype); lemma_al_ins(e[i], a, ax); assert(bid(e[i]) == bid(a)); if nonempty(S[0].shape@) { assert(ptr_ok(e[i])); } }
    }
