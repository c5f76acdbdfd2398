// Typed element values of arrays: what the dispatched loops read and write.
/// value of the k-th element in row-major order
pub open spec fn tv<T>(m: Map<int, Seq<u8>>, a: RumpyArray, k: int) -> T { dec::<T>(nth(m, a, k)) }
pub open spec fn tvs<T>(m: Map<int, Seq<u8>>, a: RumpyArray) -> Seq<T> { Seq::new(prod(a.shape@) as nat, |k: int| tv::<T>(m, a, k)) }
/// an array whose elements are of type T
pub open spec fn opd<T>(m: Map<int, Seq<u8>>, a: RumpyArray) -> bool { wf(a) && mok(m, a) && isz(a) == tsz::<T>() }
/// a is an operand (unchanged since m0) of a loop that writes r
pub open spec fn bctx<T>(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray) -> bool {
    opd::<T>(m0, a) && mok(mz, a) && bid(a) != bid(r) && mz[bid(a)] == m0[bid(a)]
}
pub proof fn lemma_bctx<T>(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray)
    requires opd::<T>(m0, a), is_new(r, m0, mz) ensures bctx::<T>(m0, mz, a, r) {}
/// after writing into r the operand still holds its values
pub proof fn lemma_keep<T, U>(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray, o: int, s: Seq<U>)
    requires bctx::<T>(m0, mz, a, r), wrote(mz, m, bid(r), o, s)
    ensures opd::<T>(m, a), m[bid(a)] == m0[bid(a)], tvs::<T>(m, a) == tvs::<T>(m0, a), bctx::<T>(m0, m, a, r)
{ assert(tvs::<T>(m, a) =~= tvs::<T>(m0, a)); }
/// a C-contiguous array is its values, packed
pub proof fn lemma_contig<T>(m: Map<int, Seq<u8>>, a: RumpyArray)
    requires opd::<T>(m, a), a.flags.c, prod(a.shape@) > 0
    ensures nonempty(a.shape@), acc(m, bid(a), a.offset as int, prod(a.shape@) * tsz::<T>()), vals::<T>(m[bid(a)], a.offset as int, prod(a.shape@)) == tvs::<T>(m, a)
{
    let sh = a.shape@; let n = prod(sh); let z = tsz::<T>();
    lemma_prod_pos(sh); lemma_unrmi_inb(n - 1, sh); lemma_addr_ok(a, unrmi(n - 1, sh)); lemma_addr_c(a, unrmi(n - 1, sh));
    assert(z * (n - 1) + z == n * z) by (nonlinear_arith);
    let (x, y) = (vals::<T>(m[bid(a)], a.offset as int, n), tvs::<T>(m, a));
    assert forall|k: int| 0 <= k < n implies x[k] == y[k] by { lemma_unrmi_inb(k, sh); lemma_addr_c(a, unrmi(k, sh)); assert(z * k == k * z) by (nonlinear_arith); }
    assert(x =~= y);
}
/// where row i (all but the last axis) starts
pub open spec fn rowb(a: RumpyArray, i: int) -> int { a.offset + dot(unrmi(i, a.shape@.drop_last()), a.strides@, a.shape@.len() - 1) }
pub proof fn lemma_row<T>(m: Map<int, Seq<u8>>, a: RumpyArray, i: int)
    requires opd::<T>(m, a), a.shape@.len() >= 1, prod(a.shape@) > 0, 0 <= i < prod(a.shape@.drop_last())
    ensures nonempty(a.shape@), ({ let l = a.shape@.last() as int; let st = a.strides@.last() as int;
        &&& l > 0 && 0 <= i * l && i * l + l <= prod(a.shape@)
        &&& 0 <= rowb(a, i) <= blen(bid(a))
        &&& sacc::<T>(m, bid(a), rowb(a, i), st, l)
        &&& sv::<T>(m[bid(a)], rowb(a, i), st, l) == tvs::<T>(m, a).subrange(i * l, i * l + l) })
{
    let sh = a.shape@; let o = sh.drop_last(); let l = sh.last() as int; let st = a.strides@.last() as int; let n = sh.len() as int; let z = tsz::<T>();
    lemma_prod_pos(sh); assert(sh[n - 1] > 0); lemma_chunk_bound(i, prod(o), l);
    lemma_unrmi_len(i, o);
    assert forall|j: int| 0 <= j < l implies sat(rowb(a, i), st, j) == addr(a, unrmi(i * l + j, sh)) && 0 <= #[trigger] sat(rowb(a, i), st, j) && sat(rowb(a, i), st, j) + z <= blen(bid(a)) by {
        let k = i * l + j; let u = unrmi(k, sh);
        lemma_fundamental_div_mod_converse(k, l, i, j);
        assert(u =~= unrmi(i, o).push(j as usize));
        lemma_unrmi_inb(k, sh); lemma_addr_ok(a, u);
        lemma_dot_ext(u, unrmi(i, o), a.strides@, a.strides@, n - 1);
        assert(u[n - 1] == j as usize);
    }
    assert(0 * st == 0) by (nonlinear_arith);
    assert(sat(rowb(a, i), st, 0) == rowb(a, i));
    let (x, y) = (sv::<T>(m[bid(a)], rowb(a, i), st, l), tvs::<T>(m, a).subrange(i * l, i * l + l));
    assert forall|j: int| 0 <= j < l implies x[j] == y[j] by { assert(sat(rowb(a, i), st, j) == addr(a, unrmi(i * l + j, sh))); }
    assert(x =~= y);
}
pub proof fn lemma_row0<T>(m: Map<int, Seq<u8>>, a: RumpyArray)
    requires opd::<T>(m, a), a.shape@.len() == 1, prod(a.shape@) > 0
    ensures nonempty(a.shape@), prod(a.shape@) == a.shape@[0], rowb(a, 0) == a.offset, sacc::<T>(m, bid(a), a.offset as int, a.strides@[0] as int, prod(a.shape@)),
        sv::<T>(m[bid(a)], a.offset as int, a.strides@[0] as int, prod(a.shape@)) == tvs::<T>(m, a)
{
    let o = a.shape@.drop_last(); assert(o =~= Seq::<usize>::empty()); assert(prod(o) == 1); assert(1 * (a.shape@.last() as int) == a.shape@.last() as int);
    lemma_row::<T>(m, a, 0); assert(0 * (a.shape@.last() as int) == 0); assert(tvs::<T>(m, a).subrange(0, prod(a.shape@)) =~= tvs::<T>(m, a));
}
pub proof fn lemma_pt<T>(m: Map<int, Seq<u8>>, a: RumpyArray)
    requires opd::<T>(m, a), a.shape@.len() == 0
    ensures nonempty(a.shape@), prod(a.shape@) == 1, sacc::<T>(m, bid(a), a.offset as int, 0, 1), sv::<T>(m[bid(a)], a.offset as int, 0, 1) == tvs::<T>(m, a)
{
    let sh = a.shape@; let u = unrmi(0, sh); lemma_unrmi_inb(0, sh); lemma_addr_ok(a, u); assert(dot(u, a.strides@, 0) == 0);
    assert forall|i: int| 0 <= i < 1 implies 0 <= #[trigger] sat(a.offset as int, 0, i) && sat(a.offset as int, 0, i) + tsz::<T>() <= blen(bid(a)) by { assert(i * 0 == 0) by (nonlinear_arith); }
    assert(0int * 0 == 0) by (nonlinear_arith);
    assert(sv::<T>(m[bid(a)], a.offset as int, 0, 1) =~= tvs::<T>(m, a));
}
/// two adjacent pieces
pub proof fn lemma_wrote_cat<T>(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, m2: Map<int, Seq<u8>>, b: int, o: int, s: Seq<T>, t: Seq<T>)
    requires wrote(m0, m1, b, o, s), wrote(m1, m2, b, o + s.len() * tsz::<T>(), t), 0 <= o, o + (s.len() + t.len()) * tsz::<T>() <= m0[b].len()
    ensures wrote(m0, m2, b, o, s + t)
{
    lemma_tsz::<T>(); let z = tsz::<T>(); let u = s + t; let o2 = o + s.len() * z;
    assert(u.len() * z == s.len() * z + t.len() * z) by (nonlinear_arith) requires u.len() == s.len() + t.len();
    assert(0 <= s.len() * z && 0 <= t.len() * z) by (nonlinear_arith) requires z >= 1;
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] chunk(m2[b], o, i, z) == enc(u[i]) by {
        if i < s.len() { lemma_chunk_bound(i, s.len() as int, z); assert(get(m2[b], o + i * z, z) == get(m1[b], o + i * z, z)); assert(chunk(m1[b], o, i, z) == enc(s[i])); }
        else { let j = i - s.len(); assert(i * z == s.len() * z + j * z) by (nonlinear_arith) requires i == s.len() + j; assert(chunk(m2[b], o2, j, z) == enc(t[j])); }
    }
    assert forall|p: int, n: int| 0 <= p && 0 <= n && p + n <= m0[b].len() && (p + n <= o || o + u.len() * z <= p) implies #[trigger] get(m2[b], p, n) == get(m0[b], p, n) by {
        assert(get(m2[b], p, n) == get(m1[b], p, n)); assert(get(m1[b], p, n) == get(m0[b], p, n));
    }
}
/// one more row
pub proof fn lemma_rows<T>(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, m2: Map<int, Seq<u8>>, b: int, i: int, l: int, full: Seq<T>, row: Seq<T>)
    requires wrote(m0, m1, b, 0, full.take(i * l)), wrote(m1, m2, b, (i * l) * tsz::<T>(), row), row =~= full.subrange(i * l, i * l + l), 0 <= i * l, 0 <= l, i * l + l <= full.len(), full.len() * tsz::<T>() <= m0[b].len()
    ensures wrote(m0, m2, b, 0, full.take((i + 1) * l)), (i + 1) * l == i * l + l
{
    lemma_tsz::<T>(); let z = tsz::<T>();
    assert((i + 1) * l == i * l + l) by (nonlinear_arith);
    assert((i * l + l) * z <= full.len() * z) by (nonlinear_arith) requires i * l + l <= full.len(), z >= 1;
    lemma_wrote_cat(m0, m1, m2, b, 0, full.take(i * l), row);
    assert(full.take(i * l) + row =~= full.take((i + 1) * l));
}
/// the result is complete
pub proof fn lemma_done<T>(r: RumpyArray, m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, sh: Seq<usize>, dt: DType, full: Seq<T>)
    requires fresh(r, m0, mz, sh, dt), wrote(mz, m1, bid(r), 0, full), full.len() == prod(sh), dt_size(dt) == tsz::<T>()
    ensures fresh(r, m0, m1, sh, dt), tvs::<T>(m1, r) == full
{
    lemma_prod_pos(sh);
    assert forall|k: int| 0 <= k < prod(sh) implies tvs::<T>(m1, r)[k] == full[k] by {
        lemma_unrmi_inb(k, sh); lemma_packed(m1, r, unrmi(k, sh)); lemma_codec(full[k]); assert(chunk(m1[bid(r)], 0, k, tsz::<T>()) == enc(full[k]));
    }
    assert(tvs::<T>(m1, r) =~= full);
}
/// offset arithmetic over a prefix of the axes cannot overflow
pub proof fn lemma_prefix(a: RumpyArray, idx: Seq<usize>, k: int)
    requires wf(a), idx.len() <= a.shape@.len(), 0 <= k < idx.len(), inb(idx, a.shape@.take(idx.len() as int))
    ensures -imax() <= dot(idx, a.strides@, k) <= imax(), -imax() <= dot(idx, a.strides@, k + 1) <= imax(), idx[k] <= imax(), -imax() <= (idx[k] as int) * (a.strides@[k] as int) <= imax()
{
    let sh = a.shape@; let st = a.strides@; let n = sh.len() as int;
    let x = idx + Seq::new((n - idx.len()) as nat, |i: int| 0usize);
    assert forall|i: int| 0 <= i < n implies ((#[trigger] x[i]) as int) < max1(sh[i]) by { if i < idx.len() { assert(idx[i] < sh.take(idx.len() as int)[i]); } }
    lemma_dot_range(x, sh, st, k); lemma_dot_range(x, sh, st, k + 1);
    lemma_dot_ext(x, idx, st, st, k); lemma_dot_ext(x, idx, st, st, k + 1);
    lemma_ext_mono(sh, st, k, n); lemma_ext_mono(sh, st, k + 1, n); lemma_ext_axis(sh, st, k, n); lemma_term_range(x[k], sh[k], st[k]);
    lemma_dim_le(sh, isz(a), k); assert(idx[k] < sh.take(idx.len() as int)[k]);
}
// ---------------------------------------------------------------- lanes along an axis
/// address of element j of lane k along axis ax (lanes in row-major order of the other axes)
pub open spec fn lane_at(a: RumpyArray, ax: int, k: int, j: int) -> int { addr(a, unrmi(k, a.shape@.remove(ax)).insert(ax, j as usize)) }
pub open spec fn lnv<T>(m: Map<int, Seq<u8>>, a: RumpyArray, ax: int, k: int) -> Seq<T> {
    Seq::new(a.shape@[ax] as nat, |j: int| dec::<T>(get(m[bid(a)], lane_at(a, ax, k, j), tsz::<T>())))
}
pub proof fn lemma_drop<T>(s: Seq<T>, ax: int) requires 0 <= ax < s.len() ensures drop_axis(s, ax) == s.remove(ax), s.remove(ax).insert(ax, s[ax]) == s
{ assert(drop_axis(s, ax) =~= s.remove(ax)); assert(s.remove(ax).insert(ax, s[ax]) =~= s); }
pub proof fn lemma_ins_inb(u: Seq<usize>, sh: Seq<usize>, ax: int, j: int)
    requires 0 <= ax < sh.len(), inb(u, sh.remove(ax)), 0 <= j < sh[ax]
    ensures inb(u.insert(ax, j as usize), sh), u.insert(ax, j as usize).remove(ax) == u, u.insert(ax, j as usize).len() == sh.len()
{
    let v = u.insert(ax, j as usize); assert(v.remove(ax) =~= u);
    assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] v[i]) < sh[i] by { if i < ax { assert(u[i] < sh.remove(ax)[i]); } else if i > ax { assert(u[i - 1] < sh.remove(ax)[i - 1]); } }
}
pub proof fn lemma_prod_remove(s: Seq<usize>, k: int)
    requires 0 <= k < s.len() ensures prod(s) == prod(s.remove(k)) * s[k] decreases s.len()
{
    if k == s.len() - 1 { assert(s.remove(k) =~= s.drop_last()); }
    else {
        lemma_prod_remove(s.drop_last(), k);
        assert(s.remove(k).drop_last() =~= s.drop_last().remove(k)); assert(s.remove(k).last() == s.last());
        let a = prod(s.drop_last().remove(k)); let b = s[k] as int; let c = s.last() as int;
        assert((a * b) * c == (a * c) * b) by (nonlinear_arith);
    }
}
pub proof fn lemma_ext_remove(sh: Seq<usize>, st: Seq<isize>, k: int, n: int)
    requires sh.len() == st.len(), 0 <= k < n <= sh.len()
    ensures ext_lo(sh, st, n) <= ext_lo(sh.remove(k), st.remove(k), n - 1) <= 0, 0 <= ext_hi(sh.remove(k), st.remove(k), n - 1) <= ext_hi(sh, st, n)
    decreases n
{
    let (a, b) = (sh.remove(k), st.remove(k));
    lemma_span_sign(sh[n - 1], st[n - 1]);
    if n == k + 1 { lemma_ext_eq(sh, st, a, b, k); lemma_ext_mono(sh, st, 0, k); }
    else { lemma_ext_remove(sh, st, k, n - 1); assert(a[n - 2] == sh[n - 1] && b[n - 2] == st[n - 1]); }
}
/// the iterator over the other axes can be made
pub proof fn lemma_axis_box(a: RumpyArray, ax: int)
    requires wf(a), 0 <= ax < a.shape@.len()
    ensures box_ok(osh_of(a.shape@, ax), ost_of(a.strides@, ax), 0),
        prod(osh_of(a.shape@, ax)) == prod(a.shape@.remove(ax)), pmax(osh_of(a.shape@, ax)) == pmax(a.shape@.remove(ax)), 1 <= pmax(a.shape@.remove(ax)) * isz(a) <= imax()
{
    let (sh, st) = (a.shape@, a.strides@); let n = sh.len() as int; let (x, y) = (sh.remove(ax), st.remove(ax));
    lemma_drop(sh, ax); lemma_drop(st, ax); lemma_pmax_remove(sh, ax); lemma_pmax(x); lemma_ext_remove(sh, st, ax, n); lemma_pmax_le(sh, isz(a));
    assert(pmax(x) <= pmax(sh)) by (nonlinear_arith) requires pmax(sh) == pmax(x) * max1(sh[ax]), pmax(x) >= 1, max1(sh[ax]) >= 1;
    assert(1 <= pmax(x) * isz(a) <= pmax(sh) * isz(a)) by (nonlinear_arith) requires 1 <= pmax(x) <= pmax(sh), isz(a) >= 1;
    if x.len() == 0 {
        let (o, p) = (seq![1usize], seq![0isize]);
        assert(o.drop_last() =~= Seq::<usize>::empty()); assert(x =~= Seq::<usize>::empty());
        reveal_with_fuel(prod, 2); reveal_with_fuel(pmax, 2); reveal_with_fuel(ext_lo, 2); reveal_with_fuel(ext_hi, 2);
        assert(o.len() == 1 && o.last() == 1usize); assert(prod(Seq::<usize>::empty()) == 1); assert(pmax(Seq::<usize>::empty()) == 1);
        assert(prod(o) == prod(o.drop_last()) * (o.last() as int)); assert(pmax(o) == pmax(o.drop_last()) * max1(o.last()));
        assert(prod(o) == 1 && pmax(o) == 1);
    }
}
/// where lane k starts, and what it holds
pub proof fn lemma_lane<T>(m: Map<int, Seq<u8>>, a: RumpyArray, ax: int, k: int)
    requires opd::<T>(m, a), 0 <= ax < a.shape@.len(), 0 <= k < prod(a.shape@.remove(ax)), a.shape@[ax] > 0
    ensures nonempty(a.shape@), ({ let b = a.offset + si_at(osh_of(a.shape@, ax), ost_of(a.strides@, ax), 0, k); let l = a.shape@[ax] as int; let st = a.strides@[ax] as int;
        &&& 0 <= b <= blen(bid(a)) && l <= imax()
        &&& sacc::<T>(m, bid(a), b, st, l)
        &&& sv::<T>(m[bid(a)], b, st, l) == lnv::<T>(m, a, ax, k) })
{
    let (sh, st) = (a.shape@, a.strides@); let n = sh.len() as int; let (x, y) = (sh.remove(ax), st.remove(ax)); let u = unrmi(k, x); let z = tsz::<T>();
    let b = a.offset + si_at(osh_of(sh, ax), ost_of(st, ax), 0, k); let l = sh[ax] as int; let s = st[ax] as int;
    lemma_drop(sh, ax); lemma_drop(st, ax); lemma_unrmi_inb(k, x); lemma_dim_le(sh, isz(a), ax);
    if x.len() == 0 {
        assert(x =~= Seq::<usize>::empty()); assert(prod(x) == 1); let w = unrmi(0, seq![1usize]); assert(ost_of(st, ax) =~= seq![0isize]); assert(osh_of(sh, ax) =~= seq![1usize]);
        reveal_with_fuel(dot, 2); lemma_unrmi_len(0, seq![1usize]); assert((w[0] as int) * 0 == 0); assert(dot(w, seq![0isize], 1) == 0); assert(dot(u, y, 0) == 0);
    }
    assert(b == a.offset + dot(u, y, n - 1));
    assert forall|j: int| 0 <= j < l implies sat(b, s, j) == lane_at(a, ax, k, j) && 0 <= #[trigger] sat(b, s, j) && sat(b, s, j) + z <= blen(bid(a)) by {
        let v = u.insert(ax, j as usize); lemma_ins_inb(u, sh, ax, j); lemma_addr_ok(a, v); lemma_dot_remove(v, st, ax); lemma_inb_box(v, sh);
    }
    assert(0 * s == 0) by (nonlinear_arith); assert(sat(b, s, 0) == b); lemma_ins_inb(u, sh, ax, 0); lemma_inb_box(u.insert(ax, 0usize), sh);
    let (p, q) = (sv::<T>(m[bid(a)], b, s, l), lnv::<T>(m, a, ax, k));
    assert forall|j: int| 0 <= j < l implies p[j] == q[j] by { assert(sat(b, s, j) == lane_at(a, ax, k, j)); }
    assert(p =~= q);
}
pub proof fn lemma_lane_keep<T>(m0: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, a: RumpyArray, ax: int, k: int)
    requires m[bid(a)] == m0[bid(a)] ensures lnv::<T>(m, a, ax, k) == lnv::<T>(m0, a, ax, k) { assert(lnv::<T>(m, a, ax, k) =~= lnv::<T>(m0, a, ax, k)); }
/// packed values, one apart, are the slice
pub proof fn lemma_sv_vals<T>(s: Seq<u8>, o: int, n: int) ensures sv::<T>(s, o, tsz::<T>(), n) == vals::<T>(s, o, n)
{ assert(sv::<T>(s, o, tsz::<T>(), n) =~= vals::<T>(s, o, n)); }
pub proof fn lemma_sacc_acc<T>(m: Map<int, Seq<u8>>, b: int, o: int, n: int)
    requires sacc::<T>(m, b, o, tsz::<T>(), n), n > 0 ensures acc(m, b, o, n * tsz::<T>())
{ let z = tsz::<T>(); assert(0 <= sat(o, z, 0)); assert(sat(o, z, n - 1) + z <= blen(b)); assert(0 * z == 0) by (nonlinear_arith); assert((n - 1) * z + z == n * z) by (nonlinear_arith); }
/// overwriting one of the values written
pub proof fn lemma_wrote_upd<T>(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, b: int, o: int, s: Seq<T>, i: int, v: T)
    requires wrote(m0, m1, b, o, s), live(m0, b), 0 <= o, 0 <= i < s.len(), o + s.len() * tsz::<T>() <= blen(b)
    ensures wrote(m0, m1.insert(b, bput(m1[b], o + i * tsz::<T>(), enc(v))), b, o, s.update(i, v)), live(m1, b), acc(m1, b, o + i * tsz::<T>(), tsz::<T>()),
        dec::<T>(get(m1[b], o + i * tsz::<T>(), tsz::<T>())) == s[i]
{
    lemma_tsz::<T>(); lemma_codec(v); lemma_codec(s[i]); let z = tsz::<T>(); let n = s.len() as int; lemma_chunk_bound(i, n, z);
    lemma_put_chunk(m1[b], o, i, n, z, enc(v)); assert(chunk(m1[b], o, i, z) == enc(s[i]));
    let m2 = m1.insert(b, bput(m1[b], o + i * z, enc(v))); let t = s.update(i, v);
    assert(m2.dom() =~= m0.dom());
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] chunk(m2[b], o, k, z) == enc(t[k]) by { assert(chunk(m1[b], o, k, z) == enc(s[k])); }
    assert forall|p: int, l: int| 0 <= p && 0 <= l && p + l <= m0[b].len() && (p + l <= o || o + t.len() * z <= p) implies #[trigger] get(m2[b], p, l) == get(m0[b], p, l) by {
        lemma_put(m1[b], o + i * z, enc(v), p, l); assert(get(m1[b], p, l) == get(m0[b], p, l));
    }
}
/// row-major position over a concatenated shape
pub proof fn lemma_rmi_cat(p: Seq<usize>, q: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires p.len() == a.len(), q.len() == b.len()
    ensures rmi(p + q, a + b) == rmi(p, a) * prod(b) + rmi(q, b), prod(a + b) == prod(a) * prod(b)
    decreases q.len()
{
    if q.len() == 0 { assert(p + q =~= p); assert(a + b =~= a); assert(b =~= Seq::<usize>::empty()); }
    else {
        lemma_rmi_cat(p, q.drop_last(), a, b.drop_last());
        assert((p + q).drop_last() =~= p + q.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last());
        let (x, y, z, l) = (rmi(p, a), prod(b.drop_last()), rmi(q.drop_last(), b.drop_last()), b.last() as int);
        assert((x * y + z) * l == x * (y * l) + z * l) by (nonlinear_arith);
        let pa = prod(a); assert((pa * y) * l == pa * (y * l)) by (nonlinear_arith);
    }
}
/// lane o*I+x of a C-ordered array: element j is element (o*L+j)*I+x of the array
pub proof fn lemma_lane_c<T>(m: Map<int, Seq<u8>>, a: RumpyArray, ax: int, o: int, j: int, x: int)
    requires opd::<T>(m, a), a.flags.c, 0 <= ax < a.shape@.len(), 0 <= j < a.shape@[ax], 0 <= o < prod(a.shape@.take(ax)), 0 <= x < prod(a.shape@.skip(ax + 1))
    ensures ({ let i = prod(a.shape@.skip(ax + 1)); let q = prod(a.shape@.take(ax)); let l = a.shape@[ax] as int; let s = (o * l + j) * i + x;
        &&& prod(a.shape@.remove(ax)) == q * i && prod(a.shape@) == (q * l) * i
        &&& 0 <= o * i + x < q * i && 0 <= s < prod(a.shape@)
        &&& 0 <= a.offset + s * tsz::<T>() && a.offset + (s + 1) * tsz::<T>() <= blen(bid(a)) && (s + 1) * tsz::<T>() == s * tsz::<T>() + tsz::<T>()
        &&& dec::<T>(get(m[bid(a)], a.offset + s * tsz::<T>(), tsz::<T>())) == lnv::<T>(m, a, ax, o * i + x)[j] })
{
    let sh = a.shape@; let (pa, pb_) = (sh.take(ax), sh.skip(ax + 1)); let i = prod(pb_); let q = prod(pa); let l = sh[ax] as int; let k = o * i + x; let z = tsz::<T>();
    let r = sh.remove(ax); assert(r =~= pa + pb_); let (e, f) = (pa.push(sh[ax]), pb_); assert(sh =~= e + f); assert(e.drop_last() =~= pa);
    lemma_chunk_bound(o, q, i);
    let u = unrmi(k, r); 
    lemma_rmi_cat(Seq::new(pa.len(), |t: int| 0usize), Seq::new(pb_.len(), |t: int| 0usize), pa, pb_);
    lemma_rmi_cat(Seq::new(e.len(), |t: int| 0usize), Seq::new(f.len(), |t: int| 0usize), e, f);
    lemma_unrmi_inb(k, r); let (u1, u2) = (u.take(ax), u.skip(ax)); assert(u =~= u1 + u2);
    assert forall|t: int| 0 <= t < u1.len() implies (#[trigger] u1[t]) < pa[t] by { assert(u[t] < r[t]); }
    assert forall|t: int| 0 <= t < u2.len() implies (#[trigger] u2[t]) < pb_[t] by { assert(u[ax + t] < r[ax + t]); }
    lemma_rmi_cat(u1, u2, pa, pb_); lemma_rmi_bound(u1, pa); lemma_rmi_bound(u2, pb_);
    let (a1, a2) = (rmi(u1, pa), rmi(u2, pb_));
    if a1 > o { assert(a1 * i >= o * i + i) by (nonlinear_arith) requires a1 >= o + 1, i >= 0; }
    if a1 < o { assert(o * i >= a1 * i + i) by (nonlinear_arith) requires o >= a1 + 1, i >= 0; }
    let v = u.insert(ax, j as usize); lemma_ins_inb(u, sh, ax, j); let v1 = u1.push(j as usize); assert(v =~= v1 + u2); assert(v1.drop_last() =~= u1);
    lemma_rmi_cat(v1, u2, e, f); lemma_addr_ok(a, v); lemma_addr_c(a, v); let s = (o * l + j) * i + x;
    lemma_rmi_bound(v, sh);
    assert(z * s == s * z && (s + 1) * z == s * z + z) by (nonlinear_arith);
}
/// how many elements of lane k have been combined when rows of i lanes are taken in turn
pub open spec fn prog(k: int, b: int, i: int, l: int, j: int, x: int) -> int { if k < b { l } else if k < b + x { j + 1 } else if k < b + i { j } else { 0 } }
/// the accumulators: lane k after prog(k) elements
pub open spec fn acst<T, K: ReduceKernel<T>>(m: Map<int, Seq<u8>>, a: RumpyArray, ax: int, n: int, b: int, i: int, l: int, j: int, x: int) -> Seq<T> { Seq::new(n as nat, |k: int| lf::<T, K>(lnv::<T>(m, a, ax, k), prog(k, b, i, l, j, x))) }
pub proof fn lemma_pmax_cat(a: Seq<usize>, b: Seq<usize>)
    ensures pmax(a + b) == pmax(a) * pmax(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_pmax_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last());
        let (x, y, l) = (pmax(a), pmax(b.drop_last()), max1(b.last())); assert((x * y) * l == x * (y * l)) by (nonlinear_arith); }
}
pub proof fn lemma_pmax_skip(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len() ensures 1 <= pmax(s.skip(i)) <= pmax(s), 1 <= pmax(s.take(i)) <= pmax(s)
{ lemma_pmax_cat(s.take(i), s.skip(i)); assert(s.take(i) + s.skip(i) =~= s); lemma_pmax(s.take(i)); lemma_pmax(s.skip(i)); let (a, b) = (pmax(s.take(i)), pmax(s.skip(i)));
  assert(a <= a * b && b <= a * b) by (nonlinear_arith) requires a >= 1, b >= 1; }
// ---------------------------------------------------------------- cumulative results
/// position of element j of lane k in row-major order
pub open spec fn lpos(sh: Seq<usize>, ax: int, k: int, j: int) -> int { rmi(unrmi(k, sh.remove(ax)).insert(ax, j as usize), sh) }
pub proof fn lemma_lpos(sh: Seq<usize>, ax: int, k: int, j: int)
    requires 0 <= ax < sh.len(), 0 <= k < prod(sh.remove(ax)), 0 <= j < sh[ax]
    ensures 0 <= lpos(sh, ax, k, j) < prod(sh), unrmi(lpos(sh, ax, k, j), sh) == unrmi(k, sh.remove(ax)).insert(ax, j as usize), inb(unrmi(k, sh.remove(ax)).insert(ax, j as usize), sh)
{ let u = unrmi(k, sh.remove(ax)); lemma_unrmi_inb(k, sh.remove(ax)); lemma_ins_inb(u, sh, ax, j); lemma_rmi_bound(u.insert(ax, j as usize), sh); lemma_rmi_inv(u.insert(ax, j as usize), sh); }
pub proof fn lemma_lpos_inj(sh: Seq<usize>, ax: int, k: int, j: int, k2: int, j2: int)
    requires 0 <= ax < sh.len(), 0 <= k < prod(sh.remove(ax)), 0 <= j < sh[ax], 0 <= k2 < prod(sh.remove(ax)), 0 <= j2 < sh[ax], lpos(sh, ax, k, j) == lpos(sh, ax, k2, j2)
    ensures k == k2, j == j2
{
    let x = sh.remove(ax); let (u, u2) = (unrmi(k, x), unrmi(k2, x)); lemma_lpos(sh, ax, k, j); lemma_lpos(sh, ax, k2, j2);
    lemma_unrmi_inb(k, x); lemma_unrmi_inb(k2, x); lemma_ins_inb(u, sh, ax, j); lemma_ins_inb(u2, sh, ax, j2);
    assert(u.insert(ax, j as usize)[ax] == u2.insert(ax, j2 as usize)[ax]);
}
/// lanes before (k0, j0) hold their running folds; nothing outside r changed
pub open spec fn cumst<T, K: ReduceKernel<T>>(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray, ax: int, k0: int, j0: int) -> bool {
    &&& m.dom() == mz.dom() && m[bid(r)].len() == mz[bid(r)].len()
    &&& forall|c: int| c != bid(r) ==> #[trigger] m[c] == mz[c]
    &&& forall|k: int, j: int| 0 <= k < prod(a.shape@.remove(ax)) && 0 <= j < a.shape@[ax] && (k < k0 || (k == k0 && j < j0)) ==> chunk(m[bid(r)], 0, #[trigger] lpos(a.shape@, ax, k, j), tsz::<T>()) == enc(lf::<T, K>(lnv::<T>(m0, a, ax, k), j + 1))
}
pub proof fn lemma_cum_step<T, K: ReduceKernel<T>>(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray, ax: int, k0: int, j0: int, dt: DType, v: T)
    requires cumst::<T, K>(m0, mz, m, a, r, ax, k0, j0), fresh(r, m0, mz, a.shape@, dt), dt_size(dt) == tsz::<T>(), 0 <= ax < a.shape@.len(), 0 <= k0 < prod(a.shape@.remove(ax)), 0 <= j0 < a.shape@[ax], v == lf::<T, K>(lnv::<T>(m0, a, ax, k0), j0 + 1)
    ensures ({ let p = lpos(a.shape@, ax, k0, j0); let z = tsz::<T>(); 0 <= p < prod(a.shape@) && acc(m, bid(r), p * z, z) && p * z + z <= blen(bid(r))
        && cumst::<T, K>(m0, mz, m.insert(bid(r), bput(m[bid(r)], p * z, enc(v))), a, r, ax, k0, j0 + 1) })
{
    let sh = a.shape@; let p = lpos(sh, ax, k0, j0); let z = tsz::<T>(); let n = prod(sh); let b = bid(r);
    lemma_lpos(sh, ax, k0, j0); lemma_tsz::<T>(); lemma_codec(v); lemma_chunk_bound(p, n, z);
    lemma_put_chunk(m[b], 0, p, n, z, enc(v)); assert(0 + p * z == p * z);
    let m2 = m.insert(b, bput(m[b], p * z, enc(v))); assert(m2.dom() =~= mz.dom());
    assert forall|k: int, j: int| 0 <= k < prod(sh.remove(ax)) && 0 <= j < sh[ax] && (k < k0 || (k == k0 && j < j0 + 1)) implies chunk(m2[b], 0, #[trigger] lpos(sh, ax, k, j), z) == enc(lf::<T, K>(lnv::<T>(m0, a, ax, k), j + 1)) by {
        lemma_lpos(sh, ax, k, j);
        if lpos(sh, ax, k, j) == p { lemma_lpos_inj(sh, ax, k, j, k0, j0); } else { assert(chunk(m[b], 0, lpos(sh, ax, k, j), z) == enc(lf::<T, K>(lnv::<T>(m0, a, ax, k), j + 1))); }
    }
}
pub proof fn lemma_cum_next<T, K: ReduceKernel<T>>(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray, ax: int, k0: int)
    requires cumst::<T, K>(m0, mz, m, a, r, ax, k0, a.shape@[ax] as int) ensures cumst::<T, K>(m0, mz, m, a, r, ax, k0 + 1, 0) {}
/// a whole lane written at once
pub proof fn lemma_cum_lane<T, K: ReduceKernel<T>>(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, m2: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray, ax: int, k0: int, dt: DType, s: Seq<T>)
    requires cumst::<T, K>(m0, mz, m, a, r, ax, k0, 0), fresh(r, m0, mz, a.shape@, dt), dt_size(dt) == tsz::<T>(), 0 <= ax < a.shape@.len(), 0 <= k0 < prod(a.shape@.remove(ax)),
        wrote(m, m2, bid(r), (k0 * a.shape@[ax]) * tsz::<T>(), s), s.len() == a.shape@[ax], forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == lf::<T, K>(lnv::<T>(m0, a, ax, k0), j + 1),
        forall|k: int, j: int| 0 <= k < prod(a.shape@.remove(ax)) && 0 <= j < a.shape@[ax] ==> #[trigger] lpos(a.shape@, ax, k, j) == k * a.shape@[ax] + j,
    ensures cumst::<T, K>(m0, mz, m2, a, r, ax, k0 + 1, 0)
{
    let sh = a.shape@; let z = tsz::<T>(); let n = prod(sh); let b = bid(r); let l = sh[ax] as int; lemma_tsz::<T>();
    assert(m2.dom() =~= mz.dom());
    assert(prod(sh) == prod(sh.remove(ax)) * l) by { lemma_prod_remove(sh, ax); }
    assert forall|k: int, j: int| 0 <= k < prod(sh.remove(ax)) && 0 <= j < sh[ax] && k < k0 + 1 implies chunk(m2[b], 0, #[trigger] lpos(sh, ax, k, j), z) == enc(lf::<T, K>(lnv::<T>(m0, a, ax, k), j + 1)) by {
        let p = lpos(sh, ax, k, j); lemma_lpos(sh, ax, k, j); lemma_chunk_bound(p, n, z);
        if k == k0 { assert((k * l + j) * z == (k0 * l) * z + j * z) by (nonlinear_arith) requires k == k0; assert(chunk(m2[b], (k0 * l) * z, j, z) == enc(s[j])); }
        else {
            assert((k + 1) * l == k * l + l) by (nonlinear_arith); assert((k + 1) * l <= k0 * l) by (nonlinear_arith) requires k + 1 <= k0, l >= 0;
            assert(p * z + z <= (k0 * l) * z) by (nonlinear_arith) requires p + 1 <= k0 * l, z >= 1;
            assert(get(m2[b], p * z, z) == get(m[b], p * z, z)); assert(chunk(m[b], 0, p, z) == enc(lf::<T, K>(lnv::<T>(m0, a, ax, k), j + 1)));
        }
    }
}
pub proof fn lemma_suf_skip(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len() ensures suf(s, i) == prod(s.skip(i)) decreases s.len()
{
    if i == s.len() { assert(s.skip(i) =~= Seq::<usize>::empty()); }
    else { lemma_suf_drop(s, i); lemma_suf_skip(s.drop_last(), i); assert(s.skip(i).drop_last() =~= s.drop_last().skip(i)); }
}
/// lane k, element j, of an axis followed only by axes of length one (or itself of length one)
pub proof fn lemma_lpos_c(sh: Seq<usize>, ax: int, k: int, j: int)
    requires 0 <= ax < sh.len(), 0 <= k < prod(sh.remove(ax)), 0 <= j < sh[ax], sh[ax] == 1 || prod(sh.skip(ax + 1)) == 1
    ensures lpos(sh, ax, k, j) == k * sh[ax] + j
{
    let (pa, pc) = (sh.take(ax), sh.skip(ax + 1)); let i = prod(pc); let q = prod(pa); let l = sh[ax] as int;
    let r = sh.remove(ax); assert(r =~= pa + pc); let e = pa.push(sh[ax]); assert(sh =~= e + pc); assert(e.drop_last() =~= pa);
    let u = unrmi(k, r); lemma_unrmi_inb(k, r); let (u1, u2) = (u.take(ax), u.skip(ax)); assert(u =~= u1 + u2);
    lemma_rmi_cat(u1, u2, pa, pc); let v1 = u1.push(j as usize); assert(u.insert(ax, j as usize) =~= v1 + u2); assert(v1.drop_last() =~= u1);
    lemma_rmi_cat(v1, u2, e, pc); let (a1, a2) = (rmi(u1, pa), rmi(u2, pc));
    assert forall|t: int| 0 <= t < u2.len() implies (#[trigger] u2[t]) < pc[t] by { assert(u[ax + t] < r[ax + t]); }
    lemma_rmi_bound(u2, pc);
    assert((a1 * l + j) * i + a2 == k * l + j) by (nonlinear_arith) requires k == a1 * i + a2, 0 <= a2 < i, l == 1 || i == 1, 0 <= j < l;
}
/// the finished result
pub proof fn lemma_cum_done<T, K: ReduceKernel<T>>(m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray, ax: int, dt: DType)
    requires cumst::<T, K>(m0, mz, m, a, r, ax, prod(a.shape@.remove(ax)), 0), fresh(r, m0, mz, a.shape@, dt), dt_size(dt) == tsz::<T>(), 0 <= ax < a.shape@.len()
    ensures fresh(r, m0, m, a.shape@, dt), forall|k: int, j: int| 0 <= k < prod(a.shape@.remove(ax)) && 0 <= j < a.shape@[ax] ==> #[trigger] lnv::<T>(m, r, ax, k)[j] == lf::<T, K>(lnv::<T>(m0, a, ax, k), j + 1)
{
    let sh = a.shape@;
    assert forall|k: int, j: int| 0 <= k < prod(sh.remove(ax)) && 0 <= j < sh[ax] implies #[trigger] lnv::<T>(m, r, ax, k)[j] == lf::<T, K>(lnv::<T>(m0, a, ax, k), j + 1) by {
        let v = lf::<T, K>(lnv::<T>(m0, a, ax, k), j + 1); lemma_lpos(sh, ax, k, j); lemma_codec(v); let idx = unrmi(k, sh.remove(ax)).insert(ax, j as usize);
        lemma_packed(m, r, idx); assert(chunk(m[bid(r)], 0, lpos(sh, ax, k, j), tsz::<T>()) == enc(v));
    }
}
/// row-major position, from the last axis
pub open spec fn sdot(idx: Seq<usize>, sh: Seq<usize>, i: int) -> int decreases sh.len() - i { if i >= sh.len() || i >= idx.len() { 0 } else { sdot(idx, sh, i + 1) + (idx[i] as int) * suf(sh, i + 1) } }
pub proof fn lemma_sdot(idx: Seq<usize>, sh: Seq<usize>, i: int)
    requires inb(idx, sh), 0 <= i <= sh.len()
    ensures rmi(idx, sh) == rmi(idx.take(i), sh.take(i)) * suf(sh, i) + sdot(idx, sh, i), 0 <= sdot(idx, sh, i) < suf(sh, i)
    decreases sh.len() - i
{
    if i == sh.len() { assert(idx.take(i) =~= idx); assert(sh.take(i) =~= sh); assert(rmi(idx, sh) * 1 == rmi(idx, sh)); }
    else {
        lemma_sdot(idx, sh, i + 1); assert(idx[i] < sh[i]);
        assert(idx.take(i + 1).drop_last() =~= idx.take(i)); assert(sh.take(i + 1).drop_last() =~= sh.take(i));
        let (a, l, x, s, d) = (rmi(idx.take(i), sh.take(i)), sh[i] as int, idx[i] as int, suf(sh, i + 1), sdot(idx, sh, i + 1));
        assert((a * l + x) * s + d == a * (l * s) + (d + x * s)) by (nonlinear_arith);
        assert(0 <= d + x * s < l * s) by (nonlinear_arith) requires 0 <= d < s, 0 <= x < l;
    }
}
/// the k-th offset of the element iterator is the k-th element
pub proof fn lemma_offs<T>(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires opd::<T>(m, a), 0 <= k < prod(a.shape@)
    ensures ({ let o = a.offset + si_at(a.shape@, a.strides@, 0, k); acc(m, bid(a), o, tsz::<T>()) && 0 <= o <= blen(bid(a)) && dec::<T>(get(m[bid(a)], o, tsz::<T>())) == tv::<T>(m, a, k) })
{ lemma_unrmi_inb(k, a.shape@); lemma_addr_ok(a, unrmi(k, a.shape@)); lemma_tsz::<T>(); }
pub proof fn lemma_lane_start<T>(a: RumpyArray, ax: int, k: int)
    requires wf(a), 0 <= ax < a.shape@.len(), 0 <= k < prod(a.shape@.remove(ax)), a.shape@[ax] > 0
    ensures a.offset + si_at(osh_of(a.shape@, ax), ost_of(a.strides@, ax), 0, k) == lane_at(a, ax, k, 0)
{
    let (sh, st) = (a.shape@, a.strides@); let n = sh.len() as int; let (x, y) = (sh.remove(ax), st.remove(ax)); let u = unrmi(k, x);
    lemma_drop(sh, ax); lemma_drop(st, ax); lemma_unrmi_inb(k, x);
    if x.len() == 0 {
        assert(x =~= Seq::<usize>::empty()); assert(prod(x) == 1); let w = unrmi(0, seq![1usize]); assert(ost_of(st, ax) =~= seq![0isize]); assert(osh_of(sh, ax) =~= seq![1usize]);
        reveal_with_fuel(dot, 2); lemma_unrmi_len(0, seq![1usize]); assert((w[0] as int) * 0 == 0); assert(dot(w, seq![0isize], 1) == 0); assert(dot(u, y, 0) == 0);
    }
    let v = u.insert(ax, 0usize); lemma_ins_inb(u, sh, ax, 0); lemma_dot_remove(v, st, ax); assert(0 * (st[ax] as int) == 0) by (nonlinear_arith);
}
// ---------------------------------------------------------------- where
/// element k of the broadcast of a to shape out
pub open spec fn bel(m: Map<int, Seq<u8>>, a: RumpyArray, out: Seq<usize>, k: int) -> Seq<u8> { elem(m, a, m_bcast(a.shape@)(unrmi(k, out))) }
pub open spec fn wsel<T>(m: Map<int, Seq<u8>>, c: RumpyArray, x: RumpyArray, y: RumpyArray, out: Seq<usize>, k: int) -> T {
    if truthy(c.dtype, bel(m, c, out, k)) { dec::<T>(bel(m, x, out, k)) } else { dec::<T>(bel(m, y, out, k)) }
}
pub proof fn lemma_bel(m: Map<int, Seq<u8>>, a: RumpyArray, b: RumpyArray, k: int)
    requires is_view(b, a, m_bcast(a.shape@)), 0 <= k < prod(b.shape@) ensures nth(m, b, k) == bel(m, a, b.shape@, k)
{ lemma_unrmi_inb(k, b.shape@); }
/// the k-th offset of a byte-wise walk
pub proof fn lemma_offs_b(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires wf(a), mok(m, a), 0 <= k < prod(a.shape@)
    ensures ({ let o = a.offset + si_at(a.shape@, a.strides@, 0, k); acc(m, bid(a), o, isz(a)) && get(m[bid(a)], o, isz(a)) == nth(m, a, k) })
{ lemma_unrmi_inb(k, a.shape@); lemma_addr_ok(a, unrmi(k, a.shape@)); }
pub proof fn lemma_nth_c(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires wf(a), mok(m, a), 0 <= k < prod(a.shape@), a.flags.c
    ensures acc(m, bid(a), a.offset + k * isz(a), isz(a)), get(m[bid(a)], a.offset + k * isz(a), isz(a)) == nth(m, a, k), 0 <= k * isz(a), a.offset + (k + 1) * isz(a) <= blen(bid(a)), (k + 1) * isz(a) == k * isz(a) + isz(a)
{ lemma_unrmi_inb(k, a.shape@); lemma_addr_ok(a, unrmi(k, a.shape@)); lemma_addr_c(a, unrmi(k, a.shape@)); let z = isz(a); assert(z * k == k * z && (k + 1) * z == k * z + z) by (nonlinear_arith); assert(0 <= k * z) by (nonlinear_arith) requires k >= 0, z >= 1; }
pub open spec fn opd0(m: Map<int, Seq<u8>>, a: RumpyArray) -> bool { wf(a) && mok(m, a) }
// ---------------------------------------------------------------- bool elements: one byte, nonzero is true
pub open spec fn bv(m: Map<int, Seq<u8>>, a: RumpyArray, k: int) -> bool { nth(m, a, k)[0] != 0 }
pub proof fn lemma_bv_c(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires wf(a), mok(m, a), 0 <= k < prod(a.shape@), a.flags.c, isz(a) == 1
    ensures acc(m, bid(a), a.offset + k, 1), bv(m, a, k) == (m[bid(a)][a.offset + k] != 0), a.offset + k + 1 <= blen(bid(a))
{ lemma_nth_c(m, a, k); assert(k * 1 == k); }
pub proof fn lemma_bv_s(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires wf(a), mok(m, a), 0 <= k < prod(a.shape@), isz(a) == 1
    ensures ({ let o = a.offset + dot(unrmi(k, a.shape@), a.strides@, a.shape@.len() as int); acc(m, bid(a), o, 1) && bv(m, a, k) == (m[bid(a)][o] != 0) && 0 <= o && o + 1 <= blen(bid(a)) })
{ lemma_unrmi_inb(k, a.shape@); lemma_addr_ok(a, unrmi(k, a.shape@)); }
