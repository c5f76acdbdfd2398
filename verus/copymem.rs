// Whole-array byte contents, and filling a packed result element by element.
/// the elements in row-major order, as bytes
pub open spec fn els(m: Map<int, Seq<u8>>, a: RumpyArray) -> Seq<Seq<u8>> { Seq::new(prod(a.shape@) as nat, |k: int| nth(m, a, k)) }
/// only buffer b differs, and its first n elements are those of s
pub open spec fn filled(mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int, n: int) -> bool {
    &&& m.dom() == mz.dom()
    &&& forall|c: int| c != b ==> #[trigger] m[c] == mz[c]
    &&& m[b].len() == mz[b].len()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] chunk(m[b], 0, k, z) == s[k]
}
pub proof fn lemma_fill_step(mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int, n: int, v: Seq<u8>)
    requires filled(mz, m, b, s, z, n), live(mz, b), 0 <= n < s.len(), s.len() * z <= blen(b), v == s[n], v.len() == z, z >= 0
    ensures filled(mz, m.insert(b, bput(m[b], n * z, v)), b, s, z, n + 1), acc(m, b, n * z, z), 0 <= n * z, n * z + z <= blen(b)
{
    lemma_put_chunk(m[b], 0, n, s.len() as int, z, v); lemma_chunk_bound(n, s.len() as int, z);
    let m2 = m.insert(b, bput(m[b], n * z, v));
    assert(m2.dom() =~= mz.dom());
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] chunk(m2[b], 0, k, z) == s[k] by { if k < n { assert(chunk(m[b], 0, k, z) == s[k]); } }
}
/// a block of l elements, copied from where the same elements already stand
pub proof fn lemma_fill_block(mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, b: int, s: Seq<Seq<u8>>, z: int, n: int, l: int)
    requires filled(mz, m, b, s, z, n), live(mz, b), 0 <= l <= n, n + l <= s.len(), s.len() * z <= blen(b), z >= 0, forall|j: int| 0 <= j < l ==> s[n + j] == #[trigger] s[j]
    ensures filled(mz, m.insert(b, bput(m[b], n * z, get(m[b], 0, l * z))), b, s, z, n + l), acc(m, b, 0, l * z), acc(m, b, n * z, l * z), l * z <= n * z, 0 <= l * z
{
    assert(0 <= l * z && l * z <= n * z && n * z + l * z <= s.len() * z) by (nonlinear_arith) requires 0 <= l <= n, n + l <= s.len(), z >= 0;
    let v = get(m[b], 0, l * z); let q = bput(m[b], n * z, v); let m2 = m.insert(b, q);
    assert(m2.dom() =~= mz.dom());
    assert(q.len() == m[b].len());
    assert forall|k: int| 0 <= k < n + l implies #[trigger] chunk(m2[b], 0, k, z) == s[k] by {
        if k < n {
            assert(k * z + z <= n * z && 0 <= k * z) by (nonlinear_arith) requires 0 <= k < n, z >= 0;
            lemma_put(m[b], n * z, v, k * z, z); assert(chunk(m[b], 0, k, z) == s[k]);
        } else {
            let j = k - n;
            assert(k * z == n * z + j * z && 0 <= j * z && j * z + z <= l * z) by (nonlinear_arith) requires k == n + j, 0 <= j < l, z >= 0;
            assert(chunk(q, 0, k, z) =~= chunk(m[b], 0, j, z)); assert(chunk(m[b], 0, j, z) == s[j]); assert(s[n + j] == s[j]);
        }
    }
}
pub proof fn lemma_fill_done(r: RumpyArray, m0: Map<int, Seq<u8>>, mz: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, sh: Seq<usize>, dt: DType, s: Seq<Seq<u8>>)
    requires fresh(r, m0, mz, sh, dt), filled(mz, m, bid(r), s, dt_size(dt), prod(sh)), s.len() == prod(sh)
    ensures fresh(r, m0, m, sh, dt), els(m, r) == s
{
    assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] els(m, r)[k] == s[k] by {
        lemma_unrmi_inb(k, sh); lemma_packed(m, r, unrmi(k, sh)); assert(chunk(m[bid(r)], 0, k, dt_size(dt)) == s[k]);
    }
    assert(els(m, r) =~= s);
}
/// where element k of a is, by the offset iterator
pub proof fn lemma_at(m: Map<int, Seq<u8>>, a: RumpyArray, k: int)
    requires wf(a), mok(m, a), 0 <= k < prod(a.shape@)
    ensures ({ let o = a.offset + si_at(a.shape@, a.strides@, 0, k); acc(m, bid(a), o, isz(a)) && get(m[bid(a)], o, isz(a)) == nth(m, a, k) && nth(m, a, k).len() == isz(a) && 0 <= o && o + isz(a) <= blen(bid(a)) })
{ lemma_unrmi_inb(k, a.shape@); lemma_unrmi_len(k, a.shape@); lemma_acc(m, a, unrmi(k, a.shape@)); }
pub proof fn lemma_els_keep(m0: Map<int, Seq<u8>>, m: Map<int, Seq<u8>>, a: RumpyArray)
    requires m[bid(a)] == m0[bid(a)] ensures els(m, a) == els(m0, a)
{ assert(els(m, a) =~= els(m0, a)); }
/// every stride is a whole number of elements
pub open spec fn aligned(a: RumpyArray) -> bool { forall|i: int| 0 <= i < a.strides@.len() ==> (#[trigger] a.strides@[i]) as int % isz(a) == 0 }
pub proof fn lemma_al_dot(a: RumpyArray, idx: Seq<usize>, n: int)
    requires aligned(a), isz(a) >= 1, 0 <= n <= a.strides@.len()
    ensures dot(idx, a.strides@, n) % isz(a) == 0
    decreases n
{
    if n > 0 {
        lemma_al_dot(a, idx, n - 1);
        let (z, st, x, d) = (isz(a), a.strides@[n - 1] as int, idx[n - 1] as int, dot(idx, a.strides@, n - 1));
        assert(st % z == 0);
        lemma_fundamental_div_mod(st, z); lemma_fundamental_div_mod(d, z);
        assert(d + x * st == z * (d / z + x * (st / z))) by (nonlinear_arith) requires d == z * (d / z), st == z * (st / z);
        lemma_fundamental_div_mod_converse(d + x * st, z, d / z + x * (st / z), 0);
    } else { lemma_small_mod(0, isz(a) as nat); }
}
/// truncating division of a multiple
pub open spec fn tq(x: int, z: int) -> int { if x >= 0 { x / z } else { -((-x) / z) } }
pub proof fn lemma_tq(x: int, z: int)
    requires z >= 1, x % z == 0 ensures tq(x, z) * z == x, z * tq(x, z) == x, x / z == tq(x, z), -(if x < 0 { -x } else { x }) <= tq(x, z) <= (if x < 0 { -x } else { x })
{
    lemma_fundamental_div_mod(x, z); let q = x / z;
    assert(z * q == q * z) by (nonlinear_arith);
    assert((-q) * z == -x) by (nonlinear_arith) requires z * q == x;
    lemma_fundamental_div_mod_converse(-x, z, -q, 0);
    assert(z * (-q) == -x) by (nonlinear_arith) requires z * q == x;
    if x >= 0 { assert(0 <= q <= x) by (nonlinear_arith) requires z * q == x, z >= 1, x >= 0; } else { assert(x <= q <= 0) by (nonlinear_arith) requires z * q == x, z >= 1, x < 0; }
}
/// element (i, j) of a matrix
pub proof fn lemma_2d(m: Map<int, Seq<u8>>, a: RumpyArray, i: int, j: int)
    requires wf(a), mok(m, a), a.shape@.len() == 2, 0 <= i < a.shape@[0], 0 <= j < a.shape@[1]
    ensures ({ let k = i * a.shape@[1] + j; let o = a.offset + i * a.strides@[0] + j * a.strides@[1]; 0 <= k < prod(a.shape@) && prod(a.shape@) == a.shape@[0] * a.shape@[1] && nth(m, a, k) == get(m[bid(a)], o, isz(a)) && acc(m, bid(a), o, isz(a)) && nth(m, a, k).len() == isz(a) })
{
    let sh = a.shape@; let idx = seq![i as usize, j as usize];
    assert(inb(idx, sh));
    lemma_rmi_inv(idx, sh); lemma_rmi_bound(idx, sh); lemma_acc(m, a, idx);
    reveal_with_fuel(rmi, 3); reveal_with_fuel(dot, 3); reveal_with_fuel(prod, 3);
    assert(idx.drop_last() =~= seq![i as usize]); assert(sh.drop_last() =~= seq![sh[0]]); assert(sh.drop_last().drop_last() =~= Seq::<usize>::empty());
    assert(idx.drop_last().drop_last() =~= Seq::<usize>::empty());
    assert(rmi(idx.drop_last(), sh.drop_last()) == i) by { assert(0 * (sh[0] as int) == 0); }
    assert(rmi(idx, sh) == i * sh[1] + j);
    assert(1 * (sh[0] as int) == sh[0]); assert(prod(sh.drop_last()) == sh[0]);
}
// conversions
/// convert_datetime64 as a function of its arguments (its own contract is proved in unit datetime)
pub uninterp spec fn cdt(v: i64, from: Unit, to: Unit) -> i64;
/// cast_element as a function of the two types and the source bytes (proved per pair of types by Kani)
pub uninterp spec fn castb(d1: DType, d2: DType, v: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn lemma_castb(d1: DType, d2: DType, v: Seq<u8>) ensures castb(d1, d2, v).len() == dt_size(d2) { unimplemented!() }
pub open spec fn conv(d1: DType, d2: DType, v: Seq<u8>) -> Seq<u8> {
    if d1 == d2 { v } else { match (dt_kind(d1), dt_kind(d2)) {
        (DTypeKind::DateTime64(f), DTypeKind::DateTime64(t)) => enc(cdt(dec::<i64>(v), f, t)),
        (DTypeKind::TimeDelta64(f), DTypeKind::TimeDelta64(t)) => enc(cdt(dec::<i64>(v), f, t)),
        _ => castb(d1, d2, v) } }
}
/// the elements of a, in order, each converted on its own
pub open spec fn convs(m: Map<int, Seq<u8>>, a: RumpyArray, d: DType) -> Seq<Seq<u8>> { Seq::new(prod(a.shape@) as nat, |k: int| conv(a.dtype, d, nth(m, a, k))) }
