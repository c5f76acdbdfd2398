// stores through any array: the bytes of its first n elements change, nothing else
/// address of the k-th element
pub open spec fn pos(a: RumpyArray, k: int) -> int { addr(a, unrmi(k, a.shape@)) }
/// no two elements of a overlap
pub open spec fn apart(a: RumpyArray) -> bool { forall|i: int, j: int| 0 <= i < j < prod(a.shape@) ==> #[trigger] pos(a, i) + isz(a) <= #[trigger] pos(a, j) || pos(a, j) + isz(a) <= pos(a, i) }
pub open spec fn hit(a: RumpyArray, n: int, o: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] pos(a, k) <= o < pos(a, k) + isz(a) }
/// the first n elements of a were stored: every other byte of every buffer is as before
pub open spec fn stored(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, a: RumpyArray, s: spec_fn(int) -> Seq<u8>, n: int) -> bool {
    &&& forall|c: int| #[trigger] m0.dom().contains(c) ==> m1.dom().contains(c) && m1[c].len() == m0[c].len() && (c != bid(a) ==> m1[c] == m0[c])
    &&& forall|o: int| 0 <= o < m0[bid(a)].len() && !hit(a, n, o) ==> #[trigger] m1[bid(a)][o] == m0[bid(a)][o]
    &&& apart(a) ==> forall|k: int| 0 <= k < n ==> #[trigger] nth(m1, a, k) == s(k)
}
pub proof fn lemma_store(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, a: RumpyArray, s: spec_fn(int) -> Seq<u8>, n: int)
    requires stored(m0, m1, a, s, n), wf(a), mok(m0, a), 0 <= n < prod(a.shape@), s(n).len() == isz(a)
    ensures stored(m0, m1.insert(bid(a), bput(m1[bid(a)], pos(a, n), s(n))), a, s, n + 1), acc(m1, bid(a), pos(a, n), isz(a))
{
    let z = isz(a); let b = bid(a); let m2 = m1.insert(b, bput(m1[b], pos(a, n), s(n)));
    lemma_unrmi_inb(n, a.shape@); lemma_acc(m0, a, unrmi(n, a.shape@)); lemma_put(m1[b], pos(a, n), s(n), pos(a, n), z);
    assert forall|o: int| 0 <= o < m0[b].len() && !hit(a, n + 1, o) implies #[trigger] m2[b][o] == m0[b][o] by {
        assert(!(pos(a, n) <= o < pos(a, n) + z)); assert(!hit(a, n, o)) by { if hit(a, n, o) { let k = choose|k: int| 0 <= k < n && #[trigger] pos(a, k) <= o < pos(a, k) + z; assert(hit(a, n + 1, o)); } }
        assert(m1[b][o] == m0[b][o]);
    }
    if apart(a) { assert forall|k: int| 0 <= k < n + 1 implies #[trigger] nth(m2, a, k) == s(k) by {
        lemma_unrmi_inb(k, a.shape@); lemma_acc(m0, a, unrmi(k, a.shape@));
        if k < n { assert(pos(a, k) + z <= pos(a, n) || pos(a, n) + z <= pos(a, k)); lemma_put(m1[b], pos(a, n), s(n), pos(a, k), z); assert(nth(m1, a, k) == s(k)); } } }
}
pub proof fn lemma_stored_same(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, m2: Map<int, Seq<u8>>, a: RumpyArray, s: spec_fn(int) -> Seq<u8>, n: int)
    requires stored(m0, m1, a, s, n), mok(m0, a), forall|c: int| #[trigger] m0.dom().contains(c) ==> m2.dom().contains(c) && m2[c] == m1[c]
    ensures stored(m0, m2, a, s, n)
{ assert(m2[bid(a)] == m1[bid(a)]); if apart(a) { assert forall|k: int| 0 <= k < n implies #[trigger] nth(m2, a, k) == s(k) by { assert(nth(m1, a, k) == s(k)); } } }
