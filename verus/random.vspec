@unit random
@struct src/array/mod.rs RumpyArray
@struct src/random/pcg64.rs Pcg64Dxsm
@struct src/random/pcg64.rs PCG_CHEAP_MULTIPLIER_128
@raw
// ---- NumPy's PCG64DXSM (reference: numpy/random/src/pcg64/pcg64.h), written from the reference
pub open spec fn m128() -> int { u128::MAX + 1 }
pub open spec fn m64() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn pcg_mul() -> int { 0xda942042e4dd58b5 }
/// linear congruential step modulo two to the 128
pub open spec fn pcg_step(s: int, inc: int) -> int { (s * pcg_mul() + inc) % m128() }
pub open spec fn xsh(x: u64, k: u64) -> u64 { x ^ (x >> k) }
/// double xorshift multiply of the state before the step
pub open spec fn pcg_out(s: u128) -> u64 {
    let hi = (s >> 64) as u64; let lo = (s as u64) | 1;
    let h2 = ((xsh(hi, 32) * pcg_mul()) % m64()) as u64;
    ((xsh(h2, 48) * lo) % m64()) as u64
}
@endraw

@fn src/random/pcg64.rs Pcg64Dxsm::step
@props P16
@ens
    final(self).increment == old(self).increment, final(self).state == pcg_step(old(self).state as int, old(self).increment as int),
@start
    proof { let (a, b, m) = (self.state as int, pcg_mul(), self.increment as int); lemma_add_mod_noop(a * b, m, m128()); lemma_small_mod(m as nat, m128() as nat); }

@fn src/random/pcg64.rs Pcg64Dxsm::output
@props P16
@ens
    r == pcg_out(state),

@fn src/random/pcg64.rs Pcg64Dxsm::next_u64
@props P16
@ens
    r == pcg_out(old(self).state), final(self).increment == old(self).increment, final(self).state == pcg_step(old(self).state as int, old(self).increment as int),

@fn src/random/pcg64.rs Pcg64Dxsm::from_numpy_state
@props P16
@ens
    r.state == state, r.increment == inc,

@raw
/// the generator: a deterministic stream of 64-bit words (either backend)
#[verifier::external_body]
pub struct Generator { x: usize }
pub uninterp spec fn g_out(g: Generator) -> u64;
pub uninterp spec fn g_next(g: Generator) -> Generator;
/// state after n draws
pub open spec fn g_adv(g: Generator, n: int) -> Generator decreases n { if n <= 0 { g } else { g_next(g_adv(g, n - 1)) } }
impl Generator {
    /// ASSUMED: dispatch to the backend; the draw is a function of the generator state
    #[verifier::external_body]
    pub fn next_u64(&mut self) -> (r: u64) ensures r == g_out(*old(self)), *final(self) == g_next(*old(self)) { unimplemented!() }
}
// ---- Lemire's bounded sampling: word x is rejected when the low half of x * range falls below 2^64 mod range
pub open spec fn lem_low(x: int, range: int) -> int { (x * range) % m64() }
pub open spec fn lem_rej(x: int, range: int) -> bool { lem_low(x, range) < m64() % range }
pub open spec fn lem_val(x: int, range: int) -> int { (x * range) / m64() }
pub proof fn lemma_lem(x: u64, range: u64)
    requires range > 0
    ensures 0 <= x * range <= u128::MAX, ({ let m = ((x as u128) * (range as u128)) as u128; (m as u64) as int == lem_low(x as int, range as int) && ((m >> 64) as u64) as int == lem_val(x as int, range as int) }),
        lem_val(x as int, range as int) < range
{
    let p = x as int * range as int;
    assert(0 <= p < m64() * m64() && p < range * m64()) by (nonlinear_arith) requires p == x * range, 0 <= x < m64(), 0 < range < m64(), m64() == 0x1_0000_0000_0000_0000;
    let m = p as u128;
    assert(m as u64 == (m % 0x1_0000_0000_0000_0000u128) as u64) by (bit_vector);
    assert((m >> 64) == m / 0x1_0000_0000_0000_0000u128) by (bit_vector);
    lemma_fundamental_div_mod(p, m64()); lemma_mod_bound(p, m64());
    let q = p / m64();
    assert(q < range) by (nonlinear_arith) requires m64() * q <= p, p < range * m64(), m64() == 0x1_0000_0000_0000_0000;
}
pub proof fn lemma_thr(range: u64)
    requires range > 0
    ensures (m64() - range) % (range as int) == m64() % (range as int)
{ lemma_mod_sub_multiples_vanish(m64(), range as int); }
@endraw

@fn src/random/generator.rs Generator::bounded_uint64
@props P16
@attr
    #[verifier::exec_allows_no_decreases_clause]
@ens
    range == 0 ==> r == 0 && *final(self) == *old(self),
    range > 0 ==> r < range,
    range > 0 ==> exists|n: int| n >= 0 && #[trigger] g_adv(*old(self), n + 1) == *final(self) && !lem_rej(g_out(g_adv(*old(self), n)) as int, range as int) && r == lem_val(g_out(g_adv(*old(self), n)) as int, range as int)
        && forall|k: int| 0 <= k < n ==> lem_rej(g_out(#[trigger] g_adv(*old(self), k)) as int, range as int),
@at /let mut x = self/
    let ghost mut cnt: int = 0; let ghost g0 = *self;
    proof { assert(g_adv(g0, 0) == g0); assert(g_adv(g0, 1) == g_next(g_adv(g0, 0))); }
@at /^let mut m =/
    proof { lemma_lem(x, range); }
@at /^if l < range/
    proof { lemma_lem(x, range); lemma_thr(range); lemma_mod_bound(m64(), range as int); }
@inv 0
    invariant range > 0, cnt >= 0, *self == g_adv(g0, cnt + 1), x == g_out(g_adv(g0, cnt)), m == x * range, l as int == lem_low(x as int, range as int), t as int == m64() % (range as int),
        forall|k: int| 0 <= k < cnt ==> lem_rej(g_out(#[trigger] g_adv(g0, k)) as int, range as int),
@body 0
    proof { assert(lem_rej(g_out(g_adv(g0, cnt)) as int, range as int)); cnt = cnt + 1; assert(g_adv(g0, cnt + 1) == g_next(g_adv(g0, cnt))); lemma_lem(g_out(*self), range); }
@at /\(m >> 64\) as u64/
    proof { lemma_lem(x, range); assert(g_adv(g0, cnt + 1) == *self); }

@fn src/random/generator.rs Generator::shuffle_data
@props P16
@ens
    final(data)@.to_multiset() == old(data)@.to_multiset(), final(data)@.len() == old(data)@.len(),
@inv 0
    invariant n == data@.len(), data@.len() == old(data)@.len(), __e0 == 1, __i0 <= n, data@.to_multiset() == old(data)@.to_multiset()
    decreases __i0
@body 0
    let ghost d0 = data@;
@end 0
    proof { lemma_swap_multiset(d0, i as int, j as int); }
@raw
pub proof fn lemma_swap_multiset<T>(s: Seq<T>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len()
    ensures s.update(i, s[j]).update(j, s[i]).to_multiset() == s.to_multiset()
{
    let t = s.update(i, s[j]); vstd::seq_lib::to_multiset_update(s, i, s[j]); vstd::seq_lib::to_multiset_update(t, j, s[i]);
    s.to_multiset_ensures(); t.to_multiset_ensures(); assert(s.contains(s[i])); assert(s.contains(s[j])); assert(t[j] == s[j]); assert(t.contains(t[j]));
    assert(t.update(j, s[i]).to_multiset() =~= s.to_multiset());
}
pub uninterp spec fn i64_data(a: RumpyArray) -> Seq<i64>;
impl RumpyArray {
    #[verifier::external_body]
    pub fn from_vec_i64_with_shape(data: Vec<i64>, shape: Vec<usize>, dtype: DType) -> (r: RumpyArray)
        requires data@.len() == prod(shape@)
        ensures i64_data(r) == data@, r.shape@ == shape@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec_i64(data: Vec<i64>, dtype: DType) -> (r: RumpyArray)
        ensures i64_data(r) == data@, r.shape@ == seq![data@.len() as usize] { unimplemented!() }
}
@endraw

@fn src/random/generator.rs Generator::integers
@props P16
@req
    low < high, pmax(shape@) <= imax(),
@ens
    i64_data(r).len() == prod(shape@), r.shape@ == shape@, forall|k: int| 0 <= k < i64_data(r).len() ==> low <= #[trigger] i64_data(r)[k] < high,
@sub /let mut data = / => let mut data: Vec<i64> = 
@inv 0
    invariant __i0 <= __e0, __e0 == size, size as int == prod(shape@), data@.len() == __i0, low < high, range == high - low, forall|k: int| 0 <= k < __i0 ==> low <= #[trigger] data@[k] < high
    decreases __e0 - __i0
@start
    proof { lemma_sub64(low, high); }
@before 0
    proof { assert(range == high - low); }
@body 0
    let ghost d0 = data@;
@end 0
    proof { lemma_sub64(low, high); assert(add64(low, val as i64) == low + val); assert(data@ =~= d0.push((low + val) as i64)); }
@raw
pub proof fn lemma_sub64(low: i64, high: i64) requires low < high
    ensures ({ let d = (if high - low > i64::MAX { high - low - m64() } else { (high - low) as int }); (d as i64) as u64 == high - low }),
        forall|v: u64| v < high - low ==> #[trigger] add64(low, v as i64) == low + v
{
    let d = high as int - low as int;
    if d > i64::MAX { lemma_cast_neg((d - m64()) as i64); }
    assert forall|v: u64| v < high - low implies #[trigger] add64(low, v as i64) == low + v by { if v > i64::MAX { lemma_cast_big(v); } }
}
pub proof fn lemma_cast_neg(y: i64) requires y < 0 ensures (y as u64) as int == y + m64()
{ assert((y as u64) == add((sub(y, i64::MIN)) as u64, 0x8000000000000000u64)) by (bit_vector); }
pub proof fn lemma_cast_big(v: u64) requires v > i64::MAX ensures (v as i64) as int == v - m64()
{ let y = v as i64; assert(v > 0x7fffffffffffffffu64 ==> (v as i64) < 0i64 && ((v as i64) as u64) == v) by (bit_vector); lemma_cast_neg(y); }
pub open spec fn add64(a: i64, b: i64) -> int { let s = a + b; if s > i64::MAX { s - m64() } else if s < i64::MIN { s + m64() } else { s } }
@endraw

@fn src/random/generator.rs Generator::permutation
@props P16
@req
    n <= imax(),
@ens
    i64_data(r).len() == n, i64_data(r).to_multiset() == Seq::new(n as nat, |i: int| i as i64).to_multiset(),
@inv 0
    invariant __i0 <= __l1, __l1 == n, n <= imax(), __v0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __v0@[k] == k
    decreases __l1 - __i0
@after 0
    proof { assert(__v0@ =~= Seq::new(n as nat, |i: int| i as i64)); }
@at /RumpyArray :: from_vec_i64/
    proof { data@.to_multiset_ensures(); Seq::new(n as nat, |i: int| i as i64).to_multiset_ensures(); }
