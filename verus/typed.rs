// Typed access to the byte memory.  TRUSTED: reading a T decodes its bytes, writing encodes it, and decoding undoes
// encoding (every bit pattern of the numeric element types is a value; alignment is not modelled).
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VTPtr<T> { x: usize, p: std::marker::PhantomData<T> }
impl<T> Clone for VTPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> Copy for VTPtr<T> {}
pub uninterp spec fn tb<T>(p: VTPtr<T>) -> int;
pub uninterp spec fn to<T>(p: VTPtr<T>) -> int;
pub uninterp spec fn tsz<T>() -> int;
pub uninterp spec fn dec<T>(s: Seq<u8>) -> T;
pub uninterp spec fn enc<T>(v: T) -> Seq<u8>;
#[verifier::external_body]
pub proof fn lemma_tsz<T>() ensures 1 <= tsz::<T>() <= 16 { unimplemented!() }
#[verifier::external_body]
pub proof fn lemma_codec<T>(v: T) ensures enc(v).len() == tsz::<T>(), dec::<T>(enc(v)) == v { unimplemented!() }
#[verifier::external_body]
pub fn vx_size_of<T>() -> (r: usize) ensures r as int == tsz::<T>(), 1 <= r <= 16 { unimplemented!() }
impl VPtr {
    #[verifier::external_body]
    pub fn vx_cast<T>(self) -> (r: VTPtr<T>) ensures tb(r) == pb(self), to(r) == po(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_read(self, Tracked(mem): Tracked<&mut Mem>) -> (r: u8)
        requires acc(old(mem).v(), pb(self), po(self), 1) ensures final(mem).v() == old(mem).v(), r == old(mem).v()[pb(self)][po(self)] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write(self, v: u8, Tracked(mem): Tracked<&mut Mem>)
        requires acc(old(mem).v(), pb(self), po(self), 1) ensures final(mem).v() == old(mem).v().insert(pb(self), bput(old(mem).v()[pb(self)], po(self), seq![v])) { unimplemented!() }
}
/// types whose every bit pattern is a value, kept by a copy
pub uninterp spec fn pod<T>() -> bool;
#[verifier::external_body]
pub proof fn lemma_pod() ensures pod::<f64>(), pod::<i64>(), tsz::<f64>() == 8, tsz::<i64>() == 8 { unimplemented!() }
#[verifier::external_body]
pub proof fn lemma_codec2<T>(s: Seq<u8>) requires pod::<T>(), s.len() == tsz::<T>() ensures enc(dec::<T>(s)) == s { unimplemented!() }
impl<T> VTPtr<T> {
    #[verifier::external_body]
    pub fn offset(self, n: isize) -> (r: VTPtr<T>) requires 0 <= to(self) + n * tsz::<T>() <= blen(tb(self)) ensures tb(r) == tb(self), to(r) == to(self) + n * tsz::<T>() { unimplemented!() }
    /// std::ptr::copy_nonoverlapping
    #[verifier::external_body]
    pub fn vx_copy_to(self, dst: VTPtr<T>, n: usize, Tracked(mem): Tracked<&mut Mem>)
        requires acc(old(mem).v(), tb(self), to(self), n * tsz::<T>()), acc(old(mem).v(), tb(dst), to(dst), n * tsz::<T>()),
            tb(self) != tb(dst) || to(self) + n * tsz::<T>() <= to(dst) || to(dst) + n * tsz::<T>() <= to(self)
        ensures final(mem).v() == old(mem).v().insert(tb(dst), bput(old(mem).v()[tb(dst)], to(dst), get(old(mem).v()[tb(self)], to(self), n * tsz::<T>())))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: VTPtr<T>) requires 0 <= to(self), to(self) + n * tsz::<T>() <= blen(tb(self)) ensures tb(r) == tb(self), to(r) == to(self) + n * tsz::<T>() { unimplemented!() }
    #[verifier::external_body]
    pub fn byte_offset(self, n: isize) -> (r: VTPtr<T>) requires 0 <= to(self) + n <= blen(tb(self)) ensures tb(r) == tb(self), to(r) == to(self) + n { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_read(self, Tracked(mem): Tracked<&mut Mem>) -> (r: T)
        requires acc(old(mem).v(), tb(self), to(self), tsz::<T>())
        ensures final(mem).v() == old(mem).v(), r == dec::<T>(get(old(mem).v()[tb(self)], to(self), tsz::<T>())) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write(self, v: T, Tracked(mem): Tracked<&mut Mem>)
        requires acc(old(mem).v(), tb(self), to(self), tsz::<T>())
        ensures final(mem).v() == old(mem).v().insert(tb(self), bput(old(mem).v()[tb(self)], to(self), enc(v))) { unimplemented!() }
}
/// n packed values of type T at byte o
pub open spec fn vals<T>(s: Seq<u8>, o: int, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| dec::<T>(chunk(s, o, i, tsz::<T>()))) }
/// raw pointers that slices are made from
pub trait VxAs<T>: Sized { spec fn asb(self) -> int; spec fn aso(self) -> int; }
impl<T> VxAs<T> for VTPtr<T> { open spec fn asb(self) -> int { tb(self) } open spec fn aso(self) -> int { to(self) } }
impl VxAs<u8> for VPtr { open spec fn asb(self) -> int { pb(self) } open spec fn aso(self) -> int { po(self) } }
#[verifier::external_body]
pub fn vx_slice<'a, T, P: VxAs<T>>(p: P, n: usize, Tracked(mem): Tracked<&mut Mem>) -> (r: &'a [T])
    requires acc(old(mem).v(), p.asb(), p.aso(), n * tsz::<T>())
    ensures final(mem).v() == old(mem).v(), r@ == vals::<T>(old(mem).v()[p.asb()], p.aso(), n as int) { unimplemented!() }
/// a slice made by from_raw_parts_mut: its values, and where they belong
#[verifier::reject_recursive_types(T)]
pub struct VMut<T> { pub d: Vec<T>, pub p: VTPtr<T> }
#[verifier::external_body]
pub fn vx_slice_mut<T, P: VxAs<T>>(p: P, n: usize, Tracked(mem): Tracked<&mut Mem>) -> (r: VMut<T>)
    requires acc(old(mem).v(), p.asb(), p.aso(), n * tsz::<T>())
    ensures final(mem).v() == old(mem).v(), r.d@ == vals::<T>(old(mem).v()[p.asb()], p.aso(), n as int), tb(r.p) == p.asb(), to(r.p) == p.aso() { unimplemented!() }
impl<T> VMut<T> {
    #[verifier::external_body]
    pub fn vx_mut(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).d@, final(self).d@ == final(r)@, final(self).p == old(self).p { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_store(&self, Tracked(mem): Tracked<&mut Mem>)
        requires acc(old(mem).v(), tb(self.p), to(self.p), self.d@.len() * tsz::<T>())
        ensures wrote(old(mem).v(), final(mem).v(), tb(self.p), to(self.p), self.d@) { unimplemented!() }
}
/// the only difference between m0 and m1: buffer b holds the packed values s at byte o
pub open spec fn wrote<T>(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, b: int, o: int, s: Seq<T>) -> bool {
    &&& m1.dom() == m0.dom()
    &&& forall|c: int| c != b ==> #[trigger] m1[c] == m0[c]
    &&& m1[b].len() == m0[b].len()
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] chunk(m1[b], o, i, tsz::<T>()) == enc(s[i])
    &&& forall|p: int, n: int| 0 <= p && 0 <= n && p + n <= m0[b].len() && (p + n <= o || o + s.len() * tsz::<T>() <= p) ==> #[trigger] get(m1[b], p, n) == get(m0[b], p, n)
}
/// a u8 is its byte
#[verifier::external_body]
pub proof fn lemma_u8(v: u8) ensures tsz::<u8>() == 1, enc::<u8>(v) == seq![v] { unimplemented!() }
/// n values of type T, st bytes apart
pub open spec fn sv<T>(s: Seq<u8>, o: int, st: int, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| dec::<T>(get(s, o + i * st, tsz::<T>()))) }
pub open spec fn sat(o: int, st: int, i: int) -> int { o + i * st }
/// the same n values can be accessed
pub open spec fn sacc<T>(m: Map<int, Seq<u8>>, b: int, o: int, st: int, n: int) -> bool {
    live(m, b) && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] sat(o, st, i) && sat(o, st, i) + tsz::<T>() <= blen(b)
}
pub proof fn lemma_sacc<T>(m: Map<int, Seq<u8>>, b: int, o: int, st: int, n: int, i: int)
    requires sacc::<T>(m, b, o, st, n), 0 <= i < n
    ensures 1 <= tsz::<T>() <= 16, acc(m, b, o + i * st, tsz::<T>()), i * st == st * i, 0 <= o <= imax(), -imax() <= i * st <= imax(), 0 <= o + st * i, o + st * i + tsz::<T>() <= blen(b), blen(b) <= imax(),
        sv::<T>(m[b], o, st, n)[i] == dec::<T>(get(m[b], o + i * st, tsz::<T>()))
{ lemma_tsz::<T>(); assert(0 <= sat(o, st, i)); assert(0 <= sat(o, st, 0)); assert(0 * st == 0) by (nonlinear_arith); assert(i * st == st * i) by (nonlinear_arith); }
pub proof fn lemma_wrote0<T>(m0: Map<int, Seq<u8>>, b: int, o: int)
    ensures wrote(m0, m0, b, o, Seq::<T>::empty()) {}
pub proof fn lemma_wrote_step<T>(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, b: int, o: int, s: Seq<T>, v: T, c: int)
    requires wrote(m0, m1, b, o, s), live(m0, b), 0 <= o, s.len() < c, o + c * tsz::<T>() <= blen(b)
    ensures wrote(m0, m1.insert(b, bput(m1[b], o + s.len() * tsz::<T>(), enc(v))), b, o, s.push(v)), live(m1, b),
        acc(m1, b, o + s.len() * tsz::<T>(), tsz::<T>())
{
    lemma_tsz::<T>(); lemma_codec(v); let z = tsz::<T>(); let k = s.len() as int; lemma_chunk_bound(k, c, z);
    lemma_put_chunk(m1[b], o, k, c, z, enc(v));
    let m2 = m1.insert(b, bput(m1[b], o + k * z, enc(v)));
    assert(m2.dom() =~= m0.dom());
    let t = s.push(v);
    assert(t.len() * z == k * z + z) by (nonlinear_arith) requires t.len() == k + 1;
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] chunk(m2[b], o, i, z) == enc(t[i]) by { if i < k { assert(chunk(m1[b], o, i, z) == enc(s[i])); } }
    assert forall|p: int, n: int| 0 <= p && 0 <= n && p + n <= m0[b].len() && (p + n <= o || o + t.len() * z <= p) implies #[trigger] get(m2[b], p, n) == get(m0[b], p, n) by {
        assert(0 <= k * z) by (nonlinear_arith) requires k >= 0, z >= 1;
        lemma_put(m1[b], o + k * z, enc(v), p, n); assert(get(m1[b], p, n) == get(m0[b], p, n));
    }
}
pub open spec fn macc(m: Map<int, Seq<u8>>, b: int, o: int, n: int) -> bool { acc(m, b, o, n) }
/// values written are values read
pub proof fn lemma_wrote_vals<T>(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, b: int, o: int, s: Seq<T>)
    requires wrote(m0, m1, b, o, s)
    ensures vals::<T>(m1[b], o, s.len() as int) == s
{ assert forall|i: int| 0 <= i < s.len() implies vals::<T>(m1[b], o, s.len() as int)[i] == s[i] by { lemma_codec(s[i]); assert(chunk(m1[b], o, i, tsz::<T>()) == enc(s[i])); }
  assert(vals::<T>(m1[b], o, s.len() as int) =~= s); }
// ---------------------------------------------------------------- kernels (repo: ops/kernels/mod.rs), functions of their arguments
pub trait BinaryKernel<T>: Copy { spec fn ap(a: T, b: T) -> T; fn apply(a: T, b: T) -> (r: T) ensures r == Self::ap(a, b); }
pub trait UnaryKernel<T>: Copy { spec fn ap(v: T) -> T; fn apply(v: T) -> (r: T) ensures r == Self::ap(v); }
pub trait CompareKernel<T>: Copy { spec fn ap(a: T, b: T) -> bool; fn apply(a: T, b: T) -> (r: bool) ensures r == Self::ap(a, b); }
pub trait PredicateKernel<T>: Copy { spec fn ap(v: T) -> bool; fn apply(v: T) -> (r: bool) ensures r == Self::ap(v); }
pub trait ReduceKernel<T>: Copy {
    spec fn i0() -> T; spec fn cb(a: T, v: T) -> T; spec fn mg(a: T, b: T) -> T;
    fn init() -> (r: T) ensures r == Self::i0();
    fn combine(acc: T, v: T) -> (r: T) ensures r == Self::cb(acc, v);
    fn merge(a: T, b: T) -> (r: T) ensures r == Self::mg(a, b);
}
/// a way of combining elements: from the identity, one element at a time, joining partial results
pub enum Rt { Z, App(Box<Rt>, int), Mrg(Box<Rt>, Box<Rt>) }
pub open spec fn ev<T, K: ReduceKernel<T>>(t: Rt, s: Seq<T>) -> T decreases t {
    match t { Rt::Z => K::i0(), Rt::App(u, i) => K::cb(ev::<T, K>(*u, s), s[i]), Rt::Mrg(a, b) => K::mg(ev::<T, K>(*a, s), ev::<T, K>(*b, s)) }
}
/// how often element i is used
pub open spec fn cnt(t: Rt, i: int) -> int decreases t {
    match t { Rt::Z => 0, Rt::App(u, j) => cnt(*u, i) + (if i == j { 1int } else { 0 }), Rt::Mrg(a, b) => cnt(*a, i) + cnt(*b, i) }
}
pub open spec fn once(t: Rt, n: int) -> bool { forall|i: int| #[trigger] cnt(t, i) == (if 0 <= i < n { 1int } else { 0 }) }
/// r combines every element of s exactly once
pub open spec fn is_red<T, K: ReduceKernel<T>>(r: T, s: Seq<T>) -> bool { exists|t: Rt| #[trigger] ev::<T, K>(t, s) == r && once(t, s.len() as int) }
pub proof fn lemma_red<T, K: ReduceKernel<T>>(t: Rt, s: Seq<T>) requires once(t, s.len() as int) ensures is_red::<T, K>(ev::<T, K>(t, s), s) {}
/// left to right
pub open spec fn lf<T, K: ReduceKernel<T>>(s: Seq<T>, n: int) -> T decreases n { if n <= 0 { K::i0() } else { K::cb(lf::<T, K>(s, n - 1), s[n - 1]) } }
pub open spec fn lt(n: int) -> Rt decreases n { if n <= 0 { Rt::Z } else { Rt::App(Box::new(lt(n - 1)), n - 1) } }
pub proof fn lemma_lt<T, K: ReduceKernel<T>>(s: Seq<T>, n: int)
    requires 0 <= n <= s.len() ensures ev::<T, K>(lt(n), s) == lf::<T, K>(s, n), once(lt(n), n)
    decreases n
{ if n > 0 { lemma_lt::<T, K>(s, n - 1); assert forall|i: int| #[trigger] cnt(lt(n), i) == (if 0 <= i < n { 1int } else { 0 }) by { assert(cnt(lt(n - 1), i) == (if 0 <= i < n - 1 { 1int } else { 0 })); } } }
/// the fold of an exact kernel does not depend on the way of combining
pub open spec fn lawful<T, K: ReduceKernel<T>>() -> bool {
    &&& forall|a: T, x: T, y: T| #[trigger] K::cb(K::cb(a, x), y) == K::cb(K::cb(a, y), x)
    &&& forall|a: T, b: T, x: T| #[trigger] K::mg(a, K::cb(b, x)) == K::cb(K::mg(a, b), x)
    &&& forall|a: T| #[trigger] K::mg(a, K::i0()) == a
}
} // verus!
