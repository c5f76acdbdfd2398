// Byte memory: buffers are identified by a ghost number; a pointer is (buffer, byte offset).
// TRUSTED: the contracts of the external_body functions (allocation, pointer arithmetic, element copy).
verus! {
#[verifier::external_body]
pub tracked struct Mem { x: int }
impl Mem { pub uninterp spec fn v(&self) -> Map<int, Seq<u8>>; }
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct VPtr { x: usize }
pub uninterp spec fn pb(p: VPtr) -> int;
pub uninterp spec fn po(p: VPtr) -> int;
pub uninterp spec fn blen(id: int) -> int;

pub open spec fn bput(s: Seq<u8>, o: int, v: Seq<u8>) -> Seq<u8> { s.take(o) + v + s.skip(o + v.len()) }
pub open spec fn get(s: Seq<u8>, o: int, n: int) -> Seq<u8> { s.subrange(o, o + n) }
/// element k of a packed sequence of elements of n bytes starting at byte o
pub open spec fn chunk(s: Seq<u8>, o: int, k: int, n: int) -> Seq<u8> { get(s, o + k * n, n) }
pub open spec fn live(m: Map<int, Seq<u8>>, b: int) -> bool { m.dom().contains(b) && m[b].len() == blen(b) && blen(b) <= imax() }
/// every buffer that existed keeps its bytes
pub open spec fn frame(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>) -> bool {
    forall|b: int| #[trigger] m0.dom().contains(b) ==> m1.dom().contains(b) && m1[b] == m0[b]
}
/// every buffer except b keeps its bytes
pub open spec fn frame_but(m0: Map<int, Seq<u8>>, m1: Map<int, Seq<u8>>, b0: int) -> bool {
    forall|b: int| #[trigger] m0.dom().contains(b) ==> m1.dom().contains(b) && (b != b0 ==> m1[b] == m0[b])
}
pub proof fn lemma_put(s: Seq<u8>, o: int, v: Seq<u8>, o2: int, n: int)
    requires 0 <= o, o + v.len() <= s.len(), 0 <= o2, n >= 0, o2 + n <= s.len()
    ensures bput(s, o, v).len() == s.len(), n == v.len() && o2 == o ==> get(bput(s, o, v), o2, n) == v,
        o2 + n <= o || o + v.len() <= o2 ==> get(bput(s, o, v), o2, n) == get(s, o2, n)
{
    let p = bput(s, o, v);
    if n == v.len() && o2 == o { assert(get(p, o2, n) =~= v); }
    if o2 + n <= o || o + v.len() <= o2 { assert(get(p, o2, n) =~= get(s, o2, n)); }
}
pub proof fn lemma_chunk_bound(k: int, c: int, n: int)
    requires 0 <= k < c, n >= 0
    ensures 0 <= k * n, k * n + n <= c * n
{ assert(0 <= k * n && k * n + n <= c * n) by (nonlinear_arith) requires 0 <= k < c, n >= 0; }
pub proof fn lemma_chunk_disj(k: int, j: int, n: int)
    requires k != j, n >= 0
    ensures k * n + n <= j * n || j * n + n <= k * n
{ if k < j { assert(k * n + n <= j * n) by (nonlinear_arith) requires k < j, n >= 0; } else { assert(j * n + n <= k * n) by (nonlinear_arith) requires j < k, n >= 0; } }
/// writing element k leaves every other element of a packed buffer of c elements
pub proof fn lemma_put_chunk(s: Seq<u8>, o: int, k: int, c: int, n: int, v: Seq<u8>)
    requires 0 <= k < c, v.len() == n, 0 <= o, o + c * n <= s.len()
    ensures bput(s, o + k * n, v).len() == s.len(), chunk(bput(s, o + k * n, v), o, k, n) == v,
        forall|j: int| 0 <= j < c && j != k ==> #[trigger] chunk(bput(s, o + k * n, v), o, j, n) == chunk(s, o, j, n)
{
    lemma_chunk_bound(k, c, n);
    lemma_put(s, o + k * n, v, o + k * n, n);
    assert forall|j: int| 0 <= j < c && j != k implies #[trigger] chunk(bput(s, o + k * n, v), o, j, n) == chunk(s, o, j, n) by {
        lemma_chunk_bound(j, c, n); lemma_chunk_disj(k, j, n); lemma_put(s, o + k * n, v, o + j * n, n);
    }
}
impl VPtr {
    /// pointer arithmetic stays inside the buffer (or one past its end)
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: VPtr) requires 0 <= po(self), po(self) + n <= blen(pb(self)) ensures pb(r) == pb(self), po(r) == po(self) + n { unimplemented!() }
    #[verifier::external_body]
    pub fn offset(self, n: isize) -> (r: VPtr) requires 0 <= po(self) + n <= blen(pb(self)) ensures pb(r) == pb(self), po(r) == po(self) + n { unimplemented!() }
}
#[verifier::external_body]
pub struct VBuf { x: usize }
pub uninterp spec fn vb(b: VBuf) -> int;
impl VBuf {
    #[verifier::external_body]
    pub fn as_mut_ptr(&self) -> (r: VPtr) ensures pb(r) == vb(*self), po(r) == 0 { unimplemented!() }
}
/// Arc::get_mut(..).expect(..): ASSUMED to succeed (the buffer was allocated by this function and is not shared yet)
#[verifier::external_body]
pub fn vx_arc_mut(b: &Arc<ArrayBuffer>) -> (r: VBuf) ensures vb(r) == buf_id(*b) { unimplemented!() }
impl ArrayBuffer {
    #[verifier::external_body]
    pub fn new(size: usize, Tracked(mem): Tracked<&mut Mem>) -> (r: ArrayBuffer)
        requires size <= imax()
        ensures !old(mem).v().dom().contains(ab_id(r)), final(mem).v() == old(mem).v().insert(ab_id(r), Seq::new(size as nat, |i: int| 0u8)), blen(ab_id(r)) == size { unimplemented!() }
}
pub uninterp spec fn ab_id(b: ArrayBuffer) -> int;
impl Arc<ArrayBuffer> {
    /// ASSUMED to succeed (the buffer is not shared yet)
    #[verifier::external_body]
    pub fn get_mut(b: &Arc<ArrayBuffer>) -> (r: Option<VBuf>) ensures r is Some, vb(r->0) == buf_id(*b) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(b: ArrayBuffer) -> (r: Arc<ArrayBuffer>) ensures buf_id(r) == ab_id(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: VPtr) ensures pb(r) == buf_id(*self), po(r) == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r as int == buf_len(*self) { unimplemented!() }
}
/// n bytes of buffer b at o, all inside the live buffer
pub open spec fn acc(m: Map<int, Seq<u8>>, b: int, o: int, n: int) -> bool { live(m, b) && 0 <= o && o + n <= blen(b) }
impl Ops {
    /// one element of the descriptor's type is copied bit for bit (proved per element type by Kani)
    #[verifier::external_body]
    pub fn copy_element(&self, src: VPtr, off: isize, dst: VPtr, idx: usize, Tracked(mem): Tracked<&mut Mem>)
        requires acc(old(mem).v(), pb(src), po(src) + off, dt_size(ops_dt(*self))), 0 <= po(dst),
            acc(old(mem).v(), pb(dst), po(dst) + idx * dt_size(ops_dt(*self)), dt_size(ops_dt(*self)))
        ensures final(mem).v() == old(mem).v().insert(pb(dst), bput(old(mem).v()[pb(dst)], po(dst) + idx * dt_size(ops_dt(*self)), get(old(mem).v()[pb(src)], po(src) + off, dt_size(ops_dt(*self)))))
    { unimplemented!() }
    /// truth value of the element (a function of its bytes)
    #[verifier::external_body]
    pub fn is_truthy(&self, src: VPtr, off: isize, Tracked(mem): Tracked<&mut Mem>) -> (r: bool)
        requires acc(old(mem).v(), pb(src), po(src) + off, dt_size(ops_dt(*self)))
        ensures final(mem).v() == old(mem).v(), r == truthy(ops_dt(*self), get(old(mem).v()[pb(src)], po(src) + off, dt_size(ops_dt(*self))))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i64(&self, src: VPtr, off: isize, Tracked(mem): Tracked<&mut Mem>) -> (r: Option<i64>)
        requires acc(old(mem).v(), pb(src), po(src) + off, dt_size(ops_dt(*self)))
        ensures final(mem).v() == old(mem).v(), r == as_i64(ops_dt(*self), get(old(mem).v()[pb(src)], po(src) + off, dt_size(ops_dt(*self))))
    { unimplemented!() }
    /// the descriptor's one, as bytes (per element type: Kani)
    #[verifier::external_body]
    pub fn write_one(&self, dst: VPtr, idx: usize, Tracked(mem): Tracked<&mut Mem>)
        requires 0 <= po(dst), acc(old(mem).v(), pb(dst), po(dst) + idx * dt_size(ops_dt(*self)), dt_size(ops_dt(*self)))
        ensures final(mem).v() == old(mem).v().insert(pb(dst), bput(old(mem).v()[pb(dst)], po(dst) + idx * dt_size(ops_dt(*self)), one_b(ops_dt(*self))))
    { unimplemented!() }
}
pub uninterp spec fn one_b(d: DType) -> Seq<u8>;
#[verifier::external_body]
pub proof fn lemma_one_b(d: DType) ensures one_b(d).len() == dt_size(d) { unimplemented!() }
pub uninterp spec fn truthy(d: DType, v: Seq<u8>) -> bool;
pub uninterp spec fn as_i64(d: DType, v: Seq<u8>) -> Option<i64>;
/// std::ptr::copy_nonoverlapping on bytes
impl VPtr {
#[verifier::external_body]
pub fn vx_copy_to(self, dst: VPtr, n: usize, Tracked(mem): Tracked<&mut Mem>)
    requires acc(old(mem).v(), pb(self), po(self), n as int), acc(old(mem).v(), pb(dst), po(dst), n as int),
        pb(self) != pb(dst) || po(self) + n <= po(dst) || po(dst) + n <= po(self)
    ensures final(mem).v() == old(mem).v().insert(pb(dst), bput(old(mem).v()[pb(dst)], po(dst), get(old(mem).v()[pb(self)], po(self), n as int)))
{ unimplemented!() }
}
} // verus!
