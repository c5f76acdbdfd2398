// TRUSTED MODEL: stand-ins for the external and unsafe parts that the extracted functions use.
// Everything marked external_body here is an assumption, listed in the evidence.
verus! {
/// element type descriptor (repo: DType / dyn DTypeOps)
#[verifier::external_body]
pub struct DType { x: usize }
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Ops { x: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum DTypeKind { Bool, Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64, Float16, Float32, Float64, Complex64, Complex128, DateTime64(Unit), TimeDelta64(Unit), Str(usize) }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Unit { pub x: u8 }
pub uninterp spec fn dt_size(d: DType) -> int;
pub uninterp spec fn dt_kind(d: DType) -> DTypeKind;
pub uninterp spec fn dt_bool() -> DType;
pub uninterp spec fn dt_f64() -> DType;
pub uninterp spec fn dt_i64() -> DType;
/// repo: two descriptors are equal when their kinds are (a descriptor is determined by its kind)
impl vstd::std_specs::cmp::PartialEqSpecImpl for DType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DType) -> bool { *self == *o } }
impl PartialEq for DType { #[verifier::external_body] fn eq(&self, o: &DType) -> bool { unimplemented!() } }
pub uninterp spec fn ops_dt(d: Ops) -> DType;
/// every element type has a positive size
#[verifier::external_body]
pub proof fn lemma_dt(d: DType) ensures 1 <= dt_size(d) <= 0x1_0000_0000 { unimplemented!() }
impl DType {
    #[verifier::external_body]
    pub fn itemsize(&self) -> (r: usize) ensures r as int == dt_size(*self), 1 <= r <= 0x1_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: DTypeKind) ensures r == dt_kind(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: DType) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn bool() -> (r: DType) ensures r == dt_bool(), dt_size(r) == 1, dt_kind(r) == DTypeKind::Bool { unimplemented!() }
    #[verifier::external_body]
    pub fn float64() -> (r: DType) ensures r == dt_f64(), dt_size(r) == 8, dt_kind(r) == DTypeKind::Float64 { unimplemented!() }
    #[verifier::external_body]
    pub fn int64() -> (r: DType) ensures r == dt_i64(), dt_size(r) == 8, dt_kind(r) == DTypeKind::Int64 { unimplemented!() }
    #[verifier::external_body]
    pub fn ops(&self) -> (r: Ops) ensures ops_dt(r) == *self { unimplemented!() }
}
/// reference-counted buffer (repo: Arc<ArrayBuffer>): identity and length
#[verifier::external_body]
pub struct ArrayBuffer { x: usize }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { x: std::sync::Arc<T> }
pub open spec fn buf_len(b: Arc<ArrayBuffer>) -> int { blen(buf_id(b)) }
pub uninterp spec fn buf_id(b: Arc<ArrayBuffer>) -> int;
impl<T> Arc<T> {
    #[verifier::external_body]
    pub fn clone(x: &Arc<T>) -> (r: Arc<T>) ensures r == *x { unimplemented!() }
}
/// repo: bitflags ArrayFlags
#[derive(Clone, Copy)]
pub struct ArrayFlags { pub c: bool, pub f: bool, pub w: bool }
impl ArrayFlags {
    pub const C_CONTIGUOUS: ArrayFlags = ArrayFlags { c: true, f: false, w: false };
    pub const F_CONTIGUOUS: ArrayFlags = ArrayFlags { c: false, f: true, w: false };
    pub const WRITEABLE: ArrayFlags = ArrayFlags { c: false, f: false, w: true };
    pub fn vx_or(self, o: ArrayFlags) -> (r: ArrayFlags)
        ensures r.c == (self.c || o.c), r.f == (self.f || o.f), r.w == (self.w || o.w)
    { ArrayFlags { c: self.c || o.c, f: self.f || o.f, w: self.w || o.w } }
    pub fn default() -> (r: ArrayFlags) ensures r.c, !r.f, r.w { ArrayFlags { c: true, f: false, w: true } }
    pub fn contains(&self, o: ArrayFlags) -> (r: bool)
        ensures r == ((o.c ==> self.c) && (o.f ==> self.f) && (o.w ==> self.w))
    { (!o.c || self.c) && (!o.f || self.f) && (!o.w || self.w) }
}
// ---------------------------------------------------------------- helpers named by the extractor (proved)
pub fn vx_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{
    let mut v: Vec<T> = Vec::new(); let mut i: usize = 0;
    while i < n invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> v@[k] == x decreases n - i { v.push(x); i = i + 1; }
    v
}
pub fn vx_eq(a: &[usize], b: &[usize]) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k] decreases a@.len() - i { if a[i] != b[i] { return false; } i = i + 1; }
    assert(a@ =~= b@); true
}
pub fn vx_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); assert(v@ =~= seq![a]); v }
pub fn vx_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
pub fn vx_vec3<T>(a: T, b: T, c: T) -> (r: Vec<T>) ensures r@ == seq![a, b, c] { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); assert(v@ =~= seq![a, b, c]); v }
pub fn vx_sub<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len()
    ensures r@ == s@.subrange(a as int, b as int)
{ vstd::slice::slice_subrange(s, a, b) }
/// reaching a panic is an obligation failure
#[verifier::external_body]
pub fn vx_panic() requires false { unimplemented!() }
/// a panic the contract allows (refusal); never returns
#[verifier::external_body]
pub fn vx_refuse() ensures false { unimplemented!() }
pub fn vx_product(s: &[usize]) -> (r: usize)
    requires pmax(s@) <= imax()
    ensures r as int == prod(s@)
{
    let mut p: usize = 1; let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), p as int == prod(s@.take(i as int)), pmax(s@) <= imax()
        decreases s@.len() - i
    {
        proof {
            assert(s@.take(i + 1).drop_last() =~= s@.take(i as int));
            lemma_pmax(s@.take(i + 1)); lemma_pmax_take(s@, i + 1);
        }
        p = p * s[i]; i = i + 1;
    }
    proof { assert(s@.take(i as int) =~= s@); }
    p
}
pub trait VxToVec<T> { spec fn tv(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tv(); }
impl<T: Copy> VxToVec<T> for [T] { open spec fn tv(&self) -> Seq<T> { self@ }
  fn vx_to_vec(&self) -> (r: Vec<T>) {
    let mut v: Vec<T> = Vec::new(); let mut i: usize = 0;
    while i < self.len() invariant i <= self@.len(), v@ == self@.take(i as int) decreases self@.len() - i { v.push(self[i]); i = i + 1; assert(v@ =~= self@.take(i as int)); }
    assert(self@.take(i as int) =~= self@); v } }
impl<T: Copy> VxToVec<T> for Vec<T> { open spec fn tv(&self) -> Seq<T> { self@ }
  fn vx_to_vec(&self) -> (r: Vec<T>) {
    let mut v: Vec<T> = Vec::new(); let mut i: usize = 0;
    while i < self.len() invariant i <= self@.len(), v@ == self@.take(i as int) decreases self@.len() - i { v.push(self[i]); i = i + 1; assert(v@ =~= self@.take(i as int)); }
    assert(self@.take(i as int) =~= self@); v } }
pub trait VxSwap<T> { spec fn wv(&self) -> Seq<T>; fn vx_swap(&mut self, a: usize, b: usize) requires a < old(self).wv().len(), b < old(self).wv().len()
    ensures final(self).wv() == old(self).wv().update(a as int, old(self).wv()[b as int]).update(b as int, old(self).wv()[a as int]); }
impl<T: Copy> VxSwap<T> for Vec<T> { open spec fn wv(&self) -> Seq<T> { self@ }
  fn vx_swap(&mut self, a: usize, b: usize) { let x = self[a]; let y = self[b]; self[a] = y; self[b] = x; } }
impl<T> VxSwap<T> for [T] { open spec fn wv(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn vx_swap(&mut self, a: usize, b: usize) { self.swap(a, b) } }
pub assume_specification [u64::wrapping_neg] (x: u64) -> (r: u64) ensures r as int == (if x == 0 { 0int } else { 0x1_0000_0000_0000_0000 - x });
pub trait VxContains { spec fn has(&self, x: i64) -> bool; fn vx_contains(&self, x: &i64) -> (r: bool) ensures r == self.has(*x); }
impl VxContains for Vec<i64> { open spec fn has(&self, x: i64) -> bool { self@.contains(x) }
  fn vx_contains(&self, x: &i64) -> bool { let mut i: usize = 0;
    while i < self.len() invariant i <= self@.len(), forall|k: int| 0 <= k < i ==> self@[k] != *x decreases self@.len() - i { if self[i] == *x { assert(self@[i as int] == *x); return true; } i = i + 1; }
    false } }
pub fn vx_is_multiple_of(a: usize, b: usize) -> (r: bool) ensures r == (if b == 0 { a == 0 } else { a % b == 0 }) { if b == 0 { a == 0 } else { a % b == 0 } }
#[verifier::external_body]
pub fn vx_panic_any<T>() -> (r: T) requires false { unimplemented!() }
pub trait VxOrd: Sized { spec fn sv(&self) -> int; fn vx_max(self, o: Self) -> (r: Self) ensures r.sv() == (if o.sv() > self.sv() { o.sv() } else { self.sv() }); fn vx_min(self, o: Self) -> (r: Self) ensures r.sv() == (if o.sv() < self.sv() { o.sv() } else { self.sv() }); }
impl VxOrd for usize { open spec fn sv(&self) -> int { *self as int } fn vx_max(self, o: usize) -> usize { if o > self { o } else { self } } fn vx_min(self, o: usize) -> usize { if o < self { o } else { self } } }
impl VxOrd for isize { open spec fn sv(&self) -> int { *self as int } fn vx_max(self, o: isize) -> isize { if o > self { o } else { self } } fn vx_min(self, o: isize) -> isize { if o < self { o } else { self } } }
impl VxOrd for i64 { open spec fn sv(&self) -> int { *self as int } fn vx_max(self, o: i64) -> i64 { if o > self { o } else { self } } fn vx_min(self, o: i64) -> i64 { if o < self { o } else { self } } }
impl VxOrd for u64 { open spec fn sv(&self) -> int { *self as int } fn vx_max(self, o: u64) -> u64 { if o > self { o } else { self } } fn vx_min(self, o: u64) -> u64 { if o < self { o } else { self } } }
pub trait VxNeg: Sized { spec fn nv(&self) -> int; spec fn lo() -> int; spec fn hi() -> int;
  fn vx_saturating_neg(self) -> (r: Self) ensures r.nv() == (if self.nv() == Self::lo() { Self::hi() } else { -self.nv() });
  fn vx_abs(self) -> (r: Self) requires self.nv() != Self::lo() ensures r.nv() == (if self.nv() < 0 { -self.nv() } else { self.nv() }); }
impl VxNeg for isize { open spec fn nv(&self) -> int { *self as int } open spec fn lo() -> int { isize::MIN as int } open spec fn hi() -> int { isize::MAX as int }
  fn vx_saturating_neg(self) -> isize { if self == isize::MIN { isize::MAX } else { -self } } fn vx_abs(self) -> isize { if self < 0 { -self } else { self } } }
impl VxNeg for i64 { open spec fn nv(&self) -> int { *self as int } open spec fn lo() -> int { i64::MIN as int } open spec fn hi() -> int { i64::MAX as int }
  fn vx_saturating_neg(self) -> i64 { if self == i64::MIN { i64::MAX } else { -self } } fn vx_abs(self) -> i64 { if self < 0 { -self } else { self } } }
pub trait VxUabs: Sized { spec fn uv(&self) -> int; fn vx_unsigned_abs(self) -> (r: usize) ensures r as int == (if self.uv() < 0 { -self.uv() } else { self.uv() }); }
impl VxUabs for isize { open spec fn uv(&self) -> int { *self as int }
  #[verifier::external_body] fn vx_unsigned_abs(self) -> usize { self.unsigned_abs() } }
pub trait VxSat: Sized { fn vx_saturating_sub(self, o: Self) -> (r: Self); }
impl VxSat for usize { fn vx_saturating_sub(self, o: usize) -> (r: usize) ensures r as int == (if self >= o { self - o } else { 0 }) { if self >= o { self - o } else { 0 } } }
pub trait VxEuc: Sized { spec fn ev(&self) -> int; spec fn mn() -> int;
  fn vx_div_euclid(self, o: Self) -> (r: Self) requires o.ev() > 0 ensures r.ev() == self.ev() / o.ev();
  fn vx_rem_euclid(self, o: Self) -> (r: Self) requires o.ev() > 0 ensures r.ev() == self.ev() % o.ev(); }
impl VxEuc for i64 { open spec fn ev(&self) -> int { *self as int } open spec fn mn() -> int { i64::MIN as int }
  #[verifier::external_body] fn vx_div_euclid(self, o: i64) -> i64 { self.div_euclid(o) }
  #[verifier::external_body] fn vx_rem_euclid(self, o: i64) -> i64 { self.rem_euclid(o) } }
impl VxEuc for isize { open spec fn ev(&self) -> int { *self as int } open spec fn mn() -> int { isize::MIN as int }
  #[verifier::external_body] fn vx_div_euclid(self, o: isize) -> isize { self.div_euclid(o) }
  #[verifier::external_body] fn vx_rem_euclid(self, o: isize) -> isize { self.rem_euclid(o) } }
} // verus!
