@unit stores
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@include viewmaps.rs
@include storing.rs
@import iter StridedIter::new StridedIter::next
@import core RumpyArray::size RumpyArray::shape RumpyArray::strides RumpyArray::ndim RumpyArray::itemsize RumpyArray::is_c_contiguous
@import movers RumpyArray::dtype RumpyArray::data_ptr
@import views RumpyArray::broadcast_to RumpyArray::squeeze_axis
@import dispatch RumpyArray::iter_offsets
@import copy RumpyArray::astype

@raw
// Python objects: opaque; what they hold is a function of the object
#[verifier::external_body] pub struct PyAny { x: usize }
#[verifier::external_body] pub struct PyErr { x: usize }
#[verifier::external_body] pub struct PyRumpyArray { x: usize }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Bound<'a, T> { x: std::marker::PhantomData<&'a T> }
#[verifier::reject_recursive_types(T)] pub struct PyRef<'a, T> { pub inner: RumpyArray, pub x: std::marker::PhantomData<&'a T> }
pub type PyResult<T> = Result<T, PyErr>;
pub mod pyo3 { pub mod ffi { use vstd::prelude::*; #[verifier::external_body] pub struct PyObject { x: usize } } pub mod exceptions { use vstd::prelude::*;
    #[verifier::external_body] pub struct PyValueError { x: usize }
    impl PyValueError { #[verifier::external_body] pub fn new_err(s: &str) -> super::super::PyErr { unimplemented!() } }
} }
/// what the object converts to, if it does
pub uninterp spec fn ext<'a, T>(v: &Bound<'a, PyAny>) -> Option<T>;
impl<'a> Bound<'a, PyAny> {
    #[verifier::external_body]
    pub fn extract<T>(&self) -> (r: PyResult<T>) ensures r is Ok <==> ext::<T>(self) is Some, r is Ok ==> ext::<T>(self) == Some(r->Ok_0) { unimplemented!() }
}
pub open spec fn parr<'a>(v: &Bound<'a, PyAny>) -> Option<RumpyArray> { match ext::<PyRef<'a, PyRumpyArray>>(v) { Some(p) => Some(p.inner), None => None } }
/// a number's bytes in an element type
pub uninterp spec fn num<'a>(v: &Bound<'a, PyAny>, d: DType) -> Seq<u8>;
#[verifier::external_body]
pub fn scalar_array<'a>(value: &Bound<'a, PyAny>, dtype: &DType, Tracked(mem): Tracked<&mut Mem>) -> (r: PyResult<RumpyArray>)
    ensures frame(old(mem).v(), final(mem).v()), r is Ok ==> fresh(r->Ok_0, old(mem).v(), final(mem).v(), Seq::empty(), *dtype) && els(final(mem).v(), r->Ok_0) == seq![num(value, *dtype)]
{ unimplemented!() }
/// leading axes of length one dropped, down to n axes
pub open spec fn drop1(sh: Seq<usize>, n: int) -> Seq<usize> decreases sh.len() { if sh.len() > n && sh.len() > 0 && sh[0] == 1 { drop1(sh.remove(0), n) } else { sh } }
/// shape and elements of the value, in the element type of the target
pub open spec fn psh<'a>(v: &Bound<'a, PyAny>) -> Seq<usize> { match parr(v) { Some(a) => a.shape@, None => Seq::empty() } }
pub open spec fn pels<'a>(m: Map<int, Seq<u8>>, v: &Bound<'a, PyAny>, d: DType) -> Seq<Seq<u8>> { match parr(v) { Some(a) => convs(m, a, d), None => seq![num(v, d)] } }
/// what position k of the target gets
pub open spec fn sval(e: Seq<Seq<u8>>, sh: Seq<usize>, vs: Seq<usize>, k: int) -> Seq<u8> { e[rmi(m_bcast(sh)(unrmi(k, vs)), sh)] }
pub proof fn lemma_rmi_lead(i: Seq<usize>, s: Seq<usize>)
    requires i.len() == s.len() ensures rmi(i.insert(0, 0usize), s.insert(0, 1usize)) == rmi(i, s), prod(s.insert(0, 1usize)) == prod(s)
    decreases s.len()
{
    let (i2, s2) = (i.insert(0, 0usize), s.insert(0, 1usize));
    if s.len() == 0 { assert(i2.drop_last() =~= i); assert(s2.drop_last() =~= s); assert(rmi(i, s) == 0); assert(0 * (s2.last() as int) == 0); assert(prod(s) == 1); }
    else { lemma_rmi_lead(i.drop_last(), s.drop_last()); assert(i2.drop_last() =~= i.drop_last().insert(0, 0usize)); assert(s2.drop_last() =~= s.drop_last().insert(0, 1usize)); }
}
pub proof fn lemma_drop1(m: Map<int, Seq<u8>>, a: RumpyArray, r: RumpyArray)
    requires wf(a), mok(m, a), a.shape@.len() > 0, a.shape@[0] == 1, r.shape@ == a.shape@.remove(0), is_view(r, a, m_insert0(0))
    ensures els(m, r) == els(m, a), mok(m, r), prod(r.shape@) == prod(a.shape@), pmax(r.shape@) <= pmax(a.shape@)
{
    let t = r.shape@; assert(t.insert(0, 1usize) =~= a.shape@); lemma_rmi_lead(Seq::new(t.len(), |i: int| 0usize), t);
    assert forall|k: int| 0 <= k < prod(t) implies nth(m, r, k) == nth(m, a, k) by {
        let i = unrmi(k, t); lemma_unrmi_inb(k, t); lemma_unrmi_len(k, t); lemma_rmi_lead(i, t); let j = i.insert(0, 0usize);
        assert(inb(m_insert0(0)(i), a.shape@)); assert(m_insert0(0)(i) == j); lemma_rmi_inv(j, a.shape@); assert(rmi(i, t) == k) by { lemma_step(k, t); }
    }
    lemma_pmax_lead(t); lemma_prod_pos(t); assert(prod(t) == prod(a.shape@)); assert(els(m, r).len() == els(m, a).len());
    assert forall|k: int| 0 <= k < prod(t) implies els(m, r)[k] == els(m, a)[k] by { assert(nth(m, r, k) == nth(m, a, k)); }
    assert(els(m, r) =~= els(m, a));
}
pub proof fn lemma_pmax_lead(t: Seq<usize>) ensures pmax(t.insert(0, 1usize)) == pmax(t) decreases t.len()
{ let u = t.insert(0, 1usize); if t.len() == 0 { assert(u.drop_last() =~= t); assert(1 * max1(1usize) == 1); assert(pmax(t) == 1); } else { lemma_pmax_lead(t.drop_last()); assert(u.drop_last() =~= t.drop_last().insert(0, 1usize)); } }
@endraw

@fn src/python/pyarray/mod.rs fill_view flags=ptrs memself mem=astype,copy_element,scalar_array
@props P18 P08 P13
@req
    wf(*old(view)), mok(old(mem).v(), *old(view)), nonempty(old(view).shape@),
    parr(value) is Some ==> ({ let a = parr(value)->0; wf(a) && mok(old(mem).v(), a) && aligned(a) && pmax(a.shape@) * isz(*old(view)) <= imax() }),
    pmax(old(view).shape@) * isz(*old(view)) <= imax(),
@ens
    *final(view) == *old(view),
    r is Err ==> frame(old(mem).v(), final(mem).v()),
    parr(value) is Some ==> (r is Ok <==> bc_ok(drop1(psh(value), old(view).shape@.len() as int), old(view).shape@)),
    r is Ok ==> ({ let sh = drop1(psh(value), old(view).shape@.len() as int); let e = pels(old(mem).v(), value, old(view).dtype); bc_ok(sh, old(view).shape@)
        && stored(old(mem).v(), final(mem).v(), *old(view), |k: int| sval(e, sh, old(view).shape@, k), prod(old(view).shape@)) }),
@start
    let ghost m0 = mem.v(); let ghost v0 = *view; let ghost d = v0.dtype; let ghost vs = v0.shape@; let ghost n = prod(vs); let ghost E = pels(m0, value, d); let ghost sh0 = psh(value); let ghost nd = vs.len() as int;
    proof { lemma_dt(d); lemma_prod_pos(vs); lemma_pmax(vs); lemma_pmax_le(vs, isz(v0)); reveal_with_fuel(pmax, 2); }
@at /let mut source = source/
    let ghost mc = mem.v();
    proof { lemma_prod_pos(sh0); reveal_with_fuel(prod, 2); assert(els(mc, source) == E); assert(fresh(source, m0, mc, sh0, d)); }
@inv 0
    invariant mem.v() == mc, *view == v0, vs == v0.shape@, nd == vs.len(), wf(source), mok(mc, source), source.dtype == d, !m0.dom().contains(bid(source)), els(mc, source) == E, drop1(source.shape@, nd) == drop1(sh0, nd)
    decreases source.shape@.len()
@body 0
    let ghost s0 = source;
@end 0
    proof { lemma_drop1(mc, s0, source); }
@at /let source = source.broadcast_to/
    let ghost src0 = source; let ghost sh = source.shape@;
    proof { assert(sh == drop1(sh0, nd)); }
@at /let src_ptr/
    let ghost f = |k: int| sval(E, sh, vs, k);
    proof {
        assert(bc_ok(sh, vs));
        assert forall|k: int| 0 <= k < n implies #[trigger] nth(mc, source, k) == f(k) by { lemma_unrmi_inb(k, vs); let i = m_bcast(sh)(unrmi(k, vs)); assert(inb(i, sh)); lemma_rmi_bound(i, sh); lemma_rmi_inv(i, sh); assert(els(mc, src0)[rmi(i, sh)] == nth(mc, src0, rmi(i, sh))); }
        assert(frame(m0, mc)); assert(stored(m0, mc, v0, f, 0));
    }
@inv 1
    invariant *view == v0, vs == v0.shape@, n == prod(vs), 0 < n <= imax(), wf(source), mok(mc, source), source.shape@ == vs, source.dtype == d, d == v0.dtype, dtype == d, !m0.dom().contains(bid(source)), wf(v0), mok(m0, v0), f == (|k: int| sval(E, sh, vs, k)),
        forall|k: int| 0 <= k < n ==> #[trigger] nth(mc, source, k) == f(k), mem.v()[bid(source)] == mc[bid(source)], live(mem.v(), bid(source)), pb(src_ptr) == bid(source), po(src_ptr) == source.offset, pb(dst_ptr) == bid(v0), po(dst_ptr) == v0.offset,
        si_wf(__it1), __it1.shape@ == source.shape@, __it1.strides@ == source.strides@, si_base(__it1) == 0, __i1 == si_pos(__it1), __i1 <= n,
        si_wf(__it1_1), __it1_1.shape@ == v0.shape@, __it1_1.strides@ == v0.strides@, si_base(__it1_1) == 0, __i1 == si_pos(__it1_1),
        stored(m0, mem.v(), v0, f, __i1 as int),
    ensures __i1 == n,
    decreases n - __i1
@body 1
    let ghost i0 = __i1 as int; let ghost m1 = mem.v();
    proof { if i0 < n { lemma_at(m1, source, i0); assert(m1.dom().contains(bid(v0))); lemma_at(m1, v0, i0); assert(nth(m1, source, i0) == nth(mc, source, i0)); assert(f(i0).len() == isz(v0)); lemma_store(m0, m1, v0, f, i0); assert(0 * isz(v0) == 0); } }

@raw
pub const ELISION_SIZE_THRESHOLD: usize = 32768;
/// how many owners a buffer has, and how many references a Python object, when asked
pub uninterp spec fn refs(b: Arc<ArrayBuffer>) -> int;
pub uninterp spec fn pyrefs(p: VTPtr<pyo3::ffi::PyObject>) -> int;
#[verifier::external_body] pub fn py_refcount_ptr(p: VTPtr<pyo3::ffi::PyObject>) -> (r: isize) ensures r == pyrefs(p) { unimplemented!() }
impl Arc<ArrayBuffer> {
    #[verifier::external_body] pub fn strong_count(b: &Arc<ArrayBuffer>) -> (r: usize) ensures r == refs(*b) { unimplemented!() }
    #[verifier::external_body] pub fn ptr_eq(a: &Arc<ArrayBuffer>, b: &Arc<ArrayBuffer>) -> (r: bool) ensures r == (buf_id(*a) == buf_id(*b)) { unimplemented!() }
}
/// == on slices of sizes compares the contents
#[verifier::external_body]
pub proof fn lemma_slice_eq() ensures <[usize] as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(), forall|a: &[usize], b: &[usize]| #[trigger] <[usize] as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(a, b) == (a@ == b@) { unimplemented!() }
/// nothing else can see the array's buffer, which holds exactly the elements of an array of this shape and type
pub open spec fn reusable(a: RumpyArray, sh: Seq<usize>, d: DType) -> bool {
    a.shape@ == sh && a.dtype == d && refs(a.buffer) == 1 && a.offset == 0 && (nonempty(sh) ==> is_cord(sh, a.strides@, dt_size(d)))
}
@endraw
@fn src/array/mod.rs RumpyArray::can_reuse_for_output
@props P18
@req
    wf(*self),
@ens
    r ==> reusable(*self, shape@, *dtype),
@start
    proof { lemma_slice_eq(); }
@fn src/array/mod.rs RumpyArray::shares_buffer_with
@props P18
@ens
    r == (bid(*self) == bid(*other)),
@fn src/python/pyarray/mod.rs try_elision_candidate
@props P18
@req
    wf(*arr), pmax(arr.shape@) <= imax(),
@ens
    r is Some ==> r->0 == *arr && reusable(*arr, result_shape@, *result_dtype) && pyrefs(self_ptr) <= 2,
