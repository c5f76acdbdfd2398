@unit prods
@use typed.rs
@struct src/array/mod.rs RumpyArray
@include array.rs
@include arrmem.rs
@struct src/array/iter.rs StridedIter
@struct src/array/iter.rs AxisOffsetIter
@include iterspec.rs
@include copymem.rs
@include storing.rs
@import core RumpyArray::shape RumpyArray::strides
@import movers RumpyArray::dtype RumpyArray::data_ptr

@raw
// element arithmetic: functions of the bytes (what they compute per type: P06, P07, P09 harnesses)
pub enum BinaryOp { Mul }
pub enum ReduceOp { Sum }
pub uninterp spec fn mulb(d: DType, x: Seq<u8>, y: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sumb(d: DType, acc: Seq<u8>, v: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn zerob(d: DType) -> Seq<u8>;
pub uninterp spec fn as_f64(d: DType, v: Seq<u8>) -> Option<f64>;
pub uninterp spec fn of_f64(d: DType, v: f64) -> Seq<u8>;
#[verifier::external_body]
pub proof fn lemma_arith(d: DType) ensures zerob(d).len() == dt_size(d), forall|x: Seq<u8>, y: Seq<u8>| (#[trigger] mulb(d, x, y)).len() == dt_size(d), forall|x: Seq<u8>, y: Seq<u8>| (#[trigger] sumb(d, x, y)).len() == dt_size(d), forall|v: f64| (#[trigger] of_f64(d, v)).len() == dt_size(d) { unimplemented!() }
pub open spec fn fadd(a: f64, b: f64) -> f64 { <f64 as vstd::std_specs::ops::AddSpec>::add_spec(a, b) }
pub open spec fn fmul(a: f64, b: f64) -> f64 { <f64 as vstd::std_specs::ops::MulSpec>::mul_spec(a, b) }
/// IEEE addition and multiplication are total functions of their operands
#[verifier::external_body]
pub proof fn lemma_f64() ensures <f64 as vstd::std_specs::ops::AddSpec>::obeys_add_spec(), <f64 as vstd::std_specs::ops::MulSpec>::obeys_mul_spec(),
    forall|a: f64, b: f64| #[trigger] <f64 as vstd::std_specs::ops::AddSpec>::add_req(a, b), forall|a: f64, b: f64| #[trigger] <f64 as vstd::std_specs::ops::MulSpec>::mul_req(a, b) { unimplemented!() }
impl Ops {
    #[verifier::external_body]
    pub fn read_f64(&self, src: VPtr, off: isize, Tracked(mem): Tracked<&mut Mem>) -> (r: Option<f64>)
        requires acc(old(mem).v(), pb(src), po(src) + off, dt_size(ops_dt(*self)))
        ensures final(mem).v() == old(mem).v(), r == as_f64(ops_dt(*self), get(old(mem).v()[pb(src)], po(src) + off, dt_size(ops_dt(*self)))) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_f64(&self, dst: VPtr, idx: usize, v: f64, Tracked(mem): Tracked<&mut Mem>) -> (r: bool)
        requires acc(old(mem).v(), pb(dst), po(dst) + idx * dt_size(ops_dt(*self)), dt_size(ops_dt(*self)))
        ensures final(mem).v() == old(mem).v().insert(pb(dst), bput(old(mem).v()[pb(dst)], po(dst) + idx * dt_size(ops_dt(*self)), of_f64(ops_dt(*self), v))) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_zero(&self, dst: VPtr, idx: usize, Tracked(mem): Tracked<&mut Mem>)
        requires acc(old(mem).v(), pb(dst), po(dst) + idx * dt_size(ops_dt(*self)), dt_size(ops_dt(*self)))
        ensures final(mem).v() == old(mem).v().insert(pb(dst), bput(old(mem).v()[pb(dst)], po(dst) + idx * dt_size(ops_dt(*self)), zerob(ops_dt(*self)))) { unimplemented!() }
    #[verifier::external_body]
    pub fn binary_op(&self, op: BinaryOp, a: VPtr, ao: isize, b: VPtr, bo: isize, dst: VPtr, idx: usize, Tracked(mem): Tracked<&mut Mem>)
        requires ({ let z = dt_size(ops_dt(*self)); let m = old(mem).v(); acc(m, pb(a), po(a) + ao, z) && acc(m, pb(b), po(b) + bo, z) && acc(m, pb(dst), po(dst) + idx * z, z) })
        ensures ({ let d = ops_dt(*self); let z = dt_size(d); let m = old(mem).v(); final(mem).v() == m.insert(pb(dst), bput(m[pb(dst)], po(dst) + idx * z, mulb(d, get(m[pb(a)], po(a) + ao, z), get(m[pb(b)], po(b) + bo, z)))) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn reduce_acc(&self, op: ReduceOp, dst: VPtr, idx: usize, v: VPtr, off: isize, Tracked(mem): Tracked<&mut Mem>)
        requires ({ let z = dt_size(ops_dt(*self)); let m = old(mem).v(); acc(m, pb(v), po(v) + off, z) && acc(m, pb(dst), po(dst) + idx * z, z) })
        ensures ({ let d = ops_dt(*self); let z = dt_size(d); let m = old(mem).v(); final(mem).v() == m.insert(pb(dst), bput(m[pb(dst)], po(dst) + idx * z, sumb(d, get(m[pb(dst)], po(dst) + idx * z, z), get(m[pb(v)], po(v) + off, z)))) }) { unimplemented!() }
}
/// a local array of n words, as memory of its own
#[verifier::external_body] pub struct Scratch { x: usize }
pub uninterp spec fn scr(s: Scratch) -> int;
#[verifier::external_body]
pub fn vx_scratch(n: usize, Tracked(mem): Tracked<&mut Mem>) -> (r: Scratch) requires n <= 16
    ensures !old(mem).v().dom().contains(scr(r)), blen(scr(r)) == n * 8, exists|s: Seq<u8>| s.len() == n * 8 && final(mem).v() == #[trigger] old(mem).v().insert(scr(r), s) { unimplemented!() }
impl Scratch { #[verifier::external_body] pub fn as_mut_ptr(&mut self) -> (r: VPtr) ensures pb(r) == scr(*old(self)), po(r) == 0 { unimplemented!() } }
pub open spec fn is_flt(d: DType) -> bool { dt_kind(d) is Float16 || dt_kind(d) is Float32 || dt_kind(d) is Float64 }
pub open spec fn f0(o: Option<f64>) -> f64 { match o { Some(v) => v, None => 0.0 } }
pub open spec fn fsum(d: DType, x: spec_fn(int) -> Seq<u8>, y: spec_fn(int) -> Seq<u8>, n: int) -> f64 decreases n
    { if n <= 0 { 0.0 } else { fadd(fsum(d, x, y, n - 1), fmul(f0(as_f64(d, x(n - 1))), f0(as_f64(d, y(n - 1))))) } }
pub open spec fn isum(d: DType, x: spec_fn(int) -> Seq<u8>, y: spec_fn(int) -> Seq<u8>, n: int) -> Seq<u8> decreases n
    { if n <= 0 { zerob(d) } else { sumb(d, isum(d, x, y, n - 1), mulb(d, x(n - 1), y(n - 1))) } }
/// the sum of products x(0)y(0) + .. + x(n-1)y(n-1), as an element of type d
pub open spec fn sop(d: DType, x: spec_fn(int) -> Seq<u8>, y: spec_fn(int) -> Seq<u8>, n: int) -> Seq<u8>
    { if is_flt(d) { of_f64(d, fsum(d, x, y, n)) } else { isum(d, x, y, n) } }
/// the k-th element of n elements s bytes apart
pub open spec fn strided(m: Map<int, Seq<u8>>, p: VPtr, s: int, z: int) -> spec_fn(int) -> Seq<u8> { |k: int| get(m[pb(p)], po(p) + k * s, z) }
pub open spec fn str_ok(m: Map<int, Seq<u8>>, p: VPtr, s: int, n: int, z: int) -> bool { po(p) <= imax() && forall|k: int| 0 <= k < n ==> acc(m, pb(p), #[trigger] (po(p) + k * s), z) }
pub proof fn lemma_koff(m: Map<int, Seq<u8>>, p: VPtr, s: int, n: int, z: int, k: int)
    requires str_ok(m, p, s, n, z), 0 <= k < n, z >= 1 ensures -imax() <= k * s <= imax(), acc(m, pb(p), po(p) + k * s, z)
{ assert(acc(m, pb(p), po(p) + k * s, z)); assert(acc(m, pb(p), po(p) + 0 * s, z)); assert(0 * s == 0) by (nonlinear_arith); }
pub proof fn lemma_isum_len(d: DType, x: spec_fn(int) -> Seq<u8>, y: spec_fn(int) -> Seq<u8>, n: int) ensures isum(d, x, y, n).len() == dt_size(d) { lemma_arith(d); }
#[verifier::external_body]
pub proof fn lemma_kind_size(d: DType) ensures !(dt_kind(d) is Str) ==> dt_size(d) <= 16 { unimplemented!() }
@endraw

@fn src/ops/inner.rs dot_strided flags=ptrs memself mem=read_f64,write_f64,write_zero,binary_op,reduce_acc
@props P14
@sub /\[0u64; 2\]/ => vx_scratch(2, Tracked(mem))
@req
    !(dt_kind(*dtype) is Str), n <= imax(), str_ok(old(mem).v(), a, a_stride as int, n as int, dt_size(*dtype)), str_ok(old(mem).v(), b, b_stride as int, n as int, dt_size(*dtype)),
    acc(old(mem).v(), pb(out), po(out), dt_size(*dtype)), pb(out) != pb(a), pb(out) != pb(b),
@ens
    frame_but(old(mem).v(), final(mem).v(), pb(out)),
    final(mem).v()[pb(out)] == bput(old(mem).v()[pb(out)], po(out), sop(*dtype, strided(old(mem).v(), a, a_stride as int, dt_size(*dtype)), strided(old(mem).v(), b, b_stride as int, dt_size(*dtype)), n as int)),
@start
    let ghost m0 = mem.v(); let ghost d = *dtype; let ghost z = dt_size(d); let ghost x = strided(m0, a, a_stride as int, z); let ghost y = strided(m0, b, b_stride as int, z); let ghost o = po(out); let ghost ob = pb(out);
    proof { lemma_dt(d); lemma_arith(d); lemma_f64(); lemma_kind_size(d); assert(0 * z == 0); }
@inv 0
    invariant mem.v() == m0, d == *dtype, ops_dt(ops) == d, 0 <= __i0 <= __e0, __e0 == n, n <= imax(), z == dt_size(d), z >= 1, x == strided(m0, a, a_stride as int, z), y == strided(m0, b, b_stride as int, z), str_ok(m0, a, a_stride as int, n as int, z), str_ok(m0, b, b_stride as int, n as int, z),
        sum == fsum(d, x, y, __i0 as int),
    decreases __e0 - __i0
@body 0
    proof { lemma_f64(); lemma_koff(m0, a, a_stride as int, n as int, z, __i0 as int); lemma_koff(m0, b, b_stride as int, n as int, z, __i0 as int); }
@at /let product = product.as_mut_ptr/
    let ghost sb = scr(product); let ghost m1 = mem.v();
    proof { assert(live(m1, sb)); assert(frame(m0, m1)); }
@inv 1
    invariant d == *dtype, ops_dt(ops) == d, 0 <= __i1 <= __e1, __e1 == n, n <= imax(), 1 <= z <= 16, z == dt_size(d), x == strided(m0, a, a_stride as int, z), y == strided(m0, b, b_stride as int, z), str_ok(m0, a, a_stride as int, n as int, z), str_ok(m0, b, b_stride as int, n as int, z),
        acc(m0, ob, o, z), ob == pb(out), o == po(out), pb(out) != pb(a), pb(out) != pb(b), pb(product) == sb, po(product) == 0, !m0.dom().contains(sb), blen(sb) == 16, live(mem.v(), sb),
        frame_but(m0, mem.v(), ob), mem.v()[ob] == bput(m0[ob], o, isum(d, x, y, __i1 as int)),
    decreases __e1 - __i1
@body 1
    let ghost k = __i1 as int; let ghost m2 = mem.v();
    proof { lemma_arith(d); lemma_koff(m0, a, a_stride as int, n as int, z, k); lemma_koff(m0, b, b_stride as int, n as int, z, k); lemma_isum_len(d, x, y, k); lemma_put(m0[ob], o, isum(d, x, y, k), o, z); assert(0 * z == 0);
        assert(x(k) == get(m2[pb(a)], po(a) + k * a_stride, z)); assert(y(k) == get(m2[pb(b)], po(b) + k * b_stride, z)); }
@end 1
    proof { let v = mulb(d, x(k), y(k)); lemma_put(m2[sb], 0, v, 0, z); lemma_isum_len(d, x, y, k + 1);
        assert(bput(bput(m0[ob], o, isum(d, x, y, k)), o, isum(d, x, y, k + 1)) =~= bput(m0[ob], o, isum(d, x, y, k + 1))); }

@raw
pub open spec fn ix2(i: int, j: int) -> Seq<usize> { seq![i as usize, j as usize] }
pub proof fn lemma_ix2(a: RumpyArray, i: int, j: int)
    requires wf(a), a.shape@.len() == 2, 0 <= i < a.shape@[0], 0 <= j < a.shape@[1]
    ensures ({ let (s0, s1) = (a.strides@[0] as int, a.strides@[1] as int); let o = a.offset + i * s0 + j * s1; inb(ix2(i, j), a.shape@) && nonempty(a.shape@) && addr(a, ix2(i, j)) == o && 0 <= o && o + isz(a) <= buf_len(a.buffer)
        && -imax() <= i * s0 <= imax() && -imax() <= j * s1 <= imax() && -imax() <= i * s0 + j * s1 <= imax() && 0 <= a.offset + i * s0 && a.offset + i * s0 + isz(a) <= buf_len(a.buffer) && 0 <= a.offset + j * s1 && a.offset + j * s1 + isz(a) <= buf_len(a.buffer)
        && prod(a.shape@) == a.shape@[0] * a.shape@[1] && unrmi(i * a.shape@[1] + j, a.shape@) == ix2(i, j) && 0 <= i * a.shape@[1] + j < prod(a.shape@) })
{
    let sh = a.shape@; let st = a.strides@; let (s0, s1) = (st[0] as int, st[1] as int);
    assert forall|u: int, v: int| 0 <= u < sh[0] && 0 <= v < sh[1] implies inb(#[trigger] ix2(u, v), sh) && addr(a, ix2(u, v)) == a.offset + u * s0 + v * s1 && 0 <= addr(a, ix2(u, v)) && addr(a, ix2(u, v)) + isz(a) <= buf_len(a.buffer) by {
        let q = ix2(u, v); assert(inb(q, sh)); lemma_addr_ok(a, q); reveal_with_fuel(dot, 3); assert(dot(q, st, 2) == u * s0 + v * s1);
    }
    assert(0 * s0 == 0 && 0 * s1 == 0);
    assert(addr(a, ix2(i, j)) >= 0 && addr(a, ix2(i, 0)) >= 0 && addr(a, ix2(0, j)) >= 0 && addr(a, ix2(0, 0)) >= 0); lemma_inb_box(ix2(i, j), sh);
    let q = ix2(i, j); lemma_rmi_bound(q, sh); lemma_rmi_inv(q, sh); reveal_with_fuel(rmi, 3); reveal_with_fuel(prod, 3);
    assert(sh.drop_last().drop_last() =~= Seq::<usize>::empty()); assert(q.drop_last().drop_last() =~= Seq::<usize>::empty());
    assert(sh.drop_last().last() == sh[0]); assert(q.drop_last().last() == q[0]); assert(rmi(q.drop_last(), sh.drop_last()) == 0 * (sh[0] as int) + i); assert(0 * (sh[0] as int) == 0);
    assert(prod(sh.drop_last()) == 1 * (sh[0] as int));
    assert(rmi(q, sh) == i * (sh[1] as int) + j);
}
/// row i of a times column j of b
pub open spec fn row(m: Map<int, Seq<u8>>, a: RumpyArray, i: int) -> spec_fn(int) -> Seq<u8> { |k: int| elem(m, a, ix2(i, k)) }
pub open spec fn col(m: Map<int, Seq<u8>>, b: RumpyArray, j: int) -> spec_fn(int) -> Seq<u8> { |k: int| elem(m, b, ix2(k, j)) }
pub open spec fn mmul(m: Map<int, Seq<u8>>, a: RumpyArray, b: RumpyArray, i: int, j: int) -> Seq<u8> { sop(a.dtype, row(m, a, i), col(m, b, j), a.shape@[1] as int) }
pub proof fn lemma_sop_eq(d: DType, x: spec_fn(int) -> Seq<u8>, y: spec_fn(int) -> Seq<u8>, u: spec_fn(int) -> Seq<u8>, v: spec_fn(int) -> Seq<u8>, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] x(k) == u(k), forall|k: int| 0 <= k < n ==> #[trigger] y(k) == v(k)
    ensures isum(d, x, y, n) == isum(d, u, v, n), fsum(d, x, y, n) == fsum(d, u, v, n), sop(d, x, y, n) == sop(d, u, v, n)
    decreases n
{ if n > 0 { lemma_sop_eq(d, x, y, u, v, n - 1); assert(x(n - 1) == u(n - 1)); assert(y(n - 1) == v(n - 1)); } }
@endraw

@fn src/ops/matmul.rs matmul_generic flags=ptrs memself mem=dot_strided
@props P14
@req
    wf(*a), wf(*b), wf(*c), mok(old(mem).v(), *a), mok(old(mem).v(), *b), mok(old(mem).v(), *c), bid(*c) != bid(*a), bid(*c) != bid(*b), a.dtype == b.dtype, a.dtype == c.dtype, !(dt_kind(a.dtype) is Str),
    a.shape@ == seq![m, n], b.shape@ == seq![n, p], c.shape@ == seq![m, p], m > 0, n > 0, p > 0,
@ens
    stored(old(mem).v(), final(mem).v(), *c, |k: int| mmul(old(mem).v(), *a, *b, k / (p as int), k % (p as int)), m * p),
@start
    let ghost m0 = mem.v(); let ghost f = |k: int| mmul(m0, *a, *b, k / (p as int), k % (p as int)); let ghost z = isz(*a); let ghost d = a.dtype;
    proof { lemma_dim_le(a.shape@, z, 0); lemma_dim_le(a.shape@, z, 1); lemma_dim_le(b.shape@, z, 1); lemma_dt(d); }
@before 0
    proof { assert(0 * p == 0); assert(stored(m0, mem.v(), *c, f, 0)); }
@inv 0
    invariant 0 <= __i0 <= __e0, __e0 == m, m <= imax(), n <= imax(), p <= imax(), m > 0, n > 0, p > 0, z == isz(*a), z >= 1, d == a.dtype, d == dtype, f == (|k: int| mmul(m0, *a, *b, k / (p as int), k % (p as int))),
        wf(*a), wf(*b), wf(*c), mok(m0, *a), mok(m0, *b), mok(m0, *c), bid(*c) != bid(*a), bid(*c) != bid(*b), a.dtype == b.dtype, a.dtype == c.dtype, !(dt_kind(a.dtype) is Str),
        a.shape@ == seq![m, n], b.shape@ == seq![n, p], c.shape@ == seq![m, p], pb(c_ptr) == bid(*c), po(c_ptr) == c.offset,
        stored(m0, mem.v(), *c, f, __i0 * p),
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int;
@inv 1
    invariant 0 <= __i1 <= __e1, __e1 == p, 0 <= i0 < m, i == i0, m <= imax(), n <= imax(), p <= imax(), m > 0, n > 0, p > 0, z == isz(*a), z >= 1, d == a.dtype, d == dtype, f == (|k: int| mmul(m0, *a, *b, k / (p as int), k % (p as int))),
        wf(*a), wf(*b), wf(*c), mok(m0, *a), mok(m0, *b), mok(m0, *c), bid(*c) != bid(*a), bid(*c) != bid(*b), a.dtype == b.dtype, a.dtype == c.dtype, !(dt_kind(a.dtype) is Str),
        a.shape@ == seq![m, n], b.shape@ == seq![n, p], c.shape@ == seq![m, p], pb(c_ptr) == bid(*c), po(c_ptr) == c.offset,
        stored(m0, mem.v(), *c, f, i0 * p + __i1),
    decreases __e1 - __i1
@body 1
    let ghost j0 = __i1 as int; let ghost k0 = i0 * p + j0; let ghost m1 = mem.v();
    proof {
        lemma_ix2(*a, i0, 0); lemma_ix2(*b, 0, j0); lemma_ix2(*c, i0, j0); lemma_dt(d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k0, p as int, i0, j0);
        assert(f(k0) == mmul(m0, *a, *b, i0, j0)); assert(pos(*c, k0) == addr(*c, ix2(i0, j0)));
        assert(m1[bid(*a)] == m0[bid(*a)]); assert(m1[bid(*b)] == m0[bid(*b)]); assert(live(m1, bid(*a)) && live(m1, bid(*b)) && live(m1, bid(*c)));
        assert forall|k: int| 0 <= k < n implies acc(m1, bid(*a), #[trigger] (a.offset + i0 * a.strides@[0] + k * a.strides@[1]), z) && elem(m0, *a, ix2(i0, k)) == get(m1[bid(*a)], a.offset + i0 * a.strides@[0] + k * a.strides@[1], z) by { lemma_ix2(*a, i0, k); }
        assert forall|k: int| 0 <= k < n implies acc(m1, bid(*b), #[trigger] (b.offset + j0 * b.strides@[1] + k * b.strides@[0]), z) && elem(m0, *b, ix2(k, j0)) == get(m1[bid(*b)], b.offset + j0 * b.strides@[1] + k * b.strides@[0], z) by { lemma_ix2(*b, k, j0); }
    }
@end 1
    proof {
        let x = |k: int| get(m1[bid(*a)], a.offset + i0 * a.strides@[0] + k * a.strides@[1], z); let y = |k: int| get(m1[bid(*b)], b.offset + j0 * b.strides@[1] + k * b.strides@[0], z);
        lemma_sop_eq(d, x, y, row(m0, *a, i0), col(m0, *b, j0), n as int);
        lemma_isum_len(d, row(m0, *a, i0), col(m0, *b, j0), n as int); lemma_arith(d);
        lemma_store(m0, m1, *c, f, k0);
        let m2 = m1.insert(bid(*c), bput(m1[bid(*c)], pos(*c, k0), f(k0)));
        assert(mem.v()[bid(*c)] == m2[bid(*c)]);
        lemma_stored_same(m0, m2, mem.v(), *c, f, k0 + 1);
    }
@end 0
    proof { assert(i0 * p + p == (i0 + 1) * p) by (nonlinear_arith); }
