@unit loops
@use typed.rs

@fn src/ops/loops/contiguous.rs map_binary
@props P03 P06 P07
@req
    a@.len() == b@.len(), a@.len() == old(out)@.len(),
@ens
    final(out)@ == Seq::new(a@.len(), |i: int| K::ap(a@[i], b@[i])),
@inv 0
    invariant __i0 <= __e0, __e0 == a@.len(), a@.len() == b@.len(), a@.len() == out@.len(),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] out@[i] == (K::ap(a@[i], b@[i]))
    decreases __e0 - __i0
@after 0
    proof { assert(out@ =~= Seq::new(a@.len(), |i: int| K::ap(a@[i], b@[i]))); }

@fn src/ops/loops/contiguous.rs map_unary
@props P03 P06 P07
@req
    src@.len() == old(out)@.len(),
@ens
    final(out)@ == Seq::new(src@.len(), |i: int| K::ap(src@[i])),
@inv 0
    invariant __i0 <= __e0, __e0 == src@.len(), src@.len() == out@.len(),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] out@[i] == (K::ap(src@[i]))
    decreases __e0 - __i0
@after 0
    proof { assert(out@ =~= Seq::new(src@.len(), |i: int| K::ap(src@[i]))); }

@fn src/ops/loops/contiguous.rs map_compare
@props P03 P06 P11
@req
    a@.len() == b@.len(), a@.len() == old(out)@.len(),
@ens
    final(out)@ == Seq::new(a@.len(), |i: int| K::ap(a@[i], b@[i]) as u8),
@inv 0
    invariant __i0 <= __e0, __e0 == a@.len(), a@.len() == b@.len(), a@.len() == out@.len(),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] out@[i] == (K::ap(a@[i], b@[i]) as u8)
    decreases __e0 - __i0
@after 0
    proof { assert(out@ =~= Seq::new(a@.len(), |i: int| K::ap(a@[i], b@[i]) as u8)); }

@fn src/ops/loops/contiguous.rs map_predicate
@props P03 P06
@req
    src@.len() == old(out)@.len(),
@ens
    final(out)@ == Seq::new(src@.len(), |i: int| K::ap(src@[i]) as u8),
@inv 0
    invariant __i0 <= __e0, __e0 == src@.len(), src@.len() == out@.len(),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] out@[i] == (K::ap(src@[i]) as u8)
    decreases __e0 - __i0
@after 0
    proof { assert(out@ =~= Seq::new(src@.len(), |i: int| K::ap(src@[i]) as u8)); }

@raw
pub open spec fn n_is0<T>(s: Seq<T>) -> bool { s.len() == 0 }
pub open spec fn mg2(a: Rt, b: Rt) -> Rt { Rt::Mrg(Box::new(a), Box::new(b)) }
pub open spec fn mrg8(t: Seq<Rt>) -> Rt { mg2(mg2(mg2(t[0], t[1]), mg2(t[2], t[3])), mg2(mg2(t[4], t[5]), mg2(t[6], t[7]))) }
pub proof fn lemma_mg2<T, K: ReduceKernel<T>>(a: Rt, b: Rt, s: Seq<T>)
    ensures ev::<T, K>(mg2(a, b), s) == K::mg(ev::<T, K>(a, s), ev::<T, K>(b, s)), forall|j: int| #[trigger] cnt(mg2(a, b), j) == cnt(a, j) + cnt(b, j) {}
pub proof fn lemma_mrg8<T, K: ReduceKernel<T>>(t: Seq<Rt>, i: int, s: Seq<T>)
    requires t.len() == 8, i >= 0, forall|k: int, j: int| 0 <= k < 8 ==> #[trigger] cnt(t[k], j) == (if 0 <= j < i && j % 8 == k { 1int } else { 0 })
    ensures once(mrg8(t), i), ev::<T, K>(mrg8(t), s) == K::mg(K::mg(K::mg(ev::<T, K>(t[0], s), ev::<T, K>(t[1], s)), K::mg(ev::<T, K>(t[2], s), ev::<T, K>(t[3], s))), K::mg(K::mg(ev::<T, K>(t[4], s), ev::<T, K>(t[5], s)), K::mg(ev::<T, K>(t[6], s), ev::<T, K>(t[7], s))))
{
    assert forall|j: int| #[trigger] cnt(mrg8(t), j) == (if 0 <= j < i { 1int } else { 0 }) by {
        reveal_with_fuel(cnt, 4);
        assert(cnt(t[0], j) + cnt(t[1], j) + cnt(t[2], j) + cnt(t[3], j) + cnt(t[4], j) + cnt(t[5], j) + cnt(t[6], j) + cnt(t[7], j) == (if 0 <= j < i { 1int } else { 0 }));
    }
    reveal_with_fuel(ev, 4);
}
@endraw

@fn src/ops/loops/contiguous.rs reduce
@props P03 P09
@ens
    is_red::<T, K>(r, data@),
@start
    let ghost mut t: Seq<Rt> = Seq::empty();
    proof { lemma_lt::<T, K>(data@, 0); if n_is0(data@) { lemma_red::<T, K>(lt(0), data@); } }
@before 0
    proof { lemma_lt::<T, K>(data@, 0); }
@inv 0
    invariant __i0 <= data@.len(), acc == ev::<T, K>(lt(__i0 as int), data@), once(lt(__i0 as int), __i0 as int)
    decreases data@.len() - __i0
@body 0
    proof {  lemma_lt::<T, K>(data@, __i0 + 1); lemma_lt::<T, K>(data@, __i0 as int); }
@after 0
    proof { lemma_red::<T, K>(lt(data@.len() as int), data@); }
@at /let mut r = \[/
    proof {  }
@before 1
    proof { t = Seq::new(8, |k: int| Rt::App(Box::new(Rt::Z), k)); reveal_with_fuel(ev, 3); reveal_with_fuel(cnt, 3); }
@inv 1
    invariant 8 <= i <= end, end <= n, i % 8 == 0, end % 8 == 0, n - end < 8, n == data@.len(), r@.len() == 8, t.len() == 8,
        forall|k: int| 0 <= k < 8 ==> ev::<T, K>(#[trigger] t[k], data@) == r@[k],
        forall|k: int, j: int| 0 <= k < 8 ==> #[trigger] cnt(t[k], j) == (if 0 <= j < i && j % 8 == k { 1int } else { 0 })
    decreases end - i
@body 1
    proof {  }
    let ghost t0 = t; let ghost i0 = i as int; let ghost r0 = r@;
@end 1
    proof {
        t = Seq::new(8, |k: int| Rt::App(Box::new(t0[k]), i0 + k));
        assert forall|k: int| 0 <= k < 8 implies ev::<T, K>(#[trigger] t[k], data@) == r@[k] by { assert(ev::<T, K>(t0[k], data@) == r0[k]); assert(ev::<T, K>(t[k], data@) == K::cb(r0[k], data@[i0 + k])); }
        assert forall|k: int, j: int| 0 <= k < 8 implies #[trigger] cnt(t[k], j) == (if 0 <= j < i && j % 8 == k { 1int } else { 0 }) by {
            assert(cnt(t0[k], j) == (if 0 <= j < i0 && j % 8 == k { 1int } else { 0 })); assert(cnt(t[k], j) == cnt(t0[k], j) + (if j == i0 + k { 1int } else { 0 })); }
    }
@before 2
    let ghost mut u: Rt = mrg8(t);
    proof { lemma_mrg8::<T, K>(t, i as int, data@); }
@inv 2
    invariant 8 <= i <= n, n - i < 8, n == data@.len(), acc == ev::<T, K>(u, data@), once(u, i as int)
    decreases n - i
@body 2
    proof {  }
    let ghost u0 = u; let ghost i0 = i as int;
@end 2
    proof { u = Rt::App(Box::new(u0), i0); assert(once(u, i as int)) by { assert forall|j: int| #[trigger] cnt(u, j) == (if 0 <= j < i { 1int } else { 0 }) by { assert(cnt(u0, j) == (if 0 <= j < i0 { 1int } else { 0 })); } } }
@after 2
    proof { lemma_red::<T, K>(u, data@); }

@fn src/ops/loops/contiguous.rs cumulative
@props P03 P10
@req
    data@.len() == old(out)@.len(),
@ens
    final(out)@ == Seq::new(data@.len(), |i: int| lf::<T, K>(data@, i + 1)),
@inv 0
    invariant __i0 <= __e0, __e0 == data@.len(), data@.len() == out@.len(), acc == lf::<T, K>(data@, __i0 as int),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] out@[i] == lf::<T, K>(data@, i + 1)
    decreases __e0 - __i0
@after 0
    proof { assert(out@ =~= Seq::new(data@.len(), |i: int| lf::<T, K>(data@, i + 1))); }
@at /return;/
    proof { assert(out@ =~= Seq::new(data@.len(), |i: int| lf::<T, K>(data@, i + 1))); }

@fn src/ops/loops/strided.rs map_binary_strided flags=ptrs memself
@props P03 P06 P07
@req
    sacc::<T>(old(mem).v(), tb(a_ptr), to(a_ptr), a_stride as int, n as int), sacc::<T>(old(mem).v(), tb(b_ptr), to(b_ptr), b_stride as int, n as int), tb(out_ptr) != tb(a_ptr), tb(out_ptr) != tb(b_ptr), out_stride as int == tsz::<T>(), acc(old(mem).v(), tb(out_ptr), to(out_ptr), n * tsz::<T>()), n <= imax(),
@ens
    wrote::<T>(old(mem).v(), final(mem).v(), tb(out_ptr), to(out_ptr), Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(a_ptr)], to(a_ptr), a_stride as int, n as int)[i], sv::<T>(old(mem).v()[tb(b_ptr)], to(b_ptr), b_stride as int, n as int)[i]))),
@start
    let ghost m0 = mem.v(); let ghost sq: Seq<T> = Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(a_ptr)], to(a_ptr), a_stride as int, n as int)[i], sv::<T>(old(mem).v()[tb(b_ptr)], to(b_ptr), b_stride as int, n as int)[i]));
    
    proof { lemma_wrote0::<T>(m0, tb(out_ptr), to(out_ptr)); assert(sq.take(0) =~= Seq::<T>::empty()); if n == 0 { assert(sq =~= Seq::<T>::empty()); } }
@inv 0
    invariant __i0 <= __e0, __e0 == n, n <= imax(), sacc::<T>(m0, tb(a_ptr), to(a_ptr), a_stride as int, n as int), m0[tb(a_ptr)] == mem.v()[tb(a_ptr)], mem.v().dom() == m0.dom(), sacc::<T>(m0, tb(b_ptr), to(b_ptr), b_stride as int, n as int), m0[tb(b_ptr)] == mem.v()[tb(b_ptr)], mem.v().dom() == m0.dom(), tb(out_ptr) != tb(a_ptr), tb(out_ptr) != tb(b_ptr), out_stride as int == tsz::<T>(), macc(m0, tb(out_ptr), to(out_ptr), n * tsz::<T>()), m0 == old(mem).v(), sq == Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(a_ptr)], to(a_ptr), a_stride as int, n as int)[i], sv::<T>(old(mem).v()[tb(b_ptr)], to(b_ptr), b_stride as int, n as int)[i])),
        
        wrote::<T>(m0, mem.v(), tb(out_ptr), to(out_ptr), sq.take(__i0 as int))
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int;
    proof {  lemma_sacc::<T>(m0, tb(a_ptr), to(a_ptr), a_stride as int, n as int, __i0 as int); lemma_sacc::<T>(m0, tb(b_ptr), to(b_ptr), b_stride as int, n as int, __i0 as int); lemma_tsz::<T>(); assert(sq.take(i0 + 1) =~= sq.take(i0).push(sq[i0]));
        lemma_wrote_step::<T>(m0, mem.v(), tb(out_ptr), to(out_ptr), sq.take(i0), sq[i0], n as int); assert(i0 * tsz::<T>() == tsz::<T>() * i0) by (nonlinear_arith); lemma_chunk_bound(i0, n as int, tsz::<T>());
         }
@after 0
    proof { assert(sq.take(n as int) =~= sq); }

@fn src/ops/loops/strided.rs map_unary_strided flags=ptrs memself
@props P03 P06 P07
@req
    sacc::<T>(old(mem).v(), tb(src_ptr), to(src_ptr), src_stride as int, n as int), tb(out_ptr) != tb(src_ptr), out_stride as int == tsz::<T>(), acc(old(mem).v(), tb(out_ptr), to(out_ptr), n * tsz::<T>()), n <= imax(),
@ens
    wrote::<T>(old(mem).v(), final(mem).v(), tb(out_ptr), to(out_ptr), Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int)[i]))),
@start
    let ghost m0 = mem.v(); let ghost sq: Seq<T> = Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int)[i]));
    
    proof { lemma_wrote0::<T>(m0, tb(out_ptr), to(out_ptr)); assert(sq.take(0) =~= Seq::<T>::empty()); if n == 0 { assert(sq =~= Seq::<T>::empty()); } }
@inv 0
    invariant __i0 <= __e0, __e0 == n, n <= imax(), sacc::<T>(m0, tb(src_ptr), to(src_ptr), src_stride as int, n as int), m0[tb(src_ptr)] == mem.v()[tb(src_ptr)], mem.v().dom() == m0.dom(), tb(out_ptr) != tb(src_ptr), out_stride as int == tsz::<T>(), macc(m0, tb(out_ptr), to(out_ptr), n * tsz::<T>()), m0 == old(mem).v(), sq == Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int)[i])),
        
        wrote::<T>(m0, mem.v(), tb(out_ptr), to(out_ptr), sq.take(__i0 as int))
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int;
    proof {  lemma_sacc::<T>(m0, tb(src_ptr), to(src_ptr), src_stride as int, n as int, __i0 as int); lemma_tsz::<T>(); assert(sq.take(i0 + 1) =~= sq.take(i0).push(sq[i0]));
        lemma_wrote_step::<T>(m0, mem.v(), tb(out_ptr), to(out_ptr), sq.take(i0), sq[i0], n as int); assert(i0 * tsz::<T>() == tsz::<T>() * i0) by (nonlinear_arith); lemma_chunk_bound(i0, n as int, tsz::<T>());
         }
@after 0
    proof { assert(sq.take(n as int) =~= sq); }

@fn src/ops/loops/strided.rs map_compare_strided flags=ptrs memself
@props P03 P06 P11
@req
    sacc::<T>(old(mem).v(), tb(a_ptr), to(a_ptr), a_stride as int, n as int), sacc::<T>(old(mem).v(), tb(b_ptr), to(b_ptr), b_stride as int, n as int), pb(out_ptr) != tb(a_ptr), pb(out_ptr) != tb(b_ptr), acc(old(mem).v(), pb(out_ptr), po(out_ptr), n * tsz::<u8>()), n <= imax(),
@ens
    wrote::<u8>(old(mem).v(), final(mem).v(), pb(out_ptr), po(out_ptr), Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(a_ptr)], to(a_ptr), a_stride as int, n as int)[i], sv::<T>(old(mem).v()[tb(b_ptr)], to(b_ptr), b_stride as int, n as int)[i]) as u8)),
@start
    let ghost m0 = mem.v(); let ghost sq: Seq<u8> = Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(a_ptr)], to(a_ptr), a_stride as int, n as int)[i], sv::<T>(old(mem).v()[tb(b_ptr)], to(b_ptr), b_stride as int, n as int)[i]) as u8);
    proof { lemma_u8(0u8); }
    proof { lemma_wrote0::<u8>(m0, pb(out_ptr), po(out_ptr)); assert(sq.take(0) =~= Seq::<u8>::empty()); if n == 0 { assert(sq =~= Seq::<u8>::empty()); } }
@inv 0
    invariant __i0 <= __e0, __e0 == n, n <= imax(), sacc::<T>(m0, tb(a_ptr), to(a_ptr), a_stride as int, n as int), m0[tb(a_ptr)] == mem.v()[tb(a_ptr)], mem.v().dom() == m0.dom(), sacc::<T>(m0, tb(b_ptr), to(b_ptr), b_stride as int, n as int), m0[tb(b_ptr)] == mem.v()[tb(b_ptr)], mem.v().dom() == m0.dom(), pb(out_ptr) != tb(a_ptr), pb(out_ptr) != tb(b_ptr), macc(m0, pb(out_ptr), po(out_ptr), n * tsz::<u8>()), m0 == old(mem).v(), sq == Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(a_ptr)], to(a_ptr), a_stride as int, n as int)[i], sv::<T>(old(mem).v()[tb(b_ptr)], to(b_ptr), b_stride as int, n as int)[i]) as u8),
        tsz::<u8>() == 1,
        wrote::<u8>(m0, mem.v(), pb(out_ptr), po(out_ptr), sq.take(__i0 as int))
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int;
    proof {  lemma_sacc::<T>(m0, tb(a_ptr), to(a_ptr), a_stride as int, n as int, __i0 as int); lemma_sacc::<T>(m0, tb(b_ptr), to(b_ptr), b_stride as int, n as int, __i0 as int); lemma_tsz::<T>(); assert(sq.take(i0 + 1) =~= sq.take(i0).push(sq[i0]));
        lemma_wrote_step::<u8>(m0, mem.v(), pb(out_ptr), po(out_ptr), sq.take(i0), sq[i0], n as int); assert(i0 * tsz::<u8>() == tsz::<u8>() * i0) by (nonlinear_arith); lemma_chunk_bound(i0, n as int, tsz::<u8>());
        lemma_u8(sq[i0]); }
@after 0
    proof { assert(sq.take(n as int) =~= sq); }

@fn src/ops/loops/strided.rs map_predicate_strided flags=ptrs memself
@props P03 P06
@req
    sacc::<T>(old(mem).v(), tb(src_ptr), to(src_ptr), src_stride as int, n as int), pb(out_ptr) != tb(src_ptr), acc(old(mem).v(), pb(out_ptr), po(out_ptr), n * tsz::<u8>()), n <= imax(),
@ens
    wrote::<u8>(old(mem).v(), final(mem).v(), pb(out_ptr), po(out_ptr), Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int)[i]) as u8)),
@start
    let ghost m0 = mem.v(); let ghost sq: Seq<u8> = Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int)[i]) as u8);
    proof { lemma_u8(0u8); }
    proof { lemma_wrote0::<u8>(m0, pb(out_ptr), po(out_ptr)); assert(sq.take(0) =~= Seq::<u8>::empty()); if n == 0 { assert(sq =~= Seq::<u8>::empty()); } }
@inv 0
    invariant __i0 <= __e0, __e0 == n, n <= imax(), sacc::<T>(m0, tb(src_ptr), to(src_ptr), src_stride as int, n as int), m0[tb(src_ptr)] == mem.v()[tb(src_ptr)], mem.v().dom() == m0.dom(), pb(out_ptr) != tb(src_ptr), macc(m0, pb(out_ptr), po(out_ptr), n * tsz::<u8>()), m0 == old(mem).v(), sq == Seq::new(n as nat, |i: int| K::ap(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int)[i]) as u8),
        tsz::<u8>() == 1,
        wrote::<u8>(m0, mem.v(), pb(out_ptr), po(out_ptr), sq.take(__i0 as int))
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int;
    proof {  lemma_sacc::<T>(m0, tb(src_ptr), to(src_ptr), src_stride as int, n as int, __i0 as int); lemma_tsz::<T>(); assert(sq.take(i0 + 1) =~= sq.take(i0).push(sq[i0]));
        lemma_wrote_step::<u8>(m0, mem.v(), pb(out_ptr), po(out_ptr), sq.take(i0), sq[i0], n as int); assert(i0 * tsz::<u8>() == tsz::<u8>() * i0) by (nonlinear_arith); lemma_chunk_bound(i0, n as int, tsz::<u8>());
        lemma_u8(sq[i0]); }
@after 0
    proof { assert(sq.take(n as int) =~= sq); }

@fn src/ops/loops/strided.rs cumulative_strided flags=ptrs memself
@props P03 P10
@req
    sacc::<T>(old(mem).v(), tb(src_ptr), to(src_ptr), src_stride as int, n as int), tb(out_ptr) != tb(src_ptr), out_stride as int == tsz::<T>(), acc(old(mem).v(), tb(out_ptr), to(out_ptr), n * tsz::<T>()), n <= imax(),
@ens
    wrote::<T>(old(mem).v(), final(mem).v(), tb(out_ptr), to(out_ptr), Seq::new(n as nat, |i: int| lf::<T, K>(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int), i + 1))),
@start
    let ghost m0 = mem.v(); let ghost sq: Seq<T> = Seq::new(n as nat, |i: int| lf::<T, K>(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int), i + 1));
    
    proof { lemma_wrote0::<T>(m0, tb(out_ptr), to(out_ptr)); assert(sq.take(0) =~= Seq::<T>::empty()); if n == 0 { assert(sq =~= Seq::<T>::empty()); } }
@inv 0
    invariant __i0 <= __e0, __e0 == n, n <= imax(), sacc::<T>(m0, tb(src_ptr), to(src_ptr), src_stride as int, n as int), m0[tb(src_ptr)] == mem.v()[tb(src_ptr)], mem.v().dom() == m0.dom(), tb(out_ptr) != tb(src_ptr), out_stride as int == tsz::<T>(), macc(m0, tb(out_ptr), to(out_ptr), n * tsz::<T>()), m0 == old(mem).v(), sq == Seq::new(n as nat, |i: int| lf::<T, K>(sv::<T>(old(mem).v()[tb(src_ptr)], to(src_ptr), src_stride as int, n as int), i + 1)),
        acc == lf::<T, K>(sv::<T>(m0[tb(src_ptr)], to(src_ptr), src_stride as int, n as int), __i0 as int),
        wrote::<T>(m0, mem.v(), tb(out_ptr), to(out_ptr), sq.take(__i0 as int))
    decreases __e0 - __i0
@body 0
    let ghost i0 = __i0 as int;
    proof {  lemma_sacc::<T>(m0, tb(src_ptr), to(src_ptr), src_stride as int, n as int, __i0 as int); lemma_tsz::<T>(); assert(sq.take(i0 + 1) =~= sq.take(i0).push(sq[i0]));
        lemma_wrote_step::<T>(m0, mem.v(), tb(out_ptr), to(out_ptr), sq.take(i0), sq[i0], n as int); assert(i0 * tsz::<T>() == tsz::<T>() * i0) by (nonlinear_arith); lemma_chunk_bound(i0, n as int, tsz::<T>());
         }
@after 0
    proof { assert(sq.take(n as int) =~= sq); }

@fn src/ops/loops/strided.rs reduce_strided flags=ptrs memself
@props P03 P09
@req
    sacc::<T>(old(mem).v(), tb(ptr), to(ptr), stride as int, n as int), n <= imax(),
@ens
    final(mem).v() == old(mem).v(),
    is_red::<T, K>(r, sv::<T>(old(mem).v()[tb(ptr)], to(ptr), stride as int, n as int)),
@start
    let ghost sq = sv::<T>(old(mem).v()[tb(ptr)], to(ptr), stride as int, n as int); let ghost mut t: Seq<Rt> = Seq::empty();
    proof { lemma_lt::<T, K>(sq, 0); if n_is0(sq) { lemma_red::<T, K>(lt(0), sq); } }
@before 0
    proof { lemma_lt::<T, K>(sq, 0); }
@inv 0
    invariant __i0 <= __e0, __e0 == n, mem.v() == old(mem).v(), sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int), sq == sv::<T>(mem.v()[tb(ptr)], to(ptr), stride as int, n as int), n <= imax(), acc == ev::<T, K>(lt(__i0 as int), sq), once(lt(__i0 as int), __i0 as int)
    decreases __e0 - __i0
@body 0
    proof { lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, __i0 as int); lemma_lt::<T, K>(sq, __i0 + 1); lemma_lt::<T, K>(sq, __i0 as int); }
@after 0
    proof { lemma_red::<T, K>(lt(sq.len() as int), sq); }
@at /let mut r = \[/
    proof { lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, 0); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, 1); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, 2); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, 3); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, 4); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, 5); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, 6); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, 7); }
@before 1
    proof { t = Seq::new(8, |k: int| Rt::App(Box::new(Rt::Z), k)); reveal_with_fuel(ev, 3); reveal_with_fuel(cnt, 3); }
@inv 1
    invariant 8 <= i <= end, end <= n, i % 8 == 0, end % 8 == 0, n - end < 8, mem.v() == old(mem).v(), sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int), sq == sv::<T>(mem.v()[tb(ptr)], to(ptr), stride as int, n as int), n <= imax(),  r@.len() == 8, t.len() == 8,
        forall|k: int| 0 <= k < 8 ==> ev::<T, K>(#[trigger] t[k], sq) == r@[k],
        forall|k: int, j: int| 0 <= k < 8 ==> #[trigger] cnt(t[k], j) == (if 0 <= j < i && j % 8 == k { 1int } else { 0 })
    decreases end - i
@body 1
    proof { lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i + 0); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i + 1); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i + 2); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i + 3); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i + 4); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i + 5); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i + 6); lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i + 7); }
    let ghost t0 = t; let ghost i0 = i as int; let ghost r0 = r@;
@end 1
    proof {
        t = Seq::new(8, |k: int| Rt::App(Box::new(t0[k]), i0 + k));
        assert forall|k: int| 0 <= k < 8 implies ev::<T, K>(#[trigger] t[k], sq) == r@[k] by { assert(ev::<T, K>(t0[k], sq) == r0[k]); assert(ev::<T, K>(t[k], sq) == K::cb(r0[k], sq[i0 + k])); }
        assert forall|k: int, j: int| 0 <= k < 8 implies #[trigger] cnt(t[k], j) == (if 0 <= j < i && j % 8 == k { 1int } else { 0 }) by {
            assert(cnt(t0[k], j) == (if 0 <= j < i0 && j % 8 == k { 1int } else { 0 })); assert(cnt(t[k], j) == cnt(t0[k], j) + (if j == i0 + k { 1int } else { 0 })); }
    }
@before 2
    let ghost mut u: Rt = mrg8(t);
    proof { lemma_mrg8::<T, K>(t, i as int, sq); }
@inv 2
    invariant 8 <= i <= n, n - i < 8, mem.v() == old(mem).v(), sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int), sq == sv::<T>(mem.v()[tb(ptr)], to(ptr), stride as int, n as int), n <= imax(),  acc == ev::<T, K>(u, sq), once(u, i as int)
    decreases n - i
@body 2
    proof { lemma_sacc::<T>(mem.v(), tb(ptr), to(ptr), stride as int, n as int, i as int); }
    let ghost u0 = u; let ghost i0 = i as int;
@end 2
    proof { u = Rt::App(Box::new(u0), i0); assert(once(u, i as int)) by { assert forall|j: int| #[trigger] cnt(u, j) == (if 0 <= j < i { 1int } else { 0 }) by { assert(cnt(u0, j) == (if 0 <= j < i0 { 1int } else { 0 })); } } }
@after 2
    proof { lemma_red::<T, K>(u, sq); }
