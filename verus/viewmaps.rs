// index maps of the views
pub open spec fn slen(start: int, stop: int, step: int) -> int {
    if step > 0 { if stop > start { (stop - start - 1) / step + 1 } else { 0 } } else { if start > stop { (start - stop - 1) / (-step) + 1 } else { 0 } }
}
/// what Python's slice.indices() guarantees
pub open spec fn snorm(n: int, start: int, stop: int, step: int) -> bool {
    step != 0 && isize::MIN <= step <= imax() && (if step > 0 { 0 <= start && stop <= n && start <= imax() && stop >= -1 } else { -1 <= stop && start <= n - 1 && start >= -1 && stop <= imax() })
}
pub open spec fn m_slice(axis: int, start: int, step: int, len: int) -> spec_fn(Seq<usize>) -> Seq<usize> {
    |idx: Seq<usize>| idx.update(axis, if len == 0 { 0usize } else { (start + idx[axis] * step) as usize })
}
pub open spec fn m_rev() -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.reverse() }
pub open spec fn m_scatter(p: Seq<usize>) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| scatter(idx, p) }
pub open spec fn m_id() -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx }
pub open spec fn bc_ok(sh: Seq<usize>, rsh: Seq<usize>) -> bool {
    sh.len() <= rsh.len() && forall|i: int| 0 <= i < sh.len() ==> (#[trigger] sh[i]) == rsh[rsh.len() - sh.len() + i] || sh[i] == 1
}
pub open spec fn m_bcast(sh: Seq<usize>) -> spec_fn(Seq<usize>) -> Seq<usize> {
    |idx: Seq<usize>| Seq::new(sh.len(), |i: int| if sh[i] == 1 { 0usize } else { idx[idx.len() - sh.len() + i] })
}
pub open spec fn m_remove(axis: int) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.remove(axis) }
pub open spec fn m_insert0(axis: int) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.insert(axis, 0usize) }
pub open spec fn m_flip(axis: int, n: int) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| idx.update(axis, (n - 1 - idx[axis]) as usize) }
pub open spec fn m_reshape(rsh: Seq<usize>, sh: Seq<usize>) -> spec_fn(Seq<usize>) -> Seq<usize> { |idx: Seq<usize>| unrmi(rmi(idx, rsh), sh) }
