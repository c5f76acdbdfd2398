"""writes lib/levels.json: one honest note per property"""
import json
T="contract-based deductive verification: Verus contracts on functions extracted from /repo on every run%s; labelled bounded stand-in on the built module for the glue no contract reaches"
K=", Kani full-domain harnesses on /repo's own loop-free kernels"
C=" Beyond these functions (argument parsing through PyO3, dispatch macros, dependencies) the evidence is the bounded stand-in and is not counted as proved; assumptions are listed in the evidence and in DESIGN.md section 2."
N={
"P01":(0,"Proved for all shapes, strides, offsets and indices: view construction (slice_axis, view_with, diagonal, swapaxes, broadcast_to, squeeze, expand_dims, gufunc_subarray), the strided and axis iterators visit every index once in row-major order, every address formed lies in the buffer. Bounded: the parsing of Python index tuples."),
"P02":(0,"Proved: reshape (view and copying), ravel, transpose, transpose_axes, swapaxes, flip, rot90 (every k), squeeze, expand_dims, split, contiguity flags, size and stride computation: the element at each index equals the defined source element. Bounded: argument parsing, compositions end to end."),
"P03":(0,"Proved: the dispatch functions and loops (unary, binary, comparison, predicate, where, reductions, scans), reshape, ravel, astype and copy yield a result that is a function of the logical elements only, whatever the strides, and write only into the fresh result. Bounded: functions above the dispatch layer."),
"P04":(0,"Proved: broadcast_shape(s), broadcast strides, binary dispatch over broadcast operands; incompatible shapes refused. Bounded: Python-visible operators."),
"P05":(1,"Kani: promote_dtype and the descriptors over every pair of element types (commutative, never narrower, NumPy table) exhaustively and symbolically. Bounded: the value conversions of the array functions using it."),
"P06":(1,"Kani: each integer/boolean kernel for every value pair and every width (division in the width-generic form as described in DESIGN.md). Verus: the loops that apply the kernels at any length. Bounded: operator dispatch."),
"P07":(1,"Kani: every floating kernel for all bit patterns; elementary functions are shown to be the libm call on the element type (the libm result itself is trusted). Verus: the loops that apply the kernels at any length. Bounded: operator dispatch."),
"P08":(1,"Kani: element read/write/convert for every pair of types and all values. Verus: astype, copy, fill_view touch exactly the addressed elements, for every layout. Bounded: conversions through PyO3."),
"P09":(1,"Verus: axis iteration, the typed reduction loops and the whole-array loops combine each element once, in order, for every shape, axis and layout; all, any and count_nonzero are the conjunction, disjunction and number of true elements. Kani: reduction kernels (combine, identity) for every value. Bounded: mean/var/median glue."),
"P10":(0,"Proved: the scan loops and dispatch (cumulative sum/product, flat and along any axis) satisfy the recurrence for every shape, axis and layout; diff of every order along every axis is the iterated difference of neighbours, for every layout. Bounded: ediff1d, include_initial and the NaN variants."),
"P11":(1,"Verus: binary search (searchsorted: both sides, any layout, every sorted input) and comparison loops. Kani: the element comparison is the exact total order with NaN last on every type. Sorting itself is the standard library's sort (assumed); axis glue and set operations are bounded."),
"P12":(0,"Proved: concatenate (empty arrays included), stack, append, insert, delete, split/array_split, repeat, tile, roll, diagflat, tri, index normalisation and the copy primitives move every element to the defined place, for every shape, axis, count and layout. Bounded: pad, resize."),
"P13":(1,"Verus: take (all paths), take_along_axis, put, put_along_axis, choose, mask selection, compress, nonzero positions (flatnonzero, argwhere), ravel_multi_index, where, index normalisation (out-of-range refused), triangles, diagonal and view fills address exactly the named elements. Kani: index conversion for every value of every type. Bounded: fancy-index parsing, place, unravel_index."),
"P14":(0,"Proved: the views the products work on (view_with, transpose_axes, gufunc_subarray, reshape); dot_strided and matmul_generic store exactly the sum of products at every position, for every stride and size. Bounded (integer types compared exactly): products and einsum on the module."),
"P15":(0,"Proved: civil-day conversion both ways, unit conversion (floor/refine), business-day test, count and offset. Bounded: text output and array glue."),
"P16":(0,"Proved: PCG64-DXSM step, output and seeding from state, bounded integer draw (range and rejection), shuffle and permutation preserve the elements, integers stays in range. Bounded: stream equality with the reference generator, choice and array glue."),
"P17":(0,"Proved: contiguity and layout primitives that save and load rely on. Bounded: header parsing, archive, truncation at every byte."),
"P18":(0,"Verus: fill through any view changes exactly the addressed elements, put and put_along_axis store at exactly the indexed elements and leave every other byte alone, buffer-sharing and reuse tests accept only unshared, same-shape, same-type buffers. Bounded: overlapping stores and expression histories on the module."),
}
out={p:{"level":"other","technique":T%(K if k else ""),"note":n+C} for p,(k,n) in N.items()}
json.dump(out,open("/verif/lib/levels.json","w"),indent=1)
