#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the text stays in one place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}})
I=["inputs"]; IH=["inputs","histories"]
p("P01","Indexing and slicing return exactly the requested elements",
 "Indexing an array of any shape and memory layout with any mix of integers, slices (any start, stop and step, of either sign and any magnitude), an ellipsis and new axes gives the shape and the elements that Python/NumPy indexing rules prescribe, also when applied to views of views. An integer outside the axis, or too many indices, raises an error. No index makes the library read, expose or crash on memory outside the array.",
 I,"every shape, layout (strided, reversed, transposed, offset), dtype and index expression",
 "Tests use a few small shapes, mostly contiguous and with in-range positive bounds; the offset and stride arithmetic must be right for every start/stop/step/stride combination, including views of reversed views and extreme bounds.",
 ["src/array/views.rs","src/array/mod.rs","src/python/pyarray/dunder_item.rs"],
 [("slice and index arithmetic","src/array/views.rs slice_axis, view_with; src/python/pyarray/dunder_item.rs"),("element address","src/array/mod.rs byte_offset_for, get_element")],"result of x[key] compared with the index semantics")
p("P02","Shape operations only relabel elements",
 "Reshape, ravel, transpose, axis moves and swaps, flips, rotations, squeeze, expand_dims and their compositions yield exactly the source's elements in the position the operation defines (row-major order for reshape and ravel), for every shape and every memory layout of the source. Requests whose element count or axes do not fit are refused.",
 I,"every shape, permutation, target shape, memory layout and composition of view operations",
 "The result depends on the stride pattern of the source; tests reshape and transpose contiguous arrays, while the failures live in compositions (reshape of a transposed, reversed or broadcast view).",
 ["src/array/mod.rs","src/array/views.rs","src/array/manipulation.rs","src/python/shape.rs"],
 [("view construction","src/array/views.rs, src/array/mod.rs reshape/transpose"),("stride computation","src/array/mod.rs compute_c_strides, is_c_contiguous")],"elements and shape of the result")
p("P03","Results do not depend on memory layout, and operands stay unchanged",
 "Every array function gives the same result for an array whatever its memory layout (packed, strided, reversed, transposed, offset into a larger buffer) as for a packed copy with the same elements. Computing a result never changes the operands.",
 I,"every operation, dtype and pair of operand layouts",
 "Each operation has several code paths chosen by contiguity and stride; tests mostly reach the contiguous one, and the others silently read the wrong elements.",
 ["src/ops/dispatch.rs","src/ops/loops/contiguous.rs","src/ops/loops/strided.rs","src/array/iter.rs","src/ops/ufunc.rs"],
 [("path selection and strided loops","src/ops/ufunc.rs, src/ops/loops/strided.rs"),("offset iteration","src/array/iter.rs")],"result on a view compared with the result on its packed copy")
p("P04","Broadcasting follows the alignment rule for all shapes",
 "Element-wise operations on operands of any shapes combine elements exactly as right-aligned broadcasting prescribes (an axis of length one or a missing axis repeats, equal axes pair up), including zero-length axes, zero-dimensional operands and non-contiguous operands. Incompatible shapes are refused, never truncated or misread.",
 I,"every pair or triple of shapes, layouts and element-wise operations",
 "The space of shape pairs times layouts is infinite; broadcasting views have zero strides, which take separate loop paths.",
 ["src/array/mod.rs","src/array/views.rs","src/ops/ufunc.rs","src/ops/mod.rs"],
 [("shape rule","src/array/mod.rs broadcast_shapes"),("zero-stride views","src/array/views.rs broadcast_to")],"result shape and elements")
p("P05","Mixed-type operations use the promoted type, exactly",
 "For every pair of boolean, integer, floating and complex element types, arithmetic, two-way selection, concatenation and stacking produce the element type given by NumPy's promotion table, which is commutative, never narrower than either operand, and the values are converted to that type without passing through a less exact one.",
 I,"every ordered pair of element types and every value",
 "Tests cover a handful of pairs; promotion is an algebraic law over the whole table and over every value.",
 ["src/array/dtype/mod.rs","src/ops/ufunc.rs","src/ops/mod.rs"],
 [("promotion table","src/array/dtype/mod.rs promote"),("operand conversion","src/ops/ufunc.rs")],"dtype and values of results")
p("P06","Integer and boolean element-wise arithmetic is exact modulo the width",
 "For every integer element type and every pair of values, addition, subtraction, multiplication, negation, absolute value, squares and powers wrap modulo two to the width, floor division rounds toward minus infinity with division by zero giving zero, bitwise and shift operations are bit-exact with over-wide shifts defined, and comparisons, maxima, minima and logical operations are exact. No value pair crashes or loses precision, at any array length.",
 I,"all values of every integer width, all array lengths and loop paths",
 "Edge values (minimum divided by minus one, shifts by the width, values above 2^53) and loop remainders are sampled by no test.",
 ["src/ops/kernels/arithmetic.rs","src/ops/kernels/bitwise.rs","src/ops/kernels/comparison.rs","src/ops/dispatch.rs"],
 [("per-element kernels","src/ops/kernels/*.rs"),("loops","src/ops/loops/*.rs")],"result elements")
p("P07","Floating and complex element-wise operations match IEEE semantics",
 "For every pair of floating-point values, addition, subtraction, multiplication, division, comparison, maximum/minimum (NaN-propagating and NaN-ignoring), sign manipulation, rounding to integral values, square root and classification give the IEEE-754 result of the element type, at any array length and layout; complex arithmetic follows the usual algebra. Elementary functions agree with the reference up to rounding.",
 I,"all float bit patterns, all array lengths and loop paths",
 "NaN, signed zero, infinities, subnormals and half precision combine in ways tests sample sparsely; vector-loop remainders depend on length.",
 ["src/ops/kernels/arithmetic.rs","src/ops/kernels/math.rs","src/ops/kernels/comparison.rs","src/ops/special.rs"],
 [("per-element kernels","src/ops/kernels/*.rs")],"result elements")
p("P08","Conversions and element stores preserve values",
 "Converting an array to another element type, copying it, reading an element into Python, storing a Python value or another array into it, and exchanging data with NumPy preserve every value that the target type can represent; integer-to-integer conversion wraps, integer-to-float rounds to nearest, float-to-integer truncates, and anything-to-boolean tests for non-zero. Stores affect only the addressed elements.",
 I,"all values, all ordered pairs of element types, all layouts",
 "Tests convert small values; large integers, complex values and narrow types are where detours through another type lose information.",
 ["src/array/dtype/macros.rs","src/array/dtype/mod.rs","src/array/mod.rs","src/python/pyarray/dunder_item.rs"],
 [("element read/write","src/array/dtype/*.rs"),("astype/copy","src/array/mod.rs")],"converted values")
p("P09","Reductions combine every element along the axis exactly once",
 "Sum, product, maximum, minimum, arg-maximum, arg-minimum, all, any, counting, mean, variance, median and Euclidean norm over the whole array or along any axis combine each element of the reduced slice exactly once, for every shape, layout and length; integer sums and products along an axis wrap modulo the width, maxima and minima propagate NaN, ties go to the first position, and empty sums and products give the identity.",
 I,"every shape, axis, layout, length and element type",
 "Vectorised main loops, remainders and per-axis strides split the work differently for each length and layout; tests use short contiguous arrays.",
 ["src/ops/array_methods/reductions.rs","src/ops/dispatch.rs","src/ops/loops/strided.rs","src/ops/statistics.rs"],
 [("reduction loops","src/ops/dispatch.rs, src/ops/loops"),("axis iteration","src/array/iter.rs")],"reduced values")
p("P10","Cumulative operations and differences satisfy their recurrences",
 "Cumulative sums and products and repeated differences along any axis satisfy their defining recurrences element by element, for every shape, axis, layout and element type, with integers wrapping modulo the width; the cumulative sum of a sequence and its differences are inverse to each other.",
 I,"every shape, axis, layout and element type",
 "The recurrence must hold at every position of every length; tests check a few short arrays.",
 ["src/ops/array_methods/cumulative.rs","src/ops/numerical.rs"],
 [("cumulative loops","src/ops/array_methods/cumulative.rs"),("differences","src/ops/numerical.rs")],"result elements")
p("P11","Sorting, searching and set operations are correct on every input",
 "Sorting and partitioning return a permutation of the input in the required order (NaN last) along any axis, argsort and lexsort return the stable sorting permutation, binary search and digitize return the insertion position of the requested side, and unique and set operations return exactly the sorted distinct members, all compared exactly in the element type.",
 I,"every input sequence including duplicates, NaN, extreme integers, every axis and layout",
 "Comparison-order bugs only show with NaN, duplicates or integers above 2^53, and a non-total order can crash the sort on long inputs.",
 ["src/ops/array_methods/sorting.rs","src/ops/set_ops.rs","src/ops/indexing.rs"],
 [("total order and sort","src/ops/array_methods/sorting.rs"),("merges","src/ops/set_ops.rs"),("binary search","src/ops/indexing.rs searchsorted, digitize")],"result sequences")
p("P12","Joining and rearranging move every element to its place",
 "Concatenate, stack, split, repeat, tile, roll, pad, insert, delete, append and resize produce exactly the defined arrangement of the input elements, bit for bit, for every shape, axis, count, layout and element type; operands that do not fit are refused.",
 I,"every shape, axis, count, layout and element type",
 "Offset arithmetic depends on the axis, the shapes of all operands and the layout; tests cover one or two shapes each.",
 ["src/array/manipulation.rs","src/python/shape.rs"],
 [("element movers","src/array/manipulation.rs concatenate, repeat, tile, roll, pad, insert, delete")],"result elements")
p("P13","Selection by index or mask picks and writes exactly the named elements",
 "Integer-array and boolean-mask selection, take, where, choose, compress, extract, nonzero, diagonal and triangle extraction return exactly the named elements in order, and put, putmask and place write exactly the named elements, for every shape, layout, index type and element type. Out-of-range indices are refused rather than read.",
 I,"every shape, layout, index array, mask and element type",
 "Negative, repeated, out-of-range and empty indices on strided operands are a large product space.",
 ["src/ops/indexing.rs","src/python/indexing.rs","src/python/misc.rs","src/python/pyarray/dunder_item.rs"],
 [("gather/scatter","src/ops/indexing.rs take, select_by_*; src/python/misc.rs")],"selected or updated elements")
p("P14","Matrix products and einsum equal the sum-of-products definition",
 "Dot, matmul, inner, outer and einsum (any subscripts over one or more operands, including repeated, summed, kept and permuted indices) equal their sum-of-products definition for every conforming shapes, batch dimensions, layouts and numeric types, with integer results wrapping modulo the width. Non-conforming operands are refused and no operand is read out of bounds.",
 I,"every conforming shape combination, subscript string, layout and numeric type",
 "Each product picks among packed, strided, batched and matmul-reduction paths by shape and stride; tests exercise a few.",
 ["src/ops/matmul.rs","src/ops/gufunc/mod.rs","src/ops/gufunc/dims.rs","src/ops/inner.rs","src/ops/outer.rs","src/ops/einsum.rs"],
 [("loop dimensions","src/ops/gufunc/dims.rs"),("einsum contraction","src/ops/einsum.rs")],"result elements")
p("P15","Calendar arithmetic is exact before and after 1970",
 "Converting dates and times between units floors toward earlier times and is exact when refining, calendar-day and year-month-day conversion are mutually inverse over the whole proleptic Gregorian calendar, missing times stay missing, text output matches the value, and business-day tests, counts and offsets follow the week mask and holidays for dates on either side of 1970.",
 I,"every date and time value and every unit pair, every week mask and holiday list",
 "Leap-year and pre-epoch arithmetic has to hold for every day of a 400-year cycle and for negative values; tests check a few modern dates.",
 ["src/array/dtype/datetime64.rs","src/python/datetime.rs"],
 [("day/ymd conversion","src/array/dtype/datetime64.rs"),("business days","src/python/datetime.rs")],"converted values and strings")
p("P16","Random generation stays in range, is reproducible and permutes exactly",
 "For every seed, integers drawn from a range lie in that range and every empty range is refused, unit floats lie in [0,1), the stream is a function of the seed and of the draws made (scalar and array draws agree), the raw stream equals the reference generator's, shuffles and permutations preserve the multiset of elements of any type and layout, and sampling without replacement never repeats.",
 IH,"every seed, range, count, element type and sequence of draws",
 "Bounds of rejection sampling and in-place shuffles need every range and every generator state; tests sample a few seeds.",
 ["src/random/generator.rs","src/random/pcg64.rs","src/python/random.rs"],
 [("bounded integers","src/random/generator.rs"),("shuffle","src/random/generator.rs, src/python/random.rs")],"drawn values")
p("P17","Saved arrays load back identically",
 "An array of any shape, element type and memory layout saved in the binary array file or archive format loads back bit-identical here and in NumPy, files written by NumPy load identically, and raw-byte import and export agree with the row-major element order. Truncated or malformed files are refused, never partly read.",
 I,"every shape, layout, element type and file content",
 "Header construction, element order and truncation handling interact with layout and shape; tests save small contiguous arrays.",
 ["src/ops/io.rs","src/python/io.rs"],
 [("header and element order","src/ops/io.rs write_npy, read_npy")],"loaded arrays")
p("P18","Stores reach exactly the addressed elements, shared or not",
 "Assigning through any view changes exactly the addressed elements of the underlying array, which all other views of it see and no copy sees; overlapping source and target behave as if the source were copied first, and arrays reused for intermediate results are never observable through any name that is still alive.",
 ["inputs","histories"],"every sequence of views, stores and expression evaluations on shared arrays",
 "Aliasing bugs depend on the history of views and live references and on array size; single-call tests cannot see them.",
 ["src/python/pyarray/dunder_item.rs","src/python/pyarray/dunder_ops.rs","src/python/pyarray/mod.rs","src/array/mod.rs"],
 [("item assignment","src/python/pyarray/dunder_item.rs"),("temporary reuse","src/python/pyarray/dunder_ops.rs")],"contents of every live array after the store")
p("P19","Linear algebra factorisations reconstruct their input",
 "Solving, inverting and factorising a well-conditioned matrix gives factors and solutions that reconstruct the input up to rounding, for every size and layout.",
 I,"every well-conditioned matrix","Numerical backward error must be bounded for every matrix.",
 ["src/ops/linalg.rs","src/ops/solve.rs"],[("factorisations","src/ops/linalg.rs (faer)")],"reconstruction residual")
p("P20","Fourier transforms invert each other",
 "The forward and inverse transforms of any length and axis are mutually inverse up to rounding and match the definition.",
 I,"every length, axis and input","Accuracy for every length cannot be sampled.",
 ["src/ops/fft.rs"],[("transforms","src/ops/fft.rs (rustfft)")],"round-trip residual")
p("P21","Vectorised string operations equal the scalar string operation",
 "Each vectorised string operation equals the corresponding Python string method applied to every element.",
 I,"every string array and argument","Unicode strings are unbounded.",
 ["src/ops/char.rs","src/python/char.rs"],[("per-string functions","src/ops/char.rs")],"result strings")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
