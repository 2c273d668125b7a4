#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
A = "include/array/array.h"
def p(id, title, statement, over, text, why, files, mech, obs, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Index-to-offset mapping and shape geometry are exact",
  "For every shape of any rank with resolved strides (positive, negative, zero, larger than 2^31) and every index x, the flat offset is sum((x_d - min_d)*stride_d) and array elements are found at base() plus that offset; data() is the lowest-addressed element. min/max/extent/stride/size/empty, flat_min/flat_max/flat_extent of non-empty shapes, and dims' and intervals' begin()/end()/max()/set_*/is_in_range agree with enumerating the described index set; clamp() returns the nearest value in range. is_in_range is true exactly when every index (or whole interval) given lies inside the corresponding dimension.",
  ["inputs", "configurations"], "all ranks, mins, extents, strides (any sign and magnitude without overflow), all static/dynamic mixes, both index_t widths",
  "The tests evaluate a few dozen fixed small shapes; the mapping must hold for every combination of rank, min, extent, stride sign and magnitude, including offsets beyond 32 bits that no test reaches.",
  [A], [("interval/dim accessors", A+": class interval, class dim"), ("flat offset and geometry reductions", A+": internal::flat_offset/flat_min/flat_max/product, class shape")],
  ["shape accessors", "addresses of elements obtained through operator() and operator[]"])

p("C02", "Automatic stride resolution yields valid, minimal, non-overlapping strides",
  "Resolving a shape (directly, or by constructing an array or array_ref with it) leaves every known stride, min and extent unchanged, gives every unknown stride a positive value, and, whenever the dimensions with known strides do not overlap one another, no two distinct indices share a flat offset. Dimensions are resolved from innermost to outermost, each to the smallest stride among 1 and stride*extent of the dimensions already known that does not intersect them (an extent 1 dimension additionally avoids reusing another's stride); so a shape with no known strides becomes compact with dimension 0 densest. Resolving is idempotent.",
  ["inputs", "configurations"], "all ranks, extents, subsets and values of known strides (static or dynamic, any sign, nested or padded)",
  "shape_auto_strides samples a couple of dozen hand-picked shapes; the rule quantifies over every subset of known strides and every extent vector.",
  [A], [("stride search", A+": internal::find_stride/candidate_stride/is_stride_ok/resolve_unknown_strides, shape::resolve")],
  ["strides after resolve()/array construction", "element addresses of the resolved array"])

p("C03", "Compile-time constants are transparent and conversions preserve values",
  "A shape, interval or dim whose parameters are partly compile-time constants behaves identically to the all-runtime one with the same values (offsets, geometry, iteration, equality), and setting or converting never changes a value: converting between compatible interval/dim/shape/array_ref types preserves every min, extent, and stride and the element addresses. == and != between shapes compare min, extent and stride of every dim regardless of which are static. is_compatible and is_explicitly_compatible return true exactly when every static parameter of the destination equals the source's value (resolved strides).",
  ["inputs", "configurations", "programs"], "all assignments of static/dynamic to min, extent and stride per dim, and all runtime values, including the library's own sentinel value -9 as a runtime value",
  "Each test instantiates one static/dynamic combination with one value; the claim is an equivalence over all combinations.",
  [A], [("constexpr_index", A+": internal::constexpr_index"), ("conversion constructors", A+": interval/dim/shape converting constructors and operator=, internal::assert_dims_compatible, is_compatible")],
  ["values read back after conversion", "array_ref conversions' element addresses"])

p("C04", "Index loops visit every index exactly once in the documented order",
  "for_each_index and for_all_indices call the function exactly once for every index in the shape and for no other index: with dim 0 as the innermost loop by default, in the order given by LoopOrder (first entry innermost, arguments still passed in dimension order) when one is given, columns innermost for matrix shapes, and channel then x then y for chunky image shapes. Empty shapes make no call and rank 0 shapes exactly one. Intervals and dims iterate min..max ascending.",
  ["inputs", "configurations"], "all ranks, extents including 0 and 1, negative mins, every loop-order permutation (also of a subset of dims), all specialised shape types",
  "Tests run a handful of shapes and two or three permutations; order and exactly-once are universally quantified over shapes and permutations.",
  [A, "include/array/matrix.h", "include/array/image.h"], [("loop nest", A+": for_each_index_in_order*, for_each_index, for_all_indices"), ("specialised orders", "include/array/matrix.h: shape_traits<matrix_shape>; include/array/image.h: for_each_image_index")],
  ["sequence of indices passed to the callback"])

p("C05", "for_each_value visits each element exactly once and nothing else",
  "for_each_value on any array or array_ref calls the function exactly once per index of the shape with a reference to that index's element (for broadcast dims, once per index on the shared element), and never reads, writes or forms a reference to padding or to memory outside the shape. This holds whatever the strides: padded, negative, permuted, zero, partially contiguous, extent 0 or 1, any rank, and for matrix and chunky image specialisations.",
  ["inputs", "configurations"], "all shapes: stride order and sign, padding, fusable and non-fusable neighbours, ranks 0..6, static and dynamic parameters",
  "The traversal reorders and fuses dims at runtime depending on stride values; tests count calls on mostly compact shapes, so an error that depends on a particular stride pattern is not reached.",
  [A, "include/array/matrix.h", "include/array/image.h"], [("dimension sorting and fusion", A+": internal::dynamic_optimize_shape, can_fuse, fuse"), ("pointer loops", A+": internal::for_each_value_in_order_impl, advance, for_each_value_in_order"), ("specialisations", "include/array/matrix.h, include/array/image.h: shape_traits::for_each_value")],
  ["addresses of the references passed to the callback", "poisoned or canary gap bytes"])

p("C06", "Slices and crops alias exactly the selected elements",
  "Indexing an array, array_ref or shape with any mix of indices, intervals, dims and `_` yields a view without the dimensions given an index, whose remaining dimensions have the min and extent that were requested (the original ones for `_`) and the original strides. For every index of the view, its element is the same object as the element of the source at the combined index, so reads and writes through either are seen by the other. Nested slices and crops compose, and views of const arrays are const.",
  ["inputs", "configurations"], "all shapes, all argument-kind combinations per dimension, all in-range indices and intervals (static and dynamic), nesting depth",
  "Tests check a few slice forms on compact arrays at rank 2 and 3.",
  [A], [("slicing", A+": internal::range_with_stride, intervals_with_strides, skip_slices, mins_of_intervals, make_array_ref_at; shape::operator[]/operator()")],
  ["addresses &view(i...) against &source(j...)", "view shape"])

p("C07", "Transposed, reordered, converted, reinterpreted views alias the right elements",
  "transpose and reorder of a shape, array or array_ref give a result whose dimension i is dimension P[i] of the source (trailing unlisted dims of a transposed shape unchanged) and whose element at the permuted index is the same object; convert_shape preserves leading dims and elements and adds dims of extent 1 or drops extent 1 dims; reinterpret<U> and reinterpret_const keep the shape and reinterpret the same bytes. The result is a fully usable array_ref: traversing it, copying from it or to it, and slicing it touches exactly those elements.",
  ["inputs", "configurations"], "all permutations and reorderings for ranks 1..5, all shapes and strides, rank raising and lowering conversions",
  "transpose/reorder tests use two or three permutations, and mostly check shapes rather than which element each index reaches.",
  [A], [("transpose/reorder", A+": transpose, reorder, transpose_impl, reinterpret_shape"), ("conversion", A+": convert_shape, convert_dims, reinterpret, reinterpret_const")],
  ["addresses of elements through the view", "traversal of the view"])

p("C08", "Copies and moves transfer exactly the destination's region",
  "copy and move between any two arrays or array_refs of the same rank set dst(x) to the value src(x) had, for every x in dst's shape, whatever the two layouts; nothing but those elements of dst changes (padding and the rest of the memory keep their bytes) and copy leaves src unchanged. make_copy, make_compact_copy, make_move and make_compact_move return an array with the requested (or compact) shape holding those values; empty destinations are a no-op. Move functions move-assign each element from its source exactly once and never copy it.",
  ["inputs", "configurations"], "all pairs of layouts (permuted, padded, negative, broadcast source, cropped destination with any in-bounds offset), element types, ranks",
  "Tests copy between a few layout pairs; the pairwise dimension fusion depends on the relation between both stride sets.",
  [A], [("copy/move", A+": copy, move, make_copy, make_move, make_compact_copy, make_compact_move"), ("pairwise optimisation", A+": internal::dynamic_optimize_copy_shapes, copy_shape_traits")],
  ["values and padding bytes of both buffers before and after", "element copy and move counters"])

p("C09", "fill, generate and transform write each destination element exactly once",
  "fill assigns the value, generate assigns the result of one call of the generator, and transform_index/transform_indices assign fn(x) at each index x, for every element of the destination exactly once and to nothing else. The generator is called in the order in which for_each_value visits the same shape, and transform functions are called in the order of for_each_index, with the element's own index.",
  ["inputs", "configurations"], "all shapes and layouts, ranks 0..5, specialised shape types, array and array_ref destinations",
  "Tests check a constant fill and a sequential generator on compact arrays.",
  [A], [("algorithms", A+": fill, generate, transform_index, transform_indices")],
  ["destination buffer including padding", "sequence of generator/pattern-function calls"])

p("C10", "Equality is exact",
  "equal(a, b) is true exactly when a and b have the same mins and extents and every pair of corresponding elements compares equal, whatever their layouts; operator== additionally requires equal strides, and operator!= is its negation. A difference in a single element anywhere, in any single min, extent (or for == stride) makes the result false; differences in padding never do.",
  ["inputs", "configurations"], "all pairs of shapes/layouts and all single-element differences",
  "Tests compare a few equal arrays and a few with a difference at one place; the claim needs every element position of every layout to be looked at.",
  [A], [("equality", A+": equal, array_ref::operator==/!=, array::operator==/!=, shape::operator==/!=, dim::operator==")],
  ["results on pairs with at most one planted difference", "addresses of elements whose operator!= was invoked"])

p("C11", "Every element is constructed once and destroyed once",
  "Over any history of array operations (construction, copy, move, assign, swap, clear, reshape, make_*, destruction, also with failing allocations), for array shapes whose indices map to distinct elements, each element of a live array is constructed exactly once before use, is never constructed over a live element or used or destroyed while not alive, and is destroyed exactly once; no constructor or destructor runs on padding, and no element leaks. Moving or swapping arrays whose allocators permit taking the allocation performs no element operations.",
  ["histories", "fault_sequences", "configurations"], "all operation sequences over a pool of arrays with mixed shapes and allocators, allocation failure at any allocation",
  "array_lifetime tests count operations for one or two operations at a time on fixed shapes; interleavings of operations and failures are not sampled.",
  [A], [("element lifetime management", A+": array::construct/copy_construct/move_construct/destroy/deallocate/assign/clear/swap")],
  ["per-address live-set maintained by an instrumented element type", "constructor/destructor/assignment counters"],
  [("buffer_, base_", "the owned allocation and the pointer to the min index", A+": class array")])

p("C12", "Arrays are values: every operation history matches an independent model",
  "Over any history of construction, copy/move construction and assignment, assign, swap, clear, reshape, fill, element writes, and destruction, each array holds exactly the shape and element values that an independent value-semantic model predicts, copies never share storage with their source, and operations on one array never change another. Self-assignment and self-swap leave the array unchanged; swap exchanges contents; clear() and default construction give the default shape with default elements; a moved-from array can be assigned, cleared, swapped and destroyed.",
  ["histories", "configurations"], "all operation sequences, all shape types (dynamic, partly static, fully static, rank 0, empty), all allocator propagation configurations",
  "Tests exercise single operations; aliasing, moved-from, empty and fixed-shape states reached by sequences are not covered.",
  [A], [("special members", A+": array constructors, operator=, assign, swap, clear, reshape")],
  ["shape and element contents of every live array after each operation"])

p("C13", "Allocator protocol is respected",
  "Every block an array obtains is returned exactly once, with the same element count, to an allocator equal to the one that provided it, and all element construction and destruction goes through that allocator; an array only ever accesses its own block. Allocators propagate on copy construction (select_on_container_copy_construction), copy assignment, move assignment and swap exactly as their traits say, an allocator passed to a constructor or make_* function is the one used, and get_allocator() reports it. If an allocation throws, the exception propagates, nothing leaks and every array involved can still be assigned and destroyed.",
  ["histories", "configurations", "fault_sequences"], "all operation sequences, the eight propagation trait combinations, equal and unequal stateful allocators, throwing allocations at any point",
  "Tests use std::allocator and two custom allocators with fixed traits and never fail an allocation.",
  [A], [("allocate/deallocate", A+": array::allocate, deallocate, get_allocator_for_move, operator=, swap")],
  ["ledger of blocks kept by the instrumented allocator", "allocator identity after each operation"],
  [("alloc_, buffer_, buffer_size_", "allocator, owned block and its size", A+": class array")])

p("C14", "auto_allocator and uninitialized_allocator keep their storage contracts",
  "An array with auto_allocator<T, N, Alignment> keeps its elements inside the array object, aligned to Alignment, and makes no base allocation whenever it needs at most N elements and the inline buffer is free; larger requests come from (and return to) the base allocator; contents survive copies, moves, swaps and reallocation, and no array ever refers to another's inline buffer. uninitialized_allocator variants skip only default construction (existing bytes are untouched) and construct from values normally.",
  ["histories", "configurations"], "all sizes around N, all histories of copy/move/swap/assign/clear between inline and heap-backed arrays, alignments, element types",
  "Tests use a few sizes with one operation each.",
  [A, "include/array/matrix.h"], [("auto_allocator", A+": class auto_allocator, class uninitialized_allocator"), ("small_matrix/small_vector", "include/array/matrix.h")],
  ["element addresses against the array object's extent", "base allocator ledger", "element values and pre-filled bytes"])

p("C15", "reshape keeps the intersection and default-constructs the rest",
  "After a.reshape(s), a has the shape s (resolved), every index in both the old and the new shape holds its old value (moved, never copied), and every other element is default-constructed, including when the two shapes do not intersect or either is empty. The array keeps its allocator, and reshaping to the current shape does nothing.",
  ["inputs", "configurations"], "all pairs of old and new shapes (shifted, shrunk, grown, disjoint, different strides and padding), ranks, element types and allocators",
  "The reshape test covers one growth and one shift.",
  [A], [("reshape", A+": array::reshape, internal::clamp_dims")],
  ["contents and shape after reshape", "element move/copy counters"])

p("C16", "Shape reinterpretation relocates by exactly the requested offset",
  "reinterpret_shape(a, s, k), array/array_ref set_shape(s, k) and move_reinterpret_shape(a, s, k) give an array(_ref) of shape s whose element at s.min() is the one k elements after a's base, so element x is at base + k + s(x), for every s whose flat range shifted by k lies inside a's, including negative strides and offsets of either sign. The memory and its contents are untouched, move_reinterpret_shape transfers ownership without copying and leaves the source empty or default, and the block is freed once with its original size.",
  ["inputs", "histories"], "all shapes and offsets such that the new flat range is a subset of the old",
  "Tests use one or two offsets, all with positive strides.",
  [A], [("set_shape/reinterpret", A+": array::set_shape, array_ref::set_shape, reinterpret_shape, move_reinterpret_shape, shape::is_subset_of")],
  ["addresses of elements", "allocator ledger"])

p("C17", "split covers an interval with the documented pieces",
  "split<N>(v) with v.extent() >= N yields ceil(extent/N) intervals of extent exactly N, in ascending order, all inside v and covering it, where only the last may overlap its predecessor (ending at v.max()); split(v, n) with n >= 1 yields consecutive disjoint intervals of extent n covering v, only the last possibly shorter, and none for an empty v. The result's size() equals the number of intervals iterated, and begin()[i] or split_result[i] is the i-th one; begin() advanced by size(), in any steps, is end().",
  ["inputs"], "all mins, extents and split factors; interval and dim operands, static and dynamic",
  "Tests cover a handful of (extent, factor) pairs.",
  [A], [("split", A+": split, internal::split_iterator, internal::split_result")],
  ["sequence of intervals iterated", "size() and random access"])

p("C18", "z-order traversal visits every index combination once along a Morton curve",
  "for_each_in_z_order and for_all_in_z_order call the function exactly once with every combination of elements of the given ranges, in Morton order: the zero-based positions' bits interleaved with the first range least significant are strictly increasing. If any range is empty the function is not called, and nothing outside the ranges is accessed.",
  ["inputs"], "all ranks 1..4, all extents (powers of two or not, unequal, 0 and 1), index ranges, dims and split results",
  "The z_order test uses one square case with a printed pattern.",
  ["include/array/z_order.h"], [("recursive traversal", "include/array/z_order.h: for_each_index_in_z_order_impl, for_each_in_z_order_impl")],
  ["sequence of tuples passed to the callback"])

p("C19", "ein_reduce computes the same result as the naive loop nest",
  "ein_reduce of any expression built from ein operands (arrays of any layout and bounds, callables, scalars, C arrays, pointers), unary minus, + - * /, min, max, cast and one of = += -= *= gives exactly the result of nested loops over the reduction indices with the lowest numbered index innermost, evaluating the expression once per index and assigning to the left-hand operand. Only elements addressed by the left-hand operand are modified, operands are never accessed outside their bounds, skipped indices loop once, and the left-hand operand is returned.",
  ["inputs", "programs"], "all expressions over the operator set, index patterns (contractions, diagonals, broadcasts, outer products, transposed operands), shapes, mins, strides and element types",
  "Tests cover about a dozen well known expressions with compact operands and, for floating point, a tolerance.",
  ["include/array/ein_reduce.h", A], [("reduction shape", "include/array/ein_reduce.h: gather_dims, reconcile_dim, make_ein_reduce_shape"), ("expression evaluation", "include/array/ein_reduce.h: ein_op and operators, ein_reduce"), ("loop order", A+": for_each_index_in_order")],
  ["result buffer bit for bit", "recorded operand accesses"])

p("C20", "make_ein_sum infers the result shape and sums from the initial value",
  "make_ein_sum<T, ResultIs...>(expr, init, alloc) and make_ein_reduce_shape give a compact result whose i-th dimension has the min and extent of the operand dimension addressed by the i-th result index, whose elements have type T, and whose value at each result index is init plus the expression summed over all remaining indices in loop order. Operands are not modified.",
  ["inputs", "programs"], "all result index lists, operand shapes with arbitrary mins and extents (static and dynamic), element types and initial values",
  "Tests use zero-min operands and init = 0.",
  ["include/array/ein_reduce.h"], [("shape inference", "include/array/ein_reduce.h: make_ein_reduce_shape, make_ein_sum")],
  ["shape and values of the result"])

p("C21", "Image helpers address the right pixels for every layout",
  "crop(im, x0, y0, x1, y1, origin) returns a view whose pixels are exactly those of im with x in [x0,x1) and y in [y0,y1) clamped to the image (an empty view if there are none): with crop_origin::crop each keeps its index, with crop_origin::zero the view's x and y start at 0; crop_image_shape sets the requested bounds and keeps strides and channels. slice_channel(im, c) aliases channel c. chunky_image keeps channels dense with the x stride equal to the channel count (or the given XStride), planar_image keeps x dense, and copies between any of the layouts preserve every pixel.",
  ["inputs", "configurations"], "all image layouts (generic, planar, chunky with static/dynamic channels and padded x stride), mins, extents, and crop rectangles inside, overlapping and outside the image",
  "Tests crop a few rectangles that overlap the image.",
  ["include/array/image.h"], [("image helpers", "include/array/image.h: crop, crop_image_shape, slice_channel, chunky_image_shape, shape_traits")],
  ["addresses of pixels through views", "strides of allocated images"])

p("C22", "Compact shapes are compact and the layout predicates are right",
  "make_compact(s) keeps every min and extent, keeps static strides, and for a shape without static strides, or whose only static stride is a dense (stride 1) dimension, is compact and one-to-one; fixed_dense_shape<...> has the given extents, min 0 and row-by-row dense strides from dimension 0. For non-empty shapes whose dims do not interleave, is_compact is true exactly if every flat index in [flat_min, flat_max] is addressed, is_one_to_one exactly if no two indices share a flat index, and is_subset_of(other, k) exactly if the flat range lies in other's shifted by k. For any other non-empty shape, is_compact is false if it has fewer indices than flat_extent, and is_one_to_one is false if it has more. bounds() keeps mins and extents with unresolved strides.",
  ["inputs", "configurations"], "all shapes with nested dims, all static stride/extents combinations accepted by make_compact",
  "shape_make_compact and compact tests sample fixed shapes.",
  [A], [("compaction", A+": make_compact, internal::make_compact_dims, fixed_dense_shape"), ("predicates", A+": shape::is_compact, is_one_to_one, is_subset_of, bounds")],
  ["strides of the result", "predicates against enumeration of flat offsets"])

p("C23", "Independent and read-only concurrent use is free of data races",
  "Concurrent use of distinct arrays, concurrent const operations on a shared array or shape (indexing, slicing, copying from, comparing, traversing, reducing), and concurrent writes through disjoint views of one array (as the tiled matrix multiply does) have no data race, and every thread obtains the result it would obtain alone.",
  ["schedules", "histories"], "all interleavings of threads running any of the operations above",
  "The test suite is single-threaded.",
  [A, "include/array/ein_reduce.h", "include/array/z_order.h", "include/array/image.h"], [("no shared mutable state", "all headers: functions only use their arguments and automatic storage")],
  ["ThreadSanitizer reports", "per-thread results against the sequential result"])

p("C24", "User callables are called, not consumed",
  "Functions passed to for_each_index, for_all_indices (with or without a loop order), for_each_value, generate, transform_index, transform_indices and the z-order loops may be lambdas, function pointers, std::function objects, and functors, as lvalues or rvalues: an lvalue callable is left usable and unchanged by the call and can be passed again, move-only callables are accepted, and each call site invokes the callable the specified number of times. A callable returning a value, or stateful through references, behaves the same in every position.",
  ["programs", "histories"], "all algorithm/callable-category combinations, repeated use of the same callable",
  "Tests pass temporaries or lambdas whose moved-from state is indistinguishable.",
  [A, "include/array/matrix.h", "include/array/image.h"], [("callable forwarding", A+": for_all_indices, for_each_index, generate, transform_index, transform_indices; shape_traits<matrix_shape>/<chunky_image_shape>::for_each_value")],
  ["state and copy/move history of an instrumented callable before and after"])

p("C25", "Checked misuse stops in debug builds before memory is harmed",
  "With assertions enabled, each misuse the library checks aborts the program before any out-of-bounds access, and legal uses adjacent to it never abort: copying or moving to a destination not inside the source in any one dimension and on either side; converting or assigning a runtime min, extent or stride to a differing compile-time constant; set_shape/reinterpret_shape/move_reinterpret_shape beyond the available memory on either side; split<N> of a shorter interval; convert_shape dropping a dimension of extent other than 1; ein_reduce with disagreeing bounds; shape::dim(d) with d >= rank.",
  ["inputs", "programs"], "all boundary and off-by-one arguments of each checked function",
  "The error tests exercise one failing example per check; conditions can be weakened on other dimensions or sides unnoticed.",
  [A, "include/array/ein_reduce.h"], [("assertions", A+": copy, move, set_shape, reinterpret_shape, split, constexpr_index, assert_dims_compatible; include/array/ein_reduce.h: reconcile_dim")],
  ["exit status of probe child processes"])

p("C26", "Resampling kernels and exact rationals are correct",
  "In the resample example, rational arithmetic is exact (field identities, reduction, comparison, floor/ceil/round on integers) and resampling produces for every output index a kernel whose weights sum to one within rounding, only reads input pixels inside the input, reproduces constant images and is the identity at rate 1 with interpolating kernels.",
  ["inputs"], "all rates, extents, kernels, and layouts; rationals with small numerators and denominators of either sign",
  "There is no test of the resample example.",
  ["examples/resample/resample.h", "examples/resample/rational.h"], [("rational", "examples/resample/rational.h"), ("resample", "examples/resample/resample.h")],
  ["kernel arrays", "output images against a brute-force model"])

p("C27", "Abseil stringification reports the values of intervals, dims and shapes",
  "AbslStringify renders an interval as [min, min+extent), a dim as dim(min, extent, stride) or dim(min, extent) when the stride is unresolved, and a shape as shape<rank>(dims joined by comma), the same text for static and dynamic parameters of equal value.",
  ["inputs", "configurations"], "all intervals, dims and shapes, static and dynamic",
  "The absl tests are not part of the build here.",
  ["absl/absl.h"], [("AbslStringify", "absl/absl.h")],
  ["produced strings"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P))
