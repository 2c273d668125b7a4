"""Configurations of the checks: compiler variants, and per property which harness runs where."""
CL = ["clang++", "-g1", "-fno-omit-frame-pointer", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
# The quick tiers do not stop at arithmetic overflow by itself: a value computed early and not used, or a null pointer moved by
# zero elements, changes nothing a user can observe, and whatever an overflow does change the value monitors judge.
# full14 and gccsan17 (thorough tiers) have every UBSan check.
FSAN = ["-fsanitize=address,null,bounds,shift,integer-divide-by-zero,unreachable,return", "-fno-sanitize-recover=all"]
import os
STUBS = "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
VARIANTS = {
    # AddressSanitizer + UBSan, assertions on, C++14.
    "asan14": CL + ["-std=c++14", "-O0"] + FSAN,
    # The same with every UBSan check, optimised (slow to compile).
    "full14": CL + ["-std=c++14", "-O1"] + SAN,
    # The project's own optimised flags, assertions on / off.
    "opt14": CL + ["-std=c++14", "-O2", "-march=x86-64-v3", "-ffast-math", "-fstrict-aliasing"],
    "rel14": CL + ["-std=c++14", "-O2", "-march=x86-64-v3", "-fstrict-aliasing", "-DNDEBUG"],
    # Optimised without -ffast-math, assertions on.
    "exact14": CL + ["-std=c++14", "-O2", "-march=x86-64-v3"],
    # 32-bit indices.
    "int14": CL + ["-std=c++14", "-O0", "-DNDARRAY_INT_INDICES"] + FSAN,
    "asan20": CL + ["-std=c++20", "-O0"] + FSAN,
    # gcc: another compiler, standard library paths and optimiser.
    "gcc17": ["g++", "-std=c++17", "-O2", "-g1", "-w"],
    "gccsan17": ["g++", "-std=c++17", "-O0", "-g1", "-w"] + SAN,
    "gccasan17": ["g++", "-std=c++17", "-O0", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,pointer-overflow", "-fno-sanitize-recover=all"],
    "gcctsan17": ["g++", "-std=c++17", "-O2", "-g1", "-w", "-fsanitize=thread"],
    "tsannd": CL + ["-std=c++17", "-O2", "-DNDEBUG", "-fsanitize=thread"],
    "tsan14": CL + ["-std=c++14", "-O1", "-fsanitize=thread"],
}

def J(source, variant, **kw):
    d = dict(source=source, variant=variant)
    d.update(kw)
    return d

def std(src, q=("asan14", "rel14"), t=("asan14", "full14", "rel14", "opt14", "int14", "gcc17", "gccsan17", "asan20"), parts=2, tparts=4, scales=None, **kw):
    scales = scales or {}
    return dict(quick=[J(src, v, parts=parts, scale=scales.get(v, 100)) for v in q],
                thorough=[J(src, v, parts=tparts, scale=scales.get(v, 100), seeds=2, cpu=300) for v in t], **kw)

def PARTS(src, q, t, parts, extra=(), seeds=2, tparts=2):
    """Harnesses split with -DVERIF_PART; q: [(variant, part, processes)]."""
    f = lambda k: list(extra) + ["-DVERIF_PART=%d" % k]
    return dict(quick=[J(src, v, parts=n, flags=f(k)) for v, k, n in q],
                thorough=[J(src, v, parts=tparts, seeds=seeds, cpu=300, flags=f(k)) for v in t for k in parts])

def hist(prop, parts=(1, 2, 3, 4)):
    q = [("asan14", k, 1) for k in parts] + [("rel14", 1, 1), ("gcc17", 2, 1)]
    return PARTS("hist.cpp", q, ("asan14", "full14", "rel14", "opt14", "gcc17", "gccsan17", "asan20", "int14"), parts, extra=["-DVERIF_PROP=%d" % prop])

T8 = ("asan14", "full14", "rel14", "opt14", "int14", "gcc17", "gccsan17", "asan20")
R3 = dict(flags=["-DVERIF_RANK3"])
CHECKS = {
    "C01": std("c01.cpp", q=("asan14", "rel14", "int14", "gcc17")),
    "C02": std("c02.cpp", q=("asan14", "rel14", "gcc17")),
    "C03": std("c03.cpp", q=("asan14", "rel14", "gccasan17")),
    "C04": std("c04.cpp", q=("asan14", "rel14", "int14")),
    "C05": std("c05.cpp", q=("asan14", "rel14", "gcc17", "int14")),
    "C06": dict(quick=[J("c06.cpp", "asan14"), J("c06.cpp", "asan14", **R3), J("c06.cpp", "gcc17", **R3), J("c06.cpp", "int14")],
                thorough=[J("c06.cpp", v, parts=2, seeds=3, cpu=300, flags=f) for v in ("asan14", "full14", "rel14", "int14", "gccsan17", "asan20", "opt14") for f in ([], ["-DVERIF_RANK3"])]),
    "C07": PARTS("c07.cpp", [("asan14", 1, 1), ("asan14", 2, 2), ("gcc17", 1, 1), ("gcc17", 2, 1), ("int14", 1, 1)], ("asan14", "full14", "rel14", "opt14", "int14", "gcc17", "gccsan17", "asan20"), (1, 2)),
    "C08": PARTS("c08.cpp", [("asan14", 1, 1), ("asan14", 2, 1), ("rel14", 1, 1), ("gcc17", 2, 1)], ("asan14", "full14", "rel14", "opt14", "int14", "gcc17", "gccsan17", "asan20"), (1, 2)),
    "C09": std("c09.cpp", q=("asan14", "rel14", "gcc17")),
    "C10": std("c10.cpp", q=("asan14", "rel14", "gcc17", "int14")),
    "C11": hist(11),
    "C12": hist(12),
    "C13": hist(13),
    "C14": dict(quick=[J("c14.cpp", "asan14"), J("c14.cpp", "rel14"), J("c14.cpp", "gcc17"),
                       J("hist.cpp", "asan14", flags=["-DVERIF_PROP=14", "-DVERIF_PART=4"]), J("hist.cpp", "gcc17", flags=["-DVERIF_PROP=14", "-DVERIF_PART=4"])],
                thorough=[J("c14.cpp", v, parts=2, seeds=3, cpu=300) for v in T8] +
                         [J("hist.cpp", v, parts=2, seeds=2, cpu=300, flags=["-DVERIF_PROP=14", "-DVERIF_PART=4"]) for v in T8]),
    "C15": hist(15, (1, 2, 3)),
    "C16": std("c16.cpp", q=("asan14", "rel14", "gcc17")),
    "C17": std("c17.cpp", q=("asan14", "rel14", "int14", "gcc17")),
    "C18": std("c18.cpp", q=("asan14", "rel14", "int14", "gcc17"), parts=3),
    "C19": PARTS("c19.cpp", [("asan14", 1, 1), ("asan14", 2, 1), ("asan14", 3, 1), ("asan14", 4, 1), ("gcc17", 3, 1), ("rel14", 2, 1)], T8, (1, 2, 3, 4)),
    "C20": PARTS("c20.cpp", [("asan14", 1, 1), ("asan14", 2, 1), ("gcc17", 1, 1), ("gcc17", 2, 1)], T8, (1, 2)),
    "C21": PARTS("c21.cpp", [("asan14",1,1),("asan14",2,1),("rel14",1,1),("gcc17",1,1)], T8, (1, 2)),
    "C22": PARTS("c22.cpp", [("asan14",1,1),("asan14",2,1),("asan14",3,1),("rel14",1,1),("gcc17",3,1),("int14",1,1)], T8, (1, 2, 3)),
    "C23": PARTS("c23.cpp", [("tsan14",1,2),("tsan14",2,2),("rel14",1,1),("rel14",2,1)], ("tsan14", "gcctsan17", "tsannd", "rel14", "gcc17"), (1, 2), seeds=4),
    # Parts 1 and 3 pass copyable callables; parts 2 and 4 pass move-only, immovable and mutable ones, which the library
    # must accept (a rejected translation unit is a violation, see check.py).
    "C24": dict(quick=[J("c24.cpp", v, scale=300, flags=["-DVERIF_PART=%d" % k])
                       for v, k in (("asan14", 1), ("asan14", 2), ("asan14", 3), ("asan14", 4), ("gcc17", 1), ("rel14", 2))],
                thorough=[J("c24.cpp", v, parts=2, seeds=3, cpu=300, flags=["-DVERIF_PART=%d" % k])
                          for v in T8 for k in (1, 2, 3, 4)]),
    # Only configurations with assertions.
    "C25": dict(quick=[J("c25.cpp", "asan14", flags=["-DVERIF_PART=%d" % k], parts=2) for k in (1, 2, 3)] +
                      [J("c25.cpp", "exact14", flags=["-DVERIF_PART=%d" % k], scale=400) for k in (1, 2, 3)] +
                      [J("c25.cpp", "gcc17", flags=["-DVERIF_PART=%d" % k], scale=400) for k in (1, 3)],
                thorough=[J("c25.cpp", v, parts=2, seeds=2, cpu=300, flags=["-DVERIF_PART=%d" % k]) for v in ("asan14", "full14", "exact14", "opt14", "int14", "gcc17", "gccsan17", "asan20") for k in (1, 2, 3)]),
    "C26": dict(quick=[J("c26.cpp", "asan14"), J("c26.cpp", "exact14", scale=400), J("c26.cpp", "gcc17", scale=200), J("c26.cpp", "int14")],
                thorough=[J("c26.cpp", v, parts=2, seeds=2, cpu=300) for v in ("asan14", "full14", "exact14", "int14", "gcc17", "gccsan17", "asan20")]),
    "C27": dict(quick=[J("c27.cpp", v, flags=[STUBS]) for v in ("asan14", "gcc17", "int14")],
                thorough=[J("c27.cpp", v, flags=[STUBS], parts=2, seeds=2, cpu=300) for v in T8]),
}
# Elements further apart than 2^31 and extents no loop can finish.
for _n in (3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 18, 19, 20, 22):
    _f = ["-DVERIF_PROP=%d" % _n]
    CHECKS["C%02d" % _n]["quick"].append(J("far.cpp", "asan14", flags=_f))
    CHECKS["C%02d" % _n]["thorough"] += [J("far.cpp", v, seeds=3, cpu=300, flags=_f) for v in ("asan14", "rel14", "gcc17", "opt14", "gccsan17")]
RULES = {
    "C26": "a case is one pair of rationals put through every operation, or one image resampled (kernel, rates, mins, extents, layouts, constant or random content) and compared with a brute-force separable filter; distinct by values and shapes",
    "C27": "a case is one interval, dim or shape (random values, static and dynamic parameters, resolved and unresolved strides) rendered by every sink; distinct by type and values",
    "C25": "a case is one valid situation (a transfer, a window into memory, a split, a conversion, a reduction) and every listed misuse next to it (each dimension, each side, each static parameter), each run in its own child process that must end by an assertion, while the legal neighbours run in the harness process; distinct by shapes and values",
    "C24": "a case is one random shape over which every algorithm of one family runs with every kind of instrumented callable (lambda, function pointer, std::function, functor; lvalue, const lvalue, rvalue; copyable, move-only, immovable, with mutable state), most of them twice; judged on number of calls, the state of the callable and its copy and move history; non-trivial if the shape has more than one element; distinct by family and shape",
    "C23": "a case is one group of 2 to 6 threads started together, running 2 to 12 random operations each on a shared const array or ref, on disjoint views of one array, on tiles of one matrix product, or on private arrays; non-trivial if at least one operation started during another; distinct by configuration; distinct_interleavings counts different orders of operation starts and ends",
    "C22": "a case is one shape (random rank 0-6, static shape types, all small rank 2 shapes) compacted, copied compactly, put through every predicate and subset query with offsets around the boundaries; non-trivial if it has more than one element; distinct by type and full (min, extent, stride) lists",
    "C21": "a case is one image (planar, chunky, interleaved, fixed and run-time channels) put through crop, crop_copy, crop_move, make_compact or channel access with a random rectangle (inside, overlapping, disjoint, inverted); non-trivial if the result has a pixel; distinct by type, layout and rectangle",
    "C01": "a case is one shape (random rank 0-6 or static shape type, mins, extents, memory order, padding, sign, broadcast, huge strides) whose geometry, offsets, element addresses and range predicates are compared with enumeration; or one interval/dim with random operations; non-trivial if non-empty; distinct by type and full (min, extent, stride) list",
    "C02": "a case is one shape with a random subset of unresolved strides (or a static shape type) resolved directly and through array/array_ref construction; non-trivial if some stride is unresolved and the shape is non-empty; distinct by type and the full (min, extent, stride-or-unresolved) list",
    "C03": "a case is one pair of a static type and run-time values (compatible, or differing in exactly one parameter) put through construction, conversion, equality and compatibility queries; distinct by type and values",
    "C04": "a case is one shape (or static matrix/image/fixed shape type) traversed with one loop order (default, or one of all permutations and partial orders), call sequence recorded; non-trivial if it has at least two indices; distinct by shape, bounds and order",
    "C05": "a case is one shape (random rank, mins, extents, memory order, padding, sign, broadcast; or a static shape type with random free parameters) traversed through array_ref/const_array_ref/array; non-trivial if it has at least two elements; distinct by rank, type and full (min, extent, stride) list",
    "C06": "a case is one source shape and one combination of argument kinds and values (index, run-time interval, static interval, dim, _) per dimension; non-trivial if the view has an element; distinct by shape, kinds and selected ranges",
    "C07": "a case is one source shape (random or static type) with one of all permutations (rank <= 4), index subsets or conversion targets; non-trivial if the result has an element; distinct by type, shape and operation",
    "C08": "a case is one copy, move or make_* between two random layouts with the destination equal to or inside the source, over guarded storage; non-trivial if at least one element is transferred; distinct by operation, types, both shapes",
    "C09": "a case is one fill, generate or transform over a random layout; non-trivial if it writes at least one element; distinct by operation and shape",
    "C10": "a case is a pair of arrays (equal; differing in one element, in a padding byte, or in shape) compared in every form; non-trivial if non-empty; distinct by shapes and the difference",
    "C11": "a case is one random history of 4 to 30 operations on four arrays (shape type, propagation traits, element type, failing allocations); judged after every operation; distinct by the text of the history",
    "C12": "a case is one random history of 4 to 30 operations on four arrays; every element of every array is compared with the model after every operation; distinct by the text of the history",
    "C13": "a case is one random history of 4 to 30 operations on four arrays with identified allocators of all propagation traits and failing allocations; distinct by the text of the history",
    "C14": "a case is one array with an auto_allocator (element size, inline capacity, base allocator, element count at, below and above the capacity) put through construction, copies, moves, swaps and reshapes, or one random history over such arrays; distinct by type, shape and the text of the history",
    "C16": "a case is one reshape/reinterpret/move_reinterpret operation between two random layouts (permuted, padded, flipped, split or merged dims, static and run-time types); non-trivial if it has an element; distinct by types, shapes and operation",
    "C17": "a case is one interval or dim (run-time or static min and extent, mins around 0, the dynamic sentinel and large values) split by fixed and run-time extents and walked by range-for, iterators and random access, or one array tiled with the pieces; non-trivial if the extent exceeds 1; distinct by type, min and extent",
    "C18": "a case is one tuple of 1 to 5 ranges (tracked iterators, intervals, dims, vectors, splits, dims of an array; extents enumerated when small, around powers of two otherwise) traversed by both functions; non-trivial if there is more than one combination; distinct by extents and starting values",
    "C19": "a case is one reduction expression (44 written forms, 48 generated expression trees, plain storage, overlapping operands) on operands of random bounds, layouts, static typing and storage kind; non-trivial if the loop nest has more than one iteration; distinct by expression and the full shapes of all operands",
    "C20": "a case is one make_ein_sum / make_ein_reduce_shape expression with random result indices, operands, initial value and allocator; non-trivial if the loop nest has more than one iteration; distinct by expression and the full shapes of all operands",
    "C15": "a case is one random history in which half of the operations are reshapes to equal, overlapping, disjoint, empty or unrelated shapes; distinct by the text of the history",
}
for _n in (3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 18, 19, 20, 22):
    RULES["C%02d" % _n] += "; or (far.cpp) one shape whose elements, bounds or extents are beyond 2^31, over sparsely reserved memory or as a loop left early"
TECH = {
    "default": "",
    "C26": "value monitor: rational operations against 128-bit fractions, every resampled pixel against a brute-force filter, input reads confined by poisoned storage, ASan+UBSan",
    "C27": "string monitor: every rendering compared with the specified text, through stand-ins for the Abseil formatting functions (the installed Abseil predates AbslStringify in StrFormat), ASan+UBSan, two compilers",
    "C25": "child-process monitor: every misuse runs in a forked child over poisoned storage that must end by SIGABRT before any sanitizer report, every legal neighbour must not; ASan+UBSan and optimised builds, two compilers",
    "C24": "callable-state monitor: instrumented callables record every call, copy and move and trap calls after being moved from; state and call count judged after each algorithm, ASan+UBSan, two compilers",
    "C23": "ThreadSanitizer over threads running the real operations, synchronised with nothing but relaxed atomics, plus comparison of every thread's result with the same operations run alone afterwards",
    "C22": "runtime monitor of compaction and layout predicates: results compared with enumeration of every flat offset, pixel copies over poisoned guarded storage, ASan+UBSan, two compilers, 32/64-bit indices",
    "C21": "pixel-address and value monitor of image crops, copies, compactions and channel helpers against an independent model over poisoned guarded storage, ASan+UBSan",
    "C01": "runtime monitor comparing geometry, offsets and element addresses with an independent enumeration model, ASan+UBSan, two compilers, 32/64-bit indices",
    "C02": "runtime monitor of resolved strides: independent resolver model plus pairwise-distinct flat offsets by enumeration, poisoned storage, UBSan",
    "C03": "differential runtime monitor: static and all-runtime shapes of equal value run side by side, plus conversion and compatibility oracle",
    "C04": "call-trace monitor: recorded index sequence compared with the specified loop-nest order, all permutations of rank 1-4",
    "C05": "visit monitor over randomized layouts, poisoned padding, ASan+UBSan, several compilers",
    "C06": "address-aliasing monitor of every view element against the source over guarded storage, ASan+UBSan",
    "C07": "address monitor: every element of a reordered or converted shape or view is compared with an independent model, all permutations up to rank 4, ASan+UBSan",
    "C08": "value and write-set monitor of copies and moves over poisoned guarded storage, ASan+UBSan, several compilers",
    "C09": "call-order and write-set monitor of fill, generate and transform, ASan+UBSan",
    "C10": "comparison monitor: every operator form against element-wise comparison by the model, single-element and padding mutations, ASan+UBSan",
    "C11": "element-lifetime ledger: every construction, destruction, assignment and use of every element is recorded and judged during random operation histories with failing allocations, ASan+UBSan",
    "C12": "random operation histories checked online against a value-semantic model after each operation, ASan+UBSan",
    "C13": "allocation ledger: every block and allocator identity recorded and judged during random operation histories with failing allocations, all propagation traits",
    "C14": "storage ledger: address of every element against the inline buffer and every block handed out by the base allocator, count and size of blocks, element values, ASan+UBSan",
    "C16": "address and value monitor: every element of a reinterpreted array or view against the offsets of an independent model, ledger of moved storage, ASan+UBSan",
    "C17": "sequence monitor: the pieces yielded by every way of walking a split compared with the specified list, tile-coverage counts, ASan+UBSan",
    "C18": "call-trace monitor: every call checked for Morton order and range, counted; tracked iterators trap accesses outside the ranges, ASan+UBSan",
    "C19": "differential runtime monitor: an independent loop-nest interpreter runs the same expression on a twin of every operand, over an element type whose arithmetic hashes its operands so any change of order or association shows; poisoned guarded storage, call logs, ASan+UBSan",
    "C20": "differential runtime monitor: inferred bounds and every element compared with an independent loop-nest interpreter over a hashing element type, allocator counters, ASan+UBSan",
    "C15": "reshape-heavy random operation histories checked online against a value-semantic model, with copy and move counters",
}
LEVEL_NOTE = {
    "default": "randomized and boundary-directed executions of the real headers, judged by an independent model and sanitizers; assurance is limited to the executions explored, and trusts the model in harness/model.h and the compilers' sanitizers",
}
NOT_APPLICABLE = {}
