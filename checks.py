CHECKS = {
    "P02": {
        "src": ["p02.cpp"],
        "jobs": [{"quick": 50000, "thorough": 2000000}],
        "rule": "random type tree (depth<=3) x logical column (len 0..70) x random conforming physical encoding; distinct = hash of (type, column)",
        "must_see": ["elements", "nulls"],
    },
}
CHECKS["P11"] = {
    "src": ["p11.cpp"], "lib": False, "parts": 6,
    "jobs": [{"quick": 24000, "thorough": 800000}],
    "rule": "random operation histories (1-34 operations on up to 4 buffers) for int, uint8, double, string and a lifetime-tracked type x "
            "5 kinds of allocator, run in lockstep with std::vector; distinct = hash of (type, operation sequence, sizes)",
    "must_see": ["checks", "tracked allocations", "lifetime events"],
}
CHECKS["P22"] = {
    "src": ["p22.cpp"], "lib": False,
    "jobs": [{"quick": 20000, "thorough": 1000000}],
    "rule": "random histories over up to 8 type-erased allocators made from std::allocator, polymorphic_allocator and two stateful recording "
            "allocators (rvalue, lvalue, const lvalue), every pair compared after every step; distinct = hash of the history",
    "must_see": ["allocations", "releases", "comparisons", "moves"],
}
CHECKS["P12"] = {
    "src": ["p12.cpp"], "lib": False, "parts": 5,
    "jobs": [{"quick": 24000, "thorough": 1000000}, {"mode": "huge", "quick": 2, "thorough": 8, "shards": 2, "hang_cpu": 150}],
    "rule": "random histories over owning, borrowing and viewing bitsets with 8/16/32/64-bit blocks and sizes around block boundaries, in lockstep "
            "with std::vector<bool>; bitsets without memory; bitsets of more than 2^31 bits; distinct = hash of (kind, block width, sizes, operations)",
    "must_see": ["states", "walks", "absent bitmaps", "absent erase(range)", "absent set(true)", "huge states", "push_back", "erase(range)"],
}
CHECKS["P13"] = {
    "src": ["p13.cpp"], "lib": False, "parts": 4,
    "jobs": [{"quick": 24000, "thorough": 1000000}],
    "rule": "random histories over typed adaptors on byte buffers, typed buffers with byte storage and adopted storage for element types of 1, 2, 3, 4, 8, 12 "
            "and 49 bytes, in lockstep with std::vector, with the byte image compared after every step; distinct = hash of (type, sizes, operations)",
    "must_see": ["checks", "adopted storage", "adaptor push_back", "typed buffer storage extraction"],
}
CHECKS["P15"] = {
    "src": ["p15.cpp"], "lib": False,
    "jobs": [{"quick": 40000, "thorough": 1600000}],
    "rule": "random histories over nullables of values (6 types), nullables referring to stored values with bool and bitset flags, conversions and variants, in lockstep "
            "with std::optional; every pair compared with every operator after every step; distinct = hash of the operation history",
    "must_see": ["states", "comparisons", "comparisons with plain values", "comparisons with nullval", "refused accesses", "conversions", "variants"],
}
CHECKS["P23"] = {
    "src": ["p23.cpp"], "lib": False,
    "jobs": [{"quick": 40000, "thorough": 1600000}],
    "rule": "random histories over cloning pointers (three-class hierarchy) and value pointers with an object lifetime registry; repeated views, offset and byte-flattening "
            "helpers, byte swapping, index and pointer iterators, comparison helpers against their plain definitions; distinct = hash of history and sizes",
    "must_see": ["cloning pointer states", "iterator laws", "buffer helpers", "bit utilities", "lifetime events"],
}
CHECKS["P01"] = {
    "src": ["p01.cpp"],
    "jobs": [{"quick": 40000, "thorough": 2000000}, {"quick": 20000, "thorough": 1000000, "mode": "proxy"}],
    "rule": "random lifecycles (1-14 operations over up to 6 arrays and 3 record batches: obtain in 8 ways, copy, move, assign, slice, slice_view, extract, "
            "re-import, lend, nest, batch, destroy) of arrays of random nested types; and of children and dictionaries attached, replaced and removed through the proxy; distinct = hash of the operation history and types",
    "must_see": ["structures accounted", "proxy states", "proxy:set_dictionary", "op:batch-copy", "op:extract", "op:nest-struct", "refused extractions", "op:move-assign"],
}
CHECKS["P03"] = {
    "src": ["p03.cpp"],
    "jobs": [{"quick": 12000, "thorough": 600000, "mode": "build"}, {"quick": 12000, "thorough": 600000}],
    "rule": "arrays of random nested types built by every typed constructor form, then copied, assigned, sliced, extracted and nested; and the lifecycles of P01; every "
            "exported structure decoded by an independent strict reader; distinct = hash of (type, column) or of the operation history",
    "must_see": ["structures decoded", "elements decoded", "op:slice", "op:extract", "op:nest-struct", "layout:dict", "layout:ree", "layout:dunion"],
}
CHECKS["P04"] = {
    "src": ["p04.cpp"], "parts": 4,
    "jobs": [{"quick": 40000, "thorough": 2000000}],
    "rule": "arrays of random nested types in every provenance (built, imported, lent, re-imported, sliced, viewed, moved), typed arrays, proxies and record batches copied or "
            "assigned in every form; then the source or the copy is destroyed, overwritten or mutated and the other one read and decoded again; memory regions compared for overlap; "
            "distinct = hash of (provenance, type, column)",
    "must_see": ["states read", "disjointness checks", "typed copies", "proxy copies", "batches compared", "sources destroyed first", "copies destroyed first",
                 "producer blocks overwritten", "source buffers overwritten", "element mutations"],
}
CHECKS["P05"] = {
    "src": ["p05.cpp"], "parts": 3,
    "jobs": [{"quick": 20000, "thorough": 1000000}],
    "rule": "chains of 1-4 slices (copying, viewing, dynamic, typed) over arrays of random nested types in every provenance, windows drawn at the edges, empty and inside; every "
            "window read by index, iteration, reverse iteration, validity range and independent decoding, sources and earlier windows read again, sources destroyed under "
            "copying slices; distinct = hash of (provenance, type, length, windows)",
    "must_see": ["windows read", "empty windows", "typed slices", "sources gone before the slice", "elements compared"],
}
CHECKS["P14"] = {
    "src": ["p14.cpp"], "battery": True,
    "jobs": [{"quick": 15000, "thorough": 1000000}],
    "rule": "arrays of random nested types in every provenance and window, walked by index, checked access, front/back, every iterator kind with the laws of its category (all pairs of "
            "positions up to 9 elements, 24 random pairs beyond), validity and value ranges, const and mutable; distinct = hash of (provenance, type, column)",
    "must_see": ["reads checked", "iterator laws", "layout:ree", "layout:dunion", "layout:dict", "layout:na"],
}
CHECKS["P06"] = {
    "src": ["p06.cpp"], "battery": True,
    "jobs": [{"quick": 4000, "thorough": 400000}, {"quick": 6000, "thorough": 400000, "mode": "own"}],
    "rule": "foreign arrays of random nested types with every buffer (and the borrowed root structures) in write-protected pages, imported owned, half-owned and lent, then read, iterated, "
            "compared, copied, sliced and viewed in every way, also as columns and children; child structures, tables and strings compared byte for byte; "
            "and structures the library created itself, owned or lent several times, compared byte for byte after every read-only step; distinct = hash of (type, column, sharing)",
    "must_see": ["reads checked", "protected bytes", "snapshots compared", "protected root structures", "own structures compared"],
}
CHECKS["P07"] = {
    "src": ["p07.cpp"], "battery": True,
    "jobs": [{"quick": 8000, "thorough": 800000}, {"quick": 120, "thorough": 8000, "san": "plain", "wrap": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no"], "hang_cpu": 150}],
    "rule": "foreign arrays of random nested types in exactly-sized heap blocks (absent buffers where the format permits), read, iterated, compared, copied and sliced in every way under "
            "address and undefined-behaviour sanitizers, and under memcheck with undefined padding; distinct = hash of (type, column)",
    "must_see": ["reads checked", "exact blocks", "absent buffers"],
}
CHECKS["P18"] = {
    "src": ["p18.cpp"], "parts": 4,
    "jobs": [{"quick": 20000, "thorough": 1000000}],
    "rule": "random logical columns of random nested types, each encoded three times independently (provenance, offset, windows of longer arrays, bitmaps, hidden values, arrangement) and "
            "compared in all orders with the dynamic and typed operators, against variants differing in length, one null or one value, and other types; record batches likewise; "
            "distinct = hash of (provenances, type, column)",
    "must_see": ["equal answers", "unequal answers", "typed comparisons", "triples", "one value changed", "length changed", "type mismatches", "batches compared"],
}

MUT_RULE = ("random histories (2-17 steps: push_back, pop_back, insert of one/many/list/iterators/range, erase of one/range/empty range, resize, element assignment in 6 forms, copy, move, "
            "assignment, slicing) on %s arrays built from values, nullables, copies of imports with offsets, and copying slices, in lockstep with a vector of optionals; "
            "%s; distinct = hash of (type, history)")
CHECKS["P08"] = {
    "src": ["p08.cpp"], "parts": 6,
    "jobs": [{"quick": 40000, "thorough": 2000000}],
    "rule": MUT_RULE % ("primitive", "contents read by index, iteration (const, mutable, reverse), validity and value ranges after every step, returned positions compared"),
    "must_see": ["states compared", "from:slice with a non-zero start", "op:insert(range)", "op:erase(empty range)", "op:resize(larger, null)", "op:assign null", "op:mutate a copy"],
}
CHECKS["P09"] = {
    "src": ["p08.cpp"], "parts": 6,
    "jobs": [{"quick": 30000, "thorough": 2000000, "mode": "strings"}],
    "rule": MUT_RULE % ("string", "contents read by index, iteration (const, mutable, reverse), validity and value ranges after every step, returned positions compared"),
    "must_see": ["states compared", "from:slice with a non-zero start", "op:insert(range)", "op:erase(empty range)", "op:resize(larger, null)", "op:assign value", "op:mutate a copy"],
}
CHECKS["P10"] = {
    "src": ["p08.cpp"], "parts": 6,
    "jobs": [{"quick": 20000, "thorough": 1000000, "mode": "structures"}],
    "rule": MUT_RULE % ("primitive and string", "after every step the exposed C structure is decoded by an independent strict reader (sizes, offsets, bitmap, null count) and compared with the "
            "contents, buffer views compared with the structure's pointers, and copies re-imported"),
    "must_see": ["structures decoded", "structures re-imported", "from:slice with a non-zero start", "op:assign null", "op:resize(smaller)", "type:str"],
}
CHECKS["P17"] = {
    "src": ["p17.cpp"],
    "jobs": [{"quick": 2500, "thorough": 200000}],
    "rule": "random histories (2-11 steps over up to 5 record batches: construction from rvalues, lvalues, const lvalues, views, other containers, transformed and single-pass ranges, "
            "initializer lists; copy, assign, self-assign, move, swap, destroy) with 0-6 columns of random nested types and unusual names, every batch compared with a model table after "
            "every step; distinct = hash of the history and column types",
    "must_see": ["batches verified", "columns read", "unknown names refused", "caller containers checked", "copies", "assignments", "self assignments", "move assignments", "equal batches", "different batches", "batches that differ a little", "columns and names in another order"],
}
CHECKS["P26"] = {
    "src": ["p26.cpp"], "parts": 5,
    "jobs": [{"quick": 16000, "thorough": 600000}],
    "rule": "random typed arrays of every layout wrapped by value, pointer and shared pointer, copied, moved and assigned, everything the dynamic array says compared with the typed one "
            "(object identity, element types and values, schema and array fields, ownership, slices); imported arrays of random nested types, the layout presented at every level compared "
            "with the schema; distinct = hash of (type, column)",
    "must_see": ["elements compared", "wrappings compared", "layouts presented", "layouts refused", "default constructed arrays"],
}
CHECKS["P27"] = {
    "src": ["p27.cpp"], "parts": 2, "battery": True,
    "jobs": [{"quick": 6000, "thorough": 300000}],
    "rule": "random physical keys (all 8 key types, up to the whole key range), run ends, type ids with arbitrary mappings, dense offsets in any order, list offsets with a non-zero start, overlapping list views, "
            "fixed sizes and struct rows over random child arrays (any layout, built, imported, sliced with an offset of their own); elements expected from the children's logical columns alone, "
            "read in every way, and decoded by the independent reader; distinct = hash of (type, physical data, contents)",
    "must_see": ["arrays decoded", "children with an offset", "null keys", "full key range", "run ends with an offset", "first offset not zero", "type ids other than the child positions",
                 "nested elements taken apart", "nested once more"],
}
CHECKS["P28"] = {
    "src": ["p28.cpp"], "parts": 8,
    "jobs": [{"quick": 60000, "thorough": 3000000}],
    "rule": "one random logical column built through a random pair of (form of the values: vector, list, deque, transformed range, convertible type, adopted buffer, nullables, size and value, initializer list, spans, ranges that can be read only once, "
            "owners) x (form of the validity: 20 of them - bitset by rvalue, const and mutable reference, edited, empty; bools in 7 containers; null positions in 7 containers, orders and repetitions; nullables; nothing) "
            "for every typed array; elements, null count and structure compared with the column; distinct = hash of (forms, type, column)",
    "must_see": ["arrays compared", "nulls", "validity:none", "validity:bitset lvalue", "validity:positions repeated", "validity:empty vector<bool>", "validity:nullables", "values:adopted buffer",
                 "values:initializer list", "validity:bools read once", "validity:positions read once", "values:values read once", "values:buffer of values read once", "values:nullables read once", "values:sizes and characters read once", "values:list, sizes read once", "values:size and value", "values:struct", "values:dictionary", "values:vector of views", "values:list of nullables"],
}
CHECKS["P16"] = {
    "src": ["p16.cpp"], "parts": 9,
    "jobs": [{"quick": 30000, "thorough": 1500000}],
    "rule": "random data of ~110 nested C++ types (scalars, strings, byte ranges, lists, arrays, pairs, tuples, variants, nullables with and without hidden values, dictionary and run-end encoding on top and nested, "
            "large lists; vectors, deques, lists, sets; lvalues, constants, rvalues, ranges that can be read only once) built and compared with the data through the typed array, the dynamic array and an independent reader; layout compared with the documented one; "
            "distinct = hash of (layout, contents)",
    "must_see": ["arrays compared", "null elements", "hidden values", "dictionaries with repeated keys", "run-end arrays with runs", "built from a range read once"],
}
CHECKS["P25"] = {
    "src": ["p25.cpp"],
    "jobs": [{"quick": 40000, "thorough": 2000000}, {"mode": "binary-metadata", "fixed": 8}],
    "rule": "arrays of random nested types with names, metadata and flags at every level taken through random chains of copies, assignments, moves, slices, views, extraction, record batches and nesting, "
            "their schemas compared field by field after every step; the format/type/flag mappings against the Arrow specification's table and nonsense strings; malformed and unsupported formats imported; "
            "proxies over formats without array class; distinct = hash of (provenance, schema) or of the format",
    "must_see": ["schemas compared", "schema nodes compared", "nestings", "imports rejected", "nested malformed formats", "mappings verified", "proxies of formats without array class"],
}
CHECKS["P29"] = {
    "src": ["p29.cpp"], "parts": 5,
    "jobs": [{"quick": 40000, "thorough": 2000000, "hang_cpu": 10}, {"mode": "real", "quick": 4, "thorough": 64, "shards": 2, "hang_cpu": 150, "env": {"ASAN_OPTIONS": "max_allocation_size_mb=8000"}}],
    "rule": "random requests for more than the memory (6 GiB for this purpose; around the powers of two, the largest sizes, and sizes which wrap around to small ones) made to buffers, typed buffers, adaptors, bitsets and arrays; "
            "random sizes turned into offsets, around the largest offset; string and view arrays of two gigabytes brought to the limits of their offsets and views; the exception, the untouched object and its later use observed; "
            "distinct = hash of (kind, size)",
    "must_see": ["requests", "refused: u8_buffer(n)", "refused: insert of copies", "refused: bitset.insert", "refused: array.resize", "refused: array.insert", "offsets refused", "offsets computed", "offsets which just fit",
                 "refused: insert of strings", "near the limit: fits", "near the limit: refused", "refused: string views in total", "refused: a string view of 2 GiB"],
}
CHECKS["P19"] = {
    "src": ["p19.cpp"], "parts": 4,
    "jobs": [{"quick": 12000, "thorough": 300000, "mode": "access"}, {"quick": 12000, "thorough": 300000, "mode": "extract"}, {"quick": 16000, "thorough": 400000, "mode": "edits"},
             {"quick": 16000, "thorough": 400000, "mode": "bitmaps"}, {"quick": 5000, "thorough": 120000, "mode": "batches"}, {"quick": 12000, "thorough": 300000, "mode": "imports"},
             {"quick": 16000, "thorough": 400000, "mode": "misc"}],
    "rule": "random misuse of arrays of random nested types in every provenance: checked access past the end at 12 distances, values of nulls, unknown columns, extraction of structures that are not owned, "
            "every proxy edit on data the library did not allocate, bitmap edits without bitmap, malformed and unsupported formats at any level; the exception compared with the documented one, and the "
            "structures, contents, release state and ledger with those before; distinct = hash of (misuse, provenance, type)",
    "must_see": ["refusals: at", "refusals: element-value", "refusals: typed-at", "refusals: as-child", "refusals: extract-array", "refusals: edit", "refused set_child rvalues", "refused add_children pointers", "refused resize_bitmap", "refused set_dictionary", "refusals: no-bitmap", "refusals: unknown-column", "imports rejected", "nested malformed formats", "refusals: buffer-insert"],
}
CHECKS["P20"] = {
    "src": ["p20.cpp"], "parts": 9,
    "jobs": [{"quick": 5000, "thorough": 40000, "mode": "arrays"}, {"quick": 5000, "thorough": 40000, "mode": "edits"},
             {"quick": 8000, "thorough": 60000, "mode": "typed"}, {"quick": 12000, "thorough": 80000, "mode": "containers"}],
    "rule": "random scenarios - construction from raw values and by the builder, imports in every ownership, copies, slices, reads, assignments, extraction, record batches, proxy edits, mutation and copies of typed "
            "arrays, buffers, bitsets, value pointers, allocators - each repeated with a failure at every allocation it makes (a random 40 of them when there are more), once or lasting; after each the exception, the "
            "source, the destination's contents and C structures, the release accounting and the allocation ledger are checked and the object is used again; distinct = hash of (scenario, case, allocations)",
    "must_see": ["allocation failures injected", "failures reported", "scenario:build", "scenario:import", "scenario:copy", "scenario:assignment", "scenario:batch assignment", "scenario:set_buffer", "scenario:add given children", "scenario:insert range", "scenario:resize", "scenario:typed copy-assign", "scenario:buffer insert range", "scenario:bitset insert range", "scenario:builder", "foreign structures accounted"],
}
CHECKS["P21"] = {
    "src": ["p21.cpp"],
    "jobs": [{"quick": 48000, "thorough": 800000}],
    "rule": "random histories of 4-20 (thorough: 44) edits at random nodes of arrow proxy trees of random nested types, created by the library, half or wholly foreign, owned, half lent or lent: name, metadata, "
            "flags, null count, length, offset, buffers (also a view of the buffer itself), format, conversions between layouts, validity bits, children and dictionaries lent or given, copies, moves, views, "
            "slices, extraction; every getter, C structure, buffer, view, child and dictionary compared with a model after every edit, release of everything attached accounted for; distinct = hash of history",
    "must_see": ["edit:name", "edit:length", "edit:buffer", "edit:format", "edit:add lent children", "edit:add given children", "edit:pop children", "edit:set lent child", "edit:set given child", "edit:set dictionary", "edit:remove dictionary", "edit:copy", "edit:slice", "edit:extract", "edit:view", "views compared", "lent structures left alone", "foreign structures released once", "refused edits"],
}
CHECKS["P24"] = {
    "src": ["p24.cpp"], "parts": 4, "battery": True,
    "jobs": [{"quick": 2400, "thorough": 120000, "san": "tsan"}],
    "rule": "2-4 threads started together, each running 3-10 random operations (read, iterate, visit, compare, copy, slice, view, proxy access, batches, lent imports, decoding of the exported structures, "
            "mutation of private copies, private arrays, builders) over 1-3 shared arrays of random nested types in every provenance, shared record batches and C structures, with random yields and delays, "
            "under a happens-before race detector; distinct = hash of (operation traces, arrays)",
    "must_see": ["threads", "thread steps", "comparisons between threads", "reads checked", "op:slice_view", "op:lend", "op:private mutation", "op:batch", "op:decode", "layout:ree", "layout:dict", "layout:dunion"],
}

# histories over the layouts only typed arrays offer (lib/views.cpp)
for _p, _q, _t in (("P01", 4000, 400000), ("P02", 4000, 400000), ("P03", 4000, 400000), ("P04", 4000, 400000), ("P05", 4000, 400000), ("P07", 1500, 150000),
                   ("P14", 1500, 150000), ("P18", 3000, 300000)):
    CHECKS[_p]["views"] = True
    CHECKS[_p]["jobs"].append({"quick": _q, "thorough": _t, "mode": "views"})
    CHECKS[_p]["rule"] = CHECKS[_p]["rule"].replace("; distinct = ", "; and histories (1-14 operations) over string_view_array and binary_view_array, which only typed arrays offer; distinct = ")
    CHECKS[_p]["must_see"] += ["long values", "inline values", "sources released"]
# tens of thousands of elements, long runs, long strings and lists
for _p, _q, _t in (("P02", 60, 4000), ("P03", 40, 2000), ("P04", 16, 1000), ("P05", 40, 2000), ("P14", 16, 1000), ("P18", 40, 2000), ("P27", 16, 2000)):
    CHECKS[_p]["jobs"].append({"quick": _q, "thorough": _t, "mode": "large", "hang_cpu": 150})
    CHECKS[_p]["rule"] = CHECKS[_p]["rule"].replace("; distinct = ", "; a job with 1000-70000 elements, runs, strings and lists of that length; distinct = ")
# proxies over the formats without array class
for _p in ("P01", "P04", "P07"):
    CHECKS[_p]["jobs"].append({"quick": 6000, "thorough": 300000, "mode": "formats"})
    CHECKS[_p]["rule"] = CHECKS[_p]["rule"].replace("; distinct = ", "; proxies over random data of the formats without array class; distinct = ")
    CHECKS[_p]["must_see"].append("proxies of formats without array class")
# Arrow's own boolean layout, which the library does not use (known findings)
CHECKS["P02"]["jobs"].append({"quick": 200, "thorough": 2000, "mode": "bits"})
CHECKS["P03"]["jobs"].append({"quick": 200, "thorough": 2000, "mode": "bits"})
CHECKS["P07"]["jobs"].append({"quick": 4, "thorough": 8, "mode": "bits", "shards": 1})

_MODEL = "runtime monitoring under ASan+UBSan, contract monitor and allocation ledger: "
for _p, _t in {
    "P01": "release accounting of foreign structures and of every block in randomised lifecycles",
    "P02": "comparison with the producer's logical column through every read path on randomly encoded foreign data",
    "P03": "independent strict reader of the exported C structures, buffer extents through the sanitizer's shadow memory",
    "P04": "before/after observation, address disjointness and overwriting of the other side of a copy",
    "P05": "lockstep window model over chains of slices",
    "P06": "write-protected pages and byte images of everything the producer lent",
    "P07": "exactly sized redzoned blocks (AddressSanitizer), memcheck for undefined bytes and bits",
    "P08": "lockstep std::vector<std::optional<T>> model of mutation histories",
    "P09": "lockstep std::vector<std::optional<std::string>> model of mutation histories",
    "P10": "independent strict reader of the C structure after every mutation",
    "P11": "lockstep std::vector model, object lifetime registry and allocation ledger",
    "P12": "lockstep std::vector<bool> model over block boundaries",
    "P13": "lockstep std::vector model with byte images",
    "P14": "iterator laws and agreement of every way of walking with the index walk",
    "P15": "lockstep std::optional model, all pairs compared with all operators",
    "P16": "comparison of built arrays with the source data, typed, dynamic and through an independent reader",
    "P17": "lockstep model table of record batch histories",
    "P18": "equality compared with logical equality over independent encodings, all orders and triples",
    "P19": "exception type, structure images, contents and ledger before and after every misuse",
    "P20": "injection of an allocation failure at every allocation of each scenario; oracles on the exception, the contents, the C structures, the release accounting and the ledger",
    "P21": "lockstep model of the proxy tree over edit histories",
    "P22": "recording allocators: every block given back once, to an equal allocator, with its size",
    "P23": "object lifetime registry and plain definitions",
    "P25": "schema trees compared field by field through operation chains; format table of the specification",
    "P26": "typed and type-erased answers compared; layouts presented compared with the schema",
    "P27": "elements computed from the children's columns and the physical data alone",
    "P29": "requests larger than the memory, the offsets or the views allow, the process refusing allocations beyond 6 GiB",
    "P28": "one logical column through every pair of construction forms",
}.items():
    CHECKS[_p]["technique"] = _MODEL + _t
CHECKS["P24"]["technique"] = "happens-before race detector (ThreadSanitizer) over concurrent readers with injected delays; answers of the threads compared with the answer computed alone"
