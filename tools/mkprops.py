import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
AI="include/sparrow/arrow_interface/"
p("P01","Arrow C data structures are released exactly once and nothing leaks",
 "Whatever sequence of importing, copying, moving, assigning, slicing, extracting, nesting and destroying a program performs, every Arrow C structure handed over to the library is released exactly once, every structure only lent by pointer is never released, and no release happens while something still reading it is alive. When all library objects are gone and extracted structures have been released by the caller, all memory the library allocated has been returned.",
 ["histories","inputs"],"All histories of ownership operations over arrays and proxies of every layout, with owned, half-owned and borrowed C structures, from foreign producers and from the library itself.",
 "The tests check a few fixed copy/move/extract sequences, mostly on flat arrays, without a release counter and without leak accounting; ownership errors depend on the operation history and the nesting (children, dictionaries).",
 ["src/arrow_array_schema_proxy.cpp","src/arrow_interface/arrow_array.cpp","src/arrow_interface/arrow_schema.cpp",AI+"arrow_array_schema_utils.hpp","include/sparrow/arrow_array_schema_proxy.hpp","src/array.cpp","include/sparrow/array_api.hpp"],
 [("ownership variant, copy/move/destructor","src/arrow_array_schema_proxy.cpp"),("release callbacks and children ownership flags",AI+"arrow_array_schema_utils.hpp"),("extract_arrow_structures","include/sparrow/array_api.hpp")])
p("P02","Imported Arrow data reads back exactly as produced",
 "For every conforming Arrow C array and schema of a supported layout - any length including zero, any offset, extra capacity, with or without a validity bitmap, any declared null count including 'unknown' - the library reports the producer's length, and the value and nullness it reports at each position equal the ones the producer encoded. This holds at every nesting level and for dictionary, run-end encoded, union, list, list-view, fixed-size-list, struct, string and binary layouts.",
 ["inputs"],"All conforming C data inputs of supported layouts (physical encodings of a logical column).",
 "The tests build one or two hand-made arrays per layout, almost always at offset 0 with a full bitmap and a known null count; the guarantee quantifies over all physical encodings.",
 ["include/sparrow/layout/","src/array_factory.cpp","src/arrow_interface/arrow_array.cpp","src/arrow_array_schema_proxy.cpp","include/sparrow/types/data_type.hpp"],
 [("array_factory dispatch","src/array_factory.cpp"),("per-layout value()/has_value() honouring offset","include/sparrow/layout/"),("buffer extents from format and length","src/arrow_interface/arrow_array.cpp")])
p("P03","Exported Arrow structures conform to the C data interface",
 "Every array the library builds, copies, slices or mutates hands out Arrow structures that a strict, independent reader of the C data interface accepts: field counts, formats, buffer counts and sizes, offsets monotone and in range, null count consistent with the bitmap, children long enough, release callbacks set. Decoded by such a reader, they contain exactly the logical values the array was built from.",
 ["inputs","histories"],"All arrays constructible through the typed constructors, with any values, nulls, nesting, and after copies and slices.",
 "The tests mostly read arrays back through the same library, so a symmetric error is invisible; no independent reader validates the exported structures.",
 ["include/sparrow/layout/",AI+"arrow_array.hpp",AI+"arrow_schema.hpp","include/sparrow/array_api.hpp","include/sparrow/layout/array_access.hpp"],
 [("create_proxy of each layout","include/sparrow/layout/"),("fill_arrow_array / fill_arrow_schema",AI)])
p("P04","Copies are deep and independent of their source",
 "Copying an array, proxy or record batch, however it was obtained (built, imported, sliced, viewed, moved into), yields an equal object that shares no mutable memory with its source: later mutation, release or destruction of either one never changes what the other reads. Assigning over an existing object replaces its contents completely, and self-assignment changes nothing.",
 ["histories","inputs"],"All layouts, all provenance of the source (sparrow-built, foreign, borrowed, sliced, viewed), all orders of destruction and mutation.",
 "Tests copy sparrow-built arrays and compare immediately; they do not destroy, poison or mutate the source in all orders, nor copy foreign or offset or bitmap-less arrays.",
 ["src/arrow_array_schema_proxy.cpp","src/arrow_interface/arrow_array.cpp","src/arrow_interface/arrow_schema.cpp","include/sparrow/layout/array_wrapper.hpp","src/record_batch.cpp"],
 [("copy_array / copy_schema","src/arrow_interface/"),("copy constructors rebuilding cached views","include/sparrow/layout/")])
p("P05","Slices show exactly the requested window, nested or not",
 "Slicing any array from position a to b, by copy or by view, gives an array of length b-a whose i-th element equals element a+i of the source, with a null count that is right for the window; slicing a slice composes accordingly. Slicing leaves the source unchanged, and a copying slice stays valid after the source is gone.",
 ["inputs","histories"],"All layouts, source offsets and windows (including empty and full), chains of slices, slices of imported data.",
 "Tests slice a flat primitive array at offset 0 once; the composition with an existing offset and the nested layouts are not exercised.",
 ["src/arrow_array_schema_proxy.cpp","include/sparrow/layout/array_base.hpp","src/array.cpp"],
 [("slice / slice_view","src/arrow_array_schema_proxy.cpp"),("offset handling of each layout","include/sparrow/layout/")])
p("P06","Reading or viewing never writes to the producer's memory",
 "Importing Arrow data (owned or borrowed), reading, iterating, comparing, formatting types of, copying and slicing it never modifies a byte of the producer's buffers or of the borrowed C structures. Data placed in read-only memory can be used without faulting.",
 ["inputs","histories"],"All layouts, lengths that are not multiples of eight, offsets, windows, and read-only call sequences.",
 "No test places input in write-protected memory or compares it byte-for-byte afterwards; a write hidden in a view constructor passes every value assertion.",
 ["include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp","include/sparrow/layout/array_bitmap_base.hpp","src/arrow_array_schema_proxy.cpp","include/sparrow/buffer/buffer_view.hpp"],
 [("view construction over external memory","include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp")])
p("P07","No access outside the buffers a conforming producer declared",
 "For conforming input whose buffers are exactly as large as the Arrow specification requires (no padding, null pointers where the specification permits them), no read-only operation - import, element access, iteration, comparison, copy, slice, destruction - touches memory outside these buffers or computes an undefined result.",
 ["inputs"],"All conforming inputs with exactly-sized allocations, all read operations of the dynamic and typed arrays.",
 "Tests allocate generously through the library's own buffers and run without sanitizers, so over-reads pass silently.",
 ["src/arrow_interface/arrow_array.cpp","include/sparrow/layout/","include/sparrow/buffer/"],
 [("get_arrow_array_buffers","src/arrow_interface/arrow_array.cpp"),("bitset views","include/sparrow/buffer/dynamic_bitset/")])
p("P08","Mutating a primitive array behaves like a vector of optional values",
 "Any sequence of insert (one, many, range), erase (one, range), push_back, pop_back, resize, element assignment and copy/move operations on a primitive array leaves exactly the contents, and returns the positions, that the same sequence gives on a standard vector of optional values - also when the array was obtained as a copying slice with a non-zero start. Null elements keep the element count and move with their neighbours.",
 ["histories","inputs"],"All histories of mutating operations with all element types, positions, counts, null patterns, and starting offsets.",
 "Tests apply one operation to a fixed array each; bugs need particular sizes (bitmap block boundaries), histories or offsets.",
 ["include/sparrow/layout/mutable_array_base.hpp","include/sparrow/layout/primitive_array.hpp","include/sparrow/layout/array_bitmap_base.hpp","src/arrow_array_schema_proxy.cpp"],
 [("insert/erase/resize over values and bitmap","include/sparrow/layout/mutable_array_base.hpp"),("bitmap mutation","src/arrow_array_schema_proxy.cpp")])
p("P09","Mutating a string or binary array behaves like a vector of optional strings",
 "Any sequence of insert, erase, push_back, pop_back, resize and element assignment (shorter, longer, empty, null) on a variable-size string or binary array leaves exactly the contents the same sequence gives on a standard vector of optional strings, and never disturbs another element.",
 ["histories","inputs"],"All histories of mutating operations, element lengths, positions, null patterns and starting offsets.",
 "The layout's own test file is not even built in this configuration; remaining tests only read. Offsets and character data must be shifted consistently for every length change.",
 ["include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp","include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp","include/sparrow/layout/mutable_array_base.hpp"],
 [("assign / insert_value / erase_values and offset adjustment","include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp")])
p("P10","Null counts and exported structures stay right after every mutation",
 "After each mutating step on an array, the Arrow structure it exposes describes the current contents: length, null count and validity bits agree with the elements, buffers have the right sizes, offsets are monotone, and the buffer pointers in the structure are the live ones. Re-importing a copy of the structure gives back the same elements.",
 ["histories"],"All histories of mutations on primitive, string and binary arrays (including assigning null or non-null to single elements).",
 "Tests compare values through the object that was mutated and its own cache; almost none look at the exposed C structure afterwards.",
 ["include/sparrow/layout/mutable_array_base.hpp","include/sparrow/layout/array_bitmap_base.hpp","src/arrow_array_schema_proxy.cpp","include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp"],
 [("update_buffers / update_null_count / update()","src/arrow_array_schema_proxy.cpp")],
 [("null_count","number of null elements, or -1 if unknown","ArrowArray.null_count")])
p("P11","buffer behaves like a standard vector under any operation history",
 "Any sequence of construction, assignment, insertion, erasure, resize, reserve, shrink, swap and move on a buffer leaves the contents, size and return positions a standard vector has, also when an argument refers to an element of the buffer itself. Every element constructed is destroyed exactly once and every allocation is returned to an equal allocator with its original size.",
 ["histories","inputs","fault_sequences"],"All histories over trivial and non-trivial element types, allocators equal or not, and throwing element or allocation operations.",
 "Tests use one operation on a fixed buffer of trivially copyable elements; object lifetimes and allocator balance are not observed.",
 ["include/sparrow/buffer/buffer.hpp","include/sparrow/buffer/allocator.hpp","include/sparrow/buffer/buffer_view.hpp"],
 [("buffer storage management","include/sparrow/buffer/buffer.hpp")])
p("P12","Bitsets behave like a sequence of bools with an exact null count",
 "Owning, borrowing and viewing bitsets of any size agree with a plain sequence of bools under any history of set, reference assignment, push/pop, insert, emplace, erase, resize, clear, copy, move, swap and iteration in both directions, and their null count always equals the number of false bits. The distance from begin to end is always the size.",
 ["histories","inputs"],"All histories, sizes (in particular around block boundaries), insertion positions and counts, for every block type and const or mutable views.",
 "Tests use one or two fixed sizes; errors sit at block boundaries and at empty ranges.",
 ["include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp","include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp","include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp","include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp"],
 [("block arithmetic, iterator increment/decrement, null count bookkeeping","include/sparrow/buffer/dynamic_bitset/")])
p("P13","Typed adaptors over byte buffers behave like a vector of the type",
 "A typed adaptor over a byte buffer, for every element type, gives the same contents, sizes and return positions as a vector of that type under any history of insert, emplace, erase, push, pop, resize, reserve and assignment, and the byte buffer underneath holds exactly the byte image of those elements. Typed buffers built from a range, a count and value, or existing storage hold exactly the given elements and release their storage when destroyed; adopted storage is used in place, not copied.",
 ["histories","inputs"],"All histories and element types (1, 2, 4, 8 and 16 bytes), on borrowed and owned byte buffers.",
 "Tests use one element type and single steps.",
 ["include/sparrow/buffer/buffer_adaptor.hpp","include/sparrow/buffer/u8_buffer.hpp"],
 [("index scaling between bytes and elements","include/sparrow/buffer/buffer_adaptor.hpp")])
p("P14","All ways of walking an array agree",
 "For every layout, element access by index, checked access, front and back, forward and reverse iteration, const and mutable iteration, iterator arithmetic and comparison, and the separate value and validity ranges all describe the same sequence, and it has the reported size. Iterators obey the laws of their category (advance and distance are inverse, post- and pre-increment agree, begin plus size is end).",
 ["inputs"],"All arrays of every layout, all offsets, sizes including zero, and all iterator positions and jumps.",
 "Tests walk a few arrays forward; only some layouts and only begin-to-end.",
 ["include/sparrow/layout/layout_iterator.hpp","include/sparrow/utils/iterator.hpp","include/sparrow/utils/functor_index_iterator.hpp","include/sparrow/layout/"],
 [("iterator base and per-layout iterators","include/sparrow/utils/iterator.hpp")])
p("P15","nullable obeys optional-like value, assignment and ordering semantics",
 "A nullable holding values or references answers presence, value, value-or-default, swapping and assignment like an optional does, and comparing nullables and plain values in any combination is consistent: equality is an equivalence, order agrees with equality, null equals null and sorts before every value. Accessing the value of a null reports the documented error, and assigning through a reference nullable updates exactly the referred value and flag.",
 ["inputs","histories"],"All pairs and triples of values, references and nulls of the arithmetic, string and nested element types, and sequences of assignments.",
 "Tests compare a handful of pairs; laws such as transitivity and order/equality agreement quantify over all combinations.",
 ["include/sparrow/utils/nullable.hpp"],
 [("comparison and assignment operators","include/sparrow/utils/nullable.hpp")])
p("P16","The builder turns nested C++ data into arrays with the same contents",
 "For every supported nesting of ranges, tuples, variants, optionals and nullables, the built array has the documented layout and, read back element by element (also by an independent Arrow reader), exactly the source's contents and nulls. Asking for dictionary or run-end encoding changes the physical layout only, never the contents.",
 ["inputs","programs"],"All values of a wide family of nested types, with nulls at every level, empty collections, repeated values.",
 "Tests check a few literals per type; shifts caused by null elements with hidden contents or by special values only show on other inputs.",
 ["include/sparrow/builder/builder.hpp","include/sparrow/builder/builder_utils.hpp","include/sparrow/builder/nested_eq.hpp","include/sparrow/builder/nested_less.hpp"],
 [("builder<T> specialisations","include/sparrow/builder/builder.hpp")])
p("P17","A record batch is a consistent, independent table of named columns",
 "A record batch keeps names and columns paired and in order: lookup by name or index, existence tests, counts, and name and column ranges agree, columns have the stated row count, an unknown name is reported by the documented error, and equality compares names and columns. Constructing it from containers the caller keeps does not alter them, and copies are independent.",
 ["inputs","histories"],"All column sets (counts, names, layouts, row counts), constructor forms and copy/move histories.",
 "Tests use one three-column batch.",
 ["include/sparrow/record_batch.hpp","src/record_batch.cpp"],
 [("name to column mapping","src/record_batch.cpp")])
p("P18","Array equality is value equality, independent of physical encoding",
 "Two arrays of the same type compare equal exactly when they have the same length and the same nulls and values in order, whatever their offsets, spare capacity, bitmap presence, values hidden under nulls, or list and view arrangement. Equality is reflexive (for values that equal themselves), symmetric and transitive, and arrays differing in length, one null or one value compare different.",
 ["inputs"],"All pairs of logical columns and of physical encodings of the same column, typed and dynamic arrays, nested layouts.",
 "Tests compare an array with its copy and one other.",
 ["src/array.cpp","src/array_helper.cpp","include/sparrow/layout/array_base.hpp","include/sparrow/utils/nullable.hpp","src/list_value.cpp","src/struct_value.cpp"],
 [("operator== of arrays, list and struct values","src/")])
p("P19","Misuse is reported by the documented errors and changes nothing",
 "Checked access past the end, reading the value of a null, asking for an unknown column, extracting structures that are not owned, mutating data the library did not allocate, and importing an unsupported or malformed format each raise their documented exception. The object that refused stays unchanged and usable, and nothing is leaked or released.",
 ["inputs","fault_sequences"],"All documented misuse cases across layouts, indices and formats.",
 "Tests check one instance per error, and not that the object survives unchanged.",
 ["include/sparrow/layout/array_base.hpp","src/array.cpp","src/arrow_array_schema_proxy.cpp","src/array_factory.cpp","include/sparrow/utils/nullable.hpp","include/sparrow/record_batch.hpp"],
 [("checked access and ownership checks","include/sparrow/array_api.hpp")])
p("P20","Running out of memory is safe at every allocation point",
 "If any single allocation fails during construction, building, importing, copying, slicing, assignment or container mutation, the operation either completes or throws the allocation error; nothing crashes, leaks or is released twice. Source objects keep their contents, and an assigned-to or mutated object remains destructible and self-consistent.",
 ["fault_sequences","inputs"],"Every allocation index of every scenario in a catalogue of construction, copy and mutation operations across layouts.",
 "No test injects allocation failure.",
 ["src/arrow_interface/arrow_array.cpp","src/arrow_interface/arrow_schema.cpp","src/arrow_array_schema_proxy.cpp","include/sparrow/buffer/buffer.hpp","include/sparrow/layout/"],
 [("raw new of children and private data","src/arrow_interface/arrow_array.cpp")])
p("P21","Editing an array through its Arrow proxy keeps every view of it coherent",
 "After any sequence of edits through the Arrow proxy - name, metadata, format, flags, length, offset, null count, buffers, validity bits, children, dictionary - the getters, the underlying C structures and the proxy's buffer, child and dictionary views all describe the same state, equal to the edits applied in order: buffer views follow a format or offset change at the next refresh, buffer or length edit, and the null count is the one last set, or what the validity bits say after a length or buffer edit. Attached children and dictionaries are released once if given and left alone if lent. Edits that are refused because the structures were not created by the library leave everything as it was.",
 ["histories","inputs"],"All histories of proxy edits on library-created arrays, and refused edits on foreign ones.",
 "Tests call each setter once on a fixed array.",
 ["src/arrow_array_schema_proxy.cpp","include/sparrow/arrow_array_schema_proxy.hpp",AI+"arrow_array/private_data.hpp",AI+"arrow_schema/private_data.hpp"],
 [("setters and cached views","src/arrow_array_schema_proxy.cpp")])
p("P22","The type-erased allocator forwards faithfully",
 "A type-erased allocator behaves as the allocator it was made from through copies, moves and container-copy selections: every allocation and release reaches it with the same count, memory from one can be released through an equal one, and allocators compare equal exactly when the wrapped ones do. Its own bookkeeping never leaks.",
 ["histories","inputs"],"All histories of construction, copy, move, selection, allocation and release over small, large, stateful and stateless allocators.",
 "Tests allocate once per wrapped type.",
 ["include/sparrow/buffer/allocator.hpp"],[("storage variant and dispatch","include/sparrow/buffer/allocator.hpp")])
p("P23","Value-semantic pointers and small range utilities keep their contracts",
 "Cloning pointers copy the pointee polymorphically on copy, transfer it on move, destroy it exactly once and compare by identity or value as documented; value pointers copy deeply. The buffer-building helpers (flattening strings and ranges, offsets from sizes), the repeated-value view, the bit utilities and the iterator bases compute what their plain definitions say for all inputs.",
 ["histories","inputs"],"All histories of copies, moves, swaps, resets over polymorphic pointees, and all inputs of the utilities.",
 "Tests check single steps on fixed values.",
 ["include/sparrow/utils/memory.hpp","include/sparrow/utils/algorithm.hpp","include/sparrow/utils/repeat_container.hpp","include/sparrow/utils/offsets.hpp","include/sparrow/utils/bit.hpp","include/sparrow/utils/vector_view.hpp"],
 [("cloning_ptr, value_ptr","include/sparrow/utils/memory.hpp")])
p("P24","Concurrent readers of the same data do not race",
 "Any number of threads may read, iterate, compare, copy, slice and visit the same arrays, and create and destroy independent copies or views of them, concurrently without data races and with every thread seeing the same contents as a single reader.",
 ["schedules","inputs"],"All interleavings of read-only operations on shared arrays of every layout and thread-private mutation of copies.",
 "All tests are single-threaded; hidden writes in const operations or lazily initialised shared state only matter under concurrency.",
 ["include/sparrow/layout/","include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp","src/array.cpp","src/arrow_array_schema_proxy.cpp"],
 [("const operations without hidden writes","include/sparrow/layout/"),("function-local statics","include/sparrow/layout/dictionary_encoded_array.hpp")])
p("P25","Schemas survive: formats, names, metadata and flags round-trip",
 "Each supported data type maps to its Arrow format string and back without loss, unsupported or malformed formats are rejected rather than misread, and the format, name, metadata and flags of an array, at every nesting level, survive copying, slicing, moving, and export. A C++ value type and the array built from it report the corresponding data type.",
 ["inputs","histories"],"All data types and format strings (including near-miss and hostile ones), all names and metadata, all flags and nesting.",
 "Tests map a list of types once; copies of schemas are not compared field by field.",
 ["include/sparrow/types/data_type.hpp","src/arrow_interface/arrow_schema.cpp",AI+"arrow_flag_utils.hpp","src/arrow_array_schema_proxy.cpp","include/sparrow/types/data_traits.hpp"],
 [("format_to_data_type / data_type_to_format","include/sparrow/types/data_type.hpp"),("copy_schema","src/arrow_interface/arrow_schema.cpp")])
p("P26","A type-erased array is indistinguishable from the typed array it holds",
 "Wrapping a typed array by value, pointer or shared pointer into a dynamic array, visiting it, and accessing its size, type, name, metadata, elements, nulls and slices gives exactly what the typed array gives; visiting always presents the layout that matches the schema. Copying a dynamic array copies the typed array, and moving it transfers it.",
 ["inputs","histories"],"All layouts, ownership models, and access paths.",
 "Tests use primitive arrays in most cases and compare a few elements.",
 ["include/sparrow/array_api.hpp","src/array.cpp","include/sparrow/layout/array_wrapper.hpp","include/sparrow/layout/dispatch.hpp","src/array_helper.cpp"],
 [("array_wrapper_impl and visit dispatch","include/sparrow/layout/dispatch.hpp")])
p("P27","Dictionary, run-end, union, list and struct arrays decode their children",
 "A dictionary array's element equals the dictionary entry its key names; a run-end encoded array's element equals the value of the run covering it; a union's element equals the child element selected by its type id and offset; a list's, list view's or struct's element is exactly the child window or row it covers. A null key, null entry or null child element reads as null.",
 ["inputs"],"All keys, run ends, type ids, child offsets, list windows, null patterns and sizes built through the typed constructors.",
 "Tests build one fixed instance per layout.",
 ["include/sparrow/layout/dictionary_encoded_array.hpp","src/run_encoded_array.cpp","include/sparrow/layout/run_end_encoded_layout/","include/sparrow/layout/union_array.hpp","include/sparrow/layout/list_layout/list_array.hpp","include/sparrow/layout/struct_layout/struct_array.hpp"],
 [("child index computation","include/sparrow/layout/")])
p("P28","Every documented way of stating validity gives the same array",
 "Building an array from values with nulls given as a bitset, a range of bools, a list of null positions, nullable elements or nothing at all yields the same elements and nulls; no statement means no nulls. Constructing from a size and value, an initializer list, a range or adopted storage yields the same contents.",
 ["inputs"],"All value sequences, null patterns and constructor forms of the typed arrays.",
 "Tests use one constructor form per layout with a fixed pattern.",
 ["include/sparrow/layout/array_bitmap_base.hpp","include/sparrow/buffer/dynamic_bitset/","include/sparrow/layout/primitive_array.hpp","include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp","include/sparrow/utils/ranges.hpp"],
 [("ensure_validity_bitmap and create_proxy overloads","include/sparrow/layout/")])
p("P29","Requests which cannot be represented are refused, never wrapped around",
 "When a size, count or amount of data cannot be represented - more elements than memory can hold or than a size in bytes can express, offsets beyond the offset type of a string, binary or list layout, lengths or positions beyond the 32 bits of a view - constructors, resize, reserve, insert, push_back, assignment and the conversion of sizes to offsets throw a standard exception (length_error, bad_alloc, overflow_error) instead of producing something smaller or inconsistent. Buffers, typed buffers, adaptors and bitsets are unchanged then and usable; an array is unchanged after a failed resize or insertion at its end, and valid with its former length after any other. What does fit, up to the very limit, is accepted.",
 ["inputs"],"All sizes, including those whose size in bytes wraps around, around the powers of two and the limits of the types, for every container and for the layouts with offsets or views.",
 "Tests use small sizes; the arithmetic on sizes is only wrong near the limits of its types.",
 ["include/sparrow/buffer/buffer.hpp","include/sparrow/buffer/u8_buffer.hpp","include/sparrow/buffer/buffer_adaptor.hpp","include/sparrow/buffer/dynamic_bitset/","include/sparrow/layout/layout_utils.hpp","include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp","include/sparrow/layout/variable_size_binary_view_array.hpp"],
 [("check_init_length, reserve, size_for_buffer, byte_count","include/sparrow/buffer/"),("offset_buffer_from_sizes","include/sparrow/layout/layout_utils.hpp"),("check_added_data_size","include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
