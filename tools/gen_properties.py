#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
S = "src/mpack/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
                     mechanism=[dict(name=n, where=S+w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Reading untrusted bytes never accesses memory out of bounds",
 "Whatever bytes are handed to the incremental reader, and whatever sequence of its read, peek, skip, string, in-place, allocate and discard calls the application then makes, no call reads outside the supplied data (or the stream buffer), writes outside the caller's destination, or has undefined behaviour. Malformed or truncated data always ends in an error state, never in an invalid access.",
 ["inputs","programs","fault_sequences"], "all byte strings, all truncation points, all short sequences of reader calls, all short reads of a stream source",
 "The suite feeds a few hundred hand-written messages and relies on valgrind/ASan for those; the guarantee is over every byte string, which decides where each bounds check lands.",
 ["mpack-reader.c","mpack-reader.h","mpack-expect.c"],
 [("ensure-before-load bounds check","mpack-reader.h:mpack_reader_ensure"),("refill with shift of leftover bytes","mpack-reader.c:mpack_reader_ensure_straddle"),("tag parser","mpack-reader.c:mpack_parse_tag")],
 ["memory accesses of every public reader function"])

prop("C02", "Every MessagePack header decodes exactly as the specification says",
 "For every possible first byte and following bytes, reading or peeking an element header yields exactly the type and value the MessagePack specification assigns to those bytes and consumes exactly the bytes of that header. The reserved byte 0xC1 and a header cut short by the end of the data are reported as errors and yield nil; peeking never consumes.",
 ["inputs"], "all first bytes, all payload values of up to 8 bytes, all truncation lengths",
 "Tests list example encodings per type; 2^64 payload values and every truncation length cannot be enumerated.",
 ["mpack-reader.c","mpack-common.h"],
 [("tag parser switch","mpack-reader.c:mpack_parse_tag"),("big-endian loads","mpack-common.h:mpack_load_u64")],
 ["tag returned by read/peek","error state","bytes remaining"])

prop("C03", "Every value is written in the specified and shortest encoding",
 "For every value of every type and every length, the writer emits exactly the byte sequence the MessagePack specification defines for it, using the shortest form available for integers and lengths; in the old-specification compatibility mode it uses no newer format, and flags a bug instead of emitting one when the old format cannot express the value.",
 ["inputs","configurations"], "all 64-bit integers through every width-specific function, all float bit patterns, all 32-bit lengths/counts, both spec versions",
 "Tests check boundary constants; correctness at every value of a 2^64 domain is universal, and the per-width fast paths are separate code.",
 ["mpack-writer.c","mpack-common.h"],
 [("per-width write functions","mpack-writer.c:mpack_write_u64 etc"),("encoders","mpack-writer.c:mpack_encode_*"),("big-endian stores","mpack-common.h:mpack_store_u64")],
 ["bytes in the output buffer","error state"])

prop("C04", "What the writer writes, the reader and the node parser read back",
 "Any well-formed sequence of values written with the writer, including nested arrays and maps, strings, binary, extension data and timestamps, is read back by both the incremental reader and the tree parser as the same structure and the same values, consuming exactly the bytes written.",
 ["inputs","programs"], "all values, all lengths in the bound, all short nestings",
 "Round-trip tests use fixed documents; the identity has to hold for all values and shapes.",
 ["mpack-writer.c","mpack-reader.c","mpack-node.c"],
 [("writer encoders","mpack-writer.c"),("reader parser","mpack-reader.c:mpack_parse_tag"),("node parser","mpack-node.c:mpack_tree_parse_node_contents")],
 ["tags and payload bytes read back"])

prop("C05", "The tree parser and the incremental reader agree on every message",
 "For every byte string, the tree parser accepts exactly when a complete object can be read by the incremental reader; when both accept they report the same types, values, lengths, payload bytes and element order, and the same size in bytes for the message.",
 ["inputs"], "all byte strings up to the stated length, all nesting they can express",
 "The two parsers are separate implementations and are tested on separate hand-picked data; nothing compares them over arbitrary bytes.",
 ["mpack-node.c","mpack-reader.c"],
 [("node parser","mpack-node.c:mpack_tree_parse_node_contents"),("tag parser","mpack-reader.c:mpack_parse_tag")],
 ["node tags and data","reader tags and data","message size"])

prop("C06", "Parsing untrusted bytes into a tree is memory safe",
 "Whatever bytes are given to the tree parser, with dynamic pages, or with a caller-supplied node pool of any size, parsing never touches memory outside the data, the node storage or the parse stack; a successfully parsed tree only contains nodes and data ranges inside what was supplied, and a pool that is too small is reported as too big.",
 ["inputs","configurations","fault_sequences"], "all byte strings up to the stated length, all pool sizes, allocation failure at any point",
 "Bounds mistakes appear only for particular combinations of declared counts, remaining bytes and page boundary; tests use a few page sizes and documents.",
 ["mpack-node.c"],
 [("possible-nodes accounting","mpack-node.c:mpack_tree_reserve_bytes"),("page/pool allocation","mpack-node.c:mpack_tree_parse_children"),("stack growth","mpack-node.c:mpack_tree_push_stack")],
 ["memory accesses of parsing and of node accessors"])

prop("C07", "Reading from a stream does not depend on how the data is chunked",
 "Reading a message through a fill callback gives the same elements, the same payload bytes and the same success or failure as reading it from memory, whatever sizes the callback returns on each call and whatever the buffer size; when the source ends early an error is flagged and nothing invented is returned as success.",
 ["inputs","schedules","fault_sequences"], "all byte contents, all sequences of short reads, all buffer positions at which an element straddles a refill",
 "Tests use a few fixed chunk sizes; the refill logic depends on where each boundary falls.",
 ["mpack-reader.c"],
 [("straddling refill","mpack-reader.c:mpack_reader_ensure_straddle"),("big reads","mpack-reader.c:mpack_read_native_straddle"),("skip by fill/seek","mpack-reader.c:mpack_skip_bytes_straddle"),("fill loop","mpack-reader.c:mpack_fill_range")],
 ["tags, bytes and error state compared with in-memory reading"])

prop("C08", "Parsing messages from a stream does not depend on chunking or polling",
 "Parsing messages from a blocking or non-blocking byte stream produces the same trees, the same message sizes and the same acceptance as parsing the same bytes from memory, however the bytes are split across read calls and however many times an incomplete parse is polled; several messages in one stream are each parsed completely and in order, with no byte lost or duplicated.",
 ["inputs","schedules","histories"], "all byte contents, all splits into read chunks, all polling schedules in the bound, consecutive messages",
 "Resumable parsing has to hold for every split point and repeated poll; tests use fixed chunk sizes.",
 ["mpack-node.c"],
 [("resume state","mpack-node.c:mpack_tree_continue_parsing"),("buffer fill and growth","mpack-node.c:mpack_tree_reserve_fill"),("message cleanup between parses","mpack-node.c:mpack_tree_parse_start")],
 ["trees, sizes, error state"])

prop("C09", "The first error sticks, is reported once, and later calls are inert",
 "Once an error is flagged on a reader, writer or tree it is never cleared or replaced; the error handler is called exactly once, with that error, no matter what raised it; afterwards every call returns its safe default value, reads nothing from the source, delivers nothing to the output and calls no data callback, and destruction reports that first error.",
 ["programs","fault_sequences","histories"], "all calls in any error state, all errors, errors raised at any point including allocation failure",
 "Tests check a number of individual calls after an error; the guarantee covers every API function and every way an error can arise.",
 ["mpack-reader.c","mpack-expect.c","mpack-node.c","mpack-writer.c"],
 [("reader flag","mpack-reader.c:mpack_reader_flag_error"),("writer flag","mpack-writer.c:mpack_writer_flag_error"),("tree flag","mpack-node.c:mpack_tree_flag_error")],
 ["error state","error handler calls","returned defaults","output bytes"])

prop("C10", "Expecting a number yields the exact value in range or a type error",
 "Each expect function for numbers returns the exact encoded number if and only if the next element is a number that fits the requested type and lies within the requested range or equals the requested value; otherwise it flags a type error and returns the documented default, never a truncated, wrapped, sign-changed or out-of-range value.",
 ["inputs"], "all encodings of all 64-bit integers and all float bit patterns, all range bounds",
 "Tests check edges per type; 10 integer types x range/max/match functions x 2^64 values need a universal argument.",
 ["mpack-expect.c","mpack-expect.h"],
 [("integer expectations","mpack-expect.c:mpack_expect_u8 etc"),("range template","mpack-expect.c:MPACK_EXPECT_RANGE_IMPL"),("matches","mpack-expect.c:mpack_expect_uint_match")],
 ["return value","error state"])

prop("C11", "Reading a number from a node yields the exact value or a type error",
 "Each node accessor for numbers returns the exact encoded number if and only if the node holds a number that fits the requested type, and otherwise flags a type error and returns zero; strict float accessors accept only lossless sources, and the non-strict ones return the correctly rounded conversion.",
 ["inputs"], "all encodings of all 64-bit integers and all float bit patterns",
 "Tests use edge constants; the conversions must be exact on the whole 64-bit domain.",
 ["mpack-node.c"],
 [("node number accessors","mpack-node.c:mpack_node_u8 etc")],
 ["return value","error state"])

prop("C12", "A fixed-size writer never overruns and its output is exact or too big",
 "Writing any sequence of values into a caller-supplied buffer never stores outside that buffer. If everything fits, the buffer holds exactly the concatenated encodings; otherwise the writer is in the too-big error state, and it is so exactly when the encodings do not fit.",
 ["inputs","programs"], "all buffer sizes in the bound, all short sequences of writes, all values",
 "Overruns depend on the remaining space at the moment of each write; tests try particular buffer sizes.",
 ["mpack-writer.c"],
 [("space check and ensure","mpack-writer.c:mpack_writer_ensure"),("straddling writes","mpack-writer.c:mpack_write_native_straddle")],
 ["buffer bytes and guard bytes","error state","used size"])

prop("C13", "A flushing writer delivers exactly the bytes written, in order",
 "With a flush callback, the concatenation of everything passed to the callback (including the final flush on destruction or an explicit message flush) equals the concatenated encodings of all values, for any buffer size and any position at which the buffer fills, with nothing lost, repeated or reordered; if the callback fails, the failure is the writer's final error.",
 ["inputs","programs","fault_sequences"], "all short sequences of writes, all fill levels at each write, flush failure at any call",
 "Depends on which write straddles the buffer end; tests use few buffer sizes.",
 ["mpack-writer.c"],
 [("flush","mpack-writer.c:mpack_writer_flush_unchecked"),("straddling writes","mpack-writer.c:mpack_write_native_straddle"),("destroy","mpack-writer.c:mpack_writer_destroy")],
 ["bytes delivered to the flush callback","error state"])

prop("C14", "A growable writer returns exactly the document or nothing",
 "A writer that allocates its own buffer either ends without error and hands over a buffer holding exactly the concatenated encodings and the right size, or ends with an error and hands over no buffer; allocation failures at any point are reported as memory errors.",
 ["inputs","programs","fault_sequences"], "all short sequences of writes, all payload sizes that force growth in the bound, allocation failure at any point",
 "Growth must preserve content at every fill level and under each failing allocation.",
 ["mpack-writer.c","mpack-platform.c"],
 [("growing flush","mpack-writer.c:mpack_growable_writer_flush"),("teardown/shrink","mpack-writer.c:mpack_growable_writer_teardown")],
 ["returned pointer, size and bytes","error state"])

prop("C15", "Building containers of unknown size equals declaring the size up front",
 "A document written with automatically counted arrays and maps is byte-for-byte the document obtained by declaring the counts up front, for any nesting, mixture with ordinary containers, and placement of the data across internal storage and pages; when memory runs out the writer reports a memory error and nothing is written out of bounds.",
 ["inputs","programs","fault_sequences","configurations"], "all short build programs, payload sizes that put each element at any page position in the bound, page sizes, allocation failure at any point",
 "The page layout arithmetic has corner cases at every boundary offset; tests cover some sizes.",
 ["mpack-writer.c"],
 [("build begin/complete","mpack-writer.c:mpack_builder_build"),("page management","mpack-writer.c:mpack_builder_add_page"),("resolve","mpack-writer.c:mpack_builder_resolve")],
 ["output bytes","error state","memory accesses"])

prop("C16", "All memory is released exactly once, whatever fails",
 "For every reader, writer and tree, whatever the data and whichever allocations or stream operations fail, after destruction every block the library allocated has been freed exactly once except those documented as handed to the caller, and nothing is used after being freed.",
 ["inputs","programs","fault_sequences"], "every pattern of allocation failure, all inputs within the bound, tracking on and off",
 "Tests fail the n-th allocation for particular scenarios; leaks and double frees depend on data-dependent control flow combined with failure points.",
 ["mpack-node.c","mpack-writer.c","mpack-reader.c","mpack-expect.c","mpack-common.c"],
 [("tree cleanup","mpack-node.c:mpack_tree_cleanup"),("builder clear","mpack-writer.c:mpack_writer_clear"),("growable teardown","mpack-writer.c:mpack_growable_writer_teardown")],
 ["live allocation count after destroy"])

prop("C17", "Debug tracking reports misuse of containers exactly when it happens",
 "With read or write tracking enabled, opening and closing containers, elements and bytes in exactly the declared numbers raises no error and does not change results, while every deviation (too few or too many elements or bytes, closing the wrong type, closing with open children, finishing with something still open) puts the reader or writer in an error state no later than the offending close or destruction.",
 ["programs","histories"], "all short sequences of open, element, bytes and close calls with all declared counts in the bound",
 "Tests check a selection of misuse sequences; exactness is over all sequences.",
 ["mpack-common.c","mpack-reader.c","mpack-writer.c"],
 [("tracking stack","mpack-common.c:mpack_track_push/pop/element/bytes"),("destroy checks","mpack-common.c:mpack_track_destroy")],
 ["error state after each call and after destroy"])

prop("C18", "UTF-8 checking accepts exactly the well-formed strings",
 "Functions that require UTF-8 accept a byte string if and only if it is well-formed UTF-8 per RFC 3629 (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes); the C-string variants additionally reject exactly the strings containing a NUL byte. All readers, expectations and node accessors agree.",
 ["inputs"], "all byte strings up to the stated length",
 "The accepted language is defined over all byte sequences; tests contain sample sequences.",
 ["mpack-common.c","mpack-reader.c","mpack-node.c","mpack-expect.c"],
 [("UTF-8 DFA","mpack-common.c:mpack_utf8_check_impl")],
 ["accept/reject and error state"])

prop("C19", "Extracted strings are bounded, terminated and exact, or empty with an error",
 "Every function that copies string or binary data into a caller's buffer either delivers exactly the element's bytes, with a terminator for the C-string forms, or flags an error and, for the C-string forms, leaves an empty terminated string; it never writes past the size given and reports too big exactly when the data (plus terminator) does not fit.",
 ["inputs","fault_sequences"], "all contents and lengths in the bound, all buffer sizes, all truncations and stream failures",
 "Depends on the exact relation of length and buffer size, on embedded NULs and on where a stream fails.",
 ["mpack-reader.c","mpack-expect.c","mpack-node.c"],
 [("reader string functions","mpack-reader.c:mpack_read_cstr"),("expect string functions","mpack-expect.c:mpack_expect_cstr"),("node copies","mpack-node.c:mpack_node_copy_cstr")],
 ["destination bytes and guard bytes","return value","error state"])

prop("C20", "Map lookups find the unique key or report absence and duplicates",
 "Looking up a key in a parsed map returns the value of the unique entry whose key equals it (integers by value whatever their encoding, strings by exact bytes); a missing key gives a data error, or a missing node for the optional form, and duplicates give a data error. Presence tests, index accessors and enumerations follow the same matching rules.",
 ["inputs"], "all map contents in the bound, all signed and unsigned keys, all string keys in the bound",
 "Signed/unsigned and encoding-width equalities and duplicate positions form a product tests only sample.",
 ["mpack-node.c"],
 [("lookups","mpack-node.c:mpack_node_map_int_impl"),("enum","mpack-node.c:mpack_node_enum_optional")],
 ["returned node","error state"])

prop("C21", "Tag comparison is a total order consistent with equality",
 "Comparing element tags is reflexive, antisymmetric and transitive over all tags, equality coincides with a zero comparison, and tags that denote the same integer compare equal whatever their signedness, while tags of different type, value or length never do.",
 ["inputs"], "all triples of tags",
 "A relation over triples of 64-bit values cannot be sampled meaningfully.",
 ["mpack-common.c","mpack-common.h"],
 [("comparison","mpack-common.c:mpack_tag_cmp"),("equality","mpack-common.h:mpack_tag_equal")],
 ["comparison result"])

prop("C22", "Timestamps survive encoding and only valid ones are accepted",
 "Every timestamp with nanoseconds below one billion is written in the shortest of the three specified forms and read back unchanged by the reader, the expectations and the tree accessors; any extension payload of another size, type or with larger nanoseconds is rejected with an error and a zero result, and writing an invalid one flags an error.",
 ["inputs"], "all 64-bit seconds, all 32-bit nanoseconds, all extension sizes and payload bytes in the bound",
 "Three bit-packed forms over 96 bits of input; tests contain a handful of values.",
 ["mpack-writer.c","mpack-reader.c","mpack-node.c","mpack-expect.c"],
 [("write","mpack-writer.c:mpack_write_timestamp"),("read","mpack-reader.c:mpack_read_timestamp"),("node","mpack-node.c:mpack_node_timestamp")],
 ["bytes written","timestamp returned","error state"])

prop("C23", "Expected keys and enumerations match exactly and reject repeats",
 "Matching a map key or string value against a list of candidates returns the index of the candidate that equals it, and the count when none does; a key seen twice is flagged invalid, unknown keys leave the caller able to discard the value, and string, tag, literal-byte and nil/boolean matches succeed exactly on equality.",
 ["inputs","histories"], "all key contents in the bound, all candidate lists in the bound, all found-flag states",
 "The match must be exact for all byte strings and all orders of keys, including keys that are prefixes of each other.",
 ["mpack-expect.c"],
 [("key matching","mpack-expect.c:mpack_expect_key_cstr"),("enum","mpack-expect.c:mpack_expect_enum"),("byte matching","mpack-expect.c:mpack_expect_str_buf")],
 ["returned index","found flags","error state"])

prop("C24", "Discarding consumes exactly one complete object",
 "Discarding the next element consumes exactly the bytes of that complete object, including all nested content, for every well-formed object, from memory or from a stream with or without a seek callback, and flags an error for every truncated or malformed one.",
 ["inputs","schedules"], "all byte strings up to the stated length, all chunkings",
 "Off-by-one consumption shows only for particular nestings and sizes.",
 ["mpack-reader.c"],
 [("discard","mpack-reader.c:mpack_discard"),("skip","mpack-reader.c:mpack_skip_bytes")],
 ["bytes remaining","error state"])

prop("C25", "Debug printing and descriptions never overrun and always terminate strings",
 "Describing a tag or pretty-printing arbitrary bytes or a node into a buffer never writes past the given size, always leaves a terminated string when the size is nonzero, and never reads outside the data, whatever the data.",
 ["inputs"], "all byte strings up to the stated length, all buffer sizes in the bound",
 "Truncation points depend on data and buffer size combinations.",
 ["mpack-common.c","mpack-reader.c","mpack-node.c"],
 [("print buffer","mpack-common.c:mpack_print_append"),("describe","mpack-common.c:mpack_tag_debug_describe"),("pseudo-json","mpack-common.c:mpack_tag_debug_pseudo_json")],
 ["output buffer and guard bytes"])

prop("C26", "Declared sizes cannot make the parser allocate beyond data and limits",
 "While parsing hostile data, the memory the tree parser requests for nodes is bounded by the bytes actually received and never by lengths or counts the data merely declares, and the stream buffer never grows beyond the configured maximum message size; the configured limits on message bytes and nodes are enforced exactly, for data in memory and for streams delivered in any way, so a message within both is accepted and one beyond either is reported as too big.",
 ["inputs","configurations","schedules"], "all byte strings in the bound with all 32-bit declared lengths and counts, all limits in the bound",
 "The worst case is over all declared counts; exactness of limits depends on how input arrives.",
 ["mpack-node.c"],
 [("possible-nodes accounting","mpack-node.c:mpack_tree_reserve_bytes"),("limits","mpack-node.c:mpack_tree_parse_children"),("stream limit","mpack-node.c:mpack_tree_reserve_fill")],
 ["bytes requested from the allocator","error state"])

prop("C27", "Build configurations do not change observable behaviour",
 "Size-optimised builds, builds without compiler builtins or the standard library, builds with debug checks and tracking, and builds without floating point parse, expect and write every value identically to the default build wherever the feature exists in both.",
 ["configurations","inputs"], "all values and headers under each listed configuration",
 "Each configuration compiles different code for the same contract; the suite samples values in each.",
 ["mpack-reader.c","mpack-writer.c","mpack-node.c","mpack-common.h","mpack-platform.h"],
 [("size-optimised paths","mpack-reader.c:mpack_parse_tag"),("configuration macros","mpack-platform.h")],
 ["results in each configuration"])

prop("C28", "Byte-order and memory primitives do what their names say",
 "For every value and address alignment the byte-order loads and stores are exact inverses and big-endian, and the library's own substitutes for the standard memory and string functions behave as the C standard specifies, including overlapping moves.",
 ["inputs","configurations"], "all values, all small sizes, offsets and overlaps, all contents",
 "Overlap directions and all values are universal; only exercised indirectly by tests.",
 ["mpack-platform.c","mpack-common.h"],
 [("loads/stores","mpack-common.h:mpack_load_u16"),("memory functions","mpack-platform.c:mpack_memmove")],
 ["memory contents and return values"])

prop("C29", "File readers and writers report every I/O failure and lose no data",
 "Reading from or writing to a file yields the same elements or bytes as in memory when every operation succeeds; if an open, a write, a close, or a read or seek the data depends on fails, or the file is shorter than required, the final error reported is nonzero (a stream that cannot seek may be read through instead), and the file is closed exactly once when the library owns it.",
 ["fault_sequences","inputs","schedules"], "every pattern of short reads, failing writes, seeks and closes within the bound, all file contents in the bound",
 "Tests fail one call at a time for given documents; the product of failure points and contents is not covered.",
 ["mpack-reader.c","mpack-writer.c","mpack-node.c"],
 [("file fill/skip/teardown","mpack-reader.c:mpack_file_reader_fill"),("file flush","mpack-writer.c:mpack_file_writer_flush"),("file tree","mpack-node.c:mpack_file_tree_read")],
 ["error state","bytes read/written","close calls"])

prop("C30", "Allocating extractors respect the caller's limits and return exact copies",
 "Functions that allocate storage for a string, binary, array or whole map/array of a given element size return exactly the requested content or room for the declared element count, never ask the allocator for more than the caller's maximum, cannot be made to overflow by any declared length, and return nothing with an error otherwise.",
 ["inputs","fault_sequences"], "all declared 32-bit lengths, all maximums, all element sizes in the bound, contents in the bound, allocation failure",
 "Overflow arises only at particular huge lengths that tests cannot allocate.",
 ["mpack-expect.c","mpack-expect.h","mpack-reader.c","mpack-node.c"],
 [("expect alloc","mpack-expect.c:mpack_expect_cstr_alloc"),("node alloc","mpack-node.c:mpack_node_cstr_alloc"),("array alloc","mpack-expect.c:mpack_expect_array_alloc_impl")],
 ["allocator requests","returned data","error state"])

prop("C31", "Without hardware doubles, shortening a double equals IEEE conversion",
 "In builds without double support, converting an encoded double to a float gives a finite, infinite, zero or NaN result of the same class and sign, equal to the IEEE-754 value truncated toward zero in its significand for normal results, for every bit pattern.",
 ["inputs","configurations"], "all 2^64 double bit patterns",
 "Exhaustive bit-level claim over 2^64 patterns.",
 ["mpack-common.h"],
 [("raw double shortening","mpack-common.h:mpack_shorten_raw_double_to_float")],
 ["returned float"])

prop("C32", "Chained extraction from untrusted data never crashes the application",
 "An application that parses untrusted bytes into a tree and then navigates it with any chain of accessors, without checking errors in between, never causes an invalid access: a failing step yields a nil or missing node whose accessors return safe defaults, and the error is visible at the end.",
 ["inputs","programs"], "all byte strings in the bound, all chains of accessors of the stated length with all arguments",
 "The combination of message shape, accessor chain and arguments is unbounded; tests use chains fitting their data.",
 ["mpack-node.c","mpack-node.h"],
 [("nil node on error","mpack-node.h:mpack_tree_nil_node"),("bounds checks","mpack-node.c:mpack_node_array_at")],
 ["memory accesses","returned values","error state"])

prop("C33", "Concurrent use of separate or shared parsed trees is safe",
 "Separate readers, writers and trees share no mutable state, so different threads may use different objects concurrently, and several threads may call non-failing accessors on one parsed tree at the same time with the same results as one thread.",
 ["schedules","programs"], "all interleavings of accessors on one tree or on separate objects",
 "The suite is single-threaded.",
 ["mpack-node.c","mpack-common.c"],
 [("immutable tree after parse","mpack-node.c")],
 ["data races"])

prop("C34", "Nesting depth cannot exhaust the machine stack",
 "Parsing, discarding or printing arbitrarily deeply nested data uses a bounded amount of machine stack, or stops with an error, for data of any size.",
 ["inputs"], "all nesting depths",
 "Tests nest a few thousand levels at most on a large stack.",
 ["mpack-reader.c","mpack-node.c"],
 [("explicit parse stack","mpack-node.c:mpack_tree_push_stack")],
 ["stack usage"])

prop("C35", "The C++ overloads and exception-based use match the C behaviour",
 "In C++ the overloaded write functions select the encoding of the argument's type exactly as the corresponding named function, and throwing out of an error handler leaves the object destroyable without leaks.",
 ["inputs","programs"], "all overloads and values",
 "The C++ tests call few overloads with few values.",
 ["mpack-writer.h"],
 [("overloads","mpack-writer.h:mpack_write")],
 ["bytes written"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
