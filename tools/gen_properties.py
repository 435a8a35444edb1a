#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

p("C01", "A bit vector holds exactly the bits its builder or source range was given",
  "For every sequence of builder operations (sized construction with either fill value, reserve, appending single bits, words, zero/one runs or another builder, overwriting bits and fields, reversing, swapping) the bit vector built from it has exactly the size and bits that the operations describe. The same holds for construction from any range of truthy values. Every read (single bit, field of 0 to 64 bits, 64-bit word padded with zeros past the end, fast 56-bit word) returns exactly those bits.",
  ["inputs", "histories"], "all interleavings of builder operations, all sizes and alignments, all read positions and lengths",
  "test_bit_vector.cpp runs one random vector, one list of 15 integers and five reverse sizes with srand(42); append, zero_extend, one_extend, reserve, swap, init=true, get_word, get_word56 and 64-bit fields at unaligned positions are never exercised, nor are operations combined.",
  ["bit_vector.hpp", "broadword.hpp", "mappable_vector.hpp"],
  [("bit_vector_builder word packing and padding discipline", "bit_vector.hpp bit_vector_builder"), ("bit_vector readers", "bit_vector.hpp bit_vector::operator[], get_bits, get_word, get_word56")],
  ["bit_vector::size, operator[], get_bits, get_word, get_word56 after construction"],
  [dict(name="m_cur_word", meaning="cached pointer to the last, partially filled word", where="bit_vector.hpp bit_vector_builder")])
p("C02", "Predecessor and successor of zeros and ones are the nearest such bits",
  "For every bit vector and position, the predecessor (successor) of a zero or one is the largest (smallest) position at or before (at or after) it holding that bit, whenever such a position exists.",
  ["inputs"], "all bit vectors and all positions for which an answer exists, however many words away it lies",
  "the tests only look at one uniform vector and three sparse ones of 10000 bits, so most answers lie in the same or the next word.",
  ["bit_vector.hpp", "broadword.hpp"], [("word scan", "bit_vector.hpp predecessor0/successor0/predecessor1/successor1"), ("msb/lsb", "broadword.hpp")], ["bit_vector::predecessor0/1, successor0/1"])
p("C03", "Bit and unary enumerators agree with the bits under any mix of operations",
  "An enumerator started at any position and driven by any mix of single-bit reads, multi-bit reads of 0 to 64 bits and zero-run skips returns the bits of the vector in order and reports the right position. A unary enumerator started at any position returns the ones at or after it in increasing order under any mix of next, skip to the k-th one, look ahead to the k-th one and skip to the k-th zero, where a one already returned counts as cleared. Copies continue independently.",
  ["inputs", "histories"], "all vectors, start positions and sequences of operations that stay inside the vector",
  "the tests call next() once after each construction, never take() or skip_zeros() on a bit enumerator, and skip0 only on a fresh enumerator.",
  ["bit_vector.hpp"], [("buffered reads", "bit_vector.hpp bit_vector::enumerator"), ("word-at-a-time scan", "bit_vector.hpp bit_vector::unary_enumerator")], ["enumerator::next/take/skip_zeros/position", "unary_enumerator::next/skip/skip_no_move/skip0/position"],
  [dict(name="m_buf/m_avail", meaning="buffered bits not yet consumed", where="bit_vector.hpp enumerator")])
p("C04", "Rank and select over bit vectors are exact, with or without select hints",
  "For every bit vector and every choice of select hints, rank of ones and zeros at every position up to and including the size is the exact count of such bits before it, select of the n-th one or zero is its exact position for every n in range, and the totals of ones and zeros are exact. Hints never change an answer.",
  ["inputs", "configurations"], "all vectors, including lengths beyond 2^32 bits, all positions and ranks, the four hint configurations",
  "the tests use three 10000-bit vectors; at most ten hint entries exist and positions never exceed 2^14.",
  ["rs_bit_vector.hpp", "rs_bit_vector.cpp", "broadword.hpp", "tables.hpp"], [("two-level rank directory", "rs_bit_vector.cpp build_indices"), ("broadword select in block", "rs_bit_vector.hpp select/select0"), ("hint tables", "rs_bit_vector.cpp build_indices")],
  ["rs_bit_vector::rank/rank0/select/select0/num_ones/num_zeros"])
p("C05", "Select directories return the position of the k-th one or zero",
  "A select directory built over a bit vector returns, for every k below its number of positions, the exact position of the k-th one (or k-th zero), for dense, sparse and mixed vectors of any size; its number of positions is the exact count. The directory that is filled while bits are appended, with at most 63 zeros before each one, holds the appended bits and answers the same way.",
  ["inputs"], "all vectors, including spacings on both sides of the dense/sparse threshold and positions beyond 2^32, all k",
  "test_darray.cpp has five vectors, only one of which reaches the sparse path; the appendable directory has no test of its own.",
  ["darray.hpp", "darray64.hpp"], [("dense/overflow block inventory", "darray.hpp flush_cur_block"), ("16-bit sub-block offsets", "darray.hpp, darray64.hpp")], ["darray0/darray1::select, num_positions", "darray64::select, num_ones, bits"])
p("C06", "Elias-Fano sequences answer access, select, rank, gaps and neighbours exactly",
  "For every non-decreasing sequence over every universe up to 64-bit values, or every set given as a bit vector, the Elias-Fano structure returns every element by index, every gap to the previous element, every consecutive pair and the exact element count and universe size. With its rank index it returns, for every position, whether the position is in the sequence, how many elements lie before it, and the nearest element at or before and at or after it.",
  ["inputs"], "all monotone sequences (with repetitions), all universe/length ratios, all indices and positions",
  "test_elias_fano.cpp covers universe 10000 with low parts of at most 7 bits (13 for one singleton), no repetitions and no sequence built by the incremental builder.",
  ["elias_fano.hpp", "darray.hpp", "bit_vector.hpp"], [("high/low split", "elias_fano.hpp elias_fano_builder"), ("bucket scan", "elias_fano.hpp rank/operator[]"), ("carry in gaps", "elias_fano.hpp delta")], ["elias_fano::select/rank/operator[]/delta/select_range/predecessor1/successor1/num_ones/size"])
p("C07", "Elias-Fano enumeration from any index equals select",
  "For every Elias-Fano sequence, an enumerator started at any valid index returns the element at that index and then each following element, up to the last, exactly as selecting them one by one would.",
  ["inputs", "histories"], "all sequences, all low-part widths 0..63, all start indices, enumeration to the end",
  "the test starts at index 0 only ('XXX test other starting points') and with low parts of at most 13 bits.",
  ["elias_fano.hpp", "bit_vector.hpp"], [("chunked low bits + unary high bits", "elias_fano.hpp select_enumerator")], ["elias_fano::select_enumerator::next"])
p("C08", "Compressed integer lists return every stored value exactly",
  "The gamma-coded vectors, the Elias-Fano lists (plain and compressed) and the nibble vector built from any range of integers in their domain (up to 2^64-2 for gamma and compressed lists, 2^64-3 for the bit variant, values with a sum below 2^64-1 for the plain list, 0..15 for nibbles), whatever the integer type and container of the range, have the size of the range and return each value by index unchanged; the plain list also returns the sum.",
  ["inputs"], "all value sequences in the domain, all range types, all indices",
  "tests use one sequence of 12345 values below 2^32 per type; elias_fano_list and nibble_vector have no test.",
  ["gamma_vector.hpp", "gamma_bit_vector.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "nibble_vector.hpp", "darray64.hpp"],
  [("gamma code with select directory", "gamma_vector.hpp, gamma_bit_vector.hpp"), ("bit-length prefix sums", "elias_fano_compressed_list.hpp"), ("gaps of prefix sums", "elias_fano_list.hpp")], ["operator[], size, sum of each list"])
p("C09", "Forward enumeration of a list from any index equals random access",
  "A forward enumerator over any of the compressed lists, started at any index (default: the first), returns the value at that index and then every following value in order to the end, whether values are read one by one or skipped.",
  ["inputs", "histories"], "all lists, all start indices, all mixes of next and skip",
  "the tests read exactly one value after each construction, so buffer refills, long runs and skip() are never reached.",
  ["forward_enumerator.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "bit_vector.hpp"], [("paired unary/bit enumerators", "gamma_vector.hpp, gamma_bit_vector.hpp forward_enumerator")], ["forward_enumerator::next/skip"])
p("C10", "Parenthesis matching and enclosing are exact at any distance and depth",
  "For every balanced parenthesis sequence, find_close of an opening and find_open of a closing parenthesis return its match, and enclose of an opening parenthesis that has one returns the opening parenthesis of the tightest enclosing pair.",
  ["inputs"], "all balanced sequences up to 2^31 depth, all positions, matches in the same word, block, superblock or any number of superblocks away",
  "the tests reach at most 13 superblocks and depth 16385, with uniform walks, random binary trees and pure paths only.",
  ["bp_vector.cpp", "bp_vector.hpp"], [("byte tables", "bp_vector.cpp excess_tables"), ("range-min tree search", "bp_vector.cpp search_min_tree"), ("block scan", "bp_vector.cpp find_close_in_block/find_open_in_block")], ["bp_vector::find_close/find_open/enclose"])
p("C11", "Excess and its leftmost range minimum are exact for every range",
  "For every balanced parenthesis sequence, the excess at each position up to the size is the number of opening minus closing parentheses before it, and the excess range-minimum query over any a <= b <= size returns the leftmost position in [a, b] of minimum excess together with that minimum.",
  ["inputs"], "all sequences and all ranges, including ties across words, blocks and superblocks",
  "the tests never query b = size, never check the returned minimum, and their walks rarely have ties across superblocks.",
  ["bp_vector.cpp"], [("word/block/superblock decomposition", "bp_vector.cpp excess_rmq"), ("tree walk", "bp_vector.cpp find_min_superblock")], ["bp_vector::excess, excess_rmq (both overloads)"])
p("C12", "Range-minimum over arrays returns the leftmost extremum of the range",
  "For every array, element type and strict weak order, built from a range or through the incremental builder, the range query over any a <= b returns the index of the leftmost element of [a, b] that is minimal in that order, and the structure reports the array's length.",
  ["inputs", "configurations"], "all arrays, orders and inclusive ranges",
  "tests fix 13 left ends per array and use unsigned values below 1024 or monotone ramps; the incremental builder, other types and orders are not tested.",
  ["cartesian_tree.hpp", "bp_vector.cpp", "rs_bit_vector.hpp"], [("2d-min-heap DFUDS construction", "cartesian_tree.hpp builder"), ("excess RMQ mapping", "cartesian_tree.hpp rmq")], ["cartesian_tree::rmq, size"])
p("C13", "Top-k returns the k largest of a range in order, smallest index first on ties",
  "For every vector and inclusive range, top-k returns min(k, length) (value, index) pairs of that range in decreasing value and, for equal values, increasing index, with the stored values. The enumerator yields the same sequence one at a time over the whole range and then reports exhaustion; it can be reused, copied, swapped and cleared, and random access returns the stored values.",
  ["inputs", "histories"], "all vectors, underlying stores, ranges, k and enumerator histories",
  "tests use k = 10 on 100 random ranges and one store type; k of 0, 1, the whole range, or beyond, and the enumerator interface are not covered.",
  ["topk_vector.hpp", "cartesian_tree.hpp"], [("heap of disjoint sub-ranges", "topk_vector.hpp enumerator::next"), ("tie order", "topk_vector.hpp value_index_comparator")], ["topk_vector::topk, get_topk_enumerator, operator[], size"])
p("C14", "A structure mapped from its frozen bytes answers exactly like the original",
  "For every structure of the library, and for user structures composed of them, freezing to a file or stream and mapping the bytes (from a memory-mapped file or from memory, with or without warm-up, into a fresh or already used object) gives an object that answers every query exactly like the original, without writing to or reading outside the frozen bytes; freezing the mapped object again gives the same bytes.",
  ["inputs", "histories"], "all structure types, contents, hint configurations, nestings, flags and freeze/map/re-freeze chains",
  "test_mapper.cpp maps a 4-element vector and a 2-field struct; none of the real structures is ever frozen or mapped ('XXX test (de)serialization').",
  ["mapper.hpp", "mappable_vector.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "topk_vector.hpp", "cartesian_tree.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp"],
  [("field visitors", "mapper.hpp freeze_visitor/map_visitor"), ("per-structure field lists", "map() member of each structure")], ["every query on the mapped object", "bytes of the frozen file"])
p("C15", "Freeze, map and size reports agree on the bytes, and the bytes are deterministic",
  "The byte count returned by freezing equals the bytes actually written, equals the count returned by mapping them, and exceeds the reported size of the structure by exactly the 8-byte header; structures frozen one after another on a stream can be mapped one after another at those offsets. The size tree's root equals the reported size and every node covers the sum of its children. Equal contents always freeze to equal bytes, whatever was in memory before.",
  ["inputs", "histories"], "all structures (including default-constructed and empty ones), concatenations, sizes beyond 4 GiB, prior memory contents",
  "the only assertion in the tests is that one small struct has size 24.",
  ["mapper.hpp", "bp_vector.hpp", "elias_fano.hpp"], [("written/bytes_read/size counters", "mapper.hpp visitors"), ("member initialisation", "constructors of each structure")], ["mapper::freeze, map, size_of, size_tree_of return values, file contents"])
p("C16", "Files frozen by earlier builds keep mapping to the same data",
  "A file frozen by the pinned version of the library maps in the current version to a structure with the same contents and answers, and the mapping consumes exactly the bytes of the file. The current version freezes the same contents to the same bytes, so that earlier builds can read its files.",
  ["inputs", "histories"], "every structure type, for stored files of several sizes and patterns",
  "a round trip inside one build cannot notice that writer and reader changed together; the tests keep no stored file.",
  ["mapper.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "nibble_vector.hpp"],
  [("field order, widths and index layout", "map() member of each structure and the index builders")], ["answers after mapping stored files"])
p("C17", "Answers and frozen bytes do not depend on build configuration",
  "The library built with intrinsics, with the popcount instruction or with neither, with assertions on or off, by either compiler and at any optimisation level, gives the same answers to every query and freezes the same contents to the same bytes.",
  ["configurations", "inputs"], "the supported option combinations x compilers x optimisation levels x inputs",
  "only the default configuration is ever built and tested; the portable and popcnt code paths are never compiled by the test suite.",
  ["intrinsics.hpp", "broadword.hpp", "succinct_config.hpp.in"], [("conditional implementations", "broadword.hpp popcount/reverse_bytes/msb/lsb/select_in_word, intrinsics.hpp")], ["digests of answers and frozen bytes per configuration"])
p("C18", "Valid use performs no invalid memory access and no undefined operation",
  "Any program that builds structures from valid inputs and makes only in-range calls executes no out-of-bounds, use-after-free, uninitialised or misaligned access and no undefined shift, overflow or conversion inside the library.",
  ["inputs", "histories", "configurations"], "all structures, builders, enumerators and helper functions under valid use",
  "the unit tests run without any sanitizer, and on x86 such errors usually return the right answer by luck.",
  ["bit_vector.hpp", "bp_vector.cpp", "rs_bit_vector.hpp", "darray.hpp", "elias_fano.hpp", "mapper.hpp", "util.hpp", "mappable_vector.hpp"], [("index arithmetic and bounds of each query", "whole library")], ["compiler sanitizers (address, undefined), valgrind memcheck, guard pages around mapped bytes"])
p("C19", "Concurrent read-only queries are race-free and return the sequential answers",
  "Any number of threads may query the same built or mapped structure at the same time, each with its own enumerators, without data races, and every answer equals the one obtained sequentially.",
  ["schedules", "inputs"], "all interleavings of queries of any kind on shared structures, including the first queries made in the process",
  "no test starts a thread.",
  ["bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.cpp", "elias_fano.hpp", "darray.hpp", "topk_vector.hpp"], [("immutability after construction", "const query methods"), ("start-up constant tables", "bp_vector.cpp excess_tables")], ["ThreadSanitizer, answers of each thread against the model"])
p("C20", "Swap, steal, assign, clear and disposal move contents whole and leak nothing",
  "Swapping two structures exchanges all of their observable contents and answers and nothing else, including between owned, mapped, empty and default-constructed objects; contents stay valid after the builder or source range is gone. Assigning or stealing gives a vector exactly the source's elements (also when the source is part of the vector itself), clearing or disposing leaves an empty object whose size is 0, a default-constructed structure has size 0, and all memory is released exactly once.",
  ["histories", "inputs"], "all sequences of construct, swap, steal, assign, clear, map, dispose and destroy over all structure types",
  "tests only swap a freshly built temporary into an object and never look at the other side, at leaks, or at empty objects.",
  ["mappable_vector.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "util.hpp"],
  [("swap members", "each structure"), ("deleter ownership", "mappable_vector.hpp")], ["answers after each step", "live allocation count, address sanitizer"])
p("C21", "A failed allocation leaks nothing and leaves existing objects intact",
  "If any memory allocation made while building, assigning, stealing or querying a structure fails, the failure reaches the caller as an exception, nothing is leaked or corrupted, and every structure that already existed still holds valid contents (its old ones, or none) and can be used, built again and destroyed; a builder or enumerator interrupted by the failure can be destroyed or restarted. The same operation then succeeds when memory is available.",
  ["fault_sequences"], "every allocation index of every construction and assignment",
  "no test injects a failure.",
  ["mappable_vector.hpp", "bit_vector.hpp", "topk_vector.hpp", "cartesian_tree.hpp"], [("ownership hand-over", "mappable_vector.hpp steal/assign/constructor")], ["replaced operator new with a failure schedule, live allocation count"])
p("C22", "A freeze by file name either stores every byte or reports failure",
  "If freezing to a named file returns normally, the file holds exactly the frozen bytes; if the file cannot be opened or any write fails, the caller is told by an exception. Freezing to a caller's stream leaves a failed stream in a failed state.",
  ["fault_sequences", "crash_points"], "unopenable paths, full devices and write limits at any byte",
  "no test makes a write fail.",
  ["mapper.hpp"], [("stream state", "mapper.hpp freeze")], ["return or exception of freeze, file contents"])
p("C23", "Line readers return every line of the input exactly once",
  "For every text without NUL bytes, reading line by line from a stream, through the line iterator, from a memory buffer or from a memory-mapped file yields each line exactly once and in order, whatever its length and whether or not the last line ends in a newline; newline characters are kept or trimmed exactly as the chosen reader and its options say, and opening a missing file throws.",
  ["inputs"], "all texts, line lengths around the 65535-character read buffer, missing final newlines, carriage returns, empty lines and files",
  "the text utilities have no test.",
  ["util.hpp"], [("chunked fgets loop", "util.hpp fast_getline"), ("iterators", "util.hpp line_iterator, buffer_line_iterator, mmap_lines")], ["lines produced against a reference splitter"])
p("C24", "Variable-byte and signed-integer codes round-trip and report their exact length",
  "Encoding any 64-bit value in the variable-byte code appends exactly the announced number of bytes, decoding at that offset returns the value and consumes exactly those bytes, whatever is stored around it. Mapping signed to natural integers is a bijection on all 64-bit values in the order 0, -1, 1, -2, ..., and ceiling division is exact.",
  ["inputs"], "all 64-bit values, all concatenations and offsets",
  "these functions have no test.",
  ["vbyte.hpp", "util.hpp"], [("7-bit groups", "vbyte.hpp"), ("zig-zag mapping", "util.hpp int2nat/nat2int"), ("ceil_div", "util.hpp")], ["append_vbyte, decode_vbyte, vbyte_size, int2nat, nat2int, ceil_div"])
p("C25", "Word-level primitives compute their definitions for every word",
  "For every 64-bit word, population count, byte counts and their sum (where it fits a byte), byte and bit reversal, highest and lowest set bit, position of a single bit, selecting the k-th set bit, same-highest-bit and the byte-wise and field-wise comparisons (signed ones where the difference fits the field) return what their bit-by-bit definitions return, in every build configuration.",
  ["inputs", "configurations"], "all 2^64 words (sampled, with all structured words) and all k, in the intrinsic, popcnt and portable builds",
  "there is no test for the primitives; the containers exercise only words that random data happens to contain.",
  ["broadword.hpp", "tables.hpp", "intrinsics.hpp"], [("broadword arithmetic", "broadword.hpp"), ("select table", "tables.hpp")], ["each primitive against a bit loop"])
p("C26", "Structures stay within their succinct space bounds",
  "The reported (and frozen) size of each structure stays within its design bound for every input: a bit vector takes its bits rounded up to words; rank adds a quarter, select hints at most 1/16 bit per counted bit, parenthesis indexes under a tenth; a select directory takes 8 bytes per 1024 and 2 per 32 positions, and explicit positions only where 1024 of them span 65536 bits or more; Elias-Fano takes the floor of log(universe/length) plus at most 3 bits per element plus its select indexes; gamma and compressed lists take their code lengths plus their select indexes; nibbles take half a byte; the range-minimum structure takes under 3 bits per element.",
  ["inputs"], "all contents and sizes",
  "no test looks at the size of a built structure.",
  ["rs_bit_vector.cpp", "bp_vector.cpp", "darray.hpp", "elias_fano.hpp", "gamma_vector.hpp", "cartesian_tree.hpp"], [("directory densities", "index builders")], ["mapper::size_of against a bound computed from the input"])
p("C27", "Query work does not grow with the size of the structure beyond its logarithm",
  "Rank, select, directory select, Elias-Fano select, compressed-list access, parenthesis matching, excess, excess and array range-minimum, and each top-k step execute a number of program steps bounded by a constant times the logarithm of the structure's size, for every input; sequential enumeration takes constant amortised steps per element, neighbour searches, skips, Elias-Fano gaps and pairs, and access to the plain Elias-Fano list additionally take steps in proportion to the words they pass, and construction takes steps in proportion to its input.",
  ["inputs"], "all contents, sizes up to tens of millions of bits, all arguments",
  "tests compare answers only; a linear scan would pass them all.",
  ["rs_bit_vector.hpp", "darray.hpp", "bp_vector.cpp", "elias_fano.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "gamma_vector.hpp"], [("directories, hints and range-min tree", "query methods")], ["basic blocks executed per query, counted by compiler instrumentation"])

p("C28", "Independent structures can be used from different threads at the same time",
  "Threads that each build, query, freeze, map, measure, swap and destroy structures of their own (and read and decode data of their own) need no synchronisation: there are no data races between them, and each obtains the answers, bytes and sizes it would obtain alone.",
  ["schedules", "inputs"], "all interleavings of work on separate objects, of equal or different kinds and contents",
  "no test starts a thread, and shared scratch state inside builders or tables gives right answers in a single thread.",
  ["bit_vector.hpp", "darray.hpp", "elias_fano.hpp", "cartesian_tree.hpp", "bp_vector.cpp", "topk_vector.hpp", "mapper.hpp", "util.hpp"], [("no shared mutable state", "builders, constructors, mapper visitors, start-up tables")], ["ThreadSanitizer, results of each thread against the same work done alone"])
p("C29", "Queries change nothing and depend only on the contents",
  "Asking a structure any sequence of queries, in any order and interleaved with queries on other structures, leaves its contents, its size and its frozen bytes as they were, and each answer depends only on the contents and the arguments: not on earlier queries, on other objects alive, on which object was at this address before, on how the object came to hold its contents, or on whether it is built or mapped.",
  ["histories", "inputs"], "all histories of queries, rebuilding, mapping, swapping, freezing and measuring over several objects",
  "tests query one fresh object, mostly once per argument and in increasing order; a remembered answer or a query that writes would pass them.",
  ["bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.cpp", "elias_fano.hpp", "darray.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "gamma_vector.hpp", "mapper.hpp"], [("const query methods", "each structure"), ("enumerators hold their own state", "enumerators of each structure"), ("visitors", "mapper.hpp")], ["answers, frozen bytes and sizes compared with those of a fresh object with the same contents"])
p("C30", "Memory taken is the structure itself; mapping and queries need next to none",
  "A built structure keeps allocated no more than about twice its reported size, building takes memory in proportion to its input and result, freezing, measuring, mapping, swapping and disposing take a constant amount whatever the size (a mapped structure is used in place, not copied), queries take at most a small constant plus, for top-k, a constant per requested entry, and no operation needs stack space that grows with the structure.",
  ["inputs"], "all contents and sizes, all operations",
  "no test looks at memory; an index copied on mapping, scratch memory kept, or recursion over the depth of the input passes them all.",
  ["mappable_vector.hpp", "mapper.hpp", "bit_vector.hpp", "bp_vector.cpp", "cartesian_tree.hpp", "topk_vector.hpp", "elias_fano.hpp", "darray.hpp"], [("mapping in place", "mapper.hpp map_visitor"), ("hand-over of the builder's storage", "mappable_vector.hpp steal"), ("explicit stacks", "cartesian_tree.hpp, topk_vector.hpp")], ["bytes allocated per operation, peak and kept, counted by a replaced operator new; a small thread stack"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
