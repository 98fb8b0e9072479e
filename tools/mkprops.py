#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="include/sdsl/"
p("C01","An integer vector behaves as a plain sequence of w-bit numbers",
 "After any sequence of operations (element and bit-range writes, reference increments and decrements, resizing, width change, bitwise combination, copy, move, swap, iterator writes, comparison) an int_vector of any width 1..64 has exactly the size, width and element values a plain array of numbers modulo 2^w would have, and no operation changes an element it does not address. Comparison operators, iterators (arithmetic, ordering, distance) and stream output agree with that array.",
 ["histories","inputs"],"every operation history up to a depth, for fixed and run-time widths 1..64 and sizes that straddle 64-bit word boundaries",
 "int_vector_test applies each operation once to a few random vectors; it does not compose operations or cross every (width, word offset) pair with neighbours checked.",
 [I+"int_vector.hpp",I+"memory_management.hpp",I+"bits.hpp",I+"util.hpp"],
 [("packed access through read_int/write_int",I+"bits.hpp"),("resize keeps the padding word zero",I+"memory_management.hpp memory_manager::resize"),("proxy reference/iterator",I+"int_vector.hpp")],
 ["operator[], iterators, get_int/set_int, ==,<, data()"])
p("C02","Word-level bit primitives equal their definitions",
 "For every 64-bit word and every admissible argument, the population count, select, lowest/highest bit, reversal, pattern-map (10, 01, 11), Fibonacci scan, unaligned read/write and unary-read primitives return what their bit-by-bit definition gives, and writes touch only the addressed bits.",
 ["inputs"],"all words of an exhaustive structured family (all 16-bit blocks at every shift, all words with at most 4 runs), all offsets 0..63 and lengths",
 "bits_test compares against the naive definition on random 64-bit words only.",
 [I+"bits.hpp","lib/bits.cpp"],[("broadword algorithms and lookup tables","lib/bits.cpp, "+I+"bits.hpp")],["sdsl::bits::*"])
p("C03","Rank structures count exactly for every pattern",
 "For every bit vector and every position 0..size, each rank support (plain, 5%, scan; patterns 0,1,00,01,10,11) returns the number of pattern occurrences ending before that position, also when the vector is empty, ends inside a block, or the support is re-bound to an equal vector by copy, swap or load.",
 ["inputs"],"all bit vectors up to a length plus all window patterns at each block/superblock boundary of the layouts over several background fills",
 "rank_support_test samples fixed crafted and random vectors; block-boundary windows are not enumerated.",
 [I+"rank_support_v.hpp",I+"rank_support_v5.hpp",I+"rank_support_scan.hpp",I+"rank_support.hpp"],
 [("absolute+relative counters per superblock",I+"rank_support_v.hpp"),("pattern traits with carry over words",I+"rank_support.hpp")],["rank(i)"])
p("C04","Select structures return the position of the i-th match",
 "For every bit vector and every i between 1 and the number of matches, each select support (mcl, scan; patterns 0,1,00,01,10,11) returns the position of the last bit of the i-th pattern occurrence, so that rank and select are inverse on all matches.",
 ["inputs"],"all bit vectors up to a length plus boundary families that force long, short and mixed superblocks of 4096 arguments",
 "select_support_test uses fixed vectors; the long/mini superblock switch and partially filled last superblock are hit by few inputs.",
 [I+"select_support_mcl.hpp",I+"select_support_scan.hpp",I+"select_support.hpp"],
 [("long superblock / mini block arrays chosen by superblock span",I+"select_support_mcl.hpp")],["select(i)"])
p("C05","Compressed bit vectors are indistinguishable from the plain bit vector",
 "For every bit vector, each compressed representation (interleaved, RRR with every block size, Elias-Fano sd_vector, hybrid) returns the same size, bit at every index, every 1..64-bit integer read, rank for 0 and 1 at every position 0..size and select for 0 and 1 for every argument as the plain vector it was built from.",
 ["inputs","configurations"],"all bit vectors up to a length, plus all window patterns over several fills around block and superblock boundaries, for each representation and parameter choice",
 "bit_vector_test and the rank/select tests use two dozen fixed inputs; per-block encodings (each class/offset, each run pattern, each hybrid encoding) are not covered exhaustively.",
 [I+"bit_vector_il.hpp",I+"rrr_vector.hpp",I+"rrr_vector_15.hpp",I+"rrr_helper.hpp",I+"sd_vector.hpp",I+"hyb_vector.hpp"],
 [("block class/offset coding",I+"rrr_vector.hpp, "+I+"rrr_helper.hpp"),("high/low split",I+"sd_vector.hpp"),("per-block encoding choice",I+"hyb_vector.hpp"),("interleaved superblock ranks",I+"bit_vector_il.hpp")],
 ["operator[], get_int, rank, select"])
p("C06","Every way to build an sd_vector yields the same set",
 "Building an sd_vector from a bit vector, from a sorted position range or incrementally through the builder yields equal content for the same set of positions, and reusing, swapping or copying builders keeps independent contents; an unsorted range, a capacity larger than the declared length, and a builder that is not yet full are refused with an exception, after which the builder can be completed as if nothing had happened.",
 ["histories","inputs"],"all strictly increasing position sequences over small universes, sparse universes up to 2^40, and all builder call sequences including illegal ones",
 "sd_vector_test builds three fixed vectors and checks two error cases.",
 [I+"sd_vector.hpp","lib/sd_vector.cpp"],[("builder state: items, last position, high position","lib/sd_vector.cpp sd_vector_builder")],["sd_vector_builder::set, sd_vector ctors, rank/select"])
p("C07","Self-delimiting codes decode to what was encoded",
 "For every sequence of 64-bit integers in a code's domain, encoding then decoding with Elias-delta, Elias-gamma, Fibonacci and comma codes (at any bit offset, through vectors, raw pointers, output iterators and summing decoders) returns the same sequence, consumes exactly the bits the length function predicts and leaves neighbouring bits unchanged.",
 ["inputs"],"all values up to 2^16, all powers of two and neighbours up to 2^64-1, all short sequences over a representative alphabet, all 64 start offsets",
 "coder_test samples random values from offset 0.",
 [I+"coder_elias_delta.hpp",I+"coder_elias_gamma.hpp",I+"coder_fibonacci.hpp",I+"coder_comma.hpp","lib/coder_fibonacci.cpp","lib/coder_elias_delta.cpp","lib/coder_elias_gamma.cpp"],
 [("table driven prefix decoding","lib/coder_*.cpp")],["coder::*::encode/decode/decode_prefix_sum/encoding_length"])
p("C08","Compressed integer vectors return every stored value",
 "For every sequence of 64-bit integers, each compressed integer vector (delta-sampled enc_vector, vlc_vector, dac_vector, dac_vector_dp, every coder and sampling density) has the same length and returns exactly the stored value at every index, through indexing and through iterators, however it was constructed.",
 ["inputs","configurations"],"all sequences up to a length over an alphabet holding each code-length boundary, lengths around sampling boundaries, every coder x density",
 "No unit test constructs vlc_vector or enc_vector directly over chosen sequences; dac_vector_test uses four inputs.",
 [I+"enc_vector.hpp",I+"vlc_vector.hpp",I+"dac_vector.hpp"],[("sampled absolute values plus coded differences",I+"enc_vector.hpp"),("pointer samples",I+"vlc_vector.hpp"),("continuation bits with rank",I+"dac_vector.hpp")],["operator[], begin/end, size"])
p("C09","A buffered disk vector equals an in-memory vector",
 "For any history of reads, writes, appends, buffer-size changes, resets, moves, swaps, closes and re-opens, an int_vector_buffer shows the same elements as an array, and after closing the file is exactly the serialized int_vector (or plain array) of those elements, for disk and RAM files and any buffer size.",
 ["histories","configurations"],"all operation histories up to a depth for tiny buffers so that every block switch is reached",
 "int_vector_buffer_test runs long random sequences with large buffers; block switches with pending writes are sampled.",
 [I+"int_vector_buffer.hpp",I+"sfstream.hpp","lib/sfstream.cpp"],[("single dirty block with write-back on switch",I+"int_vector_buffer.hpp")],["operator[], push_back, file bytes"])
p("C10","A memory-mapped vector equals the vector stored in its file",
 "Through an int_vector_mapper every read, write, append, resize, bit resize, assignment and iteration acts as on the int_vector stored in the file, and after the mapper is destroyed the file holds exactly the serialized form of the modified vector; read-only mappings never change the file and temporary mappings remove it.",
 ["histories"],"all operation histories up to a depth over small vectors of fixed and run-time width, plus re-opening",
 "int_vector_mapper_test performs a handful of fixed sequences.",
 [I+"int_vector_mapper.hpp",I+"memory_management.hpp"],[("mmap with header offset, truncate and remap on growth, header rewrite at close",I+"int_vector_mapper.hpp")],["file bytes, operator[]"])
p("C11","RAM files behave like disk files",
 "For any history of opening, writing, seeking, reading, closing, renaming, removing and size queries through the library's file streams and file functions, a file whose name starts with '@' returns the same data, sizes and success or failure as the same history on an ordinary disk file.",
 ["histories"],"all operation histories up to a depth on two file names, executed side by side on RAM and disk",
 "No unit test exercises the RAM file system on its own; in-memory test variants are not run.",
 ["lib/ram_fs.cpp","lib/ram_filebuf.cpp","lib/sfstream.cpp",I+"ram_fs.hpp"],[("vector-backed stream buffer","lib/ram_filebuf.cpp")],["isfstream, osfstream, sdsl::remove/rename, util::file_size"])
p("C12","Serialization round-trips and reports exact sizes",
 "For every structure, storing and loading gives an object answering all queries identically to the original (also into a non-empty object and from the middle of a stream holding several objects), consumes exactly the bytes written, re-serializes to the identical bytes, and the returned byte count, size_in_bytes and the structure-tree total all equal the bytes written.",
 ["inputs","configurations"],"every serializable type x all small contents including empty and default-constructed",
 "Unit tests store and load each type once, from its own file, into a fresh object.",
 [I+"io.hpp",I+"structure_tree.hpp","lib/structure_tree.cpp","all serialize/load members"],[("serialize returns written bytes; load mirrors order","all headers")],["serialize, load, size_in_bytes, write_structure"])
p("C13","Copies, moves and swaps are independent and complete",
 "For every structure and content, copy construction, copy assignment, move construction, move assignment and swap (including onto a non-empty target) give an object that answers all queries like the source did, and it keeps doing so after the source is modified or destroyed.",
 ["inputs","histories"],"every type x ordered pairs of small contents x each transfer operation, source destroyed afterwards",
 "Unit tests swap some types once; copies whose supports still point into the source go unnoticed while the source lives.",
 ["all structures with internal support pointers",I+"util.hpp"],[("supports are re-bound with set_vector after transfer",I+"util.hpp swap_support, each copy/move member")],["all query members"])
p("C14","Wavelet trees answer access, rank and select exactly",
 "For every sequence over its alphabet and every prefix it is built from, each wavelet tree (balanced, Huffman, Hu-Tucker, run-length, integer tree, wavelet matrix, GMR, alphabet partitioned) returns the right size, alphabet size, symbol at each index, rank of every symbol (including absent ones) at every position, select of every occurrence, and inverse_select.",
 ["inputs","configurations"],"all sequences up to a length over small dense and sparse alphabets, plus structured longer sequences crossing internal block sizes, for every tree type",
 "wt_byte_test/wt_int_test check a dozen files; degenerate shapes (one symbol, absent symbols between present ones, run boundaries) are sampled.",
 [I+"wt_pc.hpp",I+"wt_huff.hpp",I+"wt_hutu.hpp",I+"wt_blcd.hpp",I+"wt_rlmn.hpp",I+"wt_int.hpp",I+"wm_int.hpp",I+"wt_gmr.hpp",I+"wt_ap.hpp",I+"wt_helper.hpp","lib/wt_helper.cpp"],
 [("one bit vector with per-node rank offsets",I+"wt_pc.hpp, "+I+"wt_int.hpp")],["operator[], rank, select, inverse_select"])
p("C15","Wavelet tree range queries equal brute force",
 "For every sequence, index range and symbol argument, the range operations (interval_symbols, lex_count, lex_smaller_count, two-dimensional range search, quantile, symbol predecessor and successor, unique values in a range, range intersection, node expansion and traversal) return exactly what direct inspection of the sequence gives.",
 ["inputs"],"all sequences up to a length x all ranges x all symbols, for every tree type that offers the operation",
 "Tests check a few random ranges per file; absent symbols, empty ranges and thresholds are sampled.",
 [I+"wt_algorithm.hpp",I+"wt_pc.hpp",I+"wt_int.hpp",I+"wm_int.hpp",I+"wt_gmr.hpp",I+"wt_ap.hpp",I+"wt_rlmn.hpp",I+"wt_helper.hpp"],[("range mapping through node ranks",I+"wt_algorithm.hpp")],["interval_symbols, lex_count, range_search_2d, quantile_freq, intersect, ..."])
p("C16","Suffix array, BWT, inverse and LCP construction are correct for all texts",
 "For every text without zero symbols, byte or integer alphabet, every construction algorithm produces the sorted suffix order of the text with a terminating zero, the matching Burrows-Wheeler transform and inverse, and all LCP construction algorithms produce the exact lengths of common prefixes of adjacent suffixes.",
 ["inputs","configurations"],"all texts up to a length over alphabets of size 1..4 with different symbol codes, plus structured periodic/Fibonacci texts, for every algorithm",
 "sa_construct_test and lcp_construct_test use a handful of files and mostly compare algorithms with each other.",
 [I+"construct_sa.hpp",I+"construct_sa_se.hpp","lib/construct_sa_se.cpp",I+"qsufsort.hpp",I+"construct_bwt.hpp",I+"construct_isa.hpp","lib/construct_isa.cpp",I+"construct_lcp.hpp","lib/construct_lcp.cpp","lib/construct_lcp_helper.cpp"],
 [("semi-external SAIS, qsufsort, Kasai/PHI/Go/BWT-based LCP","lib/construct_lcp.cpp, "+I+"construct_sa_se.hpp")],["cache files sa, isa, bwt, lcp"])
p("C17","Compressed suffix arrays give the exact SA, ISA, psi, LF, BWT and text",
 "For every text, every compressed suffix array type, sampling strategy, density and alphabet strategy returns exactly the suffix array, its inverse, psi, LF, the BWT, first-column symbols, text, and rank and select on the BWT for every index, with a consistent symbol mapping and cumulative counts.",
 ["inputs","configurations"],"all texts up to a length over small alphabets plus structured texts, x every CSA type and sampling configuration",
 "csa tests run a few files over 17 configurations; sampling boundaries with n smaller than the density are sampled only.",
 [I+"csa_wt.hpp",I+"csa_sada.hpp",I+"csa_bitcompressed.hpp",I+"csa_sampling_strategy.hpp",I+"csa_alphabet_strategy.hpp",I+"suffix_array_helper.hpp","lib/csa_alphabet_strategy.cpp",I+"inv_perm_support.hpp"],
 [("sampled SA/ISA walk by LF/psi",I+"csa_sampling_strategy.hpp, "+I+"suffix_array_helper.hpp")],["operator[], isa, psi, lf, bwt, text, rank_bwt, select_bwt, C, comp2char"])
p("C18","Pattern search finds exactly the occurrences",
 "For every text and pattern, counting, locating, forward, backward and bidirectional search and substring extraction on every compressed suffix array and suffix tree return exactly the occurrences and substrings that scanning the text yields, including patterns that are empty, absent, longer than the text, or contain symbols not in the text.",
 ["inputs"],"all texts up to a length x all patterns up to a length over the text alphabet plus an absent symbol",
 "The tests search a few patterns drawn from the text itself.",
 [I+"suffix_array_algorithm.hpp",I+"suffix_tree_algorithm.hpp",I+"csa_sada.hpp",I+"csa_wt.hpp"],[("backward search over rank_bwt intervals",I+"suffix_array_algorithm.hpp")],["count, locate, extract, backward_search, forward_search, bidirectional_search"])
p("C19","Every LCP representation returns the LCP array",
 "For every text, each LCP representation (bit-compressed, byte, dac, vlc, wavelet tree, Sadakane, tree, tree2), stand-alone or inside a suffix tree, returns for every index the exact longest common prefix of the adjacent suffixes and iterates over the same values.",
 ["inputs","configurations"],"all texts up to a length over small alphabets, plus texts with LCP values around 255 and code boundaries",
 "cst tests use each LCP type on a few files; values >= 255 and ties between escaped entries are barely hit.",
 [I+"lcp_byte.hpp",I+"lcp_bitcompressed.hpp",I+"lcp_dac.hpp",I+"lcp_vlc.hpp",I+"lcp_wt.hpp",I+"lcp_support_sada.hpp",I+"lcp_support_tree.hpp",I+"lcp_support_tree2.hpp","lib/lcp_support_tree.cpp"],[("escape table for large values",I+"lcp_byte.hpp"),("values at first leaf in subtree",I+"lcp_support_tree.hpp")],["operator[], begin/end"])
p("C20","Suffix tree navigation equals the real suffix tree",
 "For every text, each compressed suffix tree has exactly the nodes of the suffix tree of the text, and on every node or pair of nodes the operations (root, leaf, size, depth, node depth, parent, children, child by symbol, k-th child, sibling, lca, suffix link, Weiner link, edge symbols, leaf selection, bounds, rank, id, inverse id, degree, ancestor test, string number) give what that tree defines.",
 ["inputs","configurations"],"all texts up to a length over small alphabets plus structured texts, all nodes, all node pairs, for each tree type",
 "cst tests visit nodes of a few files and compare operations with one another rather than with an independent tree.",
 [I+"cst_sct3.hpp",I+"cst_sada.hpp",I+"cst_fully.hpp",I+"suffix_tree_helper.hpp",I+"suffix_tree_algorithm.hpp"],[("balanced parentheses over the LCP array",I+"cst_sct3.hpp, "+I+"cst_sada.hpp")],["cst members"])
p("C21","Suffix tree iterators visit every node once in the right order",
 "For every text, depth-first iteration (first and second visits, with subtree skipping), bottom-up and breadth-first iteration and child iteration over a suffix tree visit exactly the nodes of the tree, each the documented number of times and in the documented order.",
 ["inputs","histories"],"all texts up to a length, full traversals and all choices of one skipped subtree",
 "Tests compare iterators on a few files and never skip subtrees systematically.",
 [I+"cst_iterators.hpp",I+"suffix_tree_helper.hpp",I+"suffix_tree_algorithm.hpp"],[("state in (node, visited) pairs",I+"cst_iterators.hpp")],["begin/end, begin_bottom_up, cst_bfs_iterator, children"])
p("C22","Balanced parentheses queries equal their definitions",
 "For every balanced parentheses sequence, each support structure answers excess, rank, select, matching open and close, enclosing pair, double enclosing pair, restricted range enclose, level ancestor and range-minimum-excess queries for every admissible argument exactly as defined, returning size() where no answer exists.",
 ["inputs","configurations"],"all balanced sequences up to a length, and long nested/flat/comb/zigzag sequences across block boundaries with all small insertions, x every support and block size",
 "No unit test targets the bp supports directly; they are only exercised inside suffix trees and RMQ structures.",
 [I+"bp_support_sada.hpp",I+"bp_support_g.hpp",I+"bp_support_gg.hpp",I+"bp_support_algorithm.hpp","lib/bp_support_algorithm.cpp"],[("min/max excess trees and pioneers",I+"bp_support_sada.hpp, "+I+"bp_support_g.hpp")],["find_close, find_open, enclose, double_enclose, rr_enclose, excess, rank, select, level_anc, rmq"])
p("C23","Range minimum/maximum queries return the extremum position",
 "For every array of integers and every pair l <= r, each RMQ structure (Sadakane, SCT, sparse table; minimum and maximum) returns an index in [l,r] whose value is the extremum, and among equal extrema always the documented side (leftmost for minimum), and works after the array is gone where it is self-contained.",
 ["inputs"],"all arrays up to a length over small value sets (all relative orders), plus structured long arrays across block boundaries, all pairs",
 "rmq_test uses random ranges on fixed arrays.",
 [I+"rmq_succinct_sada.hpp",I+"rmq_succinct_sct.hpp",I+"rmq_support_sparse_table.hpp"],[("Cartesian tree in balanced parentheses",I+"rmq_succinct_sct.hpp")],["operator()(l,r)"])
p("C24","k2-treap queries return exactly the points in the rectangle",
 "For every set of weighted points, a k2-treap has their number, and its top-k, weight-restricted range and count queries over any rectangle return exactly the matching points, with top-k in non-increasing weight order, whichever way it was constructed.",
 ["inputs"],"all weighted point sets up to a size on small grids and sparse far coordinates x all rectangles, k and configurations",
 "k2_treap_test samples random rectangles over generated files.",
 [I+"k2_treap.hpp",I+"k2_treap_algorithm.hpp",I+"k2_treap_helper.hpp"],[("level-wise construction and heap-ordered traversal",I+"k2_treap.hpp")],["count, top_k, range_3, size"])
p("C25","k2-tree relations equal the adjacency matrix",
 "For every binary relation, a k2-tree built from a matrix or an edge list (from memory or file) answers adjacency, neighbour, reverse neighbour and range queries exactly as the adjacency matrix does, and two trees over equally many nodes compare equal exactly if the relations are equal.",
 ["inputs"],"all matrices up to 4x4, sparse relations around powers of k, shaped relations, k in 2..16, 4 ways of construction",
 "k2_tree_test uses fixed small matrices.",
 [I+"k2_tree.hpp",I+"k2_tree_helper.hpp"],[("T/L bitmaps with rank",I+"k2_tree.hpp")],["adj, neigh, reverse_neigh, reach, unite, intersect, subtract"])
p("C26","Inverse permutation support inverts every permutation",
 "For every permutation and every shortcut distance the support returns the position of every value, also after copy, move, swap and load, and through iterators.",
 ["inputs"],"all permutations up to length 8, all cycle structures up to a larger length, several shortcut distances",
 "inv_perm_support_test uses random permutations.",
 [I+"inv_perm_support.hpp"],[("back pointers every s steps on cycles",I+"inv_perm_support.hpp")],["operator[]"])
p("C27","Neighbour dictionaries return exact predecessors, successors, ranks",
 "For every set, the static dictionary returns exact rank, select, predecessor and successor, and for every history of insertions and removals the dynamic dictionary reports exactly the current set through membership, next and previous queries.",
 ["inputs","histories"],"all subsets of small universes for the static one; all insert/erase histories up to a depth over positions in different tree levels for the dynamic one",
 "nn_dict_dynamic_test runs random sequences; the static dictionary has no test of its own.",
 [I+"nn_dict_dynamic.hpp","lib/nn_dict_dynamic.cpp",I+"nearest_neighbour_dictionary.hpp"],[("64-ary summary tree",I+"nn_dict_dynamic.hpp")],["operator[], next, prev, rank, select"])
p("C28","Succinct sorted stacks behave as stacks",
 "For every history of push, pop and top operations that keeps the content sorted as required, each succinct stack reports the same top, size and emptiness as an ordinary stack.",
 ["histories"],"all legal push/pop histories up to a depth with positions forcing every 63/64-bit block transition",
 "The stack tests run random pushes and pops.",
 [I+"sorted_int_stack.hpp",I+"sorted_stack_support.hpp",I+"sorted_multi_stack_support.hpp"],[("63 values per word with far-jump markers",I+"sorted_stack_support.hpp")],["push, pop, top, size, empty"])
p("C29","LOUDS trees represent the input tree",
 "For every ordered tree, the LOUDS representation has its number of nodes and gives for every node the correct parent, degree, children, leaf test and a unique dense identifier.",
 ["inputs"],"all ordered trees up to a number of nodes",
 "No unit test covers louds_tree.",
 [I+"louds_tree.hpp","lib/louds_tree.cpp"],[("level-order unary degree sequence",I+"louds_tree.hpp")],["parent, child, degree, is_leaf, id"])
p("C30","Wide integer arithmetic equals modular arithmetic",
 "128-bit and 256-bit unsigned integers follow arithmetic modulo 2^128 and 2^256 for every operator (addition, subtraction, multiplication, shifts, bitwise operations, comparisons, compound forms), and their popcount, select and highest bit equal the definition.",
 ["inputs"],"all pairs over a boundary set closed under carries, all shift amounts",
 "No unit test covers these types directly.",
 [I+"uint128_t.hpp",I+"uint256_t.hpp","lib/uint128_t.cpp","lib/uint256_t.cpp"],[("carry propagation between limbs",I+"uint256_t.hpp")],["operators"])
p("C31","Construction depends only on the input and cleans up after itself",
 "Constructing a structure from a file, from memory, from RAM or disk, with any byte width of the input, with or without previously cached intermediate files, in any directory, gives the same structure; with deletion enabled no temporary file remains and no unrelated file is touched, and with deletion disabled the registered files exist and hold the named intermediate result.",
 ["configurations","histories"],"all combinations of source kind, byte width, cache state and deletion flag for small texts and each index family; all sequences of two constructions sharing a cache",
 "Tests construct each index in one configuration and never list the directory afterwards.",
 [I+"construct.hpp",I+"io.hpp","lib/io.cpp",I+"config.hpp","lib/config.cpp"],[("cache_config file map",I+"construct.hpp")],["construct, construct_im, cache files"])
p("C32","A store that reports success has stored everything",
 "When writing an object to a file reports success the file holds the complete serialized object; if any write or flush to the device fails, wherever it fails, storing reports failure instead of success.",
 ["fault_sequences","crash_points"],"every write call of the store as the failing point (error, short write, full device) for each store function and several object types",
 "No test injects I/O errors.",
 [I+"io.hpp","lib/io.cpp","lib/sfstream.cpp"],[("stream state after close",I+"io.hpp store_to_file")],["store_to_file, store_to_checked_file, store_to_cache, store_to_plain_array"])
p("C33","The huge-page allocator never overlaps or loses live memory",
 "For every history of allocate, reallocate and free, live blocks returned by the huge-page allocator are disjoint, inside the arena, aligned, at least as large as requested and keep their content, reallocation preserves the common prefix, freed memory becomes reusable, and exhaustion is reported by an exception that leaves the allocator usable.",
 ["histories"],"all histories up to a depth over size classes chosen around the split threshold, in a small arena so that exhaustion is reached",
 "No test can use it (needs huge pages); no test at all.",
 ["lib/memory_management.cpp",I+"memory_management.hpp"],[("boundary tags, split and coalesce, free multimap","lib/memory_management.cpp")],["mm_alloc, mm_realloc, mm_free"],None,None)
p("C34","Memory accounting follows live library memory",
 "While tracking is on, the recorded usage is the sum of the bytes of all live vectors created since tracking started, the peak is the maximum of that sum at recorded points, events nest and are all reported, and concurrent allocations from several threads lose no update.",
 ["histories","schedules"],"all histories up to a depth of create, resize, destroy, event begin/end; all interleavings of two or three threads up to a preemption bound",
 "No test covers memory_monitor.",
 [I+"memory_management.hpp","lib/memory_management.cpp"],[("delta recording under a spin lock",I+"memory_management.hpp memory_monitor::record")],["memory_monitor::peak, write_memory_log"])
p("C35","Shared services are linearizable under concurrency",
 "When several threads use the library on distinct objects at the same time, process-unique identifiers are never handed out twice, RAM-file operations on different or equal names take effect atomically, and indexes constructed concurrently equal the ones constructed alone.",
 ["schedules"],"all interleavings up to a preemption bound of two or three threads doing identifier, RAM-file and construction calls",
 "All tests are single threaded.",
 ["lib/ram_fs.cpp","lib/util.cpp",I+"util.hpp","lib/config.cpp",I+"construct.hpp"],[("recursive lock around the RAM file map","lib/ram_fs.cpp"),("id counter",I+"util.hpp")],["util::id, tmp_file, ram_fs, construct_im"])
p("C36","Queries are pure: results do not depend on other queries",
 "Answering a query on a constructed structure never changes the answer of any other query, whether issued before, after or concurrently from another thread, and queries on a shared constant structure are free of data races.",
 ["schedules","histories"],"all ordered pairs of queries, and all interleavings up to a preemption bound of two query threads on one shared object",
 "Tests issue one query at a time from one thread and never compare against a fresh object.",
 [I+"csa_sada.hpp",I+"wt_pc.hpp",I+"bp_support_sada.hpp",I+"select_support_mcl.hpp"],[("const members without hidden state, except decode buffers",I+"csa_sada.hpp m_psi_buf")],["all const members"])
p("C37","Invalid inputs are refused, valid ones accepted",
 "Text containing the reserved zero symbol, byte files whose length is not a multiple of the symbol width, missing files, and type-checked files written by another type are refused by the documented exception or false result, leaving the target usable; everything valid is accepted.",
 ["inputs"],"all short texts with and without zero symbols at each position and width, all file lengths 0..16 per width, all ordered pairs of stored and loading types",
 "Tests never feed invalid input except two sd_vector cases.",
 [I+"construct.hpp",I+"io.hpp","lib/io.cpp",I+"int_vector_mapper.hpp"],[("contains_no_zero_symbol, size check, type hash",I+"construct.hpp, "+I+"io.hpp")],["construct, load_vector_from_file, load_from_checked_file"])
p("C38","Wavelet tree shapes are optimal codes",
 "The Huffman-shaped tree has minimal total code length for the symbol frequencies, the Hu-Tucker-shaped tree has minimal total code length among order-preserving codes, the balanced tree has depth ceil(log2 sigma) at most, and all codes are prefix-free with order preserved where the tree is declared lexicographically ordered.",
 ["inputs"],"all frequency vectors over up to 7 symbols with small frequencies plus Fibonacci-like skewed ones, against exhaustive optimal-code computation",
 "Tests never look at the code lengths.",
 [I+"wt_huff.hpp",I+"wt_hutu.hpp",I+"wt_blcd.hpp",I+"wt_helper.hpp"],[("code tree construction from frequencies",I+"wt_huff.hpp, "+I+"wt_hutu.hpp")],["path(c), is_leaf, expand"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
