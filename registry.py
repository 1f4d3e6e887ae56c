# What each check builds and explores.  MANIFEST.json is generated from this file (gen_manifest.py).
W = ['-Wno-deprecated-declarations']
VARIANTS = {
    'cxx20':  {'cc': 'g++', 'flags': ['-std=c++20', '-O1', '-DNDEBUG']},
    'cxx17':  {'cc': 'g++', 'flags': ['-std=c++17', '-O1', '-DNDEBUG']},
    'cxx11':  {'cc': 'g++', 'flags': ['-std=c++11', '-O1', '-DNDEBUG']},
    'debug':  {'cc': 'g++', 'flags': ['-std=c++20', '-O1']},
    'nosimd': {'cc': 'g++', 'flags': ['-std=c++20', '-O1', '-DNDEBUG', '-DCXON_USE_SIMD=0']},
    'asan':   {'cc': 'g++', 'flags': ['-std=c++20', '-O1', '-g1', '-DNDEBUG', '-fsanitize=address', '-fno-omit-frame-pointer']},
    'san':    {'cc': 'g++', 'flags': ['-std=c++20', '-O1', '-g1', '-DNDEBUG', '-DSAN', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']},
    'clang':  {'cc': 'clang++', 'flags': ['-std=c++20', '-O1', '-DNDEBUG']},
}
CHECKS = {}
def check(pid, **k): CHECKS[pid] = k

check('C01', jobs=[{'src': 'c01.cxx'}], level='model_checking',
    technique='exhaustive enumeration of texts against an RFC 8259 pushdown automaton and value builder (explicit-state, real reader replayed on every path)',
    level_note='Every text within the bounds is run through the real node reader and compared with the automaton (acceptance, stop position, value). Trusts glibc strtod for decimal conversion and the 500-line reference model.',
    bounds={'quick': 'all byte strings <= 3; all token sequences <= 8 (11 tokens) and <= 5 (20 tokens), each viable prefix extended by every token; all strings of length 4 over a 40-character alphabet, of length 5 over 15; all numbers <= 6 characters over 9; boundary grids for sizes, whitespace runs, nesting < 64, escapes, literals',
            'thorough': 'as quick with token sequences <= 10 / <= 6, alphabet strings <= 6, numbers <= 7, bracket words <= 13'})

check('C02', jobs=[{'src': 'c02.cxx'}, {'src': 'c02.cxx', 'variant': 'nosimd'}], level='model_checking',
    technique='exhaustive enumeration of strings, code points, escapes and positions; the real readers and writers run on each and are compared with a pushdown automaton and an independent transcoder',
    level_note='Every string within the bounds is read into and written from std::string, u8/u16/u32/wstring, string_view, character arrays, character pointers and single characters, SIMD and scalar. The reference is the byte automaton of C01 and a UTF transcoder.',
    bounds={'quick': 'all 1,112,064 code points x (raw, escaped lower/upper case, surrogate pair) x 5 string types; all surrogate escapes alone; all lead bytes x 13 boundary continuations up to length 4 and truncations; every byte after a backslash and at every hex digit; token sequences <= 4 of 21; every length <= 68 x position x 54 special characters; pairs of specials in lengths <= 35; all 2^16 subsets of a 16-byte block; all ASCII strings of length 2, most of length 3',
            'thorough': 'as quick with token sequences <= 5, lengths <= 140 at all offsets, pairs in lengths <= 50, all ASCII strings of length 3'})

check('C03', jobs=[{'src': 'c03.cxx'}], level='model_checking',
    technique='exhaustive enumeration of number texts and of arithmetic values against a number-token automaton, 128-bit integers and correctly rounded glibc conversions; real reader and writer run on each',
    level_note='Every text/value within the bounds, for bool, 10 integer and 3 floating types, read through pointers (lax and strict) and lists. Trusts glibc strtof/strtod/strtold. long double is not read at the edge of a page (libstdc++ 13 std::from_chars over-reads there).',
    bounds={'quick': 'all texts <= 5 over 0129.-+eE and ","; all words <= 4 over 15 letters; integers -70000..70000; +-12 around every type bound, power of 2 and 10, with 8 tails; digit strings <= 130; exponents; exact midpoints; all values of 8/16-bit types written, patterns of wider ones; 3072 mantissas x all float exponents; double bit patterns',
            'thorough': 'as quick with texts <= 6 and all 2^32 float values written and read back'})

check('C05', jobs=[{'src': 'c05.cxx'}], level='model_checking',
    technique='exhaustive enumeration of byte strings and item-token sequences against an RFC 8949 reference decoder; the real node reader runs on each',
    level_note='Every input within the bounds is read by the real reader and compared with the reference decoder (verdict, consumed bytes, value). Not judged: F800..F81F, ill-formed UTF-8 in text, values of maps with equal keys.',
    bounds={'quick': 'all byte strings <= 3; all viable sequences <= 6 of 19 item tokens and <= 4 of 47; every head of every width at every boundary; all half floats, 14 mantissas x all exponents of single, 10 of double; strings and containers of every size <= 300 in every head width; all sequences of <= 4 chunks; all nestings <= 5 of 8 openers, uniform and alternating ones to 69; every byte of 80 items replaced by every byte, removed, doubled, and every prefix',
            'thorough': 'as quick with sequences <= 7 / <= 5, nestings <= 6, all 4-byte strings after 18 structural first bytes'})

check('C06', jobs=[{'src': 'c06.cxx'}], level='model_checking',
    technique='exhaustive enumeration of value trees and typed values; the real writer runs on each, its output is decoded by an RFC 8949 reference decoder, checked for shortest heads, and read back by the real reader',
    level_note='Every value within the bounds; values of one-byte and character types are taken as their unsigned code, const char* text includes its terminator, an empty optional is undefined (as documented by the tests).',
    bounds={'quick': 'all node trees of <= 4 nodes over 11 leaves, 3 keys, 2 tags and <= 6 over a thin alphabet; every head boundary; all simple values; 10 mantissas x all double exponents; strings and containers of every size <= 300 and around 65536; all values of 8 and 16-bit integer types, boundaries of wider ones; std containers, tuples, variants, optionals, bitsets',
            'thorough': 'as quick with trees <= 5 / <= 7'})

check('C07', jobs=[{'src': 'c07.cxx', 'flags': ['-DPART=%d' % k], 'tag': 'types%d' % k} for k in range(3)], level='model_checking',
    technique='exhaustive enumeration of (target type, byte string) pairs; every input is decoded by an RFC 8949 reference decoder, a typed oracle says what each of 87 targets must hold, and the real reader runs on each pair',
    level_note='Every input within the bounds is read into every one of 87 target types. Required to be accepted: items of the matching kind that fit, definite or indefinite (not for tuples and the like), under one tag; allowed but not required: more tags, byte strings as sequences of wider numbers. Not judged: finite doubles beyond the float range, maps with equal keys, stray padding bits of bitsets.',
    bounds={'quick': 'all byte strings <= 3 (scalar targets) / <= 2 and 32 third bytes (others), 4-byte strings over 32 bytes after 20 structural first bytes; all viable sequences <= 4 of 30 item tokens; every head width at every boundary, alone, tagged and in arrays, tuples and maps; all half floats; 10 mantissas x all exponents; strings, arrays, maps of sizes <= 70; claimed sizes; chunk sequences <= 3; every byte of a 250-item corpus replaced by every byte, removed, doubled, and every prefix',
            'thorough': 'as quick with all 3-byte strings for all targets and sequences <= 5'})

check('C04', jobs=[{'src': 'c04.cxx'}, {'src': 'c04.cxx', 'variant': 'nosimd'}], level='model_checking',
    technique='exhaustive enumeration of value trees and typed values; the real writer runs on each, its output is checked by the RFC 8259 automaton and value builder, read back by the real reader and written again',
    level_note='Every value within the bounds. Numbers are compared as numbers (JSON does not tell 1.0 from 1, negative zero comes back as the integer 0); infinities and NaN are strings of that name in nodes. Uses glibc strtod through the reference.',
    bounds={'quick': 'all node trees of <= 4 nodes over 12 leaves and 3 keys and <= 7 over 2 leaves and 2 keys; integer boundaries; 10 mantissas x all double exponents; 13 x all float exponents; characters in every block, all pairs of ASCII; strings of every length <= 80 with 8 specials at every position; arrays and objects of every size <= 300; depth up to the limit; all values of 8 and 16-bit integers, boundaries of wider ones, alone, in vectors and as map keys; std containers of every size <= 300; compounds',
            'thorough': 'as quick with trees <= 5 / <= 8'})

def fg(fmts=(0, 1), grps=range(6), extra=((2, 0),)):
    return [(['-DFMT=%d' % f, '-DGRP=%d' % g], '%d%d' % (f, g)) for f in fmts for g in grps] + [(['-DFMT=%d' % f, '-DGRP=%d' % g], '%d' % f) for f, g in extra]
check('C08', jobs=[{'src': 'c08.cxx', 'variant': v, 'flags': f, 'tag': t} for v in ('cxx20', 'san') for f, t in fg()] + [{'src': 'c08.cxx', 'variant': 'cxx11', 'flags': f, 'tag': t} for f, t in fg((0,), (0, 1), ())], level='model_checking',
    technique='exhaustive enumeration of inputs run through the real readers, which are observed at the edge of an inaccessible page, through bounds-checking iterators and under address and undefined-behaviour sanitizers',
    level_note='Every input within the bounds is read into every target type (scalars, strings, containers, compounds, classes, pointers, nodes). The input ends at an inaccessible page; bounds-checking iterators of each category report any dereference or advance outside; sanitizers watch the targets; hangs are found by a watchdog. long double is not read at a page edge (libstdc++ 13 over-reads there).',
    bounds={'quick': 'all byte strings <= 2 and of length 3 over ~45 bytes; all sequences <= 3 (4 for records, nodes, CXCF) of ~40 fragments (half escapes, truncated sequences, heads, closers); ~20 documents with every prefix, suffix, byte removed, doubled, range cut out, every byte replaced by and extended with ~45 bytes; strings, digits, spaces, elements, tags, chunks and claimed sizes of 29 sizes to 70000; 12-20 openers nested to 130000',
            'thorough': 'as quick with length 4 and sequences <= 4 (5)'})

check('C09', jobs=[{'src': 'c09.cxx', 'flags': f + ['-DKINDS=%d' % k], 'tag': t + 'k' * k} for k in (0, 1) for f, t in fg()] + [{'src': 'c09.cxx', 'flags': f + ['-DKINDS=1', '-DSTRICT'], 'tag': t + 's'} for f, t in fg((0,), range(6), ())], level='model_checking',
    technique='exhaustive enumeration of inputs; each is read into each target by the real reader through twelve kinds of iterators and containers, and the results are compared pairwise with those of pointers',
    level_note='Every input within the bounds, for every target type (scalars, strings, containers, compounds, classes, pointers, nodes, boost types), in JSON (default and strict numbers), CBOR and CXCF. Kinds: pointers, string (iterators and argument), vector, deque, list, forward_list, stream buffer iterators, checking random access, bidirectional, forward and input iterators. Not compared: number tokens outside the JSON grammar (default parsing) and tokens of more than 31 characters; which of several faults is reported for over-long strings and class keys.',
    bounds={'quick': 'all byte strings <= 2 and of length 3 over ~45 bytes; all sequences <= 4 (CBOR and the slower kinds 3 or 2) of ~40 fragments; ~20 documents with every prefix, suffix, byte removed, doubled, range cut out, every byte replaced by and extended with ~45 bytes; strings, digits, spaces, elements, tags, chunks and claimed sizes of 28 sizes to 4097; openers nested to 5000',
            'thorough': 'as quick with length 4 and sequences one longer'})
check('C10', jobs=[{'src': 'c10.cxx', 'flags': f + ['-DKINDS=1'], 'tag': t} for f, t in fg()] + [{'src': 'c10.cxx', 'variant': 'cxx11', 'flags': f + ['-DKINDS=1'], 'tag': t} for f, t in fg((0, 1), (0, 3), ())], level='fault_enumeration',
    technique='exhaustive enumeration of (value, output, point of failure); the real writers write every value to every kind of output, with every capacity and a failure after every number of bytes, and the result is compared with that of a std::string',
    level_note='Every value that the inputs within the bounds read into, for every type (scalars, strings, containers, compounds, classes, pointers, nodes, boost types), JSON, CBOR and CXCF. Outputs that always succeed: string, vector, deque, list, inserters, stream, ostream_iterator, an iterator with a position. Outputs that fail: ranges (pointers at an inaccessible page, checking forward, bidirectional and random access iterators), containers whose append() fails whole or in part, that are not good(), that throw, streams, indenters over ranges. Iterators that cannot report a failure (stream buffer iterators) are only required to hold a prefix.',
    rule='every capacity (number of bytes after which the output fails) 0..n+2 of outputs of n <= 260 bytes, and those near the ends and multiples of 64 and 256 of longer ones; for every output kind and value',
    bounds={'quick': 'values read from: all byte strings <= 2, length 3 over ~45 bytes, all sequences <= 3 of ~40 fragments, ~20 documents mutated at every byte, sizes up to 1200 (4097 for strings and nodes)',
            'thorough': 'as quick with length 4 and JSON sequences <= 4'})
check('C11', jobs=[{'src': 'c11.cxx', 'variant': 'debug', 'flags': f, 'tag': t} for f, t in fg()] + [{'src': 'c11.cxx', 'variant': 'cxx11', 'flags': f, 'tag': t} for f, t in fg((0, 1), (3,), ())], level='model_checking',
    technique='exhaustive enumeration of histories of reads on one target: failing read, second failing read, reset, good read; and of sequences of values back to back; the real (asserting) readers run on each and are compared with fresh targets',
    level_note='Every failing input within the bounds, for every target type; each is followed by a read of a good document into the same target after clear(), after assignment, after a second failure, and directly for targets that hold a single value. The result of every read is checked for category, position and exceptions. Values of raw pointers after a failure are not used.',
    bounds={'quick': 'inputs: all byte strings <= 2, length 3 over ~45 bytes, all sequences <= 3 of ~40 fragments, ~20 documents mutated at every byte, sizes up to 1500; 5 good documents per type; all sequences of <= 3 of them with 5 separators through pointers, strings, lists and streams',
            'thorough': 'as quick with length 4, fragment sequences <= 4 and value sequences <= 4'})
check('C12', jobs=[{'src': 'c12.cxx', 'variant': v, 'flags': ['-DFMT=%d' % f], 'tag': str(f)} for f in (0, 1, 2) for v in ('cxx20', 'cxx11')], level='model_checking',
    technique='exhaustive enumeration of documents (sequences of members, spellings, skipped values, token sequences) and of objects; the real readers and writers run on each and are compared with an explicit model of the mapping',
    level_note='Every document within the bounds, for 13 mapped classes (macros for members and non-members, nested, nontrivial and long keys, defaults, skipped, static and captured members, separate read and write mappings, bare classes of CXCF) and 6 enums, in JSON, CBOR and CXCF. Names with embedded NUL and, in CBOR, tags and malformed or chunked strings in skipped members are known findings and not explored further; CBOR maps of indefinite length are not required for classes.',
    bounds={'quick': 'all ordered subsets of the 8 members of the main class (109601) and all of the others; all sequences <= 3-4 of members, repeated and misspelled names among them; every pair of members x 4-5 white space styles or head widths x 3 spellings; every tree of <= 4 nodes as a skipped member at each place; JSON: every viable token sequence <= 11 extended by each of 13 tokens, CBOR: <= 6 of 15; objects of every combination of 2-5 values per field written and read back; all strings <= 4 over 12 characters and every edit of the names, all integers -70005..70005 in every head width as enums',
            'thorough': 'as quick with member sequences <= 4, trees <= 5, token sequences <= 13 / <= 7'})
check('C13', jobs=[{'src': 'c13.cxx', 'variant': v, 'flags': ['-DFMT=%d' % f, '-DGRP=%d' % g], 'tag': '%d%d' % (f, g), 'thorough_only': v != 'cxx20'} for v in ('cxx20', 'cxx11', 'clang') for f in (0, 1) for g in (0, 1, 2, 3)], level='model_checking',
    technique='exhaustive enumeration of the values of some 300 types up to a size; the real writer and reader run on each value, the output is checked by an independent grammar and the value read back is compared',
    level_note='Every value within the bounds of each listed type, written to a string, through an iterator and into a range of exactly the size, read back from memory that ends at an inaccessible page and from a list. JSON stacks come back reversed (a known finding): for them writing and reading twice must be the identity. Combinations that do not compile are listed in DESIGN.md.',
    bounds={'quick': 'containers: all sequences of <= 4 elements over 5 values of the element type (nested: <= 2 over 2) and sizes around 15/16, 23/24, 255/256, 65535/65536; integers: all one-byte values, all powers of two +-1; strings: all lengths <= 300 and around 4096 and 65536; bitsets of 17 widths with every bit; products and sums: all combinations of up to 5 values per part',
            'thorough': 'sequences of <= 5 elements over 7 values, C++20, C++11 and clang builds'})
check('C14', jobs=[{'src': 'c14.cxx', 'variant': v, 'flags': ['-DFMT=%d' % f, '-DGRP=%d' % g], 'tag': '%d%d' % (f, g), 'thorough_only': v not in ('cxx20', 'asan') or (v == 'asan' and g == 0)} for v in ('cxx20', 'asan', 'cxx11') for f in (0, 1) for g in (0, 1)], level='model_checking',
    technique='exhaustive enumeration of documents and buffer sizes; the real readers run on each into targets that end at an inaccessible page with marked memory before them (and under AddressSanitizer for buffers on the stack), results compared with an explicit model of each target',
    level_note='Every document within the bounds against some 80 targets (arrays, character arrays of the character types, std::array, bitset, pair, tuple, complex, span, static_vector, nestings). For a literal or key of exactly the buffer size either verdict is accepted (a terminator may or may not have to fit). Spellings of bitsets with escapes or in chunks, and CBOR products of indefinite length may be refused. static_vector reads count what is already there.',
    bounds={'quick': 'all trees of <= 5 nodes over 8 leaves in 3 (JSON) or 5 (CBOR) encodings with every prefix of the smaller ones; lists and strings of 28 lengths <= 1000 around the capacities with each kind of character at each place; chunks: every composition of <= 6 bytes; claims up to 2^64-1; number literals of every length <= N+4 for 17 buffer sizes, signs, points and exponents at each place; names of 16 lengths <= 99 and all their near misses for 21 buffer sizes, in classes and enums',
            'thorough': 'trees of <= 6 nodes, also C++11 and everything under AddressSanitizer'})

check('C15', jobs=[{'src': 'c15.cxx', 'variant': v, 'flags': ['-DFMT=%d' % f, '-DGRP=%d' % g], 'tag': '%d%d' % (f, g), 'thorough_only': v != 'cxx20' and not (v == 'asan' and g == 0)} for v in ('cxx20', 'asan', 'cxx11') for f in (0, 1) for g in (0, 1, 2, 3)], level='model_checking',
    technique='explicit-state exploration: every sequence of node operations up to a depth, and breadth first over the states of a value model, executed on the real nodes; the nodes, the blocks of their allocators and the life of their strings are compared with the model after every operation',
    level_note='Two nodes and some 110 operations: construction from and assignment of every type, copy, move, allocator-extended construction, initializer lists, swap, reset, change of kind, access, insertion, removal, assignment to, from and between own elements. 11 kinds of node per format (default, ordered, unordered, in place, all dynamic, audited strings, six kinds of allocator). The value of a moved-from node is taken as found; a node moved into its own descendant is excluded.',
    bounds={'quick': 'all sequences of <= 2 operations from the full list and of 3 from a list of some 85; breadth first to depth 5 over <= 8000 model states, every operation from each; values of <= 24 nodes',
            'thorough': 'breadth first to depth 6 over <= 200000 states; also C++11 and AddressSanitizer'})
check('C16', jobs=[{'src': 'c16.cxx', 'variant': v, 'flags': ['-DFMT=%d' % f, '-DGRP=%d' % g], 'tag': '%d%d' % (f, g), 'thorough_only': v not in ('cxx20', 'cxx11')} for v in ('cxx20', 'cxx11', 'clang') for f in (0, 1) for g in (0, 1)], level='model_checking',
    technique='exhaustive checking of the laws over every pair of a bounded set of node values: ==, !=, <, hashes against structural equality of an explicit model, transitivity by placing all values in one order, every value looked up in ordered and unordered containers',
    level_note='Values with equal contents are also built in different ways (order of insertion, numbers of buckets, moved and copied). NaN is excluded from the laws. Nodes over unordered maps have no order.',
    bounds={'quick': 'all pairs of some 600 to 3000 values per kind of node (5 kinds per format): all leaves of every kind with the extremes, arrays and maps of <= 4 members, tags, two or three levels deep; 35 plain values against 300 nodes in both orders',
            'thorough': 'one level more, also compiled by clang'})
check('C17', jobs=[{'src': 'c17.cxx', 'variant': v, 'flags': ['-DGRP=%d' % g], 'tag': '%d' % g, 'thorough_only': v != 'cxx20'} for v in ('cxx20', 'cxx17') for g in (0, 1, 2)], level='model_checking',
    technique='exhaustive enumeration of nestings (every mixture of containers along a spine up to the limit) for twelve limits; the real readers and writers run on each and their verdict is compared with the exact depth',
    level_note='Reads from strings, pointers and lists, writes to containers, iterators and ranges, JSON and CBOR nodes in both formats. Tags do not count for JSON nodes. A node within another type is limited when the guard is passed explicitly. After every operation one just below the limit must succeed.',
    bounds={'quick': 'limits 0-5: every spine of <= limit+1 (or +2) levels over 2 to 8 kinds of level; limits 8, 17, 63, 64 (default), 65: uniform, alternating, rotating and one-different spines of limit-3 to limit+2 levels; depth 20000; nodes within vectors and lists',
            'thorough': 'every spine of limit+2 levels, limit 200, more places of the different level, also C++17'})
check('C18', jobs=[{'src': 'c18.cxx', 'variant': v, 'flags': ['-DFMT=%d' % f, '-DGRP=%d' % g], 'tag': '%d%d' % (f, g), 'thorough_only': v == 'cxx11' or (v == 'asan' and g != 1)} for v in ('cxx20', 'asan', 'cxx11') for f in (0, 1) for g in (0, 1, 2, 3, 4)], level='fault_enumeration',
    technique='exhaustive fault injection: the real reads, writes and node operations run with the k-th allocation failing, for every k, and then from the k-th on; blocks, their sizes and releases are tracked, and every object is then assigned to, read into and destroyed',
    level_note='Reads into scalars, strings, containers, compounds, classes, pointers, valarrays, nodes with and without allocators; writes to every kind of output; node operations. Memory is replaced globally (new and delete), with released blocks kept in quarantine. Values after a failure are only required to be usable. boost::container::stable_vector in CBOR is excluded (an assertion of boost after a failed reserve).',
    rule='every k-th allocation of every operation fails, once and from then on; pairs (k1, k2) of failures one after the other on the same object',
    bounds={'quick': 'some 100 types x some 20 to 60 documents, valid and not, x every k; all pairs of node operations x every k, for 7 kinds of node',
            'thorough': 'more documents, all triples of node operations, C++11, AddressSanitizer'})
check('C19', jobs=[{'src': 'c19.cxx', 'variant': v, 'flags': ['-DFMT=%d' % f, '-DGRP=%d' % g], 'tag': '%d%d' % (f, g), 'thorough_only': v == 'asan' and g != 1} for v in ('cxx20', 'cxx11', 'asan') for f in (0, 1) for g in (0, 1, 2, 3)], level='model_checking',
    technique='exhaustive enumeration of inputs and of sequences of node operations, run through the real readers and nodes with tracking allocators: every block is matched with its release and every value within with its allocator',
    level_note='Nodes over five allocators (unequal, propagating in every way, not assignable, std::pmr) in five shapes, reads from pointers and lists into fresh and used nodes; raw pointers, arrays of them, classes and containers with pointers, unique and shared pointers. The named parameter allocator takes std::allocator only (others do not compile). A repeated key of a std::map with raw pointers loses the first pointer (a known finding); elsewhere multimap is used.',
    bounds={'quick': 'all byte strings <= 2 and of length 3 over ~45 bytes; all sequences <= 3 of ~40 fragments; ~20 documents with every prefix, byte removed, replaced, doubled; sizes to 4097; all sequences of <= 3 node operations',
            'thorough': 'as quick with length 4 and sequences <= 4'})
check('C20', jobs=[{'src': 'c20.cxx', 'variant': v, 'flags': ['-DGRP=%d' % g], 'tag': '%d' % g, 'thorough_only': v == 'cxx11' and g != 1} for v in ('cxx17', 'cxx11') for g in (0, 1, 2)], level='model_checking',
    technique='exhaustive enumeration of documents (token sequences and edits) under each configuration, run through the real readers and writers and compared with an independent parser of the dialect; exhaustive strings for the options of strings',
    level_note='22 configurations: each option alone, pairs (comments and trailing separators, strict numbers and NaNs), other separators and delimiters, CXCF; 14 targets each (node, containers, maps with string and number keys, class with a skipped member, pairs, tuples, pointers, scalars), read from pointers and lists. Not judged: number tokens outside the grammar unless strict, unquoted keys with quotes, brackets, backslashes or non-ASCII characters, nodes with keys that are not strings, the contents of skipped members in refused documents, elements without white space between them where white space separates.',
    bounds={'quick': 'all viable sequences of <= 7 of some 15 tokens extended by each token (6 for configurations that only affect strings or with more tokens); 12 documents with each of 38 fragments inserted and replacing at every place, pairs of fragments; up to 20000 comments; all strings of <= 3 of 31 fragments, at three places of lengths <= 80; every character',
            'thorough': 'one token more; also C++11'})
