#!/usr/bin/env python3
# writes properties.jsonl (kept as code so that the long lines stay reviewable)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [], 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}})
J = 'src/cxon/lang/json/'; B = 'src/cxon/lang/cbor/'; C = 'src/cxon/lang/common/'; L = 'src/cxon/lib/'

p('C01', 'JSON reader accepts exactly RFC 8259 texts and yields their value',
  'Reading any complete RFC 8259 text (nesting below the recursion limit, numbers in range) into a JSON node succeeds, stops right after the value and yields exactly the value the text denotes. When a read succeeds, the consumed part is itself a JSON text with that value; only number tokens may deviate from the grammar, and not even they when strict number parsing is selected. Every other text is refused with an error code.',
  ['inputs'], 'all input texts: every byte sequence, token sequence, nesting, white-space placement, number spelling and string content',
  'The suites read a few hundred fixed documents; acceptance is a property of the whole language (which prefixes die where, which look-alikes are refused) and the value of every text in it.',
  [L + 'node.json.hxx', C + 'container.hxx', C + 'cio/container.hxx', C + 'cio/io.hxx', C + 'cio/string.hxx', C + 'cio/char.hxx', J + 'fundamental.hxx'],
  [('dispatch on the first significant character', L + 'node.json.hxx'), ('element/separator loop of lists and maps', C + 'cio/container.hxx'), ('white-space and literal consumption', C + 'cio/io.hxx')],
  ['from_bytes<JSON<>>(json::node&, b, e): result.ec, result.end, node value'])
p('C02', 'JSON strings keep every code point, in every character type, both ways',
  'A JSON string read into a string, character array or character of any supported character type holds exactly the code points the text denotes, whichever escape form is used; ill-formed UTF-8, unpaired surrogate escapes, unknown escapes and raw control characters are refused. Writing any well-formed string of any supported character type gives a valid JSON string that denotes the same code points, whatever its length and wherever the characters needing an escape are.',
  ['inputs'], 'all code points, escape spellings, string lengths, positions and memory alignments, for char, char8_t, char16_t, char32_t and wchar_t',
  'Tests use a handful of strings; the code has separate paths for SIMD blocks, tails, multi-unit characters, surrogates and each target width.',
  [C + 'cio/char.hxx', C + 'cio/string.hxx', J + 'fundamental.hxx', J + 'lib/std/string.hxx'],
  [('UTF-8 check and UTF-8/16/32 conversion', C + 'cio/char.hxx'), ('SIMD and scalar escaping', C + 'cio/char.hxx'), ('escape decoding', C + 'cio/char.hxx')],
  ['from_bytes/to_bytes of basic_string<T>, T[N], T'])
p('C03', 'JSON numbers are exact or refused, per arithmetic type',
  'Reading a number into an arithmetic type stores the exact integer, or the correctly rounded floating-point value, that the text denotes and stops at the end of the token; a value the type cannot represent is an error and never a wrapped, truncated or stale value. Writing any arithmetic value and reading the text back gives the same value, infinities included, and NaN stays NaN.',
  ['inputs'], 'all values of the 8- and 16-bit types, all boundary neighbourhoods of the wider integers, all exponents and boundary mantissas of floats and doubles, all short number texts, strict and default number parsing',
  'Tests check a few values per type; overflow detection and shortest-digits output are per-type arithmetic that fails on single values.',
  [C + 'cio/numeric.hxx', C + 'charconv.hxx', J + 'fundamental.hxx', L + 'node.json.hxx'],
  [('token scan and conversion', C + 'cio/numeric.hxx'), ('conversion fallback', C + 'charconv.hxx'), ('64-bit overflow limits of node integers', L + 'node.json.hxx')],
  ['from_bytes/to_bytes of arithmetic types'])
p('C04', 'JSON output is valid and reads back as the same value',
  'For every JSON node value (object keys being strings), and for every value of the supported arithmetic, string and container types, writing succeeds with text that is valid JSON denoting that value, and reading the text back gives an equal value. Writing the read-back value again gives the same text. (Numbers are equal as numbers, since JSON does not tell 1.0 from 1; in nodes infinities and NaN are written as strings of that name.)',
  ['inputs', 'histories'], 'all node trees up to a depth and width over a value alphabet that includes every kind and every size boundary',
  'The round-trip suites cover fixed documents; the property quantifies over all value trees, including empty, nested and boundary-sized ones.',
  [L + 'node.json.hxx', J + 'node/node.hxx', C + 'cio/container.hxx', C + 'container.hxx'],
  [('node kind dispatch on write', L + 'node.json.hxx'), ('separator placement', C + 'container.hxx')], ['to_bytes(out, node), from_bytes(node, out)'])
p('C05', 'CBOR decoder accepts well-formed items and yields their value',
  'Reading any well-formed CBOR item (nesting below the recursion limit, negative integers within the signed range) into a CBOR node succeeds, consumes exactly that item and yields the value RFC 8949 gives it: integers, tags and simple values of every width, half/single/double floats, definite and chunked strings, arrays and maps. Anything malformed, reserved or truncated is refused with an error code, and an integer that does not fit is an error, not a wrapped value.',
  ['inputs'], 'all byte sequences up to a length, all item structures up to a size over every head form, all argument widths and boundary arguments, all truncations',
  'Tests hold some dozens of byte strings; every head byte, argument width and nesting of definite and indefinite items is a separate path.',
  [L + 'node.cbor.hxx', B + 'fundamental.hxx', B + 'common/container.hxx', B + 'common/tag.hxx', C + 'bio/io.hxx'],
  [('major type dispatch', L + 'node.cbor.hxx'), ('head and argument decoding', C + 'bio/io.hxx'), ('definite/indefinite containers and chunks', B + 'common/container.hxx')],
  ['from_bytes<CBOR<>>(cbor::node&, b, e)'])
p('C06', 'CBOR output is well-formed, uses shortest heads and reads back equal',
  'For every CBOR node value, tags included, and every value of the supported C++ types, writing produces exactly one well-formed CBOR item denoting that value, whose lengths, counts, tags and integers use the shortest head. Reading it back gives an equal value and consumes all of it.',
  ['inputs', 'histories'], 'all node trees up to a depth and width over a value alphabet with every kind, and every integer and length around each head-size boundary',
  'Tests write a few values of each type; head selection and per-kind writers are only right if they are right at every boundary and in every nesting.',
  [L + 'node.cbor.hxx', B + 'fundamental.hxx', B + 'common/container.hxx', C + 'bio/io.hxx', B + 'node/node.hxx'],
  [('head emission', B + 'fundamental.hxx'), ('tag write', L + 'node.cbor.hxx'), ('big-endian byte output', C + 'bio/io.hxx')], ['to_bytes<CBOR<>>(out, node)'])
p('C07', 'CBOR typed reads are exact or refused and consume one whole item',
  'Reading a CBOR item into a typed C++ target (integer, floating point, boolean, null, character, string, byte sequence, array, map, tuple, optional and the like) either stores exactly the value encoded (floating-point values rounded to the precision of the target; one-byte integers and characters taken as bytes 0..255) and consumes exactly that item, or fails with an error code. Items of the matching kind that fit are accepted in every head width, definite or (except for pairs, tuples, variants, complex numbers and bitsets) indefinite, under one tag. An integer outside the range of the target, an item of another kind (byte and text strings do count as sequences of numbers) and a truncated or malformed item are never accepted as some other value.',
  ['inputs'], 'every target type against every short byte sequence and every head form with boundary arguments, definite and indefinite, tagged and untagged',
  'Tests try matching pairs; the property is about all pairs of encoded item and target type, where silent wrap-around and partial consumption hide.',
  [B + 'fundamental.hxx', B + 'compound.hxx', B + 'common/container.hxx', C + 'bio/io.hxx', B + 'common/tag.hxx', B + 'lib/std/'],
  [('integer narrowing', C + 'bio/io.hxx'), ('array/map head matching', B + 'common/container.hxx')], ['from_bytes<CBOR<>>(T&, b, e)'])
p('C08', 'No input makes a reader touch memory outside the input, or not terminate',
  'For every byte sequence given as input, in JSON, CBOR and CXCF, to nodes and to typed targets, a read terminates and accesses no memory outside [begin, end), outside the target or after it was freed, and neither it nor the destruction of the target has undefined behaviour. The reported end lies within the input.',
  ['inputs'], 'all short byte sequences, all truncations and all single-byte corruptions of a corpus of structured documents, for every reader target',
  'Tests feed NUL-terminated literals without guards around them; over-reads by one are invisible there and truncations are not enumerated.',
  [C + 'cio/char.hxx', C + 'cio/string.hxx', C + 'cio/numeric.hxx', C + 'bio/io.hxx', B + 'common/sink.hxx', C + 'cio/key.hxx', C + 'cio/class.hxx'],
  [('bounds checks before every dereference', C + 'cio/io.hxx'), ('length checks before block reads', C + 'bio/io.hxx')], ['from_bytes on guarded memory, address sanitizer'])
p('C09', 'Results do not depend on the kind of iterator or container read from',
  'Reading the same bytes through pointers, string, vector, deque, list, forward_list, single-pass stream iterators or an iterable argument gives the same verdict, the same error (any one of them where the input has several faults) and an equal value, and for multi-pass iterators the same end. For multi-pass and single-pass input alike a successful read leaves the iterator right after the value. (JSON number tokens outside the grammar, which default parsing may take, and tokens longer than num_len_max are excepted.)',
  ['inputs', 'configurations'], 'every text of the exploration times every iterator category, for nodes, numbers, strings and containers, in JSON and CBOR',
  'The suites mostly use one iterator kind per value; the implementation has separate code for pointers, random access, forward and input iterators.',
  [C + 'cio/numeric.hxx', C + 'cio/string.hxx', C + 'cio/char.hxx', C + 'bio/io.hxx', L + 'node.json.hxx', 'src/cxon/cxon.hxx'],
  [('buffered number scan for non-pointers', C + 'cio/numeric.hxx'), ('rewind only for forward iterators', C + 'cio/io.hxx'), ('get/advance per iterator category', C + 'bio/io.hxx')], ['from_bytes over iterator kinds'])
p('C10', 'Writers honour the capacity and the failures of their output',
  'Writing to a back-insertable container, an output iterator, a stream or a [begin, end) range delivers the same bytes, with and without an indenter in between. With a range too small for the output, or an output that reports a failure after any number of bytes (a stream that is not good, an append that returns false, an exception), the write reports the output error (lets the exception pass), stores nothing outside the range, and what it stored before is a prefix of the full output; with exactly enough room it succeeds and reports the end of what was written.',
  ['inputs', 'fault_sequences'], 'for every value of the exploration: every capacity from 0 to beyond its size, and failure of the output after every number of bytes',
  'Tests check a few capacities; the property must hold at every byte of every value, where writers switch between bulk copies and single bytes.',
  ['src/cxon/cxon.hxx', C + 'cio/io.hxx', C + 'bio/io.hxx', C + 'cio/char.hxx', 'src/cxon/utility.hxx', C + 'container.hxx'],
  [('range container with capacity', C + 'container.hxx'), ('append result checks', C + 'cio/io.hxx')], ['to_bytes into ranges, iterators, containers, failing outputs'])
p('C11', 'Failed reads are reported, contained and recoverable',
  'A read never throws for bad input: it returns an error of the category of the format, an end inside the input, and leaves the target valid, so that it can be destroyed, overwritten or reused for another read with the same result as a fresh one (once its owner has cleared a container: reads append to containers). A sequence of values written back to back is read one after another, each read starting where the previous one ended, and gives the same values.',
  ['inputs', 'histories'], 'all failing inputs of the exploration followed by reuse of the same target, and all sequences of up to three values with every separator',
  'Tests assert single error codes; contained failure is about every failing input and what happens to the same object afterwards.',
  ['src/cxon/cxon.hxx', J + 'error.hxx', B + 'error.hxx', L + 'node.hxx', C + 'node-value.hxx'],
  [('context error propagation', 'src/cxon/cxon.hxx'), ('node imbue on failed reads', J + 'node/node.hxx')], ['from_bytes result and the target after it'])
p('C12', 'Class and enum mappings read any member order and refuse what they must',
  'An object with the mapped fields of a class in any order and any subset of them missing reads into exactly the members named and leaves the others untouched. Members declared as skipped are skipped whole, whatever their value; any other name is refused, as are repeated names (JSON: unless assume_unique_object_keys is turned off; then the last one counts). Writing emits every mapped field but the skipped ones and those whose default predicate holds, and reads back equal. An enum reads from exactly its mapped names (JSON) or values (CBOR) and writes them; anything else is an error. (Names with embedded NUL excepted.)',
  ['inputs', 'histories'], 'all permutations and subsets of the fields, duplicated and unknown keys at every position with every kind of skipped value, for JSON and CBOR',
  'Tests try some orders; member selection, key comparison and skipping are history-dependent and each skipped value kind is its own parser.',
  [C + 'cio/class.hxx', J + 'class.hxx', B + 'class.hxx', C + 'cio/enum.hxx', J + 'enum.hxx', B + 'enum.hxx', B + 'common/sink.hxx'],
  [('field lookup by key', C + 'cio/class.hxx'), ('skipping of unknown members', C + 'cio/class.hxx'), ('CBOR item skipping', B + 'common/sink.hxx')], ['from_bytes/to_bytes of mapped classes and enums'])
p('C13', 'Standard-library values survive a write and read, in JSON and CBOR',
  'For every supported standard-library type (sequence, associative and unordered containers, adapters, pair, tuple, array, bitset, complex, chrono durations, optional, variant, smart pointers, strings and nestings of them), writing a value and reading the output into a fresh object of that type gives an equal value, in JSON and in CBOR, and all of the output is consumed. The output is well-formed in its format.',
  ['inputs', 'configurations'], 'every supported type times all values up to a size over small element domains, plus sizes around every encoding boundary, times both formats',
  'Tests round-trip a literal or two per type; per-type readers and writers are separate code and fail on emptiness, order, nesting and sizes.',
  [J + 'lib/std/', B + 'lib/std/', L + 'std/', C + 'container.hxx', B + 'common/container.hxx', C + 'cio/container.hxx', C + 'cio/variant.hxx'],
  [('container element protocol', C + 'container.hxx'), ('per-type specialisations', J + 'lib/std/')], ['to_bytes then from_bytes per type'])
p('C14', 'Fixed-size targets never overflow and refuse what does not fit',
  'Reading into a target of fixed capacity (C array, std::array, character array, char, bitset, tuple, pair, span, number or key buffer) stores exactly the elements encoded when they fit; input with more elements than the capacity is an error and nothing is stored beyond the target. Elements that the input does not mention keep their value, and a character array is terminated when there is room.',
  ['inputs'], 'every capacity from 0 or 1 to a bound times every number of elements around it, JSON and CBOR, definite and indefinite, each element kind',
  'Tests use one capacity per type; overflow is an off-by-one between capacity and count that must be excluded for all pairs.',
  [C + 'container.hxx', J + 'compound.hxx', B + 'compound.hxx', B + 'common/container.hxx', C + 'cio/container.hxx', C + 'cio/string.hxx', J + 'lib/std/array.hxx', B + 'lib/std/bitset.hxx'],
  [('range container bounds', C + 'container.hxx'), ('count check before element reads', B + 'common/container.hxx')], ['from_bytes into guarded fixed-size objects'])
p('C15', 'Nodes behave as values under every sequence of operations',
  'JSON and CBOR nodes behave as plain values: after any sequence of construction, copy, move, assignment (self-assignment and assignment from an own element included), swap, reset, change of kind and element access, every node equals what a simple value model predicts and no two nodes share state. Everything constructed is destroyed exactly once.',
  ['histories'], 'all operation sequences up to a length over two or three nodes of every kind, aliasing arguments included',
  'Tests exercise each operation once from a fresh state; aliasing and kind-change errors need specific sequences.',
  [J + 'node/node.hxx', B + 'node/node.hxx', C + 'node-value.hxx'],
  [('construct/destruct/assign/swap of the kind storage', C + 'node-value.hxx'), ('kind switch', J + 'node/node.hxx')], ['node operations'],
  [{'name': 'node kind and storage', 'meaning': 'the discriminated value of a node', 'where': C + 'node-value.hxx'}])
p('C16', 'Node equality, order and hash are lawful and agree',
  'On JSON, CBOR and ordered nodes equality is an equivalence that holds exactly for equal values (NaN aside), the order is a strict weak order consistent with it where it is defined, and equal nodes have equal hashes. A node finds itself, and nothing else, as a key of ordered and unordered containers.',
  ['inputs'], 'all pairs and triples of a set of nodes that has every kind, nested containers and near-equal values',
  'Laws quantify over pairs and triples; tests compare a few hand-picked nodes.',
  [J + 'node/node.hxx', B + 'node/node.hxx', C + 'hash.hxx', L + 'node.ordered.hxx'],
  [('operator ==, <', J + 'node/node.hxx'), ('std::hash', C + 'hash.hxx')], ['==, !=, <, std::hash, std::set/unordered_set lookups'])
p('C17', 'The recursion limit of nodes is exact and leaves nothing behind',
  'Reading or writing a node nested below the configured depth succeeds and one nested to or beyond it fails with the recursion error, for arrays, objects/maps, tags and any mixture, JSON and CBOR, for every configured depth; siblings do not count. After any number of successes and failures the limit is unchanged. (Nodes that are parts of other types are limited when the guard parameter is passed; tags do not count where they are dropped.)',
  ['inputs', 'configurations', 'histories'], 'all nesting words around the limit for a set of configured depths, and sequences of reads',
  'Tests check one depth with arrays only; the boundary must be exact for every container kind and mixture.',
  [L + 'node.hxx', L + 'node.json.hxx', L + 'node.cbor.hxx'], [('scoped depth counter', L + 'node.hxx')], ['from_bytes/to_bytes of nodes with recursion_depth'],
  [{'name': 'recursion guard', 'meaning': 'current nesting depth', 'where': L + 'node.hxx'}])
p('C18', 'A failing allocation leaks nothing and leaves valid objects',
  'When the k-th allocation during a read, a write or a node operation fails, for any k, the exception reaches the caller (or the operation had no need of it), nothing is leaked or freed twice, and every object involved can still be assigned to, read into and destroyed.',
  ['fault_sequences'], 'every allocation index of every operation of a scenario set, for nodes, containers, strings, owning pointers, JSON and CBOR',
  'No test injects allocation failures; each allocation point is a different half-built state.',
  [J + 'node/node.hxx', B + 'node/node.hxx', C + 'node-value.hxx', C + 'allocator.hxx', C + 'container.hxx', J + 'lib/std/memory.hxx'],
  [('construction order of kind and storage', C + 'node-value.hxx'), ('owning pointer containers', C + 'container.hxx')], ['allocation hook, leak accounting'])
p('C19', 'Memory comes from the supplied allocator and is released exactly once',
  'A read into a node with a custom allocator takes all memory of nested values (keys, strings, arrays, objects, tagged values) from that allocator, and the values keep it; every block is released once, to the allocator it came from, with its size. What a read allocates for raw pointers has exactly the size of what it holds, the user can release it, and nothing else remains; failed reads release everything they had allocated for a pointer, which stays as it was or null.',
  ['inputs', 'histories'], 'all short inputs, valid and invalid, for pointer and node targets with a tracking allocator, and node operation sequences',
  'Tests check that an allocator can be passed; balance must hold on every path, above all the failing ones.',
  [C + 'allocator.hxx', C + 'container.hxx', J + 'compound.hxx', B + 'compound.hxx', C + 'node-value.hxx'],
  [('allocator parameter', C + 'allocator.hxx'), ('pointer_container ownership', C + 'container.hxx')], ['tracking allocator ledger'])
p('C20', 'Format options change exactly what they document',
  'Each documented option (comments, trailing separators, unquoted keys, quoting of keys, NaN/Infinity literals, strict JavaScript output, unchecked encoding or escapes, other separators, the CXCF dialect) accepts and produces exactly the documented variation: everything valid without it stays valid with the same value, the variation is accepted only when the option is on, and output under an option reads back under the same option as the same value. (A comment that is not closed counts as white space only after the value; what is promised by an option, such as valid encoding, is not checked.)',
  ['inputs', 'configurations'], 'every option times all token sequences up to a length over the base alphabet extended with the tokens of the option',
  'Tests have a few examples per option; interaction of an option with every syntactic position is a language property.',
  [J + 'json.hxx', C + 'cio/cio.hxx', C + 'cio/io.hxx', C + 'cio/key.hxx', C + 'cio/container.hxx', C + 'cio/char.hxx', C + 'cio/numeric.hxx', 'src/cxon/lang/cxcf/cxcf.hxx'],
  [('trait-selected overloads', C + 'cio/cio.hxx'), ('comment skipping', C + 'cio/io.hxx'), ('key contexts', C + 'cio/key.hxx')], ['from_bytes/to_bytes with custom traits'])
p('C21', 'Pretty-printing changes white space only',
  'Indenting output, while writing or of existing text, yields a JSON text with the same tokens in the same order, for every indent character and width; strings are copied unchanged whatever they contain. Indenting an indented text again gives the same text.',
  ['inputs'], 'all token sequences of valid documents up to a length with strings containing every structural character, all widths',
  'Tests compare a few documents; quotes, escapes and empty containers in every nesting decide it.',
  [J + 'tidy.hxx'], [('indenting output iterator', J + 'tidy.hxx')], ['json::make_indenter, json::tidy'])
p('C22', 'JSON nodes written as CBOR, and CBOR nodes as JSON, keep their value',
  'A JSON node written as CBOR and read back as a JSON node gives an equal value, and a CBOR item that has a JSON counterpart reads into a JSON node with that value. A CBOR node whose keys are representable writes as valid JSON denoting the corresponding value.',
  ['inputs'], 'all node trees up to a depth and width over every kind, and all short CBOR byte sequences',
  'Two examples in the tests; the mapping must be right for each kind in each position.',
  [L + 'node.cbor.hxx', L + 'node.json.hxx'], [('cross-format read/write specialisations', L + 'node.cbor.hxx')], ['to_bytes<CBOR<>>(out, json::node), to_bytes<JSON<>>(out, cbor::node)'])
p('C23', 'Ordered nodes keep insertion order and otherwise equal plain nodes',
  'An ordered node reads and writes object members in the order of the input, duplicates of a key included as the plain order demands, and agrees with the plain node on acceptance, values and errors. Writing what was read gives back the members in the same order.',
  ['inputs'], 'all objects up to a number of members over a small key set in every order, nested, and all short texts',
  'Tests have one document; order preservation is about all permutations.',
  [L + 'node.ordered.hxx'], [('sequence container as object type', L + 'node.ordered.hxx')], ['from_bytes/to_bytes of ordered nodes'])
p('C24', 'All supported configurations compute the same results',
  'The C++11, C++17 and C++20 builds, the SIMD and scalar builds, debug (asserting) and release builds, and the number-conversion back ends give identical results for the same operations: the same verdicts, values and bytes. No assertion of the debug build fires, whatever the input.',
  ['configurations', 'inputs'], 'every build configuration times the same exhaustive set of inputs and values',
  'The suites of different configurations never compare results with each other and run with assertions disabled.',
  [C + 'charconv.hxx', C + 'cio/char.hxx', 'src/cxon/utility.hxx', C + 'bio/io.hxx'],
  [('conditional implementations', C + 'charconv.hxx'), ('SIMD selection', C + 'cio/char.hxx')], ['result digests of per-configuration builds'])
p('C25', 'Concurrent independent reads and writes do not affect each other',
  'Reads and writes on distinct targets, from any number of threads, also with shared constant inputs and re-entered from user iterators, behave as if run alone, for every interleaving. There is no hidden shared mutable state.',
  ['schedules'], 'all interleavings, up to a preemption bound, of two or three threads at every access to input and output',
  'No test runs two operations at once; hidden static buffers would go unnoticed.',
  ['src/cxon/cxon.hxx', C + 'cio/numeric.hxx', C + 'cio/class.hxx', B + 'class.hxx', L + 'node.hxx'],
  [('all state is in the call context', 'src/cxon/cxon.hxx')], ['from_bytes/to_bytes with scheduling iterators'])
p('C26', 'Claimed lengths do not make a CBOR reader allocate far beyond its input',
  'Whatever length or count a CBOR head claims, a read of n bytes of input allocates memory in proportion to n, not to the claim, and fails with an error code when the claimed content is not there.',
  ['inputs'], 'every target type times every head form with claimed sizes from small to 2^64-1, alone and nested',
  'No test measures memory; one head of nine bytes decides it.',
  [B + 'common/container.hxx', C + 'bio/io.hxx', C + 'container.hxx'], [('reserve before reading elements', B + 'common/container.hxx')], ['allocation hook during from_bytes'])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
