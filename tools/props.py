# One entry per property: (id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, observe, how decided (DESIGN), note)
P = []
def p(id, title, statement, over, q, why, files, mech, observe, how, assume=""):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), q=" ".join(q.split()), why=" ".join(why.split()),
                  files=files.split(), mech=mech, observe=observe, how=" ".join(how.split()), assume=" ".join(assume.split())))

p("M01", "Raw memory operations act exactly on the bytes they are given",
  """For every buffer content, length, alignment and overlap: copy (non-overlapping), move (also overlapping), set, swap, compare, first/last-byte search
  and zeroing produce exactly the bytes or answer that a byte-by-byte definition gives, and touch no byte outside the given ranges.
  The bit and alignment helpers agree with their arithmetic definitions for every value.""",
  "inputs", "all lengths (biased to word and block boundaries), alignments 0..15, overlaps in both directions, byte values",
  "the memory tests use one alignment and a handful of lengths; the word-at-a-time and inline-assembly paths depend on length, alignment and overlap together",
  "code/header/essentials/memory.h code/source/essentials/memory.c code/source/core/misc.c code/header/core/misc.h",
  [("word-wise copy/move/set/search loops", "code/source/essentials/memory.c")], ["returned values", "every byte of the buffer and of the guard bytes around it"],
  "generated buffers placed at the end/start of exact-size heap blocks; every operation compared with a byte loop over a std::string model, guard bytes compared, ASan watching")
p("M02", "Heap blocks are disjoint, aligned and keep their contents across resize",
  """Through the general-purpose allocator, every live block is aligned as requested, disjoint from every other live block, keeps the contents written to it until it is freed,
  and keeps the first min(old,new) bytes when resized; zeroing allocation variants return zeroed memory and duplicating variants exact copies.""",
  "histories", "all interleavings of alloc, aligned alloc, resize, copy/duplicate, free and free-all-of-a-set over many sizes and power-of-two alignments",
  "tests do single allocations; corruption needs a history of overlapping lifetimes",
  "code/header/essentials/memory.h code/source/essentials/memory.c", [("heap allocator procedure and default resize", "code/source/essentials/memory.c")],
  ["addresses", "block contents"],
  "stateful generation of allocation histories against a model map of live blocks with pattern contents; ASan for overlap and lifetime errors")
p("M03", "Heap statistics equal the live allocations",
  """In the allocation-statistics build, after any history of allocations (of any size and power-of-two alignment), resizes, frees and refused requests, the reported number and total size of live heap allocations equal those of the history, blocks still satisfy their alignment and keep their contents, and a request the system refuses returns nothing and changes no statistic.""",
  "histories fault_sequences", "all interleavings of alloc, aligned alloc, resize, free and refused (huge) requests",
  "tests never enable the statistics build; the accounting depends on the header in front of each block, its alignment and failure paths",
  "code/header/essentials/memory.h code/source/essentials/memory.c", [("statistics header in front of each block", "code/source/essentials/memory.c")],
  ["reported heap statistics", "addresses", "block contents"],
  "the M02 histories run against a build with the statistics option, the model summing the live blocks; requests the system must refuse are injected")
p("A01", "Arenas hand out disjoint aligned memory within their bounds",
  """Every block an arena returns lies wholly inside the arena's memory, is aligned as requested and is disjoint from all blocks handed out since the last reset; a request that does not fit returns nothing and changes nothing.
  Ending a temporary-arena scope releases exactly what was allocated inside it, sub-arenas stay within their parent's block, and the reported remaining size never promises more than a following allocation gets.""",
  "histories", "all sequences of allocations (size, alignment), free-all, nested temporary scopes and sub-arenas over buffers of every size and misalignment",
  "no test exercises arenas; the faults appear only at the exact end of the buffer or with misaligned bases",
  "code/header/essentials/memory_custom.h code/source/essentials/memory_custom.c", [("arena bump allocation", "code/source/essentials/memory_custom.c")],
  ["addresses", "block contents", "usage counters through the size-remaining query"],
  "stateful histories over exact-size heap buffers, all live blocks pattern-filled and re-verified after every step; ASan catches writes past the buffer")
p("A02", "Pools hand out each block to at most one owner",
  """A pool serves the promised number of aligned, disjoint blocks of the promised size, and after any sequence of frees serves exactly as many again as were freed.
  Contents of live blocks are never changed by other pool operations, freeing everything makes the whole pool available again, and the pool's count of bytes in use is that of its live blocks.""",
  "histories", "all alloc/free/free-all histories for block counts, block sizes and alignments",
  "the tests allocate and free a fixed handful of blocks of one size; free-list corruption needs odd block sizes or particular free orders",
  "code/header/essentials/memory_custom.h code/source/essentials/memory_custom.c", [("free list threaded through the blocks", "code/source/essentials/memory_custom.c")],
  ["addresses", "block contents", "number of successful allocations"],
  "stateful histories against a set-of-live-blocks model with pattern contents")
p("A03", "Scratch allocator never lets live blocks overlap or leave its buffer",
  """Every block the ring-shaped scratch allocator returns lies inside its buffer, is aligned as requested, and is disjoint from every block that is still live, under every order of allocation, resizing and freeing; live blocks keep their contents, and a request it cannot serve returns nothing and disturbs no block.
  Freeing in allocation order reclaims room, and after everything is freed the whole buffer is available again.""",
  "histories", "all alloc/resize/free histories over scratch buffers of every size and misalignment",
  "no test exercises the allocator; overlap needs wrap-around with live blocks",
  "code/header/essentials/memory_custom.h code/source/essentials/memory_custom.c", [("scratch headers and free point", "code/source/essentials/memory_custom.c")],
  ["addresses", "block contents"],
  "stateful histories against a live-block model; ASan on the exact-size backing buffer")
p("A04", "Stack allocator obeys last-in-first-out discipline within its memory",
  """Every block a stack allocator returns lies inside its memory, is aligned as requested and is disjoint from every live block; freeing the most recent block restores the previous state, so the same request gets the same room again; growing keeps the contents of live blocks, a growth the backing allocator refuses (or whose size is not representable) returns nothing and changes nothing, and freeing everything makes the stack empty.""",
  "histories", "all alloc/free-last/free-all histories over stack memories of every size, fixed and growing",
  "no test exercises the allocator; the errors need particular size and alignment sequences or growth while blocks are live",
  "code/header/essentials/memory_custom.h code/source/essentials/memory_custom.c", [("stack block headers", "code/source/essentials/memory_custom.c")],
  ["addresses", "block contents"],
  "stateful histories against a stack model with pattern contents; ASan on the exact-size backing buffer")
p("C01", "Dynamic arrays behave as sequences",
  """After any sequence of append, bulk append, insert-at (any position up to the end), pop, remove-at, clear, resize, reserve, set-capacity, grow and fill operations a dynamic array holds exactly the element sequence that the same operations give on an ideal list, its count matches, its capacity is never below its count, and elements keep their values when storage moves. A growth the allocator refuses leaves the array unchanged.""",
  "histories", "all operation sequences over element sizes 1, 4, 8 and 24 bytes, including emptying and regrowing",
  "no test exercises arrays directly; the faults need growth at particular counts",
  "code/header/essentials/collections/array.h", [("array header and growth", "code/header/essentials/collections/array.h")], ["elements", "count", "capacity"],
  "model-based histories against std::vector for several element types")
p("C02", "Fixed buffers and ring buffers behave as bounded sequences",
  """A fixed-capacity buffer holds exactly the appended elements in order and never writes past its capacity; copies are independent and equal.
  A ring buffer delivers elements in first-in-first-out order, keeps the newest elements when it overflows, reports full and empty exactly when it is, and fetching n elements delivers the smaller of n and the number queued. The buffer operations are macros that take any expression and leave the program's variables alone.""",
  "histories", "all append/append-array/pop/clear/copy histories and ring append/get/get-array histories for every capacity",
  "no test exercises them; ring errors need wrap-around at particular head/tail positions",
  "code/header/essentials/collections/buffer.h code/header/essentials/collections/ring.h", [("head/tail arithmetic", "code/header/essentials/collections/ring.h")], ["elements returned", "full/empty answers"],
  "model-based histories against std::deque with bounded capacity")
p("C03", "Linked lists stay consistent in both directions",
  """After any sequence of insertions after any node and removals of any node, walking a linked list forwards visits exactly the expected nodes and walking backwards visits exactly the reverse.""",
  "histories", "all insertion/removal histories over up to 40 nodes",
  "no test exercises lists; a broken back link is invisible until a later removal or a backward walk",
  "code/header/essentials/collections/list.h", [("next/prev relinking", "code/header/essentials/collections/list.h")], ["forward and backward walks"],
  "model-based histories against std::list order")
p("C04", "Hash tables behave as maps",
  """After any sequence of set, get, remove, clear, grow and rehash operations, a lookup returns the value most recently set for that key if it is present and nothing otherwise, key/value slots of a lookup index are the key's own, and iteration visits every present entry exactly once and nothing else.
  This holds for every key set, including keys that collide.""",
  "histories", "all operation histories over dense, sparse and adversarially colliding 64-bit keys",
  "the tests insert a few keys once; chain corruption needs removals inside collision chains followed by growth",
  "code/header/essentials/collections/hashtable.h", [("hash chains through the entry array", "code/header/essentials/collections/hashtable.h")], ["lookup results", "iteration", "slots"],
  "model-based histories against std::map with colliding key generators")
p("S01", "Managed strings behave as byte strings with a tracked length",
  """After any sequence of make (from a C string, a byte range or a reserved size), append (character, C string, byte range, string, rune, formatted), assign, reserve-space, clear, trim, join and duplicate operations, with texts of any length, a managed string equals what the same operations give on an ideal byte string, stays NUL-terminated, and reports a length equal to its content and a capacity no smaller.
  Equality is equality of contents, and a growth the allocator refuses yields nothing and leaves the original intact.""",
  "histories", "all operation histories over contents with arbitrary non-NUL (and, for length-based operations, NUL) bytes",
  "no test exercises managed strings; faults need growth at particular lengths or particular separators",
  "code/header/core/string.h code/source/core/string.c", [("string header and growth", "code/source/core/string.c")], ["bytes", "length", "capacity", "terminator"],
  "model-based histories against std::string")
p("S02", "C-string helpers agree with the standard definitions",
  """For every input, the C-string helpers (length, bounded length, copy, append, bounded copy, compare with sign and antisymmetry, search for a character from both ends, prefix/suffix tests, tokenising, trimming, skipping to a delimiter with backslash escapes, case mapping, reversing, character classification, concatenation, duplication up to a maximum length and line splitting) give the result of their standard-library or documented definition and never read or write outside their arguments.""",
  "inputs", "all byte strings without inner NULs, including empty ones, bytes of 128 and above, and buffers that are exactly as large as needed",
  "no test exercises them; out-of-bounds accesses are invisible without exact-size buffers",
  "code/header/core/string.h code/source/core/string.c code/header/core/stringlib.h code/source/core/stringlib.c", [("inline character and string helpers", "code/header/core/string.h")], ["returned values", "destination bytes"],
  "differential against libc and std::string definitions on exact-size heap copies under ASan")
p("S03", "Numbers survive conversion to text and back",
  """For every 64-bit integer and every base from 2 to 64, conversion to text gives the canonical digit string, and for bases 2 to 10 and 16 parsing that text gives the number back.
  Parsing accepts exactly the numeric prefix (optional minus, optional 0x prefix when the base is 0 or 16, digits below the base), stops at the first character that cannot belong to it, and decimal real texts within 1e-290..1e290 parse to the value they denote within a relative error of 1e-13.""",
  "inputs", "all 64-bit integers (signed and unsigned), bases 2..64, and decimal texts with signs, fractions and exponents",
  "no test exercises them; errors sit at extremes (minimum integer, powers of two, bases)",
  "code/source/core/string.c code/header/core/string.h", [("digit conversion tables and loops", "code/source/core/string.c")], ["text", "value", "end pointer"],
  "round-trip and differential (strtoull/strtod) over boundary-biased integers and generated texts")
p("S04", "UTF-8 encoding and decoding are inverse on valid text and safe on any bytes",
  """Every Unicode scalar value encodes to its standard UTF-8 form and decodes back to itself with the right width; conversions between 16-bit and 8-bit text are inverse on text they can represent; on arbitrary bytes decoding never reads outside the input, always advances, and reports malformed sequences; unpaired surrogates are refused.""",
  "inputs", "all code points 0..0x110000, all byte strings up to a few hundred bytes, all buffer sizes",
  "no test exercises them; over-long forms, surrogates and truncated sequences are a handful among millions of inputs",
  "code/source/core/string.c code/source/core/stringlib.c", [("decode table and range checks", "code/source/core/string.c")], ["code point", "consumed width", "output bytes"],
  "exhaustive code-point enumeration inside generated batches plus arbitrary-byte differential against a reference decoder")
p("P01", "Formatted printing matches the C standard and respects its buffer",
  """For every format string built from the integer, character and string conversions (d i u x X o c s %% with hh h l ll z t, the '-' and '0' flags, widths and precisions given literally or by argument) and all argument values, the text produced equals what the C library produces for the same call; fixed-point reals are printed with the requested number of digits, padding and sign and a value less than one unit of the last digit away.
  Bounded printing never writes beyond the given size, always terminates a non-empty buffer, its output is a prefix of the unbounded output and truncation is reported; printing to an allocated buffer or a file of any length produces the whole text.""",
  "inputs", "format strings with up to eight conversions and literal text, all integer values, finite and non-finite doubles, strings of any length, and every buffer size",
  "the print tests fix a few formats; padding, sign, precision and truncation interact",
  "code/source/core/print.c code/header/core/print.h", [("conversion loop and padded writers", "code/source/core/print.c")], ["text", "return value", "guard bytes"],
  "differential against snprintf with generated formats through libffi-free fixed-arity calls; exact-size buffers under ASan")
p("O01", "Sorting permutes into order; searching finds; shuffling permutes",
  """For every input array, every element size and every consistent ordering, the comparison sort (also through every provided comparator at any field offset) and the radix sorts leave an ordered permutation of the input in the array given; binary search in an ordered array returns the index of an element equal to the key, or -1 exactly when there is none; reversing yields the exact reverse and shuffling some permutation.""",
  "inputs", "arrays of 0..2000 elements with duplicates, sorted, reversed, organ-pipe and random orders, element sizes 1..40 bytes",
  "no test exercises sorting; quicksort/insertion thresholds and stack handling depend on size and order",
  "code/source/core/sort.c code/header/core/sort.h", [("iterative quicksort with insertion threshold", "code/source/core/sort.c"), ("radix passes", "code/source/core/sort.c")], ["array contents", "found index"],
  "differential against std::stable_sort/lower_bound; multiset preservation; canaries around the array")
p("R01", "Random numbers are reproducible and stay in the requested range",
  """Two generators in the same state give the same sequence; every ranged integer or floating result lies within its inclusive bounds for every pair of finite bounds including the extreme ones, and every value of a small range can occur; the unique generator does not repeat a value within its cycle of 2^32; seeding ends however the clock moves meanwhile, and separately seeded generators differ.""",
  "inputs histories", "all seeds, all bounds including extremes and single-point ranges, long draws",
  "no test exercises the generator; range errors need extreme bounds",
  "code/source/core/random.c code/header/core/random.h", [("range reduction", "code/source/core/random.c"), ("quadratic-residue permutation", "code/source/core/random.c")], ["returned values"],
  "generated seeds and bounds; invariant on every draw; bijectivity of the unique sequence checked on long windows")
p("H01", "Checksums and hashes are the published functions",
  """For every byte string at every alignment, Adler-32, CRC-32, CRC-64, FNV-1 and FNV-1a (32 and 64 bit) and MurmurHash (32 and 64 bit, with any seed) return the value of the published algorithm, depend only on the bytes given, and read nothing else.""",
  "inputs", "all byte strings up to several kilobytes with block boundaries, all alignments 0..8, all seeds",
  "tests check one 12-byte string; table entries, tails and block-reduction boundaries are reached by other bytes and lengths only",
  "code/source/hashing.c", [("lookup tables and block loops", "code/source/hashing.c")], ["returned checksum"],
  "differential against bit-by-bit reference implementations written from the published definitions; single-bit-flip detection for the checksums")
p("H02", "Base64 encoding and decoding are inverse",
  """Encoding any byte string gives its standard padded Base64 text, decoding that text gives the bytes back, and decoding any byte string that is not whole groups of Base64 characters padded at the end is refused; neither reads outside the bytes given, and a refused text leaves nothing allocated.""",
  "inputs", "all byte strings up to several hundred bytes; all texts over and outside the Base64 alphabet with any padding",
  "tests encode and decode one string; every length modulo 3 and all byte values matter, and malformed input is not tested",
  "code/source/hashing.c", [("decode table", "code/source/hashing.c")], ["text", "bytes", "failure"],
  "reference encoder, round-trip, and malformed-input generation on exact-size buffers under ASan")
p("F01", "Memory streams behave as seekable byte sequences",
  """After any sequence of reads, writes and seeks at any offset, a memory stream opened with the matching flags delivers exactly the bytes an ideal file would: reads stop at the end, writes extend it when it may grow, the size follows the furthest write, and the caller's buffer is never read or written outside its bounds or when it must not be changed.""",
  "histories", "all sequences of read, read-at, write, write-at, seek, tell, size, over every stream flag combination",
  "the stream tests write and read a fixed string; overruns need reads past the end or writes past the capacity",
  "code/source/core/file_stream.c code/header/core/file_stream.h", [("capacity growth and copy", "code/source/core/file_stream.c")], ["bytes", "counts", "positions"],
  "model-based histories against an ideal byte vector with a cursor; ASan on exact buffers")
p("F02", "Files behave as seekable byte sequences",
  """After any sequence of open (each mode), read, read-at, write, write-at, seek, tell, size, truncate and close operations, the contents on disk and every result equal those of an ideal file; whole-file read and write helpers are inverse for every content, and opening a file for reading that does not exist reports that error. A file made from the program's own operations or from a handle of the system does the same through those, a new file gets the permissions the process's mask leaves, and an existing one keeps its own. A temporary file is an empty file of its own that leaves neither a name, a descriptor nor memory behind.""",
  "histories fault_sequences", "all operation sequences and modes on files in a scratch directory, all contents, sizes across block boundaries, missing/forbidden paths",
  "no test exercises files beyond one call",
  "code/source/core/file.c code/source/core/file_misc.c code/header/core/file.h", [("POSIX file backend", "code/source/core/file.c")], ["bytes on disk", "return values", "file errors"],
  "model-based histories against an ideal file, cross-checked by reading the file with libc")
p("F03", "Path and directory functions report the file system as it is",
  """For every directory tree, existence, type, size and last-write-time queries match the file system, copy and move produce exactly the file they should (respecting the do-not-overwrite request), directory listings (flat and recursive) name exactly the entries that exist, and path functions (base name, extension, absolute/relative tests, full path) match their definitions on every path string.""",
  "inputs histories", "generated directory trees, file contents and path strings",
  "no test exercises them",
  "code/source/core/file_misc.c code/header/core/file_misc.h code/source/core/file.c", [("dirent walking", "code/source/core/file_misc.c"), ("path scanning", "code/source/core/file_misc.c")], ["returned values", "directory contents"],
  "generated trees in a scratch directory compared with std::filesystem")
p("T01", "A packed archive unpacks to the same files",
  """Packing any set of files and unpacking the archive yields exactly the same names, sizes and contents in the same order; the archive has valid header checksums and is readable by an independent reader. When the medium of the archive or the target fails or is full, an error is reported, never success.""",
  "inputs", "sets of 0..8 files with names up to the format's limit and contents of every size around the 512-byte block",
  "no test exercises archives",
  "code/source/core/file_tar.c code/header/core/file_tar.h", [("header construction and block padding", "code/source/core/file_tar.c")], ["archive bytes", "unpacked entries"],
  "round-trip plus an independent tar reader in the harness over generated file sets")
p("T02", "Unpacking any bytes terminates safely",
  """Unpacking an arbitrary, truncated or corrupted archive terminates, reads nothing outside the archive and reports an error or a correct prefix of entries; unpacking to a directory never writes outside it, and a listing names every regular entry in order.""",
  "inputs fault_sequences", "arbitrary bytes, valid archives with byte flips, truncations and hostile names",
  "no test exercises archives",
  "code/source/core/file_tar.c", [("header validation", "code/source/core/file_tar.c")], ["termination", "result code", "paths given to the unpacker"],
  "mutation of valid archives and structure-aware generation under ASan with a step limit")
p("J01", "Parsing any text as JSON is memory-safe and terminates",
  """For every NUL-terminated text, JSON parsing terminates with success or an error, without reading or writing outside the text, and the resulting tree can be walked, written and freed without leaking; a parse that fails leaves the text as it was, so it can be tried again, and running out of memory is reported as an error.""",
  "inputs", "all byte strings up to a few kilobytes, generated JSON-like documents with mutations, in every language variant the parser accepts",
  "tests feed some twenty fixed documents; the parser scans for delimiters in place, so unterminated constructs run off the end",
  "code/source/parsers/json.c code/source/adt.c", [("in-place token scanning", "code/source/parsers/json.c")], ["termination", "sanitizer silence", "result code"],
  "structured generation plus mutation, and coverage-guided fuzzing of the same harness, on exact-size buffers under ASan")
p("J02", "JSON documents parse to their meaning",
  """For every valid JSON document the parse succeeds and yields a tree with exactly the document's structure: object members in order with their names, array elements in order, strings with the characters between their quotes (escape sequences are kept as written), numbers with their values, and the literals true, false, null, NaN and Infinity. The simplified notation is understood as documented: comments, unquoted and single-quoted names, "=" and "|" in place of ":", line breaks or "|" in place of commas, trailing commas, backtick strings, and a document without outer braces.
  Documents with a syntax error of the listed kinds (missing name, assignment or value, doubled separator, unknown word, mismatched closer, unterminated construct) are rejected.""",
  "inputs", "generated documents of every shape with random whitespace, comments and simplified-notation features, and single-fault mutations of them",
  "tests check selected documents and fields only",
  "code/source/parsers/json.c code/source/adt.c", [("recursive-descent parser", "code/source/parsers/json.c")], ["tree structure", "result code"],
  "grammar-based generation of a document together with its intended tree, compared node by node; single-fault mutation must be rejected")
p("J03", "Writing a tree as JSON and parsing it back gives the same tree",
  """Any tree that the tree API can build from objects, arrays, strings, integers, reals and literals, or that parsing produced, written as JSON (indented or compact, in any name, assignment and delimiter style) and parsed back yields an equal tree, and writing the parsed tree gives the same text again. A quote inside a string that was not escaped comes back escaped; reals set by the program keep six decimals and a zero may come back as an integer. The text of a plain tree has, compact, no line breaks and no blanks between tokens but those after the commas of arrays, and, indented, every member of an object on a line of its own, four columns further in than the object.""",
  "inputs", "generated trees of depth up to 6 with all value kinds, names and styles",
  "tests round-trip a few fixed documents",
  "code/source/parsers/json.c code/source/adt.c", [("writer and parser", "code/source/parsers/json.c")], ["text", "tree"],
  "round-trip of generated trees; idempotence of write-parse-write")
p("V01", "CSV parsing and writing are inverse and safe on any text",
  """For every table of text and number cells, with or without a header and for every delimiter that is no quote or line break, the written CSV text parses back to the same cells and columns. Parsing follows the quoting rules (quotes doubled, delimiters and line breaks allowed inside quotes, white space around fields and blank lines ignored, fields that are a number as a whole become numbers outside the header, all others stay the text they are, empty fields included); tables with a longer or shorter row, an open quote or no field are rejected; and parsing any text terminates without reading outside it, even when memory runs out.""",
  "inputs", "generated tables with every delimiter, header on or off, quoted/unquoted/empty fields, numbers and text, plus arbitrary bytes",
  "tests feed some twenty fixed tables",
  "code/source/parsers/csv.c code/source/adt.c", [("in-place field scanner", "code/source/parsers/csv.c")], ["cells", "text", "result code"],
  "reference CSV semantics, round-trip, and arbitrary bytes on exact-size buffers under ASan plus coverage-guided fuzzing")
p("U01", "URI parsing and writing are inverse and safe on any text",
  """For every URI with an optional origin and query parameters (separated by "&" or "?", ending at the first white space), parsing yields the origin and the decoded name/value pairs in order, with plus signs and percent-encoded bytes decoded, numbers recognised and a parameter without value reported as true; writing an origin and parameters of any text, number or no value yields a URI of permitted characters that parses to the same tree (a text that is a number comes back as one); and parsing any text terminates without reading outside it.""",
  "inputs", "generated URIs with percent-encoded, plus-encoded, empty and valueless parameters, plus arbitrary bytes",
  "tests feed a handful of fixed URIs",
  "code/source/parsers/uri.c code/source/adt.c", [("percent decoder and parameter splitter", "code/source/parsers/uri.c")], ["tree", "text", "result code"],
  "reference percent-decoding, round-trip, arbitrary bytes on exact-size buffers under ASan plus coverage-guided fuzzing")
p("D01", "Trees stay consistent under any history of edits",
  """After any sequence of append, insert-at, move (also within one container), swap, remove and set operations on a document tree, including ones refused for a wrong position or lack of memory, every container holds exactly the expected children in the expected order with the expected values, and every node reports the container it is in. The append and set macros that choose by the type of the value store that value: text, integers and both floating types.""",
  "histories", "all edit histories over trees of up to 60 nodes",
  "tests do single edits on fixed trees; stale links appear after storage moves",
  "code/source/adt.c code/header/adt.h", [("children stored by value in a growing array, parent back pointers", "code/source/adt.c")], ["children, names, values, parent of every node"],
  "model-based histories against an ideal tree, full comparison after every step")
p("D02", "Tree queries and searches find exactly the addressed node",
  """A path query (member names, array indices, [field=value] and [value] filters, separated by slashes) and a search by name (in one object, or through nested objects) return the node an ideal walk over the tree returns, the first one when several match, or nothing when there is none, for every tree and every query string, names and indices of any length included; the tree and the query stay unchanged.""",
  "inputs", "generated trees and queries: names, indices, [name=value] filters, wildcards of the documented syntax, and arbitrary bytes",
  "tests issue a handful of queries",
  "code/source/adt.c", [("query interpreter", "code/source/adt.c")], ["returned node"],
  "reference query interpreter over the model tree; arbitrary query bytes under ASan")
p("D03", "Number texts parse to their value and print back",
  """Every integer and decimal literal in the supported notations (sign, hexadecimal, fraction, exponent) parses to the value it denotes, within 1e-12 relative for reals, and is classified as integer or real accordingly (an integer outside 64 bits becomes a real), and parsing ends right behind it; printing the node writes a text that denotes the same value; the strict conversion accepts exactly the texts that are one number as a whole and leaves other nodes alone; any text is handled without touching memory outside it.""",
  "inputs", "generated literals of every notation, digit count and exponent, plus arbitrary bytes",
  "tests parse a few short literals",
  "code/source/adt.c", [("number scanner with fixed buffers", "code/source/adt.c")], ["node type and value", "printed text"],
  "differential against strtoll/strtod with generated literals; print-parse round-trip; arbitrary bytes under ASan")
p("X01", "Command-line options are compiled to what the arguments say",
  """For every declaration of options and every argument vector in the documented notations, each option reports the value given last for it and its fallback when not given, flags are set exactly when given without a value, positionals take the remaining arguments in the order they were registered (an option given by name no longer waits for one), and missing values, extra values and unknown options are each reported as an error naming the argument; the help and error screens list every option, positional and error, one to a line and the positionals in the order they are filled in.""",
  "inputs", "generated option sets and argument vectors: short, long, =, space-separated, quoted, flags, positionals, faults",
  "no test exercises option parsing",
  "code/source/opts.c code/header/opts.h", [("argument scanner", "code/source/opts.c")], ["option values", "error list"],
  "reference interpreter of the documented notation over generated option sets and argument vectors")
p("E01", "Regular expressions match what their definition says",
  """An expression compiles exactly when it is well-formed in the documented notation (or is refused as too long), and for every text, matching succeeds exactly when some position of it (the end included) matches by the backtracking definition (leftmost, alternatives in order, greedy and lazy quantifiers); the reported end and the capture groups that take part are the ones of that match; matching all yields the successive matches; compiling or matching any byte string never touches memory outside its arguments, leaks nothing, and terminates.""",
  "inputs", "generated expressions (literals, classes, groups, alternation, quantifiers, anchors, escapes) with texts generated to match or nearly match; arbitrary bytes",
  "no test exercises regular expressions",
  "code/source/regex.c code/header/regex.h", [("compiler to byte code and matcher", "code/source/regex.c")], ["match result", "captures", "compile result"],
  "reference backtracking matcher over the generated syntax tree; arbitrary bytes under ASan plus coverage-guided fuzzing")
p("G01", "Scalar math functions match their definitions",
  """Rounding, remainder, sign-copy, clamping, interpolation, angle, classification, power and trigonometric functions agree with the C library or their definition for every argument of their domain within a few units of rounding (rounding, signs and clamping exactly); the truncated and the nearest remainder satisfy their laws for quotients up to 2^20; half-precision conversion round-trips every half value and rounds to a nearest half; the mathematical constants have their values.""",
  "inputs", "all 16-bit half patterns, all float classes including negatives, integers, halves, infinities and NaN, random values",
  "no test exercises math",
  "code/source/math.c code/header/math.h", [("scalar helpers", "code/source/math.c")], ["returned values"],
  "differential against libm in double precision with boundary-biased floats; exhaustive over half patterns")
p("G02", "Vector, matrix and quaternion operations obey linear algebra",
  """Vector operations agree component-wise with their definitions (also into an operand); matrices are column-major and act on column vectors: products, transposes, determinants and inverses of every size satisfy the algebraic laws and agree with that action; translation, rotation, scaling, projection and look-at builders act on points as defined (the corners of the view volume map to the corners of the clip cube, the eye to the origin); quaternion products, inverses, axis/angle and pitch/yaw/roll extraction (rotations about x, then y, then z) and rotation agree with the matrix a quaternion converts to and from; interpolation stays on the arc between its ends; reflection and refraction obey their laws; frustum culling keeps every point, sphere and box that shares a point inside the view volume and drops what lies wholly behind one of its planes.""",
  "inputs", "well-conditioned random vectors, matrices, angles and axes; special cases (zero, identity, axis-aligned, opposite)",
  "no test exercises math",
  "code/source/math.c code/header/math.h", [("matrix and quaternion kernels", "code/source/math.c")], ["component values within a tolerance"],
  "metamorphic laws and double-precision references with error bounds derived from operand magnitudes")
p("G03", "Rectangles and boxes obey set geometry",
  """Containment, intersection, expansion, contraction and cutting of rectangles and boxes agree with the geometry of the half-open regions they denote (rectangles of negative size included): an intersection contains exactly the common points and is reported exactly when there are some, cutting splits a box into parts that tile it and never exceeds it, getting a part equals cutting it, contracting moves each side inwards and yields the zero box exactly when the sides cross, and expanding is contracting by the opposite amount.""",
  "inputs", "random, nested, touching, disjoint and empty rectangles and boxes, integer-valued so that arithmetic is exact",
  "no test exercises geometry",
  "code/source/math.c code/header/math.h", [("rectangle/box helpers", "code/source/math.c")], ["returned regions and answers"],
  "set-of-points model on an integer grid")
p("K01", "Atomic operations are indivisible and locks exclude",
  """Concurrent fetch-and-add, exchange, compare-exchange, and/or operations of any mix of threads lose no update and return values consistent with some order of the operations; between taking and releasing a spin lock no other thread holds it, and try-acquire succeeds exactly when it obtained the lock (also when taken with exchange or compare-exchange and released with a store); ordinary data written before a release is seen after the matching acquire, both through the library and when the header is compiled into one C++ file, and a load never returns a value nobody stored.""",
  "schedules", "generated thread counts, operation mixes and iteration counts, many real schedules on 8 cores, both 32 and 64 bit and pointer variants",
  "no test exercises threading",
  "code/source/threading/atomic.c code/header/threading/atomic.h", [("inline assembly read-modify-write", "code/source/threading/atomic.c")], ["final values", "returned values", "critical-section overlap"],
  "generated multi-threaded programs; permutation/sum/linearisability oracles on the returned values; exact single-threaded semantics by differential")
p("K02", "Mutexes, semaphores, threads and barriers synchronise",
  """A mutex admits one thread at a time, a semaphore admits exactly as many as released and never loses a release, a mutex's try-lock says whether it took the mutex, joining a thread returns after its function finished with its result, a thread that cannot be created is reported, and a group barrier releases its threads only when the target number has arrived.""",
  "schedules", "generated programs of up to 8 threads with random counts and yields",
  "no test exercises threading",
  "code/source/threading/mutex.c code/source/threading/sem.c code/source/threading/thread.c code/source/threading/sync.c", [("pthread wrappers", "code/source/threading/thread.c")], ["invariants over the event history"],
  "generated multi-threaded programs with history invariants and a deadlock watchdog")
p("K03", "Every queued job runs exactly once and shutdown terminates",
  """Each job accepted by the job system runs exactly once with its own argument, jobs refused for lack of space do not run, at most as many jobs run at once as there are workers, one worker runs the jobs of one priority in the order they were queued, the empty/full/done queries agree with the history, and freeing the system at any moment returns: it waits for running jobs, stops every worker, releases all memory, and no job runs afterwards or twice (jobs not yet started may be dropped).""",
  "schedules histories", "generated numbers of workers, queue sizes, job sets and priorities",
  "no test exercises jobs",
  "code/source/jobs.c code/header/jobs.h", [("worker state machine", "code/source/jobs.c")], ["per-job run counters", "termination"],
  "generated job histories; per-job counters; deadlock watchdog; many short create/free cycles")
p("N01", "Loopback sockets deliver bytes unchanged",
  """Over loopback, bytes sent on a stream connection arrive complete and in order in whatever chunks they are sent and received, the end of the stream is reported as such, datagrams arrive whole and unchanged (cut to the buffer), the addresses reported for a socket, a caller and a sender are the real ones, and select tells whether there is something to receive and otherwise waits its time; an operation that cannot succeed (invalid input, a closed peer, a handle select cannot represent) reports an error, leaves no descriptor open and neither ends the process nor touches foreign memory.""",
  "inputs histories", "generated message sizes and chunkings, IPv4, stream and datagram modes",
  "no test exercises sockets",
  "code/source/socket.c code/header/socket.h", [("POSIX socket wrappers", "code/source/socket.c")], ["received bytes", "reported addresses"],
  "generated transfers over 127.0.0.1 with per-run ports")
p("W01", "Clock readings are consistent with the system clock",
  """Relative time starts at zero, never decreases and advances with the system's clock, whichever threads ask; absolute time agrees with the system's real-time clock in the documented epoch and unit, local time with it and the zone in force at that instant; conversions between units are exact, and sleeping lasts at least the requested time, also when signals arrive.""",
  "inputs histories", "simulated clocks at generated instants and zones (next to changes of the offset), generated schedules of threads, sleeps interrupted by signals; the real clock as well",
  "tests call each function once",
  "code/source/core/time.c code/header/core/time.h", [("clock_gettime wrappers", "code/source/core/time.c")], ["returned times bracketed by the system clock"],
  "simulated clocks replace the C library's; no upper bound on durations is asserted")

p("M04", "Virtual memory regions are private, page-aligned and released exactly",
  """A region taken from the system is page-aligned, zeroed, of the size asked for, lies at the requested address when that is free and never overlaps a region in use; trimming keeps exactly the requested part with its content and gives every whole page before and behind it back; purging keeps the region usable and empties it; freeing unmaps exactly the region; whether an operation worked is reported truthfully, and a refused region is NULL and of size zero.""",
  "inputs histories", "generated histories of allocation (anywhere, at free and at taken addresses), writing, trimming, purging and freeing with sizes around page multiples; requests the system must refuse",
  "no test exercises virtual memory",
  "code/source/core/memory_virtual.c code/header/core/memory_virtual.h", [("mmap wrappers", "code/source/core/memory_virtual.c")], ["which pages are mapped", "bytes of live regions", "returned status"],
  "model of live regions and their bytes; the kernel is asked page by page what is mapped")
p("Y01", "System services do what they say",
  """The environment behaves as a map from names to values (a copy given out stays as it was; impossible names change nothing); a system command's output is delivered byte for byte, completely or up to the buffer's size, never beyond it, and leaves neither a child process, a descriptor nor memory behind, also when memory or descriptors run out; a shared library stays loaded until every load of it is undone, its symbols are found and absent libraries or symbols are reported as NULL; an assertion that fails reports condition, file, line and message (whatever characters they contain) and stops the program, one that holds does nothing but evaluate its condition once.""",
  "inputs histories", "generated histories of environment changes, commands with generated binary output and buffer sizes, library load/use/unload histories, assertions with generated messages; refused memory and exhausted descriptors",
  "no test exercises these services",
  "code/source/core/misc.c code/source/dll.c code/source/essentials/debug.c code/header/essentials/debug.h", [("environment and command wrappers", "code/source/core/misc.c"), ("library loading", "code/source/dll.c"), ("assertion report", "code/source/essentials/debug.c")], ["returned bytes", "children and descriptors", "error output and exit of a forked program"],
  "map model of the environment; commands whose output is known; load counts; forked assertions")
p("M05", "Running out of memory is reported, never a crash or a loss",
  """Whichever single request, run of requests or all further requests the allocator of an operation refuses, the operation reports failure in its documented way (a null pointer, false, an error code or an empty result), does not crash, corrupt memory or report success with part of the result, leaves the containers it was given with the contents they had (or, for a bulk operation, as specified) and leaks neither memory nor descriptors: duplicating and splitting strings, base64, formatted allocation, arrays, fixed buffers, rings, tables, pools, arenas, stacks, managed strings, regular expressions, command-line options, reading files, listing, packing and describing directories, opening files, the environment, job systems and writing documents to a string. What was refused can be tried again or released.""",
  "inputs fault_sequences histories", "generated inputs and operation histories with generated refusals (one request, a window, everything from a point on), for allocators given to the operation and for the general heap",
  "tests run with an allocator that never refuses",
  "code/header/core/string.h code/header/essentials/memory_custom.h code/header/essentials/collections/array.h code/header/essentials/collections/hashtable.h code/source/opts.c code/source/regex.c code/source/core/file.c code/source/core/file_misc.c code/source/jobs.c",
  [("growth of containers", "code/header/essentials/collections/array.h"), ("directory listings", "code/source/core/file_misc.c"), ("option storage", "code/source/opts.c")], ["returned status", "container contents", "blocks and descriptors left"],
  "fault injection at every allocation request; success iff nothing was refused, contents as in the model, nothing left")

p("B01", "Configuration decides what is present, never what it does",
  """Whichever distribution (full, nano, pico, a custom set of modules), enabled and disabled modules, documented options, language (C or C++, any supported standard), compiler, optimisation and way of linking (a single unit, several units, a static or shared library, everything static) is chosen: the library builds, brings along what a chosen module depends on, provides every function its header declares, and each part that is present behaves as it does in the default configuration; reals may differ by rounding when the C math library is left out, and formatting details a parser's analysis records are absent when it is disabled.""",
  "configurations inputs", "generated selections of modules, options, compilers, language standards, flags and ways of linking; in each, a driver runs generated inputs through every module that is present",
  "tests are built in one configuration",
  "code/zpl.h code/header/essentials/helpers.h code/header/essentials/types.h code/source/math.c code/source/adt.c code/source/parsers/json.c code/source/essentials/memory_custom.c",
  [("module selection and linkage macros", "code/zpl.h"), ("routines without math.h", "code/source/math.c"), ("analysis guards", "code/source/parsers/json.c")], ["exit status of compiler and linker", "output of the driver"],
  "differential: the same generated inputs in the default configuration; every declared function is linked")

NA = {}
