"""What each property's check runs: harness, case budgets, and what the evidence says about it."""
A_PRE = "documented preconditions (assertions, valid iterators and positions, bitwise-movable elements, no argument aliasing the container's own elements) are respected by the generators"
PROPS = {
"C01": {"harness": "c01.cc", "tiers": {"quick": (60000, 45), "thorough": (1500000, 500)},
  "rule": "operation histories of 1..41 operations over two vectors of ten element types, each compared with std::vector after every operation; a history is non-trivial when it reallocated at least once and inserted or erased in front of existing elements",
  "assumptions": [A_PRE]},
"C02": {"harness": "c02.cc", "tiers": {"quick": (120000, 45), "thorough": (500000, 500)},
  "rule": "operation histories on each container with an element type that accounts for every construction and destruction; live elements are compared with a model after every operation, heap bytes at the end; non-trivial: the history inserted inside and removed elements (or met duplicates and removals)",
  "assumptions": [A_PRE]},
"C03": {"harness": "c03.cc", "tiers": {"quick": (160000, 45), "thorough": (1000000, 500)},
  "rule": "operation histories over several blocks, strings or vectors, some linked to outside memory kept under watch, compared with value models and with an ownership model after every operation; non-trivial: at least one link was made and at least one linked object took a private copy",
  "assumptions": [A_PRE, "memory linked to a string is nul-terminated, as the class requires"]},
"C04": {"harness": "c04.cc", "tiers": {"quick": (160000, 45), "thorough": (1000000, 500)},
  "rule": "operation histories of 1..37 of 46 edit forms over two strings, compared with std::string (bytes, size, terminator, returned positions) after every operation; non-trivial: at least two edits strictly inside the text (or a single edit inside it, in the one-edit test)",
  "assumptions": [A_PRE]},
"C05": {"harness": "c05.cc", "tiers": {"quick": (180000, 45), "thorough": (2000000, 500)},
  "rule": "generated text, pattern and start position over alphabets of 1 to 256 characters, in owned, exactly-sized and linked strings; every search and comparison form against std::string; non-trivial: the pattern occurs more than once (or the two strings share a prefix, for comparisons)",
  "assumptions": ["searching for an empty pattern is excluded: the library documents npos for it", A_PRE]},
"C06": {"harness": "c06.cc", "tiers": {"quick": (240000, 45), "thorough": (1000000, 500)},
  "rule": "formats with up to three conversions of all kinds, flags, widths and precisions, with matching arguments, into strings in eight states, repeatedly; against snprintf; non-trivial: a result longer than 30 bytes",
  "assumptions": ["formats are valid and arguments do not alias the string"]},
"C07": {"harness": "c07.cc", "tiers": {"quick": (480000, 45), "thorough": (2000000, 500)},
  "rule": "code points over the whole 32 bit range with every length boundary, and texts of them, against an independent encoder written from the table in utf8.h; non-trivial: the text has more than two characters with at least one of several bytes",
  "assumptions": ["code point 0 is excluded inside strings whose end it would be"]},
"C08": {"harness": "c08.cc", "tiers": {"quick": (30000, 25), "thorough": (800000, 500)},
  "rule": "histories of 2..41 operations over two sets, multisets, maps or multimaps of many key types and orderings (coarse orderings with distinguishable equal keys included), each compared with the std container of the same ordering after every operation, lookups included; non-trivial: the history met duplicate keys and removed elements",
  "assumptions": [A_PRE, "orderings are stateless strict weak orderings"]},
"C09": {"harness": "c09.cc", "tiers": {"quick": (80000, 45), "thorough": (1000000, 500)},
  "rule": "histories of 2..71 operations over two queues, stacks or priority queues (five element types, orderings with state), and heap algorithms on generated ranges, against deque, vector and multiset models; non-trivial: several elements were taken out again (for heaps: more than three elements)",
  "assumptions": [A_PRE]},
"C10": {"harness": "c10.cc", "tiers": {"quick": (50000, 25), "thorough": (1200000, 500)},
  "rule": "histories of 2..41 operations over two lists of five element types (equal but distinguishable elements included) against std::list after every operation; non-trivial: a whole-list operation (splice, remove, unique, sort, merge, reverse) and an insertion or erasure strictly inside",
  "assumptions": [A_PRE, "sort is not promised to be stable; merge is"]},
"C11": {"harness": "c11.cc", "tiers": {"quick": (180000, 45), "thorough": (1500000, 500)},
  "rule": "generated ranges (exactly sized, of four element types and five alphabets), patterns cut from them, values, predicates and orderings with state; every non-modifying algorithm against std, through pointers, reverse iterators and containers; non-trivial: more than two elements (for searches: a pattern of two or more that occurs)",
  "assumptions": ["ranges given to ordered searches are partitioned as the algorithms require"]},
"C12": {"harness": "c12.cc", "tiers": {"quick": (30000, 25), "thorough": (800000, 500)},
  "rule": "generated ranges (exactly sized, of four element types, equal but distinguishable elements included), values, predicates, orderings with state, split points and output buffers with surplus; outputs, returned positions and untouched neighbours against std; non-trivial: more than two or three elements (for rotations: a split strictly inside)",
  "assumptions": ["outputs of unique_copy and partial_sum can be read back (forward iterators)", A_PRE]},
"C13": {"harness": "c13.cc", "tiers": {"quick": (10000, 25), "thorough": (1500000, 500)},
  "technique": "property-based testing against byte loops over generated lengths, alignments and overlaps, between inaccessible pages",
  "rule": "one copy, fill or rotation per case with a generated element type, length 0..9000 (up to 320 kB for rotations), alignment, overlap and placement against inaccessible pages; every byte of the surrounding pages, the returned position, the direction flag and the floating point unit are checked afterwards; non-trivial: more than 16 bytes (and actual overlap, or a split strictly inside)",
  "assumptions": ["typed pointers are aligned to their element type; raw byte functions get any address", "overlap only in the direction each function supports"]},
"C14": {"harness": "c14.cc", "tiers": {"quick": (30000, 45), "thorough": (500000, 500)},
  "technique": "round-trip and differential property-based testing against an independent encoder of the binary layout",
  "rule": "generated values of 80 streamable types and nestings written at generated positions, compared byte for byte with an independent encoder, with the announced size, and read back into used objects; and histories of values, raw bytes, alignments, skips and seeks against a byte image; non-trivial: more than four bytes (several values; for histories more than two values and a seek backwards)",
  "assumptions": ["stream buffers start 16 byte aligned and values are placed at the alignment of their type, as the stream classes require (the announced size of a value placed elsewhere is not compared)", "seekg and seekp from the end are used by nobody and not compared", A_PRE]},
"C15": {"harness": "c15.cc", "tiers": {"quick": (12000, 25), "thorough": (500000, 500)},
  "technique": "structure-aware fuzzing (truncations, mutations, random bytes) of every streamable type against an independent decoder, and stateful testing of stream operations against a position model",
  "rule": "valid encodings of 80 types cut at generated (and at every) length or mutated, and arbitrary bytes, read with five exception masks from blocks that end at an inaccessible page or an exact allocation; the independent decoder says whether the read succeeds, where it ends and what it gives; writes into buffers that are too small; histories of reads, writes, seeks and skips; exception objects and backtraces; non-trivial: the read was refused or did not use the whole block (for histories: something was refused and something was read)",
  "assumptions": ["values are placed at the alignment of their type; the library asserts that", "with assertions on, formats of exceptions are asserted, so damaged exceptions are read in the release flavor only", "lengths of strings that are not canonical UTF-8 are only checked for safety"]},
"C16": {"harness": "c16.cc", "tiers": {"quick": (48000, 45), "thorough": (400000, 500)},
  "technique": "stateful property-based testing of text streams against a text model formatted by snprintf, and differential testing against std::ostringstream",
  "rule": "histories of 1..40 writes of every printable type and container, raw and formatted text of 0..5000 bytes, flag, width, fill and precision changes, seeks, flushes and replacements of the text, on growing streams and on streams over exactly sized memory; non-trivial: more than three writes and 40 characters (over memory: more text than memory; for single values: flags and a width)",
  "assumptions": ["fill is a space or 0, as documented", "sign, point and case flags are set for integers only", "fields of the overwritten text after a formatted write in the middle of the text are not compared", A_PRE]},
"C17": {"harness": "c17.cc", "tiers": {"quick": (45000, 45), "thorough": (400000, 500)},
  "technique": "stateful property-based testing of text extraction against an independent tokenizer over generated texts, and output/input round trips",
  "rule": "texts of 0..72 generated tokens (numbers of all bases and edge values, words, quoted and escaped text, booleans, UTF-8, arbitrary bytes) between delimiters, read by 1..31 generated extractions of every kind from exactly sized memory and from files through buffers of 1..65 or 4095 bytes, with and without exceptions; values written as text and read back; non-trivial: more than three extractions got something (an exception was thrown; more than three values came back)",
  "assumptions": ["values outside the range of the type read are not compared", "reading the last token of the text may set the failure state besides giving the value", "wide characters are compared where they are canonical UTF-8"]},
"C18": {"harness": "c18.cc", "tiers": {"quick": (16000, 45), "thorough": (200000, 500)}, "level": "fault_enumeration", "guard": False, "wrap": ["read", "write", "fsync", "close", "lseek", "mmap"],
  "technique": "stateful property-based testing with generated system call faults (short transfers, interruptions, EAGAIN, errors) against a byte image and the log of what the calls transferred",
  "rule": "histories of 2..42 operations over raw, output and input file streams on an anonymous file (and pipes, and whole-block files) with text of 0..15000 bytes, buffers of 1..600 or 4095 bytes, five exception masks, and a generated plan of what each of the first 30..80 system calls does; the standard streams over stand-ins of descriptors 0..2; non-trivial: more than two transfers and, where faults were planned, at least one was injected",
  "assumptions": ["an interrupted close is not injected (what it means differs between systems)", "EAGAIN comes a finite number of times: the library retries", "after a failed write of text, how much of that last text was taken is not promised, but it is a beginning of it", A_PRE]},
"C19": {"harness": "c19.cc", "ldflags": ["-rdynamic"], "tiers": {"quick": (24000, 45), "thorough": (150000, 500)},
  "technique": "stateful property-based testing of error objects (make, copy, assign, throw, write, read) against their expected report, and differential testing of error codes against std",
  "rule": "errors of 17 types made from generated texts of 0..5000 bytes (destroyed before the error is looked at), error numbers -20..5000 and sizes, at call depths of 0..90, put through histories of 1..6 copies, assignments, throws and serialisations; pairs of error codes and all errc values; type names demangled in exactly sized buffers; backtraces of generated call chains of 1..85 frames, with names of up to over 255 characters, against backtrace and backtrace_symbols; non-trivial: more than one copy or serialisation (for backtraces: over eight frames; for codes: two different nonzero codes; for names: more than three characters)",
  "assumptions": ["file names are kept up to PATH_MAX-1 characters and type names are printed up to 255", "error_code::read and write are declared and not defined by the library"]},
"C20": {"harness": "c20.cc", "tiers": {"quick": (120000, 45), "thorough": (500000, 500)},
  "technique": "stateful property-based testing against std::bitset over 31 sizes",
  "rule": "histories of 1..30 operations (single bits, ranges, whole-set, logic, values, texts, text and binary round trips, copies) over two bitsets of one of 31 sizes from 1 to 1024 against std::bitset after every operation; bit strings of 0..4 words in texts of 0..137 characters; non-trivial: two whole-set operations and a single bit or range operation (for bit strings: more than a word)",
  "assumptions": ["bits beyond the size may be counted and compared after operations known to set them (known finding tail_bits); everywhere else they must not exist", "bit ranges lie in one 32 bit word, as asserted"]},
"C21": {"harness": "c21.cc", "tiers": {"quick": (300000, 45), "thorough": (800000, 500)},
  "technique": "differential property-based testing of generic and hardware accelerated operations against scalar arithmetic",
  "rule": "one operation per case on tuples, arrays (10 element types, 7 sizes, and sizes over 255) or matrices (15 shapes) of generated values at generated addresses, between bytes that must not change, compared element by element with scalar arithmetic, and the floating point unit used afterwards; non-trivial: more than one element",
  "assumptions": ["operands for which the scalar operation is undefined (signed overflow, division by zero) are not generated", "inexact sums of float products may be rounded in another order"]},
"C22": {"harness": "c22.cc", "tiers": {"quick": (450000, 45), "thorough": (1500000, 500)},
  "technique": "differential property-based testing against 128 bit integer arithmetic, and generated compile-time ratio programs",
  "rule": "conversions between 18 units and 4 counts types of generated counts near multiples of the ratio and near the representable limits; comparison and arithmetic of mixed units; arithmetic histories of 1..24 operations in 16 units; second and nanosecond values of either sign through histories of 1..20 operations around carries; 500 compile-time programs over pairs of ratios; clocks against clock_gettime; all against 128 bit integers; non-trivial: more than two arithmetic operations (for conversions: a count over 1 and different units)",
  "assumptions": ["the count times the numerator of the conversion fits into 64 bits, as for std::chrono", "second and nanosecond values are converted to units that divide a second or are made of whole seconds", "ratio arithmetic whose intermediate terms do not fit into 64 bits is not written"]},
"C23": {"harness": "c23.cc", "flavors": ["asan","rel","tsan"], "tiers": {"quick": (400, 25), "thorough": (15000, 300)},
  "technique": "stateful property-based testing against an ownership model, and generated concurrent programs under ThreadSanitizer and AddressSanitizer",
  "rule": "histories of 2..41 operations over twelve owners (unique, array, shared and auto pointers) of objects that may own others, with the registry of live objects compared after every operation, and what the owner shows while the object is destroyed; histories of resources and nested scope guards left by exceptions; programs of 2..6 threads with up to 9 generated operations each on copies of shared pointers, repeated 4..15 times; atomic arithmetic by 2..6 threads and results of single operations; non-trivial: more than four operations and two that destroyed something (for concurrent programs: more than three operations)",
  "assumptions": ["concurrent accesses to one pointer object are excluded: every thread has its own copies", "move assignment of shared pointers exchanges the two objects", "the schedule is the operating system's; ThreadSanitizer judges by the happens-before order, not by the schedule met"]},
"C24": {"harness": "c24.cc", "tiers": {"quick": (200000, 25), "thorough": (10000000, 400)},
  "technique": "differential property-based testing against 128 bit arithmetic and bit-by-bit definitions, exhaustive over pairs of bytes and 16 bit values",
  "rule": "values of all integer widths near zero, near both ends of the range, near powers of two and uniform, with common factors; whole rows of the tables of all byte pairs and all 16 bit values with every rotation; non-trivial: both operands other than 0 and 1 (for bit tests: not all bits equal; for distances: not zero)",
  "assumptions": ["results that the type cannot represent are not asked for", "negative values are aligned only to powers of two and divided by positive divisors only", "the sign of the least common multiple of negative values is not compared", "NextPow2(1) is a known finding", "digits of integer limits are documented as the number of bits, and digits10 of integers are not compared"]},
"C25": {"harness": "c25.cc", "tiers": {"quick": (120000, 45), "thorough": (3000000, 400)},
  "technique": "stateful property-based testing of adaptor walks against positions in the sequence, and differential testing of functors and pairs against the expressions and std::pair",
  "rule": "three adaptors of one of seven kinds moved by 2..21 steps over 0..20 numbers or strings, all comparisons and differences between them after every step; histories of insertions through inserters into nine containers against the model; functors of six types on generated operands; member adaptors in algorithms over 0..12 objects; histories of operations on four pairs; non-trivial: more than two elements and four steps (for inserters: more than three values; for functors: different operands)",
  "assumptions": ["the pointer shown by -> is not asked of index_iterate (which has none)", "functor operands do not overflow signed types"]},
"C26": {"harness": "c26.cc", "tiers": {"quick": (4000, 25), "thorough": (200000, 400)}, "level": "fault_enumeration", "wrap": ["malloc", "calloc", "realloc"],
  "technique": "stateful property-based testing with every allocation of every operation made to fail in turn, against a model, and generated sizes near and beyond the limits",
  "rule": "histories of 1..16 operations over vectors and lists of numbers, strings and vectors, strings, blocks, sets, maps, stacks, queues, streams, files and owners; every operation is run with its first allocation failing, then the second, until it needs no more (alone, or with all later ones failing too); after each the contents, the arguments, the live objects and open files are compared, and all memory at the end; sizes within 40 of the limits of each element size; non-trivial: more than three refused operations",
  "assumptions": ["an assignment or range insertion whose elements allocate may be done in part: every element is an old, a new or an empty one", "element types can be moved without allocating"]},
"C27": {"module": "c27.py", "tiers": {"quick": (160, 40), "thorough": (4000, 500)},
  "technique": "differential testing of generated types, hierarchies and type lists against the standard library's traits and a list model, in generated programs",
  "rule": "types built by up to six constructors (const, volatile, pointer, references, arrays, member) over arithmetic, function, enumeration and generated class and union types with generated special members, bases and conversions; pairs of related and unrelated types; hierarchies; lists of 0..9 types; classes with generated members; list macros; every trait compared with the standard library (or the model) in generated programs; non-trivial: a type of two or more constructors, a function type, or a class with two or more features; lists of more than two types",
  "assumptions": ["the signedness of floating-point types is not compared (the existing tests fix answers that differ from the standard's)", "placeholders are not compared: is_swappable, is_nothrow_copy/move constructible and assignable, has_unique_object_representations", "is_base_of is defined to be false of a class and itself", "constructibility of array types whose elements can not be destroyed is not compared (the compiler's own answer forgets the destructor)", "TypeTraits are asked of types without volatile or reference qualified member functions and at most nine arguments, and tm::Conversion of conversions that are not ambiguous", "make_signed and make_unsigned are asked of the unqualified integer types", "one compiler, C++14"]},
}
