import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public header API"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A vector behaves as the standard dynamic array under any operation history",
 "After any legal sequence of vector operations (construction, copy, move, assignment, push/pop, insert and erase anywhere, emplace, resize, reserve, shrink, swap, assign, clear, comparison), for plain and for class element types of any size, the contents, size, order and returned positions are exactly those the C++ standard gives for the same calls. Capacity is never below size, a reserve prevents reallocation until it is exceeded, and no operation reads or writes outside the vector's storage.",
 ["histories","inputs"],"All operation sequences over element types of sizes 1..40 bytes, plain and class, all positions and counts.",
 "test/vectr.cc and ovect.cc run one fixed script over a dozen ints; they reach no odd sizes, byte elements inserted in the middle, or long histories.",
 ["uvector.h","memblock.cc","memblock.h","memlink.h","memlink.cc","cmemlink.h","ualgobase.cc"],
 [("insert_hole opens a gap and moves the tail","uvector.h insert_hole, memblock::insert, memlink::insert, rotate_fast"),("growth policy","memblock::reserve"),("element construction after hole","uvector.h emplace/insert/resize")],
 state=[("_data,_size,_capacity","block pointer, bytes in use, bytes owned (0 = linked)","memblock.h, cmemlink.h")])

p("C02","Every container element is constructed once and destroyed once; no memory leaks",
 "Over any history of container operations on element types with constructors and destructors, every element that is created is destroyed exactly once, never used after destruction or before construction, and live elements equal the elements the containers hold. When all containers are gone, all elements are destroyed and all heap memory is returned.",
 ["histories"],"All histories of vector/list/set/multiset/map/multimap/queue/stack/string-of-vector operations over lifetime-tracked element types.",
 "The test suite counts nothing and runs without a leak checker; objects are created in a few fixed patterns only.",
 ["uvector.h","uctralgo.h","umemory.h","umap.h","uset.h","ulist.h","uqueue.h","memblock.cc"],
 [("construct/destroy ranges on resize, insert, erase","uvector.h"),("bitwise relocation of elements","memblock::reserve, memlink::insert/erase"),("swap-based move","memblock.h swap, uvector.h move ctor")])

p("C03","Linked memory is never modified or freed; growing takes a private copy",
 "A block, string or vector linked to outside memory shows exactly that memory, and any operation on it that grows, or first takes a private copy, leaves the outside memory byte-for-byte unchanged and never frees it; afterwards the object owns its data and is independent of the source. Link, unlink, copy-on-write, swap, release-to-caller and assignment keep size, content, ownership and capacity consistent through any history.",
 ["histories","inputs"],"All histories of link/unlink/copy_link/resize/insert/erase/fill/assign/swap/read/write over blocks whose source is guarded memory.",
 "mlink/mblck/cmlnk tests link one constant buffer and do one edit; no test checks that the linked source is unchanged or that bytes next to it are not touched.",
 ["cmemlink.h","cmemlink.cc","memlink.h","memlink.cc","memblock.h","memblock.cc","ustring.h","uvector.h"],
 [("is_linked: capacity zero with data","memblock.h"),("copy-on-write in reserve","memblock.cc reserve"),("copy_link, manage, unlink","memblock.cc/h")])

p("C04","String editing matches the standard string and always stays nul-terminated",
 "After any legal sequence of string edits (construct, assign, append, push/pop, insert, erase, replace, resize, clear, substring copy, swap, concatenation) the length and bytes are those the standard string gives, embedded nul bytes included, and the character at the end position is always nul. Returned positions designate the documented character and no byte outside the string's own storage is touched.",
 ["histories","inputs"],"All edit histories over arbitrary byte strings, including empty strings, embedded nuls and strings linked to constants.",
 "test/strng.cc applies one fixed script of about 60 edits to a handful of literals.",
 ["ustring.h","ustring.cc","memblock.cc","memblock.h"],
 [("minimumFreeCapacity reserves the terminator","ustring.h/.cc"),("insert/erase/replace shift the tail","ustring.cc"),("resize writes the terminator","ustring.cc resize")])

p("C05","String search and comparison return what the standard string returns",
 "For every string, pattern, character set and start position, forward and backward searches for a character, a substring, any-of, or none-of a set return the position the standard string returns, including at the first and last positions and for empty strings. Comparisons and equality agree in sign with lexicographic byte comparison, and hashing is equal for equal strings, with no access outside the strings.",
 ["inputs"],"All byte strings up to a few hundred bytes over small and large alphabets, all patterns and positions, including empty.",
 "strng.cc searches one 30-character literal with patterns whose matches are in the middle.",
 ["ustring.cc","ustring.h"],
 [("backward scan with end adjustment","ustring.cc rfind, find_last_of, find_last_not_of"),("skip loop in find","ustring.cc find"),("compare","ustring.cc compare")])

p("C06","String formatting yields exactly the printf text, for any length and state",
 "Formatting into a string with any valid format, any arguments and any previous content, capacity or link state produces exactly the bytes the C library would print, complete and nul-terminated, whatever the result length. Repeated formatting into the same string never truncates, loops or keeps old text.",
 ["inputs","histories"],"All formats built from integer, string, char, float and pointer conversions with widths and precisions, results of 0 to several thousand bytes, on strings of any state.",
 "Tests format a few short literals into fresh strings; the growth loop's boundaries (empty result, result equal to capacity) are not reached.",
 ["ustring.cc","ustring.h"],[("grow-and-retry loop","ustring.cc vformat")])

p("C07","UTF-8 encoding, decoding, counting and iteration agree with the standard",
 "Every code point encodes to the byte sequence and length the UTF-8 standard gives, and decoding any sequence of encoded code points returns exactly those code points and stops at the right byte. Wide strings put into a string and read back through the character iterators are unchanged, the character length equals the number of code points, and a character index addresses the byte where that character starts.",
 ["inputs"],"All 1,112,064 scalar values individually, all longer codes up to the 31-bit historical range, and sequences of them.",
 "utf8f.cc checks about ten ranges of code points and prints them.",
 ["utf8.h","ustring.cc","ustring.h"],
 [("Utf8Bytes, Utf8SequenceBytes","utf8.h"),("utf8in_iterator/utf8out_iterator","utf8.h"),("utf8_begin/utf8_iat/length","ustring.h")])

p("C08","Sets and maps equal a sorted reference under any history and any ordering",
 "After any history of insertions (single, hinted, ranged, from lists, emplaced), removals, lookups, index access, assignment and swap, a set, multiset, map or multimap holds exactly the elements of the mathematical (multi)set or map under its ordering, always iterates in that order, and keeps the value of the proper element for equal keys. Lookups, bounds, equal ranges, counts and the positions and flags returned by insertions are those of the standard container, for any strict weak ordering, not only less-than.",
 ["histories","inputs"],"All histories over integer, string and structured keys with duplicate-rich domains and custom orderings (descending, modular, by field).",
 "maptt/mumap/muset tests insert a few names with the default ordering only.",
 ["uset.h","umultiset.h","umap.h","umultimap.h","uvector.h","upredalgo.h","ualgo.h"],
 [("binary search by ordering","lower_bound/upper_bound in ualgo.h, upredalgo.h"),("insert at bound","uset.h insert, umultiset.h insert, umap.h insert"),("operator[]","umap.h")])

p("C09","Queues, stacks and heaps release elements in the required order",
 "A queue releases elements first-in first-out, a stack last-in first-out, and a priority queue always releases a greatest remaining element under its ordering, through any interleaving of pushes, pops, copies, assignments and swaps, for any element type. Heap algorithms keep the heap property, preserve the multiset of elements, and a sorted heap is in order, under the default and custom orderings.",
 ["histories","inputs"],"All interleavings of push/pop/front/back/top/copy/clear with elements of plain and class types and several orderings.",
 "stack.cc and priqu.cc push a dozen ints in one order.",
 ["uqueue.h","ustack.h","uheap.h"],
 [("front offset with lazy compaction","uqueue.h push/pop"),("trickle down/up","uheap.h")])

p("C10","A list behaves as the standard list under any history",
 "After any history of list operations (push and pop at both ends, insert, erase, splice, merge, remove, remove-if, unique, reverse, sort, resize, assignment, swap) the sequence is the one the standard list gives, and splicing moves elements without loss or duplication. Sorting and merging give an ordered permutation of the inputs.",
 ["histories","inputs"],"All histories over one or two lists of ints or strings.",
 "llist.cc runs one script of pushes on one list.",
 ["ulist.h","uvector.h","ualgo.h","upredalgo.h"],
 [("vector-backed list","ulist.h"),("splice, merge","ulist.h")])

p("C11","Searching and comparing algorithms return exactly the standard results",
 "For every range, value, pattern and predicate, the non-modifying algorithms (find and its variants, adjacent and subsequence search, count, mismatch, equality, lexicographic comparison, binary search, bounds, equal range, min and max, inclusion, heap and sortedness tests) return the iterator or value the C++ standard specifies. They do so with the default comparison and with any valid predicate, on empty and one-element ranges, and never examine elements outside the range.",
 ["inputs"],"All ranges of length 0..64 over small alphabets, all patterns, predicates and orderings, through pointers and container iterators.",
 "algos.cc runs each algorithm on one or two fixed 10-element arrays with a match in the middle.",
 ["ualgo.h","upredalgo.h","ualgobase.h","uctralgo.h"],
 [("search loops","ualgo.h, upredalgo.h"),("binary search halving","lower_bound, upper_bound, equal_range, binary_search")])

p("C12","Modifying, sorting, set and numeric algorithms produce the standard results",
 "For every input, the mutating algorithms (copy, swap, transform, replace, generate, remove, unique, reverse, rotate, shuffle, partition, sort family, nth element, merge, set operations, permutations, numeric folds and differences) leave exactly the output the C++ standard specifies, return the specified iterator, and write nothing outside the output range. Where the standard leaves freedom (order of equivalent elements in unstable operations, random permutations), the result is a permutation satisfying the specified ordering.",
 ["inputs"],"All ranges of length 0..64 over small alphabets with every split point, predicate and ordering, through pointers and container iterators, for plain and class types.",
 "algos.cc runs each algorithm once or twice on fixed 10-element arrays.",
 ["ualgo.h","upredalgo.h","ualgobase.h","unumeric.h","uctralgo.h"],
 [("in-place shifting","remove, unique, rotate, partition"),("merge and set operations","ualgo.h, upredalgo.h"),("sort by qsort adaptor","ualgo.h, upredalgo.h sort")])

p("C13","Raw memory copy, fill and rotate touch exactly the range asked, at any alignment",
 "Copying, backward copying, filling (8, 16, 32 bit and float units) and rotating raw memory gives exactly the bytes a byte-by-byte loop gives, for every length, source alignment and destination alignment, including overlapping ranges in the direction the operation supports. Not one byte before or after the destination range changes, and processor state needed by the caller is preserved.",
 ["inputs"],"Every alignment 0..31 of source and destination with every length 0..200, plus larger lengths, overlaps and all element widths.",
 "Only indirectly tested, on 16-byte aligned heap blocks of a few sizes.",
 ["ualgobase.cc","ualgobase.h"],
 [("head/aligned-middle/tail split in assembly","copy_n_fast, copy_backward_fast, fill_n_fast"),("alloca buffer rotate","rotate_fast")])

p("C14","Binary streams round-trip every value and the announced size is the size written",
 "Any value of the streamable types (integers of every width, floats, booleans, enums, strings, vectors, sets, maps, tuples, arrays, pairs, matrices, bitsets, memory blocks, and nestings of them) written to a binary stream and read back is equal, with the read ending exactly where the write ended. The number of bytes written always equals the announced stream size, alignment requests produce the announced padding, and positioning, skipping, and inserted or removed stream regions never disturb other bytes.",
 ["inputs","histories"],"All nestings and values, at every legal starting alignment, mixed with align/skip/seek operations.",
 "strms.cc writes one fixed structure with one set of values.",
 ["mistream.h","mistream.cc","mostream.h","uctrstrm.h","strmsize.h","uiosfunc.h","uspecial.h","cmemlink.cc","memblock.cc","ustring.cc","uvector.h"],
 [("stream_size_of / stream_align_of","strmsize.h, ualgo stream_align_of"),("container_read/write/stream_size","uctrstrm.h"),("string length prefix as utf8","ustring.cc")])

p("C15","Truncated or hostile binary input is rejected without out-of-bounds access",
 "Reading any type from any byte block, however truncated or corrupted, never reads before or after the block, never writes outside the destination object, and terminates. A read the block cannot satisfy sets the failure state or throws the documented stream error when enabled, the position stays inside the block, and writing past the end of a fixed buffer is refused the same way without writing.",
 ["inputs","histories"],"Every truncation and random mutations of valid encodings, plus arbitrary bytes, for every streamable type, with and without exceptions enabled, within an allocation bound.",
 "No test reads malformed data except one fixed overrun.",
 ["mistream.h","mistream.cc","mostream.h","uctrstrm.h","memblock.cc","ustring.cc","bktrace.cc","uexception.cc","cmemlink.cc"],
 [("verify_remaining before each read/write","mistream.h, mostream.h, mistream.cc"),("size checks in container_read","uctrstrm.h")])

p("C16","Text output produces the text the flags ask for, losing nothing",
 "Writing integers of any type in any base, booleans, characters, strings, floats and containers to a text stream yields the same text as the standard stream or printf form for the current base, width, fill, precision and sign/base flags, with values at the limits of their type included. Any mix of writes, formatted text and inserts produces their exact concatenation regardless of length, for growing streams, and for fixed buffers nothing is written past the end.",
 ["inputs","histories"],"All values and flag combinations in any order on one stream, texts of 0..5000 bytes, growing and fixed-buffer targets.",
 "sstrm.cc and obstm.cc write about thirty fixed values with one flag each.",
 ["sostream.h","sostream.cc","uctrstrm.h","uspecial.h"],
 [("fmtstring builds a printf format from flags","sostream.cc encode_dec, fmtstring"),("vformat grows the buffer","sostream.cc vformat"),("overflow","sostream.cc")])

p("C17","Text input recovers exactly the values in the text",
 "Reading integers in decimal, octal and hex, floats, booleans, characters, words, lines and bounded blocks from any text stream yields the values, and consumes the characters, that the text and the delimiters specify; what text output wrote, text input reads back equal. Malformed or exhausted input sets the failure or end state, never loops, never reads beyond the text, and leaves already read values intact.",
 ["inputs","histories"],"All generated token sequences with arbitrary whitespace/delimiters, all extraction histories, numbers over the full range of each type.",
 "sstrm.cc reads one literal with ten numbers.",
 ["sistream.h","sistream.cc"],
 [("delimiter table","sistream.cc set_delimiters/is_delimiter"),("read_number with strtol","sistream.cc"),("getline/get/ignore/unget","sistream.cc")])

p("C18","Files read and written through file streams hold exactly the bytes transferred",
 "Any history of writes, flushes, seeks, reads, truncations and buffered text through file, input-file and output-file streams leaves exactly the bytes a plain file would hold and returns exactly the bytes the file holds, across buffer boundaries. When the operating system transfers only part of a request, is interrupted, would block or fails, no byte is lost, duplicated or reordered: the operation completes, or the failure is reported by state or exception with correct counts. Output waiting in cout is shown before the program waits for input from cin, and streams over the standard descriptors do not close them.",
 ["fault_sequences","histories","inputs"],"All histories over scratch files with sizes around the buffer size, with injected short transfers, EINTR, EAGAIN, ENOSPC and EIO at any system call.",
 "fstrm.cc and ofstream use prints one file once; no test injects a fault or crosses a buffer boundary.",
 ["fstream.h","fstream.cc","ofstream.h","ofstream.cc","sistream.cc","sostream.cc"],
 [("read/write retry loop","fstream.cc readsome, read, write"),("overflow/flush/underflow","ofstream.cc"),("exception policy","fstream.cc set_and_throw, uios.h")])

p("C19","Errors carry, print and serialise their information faithfully",
 "Every exception object reports the operation, file, error code, sizes and message it was created with, in its text form, for any argument strings and any lengths; copying and assigning it is safe, and writing it to a stream and reading it back yields an equal report in exactly the announced number of bytes. Error codes and categories map to the same message, value and comparison results as the system's.",
 ["inputs","histories"],"All exception types with arbitrary strings, codes and numbers; copy/assign/serialise histories; all errno values.",
 "stdtest prints exceptions only when a test fails; strms does not serialise exceptions.",
 ["uexception.h","uexception.cc","ustdxept.h","ustdxept.cc","bktrace.h","bktrace.cc","uerror.h"],
 [("info formatting","ustdxept.cc, uexception.cc"),("write/read/stream_size triple","ustdxept.cc, bktrace.cc")])

p("C20","A bitset behaves as the standard fixed-size bitset",
 "For every size, after any history of set, clear, flip, range and bulk operations, shifts-free logic operators, conversions from and to integers and text, the bits, bit ranges, count, any/none and comparison results, values and text and binary forms equal those of the standard bitset of that size, and no operation changes a bit it does not address.",
 ["histories","inputs"],"Sizes 1..130 around word boundaries, all operation histories.",
 "btset.cc uses two or three sizes and a fixed script.",
 ["ubitset.h","ubitset.cc","uspecial.h"],
 [("word array with size mask","ubitset.h"),("text conversion","ubitset.cc")])

p("C21","Fixed tuples, matrices and packed arithmetic equal element-wise arithmetic",
 "For every element type and size, arithmetic, comparison, assignment, conversion, swap and packed (vectorised) operations on fixed tuples, arrays and matrices give for each element exactly what the same scalar operation gives, saturating, averaging, min/max and rounding forms included. Matrix products, vector transforms, transposition, rows, columns and identity equal their definition, and no hardware-accelerated size or type differs from the generic result.",
 ["inputs"],"All element values including type limits, for every specialised and several unspecialised (type, size) pairs.",
 "tuple.cc, simda.cc, matrx.cc use one operand pair per type with symmetric values (identity matrices).",
 ["utuple.h","uarray.h","umatrix.h","ulaalgo.h","simd.h"],
 [("assembly specialisations","simd.h, utuple.h, ulaalgo.h"),("generic packop","simd.h")])

p("C22","Durations, time points and ratios compute exactly, in every unit",
 "Adding, subtracting, scaling, comparing, incrementing and converting durations and time points gives the exact arithmetic result in the target unit, truncating only where the standard truncates, over the representable range; second/fraction time values stay normalised and equal to their total count. Compile-time ratios are always in lowest terms and their arithmetic and ordering equal rational arithmetic.",
 ["inputs","programs"],"All counts in all unit pairs, second/nanosecond pairs around carries, and generated ratio expressions.",
 "chron.cc checks a handful of constants.",
 ["uchrono.h","uratio.h","uutility.h"],
 [("carry handling","uchrono.h hrtime_t-like representation"),("duration_cast by ratio","uchrono.h"),("gcd reduction","uratio.h")])

p("C23","Smart pointers and scope guards release each object exactly once",
 "Through any history of construction, move, copy, assignment, reset, release and swap of unique, shared and auto pointers, resource handles and scope guards, each owned object is destroyed exactly once, at the moment its last owner lets it go, and never while owned; use counts equal the number of owners. This holds also when copies of one shared pointer are made and dropped concurrently by several threads, and atomic values and flags lose no update.",
 ["histories","schedules"],"All single-thread histories over a pool of owners; concurrent clone/drop/exchange programs over 2..8 threads.",
 "smptr.cc exercises one short single-threaded script.",
 ["umemory.h","uatomic.h","unew.h"],
 [("reference count drop","umemory.h shared_ptr"),("release/reset transfer","umemory.h unique_ptr, auto_ptr"),("atomic builtins","uatomic.h")])

p("C24","Integer, bit and limit utilities equal their mathematical definitions",
 "For every argument of every integer type: alignment up, rounding division, next power of two, first and last bit, bit counts, rotation, byte swapping, parity of byte-order conversions, packing, absolute value, sign, greatest common divisor, least common multiple, and number/pointer distance helpers return their mathematical definition. Numeric limits report the true minimum, maximum and signedness of each type.",
 ["inputs"],"All argument values (exhaustive for 8/16 bit, dense sampling with boundary values for 32/64 bit).",
 "utils.cc prints a few dozen fixed values.",
 ["uutility.h","ulimits.h","ualgobase.h","utypes.h","unumeric.h"],
 [("inline bit tricks and assembly","uutility.h"),("gcd/lcm","uutility.h"),("limits table","ulimits.h")])

p("C25","Iterator adaptors, functors and pairs follow the standard adaptor laws",
 "Reverse, move, insert, front-insert, back-insert and index iterators traverse, compare, offset and write exactly as the standard adaptors over the same sequence, in both directions and at both ends. Function objects, binders, negators, composers and member adaptors return the value of the expression they denote, and pairs compare lexicographically.",
 ["inputs","histories"],"All sequences, offsets and adaptor walks; all operand values for functors.",
 "Tests use reverse iterators to print and a few functors.",
 ["uiterator.h","ufunction.h","upair.h"],
 [("offset mirror","uiterator.h reverse_iterator"),("hint update after insert","uiterator.h insert_iterator")])

p("C26","A failed allocation is reported and leaves existing data intact",
 "When memory runs out at any allocation during a container, string, block or stream operation, the operation throws the allocation error, carrying the size asked for, and nothing that existed before is lost, leaked, corrupted or freed twice: the object keeps a valid state, can be used again and destroyed. Sizes too large to represent or allocate are refused in the same way instead of yielding a smaller block.",
 ["fault_sequences","histories"],"Every allocation index of every operation in a history made to fail, then the history continued; plus huge sizes.",
 "No test ever makes an allocation fail.",
 ["memblock.cc","unew.cc","uvector.h","ustring.cc","uexception.cc","sostream.cc"],
 [("realloc check before relinking","memblock.cc reserve"),("bad_alloc(n)","uexception.h/.cc, unew.cc")])
p("C27","Type traits, transformations and type lists give the language's answers",
 "For every complete object type, reference, function or void type that a trait accepts - built from qualifiers, pointers, references, arrays, functions and members over arithmetic types, enumerations, unions and classes of any shape - type categories, properties, constructibility, assignability, destructibility, relations and type transformations give what the language (the standard library) says. Type lists and their operations equal list operations, hierarchies are recognised and ordered, member detection finds exactly the members there are, and list macros expand to their announced text.",
 ["inputs","programs"],"All types (nested qualifiers, references, arrays, functions, generated classes), pairs of types, hierarchies and lists of up to nine types; generated programs.",
 "trait.cc asks about some eighty fixed types, typel.cc about one list and a dozen types.",
 ["uttraits.h","traits.h","typet.h","typelist.h","metamac.h","ualgobase.h"],
 [("partial specialisations and compiler builtins","uttraits.h"),("overload based conversion test","typet.h"),("recursive list templates","typelist.h"),("pseudoiteration macros","metamac.h")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
