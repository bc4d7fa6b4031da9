#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One place to edit the property texts."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))
H = "include/pystd2026.hpp"
S = "src/pystd2026.cpp"

p("C01", "Comparison sorts return a sorted permutation of exactly the given range",
  "For every element type and every consistent three-way comparator, pystd2026's insertion_sort, heapsort, introsort, mergesort and shell_sort leave the range [begin,end) holding exactly the elements it held before, in non-decreasing order according to that comparator. They read and write nothing outside the range, never compare or keep a moved-from element, and terminate, for every length including zero and one.",
  ["inputs", "programs"], "every range length, element values, element type and comparator that is a total preorder",
  "The tests sort a few fixed or pseudo-random integer arrays with the default comparator; lengths, duplicate patterns, custom comparators and non-trivial element types are unbounded.",
  [H, "include/pystd2026_introsort.hpp", "include/pystd2026_heapsort.hpp", "include/pystd2026_mergesort.hpp", "include/pystd2026_shellsort.hpp"],
  [("linear_insert / insertion_sort / insertion_sort_has_sentinel", H), ("heapify, build_heap, heapsort", "include/pystd2026_heapsort.hpp"), ("do_introsort", "include/pystd2026_introsort.hpp"), ("merge_pass, merge_with_block_size, mergesort", "include/pystd2026_mergesort.hpp"), ("shell_sort_single_iteration, shell_sort", "include/pystd2026_shellsort.hpp")],
  ["contents of the range after the call"])
p("C02", "Stable sorts keep equal elements in their original order",
  "pystd2026's insertion_sort, mergesort and indirect_stable_sort never reorder two elements that the comparator considers equal, for every input length and every consistent comparator.",
  ["inputs", "programs"], "every range and comparator",
  "Stability is only observable on inputs with equal keys and distinguishable elements; the tests look at a handful.",
  [H, "include/pystd2026_mergesort.hpp", "include/pystd2026_indirect_sort.hpp"],
  [("linear_insert", H), ("merge_pass, mergesort", "include/pystd2026_mergesort.hpp"), ("indirect_stable_sort", "include/pystd2026_indirect_sort.hpp")])
p("C03", "Radix and bucket sorts sort every unsigned integer range",
  "pystd2026's radix_sort and bucketsort leave any range of unsigned 8, 16, 32 or 64 bit integers as a sorted permutation of its original contents, with no access outside the range and no undefined arithmetic.",
  ["inputs"], "every length and every content, all four unsigned widths",
  "The tests use one width and small arrays; digit extraction, counters and recursion depend on width, value bits and length.",
  ["include/pystd2026_radixsort.hpp", "include/pystd2026_bucketsort.hpp"],
  [("do_radix_sort", "include/pystd2026_radixsort.hpp"), ("do_bucketsort", "include/pystd2026_bucketsort.hpp")])
p("C04", "partition, stable_partition and rotate rearrange exactly as specified",
  "In pystd2026, partition moves every element satisfying the predicate before every element that does not and returns the boundary; stable_partition does so keeping the relative order inside both groups; rotate turns the concatenation of [begin,middle) and [middle,end) into that of [middle,end) and [begin,middle) and returns the new position of the old first element. All are permutations of the range, touch nothing outside it, and work for empty and one-sided ranges.",
  ["inputs", "programs"], "every range, split point, predicate and element type",
  "Tests use a few integer arrays of fixed length.",
  [H, "include/pystd2026_rotate.hpp", "include/pystd2026_stablepartition.hpp"],
  [("partition", H), ("rotate", "include/pystd2026_rotate.hpp"), ("stable_partition", "include/pystd2026_stablepartition.hpp")])
p("C05", "nth_element, partial_sort, min_element and max_element select correctly",
  "pystd2026's nth_element puts at position n the element that sorting would put there, with no larger element before it and no smaller element after it, and returns that position; partial_sort additionally sorts everything before it; min_element and max_element return the position of a smallest/largest element. All keep the range a permutation of itself, and an out-of-range n is reported as an error without touching memory outside the range.",
  ["inputs", "programs"], "every range, every n, every consistent comparator",
  "Tests check a few arrays; the pivot choice even depends on the buffer's address.",
  [H, "include/pystd2026_nth_element.hpp", "include/pystd2026_partial_sort.hpp"],
  [("nth_element, nth_element_heap", "include/pystd2026_nth_element.hpp"), ("partial_sort", "include/pystd2026_partial_sort.hpp"), ("min_element, max_element", H)])
p("C06", "Searches over ranges give the exact answer",
  "pystd2026's lower_bound on a sorted range returns the first position whose element is not less than the value (the end if there is none); find, find_if and find_if_not return the first matching position or the end; is_sorted answers truthfully. This holds for every range including the empty one, reading only inside it.",
  ["inputs", "programs"], "every range, value, predicate and comparator",
  "Tests probe a few fixed arrays and never the empty one for all of these.",
  [H], [("lower_bound, find, find_if, find_if_not, is_sorted", H)])
p("C07", "Vector behaves as a sequence and manages element lifetimes exactly",
  "After every operation (construction from nothing or a range, copy, move, push_back, emplace_back, pop_back, append, append_with_default, assign, reserve, clear, comparison, indexing, destruction) a pystd2026 Vector holds exactly the sequence of values the operation specifies, whatever the capacity was. Every element is constructed exactly once before use and destroyed exactly once, memory outside the live elements is never read, and each buffer is released exactly once.",
  ["inputs", "histories", "programs"], "every reachable Vector state, every operation and argument, every element type",
  "Histories and capacities are unbounded; reallocation boundaries and self-referencing arguments are rarely hit by fixed tests.",
  [H], [("class Vector", H), ("class Bytes (storage)", H)],
  ["element values", "constructor/destructor calls of the element type"])
p("C08", "FixedVector behaves as a bounded sequence and manages lifetimes exactly",
  "A pystd2026 FixedVector holds the sequence its operations specify, never holds more than its declared capacity (the attempt is reported and changes nothing), and constructs and destroys each element exactly once.",
  ["inputs", "histories", "programs"], "every reachable state, operation and argument",
  "Tests cover a few states with trivially small capacity.", [H], [("class FixedVector", H)])
p("C09", "Bytes behaves as a byte sequence",
  "Every operation of pystd2026's Bytes (construction from buffers, copy, move, append, insert, remove, pop, resize, extend, comparison, front/back) yields exactly the byte sequence or ordering it specifies for all contents and sizes; the order is lexicographic on unsigned bytes, and out-of-range positions in indexing, front/back, insert (whose position must be that of an existing byte) and remove are reported instead of touching memory outside the buffer. Popping or shrinking by more than there is empties the buffer; the bytes that extend or a growing resize add are unspecified. Appending a part of the buffer to itself works; assign and insert take bytes from outside the buffer.",
  ["inputs", "histories"], "every content, size, capacity and index argument",
  "Tests try few contents, rarely bytes over 127, ties or range ends.", [H, S], [("class Bytes", H), ("Bytes::* out-of-line members", S)])
p("C10", "HashMap and HashSet implement a finite map for every history",
  "In pystd2026, after any sequence of insertions, lookups, removals, clears, moves and move assignments, a HashMap (HashSet) contains exactly the entries a mathematical finite map (set) would contain, for every hash function: a lookup returns the last value inserted for an equal key and nothing otherwise, the size is the number of distinct keys, iteration yields each entry once. Every operation terminates, and stored keys and values are destroyed exactly once.",
  ["histories", "inputs", "programs"], "every history and every (even constant) hash function",
  "Probe chains, tombstones and rehashing depend on the history and hash collisions; tests follow a few short histories.",
  ["include/pystd2026_hashtable.hpp"], [("HashMap, HashSet, open addressing with tombstones", "include/pystd2026_hashtable.hpp")])
p("C11", "BTreeSet and BTreeMap implement an ordered set/map for every history",
  "In pystd2026, after any sequence of insertions, removals and moves a BTreeSet (BTreeMap) contains exactly the elements a mathematical set (map) would, iteration yields them in strictly increasing order, lookup finds exactly the members, and the size is their number.",
  ["histories"], "every history of inserts and removes",
  "Node splits, merges and borrowings depend on the whole history; the tests follow a few.",
  ["include/pystd2026_btree.hpp"], [("BTreeSet/BTree insert, remove, split, merge", "include/pystd2026_btree.hpp")])
p("C12", "CString keeps its invariants and behaves as a NUL-free byte string",
  "After every operation the buffer of a pystd2026 CString is its contents followed by exactly one terminating NUL, size() is the number of content bytes and they contain no NUL; construction, copy, move, append, +=, insert (also of a part of itself), remove, pop, clear, resize (which fills with spaces), strip, upper/lower, substr, find/rfind, split, split_by and comparison give the byte sequence, pieces or ordering their meaning specifies, for every content and argument. Positions out of range in indexing, front/back, insert, remove and substr, and embedded NULs in construction, append and insert, are reported rather than accepted. An object that was moved from can only be assigned to or destroyed.",
  ["inputs", "histories"], "every content and argument",
  "Tests use short literal strings; empty strings, all-whitespace strings and range ends are mostly untried.",
  [H, S], [("class CString", H), ("CString::* members", S)])
p("C13", "CStringView operations are exact and stay inside the view",
  "In pystd2026, for every CStringView or ZStringView, whether or not a NUL byte follows it, indexing, front, find of a byte or of a view (the first occurrence or -1), starts_with, substr (clamped to the end; a position at or past the end is reported), equality, ordering (lexicographic on unsigned bytes), overlaps (a common byte) and the hash feed read only the bytes of the views involved and return the mathematically correct answer; out-of-range indices are reported. split calls its callback with exactly the maximal pieces between separators (space, tab, newline, carriage return) in order until the callback asks to stop. Views compared with C strings hold no NUL.",
  ["inputs"], "every pair of byte sequences and every position argument",
  "A match at the very end, an empty needle or a view into a larger buffer are points tests do not enumerate.",
  [H, S], [("class CStringView", H), ("CStringView::* members", S)])
p("C14", "FixedCString never overflows and is always NUL-terminated",
  "In pystd2026, whatever is stored in a FixedCString by constructing it from a C string or from bytes of a given length, assigning a view, a FixedCString of the same or another capacity (itself and its own beginning included), copying, moving or removing the last character, its contents equal what was specified, fit the declared capacity and are followed by a NUL byte inside the object; a moved-from one is empty. A text that does not fit is reported and leaves the object as it was, and an index above the capacity is reported. Comparing with a view or a C string is true exactly for equal contents and reads nothing past either.",
  ["inputs", "histories"], "every content and length, every order of operations", "Tests only store a few short strings.", [H], [("FixedCString", H)])
p("C15", "UTF-8 validation accepts exactly well-formed UTF-8",
  "In pystd2026, constructing a U8String or U8StringView from bytes succeeds exactly when they are well-formed UTF-8 as defined by the Unicode Standard (no overlong forms, surrogates, values above U+10FFFF, truncated or stray bytes; a U8String, being NUL-terminated, additionally rejects embedded NUL bytes), is reported as an error otherwise, and reads only the given bytes.",
  ["inputs"], "every byte sequence of every length", "The tests check a handful of sequences; the input space is all byte strings.",
  [S], [("is_valid_utf8", S)])
p("C16", "Codepoint encoding and iteration are inverse and boundary exact",
  "In pystd2026, on every well-formed UTF-8 string forward iteration visits exactly its codepoints in order with their exact byte lengths, reverse iteration visits the same codepoints backwards, and both stay inside the string. Appending any Unicode scalar value other than NUL to a U8String adds its UTF-8 encoding, which decodes to the same value; NUL and values that are not Unicode scalars are rejected and leave the string unchanged.",
  ["inputs"], "every well-formed string and every 32 bit codepoint", "Tests iterate over a few literals.",
  [H, S], [("ValidU8Iterator, ValidU8ReverseIterator", H), ("U8String::append_codepoint", S)])
p("C17", "Unicode case conversion follows the Unicode tables for every codepoint",
  "pystd2026's uppercasing and lowercasing, of single codepoints and of whole texts, map every codepoint to its full (possibly multi-codepoint) Unicode mapping when one exists and to itself otherwise, searching only inside the table.",
  ["inputs"], "all 0x110000 codepoints", "Tests sample a few letters.",
  [S, "src/pystd2026_tables.cpp"], [("uppercase_unicode, lowercase_unicode lookup", S), ("generated tables", "src/pystd2026_tables.cpp")])
p("C18", "Optional and Expected track presence and value exactly",
  "A pystd2026 Optional (Expected) holds exactly what was last stored: after construction, copy, move, assignment (including self-assignment), reset and swap-like use it reports presence correctly and yields the stored value (or error); the held object is constructed and destroyed exactly once, and reading an absent value is reported rather than returning garbage.",
  ["histories", "inputs", "programs"], "all state pairs, all operations, every element type",
  "Tests visit few of the state-pair/operation combinations.", [H], [("Optional, Expected, Unexpected", H)])
p("C19", "Variant holds exactly one alternative and destroys it exactly once",
  "A pystd2026 Variant always holds exactly one of its alternatives: after construction, copy, move or assignment from any state, index, contains, get and visit report that alternative with the stored value, access through another alternative is reported as an error, and every held object is destroyed exactly once.",
  ["histories", "programs"], "all alternatives, all state pairs, all operations", "The state pair and operation product is larger than the tests.",
  ["include/pystd2026_variant.hpp"], [("class Variant", "include/pystd2026_variant.hpp")])
p("C20", "unique_ptr and unique_arr release what they own exactly once",
  "In pystd2026, ownership moves with a unique_ptr or unique_arr: after any move, assignment, reset, release or destruction the owned object or array is released exactly once with the configured deleter, never while still owned, and never leaked; the recorded array size matches the owned array and out-of-range element access is reported.",
  ["histories", "programs"], "all states and operations, including self-move", "Tests check a couple of moves.",
  [H], [("unique_ptr, unique_arr", H)])
p("C21", "Span and array accesses stay inside their storage",
  "A pystd2026 Span refers to exactly the elements it was built from; element access, first/last, iteration and subspan with in-range arguments (including an empty or complete tail) give exactly those elements and any other argument is reported, with no arithmetic wraparound, for every size and index.",
  ["inputs"], "every size_t index, offset and length", "Tests use few small indices; boundary and huge values are untried.", [H], [("class Span", H)])
p("C22", "Integer ranges enumerate exactly the arithmetic progression",
  "Iterating a pystd2026 Range(start, stop, step) yields exactly the values Python's range would, in order, and then ends, for every positive or negative step; a zero step is reported. Loop over a count yields 0..n-1.",
  ["inputs"], "every 64 bit start, stop and non-zero step", "Tests use a few positive steps.", [H, S], [("class Range, Loop", H)])
p("C23", "clamp and the floating point orders are exact",
  "pystd2026's clamp returns the value restricted to the given bounds for integers and doubles (the value itself within them, the nearer bound outside, NaN if any argument is NaN). total_order_compare and the total order comparator are a total preorder on all floats and doubles: numbers by value (-0 equals +0, infinities at the ends), all NaNs equal to each other and above every number; total_order_equal holds exactly when the order says equal. The NaN-ignoring comparator orders all non-NaN values by value consistently.",
  ["inputs"], "every bit pattern", "The tests sample a few values.", [H, S], [("clamp, total_order_compare, total_order_equal, FloatIgnoreNanComparator", S)])
p("C24", "Path algebra follows POSIX path rules",
  "Every pystd2026 Path holds the text it was made from without the separators at its end, except that the root directory stays \"/\". a / b is b if b is absolute or a is empty, a if b is empty, and otherwise a, one separator and b. filename is the text after the last separator; extension is the end of the filename from its last dot on, or empty; replace_extension replaces exactly that part (or appends where there is none) and touches no other component; split gives the non-empty components in order. All depend only on the text, for every text.",
  ["inputs"], "every path string", "Tests use a few paths.", ["src/pystd2026_filesystem.cpp"], [("class Path", "src/pystd2026_filesystem.cpp")])
p("C25", "Glob patterns match exactly the specified names",
  "In pystd2026, a glob component finds exactly the entries of a directory whose name can be obtained from it by replacing each * with any (possibly empty) sequence of characters and each ? with one character, where a * at the beginning does not match names that begin with a dot. Further components are looked for in the directories that the earlier ones found; ** stands for any number (also none) of directories whose names do not begin with a dot, and as the last component for every such entry below. Every match is found exactly once, with its path from the root of the search. Matching reads only the name and the pattern.",
  ["inputs"], "every pattern, name and directory tree", "Tests glob nothing.", ["src/pystd2026_filesystem.cpp"], [("glob_matches, GlobResultInternal", "src/pystd2026_filesystem.cpp")])
p("C26", "Argument parsing assigns every argument its documented meaning",
  "pystd2026's ArgParse looks at every command line argument once, in order: \"--\" ends the options and all that follows is collected as extra; \"-h\" and \"--help\" show the help; --name, --name=value and -x, -xvalue act on the first option with exactly that name or letter; others are positional where permitted. An option that takes a value uses the attached one (which may be empty) or the next argument and stores, converts (whole decimal integers inside the limits) or appends it; flags store true or false. Defaults stay for options not given. Anything else - unknown, empty, value missing or unwanted - is an error, not a silent guess. Nothing beyond argc is read.",
  ["inputs"], "every argument vector and option table", "There are no tests of the parser.", ["src/pystd2026_argparse.cpp"], [("ArgParse::parse_args", "src/pystd2026_argparse.cpp")])
p("C27", "Regex matches report exactly the engine's groups and release its resources",
  "A pystd2026 regex search looks at the whole text and reports, for each group number, exactly the slice of the text that PCRE2 returned (get_submatch: a copy of it); a group number that does not exist, a group that took no part in the match, an invalid pattern and a failed match are reported by an exception. Compiled patterns and match data are released exactly once on every path and across moves.",
  ["inputs", "histories"], "every text and match result vector", "Tests run one pattern whose groups all match.", ["src/pystd2026_regex.cpp"], [("U8Regex, U8Match", "src/pystd2026_regex.cpp")])
p("C28", "Threads, mutexes and guards pair every acquire with one release",
  "A pystd2026 Thread object starts exactly one thread running the given function on the given context, or reports that it could not; it is joined or detached exactly once, a further join or detach being reported as an error, and its destructor joins a thread that was neither joined nor detached. Mutex is initialised and destroyed once, lock and try_lock say truthfully whether they locked, and a LockGuard unlocks exactly what it locked on every exit path, including exceptions.",
  ["schedules", "histories"], "every sequence of operations, every failure of the thread library", "Tests run one schedule and no failures.", ["src/pystd2026_threading.cpp", "include/pystd2026_threading.hpp"], [("Thread, Mutex", "src/pystd2026_threading.cpp"), ("LockGuard", "include/pystd2026_threading.hpp")])
p("C29", "Formatted output delivers the complete text whatever its length",
  "In pystd2026, cformat, format_append and the callback based cformat_with_cb deliver exactly the bytes that the C library's formatting produces for the same format and arguments, for every output length (from INT_MAX-1 bytes on, the program is ended instead). The callback is called once; a formatting error, or a NUL in a text that is to become a string, is reported; format_append keeps what the container held before.",
  ["inputs"], "every format, argument list and output length", "Tests print a few short strings.", [S, H], [("cformat_with_cb, cformat", S), ("format_append", H)])
p("C30", "natural_order is a consistent total order that compares numbers by value",
  "CStringView::natural_order (pystd2026) compares digit runs, however long, by numeric value and other bytes by byte value, a digit coming before any other byte and an exhausted text before any longer one. It is antisymmetric and transitive, and reads only the two texts, for all texts.",
  ["inputs"], "every pair and triple of byte strings", "Tests compare a few literals.", [S], [("natural_order", S)])
p("C31", "Equal keys hash equally",
  "In pystd2026, feeding a value to a Hasher gives the hash algorithm exactly the bytes equality compares, in order and nothing else: all bytes of a Bytes, CString, CStringView, ZStringView, U8String or U8StringView without terminator or spare capacity, and all bytes of an integer of its declared size. So values that compare equal hash equally whatever their history, across the string types too, and the hash depends on all of the content. SimpleHash is a function of exactly the bytes fed to it and their order, however they are split into pieces.",
  ["inputs"], "every pair of equal values", "Needs all equal pairs with different representations.", [H, S], [("SimpleHash, HashFeedInterface, feed_hash members", H)])
p("C32", "Files and memory mappings are released exactly once and read completely",
  "In pystd2026, reading a File line by line delivers its bytes in order, none added or lost: every line but the last ends with the only newline in it. Path::load_bytes returns exactly the bytes of the file or reports that it could not be read. mmap_file maps exactly the whole file or reports that it cannot. A File closes its handle once, load_bytes and mmap_file close theirs on every path, and an MMapping unmaps exactly what it mapped exactly once across moves, assignments and destruction.",
  ["inputs", "histories", "fault_sequences"], "every file content, every failing library call and every sequence of moves", "Tests read one small text file.",
  [S, H, "src/pystd2026_filesystem.cpp"], [("File, FileLineIterator, mmap_file", S), ("MMapping", H), ("Path::load_bytes", "src/pystd2026_filesystem.cpp")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
