#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json, os, glob, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"state": [dict(name=a, meaning=b, where=w) for a, b, w in state]} if state else {}), **({"observe_at": observe} if observe else {})))
ANY = "every container content, length, position, capacity and value; proved for unbounded lengths"
PROPS = [
P("C01", "Memory blocks own, grow, edit and free their storage correctly",
  "A memory block either owns its storage (non-zero capacity, freed exactly once) or links to storage it never frees, and its size never exceeds a non-zero capacity. Every resize, reserve, assign, insert, erase, copy, swap, move and shrink leaves exactly the bytes the operation specifies and preserves all others, for owned and linked blocks alike, and touches no byte outside the block. An insertion or growth keeps the old content even when the storage is reallocated.",
  ["inputs", "histories"], "all block states (empty, linked, owned with any spare capacity), all sizes, offsets and contents; each operation preserves the representation invariant, so any history does",
  "memlink and memblock tests run one fixed script; reallocation boundaries, linked blocks and offsets are sampled at a handful of sizes.",
  ["memblock.h", "memblock.cc", "memlink.h", "memlink.cc", "cmemlink.h", "cmemlink.cc", "unew.cc"],
  [("capacity/ownership discipline", "memblock.cc: reserve, deallocate, assign, manage, unlink, shrink_to_fit"), ("gap insertion and removal", "memblock.cc: insert, erase; memlink.cc: insert, erase, fill"), ("comparison and swap of links", "cmemlink.cc: operator==, swap")],
  [("_data,_size,_capacity", "owned block iff capacity != 0; 0 <= size <= capacity when owned", "cmemlink.h, memblock.h")]),
P("C02", "Raw memory primitives move exactly the bytes asked for",
  "Copying forwards, copying backwards, filling with 8-, 16- or 32-bit values and rotating a raw memory range write exactly the specified destination bytes with the specified values and nothing else, for every length, alignment and content. Overlapping ranges in the direction each primitive is meant for are handled like memmove. The returned pointer is the end (or beginning) of the destination.",
  ["inputs"], "every length, every alignment of source and destination, every content and permitted overlap",
  "Tests use a few buffer sizes at one alignment; head, tail and alignment splits in the primitives depend on address modulo 4 and 16.",
  ["ualgobase.cc", "ualgobase.h", "uutility.h"],
  [("copy_n_fast, copy_backward_fast", "ualgobase.cc"), ("fill_n8_fast, fill_n16_fast, fill_n32_fast", "ualgobase.cc"), ("rotate_fast", "ualgobase.cc")]),
P("C03", "String construction and editing produce exactly the edited text",
  "Every string construction, assignment, append, insert, erase, replace, resize, push and pop produces exactly the character sequence the operation specifies. Afterwards the string's length is right and its content is terminated by a NUL that c_str() exposes. Source strings that are distinct from the target are not changed.",
  ["inputs", "histories"], "every string content (embedded NULs included), length, position and count within the documented ranges; owned and linked strings",
  "The string test edits a few literals; boundary positions, capacity boundaries and linked strings combine into far more cases.",
  ["ustring.h", "ustring.cc", "memblock.h", "memblock.cc"],
  [("edit operations", "ustring.cc: assign, append, insert, erase, replace, push_back, resize"), ("terminator maintenance", "ustring.h: minimumFreeCapacity override; memblock.cc: reserve")]),
P("C04", "String search and comparison agree with their definition",
  "find, rfind, find_first_of, find_first_not_of, find_last_of and find_last_not_of return the first (or last) position that satisfies their definition and npos when there is none. Comparison of strings is lexicographic over all characters and its sign is consistent with equality. None of them reads outside the two strings.",
  ["inputs"], "every pair of strings and every start position",
  "Tests probe a few positions in one sentence; empty strings, matches touching either end and long length differences are not reached.",
  ["ustring.h", "ustring.cc"],
  [("search functions", "ustring.cc: find, rfind, find_first_of ..."), ("compare", "ustring.cc: string::compare; ustring.h operators")]),
P("C05", "UTF-8 encoding and decoding are inverse and count bytes correctly",
  "Encoding any code point writes exactly the number of bytes announced for it, in the UTF-8 pattern, and decoding those bytes yields the code point again. The byte count derived from a leading byte equals the length of the encoding it begins. Iterating over encoded text advances by whole characters.",
  ["inputs"], "every code point representable in each encoded length",
  "The test samples a short text; there are 2^21 and more code points with length boundaries.",
  ["utf8.h"], [("Utf8Bytes, Utf8SequenceBytes", "utf8.h"), ("utf8in_iterator, utf8out_iterator", "utf8.h")]),
P("C06", "vector behaves as a sequence under every operation",
  "After any construction, copy, assignment, push, pop, insert, erase, resize or swap a vector holds exactly the element sequence the operation specifies, with every surviving element intact and in order. Its size, front, back and element access agree with that sequence and returned iterators designate the documented element. Elements that are added are initialised and elements that are removed are released exactly once.",
  ["inputs", "histories"], ANY + "; each operation preserves the representation invariant, so every history does",
  "Tests run one script over small vectors; the capacity and offset at which an operation is applied is never varied.",
  ["uvector.h", "memblock.h", "memblock.cc"],
  [("element operations over byte storage", "uvector.h: insert, insert_hole, erase, push_back, emplace, resize, assign")]),
P("C07", "Ordered associative containers stay sorted and behave as (multi)sets/maps",
  "A set, map, multiset or multimap always iterates in non-decreasing key order, and a set or map never holds two equivalent keys. Insertion, erasure, lookup, counting and subscripting act on exactly the keys they name and change nothing else. Lookups find a key if and only if it is present.",
  ["inputs", "histories"], "every sorted content and every key; the representation invariant is preserved by each operation, so every history keeps it",
  "Tests insert a dozen keys in one order.",
  ["uset.h", "umap.h", "umultiset.h", "umultimap.h", "uvector.h"],
  [("sorted insertion", "uset.h, umap.h, umultiset.h, umultimap.h: insert"), ("lookup by binary search", "umap.h: find, operator[], lower_bound; uset.h: find")]),
P("C08", "Binary searches return the exact bounds in a sorted range",
  "On a range sorted by the ordering used, lower_bound returns the first position whose element is not less than the value, upper_bound the first whose element is greater, and equal_range the pair of both. binary_search reports presence correctly and points at an equal element when there is one. No element outside the range is read.",
  ["inputs"], ANY, "Tests search a dozen values in one array; off-by-one splits show only at specific lengths and positions.",
  ["ualgo.h", "upredalgo.h"], [("lower_bound, upper_bound, equal_range, binary_search", "ualgo.h"), ("predicate variants", "upredalgo.h")]),
P("C09", "Non-modifying algorithms return what their definition says",
  "find, find_if, adjacent_find, search, search_n, find_end, find_first_of, count, mismatch, equal, lexicographical_compare, is_sorted and the min/max element searches, with and without predicate, return exactly the position or value their definition gives. They return the end when nothing matches and change no element. No element outside the ranges is read.",
  ["inputs"], ANY, "Tests check one or two calls each on small fixed arrays.",
  ["ualgo.h", "upredalgo.h", "ualgobase.h"], [("search loops", "ualgo.h, upredalgo.h")]),
P("C10", "Modifying sequence algorithms write exactly the specified sequence",
  "copy, fill, transform, replace, generate, reverse, rotate, remove, unique, swap_ranges and their copying, counting and predicate forms write exactly the specified sequence to the specified range and return the documented end. Nothing outside the output range is written and inputs that are not outputs stay unchanged.",
  ["inputs"], ANY, "Tests check one or two calls each on small fixed arrays.",
  ["ualgo.h", "upredalgo.h", "ualgobase.h"], [("element loops", "ualgo.h, upredalgo.h, ualgobase.h")]),
P("C11", "Heap algorithms and priority_queue maintain the heap and its elements",
  "make_heap, push_heap and pop_heap turn their range into the documented heap, keep exactly the elements they were given, and pop_heap delivers a greatest element. is_heap decides the heap property. A priority_queue always exposes a greatest element and loses or invents none.",
  ["inputs", "histories"], ANY, "Tests push and pop a handful of integers.",
  ["uheap.h"], [("trickle_down_heap, make_heap, push_heap, pop_heap", "uheap.h"), ("priority_queue", "uheap.h")]),
P("C12", "Sorting, merging and partitioning permute into the promised order",
  "merge, inplace_merge, stable_sort, partial_sort, nth_element and partition functions leave their range, or fill their output, with exactly the elements they were given, arranged in the promised order. The returned iterator marks the promised boundary. Nothing outside the ranges is written.",
  ["inputs"], ANY, "Tests sort and partition small fixed arrays; duplicates, lengths and split points are sampled.",
  ["ualgo.h", "upredalgo.h"], [("merge, inplace_merge, stable_partition, stable_sort", "ualgo.h, upredalgo.h")]),
P("C13", "Set operations on sorted ranges compute multiset results",
  "On sorted inputs, set_union, set_intersection, set_difference, set_symmetric_difference and includes give exactly the result that counting equal elements in both inputs prescribes, sorted, and return the end of the output. No element outside the inputs is read and nothing outside the output is written.",
  ["inputs"], ANY, "Tests use two short arrays.",
  ["ualgo.h", "upredalgo.h"], [("merge-style loops", "ualgo.h, upredalgo.h: set_union ... includes")]),
P("C14", "next_permutation and prev_permutation step through lexicographic order",
  "next_permutation rearranges its range into the lexicographically next arrangement of the same elements and returns true, or into the first one and returns false when there is none; prev_permutation is its mirror image. The elements are exactly those given.",
  ["inputs"], ANY, "Tests step through permutations of three or four elements.",
  ["ualgo.h", "upredalgo.h"], [("next_permutation, prev_permutation", "ualgo.h, upredalgo.h")]),
P("C15", "bitset operations act on exactly the bits they name",
  "Setting, clearing, flipping, testing, counting, comparing and combining bits of a bitset, by position, range within a word or whole set, change and report exactly the bits the operation names (bits of the last word beyond size() belong to the capacity and are not part of the set). Conversion to and from integers and strings, and binary streams, preserve every bit of the set.",
  ["inputs"], "every content, position and value for bitset sizes spanning one and several words", "Tests use one or two sizes with a fixed pattern.",
  ["ubitset.h", "ubitset.cc"], [("word and mask arithmetic", "ubitset.h: set, flip, test, operators; ubitset.cc: convert_to_bitstring")]),
P("C16", "Binary streams read back what was written and never leave their buffer",
  "Reading from an istream returns the bytes at the current position and advances by exactly their number, and writing to an ostream stores the given bytes at the position and advances likewise; seeking, skipping and aligning move to exactly the documented offset. Whatever was written is read back unchanged. No operation accesses memory outside the attached buffer, and position never exceeds size.",
  ["inputs", "histories"], "every buffer size, position, value and operation sequence", "Tests write and read one fixed record.",
  ["mistream.h", "mistream.cc", "mostream.h", "ofstream.cc"], [("position bookkeeping and bounds checks", "mistream.h, mistream.cc, mostream.h")]),
P("C17", "Smart pointers release their object exactly once and never early",
  "unique_ptr and shared_ptr destroy the object they own exactly once, when the last owner lets go through destruction, reset, assignment, move or swap, and never before. release and get hand out the held pointer unchanged. The reference count equals the number of owners.",
  ["inputs", "histories"], "every aliasing of the pointers involved and every starting count; each operation preserves the ownership invariant", "Tests follow one short script; self-assignment and count transitions are not explored.",
  ["umemory.h"], [("unique_ptr, shared_ptr", "umemory.h")]),
P("C18", "Integer utilities and numeric algorithms compute their mathematical value",
  "Alignment, padding, rounding, division, absolute value, sign, minimum, maximum, bit-scan, power-of-two and byte-swap utilities return the value their documentation defines for every argument in range. accumulate, inner_product, partial_sum, adjacent_difference, iota and power compute exactly the documented fold, written to exactly the output range.",
  ["inputs"], "every argument value and every range", "Tests check a few values.",
  ["uutility.h", "unumeric.h", "ualgobase.h"], [("arithmetic helpers", "uutility.h"), ("folds", "unumeric.h")]),
P("C19", "list, queue, stack and adaptors keep their sequence discipline",
  "A list, queue or stack holds exactly the elements that were inserted and not removed, in the order its discipline prescribes. push, pop, insert, erase, splice, merge, remove, unique, reverse and sort do what they document and leave every other element in place.",
  ["inputs", "histories"], ANY, "Tests run one short script each.",
  ["ulist.h", "uqueue.h", "ustack.h"], [("sequence operations on the underlying vector", "ulist.h, uqueue.h, ustack.h")]),
P("C20", "Uninitialised-memory algorithms construct and destroy every element once",
  "uninitialized_copy, uninitialized_fill and their counted forms construct exactly the elements of the output range with the right values, and destroy and construct ranges run each element's destructor or constructor exactly once. Nothing outside the range is touched.",
  ["inputs"], ANY, "Tests construct a few objects.",
  ["umemory.h"], [("construct, destroy, uninitialized_copy ...", "umemory.h")]),
P("C21", "Tuple, array and iterator adaptors map elements one to one",
  "Element-wise operations on tuples and arrays apply the operation to corresponding elements and to all of them, and comparisons are lexicographic. Reverse, insert, move, index and back-insert iterators designate the element their definition names and step accordingly.",
  ["inputs"], "every element value", "Tests use a few values.",
  ["utuple.h", "uarray.h", "uiterator.h", "ulaalgo.h"], [("element-wise loops", "utuple.h, ulaalgo.h, uarray.h"), ("iterator adaptors", "uiterator.h")]),
P("C22", "Text streams format and parse numbers and words losslessly",
  "Writing values to an ostringstream and reading them from an istringstream yields the values again, in every base and for every width. Delimiters, line reads and limited buffers are honoured exactly.",
  ["inputs", "histories"], "every value, base, width and delimiter set", "Tests format a few values.",
  ["sostream.cc", "sistream.cc", "sostream.h", "sistream.h"], [("formatting and tokenising", "sostream.cc, sistream.cc")]),
P("C23", "Concurrent reference counts and atomics lose no update",
  "Concurrent use of atomic objects and of shared pointers to one object loses no update and destroys the object once.",
  ["schedules"], "every interleaving of threads", "Tests are single threaded.",
  ["uatomic.h", "umemory.h"], [("compiler atomics", "uatomic.h")]),
P("C24", "File streams transfer exactly the bytes and report every error",
  "File streams read and write exactly the bytes the operating system transfers, resume after short transfers and report every failing call.",
  ["fault_sequences"], "every sequence of system-call results", "Tests write one file and force one error.",
  ["fstream.cc", "ofstream.cc"], [("system-call wrappers", "fstream.cc")]),
]
NA = json.load(open(HERE + "/tools/na.json"))
LEVEL = json.load(open(HERE + "/tools/level_notes.json"))
def claimed():
    s = set()
    for f in glob.glob(HERE + "/contracts/c[0-9][0-9]*.py"): s |= set(re.findall(r'"(C\d\d)"', open(f).read()))
    return s
if __name__ == "__main__":
    cl = claimed() - set(NA)
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    TECH = "contract-based deductive verification of the real code (compiled to IR on every run; every obligation discharged by z3, unbounded)"
    NOTE = "Every listed function, instantiated on representative types, meets its contract for all inputs and all iterations: loops by inductive invariants checked on the real code, memory safety and frame included. Trusted: the C++ front end, the verification-condition generator in vf/, z3. "
    m = dict(version=1, setup_cmd="python3-vt /verif/setup.py",
        checks=[dict(property=p["id"], quick_cmd="python3-vt /verif/check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt /verif/check.py %s --tier thorough" % p["id"],
                     technique=TECH, level="proof", level_note=(NOTE + LEVEL.get(p["id"], "")).strip()) for p in PROPS if p["id"] in cl],
        not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no contract built for it yet")) for p in PROPS if p["id"] not in cl])
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
    print("claimed", sorted(cl))
